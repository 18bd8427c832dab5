From ace3a9f364bc523158f5d23da468ddc1d06953b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 01/52] fix: popping the messages of a work mixes up the lists
 of the other senders

---
 core/cache/message_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cache/message_cache.go b/core/cache/message_cache.go
index 490c221..e8a091a 100644
--- a/core/cache/message_cache.go
+++ b/core/cache/message_cache.go
@@ -60,13 +60,13 @@ func (c *MessageCache) getAllMessages(workId string, update bool, filter map[com
 	defer c.cacheLock.Unlock()
 
 	result := make([]*commonTypes.TssMessage, 0)
-	newList := make([]*commonTypes.TssMessage, 0)
 
 	for _, value := range c.cache {
 		if value == nil {
 			continue
 		}
 
+		newList := make([]*commonTypes.TssMessage, 0)
 		for _, msg := range value.msgs {
 			if msg.WorkId == workId && (filter == nil || filter[msg.Type]) {
 				result = append(result, msg)
-- 
2.43.0


From 82fce30d3062298c8b5f24be7e0ddbfd0a8b1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 02/52] fix: evicting an old queue entry removes a newer entry
 with the same key

---
 tools/circular_queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/circular_queue.go b/tools/circular_queue.go
index 006be56..cedd69a 100644
--- a/tools/circular_queue.go
+++ b/tools/circular_queue.go
@@ -44,7 +44,11 @@ func (q *defaultCircularQueue) Add(key string, T any) {
 
 	// Remove old item from the map. The item in the queue will be overwritten.
 	if q.tail-q.head >= q.size {
-		delete(q.m, q.queue[q.head%q.size].key)
+		oldest := q.queue[q.head%q.size]
+		// The key could have been added again after this item. Keep the newer item in that case.
+		if q.m[oldest.key] == oldest {
+			delete(q.m, oldest.key)
+		}
 		q.head++
 	}
 
-- 
2.43.0


From d3a31ba4b0779da810bdd831903460be82537cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 03/52] fix: presign manager keeps its lock when another
 signing took the presigns

---
 core/components/available_presign_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index d34f0af..895d8d1 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -142,6 +142,7 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 				delete(m.available, selectedPidstring)
 			}
 		} else {
+			m.lock.Unlock()
 			return []string{}, []*tss.PartyID{}
 		}
 	}
-- 
2.43.0


From ece72b9acedfaaaabde5b12a5664569cbd8d6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 04/52] fix: inserting a request into the middle of the queue
 overwrites the request behind it

---
 core/request_queue.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/request_queue.go b/core/request_queue.go
index 0df687d..1776cd3 100644
--- a/core/request_queue.go
+++ b/core/request_queue.go
@@ -51,11 +51,10 @@ func (q *requestQueue) AddWork(work *types.WorkRequest) bool {
 		q.queue = append([]*types.WorkRequest{work}, q.queue...)
 	} else {
 		// Insert into the middle of the queue
-		first := q.queue[:position+1]
-		second := q.queue[position+1:]
-
-		q.queue = append(first, work)
-		q.queue = append(q.queue, second...)
+		queue := make([]*types.WorkRequest, 0, len(q.queue)+1)
+		queue = append(queue, q.queue[:position+1]...)
+		queue = append(queue, work)
+		q.queue = append(queue, q.queue[position+1:]...)
 	}
 
 	return true
-- 
2.43.0


From 0e1f6fea564d580a463c0dfac85f4870239201f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 05/52] fix: presigns of a batch cannot be stored because their
 work id is the primary key

---
 db/migrations/002_create_presign_table.up.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/migrations/002_create_presign_table.up.sql b/db/migrations/002_create_presign_table.up.sql
index 2149182..1ebd037 100644
--- a/db/migrations/002_create_presign_table.up.sql
+++ b/db/migrations/002_create_presign_table.up.sql
@@ -5,5 +5,5 @@ CREATE TABLE IF NOT EXISTS presign(
   status VARCHAR(64),
   presign_output BLOB,
   created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
-  PRIMARY KEY (work_id)
+  PRIMARY KEY (presign_id)
 );
-- 
2.43.0


From 58d84edf75bfe55e784cf05841b2189648aba04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 06/52] fix: loaded presigns and statuses do not correspond to
 the requested ids

---
 db/database.go | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/db/database.go b/db/database.go
index d9b3156..6ec1745 100644
--- a/db/database.go
+++ b/db/database.go
@@ -445,7 +445,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	// 1. Construct the query
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT presign_output FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, presign_output FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -459,11 +459,12 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	// 2. Scan every rows and save it to loaded map
+	loaded := make(map[string]*ecsigning.SignatureData_OneRoundData)
 	for rows.Next() {
+		var presignId string
 		var bz []byte
-		if err := rows.Scan(&bz); err != nil {
+		if err := rows.Scan(&presignId, &bz); err != nil {
 			log.Error("Cannot unmarshall data", err)
 			return nil, err
 		}
@@ -474,7 +475,18 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 			return nil, err
 		}
 
-		results = append(results, &data)
+		loaded[presignId] = &data
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// 3. Return the presigns in the order of the ids.
+	results := make([]*ecsigning.SignatureData_OneRoundData, len(presignIds))
+	for i, presignId := range presignIds {
+		if results[i] = loaded[presignId]; results[i] == nil {
+			return nil, fmt.Errorf("presign %s: %w", presignId, ErrNotFound)
+		}
 	}
 
 	return results, nil
@@ -483,7 +495,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT status FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, status FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -497,15 +509,28 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]string, 0)
+	// 2. Scan every rows and save it to loaded map
+	loaded := make(map[string]string)
 	for rows.Next() {
-		var status string
-		if err := rows.Scan(&status); err != nil {
+		var presignId, status string
+		if err := rows.Scan(&presignId, &status); err != nil {
 			log.Error("Cannot load status", err)
 			return nil, err
 		}
-		results = append(results, status)
+		loaded[presignId] = status
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// 3. Return the statuses in the order of the ids.
+	results := make([]string, len(presignIds))
+	for i, presignId := range presignIds {
+		status, ok := loaded[presignId]
+		if !ok {
+			return nil, fmt.Errorf("presign %s: %w", presignId, ErrNotFound)
+		}
+		results[i] = status
 	}
 
 	return results, nil
-- 
2.43.0


From f70d484500b88580c39f78c959207f47998c5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 07/52] fix: peers are not stored, and their key type is loaded
 from the wrong column

---
 db/database.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index 6ec1745..51b1425 100644
--- a/db/database.go
+++ b/db/database.go
@@ -554,10 +554,19 @@ func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
+	if len(peers) == 0 {
+		return nil
+	}
+
 	query := "INSERT INTO peers (`address`, pubkey, pubkey_type) VALUES "
 	query = query + getQueryQuestionMark(len(peers), 3)
 
-	_, err := d.db.Exec(query)
+	params := make([]interface{}, 0, len(peers)*3)
+	for _, peer := range peers {
+		params = append(params, peer.Address, peer.PubKey, peer.PubKeyType)
+	}
+
+	_, err := d.db.Exec(query, params...)
 	if err != nil {
 		return err
 	}
@@ -587,7 +596,7 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peer := &p2ptypes.Peer{
 			Address:    nullableAddress.String,
 			PubKey:     nullablePubkey.String,
-			PubKeyType: nullablePubkey.String,
+			PubKeyType: nullableKeytype.String,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From f5d90111ca80486dfb5be936e48123c16f0ca3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 08/52] fix: presigns that are already used or missing can be
 marked as used again

---
 db/database.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/db/database.go b/db/database.go
index 51b1425..127955e 100644
--- a/db/database.go
+++ b/db/database.go
@@ -536,21 +536,39 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	return results, nil
 }
 
+// UpdatePresignStatus marks unused presigns as used. If any of them does not exist or has been used
+// before, no presign is marked and an error is returned.
 func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 	presignString := getQueryQuestionMark(1, len(presignIds))
 	query := fmt.Sprintf( //nolint
-		"UPDATE presign SET status = ? WHERE presign_id IN %s",
+		"UPDATE presign SET status = ? WHERE status = ? AND presign_id IN %s",
 		presignString,
 	)
 
-	interfaceArr := make([]interface{}, len(presignIds)+1)
-	interfaceArr[0] = PresignStatusUsed
-	for i, presignId := range presignIds {
-		interfaceArr[i+1] = presignId
+	interfaceArr := make([]interface{}, 0, len(presignIds)+2)
+	interfaceArr = append(interfaceArr, PresignStatusUsed, PresignStatusNotUsed)
+	for _, presignId := range presignIds {
+		interfaceArr = append(interfaceArr, presignId)
 	}
 
-	_, err := d.db.Exec(query, interfaceArr...)
-	return err
+	tx, err := d.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+
+	result, err := tx.Exec(query, interfaceArr...)
+	if err != nil {
+		return err
+	}
+
+	if count, err := result.RowsAffected(); err != nil {
+		return err
+	} else if count != int64(len(presignIds)) {
+		return fmt.Errorf("only %d of %d presigns are available", count, len(presignIds))
+	}
+
+	return tx.Commit()
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
-- 
2.43.0


From 054b19fb3a3d29884a2212718a40544060665dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 09/52] fix: members use presigns without marking them, so
 another leader can announce them again

---
 worker/prework_selection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index f25e443..4ca73a7 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -369,6 +369,10 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 			if s.request.IsSigning() && len(msg.PresignIds) > 0 {
 				// Check if the leader is giving us a valid presign id set.
 				signingInput, err := s.db.LoadPresign(msg.PresignIds)
+				if err == nil && len(signingInput) > 0 {
+					// A presign must not be used in two signings. Claim the presigns before using them.
+					err = s.db.UpdatePresignStatus(msg.PresignIds)
+				}
 				if err != nil || len(signingInput) == 0 {
 					log.Error("Cannot load presign, err =", err, " len(signingInput) = ", len(signingInput))
 					s.broadcastResult(SelectionResult{
-- 
2.43.0


From d8552546239cfced0e5421afa69c8dfbc198e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 10/52] fix: members give up on a selection before the leader
 does

---
 core/config/timeout.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/config/timeout.go b/core/config/timeout.go
index 90b2df1..742d09d 100644
--- a/core/config/timeout.go
+++ b/core/config/timeout.go
@@ -21,7 +21,7 @@ func NewDefaultTimeoutConfig() TimeoutConfig {
 		SigningJobTimeout:      defaultJobTimeout,
 		PresignJobTimeout:      defaultJobTimeout,
 		MonitorMessageTimeout:  time.Second * 15,
-		SelectionLeaderTimeout: selectionLeaderTimeout + time.Second*15,
-		SelectionMemberTimeout: selectionLeaderTimeout,
+		SelectionLeaderTimeout: selectionLeaderTimeout,
+		SelectionMemberTimeout: selectionLeaderTimeout + time.Second*15,
 	}
 }
-- 
2.43.0


From ed256e4f35f3f29c5f642dcc915e619a5372f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 11/52] fix: an unsupported public key type crashes the node

---
 utils/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/crypto.go b/utils/crypto.go
index 656fdc5..a026d83 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -76,7 +76,7 @@ func GetCosmosPubKey(keyType string, keyBytes []byte) (ctypes.PubKey, error) {
 		pubKey = &secp256k1.PubKey{Key: keyBytes}
 
 	default:
-		err := fmt.Errorf("Unsupported pub key type %s", pubKey.Type())
+		err := fmt.Errorf("Unsupported pub key type %s", keyType)
 		log.Error(err)
 		return nil, err
 	}
-- 
2.43.0


From 4a951bba8bd34a5cdad3a18807d9c94ad60746a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 12/52] fix: decrypting truncated data crashes the node

---
 utils/crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/crypto.go b/utils/crypto.go
index a026d83..250588d 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -26,6 +26,9 @@ func AESDecrypt(encrypted []byte, key []byte) ([]byte, error) {
 	}
 
 	nonceSize := gcm.NonceSize()
+	if len(encrypted) < nonceSize {
+		return nil, fmt.Errorf("encrypted data is too short: %d bytes", len(encrypted))
+	}
 	nonce, encrypted := encrypted[:nonceSize], encrypted[nonceSize:]
 	decrypted, err := gcm.Open(nil, nonce, encrypted, nil)
 
-- 
2.43.0


From b9087c0def200bc83f7943e91b748a6062167da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 13/52] fix: sending to an unknown party leaves the node list
 locked and skips the other parties

---
 core/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index f04dc23..90ddcd8 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -363,11 +363,11 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 			continue
 		}
 
-		node := engine.getNodeFromPeerId(pid.Id)
+		node := engine.nodes[pid.Id]
 
 		if node == nil {
 			log.Errorf("Cannot find node with party key %s", pid.Id)
-			return
+			continue
 		}
 
 		peerIds = append(peerIds, node.PeerId)
-- 
2.43.0


From ee65ce781136e94a2320394ab74803c7c8392e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 14/52] fix: taking the work lock twice while processing a
 message can deadlock the engine

---
 core/engine.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 90ddcd8..9c2e5b6 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -194,7 +194,7 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		addToCache := false
 
 		engine.workLock.RLock()
-		worker := engine.getWorker(tssMsg.WorkId)
+		worker := engine.workers[tssMsg.WorkId]
 		if worker == nil {
 			// This could be the case when a worker has not started yet. Save it to the cache.
 			engine.preworkCache.AddMessage(tssMsg)
@@ -290,13 +290,6 @@ func (engine *defaultEngine) getNodeFromPeerId(peerId string) *Node {
 	return engine.nodes[peerId]
 }
 
-func (engine *defaultEngine) getWorker(workId string) worker.Worker {
-	engine.workLock.RLock()
-	defer engine.workLock.RUnlock()
-
-	return engine.workers[workId]
-}
-
 // Broadcast a message to everyone in a list.
 func (engine *defaultEngine) BroadcastMessage(pIDs []*tss.PartyID, tssMessage *common.TssMessage) {
 	if tssMessage.To == engine.myPid.Id {
-- 
2.43.0


From bcef9fcf139ce04786c583a5e9fc0e12e99180c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 15/52] fix: the node list is read without its lock when a peer
 asks for a message

---
 core/engine.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 9c2e5b6..586d417 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -231,10 +231,8 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	}
 
 	var dest *tss.PartyID
-	for _, node := range engine.nodes {
-		if node.PartyId.Id == tssMsg.From {
-			dest = node.PartyId
-		}
+	if node := engine.getNodeFromPeerId(tssMsg.From); node != nil {
+		dest = node.PartyId
 	}
 
 	if dest != nil {
-- 
2.43.0


From 574456ddfb24952754fc4dbe4581d59936c109bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 16/52] fix: concurrent requests start more than the maximum
 number of works, or a work twice

---
 core/engine.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 586d417..5a3e750 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -141,14 +141,20 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 		}
 	}
 
-	if engine.requestQueue.AddWork(request) {
+	// Do not add a work that is being executed.
+	engine.workLock.RLock()
+	_, running := engine.workers[request.WorkId]
+	added := !running && engine.requestQueue.AddWork(request)
+	engine.workLock.RUnlock()
+
+	if added {
 		engine.startNextWork()
 	}
 
 	return nil
 }
 
-// startWork creates a new worker to execute a new task.
+// startWork creates a new worker to execute a new task. The caller must hold the work lock.
 func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	var w worker.Worker
 	// Make a copy of myPid since the index will be changed during the TSS work.
@@ -165,8 +171,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 			engine.config, MaxBatchSize, engine.presignsManager)
 	}
 
-	engine.workLock.Lock()
-
 	engine.workers[request.WorkId] = w
 	cachedMsgs := engine.preworkCache.PopAllMessages(request.WorkId, nil)
 	log.Info("Starting a work with id ", request.WorkId, " with cache size ", len(cachedMsgs))
@@ -174,8 +178,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	if err := w.Start(cachedMsgs); err != nil {
 		log.Error("Cannot start work error = ", err)
 	}
-
-	engine.workLock.Unlock()
 }
 
 // ProcessNewMessage processes new incoming tss message from network.
@@ -248,14 +250,15 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
-	engine.workLock.Unlock()
 
 	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
 	for id := range engine.workers {
 		s += id
 	}
-	log.Verbosef(s)
+	engine.workLock.Unlock()
+
+	log.Verbose(s)
 
 	// Start next work
 	engine.startNextWork()
@@ -264,16 +267,17 @@ func (engine *defaultEngine) finishWorker(workId string) {
 // startNextWork gets a request from the queue (if not empty) and execute it. If there is no
 // available worker, wait for one of the current worker to finish before running.
 func (engine *defaultEngine) startNextWork() {
+	// Starting the work must be in the same critical section. Otherwise, more than MaxWorker works
+	// could be started.
 	engine.workLock.Lock()
+	defer engine.workLock.Unlock()
+
 	if len(engine.workers) >= MaxWorker {
 		log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
-		engine.workLock.Unlock()
 		return
 	}
 
 	nextWork := engine.requestQueue.Pop()
-	engine.workLock.Unlock()
-
 	if nextWork == nil {
 		return
 	}
-- 
2.43.0


From a81b879caf1c7fcb19ff1edac5c36f8247ed1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 17/52] fix: messages are accepted without checking who signed
 them

---
 core/engine.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index 5a3e750..2a96915 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -396,6 +396,30 @@ func (engine *defaultEngine) getSignedMessageBytes(tssMessage *common.TssMessage
 	return signedMessage, nil
 }
 
+// verifySignedMessage checks that a message is signed by the node it claims to be from.
+func (engine *defaultEngine) verifySignedMessage(signedMessage *common.SignedMessage) error {
+	tssMessage := signedMessage.TssMessage
+	if signedMessage.From != tssMessage.From {
+		return fmt.Errorf("message of %s is signed by %s", tssMessage.From, signedMessage.From)
+	}
+
+	signer := engine.getNodeFromPeerId(tssMessage.From)
+	if signer == nil {
+		return fmt.Errorf("cannot find the signer %s", tssMessage.From)
+	}
+
+	serialized, err := json.Marshal(tssMessage)
+	if err != nil {
+		return fmt.Errorf("error when marshalling message %w", err)
+	}
+
+	if !signer.PubKey.VerifySignature(serialized, signedMessage.Signature) {
+		return fmt.Errorf("invalid signature of %s", tssMessage.From)
+	}
+
+	return nil
+}
+
 // OnNetworkMessage implements P2PDataListener interface.
 func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 	node := engine.getNodeFromPeerId(message.FromPeerId)
@@ -416,7 +440,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
-	// TODO: Check message signature here.
+	if err := engine.verifySignedMessage(signedMessage); err != nil {
+		log.Error("Invalid message from ", message.FromPeerId, ", err = ", err)
+		return
+	}
+
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
-- 
2.43.0


From c822e356a3b423686727f10fa41281a85dcb86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 18/52] fix: an eddsa signing that this node is not selected
 for has no outcome

---
 core/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 2a96915..adc5f04 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -465,10 +465,10 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	switch request.WorkType {
-	case types.EcKeygen:
+	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
 
-	case types.EcSigning:
+	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
 			Outcome: htypes.OutcometNotSelected,
 		}
-- 
2.43.0


From 4b47a36b2009e55837a8dce2d2b1fd568f504b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 19/52] fix: malformed re-send requests and empty update
 messages crash the node

---
 core/engine.go              | 5 +++++
 types/common/tss_message.go | 9 ++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index adc5f04..42b6884 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"sync"
 
@@ -215,6 +216,10 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 }
 
 func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error {
+	if tssMsg.AskRequestMessage == nil {
+		return errors.New("ask request message is empty")
+	}
+
 	msgKey := tssMsg.AskRequestMessage.MsgKey
 	keys, err := commonTypes.ExtractMessageKey(msgKey)
 	if err != nil {
diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 7e9bacd..6ce1681 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -95,7 +95,7 @@ func (msg *TssMessage) IsBroadcast() bool {
 }
 
 func (msg *TssMessage) GetMessageKey() (string, error) {
-	if len(msg.UpdateMessages) == 0 {
+	if len(msg.UpdateMessages) == 0 || msg.UpdateMessages[0] == nil {
 		err := fmt.Errorf("empty update messages")
 		log.Error(err)
 		return "", err
@@ -115,9 +115,6 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	if len(msgKey) == 0 {
-		return nil, nil
-	}
 	keys := strings.Split(msgKey, "__")
 	if len(keys) < 4 {
 		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
@@ -125,7 +122,9 @@ func ExtractMessageKey(msgKey string) ([]string, error) {
 		return nil, err
 	}
 
-	return keys, nil
+	// The work id could contain the separator.
+	n := len(keys)
+	return []string{strings.Join(keys[:n-3], "__"), keys[n-3], keys[n-2], keys[n-1]}, nil
 }
 
 func GetPreworkSelectionMsgType() map[TssMessage_Type]bool {
-- 
2.43.0


From 402fc37eadb4eb1930337d35065881abe4f844f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 20/52] fix: any party can announce the selection result, and a
 second announcement blocks the node

---
 worker/prework_selection.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 4ca73a7..e0539b5 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -303,7 +303,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && s.isLeaderOutput(msg) {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -441,9 +441,15 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 			return fmt.Errorf("error when processing execution response %w", err)
 		}
 	case common.TssMessage_PRE_EXEC_OUTPUT:
-		// This output of workParticipantCh is called only once. We do checking for pids length to
-		// make sure we only send message to this channel once.
-		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
+		if !s.isLeaderOutput(tssMsg) {
+			return fmt.Errorf("invalid selection output from %s", tssMsg.From)
+		}
+
+		// Only the first output is used. Do not block when there are more of them.
+		select {
+		case s.preExecMsgCh <- tssMsg.PreExecOutputMessage:
+		default:
+		}
 
 	default:
 		return errors.New("defaultPreworkSelection: invalid message " + tssMsg.Type.String())
@@ -452,6 +458,11 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 	return nil
 }
 
+// isLeaderOutput returns true if this message is a selection output of the leader of this work.
+func (s *PreworkSelection) isLeaderOutput(tssMsg *commonTypes.TssMessage) bool {
+	return tssMsg.From == s.leader.Id && tssMsg.PreExecOutputMessage != nil
+}
+
 func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage) error {
 	sender := utils.GetPartyIdFromString(tssMsg.From, s.allParties)
 
-- 
2.43.0


From 288438b29ee8208b9ff25dfd72c58638e0152fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 21/52] fix: members accept selections with repeated parties or
 a wrong number of presigns

---
 worker/prework_selection.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index e0539b5..331a411 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -369,11 +369,11 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 			if s.request.IsSigning() && len(msg.PresignIds) > 0 {
 				// Check if the leader is giving us a valid presign id set.
 				signingInput, err := s.db.LoadPresign(msg.PresignIds)
-				if err == nil && len(signingInput) > 0 {
+				if err == nil && len(signingInput) == len(msg.PresignIds) {
 					// A presign must not be used in two signings. Claim the presigns before using them.
 					err = s.db.UpdatePresignStatus(msg.PresignIds)
 				}
-				if err != nil || len(signingInput) == 0 {
+				if err != nil || len(signingInput) != len(msg.PresignIds) {
 					log.Error("Cannot load presign, err =", err, " len(signingInput) = ", len(signingInput))
 					s.broadcastResult(SelectionResult{
 						Success: false,
@@ -414,11 +414,18 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	pids := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-		if partyId == nil {
+		if partyId == nil || pids[pid] {
 			return false
 		}
+		pids[pid] = true
+	}
+
+	if s.request.IsSigning() && len(msg.PresignIds) > 0 && len(msg.PresignIds) != len(s.request.Messages) {
+		// There must be one presign for each message.
+		return false
 	}
 
 	return true
-- 
2.43.0


From d528fbf7c4e0d007cb8f78fdf18977f0452346c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 22/52] fix: late or malformed availability responses block or
 crash the node

---
 worker/prework_selection.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 331a411..871fb9b 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -50,6 +50,7 @@ type PreworkSelection struct {
 	callback         func(SelectionResult)
 	preExecMsgCh     chan *common.PreExecOutputMessage
 	memberResponseCh chan *common.TssMessage
+	done             chan struct{} // closed when the selection finishes.
 	cfg              config.TimeoutConfig
 
 	///////////////////////
@@ -80,6 +81,7 @@ func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID,
 		preExecMsgCh:     make(chan *commonTypes.PreExecOutputMessage, 1),
 		presignsManager:  presignsManager,
 		memberResponseCh: make(chan *commonTypes.TssMessage, len(allParties)),
+		done:             make(chan struct{}),
 		callback:         callback,
 		stopped:          atomic.NewBool(false),
 		cfg:              cfg,
@@ -128,7 +130,8 @@ func (s *PreworkSelection) Stop() {
 func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssMessage) {
 	// Update availability from cache first.
 	for _, tssMsg := range cachedMsgs {
-		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
+		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage != nil &&
+			tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
 			// update the availability.
 			for _, p := range s.allParties {
 				if p.Id == tssMsg.From {
@@ -433,6 +436,7 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
 	s.stopped.Store(true)
+	close(s.done)
 
 	s.callback(result)
 }
@@ -490,8 +494,18 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 }
 
 func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage) error {
-	// TODO: Check if we have finished selection process. Otherwise, this could create a blocking
-	// operation.
-	s.memberResponseCh <- tssMsg
+	if tssMsg.AvailabilityResponseMessage == nil {
+		return fmt.Errorf("invalid availability response from %s", tssMsg.From)
+	}
+
+	if s.myPid.Id != s.leader.Id {
+		return errors.New("availability response is sent to a node that is not the leader")
+	}
+
+	select {
+	case s.memberResponseCh <- tssMsg:
+	case <-s.done:
+		// The selection has finished, nobody reads the responses anymore.
+	}
 	return nil
 }
-- 
2.43.0


From def1de8559abdd753a9f01905d4fd111ccd96809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 23/52] fix: a selection with enough signers fails if a
 response is handled at the deadline

---
 worker/prework_selection.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 871fb9b..edfd2e1 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -175,16 +175,10 @@ func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssM
 
 func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, error) {
 	// Wait for everyone to reply or timeout.
-	end := time.Now().Add(s.cfg.SelectionLeaderTimeout)
+	timeout := time.After(s.cfg.SelectionLeaderTimeout)
 	for {
-		now := time.Now()
-		if now.After(end) {
-			break
-		}
-
-		timeDiff := end.Sub(now)
 		select {
-		case <-time.After(timeDiff):
+		case <-timeout:
 			if s.request.IsSigning() && s.availableParties.Length() >= s.request.Threshold+1 {
 				log.Info("Wait timeouted for signing but we got enough participants for presign.")
 				// We have enough online participants but cannot find a presign set for all of them. This
@@ -229,8 +223,6 @@ func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, er
 			}
 		}
 	}
-
-	return nil, nil, errors.New("cannot find enough members for this work")
 }
 
 // checkEnoughParticipants is a function called by the leader in the election to see if we have
-- 
2.43.0


From 9520f20239ee299ba18b03ce7b8449a00c4c696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 24/52] fix: a party list of length zero contains all parties

---
 worker/available_parties.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/worker/available_parties.go b/worker/available_parties.go
index fa6b29f..08f1abb 100644
--- a/worker/available_parties.go
+++ b/worker/available_parties.go
@@ -67,14 +67,15 @@ func (ap *AvailableParties) getPartyList(n int, excludeParty *tss.PartyID) []*ts
 
 	arr := make([]*tss.PartyID, 0, n)
 	for _, partyInfo := range ap.parties {
+		if len(arr) == n {
+			break
+		}
+
 		if partyInfo.partyId.Id == excludeParty.Id {
 			continue
 		}
 
 		arr = append(arr, partyInfo.partyId)
-		if len(arr) == n {
-			break
-		}
 	}
 
 	return arr
-- 
2.43.0


From 3e2709e1040fb479f1398385cab6d2c36409b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 25/52] fix: update messages that do not match the batch crash
 the node

---
 worker/default_worker.go  | 5 ++---
 worker/worker_executor.go | 8 ++++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index e6e0992..1e1f144 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -264,7 +264,7 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 			// We have not started execution yet.
 			w.preExecutionCache.AddMessage(msg)
 			addToCache = true
-			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id, msg.UpdateMessages[0].Round)
+			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id)
 		}
 
 		w.lock.RUnlock()
@@ -272,8 +272,7 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 		if !addToCache && w.executor != nil {
 			err := w.executor.ProcessUpdateMessage(msg)
 			if err != nil {
-				log.Errorf("Failed to process update message %s, %s, err = %s", w.workId,
-					msg.UpdateMessages[0].Round, err)
+				log.Errorf("Failed to process update message %s, err = %s", w.workId, err)
 			}
 		}
 
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 59343e0..3efbccc 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -346,8 +346,16 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 		return errors.New("sender is nil")
 	}
 
+	if len(tssMsg.UpdateMessages) != len(msgs) || len(jobs) != len(msgs) {
+		return fmt.Errorf("expected %d update messages for %d jobs, got %d", len(msgs), len(jobs), len(tssMsg.UpdateMessages))
+	}
+
 	for i := range jobs {
 		updateMessage := tssMsg.UpdateMessages[i]
+		if updateMessage == nil {
+			return fmt.Errorf("update message %d is empty", i)
+		}
+
 		msg, err := tss.ParseWireMessage(updateMessage.Data, from, tssMsg.IsBroadcast())
 		if err != nil {
 			return fmt.Errorf("error when parsing wire message %w", err)
-- 
2.43.0


From 451f80822b435c320c34045c90c4758728ca6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 26/52] fix: a key generation without preparams crashes the
 node

---
 worker/worker_executor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 3efbccc..5b268a4 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -121,7 +121,12 @@ func NewWorkerExecutor(
 func (w *WorkerExecutor) Init() (err error) {
 	if w.workType == wTypes.EcKeygen {
 		if w.request.EcKeygenInput == nil {
-			err = w.loadPreparams()
+			if err = w.loadPreparams(); err != nil {
+				w.broadcastResult(ExecutionResult{
+					Success: false,
+				})
+				return err
+			}
 		} else {
 			w.ecKeygenInput = w.request.EcKeygenInput
 		}
-- 
2.43.0


From a519bde7b925618aa10515c2192c5068aa431d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 27/52] fix: a finished ecdsa signing job drops its last
 message and can report a second result

---
 core/message/tss_phase_messages.go | 11 +++++++++--
 worker/job.go                      |  8 +++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 835ab9d..c7f98c0 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -76,7 +76,9 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	}
 }
 
-func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool) int {
+// GetMessageCountByWorkType returns the number of message types that a job produces. isPresign is
+// true if a signing uses a presign and isPresigning is true if it produces one.
+func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool, isPresigning bool) int {
 	switch jobType {
 	case wtypes.EcKeygen:
 		return 4
@@ -85,7 +87,12 @@ func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool) int {
 			return 1
 		}
 
-		return 7
+		// The last message is only produced when there is something to sign.
+		if isPresigning {
+			return 7
+		}
+
+		return 8
 	case wtypes.EdKeygen:
 		return 3
 	case wtypes.EdSigning:
diff --git a/worker/job.go b/worker/job.go
index b95e382..412a0ca 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -59,6 +59,7 @@ type Job struct {
 
 	// Ecdsa
 	hasPresignData bool
+	isPresigning   bool
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -119,6 +120,7 @@ func NewEcSigningJob(
 	job := baseJob(workId, index, party, wTypes.EcSigning, callback, outCh, timeOut)
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
+	job.isPresigning = msg == nil
 
 	return job
 }
@@ -157,7 +159,7 @@ func NewEdSigningJob(
 
 	party := edsigning.NewLocalParty(new(big.Int).SetBytes(msg), params, signingInput, outCh, endCh)
 
-	job := baseJob(workId, index, party, wTypes.EdKeygen, callback, outCh, timeOut)
+	job := baseJob(workId, index, party, wTypes.EdSigning, callback, outCh, timeOut)
 	job.edEndSigningCh = endCh
 
 	return job
@@ -219,7 +221,7 @@ func (job *Job) startListening() {
 	for {
 		select {
 		case <-time.After(endTime.Sub(time.Now())):
-			if !job.isDone() {
+			if !job.doneEndCh.Load() {
 				log.Warn("Job timeout waiting for end channel")
 				go job.callback.OnJobResult(job, JobResult{
 					Success: false,
@@ -300,7 +302,7 @@ func (job *Job) addOutMessage(msg tss.Message) {
 	count := len(job.finishedMsgs)
 	job.finishLock.Unlock()
 
-	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData) {
+	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData, job.isPresigning) {
 		// Mark the outCh done
 		job.doneOutCh.Store(true)
 	}
-- 
2.43.0


From 0e745de27a2765689ca6093c505b839b55b26ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 28/52] fix: missing messages are not detected for eddsa works
 and for signings that use presigns

---
 core/message/tss_phase_messages.go   | 31 ++++++++++++++++++++++++++--
 worker/components/message_monitor.go |  6 +++---
 worker/worker_executor.go            |  4 +++-
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index c7f98c0..12e5444 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -103,7 +103,9 @@ func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool, isPresig
 	}
 }
 
-func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
+// GetMessagesByWorkType returns all messages that a party sends in a job, in the order they are
+// sent. An ecdsa signing that uses a presign only has the last message.
+func GetMessagesByWorkType(jobType wtypes.WorkType, isPresign bool) []string {
 	switch jobType {
 	case wtypes.EcKeygen:
 		return []string{
@@ -114,6 +116,12 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 		}
 
 	case wtypes.EcSigning:
+		if isPresign {
+			return []string{
+				string(proto.MessageName(&ecsigning.SignRound7Message{})),
+			}
+		}
+
 		return []string{
 			string(proto.MessageName(&ecsigning.SignRound1Message1{})),
 			string(proto.MessageName(&ecsigning.SignRound1Message2{})),
@@ -124,6 +132,20 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 			string(proto.MessageName(&ecsigning.SignRound6Message{})),
 			string(proto.MessageName(&ecsigning.SignRound7Message{})),
 		}
+
+	case wtypes.EdKeygen:
+		return []string{
+			string(proto.MessageName(&edkeygen.KGRound1Message{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message1{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		}
+
+	case wtypes.EdSigning:
+		return []string{
+			string(proto.MessageName(&edsigning.SignRound1Message{})),
+			string(proto.MessageName(&edsigning.SignRound2Message{})),
+			string(proto.MessageName(&edsigning.SignRound3Message{})),
+		}
 	}
 
 	return make([]string, 0)
@@ -140,7 +162,12 @@ func IsBroadcastMessage(msgType string) bool {
 		string(proto.MessageName(&ecsigning.SignRound4Message{})),
 		string(proto.MessageName(&ecsigning.SignRound5Message{})),
 		string(proto.MessageName(&ecsigning.SignRound6Message{})),
-		string(proto.MessageName(&ecsigning.SignRound7Message{})):
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+		string(proto.MessageName(&edkeygen.KGRound1Message{})),
+		string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		string(proto.MessageName(&edsigning.SignRound1Message{})),
+		string(proto.MessageName(&edsigning.SignRound2Message{})),
+		string(proto.MessageName(&edsigning.SignRound3Message{})):
 
 		return true
 	default:
diff --git a/worker/components/message_monitor.go b/worker/components/message_monitor.go
index 0885614..ab7178d 100644
--- a/worker/components/message_monitor.go
+++ b/worker/components/message_monitor.go
@@ -38,9 +38,9 @@ type DefaultMessageMonitor struct {
 	allMessages      []string // all messages that this node should receive from each peer
 }
 
-func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback MessageMonitorCallback,
+func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, isPresign bool, callback MessageMonitorCallback,
 	pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
-	allMessages := message.GetMessagesByWorkType(jobType)
+	allMessages := message.GetMessagesByWorkType(jobType, isPresign)
 	receivedMessages := make(map[string][]bool)
 	for pid := range pIDsMap {
 		receivedMessages[pid] = make([]bool, len(allMessages))
@@ -55,7 +55,7 @@ func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback Mes
 		callback:         callback,
 		pIDsMap:          pIDsMap,
 		receivedMessages: receivedMessages,
-		allMessages:      message.GetMessagesByWorkType(jobType),
+		allMessages:      allMessages,
 	}
 }
 
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 5b268a4..7edc0af 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -132,7 +132,9 @@ func (w *WorkerExecutor) Init() (err error) {
 		}
 	}
 
-	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
+	isPresign := len(w.ecPresignOutput) > 0 && w.ecPresignOutput[0] != nil
+	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, isPresign, w, w.pIDsMap,
+		w.cfg.MonitorMessageTimeout)
 	go w.messageMonitor.Start()
 
 	p2pCtx := tss.NewPeerContext(w.pIDs)
-- 
2.43.0


From 27b78e9a4d92e64bb364e99b5341b14296df88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 29/52] fix: requests that no worker can execute are accepted
 and crash the node or are never finished

---
 core/engine.go               | 12 ++++++++++++
 worker/types/work_request.go | 16 ++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/core/engine.go b/core/engine.go
index 42b6884..f27b449 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -134,20 +134,32 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 	}
 
 	// Make sure that we know all the partyid in the request.
+	isParty := false
 	for _, partyId := range request.AllParties {
 		key := partyId.Id
+		if key == engine.myPid.Id {
+			isParty = true
+		}
 		node := engine.getNodeFromPeerId(key)
 		if node == nil && key != engine.myPid.Id {
 			return fmt.Errorf("A party is the request cannot be found in the node list: %s", key)
 		}
 	}
 
+	if !isParty {
+		return fmt.Errorf("This node is not a party in the request %s", request.WorkId)
+	}
+
 	// Do not add a work that is being executed.
 	engine.workLock.RLock()
 	_, running := engine.workers[request.WorkId]
 	added := !running && engine.requestQueue.AddWork(request)
 	engine.workLock.RUnlock()
 
+	if running {
+		return fmt.Errorf("Work %s is being executed", request.WorkId)
+	}
+
 	if added {
 		engine.startNextWork()
 	}
diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index b87f7c9..bf51dd2 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -92,14 +92,30 @@ func baseRequest(workType WorkType, workdId string, n int, threshold int, pIDs t
 }
 
 func (request *WorkRequest) Validate() error {
+	if request == nil {
+		return errors.New("Request is empty")
+	}
+
 	switch request.WorkType {
 	case EcKeygen:
 	case EcSigning:
+		if request.EcSigningInput == nil {
+			return errors.New("Signing request does not have keygen data")
+		}
 	case EdKeygen:
 	case EdSigning:
+		if request.EdSigningInput == nil {
+			return errors.New("Signing request does not have keygen data")
+		}
 	default:
 		return errors.New("Invalid request type")
 	}
+
+	if request.IsSigning() && (request.BatchSize == 0 || len(request.Messages) != request.BatchSize ||
+		len(request.Chains) != request.BatchSize) {
+		return errors.New("Signing request must have a chain for each message and at least one message")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 9dd20ad2345be6cf99fee5b4ad03c74f1a18f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 30/52] fix: eddsa signings succeed with signatures that are
 not valid for their message

---
 core/engine_eddsa.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/engine_eddsa.go b/core/engine_eddsa.go
index 3097de1..801e159 100644
--- a/core/engine_eddsa.go
+++ b/core/engine_eddsa.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sisu-network/lib/log"
 	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
 	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
+	"github.com/sisu-network/tss-lib/tss"
 )
 
 func (engine *defaultEngine) onEdKeygenFinished(request *wtypes.WorkRequest, output *edkeygen.LocalPartySaveData) {
@@ -37,9 +38,14 @@ func (engine *defaultEngine) onEdSigningFinished(request *wtypes.WorkRequest, da
 
 	myKeygen := request.EdSigningInput
 	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
-	if !edwards.Verify(pubkey, request.Messages[0], new(big.Int).SetBytes(data[0].Signature.R),
-		new(big.Int).SetBytes(data[0].Signature.S)) {
-		log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[0]))
+	for i := range data {
+		if !edwards.Verify(pubkey, request.Messages[i], new(big.Int).SetBytes(data[i].Signature.R),
+			new(big.Int).SetBytes(data[i].Signature.S)) {
+			// For example, tss-lib does not sign the leading zeros of a message.
+			log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[i]))
+			engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
+			return
+		}
 	}
 
 	result := &htypes.KeysignResult{
-- 
2.43.0


From a8ea8fbe9ea9f78057b2240d355f97152cd0e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 31/52] fix: the request of a signing result is missing, leaked
 or accessed concurrently

---
 core/heart.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 26c2110..3912558 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -6,6 +6,7 @@ import (
 
 	"fmt"
 	"strconv"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -51,15 +52,17 @@ type Heart struct {
 	privateKey ctypes.PrivKey
 	aesKey     []byte
 
-	keysignRequests map[string]*htypes.KeysignRequest
+	keysignRequests    map[string]*htypes.KeysignRequest
+	keysignRequestLock *sync.Mutex
 }
 
 func NewHeart(config config.HeartConfig, client client.Client) *Heart {
 	return &Heart{
-		config:          config,
-		aesKey:          config.AesKey,
-		client:          client,
-		keysignRequests: make(map[string]*htypes.KeysignRequest),
+		config:             config,
+		aesKey:             config.AesKey,
+		client:             client,
+		keysignRequests:    make(map[string]*htypes.KeysignRequest),
+		keysignRequestLock: &sync.Mutex{},
 	}
 }
 
@@ -187,20 +190,28 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	clientRequest := h.keysignRequests[request.WorkId]
-	result.Request = clientRequest
+	// Remove this request.
+	result.Request = h.removeKeysignRequest(request.WorkId)
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
 		log.Error("Faield to post result back to sisu")
 	}
+}
 
-	// Remove this request.
-	delete(h.keysignRequests, request.WorkId)
+// removeKeysignRequest removes and returns the client request of a work.
+func (h *Heart) removeKeysignRequest(workId string) *htypes.KeysignRequest {
+	h.keysignRequestLock.Lock()
+	defer h.keysignRequestLock.Unlock()
+
+	clientRequest := h.keysignRequests[workId]
+	delete(h.keysignRequests, workId)
+
+	return clientRequest
 }
 
 func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
-	clientRequest := h.keysignRequests[request.WorkId]
+	clientRequest := h.removeKeysignRequest(request.WorkId)
 
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
@@ -371,9 +382,19 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 			signMessages, chains, keygenData)
 	}
 
-	err := h.engine.AddRequest(workRequest)
+	// Save the request before the work is started since the work can finish at any time after that.
+	h.keysignRequestLock.Lock()
+	if _, ok := h.keysignRequests[workId]; ok {
+		h.keysignRequestLock.Unlock()
+		return fmt.Errorf("Work %s is being processed", workId)
+	}
+	h.keysignRequests[workId] = req
+	h.keysignRequestLock.Unlock()
 
-	h.keysignRequests[workRequest.WorkId] = req
+	err := h.engine.AddRequest(workRequest)
+	if err != nil {
+		h.removeKeysignRequest(workId)
+	}
 
 	return err
 }
-- 
2.43.0


From 43de5495ae152f3859319999a11cef4833575bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 32/52] fix: keygen or signing requests of unknown key types
 and without keygen data are not refused

---
 core/heart.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index 3912558..c556b2c 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -320,6 +320,8 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEcKeygenRequest(keyType, workId, sorted, utils.GetThreshold(n), nil)
 	case libchain.KEY_TYPE_EDDSA:
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
+	default:
+		return fmt.Errorf("Unsupported key type: %s", keyType)
 	}
 
 	return h.engine.AddRequest(request)
@@ -364,6 +366,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		if err != nil {
 			return err
 		}
+		if presignInput == nil {
+			return fmt.Errorf("Keygen data not found for key type %s", req.KeyType)
+		}
 		workRequest = types.NewEcSigningRequest(
 			workId,
 			pids,
@@ -375,11 +380,16 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	case libchain.KEY_TYPE_EDDSA:
 		keygenData, err := h.db.LoadEdKeygen(req.KeyType)
 		if err != nil {
-			return nil
+			return err
+		}
+		if keygenData == nil {
+			return fmt.Errorf("Keygen data not found for key type %s", req.KeyType)
 		}
 
 		workRequest = types.NewEdSigningRequest(workId, pids, utils.GetThreshold(len(pids)),
 			signMessages, chains, keygenData)
+	default:
+		return fmt.Errorf("Unsupported key type: %s", req.KeyType)
 	}
 
 	// Save the request before the work is started since the work can finish at any time after that.
-- 
2.43.0


From d9c0c6f534f646a02e3beec6fbd727f1ee6e9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 33/52] fix: a request with an invalid public key crashes the
 node

---
 core/heart.go     |  8 +++++++-
 core/node.go      | 21 ++++++++++++++++-----
 server/tss_api.go | 14 ++++----------
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index c556b2c..f3e4e8d 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -301,9 +301,12 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
+	nodes := NewNodes(tPubKeys)
+	if n == 0 || len(nodes) != n {
+		return fmt.Errorf("Invalid public keys")
+	}
 	h.valPubkeys = tPubKeys
 
-	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
 	pids := make([]*tss.PartyID, n)
@@ -338,6 +341,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 
 	n := len(tPubKeys)
 	nodes := NewNodes(tPubKeys)
+	if n == 0 || len(nodes) != n {
+		return fmt.Errorf("Invalid public keys")
+	}
 	pids := make([]*tss.PartyID, n)
 	for i, node := range nodes {
 		pids[i] = node.PartyId
diff --git a/core/node.go b/core/node.go
index bad9ea0..f73398c 100644
--- a/core/node.go
+++ b/core/node.go
@@ -17,7 +17,13 @@ type Node struct {
 	PartyId *tss.PartyID
 }
 
+// NewNode creates a node. It returns nil if the public key is not valid.
 func NewNode(pubKey ctypes.PubKey) *Node {
+	if pubKey == nil {
+		log.Error("Pub key is empty")
+		return nil
+	}
+
 	var p2pPubKey crypto.PubKey
 	var err error
 	switch pubKey.Type() {
@@ -46,14 +52,19 @@ func NewNode(pubKey ctypes.PubKey) *Node {
 	}
 }
 
+// NewNodes creates the nodes, sorted by party id, of all valid keys.
 func NewNodes(tPubKeys []ctypes.PubKey) []*Node {
-	nodes := make([]*Node, len(tPubKeys))
-	pids := make([]*tss.PartyID, len(tPubKeys))
+	nodes := make([]*Node, 0, len(tPubKeys))
+	pids := make([]*tss.PartyID, 0, len(tPubKeys))
 
-	for i, pubKey := range tPubKeys {
+	for _, pubKey := range tPubKeys {
 		node := NewNode(pubKey)
-		nodes[i] = node
-		pids[i] = node.PartyId
+		if node == nil {
+			continue
+		}
+
+		nodes = append(nodes, node)
+		pids = append(pids, node.PartyId)
 	}
 
 	// Sort nodes by partyId
diff --git a/server/tss_api.go b/server/tss_api.go
index 17b6e92..81167fb 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -44,16 +44,10 @@ func (api *TssApi) KeyGen(keygenId string, chain string, keyWrappers []types.Pub
 
 	log.Infof("keygenId = %s, keyType = %s\n", keygenId, chain)
 
-	pubKeys := make([]ctypes.PubKey, len(keyWrappers))
-
-	for i, wrapper := range keyWrappers {
-		keyType := wrapper.KeyType
-		switch keyType {
-		case "ed25519":
-			pubKeys[i] = &ed25519.PubKey{Key: wrapper.Key}
-		case "secp256k1":
-			pubKeys[i] = &secp256k1.PubKey{Key: wrapper.Key}
-		}
+	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
+	if err != nil {
+		log.Error("Failed to get pubkey, err =", err)
+		return err
 	}
 
 	return api.heart.Keygen(keygenId, chain, pubKeys)
-- 
2.43.0


From e05b72bc78ffc29de242ba8aba410fc85c848693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 34/52] fix: signing requests without anything to sign crash
 the node or never finish

---
 core/heart.go     | 9 +++++++++
 server/tss_api.go | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/core/heart.go b/core/heart.go
index f3e4e8d..a19fbec 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -339,6 +339,15 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return ErrDheartNotReady
 	}
 
+	if req == nil || len(req.KeysignMessages) == 0 {
+		return fmt.Errorf("There is no message to sign")
+	}
+	for i, msg := range req.KeysignMessages {
+		if msg == nil || len(msg.BytesToSign) == 0 {
+			return fmt.Errorf("There is nothing to sign in message %d", i)
+		}
+	}
+
 	n := len(tPubKeys)
 	nodes := NewNodes(tPubKeys)
 	if n == 0 || len(nodes) != n {
diff --git a/server/tss_api.go b/server/tss_api.go
index 81167fb..ceee791 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -86,6 +86,10 @@ func (api *TssApi) getPubkeysFromWrapper(keyWrappers []types.PubKeyWrapper) ([]c
 }
 
 func (api *TssApi) KeySign(req *types.KeysignRequest, keyWrappers []types.PubKeyWrapper) error {
+	if req == nil {
+		return fmt.Errorf("keysign request is empty")
+	}
+
 	log.Info("There is keysign request with message length ", len(req.KeysignMessages))
 
 	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
-- 
2.43.0


From 30a87277911fd46bb82f4a3de8d986ae37a82c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 35/52] fix: dheart stays ready after Sisu is not ready and
 crashes if Sisu is ready before the key is set

---
 core/heart.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index a19fbec..0e3c5ec 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -48,6 +48,8 @@ type Heart struct {
 	valPubkeys []ctypes.PubKey
 
 	ready atomic.Value
+	// Set to true when the engine and the connection manager have been started.
+	initialized atomic.Value
 
 	privateKey ctypes.PrivKey
 	aesKey     []byte
@@ -143,6 +145,12 @@ func (h *Heart) initConnectionManager() error {
 		log.Info("Connected manager started!")
 	}
 
+	h.initialized.Store(true)
+	if h.ready.Load() == true {
+		// Sisu was ready before the private key is set.
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine)
+	}
+
 	return nil
 }
 
@@ -239,10 +247,17 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 func (h *Heart) SetSisuReady(isReady bool) {
 	log.Info("Sisu ready state = ", isReady)
 
-	h.ready.Store(true)
+	h.ready.Store(isReady)
+
+	if isReady && h.initialized.Load() == true {
+		// Sisu is ready, we are now ready to process messages from network.
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	}
+}
 
-	// Sisu is ready, we are now ready to process messages from network.
-	h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+// isReady returns true if Sisu is ready and the engine has been created.
+func (h *Heart) isReady() bool {
+	return h.ready.Load() == true && h.initialized.Load() == true
 }
 
 // TODO: remove this function
@@ -294,7 +309,7 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 }
 
 func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		log.Verbose("Heart not ready")
 		return ErrDheartNotReady
 	}
@@ -335,7 +350,7 @@ func (h *Heart) getKey(requestType, chain, workdId string) string {
 }
 
 func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		return ErrDheartNotReady
 	}
 
@@ -432,7 +447,7 @@ func (h *Heart) BlockEnd(blockHeight int64) error {
 		return nil
 	}
 
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		return ErrDheartNotReady
 	}
 
-- 
2.43.0


From 9aa5c88cac2e6da01e95c0dcf49a871009f7e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 36/52] fix: a private key that is invalid or fails to start
 the node cannot be corrected

---
 core/heart.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 0e3c5ec..ba870f9 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -51,8 +51,9 @@ type Heart struct {
 	// Set to true when the engine and the connection manager have been started.
 	initialized atomic.Value
 
-	privateKey ctypes.PrivKey
-	aesKey     []byte
+	privateKey     ctypes.PrivKey
+	privateKeyLock sync.Mutex
+	aesKey         []byte
 
 	keysignRequests    map[string]*htypes.KeysignRequest
 	keysignRequestLock *sync.Mutex
@@ -282,6 +283,9 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return err
 	}
 
+	h.privateKeyLock.Lock()
+	defer h.privateKeyLock.Unlock()
+
 	if h.privateKey != nil {
 		if bytes.Compare(decrypted, h.privateKey.Bytes()) != 0 {
 			return fmt.Errorf("The private key has been set!")
@@ -293,8 +297,14 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 
 	switch tendermintKeyType {
 	case "ed25519":
+		if len(decrypted) != ed25519.PrivKeySize {
+			return fmt.Errorf("Invalid private key length: %d", len(decrypted))
+		}
 		h.privateKey = &ed25519.PrivKey{Key: decrypted}
 	case "secp256k1":
+		if len(decrypted) != secp256k1.PrivKeySize {
+			return fmt.Errorf("Invalid private key length: %d", len(decrypted))
+		}
 		h.privateKey = &secp256k1.PrivKey{Key: decrypted}
 	default:
 		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
@@ -302,6 +312,8 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 
 	err = h.initConnectionManager()
 	if err != nil {
+		// Nothing is running, the key can be set again.
+		h.privateKey = nil
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
 
-- 
2.43.0


From 6fbc49553ea1f4419089e2b3903014af84fe702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 37/52] fix: messages that arrive together on a stream are lost

---
 p2p/helper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helper.go b/p2p/helper.go
index 0849b91..db5d0e0 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -18,9 +18,9 @@ const (
 )
 
 func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
-	streamReader := bufio.NewReader(stream)
+	// Read from the stream directly. A buffered reader could also take bytes of the next message.
 	lengthBytes := make([]byte, HeaderLength)
-	n, err := io.ReadFull(streamReader, lengthBytes)
+	n, err := io.ReadFull(stream, lengthBytes)
 	if n != HeaderLength || err != nil {
 		return nil, fmt.Errorf("error in read the message head %w", err)
 	}
@@ -29,7 +29,7 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
 	}
 	dataBuf := make([]byte, length)
-	n, err = io.ReadFull(streamReader, dataBuf)
+	n, err = io.ReadFull(stream, dataBuf)
 	if uint32(n) != length || err != nil {
 		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
 	}
-- 
2.43.0


From baacb1600089b438cbda18ce2e88b72a6d40e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 38/52] fix: writing a message that is too long breaks the
 stream for all later messages

---
 p2p/helper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/helper.go b/p2p/helper.go
index db5d0e0..0efdaf9 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -37,6 +37,10 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 }
 
 func WriteStreamWithBuffer(msg []byte, stream network.Stream) error {
+	if len(msg) > MaxPayload {
+		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
+	}
+
 	length := uint32(len(msg))
 	lengthBytes := make([]byte, HeaderLength)
 	binary.LittleEndian.PutUint32(lengthBytes, length)
-- 
2.43.0


From c7db9a30a2d780fd70012ea94250c8d59bf0cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 39/52] fix: all messages of a stream are ignored if the first
 one arrives before there is a listener

---
 p2p/connection_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 07ad60b..442cdad 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -181,7 +181,7 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 			listener := cm.getListener(protocol)
 			if listener == nil {
 				// No listener. Ignore the message
-				return
+				continue
 			}
 
 			go func(peerIDString string, dataBuf []byte) {
-- 
2.43.0


From 082f6b7b7e892fcbcfe89f23228a7b876fafb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 40/52] fix: a broken stream is never replaced and streams are
 accessed concurrently

---
 p2p/connection.go         | 13 ++++++++++---
 p2p/connection_manager.go |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 0f8b931..e15509c 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -55,6 +55,9 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	stream := con.streams[protocolId]
 	if stream == nil {
 		var err error
@@ -65,8 +68,12 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		}
 	}
 
-	con.lock.Lock()
-	defer con.lock.Unlock()
+	if err := WriteStreamWithBuffer(msg, stream); err != nil {
+		// Part of the message could have been written. Use a new stream for the next message.
+		stream.Reset()
+		delete(con.streams, protocolId)
+		return err
+	}
 
-	return WriteStreamWithBuffer(msg, stream)
+	return nil
 }
diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 442cdad..4cf4c86 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -174,7 +174,8 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 
 		if err != nil {
 			log.Warn(err)
-			// TODO: handle retry here.
+			// The sender has to know that nobody reads this stream anymore so that it can use a new one.
+			stream.Reset()
 			return
 		}
 		if dataBuf != nil {
-- 
2.43.0


From 190b1ccc5d0d6b9aa832a95b0d6a736dbf3cbcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 41/52] fix: a peer address without peer id crashes the node

---
 p2p/connection_manager.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 4cf4c86..0077eca 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -215,7 +215,12 @@ func (cm *DefaultConnectionManager) discover(ctx context.Context, host host.Host
 func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 	// Creates connection objects.
 	for _, peerAddr := range cm.bootstrapPeers {
-		addrInfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
+		addrInfo, err := peer.AddrInfoFromP2pAddr(peerAddr)
+		if err != nil {
+			log.Error("Invalid peer address ", peerAddr, ", err = ", err)
+			continue
+		}
+
 		conn := NewConnection(addrInfo.ID, peerAddr, &cm.host)
 		cm.connections[addrInfo.ID] = conn
 	}
@@ -224,7 +229,11 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 	log.Info("Trying to create connections with peers...")
 	wg := &sync.WaitGroup{}
 	for _, peerAddr := range cm.bootstrapPeers {
-		peerinfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
+		peerinfo, err := peer.AddrInfoFromP2pAddr(peerAddr)
+		if err != nil {
+			continue
+		}
+
 		wg.Add(1)
 
 		go func() {
-- 
2.43.0


From b6f59ba9b8049f2be91f6fa406f64d69ec8f7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 42/52] fix: reading a truncated value from the encrypted store
 crashes

---
 store/store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store/store.go b/store/store.go
index 4a97b4a..ac3bf96 100644
--- a/store/store.go
+++ b/store/store.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
@@ -76,6 +77,10 @@ func (s *DefaultStore) GetEncrypted(key []byte) (value []byte, err error) {
 		return nil, err
 	}
 
+	if len(encryptedValue) < gcm.NonceSize() {
+		return nil, errors.New("encrypted value is too short")
+	}
+
 	nonce, ciphertext := encryptedValue[:gcm.NonceSize()], encryptedValue[gcm.NonceSize():]
 	data, err := gcm.Open(nil, nonce, ciphertext, nil)
 
-- 
2.43.0


From dcfb4d3b3fe5bc29805c56ed5a5872719919af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 43/52] fix: posting a result before Sisu is connected crashes
 the node

---
 client/client.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 13c48d1..41e8287 100644
--- a/client/client.go
+++ b/client/client.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/rpc"
@@ -28,6 +29,7 @@ type Client interface {
 // A client that connects to Sisu server
 type DefaultClient struct {
 	client *rpc.Client
+	lock   sync.RWMutex
 	url    string
 }
 
@@ -42,9 +44,12 @@ func (c *DefaultClient) TryDial() {
 
 	for {
 		log.Info("Dialing...", c.url)
-		var err error
-		c.client, err = rpc.DialContext(context.Background(), c.url)
+		client, err := rpc.DialContext(context.Background(), c.url)
 		if err == nil {
+			c.lock.Lock()
+			c.client = client
+			c.lock.Unlock()
+
 			if err := c.Ping("dheart"); err == nil {
 				break
 			}
@@ -58,6 +63,14 @@ func (c *DefaultClient) TryDial() {
 	log.Info("Sisu server is connected")
 }
 
+// getClient returns nil if the Sisu server is not connected.
+func (c *DefaultClient) getClient() *rpc.Client {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
+	return c.client
+}
+
 func (c *DefaultClient) Ping(source string) error {
 	var result interface{}
 	err := c.client.CallContext(context.Background(), &result, "tss_ping", source)
@@ -70,8 +83,13 @@ func (c *DefaultClient) Ping(source string) error {
 }
 
 func (c *DefaultClient) PostKeygenResult(result *types.KeygenResult) error {
+	client := c.getClient()
+	if client == nil {
+		return ErrSisuServerNotConnected
+	}
+
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keygenResult", result)
+	err := client.CallContext(context.Background(), &r, "tss_keygenResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keygen result, err = ", err)
@@ -99,8 +117,13 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 }
 
 func (c *DefaultClient) PostKeysignResult(result *types.KeysignResult) error {
+	client := c.getClient()
+	if client == nil {
+		return ErrSisuServerNotConnected
+	}
+
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keysignResult", result)
+	err := client.CallContext(context.Background(), &r, "tss_keysignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keysign result, err = ", err)
-- 
2.43.0


From 1263a19716a33809d369afcb4daa3393e35f0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 44/52] fix: single node api crashes when signing without a key

---
 server/single_node_api.go | 56 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index e444eb3..b7649b6 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -3,6 +3,7 @@ package server
 import (
 	"crypto/ecdsa"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/decred/dcrd/dcrec/edwards/v2"
@@ -26,6 +27,7 @@ type SingleNodeApi struct {
 
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
+	keyLock   sync.RWMutex
 }
 
 func NewSingleNodeApi(c client.Client) *SingleNodeApi {
@@ -56,6 +58,10 @@ func (api *SingleNodeApi) Version() string {
 func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []types.PubKeyWrapper) error {
 	log.Info("keygen: keyType = ", keyType)
 
+	if keyType != libchain.KEY_TYPE_ECDSA && keyType != libchain.KEY_TYPE_EDDSA {
+		return fmt.Errorf("Unsupported key type: %s", keyType)
+	}
+
 	// Add some delay to mock TSS gen delay before sending back to Sisu server
 	go func() {
 		time.Sleep(time.Second * 3)
@@ -64,13 +70,15 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 		var result types.KeygenResult
 		switch keyType {
 		case libchain.KEY_TYPE_ECDSA:
-			var err error
-			api.ecPrivate, err = crypto.GenerateKey()
+			ecPrivate, err := crypto.GenerateKey()
 			if err != nil {
 				panic(err)
 			}
+			api.keyLock.Lock()
+			api.ecPrivate = ecPrivate
+			api.keyLock.Unlock()
 
-			pubKey := api.ecPrivate.Public()
+			pubKey := ecPrivate.Public()
 			publicKeyECDSA, _ := pubKey.(*ecdsa.PublicKey)
 			publicKeyBytes := crypto.FromECDSAPub(publicKeyECDSA)
 
@@ -80,8 +88,15 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 				PubKeyBytes: publicKeyBytes,
 			}
 		case libchain.KEY_TYPE_EDDSA:
-			api.edPrivate, _ = edwards.GeneratePrivateKey()
-			pubKeyBytes := api.edPrivate.PubKey().Serialize()
+			edPrivate, err := edwards.GeneratePrivateKey()
+			if err != nil {
+				panic(err)
+			}
+			api.keyLock.Lock()
+			api.edPrivate = edPrivate
+			api.keyLock.Unlock()
+
+			pubKeyBytes := edPrivate.PubKey().Serialize()
 
 			result = types.KeygenResult{
 				KeyType:     keyType,
@@ -103,19 +118,42 @@ func (api *SingleNodeApi) getKeygenKey(chain string) []byte {
 }
 
 func (api *SingleNodeApi) keySignEth(chain string, bytesToSign []byte) ([]byte, error) {
+	api.keyLock.RLock()
 	privateKey := api.ecPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("Keygen for ecdsa has not been done")
+	}
+
 	sig, err := crypto.Sign(bytesToSign, privateKey)
 
 	return sig, err
 }
 
 func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte, error) {
-	sig, err := api.edPrivate.Sign(bytesToSign)
-	return sig.Serialize(), err
+	api.keyLock.RLock()
+	privateKey := api.edPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("Keygen for eddsa has not been done")
+	}
+
+	sig, err := privateKey.Sign(bytesToSign)
+	if err != nil {
+		return nil, err
+	}
+
+	return sig.Serialize(), nil
 }
 
 // Signing any transaction
 func (api *SingleNodeApi) KeySign(req *types.KeysignRequest, tPubKeys []types.PubKeyWrapper) error {
+	if req == nil {
+		return fmt.Errorf("Keysign request is empty")
+	}
+
 	var err error
 
 	signatures := make([][]byte, len(req.KeysignMessages))
@@ -124,6 +162,10 @@ func (api *SingleNodeApi) KeySign(req *types.KeysignRequest, tPubKeys []types.Pu
 		var signature []byte
 		var err error
 
+		if msg == nil {
+			return fmt.Errorf("Message at index %d is empty", i)
+		}
+
 		switch req.KeyType {
 		case libchain.KEY_TYPE_ECDSA:
 			signature, err = api.keySignEth(msg.OutChain, msg.BytesToSign)
-- 
2.43.0


From dd83b9f8f2bb3e853c3fc5e7b98e6411ff1efa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 45/52] fix: data in an in-memory db is lost when connections
 are closed or more than one is open

---
 db/database.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/db/database.go b/db/database.go
index 127955e..b779b18 100644
--- a/db/database.go
+++ b/db/database.go
@@ -135,10 +135,15 @@ func (d *SqlDatabase) Connect() error {
 	}
 
 	d.db = database
-	database.SetMaxIdleConns(5)
-	database.SetMaxOpenConns(10)
-	database.SetConnMaxIdleTime(5 * time.Second)
-	database.SetConnMaxLifetime(30 * time.Second)
+	if d.config.InMemory {
+		// Each connection of an in-memory db has its own data, which is lost when it is closed.
+		database.SetMaxOpenConns(1)
+	} else {
+		database.SetMaxIdleConns(5)
+		database.SetMaxOpenConns(10)
+		database.SetConnMaxIdleTime(5 * time.Second)
+		database.SetConnMaxLifetime(30 * time.Second)
+	}
 
 	log.Info("Db is connected successfully")
 	return nil
-- 
2.43.0


From e592ab694fbd03cababb8f86a8090a20cd87090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 46/52] fix: a signing crashes the node if its presigns cannot
 be loaded

---
 worker/default_worker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index 1e1f144..dc7ba89 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -185,6 +185,11 @@ func (w *DefaultWorker) startEcExecution(result SelectionResult) {
 	var ecSigningPresign []*ecsigning.SignatureData_OneRoundData
 	if w.request.IsSigning() && len(result.PresignIds) > 0 {
 		ecSigningPresign = w.callback.GetPresignOutputs(result.PresignIds)
+		if len(ecSigningPresign) != len(result.PresignIds) {
+			log.Error("Cannot load all presigns, loaded = ", len(ecSigningPresign))
+			w.callback.OnWorkFailed(w.request)
+			return
+		}
 	}
 
 	// Handle success case
-- 
2.43.0


From 520431d8cc6b66803b42fd7becc64e4d2abb4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 47/52] fix: a finished job drops its last messages when its
 time limit passes

---
 worker/job.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/worker/job.go b/worker/job.go
index 412a0ca..63bea9f 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -227,9 +227,20 @@ func (job *Job) startListening() {
 					Success: false,
 					Failure: JobFailureTimeout,
 				})
+
+				return
 			}
 
-			return
+			// The protocol has ended and all of its messages are in the channel. Other nodes need the
+			// ones that are not handed over yet.
+			for {
+				select {
+				case msg := <-outCh:
+					job.callback.OnJobMessage(job, msg)
+				default:
+					return
+				}
+			}
 
 		case msg := <-outCh:
 			job.addOutMessage(msg)
-- 
2.43.0


From 81f2c75a705169bf0280eff9deaeb7220748e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 48/52] fix: send a message with a new stream when the peer has
 closed the current one

---
 p2p/connection.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index e15509c..5bea457 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -58,16 +58,26 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 	con.lock.Lock()
 	defer con.lock.Unlock()
 
-	stream := con.streams[protocolId]
-	if stream == nil {
-		var err error
-		stream, err = con.createStream(protocolId)
-		if err != nil {
-			log.Warnf("Cannot create a new stream, err = %v", err)
-			return err
+	if stream := con.streams[protocolId]; stream != nil {
+		err := con.writeAndCheck(msg, protocolId, stream)
+		if err == nil {
+			return nil
 		}
+
+		// The peer could have closed this stream, e.g. when it was restarted. Try again with a new one.
+		log.Verbose("Cannot write to the current stream, err = ", err)
 	}
 
+	stream, err := con.createStream(protocolId)
+	if err != nil {
+		log.Warnf("Cannot create a new stream, err = %v", err)
+		return err
+	}
+
+	return con.writeAndCheck(msg, protocolId, stream)
+}
+
+func (con *Connection) writeAndCheck(msg []byte, protocolId protocol.ID, stream network.Stream) error {
 	if err := WriteStreamWithBuffer(msg, stream); err != nil {
 		// Part of the message could have been written. Use a new stream for the next message.
 		stream.Reset()
-- 
2.43.0


From 0afd79d898363337b96a767a6d024f4e7b14fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 49/52] fix: do not reset a stream because of a message that is
 too large

---
 p2p/connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/connection.go b/p2p/connection.go
index 5bea457..64b93e4 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -55,6 +55,11 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
+	if len(msg) > MaxPayload {
+		// Nothing is written, the current stream can still be used.
+		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
+	}
+
 	con.lock.Lock()
 	defer con.lock.Unlock()
 
-- 
2.43.0


From 6af625deed3ce17b4e955bb9f4957e644750dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 50/52] fix: reach a peer again as soon as it is available

---
 p2p/connection.go         | 2 ++
 p2p/connection_manager.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/p2p/connection.go b/p2p/connection.go
index 64b93e4..5ddaef2 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -43,6 +43,8 @@ func (con *Connection) ReleaseStream() {
 func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, error) {
 	ctx, cancel := context.WithTimeout(context.Background(), TimeoutConnecting)
 	defer cancel()
+	// Dial a peer that was not reachable before, it could be available now.
+	ctx = network.WithForceDirectDial(ctx, "send message")
 	stream, err := (*con.host).NewStream(ctx, con.peerId, protocolId)
 
 	if err != nil {
diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 0077eca..c286a83 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -13,6 +13,7 @@ import (
 	"github.com/libp2p/go-libp2p/core/host"
 	"github.com/libp2p/go-libp2p/core/network"
 	"github.com/libp2p/go-libp2p/core/peer"
+	"github.com/libp2p/go-libp2p/core/peerstore"
 	"github.com/libp2p/go-libp2p/core/protocol"
 	"github.com/libp2p/go-libp2p/p2p/discovery/routing"
 	maddr "github.com/multiformats/go-multiaddr"
@@ -221,6 +222,9 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 			continue
 		}
 
+		// The address must not expire while the peer is not reachable.
+		cm.host.Peerstore().AddAddrs(addrInfo.ID, addrInfo.Addrs, peerstore.PermanentAddrTTL)
+
 		conn := NewConnection(addrInfo.ID, peerAddr, &cm.host)
 		cm.connections[addrInfo.ID] = conn
 	}
-- 
2.43.0


From a5eb7ddc2409678ff9fdd138e31c616ecddcf2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 51/52] fix: a refused keygen or signing request changes the
 parties of the node

---
 core/heart.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index ba870f9..1a6818e 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -332,7 +332,6 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 	if n == 0 || len(nodes) != n {
 		return fmt.Errorf("Invalid public keys")
 	}
-	h.valPubkeys = tPubKeys
 
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
@@ -342,8 +341,6 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 	}
 	sorted := tss.SortPartyIDs(pids)
 
-	h.engine.AddNodes(nodes)
-
 	var request *types.WorkRequest
 	switch keyType {
 	case libchain.KEY_TYPE_ECDSA:
@@ -354,6 +351,9 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		return fmt.Errorf("Unsupported key type: %s", keyType)
 	}
 
+	h.valPubkeys = tPubKeys
+	h.engine.AddNodes(nodes)
+
 	return h.engine.AddRequest(request)
 }
 
@@ -385,8 +385,6 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		pids[i] = node.PartyId
 	}
 
-	h.engine.AddNodes(nodes)
-
 	// TODO: Find unique workId
 	workId := ""
 	signMessages := make([][]byte, len(req.KeysignMessages)) // TODO: make this a byte array
@@ -443,6 +441,8 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	h.keysignRequests[workId] = req
 	h.keysignRequestLock.Unlock()
 
+	h.engine.AddNodes(nodes)
+
 	err := h.engine.AddRequest(workRequest)
 	if err != nil {
 		h.removeKeysignRequest(workId)
-- 
2.43.0


From 92f4e931ec149148214c64aa4e50d315a570d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 52/52] fix: single node api accepts signing requests without
 messages, also of unknown key types

---
 server/single_node_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index b7649b6..5dbe024 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -150,7 +150,7 @@ func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte
 
 // Signing any transaction
 func (api *SingleNodeApi) KeySign(req *types.KeysignRequest, tPubKeys []types.PubKeyWrapper) error {
-	if req == nil {
+	if req == nil || len(req.KeysignMessages) == 0 {
 		return fmt.Errorf("Keysign request is empty")
 	}
 
-- 
2.43.0

