#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Accepted TSS requests start exactly once, keygen first, FIFO within class",
  "Every request the engine accepts is started exactly once: none is lost, duplicated or started twice, whatever mix of requests is added while others wait. A waiting key-generation request always starts before any waiting signing request, and requests of the same class start in the order they were accepted. A request whose work id is already waiting or already running is not started a second time.",
  ["histories", "schedules"],
  "every sequence (and every concurrent interleaving) of request submissions and work completions, with any mix of the four work types and with repeated work ids",
  "unit tests check two hand-written queue orders of a few elements; loss or duplication needs particular insert/pop/insert sequences, and re-submission during execution is never exercised",
  ["core/request_queue.go", "core/engine.go", "worker/types/work_request.go"],
  [("priority insertion and duplicate check", "core/request_queue.go AddWork"), ("pop and start", "core/engine.go startNextWork/startWork"), ("class priority", "worker/types/work_request.go GetPriority")],
  [("queue", "waiting requests, best first", "core/request_queue.go"), ("workers", "running works by id", "core/engine.go")],
  ["request queue add/pop results", "first selection message of a work on the network"])

p("C02", "At most two works run at once and a free slot is always used",
  "A node never executes more than two TSS works at the same time, however many requests are submitted concurrently. Whenever fewer than two works are running and a request is waiting, the node starts it without needing any further stimulus; a work that succeeds, fails, times out or is not selected frees its slot.",
  ["schedules", "histories"],
  "all interleavings of concurrent submissions and completions, over all work types and all ways a work can end",
  "tests submit one or two requests from one goroutine and never have a third waiting; the cap and slot-release rules depend on interleavings and on every ending path",
  ["core/engine.go", "worker/default_worker.go"],
  [("cap check and dispatch", "core/engine.go startNextWork"), ("slot release on every ending", "core/engine.go finishWorker, OnWorkFailed, OnNodeNotSelected, OnWorkerResult")],
  [("workers", "running works by id", "core/engine.go")],
  ["Engine.GetActiveWorkerCount", "engine callbacks", "selection messages on the network"])

p("C03", "Every accepted request gets exactly one outcome",
  "For every accepted request, of any of the four work types, the engine reports exactly one outcome for that request to its owner: a result, a failure, or (for signing) that this node was not selected. This holds however the work ends: leader failure, timeouts, exclusion from the selected set, an invalid leader announcement, job failure or success, and however many jobs the batch has.",
  ["histories", "schedules", "fault_sequences"],
  "all endings of a work (success, leader-declared failure, leader silence, invalid announcement, exclusion, bad protocol message, job timeout) for the four work types and all batch sizes, alone or with others running",
  "tests cover the success callback and one or two failures, for ECDSA; missing or repeated callbacks for other type/ending combinations are not looked for",
  ["core/engine.go", "worker/default_worker.go", "worker/prework_selection.go", "worker/worker_executor.go"],
  [("outcome mapping", "core/engine.go OnWorkerResult/OnWorkFailed/OnNodeNotSelected"), ("single execution result", "worker/worker_executor.go broadcastResult"), ("single selection result", "worker/prework_selection.go broadcastResult")],
  [("workers", "running works by id", "core/engine.go")],
  ["EngineCallback calls"])

p("C04", "Messages that arrive before a work starts reach exactly that work, once",
  "A message that arrives for a work that has not started yet is kept and handed over exactly once, to that work only and in the order received from its sender, when the work asks for it. The store keeps at most 64 messages per sender: when a sender exceeds it only that sender's oldest messages are dropped, and messages from other senders or for other works are never lost, duplicated or changed.",
  ["histories", "schedules"],
  "all histories of message arrivals, hand-overs (with or without a filter on message types) and queries over several senders and works, sequential or concurrent",
  "the unit tests hand over one work's messages once; cross-sender or cross-work interference appears only when another work's messages remain in the store and further operations follow",
  ["core/cache/message_cache.go", "core/engine.go", "worker/default_worker.go"],
  [("bounded per-sender store", "core/cache/message_cache.go AddMessage"), ("selective removal", "core/cache/message_cache.go getAllMessages"), ("hand-over at start", "core/engine.go startWork, worker/default_worker.go Start/runExecutor")],
  [("cache", "per sender, messages in arrival order", "core/cache/message_cache.go")],
  ["cache add/pop/get results", "behaviour of a work started after its messages arrived"])

p("C05", "Recent protocol messages can be re-requested, and only by whom they were for",
  "A peer that asks for a protocol message it missed is sent exactly that message, unaltered and with the original sender's signature, as long as it is among the last 64 kept for its sender (320 for the node's own messages); storing a message again never makes it unavailable early. A broadcast message is given to any known party, a point-to-point message only to its addressee, and nothing is sent for an unknown message or to an unknown asker.",
  ["histories", "inputs"],
  "all histories of sent, received, re-sent and requested messages, all askers and all work identifiers including ones that contain the key separator",
  "tests put distinct keys into the cache once and request one; repeated keys, wrap-around and unusual work ids are not reached",
  ["core/engine.go", "core/cache/work_message_cache.go", "tools/circular_queue.go", "types/common/tss_message.go"],
  [("ring with index", "tools/circular_queue.go"), ("per-sender cache", "core/cache/work_message_cache.go"), ("reply rule", "core/engine.go OnAskMessage"), ("message keys", "types/common/tss_message.go GetMessageKey/ExtractMessageKey")],
  [("workCache", "last messages by sender and key", "core/cache/work_message_cache.go")],
  ["messages written to the network in reply to a request"])

p("C06", "A presign value is never used for two signings",
  "Each stored presign is handed out for at most one signing, across concurrent requests, failed signings, restarts of the node at any point, and announcements by different leaders. A presign is handed out only after it has been durably marked as used; if that cannot be done it is not handed out.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of additions, hand-outs and announced uses, with a restart or a database error at any point",
  "tests take presigns once from a single goroutine; reuse needs concurrent takers, a crash between hand-out and marking, or a second leader naming the same presign",
  ["core/components/available_presign_manager.go", "worker/prework_selection.go", "db/database.go"],
  [("consume in memory then mark in database", "core/components/available_presign_manager.go GetAvailablePresigns"), ("member check", "worker/prework_selection.go memberFinalized"), ("status update", "db/database.go UpdatePresignStatus")],
  [("available", "presigns that may still be handed out", "core/components/available_presign_manager.go"), ("status", "durable state of a presign", "db presign table")],
  ["presign ids returned to callers", "database status"])

p("C07", "All nodes agree on one leader, and it selects a legitimate set of signers",
  "Every node derives the same leader for a work, whatever the order in which it lists the parties. When the leader announces success, the announced set consists of distinct parties that answered that they are available, plus itself; for key generation it is all parties, for signing without presigns it has exactly threshold+1 members, and with presigns it is exactly the set of parties that own the announced presigns, one presign per message. The leader acts on the same set that it announced.",
  ["inputs", "schedules", "histories"],
  "all party lists and orders, all work ids, and all arrival orders, duplications and subsets of availability answers (including from strangers), for all work types, with and without usable presigns",
  "tests run one fixed party order and let every party answer in order; agreement and the composition rules are for every subset and arrival order",
  ["worker/prework_selection.go", "worker/available_parties.go", "core/node.go"],
  [("hash ordering", "worker/prework_selection.go ChooseLeader"), ("selection", "worker/prework_selection.go checkEnoughParticipants/waitForMemberResponse"), ("announcement", "worker/prework_selection.go leaderFinalized")],
  [("availableParties", "parties that answered yes", "worker/available_parties.go")],
  ["selection result callback", "announcement on the network"])

p("C08", "A member only accepts a well-formed announcement from the work's leader",
  "A node that is not the leader takes part in a work only if the work's leader announced success with a set of distinct, known parties that includes this node and has at least threshold+1 members (all parties for key generation), with, when presigns are named, exactly one usable presign per message. Announcements from any other node are ignored without ending the work, an invalid announcement from the leader makes the work fail, and a valid one that leaves this node out makes it end as not selected.",
  ["inputs", "histories"],
  "all announcement contents (missing, duplicated or unknown parties, too few, foreign sender, presign lists of any length), arriving before or after the work starts",
  "tests send well-formed announcements from the leader only, after the work has started",
  ["worker/prework_selection.go"],
  [("validation", "worker/prework_selection.go validateLeaderSelection"), ("member decision", "worker/prework_selection.go memberFinalized/doPreExecutionAsMember/ProcessNewMessage")],
  [("leader", "the work's leader", "worker/prework_selection.go")],
  ["selection result callback"])

p("C09", "Signer selection always ends, once, and succeeds when enough parties answer",
  "On every node a selection round ends exactly once and within its configured time limit, whatever messages are lost, duplicated or late, and late messages never block the node. If the leader and enough other parties for a signing answer in time, the leader's selection succeeds even though the rest are offline, and with the default time limits members wait long enough to learn that result.",
  ["schedules", "fault_sequences", "configurations"],
  "all message losses, duplications and delays, all subsets of offline parties, all work types, and the default time limits",
  "tests run with every party answering and with hand-picked time limits; the default limits and partial availability are never combined",
  ["worker/prework_selection.go", "core/config/timeout.go"],
  [("leader wait", "worker/prework_selection.go waitForMemberResponse"), ("member wait", "worker/prework_selection.go doPreExecutionAsMember"), ("time limits", "core/config/timeout.go NewDefaultTimeoutConfig")],
  [],
  ["selection result callback", "return of message processing calls"])

p("C10", "Each protocol round of a batch is sent as one complete message per destination",
  "For a batch work, the messages that its jobs produce for the same round and destination are sent exactly once, as a single message that carries the output of every job at that job's position, to exactly the destination they name (all parties for a broadcast). Nothing is sent for a round before every job has produced its part, the relative timing of the jobs does not matter, and rounds are still sent when the work has already ended on this node.",
  ["schedules", "histories"],
  "all interleavings of the jobs' outputs over rounds and destinations, for all batch sizes, before and after the work has ended",
  "tests run whole protocols with an even pace; a mixed-up slot, an early or a repeated send shows only for particular interleavings",
  ["worker/worker_executor.go", "types/common/tss_message.go"],
  [("per-round collection", "worker/worker_executor.go OnJobMessage"), ("message assembly", "types/common/tss_message.go NewTssMessage")],
  [("jobOutput", "job outputs per round and destination", "worker/worker_executor.go")],
  ["messages given to the dispatcher"])

p("C11", "A work succeeds if and only if every job of its batch succeeded",
  "A work's execution is reported exactly once: as success only when every job has delivered its result, with the results at the positions of their jobs, and as failure as soon as a job cannot start, a protocol message is rejected, or all jobs have ended with at least one failure. The key share of a key generation is stored before success is reported, and if it cannot be stored the work is reported as failed.",
  ["schedules", "histories", "fault_sequences"],
  "all orders and concurrent interleavings of job results, timeouts and failures, for all batch sizes, with database errors",
  "tests complete all jobs successfully; the accounting matters for concurrent, repeated and failing results",
  ["worker/worker_executor.go", "worker/default_worker.go", "worker/helper.go"],
  [("result accounting", "worker/worker_executor.go OnJobResult/broadcastResult"), ("persist before report", "worker/default_worker.go onJobExecutionResult/saveJobResultData")],
  [("jobResults", "result per job", "worker/worker_executor.go")],
  ["execution result callback", "order of database save and callback"])

p("C12", "A job hands over every outgoing message, then stops; nobody is left waiting",
  "A job that runs its protocol to the end hands over every message the protocol produces, to every destination and exactly once, even when its own result is ready before the last messages are handed over; so a node that finishes early never starves the others. It reports its result exactly once, and a job that does not reach its result within its time limit reports exactly one timeout failure.",
  ["schedules"],
  "all relative timings of result delivery and outgoing messages, for the four protocols, with and without presign data and for several party counts",
  "whether the result or the last outgoing message is seen first is a scheduling choice that the tests do not control, and they pass with either",
  ["worker/job.go", "core/message/tss_phase_messages.go"],
  [("listening loop", "worker/job.go startListening/isDone"), ("expected message count", "core/message/tss_phase_messages.go GetMessageCountByWorkType")],
  [("doneOutCh/doneEndCh", "what has been delivered", "worker/job.go")],
  ["job callback order and counts"])

p("C13", "Missing protocol messages are detected, asked for precisely, and recovered",
  "When no protocol message has arrived for the configured time, a work asks for exactly the missing messages: those of rounds for which any party has already been heard, or, if none is missing, the next expected round from every other party; it never asks for messages it has received, for its own, or for ones its protocol does not have, and stops asking when the work ends. With this, a work of any of the four types completes although any single transmission of each message is lost, as long as re-sent messages arrive.",
  ["fault_sequences", "histories", "schedules"],
  "all sets of received messages, all subsets of lost first transmissions, for the four work types with and without presigns",
  "one scripted loss pattern for ECDSA is tested; the rule is over all received-sets and all protocols",
  ["worker/components/message_monitor.go", "core/message/tss_phase_messages.go", "worker/worker_executor.go"],
  [("gap detection", "worker/components/message_monitor.go findMissingMessages"), ("asking", "worker/worker_executor.go OnMissingMesssageDetected"), ("protocol tables", "core/message/tss_phase_messages.go")],
  [("receivedMessages", "messages heard per party", "worker/components/message_monitor.go")],
  ["ask messages given to the dispatcher", "completion of works under loss"])

p("C14", "No network input can crash or wedge a node",
  "Whatever bytes a known or unknown peer sends (malformed, incomplete, duplicated, out of phase, for unknown or finished works), the node neither crashes nor blocks: handling of the message returns, and the node still accepts and completes later legitimate works.",
  ["inputs", "histories"],
  "all structurally possible messages (every type, every sub-message absent, empty, short, long or garbled, every sender, addressee and work) in every phase of a work",
  "tests send only messages that the implementation itself produced, in the expected phase",
  ["core/engine.go", "worker/default_worker.go", "worker/worker_executor.go", "worker/prework_selection.go", "types/common/tss_message.go"],
  [("entry point", "core/engine.go OnNetworkMessage"), ("update processing", "worker/worker_executor.go ProcessUpdateMessage"), ("selection processing", "worker/prework_selection.go ProcessNewMessage"), ("key parsing", "types/common/tss_message.go ExtractMessageKey")],
  [],
  ["process liveness", "return of message handling", "completion of a later work"])

p("C15", "The p2p layer delivers every message intact, once, to the right listener",
  "The bytes of every message written to a peer are delivered to that peer's listener for the protocol exactly once, unaltered and attributed to the true sender, regardless of size, of how the transport splits or merges the bytes, and of how many goroutines write to different peers at once. A peer that is temporarily unreachable, or that has not registered its listener yet, does not prevent delivery of messages sent after it is available again.",
  ["inputs", "schedules", "fault_sequences"],
  "all message sizes and byte segmentations, all interleavings of concurrent writers, and connection resets or restarts between messages",
  "tests exchange one message per stream over a fresh connection; coalesced frames, concurrent writes and re-connection are not reached",
  ["p2p/helper.go", "p2p/connection.go", "p2p/connection_manager.go"],
  [("length-prefixed framing", "p2p/helper.go"), ("stream reuse", "p2p/connection.go writeToStream"), ("reader loop", "p2p/connection_manager.go handleStream")],
  [("streams", "open outgoing streams", "p2p/connection.go")],
  ["listener callbacks"])

p("C16", "What the database stored is what it gives back",
  "Everything stored is read back unaltered under the key it was stored with: key shares by key type, key-generation parameters, peers, and presigns. A batch of presigns is stored as a whole; loading presigns returns exactly the requested ones in the requested order or reports an error, and a presign is listed as available if and only if it was stored and has not been marked used. Storing again under the same key never damages other entries.",
  ["histories", "inputs"],
  "all sequences of store, load, mark and list operations, with several keys, batch sizes, party sets and request orders",
  "tests store and load one item of each kind; batches, orders, partial lists and repeated stores are not exercised",
  ["db/database.go", "db/migrations"],
  [("queries", "db/database.go"), ("schema", "db/migrations")],
  [("presign/keygen/peers/preparams tables", "stored data", "db/database.go")],
  ["results of database calls"])

p("C17", "The node serves only when ready, and tracks each request to its reply",
  "Key generation and signing requests are refused until the private key has been set successfully and the host reported itself ready, and again after it reports not ready; a failed attempt to set the key leaves the node not started and the attempt can be repeated, and a second different key is refused. Every accepted request leads to exactly one reply that carries the identity of that very request, also when many requests are submitted concurrently or finish immediately; invalid requests (unknown key type, no key share, no messages) are refused with an error and leave the node unaffected.",
  ["histories", "schedules", "inputs"],
  "all sequences and interleavings of lifecycle calls and requests, including errors in the middle of start-up and requests that end before the submitting call returns",
  "there is no test of the lifecycle; the request table is read and written from several goroutines",
  ["core/heart.go", "server/tss_api.go"],
  [("lifecycle", "core/heart.go SetPrivKey/SetSisuReady/Start"), ("request table", "core/heart.go Keysign/OnWorkSigningFinished/OnWorkFailed")],
  [("ready, privateKey, keysignRequests", "lifecycle state and pending requests", "core/heart.go")],
  ["API return values", "results posted to the host"])

p("C18", "Reported success means valid signatures, one per message, in message order",
  "If a node reports a signing work as successful, the reply has exactly one signature per requested message, in request order, and each verifies for that exact message bytes under the generated public key; all participating nodes report the same signatures, and all nodes of a key generation report the same public key. When a valid signature cannot be produced, the node reports failure.",
  ["inputs", "schedules", "configurations"],
  "all message contents (including leading zero bytes and different lengths), batch sizes, subsets of participating nodes and message delivery orders, for ECDSA and EdDSA",
  "tests sign one or two fixed well-formed messages and mostly do not verify every signature in a batch",
  ["core/engine_ecdsa.go", "core/engine_eddsa.go", "worker/job.go", "worker/worker_executor.go"],
  [("result conversion", "core/engine_ecdsa.go, core/engine_eddsa.go"), ("job creation", "worker/worker_executor.go Init"), ("message to integer", "worker/job.go")],
  [],
  ["signing and keygen results of every node"])

p("C19", "Signing quorums hold a two-thirds majority and always overlap",
  "For every committee size the number of parties that take part in a signing is at least half plus one and at most the committee, so that any two signing groups overlap, and it is two thirds of the committee rounded up or down by at most one; it never decreases as the committee grows.",
  ["configurations"],
  "all committee sizes",
  "the test samples a few sizes",
  ["utils/misc.go", "worker/types/work_request.go"],
  [("threshold", "utils/misc.go GetThreshold"), ("minimum parties", "worker/types/work_request.go GetMinPartyCount")],
  [],
  ["threshold used in requests"])

p("C20", "No interleaving of calls and messages deadlocks the engine",
  "Every call into the engine (submitting requests, adding nodes, delivering network messages, answering re-send requests, sending, querying) returns, however the calls interleave with each other and with works starting and ending, and also when messages name unknown parties. Concurrent use never corrupts the engine's state or crashes the process.",
  ["schedules"],
  "all interleavings of concurrent engine calls, message deliveries and work completions",
  "tests drive each engine from few goroutines; lock-ordering and writer-preference deadlocks or unsynchronised map accesses need particular schedules",
  ["core/engine.go", "core/request_queue.go", "worker/default_worker.go"],
  [("work and node locks", "core/engine.go"), ("worker lock", "worker/default_worker.go")],
  [("workLock/nodeLock", "engine locks", "core/engine.go")],
  ["return of calls", "process liveness"])

p("C21", "Blame lists exactly the parties that stayed silent or misbehaved",
  "For every work and round, the reported culprits are exactly the parties of the given set that sent nothing in that round or were recorded as having misbehaved in it, each once; records of one work or round never affect another, and recording is safe from several goroutines.",
  ["histories", "schedules"],
  "all histories and interleavings of records and queries over several works, rounds and parties",
  "the test checks one small history",
  ["blame/manager.go"],
  [("sets per work and round", "blame/manager.go")],
  [("sentNodes/roundCulprits", "records", "blame/manager.go")],
  ["culprit queries"])

p("C22", "The single-node service answers every request once, with its own key",
  "In single-node mode every accepted key generation and signing request gets exactly one reply that names that request; signatures verify for the requested messages, in order, under the key that the service reported for that key type, and an unsupported or premature request is refused with an error instead of crashing the service.",
  ["histories", "inputs"],
  "all sequences of key generation and signing requests over key types, including signing before key generation and unsupported types",
  "tests cover one ECDSA and one EdDSA happy path",
  ["server/single_node_api.go"],
  [("local signing", "server/single_node_api.go")],
  [("keygenType maps", "generated keys", "server/single_node_api.go")],
  ["replies posted to the host"])

p("C23", "The encrypted store returns what was stored, and only with the right key",
  "A value put into the store is returned unaltered by every later read under its key, also after the store is closed and reopened and after other keys are written; overwriting replaces exactly that value and a missing entry is reported as such. An encrypted value is readable only through the encrypted interface with the same secret; wrong secrets, tampered or truncated data give an error, never wrong data or a crash.",
  ["histories", "crash_points", "inputs"],
  "all histories of put, encrypted put, get, close and reopen over several keys and secrets, and all corruptions of stored bytes",
  "the test puts and gets one value",
  ["store/store.go", "utils/crypto.go"],
  [("encryption", "store/store.go PutEncrypted/GetEncrypted, utils/crypto.go")],
  [],
  ["store call results"])

p("C24", "Only messages signed by their claimed sender influence a work",
  "Every message a node sends carries a signature by that node over exactly its content. An incoming protocol message is used, stored or relayed only if it is signed by the known party it claims to be from, for exactly its content; a message altered in transit, signed by someone else or claiming another sender changes nothing, while a genuine message relayed by a third party is accepted.",
  ["inputs", "histories"],
  "all combinations of claimed sender, inner sender, signing key, transport peer and tampered field, for every message type and phase",
  "tests deliver genuine messages only",
  ["core/engine.go", "core/signer/signer.go"],
  [("signing", "core/engine.go getSignedMessageBytes"), ("acceptance", "core/engine.go OnNetworkMessage")],
  [],
  ["messages written to the network", "effect of delivered messages on works and on re-sends"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
