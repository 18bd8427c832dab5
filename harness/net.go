package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/sisu-network/tss-lib/tss"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
)

func init() {
	modes["net"] = modeNet
	parModes["net"] = 4
}

// netWork is a work of a scenario.
type netWork struct {
	id     string
	kind   string
	batch  int
	t      int
	leader string
	msgs   [][]byte
	starts map[string]int // when nodes get the request (ms); absent: never
}

func objs(v interface{}) []M {
	r := []M{}
	if l, ok := v.([]interface{}); ok {
		for _, x := range l {
			r = append(r, M(x.(map[string]interface{})))
		}
	}
	return r
}

func strList(v interface{}) []string {
	r := []string{}
	if l, ok := v.([]interface{}); ok {
		for _, x := range l {
			r = append(r, x.(string))
		}
	}
	return r
}

// modeNet runs n real engines that execute the works of the scenario over a simulated network.
func modeNet(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	n := num(s.Cfg, "n", 3)
	ids := fixtureIdents(n)
	names := []string{}
	name := map[string]string{}
	index := map[string]int{}
	for i, id := range ids {
		nm := string(rune('a' + i))
		names = append(names, nm)
		name[id.Node.PartyId.Id] = nm
		index[nm] = i
	}
	nms := func(l []string) []string {
		o := []string{}
		for _, x := range l {
			o = append(o, name[x])
		}
		return o
	}
	pids := worker.GetTestPartyIds(n)
	var rmu sync.Mutex
	rnd := func(k int) int {
		rmu.Lock()
		defer rmu.Unlock()
		if k <= 0 {
			return 0
		}
		return rng.Intn(k)
	}
	ms := func(k string, def int) time.Duration { return time.Duration(num(s.Cfg, k, def)) * time.Millisecond }
	cfg := timeouts(ms("leader_ms", 800), ms("member_ms", 2500), ms("job_ms", 30000), ms("monitor_ms", 3600000))

	// works
	works := map[string]*netWork{}
	order := []string{}
	for i, w := range objs(s.Cfg["works"]) {
		nw := &netWork{kind: str(w, "kind", "edsign"), batch: num(w, "batch", 1), t: num(w, "t", (n+1)*2/3-1), leader: str(w, "leader", names[rnd(n)]), starts: map[string]int{}}
		nw.id = workIdFor(fmt.Sprintf("%s.%d-%d_", s.Name, i, rnd(1000)), pids, func(id string) bool { return name[id] == nw.leader })
		if st, ok := w["starts"].(map[string]interface{}); ok {
			for k, v := range st {
				nw.starts[k] = int(v.(float64))
			}
		}
		for j := 0; j < nw.batch; j++ {
			m := randMsg(rng, 32)
			switch str(w, "msg", "") {
			case "zero":
				if j == nw.batch-1 {
					m[0] = 0
				}
			case "same":
				if j > 0 {
					m = nw.msgs[0]
				}
			case "high":
				if j == nw.batch-1 {
					for k := range m {
						m[k] = 0xff
					}
				}
			case "len":
				m = randMsg(rng, 1+rnd(80))
			}
			nw.msgs = append(nw.msgs, m)
		}
		if str(w, "msg", "") == "last0" {
			// the leading zero is only in one position
			nw.msgs[rnd(nw.batch)][0] = 0
		}
		works[nw.id] = nw
		order = append(order, nw.id)
	}

	// state of the network
	var mu sync.Mutex
	tried := map[string]bool{}
	announced := map[string]bool{}
	badSigs := 0
	totalSent := 0
	drop, dropSel, dup, delay := num(s.Cfg, "drop", 0), num(s.Cfg, "dropsel", 0), num(s.Cfg, "dup", 0), num(s.Cfg, "delay_ms", 0)
	lossAll := boolean(s.Cfg, "lossall", false)
	lossAny := boolean(s.Cfg, "lossany", false) // every first transmission of any kind but selections
	corrupt := strings.Split(str(s.Cfg, "corrupt", "")+":::", ":")
	mute := map[string]bool{} // nodes whose messages do not get through
	for _, x := range strList(s.Cfg["mute"]) {
		mute[x] = true
	}
	type hold struct {
		typ, to string
		ms      int
	}
	holds := []hold{}
	for _, h := range objs(s.Cfg["hold"]) {
		holds = append(holds, hold{str(h, "typ", ""), str(h, "to", ""), num(h, "ms", 0)})
	}
	failKey, failLoad, failPre := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, x := range strList(s.Cfg["failkey"]) {
		failKey[x] = true
	}
	for _, x := range strList(s.Cfg["failload"]) {
		failLoad[x] = true
	}
	for _, x := range strList(s.Cfg["failpre"]) {
		failPre[x] = true
	}

	forge, relay := num(s.Cfg, "forge", 0), num(s.Cfg, "relay", 0)
	var net *Net
	outcome := func(i int, id, what string, k int, valid bool, dig string) {
		r.Add("outcome", "node", names[i], "id", id, "what", what, "n", k, "valid", valid, "dig", dig)
	}
	// The result of a key generation does not name its work: works of a scenario generate a key of each type once.
	keyWork := func(keyType string) string {
		for _, id := range order {
			if (keyType == "ecdsa" && works[id].kind == "eckeygen") || (keyType == "eddsa" && works[id].kind == "edkeygen") {
				return id
			}
		}
		return "?"
	}
	cb := func(i int) *EngCB {
		c := &EngCB{}
		c.keygen = func(i int, res *htypes.KeygenResult) {
			id := keyWork(res.KeyType)
			if res.Outcome != htypes.OutcomeSuccess {
				outcome(i, id, "fail", 0, true, "")
				return
			}
			// The reported key is the one of the stored share.
			valid := false
			d := net.dbs[i]
			d.mu.Lock()
			if sh := d.ecKeys[res.KeyType]; sh != nil && res.KeyType == "ecdsa" {
				pk, err := crypto.UnmarshalPubkey(res.PubKeyBytes)
				valid = err == nil && pk.X.Cmp(sh.ECDSAPub.X()) == 0 && pk.Y.Cmp(sh.ECDSAPub.Y()) == 0
			}
			if sh := d.edKeys[res.KeyType]; sh != nil && res.KeyType == "eddsa" {
				valid = bytes.Equal(res.PubKeyBytes, edwards.NewPublicKey(sh.EDDSAPub.X(), sh.EDDSAPub.Y()).Serialize())
			}
			d.mu.Unlock()
			outcome(i, id, "keygen", 1, valid, digest(res.PubKeyBytes))
		}
		c.signing = func(i int, req *types.WorkRequest, res *htypes.KeysignResult) {
			id := "?"
			if req != nil {
				id = req.WorkId
			}
			w := works[id]
			switch res.Outcome {
			case htypes.OutcometNotSelected:
				outcome(i, id, "notsel", 0, true, "")
			case htypes.OutcomeSuccess:
				valid, dig := w != nil, ""
				for j, sig := range res.Signatures {
					if w == nil || j >= len(w.msgs) {
						valid = false
						break
					}
					dig = digest([]byte(dig), sig)
					if w.kind == "edsign" {
						valid = valid && validEd(edKeys(n, w.t)[i], w.msgs[j], sig)
					} else {
						valid = valid && len(sig) == 65 && validEc(ecShares(n)[i], w.msgs[j], sig[:32], sig[32:64])
						if valid && len(w.msgs[j]) == 32 {
							pk, err := crypto.SigToPub(w.msgs[j], sig)
							valid = err == nil && pk.X.Cmp(ecShares(n)[i].ECDSAPub.X()) == 0
						}
					}
				}
				outcome(i, id, "sign", len(res.Signatures), valid, dig)
			default:
				outcome(i, id, "fail", 0, true, "")
			}
		}
		c.failed = func(i int, req *types.WorkRequest) {
			id := "?"
			if req != nil {
				id = req.WorkId
			}
			outcome(i, id, "fail", 0, true, "")
		}
		return c
	}
	real := []int{}
	for i := range ids {
		real = append(real, i)
	}
	net = newNet(ids, real, nil, cfg, cb)
	net.onSend = func(m *Sent) {
		if m.Tss == nil {
			mu.Lock()
			badSigs++
			mu.Unlock()
			return
		}
		// What a node sends is signed by the node it is from, for exactly its content.
		ser, _ := json.Marshal(m.Tss)
		o, known := index[name[m.Signed.From]]
		good := known && m.Signed.From == m.Tss.From && ids[o].Key.PubKey().VerifySignature(ser, m.Signed.Signature)
		if good && o != m.From && m.Tss.Type != common.TssMessage_UPDATE_MESSAGES {
			good = false
		}
		mu.Lock()
		totalSent++
		if !good {
			badSigs++
		}
		first := m.Tss.Type == common.TssMessage_PRE_EXEC_OUTPUT && !announced[m.Tss.WorkId]
		if first {
			announced[m.Tss.WorkId] = true
		}
		mu.Unlock()
		if first && m.Tss.PreExecOutputMessage != nil {
			p := m.Tss.PreExecOutputMessage
			r.Add("announce", "node", names[m.From], "id", m.Tss.WorkId, "ok", p.Success, "sel", nms(p.Pids), "pre", len(p.PresignIds))
		}
	}
	net.policy = func(m *Sent) []time.Duration {
		if m.Tss == nil || mute[names[m.From]] || mute[names[m.To]] {
			return nil
		}
		if m.Tss.Type == common.TssMessage_UPDATE_MESSAGES {
			k := fmt.Sprintf("%s/%s/%s/%d", m.Tss.WorkId, m.Tss.From, m.Tss.UpdateMessages[0].Round, m.To)
			mu.Lock()
			fst := !tried[k]
			tried[k] = true
			mu.Unlock()
			if (lossAll || lossAny) && fst || fst && rnd(100) < drop {
				return nil
			}
			if corrupt[0] == names[m.From] && m.Tss.From == ids[m.From].Node.PartyId.Id && corrupt[1] == typShort(m.Tss.UpdateMessages[0].Round) {
				// The sender itself sends something else than the protocol demands.
				c := &common.TssMessage{}
				bz, _ := json.Marshal(m.Tss)
				json.Unmarshal(bz, c)
				var j int
				fmt.Sscan(corrupt[2], &j)
				d := c.UpdateMessages[j%len(c.UpdateMessages)].Data
				d[len(d)-1] ^= 1
				m.Raw = signAs(ids[m.From], c)
			}
		} else if m.Tss.Type == common.TssMessage_ASK_MESSAGE_REQUEST {
			k := fmt.Sprintf("ask/%s/%d/%d", m.Tss.AskRequestMessage.MsgKey, m.From, m.To)
			mu.Lock()
			fst := !tried[k]
			tried[k] = true
			mu.Unlock()
			if lossAny && fst {
				return nil
			}
		} else if rnd(100) < dropSel {
			return nil
		}
		if rnd(100) < forge {
			// Somebody sends an altered or forged version first.
			c := &common.TssMessage{}
			bz, _ := json.Marshal(m.Tss)
			json.Unmarshal(bz, c)
			from, to := m.From, m.To
			kind := rnd(5)
			o := (index[name[c.From]] + 1 + rnd(n-1)) % n
			switch {
			case len(c.UpdateMessages) > 0:
				x := c.UpdateMessages[rnd(len(c.UpdateMessages))]
				x.Data = append([]byte{}, x.Data...)
				x.Data[rnd(len(x.Data))] ^= byte(1 << rnd(8))
			case c.PreExecOutputMessage != nil:
				if rnd(2) == 0 {
					c.PreExecOutputMessage.Success = false
				} else {
					c.PreExecOutputMessage.Pids = append(append([]string{}, c.PreExecOutputMessage.Pids...), ids[0].Node.PartyId.Id)
				}
			case c.AskRequestMessage != nil:
				c.AskRequestMessage.MsgKey = "x__" + c.AskRequestMessage.MsgKey
			case c.AvailabilityResponseMessage != nil:
				c.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_NO
			}
			sm := &common.SignedMessage{From: m.Signed.From, TssMessage: c, Signature: m.Signed.Signature}
			ser, _ := json.Marshal(c)
			switch kind {
			case 0: // signed by another party
				sm.Signature, _ = ids[o].Key.Sign(ser)
			case 1: // in an envelope of another party
				sm.From = ids[o].Node.PartyId.Id
				sm.Signature, _ = ids[o].Key.Sign(ser)
			case 2:
				sm.Signature = nil
			}
			raw, _ := json.Marshal(sm)
			net.deliver(from, to, raw)
		}
		if rnd(100) < relay {
			m.From = rnd(n)
		}
		d := time.Duration(rnd(delay*1000)) * time.Microsecond
		for _, h := range holds {
			if h.typ == m.Tss.Type.String() && (h.to == "" || h.to == names[m.To]) {
				d += time.Duration(h.ms) * time.Millisecond
			}
		}
		ds := []time.Duration{d}
		if rnd(100) < dup {
			ds = append(ds, d+time.Duration(rnd(30000))*time.Microsecond)
		}
		return ds
	}

	for i := range ids {
		i := i
		d := net.dbs[i]
		d.preparam = worker.LoadEcPreparams(i)
		d.failKey, d.failLoad, d.failPre = failKey[names[i]], failLoad[names[i]], failPre[names[i]]
		d.saveHook = func(kind, id string) {
			if !d.failKey {
				r.Add("saved", "node", names[i], "id", id)
			}
		}
	}
	// presigns, stored by all of their owners
	for k, o := range objs(s.Cfg["presigns"]) {
		idx := []int{}
		ps := []*tss.PartyID{}
		for _, x := range strList(o["owners"]) {
			idx = append(idx, index[x])
			ps = append(ps, pids[index[x]])
		}
		data := ecPresigns(n, idx)
		for _, i := range idx {
			wid := fmt.Sprintf("pre%d", k)
			d := net.dbs[i]
			id := wid + "-0"
			d.order = append(d.order, id)
			d.status[id] = "not_used"
			d.pids[id] = sortedIdString(ps)
			d.presigns[id] = data[i]
		}
	}
	for i := range ids {
		if err := net.engines[i].Init(); err != nil {
			return err
		}
	}

	// requests
	build := func(i int, w *netWork) *types.WorkRequest {
		my := copyPids(pids)
		chains := make([]string, w.batch)
		msgs := [][]byte{}
		for j := range chains {
			chains[j] = "chain"
			msgs = append(msgs, append([]byte{}, w.msgs[j]...))
		}
		switch w.kind {
		case "edkeygen":
			return types.NewEdKeygenRequest(w.id, my, w.t)
		case "eckeygen":
			return types.NewEcKeygenRequest("ecdsa", w.id, my, w.t, nil)
		case "edsign":
			return types.NewEdSigningRequest(w.id, my, w.t, msgs, chains, edKeys(n, w.t)[i])
		}
		return types.NewEcSigningRequest(w.id, my, w.t, msgs, chains, ecShares(n)[i])
	}
	// key material is produced before time matters
	for _, w := range works {
		for i := range ids {
			build(i, w)
		}
	}
	begin := time.Now()
	var wg sync.WaitGroup
	for _, id := range order {
		w := works[id]
		for nm, at := range w.starts {
			nm, at := nm, at
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(at) * time.Millisecond)
				req := build(index[nm], w)
				r.Add("submit", "node", nm, "id", w.id)
				var err error
				if !within(30*time.Second, func() { err = net.engines[index[nm]].AddRequest(req) }) {
					r.Stall("hang", "node", nm, "id", w.id)
					return
				}
				if err != nil {
					r.Add("refused", "node", nm, "id", w.id, "err", err.Error())
				}
			}()
		}
	}
	wg.Wait()
	lim := time.Duration(num(s.Cfg, "limit_ms", 60000)) * time.Millisecond
	want := func() int {
		return r.Count(func(e M) bool { return e["e"] == "submit" }) - r.Count(func(e M) bool { return e["e"] == "refused" })
	}
	seen := func() int {
		m := map[string]bool{}
		r.Count(func(e M) bool {
			if e["e"] == "outcome" {
				m[e["node"].(string)+e["id"].(string)] = true
			}
			return false
		})
		return len(m)
	}
	if !waitFor(lim, func() bool { return seen() >= want() }) {
		r.Stall("nooutcome")
	}
	// Another outcome would come now: the longest limits are those of the selection.
	time.Sleep(time.Duration(20+delay) * time.Millisecond)
	if boolean(s.Cfg, "linger", false) {
		time.Sleep(time.Until(begin.Add(cfg.SelectionMemberTimeout)) + 50*time.Millisecond)
	}
	// All slots are free again.
	for i := range ids {
		i := i
		k := 0
		if !within(10*time.Second, func() { waitFor(8*time.Second, func() bool { k = net.engines[i].GetActiveWorkerCount(); return k == 0 }) }) {
			r.Stall("hang", "node", names[i])
		}
		r.Add("active", "node", names[i], "n", k)
	}
	mu.Lock()
	r.Add("out", "bad", badSigs, "n", totalSent)
	mu.Unlock()
	r.Add("end")
	net.Close()
	wl := []M{}
	for _, id := range order {
		w := works[id]
		// Messages that start with a zero byte (eddsa) or exceed the order of the curve (ecdsa) cannot be signed.
		able := true
		for _, m := range w.msgs {
			if w.kind == "edsign" && m[0] == 0 || w.kind == "ecsign" && m[0] == 0xff {
				able = false
			}
		}
		wl = append(wl, M{"id": id, "kind": w.kind, "batch": w.batch, "leader": w.leader, "able": able})
	}
	r.cfg = M{"all": names, "works": wl, "failkey": strList(s.Cfg["failkey"])}
	// "must" names works by position
	mustIds := []string{}
	if lagSince(begin) < 250*time.Millisecond {
		// Otherwise the machine was too slow for time limits to mean much.
		for _, x := range ints(s.Cfg, "must") {
			mustIds = append(mustIds, order[x])
		}
	}
	r.cfg["must"] = mustIds
	return nil
}
