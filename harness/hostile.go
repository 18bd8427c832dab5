package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes"
	"github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"

	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
)

func init() {
	modes["hostile"] = modeHostile
	parModes["hostile"] = 3
}

// ---------------------------------------------------------------- mutation of protobuf bytes

type pbField struct {
	num, typ uint64
	val      []byte // contents of a length-delimited field
	n        uint64
}

func pbParse(b []byte) ([]pbField, bool) {
	fs := []pbField{}
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 || k>>3 == 0 {
			return nil, false
		}
		b = b[n:]
		f := pbField{num: k >> 3, typ: k & 7}
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, false
		}
		b = b[n:]
		f.n = v
		switch f.typ {
		case 0:
		case 2:
			if v > uint64(len(b)) {
				return nil, false
			}
			f.val = b[:v]
			b = b[v:]
		default:
			return nil, false
		}
		fs = append(fs, f)
	}
	return fs, true
}

func pbBytes(fs []pbField) []byte {
	out := []byte{}
	tmp := make([]byte, 10)
	put := func(x uint64) { out = append(out, tmp[:binary.PutUvarint(tmp, x)]...) }
	for _, f := range fs {
		put(f.num<<3 | f.typ)
		if f.typ == 2 {
			put(uint64(len(f.val)))
			out = append(out, f.val...)
		} else {
			put(f.n)
		}
	}
	return out
}

func mutateBytes(rng *rand.Rand, b []byte) []byte {
	c := append([]byte{}, b...)
	switch rng.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{0}
	case 2:
		return []byte{1}
	case 3:
		rng.Read(c)
	case 4:
		for i := range c {
			c[i] = 0xff
		}
	case 5:
		if len(c) > 0 {
			c[rng.Intn(len(c))] ^= byte(1 << rng.Intn(8))
		}
	case 6:
		c = make([]byte, 1+rng.Intn(3000))
		rng.Read(c)
	case 7:
		if len(c) > 1 {
			c = c[:rng.Intn(len(c))]
		}
	}
	return c
}

// mutatePb changes one thing in a protobuf message.
func mutatePb(rng *rand.Rand, b []byte) []byte {
	fs, ok := pbParse(b)
	if !ok || len(fs) == 0 {
		return mutateBytes(rng, b)
	}
	i := rng.Intn(len(fs))
	switch x := rng.Intn(10); {
	case x == 0: // drop
		fs = append(append([]pbField{}, fs[:i]...), fs[i+1:]...)
	case x == 1: // repeat
		fs = append(fs, fs[i])
	case x == 2: // drop all of this number
		k := fs[i].num
		o := []pbField{}
		for _, f := range fs {
			if f.num != k {
				o = append(o, f)
			}
		}
		fs = o
	case x == 3: // swap
		j := rng.Intn(len(fs))
		fs[i].val, fs[j].val = fs[j].val, fs[i].val
	case fs[i].typ == 0:
		fs[i].n = rng.Uint64()
	default:
		v := fs[i].val
		if _, ok := pbParse(v); ok && len(v) > 8 && rng.Intn(2) == 0 {
			fs[i].val = mutatePb(rng, v)
		} else {
			fs[i].val = mutateBytes(rng, v)
		}
	}
	return pbBytes(fs)
}

// mutateWire changes one thing in the contents of a protocol message.
func mutateWire(rng *rand.Rand, b []byte) []byte {
	fs, ok := pbParse(b)
	if !ok || len(fs) < 2 || fs[1].typ != 2 {
		return mutateBytes(rng, b)
	}
	for k := 1 + rng.Intn(2); k > 0; k-- {
		fs[1].val = mutatePb(rng, fs[1].val)
	}
	return pbBytes(fs)
}

var contents = []proto.Message{&keygen.KGRound1Message{}, &keygen.KGRound2Message1{}, &keygen.KGRound2Message2{}, &keygen.KGRound3Message{},
	&ecsigning.SignRound1Message1{}, &ecsigning.SignRound1Message2{}, &ecsigning.SignRound2Message{}, &ecsigning.SignRound3Message{},
	&ecsigning.SignRound4Message{}, &ecsigning.SignRound5Message{}, &ecsigning.SignRound6Message{}, &ecsigning.SignRound7Message{},
	&edkeygen.KGRound1Message{}, &edkeygen.KGRound2Message1{}, &edkeygen.KGRound2Message2{},
	&edsigning.SignRound1Message{}, &edsigning.SignRound2Message{}, &edsigning.SignRound3Message{}}

// emptyContent is a protocol message of some type that holds nothing, or garbage.
func emptyContent(rng *rand.Rand, garbage bool) []byte {
	a, err := ptypes.MarshalAny(contents[rng.Intn(len(contents))])
	if err != nil {
		panic(err)
	}
	if garbage {
		fs := []pbField{}
		for k := rng.Intn(5); k >= 0; k-- {
			v := make([]byte, rng.Intn(70))
			rng.Read(v)
			fs = append(fs, pbField{num: uint64(1 + rng.Intn(8)), typ: 2, val: v})
		}
		a.Value = pbBytes(fs)
	}
	if rng.Intn(12) == 0 {
		a.TypeUrl = []string{"", "x", "type.googleapis.com/sisu.Unknown", "type.googleapis.com/google.protobuf.Any"}[rng.Intn(4)]
	}
	b, err := proto.Marshal(a)
	if err != nil {
		panic(err)
	}
	return b
}

// ---------------------------------------------------------------- the attacked network

// modeHostile: real engines run works in lockstep while node a gets hostile messages; later works must still complete.
func modeHostile(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	begin := time.Now()
	n := num(s.Cfg, "n", 3)
	ids := fixtureIdents(n)
	stranger := strangerIdent(1)
	names := []string{}
	index := map[string]int{}
	name := map[string]string{}
	for i, id := range ids {
		nm := string(rune('a' + i))
		names = append(names, nm)
		index[nm] = i
		name[id.Node.PartyId.Id] = nm
	}
	pids := worker.GetTestPartyIds(n)
	th := (n+1)*2/3 - 1
	ms := func(k string, def int) time.Duration { return time.Duration(num(s.Cfg, k, def)) * time.Millisecond }
	cfg := timeouts(ms("leader_ms", 3000), ms("member_ms", 7000), ms("job_ms", 15000), ms("monitor_ms", 3600000))

	type work struct {
		id, kind string
		batch    int
		msgs     [][]byte
		hold     bool
	}
	var mu sync.Mutex
	works := map[string]*work{}  // by name in the scenario
	byId := map[string]*work{}
	wname := map[string]string{} // id -> name in the scenario
	stash := []*Sent{}
	lastOf := map[string]*common.TssMessage{} // genuine messages from a sender
	all := []*common.TssMessage{}
	var net *Net

	outcome := func(i int, id, what string, valid bool, dig string) {
		mu.Lock()
		nm := wname[id]
		mu.Unlock()
		if nm == "" {
			nm = "?"
		}
		r.Add("outcome", "node", names[i], "id", nm, "what", what, "valid", valid, "dig", dig)
	}
	keyWork := func(kt string) string {
		mu.Lock()
		defer mu.Unlock()
		for id, w := range byId {
			if kt == "ecdsa" && w.kind == "eckeygen" || kt == "eddsa" && w.kind == "edkeygen" {
				return id
			}
		}
		return "?"
	}
	cb := func(i int) *EngCB {
		c := &EngCB{}
		c.keygen = func(i int, res *htypes.KeygenResult) {
			if res.Outcome != htypes.OutcomeSuccess {
				outcome(i, keyWork(res.KeyType), "fail", true, "")
				return
			}
			outcome(i, keyWork(res.KeyType), "keygen", true, digest(res.PubKeyBytes))
		}
		c.signing = func(i int, req *types.WorkRequest, res *htypes.KeysignResult) {
			id := "?"
			if req != nil {
				id = req.WorkId
			}
			mu.Lock()
			w := byId[id]
			mu.Unlock()
			switch res.Outcome {
			case htypes.OutcometNotSelected:
				outcome(i, id, "notsel", true, "")
			case htypes.OutcomeSuccess:
				valid, dig := w != nil && len(res.Signatures) == len(w.msgs), ""
				for j, sig := range res.Signatures {
					if !valid {
						break
					}
					dig = digest([]byte(dig), sig)
					if w.kind == "edsign" {
						valid = validEd(edShares(n)[i], w.msgs[j], sig)
					} else {
						valid = len(sig) == 65 && validEc(ecShares(n)[i], w.msgs[j], sig[:32], sig[32:64])
					}
				}
				outcome(i, id, "sign", valid, dig)
			default:
				outcome(i, id, "fail", true, "")
			}
		}
		c.failed = func(i int, req *types.WorkRequest) {
			id := "?"
			if req != nil {
				id = req.WorkId
			}
			outcome(i, id, "fail", true, "")
		}
		return c
	}
	real := []int{}
	for i := range ids {
		real = append(real, i)
	}
	net = newNet(ids, real, nil, cfg, cb)
	net.policy = func(m *Sent) []time.Duration {
		if m.Tss == nil {
			return []time.Duration{0}
		}
		mu.Lock()
		defer mu.Unlock()
		if names[m.To] == "a" || m.Tss.IsBroadcast() {
			c := &common.TssMessage{}
			bz, _ := json.Marshal(m.Tss)
			json.Unmarshal(bz, c)
			if c.Type == common.TssMessage_UPDATE_MESSAGES {
				lastOf[c.From+wname[c.WorkId]] = c
				all = append(all, c)
			}
		}
		if w := byId[m.Tss.WorkId]; w != nil && w.hold {
			stash = append(stash, m)
			return nil
		}
		return []time.Duration{time.Duration(rng.Intn(1500)) * time.Microsecond}
	}
	// release delivers what was held for a work; hold: only what is held now.
	release := func(w *work, keep bool) int {
		mu.Lock()
		w.hold = keep
		now, later := []*Sent{}, []*Sent{}
		for _, m := range stash {
			if m.Tss.WorkId == w.id {
				now = append(now, m)
			} else {
				later = append(later, m)
			}
		}
		stash = later
		rng.Shuffle(len(now), func(i, j int) { now[i], now[j] = now[j], now[i] })
		mu.Unlock()
		for _, m := range now {
			m := m
			go net.deliver(m.From, m.To, m.Raw)
		}
		return len(now)
	}
	held := func(w *work) int {
		mu.Lock()
		defer mu.Unlock()
		k := 0
		for _, m := range stash {
			if m.Tss.WorkId == w.id {
				k++
			}
		}
		return k
	}
	for i := range ids {
		net.dbs[i].preparam = worker.LoadEcPreparams(i)
		if err := net.engines[i].Init(); err != nil {
			return err
		}
	}
	newWork := func(nm, kind, leader string, batch int, hold bool) *work {
		w := &work{kind: kind, batch: batch, hold: hold}
		w.id = workIdFor(fmt.Sprintf("%s.%s.%d_", s.Name, nm, rng.Intn(1000)), pids, func(id string) bool { return name[id] == leader || leader == "" })
		for j := 0; j < batch; j++ {
			w.msgs = append(w.msgs, randMsg(rng, 32))
		}
		mu.Lock()
		works[nm] = w
		byId[w.id] = w
		wname[w.id] = nm
		mu.Unlock()
		return w
	}
	submit := func(nm string, w *work, node int) bool {
		my := copyPids(pids)
		chains := make([]string, w.batch)
		msgs := [][]byte{}
		for j := range chains {
			chains[j] = "chain"
			msgs = append(msgs, append([]byte{}, w.msgs[j]...))
		}
		var req *types.WorkRequest
		switch w.kind {
		case "edkeygen":
			req = types.NewEdKeygenRequest(w.id, my, th)
		case "eckeygen":
			req = types.NewEcKeygenRequest("ecdsa", w.id, my, th, nil)
		case "edsign":
			req = types.NewEdSigningRequest(w.id, my, th, msgs, chains, edShares(n)[node])
		default:
			req = types.NewEcSigningRequest(w.id, my, th, msgs, chains, ecShares(n)[node])
		}
		r.Add("submit", "node", names[node], "id", nm)
		var err error
		if !within(20*time.Second, func() { err = net.engines[node].AddRequest(req) }) {
			r.Stall("hang", "what", "submit")
			return false
		}
		if err != nil {
			r.Add("refused", "node", names[node], "id", nm, "err", err.Error())
		}
		return true
	}
	outs := func(nm string) int {
		return r.Count(func(e M) bool { return e["e"] == "outcome" && e["id"] == nm })
	}
	// quiet waits until nothing new happens for a while.
	quiet := func(w *work, d time.Duration) {
		k, at := -1, time.Now()
		waitFor(d, func() bool {
			if h := held(w) + 1000*r.Len(); h != k {
				k, at = h, time.Now()
			}
			time.Sleep(4 * time.Millisecond)
			return time.Since(at) > 35*time.Millisecond
		})
	}
	// hostile builds the bytes of a hostile message.
	hostile := func(class, from, nm string) (raw []byte, fromPeer string, signed bool) {
		me := stranger
		if i, ok := index[from]; ok {
			me = ids[i]
		}
		fromPeer = me.Node.PeerId.String()
		wid := "no-such-work"
		w := works[nm]
		if w != nil {
			wid = w.id
		}
		batch := 1
		if w != nil {
			batch = w.batch
		}
		m := &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: me.Node.PartyId.Id, WorkId: wid}
		mu.Lock()
		gen := lastOf[m.From+nm]
		if gen == nil && len(all) > 0 {
			gen = all[rng.Intn(len(all))]
		}
		mu.Unlock()
		clone := func() {
			if gen != nil {
				bz, _ := json.Marshal(gen)
				c := &common.TssMessage{}
				json.Unmarshal(bz, c)
				c.From, c.WorkId = m.From, wid
				if c.To != "" {
					c.To = ids[0].Node.PartyId.Id
				}
				m = c
			}
		}
		some := func() []*common.UpdateMessage {
			l := []*common.UpdateMessage{}
			for i := 0; i < batch; i++ {
				l = append(l, &common.UpdateMessage{Data: emptyContent(rng, rng.Intn(2) == 0), SerializedMessageRouting: []byte("{}"),
					Round: []string{"KGRound1Message", "SignRound1Message1", "", "x__y"}[rng.Intn(4)]})
			}
			return l
		}
		names2 := func() []string {
			l := []string{}
			for k := rng.Intn(n + 3); k > 0; k-- {
				x := []string{ids[rng.Intn(n)].Node.PartyId.Id, ids[rng.Intn(n)].Node.PartyId.Id, "", "unknown", stranger.Node.PartyId.Id}
				l = append(l, x[rng.Intn(len(x))])
			}
			return l
		}
		switch class {
		case "bytes":
			raw = make([]byte, rng.Intn(200))
			rng.Read(raw)
			return raw, fromPeer, false
		case "json":
			l := []string{"", "null", "{}", "[]", "0", "\"x\"", "{\"TssMessage\":null}", "{\"tss_message\":{}}", "{\"TssMessage\":{}}", "{\"TssMessage\":[]}",
				"{\"From\":5}", strings.Repeat("[", 20000), "{\"TssMessage\":{\"update_messages\":[null]}}", "{\"TssMessage\":{\"Type\":3,\"UpdateMessages\":[{}]},\"Signature\":null}"}
			return []byte(l[rng.Intn(len(l))]), fromPeer, false
		case "cut":
			clone()
			raw = signAs(me, m)
			return raw[:rng.Intn(len(raw))], fromPeer, false
		case "flip":
			clone()
			raw = signAs(me, m)
			for k := rng.Intn(4); k >= 0; k-- {
				raw[rng.Intn(len(raw))] ^= byte(1 << rng.Intn(7))
			}
			return raw, fromPeer, true
		case "nosig":
			m.UpdateMessages = some()
			sm := &common.SignedMessage{From: m.From, TssMessage: m}
			if rng.Intn(2) == 0 {
				sm.Signature = make([]byte, rng.Intn(130))
				rng.Read(sm.Signature)
			}
			raw, _ = json.Marshal(sm)
			return raw, fromPeer, false
		case "peer":
			m.UpdateMessages = some()
			return signAs(me, m), []string{"", "x", stranger.Node.PeerId.String()}[rng.Intn(3)], false
		case "spoof": // an envelope in the name of somebody else
			clone()
			m.From = ids[rng.Intn(n)].Node.PartyId.Id
			sm := &common.SignedMessage{From: m.From, TssMessage: m}
			ser, _ := json.Marshal(m)
			sm.Signature, _ = stranger.Key.Sign(ser)
			raw, _ = json.Marshal(sm)
			return raw, fromPeer, false
		case "type":
			m.Type = common.TssMessage_Type([]int32{-1, 7, 99, 1 << 30}[rng.Intn(4)])
			m.UpdateMessages = some()
		case "req":
			m.Type = common.TssMessage_AVAILABILITY_REQUEST
		case "resp":
			m.Type = common.TssMessage_AVAILABILITY_RESPONSE
			if rng.Intn(3) > 0 {
				m.AvailabilityResponseMessage = &common.AvailabilityResponseMessage{Answer: common.AvailabilityResponseMessage_ANSWER(rng.Intn(4)), MaxJob: int32(rng.Intn(5) - 2)}
			}
		case "ann":
			m.Type = common.TssMessage_PRE_EXEC_OUTPUT
			if rng.Intn(4) > 0 {
				m.PreExecOutputMessage = &common.PreExecOutputMessage{Success: rng.Intn(4) > 0, Pids: names2()}
				if rng.Intn(3) == 0 {
					m.PreExecOutputMessage.PresignIds = names2()
				}
			}
		case "ask":
			m.Type = common.TssMessage_ASK_MESSAGE_REQUEST
			if rng.Intn(4) > 0 {
				k := []string{"", "_", "__", "____", "______", "a__b__c__d", wid + "__" + ids[0].Node.PartyId.Id + "____KGRound1Message",
					wid + "__x__y__z__t", strings.Repeat("__", 5000), "a__" + ids[0].Node.PartyId.Id + "__"}
				m.AskRequestMessage = &common.AskRequestMessage{MsgKey: k[rng.Intn(len(k))]}
			}
		case "uempty":
			if rng.Intn(2) == 0 {
				m.UpdateMessages = []*common.UpdateMessage{}
			}
		case "unull":
			m.UpdateMessages = some()
			m.UpdateMessages[rng.Intn(batch)] = nil
		case "ucount":
			m.UpdateMessages = some()
			if rng.Intn(2) == 0 {
				m.UpdateMessages = append(m.UpdateMessages, m.UpdateMessages...)
			} else {
				m.UpdateMessages = m.UpdateMessages[1:]
			}
		case "udata":
			m.UpdateMessages = some()
			for _, u := range m.UpdateMessages {
				if rng.Intn(2) == 0 {
					u.Data = make([]byte, rng.Intn(60))
					rng.Read(u.Data)
				} else if rng.Intn(3) == 0 {
					u.Data = nil
				}
			}
		case "uroute":
			clone()
			if len(m.UpdateMessages) > 0 {
				l := []string{"", "null", "{", "[]", "{\"From\":null,\"To\":[null]}", "{\"To\":[{}],\"IsBroadcast\":true}"}
				m.UpdateMessages[rng.Intn(len(m.UpdateMessages))].SerializedMessageRouting = []byte(l[rng.Intn(len(l))])
			}
		case "ucontent": // of any protocol message, without or with strange contents
			m.UpdateMessages = some()
			if rng.Intn(2) == 0 {
				m.To = ids[0].Node.PartyId.Id
			}
		case "umutate": // a genuine message with a change in its contents
			clone()
			for _, u := range m.UpdateMessages {
				if rng.Intn(2) == 0 || len(m.UpdateMessages) == 1 {
					u.Data = mutateWire(rng, u.Data)
				}
			}
		case "uswap": // broadcast instead of direct or the other way round, or addressed to others
			clone()
			m.To = []string{"", ids[0].Node.PartyId.Id, ids[n-1].Node.PartyId.Id, "unknown"}[rng.Intn(4)]
		case "replay": // an unaltered genuine message of somebody, again
			mu.Lock()
			if len(all) > 0 {
				g := all[rng.Intn(len(all))]
				m = g
				me = ids[index[name[g.From]]]
			}
			mu.Unlock()
		case "big":
			m.UpdateMessages = some()
			m.UpdateMessages[0].Data = make([]byte, 1<<20)
			m.WorkId = strings.Repeat("w", 1<<16)
		}
		return signAs(me, m), fromPeer, true
	}

	seq := 0
	send := func(op M) bool {
		class, from, nm := str(op, "class", "bytes"), str(op, "from", "b"), str(op, "work", "")
		k := num(op, "k", 1)
		for ; k > 0; k-- {
			raw, peer, signed := hostile(class, from, nm)
			seq++
			id := seq
			r.Add("msg", "k", id, "class", class, "from", from, "work", nm, "signed", signed && index[from] > 0 && class != "replay")
			if !within(20*time.Second, func() {
				net.engines[0].OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: peer, Data: raw})
			}) {
				r.Stall("hang", "what", class)
				return false
			}
			r.Add("ret", "k", id)
		}
		return true
	}
	waitAll := func(nm string, d time.Duration) bool {
		if !waitFor(d, func() bool { return outs(nm) >= n }) {
			r.Stall("nooutcome", "id", nm)
			return false
		}
		return true
	}
	w2late := M{}
	for _, op := range s.Ops {
		nm := str(op, "work", "")
		w := works[nm]
		switch str(op, "op", "") {
		case "work":
			w = newWork(nm, str(op, "kind", "edsign"), str(op, "leader", "a"), num(op, "batch", 1), true)
			if !boolean(op, "early", false) {
				for i := range ids {
					if !submit(nm, w, i) {
						return nil
					}
				}
				quiet(w, 100*time.Millisecond)
			} else {
				// node a gets its request later
				w2late[nm] = "y"
				for i := 1; i < n; i++ {
					if !submit(nm, w, i) {
						return nil
					}
				}
				quiet(w, 60*time.Millisecond)
			}
		case "late":
			w2late[nm] = ""
			if !submit(nm, w, 0) {
				return nil
			}
			quiet(w, 60*time.Millisecond)
		case "step":
			release(w, true)
			quiet(w, 800*time.Millisecond)
		case "go":
			release(w, false)
		case "wait":
			if str(w2late, nm, "") == "y" {
				w2late[nm] = ""
				if !submit(nm, w, 0) {
					return nil
				}
			}
			release(w, false)
			if !waitAll(nm, 45*time.Second) {
				return nil
			}
		case "msg":
			if !send(op) {
				return nil
			}
		}
	}
	// Everything ends, and then a new work of each requested kind completes on all nodes.
	for nm, w := range works {
		if str(w2late, nm, "") == "y" && !submit(nm, w, 0) {
			return nil
		}
		release(w, false)
		if !waitAll(nm, 45*time.Second) {
			return nil
		}
	}
	for i := range ids {
		i := i
		if !waitFor(8*time.Second, func() bool { return net.engines[i].GetActiveWorkerCount() == 0 }) {
			r.Stall("nooutcome", "node", names[i])
		}
	}
	for j, kind := range strList(s.Cfg["probe"]) {
		nm := fmt.Sprintf("p%d", j)
		w := newWork(nm, kind, names[rng.Intn(n)], 1, false)
		for i := range ids {
			if !submit(nm, w, i) {
				return nil
			}
		}
		if !waitAll(nm, 45*time.Second) {
			return nil
		}
	}
	time.Sleep(20 * time.Millisecond)
	r.Add("end")
	net.Close()
	kinds := M{}
	for nm, w := range works {
		kinds[nm] = w.kind
	}
	ok := lagSince(begin) < 250*time.Millisecond
	r.cfg = M{"all": names, "t": th, "kinds": kinds, "must": ok && boolean(s.Cfg, "must", false), "probe": ok}
	return nil
}
