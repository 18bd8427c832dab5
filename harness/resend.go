package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker/interfaces"
)

func init() {
	modes["resend"] = modeResend
	parModes["resend"] = 4
}

// forger signs messages, or makes forged ones.
type forger struct {
	ids              []*Ident
	index            map[string]int
	others           []string
	rng              *rand.Rand
	pid              func(string) string
	lastSig, lastSer []byte // of an earlier message of anybody
}

// envelope signs m as its sender, or forges it as told; attributes tell how.  Altered messages are signed in another
// form first.
func (f *forger) envelope(m *common.TssMessage, from, forge string) (raw []byte, outer, inner, signer string, intact bool, sig []byte) {
	outer, inner, signer, intact = from, from, from, true
	other := func() string {
		for {
			if o := f.others[f.rng.Intn(len(f.others))]; o != from {
				return o
			}
		}
	}
	orig, _ := json.Marshal(m)
	signed := &common.TssMessage{}
	json.Unmarshal(orig, signed)
	switch forge {
	case "data":
		switch {
		case signed.AskRequestMessage != nil:
			signed.AskRequestMessage.MsgKey += "1"
		case signed.PreExecOutputMessage != nil:
			p := signed.PreExecOutputMessage
			if f.rng.Intn(2) == 0 {
				p.Success = !p.Success
			} else {
				p.Pids = append([]string{}, p.Pids...)
				p.Pids = append(p.Pids, f.pid("d"))
			}
		case signed.AvailabilityResponseMessage != nil:
			signed.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_NO
		case len(signed.UpdateMessages) > 0:
			d := signed.UpdateMessages[0].Data
			d[len(d)-1] ^= 1
		default:
			signed.WorkId += "1"
		}
	case "to":
		if signed.To == "" {
			signed.To = f.pid("a")
		} else {
			signed.To = ""
		}
	case "work":
		signed.WorkId += "_"
	case "type":
		signed.Type = common.TssMessage_AVAILABILITY_REQUEST
		if m.Type == signed.Type {
			signed.Type = common.TssMessage_AVAILABILITY_RESPONSE
		}
	case "signer":
		signer = other()
	case "outer":
		outer = other()
		signer = outer
	case "inner":
		// it is signed and sent by somebody else as himself
		outer = other()
		signer = outer
		inner = from
	case "stranger":
		outer, inner, signer = "s", "s", "s"
		signed.From, m.From = f.pid("s"), f.pid("s")
	case "strangersig":
		signer = "s"
	}
	ser, _ := json.Marshal(signed)
	after, _ := json.Marshal(m)
	if forge == "nosig" {
		signer = ""
	} else if forge == "replay" && f.lastSig != nil {
		sig, ser = f.lastSig, f.lastSer
	} else {
		sig, _ = f.ids[f.index[signer]].Key.Sign(ser)
	}
	intact = bytes.Equal(ser, after)
	if forge == "" {
		f.lastSig, f.lastSer = sig, ser
	}
	raw, _ = json.Marshal(&common.SignedMessage{From: f.pid(outer), TssMessage: m, Signature: sig})
	return
}

// modeResend: one real engine "a" and puppets; what it keeps, re-sends and ignores.
func modeResend(s *Scenario, r *Rec, rng *rand.Rand) error {
	ids := append(idents(5), strangerIdent(0))
	names := []string{"a", "b", "c", "d", "z", "s"}
	index := map[string]int{}
	for i, nm := range names {
		index[nm] = i
	}
	pid := func(nm string) string {
		if i, ok := index[nm]; ok {
			return ids[i].Node.PartyId.Id
		}
		return nm
	}
	name := map[string]string{}
	for _, nm := range names {
		name[pid(nm)] = nm
	}
	known := names[:4]
	// z and s are not known at first
	net := newNet(ids[:4], []int{0}, r, timeouts(time.Hour, time.Hour, time.Hour, time.Hour), func(i int) *EngCB { return &EngCB{} })
	for i, id := range ids[4:] {
		net.byPeer[id.Node.PeerId.String()] = 4 + i
	}
	net.ids = ids
	net.engines = append(net.engines, nil, nil)
	eng := net.engines[0]
	disp, ok := eng.(interfaces.MessageDispatcher)
	if !ok {
		return fmt.Errorf("the engine is no dispatcher")
	}

	type content struct {
		json []byte
		sig  []byte
		own  bool
	}
	var mu sync.Mutex
	made := map[int]*content{} // by number
	byJson := map[string]int{}
	net.onSend = func(m *Sent) {
		to := "?"
		if m.To >= 0 {
			to = names[m.To]
		}
		if m.Tss == nil {
			r.Add("sent", "to", to, "n", -1, "intact", false)
			return
		}
		ser, _ := json.Marshal(m.Tss)
		mu.Lock()
		n, ok := byJson[string(ser)]
		c := made[n]
		mu.Unlock()
		good := ok && m.From == 0
		if good && c.own {
			good = m.Signed.From == pid("a") && ids[0].Key.PubKey().VerifySignature(ser, m.Signed.Signature)
		} else if good {
			good = bytes.Equal(c.sig, m.Signed.Signature) && m.Signed.From == m.Tss.From
		}
		if !ok {
			n = -1
		}
		r.Add("sent", "to", to, "n", n, "intact", good)
	}

	cnt := 0
	number := func(m *common.TssMessage) int {
		cnt++
		if m.Type == common.TssMessage_UPDATE_MESSAGES {
			m.UpdateMessages[0].Data = append([]byte(fmt.Sprintf("m%d.", cnt)), randMsg(rng, 8)...)
		} else if m.PreExecOutputMessage != nil {
			m.PreExecOutputMessage.PresignIds = []string{fmt.Sprintf("m%d", cnt)}
		}
		return cnt
	}
	register := func(n int, m *common.TssMessage, sig []byte, own bool) {
		ser, _ := json.Marshal(m)
		mu.Lock()
		made[n] = &content{ser, sig, own}
		byJson[string(ser)] = n
		mu.Unlock()
	}
	upd := func(from, to, work, round string) *common.TssMessage {
		return &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: from, To: to, WorkId: work,
			UpdateMessages: []*common.UpdateMessage{{Data: []byte{1}, SerializedMessageRouting: []byte("{}"), Round: round}}}
	}
	nameOf := func(id string) string {
		if nm, ok := name[id]; ok {
			return nm
		}
		return id
	}
	fg := &forger{ids: ids, index: index, others: known[1:4], rng: rng, pid: pid}
	envelope := fg.envelope
	call := func(what string, f func()) bool {
		if !within(20*time.Second, f) {
			r.Stall("hang", "what", what)
			return false
		}
		return true
	}
	key := func(m *common.TssMessage) []string {
		return []string{m.WorkId, nameOf(m.From), nameOf(m.To), m.UpdateMessages[0].Round}
	}
	var burstKeys []string
	for _, op := range s.Ops {
		ok := true
		switch str(op, "op", "") {
		case "own":
			to := str(op, "to", "")
			targets := []string{to}
			hdr := to
			if to == "" || to == "all+z" {
				hdr = ""
				targets = []string{"a", "b", "c", "d"}
				if to != "" {
					targets = []string{"b", "z", "a", "c", "d"}
				}
				rng.Shuffle(len(targets), func(i, j int) { targets[i], targets[j] = targets[j], targets[i] })
			}
			m := upd(pid("a"), "", str(op, "work", ""), str(op, "round", ""))
			if hdr != "" {
				m.To = pid(hdr)
			}
			isUpd := str(op, "typ", "upd") == "upd"
			if !isUpd {
				m.Type = common.TssMessage_PRE_EXEC_OUTPUT
				m.UpdateMessages = nil
				m.PreExecOutputMessage = &common.PreExecOutputMessage{Success: true}
			}
			n := number(m)
			register(n, m, nil, true)
			k := []string{m.WorkId, "a", nameOf(m.To), str(op, "round", "")}
			r.Add("own", "key", k, "n", n, "upd", isUpd, "targets", targets)
			ps := []*tss.PartyID{}
			for _, t := range targets {
				ps = append(ps, ids[index[t]].Node.PartyId)
			}
			ok = call("send", func() {
				if hdr == "" {
					disp.BroadcastMessage(ps, m)
				} else {
					disp.UnicastMessage(ps[0], m)
				}
			})
		case "net":
			from := str(op, "from", "b")
			m := upd(pid(from), "", str(op, "work", ""), str(op, "round", ""))
			if to := str(op, "to", ""); to != "" {
				m.To = pid(to)
			}
			number(m)
			raw, outer, inner, signer, intact, sig := envelope(m, from, str(op, "forge", ""))
			register(cnt, m, sig, false)
			r.Add("net", "outer", outer, "inner", inner, "signer", signer, "intact", intact, "key", key(m), "n", cnt)
			ok = call("deliver", func() { net.deliver(index[str(op, "via", from)], 0, raw) })
		case "burst":
			from := str(op, "from", "b")
			same := boolean(op, "same", false)
			k := num(op, "k", 1)
			n0 := cnt + 1
			burstKeys = nil
			r.Add("burst", "from", from, "k", k, "n", n0, "same", same)
			ok = call("burst", func() {
				for i := 0; i < k; i++ {
					round := fmt.Sprintf("B%d", cnt+1)
					if same {
						round = fmt.Sprintf("B%d", n0)
					}
					m := upd(pid(from), "", "x", round)
					n := number(m)
					burstKeys = append(burstKeys, round)
					if from == "a" {
						register(n, m, nil, true)
						disp.BroadcastMessage(nil, m)
					} else {
						raw, _, _, _, _, sig := envelope(m, from, "")
						register(n, m, sig, false)
						net.deliver(index[from], 0, raw)
					}
				}
			})
			burstKeys = append([]string{from}, burstKeys...)
		case "ask", "askb":
			from := str(op, "from", "b")
			k := strs(op, "key")
			if str(op, "op", "") == "askb" {
				bk := burstKeys[1:]
				i := map[string]int{"first": 0, "second": 1, "last": len(bk) - 1, "mid": len(bk) / 2}[str(op, "pos", "first")]
				if i >= len(bk) {
					i = 0
				}
				k = []string{"x", burstKeys[0], "", bk[i]}
			}
			if k[2] == "all+z" {
				k[2] = ""
			}
			to := ""
			if k[2] != "" {
				to = pid(k[2])
			}
			mk := common.GetMessageKey(k[0], pid(k[1]), to, k[3])
			if raw := str(op, "raw", "-"); raw != "-" {
				mk = raw
				k = []string{"-", "-", "-", "-"}
			}
			m := common.NewRequestMessage(pid(from), pid("a"), k[0], mk)
			raw, outer, inner, signer, intact, _ := envelope(m, from, str(op, "forge", ""))
			r.Add("ask", "outer", outer, "inner", inner, "signer", signer, "intact", intact, "key", k)
			ok = call("ask", func() { net.deliver(index[str(op, "via", from)], 0, raw) })
		case "learn":
			r.Add("learn", "node", str(op, "node", "z"))
			nd := *ids[index[str(op, "node", "z")]].Node
			ok = call("learn", func() { eng.AddNodes([]*core.Node{&nd}) })
		}
		if !ok {
			return nil
		}
	}
	// Replies may be sent a little later.
	n := -1
	waitFor(300*time.Millisecond, func() bool {
		k := r.Len()
		if k == n {
			return true
		}
		n = k
		time.Sleep(15 * time.Millisecond)
		return false
	})
	r.Add("end")
	net.Close()
	r.cfg = M{"known": known}
	return nil
}
