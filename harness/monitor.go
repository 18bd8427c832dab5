package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"
	"google.golang.org/protobuf/proto"

	hcommon "github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/components"
	"github.com/sisu-network/dheart/worker/types"
)

func init() {
	modes["monitor"] = modeMonitor
	modes["askout"] = modeAskOut
	parModes["monitor"] = 8
	parModes["askout"] = 4
}

// fullTypes: the full name of every protocol message, by kind and short name.
func fullTypes(kind string) map[string]string {
	var ms []proto.Message
	switch kind {
	case "edkeygen":
		ms = []proto.Message{&edkeygen.KGRound1Message{}, &edkeygen.KGRound2Message1{}, &edkeygen.KGRound2Message2{}}
	case "eckeygen":
		ms = []proto.Message{&eckeygen.KGRound1Message{}, &eckeygen.KGRound2Message1{}, &eckeygen.KGRound2Message2{}, &eckeygen.KGRound3Message{}}
	case "edsign":
		ms = []proto.Message{&edsigning.SignRound1Message{}, &edsigning.SignRound2Message{}, &edsigning.SignRound3Message{}}
	default:
		ms = []proto.Message{&ecsigning.SignRound1Message1{}, &ecsigning.SignRound1Message2{}, &ecsigning.SignRound2Message{}, &ecsigning.SignRound3Message{},
			&ecsigning.SignRound4Message{}, &ecsigning.SignRound5Message{}, &ecsigning.SignRound6Message{}, &ecsigning.SignRound7Message{}}
	}
	r := map[string]string{}
	for _, m := range ms {
		f := string(proto.MessageName(m))
		r[typShort(f)] = f
	}
	return r
}

func workTypeOf(kind string) types.WorkType {
	switch kind {
	case "edkeygen":
		return types.EdKeygen
	case "eckeygen":
		return types.EcKeygen
	case "edsign":
		return types.EdSigning
	}
	return types.EcSigning
}

type parsedFake struct{ fakeMsg }

func (p *parsedFake) Content() tss.MessageContent { return nil }
func (p *parsedFake) ValidateBasic() bool         { return true }

type monCB struct{ f func(map[string][]string) }

func (c *monCB) OnMissingMesssageDetected(m map[string][]string) { c.f(m) }

func pairs(m map[string][]string, name map[string]string) [][]string {
	r := [][]string{}
	for p, ts := range m {
		for _, t := range ts {
			r = append(r, []string{name[p], typShort(t)})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0]+r[i][1] < r[j][0]+r[j][1] })
	return r
}

// modeMonitor tells a real monitor about messages and observes what it asks for.
func modeMonitor(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	n, kind := num(s.Cfg, "n", 3), str(s.Cfg, "kind", "edsign")
	pids, by, name := letters(n)
	m := map[string]*tss.PartyID{}
	all := []string{}
	for _, p := range pids {
		m[p.Id] = p
		all = append(all, name[p.Id])
	}
	period := time.Duration(num(s.Cfg, "period_ms", 60)) * time.Millisecond
	full := fullTypes(kind)
	var mu sync.Mutex
	last := time.Time{}
	asks := 0
	cb := &monCB{func(x map[string][]string) {
		mu.Lock()
		defer mu.Unlock()
		d := time.Since(last)
		early := d > 20*time.Millisecond && d < period*7/10 && lagSince(last) < 10*time.Millisecond
		asks++
		r.Add("ask", "miss", pairs(x, name), "early", early)
	}}
	mon := components.NewMessageMonitor(by["a"], workTypeOf(kind), kind == "presign", cb, m, period)
	go mon.Start()
	rcv := func(from, typ string) {
		f, ok := full[typ]
		if !ok {
			f = "binance.tsslib." + typ
		}
		msg := &parsedFake{fakeMsg{typ: f, from: by[from]}}
		if msg.from == nil {
			msg.from = tss.NewPartyID("stranger", "", by["a"].KeyInt())
		}
		mu.Lock()
		r.Add("rcv", "from", from, "typ", typ)
		mu.Unlock()
		mon.NewMessageReceived(msg, msg.from)
		mu.Lock()
		last = time.Now()
		mu.Unlock()
	}
	for _, op := range s.Ops {
		switch str(op, "op", "") {
		case "rcv":
			if !within(10*time.Second, func() { rcv(str(op, "from", "b"), str(op, "typ", "")) }) {
				r.Stall("hang")
				return nil
			}
			if boolean(s.Cfg, "slow", false) {
				time.Sleep(period / time.Duration(2+rng.Intn(3)))
			}
		case "wait":
			start := time.Now()
			mu.Lock()
			had := asks
			r.Add("pause")
			mu.Unlock()
			ok := waitFor(6*period, func() bool { mu.Lock(); defer mu.Unlock(); return asks > had })
			if !ok && lagSince(start) > period/2 {
				ok = waitFor(20*period, func() bool { mu.Lock(); defer mu.Unlock(); return asks > had })
			}
			mu.Lock()
			if asks == had {
				r.Add("noask")
			}
			mu.Unlock()
		case "stop":
			mon.Stop()
			time.Sleep(period/2 + lagSince(time.Now().Add(-period)))
			mu.Lock()
			r.Add("stopped")
			mu.Unlock()
			time.Sleep(3 * period)
		}
	}
	mon.Stop()
	time.Sleep(2 * time.Millisecond)
	r.Add("end")
	r.cfg = M{"kind": kind, "all": all, "me": "a"}
	return nil
}

// modeAskOut tells a real executor what is missing and observes what it sends.
func modeAskOut(s *Scenario, r *Rec, rng *rand.Rand) error {
	n, kind := num(s.Cfg, "n", 3), str(s.Cfg, "kind", "edsign")
	pids, by, name := letters(n)
	all := []string{}
	for _, p := range pids {
		all = append(all, name[p.Id])
	}
	full := fullTypes(kind)
	work := fmt.Sprintf("%s__%d", s.Name, rng.Intn(1000))
	disp := &execDisp{}
	entry := func(k string, to []string, m *hcommon.TssMessage) {
		of, typ, dest, w := "?", "?", "?", false
		if m.Type == hcommon.TssMessage_ASK_MESSAGE_REQUEST && m.AskRequestMessage != nil {
			f := strings.Split(m.AskRequestMessage.MsgKey, "__")
			if i := len(f); i >= 4 {
				of, typ, dest, w = name[f[i-3]], typShort(f[i-1]), name[f[i-2]], strings.Join(f[:i-3], "__") == work && m.WorkId == work
			}
		}
		r.Add("ask", "node", "a", "kind", k, "to", to, "of", of, "typ", typ, "hdr", m.To != "", "dest", dest, "work", w, "from", name[m.From])
	}
	disp.cast = func(ps []*tss.PartyID, m *hcommon.TssMessage) { entry("cast", namesOf(ps, name), m) }
	disp.uni = func(p *tss.PartyID, m *hcommon.TssMessage) {
		if p == nil {
			entry("uni", []string{"nobody"}, m)
			return
		}
		entry("uni", []string{name[p.Id]}, m)
	}
	msgs, chains := [][]byte{{1}}, []string{"eth"}
	var req *types.WorkRequest
	switch kind {
	case "edkeygen":
		req = types.NewEdKeygenRequest(work, pids, 1)
	case "eckeygen":
		req = types.NewEcKeygenRequest("ecdsa", work, pids, 1, nil)
	case "edsign":
		req = types.NewEdSigningRequest(work, pids, 1, msgs, chains, nil)
	default:
		req = types.NewEcSigningRequest(work, pids, 1, msgs, chains, nil)
	}
	ex := worker.NewWorkerExecutor(req, req.WorkType, by["a"], pids, disp, newFakeDB(), nil,
		func(*worker.WorkerExecutor, worker.ExecutionResult) {}, timeouts(time.Second, time.Second, time.Minute, time.Hour))
	for _, op := range s.Ops {
		switch str(op, "op", "") {
		case "miss":
			m := map[string][]string{}
			for _, x := range op["miss"].([]interface{}) {
				p := x.([]interface{})
				id := by[p[0].(string)].Id
				m[id] = append(m[id], full[p[1].(string)])
			}
			r.Add("miss", "miss", pairs(m, name))
			if !within(10*time.Second, func() { ex.OnMissingMesssageDetected(m) }) {
				r.Stall("hang")
				return nil
			}
			waitFor(500*time.Millisecond, func() bool { return r.Count(func(e M) bool { return e["e"] == "ask" || e["e"] == "stop" }) > 0 })
			r.Add("asked")
		case "stop":
			r.Add("stop")
			ex.Stop()
		}
	}
	r.Add("end")
	r.cfg = M{"kind": kind, "all": all}
	return nil
}
