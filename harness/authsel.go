package main

import (
	"math/rand"
	"sync"
	"time"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"

	htypes "github.com/sisu-network/dheart/types"
)

func init() {
	modes["authsel"] = modeAuthSel
	parModes["authsel"] = 16
}

// modeAuthSel: a real engine "a" takes part in the selection of a signing, as the leader or as a member, and gets
// genuine and forged messages.
func modeAuthSel(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	ids := append(fixtureIdents(4), strangerIdent(0))
	names := []string{"a", "b", "c", "d", "s"}
	index, name := map[string]int{}, map[string]string{}
	for i, nm := range names {
		index[nm] = i
		name[ids[i].Node.PartyId.Id] = nm
	}
	pid := func(nm string) string { return ids[index[nm]].Node.PartyId.Id }
	leader := str(s.Cfg, "leader", "b")
	lim := time.Duration(num(s.Cfg, "limit_ms", 300)) * time.Millisecond
	t := 2
	var begin time.Time
	var once sync.Once
	cb := func(i int) *EngCB {
		early := func() bool { return time.Since(begin) < lim*8/10 }
		return &EngCB{
			signing: func(i int, req *types.WorkRequest, res *htypes.KeysignResult) {
				what := "fail"
				if res.Outcome == htypes.OutcometNotSelected {
					what = "notsel"
				} else if res.Outcome == htypes.OutcomeSuccess {
					what = "sign"
				}
				r.Add("outcome", "what", what, "early", early())
			},
			failed: func(i int, req *types.WorkRequest) { r.Add("outcome", "what", "fail", "early", early()) },
		}
	}
	net := newNet(ids[:4], []int{0}, r, timeouts(lim, lim, 200*time.Millisecond, time.Hour), cb)
	net.ids = ids
	net.engines = append(net.engines, nil)
	var annOnce sync.Once
	net.onSend = func(m *Sent) {
		if m.Tss == nil {
			return
		}
		switch m.Tss.Type {
		case common.TssMessage_PRE_EXEC_OUTPUT:
			annOnce.Do(func() {
				sel := []string{}
				for _, p := range m.Tss.PreExecOutputMessage.Pids {
					sel = append(sel, name[p])
				}
				r.Add("announce", "ok", m.Tss.PreExecOutputMessage.Success, "sel", sel)
			})
		case common.TssMessage_UPDATE_MESSAGES:
			once.Do(func() { r.Add("exec") })
		}
	}
	pids := worker.GetTestPartyIds(4)
	wid := workIdFor(s.Name+"_", pids, func(id string) bool { return name[id] == leader })
	fg := &forger{ids: ids, index: index, others: []string{"b", "c", "d"}, rng: rng, pid: pid}
	// something genuine that can be replayed
	fg.envelope(common.NewAvailabilityResponseMessage(pid("c"), pid("a"), "other", common.AvailabilityResponseMessage_YES, 1), "c", "")
	req := request("edsign", wid, 4, 0, t, [][]byte{randMsg(rng, 32)})
	if err := net.engines[0].Init(); err != nil {
		return err
	}
	started := false
	start := func() bool {
		started = true
		begin = time.Now()
		var err error
		if !within(20*time.Second, func() { err = net.engines[0].AddRequest(req) }) {
			r.Stall("hang", "what", "request")
			return false
		}
		if err != nil {
			r.Add("refused", "err", err.Error())
		}
		return true
	}
	for _, op := range s.Ops {
		o := str(op, "op", "")
		if o == "start" {
			if !start() {
				return nil
			}
			continue
		}
		from := str(op, "from", "b")
		var m *common.TssMessage
		switch o {
		case "resp":
			m = common.NewAvailabilityResponseMessage(pid(from), pid("a"), wid, common.AvailabilityResponseMessage_YES, 1)
		case "req":
			m = common.NewAvailabilityRequestMessage(pid(from), pid("a"), wid)
		case "ann":
			m = common.NewPreExecOutputMessage(pid(from), "", wid, boolean(op, "ok", true), nil, nil)
			for _, x := range strs(op, "sel") {
				m.PreExecOutputMessage.Pids = append(m.PreExecOutputMessage.Pids, pid(x))
			}
		}
		raw, outer, inner, signer, intact, _ := fg.envelope(m, from, str(op, "forge", ""))
		late := started && time.Since(begin) > lim/2
		via := str(op, "via", from)
		if via == "s" {
			via = "b"
		}
		r.Add("inj", "typ", o, "outer", outer, "inner", inner, "signer", signer, "intact", intact, "late", late,
			"ok", boolean(op, "ok", true), "sel", strs(op, "sel"))
		if !within(20*time.Second, func() { net.deliver(index[via], 0, raw) }) {
			r.Stall("hang", "what", "deliver")
			return nil
		}
		time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
	}
	if !started && !start() {
		return nil
	}
	if !waitFor(20*time.Second, func() bool { return r.Count(func(e M) bool { return e["e"] == "outcome" }) > 0 }) {
		r.Stall("nooutcome")
		return nil
	}
	time.Sleep(20 * time.Millisecond)
	if lagSince(begin) > lim/10 {
		// The machine was slow: nothing that depends on the time limit counts.
		time.Sleep(400 * time.Millisecond)
		r.mu.Lock()
		for _, e := range r.ev {
			if e["e"] == "inj" {
				e["late"] = true
			}
			if e["e"] == "outcome" {
				e["early"] = false
			}
		}
		r.mu.Unlock()
	}
	r.Add("end")
	net.Close()
	r.cfg = M{"known": names[:4], "leader": leader, "t": t}
	return nil
}
