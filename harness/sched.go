package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/sisu-network/dheart/core"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
)

func init() {
	modes["queue"] = modeQueue
	modes["queuepar"] = modeQueuePar
	modes["sched"] = modeSched
	modes["schedpar"] = modeSchedPar
}

func clsOf(typ string) string {
	if typ == "eckeygen" || typ == "edkeygen" {
		return "keygen"
	}
	return "sign"
}

func workType(typ string) types.WorkType {
	switch typ {
	case "eckeygen":
		return types.EcKeygen
	case "ecsign":
		return types.EcSigning
	case "edkeygen":
		return types.EdKeygen
	}
	return types.EdSigning
}

// modeQueue replays add/pop histories on the real request queue.
func modeQueue(s *Scenario, r *Rec, rng *rand.Rand) error {
	q := core.NewRequestQueue()
	inst := 0
	for _, op := range s.Ops {
		switch str(op, "op", "") {
		case "add":
			inst++
			typ := str(op, "t", "")
			ok := q.AddWork(&types.WorkRequest{WorkId: str(op, "id", ""), WorkType: workType(typ), BatchSize: inst})
			r.Add("add", "id", str(op, "id", ""), "cls", clsOf(typ), "ok", ok, "inst", inst)
		case "pop":
			w := q.Pop()
			if w == nil {
				r.Add("pop", "id", "", "inst", 0)
			} else {
				r.Add("pop", "id", w.WorkId, "inst", w.BatchSize)
			}
		}
		r.Add("size", "n", q.Size())
	}
	return nil
}

// modeQueuePar: several goroutines add and pop concurrently; call and return are recorded around each call.
func modeQueuePar(s *Scenario, r *Rec, rng *rand.Rand) error {
	q := core.NewRequestQueue()
	g := num(s.Cfg, "procs", 3)
	r.cfg = M{"procs": g}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for p := 0; p < g; p++ {
		ops := []M{}
		for i, op := range s.Ops {
			if i%g == p {
				ops = append(ops, op)
			}
		}
		wg.Add(1)
		go func(p int, ops []M) {
			defer wg.Done()
			<-start
			for _, op := range ops {
				switch str(op, "op", "") {
				case "add":
					typ := str(op, "t", "")
					r.Add("call", "p", p, "op", "add", "id", str(op, "id", ""), "cls", clsOf(typ))
					ok := q.AddWork(&types.WorkRequest{WorkId: str(op, "id", ""), WorkType: workType(typ)})
					r.Add("ret", "p", p, "ok", ok, "id", "")
				case "pop":
					r.Add("call", "p", p, "op", "pop", "id", "", "cls", "")
					w := q.Pop()
					id := ""
					if w != nil {
						id = w.WorkId
					}
					r.Add("ret", "p", p, "ok", w != nil, "id", id)
				}
			}
		}(p, ops)
	}
	close(start)
	wg.Wait()
	r.Add("size", "n", q.Size())
	return nil
}

// schedRig: engine 0..n-1 where only "me" is real; the leaders of all works are puppets.
type schedRig struct {
	net     *Net
	me      int
	pids    tss.SortedPartyIDs
	n       int
	thr     int
	rec     *Rec
	mu      sync.Mutex
	names   map[string]string // work id -> scenario id
	workIds map[string]string
	typ     map[string]string
	leader  map[string]int
	started map[string]int
	ended   map[string]int
	onStart func(id string)
	silent  bool
}

func newSchedRig(r *Rec, n int, leaderT, memberT time.Duration) *schedRig {
	ids := fixtureIdents(n)
	g := &schedRig{rec: r, n: n, pids: worker.GetTestPartyIds(n), me: 0, names: map[string]string{}, workIds: map[string]string{},
		typ: map[string]string{}, leader: map[string]int{}, started: map[string]int{}, ended: map[string]int{}, thr: (n+1)*2/3 - 1}
	g.net = newNet(ids, []int{0}, r, timeouts(leaderT, memberT, 20*time.Second, 20*time.Second), func(i int) *EngCB {
		return &EngCB{
			keygen: func(i int, k *htypes.KeygenResult) { g.end("", "result", "") },
			signing: func(i int, req *types.WorkRequest, k *htypes.KeysignResult) {
				how := "result"
				if k.Outcome == htypes.OutcometNotSelected {
					how = "notselected"
				} else if k.Outcome == htypes.OutcomeFailure {
					how = "failure"
				}
				g.end(req.WorkId, how, "")
			},
			failed: func(i int, req *types.WorkRequest) { g.end(req.WorkId, "failure", "") },
		}
	})
	g.net.puppet = func(s *Sent) {
		if s.Tss == nil {
			return
		}
		if s.Tss.Type == common.TssMessage_AVAILABILITY_RESPONSE {
			g.mu.Lock()
			id, ok := g.names[s.Tss.WorkId]
			if ok {
				g.started[id]++
				if !g.silent {
					g.rec.Add("start", "id", id)
				}
			}
			f := g.onStart
			g.mu.Unlock()
			if ok && f != nil {
				f(id)
			}
		}
	}
	return g
}

func (g *schedRig) end(workId, how, _ string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	id := g.names[workId]
	g.ended[id]++
	if !g.silent {
		g.rec.Add("end", "id", id, "how", how)
	}
}

// define gives scenario id a work id whose leader is a puppet.
func (g *schedRig) define(id, typ, salt string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if _, ok := g.workIds[id]; ok {
		return
	}
	me := g.net.pid(g.me)
	w := workIdFor(fmt.Sprintf("w-%s-%s-", id, salt), g.pids, func(l string) bool { return l != me })
	g.workIds[id] = w
	g.names[w] = id
	g.typ[id] = typ
	g.leader[id] = g.net.byPeer[worker.ChooseLeader(w, g.pids).Id]
}

func (g *schedRig) submit(id string, batch int) error {
	msgs := [][]byte{}
	for i := 0; i < batch; i++ {
		msgs = append(msgs, []byte{1, 2, 3, byte(i + 1)})
	}
	var req *types.WorkRequest
	if typ := g.typ[id]; clsOf(typ) == "keygen" {
		req = types.NewEdKeygenRequest(g.workIds[id], g.pids, g.thr)
		if typ == "eckeygen" {
			req = types.NewEcKeygenRequest("ecdsa", g.workIds[id], g.pids, g.thr, nil)
		}
	} else {
		req = request(typ, g.workIds[id], g.n, g.me, g.thr, msgs)
	}
	return g.net.engines[g.me].AddRequest(req)
}

// finish makes work id end: the leader declares failure, or announces a set without this node.
func (g *schedRig) finish(id, how string) {
	l := g.leader[id]
	var m *common.TssMessage
	w := g.workIds[id]
	lp := g.net.pid(l)
	switch how {
	case "excluded":
		// a valid set that leaves this node out
		others := []*tss.PartyID{}
		for _, p := range g.pids {
			if p.Id != g.net.pid(g.me) {
				others = append(others, p)
			}
		}
		m = common.NewPreExecOutputMessage(lp, "", w, true, nil, others)
	case "invalid":
		m = common.NewPreExecOutputMessage(lp, "", w, true, nil, g.pids[:1])
	default:
		m = common.NewPreExecOutputMessage(lp, "", w, false, nil, nil)
	}
	g.net.inject(l, g.me, m)
}

func (g *schedRig) get(m map[string]int, id string) int { g.mu.Lock(); defer g.mu.Unlock(); return m[id] }
func (g *schedRig) total(m map[string]int) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	t := 0
	for _, v := range m {
		t += v
	}
	return t
}

// modeSched replays submit/end histories, one step at a time, letting the engine come to rest after each step.
func modeSched(s *Scenario, r *Rec, rng *rand.Rand) error {
	r.cfg = M{"mode": "seq"}
	g := newSchedRig(r, 4, 30*time.Second, 30*time.Second)
	defer g.net.Close()
	waiting := map[string]bool{}
	running := map[string]bool{}
	eng := g.net.engines[g.me]
	settle := func() bool {
		// The engine is expected to start works while a slot is free and a request waits.
		ok := true
		for len(waiting) > 0 && len(running) < 2 {
			n0 := g.total(g.started)
			_ = n0
			if !waitFor(8*time.Second, func() bool {
				g.mu.Lock()
				defer g.mu.Unlock()
				for id := range waiting {
					if g.started[id] > 0 {
						return true
					}
				}
				return false
			}) {
				ok = false
				break
			}
			g.mu.Lock()
			for id := range waiting {
				if g.started[id] > 0 {
					delete(waiting, id)
					running[id] = true
					g.started[id] = 0
				}
			}
			g.mu.Unlock()
		}
		time.Sleep(4 * time.Millisecond)
		r.Add("rest", "active", eng.GetActiveWorkerCount())
		return ok
	}
	for _, op := range s.Ops {
		id := str(op, "id", "")
		switch str(op, "op", "") {
		case "submit":
			g.define(id, str(op, "t", ""), s.Name)
			r.Add("submit", "id", id, "cls", clsOf(g.typ[id]))
			var err error
			if !within(20*time.Second, func() { err = g.submit(id, 1) }) {
				r.Stall("hang", "what", "AddRequest")
				return nil
			}
			r.Add("subret", "id", id, "ok", err == nil)
			if !waiting[id] && !running[id] {
				waiting[id] = true
			}
			if !settle() {
				r.Stall("stuck")
				return nil
			}
		case "end":
			if !running[id] {
				// the model says it runs; if the code never started it the trace is already wrong
				r.Stall("stuck")
				return nil
			}
			how := str(op, "how", "fail")
			if how == "excluded" && (clsOf(g.typ[id]) == "keygen") {
				how = "fail"
			}
			before := g.get(g.ended, id)
			r.Add("finish", "id", id)
			g.finish(id, how)
			if !waitFor(8*time.Second, func() bool { return g.get(g.ended, id) > before }) {
				r.Stall("stuck")
				return nil
			}
			// the slot is freed right after the callback
			waitFor(2*time.Second, func() bool { return true })
			delete(running, id)
			want := len(running)
			if len(waiting) == 0 {
				waitFor(8*time.Second, func() bool { return eng.GetActiveWorkerCount() <= want })
			}
			if !settle() {
				r.Stall("stuck")
				return nil
			}
		}
	}
	return nil
}

// modeSchedPar: many requests submitted at once from many goroutines; each started work is ended after a while.
func modeSchedPar(s *Scenario, r *Rec, rng *rand.Rand) error {
	r.cfg = M{"mode": "par"}
	setPerturb(num(s.Cfg, "perturb", 0))
	defer func() { setPerturb(0) }()
	g := newSchedRig(r, 4, 60*time.Second, 60*time.Second)
	defer g.net.Close()
	eng := g.net.engines[g.me]
	hold := time.Duration(num(s.Cfg, "hold_us", 1500)) * time.Microsecond
	// With duplicated submissions, works end only after all submissions: a later one would be a new request.
	submitted := make(chan struct{})
	if num(s.Cfg, "dup", 0) == 0 {
		close(submitted)
	}
	g.onStart = func(id string) {
		go func() {
			<-submitted
			time.Sleep(hold)
			g.finish(id, "fail")
		}()
	}
	types_ := []string{"edsign", "edkeygen", "ecsign", "edsign", "eckeygen", "edsign"}
	n := num(s.Cfg, "requests", 6)
	dup := num(s.Cfg, "dup", 0)
	for i := 0; i < n; i++ {
		g.define(fmt.Sprintf("r%d", i), types_[rng.Intn(len(types_))], s.Name)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		for d := 0; d <= dup; d++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				id := fmt.Sprintf("r%d", i)
				r.Add("submit", "id", id, "cls", clsOf(g.typ[id]))
				g.submit(id, 1)
			}(i)
		}
	}
	close(start)
	if !within(20*time.Second, wg.Wait) {
		r.Stall("hang", "what", "AddRequest")
		return nil
	}
	if dup > 0 {
		close(submitted)
	}
	// every request starts and ends
	waitFor(10*time.Second, func() bool {
		g.mu.Lock()
		defer g.mu.Unlock()
		for i := 0; i < n; i++ {
			if g.ended[fmt.Sprintf("r%d", i)] == 0 {
				return false
			}
		}
		return true
	})
	waitFor(5*time.Second, func() bool { return eng.GetActiveWorkerCount() == 0 })
	time.Sleep(5 * time.Millisecond)
	r.Add("final", "active", eng.GetActiveWorkerCount())
	return nil
}
