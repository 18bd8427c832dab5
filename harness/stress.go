package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/core"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/interfaces"
	"github.com/sisu-network/dheart/worker/types"
)

func init() { modes["stress"] = modeStress }

type callKind struct {
	begun, done int64
}

// modeStress: many goroutines call into one real engine (a) while works start and end; afterwards all calls have
// returned, every accepted request has one outcome, and a work of all nodes completes.
func modeStress(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	begin := time.Now()
	n := num(s.Cfg, "n", 3)
	ids := fixtureIdents(n)
	names := []string{}
	name := map[string]string{}
	real := []int{}
	for i, id := range ids {
		nm := string(rune('a' + i))
		names = append(names, nm)
		name[id.Node.PartyId.Id] = nm
		real = append(real, i)
	}
	pids := worker.GetTestPartyIds(n)
	th := (n+1)*2/3 - 1
	cfg := timeouts(1500*time.Millisecond, 3000*time.Millisecond, 5*time.Second, time.Duration(num(s.Cfg, "monitor_ms", 20))*time.Millisecond)

	type work struct {
		nm, id string
		leader string
		err    string
		n      int64 // accepted
		out    int64
	}
	var mu sync.Mutex
	live := []*work{}
	byId := map[string]*work{}
	probe := ""
	done := func(i int, id, what string) {
		mu.Lock()
		w := byId[id]
		pr := probe
		if w != nil && i == 0 {
			for k, x := range live {
				if x == w {
					live = append(append([]*work{}, live[:k]...), live[k+1:]...)
					break
				}
			}
		}
		mu.Unlock()
		switch {
		case pr != "" && id == pr:
			r.Add("outcome", "node", names[i], "id", "probe", "what", what)
		case i != 0:
		case w == nil:
			r.Add("outcome", "node", names[i], "id", "?", "what", what)
		default:
			atomic.AddInt64(&w.out, 1)
		}
	}
	cb := func(i int) *EngCB {
		return &EngCB{
			keygen: func(i int, res *htypes.KeygenResult) { done(i, "?", "keygen") },
			signing: func(i int, req *types.WorkRequest, res *htypes.KeysignResult) {
				what := "fail"
				if res.Outcome == htypes.OutcomeSuccess {
					what = "sign"
				} else if res.Outcome == htypes.OutcometNotSelected {
					what = "notsel"
				}
				done(i, req.WorkId, what)
			},
			failed: func(i int, req *types.WorkRequest) { done(i, req.WorkId, "fail") },
		}
	}
	net := newNet(ids, real, nil, cfg, cb)
	for i := range ids {
		if err := net.engines[i].Init(); err != nil {
			return err
		}
	}
	eng := net.engines[0]
	disp := eng.(interfaces.MessageDispatcher)
	// The other nodes only take part in the last work.
	net.policy = func(m *Sent) []time.Duration {
		mu.Lock()
		defer mu.Unlock()
		if m.Tss == nil || probe == "" || m.Tss.WorkId != probe {
			return nil
		}
		return []time.Duration{0}
	}
	setPerturb(num(s.Cfg, "perturb", 0))

	// calls
	kinds := []string{"submit", "deliver", "nodes", "ask", "send", "query", "stranger"}
	calls := map[string]*callKind{}
	for _, k := range kinds {
		calls[k] = &callKind{}
	}
	flight := make([]atomic.Value, 64) // per goroutine: [kind, time]
	type inCall struct {
		kind string
		at   time.Time
	}
	var stop int32
	hung := make(chan string, 1)
	var wg sync.WaitGroup
	gid := 0
	maxActive, badCount := int64(0), int64(0)
	thread := func(kind string, f func(rng *rand.Rand)) {
		g := gid
		gid++
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rg := rand.New(rand.NewSource(seed))
			for atomic.LoadInt32(&stop) == 0 {
				flight[g].Store(inCall{kind, time.Now()})
				atomic.AddInt64(&calls[kind].begun, 1)
				f(rg)
				atomic.AddInt64(&calls[kind].done, 1)
				flight[g].Store(inCall{})
			}
		}()
	}
	go func() {
		for atomic.LoadInt32(&stop) < 2 {
			for g := range flight {
				if c, ok := flight[g].Load().(inCall); ok && c.kind != "" && time.Since(c.at) > 20*time.Second {
					select {
					case hung <- c.kind:
					default:
					}
				}
			}
			time.Sleep(50 * time.Millisecond)
		}
	}()
	pick := func(rg *rand.Rand) *work {
		mu.Lock()
		defer mu.Unlock()
		if len(live) == 0 {
			return nil
		}
		k := len(live)
		if k > 3 && rg.Intn(5) > 0 {
			k = 3
		}
		return live[rg.Intn(k)]
	}
	seq := int64(0)
	reqFor := func(w *work) *types.WorkRequest {
		chains, msgs := []string{"chain"}, [][]byte{{1, 2, 3}}
		return types.NewEdSigningRequest(w.id, copyPids(pids), th, msgs, chains, edShares(n)[0])
	}
	newWork := func() *work {
		k := atomic.AddInt64(&seq, 1)
		w := &work{nm: fmt.Sprintf("w%d", k)}
		w.id = fmt.Sprintf("%s.%d", s.Name, k)
		w.leader = name[worker.ChooseLeader(w.id, pids).Id]
		return w
	}
	for t := num(s.Cfg, "submitters", 2); t > 0; t-- {
		thread("submit", func(rg *rand.Rand) {
			switch x := rg.Intn(10); {
			case x < 6:
				mu.Lock()
				k := len(live)
				mu.Unlock()
				if k > 12 {
					time.Sleep(time.Millisecond)
					return
				}
				w := newWork()
				mu.Lock()
				byId[w.id] = w
				live = append(live, w)
				mu.Unlock()
				if err := eng.AddRequest(reqFor(w)); err == nil {
					atomic.AddInt64(&w.n, 1)
				} else {
					mu.Lock()
					w.err = err.Error()
					mu.Unlock()
				}
			case x < 8:
				// again, while it waits or runs
				if w := pick(rg); w != nil {
					if err := eng.AddRequest(reqFor(w)); err == nil {
						atomic.AddInt64(&w.n, 1)
					}
				}
			case x == 8:
				req := reqFor(newWork())
				st := strangerIdent(rg.Intn(3)).Node.PartyId
				req.AllParties = append(req.AllParties, tss.NewPartyID("nobody", "", st.KeyInt()))
				if eng.AddRequest(req) == nil {
					atomic.AddInt64(&badCount, 1)
				}
			default:
				req := reqFor(newWork())
				req.WorkType = types.WorkType(99)
				if eng.AddRequest(req) == nil {
					atomic.AddInt64(&badCount, 1)
				}
			}
		})
	}
	garbage := func(rg *rand.Rand, from, to int, wid string) *common.TssMessage {
		m := &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: net.pid(from), WorkId: wid}
		if to >= 0 {
			m.To = net.pid(to)
		}
		m.UpdateMessages = []*common.UpdateMessage{{Data: emptyContent(rg, rg.Intn(2) == 0), SerializedMessageRouting: []byte("{}"), Round: fmt.Sprintf("SignRound%dMessage", 1+rg.Intn(3))}}
		return m
	}
	for t := num(s.Cfg, "deliverers", 4); t > 0; t-- {
		thread("deliver", func(rg *rand.Rand) {
			w := pick(rg)
			from := 1 + rg.Intn(n-1)
			wid, leader := "unknown", "b"
			if w != nil {
				wid, leader = w.id, w.leader
			}
			var m *common.TssMessage
			switch x := rg.Intn(10); {
			case x < 4 && leader != "a":
				from = int(leader[0] - 'a')
				l := []*tss.PartyID{pids[0], pids[1], pids[n-1]}
				m = common.NewPreExecOutputMessage(net.pid(from), "", wid, rg.Intn(3) > 0, nil, l[rg.Intn(2):])
			case x < 6:
				m = common.NewAvailabilityResponseMessage(net.pid(from), net.pid(0), wid, common.AvailabilityResponseMessage_YES, 1)
			case x == 6:
				m = common.NewAvailabilityRequestMessage(net.pid(from), net.pid(0), wid)
			default:
				m = garbage(rg, from, -1, wid)
			}
			net.inject(from, 0, m)
		})
	}
	thread("nodes", func(rg *rand.Rand) {
		l := []*core.Node{}
		for _, id := range ids {
			nd := core.NewNode(id.Key.PubKey())
			l = append(l, nd)
		}
		l = append(l, strangerIdent(3+rg.Intn(20)).Node)
		eng.AddNodes(l)
		time.Sleep(time.Duration(rg.Intn(200)) * time.Microsecond)
	})
	for t := num(s.Cfg, "askers", 2); t > 0; t-- {
		thread("ask", func(rg *rand.Rand) {
			from := 1 + rg.Intn(n-1)
			w := pick(rg)
			wid := "own"
			if w != nil && rg.Intn(2) == 0 {
				wid = w.id
			}
			o := rg.Intn(n)
			key := common.GetMessageKey(wid, net.pid(o), []string{"", net.pid(from)}[rg.Intn(2)], fmt.Sprintf("SignRound%dMessage", 1+rg.Intn(3)))
			m := common.NewRequestMessage(net.pid(from), net.pid(0), wid, key)
			if rg.Intn(4) == 0 {
				// somebody unknown asks
				m.From = strangerIdent(0).Node.PartyId.Id
				eng.ProcessNewMessage(m)
				return
			}
			net.inject(from, 0, m)
		})
	}
	thread("send", func(rg *rand.Rand) {
		m := garbage(rg, 0, -1, "own")
		dst := append([]*tss.PartyID{}, pids...)
		if rg.Intn(2) == 0 {
			dst = append([]*tss.PartyID{strangerIdent(0).Node.PartyId}, dst...)
		}
		if rg.Intn(2) == 0 {
			disp.BroadcastMessage(dst, m)
		} else {
			d := dst[rg.Intn(len(dst))]
			m.To = d.Id
			disp.UnicastMessage(d, m)
		}
	})
	thread("query", func(rg *rand.Rand) {
		k := int64(eng.GetActiveWorkerCount())
		for {
			o := atomic.LoadInt64(&maxActive)
			if k <= o || atomic.CompareAndSwapInt64(&maxActive, o, k) {
				break
			}
		}
		time.Sleep(time.Duration(rg.Intn(300)) * time.Microsecond)
	})
	thread("stranger", func(rg *rand.Rand) {
		id := strangerIdent(1)
		m := garbage(rg, 0, -1, "x")
		m.From = id.Node.PartyId.Id
		eng.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: id.Node.PeerId.String(), Data: signAs(id, m)})
	})

	hang := ""
	select {
	case hang = <-hung:
	case <-time.After(time.Duration(num(s.Cfg, "ms", 1000)) * time.Millisecond):
	}
	atomic.StoreInt32(&stop, 1)
	if hang == "" {
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case hang = <-hung:
		}
	}
	atomic.StoreInt32(&stop, 2)
	setPerturb(0)
	if hang != "" {
		r.Stall("hang", "what", hang)
		return nil
	}
	for _, k := range kinds {
		r.Add("calls", "kind", k, "begun", int(atomic.LoadInt64(&calls[k].begun)), "done", int(atomic.LoadInt64(&calls[k].done)))
	}
	r.Add("active", "max", int(atomic.LoadInt64(&maxActive)))
	// What is left fails by its time limits, or because its leader gives up.
	all := []*work{}
	mu.Lock()
	for _, w := range byId {
		all = append(all, w)
	}
	mu.Unlock()
	left := func() []*work {
		l := []*work{}
		for _, w := range all {
			if atomic.LoadInt64(&w.n) > 0 && atomic.LoadInt64(&w.out) == 0 {
				l = append(l, w)
			}
		}
		return l
	}
	ok := waitFor(60*time.Second, func() bool {
		l := left()
		for _, w := range l {
			from := int(w.leader[0] - 'a')
			if from > 0 {
				net.inject(from, 0, common.NewPreExecOutputMessage(net.pid(from), "", w.id, false, nil, nil))
			}
			net.inject(1, 0, garbage(rng, 1, -1, w.id))
		}
		time.Sleep(10 * time.Millisecond)
		return len(l) == 0
	})
	if !ok {
		r.Stall("nooutcome", "n", len(left()))
		return nil
	}
	if !waitFor(20*time.Second, func() bool { return eng.GetActiveWorkerCount() == 0 }) {
		r.Stall("nooutcome", "n", -1)
		return nil
	}
	time.Sleep(10 * time.Millisecond)
	one, more := 0, 0
	for _, w := range all {
		k, o := atomic.LoadInt64(&w.n), atomic.LoadInt64(&w.out)
		if k == 0 && w.err != "" {
			// Nobody else submitted it.
			r.Add("refused", "err", w.err)
		}
		// A request that is submitted again after its work has ended is a new one.
		switch {
		case o < 1 && k > 0 || o > k:
			more++
		default:
			one++
		}
	}
	r.Add("works", "n", len(all), "good", one, "bad", more, "invalid", int(atomic.LoadInt64(&badCount)))
	// A work of all nodes completes.
	w := newWork()
	mu.Lock()
	probe = w.id
	byId[w.id] = w
	mu.Unlock()
	for i := range ids {
		req := types.NewEdSigningRequest(w.id, copyPids(pids), th, [][]byte{{7, 7, 7}}, []string{"c"}, edShares(n)[i])
		r.Add("probe", "node", names[i])
		i := i
		var err error
		if !within(20*time.Second, func() { err = net.engines[i].AddRequest(req) }) {
			r.Stall("hang", "what", "probe")
			return nil
		}
		if err != nil {
			r.Add("refused", "err", err.Error())
		}
	}
	if !waitFor(30*time.Second, func() bool { return r.Count(func(e M) bool { return e["e"] == "outcome" && e["id"] == "probe" }) >= n }) {
		r.Stall("nooutcome", "id", "probe")
		return nil
	}
	time.Sleep(20 * time.Millisecond)
	r.Add("end")
	net.Close()
	r.cfg = M{"all": names, "t": th, "probe": lagSince(begin) < 300*time.Millisecond}
	return nil
}
