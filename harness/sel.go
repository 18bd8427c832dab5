package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
)

func init() {
	modes["sel"] = modeSel
	modes["selnet"] = modeSelNet
	modes["leader"] = modeLeader
	parModes["sel"] = 12
	parModes["selnet"] = 8
}

// selNode is one real selection with its surroundings.
type selNode struct {
	name     string
	sel      *worker.PreworkSelection
	db       db.Database
	started  time.Time
	running  bool
	cached   []*common.TssMessage
	ended    bool
	askedBy  map[string]bool
	mu       sync.Mutex
	limit    time.Duration
	margin   time.Duration
	gotFirst time.Time
}

type selRig struct {
	r       *Rec
	rng     *rand.Rand
	kind    string
	parties tss.SortedPartyIDs
	by      map[string]*tss.PartyID
	name    map[string]string
	leader  string
	workId  string
	t       int
	batch   int
	msgs    [][]byte
	cfg     config.TimeoutConfig
	owned   [][]interface{}
	nodes   map[string]*selNode
	begin   time.Time
	// deliver is called for what a node sends; nil: dropped.
	deliver func(from, to string, m *common.TssMessage)
}

func (g *selRig) id(n string) string {
	if p, ok := g.by[n]; ok {
		return p.Id
	}
	switch n {
	case "s":
		return strangerIdent(1).Node.PartyId.Id
	case "-":
		return ""
	}
	return "unknown-" + n
}
func (g *selRig) nm(id string) string {
	if n, ok := g.name[id]; ok {
		return n
	}
	if id == g.id("s") {
		return "s"
	}
	if id == "" {
		return "-"
	}
	return strings.TrimPrefix(id, "unknown-")
}
func (g *selRig) nms(ids []string) []string {
	r := []string{}
	for _, i := range ids {
		r = append(r, g.nm(i))
	}
	return r
}

func newSelRig(s *Scenario, r *Rec, rng *rand.Rand) *selRig {
	n := num(s.Cfg, "n", 4)
	g := &selRig{r: r, rng: rng, kind: str(s.Cfg, "kind", "ecsign"), t: num(s.Cfg, "t", 2), batch: num(s.Cfg, "batch", 1),
		nodes: map[string]*selNode{}, begin: time.Now()}
	g.parties, g.by, g.name = letters(n)
	g.leader = str(s.Cfg, "leader", "a")
	lim := time.Duration(num(s.Cfg, "limit_ms", 400)) * time.Millisecond
	g.cfg = timeouts(lim, lim, time.Minute, time.Minute)
	g.workId = workIdFor(fmt.Sprintf("%s-%d.", s.Name, rng.Intn(1000)), g.parties, func(id string) bool { return id == g.by[g.leader].Id })
	for i := 0; i < g.batch; i++ {
		g.msgs = append(g.msgs, randMsg(rng, 32))
	}
	if l, ok := s.Cfg["owned"].([]interface{}); ok {
		for _, x := range l {
			g.owned = append(g.owned, x.([]interface{}))
		}
	}
	lagStart()
	return g
}

func (g *selRig) request() *types.WorkRequest {
	// every node lists the parties in an order of its own
	ps := make([]*tss.PartyID, len(g.parties))
	for i, p := range g.parties {
		ps[i] = tss.NewPartyID(p.Id, p.Moniker, p.KeyInt())
	}
	g.rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	chains := make([]string, g.batch)
	switch g.kind {
	case "keygen":
		if g.rng.Intn(2) == 0 {
			return types.NewEdKeygenRequest(g.workId, ps, g.t)
		}
		return types.NewEcKeygenRequest("ecdsa", g.workId, ps, g.t, nil)
	case "edsign":
		return types.NewEdSigningRequest(g.workId, ps, g.t, g.msgs, chains, nil)
	}
	return types.NewEcSigningRequest(g.workId, ps, g.t, g.msgs, chains, nil)
}

// addNode creates the real selection of node n on a database of its own.  Presigns are named o1, o2, ... in scenarios
// and have ids "o1-0" in the databases.
func (g *selRig) addNode(n string, used []string, cfg config.TimeoutConfig) error {
	d, err := newMemDB()
	if err != nil {
		return err
	}
	for _, o := range g.owned {
		ps := []*tss.PartyID{}
		for _, x := range o[1].([]interface{}) {
			ps = append(ps, g.by[x.(string)])
		}
		if err := d.SavePresignData(strings.TrimSuffix(o[0].(string), "-0"), ps, onePresign(g.rng)); err != nil {
			return err
		}
	}
	for _, u := range used {
		if err := d.UpdatePresignStatus([]string{u}); err != nil {
			return err
		}
	}
	m := components.NewAvailPresignManager(d)
	if err := m.Load(); err != nil {
		return err
	}
	nd := &selNode{name: n, db: d, askedBy: map[string]bool{}}
	nd.limit = cfg.SelectionMemberTimeout
	if n == g.leader {
		nd.limit = cfg.SelectionLeaderTimeout
	}
	nd.margin = nd.limit * 5 / 8
	req := g.request()
	me := g.by[n]
	disp := &nullDispatcher{
		uni: func(dest *tss.PartyID, m *common.TssMessage) { g.sent(nd, []*tss.PartyID{dest}, m, false) },
		cast: func(ps []*tss.PartyID, m *common.TssMessage) { g.sent(nd, ps, m, true) },
	}
	nd.sel = worker.NewPreworkSelection(req, req.AllParties, tss.NewPartyID(me.Id, me.Moniker, me.KeyInt()), d,
		cache.NewMessageCache(), disp, m, cfg, func(res worker.SelectionResult) {
			st := "fail"
			if res.Success {
				st = "ok"
				if res.IsNodeExcluded {
					st = "excluded"
				}
			}
			pids, ps := []string{}, append([]string{}, res.PresignIds...)
			if st == "ok" {
				pids = namesOf(res.SelectedPids, g.name)
			} else {
				ps = []string{}
			}
			nd.mu.Lock()
			nd.ended = true
			nd.mu.Unlock()
			g.r.Add("result", "node", n, "st", st, "pids", pids, "ps", ps)
		})
	nd.sel.Init()
	g.nodes[n] = nd
	return nil
}

func (g *selRig) sent(nd *selNode, dest []*tss.PartyID, m *common.TssMessage, cast bool) {
	to := namesOf(dest, g.name)
	switch m.Type {
	case common.TssMessage_PRE_EXEC_OUTPUT:
		o := m.PreExecOutputMessage
		if o != nil {
			g.r.Add("announce", "node", nd.name, "ok", o.Success, "pids", g.nms(o.Pids), "ps", append([]string{}, o.PresignIds...), "to", to)
		}
	case common.TssMessage_AVAILABILITY_RESPONSE:
		nd.mu.Lock()
		asked := nd.askedBy[to[0]]
		nd.mu.Unlock()
		g.r.Add("answer", "node", nd.name, "to", to[0], "asked", asked)
	}
	if g.deliver != nil {
		for _, t := range to {
			if t != nd.name {
				g.deliver(nd.name, t, m)
			}
		}
	}
}

// hand gives message m to node nd: to its cache before the start, directly after.
func (g *selRig) hand(nd *selNode, m *common.TssMessage) {
	nd.mu.Lock()
	running := nd.running
	if !running {
		nd.cached = append(nd.cached, m)
	}
	intime := !running || time.Since(nd.started) < nd.limit-nd.margin
	if m.Type == common.TssMessage_AVAILABILITY_REQUEST {
		nd.askedBy[g.nm(m.From)] = true
	}
	nd.mu.Unlock()
	from := g.nm(m.From)
	switch m.Type {
	case common.TssMessage_AVAILABILITY_RESPONSE:
		ans := "none"
		if a := m.AvailabilityResponseMessage; a != nil {
			ans = "no"
			if a.Answer == common.AvailabilityResponseMessage_YES {
				ans = "yes"
			}
		}
		g.r.Add("resp", "node", nd.name, "from", from, "ans", ans, "intime", intime)
	case common.TssMessage_PRE_EXEC_OUTPUT:
		o := m.PreExecOutputMessage
		if o != nil {
			g.r.Add("ann", "node", nd.name, "from", from, "content", true, "ok", o.Success, "pids", g.nms(o.Pids), "ps", append([]string{}, o.PresignIds...), "intime", intime)
		} else {
			g.r.Add("ann", "node", nd.name, "from", from, "content", false, "ok", false, "pids", []string{}, "ps", []string{}, "intime", intime)
		}
	}
	if running {
		if !within(10*time.Second, func() { nd.sel.ProcessNewMessage(m) }) {
			g.r.Stall("hang", "node", nd.name, "type", m.Type.String(), "from", from)
		}
	}
}

func (g *selRig) start(nd *selNode) {
	nd.mu.Lock()
	if nd.running {
		nd.mu.Unlock()
		return
	}
	nd.running = true
	nd.started = time.Now()
	c := nd.cached
	nd.mu.Unlock()
	g.r.Add("start", "node", nd.name)
	go nd.sel.Run(c)
}

// finish waits for every node to end, sends late messages, and closes the scenario.
func (g *selRig) finish(names []string, used []string) {
	for _, n := range names {
		nd := g.nodes[n]
		g.start(nd)
		ok := waitFor(time.Until(nd.started)+nd.limit+5*time.Second, func() bool { nd.mu.Lock(); defer nd.mu.Unlock(); return nd.ended })
		if !ok {
			g.r.Stall("noresult", "node", n)
			break
		}
	}
	lag := lagSince(g.begin)
	for _, n := range names {
		nd := g.nodes[n]
		if !nd.ended {
			continue
		}
		// late messages never block
		ok := within(10*time.Second, func() {
			for k := 0; k < 2*len(g.parties)+3; k++ {
				nd.sel.ProcessNewMessage(common.NewAvailabilityResponseMessage(g.parties[k%len(g.parties)].Id, g.by[n].Id, g.workId, common.AvailabilityResponseMessage_YES, 1))
				nd.sel.ProcessNewMessage(common.NewPreExecOutputMessage(g.by[g.leader].Id, "", g.workId, k%2 == 0, nil, g.parties))
				nd.sel.ProcessNewMessage(common.NewAvailabilityRequestMessage(g.by[g.leader].Id, g.by[n].Id, g.workId))
				if n == g.leader && k == 0 {
					nd.mu.Lock()
					for _, p := range g.parties {
						nd.askedBy[g.nm(p.Id)] = true
					}
					nd.mu.Unlock()
				}
			}
		})
		if !ok {
			g.r.Stall("hang", "node", n, "late", true)
		}
	}
	time.Sleep(3 * time.Millisecond)
	if nd := g.nodes[g.leader]; nd != nil {
		waitFor(2*time.Second, func() bool {
			return g.r.Count(func(e M) bool { return e["e"] == "announce" || (e["e"] == "result" && e["node"] == g.leader && e["st"] != "ok") }) > 0
		})
	}
	g.r.Add("end")
	all := []string{}
	for _, p := range g.parties {
		all = append(all, g.nm(p.Id))
	}
	ow := []interface{}{}
	for _, o := range g.owned {
		ow = append(ow, o)
	}
	g.r.cfg = M{"kind": g.kind, "all": all, "t": g.t, "batch": g.batch, "leader": g.leader, "nodes": names, "owned": ow,
		"used": used, "slow": lag > 60*time.Millisecond, "dbfail": false}
	for _, n := range names {
		g.nodes[n].db.Close()
	}
}

// message builds a scripted message of a puppet.
func (g *selRig) message(op M, me string) *common.TssMessage {
	from := g.id(str(op, "from", "b"))
	switch str(op, "op", "") {
	case "resp":
		ans := common.AvailabilityResponseMessage_YES
		switch str(op, "ans", "yes") {
		case "no":
			ans = common.AvailabilityResponseMessage_NO
		case "odd":
			ans = common.AvailabilityResponseMessage_ANSWER(7)
		}
		m := common.NewAvailabilityResponseMessage(from, g.id(me), g.workId, ans, 1)
		if str(op, "ans", "") == "none" {
			m.AvailabilityResponseMessage = nil
		}
		return m
	case "req":
		return common.NewAvailabilityRequestMessage(from, g.id(me), g.workId)
	case "ann":
		pids := []*tss.PartyID{}
		for _, c := range strs(op, "pids") {
			pids = append(pids, tss.NewPartyID(g.id(c), "", pidNamed("x").KeyInt()))
		}
		m := common.NewPreExecOutputMessage(from, "", g.workId, boolean(op, "ok", true), strs(op, "ps"), pids)
		if boolean(op, "nil", false) {
			m.PreExecOutputMessage = nil
		}
		return m
	}
	return nil
}

// modeSel drives one real selection, leader or member, with scripted messages.
func modeSel(s *Scenario, r *Rec, rng *rand.Rand) error {
	g := newSelRig(s, r, rng)
	me := str(s.Cfg, "me", "a")
	used := strs(s.Cfg, "used")
	if err := g.addNode(me, used, g.cfg); err != nil {
		return err
	}
	nd := g.nodes[me]
	par := boolean(s.Cfg, "par", false)
	var wg sync.WaitGroup
	for _, op := range s.Ops {
		switch str(op, "op", "") {
		case "start":
			g.start(nd)
			time.Sleep(2 * time.Millisecond)
		case "wait": // close to the limit: what follows may or may not be in time
			if nd.running {
				time.Sleep(time.Until(nd.started.Add(nd.limit - time.Duration(rng.Intn(3000))*time.Microsecond)))
			}
		default:
			m := g.message(op, me)
			nd.mu.Lock()
			running := nd.running
			nd.mu.Unlock()
			if par && running {
				wg.Add(1)
				go func() { defer wg.Done(); g.hand(nd, m) }()
			} else {
				g.hand(nd, m)
			}
		}
	}
	wg.Wait()
	g.finish([]string{me}, used)
	return nil
}

// modeSelNet runs the selections of several nodes together; puppets (offline parties) never answer.
func modeSelNet(s *Scenario, r *Rec, rng *rand.Rand) error {
	g := newSelRig(s, r, rng)
	// The default limits, scaled down.
	def := config.NewDefaultTimeoutConfig()
	scale := time.Duration(num(s.Cfg, "scale", 40))
	cfg := def
	cfg.SelectionLeaderTimeout = def.SelectionLeaderTimeout / scale
	cfg.SelectionMemberTimeout = def.SelectionMemberTimeout / scale
	names := strs(s.Cfg, "online")
	used := strs(s.Cfg, "used")
	var mu sync.Mutex
	drop, dup, delay := num(s.Cfg, "drop", 0), num(s.Cfg, "dup", 0), num(s.Cfg, "delay_ms", 0)
	dead := false
	g.deliver = func(from, to string, m *common.TssMessage) {
		nd := g.nodes[to]
		if nd == nil {
			return
		}
		mu.Lock()
		if dead {
			mu.Unlock()
			return
		}
		n := 1
		if rng.Intn(100) < drop {
			n = 0
		} else if rng.Intn(100) < dup {
			n = 2
		}
		ds := []time.Duration{}
		for i := 0; i < n; i++ {
			d := time.Duration(0)
			if delay > 0 {
				d = time.Duration(rng.Intn(delay*1000)) * time.Microsecond
			}
			ds = append(ds, d)
		}
		mu.Unlock()
		for _, d := range ds {
			d := d
			go func() {
				time.Sleep(d)
				mu.Lock()
				x := dead
				mu.Unlock()
				if !x {
					g.hand(nd, m)
				}
			}()
		}
	}
	for _, n := range names {
		if err := g.addNode(n, used, cfg); err != nil {
			return err
		}
	}
	// All nodes get the request at about the same time.
	order := rng.Perm(len(names))
	for _, i := range order {
		g.start(g.nodes[names[i]])
		if sk := num(s.Cfg, "skew_ms", 0); sk > 0 {
			time.Sleep(time.Duration(rng.Intn(sk*1000)) * time.Microsecond)
		}
	}
	ok := waitFor(cfg.SelectionMemberTimeout+cfg.SelectionLeaderTimeout+5*time.Second, func() bool {
		for _, n := range names {
			nd := g.nodes[n]
			nd.mu.Lock()
			e := nd.ended
			nd.mu.Unlock()
			if !e {
				return false
			}
		}
		return true
	})
	if !ok {
		g.r.Stall("noresult")
	}
	mu.Lock()
	dead = true
	mu.Unlock()
	// What every node's members know of the leader's outcome, when nothing is lost.
	time.Sleep(time.Duration(delay+2) * time.Millisecond)
	lag := lagSince(g.begin)
	if drop == 0 {
		g.r.Add("learned", "skip", lag > 60*time.Millisecond)
	}
	g.finish(names, used)
	return nil
}

// modeLeader asks every node, each with its own order of the parties, for the leader of many works.
func modeLeader(s *Scenario, r *Rec, rng *rand.Rand) error {
	n := num(s.Cfg, "n", 4)
	parties, _, name := letters(n)
	all := []string{}
	for _, p := range parties {
		all = append(all, name[p.Id])
	}
	r.cfg = M{"n": n, "all": all}
	for k := 0; k < num(s.Cfg, "works", 20); k++ {
		w := []string{"w", "", "work:x-", "签"}[rng.Intn(4)] + fmt.Sprint(rng.Intn(100000))
		got := []string{}
		for i := 0; i < 5; i++ {
			ps := make([]*tss.PartyID, len(parties))
			copy(ps, parties)
			rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			got = append(got, name[worker.ChooseLeader(w, ps).Id])
			// and as the request lists them
			req := types.NewEdKeygenRequest(w, ps, 1)
			got = append(got, name[worker.ChooseLeader(w, req.AllParties).Id])
		}
		r.Add("leader", "work", w, "got", got)
	}
	return nil
}
