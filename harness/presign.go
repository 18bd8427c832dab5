package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
)

func init() {
	modes["presign"] = modePresign
	modes["presignpar"] = modePresignPar
}

// gateDB lets every database call of one life of the node wait until the scenario releases it, before and after its
// effect.  A call of a life that has ended never returns and has no effect any more.
type gateDB struct {
	db.Database
	mu      sync.Mutex
	dead    bool
	waiting []chan string
}

func (g *gateDB) gate() string {
	g.mu.Lock()
	if g.dead {
		g.mu.Unlock()
		select {}
	}
	c := make(chan string, 1)
	g.waiting = append(g.waiting, c)
	g.mu.Unlock()
	o := <-c
	if o == "die" {
		select {}
	}
	return o
}
func (g *gateDB) blocked() int { g.mu.Lock(); defer g.mu.Unlock(); return len(g.waiting) }
func (g *gateDB) release(i int, out string) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(g.waiting) == 0 {
		return false
	}
	i = i % len(g.waiting)
	c := g.waiting[i]
	g.waiting = append(g.waiting[:i:i], g.waiting[i+1:]...)
	c <- out
	return true
}
func (g *gateDB) kill() { g.mu.Lock(); g.dead = true; g.waiting = nil; g.mu.Unlock() }

func (g *gateDB) SavePresignData(w string, p []*tss.PartyID, o []*ecsigning.SignatureData_OneRoundData) error {
	if g.gate() == "fail" {
		return errInjected
	}
	err := g.Database.SavePresignData(w, p, o)
	if g.gate() == "fail" {
		return errInjected
	}
	return err
}
func (g *gateDB) UpdatePresignStatus(ids []string) error {
	if g.gate() == "fail" {
		return errInjected
	}
	err := g.Database.UpdatePresignStatus(ids)
	if g.gate() == "fail" {
		return errInjected
	}
	return err
}
func (g *gateDB) LoadPresign(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
	if g.gate() == "fail" {
		return nil, errInjected
	}
	return g.Database.LoadPresign(ids)
}
func (g *gateDB) LoadPresignStatus(ids []string) ([]string, error) {
	if g.gate() == "fail" {
		return nil, errInjected
	}
	return g.Database.LoadPresignStatus(ids)
}

// nullDispatcher records what is sent.
type nullDispatcher struct {
	mu   sync.Mutex
	uni  func(dest *tss.PartyID, m *common.TssMessage)
	cast func(pids []*tss.PartyID, m *common.TssMessage)
}

func (d *nullDispatcher) BroadcastMessage(pids []*tss.PartyID, m *common.TssMessage) {
	if d.cast != nil {
		d.cast(pids, m)
	}
}
func (d *nullDispatcher) UnicastMessage(dest *tss.PartyID, m *common.TssMessage) {
	if d.uni != nil {
		d.uni(dest, m)
	}
}

// letters names the parties of small scenarios "a", "b", ... in the order of their identities.
func letters(n int) (tss.SortedPartyIDs, map[string]*tss.PartyID, map[string]string) {
	ids := idents(n)
	ps := pidsOf(ids)
	by := map[string]*tss.PartyID{}
	name := map[string]string{}
	for i, p := range ps {
		l := string(rune('a' + i))
		by[l] = p
		name[p.Id] = l
	}
	return ps, by, name
}

func namesOf(ps []*tss.PartyID, name map[string]string) []string {
	r := []string{}
	for _, p := range ps {
		if p == nil {
			r = append(r, "nil")
		} else if n, ok := name[p.Id]; ok {
			r = append(r, n)
		} else {
			r = append(r, "?")
		}
	}
	return r
}

func modePresign(s *Scenario, r *Rec, rng *rand.Rand) error {
	d, err := newMemDB()
	if err != nil {
		return err
	}
	defer d.Close()
	parties, by, name := letters(4)
	set := func(l string) []*tss.PartyID {
		ps := []*tss.PartyID{}
		for _, c := range l {
			ps = append(ps, by[string(c)])
		}
		rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		return ps
	}
	g := &gateDB{Database: d}
	m := components.NewAvailPresignManager(g)
	var mu sync.Mutex
	spawned, finished := 0, 0
	handed := func(by string, batch int, ids []string, pids []*tss.PartyID) {
		if len(ids) == 0 {
			r.Add("refused")
			return
		}
		st, err := d.LoadPresignStatus(ids)
		if err != nil {
			st = []string{"missing"}
		}
		r.Add("handed", "by", by, "batch", batch, "ids", ids, "st", st, "pids", sortedJoin(namesOf(pids, name)))
	}
	done := func(life *gateDB, f func()) {
		life.mu.Lock()
		dead := life.dead
		life.mu.Unlock()
		if dead {
			return
		}
		f()
		mu.Lock()
		finished++
		mu.Unlock()
	}
	settle := func() {
		waitFor(200*time.Millisecond, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return finished+g.blocked() >= spawned
		})
	}
	finishAll := func() bool {
		ok := waitFor(20*time.Second, func() bool {
			for g.release(0, "ok") {
			}
			mu.Lock()
			defer mu.Unlock()
			return finished >= spawned
		})
		if !ok {
			r.Stall("hang")
		}
		return ok
	}
	cfg := timeouts(10*time.Second, 10*time.Second, time.Minute, time.Minute)
	for i, op := range s.Ops {
		life, mgr := g, m
		switch str(op, "op", "") {
		case "add":
			w, n := str(op, "w", ""), num(op, "n", 1)
			ps := set(str(op, "pids", ""))
			var os []*ecsigning.SignatureData_OneRoundData
			ids := []string{}
			for j := 0; j < n; j++ {
				os = append(os, somePresign(rng))
				ids = append(ids, fmt.Sprintf("%s-%d", w, j))
			}
			r.Add("add", "ids", ids, "pids", sortedJoin(namesOf(ps, name)))
			spawned++
			go func() { mgr.AddPresign(w, ps, os); done(life, func() {}) }()
		case "get":
			b := num(op, "batch", 1)
			all := map[string]*tss.PartyID{}
			for _, p := range set(str(op, "parties", "")) {
				all[p.Id] = p
			}
			spawned++
			go func() {
				ids, pids := mgr.GetAvailablePresigns(b, 4, all)
				done(life, func() { handed("get", b, ids, pids) })
			}()
		case "ann":
			ids := strs(op, "ids")
			me := by["b"]
			workId := workIdFor(fmt.Sprintf("sign%d.", i), parties, func(id string) bool { return id != me.Id })
			leader := worker.ChooseLeader(workId, parties)
			msgs := [][]byte{}
			for range ids {
				msgs = append(msgs, randMsg(rng, 32))
			}
			req := types.NewEcSigningRequest(workId, parties, 1, msgs, make([]string, len(msgs)), nil)
			spawned++
			var once sync.Once
			sel := worker.NewPreworkSelection(req, req.AllParties, me, life, cache.NewMessageCache(), &nullDispatcher{}, mgr, cfg,
				func(res worker.SelectionResult) {
					once.Do(func() {
						done(life, func() {
							if res.Success && !res.IsNodeExcluded {
								handed("ann", len(ids), res.PresignIds, res.SelectedPids)
							} else {
								r.Add("refused")
							}
						})
					})
				})
			sel.Init()
			go sel.Run(nil)
			out := common.NewPreExecOutputMessage(leader.Id, "", workId, true, ids, []*tss.PartyID{by["b"], by["d"]})
			go sel.ProcessNewMessage(out)
		case "step":
			o := str(op, "out", "ok")
			if strings.HasPrefix(o, "ok") {
				o = "ok"
			}
			g.release(num(op, "i", 0), o)
		case "all":
			if !finishAll() {
				return nil
			}
		case "crash":
			r.Add("crash")
			g.kill()
			mu.Lock()
			spawned, finished = 0, 0
			mu.Unlock()
			g = &gateDB{Database: d}
			m = components.NewAvailPresignManager(g)
			if err := m.Load(); err != nil {
				return err
			}
		}
		settle()
	}
	if !finishAll() {
		return nil
	}
	// Whatever is left can be taken once more, by a node that has just been started.
	for k := 0; k < 2; k++ {
		m := components.NewAvailPresignManager(d)
		if err := m.Load(); err != nil {
			return err
		}
		all := map[string]*tss.PartyID{}
		for _, p := range parties {
			all[p.Id] = p
		}
		for j := 0; j < 20; j++ {
			ids, pids := m.GetAvailablePresigns(1, 4, all)
			if len(ids) == 0 {
				break
			}
			handed("get", 1, ids, pids)
		}
	}
	return nil
}

// modePresignPar takes, adds and announces presigns from several goroutines at once, without gates.
func modePresignPar(s *Scenario, r *Rec, rng *rand.Rand) error {
	setPerturb(num(s.Cfg, "perturb", 0))
	d, err := newMemDB()
	if err != nil {
		return err
	}
	defer d.Close()
	parties, by, name := letters(4)
	m := components.NewAvailPresignManager(d)
	cfg := timeouts(10*time.Second, 10*time.Second, time.Minute, time.Minute)
	handed := func(by string, batch int, ids []string, pids []*tss.PartyID) {
		if len(ids) == 0 {
			r.Add("refused")
			return
		}
		st, err := d.LoadPresignStatus(ids)
		if err != nil {
			st = []string{"missing"}
		}
		r.Add("handed", "by", by, "batch", batch, "ids", ids, "st", st, "pids", sortedJoin(namesOf(pids, name)))
	}
	works := num(s.Cfg, "works", 3)
	add := func(k int, rng *rand.Rand) {
		w := fmt.Sprintf("w%d", k)
		var os []*ecsigning.SignatureData_OneRoundData
		ids := []string{}
		for j := 0; j < 4; j++ {
			os = append(os, somePresign(rng))
			ids = append(ids, fmt.Sprintf("%s-%d", w, j))
		}
		r.Add("add", "ids", ids, "pids", "a,b,d")
		m.AddPresign(w, []*tss.PartyID{by["d"], by["a"], by["b"]}, os)
	}
	add(0, rng)
	var wg sync.WaitGroup
	run := func(f func(rng *rand.Rand)) {
		seed := rng.Int63()
		wg.Add(1)
		go func() { defer wg.Done(); f(rand.New(rand.NewSource(seed))) }()
	}
	for k := 1; k < works; k++ {
		k := k
		run(func(rng *rand.Rand) { add(k, rng) })
	}
	for k := 0; k < num(s.Cfg, "takers", 4); k++ {
		run(func(rng *rand.Rand) {
			for j := 0; j < 4; j++ {
				b := 1 + rng.Intn(2)
				all := map[string]*tss.PartyID{}
				for _, p := range parties {
					all[p.Id] = p
				}
				ids, pids := m.GetAvailablePresigns(b, 4, all)
				handed("get", b, ids, pids)
			}
		})
	}
	for k := 0; k < num(s.Cfg, "anns", 3); k++ {
		k := k
		run(func(rng *rand.Rand) {
			me := by["b"]
			workId := workIdFor(fmt.Sprintf("sign%d.", k), parties, func(id string) bool { return id != me.Id })
			leader := worker.ChooseLeader(workId, parties)
			ids := []string{fmt.Sprintf("w0-%d", rng.Intn(2))}
			req := types.NewEcSigningRequest(workId, parties, 1, [][]byte{randMsg(rng, 32)}, []string{"c"}, nil)
			ch := make(chan worker.SelectionResult, 4)
			sel := worker.NewPreworkSelection(req, req.AllParties, me, d, cache.NewMessageCache(), &nullDispatcher{}, m, cfg,
				func(res worker.SelectionResult) { ch <- res })
			sel.Init()
			out := common.NewPreExecOutputMessage(leader.Id, "", workId, true, ids, []*tss.PartyID{by["b"], by["d"]})
			go sel.Run([]*common.TssMessage{out})
			res := <-ch
			if res.Success && !res.IsNodeExcluded {
				handed("ann", 1, res.PresignIds, res.SelectedPids)
			}
		})
	}
	if !within(30*time.Second, wg.Wait) {
		r.Stall("hang")
	}
	return nil
}

func onePresign(rng *rand.Rand) []*ecsigning.SignatureData_OneRoundData {
	return []*ecsigning.SignatureData_OneRoundData{somePresign(rng)}
}
