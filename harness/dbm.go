package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/worker"
)

func init() {
	modes["db"] = modeDb
	modes["dbpar"] = modeDbPar
}

func newMemDB() (db.Database, error) {
	c := config.GetLocalhostDbConfig()
	c.Schema = "dheart"
	c.InMemory = true
	d := db.NewDatabase(&c)
	return d, d.Init()
}

// values remembers the JSON form of everything stored under a name.
type values struct {
	mu sync.Mutex
	m  map[string]string
	n  int
}

func (v *values) put(x interface{}) string {
	b, _ := json.Marshal(x)
	v.mu.Lock()
	defer v.mu.Unlock()
	v.n++
	name := fmt.Sprintf("v%d", v.n)
	v.m[string(b)] = name
	return name
}
func (v *values) name(x interface{}) string {
	b, _ := json.Marshal(x)
	v.mu.Lock()
	defer v.mu.Unlock()
	if n, ok := v.m[string(b)]; ok {
		return n
	}
	return "?"
}

func bigRand(rng *rand.Rand) *big.Int { return new(big.Int).SetBytes(randMsg(rng, 8+rng.Intn(250))) }

func someEcShare(rng *rand.Rand) *keygen.LocalPartySaveData {
	c := *ecShares(4)[rng.Intn(4)]
	c.Xi, c.ShareID, c.NTildei = bigRand(rng), bigRand(rng), bigRand(rng)
	return &c
}
func someEdShare(rng *rand.Rand) *edkeygen.LocalPartySaveData {
	c := *edShares(4)[rng.Intn(4)]
	c.Xi, c.ShareID = bigRand(rng), bigRand(rng)
	return &c
}
func somePresign(rng *rand.Rand) *ecsigning.SignatureData_OneRoundData {
	return &ecsigning.SignatureData_OneRoundData{T: int32(rng.Intn(1000)), KI: randMsg(rng, 32), RSigmaI: randMsg(rng, 32),
		PartyId: fmt.Sprintf("p%d", rng.Int())}
}

var partySets = map[string][]string{"p1": {"a", "b", "c"}, "p2": {"d", "b"}}

func sortedJoin(ids []string) string {
	a := append([]string{}, ids...)
	sort.Strings(a)
	return strings.Join(a, ",")
}

func shuffledPids(ids []string, rng *rand.Rand) []*tss.PartyID {
	ps := pidsNamed(ids)
	rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	return ps
}

func availEvent(d db.Database, r *Rec) {
	ids, pids, err := d.GetAvailablePresignShortForm()
	res := [][]string{}
	if err != nil || len(ids) != len(pids) {
		res = append(res, []string{"?", "?"})
	} else {
		for i := range ids {
			res = append(res, []string{ids[i], sortedJoin(strings.Split(pids[i], ","))})
		}
	}
	r.Add("avail", "res", res)
}

func dbOp(d db.Database, op M, r *Rec, rng *rand.Rand, vals *values) {
	switch str(op, "op", "") {
	case "savepre":
		c := *worker.LoadEcPreparams(rng.Intn(4))
		c.NTildei = bigRand(rng)
		v := vals.put(&c)
		err := d.SavePreparams(&c)
		r.Add("savepre", "v", v, "ok", err == nil)
	case "loadpre":
		p, err := d.LoadPreparams()
		res := "err"
		if errors.Is(err, db.ErrNotFound) || (err == nil && p == nil) {
			res = "none"
		} else if err == nil {
			res = vals.name(p)
		}
		r.Add("loadpre", "res", res)
	case "savekey":
		kind, kt, w := str(op, "kind", ""), str(op, "kt", ""), str(op, "w", "")
		var v string
		var err error
		if kind == "ec" {
			s := someEcShare(rng)
			v = vals.put(s)
			err = d.SaveEcKeygen(kt, w, shuffledPids(partySets["p1"], rng), s)
		} else {
			s := someEdShare(rng)
			v = vals.put(s)
			err = d.SaveEdKeygen(kt, w, shuffledPids(partySets["p1"], rng), s)
		}
		r.Add("savekey", "kind", kind, "kt", kt, "w", w, "v", v, "ok", err == nil)
	case "loadkey":
		kind, kt := str(op, "kind", ""), str(op, "kt", "")
		res := "err"
		if kind == "ec" {
			s, err := d.LoadEcKeygen(kt)
			if errors.Is(err, db.ErrNotFound) || (err == nil && s == nil) {
				res = "none"
			} else if err == nil {
				res = vals.name(s)
			}
		} else {
			s, err := d.LoadEdKeygen(kt)
			if errors.Is(err, db.ErrNotFound) || (err == nil && s == nil) {
				res = "none"
			} else if err == nil {
				res = vals.name(s)
			}
		}
		r.Add("loadkey", "kind", kind, "kt", kt, "res", res)
	case "savepresign":
		w, n := str(op, "w", ""), num(op, "n", 1)
		set := partySets[str(op, "pids", "p1")]
		var os []*ecsigning.SignatureData_OneRoundData
		vs := []string{}
		for i := 0; i < n; i++ {
			o := somePresign(rng)
			os = append(os, o)
			vs = append(vs, vals.put(o))
		}
		err := d.SavePresignData(w, shuffledPids(set, rng), os)
		r.Add("savepresign", "w", w, "pids", sortedJoin(set), "vs", vs, "ok", err == nil)
	case "avail":
		availEvent(d, r)
	case "loadpresign":
		ids := strs(op, "ids")
		os, err := d.LoadPresign(append([]string{}, ids...))
		res := []string{}
		for _, o := range os {
			if o == nil {
				res = append(res, "nil")
			} else {
				res = append(res, vals.name(o))
			}
		}
		r.Add("loadpresign", "ids", ids, "ok", err == nil, "res", res)
	case "status":
		ids := strs(op, "ids")
		ss, err := d.LoadPresignStatus(append([]string{}, ids...))
		if ss == nil {
			ss = []string{}
		}
		r.Add("status", "ids", ids, "ok", err == nil, "res", ss)
	case "mark":
		ids := strs(op, "ids")
		err := d.UpdatePresignStatus(append([]string{}, ids...))
		r.Add("mark", "ids", ids, "ok", err == nil)
	case "savepeers":
		var ps []*p2ptypes.Peer
		rec := [][]string{}
		for _, k := range strs(op, "ps") {
			p := &p2ptypes.Peer{Address: fmt.Sprintf("/dns/%s-%d/tcp/%d", k, rng.Intn(1000), rng.Intn(60000)), PubKey: k, PubKeyType: str(op, "t", "")}
			ps = append(ps, p)
			rec = append(rec, []string{p.PubKey, p.Address, p.PubKeyType})
		}
		err := d.SavePeers(ps)
		r.Add("savepeers", "ps", rec, "ok", err == nil)
	case "loadpeers":
		res := [][]string{}
		for _, p := range d.LoadPeers() {
			res = append(res, []string{p.PubKey, p.Address, p.PubKeyType})
		}
		r.Add("loadpeers", "res", res)
	}
}

var dbReadback = []M{{"op": "loadpre"}, {"op": "loadkey", "kind": "ec", "kt": "ec1"}, {"op": "loadkey", "kind": "ec", "kt": "ec2"},
	{"op": "loadkey", "kind": "ed", "kt": "ed1"}, {"op": "loadkey", "kind": "ed", "kt": "ed2"}, {"op": "avail"}, {"op": "loadpeers"}}

// modeDb replays a history of calls and reads everything back at the end (and, on demand, after the connections of
// the pool have been idle for a while).
func modeDb(s *Scenario, r *Rec, rng *rand.Rand) error {
	d, err := newMemDB()
	if err != nil {
		return err
	}
	defer d.Close()
	vals := &values{m: map[string]string{}}
	run := func(op M) bool {
		ok := within(20*time.Second, func() { dbOp(d, op, r, rng, vals) })
		if !ok {
			r.Stall("hang", "op", op)
		}
		return ok
	}
	for _, op := range s.Ops {
		if !run(op) {
			return nil
		}
	}
	time.Sleep(time.Duration(num(s.Cfg, "idle_ms", 0)) * time.Millisecond)
	for _, op := range dbReadback {
		if !run(op) {
			return nil
		}
	}
	return nil
}

// modeDbPar stores distinct entries from several goroutines at once, while others read; then everything is read back.
// Stores of distinct entries commute, so that the order in which they are recorded does not matter; what is read
// while stores are under way is not judged.
func modeDbPar(s *Scenario, r *Rec, rng *rand.Rand) error {
	d, err := newMemDB()
	if err != nil {
		return err
	}
	defer d.Close()
	vals := &values{m: map[string]string{}}
	g := num(s.Cfg, "procs", 4)
	var wg sync.WaitGroup
	for p := 0; p < g; p++ {
		p := p
		prng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			scratch := NewRec()
			for i := 0; i < 4; i++ {
				w := fmt.Sprintf("w%d.%d", p, i)
				dbOp(d, M{"op": "savepresign", "w": w, "n": 1 + prng.Intn(4), "pids": []string{"p1", "p2"}[prng.Intn(2)]}, r, prng, vals)
				dbOp(d, M{"op": "savekey", "kind": "ec", "kt": fmt.Sprintf("t%d", p), "w": w}, r, prng, vals)
				dbOp(d, M{"op": "savepeers", "ps": []interface{}{fmt.Sprintf("k%d.%d", p, i)}, "t": "secp256k1"}, r, prng, vals)
				if prng.Intn(2) == 0 {
					dbOp(d, M{"op": "mark", "ids": []interface{}{w + "-0"}}, r, prng, vals)
				}
				dbOp(d, M{"op": "avail"}, scratch, prng, vals)
				dbOp(d, M{"op": "loadpresign", "ids": []interface{}{w + "-0"}}, scratch, prng, vals)
			}
		}()
	}
	if !within(60*time.Second, wg.Wait) {
		r.Stall("hang")
		return nil
	}
	for p := 0; p < g; p++ {
		dbOp(d, M{"op": "loadkey", "kind": "ec", "kt": fmt.Sprintf("t%d", p)}, r, rng, vals)
		for i := 0; i < 4; i++ {
			id := fmt.Sprintf("w%d.%d-0", p, i)
			dbOp(d, M{"op": "status", "ids": []interface{}{id}}, r, rng, vals)
			dbOp(d, M{"op": "loadpresign", "ids": []interface{}{id}}, r, rng, vals)
		}
	}
	dbOp(d, M{"op": "avail"}, r, rng, vals)
	dbOp(d, M{"op": "loadpeers"}, r, rng, vals)
	return nil
}
