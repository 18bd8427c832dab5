package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/sisu-network/tss-lib/common"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"

	hcommon "github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/helper"
	"github.com/sisu-network/dheart/worker/types"
)

func init() {
	modes["execout"] = modeExecOut
	modes["execres"] = modeExecRes
	modes["execnet"] = modeExecNet
	modes["job"] = modeJob
	parModes["execout"] = 4
	parModes["execres"] = 8
	parModes["execnet"] = 2
	parModes["job"] = 4
}

// fakeMsg is a protocol message with a payload of the scenario's choice.
type fakeMsg struct {
	typ  string
	from *tss.PartyID
	to   []*tss.PartyID
	body string
}

func (m *fakeMsg) Type() string                  { return m.typ }
func (m *fakeMsg) GetTo() []*tss.PartyID         { return m.to }
func (m *fakeMsg) GetFrom() *tss.PartyID         { return m.from }
func (m *fakeMsg) IsBroadcast() bool             { return m.to == nil }
func (m *fakeMsg) IsToOldCommittee() bool        { return false }
func (m *fakeMsg) IsToOldAndNewCommittees() bool { return false }
func (m *fakeMsg) WireMsg() *tss.MessageWrapper  { return nil }
func (m *fakeMsg) String() string                { return m.typ }
func (m *fakeMsg) WireBytes() ([]byte, *tss.MessageRouting, error) {
	return []byte(m.body), &tss.MessageRouting{From: m.from, To: m.to, IsBroadcast: m.to == nil}, nil
}

type execDisp struct {
	cast func([]*tss.PartyID, *hcommon.TssMessage)
	uni  func(*tss.PartyID, *hcommon.TssMessage)
}

func (d *execDisp) BroadcastMessage(ps []*tss.PartyID, m *hcommon.TssMessage) { d.cast(ps, m) }
func (d *execDisp) UnicastMessage(p *tss.PartyID, m *hcommon.TssMessage)      { d.uni(p, m) }

// bareJobs makes jobs with the given indexes that are never started.
func bareJobs(workId string, batch int, pids tss.SortedPartyIDs, t int) []*worker.Job {
	ctx := tss.NewPeerContext(pids)
	jobs := []*worker.Job{}
	for i := 0; i < batch; i++ {
		jobs = append(jobs, worker.NewEdKeygenJob(workId, i, pids, tss.NewParameters(ctx, pids[0], len(pids), t), nil, time.Hour))
	}
	return jobs
}

// modeExecOut gives the messages that the jobs of a batch produce, in the order of the scenario, to a real executor.
func modeExecOut(s *Scenario, r *Rec, rng *rand.Rand) error {
	n, batch := num(s.Cfg, "n", 3), num(s.Cfg, "batch", 2)
	pids, by, name := letters(n)
	work := s.Name + "__w"
	req := types.NewEdSigningRequest(work, pids, 1, make([][]byte, batch), make([]string, batch), edKeys(3, 1)[0])
	disp := &execDisp{}
	entry := func(kind string, to []string, m *hcommon.TssMessage) {
		pls, rounds := []string{}, []string{}
		for _, u := range m.UpdateMessages {
			pls = append(pls, string(u.Data))
			rounds = append(rounds, u.Round)
		}
		hdr := m.To
		if m.To != "" {
			hdr = name[m.To]
		}
		r.Add("dispatch", "kind", kind, "to", to, "hdr", hdr, "from", name[m.From], "work", m.WorkId == work,
			"upd", m.Type == hcommon.TssMessage_UPDATE_MESSAGES, "pls", pls, "rounds", rounds)
		if d := num(s.Cfg, "slow_us", 0); d > 0 {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
	}
	disp.cast = func(ps []*tss.PartyID, m *hcommon.TssMessage) { entry("cast", namesOf(ps, name), m) }
	disp.uni = func(p *tss.PartyID, m *hcommon.TssMessage) { entry("uni", []string{name[p.Id]}, m) }
	ex := worker.NewWorkerExecutor(req, req.WorkType, by["a"], pids, disp, newFakeDB(), nil,
		func(*worker.WorkerExecutor, worker.ExecutionResult) {}, timeouts(time.Second, time.Second, time.Minute, time.Hour))
	jobs := bareJobs(work, batch, pids, 1)
	one := func(op M) bool {
		switch str(op, "op", "") {
		case "out":
			j, key := num(op, "j", 0), str(op, "key", "r1")
			m := &fakeMsg{typ: strings.Split(key, ":")[0], from: by["a"], body: fmt.Sprintf("%s#%d", key, j)}
			if i := strings.Index(key, ":"); i >= 0 {
				m.to = []*tss.PartyID{by[key[i+1:]]}
			}
			r.Add("produce", "j", j, "key", key, "pl", m.body)
			if !within(20*time.Second, func() { ex.OnJobMessage(jobs[j], m) }) {
				r.Stall("hang", "call", "OnJobMessage")
				return false
			}
		case "end":
			switch str(op, "how", "stop") {
			case "stop":
				ex.Stop()
			case "timeout":
				ex.OnJobTimeout()
			default:
				for j := range jobs {
					ex.OnJobResult(jobs[j], worker.JobResult{Success: str(op, "how", "") == "ok"})
				}
			}
		}
		return true
	}
	if g := boolean(s.Cfg, "par", false); g {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := -1; j < batch; j++ {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, op := range s.Ops {
					if (str(op, "op", "") == "out" && num(op, "j", 0) == j) || (str(op, "op", "") == "end" && j == -1) {
						if !one(op) {
							return
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	} else {
		for _, op := range s.Ops {
			if !one(op) {
				break
			}
		}
	}
	// The messages may be sent by other goroutines.
	waitFor(3*time.Second, func() bool {
		made := map[string]int{}
		full := 0
		n := r.Count(func(e M) bool {
			if e["e"] == "produce" {
				k := e["key"].(string)
				if made[k]++; made[k] == batch {
					full++
				}
			}
			return e["e"] == "dispatch"
		})
		return n >= full
	})
	r.Add("end")
	all := []string{}
	for _, p := range pids {
		all = append(all, name[p.Id])
	}
	r.cfg = M{"batch": batch, "all": all, "me": "a"}
	return nil
}

// modeExecRes reports the results of jobs to a real executor and observes what it reports.
func modeExecRes(s *Scenario, r *Rec, rng *rand.Rand) error {
	batch := num(s.Cfg, "batch", 2)
	pids, by, _ := letters(3)
	req := types.NewEdSigningRequest(s.Name, pids, 1, make([][]byte, batch), make([]string, batch), edKeys(3, 1)[0])
	disp := &execDisp{cast: func([]*tss.PartyID, *hcommon.TssMessage) {}, uni: func(*tss.PartyID, *hcommon.TssMessage) {}}
	ex := worker.NewWorkerExecutor(req, req.WorkType, by["a"], pids, disp, newFakeDB(), nil,
		func(_ *worker.WorkerExecutor, res worker.ExecutionResult) {
			tags := []string{}
			if res.Success {
				for _, x := range res.JobResults {
					if x == nil || x.EdSigning == nil || x.EdSigning.Signature == nil {
						tags = append(tags, "none")
					} else {
						tags = append(tags, string(x.EdSigning.Signature.M))
					}
				}
			}
			r.Add("report", "ok", res.Success, "tags", tags)
		}, timeouts(time.Second, time.Second, time.Minute, time.Hour))
	jobs := bareJobs(s.Name, batch, pids, 1)
	tags := []string{}
	for j := 0; j < batch; j++ {
		tags = append(tags, fmt.Sprintf("j%d", j))
	}
	r.cfg = M{"batch": batch, "tags": tags}
	one := func(op M) {
		switch str(op, "op", "") {
		case "res":
			j, ok := num(op, "j", 0), boolean(op, "ok", true)
			tag := fmt.Sprintf("j%d", j)
			r.Add("res", "j", j, "ok", ok, "tag", tag)
			ex.OnJobResult(jobs[j], worker.JobResult{Success: ok, EdSigning: &edsigning.SignatureData{Signature: &common.ECSignature{M: []byte(tag)}}})
			r.Add("resret", "j", j)
		case "timeout":
			r.Add("timeout")
			ex.OnJobTimeout()
			r.Add("timeoutret")
		}
	}
	if boolean(s.Cfg, "par", false) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, op := range s.Ops {
			op := op
			wg.Add(1)
			go func() { defer wg.Done(); <-start; one(op) }()
		}
		close(start)
		if !within(20*time.Second, wg.Wait) {
			r.Stall("hang")
		}
	} else {
		for _, op := range s.Ops {
			op := op
			if !within(20*time.Second, func() { one(op) }) {
				r.Stall("hang")
				break
			}
			time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
		}
	}
	// The report is made by another goroutine.
	waitFor(50*time.Millisecond, func() bool { return r.Count(func(e M) bool { return e["e"] == "report" }) > 0 })
	done := map[int]bool{}
	all := r.Count(func(e M) bool {
		if e["e"] == "res" {
			done[e["j"].(int)] = true
		}
		return e["e"] == "timeout"
	})
	if len(done) == batch || all > 0 {
		waitFor(10*time.Second, func() bool { return r.Count(func(e M) bool { return e["e"] == "report" }) > 0 })
	}
	time.Sleep(2 * time.Millisecond)
	r.Add("end")
	return nil
}

// ---------------------------------------------------------------- whole executions

// protoMsgs: what every party sends in a protocol.
func typShort(t string) string {
	i := strings.LastIndex(t, ".")
	return t[i+1:]
}

type xNode struct {
	idx   int
	name  string
	ex    *worker.WorkerExecutor
	mu    sync.Mutex
	up    bool
	early []*hcommon.TssMessage
	got   map[string]time.Time
}

// modeExecNet runs the real executors of all parties of a work against each other.
func modeExecNet(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	n, batch, kind := num(s.Cfg, "n", 3), num(s.Cfg, "batch", 1), str(s.Cfg, "kind", "edsign")
	t := num(s.Cfg, "t", n-1)
	pids := worker.GetTestPartyIds(n)
	name := map[string]string{}
	for i, p := range pids {
		name[p.Id] = string(rune('a' + i))
	}
	names := []string{}
	for _, p := range pids {
		names = append(names, name[p.Id])
	}
	work := fmt.Sprintf("%s__%d", s.Name, rng.Intn(1000))
	msgs := [][]byte{}
	chains := []string{}
	for i := 0; i < batch; i++ {
		m := randMsg(rng, 32)
		msgs = append(msgs, m)
		chains = append(chains, "eth")
	}
	jobMs := time.Duration(num(s.Cfg, "job_ms", 60000)) * time.Millisecond
	mon := time.Duration(num(s.Cfg, "monitor_ms", 3600000)) * time.Millisecond
	cfg := timeouts(time.Second, time.Second, jobMs, mon)
	silent := map[string]bool{}
	for _, x := range strs(s.Cfg, "silent") {
		silent[x] = true
	}
	drop, dup, delay, block := num(s.Cfg, "drop", 0), num(s.Cfg, "dup", 0), num(s.Cfg, "delay_us", 0), num(s.Cfg, "block_us", 0)
	lossAll := boolean(s.Cfg, "lossall", false) // the first transmission of every message is lost
	corrupt := str(s.Cfg, "corrupt", "")        // "b:TYPE:job": that message of b is altered
	nostart := map[string]bool{}                // nodes whose jobs cannot start
	for _, x := range strs(s.Cfg, "nostart") {
		nostart[x] = true
	}
	var mu sync.Mutex
	dead := false
	rnd := func(k int) int {
		mu.Lock()
		defer mu.Unlock()
		if k <= 0 {
			return 0
		}
		return rng.Intn(k)
	}
	sent := map[string]*hcommon.TssMessage{} // by key
	tried := map[string]bool{}
	nodes := map[string]*xNode{}
	var edSh []*edkeygen.LocalPartySaveData
	var ecSh []*eckeygen.LocalPartySaveData
	var pre map[int]*ecsigning.SignatureData_OneRoundData
	switch kind {
	case "edsign":
		edSh = edKeys(n, t)
	case "ecsign", "presign":
		ecSh = ecShares(n)
	}
	if kind == "presign" {
		idx := []int{}
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
		pre = ecPresigns(n, idx)
	}
	var deliver func(to *xNode, m *hcommon.TssMessage)
	deliver = func(to *xNode, m *hcommon.TssMessage) {
		bz, _ := json.Marshal(m)
		c := &hcommon.TssMessage{}
		json.Unmarshal(bz, c)
		to.mu.Lock()
		if !to.up {
			to.early = append(to.early, c)
			to.mu.Unlock()
			return
		}
		to.mu.Unlock()
		mu.Lock()
		x := dead
		mu.Unlock()
		if x {
			return
		}
		var err error
		if !within(60*time.Second, func() { err = to.ex.ProcessUpdateMessage(c) }) {
			r.Stall("hang", "node", to.name)
			return
		}
		if err == nil && len(c.UpdateMessages) > 0 {
			to.mu.Lock()
			to.got[name[c.From]+"/"+typShort(c.UpdateMessages[0].Round)] = time.Now()
			to.mu.Unlock()
		}
	}
	push := func(from, to *xNode, m *hcommon.TssMessage, first bool) {
		if silent[to.name] || silent[from.name] {
			return
		}
		k := m.UpdateMessages[0].Round + "/" + from.name + "/" + to.name
		copies := 1
		mu.Lock()
		fst := !tried[k]
		tried[k] = true
		mu.Unlock()
		if (lossAll && fst) || (first && rnd(100) < drop) {
			copies = 0
		} else if rnd(100) < dup {
			copies = 2
		}
		for i := 0; i < copies; i++ {
			d := time.Duration(rnd(delay)) * time.Microsecond
			go func() { time.Sleep(d); deliver(to, m) }()
		}
	}
	send := func(from *xNode, kindOf string, to []string, m *hcommon.TssMessage) {
		switch m.Type {
		case hcommon.TssMessage_UPDATE_MESSAGES:
			rd := ""
			same, full := true, true
			for _, u := range m.UpdateMessages {
				if u == nil || len(u.Data) == 0 {
					full = false
					continue
				}
				if rd != "" && rd != u.Round {
					same = false
				}
				rd = u.Round
				if pm, err := tss.ParseWireMessage(u.Data, pids[0], true); err != nil || pm.Type() != u.Round {
					same = false
				}
			}
			hdr := m.To
			if hdr != "" {
				hdr = name[hdr]
			}
			r.Add("send", "node", from.name, "typ", typShort(rd), "kind", kindOf, "to", to, "hdr", hdr, "from", name[m.From],
				"n", len(m.UpdateMessages), "same", same, "full", full, "work", m.WorkId == work)
			out := m
			if corrupt != "" {
				f := strings.Split(corrupt, ":")
				if f[0] == from.name && f[1] == typShort(rd) {
					bz, _ := json.Marshal(m)
					out = &hcommon.TssMessage{}
					json.Unmarshal(bz, out)
					var j int
					fmt.Sscan(f[2], &j)
					// The last byte of the last value: the message still parses.
					d := out.UpdateMessages[j%len(out.UpdateMessages)].Data
					d[len(d)-1] ^= byte(1 + rnd(255))
				}
			}
			if key, err := m.GetMessageKey(); err == nil {
				mu.Lock()
				sent[key] = out
				mu.Unlock()
			}
			for _, x := range to {
				if x != from.name && nodes[x] != nil {
					push(from, nodes[x], out, true)
				}
			}
			if block > 0 {
				time.Sleep(time.Duration(rnd(block)) * time.Microsecond)
			}
		case hcommon.TssMessage_ASK_MESSAGE_REQUEST:
			key := m.AskRequestMessage.MsgKey
			mu.Lock()
			am := sent[key]
			mu.Unlock()
			f := strings.Split(key, "__")
			k := len(f)
			// A message that arrived a while ago is not missing.
			from.mu.Lock()
			at, had := from.got[name[f[k-3]]+"/"+typShort(f[k-1])]
			from.mu.Unlock()
			had = had && time.Since(at) > 100*time.Millisecond && lagSince(at) < 30*time.Millisecond
			r.Add("ask", "node", from.name, "had", had, "kind", kindOf, "to", to, "of", name[f[k-3]], "typ", typShort(f[k-1]), "hdr", m.To != "",
				"dest", name[f[k-2]], "work", strings.Join(f[:k-3], "__") == work && m.WorkId == work, "from", name[m.From])
			if am == nil {
				return
			}
			// Whoever the question reaches answers; the original is one of them.
			orig := nodes[name[f[k-3]]]
			for _, x := range to {
				if orig != nil && x == orig.name && x != from.name {
					push(orig, from, am, false)
				}
			}
		}
	}
	order := rng.Perm(n)
	for i := 0; i < n; i++ {
		nd := &xNode{idx: i, name: names[i], got: map[string]time.Time{}}
		nodes[nd.name] = nd
	}
	ended := make(chan bool, 4*n)
	var wg sync.WaitGroup
	real := []string{}
	for _, i := range order {
		i := i
		nd := nodes[names[i]]
		if silent[nd.name] {
			continue
		}
		real = append(real, nd.name)
		my := copyPids(pids)
		req := &types.WorkRequest{}
		var presign []*ecsigning.SignatureData_OneRoundData
		db := newFakeDB()
		switch kind {
		case "edkeygen":
			req = types.NewEdKeygenRequest(work, my, t)
		case "eckeygen":
			req = types.NewEcKeygenRequest("ecdsa", work, my, t, nil)
			db.preparam = worker.LoadEcPreparams(i)
		case "edsign":
			req = types.NewEdSigningRequest(work, my, t, msgs, chains, edSh[i])
		default:
			req = types.NewEcSigningRequest(work, my, t, msgs, chains, ecSh[i])
			if kind == "presign" {
				for j := 0; j < batch; j++ {
					presign = append(presign, pre[i])
				}
			}
		}
		if nostart[nd.name] {
			if kind == "eckeygen" {
				db.preparam = nil
			} else {
				req.Threshold = n
			}
		}
		var begun time.Time
		disp := &execDisp{}
		disp.cast = func(ps []*tss.PartyID, m *hcommon.TssMessage) { send(nd, "cast", namesOf(ps, name), m) }
		disp.uni = func(p *tss.PartyID, m *hcommon.TssMessage) { send(nd, "uni", namesOf([]*tss.PartyID{p}, name), m) }
		nd.ex = worker.NewWorkerExecutor(req, req.WorkType, my[i], my, disp, db, presign,
			func(_ *worker.WorkerExecutor, res worker.ExecutionResult) {
				ok, valid, dig := res.Success, true, ""
				k := 0
				if ok {
					k = len(res.JobResults)
					for j, x := range res.JobResults {
						if x == nil {
							valid = false
							continue
						}
						switch kind {
						case "edkeygen":
							valid = valid && x.EdKeygen != nil
							if x.EdKeygen != nil {
								dig = digest(x.EdKeygen.EDDSAPub.X().Bytes(), x.EdKeygen.EDDSAPub.Y().Bytes())
							}
						case "eckeygen":
							valid = valid && x.EcKeygen != nil
							if x.EcKeygen != nil {
								dig = digest(x.EcKeygen.ECDSAPub.X().Bytes(), x.EcKeygen.ECDSAPub.Y().Bytes())
							}
						case "edsign":
							if x.EdSigning == nil || x.EdSigning.Signature == nil {
								valid = false
								continue
							}
							valid = valid && validEd(edSh[i], msgs[j], x.EdSigning.Signature.Signature)
							dig = digest([]byte(dig), x.EdSigning.Signature.Signature)
						default:
							if x.EcSigning == nil || x.EcSigning.Signature == nil {
								valid = false
								continue
							}
							g := x.EcSigning.Signature
							valid = valid && validEc(ecSh[i], msgs[j], g.R, g.S)
							dig = digest([]byte(dig), g.R, g.S, g.SignatureRecovery)
						}
					}
				}
				r.Add("result", "node", nd.name, "ok", ok, "n", k, "valid", valid, "dig", dig,
					"soon", time.Since(begun) < jobMs/2)
				ended <- true
			}, cfg)
		wg.Add(1)
		skew := time.Duration(rng.Intn(num(s.Cfg, "skew_us", 1)+1)) * time.Microsecond
		go func() {
			defer wg.Done()
			time.Sleep(skew)
			begun = time.Now()
			if !within(120*time.Second, func() {
				nd.ex.Init()
				nd.mu.Lock()
				nd.up = true
				e := nd.early
				nd.mu.Unlock()
				nd.ex.Run(e)
			}) {
				r.Stall("hang", "node", nd.name, "call", "start")
			}
		}()
	}
	wg.Wait()
	left := len(real)
	lim := time.After(jobMs + 90*time.Second)
	for left > 0 {
		select {
		case <-ended:
			left--
			continue
		case <-lim:
			r.Stall("noresult")
		}
		break
	}
	// Everything that is handed over at all has been handed over when nothing happens any more.
	must := boolean(s.Cfg, "must", false)
	want := num(s.Cfg, "sends", 0) * len(real)
	if must && want > 0 {
		waitFor(20*time.Second, func() bool { return r.Count(func(e M) bool { return e["e"] == "send" }) >= want })
	}
	time.Sleep(time.Duration(20+delay/1000+2*block/1000) * time.Millisecond)
	if mon < time.Minute {
		time.Sleep(2*mon + 100*time.Millisecond)
		r.Add("quiet")
		time.Sleep(3*mon + 20*time.Millisecond)
	}
	mu.Lock()
	dead = true
	mu.Unlock()
	r.Add("end")
	r.cfg = M{"kind": kind, "all": names, "nodes": real, "batch": batch, "must": must, "recover": mon < time.Minute,
		"bad": strings.Split(corrupt, ":")[0], "nostart": append([]string{}, strs(s.Cfg, "nostart")...)}
	return nil
}

// ---------------------------------------------------------------- single jobs

// jobParty finds the protocol party inside a job, so that messages can be given to it.
func jobParty(j *worker.Job) tss.Party {
	v := reflect.ValueOf(j).Elem()
	pt := reflect.TypeOf((*tss.Party)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == pt {
			return *(*tss.Party)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	return nil
}

type jobCB struct {
	msg func(m tss.Message)
	res func(r worker.JobResult)
}

func (c *jobCB) OnJobMessage(_ *worker.Job, m tss.Message)     { c.msg(m) }
func (c *jobCB) OnJobResult(_ *worker.Job, r worker.JobResult) { c.res(r) }

// modeJob runs the real jobs of all parties for one position of a batch; the receiver of a job's messages may be slow.
func modeJob(s *Scenario, r *Rec, rng *rand.Rand) error {
	n, kind := num(s.Cfg, "n", 3), str(s.Cfg, "kind", "edsign")
	t := num(s.Cfg, "t", n-1)
	pids := copyPids(worker.GetTestPartyIds(n))
	ctx := tss.NewPeerContext(pids)
	names := []string{}
	name := map[string]string{}
	for i, p := range pids {
		names = append(names, string(rune('a'+i)))
		name[p.Id] = names[i]
	}
	silent := map[string]bool{}
	for _, x := range strs(s.Cfg, "silent") {
		silent[x] = true
	}
	limit := time.Duration(num(s.Cfg, "job_ms", 60000)) * time.Millisecond
	block, blockRes := num(s.Cfg, "block_us", 0), num(s.Cfg, "blockres_us", 0)
	blockOf := str(s.Cfg, "block_at", "") // only messages of this type block
	var mu sync.Mutex
	rnd := func(k int) int {
		mu.Lock()
		defer mu.Unlock()
		if k <= 0 {
			return 0
		}
		return rng.Intn(k)
	}
	var idx []int
	for i := 0; i < n; i++ {
		idx = append(idx, i)
	}
	jobs := make([]*worker.Job, n)
	parties := make([]tss.Party, n)
	msg := randMsg(rng, 32)
	started := make([]time.Time, n)
	done := make(chan int, 10*n)
	up := make([]chan struct{}, n)
	for i := range up {
		up[i] = make(chan struct{})
	}
	route := func(i int, m tss.Message) {
		for k := range pids {
			if k == i || silent[names[k]] || parties[k] == nil {
				continue
			}
			if to := m.GetTo(); to != nil && to[0].Id != pids[k].Id {
				continue
			}
			k := k
			bz, _, _ := m.WireBytes()
			d := time.Duration(rnd(num(s.Cfg, "delay_us", 0))) * time.Microsecond
			go func() {
				time.Sleep(d)
				<-up[k] // a worker keeps messages until its jobs have started
				if pm, err := tss.ParseWireMessage(bz, pids[i], m.IsBroadcast()); err == nil {
					helper.SharedPartyUpdater(parties[k], pm)
				}
			}()
		}
	}
	for i := 0; i < n; i++ {
		i := i
		cb := &jobCB{}
		cb.msg = func(m tss.Message) {
			to := "*"
			if d := m.GetTo(); d != nil {
				to = name[d[0].Id]
			}
			r.Add("jmsg", "node", names[i], "typ", typShort(m.Type()), "to", to)
			route(i, m)
			if b := rnd(block); b > 0 && (blockOf == "" || blockOf == typShort(m.Type())) {
				time.Sleep(time.Duration(b) * time.Microsecond)
			}
		}
		cb.res = func(x worker.JobResult) {
			has := x.EdKeygen != nil || x.EcKeygen != nil || x.EdSigning != nil || x.EcSigning != nil
			r.Add("jres", "node", names[i], "ok", x.Success, "has", has, "early", !x.Success && time.Since(started[i]) < limit)
			if blockRes > 0 {
				time.Sleep(time.Duration(blockRes) * time.Microsecond)
			}
			done <- i
		}
		params := tss.NewParameters(ctx, pids[i], n, t)
		switch kind {
		case "edkeygen":
			jobs[i] = worker.NewEdKeygenJob("w", 0, pids, params, cb, limit)
		case "eckeygen":
			jobs[i] = worker.NewEcKeygenJob("w", 0, pids, params, worker.LoadEcPreparams(i), cb, limit)
		case "edsign":
			jobs[i] = worker.NewEdSigningJob("w", 0, pids, params, msg, *edKeys(n, t)[i], cb, limit)
		case "ecsign":
			jobs[i] = worker.NewEcSigningJob("w", 0, pids, params, msg, *ecShares(n)[i], nil, cb, limit, "eth")
		case "presigning":
			jobs[i] = worker.NewEcSigningJob("w", 0, pids, params, nil, *ecShares(n)[i], nil, cb, limit, "eth")
		case "presign":
			jobs[i] = worker.NewEcSigningJob("w", 0, pids, params, msg, *ecShares(n)[i], ecPresigns(n, idx)[i], cb, limit, "eth")
		}
		parties[i] = jobParty(jobs[i])
		if parties[i] == nil {
			// The job is built differently: whole executions are observed instead.
			r.Note("no party")
			r.cfg = M{"kind": kind, "all": names, "nodes": []string{}, "must": false, "expire": false}
			r.Add("end")
			return nil
		}
	}
	real := []string{}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		if silent[names[i]] {
			continue
		}
		i := i
		real = append(real, names[i])
		wg.Add(1)
		go func() {
			defer wg.Done()
			started[i] = time.Now()
			jobs[i].Start()
			close(up[i])
		}()
	}
	wg.Wait()
	for k := 0; k < len(real); k++ {
		select {
		case <-done:
			continue
		case <-time.After(limit + 60*time.Second):
			r.Stall("noresult")
		}
		break
	}
	must := boolean(s.Cfg, "must", len(silent) == 0)
	alone := len(silent) > 0
	want := num(s.Cfg, "sends", 0) * len(real)
	if !alone {
		waitFor(10*time.Second, func() bool { return r.Count(func(e M) bool { return e["e"] == "jmsg" }) >= want })
	}
	// wait past the time limit, when it is short, for a second result
	if limit < 3*time.Second {
		time.Sleep(time.Until(started[len(started)-1].Add(limit)) + 30*time.Millisecond)
		time.Sleep(limit + 30*time.Millisecond)
	}
	time.Sleep(time.Duration(10+2*block/1000) * time.Millisecond)
	r.Add("end")
	r.cfg = M{"kind": kind, "all": names, "nodes": real, "must": must, "expire": alone}
	return nil
}
