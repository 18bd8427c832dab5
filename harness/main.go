// Command zzverif drives the real code of dheart with scenarios and records what it does as traces.
// It is laid over /repo by "go build -overlay" (see lib/vlib.py), uses exported API only, and is never part of /repo.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sisu-network/lib/log"
)

type M = map[string]interface{}

type Scenario struct {
	Name string          `json:"name"`
	Ops  []M             `json:"ops"`
	Cfg  M               `json:"cfg"`
	Raw  json.RawMessage `json:"-"`
}

func (s *Scenario) UnmarshalJSON(b []byte) error {
	type alias Scenario
	if err := json.Unmarshal(b, (*alias)(s)); err != nil {
		return err
	}
	s.Raw = append([]byte{}, b...)
	return nil
}

func num(m M, k string, def int) int {
	if v, ok := m[k]; ok {
		switch x := v.(type) {
		case float64:
			return int(x)
		case int:
			return x
		}
	}
	return def
}
func str(m M, k string, def string) string {
	if v, ok := m[k].(string); ok {
		return v
	}
	return def
}
func boolean(m M, k string, def bool) bool {
	if v, ok := m[k].(bool); ok {
		return v
	}
	return def
}
func strs(m M, k string) []string {
	r := []string{}
	if v, ok := m[k].([]interface{}); ok {
		for _, x := range v {
			r = append(r, x.(string))
		}
	}
	if v, ok := m[k].([]string); ok {
		r = append(r, v...)
	}
	return r
}
func ints(m M, k string) []int {
	r := []int{}
	if v, ok := m[k].([]interface{}); ok {
		for _, x := range v {
			r = append(r, int(x.(float64)))
		}
	}
	return r
}

// Rec collects the events of one scenario; the order is the order of the calls under its lock.
type Rec struct {
	mu     sync.Mutex
	ev     []M
	closed bool
	notes  []string
	cfg    M
	last   time.Time
}

func NewRec() *Rec { return &Rec{ev: []M{}, last: time.Now()} }

func (r *Rec) Add(e string, kv ...interface{}) {
	m := M{"e": e}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	r.mu.Lock()
	if !r.closed {
		r.ev = append(r.ev, m)
		r.last = time.Now()
	}
	r.mu.Unlock()
}

// stalls counts calls that did not return and steps that never happened.  Waiting for them takes long, so that the
// process gives up the remaining scenarios after a few.
var stalls int32

// Stall records that something which must happen did not: no specification has such an event.
func (r *Rec) Stall(e string, kv ...interface{}) {
	atomic.AddInt32(&stalls, 1)
	r.Add(e, kv...)
}

func (r *Rec) Note(f string, a ...interface{}) {
	r.mu.Lock()
	if len(r.notes) < 50 {
		r.notes = append(r.notes, fmt.Sprintf(f, a...))
	}
	r.mu.Unlock()
}

func (r *Rec) Len() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.ev) }

// Count returns how many recorded events satisfy f.
func (r *Rec) Count(f func(M) bool) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, e := range r.ev {
		if f(e) {
			n++
		}
	}
	return n
}

func (r *Rec) Close() { r.mu.Lock(); r.closed = true; r.mu.Unlock() }

// waitFor polls until f holds or the time is over.
func waitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

// within runs f in a goroutine and reports whether it returned in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

type modeFunc func(s *Scenario, r *Rec, rng *rand.Rand) error

var modes = map[string]modeFunc{}
var parModes = map[string]int{}

// children are programs that a mode runs as processes of their own.
var children = map[string]func(){}

// The longest delay of a short sleep since a point in time tells how late the machine runs things.
type lagSample struct {
	at  time.Time
	lag time.Duration
}

var lagMu sync.Mutex
var lags []lagSample
var lagOnce sync.Once

func lagStart() {
	lagOnce.Do(func() {
		go func() {
			for {
				t := time.Now()
				time.Sleep(5 * time.Millisecond)
				l := time.Since(t) - 5*time.Millisecond
				lagMu.Lock()
				lags = append(lags, lagSample{time.Now(), l})
				if len(lags) > 20000 {
					lags = append([]lagSample{}, lags[10000:]...)
				}
				lagMu.Unlock()
			}
		}()
	})
}

func lagSince(t time.Time) time.Duration {
	lagMu.Lock()
	defer lagMu.Unlock()
	m := time.Duration(0)
	for i := len(lags) - 1; i >= 0 && lags[i].at.After(t); i-- {
		if lags[i].lag > m {
			m = lags[i].lag
		}
	}
	if n := len(lags); n > 0 {
		if d := time.Since(lags[n-1].at); d > m {
			m = d
		}
	}
	return m
}

type silent struct{}

func (silent) Verbose(...interface{})               { perturb() }
func (silent) Verbosef(string, ...interface{})      { perturb() }
func (silent) HighVerbose(...interface{})           { perturb() }
func (silent) HighVerbosef(string, ...interface{})  { perturb() }
func (silent) Info(...interface{})                  { perturb() }
func (silent) Infof(string, ...interface{})         { perturb() }
func (silent) Warn(...interface{})                  { perturb() }
func (silent) Warnf(string, ...interface{})         { perturb() }
func (silent) Error(...interface{})                 { perturb() }
func (silent) Errorf(string, ...interface{})        { perturb() }
func (silent) Critical(...interface{})              { perturb() }
func (silent) Debug(...interface{})                 { perturb() }
func (silent) Debugf(string, ...interface{})        { perturb() }

// perturb makes the log calls of the code under test scheduling points: they sometimes yield or pause.
var perturbVal int32

func setPerturb(x int) { atomic.StoreInt32(&perturbVal, int32(x)) }

var perturbMu sync.Mutex
var perturbRng = rand.New(rand.NewSource(1))

func perturb() {
	perturbLevel := int(atomic.LoadInt32(&perturbVal))
	if perturbLevel == 0 {
		return
	}
	perturbMu.Lock()
	x := perturbRng.Intn(100)
	perturbMu.Unlock()
	switch {
	case x < 40:
		runtime.Gosched()
	case x < 40+perturbLevel:
		time.Sleep(time.Duration(50+x*10) * time.Microsecond)
	}
}

func main() {
	if len(os.Args) < 5 {
		fmt.Println("usage: vh MODE IN OUT SEED")
		os.Exit(3)
	}
	if f := children[os.Args[1]]; f != nil {
		f()
		return
	}
	seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
	perturbRng = rand.New(rand.NewSource(seed))
	if os.Getenv("VERIF_LOG") == "" {
		setLog()
	}
	mode := modes[os.Args[1]]
	if mode == nil {
		fmt.Println("unknown mode", os.Args[1])
		os.Exit(3)
	}
	bz, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var scens []*Scenario
	if err := json.Unmarshal(bz, &scens); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	out, err := os.Create(os.Args[3])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	// Scenarios of some modes mostly wait, and run several at a time.
	width := parModes[os.Args[1]]
	if width == 0 {
		width = 1
	}
	sem := make(chan struct{}, width)
	var wmu sync.Mutex
	var wg sync.WaitGroup
	one := func(i int, s *Scenario) {
		r := NewRec()
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		err := mode(s, r, rng)
		r.Close()
		wmu.Lock()
		defer wmu.Unlock()
		t := M{"name": s.Name, "ev": r.ev, "scen": s.Raw}
		if r.cfg != nil {
			t["cfg"] = r.cfg
		}
		if len(r.notes) > 0 {
			t["notes"] = r.notes
		}
		if err != nil {
			t["fail"] = err.Error()
		}
		b, err := json.Marshal(t)
		if err != nil {
			fmt.Println("marshal:", err)
			os.Exit(3)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	for i, s := range scens {
		if atomic.LoadInt32(&stalls) >= 3 {
			break
		}
		i, s := i, s
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			one(i, s)
			<-sem
			wg.Done()
		}()
	}
	wg.Wait()
	out.Close()
}

func setLog() { log.SetLogger(silent{}) }
