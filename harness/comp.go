package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/blame"
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/store"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
	"github.com/syndtr/goleveldb/leveldb"
)

func init() {
	modes["msgcache"] = modeMsgCache
	modes["msgcachepar"] = modeMsgCachePar
	modes["workcache"] = modeWorkCache
	modes["blame"] = modeBlame
	modes["blamepar"] = modeBlamePar
	modes["quorum"] = modeQuorum
	modes["encstore"] = modeEncStore
	modes["aes"] = modeAes
}

// ---------------------------------------------------------------- message cache

var cacheTypes = map[string]common.TssMessage_Type{
	"upd": common.TssMessage_UPDATE_MESSAGES,
	"req": common.TssMessage_AVAILABILITY_REQUEST,
	"out": common.TssMessage_PRE_EXEC_OUTPUT,
	"rsp": common.TssMessage_AVAILABILITY_RESPONSE,
}

func cacheMsg(from, w, t string, n int) *common.TssMessage {
	return &common.TssMessage{Type: cacheTypes[t], From: from, WorkId: w, To: "me",
		UpdateMessages: []*common.UpdateMessage{{Data: []byte(fmt.Sprintf("%d", n)), Round: "r"}}}
}

// numbers gives back the numbers of messages, -1 for a message that was changed.
func numbers(ms []*common.TssMessage, all map[int]*common.TssMessage) []int {
	r := []int{}
	for _, m := range ms {
		n := -1
		if m != nil && len(m.UpdateMessages) == 1 {
			fmt.Sscanf(string(m.UpdateMessages[0].Data), "%d", &n)
			o := all[n]
			if o == nil || o.From != m.From || o.WorkId != m.WorkId || o.Type != m.Type || o.To != m.To {
				n = -1
			}
		}
		r = append(r, n)
	}
	return r
}

func cacheFilter(f string) map[common.TssMessage_Type]bool {
	switch f {
	case "sel":
		return common.GetPreworkSelectionMsgType()
	case "upd":
		return common.GetUpdateMessageType()
	}
	return nil
}

func modeMsgCache(s *Scenario, r *Rec, rng *rand.Rand) error {
	c := cache.NewMessageCache()
	all := map[int]*common.TssMessage{}
	n := 0
	for _, op := range s.Ops {
		w := str(op, "w", "")
		switch str(op, "op", "") {
		case "add":
			from, t, k := str(op, "from", ""), str(op, "t", ""), num(op, "k", 1)
			for i := 0; i < k; i++ {
				all[n+i] = cacheMsg(from, w, t, n+i)
				c.AddMessage(cacheMsg(from, w, t, n+i))
			}
			r.Add("add", "from", from, "w", w, "t", t, "n", n, "k", k)
			n += k
		case "pop":
			f := str(op, "f", "all")
			r.Add("pop", "w", w, "f", f, "res", numbers(c.PopAllMessages(w, cacheFilter(f)), all))
		case "get":
			r.Add("get", "w", w, "res", numbers(c.GetAllMessages(w), all))
		}
	}
	return nil
}

// modeMsgCachePar: every sender's messages are added by a goroutine of its own while another one pops.
func modeMsgCachePar(s *Scenario, r *Rec, rng *rand.Rand) error {
	c := cache.NewMessageCache()
	g := num(s.Cfg, "procs", 3)
	r.cfg = M{"procs": g}
	all := map[int]*common.TssMessage{}
	var plan [][]M
	n := 0
	for p := 0; p < g; p++ {
		l := []M{}
		for i, op := range s.Ops {
			if i%g == p {
				o := M{}
				for k, v := range op {
					o[k] = v
				}
				if str(o, "op", "") == "add" {
					o["n"] = n
					all[n] = cacheMsg(str(o, "from", ""), str(o, "w", ""), str(o, "t", ""), n)
					n++
				}
				l = append(l, o)
			}
		}
		plan = append(plan, l)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for p := 0; p < g; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			<-start
			for _, op := range plan[p] {
				w := str(op, "w", "")
				if str(op, "op", "") == "add" {
					from, t, n := str(op, "from", ""), str(op, "t", ""), op["n"].(int)
					r.Add("call", "p", p, "op", "add", "from", from, "w", w, "t", t, "n", n)
					c.AddMessage(cacheMsg(from, w, t, n))
					r.Add("ret", "p", p, "res", []int{})
				} else {
					r.Add("call", "p", p, "op", "pop", "from", "", "w", w, "t", "", "n", 0)
					res := numbers(c.PopAllMessages(w, nil), all)
					r.Add("ret", "p", p, "res", res)
				}
			}
		}(p)
	}
	close(start)
	wg.Wait()
	return nil
}

// ---------------------------------------------------------------- work message cache

func modeWorkCache(s *Scenario, r *Rec, rng *rand.Rand) error {
	size := num(s.Cfg, "size", 2)
	c := cache.NewWorkMessageCache(size, tss.NewPartyID("me", "", big.NewInt(1)))
	n := 0
	for _, op := range s.Ops {
		from, key := str(op, "from", ""), str(op, "key", "")
		switch str(op, "op", "") {
		case "add":
			n++
			c.Add(key, &common.SignedMessage{From: from, Signature: []byte(fmt.Sprintf("%d", n))})
			r.Add("add", "from", from, "key", key, "n", n)
		case "get":
			m := c.Get(from, key)
			res := 0
			if m != nil {
				fmt.Sscanf(string(m.Signature), "%d", &res)
				if m.From != from {
					res = -1
				}
			}
			r.Add("get", "from", from, "key", key, "res", res)
		}
	}
	r.cfg = M{"size": size}
	return nil
}

// ---------------------------------------------------------------- blame

func pidNamed(id string) *tss.PartyID {
	k := new(big.Int).SetBytes([]byte(id))
	return tss.NewPartyID(id, "", k)
}

func pidMapOf(ids []string) map[string]*tss.PartyID {
	m := map[string]*tss.PartyID{}
	for _, id := range ids {
		m[id] = pidNamed(id)
	}
	return m
}

func pidsNamed(ids []string) []*tss.PartyID {
	r := []*tss.PartyID{}
	for _, id := range ids {
		r = append(r, pidNamed(id))
	}
	return r
}

func culpritIds(ps []*tss.PartyID, set map[string]*tss.PartyID) []string {
	ids := []string{}
	for _, p := range ps {
		if p == nil {
			ids = append(ids, "nil")
			continue
		}
		ids = append(ids, p.Id)
	}
	return ids
}

func modeBlame(s *Scenario, r *Rec, rng *rand.Rand) error {
	m := blame.NewManager()
	for _, op := range s.Ops {
		w, rd := str(op, "w", ""), num(op, "r", 0)
		switch str(op, "op", "") {
		case "send":
			m.AddSender(w, uint32(rd), str(op, "p", ""))
			r.Add("send", "w", w, "r", rd, "p", str(op, "p", ""))
		case "bad":
			ps := strs(op, "ps")
			m.AddCulpritByRound(w, uint32(rd), pidsNamed(ps))
			r.Add("bad", "w", w, "r", rd, "ps", ps)
		case "pre":
			ps := strs(op, "ps")
			m.AddPreExecutionCulprit(pidsNamed(ps))
			r.Add("pre", "ps", ps)
		case "query":
			ps := strs(op, "ps")
			set := pidMapOf(ps)
			r.Add("query", "w", w, "r", rd, "ps", ps, "res", culpritIds(m.GetRoundCulprits(w, uint32(rd), set), set))
		case "querypre":
			r.Add("querypre", "res", culpritIds(m.GetPreExecutionCulprits(), nil))
		}
	}
	return nil
}

// modeBlamePar: all records are made at once by several goroutines; afterwards every work and round is queried.
func modeBlamePar(s *Scenario, r *Rec, rng *rand.Rand) error {
	m := blame.NewManager()
	g := num(s.Cfg, "procs", 4)
	var wg sync.WaitGroup
	start := make(chan struct{})
	works := map[string]bool{}
	rounds := map[int]bool{}
	parties := []string{"a", "b", "c", "d"}
	for _, op := range s.Ops {
		// recorded first: the order among records does not matter for the queries that follow
		w, rd := str(op, "w", ""), num(op, "r", 0)
		switch str(op, "op", "") {
		case "send":
			r.Add("send", "w", w, "r", rd, "p", str(op, "p", ""))
		case "bad":
			r.Add("bad", "w", w, "r", rd, "ps", strs(op, "ps"))
		default:
			continue
		}
		works[w] = true
		rounds[rd] = true
	}
	for p := 0; p < g; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			<-start
			for i, op := range s.Ops {
				if i%g != p {
					continue
				}
				w, rd := str(op, "w", ""), num(op, "r", 0)
				switch str(op, "op", "") {
				case "send":
					m.AddSender(w, uint32(rd), str(op, "p", ""))
				case "bad":
					m.AddCulpritByRound(w, uint32(rd), pidsNamed(strs(op, "ps")))
				case "query":
					m.GetRoundCulprits(w, uint32(rd), pidMapOf(parties))
				}
			}
		}(p)
	}
	close(start)
	wg.Wait()
	ws := []string{}
	for w := range works {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		for rd := 0; rd < 4; rd++ {
			if rounds[rd] {
				set := pidMapOf(parties)
				r.Add("query", "w", w, "r", rd, "ps", parties, "res", culpritIds(m.GetRoundCulprits(w, uint32(rd), set), set))
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- quorum

func modeQuorum(s *Scenario, r *Rec, rng *rand.Rand) error {
	lo, hi := num(s.Cfg, "lo", 1), num(s.Cfg, "hi", 10)
	for n := lo; n <= hi; n++ {
		t := utils.GetThreshold(n)
		ec := &types.WorkRequest{WorkType: types.EcSigning, N: n, Threshold: t}
		ed := &types.WorkRequest{WorkType: types.EdSigning, N: n, Threshold: t}
		k1 := &types.WorkRequest{WorkType: types.EcKeygen, N: n, Threshold: t}
		k2 := &types.WorkRequest{WorkType: types.EdKeygen, N: n, Threshold: t}
		r.Add("quorum", "n", n, "t", t, "ec", ec.GetMinPartyCount(), "ed", ed.GetMinPartyCount(),
			"eckg", k1.GetMinPartyCount(), "edkg", k2.GetMinPartyCount())
	}
	return nil
}

// ---------------------------------------------------------------- encrypted store

var secrets = map[string][]byte{
	"s1": []byte("0123456789abcdef0123456789abcdef"),
	"s2": []byte("0123456789abcdef0123456789abcdeg"),
	"s3": []byte("0123456789abcdef"),
	"s4": []byte("too short"), // not a valid aes key
}

func storeValue(v string, rng *rand.Rand, known map[string][]byte) []byte {
	if b, ok := known[v]; ok {
		return b
	}
	size := map[string]int{"empty": 0, "one": 1, "short": 12, "block": 16, "long": 100000}[strings.Split(v, ":")[0]]
	if strings.HasPrefix(v, "n") {
		size = 20 + rng.Intn(60)
	}
	b := make([]byte, size)
	rng.Read(b)
	known[v] = b
	return b
}

func copyDir(from, to string) error {
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	os.MkdirAll(to, 0o755)
	for _, e := range es {
		if e.Name() == "LOCK" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// dirImage is a digest of all files of a directory.
func dirImage(dir string) (string, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	h := ""
	for _, e := range es {
		if e.IsDir() || e.Name() == "LOCK" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return "", err
		}
		h += fmt.Sprintf("%s:%d:%s;", e.Name(), len(b), digest(b))
	}
	return h, nil
}

// modeEncStore replays put/get/tamper/reopen histories.  Reopening opens a copy of the store's files, as they are at
// that moment (the store has no Close).
func modeEncStore(s *Scenario, r *Rec, rng *rand.Rand) error {
	root, err := os.MkdirTemp("", "verif-store-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "0")
	st, err := store.NewStore(dir, secrets["s1"])
	if err != nil {
		return err
	}
	known := map[string][]byte{}
	name := func(b []byte) string {
		for k, v := range known {
			if bytes.Equal(v, b) {
				return k
			}
		}
		return "?"
	}
	for i, op := range s.Ops {
		key := []byte(str(op, "key", ""))
		ds := st.(*store.DefaultStore)
		switch str(op, "op", "") {
		case "put":
			v := str(op, "v", "")
			val := storeValue(v, rng, known)
			c := append([]byte{}, val...)
			err := st.PutEncrypted(key, c)
			for j := range c { // the caller may reuse its buffer
				c[j] ^= 0x55
			}
			r.Add("put", "key", string(key), "v", v, "ok", err == nil)
		case "putraw":
			v := str(op, "v", "")
			err := ds.Put(key, append([]byte{}, storeValue(v, rng, known)...))
			r.Add("putraw", "key", string(key), "v", v, "ok", err == nil)
		case "get":
			b, err := st.GetEncrypted(key)
			res := "err"
			if err == leveldb.ErrNotFound {
				res = "missing"
			} else if err == nil {
				res = name(b)
			}
			r.Add("get", "key", string(key), "res", res)
		case "getraw":
			b, err := ds.Get(key)
			res := "err"
			if err == leveldb.ErrNotFound {
				res = "missing"
			} else if err == nil {
				res = name(b)
				for k, v := range known {
					if res == "?" && len(v) >= 12 && bytes.Contains(b, v) {
						res = k // readable inside the stored bytes
					}
				}
			}
			r.Add("getraw", "key", string(key), "res", res)
		case "tamper":
			b, err := ds.Get(key)
			done := false
			how := str(op, "how", "flip")
			if err == nil && len(b) > 0 {
				c := append([]byte{}, b...)
				switch how {
				case "flip":
					c[rng.Intn(len(c))] ^= byte(1 << rng.Intn(8))
				case "cut":
					c = c[:rng.Intn(len(c))]
				case "cut1":
					c = c[:len(c)-1]
				case "nonce":
					if len(c) > 12 {
						c = c[:12]
					} else {
						c = c[:len(c)-1]
					}
				case "none":
					c = []byte{}
				case "longer":
					c = append(c, 0)
				}
				done = ds.Put(key, c) == nil
			}
			r.Add("tamper", "key", string(key), "done", done)
		case "reopen":
			sec := str(op, "s", "s1")
			nd := filepath.Join(root, fmt.Sprintf("%d", i+1))
			// The store may be at work in the background: take a copy of files that do not change.
			var n store.Store
			for try := 0; ; try++ {
				td := fmt.Sprintf("%s_%d", nd, try)
				before, e1 := dirImage(dir)
				err = copyDir(dir, td)
				after, e2 := dirImage(dir)
				if err == nil && e1 == nil && e2 == nil && before == after {
					if img, e3 := dirImage(td); e3 == nil && img == before {
						n, err = store.NewStore(td, secrets[sec])
						if err == nil || try > 20 {
							nd = td
							break
						}
					}
				}
				if try > 200 {
					return fmt.Errorf("store files keep changing: %v", err)
				}
				time.Sleep(5 * time.Millisecond)
			}
			if err != nil {
				r.Add("reopen", "s", sec, "ok", false)
				return nil
			}
			dir, st = nd, n
			r.Add("reopen", "s", sec, "ok", true)
		}
	}
	return nil
}

// modeAes: decryption of every prefix, every single bit flip and wrong keys of encrypted values.
func modeAes(s *Scenario, r *Rec, rng *rand.Rand) error {
	for _, size := range []int{0, 1, 16, 32, 64} {
		plain := make([]byte, size)
		rng.Read(plain)
		for _, k := range []string{"s1", "s3"} {
			enc, err := utils.AESDEncrypt(plain, secrets[k])
			if err != nil {
				r.Add("aes", "what", "encrypt", "size", size, "res", "err")
				continue
			}
			res := func(b []byte, key string) string {
				out, err := utils.AESDecrypt(b, secrets[key])
				if err != nil {
					return "err"
				}
				if bytes.Equal(out, plain) {
					return "same"
				}
				return "wrong"
			}
			r.Add("aes", "what", "good", "size", size, "res", res(enc, k))
			for _, o := range []string{"s1", "s2", "s3", "s4"} {
				if o != k {
					r.Add("aes", "what", "key", "size", size, "res", res(enc, o))
				}
			}
			for i := 0; i < len(enc); i++ {
				r.Add("aes", "what", "cut", "size", size, "res", res(enc[:i], k))
				c := append([]byte{}, enc...)
				c[i] ^= byte(1 << rng.Intn(8))
				r.Add("aes", "what", "flip", "size", size, "res", res(c, k))
			}
		}
	}
	return nil
}

var _ = json.Marshal
var _ = time.Second
