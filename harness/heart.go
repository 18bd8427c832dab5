package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ced25519 "github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	csecp256k1 "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/peer"

	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/server"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"
)

// Whole nodes, as a host uses them.  They cannot be closed, so that every scenario runs in a process of its own.

func init() {
	modes["heart"] = func(s *Scenario, r *Rec, rng *rand.Rand) error { return runChild("heart1", s, r, rng, 170*time.Second) }
	parModes["heart"] = 4
	modes["heart1"] = runHeart
}

// runChild runs one scenario of a mode in a new process.
func runChild(mode string, s *Scenario, r *Rec, rng *rand.Rand, limit time.Duration) error {
	dir, err := os.MkdirTemp("", "child")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal([]json.RawMessage{s.Raw})
	os.WriteFile(dir+"/in", b, 0644)
	lf, err := os.Create(dir + "/log")
	if err != nil {
		return err
	}
	cmd := exec.Command(os.Args[0], mode, dir+"/in", dir+"/out", fmt.Sprint(rng.Int31()))
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	if err := cmd.Start(); err != nil {
		return err
	}
	end := make(chan error, 1)
	go func() { end <- cmd.Wait() }()
	select {
	case err = <-end:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-end
		r.Stall("hang", "what", "scenario")
		return nil
	}
	lf.Close()
	if err != nil {
		bz, _ := os.ReadFile(dir + "/log")
		// What happened belongs into the log of the check.
		os.Stderr.Write(bz)
		txt := string(bz)
		if i := strings.Index(txt, "panic:"); i >= 0 {
			txt = txt[i:]
		} else if i := strings.Index(txt, "fatal error:"); i >= 0 {
			txt = txt[i:]
		}
		if len(txt) > 1500 {
			txt = txt[:1500]
		}
		if strings.Contains(txt, "panic") || strings.Contains(txt, "fatal error") {
			r.Stall("crash", "what", txt)
			return nil
		}
		return fmt.Errorf("child: %v %s", err, txt)
	}
	bz, err := os.ReadFile(dir + "/out")
	if err != nil {
		return err
	}
	var t struct {
		Ev    []M      `json:"ev"`
		Cfg   M        `json:"cfg"`
		Notes []string `json:"notes"`
		Fail  string   `json:"fail"`
	}
	if err := json.Unmarshal(bytes.TrimSpace(bz), &t); err != nil {
		return err
	}
	r.ev, r.cfg, r.notes = t.Ev, t.Cfg, t.Notes
	for _, e := range t.Ev {
		switch e["e"] {
		case "hang", "noreply", "crash":
			atomic.AddInt32(&stalls, 1)
		}
	}
	if t.Fail != "" {
		if strings.HasPrefix(t.Fail, "setup") {
			return fmt.Errorf("%w: %s", errSetup, t.Fail)
		}
		return fmt.Errorf("%s", t.Fail)
	}
	return nil
}

type heartNode struct {
	name string
	typ  string
	priv []byte
	pub  ctypes.PubKey
	port int
	cfg  config.HeartConfig
	host *apiHost
	peer *p2ptypes.Peer // as the others know it
}

func newHeartNode(i int, rng *rand.Rand) *heartNode {
	n := &heartNode{name: fmt.Sprintf("h%d", i), port: freePort(rng)}
	if rng.Intn(2) == 0 {
		k := ced25519.GenPrivKey()
		n.typ, n.priv, n.pub = "ed25519", k.Key, k.PubKey()
	} else {
		k := csecp256k1.GenPrivKey()
		n.typ, n.priv, n.pub = "secp256k1", k.Key, k.PubKey()
	}
	var pk crypto.PubKey
	if n.typ == "ed25519" {
		pk, _ = crypto.UnmarshalEd25519PublicKey(n.pub.Bytes())
	} else {
		pk, _ = crypto.UnmarshalSecp256k1PublicKey(n.pub.Bytes())
	}
	id, _ := peer.IDFromPublicKey(pk)
	n.peer = &p2ptypes.Peer{Address: fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", n.port, id), PubKey: hex.EncodeToString(n.pub.Bytes()), PubKeyType: n.typ}
	return n
}

func wrap(typ string, key []byte) types.PubKeyWrapper { return types.PubKeyWrapper{KeyType: typ, Key: key} }

func runHeart(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	begin := time.Now()
	setPerturb(num(s.Cfg, "perturb", 0))
	n := num(s.Cfg, "n", 1)
	r.cfg = M{"sure": false, "n": n, "t": (n+1)*2/3 - 1}
	aes := make([]byte, 32)
	rng.Read(aes)
	nodes := []*heartNode{}
	byName := map[string]*heartNode{}
	for i := 0; i < n; i++ {
		nodes = append(nodes, newHeartNode(i, rng))
		byName[nodes[i].name] = nodes[i]
	}
	stranger := newHeartNode(99, rng)
	var mu sync.Mutex
	signs := map[string]*types.KeysignRequest{} // by the id of the first message
	ids := map[string]string{}
	keys := map[string][]byte{} // by type: the public key reported first
	type reply struct {
		ev   M
		req  *types.KeysignRequest
		sigs [][]byte
	}
	replies := []reply{}
	for i, nd := range nodes {
		nd := nd
		si := &sisu{
			onKeygen: func(x *types.KeygenResult) {
				mu.Lock()
				defer mu.Unlock()
				ok := x.Outcome == types.OutcomeSuccess
				same := true
				if ok {
					if keys[x.KeyType] == nil {
						keys[x.KeyType] = append([]byte{}, x.PubKeyBytes...)
					}
					same = bytes.Equal(keys[x.KeyType], x.PubKeyBytes)
				}
				r.Add("key", "h", nd.name, "type", x.KeyType, "ok", ok, "valid", !ok || validPub(x.KeyType, x.PubKeyBytes), "same", same)
			},
			onKeysign: func(x *types.KeysignResult) {
				mu.Lock()
				defer mu.Unlock()
				id, same := "?", false
				if g := signs[firstId(x.Request)]; g != nil {
					id, same = ids[firstId(x.Request)], sameRequest(g, x.Request)
				}
				what := "fail"
				switch x.Outcome {
				case types.OutcomeSuccess:
					what = "ok"
				case types.OutcometNotSelected:
					what = "notsel"
				}
				ev := M{"e": "sign", "h": nd.name, "id": id, "same": same, "what": what, "valid": true}
				if what == "ok" {
					replies = append(replies, reply{ev, signs[firstId(x.Request)], append([][]byte{}, x.Signatures...)})
				}
				r.mu.Lock()
				r.ev = append(r.ev, ev)
				r.mu.Unlock()
			},
		}
		peers := []*p2ptypes.Peer{}
		for _, o := range nodes {
			if o != nd {
				p := *o.peer
				peers = append(peers, &p)
			}
		}
		nd.cfg = config.HeartConfig{ShortcutPreparams: true, AesKey: aes, Db: config.DbConfig{InMemory: true, Schema: fmt.Sprintf("dheart%d", i)},
			Connection: p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: nd.port, Rendezvous: "verif", Peers: peers}}
		var c client.Client = si
		nd.host = &apiHost{}
		if str(s.Cfg, "transport", "direct") == "rpc" {
			var stop func()
			var err error
			if c, stop, err = dialSisu(si); err != nil {
				return err
			}
			defer stop()
		}
		nd.host.api = server.NewTssApi(core.NewHeart(nd.cfg, c))
		nd.host.api.Init()
		if str(s.Cfg, "transport", "direct") == "rpc" {
			var err error
			if nd.host.rpc, err = serveRPC(nd.host.api); err != nil {
				return err
			}
		}
	}
	encrypt := func(b []byte) string {
		e, err := utils.AESDEncrypt(b, aes)
		if err != nil {
			panic(err)
		}
		return hex.EncodeToString(e)
	}
	other := make([]byte, 0)
	pubs := func(h *heartNode, kind string) []types.PubKeyWrapper {
		l := []types.PubKeyWrapper{}
		for _, o := range nodes {
			l = append(l, wrap(o.typ, o.pub.Bytes()))
		}
		switch kind {
		case "all":
			if rng.Intn(2) == 0 {
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
			}
		case "me":
			l = []types.PubKeyWrapper{wrap(h.typ, h.pub.Bytes())}
		case "two":
			l = l[:2]
		case "stranger":
			l = append(l, wrap(stranger.typ, stranger.pub.Bytes()))
		case "notme":
			l = []types.PubKeyWrapper{wrap(stranger.typ, stranger.pub.Bytes()), wrap(nodes[0].typ, nodes[0].pub.Bytes())}
			if h == nodes[0] {
				l = l[:1]
			}
		case "twice":
			l = append(l, l[0])
		case "badtype":
			l[0].KeyType = "rsa"
		case "badkey":
			l[len(l)-1].Key = l[len(l)-1].Key[:5]
		case "nokey":
			l[0].Key = nil
		case "none":
			l = nil
		}
		return l
	}
	type job struct {
		op  M
		h   *heartNode
		id  string
		req *types.KeysignRequest
		key []types.PubKeyWrapper
	}
	// call runs one call between its two events.
	nc := 0
	var ncMu sync.Mutex
	call := func(h *heartNode, f func() error, kv ...interface{}) {
		ncMu.Lock()
		nc++
		c := nc
		r.Add("call", append([]interface{}{"c", c, "h", h.name}, kv...)...)
		ncMu.Unlock()
		defer func() {
			if x := recover(); x != nil {
				r.Stall("crash", "what", fmt.Sprint(x))
			}
		}()
		var err error
		if !within2(60*time.Second, func() { err = f() }) {
			r.Stall("hang", "c", c)
			return
		}
		if err != nil {
			r.Note("%v: %v", kv, err)
			if h.host.rpc != nil && err.Error() == "method handler crashed" {
				r.Stall("crash", "what", err.Error())
			}
		}
		r.Add("ret", "c", c, "ok", err == nil)
	}
	run := func(j job) {
		h := j.h
		switch str(j.op, "op", "") {
		case "ready":
			v := boolean(j.op, "val", true)
			call(h, func() error { return h.host.setReady(v) }, "kind", "ready", "val", v, "id", "", "type", "", "valid", true, "must", false)
		case "setkey":
			enc, typ := encrypt(h.priv), h.typ
			kind := str(j.op, "kind", "good")
			switch kind {
			case "other":
				mu.Lock()
				if len(other) == 0 {
					if h.typ == "ed25519" {
						other = ced25519.GenPrivKey().Key
					} else {
						other = csecp256k1.GenPrivKey().Key
					}
				}
				enc = encrypt(other)
				mu.Unlock()
			case "badhex":
				enc = "zz" + enc
			case "cut":
				enc = enc[:len(enc)-2]
			case "changed":
				enc = enc[:30] + flip(enc[30:31]) + enc[31:]
			case "tiny":
				enc = "0102"
			case "empty":
				enc = ""
			case "badlen":
				enc = encrypt(h.priv[:len(h.priv)-1])
			case "nokey":
				enc = encrypt([]byte{})
			case "badtype":
				typ = "rsa"
			case "wrongtype":
				typ = map[string]string{"ed25519": "secp256k1", "secp256k1": "ed25519"}[h.typ]
			case "badpeer":
				if len(h.cfg.Connection.Peers) > 0 {
					p := h.cfg.Connection.Peers[0]
					old := p.Address
					p.Address = "nonsense"
					defer func() { p.Address = old }()
				} else {
					kind = "good"
				}
			case "busy":
				l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", h.port))
				if err == nil {
					defer l.Close()
				}
			}
			call(h, func() error { return h.host.setKey(enc, typ) }, "kind", "setkey", "val", kind == "good", "id", kind, "type", typ, "valid", true, "must", false)
		case "keygen":
			k := str(j.op, "keys", "all")
			typ := str(j.op, "type", "")
			call(h, func() error { return h.host.keygen(j.id, typ, j.key) }, "kind", "keygen", "val", k == "all" || k == "me" || k == "stranger", "id", j.id, "type", typ,
				"valid", typ == "ecdsa" || typ == "eddsa", "must", boolean(j.op, "must", false))
		case "keysign":
			k := str(j.op, "keys", "all")
			typ := str(j.op, "type", "")
			ms := strs(j.op, "msgs")
			has := func(x string) bool {
				for _, m := range ms {
					if m == x {
						return true
					}
				}
				return false
			}
			call(h, func() error { return h.host.keysign(j.req, j.key) }, "kind", "keysign", "val", (k == "all" || k == "me" || k == "stranger") && !has("empty"), "id", j.id, "type", typ,
				"valid", (typ == "ecdsa" || typ == "eddsa") && len(ms) > 0 && !has("nil"), "must", boolean(j.op, "must", false))
		}
	}
	flush := func(batch map[string][]job) {
		var wg sync.WaitGroup
		beginc := make(chan struct{})
		for _, jobs := range batch {
			wg.Add(1)
			go func(jobs []job) {
				defer wg.Done()
				<-beginc
				for _, j := range jobs {
					run(j)
				}
			}(jobs)
		}
		close(beginc)
		wg.Wait()
	}
	// settle waits for the replies to everything that was accepted.
	settle := func() bool {
		if !waitFor(75*time.Second, func() bool { return heartOpen(r) == 0 }) {
			r.Stall("noreply")
			return false
		}
		time.Sleep(20 * time.Millisecond)
		r.Add("settle")
		return true
	}
	batch := map[string][]job{}
	add := func(op M, h *heartNode, j job) {
		j.op, j.h = op, h
		th := str(op, "th", "x")
		if th == "each" {
			th = h.name
		}
		batch[th] = append(batch[th], j)
	}
	cnt := 0
	last := map[string]job{}
	for _, op := range s.Ops {
		hs := nodes
		if h := str(op, "h", ""); h != "" && h != "all" {
			hs = []*heartNode{byName[h]}
		}
		switch o := str(op, "op", ""); o {
		case "keygen", "keysign":
			cnt++
			id := fmt.Sprintf("w%d", cnt)
			var req *types.KeysignRequest
			if o == "keysign" {
				req = &types.KeysignRequest{KeyType: str(op, "type", "")}
				for i, k := range strs(op, "msgs") {
					if k == "nil" {
						req.KeysignMessages = append(req.KeysignMessages, nil)
						continue
					}
					b := msgBytes(k, rng)
					if k == "hash" && b[0] == 0 {
						b[0] = 1
					}
					req.KeysignMessages = append(req.KeysignMessages, &types.KeysignMessage{Id: fmt.Sprintf("%s.%d", id, i),
						OutChain: []string{"eth", "ganache1", "solana"}[rng.Intn(3)], OutHash: fmt.Sprintf("h%d", i), Bytes: []byte{1, byte(i)}, BytesToSign: b})
				}
			}
			if boolean(op, "dup", false) && last[o].id != "" {
				// once more what was asked for last
				id, req = last[o].id, last[o].req
			}
			if f := firstId(req); f != "" {
				mu.Lock()
				signs[f], ids[f] = deepCopy(req), id
				mu.Unlock()
			}
			for _, h := range hs {
				q := req
				if q != nil {
					q = deepCopy(req)
				}
				add(op, h, job{id: id, req: q, key: pubs(h, str(op, "keys", "all"))})
			}
			last[o] = job{id: id, req: req}
		case "setkey", "ready":
			for _, h := range hs {
				add(op, h, job{})
			}
		case "sleep":
			flush(batch)
			batch = map[string][]job{}
			time.Sleep(time.Duration(num(op, "ms", 1)) * time.Millisecond)
		case "go":
			flush(batch)
			batch = map[string][]job{}
		case "settle":
			flush(batch)
			batch = map[string][]job{}
			if atomic.LoadInt32(&stalls) > 0 || !settle() {
				return nil
			}
		}
	}
	flush(batch)
	if atomic.LoadInt32(&stalls) > 0 || !settle() {
		return nil
	}
	time.Sleep(200 * time.Millisecond)
	r.Add("settle")
	r.Close()
	r.cfg = M{"sure": lagSince(begin) < 250*time.Millisecond, "n": n, "t": (n+1)*2/3 - 1}
	r.Note("took %v", time.Since(begin))
	mu.Lock()
	defer mu.Unlock()
	for _, p := range replies {
		ok := p.req != nil && len(p.sigs) == len(p.req.KeysignMessages)
		for i := 0; ok && i < len(p.sigs); i++ {
			ok = keyVerifies(p.req.KeyType, keys[p.req.KeyType], p.req.KeysignMessages[i].BytesToSign, p.sigs[i])
		}
		p.ev["valid"] = ok
	}
	return nil
}

func flip(c string) string {
	if c == "0" {
		return "1"
	}
	return "0"
}

// heartOpen computes how many accepted requests have no reply yet.
func heartOpen(r *Rec) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	calls := map[interface{}]M{}
	type wk struct{ h, id string }
	gens := map[wk]bool{}
	open := 0
	for _, e := range r.ev {
		switch e["e"] {
		case "call":
			calls[e["c"]] = e
		case "ret":
			c := calls[e["c"]]
			if e["ok"] != true {
				break
			}
			switch c["kind"] {
			case "keygen":
				// a key generation that is waiting may be asked for again
				k := wk{c["h"].(string), c["id"].(string)}
				if !gens[k] {
					open++
				}
				gens[k] = true
			case "keysign":
				open++
			}
		case "key", "sign":
			open--
		}
	}
	return open
}
