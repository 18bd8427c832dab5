package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"sync"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/server"
	"github.com/sisu-network/dheart/types"
)

func init() {
	modes["single"] = runSingle
	parModes["single"] = 64
}

// sisu records the replies of a service.  It is a client.Client, or the methods of an RPC server that the real client posts to.
type sisu struct {
	onKeygen  func(*types.KeygenResult)
	onKeysign func(*types.KeysignResult)
}

func (s *sisu) TryDial() {}
func (s *sisu) PostKeygenResult(x *types.KeygenResult) error {
	s.onKeygen(x)
	return nil
}
func (s *sisu) PostPresignResult(x *types.PresignResult) error { return nil }
func (s *sisu) PostKeysignResult(x *types.KeysignResult) error {
	s.onKeysign(x)
	return nil
}

type sisuApi struct{ s *sisu }

func (a *sisuApi) Ping(source string) {}
func (a *sisuApi) KeygenResult(x *types.KeygenResult) error {
	a.s.onKeygen(x)
	return nil
}
func (a *sisuApi) KeysignResult(x *types.KeysignResult) error {
	a.s.onKeysign(x)
	return nil
}

// host is how requests reach the service: by calls, or through its RPC server.
type apiHost struct {
	api server.Api
	rpc *rpc.Client
}

func (h *apiHost) do(method string, f func(server.Api) error, args ...interface{}) (err error) {
	if h.rpc == nil {
		return f(h.api)
	}
	var r interface{}
	return h.rpc.Call(&r, "tss_"+method, args...)
}
func (h *apiHost) keygen(id, typ string, keys []types.PubKeyWrapper) error {
	return h.do("keyGen", func(a server.Api) error { return a.KeyGen(id, typ, keys) }, id, typ, keys)
}
func (h *apiHost) keysign(req *types.KeysignRequest, keys []types.PubKeyWrapper) error {
	return h.do("keySign", func(a server.Api) error { return a.KeySign(req, keys) }, req, keys)
}
func (h *apiHost) setKey(enc, typ string) error {
	return h.do("setPrivKey", func(a server.Api) error { return a.SetPrivKey(enc, typ) }, enc, typ)
}
func (h *apiHost) setReady(b bool) error {
	return h.do("setSisuReady", func(a server.Api) error { a.SetSisuReady(b); return nil }, b)
}

// serveRPC runs the service behind its own RPC server and returns a connected client.
func serveRPC(api server.Api) (*rpc.Client, error) {
	port := freePort(rand.New(rand.NewSource(time.Now().UnixNano())))
	handler := rpc.NewServer()
	handler.RegisterName("tss", api)
	go func() {
		defer func() { recover() }()
		server.NewServer(handler, "127.0.0.1", uint16(port)).Run()
	}()
	url := fmt.Sprintf("http://127.0.0.1:%d", port)
	if !waitFor(10*time.Second, func() bool {
		resp, err := http.Post(url, "application/json", bytes.NewBufferString("{}"))
		if err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		return err == nil
	}) {
		return nil, errSetup
	}
	return rpc.Dial(url)
}

// dialSisu runs the host's RPC server and returns the real client, connected to it.
func dialSisu(s *sisu) (client.Client, func(), error) {
	h := rpc.NewServer()
	h.RegisterName("tss", &sisuApi{s})
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	srv := &http.Server{Handler: h}
	go srv.Serve(l)
	c := client.NewClient("http://" + l.Addr().String())
	if !within(8*time.Second, c.TryDial) {
		srv.Close()
		return nil, nil, errSetup
	}
	return c, func() { srv.Close() }, nil
}

// keyVerifies reports whether sig is a signature of msg under the public key as services report it.
func keyVerifies(typ string, pub, msg, sig []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch typ {
	case "ecdsa":
		if len(sig) < 64 {
			return false
		}
		if len(sig) == 65 {
			p, err := ethcrypto.Ecrecover(msg, sig)
			if err != nil || !bytes.Equal(p, pub) {
				return false
			}
		}
		return ethcrypto.VerifySignature(pub, msg, sig[:64])
	case "eddsa":
		pk, err := edwards.ParsePubKey(pub)
		if err != nil {
			return false
		}
		s, err := edwards.ParseSignature(sig)
		if err != nil {
			return false
		}
		return s.Verify(msg, pk) && len(pub) == 32 && ed25519.Verify(pub, msg, sig)
	}
	return false
}

func validPub(typ string, pub []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch typ {
	case "ecdsa":
		_, err := ethcrypto.UnmarshalPubkey(pub)
		return err == nil
	case "eddsa":
		_, err := edwards.ParsePubKey(pub)
		return err == nil
	}
	return false
}

// deepCopy is a copy of a request that the code under test does not have.
func deepCopy(req *types.KeysignRequest) *types.KeysignRequest {
	b, _ := json.Marshal(req)
	r := &types.KeysignRequest{}
	json.Unmarshal(b, r)
	return r
}

// sameRequest compares requests by content (an RPC server only has copies).
func sameRequest(a, b *types.KeysignRequest) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y) || reflect.DeepEqual(a, b)
}

func msgBytes(kind string, rng *rand.Rand) []byte {
	b := make([]byte, 32)
	rng.Read(b)
	switch kind {
	case "zeros":
		copy(b, make([]byte, 1+rng.Intn(8)))
	case "same":
		copy(b, bytes.Repeat([]byte{7}, 32))
	case "ones":
		copy(b, bytes.Repeat([]byte{255}, 32))
	case "short":
		b = b[:1+rng.Intn(31)]
	case "long":
		b = append(b, b[:1+rng.Intn(32)]...)
	case "empty":
		b = []byte{}
	case "one":
		b = b[:1]
	}
	return b
}

func runSingle(s *Scenario, r *Rec, rng *rand.Rand) error {
	type signing struct {
		id  string
		req *types.KeysignRequest
	}
	type repKey struct {
		typ string
		pub []byte
	}
	type reply struct {
		ev   M
		req  *types.KeysignRequest
		sigs [][]byte
	}
	var mu sync.Mutex
	signs := map[string]signing{} // by the id of the first message, which is unique
	keys := []repKey{}
	replies := []reply{}
	si := &sisu{
		onKeygen: func(x *types.KeygenResult) {
			mu.Lock()
			defer mu.Unlock()
			k := -1
			for i := range keys {
				if keys[i].typ == x.KeyType && bytes.Equal(keys[i].pub, x.PubKeyBytes) {
					k = i
				}
			}
			if k < 0 {
				k = len(keys)
				keys = append(keys, repKey{x.KeyType, append([]byte{}, x.PubKeyBytes...)})
			}
			r.Add("key", "type", x.KeyType, "key", fmt.Sprintf("k%d", k), "ok", x.Outcome == types.OutcomeSuccess && validPub(x.KeyType, x.PubKeyBytes))
		},
		onKeysign: func(x *types.KeysignResult) {
			mu.Lock()
			defer mu.Unlock()
			id, same := "?", false
			if x.Request != nil && len(x.Request.KeysignMessages) > 0 && x.Request.KeysignMessages[0] != nil {
				if g, ok := signs[x.Request.KeysignMessages[0].Id]; ok {
					id, same = g.id, sameRequest(g.req, x.Request)
				}
			}
			ev := M{"e": "sign", "id": id, "same": same, "ok": x.Outcome == types.OutcomeSuccess, "by": [][]string{}}
			sigs := [][]byte{}
			for _, sg := range x.Signatures {
				sigs = append(sigs, append([]byte{}, sg...))
			}
			replies = append(replies, reply{ev, x.Request, sigs})
			r.mu.Lock()
			r.ev = append(r.ev, ev)
			r.mu.Unlock()
		},
	}
	h := &apiHost{}
	if str(s.Cfg, "transport", "direct") == "rpc" {
		c, stop, err := dialSisu(si)
		if err != nil {
			return err
		}
		defer stop()
		h.api = server.NewSingleNodeApi(c)
		if h.rpc, err = serveRPC(h.api); err != nil {
			return err
		}
		defer h.rpc.Close()
	} else {
		h.api = server.NewSingleNodeApi(si)
	}
	h.api.Init()
	// wait lets everything be answered that will be: replies come three seconds later.
	todo := 0
	settle := func() {
		waitFor(25*time.Second, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return r.Count(func(m M) bool { return m["e"] == "key" || m["e"] == "sign" }) >= todo
		})
		mu.Lock()
		done := r.Count(func(m M) bool { return m["e"] == "key" || m["e"] == "sign" }) >= todo
		mu.Unlock()
		if !done {
			r.Stall("noreply")
		}
	}
	type job struct {
		id  string
		op  M
		req *types.KeysignRequest
	}
	n := 0
	flush := func(batch map[string][]job) {
		var wg sync.WaitGroup
		begin := make(chan struct{})
		var cm sync.Mutex
		for _, jobs := range batch {
			wg.Add(1)
			go func(jobs []job) {
				defer wg.Done()
				<-begin
				for _, j := range jobs {
					func() {
						typ := str(j.op, "type", "")
						plain, cnt := false, 0
						if j.req != nil {
							cnt = len(j.req.KeysignMessages)
							plain = cnt > 0
							for _, m := range j.req.KeysignMessages {
								plain = plain && m != nil && len(m.BytesToSign) == 32
							}
						}
						r.Add("call", "id", j.id, "kind", str(j.op, "op", ""), "type", typ, "n", cnt, "plain", plain)
						var err error
						defer func() {
							if x := recover(); x != nil {
								r.Stall("crash", "what", fmt.Sprint(x))
							}
						}()
						if !within2(20*time.Second, func() {
							if j.req != nil {
								err = h.keysign(j.req, nil)
							} else {
								err = h.keygen(j.id, typ, nil)
							}
						}) {
							r.Stall("hang", "id", j.id)
							return
						}
						if err != nil && h.rpc != nil && err.Error() == "method handler crashed" {
							r.Stall("crash", "what", err.Error())
						}
						r.Add("ret", "id", j.id, "ok", err == nil)
						if err == nil {
							cm.Lock()
							todo++
							cm.Unlock()
						}
					}()
				}
			}(jobs)
		}
		close(begin)
		wg.Wait()
	}
	batch := map[string][]job{}
	for _, op := range s.Ops {
		switch str(op, "op", "") {
		case "keygen":
			n++
			batch[str(op, "th", "x")] = append(batch[str(op, "th", "x")], job{id: fmt.Sprintf("r%d", n), op: op})
		case "sign":
			n++
			id := fmt.Sprintf("r%d", n)
			req := &types.KeysignRequest{KeyType: str(op, "type", "")}
			for i, k := range strs(op, "msgs") {
				if k == "nil" {
					req.KeysignMessages = append(req.KeysignMessages, nil)
					continue
				}
				b := msgBytes(k, rng)
				req.KeysignMessages = append(req.KeysignMessages, &types.KeysignMessage{Id: fmt.Sprintf("%s.%d", id, i),
					OutChain: []string{"eth", "ganache1", "solana"}[rng.Intn(3)], OutHash: fmt.Sprintf("h%d", i), Bytes: []byte{1, byte(i)}, BytesToSign: b})
			}
			if len(req.KeysignMessages) > 0 && req.KeysignMessages[0] != nil {
				mu.Lock()
				signs[req.KeysignMessages[0].Id] = signing{id, deepCopy(req)}
				mu.Unlock()
			}
			batch[str(op, "th", "x")] = append(batch[str(op, "th", "x")], job{id: id, op: op, req: req})
		case "sleep":
			flush(batch)
			batch = map[string][]job{}
			time.Sleep(time.Duration(num(op, "ms", 1)) * time.Millisecond)
		case "settle":
			flush(batch)
			batch = map[string][]job{}
			settle()
		}
	}
	flush(batch)
	settle()
	time.Sleep(3300 * time.Millisecond)
	r.Add("settle")
	r.Close()
	// Which keys of the run does each signature verify under, for the message at its position?
	mu.Lock()
	defer mu.Unlock()
	for _, p := range replies {
		by := [][]string{}
		for i, sg := range p.sigs {
			l := []string{}
			if g, ok := signs[firstId(p.req)]; ok && i < len(g.req.KeysignMessages) && g.req.KeysignMessages[i] != nil {
				for k, key := range keys {
					if key.typ == g.req.KeyType && keyVerifies(key.typ, key.pub, g.req.KeysignMessages[i].BytesToSign, sg) {
						l = append(l, fmt.Sprintf("k%d", k))
					}
				}
			}
			by = append(by, l)
		}
		p.ev["by"] = by
	}
	return nil
}

func firstId(req *types.KeysignRequest) string {
	if req == nil || len(req.KeysignMessages) == 0 || req.KeysignMessages[0] == nil {
		return ""
	}
	return req.KeysignMessages[0].Id
}

// within2 is within, but a panic of f is the caller's.
func within2(d time.Duration, f func()) bool {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case x := <-done:
		if x != nil {
			panic(x)
		}
		return true
	case <-time.After(d):
		return false
	}
}

