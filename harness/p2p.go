package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"

	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
)

func init() {
	modes["frame"] = modeFrame
	modes["p2p"] = modeP2P
	parModes["p2p"] = 4
	children["p2pnode"] = p2pNode
}

// ------------------------------------------------------------------ framing

// byteStream is a stream over a byte slice that gives and takes pieces of given sizes.
type byteStream struct {
	network.Stream
	buf    []byte
	pieces []int
	k      int
	broke  bool
	failAt int // the write that reaches this offset fails; < 0: none
}

func (b *byteStream) piece(n int) int {
	if len(b.pieces) == 0 {
		return n
	}
	p := b.pieces[b.k%len(b.pieces)]
	b.k++
	if p < n {
		return p
	}
	return n
}
func (b *byteStream) Read(p []byte) (int, error) {
	if len(b.buf) == 0 {
		return 0, io.EOF
	}
	m := len(p)
	if len(b.buf) < m {
		m = len(b.buf)
	}
	m = b.piece(m)
	copy(p, b.buf[:m])
	b.buf = b.buf[m:]
	return m, nil
}
func (b *byteStream) Write(p []byte) (int, error) {
	if b.failAt >= 0 && len(b.buf)+len(p) > b.failAt {
		b.broke = true
		m := b.failAt - len(b.buf)
		b.buf = append(b.buf, p[:m]...)
		return m, errors.New("broken stream")
	}
	b.buf = append(b.buf, p...)
	return len(p), nil
}
func (b *byteStream) Close() error                     { return nil }
func (b *byteStream) CloseRead() error                 { return nil }
func (b *byteStream) CloseWrite() error                { return nil }
func (b *byteStream) Reset() error                     { return nil }
func (b *byteStream) SetDeadline(time.Time) error      { return nil }
func (b *byteStream) SetReadDeadline(time.Time) error  { return nil }
func (b *byteStream) SetWriteDeadline(time.Time) error { return nil }
func (b *byteStream) ID() string                       { return "s" }
func (b *byteStream) Protocol() protocol.ID            { return p2p.TSSProtocolID }

func payload(id string, n int) []byte {
	h := fnv.New64a()
	h.Write([]byte(id))
	bz := make([]byte, n)
	rand.New(rand.NewSource(int64(h.Sum64()))).Read(bz)
	return bz
}

// modeFrame: messages are written one after the other to a stream, whose bytes are then read in pieces.
func modeFrame(s *Scenario, r *Rec, rng *rand.Rand) error {
	w := &byteStream{failAt: num(s.Cfg, "failat", -1)}
	sizes := ints(s.Cfg, "sizes")
	msgs := [][]byte{}
	for i, n := range sizes {
		m := payload(fmt.Sprintf("%s.%d", s.Name, i), n)
		msgs = append(msgs, m)
		cp := append([]byte{}, m...)
		err := p2p.WriteStreamWithBuffer(cp, w)
		fits := !w.broke
		r.Add("write", "k", i+1, "ok", err == nil, "whole", fits, "same", string(cp) == string(m))
		if err != nil {
			break
		}
	}
	total := len(w.buf)
	cut := num(s.Cfg, "cut", 0) // bytes that are lost at the end
	if cut > total {
		cut = total
	}
	// How many messages are complete?
	rd := &byteStream{buf: append([]byte{}, w.buf[:total-cut]...), pieces: ints(s.Cfg, "pieces"), failAt: -1}
	k := 0
	for {
		var bz []byte
		var err error
		if !within(20*time.Second, func() { bz, err = p2p.ReadStreamWithBuffer(rd) }) {
			r.Stall("hang", "what", "read")
			return nil
		}
		if err != nil {
			r.Add("stop", "left", len(rd.buf))
			break
		}
		r.Add("read", "k", k+1, "intact", k < len(msgs) && string(bz) == string(msgs[k]))
		k++
		if k > len(msgs)+2 {
			break
		}
	}
	n := len(msgs)
	r.cfg = M{"n": n, "cut": cut, "failed": w.failAt >= 0, "last": 0}
	if n > 0 {
		r.cfg["last"] = len(msgs[n-1])
	}
	return nil
}

// ------------------------------------------------------------------ a node in its own process

type p2pCmd struct {
	C     string   `json:"c"`
	Key   string   `json:"key,omitempty"`
	Type  string   `json:"type,omitempty"`
	Port  int      `json:"port,omitempty"`
	Peers []string `json:"peers,omitempty"`
	Proto string   `json:"proto,omitempty"`
	Id    string   `json:"id,omitempty"`
	To    string   `json:"to,omitempty"`
	Size  int      `json:"size,omitempty"`
	Th    string   `json:"th,omitempty"`
}

type p2pOut struct {
	E     string `json:"e"`
	Proto string `json:"proto,omitempty"`
	Id    string `json:"id,omitempty"`
	From  string `json:"from,omitempty"`
	Key   string `json:"key,omitempty"`
	Err   string `json:"err,omitempty"`
}

func contentKey(bz []byte) string {
	h := sha256.Sum256(bz)
	return fmt.Sprintf("%d-%s", len(bz), hex.EncodeToString(h[:8]))
}

type p2pListener struct {
	proto string
	out   func(p2pOut)
}

func (l *p2pListener) OnNetworkMessage(m *p2ptypes.P2PMessage) {
	l.out(p2pOut{E: "recv", Proto: l.proto, From: m.FromPeerId, Key: contentKey(m.Data)})
}

func protoId(s string) protocol.ID {
	if s == "tss" {
		return p2p.TSSProtocolID
	}
	return p2p.PingProtocolID
}

func p2pNode() {
	setLog()
	go func() {
		// The parent is gone.
		for pp := os.Getppid(); os.Getppid() == pp; {
			time.Sleep(time.Second)
		}
		os.Exit(0)
	}()
	enc := json.NewEncoder(os.Stdout)
	var mu sync.Mutex
	out := func(o p2pOut) { mu.Lock(); enc.Encode(o); mu.Unlock() }
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<20)
	var cm p2p.ConnectionManager
	threads := map[string]chan p2pCmd{}
	for in.Scan() {
		var c p2pCmd
		if json.Unmarshal(in.Bytes(), &c) != nil {
			continue
		}
		switch c.C {
		case "new":
			cfg := p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: c.Port, Rendezvous: "rendezvous"}
			for _, p := range c.Peers {
				cfg.Peers = append(cfg.Peers, &p2ptypes.Peer{Address: p})
			}
			cm = p2p.NewConnectionManager(cfg)
			out(p2pOut{E: "made"})
		case "start":
			key, _ := hex.DecodeString(c.Key)
			go func() {
				if err := cm.Start(key, c.Type); err != nil {
					out(p2pOut{E: "startfail", Err: err.Error()})
					return
				}
				out(p2pOut{E: "started"})
			}()
		case "listen":
			cm.AddListener(protoId(c.Proto), &p2pListener{c.Proto, out})
			out(p2pOut{E: "listening", Proto: c.Proto})
		case "write":
			ch := threads[c.Th]
			if ch == nil {
				ch = make(chan p2pCmd, 1000)
				threads[c.Th] = ch
				go func() {
					for c := range ch {
						id, err := peer.Decode(c.To)
						if err == nil {
							err = cm.WriteToStream(id, protoId(c.Proto), payload(c.Id, c.Size))
						}
						o := p2pOut{E: "wrote", Id: c.Id}
						if err != nil {
							o.Err = err.Error() + " "
						}
						out(o)
					}
				}()
			}
			ch <- c
		}
	}
	os.Exit(0)
}

// ------------------------------------------------------------------ networks of nodes

type p2pPeer struct {
	name  string
	key   crypto.PrivKey
	raw   []byte
	typ   string
	id    peer.ID
	port  int
	cmd   *exec.Cmd
	in    io.WriteCloser
	mu    sync.Mutex
	done  chan struct{}
	waits map[string]chan p2pOut
}

func (p *p2pPeer) addr() string { return fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", p.port, p.id) }
func (p *p2pPeer) send(c p2pCmd) {
	bz, _ := json.Marshal(c)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.in != nil {
		p.in.Write(append(bz, '\n'))
	}
}
func (p *p2pPeer) wait(e string, d time.Duration) (p2pOut, bool) {
	p.mu.Lock()
	ch := p.waits[e]
	p.mu.Unlock()
	select {
	case o := <-ch:
		return o, true
	case <-time.After(d):
		return p2pOut{}, false
	}
}

var portMu sync.Mutex
var portNext = 0

// freePort returns a port of the loopback interface that nobody uses; processes use different ranges.
func freePort(rng *rand.Rand) int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		if portNext == 0 {
			portNext = 20000 + (os.Getpid()*397)%12000
		}
		portNext++
		if portNext > 32000 {
			portNext = 20000
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", portNext))
		if err == nil {
			l.Close()
			return portNext
		}
	}
}

var errSetup = errors.New("setup")

func modeP2P(s *Scenario, r *Rec, rng *rand.Rand) error {
	lagStart()
	var err error
	begin := time.Now()
	if !within(100*time.Second, func() { err = runP2P(s, r, rng) }) {
		r.Stall("hang", "what", "scenario")
	}
	if r.cfg == nil {
		r.cfg = M{"sure": lagSince(begin) < 200*time.Millisecond}
	}
	return err
}

func runP2P(s *Scenario, r *Rec, rng *rand.Rand) error {
	begin := time.Now()
	defer func() { r.cfg = M{"sure": lagSince(begin) < 200*time.Millisecond} }()
	names := []string{"a", "b", "c"}[:num(s.Cfg, "n", 3)]
	peers := map[string]*p2pPeer{}
	byId := map[string]string{}
	mk := func(nm string) error {
		p := &p2pPeer{name: nm, port: freePort(rng)}
		var err error
		if rng.Intn(2) == 0 {
			p.typ = "secp256k1"
			p.key, _, err = crypto.GenerateSecp256k1Key(rng)
		} else {
			p.typ = "ed25519"
			p.key, _, err = crypto.GenerateEd25519Key(rng)
		}
		if err != nil {
			return err
		}
		p.raw, _ = p.key.Raw()
		p.id, _ = peer.IDFromPublicKey(p.key.GetPublic())
		peers[nm] = p
		byId[p.id.String()] = nm
		return nil
	}
	for _, nm := range append(append([]string{}, names...), "r") {
		if err := mk(nm); err != nil {
			return err
		}
	}
	classes := map[string]string{} // content -> class
	var mu sync.Mutex
	seen := func(node string, o p2pOut) {
		mu.Lock()
		cls, ok := classes[o.Key]
		mu.Unlock()
		if !ok {
			cls = "?"
		}
		from := byId[o.From]
		if from == "" {
			from = "?"
		}
		r.Add("recv", "node", node, "proto", o.Proto, "from", from, "cls", cls)
	}
	spawn := func(p *p2pPeer) error {
		cmd := exec.Command(os.Args[0], "p2pnode", "-", "-", "0")
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			return err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		if err := cmd.Start(); err != nil {
			return err
		}
		done := make(chan struct{})
		waits := map[string]chan p2pOut{}
		for _, e := range []string{"made", "started", "startfail", "listening"} {
			waits[e] = make(chan p2pOut, 10)
		}
		p.mu.Lock()
		p.cmd, p.in, p.done, p.waits = cmd, in, done, waits
		p.mu.Unlock()
		go func() {
			sc := bufio.NewScanner(out)
			for sc.Scan() {
				var o p2pOut
				if json.Unmarshal(sc.Bytes(), &o) != nil {
					continue
				}
				switch o.E {
				case "recv":
					seen(p.name, o)
				case "wrote":
					if o.Err != "" {
						r.Note("write %s: %s", o.Id, o.Err)
					}
					r.Add("wrote", "id", o.Id, "ok", o.Err == "")
				default:
					waits[o.E] <- o
				}
			}
			err := cmd.Wait()
			p.mu.Lock()
			killed := p.cmd != cmd
			p.mu.Unlock()
			if !killed {
				r.Stall("crash", "node", p.name, "err", fmt.Sprint(err))
			}
			close(done)
		}()
		return nil
	}
	kill := func(p *p2pPeer) {
		p.mu.Lock()
		cmd, done := p.cmd, p.done
		p.cmd, p.in = nil, nil
		p.mu.Unlock()
		if cmd != nil {
			cmd.Process.Signal(syscall.SIGCONT)
			cmd.Process.Kill()
			<-done
		}
	}
	defer func() {
		for _, p := range peers {
			kill(p)
		}
	}()
	addrs := func(nm string, quiet bool) []string {
		l := []string{}
		for _, x := range append(append([]string{}, names...), "r") {
			if x != nm && !quiet {
				l = append(l, peers[x].addr())
			}
		}
		return l
	}
	// the peer without a connection manager
	var rh host.Host
	var rctx = context.Background()
	rawRecv := func(proto string) network.StreamHandler {
		return func(st network.Stream) {
			for {
				bz, err := p2p.ReadStreamWithBuffer(st)
				if err != nil {
					st.Reset()
					return
				}
				seen("r", p2pOut{E: "recv", Proto: proto, From: st.Conn().RemotePeer().String(), Key: contentKey(bz)})
			}
		}
	}
	rawUp := func() error {
		var err error
		rh, err = libp2p.New(libp2p.ListenAddrStrings(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", peers["r"].port)), libp2p.Identity(peers["r"].key))
		if err != nil {
			return err
		}
		for _, pr := range []string{"tss", "ping"} {
			rh.SetStreamHandler(protoId(pr), rawRecv(pr))
		}
		return nil
	}
	if err := rawUp(); err != nil {
		return fmt.Errorf("%w: raw: %v", errSetup, err)
	}
	defer func() {
		if rh != nil {
			rh.Close()
		}
	}()
	start := func(nm string, quiet bool, early []string) error {
		p := peers[nm]
		if err := spawn(p); err != nil {
			return err
		}
		p.send(p2pCmd{C: "new", Port: p.port, Peers: addrs(nm, quiet)})
		if _, ok := p.wait("made", 20*time.Second); !ok {
			return errSetup
		}
		for _, pr := range early {
			p.send(p2pCmd{C: "listen", Proto: pr})
			if _, ok := p.wait("listening", 20*time.Second); !ok {
				r.Stall("hang", "what", "listen")
			}
		}
		p.send(p2pCmd{C: "start", Key: hex.EncodeToString(p.raw), Type: p.typ})
		return nil
	}
	started := func(nm string) {
		p := peers[nm]
		if _, ok := p.wait("started", 60*time.Second); !ok {
			o, _ := p.wait("startfail", time.Millisecond)
			r.Stall("nostart", "node", nm, "err", o.Err)
		}
	}
	// Listeners that are registered before the start
	early := map[string][]string{}
	for _, x := range strs(s.Cfg, "early") {
		k := strings.Split(x, ":")
		early[k[0]] = append(early[k[0]], k[1])
	}
	for _, nm := range names {
		if err := start(nm, false, early[nm]); err != nil {
			return err
		}
	}
	for _, nm := range names {
		started(nm)
	}
	for _, nm := range append(append([]string{}, names...), "r") {
		r.Add("up", "node", nm)
	}
	for _, pr := range []string{"tss", "ping"} {
		r.Add("listen", "node", "r", "proto", pr)
	}
	for _, nm := range names {
		for _, pr := range early[nm] {
			r.Add("listen", "node", nm, "proto", pr)
		}
	}
	id := 0
	newMsg := func(from, to, proto string, size int) string {
		id++
		nm := fmt.Sprintf("%s.m%d", s.Name, id)
		k := contentKey(payload(nm, size))
		mu.Lock()
		cls := classes[k]
		if cls == "" {
			cls = nm
			classes[k] = nm
		}
		mu.Unlock()
		r.Add("send", "id", nm, "cls", cls, "from", from, "to", to, "proto", proto, "big", size > p2p.MaxPayload)
		return nm
	}
	rawStreams := map[string]network.Stream{}
	rawStream := func(to, proto string) (network.Stream, error) {
		if st := rawStreams[to+proto]; st != nil {
			return st, nil
		}
		ctx, cancel := context.WithTimeout(rctx, 10*time.Second)
		defer cancel()
		ai, err := peer.AddrInfoFromString(peers[to].addr())
		if err != nil {
			return nil, err
		}
		if err := rh.Connect(network.WithForceDirectDial(ctx, "verif"), *ai); err != nil {
			return nil, err
		}
		st, err := rh.NewStream(network.WithForceDirectDial(ctx, "verif"), peers[to].id, protoId(proto))
		if err == nil {
			rawStreams[to+proto] = st
		}
		return st, err
	}
	// pend returns the messages that were sent and have been neither received nor given up.
	lost := false
	settle := func() {
		if !waitFor(20*time.Second, func() bool { return unsettled(r) == 0 }) {
			atomic.AddInt32(&stalls, 1)
			lost = true
		}
		time.Sleep(30 * time.Millisecond)
		r.Add("settle")
	}
	lis := map[string]bool{}
	for _, nm := range names {
		for _, pr := range early[nm] {
			lis[nm+pr] = true
		}
	}
	for _, op := range s.Ops {
		if lost {
			return nil
		}
		nm := str(op, "node", "")
		switch str(op, "op", "") {
		case "listen":
			p := peers[nm]
			p.send(p2pCmd{C: "listen", Proto: str(op, "proto", "")})
			if _, ok := p.wait("listening", 20*time.Second); !ok {
				r.Stall("hang", "what", "listen")
				return nil
			}
			r.Add("listen", "node", nm, "proto", str(op, "proto", ""))
			lis[nm+str(op, "proto", "")] = true
		case "write":
			from, to := str(op, "from", ""), str(op, "to", "")
			k := num(op, "k", 1)
			for j := 0; j < k; j++ {
				m := newMsg(from, to, str(op, "proto", ""), num(op, "size", 0))
				peers[from].send(p2pCmd{C: "write", Id: m, To: peers[to].id.String(), Proto: str(op, "proto", ""), Size: num(op, "size", 0), Th: str(op, "th", "") + ":" + to})
			}
		case "raw":
			// A stream whose messages are split and merged
			to, pr := str(op, "to", ""), str(op, "proto", "")
			buf := &byteStream{failAt: -1}
			ids := []string{}
			for j := 0; j < num(op, "k", 1); j++ {
				m := newMsg("r", to, pr, num(op, "size", 0))
				ids = append(ids, m)
				p2p.WriteStreamWithBuffer(payload(m, num(op, "size", 0)), buf)
			}
			st, err := rawStream(to, pr)
			if err != nil {
				for _, m := range ids {
					r.Note("raw stream: %v", err)
					r.Add("wrote", "id", m, "ok", false)
				}
				break
			}
			pieces := ints(op, "pieces")
			if len(pieces) == 0 {
				pieces = []int{len(buf.buf)}
			}
			bz := buf.buf
			for i := 0; len(bz) > 0 && err == nil; i++ {
				n := pieces[i%len(pieces)]
				if n > len(bz) || i > 50 {
					n = len(bz)
				}
				st.SetWriteDeadline(time.Now().Add(10 * time.Second))
				_, err = st.Write(bz[:n])
				bz = bz[n:]
				if i%3 == 0 {
					time.Sleep(time.Duration(num(op, "ms", 0)) * time.Millisecond)
				}
			}
			for _, m := range ids {
				r.Add("wrote", "id", m, "ok", err == nil)
			}
			if err != nil {
				delete(rawStreams, to+pr)
			}
		case "junk":
			// A part of a message, or nonsense, on a stream that then ends: nothing of it arrives.
			to, pr := str(op, "to", ""), str(op, "proto", "")
			delete(rawStreams, to+pr)
			st, err := rawStream(to, pr)
			delete(rawStreams, to+pr)
			if err != nil {
				break
			}
			buf := &byteStream{failAt: -1}
			p2p.WriteStreamWithBuffer(payload("junk", 100), buf)
			switch str(op, "kind", "") {
			case "part":
				st.Write(buf.buf[:20])
			case "head":
				st.Write(buf.buf[:2])
			case "huge":
				st.Write([]byte{255, 255, 255, 255, 1, 2, 3})
			}
			time.Sleep(5 * time.Millisecond)
			switch rng.Intn(3) {
			case 0:
				st.Close()
			case 1:
				st.Reset()
			}
		case "rawdown":
			r.Add("down", "node", "r")
			rh.Close()
			rawStreams = map[string]network.Stream{}
			time.Sleep(300 * time.Millisecond)
		case "rawup":
			if err := rawUp(); err != nil {
				return fmt.Errorf("%w: raw: %v", errSetup, err)
			}
			r.Add("up", "node", "r")
			for _, pr := range []string{"tss", "ping"} {
				r.Add("listen", "node", "r", "proto", pr)
			}
		case "drop":
			// The peer ends the streams it has, but goes on.
			settle()
			for _, c := range rh.Network().ConnsToPeer(peers[nm].id) {
				for _, st := range c.GetStreams() {
					if st.Stat().Direction == network.DirInbound && (st.Protocol() == p2p.TSSProtocolID || st.Protocol() == p2p.PingProtocolID) {
						st.Reset()
					}
				}
			}
			time.Sleep(50 * time.Millisecond)
		case "kill":
			r.Add("down", "node", nm)
			kill(peers[nm])
			delete(lis, nm+"tss")
			delete(lis, nm+"ping")
			for k := range rawStreams {
				if strings.HasPrefix(k, nm) {
					delete(rawStreams, k)
				}
			}
			time.Sleep(300 * time.Millisecond)
		case "restart":
			quiet, _ := op["quiet"].(bool)
			l := strs(op, "early")
			if err := start(nm, quiet, l); err != nil {
				return err
			}
			started(nm)
			r.Add("up", "node", nm)
			for _, pr := range l {
				r.Add("listen", "node", nm, "proto", pr)
				lis[nm+pr] = true
			}
			if quiet {
				r.Add("quiet", "node", nm)
			}
		case "stop":
			r.Add("down", "node", nm)
			peers[nm].cmd.Process.Signal(syscall.SIGSTOP)
		case "cont":
			peers[nm].cmd.Process.Signal(syscall.SIGCONT)
			time.Sleep(20 * time.Millisecond)
			r.Add("up", "node", nm)
			for _, pr := range []string{"tss", "ping"} {
				if lis[nm+pr] {
					r.Add("listen", "node", nm, "proto", pr)
				}
			}
		case "settle":
			settle()
		case "sleep":
			time.Sleep(time.Duration(num(op, "ms", 10)) * time.Millisecond)
		}
	}
	settle()
	r.Add("end")
	return nil
}

// unsettled computes, from the events so far, how many messages still have to arrive or to be written.
func unsettled(r *Rec) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	type fl struct {
		cls, from, to, proto string
		must, sure, wrote    bool
	}
	up, lis := map[string]bool{}, map[string]bool{}
	fly := []*fl{}
	byId := map[string]*fl{}
	for _, e := range r.ev {
		switch e["e"] {
		case "up":
			up[e["node"].(string)] = true
		case "down":
			nd := e["node"].(string)
			up[nd] = false
			for _, pr := range []string{"tss", "ping"} {
				delete(lis, nd+pr)
			}
			for _, f := range fly {
				if f.to == nd || f.from == nd {
					f.must, f.sure = false, false
				}
			}
		case "listen":
			lis[e["node"].(string)+e["proto"].(string)] = true
		case "send":
			f := &fl{cls: e["cls"].(string), from: e["from"].(string), to: e["to"].(string), proto: e["proto"].(string)}
			f.sure = up[f.to] && up[f.from] && !e["big"].(bool)
			f.must = f.sure && lis[f.to+f.proto]
			fly = append(fly, f)
			byId[e["id"].(string)] = f
		case "wrote":
			byId[e["id"].(string)].wrote = true
		case "recv":
			for i, f := range fly {
				if f.cls == e["cls"] && f.to == e["node"] && f.from == e["from"] && f.proto == e["proto"] && f.must {
					fly = append(append([]*fl{}, fly[:i]...), fly[i+1:]...)
					break
				}
			}
		}
	}
	n := 0
	for _, f := range fly {
		if f.must {
			n++
		}
	}
	for _, f := range byId {
		if f.sure && !f.wrote {
			n++
		}
	}
	return n
}
