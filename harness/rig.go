package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
)

// ---------------------------------------------------------------- identities

type Ident struct {
	Idx  int
	Key  ctypes.PrivKey
	Node *core.Node
}

var allIdents []*Ident
var identsOnce sync.Once

// idents returns n identities, sorted by party id (as core.NewNodes does).
func idents(n int) []*Ident {
	identsOnce.Do(func() {
		for _, h := range worker.PRIVATE_KEY_HEX {
			bz, _ := hex.DecodeString(h)
			k := &secp256k1.PrivKey{Key: bz}
			allIdents = append(allIdents, &Ident{Key: k, Node: core.NewNode(k.PubKey())})
		}
	})
	ids := make([]*Ident, n)
	for i := 0; i < n; i++ {
		c := *allIdents[i]
		nd := core.NewNode(c.Key.PubKey())
		c.Node = nd
		ids[i] = &c
	}
	sort.SliceStable(ids, func(i, j int) bool {
		return ids[i].Node.PartyId.KeyInt().Cmp(ids[j].Node.PartyId.KeyInt()) < 0
	})
	for i := range ids {
		ids[i].Idx = i
	}
	return ids
}

// fixtureIdents: the identities that the fixtures of /repo/data belong to (worker.GetTestPartyIds order).
func fixtureIdents(n int) []*Ident {
	pids := worker.GetTestPartyIds(n)
	all := idents(len(worker.PRIVATE_KEY_HEX))
	ids := []*Ident{}
	for _, id := range all {
		for _, p := range pids {
			if p.Id == id.Node.PeerId.String() {
				c := *id
				ids = append(ids, &c)
			}
		}
	}
	if len(ids) != n {
		panic("fixture identities")
	}
	for i := range ids {
		ids[i].Idx = i
	}
	return ids
}

func pidsOf(ids []*Ident) tss.SortedPartyIDs {
	ps := make([]*tss.PartyID, len(ids))
	for i, id := range ids {
		p := id.Node.PartyId
		ps[i] = tss.NewPartyID(p.Id, p.Moniker, p.KeyInt())
	}
	return tss.SortPartyIDs(ps)
}

func strangerIdent(k int) *Ident {
	bz := make([]byte, 32)
	for i := range bz {
		bz[i] = byte(7*i + 11 + k)
	}
	key := &secp256k1.PrivKey{Key: bz}
	return &Ident{Idx: 100 + k, Key: key, Node: core.NewNode(key.PubKey())}
}

// ---------------------------------------------------------------- fakes of the environment

// FakeDB is a faithful in-memory database with injectable errors.
type FakeDB struct {
	db.Database // nil: a call to a method this fake does not model crashes the harness, not the check

	mu       sync.Mutex
	rec      *Rec
	node     int
	preparam *keygen.LocalPreParams
	ecKeys   map[string]*keygen.LocalPartySaveData
	edKeys   map[string]*edkeygen.LocalPartySaveData
	order    []string
	status   map[string]string
	pids     map[string]string
	presigns map[string]*ecsigning.SignatureData_OneRoundData
	failKey  bool // SaveEcKeygen/SaveEdKeygen fail
	failPre  bool // LoadPreparams fails
	failMark bool
	failLoad bool
	onMark   func([]string) error
	saveHook func(kind, workId string)
}

func newFakeDB() *FakeDB {
	return &FakeDB{ecKeys: map[string]*keygen.LocalPartySaveData{}, edKeys: map[string]*edkeygen.LocalPartySaveData{},
		status: map[string]string{}, pids: map[string]string{}, presigns: map[string]*ecsigning.SignatureData_OneRoundData{}}
}

var errInjected = errors.New("injected database error")

func (d *FakeDB) Init() error  { return nil }
func (d *FakeDB) Close() error { return nil }
func (d *FakeDB) SavePreparams(p *keygen.LocalPreParams) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.preparam = p
	return nil
}
func (d *FakeDB) LoadPreparams() (*keygen.LocalPreParams, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.failPre {
		return nil, errInjected
	}
	if d.preparam == nil {
		return nil, db.ErrNotFound
	}
	return d.preparam, nil
}
func (d *FakeDB) SaveEcKeygen(keyType string, workId string, pids []*tss.PartyID, o *keygen.LocalPartySaveData) error {
	if d.saveHook != nil {
		d.saveHook("ec", workId)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.failKey {
		return errInjected
	}
	d.ecKeys[keyType] = o
	if d.rec != nil {
		d.rec.Add("saved", "node", d.node, "id", workId)
	}
	return nil
}
func (d *FakeDB) LoadEcKeygen(keyType string) (*keygen.LocalPartySaveData, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.ecKeys[keyType], nil
}
func (d *FakeDB) SaveEdKeygen(keyType string, workId string, pids []*tss.PartyID, o *edkeygen.LocalPartySaveData) error {
	if d.saveHook != nil {
		d.saveHook("ed", workId)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.failKey {
		return errInjected
	}
	d.edKeys[keyType] = o
	if d.rec != nil {
		d.rec.Add("saved", "node", d.node, "id", workId)
	}
	return nil
}
func (d *FakeDB) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.edKeys[keyType], nil
}
func (d *FakeDB) SavePresignData(workId string, pids []*tss.PartyID, os []*ecsigning.SignatureData_OneRoundData) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i, o := range os {
		id := fmt.Sprintf("%s-%d", workId, i)
		if _, ok := d.status[id]; ok {
			return errors.New("duplicate")
		}
		d.order = append(d.order, id)
		d.status[id] = db.PresignStatusNotUsed
		d.pids[id] = sortedIdString(pids)
		d.presigns[id] = o
	}
	return nil
}
func sortedIdString(pids []*tss.PartyID) string {
	a := []string{}
	for _, p := range pids {
		a = append(a, p.Id)
	}
	sort.Strings(a)
	s := ""
	for i, x := range a {
		if i > 0 {
			s += ","
		}
		s += x
	}
	return s
}
func (d *FakeDB) GetAvailablePresignShortForm() ([]string, []string, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	a, b := []string{}, []string{}
	for _, id := range d.order {
		if d.status[id] == db.PresignStatusNotUsed {
			a = append(a, id)
			b = append(b, d.pids[id])
		}
	}
	return a, b, nil
}
func (d *FakeDB) LoadPresign(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.failLoad {
		return nil, errInjected
	}
	r := []*ecsigning.SignatureData_OneRoundData{}
	for _, id := range ids {
		o, ok := d.presigns[id]
		if !ok {
			return nil, db.ErrNotFound
		}
		r = append(r, o)
	}
	return r, nil
}
func (d *FakeDB) LoadPresignStatus(ids []string) ([]string, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := []string{}
	for _, id := range ids {
		s, ok := d.status[id]
		if !ok {
			return nil, db.ErrNotFound
		}
		r = append(r, s)
	}
	return r, nil
}

// UpdatePresignStatus marks presigns as used: all of them, or none and an error if one is missing or already used.
func (d *FakeDB) UpdatePresignStatus(ids []string) error {
	if d.onMark != nil {
		if err := d.onMark(ids); err != nil {
			return err
		}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.failMark {
		return errInjected
	}
	seen := map[string]bool{}
	for _, id := range ids {
		if d.status[id] != db.PresignStatusNotUsed || seen[id] {
			return errors.New("presign not available")
		}
		seen[id] = true
	}
	for _, id := range ids {
		d.status[id] = db.PresignStatusUsed
	}
	return nil
}
func (d *FakeDB) SavePeers([]*p2ptypes.Peer) error { return nil }
func (d *FakeDB) LoadPeers() []*p2ptypes.Peer      { return nil }

// FakeCM is the network seen by one node.
type FakeCM struct {
	p2p.ConnectionManager
	net *Net
	idx int
}

func (c *FakeCM) Start([]byte, string) error                              { return nil }
func (c *FakeCM) AddListener(protocol.ID, p2p.P2PDataListener)            {}
func (c *FakeCM) IsReady() bool                                           { return true }
func (c *FakeCM) WriteToStream(to peer.ID, _ protocol.ID, m []byte) error { c.net.send(c.idx, to, m); return nil }

// ---------------------------------------------------------------- a network of real engines and puppets

type Sent struct {
	From, To int
	Raw      []byte
	Signed   *common.SignedMessage
	Tss      *common.TssMessage
}

type Net struct {
	ids     []*Ident
	engines []core.Engine // nil for puppets
	dbs     []*FakeDB
	rec     *Rec
	byPeer  map[string]int

	mu     sync.Mutex
	closed bool
	// policy decides about a transmission; it returns the delays after which it is delivered (none: lost).
	policy func(s *Sent) []time.Duration
	// puppet is called for messages addressed to a puppet.
	puppet func(s *Sent)
	onSend func(s *Sent)

	inflight sync.WaitGroup
	hung     map[string]bool
}

type EngCB struct {
	net *Net
	idx int
	rec *Rec
	// hooks
	keygen  func(idx int, r *htypes.KeygenResult)
	signing func(idx int, req *types.WorkRequest, r *htypes.KeysignResult)
	failed  func(idx int, req *types.WorkRequest)
}

func (c *EngCB) OnWorkKeygenFinished(r *htypes.KeygenResult) {
	if c.keygen != nil {
		c.keygen(c.idx, r)
	}
}
func (c *EngCB) OnWorkSigningFinished(req *types.WorkRequest, r *htypes.KeysignResult) {
	if c.signing != nil {
		c.signing(c.idx, req, r)
	}
}
func (c *EngCB) OnWorkFailed(req *types.WorkRequest, culprits []*tss.PartyID) {
	if c.failed != nil {
		c.failed(c.idx, req)
	}
}

func timeouts(leader, member, job, monitor time.Duration) config.TimeoutConfig {
	c := config.NewDefaultTimeoutConfig()
	c.SelectionLeaderTimeout = leader
	c.SelectionMemberTimeout = member
	c.KeygenJobTimeout = job
	c.SigningJobTimeout = job
	c.PresignJobTimeout = job
	c.MonitorMessageTimeout = monitor
	return c
}

// newNet creates engines for the nodes in real (others are puppets), all knowing each other.
func newNet(ids []*Ident, real []int, rec *Rec, cfg config.TimeoutConfig, cb func(i int) *EngCB) *Net {
	n := &Net{ids: ids, rec: rec, byPeer: map[string]int{}, engines: make([]core.Engine, len(ids)),
		dbs: make([]*FakeDB, len(ids)), hung: map[string]bool{}}
	nodes := []*core.Node{}
	for i, id := range ids {
		n.byPeer[id.Node.PeerId.String()] = i
		nodes = append(nodes, id.Node)
	}
	for _, i := range real {
		n.dbs[i] = newFakeDB()
		n.dbs[i].node = i
		c := cb(i)
		c.net, c.idx, c.rec = n, i, rec
		me := *ids[i].Node
		n.engines[i] = core.NewEngine(&me, &FakeCM{net: n, idx: i}, n.dbs[i], c, ids[i].Key, cfg)
		n.engines[i].AddNodes(nodes)
	}
	return n
}

func (n *Net) send(from int, to peer.ID, raw []byte) {
	n.mu.Lock()
	if n.closed {
		n.mu.Unlock()
		return
	}
	n.mu.Unlock()
	ti, ok := n.byPeer[to.String()]
	if !ok {
		ti = -1
	}
	s := &Sent{From: from, To: ti, Raw: append([]byte{}, raw...)}
	sm := &common.SignedMessage{}
	if err := json.Unmarshal(raw, sm); err == nil {
		s.Signed = sm
		s.Tss = sm.TssMessage
	}
	if n.onSend != nil {
		n.onSend(s)
	}
	if ti < 0 {
		return
	}
	if n.engines[ti] == nil {
		if n.puppet != nil {
			n.puppet(s)
		}
		return
	}
	delays := []time.Duration{0}
	if n.policy != nil {
		delays = n.policy(s)
	}
	for _, d := range delays {
		d := d
		go func() {
			if d > 0 {
				time.Sleep(d)
			}
			n.deliver(s.From, ti, s.Raw)
		}()
	}
}

// deliver hands bytes to a real engine as if they came from peer `from`.
func (n *Net) deliver(from, to int, raw []byte) {
	n.mu.Lock()
	if n.closed {
		n.mu.Unlock()
		return
	}
	n.mu.Unlock()
	n.engines[to].OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: n.ids[from].Node.PeerId.String(), Data: raw})
}

func (n *Net) Close() { n.mu.Lock(); n.closed = true; n.mu.Unlock() }

// signAs builds the network form of a message as identity id would.
func signAs(id *Ident, m *common.TssMessage) []byte {
	ser, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	sig, err := id.Key.Sign(ser)
	if err != nil {
		panic(err)
	}
	bz, err := json.Marshal(&common.SignedMessage{From: id.Node.PartyId.Id, TssMessage: m, Signature: sig})
	if err != nil {
		panic(err)
	}
	return bz
}

// inject delivers message m, signed by its sender, to engine `to`.
func (n *Net) inject(from, to int, m *common.TssMessage) { n.deliver(from, to, signAs(n.ids[from], m)) }

func (n *Net) pid(i int) string { return n.ids[i].Node.PartyId.Id }

// ---------------------------------------------------------------- requests

var ecFix, edFix sync.Map

func ecShares(n int) []*keygen.LocalPartySaveData {
	if v, ok := ecFix.Load(n); ok {
		return v.([]*keygen.LocalPartySaveData)
	}
	v := worker.LoadEcKeygenSavedData(worker.GetTestPartyIds(n))
	ecFix.Store(n, v)
	return v
}

func edShares(n int) []*edkeygen.LocalPartySaveData {
	if v, ok := edFix.Load(n); ok {
		return v.([]*edkeygen.LocalPartySaveData)
	}
	v := worker.LoadEdKeygenSavedData(worker.GetTestPartyIds(n))
	edFix.Store(n, v)
	return v
}

func randMsg(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	if n > 0 && b[0] == 0 {
		b[0] = 1
	}
	return b
}

// request builds a request of the given type as node idx (of the fixture identities) would.
func request(typ, workId string, n, idx, threshold int, msgs [][]byte) *types.WorkRequest {
	pids := worker.GetTestPartyIds(n)
	chains := make([]string, len(msgs))
	for i := range chains {
		chains[i] = "chain"
	}
	switch typ {
	case "eckeygen":
		return types.NewEcKeygenRequest("ecdsa", workId, pids, threshold, worker.LoadEcPreparams(idx))
	case "edkeygen":
		return types.NewEdKeygenRequest(workId, pids, threshold)
	case "ecsign":
		return types.NewEcSigningRequest(workId, pids, threshold, msgs, chains, ecShares(n)[idx])
	case "edsign":
		return types.NewEdSigningRequest(workId, pids, threshold, msgs, chains, edShares(n)[idx])
	}
	panic("type " + typ)
}

// workIdFor finds a work id with the given prefix whose leader is (or is not) identity idx.
func workIdFor(prefix string, pids tss.SortedPartyIDs, leader func(id string) bool) string {
	for i := 0; ; i++ {
		w := fmt.Sprintf("%s%d", prefix, i)
		if leader(worker.ChooseLeader(w, pids).Id) {
			return w
		}
		if i > 5000 {
			return w
		}
	}
}

var _ = big.NewInt
