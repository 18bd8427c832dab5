package main

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"sync"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/worker"
)

// Key material for the scenarios, produced by the protocol library directly, without code of dheart.

func copyPids(ps []*tss.PartyID) tss.SortedPartyIDs {
	r := make([]*tss.PartyID, len(ps))
	for i, p := range ps {
		r[i] = tss.NewPartyID(p.Id, p.Moniker, p.KeyInt())
	}
	return tss.SortPartyIDs(r)
}

// runLocal runs parties to their end.  done reports how many parties have ended.
func runLocal(parties []tss.Party, out chan tss.Message, done func() int) error {
	for _, p := range parties {
		p := p
		go p.Start()
	}
	end := time.Now().Add(120 * time.Second)
	for done() < len(parties) {
		select {
		case m := <-out:
			for _, p := range parties {
				if p.PartyID().Id == m.GetFrom().Id {
					continue
				}
				if to := m.GetTo(); to != nil && to[0].Id != p.PartyID().Id {
					continue
				}
				bz, _, _ := m.WireBytes()
				pm, err := tss.ParseWireMessage(bz, m.GetFrom(), m.IsBroadcast())
				if err != nil {
					return err
				}
				go p.Update(pm)
			}
		case <-time.After(5 * time.Millisecond):
		}
		if time.Now().After(end) {
			return fmt.Errorf("local protocol run did not end")
		}
	}
	return nil
}

var edCache, ecPreCache sync.Map
var cryptoMu sync.Mutex

// edKeys runs an eddsa key generation of n fixture parties with threshold t.
func edKeys(n, t int) []*edkeygen.LocalPartySaveData {
	cryptoMu.Lock()
	defer cryptoMu.Unlock()
	key := fmt.Sprintf("%d/%d", n, t)
	if v, ok := edCache.Load(key); ok {
		return v.([]*edkeygen.LocalPartySaveData)
	}
	pids := copyPids(worker.GetTestPartyIds(n))
	ctx := tss.NewPeerContext(pids)
	out := make(chan tss.Message, 1000)
	ends := make([]chan edkeygen.LocalPartySaveData, n)
	ps := []tss.Party{}
	res := make([]*edkeygen.LocalPartySaveData, n)
	for i := range pids {
		ends[i] = make(chan edkeygen.LocalPartySaveData, n)
		ps = append(ps, edkeygen.NewLocalParty(tss.NewParameters(ctx, pids[i], n, t), out, ends[i]))
	}
	err := runLocal(ps, out, func() int {
		c := 0
		for i := range ends {
			if res[i] == nil {
				select {
				case d := <-ends[i]:
					c := d
					res[i] = &c
				default:
				}
			}
			if res[i] != nil {
				c++
			}
		}
		return c
	})
	if err != nil {
		panic(err)
	}
	edCache.Store(key, res)
	return res
}

// ecPresigns runs the presigning of the parties with the given indexes among n fixture parties, by index.
func ecPresigns(n int, idx []int) map[int]*ecsigning.SignatureData_OneRoundData {
	cryptoMu.Lock()
	defer cryptoMu.Unlock()
	key := fmt.Sprint(n, idx)
	if v, ok := ecPreCache.Load(key); ok {
		return v.(map[int]*ecsigning.SignatureData_OneRoundData)
	}
	shares := ecShares(n)
	all := worker.GetTestPartyIds(n)
	sel := []*tss.PartyID{}
	for _, i := range idx {
		sel = append(sel, all[i])
	}
	pids := copyPids(sel)
	ctx := tss.NewPeerContext(pids)
	out := make(chan tss.Message, 1000)
	ends := make([]chan *ecsigning.SignatureData, len(idx))
	ps := []tss.Party{}
	res := map[int]*ecsigning.SignatureData_OneRoundData{}
	for k, i := range idx {
		ends[k] = make(chan *ecsigning.SignatureData, n)
		ps = append(ps, ecsigning.NewLocalParty(nil, tss.NewParameters(ctx, pids[k], len(idx), len(idx)-1), *shares[i], nil, out, ends[k]))
	}
	err := runLocal(ps, out, func() int {
		for k, i := range idx {
			if res[i] == nil {
				select {
				case d := <-ends[k]:
					res[i] = d.OneRoundData
				default:
				}
			}
		}
		return len(res)
	})
	if err != nil {
		panic(err)
	}
	ecPreCache.Store(key, res)
	return res
}

// validSig verifies a signature over exactly msg under the generated key, with implementations of the standard library
// and of edwards25519.
func validEc(share *eckeygen.LocalPartySaveData, msg []byte, r, s []byte) bool {
	pk := ecdsa.PublicKey{Curve: tss.EC(tss.EcdsaScheme), X: share.ECDSAPub.X(), Y: share.ECDSAPub.Y()}
	return ecdsa.Verify(&pk, msg, new(big.Int).SetBytes(r), new(big.Int).SetBytes(s))
}

func validEd(share *edkeygen.LocalPartySaveData, msg []byte, sig []byte) bool {
	s, err := edwards.ParseSignature(sig)
	if err != nil {
		return false
	}
	return s.Verify(msg, edwards.NewPublicKey(share.EDDSAPub.X(), share.EDDSAPub.Y()))
}

func digest(bs ...[]byte) string {
	h := sha256.New()
	for _, b := range bs {
		h.Write([]byte{byte(len(b) >> 8), byte(len(b))})
		h.Write(b)
	}
	return hex.EncodeToString(h.Sum(nil)[:6])
}
