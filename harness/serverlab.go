package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/storage"
)

// ---------- whole requests on complete nodes ----------

// opRes is what one node returned for a request.
type opRes struct {
	called bool
	back   bool
	gen    keygen.Response
	sig    keysign.Response
	err    error
	wall   time.Duration
	start  time.Time
}

// together gives a request to the nodes in delay (node -> when); limit is how long any may take.
func together(c *Ctx, ss []*srv, desc string, limit time.Duration, delay map[int]time.Duration, call func(i int, o *opRes)) []*opRes {
	out := make([]*opRes, len(ss))
	for i := range out {
		out[i] = &opRes{}
	}
	ok := Within(limit, func() {
		var wg sync.WaitGroup
		for i, d := range delay {
			i, d := i, d
			out[i].called = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(d)
				o := out[i]
				o.start = time.Now()
				c.Guard("panic", fmt.Sprintf("%s: node %d", desc, i), func() { call(i, o) })
				o.wall = time.Since(o.start)
				o.back = true
			}()
		}
		wg.Wait()
	})
	if !ok {
		c.Violate("stuck", "%s: a request does not return within %v\n%s", desc, limit, allStacks())
	}
	return out
}

func b64s(msgs [][]byte) []string {
	var out []string
	for _, m := range msgs {
		out = append(out, base64.StdEncoding.EncodeToString(m))
	}
	return out
}

// sigKeys is a comparable form of a set of signatures.
func sigKeys(l []keysign.Signature) string {
	var s []string
	for _, x := range l {
		s = append(s, strings.Join([]string{x.Msg, x.R, x.S, x.RecoveryID}, "/"))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// judgeSigs compares a successful response with the request.
func judgeSigs(l []keysign.Signature, msgs []string, pool *Pool) string {
	if len(l) != len(msgs) {
		return fmt.Sprintf("%d signatures for %d messages", len(l), len(msgs))
	}
	want := map[string]int{}
	for _, m := range msgs {
		want[m]++
	}
	for _, x := range l {
		want[x.Msg]--
		if want[x.Msg] < 0 {
			return fmt.Sprintf("a signature labelled with message %q that was not requested (so often)", x.Msg)
		}
		m, e1 := base64.StdEncoding.DecodeString(x.Msg)
		rb, e2 := base64.StdEncoding.DecodeString(x.R)
		sb, e3 := base64.StdEncoding.DecodeString(x.S)
		rec, e4 := base64.StdEncoding.DecodeString(x.RecoveryID)
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			return fmt.Sprintf("a signature that is not base64: %v", x)
		}
		if bad := verifyRSV(rb, sb, rec, m, pool.X, pool.Y); bad != "" {
			return fmt.Sprintf("message %x: %s", m, bad)
		}
	}
	return ""
}

// serverSignLab: signing requests given to complete nodes.
func serverSignLab(c *Ctx) {
	g := c.N(3, 10)
	c.Parallel(g, 3, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("serversign", i)
		n := 3 + i%3
		nodes := randNodes(r, n)
		pool := dealKey(r, nodes, thresholdOf(n))
		conf := common.TssConfig{PartyTimeout: 12 * time.Second, KeyGenTimeout: 40 * time.Second, KeySignTimeout: 40 * time.Second, PreParamTimeout: time.Second}
		ss, err := startGroup(c, fmt.Sprintf("sign%d", i), nodes, conf, pool)
		defer stopGroup(ss)
		if err != nil {
			c.Inconclusive("cannot start a node: %v", err)
			return
		}
		for k := 0; k < c.N(4, 8) && !c.Violated(); k++ {
			serverSign(c, r, ss, pool, k)
		}
	})
	c.Require("requests to complete nodes", int64(3*g))
}

func serverSign(c *Ctx, r *rand.Rand, ss []*srv, pool *Pool, k int) {
	n := len(ss)
	leaderless := k%2 == 0
	version := "0.14.0"
	signers := append([]*Node(nil), pool.Nodes...)
	delay := map[int]time.Duration{}
	for i := range ss {
		delay[i] = time.Duration(r.Intn(150)) * time.Millisecond
	}
	if leaderless {
		version = "0.13.0"
		m := pool.T + 1 + r.Intn(n-pool.T)
		if m > n {
			m = n
		}
		p := r.Perm(n)
		signers = nil
		for _, i := range p[:m] {
			signers = append(signers, pool.Nodes[i])
			delay[i] = time.Duration(r.Intn(2000)) * time.Millisecond
		}
	}
	var msgs [][]byte
	for m := 1 + r.Intn(3); m > 0; m-- {
		msgs = append(msgs, randMessage(r, msgs))
	}
	req := b64s(msgs)
	height := int64(1 + r.Intn(100000))
	desc := fmt.Sprintf("%d of %d signers, version %s, %d messages", len(signers), n, version, len(req))
	var orders [][2][]string
	for range ss {
		orders = append(orders, [2][]string{shuffled(r, req), shuffled(r, bechs(signers))})
	}
	res := together(c, ss, desc, 120*time.Second, delay, func(i int, o *opRes) {
		o.sig, o.err = ss[i].KeySign(keysign.NewRequest(pool.Bech, append([]string(nil), orders[i][0]...), height, append([]string(nil), orders[i][1]...), version))
	})
	first := ""
	for i, o := range res {
		if !o.back {
			continue
		}
		if o.err != nil || o.sig.Status != common.Success {
			c.Violate("server-honest-failure", "%s: everybody honest and connected, node %d: status %v err %v blame %v (after %v)", desc, i, o.sig.Status, o.err, o.sig.Blame, o.wall)
			continue
		}
		if len(o.sig.Blame.BlameNodes) > 0 {
			c.Violate("server-honest-blame", "%s: node %d blames %v", desc, i, o.sig.Blame)
		}
		if bad := judgeSigs(o.sig.Signatures, req, pool); bad != "" {
			c.Violate("server-signature", "%s: node %d: %s", desc, i, bad)
		}
		if s := sigKeys(o.sig.Signatures); first == "" {
			first = s
		} else if s != first {
			c.Violate("server-different", "%s: node %d returns other signatures than another one", desc, i)
		}
	}
	c.Count("requests to complete nodes", 1)
	c.Sample("server", "%s: %s", desc, first)
	c.Case("server "+desc+first, true)
}

// serverKeygenLab: key generation requests given to complete nodes.
func serverKeygenLab(c *Ctx) {
	g := c.N(2, 8)
	c.Parallel(g, 2, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("servergen", i)
		n := 3 + i%2
		nodes := randNodes(r, n)
		conf := common.TssConfig{PartyTimeout: 12 * time.Second, KeyGenTimeout: 60 * time.Second, KeySignTimeout: 40 * time.Second, PreParamTimeout: time.Second}
		ss, err := startGroup(c, fmt.Sprintf("gen%d", i), nodes, conf, nil)
		defer stopGroup(ss)
		if err != nil {
			c.Inconclusive("cannot start a node: %v", err)
			return
		}
		for k := 0; k < 2 && !c.Violated(); k++ {
			serverKeygen(c, r, ss, nodes, k)
		}
	})
	c.Require("generations on complete nodes", int64(g))
}

func serverKeygen(c *Ctx, r *rand.Rand, ss []*srv, nodes []*Node, k int) {
	version := []string{"0.14.0", "0.13.0"}[k%2]
	delay := map[int]time.Duration{}
	var orders [][]string
	for i := range ss {
		delay[i] = time.Duration(r.Intn(300)) * time.Millisecond
		orders = append(orders, shuffled(r, bechs(nodes)))
	}
	height := int64(1 + r.Intn(100000))
	desc := fmt.Sprintf("key generation of %d complete nodes, version %s", len(ss), version)
	res := together(c, ss, desc, 150*time.Second, delay, func(i int, o *opRes) {
		o.gen, o.err = ss[i].Keygen(keygen.NewRequest(append([]string(nil), orders[i]...), height, version))
	})
	pub := ""
	var recs []storage.KeygenLocalState
	for i, o := range res {
		if !o.back {
			continue
		}
		if o.err != nil || o.gen.Status != common.Success {
			c.Violate("server-honest-failure", "%s: everybody honest and connected, node %d: status %v err %v blame %v (after %v)", desc, i, o.gen.Status, o.err, o.gen.Blame, o.wall)
			return
		}
		if len(o.gen.Blame.BlameNodes) > 0 {
			c.Violate("server-honest-blame", "%s: node %d blames %v", desc, i, o.gen.Blame)
		}
		if pub == "" {
			pub = o.gen.PubKey
		}
		if o.gen.PubKey != pub {
			c.Violate("server-disagreement", "%s: nodes report pool keys %s and %s", desc, pub, o.gen.PubKey)
		}
		x, y, ok := pointOf(o.gen.PubKey)
		if !ok {
			c.Violate("server-key", "%s: node %d reports pool key %q", desc, i, o.gen.PubKey)
			return
		}
		if _, a, err := bech32.DecodeAndConvert(o.gen.PoolAddress); err != nil || hex.EncodeToString(a) != hexAddrOf(x, y) {
			c.Violate("server-address", "%s: node %d reports address %s for pool key %s, expected the address of %s", desc, i, o.gen.PoolAddress, o.gen.PubKey, hexAddrOf(x, y))
		}
		// the record must be there, in a file, as the request returns
		sm, err := storage.NewFileStateMgr(ss[i].dir)
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		rec, err := sm.GetLocalState(o.gen.PubKey)
		if err != nil || rec.PubKey != o.gen.PubKey || rec.LocalPartyKey != nodes[i].Bech || !sameStrings(rec.ParticipantKeys, bechs(nodes)) || rec.LocalData.Xi == nil {
			c.Violate("server-stored", "%s: node %d: stored record %s %s %v (err %v)", desc, i, rec.PubKey, rec.LocalPartyKey, rec.ParticipantKeys, err)
			return
		}
		recs = append(recs, rec)
		files, _ := filepath.Glob(filepath.Join(ss[i].dir, "localstate-*"))
		if len(files) != k+1 {
			c.Violate("server-stored", "%s: node %d has %d share files after %d key generations", desc, i, len(files), k+1)
		}
	}
	x, y, _ := pointOf(pub)
	for try := 0; try < 3 && len(recs) == len(ss); try++ {
		var sub []storage.KeygenLocalState
		for _, i := range r.Perm(len(recs))[:thresholdOf(len(ss))+1] {
			sub = append(sub, recs[i])
		}
		gx, gy := btcec.S256().ScalarBaseMult(combine(sub).Bytes())
		if gx.Cmp(x) != 0 || gy.Cmp(y) != 0 {
			c.Violate("server-recover", "%s: shares do not combine to the reported key", desc)
		}
	}
	c.Count("generations on complete nodes", 1)
	c.Case(desc+pub, true)
}

// pointOf decodes a public key without the code under test.
func pointOf(bech string) (x, y *big.Int, ok bool) {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, bech)
	if err != nil {
		return nil, nil, false
	}
	k, is := pk.(*coskey.PubKey)
	if !is {
		return nil, nil, false
	}
	p, err := btcec.ParsePubKey(k.Key, btcec.S256())
	if err != nil {
		return nil, nil, false
	}
	return p.X, p.Y, true
}
