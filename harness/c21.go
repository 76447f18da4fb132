package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	"github.com/btcsuite/btcd/btcec"
	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { register("C21", checkC21) }

func pad32(b []byte) []byte {
	o := make([]byte, 32)
	copy(o[32-len(b):], b)
	return o
}

// signWith signs the message with the private key d.
func ecdsaSign(r *rand.Rand, d *big.Int, msg []byte) *tsslibcommon.ECSignature {
	c := btcec.S256()
	for {
		k := new(big.Int).Mod(new(big.Int).SetBytes(randBytes(r, 40)), c.N)
		if k.Sign() == 0 {
			continue
		}
		x, y := c.ScalarBaseMult(k.Bytes())
		rr := new(big.Int).Mod(x, c.N)
		s := new(big.Int).Mul(rr, d)
		s.Add(s, hashInt(msg))
		s.Mul(s, new(big.Int).ModInverse(k, c.N))
		s.Mod(s, c.N)
		if rr.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		rec := byte(y.Bit(0))
		if x.Cmp(c.N) >= 0 {
			rec |= 2
		}
		if s.Cmp(new(big.Int).Rsh(c.N, 1)) > 0 {
			s.Sub(c.N, s)
			rec ^= 1
		}
		R, S := pad32(rr.Bytes()), pad32(s.Bytes())
		return &tsslibcommon.ECSignature{Signature: append(append([]byte{}, R...), S...), SignatureRecovery: []byte{rec}, R: R, S: S, M: msg}
	}
}

func sigSet(id string, status messages.KeysignSignature_Status, sigs []*tsslibcommon.ECSignature) []byte {
	m := &messages.KeysignSignature{ID: id, KeysignStatus: status}
	for _, s := range sigs {
		b, err := proto.Marshal(s)
		if err != nil {
			panic(err)
		}
		m.Signatures = append(m.Signatures, b)
	}
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func cloneSigs(in []*tsslibcommon.ECSignature) []*tsslibcommon.ECSignature {
	var out []*tsslibcommon.ECSignature
	for _, s := range in {
		out = append(out, proto.Clone(s).(*tsslibcommon.ECSignature))
	}
	return out
}

type sigSession struct {
	id    string
	msgs  [][]byte
	valid []*tsslibcommon.ECSignature
}

// hostileSet makes the bytes of a set that must not be accepted for the session, "" when the draw does not apply.
func hostileSet(r *rand.Rand, s, o *sigSession, d *big.Int, old [][]byte) (string, []byte) {
	ok := messages.KeysignSignature_Success
	v := cloneSigs(s.valid)
	k := len(v)
	at := r.Intn(k)
	raw := func(parts [][]byte, st messages.KeysignSignature_Status) []byte {
		b, _ := proto.Marshal(&messages.KeysignSignature{ID: s.id, Signatures: parts, KeysignStatus: st})
		return b
	}
	bytesOf := func(v []*tsslibcommon.ECSignature) [][]byte {
		var out [][]byte
		for _, x := range v {
			b, _ := proto.Marshal(x)
			out = append(out, b)
		}
		return out
	}
	switch r.Intn(25) {
	case 0:
		return "failure notice", sigSet(s.id, messages.KeysignSignature_Failed, nil)
	case 1:
		return "failure notice with signatures", sigSet(s.id, messages.KeysignSignature_Failed, v)
	case 2:
		return "success without signatures", sigSet(s.id, ok, nil)
	case 3:
		if k > 1 {
			return "first ones only", sigSet(s.id, ok, v[:1+r.Intn(k-1)])
		}
	case 4:
		if k > 1 {
			return "last ones only", sigSet(s.id, ok, v[1+r.Intn(k-1):])
		}
	case 5:
		return "one repeated at the end", sigSet(s.id, ok, append(v, proto.Clone(v[at]).(*tsslibcommon.ECSignature)))
	case 6:
		return "two sets", sigSet(s.id, ok, append(v, cloneSigs(s.valid)...))
	case 7:
		return "one more message", sigSet(s.id, ok, append(v, ecdsaSign(r, d, randBytes(r, 32))))
	case 8:
		b := r.Intn(k)
		if hashInt(s.msgs[at]).Cmp(hashInt(s.msgs[b])) != 0 {
			v[at], v[b] = v[b], v[at]
			return "two swapped", sigSet(s.id, ok, v)
		}
	case 9:
		b := r.Intn(k)
		if hashInt(s.msgs[at]).Cmp(hashInt(s.msgs[b])) != 0 {
			v[at] = v[b]
			return "one in place of another", sigSet(s.id, ok, v)
		}
	case 10:
		v[at].S[r.Intn(32)] ^= byte(1 << uint(r.Intn(8)))
		return "wrong S", sigSet(s.id, ok, v)
	case 11:
		v[at].R[r.Intn(32)] ^= byte(1 << uint(r.Intn(8)))
		return "wrong R", sigSet(s.id, ok, v)
	case 12:
		v[at].SignatureRecovery = []byte{v[at].SignatureRecovery[0] ^ 1}
		return "wrong recovery id", sigSet(s.id, ok, v)
	case 13:
		v[at].SignatureRecovery = [][]byte{nil, {v[at].SignatureRecovery[0], 0}, {v[at].SignatureRecovery[0] + 27}, {v[at].SignatureRecovery[0] + 4}, {255}}[r.Intn(5)]
		return "no recovery id", sigSet(s.id, ok, v)
	case 14:
		e := new(big.Int).Mod(new(big.Int).SetBytes(randBytes(r, 40)), btcec.S256().N)
		if r.Intn(2) == 0 {
			// the key with the same X coordinate
			e = new(big.Int).Sub(btcec.S256().N, d)
		}
		v[at] = ecdsaSign(r, e, s.msgs[at])
		return "signed by another key", sigSet(s.id, ok, v)
	case 15:
		p := bytesOf(v)
		p[at] = nil
		return "an empty signature", raw(p, ok)
	case 16:
		p := bytesOf(v)
		p[at] = randBytes(r, 40)
		return "a garbage signature", raw(p, ok)
	case 17:
		p := bytesOf(v)
		p[at] = p[at][:len(p[at])/2]
		return "a cut signature", raw(p, ok)
	case 18:
		v[at].R, v[at].S = nil, nil
		return "no R and S", sigSet(s.id, ok, v)
	case 19:
		if o != nil {
			return "the set of another session", sigSet(s.id, ok, o.valid)
		}
	case 20:
		ids := []string{s.id + "0", s.id[1:], "", " " + s.id, s.id[:len(s.id)-1]}
		return "valid set for a session nobody waits for", sigSet(ids[r.Intn(len(ids))], ok, v)
	case 21:
		return "garbage", randBytes(r, 1+r.Intn(60))
	case 22:
		if len(old) > 0 {
			return "set of an earlier session", old[r.Intn(len(old))]
		}
	case 24:
		p := bytesOf(v)
		q := append([][]byte{}, p[:at]...)
		q = append(append(q, randBytes(r, 30)), p[at:]...)
		return "a garbage signature besides the valid ones", raw(q, ok)
	case 23:
		// valid signatures of other messages, labelled as the expected ones
		for i := range v {
			v[i] = ecdsaSign(r, d, randBytes(r, 32))
			v[i].M = s.msgs[i]
		}
		return "signatures of other messages", sigSet(s.id, ok, v)
	}
	return "", nil
}

func checkC21(c *Ctx) {
	c.Rule = "waits for batches of 1..21 messages of any length under random pool keys, two sessions at once, with random sequences of hostile sets and failure notices from several peers before, between and after valid sets, repeated valid sets and none at all; non-trivial = at least one hostile set was served while the session was waited for"
	c.Assume("a valid set that is being served when the wait begins or ends may count or not; signatures are made with the pool's private key by the harness")
	n := c.N(40, 400)
	c.Parallel(n, 10, func(i int) { waitScenario(c, i) })
	if m, g := c.Counter("receivers a broadcast missed"), c.Counter("receivers of a broadcast"); m > 2 && m*20 > g {
		c.Violate("broadcast-missed", "the broadcast of a signature did not reach %d of %d connected nodes", m, m+g)
	}
	c.Require("waits fulfilled", int64(n/2))
	c.Require("waits without a valid set", int64(n/8))
	c.Require("hostile sets served while waiting", int64(n*4))
	c.Require("sets sent by the real node", int64(n/4))
}

func waitScenario(c *Ctx, i int) {
	r := c.Rand("wait", i)
	nh := 3 + r.Intn(3)
	nodes := randNodes(r, nh+1) // the last one is not part of the group
	lab := newNetLab(nodes)
	defer lab.close()
	if r.Intn(4) == 0 {
		lab.chop = 1 + r.Intn(50)
	}
	var sns []*keysign.SignatureNotifier
	for k := 0; k < nh; k++ {
		sns = append(sns, keysign.NewSignatureNotifier(lab.hosts[k]))
	}
	d := new(big.Int).Mod(new(big.Int).SetBytes(randBytes(r, 40)), btcec.S256().N)
	x, y := btcec.S256().ScalarBaseMult(d.Bytes())
	pool := bechOf(x, y)
	mk := func() *sigSession {
		s := &sigSession{id: hexs(randBytes(r, 32))}
		k := 1
		switch r.Intn(4) {
		case 0:
			k = 2 + r.Intn(3)
		case 1:
			k = 2 + r.Intn(20)
		}
		for j := 0; j < k; j++ {
			m := randMessage(r, s.msgs)
			s.msgs = append(s.msgs, m)
			s.valid = append(s.valid, ecdsaSign(r, d, m))
		}
		return s
	}
	sess := []*sigSession{mk()}
	if r.Intn(2) == 0 {
		sess = append(sess, mk())
	}
	var old [][]byte
	for rounds := 0; rounds < 3; rounds++ {
		waitRound(c, r, lab, sns, nodes, nh, sess, d, x, y, pool, old)
		if c.Violated() {
			return
		}
		for _, s := range sess {
			old = append(old, sigSet(s.id, messages.KeysignSignature_Success, s.valid))
		}
		if r.Intn(2) == 0 {
			// the same sessions again: nothing of the first time may be left, else new ones
			continue
		}
		if r.Intn(2) == 0 {
			// another pool, whose key has the same X coordinate
			d = new(big.Int).Sub(btcec.S256().N, d)
			y = new(big.Int).Sub(btcec.S256().P, y)
			pool = bechOf(x, y)
			old = nil
			c.Count("pools with the X coordinate of an earlier one", 1)
		}
		for k := range sess {
			sess[k] = mk()
		}
	}
	// no handler may hang
	time.Sleep(300 * time.Millisecond)
	deadline := time.Now().Add(15 * time.Second)
	for {
		open := 0
		for _, a := range lab.seen() {
			if a.Proto == protoSig && a.Closed.IsZero() {
				open++
			}
		}
		if open == 0 {
			break
		}
		if time.Now().After(deadline) {
			c.Violate("handler-stuck", "%d signature handlers did not return\n%s", open, allStacks())
			return
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func waitRound(c *Ctx, r *rand.Rand, lab *netLab, sns []*keysign.SignatureNotifier, nodes []*Node, nh int, sess []*sigSession, d, x, y *big.Int, pool string, old [][]byte) {
	T := time.Duration(1500+r.Intn(1500)) * time.Millisecond
	waiter := r.Intn(nh)
	type result struct {
		sigs         []*tsslibcommon.ECSignature
		err          error
		began, ended time.Time
		told         time.Time
	}
	res := make([]*result, len(sess))
	var wg sync.WaitGroup
	withValid := make([]bool, len(sess))
	viaNode := make([]bool, len(sess))
	froms := make([]int, len(sess))
	before := len(lab.seen())
	for k, s := range sess {
		k, s := k, s
		res[k] = &result{}
		sc := make(chan string, 2)
		if r.Intn(8) == 0 {
			at := time.Duration(r.Intn(int(T)))
			res[k].told = time.Now().Add(at)
			time.AfterFunc(at, func() { sc <- "signature generated" })
		}
		withValid[k] = r.Intn(4) != 0
		viaNode[k] = r.Intn(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[k].began = time.Now()
			c.Guard("panic", "wait", func() {
				res[k].sigs, res[k].err = sns[waiter].WaitForSignature(s.id, s.msgs, pool, T, sc)
			})
			res[k].ended = time.Now()
		}()
	}
	// hostile and valid traffic
	var kinds sync.Map
	for p := 0; p <= nh; p++ {
		if p == waiter {
			continue
		}
		p := p
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			end := time.Now().Add(T * 6 / 5)
			for time.Now().Before(end) {
				si := rr.Intn(len(sess))
				var o *sigSession
				if len(sess) > 1 {
					o = sess[1-si]
				}
				name, b := hostileSet(rr, sess[si], o, d, old)
				if name == "" {
					continue
				}
				kinds.Store(name, true)
				_, _ = rawSend(lab.hosts[p].Host, nodes[waiter].Peer, protoSig, frameOf(b), 0)
				time.Sleep(time.Duration(rr.Intn(60)) * time.Millisecond)
			}
		}()
	}
	for k, s := range sess {
		if !withValid[k] {
			continue
		}
		s := s
		by := 1 + r.Intn(3)
		for q := 0; q < by; q++ {
			from := (waiter + 1 + r.Intn(nh-1)) % nh
			node := viaNode[k] && q == 0
			if node {
				froms[k] = from
			}
			at := time.Duration(r.Intn(int(T)*11/10)) + 50*time.Millisecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(at)
				if node {
					var to []peer.ID
					for j := 0; j < nh; j++ {
						to = append(to, nodes[j].Peer)
					}
					if err := sns[from].BroadcastSignature(s.id, s.valid, to); err != nil {
						c.Violate("broadcast", "the broadcast of a signature to connected peers failed: %v", err)
					}
					c.Count("sets sent by the real node", 1)
					return
				}
				_, _ = rawSend(lab.hosts[from].Host, nodes[waiter].Peer, protoSig, frameOf(sigSet(s.id, messages.KeysignSignature_Success, s.valid)), 0)
			}()
		}
	}
	if !Within(2*T+60*time.Second, wg.Wait) {
		c.Violate("stuck", "waiting for a signature does not return\n%s", allStacks())
		return
	}
	seen := lab.seen()[before:]
	for k, s := range sess {
		q := res[k]
		var must, may time.Time
		hostile := 0
		sent := map[int]int{}
		for _, a := range seen {
			if a.Proto != protoSig {
				continue
			}
			var m messages.KeysignSignature
			if f := a.frame(); f == nil || proto.Unmarshal(f, &m) != nil {
				continue
			}
			good := m.ID == s.id && m.KeysignStatus == messages.KeysignSignature_Success && len(m.Signatures) == len(s.msgs)
			for j := 0; good && j < len(s.msgs); j++ {
				var e tsslibcommon.ECSignature
				good = proto.Unmarshal(m.Signatures[j], &e) == nil && verifySig(&e, s.msgs[j], x, y) == ""
			}
			if good {
				sent[a.To]++
			}
			if a.To != waiter {
				continue
			}
			if !good {
				if a.Opened.After(q.began) && !a.Closed.IsZero() && a.Closed.Before(q.ended) {
					hostile++
				}
				continue
			}
			if a.Opened.Before(q.ended) && (a.Closed.IsZero() || a.Closed.After(q.began)) {
				may = a.Opened
			}
			if a.Opened.After(q.began.Add(200*time.Millisecond)) && !a.Closed.IsZero() && a.Closed.Before(q.began.Add(T)) && (must.IsZero() || a.Closed.Before(must)) {
				must = a.Closed
			}
		}
		c.Count("hostile sets served while waiting", hostile)
		say := fmt.Sprintf("wait for %d signatures, %d hostile sets before it ended: returned %d signatures, err %v after %v of %v", len(s.msgs), hostile, len(q.sigs), q.err, q.ended.Sub(q.began), T)
		if q.err == nil {
			c.Count("waits fulfilled", 1)
			if len(q.sigs) != len(s.msgs) {
				c.Violate("incomplete", "%s", say)
				continue
			}
			for j := range q.sigs {
				if w := verifySig(q.sigs[j], s.msgs[j], x, y); w != "" {
					c.Violate("accepted-invalid", "%s: signature %d of message %x: %s", say, j, s.msgs[j], w)
				}
			}
			if may.IsZero() {
				c.Violate("from-nowhere", "%s: no valid set arrived during the wait", say)
			}
			if !must.IsZero() && q.ended.Sub(must) > 5*time.Second {
				c.Violate("late", "%s: a valid set was there %v before", say, q.ended.Sub(must))
			}
		} else {
			if len(q.sigs) != 0 {
				c.Violate("both", "%s: signatures and an error", say)
			}
			if q.told.IsZero() {
				c.Count("waits without a valid set", 1)
				if !must.IsZero() {
					c.Violate("refused-valid", "%s: a valid set was served during the wait", say)
				}
				if q.ended.Sub(q.began) < T {
					c.Violate("ended-early", "%s: nobody ended the wait", say)
				}
			} else {
				if !errors.Is(q.err, p2p.ErrSigGenerated) && q.told.Before(q.began.Add(T-time.Second)) {
					c.Violate("generated-ignored", "%s: the node generated the signature itself", say)
				}
				if !must.IsZero() && must.Before(q.told.Add(-time.Second)) {
					c.Violate("refused-valid", "%s: a valid set was served during the wait", say)
				}
			}
		}
		if q.ended.Sub(q.began) > T+10*time.Second {
			c.Violate("too-long", "%s", say)
		}
		if viaNode[k] && withValid[k] {
			for j := 0; j < nh; j++ {
				if j != waiter && sent[j] > 1 {
					c.Violate("sent-twice", "the broadcast of one signature reached node %d %d times", j, sent[j])
				}
			}
			if sent[nh] != 0 {
				c.Violate("sent-outside", "the broadcast of a signature reached a node that is not listed")
			}
			for j := 0; j < nh; j++ {
				if j == waiter || j == froms[k] {
					continue
				}
				if sent[j] == 0 {
					c.Count("receivers a broadcast missed", 1)
				} else {
					c.Count("receivers of a broadcast", 1)
				}
			}
		}
		c.Case(fmt.Sprintf("%d/%v/%v/%v", len(s.msgs), q.err == nil, withValid[k], hostile > 0), hostile > 0)
	}
	kinds.Range(func(k, _ interface{}) bool { c.Count("kind: "+k.(string), 1); return true })
	c.Sample("round", "%d sessions, waiting node %d of %d, %d arrivals", len(sess), waiter, nh, len(seen))
}
