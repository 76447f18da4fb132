package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
)

func init() { register("C24", checkC24) }

func checkC24(c *Ctx) {
	c.Rule = "families of key generation and signing requests (permuted, one participant or message more or less, one byte or letter case changed, messages merged or split, repeated later) given to complete nodes of different identity and history whose peers are puppets; the session id each node announces read from the network; non-trivial = an id was seen on both nodes"
	g := c.N(12, 40)
	c.Parallel(g, 12, func(i int) { sessionGroup(c, i) })
	c.Parallel(1, 1, func(int) { boundaryProbe(c) })
	c.Require("requests whose id was seen on both nodes", int64(8*g))
	c.Require("signing requests seen", int64(4*g))
	c.Require("key generation requests seen", int64(2*g))
	c.Require("requests repeated later", int64(g))
}

// idReq is a request, independent of the order of its parts.
type idReq struct {
	gen  bool
	keys []*Node
	msgs []string
}

func (q *idReq) canon() string {
	k := bechs(q.keys)
	sort.Strings(k)
	m := append([]string(nil), q.msgs...)
	sort.Strings(m)
	kind := "sign"
	if q.gen {
		kind = "generate"
	}
	return kind + " messages [" + strings.Join(m, " ") + "] participants [" + strings.Join(k, " ") + "]"
}

// view is one complete node whose other participants are puppets of its own.
type view struct {
	s  *srv
	pp *puppets
}

// ids gives the node the request and returns the session ids it announced.
func (v *view) ids(c *Ctx, r *rand.Rand, q *idReq, pool *Pool, version string, height int64) map[string]bool {
	before := len(v.pp.seen())
	ok := Within(60*time.Second, func() {
		c.Guard("panic", q.canon(), func() {
			if q.gen {
				_, _ = v.s.Keygen(keygen.NewRequest(shuffled(r, bechs(q.keys)), height, version))
			} else {
				_, _ = v.s.KeySign(keysign.NewRequest(pool.Bech, shuffled(r, q.msgs), height, shuffled(r, bechs(q.keys)), version))
			}
		})
	})
	if !ok {
		c.Violate("stuck", "%s: the request does not return\n%s", q.canon(), allStacks())
	}
	out := map[string]bool{}
	for end := time.Now().Add(400 * time.Millisecond); ; {
		for _, a := range v.pp.seen()[before:] {
			if a.From != 1000 || (a.Proto != protoLeaderless && a.Proto != protoLeader) {
				continue
			}
			if id, _ := sessionOf(a.Proto, a.frame()); id != "" {
				out[id] = true
			}
		}
		if len(out) > 0 || time.Now().After(end) {
			return out
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func startViews(c *Ctx, r *rand.Rand, name string, nodes []*Node, pools []*Pool, conf common.TssConfig) ([]*view, func(), error) {
	var vs []*view
	stop := func() {
		var ss []*srv
		for _, v := range vs {
			ss = append(ss, v.s)
		}
		stopGroup(ss)
		for _, v := range vs {
			if v.pp != nil {
				v.pp.close()
			}
		}
	}
	for k := 0; k < 2; k++ {
		ss, err := startGroup(c, fmt.Sprintf("%s-%d", name, k), nodes[k:k+1], conf, pools[k%len(pools)])
		if err != nil {
			stopGroup(ss)
			return vs, stop, err
		}
		var others []*Node
		for j, nd := range nodes {
			if j != k {
				others = append(others, nd)
			}
		}
		v := &view{s: ss[0], pp: newPuppets(others)}
		vs = append(vs, v)
		if err := v.pp.meet(ss[0], 1000); err != nil {
			return vs, stop, err
		}
	}
	return vs, stop, nil
}

var idConf = common.TssConfig{PartyTimeout: 600 * time.Millisecond, KeyGenTimeout: time.Second, KeySignTimeout: 700 * time.Millisecond, PreParamTimeout: time.Second}

func b64(r *rand.Rand, n int) string { return base64.StdEncoding.EncodeToString(randBytes(r, n)) }

// mutateReq changes one thing of a request.
func mutateReq(r *rand.Rand, q *idReq, nodes []*Node) *idReq {
	m := &idReq{gen: q.gen, keys: append([]*Node(nil), q.keys...), msgs: append([]string(nil), q.msgs...)}
	drop := func() {
		// the two nodes under test always take part
		if len(m.keys) > 3 {
			k := 2 + r.Intn(len(m.keys)-2)
			m.keys = append(m.keys[:k:k], m.keys[k+1:]...)
		}
	}
	add := func() {
		for _, nd := range shuffledNodes(r, nodes) {
			in := false
			for _, k := range m.keys {
				in = in || k == nd
			}
			if !in {
				m.keys = append(m.keys, nd)
				return
			}
		}
	}
	if q.gen {
		if r.Intn(2) == 0 {
			drop()
		} else {
			add()
		}
		return m
	}
	k := r.Intn(len(m.msgs))
	switch r.Intn(12) {
	case 0:
		drop()
	case 1:
		add()
	case 2: // one participant exchanged
		drop()
		add()
	case 3:
		m.msgs = append(m.msgs, b64(r, 1+r.Intn(40)))
	case 4:
		if len(m.msgs) > 1 {
			m.msgs = append(m.msgs[:k:k], m.msgs[k+1:]...)
		}
	case 5: // the same message twice
		m.msgs = append(m.msgs, m.msgs[k])
	case 6, 7: // one byte
		b, _ := base64.StdEncoding.DecodeString(m.msgs[k])
		at := r.Intn(len(b))
		if r.Intn(2) == 0 {
			at = len(b) - 1
		}
		b[at] ^= 1 << uint(r.Intn(8))
		m.msgs[k] = base64.StdEncoding.EncodeToString(b)
	case 8: // a leading or trailing zero
		b, _ := base64.StdEncoding.DecodeString(m.msgs[k])
		if r.Intn(2) == 0 {
			b = append([]byte{0}, b...)
		} else {
			b = append(b, 0)
		}
		m.msgs[k] = base64.StdEncoding.EncodeToString(b)
	case 9: // letter case
		b := []byte(m.msgs[k])
		for _, at := range r.Perm(len(b)) {
			if b[at] >= 'a' && b[at] <= 'z' || b[at] >= 'A' && b[at] <= 'Z' {
				b[at] ^= 0x20
				break
			}
		}
		if _, err := base64.StdEncoding.DecodeString(string(b)); err == nil {
			m.msgs[k] = string(b)
		}
	case 10: // two messages merged, in sorted order
		if len(m.msgs) > 1 {
			sort.Strings(m.msgs)
			k = r.Intn(len(m.msgs) - 1)
			s := m.msgs[k] + m.msgs[k+1]
			if _, err := base64.StdEncoding.DecodeString(s); err == nil {
				m.msgs = append(append(append([]string(nil), m.msgs[:k]...), s), m.msgs[k+2:]...)
			}
		}
	case 11: // one message split
		if s := m.msgs[k]; len(s) >= 8 {
			at := 4 * (1 + r.Intn(len(s)/4-1))
			m.msgs[k] = s[:at]
			m.msgs = append(m.msgs, s[at:])
		}
	}
	return m
}

func sessionGroup(c *Ctx, i int) {
	r := c.Rand("session", i)
	n := 4 + r.Intn(4)
	nodes := randNodes(r, n)
	pool := dealKey(r, nodes, thresholdOf(n))
	vs, stop, err := startViews(c, r, fmt.Sprintf("s%d", i), nodes, []*Pool{pool}, idConf)
	defer stop()
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	idOf := map[string]string{}  // canonical request -> id
	reqOf := map[string]string{} // id -> canonical request
	var all []*idReq
	base := func() *idReq {
		q := &idReq{gen: r.Intn(3) == 0}
		q.keys = append(append([]*Node(nil), nodes[:2]...), shuffledNodes(r, nodes[2:])[:minInt(n-2, thresholdOf(n)+r.Intn(n-thresholdOf(n)-1))]...)
		if !q.gen {
			for k := 1 + r.Intn(4); k > 0; k-- {
				ln := 1 + r.Intn(64)
				if r.Intn(4) == 0 {
					ln = 3 * (1 + r.Intn(40)) // no padding: can be merged
				}
				q.msgs = append(q.msgs, b64(r, ln))
			}
		}
		return q
	}
	judge := func(q *idReq, again bool) {
		// each node gets its own order, height, version and turn
		got := make([]map[string]bool, len(vs))
		var wg sync.WaitGroup
		for k, v := range vs {
			k, v := k, v
			rr := rand.New(rand.NewSource(r.Int63()))
			// without a leader everybody learns the session at once; a leader is another participant more often than not
			version := []string{"0.13.0", "0.13.9", "0.14.0"}[rr.Intn(3)]
			if !q.gen && len(q.keys) <= pool.T {
				version = "0.14.0"
			}
			height := int64(1 + rr.Intn(1000000))
			wg.Add(1)
			go func() { defer wg.Done(); got[k] = v.ids(c, rr, q, pool, version, height) }()
		}
		wg.Wait()
		can := q.canon()
		seen := 0
		for k := range vs {
			if len(got[k]) > 1 {
				c.Violate("several-ids", "%s: node %d announced %d session ids %v", can, k, len(got[k]), got[k])
			}
			for id := range got[k] {
				seen++
				if o, ok := idOf[can]; ok && o != id {
					c.Violate("ids-differ", "%s: ids %s and %s (node %d, again %v)", can, o, id, k, again)
				}
				if o, ok := reqOf[id]; ok && o != can {
					c.Violate("same-id", "id %s for %s and for %s", id, o, can)
				}
				idOf[can], reqOf[id] = id, can
			}
		}
		if seen == 2 {
			c.Count("requests whose id was seen on both nodes", 1)
		}
		if seen > 0 {
			if q.gen {
				c.Count("key generation requests seen", 1)
			} else {
				c.Count("signing requests seen", 1)
			}
			if again {
				c.Count("requests repeated later", 1)
			}
		}
		c.Sample("request", "%s -> %v", can, got)
		c.Case(can, seen == 2)
	}
	rounds := c.N(4, 8)
	for k := 0; k < rounds && !c.Violated(); k++ {
		q := base()
		judge(q, false)
		all = append(all, q)
		for m := 0; m < 5 && !c.Violated(); m++ {
			p := mutateReq(r, q, nodes)
			judge(p, false)
			if r.Intn(3) == 0 {
				q = p
			}
		}
		judge(all[r.Intn(len(all))], true)
	}
}

// boundaryProbe: messages and participants are concatenated without a mark between them, so four participants can move
// into a message (four keys have 300 characters, which is valid base64).
func boundaryProbe(c *Ctx) {
	r := c.Rand("boundary", 0)
	nodes := randNodes(r, 7)
	pool := dealKey(r, nodes, thresholdOf(7))
	vs, stop, err := startViews(c, r, "boundary", nodes, []*Pool{pool}, idConf)
	defer stop()
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	keys := append([]*Node(nil), nodes...)
	sort.Slice(keys, func(a, b int) bool { return keys[a].Bech < keys[b].Bech })
	m := b64(r, 33)
	a := &idReq{keys: keys, msgs: []string{m}}
	b := &idReq{keys: keys[4:], msgs: []string{m + strings.Join(bechs(keys[:4]), "")}}
	one := map[string]bool{}
	seen := 0
	for _, q := range []*idReq{a, b} {
		ids := vs[0].ids(c, r, q, pool, "0.14.0", 10)
		if len(ids) > 0 {
			seen++
		}
		for id := range ids {
			one[id] = true
		}
	}
	if seen == 2 && len(one) == 1 {
		c.Violate("boundary", "%s has the same session id as %s: the messages are followed by the participants without a mark between them", a.canon(), b.canon())
	}
	c.Count("boundary probes", seen)
}
