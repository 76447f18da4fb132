package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

func init() { register("C30", checkC30) }

// ---- a reference for semantic versions, written from the specification ----

type refVer struct {
	n   [3]string // numbers without leading zeros
	pre []string
}

func digits(s string) bool {
	if s == "" {
		return false
	}
	for _, b := range []byte(s) {
		if b < '0' || b > '9' {
			return false
		}
	}
	return true
}

func identChars(s string) bool {
	if s == "" {
		return false
	}
	for _, b := range []byte(s) {
		if !(b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '-') {
			return false
		}
	}
	return true
}

func number(s string) bool { return digits(s) && (len(s) == 1 || s[0] != '0') && len(s) < 18 }

func parseRef(s string) (*refVer, bool) {
	v := &refVer{}
	if i := strings.Index(s, "+"); i >= 0 {
		for _, p := range strings.Split(s[i+1:], ".") {
			if !identChars(p) {
				return nil, false
			}
		}
		s = s[:i]
	}
	if i := strings.Index(s, "-"); i >= 0 {
		for _, p := range strings.Split(s[i+1:], ".") {
			if !identChars(p) || (digits(p) && !number(p)) {
				return nil, false
			}
			v.pre = append(v.pre, p)
		}
		s = s[:i]
	}
	ps := strings.Split(s, ".")
	if len(ps) != 3 {
		return nil, false
	}
	for i, p := range ps {
		if !number(p) {
			return nil, false
		}
		v.n[i] = p
	}
	return v, true
}

func cmpNum(a, b string) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	return strings.Compare(a, b)
}

func (a *refVer) cmp(b *refVer) int {
	for i := range a.n {
		if d := cmpNum(a.n[i], b.n[i]); d != 0 {
			return d
		}
	}
	switch {
	case len(a.pre) == 0 && len(b.pre) == 0:
		return 0
	case len(a.pre) == 0:
		return 1
	case len(b.pre) == 0:
		return -1
	}
	for i := 0; i < len(a.pre) && i < len(b.pre); i++ {
		x, y := a.pre[i], b.pre[i]
		dx, dy := digits(x), digits(y)
		var d int
		switch {
		case dx && dy:
			d = cmpNum(x, y)
		case dx:
			d = -1
		case dy:
			d = 1
		default:
			d = strings.Compare(x, y)
		}
		if d != 0 {
			return d
		}
	}
	switch {
	case len(a.pre) < len(b.pre):
		return -1
	case len(a.pre) > len(b.pre):
		return 1
	}
	return 0
}

func randVersion(r *rand.Rand) string {
	nums := []string{"0", "0", "0", "1", "2", "9", "10", "13", "14", "15", "99", "100", "140", "1000"}
	num := func() string { return nums[r.Intn(len(nums))] }
	v := ""
	switch r.Intn(8) {
	case 0:
		v = "0.14.0"
	case 1:
		v = "0.13." + num()
	case 2:
		v = "0.14." + num()
	case 3:
		v = "0." + num() + "." + num()
	case 4:
		v = num() + ".14.0"
	default:
		v = num() + "." + num() + "." + num()
	}
	if r.Intn(3) == 0 {
		ids := []string{"alpha", "beta", "rc", "0", "1", "2", "10", "a-b", "-", "A", "rc1", "x9"}
		n := 1 + r.Intn(3)
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, ids[r.Intn(len(ids))])
		}
		v += "-" + strings.Join(p, ".")
	}
	if r.Intn(6) == 0 {
		v += "+" + []string{"build", "001", "a.b", "-"}[r.Intn(4)]
	}
	if r.Intn(4) == 0 {
		v = breakVersion(r, v)
	}
	return v
}

func breakVersion(r *rand.Rand, v string) string {
	switch r.Intn(14) {
	case 0:
		return ""
	case 1:
		return "v" + v
	case 2:
		return " " + v
	case 3:
		return v + " "
	case 4:
		return v[:strings.LastIndex(v, ".")]
	case 5:
		return "0" + v
	case 6:
		return v + "."
	case 7:
		return "0.14"
	case 8:
		return "0.014.0"
	case 9:
		return "-" + v
	case 10:
		return "0.14.0-"
	case 11:
		return "0.14.0-rc.01"
	case 12:
		return "0.14.x"
	}
	return "0,14,0"
}

func checkC30(c *Ctx) {
	c.Rule = "random and adversarial version strings compared with a reference of semantic versioning; complete nodes given key generation and signing requests of every kind of version, with puppet peers that record the protocol used and announce themselves all or in part; non-trivial = the version decided how the party was formed"
	threshold, _ := parseRef("0.14.0")
	n := c.N(40000, 400000)
	c.Parallel(n, 0, func(i int) {
		r := c.Rand("version", i)
		v := randVersion(r)
		ref, ok := parseRef(v)
		var lt bool
		var err error
		if c.Guard("panic", "version "+v, func() { lt, err = conversion.VersionLTCheck(v, messages.NEWJOINPARTYVERSION) }) {
			return
		}
		if (err == nil) != ok {
			c.Violate("parse", "version %q: valid by the specification: %v, accepted: %v", v, ok, err == nil)
		}
		if ok && err == nil {
			want := ref.cmp(threshold) < 0
			if want != lt {
				c.Violate("order", "version %q below 0.14.0: expected %v, got %v", v, want, lt)
			}
		}
		// and against another version
		w := randVersion(r)
		if rw, okw := parseRef(w); okw {
			lt, err = conversion.VersionLTCheck(v, w)
			if (err == nil) != ok {
				c.Violate("parse", "version %q against %q: valid %v, accepted %v", v, w, ok, err == nil)
			} else if ok && lt != (ref.cmp(rw) < 0) {
				c.Violate("order", "version %q below %q: expected %v, got %v", v, w, ref.cmp(rw) < 0, lt)
			}
		}
		c.Case(v, ok)
	})
	g := c.N(8, 24)
	c.Parallel(g, 8, func(i int) { versionGroup(c, i) })
	c.Require("requests without a leader", int64(2*g))
	c.Require("requests with a leader", int64(2*g))
	c.Require("requests refused", int64(g))
	c.Require("ceremonies started", int64(g))
}

// versionGroup gives one node requests of all versions; all other participants are puppets.
func versionGroup(c *Ctx, i int) {
	r := c.Rand("versiongroup", i)
	n := 3 + r.Intn(4)
	nodes := randNodes(r, n)
	me := r.Intn(n)
	pool := dealKey(r, nodes, thresholdOf(n))
	conf := common.TssConfig{PartyTimeout: 3 * time.Second, KeyGenTimeout: 8 * time.Second, KeySignTimeout: 5 * time.Second, PreParamTimeout: time.Second}
	ss, err := startGroup(c, fmt.Sprintf("v%d", i), nodes[me:me+1], conf, pool)
	defer stopGroup(ss)
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	var others []*Node
	for k, nd := range nodes {
		if k != me {
			others = append(others, nd)
		}
	}
	pp := newPuppets(others)
	defer pp.close()
	if err := pp.meet(ss[0], 1000); err != nil {
		c.Inconclusive("cannot connect to a node: %v", err)
		return
	}
	cases := c.N(10, 20)
	for k := 0; k < cases && !c.Violated(); k++ {
		versionCase(c, r, pp, ss[0], pool, nodes, others, k)
	}
}

func versionCase(c *Ctx, r *rand.Rand, pp *puppets, s *srv, pool *Pool, nodes, others []*Node, k int) {
	var v string
	for {
		v = randVersion(r)
		_, ok := parseRef(v)
		// all three kinds in turn
		if ok == (k%4 != 3) {
			break
		}
	}
	switch k % 4 {
	case 0:
		v = []string{"0.13.0", "0.9.0", "0.14.0-rc.1", "0.2.99", "0.13.140", "0.14.0-0", "0.0.1"}[r.Intn(7)]
	case 1:
		v = []string{"0.14.0", "0.14.1", "0.100.0", "1.0.0", "0.15.0-alpha", "0.14.0+build", "10.2.3"}[r.Intn(7)]
	}
	ref, ok := parseRef(v)
	bound, _ := parseRef("0.14.0")
	old := ok && ref.cmp(bound) < 0
	t := thresholdOf(len(nodes))
	isGen := r.Intn(2) == 0
	height := int64(1 + r.Intn(100000))
	// the requested signers, the local node is one of them
	signers := append([]*Node{s.nd}, others...)
	if !isGen {
		m := t + r.Intn(len(others)-t+1) // others among the signers
		signers = append([]*Node{s.nd}, shuffledNodes(r, others)[:m]...)
	}
	inReq := map[int]bool{}
	for _, nd := range signers {
		if nd != s.nd {
			inReq[pp.index(nd.Peer)] = true
		}
	}
	// who announces itself: all of the requested ones, or all but one of them, or as many as a leader needs
	ann := map[int]bool{}
	switch r.Intn(3) {
	case 0:
		for p := range inReq {
			ann[p] = true
		}
	case 1:
		for p := range inReq {
			ann[p] = true
		}
		l := keysOf(ann)
		delete(ann, l[r.Intn(len(l))])
	default:
		need := t
		if isGen {
			need = len(others)
		}
		for _, p := range r.Perm(len(others))[:minInt(need, len(others))] {
			ann[p] = true
		}
	}
	desc := fmt.Sprintf("version %q, key generation %v, %d participants, requested %v, announcing %v", v, isGen, len(nodes), keysOf(inReq), keysOf(ann))
	before := len(pp.seen())
	// puppets announce themselves for the session as soon as they learn it, with both protocols
	var once sync.Map
	var seedMu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var leadSet []string
	participants := nodes
	minimum := t + 1
	if isGen {
		minimum = len(nodes)
	}
	act := func(session string) {
		if _, dup := once.LoadOrStore(session, true); dup {
			return
		}
		lead := electedOf(session, height, participants)
		for p := range ann {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					_, _ = rawSend(pp.hosts[p].Host, s.nd.Peer, protoLeaderless, frameOf(joinRequest(session)), 0)
					if participants[lead] == s.nd {
						_, _ = rawSend(pp.hosts[p].Host, s.nd.Peer, protoLeader, frameOf(leaderMsg(session, "request", 0, nil)), 0)
					}
					select {
					case <-stop:
						return
					case <-time.After(400 * time.Millisecond):
					}
				}
			}()
		}
		if participants[lead] != s.nd {
			// the leader is a puppet: it answers with itself, the node and those that announce themselves
			lp := pp.index(participants[lead].Peer)
			set := map[string]bool{s.nd.Peer.String(): true, participants[lead].Peer.String(): true}
			for p := range ann {
				set[pp.hosts[p].nd.Peer.String()] = true
			}
			var l []string
			for q := range set {
				l = append(l, q)
			}
			sort.Strings(l)
			ty := messages.JoinPartyLeaderComm_Success
			if len(l) < minimum {
				ty = messages.JoinPartyLeaderComm_Timeout
			}
			seedMu.Lock()
			leadSet = l
			seedMu.Unlock()
			_, _ = rawSend(pp.hosts[lp].Host, s.nd.Peer, protoLeader, frameOf(leaderMsg(session, "response", ty, l)), 0)
		}
	}
	pp.mu.Lock()
	pp.onJoin = func(p int, from peer.ID, proto protocol.ID, session string) {
		if from == s.nd.Peer {
			act(session)
		}
	}
	pp.mu.Unlock()
	// when the node itself leads, nobody is asked: the session is derived by whoever takes part, here from an election of the
	// node; the puppets then learn it from the answer at the timeout only, so this case does not start a ceremony.
	var status common.Status
	var err error
	began := time.Now()
	done := Within(60*time.Second, func() {
		c.Guard("panic", desc, func() {
			if isGen {
				var resp keygen.Response
				resp, err = s.Keygen(keygen.NewRequest(shuffled(r, bechs(signers)), height, v))
				status = resp.Status
			} else {
				msg := base64.StdEncoding.EncodeToString(randBytes(r, 32))
				var resp keysign.Response
				resp, err = s.KeySign(keysign.NewRequest(pool.Bech, []string{msg}, height, shuffled(r, bechs(signers)), v))
				status = resp.Status
			}
		})
	})
	took := time.Since(began)
	pp.mu.Lock()
	pp.onJoin = nil
	pp.mu.Unlock()
	close(stop)
	wg.Wait()
	if !done {
		c.Violate("stuck", "%s: the request does not return\n%s", desc, allStacks())
		return
	}
	time.Sleep(200 * time.Millisecond)
	used := map[protocol.ID]map[int]bool{protoLeaderless: {}, protoLeader: {}, protoTss: {}, protoSig: {}}
	session := ""
	for _, a := range pp.seen()[before:] {
		if a.From == 1000 {
			used[a.Proto][a.To] = true
			if a.Proto != protoTss && a.Proto != protoSig && session == "" {
				session, _ = sessionOf(a.Proto, a.frame())
			}
		}
	}
	say := fmt.Sprintf("%s: status %v err %v after %v; leaderless protocol with %v, leader protocol with %v, shares with %v", desc, status, err, took, keysOf(used[protoLeaderless]), keysOf(used[protoLeader]), keysOf(used[protoTss]))
	c.Sample("request", "%s", say)
	switch {
	case !ok:
		if len(used[protoLeaderless])+len(used[protoLeader])+len(used[protoTss]) > 0 {
			c.Violate("started", "%s: a version that cannot be parsed", say)
		}
		if err == nil && status == common.Success {
			c.Violate("accepted", "%s: a version that cannot be parsed", say)
		}
		c.Count("requests refused", 1)
	case old:
		if len(used[protoLeader]) > 0 {
			c.Violate("leader-used", "%s: below 0.14.0", say)
		}
		for p := range inReq {
			if !used[protoLeaderless][p] {
				c.Violate("not-asked", "%s: puppet %d is requested but was not asked", say, p)
			}
		}
		for p := range used[protoLeaderless] {
			if !inReq[p] {
				c.Violate("asked-other", "%s: puppet %d is not requested", say, p)
			}
		}
		all := true
		for p := range inReq {
			if !ann[p] {
				all = false
			}
		}
		if !all && len(used[protoTss]) > 0 {
			c.Violate("incomplete-party", "%s: the ceremony started without all requested signers", say)
		}
		if all {
			c.Count("ceremonies started", 1)
			if !sameSet(used[protoTss], inReq) {
				c.Violate("party", "%s: all requested signers are there, the ceremony is expected with exactly them", say)
			}
		}
		c.Count("requests without a leader", 1)
	default:
		if len(used[protoLeaderless]) > 0 {
			c.Violate("leader-not-used", "%s: 0.14.0 or above", say)
		}
		if len(used[protoLeader]) == 0 {
			c.Violate("leader-not-used", "%s: 0.14.0 or above, nobody was asked", say)
			break
		}
		c.Count("requests with a leader", 1)
		lead := electedOf(session, height, participants)
		if participants[lead] == s.nd {
			// learnt too late for anybody to announce itself
			if len(used[protoTss]) > 0 {
				c.Violate("incomplete-party", "%s: the node leads, nobody announced itself, the ceremony started", say)
			}
			break
		}
		lp := pp.index(participants[lead].Peer)
		if len(used[protoLeader]) != 1 || !used[protoLeader][lp] {
			c.Violate("asked-other", "%s: the leader is puppet %d", say, lp)
		}
		seedMu.Lock()
		l := leadSet
		seedMu.Unlock()
		if len(l) < minimum {
			if len(used[protoTss]) > 0 {
				c.Violate("incomplete-party", "%s: the leader reported only %d of %d", say, len(l), minimum)
			}
			break
		}
		want := map[int]bool{}
		for _, q := range l {
			if id, e := peer.Decode(q); e == nil && id != s.nd.Peer {
				want[pp.index(id)] = true
			}
		}
		c.Count("ceremonies started", 1)
		if !sameSet(used[protoTss], want) {
			c.Violate("party", "%s: the leader named %v", say, keysOf(want))
		}
	}
	c.Case(fmt.Sprintf("%v/%v/%v/%d/%d", ok, old, isGen, len(inReq), len(ann)), ok)
}
