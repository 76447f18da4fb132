package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

func init() { register("C29", checkC29) }

// how much longer than its timeouts a request may take, and how long a stopped one: streams that are not answered are given
// up after 10 s, a few of them one after the other; and the host has to shut down.
const (
	grace29 = 30 * time.Second
	stop29  = 20 * time.Second
)

func checkC29(c *Ctx) {
	c.Rule = "complete nodes whose peers are puppets that are absent, silent, never read, never answer, answer junk, flood the session, join and fall silent, or leave: every request timed against its timeouts; nodes stopped at random moments of a request with timeouts of minutes; goroutines of the node and session ids reachable from it compared before and after series of failed, refused and successful requests; non-trivial = the request reached the network"
	// nothing else runs while goroutines are counted
	leakPhase(c)
	e := c.N(4, 24)
	c.Parallel(c.N(16, 60)+e, 8, func(i int) {
		if i < e {
			unreported(c, i)
		} else {
			boundScenario(c, i-e)
		}
	})
	c.Parallel(c.N(18, 62), 10, func(i int) {
		if i < 2 {
			trickle(c, i)
		} else {
			stopScenario(c, i-2)
		}
	})
	c.Require("requests timed", int64(c.N(40, 150)))
	c.Require("finished nodes that left although some did not report done", int64(e))
	c.Require("requests stopped", int64(c.N(10, 40)))
	c.Require("sessions looked for", int64(c.N(40, 150)))
}

// unreported: some participants of a ceremony never report that they are done, or only some of the others hear it. The
// others leave by themselves.
func unreported(c *Ctx, i int) {
	r := c.Rand("unreported", i)
	j := ceremonyJob{kg: i%2 == 0, n: 3 + r.Intn(3)}
	j.k = j.n
	cr, run := j.prepare(c, "unreported", i)
	cr.Timeout = 20 * time.Second
	n := len(cr.Nodes)
	lost := map[[2]int]bool{}
	for k := 1 + r.Intn(2*n); k > 0; k-- {
		from := r.Intn(n)
		to := (from + 1 + r.Intn(n-1)) % n
		lost[[2]int{from, to}] = true
	}
	if r.Intn(2) == 0 {
		from := r.Intn(n)
		for k := 0; k < n; k++ {
			lost[[2]int{from, k}] = true
		}
	}
	cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
		if e.Done && lost[[2]int{e.From, to}] {
			return nil
		}
		return []cerDelivery{{To: to, From: e.From, Payload: p}}
	}
	desc := fmt.Sprintf("key generation %v of %d nodes, %d reports of being done are lost", j.kg, n, len(lost))
	if !run() {
		c.Violate("unreported", "%s: a node never returned\n%s", desc, allStacks())
		return
	}
	for k, x := range cr.Res {
		var done time.Time
		for _, e := range cr.Events() {
			if e.Done && e.From == k {
				done = e.At
			}
		}
		if x.Err != nil || done.IsZero() {
			continue // some other check's
		}
		if d := cr.began.Add(x.Took).Sub(done); d > grace29 {
			c.Violate("unreported", "%s: node %d returned %v after it had finished", desc, k, d)
		}
		c.Count("finished nodes that left although some did not report done", 1)
	}
	c.Case("unreported "+desc, true)
}

// one29 is a node under test whose peers are puppets.
type one29 struct {
	s     *srv
	nodes []*Node
	oth   []*Node
	pool  *Pool
	pp    *puppets
	mu    sync.Mutex
	ids   map[string]bool
}

func (o *one29) close() {
	if o.s != nil {
		stopGroup([]*srv{o.s})
	}
	o.pp.close()
}

func start29(c *Ctx, r *rand.Rand, name string, conf common.TssConfig) (*one29, error) {
	n := 3 + r.Intn(3)
	o := &one29{nodes: randNodes(r, n), ids: map[string]bool{}}
	o.pool = dealKey(r, o.nodes, thresholdOf(n))
	o.oth = o.nodes[1:]
	o.pp = newPuppets(o.oth)
	ss, err := startGroup(c, name, o.nodes[:1], conf, o.pool)
	if err == nil {
		o.s = ss[0]
		err = o.pp.meet(o.s, 1000)
	}
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		o.close()
	}
	return o, err
}

// wire29 is a message as the node receives it on the main protocol.
func wire29(t messages.THORChainTSSMessageType, session string, payload []byte) []byte {
	b, _ := json.Marshal(messages.WrappedMessage{MessageType: t, MsgID: session, Payload: payload})
	return frameOf(b)
}

var types29 = []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeySignMsg, messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg, messages.TSSControlMsg, messages.TSSTaskDone}

// flood sends messages of all kinds for the session from a puppet.
func (o *one29) flood(r *rand.Rand, session string, n int) {
	for ; n > 0; n-- {
		p := r.Intn(len(o.oth))
		payload := randBytes(r, r.Intn(60))
		if r.Intn(2) == 0 {
			payload, _ = json.Marshal(messages.WireMessage{Routing: nil, RoundInfo: "KGRound1Message", Message: randBytes(r, 20), Sig: randBytes(r, 64)})
		}
		_, _ = rawSend(o.pp.hosts[p].Host, o.s.nd.Peer, protoTss, wire29(types29[r.Intn(len(types29))], session, payload), 0)
	}
}

// announce makes the puppets join the session.
func (o *one29) announce(ps []int, session string) {
	for _, p := range ps {
		_, _ = rawSend(o.pp.hosts[p].Host, o.s.nd.Peer, protoLeaderless, frameOf(joinRequest(session)), 0)
	}
}

// op29 gives the node one request of a kind; late says that peers keep talking about the session afterwards.
func (o *one29) op29(c *Ctx, r *rand.Rand, kind string, late bool) (desc string, took time.Duration, back bool) {
	isGen := r.Intn(2) == 0
	version := "0.13.0"
	keys := bechs(o.nodes)
	if isGen {
		keys = append([]string{o.nodes[0].Bech}, bechs(shuffledNodes(r, o.oth)[:2+r.Intn(len(o.oth)-1)])...)
	}
	var joiners []int
	flood := 0
	poolKey := o.pool.Bech
	msg := b64(r, 32)
	switch kind {
	case "absent": // nobody answers
	case "partly":
		joiners = r.Perm(len(o.oth))[:r.Intn(len(o.oth))]
	case "early messages": // the others think the party is there and send shares
		joiners = r.Perm(len(o.oth))[:len(o.oth)-1]
		flood = 6
	case "silent": // everybody joins, then nothing
		joiners = r.Perm(len(o.oth))
	case "noise": // everybody joins, then nonsense
		joiners = r.Perm(len(o.oth))
		flood = 12
	case "leader":
		version = "0.14.0"
		flood = r.Intn(4)
	case "outsider": // not among the signers: only waits for the signature
		isGen, joiners = false, nil
		keys = bechs(o.oth)
	case "refused":
		switch r.Intn(4) {
		case 0:
			version = "x"
		case 1:
			isGen, poolKey = false, o.nodes[0].Bech
		case 2:
			isGen, msg = false, "!"
		case 3:
			isGen, keys = false, nil
		}
	}
	desc = fmt.Sprintf("%s, key generation %v, version %s, %d participants, peers %q", kind, isGen, version, len(o.nodes), o.pp.mode)
	var once sync.Map
	var wg sync.WaitGroup
	seed := r.Int63()
	before := len(o.pp.seen())
	o.pp.mu.Lock()
	o.pp.onJoin = func(p int, from peer.ID, proto protocol.ID, session string) {
		if _, dup := once.LoadOrStore(session, true); dup || session == "" {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			o.announce(joiners, session)
			o.flood(rr, session, flood)
		}()
	}
	o.pp.mu.Unlock()
	start := time.Now()
	back = Within(4*time.Minute, func() {
		c.Guard("panic", desc, func() {
			if isGen {
				_, _ = o.s.Keygen(keygen.NewRequest(shuffled(r, keys), int64(1+r.Intn(1000)), version))
			} else {
				_, _ = o.s.KeySign(keysign.NewRequest(poolKey, []string{msg}, int64(1+r.Intn(1000)), shuffled(r, keys), version))
			}
		})
	})
	took = time.Since(start)
	o.pp.mu.Lock()
	o.pp.onJoin = nil
	o.pp.mu.Unlock()
	wg.Wait()
	for _, a := range o.pp.seen()[before:] {
		if a.From != 1000 {
			continue
		}
		id := ""
		switch a.Proto {
		case protoLeaderless, protoLeader:
			id, _ = sessionOf(a.Proto, a.frame())
		case protoTss:
			id = wrappedSession(a.frame())
		}
		if id != "" {
			o.mu.Lock()
			o.ids[id] = true
			o.mu.Unlock()
		}
	}
	if late {
		o.mu.Lock()
		var l []string
		for id := range o.ids {
			l = append(l, id)
		}
		o.mu.Unlock()
		sort.Strings(l)
		for k := 0; k < 3 && len(l) > 0; k++ {
			id := l[r.Intn(len(l))]
			p := r.Intn(len(o.oth))
			o.announce([]int{p}, id)
			o.flood(r, id, 1)
			_, _ = rawSend(o.pp.hosts[p].Host, o.s.nd.Peer, protoLeader, frameOf(leaderMsg(id, "request", 0, nil)), 0)
			_, _ = rawSend(o.pp.hosts[p].Host, o.s.nd.Peer, protoSig, frameOf(sigSet(id, messages.KeysignSignature_Failed, nil)), 0)
		}
	}
	return desc, took, back
}

func boundScenario(c *Ctx, i int) {
	r := c.Rand("bound", i)
	conf := common.TssConfig{PartyTimeout: time.Duration(700+r.Intn(1500)) * time.Millisecond, KeyGenTimeout: time.Duration(1000+r.Intn(2500)) * time.Millisecond, KeySignTimeout: time.Duration(1000+r.Intn(2500)) * time.Millisecond, PreParamTimeout: time.Second}
	o, err := start29(c, r, fmt.Sprintf("b%d", i), conf)
	if err != nil {
		return
	}
	defer o.close()
	kinds := []string{"absent", "partly", "early messages", "silent", "noise", "leader", "outsider"}
	for k := 0; k < 4 && !c.Violated(); k++ {
		o.pp.mu.Lock()
		o.pp.mode = []string{"", "hold", "mute", "reset", "junk"}[r.Intn(5)]
		o.pp.mu.Unlock()
		kind := kinds[r.Intn(len(kinds))]
		if k == 3 && r.Intn(2) == 0 {
			// the peers leave
			kind = "absent"
			for _, h := range o.pp.hosts {
				_ = h.Host.Close()
			}
		}
		desc, took, back := o.op29(c, r, kind, false)
		limit := conf.PartyTimeout + conf.KeyGenTimeout + conf.KeySignTimeout + grace29
		switch {
		case !back:
			c.Violate("stuck", "%s: the request does not return (timeouts %v %v %v)\n%s", desc, conf.PartyTimeout, conf.KeyGenTimeout, conf.KeySignTimeout, allStacks())
		case took > limit:
			c.Violate("too-long", "%s: the request took %v (timeouts %v %v %v)", desc, took, conf.PartyTimeout, conf.KeyGenTimeout, conf.KeySignTimeout)
		}
		c.Count("requests timed", 1)
		c.Sample("bound", "%s: %v (timeouts %v %v %v)", desc, took, conf.PartyTimeout, conf.KeyGenTimeout, conf.KeySignTimeout)
		c.Case(fmt.Sprintf("bound %s %d", desc, i), true)
	}
}

// trickle: the peers come one by one, each shortly before the party would have been given up.
func trickle(c *Ctx, i int) {
	r := c.Rand("trickle", i)
	conf := common.TssConfig{PartyTimeout: 12 * time.Second, KeyGenTimeout: 2 * time.Second, KeySignTimeout: 2 * time.Second, PreParamTimeout: time.Second}
	o := &one29{nodes: randNodes(r, 8), ids: map[string]bool{}}
	o.pool = dealKey(r, o.nodes, thresholdOf(8))
	o.oth = o.nodes[1:]
	o.pp = newPuppets(o.oth)
	defer o.close()
	ss, err := startGroup(c, fmt.Sprintf("t%d", i), o.nodes[:1], conf, o.pool)
	if err == nil {
		o.s = ss[0]
		err = o.pp.meet(o.s, 1000)
	}
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	var once sync.Once
	stop := make(chan struct{})
	o.pp.onJoin = func(p int, from peer.ID, proto protocol.ID, session string) {
		once.Do(func() {
			go func() {
				for q := 0; q < len(o.oth)-1; q++ {
					select {
					case <-stop:
						return
					case <-time.After(10 * time.Second):
					}
					o.announce([]int{q}, session)
					o.flood(r, session, 2)
				}
			}()
		})
	}
	start := time.Now()
	back := Within(3*time.Minute, func() {
		if i%2 == 0 {
			_, _ = o.s.Keygen(keygen.NewRequest(bechs(o.nodes), 10, "0.13.0"))
		} else {
			_, _ = o.s.KeySign(keysign.NewRequest(o.pool.Bech, []string{b64(r, 32)}, 10, bechs(o.nodes), "0.13.0"))
		}
	})
	close(stop)
	took := time.Since(start)
	if !back || took > conf.PartyTimeout+conf.KeyGenTimeout+grace29 {
		c.Violate("too-long", "peers that come one every 10 s: the request took %v, returned %v (timeouts %v %v)", took, back, conf.PartyTimeout, conf.KeyGenTimeout)
	}
	c.Count("requests timed", 1)
	c.Case(fmt.Sprintf("trickle %d", i), true)
}

func stopScenario(c *Ctx, i int) {
	r := c.Rand("stop", i)
	conf := common.TssConfig{PartyTimeout: 100 * time.Second, KeyGenTimeout: 100 * time.Second, KeySignTimeout: 100 * time.Second, PreParamTimeout: time.Second}
	o, err := start29(c, r, fmt.Sprintf("st%d", i), conf)
	if err != nil {
		return
	}
	defer o.pp.close()
	kind := []string{"absent", "partly", "early messages", "silent", "noise", "leader", "outsider"}[i%7]
	o.pp.mode = []string{"", "hold", "mute"}[r.Intn(3)]
	var desc string
	var ended time.Time
	done := make(chan struct{})
	go func() {
		defer close(done)
		desc, _, _ = o.op29(c, r, kind, false)
		ended = time.Now()
	}()
	wait := time.Duration(100+c.Rand("stopat", i).Intn(6000)) * time.Millisecond
	time.Sleep(wait)
	stopped := time.Now()
	if !Within(stop29+40*time.Second, o.s.Stop) {
		c.Violate("stop-stuck", "%s: stopping the node after %v does not return\n%s", kind, wait, allStacks())
		return
	}
	took := time.Since(stopped)
	select {
	case <-done:
		if d := ended.Sub(stopped); d > stop29 {
			c.Violate("stop-late", "%s: returns %v after the node was told to stop (%v after the request)", desc, d, wait)
		} else {
			c.Sample("stop", "%s: stopped after %v, returned after another %v (Stop itself %v)", desc, wait, d, took)
		}
	case <-time.After(stop29):
		c.Violate("stop-late", "%s: did not return within %v after the node was told to stop (%v after the request)\n%s", kind, time.Since(stopped), wait, allStacks())
	}
	c.Count("requests stopped", 1)
	c.Case(fmt.Sprintf("stop %s %d", kind, i), true)
}

// ---- what is left behind ----

var reArgs = regexp.MustCompile(`\(0x[^)]*\)|\([^()]*\.\.\.\)|0x[0-9a-f]+|\+0x[0-9a-f]+|:\d+`)

// goroutinesOf counts goroutines by the code they belong to; only those of the library and the ceremony library.
func goroutinesOf() (map[string]int, int, map[string]string) {
	var buf []byte
	for n := 1 << 20; ; n *= 2 {
		buf = make([]byte, n)
		if k := runtime.Stack(buf, true); k < n {
			buf = buf[:k]
			break
		}
	}
	out := map[string]int{}
	example := map[string]string{}
	total := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "thorchain/tss/go-tss/") && !strings.Contains(g, "tss-lib") {
			continue
		}
		var fr []string
		for _, l := range strings.Split(g, "\n")[1:] {
			if !strings.HasPrefix(l, "\t") && (strings.Contains(l, "go-tss") || strings.Contains(l, "tss-lib")) {
				fr = append(fr, reArgs.ReplaceAllString(l, ""))
			}
		}
		k := strings.Join(fr, " < ")
		if strings.HasPrefix(k, "main.") {
			continue
		}
		out[k]++
		total++
		example[k] = g
	}
	return out, total, example
}

// retained finds session ids in everything the library keeps, reachable from the node.
func retained(s *srv, ids map[string]bool) []string {
	var out []string
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, path string, depth int)
	ours := func(t reflect.Type) bool {
		return strings.Contains(t.PkgPath(), "go-tss") && t.Name() != "StreamMgr"
	}
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 14 || len(out) > 20 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] || !(ours(v.Elem().Type()) || v.Elem().Kind() != reflect.Struct) {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem(), path, depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path, depth+1)
			}
		case reflect.Struct:
			if !ours(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				if k.Kind() == reflect.String && ids[k.String()] {
					out = append(out, path+"["+k.String()+"]")
				} else {
					walk(k, path+"[key]", depth+1)
				}
				walk(v.MapIndex(k), path+"[]", depth+1)
			}
		case reflect.Slice, reflect.Array:
			if k := v.Type().Elem().Kind(); k == reflect.Uint8 || k == reflect.Bool {
				return
			}
			for i := 0; i < v.Len() && i < 5000; i++ {
				walk(v.Index(i), path+"[]", depth+1)
			}
		case reflect.String:
			if ids[v.String()] {
				out = append(out, path+" = "+v.String())
			}
		}
	}
	walk(reflect.ValueOf(s.TssServer), "node", 0)
	return out
}

func leakPhase(c *Ctx) {
	g := c.N(8, 12)
	rounds := c.N(8, 30)
	conf := common.TssConfig{PartyTimeout: 600 * time.Millisecond, KeyGenTimeout: 2500 * time.Millisecond, KeySignTimeout: 1200 * time.Millisecond, PreParamTimeout: time.Second}
	var os []*one29
	for k := 0; k < g; k++ {
		o, err := start29(c, c.Rand("leak", k), fmt.Sprintf("l%d", k), conf)
		if err != nil {
			return
		}
		defer o.close()
		os = append(os, o)
	}
	// and a group that really generates and signs
	r := c.Rand("leakgroup", 0)
	nodes := randNodes(r, 3)
	pool := dealKey(r, nodes, thresholdOf(3))
	group, err := startGroup(c, "leakgroup", nodes, common.TssConfig{PartyTimeout: 10 * time.Second, KeyGenTimeout: 60 * time.Second, KeySignTimeout: 60 * time.Second, PreParamTimeout: time.Second}, pool)
	defer stopGroup(group)
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	kinds := []string{"absent", "partly", "early messages", "silent", "noise", "leader", "outsider", "refused"}
	run := func(phase, n int) {
		var wg sync.WaitGroup
		for k, o := range os {
			k, o := k, o
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := c.Rand(fmt.Sprintf("leakrun%d", phase), k)
				for j := 0; j < n && !c.Violated(); j++ {
					kind := kinds[(j+k)%len(kinds)]
					desc, _, back := o.op29(c, rr, kind, j%2 == 0)
					if !back {
						c.Violate("stuck", "%s: the request does not return\n%s", desc, allStacks())
						return
					}
					c.Case(fmt.Sprintf("leak %d %d %d %s", phase, k, j, desc), true)
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := c.Rand(fmt.Sprintf("leakgroup%d", phase), 1)
			for j := 0; j < 1+n/3 && !c.Violated(); j++ {
				delay := map[int]time.Duration{0: 0, 1: 0, 2: 0}
				keys := bechs(nodes)
				msg := b64(rr, 32)
				together(c, group, "successful requests", 2*time.Minute, delay, func(i int, o *opRes) {
					if j%3 == 0 {
						o.gen, o.err = group[i].Keygen(keygen.NewRequest(append([]string(nil), keys...), 10, "0.13.0"))
					} else {
						o.sig, o.err = group[i].KeySign(keysign.NewRequest(pool.Bech, []string{msg}, 10, append([]string(nil), keys...), "0.13.0"))
					}
					if o.err == nil && (o.gen.Status == common.Success || o.sig.Status == common.Success) {
						c.Count("requests that succeeded in between", 1)
					}
				})
			}
		}()
		wg.Wait()
	}
	// the count settles when the streams that nobody answers have timed out
	settle := func(below int) (map[string]int, int, map[string]string) {
		var m map[string]int
		var n int
		var ex map[string]string
		for end := time.Now().Add(25 * time.Second); ; {
			m, n, ex = goroutinesOf()
			if n <= below || time.Now().After(end) {
				return m, n, ex
			}
			time.Sleep(500 * time.Millisecond)
		}
	}
	run(0, 2)
	if c.Violated() {
		return
	}
	base, n0, _ := settle(0)
	run(1, rounds)
	if c.Violated() {
		return
	}
	ops := g * rounds
	after, n1, ex := settle(n0 + 2)
	c.Sample("leak", "goroutines of the library: %d before and %d after %d requests on %d nodes", n0, n1, ops, g)
	if n1 > n0+ops/8 {
		var l []string
		for k, v := range after {
			if v > base[k] {
				l = append(l, fmt.Sprintf("%d more: %s\n%s", v-base[k], k, ex[k]))
			}
		}
		sort.Strings(l)
		c.Violate("goroutines", "%d goroutines of the library before and %d after %d requests on %d nodes\n%s", n0, n1, ops, g, strings.Join(l, "\n\n"))
	}
	for _, o := range os {
		for _, path := range retained(o.s, o.ids) {
			c.Violate("retained", "after %d requests the node still keeps the session %s", rounds, path)
		}
		c.Count("sessions looked for", len(o.ids))
	}
}
