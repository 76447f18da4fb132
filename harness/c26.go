package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/prometheus/client_golang/prometheus"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/monitor"
)

func init() { register("C26", checkC26) }

func checkC26(c *Ctx) {
	c.Rule = "sequences of key generations and signings on complete nodes with monitoring enabled: succeeding, with absent participants, with participants that fall silent, refused, not a signer, two at a time; after each the counters and gauges each node exports compared with what the requests returned and how long they took; and the metric object alone, updated concurrently; non-trivial = a counter changed"
	c.Parallel(c.N(200, 2000), 0, func(i int) { metricAlone(c, i) })
	g := c.N(5, 16)
	c.Parallel(g, 5, func(i int) { counterGroup(c, i) })
	c.Require("operations that succeeded", int64(2*g))
	c.Require("operations that failed to form a party", int64(2*g))
	c.Require("operations that failed after forming", int64(g))
	c.Require("operations refused", int64(g))
	c.Require("signatures received from others", int64(g/2))
	c.Require("two at a time", int64(g/2))
}

const (
	mGenOK   = "Tss_Tss_keygen success"
	mGenBad  = "Tss_Tss_keygen failure"
	mSigOK   = "Tss_Tss_keysign success"
	mSigBad  = "Tss_Tss_keysign failure"
	mJGenOK  = "Tss_Tss_join_party keygen success"
	mJGenBad = "Tss_Tss_join_party keygen failure"
	mJSigOK  = "Tss_Tss_join_party keysign success"
	mJSigBad = "Tss_Tss_join_party keysign failure"
	mGenTime = "Tss_Tss_keygen_time"
	mSigTime = "Tss_Tss_keysign_time"
	mJGTime  = "Tss_Tss_joinparty_time keygen"
	mJSTime  = "Tss_Tss_joinparty_time keysign"
)

var allMetrics = []string{mGenOK, mGenBad, mSigOK, mSigBad, mJGenOK, mJGenBad, mJSigOK, mJSigBad, mGenTime, mSigTime, mJGTime, mJSTime}

// exported returns everything in a registry, by name and label values.
func exported(reg *prometheus.Registry) (map[string]float64, error) {
	fs, err := reg.Gather()
	if err != nil {
		return nil, err
	}
	out := map[string]float64{}
	for _, f := range fs {
		for _, m := range f.Metric {
			l := map[string]string{}
			for _, p := range m.Label {
				l[p.GetName()] = p.GetValue()
			}
			name := f.GetName()
			for _, k := range []string{"type", "status", "result"} {
				if l[k] != "" {
					name += " " + l[k]
					delete(l, k)
				}
			}
			for k, v := range l {
				name += " " + k + "=" + v
			}
			switch {
			case m.Counter != nil:
				out[name] = m.Counter.GetValue()
			case m.Gauge != nil:
				out[name] = m.Gauge.GetValue()
			}
		}
	}
	return out, nil
}

// metricAlone updates one metric object concurrently.
func metricAlone(c *Ctx, i int) {
	r := c.Rand("metric", i)
	m := monitor.NewMetric()
	regMu.Lock()
	old := prometheus.DefaultRegisterer
	reg := prometheus.NewRegistry()
	prometheus.DefaultRegisterer = reg
	m.Enable()
	prometheus.DefaultRegisterer = old
	regMu.Unlock()
	want := map[string]float64{}
	times := map[string]map[float64]bool{}
	var calls []func()
	for k := 1 + r.Intn(40); k > 0; k-- {
		d := time.Duration(1 + r.Int63n(int64(time.Hour)))
		ok := r.Intn(2) == 0
		pick := func(good, bad, gauge string, f func(time.Duration, bool)) {
			if ok {
				want[good]++
				if times[gauge] == nil {
					times[gauge] = map[float64]bool{}
				}
				times[gauge][float64(d)] = true
			} else {
				want[bad]++
			}
			calls = append(calls, func() { f(d, ok) })
		}
		switch r.Intn(4) {
		case 0:
			pick(mGenOK, mGenBad, mGenTime, m.UpdateKeyGen)
		case 1:
			pick(mSigOK, mSigBad, mSigTime, m.UpdateKeySign)
		case 2:
			pick(mJGenOK, mJGenBad, mJGTime, m.KeygenJoinParty)
		default:
			pick(mJSigOK, mJSigBad, mJSTime, m.KeysignJoinParty)
		}
	}
	one := r.Intn(2) == 0
	var last map[string]float64
	if one {
		// one after the other: the gauges hold the latest
		for _, f := range calls {
			f()
		}
	} else {
		var wg sync.WaitGroup
		for _, f := range calls {
			f := f
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
	}
	last, err := exported(reg)
	if err != nil {
		c.Violate("gather", "%v", err)
		return
	}
	for _, k := range allMetrics[:8] {
		if last[k] != want[k] {
			c.Violate("count", "%d updates: %s is %v, expected %v", len(calls), k, last[k], want[k])
		}
	}
	for _, k := range allMetrics[8:] {
		v, had := last[k]
		if had && v != 0 && !times[k][v] || len(times[k]) > 0 && !times[k][v] {
			c.Violate("time", "%d updates: %s is %v, not a duration of a success %v", len(calls), k, v, times[k])
		}
	}
	c.Count("metric updates", len(calls))
	c.Case(fmt.Sprint(want), true)
}

type tallyOp struct {
	kind   string
	isGen  bool
	gap    time.Duration // from the first start to the last
	refuse bool
	joinOK int // 1: the party surely forms on a node called; -1: surely not; 0: either or not tried
}

func counterGroup(c *Ctx, i int) {
	r := c.Rand("counters", i)
	nodes := randNodes(r, 4)
	pool := dealKey(r, nodes, thresholdOf(4))      // three of four sign
	small := dealKey(r, nodes[:3], thresholdOf(3)) // two of three sign
	conf := common.TssConfig{PartyTimeout: 3 * time.Second, KeyGenTimeout: 15 * time.Second, KeySignTimeout: 14 * time.Second, PreParamTimeout: time.Second, EnableMonitor: true}
	ss, err := startGroup(c, fmt.Sprintf("m%d", i), nodes[:3], conf, pool, small)
	defer stopGroup(ss)
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	pp := newPuppets(nodes[3:])
	defer pp.close()
	for k, s := range ss {
		if err := pp.meet(s, 1000+k); err != nil {
			c.Inconclusive("cannot connect to a node: %v", err)
			return
		}
	}
	prev := make([]map[string]float64, len(ss))
	for k, s := range ss {
		if prev[k], err = exported(s.reg); err != nil {
			c.Violate("gather", "%v", err)
			return
		}
	}
	kinds := []string{"sign", "sign leader", "generate", "absent sign", "absent sign leader", "absent generate", "refused", "outsider", "silent", "pair", "sign", "received", "received leader", "refused", "absent generate"}
	if c.Thorough {
		kinds = append(kinds, kinds...)
		kinds = append(kinds, kinds...)
	}
	for _, k := range r.Perm(len(kinds)) {
		if c.Violated() {
			return
		}
		counterOp(c, r, pp, ss, pool, small, nodes, kinds[k], prev)
	}
}

func counterOp(c *Ctx, r *rand.Rand, pp *puppets, ss []*srv, pool, small *Pool, nodes []*Node, kind string, prev []map[string]float64) {
	op := tallyOp{kind: kind}
	delay := map[int]time.Duration{}
	late := time.Duration(300+r.Intn(1200)) * time.Millisecond
	for k := range ss {
		delay[k] = 0
	}
	who := r.Intn(3)
	height := int64(1 + r.Intn(100000))
	version := []string{"0.13.0", "0.14.0"}[r.Intn(2)]
	msgs := b64s([][]byte{randBytes(r, 32)})
	var keys []string
	poolKey := pool.Bech
	outsider := -1
	parallel := 1
	switch kind {
	case "sign":
		version, op.joinOK = "0.13.0", 1
		keys = bechs(nodes[:3])
		delay[who] = late
		op.gap = late
	case "sign leader":
		version = "0.14.0"
		keys = bechs(nodes)
	case "generate":
		op.isGen, op.joinOK = true, 1
		keys = bechs(nodes[:3])
		delay[who] = late
		op.gap = late
	case "absent sign", "absent sign leader":
		op.joinOK = -1
		version = "0.13.0"
		if kind != "absent sign" {
			version = "0.14.0"
		}
		keys = bechs(nodes[:3])
		delete(delay, who)
		if r.Intn(3) == 0 {
			delete(delay, (who+1)%3)
		}
	case "absent generate":
		op.isGen, op.joinOK = true, -1
		keys = bechs(nodes)
	case "refused":
		op.refuse, op.joinOK = true, -1
		keys = bechs(nodes[:3])
		switch r.Intn(6) {
		case 0:
			op.isGen = true
			version = "1.x"
		case 1:
			version = ""
		case 2:
			poolKey = nodes[0].Bech
		case 3:
			msgs = []string{"not base64!"}
		case 4:
			version, keys = "0.13.0", keys[:2]
		case 5:
			version, keys = "0.13.0", nil
		}
	case "outsider":
		// the request names three signers, one of them a puppet that stays away; the third node is not among them
		version = "0.13.0"
		outsider = 2
		keys = []string{nodes[0].Bech, nodes[1].Bech, nodes[3].Bech}
	case "received":
		// two of three sign, the third is told the signature
		version, poolKey = "0.13.0", small.Bech
		outsider = r.Intn(3)
		for k, nd := range nodes[:3] {
			if k != outsider {
				keys = append(keys, nd.Bech)
			}
		}
	case "received leader":
		version, poolKey = "0.14.0", small.Bech
		keys = bechs(nodes[:3])
	case "silent":
		// the puppet joins and then says nothing
		version, op.joinOK = "0.13.0", 1
		op.isGen = r.Intn(2) == 0
		if op.isGen {
			keys = bechs(nodes)
		} else {
			keys = []string{nodes[0].Bech, nodes[1].Bech, nodes[3].Bech}
			delete(delay, 2)
		}
		var once sync.Map
		pp.mu.Lock()
		pp.onJoin = func(p int, from peer.ID, proto protocol.ID, session string) {
			if _, dup := once.LoadOrStore(from.String()+session, true); dup {
				return
			}
			for _, s := range ss {
				s := s
				go func() {
					for n := 0; n < 4; n++ {
						_, _ = rawSend(pp.hosts[p].Host, s.nd.Peer, protoLeaderless, frameOf(joinRequest(session)), 0)
						time.Sleep(300 * time.Millisecond)
					}
				}()
			}
		}
		pp.mu.Unlock()
		defer func() { pp.mu.Lock(); pp.onJoin = nil; pp.mu.Unlock() }()
	case "pair":
		version, op.joinOK = "0.13.0", 1
		keys = bechs(nodes[:3])
		parallel = 2
	}
	desc := fmt.Sprintf("%s (key generation %v, version %q, %d keys, called %v)", kind, op.isGen, version, len(keys), delay)
	type part struct{ res []*opRes }
	parts := make([]part, parallel)
	var wg sync.WaitGroup
	for p := 0; p < parallel; p++ {
		p := p
		m := msgs
		if p > 0 {
			m = b64s([][]byte{randBytes(r, 32)})
		}
		seeds := []int64{r.Int63(), r.Int63(), r.Int63()}
		wg.Add(1)
		go func() {
			defer wg.Done()
			parts[p].res = together(c, ss, desc, 120*time.Second, delay, func(i int, o *opRes) {
				rr := rand.New(rand.NewSource(seeds[i]))
				if op.isGen {
					o.gen, o.err = ss[i].Keygen(keygen.NewRequest(shuffled(rr, keys), height, version))
				} else {
					o.sig, o.err = ss[i].KeySign(keysign.NewRequest(poolKey, append([]string(nil), m...), height, shuffled(rr, keys), version))
				}
			})
		}()
	}
	wg.Wait()
	if c.Violated() {
		return
	}
	changed := false
	for i, s := range ss {
		now, err := exported(s.reg)
		if err != nil {
			c.Violate("gather", "%v", err)
			return
		}
		d := func(k string) float64 { return now[k] - prev[i][k] }
		say := desc + fmt.Sprintf(" node %d", i)
		var good, bad float64
		var longest time.Duration
		for _, p := range parts {
			o := p.res[i]
			if !o.called {
				continue
			}
			ok := o.err == nil && (op.isGen && o.gen.Status == common.Success || !op.isGen && o.sig.Status == common.Success)
			if ok {
				good++
			} else {
				bad++
			}
			if o.wall > longest {
				longest = o.wall
			}
			say += fmt.Sprintf(" [success %v after %v err %v]", ok, o.wall, o.err)
		}
		say += ": exported"
		for _, k := range allMetrics {
			if d(k) != 0 {
				say += fmt.Sprintf(" %s %v->%v", k, prev[i][k], now[k])
				changed = true
			}
		}
		for k := range now {
			at := sort.SearchStrings(sortedMetrics, k)
			if at == len(sortedMetrics) || sortedMetrics[at] != k {
				c.Violate("unknown", "%s: exports %s", say, k)
			}
		}
		sOK, sBad, jOK, jBad, gauge, jGauge := mSigOK, mSigBad, mJSigOK, mJSigBad, mSigTime, mJSTime
		oOK, oBad, ojOK, ojBad, oGauge, ojGauge := mGenOK, mGenBad, mJGenOK, mJGenBad, mGenTime, mJGTime
		if op.isGen {
			sOK, oOK, sBad, oBad, jOK, ojOK, jBad, ojBad, gauge, oGauge, jGauge, ojGauge = oOK, sOK, oBad, sBad, ojOK, jOK, ojBad, jBad, oGauge, gauge, ojGauge, jGauge
		}
		for _, k := range []string{oOK, oBad, ojOK, ojBad, oGauge, ojGauge} {
			if d(k) != 0 {
				c.Violate("other-kind", "%s: %s belongs to the other kind", say, k)
			}
		}
		if op.refuse && good == 0 {
			// refused before any ceremony: it may or may not be counted as a failure, never twice, never as a success
			if d(sOK) != 0 || d(jOK) != 0 || d(sBad) < 0 || d(sBad) > bad || d(jBad) < 0 || d(jBad) > bad || d(gauge) != 0 || d(jGauge) != 0 {
				c.Violate("refused", "%s", say)
			}
			if bad > 0 {
				c.Count("operations refused", 1)
			}
			prev[i] = now
			continue
		}
		if d(sOK) != good || d(sBad) != bad {
			c.Violate("outcome", "%s: expected %v successes and %v failures", say, good, bad)
		}
		calls := good + bad
		j := d(jOK) + d(jBad)
		switch {
		case d(jOK) < 0 || d(jBad) < 0 || j > calls:
			c.Violate("forming", "%s: %v calls", say, calls)
		case i == outsider:
			if d(jOK) != 0 || d(jBad) != 0 {
				c.Violate("forming", "%s: this node formed no party", say)
			}
		case op.joinOK == -1 && (d(jOK) != 0 || d(jBad) != calls):
			c.Violate("forming", "%s: the party cannot form, expected %v failures", say, calls)
		case op.joinOK == 1 && good == calls && d(jOK) != calls:
			c.Violate("forming", "%s: the ceremony succeeded with all, expected %v successes", say, calls)
		case op.joinOK == 1 && j != calls:
			c.Violate("forming", "%s: every call tried to form a party", say)
		case op.isGen && j != calls:
			c.Violate("forming", "%s: every key generation forms a party", say)
		}
		// the gauges
		switch {
		case good == 0:
			if d(gauge) != 0 {
				c.Violate("gauge", "%s: %s changed without a success", say, gauge)
			}
		case now[gauge] <= 0 || now[gauge] > float64(longest):
			c.Violate("gauge", "%s: %s is %v", say, gauge, time.Duration(now[gauge]))
		case parallel == 1:
			low := float64(longest) / 2
			if op.isGen {
				// without the time the party took to form
				low = float64(longest-time.Duration(now[jGauge])) / 2
				if now[gauge]+now[jGauge] > float64(longest) {
					c.Violate("gauge", "%s: %s and %s together are longer than the request", say, gauge, jGauge)
				}
			}
			if now[gauge] < low {
				c.Violate("gauge", "%s: %s is %v", say, gauge, time.Duration(now[gauge]))
			}
		}
		switch {
		case d(jOK) == 0:
			if d(jGauge) != 0 {
				c.Violate("gauge", "%s: %s changed without a party formed", say, jGauge)
			}
		case now[jGauge] <= 0 || now[jGauge] > float64(longest):
			c.Violate("gauge", "%s: %s is %v", say, jGauge, time.Duration(now[jGauge]))
		case parallel == 1 && op.gap > 0 && parts[0].res[i].start.Before(lastStart(parts[0].res)):
			if w := lastStart(parts[0].res).Sub(parts[0].res[i].start); now[jGauge] < float64(w-100*time.Millisecond) {
				c.Violate("gauge", "%s: %s is %v, but the party was complete only after %v", say, jGauge, time.Duration(now[jGauge]), w)
			}
		}
		if calls > 0 {
			switch {
			case good > 0:
				c.Count("operations that succeeded", int(good))
			case d(jBad) > 0:
				c.Count("operations that failed to form a party", int(bad))
			case d(jOK) > 0:
				c.Count("operations that failed after forming", int(bad))
			}
		}
		if i == outsider && good > 0 {
			c.Count("signatures received from others", 1)
		}
		if calls > 1 {
			c.Count("two at a time", 1)
		}
		prev[i] = now
		c.Sample(kind, "%s", say)
	}
	c.Case(fmt.Sprintf("%s %v %v %d", kind, version, height, who), changed)
}

var sortedMetrics = func() []string { l := append([]string(nil), allMetrics...); sort.Strings(l); return l }()

func lastStart(res []*opRes) (t time.Time) {
	for _, o := range res {
		if o.called && o.start.After(t) {
			t = o.start
		}
	}
	return t
}
