package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
)

// What complete nodes answer to a request whose party formed and in which some members then say nothing.

// lagged tells, when stopped, the longest time a sleeping goroutine overslept.
func lagged() func() time.Duration {
	done := make(chan struct{})
	var mu sync.Mutex
	var worst time.Duration
	go func() {
		for {
			select {
			case <-done:
				return
			default:
			}
			at := time.Now()
			time.Sleep(50 * time.Millisecond)
			over := time.Since(at) - 50*time.Millisecond
			mu.Lock()
			if over > worst {
				worst = over
			}
			mu.Unlock()
		}
	}()
	return func() time.Duration {
		close(done)
		mu.Lock()
		defer mu.Unlock()
		return worst
	}
}

type silentOp struct {
	gen    bool
	leader bool
	called []int // the real nodes that take part
	mute   []int // the puppets that take part
}

func silentGroup(c *Ctx, i int, real, mute int, ops []string) {
	r := c.Rand("silentgroup", i)
	n := real + mute
	nodes := randNodes(r, n)
	t := thresholdOf(n)
	pool := dealKey(r, nodes, t)
	conf := common.TssConfig{PartyTimeout: 5 * time.Second, KeyGenTimeout: 14 * time.Second, KeySignTimeout: 9 * time.Second, PreParamTimeout: time.Second}
	ss, err := startGroup(c, fmt.Sprintf("silent%d", i), nodes[:real], conf, pool)
	defer stopGroup(ss)
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	pp := newPuppets(nodes[real:])
	defer pp.close()
	for k, s := range ss {
		if err := pp.meet(s, 1000+k); err != nil {
			c.Inconclusive("cannot connect to a node: %v", err)
			return
		}
	}
	for _, kind := range ops {
		if c.Violated() {
			return
		}
		op := silentOp{gen: kind == "generate" || kind == "generate leader", leader: kind == "generate leader" || kind == "sign leader"}
		op.called, op.mute = r.Perm(real), r.Perm(mute)
		switch kind {
		case "sign some":
			// as few signers as may be
			m := 1 + r.Intn(mute)
			op.called, op.mute = op.called[:t+1-m], op.mute[:m]
		case "sign leader":
			// as many as are needed, so that the leader cannot do without the silent ones
			op.called = op.called[:t+1-mute]
		}
		silentRequest(c, r, kind, op, pp, ss, pool, nodes, real)
	}
}

func silentRequest(c *Ctx, r *rand.Rand, kind string, op silentOp, pp *puppets, ss []*srv, pool *Pool, nodes []*Node, real int) {
	var party []*Node
	delay := map[int]time.Duration{}
	for _, k := range op.called {
		party = append(party, nodes[k])
		delay[k] = 0
	}
	var want []string
	for _, k := range op.mute {
		party = append(party, nodes[real+k])
		want = append(want, nodes[real+k].Bech)
	}
	keys := bechs(party)
	inParty := map[int]bool{}
	for _, k := range op.mute {
		inParty[k] = true
	}
	name := func(l []string) []string {
		out := []string{}
		for _, b := range l {
			x := b
			for k, nd := range nodes {
				if nd.Bech == b {
					x = fmt.Sprint("node", k)
					if k >= real {
						x = fmt.Sprint("silent", k)
					}
				}
			}
			out = append(out, x)
		}
		sort.Strings(out)
		return out
	}
	for try := 0; ; try++ {
		// a new session every time
		var msgs []string
		for j := 1 + r.Intn(3); j > 0 && !op.gen; j-- {
			msgs = append(msgs, base64.StdEncoding.EncodeToString(randBytes(r, 32)))
		}
		height := int64(1 + r.Intn(100000))
		desc := fmt.Sprintf("%s: %d nodes and %d silent of %d, %d messages", kind, len(op.called), len(op.mute), len(nodes), len(msgs))
		session := ""
		call := func(version string, h int64, who map[int]time.Duration) []*opRes {
			seed := r.Int63()
			return together(c, ss, desc, 90*time.Second, who, func(i int, o *opRes) {
				rr := rand.New(rand.NewSource(seed + int64(i)))
				if op.gen {
					o.gen, o.err = ss[i].Keygen(keygen.NewRequest(shuffled(rr, keys), h, version))
				} else {
					o.sig, o.err = ss[i].KeySign(keysign.NewRequest(pool.Bech, append([]string(nil), msgs...), h, shuffled(rr, keys), version))
				}
			})
		}
		var mu sync.Mutex
		announce := func(p int, proto protocol.ID, to []*srv, f []byte) {
			for _, s := range to {
				s := s
				go func() {
					for k := 0; k < 5; k++ {
						_, _ = rawSend(pp.hosts[p].Host, s.nd.Peer, proto, f, 0)
						time.Sleep(300 * time.Millisecond)
					}
				}()
			}
		}
		var onlyCalled []*srv
		for _, k := range op.called {
			onlyCalled = append(onlyCalled, ss[k])
		}
		seen := map[string]bool{}
		hook := func(answer bool) {
			pp.mu.Lock()
			pp.onJoin = func(p int, from peer.ID, proto protocol.ID, id string) {
				mu.Lock()
				session = id
				dup := seen[fmt.Sprint(p, id)]
				seen[fmt.Sprint(p, id)] = true
				mu.Unlock()
				if answer && !dup && inParty[p] {
					announce(p, protoLeaderless, onlyCalled, frameOf(joinRequest(id)))
				}
			}
			pp.mu.Unlock()
		}
		version := "0.13.0"
		if op.leader {
			// the session does not depend on the version, and the height decides who leads
			hook(false)
			_ = call(version, height, map[int]time.Duration{op.called[0]: 0})
			if c.Violated() {
				return
			}
			mu.Lock()
			id := session
			mu.Unlock()
			if id == "" {
				c.Inconclusive("the session of a request is not announced")
				return
			}
			all := nodes // signing is led by one of the owners of the pool
			if op.gen {
				all = party
			}
			lead := r.Intn(len(op.called))
			for height = int64(1 + r.Intn(100000)); all[electedOf(id, height, all)] != nodes[op.called[lead]]; height++ {
			}
			version = "0.14.0"
			pp.mu.Lock()
			pp.onJoin = nil
			pp.mu.Unlock()
			for p := range inParty {
				announce(p, protoLeader, []*srv{ss[op.called[lead]]}, frameOf(leaderMsg(id, "request", 0, nil)))
			}
			desc += fmt.Sprintf(", node%d leads", op.called[lead])
		} else {
			hook(true)
		}
		lag := lagged()
		res := call(version, height, delay)
		pp.mu.Lock()
		pp.onJoin = nil
		pp.mu.Unlock()
		late := lag()
		if c.Violated() {
			return
		}
		bad, verdicts := "", 0
		for i, o := range res {
			if !o.called {
				continue
			}
			status, b := o.sig.Status, o.sig.Blame
			if op.gen {
				status, b = o.gen.Status, o.gen.Blame
			}
			var got []string
			for _, x := range b.BlameNodes {
				got = append(got, x.Pubkey)
			}
			if status != common.Fail {
				bad += fmt.Sprintf("node%d answers status %v (error %v); ", i, status, o.err)
				continue
			}
			if !sameStrings(name(got), name(want)) {
				bad += fmt.Sprintf("node%d blames %v (%q, error %v, after %v); ", i, name(got), b.FailReason, o.err, o.wall.Round(time.Millisecond))
			}
			verdicts++
		}
		if bad == "" {
			c.Count("answers of nodes about silent members", verdicts)
			c.Count("silent members on complete nodes: "+kind, 1)
			c.Case("silent "+desc, true)
			c.Sample("answers, "+kind, "%s: every node blames %v", desc, name(want))
			return
		}
		if try < 2 {
			c.Count("requests with silent members repeated", 1)
			continue
		}
		if late > 700*time.Millisecond {
			c.Count("requests with silent members not judged, the machine was too slow", 1)
			return
		}
		c.Violate("answer:"+kind, "%s: %sonly %v said nothing", desc, bad, name(want))
		return
	}
}
