package main

import (
	"fmt"
	"time"

	"gitlab.com/thorchain/tss/go-tss/storage"
)

func init() { register("C20", checkC20) }

func checkC20(c *Ctx) {
	c.Rule = "threshold of every group size up to 60,000 and of random sizes up to 2^48 against exact integer arithmetic, negative sizes; real signing on dealt and on freshly generated pools of n=2..7 by t+1 (must succeed), by more, and by 1..t signers (must be refused without a share leaving the node); non-trivial = non-zero size"
	thresholdArithmetic(c)
	type job struct {
		n, k int
	}
	var jobs []job
	for n := 2; n <= 7; n++ {
		t := thresholdRef(n)
		for k := 1; k <= t+1; k++ {
			jobs = append(jobs, job{n, k})
		}
	}
	if c.Thorough {
		for n := 8; n <= 10; n++ {
			jobs = append(jobs, job{n, thresholdRef(n)}, job{n, thresholdRef(n) + 1})
		}
		for k := 0; k < 20; k++ {
			n := 2 + k%6
			jobs = append(jobs, job{n, thresholdRef(n) + 1}, job{n, n})
		}
	}
	c.Parallel(len(jobs), 4, func(ji int) {
		j := jobs[ji]
		r := c.Rand("sign", ji)
		signWith(c, dealKey(r, randNodes(r, j.n), thresholdRef(j.n)), r.Perm(j.n)[:j.k], fmt.Sprintf("dealt pool of %d", j.n), ji)
	})
	// pools made by the real key generation
	for gi, n := range []int{3, 4} {
		r := c.Rand("gen", gi)
		nodes := randNodes(r, n)
		cr := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint("c20", gi)), Timeout: 40 * time.Second}
		if !cr.RunKeygen(c, func(i int) []string { return shuffled(r, bechs(nodes)) }) {
			c.Inconclusive("key generation of the sample pool hung (decided by C01)")
			continue
		}
		p := &Pool{Nodes: nodes, T: thresholdRef(n)}
		for i := range nodes {
			sv := cr.Res[i].State.saved()
			if len(sv) != 1 || cr.Res[i].Err != nil {
				break
			}
			p.State = append(p.State, sv[0])
			p.Bech, p.X, p.Y = sv[0].PubKey, cr.Res[i].Pub.X(), cr.Res[i].Pub.Y()
		}
		if len(p.State) != n {
			c.Inconclusive("key generation of the sample pool failed (decided by C01)")
			continue
		}
		// exactly t+1 shares determine the key
		var st []storage.KeygenLocalState
		st = append(st, p.State...)
		perm := r.Perm(n)
		var sub []storage.KeygenLocalState
		for _, i := range perm[:p.T+1] {
			sub = append(sub, st[i])
		}
		full := combine(st)
		if combine(sub).Cmp(full) != 0 {
			c.Violate("generated-threshold", "pool of %d: %d shares do not determine the key", n, p.T+1)
		}
		if combine(sub[:p.T]).Cmp(full) == 0 {
			c.Violate("generated-threshold", "pool of %d: only %d shares determine the key", n, p.T)
		}
		signWith(c, p, r.Perm(n)[:p.T+1], fmt.Sprintf("generated pool of %d", n), 1000+gi)
		signWith(c, p, r.Perm(n)[:p.T], fmt.Sprintf("generated pool of %d", n), 2000+gi)
	}
	c.Require("signed_with_enough", 8)
	c.Require("refused_with_too_few", 10)
}

func signWith(c *Ctx, pool *Pool, who []int, what string, id int) {
	n, t := len(pool.Nodes), thresholdRef(len(pool.Nodes))
	in := map[int]bool{}
	for _, i := range who {
		in[i] = true
	}
	var signers []*Node
	for i := 0; i < n; i++ {
		if in[i] {
			signers = append(signers, pool.Nodes[i])
		}
	}
	r := c.Rand("msg", id)
	msgs := [][]byte{randMessage(r, nil)}
	cr := &Cer{Nodes: signers, MsgID: sessionID(fmt.Sprint("c20s", c.Seed, id)), Timeout: 30 * time.Second}
	desc := fmt.Sprintf("%s (threshold %d), %d signers", what, t, len(who))
	enough := len(who) > t
	if !enough {
		cr.Timeout = 8 * time.Second
	}
	if !cr.RunKeysign(c, pool, msgs, func(int) []string { return shuffled(c.Rand("o", id), bechs(signers)) }) {
		c.Violate("hang", "%s: signing did not return", desc)
		return
	}
	for i := range signers {
		res := cr.Res[i]
		if enough {
			if res.Err != nil || len(res.Sigs) != 1 {
				c.Violate("enough-refused", "%s: node %d: %v (%d signatures)", desc, i, res.Err, len(res.Sigs))
				continue
			}
			if bad := verifySig(res.Sigs[0], msgs[0], pool.X, pool.Y); bad != "" {
				c.Violate("enough-invalid", "%s: node %d: %s", desc, i, bad)
			}
			c.Count("signed_with_enough", 1)
			continue
		}
		if res.Err == nil || len(res.Sigs) != 0 {
			c.Violate("few-accepted", "%s: node %d returned %d signatures, err %v", desc, i, len(res.Sigs), res.Err)
		}
		c.Count("refused_with_too_few", 1)
	}
	if !enough {
		for _, e := range cr.Events() {
			if e.isShare() {
				c.Violate("few-accepted", "%s: node %d sent a %s share instead of refusing", desc, e.From, e.Wire.RoundInfo)
				break
			}
		}
	}
	c.Case(desc, true)
	c.Sample(fmt.Sprintf("enough=%v", enough), "%s", desc)
}
