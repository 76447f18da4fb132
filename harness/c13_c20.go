package main

import (
	"fmt"
	"math"
	"math/big"
	"sync"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() {
	register("C13", checkC13)
}

func checkC13(c *Ctx) {
	c.Rule = "random session ids, heights (incl. extremes and negatives) and peer lists of 1..40; each elected on 4 permutations, concurrently; non-trivial = at least two peers"
	pool := make([]string, 60)
	for i := range pool {
		pool[i] = randNode(c.Rand("peer", i)).Peer.String()
	}
	n := c.N(6000, 100000)
	c.Parallel(n, 0, func(i int) {
		r := c.Rand("elect", i)
		k := 1 + r.Intn(8)
		if r.Intn(10) == 0 {
			k = 1 + r.Intn(40)
		}
		peers := shuffled(r, pool)[:k]
		var msg string
		switch r.Intn(5) {
		case 0:
			msg = string(randBytes(r, 1+r.Intn(4)))
		case 1:
			msg = fmt.Sprint(r.Intn(100))
		default:
			msg = fmt.Sprintf("%x", randBytes(r, 32))
		}
		var h int64
		switch r.Intn(6) {
		case 0:
			h = int64(r.Intn(20)) + 1
		case 1:
			h = -int64(r.Intn(1000)) - 1
		case 2:
			h = math.MaxInt64 - int64(r.Intn(3))
		case 3:
			h = math.MinInt64 + int64(r.Intn(3))
		default:
			h = 1 + r.Int63n(1<<40)
		}
		desc := fmt.Sprintf("msg=%q height=%d peers=%d", msg, h, k)
		c.Guard("C13", desc, func() {
			var first string
			for v := 0; v < 5; v++ {
				in := shuffled(r, peers)
				cp := append([]string{}, in...)
				l, err := p2p.LeaderNode(msg, h, in)
				if err != nil {
					c.Violate("valid-input-refused", "%s: %v", desc, err)
					return
				}
				member := false
				for j := range cp {
					member = member || cp[j] == l
				}
				if !member {
					c.Violate("not-a-member", "%s: leader %q", desc, l)
				}
				if v == 0 {
					first = l
				} else if l != first {
					c.Violate("order-dependent", "%s: leaders %s and %s for permutations of %v", desc, first, l, cp)
				}
				// the caller's list must keep describing the same participants
				if !sameStrings(in, cp) {
					c.Violate("input-corrupted", "%s: participant list changed", desc)
				}
			}
			c.Count("elections", 5)
			c.Sample("election", "%s leader=%s", desc, first)
		})
		c.Case(desc+fmt.Sprint(peers), k > 1)
	})
	// refused inputs
	for i := 0; i < c.N(200, 2000); i++ {
		r := c.Rand("refuse", i)
		peers := shuffled(r, pool)[:1+r.Intn(6)]
		h := int64(1 + r.Intn(1000))
		c.Guard("C13", "refused inputs", func() {
			if l, err := p2p.LeaderNode("", h, peers); err == nil {
				c.Violate("empty-session-accepted", "leader %q for an empty session id", l)
			}
			if l, err := p2p.LeaderNode("m", 0, peers); err == nil {
				c.Violate("zero-height-accepted", "leader %q for height 0", l)
			}
			if l, err := p2p.LeaderNode("m", h, nil); err == nil {
				c.Violate("no-peers-accepted", "leader %q of no participants", l)
			}
			if l, err := p2p.LeaderNode("m", h, []string{}); err == nil {
				c.Violate("no-peers-accepted", "leader %q of no participants", l)
			}
		})
		c.Case(fmt.Sprintf("refuse%d", i), true)
	}
	// rotation: with either of the two inputs fixed and the other varying every peer leads some ceremony
	for i := 0; i < c.N(24, 120); i++ {
		r := c.Rand("rotate", i)
		k := 2 + r.Intn(6)
		peers := shuffled(r, pool)[:k]
		byMsg, byHeight := map[string]int{}, map[string]int{}
		c.Guard("C13", "rotation", func() {
			fixedMsg := fmt.Sprintf("%x", randBytes(r, 32))
			fixedH := int64(1 + r.Intn(1000000))
			// session ids that share their beginning or their end, and heights that share their low digits
			pre, suf := fmt.Sprintf("%x", randBytes(r, 26)), fmt.Sprintf("%x", randBytes(r, 26))
			step := []int64{1, 1, 1000, 1 << 16, 1 << 32, 1 << 40, 1000000007, -1}[i%8]
			if step < 0 {
				fixedH = -fixedH
			}
			for j := 0; j < 600; j++ {
				id := fmt.Sprintf("%x", randBytes(r, 32))
				switch i % 3 {
				case 1:
					id = pre + fmt.Sprintf("%012x", j)
				case 2:
					id = fmt.Sprintf("%012x", j) + suf
				}
				l1, _ := p2p.LeaderNode(id, fixedH, shuffled(r, peers))
				byMsg[l1]++
				l2, _ := p2p.LeaderNode(fixedMsg, fixedH+int64(j)*step, shuffled(r, peers))
				byHeight[l2]++
			}
		})
		for _, p := range peers {
			if byMsg[p] == 0 {
				c.Violate("no-rotation-by-session", "peer %s of %d never leads over 600 session ids (kind %d): %v", p, k, i%3, byMsg)
			}
			if byHeight[p] == 0 {
				c.Violate("no-rotation-by-height", "peer %s of %d never leads over 600 heights (step kind %d): %v", p, k, i%8, byHeight)
			}
		}
		// no participant dominates: expected 600/k
		for p, m := range byMsg {
			if k > 2 && m > 600*2/k+120 {
				c.Violate("biased", "peer %s leads %d of 600 ceremonies of %d peers", p, m, k)
			}
		}
		c.Case(fmt.Sprintf("rot%d%v", i, peers), true)
		c.Count("rotation-series", 2)
	}
	// concurrent elections on the same inputs agree
	var wg sync.WaitGroup
	res := make([]string, 64)
	r := c.Rand("conc", 0)
	peers := shuffled(r, pool)[:20]
	ins := make([][]string, len(res))
	for i := range res {
		ins[i] = shuffled(r, peers)
	}
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				l, _ := p2p.LeaderNode("conc", 77, ins[i])
				if j > 0 && l != res[i] {
					l = "unstable"
				}
				res[i] = l
			}
		}(i)
	}
	wg.Wait()
	for i := range res {
		if res[i] != res[0] {
			c.Violate("concurrent-disagreement", "%s vs %s", res[i], res[0])
		}
	}
	c.Case("concurrent", true)
	c.Require("elections", 1000)
}

// thresholdRef: largest t with t < 2n/3, in exact integer arithmetic.
func thresholdRef(n int) int {
	x := new(big.Int).Mul(big.NewInt(2), big.NewInt(int64(n)))
	x.Add(x, big.NewInt(2))
	x.Div(x, big.NewInt(3)) // ceil(2n/3)
	return int(x.Int64()) - 1
}

func thresholdArithmetic(c *Ctx) {
	check := func(n int) {
		c.Guard("C20", fmt.Sprintf("n=%d", n), func() {
			t, err := conversion.GetThreshold(n)
			if n < 0 {
				if err == nil {
					c.Violate("negative-accepted", "threshold(%d)=%d", n, t)
				}
				return
			}
			if err != nil {
				c.Violate("size-refused", "threshold(%d): %v", n, err)
				return
			}
			if t != thresholdRef(n) {
				c.Violate("threshold-value", "threshold(%d)=%d, want %d", n, t, thresholdRef(n))
			}
		})
		c.Case(fmt.Sprintf("n=%d", n), n != 0)
		c.Count("sizes", 1)
	}
	for n := -50; n <= c.N(60000, 500000); n++ {
		check(n)
	}
	for i := 0; i < c.N(2000, 20000); i++ {
		r := c.Rand("thr", i)
		check(int(r.Int63n(1 << uint(18+r.Intn(30)))))
		check(-int(r.Int63n(1<<40)) - 1)
	}
}
