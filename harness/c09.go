package main

import (
	"fmt"
	"sync"
	"time"
)

func init() { register("C09", checkC09) }

func roundIndex(keygen bool, round string) int {
	for i, r := range allRounds[keygen] {
		if r == round {
			return i
		}
	}
	return -1
}

// silencer drops everything the given nodes send from the moment they emit a share of round index >= from. With
// after set, it already drops what follows the node's last share of the round before.
type silencer struct {
	mu    sync.Mutex
	from  map[int]int
	after bool
	dead  map[int]bool
	sent  map[int]int
}

func (s *silencer) drop(cr *Cer, e *cerEvt) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	k, ok := s.from[e.From]
	if !ok {
		return false
	}
	if s.dead == nil {
		s.dead, s.sent = map[int]bool{}, map[int]int{}
	}
	if s.dead[e.From] {
		return true
	}
	if k == 0 {
		s.dead[e.From] = true
		return true
	}
	if e.isShare() {
		ri := roundIndex(cr.Keygen, e.Wire.RoundInfo)
		if ri >= k {
			s.dead[e.From] = true
			return true
		}
		if s.after && ri == k-1 {
			// Filter is called once per receiver of this message
			s.sent[e.From]++
			if s.sent[e.From] == len(cr.Nodes)-1 {
				s.dead[e.From] = true
			}
		}
	}
	return false
}

func checkC09(c *Ctx) {
	c.Rule = "real keygen and keysign ceremonies in which 1..2 participants go silent before the first message, before their share of any later round, or right after their share of a round (withholding confirmations); batches of 1..6; the silent set is few enough for the rest to confirm each other's broadcasts; non-trivial = the ceremony failed on every honest node"
	type job struct {
		kg      bool
		n, s, R int
		batch   int
		after   bool
	}
	var jobs []job
	r0 := c.Rand("jobs", 0)
	for R := 0; R < 8; R++ {
		for _, n := range []int{2, 3, 4} {
			jobs = append(jobs, job{false, n, 1, R, 1 + r0.Intn(6), false})
		}
		jobs = append(jobs, job{false, 5, 1, R, 1 + r0.Intn(3), R%2 == 1})
	}
	for R := 1; R < 8; R++ {
		jobs = append(jobs, job{false, 4, 1, R, 1 + r0.Intn(5), true})
	}
	for _, R := range []int{0, 1 + r0.Intn(2), 3 + r0.Intn(2), 5 + r0.Intn(3)} {
		jobs = append(jobs, job{false, 6, 2, R, 1, R == 4})
	}
	for R := 0; R < 4; R++ {
		jobs = append(jobs, job{true, 3, 1, R, 1, false}, job{true, 4, 1, R, 1, R > 1})
	}
	jobs = append(jobs, job{true, 2, 1, r0.Intn(4), 1, false})
	if c.Thorough {
		for k := 0; k < 6; k++ {
			for R := 0; R < 8; R++ {
				jobs = append(jobs, job{false, 3 + k%4, 1, R, 1 + k*2, k%2 == 1}, job{false, 6 + k%2, 2, R, 1 + k%2, k%2 == 0})
			}
			for R := 0; R < 4; R++ {
				jobs = append(jobs, job{true, 2 + k, 1, R, 1, k%2 == 1})
			}
		}
	}
	groups := [][]string{{"generate", "sign", "sign some", "sign leader", "generate leader"}}
	if c.Thorough {
		groups = [][]string{{"generate", "sign", "sign some", "sign leader", "generate leader"}, {"sign", "sign leader", "sign some", "sign leader"}, {"generate leader", "generate", "sign some", "sign"}}
	}
	c.Parallel(len(groups)+1, 4, func(i int) {
		if i < len(groups) {
			silentGroup(c, i, 3, 1, groups[i])
			return
		}
		silentGroup(c, i, 4, 2, []string{"sign", "sign some", "generate", "sign leader"})
	})
	c.Require("answers of nodes about silent members", 12)
	var alone sync.RWMutex
	c.Parallel(len(jobs), 6, func(ji int) {
		j := jobs[ji]
		if j.R == 0 {
			j.after = false
		}
		timeout := 6 * time.Second
		if j.kg {
			timeout = 9 * time.Second
		}
		for try := 0; try < 3; try++ {
			// the last attempt has the machine for itself
			unlock := alone.RUnlock
			if try < 2 {
				alone.RLock()
			} else {
				alone.Lock()
				unlock = alone.Unlock
			}
			r := c.Rand("j", ji)
			nodes := randNodes(r, j.n)
			sil := &silencer{from: map[int]int{}, after: j.after}
			perm := r.Perm(j.n)
			var want []string
			for k := 0; k < j.s; k++ {
				sil.from[perm[k]] = j.R
				want = append(want, nodes[perm[k]].Bech)
			}
			honest := func(i int) bool { _, x := sil.from[i]; return !x }
			cr := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint("c09", c.Seed, ji)), Timeout: timeout}
			cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
				if sil.drop(cr, e) {
					return nil
				}
				return []cerDelivery{{To: to, From: e.From, Payload: p}}
			}
			if j.R == 0 && ji%2 == 0 {
				cr.Absent = map[int]bool{}
				for k := range sil.from {
					cr.Absent[k] = true
				}
			}
			desc := fmt.Sprintf("keygen=%v n=%d silent=%s from round %d (after previous share: %v) batch=%d", j.kg, j.n, cr.names(want), j.R, j.after, j.batch)
			var ok bool
			if j.kg {
				ok = cr.RunKeygen(c, func(i int) []string { return bechs(nodes) })
			} else {
				p := dealKey(r, nodes, thresholdOf(j.n))
				var msgs [][]byte
				for i := 0; i < j.batch; i++ {
					msgs = append(msgs, randMessage(r, nil))
				}
				ok = cr.RunKeysign(c, p, sortedForSigning(msgs), func(i int) []string { return bechs(nodes) })
			}
			unlock()
			if !ok {
				c.Violate("hang", "%s: a node did not return after its timeout\n%s", desc, allStacks())
				return
			}
			bad := ""
			failed := true
			for i := range nodes {
				if !honest(i) {
					continue
				}
				if cr.Res[i].Err == nil {
					bad += fmt.Sprintf("node%d reports success; ", i)
					failed = false
					continue
				}
				got := blamedKeys(cr.Res[i].Blame)
				if !sameStrings(got, want) {
					bad += fmt.Sprintf("node%d blames %s; ", i, cr.names(got))
				}
				c.Count("verdicts_of_honest_nodes", 1)
			}
			// every honest node has everything it needs to produce its own share of the round that stays incomplete; a
			// node that has not come that far may just be slow
			reached := map[int]bool{}
			for _, e := range cr.Events() {
				if e.isShare() && roundIndex(j.kg, e.Wire.RoundInfo) >= j.R {
					reached[e.From] = true
				}
			}
			settled := cr.stuckBeforeTimeout(honest)
			for i := range nodes {
				settled = settled && (!honest(i) || reached[i])
			}
			if bad != "" && !settled && try < 2 {
				c.Count("retried_slow_runs", 1)
				timeout *= 2
				continue
			}
			if bad != "" && !cr.stuckBeforeTimeout(honest) {
				c.Count("unsettled_slow_runs", 1)
				return
			}
			if bad != "" {
				key := "keysign"
				if j.kg {
					key = "keygen"
				}
				c.Violate("blame:"+key, "%s: %s", desc, bad)
			}
			c.Count(fmt.Sprintf("silent_from_round_%d", j.R), 1)
			c.Case(desc, failed)
			c.Sample(fmt.Sprintf("keygen=%v", j.kg), "%s: %d network messages", desc, len(cr.Events()))
			return
		}
	})
	c.Require("verdicts_of_honest_nodes", 60)
}
