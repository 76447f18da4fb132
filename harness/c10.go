package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

func init() { register("C10", checkC10) }

// evidenceOK says whether the data and signature of a blamed node verify under its key for the session.
func evidenceOK(nodes []*Node, pub string, data, sig []byte, session string) bool {
	for _, n := range nodes {
		if n.Bech == pub {
			return n.Priv.PubKey().VerifySignature(append(append([]byte{}, data...), []byte(session)...), sig)
		}
	}
	return false
}

type tamperJob struct {
	kg    bool
	n, k  int // signers of a pool of n
	round int
	how   int
	one   bool // only one receiver gets the changed share
	own   bool // the participant confirms its own share
	batch int
	two   bool // a second participant does the same
}

func (j tamperJob) run(c *Ctx, ji int, timeout time.Duration) string {
	r := c.Rand("tamper", ji)
	var nodes []*Node
	var pool *Pool
	if j.kg {
		nodes = randNodes(r, j.n)
	} else {
		pool = dealKey(r, randNodes(r, j.n), thresholdOf(j.n))
		nodes = pool.Nodes[:j.k]
	}
	n := len(nodes)
	bad := r.Intn(n)
	victim := (bad + 1 + r.Intn(n-1)) % n
	bads := map[int]bool{bad: true}
	if j.two {
		bads[(bad+1+r.Intn(n-1))%n] = true
	}
	rd := allRounds[j.kg][j.round]
	cr := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint("c10", c.Seed, ji)), Timeout: timeout}
	sent := map[string]int{}
	var mu sync.Mutex
	seed := r.Int63()
	chaos := cr.chaos(r.Int63(), 30*time.Millisecond, 0.1, c)
	plain := r.Intn(2) == 0
	_, vt := msgTypes(j.kg)
	cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
		if bads[e.From] && e.isShare() {
			if e.Wire.RoundInfo == rd && !j.own && (!j.one || to == victim) {
				var w *messages.WireMessage
				s := seed
				if unicastRounds[rd] {
					s += int64(to)
				}
				// every receiver of a broadcast gets the same
				p, w = cr.tamperShare(e, int(seed&7), flipField(rand.New(rand.NewSource(s)), j.how))
				mu.Lock()
				sent[string(w.Message)] = e.From
				mu.Unlock()
				c.Count("shares_changed", 1)
			} else {
				mu.Lock()
				sent[string(e.Wire.Message)] = e.From
				mu.Unlock()
				if j.own && e.Wire.RoundInfo == rd && !unicastRounds[rd] {
					out := wrap(vt, cr.MsgID, messages.BroadcastConfirmMessage{Key: e.Wire.GetCacheKey(), Hash: hashOf(e.Wire.Message)})
					c.Count("own_confirmations", 1)
					return []cerDelivery{{To: to, From: e.From, Payload: p}, {To: to, From: e.From, Payload: out}}
				}
			}
		}
		if plain {
			return []cerDelivery{{To: to, From: e.From, Payload: p}}
		}
		return chaos(e, to, p)
	}
	desc := fmt.Sprintf("keygen=%v n=%d batch=%d: participants %v send a wrong %s (how=%d, to one=%v, confirms its own=%v)", j.kg, n, j.batch, bads, rd, j.how, j.one, j.own)
	var ok bool
	if j.kg {
		ok = cr.RunKeygen(c, func(int) []string { return bechs(nodes) })
	} else {
		var msgs [][]byte
		for len(msgs) < j.batch {
			msgs = append(msgs, randMessage(r, msgs))
		}
		ok = cr.RunKeysign(c, pool, sortedForSigning(msgs), func(int) []string { return bechs(nodes) })
	}
	if !ok {
		return "hang: " + desc + " did not return"
	}
	s := ""
	detected := 0
	for i := range nodes {
		if bads[i] {
			continue
		}
		res := cr.Res[i]
		b := res.Blame
		who := blamedKeys(b)
		s += fmt.Sprintf("[%d err=%v %q %s]", i, res.Err != nil, b.FailReason, cr.names(who))
		det := b.FailReason == blame.TssBrokenMsg || b.FailReason == blame.HashCheckFail
		if det {
			detected++
		}
		// everybody gets the same wrong content: whoever fails, fails because of it
		must := det || (!j.one && !j.own && res.Err != nil)
		if !must {
			continue
		}
		c.Count("detections", 1)
		c.Count("detections_"+rd, 1)
		for _, x := range who {
			wrong := true
			for k := range bads {
				if x == nodes[k].Bech {
					wrong = false
				}
			}
			if wrong {
				return fmt.Sprintf("blame:honest: %s: honest node %d blames %s (%s)", desc, i, cr.names(who), b.FailReason)
			}
		}
		if len(who) == 0 {
			return fmt.Sprintf("blame:nobody: %s: honest node %d fails with %q (%v) and blames nobody", desc, i, b.FailReason, res.Err)
		}
		for _, x := range b.BlameNodes {
			if len(x.BlameData) == 0 && len(x.BlameSignature) == 0 {
				pure := !unicastRounds[rd] && (j.kg && (rd == messages.KEYGEN1 || rd == messages.KEYGEN3) || !j.kg && j.round >= 3)
				if det && pure {
					return fmt.Sprintf("evidence:missing: %s: honest node %d blames without evidence", desc, i)
				}
				c.Count("blames_without_evidence", 1)
				continue
			}
			if !evidenceOK(nodes, x.Pubkey, x.BlameData, x.BlameSignature, cr.MsgID) {
				return fmt.Sprintf("evidence:invalid: %s: the evidence of node %d does not verify under the blamed key", desc, i)
			}
			mu.Lock()
			author, fine := sent[string(x.BlameData)]
			mu.Unlock()
			if !fine || nodes[author].Bech != x.Pubkey {
				return fmt.Sprintf("evidence:foreign: %s: the evidence of node %d is not a message of the blamed participant", desc, i)
			}
			c.Count("evidence_verified", 1)
		}
	}
	if detected > 0 {
		c.Count("ceremonies_detected", 1)
	}
	if !j.one && !j.own {
		for i := range nodes {
			if !bads[i] && cr.Res[i].Err == nil {
				// a change without effect; the result is judged by C01 and C02
				c.Count("changes_without_effect", 1)
			}
		}
	}
	c.Case(desc+s, detected > 0)
	c.Sample(rd, "%s: %s", desc, s)
	return ""
}

// Participants that equivocate or confirm their own shares, everybody else truthful: whoever is blamed is one of them.
func blameScenario(c *Ctx, i int) {
	r := c.Rand("blame", i)
	kg := r.Intn(2) == 0
	n := 3 + r.Intn(5)
	batch := 1 + r.Intn(2)
	if kg {
		batch = 1
	}
	p := &sharePlan{r: r, bad: map[int]bool{}, truthful: true}
	p.shareLab = newShareLab(c, r, n, batch, kg, fmt.Sprintf("equivocation %d (n=%d, batch=%d, keygen=%v)", i, n, batch, kg))
	p.focus = "C10"
	p.dishonest = p.bad
	defer p.close()
	p.loss, p.dup = 0.1, 0.1
	for _, b := range r.Perm(n)[:1+r.Intn(2)] {
		if b != p.me {
			p.bad[b] = true
		}
	}
	p.build()
	p.run()
	if p.dead {
		return
	}
	b := p.tc.GetBlameMgr().GetBlame()
	seen := map[int]bool{}
	for _, x := range b.BlameNodes {
		bi := -1
		for k, nd := range p.nodes {
			if nd.Bech == x.Pubkey {
				bi = k
			}
		}
		if !p.bad[bi] {
			p.viol("C10", "blame:honest", "participant %d is blamed (%s) though it did nothing wrong (bad=%v)", bi, b.FailReason, p.bad)
			return
		}
		seen[bi] = true
		if b.FailReason == blame.HashCheckFail {
			if !evidenceOK(p.nodes, x.Pubkey, x.BlameData, x.BlameSignature, p.session) {
				p.viol("C10", "evidence:invalid", "the evidence against participant %d does not verify", bi)
				return
			}
			c.Count("lab_evidence_verified", 1)
		}
		c.Count("lab_blames", 1)
	}
	// a confirmation for its own share is noticed when it is weighed
	for _, o := range p.must {
		if len(b.BlameNodes) == 0 {
			p.viol("C10", "blame:nobody", "participant %d confirmed its own share, which this node had, and nobody is blamed", o)
			return
		}
		c.Count("own_confirmations_noticed", 1)
	}
	var bs []int
	for x := range seen {
		bs = append(bs, x)
	}
	sort.Ints(bs)
	c.Case(fmt.Sprint("lab", i, n, batch, kg, bs), len(bs) > 0)
}

func checkC10(c *Ctx) {
	c.Rule = "real ceremonies in which one participant's share of one round is replaced (bit flip, random, one, longer, empty) and signed again, for everybody or for one receiver, or confirmed by its author; and histories of one node with equivocating participants; non-trivial = somebody was blamed; distinct by outcome of all nodes"
	c.Parallel(c.N(1000, 15000), 8, func(i int) {
		if !c.Violated() {
			blameScenario(c, i)
		}
	})
	if c.Violated() {
		return
	}
	var jobs []tamperJob
	r := c.Rand("jobs", 0)
	if c.Thorough {
		for how := 0; how < 5; how++ {
			for _, one := range []bool{false, true} {
				for R := 0; R < 8; R++ {
					jobs = append(jobs, tamperJob{kg: false, n: 4, k: 4, round: R, how: how, one: one, batch: 1 + r.Intn(2)})
					jobs = append(jobs, tamperJob{kg: false, n: 5 + r.Intn(2), k: 5, round: R, how: how, one: one, batch: 1 + r.Intn(3)})
				}
				for R := 0; R < 4; R++ {
					jobs = append(jobs, tamperJob{kg: true, n: 4 + r.Intn(2), round: R, how: how, one: one, batch: 1})
				}
			}
		}
	} else {
		for R := 0; R < 8; R++ {
			jobs = append(jobs, tamperJob{kg: false, n: 4, k: 4, round: R, how: r.Intn(4), batch: 1 + r.Intn(2)})
		}
		for _, R := range []int{0, 2, 3 + r.Intn(5)} {
			jobs = append(jobs, tamperJob{kg: false, n: 4, k: 4, round: R, how: r.Intn(4), one: true, batch: 1})
		}
		for R := 0; R < 4; R++ {
			jobs = append(jobs, tamperJob{kg: true, n: 4, round: R, how: r.Intn(2), batch: 1})
		}
		jobs = append(jobs, tamperJob{kg: true, n: 4, round: 1, how: r.Intn(4), one: true, batch: 1})
	}
	for R := 3; R < 8; R++ {
		if c.Thorough || R == 4 || R == 7 {
			jobs = append(jobs, tamperJob{kg: false, n: 5, k: 5, round: R, how: r.Intn(2), two: true, batch: 1})
		}
	}
	if c.Thorough {
		jobs = append(jobs, tamperJob{kg: true, n: 5, round: 3, two: true, batch: 1}, tamperJob{kg: true, n: 5, round: 1, two: true, batch: 1})
	}
	for R := 3; R < 8; R++ {
		if c.Thorough || R == 3+r.Intn(3) || R == 7 {
			jobs = append(jobs, tamperJob{kg: false, n: 4, k: 4, round: R, own: true, batch: 1})
		}
	}
	jobs = append(jobs, tamperJob{kg: true, n: 4, round: 0, own: true, batch: 1})
	bad := make([]string, len(jobs))
	c.Parallel(len(jobs), 6, func(i int) {
		to := 10 * time.Second
		if jobs[i].kg {
			to = 14 * time.Second
		}
		bad[i] = jobs[i].run(c, i, to)
	})
	if c.Violated() {
		return
	}
	for i, b := range bad {
		if b == "" {
			continue
		}
		// slow nodes time out and then blame the wrong ones (that is C09's concern): look again with nothing else running
		c.Count("retried_alone", 1)
		if b = jobs[i].run(c, i, 30*time.Second); b != "" {
			var key string
			for k := 0; k < len(b); k++ {
				if b[k] == ' ' {
					key = b[:k-1]
					break
				}
			}
			c.Violate(key, "%s", b)
			return
		}
	}
	c.Require("detections", 20)
	c.Require("evidence_verified", 10)
	c.Require("lab_evidence_verified", 20)
	c.Require("own_confirmations_noticed", 10)
}
