package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"gitlab.com/thorchain/tss/go-tss/messages"
)

func init() { register("C28", checkC28) }

type ceremonyJob struct {
	kg   bool
	n, k int // signers of a pool of n
}

// start runs an honest ceremony with the given delivery rules.
func (j ceremonyJob) prepare(c *Ctx, label string, i int) (cr *Cer, run func() bool) {
	r := c.Rand(label, i)
	cr = &Cer{MsgID: sessionID(fmt.Sprint(label, c.Seed, i)), Timeout: 40 * time.Second}
	if j.kg {
		cr.Nodes = randNodes(r, j.n)
		return cr, func() bool { return cr.RunKeygen(c, func(int) []string { return bechs(cr.Nodes) }) }
	}
	pool := dealKey(r, randNodes(r, j.n), thresholdOf(j.n))
	cr.Nodes = pool.Nodes[:j.k]
	msgs := sortedForSigning([][]byte{randMessage(r, nil), randMessage(r, nil)})
	return cr, func() bool {
		return cr.RunKeysign(c, pool, msgs, func(int) []string { return bechs(cr.Nodes) })
	}
}

func (cr *Cer) allFine() string {
	for i, x := range cr.Res {
		if x.Err != nil && !cr.Absent[i] {
			return fmt.Sprintf("node %d failed: %v, blaming %s", i, x.Err, cr.names(blamedKeys(x.Blame)))
		}
	}
	return ""
}

// A participant misses every pure broadcast of another one, and the answers it asks for take their time: the others are
// finished by then, but have to be there.
func lateScenario(c *Ctx, i int, j ceremonyJob, alone bool) string {
	cr, run := j.prepare(c, "late", i)
	r := c.Rand("latewho", i)
	n := len(cr.Nodes)
	victim := r.Intn(n)
	author := (victim + 1 + r.Intn(n-1)) % n
	rounds := allRounds[j.kg]
	last := rounds[len(rounds)-1]
	delay := time.Duration(500+r.Intn(1200)) * time.Millisecond
	cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
		d := cerDelivery{To: to, From: e.From, Payload: p}
		if to == victim && e.From == author && e.isShare() && e.Wire.RoundInfo == last {
			return nil
		}
		if e.From == victim && e.Ctl != nil && e.Ctl.Msg == nil {
			d.Delay = delay
			c.Count("late_requests", 1)
		}
		return []cerDelivery{d}
	}
	desc := fmt.Sprintf("ceremony %d (keygen=%v, %d nodes): node %d misses the last broadcast of node %d, its requests take %v", i, j.kg, n, victim, author, delay)
	if !run() {
		return desc + ": hang"
	}
	if bad := cr.allFine(); bad != "" {
		return desc + ": " + bad
	}
	c.Count("late_served", 1)
	cr.checkDone(c, desc, everyone)
	c.Case(desc+cr.traceSig(), true)
	return ""
}

// One participant never reports done: the others answer it for a while, then leave by themselves.
func stayScenario(c *Ctx, i int, j ceremonyJob) string {
	cr, run := j.prepare(c, "stay", i)
	r := c.Rand("staywho", i)
	n := len(cr.Nodes)
	mute := r.Intn(n)
	fin := map[int]time.Time{}
	asked := map[int]int{}
	answered := map[int]int{}
	var mu sync.Mutex
	var keys []string
	st, _ := msgTypes(j.kg)
	cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
		if e.From == mute && e.Done {
			return nil
		}
		return []cerDelivery{{To: to, From: e.From, Payload: p}}
	}
	cr.OnEvent = func(e *cerEvt) {
		mu.Lock()
		defer mu.Unlock()
		if e.isShare() && !unicastRounds[e.Wire.RoundInfo] && e.Wire.Routing != nil && e.Wire.Routing.IsBroadcast && e.From == mute {
			keys = append(keys, e.Wire.GetCacheKey())
		}
		if e.Ctl != nil && e.Ctl.Msg != nil {
			for _, t := range e.To {
				if t == mute {
					answered[e.From]++
				}
			}
		}
		if e.Done && e.From != mute && fin[e.From].IsZero() {
			fin[e.From] = time.Now()
			from := e.From
			go func() {
				time.Sleep(1500 * time.Millisecond)
				mu.Lock()
				k := keys[0]
				asked[from]++
				mu.Unlock()
				buf, _ := json.Marshal(messages.TssControl{ReqHash: hexs(make([]byte, 32)), ReqKey: k, RequestType: st})
				out, _ := json.Marshal(messages.WrappedMessage{MessageType: messages.TSSControlMsg, MsgID: cr.MsgID, Payload: buf})
				cr.deliver(cerDelivery{To: from, From: mute, Payload: out})
			}()
		}
	}
	desc := fmt.Sprintf("ceremony %d (keygen=%v, %d nodes): node %d never reports done", i, j.kg, n, mute)
	if !run() {
		return desc + ": hang"
	}
	end := time.Now()
	if bad := cr.allFine(); bad != "" {
		return desc + ": " + bad
	}
	mu.Lock()
	defer mu.Unlock()
	for k := 0; k < n; k++ {
		if k == mute {
			continue
		}
		if asked[k] == 0 || answered[k] == 0 {
			return fmt.Sprintf("%s: node %d was asked %d times for a share 1.5 s after it had finished and answered %d times", desc, k, asked[k], answered[k])
		}
		if d := end.Sub(fin[k]); d > 15*time.Second {
			return fmt.Sprintf("%s: node %d stayed %v", desc, k, d)
		}
		c.Count("stayed_for_a_peer", 1)
	}
	c.Case(desc+cr.traceSig(), true)
	return ""
}

// Everybody reports done: nobody waits for the end of the grace period.
func promptScenario(c *Ctx, i int, j ceremonyJob) string {
	cr, run := j.prepare(c, "prompt", i)
	r := c.Rand("promptwho", i)
	seed := r.Int63()
	base := cr.chaos(seed, 50*time.Millisecond, 0.2, c)
	cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
		ds := base(e, to, p)
		if e.Done {
			// once is enough, more often must not count more
			ds = append(ds, cerDelivery{To: to, From: e.From, Payload: p}, cerDelivery{To: to, From: e.From, Payload: p})
		}
		return ds
	}
	desc := fmt.Sprintf("ceremony %d (keygen=%v, %d nodes): everybody reports done", i, j.kg, len(cr.Nodes))
	if !run() {
		return desc + ": hang"
	}
	if bad := cr.allFine(); bad != "" {
		return desc + ": " + bad
	}
	var last time.Time
	for _, e := range cr.Events() {
		if e.Done && e.At.After(last) {
			last = e.At
		}
	}
	for k := range cr.Nodes {
		if d := cr.began.Add(cr.Res[k].Took).Sub(last); d > 3500*time.Millisecond {
			return fmt.Sprintf("%s: node %d stayed %v after the last participant had reported done", desc, k, d)
		}
		c.Count("left_promptly", 1)
	}
	cr.checkDone(c, desc, everyone)
	c.Case(desc+cr.traceSig(), true)
	return ""
}

func checkC28(c *Ctx) {
	c.Rule = "histories of one node with completion reports in every order, repeated, negated and from outsiders, and real ceremonies in which a participant recovers the last round late, never reports done, or reports repeatedly; non-trivial = the node applied shares or finished; distinct by full history"
	c.Parallel(c.N(1500, 20000), 8, func(i int) {
		if !c.Violated() {
			shareScenario(c, i, "C28")
		}
	})
	if c.Violated() {
		return
	}
	type job struct {
		ceremonyJob
		kind int
	}
	var jobs []job
	for _, kind := range []int{0, 1, 2} {
		jobs = append(jobs, job{ceremonyJob{true, 4, 4}, kind}, job{ceremonyJob{false, 4, 4}, kind}, job{ceremonyJob{false, 4, 3}, kind}, job{ceremonyJob{false, 5, 5}, kind})
		if kind != 0 {
			jobs = append(jobs, job{ceremonyJob{false, 3, 3}, kind})
		}
	}
	for k := 0; k < c.N(0, 60); k++ {
		n := 3 + k%4
		jobs = append(jobs, job{ceremonyJob{false, n, thresholdOf(n) + 1 + (k/4)%(n-thresholdOf(n))}, k % 3})
	}
	run := func(i int, j job) string {
		if j.kind == 0 && j.k < 3 {
			return ""
		}
		switch j.kind {
		case 0:
			return lateScenario(c, i, j.ceremonyJob, false)
		case 1:
			return stayScenario(c, i, j.ceremonyJob)
		}
		return promptScenario(c, i, j.ceremonyJob)
	}
	bad := make([]string, len(jobs))
	c.Parallel(len(jobs), 3, func(i int) { bad[i] = run(i, jobs[i]) })
	if c.Violated() {
		return
	}
	for i, b := range bad {
		if b == "" {
			continue
		}
		// a loaded machine must not raise alarms: what was seen once has to happen again when nothing else runs
		c.Count("retried_alone", 1)
		if b = run(i, jobs[i]); b != "" {
			key := []string{"late:unserved", "stay:unserved", "leave:late"}[jobs[i].kind]
			c.Violate(key, "%s", b)
			return
		}
	}
	c.Require("answered_probes", 300)
	c.Require("late_served", 3)
	c.Require("late_requests", 3)
	c.Require("stayed_for_a_peer", 8)
	c.Require("left_promptly", 8)
	c.Require("done_notices", 40)
}
