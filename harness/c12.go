package main

import (
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { register("C12", checkC12) }

// electedOf recomputes the election independently.
func electedOf(id string, height int64, nodes []*Node) int {
	best, at := "", -1
	for i, n := range nodes {
		h := sha256.Sum256([]byte(id + strconv.FormatInt(height, 10) + n.Peer.String()))
		if x := hex.EncodeToString(h[:]); at < 0 || x < best {
			best, at = x, i
		}
	}
	return at
}

func checkC12(c *Ctx) {
	c.Rule = "parties of 2..8 coordinators on real hosts with every threshold: absent, late and cut off members, an absent or unreachable leader, outsiders announcing, repeated announcements, forged answers of members and outsiders, answers and announcements for other sessions; non-trivial = the session had an answer of the leader or a refusal"
	c.Assume("an announcement or answer that is being served when a wait begins or ends may count or not; the leader itself is honest")
	n := c.N(60, 400)
	c.Parallel(n, 12, func(i int) { leaderScenario(c, i) })
	c.Parallel(c.N(6, 30), 6, func(i int) { promptLeaderScenario(c, i) })
	c.Parallel(c.N(8, 40), 8, func(i int) { partyBlameGroup(c, i, true) })
	for _, role := range []string{"the node leads", "another leads", "the leader is silent"} {
		c.Require("answers of requests without a party: "+role, int64(c.N(4, 40)))
	}
	c.Require("prompt parties", int64(c.N(6, 30)))
	c.Require("parties formed", int64(n/3))
	c.Require("parties refused by the leader", int64(n/20))
	c.Require("members without a leader", int64(n/20))
	c.Require("members with the party of the leader", int64(n/2))
	c.Require("members outside of the party", int64(n/10))
	c.Require("forged answers", int64(n))
	c.Require("announcements of outsiders", 5)
}

func leaderScenario(c *Ctx, i int) {
	r := c.Rand("leader", i)
	n := 2 + r.Intn(7)
	out := r.Intn(3)
	nodes := randNodes(r, n+out)
	lab := newNetLab(nodes)
	defer lab.close()
	T := time.Duration(2000+r.Intn(1500)) * time.Millisecond
	member := nodes[:n]
	session := hexs(randBytes(r, 32))
	height := int64(1 + r.Intn(1000000))
	if r.Intn(10) == 0 {
		height = -height
	}
	lead := electedOf(session, height, member)
	t := thresholdOf(n)
	switch r.Intn(4) {
	case 0:
		t = 1 + r.Intn(n-1)
	case 1:
		t = n - 1
	}
	if t < 1 {
		t = 1
	}
	absent := map[int]bool{}
	switch r.Intn(4) {
	case 0: // exactly enough or one too few
		k := n - t - 1 + r.Intn(2)
		for _, j := range r.Perm(n) {
			if j != lead && k > 0 {
				absent[j] = true
				k--
			}
		}
	case 1:
		for k := 0; k < n; k++ {
			if k != lead && r.Intn(3) == 0 {
				absent[k] = true
			}
		}
	}
	if r.Intn(8) == 0 {
		absent[lead] = true
	}
	desc := fmt.Sprintf("n=%d t=%d leader=%d outsiders=%d absent=%v T=%v", n, t, lead, out, keysOf(absent), T)
	mode := r.Intn(6)
	if mode == 0 {
		lab.link = cuts(r, n+out, 0.2, 0.25)
		desc += " cuts"
	} else if mode == 1 {
		// nobody reaches the leader, or the leader reaches nobody
		in := r.Intn(2) == 0
		lab.link = func(i, j int) (time.Duration, error) {
			if (in && j == lead && i < n) || (!in && i == lead) {
				return 0, errCut
			}
			return 0, nil
		}
		desc += fmt.Sprintf(" leader cut off (in %v)", in)
	}
	if r.Intn(4) == 0 {
		lab.chop = 1 + r.Intn(5)
	}
	var pcs []*p2p.PartyCoordinator
	for k := 0; k < n; k++ {
		pcs = append(pcs, p2p.NewPartyCoordinator(lab.hosts[k], T))
	}
	other := hexs(randBytes(r, 32))
	var mu sync.Mutex
	var calls []*joinCall
	var wg sync.WaitGroup
	stop := make(chan struct{})
	start := func(k int, id string, h int64, nds []*Node, t int, delay time.Duration) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			j := &joinCall{host: k, session: id, timeout: T, began: time.Now()}
			c.Guard("panic", desc, func() {
				j.got, j.leader, j.err = pcs[k].JoinPartyWithLeader(id, h, peerIDs(nds), t, make(chan string, 2))
			})
			j.ended = time.Now()
			mu.Lock()
			calls = append(calls, j)
			mu.Unlock()
		}()
	}
	late := r.Intn(3) == 0
	two := r.Intn(3) == 0
	otherLead := electedOf(other, height, member)
	for k := 0; k < n; k++ {
		d := time.Duration(r.Intn(300)) * time.Millisecond
		if late {
			d = time.Duration(r.Intn(int(T) * 3 / 2))
		}
		seedK := r.Int63()
		if !absent[k] {
			start(k, session, height, shuffledNodes(rand.New(rand.NewSource(seedK)), member), t, d)
		}
		if two && r.Intn(2) == 0 {
			start(k, other, height, member, t, d)
		}
	}
	// hostile traffic: outsiders and absent members announce themselves and answer as if they were leaders
	forge := r.Intn(2) == 0
	raw := map[int]bool{}
	for k := 0; k < n+out; k++ {
		if k < n && !absent[k] && r.Intn(3) != 0 {
			continue
		}
		raw[k] = true
		k := k
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := lab.hosts[k]
			for {
				for to := 0; to < n; to++ {
					if to == k {
						continue
					}
					if k >= n {
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeader, frameOf(leaderMsg(session, "request", 0, nil)), 0)
						c.Count("announcements of outsiders", 1)
					} else if rr.Intn(2) == 0 {
						// for another session, or with a message type that means nothing
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeader, frameOf(leaderMsg(session[:63], "request", 0, nil)), 0)
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeader, frameOf(leaderMsg(session, "Request", 0, nil)), 0)
					}
					if k < n && k != lead && !absent[k] && rr.Intn(2) == 0 {
						// a repeated announcement
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeader, frameOf(leaderMsg(session, "request", 0, nil)), 0)
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeader, frameOf(leaderMsg(session, "request", 0, nil)), 0)
					}
					if forge {
						id := session
						if k == lead {
							// the true leader of this session answers for others only
							id = other
							if two && k == otherLead {
								continue
							}
						}
						ps := peerIDs(shuffledNodes(rr, nodes))[:1+rr.Intn(n)]
						ty := messages.JoinPartyLeaderComm_Success
						if rr.Intn(3) == 0 {
							ty = messages.JoinPartyLeaderComm_Timeout
						}
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeader, frameOf(leaderMsg(id, "response", ty, ps)), 0)
						c.Count("forged answers", 1)
					}
				}
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(100+rr.Intn(400)) * time.Millisecond):
				}
			}
		}()
	}
	go func() {
		time.Sleep(2 * T)
		close(stop)
	}()
	if !Within(4*T+60*time.Second, wg.Wait) {
		c.Violate("stuck", "party forming (%s) does not return\n%s", desc, allStacks())
		return
	}
	seen := lab.seen()
	judgeLeader(c, lab, seen, calls, session, desc, member, lead, t, mode > 1, raw)
	if two {
		judgeLeader(c, lab, seen, calls, other, desc+" (second session)", member, otherLead, t, mode > 1, raw)
	}
}

func (l *netLab) hostSet(ps []peer.ID) (map[int]bool, bool) {
	m, twice := map[int]bool{}, false
	for _, p := range ps {
		k := l.index(p)
		if m[k] {
			twice = true
		}
		m[k] = true
	}
	return m, twice
}

// judgeLeader judges what the calls of one session returned.
func judgeLeader(c *Ctx, lab *netLab, seen []arrival, calls []*joinCall, session, desc string, member []*Node, lead, t int, clean bool, raw map[int]bool) {
	n := len(member)
	var lc *joinCall
	for _, j := range calls {
		if j.session == session && j.host == lead {
			lc = j
		}
	}
	var leadSet map[int]bool
	enoughTimely := false
	if lc != nil {
		must, may := lc.heard(seen, protoLeader, "request")
		set, twice := lab.hostSet(lc.got)
		leadSet = set
		say := fmt.Sprintf("%s: the leader returned [%s] err %v; heard surely %v, perhaps %v; took %v", desc, lc.names(lab), lc.err, keysOf(must), keysOf(may), lc.ended.Sub(lc.began))
		if twice {
			c.Violate("listed-twice", "%s: a peer is listed twice", say)
		}
		if !set[lead] {
			c.Violate("leader-missing", "%s: the leader is not in its list", say)
		}
		for k := range set {
			if k == lead {
				continue
			}
			if k < 0 || k >= n {
				c.Violate("outsider-listed", "%s: peer %d is not part of the request", say, k)
			} else if !may[k] {
				c.Violate("unheard-listed", "%s: peer %d did not announce itself", say, k)
			}
		}
		if lc.leader != member[lead].Peer.String() {
			c.Violate("wrong-leader", "%s: names %s as leader", say, lc.leader)
		}
		inReq := 0
		for k := range must {
			if k < n && k != lead {
				inReq++
			}
		}
		enoughTimely = inReq >= t
		if lc.err == nil {
			if len(set) < t+1 {
				c.Violate("too-few", "%s: only %d of threshold+1=%d", say, len(set), t+1)
			}
			c.Count("parties formed", 1)
		} else {
			c.Count("parties refused by the leader", 1)
			if !errors.Is(lc.err, p2p.ErrJoinPartyTimeout) {
				c.Violate("leader-error", "%s: not a timeout", say)
			}
			if len(set) >= t+1 || enoughTimely {
				c.Violate("refused", "%s: refused although enough announced themselves", say)
			}
			for k := range must {
				if k < n && k != lead && !set[k] {
					c.Violate("heard-missing", "%s: peer %d announced itself in time but is not listed", say, k)
				}
			}
		}
		c.Case(fmt.Sprintf("%d/%d/%d/%v", n, t, len(set), lc.err == nil), true)
	}
	for _, j := range calls {
		if j.session != session || j.host == lead {
			continue
		}
		set, twice := lab.hostSet(j.got)
		// the answers of the leader this call surely or perhaps got
		mustAns, mayAns := j.heard(seen, protoLeader, "response")
		told := false
		var first time.Time
		if !raw[j.host] {
			// its own announcement shows that the member was waiting
			for k := range seen {
				a := &seen[k]
				if a.Proto != protoLeader {
					continue
				}
				id, kind := sessionOf(protoLeader, a.frame())
				if id != session {
					continue
				}
				if a.From == j.host && a.To == lead && kind == "request" && (first.IsZero() || a.Opened.Before(first)) {
					first = a.Opened
				}
				if a.From == lead && a.To == j.host && kind == "response" {
					told = true
				}
			}
			for k := range seen {
				a := &seen[k]
				if a.Proto != protoLeader || a.From != lead || a.To != j.host || first.IsZero() || a.Opened.Before(first) || a.Closed.IsZero() || a.Closed.After(j.began.Add(j.timeout)) || !a.Opened.Before(j.ended) {
					continue
				}
				if id, kind := sessionOf(protoLeader, a.frame()); id == session && kind == "response" {
					mustAns[lead] = true
				}
			}
		}
		say := fmt.Sprintf("%s: member %d returned [%s] leader %s err %v; leader answered surely %v perhaps %v; took %v", desc, j.host, j.names(lab), tail(j.leader), j.err, mustAns[lead], mayAns[lead], j.ended.Sub(j.began))
		if lc != nil {
			say += fmt.Sprintf("; the leader returned [%s] err %v", lc.names(lab), lc.err)
		}
		if j.leader != member[lead].Peer.String() {
			c.Violate("wrong-leader", "%s: names the wrong leader", say)
		}
		switch {
		case j.err == nil || errors.Is(j.err, p2p.ErrJoinPartyTimeout):
			if lc == nil || !mayAns[lead] {
				c.Violate("no-answer", "%s: the leader gave no answer", say)
				break
			}
			if twice || !sameSet(set, leadSet) {
				c.Violate("different-party", "%s: the lists differ", say)
			}
			if (j.err == nil) != (lc.err == nil) {
				c.Violate("different-verdict", "%s: the verdicts differ", say)
			}
			if set[j.host] {
				c.Count("members with the party of the leader", 1)
			} else {
				c.Count("members outside of the party", 1)
			}
		case errors.Is(j.err, p2p.ErrLeaderNotReady):
			c.Count("members without a leader", 1)
			if mustAns[lead] {
				c.Violate("answer-ignored", "%s: the answer of the leader was ignored", say)
			}
			if j.ended.Sub(j.began) < j.timeout {
				c.Violate("gave-up-early", "%s: it did not wait for the leader", say)
			}
			if len(j.got) != 0 {
				c.Violate("list-without-leader", "%s: a list without an answer", say)
			}
			if clean && lc != nil && !raw[j.host] && !first.IsZero() && first.Before(lc.ended) && !told {
				c.Violate("not-told", "%s: the leader did not tell a member that announced itself", say)
			}
		default:
			// the leader gave up with so few peers that the member does not call it a timeout
			if lc == nil || lc.err == nil || !mayAns[lead] || len(leadSet) >= t {
				c.Violate("member-error", "%s: unexpected error", say)
			} else if !sameSet(set, leadSet) {
				c.Violate("different-party", "%s: the lists differ", say)
			}
		}
	}
	c.Sample("session", "%s: %d calls", desc, len(calls))
}

func sameSet(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func tail(s string) string {
	if len(s) > 6 {
		return s[len(s)-6:]
	}
	return strings.TrimSpace(s)
}

// promptLeaderScenario: the leader decides when threshold others announced themselves, not when the time is up.
func promptLeaderScenario(c *Ctx, i int) {
	r := c.Rand("promptleader", i)
	n := 2 + r.Intn(6)
	nodes := randNodes(r, n)
	lab := newNetLab(nodes)
	defer lab.close()
	const T = 30 * time.Second
	session := hexs(randBytes(r, 32))
	height := int64(1 + r.Intn(1000))
	lead := electedOf(session, height, nodes)
	t := 1 + r.Intn(n-1)
	lag := r.Intn(4)
	absent := map[int]bool{}
	for _, k := range r.Perm(n) {
		if k != lead && len(absent) < n-1-t && r.Intn(2) == 0 {
			absent[k] = true
		}
	}
	var wg sync.WaitGroup
	took := make([]time.Time, n)
	errs := make([]error, n)
	got := make([][]peer.ID, n)
	began := time.Now()
	for k := 0; k < n; k++ {
		pc := p2p.NewPartyCoordinator(lab.hosts[k], T)
		if absent[k] {
			continue
		}
		d := time.Duration(r.Intn(500)) * time.Millisecond
		if k == lead {
			d = time.Duration(lag) * time.Second
		}
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			got[k], _, errs[k] = pc.JoinPartyWithLeader(session, height, peerIDs(nodes), t, make(chan string, 2))
			took[k] = time.Now()
		}()
	}
	if !Within(T+40*time.Second, wg.Wait) {
		c.Violate("stuck", "party forming of %d connected peers does not return\n%s", n, allStacks())
		return
	}
	want, _ := lab.hostSet(got[lead])
	for k := 0; k < n; k++ {
		if absent[k] {
			continue
		}
		set, _ := lab.hostSet(got[k])
		if !want[k] && errors.Is(errs[k], p2p.ErrLeaderNotReady) {
			// it began when the leader had decided
			continue
		}
		if errs[k] != nil || !sameSet(set, want) {
			c.Violate("connected-refused", "n=%d t=%d absent=%v: node %d (leader %d) got %v, err %v; the leader got %v", n, t, keysOf(absent), k, lead, keysOf(set), errs[k], keysOf(want))
		} else if d := took[k].Sub(began); d > time.Duration(lag)*time.Second+20*time.Second {
			c.Violate("waits-for-the-timeout", "n=%d t=%d: node %d returned the party after %v, enough had announced themselves after about %d s", n, t, k, d, lag)
		}
	}
	c.Count("prompt parties", 1)
	c.Case(fmt.Sprintf("prompt %d %d %d %d", n, t, lag, len(absent)), true)
}
