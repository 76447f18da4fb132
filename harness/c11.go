package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { register("C11", checkC11) }

const (
	protoLeaderless protocol.ID = "/p2p/join-party"
	protoLeader     protocol.ID = "/p2p/join-party-leader"
	protoTss        protocol.ID = "/p2p/tss"
	protoSig        protocol.ID = "/p2p/signatureNotifier"
)

// joinCall is one party forming call of one node.
type joinCall struct {
	host    int
	session string
	began   time.Time
	ended   time.Time
	got     []peer.ID
	leader  string
	err     error
	timeout time.Duration
}

func (j *joinCall) names(l *netLab) string {
	var out []string
	for _, p := range j.got {
		out = append(out, fmt.Sprint(l.index(p)))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func sessionOf(p protocol.ID, f []byte) (id, kind string) {
	if f == nil {
		return "", ""
	}
	if p == protoLeaderless {
		var m messages.JoinPartyRequest
		if proto.Unmarshal(f, &m) != nil {
			return "", ""
		}
		return m.ID, "request"
	}
	var m messages.JoinPartyLeaderComm
	if proto.Unmarshal(f, &m) != nil {
		return "", ""
	}
	return m.ID, m.MsgType
}

// heard returns the hosts whose message of the kind for the session was certainly (must) or possibly (may) counted by the call:
// certainly when it was served completely while the call was waiting, possibly when serving it overlaps with the call.
func (j *joinCall) heard(seen []arrival, pid protocol.ID, kind string) (must, may map[int]bool) {
	must, may = map[int]bool{}, map[int]bool{}
	for i := range seen {
		a := &seen[i]
		if a.To != j.host || a.Proto != pid {
			continue
		}
		id, k := sessionOf(pid, a.frame())
		if id != j.session || k != kind {
			continue
		}
		if a.Opened.After(j.ended) || (!a.Closed.IsZero() && a.Closed.Before(j.began)) {
			continue
		}
		may[a.From] = true
		if !a.Closed.IsZero() && a.Opened.After(j.began.Add(300*time.Millisecond)) && a.Closed.Before(j.began.Add(j.timeout)) {
			must[a.From] = true
		}
	}
	return
}

func joinRequest(id string) []byte {
	b, err := proto.Marshal(&messages.JoinPartyRequest{ID: id})
	if err != nil {
		panic(err)
	}
	return b
}

func leaderMsg(id, kind string, t messages.JoinPartyLeaderComm_ResponseType, peers []string) []byte {
	b, err := proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: kind, Type: t, PeerIDs: peers})
	if err != nil {
		panic(err)
	}
	return b
}

// cuts builds a link function that cuts some directed links and delays others.
func cuts(r *rand.Rand, n int, pCut, pSlow float64) func(i, j int) (time.Duration, error) {
	type lk struct {
		d time.Duration
		e error
	}
	m := map[[2]int]lk{}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			var k lk
			if r.Float64() < pCut {
				k.e = errCut
			}
			if r.Float64() < pSlow {
				k.d = time.Duration(r.Intn(1200)) * time.Millisecond
			}
			m[[2]int{i, j}] = k
		}
	}
	return func(i, j int) (time.Duration, error) { k := m[[2]int{i, j}]; return k.d, k.e }
}

func checkC11(c *Ctx) {
	c.Rule = "parties of 2..7 coordinators on real hosts: some absent, some late, one-way cut and slow links, outsiders and participants announcing for this and other sessions, repeated announcements, two sessions at once; non-trivial = at least one node finished forming a party"
	c.Assume("an announcement that is being served when the wait begins or ends may count or not; everything else is judged")
	n := c.N(40, 300)
	c.Parallel(n, 12, func(i int) { leaderlessScenario(c, i) })
	c.Parallel(c.N(6, 30), 6, func(i int) { promptPartyScenario(c, i) })
	c.Parallel(c.N(8, 40), 8, func(i int) { partyBlameGroup(c, i, false) })
	c.Require("answers of requests without a party: no leader", int64(c.N(20, 200)))
	c.Require("prompt parties", int64(c.N(6, 30)))
	c.Require("parties formed", int64(n/4))
	c.Require("parties refused", int64(n/4))
	c.Require("announcements served", int64(n*4))
	c.Require("announcements of outsiders", 5)
}

func leaderlessScenario(c *Ctx, i int) {
	r := c.Rand("leaderless", i)
	n := 2 + r.Intn(6)
	out := r.Intn(3)
	nodes := randNodes(r, n+out)
	lab := newNetLab(nodes)
	defer lab.close()
	T := time.Duration(2000+r.Intn(1500)) * time.Millisecond
	member := nodes[:n]
	absent := map[int]bool{}
	if r.Intn(2) == 0 {
		for k := 0; k < n; k++ {
			if r.Intn(3) == 0 {
				absent[k] = true
			}
		}
	}
	desc := fmt.Sprintf("n=%d outsiders=%d absent=%v T=%v", n, out, absent, T)
	if r.Intn(3) == 0 {
		lab.link = cuts(r, n+out, 0.15, 0.2)
		desc += " cuts"
	}
	if r.Intn(4) == 0 {
		lab.chop = 1 + r.Intn(5)
	}
	var pcs []*p2p.PartyCoordinator
	for k := 0; k < n; k++ {
		pcs = append(pcs, p2p.NewPartyCoordinator(lab.hosts[k], T))
	}
	session := hexs(randBytes(r, 32))
	other := hexs(randBytes(r, 32))
	two := r.Intn(3) == 0
	var mu sync.Mutex
	var calls []*joinCall
	var wg sync.WaitGroup
	stop := make(chan struct{})
	start := func(k int, id string, peers []string, delay time.Duration) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			j := &joinCall{host: k, session: id, timeout: T, began: time.Now()}
			c.Guard("panic", desc, func() { j.got, j.err = pcs[k].JoinPartyWithRetry(id, peers) })
			j.ended = time.Now()
			mu.Lock()
			calls = append(calls, j)
			mu.Unlock()
		}()
	}
	late := r.Intn(3) == 0
	for k := 0; k < n; k++ {
		var d time.Duration
		if late {
			d = time.Duration(r.Intn(int(T) * 5 / 4))
		} else {
			d = time.Duration(r.Intn(300)) * time.Millisecond
		}
		seedK := r.Int63()
		if !absent[k] {
			start(k, session, peerIDs(shuffledNodes(rand.New(rand.NewSource(seedK)), member)), d)
		}
		if two && r.Intn(2) == 0 {
			// another session of the same peers, which a few of them take part in
			start(k, other, peerIDs(member), d)
		}
	}
	// outsiders announce themselves for the session
	for k := n; k < n+out; k++ {
		wg.Add(1)
		h := lab.hosts[k]
		go func() {
			defer wg.Done()
			for {
				for to := 0; to < n; to++ {
					_, _ = rawSend(h.Host, nodes[to].Peer, protoLeaderless, frameOf(joinRequest(session)), 0)
					c.Count("announcements of outsiders", 1)
				}
				select {
				case <-stop:
					return
				case <-time.After(400 * time.Millisecond):
				}
			}
		}()
	}
	// an absent participant announces itself for other sessions, a present one repeats itself
	if r.Intn(2) == 0 {
		who := r.Intn(n)
		h := lab.hosts[who]
		id := session
		if absent[who] {
			id = other + "x"
			if r.Intn(2) == 0 {
				id = session[:len(session)-1]
			}
		}
		garbage := randBytes(r, 20)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				for to := 0; to < n; to++ {
					if to != who {
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeaderless, frameOf(joinRequest(id)), 0)
						_, _ = rawSend(h.Host, nodes[to].Peer, protoLeaderless, frameOf(garbage), 0)
					}
				}
				select {
				case <-stop:
					return
				case <-time.After(300 * time.Millisecond):
				}
			}
		}()
	}
	go func() {
		time.Sleep(2 * T)
		close(stop)
	}()
	if !Within(4*T+40*time.Second, wg.Wait) {
		c.Violate("stuck", "party forming (%s) does not return\n%s", desc, allStacks())
		return
	}
	seen := lab.seen()
	served := 0
	for k := range seen {
		if seen[k].Proto == protoLeaderless {
			served++
		}
	}
	c.Count("announcements served", served)
	nontrivial := false
	for _, j := range calls {
		must, may := j.heard(seen, protoLeaderless, "request")
		got := map[int]bool{}
		for _, p := range j.got {
			k := lab.index(p)
			if got[k] {
				c.Violate("listed-twice", "%s: node %d returned peer %d twice: %s", desc, j.host, k, j.names(lab))
			}
			got[k] = true
		}
		say := fmt.Sprintf("%s: node %d returned [%s] err %v; heard surely %v, perhaps %v; call took %v", desc, j.host, j.names(lab), j.err, keysOf(must), keysOf(may), j.ended.Sub(j.began))
		if !got[j.host] {
			c.Violate("self-missing", "%s: the node itself is not in the list", say)
		}
		for k := range got {
			if k == j.host {
				continue
			}
			if k < 0 || k >= n {
				c.Violate("outsider-listed", "%s: peer %d is not part of the request", say, k)
			} else if !may[k] {
				c.Violate("unheard-listed", "%s: peer %d did not announce itself", say, k)
			}
		}
		for k := range must {
			if k < n && k != j.host && !got[k] {
				c.Violate("heard-missing", "%s: peer %d announced itself in time but is not listed", say, k)
			}
		}
		if (j.err == nil) != (len(got) == n) {
			c.Violate("wrong-verdict", "%s: success and completeness differ", say)
		}
		if j.err == nil {
			c.Count("parties formed", 1)
		} else {
			c.Count("parties refused", 1)
		}
		nontrivial = true
		c.Case(fmt.Sprintf("%d/%d/%v/%v/%v", n, len(got), j.err == nil, late, two), true)
	}
	c.Case(desc, nontrivial)
	c.Sample("party", "%s: %d calls, %d announcements served", desc, len(calls), served)
}

// promptPartyScenario: a party of connected participants forms when the last one announced itself, not when the time is up.
func promptPartyScenario(c *Ctx, i int) {
	r := c.Rand("prompt", i)
	n := 2 + r.Intn(5)
	nodes := randNodes(r, n)
	lab := newNetLab(nodes)
	defer lab.close()
	const T = 30 * time.Second
	session := hexs(randBytes(r, 32))
	var pcs []*p2p.PartyCoordinator
	for k := 0; k < n; k++ {
		pcs = append(pcs, p2p.NewPartyCoordinator(lab.hosts[k], T))
	}
	var wg sync.WaitGroup
	var took = make([]time.Time, n)
	var errs = make([]error, n)
	got := make([]int, n)
	lag := r.Intn(4)
	for k := 0; k < n; k++ {
		d := time.Duration(r.Intn(500)) * time.Millisecond
		if k == 0 {
			d = time.Duration(lag) * time.Second
		}
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			ps, err := pcs[k].JoinPartyWithRetry(session, peerIDs(nodes))
			took[k], errs[k], got[k] = time.Now(), err, len(ps)
		}()
	}
	began := time.Now()
	if !Within(T+40*time.Second, wg.Wait) {
		c.Violate("stuck", "party forming of %d connected peers does not return\n%s", n, allStacks())
		return
	}
	limit := time.Duration(lag)*time.Second + 20*time.Second
	for k := 0; k < n; k++ {
		if errs[k] != nil || got[k] != n {
			c.Violate("connected-refused", "n=%d: node %d got %d peers, err %v although all are connected", n, k, got[k], errs[k])
		} else if d := took[k].Sub(began); d > limit {
			c.Violate("waits-for-the-timeout", "n=%d: node %d returned the whole party after %v, all had announced themselves after about %d s", n, k, d, lag)
		}
	}
	c.Count("prompt parties", 1)
	c.Case(fmt.Sprintf("prompt %d %d", n, lag), true)

	// a node that waits for peers of which it is none itself
	miss := r.Intn(2) == 0
	out := lab.add(randNode(r))
	wait := 20 * time.Second
	if miss {
		wait = 3 * time.Second
	}
	pc := p2p.NewPartyCoordinator(out, wait)
	done := make(chan struct{})
	for k := 0; k < n; k++ {
		if k == 0 && miss {
			continue
		}
		k := k
		go func() {
			for {
				_, _ = rawSend(lab.hosts[k].Host, out.ID(), protoLeaderless, frameOf(joinRequest(session)), 0)
				select {
				case <-done:
					return
				case <-time.After(200 * time.Millisecond):
				}
			}
		}()
	}
	ps, err := pc.JoinPartyWithRetry(session, peerIDs(nodes))
	close(done)
	want := n + 1
	if miss {
		want = n
	}
	if (err == nil) == miss || (len(ps) != want && (!miss || len(ps) > want)) {
		c.Violate("unlisted-caller", "a node that waits for %d peers without being one of them got %d peers, err %v (one of them silent: %v)", n, len(ps), err, miss)
	}
}

func keysOf(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
