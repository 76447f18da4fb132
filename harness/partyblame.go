package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

// What a complete node answers to a request whose party is not formed: whom it blames. One real node, its peers are
// puppets of which some announce themselves.

type partyReq struct {
	gen          bool
	participants []*Node // of the request, the node under test is one of them
	msgs         []string
}

type partyGroup struct {
	c     *Ctx
	r     *rand.Rand
	nodes []*Node
	s     *srv
	pp    *puppets
	pool  *Pool
}

const partyWait = 2500 * time.Millisecond

func (g *partyGroup) name(bech string) string {
	for i, nd := range g.nodes {
		if nd.Bech == bech {
			if nd == g.s.nd {
				return "self"
			}
			return fmt.Sprint(i)
		}
	}
	return bech
}

func (g *partyGroup) namesOf(l []string) []string {
	out := make([]string, 0, len(l))
	for _, b := range l {
		out = append(out, g.name(b))
	}
	sort.Strings(out)
	return out
}

// run makes the request while the puppets in ann announce themselves for its session, and gives the session it used,
// whom the answer blames, and whether the announcements were through well before the end of the wait.
// lead is the leader, or nil without one. Of a puppet leader, silent tells whether it does not answer.
func (g *partyGroup) run(q *partyReq, version string, height int64, session string, ann map[*Node]bool, lead *Node, silent bool) (string, []string, bool, string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	ended := make(chan struct{})
	started := false
	learnt := session
	prompt := true
	inTime := func(since time.Time) {
		if time.Since(since) > partyWait*6/10 {
			mu.Lock()
			prompt = false
			mu.Unlock()
		}
	}
	act := func(id string) {
		mu.Lock()
		dup := started
		started = true
		learnt = id
		mu.Unlock()
		if dup {
			return
		}
		began := time.Now()
		for nd := range ann {
			if nd == g.s.nd {
				continue
			}
			p := g.pp.index(nd.Peer)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for first := true; ; first = false {
					var err error
					if lead == nil {
						_, err = rawSend(g.pp.hosts[p].Host, g.s.nd.Peer, protoLeaderless, frameOf(joinRequest(id)), 0)
					} else if lead == g.s.nd {
						_, err = rawSend(g.pp.hosts[p].Host, g.s.nd.Peer, protoLeader, frameOf(leaderMsg(id, "request", 0, nil)), 0)
					}
					if first {
						inTime(began)
						if err != nil {
							mu.Lock()
							prompt = false
							mu.Unlock()
						}
					}
					select {
					case <-ended:
						return
					case <-time.After(300 * time.Millisecond):
					}
				}
			}()
		}
		if lead != nil && lead != g.s.nd && !silent {
			l := []string{g.s.nd.Peer.String(), lead.Peer.String()}
			for nd := range ann {
				if nd != lead && nd != g.s.nd {
					l = append(l, nd.Peer.String())
				}
			}
			_, _ = rawSend(g.pp.hosts[g.pp.index(lead.Peer)].Host, g.s.nd.Peer, protoLeader, frameOf(leaderMsg(id, "response", messages.JoinPartyLeaderComm_Timeout, l)), 0)
			inTime(began)
		}
	}
	g.pp.mu.Lock()
	g.pp.onJoin = func(p int, from peer.ID, proto protocol.ID, id string) {
		if from == g.s.nd.Peer && (session == "" || id == session) {
			act(id)
		}
	}
	g.pp.mu.Unlock()
	if lead == g.s.nd {
		// nobody is asked by a leader, its members announce themselves
		go func() {
			time.Sleep(200 * time.Millisecond)
			act(session)
		}()
	}
	var b blame.Blame
	var status common.Status
	var err error
	ok := Within(60*time.Second, func() {
		g.c.Guard("panic", "a request whose party is not formed", func() {
			if q.gen {
				var resp keygen.Response
				resp, err = g.s.Keygen(keygen.NewRequest(shuffled(g.r, bechs(q.participants)), height, version))
				status, b = resp.Status, resp.Blame
			} else {
				var resp keysign.Response
				resp, err = g.s.KeySign(keysign.NewRequest(g.pool.Bech, append([]string(nil), q.msgs...), height, shuffled(g.r, bechs(q.participants)), version))
				status, b = resp.Status, resp.Blame
			}
		})
	})
	close(ended)
	g.pp.mu.Lock()
	g.pp.onJoin = nil
	g.pp.mu.Unlock()
	wg.Wait()
	if !ok {
		return learnt, nil, false, "does not return\n" + allStacks()
	}
	if status != common.Fail {
		return learnt, nil, prompt, fmt.Sprintf("status %v (error %v) although the party cannot form", status, err)
	}
	var l []string
	for _, n := range b.BlameNodes {
		l = append(l, n.Pubkey)
	}
	mu.Lock()
	defer mu.Unlock()
	return learnt, l, prompt, ""
}

// partyBlameGroup judges the answers of requests without a leader, or with one.
func partyBlameGroup(c *Ctx, i int, leader bool) {
	r := c.Rand(fmt.Sprintf("partyblame%v", leader), i)
	n := 3 + r.Intn(4)
	if leader {
		n = 4 + r.Intn(3)
	}
	g := &partyGroup{c: c, r: r, nodes: randNodes(r, n)}
	me := r.Intn(n)
	g.pool = dealKey(r, g.nodes, thresholdOf(n))
	conf := common.TssConfig{PartyTimeout: partyWait, KeyGenTimeout: 5 * time.Second, KeySignTimeout: 3 * time.Second, PreParamTimeout: time.Second}
	ss, err := startGroup(c, fmt.Sprintf("pb%v%d", leader, i), g.nodes[me:me+1], conf, g.pool)
	defer stopGroup(ss)
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	g.s = ss[0]
	var others []*Node
	for k, nd := range g.nodes {
		if k != me {
			others = append(others, nd)
		}
	}
	g.pp = newPuppets(others)
	defer g.pp.close()
	if err := g.pp.meet(g.s, 1000); err != nil {
		c.Inconclusive("cannot connect to a node: %v", err)
		return
	}
	t := thresholdOf(n)
	for k := 0; k < c.N(5, 12) && !c.Violated(); k++ {
		q := &partyReq{gen: r.Intn(2) == 0}
		switch {
		case q.gen:
			m := 1 + r.Intn(len(others)) // key generation of any part of the network
			if leader {
				m = len(others)
			}
			q.participants = append([]*Node{g.s.nd}, shuffledNodes(r, others)[:m]...)
		case leader:
			q.participants = g.nodes
		default:
			m := t + r.Intn(len(others)-t+1)
			q.participants = append([]*Node{g.s.nd}, shuffledNodes(r, others)[:m]...)
		}
		for j := 1 + r.Intn(3); j > 0 && !q.gen; j-- {
			q.msgs = append(q.msgs, base64.StdEncoding.EncodeToString(randBytes(r, 32)))
		}
		asked := q.participants
		if leader {
			asked = g.nodes
		}
		// all announce themselves but some; a signing with a leader goes on with t+1
		ann := map[*Node]bool{}
		limit := len(asked) - 1
		if leader && !q.gen && t < limit {
			limit = t
		}
		size := limit - 1
		if k%2 == 1 && limit > 1 {
			size = r.Intn(limit)
		}
		for _, nd := range shuffledNodes(r, asked) {
			if nd != g.s.nd && len(ann) < size {
				ann[nd] = true
			}
		}
		var lead *Node
		silent := false
		version, height, session := "0.13.0", int64(1+r.Intn(100000)), ""
		role := "no leader"
		if leader {
			// the session does not depend on the version, and the height decides who leads
			session, _, _, _ = g.run(q, version, height, "", nil, nil, false)
			if session == "" {
				c.Inconclusive("the session of a request is not announced")
				return
			}
			version = "0.14.0"
			switch k % 3 {
			case 0:
				lead, role = g.s.nd, "the node leads"
			case 1:
				lead, role = others[r.Intn(len(others))], "another leads"
			default:
				lead, silent, role = others[r.Intn(len(others))], true, "the leader is silent"
			}
			for height = int64(1 + r.Intn(100000)); g.nodes[electedOf(session, height, g.nodes)] != lead; height++ {
			}
			if lead != g.s.nd && !silent {
				// the leader itself is one of those online
				if !ann[lead] && len(ann)+2 > limit {
					for nd := range ann {
						delete(ann, nd)
						break
					}
				}
				ann[lead] = true
			}
		}
		// what the node knows about those online
		want := map[string]bool{}
		for _, nd := range asked {
			if nd != g.s.nd && !ann[nd] {
				want[nd.Bech] = true
			}
		}
		if leader {
			if silent || !q.gen {
				want = map[string]bool{}
			}
			want[lead.Bech] = true
		}
		var expect, announced []string
		for b := range want {
			expect = append(expect, b)
		}
		for nd := range ann {
			announced = append(announced, nd.Bech)
		}
		desc := fmt.Sprintf("key generation %v of %d out of %d nodes, %s, announced %v", q.gen, len(asked), n, role, g.namesOf(announced))
		bad, slow := "", false
		for try := 0; try < 3; try++ {
			_, got, prompt, odd := g.run(q, version, height, session, ann, lead, silent)
			if strings.HasPrefix(odd, "does not return") {
				c.Violate("stuck", "%s: %s", desc, odd)
				return
			}
			bad = odd
			if odd == "" && !sameStrings(g.namesOf(got), g.namesOf(expect)) {
				bad = fmt.Sprintf("the answer blames %v, want %v", g.namesOf(got), g.namesOf(expect))
			}
			if slow = !prompt; bad == "" {
				break
			}
		}
		switch {
		case bad != "" && slow:
			c.Count("answers not judged, the machine was too slow", 1)
			continue
		case bad != "":
			c.Violate("request-blame", "%s: %s", desc, bad)
		}
		c.Count("answers of requests without a party: "+role, 1)
		c.Case("partyblame "+desc, true)
		c.Sample("request without a party", "%s: blames %v", desc, g.namesOf(expect))
	}
}
