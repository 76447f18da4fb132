package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	maddr "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { register("C15", checkC15) }

// startComms starts connected communication layers, one per node.
func startComms(nodes []*Node) ([]*p2p.Communication, error) {
	var out []*p2p.Communication
	var boot []maddr.Multiaddr
	for _, n := range nodes {
		var cm *p2p.Communication
		var err error
		for try := 0; try < 6; try++ {
			port := freePort()
			cm, err = p2p.NewCommunication("verif", boot, port, "")
			if err != nil {
				return out, err
			}
			if err = cm.Start(n.Priv); err == nil {
				a, e := maddr.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", port, n.Peer))
				if e != nil {
					return out, e
				}
				boot = append(boot, a)
				break
			}
		}
		if err != nil {
			return out, err
		}
		out = append(out, cm)
	}
	return out, nil
}

func stopComms(cs []*p2p.Communication) {
	var wg sync.WaitGroup
	for _, c := range cs {
		c := c
		wg.Add(1)
		go func() { defer wg.Done(); _ = c.Stop() }()
	}
	Within(20*time.Second, wg.Wait)
}

// sub is one subscription of one node.
type sub struct {
	node  int
	typ   messages.THORChainTSSMessageType
	id    string
	ch    chan *p2p.Message
	began time.Time
	ended time.Time // zero: still subscribed at the end
	mu    sync.Mutex
	got   []gotMsg
	stop  chan struct{}
	idle  bool // nobody reads it
}

type gotMsg struct {
	from peer.ID
	body []byte
	at   time.Time
}

func (s *sub) run(lag time.Duration) {
	for {
		if lag > 0 {
			time.Sleep(lag)
		}
		select {
		case m := <-s.ch:
			s.mu.Lock()
			s.got = append(s.got, gotMsg{m.PeerID, m.Payload, time.Now()})
			s.mu.Unlock()
		case <-s.stop:
			return
		}
	}
}

// sentMsg is one message handed to a node for sending, or written by a hostile peer.
type sentMsg struct {
	from    int
	typ     messages.THORChainTSSMessageType
	id      string
	payload []byte
	to      map[int]bool
	at      time.Time
	node    bool // sent by the node, not by a raw peer
}

func checkC15(c *Ctx) {
	c.Rule = "3..5 connected nodes and a hostile peer, 2..5 sessions times 3..5 message types subscribed on random nodes, messages of 0 bytes to megabytes to random peer lists (with the sender in them), subscriptions that end, start and are replaced during the traffic, a subscriber that never reads, malformed frames, two connections per pair; non-trivial = at least one delivery was expected"
	c.Assume("a message in flight while a subscription begins or ends may be delivered or dropped; the nodes are connected over loopback")
	n := c.N(8, 60)
	c.Parallel(n, 4, func(i int) { routeScenario(c, i) })
	c.Require("deliveries", int64(n*60))
	c.Require("messages nobody subscribed to", int64(n*5))
	c.Require("malformed frames", int64(n*10))
}

func routeScenario(c *Ctx, i int) {
	r := c.Rand("route", i)
	nn := 3 + r.Intn(3)
	nodes := randNodes(r, nn+1)
	comms, err := startComms(nodes[:nn])
	defer stopComms(comms)
	if err != nil {
		c.Inconclusive("cannot start the nodes: %v", err)
		return
	}
	hostLab := newNetLab(nodes[nn:])
	defer hostLab.close()
	hostile := hostLab.hosts[0]
	for k := 0; k < nn; k++ {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		err := hostile.Connect(ctx, peer.AddrInfo{ID: nodes[k].Peer, Addrs: comms[k].GetHost().Addrs()})
		cancel()
		if err != nil {
			c.Inconclusive("cannot connect to a node: %v", err)
			return
		}
	}
	// wait until all know each other
	for k := 0; k < nn; k++ {
		for j := 0; j < nn; j++ {
			if j != k && len(comms[k].GetHost().Network().ConnsToPeer(nodes[j].Peer)) == 0 {
				ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
				if err := comms[k].GetHost().Connect(ctx, peer.AddrInfo{ID: nodes[j].Peer, Addrs: comms[j].GetHost().Addrs()}); err != nil {
					c.Inconclusive("cannot connect the nodes: %v", err)
				}
				cancel()
			}
		}
	}
	idx := map[peer.ID]int{}
	for k, n := range nodes {
		idx[n.Peer] = k
	}
	types := []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeySignMsg, messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg, messages.TSSControlMsg, messages.TSSTaskDone}
	r.Shuffle(len(types), func(a, b int) { types[a], types[b] = types[b], types[a] })
	types = types[:3+r.Intn(3)]
	var ids []string
	for k := 0; k < 2+r.Intn(4); k++ {
		s := hexs(randBytes(r, 32))
		if k > 0 && r.Intn(3) == 0 {
			s = ids[0][:len(ids[0])-1] // a prefix of another one
		}
		ids = append(ids, s)
	}
	var mu sync.Mutex
	var subs []*sub
	live := map[string]*sub{}
	key := func(node int, t messages.THORChainTSSMessageType, id string) string {
		return fmt.Sprintf("%d/%d/%s", node, t, id)
	}
	subscribe := func(node int, t messages.THORChainTSSMessageType, id string, read bool) {
		mu.Lock()
		defer mu.Unlock()
		k := key(node, t, id)
		s := &sub{node: node, typ: t, id: id, ch: make(chan *p2p.Message, r.Intn(3)), stop: make(chan struct{}), idle: !read}
		if o := live[k]; o != nil {
			o.ended = time.Now()
		}
		s.began = time.Now()
		comms[node].SetSubscribe(t, id, s.ch)
		live[k] = s
		subs = append(subs, s)
		if read {
			var lag time.Duration
			if r.Intn(3) == 0 {
				// a slow reader
				lag = time.Duration(5+r.Intn(40)) * time.Millisecond
			}
			go s.run(lag)
		}
	}
	cancel := func(node int, t messages.THORChainTSSMessageType, id string) {
		mu.Lock()
		defer mu.Unlock()
		k := key(node, t, id)
		if o := live[k]; o != nil {
			o.ended = time.Now()
			delete(live, k)
		}
		comms[node].CancelSubscribe(t, id)
	}
	for node := 0; node < nn; node++ {
		for _, t := range types {
			for _, id := range ids {
				if r.Intn(4) != 0 {
					subscribe(node, t, id, true)
				}
			}
		}
	}
	// nobody reads this one
	deadID := hexs(randBytes(r, 32))
	subscribe(0, types[0], deadID, false)

	var sent []*sentMsg
	var sentMu sync.Mutex
	var seq int64
	dur := time.Duration(c.N(2500, 5000)) * time.Millisecond
	end := time.Now().Add(dur)
	var wg sync.WaitGroup
	for node := 0; node <= nn; node++ {
		node := node
		for w := 0; w < 2; w++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(end) {
					m := &sentMsg{from: node, typ: types[rr.Intn(len(types))], id: ids[rr.Intn(len(ids))], to: map[int]bool{}, node: node < nn}
					if rr.Intn(8) == 0 {
						// a session or a type nobody subscribed to
						m.id = hexs(randBytes(rr, 16))
						c.Count("messages nobody subscribed to", 1)
					}
					if rr.Intn(30) == 0 {
						m.id = deadID
						m.typ = types[0]
					}
					size := rr.Intn(200)
					switch rr.Intn(12) {
					case 0:
						size = 0
					case 1:
						size = rr.Intn(200000)
					case 2:
						if rr.Intn(8) == 0 {
							size = 1000000 + rr.Intn(3000000)
						}
					}
					tag := fmt.Sprintf("%d-%d-", node, atomic.AddInt64(&seq, 1))
					m.payload = append([]byte(tag), bytes.Repeat([]byte{byte(rr.Intn(256))}, size)...)
					wm := messages.WrappedMessage{MessageType: m.typ, MsgID: m.id, Payload: m.payload}
					var to []peer.ID
					for _, j := range rr.Perm(nn)[:1+rr.Intn(nn)] {
						if j != node || (node < nn && rr.Intn(2) == 0) {
							to = append(to, nodes[j].Peer)
							if j != node {
								m.to[j] = true
							}
						}
					}
					m.at = time.Now()
					sentMu.Lock()
					sent = append(sent, m)
					sentMu.Unlock()
					if node < nn {
						comms[node].BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: wm, PeersID: to}
					} else {
						body, _ := json.Marshal(wm)
						for _, p := range to {
							if len(body) > 100000 {
								continue
							}
							_, _ = rawSend(hostile.Host, p, protoTss, frameOf(body), 0)
							if rr.Intn(2) == 0 {
								_, _ = rawSend(hostile.Host, p, protoTss, malformedFrame(rr, body), 0)
								c.Count("malformed frames", 1)
							}
						}
					}
					time.Sleep(time.Duration(rr.Intn(40)) * time.Millisecond)
				}
			}()
		}
	}
	// subscriptions change meanwhile
	rr := rand.New(rand.NewSource(r.Int63()))
	wg.Add(1)
	go func() {
		defer wg.Done()
		for time.Now().Before(end) {
			node, t, id := rr.Intn(nn), types[rr.Intn(len(types))], ids[rr.Intn(len(ids))]
			switch rr.Intn(3) {
			case 0:
				cancel(node, t, id)
			default:
				subscribe(node, t, id, true)
			}
			time.Sleep(time.Duration(100+rr.Intn(150)) * time.Millisecond)
		}
	}()
	if !Within(dur+60*time.Second, wg.Wait) {
		c.Violate("stuck", "handing messages to the nodes blocks\n%s", allStacks())
		return
	}
	// wait until the traffic has settled
	last, quiet := -1, 0
	for k := 0; k < 100 && quiet < 8; k++ {
		time.Sleep(250 * time.Millisecond)
		n := 0
		mu.Lock()
		for _, s := range subs {
			s.mu.Lock()
			n += len(s.got)
			s.mu.Unlock()
		}
		mu.Unlock()
		if n == last {
			quiet++
		} else {
			quiet, last = 0, n
		}
	}
	judgeRoutes(c, nodes, nn, subs, sent)
	for _, s := range subs {
		close(s.stop)
	}
}

// malformedFrame makes bytes the node must not deliver.
func malformedFrame(r *rand.Rand, body []byte) []byte {
	f := frameOf(body)
	switch r.Intn(7) {
	case 0:
		return f[:r.Intn(len(f))]
	case 1:
		return frameOf(body[:len(body)-1])
	case 2:
		return frameOf(randBytes(r, 1+r.Intn(100)))
	case 3:
		return []byte{255, 255, 255, 255, 1, 2, 3}
	case 4:
		return frameOf(nil)
	case 5:
		return frameOf([]byte(strings.Replace(string(body), `"message_type":`, `"message_type":"`, 1)))
	}
	return frameOf([]byte(`{"message_type":99,"message_id":1,"payload":{}}`))
}

func judgeRoutes(c *Ctx, nodes []*Node, nn int, subs []*sub, sent []*sentMsg) {
	const slack = 250 * time.Millisecond
	idx := map[peer.ID]int{}
	for k, n := range nodes {
		idx[n.Peer] = k
	}
	byTag := map[string]*sentMsg{}
	for _, m := range sent {
		byTag[tagOf(m.payload)] = m
	}
	type dst struct {
		m    *sentMsg
		node int
	}
	count := map[dst]int{}
	where := map[dst]*sub{}
	for _, s := range subs {
		for _, g := range s.got {
			var w messages.WrappedMessage
			if err := json.Unmarshal(g.body, &w); err != nil {
				c.Violate("malformed-delivered", "a subscriber of node %d got %q, which is not a message", s.node, cut(g.body))
				continue
			}
			m := byTag[tagOf(w.Payload)]
			if m == nil {
				c.Violate("made-up", "a subscriber of node %d got a message nobody sent: %q", s.node, cut(g.body))
				continue
			}
			say := fmt.Sprintf("message %q (type %v, session %.12s) of node %d to %v, delivered to the subscriber of type %v session %.12s on node %d", tagOf(m.payload), m.typ, m.id, m.from, keysOf(m.to), s.typ, s.id, s.node)
			if w.MsgID != m.id || w.MessageType != m.typ || !bytes.Equal(w.Payload, m.payload) {
				c.Violate("changed", "%s was changed", say)
			}
			if m.typ != s.typ || m.id != s.id {
				c.Violate("wrong-subscriber", "%s", say)
			}
			if !m.to[s.node] {
				c.Violate("not-listed", "%s: the node is not listed", say)
			}
			if f, ok := idx[g.from]; !ok || f != m.from {
				c.Violate("wrong-sender", "%s: labelled as sent by node %d", say, f)
			}
			if !s.ended.IsZero() && m.at.After(s.ended.Add(slack)) {
				c.Violate("after-the-end", "%s: %v after the subscription ended", say, m.at.Sub(s.ended))
			}
			d := dst{m, s.node}
			count[d]++
			if count[d] > 1 {
				c.Violate("delivered-twice", "%s (before to the one that began %v)", say, where[d].began)
			}
			where[d] = s
			c.Count("deliveries", 1)
		}
	}
	missing, expected := 0, 0
	var first string
	for _, m := range sent {
		if !m.node && len(m.payload) > 70000 {
			continue
		}
		for j := range m.to {
			// was one reading subscription there all the time around the message?
			var on *sub
			for _, s := range subs {
				if s.node != j || s.typ != m.typ || s.id != m.id {
					continue
				}
				if s.began.Before(m.at) && (s.ended.IsZero() || s.ended.After(m.at.Add(3*time.Second))) {
					on = s
				}
			}
			if on == nil || on.idle {
				continue
			}
			expected++
			if count[dst{m, j}] == 0 {
				missing++
				if first == "" {
					first = fmt.Sprintf("message %q (%d bytes, type %v, session %.12s) of node %d to %v was not delivered on node %d", tagOf(m.payload), len(m.payload), m.typ, m.id, m.from, keysOf(m.to), j)
				}
			}
		}
	}
	if missing > 0 {
		c.Violate("not-delivered", "%d of %d expected deliveries are missing: %s", missing, expected, first)
	}
	c.Case(fmt.Sprintf("%d nodes, %d subscriptions, %d messages, %d expected", nn, len(subs), len(sent), expected), expected > 0)
	c.Sample("traffic", "%d nodes, %d subscriptions, %d messages, %d expected deliveries", nn, len(subs), len(sent), expected)
}

func tagOf(p []byte) string {
	n := 0
	for i, b := range p {
		if b == '-' {
			n++
			if n == 2 {
				return string(p[:i+1])
			}
		}
		if i > 40 {
			break
		}
	}
	return "?" + base64.StdEncoding.EncodeToString(p[:minInt(len(p), 20)])
}

func cut(b []byte) string {
	if len(b) > 120 {
		b = b[:120]
	}
	return string(b)
}
