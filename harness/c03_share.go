package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

func init() {
	register("C03", func(c *Ctx) { shareCheck(c, "C03") })
	register("C04", func(c *Ctx) { shareCheck(c, "C04") })
	register("C05", func(c *Ctx) { shareCheck(c, "C05") })
	register("C08", func(c *Ctx) { shareCheck(c, "C08") })
}

// plan of one scenario
type sharePlan struct {
	*shareLab
	r        *rand.Rand
	bad      map[int]bool // malicious participants
	loss     float64      // probability that a direct broadcast is lost
	hostile  int
	dup      float64
	probes   int
	queue    []shareEvt
	msgs     map[string]*messages.WireMessage // "author|round|to" -> honest message
	version  map[string]map[int]*messages.WireMessage
	lost     map[string]bool
	answers  int
	truthful bool  // malicious participants only lie about their own shares
	must     []int // participants whose confirmation of their own share must have been noticed
}

type shareEvt struct {
	from    peer.ID
	payload []byte
	what    string
	answer  *messages.WireMessage
}

func (s *sharePlan) add(from int, payload []byte, format string, a ...interface{}) {
	s.queue = append(s.queue, shareEvt{from: s.nodes[from].Peer, payload: payload, what: fmt.Sprintf(format, a...)})
}

func (s *sharePlan) slot(author int, round string, to int) string {
	return fmt.Sprintf("%d|%s|%d", author, round, to)
}

func (s *sharePlan) honestHash(author int, round string) string {
	return hashOf(s.msgs[s.slot(author, round, -1)].Message)
}

// other returns any participant but the node under test.
func (s *sharePlan) other() int {
	for {
		if p := s.r.Intn(s.n); p != s.me {
			return p
		}
	}
}

func (s *sharePlan) build() {
	r := s.r
	rounds := allRounds[s.keygen]
	if s.n > 4 || len(s.entries) > 3 {
		// keep the histories of large groups small
		var sub []string
		for _, k := range r.Perm(len(rounds))[:1+r.Intn(3)] {
			sub = append(sub, rounds[k])
		}
		sort.Strings(sub)
		rounds = sub
	}
	s.msgs = map[string]*messages.WireMessage{}
	s.lost = map[string]bool{}
	s.version = map[string]map[int]*messages.WireMessage{}
	garbage := func() string { return hexs(randBytes(r, 32)) }
	common2 := garbage()
	for o := 0; o < s.n; o++ {
		if o == s.me {
			continue
		}
		for _, rd := range rounds {
			if unicastRounds[rd] {
				for to := 0; to < s.n; to++ {
					if to == o {
						continue
					}
					w := s.sign(o, rd, to, s.newBulk(r, o, rd, to))
					s.msgs[s.slot(o, rd, to)] = w
					if to == s.me {
						s.add(o, s.share(w), "%s of %d for me", rd, o)
						for r.Float64() < s.dup {
							s.add(s.other(), s.share(w), "%s of %d for me, again", rd, o)
						}
					}
				}
				continue
			}
			w := s.sign(o, rd, -1, s.newBulk(r, o, rd, -1))
			s.msgs[s.slot(o, rd, -1)] = w
			ver := map[int]*messages.WireMessage{}
			for p := 0; p < s.n; p++ {
				ver[p] = w
			}
			if s.bad[o] && r.Intn(3) == 0 {
				// equivocation: others get other content
				w2 := s.sign(o, rd, -1, s.newBulk(r, o, rd, -1))
				for p := 0; p < s.n; p++ {
					if r.Intn(2) == 0 {
						ver[p] = w2
					}
				}
				s.c.Count("equivocations", 1)
			}
			s.version[s.slot(o, rd, -1)] = ver
			if r.Float64() < s.loss {
				s.lost[s.slot(o, rd, -1)] = true
				s.c.Count("direct_broadcasts_lost", 1)
			} else {
				s.add(o, s.share(ver[s.me]), "%s of %d (%.6s)", rd, o, hashOf(ver[s.me].Message))
			}
			for r.Float64() < s.dup {
				s.add(s.other(), s.share(ver[r.Intn(s.n)]), "%s of %d, relayed or again", rd, o)
			}
			for p := 0; p < s.n; p++ {
				if p == o || p == s.me {
					continue
				}
				h := hashOf(ver[p].Message)
				if s.bad[p] && !s.truthful {
					switch r.Intn(5) {
					case 0:
						h = garbage()
					case 1:
						h = common2
					case 2:
						continue
					case 3:
						s.add(p, s.report(o, rd, garbage()), "report by %d about %s of %d: garbage", p, rd, o)
					}
					s.add(p, s.report(o, rd, h), "report by %d about %s of %d: %.6s", p, rd, o, h)
					for r.Intn(2) == 0 {
						h2 := []string{h, garbage(), common2, hashOf(w.Message)}[r.Intn(4)]
						s.add(p, s.report(o, rd, h2), "repeated report by %d about %s of %d: %.6s", p, rd, o, h2)
					}
				} else {
					s.add(p, s.report(o, rd, h), "report by %d about %s of %d: %.6s", p, rd, o, h)
					for r.Float64() < s.dup {
						s.add(p, s.report(o, rd, h), "report by %d about %s of %d, again", p, rd, o)
					}
				}
			}
			if s.bad[o] && r.Intn(4) == 0 {
				s.add(o, s.report(o, rd, hashOf(ver[s.me].Message)), "report by %d about %s of %d, its own", o, rd, o)
			}
		}
	}
	for p := 0; p < s.n; p++ {
		if p == s.me || r.Intn(12) == 0 {
			continue
		}
		s.add(p, wrap(messages.TSSTaskDone, s.session, messages.TssTaskNotifier{TaskDone: true}), "done")
		for r.Float64() < s.dup {
			s.add(p, wrap(messages.TSSTaskDone, s.session, messages.TssTaskNotifier{TaskDone: true}), "done again")
		}
		if r.Intn(6) == 0 {
			s.add(p, wrap(messages.TSSTaskDone, s.session, messages.TssTaskNotifier{TaskDone: false}), "not done")
		}
	}
	for k := 0; k < s.hostile; k++ {
		s.addHostile(rounds)
	}
	r.Shuffle(len(s.queue), func(i, j int) { s.queue[i], s.queue[j] = s.queue[j], s.queue[i] })
	// sometimes reports come before shares, or the other way round
	switch r.Intn(4) {
	case 0:
		sort.SliceStable(s.queue, func(i, j int) bool {
			return strings.HasPrefix(s.queue[i].what, "report") && !strings.HasPrefix(s.queue[j].what, "report")
		})
	case 1:
		sort.SliceStable(s.queue, func(i, j int) bool {
			return !strings.HasPrefix(s.queue[i].what, "report") && strings.HasPrefix(s.queue[j].what, "report")
		})
	}
}

// someone who misbehaves: a malicious participant, or an outsider
func (s *sharePlan) attacker() (idx int, id peer.ID, nd *Node) {
	var bs []int
	for b := range s.bad {
		bs = append(bs, b)
	}
	sort.Ints(bs)
	if len(bs) == 0 || s.r.Intn(4) == 0 {
		nd := randNode(s.r)
		return -1, nd.Peer, nd
	}
	b := bs[s.r.Intn(len(bs))]
	return b, s.nodes[b].Peer, s.nodes[b]
}

func (s *sharePlan) addHostile(rounds []string) {
	r := s.r
	qi, qp, qn := s.attacker()
	add := func(payload []byte, format string, a ...interface{}) {
		s.queue = append(s.queue, shareEvt{from: qp, payload: payload, what: fmt.Sprintf("HOSTILE by %d: ", qi) + fmt.Sprintf(format, a...)})
		s.c.Count("hostile_messages", 1)
	}
	// a victim's genuine message
	var slots []string
	for k := range s.msgs {
		slots = append(slots, k)
	}
	sort.Strings(slots)
	if len(slots) == 0 {
		return
	}
	slot := slots[r.Intn(len(slots))]
	g := clone(s.msgs[slot])
	o := 0
	fmt.Sscanf(slot, "%d|", &o)
	to := -1
	rd := strings.Split(slot, "|")[1]
	fmt.Sscan(strings.Split(slot, "|")[2], &to)
	fake := func(author int) []common.BulkWireMsg { // invented shares of an author
		return s.newBulk(r, author, rd, to)
	}
	gKey := g.GetCacheKey()
	answer := r.Intn(4) == 0 // hand it over as an answer instead
	send := func(w *messages.WireMessage, format string, a ...interface{}) {
		if answer {
			add(s.control(gKey, hashOf(w.Message), w), "answer: "+format, a...)
			return
		}
		add(s.share(w), format, a...)
	}
	retag := func(bulk []common.BulkWireMsg, f func(b *common.BulkWireMsg)) []common.BulkWireMsg {
		for i := range bulk {
			rt := *bulk[i].Routing
			bulk[i].Routing = &rt
			f(&bulk[i])
		}
		return bulk
	}
	mine := qi
	if mine < 0 {
		mine = o
	}
	switch k := r.Intn(30); k {
	case 0:
		g.Message[r.Intn(len(g.Message))] ^= 1 << uint(r.Intn(8))
		send(g, "%s with a bit of the content flipped", slot)
	case 1:
		g.Sig[r.Intn(len(g.Sig))] ^= 1 << uint(r.Intn(8))
		send(g, "%s with a bit of the signature flipped", slot)
	case 2:
		g.Sig = nil
		send(g, "%s without signature", slot)
	case 3: // invented shares signed with the attacker's key
		rt := s.routing(o, to)
		bulk := fake(o)
		how := ""
		if qi >= 0 && r.Intn(2) == 0 {
			// a sender put together from two participants, outside or inside
			mix := func(f *btss.PartyID) *btss.PartyID {
				a := s.pid(qi)
				m := btss.NewPartyID(f.Id, f.Moniker, a.KeyInt())
				m.Index = f.Index
				switch r.Intn(4) {
				case 0:
					m.Moniker = a.Moniker
				case 1:
					m.Moniker, m.Index = a.Moniker, a.Index
				case 2: // its own name with the other's key
					m = btss.NewPartyID(a.Id, a.Moniker, f.KeyInt())
					m.Index = a.Index
				}
				return m
			}
			if r.Intn(4) > 0 {
				rt.From = mix(rt.From)
			}
			if r.Intn(3) == 0 {
				bulk = retag(bulk, func(b *common.BulkWireMsg) { b.Routing.From = mix(b.Routing.From) })
			}
			how = fmt.Sprintf(" with sender %s key %x", rt.From.Id, rt.From.Key[:4])
		}
		send(signWire(qn, s.session, rt, rd, bulk), "invented %s signed by the attacker%s", slot, how)
	case 4:
		if qi < 0 {
			return
		}
		// own envelope around shares claimed to be another's
		bulk := fake(o)
		send(signWire(qn, s.session, s.routing(qi, to), rd, bulk), "envelope of %d around invented shares of %d (%s)", qi, o, rd)
	case 5:
		if qi < 0 || len(s.entries) < 2 {
			return
		}
		bulk := s.newBulk(r, qi, rd, to)
		x := fake(o)
		bulk[len(bulk)-1] = x[len(x)-1]
		send(signWire(qn, s.session, s.routing(qi, to), rd, bulk), "envelope of %d with one invented share of %d among its own (%s)", qi, o, rd)
	case 6: // replay from another session
		other := sessionID(fmt.Sprint(r.Int63()))
		w := signWire(s.nodes[o], other, s.routing(o, to), rd, fake(o))
		send(w, "%s of another session", slot)
	case 7:
		g.Routing.From = s.pid(r.Intn(s.n))
		send(g, "%s claimed to be from %s", slot, g.Routing.From.Id)
	case 8:
		g.RoundInfo = rounds[r.Intn(len(rounds))]
		send(g, "%s relabelled %s", slot, g.RoundInfo)
	case 9:
		g.Routing.IsBroadcast = !g.Routing.IsBroadcast
		send(g, "%s with the broadcast flag flipped", slot)
	case 10:
		bulk := retag(s.newBulk(r, mine, rd, to), func(b *common.BulkWireMsg) { b.Routing.IsBroadcast = !b.Routing.IsBroadcast })
		send(signWire(qn, s.session, s.routing(mine, to), rd, bulk), "own %s with the inner flags flipped", rd)
	case 11:
		var w *messages.WireMessage
		switch r.Intn(6) {
		case 0:
			g.Routing = nil
			w = g
		case 1:
			g.Routing.From = nil
			w = g
		case 2:
			g.Routing.From.Id = "77"
			w = g
		case 3:
			w = signWire(qn, s.session, s.routing(mine, to), rd, retag(s.newBulk(r, mine, rd, to), func(b *common.BulkWireMsg) { b.Routing = nil }))
		case 4:
			w = signWire(qn, s.session, s.routing(mine, to), rd, retag(s.newBulk(r, mine, rd, to), func(b *common.BulkWireMsg) { b.Routing.From = nil }))
		case 5:
			g.Routing.From.MessageWrapper_PartyID = nil
			buf, _ := json.Marshal(g)
			st, _ := msgTypes(s.keygen)
			out, _ := json.Marshal(messages.WrappedMessage{MessageType: st, MsgID: s.session, Payload: buf})
			add(out, "%s with an empty sender", slot)
			return
		}
		send(w, "%s with broken routing", slot)
	case 12:
		if qi < 0 {
			return
		}
		bulk := s.newBulk(r, qi, rd, to)
		bulk = append(bulk, bulk[r.Intn(len(bulk))])
		x := s.newBulk(r, qi, rd, to)
		bulk = append(bulk, x[0])
		send(signWire(qn, s.session, s.routing(qi, to), rd, bulk), "own %s with entries repeated", rd)
	case 13: // share of the other protocol
		if qi < 0 {
			return
		}
		or := allRounds[!s.keygen]
		x := or[r.Intn(len(or))]
		bulk := s.newBulk(r, qi, x, -1)
		send(signWire(qn, s.session, s.routing(qi, -1), x, bulk), "own share of the other protocol (%s)", x)
	case 14:
		add(randBytes(r, r.Intn(200)), "garbage")
	case 15: // somebody else's private share
		if to < 0 || to == s.me {
			return
		}
		send(g, "private %s of %d for %d forwarded", rd, o, to)
	case 16:
		if qi < 0 {
			return
		}
		// the shares of another round inside
		x := rounds[r.Intn(len(rounds))]
		bulk := s.newBulk(r, qi, x, to)
		send(signWire(qn, s.session, s.routing(qi, to), rd, bulk), "own %s with shares of %s", rd, x)
	case 17:
		if qi < 0 {
			return
		}
		bulk := s.newBulk(r, qi, rd, to)
		for i := range bulk {
			bulk[i].MsgIdentifier = s.entries[r.Intn(len(s.entries))]
		}
		if r.Intn(2) == 0 {
			bulk[r.Intn(len(bulk))].MsgIdentifier = "nobody"
		}
		send(signWire(qn, s.session, s.routing(qi, to), rd, bulk), "own %s with shuffled entries", rd)
	case 18:
		if qi < 0 {
			return
		}
		bulk := s.newBulk(r, qi, rd, to)
		bulk[r.Intn(len(bulk))].WiredBulkMsgs = randBytes(r, r.Intn(60))
		send(signWire(qn, s.session, s.routing(qi, to), rd, bulk), "own %s with a garbage share", rd)
	case 19:
		if qi < 0 {
			return
		}
		send(signWire(qn, s.session, s.routing(qi, to), rd, []common.BulkWireMsg{}), "own empty %s", rd)
	case 20:
		if qi < 0 {
			return
		}
		send(signRaw(qn, s.session, s.routing(qi, to), rd, randBytes(r, r.Intn(80))), "own %s that is no list", rd)
	case 21: // an outsider confirms
		nd := randNode(r)
		qp, qi = nd.Peer, -1
		add(s.report(o, rd, hashOf(g.Message)), "report about %s of %d by an outsider", rd, o)
	case 22:
		nd := randNode(r)
		qp, qi = nd.Peer, -1
		add(wrap(messages.TSSTaskDone, s.session, messages.TssTaskNotifier{TaskDone: true}), "done by an outsider")
	case 23: // unsolicited answers
		add(s.control(g.GetCacheKey(), hashOf(g.Message), g), "answer with %s, asked for or not", slot)
	case 24: // answer for a requested hash with other content
		x := signWire(qn, s.session, s.routing(mine, to), rd, s.newBulk(r, mine, rd, to))
		add(s.control(g.GetCacheKey(), hashOf(g.Message), x), "answer for %s with other content", slot)
	case 25:
		// pure broadcast share sent as a private one, to skip the confirmation
		if qi < 0 {
			return
		}
		for _, x := range rounds {
			if !unicastRounds[x] {
				bulk := s.newBulk(r, qi, x, -1)
				retag(bulk, func(b *common.BulkWireMsg) {
					b.Routing.IsBroadcast = false
					b.Routing.To = []*btss.PartyID{s.pid(s.me)}
				})
				send(signWire(qn, s.session, s.routing(qi, s.me), x, bulk), "own %s sent as a private share", x)
				return
			}
		}
	case 26:
		_, vt := msgTypes(s.keygen)
		v := messages.BroadcastConfirmMessage{P2PID: s.nodes[r.Intn(s.n)].Peer.String(), Key: s.ids[o].Id + "-" + rd, Hash: hexs(randBytes(r, 32))}
		if qi < 0 || to >= 0 {
			return
		}
		add(wrap(vt, s.session, v), "report about %s of %d in the name of another", rd, o)
	case 27:
		if qi < 0 {
			return
		}
		// an extra share of one's own, to be confirmed by nobody
		send(signWire(qn, s.session, s.routing(qi, to), rd, s.newBulk(r, qi, rd, to)), "another own %s", rd)
	case 28:
		keys := []string{g.GetCacheKey(), s.ids[o].Id + "-" + rounds[r.Intn(len(rounds))], "", "x-y", s.ids[s.me].Id + "-" + rd}
		add(s.control(keys[r.Intn(len(keys))], hexs(randBytes(r, 32)), nil), "request for something")
	case 29: // the right content, spoilt, to use up a request
		switch r.Intn(3) {
		case 0:
			g.Sig = randBytes(r, 64)
		case 1:
			g.RoundInfo = "nothing"
		case 2:
			g.Routing.From = s.pid(mine)
		}
		add(s.control(g.GetCacheKey(), hashOf(g.Message), g), "spoilt answer for %s", slot)
	}
}

// handle plays the part of the other participants: they answer the node's requests.
func (s *sharePlan) handle(outs []output) {
	r := s.r
	for _, o := range outs {
		if o.msg.MessageType != messages.TSSControlMsg {
			continue
		}
		var ct messages.TssControl
		if json.Unmarshal(o.msg.Payload, &ct) != nil || ct.Msg != nil {
			continue
		}
		var author int
		k := s.keyOf(ct.ReqKey)
		if k == nil {
			continue
		}
		author = k.author
		ver := s.version[s.slot(author, k.round, -1)]
		for _, p := range o.to {
			pi := s.peerIndex(p)
			if pi < 0 || pi == s.me || ver == nil {
				continue
			}
			var evs []shareEvt
			w := ver[pi]
			if s.bad[pi] && !s.truthful {
				g := clone(w)
				switch r.Intn(6) {
				case 0:
					g.Sig = randBytes(r, 64)
				case 1:
					g.Message[r.Intn(len(g.Message))] ^= 4
				case 2:
					g.RoundInfo = "nothing"
				case 3:
					continue
				case 4:
					g = clone(s.sign(pi, k.round, -1, s.newBulk(r, pi, k.round, -1)))
				}
				evs = append(evs, shareEvt{p, s.control(ct.ReqKey, ct.ReqHash, g), fmt.Sprintf("answer by malicious %d about %s", pi, ct.ReqKey), nil})
			} else if hashOf(w.Message) == ct.ReqHash {
				evs = append(evs, shareEvt{p, s.control(ct.ReqKey, ct.ReqHash, w), fmt.Sprintf("answer by %d about %s", pi, ct.ReqKey), nil})
			}
			for _, e := range evs {
				s.answers++
				at := 0
				if len(s.queue) > 0 {
					at = r.Intn(len(s.queue) + 1)
				}
				s.queue = append(s.queue, shareEvt{})
				copy(s.queue[at+1:], s.queue[at:])
				s.queue[at] = e
			}
		}
	}
}

func (s *sharePlan) probe() {
	// an honest participant asks for something: it must get what the node has accepted
	r := s.r
	p := r.Intn(s.n)
	if p == s.me {
		return
	}
	var ks []string
	for n := range s.keys {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return
	}
	k := s.keys[ks[r.Intn(len(ks))]]
	if r.Intn(3) == 0 {
		s.privateProbe(p)
		return
	}
	key := s.ids[k.author].Id + "-" + k.round
	has := false
	for _, e := range s.entries {
		if a := s.applied[fmt.Sprintf("%s|%s|%d", e, k.round, k.author)]; a > 0 && !unicastRounds[k.round] {
			has = true
		}
	}
	h := ""
	for x := range k.passed {
		h = x
	}
	outs := s.step(s.nodes[p].Peer, s.control(key, h, nil), fmt.Sprintf("request by %d for %s", p, key))
	got := 0
	for _, o := range outs {
		if o.msg.MessageType == messages.TSSControlMsg {
			got++
		}
	}
	if has {
		s.c.Count("answered_probes", 1)
		if got != 1 {
			s.viol("C08", "answer:missing", "participant %d asked for %s, which the node has accepted, and got %d answers", p, key, got)
			s.viol("C28", "answer:missing", "participant %d asked for %s, which the node has accepted, and got %d answers", p, key, got)
		}
	}
	if unicastRounds[k.round] && got > 0 && !s.bad[k.author] {
		s.viol("C07", "private:answer", "a request for the private share %s was answered", key)
	}
}

// privateProbe: somebody asks for a private share in one of many ways.
func (s *sharePlan) privateProbe(p int) {
	r := s.r
	var rds []string
	for _, rd := range allRounds[s.keygen] {
		if unicastRounds[rd] {
			rds = append(rds, rd)
		}
	}
	rd := rds[r.Intn(len(rds))]
	author := r.Intn(s.n) // also the node itself
	key := s.ids[author].Id + "-" + rd
	h := hexs(randBytes(r, 32))
	if w := s.msgs[s.slot(author, rd, s.me)]; w != nil && r.Intn(2) == 0 {
		h = hashOf(w.Message)
	}
	from := s.nodes[p].Peer
	switch r.Intn(6) {
	case 0:
		key = s.ids[author].Id + "-" + rd + ":" + s.ids[s.me].String()
	case 1:
		h = ""
	case 2:
		from = randNode(r).Peer
	}
	s.c.Count("private_requests", 1)
	outs := s.step(from, s.control(key, h, nil), fmt.Sprintf("request by %d for the private %s", p, key))
	for _, o := range outs {
		// malicious authors may have published what should be private
		if o.msg.MessageType == messages.TSSControlMsg && !s.bad[author] {
			s.viol("C07", "private:answer", "a request for the private share %s was answered", key)
		}
	}
}

func (s *sharePlan) run() {
	steps := 0
	for len(s.queue) > 0 && steps < 4000 {
		e := s.queue[0]
		s.queue = s.queue[1:]
		var o, o2 int
		var rd string
		noticed := false
		if k, _ := fmt.Sscanf(e.what, "report by %d about %s of %d, its own", &o, &rd, &o2); k == 3 && o == o2 && strings.HasSuffix(e.what, "its own") {
			k := s.key(o, rd)
			noticed = len(k.delivered) > 0 && len(k.marks) == 0 && len(k.firsts(0))+2 >= s.t
		}
		s.handle(s.step(e.from, e.payload, e.what))
		if noticed {
			s.must = append(s.must, o)
		}
		steps++
		if s.r.Float64() < float64(s.probes)/100 {
			s.probe()
		}
	}
	for i := 0; i < s.probes/10; i++ {
		s.probe()
	}
}

// atEnd judges what must have happened once everything was delivered.
func (s *sharePlan) atEnd() {
	if s.dead {
		return
	}
	// the order of the sorted keys is fixed to keep runs reproducible
	var slots []string
	for k := range s.msgs {
		slots = append(slots, k)
	}
	sort.Strings(slots)
	for _, slot := range slots {
		w := s.msgs[slot]
		var o, to int
		parts := strings.Split(slot, "|")
		fmt.Sscan(parts[0], &o)
		fmt.Sscan(parts[2], &to)
		rd := parts[1]
		if to >= 0 && to != s.me {
			continue
		}
		if s.bad[o] {
			s.badAtEnd(o, rd, to)
			continue
		}
		if to < 0 {
			h := hashOf(w.Message)
			k := s.key(o, rd)
			f := k.firsts(0)
			freq := map[string]int{}
			holders := 0
			for p, x := range f {
				freq[x]++
				if x == h && !s.bad[p] {
					holders++
				}
			}
			self := 1
			if len(freq) > 0 && holders == 0 && (len(freq) > 1 || freq[h] == 0) {
				// a lie may have made the node drop what it had, and nobody would give it back
				continue
			}
			if s.lost[slot] && !k.fine[h] {
				self = 0
				if freq[h] < s.t-1 || holders == 0 {
					continue
				}
			}
			strict := true
			for x, v := range freq {
				// a recovered share counts once it is there, before that the others decide
				if x != h && (v >= freq[h]+self || s.lost[slot] && v >= freq[h]) {
					strict = false
				}
			}
			if !strict || freq[h]+1 < s.t-1 || len(f)+1 < s.t {
				continue
			}
			if s.lost[slot] {
				s.c.Count("recoveries_due", 1)
			}
			s.c.Count("broadcasts_due", 1)
		} else {
			s.c.Count("private_shares_due", 1)
		}
		var bulk []common.BulkWireMsg
		json.Unmarshal(w.Message, &bulk)
		for _, b := range bulk {
			id := fmt.Sprintf("%s|%s|%d", b.MsgIdentifier, rd, o)
			if s.applied[id] == 1 && s.appliedBy[id] == string(b.WiredBulkMsgs) {
				continue
			}
			what := fmt.Sprintf("%s share of honest participant %d for entry %.8s was applied %d times (lost=%v, reports %v, n=%d threshold=%d, bad=%v)", rd, o, b.MsgIdentifier, s.applied[id], s.lost[slot], short(s.key(o, rd).firsts(0)), s.n, s.t, s.bad) + "\n" + s.trace(o, rd) + "\n"
			if to >= 0 {
				s.viol("C05", "applied:never", "%s", what)
			} else if s.lost[slot] {
				s.viol("C08", "recovery:never", "%s", what)
				s.viol("C03", "applied:never", "%s", what)
			} else {
				s.viol("C03", "applied:never", "%s", what)
				s.viol("C05", "applied:never", "%s", what)
			}
		}
	}
}

// badAtEnd: also when a participant equivocates, the content that enough others agree on is obtained from them.
func (s *sharePlan) badAtEnd(o int, rd string, to int) {
	if to >= 0 {
		return
	}
	k := s.key(o, rd)
	if k.lenient || s.hostile > 0 {
		return
	}
	for _, rp := range k.reports {
		if rp.peer == o {
			return
		}
	}
	f := k.firsts(0)
	freq := map[string]int{}
	for _, x := range f {
		freq[x]++
	}
	ver := s.version[s.slot(o, rd, -1)]
	for h, v := range freq {
		if v < s.t-1 || len(f) < s.t {
			continue
		}
		strict := true
		for x, y := range freq {
			if x != h && y+1 >= v {
				strict = false
			}
		}
		var w *messages.WireMessage
		for p, x := range f {
			if x == h && !s.bad[p] && hashOf(ver[p].Message) == h {
				w = ver[p]
			}
		}
		if !strict || w == nil {
			continue
		}
		s.c.Count("equivocations_due", 1)
		var bulk []common.BulkWireMsg
		json.Unmarshal(w.Message, &bulk)
		for _, b := range bulk {
			id := fmt.Sprintf("%s|%s|%d", b.MsgIdentifier, rd, o)
			if s.applied[id] > 0 {
				// which one is judged when it is applied
				continue
			}
			what := fmt.Sprintf("%s share of participant %d, who sent different content to others, for entry %.8s was applied %d times (reports %v, own %.6s, n=%d threshold=%d, bad=%v)\n%s\n", rd, o, b.MsgIdentifier, s.applied[id], short(f), hashOf(ver[s.me].Message), s.n, s.t, s.bad, s.trace(o, rd))
			s.viol("C08", "recovery:never", "%s", what)
			s.viol("C03", "applied:never", "%s", what)
		}
	}
}

func shareScenario(c *Ctx, i int, focus string) {
	r := c.Rand("share:"+focus, i)
	kg := r.Intn(2) == 0
	n := 2 + r.Intn(6)
	batch := 1 + r.Intn(3)
	if kg {
		batch = 1
	}
	p := &sharePlan{r: r, bad: map[int]bool{}, version: map[string]map[int]*messages.WireMessage{}}
	p.shareLab = newShareLab(c, r, n, batch, kg, fmt.Sprintf("scenario %d (%s, n=%d, batch=%d, keygen=%v)", i, focus, n, batch, kg))
	p.focus = focus
	p.dishonest = p.bad
	defer p.close()
	bad := r.Intn(3)
	switch focus {
	case "C03":
		p.loss, p.hostile, p.dup, p.probes = 0.15, r.Intn(10), 0.1, 2
		bad = r.Intn(4)
	case "C04":
		p.loss, p.hostile, p.dup, p.probes = 0.1, 10+r.Intn(60), 0.1, 1
	case "C05":
		p.loss, p.hostile, p.dup, p.probes = 0.1, r.Intn(10), 0.6, 2
	case "C08":
		p.loss, p.hostile, p.dup, p.probes = 0.5, r.Intn(20), 0.2, 20
	default:
		p.loss, p.hostile, p.dup, p.probes = 0.2, r.Intn(20), 0.3, 30
	}
	if r.Intn(3) == 0 && focus != "C04" {
		p.hostile = 0
	}
	for _, b := range r.Perm(n)[:minInt(bad, n-1)] {
		if b != p.me {
			p.bad[b] = true
		}
	}
	p.build()
	p.run()
	p.atEnd()
	sum := 0
	for _, v := range p.applied {
		sum += v
	}
	c.Case(fmt.Sprintf("%d|%d|%v|%s", n, batch, kg, hashOf([]byte(strings.Join(p.log, "\n")))), sum > 0)
	c.Sample("history", "%s:\n%s", p.desc, strings.Join(p.log[:minInt(len(p.log), 14)], "\n"))
}

func shareCheck(c *Ctx, id string) {
	c.Rule = "a history counts if the node under test applied at least one share in it; distinct by the full sequence of deliveries, reactions and applications"
	n := c.N(2500, 30000)
	c.Parallel(n, 8, func(i int) {
		if c.Violated() {
			return
		}
		shareScenario(c, i, id)
	})
	if c.Violated() {
		return
	}
	if id == "C04" {
		c.Parallel(c.N(150, 3000), 8, func(i int) {
			if !c.Violated() {
				replayScenario(c, i)
			}
		})
		if c.Violated() {
			return
		}
		c.Require("replays", 500)
		c.Require("own_session_applied", 50)
	}
	c.Require("shares_applied", 1000)
	c.Require("broadcasts_applied", 1000)
	c.Require("hostile_messages", 500)
	switch id {
	case "C03":
		c.Require("broadcasts_due", 1000)
		c.Require("reports_due", 1000)
		c.Require("equivocations_due", 20)
	case "C05":
		c.Require("private_shares_due", 1000)
	case "C08":
		c.Require("recoveries_due", 200)
		c.Require("equivocations_due", 20)
		c.Require("requests_out", 1000)
		c.Require("answers_out", 300)
		c.Require("answered_probes", 300)
	}
}

// replayScenario: messages as the real sending side of a participant makes them for one session are handed to a node
// running another session, whatever the signature looks like inside.
func replayScenario(c *Ctx, i int) {
	r := c.Rand("replay", i)
	kg := r.Intn(2) == 0
	n := 2 + r.Intn(4)
	batch := 1 + r.Intn(3)
	if kg {
		batch = 1
	}
	l := newShareLab(c, r, n, batch, kg, fmt.Sprintf("replay %d (n=%d batch=%d keygen=%v)", i, n, batch, kg))
	defer l.close()
	o := (l.me + 1 + r.Intn(n-1)) % n
	sessions := []string{sessionID(fmt.Sprint(r.Int63())), l.session[:len(l.session)-1], l.session + "0", "", strings.ToUpper(l.session), l.session}
	emit := func(session string, round string, to int) *messages.WireMessage {
		e := newEmitter(r, l.nodes, o, kg, session, l.entries)
		for _, x := range l.entries {
			m, b := e.share(r, round, x, to)
			l.shares[string(b)] = &shareInfo{o, round, x, to}
			if err := e.process(m); err != nil {
				return nil
			}
		}
		select {
		case m := <-e.out:
			var w messages.WireMessage
			if json.Unmarshal(m.WrappedMessage.Payload, &w) != nil {
				return nil
			}
			return &w
		default:
			return nil
		}
	}
	for _, s := range sessions {
		rd := allRounds[kg][r.Intn(len(allRounds[kg]))]
		to := -1
		if unicastRounds[rd] {
			to = l.me
		}
		w := emit(s, rd, to)
		if w == nil {
			c.Count("replays_not_made", 1)
			continue
		}
		deliver := func(what string) int {
			l.mu.Lock()
			before := len(l.apps)
			l.mu.Unlock()
			l.step(l.nodes[o].Peer, l.share(w), fmt.Sprintf("%s of %d %s %q", rd, o, what, s))
			for p := 0; p < n; p++ {
				if p != o && p != l.me && to < 0 {
					l.step(l.nodes[p].Peer, l.report(o, rd, hashOf(w.Message)), fmt.Sprintf("report by %d about %s of %d", p, rd, o))
				}
			}
			l.mu.Lock()
			defer l.mu.Unlock()
			return len(l.apps) - before
		}
		if s == l.session {
			if deliver("of this session") > 0 {
				c.Count("own_session_applied", 1)
			}
			continue
		}
		c.Count("replays", 1)
		if k := deliver("of session"); k > 0 {
			l.viol("C04", "applied:other-session", "%d %s shares that participant %d signed for session %q were applied in session %q", k, rd, o, s, l.session)
			return
		}
	}
	c.Case(fmt.Sprint("replay", i, n, batch, kg), true)
}
