package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

func init() {
	register("C06", checkC06)
	register("C07", checkC07)
}

// emitter is the sending side of one real TssCommon, fed with shares as the local protocol parties produce them.
type emitter struct {
	nodes   []*Node
	me      int
	kg      bool
	session string
	entries []string
	ids     []*btss.PartyID // by node
	tc      *common.TssCommon
	out     chan *messages.BroadcastMsgChan
}

func newEmitter(r *rand.Rand, nodes []*Node, me int, kg bool, session string, entries []string) *emitter {
	e := &emitter{nodes: nodes, me: me, kg: kg, session: session, entries: entries, out: make(chan *messages.BroadcastMsgChan, 1<<14)}
	ids, local, err := conversion.GetParties(shuffled(r, bechs(nodes)), nodes[me].Bech)
	if err != nil {
		panic(err)
	}
	e.ids = make([]*btss.PartyID, len(nodes))
	for _, id := range ids {
		for i, nd := range nodes {
			if string(nd.Pub) == string(id.GetKey()) {
				e.ids[i] = id
			}
		}
	}
	pm := &sync.Map{}
	for _, x := range entries {
		pm.Store(x, &fakeParty{id: local, entry: x})
	}
	idMap := conversion.SetupPartyIDMap(ids)
	e.tc = common.NewTssCommon(nodes[me].Peer.String(), e.out, common.TssConfig{}, session, nodes[me].Priv, len(entries))
	if err := conversion.SetupIDMaps(idMap, e.tc.PartyIDtoP2PID); err != nil {
		panic(err)
	}
	if err := conversion.SetupIDMaps(idMap, e.tc.GetBlameMgr().PartyIDtoP2PID); err != nil {
		panic(err)
	}
	e.tc.SetPartyInfo(&common.PartyInfo{PartyMap: pm, PartyIDMap: idMap})
	e.tc.GetBlameMgr().SetPartyInfo(pm, idMap)
	e.tc.P2PPeersLock.Lock()
	e.tc.P2PPeers = conversion.GetPeersID(e.tc.PartyIDtoP2PID, e.tc.GetLocalPeerID())
	e.tc.P2PPeersLock.Unlock()
	return e
}

// share makes one share as the protocol library does: the sender's moniker is the batch identifier.
func (e *emitter) share(r *rand.Rand, round, entry string, to int) (btss.Message, []byte) {
	m := newContent(round)
	fillContent(r, m)
	fitContent(r, m, len(e.nodes))
	from := btss.NewPartyID(e.ids[e.me].Id, entry, e.ids[e.me].KeyInt())
	from.Index = e.ids[e.me].Index
	rt := btss.MessageRouting{From: from, IsBroadcast: to < 0}
	if to >= 0 {
		t := btss.NewPartyID(e.ids[to].Id, e.ids[to].Moniker, e.ids[to].KeyInt())
		t.Index = e.ids[to].Index
		rt.To = []*btss.PartyID{t}
	}
	msg := btss.NewMessage(rt, m, btss.NewMessageWrapper(rt, m))
	b, _, err := msg.WireBytes()
	if err != nil {
		panic(err)
	}
	return msg, b
}

func (e *emitter) process(msg btss.Message) error {
	mt, _ := msgTypes(e.kg)
	return e.tc.ProcessOutCh(msg, mt)
}

type outGroup struct {
	round string
	to    int
	want  map[string]string // entry -> share
	sent  int
}

func emitScenario(c *Ctx, i int) {
	r := c.Rand("emit", i)
	kg := r.Intn(3) == 0
	n := 2 + r.Intn(6)
	if r.Intn(4) == 0 {
		n = 10 + r.Intn(6)
	}
	batch := 1 + r.Intn(5)
	if r.Intn(10) == 0 {
		batch = 12 + r.Intn(10)
	}
	entries := []string{""}
	if kg {
		batch = 1
	} else {
		entries = nil
		for k := 0; k < batch; k++ {
			entries = append(entries, fmt.Sprintf("%d:%d", r.Int63(), k))
		}
		if batch > 1 && r.Intn(3) == 0 { // the same message twice
			entries[1] = entries[0][:len(entries[0])-2] + ":1"
		}
	}
	nodes := randNodes(r, n)
	me := r.Intn(n)
	session := sessionID(fmt.Sprint("emit", r.Int63()))
	e := newEmitter(r, nodes, me, kg, session, entries)
	desc := fmt.Sprintf("emission %d (n=%d batch=%d keygen=%v node %d)", i, n, batch, kg, me)

	vio := func(key, format string, a ...interface{}) {
		if c.ID != "C07" {
			c.Violate(key, format, a...)
		}
	}

	// per entry the shares come in the order of the rounds; entries progress independently
	type item struct {
		msg   btss.Message
		g     *outGroup
		entry string
	}
	groups := map[string]*outGroup{}
	var lanes [][]item
	for _, x := range entries {
		var lane []item
		for _, rd := range allRounds[kg] {
			tos := []int{-1}
			if unicastRounds[rd] {
				tos = nil
				for _, to := range r.Perm(n) {
					if to != me {
						tos = append(tos, to)
					}
				}
			}
			for _, to := range tos {
				k := fmt.Sprintf("%s|%d", rd, to)
				if groups[k] == nil {
					groups[k] = &outGroup{round: rd, to: to, want: map[string]string{}}
				}
				msg, b := e.share(r, rd, x, to)
				groups[k].want[x] = string(b)
				lane = append(lane, item{msg, groups[k], x})
			}
		}
		// shares of neighbouring rounds overtake each other
		for s := 0; s < r.Intn(6); s++ {
			j := r.Intn(len(lane))
			if j > 0 {
				lane[j], lane[j-1] = lane[j-1], lane[j]
			}
		}
		lanes = append(lanes, lane)
	}
	got := map[*outGroup]map[string]bool{}
	mode := r.Intn(3)
	shareType, _ := msgTypes(kg)
	trace := ""
	for {
		var live []int
		for k := range lanes {
			if len(lanes[k]) > 0 {
				live = append(live, k)
			}
		}
		if len(live) == 0 {
			break
		}
		l := live[r.Intn(len(live))]
		if mode == 0 {
			l = live[0]
		}
		it := lanes[l][0]
		lanes[l] = lanes[l][1:]
		if err := e.process(it.msg); err != nil {
			vio("outgoing:error", "%s: handing over a %s share failed: %v", desc, it.g.round, err)
			return
		}
		if got[it.g] == nil {
			got[it.g] = map[string]bool{}
		}
		got[it.g][it.entry] = true
		trace += fmt.Sprint(l, it.g.round, it.g.to, ";")
		full := len(got[it.g]) == len(entries)
		var outs []*messages.BroadcastMsgChan
		wait := time.Millisecond
		if full {
			wait = 5 * time.Second
		}
		for {
			select {
			case m := <-e.out:
				outs = append(outs, m)
			default:
				if full && len(outs) == 0 && wait > 0 {
					time.Sleep(time.Millisecond)
					wait -= time.Millisecond
					continue
				}
				goto drained
			}
		}
	drained:
		if !full && len(outs) > 0 {
			vio("outgoing:early", "%s: %d messages left the node while only %d of %d entries of %s for %d were there", desc, len(outs), len(got[it.g]), len(entries), it.g.round, it.g.to)
			return
		}
		if full && len(outs) == 0 {
			vio("outgoing:missing", "%s: all %d entries of %s for %d are there, but nothing left the node", desc, len(entries), it.g.round, it.g.to)
			return
		}
		for _, m := range outs {
			c.Count("messages_judged", 1)
			if c.ID == "C07" {
				e.judgePrivate(c, desc, m, it.g, groups)
			} else if bad := e.judge(m, it.g, shareType); bad != "" {
				vio("outgoing:content", "%s: message for round %s receiver %d: %s", desc, it.g.round, it.g.to, bad)
				return
			}
			it.g.sent++
		}
	}
	time.Sleep(0)
	for k, g := range groups {
		if g.sent != 1 {
			vio("outgoing:once", "%s: shares of %s left the node in %d messages", desc, k, g.sent)
			return
		}
	}
	select {
	case <-e.out:
		vio("outgoing:once", "%s: a message left the node after everything was sent", desc)
	default:
	}
	if n > 10 {
		c.Count("groups_over_10", 1)
	}
	c.Count("emissions", len(groups))
	c.Case(fmt.Sprintf("%d|%d|%v|%s", n, batch, kg, hashOf([]byte(trace))), len(entries) > 1 || n > 2)
	c.Sample(fmt.Sprint("batch", batch > 1), "%s: %d messages", desc, len(groups))
}

func (e *emitter) judge(m *messages.BroadcastMsgChan, g *outGroup, mt messages.THORChainTSSMessageType) string {
	w := m.WrappedMessage
	if w.MsgID != e.session {
		return fmt.Sprintf("session id %q", w.MsgID)
	}
	if w.MessageType != mt {
		return fmt.Sprintf("message type %v", w.MessageType)
	}
	var wire messages.WireMessage
	if err := json.Unmarshal(w.Payload, &wire); err != nil {
		return "cannot be decoded: " + err.Error()
	}
	if !plainWire(&wire) || wire.Routing.From.Id != e.ids[e.me].Id || wire.Routing.IsBroadcast != (g.to < 0) {
		return fmt.Sprintf("routing %+v", wire.Routing)
	}
	if wire.RoundInfo != g.round {
		return "labelled " + wire.RoundInfo
	}
	if !secp256k1.PubKey(e.nodes[e.me].Pub).VerifySignature(append(append([]byte{}, wire.Message...), []byte(e.session)...), wire.Sig) {
		return "signature does not verify for this session"
	}
	var bulk []common.BulkWireMsg
	if err := json.Unmarshal(wire.Message, &bulk); err != nil {
		return "shares cannot be decoded: " + err.Error()
	}
	if len(bulk) != len(g.want) {
		return fmt.Sprintf("carries %d shares for %d entries", len(bulk), len(g.want))
	}
	seen := map[string]bool{}
	for _, b := range bulk {
		if seen[b.MsgIdentifier] {
			return "carries an entry twice"
		}
		seen[b.MsgIdentifier] = true
		if g.want[b.MsgIdentifier] != string(b.WiredBulkMsgs) {
			return fmt.Sprintf("share for entry %q is not the one produced for it", b.MsgIdentifier)
		}
		if b.Routing == nil || b.Routing.From == nil || b.Routing.From.Id != e.ids[e.me].Id || b.Routing.IsBroadcast != (g.to < 0) {
			return fmt.Sprintf("share with routing %+v", b.Routing)
		}
		if g.to >= 0 && (len(b.Routing.To) != 1 || b.Routing.To[0].Id != e.ids[g.to].Id) {
			return fmt.Sprintf("share with receivers %+v", b.Routing.To)
		}
	}
	var want []string
	for k, nd := range e.nodes {
		if (g.to < 0 && k != e.me) || k == g.to {
			want = append(want, nd.Peer.String())
		}
	}
	var have []string
	for _, p := range m.PeersID {
		have = append(have, p.String())
	}
	sort.Strings(want)
	sort.Strings(have)
	if fmt.Sprint(want) != fmt.Sprint(have) {
		return fmt.Sprintf("addressed to %v instead of %v", have, want)
	}
	return ""
}

// judgePrivate looks for private shares in a message, wherever it came from.
func (e *emitter) judgePrivate(c *Ctx, desc string, m *messages.BroadcastMsgChan, g *outGroup, groups map[string]*outGroup) {
	var wire messages.WireMessage
	if json.Unmarshal(m.WrappedMessage.Payload, &wire) != nil {
		return
	}
	for _, x := range groups {
		if x.to < 0 {
			continue
		}
		for _, b := range x.want {
			if !containsShare(m.WrappedMessage.Payload, []byte(b)) && !containsShare(wire.Message, []byte(b)) {
				continue
			}
			for _, p := range m.PeersID {
				if p != e.nodes[x.to].Peer {
					c.Violate("private:receiver", "%s: a private %s share for participant %d leaves in a message to %v (routing %+v)", desc, x.round, x.to, m.PeersID, wire.Routing)
					return
				}
			}
			c.Count("private_shares_seen", 1)
		}
	}
}

func containsShare(data, share []byte) bool {
	return bytes.Contains(data, []byte(base64.StdEncoding.EncodeToString(share))) || bytes.Contains(data, share)
}

// ceremonies under hostile delivery, for the monitors of what leaves the nodes
func traceCeremonies(c *Ctx, label string, n int, judge func(cr *Cer, desc string, ok bool)) {
	c.Parallel(n, 4, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand(label, i)
		var cr *Cer
		var ok bool
		var desc string
		loss := r.Intn(2) == 0
		mk := func(nodes []*Node) {
			cr = &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint(label, c.Seed, i)), Timeout: 40 * time.Second}
			if r.Intn(4) > 0 {
				base := cr.chaos(r.Int63(), time.Duration(r.Intn(120))*time.Millisecond, 0.2, c)
				cr.Filter = base
				// every node misses the broadcast of one participant in one pure broadcast round and has to recover it
				if loss && len(nodes) >= 4 {
					victim, author := r.Intn(len(nodes)), r.Intn(len(nodes))
					cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
						if e.isShare() && e.From == author && to == victim && e.Wire.Routing != nil && e.Wire.Routing.IsBroadcast {
							c.Count("direct_deliveries_lost", 1)
							return nil
						}
						return base(e, to, p)
					}
				}
			}
		}
		if i%4 == 0 {
			nodes := randNodes(r, 2+r.Intn(3))
			mk(nodes)
			desc = fmt.Sprintf("keygen %d of %d nodes", i, len(nodes))
			ok = cr.RunKeygen(c, func(int) []string { return bechs(nodes) })
		} else {
			pn := 2 + r.Intn(4)
			t := thresholdOf(pn)
			pool := dealKey(r, randNodes(r, pn), t)
			k := t + 1 + r.Intn(pn-t)
			perm := r.Perm(pn)[:k]
			sort.Ints(perm)
			var signers []*Node
			for _, p := range perm {
				signers = append(signers, pool.Nodes[p])
			}
			var msgs [][]byte
			for len(msgs) < 1+r.Intn(3) {
				msgs = append(msgs, randMessage(r, msgs))
			}
			mk(signers)
			desc = fmt.Sprintf("signing %d by %d of %d nodes, %d messages", i, k, pn, len(msgs))
			ok = cr.RunKeysign(c, pool, sortedForSigning(msgs), func(int) []string { return bechs(signers) })
		}
		if !ok {
			c.Violate("hang", "%s did not return", desc)
			return
		}
		fine := true
		for _, x := range cr.Res {
			if x.Err != nil {
				fine = false
			}
		}
		if fine {
			c.Count("ceremonies_finished", 1)
		}
		judge(cr, desc, fine)
		c.Case(desc+cr.traceSig(), fine)
	})
}

func checkC06(c *Ctx) {
	c.Rule = "interleavings of the shares of up to 21 batch entries, 15 participants and all rounds through the real sending side, plus real ceremonies with duplication, delay and lost broadcasts, every message handed to the network judged; non-trivial = more than one entry or receiver, or a finished ceremony; distinct by interleaving"
	c.Parallel(c.N(600, 8000), 8, func(i int) {
		if !c.Violated() {
			emitScenario(c, i)
		}
	})
	if c.Violated() {
		return
	}
	traceCeremonies(c, "c06", c.N(16, 150), func(cr *Cer, desc string, ok bool) {
		cr.checkOutgoing(c, desc, ok, everyone)
	})
	if c.Violated() {
		return
	}
	// confirmations, requests and answers also carry the right session and receivers
	c.Parallel(c.N(300, 5000), 8, func(i int) {
		if !c.Violated() {
			shareScenario(c, i, "C06")
		}
	})
	if c.Violated() {
		return
	}
	c.Require("messages_judged", 5000)
	c.Require("groups_over_10", 20)
	c.Require("share_messages_out", 200)
	c.Require("ceremonies_finished", 5)
}

func checkC07(c *Ctx) {
	c.Rule = "histories of one node with participants and outsiders asking for shares in every form, and real ceremonies with lost broadcasts; every message handed to the network is searched for private shares; non-trivial = private shares were received or sent; distinct by full history"
	c.Parallel(c.N(2000, 25000), 8, func(i int) {
		if !c.Violated() {
			shareScenario(c, i, "C07")
		}
	})
	if c.Violated() {
		return
	}
	c.Parallel(c.N(200, 2000), 8, func(i int) {
		if !c.Violated() {
			emitScenario(c, 1000000+i)
		}
	})
	if c.Violated() {
		return
	}
	traceCeremonies(c, "c07", c.N(16, 150), func(cr *Cer, desc string, ok bool) {
		cr.checkOutgoing(c, desc, ok, everyone)
	})
	if c.Violated() {
		return
	}
	c.Require("private_shares_due", 500)
	c.Require("answers_out", 300)
	c.Require("private_requests", 300)
	c.Require("private_shares_seen", 500)
	c.Require("share_messages_out", 200)
	c.Require("ceremonies_finished", 5)
}
