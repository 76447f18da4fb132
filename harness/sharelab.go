package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	bsigning "github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

// The share lab drives one real TssCommon, fed through its inbound channel by its real processing loop, with the local
// protocol parties replaced by recorders. Every message its peers could send is made by the lab, so an application of
// a share can be judged against everything the node has been given so far.

// application is one share handed to a local protocol party.
type application struct {
	entry     string
	from      string
	fromKey   []byte
	wire      string
	broadcast bool
}

type fakeParty struct {
	btss.Party
	id    *btss.PartyID
	entry string
	lab   *shareLab
}

func (f *fakeParty) PartyID() *btss.PartyID { return f.id }
func (f *fakeParty) String() string         { return "recorder" }
func (f *fakeParty) UpdateFromBytes(b []byte, from *btss.PartyID, bc bool) (bool, *btss.Error) {
	f.lab.mu.Lock()
	defer f.lab.mu.Unlock()
	f.lab.apps = append(f.lab.apps, application{f.entry, from.Id, from.GetKey(), string(b), bc})
	return true, nil
}

// shareInfo describes one share the lab has made.
type shareInfo struct {
	author int
	round  string
	entry  string
	to     int // -1 for a broadcast share
}

type report struct {
	peer int
	hash string
}

// labKey is the history of one participant's broadcast of one round.
type labKey struct {
	author    int
	round     string
	reports   []report
	marks     []int           // len(reports) at which something of this key was applied
	delivered map[string]bool // contents in any message signed by the author
	fine      map[string]bool // contents in a message an honest author or holder would send
	lenient   bool
	passed    map[string]bool // hashes for which the confirmation rule held at some point
}

type shareLab struct {
	c       *Ctx
	n, me   int
	t       int
	keygen  bool
	entries []string
	nodes   []*Node
	session string
	ids     []*btss.PartyID
	tc      *common.TssCommon
	out     chan *messages.BroadcastMsgChan
	finish  chan struct{}
	wg      sync.WaitGroup
	desc    string
	focus   string

	mu   sync.Mutex
	apps []application

	shares    map[string]*shareInfo // share bytes -> what it is
	wires     map[string][]*messages.WireMessage
	auth      map[string]bool // shares inside a delivered message signed by the author: bytes|entry|author
	keys      map[string]*labKey
	applied   map[string]int // entry|round|author -> times
	appliedBy map[string]string
	requests  map[string]int // outstanding request hashes
	received  map[string]bool
	reported  map[string]bool
	dishonest map[int]bool
	done      map[int]bool
	doneSeen  bool
	log       []string
	dead      bool
}

// trace returns the steps that mention a round of an author.
func (l *shareLab) trace(author int, round string) string {
	var out []string
	for _, x := range l.log {
		if strings.Contains(x, fmt.Sprintf("%s of %d", round, author)) || strings.Contains(x, fmt.Sprintf("%d-%s", author, round)) || strings.Contains(x, fmt.Sprintf("%d|%s", author, round)) || (strings.Contains(x, "HOSTILE") && strings.Contains(x, "own "+round) || strings.Contains(x, "("+round+")")) {
			out = append(out, x)
		}
	}
	return strings.Join(out, "\n")
}

func (l *shareLab) viol(prop, key, format string, a ...interface{}) {
	if l.c.ID != prop {
		return
	}
	tail := l.log
	if len(tail) > 40 {
		tail = tail[len(tail)-40:]
	}
	l.c.Violate(key, "%s: %s\nlast steps:\n%s", l.desc, fmt.Sprintf(format, a...), strings.Join(tail, "\n"))
}

func msgTypes(keygen bool) (share, ver messages.THORChainTSSMessageType) {
	if keygen {
		return messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg
	}
	return messages.TSSKeySignMsg, messages.TSSKeySignVerMsg
}

func newShareLab(c *Ctx, r *rand.Rand, n, batch int, kg bool, desc string) *shareLab {
	l := &shareLab{c: c, n: n, me: r.Intn(n), t: thresholdOf(n), keygen: kg, desc: desc,
		nodes: randNodes(r, n), session: sessionID(fmt.Sprint(r.Int63())),
		shares: map[string]*shareInfo{}, auth: map[string]bool{}, keys: map[string]*labKey{},
		applied: map[string]int{}, appliedBy: map[string]string{}, requests: map[string]int{}, received: map[string]bool{}, reported: map[string]bool{}, done: map[int]bool{},
		wires: map[string][]*messages.WireMessage{},
		out:   make(chan *messages.BroadcastMsgChan, 4096), finish: make(chan struct{})}
	if kg {
		l.entries = []string{""}
	} else {
		for i := 0; i < batch; i++ {
			l.entries = append(l.entries, hexs(randBytes(r, 32)))
		}
	}
	keys := bechs(l.nodes)
	ids, local, err := conversion.GetParties(shuffled(r, keys), l.nodes[l.me].Bech)
	if err != nil {
		panic(err)
	}
	l.ids = make([]*btss.PartyID, n)
	for _, id := range ids {
		l.ids[l.indexOfKey(id.GetKey())] = id
	}
	pm := &sync.Map{}
	for _, e := range l.entries {
		pm.Store(e, &fakeParty{id: local, entry: e, lab: l})
	}
	idMap := conversion.SetupPartyIDMap(ids)
	l.tc = common.NewTssCommon(l.nodes[l.me].Peer.String(), l.out, common.TssConfig{}, l.session, l.nodes[l.me].Priv, len(l.entries))
	if err := conversion.SetupIDMaps(idMap, l.tc.PartyIDtoP2PID); err != nil {
		panic(err)
	}
	if err := conversion.SetupIDMaps(idMap, l.tc.GetBlameMgr().PartyIDtoP2PID); err != nil {
		panic(err)
	}
	l.tc.SetPartyInfo(&common.PartyInfo{PartyMap: pm, PartyIDMap: idMap})
	l.tc.GetBlameMgr().SetPartyInfo(pm, idMap)
	l.tc.P2PPeersLock.Lock()
	l.tc.P2PPeers = conversion.GetPeersID(l.tc.PartyIDtoP2PID, l.tc.GetLocalPeerID())
	l.tc.P2PPeersLock.Unlock()
	l.wg.Add(1)
	go l.tc.ProcessInboundMessages(l.finish, &l.wg)
	if watched23 {
		l.wg.Add(1)
		go l.watch()
	}
	return l
}

// watched23 makes every node of the share lab be looked at from outside while it works.
var watched23 bool

func (l *shareLab) watch() {
	defer l.wg.Done()
	for {
		select {
		case <-l.finish:
			return
		case <-time.After(200 * time.Microsecond):
		}
		for _, it := range l.tc.TryGetAllLocalCached() {
			it.TotalConfirmParty()
			it.GetPeers()
		}
		l.tc.TryGetLocalCacheItem("x")
		l.tc.P2PPeersLock.Lock()
		l.tc.P2PPeers = append([]peer.ID(nil), l.tc.P2PPeers...)
		l.tc.P2PPeersLock.Unlock()
		m := l.tc.GetBlameMgr()
		m.GetLastMsg()
		m.GetBlame().AlreadyBlame()
		m.GetRoundMgr().GetByRound(allRounds[true][0])
		m.CheckMsgDuplication(blame.RoundInfo{}, "x")
	}
}

func (l *shareLab) indexOfKey(k []byte) int {
	for i, nd := range l.nodes {
		if bytes.Equal(nd.Pub, k) {
			return i
		}
	}
	panic("unknown key")
}

func (l *shareLab) close() {
	close(l.finish)
	if !l.dead {
		l.wg.Wait()
	}
}

// party id of participant i as a fresh object, as it would be after decoding
func (l *shareLab) pid(i int) *btss.PartyID {
	p := btss.NewPartyID(l.ids[i].Id, "", l.ids[i].KeyInt())
	p.Index = l.ids[i].Index
	return p
}

func fillContent(r *rand.Rand, m btss.MessageContent) {
	switch x := m.(type) {
	case *bsigning.SignRound6Message:
		x.Content = &bsigning.SignRound6Message_Success{Success: &bsigning.SignRound6Message_SuccessData{}}
	case *bsigning.SignRound7Message:
		x.Content = &bsigning.SignRound7Message_SI{}
	}
	var fill func(v reflect.Value) bool
	fill = func(v reflect.Value) bool {
		switch v.Kind() {
		case reflect.Interface:
			return !v.IsNil() && fill(v.Elem())
		case reflect.Ptr:
			if v.IsNil() {
				if !v.CanSet() {
					return false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			return fill(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" && !strings.HasPrefix(v.Type().Field(i).Name, "XXX_") && fill(v.Field(i)) {
					return true
				}
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				v.SetBytes(randBytes(r, 24))
				return true
			}
			if v.Type().Elem().Kind() == reflect.Slice {
				v.Set(reflect.ValueOf([][]byte{randBytes(r, 24)}))
				return true
			}
		}
		return false
	}
	if !fill(reflect.ValueOf(m)) {
		panic("cannot fill share")
	}
}

// fitContent gives the opened polynomial of a key generation among n nodes its degree.
func fitContent(r *rand.Rand, m btss.MessageContent, n int) {
	if x, is := m.(*bkeygen.KGRound2Message2); is {
		for k := 0; k < 2*(thresholdOf(n)+1); k++ {
			x.DeCommitment = append(x.DeCommitment, randBytes(r, 24))
		}
	}
}

// newShare makes one share of a round.
func (l *shareLab) newShare(r *rand.Rand, author int, round, entry string, to int) []byte {
	m := newContent(round)
	fillContent(r, m)
	fitContent(r, m, len(l.nodes))
	rt := btss.MessageRouting{From: l.pid(author), IsBroadcast: to < 0}
	if to >= 0 {
		rt.To = []*btss.PartyID{l.pid(to)}
	}
	b := wireOf(rt, m)
	l.shares[string(b)] = &shareInfo{author, round, entry, to}
	return b
}

func (l *shareLab) routing(author, to int) *btss.MessageRouting {
	rt := &btss.MessageRouting{From: l.pid(author), IsBroadcast: to < 0}
	if to >= 0 {
		rt.To = []*btss.PartyID{l.pid(to)}
	}
	return rt
}

// newBulk makes the message a participant sends for a round (to: receiver of a private round, -1 for broadcast).
func (l *shareLab) newBulk(r *rand.Rand, author int, round string, to int) []common.BulkWireMsg {
	var out []common.BulkWireMsg
	for _, k := range r.Perm(len(l.entries)) {
		e := l.entries[k]
		out = append(out, common.NewBulkWireMsg(l.newShare(r, author, round, e, to), e, l.routing(author, to)))
	}
	return out
}

func hashOf(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

func (l *shareLab) key(author int, round string) *labKey {
	k := fmt.Sprintf("%d-%s", author, round)
	if l.keys[k] == nil {
		l.keys[k] = &labKey{author: author, round: round, delivered: map[string]bool{}, fine: map[string]bool{}, passed: map[string]bool{}}
	}
	return l.keys[k]
}

// firsts returns what each participant reported first since report number `since`.
func (k *labKey) firsts(since int) map[int]string {
	m := map[int]string{}
	for _, rp := range k.reports[since:] {
		if rp.peer == k.author {
			continue
		}
		if _, ok := m[rp.peer]; !ok {
			m[rp.peer] = rp.hash
		}
	}
	return m
}

// confirmed says whether the confirmation rule of C03 holds for the given content.
func (l *shareLab) confirmed(k *labKey, h string) bool {
	for _, since := range append([]int{0}, k.marks...) {
		f := k.firsts(since)
		self := 0
		if k.delivered[h] {
			self = 1
		}
		freq := map[string]int{}
		for _, x := range f {
			freq[x]++
		}
		ok := len(f)+self >= l.t && freq[h]+self >= l.t-1 && self == 1
		for x, v := range freq {
			if x != h && v > freq[h]+self {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// output is one message the node handed to the network.
type output struct {
	to  []peer.ID
	msg messages.WrappedMessage
	tos string
}

func (l *shareLab) peerIndex(p peer.ID) int {
	for i, nd := range l.nodes {
		if nd.Peer == p {
			return i
		}
	}
	return -1
}

func (l *shareLab) note(format string, a ...interface{}) {
	l.log = append(l.log, fmt.Sprintf(format, a...))
}

// noteWire records a share message that reaches the node, whoever delivers it.
func (l *shareLab) noteWire(w *messages.WireMessage) {
	if w == nil || w.Routing == nil || w.Routing.From == nil {
		return
	}
	var bulk []common.BulkWireMsg
	if json.Unmarshal(w.Message, &bulk) != nil {
		return
	}
	for i, nd := range l.nodes {
		if !secp256k1.PubKey(nd.Pub).VerifySignature(append(append([]byte{}, w.Message...), []byte(l.session)...), w.Sig) {
			continue
		}
		h := hashOf(w.Message)
		if !plainWire(w) {
			continue
		}
		l.wires[h] = append(l.wires[h], w)
		if len(bulk) == 0 {
			for _, rd := range allRounds[l.keygen] {
				l.key(i, rd).lenient = true
			}
		}
		for _, b := range bulk {
			if b.Routing == nil || b.Routing.From == nil || b.Routing.From.MessageWrapper_PartyID == nil || b.Routing.From.Id != l.ids[i].Id {
				continue
			}
			si := l.shares[string(b.WiredBulkMsgs)]
			if si == nil {
				l.key(i, w.RoundInfo).lenient = true
				continue
			}
			l.auth[fmt.Sprintf("%s|%s|%d", b.WiredBulkMsgs, b.MsgIdentifier, i)] = true
			if b.Routing.IsBroadcast {
				l.key(i, si.round).delivered[h] = true
				if l.plausible(w) {
					l.key(i, si.round).fine[h] = true
				}
			}
			if si.to == l.me && !b.Routing.IsBroadcast {
				l.received[string(b.WiredBulkMsgs)] = true
			}
		}
	}
}

// step delivers one message from a peer, waits until the node has processed it, and judges what it did.
func (l *shareLab) step(from peer.ID, payload []byte, what string) []output {
	if l.dead {
		return nil
	}
	fi := l.peerIndex(from)
	l.note("from %d: %s", fi, what)
	l.c.Count("messages_in", 1)
	// history first
	var direct *messages.WireMessage
	var requester = -1
	var reqKey string
	var wm messages.WrappedMessage
	var answered string
	if json.Unmarshal(payload, &wm) == nil {
		switch wm.MessageType {
		case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
			var w messages.WireMessage
			if json.Unmarshal(wm.Payload, &w) == nil && fi >= 0 {
				l.noteWire(&w)
				if plainWire(&w) && w.Routing.IsBroadcast && l.genuine(&w) {
					direct = &w
				}
			}
		case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
			var v messages.BroadcastConfirmMessage
			if json.Unmarshal(wm.Payload, &v) == nil && fi >= 0 {
				for _, rd := range allRounds[l.keygen] {
					for i := range l.nodes {
						if v.Key == l.ids[i].Id+"-"+rd {
							k := l.key(i, rd)
							k.reports = append(k.reports, report{fi, v.Hash})
						}
					}
				}
			}
		case messages.TSSControlMsg:
			var ct messages.TssControl
			if json.Unmarshal(wm.Payload, &ct) == nil && fi >= 0 {
				if ct.Msg != nil {
					h := hashOf(ct.Msg.Message)
					if l.requests[h] > 0 && h == ct.ReqHash {
						l.noteWire(ct.Msg)
						answered = h
						if l.genuine(ct.Msg) {
							delete(l.requests, h)
						}
					} else {
						answered = "unsolicited"
					}
				} else {
					requester, reqKey = fi, ct.ReqKey
				}
			}
		case messages.TSSTaskDone:
			var d messages.TssTaskNotifier
			if json.Unmarshal(wm.Payload, &d) == nil && d.TaskDone && fi >= 0 {
				l.done[fi] = true
			}
		}
	}
	l.mu.Lock()
	before := len(l.apps)
	l.mu.Unlock()
	if !l.push(&p2p.Message{PeerID: from, Payload: payload}) || !l.push(&p2p.Message{PeerID: from, Payload: []byte("{")}) {
		l.dead = true
		l.c.Violate("stall", "%s: the node stopped processing messages after %s from %d\n%s", l.desc, what, fi, allStacks())
		return nil
	}
	l.mu.Lock()
	fresh := append([]application{}, l.apps[before:]...)
	l.mu.Unlock()
	l.judgeApplications(fresh, answered)
	// outputs
	var outs []output
	for {
		select {
		case m := <-l.out:
			outs = append(outs, l.judgeOutput(m, fi, requester, reqKey))
			continue
		default:
		}
		break
	}
	if answered == "unsolicited" && (len(fresh) > 0 || len(outs) > 0) {
		l.viol("C08", "answer:unsolicited", "an answer nobody asked for had an effect: %d shares applied, %d messages sent", len(fresh), len(outs))
	}
	if direct != nil {
		l.checkReported(direct, outs)
	}
	for k, lk := range l.keys {
		_ = k
		for h := range lk.delivered {
			if !lk.passed[h] && l.confirmed(lk, h) {
				lk.passed[h] = true
			}
		}
	}
	l.checkDoneSignal()
	return outs
}

// checkReported: the first time a broadcast arrives, the node tells the others what it got.
func (l *shareLab) checkReported(w *messages.WireMessage, outs []output) {
	h := hashOf(w.Message)
	k := l.keyOf(w.GetCacheKey())
	st, vt := msgTypes(l.keygen)
	_ = st
	if k == nil || l.dishonest[k.author] || l.reported[w.GetCacheKey()+h] || len(allBut(l.n, l.me, k.author)) == 0 {
		return
	}
	if !secp256k1.PubKey(l.nodes[k.author].Pub).VerifySignature(append(append([]byte{}, w.Message...), []byte(l.session)...), w.Sig) {
		return
	}
	l.reported[w.GetCacheKey()+h] = true
	got := 0
	for _, o := range outs {
		var v messages.BroadcastConfirmMessage
		if o.msg.MessageType == vt && json.Unmarshal(o.msg.Payload, &v) == nil && v.Key == w.GetCacheKey() && v.Hash == h {
			got++
		}
	}
	l.c.Count("reports_due", 1)
	if got != 1 {
		l.viol("C03", "report:missing", "the node received the %s share of %d for the first time and reported it %d times", k.round, k.author, got)
	}
}

// genuine: the message is what an honest holder of this share would answer with.
func (l *shareLab) genuine(w *messages.WireMessage) bool {
	for _, g := range l.wires[hashOf(w.Message)] {
		a, _ := json.Marshal(g)
		b, _ := json.Marshal(w)
		if bytes.Equal(a, b) && l.plausible(g) {
			return true
		}
	}
	return false
}

// plausible: the unsigned parts of the message agree with the signed shares.
func (l *shareLab) plausible(w *messages.WireMessage) bool {
	var bulk []common.BulkWireMsg
	if json.Unmarshal(w.Message, &bulk) != nil || len(bulk) == 0 {
		return false
	}
	for _, b := range bulk {
		si := l.shares[string(b.WiredBulkMsgs)]
		if si == nil || b.Routing == nil || b.Routing.From == nil || b.Routing.From.MessageWrapper_PartyID == nil || b.Routing.From.Id != w.Routing.From.Id || b.Routing.IsBroadcast != w.Routing.IsBroadcast || si.round != w.RoundInfo || l.ids[si.author].Id != w.Routing.From.Id {
			return false
		}
	}
	return true
}

func (l *shareLab) push(m *p2p.Message) bool {
	dl := time.Now().Add(30 * time.Second)
	select {
	case l.tc.TssMsg <- m:
	case <-time.After(30 * time.Second):
		return false
	}
	for len(l.tc.TssMsg) > 0 {
		if time.Now().After(dl) {
			return false
		}
		time.Sleep(2 * time.Microsecond)
	}
	return true
}

func (l *shareLab) judgeApplications(fresh []application, answered string) {
	for _, a := range fresh {
		si := l.shares[a.wire]
		ai := -1
		for i := range l.ids {
			if l.ids[i].Id == a.from {
				ai = i
			}
		}
		if ai < 0 || !bytes.Equal(a.fromKey, l.nodes[ai].Pub) {
			l.viol("C04", "applied:unknown-author", "a share was attributed to an unknown participant %q", a.from)
			continue
		}
		if si == nil {
			// bytes the lab never made
			l.viol("C04", "applied:altered", "a share with bytes nobody signed was applied for participant %d", ai)
			continue
		}
		l.note("   applied: %s of %d for entry %.6s (share of %d for %d)", si.round, ai, a.entry, si.author, si.to)
		if unicastRounds[si.round] != !a.broadcast {
			// the protocol library does not accept a share with the wrong routing
			l.c.Count("ineffective_applications", 1)
			k := l.key(ai, si.round)
			k.marks = append(k.marks, len(k.reports))
			continue
		}
		l.c.Count("shares_applied", 1)
		if !l.auth[fmt.Sprintf("%s|%s|%d", a.wire, a.entry, ai)] {
			l.viol("C04", "applied:unauthentic", "%s share for entry %.8s was attributed to participant %d without a message signed by it for this session (made by %d)", si.round, a.entry, ai, si.author)
		}
		if si.to >= 0 && si.to != l.me {
			l.viol("C04", "applied:other-receiver", "a private %s share of %d for participant %d was applied by participant %d", si.round, ai, si.to, l.me)
		}
		id := fmt.Sprintf("%s|%s|%d", a.entry, si.round, ai)
		l.applied[id]++
		l.appliedBy[id] = a.wire
		if l.applied[id] > 1 {
			l.viol("C05", "applied:twice", "%s share of participant %d for entry %.8s was applied %d times", si.round, ai, a.entry, l.applied[id])
		}
		if a.broadcast {
			k := l.key(ai, si.round)
			ok := k.lenient
			for h := range k.delivered {
				if l.wireHas(h, a.wire) && l.confirmed(k, h) {
					ok = true
				}
			}
			if !ok {
				l.viol("C03", "applied:unconfirmed", "%s share of participant %d was applied with reports %v (n=%d threshold=%d)", si.round, ai, short(k.firsts(0)), l.n, l.t)
			}
			k.marks = append(k.marks, len(k.reports))
			l.c.Count("broadcasts_applied", 1)
		}
	}
}

func short(m map[int]string) map[int]string {
	o := map[int]string{}
	for k, v := range m {
		if len(v) > 6 {
			v = v[:6]
		}
		o[k] = v
	}
	return o
}

func (l *shareLab) wireHas(h, share string) bool {
	for _, w := range l.wires[h] {
		if bytes.Contains(w.Message, []byte(base64.StdEncoding.EncodeToString([]byte(share)))) {
			return true
		}
	}
	return false
}

func (l *shareLab) judgeOutput(m *messages.BroadcastMsgChan, fi, requester int, reqKey string) output {
	o := output{to: m.PeersID, msg: m.WrappedMessage}
	var tos []int
	for _, p := range m.PeersID {
		tos = append(tos, l.peerIndex(p))
	}
	sort.Ints(tos)
	o.tos = fmt.Sprint(tos)
	l.c.Count("messages_out", 1)
	l.note("   out: type %v to %v", m.WrappedMessage.MessageType, tos)
	if m.WrappedMessage.MsgID != l.session {
		l.viol("C06", "outgoing:session", "message of type %v with session id %q", m.WrappedMessage.MessageType, m.WrappedMessage.MsgID)
	}
	for i, t := range tos {
		if t < 0 || (i > 0 && tos[i-1] == t) {
			l.viol("C06", "outgoing:receivers", "message of type %v addressed to %v", m.WrappedMessage.MessageType, tos)
		}
	}
	// private shares
	blob := m.WrappedMessage.Payload
	var inner []byte
	var ct messages.TssControl
	if m.WrappedMessage.MessageType == messages.TSSControlMsg && json.Unmarshal(blob, &ct) == nil && ct.Msg != nil {
		inner = ct.Msg.Message
	}
	for s := range l.received {
		e := []byte(base64.StdEncoding.EncodeToString([]byte(s)))
		if bytes.Contains(blob, e) || bytes.Contains(inner, e) || bytes.Contains(blob, []byte(s)) {
			l.viol("C07", "private:leak", "a private share received from participant %d was passed on to %v in a message of type %v", l.shares[s].author, tos, m.WrappedMessage.MessageType)
		}
	}
	switch m.WrappedMessage.MessageType {
	case messages.TSSControlMsg:
		if ct.Msg == nil {
			l.judgeRequest(&ct, tos)
		} else {
			l.judgeAnswer(&ct, tos, requester, reqKey)
		}
	case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
		l.c.Count("reports_out", 1)
		var v messages.BroadcastConfirmMessage
		if json.Unmarshal(blob, &v) != nil {
			l.viol("C03", "report:malformed", "confirmation that cannot be decoded")
			break
		}
		found := false
		for _, k := range l.keys {
			if v.Key == l.ids[k.author].Id+"-"+k.round {
				found = true
				if !k.delivered[v.Hash] && !k.lenient {
					l.viol("C03", "report:content", "the node reported content for %s that it never received from its author", v.Key)
				}
				if !sameInts(tos, allBut(l.n, l.me, k.author)) {
					l.viol("C03", "report:receivers", "the report for %s went to %v", v.Key, tos)
				}
			}
		}
		if !found {
			l.viol("C03", "report:content", "the node reported content for the unknown key %q", v.Key)
		}
	case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
		l.viol("C07", "private:forward", "the node passed a share message on to %v", tos)
	}
	return o
}

func (l *shareLab) keyOf(s string) *labKey {
	for _, k := range l.keys {
		if s == l.ids[k.author].Id+"-"+k.round {
			return k
		}
	}
	return nil
}

func (l *shareLab) judgeRequest(ct *messages.TssControl, tos []int) {
	l.c.Count("requests_out", 1)
	l.requests[ct.ReqHash]++
	k := l.keyOf(ct.ReqKey)
	if k == nil {
		// somebody confirmed something that does not exist
		l.c.Count("requests_for_unknown_keys", 1)
		return
	}
	if st, _ := msgTypes(l.keygen); ct.RequestType != st {
		l.viol("C08", "request:type", "the request for %s asks for message type %v in a ceremony of type %v", ct.ReqKey, ct.RequestType, st)
	}
	if k.lenient {
		return
	}
	ever := map[int]bool{}
	var must []int
	okFreq := false
	marks := append([]int{0}, k.marks...)
	for _, since := range marks {
		f := map[int]string{}
		for _, rp := range k.reports[since:] {
			if _, ok := f[rp.peer]; !ok {
				f[rp.peer] = rp.hash
			}
		}
		freq := map[string]int{}
		for p, h := range f {
			if p != k.author || h == ct.ReqHash {
				freq[h]++
			}
			if h == ct.ReqHash {
				ever[p] = true
			}
		}
		for _, rp := range k.reports[since:] {
			// the author's report is forgotten when the node notices it, so a later one may stand
			if rp.peer == k.author && rp.hash == ct.ReqHash && !ever[rp.peer] {
				ever[rp.peer] = true
				freq[rp.hash]++
			}
		}
		good := freq[ct.ReqHash]+1 >= l.t-1
		for h, v := range freq {
			if h != ct.ReqHash && v > freq[ct.ReqHash]+1 {
				good = false
			}
		}
		okFreq = okFreq || good
		if since == marks[len(marks)-1] {
			for p, h := range f {
				if h == ct.ReqHash {
					must = append(must, p)
				}
			}
		}
	}
	if len(k.marks) > 0 {
		// the node forgets reports when it has applied a share, and again for every re-delivery of it
		okFreq = true
		for _, rp := range k.reports {
			if rp.hash == ct.ReqHash {
				ever[rp.peer] = true
			}
		}
	}
	if !okFreq {
		l.viol("C08", "request:minority", "the node asked for content of %s (%.6s) that is not the most reported (to %v)\n%s\n", ct.ReqKey, ct.ReqHash, tos, l.trace(k.author, k.round))
	}
	has := map[int]bool{}
	for _, t := range tos {
		has[t] = true
		if t != l.me && !ever[t] {
			l.viol("C08", "request:receivers", "the node asked participant %d for content of %s (%.6s) which that one did not report (reports %.400s, marks %v)\n%s\n", t, ct.ReqKey, ct.ReqHash, fmt.Sprint(k.reports), k.marks, l.trace(k.author, k.round))
		}
	}
	if !k.lenient && len(k.marks) == 0 {
		for _, p := range must {
			if !has[p] && p != k.author {
				l.viol("C08", "request:receivers", "the node did not ask participant %d, who reported the content of %s, but %v", p, ct.ReqKey, tos)
			}
		}
	}
}

func (l *shareLab) judgeAnswer(ct *messages.TssControl, tos []int, requester int, reqKey string) {
	l.c.Count("answers_out", 1)
	if requester < 0 || len(tos) != 1 || tos[0] != requester || ct.ReqKey != reqKey {
		l.viol("C08", "answer:receivers", "an answer for %s went to %v, requested by %d for %s", ct.ReqKey, tos, requester, reqKey)
		return
	}
	if !plainWire(ct.Msg) {
		l.viol("C08", "answer:original", "an answer for %s without routing", reqKey)
		return
	}
	h := hashOf(ct.Msg.Message)
	orig := false
	for _, w := range l.wires[h] {
		if bytes.Equal(w.Sig, ct.Msg.Sig) && w.GetCacheKey() == ct.Msg.GetCacheKey() && w.Routing.IsBroadcast == ct.Msg.Routing.IsBroadcast {
			orig = true
		}
	}
	if !orig {
		l.viol("C08", "answer:original", "an answer for %s is not a message the node received", reqKey)
	}
	k := l.keyOf(reqKey)
	if k == nil {
		l.viol("C08", "answer:original", "an answer for the unknown key %s", reqKey)
		return
	}
	if ct.Msg.GetCacheKey() != reqKey {
		l.viol("C08", "answer:original", "a request for %s was answered with %s", reqKey, ct.Msg.GetCacheKey())
	}
	said := map[int]bool{}
	for _, rp := range k.reports {
		if rp.hash == h && rp.peer != k.author {
			said[rp.peer] = true
		}
	}
	// after an application the node starts over counting, at moments that cannot be observed
	again := len(k.marks) > 0 && k.delivered[h] && len(said)+1 >= l.t-1
	if !k.lenient && !k.passed[h] && !l.confirmed(k, h) && !again {
		l.viol("C08", "answer:unaccepted", "a request for %s was answered with content the node had not accepted", reqKey)
	}
}

func (l *shareLab) checkDoneSignal() {
	want := true
	for i := 0; i < l.n; i++ {
		if i != l.me && !l.done[i] {
			want = false
		}
	}
	got := false
	select {
	case <-l.tc.GetTaskDone():
		got = true
	default:
	}
	if got != want {
		l.viol("C28", "done:signal", "completion signalled=%v while %d of %d other participants reported done", got, len(l.done), l.n-1)
	}
	if got {
		l.doneSeen = true
	}
}

// ---------- payload builders ----------

func (l *shareLab) share(w *messages.WireMessage) []byte {
	st, _ := msgTypes(l.keygen)
	return wrap(st, l.session, w)
}

func (l *shareLab) sign(author int, round string, to int, bulk []common.BulkWireMsg) *messages.WireMessage {
	return signWire(l.nodes[author], l.session, l.routing(author, to), round, bulk)
}

func (l *shareLab) report(author int, round, hash string) []byte {
	_, vt := msgTypes(l.keygen)
	return wrap(vt, l.session, messages.BroadcastConfirmMessage{Key: l.ids[author].Id + "-" + round, Hash: hash})
}

func (l *shareLab) control(key, hash string, w *messages.WireMessage) []byte {
	st, _ := msgTypes(l.keygen)
	return wrap(messages.TSSControlMsg, l.session, messages.TssControl{ReqHash: hash, ReqKey: key, RequestType: st, Msg: w})
}

func plainWire(w *messages.WireMessage) bool {
	return w != nil && w.Routing != nil && w.Routing.From != nil && w.Routing.From.MessageWrapper_PartyID != nil
}

func clone(w *messages.WireMessage) *messages.WireMessage {
	b, _ := json.Marshal(w)
	var o messages.WireMessage
	if err := json.Unmarshal(b, &o); err != nil {
		panic(err)
	}
	return &o
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
