package main

import (
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { register("C22", checkC22) }

func checkC22(c *Ctx) {
	c.Rule = "(1) complete nodes under fire of a participant and an outsider on all four protocols - mutated captures of their own traffic, malformed frames, structured messages with odd fields, resigned by the participant - and of hostile requests, each salvo followed by requests among the honest nodes that must succeed; (2) ceremonies, each in a process of its own, in which a participant sends a share with one odd field or an odd whole; non-trivial = hostile messages were delivered / the share was changed"
	c.Assume("a flood is not so heavy that it takes the machine down: denial of service by sheer volume is not decided")
	c.Assume("content of shares: single fields set to boundary values, and the listed attacks that need several; not every combination")
	g := c.N(4, 16)
	cases := cases22(c.Rand("content", 0), 0)
	if !c.Thorough {
		cases = quick22(c.Rand("content", 0), 70)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // both kinds wait most of the time
		defer wg.Done()
		c.Parallel(g, 2, func(i int) { hostileScenario(c, i) })
	}()
	c.Parallel(len(cases), 5, func(i int) { contentCase(c, i, cases[i]) })
	wg.Wait()
	c.Require("hostile messages", int64(150*g))
	c.Require("hostile requests", int64(5*g))
	c.Require("honest requests served afterwards", int64(2*g))
	c.Require("content cases", int64(len(cases)/2))
}

// fire is a complete group of honest nodes with a hostile participant and a hostile outsider.
type fire struct {
	c     *Ctx
	nodes []*Node // all participants, the last is hostile
	bad   *Node
	ids   []*btss.PartyID // of the participants, in the order of nodes
	ss    []*srv
	pool  *Pool
	pp    *puppets // 0 the hostile participant, 1 the outsider
	mu    sync.Mutex
	known []string // session ids the attackers learned
	caps  []arrival
	log   []string
}

func (f *fire) note(s string) {
	f.mu.Lock()
	if len(f.log) > 60 {
		f.log = f.log[1:]
	}
	f.log = append(f.log, s)
	f.mu.Unlock()
}

func (f *fire) recent() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return strings.Join(f.log, "\n")
}

// learn reads what arrived at the attackers.
func (f *fire) learn() {
	all := f.pp.seen()
	f.mu.Lock()
	defer f.mu.Unlock()
	f.caps = f.caps[:0]
	seen := map[string]bool{}
	for _, s := range f.known {
		seen[s] = true
	}
	for _, a := range all {
		fr := a.frame()
		if fr == nil {
			continue
		}
		f.caps = append(f.caps, a)
		id := ""
		if a.Proto == protoTss {
			id = wrappedSession(fr)
		} else if a.Proto == protoLeader || a.Proto == protoLeaderless {
			id, _ = sessionOf(a.Proto, fr)
		}
		if id != "" && !seen[id] {
			seen[id] = true
			f.known = append(f.known, id)
		}
	}
	if len(f.caps) > 400 {
		f.caps = f.caps[len(f.caps)-400:]
	}
}

func (f *fire) session(r *rand.Rand) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.known) > 0 && r.Intn(5) > 0 {
		// mostly a recent one
		k := len(f.known) - 1 - r.Intn(minInt(3, len(f.known)))
		return f.known[k]
	}
	switch r.Intn(4) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", 1+r.Intn(3000))
	case 2:
		return string(randBytes(r, 32))
	}
	return sessionID(fmt.Sprint(r.Int63()))
}

func (f *fire) capture(r *rand.Rand, p protocol.ID) []byte {
	f.mu.Lock()
	defer f.mu.Unlock()
	for try := 0; try < 12 && len(f.caps) > 0; try++ {
		a := f.caps[r.Intn(len(f.caps))]
		if a.Proto == p {
			return append([]byte{}, a.frame()...)
		}
	}
	return nil
}

// oddJSON replaces one random place of a JSON document with something unexpected.
func oddJSON(r *rand.Rand, doc []byte) []byte {
	var v interface{}
	d := json.NewDecoder(strings.NewReader(string(doc)))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return doc
	}
	count := 0
	var size func(v interface{})
	size = func(v interface{}) {
		count++
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range sortedKeys(x) {
				size(x[k])
			}
		case []interface{}:
			for _, y := range x {
				size(y)
			}
		}
	}
	size(v)
	at := r.Intn(count)
	odd := func(old interface{}) interface{} {
		switch r.Intn(16) {
		case 0:
			return nil
		case 1:
			return ""
		case 2:
			return json.Number("-1")
		case 3:
			return json.Number("99999999999999999999999999")
		case 4:
			return []interface{}{}
		case 5:
			return map[string]interface{}{}
		case 6:
			return true
		case 7:
			return []interface{}{nil, nil}
		case 8:
			return strings.Repeat("A", 4096)
		case 9:
			return json.Number(fmt.Sprint(r.Intn(20)))
		case 10:
			return base64.StdEncoding.EncodeToString(randBytes(r, r.Intn(80)))
		case 11:
			return base64.StdEncoding.EncodeToString([]byte([]string{"null", "[]", "{}", "[null]", "[{}]", "0", `""`, `[[]]`}[r.Intn(8)]))
		case 12:
			return []interface{}{old, old, old}
		case 13:
			return "\u0000\ufffd"
		case 14:
			var n interface{} = json.Number("1")
			for i := 0; i < 2000; i++ {
				n = []interface{}{n}
			}
			return n
		}
		if s, is := old.(string); is {
			// a document inside the document
			if b, err := base64.StdEncoding.DecodeString(s); err == nil && len(b) > 0 {
				if b[0] == '{' || b[0] == '[' {
					return base64.StdEncoding.EncodeToString(oddJSON(r, b))
				}
				return base64.StdEncoding.EncodeToString(oddBytes(r, b))
			}
			return string(oddBytes(r, []byte(s)))
		}
		return nil
	}
	n := 0
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		me := n
		n++
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range sortedKeys(x) {
				y := walk(x[k])
				if n > at && me != at && y == nil && r.Intn(3) == 0 {
					delete(x, k)
				} else {
					x[k] = y
				}
			}
		case []interface{}:
			for i := range x {
				x[i] = walk(x[i])
			}
		}
		if me == at {
			return odd(v)
		}
		return v
	}
	out, err := json.Marshal(walk(v))
	if err != nil {
		return doc
	}
	return out
}

func sortedKeys(m map[string]interface{}) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// oddBytes damages a byte string.
func oddBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	switch k := r.Intn(6); {
	case len(b) == 0 || k == 0:
		return randBytes(r, r.Intn(300))
	case k == 1:
		return b[:r.Intn(len(b))]
	case k == 2:
		return append(b, randBytes(r, 1+r.Intn(50))...)
	case k == 3:
		for i := 0; i <= r.Intn(4); i++ {
			b[r.Intn(len(b))] = []byte{0, 1, 0x7f, 0x80, 0xff}[r.Intn(5)]
		}
		return b
	case k == 4:
		i := r.Intn(len(b))
		return append(append(append([]byte{}, b[:i]...), b[i/2:]...), b[i:]...)
	}
	b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	return b
}

// party gives the id of a participant, or something odd.
func (f *fire) party(r *rand.Rand) *btss.PartyID {
	if r.Intn(12) == 0 {
		return nil
	}
	p := f.ids[r.Intn(len(f.ids))]
	q := btss.NewPartyID(p.Id, p.Moniker, p.KeyInt())
	q.Index = p.Index
	switch r.Intn(9) {
	case 0:
		q.Index = []int{-1, 7, 1 << 30}[r.Intn(3)]
	case 1:
		q.Id = []string{"", "0", "9", "-1", "x", strings.Repeat("9", 400)}[r.Intn(6)]
	case 2:
		q.Key = [][]byte{nil, {}, {0}, randBytes(r, 33), randBytes(r, 2000)}[r.Intn(5)]
	case 3:
		q.MessageWrapper_PartyID = nil
	}
	return q
}

var allRounds22 = append(append([]string{"", "x", "KGRound9Message", messages.KEYGEN1}, allRounds[true]...), allRounds[false]...)

func (f *fire) wire(r *rand.Rand, session string) *messages.WireMessage {
	if r.Intn(15) == 0 {
		return nil
	}
	rt := &btss.MessageRouting{From: f.party(r), IsBroadcast: r.Intn(2) == 0, IsToOldCommittee: r.Intn(10) == 0}
	if r.Intn(2) == 0 {
		rt.From = f.ids[len(f.ids)-1] // the participant itself
	}
	for k := r.Intn(3); k > 0; k-- {
		rt.To = append(rt.To, f.party(r))
	}
	rd := allRounds22[r.Intn(len(allRounds22))]
	var bulk []common.BulkWireMsg
	for k := r.Intn(4); k > 0; k-- {
		b := common.BulkWireMsg{MsgIdentifier: []string{"", "x", session, hexs(randBytes(r, 32))}[r.Intn(4)], Routing: rt}
		if len(rd) > 3 && r.Intn(2) == 0 && strings.Contains(rd, "Round") && !strings.Contains(rd, "9") {
			m := newContent(rd)
			fillContent(r, m)
			b.WiredBulkMsgs = wireOf(btss.MessageRouting{From: f.ids[len(f.ids)-1], IsBroadcast: rt.IsBroadcast}, m)
			if r.Intn(2) == 0 {
				b.WiredBulkMsgs = oddBytes(r, b.WiredBulkMsgs)
			}
		} else {
			b.WiredBulkMsgs = randBytes(r, r.Intn(100))
		}
		if r.Intn(6) == 0 {
			b.Routing = nil
		}
		bulk = append(bulk, b)
	}
	buf, _ := json.Marshal(bulk)
	if r.Intn(3) == 0 {
		buf = oddJSON(r, buf)
	}
	w := signRaw(f.bad, session, rt, rd, buf)
	switch r.Intn(8) {
	case 0:
		w.Routing = nil
	case 1:
		w.Sig = nil
	case 2:
		w.Message = nil
	}
	return w
}

// resigned turns a captured share into one the participant sends itself, with something odd in it.
func (f *fire) resigned(r *rand.Rand, b []byte) []byte {
	var w messages.WrappedMessage
	var m messages.WireMessage
	if json.Unmarshal(b, &w) != nil || json.Unmarshal(w.Payload, &m) != nil || m.Routing == nil || m.Routing.From == nil {
		return nil
	}
	me := f.ids[len(f.ids)-1]
	var bulk []common.BulkWireMsg
	if json.Unmarshal(m.Message, &bulk) != nil {
		return nil
	}
	m.Routing.From = me
	for i := range bulk {
		if bulk[i].Routing != nil {
			bulk[i].Routing.From = me
			if r.Intn(4) == 0 {
				bulk[i].Routing.From = f.party(r)
			}
		}
		if r.Intn(3) == 0 {
			bulk[i].WiredBulkMsgs = oddBytes(r, bulk[i].WiredBulkMsgs)
		}
	}
	buf, err := json.Marshal(bulk)
	if err != nil {
		return nil
	}
	if r.Intn(3) == 0 {
		buf = oddJSON(r, buf)
	}
	rd := m.RoundInfo
	if r.Intn(4) == 0 {
		rd = allRounds22[r.Intn(len(allRounds22))]
	}
	w.Payload, _ = json.Marshal(signRaw(f.bad, w.MsgID, m.Routing, rd, buf))
	out, _ := json.Marshal(w)
	return out
}

// hostile makes one hostile stream: the protocol and the bytes.
func (f *fire) hostile(r *rand.Rand) (protocol.ID, []byte, string) {
	session := f.session(r)
	p := []protocol.ID{protoTss, protoTss, protoTss, protoLeaderless, protoLeader, protoSig}[r.Intn(6)]
	switch r.Intn(12) {
	case 0: // malformed frames
		h := make([]byte, 4)
		binary.LittleEndian.PutUint32(h, []uint32{0, 1, 0xffffffff, 0x7fffffff, 20000001, 19999999, 0x80000000}[r.Intn(7)])
		return p, append(h, randBytes(r, r.Intn(40))...), fmt.Sprintf("frame header %x", h)
	case 1:
		b := randBytes(r, r.Intn(300))
		return p, b, "random bytes"
	case 2:
		b := randBytes(r, r.Intn(300))
		return p, frameOf(b), "random payload"
	case 3, 4, 5, 6: // damaged captures
		b := f.capture(r, p)
		if b != nil {
			if p == protoTss && r.Intn(4) > 0 {
				if x := f.resigned(r, b); x != nil && r.Intn(2) == 0 {
					return p, frameOf(x), "a resigned capture"
				}
				return p, frameOf(oddJSON(r, b)), "a capture with an odd place"
			}
			return p, frameOf(oddBytes(r, b)), "a damaged capture"
		}
	}
	switch p {
	case protoTss:
		t := types29[r.Intn(len(types29))]
		if r.Intn(12) == 0 {
			t = messages.THORChainTSSMessageType(r.Intn(300))
		}
		var body interface{}
		switch t {
		case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
			body = f.wire(r, session)
		case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
			id := f.ids[r.Intn(len(f.ids))].Id
			keys := []string{"", "-", id, id + "-", id + "-" + allRounds22[r.Intn(len(allRounds22))], "99-KGRound1Message", "x-y-z", strings.Repeat("-", 500)}
			body = messages.BroadcastConfirmMessage{P2PID: []string{"", "x", f.bad.Peer.String()}[r.Intn(3)], Key: keys[r.Intn(len(keys))], Hash: []string{"", "x", hexs(randBytes(r, 32))}[r.Intn(3)]}
		case messages.TSSControlMsg:
			w := f.wire(r, session)
			key := []string{"", "-", "x"}[r.Intn(3)]
			if w != nil && w.Routing != nil && w.Routing.From != nil && w.Routing.From.MessageWrapper_PartyID != nil && r.Intn(2) == 0 {
				key = w.GetCacheKey()
			}
			body = messages.TssControl{ReqHash: []string{"", "x", hexs(randBytes(r, 32))}[r.Intn(3)], ReqKey: key, RequestType: messages.THORChainTSSMessageType(r.Intn(9)), Msg: w}
		case messages.TSSTaskDone:
			body = messages.TssTaskNotifier{TaskDone: r.Intn(2) == 0}
		default:
			body = []interface{}{nil, 1, "x", []int{}}[r.Intn(4)]
		}
		buf, err := json.Marshal(body)
		if err != nil {
			buf = nil
		}
		if r.Intn(4) == 0 {
			buf = oddJSON(r, buf)
		}
		out, _ := json.Marshal(messages.WrappedMessage{MessageType: t, MsgID: session, Payload: buf})
		if r.Intn(6) == 0 {
			out = oddJSON(r, out)
		}
		return p, frameOf(out), fmt.Sprintf("a structured message of type %d", t)
	case protoLeaderless:
		b := joinRequest(validUTF8(session))
		if r.Intn(3) == 0 {
			b = oddBytes(r, b)
		}
		return p, frameOf(b), "an announcement"
	case protoLeader:
		var list []string
		for k := r.Intn(6); k > 0; k-- {
			all := []string{"", "x", f.bad.Peer.String(), f.ss[0].nd.Peer.String(), f.ss[1].nd.Peer.String(), string(f.bad.Peer), randNode(r).Peer.String(), strings.Repeat("Q", 3000)}
			list = append(list, validUTF8(all[r.Intn(len(all))]))
		}
		if r.Intn(20) == 0 {
			for k := 0; k < 3000; k++ {
				list = append(list, f.bad.Peer.String())
			}
		}
		b := leaderMsg(validUTF8(session), []string{"request", "response", "", "x"}[r.Intn(4)], messages.JoinPartyLeaderComm_ResponseType(r.Intn(9)-2), list)
		if r.Intn(4) == 0 {
			b = oddBytes(r, b)
		}
		return p, frameOf(b), "a message about a leader"
	}
	m := &messages.KeysignSignature{ID: validUTF8(session), KeysignStatus: messages.KeysignSignature_Status(r.Intn(4) - 1)}
	for k := r.Intn(5); k > 0; k-- {
		var b []byte
		if r.Intn(2) == 0 {
			b, _ = proto.Marshal(ecdsaSign(r, hashInt(randBytes(r, 31)), randBytes(r, 32)))
			if r.Intn(2) == 0 {
				b = oddBytes(r, b)
			}
		} else {
			b = randBytes(r, r.Intn(120))
		}
		m.Signatures = append(m.Signatures, b)
	}
	b, _ := proto.Marshal(m)
	if r.Intn(4) == 0 {
		b = oddBytes(r, b)
	}
	return p, frameOf(b), "a set of signatures"
}

func validUTF8(s string) string { return strings.ToValidUTF8(s, "?") }

// salvo sends n hostile streams to the nodes.
func (f *fire) salvo(r *rand.Rand, n int) {
	for ; n > 0; n-- {
		from := 0
		if r.Intn(3) == 0 {
			from = 1
		}
		to := f.ss[r.Intn(len(f.ss))]
		p, b, what := f.hostile(r)
		f.note(fmt.Sprintf("puppet %d to %s: %s (%d bytes)", from, p, what, len(b)))
		sendOdd(r, f.pp.hosts[from], to.nd.Peer, p, b)
		f.c.Count("hostile messages", 1)
		f.c.Count("hostile messages: "+what[:minInt(len(what), 14)], 1)
	}
}

// sendOdd writes the bytes and ends the stream in one way or another.
func sendOdd(r *rand.Rand, h *netHost, to peer.ID, p protocol.ID, b []byte) {
	ctx, cancel := ctxTimeout(5 * time.Second)
	defer cancel()
	s, err := h.Host.NewStream(ctx, to, p)
	if err != nil {
		return
	}
	_ = s.SetWriteDeadline(time.Now().Add(2 * time.Second))
	if len(b) > 2 && r.Intn(4) == 0 {
		k := 1 + r.Intn(len(b)-1)
		_, _ = s.Write(b[:k])
		time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
		b = b[k:]
	}
	_, _ = s.Write(b)
	switch r.Intn(6) {
	case 0:
		_ = s.Reset()
	case 1: // held for a while
		go func() { time.Sleep(3 * time.Second); _ = s.Reset() }()
	case 2:
		go func() {
			_ = s.SetReadDeadline(time.Now().Add(time.Second))
			x := make([]byte, 64)
			_, _ = s.Read(x)
			_ = s.Close()
		}()
	default:
		_ = s.Close()
	}
}

// oddRequest gives a node one request nobody should make.
func (f *fire) oddRequest(r *rand.Rand, s *srv) {
	keys := bechs(f.nodes)
	switch r.Intn(9) {
	case 0:
		keys = nil
	case 1:
		keys = append(keys, keys...)
	case 2:
		keys = []string{s.nd.Bech}
	case 3:
		keys = []string{"", "x", keys[0]}
	case 4:
		keys[r.Intn(len(keys))] = []string{"", "x", strings.ToUpper(keys[0]), keys[0] + " ", strings.Repeat("z", 5000)}[r.Intn(5)]
	case 5:
		keys = keys[:1+r.Intn(len(keys)-1)]
	case 6:
		keys = append(keys, randNode(r).Bech)
	case 7:
		keys = []string{f.bad.Bech}
	}
	version := []string{"0.13.0", "0.14.0", "", "x", "0.13", "-1.0.0", "99999999999999999999.0.0", "0.13.0-rc", "v0.13.0", strings.Repeat("1.", 500)}[r.Intn(10)]
	height := []int64{0, -1, 1, 1 << 62, -1 << 63}[r.Intn(5)]
	what := ""
	ok := Within(150*time.Second, func() {
		f.c.Guard("panic", "a hostile request", func() {
			if r.Intn(3) == 0 {
				what = fmt.Sprintf("key generation of %d keys, version %.12q, height %d", len(keys), version, height)
				f.note(what)
				_, _ = s.Keygen(keygen.NewRequest(keys, height, version))
				return
			}
			pool := f.pool.Bech
			if r.Intn(3) == 0 {
				pool = []string{"", "x", s.nd.Bech, "../x", strings.Repeat("p", 9000), pool + "\x00", strings.ToUpper(pool)}[r.Intn(7)]
			}
			var msgs []string
			for k := r.Intn(4); k > 0; k-- {
				msgs = append(msgs, []string{"", "!", b64(r, 32), b64(r, 0), "AA==", base64.StdEncoding.EncodeToString(make([]byte, 32)), b64(r, 5000), "AAAA\n", strings.Repeat("/", 44)}[r.Intn(9)])
			}
			if len(msgs) > 0 && r.Intn(4) == 0 {
				msgs = append(msgs, msgs[0])
			}
			if r.Intn(15) == 0 {
				for k := 0; k < 300; k++ {
					msgs = append(msgs, b64(r, 32))
				}
			}
			what = fmt.Sprintf("signing of %d messages by %d keys with pool %.12q, version %.12q, height %d", len(msgs), len(keys), pool, version, height)
			f.note(what)
			_, _ = s.KeySign(keysign.NewRequest(pool, msgs, height, keys, version))
		})
	})
	if !ok {
		f.c.Violate("stuck-request", "a hostile request does not return: %s\n%s", what, allStacks())
	}
	f.c.Count("hostile requests", 1)
}

// joint are requests in which the hostile participant takes part: it joins and sends nonsense. The second time it leads the party.
func (f *fire) joint(r *rand.Rand) {
	gen := r.Intn(3) == 0
	msgs := []string{b64(r, 32)}
	if r.Intn(2) == 0 {
		msgs = append(msgs, b64(r, 20))
	}
	id := f.jointOnce(r, gen, msgs, "0.13.0", int64(1+r.Intn(1000)))
	if id == "" || f.c.Violated() {
		return
	}
	var peers []string
	for _, nd := range f.nodes {
		peers = append(peers, nd.Peer.String())
	}
	for h := int64(1 + r.Intn(1000)); ; h++ {
		if l, err := p2p.LeaderNode(id, h, peers); err != nil || l == f.bad.Peer.String() {
			f.jointOnce(r, gen, msgs, "0.14.0", h)
			return
		}
	}
}

// jointOnce gives the id of the session that was joined.
func (f *fire) jointOnce(r *rand.Rand, gen bool, msgs []string, version string, height int64) string {
	var once sync.Map
	var wg sync.WaitGroup
	seed := r.Int63()
	id := ""
	f.pp.mu.Lock()
	f.pp.onJoin = func(p int, from peer.ID, pr protocol.ID, session string) {
		if _, dup := once.LoadOrStore(session, true); dup || session == "" || p != 0 {
			return
		}
		f.mu.Lock()
		id = session
		f.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			// some nonsense before the party is there
			f.learn()
			f.salvo(rr, 5)
			var all []string
			for _, nd := range f.nodes {
				all = append(all, nd.Peer.String())
			}
			var answers sync.WaitGroup
			for _, s := range f.ss {
				to := s.nd.Peer
				if pr != protoLeader {
					_, _ = rawSend(f.pp.hosts[0].Host, to, protoLeaderless, frameOf(joinRequest(session)), 0)
					continue
				}
				// more answers than anybody asked for, all at once
				for k := 0; k < 30; k++ {
					answers.Add(1)
					b := frameOf(leaderMsg(session, "response", messages.JoinPartyLeaderComm_ResponseType(rr.Intn(4)), all[:rr.Intn(len(all)+1)]))
					go func() {
						defer answers.Done()
						_, _ = rawSend(f.pp.hosts[0].Host, to, protoLeader, b, 0)
					}()
				}
				f.c.Count("hostile messages", 30)
			}
			answers.Wait()
			if pr == protoLeader {
				f.c.Count("parties with a hostile leader", 1)
			}
			f.c.Count("ceremonies with a hostile participant", 1)
			for k := 0; k < 5; k++ {
				time.Sleep(time.Duration(rr.Intn(200)) * time.Millisecond)
				f.learn()
				f.salvo(rr, 20)
			}
		}()
	}
	f.pp.mu.Unlock()
	delay := map[int]time.Duration{}
	for i := range f.ss {
		delay[i] = time.Duration(r.Intn(200)) * time.Millisecond
	}
	together(f.c, f.ss, "request with a hostile participant", 200*time.Second, delay, func(i int, o *opRes) {
		if gen {
			o.gen, o.err = f.ss[i].Keygen(keygen.NewRequest(bechs(f.nodes), height, version))
		} else {
			o.sig, o.err = f.ss[i].KeySign(keysign.NewRequest(f.pool.Bech, append([]string(nil), msgs...), height, bechs(f.nodes), version))
		}
	})
	f.pp.mu.Lock()
	f.pp.onJoin = nil
	f.pp.mu.Unlock()
	wg.Wait()
	f.mu.Lock()
	defer f.mu.Unlock()
	return id
}

// serves gives the honest nodes a request among themselves.
func (f *fire) serves(r *rand.Rand, gen bool) {
	honest := bechs(f.nodes[:len(f.ss)])
	version := "0.13.0"
	height := int64(1 + r.Intn(1000))
	msgs := []string{b64(r, 32)}
	delay := map[int]time.Duration{}
	for i := range f.ss {
		delay[i] = time.Duration(r.Intn(200)) * time.Millisecond
	}
	if gen {
		version = []string{"0.13.0", "0.14.0"}[r.Intn(2)]
	}
	desc := fmt.Sprintf("request among the honest nodes after the attack (key generation %v, version %s)", gen, version)
	res := together(f.c, f.ss, desc, 200*time.Second, delay, func(i int, o *opRes) {
		if gen {
			o.gen, o.err = f.ss[i].Keygen(keygen.NewRequest(append([]string(nil), honest...), height, version))
		} else {
			o.sig, o.err = f.ss[i].KeySign(keysign.NewRequest(f.pool.Bech, append([]string(nil), msgs...), height, append([]string(nil), honest...), version))
		}
	})
	for i, o := range res {
		if !o.back {
			return
		}
		st, b := o.sig.Status, o.sig.Blame
		if gen {
			st, b = o.gen.Status, o.gen.Blame
		}
		if o.err != nil || st != common.Success {
			f.c.Violate("not-served", "%s: node %d: status %v err %v blame %v after %v; before it:\n%s", desc, i, st, o.err, b, o.wall, f.recent())
			return
		}
		if !gen {
			if bad := judgeSigs(o.sig.Signatures, msgs, f.pool); bad != "" {
				f.c.Violate("not-served", "%s: node %d: %s", desc, i, bad)
				return
			}
		}
	}
	f.c.Count("honest requests served afterwards", 1)
}

func hostileScenario(c *Ctx, i int) {
	r := c.Rand("hostile", i)
	f := &fire{c: c, nodes: shuffledNodes(r, randNodes(r, 4))}
	f.bad = f.nodes[3]
	f.pool = dealKey(r, f.nodes, thresholdOf(4))
	ids, _, err := conversion.GetParties(bechs(f.nodes), f.nodes[0].Bech)
	if err != nil {
		panic(err)
	}
	for _, nd := range f.nodes {
		for _, id := range ids {
			if string(id.GetKey()) == string(nd.Pub) {
				f.ids = append(f.ids, id)
			}
		}
	}
	conf := common.TssConfig{PartyTimeout: 6 * time.Second, KeyGenTimeout: 20 * time.Second, KeySignTimeout: 20 * time.Second, PreParamTimeout: time.Second}
	f.ss, err = startGroup(c, fmt.Sprintf("fire%d", i), f.nodes[:3], conf, f.pool)
	defer stopGroup(f.ss)
	if err != nil {
		c.Inconclusive("cannot start a node: %v", err)
		return
	}
	f.pp = newPuppets([]*Node{f.bad, randNode(r)})
	defer f.pp.close()
	for k, s := range f.ss {
		if err := f.pp.meet(s, 1000+k); err != nil {
			c.Inconclusive("cannot connect: %v", err)
			return
		}
	}
	for k := 0; k < 2 && !c.Violated(); k++ {
		f.pp.mu.Lock()
		f.pp.mode = []string{"", "", "mute", "reset", "junk", "hold"}[r.Intn(6)]
		f.pp.mu.Unlock()
		rs := []*rand.Rand{rand.New(rand.NewSource(r.Int63())), rand.New(rand.NewSource(r.Int63())), rand.New(rand.NewSource(r.Int63()))}
		var wg sync.WaitGroup
		run := func(g func()) { wg.Add(1); go func() { defer wg.Done(); g() }() }
		run(func() { f.salvo(rs[0], 80) })
		run(func() { f.joint(rs[1]) })
		run(func() {
			for q := 0; q < 4; q++ {
				f.oddRequest(rs[2], f.ss[rs[2].Intn(len(f.ss))])
			}
		})
		wg.Wait()
		f.serves(r, false)
		if !c.Violated() {
			f.salvo(r, 20)
			f.serves(r, k == 1)
		}
		c.Case(fmt.Sprintf("fire %d %d %s", i, k, f.recent()), true)
	}
	c.Sample("fire", "%s", f.recent())
	c.Count("goroutines at the end", runtime.NumGoroutine())
}

func sortStrings(s []string) { sort.Strings(s) }

func ctxTimeout(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}
