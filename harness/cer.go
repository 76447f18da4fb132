package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	bcrypto "github.com/binance-chain/tss-lib/crypto"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
)

// ---------- shared communication object (only its host id and peer addresses are used by ceremonies) ----------

var (
	commOnce sync.Once
	commObj  *p2p.Communication
)

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func sharedComm() *p2p.Communication {
	commOnce.Do(func() {
		n := randNode(rand.New(rand.NewSource(42)))
		for try := 0; try < 5; try++ {
			cm, err := p2p.NewCommunication("verif", nil, freePort(), "")
			if err != nil {
				panic(err)
			}
			if err := cm.Start(n.Priv); err == nil {
				commObj = cm
				return
			}
		}
		panic("cannot start a communication object on loopback")
	})
	return commObj
}

// ---------- recording state manager ----------

type recState struct {
	storage.LocalStateManager
	mu    sync.Mutex
	saves []storage.KeygenLocalState
	books int
	fail  bool
}

func (r *recState) SaveLocalState(s storage.KeygenLocalState) error {
	if r.fail {
		return errors.New("injected storage failure")
	}
	r.mu.Lock()
	r.saves = append(r.saves, s)
	r.mu.Unlock()
	return r.LocalStateManager.SaveLocalState(s)
}

func (r *recState) SaveAddressBook(b map[peer.ID]addr.AddrList) error {
	r.mu.Lock()
	r.books++
	r.mu.Unlock()
	return nil
}

func (r *recState) saved() []storage.KeygenLocalState {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]storage.KeygenLocalState{}, r.saves...)
}

// ---------- ceremony over an in-memory network ----------

// cerEvt is one message a node handed to the network.
type cerEvt struct {
	Seq  int
	At   time.Time
	From int
	To   []int // node indices, -1 for a peer outside the ceremony
	Raw  messages.WrappedMessage
	Wire *messages.WireMessage // share
	Bulk []common.BulkWireMsg  // share content
	Ver  *messages.BroadcastConfirmMessage
	Ctl  *messages.TssControl
	Done bool
}

type cerDelivery struct {
	To      int
	From    int
	Payload []byte // marshalled WrappedMessage
	Delay   time.Duration
}

type cerResult struct {
	Returned bool
	Err      error
	Pub      *bcrypto.ECPoint
	Sigs     []*tsslibcommon.ECSignature
	Blame    blame.Blame
	Took     time.Duration
	Common   *common.TssCommon
	State    *recState
	Panic    string
}

type Cer struct {
	Nodes   []*Node
	MsgID   string
	Keygen  bool
	MsgNum  int
	Timeout time.Duration
	// Filter decides what happens to one message for one receiver; nil means deliver once.
	Filter func(e *cerEvt, to int, payload []byte) []cerDelivery
	// OnEvent is called for every message handed to the network, in order per sender.
	OnEvent    func(e *cerEvt)
	Jitter     func() time.Duration
	StartDelay func(i int) time.Duration
	Absent     map[int]bool // nodes that never start

	mu       sync.Mutex
	seq      int
	events   []*cerEvt
	in       []chan *p2p.Message
	done     []chan struct{}
	stops    []chan struct{}
	idx      map[peer.ID]int
	Res      []*cerResult
	wgDel    sync.WaitGroup
	maxLag   time.Duration
	failSave map[int]bool // nodes whose state manager refuses to store
	began    time.Time
}

func (cr *Cer) Events() []*cerEvt {
	cr.mu.Lock()
	defer cr.mu.Unlock()
	return append([]*cerEvt{}, cr.events...)
}

func (cr *Cer) record(from int, m *messages.BroadcastMsgChan) *cerEvt {
	e := &cerEvt{From: from, At: time.Now(), Raw: m.WrappedMessage}
	for _, p := range m.PeersID {
		if k, ok := cr.idx[p]; ok {
			e.To = append(e.To, k)
		} else {
			e.To = append(e.To, -1)
		}
	}
	switch m.WrappedMessage.MessageType {
	case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
		var w messages.WireMessage
		if json.Unmarshal(m.WrappedMessage.Payload, &w) == nil {
			e.Wire = &w
			_ = json.Unmarshal(w.Message, &e.Bulk)
		}
	case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
		var v messages.BroadcastConfirmMessage
		if json.Unmarshal(m.WrappedMessage.Payload, &v) == nil {
			e.Ver = &v
		}
	case messages.TSSControlMsg:
		var v messages.TssControl
		if json.Unmarshal(m.WrappedMessage.Payload, &v) == nil {
			e.Ctl = &v
		}
	case messages.TSSTaskDone:
		e.Done = true
	}
	cr.mu.Lock()
	e.Seq = cr.seq
	cr.seq++
	cr.events = append(cr.events, e)
	cr.mu.Unlock()
	return e
}

func (cr *Cer) deliver(d cerDelivery) {
	cr.wgDel.Add(1)
	go func() {
		defer cr.wgDel.Done()
		if d.Delay > 0 {
			select {
			case <-time.After(d.Delay):
			case <-cr.done[d.To]:
				return
			}
		}
		select {
		case cr.in[d.To] <- &p2p.Message{PeerID: cr.Nodes[d.From].Peer, Payload: d.Payload}:
		case <-cr.done[d.To]:
		}
	}()
}

func (cr *Cer) route(i int, bc chan *messages.BroadcastMsgChan, stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case m := <-bc:
			e := cr.record(i, m)
			if cr.OnEvent != nil {
				cr.OnEvent(e)
			}
			payload, err := json.Marshal(m.WrappedMessage)
			if err != nil {
				panic(err)
			}
			for _, to := range e.To {
				if to < 0 || to == i {
					continue
				}
				if cr.Filter != nil {
					for _, d := range cr.Filter(e, to, payload) {
						cr.deliver(d)
					}
					continue
				}
				var dl time.Duration
				if cr.Jitter != nil {
					dl = cr.Jitter()
				}
				cr.deliver(cerDelivery{To: to, From: i, Payload: payload, Delay: dl})
			}
		}
	}
}

// Stop closes a node's stop channel.
func (cr *Cer) Stop(i int) { close(cr.stops[i]) }

// run starts every node's ceremony and waits for all of them.
func (cr *Cer) run(c *Ctx, start func(i int, bc chan *messages.BroadcastMsgChan, conf common.TssConfig, st *recState) (func() error, chan *p2p.Message, *common.TssCommon)) bool {
	n := len(cr.Nodes)
	cr.idx = map[peer.ID]int{}
	for i, nd := range cr.Nodes {
		cr.idx[nd.Peer] = i
	}
	conf := common.TssConfig{KeyGenTimeout: cr.Timeout, KeySignTimeout: cr.Timeout, PartyTimeout: cr.Timeout, PreParamTimeout: cr.Timeout}
	cr.in, cr.done, cr.stops, cr.Res = make([]chan *p2p.Message, n), make([]chan struct{}, n), make([]chan struct{}, n), make([]*cerResult, n)
	bcs := make([]chan *messages.BroadcastMsgChan, n)
	fs := make([]func() error, n)
	routeStop := make(chan struct{})
	for i := range cr.Nodes {
		cr.done[i] = make(chan struct{})
		cr.stops[i] = make(chan struct{})
		bcs[i] = make(chan *messages.BroadcastMsgChan, 1024)
		fsm, err := storage.NewFileStateMgr(c.ScratchDir(fmt.Sprintf("cer%d-", i)))
		if err != nil {
			panic(err)
		}
		st := &recState{LocalStateManager: fsm, fail: cr.failSave[i]}
		cr.Res[i] = &cerResult{State: st}
		f, in, cm := start(i, bcs[i], conf, st)
		cr.in[i], fs[i] = in, f
		cr.Res[i].Common = cm
	}
	for i := range cr.Nodes {
		go cr.route(i, bcs[i], routeStop)
	}
	lagStop := make(chan struct{})
	go func() {
		for {
			t := time.Now()
			select {
			case <-lagStop:
				return
			case <-time.After(20 * time.Millisecond):
				if l := time.Since(t) - 20*time.Millisecond; l > cr.maxLag {
					cr.mu.Lock()
					cr.maxLag = l
					cr.mu.Unlock()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	cr.began = time.Now()
	for i := range cr.Nodes {
		if cr.Absent[i] {
			close(cr.done[i])
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer close(cr.done[i])
			if cr.StartDelay != nil {
				time.Sleep(cr.StartDelay(i))
			}
			t := time.Now()
			err := fs[i]()
			cr.Res[i].Took = time.Since(t)
			cr.Res[i].Err = err
			cr.Res[i].Blame = *cr.Res[i].Common.GetBlameMgr().GetBlame()
			cr.Res[i].Returned = true
		}(i)
	}
	ok := Within(cr.Timeout*3+40*time.Second, wg.Wait)
	close(lagStop)
	if ok {
		// collect what is still in flight to the network
		time.Sleep(5 * time.Millisecond)
		for i := range bcs {
			for k := len(bcs[i]); k > 0; k-- {
				select {
				case m := <-bcs[i]:
					cr.record(i, m)
				default:
				}
			}
		}
		cr.wgDel.Wait()
	}
	close(routeStop)
	return ok
}

// RunKeygen runs the real key generation on every node; keys is each node's copy of the list.
func (cr *Cer) RunKeygen(c *Ctx, keys func(i int) []string) bool {
	cr.Keygen, cr.MsgNum = true, 1
	pre := preParams()
	return cr.run(c, func(i int, bc chan *messages.BroadcastMsgChan, conf common.TssConfig, st *recState) (func() error, chan *p2p.Message, *common.TssCommon) {
		nd := cr.Nodes[i]
		kg := keygen.NewTssKeyGen(nd.Peer.String(), conf, nd.Bech, bc, cr.stops[i], pre[i%len(pre)], cr.MsgID, st, nd.Priv, sharedComm())
		return func() error {
			p, err := kg.GenerateNewKey(keygen.NewRequest(keys(i), 10, "0.13.0"))
			cr.Res[i].Pub = p
			return err
		}, kg.GetTssKeyGenChannels(), kg.GetTssCommonStruct()
	})
}

// RunKeysign runs the real signing on the given pool members (Nodes are the signers, a subset of the pool).
func (cr *Cer) RunKeysign(c *Ctx, pool *Pool, msgs [][]byte, signers func(i int) []string) bool {
	cr.Keygen, cr.MsgNum = false, len(msgs)
	stateOf := map[string]storage.KeygenLocalState{}
	for _, s := range pool.State {
		stateOf[s.LocalPartyKey] = s
	}
	return cr.run(c, func(i int, bc chan *messages.BroadcastMsgChan, conf common.TssConfig, st *recState) (func() error, chan *p2p.Message, *common.TssCommon) {
		nd := cr.Nodes[i]
		ks := keysign.NewTssKeySign(nd.Peer.String(), conf, bc, cr.stops[i], cr.MsgID, nd.Priv, sharedComm(), st, len(msgs))
		return func() error {
			s, err := ks.SignMessage(msgs, stateOf[nd.Bech], signers(i))
			cr.Res[i].Sigs = s
			return err
		}, ks.GetTssKeySignChannels(), ks.GetTssCommonStruct()
	})
}

func sessionID(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
}

// hashInt is the documented reduction of a message to sign (leftmost 32 bytes as a big-endian integer).
func hashInt(m []byte) *big.Int {
	if len(m) > 32 {
		m = m[:32]
	}
	return new(big.Int).SetBytes(m)
}

// sortedForSigning orders messages as KeySign hands them to SignMessage: by hash value, largest first.
func sortedForSigning(msgs [][]byte) [][]byte {
	o := append([][]byte{}, msgs...)
	red := func(m []byte) *big.Int { return new(big.Int).Mod(hashInt(m), btcec.S256().N) }
	sort.SliceStable(o, func(i, j int) bool { return red(o[i]).Cmp(red(o[j])) > 0 })
	return o
}

// verifySig is an independent ECDSA check with recovery.
func verifySig(sig *tsslibcommon.ECSignature, msg []byte, x, y *big.Int) string {
	if sig == nil {
		return "nil signature"
	}
	return verifyRSV(sig.R, sig.S, sig.SignatureRecovery, msg, x, y)
}

func verifyRSV(rb, sb, rec, msg []byte, x, y *big.Int) string {
	r, s := new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb)
	n := btcec.S256().N
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		return "r or s out of range"
	}
	z := hashInt(msg)
	w := new(big.Int).ModInverse(s, n)
	u1 := new(big.Int).Mul(z, w)
	u1.Mod(u1, n)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, n)
	c := btcec.S256()
	var px, py *big.Int
	x2, y2 := c.ScalarMult(x, y, u2.Bytes())
	if u1.Sign() == 0 {
		px, py = x2, y2
	} else {
		x1, y1 := c.ScalarBaseMult(u1.Bytes())
		px, py = c.Add(x1, y1, x2, y2)
	}
	if px == nil || new(big.Int).Mod(px, n).Cmp(r) != 0 {
		return "does not verify under the pool key"
	}
	if len(rec) != 1 || rec[0] > 3 {
		return fmt.Sprintf("bad recovery id %x", rec)
	}
	// the recovery id describes the point R = u1*G + u2*Q
	want := byte(py.Bit(0))
	if px.Cmp(n) >= 0 {
		want |= 2
	}
	if rec[0] != want {
		return fmt.Sprintf("recovery id %d does not recover the pool key (expected %d)", rec[0], want)
	}
	return ""
}

// ---------- trace checkers over everything the nodes handed to the network ----------

func bulkBytes(e *cerEvt) [][]byte {
	var out [][]byte
	for _, b := range e.Bulk {
		out = append(out, b.WiredBulkMsgs)
	}
	return out
}

// isShare tells whether the event is a share message.
func (e *cerEvt) isShare() bool { return e.Wire != nil }

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]int{}, a...), append([]int{}, b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func allBut(n int, skip ...int) []int {
	var out []int
	for i := 0; i < n; i++ {
		s := false
		for _, k := range skip {
			if k == i {
				s = true
			}
		}
		if !s {
			out = append(out, i)
		}
	}
	return out
}

var unicastRounds = map[string]bool{messages.KEYGEN2aUnicast: true, messages.KEYSIGN1aUnicast: true, messages.KEYSIGN2Unicast: true}
var allRounds = map[bool][]string{
	true:  {messages.KEYGEN1, messages.KEYGEN2aUnicast, messages.KEYGEN2b, messages.KEYGEN3},
	false: {messages.KEYSIGN1aUnicast, messages.KEYSIGN1b, messages.KEYSIGN2Unicast, messages.KEYSIGN3, messages.KEYSIGN4, messages.KEYSIGN5, messages.KEYSIGN6, messages.KEYSIGN7},
}

// checkOutgoing verifies the share messages honest nodes emitted (C06) and that nothing private leaks (C07).
// complete says every node finished, so that exactly one message per round and receiver is due.
func (cr *Cer) checkOutgoing(c *Ctx, desc string, complete bool, honest func(i int) bool) {
	n := len(cr.Nodes)
	vio := func(key, format string, a ...interface{}) {
		if (c.ID == "C07") == strings.HasPrefix(key, "private:") {
			c.Violate(key, format, a...)
		}
	}
	type slot struct {
		from  int
		round string
		to    int
	}
	seen := map[slot]int{}
	msgType, verType := messages.TSSKeySignMsg, messages.TSSKeySignVerMsg
	if cr.Keygen {
		msgType, verType = messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg
	}
	private := map[string]int{} // private share bytes -> author
	evs := cr.Events()
	for _, e := range evs {
		if e.isShare() && honest(e.From) {
			for _, b := range e.Bulk {
				if b.Routing != nil && !b.Routing.IsBroadcast {
					private[string(b.WiredBulkMsgs)] = e.From
				}
			}
		}
	}
	for _, e := range evs {
		if !honest(e.From) {
			continue
		}
		at := fmt.Sprintf("%s: node %d -> %v", desc, e.From, e.To)
		if e.Raw.MsgID != cr.MsgID {
			vio("outgoing:session", "%s: message carries session id %q instead of %q", at, e.Raw.MsgID, cr.MsgID)
		}
		dup := map[int]bool{}
		for _, t := range e.To {
			if t < 0 || t == e.From || dup[t] {
				vio("outgoing:receivers", "%s: message of type %v addressed to an outsider, to itself or twice", at, e.Raw.MessageType)
			}
			dup[t] = true
		}
		switch {
		case e.isShare():
			c.Count("share_messages_out", 1)
			if e.Raw.MessageType != msgType {
				vio("outgoing:type", "%s: share sent with message type %v", at, e.Raw.MessageType)
			}
			w := e.Wire
			if w.Routing == nil || w.Routing.From == nil || w.Routing.From.Id != strconv.Itoa(cr.partyIndex(e.From)) {
				vio("outgoing:author", "%s: share does not name its author: %+v", at, w.Routing)
				continue
			}
			var buf bytes.Buffer
			buf.Write(w.Message)
			buf.WriteString(cr.MsgID)
			if !secp256k1.PubKey(cr.Nodes[e.From].Pub).VerifySignature(buf.Bytes(), w.Sig) {
				vio("outgoing:signature", "%s: %s message is not signed by its author for this session", at, w.RoundInfo)
			}
			if len(e.Bulk) != cr.MsgNum {
				vio("outgoing:batch", "%s: %s message carries %d entries for a batch of %d", at, w.RoundInfo, len(e.Bulk), cr.MsgNum)
			}
			ids := map[string]bool{}
			for _, b := range e.Bulk {
				if ids[b.MsgIdentifier] {
					vio("outgoing:batch", "%s: %s message carries batch entry %q twice", at, w.RoundInfo, b.MsgIdentifier)
				}
				ids[b.MsgIdentifier] = true
				if b.Routing == nil || b.Routing.From == nil || b.Routing.From.Id != w.Routing.From.Id || b.Routing.IsBroadcast != w.Routing.IsBroadcast {
					vio("outgoing:batch", "%s: %s entry %q has routing %+v inside a message with %+v", at, w.RoundInfo, b.MsgIdentifier, b.Routing, w.Routing)
					continue
				}
				ri, err := common.GetMsgRound(b.WiredBulkMsgs, btss.NewPartyID(w.Routing.From.Id, "", new(big.Int).SetBytes(cr.Nodes[e.From].Pub)), b.Routing.IsBroadcast)
				if err != nil || ri.RoundMsg != w.RoundInfo {
					vio("outgoing:round", "%s: message labelled %s carries a share of %q (%v)", at, w.RoundInfo, ri.RoundMsg, err)
				}
				if !b.Routing.IsBroadcast {
					if len(b.Routing.To) != 1 || len(e.To) != 1 || b.Routing.To[0].Id != strconv.Itoa(cr.partyIndex(e.To[0])) {
						vio("private:receiver", "%s: private %s share for %v", at, w.RoundInfo, b.Routing.To)
					}
				}
			}
			if unicastRounds[w.RoundInfo] {
				if len(e.To) != 1 || w.Routing.IsBroadcast {
					vio("private:receiver", "%s: private %s share sent to %d peers (broadcast flag %v)", at, w.RoundInfo, len(e.To), w.Routing.IsBroadcast)
				}
				for _, t := range e.To {
					seen[slot{e.From, w.RoundInfo, t}]++
				}
			} else {
				if !sameInts(e.To, allBut(n, e.From)) || !w.Routing.IsBroadcast {
					vio("outgoing:receivers", "%s: broadcast %s share (flag %v) not addressed to exactly the other participants", at, w.RoundInfo, w.Routing.IsBroadcast)
				}
				for _, t := range e.To {
					seen[slot{e.From, w.RoundInfo, t}]++
				}
			}
		case e.Ver != nil:
			c.Count("confirmations_out", 1)
			if e.Raw.MessageType != verType {
				vio("outgoing:type", "%s: confirmation sent with message type %v", at, e.Raw.MessageType)
			}
		}
		if !e.isShare() || (e.Wire.Routing != nil && e.Wire.Routing.IsBroadcast) {
			// nothing private inside
			for k, from := range private {
				if bytes.Contains(e.Raw.Payload, []byte(base64.StdEncoding.EncodeToString([]byte(k)))) || bytes.Contains(e.Raw.Payload, []byte(k)) {
					vio("private:leak", "%s: message of type %v contains a private share of node %d", at, e.Raw.MessageType, from)
				}
				if e.isShare() && bytes.Contains(e.Wire.Message, []byte(base64.StdEncoding.EncodeToString([]byte(k)))) {
					vio("private:leak", "%s: broadcast share contains a private share of node %d", at, from)
				}
				if e.Ctl != nil && e.Ctl.Msg != nil && bytes.Contains(e.Ctl.Msg.Message, []byte(base64.StdEncoding.EncodeToString([]byte(k)))) {
					vio("private:leak", "%s: recovery answer contains a private share of node %d", at, from)
				}
			}
		}
	}
	for s, k := range seen {
		if k != 1 {
			vio("outgoing:once", "%s: node %d handed its %s share for node %d to the network %d times", desc, s.from, s.round, s.to, k)
		}
	}
	if complete {
		for i := 0; i < n; i++ {
			if !honest(i) || cr.Absent[i] {
				continue
			}
			for _, rd := range allRounds[cr.Keygen] {
				for j := 0; j < n; j++ {
					if i != j && seen[slot{i, rd, j}] != 1 {
						vio("outgoing:once", "%s: node %d handed its %s share for node %d to the network %d times", desc, i, rd, j, seen[slot{i, rd, j}])
					}
				}
			}
		}
	}
}

// partyIndex: party ids are the positions in the list of participants sorted by public key string.
func (cr *Cer) partyIndex(i int) int {
	k := 0
	for j := range cr.Nodes {
		if cr.Nodes[j].Bech < cr.Nodes[i].Bech {
			k++
		}
	}
	return k
}

// checkDone verifies the completion notices (C28): every finished node told every other participant exactly once.
func (cr *Cer) checkDone(c *Ctx, desc string, honest func(i int) bool) {
	n := len(cr.Nodes)
	cnt := map[int]map[int]int{}
	for _, e := range cr.Events() {
		if e.Done {
			if cnt[e.From] == nil {
				cnt[e.From] = map[int]int{}
			}
			for _, t := range e.To {
				cnt[e.From][t]++
			}
		}
	}
	for i := 0; i < n; i++ {
		if !honest(i) || cr.Absent[i] {
			continue
		}
		fin := cr.Res[i].Returned && cr.Res[i].Err == nil
		for j := 0; j < n; j++ {
			if j == i {
				continue
			}
			want := 0
			if fin {
				want = 1
			}
			if got := cnt[i][j]; got != want {
				c.Violate("done:notice", "%s: node %d (finished=%v) told node %d %d times that it is done", desc, i, fin, j, got)
			}
			c.Count("done_notices", 1)
		}
		if cnt[i][i] != 0 || cnt[i][-1] != 0 {
			c.Violate("done:notice", "%s: node %d sent its done notice to itself or an outsider", desc, i)
		}
	}
}

func blamedKeys(b blame.Blame) []string {
	m := map[string]bool{}
	for _, n := range b.BlameNodes {
		m[n.Pubkey] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (cr *Cer) nameOf(bech string) string {
	for i, n := range cr.Nodes {
		if n.Bech == bech {
			return fmt.Sprintf("node%d", i)
		}
	}
	return bech
}

func (cr *Cer) names(b []string) string {
	var o []string
	for _, s := range b {
		o = append(o, cr.nameOf(s))
	}
	sort.Strings(o)
	return "[" + strings.Join(o, " ") + "]"
}

// stuckBeforeTimeout tells whether the given nodes had stopped making progress well before they gave up, so that a
// failure cannot be blamed on a machine too slow for the timeout.
func (cr *Cer) stuckBeforeTimeout(honest func(i int) bool) bool {
	var last time.Time
	for _, e := range cr.Events() {
		if honest(e.From) && e.isShare() && e.At.After(last) {
			last = e.At
		}
	}
	if last.IsZero() {
		last = cr.began
	}
	for i := range cr.Nodes {
		if !honest(i) || cr.Absent[i] || cr.Res[i].Err == nil {
			continue
		}
		end := cr.began.Add(cr.Res[i].Took)
		if end.Sub(last) < cr.Timeout/2 {
			return false
		}
	}
	return cr.maxLag < cr.Timeout/8
}

// chaos returns a filter that delays every delivery at random and repeats some of them later.
func (cr *Cer) chaos(seed int64, maxDelay time.Duration, dup float64, c *Ctx) func(e *cerEvt, to int, payload []byte) []cerDelivery {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(seed))
	return func(e *cerEvt, to int, payload []byte) []cerDelivery {
		mu.Lock()
		defer mu.Unlock()
		d := func(max time.Duration) time.Duration {
			if max <= 0 || r.Intn(3) == 0 {
				return 0
			}
			return time.Duration(r.Int63n(int64(max)))
		}
		out := []cerDelivery{{To: to, From: e.From, Payload: payload, Delay: d(maxDelay)}}
		for r.Float64() < dup && len(out) < 4 {
			out = append(out, cerDelivery{To: to, From: e.From, Payload: payload, Delay: d(maxDelay * 3)})
			c.Count("duplicated_deliveries", 1)
		}
		c.Count("deliveries", len(out))
		return out
	}
}

// traceSig summarises the observed interleaving of a ceremony (order of share and confirmation messages).
func (cr *Cer) traceSig() string {
	var sb strings.Builder
	for _, e := range cr.Events() {
		fmt.Fprintf(&sb, "%d:%d", e.From, e.Raw.MessageType)
		if e.Wire != nil {
			sb.WriteString(e.Wire.RoundInfo)
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

func thresholdOf(n int) int { return (2*n+2)/3 - 1 }
