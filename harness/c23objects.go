package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/monitor"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

// objects23 uses the objects that are shared between the goroutines of a node from several goroutines at a time, each
// through the methods that lock.
func objects23(c *Ctx, i int) {
	r := c.Rand("objects", i)
	n := 3 + r.Intn(4)
	nodes := randNodes(r, n)
	keys := bechs(nodes)
	ids, local, err := conversion.GetParties(keys, keys[0])
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	crowd := func(ops ...func(r *rand.Rand)) {
		for k := 0; k < 3; k++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for q := 0; q < 40; q++ {
					ops[rr.Intn(len(ops))](rr)
				}
			}()
		}
	}
	wire := func(r *rand.Rand) *messages.WireMessage {
		return &messages.WireMessage{Routing: &btss.MessageRouting{From: ids[r.Intn(n)], IsBroadcast: true}, RoundInfo: allRounds[true][r.Intn(4)]}
	}

	// the blame of a ceremony
	m := blame.NewBlameManager()
	idMap := map[string]*btss.PartyID{}
	for k, id := range ids {
		idMap[id.Id] = id
		m.PartyIDtoP2PID[id.Id] = nodes[k].Peer
	}
	var pm sync.Map
	pm.Store("x", stubParty{id: local})
	m.SetPartyInfo(&pm, idMap)
	node := func(r *rand.Rand) blame.Node { return blame.NewNode(keys[r.Intn(n)], nil, nil) }
	b := m.GetBlame()
	crowd(
		func(r *rand.Rand) { b.SetBlame(blame.TssTimeout, []blame.Node{node(r)}, r.Intn(2) == 0) },
		func(r *rand.Rand) { b.AddBlameNodes(node(r), node(r)) },
		func(r *rand.Rand) { b.AlreadyBlame() },
	)
	crowd(
		func(r *rand.Rand) { m.SetLastMsg(btss.NewMessage(btss.MessageRouting{From: ids[r.Intn(n)]}, nil, nil)) },
		func(r *rand.Rand) { m.GetLastMsg() },
		func(r *rand.Rand) { m.SetLastUnicastPeer(nodes[r.Intn(n)].Peer, messages.KEYGEN2aUnicast) },
		func(r *rand.Rand) { _, _ = m.GetUnicastBlame(messages.KEYGEN2aUnicast) },
		func(r *rand.Rand) { m.GetRoundMgr().Set(fmt.Sprint(r.Intn(5)), wire(r)) },
		func(r *rand.Rand) { m.GetRoundMgr().Get(fmt.Sprint(r.Intn(5))) },
		func(r *rand.Rand) { _, _ = m.GetBroadcastBlame(allRounds[true][r.Intn(4)]) },
		func(r *rand.Rand) { m.GetShareMgr().Set(fmt.Sprint(r.Intn(5))) },
		func(r *rand.Rand) { m.GetShareMgr().QueryAndDelete(fmt.Sprint(r.Intn(5))) },
	)
	round := func(r *rand.Rand) blame.RoundInfo {
		k := r.Intn(4)
		return blame.RoundInfo{Index: k, RoundMsg: allRounds[true][k]}
	}
	crowd(
		func(r *rand.Rand) { m.UpdateAcceptShare(round(r), ids[r.Intn(n)].Id) },
		func(r *rand.Rand) { m.CheckMsgDuplication(round(r), ids[r.Intn(n)].Id) },
		func(r *rand.Rand) { _, _, _ = m.TssMissingShareBlame(messages.TSSKEYGENROUNDS) },
	)
	crowd(func(r *rand.Rand) { _, _ = m.NodeSyncBlame(keys, []peer.ID{nodes[r.Intn(n)].Peer}) })

	// a message that waits for its confirmations
	item := common.NewLocalCacheItem(wire(r), "h")
	crowd(
		func(r *rand.Rand) { item.UpdateConfirmList(nodes[r.Intn(n)].Peer.String(), "h") },
		func(r *rand.Rand) { item.TotalConfirmParty() },
		func(r *rand.Rand) { item.GetPeers() },
	)

	// what a node knows of its streams and of who wants which message
	sm := p2p.NewStreamMgr()
	crowd(
		func(r *rand.Rand) {
			s, _, _ := newCount(false)
			sm.AddStream([]string{"a", "b", "UNKNOWN"}[r.Intn(3)], s)
		},
		func(r *rand.Rand) { sm.ReleaseStream([]string{"a", "b"}[r.Intn(2)]) },
	)
	sub := p2p.NewMessageIDSubscriber()
	crowd(
		func(r *rand.Rand) { sub.Subscribe(fmt.Sprint(r.Intn(4)), make(chan *p2p.Message, 1)) },
		func(r *rand.Rand) { sub.UnSubscribe(fmt.Sprint(r.Intn(4))) },
		func(r *rand.Rand) { sub.GetSubscriber(fmt.Sprint(r.Intn(4))) },
		func(r *rand.Rand) { sub.IsEmpty() },
	)

	// the meters
	mt := monitor.NewMetric()
	crowd(
		func(r *rand.Rand) { mt.UpdateKeyGen(time.Second, r.Intn(2) == 0) },
		func(r *rand.Rand) { mt.UpdateKeySign(time.Second, r.Intn(2) == 0) },
		func(r *rand.Rand) { mt.KeygenJoinParty(time.Second, r.Intn(2) == 0) },
		func(r *rand.Rand) { mt.KeysignJoinParty(time.Second, r.Intn(2) == 0) },
	)

	// a ceremony that is asked about from outside
	t := common.NewTssCommon(nodes[0].Peer.String(), make(chan *messages.BroadcastMsgChan, 1000), common.TssConfig{}, sessionID("x"), nodes[0].Priv, 1)
	crowd(
		func(r *rand.Rand) { t.SetPartyInfo(&common.PartyInfo{PartyMap: &pm, PartyIDMap: idMap}) },
		func(r *rand.Rand) { t.TryGetAllLocalCached() },
		func(r *rand.Rand) { t.TryGetLocalCacheItem(fmt.Sprint(r.Intn(4))) },
		func(r *rand.Rand) { t.GetConf() },
		func(r *rand.Rand) { t.GetLocalPeerID() },
	)
	wg.Wait()
}

// stubParty is a party of which only the name is wanted.
type stubParty struct {
	btss.Party
	id *btss.PartyID
}

func (p stubParty) PartyID() *btss.PartyID { return p.id }
