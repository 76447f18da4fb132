package main

import (
	"context"
	"encoding/json"
	"fmt"
	"path/filepath"
	"sync"
	"time"

	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	maddr "github.com/multiformats/go-multiaddr"
	"github.com/prometheus/client_golang/prometheus"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/tss"
)

// ---------- complete nodes (tss.TssServer) with puppet peers that record and act ----------

type srv struct {
	*tss.TssServer
	nd   *Node
	dir  string
	port int
	addr maddr.Multiaddr
	info peer.AddrInfo
	reg  *prometheus.Registry // what the node's counters are registered in, with monitoring enabled
}

var regMu sync.Mutex

// newTss creates the server; its counters go to a registry of its own.
func (s *srv) newTss(boot []maddr.Multiaddr, conf common.TssConfig, pre *bkeygen.LocalPreParams) (err error) {
	if conf.EnableMonitor {
		regMu.Lock()
		defer regMu.Unlock()
		old := prometheus.DefaultRegisterer
		s.reg = prometheus.NewRegistry()
		prometheus.DefaultRegisterer = s.reg
		defer func() { prometheus.DefaultRegisterer = old }()
	}
	s.TssServer, err = tss.NewTss(boot, s.port, s.nd.Priv, "verif", s.dir, conf, pre, "")
	return err
}

// startServer starts a complete node; states are saved in its folder before.
func startServer(c *Ctx, nd *Node, dir string, boot []maddr.Multiaddr, conf common.TssConfig, pre int, states ...storage.KeygenLocalState) (*srv, error) {
	if len(states) > 0 {
		sm, err := storage.NewFileStateMgr(dir)
		if err != nil {
			return nil, err
		}
		for _, s := range states {
			if err := sm.SaveLocalState(s); err != nil {
				return nil, err
			}
		}
	}
	pp := preParams()
	var err error
	for try := 0; try < 6; try++ {
		s := &srv{nd: nd, dir: dir, port: freePort()}
		if err = s.newTss(boot, conf, pp[pre%len(pp)]); err != nil {
			continue
		}
		a, e := maddr.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", s.port))
		if e != nil {
			return nil, e
		}
		s.info = peer.AddrInfo{ID: nd.Peer, Addrs: []maddr.Multiaddr{a}}
		s.addr, e = maddr.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", s.port, nd.Peer))
		if e != nil {
			return nil, e
		}
		if e := s.Start(); e != nil {
			return nil, e
		}
		return s, nil
	}
	return nil, err
}

// startGroup starts complete nodes that are connected to each other; pools, if given, are what they share.
func startGroup(c *Ctx, name string, nodes []*Node, conf common.TssConfig, pools ...*Pool) ([]*srv, error) {
	var out []*srv
	var boot []maddr.Multiaddr
	dir := c.ScratchDir(name)
	for i, n := range nodes {
		var st []storage.KeygenLocalState
		for _, pool := range pools {
			if pool == nil {
				continue
			}
			for k, pn := range pool.Nodes {
				if pn.Bech == n.Bech {
					st = append(st, pool.State[k])
				}
			}
		}
		s, err := startServer(c, n, filepath.Join(dir, fmt.Sprint(i)), boot, conf, i, st...)
		if err != nil {
			return out, err
		}
		out = append(out, s)
		boot = append(boot, s.addr)
	}
	return out, nil
}

func stopGroup(ss []*srv) {
	var wg sync.WaitGroup
	for _, s := range ss {
		s := s
		wg.Add(1)
		go func() { defer wg.Done(); s.Stop() }()
	}
	Within(30*time.Second, wg.Wait)
}

// puppets are peers of real nodes that record everything they are sent and do what they are told.
type puppets struct {
	*netLab
	mu     sync.Mutex
	mode   string // how streams are treated: "" read and answered, "hold" never read, "mute" read and held, "reset", "junk" answered with junk
	onJoin func(p int, from peer.ID, proto protocol.ID, session string)
}

func newPuppets(nodes []*Node) *puppets {
	p := &puppets{netLab: newNetLab(nodes)}
	for i := range p.hosts {
		i := i
		for _, pid := range []protocol.ID{protoLeaderless, protoLeader, protoSig, protoTss} {
			pid := pid
			p.hosts[i].SetStreamHandler(pid, func(s network.Stream) {
				p.mu.Lock()
				mode := p.mode
				p.mu.Unlock()
				if mode == "hold" {
					return
				}
				b, err := p2p.ReadStreamWithBuffer(s)
				if err != nil {
					_ = s.Reset()
					return
				}
				switch {
				case mode == "mute":
				case mode == "reset":
					_ = s.Reset()
				case mode == "junk":
					_, _ = s.Write([]byte{0xff, 0xff, 0xff, 0x00, 1, 2, 3})
				case pid == protoSig || pid == protoLeader:
					_ = p2p.WriteStreamWithBuffer([]byte("done"), s)
				}
				from := s.Conn().RemotePeer()
				if mode == "" {
					_ = s.Close()
				}
				if pid == protoLeaderless || pid == protoLeader {
					id, kind := sessionOf(pid, b)
					p.mu.Lock()
					f := p.onJoin
					p.mu.Unlock()
					if f != nil && (kind == "request") {
						f(i, from, pid, id)
					}
				}
			})
		}
	}
	return p
}

// meet connects all puppets with the node.
func (p *puppets) meet(s *srv, index int) error {
	p.netLab.mu.Lock()
	p.idx[s.nd.Peer] = index
	p.netLab.mu.Unlock()
	for _, h := range p.hosts {
		h.Host.Peerstore().AddAddrs(s.nd.Peer, s.info.Addrs, peerstore.PermanentAddrTTL)
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		err := h.Host.Connect(ctx, s.info)
		cancel()
		if err != nil {
			return err
		}
	}
	return nil
}

// sessionsOf returns the session ids in what arrived since, per protocol, and which puppets saw each protocol.
func wrappedSession(f []byte) string {
	var w messages.WrappedMessage
	if f == nil || json.Unmarshal(f, &w) != nil {
		return ""
	}
	return w.MsgID
}
