package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/multiformats/go-multiaddr"
)

// ---------- real libp2p hosts on loopback, with a recording and fault injecting layer around them ----------

// arrival is one stream a host's handler served.
type arrival struct {
	To, From int // host indices
	Proto    protocol.ID
	Opened   time.Time // the handler was entered
	Closed   time.Time // the handler returned (zero: it has not)
	Data     []byte    // what the handler read
}

// frame is the first frame of the data, nil if it is not complete.
func (a *arrival) frame() []byte {
	if len(a.Data) < 4 {
		return nil
	}
	n := int(binary.LittleEndian.Uint32(a.Data))
	if len(a.Data) < 4+n {
		return nil
	}
	return a.Data[4 : 4+n]
}

type netLab struct {
	mu       sync.Mutex
	hosts    []*netHost
	idx      map[peer.ID]int
	arrivals []*arrival
	opened   map[protocol.ID]int
	// link decides about a stream from host i to host j: an error refuses it, the delay postpones it.
	link func(i, j int) (time.Duration, error)
	// chop, if set, is the largest piece a Write puts on the wire at once.
	chop int
}

type netHost struct {
	host.Host
	lab *netLab
	i   int
	nd  *Node
}

var errCut = errors.New("verif: the link is cut")

func newNetLab(nodes []*Node) *netLab {
	l := &netLab{idx: map[peer.ID]int{}, opened: map[protocol.ID]int{}}
	for _, n := range nodes {
		l.add(n)
	}
	return l
}

// add starts a host for the node and makes it and the other hosts know each other.
func (l *netLab) add(n *Node) *netHost {
	addr, err := multiaddr.NewMultiaddr("/ip4/127.0.0.1/tcp/0")
	if err != nil {
		panic(err)
	}
	var h host.Host
	for try := 0; ; try++ {
		h, err = libp2p.New(context.Background(), libp2p.ListenAddrs(addr), libp2p.Identity(n.LibKey))
		if err == nil {
			break
		}
		if try == 5 {
			panic(fmt.Sprintf("cannot start a host on loopback: %v", err))
		}
		time.Sleep(100 * time.Millisecond)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	nh := &netHost{Host: h, lab: l, i: len(l.hosts), nd: n}
	for _, o := range l.hosts {
		o.Host.Peerstore().AddAddrs(h.ID(), h.Addrs(), peerstore.PermanentAddrTTL)
		h.Peerstore().AddAddrs(o.Host.ID(), o.Host.Addrs(), peerstore.PermanentAddrTTL)
	}
	l.hosts = append(l.hosts, nh)
	l.idx[h.ID()] = nh.i
	return nh
}

func (l *netLab) close() {
	for _, h := range l.hosts {
		_ = h.Host.Close()
	}
}

func (l *netLab) index(p peer.ID) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	if i, ok := l.idx[p]; ok {
		return i
	}
	return -1
}

// seen returns a copy of what arrived.
func (l *netLab) seen() []arrival {
	l.mu.Lock()
	defer l.mu.Unlock()
	out := make([]arrival, 0, len(l.arrivals))
	for _, a := range l.arrivals {
		out = append(out, *a)
	}
	return out
}

type recStream struct {
	network.Stream
	lab *netLab
	a   *arrival
}

func (s *recStream) Read(p []byte) (int, error) {
	n, err := s.Stream.Read(p)
	s.lab.mu.Lock()
	s.a.Data = append(s.a.Data, p[:n]...)
	s.lab.mu.Unlock()
	return n, err
}

func (h *netHost) SetStreamHandler(pid protocol.ID, f network.StreamHandler) {
	h.Host.SetStreamHandler(pid, func(s network.Stream) {
		l := h.lab
		a := &arrival{To: h.i, From: l.index(s.Conn().RemotePeer()), Proto: pid, Opened: time.Now()}
		l.mu.Lock()
		l.arrivals = append(l.arrivals, a)
		l.mu.Unlock()
		f(&recStream{Stream: s, lab: l, a: a})
		l.mu.Lock()
		a.Closed = time.Now()
		l.mu.Unlock()
	})
}

func (h *netHost) NewStream(ctx context.Context, p peer.ID, pids ...protocol.ID) (network.Stream, error) {
	l := h.lab
	if l.link != nil {
		d, err := l.link(h.i, l.index(p))
		if d > 0 {
			select {
			case <-time.After(d):
			case <-ctx.Done():
				return nil, ctx.Err()
			}
		}
		if err != nil {
			return nil, err
		}
	}
	s, err := h.Host.NewStream(ctx, p, pids...)
	if err != nil {
		return nil, err
	}
	l.mu.Lock()
	for _, pid := range pids {
		l.opened[pid]++
	}
	l.mu.Unlock()
	if l.chop > 0 {
		return &chopStream{Stream: s, n: l.chop}, nil
	}
	return s, nil
}

// chopStream puts what is written on the wire in pieces.
type chopStream struct {
	network.Stream
	n int
}

func (s *chopStream) Write(p []byte) (int, error) {
	t := 0
	for t < len(p) {
		e := minInt(t+s.n, len(p))
		n, err := s.Stream.Write(p[t:e])
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

// frameOf is the wire format of one payload.
func frameOf(b []byte) []byte {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

// rawSend opens a stream to the peer, writes the bytes and, if wait is set, reads until the peer ends or the time is up.
func rawSend(from host.Host, to peer.ID, pid protocol.ID, data []byte, wait time.Duration) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	s, err := from.NewStream(ctx, to, pid)
	if err != nil {
		return nil, err
	}
	_ = s.SetWriteDeadline(time.Now().Add(5 * time.Second))
	if _, err := s.Write(data); err != nil {
		_ = s.Reset()
		return nil, err
	}
	var out []byte
	if wait > 0 {
		_ = s.SetReadDeadline(time.Now().Add(wait))
		buf := make([]byte, 256)
		for {
			n, err := s.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil || len(out) >= 8 {
				break
			}
		}
	}
	_ = s.Close()
	return out, nil
}

func peerIDs(ns []*Node) []string {
	var out []string
	for _, n := range ns {
		out = append(out, n.Peer.String())
	}
	return out
}

func shuffledNodes(r *rand.Rand, ns []*Node) []*Node {
	out := append([]*Node{}, ns...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}
