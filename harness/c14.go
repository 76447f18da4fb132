package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/network"

	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { register("C14", checkC14) }

// fragStream is a network.Stream over a byte buffer that fragments, delays nothing, and fails where told to.
type fragStream struct {
	network.Stream // only the methods below may be called
	mu             sync.Mutex
	in             []byte // what the peer sent
	pos            int
	mode           int // fragmentation mode
	r              *rand.Rand
	endErr         error // what the transport reports once in is exhausted
	eofWithData    bool
	out            bytes.Buffer
	writeLimit     int // <0: none; otherwise the transport fails after that many bytes
	writeErr       error
	shortWrites    bool
	dlErr          error
	resets         int
}

func (f *fragStream) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.pos >= len(f.in) {
		return 0, f.endErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(f.in) - f.pos
	switch f.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + f.r.Intn(7)
	case 3:
		n = 1 + f.r.Intn(5000)
	case 4:
		if f.r.Intn(3) == 0 {
			return 0, nil // legal: no progress, no error
		}
		n = 1 + f.r.Intn(64)
	case 5: // header split from body
		if f.pos < 4 {
			n = 4 - f.pos
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(f.in)-f.pos {
		n = len(f.in) - f.pos
	}
	copy(p, f.in[f.pos:f.pos+n])
	f.pos += n
	if f.eofWithData && f.pos >= len(f.in) {
		return n, f.endErr
	}
	return n, nil
}

func (f *fragStream) Write(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := len(p)
	if f.writeLimit >= 0 && f.out.Len()+n > f.writeLimit {
		n = f.writeLimit - f.out.Len()
		f.out.Write(p[:n])
		return n, f.writeErr
	}
	f.out.Write(p)
	return n, nil
}

func (f *fragStream) Close() error                       { return nil }
func (f *fragStream) CloseRead() error                   { return nil }
func (f *fragStream) CloseWrite() error                  { return nil }
func (f *fragStream) Reset() error                       { f.mu.Lock(); f.resets++; f.mu.Unlock(); return nil }
func (f *fragStream) SetDeadline(t time.Time) error      { return f.dlErr }
func (f *fragStream) SetReadDeadline(t time.Time) error  { return f.dlErr }
func (f *fragStream) SetWriteDeadline(t time.Time) error { return f.dlErr }

func newFrag(r *rand.Rand, in []byte, mode int) *fragStream {
	return &fragStream{in: in, mode: mode, r: r, endErr: io.EOF, writeLimit: -1}
}

func frame(p []byte) []byte {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(p)))
	return append(h, p...)
}

const maxFrame = 20000000

func checkC14(c *Ctx) {
	c.Rule = "payload sizes at and around buffer and limit boundaries and random, six fragmentation modes, truncation at every byte of small frames and at random points of large ones, transport errors, hostile length headers; non-trivial = payload or header bytes were exchanged"
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 127, 128, 255, 256, 257, 1000, 4091, 4092, 4093, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100000}
	for i := 0; i < c.N(150, 1500); i++ {
		r := c.Rand("size", i)
		sizes = append(sizes, r.Intn(1<<uint(1+r.Intn(18))))
	}
	p2p.ApplyDeadline = true
	roundtrip := func(i, size, mode int, eofData bool) {
		r := c.Rand("rt", i*17+mode)
		p := randBytes(r, size)
		if r.Intn(8) == 0 {
			for k := range p {
				p[k] = byte(r.Intn(2)) // runs of zeroes and ones
			}
		}
		desc := fmt.Sprintf("size=%d mode=%d eofWithData=%v", size, mode, eofData)
		c.Guard("C14", desc, func() {
			w := newFrag(r, nil, 0)
			orig := append([]byte{}, p...)
			if err := p2p.WriteStreamWithBuffer(p, w); err != nil {
				c.Violate("write-refused", "%s: %v", desc, err)
				return
			}
			if !bytes.Equal(p, orig) {
				c.Violate("payload-mutated", "%s: the caller's payload changed", desc)
			}
			wire := append([]byte{}, w.out.Bytes()...)
			trailing := 0
			if r.Intn(4) == 0 { // bytes after the frame belong to nobody
				trailing = 1 + r.Intn(20)
				wire = append(wire, randBytes(r, trailing)...)
			}
			s := newFrag(r, wire, mode)
			s.eofWithData = eofData
			if r.Intn(3) == 0 {
				s.endErr = errors.New("stream reset")
			}
			got, err := p2p.ReadStreamWithBuffer(s)
			if err != nil {
				c.Violate("read-failed", "%s trailing=%d: %v", desc, trailing, err)
				return
			}
			if !bytes.Equal(got, orig) {
				c.Violate("payload-changed", "%s trailing=%d: wrote %d bytes %s, read %d bytes %s", desc, trailing, len(orig), hexs(orig), len(got), hexs(got))
			}
			c.Count("round-trips", 1)
			c.Sample("round-trip", "%s trailing=%d ok", desc, trailing)
		})
		c.Case(desc+hexs(p), true)
	}
	c.Parallel(len(sizes), 0, func(i int) {
		for mode := 0; mode <= 5; mode++ {
			if sizes[i] > 20000 && (mode == 1 || mode == 4 || mode == 2) && i%4 != 0 {
				continue
			}
			roundtrip(i, sizes[i], mode, (i+mode)%2 == 0)
		}
	})
	big := []int{1 << 20, maxFrame - 1, maxFrame}
	c.Parallel(len(big), 3, func(i int) { roundtrip(100000+i, big[i], []int{0, 3, 5}[i%3], i%2 == 0) })
	// both deadline modes
	p2p.ApplyDeadline = false
	for i := 0; i < 10; i++ {
		roundtrip(200000+i, i*997, i%6, i%2 == 0)
	}
	p2p.ApplyDeadline = true

	// truncation: every prefix of small frames, random prefixes of larger ones
	expectErr := func(kind string, s *fragStream, desc string) {
		c.Guard("C14", desc, func() {
			got, err := p2p.ReadStreamWithBuffer(s)
			if err == nil {
				c.Violate(kind, "%s: accepted, returned %d bytes %s", desc, len(got), hexs(got))
			}
			c.Count(kind+"-refused", 1)
		})
		c.Case(desc, true)
	}
	for _, size := range []int{0, 1, 2, 5, 17, 300} {
		r := c.Rand("trunc", size)
		f := frame(randBytes(r, size))
		for cut := 0; cut < len(f); cut++ {
			for _, mode := range []int{0, 1, 2, 5} {
				s := newFrag(r, f[:cut], mode)
				s.eofWithData = (cut+mode)%2 == 0
				switch cut % 3 {
				case 1:
					s.endErr = errors.New("stream reset")
				case 2:
					s.endErr = io.ErrUnexpectedEOF
				}
				expectErr("truncated", s, fmt.Sprintf("truncated size=%d cut=%d mode=%d", size, cut, mode))
			}
		}
	}
	for i := 0; i < c.N(150, 1500); i++ {
		r := c.Rand("trunc2", i)
		size := 1 + r.Intn(1<<uint(3+r.Intn(16)))
		f := frame(randBytes(r, size))
		cut := r.Intn(len(f))
		if r.Intn(3) == 0 {
			cut = len(f) - 1
		}
		s := newFrag(r, f[:cut], []int{0, 2, 3, 5}[r.Intn(4)])
		s.eofWithData = r.Intn(2) == 0
		if r.Intn(2) == 0 {
			s.endErr = errors.New("i/o deadline reached")
		}
		expectErr("truncated", s, fmt.Sprintf("truncated size=%d cut=%d", size, cut))
	}
	// oversized announcements, with and without the bytes to back them
	for i, l := range []uint32{maxFrame + 1, maxFrame + 2, maxFrame * 2, 1 << 25, 1<<31 - 1, 1 << 31, 1<<31 + 1, 0xfffffffe, 0xffffffff} {
		r := c.Rand("over", i)
		h := make([]byte, 4)
		binary.LittleEndian.PutUint32(h, l)
		expectErr("oversized", newFrag(r, h, 0), fmt.Sprintf("announced=%d no body", l))
		expectErr("oversized", newFrag(r, append(h, randBytes(r, 100)...), 3), fmt.Sprintf("announced=%d short body", l))
		if l < 1<<25 {
			expectErr("oversized", newFrag(r, append(h, make([]byte, l)...), 0), fmt.Sprintf("announced=%d full body", l))
		}
	}
	// a payload above the limit must not get through end to end
	for _, extra := range []int{1, 2, 1000} {
		c.Guard("C14", "oversized write", func() {
			w := newFrag(c.Rand("ow", extra), nil, 0)
			if err := p2p.WriteStreamWithBuffer(make([]byte, maxFrame+extra), w); err != nil {
				c.Count("oversized-write-refused", 1)
				return
			}
			if got, err := p2p.ReadStreamWithBuffer(newFrag(c.Rand("ow", extra), w.out.Bytes(), 0)); err == nil {
				c.Violate("oversized", "a payload of limit+%d was delivered as %d bytes", extra, len(got))
			}
		})
		c.Case(fmt.Sprintf("ow%d", extra), true)
	}
	// write side transport failures: an error, never silent loss
	for i := 0; i < c.N(400, 4000); i++ {
		r := c.Rand("werr", i)
		size := r.Intn(1 << uint(1+r.Intn(15)))
		limit := r.Intn(size + 4)
		s := newFrag(r, nil, 0)
		s.writeLimit, s.writeErr = limit, errors.New("broken pipe")
		desc := fmt.Sprintf("write size=%d fails after %d err=%v", size, limit, s.writeErr)
		c.Guard("C14", desc, func() {
			err := p2p.WriteStreamWithBuffer(randBytes(r, size), s)
			if err == nil {
				c.Violate("write-loss", "%s: reported success with %d of %d bytes sent", desc, s.out.Len(), size+4)
			}
			c.Count("write-failures", 1)
		})
		c.Case(desc, true)
	}
	// a transport that cannot set deadlines
	for i := 0; i < 6; i++ {
		r := c.Rand("dl", i)
		s := newFrag(r, frame(randBytes(r, 10)), 0)
		s.dlErr = errors.New("closed")
		c.Guard("C14", "deadline error", func() {
			if _, err := p2p.ReadStreamWithBuffer(s); err == nil {
				c.Violate("transport-error-hidden", "read succeeded on a stream whose deadline could not be set")
			}
			w := newFrag(r, nil, 0)
			w.dlErr = errors.New("closed")
			if err := p2p.WriteStreamWithBuffer(randBytes(r, 10), w); err == nil {
				c.Violate("transport-error-hidden", "write succeeded on a stream whose deadline could not be set")
			}
		})
		c.Case(fmt.Sprintf("dl%d", i), true)
	}
	// many streams at once never mix
	nStreams := c.N(400, 4000)
	c.Parallel(nStreams, 32, func(i int) {
		r := c.Rand("mix", i)
		p := []byte(fmt.Sprintf("stream-%d-", i))
		p = append(p, bytes.Repeat([]byte{byte(i), byte(i >> 8)}, r.Intn(4000))...)
		pr, pw := io.Pipe()
		ws := &pipeStream{w: pw}
		rs := &pipeStream{r: pr}
		c.Guard("C14", "concurrent streams", func() {
			errc := make(chan error, 1)
			go func() { errc <- p2p.WriteStreamWithBuffer(p, ws); pw.Close() }()
			got, err := p2p.ReadStreamWithBuffer(rs)
			pr.Close()
			werr := <-errc
			if err != nil || werr != nil {
				c.Violate("read-failed", "concurrent stream %d: read %v write %v", i, err, werr)
			} else if !bytes.Equal(got, p) {
				c.Violate("payload-changed", "concurrent stream %d: got %s", i, hexs(got))
			}
		})
		c.Count("concurrent-streams", 1)
		c.Case(fmt.Sprintf("mix%d", i), true)
	})
	c.Require("round-trips", 300)
	c.Require("truncated-refused", 300)
}

type pipeStream struct {
	network.Stream
	r *io.PipeReader
	w *io.PipeWriter
}

func (p *pipeStream) Read(b []byte) (int, error)         { return p.r.Read(b) }
func (p *pipeStream) Write(b []byte) (int, error)        { return p.w.Write(b) }
func (p *pipeStream) Close() error                       { return nil }
func (p *pipeStream) CloseWrite() error                  { return nil }
func (p *pipeStream) CloseRead() error                   { return nil }
func (p *pipeStream) Reset() error                       { return nil }
func (p *pipeStream) SetDeadline(t time.Time) error      { return nil }
func (p *pipeStream) SetReadDeadline(t time.Time) error  { return nil }
func (p *pipeStream) SetWriteDeadline(t time.Time) error { return nil }
