package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/libp2p/go-libp2p-core/network"

	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { register("C16", checkC16) }

// countStream records resets; onReset, if set, runs inside the first one.
type countStream struct {
	network.Stream
	resets  *int64 // outside the object so that the object can be collected
	gone    *int64
	onReset func()
	err     error
	pad     [64]byte
}

func (s *countStream) Reset() error {
	if atomic.AddInt64(s.resets, 1) == 1 && s.onReset != nil {
		s.onReset()
	}
	return s.err
}
func (s *countStream) Close() error      { return nil }
func (s *countStream) CloseRead() error  { return nil }
func (s *countStream) CloseWrite() error { return nil }

type resetErr struct{}

func (resetErr) Error() string { return "reset failed" }

func newCount(withFinalizer bool) (*countStream, *int64, *int64) {
	var a, b int64
	s := &countStream{resets: &a, gone: &b}
	if withFinalizer {
		runtime.SetFinalizer(s, func(x *countStream) { atomic.StoreInt64(x.gone, 1) })
	}
	return s, &a, &b
}

type tracked struct {
	sess   string
	resets *int64
	gone   *int64
	due    int64 // resets expected so far by the model
}

func checkC16(c *Ctx) {
	c.Rule = "random sequences and concurrent histories of recording streams and releasing sessions (incl. the unattributable class, failing resets, streams recorded while a release is resetting); non-trivial = at least one stream was recorded and one session released"
	unknown := "UNKNOWN"
	// 1. sequential histories against a reference model
	c.Parallel(c.N(3000, 40000), 0, func(i int) {
		r := c.Rand("seq", i)
		sm := p2p.NewStreamMgr()
		nSess := 1 + r.Intn(5)
		var all []*tracked
		live := map[string][]*tracked{}
		ops := 3 + r.Intn(40)
		desc := ""
		rel := 0
		release := func(s string) {
			for _, t := range live[s] {
				t.due++
			}
			delete(live, s)
			for _, t := range live[unknown] {
				t.due++
			}
			delete(live, unknown)
			sm.ReleaseStream(s)
			rel++
			desc += " release(" + s + ")"
		}
		bad := c.Guard("C16", "sequential", func() {
			for k := 0; k < ops; k++ {
				s := fmt.Sprintf("m%d", r.Intn(nSess))
				switch x := r.Intn(10); {
				case x < 5:
					st, a, b := newCount(false)
					if r.Intn(6) == 0 {
						st.err = resetErr{}
					}
					t := &tracked{sess: s, resets: a, gone: b}
					all = append(all, t)
					live[s] = append(live[s], t)
					sm.AddStream(s, st)
					desc += " add(" + s + ")"
				case x < 6:
					st, a, b := newCount(false)
					t := &tracked{sess: unknown, resets: a, gone: b}
					all = append(all, t)
					live[unknown] = append(live[unknown], t)
					sm.AddStream(unknown, st)
					desc += " add(?)"
				case x < 7:
					sm.AddStream(s, nil)
				default:
					release(s)
				}
				for _, t := range all {
					if got := atomic.LoadInt64(t.resets); got != t.due {
						kind := "not-reset"
						if got > t.due {
							kind = "reset-too-early-or-again"
						}
						if t.sess == unknown {
							kind = "unknown-" + kind
						}
						c.Violate(kind, "stream of %s reset %d times, want %d, after:%s", t.sess, got, t.due, desc)
						return
					}
				}
			}
			for k := 0; k < nSess; k++ {
				release(fmt.Sprintf("m%d", k))
			}
			for _, t := range all {
				if got := atomic.LoadInt64(t.resets); got != 1 {
					c.Violate("final-resets", "stream of %s reset %d times in total:%s", t.sess, got, desc)
					return
				}
			}
		})
		if bad {
			return
		}
		c.Count("streams", len(all))
		c.Count("releases", rel)
		c.Sample("sequence", "%s", desc)
		c.Case(desc, len(all) > 0 && rel > 0)
	})
	// 2. nothing is retained: released streams become garbage while the manager lives on
	for i := 0; i < c.N(20, 200); i++ {
		r := c.Rand("gc", i)
		sm := p2p.NewStreamMgr()
		var gone []*int64
		var keep []*int64
		n := 5 + r.Intn(50)
		func() {
			for k := 0; k < n; k++ {
				st, _, g := newCount(true)
				switch r.Intn(3) {
				case 0:
					sm.AddStream("a", st)
					gone = append(gone, g)
				case 1:
					sm.AddStream(unknown, st)
					gone = append(gone, g)
				default:
					sm.AddStream("kept", st)
					keep = append(keep, g)
				}
			}
			sm.ReleaseStream("a")
		}()
		left := 0
		for try := 0; try < 40; try++ {
			runtime.GC()
			time.Sleep(time.Millisecond)
			left = 0
			for _, g := range gone {
				if atomic.LoadInt64(g) == 0 {
					left++
				}
			}
			if left <= 1 { // a stale stack slot may keep one alive
				break
			}
		}
		if left > 1 {
			c.Violate("retained", "%d of %d released streams are still held by the manager", left, len(gone))
		}
		for _, g := range keep {
			if atomic.LoadInt64(g) == 1 {
				c.Violate("kept-stream-dropped", "a stream of a session that was not released was forgotten")
				break
			}
		}
		runtime.KeepAlive(sm)
		c.Count("gc-observed", len(gone))
		c.Case(fmt.Sprintf("gc%d", i), true)
	}
	// 3. a stream recorded while a release of its session is resetting others is not lost
	for i := 0; i < c.N(150, 1500); i++ {
		r := c.Rand("during", i)
		sm := p2p.NewStreamMgr()
		late, lateResets, _ := newCount(false)
		other, otherResets, _ := newCount(false)
		sess := "s"
		lateSess := []string{"s", unknown, "t"}[r.Intn(3)]
		added := make(chan struct{})
		n := 1 + r.Intn(5)
		at := r.Intn(n)
		var rs []*int64
		for k := 0; k < n; k++ {
			st, a, _ := newCount(false)
			rs = append(rs, a)
			if k == at {
				st.onReset = func() {
					go func() { defer close(added); sm.AddStream(lateSess, late) }()
					select { // the manager may legitimately hold its lock here
					case <-added:
					case <-time.After(20 * time.Millisecond):
					}
				}
			}
			sm.AddStream(sess, st)
		}
		sm.AddStream("t", other)
		c.Guard("C16", "during", func() {
			sm.ReleaseStream(sess)
			<-added
			if atomic.LoadInt64(otherResets) != 0 {
				c.Violate("other-session-reset", "releasing %s reset a stream of another session", sess)
			}
			sm.ReleaseStream(sess)
			sm.ReleaseStream("t")
			if got := atomic.LoadInt64(lateResets); got != 1 {
				c.Violate("lost-during-release", "a stream recorded for %q while a release of %q was resetting stream %d/%d was reset %d times after both sessions were released again", lateSess, sess, at+1, n, got)
			}
			for _, a := range rs {
				if got := atomic.LoadInt64(a); got != 1 {
					c.Violate("final-resets", "a stream was reset %d times", got)
				}
			}
		})
		c.Count("late-adds", 1)
		c.Case(fmt.Sprintf("during%d", i), true)
	}
	// 4. concurrent histories: conservation after everything was released
	for i := 0; i < c.N(60, 600); i++ {
		sm := p2p.NewStreamMgr()
		const workers = 8
		var wg sync.WaitGroup
		resets := make([][]*int64, workers)
		slow := i%3 == 0
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				r := c.Rand("conc", i*100+w)
				for k := 0; k < 120; k++ {
					s := fmt.Sprintf("m%d", r.Intn(4))
					if r.Intn(12) == 0 {
						s = unknown
					}
					if r.Intn(4) > 0 {
						st, a, _ := newCount(false)
						if slow && r.Intn(10) == 0 {
							st.onReset = func() { time.Sleep(50 * time.Microsecond) }
						} else if r.Intn(5) == 0 {
							st.onReset = runtime.Gosched
						}
						resets[w] = append(resets[w], a)
						sm.AddStream(s, st)
					} else if s != unknown {
						sm.ReleaseStream(s)
					}
				}
			}(w)
		}
		if !Within(time.Minute, wg.Wait) {
			c.Violate("blocked", "concurrent recording and releasing did not finish within a minute\n%s", allStacks())
			return
		}
		for k := 0; k < 4; k++ {
			sm.ReleaseStream(fmt.Sprintf("m%d", k))
		}
		for w := range resets {
			for _, a := range resets[w] {
				if got := atomic.LoadInt64(a); got != 1 {
					kind := "lost-concurrent"
					if got > 1 {
						kind = "reset-twice-concurrent"
					}
					c.Violate(kind, "after a concurrent history and a final release of every session a stream was reset %d times", got)
				}
			}
			c.Count("concurrent-streams", len(resets[w]))
		}
		c.Case(fmt.Sprintf("conc%d", i), true)
	}
	c.Require("streams", 1000)
	c.Require("late-adds", 10)
}
