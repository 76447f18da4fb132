package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gitlab.com/thorchain/tss/go-tss/storage"
)

func init() {
	register("C23", checkC23)
	auxCmds["c23"] = c23Workload
}

// workload23 is a concurrent workload of one of the labs; what their own oracles say is not this check's business.
type workload23 struct {
	name   string
	run    func(c *Ctx, i int)
	par    int // scenarios at a time in one process
	shards int // processes
	weight int // of the time, in halves
}

func ceremony23(kg bool) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		r := c.Rand("race", i)
		n := 2 + r.Intn(3)
		nodes := randNodes(r, n)
		cr := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint("c23", r.Int63())), Timeout: 60 * time.Second}
		if kg {
			if !cr.RunKeygen(c, func(int) []string { return bechs(nodes) }) {
				return
			}
		} else {
			pool := dealKey(r, nodes, thresholdOf(n))
			var msgs [][]byte
			for k := 1 + r.Intn(3); k > 0; k-- {
				msgs = append(msgs, randBytes(r, 32))
			}
			if !cr.RunKeysign(c, pool, msgs, func(int) []string { return bechs(nodes) }) {
				return
			}
		}
		for i := range nodes {
			if cr.Res[i].Err == nil {
				c.Count("ceremonies concluded", 1)
			}
		}
	}
}

// content23 is a ceremony with a share of odd content, which fails in most cases.
func content23(c *Ctx, i int) {
	r := c.Rand("odd content", i)
	all := cases22(r, 0)
	for _, k := range all {
		k.Late = i%2 == 0
		if strings.HasPrefix(k.run(c), "changed") {
			c.Count("faulty ceremonies", 1)
			return
		}
	}
}

// silence23 is a ceremony in which a participant falls silent.
func silence23(c *Ctx, i int) {
	r := c.Rand("silence", i)
	n := 3 + r.Intn(2)
	nodes := randNodes(r, n)
	cr := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint("c23s", r.Int63())), Timeout: time.Duration(3+r.Intn(5)) * time.Second}
	kg := r.Intn(3) == 0
	after := r.Intn(3)
	s := &silencer{from: map[int]int{r.Intn(n): after}}
	cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
		if s.drop(cr, e) {
			return nil
		}
		return []cerDelivery{{To: to, From: e.From, Payload: p}}
	}
	if kg {
		cr.RunKeygen(c, func(int) []string { return bechs(nodes) })
	} else {
		pool := dealKey(r, nodes, thresholdOf(n))
		cr.RunKeysign(c, pool, [][]byte{randBytes(r, 32), randBytes(r, 32)}, func(int) []string { return bechs(nodes) })
	}
}

// storage23 is one node's store used by several sessions at a time.
func storage23(c *Ctx, i int) {
	r := c.Rand("store", i)
	mgr, err := storage.NewFileStateMgr(c.ScratchDir("store" + strconv.Itoa(i)))
	if err != nil {
		return
	}
	n := 2 + r.Intn(2)
	nodes := randNodes(r, n)
	pools := []*Pool{dealKey(r, nodes, thresholdOf(n)), dealKey(r, nodes, thresholdOf(n))}
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for q := 0; q < 12; q++ {
				p := pools[rr.Intn(2)]
				switch rr.Intn(4) {
				case 0:
					_ = mgr.SaveLocalState(p.State[rr.Intn(n)])
				case 1:
					_, _ = mgr.GetLocalState(p.Bech)
				case 2:
					b, _ := randBook(rr)
					_ = mgr.SaveAddressBook(b)
				case 3:
					_, _ = mgr.RetrieveP2PAddresses()
				}
			}
		}()
	}
	wg.Wait()
}

var workloads23 = map[string]workload23{
	"keygen":     {run: ceremony23(true), par: 1, shards: 1, weight: 2},
	"keysign":    {run: ceremony23(false), par: 2, shards: 1, weight: 2},
	"content":    {run: content23, par: 2, shards: 1, weight: 3},
	"silence":    {run: silence23, par: 2, shards: 1, weight: 2},
	"shares":     {run: func(c *Ctx, i int) { shareScenario(c, i, []string{"C03", "C04", "C05"}[i%3]) }, par: 8, shards: 1, weight: 2},
	"replay":     {run: replayScenario, par: 8, shards: 1, weight: 2},
	"emission":   {run: emitScenario, par: 8, shards: 1, weight: 1},
	"blame":      {run: blameScenario, par: 3, shards: 1, weight: 2},
	"leaderless": {run: leaderlessScenario, par: 12, shards: 1, weight: 2},
	"leader":     {run: leaderScenario, par: 12, shards: 1, weight: 2},
	"routing":    {run: routeScenario, par: 8, shards: 1, weight: 2},
	"waiting":    {run: waitScenario, par: 8, shards: 1, weight: 2},
	"hostile":    {run: hostileScenario, par: 1, shards: 1, weight: 3},
	"sessions":   {run: sessionGroup, par: 2, shards: 1, weight: 2},
	"metrics":    {run: metricAlone, par: 8, shards: 1, weight: 1},
	"counters":   {run: counterGroup, par: 1, shards: 1, weight: 2},
	"bounds":     {run: boundScenario, par: 1, shards: 1, weight: 2},
	"storage":    {run: storage23, par: 2, shards: 1, weight: 1},
	"objects":    {run: objects23, par: 2, shards: 1, weight: 1},
	"versions":   {run: versionGroup, par: 1, shards: 1, weight: 2},
}

func workloadNames() []string {
	var out []string
	for k := range workloads23 {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// c23Workload runs one workload for the given time.
func c23Workload(args []string) {
	w, ok := workloads23[args[0]]
	if !ok {
		os.Exit(2)
	}
	sec, _ := strconv.Atoi(args[1])
	first, _ := strconv.Atoi(args[2])
	c := newCtx("C23", seed(), false)
	watched23 = true
	c.Scratch = os.Getenv("VERIF_SCRATCH")
	end := time.Now().Add(time.Duration(sec) * time.Second)
	var mu sync.Mutex
	next := first
	n := 0
	var wg sync.WaitGroup
	for k := 0; k < w.par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if n > 0 && time.Now().After(end) {
					mu.Unlock()
					return
				}
				i := next
				next++
				n++
				mu.Unlock()
				w.run(c, i)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select { // whatever is still under way then has had its time
	case <-done:
	case <-time.After(time.Until(end.Add(120 * time.Second))):
	}
	mu.Lock()
	defer mu.Unlock()
	fmt.Printf("RESULT scenarios=%d violated=%v\n", n, c.Violated())
	os.Exit(0)
}

// raceReport is what the race detector said about one pair of accesses.
type raceReport struct {
	text  string
	sides [2]string // what accessed: the first function of the code under test (or of the harness) on each stack
}

var accessRe = regexp.MustCompile(`^(Write|Read|Previous write|Previous read|Atomic write|Atomic read|Previous atomic write|Previous atomic read) at `)

// frameOfSide finds the function that is responsible for an access.
func sideOf(block string) string {
	for _, l := range strings.Split(block, "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, sutPrefix) && !strings.HasPrefix(l, "main.") {
			continue
		}
		if p := strings.LastIndex(l, "("); p > 0 {
			l = l[:p]
		}
		return l
	}
	return ""
}

func parseRaces(log string) []raceReport {
	var out []raceReport
	for _, part := range strings.Split(log, "==================") {
		if !strings.Contains(part, "WARNING: DATA RACE") {
			continue
		}
		rep := raceReport{text: strings.TrimSpace(part)}
		k := 0
		body := part[strings.Index(part, "WARNING: DATA RACE")+len("WARNING: DATA RACE"):]
		for _, blk := range strings.Split(body, "\n\n") {
			b := strings.TrimSpace(blk)
			if accessRe.MatchString(b) && k < 2 {
				rep.sides[k] = sideOf(b)
				k++
			}
		}
		out = append(out, rep)
	}
	return out
}

// inCode tells whether both accesses are of the code under test.
func (r raceReport) inCode() bool {
	return strings.HasPrefix(r.sides[0], sutPrefix) && strings.HasPrefix(r.sides[1], sutPrefix)
}

func (r raceReport) key() string {
	a, b := strings.TrimPrefix(r.sides[0], sutPrefix), strings.TrimPrefix(r.sides[1], sutPrefix)
	if b < a {
		a, b = b, a
	}
	return strings.ReplaceAll("race:"+a+"|"+b, " ", "")
}

func checkC23(c *Ctx) {
	c.Rule = "one evaluation: one scenario of another lab (ceremonies, hostile exchanges, party forming, signature waits, routing, complete nodes) in a process built with the race detector; non-trivial = the process ran it to the end. A report counts when both accesses are made by functions of go-tss"
	c.Assume("the detector sees only pairs of accesses that a run makes without an ordering between them; schedules vary by chance and by the labs' injected delays")
	sec := c.N(50, 1200)
	names := workloadNames()
	if only := os.Getenv("VERIF_C23"); only != "" {
		names = strings.Fields(only)
	}
	var mu sync.Mutex
	others := map[string]int{}
	c.Parallel(len(names), 4, func(k int) {
		name := names[k]
		w := workloads23[name]
		for s := 0; s < w.shards; s++ {
			dir := c.ScratchDir("race-" + name)
			self, _ := os.Executable()
			sec := sec * w.weight / 2
			cmd := exec.Command(self, "aux", "c23", name, strconv.Itoa(sec), strconv.Itoa(s*100000))
			cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+dir, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
			var b []byte
			var err error
			if !Within(time.Duration(sec+240)*time.Second, func() { b, err = cmd.CombinedOutput() }) {
				if cmd.Process != nil {
					_ = cmd.Process.Kill()
				}
				c.Inconclusive("workload %s does not end", name)
				return
			}
			logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
			n := 0
			for _, l := range logs {
				t, _ := ioutil.ReadFile(l)
				for _, rep := range parseRaces(string(t)) {
					n++
					if rep.inCode() {
						c.Violate(rep.key(), "workload %s:\n%s", name, rep.text)
					} else {
						mu.Lock()
						others[rep.key()]++
						mu.Unlock()
						if os.Getenv("VERIF_DEBUG") != "" {
							fmt.Println(rep.text)
						}
					}
				}
			}
			out := string(b)
			j := strings.LastIndex(out, "RESULT scenarios=")
			if j < 0 {
				if kind, fn, ex := crashOf(out); strings.Contains(kind, "concurrent map") && fn != "" {
					c.Violate("concurrent-map:"+fn, "workload %s: %s", name, ex)
					return
				}
				if c.Violated() {
					return
				}
				c.Inconclusive("workload %s ended with %v: %.3000s", name, err, out)
				return
			}
			var cnt int
			fmt.Sscanf(out[j:], "RESULT scenarios=%d", &cnt)
			c.Count("scenarios", cnt)
			c.Count("scenarios of "+name, cnt)
			c.Count("reports of the detector", n)
			for q := 0; q < cnt; q++ {
				c.Case(fmt.Sprintf("%s %d %d %d", name, s, q, c.Seed), true)
			}
			c.Sample("workload", "%s: %s", name, strings.TrimSpace(out[j:]))
		}
	})
	for k, n := range others {
		c.Sample("report that is not of go-tss alone", "%d times %s", n, k)
	}
	c.Require("scenarios", int64(10*len(names)/2))
}
