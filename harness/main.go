// Command harness runs the runtime monitors of /verif against the go-tss tree it was built from.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	golog "github.com/ipfs/go-log"
	"github.com/rs/zerolog"
)

type check struct {
	run func(*Ctx)
}

var checks = map[string]check{}

func register(id string, f func(*Ctx)) { checks[id] = check{run: f} }

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness check|child <ID>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(os.Args[2]))
	case "child":
		child(os.Args[2])
	case "aux":
		aux(os.Args[2], os.Args[3:])
	default:
		os.Exit(2)
	}
}

var auxCmds = map[string]func(args []string){}

func aux(name string, args []string) {
	f, ok := auxCmds[name]
	if !ok {
		os.Exit(2)
	}
	quietLogs()
	f(args)
}

func quietLogs() {
	if os.Getenv("VERIF_VERBOSE") == "" {
		zerolog.SetGlobalLevel(zerolog.Disabled)
		golog.SetAllLoggers(golog.LevelFatal)
	}
}

func child(id string) {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	quietLogs()
	c := newCtx(id, seed(), tier() == "thorough")
	c.Scratch = os.Getenv("VERIF_SCRATCH")
	out := os.Getenv("VERIF_RESULT")
	stop := make(chan struct{})
	go func() { // partial results survive a crash
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Second):
				c.writeResult(out+".partial", false)
			}
		}
	}()
	var once sync.Once
	go func() { // what is broken may never end: a violation is reported even so
		known := map[string]bool{}
		for _, k := range knownFindings(id) {
			known[k.key] = true
		}
		wait := 150 * time.Second
		for {
			time.Sleep(5 * time.Second)
			if c.violatedBut(known) {
				break
			}
		}
		time.Sleep(wait)
		once.Do(func() {
			c.writeResult(out, true)
			os.Exit(0)
		})
	}()
	ck.run(c)
	once.Do(func() {
		close(stop)
		c.writeResult(out, true)
	})
}

type finding struct{ key, what string }

func knownFindings(id string) []finding {
	var out []finding
	b, err := ioutil.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == id {
			out = append(out, finding{m[2], m[3]})
		}
	}
	return out
}

// crashOf looks for a Go crash in the child's stderr and names the go-tss function that caused it.
func crashOf(log string) (kind, fn, excerpt string) {
	i := strings.Index(log, "panic: ")
	if j := strings.Index(log, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return "", "", ""
	}
	ex := log[i:]
	kind = strings.SplitN(ex, "\n", 2)[0]
	if len(ex) > 8000 {
		ex = ex[:8000]
	}
	// the first goroutine printed is the one that crashed
	blocks := strings.Split(ex, "\n\n")
	for bi := range blocks {
		if !strings.Contains(blocks[bi], "goroutine ") {
			continue
		}
		for _, l := range strings.Split(blocks[bi], "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "main.") {
				return kind, "", ex
			}
			if strings.HasPrefix(l, sutPrefix) {
				f := strings.TrimPrefix(l, sutPrefix)
				if k := strings.LastIndex(f, "("); k > 0 {
					f = f[:k]
				}
				return kind, f, ex
			}
		}
		break
	}
	return kind, "", ex
}

func supervise(id string) int {
	start := time.Now()
	vd := verifDir()
	if _, ok := checks[id]; !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	evDir := filepath.Join(vd, "evidence")
	_ = os.MkdirAll(evDir, 0755)
	scratch, err := ioutil.TempDir("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	resPath := filepath.Join(scratch, "result.json")
	logPath := filepath.Join(scratch, "child.log")
	logF, err := os.Create(logPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "child", id)
	cmd.Env = append(os.Environ(), "VERIF_RESULT="+resPath, "VERIF_SCRATCH="+scratch, "VERIF_DIR="+vd)
	cmd.Stdout, cmd.Stderr = logF, logF
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	limit := 780 * time.Second
	if tier() == "thorough" {
		limit = 4 * time.Hour
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		_ = syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case err = <-done:
		case <-time.After(20 * time.Second):
		}
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	logB, _ := ioutil.ReadFile(logPath)
	log := string(logB)
	if os.Getenv("VERIF_DEBUG") != "" {
		os.Stderr.Write(logB)
	}
	var res Result
	b, rerr := ioutil.ReadFile(resPath)
	if rerr != nil {
		b, rerr = ioutil.ReadFile(resPath + ".partial")
	}
	if rerr == nil {
		rerr = json.Unmarshal(b, &res)
	}
	if rerr != nil {
		res = Result{Property: id, Level: "exploration", Coverage: map[string]interface{}{"evaluations": 0, "distinct_nontrivial": 0, "rule": "run ended before any result", "samples": []string{"none"}}}
	}
	if !res.Complete && !timedOut {
		kind, fn, ex := crashOf(log)
		if fn == "" {
			fn = libFrame(ex)
		}
		if fn != "" {
			res.Violations = append(res.Violations, Viol{Key: "crash:" + fn, Msg: "the code under test crashed the process: " + kind + "\n" + ex})
		} else {
			tail := log
			if len(tail) > 6000 {
				tail = tail[len(tail)-6000:]
			}
			res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("child ended without result (%v): %s", err, tail))
		}
	}
	if timedOut {
		_ = ioutil.WriteFile(filepath.Join(evDir, id+".timeout.log"), logB, 0644)
		res.Inconclusive = append(res.Inconclusive, "watchdog: the check did not finish within "+limit.String())
	}
	// verdict
	known := knownFindings(id)
	seen := map[string]bool{}
	var fresh []Viol
	for _, v := range res.Violations {
		hit := false
		for _, k := range known {
			if v.Key == k.key {
				hit = true
				seen[k.key] = true
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	for _, k := range known {
		state := ""
		if !seen[k.key] {
			state = " (not reproduced in this run)"
		}
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s%s\n", id, k.key, k.what, state)
	}
	if res.Coverage == nil {
		res.Coverage = map[string]interface{}{"evaluations": 0, "distinct_nontrivial": 0, "rule": "none", "samples": []string{"none"}}
	}
	if len(res.Inconclusive) > 0 {
		res.Coverage["inconclusive"] = res.Inconclusive
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier(), "seed": seed(), "level": res.Level, "coverage": res.Coverage,
		"assumptions": res.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if res.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := ioutil.WriteFile(filepath.Join(evDir, id+".json"), eb, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fresh) > 0 {
		rp := filepath.Join(evDir, id+".replay.json")
		rb, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "seed": seed(), "tier": tier(), "violations": fresh,
			"how": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s", seed(), tier(), id),
		}, "", " ")
		_ = ioutil.WriteFile(rp, rb, 0644)
		for _, v := range fresh {
			m := v.Msg
			if len(m) > 1500 {
				m = m[:1500] + "..."
			}
			fmt.Printf("  %s: %s\n", v.Key, m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if len(res.Inconclusive) > 0 {
		for _, m := range res.Inconclusive {
			fmt.Println("INCONCLUSIVE:", m)
		}
		return 3
	}
	fmt.Printf("OK property=%s evaluations=%v distinct=%v wall=%.1fs\n", id, res.Coverage["evaluations"], res.Coverage["distinct_nontrivial"], time.Since(start).Seconds())
	return 0
}
