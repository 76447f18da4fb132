package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func init() { register("C25", checkC25) }

// overlayTest runs a monitor written as an in-package test, put in place with go test -overlay.
func overlayTest(c *Ctx, pkg, file, run string, minCases int) {
	ov := filepath.Join(c.Scratch, "overlay.json")
	dst := filepath.Join(repoDir(), pkg, file)
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {dst: filepath.Join(verifDir(), "overlay", file)}})
	if err := ioutil.WriteFile(ov, b, 0644); err != nil {
		panic(err)
	}
	out := filepath.Join(c.Scratch, "overlay.out.json")
	cmd := exec.Command("go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "600s", "-run", "^"+run+"$", "./"+pkg)
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "VERIF_OUT="+out, fmt.Sprintf("VERIF_SEED=%d", c.Seed))
	logB, err := cmd.CombinedOutput()
	res := struct {
		Violations []struct{ Key, Msg string }
		Counts     map[string]int
		Cases      []string
		Samples    []string
	}{}
	rb, rerr := ioutil.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(rb, &res)
	}
	if rerr != nil {
		log := string(logB)
		if strings.Contains(log, "panic:") {
			if _, fn, ex := crashOf(log); fn != "" {
				c.Violate("crash:"+fn, "%s", ex)
				return
			}
			c.Violate("crash", "the process running the code under test crashed: %s", log)
			return
		}
		c.Inconclusive("overlay monitor gave no result: %v\n%s", err, log)
		return
	}
	for _, v := range res.Violations {
		c.Violate(v.Key, "%s", v.Msg)
	}
	for k, n := range res.Counts {
		c.Count(k, n)
	}
	for _, s := range res.Cases {
		c.Case(s, true)
	}
	for i, s := range res.Samples {
		c.Sample(fmt.Sprint("case ", i), "%s", s)
	}
	if len(res.Cases) < minCases && len(res.Violations) == 0 {
		c.Inconclusive("only %d cases", len(res.Cases))
	}
}

func checkC25(c *Ctx) {
	c.Rule = "the real HTTP server on loopback TCP with a recording service: generated requests and replies from eight concurrent clients, malformed bodies, wrong methods and paths, liveness during blocked calls, start and stop"
	overlayTest(c, "cmd/tss", "verif_http_test.go", "TestVerifHTTP", 400)
}
