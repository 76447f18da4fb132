package main

// In-package monitor (goes in through go test -overlay): drives the real HTTP server over loopback TCP with a
// recording service behind it and compares what the service saw and what the client got.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
)

type vViol struct{ Key, Msg string }

type vOut struct {
	mu         sync.Mutex
	Violations []vViol
	Counts     map[string]int
	Cases      []string
	Samples    []string
}

func (o *vOut) bad(key, f string, a ...interface{}) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if len(o.Violations) < 30 {
		o.Violations = append(o.Violations, vViol{key, fmt.Sprintf(f, a...)})
	}
}
func (o *vOut) count(k string) { o.mu.Lock(); o.Counts[k]++; o.mu.Unlock() }
func (o *vOut) kase(s string)  { o.mu.Lock(); o.Cases = append(o.Cases, s); o.mu.Unlock() }
func (o *vOut) sample(s string) {
	o.mu.Lock()
	if len(o.Samples) < 8 {
		o.Samples = append(o.Samples, s)
	}
	o.mu.Unlock()
}

// vService records calls; replies are looked up by the request's block height.
type vService struct {
	mu       sync.Mutex
	gen      map[int64][]keygen.Request
	sign     map[int64][]keysign.Request
	genR     map[int64]keygen.Response
	signR    map[int64]keysign.Response
	fail     map[int64]bool
	block    map[int64]chan struct{}
	stray    int
	starts   int
	stops    int
	startErr error
	id       string
}

func newVService() *vService {
	return &vService{gen: map[int64][]keygen.Request{}, sign: map[int64][]keysign.Request{}, genR: map[int64]keygen.Response{},
		signR: map[int64]keysign.Response{}, fail: map[int64]bool{}, block: map[int64]chan struct{}{}, id: "16Uiu2HAmVerifIdentity"}
}
func (s *vService) Start() error           { s.mu.Lock(); defer s.mu.Unlock(); s.starts++; return s.startErr }
func (s *vService) Stop()                  { s.mu.Lock(); defer s.mu.Unlock(); s.stops++ }
func (s *vService) GetLocalPeerID() string { return s.id }
func (s *vService) Keygen(r keygen.Request) (keygen.Response, error) {
	s.mu.Lock()
	s.gen[r.BlockHeight] = append(s.gen[r.BlockHeight], r)
	resp, ok := s.genR[r.BlockHeight]
	f, b := s.fail[r.BlockHeight], s.block[r.BlockHeight]
	if !ok {
		s.stray++
	}
	s.mu.Unlock()
	if b != nil {
		<-b
	}
	if f {
		return resp, errors.New("service failure")
	}
	return resp, nil
}
func (s *vService) KeySign(r keysign.Request) (keysign.Response, error) {
	s.mu.Lock()
	s.sign[r.BlockHeight] = append(s.sign[r.BlockHeight], r)
	resp, ok := s.signR[r.BlockHeight]
	f, b := s.fail[r.BlockHeight], s.block[r.BlockHeight]
	if !ok {
		s.stray++
	}
	s.mu.Unlock()
	if b != nil {
		<-b
	}
	if f {
		return resp, errors.New("service failure")
	}
	return resp, nil
}

func vStr(r *rand.Rand) string {
	al := []rune("abcXYZ019+/=-_ \"\\<>&é漢\u2028\n\t")
	n := r.Intn(30)
	if r.Intn(20) == 0 {
		n = 4000
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(al[r.Intn(len(al))])
	}
	return b.String()
}

func vStrs(r *rand.Rand) []string {
	if r.Intn(12) == 0 {
		return nil
	}
	o := make([]string, r.Intn(8))
	for i := range o {
		o[i] = vStr(r)
		if i > 0 && r.Intn(5) == 0 {
			o[i] = o[i-1]
		}
	}
	return o
}

// vMany is vStrs or, for a few requests, a very long list.
func vMany(r *rand.Rand, i int) []string {
	if i%100 < 98 {
		return vStrs(r)
	}
	o := make([]string, []int{30000, 120000, 400000}[r.Intn(3)])
	for k := range o {
		o[k] = strconv.FormatInt(r.Int63(), 36) + "=" + strconv.Itoa(k)
	}
	return o
}

func vBlame(r *rand.Rand) blame.Blame {
	var ns []blame.Node
	for i := 0; i < r.Intn(4); i++ {
		d, s := make([]byte, r.Intn(50)), make([]byte, r.Intn(50))
		r.Read(d)
		r.Read(s)
		ns = append(ns, blame.NewNode(vStr(r), d, s))
	}
	b := blame.NewBlame(vStr(r), ns)
	b.IsUnicast = r.Intn(2) == 0
	return b
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func jsonSame(a, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func TestVerifHTTP(t *testing.T) {
	outPath := os.Getenv("VERIF_OUT")
	if outPath == "" {
		t.Skip()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := 400
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 6000
	}
	o := &vOut{Counts: map[string]int{}}
	defer func() {
		b, _ := json.Marshal(o)
		_ = ioutil.WriteFile(outPath, b, 0644)
	}()
	svc := newVService()
	var addr string
	var hs *TssHttpServer
	started := make(chan error, 1)
	up := false
	for try := 0; try < 5 && !up; try++ {
		addr = freeAddr()
		hs = NewTssHttpServer(addr, svc)
		go func() { started <- hs.Start() }()
		for k := 0; k < 200; k++ {
			cn, err := net.Dial("tcp", addr)
			if err == nil {
				cn.Close()
				up = true
				break
			}
			select {
			case <-started:
				k = 1000
			case <-time.After(50 * time.Millisecond):
			}
		}
	}
	if !up {
		o.bad("server-not-started", "the HTTP server does not listen")
		return
	}
	base := "http://" + addr
	cl := &http.Client{Timeout: 300 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 32}}
	do := func(method, path string, body []byte) (int, []byte, error) {
		rq, err := http.NewRequest(method, base+path, bytes.NewReader(body))
		if err != nil {
			return 0, nil, err
		}
		rs, err := cl.Do(rq)
		if err != nil {
			return 0, nil, err
		}
		defer rs.Body.Close()
		b, err := ioutil.ReadAll(rs.Body)
		return rs.StatusCode, b, err
	}
	calls := func() int {
		svc.mu.Lock()
		defer svc.mu.Unlock()
		k := 0
		for _, v := range svc.gen {
			k += len(v)
		}
		for _, v := range svc.sign {
			k += len(v)
		}
		return k
	}
	one := func(i int) {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		h := int64(i) + 1
		if i%7 == 0 {
			h = -h
		}
		if i%11 == 0 {
			h = h * 1000000007000
		}
		fail := r.Intn(4) == 0
		if i%2 == 0 {
			req := keygen.Request{Keys: vMany(r, i), BlockHeight: h, Version: vStr(r)}
			resp := keygen.Response{PubKey: vStr(r), PoolAddress: vStr(r), Status: common.Status(r.Intn(3)), Blame: vBlame(r)}
			svc.mu.Lock()
			svc.genR[h], svc.fail[h] = resp, fail
			svc.mu.Unlock()
			body, _ := json.Marshal(map[string]interface{}{"keys": req.Keys, "block_height": req.BlockHeight, "tss_version": req.Version})
			code, got, err := do(http.MethodPost, "/keygen", body)
			if err != nil {
				o.bad("no-answer", "keygen %d: %v", i, err)
				return
			}
			svc.mu.Lock()
			seen := svc.gen[h]
			svc.mu.Unlock()
			if len(seen) != 1 {
				o.bad("keygen-call-count", "the service saw request %.300s %d times", body, len(seen))
			} else if !sameList(seen[0].Keys, req.Keys) || seen[0].BlockHeight != h || seen[0].Version != req.Version {
				o.bad("keygen-request-changed", "sent %.500s, service saw %.500s", fmt.Sprintf("%+v", req), fmt.Sprintf("%+v", seen[0]))
			}
			want, _ := json.Marshal(map[string]interface{}{"pub_key": resp.PubKey, "pool_address": resp.PoolAddress, "status": resp.Status, "blame": resp.Blame})
			if !fail {
				if code != 200 {
					o.bad("keygen-status", "a successful key generation answers %d", code)
				} else if !jsonSame(got, want) {
					o.bad("keygen-response-changed", "service answered %s, client got %s", want, got)
				}
			} else if code == 200 && !jsonSame(got, want) {
				o.bad("keygen-response-changed", "failed service answered %s, client got %s", want, got)
			}
			o.count("keygen requests")
			if len(req.Keys) > 10000 {
				o.count("very long requests")
			}
		} else {
			req := keysign.Request{PoolPubKey: vStr(r), Messages: vMany(r, i), SignerPubKeys: vStrs(r), BlockHeight: h, Version: vStr(r)}
			var sigs []keysign.Signature
			for k := 0; k < r.Intn(5); k++ {
				sigs = append(sigs, keysign.Signature{Msg: vStr(r), R: vStr(r), S: vStr(r), RecoveryID: vStr(r)})
			}
			resp := keysign.Response{Signatures: sigs, Status: common.Status(r.Intn(3)), Blame: vBlame(r)}
			svc.mu.Lock()
			svc.signR[h], svc.fail[h] = resp, fail
			svc.mu.Unlock()
			body, _ := json.Marshal(map[string]interface{}{"pool_pub_key": req.PoolPubKey, "messages": req.Messages, "signer_pub_keys": req.SignerPubKeys, "block_height": h, "tss_version": req.Version})
			code, got, err := do(http.MethodPost, "/keysign", body)
			if err != nil {
				o.bad("no-answer", "keysign %d: %v", i, err)
				return
			}
			svc.mu.Lock()
			seen := svc.sign[h]
			svc.mu.Unlock()
			if len(seen) != 1 {
				o.bad("keysign-call-count", "the service saw request %.300s %d times", body, len(seen))
			} else if s := seen[0]; !sameList(s.Messages, req.Messages) || !sameList(s.SignerPubKeys, req.SignerPubKeys) || s.BlockHeight != h || s.Version != req.Version || s.PoolPubKey != req.PoolPubKey {
				o.bad("keysign-request-changed", "sent %.500s, service saw %.500s", fmt.Sprintf("%+v", req), fmt.Sprintf("%+v", s))
			}
			sj := []map[string]string{}
			for _, s := range sigs {
				sj = append(sj, map[string]string{"signed_msg": s.Msg, "r": s.R, "s": s.S, "recovery_id": s.RecoveryID})
			}
			var sv interface{} = sj
			if sigs == nil {
				sv = nil
			}
			want, _ := json.Marshal(map[string]interface{}{"signatures": sv, "status": resp.Status, "blame": resp.Blame})
			if fail {
				if code < 500 {
					o.bad("failed-keysign-status", "a failed signing call answers %d %s", code, got)
				}
			} else if code != 200 {
				o.bad("keysign-status", "a successful signing call answers %d", code)
			} else if !jsonSame(got, want) {
				o.bad("keysign-response-changed", "service answered %s, client got %s", want, got)
			}
			o.count("keysign requests")
			if len(req.Messages) > 10000 {
				o.count("very long requests")
			}
		}
		o.kase(fmt.Sprint("req", i))
		if i < 4 {
			o.sample(fmt.Sprintf("request %d fail=%v", i, fail))
		}
	}
	// concurrently, eight clients
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				one(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if svc.stray > 0 {
		o.bad("unexpected-call", "%d calls reached the service that no client made", svc.stray)
	}
	// refused requests never reach the service
	before := calls()
	bad := [][]byte{nil, []byte(""), []byte("{"), []byte("["), []byte("not json"), []byte(`{"keys":"x"}`), []byte(`{"keys":[1]}`), []byte(`"str"`), []byte(`17`), []byte(`[]`),
		[]byte(`{"keys":["a"],"block_height":"x"}`), []byte(`{"keys":["a"],"block_height":1.5}`), []byte(`{"keys":["a"],"block_height":99999999999999999999}`), []byte(`{"keys":["a"],"tss_version":3}`),
		[]byte(`{"keys":["a"]`), []byte{0xff, 0xfe, 0}, []byte(`{'keys':[]}`)}
	badSign := [][]byte{nil, []byte("{"), []byte("x"), []byte(`{"messages":"x"}`), []byte(`{"messages":[1]}`), []byte(`{"signer_pub_keys":{}}`), []byte(`{"pool_pub_key":1}`), []byte(`{"pool_pub_key":"a","block_height":true}`), []byte(`[]`), []byte(`{"pool_pub_key":"a"`), []byte(`{"tss_version":[]}`)}
	for _, p := range []struct {
		path string
		l    [][]byte
	}{{"/keygen", bad}, {"/keysign", badSign}} {
		for _, b := range p.l {
			code, _, err := do(http.MethodPost, p.path, b)
			if err != nil || code != 400 {
				o.bad("malformed-body-status", "POST %s %q answers %d (%v), want 400", p.path, b, code, err)
			}
			o.count("malformed bodies")
			o.kase(p.path + string(b))
		}
	}
	good, _ := json.Marshal(keygen.Request{Keys: []string{"a"}, BlockHeight: 1})
	for _, m := range []string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"} {
		for _, p := range []string{"/keygen", "/keysign"} {
			code, _, err := do(m, p, good)
			if err != nil || code != 405 {
				o.bad("wrong-method-status", "%s %s answers %d (%v), want 405", m, p, code, err)
			}
			o.count("wrong methods")
			o.kase(m + p)
		}
	}
	for _, m := range []string{"POST", "PUT", "DELETE"} {
		for _, p := range []string{"/ping", "/p2pid"} {
			code, _, err := do(m, p, good)
			if err != nil || code != 405 {
				o.bad("wrong-method-status", "%s %s answers %d (%v), want 405", m, p, code, err)
			}
			o.count("wrong methods")
			o.kase(m + p)
		}
	}
	for _, m := range []string{"GET", "POST"} {
		for _, p := range []string{"/", "/keygenx", "/nope", "/keysign/x", "/KEYGEN"} {
			code, _, err := do(m, p, good)
			if err != nil || code != 404 {
				o.bad("wrong-path-status", "%s %s answers %d (%v), want 404", m, p, code, err)
			}
			o.count("wrong paths")
			o.kase(m + p)
		}
	}
	if after := calls(); after != before {
		o.bad("refused-request-reached-service", "%d calls reached the service during refused requests", after-before)
	}
	// liveness and identity answer also while ceremonies are running
	blk := make(chan struct{})
	// a ceremony takes up to minutes
	hold := time.Now().Add(70 * time.Second)
	if os.Getenv("VERIF_TIER") == "thorough" {
		hold = time.Now().Add(200 * time.Second)
	}
	var bwg sync.WaitGroup
	for k := 0; k < 20; k++ {
		h := int64(5000000 + k)
		svc.mu.Lock()
		svc.block[h] = blk
		svc.genR[h], svc.signR[h] = keygen.Response{}, keysign.Response{}
		svc.mu.Unlock()
		bwg.Add(1)
		go func(k int, h int64) {
			defer bwg.Done()
			p := "/keygen"
			if k%2 == 0 {
				p = "/keysign"
			}
			code, _, err := do("POST", p, []byte(fmt.Sprintf(`{"block_height":%d}`, h)))
			if err != nil || code != 200 {
				o.bad("long-call-lost", "POST %s during load answers %d (%v)", p, code, err)
			}
		}(k, h)
	}
	short := &http.Client{Timeout: 20 * time.Second}
	for k := 0; k < 30; k++ {
		rs, err := short.Get(base + "/ping")
		if err != nil || rs.StatusCode != 200 {
			o.bad("ping-unanswered", "ping during long calls: %v", err)
			break
		}
		rs.Body.Close()
		rs, err = short.Get(base + "/p2pid")
		if err != nil || rs.StatusCode != 200 {
			o.bad("identity-unanswered", "p2pid during long calls: %v", err)
			break
		}
		b, _ := ioutil.ReadAll(rs.Body)
		rs.Body.Close()
		if strings.TrimSpace(string(b)) != svc.id {
			o.bad("identity-wrong", "p2pid answers %q, the service says %q", b, svc.id)
			break
		}
		o.count("liveness and identity answers")
		o.kase(fmt.Sprint("ping", k))
	}
	time.Sleep(time.Until(hold))
	close(blk)
	bwg.Wait()
	for k := 0; k < 20; k++ {
		svc.mu.Lock()
		g, s := len(svc.gen[int64(5000000+k)]), len(svc.sign[int64(5000000+k)])
		svc.mu.Unlock()
		if g+s != 1 {
			o.bad("long-call-count", "a long request reached the service %d times", g+s)
		}
	}
	// start and stop
	if svc.starts != 1 {
		o.bad("service-start", "the service was started %d times", svc.starts)
	}
	cl.CloseIdleConnections()
	if err := hs.Stop(); err != nil {
		o.bad("stop-error", "%v", err)
	}
	if svc.stops != 1 {
		o.bad("service-stop", "the service was stopped %d times", svc.stops)
	}
	select {
	case err := <-started:
		if err != nil {
			o.bad("stop-error", "Start returns %v after Stop", err)
		}
	case <-time.After(20 * time.Second):
		o.bad("stop-hangs", "Start does not return after Stop")
	}
	svc2 := newVService()
	svc2.startErr = errors.New("no")
	if err := NewTssHttpServer(freeAddr(), svc2).Start(); err == nil {
		o.bad("start-error-hidden", "Start succeeds although the service does not start")
	}
}
