package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	cosed "github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	lcrypto "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	ma "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/storage"
)

func init() {
	register("C17", checkC17)
	register("C18", checkC18)
	// another process over the same folder
	auxCmds["storeget"] = func(args []string) {
		m, err := storage.NewFileStateMgr(args[0])
		if err != nil {
			fmt.Println("ERR " + err.Error())
			return
		}
		for _, k := range args[1:] {
			st, err := m.GetLocalState(k)
			if err != nil {
				fmt.Println("ERR")
				continue
			}
			fmt.Println(canon(st))
		}
	}
	auxCmds["bookget"] = func(args []string) {
		m, err := storage.NewFileStateMgr(args[0])
		if err != nil {
			fmt.Println("ERR")
			return
		}
		l, err := m.RetrieveP2PAddresses()
		if err != nil {
			fmt.Println("ERR")
			return
		}
		for _, a := range addrStrings(l) {
			fmt.Println(a)
		}
	}
}

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func auxRun(args ...string) (string, error) {
	self, _ := os.Executable()
	cmd := exec.Command(self, append([]string{"aux"}, args...)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	err := cmd.Run()
	return out.String(), err
}

// tree lists every file below root with its content.
func tree(root string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			out[p+"/"] = ""
			return nil
		}
		b, _ := ioutil.ReadFile(p)
		out[p] = string(b)
		return nil
	})
	return out
}

func diffTree(a, b map[string]string) []string {
	var d []string
	for k, v := range b {
		if o, ok := a[k]; !ok || o != v {
			d = append(d, k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			d = append(d, "-"+k)
		}
	}
	sort.Strings(d)
	return d
}

func offCurveBech(r *rand.Rand) string {
	for {
		b := make([]byte, 33)
		r.Read(b)
		b[0] = 2
		if _, err := btcec.ParsePubKey(b, btcec.S256()); err == nil {
			continue
		}
		s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: b})
		if err != nil {
			panic(err)
		}
		return s
	}
}

func ed25519Bech(r *rand.Rand) string {
	pk := cosed.GenPrivKeyFromSecret(randBytes(r, 16)).PubKey()
	s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, pk)
	if err != nil {
		panic(err)
	}
	return s
}

// corruptBech flips one character of the data part, which the bech32 checksum always detects.
func corruptBech(r *rand.Rand, s string) string {
	const cs = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	b := []byte(s)
	i := 9 + r.Intn(len(b)-9)
	for {
		ch := cs[r.Intn(len(cs))]
		if ch != b[i] {
			b[i] = ch
			return string(b)
		}
	}
}

func checkC17(c *Ctx) {
	c.Rule = "a history of saves, replacements, reads, re-opens and reads from another process over a folder, compared with an in-memory model; truncated and unparsable files; hostile key strings with planted records outside the folder"
	c.Assume("damage that leaves the file valid JSON of the right shape is not detectable by the store and is not tested")
	// a pool of realistic records
	var pools []*Pool
	for i := 0; i < c.N(14, 60); i++ {
		r := c.Rand("pool", i)
		n := 1 + r.Intn(7)
		pools = append(pools, dealKey(r, randNodes(r, n), (2*n+2)/3-1))
	}
	// pool keys that are easily taken for one another: the same point with the other sign
	twins := map[*Pool]*Pool{}
	for i := 0; i < c.N(14, 60); i += 3 {
		r := c.Rand("twin", i)
		p := pools[i]
		raw, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, p.Bech)
		if err != nil {
			panic(err)
		}
		k := append([]byte{}, raw.Bytes()...)
		k[0] ^= 1
		tb, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: k})
		if err != nil {
			panic(err)
		}
		t := *p
		t.Bech = tb
		t.State = append([]storage.KeygenLocalState{}, p.State...)
		for j := range t.State {
			t.State[j].PubKey = tb
			t.State[j].ParticipantKeys = shuffled(r, append([]string{}, t.State[j].ParticipantKeys...))
			t.State[j].LocalPartyKey = randNode(r).Bech
		}
		twins[p], twins[&t] = &t, p
		pools = append(pools, &t)
	}
	rec := func(r *rand.Rand, p *Pool) storage.KeygenLocalState { return p.State[r.Intn(len(p.State))] }

	c.Parallel(c.N(40, 300), 0, func(i int) {
		r := c.Rand("hist", i)
		dir := filepath.Join(c.ScratchDir("h"), "a", "b")
		if r.Intn(2) == 0 {
			_ = os.MkdirAll(dir, 0755)
		}
		var m *storage.FileStateMgr
		open := func() bool {
			var err error
			m, err = storage.NewFileStateMgr(dir)
			if err != nil {
				c.Violate("open-folder", "NewFileStateMgr(%s): %v", dir, err)
				return false
			}
			return true
		}
		if !open() {
			return
		}
		model := map[string]string{}
		var hist []string
		get := func(key string) {
			want, ok := model[key]
			c.Guard("C17", "GetLocalState", func() {
				st, err := m.GetLocalState(key)
				switch {
				case ok && err != nil:
					c.Violate("saved-record-lost", "record %s was saved but reading fails: %v\nhistory: %v", key, err, hist)
				case ok && canon(st) != want:
					c.Violate("record-changed", "record %s reads back differently\nwant %s\ngot %s\nhistory: %v", key, want, canon(st), hist)
				case !ok && err == nil:
					c.Violate("unknown-key-answered", "key %s was never saved but a record is returned: %.300s\nhistory: %v", key, canon(st), hist)
				}
			})
			c.Count("reads", 1)
		}
		for k := 0; k < 25; k++ {
			p := pools[r.Intn(len(pools))]
			switch r.Intn(6) {
			case 0, 1, 2:
				st := rec(r, p)
				if r.Intn(4) == 0 {
					st.ParticipantKeys = shuffled(r, st.ParticipantKeys)
				}
				want := canon(st)
				hist = append(hist, "save "+p.Bech[len(p.Bech)-6:])
				c.Guard("C17", "SaveLocalState", func() {
					if err := m.SaveLocalState(st); err != nil {
						c.Violate("save-refused", "saving a valid record fails: %v", err)
					}
				})
				model[p.Bech] = want
				c.Count("saves", 1)
				get(p.Bech)
				if t := twins[p]; t != nil {
					get(t.Bech)
					c.Count("twin-reads", 1)
				}
			case 3:
				hist = append(hist, "get")
				get(p.Bech)
			case 4:
				hist = append(hist, "reopen")
				if !open() {
					return
				}
			case 5:
				hist = append(hist, "address book save")
				_ = m.SaveAddressBook(map[peer.ID]addr.AddrList{})
			}
		}
		for _, p := range pools {
			get(p.Bech)
		}
		get(randNode(r).Bech)
		if i < c.N(6, 30) { // a new process over the same folder
			var keys, wants []string
			for _, p := range pools {
				keys = append(keys, p.Bech)
				if w, ok := model[p.Bech]; ok {
					wants = append(wants, w)
				} else {
					wants = append(wants, "ERR")
				}
			}
			out, err := auxRun(append([]string{"storeget", dir}, keys...)...)
			if err != nil {
				c.Violate("other-process", "reading from a new process crashed: %v", err)
			} else if strings.TrimRight(out, "\n") != strings.Join(wants, "\n") {
				c.Violate("other-process", "a new process over the same folder reads other records\nhistory: %v\ngot %.600s\nwant %.600s", hist, out, strings.Join(wants, "\n"))
			}
			c.Count("process-reads", len(keys))
		}
		c.Case(fmt.Sprintf("hist%d%v", i, hist), len(model) > 1)
		c.Sample("history", "%v", hist)
	})

	// concurrent saves and reads of different keys
	for i := 0; i < c.N(5, 40); i++ {
		dir := c.ScratchDir("c")
		m, err := storage.NewFileStateMgr(dir)
		if err != nil {
			c.Violate("open-folder", "%v", err)
			return
		}
		var wg sync.WaitGroup
		for k, p := range pools {
			wg.Add(1)
			go func(k int, p *Pool) {
				defer wg.Done()
				r := c.Rand("conc", i*1000+k)
				last := ""
				for j := 0; j < 6; j++ {
					st := rec(r, p)
					last = canon(st)
					if err := m.SaveLocalState(st); err != nil {
						c.Violate("save-refused", "concurrent save: %v", err)
						return
					}
					got, err := m.GetLocalState(p.Bech)
					if err != nil || canon(got) != last {
						c.Violate("concurrent-interference", "own record differs after concurrent saves of other keys: err=%v\nwant %.300s\ngot %.300s", err, last, canon(got))
					}
					c.Count("concurrent-saves", 1)
				}
			}(k, p)
		}
		wg.Wait()
		c.Case(fmt.Sprintf("conc%d", i), true)
	}

	// truncated and unparsable files
	c.Parallel(c.N(90, 600), 0, func(i int) {
		r := c.Rand("dmg", i)
		dir := c.ScratchDir("d")
		m, err := storage.NewFileStateMgr(dir)
		if err != nil {
			return
		}
		p, q := pools[i%len(pools)], pools[(i+1)%len(pools)]
		st, st2 := rec(r, p), rec(r, q)
		before := tree(dir)
		if err := m.SaveLocalState(st); err != nil {
			c.Violate("save-refused", "%v", err)
			return
		}
		var file string
		for _, f := range diffTree(before, tree(dir)) {
			if !strings.HasSuffix(f, "/") {
				if file != "" {
					c.Count("several-files-per-record", 1)
					return // another layout: not ours to damage
				}
				file = f
			}
		}
		if file == "" {
			c.Violate("nothing-written", "SaveLocalState returned nil but no file exists in %s", dir)
			return
		}
		_ = m.SaveLocalState(st2)
		b, _ := ioutil.ReadFile(file)
		var nb []byte
		kind := ""
		switch i % 9 {
		case 0:
			kind, nb = "empty", nil
		case 1, 2, 3:
			n := r.Intn(len(b) - 1)
			if i%2 == 0 {
				n = len(b) - 1 - r.Intn(20)
			}
			kind, nb = fmt.Sprintf("cut to %d of %d", n, len(b)), b[:n]
		case 4:
			kind, nb = "random bytes", randBytes(r, 200)
			nb[0] = 0x01
		case 5:
			kind, nb = "zero filled", make([]byte, len(b))
		case 6: // a shorter record written over a longer one without truncation
			kind, nb = "old tail kept", append(append([]byte{}, b...), b[len(b)-1-r.Intn(len(b)/2):]...)
		case 7:
			kind, nb = "two records", append(append(append([]byte{}, b...), '\n'), []byte(canon(st2))...)
		case 8:
			kind, nb = "garbage after the record", append(append([]byte{}, b...), randBytes(r, 1+r.Intn(40))...)
			nb[len(b)] = '}'
		}
		if err := ioutil.WriteFile(file, nb, 0644); err != nil {
			panic(err)
		}
		c.Guard("C17", "GetLocalState of a damaged file", func() {
			got, err := m.GetLocalState(st.PubKey)
			if err == nil {
				c.Violate("damaged-file-accepted", "%s file gives a record without error: %.300s", kind, canon(got))
			}
			if got2, err := m.GetLocalState(st2.PubKey); err != nil || canon(got2) != canon(st2) {
				c.Violate("other-record-affected", "damage to one file (%s) changes another record: %v", kind, err)
			}
			if err := m.SaveLocalState(st); err != nil {
				c.Violate("no-recovery", "saving again over a damaged file fails: %v", err)
			} else if got, err := m.GetLocalState(st.PubKey); err != nil || canon(got) != canon(st) {
				c.Violate("no-recovery", "record differs after saving again over a damaged file: %v", err)
			}
		})
		c.Count("damaged-files", 1)
		c.Case(fmt.Sprintf("dmg%d %s", i, kind), true)
	})

	// keys that are not valid pool keys
	c.Parallel(c.N(40, 200), 0, func(i int) {
		r := c.Rand("key", i)
		root := c.ScratchDir("k")
		dir := filepath.Join(root, "l1", "l2", "l3", "node")
		_ = os.MkdirAll(dir, 0755)
		m, err := storage.NewFileStateMgr(dir)
		if err != nil {
			return
		}
		p := pools[r.Intn(len(pools))]
		st := rec(r, p)
		// records planted where a path trick would lead
		pj := []byte(canon(st))
		for _, f := range []string{filepath.Join(root, "x"), filepath.Join(root, "x.json"), filepath.Join(root, "l1", "x.json"), filepath.Join(root, "l1", "l2", "l3", "x.json"),
			filepath.Join(root, "l1", "l2", "l3", "localstate-x.json"), filepath.Join(dir, "x.json"), filepath.Join(dir, "localstate-x.json"), filepath.Join(dir, "localstate-.json")} {
			_ = ioutil.WriteFile(f, pj, 0644)
		}
		_ = os.MkdirAll(filepath.Join(dir, "localstate-"), 0755)
		_ = os.MkdirAll(filepath.Join(dir, "localstate-"+p.Bech), 0755)
		good := p.Bech
		keys := []string{"", "x", ".", "..", "/../x", "../x", "/../../../../x", "/../../x", "/../../../x.json", filepath.Join(root, "x"), filepath.Join(root, "x.json"),
			good + "/../../x", good + "/../x", "../" + good, good + "\x00", "\x00", good + " ", " " + good, good + ".json", good[:len(good)-1], good[1:], good + "q",
			corruptBech(r, good), corruptBech(r, good), "thorvpub" + good[7:], "cosmospub" + good[7:], offCurveBech(r), ed25519Bech(r), string(randBytes(r, 1+r.Intn(60))),
			strings.Repeat("a", 300), "localstate-" + good, "%2e%2e%2fx", "..\\x", good + "\n"}
		before := tree(root)
		for _, k := range keys {
			c.Guard("C17", fmt.Sprintf("store with key %q", k), func() {
				if got, err := m.GetLocalState(k); err == nil {
					c.Violate("invalid-key-answered", "GetLocalState(%q) returns a record: %.200s", k, canon(got))
				}
				bad := st
				bad.PubKey = k
				if err := m.SaveLocalState(bad); err == nil {
					c.Violate("invalid-key-saved", "SaveLocalState accepts pool key %q", k)
				}
			})
			c.Count("invalid-keys", 1)
			c.Case("key"+k, true)
		}
		if d := diffTree(before, tree(root)); len(d) > 0 {
			c.Violate("wrote-for-invalid-key", "files changed by refused saves: %v", d)
		}
		// a valid save stays inside the folder
		before = tree(root)
		_ = m.SaveLocalState(rec(r, pools[(i+1)%len(pools)]))
		for _, f := range diffTree(before, tree(root)) {
			if !strings.HasPrefix(f, dir+"/") {
				c.Violate("wrote-outside", "a save changed %s outside %s", f, dir)
			}
		}
	})
	c.Require("reads", 500)
	c.Require("saves", 200)
	c.Require("damaged-files", 20)
	c.Require("twin-reads", 20)
	c.Require("invalid-keys", 500)
}

func addrStrings(l addr.AddrList) []string {
	out := make([]string, 0, len(l))
	for _, a := range l {
		out = append(out, a.String())
	}
	sort.Strings(out)
	return out
}

func randAddr(r *rand.Rand) string {
	port := 1 + r.Intn(65535)
	ip := fmt.Sprintf("%d.%d.%d.%d", 1+r.Intn(126), r.Intn(256), r.Intn(256), r.Intn(256))
	if r.Intn(4) == 0 {
		ip = fmt.Sprintf("%d.127.0.%d", 128+r.Intn(90), r.Intn(2))
	}
	switch r.Intn(9) {
	case 0:
		return fmt.Sprintf("/ip6/2001:db8::%x/tcp/%d", 1+r.Intn(60000), port)
	case 1:
		return fmt.Sprintf("/dns4/node%d.example.com/tcp/%d", r.Intn(1000), port)
	case 2:
		return fmt.Sprintf("/ip4/%s/udp/%d/quic", ip, port)
	case 3:
		return fmt.Sprintf("/ip4/%s/tcp/%d/ws", ip, port)
	case 4:
		return fmt.Sprintf("/ip4/%s/tcp/%d/p2p/QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N/p2p-circuit", ip, port)
	case 5:
		return fmt.Sprintf("/ip4/10.0.0.%d/tcp/%d", r.Intn(256), port)
	default:
		return fmt.Sprintf("/ip4/%s/tcp/%d", ip, port)
	}
}

var rsaPeers = []string{"QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N", "QmcgpsyWgH8Y8ajJz1Cu72KnS5uo2Aa2LpzU7kinSupNKC"}

func randPeer(r *rand.Rand) peer.ID {
	switch r.Intn(6) {
	case 0:
		p, err := peer.Decode(rsaPeers[r.Intn(len(rsaPeers))])
		if err != nil {
			panic(err)
		}
		return p
	case 1:
		_, pub, err := lcrypto.GenerateEd25519Key(r)
		if err != nil {
			panic(err)
		}
		p, _ := peer.IDFromPublicKey(pub)
		return p
	}
	return randNode(r).Peer
}

// randBook returns an address book and the lines a reader must get.
func randBook(r *rand.Rand) (map[peer.ID]addr.AddrList, []string) {
	book := map[peer.ID]addr.AddrList{}
	want := []string{}
	n := r.Intn(12)
	if r.Intn(10) == 0 {
		n = 60
	}
	var used []string // addresses of earlier peers: several peers may be reached at one address
	for i := 0; i < n; i++ {
		p := randPeer(r)
		if _, dup := book[p]; dup {
			continue
		}
		seen := map[string]bool{}
		l := addr.AddrList{}
		for k := 0; k < r.Intn(6); k++ {
			s := randAddr(r)
			if len(used) > 0 && r.Intn(4) == 0 {
				s = used[r.Intn(len(used))]
			}
			lo := r.Intn(4) == 0
			if lo {
				s = fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", 1+r.Intn(65535))
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			a, err := ma.NewMultiaddr(s)
			if err != nil {
				panic(s + err.Error())
			}
			l = append(l, a)
			if !lo {
				used = append(used, s)
				e, err := ma.NewMultiaddr(s + "/p2p/" + p.String())
				if err != nil {
					panic(err)
				}
				want = append(want, e.String())
			}
		}
		book[p] = l
	}
	sort.Strings(want)
	return book, want
}

func checkC18(c *Ctx) {
	c.Rule = "a history of address book saves with generated peers and addresses, each read back in process, by a new manager and by a new process; concurrent savers and readers; malformed books"
	same := func(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }
	c.Parallel(c.N(80, 800), 0, func(i int) {
		r := c.Rand("hist", i)
		dir := c.ScratchDir("b")
		m, err := storage.NewFileStateMgr(dir)
		if err != nil {
			c.Violate("open-folder", "%v", err)
			return
		}
		c.Guard("C18", "RetrieveP2PAddresses without a book", func() {
			if l, err := m.RetrieveP2PAddresses(); err == nil {
				c.Violate("missing-book-accepted", "no book was saved but reading gives %v", l)
			}
		})
		var prev []string
		for k := 0; k < 6; k++ {
			book, want := randBook(r)
			c.Guard("C18", "address book", func() {
				if err := m.SaveAddressBook(book); err != nil {
					c.Violate("save-refused", "%v", err)
					return
				}
				rd := m
				if r.Intn(2) == 0 {
					if rd, err = storage.NewFileStateMgr(dir); err != nil {
						c.Violate("open-folder", "%v", err)
						return
					}
				}
				l, err := rd.RetrieveP2PAddresses()
				if err != nil {
					c.Violate("saved-book-unreadable", "%v\nsaved %v", err, want)
					return
				}
				if got := addrStrings(l); !same(got, want) {
					c.Violate("book-differs", "save %d reads back differently\ngot  %v\nwant %v\nprevious %v", k, got, want, prev)
				}
			})
			prev = want
			c.Count("saves", 1)
			c.Count("addresses", len(want))
			c.Case(fmt.Sprintf("book%v", want), len(want) > 0)
			c.Sample("book", "%v", want)
		}
		if i < c.N(5, 30) {
			out, err := auxRun("bookget", dir)
			if err != nil || strings.TrimRight(out, "\n") != strings.Join(prev, "\n") {
				c.Violate("other-process", "a new process reads %q, want %v (err %v)", out, prev, err)
			}
			c.Count("process-reads", 1)
		}
		// a malformed line anywhere makes the whole book an error
		files := tree(dir)
		for f, content := range files {
			if strings.HasSuffix(f, "/") {
				continue
			}
			bad := []string{"garbage", "/ip4/999.1.2.3/tcp/1/p2p/" + rsaPeers[0], "/ip4/1.2.3.4/tcp/notaport", "/ip4/1.2.3.4/tcp/80/p2p/xyz", "ip4/1.2.3.4/tcp/1", "\x00\x01"}[r.Intn(6)]
			lines := strings.Split(strings.TrimRight(content, "\n"), "\n")
			at := r.Intn(len(lines) + 1)
			lines = append(lines[:at], append([]string{bad}, lines[at:]...)...)
			_ = ioutil.WriteFile(f, []byte(strings.Join(lines, "\n")+"\n"), 0644)
			c.Guard("C18", "malformed book", func() {
				if l, err := m.RetrieveP2PAddresses(); err == nil {
					c.Violate("malformed-book-accepted", "line %d is %q but reading gives %v", at, bad, addrStrings(l))
				}
			})
			c.Count("malformed-books", 1)
			// and the next save replaces it
			book, want := randBook(r)
			if err := m.SaveAddressBook(book); err != nil {
				c.Violate("save-refused", "over a malformed book: %v", err)
			} else if l, err := m.RetrieveP2PAddresses(); err != nil || !same(addrStrings(l), want) {
				c.Violate("no-recovery", "after replacing a malformed book: %v %v", err, l)
			}
		}
	})
	// the book may only be read or written inside the given folder
	c.Guard("C18", "no folder", func() {
		m, err := storage.NewFileStateMgr("")
		if err == nil {
			if err := m.SaveAddressBook(map[peer.ID]addr.AddrList{}); err == nil {
				c.Violate("no-folder-accepted", "an address book was saved without a folder")
			}
		}
	})
	// readers during saves see some whole book
	for i := 0; i < c.N(6, 60); i++ {
		r := c.Rand("conc", i)
		dir := c.ScratchDir("w")
		m, err := storage.NewFileStateMgr(dir)
		if err != nil {
			return
		}
		type bk struct {
			b map[peer.ID]addr.AddrList
			w string
		}
		var books []bk
		ok := map[string]bool{}
		for k := 0; k < 8; k++ {
			b, w := randBook(r)
			for len(w) < 5 {
				b, w = randBook(r)
			}
			books = append(books, bk{b, strings.Join(w, "\n")})
			ok[books[k].w] = true
		}
		if err := m.SaveAddressBook(books[0].b); err != nil {
			c.Violate("save-refused", "%v", err)
			return
		}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		distinct := sync.Map{}
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					l, err := m.RetrieveP2PAddresses()
					if err != nil {
						c.Violate("concurrent-read-error", "reading while saving: %v", err)
						return
					}
					s := strings.Join(addrStrings(l), "\n")
					if !ok[s] {
						c.Violate("torn-book", "reading while saving gives a book that was never saved: %s", s)
						return
					}
					distinct.Store(s, true)
					c.Count("concurrent-reads", 1)
				}
			}()
		}
		var wg2 sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg2.Add(1)
			go func(k int) {
				defer wg2.Done()
				for j := 0; j < 60; j++ {
					if err := m.SaveAddressBook(books[(k*2+j)%len(books)].b); err != nil {
						c.Violate("save-refused", "concurrent: %v", err)
						return
					}
				}
			}(k)
		}
		wg2.Wait()
		close(stop)
		wg.Wait()
		distinct.Range(func(_, _ interface{}) bool { c.Count("distinct-books-seen-by-readers", 1); return true })
		c.Case(fmt.Sprintf("conc%d", i), true)
	}
	c.Require("saves", 200)
	c.Require("concurrent-reads", 50)
}
