package main

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/sha3"

	"gitlab.com/thorchain/tss/go-tss/storage"
)

func init() { register("C27", checkC27) }

// buildCmd builds a main package of the tree under test into the scratch area.
func buildCmd(c *Ctx, pkg string) (string, error) {
	out := filepath.Join(c.Scratch, filepath.Base(pkg)+".bin")
	cmd := exec.Command("go", "build", "-o", out, pkg)
	cmd.Dir = repoDir()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	return out, nil
}

type toolRun struct {
	out  string
	code int
	late bool
}

func runTool(bin, dir string, args ...string) toolRun {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	tr := toolRun{out: buf.String()}
	if ctx.Err() != nil {
		tr.late = true
	}
	if err != nil {
		tr.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			tr.code = ee.ExitCode()
		}
	}
	return tr
}

var (
	rePub  = regexp.MustCompile(`thorpub1[a-z0-9]+`)
	reAddr = regexp.MustCompile(`\bthor1[a-z0-9]{38}\b`)
)

// openKeystore decrypts an exported keystore independently of the tool.
func openKeystore(b []byte, password string) ([]byte, error) {
	var ks struct {
		Crypto struct {
			Cipher       string                 `json:"cipher"`
			CipherText   string                 `json:"ciphertext"`
			CipherParams struct{ IV string }    `json:"cipherparams"`
			KDF          string                 `json:"kdf"`
			KDFParams    map[string]interface{} `json:"kdfparams"`
			MAC          string                 `json:"mac"`
		} `json:"crypto"`
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		return nil, err
	}
	salt, err := hex.DecodeString(fmt.Sprint(ks.Crypto.KDFParams["salt"]))
	if err != nil || len(salt) < 8 {
		return nil, fmt.Errorf("salt: %v %d", err, len(salt))
	}
	iter, _ := ks.Crypto.KDFParams["c"].(float64)
	dk, _ := ks.Crypto.KDFParams["dklen"].(float64)
	if ks.Crypto.KDF != "pbkdf2" || iter < 1 || dk != 32 {
		return nil, fmt.Errorf("kdf %s %v", ks.Crypto.KDF, ks.Crypto.KDFParams)
	}
	ct, err := hex.DecodeString(ks.Crypto.CipherText)
	if err != nil {
		return nil, err
	}
	iv, err := hex.DecodeString(ks.Crypto.CipherParams.IV)
	if err != nil || len(iv) != 16 {
		return nil, fmt.Errorf("iv %v %d", err, len(iv))
	}
	key := pbkdf2.Key([]byte(password), salt, int(iter), int(dk), sha256.New)
	h := sha3.NewLegacyKeccak512()
	h.Write(key[16:32])
	h.Write(ct)
	if hex.EncodeToString(h.Sum(nil)) != ks.Crypto.MAC {
		return nil, fmt.Errorf("MAC mismatch")
	}
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	out := make([]byte, len(ct))
	cipher.NewCTR(blk, iv).XORKeyStream(out, ct)
	return out, nil
}

func saysKey(out string, d *big.Int) bool {
	lo := strings.ToLower(out)
	return strings.Contains(lo, d.String()) || strings.Contains(lo, fmt.Sprintf("%x", d)) || strings.Contains(lo, fmt.Sprintf("%064x", d))
}

func writeShares(dir string, states []storage.KeygenLocalState) []string {
	var files []string
	for i, s := range states {
		f := filepath.Join(dir, fmt.Sprintf("share-%d.json", i))
		b, _ := json.Marshal(s)
		if err := ioutil.WriteFile(f, b, 0600); err != nil {
			panic(err)
		}
		files = append(files, f)
	}
	return files
}

func pickStates(r *rand.Rand, p *Pool, k int) []storage.KeygenLocalState {
	var out []storage.KeygenLocalState
	for _, i := range r.Perm(len(p.Nodes))[:k] {
		out = append(out, p.State[i])
	}
	return out
}

func checkC27(c *Ctx) {
	c.Rule = "the built tool run over dealer-made share files of groups of 1 to 10 nodes: subsets in any order with and without export; too few, foreign, duplicated, unreadable files; the exported keystore is opened by an independent implementation"
	bin, err := buildCmd(c, "./cmd/tss-recovery")
	if err != nil {
		c.Inconclusive("cannot build the tool: %v", err)
		return
	}
	crashed := func(tr toolRun) bool {
		return strings.Contains(tr.out, "goroutine ") && strings.Contains(tr.out, "panic")
	}
	short := func(s string) string {
		if len(s) > 900 {
			return s[:900] + "..."
		}
		return s
	}
	c.Parallel(c.N(70, 600), 0, func(i int) {
		r := c.Rand("ok", i)
		n := 2 + r.Intn(9)
		if i%4 == 0 {
			n = 4
		}
		t := thresholdRef(n)
		p := dealKey(r, randNodes(r, n), t)
		k := t + 1 + r.Intn(n-t)
		dir := c.ScratchDir("r")
		files := writeShares(dir, pickStates(r, p, k))
		var args []string
		nArg := t + 1
		if r.Intn(3) == 0 {
			nArg = k
		}
		if nArg != 3 || r.Intn(2) == 0 {
			args = append(args, "-n", fmt.Sprint(nArg))
		}
		export := ""
		pw := ""
		switch i % 3 {
		case 0:
			export = filepath.Join(dir, "ks.json")
			pw = []string{"12345678", "a longer pass phrase", "pässwörd-1", strings.Repeat("p", 100)}[r.Intn(4)]
		case 1:
			if r.Intn(2) == 0 {
				export, pw = filepath.Join(dir, "ks.json"), "1234567"[:r.Intn(8)]
			}
		}
		if export != "" {
			args = append(args, "-export", export, "-password", pw)
		}
		args = append(args, files...)
		tr := runTool(bin, dir, args...)
		what := fmt.Sprintf("n=%d t+1=%d files=%d args %v", n, t+1, k, args[:len(args)-len(files)])
		switch {
		case tr.late:
			c.Violate("tool-hangs", "%s", what)
		case crashed(tr):
			c.Violate("tool-crashes", "%s: %s", what, short(tr.out))
		case tr.code != 0:
			c.Violate("recovery-fails", "%s: exit %d: %s", what, tr.code, short(tr.out))
		default:
			pubs, addrs := rePub.FindAllString(tr.out, -1), reAddr.FindAllString(tr.out, -1)
			if len(pubs) == 0 || pubs[len(pubs)-1] != p.Bech {
				c.Violate("wrong-public-key", "%s: printed %v, pool key %s\n%s", what, pubs, p.Bech, short(tr.out))
			} else if (len(addrs) == 0 || addrs[len(addrs)-1] != thorAddrOf(p.X, p.Y)) && !strings.Contains(strings.ToLower(tr.out), hexAddrOf(p.X, p.Y)) {
				c.Violate("wrong-address", "%s: printed %v, want %s", what, addrs, thorAddrOf(p.X, p.Y))
			} else if !saysKey(tr.out, p.Secret) {
				c.Violate("private-key-not-printed", "%s: the private key is not in the output: %s", what, short(tr.out))
			}
		}
		if export != "" {
			b, err := ioutil.ReadFile(export)
			if len(pw) >= 8 {
				if err != nil {
					c.Violate("no-keystore", "%s: %v", what, err)
				} else {
					key, err := openKeystore(b, pw)
					if err != nil || new(big.Int).SetBytes(key).Cmp(p.Secret) != 0 || len(key) != 32 {
						c.Violate("keystore-wrong", "%s: keystore does not decrypt to the private key (%v, %d bytes)", what, err, len(key))
					}
					for _, bad := range []string{pw + "x", pw[:len(pw)-1], "", strings.ToUpper(pw) + "!"} {
						if key, err := openKeystore(b, bad); err == nil && new(big.Int).SetBytes(key).Cmp(p.Secret) == 0 {
							c.Violate("keystore-other-password", "%s: password %q also opens it", what, bad)
						}
						if c.ID != "" && !c.Thorough {
							break
						}
					}
					for _, leak := range []string{fmt.Sprintf("%064x", p.Secret), p.Secret.String()} {
						if strings.Contains(strings.ToLower(string(b)), leak) {
							c.Violate("keystore-plaintext", "%s: the keystore contains the private key in clear", what)
						}
					}
					c.Count("keystores-opened", 1)
				}
			} else if err == nil {
				c.Violate("short-password-keystore", "%s: a keystore was written with a %d character password", what, len(pw))
			}
		}
		c.Count("recoveries", 1)
		if p.Secret.BitLen() <= 248 {
			c.Count("short-private-keys", 1)
		}
		c.Case(what+fmt.Sprint(i), true)
		c.Sample("recovery", "%s", what)
	})
	c.Parallel(c.N(80, 560), 0, func(i int) {
		r := c.Rand("bad", i)
		n := 3 + r.Intn(6)
		t := thresholdRef(n)
		p := dealKey(r, randNodes(r, n), t)
		q := dealKey(r, p.Nodes, t)
		dir := c.ScratchDir("f")
		kind := ""
		var files []string
		switch i % 8 {
		case 0:
			kind = "too few"
			files = writeShares(dir, pickStates(r, p, 1+r.Intn(t)))
		case 1:
			kind = "no files"
		case 2:
			kind = "one share of another key generation"
			s := pickStates(r, p, t+1)
			s[r.Intn(len(s))] = q.State[r.Intn(n)]
			files = writeShares(dir, s)
		case 3:
			kind = "missing file"
			files = writeShares(dir, pickStates(r, p, t+1))
			_ = os.Remove(files[r.Intn(len(files))])
		case 4:
			kind = "cut file"
			files = writeShares(dir, pickStates(r, p, t+1))
			f := files[r.Intn(len(files))]
			b, _ := ioutil.ReadFile(f)
			_ = ioutil.WriteFile(f, b[:r.Intn(len(b)-1)], 0600)
		case 5:
			kind = "same share twice"
			s := pickStates(r, p, t+1)
			s[0] = s[len(s)-1]
			files = writeShares(dir, s)
		case 6:
			kind = "empty record"
			files = writeShares(dir, pickStates(r, p, t+1))
			_ = ioutil.WriteFile(files[r.Intn(len(files))], []byte("{}"), 0600)
		case 7:
			kind = "more files than needed, the last of another key generation"
			s := pickStates(r, p, t+1+r.Intn(n-t))
			if len(s) == t+1 {
				s = append(s, q.State[r.Intn(n)])
			} else {
				s[len(s)-1] = q.State[r.Intn(n)]
			}
			files = writeShares(dir, s)
		}
		export := filepath.Join(dir, "ks.json")
		args := append([]string{"-n", fmt.Sprint(t + 1), "-export", export, "-password", "password1"}, files...)
		if t == 0 && (kind == "too few" || kind == "same share twice") {
			return
		}
		tr := runTool(bin, dir, args...)
		what := fmt.Sprintf("%s, n=%d t+1=%d files=%d", kind, n, t+1, len(files))
		switch {
		case tr.late:
			c.Violate("tool-hangs", "%s", what)
		case crashed(tr):
			c.Violate("tool-crashes", "%s: %s", what, short(tr.out))
		case tr.code == 0:
			c.Violate("bad-input-succeeds", "%s: exit 0: %s", what, short(tr.out))
		case strings.Contains(tr.out, "recoverd") || len(reAddr.FindAllString(tr.out, -1)) > 0:
			c.Violate("bad-input-key-printed", "%s: %s", what, short(tr.out))
		}
		if _, err := os.Stat(export); err == nil {
			c.Violate("bad-input-keystore", "%s: a keystore was written", what)
		}
		c.Count("refusals", 1)
		c.Case(what+fmt.Sprint(i), true)
		c.Sample("refusal "+kind, "%s", what)
	})
	c.Require("recoveries", 40)
	c.Require("refusals", 40)
	c.Require("keystores-opened", 5)
}
