package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	protocommon "github.com/binance-chain/tss-lib/common"
	"github.com/binance-chain/tss-lib/crypto/commitments"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	bsigning "github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"

	"gitlab.com/thorchain/tss/go-tss/messages"
)

// ---------- C22, shares with odd content: each case is a ceremony in a process of its own ----------

func init() {
	auxCmds["c22case"] = c22Case
	auxCmds["c22list"] = func([]string) { // every case, one per line
		for _, k := range cases22(newCtx("C22", seed(), false).Rand("content", 0), 0) {
			b, _ := json.Marshal(k)
			fmt.Println(string(b))
		}
	}
}

// what a field is replaced with
var odd22 = []string{"zero", "one", "two", "empty", "huge", "order", "order-1", "field", "modulus", "its modulus", "its second modulus", "random", "flip", "sibling", "drop", "append", "none", "swap", "nil message"}

// special22 are attacks that need more than one changed field.
var special22 = []string{"short polynomial", "long polynomial", "foreign polynomial", "other round", "not a share", "abort", "no content", "range proof without inverse"}

type case22 struct {
	KG    bool
	Round int
	Field int // which field, modulo their number
	Odd   string
	Seed  int64
	Late  bool // the share comes about when the others give up
}

func (k case22) String() string {
	return fmt.Sprintf("keygen=%v %s field %d %s (seed %d)", k.KG, allRounds[k.KG][k.Round], k.Field, k.Odd, k.Seed)
}

// fields22 are the fields of a share: byte strings, lists of them, and nested messages.
func fields22(m btss.MessageContent) []reflect.Value {
	var out []reflect.Value
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.CanSet() {
				out = append(out, v)
			}
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.PkgPath == "" && !strings.HasPrefix(f.Name, "XXX_") {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			e := v.Type().Elem()
			if e.Kind() == reflect.Uint8 || e.Kind() == reflect.Slice {
				out = append(out, v)
			}
		}
	}
	walk(reflect.ValueOf(m))
	return out
}

// oddValue replaces one field; others are the field's siblings.
func oddValue(r *rand.Rand, f reflect.Value, all []reflect.Value, how string, modulus *big.Int) {
	if f.Kind() == reflect.Ptr {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	if f.Type().Elem().Kind() == reflect.Slice {
		l := f.Interface().([][]byte)
		switch how {
		case "drop":
			if len(l) > 0 {
				f.Set(reflect.ValueOf(l[:len(l)-1]))
			}
		case "append":
			f.Set(reflect.ValueOf(append(append([][]byte{}, l...), randBytes(r, 32))))
		case "none":
			f.Set(reflect.ValueOf([][]byte{}))
		case "swap":
			n := append([][]byte{}, l...)
			r.Shuffle(len(n), func(i, j int) { n[i], n[j] = n[j], n[i] })
			f.Set(reflect.ValueOf(n))
		default:
			if len(l) == 0 {
				return
			}
			n := append([][]byte{}, l...)
			i := r.Intn(len(n))
			x := reflect.New(reflect.TypeOf([]byte{})).Elem()
			x.SetBytes(n[i])
			oddValue(r, x, nil, how, modulus)
			n[i] = x.Bytes()
			f.Set(reflect.ValueOf(n))
		}
		return
	}
	b := append([]byte{}, f.Bytes()...)
	q := btcec.S256().N
	switch how {
	case "zero":
		b = []byte{0}
	case "one":
		b = []byte{1}
	case "two":
		b = []byte{2}
	case "empty", "none", "drop":
		b = nil
	case "huge":
		b = make([]byte, 20000)
		for i := range b {
			b[i] = 0xff
		}
	case "order":
		b = q.Bytes()
	case "order-1":
		b = new(big.Int).Sub(q, big.NewInt(1)).Bytes()
	case "field":
		b = btcec.S256().P.Bytes()
	case "modulus", "its modulus", "its second modulus":
		b = modulus.Bytes()
	case "random", "swap":
		r.Read(b)
	case "flip":
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	case "append":
		b = append(b, 0)
	case "sibling":
		for try := 0; try < 10 && len(all) > 0; try++ {
			o := all[r.Intn(len(all))]
			if o.Kind() == reflect.Slice && o.Type().Elem().Kind() == reflect.Uint8 && o.Len() > 0 {
				b = append([]byte{}, o.Bytes()...)
				break
			}
		}
	}
	f.SetBytes(b)
}

func (k case22) run(c *Ctx) string {
	r := rand.New(rand.NewSource(k.Seed))
	n := 3
	nodes := randNodes(r, n)
	var pool *Pool
	if !k.KG {
		pool = dealKey(r, nodes, thresholdOf(n))
	}
	bad := r.Intn(n)
	cr := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint("c22", k.Seed)), Timeout: 8 * time.Second}
	if k.Late {
		cr.Timeout = 3 * time.Second
	}
	rd := allRounds[k.KG][k.Round]
	var mu sync.Mutex
	modulus := new(big.Int)
	var poly []*big.Int // what the attacker opens its commitment with
	changed := 0
	rewrite := func(e *cerEvt, f func(m btss.MessageContent)) (out []byte) {
		defer func() {
			if r := recover(); r != nil {
				out = nil // the content cannot be encoded
			}
		}()
		p, _ := cr.tamperShare(e, 0, f)
		return p
	}
	cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
		same := []cerDelivery{{To: to, From: e.From, Payload: p}}
		if e.From != bad || !e.isShare() || len(e.Bulk) == 0 {
			return same
		}
		mu.Lock()
		defer mu.Unlock()
		rr := rand.New(rand.NewSource(k.Seed))
		out := p
		switch {
		case strings.HasSuffix(k.Odd, "polynomial"):
			// the commitment of round 1 and what opens it in round 2 fit each other
			if poly == nil {
				pts := thresholdOf(n) + 1
				switch k.Odd {
				case "short polynomial":
					pts = rr.Intn(pts)
				case "long polynomial":
					pts += 1 + rr.Intn(3)
				}
				poly = []*big.Int{new(big.Int).SetBytes(randBytes(rr, 32))}
				for i := 0; i < pts; i++ {
					x, y := btcec.S256().ScalarBaseMult(randBytes(rr, 32))
					if k.Odd == "foreign polynomial" && rr.Intn(2) == 0 {
						y = new(big.Int).SetBytes(randBytes(rr, 32))
					}
					poly = append(poly, x, y)
				}
			}
			switch e.Wire.RoundInfo {
			case messages.KEYGEN1:
				out = rewrite(e, func(m btss.MessageContent) { m.(*bkeygen.KGRound1Message).Commitment = commitOf(poly) })
			case messages.KEYGEN2b:
				out = rewrite(e, func(m btss.MessageContent) {
					d := [][]byte{}
					for _, x := range poly {
						d = append(d, x.Bytes())
					}
					m.(*bkeygen.KGRound2Message2).DeCommitment = d
				})
				changed++
			}
		case e.Wire.RoundInfo != rd:
			return same
		case k.Odd == "other round":
			// the content of another round under this round's name
			o := allRounds[!k.KG || rr.Intn(2) == 0]
			m := newContent(o[rr.Intn(len(o))])
			fillContent(rr, m)
			b := append(e.Bulk[:0:0], e.Bulk...)
			b[0].WiredBulkMsgs = wireOf(btss.MessageRouting{From: e.Wire.Routing.From, IsBroadcast: e.Wire.Routing.IsBroadcast}, m)
			out = wrap(e.Raw.MessageType, cr.MsgID, signWire(nodes[bad], cr.MsgID, e.Wire.Routing, rd, b))
			changed++
		case k.Odd == "range proof without inverse":
			out = rewrite(e, func(m btss.MessageContent) {
				x := m.(*bsigning.SignRound1Message1)
				x.C, x.RangeProofAlice = rangeProof22(pool.State[bad].LocalData.PaillierSK.PublicKey, pool.State[to].LocalData.NTildei)
			})
			changed++
		case k.Odd == "not a share":
			b := append(e.Bulk[:0:0], e.Bulk...)
			x := append([]byte{}, b[0].WiredBulkMsgs...)
			switch rr.Intn(4) {
			case 0:
				x = randBytes(rr, rr.Intn(200))
			case 1:
				x = x[:rr.Intn(len(x))]
			case 2:
				for i := 0; i < 3; i++ {
					x[rr.Intn(len(x))] = byte(rr.Intn(256))
				}
			case 3:
				x = nil
			}
			b[0].WiredBulkMsgs = x
			out = wrap(e.Raw.MessageType, cr.MsgID, signWire(nodes[bad], cr.MsgID, e.Wire.Routing, rd, b))
			changed++
		case k.Odd == "abort" || k.Odd == "no content":
			out = rewrite(e, func(m btss.MessageContent) {
				cnt := rr.Intn(n + 2)
				var l, l2 [][]byte
				for i := 0; i < cnt; i++ {
					l, l2 = append(l, randBytes(rr, 32)), append(l2, randBytes(rr, 32))
				}
				switch x := m.(type) {
				case *bsigning.SignRound6Message:
					x.Content = nil
					if k.Odd == "abort" {
						x.Content = &bsigning.SignRound6Message_Abort{Abort: &bsigning.SignRound6Message_AbortData{KI: randBytes(rr, 32), GammaI: randBytes(rr, 32), AlphaIJ: l, BetaJI: l2}}
					}
				case *bsigning.SignRound7Message:
					x.Content = nil
					if k.Odd == "abort" {
						x.Content = &bsigning.SignRound7Message_Abort{Abort: &bsigning.SignRound7Message_AbortData{KI: randBytes(rr, 32), KRandI: randBytes(rr, 32), MuIJ: l, MuRandIJ: l2, EcddhProofZ: randBytes(rr, 32), EcddhProofA1: point22(rr), EcddhProofA2: point22(rr)}}
					}
				}
			})
			changed++
		default:
			out = rewrite(e, func(m btss.MessageContent) {
				switch x := m.(type) {
				case *bkeygen.KGRound1Message:
					modulus.SetBytes(x.PaillierN)
				default:
					if pool != nil {
						// the attacker knows the moduli of everybody
						switch k.Odd {
						case "modulus":
							modulus.Set(pool.State[bad].LocalData.PaillierSK.N)
						case "its modulus":
							modulus.Set(pool.State[to].LocalData.PaillierSK.N)
						default:
							modulus.Set(pool.State[to].LocalData.NTildei)
						}
					}
				}
				fs := fields22(m)
				if len(fs) == 0 {
					return
				}
				oddValue(rr, fs[k.Field%len(fs)], fs, k.Odd, modulus)
				changed++
			})
		}
		if out == nil {
			return nil
		}
		d := cerDelivery{To: to, From: e.From, Payload: out}
		if k.Late {
			d.Delay = cr.Timeout + time.Duration(rr.Intn(500)-250)*time.Millisecond
		}
		return []cerDelivery{d}
	}
	ok := false
	if k.KG {
		ok = cr.RunKeygen(c, func(int) []string { return bechs(nodes) })
	} else {
		ok = cr.RunKeysign(c, pool, [][]byte{randBytes(r, 32)}, func(int) []string { return bechs(nodes) })
	}
	if !ok {
		return "stuck: a ceremony did not end"
	}
	s := ""
	for i := range nodes {
		if i != bad {
			s += fmt.Sprintf("[err=%v %q %s]", cr.Res[i].Err != nil, cr.Res[i].Blame.FailReason, cr.names(blamedKeys(cr.Res[i].Blame)))
		}
	}
	if k.KG && changed > 0 && len(cr.Res[bad].State.saved()) == 1 {
		// the key exists nevertheless: it is used
		p := &Pool{Nodes: nodes, T: thresholdOf(n)}
		for i := range nodes {
			if len(cr.Res[i].State.saved()) == 1 {
				p.State = append(p.State, cr.Res[i].State.saved()[0])
			}
		}
		if len(p.State) == n {
			p.Bech = p.State[0].PubKey
			c2 := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint("c22 then", k.Seed)), Timeout: 8 * time.Second}
			if !c2.RunKeysign(c, p, [][]byte{randBytes(r, 32)}, func(int) []string { return bechs(nodes) }) {
				return "stuck: a signing with the key did not end"
			}
			s += " then signing:"
			for i := range nodes {
				s += fmt.Sprintf("[err=%v %q]", c2.Res[i].Err != nil, c2.Res[i].Blame.FailReason)
			}
		}
	}
	return fmt.Sprintf("changed %d: %s", changed, s)
}

func commitOf(p []*big.Int) []byte {
	return commitments.NewHashCommitmentWithRandomness(p[0], p[1:]...).C.Bytes()
}

// c22Case runs one case and prints what happened.
func c22Case(args []string) {
	var k case22
	if err := json.Unmarshal([]byte(args[0]), &k); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c := newCtx("C22", k.Seed, false)
	c.Scratch = os.Getenv("VERIF_SCRATCH")
	fmt.Println("RESULT " + k.run(c))
}

// contentCase runs the case in a process of its own and judges how it ended.
func contentCase(c *Ctx, i int, k case22) {
	b, _ := json.Marshal(k)
	self, _ := os.Executable()
	cmd := exec.Command("bash", "-c", `ulimit -v 8000000; exec "$0" aux c22case "$1"`, self, string(b))
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+c.ScratchDir("case"+strconv.Itoa(i)), "GOMAXPROCS=4")
	var out []byte
	var err error
	if !Within(100*time.Second, func() { out, err = cmd.CombinedOutput() }) {
		if cmd.Process != nil {
			_ = cmd.Process.Kill()
		}
		c.Violate("stuck-process", "%v: the process does not end", k)
		return
	}
	s := string(out)
	if j := strings.LastIndex(s, "RESULT "); j >= 0 && err == nil {
		res := strings.TrimSpace(s[j+7:])
		if strings.HasPrefix(res, "stuck") {
			c.Violate("stuck:"+allRounds[k.KG][k.Round], "%v: %s", k, res)
		}
		if strings.HasPrefix(res, "changed 0") {
			c.Count("content cases without effect", 1)
			return
		}
		c.Count("content cases", 1)
		c.Sample("content", "%v: %s", k, res)
		c.Case(k.String()+res, true)
		return
	}
	kind, fn, ex := crashOf(s)
	if fn == "" {
		fn = libFrame(ex)
	}
	if fn == "" {
		c.Inconclusive("%v: the process ended with %v: %.3000s", k, err, s)
		return
	}
	c.Count("content cases", 1)
	c.Case(k.String()+kind, true)
	c.Violate("crash:"+fn, "%v: the share crashes every other participant: %s\n%s", k, kind, ex)
}

// libFrame names the crash site of a crash in a goroutine of the protocol library: where the goroutine began and where it failed.
func libFrame(ex string) string {
	const lib = "github.com/binance-chain/tss-lib/"
	for _, blk := range strings.Split(ex, "\n\n") {
		if !strings.Contains(blk, "goroutine ") {
			continue
		}
		first, last := "", ""
		for _, l := range strings.Split(blk, "\n") {
			l = strings.TrimSpace(l)
			if !strings.HasPrefix(l, lib) {
				continue
			}
			f := strings.TrimPrefix(l, lib)
			if p := strings.LastIndex(f, "("); p > 0 {
				f = f[:p]
			}
			if first == "" {
				first = f
			}
			last = f
		}
		if first == "" {
			return ""
		}
		if first == last {
			return "lib:" + last
		}
		return "lib:" + last + ":" + first
	}
	return ""
}

// cases22 lists the cases: every field of every round with every odd value, and the special attacks.
func cases22(r *rand.Rand, per int) []case22 {
	var all []case22
	for _, kg := range []bool{true, false} {
		for rd := range allRounds[kg] {
			m := newContent(allRounds[kg][rd])
			fillContent(r, m)
			nf := len(fields22(m))
			if !kg && rd > 2 {
				nf += 5 // nested ones
			}
			for f := 0; f < nf; f++ {
				for _, o := range odd22 {
					all = append(all, case22{kg, rd, f, o, r.Int63(), false})
				}
			}
			for _, o := range special22 {
				if strings.HasSuffix(o, "polynomial") && !(kg && rd == 0) {
					continue
				}
				if strings.HasPrefix(o, "range proof") && (kg || rd != 0) {
					continue
				}
				if (o == "abort" || o == "no content") && (kg || rd < 6) {
					continue
				}
				all = append(all, case22{kg, rd, 0, o, r.Int63(), false})
			}
		}
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if per > 0 && per < len(all) {
		all = all[:per]
	}
	return all
}

// quick22 are the cases of every run: those that need several fields, one of each kind of value, and some others.
func quick22(r *rand.Rand, n int) []case22 {
	all := cases22(r, 0)
	special := map[string]bool{}
	for _, o := range special22 {
		special[o] = true
	}
	var out, rest []case22
	kinds := map[string]bool{}
	for _, k := range all {
		switch {
		case !k.KG && k.Odd == "order" && (k.Round == 3 && k.Field == 8 || k.Round == 6 && k.Field == 10): // not a point
			out = append(out, k)
		case special[k.Odd] && (k.Odd != "other round" && k.Odd != "not a share"), !k.KG && k.Round == 0 && k.Field == 0 && k.Odd == "modulus":
			out = append(out, k)
		case !kinds[fmt.Sprint(k.KG, k.Odd)]:
			kinds[fmt.Sprint(k.KG, k.Odd)] = true
			out = append(out, k)
		default:
			rest = append(rest, k)
		}
	}
	if n > len(out) {
		out = append(out, rest[:n-len(out)]...)
	}
	return out
}

func point22(r *rand.Rand) *protocommon.ECPoint {
	x, y := btcec.S256().ScalarBaseMult(randBytes(r, 32))
	return &protocommon.ECPoint{X: x.Bytes(), Y: y.Bytes()}
}

// rangeProof22 makes a ciphertext and a range proof whose first equation holds and whose Z is not invertible.
func rangeProof22(pk paillier.PublicKey, z *big.Int) ([]byte, [][]byte) {
	q := btcec.S256().N
	q3 := new(big.Int).Exp(q, big.NewInt(3), nil)
	m := protocommon.GetRandomPositiveInt(q)
	c, r, err := pk.EncryptAndReturnRandomness(m)
	if err != nil {
		panic(err)
	}
	alpha := protocommon.GetRandomPositiveInt(new(big.Int).Rsh(q3, 3))
	beta := protocommon.GetRandomPositiveRelativelyPrimeInt(pk.N)
	n2 := protocommon.ModInt(pk.NSquare())
	u := n2.Mul(n2.Exp(pk.Gamma(), alpha), n2.Exp(beta, pk.N))
	w := protocommon.GetRandomPositiveInt(z)
	e := protocommon.RejectionSample(q, protocommon.SHA512_256i(append(pk.AsInts(), c, z, u, w)...))
	n1 := protocommon.ModInt(pk.N)
	s := n1.Mul(n1.Exp(r, e), beta)
	s1 := new(big.Int).Add(new(big.Int).Mul(e, m), alpha)
	return c.Bytes(), [][]byte{z.Bytes(), u.Bytes(), w.Bytes(), s.Bytes(), s1.Bytes(), protocommon.GetRandomPositiveInt(z).Bytes()}
}
