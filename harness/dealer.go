package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	bcrypto "github.com/binance-chain/tss-lib/crypto"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	"github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"gitlab.com/thorchain/tss/go-tss/storage"
)

var (
	preOnce sync.Once
	preList []*keygen.LocalPreParams
)

func readPreParams(path string) []*keygen.LocalPreParams {
	var out []*keygen.LocalPreParams
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		d, err := hex.DecodeString(l)
		if err != nil {
			panic(err)
		}
		var p keygen.LocalPreParams
		if err := json.Unmarshal(d, &p); err != nil {
			panic(err)
		}
		out = append(out, &p)
	}
	return out
}

// preParams returns the Paillier/safe-prime parameters kept in /verif/data.
func preParams() []*keygen.LocalPreParams {
	preOnce.Do(func() {
		preList = readPreParams(filepath.Join(verifDir(), "data", "preparams.hex"))
		if len(preList) < 4 {
			panic("no pre-parameters in " + verifDir() + "/data")
		}
	})
	return preList
}

func init() {
	auxCmds["genpreparams"] = func(args []string) {
		p, err := keygen.GeneratePreParams(30 * time.Minute)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		b, _ := json.Marshal(p)
		fmt.Println(hex.EncodeToString(b))
	}
}

// bechOf returns the pool public key string of a point, derived without the code under test.
func bechOf(x, y *big.Int) string {
	pk := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: pk.SerializeCompressed()})
	if err != nil {
		panic(err)
	}
	return s
}

func thorAddrOf(x, y *big.Int) string {
	pk := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	return sdk.AccAddress((&coskey.PubKey{Key: pk.SerializeCompressed()}).Address().Bytes()).String()
}

// Pool is a key shared by a trusted dealer among nodes, with what each node would have stored.
type Pool struct {
	Nodes  []*Node
	T      int
	Secret *big.Int
	X, Y   *big.Int
	Bech   string
	State  []storage.KeygenLocalState
}

// dealKey splits a random secret among the nodes (threshold t, so t+1 shares are needed).
func dealKey(r *rand.Rand, nodes []*Node, t int) *Pool {
	q := btss.EC().Params().N
	rnd := func() *big.Int {
		for {
			v := new(big.Int).Rand(r, q)
			if v.Sign() > 0 {
				return v
			}
		}
	}
	coef := make([]*big.Int, t+1)
	for i := range coef {
		coef[i] = rnd()
	}
	// keys whose numbers are shorter than 32 bytes
	switch r.Intn(8) {
	case 0:
		coef[0].Rsh(coef[0], uint(8+r.Intn(9)))
		if coef[0].Sign() == 0 {
			coef[0].SetInt64(1)
		}
	case 1, 2:
		for k := 0; k < 2000; k++ {
			x, _ := btcec.S256().ScalarBaseMult(coef[0].Bytes())
			if x.BitLen() <= 248 {
				break
			}
			coef[0] = rnd()
		}
	}
	eval := func(x *big.Int) *big.Int {
		v := big.NewInt(0)
		for i := t; i >= 0; i-- {
			v.Mul(v, x)
			v.Add(v, coef[i])
			v.Mod(v, q)
		}
		return v
	}
	n := len(nodes)
	pre := preParams()
	p := &Pool{Nodes: nodes, T: t, Secret: coef[0]}
	pub := bcrypto.ScalarBaseMult(btss.EC(), coef[0])
	p.X, p.Y = pub.X(), pub.Y()
	p.Bech = bechOf(p.X, p.Y)
	ks := make([]*big.Int, n)
	nt, h1, h2 := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	bx := make([]*bcrypto.ECPoint, n)
	pp := make([]*paillier.PublicKey, n)
	xi := make([]*big.Int, n)
	for i, nd := range nodes {
		ks[i] = new(big.Int).SetBytes(nd.Pub)
		xi[i] = eval(new(big.Int).Mod(ks[i], q))
		bx[i] = bcrypto.ScalarBaseMult(btss.EC(), xi[i])
		pr := pre[i%len(pre)]
		nt[i], h1[i], h2[i] = pr.NTildei, pr.H1i, pr.H2i
		pp[i] = &pr.PaillierSK.PublicKey
	}
	for i, nd := range nodes {
		ld := keygen.LocalPartySaveData{
			LocalPreParams: *pre[i%len(pre)],
			LocalSecrets:   keygen.LocalSecrets{Xi: xi[i], ShareID: ks[i]},
			Ks:             ks, NTildej: nt, H1j: h1, H2j: h2, BigXj: bx, PaillierPKs: pp, ECDSAPub: pub,
		}
		p.State = append(p.State, storage.KeygenLocalState{
			PubKey: p.Bech, LocalData: ld, ParticipantKeys: bechs(nodes), LocalPartyKey: nd.Bech,
		})
	}
	return p
}

// lagrange reconstructs the secret from shares (independent of tss-lib's vss).
func lagrange(ids, shares []*big.Int) *big.Int {
	q := btss.EC().Params().N
	sum := big.NewInt(0)
	for i := range ids {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range ids {
			if i == j {
				continue
			}
			num.Mul(num, ids[j]).Mod(num, q)
			d := new(big.Int).Sub(ids[j], ids[i])
			den.Mul(den, d).Mod(den, q)
		}
		v := new(big.Int).Mul(shares[i], num)
		v.Mul(v, new(big.Int).ModInverse(den, q))
		sum.Add(sum, v).Mod(sum, q)
	}
	return sum
}

// combine reconstructs the private key from the stored records of the given nodes.
func combine(states []storage.KeygenLocalState) *big.Int {
	var ids, sh []*big.Int
	for _, s := range states {
		ids = append(ids, s.LocalData.ShareID)
		sh = append(sh, s.LocalData.Xi)
	}
	return lagrange(ids, sh)
}

func hexAddrOf(x, y *big.Int) string {
	pk := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	return hex.EncodeToString((&coskey.PubKey{Key: pk.SerializeCompressed()}).Address().Bytes())
}
