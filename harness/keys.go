package main

import (
	"encoding/hex"
	"math/rand"
	"sort"

	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	lcrypto "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/conversion"
)

func init() { conversion.SetupBech32Prefix() }

// Node is a participant identity derived without the code under test.
type Node struct {
	Priv   secp256k1.PrivKey
	Pub    []byte // compressed
	Bech   string
	Peer   peer.ID
	LibKey lcrypto.PrivKey
}

func newNode(priv []byte) *Node {
	p := secp256k1.PrivKey(append([]byte{}, priv...))
	pub := p.PubKey().Bytes()
	bech, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: pub})
	if err != nil {
		panic(err)
	}
	lk, err := lcrypto.UnmarshalSecp256k1PrivateKey(p)
	if err != nil {
		panic(err)
	}
	pid, err := peer.IDFromPublicKey(lk.GetPublic())
	if err != nil {
		panic(err)
	}
	return &Node{Priv: p, Pub: pub, Bech: bech, Peer: pid, LibKey: lk}
}

func randNode(r *rand.Rand) *Node {
	b := make([]byte, 32)
	for {
		r.Read(b)
		if b[0] != 0xff && b[0] != 0 {
			return newNode(b)
		}
	}
}

// randNodes returns n nodes sorted by public key string, which is the order GetParties numbers them in.
func randNodes(r *rand.Rand, n int) []*Node {
	out := make([]*Node, n)
	for i := range out {
		out[i] = randNode(r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Bech < out[j].Bech })
	return out
}

func bechs(ns []*Node) []string {
	out := make([]string, len(ns))
	for i, n := range ns {
		out[i] = n.Bech
	}
	return out
}

func shuffled(r *rand.Rand, s []string) []string {
	o := append([]string{}, s...)
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func hexs(b []byte) string {
	if len(b) > 40 {
		return hex.EncodeToString(b[:40]) + "..."
	}
	return hex.EncodeToString(b)
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
