package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	btss "github.com/binance-chain/tss-lib/tss"
	lcrypto "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/conversion"
)

func init() { register("C19", checkC19) }

// badKeys are strings that are not a participant's public key.
func badKeys(r *rand.Rand, good string) []string {
	return []string{"", "x", good[:len(good)-1], good[1:], good + "q", corruptBech(r, good), corruptBech(r, good), "thorvpub" + good[7:], "cosmospub" + good[7:],
		offCurveBech(r), ed25519Bech(r), string(randBytes(r, 1+r.Intn(80))), strings.ToUpper(good[:20]) + good[20:], "16Uiu2HAm" + good, strings.Repeat("q", 200), "thor1" + good[8:]}
}

func checkC19(c *Ctx) {
	c.Rule = "random node keys converted through every pair of forms and compared with identities derived from libp2p and the SDK directly; shuffled key lists; malformed keys and identities"
	c.Parallel(c.N(4000, 40000), 0, func(i int) {
		r := c.Rand("key", i)
		nd := randNode(r)
		c.Guard("C19", "single key "+nd.Bech, func() {
			p, err := conversion.GetPeerIDFromPubKey(nd.Bech)
			if err != nil || p != nd.Peer {
				c.Violate("pubkey-to-peer", "%s -> %s (%v), want %s", nd.Bech, p, err, nd.Peer)
			}
			b, err := conversion.GetPubKeyFromPeerID(nd.Peer.String())
			if err != nil || b != nd.Bech {
				c.Violate("peer-to-pubkey", "%s -> %s (%v), want %s", nd.Peer, b, err, nd.Bech)
			}
			p2, err := conversion.GetPeerIDFromSecp256PubKey(nd.Pub)
			if err != nil || p2 != nd.Peer {
				c.Violate("raw-to-peer", "%x -> %s (%v), want %s", nd.Pub, p2, err, nd.Peer)
			}
			party := btss.NewPartyID(fmt.Sprint(r.Intn(9)), "m", new(big.Int).SetBytes(nd.Pub))
			p3, err := conversion.GetPeerIDFromPartyID(party)
			if err == nil && party.Index < 0 {
				// an unsorted party id has no index yet and may be refused
				if p3 != nd.Peer {
					c.Violate("party-to-peer", "%s, want %s", p3, nd.Peer)
				}
			}
			sp := btss.SortPartyIDs(btss.UnSortedPartyIDs{party})[0]
			if p3, err = conversion.GetPeerIDFromPartyID(sp); err != nil || p3 != nd.Peer {
				c.Violate("party-to-peer", "%v -> %s (%v), want %s", sp, p3, err, nd.Peer)
			}
			if b, err = conversion.PartyIDtoPubKey(sp); err != nil || b != nd.Bech {
				c.Violate("party-to-pubkey", "%v -> %s (%v), want %s", sp, b, err, nd.Bech)
			}
			// private key string form used on the command line
			enc := base64.StdEncoding.EncodeToString([]byte(hex.EncodeToString(nd.Priv)))
			pk, err := conversion.GetPriKey(enc)
			if err != nil || string(pk.Bytes()) != string(nd.Priv) {
				c.Violate("private-key", "private key does not decode to itself: %v", err)
			} else if raw, err := conversion.GetPriKeyRawBytes(pk); err != nil || string(raw) != string(nd.Priv) {
				c.Violate("private-key-raw", "raw bytes differ: %v", err)
			}
		})
		c.Count("keys", 1)
		c.Case(nd.Bech, true)
		c.Sample("key", "%s %s", nd.Bech, nd.Peer)
	})
	// lists
	c.Parallel(c.N(1500, 15000), 0, func(i int) {
		r := c.Rand("list", i)
		n := 1 + r.Intn(10)
		if i%100 == 0 {
			n = 30 + r.Intn(40)
		}
		nodes := randNodes(r, n)
		keys := bechs(nodes)
		local := nodes[r.Intn(n)]
		byBech := map[string]*Node{}
		for _, x := range nodes {
			byBech[x.Bech] = x
		}
		c.Guard("C19", "key lists", func() {
			// element-wise conversions keep order and length
			in := shuffled(r, keys)
			for name, f := range map[string]func([]string) ([]peer.ID, error){"GetPeerIDs": conversion.GetPeerIDs, "GetPeerIDsFromPubKeys": conversion.GetPeerIDsFromPubKeys} {
				ps, err := f(append([]string{}, in...))
				if err != nil || len(ps) != n {
					c.Violate("list-to-peers", "%s: %d of %d, %v", name, len(ps), n, err)
					continue
				}
				for k := range in {
					if ps[k] != byBech[in[k]].Peer {
						c.Violate("list-to-peers", "%s: entry %d is %s, want %s", name, k, ps[k], byBech[in[k]].Peer)
					}
				}
			}
			var pstr []string
			for _, k := range in {
				pstr = append(pstr, byBech[k].Peer.String())
			}
			back, err := conversion.GetPubKeysFromPeerIDs(pstr)
			if err != nil || strings.Join(back, ",") != strings.Join(in, ",") {
				c.Violate("peers-to-list", "got %v (%v) want %v", back, err, in)
			}
			// participants are the same whatever the order of the list
			ref := ""
			for v := 0; v < 4; v++ {
				ids, loc, err := conversion.GetParties(shuffled(r, keys), local.Bech)
				if err != nil {
					c.Violate("parties-refused", "n=%d: %v", n, err)
					return
				}
				var desc []string
				seen := map[string]bool{}
				idSeen := map[string]bool{}
				for _, id := range ids {
					k := fmt.Sprintf("%s|%x|%d", id.Id, id.Key, id.Index)
					desc = append(desc, k)
					nd := (*Node)(nil)
					for _, x := range nodes {
						if new(big.Int).SetBytes(x.Pub).Cmp(id.KeyInt()) == 0 {
							nd = x
						}
					}
					if nd == nil {
						c.Violate("foreign-party", "party %v is not in the list", id)
						return
					}
					if seen[nd.Bech] || idSeen[id.Id] {
						c.Violate("duplicate-party", "%v", ids)
					}
					seen[nd.Bech], idSeen[id.Id] = true, true
				}
				if len(seen) != n {
					c.Violate("missing-party", "%d parties for %d keys", len(seen), n)
				}
				if loc == nil || new(big.Int).SetBytes(local.Pub).Cmp(loc.KeyInt()) != 0 {
					c.Violate("wrong-local-party", "local party is %v, want key %x", loc, local.Pub)
					return
				}
				found := false
				for _, id := range ids {
					if id.Id == loc.Id && id.Index == loc.Index && id.KeyInt().Cmp(loc.KeyInt()) == 0 {
						found = true
					}
				}
				if !found {
					c.Violate("local-party-not-in-list", "%v not in %v", loc, ids)
				}
				d := strings.Join(desc, ";")
				if v == 0 {
					ref = d
				} else if d != ref {
					c.Violate("order-dependent-parties", "%s\nvs\n%s", d, ref)
				}
				if v > 0 {
					continue
				}
				// a different node sees the same participants
				ids2, _, err := conversion.GetParties(shuffled(r, keys), nodes[r.Intn(n)].Bech)
				if err == nil {
					var d2 []string
					for _, id := range ids2 {
						d2 = append(d2, fmt.Sprintf("%s|%x|%d", id.Id, id.Key, id.Index))
					}
					if strings.Join(d2, ";") != ref {
						c.Violate("node-dependent-parties", "%v vs %v", d2, ref)
					}
				}
				pm := conversion.SetupPartyIDMap(ids)
				mp := map[string]peer.ID{}
				if err := conversion.SetupIDMaps(pm, mp); err != nil {
					c.Violate("id-maps", "%v", err)
					return
				}
				if len(pm) != n || len(mp) != n {
					c.Violate("id-maps", "%d/%d entries for %d parties", len(pm), len(mp), n)
				}
				var pids []string
				for id, party := range pm {
					if party.Id != id {
						c.Violate("id-maps", "%s maps to %v", id, party)
					}
					bk, err := conversion.PartyIDtoPubKey(party)
					if err != nil || byBech[bk] == nil || mp[id] != byBech[bk].Peer {
						c.Violate("id-maps", "party %s: key %s peer %s", id, bk, mp[id])
					}
					pids = append(pids, id)
				}
				acc, err := conversion.AccPubKeysFromPartyIDs(pids, pm)
				if err != nil || !sameStrings(acc, keys) {
					c.Violate("party-pubkeys", "%v %v", acc, err)
				}
				for k := range acc {
					if e, _ := conversion.PartyIDtoPubKey(pm[pids[k]]); e != acc[k] {
						c.Violate("party-pubkeys", "entry %d of %v is %s, want %s", k, pids, acc[k], e)
					}
				}
				if _, err := conversion.AccPubKeysFromPartyIDs([]string{"nobody"}, pm); err == nil {
					c.Violate("unknown-party-accepted", "an unknown party id converts to a key")
				}
				others := conversion.GetPeersID(mp, local.Peer.String())
				var os, want []string
				for _, o := range others {
					os = append(os, o.String())
				}
				for _, x := range nodes {
					if x != local {
						want = append(want, x.Peer.String())
					}
				}
				if !sameStrings(os, want) {
					c.Violate("other-peers", "%v want %v", os, want)
				}
			}
			// local node not in the list
			if _, _, err := conversion.GetParties(shuffled(r, keys), randNode(r).Bech); err == nil {
				c.Violate("stranger-accepted", "a list lacking the local node is accepted")
			}
			if _, _, err := conversion.GetParties(shuffled(r, keys), ""); err == nil {
				c.Violate("stranger-accepted", "empty local key is accepted")
			}
		})
		c.Count("lists", 1)
		c.Case(fmt.Sprint(keys), n > 1)
	})
	c.Guard("C19", "empty inputs", func() {
		if _, _, err := conversion.GetParties(nil, randNode(c.Rand("e", 0)).Bech); err == nil {
			c.Violate("empty-list-accepted", "an empty key list is accepted")
		}
		if p := conversion.GetPeersID(map[string]peer.ID{}, "x"); len(p) != 0 {
			c.Violate("other-peers", "%v from an empty map", p)
		}
		if p := conversion.GetPeersID(nil, "x"); len(p) != 0 {
			c.Violate("other-peers", "%v from a nil map", p)
		}
		if _, err := conversion.GetPeerIDFromSecp256PubKey(nil); err == nil {
			c.Violate("malformed-accepted", "empty raw key")
		}
		if _, err := conversion.GetPeerIDFromPartyID(nil); err == nil {
			c.Violate("malformed-accepted", "nil party")
		}
		if _, err := conversion.PartyIDtoPubKey(nil); err == nil {
			c.Violate("malformed-accepted", "nil party")
		}
	})
	// malformed inputs
	c.Parallel(c.N(400, 4000), 0, func(i int) {
		r := c.Rand("bad", i)
		nodes := randNodes(r, 3+r.Intn(4))
		good := nodes[0].Bech
		for _, k := range badKeys(r, good) {
			if k == good {
				continue
			}
			c.Guard("C19", fmt.Sprintf("malformed key %q", k), func() {
				if p, err := conversion.GetPeerIDFromPubKey(k); err == nil {
					c.Violate("malformed-key-to-peer", "%q -> %s", k, p)
				}
				if p, err := conversion.GetPeerIDs([]string{good, k}); err == nil {
					c.Violate("malformed-key-to-peer", "list with %q -> %v", k, p)
				}
				if p, err := conversion.GetPeerIDsFromPubKeys([]string{k, good}); err == nil {
					c.Violate("malformed-key-to-peer", "list with %q -> %v", k, p)
				}
				if ok, err := conversion.CheckKeyOnCurve(k); err == nil && ok {
					c.Violate("malformed-key-on-curve", "%q", k)
				}
				l := shuffled(r, append([]string{k}, bechs(nodes)...))
				ids, _, err := conversion.GetParties(l, good)
				if err == nil {
					err = conversion.SetupIDMaps(conversion.SetupPartyIDMap(ids), map[string]peer.ID{})
				}
				if err == nil {
					c.Violate("malformed-key-to-party", "a participant list with %q is accepted: %v", k, ids)
				}
			})
			c.Count("malformed-keys", 1)
			c.Case("bad"+k, true)
		}
		_, edpub, _ := lcrypto.GenerateEd25519Key(r)
		edid, _ := peer.IDFromPublicKey(edpub)
		for _, p := range []string{"", "x", "Qm", edid.String(), rsaPeers[0], rsaPeers[1], nodes[0].Peer.String()[:20], "16Uiu2" + string(randBytes(r, 8)), string(randBytes(r, 30)), string(randBytes(r, 30)), good} {
			c.Guard("C19", fmt.Sprintf("malformed peer id %q", p), func() {
				if k, err := conversion.GetPubKeyFromPeerID(p); err == nil {
					c.Violate("keyless-peer-converted", "peer id %q -> %s", p, k)
				}
				if k, err := conversion.GetPubKeysFromPeerIDs([]string{nodes[0].Peer.String(), p}); err == nil {
					c.Violate("keyless-peer-converted", "list with peer id %q -> %v", p, k)
				}
			})
			c.Count("malformed-peers", 1)
			c.Case("badpeer"+p, true)
		}
		raw := [][]byte{{}, {2}, randBytes(r, 32), randBytes(r, 34), append([]byte{9}, randBytes(r, 32)...), append(append([]byte{}, nodes[0].Pub...), 0)}
		for _, b := range raw {
			c.Guard("C19", fmt.Sprintf("malformed raw key %x", b), func() {
				if p, err := conversion.GetPeerIDFromSecp256PubKey(b); err == nil {
					c.Violate("malformed-raw-to-peer", "%x -> %s", b, p)
				}
			})
		}
		e := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
		h := hex.EncodeToString(nodes[0].Priv)
		for _, s := range []string{"", "%%%", e(""), e("zz"), e(h[:62]), e(h[:2]), e(h[:63]), e(h + "zz"), h, e(string(randBytes(r, 32))), e(h + h[:2])} {
			c.Guard("C19", fmt.Sprintf("malformed private key %q", s), func() {
				if pk, err := conversion.GetPriKey(s); err == nil {
					c.Violate("malformed-private-key", "%q -> %x", s, pk.Bytes())
				}
			})
			c.Count("malformed-private-keys", 1)
			c.Case("badpriv"+s, true)
		}
	})
	sort.Strings(nil)
	c.Require("keys", 1000)
	c.Require("malformed-keys", 1000)
}
