package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/btcsuite/btcd/btcec"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/storage"
)

func init() {
	register("C01", checkC01)
	register("C02", checkC02)
}

func everyone(int) bool { return true }

func checkC01(c *Ctx) {
	c.Rule = "real key generation on n in-memory nodes (n=2..5 quick, ..7 thorough), every node with its own ordering of the keys, random delivery delays, reordering, duplicates and start offsets; some runs with a store that fails, some with a participant going silent late; non-trivial = the ceremony finished on every node"
	type job struct {
		n    int
		kind string
	}
	jobs := []job{{5, "chaos"}, {4, "chaos"}, {4, "late"}, {3, "calm"}, {3, "chaos"}, {3, "failstore"}, {2, "calm"}, {2, "chaos"}, {3, "lastgasp"}}
	if c.Thorough {
		for k := 0; k < 12; k++ {
			jobs = append(jobs, job{2 + k%6, "chaos"}, job{3 + k%3, "late"}, job{3 + k%2, "lastgasp"}, job{2 + k%3, "failstore"})
		}
	}
	c.Parallel(len(jobs), 3, func(ji int) {
		if c.Violated() {
			return
		}
		j := jobs[ji]
		r := c.Rand("kg", ji)
		nodes := randNodes(r, j.n)
		cr := &Cer{Nodes: nodes, MsgID: sessionID(fmt.Sprint(c.Seed, ji)), Timeout: 40 * time.Second}
		desc := fmt.Sprintf("keygen %d n=%d %s", ji, j.n, j.kind)
		silentFrom := -1
		switch j.kind {
		case "chaos":
			cr.Filter = cr.chaos(r.Int63(), 400*time.Millisecond, 0.25, c)
		case "late":
			cr.Filter = cr.chaos(r.Int63(), 100*time.Millisecond, 0.1, c)
			off := make([]time.Duration, j.n)
			for i := range off {
				off[i] = time.Duration(r.Intn(2500)) * time.Millisecond
			}
			cr.StartDelay = func(i int) time.Duration { return off[i] }
		case "failstore":
			cr.failSave = map[int]bool{r.Intn(j.n): true}
		case "lastgasp":
			// one node's last broadcast never reaches the others: it finishes, they do not
			silentFrom = r.Intn(j.n)
			cr.Timeout = 15 * time.Second
			s := &silencer{from: map[int]int{silentFrom: 3}}
			cr.Filter = func(e *cerEvt, to int, p []byte) []cerDelivery {
				if s.drop(cr, e) {
					return nil
				}
				return []cerDelivery{{To: to, From: e.From, Payload: p}}
			}
		}
		lists := make([][]string, j.n)
		for i := range lists {
			lists[i] = shuffled(r, bechs(nodes))
		}
		if !cr.RunKeygen(c, func(i int) []string { return append([]string{}, lists[i]...) }) {
			c.Violate("hang", "%s: key generation did not return\n%s", desc, allStacks())
			return
		}
		allOK := checkKeygenOutcome(c, cr, desc)
		if j.kind == "chaos" || j.kind == "calm" || j.kind == "late" {
			for i := range nodes {
				if cr.Res[i].Err != nil {
					c.Violate("honest-failure", "%s: all participants honest and connected, but node %d failed: %v, blaming %s", desc, i, cr.Res[i].Err, cr.names(blamedKeys(cr.Res[i].Blame)))
				}
				if b := blamedKeys(cr.Res[i].Blame); len(b) != 0 {
					c.Violate("honest-blame", "%s: all participants honest and connected, but node %d blames %s", desc, i, cr.names(b))
				}
			}
			cr.checkOutgoing(c, desc, true, everyone)
			cr.checkDone(c, desc, everyone)
		}
		c.Count("ceremonies_"+j.kind, 1)
		c.Case(fmt.Sprintf("%s|%s", desc, cr.traceSig()), allOK)
		c.Sample(j.kind, "%s: %d network messages, all finished=%v", desc, len(cr.Events()), allOK)
	})
	serverKeygenLab(c)
	c.Require("successful_nodes", 12)
	c.Require("reconstructions", 10)
}

// checkKeygenOutcome checks the nodes that report success (C01); it returns whether all did.
func checkKeygenOutcome(c *Ctx, cr *Cer, desc string) bool {
	n := len(cr.Nodes)
	t := thresholdOf(n)
	all := true
	first := -1
	var recs []storage.KeygenLocalState
	for i, nd := range cr.Nodes {
		res := cr.Res[i]
		if res.Err != nil {
			all = false
			if res.Pub != nil {
				c.Violate("result-with-error", "%s: node %d returned both a key and an error %v", desc, i, res.Err)
			}
			continue
		}
		c.Count("successful_nodes", 1)
		if res.Pub == nil {
			c.Violate("no-key", "%s: node %d reports success without a key", desc, i)
			all = false
			continue
		}
		if first < 0 {
			first = i
		}
		p0 := cr.Res[first].Pub
		if p0.X().Cmp(res.Pub.X()) != 0 || p0.Y().Cmp(res.Pub.Y()) != 0 {
			c.Violate("disagreement", "%s: nodes %d and %d report different pool keys", desc, first, i)
		}
		bech := bechOf(res.Pub.X(), res.Pub.Y())
		pk, adr, err := conversion.GetTssPubKey(res.Pub)
		if err != nil || pk != bech || hex.EncodeToString(adr.Bytes()) != hexAddrOf(res.Pub.X(), res.Pub.Y()) {
			c.Violate("pool-address", "%s: node %d: reported key %s address %x (err %v), expected %s %s", desc, i, pk, adr.Bytes(), err, bech, hexAddrOf(res.Pub.X(), res.Pub.Y()))
		}
		sv := res.State.saved()
		if len(sv) != 1 {
			c.Violate("stored", "%s: node %d reports success and stored %d records", desc, i, len(sv))
			continue
		}
		rec, err := res.State.GetLocalState(bech)
		if err != nil {
			c.Violate("stored", "%s: node %d: the record is not retrievable by the pool key: %v", desc, i, err)
			continue
		}
		if rec.PubKey != bech || rec.LocalPartyKey != nd.Bech || !sameStrings(rec.ParticipantKeys, bechs(cr.Nodes)) {
			c.Violate("stored", "%s: node %d stored pool key %s, local key %s, participants %v", desc, i, rec.PubKey, rec.LocalPartyKey, rec.ParticipantKeys)
		}
		if rec.LocalData.ECDSAPub == nil || !reflect.DeepEqual(rec.LocalData.Xi, sv[0].LocalData.Xi) || rec.LocalData.ECDSAPub.X().Cmp(res.Pub.X()) != 0 {
			c.Violate("stored", "%s: node %d: stored share does not belong to the reported key", desc, i)
			continue
		}
		if rec.LocalData.ShareID == nil || rec.LocalData.ShareID.Cmp(new(big.Int).SetBytes(nd.Pub)) != 0 {
			c.Violate("stored", "%s: node %d: share id %v is not the node's key", desc, i, rec.LocalData.ShareID)
		}
		recs = append(recs, rec)
	}
	if first < 0 || len(recs) < t+1 {
		return all
	}
	pub := cr.Res[first].Pub
	r := c.Rand("comb"+desc, 0)
	for k := 0; k < 6; k++ {
		p := r.Perm(len(recs))[:t+1]
		var sub []storage.KeygenLocalState
		for _, i := range p {
			sub = append(sub, recs[i])
		}
		x, y := btcec.S256().ScalarBaseMult(combine(sub).Bytes())
		if x.Cmp(pub.X()) != 0 || y.Cmp(pub.Y()) != 0 {
			c.Violate("recover", "%s: the shares of nodes %v (threshold %d) do not combine to the reported key", desc, p, t)
		}
		if t > 0 {
			x, _ := btcec.S256().ScalarBaseMult(combine(sub[:t]).Bytes())
			if x.Cmp(pub.X()) == 0 {
				c.Violate("recover-few", "%s: only %d shares combine to the key (threshold %d)", desc, t, t)
			}
		}
		c.Count("reconstructions", 1)
	}
	// every node knows the public share of every other
	for _, a := range recs {
		for _, b := range recs {
			for k := range a.LocalData.Ks {
				if a.LocalData.Ks[k].Cmp(b.LocalData.ShareID) == 0 {
					x, y := btcec.S256().ScalarBaseMult(b.LocalData.Xi.Bytes())
					if a.LocalData.BigXj[k].X().Cmp(x) != 0 || a.LocalData.BigXj[k].Y().Cmp(y) != 0 {
						c.Violate("public-share", "%s: a stored record holds a wrong public share of another participant", desc)
					}
				}
			}
		}
	}
	return all
}

func checkC02(c *Ctx) {
	c.Rule = "real signing by t+1..n members of dealt pools (n=2..5 quick, ..7 thorough), batches of 1..12 messages of 1..80 arbitrary bytes (with repeats, equal prefixes, leading zeros, values above the group order), random delays, reordering and duplicates; non-trivial = every signer returned signatures"
	n := c.N(34, 300)
	c.Parallel(n, 4, func(ji int) {
		if c.Violated() {
			return
		}
		r := c.Rand("ks", ji)
		pn := 2 + r.Intn(4)
		if c.Thorough && r.Intn(4) == 0 {
			pn = 5 + r.Intn(3)
		}
		t := thresholdOf(pn)
		pool := dealKey(r, randNodes(r, pn), t)
		k := t + 1 + r.Intn(pn-t)
		perm := r.Perm(pn)[:k]
		var signers []*Node
		for i := 0; i < pn; i++ {
			for _, p := range perm {
				if p == i {
					signers = append(signers, pool.Nodes[i])
				}
			}
		}
		bn := 1 + r.Intn(3)
		if r.Intn(5) == 0 {
			bn = 4 + r.Intn(9)
		}
		var msgs [][]byte
		for len(msgs) < bn {
			msgs = append(msgs, randMessage(r, msgs))
		}
		msgs = sortedForSigning(msgs)
		cr := &Cer{Nodes: signers, MsgID: sessionID(fmt.Sprint("s", c.Seed, ji)), Timeout: 40 * time.Second}
		desc := fmt.Sprintf("keysign %d pool=%d signers=%d batch=%d", ji, pn, k, bn)
		if r.Intn(4) > 0 {
			cr.Filter = cr.chaos(r.Int63(), time.Duration(r.Intn(200))*time.Millisecond, 0.25, c)
		}
		if r.Intn(4) == 0 {
			off := make([]time.Duration, k)
			for i := range off {
				off[i] = time.Duration(r.Intn(1500)) * time.Millisecond
			}
			cr.StartDelay = func(i int) time.Duration { return off[i] }
		}
		lists := make([][]string, k)
		for i := range lists {
			lists[i] = shuffled(r, bechs(signers))
		}
		if !cr.RunKeysign(c, pool, msgs, func(i int) []string { return append([]string{}, lists[i]...) }) {
			c.Violate("hang", "%s: signing did not return\n%s", desc, allStacks())
			return
		}
		ok := true
		for i := range signers {
			res := cr.Res[i]
			if res.Err != nil {
				ok = false
				c.Violate("honest-failure", "%s: all signers honest and connected, but node %d failed: %v, blaming %s", desc, i, res.Err, cr.names(blamedKeys(res.Blame)))
				continue
			}
			if b := blamedKeys(res.Blame); len(b) != 0 {
				c.Violate("honest-blame", "%s: node %d blames %s", desc, i, cr.names(b))
			}
			if len(res.Sigs) != bn {
				c.Violate("count", "%s: node %d returned %d signatures", desc, i, len(res.Sigs))
				continue
			}
			for q, s := range res.Sigs {
				if bad := verifySig(s, msgs[q], pool.X, pool.Y); bad != "" {
					c.Violate("signature", "%s: node %d, message %d (%x): %s", desc, i, q, msgs[q], bad)
				}
				if s != nil && new(big.Int).SetBytes(s.M).Cmp(new(big.Int).Mod(hashInt(msgs[q]), btcec.S256().N)) != 0 {
					c.Violate("label", "%s: node %d, message %d (%x) is labelled %x", desc, i, q, msgs[q], s.M)
				}
				f := cr.Res[0].Sigs
				if len(f) == bn && s != nil && f[q] != nil && (string(f[q].R) != string(s.R) || string(f[q].S) != string(s.S) || string(f[q].SignatureRecovery) != string(s.SignatureRecovery)) {
					c.Violate("disagreement", "%s: nodes 0 and %d return different signatures for message %d", desc, i, q)
				}
				c.Count("signatures_verified", 1)
			}
		}
		cr.checkOutgoing(c, desc, ok, everyone)
		cr.checkDone(c, desc, everyone)
		c.Case(desc+cr.traceSig(), ok)
		c.Sample(fmt.Sprintf("batch>3=%v", bn > 3), "%s: %d network messages", desc, len(cr.Events()))
	})
	c.Require("signatures_verified", 60)
	serverSignLab(c)
}
