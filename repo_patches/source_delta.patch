From 457397ef1936f29d969b4cd1594378116ddadf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 01/38] fix: release a session's streams atomically and reset
 unattributable streams only once

---
 p2p/stream_helper.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/p2p/stream_helper.go b/p2p/stream_helper.go
index 38d3759..66f1277 100644
--- a/p2p/stream_helper.go
+++ b/p2p/stream_helper.go
@@ -39,21 +39,21 @@ func NewStreamMgr() *StreamMgr {
 }
 
 func (sm *StreamMgr) ReleaseStream(msgID string) {
-	sm.streamLocker.RLock()
-	usedStreams, okStream := sm.unusedStreams[msgID]
-	unknownStreams, okUnknown := sm.unusedStreams["UNKNOWN"]
-	sm.streamLocker.RUnlock()
-	streams := append(usedStreams, unknownStreams...)
-	if okStream || okUnknown {
-		for _, el := range streams {
-			err := el.Reset()
-			if err != nil {
-				sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
-			}
+	// the streams are taken out of the map in the same critical section that reads them,
+	// so a stream is reset once and one that is added meanwhile waits for the next release.
+	sm.streamLocker.Lock()
+	streams := append([]network.Stream{}, sm.unusedStreams[msgID]...)
+	if msgID != "UNKNOWN" {
+		streams = append(streams, sm.unusedStreams["UNKNOWN"]...)
+	}
+	delete(sm.unusedStreams, msgID)
+	delete(sm.unusedStreams, "UNKNOWN")
+	sm.streamLocker.Unlock()
+	for _, el := range streams {
+		err := el.Reset()
+		if err != nil {
+			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
 		}
-		sm.streamLocker.Lock()
-		delete(sm.unusedStreams, msgID)
-		sm.streamLocker.Unlock()
 	}
 }
 
-- 
2.43.0


From 9a3aa3a757c3963462af03a223c8d0eb9045b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 02/38] fix: GetPeersID must not panic on an empty map

---
 conversion/conversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/conversion.go b/conversion/conversion.go
index 0558d71..9a1590a 100644
--- a/conversion/conversion.go
+++ b/conversion/conversion.go
@@ -86,7 +86,7 @@ func GetPeersID(partyIDtoP2PID map[string]peer.ID, localPeerID string) []peer.ID
 	if partyIDtoP2PID == nil {
 		return nil
 	}
-	peerIDs := make([]peer.ID, 0, len(partyIDtoP2PID)-1)
+	peerIDs := make([]peer.ID, 0, len(partyIDtoP2PID))
 	for _, value := range partyIDtoP2PID {
 		if value.String() == localPeerID {
 			continue
-- 
2.43.0


From 34ea26ebec7d9a002a978230cc2d49056819b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 03/38] fix: refuse private keys that are not 32 bytes instead
 of panicking or truncating

---
 conversion/key_provider.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conversion/key_provider.go b/conversion/key_provider.go
index 3f1ea7b..ec1f3da 100644
--- a/conversion/key_provider.go
+++ b/conversion/key_provider.go
@@ -96,8 +96,11 @@ func GetPriKey(priKeyString string) (tcrypto.PrivKey, error) {
 	if err != nil {
 		return nil, fmt.Errorf("fail to hex decode private key: %w", err)
 	}
+	if len(rawBytes) != secp256k1.PrivKeySize {
+		return nil, fmt.Errorf("invalid private key length %d, expect %d", len(rawBytes), secp256k1.PrivKeySize)
+	}
 	var priKey secp256k1.PrivKey
-	priKey = rawBytes[:32]
+	priKey = rawBytes
 	return priKey, nil
 }
 
-- 
2.43.0


From 8aecb65e4836793b65db397bdcd66f4b96562134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 04/38] fix: refuse peer ids that do not carry a secp256k1 key
 when converting to a node key

---
 conversion/key_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conversion/key_provider.go b/conversion/key_provider.go
index ec1f3da..7f53480 100644
--- a/conversion/key_provider.go
+++ b/conversion/key_provider.go
@@ -77,6 +77,9 @@ func GetPubKeyFromPeerID(pID string) (string, error) {
 	if err != nil {
 		return "", fmt.Errorf("fail to extract pub key from peer id: %w", err)
 	}
+	if _, ok := pk.(*crypto.Secp256k1PublicKey); !ok {
+		return "", fmt.Errorf("peer id %s does not carry a secp256k1 public key", pID)
+	}
 	rawBytes, err := pk.Raw()
 	if err != nil {
 		return "", fmt.Errorf("faail to get pub key raw bytes: %w", err)
-- 
2.43.0


From 670bcf81744c3f0dd75c175c3bc82776307a1322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 05/38] fix: recovery tool honours -n and fails on missing,
 unusable or mismatched shares

---
 cmd/tss-recovery/tss-recovery.go | 37 ++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/cmd/tss-recovery/tss-recovery.go b/cmd/tss-recovery/tss-recovery.go
index 7f3adab..4c18f24 100644
--- a/cmd/tss-recovery/tss-recovery.go
+++ b/cmd/tss-recovery/tss-recovery.go
@@ -11,20 +11,32 @@ import (
 	. "github.com/decred/dcrd/dcrec/secp256k1"
 )
 
+func exitOnError(format string, a ...interface{}) {
+	fmt.Printf(format+"\n", a...)
+	os.Exit(1)
+}
+
 func main() {
-	n := *(flag.Int("n", 3, "signing party size"))
-	threshold := n - 1
+	size := flag.Int("n", 3, "signing party size")
 	export := flag.String("export", "", "path to export keyfile")
 	password := flag.String("password", "", "encryption password for keyfile")
 	flag.Parse()
 	files := flag.Args()
+	n := *size
+	threshold := n - 1
+	if n < 1 || len(files) < n {
+		exitOnError("---need the share files of %d nodes, got %d", n, len(files))
+	}
 
 	setupBech32Prefix()
 	allSecret := make([]KeygenLocalState, len(files))
 	for i, f := range files {
 		tssSecret, err := getTssSecretFile(f)
 		if err != nil {
-			fmt.Printf("---%v\n", err)
+			exitOnError("---%v", err)
+		}
+		if tssSecret.LocalData.ShareID == nil || tssSecret.LocalData.Xi == nil {
+			exitOnError("---no key share in file %s", f)
 		}
 		allSecret[i] = tssSecret
 	}
@@ -32,6 +44,11 @@ func main() {
 	vssShares := make(vss.Shares, len(allSecret))
 
 	for i, el := range allSecret {
+		for _, other := range vssShares[:i] {
+			if other.ID.Cmp(el.LocalData.ShareID) == 0 {
+				exitOnError("---file %s repeats the share of another file", files[i])
+			}
+		}
 		share := vss.Share{
 			Threshold: threshold,
 			ID:        el.LocalData.ShareID,
@@ -42,7 +59,7 @@ func main() {
 
 	tssPrivateKey, err := vssShares[:n].ReConstruct()
 	if err != nil {
-		fmt.Printf("error in tss verify")
+		exitOnError("error in tss verify: %v", err)
 	}
 
 	privKey := NewPrivateKey(tssPrivateKey)
@@ -50,7 +67,13 @@ func main() {
 	pk := privKey.PubKey()
 	thorchainpk, address, err := getTssPubKey(pk.X, pk.Y)
 	if err != nil {
-		fmt.Printf("--->%v", err)
+		exitOnError("--->%v", err)
+	}
+	// a wrong number or a wrong set of shares reconstructs to some other key
+	for i, el := range allSecret {
+		if el.PubKey != thorchainpk {
+			exitOnError("---the shares do not reconstruct the key of file %s, check the files and the signing party size", files[i])
+		}
 	}
 	fmt.Printf("---recoverd sk:%v\n", privKey)
 	fmt.Printf("---recoverd pk:%v\n", thorchainpk)
@@ -59,13 +82,13 @@ func main() {
 	if len(*export) > 0 && len(*password) >= 8 {
 		keyfile, err := exportKeyStore(privKey.Serialize(), *password)
 		if err != nil {
-			fmt.Printf("--->%v", err)
+			exitOnError("--->%v", err)
 		}
 
 		jsonString, _ := json.Marshal(keyfile)
 		err = ioutil.WriteFile(*export, jsonString, os.ModePerm)
 		if err != nil {
-			fmt.Printf("--->%v", err)
+			exitOnError("--->%v", err)
 		}
 		fmt.Printf("---wrote to: %+v\n", *export)
 	}
-- 
2.43.0


From e2fc2e522132042a6b9bb22ca976f51a5152926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:28 +0000
Subject: [PATCH 06/38] fix: blame a node missing in several message groups
 once, and a peer nobody heard from

---
 blame/policy.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/blame/policy.go b/blame/policy.go
index a580d04..9a2dc19 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -135,7 +135,6 @@ func (m *Manager) TssWrongShareBlame(wiredMsg *messages.WireMessage) (string, er
 func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	acceptedShareForMsg := make(map[string][][]string)
 	var blameNodes []Node
-	var peers []string
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
@@ -150,6 +149,13 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	}
 	m.acceptShareLocker.Unlock()
 
+	// we have not accepted any share at all, so every round of every peer is missing
+	if len(acceptedShareForMsg) == 0 {
+		acceptedShareForMsg[""] = make([][]string, rounds)
+	}
+
+	// a node that is missing in several message groups is blamed once
+	blamed := make(map[string]bool)
 	for _, cachedShares := range acceptedShareForMsg {
 		// we search from the first round to find the missing
 		for index, el := range cachedShares {
@@ -174,24 +180,22 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 			}
 			// we add our own id to avoid blame ourselves
 			// since all the local parties have the same id, so we just need to take one of them to get the peer
-
-			el = append(el, m.localPartyID)
+			peers := []string{m.PartyIDtoP2PID[m.localPartyID].String()}
 			for _, pid := range el {
 				peers = append(peers, m.PartyIDtoP2PID[pid].String())
 			}
-			break
-		}
-		blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
-		if err != nil {
-			return nil, isUnicast, err
-		}
-		for _, el := range blamePubKeys {
-			node := Node{
-				el,
-				nil,
-				nil,
+			blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
+			if err != nil {
+				return nil, isUnicast, err
 			}
-			blameNodes = append(blameNodes, node)
+			for _, pk := range blamePubKeys {
+				if blamed[pk] {
+					continue
+				}
+				blamed[pk] = true
+				blameNodes = append(blameNodes, NewNode(pk, nil, nil))
+			}
+			break
 		}
 	}
 	return blameNodes, isUnicast, nil
-- 
2.43.0


From 50884a3463d37a4bceb1398851d69f3640a8183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 07/38] fix: return an error when the party id mapping fails
 instead of a nil result

---
 keygen/tss_keygen.go   | 2 +-
 keysign/tss_keysign.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 262509c..013e1df 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -98,7 +98,7 @@ func (tKeyGen *TssKeyGen) GenerateNewKey(keygenReq Request) (*bcrypto.ECPoint, e
 	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
 	if err1 != nil || err2 != nil {
 		tKeyGen.logger.Error().Msgf("error in creating mapping between partyID and P2P ID")
-		return nil, err
+		return nil, errors.New("fail to create the mapping between party ID and P2P ID")
 	}
 	// we never run multi keygen, so the moniker is set to default empty value
 	keyGenPartyMap.Store("", keyGenParty)
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index cd2ebe9..6daf50d 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -124,8 +124,8 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 	err1 := conversion.SetupIDMaps(partyIDMap, tKeySign.tssCommonStruct.PartyIDtoP2PID)
 	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
 	if err1 != nil || err2 != nil {
-		tKeySign.logger.Error().Err(err).Msgf("error in creating mapping between partyID and P2P ID")
-		return nil, err
+		tKeySign.logger.Error().Msgf("error in creating mapping between partyID and P2P ID")
+		return nil, errors.New("fail to create the mapping between party ID and P2P ID")
 	}
 
 	tKeySign.tssCommonStruct.SetPartyInfo(&common.PartyInfo{
-- 
2.43.0


From 3b49756ee8b69e5b1ec59d5cc42278f1f64ea3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 08/38] fix: keysign timeout before the first message must not
 dereference a nil message

---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 6daf50d..e425c9c 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -200,6 +200,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
+			if lastMsg == nil {
+				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
+				return nil, errors.New("timeout before shared message is generated")
+			}
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From 46bb941cd6ed6e03b97c853d00376ab7695141b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 09/38] fix: return signatures of equal messages in the same
 order on every node

---
 keysign/tss_keysign.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index e425c9c..81869a7 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -1,6 +1,7 @@
 package keysign
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"math/big"
@@ -168,10 +169,11 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 		a := new(big.Int).SetBytes(results[i].M)
 		b := new(big.Int).SetBytes(results[j].M)
 
-		if a.Cmp(b) == -1 {
-			return false
+		if cmp := a.Cmp(b); cmp != 0 {
+			return cmp > 0
 		}
-		return true
+		// every node has to return the signatures of equal messages in the same order
+		return bytes.Compare(results[i].R, results[j].R) > 0
 	})
 
 	return results, nil
-- 
2.43.0


From 321915c28d48823e1008bba3b038af6641be559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 10/38] fix: refuse to sign nothing or zero, sign hashes above
 the group order

---
 common/tss_helper.go   | 3 ++-
 keysign/tss_keysign.go | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/tss_helper.go b/common/tss_helper.go
index eaf713a..3245d06 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -66,7 +66,8 @@ func hashToInt(hash []byte, c elliptic.Curve) *big.Int {
 	if excess > 0 {
 		ret.Rsh(ret, uint(excess))
 	}
-	return ret
+	// tss-lib only accepts values below the group order, reducing the value does not change what is signed
+	return ret.Mod(ret, c.Params().N)
 }
 
 func InitLog(level string, pretty bool, serviceValue string) {
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 81869a7..fae029d 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -91,6 +91,9 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 		tKeySign.logger.Info().Msgf("we are not in this rounds key sign")
 		return nil, nil
 	}
+	if len(msgsToSign) == 0 {
+		return nil, errors.New("no message to sign")
+	}
 	threshold, err := conversion.GetThreshold(len(localStateItem.ParticipantKeys))
 	if err != nil {
 		return nil, errors.New("fail to get threshold")
@@ -107,6 +110,10 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 		if err != nil {
 			return nil, fmt.Errorf("fail to convert msg to hash int: %w", err)
 		}
+		// tss-lib panics when it finalizes the signature of zero
+		if m.Sign() == 0 {
+			return nil, errors.New("the hash of the message to sign is zero")
+		}
 		moniker := m.String() + ":" + strconv.Itoa(i)
 		partiesID, eachLocalPartyID, err := conversion.GetParties(parties, localStateItem.LocalPartyKey)
 		ctx := btss.NewPeerContext(partiesID)
-- 
2.43.0


From 4ab50e420c3839417203ee3095761f688bb854af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 11/38] fix: send the last shares of a finished ceremony before
 leaving it

---
 common/tss.go          | 15 +++++++++++++++
 keygen/tss_keygen.go   |  4 ++++
 keysign/tss_keysign.go |  4 ++++
 3 files changed, 23 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 07066a5..3911852 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -561,6 +561,21 @@ func (t *TssCommon) ProcessOutCh(msg btss.Message, msgType messages.THORChainTSS
 	return nil
 }
 
+// ProcessPendingOutCh processes the messages that are already queued in the given channel
+func (t *TssCommon) ProcessPendingOutCh(outCh <-chan btss.Message, msgType messages.THORChainTSSMessageType) error {
+	for {
+		select {
+		case msg := <-outCh:
+			t.blameMgr.SetLastMsg(msg)
+			if err := t.ProcessOutCh(msg, msgType); err != nil {
+				return err
+			}
+		default:
+			return nil
+		}
+	}
+}
+
 func (t *TssCommon) applyShare(localCacheItem *LocalCacheItem, threshold int, key string, msgType messages.THORChainTSSMessageType) error {
 	unicast := true
 	if localCacheItem.Msg.Routing.IsBroadcast {
diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 013e1df..0340ac1 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -215,6 +215,10 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 
 		case msg := <-endCh:
 			tKeyGen.logger.Debug().Msgf("keygen finished successfully: %s", msg.ECDSAPub.Y().String())
+			// our last shares may still be queued, the other nodes cannot finish without them
+			if err := tKeyGen.tssCommonStruct.ProcessPendingOutCh(outCh, messages.TSSKeyGenMsg); err != nil {
+				return nil, err
+			}
 			err := tKeyGen.tssCommonStruct.NotifyTaskDone()
 			if err != nil {
 				tKeyGen.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index fae029d..db4a580 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -270,6 +270,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			signatures = append(signatures, msg.GetSignature())
 			if len(signatures) == reqNum {
 				tKeySign.logger.Debug().Msg("we have done the key sign")
+				// our last shares may still be queued, the other nodes cannot finish without them
+				if err := tKeySign.tssCommonStruct.ProcessPendingOutCh(outCh, messages.TSSKeySignMsg); err != nil {
+					return nil, err
+				}
 				err := tKeySign.tssCommonStruct.NotifyTaskDone()
 				if err != nil {
 					tKeySign.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
-- 
2.43.0


From bccc7adae6968d260e6aeb06b9c635ef5964ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 12/38] fix: do not blame the nodes that wait for a wrong share
 once its author is known

---
 keygen/tss_keygen.go   | 4 ++++
 keysign/tss_keysign.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 0340ac1..0c69284 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -171,6 +171,10 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 				tKeyGen.logger.Error().Msg("fail to start the keygen, the last produced message of this node is none")
 				return nil, errors.New("timeout before shared message is generated")
 			}
+			// once we know whose share is wrong, the others are late because of that share
+			if blameMgr.GetBlame().AlreadyBlame() {
+				return nil, blame.ErrTssTimeOut
+			}
 			blameNodesUnicast, err := blameMgr.GetUnicastBlame(messages.KEYGEN2aUnicast)
 			if err != nil {
 				tKeyGen.logger.Error().Err(err).Msg("error in get unicast blame")
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index db4a580..10fea35 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -213,6 +213,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
 				return nil, errors.New("timeout before shared message is generated")
 			}
+			// once we know whose share is wrong, the others are late because of that share
+			if blameMgr.GetBlame().AlreadyBlame() {
+				return nil, blame.ErrTssTimeOut
+			}
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From cab7b423fa34f51210e3c110fe7abb836f46f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 13/38] fix: a share that makes tss-lib fail or panic must not
 crash the node

---
 common/tss.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 3911852..0e68279 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -49,6 +49,7 @@ type TssCommon struct {
 	culpritsLock                *sync.RWMutex
 	cachedWireBroadcastMsgLists *sync.Map
 	cachedWireUnicastMsgLists   *sync.Map
+	failedParties               *sync.Map // the local parties that refused a share, they must not be updated any more
 	msgNum                      int
 }
 
@@ -74,6 +75,7 @@ func NewTssCommon(peerID string, broadcastChannel chan *messages.BroadcastMsgCha
 		culpritsLock:                &sync.RWMutex{},
 		cachedWireBroadcastMsgLists: &sync.Map{},
 		cachedWireUnicastMsgLists:   &sync.Map{},
+		failedParties:               &sync.Map{},
 		msgNum:                      msgNum,
 	}
 }
@@ -111,6 +113,18 @@ func newJob(party btss.Party, wireBytes []byte, msgIdentifier string, from *btss
 	}
 }
 
+// updateParty applies the share to the local party, a share that makes tss-lib panic is an error
+func updateParty(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool) (errUp *btss.Error) {
+	defer func() {
+		if r := recover(); r != nil {
+			// it is unknown whose share caused it, so there is no culprit
+			errUp = btss.NewError(fmt.Errorf("panic in applying the share: %v", r), "update", -1, party.PartyID())
+		}
+	}()
+	_, errUp = party.UpdateFromBytes(wireBytes, from, isBroadcast)
+	return errUp
+}
+
 func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 	defer func() {
 		jobWg.Done()
@@ -129,8 +143,14 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 		}
 		round.MsgIdentifier = tssjob.msgIdentifier
 
-		_, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
+		// tss-lib panics when a round that failed half way is fed with more shares
+		if _, failed := t.failedParties.Load(tssjob.msgIdentifier); failed {
+			t.logger.Debug().Msgf("local party %s has failed, ignore the share of %s", tssjob.msgIdentifier, partyID.Id)
+			continue
+		}
+		errUp := updateParty(party, wireBytes, partyID, isBroadcast)
 		if errUp != nil {
+			t.failedParties.Store(tssjob.msgIdentifier, true)
 			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
 			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
 			continue
-- 
2.43.0


From ca12c747f5e44307ffd33e91691b4fd063481f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 14/38] fix: a share of the other protocol must not crash the
 timeout blame

---
 blame/policy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blame/policy.go b/blame/policy.go
index 9a2dc19..f9ed8f8 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -138,6 +138,10 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
+		// a peer may have sent us a share of the other protocol
+		if roundInfo.Index >= rounds {
+			continue
+		}
 		cachedShares, ok := acceptedShareForMsg[roundInfo.MsgIdentifier]
 		if !ok {
 			cachedShares := make([][]string, rounds)
-- 
2.43.0


From 1926d6fa766840113a306073eb8d7b4fbc568787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 15/38] fix: end the share workers when a bulk message is
 refused

---
 common/tss.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 0e68279..bec0358 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -276,6 +276,11 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	worker := runtime.NumCPU()
 	tssJobChan := make(chan *tssJob, len(bulkMsg))
 	jobWg := sync.WaitGroup{}
+	// the workers have to end however we leave
+	defer func() {
+		close(tssJobChan)
+		jobWg.Wait()
+	}()
 	for i := 0; i < worker; i++ {
 		jobWg.Add(1)
 		go t.doTssJob(tssJobChan, &jobWg)
@@ -326,8 +331,6 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
 		tssJobChan <- job
 	}
-	close(tssJobChan)
-	jobWg.Wait()
 	return nil
 }
 
-- 
2.43.0


From 4cb6739cd7d743dfff896c5c639e5fbbb8a91804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:34 +0000
Subject: [PATCH 16/38] fix: the shares of a bulk message belong to the owner
 and round that were confirmed

---
 common/tss.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index bec0358..4b3dfe0 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -312,7 +312,6 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			t.logger.Debug().Msgf("we received the duplicated message from party %s", partyID.Id)
 			continue
 		}
-
 		partyInlist := func(el *btss.PartyID, l []*btss.PartyID) bool {
 			for _, each := range l {
 				if el == each {
@@ -768,6 +767,28 @@ func (t *TssCommon) receiverBroadcastHashToPeers(wireMsg *messages.WireMessage,
 	return nil
 }
 
+// checkBulkMsg verifies that the signed shares are what the message, which is not signed, claims them to be
+func checkBulkMsg(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error {
+	var bulkMsg []BulkWireMsg
+	if err := json.Unmarshal(wireMsg.Message, &bulkMsg); err != nil {
+		return fmt.Errorf("fail to unmarshal the bulk message: %w", err)
+	}
+	for _, msg := range bulkMsg {
+		if msg.Routing == nil || msg.Routing.From == nil || msg.Routing.From.Id != dataOwner.Id {
+			return errors.New("share of another party")
+		}
+		if msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
+			return errors.New("share with mismatched routing")
+		}
+		// a broken share is handled when it is applied
+		round, err := GetMsgRound(msg.WiredBulkMsgs, dataOwner, msg.Routing.IsBroadcast)
+		if err == nil && round.RoundMsg != wireMsg.RoundInfo {
+			return fmt.Errorf("share of round %s in a message of round %s", round.RoundMsg, wireMsg.RoundInfo)
+		}
+	}
+	return nil
+}
+
 // processTSSMsg
 func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType messages.THORChainTSSMessageType, forward bool) error {
 	t.logger.Debug().Msg("process wire message")
@@ -791,6 +812,10 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		t.logger.Error().Msg("fail to verify the signature")
 		return errors.New("signature verify failed")
 	}
+	if err := checkBulkMsg(wireMsg, dataOwner); err != nil {
+		t.logger.Error().Err(err).Msg("invalid bulk message")
+		return err
+	}
 
 	// for the unicast message, we only update it local party
 	if !wireMsg.Routing.IsBroadcast {
-- 
2.43.0


From d441e3f37b44fcbd45ded2375c0dfe679051c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:34 +0000
Subject: [PATCH 17/38] fix: apply a share repeated in one bulk message once

---
 common/tss.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 4b3dfe0..faabba3 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -285,6 +285,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		jobWg.Add(1)
 		go t.doTssJob(tssJobChan, &jobWg)
 	}
+	queued := make(map[blame.RoundInfo]bool)
 	for _, msg := range bulkMsg {
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
@@ -312,6 +313,13 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			t.logger.Debug().Msgf("we received the duplicated message from party %s", partyID.Id)
 			continue
 		}
+		// accepted shares are recorded by the workers, so the entries of this message are checked here
+		if queued[round] {
+			t.logger.Debug().Msgf("party %s repeats a share in one message", partyID.Id)
+			continue
+		}
+		queued[round] = true
+
 		partyInlist := func(el *btss.PartyID, l []*btss.PartyID) bool {
 			for _, each := range l {
 				if el == each {
-- 
2.43.0


From 3ae3c954f217c01d36d5853111e9348e9ae4d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 18/38] fix: only use the answer to a share request when it is
 the requested share

---
 common/tss.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index faabba3..df0004c 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -414,6 +414,14 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 			}
 			return t.processRequestMsgFromPeer([]peer.ID{decodedPeerID}, &wireMsg, false)
 		}
+		answerHash, err := conversion.BytesToHashString(wireMsg.Msg.Message)
+		if err != nil {
+			return fmt.Errorf("fail to calculate hash of the wire message: %w", err)
+		}
+		if answerHash != wireMsg.ReqHash {
+			t.logger.Error().Msg("the answer is not the share it claims to be")
+			return errors.New("invalid wireMsg")
+		}
 		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
 		if !exist {
 			t.logger.Debug().Msg("this request does not exit, maybe already processed")
-- 
2.43.0


From f170181f4535d14ee07647f3501eb64499de15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 19/38] fix: ignore ceremony messages of peers that do not take
 part

---
 common/tss.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index df0004c..c57f230 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -919,6 +919,15 @@ func (t *TssCommon) removeKey(key string) {
 	delete(t.unConfirmedMessages, key)
 }
 
+func (t *TssCommon) isParticipant(peerID peer.ID) bool {
+	for _, el := range t.PartyIDtoP2PID {
+		if el == peerID {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *TssCommon) ProcessInboundMessages(finishChan chan struct{}, wg *sync.WaitGroup) {
 	t.logger.Debug().Msg("start processing inbound messages")
 	defer wg.Done()
@@ -937,6 +946,10 @@ func (t *TssCommon) ProcessInboundMessages(finishChan chan struct{}, wg *sync.Wa
 				continue
 			}
 
+			if !t.isParticipant(m.PeerID) {
+				t.logger.Error().Msgf("ignore the message from peer %s outside of this ceremony", m.PeerID)
+				continue
+			}
 			err := t.ProcessOneMessage(&wrappedMsg, m.PeerID.String())
 			if err != nil {
 				t.logger.Error().Err(err).Msg("fail to process the received message")
-- 
2.43.0


From 168d33358078f0f25059f7a43adca5de46b68214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:02 +0000
Subject: [PATCH 20/38] fix: do not apply a private share that was meant for
 another party

---
 common/tss.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index c57f230..638ae7b 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -783,8 +783,22 @@ func (t *TssCommon) receiverBroadcastHashToPeers(wireMsg *messages.WireMessage,
 	return nil
 }
 
+// isLocalParty tells whether the local party is one of the given parties
+func (t *TssCommon) isLocalParty(parties []*btss.PartyID) bool {
+	for _, el := range parties {
+		if el == nil {
+			continue
+		}
+		peerID, ok := t.PartyIDtoP2PID[el.Id]
+		if ok && peerID.String() == t.localPeerID {
+			return true
+		}
+	}
+	return false
+}
+
 // checkBulkMsg verifies that the signed shares are what the message, which is not signed, claims them to be
-func checkBulkMsg(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error {
+func (t *TssCommon) checkBulkMsg(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error {
 	var bulkMsg []BulkWireMsg
 	if err := json.Unmarshal(wireMsg.Message, &bulkMsg); err != nil {
 		return fmt.Errorf("fail to unmarshal the bulk message: %w", err)
@@ -796,6 +810,9 @@ func checkBulkMsg(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error
 		if msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
 			return errors.New("share with mismatched routing")
 		}
+		if !msg.Routing.IsBroadcast && !t.isLocalParty(msg.Routing.To) {
+			return errors.New("share for another party")
+		}
 		// a broken share is handled when it is applied
 		round, err := GetMsgRound(msg.WiredBulkMsgs, dataOwner, msg.Routing.IsBroadcast)
 		if err == nil && round.RoundMsg != wireMsg.RoundInfo {
@@ -828,7 +845,7 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		t.logger.Error().Msg("fail to verify the signature")
 		return errors.New("signature verify failed")
 	}
-	if err := checkBulkMsg(wireMsg, dataOwner); err != nil {
+	if err := t.checkBulkMsg(wireMsg, dataOwner); err != nil {
 		t.logger.Error().Err(err).Msg("invalid bulk message")
 		return err
 	}
-- 
2.43.0


From da12a1d642f541138448199595221c613712db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 21/38] fix: a forged answer must not use up the request for a
 missing share

---
 common/tss.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 638ae7b..056a302 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -422,6 +422,10 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 			t.logger.Error().Msg("the answer is not the share it claims to be")
 			return errors.New("invalid wireMsg")
 		}
+		// a forged answer must not use up the request
+		if err := t.authenticate(wireMsg.Msg); err != nil {
+			return err
+		}
 		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
 		if !exist {
 			t.logger.Debug().Msg("this request does not exit, maybe already processed")
@@ -822,11 +826,8 @@ func (t *TssCommon) checkBulkMsg(wireMsg *messages.WireMessage, dataOwner *btss.
 	return nil
 }
 
-// processTSSMsg
-func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType messages.THORChainTSSMessageType, forward bool) error {
-	t.logger.Debug().Msg("process wire message")
-	defer t.logger.Debug().Msg("finish process wire message")
-
+// authenticate verifies that the message is from the participant it claims to be from
+func (t *TssCommon) authenticate(wireMsg *messages.WireMessage) error {
 	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
@@ -849,6 +850,17 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		t.logger.Error().Err(err).Msg("invalid bulk message")
 		return err
 	}
+	return nil
+}
+
+// processTSSMsg
+func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType messages.THORChainTSSMessageType, forward bool) error {
+	t.logger.Debug().Msg("process wire message")
+	defer t.logger.Debug().Msg("finish process wire message")
+
+	if err := t.authenticate(wireMsg); err != nil {
+		return err
+	}
 
 	// for the unicast message, we only update it local party
 	if !wireMsg.Routing.IsBroadcast {
-- 
2.43.0


From 11cfdf89d7d2b74c83b43111f154458e3ba10457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 22/38] fix: a message without the id of its sender must not
 crash the node

---
 common/tss.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 056a302..5a11613 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -787,10 +787,15 @@ func (t *TssCommon) receiverBroadcastHashToPeers(wireMsg *messages.WireMessage,
 	return nil
 }
 
+// isValidParty tells whether the party has the fields its id is in, a decoded one may lack them
+func isValidParty(party *btss.PartyID) bool {
+	return party != nil && party.MessageWrapper_PartyID != nil
+}
+
 // isLocalParty tells whether the local party is one of the given parties
 func (t *TssCommon) isLocalParty(parties []*btss.PartyID) bool {
 	for _, el := range parties {
-		if el == nil {
+		if !isValidParty(el) {
 			continue
 		}
 		peerID, ok := t.PartyIDtoP2PID[el.Id]
@@ -808,7 +813,7 @@ func (t *TssCommon) checkBulkMsg(wireMsg *messages.WireMessage, dataOwner *btss.
 		return fmt.Errorf("fail to unmarshal the bulk message: %w", err)
 	}
 	for _, msg := range bulkMsg {
-		if msg.Routing == nil || msg.Routing.From == nil || msg.Routing.From.Id != dataOwner.Id {
+		if msg.Routing == nil || !isValidParty(msg.Routing.From) || msg.Routing.From.Id != dataOwner.Id {
 			return errors.New("share of another party")
 		}
 		if msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
@@ -828,7 +833,7 @@ func (t *TssCommon) checkBulkMsg(wireMsg *messages.WireMessage, dataOwner *btss.
 
 // authenticate verifies that the message is from the participant it claims to be from
 func (t *TssCommon) authenticate(wireMsg *messages.WireMessage) error {
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || wireMsg.Routing == nil || !isValidParty(wireMsg.Routing.From) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
 	}
-- 
2.43.0


From 109d85dedd96f570a03630891a5c754ab0db4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 23/38] fix: form a leaderless party as soon as every requested
 peer announced itself

The wait listened on the wrong channel, so it always lasted the whole
timeout, and counted itself for a list that does not name it.
---
 p2p/party_coordinator.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4c0836a..387a7fd 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -528,28 +528,29 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
+		defer close(done)
+		timeout := time.After(pc.timeout)
 		for {
+			if peerGroup.getCoordinationStatus() {
+				return
+			}
 			select {
-			case <-peerGroup.notify:
+			case <-peerGroup.newFound:
 				pc.logger.Debug().Msg("we have found the new peer")
-				if peerGroup.getCoordinationStatus() {
-					close(done)
-					return
-				}
-			case <-time.After(pc.timeout):
-				// timeout
-				close(done)
+			case <-timeout:
+				return
+			case <-pc.stopChan:
 				return
 			}
 		}
 	}()
 
 	wg.Wait()
-	onlinePeers, _ := peerGroup.getPeersStatus()
+	onlinePeers, offline := peerGroup.getPeersStatus()
 	pc.sendRequestToAll(msgID, msgSend, onlinePeers)
 	// we always set ourselves as online
 	onlinePeers = append(onlinePeers, pc.host.ID())
-	if len(onlinePeers) == len(peers) {
+	if len(offline) == 0 {
 		return onlinePeers, nil
 	}
 	return onlinePeers, ErrJoinPartyTimeout
-- 
2.43.0


From d35e4f1f0e522d6d73db00281bda30860e48914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 24/38] fix: forget the party of a session when forming it with
 a leader ends

The group of every session was kept for ever, and the leader's name was
written again, without the lock the handlers read it under.
---
 p2p/party_coordinator.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 387a7fd..99c518b 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -333,7 +333,7 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	if err != nil {
 		return nil, fmt.Errorf("fail to decode peer id(%s):%w", leader, err)
 	}
-	peerGroup.leader = leader
+	defer pc.removePeerGroup(msgID)
 	msg := messages.JoinPartyLeaderComm{
 		ID: msgID,
 	}
@@ -419,9 +419,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 		pc.logger.Error().Err(err).Msg("fail to create the join party group")
 		return nil, err
 	}
-	peerGroup.peerStatusLock.Lock()
-	peerGroup.leader = pc.host.ID().String()
-	peerGroup.peerStatusLock.Unlock()
+	defer pc.removePeerGroup(msgID)
 	allPeers, err := pc.getPeerIDs(peers)
 	if err != nil {
 		pc.logger.Error().Err(err).Msg("fail to parse peer id")
-- 
2.43.0


From d264e21e1d6df6eaeb2051541129a6be09b1fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 25/38] fix: a repeated answer of the leader must not block its
 stream handler for ever

---
 p2p/party_coordinator.go | 4 ++--
 p2p/peer_status.go       | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 99c518b..a67d7c5 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -77,7 +77,7 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 	}
 	if remotePeer == peerGroup.leader {
 		peerGroup.setLeaderResponse(respMsg)
-		peerGroup.notify <- true
+		peerGroup.signal()
 		err := WriteStreamWithBuffer([]byte("done"), stream)
 		if err != nil {
 			pc.logger.Error().Err(err).Msgf("fail to write the reply to peer: %s", remotePeer)
@@ -105,7 +105,7 @@ func (pc *PartyCoordinator) processReqMsg(requestMsg *messages.JoinPartyLeaderCo
 		return
 	}
 	if partyFormed {
-		peerGroup.notify <- true
+		peerGroup.signal()
 	}
 }
 
diff --git a/p2p/peer_status.go b/p2p/peer_status.go
index 36c266f..0310096 100644
--- a/p2p/peer_status.go
+++ b/p2p/peer_status.go
@@ -33,6 +33,14 @@ func (ps *PeerStatus) setLeaderResponse(resp *messages.JoinPartyLeaderComm) {
 	ps.leaderResponse = resp
 }
 
+// signal wakes up the one who waits for the party, it never blocks: a wake up that is already pending is as good
+func (ps *PeerStatus) signal() {
+	select {
+	case ps.notify <- true:
+	default:
+	}
+}
+
 func NewPeerStatus(peerNodes []peer.ID, myPeerID peer.ID, leader string, threshold int) *PeerStatus {
 	dat := make(map[peer.ID]bool)
 	for _, el := range peerNodes {
-- 
2.43.0


From 66d1117de39fc5b6f089cff95245bb1eae14cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 26/38] fix: stop forming a party as soon as the signature
 arrived

The leader kept waiting with a fresh timeout, and a member without an
answer reported its leader as not reachable.
---
 p2p/party_coordinator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index a67d7c5..b0e53d1 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -381,6 +381,10 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	}()
 	wg.Wait()
 
+	if sigNotify == "signature received" {
+		return nil, ErrSignReceived
+	}
+
 	if peerGroup.getLeaderResponse() == nil {
 		leaderPk, err := conversion.GetPubKeyFromPeerID(leader)
 		if err != nil {
@@ -390,10 +394,6 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 		return nil, ErrLeaderNotReady
 	}
 
-	if sigNotify == "signature received" {
-		return nil, ErrSignReceived
-	}
-
 	onlineNodes := peerGroup.getLeaderResponse().PeerIDs
 	// we trust the returned nodes returned by the leader, if tss fail, the leader
 	// also will get blamed.
@@ -442,6 +442,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 				return
 			case result := <-sigChan:
 				sigNotify = result
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 68a8b342b1ef2f3eb7d4276ec0f8532d2058ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 27/38] fix: stopping the party coordinator ends the parties it
 is forming

---
 p2p/party_coordinator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index b0e53d1..f5c11d1 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -61,6 +61,7 @@ func NewPartyCoordinator(host host.Host, timeout time.Duration) *PartyCoordinato
 func (pc *PartyCoordinator) Stop() {
 	defer pc.logger.Info().Msg("stop party coordinator")
 	pc.host.RemoveStreamHandler(joinPartyProtocol)
+	pc.host.RemoveStreamHandler(joinPartyProtocolWithLeader)
 	close(pc.stopChan)
 }
 
@@ -377,6 +378,9 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 			sigNotify = result
 			close(done)
 			return
+		case <-pc.stopChan:
+			close(done)
+			return
 		}
 	}()
 	wg.Wait()
@@ -443,6 +447,8 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 			case result := <-sigChan:
 				sigNotify = result
 				return
+			case <-pc.stopChan:
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 19db6a21ff58e25f7329b3b62bbabdf9ebbd664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 28/38] fix: a set with more or fewer signatures than messages
 is not a result

More signatures crashed the node, fewer were returned as the result of
the whole request.
---
 keysign/notifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index dd4feed..72b55f9 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -63,7 +63,9 @@ func (n *Notifier) ProcessSignature(data []*common.ECSignature) (bool, error) {
 	// when data is nil , which means keysign  failed, there is no signature to be verified in that case
 	// for gg20, it wrap the signature R,S into ECSignature structure
 	if len(data) != 0 {
-
+		if len(data) != len(n.messages) {
+			return false, fmt.Errorf("expect %d signatures, got %d", len(n.messages), len(data))
+		}
 		for i := 0; i < len(data); i++ {
 			eachSig := data[i]
 			msg := n.messages[i]
-- 
2.43.0


From baa33195e31cb1ad6ee61077b036072a58bd94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 29/38] fix: refuse a received signature whose recovery id does
 not lead to the pool key

---
 keysign/notifier.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index 72b55f9..28d2e53 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -52,7 +52,24 @@ func (n *Notifier) verifySignature(data *common.ECSignature, msg []byte) (bool,
 	if err != nil {
 		return false, err
 	}
-	return ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)), nil
+	if !ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)) {
+		return false, nil
+	}
+	return verifyRecovery(data, msg, pub), nil
+}
+
+// verifyRecovery checks that the recovery id which comes with the signature leads to the public key
+func verifyRecovery(data *common.ECSignature, msg []byte, pub *btcec.PublicKey) bool {
+	if len(data.R) > 32 || len(data.S) > 32 || len(data.SignatureRecovery) != 1 || data.SignatureRecovery[0] > 3 {
+		return false
+	}
+	// compact form: one byte for the recovery id, R and S padded to 32 bytes each
+	compact := make([]byte, 65)
+	compact[0] = 27 + data.SignatureRecovery[0]
+	copy(compact[33-len(data.R):33], data.R)
+	copy(compact[65-len(data.S):], data.S)
+	recovered, _, err := btcec.RecoverCompact(btcec.S256(), compact, msg)
+	return err == nil && recovered.IsEqual(pub)
 }
 
 // ProcessSignature is to verify whether the signature is valid
-- 
2.43.0


From a4957ee20690fc1f884bf9cb119d0b83a3457923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 30/38] fix: do not wait forever for a subscriber that has gone

---
 p2p/communication.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/p2p/communication.go b/p2p/communication.go
index c2bb3a7..b6c7aa9 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -177,11 +177,31 @@ func (c *Communication) readFromStream(stream network.Stream) {
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MessageType)
 			return
 		}
-		channel <- &Message{
+		c.deliver(channel, wrappedMsg.MessageType, wrappedMsg.MsgID, &Message{
 			PeerID:  stream.Conn().RemotePeer(),
 			Payload: dataBuf,
-		}
+		})
+	}
+}
 
+// deliver hands the message to the subscriber; it gives up once the subscriber has gone or the node stops,
+// as nobody reads from the channel any more.
+func (c *Communication) deliver(channel chan *Message, topic messages.THORChainTSSMessageType, msgID string, msg *Message) {
+	for {
+		timer := time.NewTimer(time.Second)
+		select {
+		case channel <- msg:
+			timer.Stop()
+			return
+		case <-c.stopChan:
+			timer.Stop()
+			return
+		case <-timer.C:
+			if c.getSubscriber(topic, msgID) != channel {
+				c.logger.Debug().Msgf("the subscriber of MsgID %s has gone", msgID)
+				return
+			}
+		}
 	}
 }
 
-- 
2.43.0


From c5bc264a9a67b45646f42a9287d9862ea2d97f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 31/38] fix: the end of one signature wait does not remove the
 notifier of another

---
 keysign/signature_notifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keysign/signature_notifier.go b/keysign/signature_notifier.go
index 856ae8c..e005e73 100644
--- a/keysign/signature_notifier.go
+++ b/keysign/signature_notifier.go
@@ -192,7 +192,10 @@ func (s *SignatureNotifier) addToNotifiers(n *Notifier) {
 func (s *SignatureNotifier) removeNotifier(n *Notifier) {
 	s.notifierLock.Lock()
 	defer s.notifierLock.Unlock()
-	delete(s.notifiers, n.MessageID)
+	// a later waiter of the same message ID keeps its own
+	if s.notifiers[n.MessageID] == n {
+		delete(s.notifiers, n.MessageID)
+	}
 }
 
 // WaitForSignature wait until keysign finished and signature is available
-- 
2.43.0


From 94e8c6bf29ed34853edb1933b2e6d867e1ca21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 32/38] fix: stopping the node ends the wait for signatures

---
 keysign/signature_notifier.go | 11 +++++++++++
 tss/tss.go                    |  1 +
 2 files changed, 12 insertions(+)

diff --git a/keysign/signature_notifier.go b/keysign/signature_notifier.go
index e005e73..fd85038 100644
--- a/keysign/signature_notifier.go
+++ b/keysign/signature_notifier.go
@@ -2,6 +2,7 @@ package keysign
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -36,6 +37,7 @@ type SignatureNotifier struct {
 	notifiers    map[string]*Notifier
 	messages     chan *signatureItem
 	streamMgr    *p2p.StreamMgr
+	stopChan     chan struct{}
 }
 
 // NewSignatureNotifier create a new instance of SignatureNotifier
@@ -47,6 +49,7 @@ func NewSignatureNotifier(host host.Host) *SignatureNotifier {
 		notifiers:    make(map[string]*Notifier),
 		messages:     make(chan *signatureItem),
 		streamMgr:    p2p.NewStreamMgr(),
+		stopChan:     make(chan struct{}),
 	}
 	host.SetStreamHandler(signatureNotifierProtocol, s.handleStream)
 	return s
@@ -214,9 +217,17 @@ func (s *SignatureNotifier) WaitForSignature(messageID string, message [][]byte,
 		return nil, fmt.Errorf("timeout: didn't receive signature after %s", timeout)
 	case <-sigChan:
 		return nil, p2p.ErrSigGenerated
+	case <-s.stopChan:
+		return nil, errors.New("the node is stopping")
 	}
 }
 
+// Stop ends all waits for signatures
+func (s *SignatureNotifier) Stop() {
+	s.host.RemoveStreamHandler(signatureNotifierProtocol)
+	close(s.stopChan)
+}
+
 func (s *SignatureNotifier) ReleaseStream(msgID string) {
 	s.streamMgr.ReleaseStream(msgID)
 }
diff --git a/tss/tss.go b/tss/tss.go
index 33d5803..a59caae 100644
--- a/tss/tss.go
+++ b/tss/tss.go
@@ -140,6 +140,7 @@ func (t *TssServer) Stop() {
 		t.logger.Error().Msgf("error in shutdown the p2p server")
 	}
 	t.partyCoordinator.Stop()
+	t.signatureNotifier.Stop()
 	log.Info().Msg("The Tss and p2p server has been stopped successfully")
 }
 
-- 
2.43.0


From ae871ebe816268b2a717dd75ef4df743232a61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 33/38] fix: streams of messages nobody subscribed to are not
 kept forever

---
 p2p/communication.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/communication.go b/p2p/communication.go
index b6c7aa9..7faa17a 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -170,13 +170,14 @@ func (c *Communication) readFromStream(stream network.Stream) {
 			return
 		}
 		c.logger.Debug().Msgf(">>>>>>>[%s] %s", wrappedMsg.MessageType, string(wrappedMsg.Payload))
-		c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
 		channel := c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID)
 		if nil == channel {
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MsgID)
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MessageType)
+			c.streamMgr.AddStream("UNKNOWN", stream)
 			return
 		}
+		c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
 		c.deliver(channel, wrappedMsg.MessageType, wrappedMsg.MsgID, &Message{
 			PeerID:  stream.Conn().RemotePeer(),
 			Payload: dataBuf,
-- 
2.43.0


From 27b51757c72a6cc5da450203f5ef48de3a9eb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 34/38] fix: streams of sessions that are not running are not
 kept forever

---
 keysign/signature_notifier.go | 14 +++++++++++++-
 p2p/party_coordinator.go      | 15 ++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/keysign/signature_notifier.go b/keysign/signature_notifier.go
index fd85038..a968d29 100644
--- a/keysign/signature_notifier.go
+++ b/keysign/signature_notifier.go
@@ -55,6 +55,18 @@ func NewSignatureNotifier(host host.Host) *SignatureNotifier {
 	return s
 }
 
+// keepStream remembers the stream until its session releases it. Nobody releases the streams of a session that is not
+// (or no longer) waiting here, so these go with the next release of any session.
+func (s *SignatureNotifier) keepStream(msgID string, stream network.Stream) {
+	s.notifierLock.Lock()
+	_, waiting := s.notifiers[msgID]
+	s.notifierLock.Unlock()
+	if !waiting {
+		msgID = "UNKNOWN"
+	}
+	s.streamMgr.AddStream(msgID, stream)
+}
+
 // HandleStream handle signature notify stream
 func (s *SignatureNotifier) handleStream(stream network.Stream) {
 	remotePeer := stream.Conn().RemotePeer()
@@ -77,7 +89,7 @@ func (s *SignatureNotifier) handleStream(stream network.Stream) {
 		s.streamMgr.AddStream("UNKNOWN", stream)
 		return
 	}
-	s.streamMgr.AddStream(msg.ID, stream)
+	s.keepStream(msg.ID, stream)
 	var signatures []*common.ECSignature
 	if len(msg.Signatures) > 0 && msg.KeysignStatus == messages.KeysignSignature_Success {
 		for _, el := range msg.Signatures {
diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index f5c11d1..61de765 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -65,13 +65,22 @@ func (pc *PartyCoordinator) Stop() {
 	close(pc.stopChan)
 }
 
+// keepStream remembers the stream until its session releases it. Nobody releases the streams of a session that is not
+// (or no longer) running here, so these go with the next release of any session.
+func (pc *PartyCoordinator) keepStream(msgID string, running bool, stream network.Stream) {
+	if !running {
+		msgID = "UNKNOWN"
+	}
+	pc.streamMgr.AddStream(msgID, stream)
+}
+
 func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm, stream network.Stream) {
-	pc.streamMgr.AddStream(respMsg.ID, stream)
 
 	remotePeer := stream.Conn().RemotePeer().String()
 	pc.joinPartyGroupLock.Lock()
 	peerGroup, ok := pc.peersGroup[respMsg.ID]
 	pc.joinPartyGroupLock.Unlock()
+	pc.keepStream(respMsg.ID, ok, stream)
 	if !ok {
 		pc.logger.Info().Msgf("message ID from peer(%s) can not be found", remotePeer)
 		return
@@ -91,10 +100,10 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 }
 
 func (pc *PartyCoordinator) processReqMsg(requestMsg *messages.JoinPartyLeaderComm, stream network.Stream) {
-	pc.streamMgr.AddStream(requestMsg.ID, stream)
 	pc.joinPartyGroupLock.Lock()
 	peerGroup, ok := pc.peersGroup[requestMsg.ID]
 	pc.joinPartyGroupLock.Unlock()
+	pc.keepStream(requestMsg.ID, ok, stream)
 	if !ok {
 		pc.logger.Info().Msg("this party is not ready")
 		return
@@ -126,10 +135,10 @@ func (pc *PartyCoordinator) HandleStream(stream network.Stream) {
 		pc.streamMgr.AddStream("UNKNOWN", stream)
 		return
 	}
-	pc.streamMgr.AddStream(msg.ID, stream)
 	pc.joinPartyGroupLock.Lock()
 	peerGroup, ok := pc.peersGroup[msg.ID]
 	pc.joinPartyGroupLock.Unlock()
+	pc.keepStream(msg.ID, ok, stream)
 	if !ok {
 		pc.logger.Info().Msg("this party is not ready")
 		return
-- 
2.43.0


From 21057a718f8e61c85a637dbc251bef130a7f7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 35/38] fix: refuse key generation polynomials of unexpected
 degree before tss-lib crashes on them

---
 common/tss.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 5a11613..4da7aae 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"sync"
 
+	bkg "github.com/binance-chain/tss-lib/ecdsa/keygen"
 	btss "github.com/binance-chain/tss-lib/tss"
 	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/rs/zerolog"
@@ -113,6 +114,27 @@ func newJob(party btss.Party, wireBytes []byte, msgIdentifier string, from *btss
 	}
 }
 
+// checkShare refuses the shares that make tss-lib panic in a goroutine of its own, which we cannot recover from
+func checkShare(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool, parties int) *btss.Error {
+	parsedMsg, err := btss.ParseWireMessage(wireBytes, from, isBroadcast)
+	if err != nil {
+		return btss.NewError(err, "update", -1, party.PartyID(), from)
+	}
+	share, ok := parsedMsg.Content().(*bkg.KGRound2Message2)
+	if !ok {
+		return nil
+	}
+	threshold, err := conversion.GetThreshold(parties)
+	if err != nil {
+		return btss.NewError(err, "update", -1, party.PartyID())
+	}
+	// it opens the commitment to a random number and to threshold+1 points
+	if len(share.UnmarshalDeCommitment()) != 1+2*(threshold+1) {
+		return btss.NewError(errors.New("the polynomial has an unexpected degree"), "update", -1, party.PartyID(), from)
+	}
+	return nil
+}
+
 // updateParty applies the share to the local party, a share that makes tss-lib panic is an error
 func updateParty(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool) (errUp *btss.Error) {
 	defer func() {
@@ -148,7 +170,10 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 			t.logger.Debug().Msgf("local party %s has failed, ignore the share of %s", tssjob.msgIdentifier, partyID.Id)
 			continue
 		}
-		errUp := updateParty(party, wireBytes, partyID, isBroadcast)
+		errUp := checkShare(party, wireBytes, partyID, isBroadcast, len(t.getPartyInfo().PartyIDMap))
+		if errUp == nil {
+			errUp = updateParty(party, wireBytes, partyID, isBroadcast)
+		}
 		if errUp != nil {
 			t.failedParties.Store(tssjob.msgIdentifier, true)
 			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
-- 
2.43.0


From e298dce5c5a6b4bbf96e19dd5a92155865de7cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 36/38] fix: refuse range proofs that are not invertible before
 tss-lib crashes on them

---
 common/tss.go          | 55 +++++++++++++++++++++++++++++-------------
 keysign/tss_keysign.go |  1 +
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 4da7aae..05c503b 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -4,11 +4,13 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math/big"
 	"runtime"
 	"strings"
 	"sync"
 
 	bkg "github.com/binance-chain/tss-lib/ecdsa/keygen"
+	"github.com/binance-chain/tss-lib/ecdsa/signing"
 	btss "github.com/binance-chain/tss-lib/tss"
 	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/rs/zerolog"
@@ -26,6 +28,8 @@ import (
 type PartyInfo struct {
 	PartyMap   *sync.Map
 	PartyIDMap map[string]*btss.PartyID
+	// SaveData is what the shares of a key sign are checked against
+	SaveData *bkg.LocalPartySaveData
 }
 
 type TssCommon struct {
@@ -115,34 +119,54 @@ func newJob(party btss.Party, wireBytes []byte, msgIdentifier string, from *btss
 }
 
 // checkShare refuses the shares that make tss-lib panic in a goroutine of its own, which we cannot recover from
-func checkShare(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool, parties int) *btss.Error {
+func checkShare(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool, partyInfo *PartyInfo) *btss.Error {
 	parsedMsg, err := btss.ParseWireMessage(wireBytes, from, isBroadcast)
 	if err != nil {
 		return btss.NewError(err, "update", -1, party.PartyID(), from)
 	}
-	share, ok := parsedMsg.Content().(*bkg.KGRound2Message2)
-	if !ok {
-		return nil
-	}
-	threshold, err := conversion.GetThreshold(parties)
-	if err != nil {
-		return btss.NewError(err, "update", -1, party.PartyID())
-	}
-	// it opens the commitment to a random number and to threshold+1 points
-	if len(share.UnmarshalDeCommitment()) != 1+2*(threshold+1) {
-		return btss.NewError(errors.New("the polynomial has an unexpected degree"), "update", -1, party.PartyID(), from)
+	switch share := parsedMsg.Content().(type) {
+	case *bkg.KGRound2Message2:
+		threshold, err := conversion.GetThreshold(len(partyInfo.PartyIDMap))
+		if err != nil {
+			return btss.NewError(err, "update", -1, party.PartyID())
+		}
+		// it opens the commitment to a random number and to threshold+1 points
+		if len(share.UnmarshalDeCommitment()) != 1+2*(threshold+1) {
+			return btss.NewError(errors.New("the polynomial has an unexpected degree"), "update", -1, party.PartyID(), from)
+		}
+	case *signing.SignRound1Message1:
+		proof, err := share.UnmarshalRangeProofAlice()
+		if err != nil || partyInfo.SaveData == nil {
+			return nil
+		}
+		// the verification of the range proof inverts these two
+		for i, k := range partyInfo.SaveData.Ks {
+			if k.Cmp(from.KeyInt()) == 0 && !coprime(share.UnmarshalC(), partyInfo.SaveData.PaillierPKs[i].N) {
+				return btss.NewError(errors.New("the ciphertext is not invertible"), "update", -1, party.PartyID(), from)
+			}
+		}
+		if !coprime(proof.Z, partyInfo.SaveData.NTildei) {
+			return btss.NewError(errors.New("the range proof is not invertible"), "update", -1, party.PartyID(), from)
+		}
 	}
 	return nil
 }
 
+func coprime(a, b *big.Int) bool {
+	return new(big.Int).GCD(nil, nil, a, b).Cmp(big.NewInt(1)) == 0
+}
+
 // updateParty applies the share to the local party, a share that makes tss-lib panic is an error
-func updateParty(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool) (errUp *btss.Error) {
+func updateParty(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool, partyInfo *PartyInfo) (errUp *btss.Error) {
 	defer func() {
 		if r := recover(); r != nil {
 			// it is unknown whose share caused it, so there is no culprit
 			errUp = btss.NewError(fmt.Errorf("panic in applying the share: %v", r), "update", -1, party.PartyID())
 		}
 	}()
+	if errUp = checkShare(party, wireBytes, from, isBroadcast, partyInfo); errUp != nil {
+		return errUp
+	}
 	_, errUp = party.UpdateFromBytes(wireBytes, from, isBroadcast)
 	return errUp
 }
@@ -170,10 +194,7 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 			t.logger.Debug().Msgf("local party %s has failed, ignore the share of %s", tssjob.msgIdentifier, partyID.Id)
 			continue
 		}
-		errUp := checkShare(party, wireBytes, partyID, isBroadcast, len(t.getPartyInfo().PartyIDMap))
-		if errUp == nil {
-			errUp = updateParty(party, wireBytes, partyID, isBroadcast)
-		}
+		errUp := updateParty(party, wireBytes, partyID, isBroadcast, t.getPartyInfo())
 		if errUp != nil {
 			t.failedParties.Store(tssjob.msgIdentifier, true)
 			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 10fea35..828f84c 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -139,6 +139,7 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 	tKeySign.tssCommonStruct.SetPartyInfo(&common.PartyInfo{
 		PartyMap:   keySignPartyMap,
 		PartyIDMap: partyIDMap,
+		SaveData:   &localStateItem.LocalData,
 	})
 
 	blameMgr.SetPartyInfo(keySignPartyMap, partyIDMap)
-- 
2.43.0


From 10c55061066d99608f74af3c494467f87434c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 37/38] fix: read the blame under its lock, shares may still
 arrive when a ceremony gives up

---
 blame/blame.go         | 17 +++++++++++++++++
 keygen/tss_keygen.go   |  6 +++---
 keysign/tss_keysign.go |  6 +++---
 tss/keygen.go          |  4 ++--
 tss/keysign.go         |  2 +-
 5 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/blame/blame.go b/blame/blame.go
index ee7a780..637f291 100644
--- a/blame/blame.go
+++ b/blame/blame.go
@@ -49,6 +49,23 @@ func (b *Blame) SetBlame(reason string, nodes []Node, isUnicast bool) {
 	b.BlameNodes = append(b.BlameNodes, nodes...)
 }
 
+// Snapshot returns a copy of the blame as it is now
+func (b *Blame) Snapshot() Blame {
+	b.blameLock.RLock()
+	defer b.blameLock.RUnlock()
+	ret := *b
+	ret.BlameNodes = append([]Node(nil), b.BlameNodes...)
+	ret.blameLock = &sync.RWMutex{}
+	return ret
+}
+
+// SetUnicast records whether the blame is for a message sent to one node only
+func (b *Blame) SetUnicast(isUnicast bool) {
+	b.blameLock.Lock()
+	defer b.blameLock.Unlock()
+	b.IsUnicast = isUnicast
+}
+
 func (b *Blame) AlreadyBlame() bool {
 	b.blameLock.RLock()
 	defer b.blameLock.RUnlock()
diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 0c69284..3cd69ca 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -163,7 +163,7 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			// we bail out after KeyGenTimeoutSeconds
 			tKeyGen.logger.Error().Msgf("fail to generate message with %s", tssConf.KeyGenTimeout.String())
 			lastMsg := blameMgr.GetLastMsg()
-			failReason := blameMgr.GetBlame().FailReason
+			failReason := blameMgr.GetBlame().Snapshot().FailReason
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
@@ -196,14 +196,14 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
 
 			// if we cannot find the blame node, we check whether everyone send me the share
-			if len(blameMgr.GetBlame().BlameNodes) == 0 {
+			if !blameMgr.GetBlame().AlreadyBlame() {
 				blameNodesMisingShare, isUnicast, err := blameMgr.TssMissingShareBlame(messages.TSSKEYGENROUNDS)
 				if err != nil {
 					tKeyGen.logger.Error().Err(err).Msg("fail to get the node of missing share ")
 				}
 				if len(blameNodesMisingShare) > 0 && len(blameNodesMisingShare) <= threshold {
 					blameMgr.GetBlame().AddBlameNodes(blameNodesMisingShare...)
-					blameMgr.GetBlame().IsUnicast = isUnicast
+					blameMgr.GetBlame().SetUnicast(isUnicast)
 				}
 			}
 			return nil, blame.ErrTssTimeOut
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 828f84c..a6cedcb 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -206,7 +206,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			// we bail out after KeySignTimeoutSeconds
 			tKeySign.logger.Error().Msgf("fail to sign message with %s", tssConf.KeySignTimeout.String())
 			lastMsg := blameMgr.GetLastMsg()
-			failReason := blameMgr.GetBlame().FailReason
+			failReason := blameMgr.GetBlame().Snapshot().FailReason
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
@@ -250,7 +250,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
 
 			// if we cannot find the blame node, we check whether everyone send me the share
-			if len(blameMgr.GetBlame().BlameNodes) == 0 {
+			if !blameMgr.GetBlame().AlreadyBlame() {
 				blameNodesMisingShare, isUnicast, err := blameMgr.TssMissingShareBlame(messages.TSSKEYSIGNROUNDS)
 				if err != nil {
 					tKeySign.logger.Error().Err(err).Msg("fail to get the node of missing share ")
@@ -258,7 +258,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 
 				if len(blameNodesMisingShare) > 0 && len(blameNodesMisingShare) <= threshold {
 					blameMgr.GetBlame().AddBlameNodes(blameNodesMisingShare...)
-					blameMgr.GetBlame().IsUnicast = isUnicast
+					blameMgr.GetBlame().SetUnicast(isUnicast)
 				}
 			}
 
diff --git a/tss/keygen.go b/tss/keygen.go
index 9511ee4..3c72b21 100644
--- a/tss/keygen.go
+++ b/tss/keygen.go
@@ -114,7 +114,7 @@ func (t *TssServer) Keygen(req keygen.Request) (keygen.Response, error) {
 	if err != nil {
 		t.tssMetrics.UpdateKeyGen(keygenTime, false)
 		t.logger.Error().Err(err).Msg("err in keygen")
-		blameNodes := *blameMgr.GetBlame()
+		blameNodes := blameMgr.GetBlame().Snapshot()
 		return keygen.NewResponse("", "", common.Fail, blameNodes), err
 	} else {
 		t.tssMetrics.UpdateKeyGen(keygenTime, true)
@@ -126,7 +126,7 @@ func (t *TssServer) Keygen(req keygen.Request) (keygen.Response, error) {
 		status = common.Fail
 	}
 
-	blameNodes := *blameMgr.GetBlame()
+	blameNodes := blameMgr.GetBlame().Snapshot()
 	return keygen.NewResponse(
 		newPubKey,
 		addr.String(),
diff --git a/tss/keysign.go b/tss/keysign.go
index b82391c..4a1ad1a 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -157,7 +157,7 @@ func (t *TssServer) generateSignature(msgID string, msgsToSign [][]byte, req key
 		t.logger.Error().Err(err).Msg("err in keysign")
 		sigChan <- "signature generated"
 		t.broadcastKeysignFailure(msgID, allPeersID)
-		blameNodes := *blameMgr.GetBlame()
+		blameNodes := blameMgr.GetBlame().Snapshot()
 		return keysign.Response{
 			Status: common.Fail,
 			Blame:  blameNodes,
-- 
2.43.0


From 4e3bba9827e204ced0d3d3b4e8c328c76678baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 38/38] fix: count the peers of a cached message under its lock

---
 common/local_cache_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/local_cache_item.go b/common/local_cache_item.go
index dc88dd4..65ac7ff 100644
--- a/common/local_cache_item.go
+++ b/common/local_cache_item.go
@@ -38,9 +38,9 @@ func (l *LocalCacheItem) TotalConfirmParty() int {
 }
 
 func (l *LocalCacheItem) GetPeers() []string {
-	peers := make([]string, 0, len(l.ConfirmedList))
 	l.lock.Lock()
 	defer l.lock.Unlock()
+	peers := make([]string, 0, len(l.ConfirmedList))
 	for peer := range l.ConfirmedList {
 		peers = append(peers, peer)
 	}
-- 
2.43.0

