#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source; edit it and re-run."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

p("C01", "Key generation agrees on one usable, stored, recoverable pool key",
  "Whenever nodes report a successful key generation for the same request, they all report the same pool public key and the pool address derived from it, and each has by then stored exactly one share record, retrievable by that pool key, naming the whole participant list and itself. Any threshold+1 of the stored shares combine into the private key of the reported pool key. When all participants are honest and connected, key generation succeeds on all of them and blames nobody, whatever the order and duplication in which messages arrive.",
  ["schedules", "inputs", "configurations"],
  "for every participant set (size, key order), every delivery order, duplication and delay of protocol messages, and every choice of threshold+1 shares",
  "The suite runs one 4-party key generation on a quiet loopback network and only checks the returned keys; it never combines the stored shares, never reorders or duplicates deliveries and never checks the records on disk.",
  ["keygen/tss_keygen.go", "tss/keygen.go", "common/tss.go", "storage/localstate_mgr.go", "conversion/conversion.go"],
  [("key generation driver saving the share before reporting success", "keygen/tss_keygen.go processKeyGen"), ("share exchange and application", "common/tss.go ProcessOneMessage/ProcessOutCh"), ("pool key/address derivation", "conversion/conversion.go GetTssPubKey")],
  ["key generation response (pool key, address, status, blame) per node", "share record stored by each node"])

p("C02", "Signing returns one valid, correctly labelled signature per message",
  "Whenever a signing request succeeds, the caller gets exactly one signature per requested message, labelled with that message, valid for that message under the pool public key, and carrying a recovery id that recovers the pool public key. All nodes taking part in the same request return the same signatures, for batches of any size and for messages of any bytes (other than all zero), and whatever the order in which protocol messages arrive or repeat. When enough honest signers are connected the request succeeds and blames nobody.",
  ["schedules", "inputs", "configurations"],
  "for every batch of messages (count, content, length, order), every signer subset above the threshold, and every delivery order and duplication",
  "The suite signs one or a few fixed 32-byte messages on a quiet network and mostly checks that some signature came back; label/signature pairing across batches, recovery ids and reordered deliveries are never checked.",
  ["keysign/tss_keysign.go", "tss/keysign.go", "common/tss.go", "keysign/notifier.go", "conversion/tss_helper.go"],
  [("batch signing with per-message parties and sorted results", "keysign/tss_keysign.go SignMessage"), ("pairing signatures with messages", "tss/keysign.go KeySign/batchSignatures")],
  ["signatures returned by the signing call on each node", "keysign response"])

p("C03", "A broadcast share is applied only after consistent peer confirmation",
  "A share broadcast by a participant takes effect at another node only after at least the threshold number of participants other than its sender (the node itself included) have reported what they received, no reported content is more frequent than the one applied, and at least threshold-1 of the reports match it. Reports from the share's own sender, repeated reports from one peer and reports from outsiders never count towards this, and a report by the sender about its own share is refused and makes the node blame the sender. A node that receives a broadcast share tells all participants but its author what it received. When the sender is honest and the participants are connected, the share does take effect once those reports are in, in whatever order share and reports arrive.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of shares and confirmations, every participant count, and every set of lying, equivocating, repeating or outside confirmers",
  "Tests drive a handful of hand-written 4-party sequences; the guarantee quantifies over all arrival orders and all behaviours of malicious confirmers.",
  ["common/tss.go", "common/local_cache_item.go", "common/tss_helper.go", "conversion/conversion.go"],
  [("confirmation counting and hash check", "common/tss.go hashCheck/getMsgHash/processVerMsg"), ("per-peer confirmation list", "common/local_cache_item.go")],
  ["shares applied to the local protocol party", "confirmation messages emitted", "blame reported"],
  state=[("unconfirmed messages", "broadcast shares waiting for confirmation, keyed by sender and round", "common/tss.go")])

p("C04", "Only authentic shares of the claimed participant and session are applied",
  "A share is applied to the local protocol party, and attributed to a participant, only if it is part of a message signed with that very participant's key for this very session. Messages that are tampered with, unsigned, signed by another key, replayed from another session, signed by one participant but claiming shares of another, or from a party outside the ceremony never change the protocol state of a node, whether received directly or through share recovery. A private share that was meant for another participant is never applied.",
  ["inputs", "histories", "fault_sequences"],
  "for every message an arbitrary network peer or malicious participant can construct from what it has seen, delivered by any peer at any point",
  "Tests check one bad signature; the adversary's message space (outer/inner sender mismatch, replays across sessions, recovery path) is unbounded.",
  ["common/tss.go", "common/tss_helper.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go"],
  [("signature over content and session id", "common/tss_helper.go generateSignature/verifySignature"), ("sender check before applying", "common/tss.go processTSSMsg/updateLocal")],
  ["shares applied to the local protocol party, with the participant they are attributed to", "errors returned"])

p("C05", "Each participant's share is applied at most once per round and message",
  "For one round and one message being signed, an accepted share of a participant is applied to the local protocol party exactly once: duplicates, replays and late re-deliveries of it, in any number and order and from any peer, are ignored without disturbing other shares, other participants or other messages in the batch. A share of a different round, participant or batch entry is never mistaken for a duplicate.",
  ["schedules", "histories"],
  "for every sequence of deliveries with repetitions, over all rounds, participants and batch positions",
  "Tests deliver one duplicate of one message; the guarantee is over all delivery histories with batches.",
  ["common/tss.go", "blame/manager.go"],
  [("accepted share registry keyed by round and message", "blame/manager.go UpdateAcceptShare/CheckMsgDuplication"), ("duplicate check before applying", "common/tss.go updateLocal")],
  ["shares applied to the local protocol party"],
  state=[("accepted shares", "for each round and message, the participants whose share was applied", "blame/manager.go")])

p("C06", "Outgoing shares are batched, signed and sent exactly once to their receivers",
  "Every share the local protocol parties produce leaves the node in exactly one outgoing message: a message is emitted once the shares of one round for all entries of the batch (for one receiver, if the round is point to point) are collected, and contains each of them once with its batch identifier. The message is signed by this node for this session, carries the right session id and message type, and is addressed to exactly the other participants for a broadcast round or exactly the intended receiver for a point-to-point round.",
  ["schedules", "inputs", "configurations"],
  "for every batch size, number of participants and interleaving of the shares of different batch entries, receivers and rounds",
  "Tests emit one message of one kind; interleavings of rounds, receivers and batch entries are never explored.",
  ["common/tss.go", "common/tss_helper.go", "conversion/conversion.go"],
  [("collecting shares per round and receiver, then sending", "common/tss.go ProcessOutCh/sendBulkMsg")],
  ["messages handed to the network layer with their receivers"])

p("C07", "A private share reaches only its intended receiver",
  "A point-to-point share is handed to the network for its intended receiver only. It is never included in a broadcast, in a confirmation, or in an answer to a share-recovery request, whoever asks and with whatever request, and a received point-to-point share is never passed on to another peer.",
  ["inputs", "schedules", "histories"],
  "for every ceremony, every recovery request any peer may send at any time, and every delivery order",
  "No test inspects who receives what, or asks for private shares through the recovery mechanism.",
  ["common/tss.go", "common/tss_helper.go", "blame/round_mgr.go"],
  [("receiver selection", "common/tss.go sendBulkMsg"), ("recovery store only holds confirmed broadcast messages", "common/tss.go applyShare, common/tss_helper.go processRequestMsgFromPeer")],
  ["messages handed to the network layer with their receivers"])

p("C08", "A missing broadcast share is recovered from peers that confirmed it",
  "A node that lacks a broadcast share its peers have confirmed asks exactly peers that reported the agreed content, and a peer answers a request only to the requester and only with the original signed share it accepted itself. An answer is used only if this node has an outstanding request for that content, and at most once; it then passes the same authentication and confirmation rules as a direct delivery, so that a node that missed a broadcast still completes the ceremony.",
  ["schedules", "fault_sequences", "histories"],
  "for every pattern of lost broadcast deliveries and every order of confirmations, requests, answers, unsolicited or forged answers",
  "Tests cover one request and one answer in isolation, never a whole ceremony in which a share was lost or answers are forged.",
  ["common/tss.go", "common/tss_helper.go", "blame/share_mgr.go", "blame/round_mgr.go"],
  [("request, answer and outstanding-request registry", "common/tss.go requestShareFromPeer, common/tss_helper.go processRequestMsgFromPeer, blame/share_mgr.go")],
  ["recovery requests and answers handed to the network layer", "shares applied to the local protocol party"])

p("C09", "Timeout blame names the silent participants and never an honest one",
  "When a ceremony whose party has formed fails because participants stop sending, every honest node reports failure and blames the participants that were silent and nobody else, never itself, as long as the silent ones are at most the threshold and the rest are enough to confirm each other's broadcasts. This holds whether the silence starts before the first message or in any later round, for point-to-point and broadcast rounds, for key generation and for signing batches of any size, and it is what the node answers to the request.",
  ["fault_sequences", "schedules", "configurations"],
  "for every round at which a participant goes silent, every silent subset up to the threshold, every batch size and delivery order",
  "The suite stops one node at a couple of fixed rounds of 4-party ceremonies with single messages.",
  ["blame/policy.go", "blame/policy_helper.go", "blame/manager.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go"],
  [("unicast, broadcast and missing-share blame", "blame/policy.go"), ("timeout branch", "keygen/tss_keygen.go, keysign/tss_keysign.go")],
  ["blame returned by the failed ceremony on each honest node, and in the answer of complete nodes"])

p("C10", "A wrong share is blamed on its author with verifiable evidence",
  "When a participant sends shares that fail verification, or different broadcast content to different peers, or confirmations for its own share, the honest nodes that detect it blame that participant and no honest one, also when other nodes are late because of it. Evidence in the blame is a message that this very participant sent in this ceremony, with its signature, which verifies under the blamed key for this session; it is there whenever a share of a broadcast-only round or a failed confirmation is blamed.",
  ["inputs", "fault_sequences", "schedules"],
  "for every corrupted round, corrupted content, equivocation pattern and delivery order",
  "The suite corrupts one share of one kind and does not verify the evidence.",
  ["common/tss.go", "blame/policy.go", "blame/blame.go", "blame/round_mgr.go"],
  [("invalid share and hash check blame", "common/tss.go processInvalidMsgBlame/applyShare"), ("evidence store", "blame/round_mgr.go")],
  ["blame returned by each honest node (public key, data, signature)"])

p("C11", "Leaderless party forming reports exactly who was online",
  "Leaderless party forming succeeds on a node exactly when every requested participant announced itself for that very session before the timeout, and then returns, without waiting for the timeout, all of them once; otherwise it fails and returns the node itself plus exactly the participants it heard from. Announcements from peers outside the request, for another session, or repeated ones never count. A key generation or signing request whose party does not form this way fails and blames exactly the requested participants the node did not hear from.",
  ["schedules", "fault_sequences", "configurations"],
  "for every participant set, every subset that is online, every start order, and every stray or repeated announcement",
  "Tests form one 4-party group and one with all or a single peer missing.",
  ["p2p/party_coordinator.go", "p2p/peer_status.go"],
  [("peer status group per session", "p2p/peer_status.go"), ("announce, wait, re-announce", "p2p/party_coordinator.go JoinPartyWithRetry/HandleStream")],
  ["party returned by party forming on each node, and the blame in the answer to the request"])

p("C12", "Leader-based party forming gives every member the same sufficient party",
  "When leader-based party forming succeeds, the leader and every member that got its answer hold the same list of participants: distinct peers of the request that announced themselves to the leader, the leader included, at least threshold+1 of them. If fewer show up before the timeout the leader and the members that reach it fail with the list of those online, and members of an unreachable leader fail naming the leader; the leader decides as soon as enough peers announced themselves, and answers from anybody but the leader and announcements from outsiders or for another session have no effect. A request whose party does not form fails and blames the leader, which answers for the party, and for a key generation in which the leader did answer also exactly the participants that are not online; nobody else. (The leader itself is assumed to be honest.)",
  ["schedules", "fault_sequences", "configurations"],
  "for every request, online subset, threshold, leader position, start order, impostor answers and outsider announcements",
  "Tests use four nodes with one or two failure patterns and never check agreement under impostors or larger groups.",
  ["p2p/party_coordinator.go", "p2p/peer_status.go", "p2p/leader_provider.go"],
  [("leader collects members then answers all", "p2p/party_coordinator.go joinPartyLeader/joinPartyMember"), ("leader check on answers", "p2p/party_coordinator.go processRespMsg")],
  ["party returned by party forming on each node, with the leader named, and the blame in the answer to the request"])

p("C13", "Leader election is deterministic, order independent and picks a member",
  "For the same session id, block height and participants, every node elects the same leader whatever order it lists the participants in, and the leader is one of them. The election depends on each of the session id and block height, so that no participant leads every ceremony, and empty or zero inputs are refused.",
  ["inputs"],
  "for all session ids, heights and participant lists in any order",
  "Tests use a couple of fixed inputs; agreement quantifies over all inputs and orders.",
  ["p2p/leader_provider.go"],
  [("smallest hash of session, height and peer", "p2p/leader_provider.go LeaderNode")],
  ["elected leader"])

p("C14", "Stream framing round-trips every payload and refuses the rest",
  "Any payload up to the 20,000,000 byte limit written to a stream is read back identically, however the transport fragments or delays the bytes, and consecutive streams never mix. A frame that announces more than the limit, is cut short or carries a transport error yields an error and never a truncated, padded or partial payload.",
  ["inputs", "fault_sequences"],
  "for every payload size and content, every fragmentation of the byte stream, and every truncation or error point",
  "Tests use a few small payloads over an in-memory buffer that never fragments.",
  ["p2p/stream_helper.go"],
  [("length-prefixed framing", "p2p/stream_helper.go ReadStreamWithBuffer/WriteStreamWithBuffer")],
  ["bytes returned by the reader", "bytes put on the wire"])

p("C15", "Messages reach exactly their ceremony, with the authenticated sender",
  "A message sent to a list of peers is delivered exactly once to the subscriber of its message type and session id on each of these peers, unchanged and labelled with the authenticated identity of the peer that sent it, never to another subscriber, never to the sender itself and never to peers not listed. Messages for which nobody subscribed (any more) and malformed ones are dropped without affecting others.",
  ["schedules", "histories", "inputs"],
  "for every set of concurrent subscriptions and cancellations, messages, receivers and delivery orders",
  "Tests send one message between two or three nodes with one subscription.",
  ["p2p/communication.go", "p2p/message_id_subscriber.go"],
  [("topic and session subscriptions", "p2p/communication.go SetSubscribe/getSubscriber/CancelSubscribe"), ("broadcast", "p2p/communication.go Broadcast/ProcessBroadcast/readFromStream")],
  ["messages arriving on subscribed channels"])

p("C16", "Releasing a session closes all of its streams and no other session's",
  "Releasing a session resets every stream recorded for it, and afterwards nothing is retained for it, also when streams are recorded and sessions released concurrently; streams recorded for other sessions stay open and are still reset when their own session is released. Unattributable streams are reset at the next release and then forgotten, so that no stream is left open or reset a second time.",
  ["schedules", "histories"],
  "for every interleaving of recording and releasing streams over any set of sessions",
  "The test releases a few sessions sequentially.",
  ["p2p/stream_helper.go", "p2p/communication.go", "p2p/party_coordinator.go", "keysign/signature_notifier.go"],
  [("stream registry per session", "p2p/stream_helper.go StreamMgr")],
  ["reset calls on streams"],
  state=[("recorded streams", "streams to be reset when their session ends", "p2p/stream_helper.go")])

p("C17", "Stored key shares survive exactly, separately and inside the node's folder",
  "A share record that was saved is returned identically for its pool key, also by a new process over the same folder and after any number of saves of other records; saving again replaces it, and every other pool key still returns its own record. Unknown pool keys, truncated or unparsable files and strings that are not valid pool keys give an error rather than a wrong or empty record, and no input makes the store read or write outside its folder.",
  ["inputs", "histories", "crash_points"],
  "for every record content, sequence of saves, reopenings and lookups, damaged file, and every string offered as a pool key",
  "Tests save and load one record; they never interleave several keys, damage files or offer hostile key strings.",
  ["storage/localstate_mgr.go", "conversion/key_provider.go"],
  [("one file per pool key, key validated before forming the path", "storage/localstate_mgr.go getFilePathName/SaveLocalState/GetLocalState")],
  ["records returned", "files created under and outside the folder"])

p("C18", "The peer address book round-trips every non-loopback address",
  "After the address book is saved, reading it back, also from a new process over the same folder or while other saves are in progress, returns exactly every non-loopback address of every peer with that peer's identity, and no 127.0.0.1 address. Each save replaces the previous content, and an unreadable or malformed book is an error, never a partial list.",
  ["inputs", "histories", "schedules"],
  "for every set of peers and addresses, every sequence of saves and loads, concurrent or not",
  "Tests save one fixed book once.",
  ["storage/localstate_mgr.go", "p2p/peer_address.go"],
  [("address book file", "storage/localstate_mgr.go SaveAddressBook/RetrieveP2PAddresses")],
  ["addresses read back"])

p("C19", "Node identities convert consistently between all their forms",
  "Converting a node's public key to its network identity and back gives the same key, and distinct keys have distinct identities; the participant identities built from a list of keys are the same on every node whatever the order of the list, map one to one to the keys, and mark the local node. Malformed keys, identities that carry no usable key and a list lacking the local node are reported as errors, never converted to something else.",
  ["inputs", "configurations"],
  "for all valid keys, key lists in any order, and malformed inputs",
  "Tests use four fixed keys.",
  ["conversion/conversion.go", "conversion/key_provider.go", "conversion/tss_helper.go"],
  [("key, peer and party conversions", "conversion/key_provider.go, conversion/conversion.go GetParties/SetupIDMaps")],
  ["converted values"])

p("C20", "Thresholds always require more than two thirds, for every group size",
  "For a group of n participants the threshold t is the largest number such that t is less than two thirds of n (t+1 = ceil(2n/3)), for every n, and negative sizes are refused. Key generation and signing use this threshold of the original participants: records created for n participants are usable by t+1 signers and refused with t or fewer.",
  ["inputs", "configurations"],
  "for every group size and every signer subset size",
  "Tests check three sizes of the arithmetic and never the refusal of undersized signer sets.",
  ["conversion/conversion.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go", "tss/keysign.go"],
  [("threshold formula", "conversion/conversion.go GetThreshold"), ("signer count check", "tss/keysign.go KeySign")],
  ["threshold value", "outcome of signing with t and t+1 shares"])

p("C21", "A waiting node accepts only a complete set of valid signatures",
  "A node waiting for the signatures of a session returns success only with exactly one signature per expected message, in the expected order, each valid for its message under the pool public key and with the recovery id that leads to this key; it returns them once. Sets that are incomplete, oversized, reordered, contain a missing or invalid signature or belong to another session, and failure notices, from any peer and in any number, neither end the wait nor prevent a later valid set from being accepted.",
  ["inputs", "schedules", "histories"],
  "for every sequence of notifications any peers may send, and every message batch",
  "Tests deliver one valid and one invalid signature; set sizes, orders and sequences are not explored.",
  ["keysign/notifier.go", "keysign/signature_notifier.go"],
  [("verification before accepting", "keysign/notifier.go ProcessSignature"), ("notifier registry per session", "keysign/signature_notifier.go")],
  ["signatures returned to the waiter"])

p("C22", "No message from the network or API request crashes or stalls a node",
  "Whatever bytes a peer sends on any of the node's protocols, and whatever request a client submits, the node does not crash, and it keeps serving other sessions and honest peers afterwards.",
  ["inputs", "fault_sequences"],
  "for all byte strings and structured malformed messages on every protocol, in every ceremony phase, from participants and outsiders",
  "Tests send a few malformed messages to single functions.",
  ["common/tss.go", "p2p/communication.go", "p2p/party_coordinator.go", "keysign/signature_notifier.go", "keysign/notifier.go", "blame/policy.go", "tss/keysign.go", "tss/keygen.go", "conversion/key_provider.go"],
  [("validation in message handlers", "common/tss.go ProcessOneMessage, p2p/communication.go readFromStream, p2p/party_coordinator.go HandleStream*, keysign/signature_notifier.go handleStream")],
  ["process liveness", "handler return, subsequent honest exchange"])

p("C23", "Concurrent ceremonies and messages are free of data races",
  "Concurrent message processing, party forming, signature waiting, share storage, blame bookkeeping and stream bookkeeping never access shared memory without synchronisation.",
  ["schedules"],
  "for every interleaving of the concurrent activities of one node or several nodes",
  "The suite is not run under the race detector and hardly drives concurrent activity on shared objects.",
  ["p2p/party_coordinator.go", "p2p/peer_status.go", "p2p/communication.go", "p2p/stream_helper.go", "p2p/message_id_subscriber.go", "common/tss.go", "common/local_cache_item.go", "blame/manager.go", "blame/blame.go", "blame/round_mgr.go", "blame/share_mgr.go", "keysign/signature_notifier.go", "storage/localstate_mgr.go"],
  [("locks around shared maps and lists", "the listed files")],
  ["race detector reports over real concurrent workloads"])

p("C24", "The same request gets the same session id on every node, others do not",
  "Nodes that are given the same key generation or signing request derive the same session id whatever the order of keys, signers or messages in their copy, and so meet in one ceremony; requests that differ in participants or in messages get different session ids. Deriving it does not depend on anything else in the node.",
  ["inputs", "configurations"],
  "for all requests and all permutations of their lists",
  "Tests compare one fixed request against a constant.",
  ["tss/tss.go", "common/tss_helper.go"],
  [("hash of sorted messages and keys", "tss/tss.go requestToMsgId")],
  ["session id used on the wire by a node"])

p("C25", "The HTTP API hands requests and results through faithfully",
  "Each well-formed key generation or signing request reaches the service exactly once with all its fields intact, and the response body is exactly the service's result; a failed signing call yields a server error. Malformed bodies are refused as bad requests and wrong methods or paths as such, without reaching the service, and liveness and identity endpoints always answer.",
  ["inputs", "schedules"],
  "for all request bodies, methods, paths and concurrent clients",
  "Tests post a few fixed bodies to the handlers.",
  ["cmd/tss/tss_http.go", "keygen/request.go", "keysign/request.go", "keygen/response.go", "keysign/response.go"],
  [("routing and (de)serialisation", "cmd/tss/tss_http.go")],
  ["requests seen by the service", "HTTP status and body"])

p("C26", "Monitoring counters account for every ceremony exactly once",
  "After any sequence of ceremonies, the success and failure counters of key generation, signing and party forming equal the numbers of ceremonies that ended so, and the timing gauges hold the duration of the latest successful one.",
  ["histories", "schedules"],
  "for every sequence and interleaving of ceremony outcomes",
  "Tests call the metric methods once each.",
  ["monitor/metric.go", "tss/keygen.go", "tss/keysign.go"],
  [("counters and gauges", "monitor/metric.go"), ("updates at ceremony end", "tss/keygen.go, tss/keysign.go")],
  ["exported metrics"])

p("C27", "The recovery tool rebuilds the pool key from enough share files",
  "Given at least threshold+1 share files of one key generation, in any order, the recovery tool prints the private key, public key and address of the pool; with an export path and a password of at least eight characters it writes a keystore that decrypts with that password, and no other, to that private key. With too few, unreadable or mismatched files it fails without printing a key as recovered or crashing.",
  ["inputs", "configurations"],
  "for every group size, every subset and order of share files, every password",
  "The tool has a unit test of one export and of the file reader, none of the recovery itself.",
  ["cmd/tss-recovery/tss-recovery.go", "cmd/tss-recovery/tool.go", "cmd/tss-recovery/key.go"],
  [("Lagrange reconstruction", "cmd/tss-recovery/tss-recovery.go"), ("keystore export", "cmd/tss-recovery/key.go")],
  ["tool output, exit status and exported file"])

p("C28", "A finished node leaves only after every other participant reported done",
  "A node that finished a ceremony tells every other participant exactly once that it is done, and considers the ceremony complete when each of the other participants has reported done, counting each peer once whatever it repeats; completion is signalled exactly once. Until then, or until a bounded grace period ends, it keeps answering peers that still need its shares.",
  ["schedules", "histories"],
  "for every order and repetition of completion reports and late share requests",
  "Tests send a few completion reports to one object.",
  ["common/tss.go", "common/tss_helper.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go"],
  [("completion notices and counting", "common/tss.go ProcessOneMessage, common/tss_helper.go NotifyTaskDone")],
  ["completion signal", "completion notices handed to the network layer"],
  state=[("finished peers", "peers that reported completion", "common/tss.go")])

p("C29", "Every ceremony ends within its timeouts and leaves nothing running",
  "A key generation, signing, party forming or signature wait always returns within its configured timeouts plus a bounded grace period, whatever peers do or fail to do (the timeout of a running ceremony starts again whenever the node's own protocol advances), and promptly after the node is told to stop. Once it has returned it leaves no goroutines or subscriptions of its session behind that grow with the number of ceremonies.",
  ["schedules", "fault_sequences", "histories"],
  "for every pattern of silent, crashed or misbehaving peers and stop requests at any point",
  "Tests do not bound the return time or look at what remains running.",
  ["keygen/tss_keygen.go", "keysign/tss_keysign.go", "tss/keygen.go", "tss/keysign.go", "p2p/party_coordinator.go", "keysign/signature_notifier.go", "common/tss.go"],
  [("timeouts and stop channels", "keygen/tss_keygen.go, keysign/tss_keysign.go, p2p/party_coordinator.go"), ("unsubscribe and release after a ceremony", "tss/keygen.go, tss/keysign.go")],
  ["return of the call", "goroutines after the call"])

p("C30", "The protocol version of a request decides how the party is formed",
  "Requests with a protocol version below 0.14.0 form the party without a leader and require all of the requested signers, requests of 0.14.0 or above use the leader; versions compare by semantic-version precedence, including multi-digit and pre-release parts, and a version that cannot be parsed is refused without starting a ceremony.",
  ["inputs"],
  "for all version strings",
  "Tests compare a few versions.",
  ["conversion/tss_helper.go", "tss/tss.go", "tss/keysign.go", "messages/version.go"],
  [("version comparison", "conversion/tss_helper.go VersionLTCheck"), ("join mode selection", "tss/tss.go joinParty")],
  ["protocols used on the wire, response of the node"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
import re
for d in P:
    n = len(re.findall(r"[.!?](?:\s|$)", d["statement"]))
    if n > 3: print("sentences", d["id"], n)
print(len(P))
