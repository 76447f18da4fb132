CLAIMED = {
 "C13": ("runtime monitor: independent hash oracle over elections on generated sessions and permuted participant lists", "sampled inputs; the oracle recomputes the election with crypto/sha256"),
 "C14": ("runtime monitor: fault-injecting stream under the real reader and writer, payload equality oracle", "sampled payload sizes, fragmentations, cuts and errors"),
 "C16": ("runtime monitor: recording streams (reset counts) under sequential histories and concurrent stress", "sampled histories and schedules; concurrent phase depends on the scheduler"),
}
CLAIMED.update({
 "C17": ("runtime monitor: model-based check of the file store over random save/read histories across processes, with a directory-tree diff for containment", "sampled histories, pool keys and hostile names"),
 "C18": ("runtime monitor: address-book round-trip oracle, also across processes and concurrent saves", "sampled address books and schedules"),
 "C19": ("runtime monitor: conversion oracle against independent btcec/libp2p derivations, malformed and hostile inputs", "sampled keys, lists and malformed forms"),
 "C25": ("runtime monitor: recording service behind the real HTTP handlers, field-by-field request and response oracle", "sampled requests; in-package overlay of cmd/tss"),
 "C27": ("runtime monitor: the built recovery tool run on dealt shares, output and keystore decrypted and compared with the dealt secret", "sampled groups, share subsets and corruptions"),
})
CLAIMED.update({
 "C01": ("runtime monitor: real key generations over a delaying, reordering, duplicating in-memory network; agreement, storage and secret-reconstruction oracle", "sampled schedules and group sizes up to 5 (quick) or 7"),
 "C02": ("runtime monitor: real signing ceremonies under hostile delivery, every signature, label and recovery id recomputed independently", "sampled pools, signer subsets, batches, messages and schedules"),
 "C09": ("runtime monitor: real ceremonies with participants silenced at every round, blame lists of all honest nodes compared with the silent set", "sampled silence points and groups up to 6 (quick) or 7"),
 "C20": ("runtime monitor: exact integer oracle over thresholds, real signing with too few and just enough signers", "all sizes to 60,000, sampled larger; signing with pools up to 7"),
})
CLAIMED.update({
 "C03": ("runtime monitor: online checker of every share application, confirmation and request of a real node against the history of everything it was given", "sampled histories of one node with recorder parties, groups up to 7, up to 3 lying participants"),
 "C04": ("runtime monitor: online checker of every share application against the set of messages really signed by that participant for this session, under forged, replayed and relabelled messages", "sampled hostile histories; about 30 kinds of forgery"),
 "C05": ("runtime monitor: online checker counting applications per participant, round and batch entry under duplication and re-delivery", "sampled histories"),
 "C06": ("runtime monitor: every message leaving the real sending side judged, for interleavings of batch entries, receivers and rounds, and in real ceremonies", "sampled interleavings, batches up to 21, groups up to 15"),
 "C07": ("runtime monitor: everything handed to the network is searched for private shares, under hostile share requests and in real ceremonies with lost broadcasts", "sampled histories and ceremonies"),
 "C08": ("runtime monitor: online checker of requests, answers and recoveries of a real node with lost, forged, repeated and unsolicited messages", "sampled histories of one node"),
 "C10": ("runtime monitor: real ceremonies with one or two participants sending wrong shares, blame lists and evidence verified; histories with equivocation", "sampled corruptions and rounds; groups of 4 to 6"),
 "C28": ("runtime monitor: completion signal checked against the reports received, and real ceremonies with late, missing and repeated completion reports", "sampled histories and ceremonies; grace period probed at 1.5 s"),
})
CLAIMED.update({
 "C11": ("runtime monitor: real party coordinators on libp2p hosts with recorded announcements; the returned list compared with the announcements that surely or possibly counted", "sampled sessions of 2..7 nodes with absent, late, cut off and hostile peers"),
 "C12": ("runtime monitor: real party coordinators on libp2p hosts with recorded announcements and answers; independent election; lists of leader and members compared with each other and with the announcements", "sampled sessions of 2..8 nodes with absent, late, cut off and hostile peers; honest leader"),
})
CLAIMED.update({
 "C21": ("runtime monitor: real signature notifiers on libp2p hosts under hostile sets; every result verified independently and compared with the sets that arrived during the wait", "sampled batches, hostile sets of 25 kinds and schedules"),
})
CLAIMED.update({
 "C15": ("runtime monitor: real communication layers over loopback; every delivery compared with what was sent, to whom and by whom", "sampled traffic, subscription histories and malformed frames"),
 "C24": ("runtime monitor: session ids read from the traffic of complete nodes given families of related requests, compared with an order-free canonical form of the request", "sampled requests and mutations; one known finding"),
 "C26": ("runtime monitor: counters and gauges exported by complete nodes compared after every operation with what the request returned and how long it took", "sampled sequences of operations, two at a time"),
 "C29": ("runtime monitor: requests on complete nodes with hostile peers timed, stopped at random moments; goroutines and reachable session ids compared before and after series of requests", "sampled peers and moments; grace of 30 s (20 s after stop); leaks of library goroutines and of state keyed by session"),
 "C30": ("runtime monitor: version oracle written from the semantic-versioning specification; protocol used and party formed read from the traffic of complete nodes", "sampled versions and announcements"),
})
CLAIMED.update({
 "C22": ("runtime monitor: complete nodes and real ceremonies under hostile messages and requests; crash, hang and service oracles, every ceremony case in a process of its own", "sampled hostile traffic; about 1,200 cases of one odd field (70 of them in the quick tier) and the attacks that need several"),
 "C23": ("sanitizer: the Go race detector over the workloads of all the labs and a hammer of the shared objects", "pairs of accesses that a run makes without an ordering between them"),
})
