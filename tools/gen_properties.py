#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text is reviewable)."""
import json, os
SP="omnipaxos/src/sequence_paxos/"; ST="omnipaxos/src/storage/"
def P(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None))
TESTS="The runnable tests are 15 unit/doc tests (config parsing, storage round trips on one sample, promise helpers); "
L=[]
L.append(P("C01","Promise fencing: stale-ballot messages never change the log",
 "A server that has promised ballot n never appends or overwrites log entries, accepts a stop-sign, advances its decided index or acknowledges acceptance on behalf of a message carrying any ballot other than n, and its promised ballot never decreases. A Prepare is answered with a Promise only if its ballot is higher than the promised one, or equal to it while the server is recovering.",
 ["schedules","histories","inputs"],"every message, in every role/phase, with every relation between its ballot and the promised ballot",
 TESTS+"none delivers a stale Accept/Decide after a newer promise; the kompact cluster tests do not run here and sample a few schedules.",
 [SP+"follower.rs",SP+"leader.rs",SP+"mod.rs"],
 [("ballot check before each accept-phase handler",SP+"follower.rs check_valid_ballot"),("promise comparison in Prepare handling",SP+"follower.rs handle_prepare"),("leader ballot comparison",SP+"leader.rs handle_leader")],
 [("promise","highest ballot promised",ST+"state_cache.rs")],["messages returned by outgoing_messages","Storage calls"]))
L.append(P("C02","Promise durable before any Prepare/Promise leaves the server",
 "Whenever a server emits a Promise for ballot n, or starts leading ballot n (emits Prepare n), it has already durably stored n as its promise through the storage interface, and everything the Promise/Prepare claims about its log (accepted round, accepted index, decided index) has already been written to storage.",
 ["crash_points","schedules","histories"],"every crash point between receiving a Prepare / being elected and the reply being sent",
 TESTS+"no test crashes a server between writing and sending.",
 [SP+"follower.rs",SP+"leader.rs",ST+"internal_storage.rs"],
 [("storage set_promise and flush precede the outgoing push",SP+"follower.rs handle_prepare"),("same for a new leader",SP+"leader.rs handle_leader"),("cached promise only resent in the Prepare phase it was made in",SP+"follower.rs resend_messages_follower")],
 [("promise","cached promised ballot",ST+"state_cache.rs")],["order of Storage calls and outgoing messages"]))
L.append(P("C03","Acceptance is acknowledged only for durably stored entries",
 "An Accepted(n, idx) message, and the leader's own vote for idx, is produced only after every entry (and stop-sign) below idx has been handed to storage successfully; entries that sit in the in-memory batch are never counted. A leader counts its own vote for everything it has stored. The accepted index a server reports always equals the compacted prefix plus stored log length plus one for a stored stop-sign.",
 ["crash_points","schedules","histories","configurations"],"every batch size, message order and crash point",
 TESTS+"none checks what is in storage at the time an Accepted is emitted.",
 [SP+"follower.rs",SP+"leader.rs",ST+"internal_storage.rs",ST+"state_cache.rs"],
 [("accepted index is bumped together with the storage append",ST+"internal_storage.rs append_entries_without_batching / append_stopsign / set_stopsign / sync_log"),("reply uses the returned accepted index",SP+"follower.rs reply_accepted")],
 [("accepted_idx","length of the durably accepted log",ST+"state_cache.rs"),("accepted_indexes","leader's per-server accepted table","omnipaxos/src/util.rs LeaderState")],["Accepted messages","Storage append calls"]))
L.append(P("C04","Restart rebuilds exactly the stored state and rejoins through recovery",
 "Building a server on existing storage restores promise, accepted round, decided index, compacted index, stop-sign and accepted index from storage before any message is handled; if a promise was stored the server starts as a recovering follower and asks every peer for a Prepare, otherwise it starts idle with the default ballot. A restarted server never participates in leader election with a ballot number it may have used before it was recovered.",
 ["crash_points","histories"],"every storage content a crash can leave behind, every cluster membership",
 TESTS+"none builds an OmniPaxos on non-empty storage.",
 [SP+"mod.rs",ST+"internal_storage.rs","omnipaxos/src/omni_paxos.rs","omnipaxos/src/ballot_leader_election.rs"],
 [("load_cache",ST+"internal_storage.rs"),("Recover phase and PrepareReq broadcast",SP+"mod.rs with"),("BLE built with the recovered promise as leader","omnipaxos/src/omni_paxos.rs build")],
 [],["state after build","first outgoing messages"]))
L.append(P("C05","Reported state never diverges from stored state",
 "Every change of the in-memory promise, accepted round, decided index, compacted index or stop-sign is accompanied, in the same operation, by the storage write of the same value, and no stored value is changed without the in-memory value; therefore what the getters report equals what a restart would load.",
 ["crash_points","histories"],"every operation that changes durable state",
 TESTS+"none compares cached state with a reload after protocol steps.",
 [ST+"internal_storage.rs",ST+"state_cache.rs",SP+"mod.rs"],
 [("setters write cache and storage together",ST+"internal_storage.rs"),("sync/trim/snapshot put the cached values in the write batch",ST+"internal_storage.rs")],
 [("StateCache","in-memory copy of the durable state",ST+"state_cache.rs")],["public getters","Storage calls"]))
L.append(P("C06","Entries are decided only with a write quorum, and decisions never regress",
 "A leader advances its decided index to idx only when at least a write quorum of servers (majority, or the configured write quorum size) have acknowledged accepting idx in the leader's current ballot, and does so as soon as an acknowledgement completes that quorum; a follower only on a decided index announced by the leader of its promised ballot. The decided index never decreases and never exceeds the accepted index of the same server.",
 ["schedules","histories","configurations"],"every interleaving of Accepted/Decide messages, ballot changes and quorum configuration",
 TESTS+"quorum arithmetic is only exercised with one 3-node majority sample.",
 [SP+"leader.rs",SP+"follower.rs","omnipaxos/src/util.rs",ST+"internal_storage.rs"],
 [("is_chosen quorum count","omnipaxos/src/util.rs LeaderState::is_chosen, Quorum::is_accept_quorum"),("accepted table reset per ballot",SP+"leader.rs handle_leader"),("clamping to the accepted index",SP+"follower.rs update_decided_idx_and_get_accepted_idx"),("monotone sync",ST+"internal_storage.rs sync_log")],
 [("accepted_indexes","acks per server in the current ballot","omnipaxos/src/util.rs")],["decided index","Decide/AcceptDecide messages"]))
L.append(P("C07","A new leader adopts the most up-to-date log of a read quorum",
 "A leader starts accepting in ballot n only after promises for n from a read quorum, and before that it synchronises its own log with the most up-to-date promise of that quorum, i.e. the highest accepted round and then the longest accepted log, together with the highest decided index among them. A follower answering a Prepare reports its true accepted round, accepted index and decided index and, whenever it is more up to date than the candidate, ships the log suffix the candidate lacks.",
 ["schedules","histories","configurations"],"every set and order of promises",
 TESTS+"no test runs a leader change with diverging logs.",
 [SP+"leader.rs",SP+"follower.rs","omnipaxos/src/util.rs"],
 [("promise ordering and quorum","omnipaxos/src/util.rs set_promise, PromiseMetaData::partial_cmp, Quorum::is_prepare_quorum"),("log adoption",SP+"leader.rs handle_majority_promises"),("promise contents",SP+"follower.rs handle_prepare")],
 [("max_promise_meta/max_promise_sync","best promise so far","omnipaxos/src/util.rs")],["AcceptSync content","log after election"]))
L.append(P("C08","Accept-phase messages are applied gap-free and in order",
 "Within a ballot a follower applies an accept-phase message (entries, stop-sign, decide) only if it is the immediate successor, in the same session, of the last one applied; on a gap it stops accepting and asks the leader to resynchronise, and duplicates are ignored. A leader gives every new accept-phase message to a follower the next sequence number, starts a new session with every resynchronisation, and never adds entries to a message that the follower may already have been sent or that belongs to an earlier session or ballot.",
 ["schedules","fault_sequences","histories"],"every loss, duplication, reordering and reconnection pattern",
 TESTS+"no test drops or reorders accept messages.",
 [SP+"follower.rs",SP+"leader.rs","omnipaxos/src/util.rs",SP+"mod.rs"],
 [("sequence check","omnipaxos/src/util.rs SequenceNumber::check_msg_status"),("sessions",SP+"leader.rs send_accsync"),("pending AcceptDecide cache and its invalidation","omnipaxos/src/util.rs latest_accept_meta, "+SP+"mod.rs take_outgoing_msgs")],
 [("current_seq_num","last applied sequence number",SP+"mod.rs"),("follower_seq_nums","last issued per follower","omnipaxos/src/util.rs")],["entries appended by followers"]))
L.append(P("C09","Log synchronisation reproduces the sender's log exactly",
 "After applying a log synchronisation the receiver's log equals the sender's: the shipped suffix starts exactly at the announced sync index, the kept prefix is only what the protocol guarantees to be common (the follower's accepted prefix in the same round, otherwise its decided prefix), snapshots cover exactly the decided prefix they are labelled with, and the receiver's stop-sign is replaced by the sender's. A synchronisation is refused only when storage fails.",
 ["histories","schedules","configurations"],"every combination of log lengths, rounds, compaction and snapshots on both sides",
 TESTS+"no test performs a log synchronisation.",
 [SP+"mod.rs",SP+"leader.rs",ST+"internal_storage.rs"],
 [("create_log_sync",SP+"mod.rs"),("valid prefix computation",SP+"leader.rs send_accsync"),("sync_log, create_diff_snapshot, create_snapshot",ST+"internal_storage.rs")],
 [],["AcceptSync/Promise log_sync","log after sync"]))
L.append(P("C10","Storage errors are never silently ignored",
 "When any storage operation fails, the calling operation either returns the error to the user or panics; the server never continues as if the write or read had succeeded, never sends a protocol message afterwards, and no storage backend turns an I/O or decoding error into a success.",
 ["fault_sequences","crash_points"],"every storage call site and every failure of it",
 TESTS+"the tests only use storages that never fail.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs","omnipaxos/src/omni_paxos.rs","omnipaxos_storage/src/persistent_storage.rs","omnipaxos_storage/src/memory_storage.rs"],
 [("expect/? on every StorageResult","all call sites"),("documented exception: a forwarded Compaction request may fail without effect",SP+"mod.rs handle_compaction")],
 [],["returned errors","panics"]))
L.append(P("C11","Multi-part state changes are atomic",
 "Adopting a synchronised log (accepted round, decided index, compaction, snapshot, suffix, stop-sign), trimming, and snapshotting each reach storage as one atomic write containing all their parts; the persistent backend commits every atomic write as a single batch in one database write. A crash therefore leaves either the complete old or the complete new state, and a failed atomic write leaves none of its parts to be committed by a later one.",
 ["crash_points"],"every crash point inside sync, trim and snapshot",
 TESTS+"no test crashes between the parts of an update.",
 [ST+"internal_storage.rs","omnipaxos_storage/src/persistent_storage.rs"],
 [("write_atomically",ST+"internal_storage.rs sync_log/try_trim/try_snapshot"),("WriteBatch","omnipaxos_storage/src/persistent_storage.rs write_atomically")],
 [],["Storage calls per operation"]))
L.append(P("C12","Persistent storage reads back exactly what was written, under any path",
 "For every durable item (log entry, promise, accepted round, decided index, compacted index, snapshot, stop-sign) the persistent backend uses the same key and the same encoding for direct writes, batched writes, and reads, different items never share a key, log keys sort in log order, and reopening the database continues appending directly after the last stored entry. The database is the one at the configured path, opened with the configured options.",
 ["inputs","histories","crash_points"],"every item, every write path (direct or atomic batch), every reopen",
 "One round-trip sample per setter on one database; batched writes, reopen and ordering beyond a few entries are not covered.",
 ["omnipaxos_storage/src/persistent_storage.rs"],
 [("key constants and codec calls","omnipaxos_storage/src/persistent_storage.rs"),("big-endian log keys and next_log_key","omnipaxos_storage/src/persistent_storage.rs")],
 [("next_log_key","key of the next appended entry","omnipaxos_storage/src/persistent_storage.rs")],["rocksdb calls"]))
L.append(P("C13","Atomic batches perform every listed operation, in order, unaltered",
 "For every kind of storage operation that can be listed in an atomic write, each storage backend performs exactly the effect of the corresponding individual operation with the listed arguments, in list order, and none is skipped.",
 ["inputs","histories"],"every sequence of storage operations, both backends",
 "The existing tests apply one short batch.",
 ["omnipaxos_storage/src/persistent_storage.rs","omnipaxos_storage/src/memory_storage.rs","omnipaxos/src/storage/mod.rs"],
 [("StorageOp dispatch","write_atomically in both backends")],[],["backend state after write_atomically"]))
L.append(P("C14","Memory storage honours the storage contract",
 "In the in-memory backend every setter is observed by its own getter and nothing else, log positions are logical (independent of trimming), appending on a prefix keeps exactly that prefix, trimming removes exactly the entries below the given index, and range and suffix reads return exactly the requested stored entries.",
 ["inputs","histories"],"every sequence of storage calls",
 "The in-memory backend has no direct tests in the runnable suite.",
 ["omnipaxos_storage/src/memory_storage.rs"],
 [("field per item, offset by trimmed_idx","omnipaxos_storage/src/memory_storage.rs")],[("trimmed_idx","logical index of the first stored entry","omnipaxos_storage/src/memory_storage.rs")],["getters"]))
L.append(P("C15","Compaction never loses undecided or still-needed entries",
 "Trimming is initiated only by the leader and only up to an index every server in the cluster has accepted; no trim or snapshot ever passes the decided index or lowers the compacted index, and a snapshot covers exactly the old snapshot plus the entries up to the new compacted index. Peers are asked to compact only after the local compaction succeeded, and to the same index; rejected requests change nothing and report why.",
 ["inputs","histories","configurations"],"every requested index, role, membership and log state",
 TESTS+"trim/snapshot tests need the kompact cluster and cover a few indices.",
 [SP+"mod.rs",ST+"internal_storage.rs","omnipaxos/src/util.rs","omnipaxos/src/omni_paxos.rs"],
 [("trim bound",SP+"mod.rs trim, util.rs get_min_all_accepted_idx"),("decided bound",ST+"internal_storage.rs try_trim/try_snapshot")],
 [],["compacted index","errors returned","Compaction messages"]))
L.append(P("C16","Nothing follows an accepted stop-sign",
 "Once a server has accepted a stop-sign it appends no further entries and rejects user appends and reconfigurations with the pending-reconfiguration error returning the input; at most one stop-sign occupies the last log position. A reconfiguration is reported as complete only when the stop-sign itself is decided, with exactly the proposed configuration and metadata.",
 ["schedules","histories"],"every interleaving of append, reconfigure, forwarding, leader change",
 TESTS+"no runnable test reconfigures.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs",ST+"state_cache.rs","omnipaxos/src/omni_paxos.rs"],
 [("accepted_reconfiguration gate",SP+"mod.rs"),("stopsign_is_decided",ST+"state_cache.rs")],[],["append/reconfigure results","is_reconfigured"]))
L.append(P("C17","Reads return the right entries with the right status",
 "A read of a non-empty range returns the log entries of exactly that range in order, each labelled Decided exactly when its index is below the decided index, the compacted prefix represented by the snapshot (or trimmed marker) carrying the compacted index, and the stop-sign at the last position with its decided flag; ranges beyond the accepted log give None. Reading the decided suffix never returns an undecided entry.",
 ["inputs","histories"],"every range and every combination of compacted/decided/accepted indexes",
 TESTS+"read tests need the cluster and sample a few ranges.",
 [ST+"internal_storage.rs","omnipaxos/src/omni_paxos.rs"],
 [("get_entry_type, create_read_log_entries, create_compacted_entry",ST+"internal_storage.rs")],[],["read, read_entries, read_decided_suffix"]))
L.append(P("C18","Proposals are never lost or duplicated by the server handling them",
 "An append or reconfiguration accepted by a server (Ok result, or received as a forwarded proposal while no stop-sign is accepted) ends in exactly one place: appended to the log by the leader, forwarded unchanged to the current leader, or kept in the local buffer; a leader in the accept phase appends it. (Of several competing reconfigurations waiting in the same buffer at most one is kept, since at most one can be chosen.) Buffered proposals are taken out exactly when they are appended by the newly synchronised leader or forwarded on following one, in order, and rejected proposals are returned to the caller.",
 ["schedules","histories"],"every role and phase at every call, every leader change",
 TESTS+"no test proposes during leader changes.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs"],
 [("role/phase dispatch",SP+"mod.rs propose_entry/reconfigure; leader.rs handle_forwarded_*"),("buffers",SP+"mod.rs buffered_proposals/buffered_stopsign")],[],["log, outgoing messages, return value"]))
L.append(P("C19","Batching preserves entries and order",
 "With any batch size, every entry placed in the batch is written to storage exactly once, in proposal order and before any later entry or stop-sign, the batch is empty afterwards, and the AcceptDecide messages carry exactly the entries written, to every promised follower, followed by the stop-sign if one was appended; a follower appends exactly the entries of the message.",
 ["histories","configurations","schedules"],"every batch size and interleaving of appends, flushes, stop-signs and ballot changes",
 TESTS+"batching tests need the cluster.",
 [ST+"state_cache.rs",ST+"internal_storage.rs",SP+"leader.rs",SP+"follower.rs"],
 [("take_batched_entries and append",ST+"internal_storage.rs"),("send_acceptdecide",SP+"leader.rs")],[("batched_entries","entries not yet in storage",ST+"state_cache.rs")],["Storage appends","AcceptDecide contents"]))
L.append(P("C20","Messages are correctly addressed and delivered exactly once to the caller",
 "Every outgoing message names this server as sender and is addressed to another server: replies to the sender or ballot owner, proposals to the current leader, broadcasts to every peer exactly once, synchronisation, entries and decisions to every promised follower exactly once. Every Prepare that is promised, every log change of a follower, every late promise and every request for Prepare or a heartbeat is answered. Every produced Sequence Paxos and BLE message is handed out by outgoing_messages exactly once, in production order, and incoming messages are dispatched to the component of their kind.",
 ["schedules","histories","configurations"],"every message kind and every call sequence",
 TESTS+"addressing is only checked indirectly by cluster tests that do not run.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs","omnipaxos/src/messages.rs"],
 [("outgoing buffers","omnipaxos/src/omni_paxos.rs take_outgoing_messages"),("from/to fields","all send sites"),("get_sender/get_receiver","omnipaxos/src/messages.rs")],[],["outgoing messages"]))
L.append(P("C21","Leader election: unique, monotone ballots and takeover only with quorum",
 "Ballots are totally ordered by round number, then priority, then server id; the leader ballot a server knows never decreases, and a server claims leadership only with its own ballot. It raises its ballot only when it and every server it heard from this round are without a usable leader and it heard from a read quorum (itself included), and then to a round above that leader's; heartbeat replies count only for the current round and the same configuration. A restarted server starts from the ballot it had promised and does not claim leadership with a ballot it used before the restart.",
 ["schedules","histories","configurations","fault_sequences"],"every partial connectivity pattern and heartbeat schedule",
 TESTS+"BLE tests need the cluster.",
 ["omnipaxos/src/ballot_leader_election.rs"],
 [("Ballot ordering","omnipaxos/src/ballot_leader_election.rs Ballot"),("hb_timeout, check_leader, update_happiness","omnipaxos/src/ballot_leader_election.rs")],
 [("current_ballot","own ballot","omnipaxos/src/ballot_leader_election.rs"),("leader","last elected ballot","omnipaxos/src/ballot_leader_election.rs"),("happy","connected to a good-enough leader","omnipaxos/src/ballot_leader_election.rs")],["leader returned by tick","heartbeat messages"]))
L.append(P("C22","Invalid configurations are always rejected",
 "Building a server or proposing a reconfiguration with an invalid configuration (own pid zero or not among the nodes, fewer than two nodes, configuration id zero, flexible quorums that do not overlap, lie outside 2..cluster size, or have read smaller than write quorum, or zero batch size, buffer size, election or resend timeout) returns an error, and no storage, message or server state is created or changed. Every configuration satisfying these rules is accepted.",
 ["inputs","configurations"],"every configuration value",
 "Four sample invalid configurations are tested.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/errors.rs"],
 [("valid_config! checks","omnipaxos/src/omni_paxos.rs validate")],[],["build / build_for_this_server / reconfigure results"]))
L.append(P("C23","UniCache encoder and decoder stay in lock-step",
 "For every cache implementation, encoding and decoding an entry perform the same sequence of cache updates (hit, insert, evict) with the same capacity, so that a decoder that starts from the leader's cache snapshot and sees the same encoded entries decodes exactly the original entries; a cache shipped to a follower reflects exactly the entries encoded so far.",
 ["inputs","histories"],"every entry sequence, capacity and leader change",
 "The unicache tests encode and decode a few items without eviction across servers.",
 ["omnipaxos/src/unicache/lru_cache.rs","omnipaxos/src/unicache/lfu_cache.rs","omnipaxos/src/unicache/lfu/mod.rs","omnipaxos_macros/src/lib.rs",ST+"state_cache.rs"],
 [("try_encode/decode","omnipaxos/src/unicache/*.rs"),("derive macro expansion","omnipaxos_macros/src/lib.rs")],[],["decode(try_encode(x))"]))
L.append(P("C24","Ticks drive every timer and lost messages are resent",
 "Each tick advances the election, resend and batch-flush clocks once; each fires exactly when its configured number of ticks has passed and then restarts. On the resend timeout a leader re-sends Prepare to every server that has neither promised nor gone to a higher ballot and re-sends unacknowledged stop-signs, a follower re-sends its unanswered Promise or PrepareReq, and re-sent accept-phase messages reuse their sequence number.",
 ["schedules","fault_sequences"],"every tick sequence and lost-message pattern",
 TESTS+"no runnable test ticks a server.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/util.rs",SP+"leader.rs",SP+"follower.rs"],
 [("LogicalClock","omnipaxos/src/util.rs"),("tick","omnipaxos/src/omni_paxos.rs"),("resend_messages_*",SP+"leader.rs, follower.rs")],[],["outgoing messages after tick"]))
L.append(P("C25","Status queries report this server's own current state",
 "For every state of the server, the promised ballot, decided index and compacted index it reports are those it currently holds; the reported current leader is the owner of the promised ballot (none before any promise), with the flag set exactly when this server is in the accept phase; and the state handed to the UI shows this server's own ballot, leader, decided index, the heartbeats of the last completed round, and each server's accepted index at the position of its id.",
 ["histories","schedules"],"every reachable state",
 TESTS+"getters are only compared in cluster tests that do not run.",
 ["omnipaxos/src/omni_paxos.rs",SP+"mod.rs","omnipaxos/src/utils/ui.rs"],
 [("getters","omnipaxos/src/omni_paxos.rs get_promise/get_decided_idx/get_compacted_idx/get_current_leader/get_ui_states")],[],["return values"]))
L.append(P("C26","Role and phase change only along the protocol, and a server that may have missed messages resynchronises",
 "A server becomes leader only by its own election with a ballot above its promise and above any it led before; it starts accepting as leader only from the prepare phase on a promise for its ballot; it becomes a follower in the prepare phase exactly by promising a Prepare, and an accepting follower exactly by applying, in that phase, the AcceptSync of the ballot it promised. On reconnecting to its leader, or on missing a message, it becomes a recovering follower and asks for a Prepare (reconnecting to any other peer asks too, without changing state); while not accepting it applies no entries, stop-signs or decisions. A synchronisation, entries, stop-sign or decision of a ballot other than the promised one is answered: a lower ballot with NotAccepted naming the promise, a higher one by asking its owner for a Prepare. Nothing else changes role or phase. The leader's record of each server (promised, not promised, gone to a higher ballot) changes only on that server's own Promise, PrepareReq or NotAccepted, and is set accordingly.",
 ["schedules","histories","fault_sequences"],"every message in every role and phase, every reconnection and restart",
 TESTS+"reconnect tests need the cluster.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/util.rs"],
 [("state transitions",SP+"leader.rs handle_leader/handle_majority_promises; follower.rs handle_prepare/handle_acceptsync; mod.rs reconnected"),("PromiseState table","omnipaxos/src/util.rs LeaderState")],
 [("state","(role, phase)",SP+"mod.rs"),("promises_meta","per-server promise state","omnipaxos/src/util.rs")],["outgoing messages","applied entries"]))
L.append(P("C27","Messages, durable records and configuration survive serialisation",
 "Every value of a type the library serialises - messages, ballots, stop-signs, snapshots, log synchronisation, cluster configuration - written with its serde implementation and read back comes out equal: every variant is read as itself and every field gets the value that was written for it, whether the data format identifies fields by position or by name; and every field of the configuration is set from the configuration key of its own name.",
 ["inputs"],"every value of every serialisable type, in formats with positional and with named fields",
 TESTS+"no test serialises a message; persistent-storage tests compare a few values.",
 ["omnipaxos/src/messages.rs","omnipaxos/src/util.rs","omnipaxos/src/storage/mod.rs","omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs"],
 [("Serialize/Deserialize implementations","omnipaxos/src/messages.rs, util.rs, storage/mod.rs, ballot_leader_election.rs"),("configuration keys","omnipaxos/src/omni_paxos.rs OmniPaxosConfig, ClusterConfig, ServerConfig")],[],["bytes on the wire and on disk","configuration built from a file"]))
L.append(P("C30","Replicated-log agreement (prefix consistency of decided logs)",
 "For any two servers, the decided log of one is a prefix of the decided log of the other, across all crashes, partitions, leader changes and compactions.",
 ["schedules","crash_points","histories","fault_sequences"],"every history of the distributed system",
 "Cluster tests sample schedules and do not run here.",
 [SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs"],[("the whole protocol: C01-C09 are its per-transition necessary conditions",SP)],[],["decided logs of all servers"]))
L.append(P("C31","Progress: with a connected quorum, proposals are eventually decided",
 "If a quorum of servers stays connected to one server and messages between them are eventually delivered, some server is elected and every accepted proposal is eventually decided.",
 ["schedules","fault_sequences"],"every fair schedule",
 "Liveness over infinite schedules.",
 ["omnipaxos/src/ballot_leader_election.rs",SP+"leader.rs",SP+"follower.rs"],[("ticks, resends, re-election","omnipaxos/src/omni_paxos.rs")],[],["decided index over time"]))
L.append(P("C32","Snapshots are semantically equal to the entries they replace",
 "Applying a snapshot has the same effect on the application state as applying the entries it was created from, for any split into create and merge calls.",
 ["inputs","programs"],"every application Snapshot implementation and entry sequence",
 "Depends on user-supplied code.",
 ["omnipaxos/src/storage/mod.rs"],[("Snapshot trait contract","omnipaxos/src/storage/mod.rs")],[],["application state"]))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in L: f.write(json.dumps(p)+"\n")
print(len(L))
