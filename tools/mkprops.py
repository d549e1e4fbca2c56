import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
SP="omnipaxos/src/sequence_paxos/"; ST="omnipaxos/src/storage/"; OP="omnipaxos/src/omni_paxos.rs"; BLE="omnipaxos/src/ballot_leader_election.rs"; UT="omnipaxos/src/util.rs"; MS="omnipaxos/src/messages.rs"
NET="any history of API calls and message deliveries over per-link FIFO channels that may lose messages, break and re-establish, with partitions, server crashes at any point and restarts from storage, 2 to 7 servers, any batch size and (flexible) quorum sizes"
p("C01","Agreement: servers never decide different logs",
 "No two servers ever report different contents as decided at the same log index: at every moment the decided log of every server is a prefix of one common sequence. This holds through leader changes, lost messages, partitions, crashes and restarts, log synchronisation, snapshots and trimming.",
 ["schedules","crash_points","fault_sequences","histories","configurations"],NET,
 "Agreement is a statement about all interleavings of messages, losses, crashes and elections; the repository's cluster tests need an actor framework that runs a few timing-dependent schedules, and the ones that run reliably here never start a cluster.",
 [SP+"leader.rs",SP+"follower.rs",SP+"mod.rs",ST+"internal_storage.rs",UT],
 [("prepare phase picks the most up-to-date promise and syncs followers to it",SP+"leader.rs: handle_majority_promises, send_accsync"),("ballot check before accepting",SP+"follower.rs: check_valid_ballot"),("accept sequence numbers",UT+": SequenceNumber"),("atomic log sync",ST+"internal_storage.rs: sync_log")],
 [dict(name="decided index",meaning="length of the decided log prefix",where="OmniPaxos::get_decided_idx")],["OmniPaxos::read_decided_suffix","OmniPaxos::read_entries","Storage contents"])
p("C02","Decisions are permanent and progress indexes never go back",
 "Once a server has reported a log index as decided, its content at that server never changes and never becomes undecided again. A server's decided index, compacted index and promised ballot never decrease, also not across a crash and restart from the same storage.",
 ["schedules","crash_points","fault_sequences","histories"],NET,
 "Requires looking at every step of every history, including late or repeated synchronisation after a leader change; tests compare final states of a few runs.",
 [SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs",OP],
 [("decided index update",SP+"follower.rs: update_decided_idx_and_get_accepted_idx"),("log sync",ST+"internal_storage.rs: sync_log"),("recovery",ST+"internal_storage.rs: load_cache")],None,["get_decided_idx","get_compacted_idx","get_promise"])
p("C03","Only proposed entries are decided, unmodified and at most once",
 "Every decided entry equals an entry some server successfully appended, byte for byte, and no appended entry appears at two positions of the decided log. A decided reconfiguration equals one that was successfully proposed.",
 ["schedules","crash_points","fault_sequences","histories","inputs"],NET,
 "Duplicates, losses of content and phantom entries arise only from particular retransmission, forwarding, batching and synchronisation interleavings.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs",ST+"state_cache.rs",ST+"internal_storage.rs"],
 [("proposal forwarding and buffering",SP+"mod.rs: forward_proposals"),("batching",ST+"state_cache.rs"),("duplicate/outdated message suppression",UT+": SequenceNumber::check_msg_status")],None,["read_decided_suffix"])
p("C04","Quorums: decide only with a write quorum, lead only with a read quorum",
 "Every decided index is, from the moment any server reports it decided and forever after, held in the durable storage of at least a write quorum of servers (as log entry or inside their compacted prefix). A server replicates log content as leader of a ballot only after a read quorum of servers, itself included, has durably promised that ballot. The quorum sizes are the configured flexible quorum, or a majority when none is configured.",
 ["schedules","crash_points","fault_sequences","configurations"],NET+"; all valid flexible quorum configurations for up to 7 servers",
 "Needs a view of every server's disk at every decision under all schedules and quorum configurations; tests check that entries get decided, not that they are never decided too early.",
 [UT,SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs"],
 [("quorum counting",UT+": LeaderState::is_chosen, set_promise, Quorum"),("accepted acknowledgement",SP+"follower.rs: reply_accepted"),("leader's own acceptance",SP+"leader.rs: set_accepted_idx calls")],None,["Storage contents of all servers","outgoing messages"])
p("C05","Crash recovery: promises and acknowledgements survive restarts",
 "Whenever a server hands out a promise for a ballot or an acknowledgement of a log index, the promise and the acknowledged log are already in its storage, so they survive a crash at any later point. After a restart a server reports exactly the promised ballot, decided index, compacted index, log contents and reconfiguration state it had persisted, and it never again promises or acknowledges a ballot lower than one it promised, nor leads with a ballot it already used.",
 ["crash_points","schedules","histories"],NET+"; crashes between any two API calls and between any two storage writes inside a call",
 "There are as many crash points as storage writes and message sends; tests kill and restart a node at one convenient point.",
 [SP+"mod.rs",SP+"follower.rs",SP+"leader.rs",ST+"internal_storage.rs",BLE,OP],
 [("recovery state",SP+"mod.rs: SequencePaxos::with"),("cache reload",ST+"internal_storage.rs: load_cache"),("promise persisted before Promise is sent",SP+"follower.rs: handle_prepare"),("recovery ballot",BLE+": with / RECOVERY_ROUND")],None,["outgoing messages","Storage contents","public getters after restart"])
p("C06","Progress after faults: a healed cluster elects a leader and decides",
 "After any fault history, once all servers run, all links work and re-established connections have been reported, within a bounded number of ticks all servers agree on one leader in its replication phase. From then on, unless the configuration has been stopped, an entry appended at any server is decided at every server within a bounded number of ticks; an accepted but undecided reconfiguration becomes decided at every server, and so does one requested at any server now. Every server ends with the same decided index. Every message a server sends names it as the sender and another server of the configuration as the receiver.",
 ["fault_sequences","schedules","crash_points","configurations"],NET+"; followed by a fault-free period",
 "A stuck state is reached only by particular combinations of lost messages, crashes and leader changes; a test suite samples a handful of recoveries.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs",BLE,OP],
 [("resend timeouts",SP+"mod.rs: resend_message_timeout"),("reconnection",SP+"mod.rs: reconnected"),("sequence gap detection",SP+"follower.rs: handle_sequence_num"),("leader election",BLE+": hb_timeout")],None,["get_current_leader","get_decided_idx","is_reconfigured"])
p("C07","Partial connectivity: a quorum-connected server suffices for progress",
 "If, from some point on, the set of working bidirectional links is fixed and at least one running server is directly connected to a majority of servers (itself included), then within a bounded number of ticks some server that is directly connected to a majority leads in its replication phase, and entries appended at it are decided at it and at a majority of servers. No full connectivity is required.",
 ["fault_sequences","schedules","configurations"],"any connectivity graph on 3 to 7 servers with a quorum-connected server, entered from any earlier history",
 "The headline claim of the protocol concerns every partial-partition graph and every pre-history; hand-written scenarios cover three named ones with actor-framework timing.",
 [BLE,SP+"leader.rs",SP+"follower.rs",OP],
 [("happiness and takeover rules",BLE+": update_happiness, check_takeover"),("syncing election with promises",BLE+": hb_timeout")],None,["get_current_leader","get_decided_idx"])
p("C08","Leader election: unique increasing ballots, priority, stability",
 "A ballot is used by at most one server, and the ballots a server campaigns with strictly increase over its lifetime, restarts included. A fresh, fully connected cluster whose servers tick in lockstep and answer each other's heartbeats before the next tick elects the server with the highest (priority, id); with no faults and no manual takeover an elected leader keeps its leadership. A server that calls the manual leadership takeover in a healthy cluster becomes the leader everyone follows, and when a leader crashes while a quorum remains connected a new leader with a higher ballot takes over within a bounded number of ticks. A server whose priority is changed in a healthy cluster such that its ballot becomes the highest becomes that leader too, and a leader whose ballot is lowered that way is replaced by one with a higher ballot than it led with. Of its own accord a server starts a new ballot only after a read quorum (itself included) answered its last heartbeats. Heartbeats of servers of another configuration never influence an election.",
 ["schedules","crash_points","configurations","histories"],"any priorities, server ids, tick timeouts, quorums; "+NET,
 "Ballot uniqueness and stability are statements over whole histories with restarts, priority changes and manual takeovers; tests observe single elections.",
 [BLE,OP,SP+"leader.rs"],
 [("ballot order",BLE+": Ballot::cmp"),("takeover",BLE+": check_takeover"),("manual takeover",OP+": try_become_leader"),("recovered ballot",BLE+": with")],None,["Prepare messages","get_current_leader","get_promise"])
p("C09","Reconfiguration stops the log exactly once and everywhere alike",
 "A decided reconfiguration is the last entry of the decided log: nothing is ever decided after it, and every server that reports being reconfigured reports the same next configuration and metadata, which is one that was proposed. A server reports being reconfigured exactly when its decided log ends in the reconfiguration; while a server holds an accepted reconfiguration, further appends and reconfigurations at it are rejected and hand back the proposal, and otherwise valid ones are accepted. An invalid next configuration is always rejected with a configuration error and changes nothing. In a cluster with a stable leader and no losses, a reconfiguration accepted at any server, also before or while the first leader is elected, takes effect at all servers, after the entries its server had appended before (unless another reconfiguration was accepted too).",
 ["schedules","crash_points","fault_sequences","inputs","histories"],NET+", with reconfigurations proposed at any server at any time, and undecided ones overwritten by later leaders",
 "The stop entry lives outside the normal log and index arithmetic, so its corner cases (overwritten by a later leader, lost acknowledgement, restart, combined with compaction) need generated histories.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs",ST+"state_cache.rs",OP],
 [("stop sign acceptance",SP+"leader.rs: accept_stopsign_leader; follower.rs: handle_accept_stopsign"),("decided check",ST+"state_cache.rs: stopsign_is_decided"),("proposal rejection",SP+"mod.rs: append, reconfigure")],None,["is_reconfigured","append/reconfigure results","read_entries"])
p("C10","Trimming only removes what every server has, and nothing else",
 "A trim succeeds only at the leader, and only up to an index that is decided and stored by all servers; otherwise it returns the matching error and removes nothing; the index in a not-all-decided error can itself be trimmed to, and trimming without an index trims as far as possible instead of failing on undecided entries. After any trim, on the leader or forwarded to followers, each server's compacted index never exceeds its decided index, every entry at or above it is still readable unchanged, and indexes below it read as trimmed. A cluster in which all servers have everything can always be trimmed, and servers that lag behind a trim can still take over leadership or be synchronised without losing or corrupting entries.",
 ["schedules","crash_points","fault_sequences","inputs","configurations"],NET+", with trims of any index at any server",
 "Unsafe trimming shows only when a later leader change has to synchronise a lagging server; the existing test trims a fully replicated log once.",
 [SP+"mod.rs",UT,ST+"internal_storage.rs"],
 [("all-accepted bound",SP+"mod.rs: trim; util.rs: get_min_all_accepted_idx"),("decided bound",ST+"internal_storage.rs: try_trim"),("synchronisation of compacted logs",SP+"mod.rs: create_log_sync")],None,["trim result","get_compacted_idx","read_entries"])
p("C11","Snapshots equal the replay of the decided prefix they replace",
 "At every server and every moment, the stored snapshot equals the result of applying, in order and exactly once each, the decided entries it covers (all indexes below the compacted index), whether it was created locally, by a forwarded request, or received (fully or as a delta) while being synchronised. Snapshotting succeeds exactly for indexes that are decided, never covers undecided entries, and leaves all later entries readable; a snapshot at or below the compacted index changes nothing. A local snapshot is taken by the asked server only, a cluster-wide one by every server that gets the request and has decided the index.",
 ["schedules","crash_points","fault_sequences","inputs"],NET+", with snapshots (local or cluster-wide) of any index at any server; an order-sensitive, non-idempotent snapshot type",
 "Delta and complete snapshot transfer during leader changes depends on the exact decided, accepted and compacted indexes of two servers; idempotent key-value snapshots in tests hide double or missing application.",
 [SP+"mod.rs",ST+"internal_storage.rs"],
 [("snapshot creation",ST+"internal_storage.rs: try_snapshot, create_snapshot, create_diff_snapshot"),("snapshot installation",ST+"internal_storage.rs: sync_log")],None,["read (Snapshotted)","Storage::get_snapshot","snapshot result"])
p("C12","Reads return exactly the log's content and status for any range",
 "For every index and every non-empty range, reading returns exactly the entries the server holds in that range, in order, each correctly marked decided or undecided; the compacted prefix is represented once, as a trimmed or snapshotted entry carrying the compacted index, and an accepted reconfiguration as the last element with its decided status. Ranges reaching beyond the log read as out of bounds, and reading the decided suffix returns precisely the decided part from that index on. Read results compare equal exactly when they hold the same. Reads never change the server's state.",
 ["inputs","histories","schedules"],"all index/range forms (inclusive, exclusive, unbounded) against any log state reachable by "+NET,
 "The combinations of bound kinds, compaction, reconfiguration and decided index are many; tests read a few.",
 [ST+"internal_storage.rs",OP],
 [("range resolution",ST+"internal_storage.rs: read, get_entry_type"),("single read",OP+": read"),("decided suffix",ST+"internal_storage.rs: read_decided_suffix")],None,["read","read_entries","read_decided_suffix"])
p("C13","A stable cluster decides every append once, in order, however batched",
 "In a cluster with a stable leader and no losses, every entry whose append succeeded at any server, also before or while the first leader is elected, is decided exactly once at all servers, and entries appended at one server are decided in the order they were appended there. This does not depend on batch size, buffer size, flush timing or how often outgoing messages are collected; entries held in a batch are sent at the latest when the flush timeout fires, and collecting outgoing messages takes all of them and never discards messages already in the caller's buffer.",
 ["schedules","inputs","configurations"],"any fault-free interleaving of appends at all servers, ticks, message collection and FIFO delivery; any batch and buffer sizes",
 "Loss or reordering inside batching and message merging depends on when messages are collected relative to appends and acknowledgements.",
 [ST+"state_cache.rs",ST+"internal_storage.rs",SP+"leader.rs",SP+"follower.rs",SP+"mod.rs"],
 [("batching",ST+"state_cache.rs"),("merging into pending messages",SP+"leader.rs: send_acceptdecide, get_latest_accdec_message"),("flush timeout",SP+"mod.rs: flush_batch_timeout"),("collecting messages",SP+"mod.rs: take_outgoing_msgs")],None,["read_decided_suffix","take_outgoing_messages"])
p("C14","In-memory storage behaves as the storage contract says",
 "After any sequence of valid storage operations, single or as an atomic group, the in-memory storage returns for every query what an abstract log with absolute indexes would: the appended entries by index, suffixes and lengths net of trimming, overwritten suffixes after an append on a prefix, empty results for intervals not fully present, and the last value set for ballots, indexes, reconfiguration and snapshot.",
 ["inputs","histories"],"all sequences of contract-respecting operations and queries",
 "Every protocol guarantee rests on the storage contract for arbitrary operation sequences; it has no direct tests.",
 ["omnipaxos_storage/src/memory_storage.rs",ST+"mod.rs"],
 [("index translation by trimmed index","omnipaxos_storage/src/memory_storage.rs")],None,["Storage trait"])
p("C15","Persistent storage behaves as the contract says and survives reopening",
 "The persistent storage gives, for every sequence of valid operations, the same query results as an abstract log, and after the database is closed and reopened, or the process is killed between operations, it returns exactly the state as of the last completed operation and continues to append at the right index. A group of atomic operations is visible either entirely or not at all.",
 ["inputs","histories","crash_points"],"all sequences of contract-respecting operations, with close/reopen or kill at any point",
 "Key arithmetic after trimming, truncation and reopening depends on the operation history; tests reopen in one pattern.",
 ["omnipaxos_storage/src/persistent_storage.rs",ST+"mod.rs"],
 [("next log key recovery","omnipaxos_storage/src/persistent_storage.rs: open"),("write batch","omnipaxos_storage/src/persistent_storage.rs: write_atomically")],None,["Storage trait"])
p("C16","A failing storage write at any point never corrupts the replicated log",
 "If any single storage write fails or the server dies right before or right after it, the storage is left in a consistent state: restarting from it yields a server that satisfies agreement, permanence and recovery of everything acknowledged, and can rejoin and make progress. Multi-field state changes (log synchronisation, compaction) take effect completely or not at all.",
 ["crash_points","fault_sequences","histories"],"every storage write of generated multi-server histories, with the failure injected before it, after it, or as a returned error",
 "The existing atomicity tests inject failures at a few writes of scripted message exchanges; here every write of many histories is a crash point, followed by recovery of the whole cluster.",
 [ST+"internal_storage.rs",SP+"leader.rs",SP+"follower.rs",SP+"mod.rs"],
 [("atomic transactions",ST+"internal_storage.rs: sync_log, try_trim, try_snapshot"),("order of writes before messages",SP+"follower.rs, leader.rs")],None,["Storage contents after failure","behaviour after restart"])
p("C17","Invalid configurations are rejected, valid ones accepted, however given",
 "Building a server or proposing a reconfiguration succeeds exactly when the configuration is valid: a non-zero configuration id, at least two servers with distinct non-zero ids, own id non-zero and among the servers, non-zero buffer, batch, election and resend settings, and flexible quorum sizes between 2 and the number of servers, overlapping, with the read quorum at least the write quorum. A configuration read from a TOML file is accepted or rejected by the same rules, carries the file's values with documented defaults for omitted ones, and unreadable or malformed files are errors, not panics. Every such error can be printed together with its chain of causes, which ends.",
 ["inputs","configurations"],"all cluster and server configurations (small fields exhaustively, others randomly) and generated TOML documents",
 "A handful of invalid examples are tested; the rules are a conjunction over many fields where one wrong comparison goes unnoticed.",
 [OP,"omnipaxos/src/errors.rs"],
 [("validation",OP+": ClusterConfig::validate, ServerConfig::validate, OmniPaxosConfig::validate"),("TOML",OP+": with_toml")],None,["validate","build","reconfigure","with_toml"])
p("C18","UniCache coding is lossless for any stream, clone point and eviction",
 "For both provided cache policies and any cache size, decoding the encoded form of any sequence of values returns exactly that sequence, including after evictions. This also holds for a decoder that was cloned from the encoding cache at any point of the stream, and for one that was cloned and then serialised and deserialised.",
 ["inputs","histories"],"all value streams, cache sizes, clone points and serialisation formats, for the derived multi-field caches and the field caches",
 "Encoder and decoder must evict in lockstep for arbitrary histories; tests use streams that fit the cache.",
 ["omnipaxos/src/unicache/lru_cache.rs","omnipaxos/src/unicache/lfu_cache.rs","omnipaxos/src/unicache/lfu/mod.rs","omnipaxos/src/unicache/lfu/serialization.rs","omnipaxos_macros/src/lib.rs"],
 [("mirrored eviction","lru_cache.rs/lfu_cache.rs: try_encode, decode, clone")],None,["FieldCache::try_encode/decode","UniCache::try_encode/decode"])
p("C19","UniCache is transparent: a caching cluster replicates the same log",
 "With UniCache enabled, every entry a server stores or decides equals the entry that was appended, on every server, across leader changes, message loss, re-synchronisation, batching and restarts, and no server fails while decoding. Agreement, permanence and progress hold as without UniCache.",
 ["schedules","crash_points","fault_sequences","inputs"],NET+"; small caches so that evictions are frequent",
 "Cache state has to match the message stream exactly after every resynchronisation and leader change; the tests that run here exercise the cache data structure alone.",
 [ST+"state_cache.rs",ST+"internal_storage.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/unicache/mod.rs"],
 [("cache shipped with synchronisation",SP+"leader.rs: send_accsync; follower.rs: handle_acceptsync"),("encoding at the leader",ST+"state_cache.rs: append_entry, append_entries")],None,["read_decided_suffix on all servers"])
p("C20","Serialising messages and state changes nothing",
 "A cluster whose messages are serialised and deserialised in transit behaves identically, step by step, to one that passes them directly: same decided logs, leaders, ballots, outgoing messages and errors. Every message and every stored type survives a round trip through a binary and a self-describing format unchanged.",
 ["inputs","schedules","histories"],NET+", executed twice in lockstep with different transports",
 "Optional fields, enums and numeric edge values in every message type would have to be enumerated by hand; no test runs a serialised cluster.",
 [MS,UT,ST+"mod.rs",BLE,OP],
 [("serde derives",MS+", util.rs, storage/mod.rs")],None,["handle_incoming / take_outgoing_messages"])
p("C21","Servers in the same round hold prefix-related logs without gaps",
 "Whenever two servers have last accepted in the same leader's round, one's log is a prefix of the other's (compacted entries aside), whatever messages of the leader were lost. A follower that misses any message of a leader never appends past the gap; it detects the loss on the next message and re-synchronises, after which its log again extends correctly. Without losses, restarts, reported reconnections or repeated promises no server asks to be synchronised.",
 ["schedules","fault_sequences","histories"],NET,
 "A single wrongly accepted message after a loss corrupts a log silently until a later leader change exposes it.",
 [SP+"follower.rs",SP+"leader.rs",UT],
 [("sequence numbers per session",UT+": SequenceNumber, LeaderState::next_seq_num"),("resynchronisation",SP+"follower.rs: handle_sequence_num; mod.rs: reconnected")],None,["Storage contents of all servers"])
p("C22","Exposed UI state mirrors the server's actual state",
 "The state exposed for monitoring always agrees with the server's other observable state: same decided index and leader, own ballot carrying own id and configuration, heartbeats as they were really received from distinct peers in the last completed heartbeat round, and, at the leader in its replication phase, per-server accepted indexes placed at the server's id: its own exactly what it has stored, the others' never exceeding what that server has durably stored.",
 ["schedules","histories","configurations"],NET,
 "No test runs it against live clusters with arbitrary ids and message loss.",
 [OP,"omnipaxos/src/utils/ui.rs",BLE],
 [("state export",OP+": get_ui_states; utils/ui.rs: From<&LeaderState>")],None,["get_ui_states"])
p("C23","Ticks drive elections, resends and flushes exactly as configured",
 "Heartbeat rounds, message resends and batch flushes happen exactly at every configured multiple of ticks, independent of each other and of other activity: never earlier, never skipped. A batch of entries is stored and sent as soon as it is full, and by the leader no earlier unless the flush timeout fires or a reconfiguration follows. An unanswered leadership request, an unanswered promise, an unacknowledged reconfiguration and an unanswered recovery request are sent again at each resend timeout until answered.",
 ["inputs","schedules","configurations"],"all timeout settings, tick counts and states of a server (isolated, candidate, follower awaiting synchronisation, recovering, leader)",
 "Depends on arithmetic of three clocks and on the phase the server is in; tests use one timeout setting and wall-clock waiting.",
 [OP,UT,SP+"mod.rs",SP+"leader.rs",SP+"follower.rs"],
 [("logical clocks",UT+": LogicalClock"),("timeouts",OP+": tick"),("resend",SP+"leader.rs: resend_messages_leader; follower.rs: resend_messages_follower")],None,["outgoing messages per tick"])
p("C24","Derived entry types replicate values unchanged and cache as annotated",
 "For every type definition the derive macros document (named fields with any names and types, any subset marked for caching with any supported code type, cache size and policy, in any attribute order; with or without a snapshot type; for the plain entry macro also tuple structs and enums) the derived code compiles, and a cluster of the derived type decides exactly the appended values. Each annotated field is coded on its own with its own documented policy, size and code type or the documented defaults, other fields are transmitted as they are, and decoding returns the original value, also at a decoder cloned or serialised from the encoder at any point of the stream. Snapshots are used exactly when a snapshot type was given.",
 ["inputs","configurations","histories"],"all supported type definitions (generated), and value streams over them",
 "The macros produce code for each user type; the tests derive them for one fixed struct each, so naming clashes, attribute orders and combinations of policies are never compiled.",
 ["omnipaxos_macros/src/lib.rs","omnipaxos/src/unicache/mod.rs","omnipaxos/src/unicache/lru_cache.rs","omnipaxos/src/unicache/lfu_cache.rs"],
 [("derived coding","omnipaxos_macros/src/lib.rs: entry_derive, unicache_entry_derive")],None,["#[derive(Entry)]","#[derive(UniCacheEntry)]","UniCache::try_encode/decode"])
p("C25","The dashboard shows the current state and never disturbs its process",
 "After each tick of a started dashboard, in a window large enough for it, the screen shows the states given in that tick: own id, role (leader exactly when the state names this server), ballot, decided index, the current leader or that there is none, all servers of the cluster, the entries decided per tick, and a row per peer with its id, whether it answered, its ballot and leader; at the leader also its own and every peer's accepted index and progress. Ticks while it is stopped change nothing. Whatever the states, window sizes, keys, stops and restarts, the process goes on; the quit keys stop the dashboard, other keys do not, and a stopped dashboard leaves the terminal (screen, mode, cursor, mouse) as it was.",
 ["inputs","histories","configurations"],"all sequences of exposed states (arbitrary ids, ballots and heartbeats, leader changes), terminal sizes, key presses, stop and start",
 "No test drives the dashboard; what it shows depends on the previous states and the window.",
 ["omnipaxos_ui/src/lib.rs","omnipaxos_ui/src/app.rs","omnipaxos_ui/src/render.rs","omnipaxos_ui/src/util.rs"],
 [("state update","omnipaxos_ui/src/lib.rs: tick; app.rs"),("drawing","omnipaxos_ui/src/render.rs")],None,["OmniPaxosUI::start/stop/tick/is_started","the terminal"])
p("C26","Logging only observes, and log files hold every record",
 "A server built with the logging feature behaves in every history exactly as one built without: same outgoing messages, decided logs, ballots, results of operations and errors. A custom logger receives the records of all parts of the server. Without one, all records go, complete and in order, to the configured file, whose missing folders are created and whose earlier content is replaced.",
 ["schedules","histories","configurations"],NET+", executed with and without logging; generated log file paths",
 "No test of the suite compares the two builds or reads a log file back.",
 ["omnipaxos/src/utils/logger.rs",OP,BLE,SP+"mod.rs",SP+"leader.rs",SP+"follower.rs"],
 [("records at state changes",SP+"leader.rs, follower.rs, mod.rs"),("the logger of a server",OP+": build; utils/logger.rs")],None,["ServerConfig::logger_file_path/custom_logger","outgoing messages"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+"\n")
print(len(P))
