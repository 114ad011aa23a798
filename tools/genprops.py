#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the text is reviewable).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
HOOK="MASSTREE_SIM hooks in compiler.hh / kvthread.hh: inline-asm atomics, spin hints and the node pool report to the simulator"
TREE=["masstree.hh","masstree_get.hh","masstree_insert.hh","masstree_remove.hh","masstree_split.hh","masstree_struct.hh","masstree_tcursor.hh","nodeversion.hh","btree_leaflink.hh","kpermuter.hh","ksearch.hh","masstree_key.hh","stringbag.hh"]

prop("T01","Concurrent gets, puts, replaces and removes are linearizable",
 "When any number of threads concurrently look up, insert, replace and remove binary keys of any length up to the maximum in one tree, every operation appears to take effect atomically at one instant between its start and its return: a lookup returns the value of the latest write before it (never a torn, stale, lost or foreign value), and inserted/updated/removed result flags agree with that order. This holds through every internal restructuring the operations cause: node splits, new trie layers, node and layer removal, and key-suffix reorganisation.",
 ["schedules","histories","inputs"],
 "every interleaving of shared-memory accesses of any set of concurrent point operations, over every key set (shared prefixes, zero bytes, lengths 0..255)",
 "mttest runs real threads whose interleaving it does not control and whose windows are a few instructions wide; it checks final contents and per-thread invariants, never a concurrent history.",
 TREE+["query_masstree.hh","kvrow.hh"],
 [("optimistic version validation by readers","masstree_get.hh unlocked_tcursor::find_unlocked, masstree_struct.hh reach_leaf/advance_to_key"),
  ("per-node lock and insert/split marks by writers","nodeversion.hh; masstree_insert.hh; masstree_split.hh"),
  ("permutation published last","masstree_insert.hh tcursor::finish_insert")],
 [("node version","lock, inserting/splitting, deleted and root bits plus change counters","nodeversion.hh"),
  ("permutation","order and liveness of leaf slots","kpermuter.hh")],
 ["invoke/return of query<>::run_get1/run_put/run_replace/run_remove and basic_table::get"],HOOK)

prop("T02","Range scans are ordered, duplicate-free and miss no stable key",
 "A forward (reverse) scan from any start key, running concurrently with any writers, delivers strictly increasing (decreasing) keys on the correct side of the start key, stops exactly when the visitor or limit says so, delivers only key/value pairs that were actually present at some instant during the scan, and delivers every key in its range that was present for the whole scan. In the absence of concurrent writers the scan result equals the sorted map contents exactly.",
 ["schedules","histories","inputs"],
 "every interleaving of scans in both directions with inserts, removals, splits, layer creation and layer collapse; every start key, limit and visitor stop point",
 "mttest scans mostly quiescent trees; its one concurrent scan test samples native schedules (and aborts about once in thirty runs at the pinned commit); reverse scans are never run against concurrent structural change.",
 ["masstree_scan.hh","masstree_struct.hh","kvrow.hh","btree_leaflink.hh"],
 [("scan stack with per-node version validation and key-based resume","masstree_scan.hh scanstackelt::find_initial/find_retry/find_next"),
  ("leaf linked list maintained under splits and unlinks","btree_leaflink.hh")],
 [("scan position","current key, node, version and permutation snapshot","masstree_scan.hh scanstackelt")],
 ["visitor callbacks of basic_table::scan/rscan; replies of query<>::run_scan/run_rscan"],HOOK)

prop("T03","Memory is never used after reclamation, nor reclaimed twice",
 "No operation, in any interleaving, reads or writes the storage of a tree node, value or key-suffix block after that storage has been reclaimed, and nothing is reclaimed twice, provided every thread follows the documented read-section protocol. Pointers obtained inside a read section (values, scan results) stay valid until that section ends.",
 ["schedules","histories"],
 "every interleaving of readers, writers, scanners, the epoch-advancing thread and every thread's reclamation calls",
 "Sanitizers and stress tests see only the interleavings that occur natively, and the pool allocator hides use-after-free from them because freed nodes are never returned to malloc.",
 ["kvthread.hh","kvthread.cc","masstree_remove.hh","masstree_struct.hh","masstree_insert.hh","value_bag.hh","value_string.hh","value_array.hh","value_versioned_array.hh","kvrow.hh"],
 [("epoch based deferred reclamation","kvthread.hh rcu_start/rcu_stop/rcu_quiesce, kvthread.cc hard_rcu_quiesce"),
  ("deallocate_rcu for anything reachable by readers","masstree_remove.hh, kvrow.hh apply_put/apply_replace/apply_remove")],
 [("global and active epoch, per-thread epoch","which retired objects may still be referenced","kvthread.hh"),("limbo list","retired objects tagged with their epoch","kvthread.hh limbo_group")],
 ["every instrumented load/store and every allocator call in the simulated process"],HOOK)

prop("T04","Everything retired is reclaimed once readers leave; removal leaks nothing",
 "Once all threads have left their read sections and reclamation is driven for a bounded number of rounds, every value, node, suffix block and helper object that is no longer reachable from the tree has been freed exactly once. In particular removing every key, including those that created nested trie layers, shrinks the tree back to a bounded residue, and destroying the tree frees all of it.",
 ["histories","schedules"],
 "every history of inserts/updates/removes by any number of threads, with any interleaving of reclamation",
 "No existing test accounts for allocations: a lost limbo entry, a skipped suffix block or a layer that is never collapsed changes no test output.",
 ["kvthread.hh","kvthread.cc","masstree_remove.hh","masstree_struct.hh","masstree_insert.hh","kvrow.hh","value_bag.hh"],
 [("limbo lists drained by quiescence","kvthread.cc hard_rcu_quiesce, limbo_group::clean_until"),
  ("empty-layer collection callback","masstree_remove.hh gc_layer_rcu_callback"),
  ("whole-tree teardown callback","masstree_remove.hh destroy_rcu_callback")],
 [("limbo list","retired, not yet freed","kvthread.hh")],
 ["simulator's allocation map versus reachability from the tree root after quiescence"],HOOK)

prop("T05","After writers finish, every access path agrees on exactly the final contents",
 "At quiescence after any concurrent history, point lookups, forward scans and reverse scans (from any start key) all describe one and the same map, that map is explained by the history, and every subsequent single-threaded operation behaves exactly as on a plain sorted map with the same contents. The tree's structural invariants (sorted nodes, separator keys bounding subtrees, doubly linked leaves in order, consistent parents, no locked or deleted reachable node) hold at that point.",
 ["schedules","histories","inputs"],
 "every concurrent history followed by quiescence, and every later sequential operation",
 "Tests verify a few lookups or a forward scan of one fixed key set after a native run; a corrupted separator, leaf link or parent pointer left behind by one interleaving stays invisible until a later operation trips over it.",
 TREE+["masstree_scan.hh"],
 [("split/remove keep separators, links and parents consistent","masstree_split.hh make_split; masstree_remove.hh remove_leaf/redirect; btree_leaflink.hh")],
 [("leaf chain and internode separators","structure that later operations rely on","masstree_struct.hh")],
 ["harness walk of the tree plus get/scan/rscan against a reference map after the run"],HOOK)

prop("T06","No deadlock, livelock or lost wake-up: every operation completes",
 "Under any fair schedule, every tree operation finishes within a bounded number of scheduler steps once the operations that conflict with it stop arriving; no lock is left held and no reader spins forever. Readers never block a writer, and a writer is only delayed by another writer that holds a node it needs.",
 ["schedules","histories"],
 "every interleaving prefix, followed by a fair schedule with no new operations",
 "A native stress run that hangs is rare and indistinguishable from slowness; the hand-over-hand and leaf-link lock orders are exercised only on lucky schedules.",
 ["nodeversion.hh","masstree_split.hh","masstree_remove.hh","masstree_insert.hh","masstree_get.hh","masstree_scan.hh","btree_leaflink.hh","kvthread.hh"],
 [("bottom-up hand-over-hand locking; left-to-right leaf-link marks; try-lock in layer collection","masstree_split.hh make_split, masstree_remove.hh remove_leaf/redirect/gc_layer, btree_leaflink.hh")],
 [("lock bits","held by at most one thread, always released","nodeversion.hh")],
 ["scheduler: step bound after faults/preemptions stop"],HOOK)

prop("T07","Node versions reported by reads, scans and updates detect every phantom",
 "If the node versions reported by a scan or a failed lookup are still current at a later point, then no key was inserted into or removed from the range they cover between the two points; conversely, an insert or remove tells its own caller exactly which version it moved a node from and to, and which nodes it created, so that a transaction layer validating only those versions neither misses a foreign phantom nor aborts on its own change.",
 ["schedules","histories","inputs"],
 "every interleaving of scanners, missing-key readers, inserters (including those that split or add layers) and removers",
 "The version values are not consumed by any existing test or by the server; only transactional users built on top of the library rely on them.",
 ["masstree_tcursor.hh","masstree_struct.hh","masstree_scan.hh","masstree_insert.hh","masstree_split.hh","masstree_remove.hh","nodeversion.hh","kvrow.hh"],
 [("full version = node version counters combined with the live key count","masstree_struct.hh full_version_value/full_unlocked_version_value"),
  ("cursor records original/updated versions and new nodes","masstree_insert.hh find_insert/make_new_layer/finish, masstree_split.hh make_split")],
 [("original_v_, updated_v_, new_nodes_","what the writer reports to its caller","masstree_tcursor.hh")],
 ["visit_leaf callbacks, unlocked_tcursor::full_version_value, tcursor::original/updated_version_value/new_nodes"],HOOK)

prop("T08","Per-key write timestamps strictly increase, also across remove and re-insert",
 "For every key, the timestamps assigned to successive effective writes (inserts, updates, replaces, removes, re-inserts), in the order the writes take effect and whichever threads perform them, strictly increase; the predecessor timestamp recorded with an update is exactly that of the version it replaced. This must survive the key's node splitting, being emptied and removed, or its layer being created or collapsed between the writes.",
 ["schedules","histories"],
 "every interleaving of writers on the same key with structural changes in between, and every sequence of remove/re-insert by different threads",
 "Crash recovery orders log records of different threads only by these timestamps, so a violation shows as wrong data after some crash; no test compares timestamps.",
 ["kvthread.hh","kvrow.hh","masstree_remove.hh","masstree_split.hh","masstree_insert.hh","masstree_struct.hh","log.hh"],
 [("thread clock bumped past the replaced version","kvthread.hh update_timestamp, kvrow.hh assign_timestamp"),
  ("per-node phantom epoch inherited by whoever becomes responsible for the key","kvrow.hh apply_remove, masstree_remove.hh remove_leaf/gc_layer, masstree_split.hh make_split")],
 [("phantom epoch","lower bound for timestamps of keys re-inserted in this node","masstree_struct.hh leaf")],
 ["query_times() after each write, ordered by the linearization of that key"],HOOK)

prop("T09","Multi-column row writes are atomic to every concurrent reader",
 "A put that modifies several columns of a row becomes visible as a whole: any concurrent get or scan of that row sees, for the set of columns it reads, the state before or after each such put and never a mixture, and columns not named by a put keep their previous value. This holds for every row representation the server can be built with that promises it (default bag rows, copying array rows, string rows), for any column numbers, sizes and order of columns.",
 ["schedules","inputs","histories"],
 "every interleaving of multi-column puts, replaces, removes, gets and scans on the same rows; every combination of column indexes and value sizes",
 "mttest and the client tests write single columns or read rows they wrote themselves; no test reads a row while another thread rewrites several columns.",
 ["value_bag.hh","value_array.hh","value_array.cc","value_versioned_array.hh","value_versioned_array.cc","value_string.hh","kvrow.hh"],
 [("copy-on-write row replacement published by one pointer store","kvrow.hh apply_put, value_bag.hh update"),
  ("versioned snapshot for in-place rows","value_versioned_array.hh snapshot")],
 [("row object","immutable once published (bag, string)","value_bag.hh")],
 ["results of query<>::run_get/run_get1/run_scan"],HOOK)

prop("R01","Deferred callbacks run exactly once and only after a full grace period",
 "A callback or object handed to the deferred-reclamation interface is processed exactly once, never while any thread that was inside a read section at hand-over time is still inside that same section, and - if its owner keeps declaring quiescence, no thread stays in a read section forever and the epoch keeps advancing - within a bounded number of epochs. This holds for any number of pending items per thread, across the bounded batches in which they are processed and for callbacks that defer further work.",
 ["schedules","histories"],
 "every interleaving of register, read-section entry/exit/refresh, epoch advance and batch processing across threads; every backlog size",
 "Unit tests never hold a read section across an epoch, never build backlogs larger than one batch, and cannot observe a too-early run except as rare memory corruption.",
 ["kvthread.hh","kvthread.cc","mttest.cc","mtd.cc"],
 [("epoch comparison against the minimum active epoch","kvthread.hh min_active_epoch, kvthread.cc hard_rcu_quiesce"),("limbo groups recycled after cleaning","kvthread.cc hard_rcu_quiesce/clean_until/refill_rcu")],
 [("epochs and limbo groups","pending items and when they become safe","kvthread.hh")],
 ["threadinfo::rcu_register callbacks stamped with scheduler sequence numbers"],HOOK)

prop("S01","Every request on a connection gets exactly one correct reply, in order",
 "For every client connection, the server answers each complete request exactly once, in request order and tagged with the request's sequence number and command, no matter how requests are pipelined, split across or merged into network segments, how slowly the client reads, or what other connections do concurrently. The replies are those of one atomic sorted map shared by all connections: gets, column puts, replaces, removes and bounded scans observe the latest completed writes.",
 ["schedules","fault_sequences","histories","inputs"],
 "every segmentation and timing of request bytes, every short read/write and flow-control stall, every interleaving of server threads, any number of connections",
 "The client tests use a loopback socket that delivers whole packets, one well-behaved client and native thread schedules.",
 ["mtd.cc","kvproto.hh","kvio.cc","kvio.hh","msgpack.cc","msgpack.hh","kvrow.hh","mtclient.hh"],
 [("per-connection incremental parser and ordered execution","mtd.cc conn, tcp_threadfunc, onego"),("buffered output flushed when input is exhausted","kvio.cc kvflush, mtd.cc")],
 [("connection buffers","bytes received but not parsed, replies not yet sent","mtd.cc conn")],
 ["bytes delivered to the simulated clients"],"libc calls redirected at link time; MASSTREE_SIM for atomics")

prop("S02","A disconnecting, failing or slow client never takes the server down",
 "Whatever point a client closes or resets its connection at - before, during or after a handshake, in the middle of a request, or with replies still undelivered - the server keeps running, keeps serving the other connections correctly, and a request that was completely received before the close is either executed wholly or not at all. No data is corrupted, no connection's bytes reach another connection and the connection's resources are released.",
 ["fault_sequences","schedules","histories"],
 "every disconnect/reset/half-close instant relative to request parsing, execution and reply sending, on any subset of connections",
 "Test clients always read all their replies and shut down cleanly; an error path in a socket write or read is never taken.",
 ["mtd.cc","kvio.cc","kvio.hh"],
 [("connection teardown on end-of-file or error","mtd.cc tcp_threadfunc, conn"),("write errors kept per connection","kvio.cc kvflush")],
 [("connection set","which sockets a server thread owns","mtd.cc tcpfds")],
 ["liveness of the simulated server process and replies on surviving connections"],"libc calls redirected at link time")

prop("S03","Datagram requests are self-contained under loss, duplication and reordering",
 "Each datagram is interpreted from its own bytes only: a complete request in one datagram is executed and answered once per delivery to its sender with the right sequence number, and a truncated, empty or malformed datagram never executes a request assembled from leftovers of earlier datagrams nor disturbs later ones. Loss, duplication and reordering of datagrams have no effect beyond the operations they carry.",
 ["fault_sequences","inputs","histories"],
 "every sequence of datagrams with loss, duplication, reordering and truncation, from several senders",
 "The datagram port is not exercised by the stable tests at all.",
 ["mtd.cc","msgpack.cc","msgpack.hh"],
 [("one datagram per parse and reply","mtd.cc udp_threadfunc")],
 [("receive buffer reused across datagrams","mtd.cc udp_threadfunc","mtd.cc")],
 ["datagrams sent by the simulated server"],"libc calls redirected at link time")

prop("D01","Acknowledged writes older than the flush bound survive a crash",
 "With logging on, a write acknowledged to a client and followed by a bounded time in which the log storage accepts writes and syncs is present after a crash at any later point and restart, unless a later write to the same key superseded it. The bound is a small multiple of the configured flush and epoch intervals and holds for every number of logs, clients and write rates, including idle or bursty log threads.",
 ["crash_points","schedules","fault_sequences","histories"],
 "every crash instant (process and machine), every interleaving of client, server, logger and checkpoint threads and every distribution of writes over the logs",
 "The recovery tests kill the server at a couple of wall-clock offsets on a real file system that never loses un-synced data, and two of them already fail at the pin.",
 ["log.cc","log.hh","mtd.cc","checkpoint.cc","kvrow.hh"],
 [("group commit by logger threads with fsync, wake records and log epochs","log.cc logger/loginfo::record/check_epoch"),
  ("recovery cut at the minimum safe epoch","mtd.cc recover; log.cc logreplay")],
 [("global_log_epoch / flushed epochs / quiescent markers","which records recovery may keep","log.cc, log.hh")],
 ["simulated disk contents at the crash and the state served after restart"],"libc calls redirected at link time; MASSTREE_SIM for a smaller log buffer")

prop("D02","Recovery yields a consistent cut of the pre-crash history",
 "After a crash at any point and restart, the recovered contents equal the result of a causally closed subset of the operations issued before the crash: if an operation's effect survives then so does the effect of every operation that completed before it was issued, on every key and through whichever server thread or log it went. Each recovered row is exactly a state that key had, with all columns from the same state, and keys never written are absent.",
 ["crash_points","schedules","histories"],
 "every crash instant, every partial persistence of every log file, every interleaving of writers over several logs, followed by recovery",
 "Recovery tests use one client and check counts of contiguous keys; the cut across several logs depends on logger timing that tests do not vary.",
 ["log.cc","log.hh","mtd.cc","kvrow.hh","checkpoint.cc"],
 [("epochs stamped on records under the row lock","kvrow.hh apply_put/apply_replace/apply_remove, log.cc loginfo::record"),
  ("replay limits and timestamp order","log.cc logreplay, mtd.cc recover")],
 [("log record timestamps and epochs","merge order and cut","log.cc")],
 ["state served after restart versus the recorded client history"],"libc calls redirected at link time; MASSTREE_SIM for a smaller log buffer")

prop("D03","Checkpoints are atomic: crashing around one never loses or mixes data",
 "A crash at any instant of writing, finishing or publishing a checkpoint - including after older checkpoints or logs have been superseded - leaves a set of files from which restart recovers the same guarantees as without checkpointing (durable acknowledged writes, consistent cut, no resurrection of removed or overwritten values). Writers proceed during a checkpoint, and what the published checkpoint plus the logs hold is always sufficient.",
 ["crash_points","schedules","fault_sequences"],
 "every crash instant and I/O error in the checkpoint protocol, every interleaving with concurrent writers, any number of checkpoint threads and successive checkpoints",
 "No stable test crashes during a checkpoint; the rename/sync ordering that makes publication atomic is invisible on a file system that never loses writes.",
 ["checkpoint.cc","checkpoint.hh","mtd.cc","log.cc","file.cc","file.hh"],
 [("checkpoint parts written and synced, then an atomically renamed generation file","mtd.cc conc_checkpointer, prepare_checkpoint, commit_checkpoint; checkpoint.cc; file.cc atomic_write_file_contents"),
  ("commit delayed until the logs cover the checkpointed state","mtd.cc max_flushed_epoch wait")],
 [("checkpoint generation","which set of part files recovery trusts","mtd.cc")],
 ["simulated disk at every crash instant, state after restart"],"libc calls redirected at link time")

prop("D04","Recovery itself can be interrupted and repeated without losing anything",
 "If the server crashes during recovery, or is restarted several times with or without new writes in between, each later recovery still yields everything that an uninterrupted recovery would have, plus the writes acknowledged and made durable since.",
 ["crash_points","histories","configurations"],
 "every crash instant inside recovery, every sequence of restarts with writes in between, every change of thread/log count between runs",
 "Tests restart at most once and never crash inside recovery.",
 ["mtd.cc","log.cc","checkpoint.cc","file.cc"],
 [("logs rewritten and published only after a fresh checkpoint of the recovered state","mtd.cc recover, main; log.cc logreplay, loginfo")],
 [("log files reused across boots","old records must not be lost before the new checkpoint is published","log.cc, mtd.cc")],
 ["simulated disk across several boots"],"libc calls redirected at link time")

prop("D05","Damaged log tails are cut off, never misread",
 "A log whose tail was torn, zero-filled or garbled by the crash (an un-synced suffix persisted partially or as garbage-free zeroes, at any byte position) is replayed up to its last intact record and the rest is ignored; recovery terminates, does not crash, and never invents, alters or resurrects a row because of the damaged tail. New writes after such a recovery are recoverable in turn.",
 ["crash_points","fault_sequences"],
 "every byte position and kind of tail damage allowed by a crash of un-synced appends, for every mixture of record types and lengths",
 "Tests kill the process, which never tears a file tail.",
 ["log.cc","log.hh","mtd.cc"],
 [("record length/size checks and truncation at the last valid record","log.cc logreplay::truncate/info/replay, logrecord::extract")],
 [("log file contents","prefix of valid records followed by anything","log.cc")],
 ["state after restart, restart termination"],"libc calls redirected at link time")

prop("D06","Disk errors and full disks never turn into silently wrong data",
 "When log or checkpoint writes are short, interrupted, fail or the disk fills up, the server may stop, refuse or delay, but what a later recovery reports is never wrong: a checkpoint with a failed write is never published, and data whose sync failed is not treated as durable. Interrupted and short writes alone (no real error) lose nothing.",
 ["fault_sequences","crash_points","schedules"],
 "every placement of short writes, EINTR, EIO, ENOSPC and failed syncs over the log and checkpoint files, followed by a crash and restart",
 "No test injects an I/O error.",
 ["log.cc","checkpoint.cc","mtd.cc","file.cc","file.hh","kvio.cc","kvio.hh"],
 [("checked writes and syncs","file.hh safe_write/checked_write, log.cc logger, kvio.cc, mtd.cc checkpoint")],
 [("flushed epoch","must only advance after a successful sync","log.cc")],
 ["files on the simulated disk and state after restart"],"libc calls redirected at link time")

prop("C01","Buffered connection output preserves the byte stream under partial writes",
 "For any sequence of buffered writes and flushes, the bytes that reach the other end are exactly the bytes written, once each and in order, however the underlying descriptor splits, delays or interrupts the transfers; bytes still buffered after a stalled flush are sent by a later one. If the receiver goes away, what arrived is a prefix of what was written.",
 ["fault_sequences","inputs"],
 "every sequence of write sizes, value encodings and flushes, and of short transfers, EAGAIN/EINTR results and delays by the descriptor",
 "Existing tests run over sockets and files that accept whole buffers.",
 ["kvio.cc","kvio.hh"],
 [("output buffer with resend of the unsent remainder","kvio.cc kvflush/kvwrite")],
 [("kvout buffer","bytes accepted but not yet transferred","kvio.hh")],
 ["bytes seen by the simulated descriptor"],None)

prop("C02","File helpers are whole-or-error and replace files atomically",
 "Reading and writing helpers transfer all bytes across short and interrupted transfers or report an error; replacing a file's contents atomically leaves, after a crash at any instant and for every concurrent reader, its complete old or complete new contents, and once the call has returned success every reader sees the new contents. A synchronous write that reported success survives a power failure. An error at any step of an atomic replacement leaves the old contents in place and is reported.",
 ["fault_sequences","crash_points","inputs"],
 "every placement of short transfers, EINTR, EIO, ENOSPC and of a crash over the sequence of system calls",
 "No test covers these helpers under faults or crashes.",
 ["file.cc","file.hh"],
 [("retry loops","file.hh safe_read/safe_write, file.cc"),("write to temporary, sync, rename","file.cc atomic_write_file_contents, sync_write_file_contents")],
 [("temporary file","invisible until renamed","file.cc")],
 ["return values and simulated file system contents at every crash point"],None)

prop("M01","Stream decoding does not depend on how the bytes arrive",
 "Decoding a stream of messages incrementally, with the bytes cut into arbitrary pieces delivered at arbitrary times into a buffer that is being compacted and reused, yields exactly the same messages at the same byte boundaries as decoding the whole stream at once, and equals what was encoded. A message whose bytes have not all arrived is never reported as complete, and decoding never looks at bytes beyond those delivered.",
 ["fault_sequences","inputs"],
 "every message sequence in the wire format and every chunking of its bytes, including cuts inside length prefixes and numbers",
 "msgpacktest feeds fixed messages, mostly whole or byte by byte, from memory that is never reused.",
 ["msgpack.cc","msgpack.hh","kvproto.hh","mtd.cc"],
 [("resumable parser state","msgpack.cc streaming_parser::consume")],
 [("parser state","partial message between deliveries","msgpack.hh streaming_parser")],
 ["messages reported and bytes consumed after each delivery"],None)

# properties with no schedule, clock, fault or interleaving in them
prop("J01","Text encoding and decoding of structured values round-trips",
 "Encoding any structured value as text and decoding it gives back an equal value, and malformed text is rejected without side effects.",
 ["inputs"],"every structured value and every text",
 "jsontest samples literals.",["json.cc","json.hh","straccum.cc","string.cc"],
 [("recursive descent parser and unparser","json.cc")],[],["Json::parse / unparse"],None)
prop("K01","Key slices compare like the byte strings they stand for",
 "Ordering and equality of the fixed-width slices, lengths and suffixes into which keys are cut agree with lexicographic order of the whole byte strings, and slot permutations and searches implement a sorted sequence.",
 ["inputs"],"every pair of keys and every permutation state",
 "Unit tests use a few literals.",["string_slice.hh","masstree_key.hh","kpermuter.hh","ksearch.hh"],
 [("big-endian slices and length tie-breaks","masstree_key.hh, string_slice.hh")],[],["comparison results"],None)
prop("P01","Command-line options are parsed as documented",
 "Every documented option and argument form of the tools is recognised, and anything else is reported.",
 ["inputs"],"every argument vector",
 "Only the options the tests use are exercised.",["clp.c","clp.h"],
 [("option tables","clp.c, mtd.cc, mtclient.cc")],[],["parsed option values"],None)

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
