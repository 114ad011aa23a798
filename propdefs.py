"""Which harness profiles decide which property, and what each check stands on."""
TREE_REAL = ["masstree tree, tcursor, split, insert, remove, scan (all headers)", "query<row>", "row types", "threadinfo / RCU / limbo lists (kvthread.cc)",
             "string/Json/straccum library", "memory pools (in the share of runs that keep them)"]
TREE_STUB = ["threads are fibers of one simulator (instrumented loads/stores are switch points)", "malloc/free: arena with shadow state, no reuse, seeded fresh bytes",
             "epoch timer: a simulated daemon advancing the epochs exactly as mtd's timer handler does", "spin relax: simulator yield"]
TREE_ASSUME = ["sequentially consistent interleavings of the compiled -O1 code; weak-memory reorderings are not simulated",
               "a sample of seeds, not all schedules", "keys up to 255 bytes, up to 5 threads and a few hundred operations per run"]
TREE_RULE = ("one seed = key set, initial contents, per-thread operation programs, node width (15/4/7), epoch timing and one schedule; non-trivial: at least one thread was "
             "preempted inside an operation while another ran (single-threaded profiles: at least one operation); distinct by (interleaving hash, history hash)")

def tree(profile, targets=("tree",), weights=None, rule=TREE_RULE):
    return dict(runs=[dict(target=t, profile=profile, weight=(weights or {}).get(t, 1)) for t in targets], rule=rule, assumptions=TREE_ASSUME, real=TREE_REAL, stub=TREE_STUB)

IO_STUB = ["threads are fibers of one simulator", "sockets, disk, clock, malloc: simulated (sim/simos.cc, sim/simrt.cc)"]
def io(profile, rule, real, assume):
    return dict(runs=[dict(target="io", profile=profile, weight=1)], rule=rule, real=real, stub=IO_STUB, assumptions=assume + ["a sample of seeds, not all schedules or fault placements"],
                technique="deterministic simulation: seeded I/O faults, segmentation, crashes and schedules against a reference byte stream / file model / independent codec",
                note="Seeded exploration: every simulated run on the current tree satisfied the property; a sample of fault sequences, not a proof. Trusts the simulated sockets and disk and the independent reference.")

MTD_STUB = ["threads are fibers of one simulator (instrumented loads/stores and system calls are switch points); each server process of a run is one forked boot", "sockets, epoll/select, datagrams, disk, clock, timers, signals, malloc: simulated (sim/simos.cc, sim/simrt.cc)",
            "clients: scripts speaking the wire format through an independent encoder/decoder (sim/mpclient.cc)"]
MTD_REAL = ["mtd: startup, handshake, tcp/udp threads, request dispatch and replies (mtd.cc)", "kvout/kvin and msgpack parsing and unparsing", "query<row>, row type, the whole tree, threadinfo/RCU", "loggers, log records (log.cc, log.hh)",
            "checkpoint writers and recovery (mtd.cc, checkpoint.cc, log.cc) in the profiles that restart"]
def mtd(profile, rule, assume, weight=None):
    return dict(runs=[dict(target="mtd", profile=profile, weight=1)], rule=rule, real=MTD_REAL, stub=MTD_STUB,
                assumptions=assume + ["sequentially consistent interleavings", "a sample of seeds, not all schedules or fault placements", "runs of up to about 120 requests, 4 connections and 4 boots; rows below 64 KB, keys up to 255 bytes, column numbers strictly increasing in a request"],
                technique="deterministic simulation of the whole server: seeded schedules, network segmentation and faults, disk faults, clock jumps, power failures; histories checked against a sequential map and a crash-cut oracle",
                note="Seeded exploration: every simulated run on the current tree satisfied the property; a sample of schedules and faults, not a proof. Trusts the simulated kernel interfaces and the reference model.")

PROPS = {
    "T01": tree("T01"), "T02": tree("T02"), "T03": tree("T03"), "T04": tree("T04"), "T05": tree("T05"), "T06": tree("T06"), "T07": tree("T07"), "T08": tree("T08"),
    "T09": tree("T09", ("tree", "tree_array", "tree_str")),
    "R01": dict(runs=[dict(target="rcu", profile="R01", weight=1)],
        rule="one seed = threads, slots, per-thread programs of section entry/exit/refresh, reads, swaps, retirements (values, pool blocks, callbacks, callbacks that defer more), epoch timing and start, one schedule; "
             "non-trivial: at least one preemption inside an operation (single-threaded runs: any operation); distinct by (interleaving hash, history hash)",
        assumptions=["sequentially consistent interleavings of the compiled -O1 code", "a sample of seeds, not all schedules", "up to 5 threads; backlogs up to a few thousand items per thread",
                     "thread state is created before the run starts, as mtd and mttest do"],
        real=["threadinfo: epochs, limbo groups, batch processing, callbacks, node pools (kvthread.hh, kvthread.cc)"],
        stub=["threads are fibers of one simulator", "malloc: arena with shadow state, no reuse", "epoch timer: a simulated daemon calling the same two stores as mtd's timer handler", "the data structure: an array of slots"]),
    "C01": io("C01", "one seed = buffer size, a sequence of kvwrite/append/reserve/value/flush calls and pauses on a connection, a file or a memory buffer, socket buffer size, network segmentation, short/interrupted/refused writes, a receiver reset; "
              "non-trivial: at least one call ran and threads alternated; distinct by (interleaving hash, hash of the bytes received)",
              ["kvout: kvwrite, append, reserve, grow, kvflush (kvio.cc, kvio.hh)", "msgpack::unparser<kvout>"],
              ["one writer per buffer, as in the server", "sockets behave like Linux stream sockets: after a reset every write fails"]),
    "C02": io("C02", "one seed = atomic and plain file replacements by one writer per file, concurrent readers, short/interrupted transfers, disk errors or a full disk, power failures at random instants followed by more work; "
              "non-trivial: at least one file operation ran and threads alternated; distinct by (interleaving hash, hash of results and surviving contents)",
              ["safe_read, safe_write (file.hh)", "read_file_contents, sync_write_file_contents, atomic_write_file_contents (file.cc)"],
              ["one writer per file name: two writers of one file would share the temporary file",
               "power failure: metadata operations survive as a prefix of their order, synced data survives, of unsynced data any prefix; fsync makes the file, its size and earlier metadata durable (ordered journal)"]),
    "M01": io("M01", "one seed = a stream of messages in all encodings the format allows, possibly ending in a truncated or malformed one, cut into network segments and read in pieces into a small reused buffer, in one of three ownership modes; "
              "non-trivial: at least one message was parsed and threads alternated; distinct by (interleaving hash, hash of the values parsed)",
              ["msgpack::streaming_parser, msgpack::parser, msgpack::unparser (msgpack.cc, msgpack.hh)", "Json and String values they build"],
              ["messages up to about 70 KB, nesting up to 5; declared sizes are honest (a hostile header that announces gigabytes is not covered)", "malformed input limited to undefined type bytes and invalid map keys"]),
    "S01": mtd("S01", "one seed = number of server threads, logging, buffer sizes, client connections with pipelined programs of gets, column puts, replaces, removes and scans, reader pauses, network segmentation/short transfers/interrupts, one schedule; "
        "non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["requests are well formed"]),
    "S02": mtd("S02", "as S01, with clients that close, reset, half-close, send incomplete requests, junk handshakes or no handshake at a random byte, and failing system calls; non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["a connection that stays open but stops in the middle of a request or stops reading blocks the server thread it is assigned to (by design: blocking reads and writes); checks expect progress only once such a connection closes"]),
    "S03": mtd("S03", "as S01 over datagrams, with loss, duplication, reordering, delay, truncated, empty and garbage datagrams; non-trivial: at least one datagram was delivered and threads alternated; distinct by (interleaving hash, history hash)",
        ["one request per datagram"]),
    "D01": mtd("D01", "one seed = 2-4 boots of the server on one simulated disk, each with its own client programs and an end (power failure, kill, SIGINT) at a random time, operation or disk step, idle phases of up to 6 s before the crash, slow or stalled fsyncs, clock jumps while running and across restarts; non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["the same -j, log and checkpoint directories across the boots of a run (a server started with fewer logs ignores the others)", "power failure: metadata operations survive as a prefix of their order, synced data survives, of unsynced data any prefix, possibly followed by zeros; fsync makes the file, its size and earlier metadata durable (ordered journal)", "flush bound checked: 2.5 simulated seconds plus 8 times the slowest sync of the run"]),
    "D02": mtd("D02", "one seed = 2-4 boots of the server on one simulated disk, each with its own client programs and an end (power failure, kill, SIGINT) at a random time, operation or disk step, small log buffers, slow or stalled fsyncs; non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["the same -j, log and checkpoint directories across the boots of a run (a server started with fewer logs ignores the others)", "power failure: metadata operations survive as a prefix of their order, synced data survives, of unsynced data any prefix, possibly followed by zeros; fsync makes the file, its size and earlier metadata durable (ordered journal)"]),
    "D03": mtd("D03", "one seed = 2-4 boots of the server on one simulated disk, each with its own client programs and an end (power failure, kill, SIGINT) at a random time, operation or disk step, frequent checkpoints, crashes at exact steps of checkpoint writing, publishing and cleaning up; non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["the same -j, log and checkpoint directories across the boots of a run (a server started with fewer logs ignores the others)", "power failure: metadata operations survive as a prefix of their order, synced data survives, of unsynced data any prefix, possibly followed by zeros; fsync makes the file, its size and earlier metadata durable (ordered journal)"]),
    "D04": mtd("D04", "one seed = 3-6 boots, many of them crashing at an exact disk step of recovery, clock jumps across restarts; non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["the same -j, log and checkpoint directories across the boots of a run (a server started with fewer logs ignores the others)", "power failure: metadata operations survive as a prefix of their order, synced data survives, of unsynced data any prefix, possibly followed by zeros; fsync makes the file, its size and earlier metadata durable (ordered journal)"]),
    "D05": mtd("D05", "one seed = 2-4 boots of the server on one simulated disk, each with its own client programs and an end (power failure, kill, SIGINT) at a random time, operation or disk step, long syncs so that power failures leave torn or zero-filled log tails; non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["the same -j, log and checkpoint directories across the boots of a run (a server started with fewer logs ignores the others)", "power failure: metadata operations survive as a prefix of their order, synced data survives, of unsynced data any prefix, possibly followed by zeros; fsync makes the file, its size and earlier metadata durable (ordered journal)", "a crash leaves a prefix of the unsynced bytes or zeros after it; zeros or garbage inside a record whose header survived cannot be told from data without checksums and are not generated"]),
    "D06": mtd("D06", "one seed = 2-4 boots of the server on one simulated disk, each with its own client programs and an end (power failure, kill, SIGINT) at a random time, operation or disk step, failing or short writes, syncs, opens, reads, renames, closes, truncations, mappings; full disks; non-trivial: at least one request ran and threads alternated; distinct by (interleaving hash, history hash)",
        ["the same -j, log and checkpoint directories across the boots of a run (a server started with fewer logs ignores the others)", "power failure: metadata operations survive as a prefix of their order, synced data survives, of unsynced data any prefix, possibly followed by zeros; fsync makes the file, its size and earlier metadata durable (ordered journal)", "after a disk error the server may stop by an assertion"]),
}
