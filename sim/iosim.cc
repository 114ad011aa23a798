// The server's I/O building blocks under faults: buffered output (kvio), file helpers (file.cc), message parsing
// (msgpack) fed by arbitrary network segmentation.  Real code: those files.  The operating system is simulated.
#include "runner.h"
#include "simos.h"
#include "mpclient.h"
#include "ioglue.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
using namespace sim;
static uint64_t hhash = 1469598103934665603ull;
static void hh(const std::string& s) { hhash = mix(hhash, fnv(s.data(), s.size())); }
static std::string bytes_of(uint64_t seed, size_t n) {
    std::string s(n, 0); Rng r(seed);
    for (size_t i = 0; i < n; ++i) s[i] = (char) (r.next() >> 17);
    return s;
}
static std::vector<std::vector<std::string>> ops;
static uint64_t arg(const std::vector<std::string>& f, size_t i) { return f.size() > i ? strtoull(f[i].c_str(), 0, 0) : 0; }
static std::string diff_text(const std::string& want, const std::string& got) {
    size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    return strf("%zu bytes expected, %zu arrived, first difference at offset %zu (expected %s, got %s)", want.size(), got.size(), i, hex(want.substr(i, 8)).c_str(), hex(got.substr(i, 8)).c_str());
}

// ------------------------------------------------------------------ C01: buffered output
static std::string issued, received;
static int conn_id = -1, out_fd = -1; static bool writer_done, was_reset; static uint64_t reset_after, read_pause;
static std::string enc_of(const std::string& h) { return unhex(h); }
static void kv_writer(void* a) {
    bool to_file = a != nullptr;
    void* o = ig_out_new(out_fd, (int) arg(ops[0], 2));
    void* b = ig_out_newbuf(); std::string bwant;
    for (size_t i = 1; i < ops.size(); ++i) {
        auto& f = ops[i]; const std::string& k = f[1];
        ++shared->ops;
        bool buf = f.size() > 2 && f[2] == "b";
        void* t = buf ? b : o;
        std::string data;
        if (k == "write") { data = bytes_of(arg(f, 4), arg(f, 3)); char* p = (char*) arena_alloc(data.size() + 1); memcpy(p, data.data(), data.size()); ig_out_write(t, p, (unsigned) data.size()); arena_free(p, "write"); }
        else if (k == "char") { data = bytes_of(arg(f, 4), arg(f, 3)); for (char c : data) ig_out_char(t, c); }
        else if (k == "reserve") { data = bytes_of(arg(f, 4), arg(f, 3)); char* p = (char*) arena_alloc(data.size() + 1); memcpy(p, data.data(), data.size()); ig_out_reserve(t, p, (int) data.size(), (int) arg(f, 5)); arena_free(p, "reserve"); }
        else if (k == "msgpack") {
            std::string e = enc_of(f[3]); mp::Val v; if (mp::decode(e.data(), e.size(), v) <= 0) internal_error("bad plan value");
            if (!ig_out_msgpack(t, e.data(), e.size())) fail("parse", "a well-formed value was rejected");
            // any encoding of the same value is fine, as long as it is the one the other writer produces
            char* u; size_t nu;
            if (!ig_unparse(e.data(), e.size(), 0, &u, &nu)) fail("parse", "a well-formed value was rejected");
            data.assign(u, nu); ig_release(u);
            mp::Val w; if (mp::decode(data.data(), data.size(), w) != (long) data.size() || mp::canon(w) != mp::canon(v)) fail("bad-encoding", "a value is written out as a different one");
        }
        else if (k == "flush") { ig_out_flush(o); if (to_file) { for (int tries = 0; ig_out_n(o) && tries < 200; ++tries) ig_out_flush(o); } }
        else if (k == "reset") { ig_out_reset(b); bwant.clear(); }
        else if (k == "pause") block_until(now_ns + arg(f, 3));
        (buf ? bwant : issued) += data;
        if (buf && (ig_out_n(b) != bwant.size() || memcmp(ig_out_buf(b), bwant.data(), bwant.size())))
            fail("buffer-content", "memory buffer: %s", diff_text(bwant, std::string(ig_out_buf(b), ig_out_n(b))).c_str());
    }
    ig_out_flush(o);
    for (int tries = 0; to_file && ig_out_n(o) && tries < 200; ++tries) ig_out_flush(o);
    if (ig_out_n(o) && !was_reset) fail("not-flushed", "%u bytes remain buffered after a final flush on a healthy connection", ig_out_n(o));
    ig_out_free(o); ig_out_free(b);
    ig_close(out_fd);
    writer_done = true;
}
static void kv_reader(void*) {
    while (true) {
        if (read_pause) block_until(now_ns + read_pause);
        std::string got;
        int r = simos::cl_recv(conn_id, got, ~0ull);
        received += got;
        if (r <= 0) break;
        if (reset_after && received.size() >= reset_after) { was_reset = true; simos::cl_close(conn_id, simos::CLOSE_RST); count("fault.receiver resets the connection"); return; }
    }
}
static void run_c01(const Plan& plan) {
    bool file = plan_u(plan, "file", 0);
    ig_ignore_sigpipe();
    reset_after = plan_u(plan, "reset", 0); read_pause = plan_u(plan, "readpause", 0);
    if (file) { simos::file_put("out", "", true); out_fd = ig_open("out", O_WRONLY); }
    else {
        out_fd = simos::fd_pair(&conn_id);
        spawn(kv_reader, nullptr, "receiver");
    }
    spawn(kv_writer, file ? (void*) 1 : nullptr, "writer");
    run();
    std::string got = file ? simos::file_get("out") : received;
    hh(got);
    if (was_reset ? issued.compare(0, got.size(), got) != 0 : got != issued)
        fail("stream-content", "%s%s", diff_text(issued, got).c_str(), was_reset ? " (connection reset by the receiver: a prefix is expected)" : "");
}

// ------------------------------------------------------------------ C02: file helpers
struct FileState { std::vector<std::string> ver; size_t done = 0, started = 0; bool sync_kind = false; std::vector<bool> okv; };
// ver[i] valid content number i; `low` = newest version known complete, `high` = newest possibly visible
static FileState files[3];
static std::vector<std::string> maybe[3];       // contents the file may have now, newest last; index 0 is certain when size is 1
static bool torn_ok[3];
static bool torn_base[3];                       // a plain rewrite left something undefined that a lost rename may bring back
static std::string fname(int i) { return strf("f%d", i); }
static void c02_writer(void* a) {
    int me = (int) (uintptr_t) a;
    for (auto& f : ops) {
        if (f[1] != "atomic" && f[1] != "sync" && f[1] != "wpause") continue;
        int i = (int) arg(f, 2);
        if (i != me) continue;
        if (f[1] == "wpause") { block_until(now_ns + arg(f, 3)); continue; }
        if (f[0] == "done") continue;
        f[0] = "done";
        ++shared->ops;
        std::string c = bytes_of(arg(f, 4), arg(f, 3));
        bool atomic = f[1] == "atomic";
        std::vector<std::string> before = maybe[i]; bool before_torn = torn_ok[i];
        maybe[i].push_back(c);
        if (!atomic) torn_ok[i] = torn_base[i] = true;
        int r = ig_write_file(atomic, fname(i).c_str(), c.data(), c.size());
        hh(strf("%d %d", i, r));
        if (r == 0) {
            if (simos::file_get(fname(i)) != c) fail("write-content", "%s of %s reported success but the file holds something else: %s", f[1].c_str(), fname(i).c_str(), diff_text(c, simos::file_get(fname(i))).c_str());
            maybe[i].assign(1, c); torn_ok[i] = false; if (!atomic) torn_base[i] = false; files[i].sync_kind = !atomic;
            count("file writes that succeeded");
        } else {
            if (!simos::disk_error_seen && !simos::cfg.disk_faults.size() && simos::cfg.disk_capacity == ~0ull) fail("spurious-failure", "%s of %s failed although no disk error was injected", f[1].c_str(), fname(i).c_str());
            count("file writes that failed");
            if (atomic) {
                bool ex = simos::file_exists(fname(i)); std::string now = simos::file_get(fname(i));
                if (!before_torn && (before.size() == 1 && now != before[0] && !(before[0].empty() && !ex))) fail("failed-write-visible", "atomic write of %s failed but changed the file: %s", fname(i).c_str(), diff_text(before[0], now).c_str());
                maybe[i] = before; torn_ok[i] = before_torn;
            }
        }
    }
}
static void c02_reader(void* a) {
    int me = (int) (uintptr_t) a;
    for (auto& f : ops) {
        if (f[1] == "rpause") { block_until(now_ns + arg(f, 3)); continue; }
        if (f[1] != "read" || f[0] == "done" || (int) arg(f, 3) != me) continue;
        f[0] = "done";
        int i = (int) arg(f, 2);
        ++shared->ops;
        std::vector<std::string> allowed = maybe[i]; bool torn = torn_ok[i];
        bool err0 = simos::disk_error_seen;
        char* d; size_t n; int err;
        int ok = ig_read_file(fname(i).c_str(), &d, &n, &err);
        std::string got(d, n); ig_release(d);
        hh(strf("r%d %d", i, ok) + got);
        if (torn || torn_ok[i]) continue;       // a plain rewrite was in progress
        for (auto& m : maybe[i]) allowed.push_back(m);
        for (auto& m : files[i].ver) allowed.push_back(m);
        if (!ok) { if (err != ENOENT && !simos::disk_error_seen && !err0 && simos::cfg.disk_faults.empty()) fail("spurious-failure", "reading %s failed with errno %d although no disk error was injected", fname(i).c_str(), err);
            if (n) fail("read-content", "reading %s failed and still returned %zu bytes", fname(i).c_str(), n); continue; }
        if (std::find(allowed.begin(), allowed.end(), got) == allowed.end()) fail("read-content", "reading %s returned %zu bytes that are no version of the file", fname(i).c_str(), n);
    }
}
static void crash_event(void*) { sim::stop(); }
static std::string rw_sent, rw_got; static int rw_conn, rw_fd; static uint64_t rw_n, rw_back;
static void rw_peer(void*) {
    std::string got; while (got.size() < rw_n) if (simos::cl_recv(rw_conn, got, ~0ull) <= 0) break;
    rw_got = got;
    if (!simos::cl_send(rw_conn, got.substr(0, rw_back), ~0ull)) return;
    if (rw_back < rw_n) simos::cl_close(rw_conn, simos::CLOSE_HALF);
}
static void rw_self(void*) {
    rw_sent = bytes_of(rw_n, rw_n);
    char* p = (char*) arena_alloc(rw_n + 1); memcpy(p, rw_sent.data(), rw_n);
    long w = ig_safe_rw(1, rw_fd, p, rw_n);
    if (w != (long) rw_n) fail("safe-write", "safe_write returned %ld of %llu on a healthy connection", w, (unsigned long long) rw_n);
    memset(p, 0, rw_n);
    long r = ig_safe_rw(0, rw_fd, p, rw_n);
    if (r != (long) rw_back) fail("safe-read", "safe_read returned %ld of %llu bytes sent", r, (unsigned long long) rw_back);
    if (rw_got != rw_sent) fail("safe-write", "%s", diff_text(rw_sent, rw_got).c_str());
    if (memcmp(p, rw_sent.data(), rw_back)) fail("safe-read", "the bytes read are not the bytes sent");
    arena_free(p, "rw");
    ig_close(rw_fd);
}
static void run_c02(const Plan& plan) {
    Rng cr(plan_u(plan, "crashseed", 1));
    std::vector<uint64_t> crashes;
    for (auto& l : plan) if (l.compare(0, 6, "crash ") == 0) crashes.push_back(strtoull(l.c_str() + 6, 0, 0));
    for (int i = 0; i < 3; ++i) { maybe[i].assign(1, ""); files[i].ver.push_back(""); }
    if (plan_u(plan, "rw", 0)) {
        rw_n = plan_u(plan, "rw", 0); rw_back = std::min<uint64_t>(rw_n, plan_u(plan, "rwback", 0)); rw_fd = simos::fd_pair(&rw_conn);
        spawn(rw_peer, nullptr, "peer"); spawn(rw_self, nullptr, "self");
        run();
    }
    for (auto& f : ops) if (f[1] == "atomic" || f[1] == "sync") files[arg(f, 2)].ver.push_back(bytes_of(arg(f, 4), arg(f, 3)));
    crashes.push_back(0);
    int boot = 0;
    for (uint64_t c : crashes) {
        ++boot;
        for (int i = 0; i < 3; ++i) { static char nm[99][16]; snprintf(nm[(boot * 3 + i) % 99], 16, "w%d", i); spawn(c02_writer, (void*) (uintptr_t) i, nm[(boot * 3 + i) % 99], c != 0); }
        for (int i = 0; i < 2; ++i) spawn(c02_reader, (void*) (uintptr_t) i, i ? "r1" : "r0", c != 0);
        if (c) at_time(now_ns + c, crash_event, nullptr);
        struct Idle { static void go(void* until) { block_until((uint64_t) (uintptr_t) until); } };
        if (c) spawn(Idle::go, (void*) (uintptr_t) (now_ns + c + 1), "idle");
        run();
        stop_daemons();
        if (c) {
            std::string log;
            // durable content of plain rewrites that reported success
            std::string want[3]; bool have[3];
            for (int i = 0; i < 3; ++i) { have[i] = files[i].sync_kind && maybe[i].size() == 1 && !torn_ok[i]; if (have[i]) want[i] = maybe[i][0]; }
            simos::power_failure(cr, nullptr, &log);
            note_history(log);
            for (int i = 0; i < 3; ++i) {
                std::string now = simos::file_get(fname(i)); bool ex = simos::file_exists(fname(i));
                hh(now);
                if (have[i] && now != want[i]) fail("lost-sync-write", "%s was written and synced, then the power failed: %s", fname(i).c_str(), diff_text(want[i], now).c_str());
                if (!torn_ok[i] && !torn_base[i]) {
                    bool ok = !ex;
                    for (auto& v : files[i].ver) ok = ok || v == now;
                    if (!ok) fail("torn-after-crash", "after a power failure %s holds %zu bytes that are no complete version of it", fname(i).c_str(), now.size());
                }
                maybe[i].assign(1, now); files[i].sync_kind = false;
                if (torn_ok[i] || torn_base[i]) { files[i].ver.push_back(now); torn_ok[i] = torn_base[i] = false; }
            }
            ++shared->boots;
        }
    }
}

// ------------------------------------------------------------------ M01: message parsing
static std::vector<std::string> sent, canons; static std::string tail; static size_t next_msg, expect_off; static int tail_kind; static bool finished_parse;
static int m_fd, m_conn; static ig_parse_opt popt;
static void on_msg(void*, int ok, const char* c, size_t n, size_t consumed) {
    if (ok < 0) {
        finished_parse = true;
        if (next_msg != canons.size()) fail("message-lost", "the stream ended after %zu of %zu messages were parsed", next_msg, canons.size());
        if (tail_kind == 0 && n != 1) fail("parser-state", "the parser is not empty at a message boundary");
        if (tail_kind == 2) fail("malformed-accepted", "a malformed message was consumed without an error");
        return;
    }
    if (next_msg == canons.size()) {
        if (ok) fail("extra-message", "a message was reported that was never completely sent: %.200s", std::string(c, n).c_str());
        if (tail_kind != 2) fail("valid-rejected", "a prefix of a well-formed message was rejected");
        count("malformed messages rejected");
        tail_kind = 3;
        return;
    }
    if (!ok) fail("valid-rejected", "message %zu (%s...) was rejected", next_msg, hex(sent[next_msg].substr(0, 24)).c_str());
    expect_off += sent[next_msg].size();
    std::string got(c, n);
    hh(got);
    if (got != canons[next_msg]) fail("wrong-value", "message %zu (%s...): parsed as %.300s, sent as %.300s", next_msg, hex(sent[next_msg].substr(0, 24)).c_str(), got.c_str(), canons[next_msg].c_str());
    if (consumed != expect_off) fail("wrong-length", "after message %zu %zu bytes were consumed, %zu make it up", next_msg, consumed, expect_off);
    ++next_msg; ++shared->ops;
}
static void m_server(void*) { ig_parse_stream(m_fd, &popt, on_msg, nullptr); }
static uint64_t send_gap; static uint64_t gap_seed;
static void m_client(void*) {
    Rng r(gap_seed); std::string all;
    for (auto& s : sent) all += s;
    all += tail;
    size_t p = 0;
    while (p < all.size()) {
        size_t k = send_gap ? std::min<size_t>(all.size() - p, 1 + r.below(r.chance(0.3) ? 3 : send_gap)) : all.size() - p;
        if (!simos::cl_send(m_conn, all.substr(p, k), ~0ull)) return;
        p += k;
        if (send_gap && r.chance(0.7)) block_until(now_ns + 1 + r.below(2 * simos::cfg.net_delay_ns + 10));
    }
    simos::cl_close(m_conn, simos::CLOSE_HALF);
}
static void m_extra(void*) {        // the one-shot parser and both writers on the same values
    for (size_t i = 0; i < sent.size(); ++i) {
        const std::string& e = sent[i]; mp::Val v;
        if (mp::decode(e.data(), e.size(), v) != (long) e.size()) internal_error("plan holds a malformed message");
        for (int k = 0; k < 2; ++k) {
            char* o; size_t n;
            if (!ig_unparse(e.data(), e.size(), k, &o, &n)) fail("valid-rejected", "message %zu was rejected when parsed in one piece", i);
            mp::Val w; long used = mp::decode(o, n, w);
            if (used != (long) n) fail("bad-encoding", "message %zu written out again is malformed (%s...)", i, hex(std::string(o, std::min<size_t>(n, 24))).c_str());
            if (mp::canon(w) != canons[i]) fail("bad-encoding", "message %zu written out again reads as %.300s instead of %.300s", i, mp::canon(w).c_str(), canons[i].c_str());
            ig_release(o);
        }
        if (v.t == mp::INT || v.t == mp::STR) {
            int64_t x; char* s; size_t ns; long used;
            int kind = v.t == mp::STR ? 3 : v.i >= -2147483648ll && v.i < 2147483648ll ? 1 : v.i >= 0 && (gap_seed + i) % 2 ? 2 : 0;
            ig_plain_parse(e.data(), e.size(), kind, &x, &s, &ns, &used);
            if (used != (long) e.size()) fail("wrong-length", "the one-shot parser used %ld of %zu bytes", used, e.size());
            if (v.t == mp::INT && x != v.i) fail("wrong-value", "the one-shot parser read %lld as %lld", (long long) v.i, (long long) x);
            if (v.t == mp::STR) { if (std::string(s, ns) != v.s) fail("wrong-value", "the one-shot parser changed a string"); ig_release(s); }
        }
    }
}
static void run_m01(const Plan& plan) {
    popt.bufsz = (int) plan_u(plan, "bufsz", 20480); popt.readsz = (int) plan_u(plan, "readsz", 20480); popt.mode = (int) plan_u(plan, "mode", 0);
    send_gap = plan_u(plan, "gap", 0); gap_seed = plan_u(plan, "gapseed", 1);
    for (auto& l : plan) if (l.compare(0, 4, "msg ") == 0) {
        sent.push_back(unhex(l.substr(4))); mp::Val v;
        if (mp::decode(sent.back().data(), sent.back().size(), v) != (long) sent.back().size()) internal_error("plan holds a malformed message");
        canons.push_back(mp::canon(v));
    }
    std::string t = plan_s(plan, "tail", "");
    if (!t.empty()) { tail_kind = t[0] == 'T' ? 1 : 2; tail = unhex(t.substr(1)); }
    m_fd = simos::fd_pair(&m_conn);
    spawn(m_server, nullptr, "parser", false, 2 << 20); spawn(m_client, nullptr, "client");
    run();
    if (!finished_parse && tail_kind != 3) fail("message-lost", "the stream ended without a report");
    spawn(m_extra, nullptr, "extra", false, 2 << 20);
    run();
}

// ------------------------------------------------------------------ plans
static void execute(const Plan& plan) {
    setenv("_", "valgrind", 1);
    apply_sched(plan);
    simos::init(plan_u(plan, "osseed", 1));
    step_ns = 100;
    auto& c = simos::cfg;
    c.p_short_read = plan_d(plan, "f.short_read", 0); c.p_short_write = plan_d(plan, "f.short_write", 0);
    c.p_eintr = plan_d(plan, "f.eintr", 0); c.eintr_rw = c.p_eintr > 0; c.p_again = plan_d(plan, "f.again", 0); c.p_eintr_wait = plan_d(plan, "f.eintr_wait", 0);
    c.net_delay_ns = plan_u(plan, "net.delay", 50000); c.segment = (int) plan_u(plan, "net.segment", 0); c.sockbuf = plan_u(plan, "net.sockbuf", 65536);
    c.disk_capacity = plan_u(plan, "disk.capacity", ~0ull);
    for (auto& l : plan) if (l.compare(0, 6, "fault ") == 0) { auto f = split(l, '|'); c.disk_faults.push_back(simos::DiskFault{f[1], strtoull(f[2].c_str(), 0, 0), strtoull(f[3].c_str(), 0, 0)}); }
    for (auto& l : plan) if (l.compare(0, 3, "op ") == 0) ops.push_back(split(l));
    std::string prof = plan_s(plan, "profile", "");
    begin_chaos();
    if (prof == "C01") run_c01(plan); else if (prof == "C02") run_c02(plan); else if (prof == "M01") run_m01(plan); else internal_error("unknown profile");
    shared->steps = g_step; shared->switches = stats.switches; shared->preempts = stats.preempts; shared->parks = stats.parks; shared->spins = stats.spins;
    shared->ihash = interleaving_hash; shared->simtime_ns = now_ns - start_ns; shared->allocs = stats.allocs; shared->hhash = hhash;
    shared->nontrivial = shared->ops > 0 && stats.switches > 1;
}
static std::string rnd_str(Rng& r, size_t n) { return bytes_of(r.next(), n); }
static size_t rnd_len(Rng& r) {
    static const size_t edge[] = {0, 1, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537};
    if (r.chance(0.25)) return edge[r.below(r.chance(0.8) ? 8 : 11)];
    return r.logrange(1, r.chance(0.1) ? 30000 : 120) - 1;
}
static mp::Val rnd_val(Rng& r, int depth, bool plain, size_t& budget) {
    int k = (int) r.below(depth <= 0 ? 7 : 10);
    mp::Val v;
    switch (k) {
    case 0: return mp::Val::nil();
    case 1: return mp::Val::boolean(r.chance(0.5));
    case 2: case 3: {
        int b = (int) r.below(65); uint64_t x = b == 64 ? r.next() : b == 0 ? 0 : (1ull << (b - 1)) + (uint64_t) (int64_t) r.range(-2, 2);
        if (r.chance(0.5)) return mp::Val::integer((int64_t) x);
        if (r.chance(0.5)) return mp::Val::integer(-(int64_t) (x >> 1));
        if (plain) return mp::Val::integer((int64_t) (x >> 1));
        return mp::Val::uinteger(x);
    }
    case 4: if (!plain) { v = mp::Val::real(r.chance(0.5) ? (double) r.range(-1000, 1000) / 8 : r.unit() * 1e300); v.f32 = r.chance(0.3); if (v.f32) v.d = (double) (float) r.range(-1000, 1000) / 8; return v; } // fall through
    case 5: case 6: { size_t n = rnd_len(r); if (n > budget) n = budget; budget -= n; return mp::Val::str(rnd_str(r, n)); }
    case 7: case 8: {
        v.t = mp::ARR; size_t n = r.chance(0.1) ? r.range(14, 18) : r.chance(0.02) ? r.logrange(1, 300) : r.below(5);
        for (size_t i = 0; i < n; ++i) v.a.push_back(rnd_val(r, depth - 1, plain, budget));
        return v;
    }
    default: {
        if (plain) return mp::Val::integer(7);
        v.t = mp::MAP; size_t n = r.chance(0.1) ? r.range(14, 18) : r.below(4);
        for (size_t i = 0; i < n; ++i) {
            mp::Val key;
            if (r.chance(0.2)) key = mp::Val::integer(r.range(-300, 70000)); else if (r.chance(0.1) && i) key = v.m[r.below(i)].first; else key = mp::Val::str(rnd_str(r, r.chance(0.1) ? rnd_len(r) % 400 : r.below(40)));
            v.m.push_back({key, rnd_val(r, depth - 1, plain, budget)});
        }
        return v;
    }
    }
}
static void net_faults(Plan& p, Rng& r, bool eintr) {
    if (r.chance(0.6)) p.push_back(strf("f.short_read %.3f", r.unit()));
    if (r.chance(0.6)) p.push_back(strf("f.short_write %.3f", r.unit()));
    if (eintr && r.chance(0.5)) p.push_back(strf("f.eintr %.3f", r.unit() * 0.6));
    if (r.chance(0.6)) p.push_back(strf("net.segment %d", (int) r.logrange(1, 3000)));
    p.push_back(strf("net.delay %llu", (unsigned long long) r.logrange(1, 2000000)));
    p.push_back(strf("net.sockbuf %llu", (unsigned long long) (r.chance(0.3) ? r.logrange(1, 2000) : r.logrange(512, 200000))));
}
static void generate(uint64_t seed, const std::string& prof, Plan& p) {
    Rng r(seed);
    p.push_back("profile " + prof);
    p.push_back(strf("osseed %llu", (unsigned long long) (r.next() >> 20)));
    if (prof == "C01") {
        bool file = r.chance(0.25);
        if (file) {
            p.push_back("file 1");
            if (r.chance(0.6)) p.push_back(strf("f.short_write %.3f", r.unit()));
            if (r.chance(0.5)) p.push_back(strf("f.eintr %.3f", r.unit() * 0.6));
            int nf = r.range(0, 3);
            for (int i = 0; i < nf; ++i) p.push_back(strf("fault |%s|%d|%d", r.chance(0.6) ? "short write" : "write ENOSPC", (int) r.below(12), r.range(1, 4)));
        } else {
            net_faults(p, r, true);
            if (r.chance(0.3)) p.push_back(strf("f.again %.3f", r.unit() * 0.7));
            if (r.chance(0.2)) p.push_back(strf("reset %d", (int) r.logrange(1, 4000)));
            if (r.chance(0.3)) p.push_back(strf("readpause %d", (int) r.logrange(10, 3000000)));
        }
        p.push_back(strf("op new %d", (int) (r.chance(0.2) ? r.logrange(1, 16) : r.logrange(16, 20480))));
        int n = (int) r.logrange(1, 50);
        for (int i = 0; i < n; ++i) {
            const char* t = r.chance(0.15) ? "b" : "k";
            size_t len = r.chance(0.5) ? r.below(40) : r.logrange(1, 8000);
            double x = r.unit(); unsigned s = (unsigned) r.below(1000000);
            if (x < 0.4) p.push_back(strf("op write %s %zu %u", t, len, s));
            else if (x < 0.55) p.push_back(strf("op char %s %zu %u", t, len % 700, s));
            else if (x < 0.7) p.push_back(strf("op reserve %s %zu %u %d", t, len, s, (int) r.below(50)));
            else if (x < 0.8) { size_t b = 3000; mp::Val v = rnd_val(r, 2, true, b); std::string e; mp::encode(e, v); p.push_back(strf("op msgpack %s ", t) + hex(e)); }
            else if (x < 0.93) p.push_back("op flush k");
            else if (x < 0.95) p.push_back("op reset b");
            else p.push_back(strf("op pause k %d", (int) r.logrange(10, 3000000)));
        }
    } else if (prof == "C02") {
        if (r.chance(0.6)) p.push_back(strf("f.short_write %.3f", r.unit()));
        if (r.chance(0.6)) p.push_back(strf("f.short_read %.3f", r.unit()));
        if (r.chance(0.5)) p.push_back(strf("f.eintr %.3f", r.unit() * 0.6));
        if (r.chance(0.3)) { p.push_back(strf("rw %d", (int) r.logrange(1, 20000))); p.push_back(strf("rwback %d", (int) r.logrange(1, 40000))); p.push_back(strf("net.sockbuf %d", (int) r.logrange(16, 70000))); if (r.chance(0.5)) p.push_back(strf("net.segment %d", (int) r.logrange(1, 3000))); }
        if (r.chance(0.45)) {
            static const char* kinds[] = {"open", "create", "write EIO", "write ENOSPC", "short write", "read EIO", "fsync EIO", "rename", "close"};
            int nf = r.range(1, 4);
            for (int i = 0; i < nf; ++i) p.push_back(strf("fault |%s|%d|%d", kinds[r.below(9)], (int) r.logrange(1, 20) - 1, r.range(1, 3)));
        } else if (r.chance(0.2)) p.push_back(strf("disk.capacity %d", (int) r.logrange(10, 20000)));
        int nc = r.chance(0.7) ? r.range(1, 3) : 0;
        p.push_back(strf("crashseed %llu", (unsigned long long) (r.next() >> 20)));
        for (int i = 0; i < nc; ++i) p.push_back(strf("crash %llu", (unsigned long long) r.logrange(1000, 30000000)));
        int n = r.range(1, 24);
        for (int i = 0; i < n; ++i) {
            double x = r.unit(); int f = (int) r.below(3); size_t len = r.chance(0.1) ? 0 : r.logrange(1, r.chance(0.1) ? 60000 : 3000); unsigned s = (unsigned) r.below(1000000);
            if (x < 0.4) p.push_back(strf("op atomic %d %zu %u", f, len, s));
            else if (x < 0.55) p.push_back(strf("op sync %d %zu %u", f, len, s));
            else if (x < 0.85) p.push_back(strf("op read %d %d", f, (int) r.below(2)));
            else p.push_back(strf("op %s %d %d", r.chance(0.5) ? "wpause" : "rpause", f, (int) r.logrange(10, 3000000)));
        }
    } else {
        net_faults(p, r, true);
        p.push_back(strf("mode %d", (int) r.below(3)));
        int bs = r.chance(0.3) ? 20480 : (int) r.logrange(1, 4000);
        p.push_back(strf("bufsz %d", bs)); p.push_back(strf("readsz %d", r.chance(0.5) ? bs : (int) r.logrange(1, 4000)));
        if (r.chance(0.7)) p.push_back(strf("gap %d", (int) r.logrange(1, 2000)));
        p.push_back(strf("gapseed %llu", (unsigned long long) (r.next() >> 20)));
        int n = (int) r.logrange(1, 12);
        for (int i = 0; i < n; ++i) {
            size_t budget = r.chance(0.05) ? 70000 : 3000;
            mp::Val v = rnd_val(r, (int) r.below(5), false, budget);
            std::string e; mp::encode(e, v, &r);
            p.push_back("msg " + hex(e));
        }
        if (r.chance(0.3)) {
            size_t b = 500; mp::Val v = rnd_val(r, 4, false, b); std::string e; mp::encode(e, v, &r);
            if (e.size() > 1) p.push_back("tail T" + hex(e.substr(0, 1 + r.below(e.size() - 1))));
        } else if (r.chance(0.2)) {
            // a type byte the format leaves undefined or the server does not use, or a map key that is neither text nor integer
            static const char* bad[] = {"c1", "92c101", "82a161c1c0", "d40102", "c7010203", "819100c0", "81c0c0", "81c301", "93a16181c300"};
            p.push_back(std::string("tail B") + bad[r.below(9)]);
        }
    }
    SchedCfg c; randomize_sched(c, r, 3000);
    c.chaos_limit = 400000; c.hard_limit = 40000000;
    plan_sched(p, c, r.next());
}
static bool removable(const std::string& l) {
    for (const char* k : {"op ", "msg ", "fault ", "crash ", "tail ", "f.", "net.", "reset ", "readpause ", "gap ", "rw ", "disk.capacity "})
        if (l.compare(0, strlen(k), k) == 0) return l.compare(0, 7, "op new ") != 0;
    return false;
}
static void simplify(const std::string& l, std::vector<std::string>& out) {
    auto f = split(l);
    if (f.size() > 3 && f[0] == "op" && (f[1] == "write" || f[1] == "char" || f[1] == "reserve" || f[1] == "atomic" || f[1] == "sync")) {
        int n = atoi(f[3].c_str()); if (n > 1) for (int m : {1, n / 2, n - 1}) { auto g = f; g[3] = std::to_string(m); std::string s; for (auto& x : g) s += (s.empty() ? "" : " ") + x; out.push_back(s); }
    }
    if (f.size() == 2 && (f[0] == "net.segment" || f[0] == "gap" || f[0] == "bufsz" || f[0] == "readsz")) { int n = atoi(f[1].c_str()); if (n > 1) out.push_back(f[0] + strf(" %d", n / 2)); }
}
int main(int argc, char** argv) {
    static Harness h = {"io", generate, execute, removable, simplify, 20};
    return runner_main(argc, argv, h);
}
