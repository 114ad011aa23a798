// The whole server in simulation: its threads, log, checkpoints and recovery are the repository's; disk, network, clock,
// signals and scheduling are simulated.  One run is a sequence of boots on one disk with clients, crashes and faults.
#include "simos.h"
#include "mpclient.h"
#include "runner.h"
#include "lin.h"
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <algorithm>
using namespace sim;

extern "C" int mg_main(int argc, char** argv);

// ------------------------------------------------------------------ model of requests and history
enum Kind { GET, PUT, REP, REM, SCAN, CKPT };
struct Col { int c; int len; };
struct Write { int key; Kind kind; std::vector<Col> cols; };
struct OpRec {
    int boot = 0, client = 0; Kind kind = GET; int key = 0; uint32_t id = 0;
    std::vector<Col> cols; uint64_t inv = 0, resp = ~0ull, resp_t = 0;
    bool res = false, any_res = false; std::vector<uint32_t> got;
    int scan_n = 0; std::vector<std::pair<int, std::vector<uint32_t>>> rows;
};
struct PlanOp { int boot, client; std::string what; std::vector<std::string> f; };
struct ClientCfg { int boot, id; bool udp; int core, window; uint64_t alt; };
struct EndCfg { std::string kind, when; };

static const Plan* plan;
static std::string prof;
static std::vector<std::string> keys;               // by index
static std::map<std::string, int> key_index;
static std::map<uint32_t, Write> writes;            // by id
static std::vector<PlanOp> plan_ops;
static std::vector<ClientCfg> client_cfgs;
static int nboots, nthreads, boot_no;
static bool logging_on;
static uint32_t log_buf;

static std::string value_of(uint32_t id, int col, int len) {
    std::string s = strf("v%u.%d:", id, col);
    Rng r(mix(id, col + 77));
    while ((int) s.size() < len) s += (char) (r.next() >> 33);
    return s;
}
static void parse_cols(const std::string& s, std::vector<Col>& out) {
    if (s == "-") return;
    for (auto& x : split(s, ',')) { auto y = split(x, ':'); out.push_back(Col{atoi(y[0].c_str()), y.size() > 1 ? atoi(y[1].c_str()) : 0}); }
}

// ------------------------------------------------------------------ state that survives a boot
struct Region {
    uint64_t disk_len, hist_len, evt, time_ns; int64_t clock_off;
    uint64_t crash_ns;                  // when the history's server died, 0: it is still the same history
    int verified_base; int done; int stop_all; uint64_t max_fsync; int disk_errors; uint64_t hhash, ihash, ops, simtime;
    uint64_t steps, switches, preempts, parks, spins, allocs;
    char data[256 << 20];
};
static Region* reg;
struct SerOut { std::string o; void u(uint64_t x) { o.append((char*) &x, 8); } void s(const std::string& x) { u(x.size()); o += x; } };
struct SerIn { const char* p; uint64_t u() { uint64_t x; memcpy(&x, p, 8); p += 8; return x; } std::string s() { uint64_t n = u(); std::string r(p, n); p += n; return r; } };

static std::vector<OpRec> hist;                     // since the last verified recovery
static std::vector<KState> base;                    // what that recovery showed, by key
static uint64_t evt;                                // event counter, across boots
static uint64_t hhash = 1469598103934665603ull;
static void mixh(uint64_t x) { hhash = mix(hhash, x); }
static std::vector<std::string> events;             // readable history of this boot
static bool keep_events = true;
static void ev(const std::string& s) { if (keep_events && events.size() < 3000) events.push_back(strf("%8.4fs ", (now_ns - start_ns) * 1e-9) + s); }
static void dump_history() {
    std::string o;
    size_t from = events.size() > 700 ? events.size() - 700 : 0;
    for (size_t i = from; i < events.size(); ++i) o += strf("boot %d ", boot_no) + events[i] + "\n";
    note_history(o);
}
static void my_on_fail() { dump_decisions(); dump_history(); }

static std::string show_key(int k) { return strf("key %d (%s)", k, keys[k].size() > 20 ? (hex(keys[k].substr(0, 20)) + "...").c_str() : hex(keys[k]).c_str()); }
static std::string show_ids(const std::vector<uint32_t>& v) { std::string s; for (auto x : v) s += strf("%s%u", s.empty() ? "" : ",", x); return "[" + s + "]"; }
static std::string show_op(const OpRec& o) {
    static const char* n[] = {"get", "put", "replace", "remove", "scan", "checkpoint"};
    std::string s = strf("client %d %s", o.client, n[o.kind]);
    if (o.kind == CKPT) return s;
    s += " " + show_key(o.key);
    if (o.kind == PUT || o.kind == REP) s += strf(" write #%u", o.id);
    if (!o.cols.empty()) { s += " cols"; for (auto& c : o.cols) s += strf(" %d", c.c); }
    if (o.kind == SCAN) s += strf(" count %d", o.scan_n);
    return s;
}

// ------------------------------------------------------------------ replies
// Value bytes back to the write that produced them; every value names its write and column.
static uint32_t value_id(const std::string& s, int key, int col, const char* where) {
    if (s.empty()) return 0;
    unsigned id = 0; int c = -1, n = 0;
    if (sscanf(s.c_str(), "v%u.%d:%n", &id, &c, &n) < 2 || !n) fail("wrong-data", "%s returned bytes nobody wrote for %s column %d: %s", where, show_key(key).c_str(), col, hex(s.substr(0, 24)).c_str());
    auto w = writes.find(id);
    if (w == writes.end()) fail("wrong-data", "%s returned for %s column %d a value that was never requested: %s", where, show_key(key).c_str(), col, hex(s.substr(0, 24)).c_str());
    if (w->second.key != key) fail("wrong-data", "%s returned for %s the value of write #%u, which wrote %s", where, show_key(key).c_str(), id, show_key(w->second.key).c_str());
    int len = -1;
    for (auto& x : w->second.cols) if (x.c == col) len = x.len;
    if (len < 0 || s != value_of(id, col, len)) fail("wrong-data", "%s returned for %s column %d a damaged value of write #%u (column %d, %zu bytes)", where, show_key(key).c_str(), col, id, c, s.size());
    return id;
}
static void bad_reply(const OpRec& o, const mp::Val& v, const char* why) { fail("bad-reply", "%s: %s: %s", show_op(o).c_str(), why, mp::show(v, 160).c_str()); }
static void take_reply(OpRec& o, const mp::Val& v) {        // v: [seq, command + 1, ...], seq already checked
    static const int cmd[] = {2, 6, 8, 10, 4, 12};
    if (!v.a[1].is_int(cmd[o.kind] + 1)) bad_reply(o, v, "wrong command in the reply");
    switch (o.kind) {
    case GET: {
        size_t n = v.a.size() - 2;
        o.res = n > 0;
        if (!o.cols.empty() && o.res && n != o.cols.size()) bad_reply(o, v, "number of columns");
        for (size_t i = 0; i < n; ++i) {
            if (v.a[i + 2].t == mp::NIL) { o.got.push_back(0); continue; }      // a column the row does not have
            if (v.a[i + 2].t != mp::STR) bad_reply(o, v, "column is not a string");
            o.got.push_back(value_id(v.a[i + 2].s, o.key, o.cols.empty() ? (int) i : o.cols[i].c, "get"));
        }
        break;
    }
    case PUT: case REP:
        if (v.a.size() != 3 || v.a[2].t != mp::INT || (v.a[2].i != 1 && v.a[2].i != 2)) bad_reply(o, v, "result of a write");
        o.res = v.a[2].i == 1; break;
    case REM:
        if (v.a.size() != 3 || v.a[2].t != mp::BOOL) bad_reply(o, v, "result of a remove");
        o.res = v.a[2].i; break;
    case CKPT: if (v.a.size() != 2) bad_reply(o, v, "result of a checkpoint request"); break;
    case SCAN: {
        if (v.a.size() % 2) bad_reply(o, v, "odd number of elements");
        if ((int) (v.a.size() - 2) / 2 > o.scan_n) bad_reply(o, v, "more pairs than requested");
        std::string last; bool first = true;
        for (size_t i = 2; i < v.a.size(); i += 2) {
            if (v.a[i].t != mp::STR) bad_reply(o, v, "scan key is not a string");
            const std::string& k = v.a[i].s;
            if (k < keys[o.key]) bad_reply(o, v, "key before the start of the scan");
            if (!first && k <= last) bad_reply(o, v, "keys are not in increasing order");
            first = false; last = k;
            auto ki = key_index.find(k);
            if (ki == key_index.end()) bad_reply(o, v, "key nobody wrote");
            std::vector<uint32_t> got; const mp::Val& x = v.a[i + 1];
            auto colno = [&](size_t j) { return o.cols.empty() ? (int) j : o.cols[j].c; };
            if (x.t == mp::NIL && o.cols.size() == 1) got.push_back(0);
            else if (x.t == mp::STR && o.cols.size() <= 1) got.push_back(value_id(x.s, ki->second, colno(0), "scan"));
            else if (x.t == mp::ARR && o.cols.size() != 1 && (o.cols.empty() ? x.a.size() != 1 : x.a.size() == o.cols.size()))
                for (size_t j = 0; j < x.a.size(); ++j) { if (x.a[j].t == mp::NIL) { got.push_back(0); continue; } if (x.a[j].t != mp::STR) bad_reply(o, v, "scan column is not a string"); got.push_back(value_id(x.a[j].s, ki->second, colno(j), "scan")); }
            else bad_reply(o, v, "form of a scanned value");
            o.rows.push_back({ki->second, got});
        }
        break;
    }
    }
}
static mp::Val request(const OpRec& o, int64_t seq) {
    static const int cmd[] = {2, 6, 8, 10, 4, 12};
    mp::Val v = mp::Val::arr(); v.add(seq).add(cmd[o.kind]);
    if (o.kind == CKPT) return v;
    v.add(keys[o.key]);
    if (o.kind == SCAN) v.add(o.scan_n);
    if (o.kind == GET || o.kind == SCAN) for (auto& c : o.cols) v.add(c.c);
    if (o.kind == PUT) for (auto& c : o.cols) { v.add(c.c); v.add(value_of(o.id, c.c, c.len)); }
    if (o.kind == REP) v.add(value_of(o.id, 0, o.cols[0].len));
    return v;
}

// ------------------------------------------------------------------ oracles
static KOp to_kop(const OpRec& o) {
    KOp k; k.tid = o.client; k.inv = o.inv; k.resp = o.resp; k.res = o.res; k.any_res = o.any_res; k.id = o.id; k.got = o.got; k.what = show_op(o);
    k.kind = o.kind == GET ? K_GET : o.kind == PUT ? K_PUT : o.kind == REP ? K_REPLACE : K_REMOVE;
    for (auto& c : o.cols) k.cols.push_back(c.c);
    if (o.kind == GET) k.all_ncol = o.cols.empty();
    return k;
}
static void per_key(std::vector<std::vector<KOp>>& out) {
    out.assign(keys.size(), {});
    for (auto& o : hist) {
        if (o.kind == CKPT) continue;
        if (o.kind != SCAN) { if (o.kind != GET || o.resp != ~0ull) out[o.key].push_back(to_kop(o)); continue; }
        if (o.resp == ~0ull) continue;
        std::string last; bool full = (int) o.rows.size() < o.scan_n;
        if (!full && !o.rows.empty()) last = keys[o.rows.back().first];
        for (size_t k = 0; k < keys.size(); ++k) {
            if (keys[k] < keys[o.key] || (!full && keys[k] > last)) continue;
            KOp q; q.kind = K_GET; q.tid = o.client; q.inv = o.inv; q.resp = o.resp; q.what = show_op(o) + " at " + show_key((int) k);
            for (auto& r : o.rows) if (r.first == (int) k) { q.res = true; q.got = r.second; }
            for (auto& c : o.cols) q.cols.push_back(c.c);
            q.all_ncol = o.cols.empty();
            out[k].push_back(q);
        }
    }
}
static std::string lines(const std::vector<KOp>& v, int bad) {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i)
        s += strf("%s%s [%llu,%s] res %d got %s", (int) i == bad ? ">>> " : "", v[i].what.c_str(), (unsigned long long) v[i].inv, v[i].resp == ~0ull ? "-" : std::to_string(v[i].resp).c_str(), v[i].res, show_ids(v[i].got).c_str()) + "\n";
    return s;
}
static void check_linearizable() {
    std::vector<std::vector<KOp>> pk; per_key(pk);
    for (size_t k = 0; k < keys.size(); ++k) {
        if (pk[k].empty()) continue;
        LinChecker lc; KState init = base[k];
        int bad = lc.check(init, pk[k]);
        if (lc.overflow) { count("keys left undecided (too many overlapping operations)"); continue; }
        if (bad >= 0) {
            note_history("initial columns " + show_ids(base[k].cols) + "\n" + lines(pk[k], bad));
            fail("not-linearizable", "%s: no order of the operations explains the reply to: %s (result %d, values %s)", show_key((int) k).c_str(), pk[k][bad].what.c_str(), pk[k][bad].res, show_ids(pk[k][bad].got).c_str());
        }
    }
}
// Recovered state against the history before the crash: per key the state after a prefix of some linearization that includes
// every write that must have survived; the survivors are closed under real-time precedence.
static void check_recovered(const std::vector<KState>& rec, uint64_t crash_ns, uint64_t bound) {
    std::vector<char> must(hist.size(), 0);
    for (size_t i = 0; i < hist.size(); ++i) {
        auto& o = hist[i];
        if (o.kind != GET && o.kind != SCAN && o.kind != CKPT && o.resp != ~0ull && o.resp_t + bound < crash_ns) { must[i] = 1; count("writes old enough to be durable"); }
    }
    uint64_t closure = 0;               // everything that returned before this was superseded by a surviving write
    uint32_t witness = 0;
    std::set<uint32_t> visible;
    for (size_t k = 0; k < keys.size(); ++k) for (uint32_t id : rec[k].cols) if (id) visible.insert(id);
    for (auto& o : hist) if (o.id && visible.count(o.id) && o.inv > closure) { closure = o.inv; witness = o.id; }
    std::vector<char> clos(hist.size(), 0);
    for (size_t i = 0; i < hist.size(); ++i) if (hist[i].kind != GET && hist[i].kind != SCAN && hist[i].kind != CKPT && hist[i].resp < closure) clos[i] = 1;
    std::vector<std::vector<KOp>> pk; per_key(pk);
    for (size_t k = 0; k < keys.size(); ++k) {
        for (int level = 0; level < 3; ++level) {       // 0: some prefix; 1: plus the closure; 2: plus the durability bound
            std::vector<KOp> v = pk[k];
            KOp snap; snap.kind = K_GET; snap.tid = -1; snap.inv = 0; snap.resp = ~0ull - 1; snap.res = rec[k].present; snap.got = rec[k].cols; snap.all_ncol = true; snap.what = "state after recovery";
            const OpRec* last = nullptr;
            for (size_t i = 0; i < hist.size(); ++i) if (hist[i].key == (int) k && ((level >= 1 && clos[i]) || (level >= 2 && must[i])) && hist[i].resp > snap.inv) { snap.inv = hist[i].resp; last = &hist[i]; }
            v.push_back(snap);
            LinChecker lc; int bad = lc.check(base[k], v);
            if (lc.overflow) { count("keys left undecided (too many overlapping operations)"); break; }
            if (bad >= 0) {
                note_history("initial columns " + show_ids(base[k].cols) + "\n" + lines(v, bad));
                std::string got = rec[k].present ? show_ids(rec[k].cols) : "absent";
                if (bad != (int) v.size() - 1) fail("not-linearizable", "%s: no order of the operations before the crash explains the reply to: %s, or the recovered state %s", show_key((int) k).c_str(), v[bad].what.c_str(), got.c_str());
                if (level == 0) fail("impossible-state", "%s recovered as %s, which no prefix of the operations on it produces", show_key((int) k).c_str(), got.c_str());
                if (level == 1) fail("not-a-prefix", "%s recovered as %s: it misses an operation (%s) that had returned before surviving write #%u began", show_key((int) k).c_str(), got.c_str(), last ? show_op(*last).c_str() : "-", witness);
                fail("lost-write", "%s recovered as %s: it misses an operation acknowledged %.3f s before the crash (%s)", show_key((int) k).c_str(), got.c_str(), last ? (crash_ns - last->resp_t) * 1e-9 : 0.0, last ? show_op(*last).c_str() : "-");
            }
        }
    }
    count("recoveries verified");
    if (!hist.empty()) count("recoveries verified against a history");
}

// ------------------------------------------------------------------ clients
static int port = 2117;
static int world_fiber = -1;
static uint64_t replies_total, deadline_extra;
static int clients_left;
static bool world_waiting_ops; static uint64_t end_ops = ~0ull;
static uint64_t reply_wait = 120ull * 1000000000ull;
static bool server_gone() { return simos::exited; }

struct Client {
    ClientCfg cfg; std::vector<PlanOp*> ops;
    int conn = -1; int64_t seq = 1; std::vector<std::pair<int64_t, size_t>> out;    // outstanding: sequence number, index in hist
    std::string in; mp::Scanner scan; bool broken = false, lib_closing = false, bad = false; int recv_fiber = -1, send_fiber = -1; int connects = 0; bool lost_reply = false;
    Rng rng{1};
};
static std::vector<Client*> clients;
static void got_reply(OpRec& o, const mp::Val& v) {
    take_reply(o, v);
    o.resp = ++evt; o.resp_t = now_ns; ++replies_total; ++shared->ops;
    ev(strf("reply %llu to ", (unsigned long long) o.resp) + show_op(o) + strf(": %d %s", o.res, o.kind == SCAN ? strf("%zu rows", o.rows.size()).c_str() : show_ids(o.got).c_str()));
    mixh(o.resp); mixh(o.res); for (auto x : o.got) mixh(x); for (auto& r : o.rows) { mixh(r.first); for (auto x : r.second) mixh(x); }
    if (replies_total >= end_ops && world_fiber >= 0) wake(world_fiber);
}
static void drop_conn(Client& c, const char* why) {
    if (c.conn < 0) return;
    ev(strf("client %d: connection %s, %zu replies outstanding", c.cfg.id, why, c.out.size()));
    c.conn = -1; c.out.clear(); c.in.clear(); c.scan = mp::Scanner(); c.broken = true;
    if (c.send_fiber >= 0) wake(c.send_fiber);
}
static void receiver(void* a) {
    Client& c = *(Client*) a;
    while (true) {
        if (c.conn < 0) { block(); continue; }
        int cn = c.conn; std::string got;
        int n = simos::cl_recv(cn, got, now_ns + 1000000000ull);
        if (c.conn != cn) continue;
        if (n == -2) continue;
        if (n <= 0) {
            if (c.bad && n == 0 && !c.out.empty()) fail("connection-dropped", "the server closed the connection of client %d, whose last request is malformed, without replies to the %zu requests before it", c.cfg.id, c.out.size());
            if (!c.lib_closing) fail("connection-dropped", "the server closed the connection of client %d (%s) with %zu requests outstanding although the client did nothing wrong", c.cfg.id, n == 0 ? "end of stream" : "reset", c.out.size());
            simos::cl_close(cn, simos::CLOSE_RST);
            drop_conn(c, n == 0 ? "closed by the server" : "reset by the server"); continue;
        }
        c.in += got;
        while (!c.in.empty() && c.scan.whole(c.in)) {
            c.scan = mp::Scanner();
            mp::Val v; long used = mp::decode(c.in.data(), c.in.size(), v);
            if (used == 0) break;
            if (used < 0) fail("bad-reply", "client %d received bytes that are not a message: %s", c.cfg.id, hex(c.in.substr(0, 32)).c_str());
            c.in.erase(0, used);
            if (c.out.empty() && c.bad) {       // refused; the sequence number may be anything, for the request had perhaps none
                if (v.t != mp::ARR || v.a.size() < 2 || !v.a[1].is_int(-1)) fail("bad-reply", "client %d received a reply to a malformed request: %s", c.cfg.id, mp::show(v, 200).c_str());
                c.bad = false; if (c.send_fiber >= 0) wake(c.send_fiber);
                continue;
            }
            if (v.t != mp::ARR || v.a.size() < 2 || v.a[0].t != mp::INT || v.a[1].t != mp::INT) fail("bad-reply", "client %d received a message that is not a reply: %s", c.cfg.id, mp::show(v, 200).c_str());
            if (c.out.empty()) fail("bad-reply", "client %d received a reply it has no request for: %s", c.cfg.id, mp::show(v, 200).c_str());
            if (v.a[0].i != c.out[0].first) fail("bad-reply", "client %d received a reply with sequence number %lld; the oldest request without a reply has %lld", c.cfg.id, (long long) v.a[0].i, (long long) c.out[0].first);
            size_t h = c.out[0].second; c.out.erase(c.out.begin());
            got_reply(hist[h], v);
            if (c.send_fiber >= 0) wake(c.send_fiber);
        }
    }
}
// handshake on a fresh connection; true when the server accepted it
static bool do_handshake(int& conn, int core, Rng& r, bool alt, uint64_t until, int who) {
 again:
    mp::Val h = mp::Val::arr(); h.add(0).add(14);
    mp::Val m = mp::Val::map();
    if (core >= 0) m.m.push_back({mp::Val::str("core"), mp::Val::integer(core)});
    m.m.push_back({mp::Val::str("maxkeylen"), mp::Val::integer(255)});
    h.add(m);
    std::string b; mp::encode(b, h, alt ? &r : nullptr);
    if (!simos::cl_send(conn, b, until) && !simos::cl_aborted(conn)) return false;
    std::string in;
    while (true) {
        mp::Val v; long used = mp::decode(in.data(), in.size(), v);
        if (used < 0) fail("bad-reply", "client %d: handshake reply is not a message", who);
        if (used > 0) {
            if ((size_t) used != in.size() || v.t != mp::ARR || v.a.size() != 5 || !v.a[0].is_int(0) || !v.a[1].is_int(15) || v.a[2].t != mp::BOOL || !v.a[2].i || v.a[3].t != mp::INT || v.a[4].t != mp::STR)
                fail("bad-reply", "client %d: handshake reply %s", who, mp::show(v, 200).c_str());
            if (core >= 0 && core < nthreads && v.a[3].i != core) fail("bad-reply", "client %d asked for thread %d and was given %lld", who, core, (long long) v.a[3].i);
            if (v.a[3].i < 0 || v.a[3].i >= nthreads) fail("bad-reply", "client %d was given thread %lld of %d", who, (long long) v.a[3].i, nthreads);
            return true;
        }
        int n = simos::cl_recv(conn, in, until);
        if (n <= 0 && simos::cl_aborted(conn)) {
            simos::cl_close(conn, simos::CLOSE_RST);
            conn = simos::cl_connect(port, until);
            if (conn < 0) return false;
            goto again;
        }
        if (n == -2 || n <= 0) { if (n != -2 && !server_gone()) fail("handshake-refused", "the server dropped client %d's connection during a correct handshake", who); return false; }
    }
}
static void late(const Client& c, const char* what) { fail("no-progress", "client %d: %s within %.0f simulated seconds", c.cfg.id, what, reply_wait * 1e-9); }
static bool ensure_conn(Client& c) {
    if (c.conn >= 0) return true;
    if (++c.connects > 12) return false;
    int cn = simos::cl_connect(port, now_ns + reply_wait);
    if (cn < 0) late(c, "no connection was accepted");
    if (!do_handshake(cn, c.cfg.core, c.rng, c.cfg.alt & 1, now_ns + reply_wait, c.cfg.id)) late(c, "no handshake reply");
    c.in.clear(); c.scan = mp::Scanner(); c.out.clear(); c.broken = false; c.lib_closing = false; c.bad = false; c.conn = cn;
    ev(strf("client %d connected", c.cfg.id));
    wake(c.recv_fiber);
    return true;
}
static void drain_to(Client& c, size_t w) {
    uint64_t until = now_ns + reply_wait; size_t last = c.out.size();
    while (c.conn >= 0 && c.out.size() > w) {
        if (c.out.size() < last) { last = c.out.size(); until = now_ns + reply_wait; }
        if (now_ns >= until) late(c, "no reply");
        block_until(until);
    }
}
static bool make_op(const PlanOp& p, OpRec& o, int client) {
    o.boot = boot_no; o.client = client;
    auto& f = p.f;
    auto I = [&](size_t i) { return i < f.size() ? atoi(f[i].c_str()) : 0; };
    if (p.what == "get") { o.kind = GET; o.key = I(0); if (f.size() > 1) parse_cols(f[1], o.cols); }
    else if (p.what == "put") { o.kind = PUT; o.key = I(0); o.id = I(1); parse_cols(f[2], o.cols); }
    else if (p.what == "rep") { o.kind = REP; o.key = I(0); o.id = I(1); o.cols.push_back(Col{0, I(2)}); }
    else if (p.what == "rem") { o.kind = REM; o.key = I(0); }
    else if (p.what == "scan") { o.kind = SCAN; o.key = I(0); o.scan_n = I(1); if (f.size() > 2) parse_cols(f[2], o.cols); }
    else if (p.what == "ckpt") o.kind = CKPT;
    else return false;
    return true;
}
// complete messages that are not requests. S sequence number, k key, K key that is too long, s string, a array, n nil
static const char* const bad_kinds[] = {"", "S", "S s", "S 2", "S 2 7", "S 6", "S 6 k", "S 6 k 0", "S 6 k s s", "S 6 7 0 s", "S 6 k 0 7", "S 6 k 3 s 1 s", "S 6 k 0 s 0 s", "S 6 k -1 s",
    "S 6 K 0 s", "S 6 k 40000 s", "S 6 k 0 a", "S 6 k 1 n", "S 8 k", "S 8 k 7", "S 8 K s", "S 10", "S 10 7", "S 4 k", "S 4 k 0", "S 4 k -3", "S 4 k s", "S 4 7 1", "S 4 K 1", "S 4 k 1 s", "S 2 k s", "S 2 a",
    "S 99", "S -1", "S n", "S 14 s", "S 3 k"};
static const int n_bad_kinds = sizeof bad_kinds / sizeof bad_kinds[0];
static std::string malformed(const std::vector<std::string>& f, int64_t seq) {
    mp::Val v = mp::Val::arr();
    std::string key = keys[atoi(f[1].c_str())];
    for (auto& t : split(bad_kinds[atoi(f[0].c_str()) % n_bad_kinds])) {
        if (t == "S") v.add(seq);
        else if (t == "k") v.add(mp::Val::str(key));
        else if (t == "K") v.add(mp::Val::str(key + std::string(300, 'x')));
        else if (t == "s") v.add(mp::Val::str("stray"));
        else if (t == "a") v.add(mp::Val::arr());
        else if (t == "n") v.add(mp::Val());
        else v.add((int64_t) atoll(t.c_str()));
    }
    std::string b; mp::encode(b, v);
    return b;
}
static void client_done() { --clients_left; if (world_fiber >= 0) wake(world_fiber); }
static void sender(void* a) {
    Client& c = *(Client*) a;
    c.send_fiber = self();
    for (auto* p : c.ops) {
        OpRec o;
        if (p->what == "pause") { uint64_t u = now_ns + strtoull(p->f[0].c_str(), 0, 0); while (now_ns < u) block_until(u); continue; }
        if (p->what == "drain") { drain_to(c, 0); continue; }
        if (p->what == "close") {           // fin | rst | half, or a request cut short after n bytes
            if (!ensure_conn(c)) break;
            c.lib_closing = true;
            int how = p->f[0] == "fin" ? simos::CLOSE_FIN : p->f[0] == "rst" ? simos::CLOSE_RST : simos::CLOSE_HALF;
            ev(strf("client %d closes its connection (%s)", c.cfg.id, p->f[0].c_str()));
            count(("fault.client closes " + p->f[0]).c_str());
            int cn = c.conn;
            simos::cl_close(cn, how);
            if (how == simos::CLOSE_HALF) { uint64_t until = now_ns + reply_wait; while (c.conn >= 0) { if (now_ns >= until) fail("no-progress", "client %d ended its side of the connection; the server had not closed it %.0f simulated seconds later", c.cfg.id, reply_wait * 1e-9); block_until(until); } }
            else drop_conn(c, "closed by the client");
            continue;
        }
        if (p->what == "cut" || p->what == "junk") {    // cut how bytes op...: part of a request, then gone; junk how hex
            if (!ensure_conn(c)) break;
            c.lib_closing = true;
            std::string b;
            if (p->what == "junk") b = unhex(p->f[1]);
            else { PlanOp q = *p; q.what = p->f[2]; q.f.erase(q.f.begin(), q.f.begin() + 3); if (!make_op(q, o, c.cfg.id)) continue; mp::encode(b, request(o, c.seq++)); size_t n = strtoull(p->f[1].c_str(), 0, 0); b.resize(n % b.size()); }
            int cn = c.conn;
            ev(strf("client %d sends %zu stray bytes and goes away (%s)", c.cfg.id, b.size(), p->f[0].c_str()));
            count("fault.client dies inside a request");
            simos::cl_send(cn, b, now_ns + 1000000000ull);
            simos::cl_close(cn, p->f[0] == "rst" ? simos::CLOSE_RST : simos::CLOSE_FIN);
            drop_conn(c, "closed by the client");
            continue;
        }
        if (p->what == "bad") {             // a complete message that is no valid request: kind key
            if (!ensure_conn(c)) break;
            c.lib_closing = c.bad = true;
            std::string b = malformed(p->f, c.seq++); int cn = c.conn;
            ev(strf("client %d sends a malformed request: %s", c.cfg.id, bad_kinds[atoi(p->f[0].c_str()) % n_bad_kinds]));
            count("fault.malformed request");
            simos::cl_send(cn, b, now_ns + reply_wait);
            drain_to(c, 0);
            uint64_t until = now_ns + reply_wait;
            while (c.conn >= 0 && c.bad) { if (now_ns >= until) late(c, "a malformed request was neither refused nor its connection closed"); block_until(until); }
            if (c.conn >= 0) { cn = c.conn; simos::cl_close(cn, simos::CLOSE_FIN); drop_conn(c, "closed by the client"); }
            continue;
        }
        if (p->what == "nohs") {            // a connection that never completes the handshake: how, bytes
            int cn = simos::cl_connect(port, now_ns + reply_wait);
            if (cn < 0) late(c, "no connection was accepted");
            ev(strf("client %d opens a connection without a handshake (%s)", c.cfg.id, p->f[0].c_str()));
            count("fault.client without handshake");
            if (p->f.size() > 1) simos::cl_send(cn, unhex(p->f[1]), now_ns + 1000000000ull);
            block_until(now_ns + 1 + c.rng.below(3000000));
            simos::cl_close(cn, p->f[0] == "rst" ? simos::CLOSE_RST : simos::CLOSE_FIN);
            continue;
        }
        if (!make_op(*p, o, c.cfg.id)) internal_error("bad operation %s", p->what.c_str());
        if (!ensure_conn(c)) break;
        drain_to(c, c.cfg.window - 1);
        if (c.conn < 0) { if (!ensure_conn(c)) break; }
        int64_t seq = c.seq++;
        std::string b; mp::encode(b, request(o, seq), c.cfg.alt & 2 ? &c.rng : nullptr);
        o.inv = ++evt; mixh(o.inv);
        hist.push_back(o); c.out.push_back({seq, hist.size() - 1});
        ev(strf("%llu ", (unsigned long long) o.inv) + show_op(o));
        int cn = c.conn;
        if (!simos::cl_send(cn, b, now_ns + reply_wait)) {
            if (c.conn != cn) continue;
            if (!simos::cl_broken(cn)) late(c, "a request could not be sent");
        }
    }
    drain_to(c, 0);
    if (c.conn >= 0) { int cn = c.conn; c.lib_closing = true; simos::cl_close(cn, simos::CLOSE_FIN); drop_conn(c, "finished"); }
    client_done();
}
static void udp_client(void* a) {
    Client& c = *(Client*) a;
    int from = 40000 + c.cfg.id, to = port + (c.cfg.core < 0 ? 0 : c.cfg.core % nthreads);
    uint64_t drain = 2 * simos::cfg.udp_delay_ns + 2000000000ull;
    auto flush_stale = [&]() { std::string s; while (simos::cl_udp_recv(from, s, now_ns)) {} };
    for (auto* p : c.ops) {
        OpRec o;
        if (p->what == "pause") { uint64_t u = now_ns + strtoull(p->f[0].c_str(), 0, 0); while (now_ns < u) block_until(u); continue; }
        if (p->what == "trunc" || p->what == "bytes" || p->what == "bad") {     // a datagram that ends inside its request, or is no request
            std::string b; int64_t seq = c.seq++;
            if (p->what == "bytes") b = unhex(p->f[0]);
            else if (p->what == "bad") b = malformed(p->f, seq);
            else { PlanOp q = *p; q.what = p->f[1]; q.f.erase(q.f.begin(), q.f.begin() + 2); if (!make_op(q, o, c.cfg.id)) continue; mp::encode(b, request(o, seq)); size_t n = strtoull(p->f[0].c_str(), 0, 0); if (b.size() <= 4096) b.resize(n % b.size()); }
            count(p->what == "bad" ? "fault.malformed request" : b.size() > 4096 ? "fault.oversized datagram" : "fault.truncated datagram");
            ev(strf("client %d sends %s datagram of %zu bytes (sequence number %lld)", c.cfg.id, p->what == "bad" ? "a malformed" : "an incomplete", b.size(), (long long) seq));
            simos::cl_udp_send(to, from, b);
            std::string s;
            uint64_t until = now_ns + drain;
            while (simos::cl_udp_recv(from, s, until)) {
                mp::Val v; long used = mp::decode(s.data(), s.size(), v);
                if (used > 0 && v.t == mp::ARR && v.a.size() >= 2 && v.a[0].t == mp::INT && v.a[0].i < seq) { count("late replies"); continue; }
                fail("bad-reply", "client %d received a reply to a datagram that held no complete request: %s", c.cfg.id, hex(s.substr(0, 40)).c_str());
            }
            continue;
        }
        if (!make_op(*p, o, c.cfg.id)) continue;
        int64_t seq = c.seq++;
        std::string b; mp::encode(b, request(o, seq), c.cfg.alt & 2 ? &c.rng : nullptr);
        if (b.size() > 4096) continue;
        o.inv = ++evt; size_t h = hist.size(); hist.push_back(o);
        ev(strf("%llu ", (unsigned long long) o.inv) + show_op(o) + " (datagram)");
        bool done = false; int tries = 0;
        bool lossy = simos::cfg.udp_loss > 0, dup = simos::cfg.udp_dup > 0;
        while (!done && tries < 6) {
            ++tries;
            if (tries > 1 || dup) hist[h].any_res = true;
            simos::cl_udp_send(to, from, b);
            std::string s; uint64_t until = now_ns + (lossy ? 2 * simos::cfg.udp_delay_ns + 300000000ull : reply_wait);
            while (!done && simos::cl_udp_recv(from, s, until)) {
                mp::Val v; long used = mp::decode(s.data(), s.size(), v);
                if (used <= 0 || (size_t) used != s.size() || v.t != mp::ARR || v.a.size() < 2 || v.a[0].t != mp::INT) fail("bad-reply", "client %d received a datagram that is not a reply: %s", c.cfg.id, hex(s.substr(0, 40)).c_str());
                if (v.a[0].i > seq) fail("bad-reply", "client %d received a reply with a sequence number it never used: %lld", c.cfg.id, (long long) v.a[0].i);
                if (v.a[0].i < seq) { count("late replies"); continue; }
                got_reply(hist[h], v); done = true;
            }
            if (!done && !lossy && o.kind != SCAN) fail("no-progress", "client %d: no reply to a datagram within %.0f simulated seconds although none was lost", c.cfg.id, reply_wait * 1e-9);
            if (!done && o.kind == SCAN && tries >= 2 && !lossy) break;
        }
        if (tries > 1 || dup || !done) { block_until(now_ns + drain); flush_stale(); }
    }
    client_done();
}

// ------------------------------------------------------------------ one boot
static EndCfg the_end;
extern "C" unsigned long long mg_deltas(void);
static bool boot_verified;
static uint64_t ready_ns, crash_at_ns;
static void stop_boot() { if (!crash_at_ns) crash_at_ns = now_ns; while (true) stop(); }
static void stop_event(void*) { if (!crash_at_ns) { crash_at_ns = now_ns; ev("*** " + the_end.kind); } stop(); }
static uint64_t ckp_ops;
static void disk_op(uint64_t n, const std::string& path) {
    bool ck = path.find("kvd-ckp-") != std::string::npos;
    if (ck) ++ckp_ops;
    const std::string& w = the_end.when;
    if (!(w.compare(0, 5, "disk ") == 0 && n == strtoull(w.c_str() + 5, 0, 0)) && !(ck && w.compare(0, 8, "ckpstep ") == 0 && ckp_ops == strtoull(w.c_str() + 8, 0, 0))) return;
    crash_at_ns = now_ns; ev("*** " + the_end.kind + strf(" at disk step %llu (%s)", (unsigned long long) n, path.c_str()));
    count(ck ? "crash at an exact step of a checkpoint" : "crash at an exact disk step");
    while (true) stop();
}
static uint64_t when_ns(const std::string& w) { size_t p = w.find('+'); return p == std::string::npos ? 0 : strtoull(w.c_str() + p + 1, 0, 0); }
static int hello(Rng& r, const char* what) {
    int cn = simos::cl_connect(port, now_ns + 600ull * 1000000000ull);
    if (cn < 0) fail("no-start", "the server did not accept a connection within 600 simulated seconds (%s)", what);
    if (!do_handshake(cn, -1, r, false, now_ns + reply_wait, 900)) fail("no-progress", "no handshake reply within %.0f simulated seconds (%s)", reply_wait * 1e-9, what);
    return cn;
}
static OpRec rpc(int cn, OpRec o, int64_t seq, bool record) {
    std::string b, in; mp::encode(b, request(o, seq));
    o.client = 900; o.boot = boot_no; o.inv = ++evt;
    if (!simos::cl_send(cn, b, now_ns + reply_wait)) fail("no-progress", "a request of the checking client could not be sent");
    while (true) {
        mp::Val v; long used = mp::decode(in.data(), in.size(), v);
        if (used < 0 || (used > 0 && (v.t != mp::ARR || v.a.size() < 2 || !v.a[0].is_int(seq) || (size_t) used != in.size()))) fail("bad-reply", "the checking client received %s", hex(in.substr(0, 40)).c_str());
        if (used > 0) { take_reply(o, v); break; }
        int n = simos::cl_recv(cn, in, now_ns + reply_wait);
        if (n == -2) fail("no-progress", "no reply to the checking client's %s within %.0f simulated seconds", show_op(o).c_str(), reply_wait * 1e-9);
        if (n <= 0) fail("connection-dropped", "the server closed the checking client's connection");
    }
    o.resp = ++evt; o.resp_t = now_ns; mixh(o.res); for (auto x : o.got) mixh(x);
    ev("check: " + show_op(o) + strf(": %d %s", o.res, show_ids(o.got).c_str()));
    if (record) hist.push_back(o);
    return o;
}
static void read_everything(bool record, std::vector<KState>* out) {
    Rng r(99); int cn = hello(r, "checking client");
    int64_t seq = 1;
    if (out) out->assign(keys.size(), KState());
    for (size_t k = 0; k < keys.size(); ++k) {
        OpRec o; o.kind = GET; o.key = (int) k; o = rpc(cn, o, seq++, record);
        if (out) { (*out)[k].present = o.res; (*out)[k].cols = o.got; }
    }
    // the scan must agree with the single reads: nobody else is running
    OpRec s; s.kind = SCAN; s.key = 0; for (size_t k = 0; k < keys.size(); ++k) if (keys[k] < keys[s.key]) s.key = (int) k;
    s.scan_n = (int) keys.size() + 5; s = rpc(cn, s, seq++, record);
    if (out) {
        std::vector<char> seen(keys.size(), 0);
        for (auto& x : s.rows) { seen[x.first] = 1; if (!(*out)[x.first].present || (*out)[x.first].cols != x.second) fail("scan-differs", "after recovery a scan shows %s as %s, a get as %s", show_key(x.first).c_str(), show_ids(x.second).c_str(), (*out)[x.first].present ? show_ids((*out)[x.first].cols).c_str() : "absent"); }
        for (size_t k = 0; k < keys.size(); ++k) if ((*out)[k].present && !seen[k] && keys[k] >= keys[s.key]) fail("scan-differs", "after recovery a get finds %s, a scan does not", show_key((int) k).c_str());
    }
    simos::cl_close(cn, simos::CLOSE_FIN);
}
static uint32_t stalls_left0 = 0;
static uint64_t durability_bound() { return 2500000000ull + 2 * 1000ull * stall_max_us * stalls_left0 + 8 * std::max(reg->max_fsync, simos::max_fsync_taken_ns); }
static void world(void*) {
    world_fiber = self();
    if (the_end.when.compare(0, 6, "start+") == 0) at_time(now_ns + when_ns(the_end.when), stop_event, nullptr);
    { Rng r(98); int cn = hello(r, "start-up"); ready_ns = now_ns; simos::cl_close(cn, simos::CLOSE_FIN); }
    ev("server ready");
    if (the_end.when.compare(0, 6, "ready+") == 0) at_time(now_ns + when_ns(the_end.when), stop_event, nullptr);
    if (boot_no > 0) {
        std::vector<KState> rec; read_everything(false, &rec);
        check_recovered(rec, reg->crash_ns, durability_bound());
        base = rec; hist.clear(); boot_verified = true;
        ev("recovered state verified");
        if (unsigned long long d = mg_deltas()) { count("recoveries that replayed updates out of order"); count("updates replayed before their base", d); }
    }
    block_until(now_ns + 50000000);
    size_t fds0 = simos::open_fds();
    stalls_left = stalls_left0;      // every thread has opened its files and sockets
    if (the_end.when.compare(0, 4, "ops ") == 0) end_ops = strtoull(the_end.when.c_str() + 4, 0, 0);
    for (auto& cc : client_cfgs) if (cc.boot == boot_no) {
        Client* c = new Client; c->cfg = cc; c->rng = Rng(mix(cc.id * 31 + boot_no, cc.alt));
        for (auto& p : plan_ops) if (p.boot == boot_no && p.client == cc.id) c->ops.push_back(&p);
        clients.push_back(c); ++clients_left;
    }
    for (auto* c : clients) {
        if (c->cfg.udp) spawn(udp_client, c, "udp client", true, 256 << 10);
        else { c->recv_fiber = spawn(receiver, c, "receiver", true, 256 << 10); c->send_fiber = spawn(sender, c, "sender", true, 256 << 10); }
    }
    while (clients_left && replies_total < end_ops) block_until(now_ns + 5000000000ull);      // each client reports its own lack of progress
    if (replies_total >= end_ops) { ev("*** " + the_end.kind); if (the_end.kind != "sigint") stop_boot(); }
    else {
        ev("all clients are done");
        if (the_end.when.compare(0, 5, "done+") == 0) block_until(now_ns + when_ns(the_end.when));
        else if (the_end.when.compare(0, 5, "disk ") == 0) block_until(now_ns + 500000000);       // the step may still come
        else if (the_end.when.compare(0, 8, "ckpstep ") == 0) block_until(now_ns + 3000000000ull);
        if (the_end.kind == "stop") {
            read_everything(true, nullptr);
            uint64_t until = now_ns + 20000000000ull;
            while (simos::open_fds() > fds0 && now_ns < until) block_until(now_ns + 10000000);
            if (simos::open_fds() > fds0) fail("fd-leak", "%zu file descriptors are open after every client has gone, %zu before the first came", simos::open_fds(), fds0);
        }
        ev("*** " + the_end.kind);
    }
    if (the_end.kind == "sigint") { simos::raise_signal(SIGINT); block_until(now_ns + 10000000000ull); }
    stop_boot();
}
static bool on_server_abort(const char* what) {
    if (!simos::disk_error_seen) return false;
    count("server stopped after a disk error"); ev(std::string("server stops after a disk error: ") + what);
    simos::exited = true;
    if (!crash_at_ns) crash_at_ns = now_ns;
    while (true) stop();
}
static std::vector<std::string> args; static std::vector<char*> argv_;
static void server_main(void*) { int r = mg_main((int) args.size(), argv_.data()); simos::exited = true; simos::exit_code = r; while (true) stop(); }
extern "C" uint32_t masstree_sim_log_buffer_size(uint32_t size) { return log_buf ? log_buf : size; }

// zeros after the surviving part are possible only where the file system could have extended the file: never where they
// would complete a record header, which the log cannot tell from data
static bool zero_ok(const std::string& path, const std::string& kept) {
    size_t sl = path.rfind('/'); std::string n = sl == std::string::npos ? path : path.substr(sl + 1);
    if (n.compare(0, 8, "kvd-log-") != 0 || (n.size() > 4 && n.compare(n.size() - 4, 4, ".tmp") == 0)) return true;
    size_t p = 0;
    while (kept.size() - p >= 8) { uint32_t sz; memcpy(&sz, kept.data() + p + 4, 4); if (sz < 8 || p + sz > kept.size()) break; p += sz; }
    return kept.size() - p <= 4;
}

static void save_region(const std::string& disk) {
    SerOut o;
    o.s(disk);
    o.u(base.size()); for (auto& b : base) { o.u(b.present); o.u(b.cols.size()); for (auto x : b.cols) o.u(x); }
    o.u(hist.size());
    for (auto& h : hist) {
        o.u(h.boot); o.u(h.client); o.u(h.kind); o.u(h.key); o.u(h.id); o.u(h.cols.size()); for (auto& c : h.cols) { o.u(c.c); o.u(c.len); }
        o.u(h.inv); o.u(h.resp); o.u(h.resp_t); o.u(h.res); o.u(h.any_res); o.u(h.got.size()); for (auto x : h.got) o.u(x);
        o.u(h.scan_n); o.u(h.rows.size()); for (auto& r : h.rows) { o.u(r.first); o.u(r.second.size()); for (auto x : r.second) o.u(x); }
    }
    if (o.o.size() > sizeof reg->data) internal_error("state too large");
    memcpy(reg->data, o.o.data(), o.o.size()); reg->disk_len = o.o.size();
}
static std::string load_region() {
    if (!reg->disk_len) { base.assign(keys.size(), KState()); return ""; }
    SerIn in{reg->data}; std::string disk = in.s();
    base.resize(in.u()); for (auto& b : base) { b.present = in.u(); b.cols.resize(in.u()); for (auto& x : b.cols) x = (uint32_t) in.u(); }
    hist.resize(in.u());
    for (auto& h : hist) {
        h.boot = (int) in.u(); h.client = (int) in.u(); h.kind = (Kind) in.u(); h.key = (int) in.u(); h.id = (uint32_t) in.u(); h.cols.resize(in.u()); for (auto& c : h.cols) { c.c = (int) in.u(); c.len = (int) in.u(); }
        h.inv = in.u(); h.resp = in.u(); h.resp_t = in.u(); h.res = in.u(); h.any_res = in.u(); h.got.resize(in.u()); for (auto& x : h.got) x = (uint32_t) in.u();
        h.scan_n = (int) in.u(); h.rows.resize(in.u()); for (auto& r : h.rows) { r.first = (int) in.u(); r.second.resize(in.u()); for (auto& x : r.second) x = (uint32_t) in.u(); }
    }
    return disk;
}
static void run_boot() {
    setenv("_", "valgrind", 1);
    std::string disk = load_region();
    Plan q = *plan;
    for (auto& l : q) if (l.compare(0, 6, "sched ") == 0) { auto f = split(l); f[1] = std::to_string(mix(strtoull(f[1].c_str(), 0, 0), boot_no) >> 2); l = f[0]; for (size_t i = 1; i < f.size(); ++i) l += " " + f[i]; }
    fiber_base = boot_no * 1000; dec_base = shared->dec_len;
    apply_sched(q);
    if (reg->time_ns) now_ns = reg->time_ns;
    evt = reg->evt; hhash = reg->hhash ? reg->hhash : hhash;
    simos::init(mix(plan_u(q, "osseed", 1), boot_no));
    if (!disk.empty()) {
        simos::disk_load(disk);
        bool ck = false, lg = false;
        for (auto& n : simos::disk.names) { ck = ck || (n.first.size() > 11 && n.first.find("kvd-ckp-gen") == n.first.size() - 11); lg = lg || (n.first.find("kvd-log-") != std::string::npos && simos::disk.ino[n.second].cur.size() > 40); }
        if (lg) count("boots starting with a log");
        if (ck) count("boots starting with a published checkpoint");
    } else for (auto& d : split(plan_s(q, "cd", "log"), ',')) {      // the administrator's part: checkpoint directories exist
        simos::Inode in; in.dir = true; simos::disk.ino.push_back(in);
        simos::disk.names[d] = simos::disk.dnames[d] = (int) simos::disk.ino.size() - 1;
    }
    simos::clock_offset_ns = reg->clock_off;
    stall_p = plan_d(q, "f.stall", 0); stall_lock_p = plan_d(q, "f.stall_lock", 0); stall_max_us = (uint32_t) plan_u(q, "f.stall_us", 1000); stalls_left0 = stall_p > 0 || stall_lock_p > 0 ? (uint32_t) plan_u(q, "f.stalls", 1) : 0;
    step_ns = 100; max_slice = 20000; simos::thread_stack = 384 << 10;
    auto& c = simos::cfg;
    c.p_short_read = plan_d(q, "f.short_read", 0); c.p_short_write = plan_d(q, "f.short_write", 0); c.p_eintr_wait = plan_d(q, "f.eintr_wait", 0);
    c.p_spurious = plan_d(q, "f.spurious", 0); c.p_accept_abort = plan_d(q, "f.accept_abort", 0); c.p_thread_delay = plan_d(q, "f.thread_delay", 0);
    c.net_delay_ns = plan_u(q, "net.delay", 50000); c.segment = (int) plan_u(q, "net.segment", 0); c.sockbuf = plan_u(q, "net.sockbuf", 65536);
    c.udp_loss = plan_d(q, "udp.loss", 0); c.udp_dup = plan_d(q, "udp.dup", 0); c.udp_delay_ns = plan_u(q, "udp.delay", 50000);
    c.write_ns = plan_u(q, "disk.write", 20000); c.fsync_ns = plan_u(q, "disk.fsync", 1000000);
    c.p_fsync_slow = plan_d(q, "disk.p_slow", 0); c.fsync_slow_ns = plan_u(q, "disk.slow", 0); c.slow_path = plan_s(q, "disk.slowpath", "");
    c.disk_capacity = plan_u(q, strf("disk.capacity.%d", boot_no), ~0ull);
    for (auto& l : q) if (l.compare(0, 6, "fault ") == 0) { auto f = split(l, '|'); if (atoi(f[0].c_str() + 6) == boot_no) c.disk_faults.push_back(simos::DiskFault{f[1], strtoull(f[2].c_str(), 0, 0), strtoull(f[3].c_str(), 0, 0)}); }
    on_fail = my_on_fail;
    simos::on_disk_op = disk_op;
    on_abort = on_server_abort;
    the_end = EndCfg{"stop", "done+0"};
    for (auto& l : q) { auto f = split(l); if (f[0] == "end" && atoi(f[1].c_str()) == boot_no) { the_end.kind = f[2]; the_end.when = f[3]; for (size_t i = 4; i < f.size(); ++i) the_end.when += " " + f[i]; } }
    for (auto& l : q) { auto f = split(l); if (f[0] == "jump" && atoi(f[1].c_str()) == boot_no) { simos::clock_offset_ns += atoll(f[2].c_str()); count("fault.clock jump across a restart"); } }
    args = {"mtd", "-j" + std::to_string(nthreads)};
    if (!logging_on) args.push_back("-n");
    args.push_back("--ld=" + plan_s(q, "ld", "log")); args.push_back("--cd=" + plan_s(q, "cd", "log"));
    if (plan_s(q, "ckpt", "") != "") args.push_back("--checkpoint=" + plan_s(q, "ckpt", ""));
    if (plan_s(q, "epochms", "") != "") args.push_back("--epoch-interval=" + plan_s(q, "epochms", ""));
    for (auto& a : args) argv_.push_back(&a[0]);
    argv_.push_back(nullptr);
    ev(strf("boot %d", boot_no));
    spawn(server_main, nullptr, "main", true, 1 << 20);
    spawn(world, nullptr, "world", false, 1 << 20);
    for (auto& l : q) {     // clock jumps while running: tick B at_ns delta_ns
        auto f = split(l);
        if (f[0] == "tick" && atoi(f[1].c_str()) == boot_no) at_time(now_ns + strtoull(f[2].c_str(), 0, 0), [](void* d) { simos::clock_offset_ns += (int64_t) (intptr_t) d; count("fault.clock jump"); ev("clock jumps"); }, (void*) (intptr_t) atoll(f[3].c_str()));
    }
    begin_chaos();
    run();
    if (!crash_at_ns) crash_at_ns = now_ns;
    if (simos::exited && the_end.kind != "sigint" && !simos::disk_error_seen) fail("server-exit", "the server ended by itself with status %d", simos::exit_code);
    if (simos::disk_error_seen) ++reg->disk_errors;
    check_linearizable();
    count(("end " + the_end.kind).c_str());
    std::string log;
    if (the_end.kind == "power" || (simos::exited && the_end.kind != "sigint")) {
        Rng r(mix(plan_u(q, "crashseed", 1), boot_no));
        if (the_end.kind == "power") simos::power_failure(r, zero_ok, &log);
    } else if (the_end.kind != "stop") count("fault.process killed");
    for (auto& l : split(log, '\n')) if (!l.empty()) ev(l);
    // history boundaries: operations still running at the crash stay open
    if (boot_verified || boot_no == 0) reg->crash_ns = crash_at_ns;
    reg->evt = evt; reg->time_ns = now_ns + 1000000; reg->clock_off = simos::clock_offset_ns;
    reg->max_fsync = std::max(reg->max_fsync, simos::max_fsync_taken_ns);
    mixh(interleaving_hash); reg->hhash = hhash; reg->ihash = mix(reg->ihash, interleaving_hash);
    if (stats.stalls) { count("fault.stalled thread", stats.stalls); count("microseconds threads were stalled", stats.stall_us); }
    reg->steps += g_step; reg->switches += stats.switches; reg->preempts += stats.preempts; reg->parks += stats.parks; reg->spins += stats.spins; reg->allocs += stats.allocs;
    save_region(simos::disk_save());
    dump_decisions(); dump_history();
    reg->done = 1;
}

// ------------------------------------------------------------------ one run
static void read_plan(const Plan& p) {
    plan = &p; prof = plan_s(p, "profile", "");
    nthreads = (int) plan_u(p, "j", 1); nboots = (int) plan_u(p, "boots", 1); logging_on = plan_u(p, "logging", 1); log_buf = (uint32_t) plan_u(p, "logbuf", 1 << 20);
    for (auto& l : p) {
        auto f = split(l);
        if (f[0] == "key") { size_t i = strtoull(f[1].c_str(), 0, 0); if (keys.size() <= i) keys.resize(i + 1); keys[i] = unhex(f[2]); }
        else if (f[0] == "client") { ClientCfg c{atoi(f[1].c_str()), atoi(f[2].c_str()), f[3] == "udp", atoi(f[4].c_str()), std::max(1, atoi(f[5].c_str())), strtoull(f[6].c_str(), 0, 0)}; client_cfgs.push_back(c); }
        else if (f[0] == "op") {
            PlanOp o; o.boot = atoi(f[1].c_str()); o.client = atoi(f[2].c_str()); o.what = f[3]; o.f.assign(f.begin() + 4, f.end());
            plan_ops.push_back(o);
            // only requests that are sent whole may leave a value behind
            OpRec r; if (make_op(o, r, 0) && r.id) writes[r.id] = Write{r.key, r.kind, r.cols};
        }
    }
    for (size_t i = 0; i < keys.size(); ++i) key_index[keys[i]] = (int) i;
}
static void execute(const Plan& p) {
    read_plan(p);
    reg = (Region*) mmap(nullptr, sizeof(Region), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (reg == MAP_FAILED) internal_error("mmap");
    uint64_t t0 = 0;
    for (boot_no = 0; boot_no < nboots; ++boot_no) {
        reg->done = 0;
        pid_t pid = fork();
        if (pid < 0) internal_error("fork: %s", strerror(errno));
        if (pid == 0) {
            struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr);
            run_boot();
            _exit(0);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        ++shared->boots;
        if (shared->out.failed) break;
        if (!reg->done) internal_error("boot %d ended with status %x", boot_no, st);
    }
    shared->steps = reg->steps; shared->switches = reg->switches; shared->preempts = reg->preempts; shared->parks = reg->parks; shared->spins = reg->spins; shared->allocs = reg->allocs;
    shared->ihash = reg->ihash; shared->hhash = reg->hhash; shared->simtime_ns = reg->time_ns > start_ns ? reg->time_ns - start_ns : 0; (void) t0;
    shared->nontrivial = shared->ops > 0 && reg->switches > 10;
    if (shared->out.failed) { shared->ihash = mix(fnv(shared->out.msg, strlen(shared->out.msg)), shared->dec_len); }
    munmap(reg, sizeof(Region));
}
#include "mtdgen.h"
int main(int argc, char** argv) {
    static Harness h = {"mtd", generate, execute, removable, simplify, 100};
    return runner_main(argc, argv, h);
}
