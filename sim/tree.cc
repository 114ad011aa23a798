// Simulation harness for the in-memory tree: generators, executor and oracles.  Not instrumented.
#include "runner.h"
#include "ops.h"
#include "lin.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <map>
#include <set>
#include <algorithm>
using namespace sim;

// ------------------------------------------------------------------ values
// Every written column value is a function of (id, column, length), so torn, stale and foreign bytes are recognisable.
static std::string make_val(uint32_t id, int col, int len) {
    std::string s((size_t) len, '\0');
    uint64_t h = mix(id, 77 + col);
    for (int i = 0; i < len; ++i) { if (i % 8 == 0) h = hash64(h); s[i] = (char) (h >> (8 * (i % 8))); }
    memcpy(&s[0], &id, 4); s[4] = (char) col;
    return s;
}
static std::map<std::pair<uint32_t, int>, int> val_len;     // (id, col) -> length
static uint32_t parse_val(tr_str s, const char* where, const std::string& key) {
    if (s.len == 0) return 0;
    if (s.len < 5) fail("torn-value", "%s of key %s returned %d bytes that no write produced", where, hex(key).c_str(), s.len);
    uint32_t id; memcpy(&id, s.s, 4);
    int col = (unsigned char) s.s[4];
    auto it = val_len.find({id, col});
    if (it == val_len.end()) fail("torn-value", "%s of key %s returned bytes that no write produced (%s)", where, hex(key).c_str(), hex(s.s, std::min(s.len, 24)).c_str());
    if (it->second != s.len || make_val(id, col, s.len) != std::string(s.s, s.len))
        fail("torn-value", "%s of key %s returned a damaged copy of value %u (%d bytes, written with %d)", where, hex(key).c_str(), id, s.len, it->second);
    return id;
}

// ------------------------------------------------------------------ plan
struct Col { int c, len; };
struct TOp {
    std::string kind, text;
    int k = -1; uint32_t id = 0; int len = 0, flavour = 0, rev = 0, match = 1, limit = 0, n = 0;
    std::vector<Col> cols;
};
static std::vector<Col> parse_cols(const std::string& s) {
    std::vector<Col> r;
    if (s == "-") return r;
    for (auto& x : split(s, ',')) { auto y = split(x, ':'); r.push_back(Col{atoi(y[0].c_str()), y.size() > 1 ? atoi(y[1].c_str()) : 0}); }
    return r;
}
static TOp parse_op(const std::vector<std::string>& f, size_t i, const std::string& text) {
    TOp o; o.kind = f[i]; o.text = text;
    auto I = [&](size_t j) { return i + j < f.size() ? atoi(f[i + j].c_str()) : 0; };
    if (o.kind == "get") { o.k = I(1); o.flavour = I(2); o.cols = parse_cols(f[i + 3]); }
    else if (o.kind == "put" || o.kind == "putw") { o.k = I(1); o.id = I(2); o.cols = parse_cols(f[i + 3]); }
    else if (o.kind == "rep" || o.kind == "ins") { o.k = I(1); o.id = I(2); o.len = I(3); }
    else if (o.kind == "rem" || o.kind == "remm") { o.k = I(1); }
    else if (o.kind == "scan" || o.kind == "scanq" || o.kind == "vscan") { o.k = I(1); o.rev = I(2); o.match = I(3); o.limit = I(4); o.cols = parse_cols(f[i + 5]); o.n = I(6); }
    else if (o.kind == "vget") { o.k = I(1); o.n = I(2); }
    else if (o.kind == "pause" || o.kind == "hold" || o.kind == "quiesce") o.n = I(1);
    return o;
}
static void note_vals(const TOp& o) {
    if (o.kind == "rep" || o.kind == "ins") val_len[{o.id, 0}] = o.len;
    if (o.kind == "put" || o.kind == "putw") for (auto& c : o.cols) val_len[{o.id, c.c}] = c.len;
}

// ------------------------------------------------------------------ run state
struct Hist { int tid; int k; KOp op; };
static const tr_api* A;
static void* T;
static std::vector<std::string> keys;
static std::map<std::string, int> key_ix;
static std::vector<int> sorted_ix;                   // key indices in key order
struct Thread { int id = 0; void* ti = nullptr; void* q = nullptr; std::vector<TOp> ops; };
static std::vector<Thread> th;
static std::vector<std::vector<KOp>> hist;           // per key
static uint64_t evseq = 1;
static std::set<std::string> want;                   // enabled oracles
static bool str_rows;
static uint64_t hhash = 1469598103934665603ull;
static std::string profile;
struct Phantom { int tid; uint64_t s_end, v_start; bool valid; std::string lo, hi; bool has_hi; bool lo_incl; bool rev; std::string what; };
static std::vector<Phantom> phantoms;
static bool single_threaded_run;

static tr_str TS(const std::string& s) { return tr_str{s.data(), (int) s.size()}; }
static void hh(uint64_t x) { hhash = mix(hhash, x); }
static std::string ids(const std::vector<uint32_t>& v) { std::string s = "["; for (auto x : v) s += strf("%s%u", s.size() > 1 ? "," : "", x); return s + "]"; }
static std::string kop_text(const KOp& o) {
    const char* kn[] = {"get", "put", "replace", "remove", "insert"};
    std::string s = strf("[%llu,%llu] thread %d %s", (unsigned long long) o.inv, (unsigned long long) o.resp, o.tid, kn[o.kind]);
    if (!o.what.empty()) s += " (" + o.what + ")";
    if (o.kind == K_GET) s += o.res ? " -> " + ids(o.got) : " -> absent";
    else {
        if (o.kind != K_REMOVE) { s += strf(" value %u", o.id); if (o.kind == K_PUT) { s += " cols"; for (int c : o.cols) s += strf(" %d", c); } }
        s += o.resp == ~0ull ? " -> never returned" : o.kind == K_REMOVE ? (o.res ? " -> removed" : " -> not found") : o.res ? " -> inserted" : (o.kind == K_INSERT ? " -> present" : " -> updated");
    }
    if (o.has_ts) s += strf(" ts %llu prev %llu", (unsigned long long) o.ts, (unsigned long long) o.prev_ts);
    return s;
}

// value pointers handed out inside the current read section, re-verified before it ends
struct Held { const char* p; int len; std::string copy; int k; };
static void check_held(std::vector<Held>& h) {
    for (auto& x : h) {
        check_mem(x.p, x.len, false, nullptr);
        if (memcmp(x.p, x.copy.data(), x.len) != 0)
            fail("value-changed", "value bytes of key %s obtained in a read section changed before the section ended", hex(keys[x.k]).c_str());
    }
    h.clear();
}
static void take_row(KOp& o, const tr_row& r, const std::vector<Col>& cols, int k, const char* where, std::vector<Held>* held) {
    o.got.clear();
    for (int i = 0; i < r.ncol; ++i) {
        o.got.push_back(parse_val(r.col[i], where, keys[k]));
        if (held && r.col[i].len && in_arena(r.col[i].s) && !str_rows) held->push_back(Held{r.col[i].s, r.col[i].len, std::string(r.col[i].s, r.col[i].len), k});
    }
    o.cols.clear();
    for (auto& c : cols) o.cols.push_back(c.c);
    o.all_ncol = cols.empty() && !str_rows;
    if (r.ptr && r.ts) { o.ts = r.ts; o.has_ts = true; }
}

struct ScanRec {
    Thread* t; const TOp* op; uint64_t inv; std::string last; int n; bool done;
    std::vector<std::pair<int, KOp>> seen;
    std::vector<tr_nodever> vers;
    std::vector<Held>* held; bool rev, match; std::string first; int limit; const char* where; bool leafs;
};
static int scan_value(void* cx, tr_str key, const tr_row* r) {
    ScanRec& s = *(ScanRec*) cx;
    std::string k(key.s, key.len);
    if (s.done) fail("scan-limit", "%s visited key %s after the visitor had asked to stop", s.where, hex(k).c_str());
    auto it = key_ix.find(k);
    if (it == key_ix.end()) fail("scan-foreign", "%s from %s delivered key %s, which was never written", s.where, hex(s.first).c_str(), hex(k).c_str());
    bool ok = s.rev ? k <= s.first : k >= s.first;
    if (ok && k == s.first && !s.match) ok = false;
    if (!ok) fail("scan-range", "%s from %s (%s) delivered key %s on the wrong side", s.where, hex(s.first).c_str(), s.match ? "inclusive" : "exclusive", hex(k).c_str());
    if (s.n > 0 && (s.rev ? k >= s.last : k <= s.last))
        fail(k == s.last ? "scan-duplicate" : "scan-order", "%s from %s delivered key %s after %s", s.where, hex(s.first).c_str(), hex(k).c_str(), hex(s.last).c_str());
    s.last = k; ++s.n;
    KOp o; o.kind = K_GET; o.tid = s.t->id; o.inv = s.inv; o.resp = ++evseq; o.res = true; o.what = s.where;
    take_row(o, *r, s.op->cols, it->second, s.where, s.held);
    if (!r->ptr) o.all_ncol = s.op->cols.empty() && !str_rows;
    s.seen.push_back({it->second, o});
    if (s.limit && s.n >= s.limit) { s.done = true; return 0; }
    return 1;
}
static void scan_leaf(void* cx, void* node, uint64_t v) { ((ScanRec*) cx)->vers.push_back(tr_nodever{node, v}); }

// Performs a scan and turns it into per-key reads (delivered keys: value reads; skipped keys: absent reads).
static void do_scan(Thread& t, const TOp& o, std::vector<Held>* held, bool query, std::vector<tr_nodever>* vers, Phantom* ph) {
    ScanRec s; s.t = &t; s.op = &o; s.n = 0; s.done = false; s.held = held; s.rev = o.rev; s.match = query ? true : o.match; s.first = keys[o.k]; s.limit = o.limit;
    s.where = o.rev ? "reverse scan" : "scan";
    std::vector<int> cols; for (auto& c : o.cols) cols.push_back(c.c);
    tr_scan_ctx cx; cx.ctx = &s; cx.value = scan_value; cx.leaf = vers ? scan_leaf : nullptr; cx.cols = cols.data(); cx.ncols = (int) cols.size();
    s.inv = ++evseq;
    set_reader(true);
    int n;
    if (query) n = A->scan_query(T, t.q, t.ti, o.rev, vers && !o.rev, TS(s.first), o.limit ? o.limit : 1000000, &cx);
    else n = A->scan(T, t.q, t.ti, o.rev, s.match, TS(s.first), &cx);
    set_reader(false);
    uint64_t end = ++evseq;
    if (n != s.n) fail("scan-count", "%s reported %d keys but delivered %d", s.where, n, s.n);
    if (query && s.limit && s.n > s.limit) fail("scan-limit", "%s delivered %d keys, limit %d", s.where, s.n, s.limit);
    if (query) for (auto& x : s.seen) x.second.resp = end;     // values were collected before the reply was assembled
    bool whole = !s.done;
    // keys in the covered range that were not delivered were absent at some instant of the scan
    size_t si = 0;
    std::vector<int> order = sorted_ix;
    if (s.rev) std::reverse(order.begin(), order.end());
    for (int k : order) {
        const std::string& key = keys[k];
        bool in = s.rev ? key <= s.first : key >= s.first;
        if (key == s.first && !s.match) in = false;
        if (!in) continue;
        if (!whole && (s.rev ? key < s.last : key > s.last)) break;
        if (si < s.seen.size() && s.seen[si].first == k) { hist[k].push_back(s.seen[si].second); ++si; continue; }
        KOp a; a.kind = K_GET; a.tid = t.id; a.inv = s.inv; a.res = false; a.what = std::string(s.where) + " passed over it";
        a.resp = query ? end : si < s.seen.size() ? s.seen[si].second.resp : end;
        hist[k].push_back(a);
    }
    hh(s.n); if (s.n) hh(fnv(s.last.data(), s.last.size()));
    for (auto& x : s.seen) for (auto v : x.second.got) hh(v);
    ++shared->ops;
    if (vers) *vers = s.vers;
    if (ph) {
        ph->tid = t.id; ph->s_end = end; ph->lo = s.rev ? (whole ? std::string() : s.last) : s.first; ph->hi = s.rev ? s.first : (whole ? std::string() : s.last);
        ph->has_hi = s.rev || !whole; ph->rev = s.rev; ph->lo_incl = s.rev ? true : s.match;
        ph->what = o.text;
    }
}

struct TxnSet { std::vector<tr_nodever> v; };

static void worker(void* arg) {
    Thread& t = *(Thread*) arg;
    bool in = false; int hold = 0;
    std::vector<Held> held;
    std::vector<tr_nodever> txn; bool txn_active = false; std::vector<Phantom> txn_ph;
    auto validate = [&](std::vector<Phantom>& phs, const char* what) {
        uint64_t vs = ++evseq;
        bool ok = true; size_t bad = 0;
        for (size_t i = 0; i < txn.size() && ok; ++i) if (A->node_version(txn[i].node) != txn[i].v) { ok = false; bad = i; }
        (void) bad;
        for (auto& p : phs) { p.v_start = vs; p.valid = ok; phantoms.push_back(p); }
        count(ok ? "validate.ok" : "validate.changed");
        hh(ok);
        (void) what;
        return ok;
    };
    for (size_t oi = 0; oi < t.ops.size(); ++oi) {
        const TOp& o = t.ops[oi];
        if (o.kind == "hold") { if (!in) { tr_rcu_start(t.ti); in = true; } hold = o.n; continue; }
        if (o.kind == "pause") { for (int i = 0; i < o.n; ++i) point(); continue; }
        if (o.kind == "quiesce") { if (!in) for (int i = 0; i < o.n; ++i) { tr_rcu_quiesce(t.ti); tr_rcu_stop(t.ti); } continue; }
        if (!in) { tr_rcu_start(t.ti); in = true; }
        if (o.kind == "get") {
            KOp k; k.kind = K_GET; k.tid = t.id;
            std::vector<int> cols; for (auto& c : o.cols) cols.push_back(c.c);
            if (o.flavour == 1 && cols.empty()) cols.push_back(str_rows ? -1 : 0);
            tr_row r; memset(&r, 0, sizeof r);
            k.inv = ++evseq;
            set_reader(true);
            k.res = A->get(T, t.q, t.ti, o.flavour, TS(keys[o.k]), cols.data(), (int) cols.size(), &r);
            set_reader(false);
            if (k.res) {
                std::vector<Col> cc; for (int c : cols) cc.push_back(Col{c, 0});
                take_row(k, r, cc, o.k, "get", &held);
            }
            k.resp = ++evseq;
            hh(k.res); for (auto v : k.got) hh(v);
            hist[o.k].push_back(k); ++shared->ops;
        } else if (o.kind == "rep" || o.kind == "ins") {
            KOp k; k.kind = o.kind == "rep" ? K_REPLACE : K_INSERT; k.tid = t.id; k.id = o.id; k.resp = ~0ull;
            std::string v = make_val(o.id, 0, o.len);
            k.inv = ++evseq;
            size_t ix = hist[o.k].size(); hist[o.k].push_back(k);
            if (o.kind == "rep") {
                tr_times tm; bool r = A->replace(T, t.q, t.ti, TS(keys[o.k]), TS(v), &tm);
                KOp& h = hist[o.k][ix]; h.res = r; h.ts = tm.ts; h.prev_ts = tm.prev_ts; h.has_ts = true; h.resp = ++evseq;
            } else {
                tr_mod m; memset(&m, 0, sizeof m);
                bool r = A->insert_mod(T, t.q, t.ti, TS(keys[o.k]), TS(v), &m);
                KOp& h = hist[o.k][ix]; h.res = r; h.resp = ++evseq;
                if (r && txn_active) {
                    for (auto& e : txn) if (e.node == m.orig_node && e.v == m.orig_v) e.v = m.upd_v;
                    bool had = false; for (auto& e : txn) if (e.node == m.orig_node) had = true;
                    if (had) for (int i = 0; i < m.nnew; ++i) txn.push_back(m.nn[i]);
                    if (single_threaded_run && want.count("own")) {
                        for (size_t i = 0; i < txn.size(); ++i)
                            if (A->node_version(txn[i].node) != txn[i].v)
                                fail("own-change", "after its own insert of %s (node moved from %llx to %llx, %d new nodes) a transaction's reported versions do not match the tree", hex(keys[o.k]).c_str(),
                                     (unsigned long long) m.orig_v, (unsigned long long) m.upd_v, m.nnew);
                    }
                    count("own-insert-tracked"); if (m.nnew) count("own-insert-new-nodes");
                }
            }
            hh(hist[o.k][ix].res); ++shared->ops;
        } else if (o.kind == "put" || o.kind == "putw") {
            KOp k; k.kind = K_PUT; k.tid = t.id; k.id = o.id; k.resp = ~0ull;
            std::vector<std::string> vs; std::vector<tr_str> vv; std::vector<int> cc;
            for (auto& c : o.cols) { vs.push_back(make_val(o.id, c.c, c.len)); cc.push_back(c.c); k.cols.push_back(c.c); }
            if (o.kind == "putw") {         // string rows: the whole value in one piece
                std::string w; for (auto& s : vs) w += s;
                vs.assign(1, w); cc.assign(1, -1);
            }
            for (auto& s : vs) vv.push_back(TS(s));
            k.inv = ++evseq;
            size_t ix = hist[o.k].size(); hist[o.k].push_back(k);
            tr_times tm; bool r = A->put(T, t.q, t.ti, TS(keys[o.k]), cc.data(), vv.data(), (int) cc.size(), &tm);
            KOp& h = hist[o.k][ix]; h.res = r; h.ts = tm.ts; h.prev_ts = tm.prev_ts; h.has_ts = true; h.resp = ++evseq;
            hh(r); ++shared->ops;
        } else if (o.kind == "rem" || o.kind == "remm") {
            KOp k; k.kind = K_REMOVE; k.tid = t.id; k.resp = ~0ull;
            k.inv = ++evseq;
            size_t ix = hist[o.k].size(); hist[o.k].push_back(k);
            tr_times tm; bool r = A->remove(T, t.q, t.ti, TS(keys[o.k]), &tm);
            KOp& h = hist[o.k][ix]; h.res = r; if (r) { h.ts = tm.ts; h.prev_ts = tm.prev_ts; h.has_ts = true; } h.resp = ++evseq;
            hh(r); ++shared->ops;
        } else if (o.kind == "scan") do_scan(t, o, &held, false, nullptr, nullptr);
        else if (o.kind == "scanq") do_scan(t, o, &held, true, nullptr, nullptr);
        else if (o.kind == "vscan") {       // scan, remember node versions; validated at a later point
            std::vector<tr_nodever> v; Phantom p;
            do_scan(t, o, &held, o.n & 1, &v, &p);
            if (o.rev && (o.n & 1)) v.clear();
            else { txn_active = true; for (auto& x : v) txn.push_back(x); txn_ph.push_back(p); if (hold < 1) hold = 1; }
        } else if (o.kind == "vget") {
            tr_nodever nv; KOp k; k.kind = K_GET; k.tid = t.id; k.inv = ++evseq;
            set_reader(true);
            int f = A->get_version(T, t.ti, TS(keys[o.k]), &nv);
            set_reader(false);
            k.resp = ++evseq; k.res = f; k.what = "lookup with version";
            k.cols.clear(); k.all_ncol = false;
            hist[o.k].push_back(k);
            if (!f) {
                txn_active = true; txn.push_back(nv);
                Phantom p; p.tid = t.id; p.s_end = k.resp; p.lo = p.hi = keys[o.k]; p.has_hi = true; p.lo_incl = true; p.rev = false; p.what = o.text;
                txn_ph.push_back(p);
                if (hold < 1) hold = 1;
            }
            ++shared->ops;
        } else if (o.kind == "validate") {
            if (txn_active) { validate(txn_ph, "validate"); txn.clear(); txn_ph.clear(); txn_active = false; hold = 0; }
        }
        if (hold > 0 && --hold > 0) continue;
        if (txn_active) continue;       // the section lasts until validation
        check_held(held);
        tr_rcu_stop(t.ti); in = false;
    }
    if (txn_active) validate(txn_ph, "end");
    if (in) { check_held(held); tr_rcu_stop(t.ti); }
}

static uint64_t epoch_period;
static void epoch_daemon(void* arg) {
    Rng r((uint64_t) (uintptr_t) arg);
    while (true) {
        block_until(now_ns + 1 + r.below(2 * epoch_period));
        tr_epoch_inc();
        count("epochs");
    }
}

// ------------------------------------------------------------------ oracles after the run
static bool in_range(const Phantom& p, const std::string& k) {
    if (k < p.lo || (k == p.lo && !p.lo_incl)) return false;
    if (p.has_hi && k > p.hi) return false;
    return true;
}
static void check_phantoms() {
    for (auto& p : phantoms) {
        if (!p.valid) continue;
        for (size_t k = 0; k < keys.size(); ++k) {
            if (!in_range(p, keys[k])) continue;
            for (auto& o : hist[k]) {
                if (o.kind == K_GET || o.tid == p.tid || o.resp == ~0ull) continue;
                bool structural = (o.kind == K_REMOVE && o.res) || (o.kind != K_REMOVE && o.res);
                if (structural && o.inv > p.s_end && o.resp < p.v_start)
                    fail("phantom", "versions recorded by '%s' at %llu still matched at %llu, but key %s changed in between: %s", p.what.c_str(), (unsigned long long) p.s_end, (unsigned long long) p.v_start,
                         hex(keys[k]).c_str(), kop_text(o).c_str());
            }
        }
    }
}
static void dump_key(int k) {
    std::vector<KOp> v = hist[k];
    std::sort(v.begin(), v.end(), [](const KOp& a, const KOp& b) { return a.inv < b.inv; });
    note_history("history of key " + hex(keys[k]) + "\n");
    for (auto& o : v) note_history("  " + kop_text(o) + "\n");
}
static void check_lin() {
    for (size_t k = 0; k < keys.size(); ++k) {
        if (hist[k].empty()) continue;
        LinChecker c; c.use_ts = want.count("ts");
        KState init;
        int bad = c.check(init, hist[k]);
        if (c.overflow) { count("lin.skipped"); continue; }
        if (bad >= 0) {
            dump_key((int) k);
            bool ts_only = false;
            if (c.use_ts) { LinChecker d; ts_only = d.check(init, hist[k]) < 0 && !d.overflow; }
            const KOp& o = hist[k][bad];
            bool scan = o.what.find("scan") != std::string::npos;
            fail(ts_only ? "timestamp" : scan ? "scan-content" : "linearizability", "key %s: no order of the operations explains %s", hex(keys[k]).c_str(), kop_text(o).c_str());
        }
    }
}
struct Walk { std::vector<std::pair<const void*, std::string>> blocks; std::vector<std::string> keys; };
static void walk_blk(void* cx, const void* p, const char* w) { ((Walk*) cx)->blocks.push_back({p, w}); }
static void walk_key(void* cx, tr_str k) { ((Walk*) cx)->keys.push_back(std::string(k.s, k.len)); }

static std::map<int, std::vector<uint32_t>> final_state;     // key -> columns
static uint64_t serial0;

static int final_scan_cb(void* cx, tr_str key, const tr_row* r) {
    auto* v = (std::vector<std::pair<std::string, std::vector<uint32_t>>>*) cx;
    std::vector<uint32_t> c;
    std::string k(key.s, key.len);
    for (int i = 0; i < r->ncol; ++i) c.push_back(parse_val(r->col[i], "final scan", k));
    v->push_back({k, c});
    return v->size() < 5000;
}
static void structure(const char* when, Walk& w) {
    tr_walk_out out;
    A->walk(T, &out, walk_blk, walk_key, &w);
    if (out.err[0]) fail("structure", "%s: %s", when, out.err);
    count("walk.leaves", out.leaves); count("walk.internodes", out.internodes); count("walk.layers", out.layers);
}
static void compare_all(const char* when, const std::map<std::string, std::vector<uint32_t>>& ref, Thread& t, Rng& r, bool light) {
    std::vector<std::string> rk; for (auto& x : ref) rk.push_back(x.first);
    int nscan = light ? 2 : 3 + (int) std::min<size_t>(keys.size(), 12);
    for (int i = 0; i < nscan; ++i) {
        for (int rev = 0; rev < 2; ++rev) {
            std::string first = i == 0 ? (rev ? std::string(255, '\xff') : std::string()) : keys[r.below(keys.size())];
            if (i > 2 && r.chance(0.4)) {     // a start key that is not in the pool
                int how = (int) r.below(3);
                if (how == 0 && !first.empty()) first.pop_back();
                else if (how == 1 && first.size() < 255) first.push_back((char) r.next());
                else if (!first.empty()) first[r.below(first.size())] ^= (char) (1 + r.below(255));
            }
            bool match = r.chance(0.6);
            std::vector<std::pair<std::string, std::vector<uint32_t>>> got;
            tr_scan_ctx cx; cx.ctx = &got; cx.value = final_scan_cb; cx.leaf = nullptr; static const int c3[] = {0, 1, 2}; cx.cols = c3; cx.ncols = str_rows ? 3 : 0;
            tr_rcu_start(t.ti);
            int n = A->scan(T, t.q, t.ti, rev, match, TS(first), &cx);
            tr_rcu_stop(t.ti);
            std::vector<std::string> exp;
            for (auto& k : rk) if (rev ? k < first : k > first) exp.push_back(k);
            if (match && ref.count(first)) { if (rev) exp.push_back(first); else exp.insert(exp.begin(), first); }
            if (rev) std::reverse(exp.begin(), exp.end());
            bool ok = (int) got.size() == n && got.size() == exp.size();
            for (size_t j = 0; ok && j < exp.size(); ++j) ok = got[j].first == exp[j] && got[j].second == ref.at(exp[j]);
            if (!ok) {
                std::string g, e;
                for (auto& x : got) g += " " + hex(x.first) + ids(x.second);
                for (auto& x : exp) e += " " + hex(x) + ids(ref.at(x));
                note_history("scan delivered:" + g + "\nexpected:" + e + "\n");
                fail("quiescent-scan", "%s: %s scan from %s (%s) delivered %zu keys, the map holds %zu there", when, rev ? "reverse" : "forward", hex(first).c_str(), match ? "inclusive" : "exclusive", got.size(), exp.size());
            }
        }
    }
}

static void drain(int rounds) {
    for (int i = 0; i < rounds; ++i) {
        tr_epoch_inc();
        for (auto& t : th) { tr_rcu_start(t.ti); tr_rcu_quiesce(t.ti); }
        for (auto& t : th) tr_rcu_stop(t.ti);
    }
}
static void free_queries() { for (auto& t : th) { if (t.q) tr_query_free(t.q); t.q = nullptr; } }
static void check_blocks(const char* when, bool expect_empty) {
    if (pool_reuse) return;
    free_queries();
    Walk w;
    if (T) structure(when, w);
    std::set<const void*> reach;
    if (T) reach.insert(T);
    for (auto& x : w.blocks) {
        if (!in_arena(x.first)) continue;
        reach.insert(x.first);
        if (x.second != "column" && !arena_size_of((void*) x.first)) fail("reclaimed-reachable", "%s: a reachable %s has been reclaimed", when, x.second.c_str());
        if (x.second == "column" && !arena_live(x.first)) fail("reclaimed-reachable", "%s: a reachable column has been reclaimed", when);
    }
    std::vector<Block> live; live_blocks(live);
    uint64_t leaked = 0, lb = 0; Block ex{};
    for (auto& b : live) {
        if (b.serial < serial0 || b.n == tr_limbo_size() || reach.count(b.p)) continue;
        bool inner = false;     // column blocks: reported by interior pointer
        if (!w.blocks.empty()) { auto it = reach.lower_bound(b.p); if (it != reach.end() && *it < (const char*) b.p + b.n) inner = true; }
        if (inner) continue;
        ++leaked; lb += b.n; ex = b;
    }
    if (leaked) fail("leak", "%s: %llu blocks (%llu bytes) are unreachable yet never reclaimed, e.g. one of %zu bytes (allocation %llu)", when, (unsigned long long) leaked, (unsigned long long) lb, ex.n, (unsigned long long) ex.serial);
    for (auto& t : th) t.q = tr_query_make();
    if (expect_empty && T) {
        tr_walk_out out; Walk w2;
        A->walk(T, &out, walk_blk, walk_key, &w2);
        if (out.keys || out.layers || out.leaves > 1 || out.internodes > 8)
            fail("residue", "%s: after removing every key %llu leaves, %llu internodes, %llu layers and %llu keys remain", when, (unsigned long long) out.leaves, (unsigned long long) out.internodes,
                 (unsigned long long) out.layers, (unsigned long long) out.keys);
    }
}

static void finale(void* arg) {
    const Plan& plan = *(const Plan*) arg;
    Rng r(plan_u(plan, "postseed", 1));
    Thread& t = th[0];
    // final reads belong to the history
    std::map<std::string, std::vector<uint32_t>> ref;
    for (size_t k = 0; k < keys.size(); ++k) {
        KOp o; o.kind = K_GET; o.tid = 99; o.what = "final read";
        tr_row row; memset(&row, 0, sizeof row);
        tr_rcu_start(t.ti);
        o.inv = ++evseq;
        int colarg[3] = {0, 1, 2};
        o.res = str_rows ? A->get(T, t.q, t.ti, 0, TS(keys[k]), colarg, 3, &row) : A->get(T, t.q, t.ti, (int) (k % 3 == 2 ? 2 : 0), TS(keys[k]), nullptr, 0, &row);
        std::vector<Col> cc; if (str_rows) for (int i = 0; i < 3; ++i) cc.push_back(Col{i, 0});
        if (o.res) take_row(o, row, cc, (int) k, "final read", nullptr);
        o.resp = ++evseq;
        tr_rcu_stop(t.ti);
        hist[k].push_back(o);
        if (o.res) ref[keys[k]] = o.got;
    }
    check_lin();
    if (want.count("phantom")) check_phantoms();
    if (want.count("quiescent")) {
        Walk w; structure("after the concurrent phase", w);
        std::vector<std::string> wk = w.keys; std::vector<std::string> rk; for (auto& x : ref) rk.push_back(x.first);
        if (wk != rk) { std::string a, b; for (auto& x : wk) a += " " + hex(x); for (auto& x : rk) b += " " + hex(x); note_history("walk:" + a + "\nlookups:" + b + "\n");
            fail("quiescent-walk", "the tree structurally holds %zu keys, lookups find %zu", wk.size(), rk.size()); }
        compare_all("after the concurrent phase", ref, t, r, false);
        // continue single threaded against a reference map
        int n = (int) plan_u(plan, "postops", 0); uint32_t id = 900000;
        for (int i = 0; i < n; ++i) {
            const std::string& k = keys[r.below(keys.size())];
            tr_rcu_start(t.ti);
            tr_times tm;
            if (r.chance(0.5)) {
                ++id; int len = str_rows ? 48 : 5 + (int) r.below(40); val_len[{id, 0}] = len;
                std::string v = make_val(id, 0, len);
                int res = A->replace(T, t.q, t.ti, TS(k), TS(v), &tm);
                if ((bool) res != !ref.count(k)) fail("quiescent-op", "single-threaded replace of %s reported %s", hex(k).c_str(), res ? "inserted" : "updated");
                ref[k] = {id};
            } else {
                int res = A->remove(T, t.q, t.ti, TS(k), &tm);
                if ((bool) res != (bool) ref.count(k)) fail("quiescent-op", "single-threaded remove of %s reported %s", hex(k).c_str(), res ? "removed" : "not found");
                ref.erase(k);
            }
            const std::string& k2 = keys[r.below(keys.size())];
            tr_row row; memset(&row, 0, sizeof row);
            int f = A->get(T, t.q, t.ti, 0, TS(k2), nullptr, 0, &row);
            if ((bool) f != (bool) ref.count(k2)) fail("quiescent-op", "single-threaded get of %s reported %s", hex(k2).c_str(), f ? "found" : "absent");
            tr_rcu_stop(t.ti);
            if (r.chance(0.1)) drain(2);
            if (i % 16 == 15) { Walk w2; structure("during single-threaded use", w2); }
        }
        if (n) compare_all("after single-threaded use", ref, t, r, true);
    }
    if (want.count("leak")) {
        drain(30 + (int) (stats.allocs / 30));
        check_blocks("after the concurrent phase", false);
        if (plan_u(plan, "removeall", 0)) {
            std::vector<int> order; for (size_t k = 0; k < keys.size(); ++k) order.push_back((int) k);
            int how = (int) plan_u(plan, "removeall", 0);
            std::sort(order.begin(), order.end(), [&](int a, int b) { return how == 2 ? keys[a] > keys[b] : keys[a] < keys[b]; });
            if (how == 3) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
            for (int k : order) { tr_times tm; tr_rcu_start(t.ti); A->remove(T, t.q, t.ti, TS(keys[k]), &tm); tr_rcu_stop(t.ti); }
            drain(60 + (int) (stats.allocs / 60));
            check_blocks("after removing every key", true);
        }
        if (plan_u(plan, "destroy", 0)) {
            std::vector<std::pair<const void*, std::string>> rows;
            Walk w; structure("before destroy", w);
            std::set<const void*> keep; for (auto& x : w.blocks) if (x.second == "row" || x.second == "column") keep.insert(x.first);
            A->table_destroy(T, t.ti);
            drain(20);
            free_queries();
            std::vector<Block> live; live_blocks(live);
            for (auto& b : live) {
                if (b.serial < serial0 || b.n == tr_limbo_size() || b.p == T) continue;
                auto it = keep.lower_bound(b.p);
                if (it != keep.end() && *it < (const char*) b.p + b.n) continue;       // destroying a tree leaves its rows to the caller
                fail("leak", "after destroying the tree a block of %zu bytes was never reclaimed (allocation %llu)", b.n, (unsigned long long) b.serial);
            }
            T = nullptr;
        }
    }
}

static void setup(void* arg) {
    const Plan& plan = *(const Plan*) arg;
    quiet_sched = true;
    for (auto& t : th) { t.q = tr_query_make(); }
    serial0 = alloc_serial();
    T = A->table_make(th[0].ti);
    Thread& t = th[0];
    std::vector<Held> held;
    int n = 0;
    for (auto& l : plan) {
        if (l.compare(0, 5, "init ") != 0 && l.compare(0, 6, "initk ") != 0) continue;
        auto f = split(l);
        TOp o = parse_op(f, 1, l);
        Thread x; x.id = t.id; x.ti = t.ti; x.q = t.q; x.ops.push_back(o);
        worker(&x);
        if (++n % 37 == 0) drain(1);
    }
    if (plan_u(plan, "initdrain", 1)) drain(4);
    quiet_sched = false;
}

static void execute(const Plan& plan) {
    setenv("_", "valgrind", 1);             // reclaimed nodes go back to malloc one by one
    pool_reuse = plan_u(plan, "pool", 0);
    if (pool_reuse) setenv("_", "x", 1);
    apply_sched(plan);
    step_ns = 1;
    int v = (int) plan_u(plan, "variant", 0);
    if (v >= tr_napis) internal_error("no such variant");
    A = tr_apis[v];
    str_rows = tr_col_width > 0;
    for (auto& w : split(plan_s(plan, "oracles", "lin"), ',')) want.insert(w);
    profile = plan_s(plan, "profile", "");
    int nt = (int) plan_u(plan, "threads", 1);
    for (int i = 0; i < nt; ++i) { Thread t; t.id = i; th.push_back(t); }
    for (auto& l : plan) {
        if (l.compare(0, 4, "key ") == 0) { keys.push_back(unhex(l.substr(4))); }
        else if (l.compare(0, 3, "op ") == 0) {
            auto f = split(l); unsigned tid = (unsigned) atoi(f[1].c_str());
            if (tid >= th.size()) internal_error("bad thread");
            TOp o = parse_op(f, 2, l); note_vals(o);
            th[tid].ops.push_back(o);
        } else if (l.compare(0, 5, "init ") == 0 || l.compare(0, 6, "initk ") == 0) note_vals(parse_op(split(l), 1, l));
    }
    for (size_t i = 0; i < keys.size(); ++i) { key_ix[keys[i]] = (int) i; sorted_ix.push_back((int) i); }
    std::sort(sorted_ix.begin(), sorted_ix.end(), [](int a, int b) { return keys[a] < keys[b]; });
    hist.resize(keys.size());
    single_threaded_run = nt == 1;
    if (plan_u(plan, "epoch0", 0)) tr_set_epoch(plan_u(plan, "epoch0", 1));
    for (auto& t : th) t.ti = tr_ti_make(1, t.id);
    epoch_period = plan_u(plan, "epochper", 500);
    spawn(setup, (void*) &plan, "setup", false, 512 << 10);
    run();
    uint64_t s0 = g_step;
    begin_chaos();
    interleaving_hash = 1469598103934665603ull;
    stats.switches = stats.preempts = 0;
    for (auto& t : th) { static char nm[16]; snprintf(nm, sizeof nm, "t%d", t.id); spawn(worker, &t, nm); }
    if (epoch_period) spawn(epoch_daemon, (void*) (uintptr_t) plan_u(plan, "epochseed", 7), "epoch", true);
    run();
    shared->steps = g_step - s0;
    shared->switches = stats.switches; shared->preempts = stats.preempts; shared->parks = stats.parks; shared->spins = stats.spins;
    shared->ihash = interleaving_hash;
    shared->simtime_ns = (g_step - s0) * step_ns;
    shared->nontrivial = nt > 1 ? stats.preempts > 0 : 1;
    // The finale runs in a fresh single fiber; daemons are gone.
    stop_daemons();
    quiet_sched = true;
    spawn(finale, (void*) &plan, "finale", false, 1 << 20);
    run();
    shared->allocs = stats.allocs;
    shared->hhash = hhash;
}

// ------------------------------------------------------------------ generation
static std::string rep(const std::string& s, size_t n) { std::string r; while (r.size() < n) r += s; r.resize(n); return r; }
static std::vector<std::string> gen_keys(Rng& r, int style, int n, int width) {
    std::set<std::string> s;
    std::string pre;
    int tries = 0;
    static const char al[] = {0, 1, 'a', 'b', (char) 0xff, (char) 0x80};
    std::string base = rep(std::string(1, al[r.below(6)]) + std::string(1, al[r.below(6)]) + "q", 255);
    for (auto& c : base) if (r.chance(0.2)) c = (char) r.next();
    int plen = 0;
    switch (style) {
    case 2: plen = 8 * r.range(1, 4); break;
    case 3: plen = r.range(8, 240); break;
    case 7: plen = 8 * r.range(0, 2); break;
    default: break;
    }
    int start = (int) r.below(1000);
    while ((int) s.size() < n && ++tries < n * 50) {
        std::string k;
        switch (style) {
        case 0: { int l = (int) r.below(10); for (int i = 0; i < l; ++i) k += al[r.below(6)]; break; }          // short, few symbols
        case 1: k = strf("%08d", start + (int) s.size()); break;                                               // sequential 8-byte
        case 2: { static const int ls[] = {0, 1, 7, 8, 9, 15, 16, 17, 24, 3}; int l = ls[r.below(10)]; k = base.substr(0, plen); for (int i = 0; i < l; ++i) k += r.chance(0.85) ? 'x' : al[r.below(6)]; break; }
        case 3: { k = base.substr(0, plen); int l = (int) r.below(256 - plen); if (l > 20 && r.chance(0.7)) l = (int) r.below(20); for (int i = 0; i < l; ++i) k += r.chance(0.7) ? 'm' : (char) r.next(); break; }
        case 4: { k = base.substr(0, r.chance(0.9) ? 8 : r.below(9)); int l = (int) r.below(7); if (k.size() == 8) for (int i = 0; i < l; ++i) k += al[r.below(4)]; break; }   // one slice, many lengths and suffixes
        case 5: k = std::string(r.below(26), '\0'); if (r.chance(0.2)) k += "\1"; break;                        // runs of zero bytes
        case 6: k = strf("%0*d", 10 + (int) r.below(2), (int) (start + (int) s.size() * (1 + (int) r.below(3)))); break;   // decimal, layered
        case 7: { k = base.substr(0, plen); uint64_t x = r.below(n * 2); for (int i = 0; i < 8; ++i) k += (char) (x >> (8 * (7 - i))); if (r.chance(0.3)) k += rep("suffix", 1 + r.below(30)); break; } // dense integers
        case 8: { int l = 1 + (int) r.below(3); for (int i = 0; i < l; ++i) k += (char) ('a' + r.below(26)); break; }
        default: { // same first slice shared by groups, suffixes of widely differing sizes
            k = base.substr(0, 7) + (char) ('a' + r.below(std::max(2, n / 4))); int l = r.chance(0.5) ? (int) r.below(12) : (int) r.below(200); for (int i = 0; i < l; ++i) k += (char) r.next(); break; }
        }
        if (k.size() > 255) k.resize(255);
        s.insert(k);
    }
    (void) width;
    std::vector<std::string> v(s.begin(), s.end());
    return v;
}

struct Gen {
    Rng r; Plan p; uint32_t id = 1; bool sr, partial = false; int nkeys;
    Gen(uint64_t s) : r(s) { sr = tr_col_width > 0; }
    int vlen() { if (sr) return 48; return r.chance(0.8) ? 5 + (int) r.below(24) : (int) r.logrange(5, 1500); }
    std::string cols_write() {
        if (sr && !partial) { int n = r.chance(0.4) ? 3 : 1 + (int) r.below(3); return n == 3 ? "0:16,1:16,2:16" : n == 2 ? "0:16,1:16" : "0:16"; }     // no gaps
        if (sr) { std::string s; int m = 1 + (int) r.below(7); for (int i = 0; i < 3; ++i) if (m & (1 << i)) s += strf("%s%d:16", s.empty() ? "" : ",", i); return s; }
        int n = r.chance(0.5) ? 1 : r.range(2, 4); std::set<int> c;
        while ((int) c.size() < n) c.insert((int) r.below(r.chance(0.9) ? 5 : 10));
        std::string s; for (int x : c) s += strf("%s%d:%d", s.empty() ? "" : ",", x, r.chance(0.7) ? 5 + (int) r.below(12) : (int) r.logrange(5, 400));
        return s;
    }
    std::string cols_read() {
        if (sr) return "0,1,2";
        if (r.chance(0.6)) return "-";
        int n = r.range(1, 4); std::string s;
        for (int i = 0; i < n; ++i) s += strf("%s%d", i ? "," : "", (int) r.below(6));
        return s;
    }
    std::string op_get(int k) { int fl = sr ? 0 : (int) r.below(3); return strf("get %d %d %s", k, fl, sr ? "0,1,2" : fl == 1 ? strf("%d", (int) r.below(3)).c_str() : cols_read().c_str()); }
    std::string op_put(int k) { if (sr && r.chance(0.2)) return strf("putw %d %u 0:16,1:16,2:16", k, id++); return strf("put %d %u %s", k, id++, cols_write().c_str()); }
    std::string op_rep(int k) { return sr ? op_put(k) : strf("rep %d %u %d", k, id++, vlen()); }
    std::string op_ins(int k) { return strf("ins %d %u %d", k, id++, vlen()); }
    std::string op_scan(int k, bool q) {
        int lim = r.chance(0.5) ? 0 : (int) r.logrange(1, 12);
        return strf("%s %d %d %d %d %s", q ? "scanq" : "scan", k, (int) r.below(2), (int) r.below(2), lim, sr ? "0,1,2" : cols_read().c_str());
    }
};

static bool removable_line(const std::string& l) {
    return l.compare(0, 3, "op ") == 0 || l.compare(0, 5, "init ") == 0;
}
static void simplify(const std::string& l, std::vector<std::string>& out) {
    if (l.compare(0, 9, "epochper ") == 0 && l != "epochper 0") out.push_back("epochper 0");
    if (l.compare(0, 8, "postops ") == 0 && l != "postops 0") { out.push_back("postops 0"); }
    if (l.compare(0, 10, "removeall ") == 0 && l != "removeall 0") out.push_back("removeall 0");
    if (l.compare(0, 8, "destroy ") == 0 && l != "destroy 0") out.push_back("destroy 0");
}

// A leaf must be able to hold every key of one layer that shares a key slice (up to ten: lengths 0..8 and "longer");
// narrower leaves than that are legal only for key sets that never need it.
static int slice_group_max(const std::vector<std::string>& ks) {
    std::map<std::string, std::set<int>> g;
    int m = 0;
    for (auto& k : ks)
        for (size_t off = 0; off <= k.size(); off += 8) {
            std::string s = k.substr(off, 8); int l = (int) std::min<size_t>(k.size() - off, 9); s.resize(8, '\0');
            auto& x = g[k.substr(0, off) + s + (char) (off / 8)]; x.insert(l); m = std::max(m, (int) x.size());
            if (l <= 8) break;
        }
    return m;
}

// As below, but within one generation of operations: all writers start while the old root is the root, and nobody
// but readers comes after them.
static void generate_rootrace(uint64_t seed, const std::string& prof, Plan& plan) {
    Gen g(mix(seed, 0xf11c));
    Rng& r = g.r; Plan& p = g.p;
    p.push_back("profile " + prof);
    p.push_back("variant 1");
    int nrem = r.range(2, 3), nt = nrem + 2;
    p.push_back(strf("threads %d", nt));
    p.push_back("pool 0");
    p.push_back(strf("epochper %d", (int) r.logrange(20, 300)));
    p.push_back(strf("epochseed %d", (int) r.below(1000000)));
    p.push_back(strf("postseed %d", (int) r.below(1000000)));
    p.push_back("oracles lin");
    int full = r.range(0, 3);                   // the leaf that stays full (or nearly) and is split
    int n = 16 + r.range(0, 1);
    std::vector<std::string> ks;
    std::string pre = r.chance(0.4) ? "LAYERONE" : "";
    for (int i = 0; i < n; ++i) ks.push_back(pre + strf("%08d", 1000 + 2 * i));
    std::string mid = pre + strf("%08d", 1000 + 2 * (4 * full + r.range(0, 2)) + 1);
    ks.push_back(mid); std::sort(ks.begin(), ks.end());
    int nk = (int) ks.size(), km = (int) (std::find(ks.begin(), ks.end(), mid) - ks.begin());
    auto leaf_of = [&](int k) { return std::min(3, (atoi(ks[k].c_str() + pre.size()) - 1000) / 8); };
    for (auto& k : ks) p.push_back("key " + hex(k));
    for (int k = 0; k < nk; ++k) if (k != km) p.push_back("init " + g.op_rep(k));
    std::map<int, int> left;
    for (int lf = 0; lf < 4; ++lf) if (lf != full) {
        std::vector<int> in; for (int k = 0; k < nk; ++k) if (k != km && leaf_of(k) == lf) in.push_back(k);
        size_t keep = r.below(in.size()); left[lf] = in[keep];
        for (size_t i = 0; i < in.size(); ++i) if (i != keep) p.push_back(strf("init rem %d", in[i]));
    }
    p.push_back(strf("op 0 ") + g.op_rep(km));
    int t = 1;
    for (auto& x : left) { if (x.first == 0 && left.size() > (size_t) nrem) continue; if (t <= nrem) p.push_back(strf("op %d rem %d", t++, x.second)); }
    for (int i = 0; i < 12; ++i) { p.push_back(strf("op %d pause %d", nt - 1, (int) r.logrange(50, 600))); p.push_back(strf("op %d ", nt - 1) + g.op_get((int) r.below(nk))); }
    for (int x = 0; x < nt - 1; ++x) { p.push_back(strf("op %d pause %d", x, (int) r.logrange(50, 3000))); p.push_back(strf("op %d quiesce 2", x)); p.push_back(strf("op %d pause 500", x)); p.push_back(strf("op %d ", x) + g.op_get((int) r.below(nk))); }
    SchedCfg c;
    randomize_sched(c, r, 700);
    if (r.chance(0.6)) { c.p_park = 0.3 + 0.6 * r.unit(); c.park_max = (uint32_t) r.logrange(50, 2000); }
    c.chaos_limit = 60000; c.hard_limit = c.chaos_limit + 3000000;
    plan_sched(p, c, r.next());
    plan = p;
}

// The root of a tree (or layer) splits and the old root is collapsed while other threads still hold it: through the
// table's root pointer, a cursor, or a pending layer collection.
static void generate_rootflip(uint64_t seed, const std::string& prof, Plan& plan) {
    Gen g(mix(seed, 0xf11b));
    Rng& r = g.r; Plan& p = g.p;
    p.push_back("profile " + prof);
    p.push_back("variant 1");
    int nt = r.range(3, 5);
    p.push_back(strf("threads %d", nt));
    p.push_back(strf("pool %d", r.chance(0.1)));
    p.push_back(strf("epochper %d", (int) r.logrange(20, 2000)));
    p.push_back(strf("epochseed %d", (int) r.below(1000000)));
    p.push_back(strf("postseed %d", (int) r.below(1000000)));
    p.push_back("oracles lin,quiescent" + std::string(prof == "T03" || prof == "T04" ? ",leak" : ""));
    p.push_back(strf("removeall %d", r.range(0, 3)));
    bool layer = r.chance(0.5);                 // a nested layer that is emptied along the way
    int n = r.range(10, 22), step = r.range(1, 2);
    std::vector<std::string> ks;
    for (int i = 0; i < n; ++i) ks.push_back(strf("%08d", 1000 + i * step));
    if (layer) { int at = r.range(0, n); for (int i = 0; i < 3; ++i) ks.push_back(strf("%08d", 1000 + at * step) + strf("x%d", i)); }
    std::sort(ks.begin(), ks.end());
    int nk = (int) ks.size();
    for (auto& k : ks) p.push_back("key " + hex(k));
    std::vector<int> order; for (int i = 0; i < nk; ++i) order.push_back(i);
    int oh = (int) r.below(3);
    if (oh == 1) std::reverse(order.begin(), order.end());
    if (oh == 2) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    double fr = 0.7 + 0.3 * r.unit(), rm = r.unit() * 0.7;
    std::vector<int> pres;
    for (int k : order) if (r.chance(fr)) { p.push_back("init " + g.op_rep(k)); pres.push_back(k); }
    for (int k : pres) if (r.chance(rm)) p.push_back(strf("init rem %d", k));
    int rounds = r.range(1, 3);
    for (int t = 0; t < nt; ++t) {
        bool idler = layer && t == 0;
        for (int q = 0; q < rounds; ++q) {
            if (idler) {                        // empties the layer, stays away, comes back
                for (int i = 0; i < nk; ++i) if (ks[i].size() > 8) p.push_back(strf("op %d rem %d", t, i));
                p.push_back(strf("op %d pause %d", t, (int) r.logrange(10, 20000)));
                p.push_back(strf("op %d quiesce %d", t, r.range(1, 4)));
                continue;
            }
            int m = r.range(1, 10), k0 = (int) r.below(nk), d = r.chance(0.5) ? 1 : -1;
            bool ins = r.chance(0.45);
            if (!ins && t == nt - 1 && r.chance(0.5)) { for (int i = 0; i < m; ++i) p.push_back(strf("op %d ", t) + g.op_get((int) r.below(nk))); continue; }
            for (int i = 0; i < m; ++i) {
                int k = ((k0 + d * i) % nk + nk) % nk;
                p.push_back(ins ? strf("op %d ", t) + g.op_rep(k) : strf("op %d rem %d", t, k));
            }
        }
    }
    SchedCfg c;
    uint64_t est = 2000 + 800 * nt * rounds;
    randomize_sched(c, r, est);
    if (r.chance(0.4)) { c.p_park = 0.3 + 0.6 * r.unit(); c.park_max = (uint32_t) r.logrange(200, 20000); }
    c.chaos_limit = est * 6 + 50000; c.hard_limit = c.chaos_limit + 3000000;
    plan_sched(p, c, r.next());
    plan = p;
}

// A chain of neighbouring leaves, some full and some about to become empty: splits, removals and separator moves of
// adjacent leaves run into each other, with threads suspended for long in the middle of them.
static void generate_edges(uint64_t seed, const std::string& prof, Plan& plan) {
    Gen g(mix(seed, 0xed6e));
    Rng& r = g.r; Plan& p = g.p;
    int variant = r.chance(0.85) ? 1 : 2, w = variant == 1 ? 4 : 7;
    p.push_back("profile " + prof);
    p.push_back(strf("variant %d", variant));
    int nt = r.range(2, 4);
    p.push_back(strf("threads %d", nt));
    p.push_back("pool 0");
    p.push_back(strf("epochper %d", (int) r.logrange(20, 3000)));
    p.push_back(strf("epochseed %d", (int) r.below(1000000)));
    p.push_back(strf("postseed %d", (int) r.below(1000000)));
    std::string orc = "lin,quiescent";
    if (prof == "T08") orc += ",ts";
    if (prof == "T04") orc += ",leak";
    if (prof == "T07") orc += ",phantom,own";
    p.push_back("oracles " + orc);
    p.push_back(strf("postops %d", r.range(10, 60)));
    p.push_back(strf("removeall %d", r.chance(0.7) ? r.range(1, 3) : 0));
    int nl = r.range(2, r.chance(0.3) ? 12 : 5);
    std::string pre = r.chance(0.3) ? "LAYERONE" : "";
    std::vector<std::string> ks; std::vector<int> leafkeys; std::vector<int> kind;
    for (int lf = 0; lf < nl; ++lf) {
        kind.push_back(r.below(3));
        for (int i = 0; i < w; ++i) { ks.push_back(pre + strf("%08d", 1000 + 2 * (lf * w + i))); ks.push_back(pre + strf("%08d", 1000 + 2 * (lf * w + i) + 1)); }
    }
    for (auto& k : ks) p.push_back("key " + hex(k));
    g.nkeys = (int) ks.size();
    auto even = [&](int lf, int i) { return 2 * (lf * w + i); };
    for (int lf = 0; lf < nl; ++lf) for (int i = 0; i < w; ++i) p.push_back("init " + g.op_rep(even(lf, i)));
    std::vector<int> live(nl, -1);
    for (int lf = 0; lf < nl; ++lf) if (kind[lf]) {
        int keep = r.below(w); live[lf] = even(lf, keep);
        int other = kind[lf] == 2 && r.chance(0.5) ? (int) r.below(w) : keep;
        for (int i = 0; i < w; ++i) if (i != keep && i != other) p.push_back(strf("init rem %d", even(lf, i)));
    }
    p.push_back(strf("initdrain %d", r.chance(0.6)));
    bool scans = prof == "T02" || prof == "T07" || r.chance(0.3);
    int focus = r.below(nl);
    for (int t = 0; t < nt; ++t) {
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            int lf = r.chance(0.75) ? std::min(nl - 1, std::max(0, focus + r.range(-1, 1))) : (int) r.below(nl);
            if (prof == "T07" && t == 0) { p.push_back(strf("op %d vscan %d %d 1 %d - %d", t, even(lf, 0), (int) r.below(2), r.chance(0.5) ? 0 : (int) r.logrange(1, 10), 0)); p.push_back(strf("op %d validate", t)); continue; }
            std::string o;
            double x = r.unit();
            if (scans && x < 0.35) o = g.op_scan(even(lf, r.below(w)), r.chance(0.3));
            else if (x < 0.45) o = g.op_get(even(lf, r.below(w)) + (int) r.below(2));
            else if (kind[lf] == 0) o = r.chance(0.85) ? g.op_rep(even(lf, r.below(w)) + 1) : strf("rem %d", even(lf, r.below(w)));
            else if (r.chance(0.8)) o = strf("rem %d", live[lf]);
            else o = g.op_rep(even(lf, r.below(w)) + (int) r.below(2));
            p.push_back(strf("op %d ", t) + o);
        }
    }
    SchedCfg c;
    randomize_sched(c, r, 300 * nt);
    if (r.chance(0.7)) { c.p_park = 0.3 + 0.6 * r.unit(); c.park_max = (uint32_t) r.logrange(100, 3000); }
    c.chaos_limit = 60000; c.hard_limit = c.chaos_limit + 3000000;
    plan_sched(p, c, r.next());
    plan = p;
}

static void generate(uint64_t seed, const std::string& prof, Plan& plan) {
    Gen g(seed);
    Rng& r = g.r;
    if (prof == "EDGES" || (prof != "T09" && !g.sr && r.chance(prof == "T05" || prof == "T06" ? 0.3 : 0.12))) { generate_edges(seed, prof == "EDGES" ? "T05" : prof, plan); return; }
    if (prof == "ROOTRACE" || (prof == "T03" && !g.sr && r.chance(0.06))) { generate_rootrace(seed, "T03", plan); return; }
    if (prof == "ROOTFLIP" || ((prof == "T03" || prof == "T04" || prof == "T01") && !g.sr && r.chance(0.12))) { generate_rootflip(seed, prof == "ROOTFLIP" ? "T03" : prof, plan); return; }
    bool scans = prof == "T02", mem = prof == "T03", leak = prof == "T04", quiet = prof == "T05", prog = prof == "T06", ph = prof == "T07", ts = prof == "T08", cols = prof == "T09";
    int variant = r.chance(0.45) ? 0 : r.chance(0.6) ? 1 : 2;
    static const int widths[] = {15, 4, 7};
    int w = widths[variant];
    int style = (int) r.below(10);
    int nt = r.range(2, r.chance(0.3) ? 5 : 3);
    if ((quiet && r.chance(0.25)) || (ph && r.chance(0.35)) || (leak && r.chance(0.3))) nt = 1;
    int big = (int) r.below(100);
    int nk = big < 35 ? r.range(1, 6) : big < 85 ? r.range(4, w * 3 + 4) : r.range(w, w * (variant == 0 ? 14 : 22));
    std::vector<std::string> ks = gen_keys(r, style, nk, w);
    if (r.chance(0.25)) {       // a second family next to the first
        auto k2 = gen_keys(r, (int) r.below(10), std::max(2, nk / 2), w);
        std::set<std::string> s(ks.begin(), ks.end()); s.insert(k2.begin(), k2.end()); ks.assign(s.begin(), s.end());
    }
    nk = (int) ks.size();
    g.nkeys = nk;
    int sg = slice_group_max(ks);
    if (variant == 1 && sg > 4) variant = 2;
    if (variant == 2 && sg > 7) variant = 0;
    Plan& p = g.p;
    p.push_back("profile " + prof);
    p.push_back(strf("variant %d", variant));
    p.push_back(strf("threads %d", nt));
    bool pool = !leak && r.chance(mem ? 0.1 : 0.3);
    p.push_back(strf("pool %d", pool));
    p.push_back(strf("epochper %d", (int) r.logrange(20, 6000)));
    p.push_back(strf("epochseed %d", (int) r.below(1000000)));
    if (r.chance(0.2)) p.push_back(strf("epoch0 %llu", (unsigned long long) (~0ull - 2 * r.below(20) )));
    p.push_back(strf("postseed %d", (int) r.below(1000000)));
    std::string orc = "lin";
    if (ts) orc += ",ts";
    if (quiet || leak || r.chance(0.3)) orc += ",quiescent";
    if (leak || mem) orc += ",leak";
    if (ph) orc += ",phantom,own";
    p.push_back("oracles " + orc);
    p.push_back(strf("postops %d", quiet ? (r.chance(0.5) ? r.range(10, 120) : 0) : (leak && r.chance(0.3)) ? 30 : 0));
    p.push_back(strf("removeall %d", leak || (mem && r.chance(0.3)) ? r.range(r.chance(0.2) ? 0 : 1, 3) : 0));
    p.push_back(strf("destroy %d", leak && r.chance(0.4)));
    p.push_back(strf("initdrain %d", r.chance(0.6)));
    for (auto& k : ks) p.push_back("key " + hex(k));
    // initial contents
    std::vector<int> order; for (int i = 0; i < nk; ++i) order.push_back(i);
    int oh = (int) r.below(3);
    if (oh == 1) std::reverse(order.begin(), order.end());
    if (oh == 2) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    double frac = r.chance(0.2) ? 0 : r.chance(0.3) ? 1 : r.unit();
    bool keepall = g.sr && r.chance(0.6);       // fixed-offset rows: only rows written whole once may be updated in part
    if (keepall) frac = 1;
    std::vector<int> present;
    for (int k : order) if (r.chance(frac)) {
        if (keepall) p.push_back(strf("initk put %d %u 0:16,1:16,2:16", k, g.id++));
        else p.push_back("init " + (cols ? g.op_put(k) : g.op_rep(k)));
        present.push_back(k);
    }
    if (!keepall && r.chance(0.4)) {
        double fr = r.chance(0.5) ? 0.9 : r.unit();
        for (int k : present) if (r.chance(fr)) p.push_back(strf("init rem %d", k));
        if (r.chance(0.3)) for (int k : present) if (r.chance(0.4)) p.push_back("init " + g.op_rep(k));
    }
    // hot keys: concentrated contention, usually neighbours
    std::vector<int> hot;
    int nh = std::min(nk, r.chance(0.5) ? r.range(1, 4) : r.range(2, 14));
    if (r.chance(0.7)) { int s0 = (int) r.below(nk); for (int i = 0; i < nh; ++i) hot.push_back((s0 + i) % nk); }
    else for (int i = 0; i < nh; ++i) hot.push_back((int) r.below(nk));
    double ph_hot = 0.5 + 0.5 * r.unit();
    auto pick = [&]() { return r.chance(ph_hot) ? hot[r.below(hot.size())] : (int) r.below(nk); };
    // operation mix
    double wg = r.unit(), wr = r.unit(), wp = r.unit() * 0.5, wx = r.unit(), wsc = r.unit() * 0.3, wi = 0;
    if (scans) wsc = 0.6 + r.unit();
    if (mem) wsc = 0.3 * r.unit();
    if (leak || quiet) { wx = 0.5 + r.unit(); wr = 0.5 + r.unit(); wg *= 0.3; }
    if (prog) wr += 0.4;
    if (ts) { wx = 0.4 + r.unit(); wg *= 0.5; }
    if (cols) { wp = 0.8 + r.unit(); wr *= 0.2; wx *= 0.3; wg += 0.5; }
    if (keepall) { wx = 0; g.partial = true; }
    double tot = wg + wr + wp + wx + wsc + wi;
    int nops = (int) r.logrange(4, r.chance(0.2) ? 120 : 40);
    bool removers = !keepall && r.chance(0.3);      // a phase in which one thread empties everything in order
    uint64_t est = 0;
    for (int t = 0; t < nt; ++t) {
        int n = std::max(1, nops / nt);
        if (ph && (t == 0 || r.chance(0.3))) {      // transaction: versions, pause, own inserts, validate
            int m = r.range(1, 3);
            for (int i = 0; i < m; ++i) {
                int nr = r.range(1, 2);
                for (int j = 0; j < nr; ++j) {
                    if (r.chance(0.35)) p.push_back(strf("op %d vget %d 0", t, pick()));
                    else { int lim = r.chance(0.5) ? 0 : (int) r.logrange(1, 10); int q = r.chance(0.3); p.push_back(strf("op %d vscan %d %d 1 %d - %d", t, pick(), q ? 0 : (int) r.below(2), lim, q)); }
                }
                if (r.chance(0.5)) { int ni = r.range(1, 5); for (int j = 0; j < ni; ++j) p.push_back(strf("op %d ", t) + g.op_ins(pick())); }
                if (r.chance(0.7)) p.push_back(strf("op %d pause %d", t, (int) r.logrange(1, 600)));
                p.push_back(strf("op %d validate", t));
            }
            est += 3000;
            if (t == 0 && nt == 1) { for (int i = 0; i < r.range(0, 10); ++i) p.push_back(strf("op %d ", t) + (r.chance(0.5) ? g.op_rep(pick()) : strf("rem %d", pick()))); }
            continue;
        }
        if (removers && t == 0) {
            std::vector<int> o2; for (int i = 0; i < nk; ++i) o2.push_back(i);
            if (r.chance(0.5)) std::reverse(o2.begin(), o2.end());
            int lim = 0;
            for (int k : o2) { if (++lim > 60) break; p.push_back(strf("op %d rem %d", t, k)); }
            est += 300 * std::min(nk, 60);
            continue;
        }
        for (int i = 0; i < n; ++i) {
            if (r.chance(0.06)) { p.push_back(strf("op %d hold %d", t, r.range(2, 6))); }
            if (r.chance(0.03)) { p.push_back(strf("op %d quiesce %d", t, r.range(1, 3))); }
            if (r.chance(0.03)) { p.push_back(strf("op %d pause %d", t, (int) r.logrange(1, 300))); }
            double x = r.unit() * tot; int k = pick(); std::string o;
            est += 250;
            if ((x -= wg) < 0) o = g.op_get(k);
            else if ((x -= wr) < 0) o = g.op_rep(k);
            else if ((x -= wp) < 0) o = g.op_put(k);
            else if ((x -= wx) < 0) o = strf("rem %d", k);
            else { o = g.op_scan(k, r.chance(0.3)); est += 60 * nk; }
            p.push_back(strf("op %d ", t) + o);
        }
    }
    SchedCfg c;
    randomize_sched(c, r, std::max<uint64_t>(est, 200));
    c.chaos_limit = est * 6 + 50000; c.hard_limit = c.chaos_limit + 3000000;
    plan_sched(p, c, r.next());
    plan = p;
}

int main(int argc, char** argv) {
    static Harness h = {"tree", generate, execute, removable_line, simplify, 20};
    return runner_main(argc, argv, h);
}
