// Per-key linearizability by just-in-time configuration sets: exact, complete for the recorded history.
#ifndef LIN_H
#define LIN_H 1
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
struct KState {
    bool present = false;
    std::vector<uint32_t> cols;     // value id per column, 0 = empty
    uint64_t ts = 0;                // timestamp of the last effective write
    bool operator<(const KState& o) const {
        if (present != o.present) return present < o.present;
        if (cols != o.cols) return cols < o.cols;
        return ts < o.ts;
    }
};
enum KKind { K_GET, K_PUT, K_REPLACE, K_REMOVE, K_INSERT };
struct KOp {
    KKind kind;
    int tid;
    uint64_t inv, resp;             // event sequence numbers; resp = ~0: never returned (may or may not have happened)
    bool res = false;               // found / inserted / removed
    std::vector<int> cols;          // columns read (empty: all) or written
    uint32_t id = 0;                // value written
    std::vector<uint32_t> got;      // value ids read
    uint64_t ts = 0, prev_ts = 0;
    bool has_ts = false;
    bool any_res = false;   // executed an unknown number of times: the result says nothing
    bool all_ncol = false;          // the read delivered every column (count is meaningful)
    std::string what;
};
struct LinChecker {
    bool use_ts = false;
    // Applies op to s; returns false if the op's recorded result is impossible in s.
    bool apply(const KOp& o, KState& s) const {
        switch (o.kind) {
        case K_GET:
            if (o.res != s.present) return false;
            if (!o.res) return true;
            if (use_ts && o.has_ts && o.ts != s.ts) return false;
            if (o.cols.empty()) {
                if (!o.all_ncol) return true;
                return o.got == s.cols;
            }
            for (size_t i = 0; i < o.cols.size(); ++i) {
                size_t c = o.cols[i] < 0 ? 0 : o.cols[i];
                uint32_t v = c < s.cols.size() ? s.cols[c] : 0;
                if (i >= o.got.size() || o.got[i] != v) return false;
            }
            return true;
        case K_PUT: case K_REPLACE: {
            bool ins = !s.present;
            if (o.resp != ~0ull) {
                if (o.res != ins && !o.any_res) return false;
                if (use_ts && o.has_ts) {
                    if (o.ts <= s.ts && s.ts) return false;
                    if (!ins && o.prev_ts != s.ts) return false;
                }
            }
            if (ins || o.kind == K_REPLACE) s.cols.clear();
            s.present = true;
            if (o.kind == K_REPLACE) s.cols.assign(1, o.id);
            else
                for (int c : o.cols) { if ((int) s.cols.size() <= c) s.cols.resize(c + 1, 0); s.cols[c] = o.id; }
            if (use_ts && o.has_ts) s.ts = o.ts;
            return true;
        }
        case K_INSERT:
            if (o.res != !s.present) return false;
            if (o.res) { s.present = true; s.cols.assign(1, o.id); if (use_ts && o.has_ts) s.ts = o.ts; }
            return true;
        case K_REMOVE:
            if (o.resp != ~0ull && o.res != s.present && !o.any_res) return false;
            if (s.present) {
                if (use_ts && o.has_ts && o.resp != ~0ull) {
                    if (o.ts <= s.ts || o.prev_ts != s.ts) return false;
                    s.ts = o.ts;
                }
                s.present = false; s.cols.clear();
            }
            return true;
        }
        return false;
    }
    struct Config { KState s; uint64_t mask; bool operator<(const Config& o) const { if (mask != o.mask) return mask < o.mask; return s < o.s; } };
    size_t max_configs = 20000;
    bool overflow = false;
    std::set<KState> finals;
    // Returns index of the op whose response cannot be explained, or -1 if the history is linearizable.
    int check(const KState& init, const std::vector<KOp>& ops) {
        struct Ev { uint64_t t; bool resp; int op; };
        std::vector<Ev> ev;
        for (size_t i = 0; i < ops.size(); ++i) {
            ev.push_back(Ev{ops[i].inv, false, (int) i});
            if (ops[i].resp != ~0ull) ev.push_back(Ev{ops[i].resp, true, (int) i});
        }
        std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { if (a.t != b.t) return a.t < b.t; if (a.resp != b.resp) return a.resp < b.resp; return a.op < b.op; });
        std::set<Config> cur; cur.insert(Config{init, 0});
        std::vector<int> slot(ops.size(), -1); int pend[64]; for (int i = 0; i < 64; ++i) pend[i] = -1;
        for (auto& e : ev) {
            if (!e.resp) {
                int k = 0; while (k < 64 && pend[k] >= 0) ++k;
                if (k == 64) { overflow = true; return -1; }
                pend[k] = e.op; slot[e.op] = k;
            } else {
                int k = slot[e.op];
                std::set<Config> out;
                std::vector<Config> work(cur.begin(), cur.end());
                std::set<Config> seen(cur);
                while (!work.empty()) {
                    Config c = work.back(); work.pop_back();
                    if (c.mask & (1ull << k)) { Config d = c; d.mask &= ~(1ull << k); out.insert(d); continue; }
                    // linearize any pending op (the responding one or another one first)
                    for (int j = 0; j < 64; ++j) {
                        if (pend[j] < 0 || (c.mask & (1ull << j))) continue;
                        Config d = c;
                        if (!apply(ops[pend[j]], d.s)) continue;
                        d.mask |= 1ull << j;
                        if (seen.size() > max_configs) { overflow = true; return -1; }
                        if (seen.insert(d).second) work.push_back(d);
                    }
                }
                pend[k] = -1;
                if (out.empty()) return e.op;
                cur.swap(out);
            }
        }
        finals.clear();
        // pending (never returned) ops may or may not take effect
        std::vector<Config> work(cur.begin(), cur.end()); std::set<Config> seen(cur);
        while (!work.empty()) {
            Config c = work.back(); work.pop_back();
            finals.insert(c.s);
            for (int j = 0; j < 64; ++j) {
                if (pend[j] < 0 || (c.mask & (1ull << j))) continue;
                Config d = c;
                if (!apply(ops[pend[j]], d.s)) continue;
                d.mask |= 1ull << j;
                if (seen.size() > max_configs) { overflow = true; return -1; }
                if (seen.insert(d).second) work.push_back(d);
            }
        }
        return -1;
    }
};
#endif
