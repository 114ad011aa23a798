// Deferred reclamation by itself: read sections, epochs, limbo lists, callbacks and the node pools.
// Real code: threadinfo (kvthread.hh, kvthread.cc).  The tree is not involved.
#include "runner.h"
#include "ops.h"
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <map>
#include <set>
#include <list>
using namespace sim;

enum Kind { VAL, POOL, CB, CHAIN };
static const char* kind_name[] = {"value", "pooled block", "callback", "callback that defers more"};
struct Item {
    uint64_t id; Kind kind; int owner; void* p = nullptr; size_t n = 0; int depth = 0;
    bool retired = false, done = false;
    std::vector<std::pair<int, uint64_t>> sections;     // read sections active when it was handed over
};
struct Held { Item* it; char* p; uint64_t magic; };
struct Th { int id; void* ti; uint64_t sect = 0; std::vector<std::vector<std::string>> ops; std::vector<Held> held; };
static std::vector<Th> th;
static std::list<Item> items;
static std::vector<Item*> slots;
static std::map<char*, Item*> owned;        // pool blocks currently handed out (pool mode)
static uint64_t next_id = 1, next_sect = 1, pending, hhash = 1469598103934665603ull;
static void hh(uint64_t x) { hhash = mix(hhash, x); }

static bool section_active(const std::pair<int, uint64_t>& s) { return th[s.first].sect == s.second; }
static std::string sections_text(const Item& it) { std::string s; for (auto& x : it.sections) if (section_active(x)) s += strf(" thread %d", x.first); return s; }
static bool any_active(const Item& it) { for (auto& x : it.sections) if (section_active(x)) return true; return false; }
static void claim(Item* it) {               // a block was handed out: nobody else may own it or still be able to read it
    char* lo = (char*) it->p; char* hi = lo + it->n;
    auto i = owned.lower_bound(lo);
    if (i != owned.begin()) { auto j = std::prev(i); if (j->first + j->second->n > lo) i = j; }
    while (i != owned.end() && i->first < hi) {
        Item* o = i->second;
        if (!o->retired) fail("handed-out-twice", "the allocator handed out block %llu (%zu bytes) overlapping live block %llu (%zu bytes)", (unsigned long long) it->id, it->n, (unsigned long long) o->id, o->n);
        if (any_active(*o)) fail("reused-too-early", "block %llu was handed out again as %llu while read sections active at its retirement are still open:%s", (unsigned long long) o->id, (unsigned long long) it->id, sections_text(*o).c_str());
        if (!o->done) { o->done = true; --pending; }
        i = owned.erase(i);
    }
    owned[lo] = it;
}
static Item* make_item(Th& t, Kind k, size_t n) {
    items.push_back(Item()); Item* it = &items.back();
    it->id = next_id++; it->kind = k; it->owner = t.id; it->n = n < 16 ? 16 : n;
    if (k == VAL) it->p = tr_rcu_alloc(t.ti, it->n);
    else it->p = tr_pool_alloc(t.ti, it->n);
    if (!it->p) internal_error("allocation failed");
    if (k != VAL && pool_reuse && ((uintptr_t) it->p & 63)) fail("misaligned", "pool block of %zu bytes at %p is not cache-line aligned", it->n, it->p);
    check_mem(it->p, it->n, true, nullptr);
    if (k != VAL && pool_reuse) claim(it);
    memset(it->p, 0x5a, it->n);
    uint64_t m = it->id * 0x9E3779B97F4A7C15ull; memcpy((char*) it->p + 8, &m, 8);
    return it;
}
static void on_callback(void* arg, void* ti);
static void retire(Th& t, Item* it) {
    it->retired = true; 
    ++pending;
    for (auto& x : th) if (x.sect) it->sections.push_back({x.id, x.sect});
    hh(it->id);
    count(strf("retired: %s", kind_name[it->kind]).c_str());
    switch (it->kind) {
    case VAL: tr_rcu_free(t.ti, it->p, it->n); break;
    case POOL: tr_pool_free_rcu(t.ti, it->p, it->n); break;
    default: tr_rcu_register(t.ti, on_callback, it);
    }
}
static void check_items(const char* when) {     // nothing whose grace period is still running has been processed
    for (auto& it : items) {
        if (!it.retired || it.done) continue;
        if ((it.kind == VAL || it.kind == POOL) && !pool_reuse) {
            if (!arena_live(it.p)) {
                if (any_active(it)) fail("freed-too-early", "%s %llu freed while read sections active at its retirement are still open:%s (%s)", kind_name[it.kind], (unsigned long long) it.id, sections_text(it).c_str(), when);
                it.done = true; --pending;
            }
        }
    }
}
static void on_callback(void* arg, void* ti) {
    Item* it = (Item*) arg;
    point();
    if (it->done) fail("callback-twice", "callback %llu ran twice", (unsigned long long) it->id);
    if (any_active(*it)) fail("callback-too-early", "callback %llu ran while read sections active at its registration are still open:%s", (unsigned long long) it->id, sections_text(*it).c_str());
    if (th[it->owner].ti != ti) fail("callback-wrong-thread", "callback %llu ran with another thread's state", (unsigned long long) it->id);
    it->done = true; --pending;
    hh(~it->id);
    count("callbacks run");
    Th& t = th[it->owner];
    if (it->kind == CHAIN) {
        // what a callback does: free its own block at once, defer others
        if (it->depth > 0) {
            int m = 1 + (int) (it->id % 3 == 0);
            for (int i = 0; i < m; ++i) { Item* nx = make_item(t, CHAIN, 64); nx->depth = it->depth - 1; retire(t, nx); }
        }
        if (it->id % 2) retire(t, make_item(t, it->id % 4 == 1 ? VAL : POOL, 16 + it->id % 100));
    }
    if (it->p) {
        if (pool_reuse) owned.erase((char*) it->p);
        void* p = it->p; it->p = nullptr;
        tr_pool_free(t.ti, p, it->n);
    }
}
static void check_held(Th& t) {
    for (auto& h : t.held) {
        uint64_t m = tr_touch(h.p + 8);         // the simulator reports reads of freed memory
        if (m != h.magic) fail("changed-under-reader", "block %llu changed while thread %d still reads it", (unsigned long long) h.it->id, t.id);
    }
}
static void end_section(Th& t) { if (t.sect) { check_held(t); check_items("at the end of a section"); t.held.clear(); t.sect = 0; } }
static void do_op(Th& t, const std::vector<std::string>& f) {
    const std::string& k = f[2];
    auto arg = [&](size_t i) { return f.size() > 3 + i ? atoi(f[3 + i].c_str()) : 0; };
    if (k == "enter") { if (!t.sect) { tr_rcu_start(t.ti); t.sect = next_sect++; } }
    else if (k == "leave") { if (t.sect) { end_section(t); tr_rcu_stop(t.ti); } }
    else if (k == "refresh") { if (t.sect) { end_section(t); tr_rcu_quiesce(t.ti); t.sect = next_sect++; } }
    else if (k == "quiesce") { end_section(t); for (int i = 0; i < arg(0); ++i) { tr_rcu_quiesce(t.ti); tr_rcu_stop(t.ti); } }
    else if (k == "pause") { block_until(now_ns + arg(0)); }
    else if (k == "read") {
        if (!t.sect) { tr_rcu_start(t.ti); t.sect = next_sect++; }
        point();
        Item* it = slots[arg(0) % slots.size()];
        if (it) { Held h{it, (char*) it->p, it->id * 0x9E3779B97F4A7C15ull}; t.held.push_back(h); hh(it->id * 7); check_held(t); }
    } else if (k == "recheck") { check_held(t); }
    else if (k == "swap") {
        bool in = t.sect != 0;
        if (!in) { tr_rcu_start(t.ti); t.sect = next_sect++; }
        Item* it = make_item(t, (Kind) arg(1), arg(2)); it->depth = arg(3);
        point();
        Item* old = slots[arg(0) % slots.size()]; slots[arg(0) % slots.size()] = it;
        point();
        if (old) { old->owner = t.id; retire(t, old); }
        if (!in) { end_section(t); tr_rcu_stop(t.ti); }
    } else if (k == "burst") {
        bool in = t.sect != 0;
        if (!in) { tr_rcu_start(t.ti); t.sect = next_sect++; }
        for (int i = 0; i < arg(0); ++i) { Item* it = make_item(t, (Kind) arg(1), arg(2)); it->depth = arg(3); retire(t, it); }
        if (!in) { end_section(t); tr_rcu_stop(t.ti); }
    } else internal_error("unknown op %s", k.c_str());
}
static void worker(void* a) {
    Th& t = *(Th*) a;
    for (auto& f : t.ops) { do_op(t, f); ++shared->ops; }
    if (t.sect) { end_section(t); tr_rcu_stop(t.ti); }
}
static uint64_t epoch_period;
static void epoch_daemon(void* a) {
    Rng r((uint64_t) (uintptr_t) a);
    while (true) { block_until(now_ns + 1 + r.below(2 * epoch_period)); tr_epoch_inc(); count("epochs"); }
}
static void finale(void*) {
    // Each owner in turn keeps declaring quiescence while the epoch advances and nobody else does anything: a bounded
    // number of epochs, with as many declarations in each as the backlog has batches, settles everything.
    for (auto& s : slots) if (s) { s->owner = 0; retire(th[0], s); s = nullptr; }
    uint64_t left = 0, maxdepth = 0;
    for (auto& it : items) if (it.retired && !it.done) { left += 1 + (it.kind == CHAIN ? 3u << it.depth : 0); if (it.kind == CHAIN) maxdepth = std::max<uint64_t>(maxdepth, it.depth + 1); }
    uint64_t epochs = 5 + 3 * maxdepth, per = 3 + left / 64, rounds = epochs;
    for (auto& t : th)
        for (uint64_t e = 0; e < epochs; ++e) {
            tr_epoch_inc();
            for (uint64_t i = 0; i < per; ++i) { tr_rcu_start(t.ti); tr_rcu_stop(t.ti); }
        }
    check_items("at the end");
    for (auto& it : items) if (it.retired && !it.done && !(pool_reuse && (it.kind == POOL || it.kind == VAL)))
        fail("never-processed", "%s %llu handed over by thread %d is still pending after %llu epochs in which every thread declared quiescence", kind_name[it.kind], (unsigned long long) it.id, it.owner, (unsigned long long) rounds);
}
static void execute(const Plan& plan) {
    setenv("_", "valgrind", 1);
    pool_reuse = plan_u(plan, "pool", 0);
    if (pool_reuse) setenv("_", "x", 1);
    apply_sched(plan);
    step_ns = 1;
    int nt = (int) plan_u(plan, "threads", 1);
    for (int i = 0; i < nt; ++i) { Th t; t.id = i; th.push_back(t); }
    slots.resize(plan_u(plan, "slots", 4));
    for (auto& l : plan) if (l.compare(0, 3, "op ") == 0) { auto f = split(l); th[atoi(f[1].c_str()) % nt].ops.push_back(f); }
    if (plan_u(plan, "epoch0", 0)) tr_set_epoch(plan_u(plan, "epoch0", 1));
    for (auto& t : th) t.ti = tr_ti_make(1, t.id);
    epoch_period = plan_u(plan, "epochper", 500);
    begin_chaos();
    for (auto& t : th) { static char nm[16]; snprintf(nm, sizeof nm, "t%d", t.id); spawn(worker, &t, nm); }
    spawn(epoch_daemon, (void*) (uintptr_t) plan_u(plan, "epochseed", 7), "epoch", true);
    run();
    shared->steps = g_step; shared->switches = stats.switches; shared->preempts = stats.preempts; shared->parks = stats.parks; shared->spins = stats.spins;
    shared->ihash = interleaving_hash;
    shared->simtime_ns = now_ns - start_ns;
    shared->nontrivial = nt > 1 ? stats.preempts > 0 : 1;
    stop_daemons();
    quiet_sched = true;
    spawn(finale, nullptr, "finale", false, 1 << 20);
    run();
    shared->allocs = stats.allocs;
    shared->hhash = hhash;
}
static void generate(uint64_t seed, const std::string& prof, Plan& p) {
    Rng r(seed);
    int nt = r.range(1, 5), ns = r.range(1, 6);
    p.push_back("profile " + prof);
    p.push_back(strf("threads %d", nt));
    p.push_back(strf("slots %d", ns));
    p.push_back(strf("pool %d", r.chance(0.3)));
    int per = (int) r.logrange(10, 4000);
    p.push_back(strf("epochper %d", per));
    p.push_back(strf("epochseed %d", (int) r.below(1000000)));
    if (r.chance(0.3)) p.push_back(strf("epoch0 %llu", (unsigned long long) (~0ull - 2 * r.below(20))));
    else if (r.chance(0.2)) p.push_back(strf("epoch0 %llu", (unsigned long long) ((1ull << 63) - 1 - 2 * r.below(20))));
    bool big = r.chance(0.15);                  // backlogs across many batches and limbo groups
    int n = (int) r.logrange(4, 60);
    double ws = r.unit(), wr = r.unit(), wb = r.unit() * 0.4, we = r.unit(), wq = r.unit() * 0.5;
    uint64_t est = 0;
    for (int i = 0; i < n; ++i) {
        int t = (int) r.below(nt);
        double x = r.unit() * (ws + wr + wb + we + wq);
        static const int sizes[] = {16, 40, 64, 100, 128, 200, 256, 320, 512, 768, 1000, 1280};
        int size = sizes[r.below(12)];
        int depth = (int) r.logrange(1, 8) - 1;
        if ((x -= ws) < 0) { p.push_back(strf("op %d swap %d %d %d %d", t, (int) r.below(ns), (int) r.below(4), size, depth)); est += 60; }
        else if ((x -= wr) < 0) { p.push_back(strf("op %d read %d", t, (int) r.below(ns))); est += 20; }
        else if ((x -= wb) < 0) {
            int c = big ? (int) r.logrange(50, 3000) : (int) r.logrange(1, 150);
            if (big && r.chance(0.3)) c = 127 + r.range(-2, 3);     // around one batch
            p.push_back(strf("op %d burst %d %d %d %d", t, c, (int) r.below(4), r.chance(0.7) ? 64 : size, c > 200 ? 0 : std::min(depth, 3))); est += 40 * c;
        }
        else if ((x -= we) < 0) { p.push_back(strf("op %d %s", t, r.chance(0.5) ? "enter" : r.chance(0.5) ? "leave" : r.chance(0.5) ? "refresh" : "recheck")); est += 10; }
        else if (r.chance(0.5)) { p.push_back(strf("op %d quiesce %d", t, r.range(1, 8))); est += 100; }
        else p.push_back(strf("op %d pause %d", t, (int) r.logrange(1, 4 * per)));
    }
    SchedCfg c;
    randomize_sched(c, r, std::max<uint64_t>(est, 100));
    c.chaos_limit = est * 6 + 50000; c.hard_limit = c.chaos_limit + 20000000;
    plan_sched(p, c, r.next());
}
static bool removable(const std::string& l) { return l.compare(0, 3, "op ") == 0; }
static void simplify(const std::string& l, std::vector<std::string>& out) {
    auto f = split(l);
    if (f.size() > 3 && f[0] == "op" && f[2] == "burst") { int n = atoi(f[3].c_str()); if (n > 1) for (int m : {1, n / 2, n - 1}) { auto g = f; g[3] = std::to_string(m); std::string s; for (auto& x : g) s += (s.empty() ? "" : " ") + x; out.push_back(s); } }
    if (f.size() > 3 && f[0] == "op" && (f[2] == "pause" || f[2] == "quiesce")) { int n = atoi(f[3].c_str()); if (n > 1) out.push_back(f[0] + " " + f[1] + " " + f[2] + strf(" %d", n / 2)); }
}
int main(int argc, char** argv) {
    static Harness h = {"rcu", generate, execute, removable, simplify, 20};
    return runner_main(argc, argv, h);
}
