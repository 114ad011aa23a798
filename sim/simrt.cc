// See simrt.h.  This file is compiled without instrumentation.
#include "simrt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
#include <errno.h>
#include <sys/mman.h>
#include <time.h>
#include <algorithm>
#include <map>
#include <new>

extern "C" void sim_switch(void** from_sp, void* to_sp);
asm(R"(
.text
.p2align 4
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch, .-sim_switch
)");

namespace sim {

// ------------------------------------------------------------------ misc
uint64_t hash64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t Rng::logrange(uint64_t lo, uint64_t hi) {
    double a = log((double) lo), b = log((double) hi + 1);
    uint64_t x = (uint64_t) exp(a + unit() * (b - a));
    return std::min(std::max(x, lo), hi);
}
uint64_t Rng::geometric(double p) {
    if (p <= 0) return ~0ull >> 1;
    if (p >= 1) return 1;
    double u = unit();
    if (u <= 0) u = 1e-18;
    double g = log(u) / log1p(-p);
    return g > 1e15 ? (uint64_t) 1e15 : (uint64_t) g + 1;
}
uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* s = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 1099511628211ull;
    return h;
}
std::string hex(const void* p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    const unsigned char* s = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) { r += d[s[i] >> 4]; r += d[s[i] & 15]; }
    return r.empty() ? "-" : r;
}
std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
std::string unhex(const std::string& s) {
    std::string r;
    if (s == "-") return r;
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char) (v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
std::string strf(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char buf[8192];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}
double wall() {
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ outcome
static Outcome local_outcome;
Outcome* outcome = &local_outcome;
void (*on_fail)();
bool (*on_abort)(const char*);
static bool failing;

[[noreturn]] static void die(int code, const char* cls, const char* fmt, va_list ap) {
    if (!failing) {
        failing = true;
        outcome->failed = code;
        snprintf(outcome->cls, sizeof outcome->cls, "%s", cls);
        vsnprintf(outcome->msg, sizeof outcome->msg, fmt, ap);
        if (on_fail) on_fail();
    }
    _exit(code == 1 ? 3 : 4);
}
void fail(const char* cls, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    die(1, cls, fmt, ap);
}
void internal_error(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    die(2, "internal", fmt, ap);
}

// ------------------------------------------------------------------ fibers
enum { MAXF = 96 };
enum State { FREE, RUNNABLE, BLOCKED, DONE };
struct Fiber {
    State st;
    bool daemon, spinning, stallable;
    void* sp;
    char* stk_lo; char* stk_hi;
    void (*fn)(void*); void* arg;
    char name[24];
    uint64_t lstep, last_spin;
    uint64_t park_until;
    uint64_t deadline;      // for BLOCKED: ns, ~0 = none
    uint64_t prio;
    bool reader;            // inside a read-only operation
    size_t rp;              // replay cursor
    std::vector<Decision> plan;
};
static Fiber F[MAXF];
static int nf, cur = -1;
static void* main_sp;
static bool running, stop_req;
static SchedCfg C;
static Rng R(1);
static bool replaying, fair;
static uint64_t seed_;
Stats stats;
uint64_t g_step, next_event, interleaving_hash;
static uint64_t next_random, fair_next, idle_spins, idle_since, rbw_spins;
static std::vector<uint64_t> planned; static size_t planned_pos;
static uint64_t stall_at = ~0ull; static int stall_fiber;
bool quiet_sched;
uint64_t max_slice; uint32_t fiber_base; static uint64_t slice_end, solo_slices;
std::vector<Decision> trace;
uint64_t now_ns = 1700000000ull * 1000000000ull, step_ns = 0;
static uint64_t last_step_sync;
struct Ev { uint64_t t; uint64_t seq; void (*fn)(void*); void* arg; };
static std::vector<Ev> events; static uint64_t ev_seq;
static bool in_event;
static const void* site_pc;

static uint32_t site_threshold;    // 32-bit hash below this => preferred site
static inline bool site_hit(const void* pc) {
    uint32_t h = (uint32_t) (((uint64_t) (uintptr_t) pc ^ C.site_salt) * 0x9E3779B97F4A7C15ull >> 32);
    return h < site_threshold;
}

void init(uint64_t seed, const SchedCfg& c) {
    C = c; R = Rng(mix(seed, 0x5ced)); seed_ = seed;
    nf = 0; cur = -1; g_step = 0; fair = false; replaying = false;
    trace.clear(); events.clear(); planned.clear(); planned_pos = 0; stall_at = ~0ull;
    interleaving_hash = 1469598103934665603ull; idle_spins = idle_since = rbw_spins = 0; last_step_sync = 0;
    memset(&stats, 0, sizeof stats);
    site_threshold = C.site_mod > 0 ? (uint32_t) (0xffffffffu / (uint32_t) C.site_mod) : 0;
    for (int i = 0; i < C.npoints; ++i) planned.push_back(1 + R.below(C.est_steps));
    std::sort(planned.begin(), planned.end());
    next_random = C.p_access > 0 ? R.geometric(C.p_access) : ~0ull;
    next_event = 0;
}
void set_replay(const std::vector<Decision>& d) {
    replaying = true;
    for (int i = 0; i < MAXF; ++i) { F[i].plan.clear(); F[i].rp = 0; }
    for (auto x : d)
        if (x.f >= fiber_base && x.f - fiber_base < MAXF) { x.f -= fiber_base; x.t -= fiber_base; F[x.f].plan.push_back(x); }
    for (int i = 0; i < MAXF; ++i)
        std::stable_sort(F[i].plan.begin(), F[i].plan.end(), [](const Decision& a, const Decision& b) { return a.p < b.p; });
    site_threshold = 0; next_random = ~0ull; planned.clear();
}
int self() { return cur; }
bool in_fiber() { return cur >= 0; }
const char* fiber_name(int i) { return i >= 0 && i < nf ? F[i].name : "main"; }
void set_reader(bool on) { if (cur >= 0) F[cur].reader = on; }
bool fiber_done(int i) { return F[i].st == DONE; }
bool is_fair() { return fair; }
void go_fair() { fair = true; fair_next = g_step + 61; for (int i = 0; i < nf; ++i) F[i].park_until = 0; next_event = g_step; }
void begin_chaos() {
    quiet_sched = false; fair = false;
    planned_pos = 0;
    for (auto& x : planned) x += g_step;
    if (next_random != ~0ull) next_random += g_step;
    C.chaos_limit += g_step; C.hard_limit += g_step;
    next_event = g_step;
}
void at_time(uint64_t t, void (*fn)(void*), void* arg) {
    events.push_back(Ev{t, ev_seq++, fn, arg});
}
static void sync_time() {
    now_ns += (g_step - last_step_sync) * step_ns;
    last_step_sync = g_step;
}
static void run_due_events() {
    if (in_event) return;
    sync_time();
    while (true) {
        size_t best = ~size_t(0);
        for (size_t i = 0; i < events.size(); ++i)
            if (events[i].t <= now_ns && (best == ~size_t(0) || events[i].t < events[best].t
                || (events[i].t == events[best].t && events[i].seq < events[best].seq)))
                best = i;
        if (best == ~size_t(0)) break;
        Ev e = events[best];
        events.erase(events.begin() + best);
        in_event = true; e.fn(e.arg); in_event = false;
    }
}

static char* stk_base; static size_t stk_used, stk_total;
static void fiber_entry();
extern "C" void sim_fiber_boot();
asm(R"(
.text
.globl sim_fiber_boot
.type sim_fiber_boot,@function
sim_fiber_boot:
    andq $-16, %rsp
    call sim_fiber_main
    ud2
)");
extern "C" void sim_fiber_main() { fiber_entry(); }

int spawn(void (*fn)(void*), void* arg, const char* name, bool daemon, size_t stack) {
    if (!stk_base) {
        stk_total = size_t(64) << 20;
        stk_base = (char*) mmap((void*) 0x100000000000ull, stk_total, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (stk_base == MAP_FAILED) internal_error("stack mmap: %s", strerror(errno));
    }
    if (nf == MAXF) internal_error("too many fibers");
    if (!stack) stack = 256 << 10;
    if (stk_used + stack > stk_total) internal_error("out of fiber stacks");
    int id = nf++;
    Fiber& f = F[id];
    f.st = RUNNABLE; f.daemon = daemon; f.spinning = f.reader = f.stallable = false; f.fn = fn; f.arg = arg;
    snprintf(f.name, sizeof f.name, "%s", name);
    f.stk_lo = stk_base + stk_used; f.stk_hi = f.stk_lo + stack; stk_used += stack;
    f.lstep = f.last_spin = 0; f.park_until = 0; f.deadline = ~0ull; f.prio = replaying ? 0 : R.next();
    uint64_t* sp = (uint64_t*) f.stk_hi;
    *--sp = 0; *--sp = 0;
    *--sp = (uint64_t) (uintptr_t) sim_fiber_boot;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f.sp = sp;
    return id;
}

static void switch_to(int id) {
    if (id == cur) return;
    ++stats.switches;
    interleaving_hash = mix(interleaving_hash, (uint64_t) id * 0x10001 + (uint64_t) (uintptr_t) site_pc);
    void** save = cur >= 0 ? &F[cur].sp : &main_sp;
    cur = id;
    int e = errno;          // every simulated thread has its own
    sim_switch(save, id >= 0 ? F[id].sp : main_sp);
    errno = e;
}
static void leave_to_main() { int old = cur; cur = -1; sim_switch(&F[old].sp, main_sp); }

static bool ready(int i) {
    return F[i].st == RUNNABLE || (F[i].st == BLOCKED && F[i].deadline <= now_ns);
}
static bool all_work_done() {
    for (int i = 0; i < nf; ++i) if (!F[i].daemon && F[i].st != DONE) return false;
    return true;
}
static std::string blocked_list() {
    std::string s;
    for (int i = 0; i < nf; ++i)
        if (F[i].st != DONE && F[i].st != FREE)
            s += strf(" %s:%s", F[i].name, F[i].spinning ? "spinning" : F[i].st == BLOCKED ? "blocked" : "runnable");
    return s;
}
// Choose the next fiber by default rule (used in replay, fair mode, and as reference for recording).
// Level 0: unparked, not spinning; level 1: parked; level 2: spinning.
static int default_choice(bool include_self) {
    int base = cur >= 0 ? cur : nf - 1;
    for (int lvl = 0; lvl < 3; ++lvl) {
        int best = -1;
        for (int k = 1; k <= nf; ++k) {
            int i = (base + k) % nf;
            if (i == cur && !include_self) continue;
            if (!ready(i)) continue;
            bool parked = F[i].park_until > g_step;
            int l = F[i].spinning ? 2 : parked ? 1 : 0;
            if (l != lvl) continue;
            if (lvl == 1) {     // the one parked first is released first
                if (best < 0 || F[i].park_until < F[best].park_until) best = i;
            } else
                return i;
        }
        if (best >= 0) return best;
    }
    return -1;
}
static int random_choice(bool include_self) {
    int cand[MAXF], n = 0;
    for (int i = 0; i < nf; ++i) {
        if ((i == cur && !include_self) || !ready(i)) continue;
        if (F[i].park_until > g_step) continue;
        if (F[i].spinning && !R.chance(0.05)) continue;
        cand[n++] = i;
    }
    if (!n) return default_choice(include_self);
    if (C.prio) {
        int b = cand[0];
        for (int i = 1; i < n; ++i) if (F[cand[i]].prio > F[b].prio) b = cand[i];
        return b;
    }
    return cand[R.below(n)];
}
static Decision* find_plan() {
    Fiber& f = F[cur];
    while (f.rp < f.plan.size() && f.plan[f.rp].p < f.lstep) ++f.rp;
    if (f.rp < f.plan.size() && f.plan[f.rp].p == f.lstep) return &f.plan[f.rp];
    return nullptr;
}
static void jump_time() {
    uint64_t t = ~0ull;
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].deadline < t) t = F[i].deadline;
    for (auto& e : events) if (e.t < t) t = e.t;
    if (t == ~0ull)
        fail("deadlock", "nothing can run and nothing is pending:%s", blocked_list().c_str());
    if (t > now_ns) now_ns = t;
}
static void hand_over(int t) {
    if (F[t].st == BLOCKED) { F[t].st = RUNNABLE; F[t].deadline = ~0ull; }
    slice_end = g_step + max_slice; solo_slices = 0;
    switch_to(t);
    slice_end = g_step + max_slice;
    if (stop_req) leave_to_main();
}
static void set_next_event();
extern double stall_lock_p;

// The current fiber cannot or should not continue: somebody else must run.
static void reschedule(bool include_self, bool record) {
    while (true) {
        run_due_events();
        if (stop_req || all_work_done()) { stop_req = true; leave_to_main(); return; }
        int t = -1;
        if (fair) t = default_choice(include_self);
        else if (replaying) {
            Decision* d = find_plan();
            if (d && d->t < (uint32_t) nf && ready(d->t) && ((int) d->t != cur || include_self)) {
                t = d->t;
                if (d->park) F[cur].park_until = g_step + d->park;
            } else
                t = default_choice(include_self);
        } else
            t = random_choice(include_self);
        if (t >= 0) {
            if (record && !fair && !replaying && trace.size() < 400000)
                trace.push_back(Decision{fiber_base + (uint32_t) cur, fiber_base + (uint32_t) t, F[cur].lstep, 0});
            if (t == cur) {
                if (F[t].st == BLOCKED) { F[t].st = RUNNABLE; F[t].deadline = ~0ull; }
                return;
            }
            hand_over(t);
            return;
        }
        // Nobody is ready (the caller, if spinning, is excluded): let time pass.
        bool any = false;
        for (int i = 0; i < nf; ++i) if (ready(i)) any = true;
        if (any && include_self) return;
        if (any && !include_self && F[cur].st == RUNNABLE) {     // only the spinning caller itself
            bool timed = !events.empty();
            for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].deadline != ~0ull) timed = true;
            if (timed) { jump_time(); continue; }
            fail("livelock", "%s spins and nothing else can run:%s", F[cur].name, blocked_list().c_str());
        }
        jump_time();
    }
}

static void set_next_event() {
    if (fair) { next_event = std::min(fair_next, C.hard_limit); return; }
    uint64_t n = C.chaos_limit;
    if (!replaying) {
        if (next_random != ~0ull) n = std::min(n, next_random);
        if (planned_pos < planned.size()) n = std::min(n, planned[planned_pos]);
        n = std::min(n, stall_at);
    } else if (cur >= 0) {
        Fiber& f = F[cur];
        while (f.rp < f.plan.size() && f.plan[f.rp].p < f.lstep) ++f.rp;
        if (f.rp < f.plan.size()) n = std::min(n, g_step + (f.plan[f.rp].p - f.lstep));
    }
    if (max_slice) n = std::min(n, slice_end);
    next_event = n;
}

double stall_p = 0;
uint32_t stall_max_us = 0, stalls_left = 0;
static const uint32_t STALL = 0x80000000u;
void set_stallable(int id) { F[id].stallable = true; }
static void suspend(uint32_t park) {
    if (park & STALL) {
        sync_time();
        F[cur].st = BLOCKED; F[cur].deadline = now_ns + (uint64_t) (park & ~STALL) * 1000;
        ++stats.stalls; stats.stall_us += park & ~STALL;
    } else if (park)
        F[cur].park_until = g_step + park;
}

double stall_lock_p = 0;
// the current fiber has just taken a lock, perhaps: stall it soon after
void note_lock() {
    if (stall_lock_p <= 0 || !stalls_left || replaying || fair || cur < 0 || in_event || !F[cur].stallable || stall_at != ~0ull) return;
    if (!R.chance(stall_lock_p)) return;
    stall_at = g_step + R.logrange(1, 300); stall_fiber = cur;
    set_next_event();
}
static void stall_now() {
    --stalls_left;
    uint32_t park = STALL | (uint32_t) (R.chance(0.4) ? R.logrange(10, stall_max_us) : stall_max_us / 2 + R.below(stall_max_us / 2));
    int t = random_choice(false);
    if (trace.size() < 400000) trace.push_back(Decision{fiber_base + (uint32_t) cur, fiber_base + (uint32_t) (t < 0 ? cur : t), F[cur].lstep, park});
    F[cur].spinning = false;
    suspend(park);
    if (t >= 0 && t != cur) hand_over(t); else reschedule(true, false);
}
static void preempt_now(bool from_site) {
    (void) from_site;
    run_due_events();
    if (stop_req) { leave_to_main(); return; }
    uint32_t park = 0;
    if (C.prio) { F[cur].prio = R.below(1000); }
    if (C.p_park > 0 && R.chance(C.p_park)) park = (uint32_t) R.logrange(5, std::max<uint32_t>(C.park_max, 6));
    if (stalls_left && F[cur].stallable && R.chance(stall_p)) { stall_now(); return; }
    if (park) F[cur].park_until = g_step + park;
    int t = random_choice(false);
    if (t < 0 || t == cur) { F[cur].park_until = 0; return; }
    ++stats.preempts;
    if (park) ++stats.parks;
    if (trace.size() < 400000) trace.push_back(Decision{fiber_base + (uint32_t) cur, fiber_base + (uint32_t) t, F[cur].lstep, park});
    F[cur].spinning = false;
    hand_over(t);
}

static void __attribute__((noinline)) slow_point() {
    if (g_step >= C.hard_limit)
        fail("no-progress", "step limit %llu reached under a fair schedule:%s", (unsigned long long) C.hard_limit, blocked_list().c_str());
    if (!fair && g_step >= C.chaos_limit) { go_fair(); }
    if (fair) {
        if (g_step >= fair_next) {
            fair_next = g_step + 1 + hash64(g_step ^ 0x51ed) % 113;     // varying slices: no lock-step with the code's own loops
            run_due_events();
            if (stop_req) { leave_to_main(); return; }
            ++stats.fair;
            int t = -1;                                                 // plain round robin, spinning or not
            for (int k = 1; k < nf && t < 0; ++k) if (ready((cur + k) % nf)) t = (cur + k) % nf;
            if (t >= 0) { next_event = std::min(fair_next, C.hard_limit); hand_over(t); }
        }
        set_next_event();
        return;
    }
    if (max_slice && g_step >= slice_end) {
        slice_end = g_step + max_slice;
        run_due_events();
        if (stop_req) { leave_to_main(); return; }
        int t = default_choice(false);
        if (t >= 0) hand_over(t);
        else if (++solo_slices >= 4) {      // computing or busy-waiting alone: the next timer is due
            solo_slices = 0;
            bool timed = !events.empty();
            for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].deadline != ~0ull) timed = true;
            if (timed) jump_time();
        }
        slice_end = g_step + max_slice;
    }
    if (replaying) {
        Decision* d = find_plan();
        if (d) {
            run_due_events();
            if (stop_req) { leave_to_main(); return; }
            if (d->park & STALL) {
                uint32_t t = d->t;
                ++F[cur].rp;
                F[cur].spinning = false;
                suspend(d->park);
                if (t < (uint32_t) nf && (int) t != cur && ready(t)) hand_over(t); else reschedule(true, false);
                set_next_event();
                return;
            }
            if (d->t < (uint32_t) nf && (int) d->t != cur && ready(d->t)) {
                if (d->park) F[cur].park_until = g_step + d->park;
                ++F[cur].rp;
                ++stats.preempts;
                F[cur].spinning = false;
                hand_over(d->t);
                set_next_event();
                return;
            }
            ++F[cur].rp;
        }
        set_next_event();
        return;
    }
    if (g_step >= stall_at) {
        stall_at = ~0ull;
        if (cur == stall_fiber && stalls_left) { run_due_events(); if (stop_req) { leave_to_main(); return; } stall_now(); set_next_event(); return; }
    }
    bool fire = false;
    if (g_step >= next_random) { next_random = g_step + R.geometric(C.p_access); fire = true; }
    if (planned_pos < planned.size() && g_step >= planned[planned_pos]) { ++planned_pos; fire = true; }
    if (fire) preempt_now(false);
    set_next_event();
}

static inline void access_point(const void* pc, bool write) {
    Fiber& f = F[cur];
    ++f.lstep; ++g_step;
    site_pc = pc;
    if (f.spinning && f.lstep - f.last_spin > 64) { f.spinning = false; idle_spins = 0; }
    if (quiet_sched) return;
    if (__builtin_expect(g_step >= next_event, 0)) slow_point();
    else if (site_threshold && site_hit(pc) && !fair && (!C.writes_only || write) && R.chance(C.p_site)) {
        preempt_now(true);
        set_next_event();
    }
}
void point() {
    if (cur < 0 || in_event) return;
    access_point(__builtin_return_address(0), true);
}
void yield_spin() {
    if (cur < 0 || in_event) return;
    Fiber& f = F[cur];
    ++f.lstep; ++g_step; ++stats.spins;
    site_pc = __builtin_return_address(0);
    if (g_step >= C.hard_limit) slow_point();
    if (!fair && g_step >= C.chaos_limit) go_fair();
    if (!f.spinning) { f.spinning = true; }
    f.last_spin = f.lstep;
    // idle_spins counts spins since anything but short wait loops last happened
    if (g_step - idle_since > 64 * (uint64_t) idle_spins + 512) { idle_spins = 0; idle_since = g_step; rbw_spins = 0; }
    ++idle_spins;
    if (idle_spins > 3u * nf + 20) {
        // everything that can run is spinning: release parked fibers, then let time pass
        int nparked = 0, nreaders = 0, nupd = 0;
        for (int i = 0; i < nf; ++i) {
            if (F[i].st == DONE || F[i].daemon) continue;
            if (F[i].st == RUNNABLE && F[i].spinning) { if (!F[i].reader) ++nupd; }
            else { ++nparked; if (F[i].reader && F[i].park_until > g_step) ++nreaders; }
        }
        if (nparked && nreaders == nparked && nupd) ++rbw_spins; else rbw_spins = 0;
        if (rbw_spins > 200u)
            fail("reader-blocks-writer", "updaters spin although only read operations are suspended:%s", blocked_list().c_str());
        if (rbw_spins) {        // keep the readers suspended and let the waiting updaters try again, in turn
            for (int k = 1; k < nf; ++k) {
                int t = (cur + k) % nf;
                if (F[t].st == RUNNABLE && F[t].spinning && !F[t].reader && !F[t].daemon) { hand_over(t); break; }
            }
            set_next_event();
            return;
        }
        for (int i = 0; i < nf; ++i) F[i].park_until = 0;
        bool others = false;
        for (int i = 0; i < nf; ++i) if (ready(i) && !F[i].spinning) others = true;
        if (!others) {
            bool timed = !events.empty();
            for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].deadline != ~0ull) timed = true;
            if (timed) { jump_time(); idle_spins = 0; }
            else if (idle_spins > 200000) fail("livelock", "every runnable thread spins:%s", blocked_list().c_str());
        }
    }
    reschedule(false, true);
    set_next_event();
}
void block_until(uint64_t t_ns) {
    if (cur < 0) internal_error("block outside fiber");
    Fiber& f = F[cur];
    ++f.lstep; ++g_step;
    site_pc = __builtin_return_address(0);
    if (g_step >= C.hard_limit) slow_point();
    if (!fair && g_step >= C.chaos_limit) go_fair();
    f.st = BLOCKED; f.deadline = t_ns; f.spinning = false;
    reschedule(true, true);
    set_next_event();
}
void block() { block_until(~0ull); }
void wake(int id) {
    if (id >= 0 && id < nf && F[id].st == BLOCKED) { F[id].st = RUNNABLE; F[id].deadline = ~0ull; }
}
static void fiber_entry() {
    int me = cur;
    set_next_event();
    F[me].fn(F[me].arg);
    F[me].st = DONE;
    ++F[me].lstep; ++g_step;
    reschedule(false, true);
    internal_error("finished fiber resumed");
}
void exit_fiber() {
    F[cur].st = DONE;
    ++F[cur].lstep; ++g_step;
    reschedule(false, true);
    internal_error("finished fiber resumed");
}
void kill_fiber(int i) { if (i >= 0 && i < nf && i != cur) F[i].st = DONE; }
void stop_daemons() { for (int i = 0; i < nf; ++i) if (F[i].daemon) F[i].st = DONE; }
void stop() { stop_req = true; if (cur >= 0 && !in_event) leave_to_main(); }
void run() {
    running = true; stop_req = false;
    if (!nf || all_work_done()) return;
    int t = replaying || fair ? default_choice(true) : random_choice(true);
    if (replaying) {    // first choice is recorded with fiber id of itself and point 0
        for (int i = 0; i < nf; ++i) if (!F[i].plan.empty() && F[i].plan[0].p == 0 && (int) F[i].plan[0].t == i) { t = i; break; }
    } else if (t >= 0)
        trace.push_back(Decision{fiber_base + (uint32_t) t, fiber_base + (uint32_t) t, 0, 0});
    while (t < 0) { jump_time(); run_due_events(); t = default_choice(true); }
    cur = -1;
    if (F[t].st == BLOCKED) { F[t].st = RUNNABLE; F[t].deadline = ~0ull; }
    switch_to(t);
    cur = -1;
    running = false;
    sync_time();
}

void randomize_sched(SchedCfg& c, Rng& r, uint64_t est) {
    c.est_steps = est;
    c.site_salt = r.next();
    int mode = (int) r.below(6);
    switch (mode) {
    case 0: c.p_access = 1.0 / (double) r.logrange(3, 1500); break;
    case 1: c.site_mod = (int) r.logrange(4, 200); c.p_site = 0.05 + 0.95 * r.unit(); break;
    case 2: c.npoints = r.range(1, 12); break;
    case 3: c.prio = true; c.npoints = r.range(1, 25); break;
    case 4: c.site_mod = (int) r.logrange(2, 60); c.p_site = 0.02 + 0.5 * r.unit(); c.writes_only = true; break;
    default: c.p_access = 1.0 / (double) r.logrange(30, 3000); c.site_mod = (int) r.logrange(10, 300); c.p_site = 0.5 * r.unit(); break;
    }
    if (r.chance(0.75)) {
        c.p_park = r.chance(0.5) ? 1.0 : r.unit();
        c.park_max = (uint32_t) r.logrange(20, std::max<uint64_t>(est, 100));
    }
}
std::string sched_to_string(const SchedCfg& c) {
    return strf("p_access=%g site=1/%d@%g points=%d park=%g/%u prio=%d writes=%d", c.p_access, c.site_mod, c.p_site, c.npoints, c.p_park, c.park_max, c.prio, c.writes_only);
}

// ------------------------------------------------------------------ memory
static const size_t ARENA = size_t(8) << 30;
char* arena_lo; char* arena_hi;
static char* bump;
static uint8_t* shadow;         // per 16-byte granule: 0 none, 1..16 bytes live, 0xff freed
struct Hdr { uint64_t idx; uint64_t size; };
struct BInfo { char* p; size_t n; bool live; const void* freed_by; uint64_t fstep; int ffiber; const char* what; };
static std::vector<BInfo>* blocks;
bool pool_reuse = false;
double malloc_fail_p = 0;
static uint64_t fill_state = 88172645463325252ull;

static void arena_init() {
    arena_lo = (char*) mmap((void*) 0x200000000000ull, ARENA, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    shadow = (uint8_t*) mmap((void*) 0x300000000000ull, ARENA / 16, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena_lo == MAP_FAILED || shadow == MAP_FAILED) { perror("arena"); _exit(4); }
    arena_hi = arena_lo + ARENA; bump = arena_lo + 4096;
    blocks = new std::vector<BInfo>;
}
uint64_t alloc_serial() { return blocks ? blocks->size() : 0; }
void set_fill(uint64_t s) { fill_state = hash64(s) | 1; }
void* arena_alloc(size_t n, size_t align) {
    if (!arena_lo) arena_init();
    if (align < 16) align = 16;
    uintptr_t p = ((uintptr_t) bump + 16 + align - 1) & ~(uintptr_t) (align - 1);
    size_t r = (n + 15) & ~size_t(15);
    if ((char*) p + r + 64 > arena_hi) internal_error("arena exhausted");
    Hdr* h = (Hdr*) (p - 16);
    h->idx = blocks->size(); h->size = n;
    size_t g = (p - (uintptr_t) arena_lo) >> 4;
    if (n >= 16) memset(shadow + g, 16, n >> 4);
    if (n & 15) shadow[g + (n >> 4)] = n & 15;
    // fresh memory holds arbitrary bytes
    if (n <= (1u << 20)) {
        uint64_t* w = (uint64_t*) p;
        uint64_t x = fill_state;
        int kind = (int) (x % 3);
        for (size_t i = 0; i < r / 8; ++i) {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            w[i] = kind == 0 ? x : kind == 1 ? 0xa5a5a5a5a5a5a5a5ull : (x & 0x0101010101010101ull);
        }
        fill_state = x;
    }
    blocks->push_back(BInfo{(char*) p, n, true, nullptr, 0, -1, nullptr});
    bump = (char*) p + r + 32;
    ++stats.allocs;
    return (void*) p;
}
static BInfo* info_of(void* p) {
    if (!in_arena(p) || ((uintptr_t) p & 15)) return nullptr;
    Hdr* h = (Hdr*) ((char*) p - 16);
    if (h->idx >= blocks->size() || (*blocks)[h->idx].p != p) return nullptr;
    return &(*blocks)[h->idx];
}
static BInfo* find_block(const void* p) {     // block containing p (binary search by address)
    size_t lo = 0, hi = blocks->size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if ((*blocks)[m].p <= (const char*) p) lo = m + 1; else hi = m; }
    return lo ? &(*blocks)[lo - 1] : nullptr;
}
bool arena_free(void* p, const char* what) {
    if (!in_arena(p)) return false;
    BInfo* b = info_of(p);
    if (!b) fail("bad-free", "%s of %p, which is not the start of a block (thread %s)", what, p, fiber_name(cur));
    if (!b->live) fail("double-free", "%s of a %zu-byte block already released by %s at step %llu (thread %s, step %llu)", what, b->n,
                       fiber_name(b->ffiber), (unsigned long long) b->fstep, fiber_name(cur), (unsigned long long) g_step);
    b->live = false; b->fstep = g_step; b->ffiber = cur; b->what = what;
    size_t g = ((char*) p - arena_lo) >> 4;
    memset(shadow + g, 0xff, (b->n + 15) >> 4);
    ++stats.frees;
    return true;
}
size_t arena_size_of(void* p) { BInfo* b = info_of(p); return b && b->live ? b->n : 0; }
bool arena_live(const void* p) { return in_arena(p) && shadow[((const char*) p - arena_lo) >> 4] != 0xff && shadow[((const char*) p - arena_lo) >> 4] != 0; }
void live_blocks(std::vector<Block>& out) {
    for (size_t i = 0; i < blocks->size(); ++i)
        if ((*blocks)[i].live) out.push_back(Block{(*blocks)[i].p, (*blocks)[i].n, i});
}
static void __attribute__((noinline)) bad_access(const void* p, size_t n, bool write, const void* pc) {
    BInfo* b = find_block(p);
    size_t g = ((const char*) p - arena_lo) >> 4;
    if (shadow[g] == 0xff || (n && shadow[((const char*) p + n - 1 - arena_lo) >> 4] == 0xff))
        fail("use-after-free", "%s of %zu bytes at offset %ld of a %zu-byte block released by %s at step %llu (thread %s, step %llu, pc %p)",
             write ? "write" : "read", n, b ? (long) ((const char*) p - b->p) : -1L, b ? b->n : 0, b ? fiber_name(b->ffiber) : "?",
             b ? (unsigned long long) b->fstep : 0ull, fiber_name(cur), (unsigned long long) g_step, pc);
    fail("wild-write", "write of %zu bytes outside any block (offset %ld from a %zu-byte block; thread %s, pc %p)", n,
         b ? (long) ((const char*) p - b->p) : -1L, b ? b->n : 0, fiber_name(cur), pc);
}
static inline void check1(const void* p, size_t n, bool write, const void* pc) {
    size_t off = (const char*) p - arena_lo;
    if (__builtin_expect(off >= ARENA, 1)) { if (off + n <= off || off >= ARENA) return; }
    uint8_t a = shadow[off >> 4], b = shadow[(off + n - 1) >> 4];
    if (__builtin_expect(a == 0xff || b == 0xff, 0)) bad_access(p, n, write, pc);
    if (write && __builtin_expect(a == 0 || b == 0 || ((off + n - 1) & 15) >= b, 0)) bad_access(p, n, write, pc);
}
// A block copy never has a reason to read past its source block.
static void check_source(const void* p, size_t n, const void* pc) {
    if (!arena_lo || !in_arena(p)) return;
    const char* s = (const char*) p;
    for (size_t i = 0; i < n; ) {
        size_t off = s + i - arena_lo, k = std::min<size_t>(16 - (off & 15), n - i);
        uint8_t a = shadow[off >> 4];
        if (a != 0xff && (off & 15) + k > a)
            fail("out-of-bounds", "copy of %zu bytes reads past its source block (thread %s, step %llu, pc %p)", n, fiber_name(cur), (unsigned long long) g_step, pc);
        i += k;
    }
}
void check_mem(const void* p, size_t n, bool write, const void* pc) {
    if (!arena_lo || !in_arena(p)) return;
    const char* s = (const char*) p;
    for (size_t i = 0; i < n; i += 16) check1(s + i, std::min<size_t>(16, n - i), write, pc);
}
static inline bool own_stack(const void* p) {
    Fiber& f = F[cur];
    return (const char*) p >= f.stk_lo && (const char*) p < f.stk_hi;
}
static inline void access(const void* p, size_t n, bool write, const void* pc) {
    if (cur < 0) { if (arena_lo) check1(p, n, write, pc); return; }
    if (own_stack(p)) return;
    if (in_event) { if (arena_lo) check1(p, n, write, pc); return; }
    access_point(pc, write);
    if (arena_lo) check1(p, n, write, pc);
}
static inline bool shared(const void* p) { return cur >= 0 && !own_stack(p) && !in_event; }

static void copy_points(void* d, const void* s, size_t n, bool backward, const void* pc) {
    bool sd = shared(d), ss = shared(s);
    if (cur >= 0 || arena_lo) { if (ss || !cur) { check_mem(s, n, false, pc); if (ss) check_source(s, n, pc); } if (sd) check_mem(d, n, true, pc); }
    if ((!sd && !ss) || n == 0) { memmove(d, s, n); return; }
    // word by word, with scheduling points in between: readers may see a torn copy
    size_t chunk = n <= 128 ? 8 : n <= 1024 ? 64 : 512;
    if (!backward)
        for (size_t i = 0; i < n; i += chunk) {
            access_point(pc, sd);
            size_t k = std::min(chunk, n - i);
            memmove((char*) d + i, (const char*) s + i, k);
        }
    else
        for (size_t left = n; left > 0; ) {
            access_point(pc, sd);
            size_t k = std::min(chunk, left);
            left -= k;
            memmove((char*) d + left, (const char*) s + left, k);
        }
    // Blocks released while the copy was suspended must not have been touched.
    if (ss) check_mem(s, n, false, pc);
    if (sd) check_mem(d, n, true, pc);
}

static void on_signal(int sig, siginfo_t* si, void*) {
    fail("signal", "signal %d (%s) at address %p in thread %s, step %llu", sig, strsignal(sig), si->si_addr, fiber_name(cur), (unsigned long long) g_step);
}
void install_signals() {
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}
char last_stderr[512];
static void aborted(const char* what) {
    if (on_abort && on_abort(what)) return;
    fail("abort", "%s (thread %s, step %llu)", what, fiber_name(cur), (unsigned long long) g_step);
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ------------------------------------------------------------------ hooks in the repository
extern "C" {
void masstree_sim_relax(void) { yield_spin(); }
void masstree_sim_atomic(const volatile void* p, unsigned n) { sim::access((const void*) p, n, true, PC); sim::note_lock(); }
int masstree_sim_pool_free(void* p) {
    if (pool_reuse) return 0;
    return arena_free(p, "release of a pool item");
}

// ------------------------------------------------------------------ compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void* p) { sim::access(p, n, false, PC); } \
void __tsan_write##n(void* p) { sim::access(p, n, true, PC); } \
void __tsan_volatile_read##n(void* p) { sim::access(p, n, false, PC); } \
void __tsan_volatile_write##n(void* p) { sim::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) \
void __tsan_unaligned_read##n(void* p) { sim::access(p, n, false, PC); } \
void __tsan_unaligned_write##n(void* p) { sim::access(p, n, true, PC); } \
void __tsan_unaligned_volatile_read##n(void* p) { sim::access(p, n, false, PC); } \
void __tsan_unaligned_volatile_write##n(void* p) { sim::access(p, n, true, PC); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void* p, unsigned long n) { if (cur >= 0 && !own_stack(p)) { access_point(PC, false); check_mem(p, n, false, PC); } }
void __tsan_write_range(void* p, unsigned long n) { if (cur >= 0 && !own_stack(p)) { access_point(PC, true); check_mem(p, n, true, PC); } }
void __tsan_vptr_update(void** p, void*) { sim::access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { sim::access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { sim::access((const void*) p, sizeof(T), false, PC); return *p; } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; *p = v; if (!o) sim::note_lock(); return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { sim::access((const void*) p, sizeof(T), true, PC); if (*p == *c) { *p = v; sim::note_lock(); return 1; } *c = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { sim::access((const void*) p, sizeof(T), true, PC); if (*p == *c) { *p = v; sim::note_lock(); return 1; } *c = *p; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { sim::access((const void*) p, sizeof(T), true, PC); T o = *p; if (o == c) { *p = v; sim::note_lock(); } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ------------------------------------------------------------------ redirected libc: memory
void* sim_malloc(size_t n) {
    if (malloc_fail_p > 0 && cur >= 0 && !fair && R.chance(malloc_fail_p)) { errno = ENOMEM; return nullptr; }
    return arena_alloc(n);
}
void sim_free(void* p) { if (p && !arena_free(p, "free")) free(p); }
void* sim_calloc(size_t a, size_t b) { void* p = arena_alloc(a * b); memset(p, 0, a * b); return p; }
void* sim_realloc(void* p, size_t n) {
    if (!p) return arena_alloc(n);
    if (!in_arena(p)) return realloc(p, n);
    size_t o = arena_size_of(p);
    void* q = arena_alloc(n);
    memcpy(q, p, std::min(o, n));
    arena_free(p, "realloc");
    return q;
}
int sim_posix_memalign(void** r, size_t a, size_t n) { *r = arena_alloc(n, a); return 0; }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*) arena_alloc(n); memcpy(p, s, n); return p; }
int sim_madvise(void*, size_t, int) { return 0; }
void* sim_opendir(const char*) { errno = ENOENT; return nullptr; }
void* sim_memcpy(void* d, const void* s, size_t n) { copy_points(d, s, n, false, PC); return d; }
void* sim_memmove(void* d, const void* s, size_t n) { copy_points(d, s, n, d > s, PC); return d; }
void* sim_memset(void* d, int c, size_t n) {
    if (n && shared(d)) { access_point(PC, true); check_mem(d, n, true, PC); }
    return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
    if (n) {
        if (shared(a)) { access_point(PC, false); check_mem(a, n, false, PC); }
        if (shared(b)) { access_point(PC, false); check_mem(b, n, false, PC); }
    }
    return memcmp(a, b, n);
}
void* sim_memchr(const void* a, int c, size_t n) {
    if (n && shared(a)) { access_point(PC, false); check_mem(a, n, false, PC); }
    return (void*) memchr(a, c, n);
}
static void op_delete(void* p) { if (p && !arena_free(p, "delete")) ::operator delete(p); }
#define NEW(c) \
void* sim_op_n##c(size_t n) { return arena_alloc(n); } \
void* sim_op_n##c##_nt(size_t n, void*) { return arena_alloc(n); } \
void* sim_op_n##c##_al(size_t n, size_t a) { return arena_alloc(n, a); }
NEW(w) NEW(a)
#define DEL(c) \
void sim_op_d##c(void* p) { op_delete(p); } \
void sim_op_d##c##_sz(void* p, size_t) { op_delete(p); } \
void sim_op_d##c##_al(void* p, size_t) { op_delete(p); } \
void sim_op_d##c##_szal(void* p, size_t, size_t) { op_delete(p); }
DEL(l) DEL(a)

// ------------------------------------------------------------------ redirected libc: failure
void sim_abort(void) { aborted(last_stderr[0] ? strf("abort() called: %s", last_stderr).c_str() : "abort() called"); for (;;) sim::stop(); }
static int say(FILE* f, const char* fmt, va_list ap) {
    if (f == stderr || f == stdout) {
        char b[512]; int n = vsnprintf(b, sizeof b, fmt, ap);
        for (char* c = b; *c; ++c) if (*c == '\n') *c = ' ';
        if (f == stderr) memcpy(last_stderr, b, sizeof b);
        return n;
    }
    return vfprintf(f, fmt, ap);
}
int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = say(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = say(stdout, fmt, ap); va_end(ap); return n; }
void sim_perror(const char* m) { int e = errno; snprintf(last_stderr, sizeof last_stderr, "%s: %s", m, strerror(e)); errno = e; }
int sim_puts(const char* s) { return (int) strlen(s); }
int sim_putchar(int c) { return c; }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) {
    if (f == stderr || f == stdout) { if (f == stderr) snprintf(last_stderr, sizeof last_stderr, "%.*s", (int) std::min<size_t>(a * b, 400), (const char*) p); return b; }
    return fwrite(p, a, b, f);
}
int sim_fputc(int c, FILE* f) { if (f == stderr || f == stdout) return c; return fputc(c, f); }
int sim_fputs(const char* s, FILE* f) { sim_fwrite(s, 1, strlen(s), f); return 1; }
void sim_assert_fail(const char* e, const char* file, unsigned line, const char*) {
    const char* b = strrchr(file, '/');
    aborted(strf("assertion failed: %s (%s:%u)", e, b ? b + 1 : file, line).c_str());
    for (;;) sim::stop();
}
// masstree's own assertion reporters (compiler.cc)
int sim_guard_acquire(char* g) {
    while (true) {
        if (g[0]) return 0;
        if (!g[1]) { g[1] = 1; return 1; }
        yield_spin();
    }
}
void sim_guard_release(char* g) { g[0] = 1; g[1] = 0; }
void sim_guard_abort(char* g) { g[1] = 0; }
}
