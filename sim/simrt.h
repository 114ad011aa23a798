// Deterministic simulation runtime: fibers, seeded scheduler, memory arena with shadow state,
// compiler-instrumentation callbacks, recording and replay of every scheduling decision.
#ifndef SIMRT_H
#define SIMRT_H 1
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo + 1)); }   // inclusive
    double unit() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    uint64_t logrange(uint64_t lo, uint64_t hi);    // log-uniform
    uint64_t geometric(double p);
};
uint64_t hash64(uint64_t x);
inline uint64_t mix(uint64_t a, uint64_t b) { return hash64(a ^ (b * 0x9E3779B97F4A7C15ull)); }

// ---------------------------------------------------------------- scheduling
struct Decision {           // fiber `f`, at its local point `p`, hands over to `t` and is parked for `park` steps
    uint32_t f, t;
    uint64_t p;
    uint32_t park;
};
struct SchedCfg {
    double p_access = 0;    // preemption probability per shared access
    int site_mod = 0;       // >0: one program location in site_mod is a preferred preemption site
    uint64_t site_salt = 0;
    double p_site = 0;
    int npoints = 0;        // planned preemption points, uniform over est_steps
    uint64_t est_steps = 20000;
    double p_park = 0;      // probability that a preemption parks the fiber
    uint32_t park_max = 4000;
    bool prio = false;      // priority (PCT-like) choice of the next fiber instead of uniform
    bool writes_only = false;
    uint64_t chaos_limit = 300000;   // after this many steps scheduling becomes fair round robin
    uint64_t hard_limit = 6000000;   // after this many steps the run has failed to make progress
};
struct Stats {
    uint64_t steps, switches, preempts, parks, spins, allocs, frees, fair, stalls, stall_us;
};
extern Stats stats;
extern uint64_t g_step;
extern uint64_t interleaving_hash;   // hash of the sequence of context switches (fiber, program location)

void randomize_sched(SchedCfg& c, Rng& r, uint64_t est_steps);
std::string sched_to_string(const SchedCfg& c);
void init(uint64_t seed, const SchedCfg& c);              // once per forked run
void set_replay(const std::vector<Decision>& d);         // follow these decisions instead of drawing new ones
extern std::vector<Decision> trace;                      // decisions taken in this run
int spawn(void (*fn)(void*), void* arg, const char* name, bool daemon = false, size_t stack = 0);
void run();                 // run until every non-daemon fiber has finished
void stop_daemons();        // discard daemon fibers (between phases)
void stop();                // callable from a fiber: leave run() at once
int self();                 // current fiber id or -1
bool in_fiber();
const char* fiber_name(int id);
void point();               // explicit scheduling point
void yield_spin();          // caller is waiting for somebody else's progress
void block();               // caller sleeps until wake(id) (spurious wakes allowed); counts as scheduling point
void block_until(uint64_t t_ns);    // ... or simulated time reaches t_ns
void wake(int id);
bool fiber_done(int id);
[[noreturn]] void exit_fiber();    // the current fiber ends here (pthread_exit / cancellation)
void kill_fiber(int id);    // another fiber, which must not be running, never runs again
extern uint64_t max_slice;  // >0: a fiber that ran this many steps lets the next one run (busy-wait loops without relax)
extern uint32_t fiber_base; // added to fiber ids in recorded decisions (several executions within one run)
// A stall: the operating system does not run a thread of the program under test for a while, wherever it is.
void set_stallable(int id);
extern double stall_lock_p; // probability that such a thread is stalled soon after an atomic compare-and-exchange
void note_lock();
extern double stall_p;      // probability that a preemption of such a thread is a stall
extern uint32_t stall_max_us, stalls_left;
void begin_chaos();         // schedule parameters count from here (end of a quiet set-up phase)
void go_fair();             // from now on: fair schedule, no parking, no random preemption
bool is_fair();
extern bool quiet_sched;    // while set, no preemption happens (harness bookkeeping inside instrumented code)

// ---------------------------------------------------------------- simulated time
extern uint64_t now_ns;                      // advances with steps and jumps when everything is blocked
constexpr uint64_t start_ns = 1700000000ull * 1000000000ull;
extern uint64_t step_ns;                     // simulated nanoseconds per step
void at_time(uint64_t t_ns, void (*fn)(void*), void* arg);   // event run on the scheduler, between fiber slices

// ---------------------------------------------------------------- memory
extern char* arena_lo;
extern char* arena_hi;
inline bool in_arena(const void* p) { return (const char*) p >= arena_lo && (const char*) p < arena_hi; }
void* arena_alloc(size_t n, size_t align = 16);
bool arena_free(void* p, const char* what);    // false if p is not an arena block
size_t arena_size_of(void* p);                 // 0 if not a live block start
bool arena_live(const void* p);
struct Block { void* p; size_t n; uint64_t serial; };
void live_blocks(std::vector<Block>& out);     // every live block, in allocation order
uint64_t alloc_serial();
extern bool pool_reuse;                        // true: reclaimed pool items are reused as in production
extern double malloc_fail_p;                   // injected allocation failure probability (0 = never)
void check_mem(const void* p, size_t n, bool write, const void* pc);
void set_fill(uint64_t s);                     // seeds the bytes fresh memory starts with
void set_reader(bool on);                      // the current fiber is inside a read-only operation
void install_signals();
extern char last_stderr[512];                  // last text the code under test printed to stderr

// ---------------------------------------------------------------- outcome
struct Outcome {                // lives in memory shared with the parent
    int failed;                 // 1 = violation, 2 = harness error
    char cls[48];
    char msg[1600];
};
extern Outcome* outcome;
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern void (*on_fail)();       // called before the process exits on failure (dump the trace etc.)
extern bool (*on_abort)(const char* what);      // server-style harness: abort()/assert in code under test; return true if handled

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string hex(const void* p, size_t n);
std::string hex(const std::string& s);
std::string unhex(const std::string& s);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
double wall();
}
#endif
