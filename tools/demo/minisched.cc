// Tiny deterministic scheduler for demonstrations: runs up to three operations as coroutines and switches between
// them only where asked: operation 0 is suspended at its k-th memory access, operation 1 (suspended at its j-th, if
// asked) runs, and so on.  Every combination is tried in a forked child.
#include "minisched.hh"
#include <ucontext.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <functional>
#include <vector>
static ucontext_t mainc, ctx[4];
static int cur = -1, nf;
static bool done_[4], spinning[4];
static uint64_t steps[4], stop_at[4], total;
static std::function<void()> fn[4];
static volatile int phase_quiet = 1;
static void enter(int i) { fn[i](); done_[i] = true; int c = cur; cur = -1; swapcontext(&ctx[c], &mainc); }
static int pick(int from) {
    for (int d = 1; d <= nf; ++d) { int i = (from + d) % nf; if (!done_[i] && i != from && !spinning[i]) return i; }
    for (int d = 1; d <= nf; ++d) { int i = (from + d) % nf; if (!done_[i] && i != from) return i; }
    return -1;
}
static void go(int t) { int c = cur; cur = t; swapcontext(&ctx[c], &ctx[t]); }
static void access() {
    if (cur < 0 || phase_quiet) return;
    ++total; ++steps[cur];
    if (total > 3000000) { fprintf(stderr, "an operation does not finish\n"); _exit(9); }
    spinning[cur] = false;
    static uint64_t since; static int who = -1; if (who != cur) { who = cur; since = 0; }
    if (steps[cur] == stop_at[cur] || ++since % 20000 == 0) { int t = pick(cur); if (t >= 0) go(t); }
}
extern "C" {
void masstree_sim_relax(void) {
    if (cur < 0 || phase_quiet) { static int n; if (cur < 0 && ++n > 1000000) { fprintf(stderr, "spins forever\n"); _exit(9); } return; }
    ++total; if (total > 3000000) { fprintf(stderr, "an operation does not finish\n"); _exit(9); }
    spinning[cur] = true;
    int t = pick(cur); if (t >= 0) go(t);
}
void masstree_sim_atomic(const volatile void*, unsigned) { access(); }
int masstree_sim_pool_free(void* p) { __attribute__((unused)) void* q = p; free(p); return 1; }
uint32_t masstree_sim_log_buffer_size(uint32_t n) { return n; }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) { access(); } void __tsan_write##n(void*) { access(); } void __tsan_volatile_read##n(void*) { access(); } void __tsan_volatile_write##n(void*) { access(); } \
 void __tsan_unaligned_read##n(void*) { access(); } void __tsan_unaligned_write##n(void*) { access(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { access(); } void __tsan_write_range(void*, unsigned long) { access(); }
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* p, int) { access(); return *p; } void __tsan_atomic##b##_store(volatile T* p, T v, int) { access(); *p = v; } \
 T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access(); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access(); T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access(); T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access(); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access(); T o = *p; *p = o & v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access(); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { access(); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access(); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// linked with --wrap: freed memory is poisoned and never reused
void* __real_malloc(size_t); void __real_free(void*);
void __wrap_free(void* p);
static size_t* hdr(void* p) { return (size_t*) ((char*) p - 16); }
static long nlive;
void* __wrap_malloc(size_t n) { ++nlive; char* p = (char*) __real_malloc(n + 16); *(size_t*) p = n; *(size_t*) (p + 8) = 0xa110c; return p + 16; }
void __wrap_free(void* p) { if (!p) return; if (hdr(p)[1] == 0xdead) { fprintf(stderr, "freed twice\n"); _exit(7); } if (hdr(p)[1] != 0xa110c) return; hdr(p)[1] = 0xdead; --nlive; memset(p, 0xdd, *hdr(p)); }
void* __wrap_realloc(void* p, size_t n) { void* q = __wrap_malloc(n); if (p) { memcpy(q, p, *hdr(p) < n ? *hdr(p) : n); __wrap_free(p); } return q; }
void* __wrap_calloc(size_t a, size_t b) { void* q = __wrap_malloc(a * b); memset(q, 0, a * b); return q; }
int __wrap_posix_memalign(void** r, size_t, size_t n) { ++nlive;
    char* b = (char*) __real_malloc(n + 128); char* q = (char*) (((uintptr_t) b + 16 + 63) & ~(uintptr_t) 63);
    ((size_t*) (q - 16))[0] = n; ((size_t*) (q - 16))[1] = 0xa110c; *r = q; return 0;
}
}
long ms_live() { return nlive; }
bool ms_freed(const void* p) { return hdr((void*) p)[1] == 0xdead; }
static void start(int i) {
    getcontext(&ctx[i]); ctx[i].uc_stack.ss_sp = malloc(1 << 18); ctx[i].uc_stack.ss_size = 1 << 18; ctx[i].uc_link = nullptr;
    makecontext(&ctx[i], (void (*)()) enter, 1, i);
}
static int one(const Scenario& s, const std::vector<uint64_t>& at, uint64_t* used) {
    pid_t pid = fork();
    if (pid == 0) {
        signal(SIGALRM, SIG_DFL); alarm(20);
        nf = s.ops.size();
        phase_quiet = 1; s.setup();
        for (int i = 0; i < nf; ++i) { fn[i] = s.ops[i]; stop_at[i] = i < (int) at.size() ? at[i] : 0; start(i); }
        phase_quiet = 0;
        for (;;) { int t = -1; for (int i = 0; i < nf; ++i) if (!done_[i]) { t = i; break; } if (t < 0) break; cur = t; swapcontext(&mainc, &ctx[t]); }
        phase_quiet = 1;
        for (int i = 0; i < nf; ++i) used[i] = steps[i];
        s.check();
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
int ms_explore(const Scenario& s, int depth, int max1, int max2) {
    uint64_t* used = (uint64_t*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int runs = 0;
    for (int k = 1; k <= max1; ++k) {
        int lim = depth >= 2 ? max2 : 0;
        for (int j = 0; j <= lim; ++j) {
            used[0] = used[1] = 0;
            int rc = one(s, {(uint64_t) k, (uint64_t) j}, used);
            ++runs;
            if (rc) { printf("%s: FAILED (status %d) with operation 0 suspended at access %d, operation 1 at %d\n", s.name, rc, k, j); return 1; }
            if (j && used[1] < (uint64_t) j) break;
        }
        if (used[0] < (uint64_t) k) break;
    }
    printf("%s: ok, %d schedules\n", s.name, runs);
    return 0;
}
