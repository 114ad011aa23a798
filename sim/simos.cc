#include "simos.h"
#include "runner.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <poll.h>
#include <time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <algorithm>
using namespace sim;

namespace simos {
Cfg cfg;
Rng rng(1);
Disk disk;
uint64_t fsyncs, disk_writes, disk_bytes, max_fsync_taken_ns;
bool disk_error_seen, exited;
int exit_code, killed_by;
void (*on_killed)(int);
int64_t clock_offset_ns;
size_t thread_stack = 512 << 10;

// ------------------------------------------------------------------ waiting
static std::vector<int> io_waiters;
static std::map<int, bool> interruptible, interrupted;
static std::set<int> cancel_req;
static std::map<int, void*> thread_result;
static void io_changed() { std::vector<int> w; w.swap(io_waiters); for (int f : w) wake(f); }
static void cancel_point() { if (in_fiber() && cancel_req.count(self())) { cancel_req.erase(self()); io_changed(); exit_fiber(); } }
static void sleep_until(uint64_t t) { block_until(t); }
static void wait_io(uint64_t until = ~0ull) {
    if (!in_fiber()) internal_error("blocking call outside a simulated thread");
    io_waiters.push_back(self());
    block_until(until);
    io_waiters.erase(std::remove(io_waiters.begin(), io_waiters.end(), self()), io_waiters.end());
}
static bool roll(double p, const char* counter) {
    if (p <= 0 || !rng.chance(p)) return false;
    count(counter);
    return true;
}

// ------------------------------------------------------------------ disk
static bool fault_now(const char* kind) {       // numbered per kind
    static std::map<std::string, uint64_t> seen;
    uint64_t k = seen[kind]++;
    for (auto& f : cfg.disk_faults)
        if (f.kind == kind && k >= f.at && k < f.at + f.n) { disk_error_seen = true; count(("fault.disk " + f.kind).c_str()); return true; }
    return false;
}
// every step at which the disk's state changes, so that a crash can be placed exactly there
uint64_t disk_ops; void (*on_disk_op)(uint64_t, const std::string&);
static void disk_step(const std::string& path) { ++disk_ops; if (on_disk_op && in_fiber()) on_disk_op(disk_ops, path); }
static std::string norm(const char* p) {
    std::string s;
    for (const char* c = p; *c; ++c) if (!(*c == '/' && !s.empty() && s.back() == '/')) s += *c;
    while (s.compare(0, 2, "./") == 0) s = s.substr(2);
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    return s;
}
static std::string parent_of(const std::string& p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : i == 0 ? "/" : p.substr(0, i); }
static bool dir_ok(const std::string& d) {
    if (d.empty() || d == "/" || d == ".") return true;
    auto i = disk.names.find(d);
    return i != disk.names.end() && disk.ino[i->second].dir;
}
bool file_exists(const std::string& p) { return disk.names.count(p); }
std::string file_get(const std::string& p) { auto i = disk.names.find(p); return i == disk.names.end() ? "" : disk.ino[i->second].cur; }
void file_put(const std::string& p, const std::string& data, bool durable) {
    int n = (int) disk.ino.size();
    Inode in; in.cur = data; in.dirty = !durable; if (durable) in.dur = data;
    disk.ino.push_back(in); disk.names[p] = n;
    if (durable) disk.dnames[p] = n; else disk.journal.push_back(Meta{M_CREATE, p, "", n, 0});
}
uint64_t disk_used() { uint64_t n = 0; std::set<int> s; for (auto& x : disk.names) s.insert(x.second); for (int i : s) n += disk.ino[i].cur.size(); return n; }
static void apply_meta(const Meta& m) {
    switch (m.k) {
    case M_CREATE: case M_MKDIR: disk.dnames[m.a] = m.ino; break;
    case M_RENAME: { auto i = disk.dnames.find(m.a); int n = m.ino; if (i != disk.dnames.end()) disk.dnames.erase(i); disk.dnames[m.b] = n; break; }
    case M_UNLINK: disk.dnames.erase(m.a); break;
    case M_TRUNC: disk.ino[m.ino].dur.resize(m.len, 0); break;
    }
}
static void commit_journal() { for (auto& m : disk.journal) apply_meta(m); disk.journal.clear(); }
void power_failure(Rng& r, bool (*zero_ok)(const std::string&, const std::string&), std::string* log) {
    size_t keep = r.chance(0.3) ? disk.journal.size() : r.below(disk.journal.size() + 1);
    if (log) *log += strf("power failure: %zu of %zu pending metadata operations survive\n", keep, disk.journal.size());
    count("fault.power failure");
    if (keep < disk.journal.size()) count("fault.metadata operations lost");
    std::set<int> lost_trunc;
    for (size_t i = 0; i < disk.journal.size(); ++i) { if (i < keep) apply_meta(disk.journal[i]); else if (disk.journal[i].k == M_TRUNC) lost_trunc.insert(disk.journal[i].ino); }
    disk.journal.clear();
    for (auto& nm : disk.dnames) {
        Inode& in = disk.ino[nm.second];
        if (in.dir || !in.dirty) continue;
        std::string old = in.dur, out = in.dur;
        if (!lost_trunc.count(nm.second)) {
            if (in.cur.size() >= in.dur.size() && in.cur.compare(0, in.dur.size(), in.dur) == 0) {
                size_t tail = in.cur.size() - in.dur.size();
                size_t c = r.chance(0.2) ? 0 : r.chance(0.25) ? tail : r.below(tail + 1);
                out = in.cur.substr(0, in.dur.size() + c);
                if (c < tail) {
                    count(c ? "fault.torn tail" : "fault.unsynced data lost");
                    if (r.chance(0.4)) {        // size made it to the disk, the data did not
                        size_t z = 1 + r.below(tail - c);
                        if (zero_ok && zero_ok(nm.first, out)) { out += std::string(z, 0); count("fault.zero-filled tail"); }
                    }
                }
            } else if (r.chance(0.5)) out = in.cur;
        }
        if (log && out != in.cur) *log += strf("  %s: %zu of %zu bytes survive (%zu were synced)\n", nm.first.c_str(), out.size(), in.cur.size(), old.size());
        in.cur = in.dur = out; in.dirty = false;
    }
    for (auto& nm : disk.dnames) { Inode& in = disk.ino[nm.second]; in.cur = in.dur; in.dirty = false; }
    disk.names = disk.dnames;
}
static void put_s(std::string& o, const std::string& s) { uint64_t n = s.size(); o.append((char*) &n, 8); o += s; }
static void put_u(std::string& o, uint64_t n) { o.append((char*) &n, 8); }
struct In { const std::string& s; size_t p = 0; uint64_t u() { uint64_t n; memcpy(&n, s.data() + p, 8); p += 8; return n; } std::string str() { uint64_t n = u(); std::string r = s.substr(p, n); p += n; return r; } };
std::string disk_save() {
    std::string o;
    put_u(o, disk.ino.size());
    for (auto& i : disk.ino) { put_u(o, i.dir); put_u(o, i.dirty); put_s(o, i.cur); put_s(o, i.dirty || i.dur != i.cur ? i.dur : std::string()); put_u(o, !(i.dirty || i.dur != i.cur)); }
    for (auto* m : {&disk.names, &disk.dnames}) { put_u(o, m->size()); for (auto& x : *m) { put_s(o, x.first); put_u(o, x.second); } }
    put_u(o, disk.journal.size());
    for (auto& m : disk.journal) { put_u(o, m.k); put_s(o, m.a); put_s(o, m.b); put_u(o, m.ino); put_u(o, m.len); }
    return o;
}
void disk_load(const std::string& s) {
    disk = Disk();
    In in{s};
    disk.ino.resize(in.u());
    for (auto& i : disk.ino) { i.dir = in.u(); i.dirty = in.u(); i.cur = in.str(); i.dur = in.str(); if (in.u()) i.dur = i.cur; }
    for (auto* m : {&disk.names, &disk.dnames}) { uint64_t n = in.u(); while (n--) { std::string k = in.str(); (*m)[k] = (int) in.u(); } }
    disk.journal.resize(in.u());
    for (auto& m : disk.journal) { m.k = (MetaKind) in.u(); m.a = in.str(); m.b = in.str(); m.ino = (int) in.u(); m.len = in.u(); }
}

// ------------------------------------------------------------------ descriptors
enum FdKind { FD_FREE, FD_FILE, FD_LISTEN, FD_STREAM, FD_UDP, FD_PIPE_R, FD_PIPE_W, FD_EPOLL, FD_SOCKET };
struct Pipe { std::string buf; bool r = true, w = true; };
struct Dgram { std::string data; int from; };
struct Fd {
    FdKind k = FD_FREE;
    int x = -1;                 // inode, connection, pipe index
    uint64_t off = 0; int flags = 0; int port = 0;
    std::string path;
    std::deque<Dgram> q;        // UDP
    std::deque<int> backlog;    // listener
    std::map<int, std::pair<uint32_t, uint64_t>> ep;    // epoll: fd -> (events, data)
    bool dgram = false;
};
static std::deque<Fd> fds(3);
static std::vector<Pipe*> pipes;
struct Stream { std::string rx; uint64_t inflight = 0, last_t = 0; bool fin = false, fin_sent = false; };
struct Conn { Stream toS, toC; int sfd = -1; bool aborted = false, s_closed = false, c_closed = false, rstS = false, rstC = false, c_half = false; };
static std::vector<Conn*> conns;
static std::map<int, std::deque<std::string>> udp_in;
static int new_fd(FdKind k) {
    for (size_t i = 3; i < fds.size(); ++i) if (fds[i].k == FD_FREE) { fds[i] = Fd(); fds[i].k = k; return (int) i; }
    if (fds.size() > 900) internal_error("descriptor leak");
    fds.emplace_back(); fds.back().k = k; return (int) fds.size() - 1;
}
static Fd* get(int fd) {
    if (fd < 3 || fd >= (int) fds.size() || fds[fd].k == FD_FREE) { errno = EBADF; return nullptr; }
    return &fds[fd];
}
size_t open_fds() { size_t n = 0; for (auto& f : fds) n += f.k != FD_FREE && f.path.find("kvd-log-") == std::string::npos; return n; }
bool cl_aborted(int c) { return conns[c]->aborted; }
int sim_fd_conn(int c) { return conns[c]->sfd; }

// ------------------------------------------------------------------ streams
struct Delivery { int c; bool to_server; std::string data; int what; };     // what: 0 data, 1 FIN, 2 RST
static void deliver(void* a) {
    Delivery* d = (Delivery*) a;
    Conn& c = *conns[d->c];
    Stream& s = d->to_server ? c.toS : c.toC;
    if (d->what == 0) {
        s.inflight -= d->data.size();
        bool closed = d->to_server ? c.s_closed : c.c_closed;
        if (closed) {           // data for a closed socket is answered with a reset
            if (d->to_server) c.rstC = true;
            else { c.rstS = true; count("fault.connection reset seen by server"); if (rng.chance(cfg.p_reset_loses)) c.toS.rx.clear(); }
        } else if (!(d->to_server ? c.rstS : c.rstC)) s.rx += d->data;
    } else if (d->what == 1) s.fin = true;
    else if (d->to_server) { c.rstS = true; count("fault.connection reset seen by server"); if (rng.chance(cfg.p_reset_loses)) c.toS.rx.clear(); }
    else c.rstC = true;
    delete d;
    io_changed();
}
static void post(int ci, bool to_server, const std::string& data, int what) {
    Conn& c = *conns[ci];
    Stream& s = to_server ? c.toS : c.toC;
    uint64_t t = std::max(s.last_t, now_ns + 1 + (cfg.net_delay_ns ? rng.below(cfg.net_delay_ns) : 0));
    s.last_t = t;
    if (what == 0) s.inflight += data.size();
    at_time(t, deliver, new Delivery{ci, to_server, data, what});
}
static void transmit(int ci, bool to_server, const char* p, size_t n) {
    while (n) {
        size_t k = n;
        if (cfg.segment > 0) { k = std::min<size_t>(n, 1 + rng.below(cfg.segment)); if (k < n) count("net segments"); }
        post(ci, to_server, std::string(p, k), 0);
        p += k; n -= k;
    }
}
static size_t room(const Stream& s) { uint64_t u = s.rx.size() + s.inflight; return u >= cfg.sockbuf ? 0 : cfg.sockbuf - u; }
static void die_by(int sig) {
    killed_by = sig; exited = true;
    if (on_killed) on_killed(sig);
    fail("killed", "the process was killed by signal %d (%s) in thread %s", sig, strsignal(sig), fiber_name(self()));
}
static std::map<int, void (*)(int)> handlers;
static ssize_t stream_write(int fd, const char* p, size_t n, bool nosignal) {
    int ci = fds[fd].x; Conn& c = *conns[ci];
    size_t done = 0;
    if (!n) return 0;
    while (true) {
        cancel_point();
        if (c.rstS) {
            count("server writes to a broken connection");
            if (done) return done;
            auto h = handlers.find(SIGPIPE);
            if (!nosignal && (h == handlers.end() || h->second == SIG_DFL)) die_by(SIGPIPE);
            if (h != handlers.end() && h->second != SIG_IGN && h->second != SIG_DFL) h->second(SIGPIPE);
            errno = EPIPE; return -1;
        }
        if (cfg.eintr_rw && !done && roll(cfg.p_eintr, "fault.write EINTR")) { errno = EINTR; return -1; }
        if (!done && roll(cfg.p_again, "fault.write EAGAIN")) { errno = EAGAIN; return -1; }
        size_t r = room(c.toC);
        if (r) {
            size_t k = std::min(n - done, r);
            if (n - done > 1 && roll(cfg.p_short_write, "fault.short socket write")) {
                k = std::min<size_t>(k, 1 + rng.below(n - done - 1));
                transmit(ci, false, p + done, k);
                return done + k;        // a signal arrived after some bytes went out
            }
            transmit(ci, false, p + done, k);
            done += k;
            if (done == n) return done;
        }
        count("server write blocked on a full socket");
        wait_io();
    }
}
static ssize_t stream_read(int fd, char* p, size_t n) {
    int ci = fds[fd].x; Conn& c = *conns[ci];
    while (true) {
        cancel_point();
        if (cfg.eintr_rw && roll(cfg.p_eintr, "fault.read EINTR")) { errno = EINTR; return -1; }
        if (!c.toS.rx.empty()) {
            size_t k = std::min(n, c.toS.rx.size());
            if (k > 1 && roll(cfg.p_short_read, "fault.short socket read")) k = 1 + rng.below(k - 1);
            check_mem(p, k, true, nullptr);
            memcpy(p, c.toS.rx.data(), k);
            c.toS.rx.erase(0, k);
            io_changed();
            return k;
        }
        if (c.rstS) { errno = ECONNRESET; return -1; }
        if (c.toS.fin) return 0;
        wait_io();
    }
}
static bool readable(int fd) {
    Fd& f = fds[fd];
    if (f.k == FD_STREAM) { Conn& c = *conns[f.x]; return !c.toS.rx.empty() || c.toS.fin || c.rstS; }
    if (f.k == FD_PIPE_R) return !pipes[f.x]->buf.empty() || !pipes[f.x]->w;
    if (f.k == FD_LISTEN) return !f.backlog.empty();
    if (f.k == FD_UDP) return !f.q.empty();
    return true;
}
static void close_stream(int fd) {
    int ci = fds[fd].x; Conn& c = *conns[ci];
    c.s_closed = true; c.sfd = -1;
    if (c.rstS) return;
    if (!c.toS.rx.empty()) post(ci, false, "", 2);
    else post(ci, false, "", 1);
    c.toS.rx.clear();
}

// ------------------------------------------------------------------ client side
int cl_connect(int port, uint64_t until) {
    while (true) {
        for (size_t i = 3; i < fds.size(); ++i)
            if (fds[i].k == FD_LISTEN && fds[i].port == port) {
                Conn* c = new Conn; conns.push_back(c);
                int ci = (int) conns.size() - 1;
                block_until(now_ns + 1 + rng.below(cfg.net_delay_ns + 1));
                fds[i].backlog.push_back(ci);
                io_changed();
                return ci;
            }
        if (now_ns >= until) return -1;
        block_until(std::min(until, now_ns + 20000000));
    }
}
bool cl_send(int ci, const std::string& data, uint64_t until) {
    Conn& c = *conns[ci];
    size_t done = 0;
    while (done < data.size()) {
        if (c.rstC || c.c_closed) return false;
        size_t r = room(c.toS);
        if (r) { size_t k = std::min(r, data.size() - done); transmit(ci, true, data.data() + done, k); done += k; continue; }
        if (now_ns >= until) return false;
        wait_io(until);
    }
    point();
    return true;
}
int cl_recv(int ci, std::string& out, uint64_t until) {
    Conn& c = *conns[ci];
    while (true) {
        if (!c.toC.rx.empty()) {
            size_t k = c.toC.rx.size();
            if (k > 1 && rng.chance(0.3)) k = 1 + rng.below(k);
            out.append(c.toC.rx, 0, k); c.toC.rx.erase(0, k);
            io_changed();
            return (int) k;
        }
        if (c.rstC) return -1;
        if (c.toC.fin) return 0;
        if (now_ns >= until) return -2;
        wait_io(until);
    }
}
bool cl_broken(int ci) { return conns[ci]->rstC || conns[ci]->toC.fin; }
void cl_close(int ci, int how) {
    Conn& c = *conns[ci];
    if (c.c_closed) return;
    if (how == CLOSE_HALF) { if (!c.c_half) { c.c_half = true; post(ci, true, "", 1); } return; }
    c.c_closed = true;
    if (how == CLOSE_RST || !c.toC.rx.empty()) post(ci, true, "", 2);
    else if (!c.c_half) post(ci, true, "", 1);
    c.toC.rx.clear();
    io_changed();
}
int fd_pair(int* conn) {
    Conn* c = new Conn; conns.push_back(c); *conn = (int) conns.size() - 1;
    int fd = new_fd(FD_STREAM); fds[fd].x = *conn; c->sfd = fd;
    return fd;
}
struct UdpEv { int port, from; bool to_server; std::string data; };
static void udp_deliver(void* a) {
    UdpEv* e = (UdpEv*) a;
    if (e->to_server) { for (auto& f : fds) if (f.k == FD_UDP && f.port == e->port && f.q.size() < 64) { f.q.push_back(Dgram{e->data, e->from}); break; } }
    else udp_in[e->from].push_back(e->data);
    delete e;
    io_changed();
}
static void udp_post(int port, int from, bool to_server, const std::string& data) {
    if (roll(cfg.udp_loss, to_server ? "fault.request datagram lost" : "fault.reply datagram lost")) return;
    int n = roll(cfg.udp_dup, to_server ? "fault.request datagram duplicated" : "fault.reply datagram duplicated") ? 2 : 1;
    while (n--) at_time(now_ns + 1 + rng.below(cfg.udp_delay_ns + 1), udp_deliver, new UdpEv{port, from, to_server, data});
}
void cl_udp_send(int port, int from, const std::string& data) { udp_post(port, from, true, data); point(); }
bool cl_udp_recv(int from, std::string& out, uint64_t until) {
    while (true) {
        auto& q = udp_in[from];
        if (!q.empty()) { out = q.front(); q.pop_front(); return true; }
        if (now_ns >= until) return false;
        wait_io(until);
    }
}

// ------------------------------------------------------------------ time and signals
uint64_t wall_ns() { return now_ns + clock_offset_ns; }
static uint64_t timer_interval, timer_next = ~0ull;
static std::deque<int> pending_signals;
static int sig_fiber = -1;
static void deliver_signal(int sig) {
    auto h = handlers.find(sig);
    if (h == handlers.end() || h->second == SIG_DFL) { die_by(sig); return; }
    if (h->second != SIG_IGN) h->second(sig);
    for (auto& x : interruptible) if (x.second && rng.chance(cfg.p_eintr_wait)) { interrupted[x.first] = true; count("fault.wait interrupted by a signal"); wake(x.first); }
}
static void signal_daemon(void*) {
    while (true) {
        block_until(pending_signals.empty() ? timer_next : now_ns);
        while (!pending_signals.empty()) { int s = pending_signals.front(); pending_signals.pop_front(); deliver_signal(s); }
        if (now_ns >= timer_next) { if (timer_interval) timer_next = now_ns + timer_interval; else timer_next = ~0ull; deliver_signal(SIGALRM); }
    }
}
static void need_sig_fiber() { if (sig_fiber < 0) sig_fiber = spawn(signal_daemon, nullptr, "signals", true); else wake(sig_fiber); }
void raise_signal(int sig) { pending_signals.push_back(sig); need_sig_fiber(); }
// Sleeps; true if interrupted.
static bool nap(uint64_t ns) {
    cancel_point();
    int me = self();
    interruptible[me] = true; interrupted[me] = false;
    uint64_t until = now_ns + ns;
    while (now_ns < until && !interrupted[me] && !cancel_req.count(me)) block_until(until);
    interruptible[me] = false;
    cancel_point();
    return interrupted[me];
}

// ------------------------------------------------------------------ threads
struct Thread { void* (*fn)(void*); void* arg; };
static void thread_main(void* a) {
    Thread t = *(Thread*) a; delete (Thread*) a;
    if (roll(cfg.p_thread_delay, "fault.slow thread start")) sleep_until(now_ns + rng.below(50000000));
    thread_result[self()] = t.fn(t.arg);
    io_changed();
}
struct Mutex { int owner = -1; int locked = 0; };
static std::map<void*, Mutex> mutexes;
struct Waiter { int f; bool signaled; };
static std::map<void*, std::deque<Waiter*>> conds;
static void mutex_lock(void* m) {
    int me = self();
    point();
    if (mutexes[m].owner == me) fail("deadlock", "thread %s locks a mutex it already holds", fiber_name(me));
    while (mutexes[m].owner >= 0) wait_io();
    mutexes[m].owner = me;
}
static void mutex_unlock(void* m) {
    if (mutexes[m].owner != self()) fail("mutex-misuse", "thread %s unlocks a mutex held by %s", fiber_name(self()), fiber_name(mutexes[m].owner));
    mutexes[m].owner = -1;
    io_changed();
    point();
}
static bool cond_wait(void* cv, void* m, uint64_t until) {      // false: timed out
    Waiter w{self(), false};
    conds[cv].push_back(&w);
    if (mutexes[m].owner != self()) fail("mutex-misuse", "condition wait without holding the mutex (thread %s)", fiber_name(self()));
    mutexes[m].owner = -1;
    io_changed();
    bool timeout = false;
    uint64_t spurious = roll(cfg.p_spurious, "fault.spurious wake-up") ? now_ns + rng.below(1000000) : ~0ull;
    while (!w.signaled) {
        wait_io(std::min(until, spurious));
        if (cancel_req.count(self())) break;
        if (now_ns >= until) { timeout = true; break; }
        if (now_ns >= spurious) break;
    }
    auto& q = conds[cv];
    q.erase(std::remove(q.begin(), q.end(), &w), q.end());
    while (mutexes[m].owner >= 0) wait_io();
    mutexes[m].owner = self();
    if (cancel_req.count(self())) { mutexes[m].owner = -1; cancel_point(); }
    return w.signaled || !timeout;
}
void init(uint64_t seed) { rng = Rng(mix(seed, 0x05)); if (fds.size() < 3) fds.resize(3); }
} // namespace simos

using namespace simos;
extern "C" {
// ------------------------------------------------------------------ files
static int open_path(const char* path, int flags) {
    cancel_point();
    point();
    std::string p = norm(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (fault_now("open")) { errno = EMFILE; return -1; }
    auto i = disk.names.find(p);
    if (i == disk.names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (!dir_ok(parent_of(p))) { errno = ENOENT; return -1; }
        if (fault_now("create")) { errno = ENOSPC; return -1; }
        int n = (int) disk.ino.size();
        disk.ino.emplace_back(); disk.names[p] = n;
        disk.journal.push_back(Meta{M_CREATE, p, "", n, 0});
        i = disk.names.find(p);
        disk_step(p);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    Inode& in = disk.ino[i->second];
    if (in.dir && wr) { errno = EISDIR; return -1; }
    if ((flags & O_TRUNC) && wr && !in.cur.empty()) {
        in.cur.clear(); in.dirty = true;
        disk.journal.push_back(Meta{M_TRUNC, "", "", i->second, 0});
        disk_step(p);
    }
    int fd = new_fd(FD_FILE);
    fds[fd].x = i->second; fds[fd].flags = flags; fds[fd].path = p;
    return fd;
}
int sim_open(const char* path, int flags, ...) { return open_path(path, flags); }
int sim_creat(const char* path, mode_t) { return open_path(path, O_CREAT | O_WRONLY | O_TRUNC); }
int sim_close(int fd) {
    cancel_point();
    point();
    Fd* f = get(fd);
    if (!f) { count("close of a descriptor that is not open"); return -1; }
    if (f->k == FD_STREAM) close_stream(fd);
    else if (f->k == FD_PIPE_R) pipes[f->x]->r = false;
    else if (f->k == FD_PIPE_W) pipes[f->x]->w = false;
    for (auto& g : fds) if (g.k == FD_EPOLL) g.ep.erase(fd);
    bool bad = f->k == FD_FILE && fault_now("close");
    fds[fd] = Fd();
    io_changed();
    if (bad) { errno = EIO; return -1; }
    return 0;
}
static ssize_t file_write(Fd* f, const char* p, size_t n, uint64_t off, bool append) {
    Inode& in = disk.ino[f->x];
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    check_mem(p, n, false, nullptr);
    if (cfg.eintr_rw && roll(cfg.p_eintr, "fault.write EINTR")) { errno = EINTR; return -1; }
    if (fault_now("write EIO")) { errno = EIO; return -1; }
    if (fault_now("write ENOSPC")) { errno = ENOSPC; return -1; }
    uint64_t used = cfg.disk_capacity == ~0ull ? 0 : disk_used();
    if (used >= cfg.disk_capacity && n) { disk_error_seen = true; count("fault.disk full"); errno = ENOSPC; return -1; }
    if (cfg.disk_capacity != ~0ull && n > cfg.disk_capacity - used) { n = cfg.disk_capacity - used; disk_error_seen = true; count("fault.disk full, short write"); }
    if (n > 1 && fault_now("short write")) n = 1 + rng.below(n - 1);
    else if (n > 1 && cfg.short_file_writes && roll(cfg.p_short_write, "fault.short file write")) n = 1 + rng.below(n - 1);
    if (append) off = in.cur.size();
    if (in.cur.size() < off) in.cur.resize(off, 0);
    std::string data(p, n);         // as it is now; the caller may not change it before the call returns
    in.cur.replace(off, std::min<size_t>(n, in.cur.size() - off), data);
    in.dirty = true;
    f->off = off + n;
    ++disk_writes; disk_bytes += n;
    disk_step(std::string(f->path));
    if (cfg.write_ns && in_fiber()) sleep_until(now_ns + 1 + rng.below(cfg.write_ns));
    return n;
}
ssize_t sim_write(int fd, const void* b, size_t n) {
    cancel_point();
    point();
    Fd* f = get(fd);
    if (!f) { if (fd == 1 || fd == 2) return n; return -1; }
    if (f->k == FD_FILE) return file_write(f, (const char*) b, n, f->off, f->flags & O_APPEND);
    if (f->k == FD_STREAM) { check_mem(b, n, false, nullptr); return stream_write(fd, (const char*) b, n, false); }
    if (f->k == FD_PIPE_W) { pipes[f->x]->buf.append((const char*) b, n); io_changed(); return n; }
    errno = EINVAL; return -1;
}
ssize_t sim_pwrite(int fd, const void* b, size_t n, off_t off) {
    point();
    Fd* f = get(fd);
    if (!f || f->k != FD_FILE) { errno = EBADF; return -1; }
    uint64_t o = f->off; ssize_t r = file_write(f, (const char*) b, n, off, false); f->off = o; return r;
}
ssize_t sim_writev(int fd, const struct iovec* v, int c) {
    std::string s; for (int i = 0; i < c; ++i) s.append((const char*) v[i].iov_base, v[i].iov_len);
    return sim_write(fd, s.data(), s.size());
}
ssize_t sim_read(int fd, void* b, size_t n) {
    cancel_point();
    point();
    Fd* f = get(fd);
    if (!f) return -1;
    if (f->k == FD_FILE) {
        if (cfg.eintr_rw && roll(cfg.p_eintr, "fault.read EINTR")) { errno = EINTR; return -1; }
        if (fault_now("read EIO")) { errno = EIO; return -1; }
        Inode& in = disk.ino[f->x];
        if (f->off >= in.cur.size()) return 0;
        size_t k = std::min<size_t>(n, in.cur.size() - f->off);
        if (k > 1 && roll(cfg.p_short_read, "fault.short file read")) k = 1 + rng.below(k - 1);
        memcpy(b, in.cur.data() + f->off, k); check_mem(b, k, true, nullptr); f->off += k;
        return k;
    }
    if (f->k == FD_STREAM) return stream_read(fd, (char*) b, n);
    if (f->k == FD_PIPE_R) {
        Pipe& p = *pipes[f->x];
        while (p.buf.empty()) { if (!p.w) return 0; wait_io(); cancel_point(); }
        size_t k = std::min(n, p.buf.size());
        memcpy(b, p.buf.data(), k); p.buf.erase(0, k); io_changed();
        return k;
    }
    errno = EINVAL; return -1;
}
ssize_t sim_pread(int fd, void* b, size_t n, off_t off) {
    Fd* f = get(fd);
    if (!f || f->k != FD_FILE) { errno = EBADF; return -1; }
    uint64_t o = f->off; f->off = off; ssize_t r = sim_read(fd, b, n); f = get(fd); if (f) f->off = o; return r;
}
int sim_fsync(int fd) {
    cancel_point();
    point();
    Fd* f = get(fd);
    if (!f || f->k != FD_FILE) { errno = EBADF; return -1; }
    int ino = f->x;
    uint64_t t = cfg.fsync_ns ? 1 + rng.below(cfg.fsync_ns) : 0;
    if ((cfg.slow_path.empty() || f->path.find(cfg.slow_path) != std::string::npos) && roll(cfg.p_fsync_slow, "fault.stalled fsync")) t += rng.below(cfg.fsync_slow_ns + 1);
    // what had been written when the call was made becomes durable when it returns
    std::string snap = disk.ino[ino].cur;
    max_fsync_taken_ns = std::max(max_fsync_taken_ns, t);
    if (t && in_fiber()) { uint64_t until = now_ns + t; while (now_ns < until) sleep_until(until); }
    if (fault_now("fsync EIO")) { errno = EIO; return -1; }
    ++fsyncs;
    std::string path = get(fd) ? get(fd)->path : std::string();
    disk_step(path);
    commit_journal();
    Inode& in = disk.ino[ino];
    if (in.cur.size() >= snap.size() && in.cur.compare(0, snap.size(), snap) == 0) { in.dur = snap; in.dirty = in.cur != snap; }
    else { in.dur = in.cur; in.dirty = false; }
    disk_step(path);
    point();
    return 0;
}
void sim_sync(void) { commit_journal(); for (auto& i : disk.ino) { i.dur = i.cur; i.dirty = false; } }
static void fill_stat(int ino, struct stat* sb) { memset(sb, 0, sizeof *sb); sb->st_size = disk.ino[ino].cur.size(); sb->st_mode = disk.ino[ino].dir ? S_IFDIR | 0777 : S_IFREG | 0666; sb->st_ino = ino + 10; }
int sim_fstat(int fd, struct stat* sb) { Fd* f = get(fd); point(); if (!f || f->k != FD_FILE) { errno = EBADF; return -1; } if (fault_now("stat")) { errno = EIO; return -1; } fill_stat(f->x, sb); return 0; }
int sim_stat(const char* path, struct stat* sb) {
    point();
    std::string p = norm(path);
    auto i = disk.names.find(p);
    if (i == disk.names.end()) { if (p == "." || p == "/") { memset(sb, 0, sizeof *sb); sb->st_mode = S_IFDIR | 0777; return 0; } errno = ENOENT; return -1; }
    fill_stat(i->second, sb); return 0;
}
int sim_access(const char* path, int) { struct stat sb; return sim_stat(path, &sb); }
int sim_mkdir(const char* path, mode_t) {
    point();
    std::string p = norm(path);
    if (disk.names.count(p)) { errno = EEXIST; return -1; }
    int n = (int) disk.ino.size(); disk.ino.emplace_back(); disk.ino[n].dir = true; disk.names[p] = n;
    disk.journal.push_back(Meta{M_MKDIR, p, "", n, 0});
    return 0;
}
int sim_unlink(const char* path) {
    point();
    std::string p = norm(path);
    auto i = disk.names.find(p);
    if (i == disk.names.end()) { errno = ENOENT; return -1; }
    disk.journal.push_back(Meta{M_UNLINK, p, "", i->second, 0});
    disk.names.erase(i);
    disk_step(p);
    return 0;
}
int sim_rename(const char* a, const char* b) {
    point();
    std::string p = norm(a), q = norm(b);
    auto i = disk.names.find(p);
    if (i == disk.names.end()) { errno = ENOENT; return -1; }
    if (fault_now("rename")) { errno = EIO; return -1; }
    int n = i->second;
    disk.names.erase(i); disk.names[q] = n;
    disk.journal.push_back(Meta{M_RENAME, p, q, n, 0});
    count(("published " + q.substr(q.rfind('/') + 1).substr(0, 11)).c_str());
    disk_step(q);
    return 0;
}
static int trunc_ino(int ino, off_t len) {
    Inode& in = disk.ino[ino];
    if ((uint64_t) len == in.cur.size()) return 0;
    in.cur.resize(len, 0); in.dirty = true;
    disk.journal.push_back(Meta{M_TRUNC, "", "", ino, (uint64_t) len});
    disk_step("");
    return 0;
}
int sim_ftruncate(int fd, off_t len) { point(); Fd* f = get(fd); if (!f || f->k != FD_FILE) { errno = EBADF; return -1; } if (fault_now("truncate")) { errno = EIO; return -1; } return trunc_ino(f->x, len); }
int sim_truncate(const char* p, off_t len) { auto i = disk.names.find(norm(p)); if (i == disk.names.end()) { errno = ENOENT; return -1; } return trunc_ino(i->second, len); }
off_t sim_lseek(int fd, off_t off, int wh) {
    Fd* f = get(fd);
    if (!f || f->k != FD_FILE) { errno = EBADF; return -1; }
    f->off = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->off + off : disk.ino[f->x].cur.size() + off;
    return f->off;
}
void* sim_mmap(void*, size_t n, int, int flags, int fd, off_t off) {
    point();
    if (!n) { errno = EINVAL; return MAP_FAILED; }
    size_t r = (n + 4095) & ~size_t(4095);
    char* p = (char*) arena_alloc(r, 4096);
    memset(p, 0, r);
    if (!(flags & MAP_ANONYMOUS)) {
        Fd* f = get(fd);
        if (!f || f->k != FD_FILE) { errno = EBADF; return MAP_FAILED; }
        if (fault_now("mmap")) { errno = ENOMEM; return MAP_FAILED; }
        Inode& in = disk.ino[f->x];
        if ((uint64_t) off < in.cur.size()) memcpy(p, in.cur.data() + off, std::min<size_t>(r, in.cur.size() - off));
    }
    return p;
}
int sim_munmap(void* p, size_t) { if (!arena_free(p, "munmap")) { errno = EINVAL; return -1; } return 0; }
int sim_msync(void*, size_t, int) { return 0; }
int sim_fcntl(int, int, ...) { return 0; }
int sim_dup(int) { errno = EMFILE; return -1; }

// ------------------------------------------------------------------ time
static void to_tv(uint64_t ns, struct timeval* tv) { tv->tv_sec = ns / 1000000000; tv->tv_usec = ns % 1000000000 / 1000; }
int sim_gettimeofday(struct timeval* tv, void*) { point(); to_tv(wall_ns(), tv); check_mem(tv, sizeof *tv, true, nullptr); return 0; }
int sim_clock_gettime(clockid_t c, struct timespec* ts) { point(); uint64_t t = c == CLOCK_REALTIME ? wall_ns() : now_ns; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t sim_time(time_t* t) { time_t x = wall_ns() / 1000000000; if (t) *t = x; return x; }
int sim_nanosleep(const struct timespec* a, struct timespec* rem) { uint64_t t0 = now_ns, d = a->tv_sec * 1000000000ull + a->tv_nsec; if (nap(d)) { uint64_t left = now_ns - t0 < d ? d - (now_ns - t0) : 0; if (rem) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; } errno = EINTR; return -1; } return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* rem) { return sim_nanosleep(a, rem) ? EINTR : 0; }
int sim_usleep(useconds_t u) { if (nap(u * 1000ull)) { errno = EINTR; return -1; } return 0; }
unsigned sim_sleep(unsigned s) { uint64_t t0 = now_ns; if (nap(s * 1000000000ull)) { uint64_t g = (now_ns - t0) / 1000000000; return g < s ? s - g : 0; } return 0; }
int sim_sched_yield(void) { yield_spin(); return 0; }
void (*sim_signal(int sig, void (*h)(int)))(int) { auto o = handlers.count(sig) ? handlers[sig] : SIG_DFL; handlers[sig] = h; return o; }
int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { if (o) { memset(o, 0, sizeof *o); o->sa_handler = handlers.count(sig) ? handlers[sig] : SIG_DFL; } if (a) handlers[sig] = a->sa_handler; return 0; }
int sim_setitimer(int, const struct itimerval* a, struct itimerval*) {
    timer_interval = a->it_interval.tv_sec * 1000000000ull + a->it_interval.tv_usec * 1000ull;
    uint64_t v = a->it_value.tv_sec * 1000000000ull + a->it_value.tv_usec * 1000ull;
    timer_next = v ? now_ns + v : ~0ull;
    need_sig_fiber();
    return 0;
}
unsigned sim_alarm(unsigned s) { timer_interval = 0; timer_next = s ? now_ns + s * 1000000000ull : ~0ull; need_sig_fiber(); return 0; }
int sim_sched_setaffinity(pid_t, size_t, const void*) { return 0; }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : 2; }
void sim_exit(int code) { exited = true; exit_code = code; for (;;) sim::stop(); }

// ------------------------------------------------------------------ sockets, pipes, epoll
int sim_socket(int, int type, int) { int fd = new_fd(FD_SOCKET); fds[fd].dgram = (type & 0xf) == SOCK_DGRAM; return fd; }
int sim_bind(int fd, const struct sockaddr* a, socklen_t) {
    Fd* f = get(fd); if (!f) return -1;
    int port = ntohs(((const struct sockaddr_in*) a)->sin_port);
    for (auto& g : fds) if (&g != f && g.k != FD_FREE && g.port == port && g.dgram == f->dgram) { errno = EADDRINUSE; return -1; }
    f->port = port;
    if (f->dgram) f->k = FD_UDP;
    return 0;
}
int sim_listen(int fd, int) { Fd* f = get(fd); if (!f) return -1; f->k = FD_LISTEN; io_changed(); return 0; }
static void fill_addr(struct sockaddr* a, socklen_t* n, int port) {
    if (!a) return;
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(0x7f000001);
    memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s;
}
int sim_accept(int fd, struct sockaddr* a, socklen_t* n) {
    cancel_point();
    point();
    Fd* f = get(fd);
    if (!f || f->k != FD_LISTEN) { errno = EINVAL; return -1; }
    while (fds[fd].backlog.empty()) { wait_io(); cancel_point(); }
    if (roll(cfg.p_accept_abort, "fault.accept ECONNABORTED")) { int ci = fds[fd].backlog.front(); fds[fd].backlog.pop_front(); conns[ci]->aborted = conns[ci]->s_closed = true; conns[ci]->rstC = true; io_changed(); errno = ECONNABORTED; return -1; }
    int ci = fds[fd].backlog.front(); fds[fd].backlog.pop_front();
    int s = new_fd(FD_STREAM);
    fds[s].x = ci; conns[ci]->sfd = s;
    fill_addr(a, n, 30000 + ci);
    return s;
}
int sim_accept4(int fd, struct sockaddr* a, socklen_t* n, int) { return sim_accept(fd, a, n); }
int sim_shutdown(int fd, int how) { Fd* f = get(fd); if (!f || f->k != FD_STREAM) { errno = ENOTCONN; return -1; } if (how != SHUT_RD) post(f->x, false, "", 1); return 0; }
int sim_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int sim_getsockopt(int, int, int, void* v, socklen_t* n) { if (v && n && *n >= 4) memset(v, 0, *n); return 0; }
ssize_t sim_send(int fd, const void* b, size_t n, int flags) { cancel_point(); point(); Fd* f = get(fd); if (!f || f->k != FD_STREAM) { errno = EBADF; return -1; } check_mem(b, n, false, nullptr); return stream_write(fd, (const char*) b, n, flags & MSG_NOSIGNAL); }
ssize_t sim_recv(int fd, void* b, size_t n, int) { return sim_read(fd, b, n); }
ssize_t sim_recvfrom(int fd, void* b, size_t n, int, struct sockaddr* a, socklen_t* an) {
    cancel_point();
    point();
    Fd* f = get(fd);
    if (!f) return -1;
    if (f->k != FD_UDP) return sim_read(fd, b, n);
    while (fds[fd].q.empty()) { wait_io(); cancel_point(); }
    Dgram d = fds[fd].q.front(); fds[fd].q.pop_front();
    size_t k = std::min(n, d.data.size());
    memcpy(b, d.data.data(), k); check_mem(b, k, true, nullptr);
    fill_addr(a, an, d.from);
    return k;
}
ssize_t sim_sendto(int fd, const void* b, size_t n, int, const struct sockaddr* a, socklen_t) {
    cancel_point();
    point();
    Fd* f = get(fd);
    if (!f || f->k != FD_UDP) { errno = EBADF; return -1; }
    check_mem(b, n, false, nullptr);
    if (n > 65507) { count("replies too large for a datagram"); errno = EMSGSIZE; return -1; }
    udp_post(f->port, ntohs(((const struct sockaddr_in*) a)->sin_port), false, std::string((const char*) b, n));
    return n;
}
int sim_pipe(int* p) {
    pipes.push_back(new Pipe); int x = (int) pipes.size() - 1;
    p[0] = new_fd(FD_PIPE_R); fds[p[0]].x = x; p[1] = new_fd(FD_PIPE_W); fds[p[1]].x = x;
    return 0;
}
int sim_pipe2(int* p, int) { return sim_pipe(p); }
int sim_epoll_create(int) { return new_fd(FD_EPOLL); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    point();
    Fd* e = get(ep); if (!e || e->k != FD_EPOLL) { errno = EBADF; return -1; }
    if (!get(fd)) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_DEL) { if (!e->ep.erase(fd)) { errno = ENOENT; return -1; } return 0; }
    if (op == EPOLL_CTL_ADD && e->ep.count(fd)) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && !e->ep.count(fd)) { errno = ENOENT; return -1; }
    { uint32_t w = ev->events; uint64_t d = ev->data.u64; e->ep[fd] = {w, d}; }
    io_changed();
    return 0;
}
int sim_epoll_wait(int ep, struct epoll_event* out, int max, int timeout) {
    cancel_point();
    point();
    uint64_t until = timeout < 0 ? ~0ull : now_ns + timeout * 1000000ull;
    int me = self();
    while (true) {
        Fd* e = get(ep); if (!e || e->k != FD_EPOLL) { errno = EBADF; return -1; }
        std::vector<struct epoll_event> r;
        for (auto& x : e->ep) {
            uint32_t got = 0;
            if ((x.second.first & EPOLLIN) && readable(x.first)) got |= EPOLLIN;
            if ((x.second.first & EPOLLOUT) && fds[x.first].k == FD_STREAM && room(conns[fds[x.first].x]->toC)) got |= EPOLLOUT;
            if (fds[x.first].k == FD_STREAM && conns[fds[x.first].x]->rstS) got |= EPOLLERR | EPOLLHUP;
            if (got) { struct epoll_event v; v.events = got; v.data.u64 = x.second.second; r.push_back(v); }
        }
        if (!r.empty()) {
            for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[rng.below(i)]);
            int n = std::min<int>(max, (int) r.size());
            if (n > 1 && rng.chance(0.2)) n = 1 + (int) rng.below(n);
            memcpy(out, r.data(), n * sizeof *out);
            return n;
        }
        if (now_ns >= until) return 0;
        interruptible[me] = true; interrupted[me] = false;
        wait_io(until);
        interruptible[me] = false;
        cancel_point();
        if (interrupted[me]) { interrupted[me] = false; errno = EINTR; return -1; }
    }
}
int sim_select(int n, fd_set* r, fd_set* w, fd_set*, struct timeval* tv) {
    point();
    uint64_t until = tv ? now_ns + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : ~0ull;
    while (true) {
        fd_set rr; FD_ZERO(&rr); int k = 0;
        for (int i = 3; r && i < n && i < (int) fds.size(); ++i) if (FD_ISSET(i, r) && fds[i].k != FD_FREE && readable(i)) { FD_SET(i, &rr); ++k; }
        if (k || now_ns >= until) { if (r) *r = rr; if (w) FD_ZERO(w); return k; }
        wait_io(until);
    }
}
int sim_poll(struct pollfd* p, nfds_t n, int timeout) {
    point();
    uint64_t until = timeout < 0 ? ~0ull : now_ns + timeout * 1000000ull;
    while (true) {
        int k = 0;
        for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (get(p[i].fd) && readable(p[i].fd)) p[i].revents |= p[i].events & POLLIN; if (get(p[i].fd) && (p[i].events & POLLOUT) && fds[p[i].fd].k == FD_STREAM && room(conns[fds[p[i].fd].x]->toC)) p[i].revents |= POLLOUT; k += p[i].revents != 0; }
        if (k || now_ns >= until) return k;
        wait_io(until);
    }
}

// ------------------------------------------------------------------ pthreads
int sim_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    point();
    static int serial; char nm[24]; snprintf(nm, sizeof nm, "thread%d", ++serial);
    int f = spawn(thread_main, new Thread{fn, arg}, nm, true, thread_stack);
    set_stallable(f);
    *t = (pthread_t) (f + 1);
    return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t) (self() + 1); }
int sim_pthread_join(pthread_t t, void** r) { int f = (int) t - 1; while (!fiber_done(f)) wait_io(now_ns + 10000000); if (r) *r = thread_result[f]; return 0; }
int sim_pthread_detach(pthread_t) { return 0; }
int sim_pthread_cancel(pthread_t t) { int f = (int) t - 1; if (!fiber_done(f)) { cancel_req.insert(f); wake(f); } return 0; }
void sim_pthread_exit(void* r) { thread_result[self()] = r; io_changed(); exit_fiber(); }
int sim_pthread_setcancelstate(int, int*) { return 0; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { mutexes[m] = Mutex(); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { mutexes.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { mutex_lock(m); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { point(); if (mutexes[m].owner >= 0) return EBUSY; mutexes[m].owner = self(); return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { mutex_unlock(m); return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { for (auto* w : conds[c]) w->signaled = true; conds[c].clear(); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { conds.erase(c); return 0; }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cancel_point(); cond_wait(c, m, ~0ull); return 0; }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    cancel_point();
    int64_t abs = ts->tv_sec * 1000000000ll + ts->tv_nsec - clock_offset_ns;
    return cond_wait(c, m, abs < 0 ? 0 : (uint64_t) abs) ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_signal(pthread_cond_t* c) {
    point();
    auto& q = conds[c];
    std::vector<Waiter*> v; for (auto* w : q) if (!w->signaled) v.push_back(w);
    if (!v.empty()) { v[rng.below(v.size())]->signaled = true; io_changed(); }
    return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) { point(); for (auto* w : conds[c]) w->signaled = true; io_changed(); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* l) { while (*l) yield_spin(); *l = 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* l) { *l = 0; return 0; }
}
