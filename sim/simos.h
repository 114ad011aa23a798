// The simulated operating system below the server: files on a disk with crash semantics, sockets, pipes, epoll,
// pthreads, clocks, timers and signals.  Everything is driven by the simulator; nothing reaches the real kernel.
#ifndef SIMOS_H
#define SIMOS_H 1
#include "simrt.h"
#include <map>
#include <deque>
#include <set>

namespace simos {
using sim::Rng;

struct DiskFault { std::string kind; uint64_t at; uint64_t n; };     // kind, first matching operation it hits, how many in a row
struct Cfg {
    // calls on files and sockets
    double p_short_read = 0, p_short_write = 0, p_eintr = 0, p_again = 0;
    bool short_file_writes = true;      // the last piece of a nearly full disk or an interrupted write; not on a healthy disk
    bool eintr_rw = false;              // read/write may fail with EINTR (handlers installed without SA_RESTART)
    double p_eintr_wait = 0;            // sleeps and waits end early when a timer signal arrives
    double p_spurious = 0;              // spurious condition wake-ups
    // network
    uint64_t net_delay_ns = 50000; int segment = 0; size_t sockbuf = 65536; double p_reset_loses = 0.5;
    double udp_loss = 0, udp_dup = 0; uint64_t udp_delay_ns = 50000;
    double p_accept_abort = 0;
    double p_thread_delay = 0;          // a new thread starts late
    // disk
    std::string slow_path;              // only syncs of files whose path contains this are stalled
    uint64_t write_ns = 20000, fsync_ns = 1000000; double p_fsync_slow = 0; uint64_t fsync_slow_ns = 0;
    std::vector<DiskFault> disk_faults;
    uint64_t disk_capacity = ~0ull;
};
extern Cfg cfg;
void init(uint64_t seed);               // after sim::init
extern Rng rng;

// ---------------------------------------------------------------- disk
struct Write { uint64_t off; std::string data; };
struct Inode {
    bool dir = false;
    std::string cur, dur;               // what reads see; what survives a power failure for certain
    bool dirty = false;
};
enum MetaKind { M_CREATE, M_MKDIR, M_RENAME, M_UNLINK, M_TRUNC };
struct Meta { MetaKind k; std::string a, b; int ino; uint64_t len; };
struct Disk {
    std::deque<Inode> ino;
    std::map<std::string, int> names, dnames;      // as seen now; as durably recorded
    std::vector<Meta> journal;                      // metadata operations not yet durable, in order
};
extern Disk disk;
std::string disk_save();
void disk_load(const std::string& s);
// Power failure: a prefix of the pending metadata operations survives; of each file's unsynced tail a random prefix,
// possibly followed by zeros (allowed only where zero_ok(content before the zeros) says so).
void power_failure(Rng& r, bool (*zero_ok)(const std::string& path, const std::string& kept), std::string* log);
bool file_exists(const std::string& path);
std::string file_get(const std::string& path);
void file_put(const std::string& path, const std::string& data, bool durable);
uint64_t disk_used();
extern uint64_t fsyncs, disk_writes, disk_bytes;
extern uint64_t max_fsync_taken_ns;
extern uint64_t disk_ops; extern void (*on_disk_op)(uint64_t, const std::string& path);
extern bool disk_error_seen;            // an injected disk error was delivered in this execution

// ---------------------------------------------------------------- process
extern bool exited; extern int exit_code; extern int killed_by;
extern void (*on_killed)(int sig);
void raise_signal(int sig);             // deliver asynchronously through the registered handler
extern int64_t clock_offset_ns;         // wall clock = simulated time + offset
uint64_t wall_ns();
extern size_t thread_stack;
int sim_fd_conn(int conn);              // fd of the server's side of a connection, -1

// ---------------------------------------------------------------- client side of the network (never instrumented)
bool cl_aborted(int conn);                               // the simulator made accept() fail for this connection
int cl_connect(int port, uint64_t give_up_ns);          // connection id, -1: refused or gave up
bool cl_send(int c, const std::string& data, uint64_t give_up_ns);      // false: connection broken or gave up
int cl_recv(int c, std::string& out, uint64_t until_ns);        // >0 bytes appended, 0: closed by the server, -1: reset, -2: time
enum { CLOSE_FIN, CLOSE_RST, CLOSE_HALF };
void cl_close(int c, int how);
bool cl_broken(int c);                 // the server side is closed or reset, as the client can tell by now
void cl_udp_send(int port, int from, const std::string& data);
bool cl_udp_recv(int from, std::string& out, uint64_t until_ns);
// server-side file descriptors for harnesses that drive code directly
int fd_pair(int* conn);                 // a connected stream: returns the server-side fd, *conn the client id
size_t open_fds();
}
#endif
