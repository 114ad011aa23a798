// Instrumented glue: drives the repository's buffered output, file helpers and message parser.
#include <vector>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <string.h>
#include <errno.h>
#include "kvio.hh"
#include "file.hh"
#include "msgpack.hh"
#include "json.hh"
#include "straccum.hh"
#include "ioglue.h"
#include "kvthread.hh"
using lcdf::String; using lcdf::StringAccum; using lcdf::Json;
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
volatile bool recovering = false;
static char* dup_bytes(const char* p, size_t n) { char* r = (char*) malloc(n ? n : 1); memcpy(r, p, n); return r; }
static void put_hex(StringAccum& sa, const char* p, size_t n) { static const char d[] = "0123456789abcdef"; for (size_t i = 0; i < n; ++i) { sa << d[(unsigned char) p[i] >> 4] << d[p[i] & 15]; } }
static int cmp_hexed(const String& a, const String& b) { int n = a.length() < b.length() ? a.length() : b.length(); int r = memcmp(a.data(), b.data(), n); return r ? r : a.length() - b.length(); }
static void canon(StringAccum& sa, const Json& j) {
    char b[64];
    if (j.is_null()) sa << 'n';
    else if (j.is_b()) sa << (j.as_b() ? 't' : 'f');
    else if (j.is_u()) { snprintf(b, sizeof b, "i%llu", (unsigned long long) j.as_u()); sa << b; }
    else if (j.is_i()) { snprintf(b, sizeof b, "i%lld", (long long) j.as_i()); sa << b; }
    else if (j.is_d()) { double d = j.as_d(); uint64_t u; memcpy(&u, &d, 8); snprintf(b, sizeof b, "d%016llx", (unsigned long long) u); sa << b; }
    else if (j.is_s()) { String s = j.as_s(); sa << 's'; put_hex(sa, s.data(), s.length()); }
    else if (j.is_a()) { sa << '['; for (int i = 0; i < j.size(); ++i) { canon(sa, j[i]); sa << ','; } sa << ']'; }
    else if (j.is_o()) {
        std::vector<std::pair<String, const Json*> > v;
        for (auto it = j.cobegin(); it != j.coend(); ++it) v.push_back(std::make_pair(it.key(), &it.value()));
        for (size_t i = 1; i < v.size(); ++i) for (size_t k = i; k && cmp_hexed(v[k].first, v[k - 1].first) < 0; --k) std::swap(v[k], v[k - 1]);
        sa << '{'; for (auto& x : v) { put_hex(sa, x.first.data(), x.first.length()); sa << ':'; canon(sa, *x.second); sa << ','; } sa << '}';
    } else sa << '?';
}
extern "C" {
void ig_ignore_sigpipe() { signal(SIGPIPE, SIG_IGN); }
void* ig_out_new(int fd, int cap) { return new_kvout(fd, cap); }
void* ig_out_newbuf() { return new_bufkvout(); }
void ig_out_write(void* o, const char* p, unsigned n) { kvwrite((kvout*) o, p, n); }
void ig_out_char(void* o, char c) { ((kvout*) o)->append(c); }
void ig_out_reserve(void* o, const char* p, int n, int extra) {
    kvout* k = (kvout*) o; char* s = k->reserve(n + extra); memcpy(s, p, n);
    if (extra & 1) k->adjust_length(n); else k->set_end(s + n);
}
void ig_out_flush(void* o) { kvflush((kvout*) o); }
void ig_out_free(void* o) { free_kvout((kvout*) o); }
void ig_out_reset(void* o) { kvout_reset((kvout*) o); }
unsigned ig_out_n(void* o) { return ((kvout*) o)->n; }
const char* ig_out_buf(void* o) { return ((kvout*) o)->buf; }
static bool parse_all(const char* enc, size_t n, Json& j) {
    msgpack::streaming_parser p; size_t pos = 0;
    while (!p.done() && pos < n) pos += p.consume(enc + pos, n - pos);
    if (!p.success() || pos != n) return false;
    j = p.result(); return true;
}
int ig_out_msgpack(void* o, const char* enc, size_t n) { Json j; if (!parse_all(enc, n, j)) return 0; kvout* k = (kvout*) o; msgpack::unparser<kvout> u(*k); u << j; return 1; }
int ig_unparse(const char* enc, size_t n, int kind, char** out, size_t* nout) {
    Json j; if (!parse_all(enc, n, j)) return 0;
    StringAccum sa;
    if (kind == 0) { msgpack::unparser<StringAccum> u(sa); u << j; } else msgpack::unparse(sa, j);
    *nout = sa.length(); *out = dup_bytes(sa.data(), sa.length()); return 1;
}
int ig_plain_parse(const char* enc, size_t n, int kind, int64_t* i, char** s, size_t* ns, long* used) {
    // exactly n readable bytes
    char* c = dup_bytes(enc, n); *s = nullptr; *ns = 0;
    { msgpack::parser p(c);
      if (kind == 0) { long x = 0; p >> x; *i = x; }
      else if (kind == 1) { int x = 0; p >> x; *i = x; }
      else if (kind == 2) { unsigned long x = 0; p.read_int(x); *i = (int64_t) x; }
      else { lcdf::Str x; p >> x; *s = dup_bytes(x.s, x.len); *ns = x.len; }
      *used = p.position() - c; }
    free(c); return 1;
}
int ig_read_file(const char* name, char** data, size_t* n, int* err) {
    errno = 0; String s = read_file_contents(name); *err = errno; *n = s.length(); *data = dup_bytes(s.data(), s.length()); return !(s.empty() && *err);
}
int ig_write_file(int atomic, const char* name, const char* p, size_t n) { String s(p, (int) n); return atomic ? atomic_write_file_contents(name, s) : sync_write_file_contents(name, s); }
long ig_safe_rw(int w, int fd, char* p, size_t n) { return w ? safe_write(fd, p, n) : safe_read(fd, p, n); }
int ig_open(const char* name, int flags) { return open(name, flags, 0666); }
int ig_close(int fd) { return close(fd); }
void ig_release(char* p) { free(p); }
void ig_parse_stream(int fd, ig_parse_opt* o, ig_msg_cb cb, void* ctx) {
    msgpack::streaming_parser parser; size_t total = 0;
    std::vector<char*> old; std::vector<String> olds;
    char* buf = (char*) malloc(o->bufsz); int pos = 0, len = 0;
    String sbuf;
    auto emit = [&](int ok) { StringAccum sa; if (ok) canon(sa, parser.result()); cb(ctx, ok, sa.data(), sa.length(), total); };
    while (true) {
        if (pos == len) {
            // like the server's connections: the buffer is reused from the start once nothing refers to it
            if (parser.empty()) { pos = len = 0; for (char* x : old) free(x); old.clear(); }
            else if (pos == o->bufsz || o->mode == 2) { old.push_back(buf); buf = (char*) malloc(o->bufsz); pos = len = 0; }
            int want = o->bufsz - len < o->readsz ? o->bufsz - len : o->readsz;
            ssize_t r = read(fd, buf + len, want);
            if (r <= 0) { if (r < 0 && errno == EINTR) continue; break; }
            len += r;
        }
        size_t c;
        if (o->mode == 0) {
            char* tmp = dup_bytes(buf + pos, len - pos);      // gone as soon as it has been parsed
            c = parser.consume(tmp, (size_t) (len - pos)); free(tmp);
        } else if (o->mode == 1) c = parser.consume(buf + pos, (size_t) (len - pos), String::make_stable(buf, o->bufsz));
        else { String s(buf + pos, len - pos); c = parser.consume(s.data(), (size_t) s.length(), s); }
        pos += c; total += c;
        if (parser.done()) {
            if (parser.error()) { emit(0); break; }
            emit(1);
            parser.reset();
        }
    }
    cb(ctx, -1, nullptr, parser.empty() ? 1 : 0, total);
    for (char* x : old) free(x);
    free(buf); close(fd);
}
}
