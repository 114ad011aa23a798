#ifndef IOGLUE_H
#define IOGLUE_H 1
#include <stddef.h>
#include <stdint.h>
extern "C" {
// buffered output
void* ig_out_new(int fd, int cap); void* ig_out_newbuf();
void ig_out_write(void* o, const char* p, unsigned n); void ig_out_char(void* o, char c);
void ig_out_reserve(void* o, const char* p, int n, int extra);
void ig_out_flush(void* o); void ig_out_free(void* o); void ig_out_reset(void* o);
void ig_ignore_sigpipe();
unsigned ig_out_n(void* o); const char* ig_out_buf(void* o);
int ig_out_msgpack(void* o, const char* enc, size_t n);     // parse enc, write the value out again
// files
int ig_read_file(const char* name, char** data, size_t* n, int* err);      // data: to be released with ig_release
int ig_write_file(int atomic, const char* name, const char* p, size_t n);
long ig_safe_rw(int write, int fd, char* p, size_t n);
int ig_open(const char* name, int flags); int ig_close(int fd);
void ig_release(char* p);
// message parsing
typedef void (*ig_msg_cb)(void* ctx, int ok, const char* canon, size_t ncanon, size_t consumed_total);
struct ig_parse_opt { int bufsz; int readsz; int mode; };   // mode 0: bytes copied, 1: strings may point into the buffer, 2: String-backed chunks
void ig_parse_stream(int fd, ig_parse_opt* o, ig_msg_cb cb, void* ctx);
int ig_unparse(const char* enc, size_t n, int kind, char** out, size_t* nout);
int ig_plain_parse(const char* enc, size_t n, int kind, int64_t* i, char** s, size_t* ns, long* used);
}
#endif
