// An independent MessagePack encoder and decoder: the clients of the simulated server and the oracle for its codec.
#ifndef MPCLIENT_H
#define MPCLIENT_H 1
#include "simrt.h"
#include <string>
#include <vector>
#include <utility>
namespace mp {
enum Type { NIL, BOOL, INT, UINT, DBL, STR, ARR, MAP };     // UINT only for values above INT64_MAX
struct Val {
    Type t = NIL;
    int64_t i = 0; double d = 0; bool f32 = false;
    std::string s;
    std::vector<Val> a;                                     // array elements
    std::vector<std::pair<Val, Val>> m;
    Val() {}
    static Val nil() { return Val(); }
    static Val boolean(bool b) { Val v; v.t = BOOL; v.i = b; return v; }
    static Val integer(int64_t x) { Val v; v.t = INT; v.i = x; return v; }
    static Val uinteger(uint64_t x) { Val v; v.t = x > 0x7fffffffffffffffull ? UINT : INT; v.i = (int64_t) x; return v; }
    static Val real(double x) { Val v; v.t = DBL; v.d = x; return v; }
    static Val str(const std::string& x) { Val v; v.t = STR; v.s = x; return v; }
    static Val arr() { Val v; v.t = ARR; return v; }
    static Val map() { Val v; v.t = MAP; return v; }
    Val& add(const Val& x) { a.push_back(x); return *this; }
    Val& add(const std::string& x) { a.push_back(str(x)); return *this; }
    Val& add(int64_t x) { a.push_back(integer(x)); return *this; }
    Val& add(int x) { a.push_back(integer(x)); return *this; }
    bool is_int(int64_t x) const { return t == INT && i == x; }
};
// alt: non-null chooses among the encodings the format allows for the same value; null encodes minimally
void encode(std::string& out, const Val& v, sim::Rng* alt = nullptr);
// bytes used, 0: incomplete, -1: malformed
long decode(const char* p, size_t n, Val& out, int depth = 0);
// tells whether a buffer that only grows begins with a whole message, looking at every byte once
struct Scanner {
    size_t pos = 0; uint64_t left = 1;
    bool whole(const std::string& b);
};
std::string canon(const Val& v);        // one text per value; map keys as text, sorted, the last of equal keys counts
std::string show(const Val& v, size_t limit = 200);
}
#endif
