#include "mpclient.h"
#include <string.h>
#include <algorithm>
#include <map>
using sim::strf;
namespace mp {
static void be(std::string& o, uint64_t x, int n) { for (int i = n - 1; i >= 0; --i) o += (char) (x >> (8 * i)); }
static uint64_t rd(const char* p, int n) { uint64_t x = 0; for (int i = 0; i < n; ++i) x = x << 8 | (unsigned char) p[i]; return x; }
static void enc_int(std::string& o, int64_t x, sim::Rng* alt) {
    // candidates: first byte, size; -1 size: fixint
    struct { int c, n; } cand[12]; int k = 0;
    if (x >= -32 && x < 128) cand[k++] = {(int) (x & 255), 0};
    if (x >= 0) { if (x < 256) cand[k++] = {0xCC, 1}; if (x < 65536) cand[k++] = {0xCD, 2}; if (x < 4294967296ll) cand[k++] = {0xCE, 4}; cand[k++] = {0xCF, 8}; }
    if (x >= -128 && x < 128) cand[k++] = {0xD0, 1};
    if (x >= -32768 && x < 32768) cand[k++] = {0xD1, 2};
    if (x >= -2147483648ll && x < 2147483648ll) cand[k++] = {0xD2, 4};
    cand[k++] = {0xD3, 8};
    int c = alt && alt->chance(0.4) ? (int) alt->below(k) : 0;
    o += (char) cand[c].c; be(o, (uint64_t) x, cand[c].n);
}
static void enc_head(std::string& o, size_t n, int fix, size_t nfix, int c8, int b8, int c16, int b16, int c32, int b32, sim::Rng* alt) {
    struct { int c, n; } cand[8]; int k = 0;
    if (n < nfix) cand[k++] = {fix + (int) n, 0};
    if (c8 && n < 256) { cand[k++] = {c8, 1}; if (b8) cand[k++] = {b8, 1}; }
    if (n < 65536) { cand[k++] = {c16, 2}; if (b16) cand[k++] = {b16, 2}; }
    cand[k++] = {c32, 4}; if (b32) cand[k++] = {b32, 4};
    int c = alt && alt->chance(0.4) ? (int) alt->below(k) : 0;
    o += (char) cand[c].c; be(o, n, cand[c].n);
}
void encode(std::string& o, const Val& v, sim::Rng* alt) {
    switch (v.t) {
    case NIL: o += (char) 0xC0; break;
    case BOOL: o += (char) (v.i ? 0xC3 : 0xC2); break;
    case INT: enc_int(o, v.i, alt); break;
    case UINT: o += (char) 0xCF; be(o, (uint64_t) v.i, 8); break;
    case DBL: if (v.f32) { float f = (float) v.d; uint32_t u; memcpy(&u, &f, 4); o += (char) 0xCA; be(o, u, 4); } else { uint64_t u; memcpy(&u, &v.d, 8); o += (char) 0xCB; be(o, u, 8); } break;
    case STR: enc_head(o, v.s.size(), 0xA0, 32, 0xD9, 0xC4, 0xDA, 0xC5, 0xDB, 0xC6, alt); o += v.s; break;
    case ARR: enc_head(o, v.a.size(), 0x90, 16, 0, 0, 0xDC, 0, 0xDD, 0, alt); for (auto& x : v.a) encode(o, x, alt); break;
    case MAP: enc_head(o, v.m.size(), 0x80, 16, 0, 0, 0xDE, 0, 0xDF, 0, alt); for (auto& x : v.m) { encode(o, x.first, alt); encode(o, x.second, alt); } break;
    }
}
long decode(const char* p, size_t n, Val& out, int depth) {
    if (n == 0) return 0;
    if (depth > 200) return -1;
    unsigned c = (unsigned char) *p;
    out = Val();
    size_t h = 1, len = 0; int kind = -1;       // kind 0 str 1 arr 2 map
    auto need = [&](size_t k) { return n >= k; };
    if (c < 0x80 || c >= 0xE0) { out = Val::integer((int8_t) c); return 1; }
    else if (c < 0x90) { kind = 2; len = c & 15; }
    else if (c < 0xA0) { kind = 1; len = c & 15; }
    else if (c < 0xC0) { kind = 0; len = c & 31; }
    else switch (c) {
    case 0xC0: return 1;
    case 0xC2: case 0xC3: out = Val::boolean(c & 1); return 1;
    case 0xC4: case 0xD9: if (!need(2)) return 0; kind = 0; h = 2; len = rd(p + 1, 1); break;
    case 0xC5: case 0xDA: if (!need(3)) return 0; kind = 0; h = 3; len = rd(p + 1, 2); break;
    case 0xC6: case 0xDB: if (!need(5)) return 0; kind = 0; h = 5; len = rd(p + 1, 4); break;
    case 0xCA: { if (!need(5)) return 0; uint32_t u = (uint32_t) rd(p + 1, 4); float f; memcpy(&f, &u, 4); out = Val::real(f); return 5; }
    case 0xCB: { if (!need(9)) return 0; uint64_t u = rd(p + 1, 8); double d; memcpy(&d, &u, 8); out = Val::real(d); return 9; }
    case 0xCC: case 0xCD: case 0xCE: case 0xCF: { int k = 1 << (c - 0xCC); if (!need(1 + k)) return 0; out = Val::uinteger(rd(p + 1, k)); return 1 + k; }
    case 0xD0: if (!need(2)) return 0; out = Val::integer((int8_t) rd(p + 1, 1)); return 2;
    case 0xD1: if (!need(3)) return 0; out = Val::integer((int16_t) rd(p + 1, 2)); return 3;
    case 0xD2: if (!need(5)) return 0; out = Val::integer((int32_t) rd(p + 1, 4)); return 5;
    case 0xD3: if (!need(9)) return 0; out = Val::integer((int64_t) rd(p + 1, 8)); return 9;
    case 0xDC: if (!need(3)) return 0; kind = 1; h = 3; len = rd(p + 1, 2); break;
    case 0xDD: if (!need(5)) return 0; kind = 1; h = 5; len = rd(p + 1, 4); break;
    case 0xDE: if (!need(3)) return 0; kind = 2; h = 3; len = rd(p + 1, 2); break;
    case 0xDF: if (!need(5)) return 0; kind = 2; h = 5; len = rd(p + 1, 4); break;
    default: return -1;
    }
    if (kind == 0) { if (n - h < len) return 0; out.t = STR; out.s.assign(p + h, len); return (long) (h + len); }
    size_t pos = h;
    out.t = kind == 1 ? ARR : MAP;
    for (size_t i = 0; i < len; ++i) {
        Val k, v;
        if (kind == 2) { long r = decode(p + pos, n - pos, k, depth + 1); if (r <= 0) return r; pos += r; }
        long r = decode(p + pos, n - pos, v, depth + 1); if (r <= 0) return r; pos += r;
        if (kind == 1) out.a.push_back(v); else out.m.push_back({k, v});
    }
    return (long) pos;
}
bool Scanner::whole(const std::string& b) {
    while (left > 0) {
        if (pos >= b.size()) return false;
        unsigned c = (unsigned char) b[pos]; size_t n = b.size() - pos, h = 1, items = 0, body = 0;
        const char* p = b.data() + pos;
        if (c >= 0x80 && c < 0x90) items = 2 * (c & 15);
        else if (c >= 0x90 && c < 0xA0) items = c & 15;
        else if (c >= 0xA0 && c < 0xC0) body = c & 31;
        else if (c == 0xC4 || c == 0xD9) { h = 2; if (n >= h) body = rd(p + 1, 1); }
        else if (c == 0xC5 || c == 0xDA) { h = 3; if (n >= h) body = rd(p + 1, 2); }
        else if (c == 0xC6 || c == 0xDB) { h = 5; if (n >= h) body = rd(p + 1, 4); }
        else if (c == 0xDC || c == 0xDE) { h = 3; if (n >= h) items = rd(p + 1, 2) * (c == 0xDE ? 2 : 1); }
        else if (c == 0xDD || c == 0xDF) { h = 5; if (n >= h) items = rd(p + 1, 4) * (c == 0xDF ? 2 : 1); }
        else { Val v; long r = decode(p, n, v); if (r < 0) return true; if (r == 0) return false; h = r; }
        if (n < h || n - h < body) return false;
        pos += h + body; left += items; --left;
    }
    return true;
}
static std::string hx(const std::string& s) { return s.empty() ? s : sim::hex(s); }
std::string canon(const Val& v) {
    switch (v.t) {
    case NIL: return "n";
    case BOOL: return v.i ? "t" : "f";
    case INT: return strf("i%lld", (long long) v.i);
    case UINT: return strf("i%llu", (unsigned long long) v.i);
    case DBL: { double d = v.f32 ? (double) (float) v.d : v.d; uint64_t u; memcpy(&u, &d, 8); return strf("d%016llx", (unsigned long long) u); }
    case STR: return "s" + hx(v.s);
    case ARR: { std::string s = "["; for (auto& x : v.a) s += canon(x) + ","; return s + "]"; }
    case MAP: {
        std::map<std::string, std::string> m;
        for (auto& x : v.m) m[x.first.t == STR ? x.first.s : strf("%lld", (long long) x.first.i)] = canon(x.second);
        std::string s = "{"; for (auto& x : m) s += hx(x.first) + ":" + x.second + ","; return s + "}";
    }
    }
    return "?";
}
std::string show(const Val& v, size_t limit) {
    std::string s;
    switch (v.t) {
    case NIL: s = "nil"; break;
    case BOOL: s = v.i ? "true" : "false"; break;
    case INT: s = strf("%lld", (long long) v.i); break;
    case UINT: s = strf("%llu", (unsigned long long) v.i); break;
    case DBL: s = strf("%g", v.d); break;
    case STR: { bool pr = true; for (char c : v.s) pr = pr && c >= 32 && c < 127; s = pr && v.s.size() < 60 ? "\"" + v.s + "\"" : strf("<%zu bytes %s>", v.s.size(), sim::hex(v.s.substr(0, 12)).c_str()); break; }
    case ARR: s = "["; for (size_t i = 0; i < v.a.size() && s.size() < limit; ++i) s += (i ? ", " : "") + show(v.a[i], limit); s += "]"; break;
    case MAP: s = "{"; for (size_t i = 0; i < v.m.size() && s.size() < limit; ++i) s += (i ? ", " : "") + show(v.m[i].first, limit) + ": " + show(v.m[i].second, limit); s += "}"; break;
    }
    return s.size() > limit ? s.substr(0, limit) + "..." : s;
}
}
