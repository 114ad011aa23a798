#include "runner.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unordered_set>
#include <set>
#include <map>
#include <algorithm>
#include <fstream>
#include <iostream>
using namespace sim;

Shared* shared;
static Harness* H;

std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> r; size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find(sep, i);
        if (j == std::string::npos) j = s.size();
        if (j > i) r.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return r;
}
bool plan_get(const Plan& p, const std::string& key, std::string& val) {
    for (auto& l : p) if (l.compare(0, key.size(), key) == 0 && l.size() > key.size() && l[key.size()] == ' ') { val = l.substr(key.size() + 1); return true; }
    return false;
}
uint64_t plan_u(const Plan& p, const std::string& k, uint64_t d) { std::string v; return plan_get(p, k, v) ? strtoull(v.c_str(), 0, 0) : d; }
double plan_d(const Plan& p, const std::string& k, double d) { std::string v; return plan_get(p, k, v) ? atof(v.c_str()) : d; }
std::string plan_s(const Plan& p, const std::string& k, const std::string& d) { std::string v; return plan_get(p, k, v) ? v : d; }
void plan_sched(Plan& p, const SchedCfg& c, uint64_t seed) {
    p.push_back(strf("sched %llu %.17g %d %llu %.17g %d %llu %.17g %u %d %d %llu %llu", (unsigned long long) seed, c.p_access, c.site_mod,
                     (unsigned long long) c.site_salt, c.p_site, c.npoints, (unsigned long long) c.est_steps, c.p_park, c.park_max, c.prio,
                     c.writes_only, (unsigned long long) c.chaos_limit, (unsigned long long) c.hard_limit));
}
void apply_sched(const Plan& p) {
    SchedCfg c; uint64_t seed = 1;
    std::string v;
    if (plan_get(p, "sched", v)) {
        auto f = split(v);
        if (f.size() != 13) internal_error("bad sched line");
        seed = strtoull(f[0].c_str(), 0, 0); c.p_access = atof(f[1].c_str()); c.site_mod = atoi(f[2].c_str());
        c.site_salt = strtoull(f[3].c_str(), 0, 0); c.p_site = atof(f[4].c_str()); c.npoints = atoi(f[5].c_str());
        c.est_steps = strtoull(f[6].c_str(), 0, 0); c.p_park = atof(f[7].c_str()); c.park_max = (uint32_t) strtoul(f[8].c_str(), 0, 0);
        c.prio = atoi(f[9].c_str()); c.writes_only = atoi(f[10].c_str());
        c.chaos_limit = strtoull(f[11].c_str(), 0, 0); c.hard_limit = strtoull(f[12].c_str(), 0, 0);
    }
    init(seed, c);
    set_fill(seed);
    bool rep = plan_get(p, "replay", v);
    std::vector<Decision> d;
    for (auto& l : p)
        if (l.compare(0, 4, "dec ") == 0) {
            unsigned f, t, park; unsigned long long q;
            if (sscanf(l.c_str(), "dec %u %llu %u %u", &f, &q, &t, &park) == 4) d.push_back(Decision{f, t, q, park});
        }
    if (rep) set_replay(d);
}

void count(const char* name, uint64_t n) {
    for (int i = 0; i < shared->ncounters; ++i)
        if (strncmp(shared->counters[i].name, name, sizeof shared->counters[i].name - 1) == 0) { shared->counters[i].n += n; return; }
    if (shared->ncounters < 160) {
        Counter& c = shared->counters[shared->ncounters++];
        snprintf(c.name, sizeof c.name, "%s", name); c.n = n;
    }
}
static char* put_u(char* o, uint64_t v) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); while (n) *o++ = t[--n]; return o; }
uint64_t dec_base;
void dump_decisions() {
    char* o = shared->dec + dec_base; char* e = shared->dec + sizeof shared->dec - 128;
    for (auto& d : trace) {
        if (o > e) break;
        memcpy(o, "dec ", 4); o += 4;
        o = put_u(o, d.f); *o++ = ' '; o = put_u(o, d.p); *o++ = ' '; o = put_u(o, d.t); *o++ = ' '; o = put_u(o, d.park); *o++ = '\n';
    }
    shared->dec_len = o - shared->dec;
}
void note_history(const std::string& s) {
    size_t n = std::min(s.size(), sizeof shared->extra - shared->extra_len);
    memcpy(shared->extra + shared->extra_len, s.data(), n); shared->extra_len += n;
}

static void on_cpu(int) { fail("no-progress", "run used its CPU time limit without finishing (thread %s, step %llu)", fiber_name(self()), (unsigned long long) g_step); }

struct Result { int kind; std::string cls, msg; uint64_t ihash, hhash, steps; };   // kind 0 ok, 1 violation, 2 harness error
static Result execute_once(const Plan& p) {
    int nc = shared->ncounters;
    (void) nc;
    shared->out.failed = 0; shared->out.cls[0] = shared->out.msg[0] = 0; shared->finished = 0;
    shared->steps = shared->switches = shared->preempts = shared->parks = shared->spins = shared->allocs = shared->ops = shared->simtime_ns = 0;
    shared->ihash = shared->hhash = shared->nontrivial = shared->boots = 0; shared->dec_len = shared->extra_len = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        outcome = &shared->out;
        on_fail = dump_decisions;
        install_signals();
        signal(SIGPROF, on_cpu);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = H->wall_limit_s ? H->wall_limit_s : 20;
        setitimer(ITIMER_PROF, &it, nullptr);
        H->execute(p);
        shared->finished = 1;
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.kind = 0; r.ihash = shared->ihash; r.hhash = shared->hhash; r.steps = shared->steps;
    if (shared->out.failed) { r.kind = shared->out.failed; r.cls = shared->out.cls; r.msg = shared->out.msg; }
    else if (!shared->finished) { r.kind = 2; r.cls = "internal"; r.msg = strf("run ended with status %x", st); }
    return r;
}

static Plan with_decisions(const Plan& p) {
    Plan q;
    for (auto& l : p) if (l.compare(0, 4, "dec ") != 0 && l != "replay 1" && !(l.size() && l[0] == '#')) q.push_back(l);
    q.push_back("replay 1");
    const char* s = shared->dec; const char* e = s + shared->dec_len;
    while (s < e) { const char* n = (const char*) memchr(s, '\n', e - s); if (!n) break; q.push_back(std::string(s, n - s)); s = n + 1; }
    return q;
}
static bool same(const Result& a, const Result& b) { return a.kind == b.kind && a.cls == b.cls; }

static Plan minimise(Plan p, const Result& want, double budget, uint64_t& tries) {
    double t0 = wall();
    auto test = [&](const Plan& q) { ++tries; Result r = execute_once(q); return same(r, want); };
    // ddmin over removable lines: first by kind groups, then chunks
    auto removable = [&](const std::string& l) { return l.compare(0, 4, "dec ") == 0 || (H->removable && H->removable(l)); };
    bool progress = true;
    while (progress && wall() - t0 < budget) {
        progress = false;
        size_t total = 0;
        for (auto& l : p) total += removable(l);
        for (size_t chunk = std::max<size_t>(total / 2, 1); chunk >= 1 && wall() - t0 < budget; chunk /= 2) {
            size_t i = p.size();
            while (i > 0 && wall() - t0 < budget) {
                // take the last `chunk` removable lines below i
                Plan q; size_t taken = 0, j = i;
                std::vector<char> drop(p.size(), 0);
                while (j > 0 && taken < chunk) { --j; if (removable(p[j])) { drop[j] = 1; ++taken; } }
                if (!taken) break;
                for (size_t k = 0; k < p.size(); ++k) if (!drop[k]) q.push_back(p[k]);
                if (test(q)) { p.swap(q); i = std::min(j, p.size()); progress = true; }
                else i = j;
            }
            if (chunk == 1) break;
        }
        if (H->simplify)
            for (size_t k = 0; k < p.size() && wall() - t0 < budget; ++k) {
                std::vector<std::string> alts;
                H->simplify(p[k], alts);
                for (auto& a : alts) { Plan q = p; q[k] = a; if (test(q)) { p.swap(q); progress = true; break; } }
            }
        for (size_t k = 0; k < p.size() && wall() - t0 < budget; ++k) {     // unpark
            unsigned f, t, park; unsigned long long s;
            if (sscanf(p[k].c_str(), "dec %u %llu %u %u", &f, &s, &t, &park) == 4 && park) {
                Plan q = p; q[k] = strf("dec %u %llu %u 0", f, s, t);
                if (test(q)) { p.swap(q); }
            }
        }
    }
    return p;
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += strf("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}
static bool write_plan(const std::string& path, const Plan& p, const Result& r, const std::string& profile, uint64_t seed) {
    std::ofstream f(path);
    f << "# replay file: " << H->name << " harness, profile " << profile << ", seed " << seed << "\n";
    f << "# violation class " << r.cls << ": " << r.msg << "\n";
    f << "# 'dec F P T K': fiber F, at its own P-th step, is preempted in favour of fiber T and kept suspended for K steps\n";
    f << "expect " << r.cls << "\n";
    for (auto& l : p) f << l << "\n";
    std::string h(shared->extra, shared->extra_len);
    for (auto& l : split(h, '\n')) f << "# " << l << "\n";
    return (bool) f;
}

static int cmd_search(std::map<std::string, std::string>& a) {
    std::string profile = a["profile"], out = a["out"];
    uint64_t base = strtoull(a["seed"].c_str(), 0, 0), stride = strtoull(a["stride"].c_str(), 0, 0), off = strtoull(a["offset"].c_str(), 0, 0);
    if (!stride) stride = 1;
    double seconds = a.count("seconds") ? atof(a["seconds"].c_str()) : 10;
    uint64_t maxruns = a.count("runs") ? strtoull(a["runs"].c_str(), 0, 0) : ~0ull;
    double minbudget = a.count("minimise") ? atof(a["minimise"].c_str()) : 20;
    std::vector<std::string> ignore;                     // known findings: class|substring
    if (a.count("known")) { std::ifstream f(a["known"]); std::string l; while (std::getline(f, l)) if (!l.empty()) ignore.push_back(l); }
    uint64_t runs = 0, nontriv = 0, steps = 0, switches = 0, preempts = 0, parks = 0, spins = 0, ops = 0, detchecks = 0, allocs = 0, boots = 0, distinct_nt = 0;
    double simtime = 0;
    std::unordered_set<uint64_t> inter, nt;
    std::map<std::string, uint64_t> known_hits;
    std::vector<std::string> samples;
    double t0 = wall();
    std::string violation, vcls, vmsg; std::string err;
    uint64_t mintries = 0;
    shared->ncounters = 0;
    for (uint64_t i = off; runs < maxruns && wall() - t0 < seconds; i += stride) {
        uint64_t seed = mix(base, i) >> 1;
        Plan p;
        H->generate(seed, profile, p);
        Result r = execute_once(p);
        ++runs;
        steps += shared->steps; switches += shared->switches; preempts += shared->preempts; parks += shared->parks; spins += shared->spins;
        ops += shared->ops; allocs += shared->allocs; simtime += (double) shared->simtime_ns * 1e-9; boots += shared->boots;
        inter.insert(r.ihash);
        if (shared->nontrivial) { ++nontriv; nt.insert(mix(r.ihash, r.hhash)); }
        if (samples.size() < 2 && shared->nontrivial) {
            std::string s = strf("seed %llu: ", (unsigned long long) seed);
            size_t n = 0;
            for (auto& l : p) { if (l.size() < 120 && n < 40) { s += l + "; "; ++n; } }
            samples.push_back(s.substr(0, 1500) + strf("... -> steps %llu, switches %llu, hash %016llx", (unsigned long long) shared->steps, (unsigned long long) shared->switches, (unsigned long long) r.ihash));
        }
        if (r.kind == 2) { err = strf("harness error at seed %llu: %s", (unsigned long long) seed, r.msg.c_str()); write_plan(out + ".err", p, r, profile, seed); break; }
        if (r.kind == 0 && (runs % 97) == 1) {           // determinism self-check
            int nc = shared->ncounters; std::vector<Counter> saved(shared->counters, shared->counters + nc);
            Result r2 = execute_once(p);
            ++detchecks;
            shared->ncounters = nc; std::copy(saved.begin(), saved.end(), shared->counters);
            if (r2.kind != r.kind || r2.ihash != r.ihash || r2.hhash != r.hhash || r2.steps != r.steps) {
                err = strf("seed %llu is not deterministic (%llx/%llx/%llu vs %llx/%llx/%llu %s)", (unsigned long long) seed, (unsigned long long) r.ihash, (unsigned long long) r.hhash,
                           (unsigned long long) r.steps, (unsigned long long) r2.ihash, (unsigned long long) r2.hhash, (unsigned long long) r2.steps, r2.msg.c_str());
                write_plan(out + ".err", p, r2, profile, seed);
                break;
            }
        }
        if (r.kind == 1) {
            bool known = false;
            for (auto& k : ignore) {
                size_t bar = k.find('|');
                if (r.cls == k.substr(0, bar) && r.msg.find(k.substr(bar + 1)) != std::string::npos) { ++known_hits[k]; known = true; break; }
            }
            if (known) continue;
            Plan q = with_decisions(p);
            Result first = r;
            Result again = execute_once(p);
            if (!same(again, r) || again.ihash != r.ihash) { err = strf("violation at seed %llu did not recur when run again: %s: %s (then %s: %s)", (unsigned long long) seed, r.cls.c_str(), r.msg.c_str(), again.cls.c_str(), again.msg.c_str()); write_plan(out + ".err", p, r, profile, seed); break; }
            Result rep = execute_once(q);
            Plan m;
            if (same(rep, r)) m = minimise(q, r, minbudget, mintries);
            else if (a.count("strict")) { err = strf("replay of seed %llu diverged: %s: %s, then %s: %s", (unsigned long long) seed, r.cls.c_str(), r.msg.c_str(), rep.cls.c_str(), rep.msg.c_str()); write_plan(out + ".err", q, r, profile, seed); break; }
            else m = minimise(p, r, minbudget, mintries);        // keep the seeded schedule; minimise operations only
            Result fin = execute_once(m);
            if (!same(fin, r)) { err = strf("minimised plan of seed %llu does not reproduce", (unsigned long long) seed); break; }
            write_plan(out, m, fin, profile, seed);
            violation = out; vcls = fin.cls; vmsg = fin.msg;
            break;
        }
    }
    distinct_nt = nt.size();
    std::string js = "{";
    js += strf("\"runs\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"distinct_interleavings\":%zu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"parks\":%llu,\"spins\":%llu,\"ops\":%llu,\"allocs\":%llu,\"boots\":%llu,\"simtime_s\":%.6f,\"wall_s\":%.3f,\"determinism_rechecks\":%llu,\"minimise_runs\":%llu",
               (unsigned long long) runs, (unsigned long long) nontriv, (unsigned long long) distinct_nt, inter.size(), (unsigned long long) steps, (unsigned long long) switches,
               (unsigned long long) preempts, (unsigned long long) parks, (unsigned long long) spins, (unsigned long long) ops, (unsigned long long) allocs, (unsigned long long) boots, simtime, wall() - t0,
               (unsigned long long) detchecks, (unsigned long long) mintries);
    js += ",\"counters\":{";
    for (int i = 0; i < shared->ncounters; ++i) js += strf("%s%s:%llu", i ? "," : "", jstr(shared->counters[i].name).c_str(), (unsigned long long) shared->counters[i].n);
    js += "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) js += (i ? "," : "") + jstr(samples[i]);
    js += "],\"known\":{";
    bool firstk = true;
    for (auto& k : known_hits) { js += strf("%s%s:%llu", firstk ? "" : ",", jstr(k.first).c_str(), (unsigned long long) k.second); firstk = false; }
    js += "}";
    if (!violation.empty()) js += ",\"violation\":" + jstr(violation) + ",\"cls\":" + jstr(vcls) + ",\"msg\":" + jstr(vmsg);
    if (!err.empty()) js += ",\"error\":" + jstr(err);
    js += "}";
    printf("%s\n", js.c_str());
    return !err.empty() ? 2 : !violation.empty() ? 1 : 0;
}

int runner_main(int argc, char** argv, Harness& h) {
    H = &h;
    shared = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shared == MAP_FAILED) { perror("mmap"); return 2; }
    if (argc < 2) { fprintf(stderr, "usage: %s search|replay|gen ...\n", argv[0]); return 2; }
    std::map<std::string, std::string> a;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) {
        std::string s = argv[i];
        if (s.compare(0, 2, "--") == 0) { size_t e = s.find('='); if (e != std::string::npos) a[s.substr(2, e - 2)] = s.substr(e + 1); else a[s.substr(2)] = "1"; }
        else pos.push_back(s);
    }
    std::string cmd = argv[1];
    if (cmd == "search") return cmd_search(a);
    if (cmd == "gen" || cmd == "run") {
        Plan p;
        uint64_t seed = a.count("raw") ? strtoull(a["raw"].c_str(), 0, 0) : mix(strtoull(a["seed"].c_str(), 0, 0), strtoull(a["index"].c_str(), 0, 0)) >> 1;
        H->generate(seed, a["profile"], p);
        if (cmd == "gen") { for (auto& l : p) printf("%s\n", l.c_str()); return 0; }
        Result r = execute_once(p);
        printf("kind %d %s: %s\nihash %016llx hhash %016llx steps %llu switches %llu ops %llu\n", r.kind, r.cls.c_str(), r.msg.c_str(), (unsigned long long) r.ihash,
               (unsigned long long) r.hhash, (unsigned long long) r.steps, (unsigned long long) shared->switches, (unsigned long long) shared->ops);
        return r.kind;
    }
    if (cmd == "replay" || cmd == "minimise") {
        Plan p; std::string expect;
        std::ifstream f(pos.empty() ? "" : pos[0]); std::string l;
        if (!f) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        while (std::getline(f, l)) { if (l.compare(0, 7, "expect ") == 0) expect = l.substr(7); else if (!l.empty() && l[0] != '#') p.push_back(l); }
        Result r = execute_once(p);
        printf("replay: %s %s: %s\n", r.kind == 0 ? "no violation" : r.kind == 1 ? "VIOLATION" : "ERROR", r.cls.c_str(), r.msg.c_str());
        if (a.count("v")) fwrite(shared->extra, 1, shared->extra_len, stdout);
        if (cmd == "minimise" && r.kind == 1) { uint64_t tries = 0; Plan m = minimise(p, r, 60, tries); Result fin = execute_once(m); write_plan(pos[1], m, fin, "-", 0); }
        if (r.kind == 1 && !expect.empty() && r.cls != expect) { printf("replay: expected class %s\n", expect.c_str()); return 2; }
        return r.kind;
    }
    return 2;
}
