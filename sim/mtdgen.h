// Plans for the server simulation: workload, environment and faults for one seed.
#include <string.h>
struct Gen {
    Rng r; Plan& p; std::string prof; uint32_t next_id = 1; int nk = 0;
    int j = 1; uint32_t logbuf = 1 << 20; size_t max_val = 2000; std::vector<int> keylen;
    Gen(uint64_t seed, const std::string& pr, Plan& pl): r(seed), p(pl), prof(pr) {}
    void gen_keys(int n) {
        nk = n; std::set<std::string> used;
        int style = (int) r.below(6);
        std::string prefix;
        for (int i = (int) r.below(4) * 8 + (int) r.below(3); i > 0; --i) prefix += (char) (r.chance(0.8) ? 'a' + r.below(3) : r.below(256));
        for (int i = 0; i < n; ++i) {
            std::string k; int tries = 0;
            do {
                k.clear(); if (++tries > 50) style = 2;
                int s = style == 5 ? (int) r.below(5) : style;
                if (s == 0) k = strf("k%d", (int) r.below(100));
                else if (s == 1) { k = prefix; for (int m = (int) r.below(14); m > 0; --m) k += (char) ('0' + r.below(3)); }
                else if (s == 2) { for (int m = (int) r.below(20); m > 0; --m) k += (char) (r.chance(0.5) ? 0 : r.below(256)); }
                else if (s == 3) { k = prefix.substr(0, r.below(prefix.size() + 1)); for (int m = (int) r.below(4); m > 0; --m) k += (char) ('x' + r.below(3)); }
                else { k = std::string(r.below(3) ? 8 : 240, 'q') + strf("%04d", (int) r.below(50)); }
                if (k.size() > 255) k.resize(255);
            } while (used.count(k) || (k.empty() && !r.chance(0.3)));
            used.insert(k); keylen.push_back((int) k.size());
            p.push_back(strf("key %d ", i) + hex(k));
        }
    }
    bool dense = false, wide = false;
    int len(size_t cap) { size_t n = dense ? r.logrange(200, max_val) : r.chance(0.6) ? r.below(40) : r.chance(0.9) ? r.logrange(1, 600) : r.logrange(1, max_val); return (int) std::min(n, cap); }
    std::string cols(bool with_len, size_t cap) {
        int n = r.chance(0.6) ? 1 : (int) r.range(1, 4); std::set<int> s;
        while ((int) s.size() < n) s.insert(r.chance(0.5) ? 0 : (int) r.below(6));
        std::string o;
        for (int c : s) { o += (o.empty() ? "" : ",") + std::to_string(c); if (with_len) o += strf(":%d", len(cap / n)); }
        return o;
    }
    std::string data_op(int lo, int hi, size_t cap, double pget = 0.35) {       // keys lo..hi
        int k = lo + (int) r.below(hi - lo + 1); double x = r.unit();
        if (x < pget) return strf("get %d", k) + (r.chance(0.4) ? " " + cols(false, 0) : "");
        x = r.unit();
        if (wide && x < 0.3 && cap > 500) {       // a request of several input buffers
            std::string o; int each = (int) std::min<size_t>(9000, std::max<size_t>(logbuf, 1200) / 14);
            for (int c = 0; c < 6; ++c) o += (c ? "," : "") + std::to_string(c) + strf(":%d", (int) (r.chance(0.2) ? r.below(40) : each / 2 + r.below(each / 2)));
            return strf("put %d %u ", k, next_id++) + o;
        }
        if (x < 0.5) return strf("put %d %u ", k, next_id++) + cols(true, cap);
        if (x < 0.75) return strf("rep %d %u %d", k, next_id++, len(cap));
        return strf("rem %d", k);
    }
    std::string scan_op() { return strf("scan %d %d", (int) r.below(nk), (int) r.logrange(1, nk + 4)) + (r.chance(0.4) ? " " + cols(false, 0) : ""); }
    void net(bool faults) {
        p.push_back(strf("net.delay %d", (int) r.logrange(1000, 20000000)));
        if (!faults) return;
        if (r.chance(0.5)) p.push_back(strf("net.segment %d", (int) (wide ? r.logrange(300, 9000) : r.logrange(1, 4000))));
        if (r.chance(0.4)) p.push_back(strf("net.sockbuf %d", (int) r.logrange(wide ? 1500 : 64, 70000)));
        if (r.chance(0.4)) p.push_back(strf("f.short_read %.3f", r.unit()));
        if (r.chance(0.4)) p.push_back(strf("f.short_write %.3f", r.unit()));
        if (r.chance(0.3)) p.push_back(strf("f.eintr_wait %.3f", r.unit()));
        if (r.chance(0.3)) p.push_back(strf("f.thread_delay %.3f", r.unit()));
        if (r.chance(0.3)) p.push_back(strf("f.spurious %.3f", r.unit() * 0.5));
        if (prof == "S02" && r.chance(0.3)) p.push_back(strf("f.accept_abort %.3f", r.unit() * 0.7));
    }
    void clients(int boot, int n, int nops, int lo, int hi, double ppause, uint64_t pause_max, bool bad, double pckpt, double pscan, double pget = 0.35) {
        size_t cap = std::min<size_t>(max_val, logbuf / 2 > 1200 ? logbuf / 2 - 800 : 100);
        for (int c = 0; c < n; ++c) {
            p.push_back(strf("client %d %d tcp %d %d %llu", boot, c, r.chance(0.5) ? -1 : (int) r.below(j), r.chance(0.4) ? 1 : (int) r.logrange(1, 16), (unsigned long long) (r.next() >> 40)));
            bool rude = bad && (c == 0 || r.chance(0.4));
            int m = (int) r.logrange(1, 2 * nops / n + 2);
            for (int i = 0; i < m; ++i) {
                if (r.chance(ppause)) p.push_back(strf("op %d %d pause %llu", boot, c, (unsigned long long) r.logrange(1000, pause_max)));
                double x = r.unit();
                if (rude && x < 0.25) {
                    double y = r.unit();
                    if (y < 0.2) p.push_back(strf("op %d %d bad %d %d", boot, c, r.range(0, 36), lo + (int) r.below(hi - lo + 1)));
                    else if (y < 0.4) p.push_back(strf("op %d %d close %s", boot, c, r.chance(0.4) ? "rst" : r.chance(0.5) ? "fin" : "half"));
                    else if (y < 0.7) p.push_back(strf("op %d %d cut %s %d %s", boot, c, r.chance(0.5) ? "rst" : "fin", (int) r.logrange(1, 5000), data_op(lo, hi, cap, 0.2).c_str()));
                    else {
                        static const char* junk[] = {"93000ec0", "90", "c0", "9300", "92000e", "9100", "ff", "93cd", "a568656c6c6f", "9300020e", "474554202f"};
                        p.push_back(strf("op %d %d nohs %s", boot, c, r.chance(0.4) ? "rst" : "fin") + (r.chance(0.6) ? std::string(" ") + junk[2 + r.below(9)] : ""));
                    }
                    continue;
                }
                if (prof == "S01" && r.chance(0.01)) { p.push_back(strf("op %d %d bad %d %d", boot, c, r.range(0, 36), lo + (int) r.below(hi - lo + 1))); continue; }
                if (x < pckpt) { p.push_back(strf("op %d %d ckpt", boot, c)); continue; }
                if (r.chance(pscan)) { p.push_back(strf("op %d %d ", boot, c) + scan_op()); continue; }
                if (r.chance(0.03)) { p.push_back(strf("op %d %d drain", boot, c)); continue; }
                p.push_back(strf("op %d %d ", boot, c) + data_op(lo, hi, cap, pget));
            }
        }
    }
    // everything idle, then a few causally ordered operations through different threads
    // single writes spaced like checkpoints and epochs
    void spaced(int boot, int n, int lo, int hi) {
        size_t cap = std::min<size_t>(max_val, logbuf / 2 > 1200 ? logbuf / 2 - 800 : 100);
        for (int c = 0; c < n; ++c) {
            p.push_back(strf("client %d %d tcp %d 1 %llu", boot, c, 1 + c < j ? 1 + c : j - 1, (unsigned long long) (r.next() >> 40)));
            uint64_t gap = r.logrange(2000000, 100000000);
            for (int m = r.range(4, 25); m > 0; --m) {
                p.push_back(strf("op %d %d ", boot, c) + data_op(lo, hi, cap, 0.02));
                p.push_back(strf("op %d %d pause %llu", boot, c, (unsigned long long) r.logrange(1000000, gap * 2)));
            }
        }
        p.push_back(strf("client %d %d tcp %d 1 %llu", boot, n, -1, (unsigned long long) (r.next() >> 40)));
        for (int m = r.range(4, 25); m > 0; --m) {
            p.push_back(strf("op %d %d ckpt", boot, n));
            p.push_back(strf("op %d %d pause %llu", boot, n, (unsigned long long) r.logrange(10000000, 200000000)));
        }
    }
    // more than a quarter of a small log buffer per flush of log 0, for seconds, on a slow disk
    void sustained(int boot, int n, int lo, int hi) {
        size_t big = std::max<size_t>(logbuf / 6, 200);
        for (int c = 0; c < n; ++c) {
            p.push_back(strf("client %d %d tcp %d %d %llu", boot, c, r.chance(0.85) ? 0 : -1, r.range(4, 16), (unsigned long long) (r.next() >> 40)));
            for (int m = r.range(60, 160); m > 0; --m) p.push_back(strf("op %d %d ", boot, c) + (r.chance(0.1) ? data_op(lo, hi, big) : strf("rep %d %u %d", lo + (int) r.below(hi - lo + 1), next_id++, (int) (big + r.below(big)))));
        }
    }
    void burst(int boot, int n, int lo, int hi) {
        size_t cap = std::min<size_t>(max_val, logbuf / 2 > 1200 ? logbuf / 2 - 800 : 100);
        uint64_t idle = r.logrange(300000000, 3000000000ull);
        for (int c = 0; c < n; ++c) {
            p.push_back(strf("client %d %d tcp %d 1 %llu", boot, c, c < j ? c : -1, (unsigned long long) (r.next() >> 40)));
            int rounds = r.range(1, 3);
            for (int i = 0; i < rounds; ++i) {
                p.push_back(strf("op %d %d pause %llu", boot, c, (unsigned long long) idle));
                for (int m = r.range(1, 6); m > 0; --m) {
                    p.push_back(strf("op %d %d ", boot, c) + data_op(lo, hi, cap, 0.1));
                    if (r.chance(0.7)) p.push_back(strf("op %d %d pause %llu", boot, c, (unsigned long long) r.logrange(100000, 300000000)));
                }
            }
        }
    }
    void udp_client(int boot, int c, int lo, int hi, int m, bool broken) {
        p.push_back(strf("client %d %d udp %d 1 %llu", boot, c, (int) r.below(j), (unsigned long long) (r.next() >> 40)));
        size_t cap = std::min<size_t>(3300, logbuf / 2 > 1200 ? logbuf / 2 - 800 : 100);
        for (int i = 0; i < m; ++i) {
            if (r.chance(0.2)) p.push_back(strf("op %d %d pause %llu", boot, c, (unsigned long long) r.logrange(1000, 300000000)));
            double x = r.unit();
            if (broken && x < 0.25) {
                if (r.chance(0.4)) p.push_back(strf("op %d %d bad %d %d", boot, c, r.range(0, 36), lo + (int) r.below(hi - lo + 1)));
                else if (r.chance(0.7)) p.push_back(strf("op %d %d trunc %d %s", boot, c, (int) r.logrange(1, 4000), data_op(lo, hi, r.chance(0.85) ? cap : 6000, 0.1).c_str()));
                else { static const char* b[] = {"93", "9300", "930106", "a5", "c0", "9501", "94cf", "dd"}; p.push_back(strf("op %d %d bytes ", boot, c) + b[r.below(8)]); }
                continue;
            }
            if (x < 0.32) { p.push_back(strf("op %d %d ", boot, c) + scan_op()); continue; }
            p.push_back(strf("op %d %d ", boot, c) + data_op(lo, hi, cap));
        }
    }
    void end_boot(int b, int nops, double p_start, double p_ready, double p_done, uint64_t done_lo, uint64_t done_hi) {
        const char* kind = r.chance(0.6) ? "power" : r.chance(0.7) ? "kill" : "sigint";
        double x = r.unit(); std::string w;
        if (prof == "D03" && r.chance(0.4)) w = strf("ckpstep %d", (int) r.logrange(1, 40));
        else if (r.chance(0.25)) w = strf("disk %d", (int) r.logrange(1, 40));
        else if (x < p_start) w = strf("start+%llu", (unsigned long long) r.logrange(10000, 3000000000ull));
        else if (x < p_start + p_ready) w = strf("ready+%llu", (unsigned long long) r.logrange(10000, 4000000000ull));
        else if (x < p_start + p_ready + p_done) w = strf("done+%llu", (unsigned long long) (r.chance(0.3) ? 3000000000ull + r.below(5000000000ull) : r.logrange(done_lo, done_hi)));
        else w = strf("ops %d", (int) r.logrange(1, nops + 1));
        if (kind[0] == 's' && (w.find("+") == std::string::npos || x < p_start + p_ready)) kind = "kill";
        p.push_back(strf("end %d %s ", b, kind) + w);
    }
    void sched(uint64_t est) {
        SchedCfg c; randomize_sched(c, r, est);
        c.p_access *= 0.05; if (c.site_mod) { c.site_mod = c.site_mod * 4 + 8; c.p_site *= 0.5; } c.npoints *= 4;
        c.chaos_limit = 3000000; c.hard_limit = 60000000;
        plan_sched(p, c, r.next());
    }
    void run() {
        p.push_back("profile " + prof);
        p.push_back(strf("osseed %llu", (unsigned long long) (r.next() >> 20)));
        j = r.chance(0.3) ? 1 : r.chance(0.7) ? 2 : 3;
        bool S = prof[0] == 'S';
        bool logging = !S || r.chance(0.65);
        logbuf = r.chance(0.5) ? 1 << 20 : (uint32_t) r.logrange(prof == "S01" || prof == "D01" || prof == "D02" ? 3000 : 16000, 300000);
        p.push_back(strf("j %d", j)); p.push_back(strf("logging %d", logging)); p.push_back(strf("logbuf %u", logbuf));
        if (r.chance(0.3)) { p.push_back("ld la,lb"); p.push_back(r.chance(0.5) ? "cd la" : "cd ca,cb"); }
        if (prof == "D03" || r.chance(0.7)) p.push_back(strf("epochms %d", (int) r.logrange(1, prof == "D03" ? 250 : 1000)));
        if (S) {
            p.push_back("boots 1");
            max_val = r.chance(0.85) ? 3000 : 10000;        // 6 columns: rows stay below 64 KB
            wide = prof == "S01" && r.chance(0.15);
            bool udp = prof == "S03";
            int ntcp = udp ? (r.chance(0.5) ? r.range(1, 2) : 0) : (int) r.range(prof == "S02" ? 2 : 1, 5);
            int nudp = udp ? r.range(1, 3) : 0, per = udp ? r.range(1, 4) : 0;
            if (udp && r.chance(0.25)) { ntcp = 1; max_val = 10000; }
            int shared_keys = ntcp ? (int) r.logrange(1, 16) : 0;
            gen_keys(shared_keys + nudp * per);
            net(true);
            if (udp) {
                if (r.chance(0.5)) p.push_back(strf("udp.loss %.3f", r.unit() * 0.6));
                if (r.chance(0.5)) p.push_back(strf("udp.dup %.3f", r.unit() * 0.6));
                p.push_back(strf("udp.delay %d", (int) r.logrange(1000, 50000000)));
                p.back() = strf("udp.delay %d", (int) r.logrange(1000, 50000000));
            }
            if (logging && r.chance(0.3)) p.push_back(strf("ckpt %.2f", 0.2 + 2 * r.unit()));
            if (r.chance(0.2)) { p.push_back(strf("disk.p_slow %.2f", r.unit())); p.push_back(strf("disk.slow %llu", (unsigned long long) r.logrange(1000000, 2000000000))); }
            if (ntcp) clients(0, ntcp, (int) r.logrange(8, 90), 0, shared_keys - 1, r.chance(0.5) ? 0.02 : 0.2, r.chance(0.5) ? 1000000 : 500000000, prof == "S02", logging && r.chance(0.4) ? 0.03 : 0, 0.1);
            for (int u = 0; u < nudp; ++u) udp_client(0, 20 + u, shared_keys + u * per, shared_keys + (u + 1) * per - 1, (int) r.logrange(2, 25), r.chance(0.7));
            p.push_back("end 0 stop done+0");
            sched(150000);
            return;
        }
        // how the writes come: mixed; bursts on several logs after idle phases, one log slower than the others; a log buffer that fills up; volume
        int mode = 0; { double x = r.unit(); if (prof == "D01" || prof == "D02" || prof == "D05") mode = x < 0.25 ? 1 : x < 0.4 ? 2 : x < 0.5 ? 3 : x < 0.6 && prof == "D01" ? 5 : 0; }
        if (prof == "D03" && r.chance(0.25)) {
            mode = 4;
            for (auto& l : p) if (l.compare(0, 8, "epochms ") == 0) l = strf("epochms %d", (int) r.logrange(100, 300));
        }
        max_val = r.chance(0.85) ? 1000 : 8000;
        if (mode == 2 || mode == 5) { logbuf = (uint32_t) r.logrange(2600, 9000); for (auto& l : p) if (l.compare(0, 7, "logbuf ") == 0) l = strf("logbuf %u", logbuf); max_val = 3000; dense = true; }
        if (mode == 3) { max_val = 8000; dense = true; }
        if ((mode == 1 || mode == 4) && j == 1) { j = 2; for (auto& l : p) if (l.compare(0, 2, "j ") == 0) l = "j 2"; }
        bool d03 = prof == "D03", d04 = prof == "D04", d06 = prof == "D06";
        gen_keys((int) (d03 ? r.logrange(2, 60) : r.logrange(1, 14)));
        net(false);
        int nb = d04 ? r.range(3, 6) : r.range(2, 4);
        p.push_back(strf("boots %d", nb));
        p.push_back(strf("crashseed %llu", (unsigned long long) (r.next() >> 20)));
        if (r.chance(0.4)) p.push_back(strf("f.thread_delay %.3f", r.unit()));
        if (r.chance(0.2)) p.push_back(strf("f.eintr_wait %.3f", r.unit()));
        if (r.chance(mode == 4 ? 0.9 : 0.3)) {        // in all less than one epoch (a request is expected to be logged by the end of the epoch after its own)
            int em = 200; for (auto& l : p) if (l.compare(0, 8, "epochms ") == 0) em = atoi(l.c_str() + 8);
            int ns = mode == 4 ? r.range(1, 2) : r.range(1, 5);
            if (r.chance(mode == 4 ? 0.1 : 0.5)) p.push_back(strf("f.stall %.3f", 0.02 + r.unit() * (r.chance(0.5) ? 0.1 : 1))); else p.push_back(strf("f.stall_lock %.4f", 0.001 + 0.1 * r.unit() * r.unit())); p.push_back(strf("f.stalls %d", ns)); p.push_back(strf("f.stall_us %d", std::max((logbuf >= 65536 ? std::max(em, 200) : em) * 900 / ns, 100)));
        }
        if (r.chance(0.2)) p.push_back(strf("f.spurious %.3f", r.unit() * 0.5));
        if (r.chance(0.2)) p.push_back(strf("f.short_read %.3f", r.unit()));
        if (r.chance(d06 ? 0.4 : 0.1)) p.push_back(strf("f.short_write %.3f", r.unit()));
        if (mode == 5) p.push_back(strf("disk.fsync %llu", (unsigned long long) r.logrange(100000000, 300000000)));
        else p.push_back(strf("disk.fsync %llu", (unsigned long long) r.logrange(100000, prof == "D05" ? 300000000 : 50000000)));
        p.push_back(strf("disk.write %llu", (unsigned long long) r.logrange(1000, 20000000)));
        if (r.chance(0.3)) { p.push_back(strf("disk.p_slow %.2f", r.unit())); p.push_back(strf("disk.slow %llu", (unsigned long long) r.logrange(1000000, 1500000000))); }
        if (mode == 1 && r.chance(0.8)) { p.push_back(strf("disk.slowpath kvd-log-%d", (int) r.below(j))); p.push_back(strf("disk.p_slow %.2f", 0.3 + 0.7 * r.unit())); p.push_back(strf("disk.slow %llu", (unsigned long long) r.logrange(100000000, 2000000000))); }
        bool ck = d03 || r.chance(d04 || d06 ? 0.5 : 0.15);
        if (ck && r.chance(d03 ? 0.85 : 0.6)) p.push_back(strf("ckpt %.2f", r.chance(0.5) ? 0.05 + 0.4 * r.unit() : 0.2 + 2 * r.unit()));
        bool with_udp = r.chance(0.25) && nk > 2;
        int hi = with_udp ? nk - 2 : nk - 1;
        for (int b = 0; b < nb; ++b) {
            bool last = b == nb - 1, shrt = d04 && b && r.chance(0.6);
            if (!shrt || last) {
                int n = r.range(1, 4), nops = (int) r.logrange(4, d03 || mode > 1 ? 120 : 60);
                if (mode == 4) {
                    spaced(b, r.range(1, 3), 0, hi);
                    if (last) p.push_back(strf("end %d stop done+0", b));
                    else if (r.chance(0.6)) p.push_back(strf("end %d %s done+%llu", b, r.chance(0.7) ? "power" : "kill", 3000000000ull + (unsigned long long) r.below(4000000000ull)));      // everything must be there again
                    else end_boot(b, 12, 0, 0.02, 0.9, 200000000, 1500000000ull);
                    continue;
                }
                if (mode == 5) {
                    sustained(b, r.range(1, 3), 0, hi);
                    if (last) p.push_back(strf("end %d stop done+0", b));
                    else p.push_back(strf("end %d %s ready+%llu", b, r.chance(0.5) ? "power" : "kill", (unsigned long long) r.range(5000, 9000) * 1000000));
                    continue;
                }
                if (mode == 1) {
                    burst(b, r.range(2, 4), 0, hi);
                    if (last) p.push_back(strf("end %d stop done+0", b));
                    else end_boot(b, 12, 0, 0, 0.85, 10000000, 2000000000ull);
                    continue;
                }
                clients(b, n, nops, 0, hi, r.chance(0.3) ? 0.02 : 0.35, r.chance(0.5) ? 50000000 : 1500000000, false, ck ? 0.06 : 0, 0.04, 0.15);
                if (with_udp) udp_client(b, 20, nk - 1, nk - 1, (int) r.logrange(2, 12), false);
                if (last) p.push_back(strf("end %d stop done+0", b));
                else if (prof == "D01") end_boot(b, nops, 0.03, 0.1, 0.6, 1000000, 6000000000ull);
                else if (d04) end_boot(b, nops, 0.35, 0.15, 0.35, 1000000, 4000000000ull);
                else end_boot(b, nops, 0.08, d03 ? 0.35 : 0.15, 0.35, d03 ? 50000000 : 100000, 4000000000ull);
            } else {
                p.push_back(strf("end %d %s %s+%llu", b, r.chance(0.6) ? "power" : "kill", r.chance(0.7) ? "start" : "ready", (unsigned long long) r.logrange(10000, 2000000000ull)));
                if (r.chance(0.6)) p.back() = strf("end %d %s disk %d", b, r.chance(0.7) ? "power" : "kill", (int) r.logrange(1, 25));
            }
            if ((prof == "D01" || d04) && r.chance(0.2)) p.push_back(strf("jump %d %lld", b, (long long) r.logrange(1000, 4000000000000ull) * (r.chance(0.5) ? 1 : -1)));
            if (prof == "D01" && r.chance(0.25)) p.push_back(strf("tick %d %llu %lld", b, (unsigned long long) r.logrange(1000000, 5000000000ull), (long long) r.logrange(1000, 4000000000000ull) * (r.chance(0.5) ? 1 : -1)));
            if (d06 && !last) {
                static const char* kinds[] = {"open", "create", "write EIO", "write ENOSPC", "short write", "read EIO", "fsync EIO", "rename", "close", "mmap", "stat", "truncate"};
                int nf = r.range(0, 2);
                for (int i = 0; i < nf; ++i) p.push_back(strf("fault %d |%s|%d|%d", b, kinds[r.below(12)], (int) r.logrange(1, 14) - 1, r.range(1, 2)));
                if (r.chance(0.15)) p.push_back(strf("disk.capacity.%d %d", b, (int) r.logrange(100, 60000)));
            }
        }
        sched(250000);
    }
};
static void generate(uint64_t seed, const std::string& pr, Plan& p) { Gen g(seed, pr, p); g.run(); }
static bool removable(const std::string& l) {
    for (const char* k : {"op ", "fault ", "f.", "net.", "disk.", "udp.loss", "udp.dup", "tick ", "jump ", "ckpt ", "epochms "})
        if (l.compare(0, strlen(k), k) == 0) return true;
    return false;
}
static void simplify(const std::string& l, std::vector<std::string>& out) {
    auto f = split(l);
    auto join = [](const std::vector<std::string>& g) { std::string s; for (auto& x : g) s += (s.empty() ? "" : " ") + x; return s; };
    if (f[0] == "client" && f.size() > 5 && f[5] != "1") { auto g = f; g[5] = "1"; out.push_back(join(g)); }
    if (f[0] == "op" && f.size() > 6 && f[3] == "rep" && f[6] != "1") { auto g = f; g[6] = "1"; out.push_back(join(g)); }
    if (f[0] == "op" && f.size() > 6 && f[3] == "put" && f[6] != "0:1") { auto g = f; g[6] = "0:1"; out.push_back(join(g)); }
}
