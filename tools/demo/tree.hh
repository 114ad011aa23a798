// A bare tree of row pointers for demonstrations.
#pragma once
#include "masstree.hh"
#include "kvthread.hh"
#include "kvrow.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_split.hh"
#include "masstree_scan.hh"
#include "query_masstree.hh"
#include "json.hh"
#include "minisched.hh"
#include <stdio.h>
#include <unistd.h>
#include <string>
using lcdf::Str; using lcdf::String; using lcdf::Json;
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
volatile bool recovering = false;
kvtimestamp_t initial_timestamp;
kvepoch_t global_log_epoch = kvepoch_t(0);
#define REQUIRE(x) do { if (!(x)) { fprintf(stderr, "%s:%d: wrong: %s\n", __FILE__, __LINE__, #x); _exit(5); } } while (0)
typedef Masstree::default_table Table;
typedef Masstree::basic_table<Masstree::default_query_table_params> RawTable;
struct DemoTree {
    Table tab; threadinfo* ti[4]; query<row_type> q[4];
    void init() {
        setenv("_", "valgrind", 1);
        for (int i = 0; i < 4; ++i) ti[i] = threadinfo::make(threadinfo::TI_PROCESS, i);
        tab.initialize(*ti[0]);
    }
    void epochs(int n) { for (int i = 0; i < n; ++i) { globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); } }
    void reclaim() { for (int r = 0; r < 40; ++r) { epochs(1); for (int i = 0; i < 4; ++i) { ti[i]->rcu_start(); ti[i]->rcu_quiesce(); ti[i]->rcu_stop(); } } }
    void in(int i) { ti[i]->rcu_start(); } void out(int i) { ti[i]->rcu_stop(); }
    bool put(int i, const std::string& k, const std::string& v) { in(i); bool r = q[i].run_replace(tab.table(), Str(k.data(), k.size()), Str(v.data(), v.size()), *ti[i]) == Inserted; out(i); return r; }
    bool putcol(int i, const std::string& k, std::vector<std::pair<int, std::string>> cols) { in(i); Json j = Json::make_array();
        for (auto& c : cols) { j.push_back(c.first); j.push_back(String(c.second.data(), c.second.size())); }
        bool r = q[i].run_put(tab.table(), Str(k.data(), k.size()), j.array_data(), j.end_array_data(), *ti[i]) == Inserted; out(i); return r; }
    uint64_t ts(int i) { return q[i].query_times().ts; }
    bool remove(int i, const std::string& k) { in(i); bool r = q[i].run_remove(tab.table(), Str(k.data(), k.size()), *ti[i]); out(i); return r; }
    bool get(int i, const std::string& k, std::string& v) { in(i); Str s; bool r = q[i].run_get1(tab.table(), Str(k.data(), k.size()), 0, s, *ti[i]); if (r) v.assign(s.s, s.len); out(i); return r; }
    struct Sc { std::vector<std::pair<std::string, std::string>> kv; int limit; std::vector<std::pair<void*, uint64_t>> vers;
        template <typename SS, typename K> void visit_leaf(const SS& ss, const K&, threadinfo&) { vers.push_back({ss.node(), ss.full_version_value()}); }
        bool visit_value(Str k, row_type* row, threadinfo&) { Str c = row->col(0); kv.push_back({std::string(k.s, k.len), std::string(c.s, c.len)}); return (int) kv.size() < limit; } };
    Sc scan(int i, const std::string& first, bool rev = false, int limit = 1000000) { Sc s; s.limit = limit; in(i); const RawTable& ct = tab.table();
        if (rev) ct.rscan(Str(first.data(), first.size()), true, s, *ti[i]); else ct.scan(Str(first.data(), first.size()), true, s, *ti[i]); out(i); return s; }
};
