// Thin layer over the public interfaces of masstree.  Compiled with instrumentation, together with the
// repository's own sources; contains no oracle.
#include "masstree.hh"
#include "kvthread.hh"
#include "kvrow.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_split.hh"
#include "masstree_scan.hh"
#include "masstree_print.hh"
#include "query_masstree.hh"
#include "json.hh"
#include "ops.h"
using namespace Masstree;
using lcdf::Str; using lcdf::String; using lcdf::Json;

relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
volatile bool recovering = false;
kvtimestamp_t initial_timestamp;
kvepoch_t global_log_epoch = kvepoch_t(0);

typedef query<row_type> Q;
static inline Str S(tr_str s) { return Str(s.s, s.len); }

#if MASSTREE_ROW_TYPE_STR
static inline row_type::index_type colix(int c) { return c < 0 ? 0 : row_type::make_index(16 * c, 16); }
int tr_col_width = 16;
#else
static inline row_type::index_type colix(int c) { return c; }
int tr_col_width = 0;
#endif

static inline void put_col(tr_row* r, int i, Str s);
static inline void put_json(tr_row* r, int i, const Json& j) {      // an absent column is a null
    if (j.is_s()) { const String& s = j.as_s(); put_col(r, i, Str(s.data(), s.length())); }
    else put_col(r, i, Str());
}
static inline void put_col(tr_row* r, int i, Str s) { if (i < TR_MAXCOL) { r->col[i].s = s.s; r->col[i].len = s.len; r->ncol = i + 1; } }
static inline Json colj(int c) { return Json((int64_t) colix(c)); }

static void fill_row(row_type* row, const int* cols, int ncols, tr_row* out) {
    out->ptr = row; out->ts = row->timestamp(); out->ncol = 0;
    if (ncols == 0) {
        int n = row->ncol();
        if (n > TR_MAXCOL) n = TR_MAXCOL;
        for (int i = 0; i < n; ++i) put_col(out, i, row->col(i));
    } else
        for (int i = 0; i < ncols; ++i) put_col(out, i, row->col(colix(cols[i])));
}

struct small_params : public nodeparams<4, 3> {
    typedef row_type* value_type;
    typedef value_print<value_type> value_print_type;
    typedef ::threadinfo threadinfo_type;
};
struct mid_params : public nodeparams<7, 7> {
    typedef row_type* value_type;
    typedef value_print<value_type> value_print_type;
    typedef ::threadinfo threadinfo_type;
    static constexpr int bound_method = bound_method_linear;
};

struct scanner {
    tr_scan_ctx* cx;
    template <typename SS, typename K> void visit_leaf(const SS& ss, const K&, threadinfo&) {
        if (cx->leaf) cx->leaf(cx->ctx, ss.node(), ss.full_version_value());
    }
    bool visit_value(Str key, row_type* row, threadinfo&) {
        tr_row r;
        fill_row(row, cx->cols, cx->ncols, &r);
        return cx->value(cx->ctx, tr_str{key.s, key.len}, &r) != 0;
    }
};

template <typename P> struct impl {
    typedef basic_table<P> T;
    typedef leaf<P> leaf_type; typedef internode<P> inode_type; typedef node_base<P> node_type;
    static T& tab(void* t) { return *static_cast<T*>(t); }
    static threadinfo& TI(void* ti) { return *static_cast<threadinfo*>(ti); }
    static Q& QQ(void* q) { return *static_cast<Q*>(q); }

    static void* make(void* ti) { T* t = new T; t->initialize(TI(ti)); return t; }
    static void destroy(void* t, void* ti) { tab(t).destroy(TI(ti)); }

    static int get(void* t, void* q, void* ti, int flavour, tr_str key, const int* cols, int ncols, tr_row* out) {
        out->ncol = 0; out->ts = 0; out->ptr = nullptr;
        if (flavour == 0) {         // raw table lookup
            row_type* row = nullptr;
            const T& ct = tab(t);
            if (!ct.get(S(key), row, TI(ti))) return 0;
            fill_row(row, cols, ncols, out);
            return 1;
        } else if (flavour == 1) {  // query, single column
            Str v;
            if (!QQ(q).run_get1(tab(t), S(key), ncols ? colix(cols[0]) : 0, v, TI(ti))) return 0;
            put_col(out, 0, v);
            return 1;
        } else {                    // query, JSON request
            Json req = Json::array(0, (int) 0);
            req.push_back(String::make_stable(key.s, key.len));
            for (int i = 0; i < ncols; ++i) req.push_back(colj(cols[i]));
            // a row that is found leaves exactly its columns behind the two header elements
            req[0] = -77;
            int before = req.size();
            String k0 = req[2].as_s();
            QQ(q).run_get(tab(t), req, TI(ti));
            (void) before;
            bool found = !(req.size() >= 3 && req[2].is_s() && req[2].as_s().data() == k0.data() && key.len > 0);
            if (key.len == 0) { Str v; found = QQ(q).run_get1(tab(t), S(key), 0, v, TI(ti)); if (!found) return 0;
                req = Json::array(0, (int) 0); req.push_back(String::make_stable(key.s, key.len));
                for (int i = 0; i < ncols; ++i) req.push_back(colj(cols[i]));
                row_type* row = nullptr; const T& ct = tab(t);
                if (!ct.get(S(key), row, TI(ti))) return 0;
                fill_row(row, cols, ncols, out); return 1; }
            if (!found || req.size() == 2) return 0;
            for (int i = 2; i < req.size(); ++i) put_json(out, i - 2, req[i]);
            return 1;
        }
    }
    static int put(void* t, void* q, void* ti, tr_str key, const int* cols, const tr_str* vals, int n, tr_times* tm) {
        Json req = Json::array();
        for (int i = 0; i < n; ++i) { req.push_back(colj(cols[i])); req.push_back(String(vals[i].s, vals[i].len)); }
        const Json* b = req.array_data();
        result_t r = QQ(q).run_put(tab(t), S(key), b, b + req.size(), TI(ti));
        tm->ts = QQ(q).query_times().ts; tm->prev_ts = QQ(q).query_times().prev_ts;
        return r == Inserted;
    }
    static int replace(void* t, void* q, void* ti, tr_str key, tr_str val, tr_times* tm) {
        result_t r = QQ(q).run_replace(tab(t), S(key), S(val), TI(ti));
        tm->ts = QQ(q).query_times().ts; tm->prev_ts = QQ(q).query_times().prev_ts;
        return r == Inserted;
    }
    static int remove(void* t, void* q, void* ti, tr_str key, tr_times* tm) {
        bool r = QQ(q).run_remove(tab(t), S(key), TI(ti));
        tm->ts = QQ(q).query_times().ts; tm->prev_ts = QQ(q).query_times().prev_ts;
        return r;
    }
    static int scan(void* t, void*, void* ti, int reverse, int matchfirst, tr_str first, tr_scan_ctx* cx) {
        scanner s; s.cx = cx;
        const T& ct = tab(t);
        return reverse ? ct.rscan(S(first), matchfirst, s, TI(ti)) : ct.scan(S(first), matchfirst, s, TI(ti));
    }
    static int scan_query(void* t, void* q, void* ti, int reverse, int versions, tr_str first, int limit, tr_scan_ctx* cx) {
        Json req = Json::array(0, (int) 0);
        req.push_back(String(first.s, first.len));
        req.push_back(limit);
        for (int i = 0; i < cx->ncols; ++i) req.push_back(colj(cx->cols[i]));
        std::vector<uint64_t> vers;
        if (versions) QQ(q).run_scan_versions(tab(t), req, vers, TI(ti));
        else if (reverse) QQ(q).run_rscan(tab(t), req, TI(ti));
        else QQ(q).run_scan(tab(t), req, TI(ti));
        int n = 0;
        for (int i = 2; i + 1 < req.size(); i += 2, ++n) {
            tr_row r; r.ptr = nullptr; r.ts = 0; r.ncol = 0;
            String k = req[i].as_s();
            if (req[i + 1].is_a())
                for (int c = 0; c < req[i + 1].size(); ++c) put_json(&r, c, req[i + 1][c]);
            else put_json(&r, 0, req[i + 1]);
            if (!cx->value(cx->ctx, tr_str{k.data(), k.length()}, &r)) { ++n; break; }
        }
        if (versions && cx->leaf)
            for (size_t i = 0; i + 1 < vers.size(); i += 2) cx->leaf(cx->ctx, (void*) vers[i], vers[i + 1]);
        return n;
    }
    static int get_version(void* t, void* ti, tr_str key, tr_nodever* nv) {
        unlocked_tcursor<P> lp(tab(t), S(key));
        bool f = lp.find_unlocked(TI(ti));
        nv->node = lp.node(); nv->v = lp.full_version_value();
        return f;
    }
    // The version word and the size are two loads; a validator has to read them as one snapshot.
    static uint64_t node_version(void* n) {
        leaf_type* l = static_cast<leaf_type*>(n);
        while (true) {
            auto v = l->stable();
            uint64_t r = l->full_version_value();
            if (!l->has_changed(v)) return r;
        }
    }
    static void report(tcursor<P>& lp, tr_mod* m) {
        m->orig_node = lp.original_node(); m->orig_v = lp.original_version_value(); m->upd_v = lp.updated_version_value();
        m->nnew = 0;
        for (auto it = lp.new_nodes().begin(); it != lp.new_nodes().end(); ++it)
            if (m->nnew < 40) { m->nn[m->nnew].node = it->first; m->nn[m->nnew].v = it->second; ++m->nnew; }
    }
    static int insert_mod(void* t, void*, void* ti, tr_str key, tr_str val, tr_mod* m) {
        tcursor<P> lp(tab(t), S(key));
        bool found = lp.find_insert(TI(ti));
        if (found) { lp.finish(0, TI(ti)); return 0; }
        TI(ti).observe_phantoms(lp.node());
        lp.value() = row_type::create1(S(val), TI(ti).update_timestamp(), TI(ti));
        lp.finish(1, TI(ti));
        report(lp, m);
        return 1;
    }
    // ---- structural walk (single threaded, at quiescence)
    struct W { tr_walk_out* o; tr_block_cb blk; tr_key_cb key; void* ctx; };
    static void err(W& w, const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (w.o->err[0]) return;
        va_list ap; va_start(ap, fmt); vsnprintf(w.o->err, sizeof w.o->err, fmt, ap); va_end(ap);
    }
    static void node(W& w, node_type* n, node_type* parent, bool has_lo, uint64_t lo, bool has_hi, uint64_t hi, char* prefix, int plen,
                     int height, std::vector<leaf_type*>& leaves, unsigned depth) {
        if (depth > w.o->max_depth) w.o->max_depth = depth;
        if (n->locked()) err(w, "reachable node %p is locked", (void*) n);
        if (n->deleted()) err(w, "reachable node %p is marked deleted", (void*) n);
        if (n->inserting() || n->splitting()) err(w, "reachable node %p is marked dirty", (void*) n);
        if (parent && !n->isleaf() && n->is_root()) err(w, "non-root internode %p carries the root mark", (void*) n);
        if (!parent && !n->is_root()) err(w, "layer root %p lacks the root mark", (void*) n);
        if (parent && n->parent() != parent) err(w, "node %p: parent pointer %p, actual parent %p", (void*) n, (void*) n->parent(), (void*) parent);
        w.blk(w.ctx, n, n->isleaf() ? "leaf" : "internode");
        if (!n->isleaf()) {
            inode_type* in = static_cast<inode_type*>(n);
            ++w.o->internodes;
            int sz = in->size();
            if (sz < 0 || sz > P::internode_width) { err(w, "internode %p has size %d", (void*) n, sz); return; }
            for (int i = 0; i < sz; ++i) {
                uint64_t k = in->ikey(i);
                if (i && in->ikey(i - 1) >= k) err(w, "internode keys out of order at %d", i);
                if (has_lo && k < lo) err(w, "internode key below its lower bound");
                if (has_hi && k >= hi) err(w, "internode key not below its upper bound");
            }
            for (int i = 0; i <= sz; ++i) {
                node_type* c = in->child_[i];
                if (!c) { if (i != 0) err(w, "internode %p: null child %d of %d", (void*) n, i, sz); continue; }
                node(w, c, n, i > 0 || has_lo, i > 0 ? in->ikey(i - 1) : lo, i < sz || has_hi, i < sz ? in->ikey(i) : hi, prefix, plen, height + 1, leaves, depth + 1);
            }
            return;
        }
        leaf_type* lf = static_cast<leaf_type*>(n);
        ++w.o->leaves;
        leaves.push_back(lf);
        if (lf->deleted_layer()) err(w, "reachable leaf %p is marked as belonging to a deleted layer", (void*) lf);
        if (lf->ksuf_) w.blk(w.ctx, lf->ksuf_, "suffix block");
        typename leaf_type::permuter_type perm = lf->permutation();
        if (perm.size() == 0) ++w.o->empty_leaves;
        if (perm.size() > P::leaf_width) { err(w, "leaf size %d", perm.size()); return; }
        unsigned used = 0;
        for (int i = 0; i < P::leaf_width; ++i) {
            int p = perm[i];
            if (p >= P::leaf_width || (used & (1u << p))) { err(w, "leaf %p: permutation names slot %d twice or out of range", (void*) lf, p); return; }
            used |= 1u << p;
        }
        if (has_lo && leaves.size() > 1 && lf->ikey_bound() < lo) err(w, "leaf bound below its separator");
        for (int i = 0; i < perm.size(); ++i) {
            int p = perm[i];
            uint64_t ik = lf->ikey(p);
            int kl = lf->keylenx_[p];
            if (has_lo && ik < lo) err(w, "leaf key below its lower bound");
            if (has_hi && ik >= hi) err(w, "leaf key not below its upper bound");
            if (lf->prev_ && ik < lf->ikey_bound()) err(w, "leaf key below the leaf's own bound");
            if (i) {
                int q = perm[i - 1];
                int a = lf->keylenx_[q] > 8 ? 9 : lf->keylenx_[q], b = kl > 8 ? 9 : kl;
                if (lf->ikey(q) > ik || (lf->ikey(q) == ik && a >= b)) err(w, "leaf keys out of order");
            }
            for (int j = 0; j < 8; ++j) prefix[plen + j] = (char) (ik >> (8 * (7 - j)));
            if (leaf_type::keylenx_is_layer(kl)) {
                ++w.o->layers;
                node_type* r = lf->lv_[p].layer();
                int hops = 0;
                while (r && !r->is_root() && ++hops < 64) r = r->maybe_parent();
                if (!r || hops >= 64) { err(w, "cannot find the root of a layer"); continue; }
                if (plen + 8 > 256) { err(w, "layers nest too deeply"); continue; }
                layer(w, r, prefix, plen + 8, depth + 1);
            } else {
                ++w.o->keys;
                char kb[600]; int n2 = plen;
                memcpy(kb, prefix, plen);
                if (leaf_type::keylenx_has_ksuf(kl)) {
                    Str s = lf->ksuf(p);
                    if (s.len <= 0 || plen + 8 + s.len > 512) { err(w, "suffix of %d bytes", s.len); continue; }
                    memcpy(kb + n2, prefix + plen, 8); n2 += 8;
                    memcpy(kb + n2, s.s, s.len); n2 += s.len;
                } else {
                    if (kl > 8) { err(w, "key length code %d", kl); continue; }
                    memcpy(kb + n2, prefix + plen, kl); n2 += kl;
                }
                if (w.key) w.key(w.ctx, tr_str{kb, n2});
                w.blk(w.ctx, lf->lv_[p].value(), "row");
#if MASSTREE_ROW_TYPE_ARRAY || MASSTREE_ROW_TYPE_ARRAY_VER
                row_type* row = lf->lv_[p].value();
                for (int c = 0; c < row->ncol(); ++c) { Str s = row->col(c); if (s.len) w.blk(w.ctx, s.s, "column"); }
#endif
            }
        }
    }
    static void layer(W& w, node_type* root, char* prefix, int plen, unsigned depth) {
        std::vector<leaf_type*> leaves;
        char pf[600]; memcpy(pf, prefix, plen);
        if (root->parent() && root->isleaf()) err(w, "layer root leaf has a parent");
        node(w, root, nullptr, false, 0, false, 0, pf, plen, 0, leaves, depth);
        // leaf list: exactly the leaves of the layer, in order, linked both ways
        for (size_t i = 0; i < leaves.size(); ++i) {
            leaf_type* want = i + 1 < leaves.size() ? leaves[i + 1] : nullptr;
            if (leaves[i]->next_.x & 1) err(w, "leaf %p: next link still marked", (void*) leaves[i]);
            if (leaves[i]->safe_next() != want) err(w, "leaf list: next of leaf %zu of %zu is %p, expected %p", i, leaves.size(), (void*) leaves[i]->safe_next(), (void*) want);
            leaf_type* wp = i ? leaves[i - 1] : nullptr;
            if (leaves[i]->prev_ != wp) err(w, "leaf list: prev of leaf %zu of %zu is %p, expected %p", i, leaves.size(), (void*) leaves[i]->prev_, (void*) wp);
            if (i && leaves[i]->ikey_bound() <= leaves[i - 1]->ikey_bound() && i > 1) err(w, "leaf bounds out of order");
            if (i) {    // every key of a leaf lies at or above its bound and below the next leaf's bound
                typename leaf_type::permuter_type perm = leaves[i - 1]->permutation();
                if (perm.size() && leaves[i - 1]->ikey(perm[perm.size() - 1]) >= leaves[i]->ikey_bound()) err(w, "leaf key at or above the next leaf's bound");
            }
        }
    }
    static void walk(void* t, tr_walk_out* o, tr_block_cb blk, tr_key_cb key, void* ctx) {
        memset(o, 0, sizeof *o);
        W w{o, blk, key, ctx};
        node_type* r = tab(t).root();
        int hops = 0;
        while (!r->is_root() && ++hops < 64) r = r->maybe_parent();
        char prefix[600];
        layer(w, r, prefix, 0, 0);
    }
    static const tr_api api(const char* name) {
        tr_api a;
        memset(&a, 0, sizeof a);
        a.name = name; a.leaf_width = P::leaf_width;
        a.table_make = make; a.table_destroy = destroy; a.get = get; a.put = put; a.replace = replace; a.remove = remove;
        a.scan = scan; a.scan_query = scan_query; a.get_version = get_version; a.node_version = node_version;
        a.insert_mod = insert_mod; a.walk = walk;
        return a;
    }
};

static const tr_api api15 = impl<default_query_table_params>::api("w15");
static const tr_api api4 = impl<small_params>::api("w4");
static const tr_api api7 = impl<mid_params>::api("w7");
const tr_api* tr_apis[] = {&api15, &api4, &api7};
const int tr_napis = 3;
const char* tr_row_name = row_type::name();

extern "C" {
void* tr_ti_make(int purpose, int index) { return threadinfo::make(purpose, index); }
void tr_rcu_start(void* ti) { static_cast<threadinfo*>(ti)->rcu_start(); }
void tr_rcu_stop(void* ti) { static_cast<threadinfo*>(ti)->rcu_stop(); }
void tr_rcu_quiesce(void* ti) { static_cast<threadinfo*>(ti)->rcu_quiesce(); }
void* tr_query_make() { return new Q; }
void tr_query_free(void* q) { delete static_cast<Q*>(q); }
void tr_epoch_inc() { globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); }
uint64_t tr_epoch() { return globalepoch.load(); }
void tr_set_epoch(uint64_t e) { globalepoch.store(e); active_epoch.store(e); }
uint64_t tr_active_epoch() { return active_epoch.load(); }
size_t tr_limbo_size() { return sizeof(limbo_group); }
struct fn_callback : public mrcu_callback {
    void (*fn)(void*, void*); void* arg;
    void operator()(threadinfo& ti) { fn(arg, &ti); }
};
void tr_rcu_register(void* ti, void (*fn)(void*, void*), void* arg) {
    fn_callback* c = (fn_callback*) malloc(sizeof(fn_callback));
    new(c) fn_callback; c->fn = fn; c->arg = arg;
    static_cast<threadinfo*>(ti)->rcu_register(c);
}
void* tr_rcu_alloc(void* ti, size_t n) { return static_cast<threadinfo*>(ti)->allocate(n, memtag_value); }
void tr_rcu_free(void* ti, void* p, size_t n) { static_cast<threadinfo*>(ti)->deallocate_rcu(p, n, memtag_value); }
void* tr_pool_alloc(void* ti, size_t n) { return static_cast<threadinfo*>(ti)->pool_allocate(n, memtag_masstree_leaf); }
void tr_pool_free_rcu(void* ti, void* p, size_t n) { static_cast<threadinfo*>(ti)->pool_deallocate_rcu(p, n, memtag_masstree_leaf); }
void tr_pool_free(void* ti, void* p, size_t n) { static_cast<threadinfo*>(ti)->pool_deallocate(p, n, memtag_masstree_leaf); }
uint64_t tr_touch(const void* p) { return *(const volatile uint64_t*) p; }
}
