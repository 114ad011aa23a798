// Plain-data interface between the simulation harness (not instrumented) and the code under test.
#ifndef OPS_H
#define OPS_H 1
#include <stdint.h>
#include <stddef.h>
struct tr_str { const char* s; int len; };
enum { TR_MAXCOL = 12 };
struct tr_row { int ncol; tr_str col[TR_MAXCOL]; uint64_t ts; const void* ptr; };
struct tr_times { uint64_t ts, prev_ts; };
struct tr_nodever { void* node; uint64_t v; };
struct tr_mod {             // what an insert/remove reported to its caller about node versions
    void* orig_node; uint64_t orig_v, upd_v;
    int nnew; tr_nodever nn[40];
};
typedef int (*tr_scan_cb)(void* ctx, tr_str key, const tr_row* row);         // return 0 to stop
typedef void (*tr_leaf_cb)(void* ctx, void* node, uint64_t version);
struct tr_scan_ctx { void* ctx; tr_scan_cb value; tr_leaf_cb leaf; const int* cols; int ncols; };
struct tr_walk_out {        // structural walk at quiescence
    uint64_t leaves, internodes, layers, keys, empty_leaves, max_depth;
    char err[400];
};
typedef void (*tr_block_cb)(void* ctx, const void* p, const char* what);
typedef void (*tr_key_cb)(void* ctx, tr_str key);
struct tr_api {
    const char* name;
    int leaf_width;
    void* (*table_make)(void* ti);
    void (*table_destroy)(void* t, void* ti);
    int (*get)(void* t, void* q, void* ti, int flavour, tr_str key, const int* cols, int ncols, tr_row* out);
    int (*put)(void* t, void* q, void* ti, tr_str key, const int* cols, const tr_str* vals, int n, tr_times* tm);
    int (*replace)(void* t, void* q, void* ti, tr_str key, tr_str val, tr_times* tm);
    int (*remove)(void* t, void* q, void* ti, tr_str key, tr_times* tm);
    int (*scan)(void* t, void* q, void* ti, int reverse, int matchfirst, tr_str first, tr_scan_ctx* cx);
    int (*scan_query)(void* t, void* q, void* ti, int reverse, int versions, tr_str first, int limit, tr_scan_ctx* cx);
    // absent lookup with the node version it observed
    int (*get_version)(void* t, void* ti, tr_str key, tr_nodever* nv);
    uint64_t (*node_version)(void* node);           // current full version
    int (*insert_mod)(void* t, void* q, void* ti, tr_str key, tr_str val, tr_mod* m);   // 1 inserted, 0 present (left alone)
    void (*walk)(void* t, tr_walk_out* out, tr_block_cb blk, tr_key_cb key, void* ctx);
    void (*findpivots)(void* t);
    void (*print)(void* t);
};
extern "C" {
extern const tr_api* tr_apis[];
extern const int tr_napis;
extern const char* tr_row_name;
extern int tr_col_width;            // >0: columns are fixed-width slots
void* tr_ti_make(int purpose, int index);
void tr_rcu_start(void* ti);
void tr_rcu_stop(void* ti);
void tr_rcu_quiesce(void* ti);
void* tr_query_make();
void tr_query_free(void* q);
void tr_epoch_inc();
uint64_t tr_epoch();
void tr_set_epoch(uint64_t e);
uint64_t tr_active_epoch();
size_t tr_limbo_size();
// deferred callbacks
void tr_rcu_register(void* ti, void (*fn)(void* arg, void* ti), void* arg);
void* tr_rcu_alloc(void* ti, size_t n);
void tr_rcu_free(void* ti, void* p, size_t n);
void* tr_pool_alloc(void* ti, size_t n);
void tr_pool_free_rcu(void* ti, void* p, size_t n);
void tr_pool_free(void* ti, void* p, size_t n);
uint64_t tr_touch(const void* p);    // instrumented read of one word
}
#endif
