From e9de7e13305c31e7d9575c9673aa10553561fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 01/39] Add MASSTREE_SIM hooks for deterministic simulation
 (off by default)

---
 compiler.hh | 21 +++++++++++++++++++++
 kvthread.hh | 11 +++++++++++
 log.cc      |  8 ++++++++
 3 files changed, 40 insertions(+)

diff --git a/compiler.hh b/compiler.hh
index f70fea0..3877f90 100644
--- a/compiler.hh
+++ b/compiler.hh
@@ -57,6 +57,20 @@
 #endif
 
 
+#if MASSTREE_SIM
+// Deterministic-simulation hooks; see MASSTREE_SIM users. Inline-assembly
+// atomics and spin hints are invisible to compiler instrumentation, so they
+// are announced explicitly.
+extern "C" void masstree_sim_relax(void);
+extern "C" void masstree_sim_atomic(const volatile void* object, unsigned size);
+# define MASSTREE_SIM_RELAX() masstree_sim_relax()
+# define MASSTREE_SIM_ATOMIC(object) masstree_sim_atomic((object), sizeof(*(object)))
+#else
+# define MASSTREE_SIM_RELAX() do { } while (0)
+# define MASSTREE_SIM_ATOMIC(object) do { } while (0)
+#endif
+
+
 /** @brief Return the index of the most significant bit set in @a x.
  * @return 0 if @a x = 0; otherwise the index of first bit set, where the
  * most significant bit is numbered 1.
@@ -96,6 +110,7 @@ inline void release_fence() {
 
     Use this in spinloops, for example. */
 inline void relax_fence() {
+    MASSTREE_SIM_RELAX();
     asm volatile("pause" : : : "memory"); // equivalent to "rep; nop"
 }
 
@@ -397,6 +412,7 @@ template<typename T>
 inline T xchg(T* object, T new_value) {
     typedef sized_compiler_operations<sizeof(T), fence_function> sco_t;
     typedef typename sco_t::type type;
+    MASSTREE_SIM_ATOMIC(object);
     return (T) sco_t::xchg((type*) object, (type) new_value);
 }
 
@@ -433,6 +449,7 @@ template <typename T>
 inline T cmpxchg(T* object, T expected, T desired) {
     typedef sized_compiler_operations<sizeof(T), fence_function> sco_t;
     typedef typename sco_t::type type;
+    MASSTREE_SIM_ATOMIC(object);
     return (T) sco_t::val_cmpxchg((type*) object, (type) expected, (type) desired);
 }
 
@@ -477,6 +494,7 @@ template <typename T>
 inline T fetch_and_add(T* object, T addend) {
     typedef sized_compiler_operations<sizeof(T), fence_function> sco_t;
     typedef typename sco_t::type type;
+    MASSTREE_SIM_ATOMIC(object);
     return (T) sco_t::fetch_and_add((type*) object, (type) addend);
 }
 
@@ -484,6 +502,7 @@ template <typename T>
 inline T* fetch_and_add(T** object, int addend) {
     typedef sized_compiler_operations<sizeof(T*), fence_function> sco_t;
     typedef typename sco_t::type type;
+    MASSTREE_SIM_ATOMIC(object);
     return (T*) sco_t::fetch_and_add((type*) object, (type) (addend * sizeof(T)));
 }
 
@@ -526,6 +545,7 @@ template <typename T>
 inline void test_and_set_acquire(T* object) {
     typedef sized_compiler_operations<sizeof(T), do_nothing> sco_t;
     typedef typename sco_t::type type;
+    MASSTREE_SIM_ATOMIC(object);
     while (sco_t::xchg((type*) object, (type) 1))
         relax_fence();
     acquire_fence();
@@ -546,6 +566,7 @@ template <typename T>
 inline void atomic_or(T* object, T addend) {
     typedef sized_compiler_operations<sizeof(T), fence_function> sco_t;
     typedef typename sco_t::type type;
+    MASSTREE_SIM_ATOMIC(object);
     sco_t::atomic_or((type*) object, (type) addend);
 }
 
diff --git a/kvthread.hh b/kvthread.hh
index 707b1e7..9ebf482 100644
--- a/kvthread.hh
+++ b/kvthread.hh
@@ -28,6 +28,13 @@
 class threadinfo;
 class loginfo;
 
+#if MASSTREE_SIM
+// Deterministic-simulation hook: take over a reclaimed pool item, so that it
+// is never reused and later accesses to it can be detected. Returns nonzero
+// if the item was taken.
+extern "C" int masstree_sim_pool_free(void* ptr);
+#endif
+
 typedef uint64_t mrcu_epoch_type;
 typedef int64_t mrcu_signed_epoch_type;
 
@@ -332,6 +339,10 @@ class threadinfo {
         else {
             p = memdebug::check_free_after_rcu(p, tag);
             int nl = tag & memtag_pool_mask;
+#if MASSTREE_SIM
+            if (masstree_sim_pool_free(p))
+                return;
+#endif
             *reinterpret_cast<void**>(p) = pool_[nl - 1];
             pool_[nl - 1] = p;
         }
diff --git a/log.cc b/log.cc
index 15d9553..34fa2cb 100644
--- a/log.cc
+++ b/log.cc
@@ -30,6 +30,11 @@
 #include <errno.h>
 using lcdf::String;
 
+#if MASSTREE_SIM
+// Deterministic-simulation hook: choose a (smaller) log buffer.
+extern "C" uint32_t masstree_sim_log_buffer_size(uint32_t size);
+#endif
+
 kvepoch_t global_log_epoch;
 kvepoch_t global_wake_epoch;
 struct timeval log_epoch_interval;
@@ -183,6 +188,9 @@ loginfo::loginfo(logset* ls, int logindex) {
     f_.filename_.ref();
 
     len_ = 20 * 1024 * 1024;
+#if MASSTREE_SIM
+    len_ = masstree_sim_log_buffer_size(len_);
+#endif
     pos_ = 0;
     buf_ = (char *) malloc(len_);
     always_assert(buf_);
-- 
2.43.0


From 92e46631c5ef3f6793e87949f9db60ab3266f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 02/39] fix: retire a replaced or removed row only after the
 tree no longer refers to it

Rows were handed to deferred reclamation before the pointer to them was
overwritten (put, replace) or the key's slot was released (remove).  A reader
whose section began between the hand-over and the unlinking, in a later epoch,
could still obtain the row and was not waited for.
---
 kvrow.hh | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index a92c9b2..a266f82 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -185,7 +185,6 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     }
 
     if (!found) {
-    insert:
         assign_timestamp(ti);
         value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         return true;
@@ -194,8 +193,10 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (row_is_marker(old_value)) {
-        old_value->deallocate_rcu(ti);
-        goto insert;
+        assign_timestamp(ti);
+        value = R::create(firstreq, lastreq, qtimes_.ts, ti);
+        old_value->deallocate_rcu(ti); // only now unreachable
+        return true;
     }
 
     R* updated = old_value->update(firstreq, lastreq, qtimes_.ts, ti);
@@ -227,14 +228,16 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
     }
 
     bool inserted = !found || row_is_marker(value);
+    R* old_value = found ? value : nullptr;
     if (!found) {
         assign_timestamp(ti);
     } else {
-        assign_timestamp(ti, value->timestamp());
-        value->deallocate_rcu(ti);
+        assign_timestamp(ti, old_value->timestamp());
     }
 
     value = R::create1(new_value, qtimes_.ts, ti);
+    if (old_value) // only now unreachable
+        old_value->deallocate_rcu(ti);
     return inserted;
 }
 
@@ -242,9 +245,14 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
-    if (found)
+    R* old_value = nullptr;
+    if (found) {
+        old_value = lp.value();
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
+    }
     lp.finish(-1, ti);
+    if (old_value) // only now unreachable
+        old_value->deallocate_rcu(ti);
     return found;
 }
 
@@ -261,7 +269,6 @@ inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
     if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
         node_ts = qtimes_.ts + 2;
     }
-    old_value->deallocate_rcu(ti);
 }
 
 
-- 
2.43.0


From 9eb1de82b8834d2f270d461caa71d1781ad99a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 03/39] fix: retire removed tree nodes only after they are
 unlinked

remove_leaf() and gc_layer() handed a leaf, an emptied internode or an empty
layer root to deferred reclamation while its parent still pointed at it.  A
reader whose section began in a later epoch could still descend into the node
and was not waited for.
---
 masstree_remove.hh  | 34 ++++++++++++++++++++--------------
 masstree_tcursor.hh |  2 +-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index b1a749d..59f8807 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -21,7 +21,7 @@
 namespace Masstree {
 
 template <typename P>
-bool tcursor<P>::gc_layer(threadinfo& ti)
+typename tcursor<P>::leaf_type* tcursor<P>::gc_layer(threadinfo& ti)
 {
     find_locked(ti);
     masstree_precondition(!n_->deleted() && !n_->deleted_layer());
@@ -30,7 +30,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // succeeded at removing multiple tree layers. So check that the whole
     // key has been consumed
     if (ka_.has_suffix()) {
-        return false;
+        return nullptr;
     }
 
     // find the slot for the child tree
@@ -40,12 +40,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // length ikey_size; we need to adjust ki_.
     kx_.i += has_value();
     if (kx_.i >= n_->size()) {
-        return false;
+        return nullptr;
     }
     permuter_type perm(n_->permutation_);
     kx_.p = perm[kx_.i];
     if (n_->ikey0_[kx_.p] != ka_.ikey() || !n_->is_layer(kx_.p)) {
-        return false;
+        return nullptr;
     }
 
     // remove redundant internode layers
@@ -63,7 +63,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
 
         internode_type *in = static_cast<internode_type *>(layer);
         if (in->size() > 0) {
-            return false;
+            return nullptr;
         }
         in->lock(*layer, ti.lock_fence(tc_internode_lock));
         if (!in->is_root() || in->size() > 0) {
@@ -88,7 +88,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     {
         leaf_type* lf = static_cast<leaf_type*>(layer);
         if (lf->size() > 0) {
-            return false;
+            return nullptr;
         }
         lf->lock(*lf, ti.lock_fence(tc_leaf_lock));
         if (!lf->is_root() || lf->size() > 0) {
@@ -105,13 +105,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
-        return true;
+        return lf;
     }
 
  unlock_layer:
     layer->unlock();
-    return false;
+    return nullptr;
 }
 
 template <typename P>
@@ -139,10 +138,13 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     }
     if (!root_->deleted()) {    // if not destroying tree...
         tcursor<P> lp(root_, s_, len_);
-        bool do_remove = lp.gc_layer(ti);
-        if (!do_remove || !lp.finish_remove(ti)) {
+        auto lf = lp.gc_layer(ti);
+        if (!lf || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
+        if (lf) { // only now unreachable
+            lf->deallocate_rcu(ti);
+        }
         ti.deallocate(this, size(), memtag_masstree_gc);
     }
 }
@@ -186,9 +188,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted (it is RCU-freed once it is unreachable)
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
     // kept up to date
@@ -238,6 +239,12 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         n->unlock();
+        // `n` is unreachable now, so it can be RCU-freed
+        if (n == leaf) {
+            leaf->deallocate_rcu(ti);
+        } else {
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -245,7 +252,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
diff --git a/masstree_tcursor.hh b/masstree_tcursor.hh
index b3782dd..6b65d03 100644
--- a/masstree_tcursor.hh
+++ b/masstree_tcursor.hh
@@ -193,7 +193,7 @@ class tcursor {
     static bool remove_leaf(leaf_type* leaf, node_type* root,
                             Str prefix, threadinfo& ti);
 
-    bool gc_layer(threadinfo& ti);
+    leaf_type* gc_layer(threadinfo& ti);
     friend struct gc_layer_rcu_callback<P>;
 };
 
-- 
2.43.0


From f345c115bc7e2d7ce2af8c413b2274c138828250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 04/39] fix: scans must not re-read a slot's key-length code

The scanner checked keylenx_ once and then called ksuf(p), which reads it again
and asserts that the slot holds a suffix.  A writer turning the slot into a
layer in between made the assertion fail, although the scanner would have
noticed the changed version and retried.
---
 masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index bccf7b6..b1351db 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -202,7 +202,7 @@ int scanstackelt<P>::find_initial(H& helper, key_type& ka, bool emit_equal,
         entry = n_->lv_[kx.p];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx)) {
-            suffix = n_->ksuf(kx.p);
+            suffix = n_->ksuf(kx.p, keylenx);
             memcpy(suffixbuf, suffix.s, suffix.len);
             suffix.s = suffixbuf;
         }
@@ -267,7 +267,7 @@ int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
         entry = n_->lv_[kp];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx))
-            keylen = ka.assign_store_suffix(n_->ksuf(kp));
+            keylen = ka.assign_store_suffix(n_->ksuf(kp, keylenx));
 
         if (n_->has_changed(v_))
             goto changed;
-- 
2.43.0


From 7e11ae3786f44df31d8986d4a70db857b4485908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 05/39] fix: collect a trie layer whose last two leaves were
 emptied left to right

remove_leaf registered the layer's garbage collection only when the layer's
single remaining leaf became empty.  When the leftmost leaf was emptied
first and its last sibling was removed afterwards, nothing ever collected
the (empty) layer.
---
 masstree_remove.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 59f8807..0411824 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -209,6 +209,14 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     // Unlink leaf from doubly-linked leaf list
     btree_leaflink<leaf_type>::unlink(leaf);
 
+    // If that leaves a trie layer with a single leaf, and the leaf is already
+    // empty, no later removal will garbage collect the layer
+    leaf_type* rest = leaf->prev_;
+    if (!prefix.empty() && !rest->prev_ && !rest->safe_next()
+        && rest->size() == 0) {
+        gc_layer_rcu_callback<P>::make(root, prefix, ti);
+    }
+
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
-- 
2.43.0


From 357258fd7127efcee83c38415f91f3110220a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 06/39] fix: destroying a tree must reclaim whole layers and
 pending layer collections

A slot may refer to a layer's first leaf rather than its root; destroy()
then leaked the rest of that layer.  Layer-collection callbacks that ran
after the tree had been destroyed were leaked too.
---
 masstree_remove.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 0411824..9f8b950 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -145,8 +145,8 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
         if (lf) { // only now unreachable
             lf->deallocate_rcu(ti);
         }
-        ti.deallocate(this, size(), memtag_masstree_gc);
     }
+    ti.deallocate(this, size(), memtag_masstree_gc);
 }
 
 template <typename P>
@@ -352,8 +352,14 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             typename leaf_type::permuter_type perm = l->permutation();
             for (int i = 0; i != l->size(); ++i) {
                 int p = perm[i];
-                if (l->is_layer(p))
-                    enqueue(l->lv_[p].layer(), tailp);
+                if (l->is_layer(p)) {
+                    // the slot may still refer to the layer's first leaf
+                    node_base<P>* layer = l->lv_[p].layer();
+                    while (!layer->is_root()) {
+                        layer = layer->maybe_parent();
+                    }
+                    enqueue(layer, tailp);
+                }
             }
             l->deallocate(ti);
         } else {
@@ -365,7 +371,7 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             in->deallocate(ti);
         }
     }
-    ti.deallocate(this, sizeof(this), memtag_masstree_gc);
+    ti.deallocate(this, sizeof(*this), memtag_masstree_gc);
 }
 
 template <typename P>
-- 
2.43.0


From 0dd87b771bdd4f5d0268e0e9e3facee0a7558927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 07/39] fix: scans must report every leaf whose keys they rely
 on

A scan reported a leaf's version only if the leaf contributed another key.
Leaves in which it found nothing (an empty layer, the emptied first leaf of
a reverse scan) were never reported, so a key inserted there later went
unnoticed by callers validating the reported versions.
---
 masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index b1351db..44a8124 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -351,9 +351,9 @@ int basic_table<P>::scan(H helper,
 
         case mystack_type::scan_find_next:
         find_next:
+            // report the leaf before consuming it: it might hold no more keys
+            scanner.visit_leaf(stack, ka, ti);
             state = stack.find_next(helper, ka, entry);
-            if (state != mystack_type::scan_up)
-                scanner.visit_leaf(stack, ka, ti);
             break;
 
         case mystack_type::scan_up:
-- 
2.43.0


From 75a808d43a7e39bceec8af9e45d5c1319e05f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:42 +0000
Subject: [PATCH 08/39] fix: removing an empty layer must invalidate versions
 reported for its leaf

A failed lookup in an empty layer reports that layer's leaf.  Collecting the
layer left the leaf's version unchanged, so a key inserted into the parent
layer afterwards was not noticed.
---
 masstree_remove.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 9f8b950..5efd9e1 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -103,6 +103,7 @@ typename tcursor<P>::leaf_type* tcursor<P>::gc_layer(threadinfo& ti)
             && circular_int<typename P::phantom_epoch_type>::less(n_->phantom_epoch_[0], lf->phantom_epoch_[0])) {
             n_->phantom_epoch_[0] = lf->phantom_epoch_[0];
         }
+        lf->mark_insert();          // invalidate versions reported for lf
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
         return lf;
-- 
2.43.0


From 9fe9f882222751d33bd84f202e280ecbdb963687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 09/39] fix: unlink a removed leaf from the leaf list only
 after its parent forgot it

A removed leaf left the leaf list before its entry left the parent.  An
insert that had raced with a split of the previous leaf walks the list, so
it could put the removed leaf's keys into the previous leaf and split that
one too.  The parent then held two children with the same bound, and the
removal dropped the wrong one (or failed its invariant).
---
 masstree_remove.hh | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 5efd9e1..36e0387 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -207,17 +207,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
     }
 
-    // Unlink leaf from doubly-linked leaf list
-    btree_leaflink<leaf_type>::unlink(leaf);
-
-    // If that leaves a trie layer with a single leaf, and the leaf is already
-    // empty, no later removal will garbage collect the layer
-    leaf_type* rest = leaf->prev_;
-    if (!prefix.empty() && !rest->prev_ && !rest->safe_next()
-        && rest->size() == 0) {
-        gc_layer_rcu_callback<P>::make(root, prefix, ti);
-    }
-
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
@@ -247,11 +236,9 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
             ikey = p->ikey0_[0];
         }
 
-        n->unlock();
-        // `n` is unreachable now, so it can be RCU-freed
-        if (n == leaf) {
-            leaf->deallocate_rcu(ti);
-        } else {
+        if (n != leaf) {
+            n->unlock();
+            // `n` is unreachable now, so it can be RCU-freed
             static_cast<internode_type*>(n)->deallocate_rcu(ti);
         }
         n = p;
@@ -265,6 +252,22 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         p->child_[0] = nullptr;
     }
 
+    // Unlink leaf from doubly-linked leaf list. This must come last: once
+    // leaf is off the list, an insert that walks the list might put our keys
+    // into the previous leaf, which must not split as long as an internode
+    // refers to leaf.
+    btree_leaflink<leaf_type>::unlink(leaf);
+
+    // If that leaves a trie layer with a single leaf, and the leaf is already
+    // empty, no later removal will garbage collect the layer
+    leaf_type* rest = leaf->prev_;
+    if (!prefix.empty() && !rest->prev_ && !rest->safe_next()
+        && rest->size() == 0) {
+        gc_layer_rcu_callback<P>::make(root, prefix, ti);
+    }
+
+    leaf->unlock();
+    leaf->deallocate_rcu(ti);
     n->unlock();
     return true;
 }
-- 
2.43.0


From d3935c0c05efa71d4840232a8a6d62951fac48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 10/39] fix: keep phantom epochs exact when leaf removal races
 with splits and removals

A leaf's removal passes its phantom epoch on to the previous leaf.  The
epoch was lost when that leaf was concurrently splitting (the new right leaf
became responsible), was being removed itself, or had its own epoch updated
by a plain store.  Timestamps of re-inserted keys then went backwards.
---
 kvrow.hh           | 14 ++++++--------
 masstree_remove.hh | 30 +++++++++++++++---------------
 masstree_split.hh  |  5 +++++
 masstree_struct.hh | 11 +++++++++++
 4 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index a266f82..e30a9fc 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -88,7 +88,8 @@ class query {
                           const Json* lastreq, threadinfo& ti);
     inline bool apply_replace(R*& value, bool found, Str new_value,
                               threadinfo& ti);
-    inline void apply_remove(R*& value, kvtimestamp_t& node_ts, threadinfo& ti);
+    template <typename N>
+    inline void apply_remove(R*& value, N* node, threadinfo& ti);
 
     template <typename RR> friend class query_json_scanner;
 };
@@ -248,7 +249,7 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     R* old_value = nullptr;
     if (found) {
         old_value = lp.value();
-        apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
+        apply_remove(lp.value(), lp.node(), ti);
     }
     lp.finish(-1, ti);
     if (old_value) // only now unreachable
@@ -256,9 +257,8 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     return found;
 }
 
-template <typename R>
-inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
-                                   threadinfo& ti) {
+template <typename R> template <typename N>
+inline void query<R>::apply_remove(R*& value, N* node, threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
         log->acquire();
         qtimes_.epoch = global_log_epoch;
@@ -266,9 +266,7 @@ inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
 
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
-    if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
-        node_ts = qtimes_.ts + 2;
-    }
+    node->raise_phantom_epoch(qtimes_.ts + 2);
 }
 
 
diff --git a/masstree_remove.hh b/masstree_remove.hh
index 36e0387..af9420d 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -99,10 +99,7 @@ typename tcursor<P>::leaf_type* tcursor<P>::gc_layer(threadinfo& ti)
         masstree_invariant(!lf->prev_ && !lf->next_.ptr);
         masstree_invariant(!lf->deleted());
         masstree_invariant(!lf->deleted_layer());
-        if (P::need_phantom_epoch
-            && circular_int<typename P::phantom_epoch_type>::less(n_->phantom_epoch_[0], lf->phantom_epoch_[0])) {
-            n_->phantom_epoch_[0] = lf->phantom_epoch_[0];
-        }
+        n_->raise_phantom_epoch(lf->phantom_epoch());
         lf->mark_insert();          // invalidate versions reported for lf
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
@@ -193,17 +190,20 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     leaf->mark_deleted();
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
-    // kept up to date
-    while (P::need_phantom_epoch) {
-        leaf_type *prev = leaf->prev_;
-        typename P::phantom_epoch_type prev_ts = prev->phantom_epoch();
-        while (circular_int<typename P::phantom_epoch_type>::less(prev_ts, leaf->phantom_epoch())
-               && !bool_cmpxchg(&prev->phantom_epoch_[0], prev_ts, leaf->phantom_epoch())) {
-            prev_ts = prev->phantom_epoch();
-        }
-        fence();
-        if (prev == leaf->prev_) {
-            break;
+    // kept up to date. If the previous leaf is being removed too, it might
+    // have passed its phantom epoch on already, so consider its predecessor
+    if (P::need_phantom_epoch) {
+        leaf_type *n = leaf;
+        while (true) {
+            leaf_type *prev = n->prev_;
+            prev->raise_phantom_epoch(leaf->phantom_epoch());
+            fence();
+            if (prev == n->prev_) {
+                if (!prev->deleted() || !prev->prev_) {
+                    break;
+                }
+                n = prev;
+            }
         }
     }
 
diff --git a/masstree_split.hh b/masstree_split.hh
index ac8d97c..3c842f4 100644
--- a/masstree_split.hh
+++ b/masstree_split.hh
@@ -116,6 +116,11 @@ int leaf<P>::split_into(leaf<P>* nr, tcursor<P>* cursor,
     // link `nr` across leaves
     btree_leaflink<leaf<P>, P::concurrent>::link_split(this, nr);
 
+    // a concurrent removal of our next leaf might have raised our phantom
+    // epoch, not noticing that `nr` is going to hold that leaf's keys
+    fence();
+    nr->raise_phantom_epoch(this->phantom_epoch());
+
     // return split type
     return p < mid ? 0 : 1 + (mid == width);
 }
diff --git a/masstree_struct.hh b/masstree_struct.hh
index 494dcca..cab130f 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -20,6 +20,7 @@
 #include "stringbag.hh"
 #include "mtcounters.hh"
 #include "timestamp.hh"
+#include "circular_int.hh"
 namespace Masstree {
 
 template <typename P>
@@ -324,6 +325,16 @@ class leaf : public node_base<P> {
     phantom_epoch_type phantom_epoch() const {
         return P::need_phantom_epoch ? phantom_epoch_[0] : phantom_epoch_type();
     }
+    // Raise phantom_epoch() to at least `epoch`, perhaps without holding our lock
+    void raise_phantom_epoch(phantom_epoch_type epoch) {
+        while (P::need_phantom_epoch) {
+            phantom_epoch_type cur = phantom_epoch_[0];
+            if (!circular_int<phantom_epoch_type>::less(cur, epoch)
+                || bool_cmpxchg(&phantom_epoch_[0], cur, epoch)) {
+                break;
+            }
+        }
+    }
 
     int size() const {
         return permuter_type::size(permutation_);
-- 
2.43.0


From 7433e00f051cd3acfe28b654815daf68a52eb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 11/39] fix: a string row replaced by a longer value must not
 copy past the old row

update() with a whole-value column longer than the old value used the new
length as the number of old bytes to keep, and so read past the old row.
---
 value_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value_string.hh b/value_string.hh
index dc35c40..b8b52a0 100644
--- a/value_string.hh
+++ b/value_string.hh
@@ -144,7 +144,7 @@ value_string* value_string::update(const Json* first, const Json* last,
     value_string* row = (value_string*) ti.allocate(shallow_size(vallen), memtag_value);
     row->ts_ = ts;
     row->vallen_ = vallen;
-    memcpy(row->s_, s_, cut);
+    memcpy(row->s_, s_, std::min(cut, vallen_));
     for (; first != last; first += 2) {
         Str val = first[1].as_s();
         memcpy(row->s_ + index_offset(first[0].as_u()), val.data(), val.length());
-- 
2.43.0


From bac9bf879837612828933c43a26e21b939667345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 12/39] fix: a pending layer collection must not refer to an
 internode that can be freed

The callback kept the tree's root as of its registration. That node might
split, collapse and be freed by other threads before the callback runs; the
tree's first leaf lasts as long as the tree.
---
 masstree_remove.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index af9420d..78bacb9 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -151,6 +151,10 @@ template <typename P>
 void gc_layer_rcu_callback<P>::make(node_base<P>* root, Str prefix,
                                     threadinfo& ti)
 {
+    // By the time the callback runs, `root` might have split, collapsed, and
+    // been freed. The tree's first leaf lasts as long as the tree does.
+    typename node_base<P>::nodeversion_type v;
+    root = root->reach_leaf(typename node_base<P>::key_type("", 0), v, ti);
     size_t sz = prefix.len + sizeof(gc_layer_rcu_callback<P>);
     void *data = ti.allocate(sz, memtag_masstree_gc);
     gc_layer_rcu_callback<P> *cb =
-- 
2.43.0


From 55b12482038e5a6b18ef38a251ddc0ab0e45eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 13/39] fix: a former root internode must not be freed while
 stale root pointers can lead to it

When the root splits while other writers are in flight, those can collapse and
retire the old root before anybody updates the table's root pointer (or the
slot of the layer above); readers arriving a grace period later then used
freed memory. Former roots now stay in place as ordinary internodes.
---
 masstree_remove.hh | 4 +++-
 masstree_split.hh  | 3 +++
 masstree_struct.hh | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 78bacb9..b08548b 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -247,7 +247,9 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
         n = p;
 
-        if (p->nkeys_ || p->is_root()) {
+        // A former root stays: the table, or the slot of the layer above,
+        // might still use it as a way to the current root
+        if (p->nkeys_ || p->is_root() || p->was_root_) {
             break;
         }
 
diff --git a/masstree_split.hh b/masstree_split.hh
index 3c842f4..6176565 100644
--- a/masstree_split.hh
+++ b/masstree_split.hh
@@ -227,6 +227,9 @@ bool tcursor<P>::make_split(threadinfo& ti)
             nn->nkeys_ = 1;
             if (kp < 0) {
                 nn->make_layer_root();
+                if (!n->isleaf()) {
+                    static_cast<internode_type*>(n)->was_root_ = true;
+                }
             } else {
                 nn->set_parent(p);
                 p->child_[kp] = nn;
diff --git a/masstree_struct.hh b/masstree_struct.hh
index cab130f..73c60be 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -108,6 +108,7 @@ class internode : public node_base<P> {
     typedef typename P::threadinfo_type threadinfo;
 
     uint8_t nkeys_;
+    bool was_root_;     // a stale root pointer might refer to this node
     uint32_t height_;
     ikey_type ikey0_[width];
     node_base<P>* child_[width + 1];
@@ -115,7 +116,8 @@ class internode : public node_base<P> {
     kvtimestamp_t created_at_[P::debug_level > 0];
 
     internode(uint32_t height)
-        : node_base<P>(false), nkeys_(0), height_(height), parent_() {
+        : node_base<P>(false), nkeys_(0), was_root_(false), height_(height),
+          parent_() {
     }
 
     static internode<P>* make(uint32_t height, threadinfo& ti) {
-- 
2.43.0


From 72abf27a0b797e8519b0b57dea6e426e6cde001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:48 +0000
Subject: [PATCH 14/39] fix: kvflush retries interrupted writes and never sends
 bytes twice

A write interrupted by a signal was reported as an error, and after an
error in the middle of the buffer the part already written stayed in it
and went out again with the next flush.
---
 kvio.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kvio.cc b/kvio.cc
index 9208df2..d0a2bb0 100644
--- a/kvio.cc
+++ b/kvio.cc
@@ -81,7 +81,12 @@ void kvflush(kvout* kv) {
                 usleep(1);
                 continue;
             }
+            if (cc < 0 && errno == EINTR)
+                continue;
             perror("kvflush write");
+            // what was written must not be written again
+            memmove(kv->buf, kv->buf + sent, kv->n - sent);
+            kv->n -= sent;
             return;
         }
         sent += cc;
-- 
2.43.0


From 505ed24daf43b77e7971087a5bffc784b131cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:18 +0000
Subject: [PATCH 15/39] fix: a get of a missing key replies without values

---
 kvrow.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index e30a9fc..8aefe8f 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -128,12 +128,12 @@ void query<R>::run_get(T& table, Json& req, threadinfo& ti) {
     bool found = lp.find_unlocked(ti);
     if (found && row_is_marker(lp.value()))
         found = false;
+    f_.clear();
+    for (int i = 3; i != req.size(); ++i) {
+        f_.push_back(req[i].as_i());
+    }
+    req.resize(2);
     if (found) {
-        f_.clear();
-        for (int i = 3; i != req.size(); ++i) {
-            f_.push_back(req[i].as_i());
-        }
-        req.resize(2);
         emit_fields(lp.value(), req, ti);
     }
 }
-- 
2.43.0


From 7256144d52642ebbc4afeb021570602f70dff21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:23 +0000
Subject: [PATCH 16/39] fix: the server waits for the whole handshake before
 judging it

---
 mtd.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 0118285..413abef 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -831,9 +831,17 @@ main(int argc, char *argv[])
     always_assert(s1 >= 0);
     setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
 
-    // Complete handshake.
+    // Complete handshake. It may arrive in several pieces.
     char buf[BUFSIZ];
-    ssize_t nr = read(s1, buf, BUFSIZ);
+    ssize_t nr;
+    size_t consumed;
+    msgpack::streaming_parser sp;
+    do {
+        nr = read(s1, buf, BUFSIZ);
+        consumed = 0;
+        while (nr > 0 && consumed != (size_t) nr && !sp.done())
+            consumed += sp.consume(buf + consumed, nr - consumed);
+    } while (nr > 0 && !sp.done());
     if (nr == -1) {
         perror("read");
     kill_connection:
@@ -841,10 +849,10 @@ main(int argc, char *argv[])
         continue;
     }
 
-    msgpack::streaming_parser sp;
-    if (nr == 0 || sp.consume(buf, nr) != (size_t) nr
+    if (nr == 0 || consumed != (size_t) nr || !sp.success()
         || !sp.result().is_a() || sp.result().size() < 2
-        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake) {
+        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake
+        || (sp.result().size() > 2 && !sp.result()[2].is_o())) {
         fprintf(stderr, "failed handshake\n");
         goto kill_connection;
     }
-- 
2.43.0


From bb012358f1e6bcb3860b6407e12efeb1203f436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 17/39] fix: a logged request keeps its key until it is in the
 log

---
 mtd.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 413abef..8c295ae 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -979,8 +979,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         Str key(request[2].as_s());
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
-        request[2] = q.run_put(tree->table(), request[2].as_s(),
-                               req, end_req, ti);
+        result_t result = q.run_put(tree->table(), key, req, end_req, ti);
         if (ti.logger() && request_str) {
             // use the client's parsed version of the request
             msgpack::parser mp(request_str.data());
@@ -988,12 +987,14 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, Str(mp.position(), request_str.end()));
         } else if (ti.logger())
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
+        request[2] = result; // only now, `key` points into `request[2]`
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
         Str key(request[2].as_s()), value(request[3].as_s());
-        request[2] = q.run_replace(tree->table(), key, value, ti);
+        result_t result = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
+        request[2] = result;
         request.resize(3);
     } else if (command == Cmd_Remove) { // remove
         Str key(request[2].as_s());
-- 
2.43.0


From c4f32c42d080e062638a0c5dc7f701f62f2abcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:56 +0000
Subject: [PATCH 18/39] fix: the log thread owns its file name

---
 log.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/log.cc b/log.cc
index 34fa2cb..d5b6d9c 100644
--- a/log.cc
+++ b/log.cc
@@ -220,9 +220,14 @@ void* loginfo::trampoline(void* x) {
 void loginfo::initialize(const String& logfile) {
     assert(!ti_);
 
+    // The log thread uses the name too, and string reference counts aren't
+    // thread safe, so don't share `logfile`'s memory.
     f_.filename_.deref();
-    f_.filename_ = logfile.internal_rep();
-    f_.filename_.ref();
+    {
+        String name(logfile.data(), logfile.length());
+        f_.filename_ = name.internal_rep();
+        f_.filename_.ref();
+    }
 
     ti_ = threadinfo::make(threadinfo::TI_LOG, logindex_);
     int r = pthread_create(&ti_->pthread(), 0, trampoline, this);
-- 
2.43.0


From 885f647589bffd2e36ee88af315015ebae32b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 19/39] fix: a reply is encoded before its rows may be
 reclaimed

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 8c295ae..d1cb6b9 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1165,8 +1165,8 @@ void* tcp_threadfunc(void* x) {
                     goto closed;
                 ti->rcu_start();
                 ret = onego(q, request, c->recent_string(xposition), *ti);
-                ti->rcu_stop();
                 msgpack::unparse(*c->kvout, request);
+                ti->rcu_stop(); // only now, the reply points into rows
                 request.clear();
                 if (likely(ret >= 0)) {
                     if (c->check(0))
-- 
2.43.0


From 7d7bb57d953f8d37755f8123a4df2ed03b57ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:37 +0000
Subject: [PATCH 20/39] fix: a client that goes away does not end the server

---
 mtd.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index d1cb6b9..c716f4a 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -704,6 +704,9 @@ main(int argc, char *argv[])
   // for -pg profiling
   signal(SIGINT, catchint);
 
+  // a client that goes away must not end the server
+  signal(SIGPIPE, SIG_IGN);
+
   // log epoch starts at 1
   global_log_epoch = 1;
   global_wake_epoch = 0;
-- 
2.43.0


From 4fe115162763fface472ef4dc6e7073048444584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:37 +0000
Subject: [PATCH 21/39] fix: a datagram is executed from its own bytes, and a
 failed reply is not fatal

---
 mtd.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index c716f4a..58767d2 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1225,7 +1225,9 @@ void* udp_threadfunc(void* x) {
     kvout_reset(kvout);
 
     parser.reset();
-    unsigned consumed = parser.consume(buf.data(), buf.length(), buf);
+    ssize_t consumed = 0;
+    while (consumed < cc && !parser.done())
+        consumed += parser.consume(buf.data() + consumed, cc - consumed, buf);
 
     // Fail if we received a partial request
     if (parser.success() && parser.result().is_a()) {
@@ -1236,7 +1238,8 @@ void* udp_threadfunc(void* x) {
             cu << parser.result();
             cc = sendto(s, sa.data(), sa.length(), 0,
                         (struct sockaddr*) &sin, sinlen);
-            always_assert(cc == (ssize_t) sa.length());
+            if (cc != (ssize_t) sa.length())
+                perror("udpgo sendto");
         }
         ti->rcu_stop();
     } else
-- 
2.43.0


From e3c493744773f422f634a0b28d9befca42561f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 22/39] fix: msgpack skips 64-bit numbers, so such requests are
 logged intact

---
 msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msgpack.hh b/msgpack.hh
index 8b84e34..c04e911 100644
--- a/msgpack.hh
+++ b/msgpack.hh
@@ -475,6 +475,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From d9836f620f36f10b2f49c9d23db97c9e6e015a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 23/39] fix: replaying a logged remove stores a remove marker

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index d5b6d9c..59e2bfa 100644
--- a/log.cc
+++ b/log.cc
@@ -563,7 +563,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From d6d8b720c64974f68b6ffa664fbee71c669f55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 24/39] fix: removing a key that recovery marked as removed
 reports that it was absent

---
 kvrow.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kvrow.hh b/kvrow.hh
index 8aefe8f..f0c608a 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -246,12 +246,14 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
+    if (found && row_is_marker(lp.value()))
+        found = false;
     R* old_value = nullptr;
     if (found) {
         old_value = lp.value();
         apply_remove(lp.value(), lp.node(), ti);
     }
-    lp.finish(-1, ti);
+    lp.finish(found ? -1 : 0, ti);
     if (old_value) // only now unreachable
         old_value->deallocate_rcu(ti);
     return found;
-- 
2.43.0


From f39484d564fd159370a724164d8ecd8899fe3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:57 +0000
Subject: [PATCH 25/39] fix: log replay does not skip the empty key

---
 log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index 59e2bfa..7572819 100644
--- a/log.cc
+++ b/log.cc
@@ -739,12 +739,11 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) {
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From 42f7148798119a16ee7f8633c801db3893e57a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 26/39] fix: checkpoint parts neither overlap nor leave gaps

---
 checkpoint.cc | 2 +-
 checkpoint.hh | 1 +
 mtd.cc        | 5 ++++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/checkpoint.cc b/checkpoint.cc
index 0b43a88..12d8c83 100644
--- a/checkpoint.cc
+++ b/checkpoint.cc
@@ -18,7 +18,7 @@
 // add one key/value to a checkpoint.
 // called by checkpoint_tree() for each node.
 bool ckstate::visit_value(Str key, const row_type* value, threadinfo&) {
-    if (endkey && key >= endkey)
+    if (bounded && key >= endkey)
         return false;
     if (!row_is_marker(value)) {
         msgpack::unparser<kvout> up(*vals);
diff --git a/checkpoint.hh b/checkpoint.hh
index 7783a96..91fe64f 100644
--- a/checkpoint.hh
+++ b/checkpoint.hh
@@ -28,6 +28,7 @@ struct ckstate {
     threadinfo *ti;
     Str startkey;
     Str endkey;
+    bool bounded; // if false, the part extends past every key
 
     template <typename SS, typename K>
     void visit_leaf(const SS&, const K&, threadinfo&) {
diff --git a/mtd.cc b/mtd.cc
index 58767d2..af74f0f 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1668,13 +1668,16 @@ void* conc_checkpointer(void* x) {
         pv[i].assign(NULL, 0);
       tree->findpivots(pv, nckthreads + 1);
       ti->rcu_stop();
+      // pivots are sampled one after another, so order them
+      std::sort(pv + 1, pv + nckthreads);
 
       kvepoch_t min_epoch = global_log_epoch;
       pthread_mutex_lock(&checkpoint_mu);
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
           cks[i].startkey = pv[i];
-          cks[i].endkey = (i == nckthreads - 1 ? Str() : pv[i + 1]);
+          cks[i].endkey = pv[i + 1];
+          cks[i].bounded = i != nckthreads - 1;
           cks[i].state = CKState_Go;
           pthread_cond_signal(&cks[i].state_cond);
       }
-- 
2.43.0


From 10a79b6bf417fc4f06d6a583b110474fc45450b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 27/39] fix: recover from a checkpoint taken in a log's first
 epoch

---
 log.cc | 3 +--
 mtd.cc | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/log.cc b/log.cc
index 7572819..40488d9 100644
--- a/log.cc
+++ b/log.cc
@@ -719,8 +719,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
             break;
         }
         if (lr.command == logcmd_epoch) {
-            if ((min_epoch && lr.epoch < min_epoch)
-                || (!min_epoch && !repbegin))
+            if (!repbegin || (min_epoch && lr.epoch < min_epoch))
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
diff --git a/mtd.cc b/mtd.cc
index af74f0f..c0d62f8 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1470,12 +1470,13 @@ recover(threadinfo *)
   }
 
   // Calculate lower bound of epochs to replay.
+  // (A log's first epoch may be at or beyond rec_ckp_min_epoch: a log that
+  // started during or after the checkpoint holds everything from its start,
+  // and truncation keeps everything a checkpoint needs.)
   rec_replay_min_epoch = rec_ckp_min_epoch;
-  // XXX what about max_first_epoch?
 
   // Checks.
   if (rec_ckp_min_epoch) {
-      always_assert(rec_ckp_min_epoch > max_first_epoch);
       always_assert(rec_ckp_min_epoch < rec_replay_max_epoch);
       always_assert(rec_ckp_max_epoch < rec_replay_max_epoch);
       fprintf(stderr, "replay [%" PRIu64 ",%" PRIu64 ") from [%" PRIu64 ",%" PRIu64 ") into ckp [%" PRIu64 ",%" PRIu64 "]\n",
-- 
2.43.0


From 9e4667c9264dfc8f350c4c0a052b64db9c4dab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:06 +0000
Subject: [PATCH 28/39] fix: recovery starts a new epoch in every log before
 requests are accepted

---
 log.cc | 31 ++++++++++++++++++++++++-------
 log.hh |  1 +
 mtd.cc |  7 +++++--
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/log.cc b/log.cc
index 40488d9..8d795da 100644
--- a/log.cc
+++ b/log.cc
@@ -394,7 +394,7 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
 // replay
 
 logreplay::logreplay(const String &filename)
-    : filename_(filename), errno_(0), buf_()
+    : filename_(filename), errno_(0), size_(0), buf_()
 {
     int fd = open(filename_.c_str(), O_RDONLY);
     if (fd == -1) {
@@ -845,17 +845,33 @@ logreplay::replay_copy(const char *tmpname, const char *first, const char *last)
     return fd;
 }
 
+// Append an empty entry for `epoch`, the first epoch new requests can have.
+// Until this log records more, the next recovery must assume that requests
+// from that epoch on are missing.
+void
+logreplay::start_epoch(kvepoch_t epoch)
+{
+    int fd = open(filename_.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0666);
+    always_assert(fd >= 0);
+    char buf[64];
+    size_t n = logrec_epoch::store(buf, logcmd_epoch, epoch);
+    ssize_t w = safe_write(fd, buf, n);
+    always_assert(w >= 0 && size_t(w) == n);
+    int r = fsync(fd);
+    always_assert(r == 0);
+    r = close(fd);
+    always_assert(r == 0);
+}
+
 void
 logreplay::replay(int which, threadinfo *ti)
 {
     waituntilphase(REC_LOG_TS);
     // find the maximum timestamp of entries in the log
-    if (buf_) {
-        info_type x = info();
-        pthread_mutex_lock(&rec_mu);
-        rec_log_infos[which] = x;
-        pthread_mutex_unlock(&rec_mu);
-    }
+    info_type x = info();
+    pthread_mutex_lock(&rec_mu);
+    rec_log_infos[which] = x;
+    pthread_mutex_unlock(&rec_mu);
     inactive();
 
     waituntilphase(REC_LOG_ANALYZE_WAKE);
@@ -874,5 +890,6 @@ logreplay::replay(int which, threadinfo *ti)
         ti->rcu_stop();
         printf("recovered %" PRIu64 " records from %s\n", nr, filename_.c_str());
     }
+    start_epoch(global_log_epoch);
     inactive();
 }
diff --git a/log.hh b/log.hh
index 0a7212c..be5a168 100644
--- a/log.hh
+++ b/log.hh
@@ -155,6 +155,7 @@ class logreplay {
 
     uint64_t replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
                              threadinfo *ti);
+    void start_epoch(kvepoch_t epoch);
     int replay_truncate(size_t len);
     int replay_copy(const char *tmpname, const char *first, const char *last);
 };
diff --git a/mtd.cc b/mtd.cc
index c0d62f8..5201b86 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1440,6 +1440,7 @@ recover(threadinfo *)
   for (logreplay::info_type *it = rec_log_infos;
        it != rec_log_infos + nlogger; ++it)
       if (it->quiescent
+          && it->last_epoch
           && (!min_quiescent_last_epoch || min_quiescent_last_epoch > it->last_epoch))
           min_quiescent_last_epoch = it->last_epoch;
 
@@ -1485,6 +1486,10 @@ recover(threadinfo *)
               rec_ckp_min_epoch.value(), rec_ckp_max_epoch.value());
   }
 
+  // New requests start in an epoch beyond everything in the logs, including
+  // epochs that will not be replayed.
+  global_log_epoch = max_epoch.next_nonzero();
+
   // Actually replay.
   delete[] rec_log_infos;
   rec_log_infos = 0;
@@ -1505,8 +1510,6 @@ recover(threadinfo *)
   always_assert(deltas_created == deltas_removed);
 #endif
 
-  global_log_epoch = rec_replay_max_epoch.next_nonzero();
-
   always_assert(pthread_mutex_unlock(&rec_mu) == 0);
   recovering = false;
   if (recovery_only)
-- 
2.43.0


From 563ca675ec489c4ff86931a60c4504fe640405b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:06 +0000
Subject: [PATCH 29/39] fix: a log record does not overtake records waiting for
 buffer space

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 8d795da..f3e6f1d 100644
--- a/log.cc
+++ b/log.cc
@@ -313,7 +313,7 @@ void loginfo::record(int command, const query_times& qtimes,
     int stalls = 0;
     while (1) {
         if (len_ - pos_ >= n
-            && (wait.next == &wait || f_.waiting_ == &wait)) {
+            && f_.waiting_ == (wait.next == &wait ? nullptr : &wait)) {
             kvepoch_t we = global_wake_epoch;
 
             // Potentially record a new epoch.
-- 
2.43.0


From 20509ac45181462d5e184da6db32245342b038d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 30/39] fix: a checkpoint is published only when recovery will
 reach past it

---
 log.cc |  4 +++-
 log.hh | 20 ++++++++++++--------
 mtd.cc | 20 ++++++++------------
 3 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/log.cc b/log.cc
index f3e6f1d..dc077fc 100644
--- a/log.cc
+++ b/log.cc
@@ -327,7 +327,9 @@ void loginfo::record(int command, const query_times& qtimes,
                 // quiescent for a while. If the quiescence marker has been
                 // flushed, then all epochs less than the query epoch are
                 // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
+                // (Unless another log's wake command was missed: that one
+                // must be recorded first.)
+                if (flushed_epoch_ == quiescent_epoch_ && wake_epoch_ == we)
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
                 while (we < qtimes.epoch)
diff --git a/log.hh b/log.hh
index be5a168..db4f097 100644
--- a/log.hh
+++ b/log.hh
@@ -33,8 +33,7 @@ class loginfo {
     inline void acquire();
     inline void release();
 
-    inline kvepoch_t flushed_epoch() const;
-    inline bool quiescent() const;
+    inline bool flushed_past(kvepoch_t epoch);
 
     // logging
     struct query_times {
@@ -182,12 +181,17 @@ inline void loginfo::release() {
     test_and_set_release(&f_.lock_);
 }
 
-inline kvepoch_t loginfo::flushed_epoch() const {
-    return flushed_epoch_;
-}
-
-inline bool loginfo::quiescent() const {
-    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_;
+// Return true iff recovery will find that this log holds everything up to
+// and including `epoch`. A quiescent log qualifies if it has recorded the last
+// wake command (otherwise recovery stops there) and no request is in flight.
+inline bool loginfo::flushed_past(kvepoch_t epoch) {
+    acquire();
+    bool r = flushed_epoch_ > epoch
+        || (quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_
+            && wake_epoch_ == global_wake_epoch && !f_.waiting_
+            && global_log_epoch > epoch);
+    release();
+    return r;
 }
 
 inline int logset::size() const {
diff --git a/mtd.cc b/mtd.cc
index 5201b86..2f654fb 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1607,17 +1607,14 @@ commit_checkpoint(Json ckpj)
     }
 }
 
-static kvepoch_t
-max_flushed_epoch()
+static bool
+logs_flushed_past(kvepoch_t epoch)
 {
-    kvepoch_t mfe = 0, ge = global_log_epoch;
-    for (int i = 0; i < nlogger; ++i) {
-        loginfo& log = logs->log(i);
-        kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
-        if (!mfe || fe < mfe)
-            mfe = fe;
-    }
-    return mfe;
+    kvepoch_t we = global_wake_epoch;
+    for (int i = 0; i < nlogger; ++i)
+        if (!logs->log(i).flushed_past(epoch))
+            return false;
+    return global_wake_epoch == we;
 }
 
 // concurrent periodic checkpoint
@@ -1658,8 +1655,7 @@ void* conc_checkpointer(void* x) {
       pthread_mutex_unlock(&checkpoint_mu);
 
       if (uncommitted_ckp) {
-          kvepoch_t mfe = max_flushed_epoch();
-          if (!mfe || mfe > uncommitted_ckp["max_epoch"].to_u64()) {
+          if (logs_flushed_past(uncommitted_ckp["max_epoch"].to_u64())) {
               commit_checkpoint(uncommitted_ckp);
               uncommitted_ckp = Json();
           }
-- 
2.43.0


From 09ab321f8d599835ec706c7ae4d8ba764122081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 31/39] fix: log epochs advance although the clock is set back

---
 log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/log.cc b/log.cc
index dc077fc..903e18e 100644
--- a/log.cc
+++ b/log.cc
@@ -236,9 +236,11 @@ void loginfo::initialize(const String& logfile) {
 
 // one logger thread per logs[].
 static void check_epoch() {
-    struct timeval tv;
+    struct timeval tv, last_time;
     gettimeofday(&tv, 0);
-    if (timercmp(&tv, &log_epoch_time, >)) {
+    timersub(&log_epoch_time, &log_epoch_interval, &last_time);
+    if (timercmp(&tv, &log_epoch_time, >)
+        || timercmp(&tv, &last_time, <)) { // clock was set back
         log_epoch_time = tv;
         timeradd(&log_epoch_time, &log_epoch_interval, &log_epoch_time);
         global_log_epoch = global_log_epoch.next_nonzero(); // 0 isn't valid
-- 
2.43.0


From 12630c74ddd29f1aad1ed398cd2c96d6c2c4eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:01 +0000
Subject: [PATCH 32/39] fix: recovery does not take an unreadable log or
 checkpoint for an absent one

---
 log.cc |  4 ++++
 mtd.cc | 13 +++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index 903e18e..3b0c5f5 100644
--- a/log.cc
+++ b/log.cc
@@ -871,6 +871,10 @@ void
 logreplay::replay(int which, threadinfo *ti)
 {
     waituntilphase(REC_LOG_TS);
+    if (errno_ && errno_ != ENOENT) { // not the same as an empty log
+        fprintf(stderr, "replay %s: %s\n", filename_.c_str(), strerror(errno_));
+        abort();
+    }
     // find the maximum timestamp of entries in the log
     info_type x = info();
     pthread_mutex_lock(&rec_mu);
diff --git a/mtd.cc b/mtd.cc
index 2f654fb..f32fc2e 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1383,13 +1383,14 @@ recover(threadinfo *)
   if (fd >= 0) {
       Json ckpj = Json::parse(read_file_contents(fd));
       close(fd);
-      if (ckpj && ckpj["kvdb_checkpoint"] && ckpj["generation"].is_number()) {
-          ckp_gen = ckpj["generation"].to_u64();
-          rec_ckp_min_epoch = ckpj["min_epoch"].to_u64();
-          rec_ckp_max_epoch = ckpj["max_epoch"].to_u64();
-          printf("recover from checkpoint %" PRIu64 " [%" PRIu64 ", %" PRIu64 "]\n", ckp_gen.value(), rec_ckp_min_epoch.value(), rec_ckp_max_epoch.value());
-      }
+      // a committed checkpoint that cannot be read must not be ignored
+      always_assert(ckpj && ckpj["kvdb_checkpoint"] && ckpj["generation"].is_number());
+      ckp_gen = ckpj["generation"].to_u64();
+      rec_ckp_min_epoch = ckpj["min_epoch"].to_u64();
+      rec_ckp_max_epoch = ckpj["max_epoch"].to_u64();
+      printf("recover from checkpoint %" PRIu64 " [%" PRIu64 ", %" PRIu64 "]\n", ckp_gen.value(), rec_ckp_min_epoch.value(), rec_ckp_max_epoch.value());
   } else {
+    always_assert(errno == ENOENT);
     printf("no %s\n", path);
   }
   always_assert(pthread_mutex_lock(&rec_mu) == 0);
-- 
2.43.0


From b0bcacdab0d2c1360e574a5045e96405718f4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:41 +0000
Subject: [PATCH 33/39] fix: a checkpoint of binary keys can be read back

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index f32fc2e..2f11ff7 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1579,7 +1579,7 @@ prepare_checkpoint(kvepoch_t min_epoch, int nckthreads, const Str *pv)
 
     Json pvj;
     for (int i = 1; i < nckthreads; ++i)
-        pvj.push_back(Json::make_string(pv[i].s, pv[i].len));
+        pvj.push_back(String(pv[i].s, pv[i].len).to_hex()); // keys are binary
     j.set("pivots", pvj);
 
     return j;
-- 
2.43.0


From 14b76c645679ab21551aa5384ac777a923f255d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:05 +0000
Subject: [PATCH 34/39] fix: log data whose write was cut short or whose sync
 failed is not taken as durable

---
 log.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/log.cc b/log.cc
index 3b0c5f5..b3cc92b 100644
--- a/log.cc
+++ b/log.cc
@@ -286,9 +286,10 @@ void* loginfo::run() {
             pos_ = 0;
             kvepoch_t x_epoch = log_epoch_;
             release();
-            ssize_t r = write(fd, x_buf, x_pos);
+            ssize_t r = safe_write(fd, x_buf, x_pos);
             always_assert(r == ssize_t(x_pos));
-            fsync(fd);
+            int fr = fsync(fd);
+            always_assert(fr == 0);
             flushed_epoch_ = x_epoch;
             // printf("log %d %d\n", ti_->index(), x_pos);
             nb = x_pos;
-- 
2.43.0


From c0680280277837f927b7e77d510eb38b6c0b3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:04 +0000
Subject: [PATCH 35/39] fix: a request logged from its parsed form is readable
 by replay

---
 log.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/log.cc b/log.cc
index b3cc92b..de59ecc 100644
--- a/log.cc
+++ b/log.cc
@@ -389,7 +389,6 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From 30aa6026d55bbbe800172d17462bbc50f202ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 36/39] fix: a connection that is gone before accept does not
 end the server

---
 mtd.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index 2f11ff7..56e83f4 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -831,6 +831,10 @@ main(int argc, char *argv[])
 
     bzero(&sin1, sizeof(sin1));
     s1 = accept(s, (struct sockaddr *) &sin1, &sinlen);
+    if (s1 < 0 && (errno == ECONNABORTED || errno == EINTR || errno == EPROTO)) {
+        perror("accept"); // the client is already gone
+        continue;
+    }
     always_assert(s1 >= 0);
     setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
 
-- 
2.43.0


From 3fa6820fa320d93ad6301772d48f373a0b853c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 37/39] fix: wake commands are recorded by logs that are not
 quiescent, in their epoch

---
 log.cc | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/log.cc b/log.cc
index de59ecc..de53f94 100644
--- a/log.cc
+++ b/log.cc
@@ -263,16 +263,17 @@ void* loginfo::run() {
         uint32_t nb = 0;
         acquire();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
-            quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
-        // notification.
-        if (!recovering && pos_ == 0 && !quiescent_epoch_
+        // notification. A quiescent log that has missed a wake command needs
+        // another notification. (Until that's written, the log still counts
+        // as having missed the wake command, so that its next record
+        // includes it.)
+        if (!recovering && pos_ == 0
+            && (!quiescent_epoch_ || wake_epoch_ != we)
             && ge != log_epoch_ && ge != we && !f_.waiting_) {
             quiescent_epoch_ = log_epoch_ = ge;
+            wake_epoch_ = we;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
             if (log_epoch_ == wake_epoch_)
@@ -311,7 +312,7 @@ void loginfo::record(int command, const query_times& qtimes,
                      Str key, Str value) {
     assert(!recovering);
     size_t n = logrec_kvdelta::size(key.len, value.len)
-        + logrec_epoch::size() + logrec_base::size();
+        + 2 * logrec_epoch::size() + logrec_base::size();
     waitlist wait = { &wait };
     int stalls = 0;
     while (1) {
@@ -319,12 +320,6 @@ void loginfo::record(int command, const query_times& qtimes,
             && f_.waiting_ == (wait.next == &wait ? nullptr : &wait)) {
             kvepoch_t we = global_wake_epoch;
 
-            // Potentially record a new epoch.
-            if (qtimes.epoch != log_epoch_) {
-                log_epoch_ = qtimes.epoch;
-                pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, qtimes.epoch);
-            }
-
             if (quiescent_epoch_) {
                 // We're recording a new log record on a log that's been
                 // quiescent for a while. If the quiescence marker has been
@@ -335,8 +330,13 @@ void loginfo::record(int command, const query_times& qtimes,
                 if (flushed_epoch_ == quiescent_epoch_ && wake_epoch_ == we)
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
-                while (we < qtimes.epoch)
-                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
+                // (The query may have started in an earlier epoch.)
+                kvepoch_t ge;
+                do {
+                    ge = global_log_epoch;
+                    while (we < ge)
+                        we = cmpxchg(&global_wake_epoch, we, ge);
+                } while (ge != global_log_epoch);
             }
 
             // Log epochs should be recorded in monotonically increasing
@@ -346,11 +346,25 @@ void loginfo::record(int command, const query_times& qtimes,
             // record.
             if (we != wake_epoch_ && qtimes.epoch < we)
                 we = qtimes.epoch;
+            // The wake command is recorded in its own epoch, not in a later
+            // one: otherwise a log that quiesced since would appear to have
+            // missed it.
             if (we != wake_epoch_) {
                 wake_epoch_ = we;
+                if (log_epoch_ != we
+                    && (log_epoch_ < we || we == qtimes.epoch)) {
+                    log_epoch_ = we;
+                    pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, we);
+                }
                 pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
             }
 
+            // Potentially record a new epoch.
+            if (qtimes.epoch != log_epoch_) {
+                log_epoch_ = qtimes.epoch;
+                pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, qtimes.epoch);
+            }
+
             if (command == logcmd_put && qtimes.prev_ts
                 && !(qtimes.prev_ts & 1))
                 pos_ += logrec_kvdelta::store(buf_ + pos_,
-- 
2.43.0


From 130d62d246af6464447acd52fa77f09908e4a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:45 +0000
Subject: [PATCH 38/39] fix: a checkpoint waits for requests of the epochs it
 replaces

---
 mtd.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index 56e83f4..9103b21 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1677,6 +1677,11 @@ void* conc_checkpointer(void* x) {
       std::sort(pv + 1, pv + nckthreads);
 
       kvepoch_t min_epoch = global_log_epoch;
+      // requests from earlier epochs must be visible to the scan
+      for (int i = 0; i < nlogger; i++) {
+          logs->log(i).acquire();
+          logs->log(i).release();
+      }
       pthread_mutex_lock(&checkpoint_mu);
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
-- 
2.43.0


From c266763cebb27caec2aa4781ec4de14cb7397c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:25 +0000
Subject: [PATCH 39/39] fix: refuse malformed requests instead of aborting or
 logging them

---
 mtd.cc | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 9103b21..6a8db45 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -29,6 +29,7 @@
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <limits.h>
+#include <limits>
 #if HAVE_SYS_EPOLL_H
 #include <sys/epoll.h>
 #endif
@@ -970,9 +971,48 @@ int handshake(Json& request, threadinfo& ti) {
     return request[2].as_b() ? 1 : -1;
 }
 
+// Return true iff `request`, which comes from a client, has the elements its
+// command needs. Longer keys than MASSTREE_MAXKEYLEN and columns out of order
+// could be stored, but not replayed from the log.
+static bool valid_request(const Json& request) {
+    if (request.size() < 2 || !request[1].is_i())
+        return false;
+    int64_t command = request[1].as_i();
+    if (command < Cmd_Get || command > Cmd_Remove)
+        return true;
+    if (request.size() < 3 || !request[2].is_s())
+        return false;
+    if (command != Cmd_Get && command != Cmd_Remove
+        && request[2].as_s().length() > MASSTREE_MAXKEYLEN)
+        return false;
+    int pos = 3;
+    if (command == Cmd_Put) {
+        int64_t column = -1;
+        for (; pos + 1 < request.size(); pos += 2) {
+            if (!request[pos].is_i() || request[pos].as_i() <= column
+                || request[pos].as_i() > std::numeric_limits<row_type::index_type>::max()
+                || !request[pos + 1].is_s())
+                return false;
+            column = request[pos].as_i();
+        }
+        return true;
+    } else if (command == Cmd_Replace)
+        return request.size() > 3 && request[3].is_s();
+    else if (command == Cmd_Scan) {
+        if (request.size() < 4 || !request[3].is_i() || request[3].as_i() <= 0)
+            return false;
+        ++pos;
+    }
+    if (command == Cmd_Get || command == Cmd_Scan)
+        for (; pos < request.size(); ++pos)
+            if (!request[pos].is_i())
+                return false;
+    return true;
+}
+
 // execute command, return result.
 int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
-    int command = request[1].as_i();
+    int command = valid_request(request) ? request[1].as_i() : -1;
     if (command == Cmd_Checkpoint) {
         // force checkpoint
         pthread_mutex_lock(&checkpoint_mu);
-- 
2.43.0

