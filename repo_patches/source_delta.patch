From 4b78e68e6334782921f71877c25fe5b078aebab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 01/53] fix: allocate one qubit permutation per variable, fixed
 variables included

pathfinder_base sized qubit_permutations by the number of reserved qubits but
indexes it by variable; fixed chains which share qubits (or are empty) read
past its end.
---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 84c6bf2..b5c1e9e 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -125,7 +125,7 @@ class pathfinder_base : public pathfinder_public_interface {
               qubit_permutations() {
         vector<int> permutation(num_qubits);
         for (int q = num_qubits; q--;) permutation[q] = q;
-        for (int v = num_vars + num_reserved; v--;) {
+        for (int v = num_vars + num_fixed; v--;) {
             ep.shuffle(permutation.begin(), permutation.end());
             qubit_permutations.push_back(permutation);
         }
-- 
2.43.0


From 382731c7309f3fbe3b4100ed7f29393642a32b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 02/53] fix: do not start Steiner paths at qubits masked out by
 restrict_chains

prepare_visited marks qubits outside of the domains with -1, which
construct_chain_steiner took for visited: it then followed parents left over
from an earlier search, which can cycle (find_embedding never returned).
---
 include/find_embedding/embedding.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 685e6c1..17308f7 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -201,10 +201,10 @@ class embedding {
         for (auto &v : ep.var_neighbors(u)) {
             if (chainsize(v)) {
                 int qv = q;
-                distance_t dqv = visited_list[v][q] ? distances[v][q] : max_distance;
+                distance_t dqv = (visited_list[v][q] == 1) ? distances[v][q] : max_distance;
                 for (auto &p : var_embedding[u]) {
                     if (var_embedding[u].refcount(p) > 1) {
-                        distance_t dp = visited_list[v][p] ? distances[v][p] : max_distance;
+                        distance_t dp = (visited_list[v][p] == 1) ? distances[v][p] : max_distance;
                         if (dp < dqv) {
                             dqv = dp;
                             qv = p;
-- 
2.43.0


From cdb9838a37a8e33ced0722aba0ab6c4a4695ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 03/53] fix: root the chains of the improvement phase inside
 restrict_chains

find_chain masks the candidate roots with the domain of the variable, but
find_short_chain accepted any qubit reached from all of the neighbors, and could
move a chain entirely out of its domain.
---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index b5c1e9e..1878c9f 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -408,7 +408,7 @@ class pathfinder_base : public pathfinder_public_interface {
                     pq.pop();
                     if (!emb.weight(q)) counts[q]++;
 
-                    if (counts[q] == degree) {
+                    if (counts[q] == degree && ep.accepts_qubit(u, q)) {
                         emb.construct_chain_steiner(u, q, parents, distances, visited_list);
                         unsigned int cs = emb.chainsize(u);
                         if (cs < best_size) {
-- 
2.43.0


From 575810ea9bc7ba23c8d11a052dfee0c0d18f854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 04/53] fix: count a repeated qubit of an initial chain once

chain::operator= stores each qubit once but raised qubit_weight for every
repetition, so that the qubit counted as overfull for as long as the chain lived.
---
 include/find_embedding/chain.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/find_embedding/chain.hpp b/include/find_embedding/chain.hpp
index e8e44d3..669a3f6 100644
--- a/include/find_embedding/chain.hpp
+++ b/include/find_embedding/chain.hpp
@@ -91,9 +91,8 @@ class chain {
     chain &operator=(const vector<int> &c) {
         clear();
         for (auto &q : c) {
-            data.emplace(q, pair<int, int>(q, 1));
             minorminer_assert(0 <= q && q < static_cast<int>(qubit_weight.size()));
-            qubit_weight[q]++;
+            if (data.emplace(q, pair<int, int>(q, 1)).second) qubit_weight[q]++;
         }
         DIAGNOSE_CHAIN();
         return *this;
-- 
2.43.0


From 2b6c416f358f7c41550e7b8331a68731f76302c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 05/53] fix: initial chains respect fixed_chains and
 restrict_chains

Qubits of fixed chains were kept in initial chains, where statistics() doesn't
count them, so that overlapping chains were reported as a valid embedding.
Qubits outside of restrict_chains were kept as well.  An initial chain for a fixed
variable rewrote the links of its fixed chain, and crashed if it had other qubits.
---
 include/find_embedding/embedding.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 17308f7..448a686 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -86,10 +86,21 @@ class embedding {
 
         for (auto &vC : fixed_chains) fix_chain(vC.first, vC.second);
 
-        for (auto &vC : initial_chains)
-            if (!ep.fixed(vC.first)) set_chain(vC.first, vC.second);
-
+        // fixed chains don't change, and their qubits can't be used by other chains; qubits
+        // outside of a variable's domain can't be used by that variable
+        map<int, vector<int>> usable_chains;
         for (auto &vC : initial_chains) {
+            int v = vC.first;
+            if (ep.fixed(v)) continue;
+            vector<int> usable;
+            for (auto &q : vC.second)
+                if (!ep.reserved(q) && ep.accepts_qubit(v, q)) usable.push_back(q);
+            if (usable.size()) usable_chains.emplace(v, usable);
+        }
+
+        for (auto &vC : usable_chains) set_chain(vC.first, vC.second);
+
+        for (auto &vC : usable_chains) {
             int v = vC.first;
             auto &c = var_embedding[v];
             int root = vC.second[0];
-- 
2.43.0


From ee919f6702a9fb4d9a6322f7f7e8f0954ac8af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 06/53] fix: report every C++ exception as a Python exception

A base MinorMinerException (too few nodes or edges after the fixed chains are
set aside) or an exception thrown while a miner is constructed or given initial
chains terminated the interpreter.
---
 minorminer/_minorminer_h.pxi | 4 ++--
 minorminer/src/pyutil.hpp    | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ca9c138..ebdd448 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -119,11 +119,11 @@ cdef extern from "../include/find_embedding/chain.hpp" namespace "find_embedding
         pathfinder_wrapper() except +handle_exceptions
         parameter_processor pp
         unique_ptr[pathfinder_public_interface] pf
-        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &)
+        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &) except +handle_exceptions
         int heuristicEmbedding() except +handle_exceptions
         int num_vars()
         void get_chain(int, vector[int] &)
-        void set_initial_chains(chainmap &)
+        void set_initial_chains(chainmap &) except +handle_exceptions
         void quickPass(const vector[int] &, int, int, bool, bool, double) except +handle_exceptions
         void quickPass(VARORDER, int, int, bool, bool, double) except +handle_exceptions
 
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 550a84e..307ded7 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -71,6 +71,14 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const find_embedding::CorruptEmbeddingException &e) {
         PyErr_SetString(PyExc_AssertionError, e.what());
+    } catch (const find_embedding::MinorMinerException &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (const std::bad_alloc &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (...) {
+        PyErr_SetString(PyExc_RuntimeError, "unknown exception");
     }
 }
 
-- 
2.43.0


From 65a6b8ba638657d33abcfc8ac1419ef3c078d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 07/53] fix: return_overlap yields a pair for an empty source
 graph too

---
 minorminer/_minorminer.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 53aad8f..7affe05 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -287,6 +287,8 @@ def find_embedding(S, T, **params):
     try:
         _in = _input_parser(S, T, params)
     except EmptySourceGraphError:
+        if params.get("return_overlap"):
+            return {}, 1
         return {}
 
     cdef vector[int] chain
-- 
2.43.0


From ef7a46762fe45437ce974ac952bae8171bc6728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 08/53] fix: consume the line masks while inflating a cell

find_clique_embedding(n, chimera, use_cache=False) with n up to the tile size
grew the embedding until memory ran out.
---
 include/busclique/cell_cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/busclique/cell_cache.hpp b/include/busclique/cell_cache.hpp
index c629907..9390436 100644
--- a/include/busclique/cell_cache.hpp
+++ b/include/busclique/cell_cache.hpp
@@ -69,9 +69,9 @@ class cell_cache {
             vector<size_t> &chain = emb.back();
             topo.construct_line(0, vert(x), vert(y), vert(y), first_bit[k0], chain);
             topo.construct_line(1, horz(y), horz(x), horz(x), first_bit[k1], chain);
+            k0 ^= mask_bit[first_bit[k0]];
+            k1 ^= mask_bit[first_bit[k1]];
         }
-        k0 ^= mask_bit[first_bit[k0]];
-        k1 ^= mask_bit[first_bit[k1]];
     }
 
 };
-- 
2.43.0


From 36dbe65b0bb9e91ecf471e0f21eb2d6b6824b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 09/53] fix: keep the biclique with the shortest chains over
 all masks

---
 include/busclique/find_biclique.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/busclique/find_biclique.hpp b/include/busclique/find_biclique.hpp
index 93de37a..a49ff47 100644
--- a/include/busclique/find_biclique.hpp
+++ b/include/busclique/find_biclique.hpp
@@ -58,8 +58,10 @@ void best_bicliques(topo_cache<topo_spec> &topology,
             size_t s1 = std::get<1>(z);
             size_t cl = std::get<2>(z);
             auto w = chainlength.find(std::make_pair(s0, s1));
-            if(w == chainlength.end() || (*w).second > cl)
+            if(w == chainlength.end() || (*w).second > cl) {
+                chainlength[std::make_pair(s0, s1)] = cl;
                 emb_cache[std::make_pair(s0, s1)] = std::get<3>(z);
+            }
         }
     } while(topology.next());
     for(auto &z: emb_cache)
-- 
2.43.0


From b00afc94273a7ea5a2112b426ec5d601dcf7ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 10/53] fix: move the cache files into place while the cache is
 locked

Two threads or processes share the names of the temporary files.
---
 minorminer/busclique.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a9a7e73..45c404c 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -504,8 +504,9 @@ class busgraph_cache:
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-        #perform the copy-on-write for the lrufile and cachefile
-        file_context.close()
+                #perform the copy-on-write for the lrufile and cachefile, before
+                #the locks are released
+                file_context.close()
         return cache
 
     def largest_clique(self):
-- 
2.43.0


From e7cd9b9538a603200c43a1a4dec21e95d5f1a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 11/53] fix: evicting a cache file that is already gone is not
 an error

---
 minorminer/busclique.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 45c404c..67ae81a 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -500,7 +500,10 @@ class busgraph_cache:
                 #to recompute a deleted file that still has an entry in the LRU
                 while len(newLRU) > __lru_size:
                     oldkey = newLRU.pop()
-                    os.remove(os.path.join(basedir, oldkey))
+                    try:
+                        os.remove(os.path.join(basedir, oldkey))
+                    except FileNotFoundError:
+                        pass
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-- 
2.43.0


From 2390fc3e02f070d7fb8e44aca7e570fa94a2c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 12/53] fix: a dense clique cache includes its largest clique

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 67ae81a..b7b978b 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -256,7 +256,7 @@ class busgraph_cache:
         if sparse:
             cache = {i: raw[s][:i] for i, s in size.items()}
         else:
-            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size))]
+            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size, default=-1) + 1)]
         if compress:
             cache = gzip.compress(dumps(cache).encode('utf8'))
         return cache
-- 
2.43.0


From fe81f775c2215034641ef4bf354644ed353ccc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 13/53] fix: largest_clique_by_chainlength on caches without an
 entry per length

---
 minorminer/busclique.pyx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index b7b978b..c41c471 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -549,10 +549,16 @@ class busgraph_cache:
         """
         self._ensure_clique_cache()
         embs = self._cliques['raw']
-        length = self._cliques['length'] or [0]
-
-        if 0 < chainlength <= max(length):
-            return self._graph.relabel(dict(enumerate(embs[length[chainlength]])))
+        length = self._cliques['length']
+
+        if 0 < chainlength <= max(length, default=0):
+            #an updated or merged cache might not have an entry for every length,
+            #nor increasing sizes
+            key = max((length[i] for i in length if i <= chainlength),
+                      key=lambda k: len(embs[k]), default=None)
+            if key is None:
+                return {}
+            return self._graph.relabel(dict(enumerate(embs[key])))
         else:
             return {}
 
-- 
2.43.0


From 38db60d624f9b1956fcc7d5c235ba93d831a78dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 14/53] fix: compare the maximum chain lengths when merging
 clique caches

The chains of a cached embedding are not sorted by length.
---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index c41c471..29e162d 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -393,8 +393,8 @@ class busgraph_cache:
                     qual0 = qual1 = 0
                 elif quality_function is None:
                     # by default, shortest chainlength is highest quality
-                    qual0 = -len(raw0[key0][i-1])
-                    qual1 = -len(raw1[key1][i-1])
+                    qual0 = -max(map(len, raw0[key0][:i]))
+                    qual1 = -max(map(len, raw1[key1][:i]))
                 else:
                     qual0 = quality_function(raw0[key0][:i])
                     qual1 = quality_function(raw1[key1][:i])
-- 
2.43.0


From 0d25fb565f72ea47b044861b4f337215d4e487f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 15/53] fix: bicliques of every shape, and of one-sided
 bicliques

find_biclique_embedding only considered bicliques whose two sides are both as
large as the larger requested side, did not minimise the chain length, failed on
K_{0,n} and on graphs without bicliques.
---
 minorminer/busclique.pyx | 56 ++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 29e162d..ad09837 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -605,8 +605,9 @@ class busgraph_cache:
 
         """
         self._ensure_biclique_cache()
-        biggest = self._bicliques['max_side']
         embs = self._bicliques['raw']
+        if not embs:
+            return {}
         s0, s1 = key = max(embs, key=lambda x: min(x))
         raw_emb = embs[key]
         raw_emb0 = sorted(raw_emb[:s0], key=len)
@@ -642,38 +643,31 @@ class busgraph_cache:
             of a biclique embedding.
         """
         self._ensure_biclique_cache()
-        biggest = self._bicliques['max_side']
-        by_size = self._bicliques['size']
         raw = self._bicliques['raw']
         n, N = _num_nodes(nn)
         m, M = _num_nodes(mm, offset = n)
         if(m < n):
             n, N, m, M = m, M, n, N
-        if m == 0:
-            emb = self._graph.independent_set(n)
+        if n == 0:
+            emb = self._graph.independent_set(m)
             if emb is None:
                 return {}
-            return dict(zip(N, emb))
-        nmax = biggest[None]
-        for i in range(n, nmax + 1):
-            mmax = biggest.get(i, 0)
-            if mmax < m:
+            return self._graph.relabel(dict(zip(M, emb)))
+        best, best_length = None, None
+        for (s0, s1), emb in raw.items():
+            if min(s0, s1) < n or max(s0, s1) < m:
                 continue
-            row = by_size.get(i, {0:None})
-            for j in range(m, mmax + 1):
-                key = row.get(j)
-                if key is None:
+            emb0 = sorted(emb[:s0], key=len)
+            emb1 = sorted(emb[s0:], key=len)
+            for side0, side1 in ((emb0, emb1), (emb1, emb0)):
+                if len(side0) < n or len(side1) < m:
                     continue
-                emb = raw[key]
-                s0, s1 = key
-                emb0 = emb[:s0]
-                emb1 = emb[s0:]
-                if s0 <= n and s1 <= m:
-                    emb = dict(zip(N + M, emb0[:n] + emb1))
-                else:
-                    emb = dict(zip(N + M, emb1[:n] + emb0))
-                return self._graph.relabel(emb)
-        return {}
+                length = max(len(side0[n-1]), len(side1[m-1]))
+                if best is None or length < best_length:
+                    best, best_length = side0[:n] + side1[:m], length
+        if best is None:
+            return {}
+        return self._graph.relabel(dict(zip(N + M, best)))
 
     def draw_fragment_embedding(self, emb, **kwargs):
         m, n, t, nodes, edges = self._graph.fragment_graph_spec()
@@ -760,7 +754,7 @@ cdef dict _make_biclique_cache(vector[pair[pair[size_t, size_t],
         if not _keep_biclique_key(realkey, key, chainlength):
             by_size[s0][s1] = key
 
-    max_side = {None: max(by_size)}
+    max_side = {None: max(by_size, default=0)}
     for key, val in by_size.items():
         max_side[key] = max(val)
     return {'raw': raw, 'size': by_size, 'max_side': max_side}
@@ -890,8 +884,8 @@ cdef class _zephyr_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [(self.nodes[i],) for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
@@ -1003,8 +997,8 @@ cdef class _pegasus_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [(self.nodes[i],) for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
@@ -1121,8 +1115,8 @@ cdef class _chimera_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [(self.nodes[i],) for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
-- 
2.43.0


From d501bee13d558cef0d6c0ce14cd8c0eef619a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 16/53] fix: lattice_size_lower_bound on minor embeddings and
 on chimera degrees

Degree and colour bounds of subgraphs were applied to minor embeddings too, and
a source degree above that of chimera's qubits looped forever.
---
 minorminer/utils/feasibility.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 1db8d51..882df60 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -168,16 +168,17 @@ def lattice_size_lower_bound(
 
         if t is None:
             t = 4
-        max_degrees = {"chimera": 2 + 2 * t, "pegasus": 15, "zephyr": 4 + 4 * t}
-        max_source_degree = max(d for _, d in S.degree)
+        if one_to_one:
+            max_degrees = {"chimera": 2 + t, "pegasus": 15, "zephyr": 4 + 4 * t}
+            max_source_degree = max(d for _, d in S.degree)
 
-        if max_source_degree > max_degrees[topology]:
-            return None
+            if max_source_degree > max_degrees[topology]:
+                return None
 
     N = S.number_of_nodes()
     if topology == "chimera":
-        # Two colorability is necessary, and cheap to check
-        if any(
+        # Two colorability is necessary for subgraphs, and cheap to check
+        if one_to_one and any(
             c > 2
             for c in nx.algorithms.coloring.greedy_coloring.greedy_color(
                 S, strategy="connected_sequential_bfs"
-- 
2.43.0


From b30360c2393da8e507ca1a413e15176728860b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:55 +0000
Subject: [PATCH 17/53] fix: find_sublattice_embeddings hands its options on

Without one_to_iterable the nodes of chains were not removed from a sublattice
after an embedding (so embeddings overlapped, or unhashable chains raised) and the
one-to-one filter rejected feasible sublattices.
---
 minorminer/utils/parallel_embeddings.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 0aee924..5e5789f 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -434,9 +434,13 @@ def find_sublattice_embeddings(
             S=S,
             T=T,
             max_num_emb=max_num_emb,
+            use_filter=use_filter,
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
+            timeout=timeout,
         )
     if T is not None and T.graph.get("family", T_family) not in {
         "chimera",
@@ -533,6 +537,7 @@ def find_sublattice_embeddings(
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
             timeout=timeout_at - perf_counter(),
         )
         if len(defect_free_embs) == 0:
@@ -583,6 +588,8 @@ def find_sublattice_embeddings(
                 seed=seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
+                one_to_iterable=one_to_iterable,
+                shuffle_all_graphs=shuffle_all_graphs,
                 timeout=timeout_at - perf_counter(),
             )
         embs += sub_embs
-- 
2.43.0


From a53a9bee949bb0ba6ec6fe12dc05d66be16ef7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 18/53] fix: array_to_embeddings with as many embeddings as
 nodes

---
 minorminer/utils/parallel_embeddings.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 5e5789f..57188c7 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -122,10 +122,14 @@ def array_to_embeddings(
         A list of embedding dictionaries
     """
 
+    embs = list(embs)
     if node_order is None:
-        node_order = range(len(embs[0]))
+        node_order = range(len(embs[0]) if embs else 0)
+    node_order = list(node_order)
 
-    if len(embs) == len(node_order):
+    is_row = [hasattr(emb, "__len__") and len(emb) == len(node_order) for emb in embs]
+    if len(embs) == len(node_order) and not all(is_row):
+        # a single embedding
         embs = [{node_order[idx]: v for idx, v in enumerate(embs)}]
     else:
         embs = [{node_order[idx]: v for idx, v in enumerate(emb)} for emb in embs]
-- 
2.43.0


From aa8139ce2d93a9f8bbdfe36523e360c380ad8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 19/53] fix: translate the variable order of quickpass around
 fixed variables

The order was handed on in the caller's numbering, so that quickpass embedded
other variables than asked for, fixed ones included.
---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 5ddebd5..1989230 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -123,7 +123,7 @@ class parameter_processor {
         vector<int> U;
         for (auto &v : V) {
             if (v < 0 || static_cast<unsigned int>(v) >= num_vars) throw CorruptParametersException();
-            if (!var_fixed_unscrewed[v]) U.push_back(v);
+            if (!var_fixed_unscrewed[v]) U.push_back(screw_vars[v]);
         }
         return U;
     }
-- 
2.43.0


From de6fa07cd8fc5ad06abfba559c04acb2ce6ac8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 20/53] fix: the default heuristic_bound of
 mine_clique_embeddings on chimera graphs

The graphs call their width 'columns', and the bound has to be an integer.
---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index ad09837..4020277 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1305,9 +1305,9 @@ def mine_clique_embeddings(
             heuristic_bound = min(36, 12*(rows-1))
         elif bgc._family == "chimera":
             rows = g.graph['rows']
-            cols = g.graph['cols']
+            cols = g.graph['columns']
             tile = g.graph['tile']
-            heuristic_bound = (min(tile*rows, tile*cols)+3)/4
+            heuristic_bound = (min(tile*rows, tile*cols)+3)//4
         else:
             raise NotImplementedError("graph family not supported")
 
-- 
2.43.0


From a6cdc11798f4df9932080b801d2ee76f8c523f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 21/53] fix: return what there is when a search is stopped
 during initialization

The stop is noticed at the end of the initialization pass, when every variable
has its chain, but find_embedding threw the chains away: with return_overlap it
returned empty chains, for fixed variables too, and without it no embedding
even if the chains happened not to overlap.
---
 include/find_embedding/pathfinder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 1878c9f..c32ebd3 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -602,7 +602,10 @@ class pathfinder_base : public pathfinder_public_interface {
             currEmbedding = initEmbedding;
             switch (initialization_pass(currEmbedding)) {
                 case -2:
-                    return 0;
+                    // the pass is complete, so there is something to return
+                    best_stats.clear();
+                    check_improvement(currEmbedding);
+                    return ep.embedded;
                 case -1:
                     throw BadInitializationException(
                             "Failed during initialization.  This typically "
-- 
2.43.0


From 56fddca4dddc51a7d4fb3bdbc93bcb3cd205516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 22/53] fix: a stopped search stops

A keyboard interrupt is reported once.  In interactive mode it ended the
current trial only: the search restarted and went on with the remaining trials
(or with the improvement of chain lengths), discarding the best embedding.
---
 include/find_embedding/pathfinder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index c32ebd3..24de487 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -620,6 +620,7 @@ class pathfinder_base : public pathfinder_public_interface {
         check_improvement(currEmbedding);
         ep.improved = 1;
         currEmbedding = bestEmbedding;
+        bool stopped = false;
         for (int trial_patience = params.tries; trial_patience-- && (!ep.embedded);) {
             int improvement_patience = params.max_no_improvement;
             ep.major_info("embedding trial %d\n", params.tries - trial_patience);
@@ -639,7 +640,8 @@ class pathfinder_base : public pathfinder_public_interface {
                 }
                 switch (r) {
                     case -2:
-                        improvement_patience = 0;
+                        stopped = true;
+                        improvement_patience = trial_patience = 0;
                         break;
                     case -1:
                         currEmbedding = bestEmbedding;  // fallthrough
@@ -660,6 +662,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 int r = initialization_pass(currEmbedding);
                 switch (r) {
                     case -2:
+                        stopped = true;
                         trial_patience = 0;
                         break;
                     case -1:
@@ -674,7 +677,7 @@ class pathfinder_base : public pathfinder_public_interface {
             }
         }
 
-        if (ep.embedded && params.chainlength_patience) {
+        if (ep.embedded && params.chainlength_patience && !stopped) {
             ep.major_info("reducing chain lengths\n");
             int improvement_patience = params.chainlength_patience;
             ep.weight_bound = 1;
-- 
2.43.0


From 20c0a2b4526890e80ef2f0e4837e07cfce91215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 23/53] fix: quickpass falls back on a global search where a
 chain is not linked

---
 include/find_embedding/pathfinder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 24de487..7417755 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -555,8 +555,9 @@ class pathfinder_base : public pathfinder_public_interface {
                 lastsize = bestEmbedding.chainsize(u);
             }
 
-            bool ls = local_search;
-            if (ls && lastsize) {
+            // a local search starts from a chain that is linked to all of its neighbors
+            bool ls = local_search && bestEmbedding.linked(u);
+            if (ls) {
                 for (auto &q : bestEmbedding.get_chain(u)) {
                     if (bestEmbedding.weight(q) > 1) {
                         ls = false;
-- 
2.43.0


From 9f01a859078757b9ca20a05bc8556c4756524453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 24/53] fix: respect max_fill next to fixed chains

---
 include/find_embedding/pathfinder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 7417755..937e6a5 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -466,11 +466,12 @@ class pathfinder_base : public pathfinder_public_interface {
                             parent[p] = q;
                             visited[p] = 1;
                         }
-                    if (std::is_same<behavior_tag, default_tag>::value) {
-                        pq.emplace(p, permutation[p], qubit_weight[p]);
-                        parent[p] = q;
-                        visited[p] = 1;
-                    }
+                    if (std::is_same<behavior_tag, default_tag>::value)
+                        if (emb.weight(p) < ep.weight_bound) {
+                            pq.emplace(p, permutation[p], qubit_weight[p]);
+                            parent[p] = q;
+                            visited[p] = 1;
+                        }
                 }
             }
         } else {
-- 
2.43.0


From d22eb52b410bec76960f78ea99b7147ac824b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 25/53] fix: a miner has the documented default of
 chainlength_patience

minorminer.find_embedding and its documentation say 10; the C++ default, which
minorminer.miner gets when the parameter is not given, was 2, so that
miner(S, T, **params).find_embedding() was not equivalent to
find_embedding(S, T, **params).
---
 include/find_embedding/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/util.hpp b/include/find_embedding/util.hpp
index 7697ab5..1723f6d 100644
--- a/include/find_embedding/util.hpp
+++ b/include/find_embedding/util.hpp
@@ -138,7 +138,7 @@ class optional_parameters {
     int inner_rounds = numeric_limits<int>::max();
     int max_fill = numeric_limits<int>::max();
     bool return_overlap = false;
-    int chainlength_patience = 2;
+    int chainlength_patience = 10;
     int threads = 1;
     bool skip_initialization = false;
     map<int, vector<int>> fixed_chains;
-- 
2.43.0


From 84f563f87c36528951d5cc6d6cc5a1f4bee7b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 26/53] fix: VARORDER_KEEP refuses an ordering that never was

The order was initialised to one entry of 0 per variable, so that keeping it
before another strategy had run replaced the chain of variable 0 over and over
instead of raising the error quickPass has for this case.  A search that skips
its initialization kept that order in the first chain length pass.
---
 include/find_embedding/embedding_problem.hpp | 2 +-
 include/find_embedding/pathfinder.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding_problem.hpp b/include/find_embedding/embedding_problem.hpp
index cfc3d48..66a7b39 100644
--- a/include/find_embedding/embedding_problem.hpp
+++ b/include/find_embedding/embedding_problem.hpp
@@ -238,7 +238,7 @@ class embedding_problem_base {
               qubit_nbrs(q_n),
               var_nbrs(v_n),
               rand(0, 0xffffffff),
-              var_order_space(n_v),
+              var_order_space(),
               var_order_visited(n_v, 0),
               var_order_shuffle(n_v),
               exponent_margin(compute_margin()),
diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 937e6a5..a212961 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -620,7 +620,7 @@ class pathfinder_base : public pathfinder_public_interface {
         ep.initialized = 1;
         best_stats.clear();
         check_improvement(currEmbedding);
-        ep.improved = 1;
+        ep.improved = !params.skip_initialization;  // only the initialization pass leaves an ordering to keep
         currEmbedding = bestEmbedding;
         bool stopped = false;
         for (int trial_patience = params.tries; trial_patience-- && (!ep.embedded);) {
-- 
2.43.0


From 1a211f7690cbc38a5bb7f1794a5178698e4132a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 27/53] fix: a quickpass that was refused is not the first one

clear_first was honoured after a first call that raised (an unknown label, or
VARORDER_KEEP without an ordering), where the miner holds no chains at all, not
even the fixed ones.
---
 minorminer/_minorminer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 7affe05..03ca761 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -535,7 +535,6 @@ cdef class miner:
 
         if not self.quickpassed:
             clear_first = True
-            self.quickpassed = True
 
         if varorder is not None:
             for v in varorder:
@@ -546,6 +545,7 @@ cdef class miner:
             self.pf.quickPass(neworder, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
         else:
             self.pf.quickPass(strategy, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
+        self.quickpassed = True
 
         rchain = {}
         for v in range(self.pf.num_vars()-self._in.pincount):
-- 
2.43.0


From 4f6539c56ffb13c67e3de243a306c1a80d5d8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:34 +0000
Subject: [PATCH 28/53] fix: the coordinates of a zephyr graph depend on its
 tile size

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 4020277..0b294da 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -832,7 +832,7 @@ cdef class _zephyr_busgraph:
             internal_seed = seed
 
         cdef zephyr_spec *zep = new zephyr_spec(rows, tile, internal_seed)
-        coordinates = dwave.graphs.zephyr_coordinates(rows)
+        coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
             self.nodes = g.nodes()
-- 
2.43.0


From 25e61ac1e6fb18790781e781836764ed2687ebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 29/53] fix: no ells of width one in the search for a clique

---
 include/busclique/find_clique.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/busclique/find_clique.hpp b/include/busclique/find_clique.hpp
index 7ba044d..310d3da 100644
--- a/include/busclique/find_clique.hpp
+++ b/include/busclique/find_clique.hpp
@@ -75,7 +75,7 @@ bool find_clique_nice(const cell_cache<chimera_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<chimera_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    size_t minw = max(size_t(2), (size + shore - 1)/shore); //the cells, width 1, have been tried
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     maxw = min(max_length - 1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -104,7 +104,7 @@ bool find_clique_nice(const cell_cache<zephyr_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<zephyr_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    size_t minw = max(size_t(2), (size + shore - 1)/shore); //the cells, width 1, have been tried
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     if (max_length < numeric_limits<size_t>::max()) maxw = min(2*max_length+1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -128,7 +128,7 @@ bool find_clique_nice(const cell_cache<pegasus_spec> &cells,
                       size_t &,
                       size_t &max_length) {
     bundle_cache<pegasus_spec> bundles(cells);
-    size_t minw = (size + 1)/2;
+    size_t minw = max(size_t(2), (size + 1)/2); //width 1 has no more than a short clique
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
 
     for(size_t w = minw; w <= maxw; w++) {
-- 
2.43.0


From 0b112d59a75974d67fc3e663b010b91b25318909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 30/53] fix: without a seed, the clique search draws one from
 python's random state

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 0b294da..f5a1769 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -128,7 +128,7 @@ def find_clique_embedding(nodes, g, seed = _no_seed, use_cache = True):
         return busgraph_cache(g, seed=seed).find_clique_embedding(nodes)
     else:
         if seed is _no_seed:
-            seed = None
+            seed = random.randint(0, 2**32-1)
         return busgraph(g, seed=seed).find_clique_embedding(nodes)
 
 class busgraph_cache:
-- 
2.43.0


From d44da3b7a1e4f2887f32ce4caac5212cd650a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:28 +0000
Subject: [PATCH 31/53] fix: resetting a topology restores its list of missing
 couplers

---
 include/busclique/topo_cache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index cf72f53..5900f37 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -72,6 +72,9 @@ class topo_cache {
         if(mask_num > 0) {
             mask_num = 0;
             rng = fastrng(topo.seed);
+            //next() shuffles these
+            bad_edges.clear();
+            compute_bad_edges();
             next();
         }
     }
-- 
2.43.0


From 4916ccb1bf216c958de07995877220fdd7907306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:09 +0000
Subject: [PATCH 32/53] fix: update a clique cache of a graph with coordinate
 labels

---
 minorminer/busclique.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index f5a1769..23ce318 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -286,6 +286,8 @@ class busgraph_cache:
         empty = True
         for size, emb in cache:
             empty = False
+            #cache objects hold the integer labels
+            emb = self._graph.relabel(dict(enumerate(emb)))
             self.insert_clique_embedding(emb, write_to_disk=False, direct=True)
 
         if empty:
-- 
2.43.0


From 55601a96dec1f767d41935436e2fa671e45b732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 33/53] fix: mining cliques starts from the cache on disk, as
 documented

---
 minorminer/busclique.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 23ce318..e143286 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1286,6 +1286,8 @@ def mine_clique_embeddings(
     import logging
     logger = logging.getLogger(__name__)
     bgc = busgraph_cache(g)
+    #merging into an object that has not loaded its cache would start from scratch
+    bgc._ensure_clique_cache()
     for i in range(num_seeds):
         logger.info("polynomial embedder run %d of %d", i+1, num_seeds)
         seed = random.randint(0, 2**32-1)
-- 
2.43.0


From 6cb87385dea48042f67eb6179c21349c82489aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 34/53] fix: mining cliques uses the documented default quality
 in both phases

---
 minorminer/busclique.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index e143286..620153b 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1285,6 +1285,9 @@ def mine_clique_embeddings(
     from minorminer import miner
     import logging
     logger = logging.getLogger(__name__)
+    if quality_function is None:
+        quality_function = _default_quality_function
+
     bgc = busgraph_cache(g)
     #merging into an object that has not loaded its cache would start from scratch
     bgc._ensure_clique_cache()
@@ -1315,9 +1318,6 @@ def mine_clique_embeddings(
         else:
             raise NotImplementedError("graph family not supported")
 
-    if quality_function is None:
-        quality_function = _default_quality_function
-
     if heuristic_args is None:
         heuristic_args = dict(chainlength_patience=100, max_beta=3, tries=1)
 
-- 
2.43.0


From e755f97cda8947eae20d716c98c038413e161954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 35/53] fix: graphs that differ in odd couplers, dimensions or
 seed have caches of their own

---
 minorminer/busclique.pyx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 620153b..a9b2270 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -30,6 +30,7 @@ import dwave.graphs
 from itertools import zip_longest
 from hashlib import sha256
 
+from libcpp.algorithm cimport sort
 from cpython.mem cimport PyMem_Malloc, PyMem_Free
 from cpython.bytes cimport PyBytes_FromStringAndSize
 
@@ -462,7 +463,7 @@ class busgraph_cache:
         pathlib.Path(basedir).mkdir(parents=True, exist_ok=True)
         lockfile = os.path.join(basedir, ".lock")
         lrufile = os.path.join(basedir, ".lru")
-        identifier = self._graph.identifier
+        identifier = self._graph.cache_key
         shortcode = self._graph.short_identifier
 
         #this makes our writes to the filesystem atomic
@@ -806,6 +807,22 @@ cdef _serialize(topo_cache_t *topo, str family):
     shortcode = "{}_{:16x}".format(family, shortcode_state)
     return ret, shortcode
 
+cdef _cache_key(identifier, rows, seed, edges_t edges):
+    """
+    The key of a cache within its file.  Short cliques use odd couplers, which
+    the identifier leaves out, and some identifiers lack the dimensions or seed.
+    """
+    cdef size_t i
+    for i in range(edges.size()):
+        if edges[i].first > edges[i].second:
+            edges[i] = pair[size_t, size_t](edges[i].second, edges[i].first)
+    sort(edges.begin(), edges.end())
+    key = sha256(repr((identifier, rows, seed)).encode('utf8'))
+    key.update(PyBytes_FromStringAndSize(
+        <char *>(<void *>edges.data()), edges.size()*sizeof(pair[size_t, size_t])
+    ))
+    return key.digest()
+
 cdef class _zephyr_busgraph:
     cdef topo_cache[zephyr_spec] *topo
     cdef nodes_t nodes
@@ -814,6 +831,7 @@ cdef class _zephyr_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single zephyr graph, and dispatches
@@ -854,6 +872,7 @@ cdef class _zephyr_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'zephyr')
+            self.cache_key = _cache_key(self.identifier, rows, internal_seed, edges)
 
         del zep
 
@@ -925,6 +944,7 @@ cdef class _pegasus_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single pegasus graph, and dispatches
@@ -967,6 +987,7 @@ cdef class _pegasus_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'pegasus')
+            self.cache_key = _cache_key(self.identifier, rows, internal_seed, edges)
 
         del peg
 
@@ -1048,6 +1069,7 @@ cdef class _chimera_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         rows = g.graph['rows']
         cols = g.graph['columns']
@@ -1084,6 +1106,7 @@ cdef class _chimera_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'chimera')
+            self.cache_key = _cache_key(self.identifier, rows, internal_seed, edges)
 
         del chim
 
-- 
2.43.0


From db8d9400350201d42abe1e7034d6bd8e1222bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 36/53] fix: two processes may make the cache directory at once

---
 minorminer/busclique.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a9b2270..3039e1b 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -204,7 +204,8 @@ class busgraph_cache:
         Returns:
             str
         """
-        return homebase.user_data_dir('busclique', 'dwave', version)
+        #homebase would fail if another process made the directory first
+        return homebase.user_data_dir('busclique', 'dwave', version, create=False)
 
     @staticmethod
     def clear_all_caches():
-- 
2.43.0


From 496432f7ca23b03ca532b9ddf3076f3c449d2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 37/53] fix: p_norm pairs the distances of a graph with the
 positions of the same nodes

---
 minorminer/layout/layout.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index dcbf457..99a943d 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -163,9 +163,14 @@ def _graph_distance_matrix(G,
     if disconnected_distance is None:
         disconnected_distance = len(G)
         
+    all_pairs_shortest_path_length = dict(all_pairs_shortest_path_length)
+
+    # The same order as that of Layout.layout_array
+    nodes = sorted(G)
+
     return np.array([
-        [V.get(v, disconnected_distance) for v in G]
-        for _, V in nx.all_pairs_shortest_path_length(G)
+        [all_pairs_shortest_path_length[u].get(v, disconnected_distance) for v in nodes]
+        for u in nodes
         ])
 
 
-- 
2.43.0


From 11ed7a41e5cdee4b7583f4bcbaf8ba46bf961062 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 38/53] fix: layout.find_embedding accepts edges for the target
 graph

---
 minorminer/layout/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index 00a717b..bf99ec6 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -17,7 +17,7 @@ import time
 import networkx as nx
 import minorminer as mm
 
-from .layout import Layout, dnx_layout, graph_layout, p_norm
+from .layout import Layout, _parse_graph, dnx_layout, graph_layout, p_norm
 from .placement import Placement, closest, intersection
 
 
@@ -87,6 +87,9 @@ def find_embedding(
     """
     start = time.perf_counter()
 
+    # Edges are as good as graphs
+    S, T = _parse_graph(S), _parse_graph(T)
+
     # Parse kwargs
     layout_kwargs, placement_kwargs = _parse_kwargs(kwargs)
 
-- 
2.43.0


From 29b770173ee073a48d24ac7a1ff3cc68df762e0c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 39/53] fix: layout.find_embedding uses the layout that is
 given for a D-Wave target graph

---
 minorminer/layout/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index bf99ec6..bad7860 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -162,7 +162,9 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
             raise ValueError(
                 "layout is expected to be a function or a length-2 iterable")
     else:
-        s_layout = t_layout = layout
+        s_layout, t_layout = layout, None
+        if T.graph.get("family") not in ("chimera", "pegasus", "zephyr"):
+            t_layout = layout
 
     # Get a Layout object for S
     if isinstance(s_layout, Layout):
@@ -175,8 +177,8 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
     if isinstance(t_layout, Layout):
         T_layout = t_layout
     else:
-        # Use the graph_layout if possible
-        if T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
+        # Use the graph_layout if possible and nothing else was asked for
+        if t_layout is None and T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
             T_layout = Layout(T, layout=graph_layout, **layout_kwargs)
         # Assumes t_layout a callable or implements a mapping interface
         else:
-- 
2.43.0


From 53610cd5882cda08c76b3ae1e4e2e60249485d0e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 40/53] fix: closest with more neighbors than there are subsets

---
 minorminer/layout/placement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 9cdf3ad..ccf14be 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -341,6 +341,9 @@ def closest(S_layout, T_layout, subset_size=(1, 1), num_neighbors=1, **kwargs):
     except ValueError:
         pass
 
+    # There are no more neighbors than points
+    num_neighbors = min(num_neighbors, len(layout_points))
+
     placement = {}
     for u, u_pos in S_layout.items():
         distances, v_indices = tree.query([u_pos], num_neighbors)
-- 
2.43.0


From 50846da5d31a8d55a27a4350a581779022860902 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 41/53] fix: closest keeps to the lower bound on the size of
 subsets

---
 minorminer/layout/placement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index ccf14be..f7ad490 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -389,7 +389,7 @@ def _get_connected_subgraphs(G, k, single_set=False):
         for X in connected_subgraphs[i]:
             # For each vertex in the set, iterate over its neighbors.
             for v in X:
-                for u in G.neighbors(v):
+                for u in set(G.neighbors(v)).difference(X):
                     connected_subgraphs[i + 1].add(X.union({u}))
 
     return connected_subgraphs
-- 
2.43.0


From 10668eb9b8bafa2e6273efa30232b30c4fa7c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 42/53] fix: scaling a layout of a single point does not make
 it NaN

---
 minorminer/layout/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 99a943d..72dcb1c 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -665,6 +665,10 @@ def _scale_layout(layout_array, new_scale, old_scale=None, center=None):
     if old_scale is None:
         old_scale = np.max(np.abs(L))
 
+    # A single point has no extent to scale
+    if old_scale == 0:
+        return layout_array
+
     # Scale the thing
     scaled_L = (new_scale/old_scale) * L
 
-- 
2.43.0


From 79dc0f70870c5c107af11367106be9e89b217a1a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 43/53] fix: graph_layout of nodes on a line or at a point is
 not NaN

---
 minorminer/layout/layout.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 72dcb1c..6fe1d68 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -322,7 +322,11 @@ def graph_layout(G, dim=None, center=None, scale=None, **kwargs):
     x_max, y_max = np.max(dnx_layout_arr, axis=0)
     if x_min!=0 or x_max!=dnx_scale or y_min!=-dnx_scale or y_max!=0: 
         dnx_layout_arr = dnx_layout_arr - np.array([x_min, y_max]) #make (0, 0) top left corner
-        dnx_layout_arr = dnx_layout_arr * np.array([(dnx_scale)/(x_max-x_min), (dnx_scale)/(y_max-y_min)]) #make (dnx_scale, -dnx_scale) bottom right corner
+        extent = np.array([x_max - x_min, y_max - y_min])
+        # make (dnx_scale, -dnx_scale) bottom right corner; where there is no extent, use the middle
+        dnx_layout_arr = np.where(extent > 0,
+                                  dnx_layout_arr * dnx_scale / np.where(extent > 0, extent, 1),
+                                  np.array([dnx_scale/2, -dnx_scale/2]))
         paddim = dim - 2
         zeros = np.zeros((dnx_layout_arr.shape[0], paddim))
         dnx_layout_arr = np.hstack((dnx_layout_arr, zeros)) + dnx_center
-- 
2.43.0


From 143396d7f605794e2e6a7a31b7dcaf9f3749956d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 44/53] fix: Layout takes its dimension from a center

---
 minorminer/layout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 6fe1d68..07918ff 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -743,11 +743,11 @@ def _pack_components(G, layout, **kwargs):
 
     If `scale` is an argument, we rescale the layout after the above.
 
-    If `dim` is an argument and not equal to 2, we don't have an
+    If `dim` (or the dimension of `center`) is an argument and not equal to 2, we don't have an
     implementation, so we pass the graph directly into `layout` and bypass
     the packing procedure
     """
-    if kwargs.get('dim', 2) != 2:
+    if kwargs.get('dim', len(kwargs.get('center', (0, 0)))) != 2:
         return layout(G, **kwargs)
 
     layouts = []
-- 
2.43.0


From 4e53310137871b79d24ba25c18e6840f04d50c2a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 45/53] fix: Layout keeps layout_array in step with assignments
 to nodes

---
 minorminer/layout/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 07918ff..e078f9f 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -535,7 +535,7 @@ class Layout(abc.MutableMapping):
 
     def __setitem__(self, key, value):
         """Set the layout value at the key vertex."""
-        self.layout[key] = value
+        self.layout = {**self.layout, key: value}
 
     def __delitem__(self, key):
         """Delete the layout value at the key vertex."""
-- 
2.43.0


From cabda2c32093ef2c988e31a631cb76247712f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 46/53] fix: find_sublattice_embeddings returns no more than
 max_num_emb = 0 tile embeddings

---
 minorminer/utils/parallel_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 57188c7..7e05181 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -574,7 +574,7 @@ def find_sublattice_embeddings(
         sublattice_iter = sublattice_mappings(tile, _T)
 
     for f in sublattice_iter:
-        if perf_counter() > timeout_at:
+        if perf_counter() > timeout_at or len(embs) >= max_num_emb:
             break
         if use_tile_embedding:
             proposal = _mapped_proposal(tile_embedding, f, one_to_iterable)
-- 
2.43.0


From 688416c6dc7ed3ffe73f826d561bc118f3dafd7f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:51:27 +0000
Subject: [PATCH 47/53] fix: largestNativeClique of a processor without a
 clique of some width

---
 minorminer/utils/polynomialembedder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index 62528fa..229e342 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -581,7 +581,7 @@ class eden_processor(object):
 
         for w in range(wmax + 1):
             score, clique = self.nativeCliqueEmbed(w)
-            if bestscore is None or score > bestscore:
+            if bestscore is None or (score is not None and score > bestscore):
                 bigclique = clique
                 bestscore = score
         return bestscore, bigclique
-- 
2.43.0


From a9264edacac74c60ae817510d0f1a0d3f77624db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 48/53] fix: lattice_size_lower_bound refuses a t that is not
 the tile of T

---
 minorminer/utils/feasibility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 882df60..3a614cc 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -162,6 +162,8 @@ def lattice_size_lower_bound(
 
         if t is None:
             t = T.graph["tile"]
+        elif topology in ("chimera", "zephyr") and t != T.graph["tile"]:
+            raise ValueError("Arguments T and t are inconsistent")
     else:
         if topology is None:
             raise ValueError("T or topology must be specified")
-- 
2.43.0


From d909768edd2d5ce328f86535d3906e70b9f3bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 49/53] fix: lattice_size_lower_bound of a graph without nodes

---
 minorminer/utils/feasibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 3a614cc..2a1674c 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -172,7 +172,7 @@ def lattice_size_lower_bound(
             t = 4
         if one_to_one:
             max_degrees = {"chimera": 2 + t, "pegasus": 15, "zephyr": 4 + 4 * t}
-            max_source_degree = max(d for _, d in S.degree)
+            max_source_degree = max((d for _, d in S.degree), default=0)
 
             if max_source_degree > max_degrees[topology]:
                 return None
-- 
2.43.0


From 9ab9c89dc2a1aad3dc694941bed1a7b69322a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:55 +0000
Subject: [PATCH 50/53] fix: layout.find_embedding of a source graph without
 nodes

---
 minorminer/layout/layout.py    | 2 +-
 minorminer/layout/placement.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index e078f9f..0e96f40 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -509,7 +509,7 @@ class Layout(abc.MutableMapping):
         # Cast it as a numpy array incase it's not.
         value = np.array(value)
 
-        if value.size != 0:
+        if value.size != 0 and self.layout_array.size != 0:
             self.layout_array = _center_layout(
                 self.layout_array, value, self._center)
 
diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index f7ad490..136ff43 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -451,7 +451,7 @@ class Placement(abc.MutableMapping):
         self.T_layout = _parse_layout(T_layout)
 
         # Layout dimensions should match
-        if self.S_layout.dim != self.T_layout.dim:
+        if len(self.S_layout) and self.S_layout.dim != self.T_layout.dim:
             raise ValueError(
                 "S_layout has dimension {} but T_layout has dimension {}. These must match.".format(
                     self.S_layout.dim, self.T_layout.dim)
-- 
2.43.0


From 8cf33c016e4eaeb99bd5f08bbd0487e21a7bd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:11 +0000
Subject: [PATCH 51/53] fix: Layout of a graph without nodes at a scale

---
 minorminer/layout/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 0e96f40..22b4b8c 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -784,7 +784,7 @@ def _pack_components(G, layout, **kwargs):
         for (rx, ry), (w, h), cpos in zip(positions, rectangles, layouts)
         for v, (vx, vy) in cpos.items()
     }
-    if scale is not None:
+    if scale is not None and layout:
         layout_array = np.array(list(layout[v] for v in G))
         return dict(zip(G, _scale_layout(layout_array, scale)))
     else:
-- 
2.43.0


From 17d6b50e6dc0374efd85d826df776d541ca2c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 52/53] fix: intersection on a grid of one point

---
 minorminer/layout/placement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 136ff43..cb18982 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -141,7 +141,8 @@ def _intersection_binning(S_layout, T):
 
     # Add "variables" (vertices from S) to grid points too
     for v, pos in S_layout.items():
-        grid_point = tuple(int(x) for x in np.round(pos))
+        # (a grid of one point has no scale)
+        grid_point = tuple(int(x) for x in np.clip(np.round(pos), 0, 2*scale))
         G.nodes[grid_point]["variables"].add(v)
 
     return G
-- 
2.43.0


From a2c0fb13fc9c5af4358e26415afcbda3985827bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 53/53] fix: largest_clique_by_chainlength beyond the longest
 chains

A bound larger than the longest chain of the cache gave no clique at all,
where the largest clique has chains within that bound.
---
 minorminer/busclique.pyx | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 3039e1b..45d26a7 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -555,16 +555,13 @@ class busgraph_cache:
         embs = self._cliques['raw']
         length = self._cliques['length']
 
-        if 0 < chainlength <= max(length, default=0):
-            #an updated or merged cache might not have an entry for every length,
-            #nor increasing sizes
-            key = max((length[i] for i in length if i <= chainlength),
-                      key=lambda k: len(embs[k]), default=None)
-            if key is None:
-                return {}
-            return self._graph.relabel(dict(enumerate(embs[key])))
-        else:
+        #an updated or merged cache might not have an entry for every length,
+        #nor increasing sizes
+        key = max((length[i] for i in length if 0 < i <= chainlength),
+                  key=lambda k: len(embs[k]), default=None)
+        if key is None:
             return {}
+        return self._graph.relabel(dict(enumerate(embs[key])))
 
     def find_clique_embedding(self, nn):
         """Returns a clique embedding, minimizing the maximum chainlength given
-- 
2.43.0

