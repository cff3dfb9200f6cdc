From 5c37f57dfe4c57c2b9cbc7e5db57fca34ccb3e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 001/132] fix: to_graph_like keeps the type of a
 boundary-boundary or boundary-H-box edge

---
 pyzx/simplify.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a0cda7f..c538d9f 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -474,6 +474,14 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
             # every neighbor is another boundary or an H-Box
             assert(g.type(n) in [VertexType.BOUNDARY, VertexType.H_BOX])
             if g.type(n) == VertexType.BOUNDARY:
+                if g.edge_type(g.edge(v, n)) == EdgeType.HADAMARD:
+                    z1 = g.add_vertex(ty=VertexType.Z)
+                    z2 = g.add_vertex(ty=VertexType.Z)
+                    g.remove_edge(g.edge(v, n))
+                    g.add_edge((v, z1), edgetype=EdgeType.SIMPLE)
+                    g.add_edge((z1, z2), edgetype=EdgeType.HADAMARD)
+                    g.add_edge((z2, n), edgetype=EdgeType.SIMPLE)
+                    continue
                 z1 = g.add_vertex(ty=VertexType.Z)
                 z2 = g.add_vertex(ty=VertexType.Z)
                 z3 = g.add_vertex(ty=VertexType.Z)
@@ -484,9 +492,10 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
                 g.add_edge((z3, n), edgetype=EdgeType.SIMPLE)
             else: # g.type(n) == VertexType.H_BOX
                 z = g.add_vertex(ty=VertexType.Z)
+                et = g.edge_type(g.edge(v, n))
                 g.remove_edge(g.edge(v, n))
                 g.add_edge((v, z), edgetype=EdgeType.SIMPLE)
-                g.add_edge((z, n), edgetype=EdgeType.SIMPLE)
+                g.add_edge((z, n), edgetype=et)
 
     # each Z-spider can only be connected to at most 1 I/O
     vs = list(g.vertices())
-- 
2.43.0


From 743b134673fcca29ca60d4ed63d42678bc67f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 002/132] fix: copy rule does not put phases on boundaries and
 only makes non-overlapping matches

---
 pyzx/rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 708a624..9e5ba6b 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -975,13 +975,17 @@ def match_copy(
     phases = g.phases()
     types = g.types()
     m: List[MatchCopyType[VT]] = []
+    taken: Set[VT] = set() # vertices whose phase or neighborhood is changed by a previous match
 
     while len(candidates) > 0:
         v = candidates.pop()
         if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1: continue
         w = list(g.neighbors(v))[0]
         if types[w] != VertexType.Z: continue
+        if v in taken or w in taken: continue
         neigh = [n for n in g.neighbors(w) if n != v]
+        taken.add(w)
+        taken.update(neigh)
         m.append((v,w,phases[v],phases[w],neigh))
         candidates.discard(w)
         candidates.difference_update(neigh)
@@ -1004,7 +1008,8 @@ def apply_copy(g: BaseGraph[VT,ET], matches: List[MatchCopyType[VT]]) -> Rewrite
                 e = g.edge(w,n)
                 et = g.edge_type(e)
                 g.add_edge((n,u), toggle_edge(et))
-            g.add_to_phase(n, a)
+            else:
+                g.add_to_phase(n, a)
     return ({}, rem, [], True)
 
 MatchPhasePolyType = Tuple[List[VT], Dict[FrozenSet[VT],Union[VT,Tuple[VT,VT]]]]
-- 
2.43.0


From ab966d25c6ce56a640796b3703346b910b554029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 003/132] fix: bialgebra rewrite only matches on simple edges
 and keeps the scalar

---
 pyzx/rules.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 9e5ba6b..eb65f27 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -107,7 +107,10 @@ def match_bialg_parallel(
     i = 0
     m: List[MatchBialgType[VT]] = []
     while (num == -1 or i < num) and len(candidates) > 0:
-        v0, v1 = g.edge_st(candidates.pop())
+        e = candidates.pop()
+        if g.edge_type(e) != EdgeType.SIMPLE:
+            continue
+        v0, v1 = g.edge_st(e)
         if g.is_ground(v0) or g.is_ground(v1):
             continue
         v0t = types[v0]
@@ -119,8 +122,8 @@ def match_bialg_parallel(
             v0n = [n for n in g.neighbors(v0) if not n == v1]
             v1n = [n for n in g.neighbors(v1) if not n == v0]
             if (
-                all([types[n] == v1t and phases[n] == 0 for n in v0n]) and
-                all([types[n] == v0t and phases[n] == 0 for n in v1n])):
+                all([types[n] == v1t and phases[n] == 0 and g.edge_type(g.edge(v0,n)) == EdgeType.SIMPLE for n in v0n]) and
+                all([types[n] == v0t and phases[n] == 0 and g.edge_type(g.edge(v1,n)) == EdgeType.SIMPLE for n in v1n])):
                 i += 1
                 for v in v0n:
                     for c in g.incident_edges(v): candidates.discard(c)
@@ -138,6 +141,7 @@ def bialg(g: BaseGraph[VT,ET], matches: List[MatchBialgType[VT]]) -> RewriteOutp
     for m in matches:
         rem_verts.append(m[0])
         rem_verts.append(m[1])
+        g.scalar.add_power((len(m[2])-1)*(len(m[3])-1))
         es = [(i,j) for i in m[2] for j in m[3]]
         for e in es:
             if e in etab: etab[e][0] += 1
-- 
2.43.0


From a30588bf23c435249eff56e7e7f0953e88be7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 004/132] fix: to_clifford_normal_form_graph keeps the edge
 type when unfusing a boundary phase

---
 pyzx/simplify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index c538d9f..97027ab 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -557,7 +557,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,i)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=1, phase=g.phase(v))
-            g.add_edge((i,h),EdgeType.HADAMARD)
+            g.add_edge((i,h),g.edge_type(e))
             g.add_edge((h,v),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
@@ -569,7 +569,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,o)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=7, phase=g.phase(v))
-            g.add_edge((h,o),EdgeType.HADAMARD)
+            g.add_edge((h,o),g.edge_type(e))
             g.add_edge((v,h),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
-- 
2.43.0


From eac0182fb762e7fdf1c34912e382c0151268d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 005/132] fix: gadget and boundary pivots only match on
 Hadamard edges, as the ordinary pivot does

---
 pyzx/rules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index eb65f27..e7dd4f9 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -518,6 +518,7 @@ def match_pivot_gadget(
 
         if any(types[w]!=VertexType.Z for w in v0n): continue
         if any(types[w]!=VertexType.Z for w in v1n): continue
+        if any(g.edge_type(f) != EdgeType.HADAMARD for w in (v0,v1) for f in g.incident_edges(w)): continue
         # Both v0 and v1 are interior
 
         v = g.add_vertex(VertexType.Z,-2,rs[v0],v1a)
@@ -560,7 +561,7 @@ def match_pivot_boundary(
         w = None
         bound = None
         for n in g.neighbors(v):
-            if types[n] != VertexType.Z:
+            if types[n] != VertexType.Z or g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                 good_vert = False
                 break
             if len(g.neighbors(n)) == 1: # v is a phase gadget
@@ -569,7 +570,7 @@ def match_pivot_boundary(
             if n in consumed_vertices:
                 good_vert = False
                 break
-            if g.is_ground(n) in consumed_vertices:
+            if g.is_ground(n):
                 good_vert = False
                 break
             boundaries: List[VT] = []
@@ -577,7 +578,7 @@ def match_pivot_boundary(
             for b in g.neighbors(n):
                 if types[b] == VertexType.BOUNDARY:
                     boundaries.append(b)
-                elif types[b] != VertexType.Z:
+                elif types[b] != VertexType.Z or g.edge_type(g.edge(n,b)) != EdgeType.HADAMARD:
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-- 
2.43.0


From 2ed9ff144221d40410c30164f65aa8c177e6400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 006/132] fix: pi_commute keeps the global phase and does not
 iterate over a changing neighborhood

---
 pyzx/basicrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 18eebc0..9015bfa 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -141,8 +141,9 @@ def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
 
 def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     if not check_pi_commute_Z(g, v): return False
+    g.scalar.add_phase(g.phase(v))
     g.set_phase(v, -g.phase(v))
-    ns = g.neighbors(v)
+    ns = list(g.neighbors(v))
     for w in ns:
         e = g.edge(v, w)
         et = g.edge_type(e)
-- 
2.43.0


From d2ddaa38ef11883e88440eb0fa90a131308d1892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 007/132] fix: remove_id only treats phaseless Z- and X-spiders
 as identities

---
 pyzx/basicrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 9015bfa..c9f005d 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -49,7 +49,7 @@ from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusion, z_to_z_box
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
-                    set_z_box_label, vertex_is_w, vertex_is_z_like, toggle_vertex, toggle_edge)
+                    set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx, toggle_vertex, toggle_edge)
 
 def color_change_diagram(g: BaseGraph[VT,ET]):
     """Color-change an entire diagram by applying Hadamards to the inputs and ouputs."""
@@ -244,7 +244,7 @@ def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
-    elif g.type(v) != VertexType.Z_BOX and g.phase(v) == 0:
+    elif vertex_is_zx(g.type(v)) and g.phase(v) == 0:
         return True
     return False
 
-- 
2.43.0


From 9cedfbc092cfefc6af4768eab00a25b1681f5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 008/132] fix: pushing a Pauli through an arity 3 H-box keeps
 the scalar

---
 pyzx/editor_actions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 25b119f..635c408 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -131,6 +131,7 @@ def pauli_push(g: BaseGraph[VT,ET],
         if not vertex_is_zx(g.type(v)): # v is H_BOX
             if len(new_verts) == 2:
                 etab[upair(new_verts[0],new_verts[1])] = [0,1]
+                g.scalar.add_power(1)
             else:
                 r = (g.row(v) + sum(g.row(n) for n in new_verts)) / (len(new_verts) + 1)
                 q = (g.qubit(v) + sum(g.qubit(n) for n in new_verts))/(len(new_verts)+1)
-- 
2.43.0


From 99f538967bbc239385cc7ccad8d651615e23aff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 009/132] fix: pi_commute puts pi phases on the spiders it
 introduces

---
 pyzx/basicrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index c9f005d..db33b49 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -154,7 +154,8 @@ def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
             g.remove_edge(e)
             c = g.add_vertex(VertexType.X,
                     qubit=0.5*(g.qubit(v) + g.qubit(w)),
-                    row=0.5*(g.row(v) + g.row(w)))
+                    row=0.5*(g.row(v) + g.row(w)),
+                    phase=1)
             g.add_edge((v, c))
             g.add_edge((c, w), edgetype=et)
     return True
-- 
2.43.0


From 68f493b46a622e08c40266b25f4a4b2ca4dd70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 010/132] fix: scalar of the X-spider/H-box bialgebra

---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 635c408..6dbe531 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -274,7 +274,7 @@ def bialgebra(g: BaseGraph[VT,ET],
             g.scalar.add_power((g.vertex_degree(v)-2)*(g.vertex_degree(w)-2))
         else: #g.type(w) == VertexType.H_BOX
             t = VertexType.Z
-            g.scalar.add_power(g.vertex_degree(v)-2)
+            g.scalar.add_power(2-g.vertex_degree(v))
         for n in g.neighbors(w):
             if n == v: continue
             r = 0.6*g.row(w) + 0.4*g.row(n)
-- 
2.43.0


From c36791b5a5d1844e24615893f28f2707018db6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:24 +0000
Subject: [PATCH 011/132] fix: remove_isolated_vertices accounts for Z-box
 labels and leaves W nodes alone

---
 pyzx/graph/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7420213..3b0f9bc 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -16,6 +16,7 @@
 
 import abc
 import math
+import cmath
 import copy
 from fractions import Fraction
 from typing import TYPE_CHECKING, Union, Optional, Generic, TypeVar, Any, Sequence
@@ -778,6 +779,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif ty == VertexType.Z_BOX:
+                    self.scalar.add_float(1 + complex(get_z_box_label(self, v)))
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -785,6 +788,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 w = list(self.neighbors(v))[0]
                 if len(list(self.neighbors(w))) > 1: continue # But this neighbor has other neighbors
                 if self.type(w) == VertexType.BOUNDARY: continue # It's a state/effect
+                if vertex_is_w(self.type(v)) or vertex_is_w(self.type(w)): continue # Not a pair of spiders
                 # At this point w and v are only connected to each other
                 rem.append(v)
                 rem.append(w)
@@ -793,7 +797,15 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if t1==t2:
+                if t1 == VertexType.Z_BOX or t2 == VertexType.Z_BOX:
+                    a, b = (complex(get_z_box_label(self, u)) if self.type(u) == VertexType.Z_BOX
+                            else cmath.exp(1j*cmath.pi*float(self.phase(u))) for u in (v,w))
+                    if (et == EdgeType.SIMPLE) == (vertex_is_z_like(t1) and vertex_is_z_like(t2)):
+                        self.scalar.add_float(1 + a*b)
+                    else:
+                        self.scalar.add_power(-1)
+                        self.scalar.add_float(1 + a + b - a*b)
+                elif t1==t2:
                     if et == EdgeType.SIMPLE:
                         self.scalar.add_node(self.phase(v)+self.phase(w))
                     else:
-- 
2.43.0


From f20e903ed73c99edc9f41857cd46aa6cc5689e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 012/132] fix: from_hypergraph_form only fuses arity 1 H-boxes
 along simple edges

---
 pyzx/hsimplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index f20e572..a049b99 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -118,7 +118,7 @@ def from_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
     for h in hs:
         if g.vertex_degree(h) == 1:
             n = next(iter(g.neighbors(h)))
-            if types[n] == VertexType.Z:
+            if types[n] == VertexType.Z and g.edge_type(g.edge(h,n)) == EdgeType.SIMPLE:
                 g.set_phase(n, phases[n] + phases[h])
                 g.remove_vertex(h)
     hadamard_simp(g,quiet=True)
-- 
2.43.0


From 12ad8163182a0db0de371e657bd434761b6c9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 013/132] fix: parallel NOT rule needs a Z-spider connected to
 the H-box by a simple edge

---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 13d36f4..b51ab28 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -235,6 +235,7 @@ def match_hbox_parallel_not(
             if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
             if not g.connected(v,h): continue
+            if types[v] != VertexType.Z or g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
             if not is_NOT_gate(g,n,h,v):
                 continue
             break
-- 
2.43.0


From 5c0edb1023ee945704534222fa06070af9fa44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 014/132] fix: hyper-pivot keeps the scalar with boundaries and
 with legless H-boxes

---
 pyzx/hrules.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index b51ab28..f04316c 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -551,6 +551,7 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
         e = g.edge(v0, v0b[0])
         g.set_edge_type(e, toggle_edge(g.edge_type(e)))
         v0nn.append([v0])
+        g.scalar.add_power(-1) # The Hadamard pushed onto the boundary wire
     
     if len(v1b) == 0:
         g.remove_vertex(v1)
@@ -558,6 +559,7 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
         e = g.edge(v1, v1b[0])
         g.set_edge_type(e, toggle_edge(g.edge_type(e)))
         v1nn.append((Fraction(1,1), [v1]))
+        g.scalar.add_power(-1)
 
     for phase,ws in v1nn:
         for weight in range(1,len(v0nn)+1):
@@ -567,8 +569,9 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             for vvs in combinations(v0nn, weight):
                 us = tuple(sorted(sum(vvs, ws)))
 
-                # TODO: check if this is the right thing to do (and update scalar)
-                if len(us) == 0: continue
+                if len(us) == 0: # An H-box without legs is just a scalar
+                    g.scalar.add_phase(f_phase)
+                    continue
 
                 # if us in hboxes:
                 #     h0 = hboxes[us]
-- 
2.43.0


From 023423a7dcd9ed2aa2201bdbdb348730b8b76f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:50 +0000
Subject: [PATCH 015/132] fix: hyper-pivot does not connect an H-box to the
 same spider twice

---
 pyzx/hrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index f04316c..d272526 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -567,7 +567,7 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             f_phase = (phase * phase_mult) % 2
             if f_phase == 0: continue
             for vvs in combinations(v0nn, weight):
-                us = tuple(sorted(sum(vvs, ws)))
+                us = tuple(sorted(set(sum(vvs, ws)))) # a spider connected to an H-box twice is connected once
 
                 if len(us) == 0: # An H-box without legs is just a scalar
                     g.scalar.add_phase(f_phase)
-- 
2.43.0


From 18d9d128e4fa7f45be00eb4b886c4f76dc18f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 016/132] fix: intro rule does not match H-boxes connected to a
 spider both directly and via a NOT

---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index d272526..06a8e7c 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -395,6 +395,7 @@ def match_par_hbox_intro(
                     neighbors_NOT.add(w)
                     NOTs.append(v)
         if not suitable: continue
+        if neighbors_regular & neighbors_NOT: continue  # Connected both directly and via a NOT
         group = frozenset(neighbors_regular | neighbors_NOT)
         if group not in groupings: 
             groupings[group] = [(h,NOTs, neighbors_regular, neighbors_NOT, neighbors_single)]
-- 
2.43.0


From cf19040a86aaca2c94fc06bd72ceb0ed294342c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 017/132] fix: graph_to_circuit reads a Hadamard wire between X
 spiders as an XCX gate

---
 pyzx/circuit/graphparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index 1ccea9e..d49349d 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -77,7 +77,7 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                     if g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                         raise TypeError("Invalid vertical connection between vertices of the same type")
                     if t == VertexType.Z: c.add_gate("CZ", q2, q)
-                    else: c.add_gate("CX", q2, q)
+                    else: c.add_gate("XCX", q2, q)
                 else:
                     if g.edge_type(g.edge(v,n)) != EdgeType.SIMPLE:
                         raise TypeError("Invalid vertical connection between vertices of different type")
-- 
2.43.0


From 8121a98e5e935eacd3f92d893e3141732619bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 018/132] fix: lookahead extraction of a diagram that consists
 of wires only

---
 pyzx/extract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/extract.py b/pyzx/extract.py
index c1de2ec..c1f2804 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -1354,6 +1354,8 @@ def lookahead_extract_base(
 
     roots: List[Optional[LookaheadNode]] =\
         [LookaheadNode(g, Circuit(len(inputs)), frontier, qubit_map, gadgets, optimize_for_depth, hard_limit)]
+    if not frontier:  # Every output is directly connected to an input, so there is nothing to expand
+        best_c, best_d = roots[0].get_finished(best_c, best_d, up_to_perm)
 
     while len(roots) > 0:
         rp = RootPicker(nodes_kept)
-- 
2.43.0


From 9baa2ea1cd6e459392a4a37d02fa69300fe5f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 019/132] fix: Mat2.to_cnots of a matrix with a single row

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 994bfea..94e4a5c 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -350,12 +350,12 @@ class Mat2(object):
             cn = CNOTMaker()
             blocksize = 5
             if use_log_blocksize:
-                blocksize = int(math.log2(self.rows()))
+                blocksize = max(1, int(math.log2(self.rows())))
             self.copy().gauss(full_reduce=True,x=cn, blocksize=blocksize)
         else:
             best = 1000000
             best_cn = None
-            for size in range(1,self.rows()):
+            for size in range(1,max(2,self.rows())):
                 cn = CNOTMaker()
                 assert cn is not None
                 self.copy().gauss(full_reduce=True,x=cn, blocksize=size)
-- 
2.43.0


From 7c6ec309daca5d27bf08b26adc014d8e345b8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 020/132] fix: adjoint and repositioning of FSim gates

---
 pyzx/circuit/gates.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index d4972e6..296b5ce 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -824,8 +824,8 @@ class FSim(Gate):
     qsim_name = 'fs'
     print_phase = True
     def __init__(self, control:int, target:int, theta:FractionLike, phi:FractionLike):
-        # TODO: this version assumes theta is always (pi/2)
-        assert theta == Fraction(1, 2)
+        # TODO: this version assumes theta is always (pi/2) or (-pi/2)
+        assert theta in (Fraction(1, 2), Fraction(-1, 2))
         self.control = control
         self.target = target
         self.theta = theta
@@ -843,9 +843,10 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
-    def reposition(self, mask, bit_mask = None):
+    def to_adjoint(self):
         g = self.copy()
-        g.targets = [mask[t] for t in g.targets]
+        g.theta, g.phi = -self.theta, -self.phi
+        g.phases = [g.theta, g.phi]
         return g
 
     def to_basic_gates(self):
@@ -855,7 +856,7 @@ class FSim(Gate):
         return [self]
 
     def to_graph(self, g, q_mapper, _c_mapper):
-        # TODO: this version assumes theta is always (pi/2)
+        # TODO: this version assumes theta is always (pi/2) or (-pi/2)
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         qmin = min(self.target,self.control)
         c0 = self.graph_add_node(g, q_mapper, VertexType.Z, self.control,r)
@@ -873,6 +874,9 @@ class FSim(Gate):
         g.set_phase(c, Fraction(-1,2) * self.phi)
         g.set_phase(t, Fraction(-1,2) * self.phi)
         g.set_phase(pg1, (Fraction(1,2) * self.phi) - Fraction(1,2))
+        if self.theta == Fraction(-1, 2):
+            g.add_to_phase(c, 1)
+            g.add_to_phase(t, 1)
 
         g.add_edge((c, pg0), EdgeType.HADAMARD)
         g.add_edge((t, pg0), EdgeType.HADAMARD)
-- 
2.43.0


From 999468ac7b7bd1c34f7891eb7288028e4d3a2406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 021/132] fix: repositioning an RZZ gate moves its control and
 target

---
 pyzx/circuit/gates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 296b5ce..4858cc4 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -818,6 +818,11 @@ class RZZ(ParityPhase):
         self.targets = (control, target)
         self.phase = phase
 
+    def reposition(self, mask, bit_mask = None):
+        g = super().reposition(mask, bit_mask)
+        g.control, g.target = g.targets
+        return g
+
 
 class FSim(Gate):
     name = 'FSim'
-- 
2.43.0


From ada9399d10b04de22327643f05f948b1ccdff0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 022/132] fix: adjoint of the U2, U3, CU3, CU and CSX gates

---
 pyzx/circuit/gates.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 4858cc4..57593fe 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -463,6 +463,11 @@ class CSX(Gate):
                CPhase(self.control,self.target,Fraction(1,2)).to_basic_gates() + \
                [HAD(self.target)]
 
+    def to_adjoint(self):
+        g = CU(self.control, self.target, Fraction(-1,2), Fraction(-1,2), Fraction(1,2), Fraction(-1,4))
+        g.index = self.index
+        return g
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -1065,6 +1070,12 @@ class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
         self.phi = phi
         self.phases = [theta, phi]
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi = 1 - self.phi, 1 - self.theta
+        g.phases = [g.theta, g.phi]
+        return g
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=(self.phi-Fraction(1,2))%2),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1085,6 +1096,12 @@ class U3(Gate):  # See equation (5) of https://arxiv.org/pdf/1707.03429.pdf
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi, g.rho = -self.theta, -self.rho, -self.phi
+        g.phases = [g.theta, g.phi, g.rho]
+        return g
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=self.rho),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1109,6 +1126,12 @@ class CU3(Gate):
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi, g.rho = -self.theta, -self.rho, -self.phi
+        g.phases = [g.theta, g.phi, g.rho]
+        return g
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=(self.rho+self.phi)/2),
                 ZPhase(self.target, phase=(self.rho-self.phi)/2),
@@ -1137,6 +1160,12 @@ class CU(Gate):
         self.gamma = gamma
         self.phases = [theta, phi, rho, gamma]
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi, g.rho, g.gamma = -self.theta, -self.rho, -self.phi, -self.gamma
+        g.phases = [g.theta, g.phi, g.rho, g.gamma]
+        return g
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=self.gamma)] + \
                CU3(self.control,self.target,self.theta,self.phi,self.rho).to_basic_gates()
-- 
2.43.0


From 7863938e753490b246abb57525664e3e8c3a4ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 023/132] fix: comparison of U2, U3, CU3 and CU gates looks at
 their parameters

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 57593fe..117b868 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","adjoint"]:
+        for a in ["target","control","phase","phases","adjoint"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
-- 
2.43.0


From 5bf35364cd13fee8f03f3720a06014dd304917dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 024/132] fix: equal measurement gates compare equal

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 117b868..50f257e 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1227,7 +1227,7 @@ class Measurement(Gate):
         if not isinstance(other, Measurement): return False
         if self.target != other.target: return False
         if self.result_bit != other.result_bit: return False
-        return False
+        return True
 
     def reposition(self, mask, bit_mask = None):
         g = self.copy()
-- 
2.43.0


From ebeee389c8e418dad0ef523c15867ad5696ceddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 025/132] fix: tensor product of circuits keeps the classical
 bits

---
 pyzx/circuit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 1d349bf..e234bc5 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -185,7 +185,7 @@ class Circuit(object):
             other = c2
         if not isinstance(other,Circuit):
             raise Exception("Cannot tensor type", type(other), "to Circuit")
-        c = Circuit(self.qubits + other.qubits)
+        c = Circuit(self.qubits + other.qubits, bit_amount=self.bits + other.bits)
         c.gates = [g.copy() for g in self.gates]
         mask = [i+self.qubits for i in range(other.qubits)]
         bit_mask = [i+self.bits for i in range(other.bits)]
-- 
2.43.0


From eceb6432ad28672cf48e8c549cf4dc0415f4c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 026/132] fix: QASM parser accepts any white space and gate
 names ending in 'gate'

---
 pyzx/circuit/qasmparser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index a92341e..8d0b351 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -67,8 +67,9 @@ class QASMParser(object):
         data = "\n".join(r)
         # Strip the custom command definitions from the normal commands
         while True:
-            i = data.find("gate ")
-            if i == -1: break
+            match = re.search(r"\bgate\s", data)
+            if match is None: break
+            i = match.start()
             j = data.find("}", i)
             self.parse_custom_gate(data[i:j+1])
             data = data[:i] + data[j+1:]
@@ -93,8 +94,8 @@ class QASMParser(object):
                                 " not supported: {}".format(data))
             spec = spec[:i] + spec[j+1:]
         spec = spec.strip()
-        if " " in spec:
-            name, args = spec.split(" ",1)
+        if len(spec.split(None, 1)) == 2:
+            name, args = spec.split(None, 1)
             name = name.strip()
             args = args.strip()
         else:
@@ -124,7 +125,7 @@ class QASMParser(object):
             c = re.sub(r"^qubit\[(\d+)] (\w+)$", r"qreg \2[\1]", c)
             c = re.sub(r"^(\w+)\[(\d+)] = measure (\w+)\[(\d+)]$", r"measure \3[\4] -> \1[\2]", c)
         right_bracket = c.find(")")
-        name, rest = c.split(" ", 1) if right_bracket == -1\
+        name, rest = c.split(None, 1) if right_bracket == -1\
             else [c[:right_bracket+1], c[right_bracket+1:]]
         args = [s.strip() for s in rest.split(",") if s.strip()]
         left_bracket = name.find('(')
@@ -134,7 +135,7 @@ class QASMParser(object):
                 raise TypeError(f"Mismatched bracket: {name}.")
             vals = name[left_bracket+1:right_bracket].split(',')
             phases = [self.parse_phase_arg(val) for val in vals]
-            name = name[:left_bracket]
+            name = name[:left_bracket].strip()
         return name, phases, args
 
     def parse_command(self, c: str, registers: Dict[str,Tuple[int,int]]) -> List[Gate]:
@@ -145,6 +146,7 @@ class QASMParser(object):
             raise TypeError("Unsupported operation {}".format(c))
         if name == "qreg":
             regname, sizep = args[0].split("[",1)
+            regname = regname.strip()
             size = int(sizep[:-1])
             registers[regname] = (self.qubit_count, size)
             self.qubit_count += size
@@ -155,6 +157,7 @@ class QASMParser(object):
         for a in args:
             if "[" in a:
                 regname, valp = a.split("[",1)
+                regname = regname.strip()
                 val = int(valp[:-1])
                 if regname not in registers: raise TypeError("Invalid register {}".format(regname))
                 qubit_values.append([registers[regname][0]+val])
-- 
2.43.0


From 1871c71a52c5be09d62f68c5f9de2e9112cc3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 027/132] fix: QASM parser evaluates products and quotients in
 parameters

---
 pyzx/circuit/qasmparser.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 8d0b351..9411335 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -230,21 +230,20 @@ class QASMParser(object):
         except ValueError:
             if val.find('pi') == -1: raise TypeError("Invalid specification {}".format(val))
             try:
-                val = val.replace('pi', '')
-                val = val.replace('*','')
-                if val.find('/') != -1:
-                    n, d = val.split('/',1)
-                    n = n.strip()
-                    if not n: n = 1
-                    elif n == '-': n = -1
-                    else: n = int(n)
-                    d = int(d.strip())
-                    phase = Fraction(n,d)
-                else:
-                    val = val.strip()
-                    if not val: phase = 1
-                    elif val == '-': phase = -1
-                    else: phase = float(val)
+                # a product of numbers with exactly one factor pi, like -3*pi/4
+                phase, op, pis = Fraction(1), '*', 0
+                for tok in re.split(r"([*/])", val):
+                    tok = tok.strip()
+                    if tok in ('*', '/'):
+                        op = tok
+                        continue
+                    if tok.endswith('pi'):
+                        pis += 1 if op == '*' else -1
+                        tok = tok[:-2].strip()
+                        if tok in ('', '+', '-'): tok += '1'
+                    factor = Fraction(tok)
+                    phase = phase * factor if op == '*' else phase / factor
+                if pis != 1: raise ValueError(val)
             except: raise TypeError("Invalid specification {}".format(val))
         phase = Fraction(phase).limit_denominator(100000000)
         return phase
-- 
2.43.0


From a402192d3b53ba4235575487e0f03d5ef6598c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:26 +0000
Subject: [PATCH 028/132] fix: qsim square root of W rotates about the axis X+Y

---
 pyzx/circuit/qsimparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index e614fd0..41fe19c 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -40,9 +40,9 @@ def parse_qsim(data: str) -> Circuit:
             phase = float(gdesc[3]) / math.pi
             gates.append(ZPhase(target = q, phase = Fraction(phase)))
         elif gdesc[1] == 'hz_1_2':
-            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
-            gates.append(XPhase(target = q, phase = Fraction(1,2)))
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
+            gates.append(XPhase(target = q, phase = Fraction(1,2)))
+            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
         elif gdesc[1] == 'x_1_2':
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
         elif gdesc[1] == 'y_1_2':
-- 
2.43.0


From ba6beb8219d6a16c71f43b73ce5ca92351525033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 029/132] fix: QASM files are recognised by their content

---
 pyzx/circuit/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index e234bc5..2157276 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -538,6 +538,8 @@ def determine_file_type(circuitfile: str) -> str:
         f.close()
         if data.startswith('Inputs:'):
             return "quipper"
+        if data.find('OPENQASM') != -1:
+            return "qasm"
         if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
             return "qc"
         if data.find('QASM') != -1:
-- 
2.43.0


From 25592fbb71ea63b17d2f4ff207c6ab233a0e60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 030/132] fix: QASM gate calls with an empty parameter list

---
 pyzx/circuit/qasmparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 9411335..8c6ecd3 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -134,7 +134,8 @@ class QASMParser(object):
             if right_bracket == -1:
                 raise TypeError(f"Mismatched bracket: {name}.")
             vals = name[left_bracket+1:right_bracket].split(',')
-            phases = [self.parse_phase_arg(val) for val in vals]
+            if ''.join(vals).strip():
+                phases = [self.parse_phase_arg(val) for val in vals]
             name = name[:left_bracket].strip()
         return name, phases, args
 
-- 
2.43.0


From 73fcc568d41525ced0a8a09f9de0187da304d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 031/132] fix: CSWAP is not printed as CCZ in .qc and Quipper

---
 pyzx/circuit/gates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 50f257e..1ffb6d1 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1006,6 +1006,7 @@ class CCZ(Gate):
         q_mapper.set_next_row(self.ctrl2, r+1)
 
     def to_quipper(self):
+        if self.quipper_name == 'undefined': return super().to_quipper()
         s = 'QGate["{}"]({!s})'.format(self.quipper_name,self.target)
         s += ' with controls=[+{!s},+{!s}]'.format(self.ctrl1,self.ctrl2)
         s += ' with nocontrol'
@@ -1041,6 +1042,8 @@ class Tofolli(CCZ):
 class CSWAP(CCZ):
     name = 'CSWAP'
     qasm_name = 'cswap'
+    qc_name = 'undefined'
+    quipper_name = 'undefined'
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, CSWAP): return False
-- 
2.43.0


From d6b601e8b5b193bc20ae328e9ac86c3ca28ae321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 032/132] fix: Quipper's controlled X is a CNOT, not an XCX

---
 pyzx/circuit/gates.py         | 2 +-
 pyzx/circuit/quipperparser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 1ffb6d1..3739151 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -623,7 +623,7 @@ class XCX(CZ):
     name = 'XCX'
     qasm_name = 'undefined'
     qc_name = 'undefined'
-    quipper_name = 'X'
+    quipper_name = 'undefined'
     def to_graph(self, g, q_mapper, _c_mapper):
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         t = self.graph_add_node(g, q_mapper, VertexType.X, self.target, r)
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 348e47c..bd03cc6 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -110,7 +110,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         ctrl = int(ctrls[1:])
         if gname == "not": c.add_gate("CNOT", ctrl, t)
         elif gname == "Z": c.add_gate("CZ", ctrl, t)
-        elif gname == "X": c.add_gate("CX", ctrl, t)
+        elif gname == "X": c.add_gate("CNOT", ctrl, t)
         else:
             raise TypeError("Unsupported controlled gate: " + gname)
     return c
-- 
2.43.0


From 213e4c27f533bb5d05177fa00d7d945df65fbf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 033/132] fix: SX, Y and YPhase survive a round trip through
 Quipper

---
 pyzx/circuit/gates.py         | 7 ++++++-
 pyzx/circuit/quipperparser.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 3739151..c7c0b0a 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -415,7 +415,7 @@ class XPhase(Gate):
         strings[self.target].append(s)
 
     def to_quipper(self):
-        if not self.print_phase:
+        if self.quipper_name != 'XPhase':
             return super().to_quipper()
         return 'QRot["exp(-i%X)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
 
@@ -494,6 +494,11 @@ class YPhase(Gate):
     def to_basic_gates(self):
         return [ZPhase(self.target, Fraction(1,2)), XPhase(self.target, -self.phase), ZPhase(self.target, -Fraction(1,2))]
 
+    def to_quipper(self):
+        if not self.print_phase:
+            return super().to_quipper()
+        return str(self)
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index bd03cc6..fd7ff37 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -54,6 +54,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 gtype = "ZPhase"
             elif gate[i+4:i+8] == '-i%X':
                 gtype = "XPhase"
+            elif gate[i+4:i+8] == '-i%Y':
+                gtype = "YPhase"
             else:
                 raise TypeError("Unsupported expression: " + gate) 
             val = gate[gate.find(',')+1: gate.find(']')]
@@ -79,6 +81,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         if len(l) == 1 or (len(l) == 2 and l[1].find("nocontrol") != -1):  # no controls
             if gname == "H": c.add_gate("HAD", t)
             elif gname == "not": c.add_gate("NOT", t)
+            elif gname == "Y": c.add_gate("Y", t)
             elif gname == "Z": c.add_gate("Z", t)
             elif gname == "S": c.add_gate("S", t, adjoint=adjoint)
             elif gname == "T": c.add_gate("T", t, adjoint=adjoint)
-- 
2.43.0


From 8ed425f549000bf2b9d8533d56a310d50ab7ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 034/132] fix: SX adjoint and Y survive a round trip through
 .qc

---
 pyzx/circuit/gates.py    | 4 ++--
 pyzx/circuit/qcparser.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index c7c0b0a..f51a47c 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -260,8 +260,6 @@ class Gate(object):
 
     def to_qc(self) -> str:
         n = self.qc_name
-        if hasattr(self, "adjoint") and self.adjoint:
-            n += "*"
         if n == 'undefined':
             if isinstance(self, (ZPhase, XPhase)):
                 bg = self.split_phases()
@@ -272,6 +270,8 @@ class Gate(object):
                 if len(bg) == 1:
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             return "\n".join(g.to_qc() for g in bg)
+        if hasattr(self, "adjoint") and self.adjoint:
+            n += "*"
         args = []
         for a in ["ctrl1","ctrl2", "control", "target"]:
             if hasattr(self, a): args.append("q{:d}".format(getattr(self,a)))
diff --git a/pyzx/circuit/qcparser.py b/pyzx/circuit/qcparser.py
index adf82d3..66b34b7 100644
--- a/pyzx/circuit/qcparser.py
+++ b/pyzx/circuit/qcparser.py
@@ -50,6 +50,7 @@ def parse_qc(data: str) -> Circuit:
         if len(targets) == 1:
             t = targets[0]
             if gname in ('tof', 't1', 'not', 'x'): gates.append(NOT(t))
+            elif gname == 'y': gates.append(Y(t))
             elif gname == 'z': gates.append(Z(t))
             elif gname in ('s', 'p'): gates.append(S(t))
             elif gname in ('s*', 'p*'): gates.append(S(t,adjoint=True))
-- 
2.43.0


From b00663d396649e815edfab6915a2bb44251de3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 035/132] fix: phase gates are split according to their phase
 modulo 2

---
 pyzx/circuit/gates.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index f51a47c..71ba5d1 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -338,8 +338,9 @@ class ZPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List['ZPhase']:
-        if not self.phase: return []
-        if self.phase == 1: return [Z(self.target)]
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [Z(self.target)]
         if self.phase.denominator == 2:
             if self.phase.numerator % 4 == 1:
                 return [S(self.target)]
@@ -423,8 +424,9 @@ class XPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List[Gate]:
-        if not self.phase: return []
-        if self.phase == 1: return [NOT(self.target)]
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [NOT(self.target)]
         gates: List[Gate] = [HAD(self.target)]
         if self.phase.denominator == 2:
             if self.phase.numerator % 4 == 1:
-- 
2.43.0


From 7ad26a9e778ed40fe32165e6e806e4366c71cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:17 +0000
Subject: [PATCH 036/132] fix: one-qubit parity phase gates can be printed

---
 pyzx/circuit/gates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 71ba5d1..547ff17 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -226,7 +226,7 @@ class Gate(object):
         n = self.quipper_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and type(bg[0]) is type(self):
                 raise TypeError("Gate {} doesn't have a Quipper description".format(str(self)))
             return "\n".join(g.to_quipper() for g in bg)
         s = 'QGate["{}"]{}({!s})'.format(n,
@@ -241,7 +241,7 @@ class Gate(object):
         n = self.qasm_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and type(bg[0]) is type(self):
                 raise TypeError("Gate {} doesn't have a QASM description".format(str(self)))
             return "\n".join(g.to_qasm() for g in bg)
         if hasattr(self, "adjoint") and self.adjoint:
@@ -267,7 +267,7 @@ class Gate(object):
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             else:
                 bg = self.to_basic_gates()
-                if len(bg) == 1:
+                if len(bg) == 1 and type(bg[0]) is type(self):
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             return "\n".join(g.to_qc() for g in bg)
         if hasattr(self, "adjoint") and self.adjoint:
-- 
2.43.0


From 336037a25ae5995a50c4322c8cd9c15e02bacf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:12 +0000
Subject: [PATCH 037/132] fix: numeric Z-box labels can be read back from JSON

---
 pyzx/graph/jsonparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e2bb638..de84da3 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -113,7 +113,7 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
             if key == 'coord':
                 continue
             elif key == 'label':
-                if type(value) != complex:
+                if isinstance(value, str) and g.type(v) == VertexType.Z_BOX:
                     value = string_to_phase(value,g)
             g.set_vdata(v, key, value)
 
-- 
2.43.0


From 71a88bfa1370342caa6db9d4624af17dba64ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:12 +0000
Subject: [PATCH 038/132] fix: scalars with a complex factor can be written to
 JSON

---
 pyzx/graph/scalar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7d9e2a9..43b6679 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -180,14 +180,15 @@ class Scalar(object):
 
     def to_json(self) -> str:
         d = {"power2": self.power2, "phase": str(self.phase)}
-        if abs(self.floatfactor - 1) > 0.00001:
-            d["floatfactor"] =  self.floatfactor
+        if self.floatfactor != 1:
+            f = complex(self.floatfactor)
+            d["floatfactor"] = [f.real, f.imag] if f.imag else f.real
         if self.phasenodes:
             d["phasenodes"] = [str(p) for p in self.phasenodes]
         if self.is_zero:
             d["is_zero"] = self.is_zero
         if self.is_unknown:
-            d["is_unknown"] = self.is_unknown,
+            d["is_unknown"] = self.is_unknown
         return json.dumps(d)
 
     @classmethod
@@ -196,6 +197,8 @@ class Scalar(object):
         d["phase"] = Fraction(d["phase"])
         if "phasenodes" in d:
             d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+        if isinstance(d.get("floatfactor"), list):
+            d["floatfactor"] = complex(*d["floatfactor"])
         scalar = Scalar()
         scalar.__dict__.update(d)
         return scalar
-- 
2.43.0


From fb22897eddade5fd35e509226997b77294b5c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:12 +0000
Subject: [PATCH 039/132] fix: strings that look like real numbers stay strings
 when JSON is read

---
 pyzx/graph/jsonparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index de84da3..7fcdc75 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -332,12 +332,16 @@ class ComplexEncoder(json.JSONEncoder):
         return super().default(obj)
 
 class ComplexDecoder(json.JSONDecoder):
+    # How Python prints a complex number; other strings that complex() accepts, like '3' or 'nan', stay strings
+    _complex = re.compile(r'\(?[-+0-9.e]*[0-9]j\)?')
+
     def __init__(self, *args, **kwargs):
         json.JSONDecoder.__init__(self, object_hook=self.object_hook, *args, **kwargs)
 
     def object_hook(self, dct):
         for k, v in dct.items():
             if isinstance(v, str):
+                if not self._complex.fullmatch(v): continue
                 try:
                     dct[k] = complex(v)
                 except ValueError:
-- 
2.43.0


From 252da28dd61e4377484ad0e67550876eb8de3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:12 +0000
Subject: [PATCH 040/132] fix: phases with a large denominator are written
 exactly to JSON

---
 pyzx/graph/jsonparser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 7fcdc75..a63f9be 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -70,6 +70,12 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         except Exception as e:
             raise ValueError(e)
 
+def phase_to_json(phase: FractionLike) -> str:
+    """Like ``phase_to_s``, but never rounds the phase."""
+    if isinstance(phase, Fraction) and phase.denominator > 256:
+        return f"{phase.numerator}\u03c0/{phase.denominator}"
+    return phase_to_s(phase)
+
 def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
     """Converts the json representation of a .qgraph Quantomatic graph into
     a pyzx graph."""
@@ -231,10 +237,10 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
                 if type(zbox_label) == Fraction:
-                    zbox_label = phase_to_s(zbox_label)
+                    zbox_label = phase_to_json(zbox_label)
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
-            phase = phase_to_s(g.phase(v))
+            phase = phase_to_json(g.phase(v))
             if phase: node_vs[name]["data"]["value"] = phase
             if g.is_ground(v):
                 node_vs[name]["data"]["ground"] = True
-- 
2.43.0


From 016ae3774ef44d8d47977a161efde55a2c894927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:12 +0000
Subject: [PATCH 041/132] fix: vertices that share a name keep separate
 identities in JSON

---
 pyzx/graph/jsonparser.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index a63f9be..b58b22f 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -17,7 +17,7 @@
 import json
 import re
 from fractions import Fraction
-from typing import List, Dict, Any, Optional, Callable, Union, TYPE_CHECKING
+from typing import List, Dict, Set, Any, Optional, Callable, Union, TYPE_CHECKING
 
 from ..utils import FractionLike, EdgeType, VertexType, phase_to_s
 from .graph import Graph
@@ -191,23 +191,24 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
     wire_vs: Dict[str, Dict[str, Any]] = {}
     edges: Dict[str, Dict[str, str]] = {}
     names: Dict[VT, str] = {}
-    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges())]
-    freenamesb = ["b"+str(i) for i in range(g.num_vertices())]
+    freenamesv = ["v"+str(i) for i in range(2*g.num_vertices()+g.num_edges())]
+    freenamesb = ["b"+str(i) for i in range(2*g.num_vertices())]
+    # Names that vertices ask for are kept as long as they are unique
+    given = {str(g.vdata(v, 'name')) for v in g.vertices()}
+    freenamesv = [name for name in freenamesv if name not in given]
+    freenamesb = [name for name in freenamesb if name not in given]
+    used: Set[str] = set()
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
         t = g.type(v)
         coord = [round(g.row(v),3),round(-g.qubit(v),3)]
         name = g.vdata(v, 'name')
-        if not name:
+        name = str(name) if name else ''
+        if not name or name in used:
             if t == VertexType.BOUNDARY: name = freenamesb.pop(0)
             else: name = freenamesv.pop(0)
-        else:
-            try:
-                freenamesb.remove(name) if t==VertexType.BOUNDARY else freenamesv.remove(name)
-            except:
-                pass
-
+        used.add(name)
         names[v] = name
         if t == VertexType.BOUNDARY:
             wire_vs[name] = {"annotation":{"boundary":True,"coord":coord}}
-- 
2.43.0


From 9ec4d8015c3cd1de1e06393f1ef409a73930aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:12 +0000
Subject: [PATCH 042/132] fix: symbolic polynomials with negative coefficients
 or powers can be parsed from their printed form

---
 pyzx/symbolic.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 152b888..de0f84e 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -336,14 +336,17 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 
 poly_grammar = Lark("""
     start      : "(" start ")" | term ("+" term)*
-    term       : (intf | frac)? factor ("*" factor)*
-    ?factor    : intf | frac | pi | pifrac | var
-    var        : CNAME
-    intf       : INT
+    term       : (intf | frac | floatf)? factor ("*" factor)*
+    ?factor    : intf | frac | floatf | pi | pifrac | var
+    var        : CNAME ["^" INT]
+    intf       : NUM
+    floatf     : FLOAT
     pi         : "\\pi" | "pi"
-    frac       : INT "/" INT
-    pifrac     : [INT] pi "/" INT
+    frac       : NUM "/" NUM
+    pifrac     : [NUM] pi "/" NUM
 
+    NUM        : /-?[0-9]+/
+    FLOAT.2    : /-?[0-9]+(\\.[0-9]+(e[-+]?[0-9]+)?|e[-+][0-9]+)/
     %import common.INT
     %import common.CNAME
     %import common.WS
@@ -365,8 +368,8 @@ class PolyTransformer(Transformer):
         return reduce(mul, items)
 
     def var(self, items: List[Any]) -> Poly:
-        v = str(items[0])
-        return self._new_var(v)
+        v = self._new_var(str(items[0]))
+        return v if items[1] is None else v ** int(items[1])
 
     def pi(self, _: List[Any]) -> Poly:
         return new_const(1)
@@ -374,6 +377,9 @@ class PolyTransformer(Transformer):
     def intf(self, items: List[Any]) -> Poly:
         return new_const(int(items[0]))
 
+    def floatf(self, items: List[Any]) -> Poly:
+        return Poly([(float(items[0]), Term([]))])
+
     def frac(self, items: List[Any]) -> Poly:
         return new_const(Fraction(int(items[0]), int(items[1])))
 
-- 
2.43.0


From 1298472f411ece0a9b811fff2730d624d9b7bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:54 +0000
Subject: [PATCH 043/132] fix: Hadamard edges at a boundary stay connected in
 TikZ

---
 pyzx/tikz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2372726..2233902 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -113,6 +113,9 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 t = "        \\node [style={:s}] ({:d}) at ({:.2f}, {:.2f}) {{}};".format(settings.tikz_classes['H'],maxindex+1, x,y)
                 verts.append(t)
                 maxindex += 1
+                edges.append("        \\draw ({:d}) to ({:d});".format(v+idoffset,maxindex))
+                edges.append("        \\draw ({:d}) to ({:d});".format(maxindex,w+idoffset))
+                continue
         elif et == EdgeType.W_IO:
             style = settings.tikz_classes['W-io-edge']
             if style: s += "[style={:s}] ".format(style)
@@ -137,7 +140,7 @@ def to_tikz_sequence(graphs:List[BaseGraph], draw_scalar:bool=False, maxwidth:Fl
     idoffset = 0
     total_verts, total_edges = [],[]
     for g in graphs:
-        max_index = max(g.vertices()) + 2*g.num_inputs() + 2
+        max_index = max(g.vertices(), default=0) + 2*(g.num_inputs() + g.num_outputs()) + 2
         verts, edges = _to_tikz(g,draw_scalar,xoffset,yoffset,idoffset)
         total_verts.extend(verts)
         total_edges.extend(edges)
-- 
2.43.0


From 7ac90c80a06c5193b71f7f98ae5360debb6812a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:54 +0000
Subject: [PATCH 044/132] fix: Z-box labels and integer phases can be read back
 from TikZ

---
 pyzx/tikz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2233902..fe38d44 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -84,9 +84,10 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 if ty==VertexType.Z: style = settings.tikz_classes['Z']
                 else: style = settings.tikz_classes['X']
         if ((ty == VertexType.H_BOX or ty == VertexType.Z_BOX) and p == 1) or\
-            (ty != VertexType.H_BOX and p == 0):
+            (ty not in (VertexType.H_BOX, VertexType.Z_BOX) and p == 0):
             phase = ""
-        elif type(p) == Fraction:
+        elif type(p) == Fraction or (type(p) == int and p != 0 and ty != VertexType.Z_BOX):
+            p = Fraction(p)
             ns = '' if p.numerator == 1 else str(p.numerator)
             dn = '' if p.denominator == 1 else str(p.denominator)
             if dn: phase = r"$\frac{%s\pi}{%s}$" % (ns, dn)
@@ -293,7 +294,7 @@ def tikz_to_graph(
             else:
                 label = label.replace(r'\pi','').strip()
                 if label == '' or label == '-' or label == '-1':
-                    set_phase(v,1)
+                    set_phase(v,-1 if label and ty == VertexType.Z_BOX else 1)
                 elif label.find(r'\frac') != -1:
                     label = label.replace(r'\frac','').strip()
                     if label.find('}{') == -1:
-- 
2.43.0


From 9cf1fee1c86cf7522c3a9e9f9654359f5edd1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 045/132] fix: a multigraph that reduces parallel edges and
 loops keeps the scalar and the number of edges right

---
 pyzx/graph/multigraph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e3eaf1a..71aff9f 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -178,6 +178,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             t1 = self.ty[s]
             t2 = self.ty[t]
             if (vertex_is_zx_like(t1) and vertex_is_zx_like(t2)):
+                self.nedges -= e.s + e.h
                 if s == t: # turn self-loops in pi phases
                     e.s = 0
                     if e.h % 2 == 1:
@@ -188,17 +189,18 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                     self.scalar.add_power(-e.h)
                     e.h = 0
                 else: # apply spider and hopf to merge/cancel parallel edges
-                    if t1 == t2:
+                    if vertex_is_z_like(t1) == vertex_is_z_like(t2):
                         e.s = 1 if e.s > 0 else 0
-                        self.scalar.add_power(-2 * (e.h - (e.h % 2)))
+                        self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
                     else:
                         e.h = 1 if e.h > 0 else 0
-                        self.scalar.add_power(-2 * (e.s - (e.s % 2)))
+                        self.scalar.add_power(-(e.s - (e.s % 2)))
                         e.s = e.s % 2
+                self.nedges += e.s + e.h
             if e.is_empty():
                 del self.graph[s][t]
-                del self.graph[t][s]
+                if s != t: del self.graph[t][s]
 
         return (s,t, edgetype) if s <= t else (t,s,edgetype)
 
-- 
2.43.0


From b3c541b3bdef44ff3e67834a0fed51b3e65be5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 046/132] fix: a multigraph counts W edges in degrees and
 numbers of edges

---
 pyzx/graph/multigraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 71aff9f..1e5078d 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -210,7 +210,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             # remove all edges
             for v1 in vs:
                 e = self.graph[v][v1]
-                self.nedges -= e.s + e.h
+                self.nedges -= e.s + e.h + e.w_io
                 del self.graph[v][v1]
                 if v != v1: del self.graph[v1][v]
             # remove the vertex
@@ -323,6 +323,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         for e in self.graph[vertex].values():
             d += e.s
             d += e.h
+            d += e.w_io
         return d
 
     def incident_edges(self, vertex):
-- 
2.43.0


From e8c8de0a286a52c853322e680db404398d3f8d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 047/132] fix: the edges that edge() returns on a multigraph
 can be removed and changed

---
 pyzx/graph/multigraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 1e5078d..849449d 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -239,7 +239,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             self.remove_edge(e)
 
     def remove_edge(self, edge):
-        s,t,ty = edge
+        s,t,ty = edge if len(edge) == 3 else (*edge, self.edge_type(edge))
         e = self.graph[s][t]
         if ty == EdgeType.SIMPLE: e.remove(s=1)
         elif ty == EdgeType.HADAMARD: e.remove(h=1)
@@ -343,7 +343,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return e[2]
 
     def set_edge_type(self, edge, t):
-        v1,v2,ty = edge
+        v1,v2,ty = edge if len(edge) == 3 else (*edge, self.edge_type(edge))
         if ty != t:
             e = self.graph[v1][v2]
             # decrement the old type and increment the new type
-- 
2.43.0


From 8e061a23cff0a2e5b07090b4bbd63c906c643013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 048/132] fix: a clone of a graph is complete and independent
 of the original

---
 pyzx/graph/graph_s.py    |  5 ++++-
 pyzx/graph/multigraph.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 902479c..325d932 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -56,7 +56,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
@@ -65,6 +65,9 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy.phase_master = self.phase_master
         cpy.phase_mult = self.phase_mult.copy()
         cpy.max_phase_index = self.max_phase_index
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
+        cpy._grounds = self._grounds.copy()
         return cpy
 
     def vindex(self): return self._vindex
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 849449d..ba4afb9 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -84,7 +84,10 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
     def clone(self) -> 'Multigraph':
         cpy = Multigraph()
         for v, d in self.graph.items():
-            cpy.graph[v] = d.copy()
+            cpy.graph[v] = dict()
+            for w, e in d.items():
+                # Both endpoints of an edge share its Edge object
+                cpy.graph[v][w] = cpy.graph[w][v] if w in cpy.graph and w != v else Edge(e.s, e.h, e.w_io)
         cpy._vindex = self._vindex
         cpy.nedges = self.nedges
         cpy.ty = self.ty.copy()
@@ -93,7 +96,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
@@ -101,7 +104,11 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy.phase_index = self.phase_index.copy()
         cpy.phase_master = self.phase_master
         cpy.phase_mult = self.phase_mult.copy()
+        cpy._auto_simplify = self._auto_simplify
         cpy.max_phase_index = self.max_phase_index
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
+        cpy._grounds = self._grounds.copy()
         return cpy
 
     def set_auto_simplify(self, s: bool):
-- 
2.43.0


From fbf0dd0cf3d2295f1c6ff093748ef59338e21a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 049/132] fix: a copy of a graph keeps the types of its
 variables

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 3b0f9bc..58560ff 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -153,6 +153,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.track_phases = self.track_phases
         g.scalar = self.scalar.copy(conjugate=adjoint)
         g.merge_vdata = self.merge_vdata
+        g.variable_types = self.variable_types.copy()
         mult:int = 1
         if adjoint:
             mult = -1
-- 
2.43.0


From 4406e11e700be84876680252cc4515903ec2735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 050/132] fix: self-loops and lists of edges are reduced like
 single edges

---
 pyzx/graph/graph_s.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 325d932..f5827db 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -118,13 +118,26 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def add_edges(self, edge_pairs, edgetype=EdgeType.SIMPLE):
         for s,t in edge_pairs:
-            self.nedges += 1
-            self.graph[s][t] = edgetype
-            self.graph[t][s] = edgetype
-    
+            if (s == t or t in self.graph[s]) and vertex_is_zx_like(self.ty[s]) and vertex_is_zx_like(self.ty[t]):
+                self.add_edge((s,t), edgetype)
+            else:
+                self.nedges += 1
+                self.graph[s][t] = edgetype
+                self.graph[t][s] = edgetype
+
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
-        if not t in self.graph[s]:
+        if s == t:
+            ty = self.ty[s]
+            if not vertex_is_zx_like(ty):
+                raise ValueError(f'Attempted to add unreducible self-loop {edge_pair}, type: {ty}')
+            if edgetype == EdgeType.HADAMARD: # a Hadamard self-loop is a pi phase
+                if ty == VertexType.Z_BOX:
+                    set_z_box_label(self, s, get_z_box_label(self, s) * -1)
+                else:
+                    self.add_to_phase(s, 1)
+                self.scalar.add_power(-1)
+        elif not t in self.graph[s]:
             self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
-- 
2.43.0


From a176b6435af70a0a2e54e52c6eb7b1a63661e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 051/132] fix: merging and extracting subgraphs keeps vertex
 data, and merge returns the new edges

---
 pyzx/graph/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 58560ff..07495d8 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -383,14 +383,14 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         vert_map = dict()
         edges = []
-        for v in other.vertices():
-            w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+        for v in list(other.vertices()):
+            w = self.add_vertex(ty[v],qs.get(v,-1),rs.get(v,-1),phase[v],v in grounds)
+            for k in other.vdata_keys(v): self.set_vdata(w, k, other.vdata(v, k))
             vert_map[v] = w
-        for e in other.edges():
+        for e in list(other.edges()):
             s,t = other.edge_st(e)
             f = (vert_map[s],vert_map[t])
-            self.add_edge(f,other.edge_type(e))
-            edges.append(e)
+            edges.append(self.add_edge(f,other.edge_type(e)))
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -412,7 +412,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         vert_map = dict()
         for v in verts:
-            w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = g.add_vertex(ty[v],qs.get(v,-1),rs.get(v,-1),phase[v],v in grounds)
+            for k in self.vdata_keys(v): g.set_vdata(w, k, self.vdata(v, k))
             vert_map[v] = w
         for e in edges:
             s,t = self.edge_st(e)
-- 
2.43.0


From 7a65f968969942415f53e1a76c433d9c217c9ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 052/132] fix: a Hadamard wire is not an identity wire

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 07495d8..8166d58 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -540,6 +540,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         for i in range(len(inputs)):
             if not self.connected(inputs[i], outputs[i]): return False
+            if self.edge_type(self.edge(inputs[i], outputs[i])) != EdgeType.SIMPLE: return False
         return True
 
     def vindex(self) -> VT:
-- 
2.43.0


From 49a94af90b357be8a5e54488ca620a1d04c254de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 053/132] fix: composing diagrams whose outputs (or inputs) are
 connected to each other

A cup among the outputs of the first diagram, or a cap among the inputs of
the second, made compose() raise a KeyError or give a wrong diagram.
---
 pyzx/graph/base.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 8166d58..324fb0a 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -273,14 +273,29 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         if len(outputs) != len(inputs):
             raise TypeError("Outputs of first graph must match inputs of second.")
 
-        plugs: List[Tuple[VT,VT,EdgeType]] = []
-        for k in range(len(outputs)):
-            o = outputs[k]
-            i = inputs[k]
+        for o, i in zip(outputs, inputs):
             if len(self.neighbors(o)) != 1:
                 raise ValueError("Bad output vertex: " + str(o))
             if len(other.neighbors(i)) != 1:
                 raise ValueError("Bad input vertex: " + str(i))
+
+        # Outputs that are connected to each other (and likewise inputs) vanish in the
+        # composition, so put a vertex that remains in the middle of their wire.
+        for g, boundary in ((self, outputs), (other, inputs)):
+            for v in boundary:
+                w = next(iter(g.neighbors(v)))
+                if w not in boundary: continue
+                e = g.edge(v,w)
+                et = g.edge_type(e)
+                g.remove_edge(e)
+                u = g.add_vertex(VertexType.Z, g.qubit(v), g.row(v))
+                g.add_edge((v,u), et)
+                g.add_edge((u,w), EdgeType.SIMPLE)
+
+        plugs: List[Tuple[VT,VT,EdgeType]] = []
+        for k in range(len(outputs)):
+            o = outputs[k]
+            i = inputs[k]
             no = next(iter(self.neighbors(o)))
             ni = next(iter(other.neighbors(i)))
             plugs.append((no, ni, EdgeType.HADAMARD
-- 
2.43.0


From dcf258b389e5ef8e0181fb695c4fa2e0ce86bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 054/132] fix: tensor product keeps the grounds of its second
 factor and does not share its vertex data

---
 pyzx/graph/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 324fb0a..a7af120 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -343,11 +343,10 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         height = max((self.qubits().values()), default=0) + 1
         rs = other.rows()
         phases = other.phases()
-        vdata = other._vdata
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],g.is_ground(v))
-            if v in vdata: g._vdata[w] = vdata[v]
+            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],other.is_ground(v))
+            for k in other.vdata_keys(v): g.set_vdata(w, k, other.vdata(v, k))
             vertex_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-- 
2.43.0


From 48b3ba15cebbb40180e2224116184e7cc5099f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 055/132] fix: compose copies vertex data through the graph
 interface

---
 pyzx/graph/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index a7af120..5cf04b9 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -320,7 +320,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                         qubit=other.qubit(v),
                         row=offset + other.row(v),
                         ground=other.is_ground(v))
-                if v in other._vdata: self._vdata[w] = other._vdata[v]
+                for key in other.vdata_keys(v): self.set_vdata(w, key, other.vdata(v, key))
                 vtab[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-- 
2.43.0


From 8db3fab953bb0bb4a4d09655f0d1166a0b0ef515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 056/132] fix: adjoint conjugates the labels of Z-boxes

---
 pyzx/graph/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 5cf04b9..30610e1 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -174,6 +174,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             vtab[v] = i
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
+            if adjoint and ty[v] == VertexType.Z_BOX:
+                set_z_box_label(g, i, get_z_box_label(self, v).conjugate())
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
-- 
2.43.0


From d9bf3668a87379c62cfd9ea7b547234d52815f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 057/132] fix: apply_state and apply_effect keep the boundaries
 they are given no state for

---
 pyzx/graph/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 30610e1..d40896c 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -463,6 +463,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown input state " + s)
+        new_inputs.extend(inputs[len(state):])
         self.set_inputs(tuple(new_inputs))
 
     def apply_effect(self, effect: str) -> None:
@@ -490,6 +491,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown output effect " + s)
+        new_outputs.extend(outputs[len(effect):])
         self.set_outputs(tuple(new_outputs))
 
     def to_tensor(self, preserve_scalar:bool=True) -> np.ndarray:
-- 
2.43.0


From 94f028e56412c949914aace5ecd3ef8664da9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 058/132] fix: normalize a diagram without inputs, or with
 outputs connected to each other

A state had its boundary detected anew from positions, which permutes its
outputs or fails.
---
 pyzx/graph/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index d40896c..c95c012 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -612,7 +612,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
     def normalize(self) -> None:
         """Puts every node connecting to an input/output at the correct qubit index and row."""
-        if self.num_inputs() == 0:
+        if self.num_inputs() == 0 and self.num_outputs() == 0:
             self.auto_detect_io()
         max_r = self.depth() - 1
         if max_r <= 2:
@@ -642,7 +642,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             self.set_row(o,max_r+1)
             self.set_qubit(o,q)
             n = list(self.neighbors(o))[0]
-            if n not in claimed:
+            if n not in claimed and self.type(n) != VertexType.BOUNDARY:
                 self.set_row(n,max_r)
                 self.set_qubit(n, q)
             else:
-- 
2.43.0


From 20cabc1339930f0eb0d6cdcbfcc2aa2a8fdf53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 059/132] fix: adjoint of Z-boxes leaves labels that are not
 complex numbers alone

---
 pyzx/graph/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index c95c012..b18e8ca 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -175,7 +175,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
             if adjoint and ty[v] == VertexType.Z_BOX:
-                set_z_box_label(g, i, get_z_box_label(self, v).conjugate())
+                label = get_z_box_label(self, v)
+                if isinstance(label, complex): set_z_box_label(g, i, label.conjugate())
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
-- 
2.43.0


From d037aa5ed4181e31e5c06d38de1ad1920c95ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 060/132] fix: tensor of an X spider without legs

It had a dangling index, so that diagrams with isolated X spiders could
not be converted to a tensor.
---
 pyzx/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 1e931fc..75b40b7 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -60,8 +60,7 @@ def Z_to_tensor(arity: int, phase: float) -> np.ndarray:
 def X_to_tensor(arity: int, phase: float) -> np.ndarray:
     m = np.ones(2**arity, dtype = complex)
     if arity == 0:
-        m[()] = 1 + np.exp(1j*phase)
-        return m
+        return np.array(1 + np.exp(1j*phase))
     for i in range(2**arity):
         if bin(i).count("1")%2 == 0:
             m[i] += np.exp(1j*phase)
-- 
2.43.0


From 81589e5a72b88af274e98f3bba17e6e0ca479f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 061/132] fix: tensor of a diagram whose vertices have not been
 given rows

---
 pyzx/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 75b40b7..701702c 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -102,7 +102,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     Beware that quantum circuits take exponential memory to represent."""
     if g.is_hybrid():
         raise ValueError("Hybrid graphs are not supported.")
-    rows = g.rows()
+    rows = {v: g.row(v) for v in g.vertices()}
     phases = g.phases()
     types = g.types()
     depth = g.depth()
-- 
2.43.0


From 66ff645a43e5feb7f7afee6e317e0ae3737253bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 062/132] fix: tensor of a diagram with parallel edges, loops,
 or Hadamard edges at a W node

On the multigraph backend every edge now counts; and Hadamard edges are
again the last ones when a vertex also has a W_IO edge.
---
 pyzx/tensor.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 701702c..ba87478 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -130,7 +130,12 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
 
     for i,r in enumerate(sorted(verts_row.keys())):
         for v in sorted(verts_row[r]):
-            neigh = list(g.neighbors(v))
+            neigh = []  # neighbors with the type of the edge, once for every parallel edge
+            loops = []
+            for e in g.incident_edges(v):
+                es, et = g.edge_st(e)
+                if es == et: loops.append(g.edge_type(e))
+                else: neigh.append((et if es == v else es, g.edge_type(e)))
             d = len(neigh)
             if v in inputs:
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
@@ -142,29 +147,32 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                 t = id2
             else:
                 p = phases[v]
+                arity = d + 2*len(loops)
                 if isinstance(p, Poly):
                     raise ValueError(f"Can't convert diagram with parameters to tensor: {str(p)}")
                 phase = pi*p
                 if types[v] == VertexType.Z:
-                    t = Z_to_tensor(d,phase)
+                    t = Z_to_tensor(arity,phase)
                 elif types[v] == VertexType.X:
-                    t = X_to_tensor(d,phase)
+                    t = X_to_tensor(arity,phase)
                 elif types[v] == VertexType.H_BOX:
-                    t = H_to_tensor(d,phase)
+                    t = H_to_tensor(arity,phase)
                 elif types[v] == VertexType.W_INPUT or types[v] == VertexType.W_OUTPUT:
                     if phase != 0: raise ValueError("Phase on W node")
-                    t = W_to_tensor(d)
+                    t = W_to_tensor(arity)
                 elif types[v] == VertexType.Z_BOX:
                     if phase != 0: raise ValueError("Phase on Z box")
                     label = get_z_box_label(g, v)
-                    t = Z_box_to_tensor(d, label)
+                    t = Z_box_to_tensor(arity, label)
                 else:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
-            nn = list(filter(lambda n: rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
-            ety = {n:g.edge_type(g.edge(v,n)) for n in nn}
-            nn.sort(key=lambda n: ety[n])
-            for n in nn:
-                if ety[n] == EdgeType.HADAMARD:
+                for ty in loops:
+                    t = np.tensordot(t, had if ty == EdgeType.HADAMARD else id2, ((0,1),(0,1)))
+            done = [(n,ty) for n,ty in neigh if rows[n]<r or (rows[n]==r and n<v)] # TODO: allow ordering on vertex indices?
+            done.sort(key=lambda p: p[1] == EdgeType.HADAMARD)
+            nn = [n for n,_ in done]
+            for _,ty in done:
+                if ty == EdgeType.HADAMARD:
                     t = np.tensordot(t,had,(0,0)) # Hadamard edges are moved to the last index of t
             contr = pop_and_shift(nn,indices) #the last indices in contr correspond to hadamard contractions
             tensor = np.tensordot(tensor,t,axes=(contr,list(range(len(t.shape)-len(contr),len(t.shape)))))
-- 
2.43.0


From 6033c4cf51ae996bfbea1090ad5c9ede9f9c5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 063/132] fix: compare_tensors on tensors of different shape,
 with small entries, or with rounding errors

Tensors of different shape could be broadcast against each other, tensors
with entries below 1e-8 were always reported equal, and a rounding error
could be picked as the reference entry.
---
 pyzx/tensor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index ba87478..9041904 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -227,16 +227,16 @@ def compare_tensors(t1: TensorConvertible,t2: TensorConvertible, preserve_scalar
         t1 = t1.to_tensor(preserve_scalar)
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar)
-    if np.allclose(t1,t2): return True
-    if preserve_scalar: return False # We do not check for equality up to scalar
+    if t1.shape != t2.shape: return False
+    if preserve_scalar: return np.allclose(t1,t2) # We do not check for equality up to scalar
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return False
-            break
-    else:
+    if np.allclose(t1,t2,atol=epsilon): return True
+    i = int(np.argmax(np.abs(t1))) # Compare relative to the largest entry, since small ones may be rounding errors
+    a, b = t1.flat[i], t2.flat[i]
+    if abs(a) <= epsilon:
         raise ValueError("Tensor is too close to zero")
-    return np.allclose(t1/a,t2/t2.flat[i])
+    if abs(b) < epsilon: return False
+    return np.allclose(t1/a,t2/b)
 
 def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> complex:
     """Returns the complex number ``z`` such that ``t1 = z*t2``.
-- 
2.43.0


From 15c8d4eaf400e716b77b5a6dfb5f6c508fd79922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 064/132] fix: find_scalar_correction uses the largest entry; a
 map between different numbers of qubits is not unitary

---
 pyzx/tensor.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 9041904..45dbef7 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -253,12 +253,9 @@ def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> compl
         t2 = t2.to_tensor(preserve_scalar=True)
 
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return 0
-            return a/t2.flat[i]
-
-    return 0
+    i = int(np.argmax(np.abs(t2))) # the largest entry, since small ones may be rounding errors
+    if abs(t2.flat[i]) <= epsilon: return 0
+    return t1.flat[i]/t2.flat[i]
 
 
 def compose_tensors(t1: np.ndarray, t2: np.ndarray) -> np.ndarray:
@@ -311,6 +308,7 @@ def adjoint(t: np.ndarray) -> np.ndarray:
 def is_unitary(g: 'BaseGraph') -> bool:
     """Returns whether the given ZX-graph is equal to a unitary (up to a number)."""
     from .generate import identity # Imported here to prevent circularity
+    if g.num_inputs() != g.num_outputs(): return False
     adj = g.adjoint()
     adj.compose(g)
     return compare_tensors(adj.to_tensor(), identity(len(g.inputs()),2).to_tensor(), False)
-- 
2.43.0


From f93de06c46140e9346dd3aeed4dfdd864e132d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 065/132] fix: quimb network of a diagram with isolated
 vertices, a zero scalar, or on the multigraph backend

---
 pyzx/quimb.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 3ddc8a3..57ca4fb 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -56,7 +56,7 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
 
     # Here we have phase tensors corresponding to Z-spiders with only one output and no input.
     for v in g.vertices():
-        if g.type(v) == VertexType.Z and g.phase(v) != 0:
+        if g.type(v) == VertexType.Z and (g.phase(v) != 0 or g.vertex_degree(v) == 0):
             phase = g.phase(v)
             if isinstance(phase, Poly):
                 raise NotImplementedError("Quimb does not support symbolic phases")
@@ -67,16 +67,13 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
 
     # Hadamard or Kronecker tensors, one for each edge of the diagram.
     for i, edge in enumerate(g.edges()):
-        x, y = edge
+        x, y = g.edge_st(edge)
         isHadamard = g.edge_type(edge) == EdgeType.HADAMARD
         t = qtn.Tensor(data = qu.hadamard() if isHadamard else np.array([1, 0, 0, 1]).reshape(2, 2),
                        inds = (f'{x}', f'{y}'),
                        tags = ("H",) if isHadamard else ("N",))
         tensors.append(t)
 
-    # TODO: This is not taking care of all the stuff that can be in g.scalar
-    # In particular, it doesn't check g.scalar.phasenodes
-    # TODO: This will give the wrong tensor when g.scalar.is_zero == True.
     # Grab the float factor and exponent from the scalar
     phase = g.scalar.phase
     if isinstance(phase, Poly):
@@ -86,6 +83,7 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
         if isinstance(node, Poly):
             raise NotImplementedError("Quimb does not support symbolic phases")
         scalar_float *= 1 + np.exp(1j * np.pi * node)
+    if g.scalar.is_zero: scalar_float = 0.0
     scalar_exp = math.log10(math.sqrt(2)) * g.scalar.power2
 
     # If the TN is empty, create a single 0-tensor with scalar factor, otherwise
-- 
2.43.0


From ad23d815769b09a791c72e93dd9b6199873862b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 066/132] fix: tensor of a diagram with wires between inputs,
 or with inputs that are not in the first rows

---
 pyzx/tensor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 45dbef7..7c790a1 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -126,7 +126,13 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     inputs = tuple(inputs)
     indices = {}
     for i, v in enumerate(inputs):
+        if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
         indices[v] = [1 + 2*i]
+    for e in g.edges():
+        s, t = g.edge_st(e)
+        if s in inputs and t in inputs: # A wire between two inputs
+            m = had if g.edge_type(e) == EdgeType.HADAMARD else id2
+            tensor = np.tensordot(tensor,m,axes=(pop_and_shift([s,t],indices),[0,1]))
 
     for i,r in enumerate(sorted(verts_row.keys())):
         for v in sorted(verts_row[r]):
@@ -138,7 +144,6 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                 else: neigh.append((et if es == v else es, g.edge_type(e)))
             d = len(neigh)
             if v in inputs:
-                if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
                 continue # inputs already taken care of
             if v in outputs:
                 if d != 1: raise ValueError("Weird output")
@@ -168,7 +173,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
                 for ty in loops:
                     t = np.tensordot(t, had if ty == EdgeType.HADAMARD else id2, ((0,1),(0,1)))
-            done = [(n,ty) for n,ty in neigh if rows[n]<r or (rows[n]==r and n<v)] # TODO: allow ordering on vertex indices?
+            done = [(n,ty) for n,ty in neigh if n in inputs or rows[n]<r or (rows[n]==r and n<v)] # TODO: allow ordering on vertex indices?
             done.sort(key=lambda p: p[1] == EdgeType.HADAMARD)
             nn = [n for n,_ in done]
             for _,ty in done:
-- 
2.43.0


From 89125e05fb1b14348c74c7869b542e4d2d2743c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 067/132] fix: scalar of a pair of connected spiders with
 opposite or unreduced phases

---
 pyzx/graph/scalar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 43b6679..226e2f5 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -240,6 +240,7 @@ class Scalar(object):
         # These if statements look quite arbitrary, but they are just calculations of the scalar
         # of a pair of connected single wire spiders of opposite colors.
         # We make special cases for Clifford phases and pi/4 phases.
+        p1, p2 = p1 % 2, p2 % 2
         if p2 in (0,1):
             p1,p2 = p2, p1
         if p1 == 0:
@@ -268,7 +269,7 @@ class Scalar(object):
                     self.add_phase(Fraction(1))
                 return
             self.add_power(1)
-            self.add_float(math.cos(p1))
+            self.add_float(math.cos(math.pi*p1))
             return
         # Generic case
         self.add_power(-1)
-- 
2.43.0


From d2a1faf3e4d54a184171cb3f1605cc8e6e809e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 068/132] fix: LaTeX and unicode forms of a scalar show all of
 its factors

---
 pyzx/graph/scalar.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 226e2f5..facd6da 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -131,7 +131,7 @@ class Scalar(object):
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
         elif abs(f-1) > 0.0001: #f \neq 1
-            s += str(self.floatfactor)
+            s += str(f)
         if self.power2 != 0:
             s += r"\sqrt{{2}}^{{{:d}}}".format(self.power2)
         if self.phase not in (0,1):
@@ -158,12 +158,11 @@ class Scalar(object):
             f *= -1
             phase -= 1
 
-        if abs(f+1) > 0.001 and abs(f-1) > 0.001:
-            return str(f)
-
         s = ""
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
+        elif abs(f-1) > 0.0001: #f \neq 1
+            s += str(f)
         if self.power2 != 0:
             s += r"√2"
             if self.power2 < 0:
-- 
2.43.0


From 6f6b4e7a25e613b5e86a57dc1d7b2fead81a2b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 069/132] fix: scalars with symbolic phases can be read back
 from JSON

---
 pyzx/graph/jsonparser.py |  2 +-
 pyzx/graph/scalar.py     | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index b58b22f..59446a0 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -178,7 +178,7 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         edges[e] = amount
 
     if "scalar" in j:
-        g.scalar = Scalar.from_json(j["scalar"])
+        g.scalar = Scalar.from_json(j["scalar"], g.variable_types)
     g.add_edge_table(edges)
 
     return g
diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index facd6da..2f6d691 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -20,11 +20,11 @@ import math
 import cmath
 import copy
 from fractions import Fraction
-from typing import List
+from typing import Dict, List, Optional
 import json
 
 from ..utils import FloatInt, FractionLike
-from ..symbolic import Poly
+from ..symbolic import Poly, new_var, parse
 
 __all__ = ['Scalar']
 
@@ -191,11 +191,22 @@ class Scalar(object):
         return json.dumps(d)
 
     @classmethod
-    def from_json(cls, s: str) -> 'Scalar':
+    def from_json(cls, s: str, variable_types: Optional[Dict[str, bool]] = None) -> 'Scalar':
+        """Reads a scalar written by ``to_json``. ``variable_types`` says which of the
+        variables of symbolic phases are Boolean; it is extended with the ones it lacks."""
+        types: Dict[str, bool] = {} if variable_types is None else variable_types
+        def variable(name: str) -> Poly:
+            types.setdefault(name, False)
+            return new_var(name, types)
+        def read_phase(p: str) -> FractionLike:
+            try:
+                return Fraction(p)
+            except ValueError:
+                return parse(p, variable)
         d = json.loads(s)
-        d["phase"] = Fraction(d["phase"])
+        d["phase"] = read_phase(d["phase"])
         if "phasenodes" in d:
-            d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+            d["phasenodes"] = [read_phase(p) for p in d["phasenodes"]]
         if isinstance(d.get("floatfactor"), list):
             d["floatfactor"] = complex(*d["floatfactor"])
         scalar = Scalar()
-- 
2.43.0


From 7ecda85af29946ec41cee545244889435a2f2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 070/132] fix: coefficients of real variables are not reduced
 modulo 2

---
 pyzx/symbolic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index de0f84e..87f109c 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -227,7 +227,14 @@ class Poly:
         return self * (self ** (other - 1))
 
     def __mod__(self, other: int) -> 'Poly':
-        return Poly([(c % other, t) for c, t in self.terms if not isinstance(c, complex)])
+        """Reduces the coefficients of the terms that only take integer values."""
+        terms = []
+        for c, t in self.terms:
+            if not isinstance(c, complex) and all(v.is_bool and k >= 0 for v, k in t.vars):
+                c = c % other
+            if c != 0:
+                terms.append((c, t))
+        return Poly(terms)
 
     def __repr__(self) -> str:
         return f'Poly({str(self)})'
-- 
2.43.0


From becb548d7840dcfddf463f7810498d5c3720dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:25 +0000
Subject: [PATCH 071/132] fix: a zero scalar can be converted to a complex
 number

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 2f6d691..aefbbc2 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -110,7 +110,7 @@ class Scalar(object):
         return self.copy(conjugate=True)
 
     def to_number(self) -> complex:
-        if self.is_zero: return 0
+        if self.is_zero: return 0j
         val = cexp(self.phase)
         for node in self.phasenodes: # Node should be a Fraction
             val *= 1+cexp(node)
-- 
2.43.0


From 0b2dd513b66d492721dda4eaca0201198dffeab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:27 +0000
Subject: [PATCH 072/132] fix: the zero polynomial is printed as 0

---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 87f109c..0ab161f 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -248,7 +248,7 @@ class Poly:
                 ts.append(f'{t}')
             else:
                 ts.append(f'{c}{t}')
-        return ' + '.join(ts)
+        return ' + '.join(ts) if ts else '0'
 
     def __eq__(self, other: object) -> bool:
         if isinstance(other, (int, float, Fraction)):
-- 
2.43.0


From d3376950767c2ecada7c363084acc31b0a185beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 073/132] fix: a CNOT tracker follows every CNOT that is added,
 and leaves the circuit it is made from alone

---
 pyzx/routing/parity_maps.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index f14c885..5c9dbd8 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -66,18 +66,17 @@ class CNOT_tracker(Circuit):
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
         self.add_gate("CNOT", q0, q1)
-        self.matrix.row_add(q0, q1)
 
     def add_gate(self, gate: Union[Gate,str], *args, **kwargs):
+        if isinstance(gate, str):
+            gate = gate_types[gate](*args, **kwargs)
+        super().add_gate(gate)
         if isinstance(gate, CNOT):
-            self.row_add(gate.control, gate.target)
-        else:
-            super().add_gate(gate, *args, **kwargs)
+            self.matrix.row_add(gate.control, gate.target)
 
     def col_add(self, q0: int, q1: int):
         """Track a column addition operation on the matrix"""
         self.prepend_gate("CNOT", q1, q0)
-        self.matrix.col_add(q0, q1)
 
     @staticmethod
     def get_metric_names() -> List[str]:
@@ -105,6 +104,8 @@ class CNOT_tracker(Circuit):
             gate_class = gate_types[gate]
             gate = gate_class(*args, **kwargs)
         self.gates.insert(0, gate)
+        if isinstance(gate, CNOT):
+            self.matrix.col_add(gate.target, gate.control)
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
@@ -115,7 +116,7 @@ class CNOT_tracker(Circuit):
     @staticmethod
     def from_circuit(circuit: Circuit) -> "CNOT_tracker":
         new_circuit = CNOT_tracker(circuit.qubits, name=circuit.name)
-        new_circuit.gates = circuit.gates
+        new_circuit.gates = circuit.gates.copy()
         new_circuit.update_matrix()
         return new_circuit
 
-- 
2.43.0


From 8a26a5143408ff4840ef12eb9eb18b0968bbfb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 074/132] fix: architectures on the multigraph backend, or
 whose vertices are not numbered consecutively

---
 pyzx/routing/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 28fbfce..d697388 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -218,9 +218,9 @@ class Architecture():
         number_of_nodes = len(vertices)
         discovery_times = [-1]*number_of_nodes
         lows: List[int] = [len(vertices)*2]*number_of_nodes
-        index_lookup = {self.vertices[v]:i for i, v in enumerate(vertices)}
+        index_lookup = {v:i for i, v in enumerate(vertices)}
         self.dfs_counter = 0
-        edges = [e for e in self.graph.edges() if e[0] in vertices and e[1] in vertices]
+        edges = [(v1, v2) for v1, v2 in map(self.graph.edge_st, self.graph.edges()) if v1 in vertices and v2 in vertices]
         edges += [(v2, v1) for v1, v2 in edges]
         cutting = [False] * number_of_nodes
         parent = [-1] * number_of_nodes
-- 
2.43.0


From 56511bf43c2eab20bdaeb37898fdefc9ac108f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 075/132] fix: shortest_path searches breadth first

---
 pyzx/routing/architecture.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index d697388..6a03e5f 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -330,11 +330,10 @@ class Architecture():
   
         while queue != []: 
             
-            node, path = queue.pop() 
+            node, path = queue.pop(0)
             if node == end:
                 return path
-            edges = [edge for edge in self.graph.edges() if node in edge]
-            neighbors = [n for edge in edges for n in edge if n != node and n in nodes]
+            neighbors = [n for n in self.graph.neighbors(node) if n in nodes]
             for new_node in neighbors: 
                 if new_node not in visited: 
                     queue.append((new_node, path + [new_node]))
-- 
2.43.0


From 25717f675cf8bb5f66976daf60b1b195d4dc1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 076/132] fix: Steiner trees on architectures whose qubits are
 not numbered like the vertices

---
 pyzx/routing/architecture.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 6a03e5f..05dc421 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -129,8 +129,9 @@ class Architecture():
             until indicates the number of qubits to consider, for "full" the distance is calculated only between qubits with index <= until),
             and for "upper" the distance is calculated only between qubits with index >= until)
         """
-        return {"upper": [self.floyd_warshall(self.vertices[until:], upper=True) for until, v in enumerate(self.vertices)],
-                "full": [self.floyd_warshall(self.vertices[:until+1], upper=False) for until, v in enumerate(self.vertices)]}
+        vertices = [self.qubit2vertex(q) for q in range(self.n_qubits)]
+        return {"upper": [self.floyd_warshall(vertices[until:], upper=True) for until in range(self.n_qubits)],
+                "full": [self.floyd_warshall(vertices[:until+1], upper=False) for until in range(self.n_qubits)]}
 
     def _get_reduce_order(self) -> List[int]:
         vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
@@ -363,14 +364,14 @@ class Architecture():
         target_nodes = set(self.qubit2vertex(q) for q in qubits_to_use)
 
         # Check that all nodes are valid and that there are no duplicates
-        assert all(n >= root if upper else n <= root for n in target_nodes)
+        assert all(q >= start_qubit if upper else q <= start_qubit for q in qubits_to_use)
         assert len(qubits_to_use) == len(set(qubits_to_use))
         
         # The vertices and edges of the generated tree
         tree_vertices: Set[int] = {root}
         edges: Set[Tuple[int,int]] = set()
         # Map with all distances between nodes with index <= root (if not upper) or index >= root (if upper), and the corresponding shortest paths
-        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][root] if upper else self.distances["full"][root]
+        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][start_qubit] if upper else self.distances["full"][start_qubit]
         # Nodes that are not yet in the tree
         remaining_nodes = set(n for n in target_nodes if n != root)
         # Non-target nodes added to the tree
@@ -409,7 +410,8 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited]
+            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited
+                         and (upper or self.vertex2qubit(v) < self.vertex2qubit(node))]
 
             for v in neighbors:
                 queue.append(v)
-- 
2.43.0


From c1af2c192b6b12ac0aa2f24d7e051a00e76b0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 077/132] fix: transposing an architecture leaves the qubits of
 the original in place

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 05dc421..36f7bec 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -480,7 +480,7 @@ class Architecture():
     def transpose(self):
         # TODO make a transposed copy of self
         qubit_map = list(reversed(self.qubit_map))
-        arch = Architecture(self.name + "_transpose", coupling_graph=self.graph, qubit_map=qubit_map)
+        arch = Architecture(self.name + "_transpose", coupling_graph=self.graph.clone(), qubit_map=qubit_map)
         return arch
         
     def arities(self) -> List[Tuple[int, int]]:
-- 
2.43.0


From 553bf32fbd784fc233a81a66d9beb1312220adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 078/132] fix: random architectures of a given density can be
 created

---
 pyzx/routing/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 36f7bec..6e0a63e 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -790,24 +790,24 @@ def create_dynamic_density_architecture(n_qubits, density_prob=0.1, backend=None
     vertices = graph.add_vertices(n_qubits)
     for v,u in itertools.combinations(vertices, 2):
         if np.random.rand() < density_prob:
-            graph.add_edge(v,u)
+            graph.add_edge((v,u))
     # Make sure it is connected
     to_explore = set(vertices)
     explored = set()
     while to_explore:
         # Pick a random root
-        root = np.random.choice(tuple(to_explore))
+        root = int(np.random.choice(tuple(to_explore)))
         if explored:
             # Add an edge to the explored component
-            v = np.random.choice(tuple(explored))
-            graph.add_edge(root, v)
+            v = int(np.random.choice(tuple(explored)))
+            graph.add_edge((root, v))
         to_explore.remove(root)
         explored.add(root)
         # Mark the connected component as explored
         queue = [root]
         while queue:
             v = queue.pop(0)
-            for u in v.neighbors:
+            for u in graph.neighbors(v):
                 if u in to_explore:
                     to_explore.remove(u)
                     explored.add(u)
-- 
2.43.0


From f12668105e081775a344b37b4c9fa7d7b01110a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 079/132] fix: a coupling matrix adds every edge of the
 architecture once

---
 pyzx/routing/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 6e0a63e..b919f67 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -84,8 +84,8 @@ class Architecture():
             # build the architecture graph
             n = coupling_matrix.shape[0]
             self.graph.add_vertices(n)
-            edges = [(row, col) for row in range(n) for col in range(n) if
-                     coupling_matrix[row, col] == 1]
+            edges = [(row, col) for row in range(n) for col in range(row, n) if
+                     coupling_matrix[row, col] == 1 or coupling_matrix[col, row] == 1]
             self.graph.add_edges(edges)
         self.vertices = list(self.graph.vertices())
 
-- 
2.43.0


From 1fb075b856d574bf2faf4b84672ba5aa65d5f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:11 +0000
Subject: [PATCH 080/132] fix: steiner_gauss fully reduces a matrix

---
 pyzx/routing/steiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 4e28321..00b2481 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -68,6 +68,7 @@ def steiner_gauss(
                     row_add(s1, s0)
                     if debug:
                         print(matrix[s0, col], matrix[s1, col])
+        else:
             if (
                 next_check is not None and matrix[next_check[0], col] == 0
             ):  # root is zero
-- 
2.43.0


From 3cd048975db1e9ab6ed40e09c6b4bc97fbfd3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 081/132] fix: the CNOT depth of a tracker

---
 pyzx/routing/parity_maps.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 5c9dbd8..c230a2f 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -51,17 +51,12 @@ class CNOT_tracker(Circuit):
 
     def cnot_depth(self) -> int:
         """Returns the CNOT/CZ depth of the tracked circuit."""
-        depth = 1
-        previous_gates: List[int] = []
+        depths = [0] * self.n_qubits
         for g in self.gates:
             if hasattr(g, "name") and g.name in ["CNOT", "CZ"]:
-                if g.control in previous_gates or g.target in previous_gates:  # type: ignore # Overlapping gate
-                    # Start a new CNOT layer
-                    previous_gates = []
-                    depth += 1
-                else:
-                    previous_gates += [g.control, g.target]  # type: ignore
-        return depth
+                layer = max(depths[g.control], depths[g.target]) + 1  # type: ignore
+                depths[g.control] = depths[g.target] = layer  # type: ignore
+        return max(depths, default=0)
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-- 
2.43.0


From 0bc6fc02f50accad0397eac8db7e11785d933b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 082/132] fix: gauss returns the rank in Steiner mode

---
 pyzx/routing/cnot_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/cnot_mapper.py b/pyzx/routing/cnot_mapper.py
index 690998d..5c172d2 100644
--- a/pyzx/routing/cnot_mapper.py
+++ b/pyzx/routing/cnot_mapper.py
@@ -205,7 +205,7 @@ def gauss(
                 "with type",
                 type(matrix.data),
             )
-        rank = 0  # TODO: The rank is not being computed here
+        rank = matrix.rank()
     elif mode == ElimMode.GENETIC_STEINER_MODE:
         perm, circuit, rank = permuted_gauss(
             matrix,
-- 
2.43.0


From be187fa9ef91f806e2823367177ffb5e4f815259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 083/132] fix: a genetic search over part of an order returns
 the whole order

---
 pyzx/routing/machine_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index 87c24bb..bd8af16 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -83,7 +83,7 @@ class GeneticAlgorithm:
         for _ in range(n_generations):
             self._update_population(n_child)
         if partial_solution and initial_order is not None:
-            return self.population[0] + initial_order[n_qubits:]
+            return list(self.population[0][0]) + list(initial_order[n_qubits:])
         return self.population[0][0]
 
     def _add_children(self, children):
-- 
2.43.0


From 4bc5e186d46199c2ab9272ac9b89cef5f306968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 084/132] fix: Gaussian elimination of a permuted matrix

---
 pyzx/routing/cnot_mapper.py | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/pyzx/routing/cnot_mapper.py b/pyzx/routing/cnot_mapper.py
index 5c172d2..95f9920 100644
--- a/pyzx/routing/cnot_mapper.py
+++ b/pyzx/routing/cnot_mapper.py
@@ -161,31 +161,10 @@ def gauss(
         mode = ElimMode.GAUSS_MODE
 
     if mode == ElimMode.GAUSS_MODE:
-        # TODO - adjust to get the right gate locations for the given permutation.
-
         if permutation is not None:
-            # print("\033[91m Warning: Permutation parameter with Gauss-Jordan elimination is not yet supported, it can be optimized with permuted_gauss(). \033[0m ")
-            # return matrix.gauss(**kwargs)
-            # Broken code that tries to implement this.
-            matrix = Mat2([[row[i] for i in permutation] for row in matrix.data])
-            old_x, old_y = None, None
-            if "x" in kwargs:
-                old_x = kwargs["x"]
-            if "y" in kwargs:
-                old_y = kwargs["y"]
-            n_qubits = len(matrix.data)
-            x = CNOT_tracker(n_qubits)
-            kwargs["x"] = x
-            kwargs["y"] = None
-            rank = matrix.gauss(**kwargs)
-            # for gate in x.gates:
-            #    #c = permutation[gate.control]
-            #    #t = permutation[gate.target]
-            #    if old_x != None: old_x.row_add(c, t)
-            #    if old_y != None: old_y.col_add(t, c)
-            # return rank
-        else:
-            rank = matrix.gauss(**kwargs)
+            matrix.permute_rows(permutation)
+            matrix.permute_cols(permutation)
+        rank = matrix.gauss(**kwargs)
     elif mode == ElimMode.STEINER_MODE:
         if architecture is None:
             print(
-- 
2.43.0


From 7f0554db1f73fbc1031670e9988c40487f5a6ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 085/132] fix: the wiring of a large CNOT tracker stays within
 its QASM comment

---
 pyzx/routing/parity_maps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index c230a2f..b72d01e 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -104,8 +104,8 @@ class CNOT_tracker(Circuit):
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
-        initial_perm = "// Initial wiring: " + str(self.row_perm)
-        end_perm = "// Resulting wiring: " + str(self.col_perm)
+        initial_perm = "// Initial wiring: " + str([int(q) for q in self.row_perm])
+        end_perm = "// Resulting wiring: " + str([int(q) for q in self.col_perm])
         return "\n".join([initial_perm, end_perm, qasm])
 
     @staticmethod
-- 
2.43.0


From f6a6eefce9d8d6b66df3c191ca01bc3ca8205df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:18 +0000
Subject: [PATCH 086/132] fix: recursive Steiner elimination works on every
 architecture whose qubits are numbered in depth-first order

---
 pyzx/routing/architecture.py | 22 ++++++++++++----------
 pyzx/routing/steiner.py      | 17 +++++------------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index b919f67..c09d6bf 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -133,17 +133,19 @@ class Architecture():
         return {"upper": [self.floyd_warshall(vertices[until:], upper=True) for until in range(self.n_qubits)],
                 "full": [self.floyd_warshall(vertices[:until+1], upper=False) for until in range(self.n_qubits)]}
 
-    def _get_reduce_order(self) -> List[int]:
-        vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
-        # Pick leaf with largest label every time.
+    def _get_reduce_order(self, subgraph: Optional[List[int]] = None) -> List[int]:
+        qubits = sorted(range(len(self.vertices)) if subgraph is None else subgraph, reverse=True) # sort qubits from large to small
+        # The larger neighbors of every qubit: along these every qubit should remain connected to the largest one.
+        larger = {q: {r for r in self.get_neighboring_qubits(q) if r > q and r in qubits} for q in qubits}
         reduce_order = []
-        while vertices:
-            all_cutting = self._is_cutting(vertices) # Get which vertices are cutting
-            # All False indices correspond to a leaf, we want the first one
-            leaf = all_cutting.index(False)
-            # Which logical qubit is stored in the leaf node?
-            reduce_order.append(self.vertex2qubit(vertices[leaf]))
-            del vertices[leaf]
+        while qubits:
+            # Pick the largest qubit every time that is not the only larger neighbor of another one.
+            # (When the largest qubit is picked, the next one takes over its role.)
+            leaf = next(q for q in qubits if all(larger[r] != {q} for r in (qubits[2:] if q == qubits[0] else qubits)))
+            reduce_order.append(leaf)
+            qubits.remove(leaf)
+            for q in qubits:
+                larger[q].discard(leaf)
 
         return reduce_order
 
diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 00b2481..ee25b20 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -225,7 +225,7 @@ def rec_steiner_gauss(
             steiner_reduce(c, c, nodes, pivots[pivot_idx:], [], True)
         # Quick check upper triangular form - should never be printing!
         if not all(
-            [all([matrix.data[i][j] == 0 for j in range(0, i)]) for i in range(size)]
+            [matrix.data[i][j] == 0 for i in pivots for j in pivots if j < i]
         ):
             print(
                 "This should never be printed. If you read this, there is a bug in pyzx/routing/steiner.py"
@@ -242,17 +242,10 @@ def rec_steiner_gauss(
                 # Vertices we can still use steiner trees
                 usable_nodes = qubit_removal_order[i:]  # = R
 
-                # Pick the maximal vertex k in R: k = max(usable_nodes)
                 # Pick the maximal leaf k' in R: k' = cols[i] = c
-                # Let W be the set of vertices in the shortest path from k' to k (inclusive)
-                path = architecture.shortest_path(
-                    c, max(usable_nodes)
-                )  # , usable_nodes)
-                if path is None:
-                    raise ValueError(
-                        f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
-                    )
-                rec_qubits = [architecture.vertex2qubit(v) for v in path]
+                # Let W be the set of vertices in R that are not smaller than k'. These contain a path from k'
+                # to the maximal vertex of R. Additions between rows in W only affect columns in W.
+                rec_qubits = [q for q in usable_nodes if q >= c]
 
                 # Apply steiner up:
                 # Pick the nodes of the steiner tree: all rows with a 1 in column c or the pivot row (diagonal)
@@ -266,7 +259,7 @@ def rec_steiner_gauss(
                 # Do recursion on the recursive nodes that were allowed to break the the upper triangular form.
                 if len(rec_qubits) > 1:  # Trivial otherwise
                     rec_step(
-                        list(reversed(rec_qubits))
+                        architecture._get_reduce_order(rec_qubits)
                     )  # [n for n in rows if n in rec_qubits])
 
     # The qubit order is the order in which the spanning tree R is traversed
-- 
2.43.0


From 0d827acac38d9d011bf6ba445b52285290376a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:07 +0000
Subject: [PATCH 087/132] fix: the leaves of a Steiner tree are qubits that
 have to be connected

---
 pyzx/routing/architecture.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index c09d6bf..f4c38ae 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -412,8 +412,7 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited
-                         and (upper or self.vertex2qubit(v) < self.vertex2qubit(node))]
+            neighbors = [v for v in self.graph.neighbors(node) if (node, v) in edges]
 
             for v in neighbors:
                 queue.append(v)
-- 
2.43.0


From f111565e2903e8432e155afa6c15f90765579fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 088/132] fix: ordering the parities of a partition keeps all
 of them

PhasePoly._place_parities looks for places that are still None, but started from zeros.
---
 pyzx/routing/phase_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index b3ad677..073c1eb 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -490,7 +490,7 @@ class PhasePoly:
     def _place_parities(self, parities: Union[Mat2, MatLike]) -> List[int]:
         if isinstance(parities, Mat2):
             parities = parities.data
-        permutation = [0] * self.n_qubits
+        permutation: List[Any] = [None] * self.n_qubits
         skipped_parities = []
         # Greedily map identity rows
         for i, parity in enumerate(parities):
-- 
2.43.0


From 92176bf155827960d1e44cdd43aef85e2eb61740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 089/132] fix: Ariannes_synth gives indices of vertices to
 non_cutting_vertices

The function takes positions in architecture.vertices, not vertex names, which differ
when the graph has had vertices removed.
---
 pyzx/routing/phase_poly.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index 073c1eb..7d8bb07 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -906,9 +906,15 @@ class PhasePoly:
         def base_recurse(cols_to_use, qubits_to_use):
             if qubits_to_use != [] and cols_to_use != []:
                 # Select edge qubits
-                vertices_to_use = [architecture.qubit2vertex(q) for q in qubits_to_use]
-                vertices = architecture.non_cutting_vertices(vertices_to_use)
-                qubits = [architecture.vertex2qubit(v) for v in vertices]
+                indices_to_use = [
+                    architecture.vertices.index(architecture.qubit2vertex(q))
+                    for q in qubits_to_use
+                ]
+                indices = architecture.non_cutting_vertices(indices_to_use)
+                qubits = [
+                    architecture.vertex2qubit(architecture.vertices[i])
+                    for i in indices
+                ]
 
                 # Pick the qubit where the recursion split will be most skewed.
                 if zeroes_rec:
-- 
2.43.0


From 71f0a885eb43efdbf4f5a7250efe7b6830aa8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 090/132] fix: phase polynomial synthesis does not permute the
 outputs in the genetic modes

Ariannes_synth, and gray_synth without an architecture, passed the genetic modes on to
gauss and ignored the permutation it found, unlike rec_gray_synth.
---
 pyzx/routing/phase_poly.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index 7d8bb07..9e3579e 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -635,6 +635,7 @@ class PhasePoly:
         arch: Architecture
         if architecture is None or mode == ElimMode.GAUSS_MODE:
             arch = create_architecture(FULLY_CONNECTED, n_qubits=len(self.out_par[0]))
+            mode = ElimMode.GAUSS_MODE
         else:
             arch = architecture
             mode = (
@@ -878,6 +879,13 @@ class PhasePoly:
             architecture = create_architecture(
                 FULLY_CONNECTED, n_qubits=len(self.out_par[0])
             )
+            mode = ElimMode.GAUSS_MODE
+        else:
+            mode = (
+                ElimMode.GAUSS_MODE
+                if mode == ElimMode.GAUSS_MODE
+                else ElimMode.STEINER_MODE
+            )
         n_qubits = architecture.n_qubits
         # Obtain the parities
         parities_to_reach = self.all_parities
-- 
2.43.0


From a4def0304d69f3a4ff78875894897b5ef773537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 091/132] fix: the arity heuristics of phase polynomial routing
 look at qubits

architecture.arities() lists indices of vertices, which are not the qubits.
---
 pyzx/routing/phase_poly.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index 9e3579e..f9cc828 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -224,7 +224,12 @@ def arity_root_heuristic(
     architecture, matrix, cols_to_use, qubits, column, phase_qubit, **kwargs
 ):
     iterator = (
-        (qubit, arity) for qubit, arity in architecture.arities() if qubit in qubits
+        (qubit, arity)
+        for qubit, arity in (
+            (architecture.vertex2qubit(architecture.vertices[i]), arity)
+            for i, arity in architecture.arities()
+        )
+        if qubit in qubits
     )
     q, a = next(iterator)
     best_qubits = []
@@ -299,7 +304,12 @@ def random_split_heuristic(
 
 def arity_split_heuristic(architecture, matrix, cols_to_use, qubits, **kwargs):
     iterator = (
-        (qubit, arity) for qubit, arity in architecture.arities() if qubit in qubits
+        (qubit, arity)
+        for qubit, arity in (
+            (architecture.vertex2qubit(architecture.vertices[i]), arity)
+            for i, arity in architecture.arities()
+        )
+        if qubit in qubits
     )
     q, a = next(iterator)
     best_qubits = []
-- 
2.43.0


From ab9fc29e6882aa3e4d060ead3bcc0bbafd535d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 092/132] fix: calculate_path_sum accepts a phase gadget
 without targets

---
 pyzx/simulate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 0b4c295..37fbd9f 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -249,7 +249,8 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
                 phase_v = phases[v]
                 if isinstance(phase_v, Poly):
                     raise NotImplementedError("Symbolic phases not supported")
-                xors[frozenset(targets)] = int(float(phase_v*4))
+                if targets: # A gadget without targets is just a scalar factor 1
+                    xors[frozenset(targets)] = int(float(phase_v*4))
                 continue
         variable_dict[v] = len(variables)
         phase_v = phases[v]
-- 
2.43.0


From 99236992a01382f44d2b6d7f55ceb86fb74e3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 093/132] fix: teleport_reduce leaves no phase tracking on its
 argument and its result

Later simplifications of either graph raised a KeyError, as its vertices have no phase index.
---
 pyzx/simplify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 97027ab..0497b53 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -215,15 +215,18 @@ def teleport_reduce(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=
     The only thing that is different in the output graph are the location and value of the phases."""
     s = Simplifier(g)
     s.full_reduce(quiet=quiet, stats=stats)
+    s.mastergraph.track_phases = False
     return s.mastergraph
 
 
 class Simplifier(Generic[VT, ET]):
     """Class used for :func:`teleport_reduce`."""
     def __init__(self, g: BaseGraph[VT,ET]) -> None:
+        tracking = g.track_phases
         g.track_phases = True
         self.mastergraph = g.copy()
         self.simplifygraph = g.copy()
+        g.track_phases = tracking
         self.simplifygraph.set_phase_master(self)
         self.phantom_phases: Dict[VT, Tuple[VT,int]] = dict()
 
-- 
2.43.0


From 49278dbfcfc641cb968671865a3709daacaca331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 094/132] fix: teleport_reduce keeps the sign of a phase that
 was fused through a Clifford spider

Simplifier.fuse_phases reset the multiplicity of the surviving index when the phase had been
saved at another vertex before, so a third phase could be added with the wrong sign.
---
 pyzx/simplify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 0497b53..5a3c42c 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -248,7 +248,6 @@ class Simplifier(Generic[VT, ET]):
                 p2 = self.mastergraph.phase(v2)
             else: return
         if (p1 == 0 or p1.denominator <= 2): # Need to save non-Clifford location
-            self.simplifygraph.phase_mult[i1] = 1
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
                 self.mastergraph.phase_index[v3] = i1
@@ -256,9 +255,11 @@ class Simplifier(Generic[VT, ET]):
                 p1 = self.mastergraph.phase(v3)
                 if (p1+p2).denominator <= 2:
                     del self.phantom_phases[v1]
-                v1,i1 = v3,i3
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
+                self.simplifygraph.phase_mult[i1] = m1 # v3 is found with index i1 from now on
+                v1,i1 = v3,i3
             else:
+                self.simplifygraph.phase_mult[i1] = 1
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-- 
2.43.0


From 45bfc886421a9fab4e3eee1a8882867277ba5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 095/132] fix: top_half selection makes every member of the
 population an object of its own

---
 pyzx/local_search/genetic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c347049..a877f56 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -134,10 +134,10 @@ class GeneticOptimizer():
             ms_tmp = sorted(ms_tmp, key=lambda m: m.score)
             n = self.n_mutants // 2
             top_half = ms_tmp[:n]
-            if self.n_mutants % 2 == 0:
-                self.mutants = deepcopy(top_half) * 2
-            else:
-                self.mutants = deepcopy(top_half) * 2 + deepcopy([ms_tmp[0]])
+            new_mutants = top_half * 2
+            if self.n_mutants % 2 == 1:
+                new_mutants.append(ms_tmp[0])
+            self.mutants = [deepcopy(m) for m in new_mutants]
         elif method == "top_n":
             n = 10
             ms_tmp = self.mutants.copy()
-- 
2.43.0


From 5587173b24ec8bb3cafd550869dbd0e1e3ff818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 096/132] fix: evolution keeps a copy of the best initial
 mutant, which is mutated afterwards

---
 pyzx/local_search/genetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index a877f56..ebb49c2 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -175,7 +175,7 @@ class GeneticOptimizer():
         self.mutants = [Mutant(self.c_orig, self.g_orig) for _ in range(self.n_mutants)]
 
         self.update_scores()
-        best_mutant = min(self.mutants, key=lambda m: m.score)
+        best_mutant = deepcopy(min(self.mutants, key=lambda m: m.score))
         best_score = best_mutant.score
 
         gen_scores = [best_score]
-- 
2.43.0


From 0754f360010f4403df172ec88d0809c6cd7a1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 097/132] fix: a random congruence leaves a diagram without
 candidates alone

---
 pyzx/local_search/congruences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/local_search/congruences.py b/pyzx/local_search/congruences.py
index ee509b1..057dccf 100644
--- a/pyzx/local_search/congruences.py
+++ b/pyzx/local_search/congruences.py
@@ -147,6 +147,7 @@ def apply_rand_lc(g, weight_func=uniform_weights):
     """Applies local complementation to randomly selected spider"""
 
     lc_vs = [v for v in g.vertices() if is_lc_vertex(g, v)]
+    if not lc_vs: return
     weights = weight_func(g, lc_vs)
     lc_v = np.random.choice(lc_vs, 1, p=weights)[0]
     lc_cong2(g, lc_v)
@@ -204,8 +205,8 @@ def pivot_cong(g, v1, v2):
 def apply_rand_pivot(g, weight_func=uniform_weights):
     """Applies pivoting to a randomly selected pair of connected spiders"""
 
-    # assumes len(candidates) != 0
     candidates = [e for e in g.edges() if is_pivot_edge(g, e)]
+    if not candidates: return
     weights = weight_func(g, candidates)
     e_idx = np.random.choice(len(candidates), 1, p=weights)[0]
     e = candidates[e_idx]
-- 
2.43.0


From 6efe7b98f811ddaaacca5fde558e3b4d62229646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 098/132] fix: graph diffs carry the data of new vertices,
 removed data, and copies rather than references

---
 pyzx/graph/diff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 66f2e64..193c09f 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -71,7 +71,7 @@ class GraphDiff(Generic[VT, ET]):
 				if g1.phase(v) != g2.phase(v):
 					self.changed_phases[v] = g2.phase(v)
 				if g1._vdata.get(v, None) != g2._vdata.get(v, None):
-					self.changed_vdata[v] = g2._vdata.get(v, None)
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata.get(v, {}))
 				pos1 = g1.qubit(v), g1.row(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				if pos1 != pos2:
@@ -83,6 +83,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_phases[v] = g2.phase(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				self.changed_pos[v] = pos2
+				if g2._vdata.get(v):
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata[v])
 
 		for e in new_edges:
 			if e in old_edges:
@@ -106,7 +108,7 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.changed_phases:
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
-				g._vdata[v] = self.changed_vdata[v]
+				g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
 
@@ -124,7 +126,7 @@ class GraphDiff(Generic[VT, ET]):
 
 		for v in self.changed_vdata:
 			if v in self.new_verts: continue
-			g._vdata[v] = self.changed_vdata[v]
+			g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
-- 
2.43.0


From 7717c6d7e0cd22925a7cb5f921ebfe19064e3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 099/132] fix: graph diffs of multigraphs keep the type in the
 name of an edge when written as JSON

---
 pyzx/graph/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 193c09f..4d8b0e4 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -136,7 +136,7 @@ class GraphDiff(Generic[VT, ET]):
 	def to_json(self) -> str:
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
-			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
+			changed_edge_types_str_dict[",".join(str(int(k)) for k in key)] = value # type: ignore
 		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
-- 
2.43.0


From b5491ae4691422dd993ef4b1181a84d8c007d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 100/132] fix: graph diffs written as JSON keep phases exact
 and the types of variables

---
 pyzx/graph/diff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 4d8b0e4..7925db2 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -19,10 +19,10 @@ import json
 from collections import Counter
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
-from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
+from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
-from .jsonparser import ComplexDecoder, ComplexEncoder, string_to_phase
+from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_json, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
 	removed_verts: List[VT]
@@ -137,7 +137,7 @@ class GraphDiff(Generic[VT, ET]):
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
 			changed_edge_types_str_dict[",".join(str(int(k)) for k in key)] = value # type: ignore
-		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
+		changed_phases_str = {k: phase_to_json(v) for k, v in self.changed_phases.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
@@ -155,6 +155,7 @@ class GraphDiff(Generic[VT, ET]):
 	def from_json(json_str: str) -> "GraphDiff":
 		d = json.loads(json_str, cls=ComplexDecoder)
 		gd = GraphDiff(GraphS(),GraphS())
+		gd.variable_types = d.get("variable_types", {})
 		gd.removed_verts = d["removed_verts"]
 		gd.new_verts = d["new_verts"]
 		gd.removed_edges = list(map(tuple, d["removed_edges"])) # type: ignore
-- 
2.43.0


From a0406056b8ec86fdfc3485d2b575cf54441cd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 101/132] fix: applying a graph diff to a multigraph adds the
 edges as they are

---
 pyzx/graph/diff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 7925db2..ea190bb 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -22,6 +22,7 @@ from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
+from .multigraph import Multigraph
 from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_json, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
@@ -109,8 +110,13 @@ class GraphDiff(Generic[VT, ET]):
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
 				g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
+		auto_simplify = isinstance(g, Multigraph) and g._auto_simplify
+		if auto_simplify: # the edges of the second graph have already been simplified
+			g.set_auto_simplify(False) # type: ignore
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
+		if auto_simplify:
+			g.set_auto_simplify(True) # type: ignore
 
 		for v in self.changed_pos:
 			if v in self.new_verts: continue
-- 
2.43.0


From 021513178a2f037ce73e5e1b1eacaa2349f9e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:48 +0000
Subject: [PATCH 102/132] fix: products of symbolic terms treat equal boolean
 variables as idempotent

---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 0ab161f..7d50cfe 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -114,7 +114,7 @@ class Term:
             if v not in vs: vs[v] = c
             else: vs[v] += c
             # TODO deal with fractional / symbolic powers
-            if v.is_bool and c > 1:
+            if v.is_bool and vs[v] > 1:
                 vs[v] = 1
         return Term([(v, c) for v, c in vs.items()])
 
-- 
2.43.0


From 94dab0ef2bcd8421e4a8836456472c75a55f4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:48 +0000
Subject: [PATCH 103/132] fix: the zero polynomial is falsy, like every other
 zero phase

---
 pyzx/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 7d50cfe..3f1c735 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -282,6 +282,9 @@ class Poly:
     def __hash__(self) -> int:
         return hash(tuple(sorted(self.terms)))
 
+    def __bool__(self) -> bool:
+        return self != 0
+
     @property
     def degree(self) -> int:
         powers = [sum(c for _, c in t.vars) for coeff, t in self.terms if coeff != 0]
-- 
2.43.0


From 8b35c67e4c5cbf34a97aed6b97d541ce0d820da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:48 +0000
Subject: [PATCH 104/132] fix: local complementation accepts symbolic phases
 that are constant

---
 pyzx/rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index e7dd4f9..3394256 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -748,8 +748,7 @@ def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutp
     for m in matches:
         a = g.phase(m[0])
         rem.append(m[0])
-        assert isinstance(a,Fraction)  # For mypy
-        if a.numerator == 1: g.scalar.add_phase(Fraction(1,4))
+        if a == Fraction(1,2): g.scalar.add_phase(Fraction(1,4))
         else: g.scalar.add_phase(Fraction(7,4))
         n = len(m[1])
         g.scalar.add_power((n-2)*(n-1)//2)
-- 
2.43.0


From 8abc8d501834d4c5f7c12db4a51b22642d9c08e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:48 +0000
Subject: [PATCH 105/132] fix: gadget, supplementarity and pivot rules, phase
 teleportation and tcount accept symbolic phases

---
 pyzx/rules.py    | 10 +++++-----
 pyzx/simplify.py | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 3394256..b7a4cc6 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -55,7 +55,7 @@ import itertools
 
 import numpy as np
 
-from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_z_like
+from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_z_like, phase_is_clifford
 from .graph.base import BaseGraph, VT, ET
 from .symbolic import Poly
 
@@ -582,7 +582,7 @@ def match_pivot_boundary(
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-            if phases[n] and hasattr(phases[n], 'denominator') and phases[n].denominator == 2:
+            if phases[n] and not isinstance(phases[n], Poly) and phases[n].denominator == 2:
                 w = n
                 bound = boundaries[0]
             if not w:
@@ -842,8 +842,8 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     outputs = g.outputs()
     # First we find all the phase-gadgets, and the list of vertices they act on
     for v in candidates:
-        non_clifford = phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2
         if isinstance(phases[v], Poly): non_clifford = True
+        else: non_clifford = phases[v] != 0 and phases[v].denominator > 2
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
@@ -907,7 +907,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     # First we find all the non-Clifford vertices and their list of neighbors
     while len(candidates) > 0:
         v = candidates.pop()
-        if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
+        if phase_is_clifford(phases[v]): continue # Skip Clifford vertices
         neigh = set(g.neighbors(v))
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
@@ -923,7 +923,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
+            if phase_is_clifford(phases[w]) or w in taken: continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 5a3c42c..80757d8 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -30,7 +30,7 @@ __all__ = ['bialg_simp','spider_simp', 'id_simp', 'phase_free_simp', 'pivot_simp
 from optparse import Option
 from typing import List, Callable, Optional, Union, Generic, Tuple, Dict, Iterator, cast
 
-from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
+from .utils import EdgeType, VertexType, phase_is_clifford, toggle_edge, vertex_is_zx, toggle_vertex
 from .rules import *
 from .graph.base import BaseGraph, VT, ET
 from .circuit import Circuit
@@ -240,20 +240,20 @@ class Simplifier(Generic[VT, ET]):
         p2 = self.mastergraph.phase(v2)
         m1 = self.simplifygraph.phase_mult[i1]
         m2 = self.simplifygraph.phase_mult[i2]
-        if (p2 == 0 or p2.denominator <= 2): # Deleted vertex contains Clifford phase
+        if phase_is_clifford(p2): # Deleted vertex contains Clifford phase
             if v2 in self.phantom_phases:
                 v3,i3 = self.phantom_phases[v2]
                 m2 = cast(Literal[1, -1], m2*self.simplifygraph.phase_mult[i3])
                 v2,i2 = v3,i3
                 p2 = self.mastergraph.phase(v2)
             else: return
-        if (p1 == 0 or p1.denominator <= 2): # Need to save non-Clifford location
+        if phase_is_clifford(p1): # Need to save non-Clifford location
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
                 self.mastergraph.phase_index[v3] = i1
                 del self.mastergraph.phase_index[v1]
                 p1 = self.mastergraph.phase(v3)
-                if (p1+p2).denominator <= 2:
+                if phase_is_clifford((p1+p2) % 2):
                     del self.phantom_phases[v1]
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
                 self.simplifygraph.phase_mult[i1] = m1 # v3 is found with index i1 from now on
@@ -263,7 +263,7 @@ class Simplifier(Generic[VT, ET]):
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-        if p1.denominator <= 2 or p2.denominator <= 2: raise Exception("Clifford phases here??")
+        if phase_is_clifford(p1) or phase_is_clifford(p2): raise Exception("Clifford phases here??")
         # Both have non-Clifford phase
         if m1*m2 == 1: phase = (p1 + p2)%2
         else: phase = p1 - p2
@@ -312,7 +312,7 @@ def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
     count = 0
     phases = g.phases()
     for v in g.vertices():
-        if phases[v]!=0 and phases[v].denominator > 2:
+        if not phase_is_clifford(phases[v]):
             count += 1
     return count
 
-- 
2.43.0


From fc862066baa0edb2489dc8c8292b3624dd834f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:11 +0000
Subject: [PATCH 106/132] fix: parsing symbolic phases does not reduce a
 coefficient before all factors of the term are known

---
 pyzx/symbolic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 3f1c735..c1f1533 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -375,7 +375,10 @@ class PolyTransformer(Transformer):
         return reduce(add, items)
 
     def term(self, items: List[Poly]) -> Poly:
-        return reduce(mul, items)
+        # Multiply the coefficient last, because coefficients of boolean terms are reduced modulo 2
+        constants = [p for p in items if not p.free_vars()]
+        variables = [p for p in items if p.free_vars()]
+        return reduce(mul, variables, new_const(1)) * reduce(mul, constants, new_const(1))
 
     def var(self, items: List[Any]) -> Poly:
         v = self._new_var(str(items[0]))
-- 
2.43.0


From d6581e1e4726e8ccf89a2c8d8a8a48f1fdb8469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:11 +0000
Subject: [PATCH 107/132] fix: the parser of symbolic phases accepts integer
 multiples of pi

---
 pyzx/symbolic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index c1f1533..2dcb80f 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -347,12 +347,13 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 poly_grammar = Lark("""
     start      : "(" start ")" | term ("+" term)*
     term       : (intf | frac | floatf)? factor ("*" factor)*
-    ?factor    : intf | frac | floatf | pi | pifrac | var
+    ?factor    : intf | frac | floatf | pi | pimult | pifrac | var
     var        : CNAME ["^" INT]
     intf       : NUM
     floatf     : FLOAT
     pi         : "\\pi" | "pi"
     frac       : NUM "/" NUM
+    pimult     : NUM pi
     pifrac     : [NUM] pi "/" NUM
 
     NUM        : /-?[0-9]+/
@@ -396,6 +397,9 @@ class PolyTransformer(Transformer):
     def frac(self, items: List[Any]) -> Poly:
         return new_const(Fraction(int(items[0]), int(items[1])))
 
+    def pimult(self, items: List[Any]) -> Poly:
+        return new_const(int(items[0]))
+
     def pifrac(self, items: List[Any]) -> Poly:
         numerator = int(items[0]) if items[0] else 1
         return new_const(Fraction(numerator, int(items[2])))
-- 
2.43.0


From 246d68b8731a8b6320430afab8409b5e1175a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:11 +0000
Subject: [PATCH 108/132] fix: substituting fractions into symbolic phases
 stays exact

---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 2dcb80f..b672508 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -136,7 +136,7 @@ class Term:
         """Substitute variables in the term with the given values. Returns a tuple
         of the coefficient and the new term.
         """
-        coeff: Union[float, complex, 'Fraction'] = 1.
+        coeff: Union[float, complex, 'Fraction'] = Fraction(1)
         new_vars = []
         for v, c in self.vars:
             if v in var_map:
-- 
2.43.0


From 87a5f02ede3976201840dd46e5025a38885252a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:31 +0000
Subject: [PATCH 109/132] fix: division of polynomials terminates, and refuses
 what is not divisible instead of returning a wrong quotient

---
 pyzx/symbolic.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index b672508..78661bd 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -204,17 +204,27 @@ class Poly:
     def __truediv__(self, other: Union['Poly', Fraction, int, float, complex]) -> 'Poly':
         if isinstance(other, (int, float, complex, Fraction)):
             other = Poly([(other, Term([]))])
-        if len(other.terms) == 0:
+        if other == 0:
             raise ZeroDivisionError("division by zero")
+        variables = sorted(self.free_vars() | other.free_vars())
+        def exponents(term: Term) -> List[int]:
+            exps = dict(term.vars)
+            return [exps.get(v, 0) for v in variables]
+        def leading(p: 'Poly') -> Tuple[Union[int, float, complex, Fraction], Term]:
+            return max(p.terms, key=lambda ct: exponents(ct[1]))
+        coeff, divisor = leading(other)
+        if isinstance(coeff, int): coeff = Fraction(coeff)
         quotient = Poly([])
-        while len(self.terms) > 0 and self.degree >= other.degree:
-            leading_term_dividend = sorted(self.terms)[0][1]
-            leading_term_divisor = sorted(other.terms)[0][1]
-            coeff = sorted(self.terms)[0][0] / sorted(other.terms)[0][0]
-            new_term_quotient_vars = [(var, exp - dict(leading_term_divisor.vars).get(var, 0)) for var, exp in leading_term_dividend.vars]
-            new_term_quotient = (coeff, Term(new_term_quotient_vars))
-            quotient.terms.append(new_term_quotient)
-            self -= other * Poly([new_term_quotient])
+        rest = self
+        while len(rest.terms) > 0:
+            c, t = leading(rest)
+            exps = [i - j for i, j in zip(exponents(t), exponents(divisor))]
+            new_term = Poly([(c / coeff, Term([(v, i) for v, i in zip(variables, exps) if i != 0]))])
+            next_rest = rest - other * new_term if all(i >= 0 for i in exps) else rest
+            if next_rest.terms and exponents(leading(next_rest)[1]) >= exponents(t):
+                raise ValueError(f"{self} is not divisible by {other}")
+            quotient += new_term
+            rest = next_rest
         return quotient
 
     def __pow__(self, other: int) -> 'Poly':
-- 
2.43.0


From 3bc1deb59491400d185d5bacae3a47cf51f2f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:49 +0000
Subject: [PATCH 110/132] fix: the T-count of gates made of basic gates counts
 their phases

---
 pyzx/circuit/gates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 547ff17..e20453b 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -209,7 +209,9 @@ class Gate(object):
         return g
 
     def tcount(self) -> int:
-        return 0
+        basic_gates = self.to_basic_gates()
+        if len(basic_gates) == 1 and basic_gates[0] is self: return 0
+        return sum(g.tcount() for g in basic_gates)
 
     def reposition(self: Tvar, mask: List[int], bit_mask: Optional[List[int]] = None) -> Tvar:
         g = self.copy()
-- 
2.43.0


From 096f38ffa6008b9a9fd2445a8b5e685b9a6470a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 111/132] fix: the depth of a circuit counts every kind of gate

---
 pyzx/circuit/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 2157276..b4c88ad 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -21,7 +21,7 @@ import numpy as np
 
 from .gates import (Gate, gate_types, NOT, Y, Z, HAD, XPhase, YPhase, ZPhase, U2, U3, S, T, SX, SWAP, RXX, RZZ, CNOT,
                     CY, CZ, CHAD, CSX, XCX, CRX, CRY, CRZ, CPhase, CU3, CU, CSWAP, Tofolli, CCZ, ParityPhase, FSim,
-                    Measurement)
+                    InitAncilla, PostSelect, DiscardBit, Measurement)
 
 from ..graph.base import BaseGraph
 from ..utils import EdgeType
@@ -516,6 +516,11 @@ class Circuit(object):
                 min_depth[g.target] = gate_depth
                 min_depth[g.ctrl1] = gate_depth
                 min_depth[g.ctrl2] = gate_depth
+            elif not isinstance(g, (InitAncilla, PostSelect, DiscardBit, Measurement)):
+                if isinstance(g, ParityPhase): qubits = list(g.targets)
+                else: qubits = [getattr(g, attr) for attr in ("control", "target") if hasattr(g, attr)]
+                gate_depth = max(min_depth[q] for q in qubits) + 1
+                for q in qubits: min_depth[q] = gate_depth
         return max(min_depth)
 
 
-- 
2.43.0


From 638d894302d75866652261dfb65430171ad49a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 112/132] fix: the outputs of generated CNOT circuits are in
 order

---
 pyzx/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index a87dcce..008ebae 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -234,7 +234,7 @@ def cnots(qubits: int, depth: int, backend:Optional[str]=None) -> BaseGraph:
     outputs = []
     for i in range(qubits):
         inputs.append(i)
-        outputs.append(v-i-1)
+        outputs.append(v-qubits+i)
 
     g.set_inputs(tuple(inputs))
     g.set_outputs(tuple(outputs))
-- 
2.43.0


From e4a5436b8ef7b21c8503edf4069e4c60361ef8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 113/132] fix: random phase gadgets are generated, as many as
 asked for and on different parities

---
 pyzx/generate.py            | 6 +++---
 pyzx/routing/parity_maps.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index 008ebae..b37293c 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -657,13 +657,13 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
     :return: A random phase polynomial circuit.
     """
     parities: Set[Parity] = set()
-    if n_gadgets > 2**n_qubits:
-        n_gadgets = n_qubits ^ 3
+    if n_gadgets > 2**n_qubits - 1: # there are no more parities than this
+        n_gadgets = 2**n_qubits - 1
     if n_qubits < 26:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
         ):
-            parities.add(Parity(integer + 1, n_qubits))
+            parities.add(Parity(int(integer) + 1, n_qubits))
     elif n_qubits < 64:
         while len(parities) < n_gadgets:
             parities.add(Parity(np.random.randint(1, 2**n_qubits), n_qubits))
diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index b72d01e..e5b2365 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -139,7 +139,8 @@ class Parity:
 
     def __init__(self, par: Union[str, int, Iterable[Any]], n_qubits: Optional[int] = None):
         if isinstance(par, int):
-            self.parity = [bool(par & (1 << i)) for i in reversed(range(par.bit_length()))]
+            n_bits = max(par.bit_length(), n_qubits or 0)
+            self.parity = [bool(par & (1 << i)) for i in reversed(range(n_bits))]
         elif isinstance(par, str):
             self.parity = [p != "0" for p in par]
         else:
-- 
2.43.0


From 79747fd3324f38b3ce107d01ca9fd1aac0e134d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 114/132] fix: probabilities that sum to 1 up to rounding are
 accepted

---
 pyzx/generate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index b37293c..ac6672e 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -293,7 +293,8 @@ def cliffordTmeas(
     if p_meas is None: num += 1.0
     else: rest -= p_meas
 
-    if rest < 0: raise ValueError("Probabilities are >1.")
+    if rest < -1e-9: raise ValueError("Probabilities are >1.")
+    rest = max(rest, 0.0) # rounding of probabilities that sum to 1
 
     if p_t is None: p_t = rest / num
     if p_s is None: p_s = rest / num
-- 
2.43.0


From d68f4933f087497bb912bed5b0b2b6293cf333ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 115/132] fix: TODD on diagrams only takes phase gadgets with a
 phaseless interior hub

---
 pyzx/todd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index f8742f6..e553a6e 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -455,6 +455,9 @@ def todd_on_graph(g: BaseGraph[VT,ET]) -> None:
             if g.phase(v) != 0 and g.phase(v).denominator != 4: continue
             n = list(g.neighbors(v))[0]
             tgts = frozenset(set(g.neighbors(n)).difference({v}))
+            # The hub has to be a phaseless interior spider for this to be a phase gadget
+            if n in inputs or n in outputs or g.phase(n) != 0 or len(tgts) < 2: continue
+            if any(t in inputs or t in outputs for t in tgts): continue
             gadgets[tgts] = (n,v)
         if g.phase(v) != 0 and g.phase(v).denominator == 4:
             t_nodes.append(v)
-- 
2.43.0


From 222184fddefd53645b606ee8048598f177a458a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 116/132] fix: the cnots command reads the arguments it is
 given

---
 pyzx/scripts/cnot_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/scripts/cnot_generator.py b/pyzx/scripts/cnot_generator.py
index 6b49273..2388928 100644
--- a/pyzx/scripts/cnot_generator.py
+++ b/pyzx/scripts/cnot_generator.py
@@ -57,7 +57,7 @@ parser.add_argument(
 
 
 def main(args):
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     if args.n_cnots is None:
         parser.error(
             message="Please specify the number of CNOT gates to be generated with the -d flag."
-- 
2.43.0


From fdbf9a2db3721da3f8b5f21d1f755fd80c5180ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 117/132] fix: the opt command says so when it cannot write the
 format of its input

---
 pyzx/scripts/circ2circ.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyzx/scripts/circ2circ.py b/pyzx/scripts/circ2circ.py
index 18cd302..b2f30ba 100644
--- a/pyzx/scripts/circ2circ.py
+++ b/pyzx/scripts/circ2circ.py
@@ -53,13 +53,10 @@ def main(args):
         print("File {} does not exist".format(options.source))
         return
     ctype = determine_file_type(options.source)
-    if options.outformat == 'match':
-        dtype = ctype
-    elif options.outformat not in ('qasm', 'qc', 'quipper'):
-        print("Unsupported circuit type {}. Please use qasm, qc or quipper".format(options.outformat))
+    dtype = ctype if options.outformat == 'match' else options.outformat
+    if dtype not in ('qasm', 'qc', 'quipper'):
+        print("Unsupported circuit type {}. Please use qasm, qc or quipper".format(dtype))
         return
-    else:
-        dtype = options.outformat
     if not options.dest:
         base = os.path.splitext(options.source)[0]
         dest = base + "." + dtype
-- 
2.43.0


From e3c127344d58380d9384afb992bd4e30c69e47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 118/132] fix: rotations in Quipper files are read as the
 fractions of pi they are

---
 pyzx/circuit/quipperparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index fd7ff37..eaa5b80 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -63,7 +63,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 f = float(val)
             except ValueError:
                 raise TypeError("Unsupported expression: " + gate)
-            phase = Fraction(f/math.pi)
+            phase = Fraction(f/math.pi).limit_denominator(100000000)
             target = gate[gate.rfind('(')+1:gate.rfind(')')]
             try: 
                 t = int(target)
-- 
2.43.0


From aad8dab81e716b9a9dd2d8dd1c3f691670065fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 119/132] fix: boundaries of older documents that are not
 inputs are not read as inputs

---
 pyzx/graph/jsonparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 59446a0..b63b7ac 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -135,8 +135,9 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         v = g.add_vertex(VertexType.BOUNDARY,q,r)
         g.set_vdata(v,'name',name)
         names[name] = v
-        if "input" in ann: inputs[v] = ann["input"]
-        if "output" in ann: outputs[v] = ann["output"]
+        # Older documents write truth values instead of positions
+        if ann.get("input", False) is not False: inputs[v] = ann["input"]
+        if ann.get("output", False) is not False: outputs[v] = ann["output"]
         for key, value in attr['annotation'].items():
             if key in ('boundary','coord','input','output'):
                 continue
-- 
2.43.0


From deb920f9ea775ccec55c9b436928df2d841727d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 120/132] fix: negative angles with a numerator are read
 correctly by the deprecated JSON reader

---
 pyzx/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/io.py b/pyzx/io.py
index ffb4b34..c4f8986 100644
--- a/pyzx/io.py
+++ b/pyzx/io.py
@@ -30,7 +30,7 @@ def _quanto_value_to_phase(s: str) -> Fraction:
     if r'\pi' in s:
         try:
             r = s.replace(r'\pi','').strip()
-            if r.startswith('-'): r = "-1"+r[1:]
+            if r == '-' or r.startswith('-/'): r = "-1"+r[1:]
             if r.startswith('/'): r = "1"+r
             return Fraction(str(r)) if r else Fraction(1)
         except ValueError:
-- 
2.43.0


From 9dfbc7fc5085b0ded8cdffb1585e006d1dee2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 121/132] fix: pairs of H-boxes that are connected to each
 other are not fused at the same time

---
 pyzx/hrules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 06a8e7c..693b19f 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -75,8 +75,9 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
         m.add(e)
-        candidates.difference_update(g.incident_edges(v1))
-        candidates.difference_update(g.incident_edges(v2))
+        for v in (v1, v2): # The edges of the neighbors change as well
+            for n in g.neighbors(v):
+                candidates.difference_update(g.incident_edges(n))
     return list(m)
 
 def fuse_hboxes(g: BaseGraph[VT,ET], matches: List[ET]) -> rules.RewriteOutputType[VT,ET]:
-- 
2.43.0


From 3c021c9abd421c9adab6de74a8fa464957f87880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 122/132] fix: removing isolated grounded spiders contributes
 the discarded norm

A phase on a spider that is connected to a ground is irrelevant, and the
scalar of an isolated one is sqrt(2) (2 in the doubled diagram).  It was
counted as 1 + e^(i*phase), so that pi made the whole diagram zero.
---
 pyzx/graph/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index b18e8ca..cb82872 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -801,6 +801,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif self.is_ground(v) and vertex_is_zx(ty):
+                    self.scalar.add_power(1) # Discarding |0> + e^(i*phase)|1> gives 2
                 elif ty == VertexType.Z_BOX:
                     self.scalar.add_float(1 + complex(get_z_box_label(self, v)))
                 else: self.scalar.add_node(self.phase(v))
@@ -819,7 +821,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if t1 == VertexType.Z_BOX or t2 == VertexType.Z_BOX:
+                if (self.is_ground(v) or self.is_ground(w)) and vertex_is_zx(t1) and vertex_is_zx(t2):
+                    self.scalar.add_power(1) # Discarding a spider state gives 2
+                elif t1 == VertexType.Z_BOX or t2 == VertexType.Z_BOX:
                     a, b = (complex(get_z_box_label(self, u)) if self.type(u) == VertexType.Z_BOX
                             else cmath.exp(1j*cmath.pi*float(self.phase(u))) for u in (v,w))
                     if (et == EdgeType.SIMPLE) == (vertex_is_z_like(t1) and vertex_is_z_like(t2)):
-- 
2.43.0


From b3f28eac2b836e99a5a1ac837490f34c176996e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 123/132] fix: match_copy does not copy grounded spiders

The leaf and the spider it is copied through are removed, and with them
their grounds.
---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index b7a4cc6..cd5d157 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -986,6 +986,7 @@ def match_copy(
         if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1: continue
         w = list(g.neighbors(v))[0]
         if types[w] != VertexType.Z: continue
+        if g.is_ground(v) or g.is_ground(w): continue
         if v in taken or w in taken: continue
         neigh = [n for n in g.neighbors(w) if n != v]
         taken.add(w)
-- 
2.43.0


From 10c9c3de0a1a79eaa5363b35de6a266c38b864a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 124/132] fix: supplementarity does not apply to grounded
 spiders

---
 pyzx/rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index cd5d157..bb0b36b 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -908,6 +908,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     while len(candidates) > 0:
         v = candidates.pop()
         if phase_is_clifford(phases[v]): continue # Skip Clifford vertices
+        if g.is_ground(v): continue # The phase of a grounded spider can not be used
         neigh = set(g.neighbors(v))
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
@@ -923,7 +924,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if phase_is_clifford(phases[w]) or w in taken: continue
+            if phase_is_clifford(phases[w]) or g.is_ground(w) or w in taken: continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
-- 
2.43.0


From ec5510d4c3c765e0c308c95b67e230bf7841d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 125/132] fix: match_pivot_gadget does not pivot on a grounded
 spider

The non-Pauli spider is removed by the pivot, and with it its ground.
---
 pyzx/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index bb0b36b..de246e3 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -495,7 +495,7 @@ def match_pivot_gadget(
         elif v1a in (0,1): continue
         # Now v0 has a Pauli phase and v1 has a non-Pauli phase
 
-        if g.is_ground(v0):
+        if g.is_ground(v0) or g.is_ground(v1):
             continue
 
         v0n = list(g.neighbors(v0))
-- 
2.43.0


From cd74194d7b4ee439df1f80cab9daf04f0fd1b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 126/132] fix: a measurement without a result bit can be
 converted to a graph

The guard around the lookup of the row of the result bit was inverted.
---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index e20453b..49fc64c 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1254,7 +1254,7 @@ class Measurement(Gate):
             DiscardBit(self.result_bit).to_graph(g, q_mapper, c_mapper)
         # Qubit measurement
         r = q_mapper.next_row(self.target)
-        if self.result_bit is None:
+        if self.result_bit is not None:
             r = max(r, c_mapper.next_row(self.result_bit))
         v = self.graph_add_node(g,
             q_mapper,
-- 
2.43.0


From 29293192fdbb6496e106eec928a7724798a80c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 127/132] fix: split_phase_gates keeps the bits of the circuit

---
 pyzx/circuit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index b4c88ad..a5c5264 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -201,7 +201,7 @@ class Circuit(object):
         return c
 
     def split_phase_gates(self) -> 'Circuit':
-        c = Circuit(self.qubits, name=self.name)
+        c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
                 c.gates.extend(g.split_phases())
-- 
2.43.0


From 4137af94ee57b4b8d9d3602782bf3c3839f4f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 128/132] fix: basicrules do not lose grounds

fuse dropped the ground of the second spider, and remove_id, strong_comp
and copy_X removed grounded spiders.
---
 pyzx/basicrules.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index db33b49..b0cc802 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -83,6 +83,7 @@ def check_strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
              (g.type(v1) == VertexType.Z and g.type(v2) == VertexType.X)) and
             is_pauli(g.phase(v1)) and
             is_pauli(g.phase(v2)) and
+            not g.is_ground(v1) and not g.is_ground(v2) and
             g.connected(v1,v2) and
             g.edge_type(g.edge(v1,v2)) == EdgeType.SIMPLE):
         return False
@@ -121,10 +122,10 @@ def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
 def check_copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not (g.vertex_degree(v) == 1 and
             g.type(v) == VertexType.X and
-            is_pauli(g.phase(v))):
+            is_pauli(g.phase(v)) and not g.is_ground(v)):
         return False
     nv = next(iter(g.neighbors(v)))
-    if not (g.type(nv) == VertexType.Z and
+    if not (g.type(nv) == VertexType.Z and not g.is_ground(nv) and
             g.edge_type(g.edge(v,nv)) == EdgeType.SIMPLE):
         return False
     return True
@@ -206,6 +207,8 @@ def fuse(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
         set_z_box_label(g, v1, get_z_box_label(g, v1) * get_z_box_label(g, v2))
     else:
         g.add_to_phase(v1, g.phase(v2))
+    if g.is_ground(v2):
+        g.set_ground(v1)
     for e in g.incident_edges(v2):
         source, target = g.edge_st(e)
         other_vertex = source if source != v2 else target
@@ -241,7 +244,7 @@ def fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     return True
 
 def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
-    if not g.vertex_degree(v) == 2:
+    if not g.vertex_degree(v) == 2 or g.is_ground(v):
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
-- 
2.43.0


From c44f269cacb4050b504b00edd0e7994b6bc18ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 129/132] fix: grounded spiders do not form phase gadgets

match_phase_gadgets fused gadgets whose leaf or axel is connected to a
ground, which removes the ground.
---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index de246e3..363a9ce 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -847,6 +847,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
+            if g.is_ground(v) or g.is_ground(n): continue # Not a real phase gadget
             if n in gadgets: continue # Not a real phase gadget (happens for scalar diagrams)
             if n in inputs or n in outputs: continue # Not a real phase gadget (happens for non-unitary diagrams)
             gadgets[n] = v
-- 
2.43.0


From 4900be353fad3866c5f8263bc9eaf39e2220546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:19 +0000
Subject: [PATCH 130/132] fix: particle swarms keep their points as arrays, so
 that they can be crossed over

---
 pyzx/routing/machine_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index bd8af16..4e2aea2 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -305,7 +305,7 @@ class Particle:
                     "The new particle point is not a permutation anymore!"
                     + str(self.current)
                 )
-        self.current = new
+        self.current = np.asarray(new)
         return is_better
 
     def _mutate(self, particle):
-- 
2.43.0


From a3828d9f1c7e9f659a4b249be1f163de2bebcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:19 +0000
Subject: [PATCH 131/132] fix: genetic maximization can select when fitnesses
 are zero or negative

---
 pyzx/routing/machine_learning.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index 4e2aea2..f800392 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -42,14 +42,14 @@ class GeneticAlgorithm:
 
     def _select(self):
         fitness_scores = [f for c, f in self.population]
-        total_fitness = sum(fitness_scores)
         if self.maximize:
-            selection_chance = [f / total_fitness for f in fitness_scores]
+            min_fitness = min(fitness_scores) - 1
+            adjusted_scores = [f - min_fitness for f in fitness_scores]
         else:
             max_fitness = max(fitness_scores) + 1
             adjusted_scores = [max_fitness - f for f in fitness_scores]
-            adjusted_total = sum(adjusted_scores)
-            selection_chance = [f / adjusted_total for f in adjusted_scores]
+        adjusted_total = sum(adjusted_scores)
+        selection_chance = [f / adjusted_total for f in adjusted_scores]
         return np.random.choice(
             self.population_size, size=2, replace=False, p=selection_chance
         )
-- 
2.43.0


From a89ad110fb5d4e18d092e645064dd559deca6de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:32 +0000
Subject: [PATCH 132/132] fix: hyper-pivot only matches phaseless Z-spiders and
 H-boxes on ordinary edges

---
 pyzx/hrules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 693b19f..2243c44 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -484,6 +484,9 @@ def match_hpivot(
 
         v0, v1 = g.neighbors(h)
 
+        # the H-box should join two phaseless Z-spiders
+        if any(types[v] != VertexType.Z or phases[v] != 0 for v in (v0,v1)): continue
+
         v0n = set(g.neighbors(v0))
         v1n = set(g.neighbors(v1))
 
@@ -518,7 +521,8 @@ def match_hpivot(
             all(all(types[v] == VertexType.Z for v in vs[1]) for vs in v1nn) and
             len(v0b) + len(v1b) <= 1 and
             len(v0b) + len(v0h) + 1 == len(v0n) and
-            len(v1b) + len(v1h) + 1 == len(v1n)
+            len(v1b) + len(v1h) + 1 == len(v1n) and
+            all(g.edge_type(e) == EdgeType.SIMPLE for v in [h] + v0h + v1h for e in g.incident_edges(v))
         ): continue
 
         degree = g.vertex_degree(v0) * g.vertex_degree(v1)
-- 
2.43.0

