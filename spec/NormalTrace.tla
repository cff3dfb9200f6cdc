--------------------------- MODULE NormalTrace ---------------------------
(***************************************************************************)
(* The normal forms of the simplification strategies: the patterns that    *)
(* each strategy is there to remove, as predicates on diagrams, and the    *)
(* measures that no strategy may increase.                                 *)
(* Diagrams: n, ty (0 boundary, 1 Z, 2 X), ph (2pi = N), ed <<u, v, type>> *)
(* (type 1 plain, 2 Hadamard), inp, out.                                   *)
(***************************************************************************)
EXTENDS Field, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"

Q == N \div 4
V(g) == 1..g.n
\* the adjacency of a diagram, computed once: nb[v] is the set of neighbours, hb[v] those along Hadamard edges, sb[v] along plain edges
Ends(g, v, T) == {g.ed[k][1] + g.ed[k][2] - v : k \in {j \in 1..Len(g.ed) : g.ed[j][3] \in T /\ v \in {g.ed[j][1], g.ed[j][2]}}}
View1(g) == [g |-> g,
             nb |-> TLCEval([v \in V(g) |-> Ends(g, v, {1, 2})]),
             hb |-> TLCEval([v \in V(g) |-> Ends(g, v, {2})]),
             sb |-> TLCEval([v \in V(g) |-> Ends(g, v, {1})]),
             deg |-> TLCEval([v \in V(g) |-> Cardinality({k \in 1..Len(g.ed) : g.ed[k][1] = v}) + Cardinality({k \in 1..Len(g.ed) : g.ed[k][2] = v})])]
Bd(x, v) == x.g.ty[v] = 0
Zs(x) == {v \in V(x.g) : x.g.ty[v] = 1}
Pauli(x, v) == x.g.ph[v] % (N \div 2) = 0
Proper(x, v) == x.g.ph[v] % (N \div 2) = Q
Clifford(x, v) == x.g.ph[v] % Q = 0
\* an inner spider: all it touches are Z spiders, along Hadamard edges
Inner(x, v) == x.g.ty[v] = 1 /\ x.nb[v] = x.hb[v] /\ x.sb[v] = {} /\ \A w \in x.nb[v] : x.g.ty[w] = 1
Bds(x, v) == {w \in x.nb[v] : Bd(x, w)}
\* like Inner, except that it may touch boundaries in any way
HardOnly(x, v) == x.g.ty[v] = 1 /\ \A w \in x.nb[v] : Bd(x, w) \/ (x.g.ty[w] = 1 /\ w \in x.hb[v] /\ w \notin x.sb[v])
Simple(x) == \A j, k \in 1..Len(x.g.ed) : j # k => <<x.g.ed[j][1], x.g.ed[j][2]>> # <<x.g.ed[k][1], x.g.ed[k][2]>> /\ <<x.g.ed[j][1], x.g.ed[j][2]>> # <<x.g.ed[k][2], x.g.ed[k][1]>>
NoLoops(x) == \A k \in 1..Len(x.g.ed) : x.g.ed[k][1] # x.g.ed[k][2]
NCount(g) == Cardinality({v \in V(g) : g.ph[v] % Q # 0})

(* ------------------------- patterns to be removed ---------------------- *)
Fusable(x) == \E k \in 1..Len(x.g.ed) : LET e == x.g.ed[k] IN e[3] = 1 /\ x.g.ty[e[1]] = x.g.ty[e[2]] /\ x.g.ty[e[1]] \in {1, 2}
Identity(x) == \E v \in V(x.g) : x.g.ty[v] \in {1, 2} /\ x.g.ph[v] = 0 /\ x.deg[v] = 2 /\ Cardinality(x.nb[v]) = 2
Complementable(x) == \E v \in V(x.g) : Inner(x, v) /\ Proper(x, v)
Pivotable(x) == \E u, v \in V(x.g) : /\ u < v /\ v \in x.hb[u] /\ Pauli(x, u) /\ Pauli(x, v)
                                     /\ HardOnly(x, u) /\ HardOnly(x, v) /\ Cardinality(Bds(x, u)) + Cardinality(Bds(x, v)) <= 1
BoundaryPivotable(x) ==
   \E u \in V(x.g) : /\ Inner(x, u) /\ Pauli(x, u) /\ (\A w \in x.nb[u] : Cardinality(x.nb[w]) # 1)
                     /\ \E w \in x.nb[u] : HardOnly(x, w) /\ Cardinality(Bds(x, w)) = 1
\* a phase gadget: a hub with one leaf
Leaf(x, l) == x.g.ty[l] = 1 /\ Cardinality(x.nb[l]) = 1 /\ x.hb[l] = x.nb[l]
Leaves(x, u) == {l \in x.hb[u] : Leaf(x, l)}
GadgetPivotable(x) ==
   \E u, v \in V(x.g) : /\ u # v /\ v \in x.hb[u] /\ Inner(x, u) /\ Inner(x, v) /\ Pauli(x, u) /\ ~ Pauli(x, v)
                        /\ ~ Leaf(x, v) /\ Leaves(x, u) = {}
Hubs(x) == {u \in Zs(x) : /\ Pauli(x, u) /\ Inner(x, u) /\ Cardinality(Leaves(x, u)) = 1 /\ Cardinality(x.nb[u]) > 1
                          /\ \A l \in Leaves(x, u) : ~ Clifford(x, l)}
Targets(x, u) == x.nb[u] \ Leaves(x, u)
Mergeable(x) == LET h == Hubs(x) IN \E u \in h : x.g.ph[u] # 0 \/ \E v \in h : u < v /\ Targets(x, u) = Targets(x, v)
Supplementary(x) ==
   \E u, v \in Zs(x) : /\ u < v /\ ~ Clifford(x, u) /\ ~ Clifford(x, v) /\ Inner(x, u) /\ Inner(x, v)
                       /\ \/ /\ x.nb[u] = x.nb[v] /\ x.nb[u] # {}
                             /\ ((x.g.ph[u] - x.g.ph[v]) % N = N \div 2 \/ (x.g.ph[u] + x.g.ph[v]) % N = N \div 2)
                          \/ /\ v \in x.nb[u] /\ x.nb[u] \ {v} = x.nb[v] \ {u}
                             /\ ((x.g.ph[u] - x.g.ph[v]) % N = N \div 2 \/ (x.g.ph[u] + x.g.ph[v]) % N = 0)
Copyable(x) == \E v \in Zs(x) : Pauli(x, v) /\ x.deg[v] = 1 /\ \E w \in x.nb[v] : x.g.ty[w] = 1
Opp(x, u, v) == {x.g.ty[u], x.g.ty[v]} = {1, 2}
Bialgebra(x) ==
   \E u, v \in V(x.g) : /\ u < v /\ v \in x.sb[u] /\ v \notin x.hb[u]
                        /\ \A w \in {u, v} : x.g.ph[w] = 0 /\ x.hb[w] = {} /\ \A y \in x.nb[w] : Opp(x, w, y) /\ x.g.ph[y] = 0

(* ------------------------------ graph-like ----------------------------- *)
OnlyZ(x) == \A v \in V(x.g) : x.g.ty[v] \in {0, 1}
GraphLike(x) == OnlyZ(x) /\ NoLoops(x) /\ \A k \in 1..Len(x.g.ed) : LET e == x.g.ed[k] IN (x.g.ty[e[1]] = 1 /\ x.g.ty[e[2]] = 1) => e[3] = 2
StrictGL(x) == /\ GraphLike(x)
               /\ \A v \in V(x.g) : Bd(x, v) => x.deg[v] = 1 /\ \A w \in x.nb[v] : x.g.ty[w] = 1
               /\ \A v \in Zs(x) : Cardinality(Bds(x, v)) <= 1

(* ----------------------- normal forms of strategies -------------------- *)
RuleLeft(nm, x) ==
   CASE nm = "spider" -> (IF Fusable(x) \/ ~ NoLoops(x) THEN "adjacent spiders of one colour are left" ELSE "ok")
     [] nm = "id" -> (IF Identity(x) THEN "an identity spider is left" ELSE "ok")
     [] nm = "pivot" -> (IF Pivotable(x) THEN "an adjacent pair of Pauli spiders is left" ELSE "ok")
     [] nm = "lcomp" -> (IF Complementable(x) THEN "an inner proper Clifford spider is left" ELSE "ok")
     [] nm = "pivot_boundary" -> (IF BoundaryPivotable(x) THEN "an inner Pauli spider next to a boundary spider is left" ELSE "ok")
     [] nm = "pivot_gadget" -> (IF GadgetPivotable(x) THEN "an inner Pauli spider next to an inner spider that is no gadget is left" ELSE "ok")
     [] nm = "gadget" -> (IF Mergeable(x) THEN "gadgets with the same targets, or with a pi hub, are left" ELSE "ok")
     [] nm = "supplementarity" -> (IF Supplementary(x) THEN "a supplementary pair is left" ELSE "ok")
     [] nm = "copy" -> (IF Copyable(x) THEN "a Pauli leaf is left" ELSE "ok")
     [] nm = "bialg" -> (IF Bialgebra(x) THEN "a bialgebra is left" ELSE "ok")
FirstLeft(nms, x) == LET bads == SelectSeq([i \in 1..Len(nms) |-> RuleLeft(nms[i], x)], LAMBDA s : s # "ok") IN IF bads = <<>> THEN "ok" ELSE bads[1]
Interior == <<"spider", "id", "pivot", "lcomp">>
\* full reduction: the only inner Clifford spiders are hubs of phase gadgets, or touch nothing but spiders with several boundaries
Residue(x, v) == Inner(x, v) /\ Clifford(x, v) /\ x.deg[v] > 0 /\ Leaves(x, v) = {} /\ \E w \in x.nb[v] : Cardinality(Bds(x, w)) < 2
AllClifford(g) == \A v \in V(g) : g.ph[v] % Q = 0
FullReduced(x, full) ==
   IF full /\ \E v \in V(x.g) : Residue(x, v) THEN "an inner Clifford spider outside phase gadgets is left"
   ELSE IF AllClifford(x.g) /\ x.g.inp = <<>> /\ x.g.out = <<>> /\ x.g.ed # <<>> THEN "a Clifford scalar is not evaluated"
   ELSE "ok"
\* layers of the Clifford normal form, per row: 1 local, 2 controlled-Z, 3 parities (Z), 5 parities (X), 6 controlled-Z, 7 local
Layered(e) ==
   LET g == e.g
       sp == {v \in V(g) : g.ty[v] # 0}
       row(v) == e.rows[v]
   IN IF \E v \in sp : row(v) \notin {1, 2, 3, 5, 6, 7} THEN "a spider outside the layers"
      ELSE IF \E v \in sp : (row(v) = 5) # (g.ty[v] = 2) THEN "the colours of the layers"
      ELSE IF \E v \in sp : row(v) \in {2, 3, 5, 6} /\ g.ph[v] # 0 THEN "a phase outside the local layers"
      ELSE IF \E k \in 1..Len(g.ed) : LET r == <<row(g.ed[k][1]), row(g.ed[k][2])>> IN
                 g.ty[g.ed[k][1]] # 0 /\ g.ty[g.ed[k][2]] # 0 /\ r[1] = r[2] /\ (r[1] \notin {2, 6} \/ g.ed[k][3] # 2) THEN "an edge inside a layer"
      ELSE IF \E k \in 1..Len(g.ed) : LET r == {row(g.ed[k][1]), row(g.ed[k][2])} IN r = {3, 5} /\ g.ed[k][3] # 1 THEN "a Hadamard edge in the parities"
      ELSE IF \E k \in 1..Len(g.ed) : LET r == {row(g.ed[k][1]), row(g.ed[k][2])} IN
                 g.ty[g.ed[k][1]] # 0 /\ g.ty[g.ed[k][2]] # 0 /\ Cardinality(r) = 2 /\ ~ \E a, b \in {1, 2, 3, 5, 6, 7} : r = {a, b} /\ a < b /\ (b <= 3 \/ a >= 5 \/ r = {3, 5}) THEN "an edge that skips the parities"
      ELSE IF \E v \in sp : row(v) \in {1, 2, 6, 7} /\ Cardinality({w \in 1..g.n : w # v /\ row(w) = row(v) /\ g.ty[w] # 0 /\ e.qb[w] = e.qb[v]}) > 0 THEN "two spiders of a layer on one qubit"
      ELSE "ok"
NormalForm(e, x) ==
   CASE e.nm \in {"spider", "id", "pivot", "lcomp", "pivot_boundary", "pivot_gadget", "gadget", "supplementarity", "copy", "bialg"} -> RuleLeft(e.nm, x)
     [] e.nm = "phase_free" -> (IF Bialgebra(x) THEN "a bialgebra is left" ELSE "ok")
     [] e.nm = "to_gh" -> (IF OnlyZ(x) THEN "ok" ELSE "an X spider is left")
     [] e.nm = "interior" -> (IF ~ GraphLike(x) \/ ~ Simple(x) THEN "not graph-like" ELSE FirstLeft(Interior, x))
     [] e.nm = "clifford" -> (IF ~ GraphLike(x) \/ ~ Simple(x) THEN "not graph-like" ELSE FirstLeft(Interior \o <<"pivot_boundary">>, x))
     [] e.nm = "full" -> (IF ~ GraphLike(x) \/ ~ Simple(x) THEN "not graph-like"
                          ELSE LET a == FirstLeft(Interior \o <<"pivot_boundary", "pivot_gadget", "gadget">>, x) IN IF a # "ok" THEN a ELSE FullReduced(x, TRUE))
     [] e.nm = "reduce_scalar" -> (LET a == FirstLeft(Interior \o <<"pivot_gadget", "gadget", "supplementarity">>, x) IN IF a # "ok" THEN a ELSE FullReduced(x, FALSE))
     [] e.nm = "to_graph_like" -> (IF StrictGL(x) /\ Simple(x) THEN "ok" ELSE "not graph-like")
     [] e.nm = "clifford_nf" -> Layered(e)

Body(g) == [g EXCEPT !.sc = 0]
Single == {"spider", "id", "pivot", "lcomp", "pivot_boundary", "pivot_gadget", "gadget", "supplementarity", "copy", "bialg"}
Strategy(e) ==
   LET x == View1(e.g)
       nf == NormalForm(e, x)
   IN IF nf # "ok" THEN nf
      ELSE IF NCount(e.g) > NCount(e.b) THEN "more non-Clifford phases than before"
      ELSE IF e.r >= 0 /\ e.nm \in Single /\ (e.r = 0) # (Body(e.g) = Body(e.b)) THEN "the reported number of rounds does not say whether anything changed"
      ELSE IF e.again # <<>> /\ Body(e.again[1]) # Body(e.g) THEN "a second run changes the result"
      ELSE IF e.again # <<>> /\ e.r2 > 0 THEN "a second run reports rewrites"
      ELSE "ok"
GL(e) == LET x == View1(e.g) IN IF e.ans # (IF e.strict THEN StrictGL(x) ELSE GraphLike(x)) THEN "is_graph_like" ELSE "ok"
TC(e) == IF e.ans # NCount(e.g) THEN "tcount" ELSE "ok"
\* the phases move to where full reduction fuses them: no more of them than full reduction leaves
Teleport(e) == IF NCount(e.g) > NCount(e.b) THEN "more non-Clifford phases than before"
               ELSE IF NCount(e.g) # NCount(e.full) THEN "not the number of phases of full reduction" ELSE "ok"
Judge(e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "strategy" -> Strategy(e)
     [] e.a = "is_graph_like" -> GL(e)
     [] e.a = "tcount" -> TC(e)
     [] e.a = "teleport" -> Teleport(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
