------------------------------- MODULE Gflow -------------------------------
(***************************************************************************)
(* Generalised flow of open graphs whose vertices are all measured in the  *)
(* XY plane.  An open graph is a set V of vertices, a set E of edges       *)
(* {v, w}, inputs I and outputs O.                                         *)
(***************************************************************************)
EXTENDS F2
NbrsG(g, v) == {w \in g.V : {v, w} \in g.E /\ w # v}
\* odd neighbourhood of a set
OddN(g, X) == {v \in g.V : Cardinality(NbrsG(g, v) \cap X) % 2 = 1}
\* u may be measured before everything in "done": a set of done vertices that are not inputs corrects it
Corrects(g, done, u, X) == OddN(g, X) \ done = {u}
CanCorrect(g, done, u) == \E X \in SUBSET (done \ g.I) : Corrects(g, done, u, X)
\* the same by linear algebra
CanCorrectL(g, done, u) ==
   LET rest == SetToSeq(g.V \ done)
       row(S) == Tp([i \in 1..Len(rest) |-> IF rest[i] \in S THEN 1 ELSE 0])
       m == SetToSeq({row(NbrsG(g, v)) : v \in done \ g.I})
   IN Len(m) > 0 /\ InSpan(m, row({u}))
\* the definition: a correction set for every measured vertex, compatible with a strict order (lower levels are later)
IsGflow(g, f, lev) ==
   \A u \in g.V \ g.O :
      /\ f[u] \cap g.I = {} /\ f[u] \subseteq g.V /\ u \notin f[u]
      /\ u \in OddN(g, f[u])
      /\ \A v \in (f[u] \cup OddN(g, f[u])) \ {u} : lev[v] < lev[u]
Exists(g) ==
   \E p \in Permutations(g.V \ g.O) :     \* p as an arbitrary order of the measured vertices
      LET s == SetToSeq(g.V \ g.O)
          at == [u \in g.V \ g.O |-> CHOOSE i \in 1..Len(s) : p[s[i]] = u]
      IN \A u \in g.V \ g.O : \E X \in SUBSET (g.V \ g.I) :
            /\ u \in OddN(g, X) /\ u \notin X
            /\ \A v \in (X \cup OddN(g, X)) \ {u} : v \in g.O \/ at[v] < at[u]
\* layers, outputs first: as early from the outputs as possible
RECURSIVE LayersFrom(_, _, _, _)
LayersFrom(g, done, lev, k) ==
   LET new == {u \in g.V \ done : CanCorrectL(g, done, u)}
   IN IF new = {} THEN [done |-> done, lev |-> lev]
      ELSE LayersFrom(g, done \cup new, [v \in DOMAIN lev \cup new |-> IF v \in new THEN k ELSE lev[v]], k + 1)
Layers(g) == LayersFrom(g, g.O, [v \in g.O |-> 0], 1)
HasGflow(g) == Layers(g).done = g.V
=============================================================================
