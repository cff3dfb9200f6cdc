------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* Diffs of diagrams.  A diagram is a record                               *)
(*   at   function from its vertices to their attributes (a record)        *)
(*   ed   function from <<s, t, type>>, s <= t, to multiplicities > 0      *)
(* A diff lists what disappeared and what is new or different; positions,  *)
(* types, phases and data of a vertex are attributes of their own.         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
Cut(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Mult(f, e) == IF e \in DOMAIN f THEN f[e] ELSE 0
Less(x, y) == IF x > y THEN x - y ELSE 0
Positive(f) == [e \in {e \in DOMAIN f : f[e] > 0} |-> f[e]]
Fields(a) == UNION {DOMAIN a.at[v] : v \in DOMAIN a.at}

DiffOf(a, b) ==
   LET old == DOMAIN a.at  now == DOMAIN b.at IN
   [gone |-> old \ now,
    new  |-> now \ old,
    \* what is to be set: for a new vertex everything, for an old one what differs
    set  |-> [v \in now |-> [f \in {f \in DOMAIN b.at[v] : v \notin old \/ a.at[v][f] # b.at[v][f]} |-> b.at[v][f]]],
    minus |-> Positive([e \in DOMAIN a.ed |-> Less(a.ed[e], Mult(b.ed, e))]),
    plus  |-> Positive([e \in DOMAIN b.ed |-> Less(b.ed[e], Mult(a.ed, e))])]

ApplyDiff(d, a) ==
   LET vs == (DOMAIN a.at \ d.gone) \cup d.new
       over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
       ed == [e \in DOMAIN a.ed \cup DOMAIN d.plus |-> Less(Mult(a.ed, e), Mult(d.minus, e)) + Mult(d.plus, e)]
   IN [at |-> [v \in vs |-> IF v \in DOMAIN d.set THEN (IF v \in d.new THEN d.set[v] ELSE over(a.at[v], d.set[v])) ELSE a.at[v]],
       ed |-> Positive([e \in {e \in DOMAIN ed : e[1] \in vs /\ e[2] \in vs} |-> ed[e]])]
EmptyDiff(d) == d.gone = {} /\ d.new = {} /\ (\A v \in DOMAIN d.set : DOMAIN d.set[v] = {}) /\ DOMAIN d.minus = {} /\ DOMAIN d.plus = {}
=============================================================================
