------------------------------ MODULE ArchGen ------------------------------
(***************************************************************************)
(* All coupling graphs on K vertices, built edge by edge; TLC checks the   *)
(* theory and emits the connected ones for the real code.                  *)
(***************************************************************************)
EXTENDS Arch, Json
CONSTANTS K, Emit
VARIABLE E
V == 0..(K - 1)
Init == E = {}
Next == \E u, v \in V : u < v /\ <<u, v>> \notin E /\ E' = E \cup {<<u, v>>}
Spec == Init /\ [][Next]_E
A == E \cup {<<e[2], e[1]>> : e \in E}
D(u, v) == DistIn(Layers(A, V, u), v)
\* a connected graph has two vertices that can be removed (if it has two at all)
Theory1 == Connected(A, V) => Cardinality(NonCutting(A, V)) >= IF K >= 2 THEN 2 ELSE 1
\* distances are a metric, one step apart exactly along edges
Theory2 == \A u, v \in V : /\ D(u, v) = D(v, u) /\ (D(u, v) = 1 <=> <<u, v>> \in A)
                           /\ \A w \in V : D(u, v) >= 0 /\ D(v, w) >= 0 => D(u, w) >= 0 /\ D(u, w) <= D(u, v) + D(v, w)
Theory3 == Connected(A, V) <=> Comps(A, V) = 1
\* an edge joins two components or leaves their number
StepComps == [][LET B == E' \cup {<<e[2], e[1]>> : e \in E'} IN Comps(B, V) \in {Comps(A, V), Comps(A, V) - 1}]_E
Emitted == Emit /\ Connected(A, V) => PrintT(ToJson([n |-> K, ed |-> SetToSeq(E)]))
=============================================================================
