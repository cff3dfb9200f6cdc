------------------------------ MODULE RouteGen ------------------------------
(***************************************************************************)
(* CNOT routing as a transition system: a parity map on the qubits of a    *)
(* coupling graph, and CNOTs along its edges.  TLC explores every map that *)
(* can be reached from the identity.  Exactly the invertible maps are      *)
(* reached iff the graph is connected; the level at which a map is found   *)
(* is the least number of CNOTs that realises it.                          *)
(***************************************************************************)
EXTENDS F2, Json
CONSTANTS N, Graphs, Emit
VARIABLES g, m
All == IF Graphs = {} THEN SUBSET {<<i, j>> \in (1..N) \X (1..N) : i < j} ELSE Graphs
Sym(x) == x \cup {<<e[2], e[1]>> : e \in x}
RECURSIVE Closure(_, _)
Closure(x, S) == LET T == S \cup {w \in 1..N : \E v \in S : <<v, w>> \in Sym(x)} IN IF T = S THEN S ELSE Closure(x, T)
Conn(x) == Closure(x, {1}) = 1..N
Init == g \in {x \in All : Conn(x)} /\ m = IdM(N)
Next == \E e \in Sym(g) : m' = RowAdd(m, e[1], e[2]) /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, m>>
AlwaysInvertible == Invertible(m)
\* a step is undone by itself, so reachability is symmetric
Reversible == [][\E e \in Sym(g) : RowAdd(m', e[1], e[2]) = m]_<<g, m>>
Gl(n) == IF n = 1 THEN 1 ELSE IF n = 2 THEN 6 ELSE IF n = 3 THEN 168 ELSE 20160
\* every invertible map is reached on every connected graph
Post == TLCGet("distinct") = Gl(N) * Cardinality({x \in All : Conn(x)})
Emitted == Emit => PrintT(ToJson([n |-> N, ed |-> SetToSeq(g), m |-> m, d |-> TLCGet("level") - 1]))
=============================================================================
