------------------------------- MODULE Arch -------------------------------
(***************************************************************************)
(* Coupling graphs.  An architecture is a record                           *)
(*   n     number of vertices, which are 0..n-1 after renaming             *)
(*   ed    sequence of undirected edges <<u, v>>                           *)
(*   map   sequence: map[q+1] is the vertex that holds qubit q             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Verts(a) == 0..(a.n - 1)
AdjSet(a) == {<<a.ed[i][1], a.ed[i][2]>> : i \in 1..Len(a.ed)} \cup {<<a.ed[i][2], a.ed[i][1]>> : i \in 1..Len(a.ed)}
Nbrs(A, S, v) == {w \in S : <<v, w>> \in A}
\* closure and distance layers under a set A of directed pairs within S
RECURSIVE Grow(_, _, _)
Grow(A, S, X) == LET Y == X \cup {w \in S : \E v \in X : <<v, w>> \in A} IN IF Y = X THEN X ELSE Grow(A, S, Y)
Reach(A, S, v) == Grow(A, S, {v})
Connected(A, S) == S = {} \/ LET v == CHOOSE v \in S : TRUE IN Reach(A, S, v) = S
RECURSIVE LayersFrom(_, _, _, _)
LayersFrom(A, S, seen, X) == IF X = {} THEN <<>> ELSE <<X>> \o LayersFrom(A, S, seen \cup X, {w \in S \ (seen \cup X) : \E v \in X : <<v, w>> \in A})
\* sequence of the sets of vertices at distance 0, 1, 2, ... from v
Layers(A, S, v) == LayersFrom(A, S, {}, {v})
DistIn(L, w) == IF \E i \in 1..Len(L) : w \in L[i] THEN (CHOOSE i \in 1..Len(L) : w \in L[i]) - 1 ELSE -1
\* number of connected components within S
RECURSIVE Comps(_, _)
Comps(A, S) == IF S = {} THEN 0 ELSE 1 + Comps(A, S \ Reach(A, S, CHOOSE v \in S : TRUE))
NonCutting(A, S) == {v \in S : Comps(A, S \ {v}) <= Comps(A, S)}
IsPath(A, p) == \A i \in 1..(Len(p) - 1) : <<p[i], p[i + 1]>> \in A

\* seen from the qubits
QAdj(a) == {<<q, r>> \in (0..(a.n - 1)) \X (0..(a.n - 1)) : <<a.map[q + 1], a.map[r + 1]>> \in AdjSet(a)}
\* the directed graph in which row operations may go down, or anywhere within rec
Down(Q, rec) == {e \in Q : e[1] > e[2] \/ (e[1] \in rec /\ e[2] \in rec)}

(* A tree given by its edges in the order of a walk from the root.          *)
WalkTree(root, es) ==
   \A i \in 1..Len(es) :
      /\ es[i][1] \in {root} \cup {es[j][2] : j \in 1..(i - 1)}
      /\ es[i][2] \notin {root} \cup {es[j][2] : j \in 1..(i - 1)}
TreeNodes(root, es) == {root} \cup {es[i][2] : i \in 1..Len(es)}
\* the same edges, every edge before the one it hangs on
WalkUp(es, up) == /\ Len(up) = Len(es) /\ {up[i] : i \in 1..Len(up)} = {es[i] : i \in 1..Len(es)}
                  /\ \A i, j \in 1..Len(up) : up[i][2] = up[j][1] => j < i
=============================================================================
