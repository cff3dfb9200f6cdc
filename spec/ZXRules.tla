------------------------------ MODULE ZXRules ------------------------------
(***************************************************************************)
(* The rewrite rules of the Clifford-oriented ZX-calculus on graph-like    *)
(* diagrams (Z spiders, at most one Hadamard edge between two of them,     *)
(* boundaries attached to spiders), with their exact scalars.              *)
(*                                                                         *)
(* A diagram is a record [v: set of names, ph: phases, h: set of Hadamard  *)
(* edges {a, b}, bd: sequence of <<spider, type>>, p2, sph, nodes]: the    *)
(* scalar is sqrt2^p2 e^(i sph) prod (1 + e^(i nodes[k])).                 *)
(***************************************************************************)
EXTENDS ZXSem, FiniteSetsExt
HalfTurn == N \div 2
QuarterTurn == N \div 4

Nbs(d, a) == {b \in d.v : {a, b} \in d.h /\ a # b}
Legs(d, a) == {i \in 1..Len(d.bd) : d.bd[i][1] = a}
Interior(d, a) == Legs(d, a) = {}
Degree(d, a) == Cardinality(Nbs(d, a)) + Cardinality(Legs(d, a))
Pauli(d, a) == d.ph[a] % HalfTurn = 0
Proper(d, a) == d.ph[a] % HalfTurn = QuarterTurn
PairsIn(S) == {e \in SUBSET S : Cardinality(e) = 2}
PairsOf(S, T) == {{a, b} : a \in S, b \in T}

AddPh(d, S, k) == [d EXCEPT !.ph = [a \in d.v |-> IF a \in S THEN (d.ph[a] + k) % N ELSE d.ph[a]]]
Scale(d, p2, k) == [d EXCEPT !.p2 = @ + p2, !.sph = (@ + k) % N]
\* add Hadamard edges; a pair that is already connected is disconnected instead
Toggle(d, es) == Scale([d EXCEPT !.h = (d.h \ es) \cup (es \ d.h)], 0 - 2 * Cardinality(d.h \cap es), 0)
Drop(d, S) == [d EXCEPT !.v = @ \ S, !.h = {e \in @ : e \cap S = {}}, !.ph = [a \in d.v \ S |-> d.ph[a]]]
Fresh(d) == Max(d.v \cup {0}) + 1
NewSpider(d, k) == [d EXCEPT !.v = @ \cup {Fresh(d)}, !.ph = [a \in d.v \cup {Fresh(d)} |-> IF a = Fresh(d) THEN k % N ELSE d.ph[a]]]

\* local complementation removes an interior proper Clifford spider
CanLComp(d, a) == a \in d.v /\ Interior(d, a) /\ Proper(d, a)
LComp(d, a) ==
   LET S == Nbs(d, a)  n == Cardinality(S) IN
   Toggle(AddPh(Scale(Drop(d, {a}), ((n - 1) * (n - 2)) \div 2, IF d.ph[a] = QuarterTurn THEN N \div 8 ELSE N - N \div 8), S, N - d.ph[a]), PairsIn(S))

\* pivoting removes two adjacent interior Pauli spiders
CanPivot(d, a, b) == {a, b} \in d.h /\ a # b /\ \A x \in {a, b} : Interior(d, x) /\ Pauli(d, x)
Pivot(d, a, b) ==
   LET A == Nbs(d, a) \ {b}  B == Nbs(d, b) \ {a}
       C == A \cap B  A0 == A \ C  B0 == B \ C
       es == PairsOf(A0, B0) \cup PairsOf(A0, C) \cup PairsOf(B0, C)
       s1 == Scale(Drop(d, {a, b}), 2 - (1 + Cardinality(A) + Cardinality(B)) + Cardinality(es), IF d.ph[a] # 0 /\ d.ph[b] # 0 THEN HalfTurn ELSE 0)
   IN Toggle(AddPh(AddPh(AddPh(s1, A, d.ph[b]), B, d.ph[a]), C, HalfTurn), es)

\* a spider without phase and with two Hadamard legs identifies its neighbours
CanId(d, a) == a \in d.v /\ Interior(d, a) /\ d.ph[a] = 0 /\ Cardinality(Nbs(d, a)) = 2
\* fuse b into a; the wire between them is plain
FuseInto(d, a, b) ==
   LET S == Nbs(d, b) \ {a}
       loop == {a, b} \in d.h
       s1 == [AddPh(Drop(d, {b}), {a}, d.ph[b]) EXCEPT !.bd = [i \in 1..Len(d.bd) |-> IF d.bd[i][1] = b THEN <<a, d.bd[i][2]>> ELSE d.bd[i]]]
       s2 == IF loop THEN Scale(AddPh(s1, {a}, HalfTurn), 0 - 1, 0) ELSE s1
   IN Toggle(s2, {{a, x} : x \in S})
IdRemove(d, a) ==
   LET S == Nbs(d, a)  p == CHOOSE x \in S : \A y \in S : x <= y  q == CHOOSE x \in S : x # p
   IN FuseInto(Drop(d, {a}), p, q)

\* a Pauli spider with one leg is copied through its neighbour
CanCopy(d, a) == a \in d.v /\ Interior(d, a) /\ Pauli(d, a) /\ Cardinality(Nbs(d, a)) = 1 /\ \A b \in Nbs(d, a) : Interior(d, b)
Copy(d, a) ==
   LET b == CHOOSE x \in Nbs(d, a) : TRUE
       S == Nbs(d, b) \ {a}
   IN AddPh(Scale(Drop(d, {a, b}), 1 - Cardinality(S), IF d.ph[a] = 0 THEN 0 ELSE d.ph[b]), S, d.ph[a])

\* isolated spiders are numbers
CanScalar(d, a) == a \in d.v /\ Degree(d, a) = 0
ToScalar(d, a) == [Drop(d, {a}) EXCEPT !.nodes = Append(@, d.ph[a])]

\* phase gadgets: a leaf on a hub without phase
IsGadget(d, hub, leaf) == {hub, leaf} \in d.h /\ hub # leaf /\ Interior(d, hub) /\ Interior(d, leaf) /\ d.ph[hub] = 0 /\ Nbs(d, leaf) = {hub}
CanMerge(d, x, y) == x[1] # y[1] /\ x[2] # y[2] /\ IsGadget(d, x[1], x[2]) /\ IsGadget(d, y[1], y[2]) /\ Nbs(d, x[1]) \ {x[2]} = Nbs(d, y[1]) \ {y[2]}
                     /\ Cardinality(Nbs(d, x[1])) > 1 /\ x[1] \notin Nbs(d, y[1]) /\ y[1] # x[2] /\ x[1] # y[2]
Merge(d, x, y) == LET n == Cardinality(Nbs(d, x[1])) - 1 IN AddPh(Scale(Drop(d, {y[1], y[2]}), 1 - n, 0), {x[2]}, d.ph[y[2]])
\* a hub with phase pi negates its leaf
CanFlip(d, hub, leaf) == {hub, leaf} \in d.h /\ hub # leaf /\ Interior(d, hub) /\ Interior(d, leaf) /\ d.ph[hub] = HalfTurn /\ Nbs(d, leaf) = {hub}
Flip(d, hub, leaf) == [Scale(d, 0, d.ph[leaf]) EXCEPT !.ph[hub] = 0, !.ph[leaf] = (N - d.ph[leaf]) % N]

(* -- congruences: nothing is removed ------------------------------------ *)
\* move the phase of a (and its boundaries) away through two Hadamard edges
Unfuse(d, a, keep, legs) ==
   LET s1 == NewSpider([d EXCEPT !.ph[a] = keep], 0)  x == Fresh(d)
       s2 == NewSpider(s1, (d.ph[a] + N - keep) % N)   y == Fresh(s1)
   IN [s2 EXCEPT !.h = @ \cup {{a, x}, {x, y}},
                 !.bd = [i \in 1..Len(d.bd) |-> IF legs /\ d.bd[i][1] = a THEN <<y, d.bd[i][2]>> ELSE d.bd[i]]]
LcCong(d, a) == LComp(Unfuse(d, a, N - QuarterTurn, FALSE), a)
PivotCong(d, a, b) == Pivot(Unfuse(Unfuse(d, a, 0, TRUE), b, 0, TRUE), a, b)

(* -- as a diagram of ZXSem ----------------------------------------------- *)
ToGraph(d) ==
   LET vs == SetToSortSeq(d.v, <)  k == Len(vs)  nb == Len(d.bd)
       at(a) == CHOOSE i \in 1..k : vs[i] = a
       es == SetToSeq(d.h)
       lo(e) == CHOOSE x \in e : \A y \in e : x <= y
       hi(e) == CHOOSE x \in e : \A y \in e : x >= y
   IN [n |-> k + nb, ty |-> [i \in 1..(k + nb) |-> IF i <= k THEN 1 ELSE 0],
       ph |-> [i \in 1..(k + nb) |-> IF i <= k THEN d.ph[vs[i]] ELSE 0],
       lb |-> [i \in 1..(k + nb) |-> <<>>],
       ed |-> [i \in 1..Len(es) |-> <<at(lo(es[i])), at(hi(es[i])), 2>>] \o [i \in 1..nb |-> <<at(d.bd[i][1]), k + i, d.bd[i][2]>>],
       inp |-> [i \in 1..nb |-> k + i], out |-> <<>>,
       sc |-> [p2 |-> d.p2, ph |-> d.sph, nodes |-> d.nodes, ff |-> <<1, 0, 0, 0, 0>>, zero |-> FALSE],
       ord |-> [i \in 1..(k + nb) |-> i]]
=============================================================================
