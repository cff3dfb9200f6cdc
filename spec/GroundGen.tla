----------------------------- MODULE GroundGen -----------------------------
(***************************************************************************)
(* The rules that distinguish diagrams with grounds, on all diagrams of    *)
(* two Z spiders (phases from Phases, plain, Hadamard or no wire between   *)
(* them, any of them grounded, one boundary on each at most): the phase of *)
(* a grounded spider is irrelevant, a spider fused with a grounded one is  *)
(* grounded, an isolated grounded spider contributes sqrt(2), and a state  *)
(* or effect copied through a spider may only be removed where nothing is  *)
(* grounded.  Each step keeps the completely positive map.                 *)
(***************************************************************************)
EXTENDS Meaning
CONSTANTS Phases
VARIABLES d, gr, ref
vars == <<d, gr, ref>>
NoScalar == [p2 |-> 0, ph |-> 0, nodes |-> <<>>, ff |-> <<1, 0, 0, 0, 0>>, zero |-> FALSE]
\* spiders 1, 2; boundaries follow for those in bs
Build(pa, pb, et, bs, h) ==
   LET n == 2 + Cardinality(bs)
       nb(v) == 2 + Cardinality({u \in bs : u <= v})
   IN [n |-> n, ty |-> Tup([i \in 1..n |-> IF i <= 2 THEN 1 ELSE 0]), ph |-> Tup([i \in 1..n |-> IF i = 1 THEN pa ELSE IF i = 2 THEN pb ELSE 0]),
       lb |-> Tup([i \in 1..n |-> <<>>]),
       ed |-> (IF et = 0 THEN <<>> ELSE <<<<1, 2, et>>>>) \o SetToSeq({<<v, nb(v), h>> : v \in bs}),
       inp |-> <<>>, out |-> SetToSortSeq({nb(v) : v \in bs}, LAMBDA x, y : x < y), sc |-> NoScalar]
Order(n) == Tup([i \in 1..(2 * n) |-> IF i % 2 = 1 THEN (i + 1) \div 2 ELSE n + i \div 2])
Pts == <<<<3, 5, 7, 11>>, <<123, 4567, 891, 10111>>>>
Mean(g, s) == ObjMeaning([k |-> "proc", g |-> g, gr |-> SetToSeq(s), ord |-> Order(g.n)], Pts)
Init == \E pa \in Phases, pb \in Phases, et \in 0..2, bs \in SUBSET {1, 2}, s \in SUBSET {1, 2}, h \in {1, 2} :
           /\ d = Build(pa, pb, et, bs, h) /\ gr = s /\ ref = Mean(d, s)
GroundPhase(v) == v \in gr /\ d.ph[v] # 0 /\ d' = [d EXCEPT !.ph[v] = 0] /\ UNCHANGED <<gr, ref>>
\* the wire (1, 2) is contracted into spider 1; spider 2 stays behind as the scalar sqrt(2)
Fuse ==
   /\ \E k \in 1..Len(d.ed) : d.ed[k] = <<1, 2, 1>>
   /\ d' = [d EXCEPT !.ph = [[@ EXCEPT ![1] = (d.ph[1] + d.ph[2]) % N] EXCEPT ![2] = 0],
                     !.ed = Tup([k \in 1..(Len(d.ed) - 1) |->
                        LET e == SelectSeq(d.ed, LAMBDA x : x # <<1, 2, 1>>)[k] IN IF e[1] = 2 THEN <<1, e[2], e[3]>> ELSE e]),
                     !.sc = [d.sc EXCEPT !.p2 = @ - 2]]
   /\ gr' = IF 2 \in gr THEN (gr \ {2}) \cup {1} ELSE gr
   /\ UNCHANGED ref
\* an isolated grounded spider is traded for a plain one and a scalar: 2 = sqrt(2) * sqrt(2) doubled, against 2 * 2
Isolated(v) ==
   /\ v \in gr /\ d.ph[v] = 0 /\ \A k \in 1..Len(d.ed) : d.ed[k][1] # v /\ d.ed[k][2] # v
   /\ gr' = gr \ {v} /\ d' = [d EXCEPT !.sc = [d.sc EXCEPT !.p2 = @ - 1]] /\ UNCHANGED ref
Next == (\E v \in {1, 2} : GroundPhase(v) \/ Isolated(v)) \/ Fuse
Spec == Init /\ [][Next]_vars
Kept == Mean(d, gr) = ref
\* what a rule may not do: pretend that a ground is not there
Needed == (~IsZeroM(ref) /\ (\A k \in 1..Len(d.ed) : d.ed[k][2] # 2) /\ \E v \in gr : \E k \in 1..Len(d.ed) : d.ed[k][1] = v /\ d.ed[k][2] > 2) =>
             ~Proportional(ref, Mean(d, {}))
=============================================================================
