---------------------------- MODULE ZXRulesGen ----------------------------
(***************************************************************************)
(* The rules of ZXRules as a transition system: TLC starts from every      *)
(* graph-like diagram up to a size, applies every rule wherever it         *)
(* applies, and checks that the linear map (scalar included) never         *)
(* changes and that reductions really make diagrams smaller.  The start    *)
(* diagrams are emitted for the real code.                                 *)
(***************************************************************************)
EXTENDS ZXRules, Json
CONSTANTS Sizes, Phases, Depth, EmitAll
VARIABLES d, orig, steps, last
vars == <<d, orig, steps, last>>
Pts == <<<<12345, 777, 23456, 3>>, <<9999, 31000, 5, 4711>>>>
M(x) == Meaning(ToGraph(x), Pts)
Start(n, ph, h, S) == [v |-> 1..n, ph |-> ph, h |-> h, bd |-> [i \in 1..Cardinality(S) |-> <<SetToSortSeq(S, <)[i], 1>>], p2 |-> 0, sph |-> 0, nodes |-> <<>>]
Init == \E n \in Sizes : \E ph \in [1..n -> Phases], h \in SUBSET PairsIn(1..n), S \in SUBSET (1..n) :
           /\ d = Start(n, ph, h, S) /\ orig = M(Start(n, ph, h, S)) /\ steps = 0 /\ last = "start"
Do(x, nm) == d' = x /\ last' = nm /\ steps' = steps + 1 /\ UNCHANGED orig
Reduce == \/ \E a \in d.v : \/ CanLComp(d, a) /\ Do(LComp(d, a), "lcomp")
                            \/ CanId(d, a) /\ Do(IdRemove(d, a), "id")
                            \/ CanCopy(d, a) /\ Do(Copy(d, a), "copy")
                            \/ CanScalar(d, a) /\ Do(ToScalar(d, a), "scalar")
          \/ \E a, b \in d.v : \/ a < b /\ CanPivot(d, a, b) /\ Do(Pivot(d, a, b), "pivot")
                               \/ CanFlip(d, a, b) /\ Do(Flip(d, a, b), "flip")
          \/ \E e, f \in {<<a, b>> \in d.v \X d.v : IsGadget(d, a, b)} : CanMerge(d, e, f) /\ Do(Merge(d, e, f), "merge")
Expand == \/ \E a \in d.v : Interior(d, a) /\ Degree(d, a) > 1 /\ Do(LcCong(d, a), "lc")
          \/ \E a, b \in d.v : a < b /\ {a, b} \in d.h /\ Do(PivotCong(d, a, b), "pivotcong")
Next == steps < Depth /\ (Reduce \/ (last = "start" /\ Expand))
Spec == Init /\ [][Next]_vars
Vw == <<d, orig, steps>>
Sound == M(d) = orig
GraphLike == /\ \A e \in d.h : Cardinality(e) = 2 /\ e \subseteq d.v
             /\ \A i \in 1..Len(d.bd) : d.bd[i][1] \in d.v
             /\ \A a \in d.v : d.ph[a] \in 0..(N - 1)
Smaller == [][(d'.v # d.v => \/ Cardinality(d'.v) < Cardinality(d.v) \/ last' \in {"lc", "pivotcong"})]_vars
Emitted == steps = 0 => (EmitAll => PrintT(ToJson([g |-> ToGraph(d)])))
=============================================================================
