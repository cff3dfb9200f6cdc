----------------------------- MODULE ScalarGen -----------------------------
(***************************************************************************)
(* The scalar machine as a closed system: all histories up to a bound over *)
(* a small alphabet and two registers.  TLC checks the laws of the design  *)
(* and emits the histories for the real code.                              *)
(***************************************************************************)
EXTENDS ScalarADT, Json
CONSTANTS Depth, Emit
VARIABLES st, hist
vars == <<st, hist>>
E == N \div 8           \* pi/4
Angles == {E, 2 * E, 4 * E, 5 * E, 0}
SpiderPairs == {<<0, E>>, <<E, 7 * E>>, <<3 * E, 5 * E>>, <<4 * E, 4 * E>>, <<4 * E, 0>>, <<2 * E, E>>, <<E, 6 * E>>, <<6 * E, 2 * E>>, <<E, E>>}
Floats == {<<0, 0, 0, 0, 0>>, <<0, 0, 1, 0, 0>>, <<1, 0, 1, 0, 1>>}
Init == st = << <<>> >> /\ hist = <<[a |-> "new"]>>
Do(e) == st' = ScStep(st, e) /\ hist' = Append(hist, e)
R == 1..Len(st)
Next == /\ Len(hist) <= Depth
        /\ \/ \E r \in R, k \in {-1, 2} : Do([a |-> "add_power", r |-> r, k |-> k])
           \/ \E r \in R, k \in Angles \ {0} : Do([a |-> "add_phase", r |-> r, k |-> k])
           \/ \E r \in R, k \in Angles : Do([a |-> "add_node", r |-> r, k |-> k])
           \/ \E r \in R, f \in Floats : Do([a |-> "add_float", r |-> r, f |-> f])
           \/ \E r \in R, p \in SpiderPairs : Do([a |-> "add_spider_pair", r |-> r, k |-> p[1], l |-> p[2]])
           \/ \E r, s \in R : r # s /\ Do([a |-> "mult_with_scalar", r |-> r, s |-> s])
           \/ \E r \in R : Do([a |-> "set_unknown", r |-> r])
           \/ Len(st) < 2 /\ \E a \in {"copy", "conjugate", "json", "new"} : Do([a |-> a, r |-> 1])
Spec == Init /\ [][Next]_vars
\* laws of the design
Laws == \A r \in R :
   /\ ScVal(ScConj(ScConj(st[r]))) = ScVal(st[r])
   /\ ScUnknown(ScConj(st[r])) = ScUnknown(st[r])
   /\ \A s \in R : ScVal(st[r] \o st[s]) = Mul(ScVal(st[r]), ScVal(st[s]))
   /\ \A s \in R : ScVal(ScConj(st[r] \o st[s])) = Mul(ScVal(ScConj(st[r])), ScVal(ScConj(st[s])))
Emitted == Emit /\ Len(hist) = Depth + 1 => PrintT(ToJson(hist))
=============================================================================
