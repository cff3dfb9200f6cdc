------------------------------ MODULE ToddGen ------------------------------
(***************************************************************************)
(* Third order duplicate and destroy as a transition system on parity      *)
(* matrices without zero and equal columns (sets of parities).  TLC checks *)
(* for every such matrix and every step it allows that only Clifford gates *)
(* are added or lost, that a step that makes two columns equal removes at  *)
(* least one column, that the multilinear form is what the matrix does to  *)
(* every basis state and that Match describes when such a step exists.     *)
(***************************************************************************)
EXTENDS Todd, Json
CONSTANTS Nq, MaxCols
VARIABLES cols, prev, step
vars == <<cols, prev, step>>
Vecs == {Tp(f) : f \in [1..Nq -> {0, 1}]}
NonZero == {v \in Vecs : ~ IsZeroRow(v)}
Starts == UNION {kSubset(k, NonZero) : k \in 0..MaxCols}
Init == cols \in Starts /\ prev = cols /\ step = [kind |-> "start"]
Next == /\ step.kind = "start"
        /\ LET s == SetToSeq(cols) IN
           \E z \in NonZero, y \in {Tp(f) : f \in [1..Len(s) -> {0, 1}]} :
             /\ \E i \in 1..Len(s) : y[i] = 1
             /\ MayAdd(Nq, s, z, y)
             /\ cols' = Reduce2(AddTo(s, z, y)) /\ prev' = cols
             /\ step' = [kind |-> "todd", dup |-> \E i, j \in 1..Len(s) : y[i] + y[j] = 1 /\ XorRow(s[i], s[j]) = z]
Spec == Init /\ [][Next]_vars
Form(S) == Multi(Nq, OfCols(SetToSeq(S)))
SameClass == step.kind = "todd" => Class(Nq, Form(prev)) = Class(Nq, Form(cols)) /\ Clifford(MinusM(Nq, Form(prev), Form(cols)))
Destroys == step.kind = "todd" => /\ Cardinality(cols) <= Cardinality(prev) + 1
                                  /\ (step.dup => Cardinality(cols) < Cardinality(prev))
                                  /\ (step.dup => Match(Nq, SetToSeq(prev)))
Exact == step.kind = "start" => \A x \in Vecs : MultiAt(Nq, Form(cols), x) = PhaseAt(8, OfPairs(8, OfCols(SetToSeq(cols))), x)
\* the converse: where Match holds, some step destroys columns
Complete == step.kind = "start" => (Match(Nq, SetToSeq(cols)) => ENABLED (Next /\ step'.dup))
Emitted == step.kind = "start" => PrintT(ToJson([n |-> Nq, cols |-> SetToSeq(cols)]))
=============================================================================
