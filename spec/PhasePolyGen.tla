---------------------------- MODULE PhasePolyGen ----------------------------
(***************************************************************************)
(* Circuits of CNOTs and z-rotations as a transition system.  Next to the  *)
(* phase polynomial it carries what the circuit does to every basis state. *)
(* TLC checks that the polynomial describes that action, whatever the      *)
(* order of the gates.                                                     *)
(***************************************************************************)
EXTENDS PhasePoly, Json
CONSTANTS Nq, Full, Depth, Angles
VARIABLES s, act, hist
vars == <<s, act, hist>>
Basis0 == [1..Nq -> {0, 1}]
Q == 0..(Nq - 1)
Init == s = Run(Full, Nq, <<>>) /\ act = [x \in Basis0 |-> [out |-> x, ph |-> 0]] /\ hist = <<>>
Do(o) == /\ s' = Step(Full, s, o) /\ hist' = Append(hist, o)
         /\ act' = [x \in Basis0 |-> IF o[1] = "cn" THEN [act[x] EXCEPT !.out[o[3] + 1] = (act[x].out[o[3] + 1] + act[x].out[o[2] + 1]) % 2]
                                     ELSE [act[x] EXCEPT !.ph = (act[x].ph + o[3] * act[x].out[o[2] + 1]) % Full]]
Next == /\ Len(hist) < Depth
        /\ \/ \E a, b \in Q : a # b /\ Do(<<"cn", a, b>>)
           \/ \E a \in Q, k \in Angles : Do(<<"z", a, k>>)
Spec == Init /\ [][Next]_vars
Vw == <<s, act>>
Describes == \A x \in Basis0 : LET y == Tp([i \in 1..Nq |-> x[i]]) IN
   /\ Tp([i \in 1..Nq |-> act[x].out[i]]) = MatVec(s.rows, y)
   /\ act[x].ph = PhaseAt(Full, s.ph, y)
Reversible == Invertible(s.rows)
NoZero == \A p \in DOMAIN s.ph : s.ph[p] # 0 /\ ~ IsZeroRow(p)
Emitted == Len(hist) >= 2 => PrintT(ToJson([n |-> Nq, ops |-> hist]))
=============================================================================
