------------------------------ MODULE MbqcGen ------------------------------
(***************************************************************************)
(* Deterministic measurement patterns.  The qubits of the grid, whose      *)
(* first column are inputs and whose last column are outputs, are measured *)
(* column by column at any angle from Angles; outcome 1 of the measurement *)
(* of (q, r) is repaired by X on (q, r+1) and Z on the other neighbours of *)
(* (q, r+1).  TLC explores every choice of angles and outcomes and checks  *)
(* that the map does not depend on the outcomes: the flow theorem on these *)
(* grids, stated with the semantics of Mbqc, against which the recorded    *)
(* histories of the implementation are judged.                             *)
(***************************************************************************)
EXTENDS Meaning, Json
CONSTANTS M, NC, Angles, Emit
VARIABLES done, ev, det          \* det: the same measurements, all with outcome 0
vars == <<done, ev, det>>
Inp == TLCEval([q \in 1..M |-> <<q - 1, 0>>])
Pat(e) == [k |-> "pat", p |-> [m |-> M, n |-> NC, inp |-> Inp, ev |-> e]]
Init == done = 0 /\ ev = <<>> /\ det = <<>>
Nb(q, r) == {<<q, r + 1>>, <<q, r - 1>>, <<q + 1, r>>, <<q - 1, r>>} \cap ((0..(M - 1)) \X (0..(NC - 1)))
Correct(q, r) == <<<<"pauli", q, r + 1, 2>>>> \o
   FoldSet(LAMBDA w, a : Append(a, <<"pauli", w[1], w[2], 1>>), <<>>, Nb(q, r + 1) \ {<<q, r>>})
Measure(a, s) ==
   /\ done < M * (NC - 1)
   /\ LET q == done % M
          r == done \div M
      IN /\ ev' = ev \o <<<<"meas", q, r, 1, (a + s * HalfN) % N>>>> \o (IF s = 1 THEN Correct(q, r) ELSE <<>>)
         /\ det' = Append(det, <<"meas", q, r, 1, a>>)
   /\ done' = done + 1
Next == \E a \in Angles, s \in {0, 1} : Measure(a, s)
Spec == Init /\ [][Next]_vars
Point == [i \in 1..12 |-> 17 * i * i + 5 * i + 2]
Pts == <<[i \in 1..(2 * M * NC) |-> Point[i]], [i \in 1..(2 * M * NC) |-> Point[i] * 7 + i]>>
Deterministic == Proportional(ObjMeaning(Pat(ev), Pts), ObjMeaning(Pat(det), Pts))
\* only qubits that are still there are touched
Guarded == \A k \in 1..Len(ev) : Possible([m |-> M, n |-> NC, inp |-> Inp, ev |-> SubSeq(ev, 1, k - 1)], ev[k])
Emitted == Emit /\ done = M * (NC - 1) => PrintT(ToJson([m |-> M, n |-> NC, pev |-> ev]))
=============================================================================
