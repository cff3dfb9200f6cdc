----------------------------- MODULE HybridGen -----------------------------
(***************************************************************************)
(* All hybrid circuits of NQ qubits and NB bits with at most Depth         *)
(* operations from a small alphabet, and the laws of completely positive   *)
(* trace preserving maps on them: whatever happens, discarding everything  *)
(* afterwards is discarding everything at the start; a measured qubit and  *)
(* a written bit are classical; measuring again changes nothing; and a     *)
(* measurement without a result is one whose result is discarded.  Those   *)
(* that are complete are replayed against the implementation.              *)
(***************************************************************************)
EXTENDS Meaning, Json
CONSTANTS NQ, NB, Depth, Emit
VARIABLES ops
vars == <<ops>>
Gate(nm, q, p) == [nm |-> nm, q |-> q, p |-> p]
Alphabet ==
   {Gate("HAD", <<q>>, <<>>) : q \in 1..NQ} \cup {Gate("ZPhase", <<1>>, <<N \div 8>>), Gate("XPhase", <<NQ>>, <<HalfN>>)} \cup
   {Gate("CNOT", <<q, (q % NQ) + 1>>, <<>>) : q \in (IF NQ > 1 THEN 1..NQ ELSE {})} \cup
   {Gate("MEAS", <<q>>, <<b>>) : q \in 1..NQ, b \in 1..NB} \cup {Gate("MEAS", <<q>>, <<>>) : q \in 1..NQ} \cup
   {Gate("DISC", <<>>, <<b>>) : b \in 1..NB}
Init == ops = <<>>
Next == Len(ops) < Depth /\ \E g \in Alphabet : ops' = Append(ops, g)
Spec == Init /\ [][Next]_vars
W == NQ + NB
Start == TLCEval(ProdVec([i \in 1..(2 * W) |-> 17 * i * i + 5 * i + 2], 0, 2 * W))
Hyb(o) == [q |-> NQ, b |-> NB, parts |-> <<[ops |-> o, qm |-> Tup([i \in 1..NQ |-> i]), bm |-> Tup([i \in 1..NB |-> i])]>>]
State(o) == TLCEval(HybRun(Hyb(o), Start))
Now == State(ops)
Final == ops[Len(ops)]
TracePreserving == Trace(Now, W) = Trace(Start, W)
Classical == \A b \in 1..NB : (\E k \in 1..Len(ops) : ops[k].nm \in {"MEAS", "DISC"} /\ ops[k].p = <<b>>) =>
                Now = Decohere(Now, W, NQ + b)
Measured == (Len(ops) > 0 /\ Final.nm = "MEAS") =>
   /\ Now = Decohere(Now, W, Final.q[1])
   /\ State(Append(ops, Final)) = Now
   /\ Len(Final.p) = 1 => State(Append(ops, Gate("DISC", <<>>, Final.p))) =
         State(SubSeq(ops, 1, Len(ops) - 1) \o <<Gate("MEAS", Final.q, <<>>), Gate("DISC", <<>>, Final.p)>>)
Emitted == Emit /\ Len(ops) = Depth => PrintT(ToJson([hq |-> NQ, hb |-> NB, ops |-> ops]))
=============================================================================
