-------------------------------- MODULE Mbqc --------------------------------
(***************************************************************************)
(* Measurement patterns on cluster states.                                 *)
(*                                                                         *)
(* A pattern [m, n, inp, ev] is a grid of m by n qubits.  The qubits in    *)
(* inp are inputs, every other one starts in |+>, neighbours are entangled *)
(* by CZ, and then the events of ev happen in order:                       *)
(*   <<"meas", q, r, t, a>>   qubit (q, r) is found in the state           *)
(*                            |0> + e^{ia}|1>  (t = 1, the Z colour), or   *)
(*                            |+> + e^{ia}|->  (t = 2, the X colour);      *)
(*                            as for spiders, it is the state's transpose  *)
(*                            that closes the wire                         *)
(*   <<"pauli", q, r, t>>     Z (t = 1) or X (t = 2) on qubit (q, r)       *)
(* What is left are the unmeasured qubits, row by row.                     *)
(* The meaning is the circuit with its open ends: bi and bo say for every  *)
(* qubit whether its start and its end are open (-1) or closed off with    *)
(* (1,0) (0) or (1,1) (1).                                                 *)
(***************************************************************************)
EXTENDS CircProgram

WireAt(p, q, r) == q * p.n + r + 1
PatGrid(p) ==
   LET qs == [i \in 1..(p.m * p.n) |-> i]
       right(i) == IF i % p.n # 0 THEN G1("CZ", <<i, i + 1>>, <<>>) ELSE <<>>
       down(i) == IF i + p.n <= p.m * p.n THEN G1("CZ", <<i, i + p.n>>, <<>>) ELSE <<>>
   IN FoldLeft(LAMBDA a, i : a \o right(i) \o down(i), <<>>, qs)

Live(p) == {i \in 1..(p.m * p.n) : ~\E k \in 1..Len(p.ev) : p.ev[k][1] = "meas" /\ WireAt(p, p.ev[k][2], p.ev[k][3]) = i}
InGrid(p, q, r) == q \in 0..(p.m - 1) /\ r \in 0..(p.n - 1)
\* an event is possible on a qubit of the grid that is still there
Possible(p, e) == InGrid(p, e[2], e[3]) /\ WireAt(p, e[2], e[3]) \in Live(p)

PatEvent(p, e) == IF e[4] = 1 THEN G1("ZPhase", <<WireAt(p, e[2], e[3])>>, <<IF e[1] = "meas" THEN e[5] ELSE HalfN>>)
                  ELSE G1("XPhase", <<WireAt(p, e[2], e[3])>>, <<IF e[1] = "meas" THEN e[5] ELSE HalfN>>)
PatCirc(p) == [n |-> p.m * p.n, gates |-> FoldLeft(LAMBDA a, e : a \o PatEvent(p, e), PatGrid(p), p.ev)]
PatStart(p) == TLCEval([i \in 1..(p.m * p.n) |-> IF \E k \in 1..Len(p.inp) : WireAt(p, p.inp[k][1], p.inp[k][2]) = i THEN 0 - 1 ELSE 1])
PatEnd(p) == TLCEval([i \in 1..(p.m * p.n) |->
   LET ks == {k \in 1..Len(p.ev) : p.ev[k][1] = "meas" /\ WireAt(p, p.ev[k][2], p.ev[k][3]) = i}
   IN IF ks = {} THEN 0 - 1 ELSE IF p.ev[CHOOSE k \in ks : TRUE][4] = 1 THEN 1 ELSE 0])
=============================================================================
