----------------------------- MODULE CircStats -----------------------------
(***************************************************************************)
(* Quantities of circuits that PyZX reports or promises not to increase.   *)
(* Gates are the records of CircSem.                                       *)
(***************************************************************************)
EXTENDS CircSem

CliffUnit == N \div 4            \* pi/2
CountG(gs, Pred(_)) == FoldLeft(LAMBDA a, g : IF Pred(g) THEN a + 1 ELSE a, 0, gs)

\* gates that rotate by a phase which is not a multiple of pi/2
PhaseNames == {"ZPhase", "XPhase", "YPhase", "ParityPhase", "RZZ", "RXX"}
IsNonCliffordPhase(g) == g.nm \in PhaseNames /\ g.p[1] % CliffUnit # 0
NonCliffordCount(c) == CountG(c.gates, IsNonCliffordPhase)

TwoQubit(c) == CountG(c.gates, LAMBDA g : Len(g.q) = 2)
\* unordered pairs of qubits on which gates act jointly
Pairs(c) == {Range(c.gates[i].q) : i \in {j \in 1..Len(c.gates) : Len(c.gates[j].q) >= 2}}
ConnectivityKept(old, new) == Pairs(new) \subseteq Pairs(old)
=============================================================================
