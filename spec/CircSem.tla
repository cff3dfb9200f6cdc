------------------------------ MODULE CircSem ------------------------------
(***************************************************************************)
(* The unitary of a quantum circuit, gate by gate.                         *)
(*                                                                         *)
(* A circuit is [n |-> number of qubits, gates |-> sequence of             *)
(* [nm |-> name, q |-> qubits (1-based, controls first), p |-> phases]].   *)
(* Every gate is defined here from its textbook matrix (OpenQASM's         *)
(* qelib1/stdgates conventions), independently of PyZX's decompositions.   *)
(* As everywhere in PyZX, Z/X rotations are diag(1, e^{i a}) in their      *)
(* basis.                                                                  *)
(***************************************************************************)
EXTENDS ZXSem

Bit(i, q) == (i \div Pow2[q - 1]) % 2

\* i with bit q set to b
WithBit(i, q, b) == i + (b - Bit(i, q)) * Pow2[q - 1]

\* 2x2 matrices as <<m00, m01, m10, m11>>

\* m on qubit q controlled on all qubits in cs
ApplyC(v, n, cs, q, m) ==
   LET w == Pow2[q-1] IN
   TLCEval([i \in 0..(Pow2[n] - 1) |->
      IF \E k \in 1..Len(cs) : Bit(i, cs[k]) = 0 THEN v[i]
      ELSE IF (i \div w) % 2 = 0 THEN (((m[1] * v[i]) % P) + ((m[2] * v[i + w]) % P)) % P
      ELSE (((m[3] * v[i - w]) % P) + ((m[4] * v[i]) % P)) % P])

\* multiply by e^{i a} where the parity of the bits in qs is odd
ApplyParity(v, n, qs, ph) ==
   LET c == Ph(ph) IN
   TLCEval([i \in 0..(Pow2[n] - 1) |->
      IF FoldLeft(LAMBDA a, q : a + Bit(i, q), 0, qs) % 2 = 1 THEN (v[i] * c) % P ELSE v[i]])

ApplySwap(v, n, cs, a, b) ==
   TLCEval([i \in 0..(Pow2[n] - 1) |->
      IF \E k \in 1..Len(cs) : Bit(i, cs[k]) = 0 THEN v[i]
      ELSE v[WithBit(WithBit(i, a, Bit(i, b)), b, Bit(i, a))]])

Cos(k) == Mul(Add(Ph(k), Ph(0 - k)), Half)
Sin(k) == Mul(Mul(Sub(Ph(k), Ph(0 - k)), Half), Neg(ImagI))

MHad == <<IS2, IS2, IS2, Neg(IS2)>>
MX == <<0, 1, 1, 0>>
MY == <<0, Neg(ImagI), ImagI, 0>>
MZPh(k) == <<1, 0, 0, Ph(k)>>
MXPh(k) == LET e == Ph(k) IN
   <<Mul(Add(1, e), Half), Mul(Sub(1, e), Half), Mul(Sub(1, e), Half), Mul(Add(1, e), Half)>>
MRY(k) == LET h == k \div 2 IN <<Cos(h), Neg(Sin(h)), Sin(h), Cos(h)>>
MRX(k) == LET h == k \div 2 IN
   <<Cos(h), Neg(Mul(ImagI, Sin(h))), Neg(Mul(ImagI, Sin(h))), Cos(h)>>
MRZ(k) == LET h == k \div 2 IN <<Ph(0 - h), 0, 0, Ph(h)>>
MU3(t, f, l) == LET h == t \div 2 IN
   <<Cos(h), Neg(Mul(Ph(l), Sin(h))), Mul(Ph(f), Sin(h)), Mul(Ph(f + l), Cos(h))>>
Scale(c, m) == <<Mul(c, m[1]), Mul(c, m[2]), Mul(c, m[3]), Mul(c, m[4])>>

GateNames == {"ZPhase", "XPhase", "YPhase", "HAD", "CNOT", "CZ", "XCX", "CY", "CHAD", "CSX", "SWAP",
   "CRX", "CRY", "CRZ", "CPhase", "RXX", "RZZ", "ParityPhase", "FSim", "CCZ", "TOF", "CSWAP",
   "MCX", "MCZ", "U2", "U3", "CU3", "CU", "RXphys", "RYphys", "RZphys", "ID", "CXPhase"}

ApplyGate(v, n, g) ==
   LET q == g.q
       p == g.p
       nm == g.nm
   IN CASE nm = "ID"     -> v
        [] nm = "ZPhase" -> ApplyC(v, n, <<>>, q[1], MZPh(p[1]))
        [] nm = "XPhase" -> ApplyC(v, n, <<>>, q[1], MXPh(p[1]))
        [] nm = "YPhase" -> ApplyC(v, n, <<>>, q[1], MRY(p[1]))
        [] nm = "HAD"    -> ApplyC(v, n, <<>>, q[1], MHad)
        [] nm = "CNOT"   -> ApplyC(v, n, <<q[1]>>, q[2], MX)
        [] nm = "CZ"     -> ApplyC(v, n, <<q[1]>>, q[2], MZPh(HalfN))
        [] nm = "XCX"    -> ApplyC(ApplyC(ApplyC(v, n, <<>>, q[1], MHad), n, <<q[1]>>, q[2], MX), n, <<>>, q[1], MHad)
        [] nm = "CY"     -> ApplyC(v, n, <<q[1]>>, q[2], MY)
        [] nm = "CHAD"   -> ApplyC(v, n, <<q[1]>>, q[2], MHad)
        [] nm = "CSX"    -> ApplyC(v, n, <<q[1]>>, q[2], MXPh(N \div 4))
        [] nm = "SWAP"   -> ApplySwap(v, n, <<>>, q[1], q[2])
        [] nm = "CXPhase" -> ApplyC(v, n, <<q[1]>>, q[2], MXPh(p[1]))
        [] nm = "CRX"    -> ApplyC(v, n, <<q[1]>>, q[2], MRX(p[1]))
        [] nm = "CRY"    -> ApplyC(v, n, <<q[1]>>, q[2], MRY(p[1]))
        [] nm = "CRZ"    -> ApplyC(v, n, <<q[1]>>, q[2], MRZ(p[1]))
        [] nm = "CPhase" -> ApplyC(v, n, <<q[1]>>, q[2], MZPh(p[1]))
        [] nm = "RZZ"    -> ApplyParity(v, n, q, p[1])
        [] nm = "RXX"    -> LET a == ApplyC(ApplyC(v, n, <<>>, q[1], MHad), n, <<>>, q[2], MHad)
                                b == ApplyParity(a, n, q, p[1])
                            IN ApplyC(ApplyC(b, n, <<>>, q[1], MHad), n, <<>>, q[2], MHad)
        [] nm = "ParityPhase" -> ApplyParity(v, n, q, p[1])
        [] nm = "FSim"   -> \* fsim(theta, phi)
             LET c == Cos(p[1])
                 s == Neg(Mul(ImagI, Sin(p[1])))
                 e == Ph(0 - p[2])
             IN TLCEval([i \in 0..(Pow2[n] - 1) |->
                  LET a == Bit(i, q[1])
                      b == Bit(i, q[2])
                  IN IF a = 0 /\ b = 0 THEN v[i]
                     ELSE IF a = 1 /\ b = 1 THEN (v[i] * e) % P
                     ELSE (((v[i] * c) % P) +
                           ((v[WithBit(WithBit(i, q[1], b), q[2], a)] * s) % P)) % P])
        [] nm = "CCZ"    -> ApplyC(v, n, <<q[1], q[2]>>, q[3], MZPh(HalfN))
        [] nm = "TOF"    -> ApplyC(v, n, <<q[1], q[2]>>, q[3], MX)
        [] nm = "CSWAP"  -> ApplySwap(v, n, <<q[1]>>, q[2], q[3])
        [] nm = "MCX"    -> ApplyC(v, n, SubSeq(q, 1, Len(q) - 1), q[Len(q)], MX)
        [] nm = "MCZ"    -> ApplyC(v, n, SubSeq(q, 1, Len(q) - 1), q[Len(q)], MZPh(HalfN))
        [] nm = "U2"     -> ApplyC(v, n, <<>>, q[1], MU3(HalfN \div 2, p[1], p[2]))
        [] nm = "U3"     -> ApplyC(v, n, <<>>, q[1], MU3(p[1], p[2], p[3]))
        [] nm = "CU3"    -> ApplyC(v, n, <<q[1]>>, q[2], MU3(p[1], p[2], p[3]))
        [] nm = "CU"     -> ApplyC(v, n, <<q[1]>>, q[2], Scale(Ph(p[4]), MU3(p[1], p[2], p[3])))
        [] nm = "RXphys" -> ApplyC(v, n, <<>>, q[1], MRX(p[1]))
        [] nm = "RYphys" -> ApplyC(v, n, <<>>, q[1], MRY(p[1]))
        [] nm = "RZphys" -> ApplyC(v, n, <<>>, q[1], MRZ(p[1]))

CircWellFormed(c) ==
   IF \E k \in 1..Len(c.gates) : c.gates[k].nm \notin GateNames THEN "unknown gate"
   ELSE IF \E k \in 1..Len(c.gates) : \E j \in 1..Len(c.gates[k].q) :
             c.gates[k].q[j] \notin 1..c.n THEN "gate on a qubit outside the circuit"
   ELSE IF \E k \in 1..Len(c.gates) :
             Cardinality(Range(c.gates[k].q)) # Len(c.gates[k].q) THEN "gate uses a qubit twice"
   ELSE "ok"

\* product vector (1, r[off+1]) x ... x (1, r[off+n])
ProdVec(r, off, n) ==
   LET st == FoldLeft(LAMBDA T, q : [i \in 0..(Pow2[q] - 1) |->
                 IF i < Pow2[q-1] THEN T[i] ELSE (T[i - Pow2[q-1]] * r[off + q]) % P],
                 [i \in 0..0 |-> 1], [q \in 1..n |-> q])
   IN TLCEval(st)

RunCirc(c, v) == FoldLeft(LAMBDA w, g : TLCEval(ApplyGate(w, c.n, g)), v, c.gates)

CircValue(c, r) ==
   LET v == RunCirc(c, ProdVec(r, 0, c.n))
       o == ProdVec(r, c.n, c.n)
   IN FoldLeft(LAMBDA a, i : (a + v[i - 1] * o[i - 1]) % P, 0, [i \in 1..Pow2[c.n] |-> i])
=============================================================================
