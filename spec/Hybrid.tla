------------------------------- MODULE Hybrid -------------------------------
(***************************************************************************)
(* Diagrams with grounds and circuits with measurements: completely        *)
(* positive maps.                                                          *)
(*                                                                         *)
(* The meaning of a diagram g whose spiders gr are grounded (discarded) is *)
(* that of the doubled diagram: g beside its conjugate, every grounded     *)
(* spider joined to its conjugate by a plain wire.  The boundaries are the *)
(* inputs of g, then those of the conjugate, and likewise the outputs.     *)
(*                                                                         *)
(* A hybrid circuit [q, b, parts] acts on q qubits followed by b bits and  *)
(* is a sequence of parts [ops, qm, bm]; the operations of a part, placed  *)
(* on the qubits qm and the bits bm, are gates [nm, q, p], measurements    *)
(* [nm |-> "MEAS", q |-> <<t>>, p |-> <<bit>> or <<>>] and discarded bits  *)
(* [nm |-> "DISC", q |-> <<>>, p |-> <<bit>>].  Its meaning is defined on  *)
(* vectors over the doubled wires (density matrices), operation by         *)
(* operation, without reference to diagrams.                               *)
(***************************************************************************)
EXTENDS Mbqc

Tup(f) == TLCEval(f)     \* forces a sequence

\* Conjugation is not a field operation modulo P, so the conjugate and the
\* adjoint of an object are built from the object itself.
RingConj(r) == <<r[1], 0 - r[4], 0 - r[3], 0 - r[2], r[5]>>
RingMul(x, y) ==
   <<x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
     x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
     x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
     x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1], x[5] + y[5]>>

ScalarConj(s) == [p2 |-> s.p2, ph |-> 0 - s.ph, nodes |-> Tup([i \in 1..Len(s.nodes) |-> 0 - s.nodes[i]]),
                  ff |-> RingConj(s.ff), zero |-> s.zero]
ScalarMul(s, t) == [p2 |-> s.p2 + t.p2, ph |-> (s.ph + t.ph) % N, nodes |-> s.nodes \o t.nodes,
                    ff |-> RingMul(s.ff, t.ff), zero |-> s.zero \/ t.zero]

ConjG(g) == [g EXCEPT !.ph = Tup([i \in 1..g.n |-> (0 - g.ph[i]) % N]),
                      !.lb = Tup([i \in 1..g.n |-> IF Len(g.lb[i]) = 0 THEN <<>> ELSE RingConj(g.lb[i])]),
                      !.sc = ScalarConj(g.sc)]
AdjG(g) == [ConjG(g) EXCEPT !.inp = g.out, !.out = g.inp]

ParG(a, b, ord) ==
   [n |-> a.n + b.n, ty |-> a.ty \o b.ty, ph |-> a.ph \o b.ph, lb |-> a.lb \o b.lb,
    ed |-> a.ed \o Tup([i \in 1..Len(b.ed) |-> <<b.ed[i][1] + a.n, b.ed[i][2] + a.n, b.ed[i][3]>>]),
    inp |-> a.inp \o Tup([i \in 1..Len(b.inp) |-> b.inp[i] + a.n]),
    out |-> a.out \o Tup([i \in 1..Len(b.out) |-> b.out[i] + a.n]),
    sc |-> ScalarMul(a.sc, b.sc), ord |-> ord]

DoubleG(g, gr, ord) ==
   [ParG(g, ConjG(g), ord) EXCEPT !.ed = @ \o Tup([i \in 1..Len(gr) |-> <<gr[i], gr[i] + g.n, 1>>])]

\* only spiders can be grounded
GroundsWell(g, gr) ==
   IF \E i \in 1..Len(gr) : gr[i] \notin 1..g.n THEN "a ground on a vertex that is not there"
   ELSE IF \E i \in 1..Len(gr) : g.ty[gr[i]] \notin {1, 2, 6} THEN "a ground on something that is not a spider"
   ELSE "ok"

AdjGate(g) ==
   LET p == g.p
       nm == g.nm IN
   CASE nm \in {"HAD", "CNOT", "CZ", "XCX", "CY", "CHAD", "SWAP", "CCZ", "TOF", "CSWAP", "MCX", "MCZ", "ID"} -> g
     [] nm \in {"ZPhase", "XPhase", "YPhase", "CRX", "CRY", "CRZ", "CPhase", "RXX", "RZZ", "ParityPhase", "FSim",
                "RXphys", "RYphys", "RZphys", "CXPhase"} -> [g EXCEPT !.p = Tup([i \in 1..Len(p) |-> 0 - p[i]])]
     [] nm = "CSX" -> [g EXCEPT !.nm = "CXPhase", !.p = <<0 - (N \div 4)>>]
     [] nm = "U2"  -> [g EXCEPT !.nm = "U3", !.p = <<0 - (N \div 4), 0 - p[2], 0 - p[1]>>]
     [] nm = "U3"  -> [g EXCEPT !.p = <<0 - p[1], 0 - p[3], 0 - p[2]>>]
     [] nm = "CU3" -> [g EXCEPT !.p = <<0 - p[1], 0 - p[3], 0 - p[2]>>]
     [] nm = "CU"  -> [g EXCEPT !.p = <<0 - p[1], 0 - p[3], 0 - p[2], 0 - p[4]>>]

AdjC(c) == [c EXCEPT !.gates = Tup([i \in 1..Len(c.gates) |-> AdjGate(c.gates[Len(c.gates) + 1 - i])])]

\* the gate whose matrix is the complex conjugate.  Real matrices stay, and
\* for symmetric ones it is the adjoint.
RealGates == {"HAD", "CNOT", "CZ", "XCX", "CHAD", "SWAP", "CCZ", "TOF", "CSWAP", "MCX", "MCZ", "ID", "YPhase", "CRY", "RYphys"}
SymmetricGates == {"ZPhase", "XPhase", "CRX", "CRZ", "CPhase", "RXX", "RZZ", "ParityPhase", "FSim", "CSX",
                   "RXphys", "RZphys", "CXPhase"}
ConjGate(g) ==
   CASE g.nm \in RealGates -> g
     [] g.nm \in SymmetricGates -> AdjGate(g)
     [] g.nm = "U3"  -> [g EXCEPT !.p = <<g.p[1], 0 - g.p[2], 0 - g.p[3]>>]
     [] g.nm = "U2"  -> [g EXCEPT !.p = <<0 - g.p[1], 0 - g.p[2]>>]
     [] g.nm = "CU3" -> [g EXCEPT !.p = <<g.p[1], 0 - g.p[2], 0 - g.p[3]>>]
     [] g.nm = "CU"  -> [g EXCEPT !.p = <<g.p[1], 0 - g.p[2], 0 - g.p[3], 0 - g.p[4]>>]
HybridGates == RealGates \cup SymmetricGates \cup {"U2", "U3", "CU3", "CU"}

(***************************************************************************)
(* Operations on vectors over the wires 1..W (qubits, then bits) and the   *)
(* conjugate wires W+1..2W.                                                *)
(***************************************************************************)
Shifted(g, w) == [g EXCEPT !.q = Tup([i \in 1..Len(g.q) |-> g.q[i] + w])]

\* the wire is traced out and replaced by |0>
Fresh(v, W, x) ==
   TLCEval([i \in 0..(Pow2[2 * W] - 1) |->
      IF Bit(i, x) = 0 /\ Bit(i, x + W) = 0 THEN (v[i] + v[i + Pow2[x - 1] + Pow2[x + W - 1]]) % P ELSE 0])
\* the wire is copied into the environment
Decohere(v, W, x) ==
   TLCEval([i \in 0..(Pow2[2 * W] - 1) |-> IF Bit(i, x) = Bit(i, x + W) THEN v[i] ELSE 0])
Both(v, W, g) == ApplyGate(ApplyGate(v, 2 * W, g), 2 * W, Shifted(ConjGate(g), W))

HybOp(v, nq, nb, g) ==
   LET W == nq + nb IN
   CASE g.nm = "DISC" -> Fresh(v, W, nq + g.p[1])
     [] g.nm = "MEAS" ->
          IF Len(g.p) = 0 THEN Decohere(v, W, g.q[1])
          ELSE Both(TLCEval(Decohere(TLCEval(Fresh(v, W, nq + g.p[1])), W, g.q[1])), W,
                    [nm |-> "CNOT", q |-> <<g.q[1], nq + g.p[1]>>, p |-> <<>>])
     [] OTHER -> Both(v, W, g)

Placed(g, qm, bm) ==
   LET h == [g EXCEPT !.q = Tup([i \in 1..Len(g.q) |-> qm[g.q[i]]])] IN
   IF g.nm \in {"MEAS", "DISC"} THEN [h EXCEPT !.p = Tup([i \in 1..Len(g.p) |-> bm[g.p[i]]])] ELSE h
PartOps(p) == Tup([i \in 1..Len(p.ops) |-> Placed(p.ops[i], p.qm, p.bm)])
HybOps(h) == FoldLeft(LAMBDA a, p : a \o PartOps(p), <<>>, h.parts)

HybRun(h, v) == FoldLeft(LAMBDA w, g : TLCEval(HybOp(w, h.q, h.b, g)), v, HybOps(h))
HybValue(h, r) ==
   LET W == 2 * (h.q + h.b)
       v == HybRun(h, ProdVec(r, 0, W))
       o == ProdVec(r, W, W)
   IN FoldLeft(LAMBDA a, i : (a + v[i - 1] * o[i - 1]) % P, 0, [i \in 1..Pow2[W] |-> i])

HybWell(h) ==
   LET bad(p) == \E k \in 1..Len(p.ops) :
                    LET g == p.ops[k] IN
                    \/ g.nm \notin HybridGates \cup {"MEAS", "DISC"}
                    \/ \E j \in 1..Len(g.q) : g.q[j] \notin 1..Len(p.qm)
                    \/ Cardinality(Range(g.q)) # Len(g.q)
                    \/ g.nm \in {"MEAS", "DISC"} /\ \E j \in 1..Len(g.p) : g.p[j] \notin 1..Len(p.bm)
   IN IF \E i \in 1..Len(h.parts) : bad(h.parts[i]) THEN "an operation on something that is not in the circuit" ELSE "ok"

\* sum of the diagonal: everything is discarded
Trace(v, W) == FoldLeft(LAMBDA a, i : (a + v[(i - 1) * (Pow2[W] + 1)]) % P, 0, [i \in 1..Pow2[W] |-> i])
=============================================================================
