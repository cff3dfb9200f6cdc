----------------------------- MODULE GenTrace -----------------------------
(***************************************************************************)
(* What the generators of circuits and diagrams promise: the requested     *)
(* gates on the requested qubits, in the requested numbers, and the same   *)
(* object for the same seed.                                               *)
(***************************************************************************)
EXTENDS PhasePoly, FiniteSetsExt, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"
Full == 33600
Legal(n, gs) == \A i \in 1..Len(gs) : LET g == gs[i] IN Range(g.q) \subseteq 1..n /\ Cardinality(Range(g.q)) = Len(g.q)
Cnt(gs, nms) == Cardinality({i \in 1..Len(gs) : gs[i].nm \in nms})
\* CNOT, Hadamard and phase gates with probabilities (in percent)
HadPhase(e) ==
   LET ph == IF e.clifford THEN 8400 ELSE 4200 IN
   IF Len(e.gates) # e.depth THEN "number of gates"
   ELSE IF ~ Legal(e.n, e.gates) THEN "an illegal gate"
   ELSE IF \E i \in 1..Len(e.gates) : LET g == e.gates[i] IN ~ (g.nm \in {"HAD", "CNOT"} \/ (g.nm = "ZPhase" /\ g.p = <<ph>>)) THEN "a gate that was not asked for"
   ELSE IF (e.had = 0 /\ Cnt(e.gates, {"HAD"}) > 0) \/ (e.t = 0 /\ Cnt(e.gates, {"ZPhase"}) > 0) \/ (e.had + e.t = 100 /\ Cnt(e.gates, {"CNOT"}) > 0)
           \/ (e.had = 100 /\ Cnt(e.gates, {"HAD"}) # e.depth) \/ (e.t = 100 /\ Cnt(e.gates, {"ZPhase"}) # e.depth) THEN "a gate of probability zero"
   ELSE "ok"
Ops(gs) == [i \in 1..Len(gs) |-> IF gs[i].nm = "CNOT" THEN <<"cn", gs[i].q[1] - 1, gs[i].q[2] - 1>> ELSE <<"z", gs[i].q[1] - 1, gs[i].p[1]>>]
OnlyPoly(gs) == \A i \in 1..Len(gs) : gs[i].nm \in {"CNOT", "ZPhase"}
Linear(n, gs) == RunFrom(Full, IdM(n), Ops(SelectSeq(gs, LAMBDA g : g.nm = "CNOT"))).rows
Allowed == {33600 \div 2, 8400, 4200, 25200, 29400}
\* layers of CNOTs, each followed by a phase on every qubit
Poly(e) ==
   LET gs == e.gates
       k == e.per + e.n
       in(i) == ((i - 1) % k) + 1
   IN IF Len(gs) # e.layers * k THEN "number of gates" ELSE IF ~ OnlyPoly(gs) \/ ~ Legal(e.n, gs) THEN "an illegal gate"
      ELSE IF \E i \in 1..Len(gs) : (in(i) <= e.per) # (gs[i].nm = "CNOT") THEN "the layers"
      ELSE IF \E i \in 1..Len(gs) : in(i) > e.per /\ (gs[i].q[1] # in(i) - e.per \/ gs[i].p[1] \notin Allowed) THEN "the phases of a layer"
      ELSE IF e.mat # Linear(e.n, gs) THEN "the parity map of the circuit" ELSE "ok"
Approx(e) ==
   IF ~ OnlyPoly(e.gates) \/ ~ Legal(e.n, e.gates) THEN "an illegal gate"
   ELSE IF Cnt(e.gates, {"CNOT"}) # e.cnots THEN "number of CNOT gates"
   ELSE IF e.phases = 0 /\ Len(e.gates) # e.cnots THEN "phases that were not asked for"
   ELSE IF \E i \in 1..Len(e.gates) : e.gates[i].nm = "ZPhase" /\ e.gates[i].p[1] \notin Allowed THEN "a phase that was not asked for"
   ELSE IF e.mat # Linear(e.n, e.gates) THEN "the parity map of the circuit" ELSE "ok"
Gadgets(e) ==
   LET r == Run(Full, e.n, Ops(e.gates))
       want == IF e.n < 20 /\ e.k > 2^(e.n) - 1 THEN 2^(e.n) - 1 ELSE e.k
   IN IF ~ OnlyPoly(e.gates) \/ ~ Legal(e.n, e.gates) THEN "an illegal gate"
      ELSE IF r.rows # IdM(e.n) THEN "the gadgets do not end with the identity"
      ELSE IF Cardinality(DOMAIN r.ph) # want THEN "number of gadgets"
      ELSE IF \E p \in DOMAIN r.ph : r.ph[p] # 4200 THEN "the phase of a gadget" ELSE "ok"
ParityMap(e) ==
   IF e.mat # RunFrom(Full, IdM(e.n), e.circs[1]).rows THEN "the parity map is not that of the circuit"
   ELSE IF \E i \in 1..Len(e.circs) : e.circs[i] # e.circs[1] THEN "the circuits differ"
   ELSE IF Len(e.circs[1]) # e.k THEN "number of CNOT gates" ELSE "ok"
\* diagrams: one wire per qubit, legal, and nothing of what was excluded
Diagram(e) ==
   LET g == e.g
       ends(v) == Cardinality({k \in 1..Len(g.ed) : v \in {g.ed[k][1], g.ed[k][2]}})
       B == {v \in 1..g.n : g.ty[v] = 0}
   IN IF Len(g.inp) # e.ni \/ Len(g.out) # e.no THEN "numbers of inputs and outputs"
      ELSE IF B # Range(g.inp) \cup Range(g.out) \/ Cardinality(B) # e.ni + e.no THEN "inputs and outputs are not the boundaries"
      ELSE IF \E v \in B : ends(v) # 1 THEN "a boundary without its one edge"
      ELSE IF e.nohad /\ \E k \in 1..Len(g.ed) : g.ed[k][3] = 2 THEN "a Hadamard edge"
      ELSE IF e.clifford /\ \E v \in 1..g.n : g.ph[v] % 8400 # 0 THEN "a phase that is not Clifford"
      ELSE IF e.tphase /\ \E v \in 1..g.n : g.ph[v] % 4200 # 0 THEN "a phase finer than that of a T gate"
      ELSE IF e.qubits # [i \in 1..Len(e.qubits) |-> i - 1] THEN "the wires are not in order"
      ELSE IF e.backend # e.asked THEN "another backend than asked for" ELSE "ok"
\* Clifford+T circuits of one gate per row: which kinds of gates there are
Kinds(e) == IF Range(e.kinds) \ Range(e.may) # {} THEN "a gate of probability zero"
            ELSE IF Len(e.kinds) # e.depth THEN "number of gates" ELSE "ok"
Same(e) == IF e.x # e.y THEN "another result for the same seed" ELSE "ok"
\* command line tools: which files there are afterwards, and what must not have changed
Files(e) == IF Range(e.written) # Range(e.expected) THEN "the files that are written" ELSE IF e.changed # <<>> THEN "a file was changed" 
            ELSE IF e.code # e.want THEN "the exit status" ELSE "ok"
\* CNOT gates along the edges of a coupling graph only (qubits from 1)
Routed(e) == IF \E i \in 1..Len(e.gates) : e.gates[i].nm # "CNOT" \/ ~ (\E j \in 1..Len(e.edges) : Range(e.edges[j]) = Range(e.gates[i].q)) THEN "a gate where there is no edge" ELSE "ok"
Judge(e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "CNOT_HAD_PHASE_circuit" -> HadPhase(e)
     [] e.a = "phase_poly" -> Poly(e)
     [] e.a = "phase_poly_approximate" -> Approx(e)
     [] e.a = "phase_poly_from_gadgets" -> Gadgets(e)
     [] e.a = "build_random_parity_map" -> ParityMap(e)
     [] e.a = "diagram" -> Diagram(e)
     [] e.a = "kinds" -> Kinds(e)
     [] e.a = "seed" -> Same(e)
     [] e.a = "files" -> Files(e)
     [] e.a = "routed" -> Routed(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
