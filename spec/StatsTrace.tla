---------------------------- MODULE StatsTrace ----------------------------
(***************************************************************************)
(* The numbers PyZX reports about circuits and diagrams, defined.          *)
(* A gate is [nm, q (qubits from 1), ph (2pi = N; -1 when it has none)];   *)
(* "basic" is what the gate set expands to.                                *)
(***************************************************************************)
EXTENDS Field, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"

Q == N \div 4
CountG(gs, Pred(_)) == Cardinality({i \in 1..Len(gs) : Pred(gs[i])})
Rot == {"ZPhase", "Z", "S", "T", "XPhase", "NOT", "SX"}
Two == {"CNOT", "CZ", "XCX", "SWAP"}
\* T gates that are needed: phases that are not multiples of pi/2, after expansion
TGates(basic) == CountG(basic, LAMBDA g : g.ph >= 0 /\ g.ph % Q # 0)
\* layers: the longest chain of gates, each of which shares a qubit with the next
DepthOf(n, gs) ==
   LET step(d, g) == LET qs == Range(g.q)
                         m == 1 + Max({d[x] : x \in qs})
                     IN TLCEval([x \in 1..n |-> IF x \in qs THEN m ELSE d[x]])
       d == FoldLeft(step, [x \in 1..n |-> 0], gs)
   IN Max({0} \cup {d[x] : x \in 1..n})
\* the same with every CZ as H, CNOT, H
NoCZ(gs) == FlattenSeq([i \in 1..Len(gs) |-> IF gs[i].nm = "CZ" THEN LET h == [nm |-> "HAD", q |-> <<gs[i].q[2]>>, ph |-> -1] IN <<h, [gs[i] EXCEPT !.nm = "CNOT"], h>> ELSE <<gs[i]>>])
Stats(e) ==
   LET gs == e.gates
       d == e.d
       rot == CountG(gs, LAMBDA g : g.nm \in Rot /\ g.ph % Q = 0)
       had == CountG(gs, LAMBDA g : g.nm = "HAD")
       two == CountG(gs, LAMBDA g : g.nm \in Two)
       meas == CountG(gs, LAMBDA g : g.nm = "Measurement")
   IN IF d.qubits # e.n THEN "qubits" ELSE IF d.gates # Len(gs) THEN "number of gates"
      ELSE IF d.tcount # TGates(e.basic) THEN "T-count" ELSE IF d.had # had THEN "Hadamard gates"
      ELSE IF d.twoqubit # two THEN "two-qubit gates" ELSE IF d.cnot # CountG(gs, LAMBDA g : g.nm = "CNOT") THEN "CNOT gates"
      ELSE IF d.clifford # rot + had + two THEN "Clifford gates" ELSE IF d.measurement # meas THEN "measurements"
      ELSE IF d.other # CountG(gs, LAMBDA g : g.nm \notin Rot \cup Two \cup {"HAD", "Measurement"}) THEN "other gates"
      ELSE IF d.depth # (IF e.wd THEN DepthOf(e.n, e.basic) ELSE 0) THEN "depth"
      ELSE IF d.depth_cz # (IF e.wd THEN DepthOf(e.n, NoCZ(e.basic)) ELSE 0) THEN "depth without CZ"
      ELSE IF e.text # <<d.qubits, d.gates, d.tcount, d.clifford, d.twoqubit, d.cnot, d.twoqubit - d.cnot, d.had>>
                       \o (IF d.measurement > 0 THEN <<d.measurement>> ELSE <<>>) \o (IF d.other > 0 THEN <<d.other>> ELSE <<>>)
                       \o (IF e.wd THEN <<d.depth, d.depth_cz>> ELSE <<>>) THEN "the text does not say what the numbers are"
      ELSE "ok"
\* counted in a circuit: Hadamard gates, two-qubit gates, rotations that are not by pi
Opt(e) == IF e.r # <<CountG(e.gates, LAMBDA g : g.nm = "HAD"), CountG(e.gates, LAMBDA g : g.nm \in {"CNOT", "CZ"}), CountG(e.gates, LAMBDA g : g.nm \in Rot /\ g.ph # 2 * Q)>>
          THEN "statistics of the optimizer" ELSE "ok"
IsCZ(g) == g.nm \in {"CNOT", "CZ"}
Number(e) ==
   LET want == CASE e.what = "qubits" -> e.n
                 [] e.what = "tcount" -> TGates(e.basic)
                 [] e.what = "twoqubit" -> CountG(e.basic, IsCZ)
                 [] e.what = "depth" -> DepthOf(e.n, e.gates)
                 [] e.what = "basic depth" -> DepthOf(e.n, e.basic)
                 [] e.what = "basic twoqubit" -> CountG(e.basic, IsCZ)
                 [] e.what = "cnots" -> CountG(e.gates, IsCZ)
                 [] e.what = "cnot depth" -> DepthOf(e.n, SelectSeq(e.gates, IsCZ))
                 [] e.what = "combined" -> 10000 * DepthOf(e.n, SelectSeq(e.gates, IsCZ)) + CountG(e.gates, IsCZ)
   IN IF e.r # want THEN e.what ELSE "ok"
\* diagrams
Deg(g, v) == Cardinality({k \in 1..Len(g.ed) : g.ed[k][1] = v}) + Cardinality({k \in 1..Len(g.ed) : g.ed[k][2] = v})
Diagram(e) ==
   LET g == e.g
       ds == {Deg(g, v) : v \in 1..g.n}
   IN IF e.degrees # [i \in 1..Cardinality(ds) |-> LET d == SetToSortSeq(ds, <)[i] IN <<d, Cardinality({v \in 1..g.n : Deg(g, v) = d})>>] THEN "degree distribution"
      ELSE IF e.nv # g.n \/ e.ne # Len(g.ed) THEN "numbers of vertices and edges"
      ELSE IF e.ni # Len(g.inp) \/ e.no # Len(g.out) THEN "numbers of inputs and outputs"
      ELSE IF e.tc # Cardinality({v \in 1..g.n : g.ph[v] % Q # 0}) THEN "T-count of a diagram"
      ELSE IF e.depth # Max({-1} \cup Range(e.rows)) THEN "depth of a diagram"
      ELSE "ok"
\* rewriting statistics: every identity removal takes away one spider, every merged gadget two
Rewrites(e) == IF e.nm = "id_simp" /\ e.count # e.before - e.after THEN "number of rewrites" 
               ELSE IF e.count > e.before - e.after /\ e.nm \in {"spider_simp", "lcomp_simp"} THEN "more rewrites than spiders that are gone"
               ELSE IF (e.count = 0) # (e.r = 0) THEN "rewrites without rounds" ELSE IF e.count < e.r THEN "fewer rewrites than rounds" ELSE "ok"
Judge(e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "stats" -> Stats(e)
     [] e.a = "number" -> Number(e)
     [] e.a = "optimizer" -> Opt(e)
     [] e.a = "diagram" -> Diagram(e)
     [] e.a = "rewrites" -> Rewrites(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
