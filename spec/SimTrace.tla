------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* Classical simulation by stabilizer decompositions: term counts, inner   *)
(* products with random equatorial states, norm estimates and samples.     *)
(***************************************************************************)
EXTENDS ZXSem, FiniteSetsExt, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"

(* how many Clifford terms t magic states may cost: seven for six of them,  *)
(* two for two of them, two for a single one                                *)
RECURSIVE MaxTerms(_)
MaxTerms(t) == IF t >= 6 THEN 7 * MaxTerms(t - 6) ELSE IF t >= 2 THEN 2 * MaxTerms(t - 2) ELSE IF t = 1 THEN 2 ELSE 1
NonCliff(g) == Cardinality({v \in 1..g.n : g.ty[v] \in {1, 2} /\ g.ph[v] % (N \div 4) # 0})
Terms(e) == IF e.bound # MaxTerms(e.t) THEN "the announced number of terms"
            ELSE IF Len(e.terms) > MaxTerms(e.t) THEN "more terms than announced"
            ELSE IF \E i \in 1..Len(e.terms) : NonCliff(e.terms[i]) # 0 THEN "a term is not a stabilizer diagram" ELSE "ok"
\* one step of the decomposition
StepOf(e) == IF Len(e.terms) # (IF e.t >= 6 THEN 7 ELSE 2) THEN "number of terms"
             ELSE IF \E i \in 1..Len(e.terms) : NonCliff(e.terms[i]) # e.t - (IF e.t >= 6 THEN 6 ELSE IF e.t >= 2 THEN 2 ELSE 1) THEN "magic states that are left" ELSE "ok"

\* the outputs closed with equatorial phases and controlled-Z gates
Close(g, phs, cz) ==
   LET at(v) == CHOOSE i \in 1..Len(g.out) : g.out[i] = v  cs == SetToSeq(cz) IN
   [g EXCEPT !.ty = [v \in 1..g.n |-> IF v \in Range(g.out) THEN 1 ELSE g.ty[v]],
             !.ph = [v \in 1..g.n |-> IF v \in Range(g.out) THEN phs[at(v)] * (N \div 4) ELSE g.ph[v]],
             !.ed = g.ed \o [i \in 1..Len(cs) |-> <<g.out[cs[i][1]], g.out[cs[i][2]], 2>>],
             !.out = <<>>, !.sc = [g.sc EXCEPT !.p2 = g.sc.p2 + Len(cs)]]
Possible(gs) ==
   LET q == Len(gs[1].out)  pairs == {<<i, j>> \in (1..q) \X (1..q) : i < j} IN
   {SumSeq([k \in 1..Len(gs) |-> Value(Close(gs[k], phs, cz), <<>>)]) : phs \in [1..q -> 0..3], cz \in SUBSET pairs}
Inner(e) ==
   IF e.gs = <<>> THEN (IF \A i \in 1..Len(e.vals) : Ring(e.vals[i]) = 0 THEN "ok" ELSE "inner product with nothing")
   ELSE LET p == TLCEval(Possible(e.gs))  seen == {Ring(e.vals[i]) : i \in 1..Len(e.vals)} IN
   IF ~ (seen \subseteq p) THEN "not an inner product with an equatorial stabilizer state"
   ELSE IF e.all /\ seen # p THEN "some equatorial state is never drawn" ELSE "ok"
\* a normalised state: e.est = 1000 times the estimate, e.tol the accepted error
Norm1(e) == IF e.est >= 1000 * e.sq - e.tol * e.sq /\ e.est <= 1000 * e.sq + e.tol * e.sq THEN "ok" ELSE "the estimate of the norm is far off"

\* a computational basis state through a reversible circuit
Run(bits, gs) == FoldLeft(LAMBDA b, g :
     CASE g[1] = "x" -> [b EXCEPT ![g[2] + 1] = 1 - b[g[2] + 1]]
       [] g[1] = "cx" -> [b EXCEPT ![g[3] + 1] = (b[g[2] + 1] + b[g[3] + 1]) % 2]
       [] g[1] = "tof" -> [b EXCEPT ![g[4] + 1] = (b[g[2] + 1] * b[g[3] + 1] + b[g[4] + 1]) % 2]
       [] g[1] = "sw" -> [b EXCEPT ![g[2] + 1] = b[g[3] + 1], ![g[3] + 1] = b[g[2] + 1]]
       [] OTHER -> b, bits, gs)
Sample(e) == LET out == Run(e.bits, e.gates) IN
   IF Len(e.samples) # e.amount THEN "number of samples"
   ELSE IF \E i \in 1..Len(e.samples) : e.samples[i] # [j \in 1..Len(e.qubits) |-> <<e.qubits[j], out[e.qubits[j] + 1]>>] THEN "a sample that cannot occur" ELSE "ok"
Judge(e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "terms" -> Terms(e)
     [] e.a = "step" -> StepOf(e)
     [] e.a = "inner" -> Inner(e)
     [] e.a = "norm" -> Norm1(e)
     [] e.a = "sample" -> Sample(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
