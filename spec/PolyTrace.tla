----------------------------- MODULE PolyTrace -----------------------------
(* Recorded operations on symbolic phases, judged one by one. *)
EXTENDS Poly, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"
R(s) == {s[i] : i \in 1..Len(s)}
\* a dump: sequence of [n, d, sequence of [variable, exponent]]; equal monomials add up
Abs(B, d) == LET ms == {MonNorm(B, R(x[3])) : x \in R(d)}
                 f == [i \in 1..Len(d) |-> Rat(d[i][1], d[i][2])]
             IN Trim([m \in ms |-> RSum(f, {i \in 1..Len(d) : MonNorm(B, R(d[i][3])) = m})])
ValOf(s) == [v \in {x[1] : x \in R(s)} |-> LET x == CHOOSE x \in R(s) : x[1] = v IN Rat(x[2], x[3])]
\* no monomial twice, no zero coefficients, no idempotent powers
Canonical(B, d) == /\ \A i, j \in 1..Len(d) : i # j => R(d[i][3]) # R(d[j][3])
                   /\ \A i \in 1..Len(d) : d[i][1] # 0 /\ (\A x \in R(d[i][3]) : x[1] \in B => x[2] = 1)
Judge(cs, e) ==
   LET B == R(cs.bools)  a == Abs(B, e.x)  b == Abs(B, e.y)
       r == IF "r" \in DOMAIN e THEN Abs(B, e.r) ELSE a
       is(want) == IF ~ PSame(B, r, want) THEN "value" ELSE IF ~ Canonical(B, e.r) THEN "not in normal form" ELSE "ok"
       has(want) == IF PSame(B, r, want) THEN "ok" ELSE "value"
   IN CASE e.exc # "" -> e.exc
     [] e.a = "add" -> is(PAdd(a, b))
     [] e.a = "sub" -> is(PAdd(a, PNeg(b)))
     [] e.a = "mul" -> is(PMul(B, a, b))
     [] e.a = "neg" -> has(PNeg(a))
     [] e.a = "copy" -> has(a)
     [] e.a = "pow" -> has(PPow(B, a, e.k))
     [] e.a = "div" -> is(PScale(RInv(b[{}]), a))
     [] e.a = "quotient" -> has(a)
     [] e.a = "anyquotient" -> IF PSame(B, PMul(B, r, b), a) THEN "ok" ELSE "not a quotient"
     [] e.a = "mod" -> IF PPhase(B, r, a) THEN "ok" ELSE "value"
     [] e.a = "subst" -> has(PSubst(ValOf(e.val), a))
     [] e.a = "parse" -> has(a)
     [] e.a = "eq" -> IF e.b /\ ~ PSame(B, a, b) THEN "different polynomials compare equal"
                      ELSE IF ~ e.b /\ a = b THEN "equal polynomials compare different"
                      ELSE IF e.b /\ ~ e.h THEN "equal polynomials have different hashes" ELSE "ok"
     [] e.a = "free" -> IF R(e.v) = PVars(a) THEN "ok" ELSE "variables"
     [] e.a = "degree" -> IF e.k = PDegree(a) THEN "ok" ELSE "degree"
     [] e.a = "is_pauli" -> IF e.b = PIsPauli(B, a) THEN "ok" ELSE "is_pauli"
     [] e.a = "is_clifford" -> IF e.b = PIsClifford(B, a) THEN "ok" ELSE "is_clifford"
     [] e.a = "order" -> IF e.lt /\ e.gt THEN "less and greater" ELSE IF e.lt # e.rgt THEN "a < b is not b > a"
                         ELSE IF e.eq /\ (e.lt \/ e.gt) THEN "equal and ordered" ELSE "ok"
     [] e.a = "untouched" -> IF a = b THEN "ok" ELSE "an operand was changed"
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c], Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
