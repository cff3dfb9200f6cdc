----------------------------- MODULE ToddTrace -----------------------------
(***************************************************************************)
(* Judges recorded work of the phase polynomial and TODD code (module      *)
(* Todd).  Angles count in units of pi/4; matrices are lists of columns.   *)
(***************************************************************************)
EXTENDS Todd, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"
Full == 8
\* circuits: <<"cn", a, b>>, <<"z", a, k>>, <<"cz", a, b>>, <<"p", k, parity>>
Op(s, o) == CASE o[1] = "cn" -> Step(Full, s, o)
              [] o[1] = "z" -> Step(Full, s, o)
              [] o[1] = "p" -> LET par == FoldLeft(LAMBDA r, i : XorRow(r, s.rows[i + 1]), ZeroRow(Len(s.rows)), o[3]) IN [s EXCEPT !.ph = AddPhase(Full, s.ph, par, o[2])]
              [] o[1] = "cz" -> LET x == s.rows[o[2] + 1]  y == s.rows[o[3] + 1] IN
                   [s EXCEPT !.ph = AddPhase(Full, AddPhase(Full, AddPhase(Full, s.ph, x, 2), y, 2), XorRow(x, y), 6)]
RunAll(n, ops) == FoldLeft(Op, [rows |-> IdM(n), ph |-> None], ops)
Form(n, ph) == LET d == SetToSeq(DOMAIN ph) IN Multi(n, [i \in 1..Len(d) |-> <<d[i], ph[d[i]]>>])
FormCols(n, cols) == Multi(n, OfCols(cols))
Fine(n, cols) == \A i \in 1..Len(cols) : Len(cols[i]) = n /\ \A j \in 1..n : cols[i][j] \in {0, 1}
NoTrivial(cols) == (\A i \in 1..Len(cols) : ~ IsZeroRow(cols[i])) /\ Cardinality(Range(cols)) = Len(cols)
Equal(n, a, b) == Clifford(MinusM(n, FormCols(n, a), FormCols(n, b)))
\* terms <<parity, value>> of a polynomial
Poly(e) ==
   LET r == RunAll(e.n, e.ops)
   IN IF e.rows # r.rows THEN "the parities that the qubits end with"
      ELSE IF \E i \in 1..Len(e.terms) : e.terms[i][2] \notin 1..7 THEN "a coefficient that is not in 1..7"
      ELSE IF Multi(e.n, e.terms) # Form(e.n, r.ph) THEN "the phase polynomial of the circuit"
      ELSE IF FormCols(e.n, e.cols) # Form(e.n, r.ph) THEN "the parity matrix of the polynomial"
      ELSE IF Form(e.n, RunAll(e.n, e.gates).ph) # Form(e.n, r.ph) THEN "the gates of the parity matrix"
      ELSE IF Multi(e.n, e.text) # Form(e.n, r.ph) THEN "the text of the polynomial" ELSE "ok"
\* x + y, with x and a copy of y left alone
Plus(e) == IF Multi(e.n, e.r) # Multi(e.n, e.x \o e.y) THEN "the sum of two polynomials"
           ELSE IF Range(e.x) # Range(e.x2) \/ Range(e.y) # Range(e.y2) THEN "an operand was changed" ELSE "ok"
\* the multilinear form after adding and subtracting matrices
MultiForm(e) ==
   LET want == Multi(e.n, FlattenSeq([i \in 1..Len(e.mats) |-> [j \in 1..Len(e.mats[i].cols) |-> <<e.mats[i].cols[j], IF e.mats[i].minus THEN 7 ELSE 1>>]]))
       l(i) == FoldLeft(LAMBDA s, x : IF x[1] + 1 = i THEN s + x[2] ELSE s, 0, e.l) % 8
       q(t) == FoldLeft(LAMBDA s, x : IF x[1] + 1 = t[1] /\ x[2] + 1 = t[2] THEN s + x[3] ELSE s, 0, e.q) % 4
   IN IF \E i \in 1..e.n : l(i) # want.l[i] THEN "a linear coefficient"
      ELSE IF \E t \in Pairs2(e.n) : q(t) # want.q[t] THEN "a quadratic coefficient"
      ELSE IF {<<x[1] + 1, x[2] + 1, x[3] + 1>> : x \in Range(e.c)} # want.c THEN "a cubic coefficient"
      ELSE IF e.refused = Clifford(want) THEN (IF e.refused THEN "a Clifford form is refused" ELSE "a form that is not Clifford is written with Clifford gates")
      ELSE IF e.refused THEN "ok"
      ELSE LET r == RunAll(e.n, e.gates) IN IF r.rows # IdM(e.n) \/ Form(e.n, r.ph) # want THEN "the Clifford gates of a form"
      ELSE IF \E i \in 1..Len(e.gates) : e.gates[i][1] = "z" /\ e.gates[i][3] % 2 = 1 THEN "a T gate among the Clifford gates" ELSE "ok"
\* one step on a matrix: so many columns fewer, up to Clifford gates; no step only when there is none
Single(e) ==
   IF ~ Fine(e.n, e.out) THEN "not a parity matrix"
   ELSE IF ~ Equal(e.n, e.cols, e.out) THEN "more than Clifford gates are lost"
   ELSE IF Len(e.out) # Len(e.cols) - e.r THEN "the number of columns removed"
   ELSE IF e.r < 0 THEN "more columns"
   ELSE IF e.r = 0 /\ NoTrivial(e.cols) /\ Match(e.n, e.cols) THEN "a step was possible"
   ELSE IF e.r > 0 /\ ~ NoTrivial(e.out) THEN "trivial columns remain" ELSE "ok"
Trivial(e) ==
   IF e.r # Len(e.out) THEN "the number of columns left"
   ELSE IF ~ NoTrivial(e.out) THEN "trivial columns remain"
   ELSE IF Range(e.out) # Reduce2(e.cols) THEN "the columns that are left" ELSE "ok"
Iter(e) ==
   IF ~ Fine(e.n, e.out) THEN "not a parity matrix"
   ELSE IF ~ Equal(e.n, e.cols, e.out) THEN "more than Clifford gates are lost"
   ELSE IF ~ NoTrivial(e.out) THEN "trivial columns remain"
   ELSE IF Len(e.out) > Cardinality(Reduce2(e.cols)) THEN "more columns"
   ELSE IF ~ e.external /\ Match(e.n, e.out) THEN "a step was possible" ELSE "ok"
Odd(ph) == Cardinality({p \in DOMAIN ph : ph[p] % 2 = 1})
\* the whole method on a circuit; qubit i of the result goes to perm[i]
Simp(e) ==
   LET a == RunAll(e.n, e.ops)
       b == RunAll(e.n, e.gates)
       t(gs) == Cardinality({i \in 1..Len(gs) : gs[i][1] = "z" /\ gs[i][3] % 2 = 1})
   IN IF \E i \in 1..Len(e.perm) : e.perm[i] \notin 0..(e.n - 1) THEN "the permutation"
      ELSE IF \E i \in 1..e.n : b.rows[i] # a.rows[e.perm[i] + 1] THEN "the linear part of the circuit"
      ELSE IF Form(e.n, a.ph) # Form(e.n, b.ph) THEN "the phases of the circuit"
      ELSE IF t(e.gates) > Odd(a.ph) THEN "more T gates than the polynomial" ELSE "ok"
\* a network of CNOTs in which every parity shows up on some qubit
Network(e) ==
   LET seen == FoldLeft(LAMBDA s, o : [rows |-> RowAdd(s.rows, o[2] + 1, o[3] + 1), all |-> s.all \cup Range(RowAdd(s.rows, o[2] + 1, o[3] + 1))], [rows |-> IdM(e.n), all |-> Range(IdM(e.n))], e.ops)
   IN IF \E i \in 1..Len(e.ops) : e.ops[i][1] # "cn" \/ e.ops[i][2] = e.ops[i][3] \/ {e.ops[i][2], e.ops[i][3]} \cap (0..(e.n - 1)) # {e.ops[i][2], e.ops[i][3]} THEN "not a CNOT circuit"
      ELSE IF ~ (Range(e.cols) \subseteq seen.all) THEN "a parity is never reached" ELSE "ok"
Judge(e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "poly" -> Poly(e)
     [] e.a = "plus" -> Plus(e)
     [] e.a = "multi" -> MultiForm(e)
     [] e.a = "single" -> Single(e)
     [] e.a = "trivial" -> Trivial(e)
     [] e.a = "iter" -> Iter(e)
     [] e.a = "simp" -> Simp(e)
     [] e.a = "network" -> Network(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
