-------------------------------- MODULE Todd --------------------------------
(***************************************************************************)
(* Diagonal circuits of T gates on parities.  A parity matrix is a         *)
(* sequence of parities, each of which gets a phase of pi/4; its           *)
(* multilinear form (x+y mod 2 = x+y-2xy) is unique: linear terms modulo   *)
(* 8, quadratic ones modulo 4 (times 2), cubic ones modulo 2 (times 4).    *)
(* Two matrices differ by Clifford gates iff their forms differ by even    *)
(* coefficients and no cubic ones.                                         *)
(***************************************************************************)
EXTENDS PhasePoly
Pairs2(n) == {x \in (1..n) \X (1..n) : x[1] < x[2]}
Triples(n) == {x \in (1..n) \X (1..n) \X (1..n) : x[1] < x[2] /\ x[2] < x[3]}
SumOver(ps, F(_)) == FoldLeft(LAMBDA s, x : s + F(x), 0, ps)
\* ps: a sequence of <<parity, multiple of pi/4>>
Multi(n, ps) ==
  TLCEval([l |-> [i \in 1..n |-> SumOver(ps, LAMBDA x : x[2] * x[1][i]) % 8],
   q |-> [t \in Pairs2(n) |-> (0 - SumOver(ps, LAMBDA x : x[2] * x[1][t[1]] * x[1][t[2]])) % 4],
   c |-> {t \in Triples(n) : SumOver(ps, LAMBDA x : x[2] * x[1][t[1]] * x[1][t[2]] * x[1][t[3]]) % 2 = 1}])
OfCols(cols) == [i \in 1..Len(cols) |-> <<cols[i], 1>>]
MultiOfPhases(n, ph, unit) == LET d == SetToSeq(DOMAIN ph) IN Multi(n, [i \in 1..Len(d) |-> <<d[i], ph[d[i]] \div unit>>])
Clifford(m) == (\A i \in DOMAIN m.l : m.l[i] % 2 = 0) /\ (\A t \in DOMAIN m.q : m.q[t] % 2 = 0) /\ m.c = {}
MinusM(n, a, b) == [l |-> [i \in 1..n |-> (a.l[i] - b.l[i]) % 8], q |-> [t \in Pairs2(n) |-> (a.q[t] - b.q[t]) % 4], c |-> (a.c \ b.c) \cup (b.c \ a.c)]
\* the class of a matrix modulo Clifford gates
Class(n, m) == [l |-> [i \in 1..n |-> m.l[i] % 2], q |-> [t \in Pairs2(n) |-> m.q[t] % 2], c |-> m.c]
\* what a multilinear form gives to a basis state, in units of pi/4
MultiAt(n, m, x) == (SumOver([i \in 1..n |-> i], LAMBDA i : m.l[i] * x[i])
                     + 2 * SumOver(SetToSeq(Pairs2(n)), LAMBDA t : m.q[t] * x[t[1]] * x[t[2]])
                     + 4 * SumOver(SetToSeq(m.c), LAMBDA t : x[t[1]] * x[t[2]] * x[t[3]])) % 8
\* equal columns cancel (S gates), zero columns are nothing
RECURSIVE Reduce2(_)
Reduce2(cols) == LET n == Len(cols) IN
   IF n = 0 THEN {} ELSE LET r == Reduce2(Tail(cols))  x == cols[1] IN IF IsZeroRow(x) THEN r ELSE IF x \in r THEN r \ {x} ELSE r \cup {x}
\* "duplicate and destroy": z may be added to the columns y when this adds nothing but Clifford gates
MayAdd(n, cols, z, y) ==
   LET odd(F(_)) == FoldLeft(LAMBDA s, i : (s + y[i] * F(cols[i])) % 2, 0, [i \in 1..Len(cols) |-> i])
   IN /\ \A a \in 1..n : odd(LAMBDA x : x[a]) = 0
      /\ \A t \in Triples(n) : odd(LAMBDA x : z[t[1]] * x[t[2]] * x[t[3]] + z[t[2]] * x[t[1]] * x[t[3]] + z[t[3]] * x[t[1]] * x[t[2]]) = 0
AddTo(cols, z, y) == [i \in 1..Len(cols) |-> IF y[i] = 1 THEN XorRow(cols[i], z) ELSE cols[i]]
                     \o (IF FoldLeft(LAMBDA s, i : s + y[i], 0, [i \in 1..Len(cols) |-> i]) % 2 = 1 THEN <<z>> ELSE <<>>)
\* the conditions on y as a matrix over the columns
Chi(n, cols, z) ==
   LET k == Len(cols)
       t == SetToSeq(Triples(n))
   IN [a \in 1..n |-> Tp([i \in 1..k |-> cols[i][a]])]
      \o [j \in 1..Len(t) |-> LET u == t[j] IN Tp([i \in 1..k |-> LET x == cols[i] IN (z[u[1]] * x[u[2]] * x[u[3]] + z[u[2]] * x[u[1]] * x[u[3]] + z[u[3]] * x[u[1]] * x[u[2]]) % 2])]
\* is there a z, the sum of columns a and b, and an allowed y with exactly one of a and b
Match(n, cols) ==
   LET k == Len(cols)
   IN \E a \in 1..k : \E b \in (a + 1)..k : ~ InSpan(Chi(n, cols, XorRow(cols[a], cols[b])), Tp([i \in 1..k |-> IF i \in {a, b} THEN 1 ELSE 0]))
=============================================================================
