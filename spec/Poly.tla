-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Symbolic phases: polynomials with rational coefficients in continuous   *)
(* and Boolean variables (idempotent), read as functions of the variables. *)
(* A polynomial is a function from monomials to non-zero rationals <<n,d>>;*)
(* a monomial is a set of <<variable, exponent>>, exponents positive, those*)
(* of Boolean variables 1.  As phases live modulo 2, coefficients of       *)
(* monomials of Boolean variables may be reduced modulo 2.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Rat(n, d) == LET s == IF d < 0 THEN -1 ELSE 1  g == GCD(AbsI(n), AbsI(d)) IN <<(s * n) \div g, (s * d) \div g>>
RAdd(p, q) == Rat(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
RMul(p, q) == Rat(p[1] * q[1], p[2] * q[2])
RNeg(p) == <<-p[1], p[2]>>
RInv(p) == Rat(p[2], p[1])
RECURSIVE RPow(_, _)
RPow(p, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(p, RPow(p, k - 1))
RMod(p, m) == <<p[1] % (m * p[2]), p[2]>>
Zero == <<0, 1>>
One1 == <<1, 1>>

\* bools: the set of Boolean variables
Vars(m) == {x[1] : x \in m}
ExpOf(m, v) == IF v \in Vars(m) THEN (CHOOSE x \in m : x[1] = v)[2] ELSE 0
MonMul(bools, m, n) == {<<v, IF v \in bools THEN 1 ELSE ExpOf(m, v) + ExpOf(n, v)>> : v \in Vars(m) \cup Vars(n)}
MonNorm(bools, m) == {<<x[1], IF x[1] \in bools THEN 1 ELSE x[2]>> : x \in {x \in m : x[2] # 0}}
AllBool(bools, m) == Vars(m) \subseteq bools

CoefIn(p, m) == IF m \in DOMAIN p THEN p[m] ELSE Zero
Trim(p) == [m \in {m \in DOMAIN p : p[m] # Zero} |-> p[m]]
PNull == [m \in {} |-> Zero]
PConst(c) == Trim([m \in {{}} |-> c])
PVar(v) == [m \in {{<<v, 1>>}} |-> One1]
PAdd(p, q) == Trim([m \in DOMAIN p \cup DOMAIN q |-> RAdd(CoefIn(p, m), CoefIn(q, m))])
PNeg(p) == [m \in DOMAIN p |-> RNeg(p[m])]
PScale(c, p) == Trim([m \in DOMAIN p |-> RMul(c, p[m])])
RECURSIVE RSum(_, _)
RSum(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSum(f, S \ {x}))
PMul(bools, p, q) ==
   LET prs == (DOMAIN p) \X (DOMAIN q)
       f == [x \in prs |-> RMul(p[x[1]], q[x[2]])]
       ms == {MonMul(bools, x[1], x[2]) : x \in prs}
   IN Trim([m \in ms |-> RSum(f, {x \in prs : MonMul(bools, x[1], x[2]) = m})])
RECURSIVE PPow(_, _, _)
PPow(bools, p, k) == IF k = 0 THEN PConst(One1) ELSE PMul(bools, p, PPow(bools, p, k - 1))
\* val: function from some variables to rationals
MonVal(val, m) == LET S == {x \in m : x[1] \in DOMAIN val}
                      RECURSIVE go(_)
                      go(T) == IF T = {} THEN One1 ELSE LET x == CHOOSE x \in T : TRUE IN RMul(RPow(val[x[1]], x[2]), go(T \ {x}))
                  IN go(S)
MonRest(val, m) == {x \in m : x[1] \notin DOMAIN val}
PSubst(val, p) ==
   LET f == [m \in DOMAIN p |-> RMul(p[m], MonVal(val, m))]
   IN Trim([r \in {MonRest(val, m) : m \in DOMAIN p} |-> RSum(f, {m \in DOMAIN p : MonRest(val, m) = r})])
\* the value under an assignment of all variables
PEval(val, p) == LET s == PSubst(val, p) IN CoefIn(s, {})

\* normal form: Boolean monomials (not the constant) modulo m
PRed(bools, p, m) == Trim([k \in DOMAIN p |-> IF k # {} /\ AllBool(bools, k) THEN RMod(p[k], m) ELSE p[k]])
PSame(bools, p, q) == PRed(bools, p, 2) = PRed(bools, q, 2)
\* equal as phases: the constant modulo 2 as well
PPhase(bools, p, q) == LET r(x) == Trim([k \in DOMAIN x |-> IF AllBool(bools, k) THEN RMod(x[k], 2) ELSE x[k]]) IN r(p) = r(q)
PVars(p) == UNION {Vars(m) : m \in DOMAIN p}
SumExp(m) == LET RECURSIVE go(_)
                 go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN x[2] + go(T \ {x}) IN go(m)
PDegree(p) == IF DOMAIN p = {} THEN 0 ELSE CHOOSE d \in {SumExp(m) : m \in DOMAIN p} : \A m \in DOMAIN p : SumExp(m) <= d
\* every assignment gives a multiple of pi; a multiple of pi/2 with integer weights of the Boolean part
PIsPauli(bools, p) == \A m \in DOMAIN p : AllBool(bools, m) /\ p[m][2] = 1
PIsClifford(bools, p) == \A m \in DOMAIN p : AllBool(bools, m) /\ (IF m = {} THEN p[m][2] \in {1, 2} ELSE p[m][2] = 1)
=============================================================================
