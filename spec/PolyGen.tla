------------------------------ MODULE PolyGen ------------------------------
(***************************************************************************)
(* All pairs of small polynomials in one continuous and two Boolean        *)
(* variables: the operations agree with evaluation under every assignment, *)
(* the normal form identifies exactly the polynomials with equal values.   *)
(***************************************************************************)
EXTENDS Poly, Json
CONSTANTS Monos, Coefs, Emit
VARIABLES p, q, k
vars == <<p, q, k>>
B == {"b", "c"}
MonoTab == [one |-> {}, x |-> {<<"x", 1>>}, x2 |-> {<<"x", 2>>}, b |-> {<<"b", 1>>}, bc |-> {<<"b", 1>>, <<"c", 1>>}, xb |-> {<<"x", 1>>, <<"b", 1>>}]
CoefTab == <<<<1, 1>>, <<1, 2>>, <<-1, 1>>, <<3, 4>>, <<2, 1>>, <<1, 1>>>>
Ms == {MonoTab[m] : m \in Monos}
Polys == {Trim(f) : f \in [Ms -> {CoefTab[i] : i \in Coefs} \cup {Zero}]}
Asg == {[v \in {"x", "b", "c"} |-> IF v = "x" THEN x ELSE IF v = "b" THEN b ELSE cc] :
          x \in {<<-1, 1>>, <<1, 3>>, <<2, 1>>}, b \in {<<0, 1>>, <<1, 1>>}, cc \in {<<0, 1>>, <<1, 1>>}}
Val == TLCEval([f \in Polys |-> [a \in Asg |-> PEval(a, f)]])
Val2 == TLCEval([f \in Polys |-> [a \in Asg |-> RMod(PEval(a, f), 2)]])
Out(f) == {<<f[m][1], f[m][2], m>> : m \in DOMAIN f}
Init == p \in Polys /\ q = PNull /\ k = 0
Next == k = 0 /\ k' = 1 /\ p' = p /\ q' \in Polys /\ (Emit => PrintT(ToJson([p |-> Out(p), q |-> Out(q')])))
Spec == Init /\ [][Next]_vars
Homomorphic == k = 1 => LET s == PAdd(p, q)  m == PMul(B, p, q) IN \A a \in Asg :
   /\ PEval(a, s) = RAdd(Val[p][a], Val[q][a])
   /\ PEval(a, m) = RMul(Val[p][a], Val[q][a])
Unary == k = 0 => \A a \in Asg :
   /\ PEval(a, PNeg(p)) = RNeg(Val[p][a])
   /\ PEval(a, PPow(B, p, 2)) = RMul(Val[p][a], Val[p][a])
   /\ PEval(a, PSubst([v \in {"b"} |-> a["b"]], p)) = Val[p][a]
   /\ PEval(a, PSubst([v \in {"x", "c"} |-> a[v]], p)) = Val[p][a]
   /\ RMod(PEval(a, PRed(B, p, 2)), 2) = Val2[p][a]
\* values at enough points determine the polynomial (degree in x below the number of points)
Complete == PPhase(B, p, q) <=> Val2[p] = Val2[q]
Kinds == k = 0 => /\ (PIsPauli(B, p) => \A a \in Asg : a["x"][2] = 1 => Val[p][a][2] = 1)
                      /\ (PIsClifford(B, p) => \A a \in Asg : Val[p][a][2] \in {1, 2})
=============================================================================
