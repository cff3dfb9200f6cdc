----------------------------- MODULE PhasePoly -----------------------------
(***************************************************************************)
(* Phase polynomials.  A circuit of CNOTs <<"cn", control, target>> and    *)
(* z-rotations <<"z", qubit, angle>> maps |x> to e^{i p(x)} |A x>, where   *)
(* p is a sum of angles times parities of x.  Its state is the parity held *)
(* by every qubit and the angle collected by every parity (angles count    *)
(* in units of 2 pi / Full).                                               *)
(***************************************************************************)
EXTENDS F2
\* phases as a function on the parities with a nonzero angle
AddPhase(full, ph, par, a) ==
   LET old == IF par \in DOMAIN ph THEN ph[par] ELSE 0  new == (old + a) % full
       dom == IF new = 0 THEN DOMAIN ph \ {par} ELSE DOMAIN ph \cup {par}
   IN [x \in dom |-> IF x = par THEN new ELSE ph[x]]
None == [x \in {} |-> 0]
Step(full, s, o) ==
   IF o[1] = "cn" THEN [s EXCEPT !.rows = RowAdd(s.rows, o[2] + 1, o[3] + 1)]
   ELSE [s EXCEPT !.ph = AddPhase(full, s.ph, s.rows[o[2] + 1], o[3])]
RunFrom(full, rows, ops) == FoldLeft(LAMBDA s, o : Step(full, s, o), [rows |-> rows, ph |-> None], ops)
Run(full, n, ops) == RunFrom(full, IdM(n), ops)
\* a polynomial given as a sequence of <<parity, angle>>
OfPairs(full, ps) == FoldLeft(LAMBDA f, x : AddPhase(full, f, x[1], x[2]), None, ps)
\* the phase that a polynomial gives to a basis state
PhaseAt(full, ph, x) == LET d == SetToSeq(DOMAIN ph) IN FoldLeft(LAMBDA s, p : (s + ph[p] * Dot(p, x)) % full, 0, d)
\* qubit j starts with the parity of input perm[j]
PermRows(n, perm) == Tp([j \in 1..n |-> IdM(n)[perm[j] + 1]])
=============================================================================
