------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* Meanings of the objects PyZX handles, and the relations between them.   *)
(* An object o has a kind o.k:                                             *)
(*   "graph"  a diagram (ZXSem)                                            *)
(*   "circ"   a circuit (CircSem)                                          *)
(*   "sum"    a formal sum of diagrams, o.gs                               *)
(*   "mat"    an explicit matrix of exact ring elements, o.m, indexed by   *)
(*            output bits then input bits, first boundary most significant *)
(*   "bad"    the implementation produced no object; o.why says why        *)
(*   "prog"   a program in a circuit description language (CircProgram)    *)
(*   "anc"    a circuit with ancillas in the state (1,1) at both ends, or  *)
(*            in the state |0> when the field o.st is 0                    *)
(*   "pat"    a measurement pattern (Mbqc)                                 *)
(*   "ends"   a circuit some of whose ends are closed off                  *)
(*   "proc"   a diagram with grounds, o.gr, as the doubled diagram (Hybrid)*)
(*   "hcirc"  a circuit with measurements (Hybrid)                         *)
(*   "adj"    the adjoint of o.of                                          *)
(*   "then"   first o.a, then o.b (o.map: on these qubits of o.a)          *)
(*   "par"    o.a beside o.b                                               *)
(*   "plug"   o.of with boundaries o.bs closed by the states o.es          *)
(*   "permio" o.of with inputs and outputs taken in another order          *)
(***************************************************************************)
EXTENDS Hybrid

\* first a, then b: the outputs of a are joined to the inputs of b.  The two
\* boundary vertices become phaseless spiders joined by a plain wire.
ThenG(a, b, ord) ==
   LET join == {a.out[i] : i \in 1..Len(a.out)} \cup {a.n + b.inp[i] : i \in 1..Len(b.inp)}
       ty == a.ty \o b.ty
   IN [n |-> a.n + b.n,
       ty |-> Tup([i \in 1..(a.n + b.n) |-> IF i \in join THEN 1 ELSE ty[i]]),
       ph |-> a.ph \o b.ph, lb |-> a.lb \o b.lb,
       ed |-> a.ed \o Tup([i \in 1..Len(b.ed) |-> <<b.ed[i][1] + a.n, b.ed[i][2] + a.n, b.ed[i][3]>>])
              \o Tup([i \in 1..Len(a.out) |-> <<a.out[i], a.n + b.inp[i], 1>>]),
       inp |-> a.inp, out |-> Tup([i \in 1..Len(b.out) |-> b.out[i] + a.n]),
       sc |-> ScalarMul(a.sc, b.sc), ord |-> ord]

\* boundaries bs[i] (a vertex) are closed off with the state (or effect) es[i]
PlugType(e) == CASE e \in {"0", "1"} -> 2 [] e \in {"+", "-"} -> 1
PlugPhase(e) == IF e \in {"1", "-"} THEN HalfN ELSE 0
PlugG(g, bs, es) ==
   LET at(v) == CHOOSE i \in 1..Len(bs) : bs[i] = v
       cl == Range(bs)
   IN [g EXCEPT !.ty = Tup([v \in 1..g.n |-> IF v \in cl THEN PlugType(es[at(v)]) ELSE g.ty[v]]),
                !.ph = Tup([v \in 1..g.n |-> IF v \in cl THEN PlugPhase(es[at(v)]) ELSE g.ph[v]]),
                !.inp = SelectSeq(g.inp, LAMBDA v : v \notin cl),
                !.out = SelectSeq(g.out, LAMBDA v : v \notin cl),
                !.sc = [g.sc EXCEPT !.p2 = g.sc.p2 - Len(bs)]]     \* normalized states

MoveGates(gs, map) == Tup([i \in 1..Len(gs) |-> [gs[i] EXCEPT !.q = Tup([j \in 1..Len(gs[i].q) |-> map[gs[i].q[j]]])]])

\* an object built from others by the operations of the algebra, as a plain object
RECURSIVE Norm(_)
Norm(o) ==
   CASE o.k \in {"graph", "circ", "sum", "mat", "bad", "anc", "ends", "hcirc"} -> o
     [] o.k = "proc" -> IF GroundsWell(o.g, o.gr) = "ok" THEN [k |-> "graph", g |-> DoubleG(o.g, o.gr, o.ord)]
                        ELSE [k |-> "bad", why |-> GroundsWell(o.g, o.gr)]
     [] o.k = "pat" -> [k |-> "ends", c |-> PatCirc(o.p), bi |-> PatStart(o.p), bo |-> PatEnd(o.p)]
     [] o.k = "prog" -> [k |-> "circ", c |-> ProgCircuit(o.p)]
     [] o.k = "adj" ->
          LET x == Norm(o.of) IN
          (CASE x.k = "graph" -> [k |-> "graph", g |-> AdjG(x.g)]
             [] x.k = "circ" -> [k |-> "circ", c |-> AdjC(x.c)]
             [] x.k = "bad" -> x)
     [] o.k = "then" ->
          LET x == Norm(o.a)
              y == Norm(o.b) IN
          IF x.k = "circ" /\ y.k = "circ"
          THEN [k |-> "circ", c |-> [n |-> x.c.n, gates |-> x.c.gates \o
                   (IF "map" \in DOMAIN o THEN MoveGates(y.c.gates, o.map) ELSE y.c.gates)]]
          ELSE IF x.k = "graph" /\ y.k = "graph" THEN [k |-> "graph", g |-> ThenG(x.g, y.g, o.ord)]
          ELSE [k |-> "bad", why |-> "composition of unlike objects"]
     [] o.k = "par" ->
          LET x == Norm(o.a)
              y == Norm(o.b) IN
          IF x.k = "circ" /\ y.k = "circ"
          THEN [k |-> "circ", c |-> [n |-> x.c.n + y.c.n, gates |-> x.c.gates \o
                   MoveGates(y.c.gates, [q \in 1..y.c.n |-> q + x.c.n])]]
          ELSE IF x.k = "graph" /\ y.k = "graph" THEN [k |-> "graph", g |-> ParG(x.g, y.g, o.ord)]
          ELSE [k |-> "bad", why |-> "product of unlike objects"]
     [] o.k = "plug" ->
          LET x == Norm(o.of) IN
          IF x.k = "graph" THEN [k |-> "graph", g |-> PlugG(x.g, o.bs, o.es)] ELSE x
     [] o.k = "permio" ->      \* inputs and outputs taken in another order
          LET x == Norm(o.of) IN
          IF x.k = "graph" THEN [k |-> "graph", g |-> [x.g EXCEPT
                  !.inp = Tup([i \in 1..Len(x.g.inp) |-> x.g.inp[o.pi[i]]]),
                  !.out = Tup([i \in 1..Len(x.g.out) |-> x.g.out[o.po[i]]])]] ELSE x

WellP(o) == CASE o.k = "graph" -> WellFormed(o.g)
             [] o.k \in {"circ", "anc", "ends"}  -> CircWellFormed(o.c)
             [] o.k = "sum"   -> (IF \A i \in 1..Len(o.gs) : WellFormed(o.gs[i]) = "ok" THEN "ok"
                                  ELSE "a term of the sum is not a diagram")
             [] o.k = "mat"   -> "ok"
             [] o.k = "hcirc" -> HybWell(o.h)
             [] o.k = "bad"   -> o.why
Well(o) == WellP(TLCEval(Norm(o)))

MatValue(m, r, nin, nout) ==
   \* m[row][col]; row = outputs, col = inputs, first is most significant
   LET rv == ProdVec([i \in 1..nin |-> r[nin + 1 - i]], 0, nin)
       lv == ProdVec([i \in 1..nout |-> r[nin + nout + 1 - i]], 0, nout)
       row(i) == FoldLeft(LAMBDA a, j : (a + Mul(Ring(m[i][j]), rv[j - 1])) % P, 0,
                          [j \in 1..Pow2[nin] |-> j])
   IN FoldLeft(LAMBDA a, i : (a + Mul(row(i), lv[i - 1])) % P, 0, [i \in 1..Pow2[nout] |-> i])

\* a circuit with ancillas: qubits o.anc start and end in the state (1,1)
AncPoint(o, r) ==
   LET keep == SetToSortSeq(1..o.c.n \ Range(o.anc), LAMBDA x, y : x < y)
       pos(q) == CHOOSE i \in 1..Len(keep) : keep[i] = q
       m == Len(keep)
       st == IF "st" \in DOMAIN o THEN o.st ELSE 1
   IN Tup([i \in 1..(2 * o.c.n) |->
        LET q == IF i <= o.c.n THEN i ELSE i - o.c.n IN
        IF q \in Range(o.anc) THEN st ELSE IF i <= o.c.n THEN r[pos(q)] ELSE r[m + pos(q)]])

\* a circuit with closed ends: the open ones take the coordinates in order
EndsPoint(o, r) ==
   LET e == o.bi \o o.bo
       rank(i) == Cardinality({j \in 1..i : e[j] = 0 - 1})
   IN Tup([i \in 1..Len(e) |-> IF e[i] = 0 - 1 THEN r[rank(i)] ELSE e[i]])

ObjValueP(o, r) ==
   CASE o.k = "graph" -> Value(o.g, r)
     [] o.k = "circ"  -> CircValue(o.c, r)
     [] o.k = "anc"   -> CircValue(o.c, AncPoint(o, r))
     [] o.k = "ends"  -> CircValue(o.c, EndsPoint(o, r))
     [] o.k = "sum"   -> SumSeq([i \in 1..Len(o.gs) |-> Value(o.gs[i], r)])
     [] o.k = "mat"   -> MatValue(o.m, r, o.nin, o.nout)
     [] o.k = "hcirc" -> HybValue(o.h, r)

ArityP(o) ==
   CASE o.k = "graph" -> <<Len(o.g.inp), Len(o.g.out)>>
     [] o.k = "circ"  -> <<o.c.n, o.c.n>>
     [] o.k = "anc"   -> <<o.c.n - Len(o.anc), o.c.n - Len(o.anc)>>
     [] o.k = "ends"  -> <<Cardinality({i \in 1..o.c.n : o.bi[i] = 0 - 1}), Cardinality({i \in 1..o.c.n : o.bo[i] = 0 - 1})>>
     [] o.k = "sum"   -> IF Len(o.gs) = 0 THEN <<0, 0>> ELSE <<Len(o.gs[1].inp), Len(o.gs[1].out)>>
     [] o.k = "mat"   -> <<o.nin, o.nout>>
     [] o.k = "hcirc" -> <<2 * (o.h.q + o.h.b), 2 * (o.h.q + o.h.b)>>
Arity(o) == ArityP(TLCEval(Norm(o)))

ObjMeaning(o, pts) == LET x == TLCEval(Norm(o)) IN TLCEval([k \in 1..Len(pts) |-> ObjValueP(x, pts[k])])

\* literally the same diagram (edge lists are canonically ordered)
SameDiagram(a, b) == /\ a.n = b.n /\ a.ty = b.ty /\ a.ph = b.ph /\ a.lb = b.lb /\ a.ed = b.ed
                     /\ a.inp = b.inp /\ a.out = b.out /\ a.sc = b.sc

\* the same labelled structure, vertex v of a being vertex p[v] of b; x and y
\* are whatever else is attached to the vertices.  Says what differs.
SameUpTo(a, b, p, x, y) ==
   LET mv(e) == LET u == p[e[1]]
                    v == p[e[2]] IN IF u <= v THEN <<u, v, e[3]>> ELSE <<v, u, e[3]>>
       cnt(es, e) == Cardinality({k \in 1..Len(es) : es[k] = e})
       me == TLCEval([k \in 1..Len(a.ed) |-> mv(a.ed[k])])
   IN IF a.n # b.n \/ Len(p) # a.n \/ Range(p) # 1..a.n THEN "vertices differ"
      ELSE IF \E v \in 1..a.n : a.ty[v] # b.ty[p[v]] THEN "vertex types differ"
      ELSE IF \E v \in 1..a.n : a.ph[v] # b.ph[p[v]] THEN "phases differ"
      ELSE IF \E v \in 1..a.n : (IF Len(a.lb[v]) = 0 THEN 0 ELSE Ring(a.lb[v])) # (IF Len(b.lb[p[v]]) = 0 THEN 0 ELSE Ring(b.lb[p[v]])) THEN "labels differ"
      ELSE IF Len(a.ed) # Len(b.ed) \/ \E k \in 1..Len(me) : cnt(me, me[k]) # cnt(b.ed, me[k]) THEN "edges differ"
      ELSE IF Len(a.inp) # Len(b.inp) \/ \E i \in 1..Len(a.inp) : p[a.inp[i]] # b.inp[i] THEN "inputs differ"
      ELSE IF Len(a.out) # Len(b.out) \/ \E i \in 1..Len(a.out) : p[a.out[i]] # b.out[i] THEN "outputs differ"
      ELSE IF \E v \in 1..a.n : x[v] # y[p[v]] THEN "positions or vertex data differ"
      ELSE "ok"

\* the same wires and spiders (x: what is attached to them), with other phases;
\* and no more non-Clifford phases than before
GraphTCount(g) == Cardinality({v \in 1..g.n : g.ph[v] % (N \div 4) # 0})
SameShape(a, b, x, y) ==
   IF a.n # b.n \/ a.ty # b.ty THEN "the vertices differ"
   ELSE IF a.ed # b.ed THEN "the edges differ"
   ELSE IF a.inp # b.inp \/ a.out # b.out THEN "inputs or outputs differ"
   ELSE IF x # y THEN "positions or vertex data differ"
   ELSE IF GraphTCount(b) > GraphTCount(a) THEN "more non-Clifford phases than before" ELSE "ok"

\* verdict of "the new meaning b stands in relation rel to the meaning a"
Related(rel, a, b) ==
   CASE rel = "eq"   -> IF a = b THEN "ok" ELSE "linear map changed"
     [] rel = "prop" -> IF Proportional(a, b) THEN "ok" ELSE "linear map changed (not even proportional)"
     \* the new object claims to know the map up to an unknown factor only, which may be zero
     [] rel = "unk" -> IF IsZeroM(a) \/ Proportional(a, b) THEN "ok" ELSE "linear map changed (not even proportional)"
     [] rel = "phase" -> IF Proportional(a, b) /\ (\A k \in 1..Len(a) : a[k] # 0 => PowR(Mul(b[k], Inv(a[k])), 64) = 1)
                         THEN "ok" ELSE "linear map changed (not equal up to a global phase)"
     [] rel = "neq"  -> IF ~Proportional(a, b) THEN "ok" ELSE "linear maps are proportional but reported different"
     [] rel = "neqnz" -> IF IsZeroM(a) \/ IsZeroM(b) \/ ~Proportional(a, b) THEN "ok" ELSE "linear maps are proportional but reported different"
     [] rel = "neqx" -> IF a # b THEN "ok" ELSE "linear maps are equal but reported different"
     [] rel = "zero" -> IF IsZeroM(b) THEN "ok" ELSE "diagram reported zero is not zero"
=============================================================================
