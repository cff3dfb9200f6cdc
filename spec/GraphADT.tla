------------------------------ MODULE GraphADT ------------------------------
(***************************************************************************)
(* The graph data structure as an abstract machine.                        *)
(*                                                                         *)
(* A graph state is a record                                               *)
(*   be   "s" simple graph, "m" multigraph, "ma" multigraph that reduces   *)
(*        parallel edges as they are added                                 *)
(*   vs   the set of vertex identifiers; nx the next identifier            *)
(*   ty, ph, lb, ro, qu, vd   functions on vs: vertex type, phase (in      *)
(*        units of pi/4), Z-box label, row, qubit, user data               *)
(*   ed   function from ordered pairs <<s,t>>, s <= t, to the numbers of   *)
(*        plain, Hadamard and W edges between them (never all zero)        *)
(*   gr   the grounded vertices;  inp, out  boundary sequences             *)
(*   sc   the scalar                                                       *)
(* Operations are operators from states (and arguments) to states.  Every  *)
(* query of the implementation is a function of the state (Diff).          *)
(***************************************************************************)
EXTENDS Meaning

U == N \div 8                       \* phases here are multiples of pi/4
NoSc == [p2 |-> 0, ph |-> 0, nodes |-> <<>>, ff |-> <<1,0,0,0,0>>, zero |-> FALSE]
Empty(be) == [be |-> be, vs |-> {}, nx |-> 0, ty |-> <<>>, ph |-> <<>>, lb |-> <<>>, ro |-> <<>>, qu |-> <<>>,
              vd |-> <<>>, ed |-> <<>>, gr |-> {}, inp |-> <<>>, out |-> <<>>, sc |-> NoSc]

Pair(s, t) == IF s <= t THEN <<s, t>> ELSE <<t, s>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Cnt(g, p) == IF p \in DOMAIN g.ed THEN g.ed[p] ELSE <<0, 0, 0>>
SetCnt(g, p, c) == [g EXCEPT !.ed = IF c = <<0, 0, 0>> THEN Cut(g.ed, {p}) ELSE Put(g.ed, p, c)]
One(et) == CASE et = 1 -> <<1, 0, 0>> [] et = 2 -> <<0, 1, 0>> [] et = 3 -> <<0, 0, 1>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S \cup {d} : \A y \in S \cup {d} : y <= x
Next1(S) == 1 + CHOOSE x \in S : \A y \in S : y <= x

ZXLike(t) == t \in {1, 2, 6}
ZLike(t) == t \in {1, 6}

(* ------------------------------------------------------------ vertices *)
NewV(g, v, ty, ph, q, r, gr) ==
   [g EXCEPT !.vs = @ \cup {v}, !.nx = IF v >= @ THEN v + 1 ELSE @,
             !.ty = Put(@, v, ty), !.ph = Put(@, v, ph), !.lb = Put(@, v, <<1,0,0,0,0>>),
             !.qu = Put(@, v, q), !.ro = Put(@, v, r), !.vd = Put(@, v, <<>>),
             !.gr = IF gr THEN @ \cup {v} ELSE @]
\* ph = 8 asks for the default phase of the type
AddV(g, ty, ph, q, r, gr) == NewV(g, g.nx, ty, IF ph = 8 THEN (IF ty = 3 THEN 4 ELSE 0) ELSE ph, q, r, gr)
RECURSIVE AddVs(_, _)
AddVs(g, k) == IF k = 0 THEN g ELSE AddVs(NewV(g, g.nx, 0, 0, -1, -1, FALSE), k - 1)
Without(S, s) == SelectSeq(s, LAMBDA v : v \notin S)
RemV(g, S) ==
   LET k == g.vs \ S IN
   [g EXCEPT !.vs = k, !.nx = IF k = {} THEN @ ELSE Next1(k),
             !.ty = Cut(@, S), !.ph = Cut(@, S), !.lb = Cut(@, S), !.qu = Cut(@, S), !.ro = Cut(@, S), !.vd = Cut(@, S),
             !.ed = Cut(@, {p \in DOMAIN @ : p[1] \in S \/ p[2] \in S}),
             !.gr = @ \ S, !.inp = Without(S, @), !.out = Without(S, @)]

(* --------------------------------------------------------------- edges *)
Reduces(g, s, t) == g.be # "m" /\ ZXLike(g.ty[s]) /\ ZXLike(g.ty[t])
\* an insertion whose outcome the representation does not determine
Smart(g, s, t, c) == Reduces(g, s, t) /\ (s = t \/ Plus(Cnt(g, Pair(s, t)), c) \notin {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>})
Refused(g, s, t, c) == g.be = "s" /\ ~Reduces(g, s, t) /\
                       LET n == Plus(Cnt(g, Pair(s, t)), c) IN s = t \/ n[1] + n[2] + n[3] > 1
AddE(g, s, t, c) == SetCnt(g, Pair(s, t), Plus(Cnt(g, Pair(s, t)), c))
RemE(g, s, t, et) == SetCnt(g, Pair(s, t), Minus(Cnt(g, Pair(s, t)), One(et)))

\* the two vertices with all edges between them and a wire to each
Local(g, s, t, c) ==
   LET e(u, v, k) == [i \in 1..c[k] |-> <<u, v, k>>]
       two == s # t IN
   [n |-> IF two THEN 4 ELSE 2,
    ty |-> IF two THEN <<g.ty[s], g.ty[t], 0, 0>> ELSE <<g.ty[s], 0>>,
    ph |-> IF two THEN <<g.ph[s] * U, g.ph[t] * U, 0, 0>> ELSE <<g.ph[s] * U, 0>>,
    lb |-> IF two THEN <<g.lb[s], g.lb[t], <<>>, <<>>>> ELSE <<g.lb[s], <<>>>>,
    ed |-> IF two THEN e(1, 2, 1) \o e(1, 2, 2) \o <<<<1, 3, 1>>, <<2, 4, 1>>>> ELSE e(1, 1, 1) \o e(1, 1, 2) \o <<<<1, 2, 1>>>>,
    inp |-> IF two THEN <<3>> ELSE <<2>>, out |-> IF two THEN <<4>> ELSE <<>>,
    sc |-> g.sc, ord |-> <<>>]
\* {0,1}^2 determines a bilinear form
LPts(s, t) == IF s # t THEN <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>>> ELSE <<<<0>>, <<1>>>>
LocalSame(g, h, s, t, c, d) ==
   LET m(x, k) == [i \in 1..Len(LPts(s, t)) |-> Value(TLCEval(Local(x, s, t, k)), LPts(s, t)[i])]
   IN TLCEval(m(g, c)) = TLCEval(m(h, d))

\* one way to reduce parallel edges (the specification accepts any that keeps the meaning)
NegAt(g, s) == IF g.ty[s] = 6 THEN [g EXCEPT !.lb[s] = RingMul(@, <<0-1,0,0,0,0>>)] ELSE [g EXCEPT !.ph[s] = (@ + 4) % 8]
AddP2(g, k) == [g EXCEPT !.sc.p2 = @ + k]
Reduce(g, s, t) ==      \* g has unreduced edges between s and t
   LET p == Pair(s, t)
       c == Cnt(g, p)
       f == IF ZLike(g.ty[s]) = ZLike(g.ty[t]) THEN 1 ELSE 2      \* edges that fuse
       a == c[f]
       b == c[3 - f]
       two(x, y) == IF f = 1 THEN <<x, y, 0>> ELSE <<y, x, 0>>
   IN IF s = t THEN (LET g0 == AddP2(SetCnt(g, p, <<0,0,0>>), 0 - c[2]) IN IF c[2] % 2 = 1 THEN NegAt(g0, s) ELSE g0)
      ELSE IF g.be = "ma" THEN AddP2(SetCnt(g, p, two(IF a > 0 THEN 1 ELSE 0, b % 2)), 0 - (b - (b % 2)))
      ELSE IF a > 0 THEN (LET g0 == AddP2(SetCnt(g, p, two(1, 0)), 0 - b) IN IF b % 2 = 1 THEN NegAt(g0, s) ELSE g0)
      ELSE AddP2(SetCnt(g, p, two(0, b % 2)), 0 - (b - (b % 2)))
Insert(g, s, t, c) == LET h == AddE(g, s, t, c) IN IF Smart(g, s, t, c) THEN Reduce(h, s, t) ELSE h
Reduced(g, s, t) == LET c == Cnt(g, Pair(s, t)) IN
                    IF s = t THEN c = <<0,0,0>> ELSE IF g.be = "s" THEN c[1] + c[2] <= 1 ELSE c[1] <= 1 /\ c[2] <= 1

(* ----------------------------------------------- graphs from graphs *)
\* vertex v of g becomes w[v]
Rename(g, S, w) ==
   LET iv(x) == CHOOSE v \in S : w[v] = x
       im == {w[v] : v \in S}
       fn(f) == [x \in im |-> f[iv(x)]]
       ps == {p \in DOMAIN g.ed : p[1] \in S /\ p[2] \in S}
   IN [g EXCEPT !.vs = im, !.nx = IF im = {} THEN 0 ELSE Next1(im),
                !.ty = fn(@), !.ph = fn(@), !.lb = fn(@), !.qu = fn(@), !.ro = fn(@), !.vd = fn(@),
                !.ed = [q \in {Pair(w[p[1]], w[p[2]]) : p \in ps} |->
                          g.ed[CHOOSE p \in ps : Pair(w[p[1]], w[p[2]]) = q]],
                !.gr = {w[v] : v \in g.gr \cap S},
                !.inp = [i \in 1..Len(@) |-> w[@[i]]], !.out = [i \in 1..Len(@) |-> w[@[i]]]]
SubG(g, S, w) == Rename([g EXCEPT !.inp = <<>>, !.out = <<>>, !.sc = NoSc], S, w)
Join(g, h, w) ==    \* h beside g, vertex v of h named w[v]; boundaries and scalar stay g's
   LET r == Rename([h EXCEPT !.inp = <<>>, !.out = <<>>], h.vs, w) IN
   [g EXCEPT !.vs = @ \cup r.vs, !.nx = IF r.vs = {} THEN @ ELSE Next1(g.vs \cup r.vs), !.ty = @ @@ r.ty, !.ph = @ @@ r.ph, !.lb = @ @@ r.lb,
             !.qu = @ @@ r.qu, !.ro = @ @@ r.ro, !.vd = @ @@ r.vd, !.ed = @ @@ r.ed, !.gr = @ \cup r.gr]
\* rows replaced by their ranks
Packed(g) == LET rs == {g.ro[v] : v \in g.vs} IN
             [g EXCEPT !.ro = [v \in g.vs |-> Cardinality({x \in rs : x < g.ro[v]})]]

(* ------------------------------------------------------------- queries *)
Sum3(c) == c[1] + c[2] + c[3]
RECURSIVE TotalOf(_, _)
TotalOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Sum3(f[x]) + TotalOf(f, S \ {x})
NumE(g) == TotalOf(g.ed, DOMAIN g.ed)
At(g, v) == {p \in DOMAIN g.ed : v \in {p[1], p[2]}}
Nbrs(g, v) == {IF p[1] = v THEN p[2] ELSE p[1] : p \in At(g, v)}
Deg(g, v) == TotalOf(g.ed, At(g, v))
CountE(es, p, k) == Cardinality({i \in 1..Len(es) : Pair(es[i][1], es[i][2]) = p /\ es[i][3] = k})
EdgesAre(g, ps, es) ==      \* the edge list es is exactly the edges of g between the pairs ps
   /\ \A i \in 1..Len(es) : Pair(es[i][1], es[i][2]) \in ps
   /\ \A p \in ps : \A k \in 1..3 : CountE(es, p, k) = g.ed[p][k]
Range1(s) == {s[i] : i \in 1..Len(s)}
WellShaped(g) == \A v \in g.vs : CASE g.ty[v] = 0 -> Deg(g, v) = 1 [] g.ty[v] = 4 -> Deg(g, v) = 2
                                   [] g.ty[v] = 5 -> Deg(g, v) >= 2 [] OTHER -> TRUE
IsId(g) == /\ Len(g.inp) = Len(g.out) /\ Cardinality(g.vs) = 2 * Len(g.inp) /\ NumE(g) = Len(g.inp)
           /\ \A i \in 1..Len(g.inp) : g.inp[i] # g.out[i] /\ Cnt(g, Pair(g.inp[i], g.out[i])) = <<1, 0, 0>>
InRange(g, a, b) == {v \in g.vs : a < v /\ v < b /\ \A u \in Nbrs(g, v) : a < u /\ u < b}

\* what the observation o says that the state g does not
Diff(g, o) ==
   LET loops == \E p \in DOMAIN g.ed : p[1] = p[2] IN
   IF Range1(o.vs) # g.vs \/ Len(o.vs) # Cardinality(g.vs) THEN "vertices"
   ELSE IF Range1(o.vset) # g.vs THEN "vertex_set"
   ELSE IF o.nv # Cardinality(g.vs) THEN "num_vertices"
   ELSE IF g.vs # {} /\ o.nx # g.nx THEN "vindex"
   ELSE IF \E i \in 1..Len(o.vx) : o.vx[i].ty # g.ty[o.vs[i]] THEN "vertex type"
   ELSE IF \E i \in 1..Len(o.vx) : o.vx[i].ph # g.ph[o.vs[i]] THEN "phase"
   ELSE IF \E i \in 1..Len(o.vx) : g.ty[o.vs[i]] = 6 /\ o.vx[i].lb # g.lb[o.vs[i]] THEN "label"
   ELSE IF \E i \in 1..Len(o.vx) : o.vx[i].q # g.qu[o.vs[i]] THEN "qubit"
   ELSE IF \E i \in 1..Len(o.vx) : o.vx[i].r # g.ro[o.vs[i]] THEN "row"
   ELSE IF \E i \in 1..Len(o.vx) : o.vx[i].gr # (o.vs[i] \in g.gr) THEN "is_ground"
   ELSE IF \E i \in 1..Len(o.vx) : {<<x[1], x[2]>> : x \in Range1(o.vx[i].vd)} # {<<k, g.vd[o.vs[i]][k]>> : k \in DOMAIN g.vd[o.vs[i]]}
        THEN "vertex data"
   ELSE IF Range1(o.gr) # g.gr \/ o.hyb # (g.gr # {}) THEN "grounds"
   ELSE IF o.inp # g.inp \/ o.ni # Len(g.inp) THEN "inputs"
   ELSE IF o.out # g.out \/ o.no # Len(g.out) THEN "outputs"
   ELSE IF ~EdgesAre(g, DOMAIN g.ed, o.ed) THEN "edges"
   ELSE IF o.ne # NumE(g) THEN "num_edges"
   ELSE IF {Pair(e[1], e[2]) : e \in Range1(o.es)} # DOMAIN g.ed THEN "edge_set"
   ELSE IF {Pair(e[1], e[2]) : e \in Range1(o.con)} # DOMAIN g.ed THEN "connected"
   ELSE IF ~EdgesAre(g, DOMAIN g.ed, o.btw) THEN "edges between two vertices"
   ELSE IF \E i \in 1..Len(o.vx) : Range1(o.vx[i].nb) # Nbrs(g, o.vs[i]) \/ Len(o.vx[i].nb) # Cardinality(Nbrs(g, o.vs[i])) THEN "neighbors"
   ELSE IF ~loops /\ \E i \in 1..Len(o.vx) : o.vx[i].deg # Deg(g, o.vs[i]) THEN "vertex_degree"
   ELSE IF ~loops /\ \E i \in 1..Len(o.vx) : ~EdgesAre(g, At(g, o.vs[i]), o.vx[i].inc) THEN "incident_edges"
   ELSE IF o.dep # MaxOf({g.ro[v] : v \in g.vs}, -1) THEN "depth"
   ELSE IF o.qc # 1 + MaxOf({g.qu[v] : v \in g.vs}, -1) THEN "qubit_count"
   ELSE IF ~loops /\ o.wf # WellShaped(g) THEN "is_well_formed"
   ELSE IF o.id # IsId(g) THEN "is_id"
   ELSE IF Range1(o.vir[3]) # InRange(g, o.vir[1], o.vir[2]) THEN "vertices_in_range"
   ELSE IF o.sc # g.sc THEN "scalar"
   ELSE "ok"
=============================================================================
