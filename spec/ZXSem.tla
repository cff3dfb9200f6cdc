------------------------------- MODULE ZXSem -------------------------------
(***************************************************************************)
(* The standard interpretation of a ZX / ZH / ZW diagram.                  *)
(*                                                                         *)
(* A diagram is a record                                                   *)
(*   n    number of vertices (named 1..n)                                  *)
(*   ty   vertex types: 0 boundary, 1 Z, 2 X, 3 H-box, 4 W-input,          *)
(*        5 W-output, 6 Z-box                                              *)
(*   ph   phases (integers modulo N, see Field)                            *)
(*   lb   labels of Z-boxes as exact ring elements (or <<>>)               *)
(*   ed   edges <<u, v, t>>, t = 1 plain, 2 Hadamard, 3 W-IO; a multiset   *)
(*   inp, out   boundary vertices                                          *)
(*   sc   the scalar: [p2, ph, nodes, ff, zero]                            *)
(*   ord  an order in which to sum out the variables (advice only; any     *)
(*        permutation gives the same value)                                *)
(*                                                                         *)
(* The meaning of the diagram is the tensor obtained by giving each        *)
(* Z-like vertex a bit (in its own basis), each plain edge a delta, each   *)
(* Hadamard edge (-1)^{xy}/sqrt 2, each H-box leg-hypergraph the label if  *)
(* all legs are one, and each W vertex the indicator of "exactly one leg   *)
(* is one", and summing over all bits.                                     *)
(*                                                                         *)
(* Value(g, r) is that tensor, as a multilinear form, at the point r, i.e. *)
(* with the vector (1, r[i]) plugged into the i-th boundary (inputs first).*)
(* Equal tensors have equal values at every point; different tensors have  *)
(* equal values at a random point with probability at most #boundaries/P.  *)
(***************************************************************************)
EXTENDS Field, FiniteSets, Bitwise

IsSpider(t) == t \in {0, 1, 2, 6}
IsXType(t)  == t = 2
IsBox(t)    == t \in {3, 4, 5}

\* parity of the number of ones of j, j < 2^16
ParTable == TLCEval(
   LET f[k \in 0..255] == IF k = 0 THEN 0 ELSE (f[k \div 2] + k) % 2 IN f)
Par(j) == IF j < 256 THEN ParTable[j] ELSE (ParTable[j % 256] + ParTable[j \div 256]) % 2

ScalarVal(s) ==
   IF s.zero THEN 0
   ELSE Mul(Mul(S2Pow(s.p2), Ph(s.ph)),
        Mul(Ring(s.ff), ProdSeq([i \in 1..Len(s.nodes) |-> (1 + Ph(s.nodes[i])) % P])))

(* -- factors ------------------------------------------------------------ *)
\* kind "H": (-1)^{xy}; kind "D": delta; "B": H-box with label; "W": one-hot

\* side 1 or 2 of edge e of g as seen from a box: <<variable, extra factors>>
EdgeHad(g, e) ==
   LET ed == g.ed[e]
       h0 == IF ed[3] = 2 THEN 1 ELSE 0
       a  == IF IsXType(g.ty[ed[1]]) THEN 1 ELSE 0
       b  == IF IsXType(g.ty[ed[2]]) THEN 1 ELSE 0
   IN  (h0 + a + b) % 2 = 1

LegVar(g, e, side) ==
   LET ed == g.ed[e]
       me == ed[side]
       oth == ed[3 - side]
   IN IF IsSpider(g.ty[oth]) /\ ~EdgeHad(g, e) THEN oth
      ELSE IF IsSpider(g.ty[oth]) THEN g.n + 2*e - 1
      ELSE IF ~EdgeHad(g, e) THEN g.n + 2*e - 1
      ELSE g.n + 2*e - 2 + side

\* binary factors contributed by edge e
EdgeFactors(g, e) ==
   LET ed == g.ed[e]
       u == ed[1]
       v == ed[2]
       su == IsSpider(g.ty[u])
       sv == IsSpider(g.ty[v])
       had == EdgeHad(g, e)
   IN IF su /\ sv THEN << <<IF had THEN "H" ELSE "D", u, v>> >>
      ELSE IF su /\ ~sv THEN (IF had THEN << <<"H", u, g.n + 2*e - 1>> >> ELSE <<>>)
      ELSE IF sv /\ ~su THEN (IF had THEN << <<"H", v, g.n + 2*e - 1>> >> ELSE <<>>)
      ELSE IF had THEN << <<"H", g.n + 2*e - 1, g.n + 2*e>> >> ELSE <<>>

\* all legs of box vertex v, as a sequence of variables
BoxLegs(g, v) ==
   LET one(e) == (IF g.ed[e][1] = v THEN <<LegVar(g, e, 1)>> ELSE <<>>) \o
                 (IF g.ed[e][2] = v THEN <<LegVar(g, e, 2)>> ELSE <<>>)
   IN FlattenSeq([e \in 1..Len(g.ed) |-> one(e)])

SpiderVars(g) == {v \in 1..g.n : IsSpider(g.ty[v])}

BinFactors(g) == FlattenSeq([e \in 1..Len(g.ed) |-> EdgeFactors(g, e)])

BoxFactors(g) ==
   LET bs == SelectSeq([v \in 1..g.n |-> v], LAMBDA v : IsBox(g.ty[v]))
   IN [i \in 1..Len(bs) |->
         <<IF g.ty[bs[i]] = 3 THEN "B" ELSE "W",
           IF g.ty[bs[i]] = 3 THEN Ph(g.ph[bs[i]]) ELSE 1, BoxLegs(g, bs[i])>>]

AllVars(g, bins, boxes) ==
   SpiderVars(g) \cup {bins[i][2] : i \in 1..Len(bins)} \cup {bins[i][3] : i \in 1..Len(bins)}
      \cup UNION {Range(boxes[i][3]) : i \in 1..Len(boxes)}

\* the (1, c) vector multiplied on variable v: c
Unary(g, r, v) ==
   IF v > g.n THEN 1
   ELSE IF g.ty[v] \in {1, 2} THEN Ph(g.ph[v])
   ELSE IF g.ty[v] = 6 THEN Ring(g.lb[v])
   ELSE LET i == CHOOSE i \in 1..(Len(g.inp) + Len(g.out)) : (g.inp \o g.out)[i] = v
        IN r[i]

MaxI(a, b) == IF a >= b THEN a ELSE b

RECURSIVE WCount(_, _, _)       \* number of legs carrying a one
WCount(i, ms, k) == IF k = 0 THEN 0
                    ELSE (IF (i & ms[k]) # 0 THEN 1 ELSE 0) + WCount(i, ms, k - 1)

BoxVal(f, ms, i) ==
   IF f[1] = "B" THEN (IF \A k \in 1..Len(ms) : (i & ms[k]) # 0 THEN f[2] ELSE 1)
   ELSE (IF WCount(i, ms, Len(ms)) = 1 THEN 1 ELSE 0)

\* remove bit position j (weight w = 2^j) by summation
SumOut(T, k, w) ==
   TLCEval([i \in 0..(Pow2[k-1] - 1) |->
       LET lo == i % w
           hi == (i \div w) * (2 * w)
       IN (T[hi + lo] + T[hi + w + lo]) % P])

IndexOf1(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
HasVar(s, x) == \E i \in 1..Len(s) : s[i] = x

\* sum of the diagram's factor graph at point r, in the order ord
Contract(g, r, bins, boxes, ord) ==
   LET m    == Len(ord)
       maxv == g.n + 2 * Len(g.ed)
       pos  == TLCEval(FoldLeft(LAMBDA f, i : [f EXCEPT ![ord[i]] = i],
                        [v \in 1..maxv |-> 0], [i \in 1..m |-> i]))
       \* step at which each factor can be multiplied in
       bst  == TLCEval([i \in 1..Len(bins) |-> MaxI(pos[bins[i][2]], pos[bins[i][3]])])
       xst  == TLCEval([i \in 1..Len(boxes) |->
                  FoldLeft(LAMBDA a, v : MaxI(a, pos[v]), 0, boxes[i][3])])   \* 0: no legs
       \* step after which each variable is no longer needed
       l1   == TLCEval(FoldLeft(LAMBDA f, i :
                   [f EXCEPT ![bins[i][2]] = MaxI(@, bst[i]), ![bins[i][3]] = MaxI(@, bst[i])],
                   pos, [i \in 1..Len(bins) |-> i]))
       last == TLCEval(FoldLeft(LAMBDA f, i :
                   FoldLeft(LAMBDA f2, v : [f2 EXCEPT ![v] = MaxI(@, xst[i])], f, boxes[i][3]),
                   l1, [i \in 1..Len(boxes) |-> i]))
       Step(st, s) ==
          LET x    == ord[s]
              k    == Len(st.live)
              live == Append(st.live, x)
              mask(v) == Pow2[IndexOf1(live, v) - 1]
              mine == SelectSeq([i \in 1..Len(bins) |-> i], LAMBDA i : bst[i] = s)
              other(i) == IF bins[i][2] = x THEN bins[i][3] ELSE bins[i][2]
              hs   == SelectSeq(mine, LAMBDA i : bins[i][1] = "H")
              ds   == SelectSeq(mine, LAMBDA i : bins[i][1] = "D" /\ other(i) # x)
              self == Len(SelectSeq(hs, LAMBDA i : other(i) = x))
              hm   == TLCEval(FoldLeft(LAMBDA a, i : IF other(i) = x THEN a ELSE a ^^ mask(other(i)), 0, hs))
              dm   == TLCEval(FoldLeft(LAMBDA a, i : a | mask(other(i)), 0, ds))
              u0   == Unary(g, r, x)
              u    == TLCEval(IF self % 2 = 1 THEN Neg(u0) ELSE u0)
              nu   == TLCEval(Neg(u))
              bx   == TLCEval(SelectSeq([i \in 1..Len(boxes) |-> i], LAMBDA i : xst[i] = s))
              bms  == TLCEval([q \in 1..Len(bx) |->
                         [l \in 1..Len(boxes[bx[q]][3]) |-> mask(boxes[bx[q]][3][l])]])
              full == Pow2[k]
              base(i) ==
                 IF i < full THEN (IF (i & dm) # 0 THEN 0 ELSE st.T[i])
                 ELSE LET j == i - full IN
                      IF (j & dm) # dm THEN 0
                      ELSE IF Par(j & hm) = 1 THEN (st.T[j] * nu) % P
                      ELSE (st.T[j] * u) % P
              val(i) == IF Len(bx) = 0 THEN base(i)
                        ELSE FoldLeft(LAMBDA a, q : (a * BoxVal(boxes[bx[q]], bms[q], i)) % P,
                                      base(i), [q \in 1..Len(bx) |-> q])
              T1   == TLCEval([i \in 0..(2 * full - 1) |-> val(i)])
              Drop(s2) ==  \* sum out the finished variables, last first
                 FoldLeft(LAMBDA a, q :
                     LET jj == Len(live) + 1 - q IN
                     IF last[live[jj]] = s
                     THEN [T |-> SumOut(a.T, Len(a.live), Pow2[jj-1]),
                           live |-> RemoveAt(a.live, jj)]
                     ELSE a,
                     s2, [q \in 1..Len(live) |-> q])
          IN TLCEval(Drop([T |-> T1, live |-> live]))
       fin == FoldLeft(LAMBDA st, s : Step(st, s),
                       [T |-> [i \in 0..0 |-> 1], live |-> <<>>],
                       [s \in 1..m |-> s])
       \* boxes without legs
       leg0 == ProdSeq([i \in 1..Len(boxes) |->
                   IF Len(boxes[i][3]) # 0 THEN 1 ELSE IF boxes[i][1] = "B" THEN boxes[i][2] ELSE 0])
   IN IF m = 0 THEN leg0 ELSE Mul(fin.T[0], leg0)

\* "ok" or the reason why the record is not a diagram
WellFormed(g) ==
   LET m == Len(g.inp) + Len(g.out)
       io == g.inp \o g.out IN
   IF ~(\A i \in 1..Len(g.ed) : g.ed[i][1] \in 1..g.n /\ g.ed[i][2] \in 1..g.n
                                 /\ g.ed[i][3] \in {1,2,3}) THEN "edge endpoint or type invalid"
   ELSE IF ~(\A i \in 1..m : io[i] \in 1..g.n) THEN "input or output is not a vertex"
   ELSE IF Cardinality(Range(io)) # m THEN "inputs and outputs overlap"
   ELSE IF {v \in 1..g.n : g.ty[v] = 0} # Range(io) THEN "boundary vertices differ from inputs and outputs"
   ELSE IF ~(\A i \in 1..m :
          Cardinality({e \in 1..Len(g.ed) : g.ed[e][1] = io[i]})
          + Cardinality({e \in 1..Len(g.ed) : g.ed[e][2] = io[i]}) = 1)
        THEN "boundary vertex without exactly one leg"
   ELSE "ok"

NHad(bins) == Len(SelectSeq(bins, LAMBDA b : b[1] = "H"))

Value(g, r) ==
   LET bins  == TLCEval(BinFactors(g))
       boxes == TLCEval(BoxFactors(g))
       vs    == AllVars(g, bins, boxes)
       ord   == IF Range(g.ord) = vs /\ Len(g.ord) = Cardinality(vs) THEN g.ord
                ELSE SetToSeq(vs)
   IN Mul(Mul(ScalarVal(g.sc), Contract(g, r, bins, boxes, ord)), S2Pow(0 - NHad(bins)))

(* X spiders: a Z spider with a Hadamard on each leg; a leg that leads to a  *)
(* Hadamard has been accounted for in EdgeHad, so nothing further is needed. *)

\* The points at which meanings are compared; seed-dependent, passed in.
Meaning(g, pts) == TLCEval([k \in 1..Len(pts) |-> Value(g, pts[k])])

\* equality, and equality up to a nonzero scalar, of sampled meanings
SameMeaning(a, b) == a = b
IsZeroM(a) == \A k \in 1..Len(a) : a[k] = 0
Proportional(a, b) ==
   /\ IsZeroM(a) = IsZeroM(b)
   /\ \A j, k \in 1..Len(a) : Mul(a[j], b[k]) = Mul(a[k], b[j])
=============================================================================
