------------------------------ MODULE GraphGen ------------------------------
(***************************************************************************)
(* The graph machine as a closed system: every history of operations up to *)
(* a bound on a few vertices, on each backend.  TLC checks the design      *)
(* (representation invariant, and that the reductions of parallel edges of *)
(* the simple graph and of the multigraph keep the linear map) and emits   *)
(* the histories, which are then performed by the real code and validated  *)
(* by module GraphTrace.                                                   *)
(***************************************************************************)
EXTENDS GraphADT, Json

CONSTANTS Depth, MaxV, Backends, Emit

VARIABLES g, hist, sound
vars == <<g, hist, sound>>

Start(be, a, b) == AddV(AddV(Empty(be), a, 8, 0, 0, FALSE), b, 8, 1, 0, FALSE)
AV(ty, q) == [a |-> "add_vertex", g |-> 1, ty |-> ty, ph |-> 8, q |-> q, r |-> 0, gr |-> FALSE]
Init == \E be \in Backends, a, b \in {1, 2, 3, 6} :
          /\ g = Start(be, a, b) /\ hist = <<[a |-> "new", be |-> be], AV(a, 0), AV(b, 1)>> /\ sound = TRUE

Do(h, e) == g' = h /\ hist' = Append(hist, e) /\ sound' = TRUE
AddEdge == \E s, t \in g.vs, et \in {1, 2} :
   /\ s = t => Reduces(g, s, t)
   /\ ~Refused(g, s, t, One(et))
   /\ LET h == Insert(g, s, t, One(et)) IN
        /\ g' = h
        /\ sound' = (Smart(g, s, t, One(et)) => /\ Reduced(h, s, t)
                        /\ LocalSame(g, h, s, t, Plus(Cnt(g, Pair(s, t)), One(et)), Cnt(h, Pair(s, t))))
   /\ hist' = Append(hist, [a |-> "add_edge", g |-> 1, s |-> s, t |-> t, et |-> et])
AddTable == \E s, t \in g.vs, ns, nh \in 0..2 :
   /\ ns + nh > 1 /\ Reduces(g, s, t) /\ s # t
   /\ LET h == Insert(g, s, t, <<ns, nh, 0>>) IN
        /\ g' = h
        /\ sound' = (/\ Reduced(h, s, t)
                     /\ LocalSame(g, h, s, t, Plus(Cnt(g, Pair(s, t)), <<ns, nh, 0>>), Cnt(h, Pair(s, t))))
   /\ hist' = Append(hist, [a |-> "add_edge_table", g |-> 1, s |-> s, t |-> t, ns |-> ns, nh |-> nh])
Types(p) == {k \in 1..3 : g.ed[p][k] > 0}
RemoveEdge == \E p \in DOMAIN g.ed : \E k \in Types(p) :
   Do(RemE(g, p[1], p[2], k), [a |-> "remove_edge", g |-> 1, s |-> p[1], t |-> p[2], et |-> k])
SetEdge == \E p \in DOMAIN g.ed : \E k \in Types(p) :
   Do(AddE(RemE(g, p[1], p[2], k), p[1], p[2], One(3 - k)), [a |-> "set_edge_type", g |-> 1, s |-> p[1], t |-> p[2], et |-> k, to |-> 3 - k])
SetType == \E v \in g.vs, ty \in {1, 2, 6} : ty # g.ty[v] /\ Do([g EXCEPT !.ty[v] = ty], [a |-> "set_type", g |-> 1, v |-> v, ty |-> ty])
AddVertex == Cardinality(g.vs) < MaxV /\ \E ty \in {1, 2} : Do(AddV(g, ty, 8, 2, 1, FALSE), [AV(ty, 2) EXCEPT !.r = 1])
RemVertex == Cardinality(g.vs) > 1 /\ \E v \in g.vs : Do(RemV(g, {v}), [a |-> "remove_vertices", g |-> 1, vs |-> <<v>>])
Copying == \E op \in {"clone", "copy"} :
              /\ op = "copy" => \A p \in DOMAIN g.ed : g.be = "m" \/ Sum3(g.ed[p]) = 1
              /\ Do(g, [a |-> op, g |-> 1])
Next == Len(hist) < Depth + 3 /\ (AddEdge \/ AddTable \/ RemoveEdge \/ SetEdge \/ SetType \/ AddVertex \/ RemVertex \/ Copying)
Spec == Init /\ [][Next]_vars

\* the representation invariant of the design
Rep == /\ DOMAIN g.ty = g.vs /\ DOMAIN g.ph = g.vs /\ DOMAIN g.vd = g.vs
       /\ g.vs # {} => g.nx = Next1(g.vs)
       /\ \A p \in DOMAIN g.ed : p[1] \in g.vs /\ p[2] \in g.vs /\ p[1] <= p[2] /\ Sum3(g.ed[p]) > 0
       /\ g.be = "s" => \A p \in DOMAIN g.ed : Sum3(g.ed[p]) = 1 /\ p[1] # p[2]
Sound == sound
Emitted == Emit /\ Len(hist) = Depth + 3 => PrintT(ToJson(hist))
=============================================================================
