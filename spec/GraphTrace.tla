----------------------------- MODULE GraphTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories of graph operations.  The state is the *)
(* sequence of all graphs alive (originals and copies); each event names   *)
(* an operation, its arguments, what it returned and the answers of every  *)
(* query on every graph afterwards.  Where the specification leaves the    *)
(* representation open (insertion of an edge parallel to others) the next  *)
(* state is read off the observation and then judged: everything else is   *)
(* as it was, the parallel edges are gone, the linear map is the one with  *)
(* all the edges present.                                                  *)
(***************************************************************************)
EXTENDS GraphADT, Json, IOUtils

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases

VARIABLES c, pos, st, verdict
vars == <<c, pos, st, verdict>>

Init == c \in 1..Len(Cases) /\ pos = 1 /\ st = <<Empty(Cases[c].be)>> /\ verdict = "ok"

\* rebuild what the specification leaves open from the observation
VxOf(o, v) == o.vx[CHOOSE i \in 1..Len(o.vs) : o.vs[i] = v]
ObsCnt(o, p) == <<CountE(o.ed, p, 1), CountE(o.ed, p, 2), CountE(o.ed, p, 3)>>
Guess(g, o, s, t) ==
   LET h == SetCnt(g, Pair(s, t), ObsCnt(o, Pair(s, t)))
       put(x, v) == [x EXCEPT !.ph[v] = VxOf(o, v).ph, !.lb[v] = IF g.ty[v] = 6 THEN VxOf(o, v).lb ELSE @]
   IN [put(put(h, s), t) EXCEPT !.sc = o.sc]

\* bijections that may name the vertices of a copy: as listed, as sorted, any
Ord(s) == SortSeq(s, LAMBDA a, b : a < b)
IdxFn(s) == [v \in Range1(s) |-> (CHOOSE i \in 1..Len(s) : s[i] = v) - 1]
CopyOf(g, lst, o) ==
   LET a == Rename(g, g.vs, IdxFn(lst))
       b == Rename(g, g.vs, IdxFn(Ord(lst)))
   IN IF Diff(a, o) = "ok" THEN a ELSE IF Diff(b, o) = "ok" THEN b
      ELSE IF \E p \in Permutations(0..(Len(lst) - 1)) : Diff(Rename(g, g.vs, [v \in g.vs |-> p[IdxFn(lst)[v]]]), o) = "ok"
           THEN LET p == CHOOSE p \in Permutations(0..(Len(lst) - 1)) : Diff(Rename(g, g.vs, [v \in g.vs |-> p[IdxFn(lst)[v]]]), o) = "ok"
                IN Rename(g, g.vs, [v \in g.vs |-> p[IdxFn(lst)[v]]])
      ELSE a

\* [why, st]: the verdict on the step itself and the graphs after it
Step(s, e) ==
   LET g == s[e.g]
       obs == e.obs[e.g]
       ok(x) == [why |-> "ok", st |-> [s EXCEPT ![e.g] = x]]
       new(x) == [why |-> "ok", st |-> Append(s, x)]
       no(w) == [why |-> w, st |-> s]
       ins(u, v, k) == \* insertion of k edges between u and v
          IF Refused(g, u, v, k) THEN (IF e.exc THEN ok(g) ELSE no("parallel edge accepted where it cannot be represented"))
          ELSE IF e.exc THEN no("operation raised an exception")
          ELSE IF Smart(g, u, v, k) THEN
            (LET h == Guess(g, obs, u, v) IN
             IF ~Reduced(h, u, v) THEN no("parallel edges or loops are left")
             ELSE IF ~LocalSame(g, h, u, v, Plus(Cnt(g, Pair(u, v)), k), Cnt(h, Pair(u, v))) THEN no("reduction of parallel edges changed the linear map")
             ELSE ok(h))
          ELSE ok(AddE(g, u, v, k))
   IN IF e.a = "add_edge" THEN ins(e.s, e.t, One(e.et))
      ELSE IF e.a = "add_edge_table" THEN ins(e.s, e.t, <<e.ns, e.nh, 0>>)
      ELSE IF e.exc THEN no("operation raised an exception")
      ELSE CASE
         e.a = "add_vertex" -> IF e.ret # g.nx THEN no("index of the new vertex") ELSE ok(AddV(g, e.ty, e.ph, e.q, e.r, e.gr))
      [] e.a = "add_vertices" -> IF e.ret # [i \in 1..e.n |-> g.nx + i - 1] THEN no("indices of the new vertices") ELSE ok(AddVs(g, e.n))
      [] e.a = "add_vertex_indexed" -> ok(NewV(g, e.v, 0, 0, -1, -1, FALSE))
      [] e.a = "remove_vertices" -> ok(LET h == RemV(g, Range1(e.vs)) IN IF h.vs = {} THEN [h EXCEPT !.nx = obs.nx] ELSE h)
      [] e.a = "add_edges" -> ok(FoldLeft(LAMBDA x, p : AddE(x, p[1], p[2], One(e.et)), g, e.ps))
      [] e.a = "remove_edge" -> ok(RemE(g, e.s, e.t, e.et))
      [] e.a = "remove_edges" -> ok(FoldLeft(LAMBDA x, p : RemE(x, p[1], p[2], p[3]), g, e.ps))
      [] e.a = "set_edge_type" -> ok(AddE(RemE(g, e.s, e.t, e.et), e.s, e.t, One(e.to)))
      [] e.a = "set_type" -> ok([g EXCEPT !.ty[e.v] = e.ty])
      [] e.a = "set_phase" -> ok([g EXCEPT !.ph[e.v] = e.ph % 8])
      [] e.a = "add_to_phase" -> ok([g EXCEPT !.ph[e.v] = (@ + e.ph) % 8])
      [] e.a = "set_qubit" -> ok([g EXCEPT !.qu[e.v] = e.q])
      [] e.a = "set_row" -> ok([g EXCEPT !.ro[e.v] = e.r])
      [] e.a = "set_position" -> ok([g EXCEPT !.qu[e.v] = e.q, !.ro[e.v] = e.r])
      [] e.a = "set_inputs" -> ok([g EXCEPT !.inp = e.vs])
      [] e.a = "set_outputs" -> ok([g EXCEPT !.out = e.vs])
      [] e.a = "set_ground" -> ok([g EXCEPT !.gr = IF e.on THEN @ \cup {e.v} ELSE @ \ {e.v}])
      [] e.a = "set_vdata" -> ok([g EXCEPT !.vd[e.v] = Put(@, e.k, e.x)])
      [] e.a = "set_label" -> ok([g EXCEPT !.lb[e.v] = e.x])
      [] e.a = "set_auto_simplify" -> ok([g EXCEPT !.be = IF e.on THEN "ma" ELSE "m"])
      [] e.a = "pack_circuit_rows" -> ok(Packed(g))
      [] e.a = "scalar" -> ok(AddP2([g EXCEPT !.sc.ph = (@ + e.ph * U) % N], e.p2))
      [] e.a = "clone" -> new(g)
      [] e.a = "copy" -> new(CopyOf(g, obs.vs, e.obs[Len(s) + 1]))
      [] e.a = "subgraph_from_vertices" -> new(SubG(g, Range1(e.vs), IdxFn(e.vs)))
      [] e.a = "merge" -> (LET o == s[e.o]
                               lst == e.obs[e.o].vs IN
                           IF Range1(e.ret) \cap g.vs # {} \/ Len(e.ret) # Cardinality(o.vs) THEN no("returned vertices")
                           ELSE IF \E x \in Range1(e.rete) : x \notin DOMAIN Join(g, o, [v \in o.vs |-> e.ret[IdxFn(lst)[v] + 1]]).ed \/ Len(e.rete) # NumE(o)
                                THEN no("returned edges")
                           ELSE ok(Join(g, o, [v \in o.vs |-> e.ret[IdxFn(lst)[v] + 1]])))

Judge(s, e) ==
   LET n == Step(s, e) IN
   IF n.why # "ok" THEN [why |-> n.why, st |-> s]
   ELSE IF Len(e.obs) # Len(n.st) THEN [why |-> "no graph was made", st |-> s]
   ELSE LET bad == {i \in 1..Len(n.st) : Diff(n.st[i], e.obs[i]) # "ok"}
            i == CHOOSE i \in bad : TRUE
        IN IF bad = {} THEN n
           ELSE [why |-> "query answers differently: " \o Diff(n.st[i], e.obs[i]) \o
                         (IF i = e.g THEN "" ELSE IF i > Len(s) THEN " (of the new graph)" ELSE " (of another graph)"), st |-> s]

Next ==
   /\ verdict = "ok"
   /\ pos <= Len(Cases[c].ev)
   /\ LET j == TLCEval(Judge(st, Cases[c].ev[pos])) IN
        /\ st' = j.st /\ verdict' = j.why
        /\ (j.why # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> j.why])))
   /\ pos' = pos + 1
   /\ UNCHANGED c
View == <<c, pos>>
Spec == Init /\ [][Next]_vars
=============================================================================
