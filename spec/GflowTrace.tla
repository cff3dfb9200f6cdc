----------------------------- MODULE GflowTrace -----------------------------
(***************************************************************************)
(* Judges recorded answers of the gflow finder (module Gflow).             *)
(***************************************************************************)
EXTENDS Gflow, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"
\* the open graph of a diagram: boundary vertices of inputs are no part of it, those of outputs are its outputs
OpenGraph(x) ==
   LET E == {{x.ed[k][1], x.ed[k][2]} : k \in 1..Len(x.ed)}
       ib == {v \in Range(x.inp) : x.ty[v] = 0}
       I == {w \in 1..x.n : \E v \in ib : {v, w} \in E} \cup (Range(x.inp) \ ib)
   IN TLCEval([V |-> (1..x.n) \ ib, E |-> {e \in E : e \cap ib = {}}, I |-> I \ ib, O |-> Range(x.out)])
Answer(e) ==
   LET g == OpenGraph(e.g)
       L == Layers(g)
       M == g.V \ g.O
   IN IF e.changed THEN "the diagram was changed"
      ELSE IF e.found # (L.done = g.V) THEN (IF e.found THEN "a flow is reported where there is none" ELSE "no flow is found where there is one")
      ELSE IF ~ e.found THEN "ok"
      ELSE LET f == [u \in M |-> {v \in g.V : \E k \in 1..Len(e.f) : e.f[k][1] = u /\ v \in Range(e.f[k][2])}]
               lev == [u \in g.V |-> IF u \in g.O THEN 0 ELSE LET k == {j \in 1..Len(e.l) : e.l[j][1] = u} IN IF k = {} THEN 0 - 1 ELSE e.l[CHOOSE j \in k : TRUE][2]]
           IN IF \E u \in M : lev[u] < 1 \/ ~ (\E k \in 1..Len(e.f) : e.f[k][1] = u) THEN "a vertex without level or correction set"
              ELSE IF \E k \in 1..Len(e.f) : ~ (Range(e.f[k][2]) \subseteq g.V) THEN "a correction set with other vertices"
              ELSE IF ~ IsGflow(g, f, lev) THEN "not a generalised flow"
              ELSE IF \E u \in M : lev[u] # L.lev[u] THEN "not maximally delayed" ELSE "ok"
Judge(e) == CASE e.exc # "" -> e.exc [] e.a = "gflow" -> Answer(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
