----------------------------- MODULE DiffTrace -----------------------------
(***************************************************************************)
(* Recorded uses of graph diffs.  A case holds the dumps of the two        *)
(* diagrams; each event is a diagram obtained through the code: by         *)
(* applying the diff (directly, or written out and read back), by undoing  *)
(* it, or an argument that has to be as it was.                            *)
(***************************************************************************)
EXTENDS Diff, Sequences, Integers, Json, IOUtils, TLC
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"
R(s) == {s[i] : i \in 1..Len(s)}
\* a dump: vs = sequence of [v, ty, ph, q, r, vd], ed = sequence of [s, t, ty, n]
Abs(d) == [at |-> [v \in {x.v : x \in R(d.vs)} |-> LET x == CHOOSE x \in R(d.vs) : x.v = v IN [ty |-> x.ty, ph |-> x.ph, q |-> x.q, r |-> x.r, vd |-> x.vd]],
           ed |-> [e \in {<<x[1], x[2], x[3]>> : x \in R(d.ed)} |-> (CHOOSE x \in R(d.ed) : <<x[1], x[2], x[3]>> = e)[4]]]
Keep(s, vs) == SelectSeq(s, LAMBDA v : v \in vs)
What(x, y) == \* the first difference
   IF DOMAIN x.at # DOMAIN y.at THEN "vertices"
   ELSE IF \E v \in DOMAIN x.at : x.at[v].ty # y.at[v].ty THEN "vertex types"
   ELSE IF \E v \in DOMAIN x.at : x.at[v].ph # y.at[v].ph THEN "phases"
   ELSE IF \E v \in DOMAIN x.at : x.at[v].q # y.at[v].q \/ x.at[v].r # y.at[v].r THEN "positions"
   ELSE IF \E v \in DOMAIN x.at : x.at[v].vd # y.at[v].vd THEN "vertex data"
   ELSE IF x.ed # y.ed THEN "edges" ELSE "ok"
Judge(cs, e) ==
   IF e.exc # "" THEN e.exc
   ELSE LET a == Abs(cs.a)  b == Abs(cs.b)  o == Abs(e.o)
            want == IF e.to = "b" THEN ApplyDiff(DiffOf(a, b), a) ELSE IF e.to = "a" THEN ApplyDiff(DiffOf(b, a), b) ELSE ApplyDiff(DiffOf(a, a), a)
            w == What(o, want)
            src == IF e.to = "a" THEN cs.b ELSE cs.a IN
        IF w # "ok" THEN w
        ELSE IF e.o.inp # Keep(src.inp, DOMAIN want.at) THEN "inputs"
        ELSE IF e.o.out # Keep(src.out, DOMAIN want.at) THEN "outputs" ELSE "ok"
\* arguments: dumps before and after are the same
Same(cs, e) == IF e.exc # "" THEN e.exc ELSE IF e.o # (IF e.to = "arg a" THEN cs.a ELSE cs.b) THEN "an argument was changed" ELSE "ok"
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = (LET e == Cases[c].ev[pos] IN IF e.to \in {"arg a", "arg b"} THEN Same(Cases[c], e) ELSE Judge(Cases[c], e))
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
