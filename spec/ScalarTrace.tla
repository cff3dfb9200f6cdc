---------------------------- MODULE ScalarTrace ----------------------------
(***************************************************************************)
(* Validation of recorded histories of operations on scalars: after every  *)
(* operation the stored fields of every scalar alive, its numeric value    *)
(* and its printed forms must denote the abstract value.                   *)
(***************************************************************************)
EXTENDS ScalarADT, Json, IOUtils

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, st, verdict
vars == <<c, pos, st, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ st = <<>> /\ verdict = "ok"

\* a factor the implementation stores as a floating point number
PairVal(p) == Sub(Add(Add(1, Ph(p[1])), Ph(p[2])), Ph(p[1] + p[2]))
Judge1(v, o) ==
   IF o.bad # "" THEN o.bad
   ELSE IF ScUnknown(v) THEN (IF o.unk THEN "ok" ELSE "an unknown factor was forgotten")
   ELSE IF o.unk THEN (IF o.mayunk THEN "ok" ELSE "scalar became unknown")
   ELSE LET x == ScVal(v) IN
        IF Mul(ScalarVal(o.sc), ProdSeq([i \in 1..Len(o.gp) |-> PairVal(o.gp[i])])) # x THEN "stored scalar has another value"
        ELSE IF o.zero # (x = 0) /\ o.zero THEN "marked zero but is not"
        ELSE IF Len(o.num) > 0 /\ Ring(o.num) # x THEN "to_number has another value"
        ELSE IF \E i \in 1..Len(o.txt) : ScalarVal(o.txt[i]) # x THEN "printed form denotes another value"
        ELSE "ok"
JudgeAll(s, obs) ==
   IF Len(obs) # Len(s) THEN "number of scalars"
   ELSE LET bd == {i \in 1..Len(s) : Judge1(s[i], obs[i]) # "ok"} IN
        IF bd = {} THEN "ok" ELSE Judge1(s[SetToSeq(bd)[1]], obs[SetToSeq(bd)[1]])

Step == /\ pos <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[pos]
               s == TLCEval(ScStep(st, e)) IN
           /\ verdict' = IF e.exc # "" THEN e.exc ELSE JudgeAll(s, e.obs)
           /\ st' = IF e.exc # "" THEN st ELSE s
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = IF verdict' = "ok" THEN pos + 1 ELSE Len(Cases[c].ev) + 1
        /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
