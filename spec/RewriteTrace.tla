---------------------------- MODULE RewriteTrace ----------------------------
(***************************************************************************)
(* Validation of recorded rewrite histories.                               *)
(*                                                                         *)
(* A history starts with an object and continues with events; each event   *)
(* names the operation the implementation performed, the object it         *)
(* produced, and the relation in which the specification requires the new  *)
(* object to stand to the reference object.  The reference is the object   *)
(* at which the history started, so drift cannot accumulate: every event   *)
(* of a history is judged against the same meaning.                        *)
(*                                                                         *)
(* The state is the index of the history, the position in it, the          *)
(* reference meaning and the verdict of the last event.  The verdict is    *)
(* total: a history is never just "stuck", the failing clause is named.    *)
(***************************************************************************)
EXTENDS Meaning, Json, IOUtils

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Hist == Data.traces
Pts(h) == Data.points[Hist[h].pts]     \* sample points for this arity

VARIABLES h, pos, ref, verdict
vars == <<h, pos, ref, verdict>>

Init == /\ h \in 1..Len(Hist)
        /\ pos = 0
        /\ ref = <<>>
        /\ verdict = "ok"

\* the first object fixes the meaning
Begin ==
   /\ pos = 0
   /\ LET o == Hist[h].start
          w == Well(o)
      IN /\ verdict' = w
         /\ ref' = IF w = "ok" THEN ObjMeaning(o, Pts(h)) ELSE <<>>
   /\ pos' = 1
   /\ UNCHANGED h

Judge(e) ==
   LET w == Well(e.o) IN
   IF ref = <<>> THEN "start of history: " \o Well(Hist[h].start)
   ELSE IF w # "ok" THEN w
   ELSE IF Arity(e.o) # Arity(Hist[h].start) THEN "number of inputs or outputs changed"
   ELSE IF e.rel = "same" THEN
      (IF SameDiagram(e.o.g, Hist[h].start.g) THEN "ok" ELSE "diagram was changed although nothing was to be done")
   ELSE IF e.rel = "iso" THEN SameUpTo(Hist[h].start.g, e.o.g, e.o.perm, Hist[h].start.x, e.o.x)
   ELSE IF e.rel = "shape" THEN SameShape(Hist[h].start.g, e.o.g, Hist[h].start.x, e.o.x)
   ELSE IF e.rel = "tcount" THEN      \* promises of the circuit optimizers
      (IF NonCliffordCount(e.o.c) <= NonCliffordCount(Hist[h].start.c) THEN "ok" ELSE "more non-Clifford phase gates than before")
   ELSE IF e.rel = "conn" THEN
      (IF ConnectivityKept(Hist[h].start.c, e.o.c) THEN "ok" ELSE "gate on a pair of qubits that the circuit did not use")
   ELSE IF e.rel = "perm" THEN
      \* equal up to a scalar after some permutation of the inputs
      (LET n == Arity(e.o)[1]
           moved(p) == [k \in 1..Len(Pts(h)) |-> [i \in 1..Len(Pts(h)[k]) |->
                           IF i <= n THEN Pts(h)[k][p[i]] ELSE Pts(h)[k][i]]]
       IN IF \E p \in Permutations(1..n) : Proportional(ref, ObjMeaning(e.o, TLCEval(moved(p)))) THEN "ok"
          ELSE "linear map changed (not even up to a permutation of the inputs)")
   ELSE IF e.rel = "neqperm" THEN
      (LET n == Arity(e.o)[1]
           moved(p) == [k \in 1..Len(Pts(h)) |-> [i \in 1..Len(Pts(h)[k]) |->
                           IF i <= n THEN Pts(h)[k][p[i]] ELSE Pts(h)[k][i]]]
       IN IF \E p \in Permutations(1..n) : Proportional(ref, ObjMeaning(e.o, TLCEval(moved(p)))) THEN "equal up to a permutation of the qubits but reported different"
          ELSE "ok")
   ELSE Related(e.rel, ref, ObjMeaning(e.o, Pts(h)))

Event ==
   /\ pos >= 1
   /\ pos <= Len(Hist[h].ev)
   /\ verdict' = Judge(Hist[h].ev[pos])
   /\ (verdict' # "ok" => PrintT(ToJson([fail |-> h, at |-> pos, why |-> verdict'])))
   /\ pos' = pos + 1
   /\ UNCHANGED <<h, ref>>

Next == Begin \/ Event

Spec == Init /\ [][Next]_vars
View == <<h, pos>>

\* every event of every history was judged
Total == FoldLeft(LAMBDA a, i : a + 2 + Len(Hist[i].ev), 0, [i \in 1..Len(Hist) |-> i])
Accepted == TLCGet("stats").distinct = Total
=============================================================================
