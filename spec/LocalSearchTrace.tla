-------------------------- MODULE LocalSearchTrace --------------------------
(***************************************************************************)
(* Scores and selection in the local search: what is reported is the best  *)
(* that was seen, and the population stays a population.                   *)
(***************************************************************************)
EXTENDS CircStats, FiniteSetsExt, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"

\* two-qubit gates weigh w
Wgc(circ, w) == w * TwoQubit(circ) + (Len(circ.gates) - TwoQubit(circ))
Score(e) == IF e.score # Wgc(e.c, e.w) THEN "not the weighted gate count" ELSE "ok"

MinUpTo(s, i) == Min({s[j] : j \in 1..i})
Falls(s) == \A i \in 1..(Len(s) - 1) : s[i + 1] <= s[i]
\* annealing: the best score before each round, and the score of what is returned
Anneal(e) == IF Len(e.best) # e.iters THEN "number of rounds"
             ELSE IF ~ Falls(e.best) THEN "the best score gets worse"
             ELSE IF Len(e.best) > 0 /\ e.best[1] # e.first THEN "the first score is not that of the input"
             ELSE IF Len(e.best) > 0 /\ e.final > e.best[Len(e.best)] THEN "the result is worse than the best that was seen"
             ELSE IF e.final > e.first THEN "the result is worse than the input" ELSE "ok"
\* evolution: the best so far, and the best of each generation
Evolve(e) == IF Len(e.best) # e.gens + 1 \/ Len(e.gen) # e.gens + 1 THEN "number of generations"
             ELSE IF e.best[1] # e.first \/ e.gen[1] # e.first THEN "the first score is not that of the input"
             ELSE IF \E i \in 1..Len(e.best) : e.best[i] # MinUpTo(e.gen, i) THEN "the best score is not the best that was seen"
             ELSE IF e.final # e.best[Len(e.best)] THEN "the result does not have the best score" ELSE "ok"
\* selection: old and new scores; from[i] = position in the old population of what new member i is a copy of
Select(e) ==
   LET n == Len(e.old) IN
   IF Len(e.new) # n THEN "size of the population"
   ELSE IF ~ e.distinct THEN "two members of the population are one object"
   ELSE IF \E i \in 1..n : e.new[i] \notin Range(e.old) THEN "a member that was not there"
   ELSE IF e.method = "tournament" /\ n > 1 /\ Cardinality({i \in 1..n : e.old[i] = Max(Range(e.old))}) = 1 /\ Max(Range(e.old)) \in Range(e.new) THEN "the unique worst member survives a tournament"
   ELSE IF e.method = "top_half" /\ n > 1 /\ (LET s == SortSeq(e.old, <) IN \E i \in 1..n : e.new[i] > s[(n + 1) \div 2]) THEN "a member of the bad half survives"
   ELSE "ok"
Judge(e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "score" -> Score(e)
     [] e.a = "anneal" -> Anneal(e)
     [] e.a = "evolve" -> Evolve(e)
     [] e.a = "select" -> Select(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
