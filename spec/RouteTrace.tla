----------------------------- MODULE RouteTrace -----------------------------
(***************************************************************************)
(* Validation of recorded CNOT routings.  Every case has a coupling graph  *)
(* over qubits 0..n-1 (ed: pairs, both directions allowed along an edge).  *)
(***************************************************************************)
EXTENDS F2, FiniteSetsExt, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"

Along(k, gs) == LET A == {<<k.ed[i][1], k.ed[i][2]>> : i \in 1..Len(k.ed)} IN
   \A i \in 1..Len(gs) : <<gs[i][1], gs[i][2]>> \in A \/ <<gs[i][2], gs[i][1]>> \in A
Legal(n, gs) == \A i \in 1..Len(gs) : gs[i][1] # gs[i][2] /\ gs[i][1] \in 0..(n - 1) /\ gs[i][2] \in 0..(n - 1)
\* the number of layers when every CNOT is done as early as possible
Depth(n, gs) == LET fin == FoldLeft(LAMBDA d, o : LET t == 1 + (IF d[o[1] + 1] > d[o[2] + 1] THEN d[o[1] + 1] ELSE d[o[2] + 1])
                                                   IN [d EXCEPT ![o[1] + 1] = t, ![o[2] + 1] = t], ZeroRow(n), gs)
                IN IF n = 0 THEN 0 ELSE Max({fin[i] : i \in 1..n})
Cost(metric, n, gs) == IF metric = "count" THEN Len(gs) ELSE IF metric = "depth" THEN Depth(n, gs) ELSE Depth(n, gs) * 10000 + Len(gs)
IsPerm(p, n) == Len(p) = n /\ ToSet(p) = 0..(n - 1)
PickM(m, rs, cs) == Tp([i \in 1..Len(rs) |-> Tp([j \in 1..Len(cs) |-> m[rs[i] + 1][cs[j] + 1]])])
\* the subgraphs of the first and of the last qubits
RECURSIVE Closure(_, _, _)
Closure(A, S, X) == LET Y == X \cup {w \in S : \E v \in X : <<v, w>> \in A \/ <<w, v>> \in A} IN IF X = Y THEN X ELSE Closure(A, S, Y)
ConnOn(k, S) == S = {} \/ Closure({<<k.ed[i][1], k.ed[i][2]>> : i \in 1..Len(k.ed)}, S, {CHOOSE v \in S : TRUE}) = S
\* every qubit but the last has a larger neighbour, as in depth-first post-order
Rising(k) == \A q \in 0..(k.n - 2) : \E i \in 1..Len(k.ed) : (k.ed[i][1] = q /\ k.ed[i][2] > q) \/ (k.ed[i][2] = q /\ k.ed[i][1] > q)
Nested(k) == \A i \in 0..(k.n - 1) : ConnOn(k, i..(k.n - 1))
\* upwards, steps only go from larger to smaller qubits, so that each qubit has to be next to the one before
Line(k) == \A q \in 0..(k.n - 2) : \E i \in 1..Len(k.ed) : {k.ed[i][1], k.ed[i][2]} = {q, q + 1}

(* elimination of e.m0 to e.m1 (full: reduced), with the operations as seen *)
(* by a row-operation tracker and by a CNOT tracker                         *)
Elim(k, e) ==
   LET n == Len(e.m0) IN
   IF ~ Legal(n, e.xops) \/ ~ Legal(n, e.ycn) THEN "illegal operation"
   ELSE IF e.hasx /\ RowAdds(e.m0, e.xops) # e.m1 THEN "the row operations do not lead to the result"
   ELSE IF e.restrict /\ (~ Along(k, e.xops) \/ ~ Along(k, e.ycn)) THEN "a CNOT is not along an edge of the architecture"
   ELSE IF e.full /\ ~ IsReduced(e.m1) THEN "the matrix is not fully reduced"
   ELSE IF ~ IsEchelon(e.m1) THEN "the matrix is not in upper triangular form"
   ELSE IF e.hasy /\ MatMul(CnotMat(n, e.ycn), e.m1) # e.m0 THEN "the CNOTs do not implement the parity map"
   ELSE IF e.hasy /\ e.ymat # CnotMat(n, e.ycn) THEN "matrix of the tracker"
   ELSE IF e.rank # Rank(e.m0) THEN "rank" ELSE "ok"
\* routing up to a permutation
Permuted(k, e) ==
   LET n == Len(e.m) IN
   IF ~ IsPerm(e.rows, n) \/ ~ IsPerm(e.cols, n) THEN "not a permutation"
   ELSE IF (~ e.row /\ e.rows # [i \in 1..n |-> i - 1]) \/ (~ e.col /\ e.cols # [i \in 1..n |-> i - 1]) THEN "a permutation that was not allowed"
   ELSE IF ~ Legal(n, e.ycn) THEN "illegal CNOT"
   ELSE IF e.restrict /\ ~ Along(k, e.ycn) THEN "a CNOT is not along an edge of the architecture"
   ELSE IF e.full /\ CnotMat(n, e.ycn) # PickM(e.m, e.rows, e.cols) THEN "the CNOTs do not implement the permuted parity map"
   ELSE IF e.ymat # CnotMat(n, e.ycn) THEN "matrix of the tracker"
   ELSE IF e.rank # Rank(e.m) THEN "rank" ELSE "ok"
\* a sequence of parity maps with permutations between them
Sequence(k, e) ==
   LET n == Len(e.ms[1])  L == Len(e.ms)  id == Tp([i \in 1..n |-> i - 1]) IN
   IF Len(e.circs) # L \/ Len(e.perms) # L + 1 THEN "number of circuits and permutations"
   ELSE IF \E i \in 1..(L + 1) : ~ IsPerm(e.perms[i], n) THEN "not a permutation"
   ELSE IF (~ e.pin /\ e.perms[1] # id) \/ (~ e.pout /\ e.perms[L + 1] # id) THEN "a permutation that was not allowed"
   ELSE IF \E i \in 1..L : ~ Legal(n, e.circs[i]) THEN "illegal CNOT"
   ELSE IF e.restrict /\ \E i \in 1..L : ~ Along(k, e.circs[i]) THEN "a CNOT is not along an edge of the architecture"
   ELSE IF \E i \in 1..L : CnotMat(n, e.circs[i]) # PickM(e.ms[i], e.perms[i + 1], e.perms[i]) THEN "the CNOTs do not implement the permuted parity map"
   ELSE IF e.score # FoldLeft(LAMBDA s, x : s + Cost("combined", n, x), 0, e.circs) THEN "score" ELSE "ok"
CostOf(e) == IF e.n_cnots # Len(e.gates) THEN "number of CNOTs" ELSE IF e.depth # Depth(e.n, e.gates) THEN "CNOT depth" ELSE "ok"
\* a fitness is the cost of routing the permuted map
Fitness(k, e) ==
   LET n == Len(e.m) IN
   IF e.ret # Cost(e.metric, n, e.gates) THEN "fitness" ELSE "ok"
\* e.evals: <<candidate, value>> in the order they were evaluated
Search(e) ==
   LET vals == {e.evals[i][2] : i \in 1..Len(e.evals)}
       of == {e.evals[i][2] : i \in {i \in 1..Len(e.evals) : e.evals[i][1] = e.ret}} IN
   IF ~ IsPerm(e.ret, e.n) THEN "not a permutation"
   ELSE IF \E i \in 1..Len(e.evals) : ~ IsPerm(e.evals[i][1], e.m) THEN "a candidate is not a permutation"
   ELSE IF e.m = e.n /\ of = {} THEN "the answer was never evaluated"
   ELSE IF e.m = e.n /\ of # {IF e.max THEN Max(vals) ELSE Min(vals)} THEN "not the best candidate" ELSE "ok"
\* clearing one column
Column(k, e) ==
   IF ~ Along(k, e.ops) \/ \E i \in 1..Len(e.ops) : {e.ops[i][1], e.ops[i][2]} \cap ToSet(e.use) # {e.ops[i][1], e.ops[i][2]} THEN "an operation leaves the subgraph"
   ELSE LET fin == FoldLeft(LAMBDA x, o : [x EXCEPT ![o[2] + 1] = (x[o[1] + 1] + x[o[2] + 1]) % 2], e.col, e.ops) IN
        IF \A i \in ToSet(e.use) : fin[i + 1] = IF i = e.root THEN 1 ELSE 0 THEN "ok" ELSE "the column is not cleared"
Qasm(e) == IF e.back = e.gates /\ e.nback = e.n THEN "ok" ELSE "the QASM of the tracker is read back as another circuit"

Judge(k, e) ==
   CASE e.exc # "" -> IF e.a = "elim" /\ e.mayrefuse /\ e.refused /\ ~ (IF e.alg = "plain" THEN Nested(k) /\ (e.full => Line(k)) ELSE Rising(k)) THEN "ok" ELSE e.exc
     [] e.a = "elim" -> Elim(k, e)
     [] e.a = "permuted" -> Permuted(k, e)
     [] e.a = "sequence" -> Sequence(k, e)
     [] e.a = "cost" -> CostOf(e)
     [] e.a = "fitness" -> Fitness(k, e)
     [] e.a = "search" -> Search(e)
     [] e.a = "column" -> Column(k, e)
     [] e.a = "qasm" -> Qasm(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c], Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
