------------------------------ MODULE F2Trace ------------------------------
(***************************************************************************)
(* Validation of recorded uses of the linear algebra of the implementation *)
(***************************************************************************)
EXTENDS F2, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"

\* an elimination as the sequence of row additions the implementation reported
Gauss(e) ==
   LET n == Len(e.m)
       g == RowAdds(IdM(n), e.ops) IN
   IF \E i \in 1..Len(e.ops) : e.ops[i][1] = e.ops[i][2] \/ e.ops[i][1] \notin 0..(n - 1) \/ e.ops[i][2] \notin 0..(n - 1) THEN "illegal row operation"
   ELSE IF ~ Rect(e.after, n, Cols(e.m)) THEN "shape"
   ELSE IF RowAdds(e.m, e.ops) # e.after THEN "reported row operations do not give the result"
   ELSE IF ~ IsEchelon(e.after) THEN "not in echelon form"
   ELSE IF e.full /\ ~ IsReduced(e.after) THEN "not in reduced echelon form"
   ELSE IF e.rank # Rank(e.m) THEN "rank"
   ELSE IF e.piv # PivotCols(e.after) THEN "pivot columns"
   ELSE IF e.xout # RowAdds(e.xin, e.ops) THEN "x is not multiplied by the row operations"
   ELSE IF MatMul(e.yout, g) # e.yin THEN "y is not multiplied by the inverse"
   ELSE "ok"
InverseOf(e) ==
   IF ~ e.some THEN (IF Invertible(e.m) THEN "an invertible matrix has no inverse" ELSE "ok")
   ELSE IF ~ Invertible(e.m) THEN "a matrix that is not invertible has an inverse"
   ELSE IF ~ Rect(e.inv, Len(e.m), Len(e.m)) \/ MatMul(e.m, e.inv) # IdM(Len(e.m)) THEN "not the inverse" ELSE "ok"
Solve(e) ==
   IF ~ e.some THEN (IF Solvable(e.m, e.b) THEN "solvable system is said to have no solution" ELSE "ok")
   ELSE IF Len(e.x) # Cols(e.m) THEN "shape of the solution"
   ELSE IF MatVec(e.m, e.x) # e.b THEN "not a solution" ELSE "ok"
Null(e) ==
   IF \E i \in 1..Len(e.vs) : Len(e.vs[i]) # Cols(e.m) \/ ~ IsZeroRow(MatVec(e.m, e.vs[i])) THEN "not in the nullspace"
   ELSE IF Len(e.vs) # Cols(e.m) - Rank(e.m) \/ Rank(e.vs) # Len(e.vs) THEN "not a basis of the nullspace" ELSE "ok"
Factor(e) ==
   LET r == Rank(e.m) IN
   IF r = 0 THEN (IF Len(e.m1) = 0 /\ Cols(e.m0) = 0 THEN "ok" ELSE "inner dimension is not the rank")
   ELSE IF Cols(e.m0) # r \/ Len(e.m1) # r THEN "inner dimension is not the rank"
   ELSE IF MatMul(e.m0, e.m1) # e.m THEN "product of the factors" ELSE "ok"
\* a list of CNOTs maps the row vector x to x M
Cnots(e) ==
   LET n == Len(e.m) IN
   IF \E i \in 1..Len(e.cn) : e.cn[i][1] = e.cn[i][2] \/ e.cn[i][1] \notin 0..(n - 1) \/ e.cn[i][2] \notin 0..(n - 1) THEN "illegal CNOT"
   ELSE IF CnotMat(n, e.cn) # TransposeM(e.m) THEN "CNOTs implement another matrix" ELSE "ok"
\* row operations that leave (at least) e.want rows with a single 1; some = FALSE: none were found
Reduction(e) ==
   LET n == Len(e.m)
       subs == UNION {{S \in [1..n -> {0, 1}] : TRUE}}
       single(S) == Weight(FoldLeft(LAMBDA a, i : IF S[i] = 1 THEN XorRow(a, e.m[i]) ELSE a, ZeroRow(Cols(e.m)), Tp([i \in 1..n |-> i]))) = 1 IN
   IF ~ e.some THEN (IF e.want = 1 /\ n <= 7 /\ \E S \in subs : single(S) THEN "a reduction exists but was not found" ELSE "ok")
   ELSE IF \E i \in 1..Len(e.ops) : e.ops[i][1] = e.ops[i][2] \/ e.ops[i][1] \notin 0..(n - 1) \/ e.ops[i][2] \notin 0..(n - 1) THEN "illegal row operation"
   ELSE IF Cardinality(Singles(RowAdds(e.m, e.ops))) < e.want THEN "no row has a single 1 afterwards" ELSE "ok"
\* item i ends at position perm[i]
Swaps(e) ==
   LET n == Len(e.perm)
       start == Tp([i \in 1..n |-> i - 1])
       ends == FoldLeft(LAMBDA l, s : [l EXCEPT ![s[1] + 1] = l[s[2] + 1], ![s[2] + 1] = l[s[1] + 1]], start, e.sw) IN
   IF \A i \in 1..n : ends[e.perm[i] + 1] = i - 1 THEN "ok" ELSE "swaps realise another permutation"
ColSwap(e) == LET n == Cols(e.m) IN
   IF Len(e.map) = n /\ {e.map[i][1] : i \in 1..n} = 0..(n - 1) /\ {e.map[i][2] : i \in 1..n} = 0..(n - 1) THEN "ok" ELSE "not a permutation of the columns"
\* CNOTs are removed without making fewer rows extractable
Extra(e) ==
   LET conv(l) == Tp([i \in 1..Len(l) |-> <<l[i][2], l[i][1]>>])
       k == Cardinality(Singles(RowAdds(e.m, conv(e.cn)))) IN
   IF Len(e.out) > Len(e.cn) THEN "more CNOTs than before"
   ELSE IF Cardinality(Singles(RowAdds(e.m, conv(e.out)))) < k THEN "fewer rows are extractable" ELSE "ok"
Filter(e) == IF Len(e.out) > Len(e.cn) THEN "more CNOTs than before"
   ELSE IF CnotMat(e.n, e.out) # CnotMat(e.n, e.cn) THEN "the CNOTs implement another map" ELSE "ok"
Compare(e) == IF e.ret # (CnotMat(e.n, e.c1) = CnotMat(e.n, e.c2)) THEN "comparison of CNOT circuits" ELSE "ok"
\* a tracker: row operations append, column operations prepend CNOTs
TrackGates(e) == FoldLeft(LAMBDA g, o : IF o[1] = "r" THEN Append(g, <<o[2], o[3]>>) ELSE <<(<<o[3], o[2]>>)>> \o g, <<>>, e.hist)
Tracker(e) ==
   IF e.gates # TrackGates(e) THEN "gates of the tracker"
   ELSE IF e.mat # CnotMat(e.n, e.gates) THEN "matrix of the tracker"
   ELSE IF e.orig # e.orig0 THEN "the circuit the tracker was made from changed" ELSE "ok"
Pick(m, rs, cs) == Tp([i \in 1..Len(rs) |-> Tp([j \in 1..Len(cs) |-> m[rs[i] + 1][cs[j] + 1]])])

Judge(e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "gauss" -> Gauss(e)
     [] e.a = "rank" -> IF e.rank = Rank(e.m) THEN "ok" ELSE "rank"
     [] e.a = "inverse" -> InverseOf(e)
     [] e.a = "solve" -> Solve(e)
     [] e.a = "nullspace" -> Null(e)
     [] e.a = "factor" -> Factor(e)
     [] e.a = "mul" -> IF e.out = MatMul(e.m, e.b) THEN "ok" ELSE "product"
     [] e.a = "transpose" -> IF e.out = TransposeM(e.m) THEN "ok" ELSE "transpose"
     [] e.a = "row_add" -> IF e.out = RowAdd(e.m, e.i + 1, e.j + 1) THEN "ok" ELSE "row addition"
     [] e.a = "col_add" -> IF e.out = ColAdd(e.m, e.i + 1, e.j + 1) THEN "ok" ELSE "column addition"
     [] e.a = "row_swap" -> IF e.out = [e.m EXCEPT ![e.i + 1] = e.m[e.j + 1], ![e.j + 1] = e.m[e.i + 1]] THEN "ok" ELSE "row swap"
     [] e.a = "col_swap" -> IF TransposeM(e.out) = [TransposeM(e.m) EXCEPT ![e.i + 1] = Col(e.m, e.j + 1), ![e.j + 1] = Col(e.m, e.i + 1)] THEN "ok" ELSE "column swap"
     [] e.a = "pick" -> IF e.out = Pick(e.m, e.rs, e.cs) THEN "ok" ELSE "selected rows and columns"
     [] e.a = "place" -> IF e.out = Tp([i \in 1..Len(e.m) |-> Tp([j \in 1..Cols(e.m) |->
             IF i - 1 \in ToSet(e.rs) /\ j - 1 \in ToSet(e.cs)
             THEN e.b[CHOOSE k \in 1..Len(e.rs) : e.rs[k] = i - 1][CHOOSE k \in 1..Len(e.cs) : e.cs[k] = j - 1] ELSE e.m[i][j]])]) THEN "ok" ELSE "assigned sub-matrix"
     [] e.a = "eq" -> IF e.ret = (e.m = e.b) THEN "ok" ELSE "equality"
     [] e.a = "cnots" -> Cnots(e)
     [] e.a = "reduction" -> Reduction(e)
     [] e.a = "swaps" -> Swaps(e)
     [] e.a = "colswap" -> ColSwap(e)
     [] e.a = "extra" -> Extra(e)
     [] e.a = "filter" -> Filter(e)
     [] e.a = "compare" -> Compare(e)
     [] e.a = "tracker" -> Tracker(e)
Judged(e) == IF e.exc = "" /\ e.same = FALSE THEN "an argument was changed" ELSE Judge(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judged(Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
