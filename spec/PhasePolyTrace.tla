--------------------------- MODULE PhasePolyTrace ---------------------------
(***************************************************************************)
(* Validation of recorded uses of phase polynomials: reading them from a   *)
(* circuit, partitioning their parities, synthesising and routing them.    *)
(***************************************************************************)
EXTENDS PhasePoly, FiniteSetsExt, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"
FullA == 33600
LegalOps(n, ops) == \A i \in 1..Len(ops) :
   CASE ops[i][1] = "cn" -> ops[i][2] # ops[i][3] /\ ops[i][2] \in 0..(n - 1) /\ ops[i][3] \in 0..(n - 1)
     [] ops[i][1] = "z" -> ops[i][2] \in 0..(n - 1)
     [] OTHER -> FALSE
AlongOps(k, ops) == LET A == {<<k.ed[i][1], k.ed[i][2]>> : i \in 1..Len(k.ed)} IN
   \A i \in 1..Len(ops) : ops[i][1] # "cn" \/ <<ops[i][2], ops[i][3]>> \in A \/ <<ops[i][3], ops[i][2]>> \in A
IsPerm(p, n) == Len(p) = n /\ ToSet(p) = 0..(n - 1)
(* reading: placements as lists of qubits *)
Read(e) ==
   LET s == RunFrom(FullA, PermRows(e.n, e.init), e.ops)
       out == Tp([i \in 1..Len(e.final) |-> s.rows[e.final[i] + 1]]) IN
   IF OfPairs(FullA, e.phases) # s.ph THEN "the phases of the parities"
   ELSE IF Cardinality({e.phases[i][1] : i \in 1..Len(e.phases)}) # Len(e.phases) \/ Len(e.phases) # Cardinality(DOMAIN s.ph) THEN "a parity is listed without a phase of its own"
   ELSE IF e.out # out THEN "the parities of the outputs" ELSE "ok"
(* routing of the circuit e.ops (or polynomial) to e.res *)
Route(k, e) ==
   LET n == e.n  s == Run(FullA, n, e.ops)
       want == IF e.full THEN Tp([i \in 1..n |-> s.rows[e.pout[i] + 1]]) ELSE <<>> IN
   IF ~ IsPerm(e.pin, n) \/ ~ IsPerm(e.pout, n) THEN "not a permutation"
   ELSE IF ~ e.mayperm /\ (e.pin # Tp([i \in 1..n |-> i - 1]) \/ e.pout # e.pin) THEN "a permutation that was not allowed"
   ELSE IF e.nq # n \/ ~ LegalOps(n, e.res) THEN "not a circuit of CNOTs and z-rotations on these qubits"
   ELSE IF e.restrict /\ ~ AlongOps(k, e.res) THEN "a CNOT is not along an edge of the architecture"
   ELSE LET r == RunFrom(FullA, PermRows(n, e.pin), e.res) IN
        IF r.ph # s.ph THEN "another phase polynomial"
        ELSE IF e.full /\ r.rows # want THEN "other output parities"
        ELSE IF e.tracked /\ e.ymat # Run(FullA, n, e.res).rows THEN "matrix of the tracker" ELSE "ok"
(* blocks of linearly independent parities *)
Partition(e) ==
   LET todo == {e.parities[i] : i \in 1..Len(e.parities)} \ (IF e.skip THEN {e.out[i] : i \in 1..Len(e.out)} ELSE {})
       all == UNION {{e.blocks[i][j] : j \in 1..Len(e.blocks[i])} : i \in 1..Len(e.blocks)}
       k == Len(e.blocks)  m == SetToSeq(todo) IN
   IF \E i \in 1..k : Len(e.blocks[i]) # e.n \/ ~ Invertible(e.blocks[i]) THEN "a block is not a basis"
   ELSE IF ~ (todo \subseteq all) THEN "a parity is in no block"
   ELSE IF (k = 0) # (todo = {}) THEN "number of blocks"
   ELSE IF k > Len(m) THEN "more blocks than parities" ELSE "ok"
\* a common generalisation of the inverse: rows extended to a basis
Extend(e) ==
   IF e.none THEN (IF Rank(e.m) < Len(e.m) THEN "ok" ELSE "independent rows are refused")
   ELSE IF Rank(e.m) < Len(e.m) THEN "dependent rows are accepted"
   ELSE IF SubSeq(e.ext, 1, Len(e.m)) # e.m \/ Len(e.ext) # Cols(e.m) THEN "the rows are not extended"
   ELSE IF MatMul(e.ext, e.inv) # IdM(Cols(e.m)) THEN "not the inverse" ELSE "ok"
Neighbours(k, q) == {i \in 0..(k.n - 1) : \E j \in 1..Len(k.ed) : k.ed[j] = <<q, i>> \/ k.ed[j] = <<i, q>>}
ClearsTo(k, ops, col, root) ==
   LET fin == FoldLeft(LAMBDA x, o : [x EXCEPT ![o[2] + 1] = (x[o[1] + 1] + x[o[2] + 1]) % 2], col, ops) IN
   AlongOps(k, [i \in 1..Len(ops) |-> <<"cn", ops[i][1], ops[i][2]>>]) /\ \A i \in 0..(k.n - 1) : fin[i + 1] = IF i = root THEN 1 ELSE 0
(* heuristics: a root for clearing a column, a qubit to split on *)
Heur(k, e) ==
   LET R == ToSet(e.roots)  top(S) == {q \in S : \A r \in S : Cardinality(Neighbours(k, r)) <= Cardinality(Neighbours(k, q))} IN
   IF \E i \in 1..Len(e.roots) : ~ ClearsTo(k, e.ops[i], e.col, e.roots[i]) THEN "the column is not cleared towards the given root"
   ELSE IF ~ \E r \in R : ClearsTo(k, e.rand, e.col, r) THEN "the column is not cleared (random root)"
   ELSE IF ~ \E r \in top(R) : ClearsTo(k, e.arity, e.col, r) THEN "the column is not cleared towards a root of highest arity"
   ELSE IF ~ \E r \in R : ClearsTo(k, e.best, e.col, r) THEN "the column is not cleared (exhaustive)"
   ELSE IF \E i \in 1..Len(e.roots) : Len(e.ops[i]) < Len(e.best) THEN "a cheaper root exists"
   ELSE IF Len(e.srand) # 1 \/ ~ (ToSet(e.srand) \subseteq ToSet(e.some)) THEN "random split"
   ELSE IF ToSet(e.scount) # ToSet(e.some) THEN "count split"
   ELSE IF e.sarity = <<>> \/ ToSet(e.sarity) # top(ToSet(e.some)) THEN "split on the qubits of highest arity" ELSE "ok"
Best(e) == IF e.both # e.dflt THEN "default method" ELSE IF e.both > e.one \/ e.both > e.other THEN "not the better of both" ELSE "ok"
Judge(k, e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "read" -> Read(e)
     [] e.a = "route" -> Route(k, e)
     [] e.a = "partition" -> Partition(e)
     [] e.a = "order" -> (IF IsPerm(e.got, e.n) THEN "ok" ELSE "the blocks were not just reordered")
 [] e.a = "heur" -> Heur(k, e) [] e.a = "best" -> Best(e)
     [] e.a = "extend" -> Extend(e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(Cases[c], Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
