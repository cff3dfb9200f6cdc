----------------------------- MODULE ArchTrace -----------------------------
EXTENDS Arch, Devices, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Cases == Data.cases
VARIABLES c, pos, verdict
vars == <<c, pos, verdict>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ verdict = "ok"

QubitMap(a, e) ==
   IF Len(a.map) # a.n \/ {a.map[i] : i \in 1..a.n} # Verts(a) THEN "qubits and vertices do not correspond one to one"
   ELSE IF \E q \in 1..a.n : e.v2q[a.map[q] + 1] # q - 1 THEN "vertex2qubit is not the inverse of qubit2vertex" ELSE "ok"
Neighbours(a, e) ==
   IF \E q \in 1..a.n : ToSet(e.nb[q]) # {r \in Verts(a) : <<q - 1, r>> \in QAdj(a)} THEN "neighbouring qubits"
   ELSE IF \E v \in 1..a.n : ToSet(e.vnb[v]) # {r \in Verts(a) : <<v - 1, r>> \in AdjSet(a)} THEN "neighbouring vertices"
   ELSE "ok"
Cutting(a, e) == IF Len(e.ret) # Cardinality(ToSet(e.ret)) \/ ToSet(e.ret) # NonCutting(AdjSet(a), ToSet(e.sub)) THEN "non-cutting vertices" ELSE "ok"
\* e.d: <<u, v, distance, path of edges>>
Distances(a, e) ==
   LET S == ToSet(e.sub)
       A == IF e.upper THEN AdjSet(a)
            ELSE {p \in AdjSet(a) : e.v2q[p[1] + 1] > e.v2q[p[2] + 1] \/ (p[1] \in ToSet(e.rec) /\ p[2] \in ToSet(e.rec))}
       L == TLCEval([v \in S |-> Layers(A, S, v)])
       good(x) == /\ x[3] = DistIn(L[x[1]], x[2]) /\ Len(x[4]) = x[3]
                  /\ \A i \in 1..Len(x[4]) : <<x[4][i][1], x[4][i][2]>> \in A /\ x[4][i][1] \in S /\ x[4][i][2] \in S
                  /\ \A i \in 1..(Len(x[4]) - 1) : x[4][i][2] = x[4][i + 1][1]
                  /\ Len(x[4]) > 0 => x[4][1][1] = x[1] /\ x[4][Len(x[4])][2] = x[2]
   IN IF \E i \in 1..Len(e.d) : e.d[i][1] \notin S \/ e.d[i][2] \notin S THEN "distance to a vertex outside the subgraph"
      ELSE IF \E i \in 1..Len(e.d) : ~ good(e.d[i]) THEN "not a shortest path"
      ELSE IF Cardinality({<<e.d[i][1], e.d[i][2]>> : i \in 1..Len(e.d)}) # Cardinality({p \in S \X S : DistIn(L[p[1]], p[2]) >= 0}) THEN "a distance is missing" ELSE "ok"
\* a shortest path through the given qubits, as vertices
Shortest(a, e) ==
   LET S == {a.map[q + 1] : q \in ToSet(e.use)}
       s == a.map[e.s + 1]  t == a.map[e.t + 1]
       d == DistIn(Layers(AdjSet(a), S \cup {s}, s), t) IN
   IF ~ e.some THEN (IF d >= 0 THEN "a path exists" ELSE "ok")
   ELSE IF e.p[1] # s \/ e.p[Len(e.p)] # t \/ ~ IsPath(AdjSet(a), e.p) \/ ~ ToSet(e.p) \subseteq (S \cup {s}) THEN "not a path"
   ELSE IF Len(e.p) # d + 1 THEN "not the shortest path" ELSE "ok"
\* Steiner trees over qubits
Tree(a, e) ==
   LET Q == QAdj(a)
       S == IF e.rec # <<-1>> THEN ToSet(e.use) ELSE IF e.upper THEN e.root..(a.n - 1) ELSE 0..e.root
       A == IF e.upper THEN Q ELSE Down(Q, ToSet(e.rec)) IN
   IF ~ e.some THEN (IF ToSet(e.terms) \subseteq Reach(A, S, e.root) THEN "the terminals can be reached but no tree was found" ELSE "ok")
   ELSE IF \E i \in 1..Len(e.down) : <<e.down[i][1], e.down[i][2]>> \notin Q THEN "tree edge is not in the coupling graph"
   ELSE IF ~ WalkTree(e.root, e.down) THEN "not a tree walked from its root"
   ELSE IF ~ TreeNodes(e.root, e.down) \subseteq S THEN "tree leaves the subgraph"
   ELSE IF \E i \in 1..Len(e.down) : <<e.down[i][1], e.down[i][2]>> \notin A THEN "tree edge goes up"
   ELSE IF ~ ToSet(e.terms) \subseteq TreeNodes(e.root, e.down) THEN "a terminal is missing"
   ELSE IF \E i \in 1..Len(e.down) : e.down[i][2] \notin ToSet(e.terms) /\ \A j \in 1..Len(e.down) : e.down[j][1] # e.down[i][2] THEN "a leaf of the tree is not a terminal"
   ELSE IF ~ WalkUp(e.down, e.up) THEN "the way back is not the tree from the leaves"
   ELSE "ok"
\* Qubits in the order in which they are removed.  In a rising set every qubit but the largest has a larger neighbour
\* (then the largest can be reached from everywhere along rising edges); removal keeps this.
RisingSet(A, S) == \A q \in S : (\A r \in S : r <= q) \/ \E r \in S : r > q /\ <<q, r>> \in A
RemovalOrder(a, e) ==
   LET rest(i) == {e.ord[j] : j \in i..Len(e.ord)}  Q == QAdj(a) IN
   IF Len(e.ord) # a.n \/ ToSet(e.ord) # Verts(a) THEN "not an order of the qubits"
   ELSE IF \E i \in 1..a.n : RisingSet(Q, rest(i)) /\ ~ RisingSet(Q, rest(i) \ {e.ord[i]}) THEN "a qubit is removed on which others depend" ELSE "ok"
Arities(a, e) ==
   IF Len(e.ar) # a.n \/ {e.ar[i][1] : i \in 1..a.n} # Verts(a) THEN "a node is missing"
   ELSE IF \E i \in 1..a.n : e.ar[i][2] # Cardinality({w \in Verts(a) : <<e.ar[i][1], w>> \in AdjSet(a)}) THEN "arity"
   ELSE IF \E i \in 1..(a.n - 1) : e.ar[i][2] < e.ar[i + 1][2] THEN "not sorted" ELSE "ok"
ESet(a) == {{a.ed[i][1], a.ed[i][2]} : i \in 1..Len(a.ed)}
\* textbook topologies (grids are numbered like a snake)
GridCell(w, i) == LET r == i \div w IN <<r, IF r % 2 = 0 THEN i % w ELSE w - 1 - (i % w)>>
Ab(x) == IF x < 0 THEN 0 - x ELSE x
Topology(a, e) ==
   LET n == a.n
       pairs == {{u, v} : u, v \in 0..(n - 1)} \ {{u} : u \in 0..(n - 1)}
       want == CASE e.top = "line" -> {{i, i + 1} : i \in 0..(n - 2)}
                 [] e.top = "circle" -> {{i, (i + 1) % n} : i \in 0..(n - 1)} \ {{u} : u \in 0..(n - 1)}
                 [] e.top = "full" -> pairs
                 [] e.top = "square" -> {p \in pairs : \E u, v \in p : LET g == GridCell(e.w, u) h == GridCell(e.w, v) IN Ab(g[1] - h[1]) + Ab(g[2] - h[2]) = 1}
                 [] e.top = "matrix" -> {p \in pairs : \E i \in 1..Len(e.ones) : p = {e.ones[i][1], e.ones[i][2]}}
                 [] e.top = "device" -> {{d[1], d[2]} : d \in Devices[e.name].ed}
                 [] OTHER -> ESet(a) IN
   IF e.top = "device" /\ a.n # Devices[e.name].n THEN "number of qubits of the device"
   ELSE IF a.n # e.size THEN "number of qubits"
   ELSE IF ESet(a) # want THEN "edges of the topology"
   ELSE IF Cardinality(ESet(a)) # Len(a.ed) THEN "an edge occurs twice"
   ELSE IF ~ Connected(AdjSet(a), Verts(a)) THEN "not connected"
   ELSE IF e.top = "density" /\ Len(a.ed) < e.edges THEN "fewer edges than the density asks for"
   ELSE IF e.ham /\ \E q \in 0..(a.n - 2) : <<q, q + 1>> \notin QAdj(a) THEN "no Hamiltonian path along the qubits" ELSE "ok"

Judge(a, e) ==
   CASE e.exc # "" -> e.exc
     [] e.a = "map" -> QubitMap(a, e)
     [] e.a = "neighbours" -> Neighbours(a, e)
     [] e.a = "non_cutting" -> Cutting(a, e)
     [] e.a = "distances" -> Distances(a, e)
     [] e.a = "shortest_path" -> Shortest(a, e)
     [] e.a \in {"steiner_tree", "rec_steiner_tree"} -> Tree(a, e)
     [] e.a = "reduce_order" -> RemovalOrder(a, e)
     [] e.a = "arities" -> Arities(a, e)
     [] e.a = "topology" -> Topology(a, e)
Next == /\ pos <= Len(Cases[c].ev)
        /\ verdict' = Judge(IF "arch" \in DOMAIN Cases[c].ev[pos] THEN Cases[c].ev[pos].arch ELSE Cases[c].arch, Cases[c].ev[pos])
        /\ (verdict' # "ok" => PrintT(ToJson([fail |-> c, at |-> pos, why |-> verdict'])))
        /\ pos' = pos + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, pos>>
=============================================================================
