----------------------------- MODULE SteinerGen -----------------------------
(***************************************************************************)
(* The step at the heart of architecture-aware elimination: one column of  *)
(* a matrix, a tree in the coupling graph that contains the rows with a 1, *)
(* and two passes over its edges.  Filling makes every node of the tree 1, *)
(* either from the leaves (a node that is 0 receives its child: used where *)
(* the root may be 0) or from the root (a child that is 0 receives its     *)
(* parent: used where the root is 1).  Clearing then goes from the leaves  *)
(* to the root.  TLC explores every tree on K nodes, every column whose    *)
(* ones include all leaves, and every order of the walk.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT K
VARIABLES par, x0, x, mode, phase, todo, ops
vars == <<par, x0, x, mode, phase, todo, ops>>
Nodes == 0..(K - 1)
Edges == 1..(K - 1)                              \* edge v goes from par[v] to v
Leaves == {v \in Edges : \A w \in Edges : par[w] # v}
Init == /\ par \in [Edges -> Nodes] /\ \A v \in Edges : par[v] < v
        /\ x0 \in [Nodes -> {0, 1}] /\ x = x0
        /\ mode \in {"fromLeaves", "fromRoot"}
        /\ (\A v \in Leaves : x0[v] = 1) /\ (mode = "fromRoot" => x0[0] = 1)
        /\ phase = "fill" /\ todo = Edges /\ ops = 0
Add(s, t) == /\ x' = [x EXCEPT ![t] = (x[t] + x[s]) % 2] /\ ops' = ops + 1
\* one edge of the filling pass
Fill(v) == /\ phase = "fill" /\ v \in todo
           /\ IF mode = "fromLeaves" THEN \A w \in todo : par[w] # v ELSE par[v] \notin todo
           /\ IF mode = "fromLeaves"
              THEN IF x[par[v]] = 0 THEN Add(v, par[v]) ELSE UNCHANGED <<x, ops>>
              ELSE IF x[v] = 0 THEN Add(par[v], v) ELSE UNCHANGED <<x, ops>>
           /\ todo' = todo \ {v} /\ UNCHANGED <<par, x0, mode, phase>>
Filled == phase = "fill" /\ todo = {} /\ phase' = "clear" /\ todo' = Edges /\ UNCHANGED <<par, x0, x, mode, ops>>
Clear(v) == /\ phase = "clear" /\ v \in todo /\ \A w \in todo : par[w] # v
            /\ Add(par[v], v) /\ todo' = todo \ {v} /\ UNCHANGED <<par, x0, mode, phase>>
Done == phase = "clear" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<par, x0, x, mode, todo, ops>>
Next == (\E v \in Edges : Fill(v) \/ Clear(v)) \/ Filled \/ Done
Spec == Init /\ [][Next]_vars
AllOnes == phase = "clear" /\ todo = Edges => \A v \in Nodes : x[v] = 1
\* afterwards only the pivot is left, at the cost of the tree and its zeros
OnlyRoot == phase = "done" => x = [v \in Nodes |-> IF v = 0 THEN 1 ELSE 0]
Cost == phase = "done" => ops = (K - 1) + Cardinality({v \in Nodes : x0[v] = 0})
=============================================================================
