------------------------------ MODULE DiffGen ------------------------------
(***************************************************************************)
(* All pairs (and triples) of small diagrams: a diff reproduces its        *)
(* target, the reverse diff undoes it, the diff of equal diagrams is empty,*)
(* diffs compose.  The pairs are printed for replay against the code.      *)
(***************************************************************************)
EXTENDS Diff, Sequences, Json, TLC
CONSTANTS Ids, Types, Phases, MaxEdges, Emit
VARIABLES a, b
vars == <<a, b>>
Attr == [ty : Types, ph : Phases]
PairsOf(vs) == {<<s, t, k>> : s \in vs, t \in vs, k \in {1, 2}}
EdgesOn(vs) == {e \in PairsOf(vs) : e[1] < e[2]}
Diagrams == UNION {{[at |-> f, ed |-> Positive(m)] : f \in [vs -> Attr], m \in [EdgesOn(vs) -> 0..MaxEdges]} : vs \in SUBSET Ids}
Init == a \in Diagrams /\ b \in Diagrams
           /\ (Emit => PrintT(ToJson([da |-> [vs |-> {<<v, a.at[v].ty, a.at[v].ph>> : v \in DOMAIN a.at}, ed |-> {<<e, a.ed[e]>> : e \in DOMAIN a.ed}],
                                      db |-> [vs |-> {<<v, b.at[v].ty, b.at[v].ph>> : v \in DOMAIN b.at}, ed |-> {<<e, b.ed[e]>> : e \in DOMAIN b.ed}]])))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Reproduces == ApplyDiff(DiffOf(a, b), a) = b
Undoes == ApplyDiff(DiffOf(b, a), ApplyDiff(DiffOf(a, b), a)) = a
EmptyIffEqual == EmptyDiff(DiffOf(a, b)) <=> a = b
\* nothing is recorded that is already there
Minimal == LET d == DiffOf(a, b) IN \A v \in DOMAIN d.set \ d.new : \A f \in DOMAIN d.set[v] : d.set[v][f] # a.at[v][f]
=============================================================================
