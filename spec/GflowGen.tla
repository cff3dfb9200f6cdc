------------------------------ MODULE GflowGen ------------------------------
(***************************************************************************)
(* Measuring an open graph backwards, one correctable vertex at a time, as *)
(* a transition system over all open graphs on Nv vertices.  TLC checks    *)
(* that the order does not matter (what is correctable stays correctable,  *)
(* so every run ends in the same set), that runs end with everything       *)
(* measured exactly when the definition of generalised flow can be met,    *)
(* that the layers are such a flow and that no flow has lower levels.      *)
(***************************************************************************)
EXTENDS Gflow, Json
CONSTANTS Nv
VARIABLES g, done, last
vars == <<g, done, last>>
Vs == 1..Nv
Graphs == [V : {Vs}, E : SUBSET {e \in SUBSET Vs : Cardinality(e) = 2}, I : SUBSET Vs, O : SUBSET Vs]
Init == g \in Graphs /\ done = g.O /\ last = {}
Next == \E u \in g.V \ done : /\ CanCorrect(g, done, u)
                              /\ done' = done \cup {u} /\ UNCHANGED g
                              /\ last' = {v \in g.V \ done : v # u /\ CanCorrect(g, done, v)}
Spec == Init /\ [][Next]_vars
Linear == \A u \in g.V \ done : CanCorrect(g, done, u) = CanCorrectL(g, done, u)
StaysCorrectable == \A v \in last : CanCorrect(g, done, v)
Ended == ~ ENABLED Next
SameEnd == Ended => done = Layers(g).done
Start == done = g.O
Definition == Start => (Exists(g) <=> HasGflow(g))
\* fewer outputs than inputs: no flow; levels are minimal: whatever corrects u lies strictly below
Counting == (Start /\ HasGflow(g)) => Cardinality(g.O) >= Cardinality(g.I)
LayersAreFlow == (Start /\ HasGflow(g)) =>
   LET lev == Layers(g).lev IN
   \A u \in g.V \ g.O : /\ \E X \in SUBSET (g.V \ (g.I \cup {u})) : u \in OddN(g, X) /\ \A v \in (X \cup OddN(g, X)) \ {u} : lev[v] < lev[u]
                        /\ ~ \E X \in SUBSET (g.V \ (g.I \cup {u})) : u \in OddN(g, X) /\ \A v \in (X \cup OddN(g, X)) \ {u} : lev[v] < lev[u] - 1
Emitted == Start => PrintT(ToJson([n |-> Nv, ed |-> SetToSeq({SetToSeq(e) : e \in g.E}), inp |-> SetToSeq(g.I), out |-> SetToSeq(g.O)]))
=============================================================================
