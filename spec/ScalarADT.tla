----------------------------- MODULE ScalarADT -----------------------------
(***************************************************************************)
(* Global scalars as an abstract machine.  A scalar is the product of all  *)
(* that was accumulated into it: a sequence of factors                     *)
(*    <<"p2", k>>        sqrt(2)^k                                          *)
(*    <<"ph", k>>        e^{i k}                (angles in units 2 pi/N)    *)
(*    <<"node", k>>      1 + e^{i k}            a spider without legs       *)
(*    <<"ff", r>>        the ring element r                                 *)
(*    <<"pair", k, l>>   two single-legged spiders joined by a Hadamard     *)
(*    <<"unknown">>      something unknown                                  *)
(* Nothing here says how the implementation stores it.                     *)
(***************************************************************************)
EXTENDS Meaning

FacVal(f) ==
   CASE f[1] = "p2" -> S2Pow(f[2])
     [] f[1] = "ph" -> Ph(f[2])
     [] f[1] = "node" -> Add(1, Ph(f[2]))
     [] f[1] = "ff" -> Ring(f[2])
     [] f[1] = "pair" -> Mul(IS2, Sub(Add(Add(1, Ph(f[2])), Ph(f[3])), Ph(f[2] + f[3])))
     [] f[1] = "unknown" -> 1
ScVal(s) == ProdSeq([i \in 1..Len(s) |-> FacVal(s[i])])
ScUnknown(s) == \E i \in 1..Len(s) : s[i][1] = "unknown"
FacConj(f) ==
   CASE f[1] \in {"p2", "unknown"} -> f
     [] f[1] \in {"ph", "node"} -> <<f[1], 0 - f[2]>>
     [] f[1] = "ff" -> <<"ff", RingConj(f[2])>>
     [] f[1] = "pair" -> <<"pair", 0 - f[2], 0 - f[3]>>
ScConj(s) == Tup([i \in 1..Len(s) |-> FacConj(s[i])])

(***************************************************************************)
(* One operation on the registers st (a sequence of scalars).              *)
(***************************************************************************)
ScStep(st, e) ==
   CASE e.a = "new"       -> Append(st, <<>>)
     [] e.a = "add_power" -> [st EXCEPT ![e.r] = Append(@, <<"p2", e.k>>)]
     [] e.a = "add_phase" -> [st EXCEPT ![e.r] = Append(@, <<"ph", e.k>>)]
     [] e.a = "add_node"  -> [st EXCEPT ![e.r] = Append(@, <<"node", e.k>>)]
     [] e.a = "add_float" -> [st EXCEPT ![e.r] = Append(@, <<"ff", e.f>>)]
     [] e.a = "add_spider_pair" -> [st EXCEPT ![e.r] = Append(@, <<"pair", e.k, e.l>>)]
     [] e.a = "mult_with_scalar" -> [st EXCEPT ![e.r] = @ \o st[e.s]]
     [] e.a = "set_unknown" -> [st EXCEPT ![e.r] = Append(@, <<"unknown">>)]
     [] e.a \in {"copy", "json"} -> Append(st, st[e.r])
     [] e.a \in {"conjugate", "copy_conjugate"} -> Append(st, ScConj(st[e.r]))
=============================================================================
