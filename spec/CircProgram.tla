---------------------------- MODULE CircProgram ----------------------------
(***************************************************************************)
(* Elaboration of the programs in the circuit description languages that   *)
(* PyZX reads and writes (OpenQASM 2 and 3, .qc, Quipper ASCII, .qsim)     *)
(* into circuits.                                                          *)
(*                                                                         *)
(* A program is [lang, regs, defs, stmts]:                                 *)
(*   regs   sizes of the quantum registers, in order of declaration        *)
(*   defs   gate definitions [n, body], body a sequence of statements over *)
(*          the formal parameters; a definition may use earlier ones       *)
(*   stmts  [nm, def, ps, args, neg]: a builtin gate nm (def = 0) or the   *)
(*          definition def; ps are parameter expressions; args are pairs   *)
(*          <<register, index>>, index -1 standing for the whole register; *)
(*          neg lists the (1-based) positions of negative controls         *)
(* A statement with whole registers stands for one gate per index, single  *)
(* qubits being repeated.                                                  *)
(* A parameter expression [neg, f] is a product f of factors <<op, a, b>>: *)
(* multiplication (1) or division (-1) by a/b, in units of pi.             *)
(***************************************************************************)
EXTENDS CircStats

ExprIdx(e) ==
   LET num == FoldLeft(LAMBDA a, x : a * (IF x[1] = 1 THEN x[2] ELSE x[3]), 1, e.f)
       den == FoldLeft(LAMBDA a, x : a * (IF x[1] = 1 THEN x[3] ELSE x[2]), 1, e.f)
       v == (HalfN * num) \div den
   IN IF e.neg THEN 0 - v ELSE v

Half2 == N \div 4      \* pi/2
Q4 == N \div 8         \* pi/4
G1(nm, q, p) == <<[nm |-> nm, q |-> q, p |-> p]>>

Qasm(nm, q, p) ==
   CASE nm = "x"   -> G1("XPhase", q, <<HalfN>>)
     [] nm = "y"   -> G1("YPhase", q, <<HalfN>>)
     [] nm = "z"   -> G1("ZPhase", q, <<HalfN>>)
     [] nm = "h"   -> G1("HAD", q, <<>>)
     [] nm = "s"   -> G1("ZPhase", q, <<Half2>>)
     [] nm = "sdg" -> G1("ZPhase", q, <<0 - Half2>>)
     [] nm = "t"   -> G1("ZPhase", q, <<Q4>>)
     [] nm = "tdg" -> G1("ZPhase", q, <<0 - Q4>>)
     [] nm = "sx"  -> G1("XPhase", q, <<Half2>>)
     [] nm = "sxdg" -> G1("XPhase", q, <<0 - Half2>>)
     [] nm = "id"  -> G1("ID", q, <<>>)
     [] nm = "rx"  -> G1("XPhase", q, p)
     [] nm = "ry"  -> G1("YPhase", q, p)
     [] nm \in {"rz", "p", "u1", "phase"} -> G1("ZPhase", q, p)
     [] nm = "u2"  -> G1("U2", q, p)
     [] nm \in {"u3", "u", "U"} -> G1("U3", q, p)
     [] nm \in {"cx", "CX"} -> G1("CNOT", q, <<>>)
     [] nm = "cy"  -> G1("CY", q, <<>>)
     [] nm = "cz"  -> G1("CZ", q, <<>>)
     [] nm = "ch"  -> G1("CHAD", q, <<>>)
     [] nm = "csx" -> G1("CSX", q, <<>>)
     [] nm = "swap" -> G1("SWAP", q, <<>>)
     [] nm = "crx" -> G1("CRX", q, p)
     [] nm = "cry" -> G1("CRY", q, p)
     [] nm = "crz" -> G1("CRZ", q, p)
     [] nm \in {"cp", "cphase", "cu1"} -> G1("CPhase", q, p)
     [] nm = "rxx" -> G1("RXX", q, p)
     [] nm = "rzz" -> G1("RZZ", q, p)
     [] nm = "cu3" -> G1("CU3", q, p)
     [] nm = "cu"  -> G1("CU", q, p)
     [] nm = "ccx" -> G1("TOF", q, <<>>)
     [] nm = "ccz" -> G1("CCZ", q, <<>>)
     [] nm = "cswap" -> G1("CSWAP", q, <<>>)
     [] OTHER -> G1("unknown:" \o nm, q, p)

\* .qc: the name says what happens on the last qubit, the others are controls
Qc(nm, q) ==
   CASE nm \in {"tof", "not", "x", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "cnot"} /\ ~(nm = "x" /\ Len(q) > 1) -> G1("MCX", q, <<>>)
     [] nm \in {"z", "cz", "ccz"} -> G1("MCZ", q, <<>>)
     [] nm = "y" -> G1("YPhase", q, <<HalfN>>)
     [] nm \in {"s", "p"} -> G1("ZPhase", q, <<Half2>>)
     [] nm \in {"s*", "p*"} -> G1("ZPhase", q, <<0 - Half2>>)
     [] nm = "t" -> G1("ZPhase", q, <<Q4>>)
     [] nm = "t*" -> G1("ZPhase", q, <<0 - Q4>>)
     [] nm = "h" -> G1("HAD", q, <<>>)
     [] nm = "swap" -> G1("SWAP", q, <<>>)
     [] OTHER -> G1("unknown:" \o nm, q, <<>>)

\* Quipper: controls first, the gate acts on the last qubit; exp(-i t Z) is a rotation by 2t
Quipper(nm, q, p) ==
   CASE nm \in {"not", "X"} -> G1("MCX", q, <<>>)
     [] nm = "Z" -> G1("MCZ", q, <<>>)
     [] nm = "H" /\ Len(q) = 1 -> G1("HAD", q, <<>>)
     [] nm = "H" /\ Len(q) = 2 -> G1("CHAD", q, <<>>)
     [] nm = "Y" /\ Len(q) = 1 -> G1("YPhase", q, <<HalfN>>)
     [] nm = "Y" /\ Len(q) = 2 -> G1("CY", q, <<>>)
     [] nm = "S" /\ Len(q) = 1 -> G1("ZPhase", q, <<Half2>>)
     [] nm = "S*" /\ Len(q) = 1 -> G1("ZPhase", q, <<0 - Half2>>)
     [] nm = "T" /\ Len(q) = 1 -> G1("ZPhase", q, <<Q4>>)
     [] nm = "T*" /\ Len(q) = 1 -> G1("ZPhase", q, <<0 - Q4>>)
     [] nm = "V" /\ Len(q) = 1 -> G1("XPhase", q, <<Half2>>)
     [] nm = "V*" /\ Len(q) = 1 -> G1("XPhase", q, <<0 - Half2>>)
     [] nm = "exp(-i%Z)" /\ Len(q) = 1 -> G1("ZPhase", q, <<2 * p[1]>>)
     [] nm = "exp(-i%X)" /\ Len(q) = 1 -> G1("XPhase", q, <<2 * p[1]>>)
     [] nm = "exp(-i%Y)" /\ Len(q) = 1 -> G1("YPhase", q, <<2 * p[1]>>)
     [] OTHER -> G1("unknown:" \o nm, q, <<>>)

\* qsim: square roots of W = (X+Y)/sqrt2, X and Y
Qsim(nm, q, p) ==
   CASE nm = "rz" -> G1("ZPhase", q, p)
     [] nm = "hz_1_2" -> G1("ZPhase", q, <<0 - Q4>>) \o G1("XPhase", q, <<Half2>>) \o G1("ZPhase", q, <<Q4>>)
     [] nm = "x_1_2" -> G1("XPhase", q, <<Half2>>)
     [] nm = "y_1_2" -> G1("YPhase", q, <<Half2>>)
     [] nm = "fs" -> G1("FSim", q, p)
     [] OTHER -> G1("unknown:" \o nm, q, <<>>)

Builtin(lang, nm, q, p) ==
   CASE lang = "qasm" -> Qasm(nm, q, p)
     [] lang = "qc" -> Qc(nm, q)
     [] lang = "quipper" -> Quipper(nm, q, p)
     [] lang = "qsim" -> Qsim(nm, q, p)

RECURSIVE ElabStmts(_, _, _)
ElabOne(p, s, at) ==          \* at[r]: the qubits register r stands for
   LET whole == {k \in 1..Len(s.args) : s.args[k][2] = -1}
       dim == IF whole = {} THEN 1 ELSE Len(at[s.args[CHOOSE k \in whole : TRUE][1]])
       qs(j) == [k \in 1..Len(s.args) |-> IF k \in whole THEN at[s.args[k][1]][j] ELSE at[s.args[k][1]][s.args[k][2] + 1]]
       one(j) == LET q == TLCEval(qs(j))
                     x == FoldLeft(LAMBDA a, k : a \o G1("XPhase", <<q[k]>>, <<HalfN>>), <<>>, s.neg)
                 IN IF s.def > 0 THEN ElabStmts(p, p.defs[s.def].body, TLCEval([k \in 1..Len(q) |-> <<q[k]>>]))
                    ELSE x \o Builtin(p.lang, s.nm, q, TLCEval([k \in 1..Len(s.ps) |-> ExprIdx(s.ps[k])])) \o x
   IN FoldLeft(LAMBDA a, j : a \o one(j), <<>>, [j \in 1..dim |-> j])
ElabStmts(p, ss, at) == FoldLeft(LAMBDA a, s : a \o ElabOne(p, s, at), <<>>, ss)

ProgCircuit(p) ==
   LET tot(k) == FoldLeft(LAMBDA a, i : a + p.regs[i], 0, [i \in 1..k |-> i])
       at == TLCEval([r \in 1..Len(p.regs) |-> [i \in 1..p.regs[r] |-> tot(r - 1) + i]])
   IN [n |-> tot(Len(p.regs)), gates |-> ElabStmts(p, p.stmts, at)]
=============================================================================
