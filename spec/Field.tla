------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Exact arithmetic for ZX amplitudes.                                     *)
(*                                                                         *)
(* Every amplitude of a ZX(H/W)-diagram whose phases are rational          *)
(* multiples of pi lies in Z[zeta, 1/2] for a root of unity zeta.  For a   *)
(* prime P with zeta's order dividing P-1 there is a ring homomorphism     *)
(* from that ring onto the field with P elements.  The specification does  *)
(* all its arithmetic in the image: two equal amplitudes have equal        *)
(* images (so the checks can never raise an alarm on a correct program),   *)
(* and two different ones have equal images with probability about 1/P.    *)
(* Unlike floating point there is no tolerance anywhere.                   *)
(*                                                                         *)
(* A phase a*pi is represented by the integer a*(N/2) modulo N.            *)
(* P < 46341, so that products of residues fit TLC's 32-bit integers.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

P == 33601                      \* prime; P-1 = 2^6 * 3 * 5^2 * 7
N == 33600                      \* order of the chosen root of unity
G == 29                         \* a primitive root modulo P

Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P        \* TLA+'s % is never negative
Mul(a, b) == (a * b) % P
Neg(a)    == (0 - a) % P

RECURSIVE PowR(_,_)
PowR(a, k) == IF k = 0 THEN 1
              ELSE LET h == PowR(a, k \div 2) IN
                   IF k % 2 = 0 THEN (h * h) % P ELSE (((h * h) % P) * a) % P
Inv(a) == PowR(a, P - 2)

\* Ph(k) is the image of e^{2 pi i k / N}
RootLo  == TLCEval([j \in 0..199 |-> PowR(G, j)])
RootHi  == TLCEval([j \in 0..167 |-> PowR(G, 200 * j)])
Ph(k)   == (RootLo[k % 200] * RootHi[(k % N) \div 200]) % P    \* e^{i pi a}, k = a*N/2
HalfN   == N \div 2
Omega   == TLCEval(Ph(N \div 8))        \* e^{i pi/4}
ImagI   == TLCEval(Ph(N \div 4))        \* i
Sqrt2   == TLCEval(Add(Ph(N \div 8), Ph(0 - (N \div 8))))
IS2     == TLCEval(Inv(Sqrt2))          \* 1/sqrt 2
Half    == TLCEval(Inv(2))
\* sqrt(2)^k for any integer k
S2Pow(k) == IF k >= 0 THEN PowR(Sqrt2, k) ELSE PowR(IS2, 0 - k)

(* exact ring elements <<a,b,c,d,m>> = (a + b w + c w^2 + d w^3)/2^m,      *)
(* w = e^{i pi/4}                                                          *)
Ring(r) == LET w == Omega
               w2 == Mul(w, w)
               w3 == Mul(w2, w)
               s  == ((r[1] % P) + Mul(r[2] % P, w) + Mul(r[3] % P, w2)
                       + Mul(r[4] % P, w3)) % P
           IN Mul(s, PowR(Half, r[5]))

ASSUME /\ Mul(Sqrt2, Sqrt2) = 2
       /\ Mul(ImagI, ImagI) = P - 1
       /\ Ph(HalfN) = P - 1
       /\ Ph(N) = 1

SumSeq(s)  == FoldLeft(LAMBDA x, y : (x + y) % P, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA x, y : (x * y) % P, 1, s)

Pow2 == TLCEval([k \in 0..26 |-> 2^k])
=============================================================================
