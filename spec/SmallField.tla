----------------------------- MODULE SmallField -----------------------------
(***************************************************************************)
(* A field of Q elements in place of the scalars and the group of formal   *)
(* sums a*G + b*H in place of the curve: nobody knows a relation between G *)
(* and H.  The protocol's modules are instantiated over it and checked     *)
(* exhaustively.  An x-coordinate is the same for P and -P.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Q
F == 0..(Q - 1)
ScZero == 0
ScOne == 1
ScAdd(a, b) == (a + b) % Q
ScSub(a, b) == (a - b + Q) % Q
ScMul(a, b) == (a * b) % Q
ScNeg(a) == (Q - a) % Q
ScInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in F : (a * b) % Q = 1
ScHigh(a) == 2 * a > Q
PtId == <<0, 0>>
PtG == <<1, 0>>
PtH == <<0, 1>>
PtAdd(p, q) == <<(p[1] + q[1]) % Q, (p[2] + q[2]) % Q>>
PtNeg(p) == <<(Q - p[1]) % Q, (Q - p[2]) % Q>>
PtMul(p, k) == <<(p[1] * k) % Q, (p[2] * k) % Q>>
PtXSc(p) == IF 2 * p[1] > Q THEN Q - p[1] ELSE p[1]
NodeSc(i) == (i + 1) % Q
IdxPos(i, n) == IF i < n THEN i + 1 ELSE 0
PtSub(p, q) == PtAdd(p, PtNeg(q))
INSTANCE Zk
\* all sequences of n elements of S
SeqN(S, n) == [1..n -> S]
Last(s) == s[Len(s)]
=============================================================================
