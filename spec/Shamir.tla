------------------------------- MODULE Shamir -------------------------------
(***************************************************************************)
(* Polynomials over the scalar field, Lagrange interpolation and           *)
(* polynomial commitments, over any field and group.  Instantiated over    *)
(* secp256k1 (ShamirK) to judge the code and over a small field (FqMC) to  *)
(* check the laws below exhaustively.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
CONSTANTS ScZero, ScOne, ScAdd(_, _), ScSub(_, _), ScMul(_, _), ScInv(_), PtId, PtG, PtH, PtAdd(_, _), PtMul(_, _)

At(c, i) == IF i <= Len(c) THEN c[i] ELSE ScZero
RECURSIVE Trim(_)
Trim(c) == IF c # << >> /\ c[Len(c)] = ScZero THEN Trim(SubSeq(c, 1, Len(c) - 1)) ELSE c
Pad(c, k) == [i \in 1..k |-> At(c, i)]
MaxN(a, b) == IF a > b THEN a ELSE b

RECURSIVE EvalFrom(_, _, _)
EvalFrom(c, x, i) == IF i > Len(c) THEN ScZero ELSE ScAdd(c[i], ScMul(x, EvalFrom(c, x, i + 1)))
Eval(c, x) == EvalFrom(c, x, 1)

PolyAdd(a, b) == Trim([i \in 1..MaxN(Len(a), Len(b)) |-> ScAdd(At(a, i), At(b, i))])
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > k THEN ScZero ELSE ScAdd(ScMul(At(a, i), At(b, k + 1 - i)), Conv(a, b, k, i + 1))
PolyMul(a, b) == IF a = << >> \/ b = << >> THEN << >> ELSE Trim([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, 1)])
PolyScale(a, x) == Trim([i \in 1..Len(a) |-> ScMul(a[i], x)])

RECURSIVE SumSc(_)
SumSc(s) == IF s = << >> THEN ScZero ELSE ScAdd(Head(s), SumSc(Tail(s)))
RECURSIVE SumPt(_)
SumPt(s) == IF s = << >> THEN PtId ELSE PtAdd(Head(s), SumPt(Tail(s)))

\* Lagrange coefficients at x for distinct positions xs
RECURSIVE LagProd(_, _, _, _)
LagProd(xs, i, x, j) == IF j > Len(xs) THEN ScOne
  ELSE LET r == LagProd(xs, i, x, j + 1) IN
       IF j = i THEN r ELSE ScMul(ScMul(ScSub(x, xs[j]), ScInv(ScSub(xs[i], xs[j]))), r)
Lag(xs, x) == [i \in 1..Len(xs) |-> LagProd(xs, i, x, 1)]
InterpSc(xs, ys, x) == LET l == Lag(xs, x) IN SumSc([i \in 1..Len(xs) |-> ScMul(l[i], ys[i])])
InterpPt(xs, ps, x) == LET l == Lag(xs, x) IN SumPt([i \in 1..Len(xs) |-> PtMul(ps[i], l[i])])
NoDup(xs) == \A i, j \in 1..Len(xs) : xs[i] = xs[j] => i = j

\* the unique polynomial of degree below Len(xs) through the samples (Newton)
\* (by folding over the positions: the polynomial so far and the product of the X - x so far, each as a list of values)
TimesLin(b, x) == [i \in 1..(Len(b) + 1) |-> ScSub(IF i > 1 THEN b[i - 1] ELSE ScZero, IF i <= Len(b) THEN ScMul(x, b[i]) ELSE ScZero)]
AddScaled(p, b, d) == [i \in 1..Len(b) |-> ScAdd(At(p, i), ScMul(d, b[i]))]
InterpStep(xs, ys, acc, i) == << AddScaled(acc[1], acc[2], ScMul(ScSub(ys[i], Eval(acc[1], xs[i])), ScInv(Eval(acc[2], xs[i])))), TimesLin(acc[2], xs[i]) >>
InterpPoly(xs, ys) == Trim(FoldLeft(LAMBDA acc, i : InterpStep(xs, ys, acc, i), << << >>, <<ScOne>> >>, [i \in 1..Len(xs) |-> i])[1])

\* commitments
Com1(v) == PtMul(PtG, v)
Com2(v, m) == PtAdd(PtMul(PtG, v), PtMul(PtH, m))
ComS(a, n) == [i \in 1..n |-> Com1(At(a, i))]
ComP(a, b, n) == [i \in 1..n |-> Com2(At(a, i), At(b, i))]
RECURSIVE EvalComFrom(_, _, _)
EvalComFrom(ps, x, i) == IF i > Len(ps) THEN PtId ELSE PtAdd(ps[i], PtMul(EvalComFrom(ps, x, i + 1), x))
EvalCom(ps, x) == EvalComFrom(ps, x, 1)
\* an opening is a record [k |-> "S" or "P", v, m]; a commitment [k, p]
Opens(c, x, o) == /\ o.k = c.k
                  /\ EvalCom(c.p, x) = (IF c.k = "S" THEN Com1(o.v) ELSE Com2(o.v, o.m))
=============================================================================
