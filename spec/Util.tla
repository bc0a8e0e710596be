-------------------------------- MODULE Util --------------------------------
(* Small operators shared by the generators and the trace checker.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K256

Has(e, k) == k \in DOMAIN e
Get(e, k, d) == IF Has(e, k) THEN e[k] ELSE d
\* JSON has no way to tell an empty sequence from an empty record
Seq0(x) == IF x = "" \/ x = << >> THEN << >> ELSE x
Lst(e, k) == IF ~Has(e, k) THEN << >> ELSE IF DOMAIN e[k] = {} THEN << >> ELSE e[k]
Ok(e)  == e.res = "ok"
Err(e) == e.res = "err"
Bit(b) == IF b THEN 1 ELSE 0

MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE SeqSum(_)
SeqSum(s) == IF s = << >> THEN 0 ELSE Head(s) + SeqSum(Tail(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Range(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* decimal strings of natural numbers (node indices do not fit TLC's integers)
IdxLt(a, b) == HCmp(HNum(a, 8), HNum(b, 8)) < 0
RECURSIVE InsIdx(_, _)
InsIdx(x, s) == IF s = << >> THEN <<x>> ELSE IF IdxLt(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o InsIdx(x, Tail(s))
RECURSIVE SortIdx(_)
SortIdx(s) == IF s = << >> THEN << >> ELSE InsIdx(Head(s), SortIdx(Tail(s)))
=============================================================================
