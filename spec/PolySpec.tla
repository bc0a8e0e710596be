------------------------------ MODULE PolySpec ------------------------------
(* What the poly package must compute (C22, C26, C27, C28, C29).           *)
EXTENDS ShamirK

PolyBinOk(e) == LET
    a == Lst(e, "a")  al == Get(e, "alias", "new")
    b == IF al = "same" THEN a ELSE Lst(e, "b")
    k == Len(e.out)
    v == IF e.f = "add" THEN PolyAdd(a, b) ELSE PolyMul(a, b)
  IN Ok(e) /\ Len(v) <= k /\ e.out = Pad(v, k) /\ e.self = Pad(v, k) /\ e.nz = Len(v) /\ e.iszero = Bit(v = << >>)
     /\ e.a2 = (IF al \in {"lhs", "same"} THEN Pad(v, k) ELSE Pad(a, k))
     /\ (al # "same" => e.b2 = (IF al = "rhs" THEN Pad(v, k) ELSE Pad(b, k)))
PolyMulScOk(e) == LET a == Lst(e, "a") k == Len(e.out) v == Pad(PolyScale(a, e.x), k) IN
  Ok(e) /\ e.out = v /\ e.x2 = e.x /\ e.a2 = (IF Get(e, "self", FALSE) THEN v ELSE Pad(a, k))
PolyEvalOk(e) == Ok(e) /\ e.out = Eval(Lst(e, "a"), e.x) /\ e.again = e.out /\ e.x2 = e.x /\ Lst(e, "a2") = Lst(e, "a")
PolyPredOk(e) == LET a == Trim(Lst(e, "a")) b == Trim(Lst(e, "b")) IN
  Ok(e) /\ e.eq = Bit(a = b) /\ e.eq2 = Bit(a = b) /\ e.nz = Len(a) /\ e.iszero = Bit(a = << >>)
PolyInterpOk(e) == LET xs == Lst(e, "xs") ys == Lst(e, "ys") IN
  IF NoDup(xs) THEN Ok(e) /\ e.out = Pad(InterpPoly(xs, ys), Len(xs) + 2) /\ Lst(e, "xs2") = xs /\ Lst(e, "ys2") = ys ELSE Err(e)
\* random polynomials: the coefficients are the generator's next values
PolyRandOk(e) == LET
    c == Get(e, "c", "")  n == e.n
    k == IF c = "" THEN n ELSE n - 1
    stream == ChaCha20(e.key, 32 * (IF k < 0 THEN 0 ELSE k) + 8)
    co(i) == HSub(stream, 32 * (i - 1), 32 * i)
  IN IF c # "" /\ n = 0 THEN Err(e)
     ELSE /\ Ok(e)
          /\ e.out = (IF c = "" THEN [i \in 1..n |-> co(i)] ELSE <<c>> \o [i \in 1..k |-> co(i)]) \o <<ScZero, ScZero>>
          /\ e.next = HSub(stream, 32 * k, 32 * k + 8)

Xs(nodes) == [i \in 1..Len(nodes) |-> NodeSc(nodes[i])]
LagAtOk(e) == LET xs == Xs(Lst(e, "nodes")) IN
  IF xs = << >> \/ ~NoDup(xs) THEN Err(e)
  ELSE Ok(e) /\ e.out = Lag(xs, e.x) /\ (e.x = ScZero => e.zero = e.out /\ e.eq = 1)
LagInterpOk(e) == LET xs == Xs(Lst(e, "nodes")) ys == Lst(e, "ys") ps == Lst(e, "ps") IN
  IF ~NoDup(xs) \/ xs = << >> \/ Len(ys) # Len(xs) THEN Err(e)
  ELSE Ok(e) /\ e.sc = InterpSc(xs, ys, e.x) /\ e.pt = InterpPt(xs, ps, e.x) /\ e.ys2 = ys /\ e.ps2 = ps /\ e.sc2 = e.sc
LagCmpOk(e) == LET a == Lst(e, "a") b == Lst(e, "b") IN IF a = << >> \/ b = << >> THEN Err(e) ELSE Ok(e) /\ e.eq = Bit(a = b)

CmCreateOk(e) == LET a == Lst(e, "a") b == IF e.kind = "P" THEN Lst(e, "b") ELSE << >> n == e.n IN
  IF Len(Trim(a)) > n \/ Len(Trim(b)) > n THEN Err(e)
  ELSE Ok(e) /\ e.len = n /\ e.com.k = e.kind /\ Lst(e.com, "p") = (IF e.kind = "S" THEN ComS(a, n) ELSE ComP(a, b, n))
CmEvalOk(e) == Ok(e) /\ e.out = EvalCom(e.ps, NodeSc(e.i)) /\ e.again = e.out /\ e.c0 = e.ps[1] /\ e.ps2 = e.ps
               /\ e.cl = [k |-> e.kind, p |-> e.ps]
CmCheckOk(e) == LET v == e.okind # "none" /\ Opens([k |-> e.kind, p |-> e.ps], NodeSc(e.i), [k |-> e.okind, v |-> e.v, m |-> e.m]) IN
  Ok(e) /\ e.out = v /\ e.ret = v /\ e.is /\ (v => e.val = [k |-> e.okind, v |-> e.v, m |-> IF e.okind = "S" THEN "" ELSE e.m])
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CmCmpOk(e) == LET same == e.k1 = e.k2 /\ e.p1 = e.p2 IN
  Ok(e) /\ e.eq = Bit(same) /\ e.eq2 = Bit(same) /\ (e.r1 = e.r2) = same
  /\ Sgn(e.cmp) = HCmp(e.r1, e.r2) /\ Sgn(e.cmp2) = HCmp(e.r2, e.r1)
\* an encoding decodes to what was encoded; an altered one to an error
\* (nohook: the decoder could not be reached)
CmRoundOk(e) == IF Ok(e) /\ Has(e, "nohook") THEN TRUE ELSE IF e.mut = "none" THEN Ok(e) /\ e.com = [k |-> e.kind, p |-> e.ps] /\ e.same /\ e.eq = 1
  ELSE IF e.mut = "append" /\ Ok(e) THEN e.com = [k |-> e.kind, p |-> e.ps]
  ELSE IF Ok(e) THEN e.skipped ELSE Err(e)
OpRoundOk(e) == IF e.mut = "none" THEN Ok(e) /\ e.val = [k |-> e.okind, v |-> e.v, m |-> IF e.okind = "S" THEN "" ELSE e.m] /\ e.same
  ELSE IF e.mut = "append" /\ Ok(e) THEN e.val = [k |-> e.okind, v |-> e.v, m |-> IF e.okind = "S" THEN "" ELSE e.m]
  ELSE IF Ok(e) THEN e.skipped ELSE Err(e)

PolyOps == {"poly.bin", "poly.mulsc", "poly.eval", "poly.pred", "poly.interp", "poly.rand", "lag.at", "lag.interp", "lag.cmp",
            "cm.create", "cm.eval", "cm.check", "cm.cmp", "cm.round", "op.round"}
PolyOk(e) ==
  CASE e.op = "poly.bin" -> PolyBinOk(e) [] e.op = "poly.mulsc" -> PolyMulScOk(e) [] e.op = "poly.eval" -> PolyEvalOk(e)
    [] e.op = "poly.pred" -> PolyPredOk(e) [] e.op = "poly.interp" -> PolyInterpOk(e) [] e.op = "poly.rand" -> PolyRandOk(e)
    [] e.op = "lag.at" -> LagAtOk(e) [] e.op = "lag.interp" -> LagInterpOk(e) [] e.op = "lag.cmp" -> LagCmpOk(e)
    [] e.op = "cm.create" -> CmCreateOk(e) [] e.op = "cm.eval" -> CmEvalOk(e) [] e.op = "cm.check" -> CmCheckOk(e)
    [] e.op = "cm.cmp" -> CmCmpOk(e) [] e.op = "cm.round" -> CmRoundOk(e) [] e.op = "op.round" -> OpRoundOk(e)
=============================================================================
