--------------------------------- MODULE Alg ---------------------------------
(***************************************************************************)
(* What the curve package must compute: arithmetic of scalars, field       *)
(* elements and points (C32, C33), and their encodings (C30, C31).         *)
(* Each operator XxOk(e) says whether the recorded call e (arguments and   *)
(* results) is one the specification allows.                               *)
(***************************************************************************)
EXTENDS ShamirK

\* ------------------------------------------------------------- scalars ---
ScBin(f, a, b) == CASE f = "add" -> ScAdd(a, b) [] f = "sub" -> ScSub(a, b) [] f = "mul" -> ScMul(a, b)
ScUn(f, a) == CASE f = "inv" -> ScInv(a) [] f = "neg" -> ScNeg(a) [] OTHER -> a
FeBin(f, a, b) == CASE f = "add" -> FeAdd(a, b) [] f = "sub" -> FeSub(a, b) [] f = "mul" -> FeMul(a, b)
FeUn(f, a) == CASE f = "inv" -> FeInv(a) [] f = "neg" -> FeNeg(a) [] f = "sq" -> FeMul(a, a)
                [] f = "sqrt" -> (IF FeIsSq(a) THEN FeSqrt(a) ELSE ScZero) [] OTHER -> a
PtBin(f, a, b) == IF f = "add" THEN PtAdd(a, b) ELSE PtSub(a, b)
PtUn(f, a) == IF f = "dbl" THEN PtAdd(a, a) ELSE a

\* receiver and operands may be the same object
BinOk(e, v) == LET al == Get(e, "alias", "new") IN
  /\ Ok(e) /\ e.out = v /\ e.self = v
  /\ e.a2 = (IF al \in {"lhs", "same"} THEN v ELSE e.a)
  /\ (al # "same" => e.b2 = (IF al = "rhs" THEN v ELSE e.b))
Snd(e) == IF Get(e, "alias", "new") = "same" THEN e.a ELSE e.b

ScBinOk(e) == BinOk(e, ScBin(e.f, e.a, Snd(e)))
ScUnOk(e) == LET v == ScUn(e.f, e.a) IN
  Ok(e) /\ e.out = v /\ e.a2 = (IF Get(e, "alias", "new") = "self" THEN v ELSE e.a)
ScPredOk(e) == Ok(e) /\ e.eq = Bit(e.a = e.b) /\ e.zero = Bit(e.a = ScZero) /\ e.high = ScHigh(e.a)
               /\ e.ser = e.a /\ e.tag = HCat("01", e.a) /\ e.big = e.a
ScDecOk(e) == LET
    b == e.b
    acc == CASE e.f \in {"raw", "mega"} -> ScCanon(b)
             [] e.f \in {"tagged", "cbor"} -> HLen(b) = 33 /\ HByte(b, 0) = 1 /\ ScCanon(HSub(b, 1, 33))
             [] e.f = "wide" -> HLen(b) <= 64
    v == CASE e.f \in {"raw", "mega"} -> b [] e.f \in {"tagged", "cbor"} -> HSub(b, 1, 33) [] e.f = "wide" -> ScRed(b)
  IN IF acc THEN Ok(e) /\ e.out = v /\ e.back = v ELSE Err(e)
ScRoundOk(e) == Ok(e) /\ \A k \in {"raw", "tagged", "cbor", "sbytes", "sraw", "mega"} : e[k] = e.a
ScNodeOk(e) == Ok(e) /\ e.out = NodeSc(e.i)
ScConstOk(e) == Ok(e) /\ e.zero = ScZero /\ e.one = ScOne

\* ------------------------------------------------------- field elements ---
FeBinOk(e) == BinOk(e, FeBin(e.f, e.a, e.b))
FeUnOk(e) == LET v == FeUn(e.f, e.a) IN
  Ok(e) /\ e.a2 = (IF Get(e, "alias", "new") = "self" THEN v ELSE e.a)
  /\ (e.f = "sqrt" => e.flag = Bit(FeIsSq(e.a)))
  /\ (IF e.f = "sqrt" /\ FeIsSq(e.a) THEN e.out \in {v, FeNeg(v)} ELSE e.out = v)
FePredOk(e) == Ok(e) /\ e.eq = Bit(e.a = e.b) /\ e.zero = Bit(e.a = ScZero) /\ e.sign = Bit(FeOdd(e.a))
               /\ e.ser = e.a /\ e.c0 = e.a /\ e.c1 = e.b
FeDecOk(e) == LET acc == IF e.f = "wide" THEN HLen(e.b) <= 64 ELSE FeCanon(e.b)
  IN IF acc THEN Ok(e) /\ e.out = FeRed(e.b) ELSE Err(e)

\* --------------------------------------------------------------- points ---
PtBinOk(e) == BinOk(e, PtBin(e.f, e.a, Snd(e)))
PtUnOk(e) == LET v == PtUn(e.f, e.a) IN Ok(e) /\ e.out = v /\ e.a2 = (IF Get(e, "alias", "new") = "self" THEN v ELSE e.a)
PtMulOk(e) == LET v == PtMul(e.p, e.k) IN
  Ok(e) /\ e.out = v /\ e.k2 = e.k /\ e.p2 = (IF Get(e, "alias", "new") = "self" THEN v ELSE e.p)
PtNodeOk(e) == Ok(e) /\ e.out = PtMul(e.p, NodeSc(e.i)) /\ e.p2 = e.p
PtLinOk(e) == Ok(e) /\ e.out = PtMSum(<<e.p, e.q>>, <<e.a, e.b>>) /\ e.ped = PtMSum(<<PtG, PtH>>, <<e.a, e.b>>)
              /\ e.mulg = PtMul(PtG, e.a) /\ e.p2 = e.p /\ e.q2 = e.q
PtPredOk(e) == Ok(e) /\ e.eq = Bit(e.a = e.b) /\ e.eq2 = Bit(e.a = e.b) /\ e.inf = (e.a = PtId)
               /\ e.ser = e.a /\ e.tag = HCat("01", e.a)
               /\ (e.a # PtId => /\ e.x = PtX(e.a) /\ e.y = PtY(e.a) /\ e.unc = HCatAll(<<"04", PtX(e.a), PtY(e.a)>>))
PtConstOk(e) == Ok(e) /\ e.g = PtG /\ e.h = PtH /\ e.id = PtId

\* the set of byte strings that encode a point, and the point they encode
Strict(b) == HLen(b) = 33 /\ PtOk(b)
AnyDec(b) ==   \* the point, or "none"
  CASE b = "00" -> PtId
    [] HLen(b) = 33 /\ HByte(b, 0) \in {2, 3} -> (IF PtOk(b) THEN b ELSE "none")
    [] HLen(b) = 33 /\ HByte(b, 0) = 5 -> (LET c == HCat("02", HSub(b, 1, 33)) IN IF PtOk(c) THEN c ELSE "none")
    [] HLen(b) = 65 /\ HByte(b, 0) = 4 ->
         (LET x == HSub(b, 1, 33) y == HSub(b, 33, 65) IN IF OnCurve(x, y) THEN PtXY(x, y) ELSE "none")
    [] OTHER -> "none"
PtDecoded(f, b) ==
  CASE f \in {"strict", "mega"} -> (IF Strict(b) THEN b ELSE "none")
    [] f = "any" -> AnyDec(b)
    [] f \in {"tagged", "cbor"} -> (IF HLen(b) = 34 /\ HByte(b, 0) = 1 /\ Strict(HSub(b, 1, 34)) THEN HSub(b, 1, 34) ELSE "none")
    [] f = "fields" -> AnyDec(HCat("04", b))
PtDecOk(e) == LET v == PtDecoded(e.f, e.b) IN IF v = "none" THEN Err(e) ELSE Ok(e) /\ e.out = v
PtRoundOk(e) == Ok(e) /\ \A k \in {"raw", "tagged", "cbor", "mega", "unc", "fields"} : e[k] = e.a

\* An encoded point: a tag and as many coordinate bytes as the tag announces (SEC 1; not necessarily a point
\* of the curve).  e carries everything the container reports; b is the encoding it must stand for.
EncLen(b) == IF b = "" THEN -1 ELSE LET t == HByte(b, 0) IN CASE t = 0 -> 1 [] t \in {2, 3, 5} -> 33 [] t = 4 -> 65 [] OTHER -> -1
EncX(b) == IF HByte(b, 0) = 0 THEN "" ELSE HSub(b, 1, 33)
EncY(b) == IF HByte(b, 0) = 4 THEN HSub(b, 33, 65) ELSE ""
EncComp(b) == IF HByte(b, 0) = 4 THEN HCat(IF HByte(EncY(b), 31) % 2 = 1 THEN "03" ELSE "02", EncX(b)) ELSE b
EncIs(e, b) == LET t == HByte(b, 0) IN
     /\ e.bytes = b /\ e.str = b /\ e.again = b
     /\ e.tagv = t /\ e.ctag = t /\ e.len = EncLen(b) /\ e.x = EncX(b) /\ e.y = EncY(b)
     /\ e.iscompact = (t = 5) /\ e.iscompressed = (t \in {2, 3}) /\ e.isidentity = (t = 0)
     /\ e.comp = EncComp(b) /\ e.compx = EncX(b) /\ e.compy = "" /\ e.compstr = EncComp(b) /\ e.compcomp = EncComp(b)
EncDecOk(e) == IF e.via \in {"odd", "junk"} \/ HLen(e.b) # EncLen(e.b) THEN Err(e) ELSE Ok(e) /\ EncIs(e, e.b)
EncAffOk(e) == Ok(e) /\ LET u == HCatAll(<<"04", e.ax, e.ay>>) IN EncIs(e, IF e.compress THEN EncComp(u) ELSE u)
EncUntOk(e) == Ok(e) /\ EncIs(e, HCat("04", e.b))
EncSelOk(e) == Ok(e) /\ EncIs(e, IF e.choice = 0 THEN e.a ELSE e.b) /\ e.a2 = e.a /\ e.b2 = e.b
EncConstOk(e) == Ok(e) /\ EncIs(e, "00")
EncOk(e) == CASE e.op = "enc.dec" -> EncDecOk(e) [] e.op = "enc.aff" -> EncAffOk(e) [] e.op = "enc.unt" -> EncUntOk(e)
              [] e.op = "enc.sel" -> EncSelOk(e) [] e.op = "enc.const" -> EncConstOk(e)
EncOps == {"enc.dec", "enc.aff", "enc.unt", "enc.sel", "enc.const"}

AlgOk(e) ==
  CASE e.op = "sc.bin" -> ScBinOk(e) [] e.op = "sc.un" -> ScUnOk(e) [] e.op = "sc.pred" -> ScPredOk(e)
    [] e.op = "sc.dec" -> ScDecOk(e) [] e.op = "sc.round" -> ScRoundOk(e) [] e.op = "sc.node" -> ScNodeOk(e)
    [] e.op = "sc.const" -> ScConstOk(e)
    [] e.op = "fe.bin" -> FeBinOk(e) [] e.op = "fe.un" -> FeUnOk(e) [] e.op = "fe.pred" -> FePredOk(e) [] e.op = "fe.dec" -> FeDecOk(e)
    [] e.op = "pt.bin" -> PtBinOk(e) [] e.op = "pt.un" -> PtUnOk(e) [] e.op = "pt.mul" -> PtMulOk(e) [] e.op = "pt.node" -> PtNodeOk(e)
    [] e.op = "pt.lin" -> PtLinOk(e) [] e.op = "pt.pred" -> PtPredOk(e) [] e.op = "pt.const" -> PtConstOk(e)
    [] e.op = "pt.dec" -> PtDecOk(e) [] e.op = "pt.round" -> PtRoundOk(e) [] e.op \in EncOps -> EncOk(e)
AlgOps == {"sc.bin", "sc.un", "sc.pred", "sc.dec", "sc.round", "sc.node", "sc.const", "fe.bin", "fe.un", "fe.pred", "fe.dec",
           "pt.bin", "pt.un", "pt.mul", "pt.node", "pt.lin", "pt.pred", "pt.const", "pt.dec", "pt.round"} \cup EncOps
=============================================================================
