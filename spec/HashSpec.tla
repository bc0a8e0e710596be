------------------------------ MODULE HashSpec ------------------------------
(***************************************************************************)
(* Hashing and randomness, exactly: expand_message_xmd and the suite       *)
(* secp256k1_XMD:SHA-256_SSWU_RO_ of RFC 9380, seeds, the ChaCha20         *)
(* generator, random scalars, and the random oracle's framing.             *)
(***************************************************************************)
EXTENDS ProtoBase
ZPad == HRep("00", 64)
N1(i) == HNum(ToString(i), 1)
N2(i) == HNum(ToString(i), 2)
N4(i) == HNum(ToString(i), 4)
XmdMax == 255 * 32
DstPrime(dst) == LET d == IF HLen(dst) >= 256 THEN Sha256(HCat(HAscii("H2C-OVERSIZE-DST-"), dst)) ELSE dst IN HCat(d, N1(HLen(d)))
RECURSIVE XmdGo(_, _, _, _, _, _)
XmdGo(b0, prev, dp, i, ell, acc) == IF i > ell THEN HCatAll(acc)
  ELSE LET b == Sha256(HCatAll(<<IF i = 1 THEN b0 ELSE HXor(b0, prev), N1(i), dp>>)) IN XmdGo(b0, b, dp, i + 1, ell, Append(acc, b))
Xmd(msg, dst, len) ==
  LET dp == DstPrime(dst)  b0 == Sha256(HCatAll(<<ZPad, msg, N2(len), "00", dp>>))
  IN HSub(XmdGo(b0, "", dp, 1, (len + 31) \div 32, << >>), 0, len)
XmdLen(len) == len >= 0 /\ len <= XmdMax

Pieces(b, n, k) == [i \in 1..n |-> HSub(b, (i - 1) * k, i * k)]
HashScalars(n, msg, dst) == MapSeq(ScRed, Pieces(Xmd(msg, dst, 48 * n), n, 48))
HashFields(n, msg, dst) == MapSeq(FeRed, Pieces(Xmd(msg, dst, 48 * n), n, 48))

\* simplified SWU for the 3-isogenous curve y^2 = x^3 + A x + B, Z = -11 (RFC 9380, 6.6.2 and 8.7)
EA == "3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533"
EB == FeRed("06eb")
EZ == FeNeg(FeRed("0b"))
FCub(x) == FeMul(x, FeMul(x, x))
GE(x) == FeAdd(FeAdd(FCub(x), FeMul(EA, x)), EB)
Sswu(u) ==
  LET zu2 == FeMul(EZ, FeMul(u, u))
      tv == FeInv(FeAdd(FeMul(zu2, zu2), zu2))
      x1 == IF tv = ScZero THEN FeMul(EB, FeInv(FeMul(EZ, EA))) ELSE FeMul(FeMul(FeNeg(EB), FeInv(EA)), FeAdd(ScOne, tv))
      x == IF FeIsSq(GE(x1)) THEN x1 ELSE FeMul(zu2, x1)
      y == FeSqrt(GE(x))
  IN <<x, IF FeOdd(u) # FeOdd(y) THEN FeNeg(y) ELSE y>>
\* the 3-isogeny to secp256k1 (RFC 9380, E.1)
K1 == <<"8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7", "07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581",
        "534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262", "8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c">>
K2 == <<"d35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b", "edadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14", ScOne>>
K3 == <<"4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c", "c75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3",
        "29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931", "2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84">>
K4 == <<"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b", "7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573",
        "6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f", ScOne>>
RECURSIVE FePoly(_, _)
FePoly(k, x) == IF k = << >> THEN ScZero ELSE FeAdd(Head(k), FeMul(x, FePoly(Tail(k), x)))
Iso(p) == PtXY(FeMul(FePoly(K1, p[1]), FeInv(FePoly(K2, p[1]))), FeMul(p[2], FeMul(FePoly(K3, p[1]), FeInv(FePoly(K4, p[1])))))
MapCurve(u) == Iso(Sswu(u))
HashPoint(msg, dst) == LET u == HashFields(2, msg, dst) IN PtAdd(MapCurve(u[1]), MapCurve(u[2]))

XmdOk(e) == IF XmdLen(e.len) THEN Ok(e) /\ e.val = Xmd(e.msg, e.dst, e.len) ELSE Err(e)
H2cOk(e) ==
  CASE e.f = "point" -> Ok(e) /\ e.val = HashPoint(e.msg, e.dst) /\ PtOk(e.val)
    [] e.f = "scalar" -> Ok(e) /\ e.val = HashScalars(1, e.msg, e.dst)[1]
    [] e.f = "scalars" -> IF e.n >= 0 /\ XmdLen(48 * e.n) THEN Ok(e) /\ Lst(e, "val") = HashScalars(e.n, e.msg, e.dst) ELSE Err(e)
    [] e.f = "fields" -> IF e.n >= 0 /\ XmdLen(48 * e.n) THEN Ok(e) /\ Lst(e, "val") = HashFields(e.n, e.msg, e.dst) ELSE Err(e)
    [] e.f = "map" -> Ok(e) /\ e.val = MapCurve(e.u) /\ e.u2 = e.u
    [] e.f = "vector" -> Ok(e) /\ e.val = e.want /\ e.want = HashPoint(e.msg, e.dst)

\* ------------------------------------------------------ seeds and streams ---
SFrom(value, dom) == Xmd(value, dom, 32)
Key(v, skip) == HSub(ChaCha20(v, skip + 32), skip, skip + 32)
RECURSIVE SeedOf(_, _)
SeedOf(v, ch) == IF ch = << >> THEN v
  ELSE LET c == Head(ch) IN
       SeedOf(CASE c.t = "bytes" -> SFrom(c.v, HAscii("ic-crypto-seed-from-bytes"))
                [] c.t = "new" -> SFrom(c.v, c.dom)
                [] c.t = "derive" -> SFrom(v, c.dom)
                [] c.t = "rng" -> SFrom(Key(v, c.skip), HAscii("ic-crypto-seed-from-rng"))
                [] c.t = "stream" -> SFrom(Key(v, c.skip), HAscii("ic-crypto-seed-from-randomness")), Tail(ch))
RdLen(r) == CASE r.f = "u32" -> 4 [] r.f = "u64" -> 8 [] r.f = "fill" -> r.n [] r.f \in {"xor", "xorself"} -> HLen(r.src)
RECURSIVE RdTotal(_)
RdTotal(rs) == IF rs = << >> THEN 0 ELSE RdLen(Head(rs)) + RdTotal(Tail(rs))
\* what the reads rs of one generator give, from position pos of its stream
RECURSIVE RdOut(_, _, _)
RdOut(st, pos, rs) == IF rs = << >> THEN << >>
  ELSE LET r == Head(rs) n == RdLen(r) b == HSub(st, pos, pos + n) IN <<IF r.f \in {"xor", "xorself"} THEN HXor(b, r.src) ELSE b>> \o RdOut(st, pos + n, Tail(rs))
\* reads of several generators made from the same seed, interleaved
RngOk(e) ==
  LET v == SeedOf("", e.seed)  rs == Lst(e, "reads")
      of(h) == SelectSeq(rs, LAMBDA r : r.h = h)
      before(j) == Cardinality({i \in 1..j : rs[i].h = rs[j].h})
      outs == [h \in {r.h : r \in Range(rs)} |-> RdOut(ChaCha20(v, RdTotal(of(h))), 0, of(h))]
  IN Ok(e) /\ Lst(e, "vals") = [j \in 1..Len(rs) |-> outs[rs[j].h][before(j)]]
RECURSIVE FirstSc(_, _)
FirstSc(b, i) == IF ScCanon(HSub(b, 32 * i, 32 * i + 32)) THEN i ELSE FirstSc(b, i + 1)
ScRandOk(e) == LET k == FirstSc(e.stream, 0) IN Ok(e) /\ e.val = HSub(e.stream, 32 * k, 32 * k + 32) /\ e.used = 32 * (k + 1)
ScSeedOk(e) == LET b == ChaCha20(SeedOf("", e.seed), 128) IN LET k == FirstSc(b, 0) IN Ok(e) /\ e.val = HSub(b, 32 * k, 32 * k + 32)

\* ---------------------------------------------------------- random oracle ---
\* the oracle's state: separator and named inputs, kept as [n, ty, v]
Ty == [bytes |-> 1, int |-> 2, point |-> 3, scalar |-> 4]
Named(o, n) == \E j \in 1..Len(o.in) : o.in[j].n = n
RECURSIVE InsName(_, _)
InsName(x, s) == IF s = << >> THEN <<x>> ELSE IF HCmp(x.n, Head(s).n) < 0 THEN <<x>> \o s ELSE <<Head(s)>> \o InsName(x, Tail(s))
Frame(x) == HCatAll(<<N1(HLen(x.n)), x.n, N1(x.ty), N4(HLen(x.v)), x.v>>)
RoInput(o) == HCatAll(MapSeq(Frame, o.in))        \* o.in is kept in the order of names
AddOne(o, n, ty, v) == IF Named(o, n) \/ n = "" \/ HLen(n) > 255 THEN [ok |-> FALSE, o |-> o] ELSE [ok |-> TRUE, o |-> [o EXCEPT !.in = InsName([n |-> n, ty |-> ty, v |-> v], @)]]
RECURSIVE AddMany(_, _, _, _)
AddMany(o, n, vs, i) == IF i > Len(vs) THEN [ok |-> TRUE, o |-> o]
  ELSE LET r == AddOne(o, HCat(n, HAscii("[" \o ToString(i - 1) \o "]")), Ty.point, HCat("01", vs[i])) IN IF r.ok THEN AddMany(r.o, n, vs, i + 1) ELSE r
RoNewStep(s, e) == R(Ok(e), Put(s, e.out, [sep |-> e.sep, in |-> << >>]))
RoAddStep(s, e) ==
  LET o == s.o[e.ro]
      r == CASE e.t = "bytes" -> AddOne(o, e.name, Ty.bytes, e.v)
             [] e.t = "long" -> AddOne(o, e.name, Ty.bytes, HRep(e.v, e.n))
             [] e.t \in {"u32", "u64"} -> AddOne(o, e.name, Ty.int, HNum(e.v, 8))
             [] e.t = "point" -> AddOne(o, e.name, Ty.point, HCat("01", e.v))
             [] e.t = "scalar" -> AddOne(o, e.name, Ty.scalar, HCat("01", e.v))
             [] e.t = "points" -> AddMany(o, e.name, Lst(e, "v"), 1)
             [] e.t = "raw" -> AddOne(o, e.name, e.ty, e.v)
  IN R(IF r.ok THEN Ok(e) ELSE Err(e), Put(s, e.ro, r.o))
RoOutOk(s, e) ==
  LET o == s.o[e.ro]  m == RoInput(o)  cd == HCat(o.sep, HAscii("-secp256k1")) IN
  IF o.in = << >> THEN Err(e)
  ELSE CASE e.t = "bytes" -> IF XmdLen(e.n) THEN Ok(e) /\ e.val = Xmd(m, o.sep, e.n) ELSE Err(e)
         [] e.t = "scalar" -> Ok(e) /\ e.val = HashScalars(1, m, cd)[1]
         [] e.t = "scalars" -> IF e.n >= 0 /\ XmdLen(48 * e.n) THEN Ok(e) /\ Lst(e, "val") = HashScalars(e.n, m, cd) ELSE Err(e)
         [] e.t = "point" -> Ok(e) /\ e.val = HashPoint(m, cd)
HashOps == {"xmd", "h2c", "rng", "sc.random", "sc.fromseed", "ro.new", "ro.add", "ro.out"}
HashStep(s, e) ==
  CASE e.op = "xmd" -> R(XmdOk(e), s) [] e.op = "h2c" -> R(H2cOk(e), s) [] e.op = "rng" -> R(RngOk(e), s)
    [] e.op = "sc.random" -> R(ScRandOk(e), s) [] e.op = "sc.fromseed" -> R(ScSeedOk(e), s)
    [] e.op = "ro.new" -> RoNewStep(s, e) [] e.op = "ro.add" -> RoAddStep(s, e) [] e.op = "ro.out" -> R(RoOutOk(s, e), s)
=============================================================================
