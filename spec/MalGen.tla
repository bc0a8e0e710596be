------------------------------- MODULE MalGen -------------------------------
(***************************************************************************)
(* Malformed objects and bytes, given to every operation that receives     *)
(* something from a peer.                                                  *)
(***************************************************************************)
EXTENDS ProtoLib
Rx(step) == [op |-> "rx", step |-> step]
RxP(what, step) == [op |-> "rx", what |-> what, step |-> step]
RxM(step) == [op |-> "rx", must |-> TRUE, step |-> step]
Mal(out, t0, from, what, r) == [op |-> "mal", out |-> out, t0 |-> t0, from |-> from, what |-> what] @@ r
MalIdx == << "0", "3", "-1", "-2147483648", "2147483647", "2147483648", "4294967296", "-9223372036854775808", "9223372036854775807" >>
DealMal == << "same", "comempty", "comemptykind", "comid", "comlong", "comone", "comsum", "comint", "ctempty", "ctone", "ctlong", "ctzero", "ctkind", "ephid", "popid", "headid", "popproofzero", "proofnone", "proofzero" >>
OpenMal == << "none", "S", "P", "Sptr", "Pptr" >>
CompMal == << "same", "proofzero", "ssid" >>
SigMal == << "one", "zero", "rzero", "szero" >>

\* a good round of the type, one dealing replaced by a malformed one, and everything a receiver may do with it
MalSc(typ, j) ==
  LET l == "M" \o typ \o S(j)  n == 3  t == 2  ad == "61"
      x == RP(l \o "x", 2)  y == RP(l \o "y", 2)  m == RP(l \o "m", 2)  is == <<"0", "1", "2">>
      v(p, i) == Eval(p, NodeSc(i))
      past == CASE typ = "rand" -> << >> [] typ = "unm" -> << MkTr("p1", "int", "S", x, << >>, 2) >> [] typ = "msk" -> << MkTr("p1", "sum", "P", x, m, 2) >>
                [] typ = "mul" -> << MkTr("p1", "int", "S", x, << >>, 2), MkTr("p2", "sum", "P", y, m, 2) >>
      sec(i) == CASE typ = "rand" -> [t |-> "rand"] [] typ = "unm" -> [t |-> "unm", s1 |-> v(x, i)] [] typ = "msk" -> [t |-> "msk", s1 |-> v(x, i), s2 |-> v(m, i)] [] typ = "mul" -> [t |-> "mul", s1 |-> v(x, i), s2 |-> v(y, i), s3 |-> v(m, i)]
      tr == TrR(typ, "")
      k == IF typ \in {"rand", "mul"} THEN "P" ELSE "S"
      ds(nm) == << <<"0", nm>>, <<"1", "d1">>, <<"2", "d2">> >>
      good == ds("d0")
      opsR == << tr, [t |-> "rand"], [t |-> "unm", p1 |-> "s1"], [t |-> "msk", p1 |-> "q1"], [t |-> "mul", p1 |-> "s1", p2 |-> "q1"] >>
      op(dd, g, w) == [op |-> "open", out |-> "", ds |-> dd, tr |-> "t", given |-> g, with |-> w, ad |-> ad, idx |-> "1", key |-> "k1"]
      os == << <<"1", "o1">>, <<"2", "o2">> >>
      recv(nm, what) ==
        << RxP(what, Pub(nm, tr, t, "0", n, ad)), Rx(Pub(nm, tr @@ [wrap |-> TRUE], t, "0", n, ad)) >>
        \o MapSeq(LAMBDA o : Rx(Pub(nm, o, t, "0", n, ad)), Tail(opsR)) \o << Rx(Pub(nm, tr, 0, "0", 0, ad)), Rx(Pub(nm, tr, 300, "0", 300, ad)), Rx(Pub(nm, tr, -1, "-1", -1, ad)) >>
        \o Flat(MapSeq(LAMBDA i : << Rx(Priv(nm, "k1", ad, "0", i)), Rx(OpenD(nm, "k1", ad, "0", i)) >>, <<"1", "2", "299", "-1">>))
        \o (IF what \in {"ctnone", "none"} THEN << >> ELSE Flat(MapSeq(LAMBDA i : << Rx(CtDec(nm, "k1", ad, "0", i)), Rx(CtOwn(nm, "k1", "k1", ad, "0", i)) >>, <<"1", "2", "299", "-1">>)) \o << Rx(Valid(nm, n, ad, "0")), Rx(Valid(nm, -1, ad, "-1")) >>)
        \o Flat(MapSeq(LAMBDA o : << Rx([op |-> "tr", out |-> "", ds |-> ds(nm), tr |-> o, thr |-> t]), Rx([op |-> "tr", out |-> "", ds |-> << <<"0", nm>> >>, tr |-> o, thr |-> 1]), Rx([op |-> "tr", out |-> "", ds |-> << <<"0", "d0">>, <<"1", nm>> >>, tr |-> o, thr |-> t]) >>, opsR))
        \o << Rx(op(ds(nm), << >>, FALSE)), Rx(op(ds(nm), << <<"0", os>> >>, TRUE)), Rx([op |-> "recon", d |-> nm, ops |-> os, idx |-> "0", out |-> ""]), Rx([op |-> "recon", d |-> nm, ops |-> << >>, idx |-> "0", out |-> ""]),
              Rx(Cmpl("", ds(nm), "k1", "1", ad, l)), Rx([op |-> "complain1", out |-> "", d |-> nm, dealer |-> "0", idx |-> "1", key |-> "k1", ad |-> ad, seed |-> RBytes(l)]),
              Rx(CVer("c", nm, "0", "1", "k1", ad)), Rx(CVer("c", nm, "0", "299", "k1", ad)) >>
      wrongk == IF typ \in {"msk"} THEN "mul" ELSE "msk"
      ex(w) == IF w \in {"proofnilin", "proofempty", "prooftypednil", "proofvalue", "proofzero"} THEN << <<w, [t |-> "msk"]>>, <<w, [t |-> "mul"]>> >> ELSE << <<w, None>> >>
      mals == Flat(MapSeq(ex, DealMal))
      \* two malformations in one dealing
      two == LET a == RP(l, 0) IN << <<"comid", "ctempty">>, <<"headid", "comone">>, <<"proofnone", "ctkind">>, <<"comsum", "comsum">>, <<"comint", "proofnone">>, <<"ctzero", "comid">>, <<"ctone", "comempty">>, <<"comempty", "proofempty">> >>
  IN Scen("mal-" \o typ \o "-" \o S(j), KeysE("k", l, n) \o past \o << MkTr("s1", "int", "S", RP(l \o "s", 2), << >>, 2), MkTr("q1", "sum", "P", RP(l \o "q", 2), RP(l \o "r", 2), 2) >>
       \o MapSeq(LAMBDA i : DealE("d" \o i, sec(i), t, Nm("k", n), i, ad, l \o i), is)
       \o << [op |-> "tr", out |-> "t", ds |-> good, tr |-> tr, thr |-> t] >>
       \o MapSeq(LAMBDA i : [op |-> "opendeal", d |-> "d0", key |-> "k" \o i, ad |-> ad, dealer |-> "0", idx |-> i, out |-> "o" \o i], is)
       \o << ModE("d0", "b", "ct", [i |-> 1, dv |-> D1, dm |-> ScZero]), [op |-> "complain1", out |-> "c", d |-> "b", dealer |-> "0", idx |-> "1", key |-> "k1", ad |-> ad, seed |-> RBytes(l)], CVer("c", "b", "0", "1", "k1", ad) >>
       \* malformed dealings
       \o Flat([i \in 1..Len(mals) |-> << Mal("m" \o S(i), "deal", "d0", mals[i][1], [t |-> typ] @@ mals[i][2]) >> \o recv("m" \o S(i), mals[i][1])])
       \o Flat([i \in 1..Len(two) |-> << Mal("w" \o S(i) \o "a", "deal", "d0", two[i][1], [t |-> typ]), Mal("w" \o S(i), "deal", "w" \o S(i) \o "a", two[i][2], [t |-> typ]) >> \o recv("w" \o S(i), two[i][1])])
       \* malformed openings
       \o Flat([i \in 1..Len(OpenMal) |-> LET o == "O" \o S(i) IN << Mal(o, "opening", "", OpenMal[i], None) >>
            \o MapSeq(LAMBDA g : Rx([op |-> "recon", d |-> "d0", ops |-> g, idx |-> "0", out |-> ""]), << << <<"0", o>>, <<"1", "o1">> >>, << <<"1", "o1">>, <<"2", o>> >>, << <<"0", o>> >>, << <<"0", o>>, <<"1", o>>, <<"2", o>> >>, << <<"-1", o>>, <<"1", "o1">> >> >>)
            \o MapSeq(LAMBDA g : Rx(op(ds("b"), g, TRUE)), << << <<"0", << <<"0", o>>, <<"1", "o1">> >>>> >>, << <<"0", << <<"0", o>>, <<"1", o>> >>>> >>, << <<"-5", << <<"0", o>> >>>>, <<"0", << <<"1", "o1">>, <<"2", o>> >>>> >> >>) ])
       \* malformed complaints
       \o Flat([i \in 1..Len(CompMal) |-> << Mal("C" \o S(i), "complaint", "c", CompMal[i], None), Rx(CVer("C" \o S(i), "b", "0", "1", "k1", ad)), Rx(CVer("C" \o S(i), "d0", "0", "1", "k1", ad)), Rx(CVer("C" \o S(i), "b", "0", "0", "k0", ad)) >>
            \o (IF CompMal[i] = "same" THEN << >> ELSE << RxM(CVer("C" \o S(i), "b", "0", "1", "k1", ad)) >>)])
       \* indices
       \o Flat(MapSeq(LAMBDA i : << Rx(Pub("d0", tr, t, i, n, ad)), Rx(Priv("d0", "k1", ad, "0", i)), Rx(Priv("d0", "k1", ad, i, "1")), Rx(OpenD("d0", "k1", ad, "0", i)), Rx(OpenD("d0", "k1", ad, i, "1")), Rx(CtDec("d0", "k1", ad, "0", i)), Rx(CtDec("d0", "k1", ad, i, "1")), Rx(CtOwn("d0", "k1", "k1", ad, "0", i)), Rx(CtOwn("d0", "k1", "k1", ad, i, "1")),
            Rx(CVer("c", "b", "0", i, "k1", ad)), Rx(CVer("c", "b", i, "1", "k1", ad)), Rx([Cmpl("", good, "k1", i, ad, l) EXCEPT !.idx = i]), Rx([op |-> "complain1", out |-> "", d |-> "d0", dealer |-> i, idx |-> i, key |-> "k1", ad |-> ad, seed |-> RBytes(l)]),
            Rx([op |-> "tr", out |-> "", ds |-> << <<i, "d0">>, <<"1", "d1">>, <<"2", "d2">> >>, tr |-> tr, thr |-> t]), Rx([op(good, << >>, FALSE) EXCEPT !.idx = i]), Rx(op(<< <<i, "d0">>, <<"1", "d1">>, <<"2", "d2">> >>, << >>, FALSE)), Rx([op |-> "recon", d |-> "d0", ops |-> << <<i, "o0">>, <<"1", "o1">> >>, idx |-> i, out |-> ""]),
            Rx(DealE("", sec("0"), t, Nm("k", n), i, ad, l)) >>, MalIdx)))
MalSig(j) ==
  LET l == "MS" \o S(j)  is == <<"0", "1", "2">>  c == Cx("", <<"01">>, RBytes(l \o "h"), RBytes(l \o "r"))
      shs == Flat([i \in 1..Len(OpenMal) |-> << Mal("n" \o S(i), "share", "s0", "", [num |-> OpenMal[i]]), Mal("e" \o S(i), "share", "s0", "", [den |-> OpenMal[i]]), Mal("b" \o S(i), "share", "s0", "", [num |-> OpenMal[i], den |-> OpenMal[i]]) >>])
      nms == Flat([i \in 1..Len(OpenMal) |-> << "n" \o S(i), "e" \o S(i), "b" \o S(i) >>])
      cb(ss, thr) == Rx(CombE("", ss, thr, FALSE, c))
      sg == Flat([i \in 1..Len(SigMal) |-> << Mal("g" \o S(i), "sig", "", SigMal[i], None), RxM(SigVer("g" \o S(i), c)) >>])
  IN Scen("mal-sig-" \o S(j), SigSetup("", l, 2, is, RSc(l \o "x"), RSc(l \o "kap")) \o MapSeq(LAMBDA i : ShareE("s" \o i, "", i, c), is) \o shs
       \o Flat(MapSeq(LAMBDA x : << Rx(ShVer(x, "", "0", c)), cb(<< <<"0", x>>, <<"1", "s1">> >>, 2), cb(<< <<"1", "s1">>, <<"2", x>> >>, 2), cb(<< <<"0", x>> >>, 1), cb(<< <<"0", x>> >>, 0) >>, nms))
       \o << cb(<< >>, 0) >> \o Flat(MapSeq(LAMBDA i : << cb(<< <<i, "s0">>, <<"1", "s1">> >>, 2), Rx(ShVer("s0", "", i, c)) >>, MalIdx))
       \o Flat([i \in 1..Len(OpenMal) |-> << Mal("O" \o S(i), "opening", "", OpenMal[i], None) >> \o MapSeq(LAMBDA f : Rx([ShareE("", "", "0", c) EXCEPT ![f] = "O" \o S(i)]), <<"lam", "kl", "xl">>)]) \o sg)
\* bytes: CBOR of our own making, cut, extended, of the wrong shape
RawE(f, v) == [op |-> "raw", f |-> f, v |-> v]
CbText(t) == HCat(HNum(ToString(96 + HLen(HAscii(t))), 1), HAscii(t))
CbBytes(b) == IF HLen(b) < 24 THEN HCat(HNum(ToString(64 + HLen(b)), 1), b) ELSE HCat(HCat("58", HNum(ToString(HLen(b)), 1)), b)
RECURSIVE CatAll(_)
CatAll(x) == IF x = << >> THEN "" ELSE HCat(Head(x), CatAll(Tail(x)))
CbArr(xs) == HCat(HNum(ToString(128 + Len(xs)), 1), CatAll(xs))
CbMap(tag, curve, kind, msg) == CatAll(<< "a3", CbText("CurveType"), curve, CbText(tag), kind, CbText("Message"), msg >>)
TPt(p) == CbBytes(HCat("01", p))
TSc(v) == CbBytes(HCat("01", v))
Elems == << TPt(PtG), TPt(PtId), TPt(PtH), "f6", "f7", "40", "4101", "410a", "60", "00", "20", "80", "a0", "f5", "f97e00", CbBytes(PtG), CbBytes(HCat("02", PtG)), CbBytes(HCat(HCat("01", PtG), "00")), CbBytes(HCat("01", HSub(PtG, 0, 32))), CbBytes(HCat("01", HCat("02", HRep("ff", 32)))), TSc(ScOne), TSc(HRep("ff", 32)), TSc(ScZero),
            CbBytes(HCat("01", HSub(ScOne, 1, 32))), CbArr(<<"01", "18ff">>), "5f4101ff", "d9d9f7f6", "c249010000000000000000" >>
Msgs == MapSeq(LAMBDA x : CbArr(<<x>>), Elems) \o MapSeq(LAMBDA x : CbArr(<<TPt(PtG), x>>), Elems) \o MapSeq(LAMBDA x : CbArr(<<TSc(ScOne), x>>), Elems) \o MapSeq(LAMBDA x : CbArr(<<x, TSc(ScOne), TSc(ScOne)>>), Elems)
        \o << "80", "f6", "f7", "a0", "40", "60", "00", "9fff", "9f40ff", "9bffffffffffffffff", "9a00ffffff", "5bffffffffffffffff", "bf", "ff", "d81880", CbArr(<<CbArr(<<TPt(PtG)>>)>>), "" >> \o Elems
CbKinds == <<"01", "02">>
Odd == << <<"01", "00">>, <<"01", "03">>, <<"01", "20">>, <<"01", "f6">>, <<"01", "60">>, <<"01", "1bffffffffffffffff">>, <<"00", "01">>, <<"02", "01">>, <<"18ff", "01">>, <<"1901", "00">>, <<"190101", "01">>, <<"f6", "01">>, <<"20", "02">>, <<"4101", "02">> >>
Forms(tag) == Flat(MapSeq(LAMBDA k : MapSeq(LAMBDA m : CbMap(tag, "01", k, m), Msgs), CbKinds)) \o MapSeq(LAMBDA o : CbMap(tag, o[1], o[2], CbArr(<<TPt(PtG)>>)), Odd) \o MapSeq(LAMBDA o : CbMap(tag, o[1], o[2], CbArr(<<TSc(ScOne)>>)), Odd)
Shells == << "", "a0", "f6", "f7", "80", "60", "00", "ff", "a1", "a161", "9f", "bf", "5f", "bfff", "9fff", "a36943757272656e7401", "d9d9f7a0", "5b7fffffffffffffff", "9b7fffffffffffffff", "bb7fffffffffffffff", HRep("81", 64), HRep("9f", 300), HRep("81", 2000), HCat(HRep("c1", 100), "00"), "a1f600", "a16143f6", "83010203" >>
Cuts(b, l, n) == [i \in 1..n |-> HSub(b, 0, RInt(L(l, i), HLen(b)))] \o [i \in 1..n |-> LET q == RInt(L(l \o "q", i), HLen(b)) IN HCat(HCat(HSub(b, 0, q), HSub(RBytes(L(l, i)), 0, 1)), HSub(b, q + 1, HLen(b)))] \o << HCat(b, "00"), HCat(b, b) >>
Rand(l, n, m) == [i \in 1..n |-> RLong(L(l, i), RInt(L(l \o "n", i), m))]
ComB(k) == CbMap("CommitmentType", "01", k, CbArr(<<TPt(PtG), TPt(PtH)>>))
OpB(k) == CbMap("CommitType", "01", k, IF k = "01" THEN CbArr(<<TSc(ScOne)>>) ELSE CbArr(<<TSc(ScOne), TSc(NM1)>>))
Lens == << 0, 1, 2, 31, 32, 33, 34, 35, 63, 64, 65, 66, 97, 255, 256, 300 >>
Simple(l) == Flat(MapSeq(LAMBDA n : << HRep("00", n), HRep("ff", n), HRep("01", n), HCat("02", HRep("01", n)), HCat("04", HRep("01", n)), HCat("01", HCat("02", HRep("01", n))), RLong(L(l, n), n) >>, Lens)) \o << PtG, PtId, HCat("01", PtG), HCat("01", PtId), HCat("00", PtG), HCat("ff", PtG), ScOne, HCat("01", ScOne), NM1 >>
RawAll(zz) == MapSeq(LAMBDA v : RawE("commitment", v), Forms("CommitmentType") \o Shells \o Cuts(ComB("01"), "c1", Times(60, 1000)) \o Cuts(ComB("02"), "c2", Times(60, 1000)) \o Rand("cr", Times(50, 1000), 90) \o Forms("CommitType"))
   \o MapSeq(LAMBDA v : RawE("opening", v), Forms("CommitType") \o Shells \o Cuts(OpB("01"), "o1", Times(60, 1000)) \o Cuts(OpB("02"), "o2", Times(60, 1000)) \o Rand("or", Times(50, 1000), 90) \o Forms("CommitmentType"))
   \o Flat(MapSeq(LAMBDA f : MapSeq(LAMBDA v : RawE(f, v), Simple(f)), <<"point", "pointtag", "scalar", "scalartag", "pubkey", "privkey", "master">>))
RawCurve(zz) == Flat(MapSeq(LAMBDA c : Flat(MapSeq(LAMBDA f : MapSeq(LAMBDA v : [op |-> "rawcurve", f |-> f, curve |-> c, v |-> v], << "", PtG, ScOne, PtId >>), <<"point", "scalar", "pubkey", "privkey">>)), <<0, 2, 3, 7, 255>>))
MalScs(zz) == Flat([y \in 1..4 |-> [j \in 1..Times(1, 3) |-> MalSc(Typs[y], j)]]) \o [j \in 1..Times(1, 3) |-> MalSig(j)] \o Cut("raw", RawAll(0) \o RawCurve(0), 200, 1)
ASSUME Write(CASE IOEnv.FAM = "mal" -> MalScs(0))
=============================================================================
