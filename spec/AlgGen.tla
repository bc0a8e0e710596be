------------------------------- MODULE AlgGen -------------------------------
(* Calls of the curve package: boundary values crossed with each other and *)
(* with pseudo-random values, every aliasing of receiver and operands.     *)
EXTENDS Gen

ScAll == ScEdge \o ScShort \o Rands(RSc, "sc", Times(3, 40))
FeAll == FeEdge \o << FeRed(HSub(RBytes("fs"), 0, 20)) >> \o Rands(RFe, "fe", Times(3, 40))
PtAll == PtEdge \o Rands(RPt, "pt", Times(3, 24))

ScBins == [k \in 1..(Len(ScAll) * Len(ScAll) * 3) |->
   LET p == Triples(ScAll, ScAll, <<"add", "sub", "mul">>)[k]
       al == <<"new", "lhs", "rhs">>[1 + (k % 3)]
   IN [op |-> "sc.bin", f |-> p[3], a |-> p[1], b |-> p[2], alias |-> al]]
ScAliases == MapSeq(LAMBDA p : [op |-> "sc.bin", f |-> p[2], a |-> p[1], b |-> p[1], alias |-> "same"], Pairs(ScAll, <<"add", "sub", "mul">>))
     \o MapSeq(LAMBDA p : [op |-> "sc.bin", f |-> p[3], a |-> p[1][1], b |-> p[1][2], alias |-> p[2]],
               Triples(Pairs(<<ScOne, RSc("u"), NM1>>, <<ScDec("2"), RSc("v"), ScZero>>), <<"new", "lhs", "rhs">>, <<"add", "sub", "mul">>))
ScUns == MapSeq(LAMBDA p : [op |-> "sc.un", f |-> p[2], a |-> p[1], alias |-> p[3]], Triples(ScAll, <<"inv", "neg", "assign", "clone">>, <<"new", "self">>))
ScPreds == MapSeq(LAMBDA p : [op |-> "sc.pred", a |-> p[1], b |-> p[2]], Pairs(ScAll, <<ScZero, ScOne, NM1>>))
     \o MapSeq(LAMBDA a : [op |-> "sc.pred", a |-> a, b |-> a], ScAll)
ScArith == ScBins \o ScAliases \o ScUns \o ScPreds \o MapSeq(LAMBDA i : [op |-> "sc.node", i |-> i], Idx) \o << [op |-> "sc.const"] >>

FeBins == MapSeq(LAMBDA p : [op |-> "fe.bin", f |-> p[3], a |-> p[1], b |-> p[2]], Triples(FeAll, FeAll, <<"add", "sub", "mul">>))
     \o MapSeq(LAMBDA p : [op |-> "fe.bin", f |-> p[3], a |-> p[1], b |-> RFe("x"), alias |-> p[2]], Triples(FeAll, <<"lhs", "rhs">>, <<"add", "sub", "mul">>))
FeUns == MapSeq(LAMBDA p : [op |-> "fe.un", f |-> p[2], a |-> p[1], alias |-> p[3]],
                Triples(FeAll, <<"inv", "neg", "sq", "sqrt", "assign", "clone">>, <<"new", "self">>))
     \o MapSeq(LAMBDA a : [op |-> "fe.un", f |-> "sqrt", a |-> FeMul(a, a), alias |-> "new"], FeAll)
FePreds == MapSeq(LAMBDA p : [op |-> "fe.pred", a |-> p[1], b |-> p[2]], Pairs(FeAll, <<ScZero, ScOne, FPM1>>))
     \o MapSeq(LAMBDA a : [op |-> "fe.pred", a |-> a, b |-> a], FeAll)
FeArith == FeBins \o FeUns \o FePreds

Reps == <<"aff", "proj">>
PtBins == MapSeq(LAMBDA p : [op |-> "pt.bin", f |-> p[3], a |-> p[1], b |-> p[2], alias |-> "new", rep |-> "aff"], Triples(PtAll, PtAll, <<"add", "sub">>))
     \o MapSeq(LAMBDA p : [op |-> "pt.bin", f |-> p[3], a |-> p[1][1], b |-> p[1][2], alias |-> p[2], rep |-> "proj"],
               Triples(Pairs(PtEdge \o <<RPt("pa")>>, <<PtId, PtG, PtNeg(PtG), RPt("pb")>>), <<"new", "lhs", "rhs">>, <<"add", "sub">>))
     \o MapSeq(LAMBDA p : [op |-> "pt.bin", f |-> p[2], a |-> p[1], b |-> p[1], alias |-> "same", rep |-> "proj"], Pairs(PtAll, <<"add", "sub">>))
PtUns == MapSeq(LAMBDA p : [op |-> "pt.un", f |-> p[2], a |-> p[1], alias |-> p[3][1], rep |-> p[3][2]],
                Triples(PtAll, <<"dbl", "assign", "clone">>, Pairs(<<"new", "self">>, Reps)))
PtMuls == MapSeq(LAMBDA p : [op |-> "pt.mul", p |-> p[1], k |-> p[2], alias |-> p[3], rep |-> "aff"], Triples(PtEdge \o <<RPt("pm")>>, ScEdge \o <<RSc("km")>>, <<"new", "self">>))
     \o MapSeq(LAMBDA p : [op |-> "pt.mul", p |-> p[1], k |-> p[2], alias |-> "new", rep |-> "proj"], Pairs(PtAll, Rands(RSc, "kp", Times(3, 30)) \o <<ScZero, ScOne, NM1>>))
PtNodes == MapSeq(LAMBDA p : [op |-> "pt.node", p |-> p[1], i |-> p[2], rep |-> p[3]], Triples(<<PtId, PtG, RPt("pn")>>, Idx, Reps))
\* the same base twice, or a base and its negation; scalars that fit in 64 bits, nearly so, or wrap together
Sc64 == << ScDec("1"), ScDec("9223372036854775808"), ScDec("18446744073709551615"), ScDec("18446744073709551616"), ScDec("340282366920938463463374607431768211455"), NM1 >>
PtSame == MapSeq(LAMBDA p : [op |-> "pt.lin", p |-> p[1], q |-> IF p[2] = "same" THEN p[1] ELSE PtNeg(p[1]), a |-> p[3][1], b |-> p[3][2]], Triples(<<PtG, RPt("l3")>>, <<"same", "neg">>, Pairs(Sc64, Sc64)))
PtLins == PtSame \o MapSeq(LAMBDA p : [op |-> "pt.lin", p |-> p[1], q |-> p[2], a |-> p[3][1], b |-> p[3][2]],
                 Triples(<<PtId, PtG, PtH, RPt("l1")>>, <<PtId, PtG, PtNeg(PtG), RPt("l2")>>, Pairs(<<ScZero, ScOne, NM1, RSc("la")>>, <<ScZero, NM1, RSc("lb")>>)))
PtPreds == MapSeq(LAMBDA p : [op |-> "pt.pred", a |-> p[1], b |-> p[2], rep |-> p[3]], Triples(PtAll, <<PtId, PtG, PtNeg(PtG), RPt("pt.1")>>, Reps))
PtArith == PtBins \o PtUns \o PtMuls \o PtNodes \o PtLins \o PtPreds \o << [op |-> "pt.const"] >>

\* ------------------------------------------------------------- decoding ---
NHex == HCat(HSub(NM1, 0, 31), "41")                    \* the order itself
NP1 == HCat(HSub(NM1, 0, 31), "42")
PHex == HCat(HSub(FPM1, 0, 31), "2f")                   \* the field prime
PP1 == HCat(HSub(FPM1, 0, 31), "30")
FF == HRep("ff", 32)
ScBytes == << "", "00", "01", "0100", HRep("00", 31), HRep("00", 32), HRep("00", 33), NHex, NP1, NM1, PHex, FF, HCat("00", NM1), HCat(NM1, "00"),
              HRep("ff", 31), HRep("ff", 33), HRep("ff", 63), HRep("ff", 64), HRep("ff", 65), HCat(NHex, HRep("00", 32)), HCat("01", HRep("00", 63)),
              HCat("01", HRep("00", 32)), HRep("7f", 48), HRep("00", 64), HRep("00", 65), RLong("a", 33), RLong("b", 48), RLong("c", 64), RLong("d", 65), RLong("e", 100), RBytes("f"), RBytes("g") >>
           \o ScEdge \o Rands(LAMBDA l : RLong(l, RInt(l, 70)), "len", Times(15, 200))
Hx2(n) == LET h == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">> IN h[1 + (n \div 16)] \o h[1 + (n % 16)]
Bytes256 == [i \in 1..256 |-> Hx2(i - 1)]
ScDecs == Flat(MapSeq(LAMBDA b : << [op |-> "sc.dec", f |-> "tagged", b |-> HCat(b, RSc("tag"))], [op |-> "sc.dec", f |-> "cbor", b |-> HCat(b, RSc("tag"))] >>, Bytes256)) \o MapSeq(LAMBDA p : [op |-> "sc.dec", f |-> p[2], b |-> p[1]], Pairs(ScBytes, <<"raw", "tagged", "wide", "cbor", "mega">>))
     \o MapSeq(LAMBDA p : [op |-> "sc.dec", f |-> p[2][1], b |-> HCat(p[2][2], p[1])], Pairs(<<ScZero, ScOne, NM1, NHex, FF, RSc("t")>>, Pairs(<<"tagged", "cbor">>, <<"00", "01", "02", "ff", "0101">>)))
     \o MapSeq(LAMBDA a : [op |-> "sc.round", a |-> a], ScAll)
FeDecs == MapSeq(LAMBDA p : [op |-> "fe.dec", f |-> p[2], b |-> p[1]], Pairs(ScBytes \o <<PP1, FPM1>>, <<"raw", "wide">>))

\* x coordinates on and off the curve
XTry == Rands(RFe, "x", Times(12, 100)) \o << ScZero, ScOne, FeRed("02"), FeRed("03"), FeRed("04"), FeRed("05"), FPM1, PHex, PP1, FF,
          PtX(PtG), PtX(PtH), FeAdd(PtX(PtG), ScOne), HCat(HRep("ff", 31), "2e") >>
GX == PtX(PtG)
GY == PtY(PtG)
R1 == RPt("dec1")
YOneX == "1fe1e5ef3fceb5c135ab7741333ce5a6e80d68167653f6b2b24bcbcfaaaff507"   \* with y = 1; and y = p + 1 is not canonical
\* a small x on the curve (1), and the same value plus the prime: a non-canonical x
PtBytes == MapSeq(LAMBDA p : HCat(p[2], p[1]), Pairs(XTry, <<"00", "01", "02", "03", "04", "05", "06", "07">>))
     \o << "", "00", "01", "02", "03", "04", "05", "0000", HRep("00", 32), HRep("00", 33), HRep("00", 34), HRep("00", 65), HCat(HRep("00", 32), "01"), HCat("01", HRep("00", 32)), HRep("ff", 33),
           HCat(PtG, "00"), HSub(PtG, 0, 32), HCatAll(<<"04", GX, GY>>), HCatAll(<<"04", GX, FeNeg(GY)>>), HCatAll(<<"04", GY, GX>>), HCatAll(<<"04", GX, FeAdd(GY, ScOne)>>),
           HCatAll(<<"04", PtX(R1), PtY(R1)>>), HCatAll(<<"04", PtX(R1), GY>>), HCatAll(<<"04", HRep("00", 64)>>), HCatAll(<<"04", YOneX, ScOne>>), HCatAll(<<"04", YOneX, PP1>>), HCatAll(<<"04", GX, GY, "00">>), HCatAll(<<"04", GX, HSub(GY, 0, 31)>>),
           HCatAll(<<"02", GX, GY>>), HCatAll(<<"03", GX, GY>>), HCatAll(<<"06", GX, GY>>), HCatAll(<<"07", GX, GY>>), HCatAll(<<"05", GX, GY>>), HCatAll(<<"00", GX, GY>>),
           HCatAll(<<"04", FF, FF>>), HCatAll(<<"04", ScOne, FeSqrt(FeRed("08"))>>), HCatAll(<<"04", PP1, FeSqrt(FeRed("08"))>>), HCat("02", PP1), HCat("02", ScOne) >>
     \o Rands(LAMBDA l : RLong(l, RInt(l, 70)), "plen", Times(10, 200))
PtDecs == Flat(MapSeq(LAMBDA b : << [op |-> "pt.dec", f |-> "tagged", b |-> HCat(b, PtG)], [op |-> "pt.dec", f |-> "cbor", b |-> HCat(b, R1)], [op |-> "pt.dec", f |-> "any", b |-> HCat(b, PtX(R1))], [op |-> "pt.dec", f |-> "any", b |-> HCatAll(<<b, GX, GY>>)], [op |-> "pt.dec", f |-> "strict", b |-> HCat(b, GX)] >>, Bytes256)) \o MapSeq(LAMBDA p : [op |-> "pt.dec", f |-> p[2], b |-> p[1]], Pairs(PtBytes, <<"strict", "any", "tagged", "cbor", "mega">>))
     \o MapSeq(LAMBDA p : [op |-> "pt.dec", f |-> p[2][1], b |-> HCat(p[2][2], p[1])],
               Pairs(<<PtId, PtG, PtH, R1, HCat("02", FF), HCat("00", GX), HSub(PtG, 0, 32), HCat(PtG, "00")>>, Pairs(<<"tagged", "cbor">>, <<"00", "01", "02", "ff", "0101">>)))
     \o MapSeq(LAMBDA b : [op |-> "pt.dec", f |-> "fields", b |-> b],
               << HCat(YOneX, ScOne), HCat(YOneX, PP1), HCat(GX, GY), HCat(GX, FeNeg(GY)), HCat(GY, GX), HCat(PtX(R1), PtY(R1)), HRep("00", 64), HRep("ff", 64), HCat(PP1, FeSqrt(FeRed("08"))), HCat(ScOne, FeSqrt(FeRed("08"))) >>)
     \o MapSeq(LAMBDA p : [op |-> "pt.round", a |-> p[1], rep |-> p[2]], Pairs(PtAll \o Rands(RPt, "rnd", Times(12, 100)), Reps))

\* ------------------------------------------------- encoded points (container) ---
CoX == << GX, PtX(R1), ScZero, ScOne, FF, PHex, RBytes("cx"), HCat(HRep("00", 31), "02") >>
CoY == << GY, FeNeg(GY), ScZero, ScOne, FF, PHex, HCat(HRep("ff", 31), "00"), RBytes("cy1"), RBytes("cy2") >>
Encs == << "00", PtG, PtNeg(PtG), HCatAll(<<"04", GX, GY>>), HCatAll(<<"04", GX, FeNeg(GY)>>), HCat("05", GX), HCat("02", FF), HCatAll(<<"04", FF, ScOne>>) >>
EncScen == MapSeq(LAMBDA p : [op |-> "enc.dec", b |-> p[1], via |-> p[2]], Pairs(PtBytes \o Encs, <<"bytes", "lower", "upper", "odd", "junk">>))
     \o MapSeq(LAMBDA p : [op |-> "enc.aff", ax |-> p[1], ay |-> p[2], compress |-> p[3]], Triples(CoX, CoY, <<TRUE, FALSE>>))
     \o MapSeq(LAMBDA p : [op |-> "enc.unt", b |-> HCat(p[1], p[2])], Pairs(CoX, CoY))
     \o MapSeq(LAMBDA p : [op |-> "enc.sel", a |-> p[1], b |-> p[2], choice |-> p[3]], Triples(Encs, Encs, <<0, 1>>))
     \o MapSeq(LAMBDA f : [op |-> "enc.const", f |-> f], <<"identity", "default">>)

AlgScen(f) ==
  CASE f = "sc" -> Cut("sc", ScArith, 40, 1)
    [] f = "fe" -> Cut("fe", FeArith, 40, 1)
    [] f = "pt" -> Cut("pt", PtArith, 40, 1)
    [] f = "scdec" -> Cut("scdec", ScDecs \o FeDecs, 40, 1)
    [] f = "ptdec" -> Cut("ptdec", PtDecs, 40, 1)
    [] f = "encpt" -> Cut("encpt", EncScen, 40, 1)
AlgFams == {"sc", "fe", "pt", "scdec", "ptdec", "encpt"}
ASSUME Write(AlgScen(IOEnv.FAM))
=============================================================================
