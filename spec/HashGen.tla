------------------------------ MODULE HashGen ------------------------------
(* Message expansion at every block boundary, hashing to the curve with    *)
(* the map's exceptional inputs, streams read in every way, oracles whose  *)
(* inputs differ as little as possible.                                    *)
EXTENDS Gen
S(i) == ToString(i)
Dst0 == HAscii("QUUX-V01-CS02-with-secp256k1_XMD:SHA-256_SSWU_RO_")
Msgs == << "", "00", HAscii("abc"), RLong("m", 31), RLong("m", 32), RLong("m", 55), RLong("m", 56), RLong("m", 63), RLong("m", 64), RLong("m", 65), RLong("m", 200), HRep("ff", 128), HRep("61", 512) >>
Dsts == << "", "01", Dst0, RLong("d", 31), RLong("d", 32), RLong("d", 64), RLong("d", 127), RLong("d", 128), RLong("d", 254), RLong("d", 255), RLong("d", 256), RLong("d", 257), RLong("d", 511), RLong("d", 512), RLong("d", 600), RLong("d", 1000), HRep("64", 65536) >>
LongMsgs == << HRep("61", 4096), HRep("61", 65535), HRep("61", 65536), HRep("61", 70001) >>
Lens == << 0, 1, 2, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257, 511, 512, 513, 544, 1023, 1024, 8128, 8129, 8159, 8160, 8161, 8192, 8193, 65535, 65536, 65568, -1, -31, -32, -33, -8160, 1000000 >>
XmdE(m, d, n) == [op |-> "xmd", msg |-> m, dst |-> d, len |-> n]
XmdScs(zz) == Cut("xmd", MapSeq(LAMBDA m : XmdE(m, Dst0, 48), LongMsgs) \o MapSeq(LAMBDA n : XmdE(RBytes("xm"), Dst0, n), Lens) \o MapSeq(LAMBDA p : XmdE(p[1], p[2], p[3]), Triples(Msgs, Dsts, <<32, 80>>))
   \o MapSeq(LAMBDA p : XmdE("616263", p[1], p[2]), Pairs(<<"", RLong("d", 255), RLong("d", 256)>>, <<0, 1, 96, 8160, 8161, -1>>))
   \o [j \in 1..Times(60, 2000) |-> XmdE(RLong(L("xr", j), RInt(L("xa", j), 150)), RLong(L("xd", j), RInt(L("xb", j), 300)), RInt(L("xc", j), 700))], 60, 1)

\* ------------------------------------------------------ seeds and streams ---
FB(v) == [t |-> "bytes", v |-> v]
NS(v, d) == [t |-> "new", v |-> v, dom |-> d]
DV(d) == [t |-> "derive", dom |-> d]
Doms == << "", HAscii("a"), HAscii("ab"), HAscii("b"), RLong("dm", 32), RLong("dm", 255), RLong("dm", 256), RLong("dm", 400), "ff00", HAscii("ic-crypto-tecdsa-encrypt-randomness"), HAscii("ic-crypto-seed-from-bytes") >>
Fill(h, n) == [h |-> h, f |-> "fill", n |-> n]
Rd(h, f) == [h |-> h, f |-> f]
Xor(h, f, l, n) == [h |-> h, f |-> f, src |-> RLong(l, n)]
RngE(sd, rs) == [op |-> "rng", seed |-> sd, reads |-> rs]
OneRd(l, h) == LET k == RInt(l, 5) IN CASE k = 0 -> Rd(h, "u32") [] k = 1 -> Rd(h, "u64") [] k = 2 -> Fill(h, Pick(l \o "n", <<0, 1, 3, 4, 7, 8, 31, 32, 33, 63, 64, 65, 100, 130>>)) [] k = 3 -> Xor(h, "xor", l \o "x", RInt(l \o "xl", 90)) [] k = 4 -> Xor(h, "xorself", l \o "x", RInt(l \o "xl", 90))
RdSeq(l, n, hn) == [j \in 1..n |-> OneRd(L(l, j), 1 + RInt(L(l \o "h", j), hn))]
SeedCh == << <<FB("")>>, <<FB(HRep("2a", 32))>>, <<FB("00")>>, <<FB(RLong("sv", 100))>>, <<FB(RLong("sv", 127))>>, <<FB(RLong("sv", 128))>>, <<FB(RLong("sv", 129))>>, <<FB(RLong("sv", 255))>>, <<FB(RLong("sv", 256))>>, <<FB(RLong("sv", 257))>>, <<FB(RLong("sv", 1000))>>, <<FB(HRep("5a", 65536)), DV("61")>>, <<NS(RLong("sv", 300), HAscii("x"))>>, <<NS("", "")>>, <<NS(RBytes("ns"), HAscii("x"))>>, <<FB(RBytes("s1")), DV(HAscii("a"))>>, <<FB(RBytes("s1")), DV(HAscii("a")), DV(HAscii("b"))>>, <<FB(RBytes("s1")), DV(HAscii("ab"))>>,
             <<FB(RBytes("s1")), [t |-> "rng", skip |-> 0]>>, <<FB(RBytes("s1")), [t |-> "rng", skip |-> 33]>>, <<FB(RBytes("s1")), [t |-> "stream", skip |-> 0]>>, <<FB(RBytes("s1")), [t |-> "stream", skip |-> 64]>>, <<FB("61"), DV(HAscii("q")), [t |-> "rng", skip |-> 1], DV(""), [t |-> "stream", skip |-> 5], DV(HAscii("z"))>> >>
   \o MapSeq(LAMBDA d : <<FB(RBytes("s2")), DV(d)>>, Doms) \o MapSeq(LAMBDA d : <<NS(RBytes("s2"), d)>>, Doms)
SeedScs(zz) == Cut("seed", MapSeq(LAMBDA c : RngE(c, <<Fill(1, 64)>>), SeedCh) \o MapSeq(LAMBDA c : [op |-> "sc.fromseed", seed |-> c], SeedCh)
   \o MapSeq(LAMBDA c : RngE(c, <<Fill(1, 64)>>), [j \in 1..Times(10, 300) |-> <<FB(RLong(L("sa", j), RInt(L("sb", j), 80)))>> \o [i \in 1..RInt(L("sn", j), 4) |-> DV(RLong(L(L("sd", j), i), RInt(L(L("sl", j), i), 60)))]]), 30, 1)
  \o Cut("rng", << RngE(<<FB("01")>>, <<Fill(1, 32), Fill(1, 32), Fill(2, 64), Fill(1, 1), Rd(1, "u32"), Rd(1, "u64"), Rd(2, "u64"), Fill(1, 19), Xor(1, "xor", "a", 10), Xor(2, "xorself", "b", 70)>>),
        RngE(<<FB("02")>>, <<Rd(1, "u32"), Rd(1, "u32"), Rd(2, "u64"), Fill(3, 8), Xor(4, "xor", "zz", 8)>>), RngE(<<FB("03")>>, <<Fill(1, 0), Fill(1, 4096), Fill(1, 1), Xor(1, "xor", "e", 0), Rd(1, "u32")>>) >>
      \o [j \in 1..Times(40, 800) |-> RngE(Pick(L("rs", j), SeedCh), RdSeq(L("rr", j), 2 + RInt(L("rn", j), 12), 1 + (j % 3)))], 20, 1)

\* ------------------------------------------------------ hashing to curve ---
Vec(m, x, y) == [op |-> "h2c", f |-> "vector", msg |-> HAscii(m), dst |-> Dst0, want |-> PtXY(x, y)]
\* RFC 9380, J.8.1
Vecs == << Vec("", "c1cae290e291aee617ebaef1be6d73861479c48b841eaba9b7b5852ddfeb1346", "64fa678e07ae116126f08b022a94af6de15985c996c3a91b64c406a960e51067"),
           Vec("abc", "3377e01eab42db296b512293120c6cee72b6ecf9f9205760bd9ff11fb3cb2c4b", "7f95890f33efebd1044d382a01b1bee0900fb6116f94688d487c6c7b9c8371f6"),
           Vec("abcdef0123456789", "bac54083f293f1fe08e4a70137260aa90783a5cb84d3f35848b324d0674b0e3a", "4436476085d4c3c4508b60fcf4389c40176adce756b398bdee27bca19758d828") >>
\* inputs of the map where a denominator vanishes: 0 and the roots of Z^2 u^4 + Z u^2
UX == FeInv(FeRed("0b"))
US == << ScZero, ScOne, FPM1, FeRed("02"), FeRed("0b"), UX, FeNeg(UX), FeMul(FPM1, FeInv(FeRed("02"))) >> \o (IF FeIsSq(UX) THEN <<FeSqrt(UX), FeNeg(FeSqrt(UX))>> ELSE << >>) \o Rands(RFe, "us", Times(30, 1500))
   \o [j \in 1..6 |-> FeRed(HSub(RBytes(L("ushort", j)), 0, 5 * j))]
H2(f, m, d) == [op |-> "h2c", f |-> f, msg |-> m, dst |-> d]
H2n(f, n, m, d) == [op |-> "h2c", f |-> f, n |-> n, msg |-> m, dst |-> d]
SmallDst == << Dst0, "", RLong("d", 255), RLong("d", 256), RLong("d", 300) >>
H2cScs(zz) == Cut("h2c", Vecs \o MapSeq(LAMBDA u : [op |-> "h2c", f |-> "map", u |-> u], US) \o MapSeq(LAMBDA u : [op |-> "h2c", f |-> "map", u |-> FeNeg(u)], US)
   \o MapSeq(LAMBDA p : H2(p[3], p[1], p[2]), Triples(Msgs, SmallDst, <<"point", "scalar">>)) \o MapSeq(LAMBDA d : H2("point", "61", d), Dsts)
   \o MapSeq(LAMBDA p : H2n(p[1], p[2], "61", Dst0), Pairs(<<"scalars", "fields">>, <<0, 1, 2, 3, 5, 10, 64, 169, 170, 171, 1365, 1366, -1, -170>>))
   \o [j \in 1..Times(30, 600) |-> H2("point", RLong(L("hp", j), RInt(L("hq", j), 90)), RLong(L("hd", j), RInt(L("he", j), 90)))]
   \o [j \in 1..Times(20, 400) |-> H2n("scalars", 1 + (j % 6), RLong(L("hs", j), RInt(L("ht", j), 90)), RLong(L("hu", j), RInt(L("hv", j), 90)))], 50, 1)
NOrd == "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"
Blocks == << HRep("ff", 32), NOrd, HCat(HSub(NOrd, 0, 31), "42"), HRep("00", 32), ScOne, NM1, HSub(HCat(NOrd, "00"), 0, 32), HCat(HRep("ff", 16), HRep("00", 16)), HCat(HRep("ff", 31), "00") >>
ScRndScs(zz) == Cut("scrnd", MapSeq(LAMBDA p : [op |-> "sc.random", stream |-> HCatAll(<<p[1], p[2], p[3], RSc("end")>>)], Triples(Blocks, Blocks, <<HRep("ff", 32), ScOne>>)), 60, 1)

\* ---------------------------------------------------------- random oracle ---
NewO(out, sep) == [op |-> "ro.new", out |-> out, sep |-> sep]
Add(o, n, t, v) == [op |-> "ro.add", ro |-> o, name |-> n, t |-> t, v |-> v]
Raw(o, n, ty, v) == [op |-> "ro.add", ro |-> o, name |-> n, t |-> "raw", ty |-> ty, v |-> v]
OutO(o, t, n) == [op |-> "ro.out", ro |-> o, t |-> t, n |-> n]
A(x) == HAscii(x)
Sep0 == A("ic-crypto-tecdsa-test")
\* lists of inputs that differ in one place, or move a boundary
NameLens == << 1, 2, 127, 128, 254, 255 >>
ValLens == << 0, 1, 31, 32, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 65535, 65536, 65537 >>
RoList(o, l, sep) == << NewO(o, sep) >> \o l
Outs(o) == << OutO(o, "bytes", 32), OutO(o, "scalar", 0) >>
InLists == << << >>, << <<"a", "01">> >>, << <<"a", "0100">> >>, << <<"a", "">> >>, << <<"a", "00">> >>, << <<"b", "01">> >>, << <<"aa", "01">> >>, << <<"a", "01">>, <<"b", "">> >>, << <<"b", "">>, <<"a", "01">> >>, << <<"a", "">>, <<"b", "01">> >>, << <<"a", "01">>, <<"ab", "02">>, <<"b", "03">> >>, << <<"b", "03">>, <<"ab", "02">>, <<"a", "01">> >>,
   << <<"ab", "02">>, <<"a", "03">>, <<"b", "01">> >>, << <<"Z", "01">>, <<"a", "02">>, <<"z", "03">>, <<"0", "04">> >>, << <<"0", "04">>, <<"Z", "01">>, <<"z", "03">>, <<"a", "02">> >> >>
\* the frame of a second input given as part of the first value, and the like
Smuggle == << << <<"a", HCatAll(<<"01", "01", A("b"), "01", "00000001", "02">>)>> >>, << <<"a", "01">>, <<"b", "02">> >>, << <<"a", "01">>, <<"b", "02">>, <<"c", "">> >> >>
AddsOf(o, l) == MapSeq(LAMBDA x : Add(o, A(x[1]), "bytes", x[2]), l)
RoSc(j) == Scen("ro-lists-" \o S(j), LET l == InLists \o Smuggle IN Flat([i \in 1..Len(l) |-> RoList("o" \o S(i), AddsOf("o" \o S(i), l[i]), IF j = 1 THEN Sep0 ELSE Dsts[1 + ((i + j) % Len(Dsts))]) \o Outs("o" \o S(i))]))
RoLens == Scen("ro-lengths", Flat([i \in 1..Len(ValLens) |-> LET o == "v" \o S(i) IN RoList(o, << [op |-> "ro.add", ro |-> o, name |-> A("x"), t |-> "long", v |-> "5a", n |-> ValLens[i]], Add(o, A("y"), "bytes", "01") >>, Sep0) \o Outs(o)])
   \o Flat([i \in 1..Len(NameLens) |-> LET o == "n" \o S(i) IN RoList(o, << Add(o, HRep("61", NameLens[i]), "bytes", "01"), Add(o, HRep("61", NameLens[i] - 1), "bytes", "01"), Add(o, HCat(HRep("61", NameLens[i] - 1), "62"), "bytes", "02") >>, Sep0) \o Outs(o)]))
RoRefuse == Scen("ro-refused", << NewO("o", Sep0), OutO("o", "bytes", 32), OutO("o", "scalar", 0), OutO("o", "point", 0), OutO("o", "scalars", 2),
     Add("o", "", "bytes", "01"), Add("o", HRep("61", 256), "bytes", "01"), Add("o", HRep("61", 257), "bytes", "01"), Add("o", HRep("61", 65537), "bytes", "01"), Add("o", HRep("61", 512), "scalar", ScOne), Add("o", "", "point", PtG), Add("o", "", "u32", "1"), Add("o", "", "u64", "1"), OutO("o", "bytes", 32),
     Add("o", HRep("61", 255), "bytes", "01"), OutO("o", "bytes", 32), Add("o", HRep("61", 255), "bytes", "02"), OutO("o", "bytes", 32), Add("o", HRep("61", 255), "u32", "7"), OutO("o", "bytes", 32), Add("o", A("x"), "u32", "7"), Add("o", A("x"), "u64", "7"), Add("o", A("x"), "bytes", "07"), Add("o", A("x"), "scalar", ScOne), OutO("o", "bytes", 32),
     Add("o", "ff00", "bytes", "aa"), Add("o", "00", "bytes", "bb"), Add("o", "c3a9", "bytes", "cc"), OutO("o", "bytes", 32), OutO("o", "bytes", 0), OutO("o", "bytes", 8160), OutO("o", "bytes", 8161), OutO("o", "bytes", -1), OutO("o", "scalars", 170), OutO("o", "scalars", 171), OutO("o", "scalars", 0), OutO("o", "scalars", -1), OutO("o", "point", 0), OutO("o", "bytes", 32) >>)
\* the same bytes under different types; extreme numbers
Typed == << <<"u32", "0">>, <<"u32", "1">>, <<"u32", "255">>, <<"u32", "256">>, <<"u32", "4294967295">>, <<"u64", "0">>, <<"u64", "1">>, <<"u64", "4294967295">>, <<"u64", "4294967296">>, <<"u64", "18446744073709551615">>, <<"bytes", "0000000000000001">>, <<"bytes", "01">>, <<"scalar", ScZero>>, <<"scalar", ScOne>>, <<"scalar", NM1>>, <<"point", PtId>>, <<"point", PtG>>, <<"point", PtNeg(PtG)>>,
            <<"bytes", HCat("01", PtG)>>, <<"bytes", HCat("01", ScOne)>>, <<"bytes", PtG>>, <<"scalar", HSub(PtG, 1, 33)>>, <<"point", RPt("rop")>>, <<"scalar", RSc("ros")>> >>
RoTypes == Scen("ro-types", Flat([i \in 1..Len(Typed) |-> LET o == "t" \o S(i) IN RoList(o, << Add(o, A("v"), Typed[i][1], Typed[i][2]) >>, Sep0) \o Outs(o)])
   \o Flat([i \in 1..Len(Typed) |-> LET o == "p" \o S(i) IN RoList(o, << Add(o, A("v"), Typed[i][1], Typed[i][2]) @@ [rep |-> "proj"], Add(o, A("w"), Typed[1 + (i % Len(Typed))][1], Typed[1 + (i % Len(Typed))][2]) >>, Sep0) \o Outs(o)])
   \o Flat(MapSeq(LAMBDA t : LET o == "r" \o S(t) IN RoList(o, << Raw(o, A("v"), t, "0102") >>, Sep0) \o Outs(o), <<0, 1, 2, 3, 4, 5, 127, 128, 255>>)))
RoPts == Scen("ro-points", Flat([n \in 1..5 |-> LET o == "q" \o S(n)  ps == SubSeq(<<PtG, PtId, PtH, RPt("rq"), PtG>>, 1, n - 1) IN RoList(o, << Add(o, A("z"), "points", ps), Add(o, A("k"), "bytes", "01") >>, Sep0) \o Outs(o)])
   \o << NewO("s", Sep0), Add("s", A("z"), "points", <<PtG, PtH>>), NewO("s2", Sep0), Add("s2", A("z[0]"), "point", PtG), Add("s2", A("z[1]"), "point", PtH), OutO("s", "point", 0), OutO("s2", "point", 0), NewO("s3", Sep0), Add("s3", A("z"), "points", <<PtH, PtG>>), OutO("s3", "point", 0),
         NewO("s4", Sep0), Add("s4", A("z[1]"), "point", PtG), Add("s4", A("z"), "points", <<PtG, PtH, PtG>>), OutO("s4", "bytes", 16), NewO("s5", Sep0), Add("s5", A("z"), "points", [i \in 1..12 |-> PtMul(PtG, ScDec(S(i)))]), OutO("s5", "bytes", 16),
         NewO("s6", Sep0), Add("s6", HRep("61", 252), "points", <<PtG>>), OutO("s6", "bytes", 16), Add("s6", HRep("61", 253), "points", <<PtG>>), OutO("s6", "bytes", 16) >>)
RoRnd(j) == LET l == L("rx", j) n == 1 + RInt(l, 6)
                nm(i) == RLong(L(l \o "n", i), 1 + RInt(L(l \o "nl", i), 3))
                one(o, i) == LET k == RInt(L(l \o "k", i), 5) IN CASE k = 0 -> Add(o, nm(i), "u32", S(RInt(L(l \o "v", i), 100000))) [] k = 1 -> Add(o, nm(i), "scalar", RSc(L(l \o "v", i))) [] k = 2 -> Add(o, nm(i), "point", RPt(L(l \o "v", i))) [] OTHER -> Add(o, nm(i), "bytes", RLong(L(l \o "v", i), RInt(L(l \o "vl", i), 400)))
            IN Scen("ro-rnd-" \o S(j), RoList("a", [i \in 1..n |-> one("a", i)], RLong(l \o "sep", RInt(l \o "sl", 60))) \o RoList("b", [i \in 1..n |-> one("b", n + 1 - i)], RLong(l \o "sep", RInt(l \o "sl", 60))) \o Outs("a") \o Outs("b") \o << OutO("a", "point", 0), OutO("b", "scalars", 3) >>)
\* more inputs than a byte counts, given in another order than they are hashed in
RoMany(n) == LET ad(i) == Add("o", HAscii("in" \o S(i)), IF i % 3 = 0 THEN "u32" ELSE "bytes", IF i % 3 = 0 THEN S(i) ELSE RLong(L("rm", i), i % 5)) IN
   Scen("ro-many-" \o S(n), << NewO("o", Sep0) >> \o [i \in 1..n |-> ad((i * 7) % n)] \o << OutO("o", "bytes", 32), Add("o", HAscii("in0"), "bytes", "00"), Add("o", HAscii("zz"), "bytes", "00"), OutO("o", "scalar", 0), OutO("o", "point", 0), NewO("p", Sep0), Add("p", A("z"), "points", [i \in 1..n |-> IF i = n THEN PtH ELSE PtG]), OutO("p", "bytes", 32) >>)
RoScs(zz) == MapSeq(RoMany, <<33, 130, 258>>) \o [j \in 1..Times(3, 15) |-> RoSc(j)] \o << RoLens, RoRefuse, RoTypes, RoPts >> \o [j \in 1..Times(10, 400) |-> RoRnd(j)]

HashScen(f) == CASE f = "xmd" -> XmdScs(0) [] f = "seed" -> SeedScs(0) [] f = "h2c" -> H2cScs(0) [] f = "scrnd" -> ScRndScs(0) [] f = "ro" -> RoScs(0)
ASSUME Write(HashScen(IOEnv.FAM))
=============================================================================
