------------------------------ MODULE PolyGen ------------------------------
(* Polynomials, Lagrange coefficients and commitments: zero polynomials,   *)
(* trailing zeros, unequal lengths, aliasing, extreme node indices.        *)
EXTENDS Gen

Z == ScZero
RPoly(l, n) == [i \in 1..n |-> RSc(L(l, i))]
Polys == << << >>, <<Z>>, <<Z, Z, Z>>, <<ScOne>>, <<NM1>>, <<Z, ScOne>>, <<ScOne, Z>>, <<NM1, ScOne, Z, Z>>, RPoly("a", 1), RPoly("b", 2), RPoly("c", 3) \o <<Z>>,
            <<Z, Z>> \o RPoly("d", 1), RPoly("e", 5), [i \in 1..3 |-> ScNeg(RPoly("c", 3)[i])], <<Half, HalfUp, ScShort[2]>> >>
         \o [k \in 1..Times(2, 12) |-> RPoly(L("q", k), 1 + RInt(L("ql", k), 8))]
Xvals == <<Z, ScOne, NM1, ScDec("2"), ScDec("4294967296"), RSc("xv")>>
PolyBins == MapSeq(LAMBDA p : [op |-> "poly.bin", f |-> p[3], a |-> p[1], b |-> p[2], alias |-> "new"], Triples(Polys, Polys, <<"add", "mul">>))
     \o MapSeq(LAMBDA p : [op |-> "poly.bin", f |-> p[3], a |-> p[1][1], b |-> p[1][2], alias |-> p[2]],
               Triples(Pairs(Polys, <<RPoly("b", 2), <<Z>>>>), <<"lhs", "rhs", "same">>, <<"add", "mul">>))
PolyUns == MapSeq(LAMBDA p : [op |-> "poly.mulsc", a |-> p[1], x |-> p[2], self |-> p[3]], Triples(Polys, Xvals, <<TRUE, FALSE>>))
     \o MapSeq(LAMBDA p : [op |-> "poly.eval", a |-> p[1], x |-> p[2]], Pairs(Polys, Xvals))
     \o MapSeq(LAMBDA p : [op |-> "poly.pred", a |-> p[1], b |-> p[2]], Pairs(Polys, Polys))
     \o MapSeq(LAMBDA p : [op |-> "poly.pred", a |-> p, b |-> p \o <<Z, Z>>], Polys)
     \o Flat(MapSeq(LAMBDA a : << [op |-> "poly.pred", a |-> a, b |-> Rev(a)], [op |-> "poly.pred", a |-> a, b |-> MapSeq(ScNeg, a)], [op |-> "poly.pred", a |-> <<Z>> \o a, b |-> a], [op |-> "poly.pred", a |-> a \o <<Z, ScOne>>, b |-> a] >>
          \o [i \in 1..Len(a) |-> [op |-> "poly.pred", a |-> a, b |-> [a EXCEPT ![i] = ScAdd(@, ScOne)]]]
          \o (IF Len(a) < 2 THEN << >> ELSE [i \in 1..(Len(a) - 1) |-> [op |-> "poly.pred", a |-> [a EXCEPT ![i] = ScAdd(@, RSc("lq")), ![i + 1] = ScSub(@, RSc("lq"))], b |-> a]]), Polys))
Samp(a, xs) == [op |-> "poly.interp", xs |-> xs, ys |-> [i \in 1..Len(xs) |-> Eval(a, xs[i])]]
Pos == << << >>, <<Z>>, <<ScOne>>, <<ScOne, ScDec("2"), ScDec("3")>>, <<ScDec("3"), Z, NM1>>, <<RSc("i1"), ScOne, RSc("i2"), NM1>>,
          <<Z, ScOne, ScDec("2"), ScDec("3"), ScDec("4"), ScDec("5")>>, [i \in 1..8 |-> RSc(L("is", i))],
          <<ScOne, ScOne>>, <<ScOne, ScDec("2"), ScOne>>, <<Z, RSc("i1"), RSc("i1")>>, <<Z, Z, ScOne>> >>
Interps == MapSeq(LAMBDA p : Samp(p[1], p[2]), Pairs(Polys, Pos))
     \o MapSeq(LAMBDA xs : [op |-> "poly.interp", xs |-> xs, ys |-> [i \in 1..Len(xs) |-> RSc(L("iy", i))]], Pos)
PolyRands == MapSeq(LAMBDA p : [op |-> "poly.rand", n |-> p[1], key |-> RBytes(L("prk", p[1])), c |-> p[2]], Pairs(<<0, 1, 2, 3, 5, 9>>, <<"", Z, ScOne, RSc("pc")>>))

\* ------------------------------------------------------------- Lagrange ---
NodeSets == << << >>, <<"0">>, <<"5">>, <<"4294967295">>, <<"0", "1">>, <<"1", "0">>, <<"0", "1", "2">>, <<"2", "0", "1">>, <<"7", "3", "255", "256">>,
               <<"0", "127", "128", "65535", "65536">>, <<"4294967294", "4294967295", "2147483647", "2147483648">>, <<"9", "8", "7", "6", "5", "4", "3">>,
               <<"1", "1">>, <<"0", "1", "0">>, <<"4294967295", "2", "4294967295">>, <<"3", "2", "1", "1">> >>
            \o [k \in 1..Times(3, 20) |-> LET s == SetSeq({Idx[1 + RInt(L(L("ns", k), j), Len(Idx))] : j \in 1..6}) IN s]
Targets == <<Z, ScOne, NM1, ScDec("2"), ScDec("129"), ScDec("4294967296"), RSc("tg")>>
Lags == MapSeq(LAMBDA p : [op |-> "lag.at", nodes |-> p[1], x |-> p[2]], Pairs(NodeSets, Targets))
     \o MapSeq(LAMBDA p : LET n == Len(p[1]) + p[3] a == RPoly("lp", Len(p[1])) IN
            [op |-> "lag.interp", nodes |-> p[1], x |-> p[2], rep |-> IF p[2] = Z THEN "proj" ELSE "aff",
             ys |-> [i \in 1..n |-> IF i <= Len(p[1]) THEN Eval(a, NodeSc(p[1][i])) ELSE ScOne],
             ps |-> [i \in 1..n |-> IF i <= Len(p[1]) THEN PtMul(PtH, Eval(a, NodeSc(p[1][i]))) ELSE PtG]],
            Triples(NodeSets, <<Z, ScDec("2"), RSc("tg")>>, <<0, 1>>))
     \o MapSeq(LAMBDA p : LET n == IF Len(p[1]) = 0 THEN 0 ELSE Len(p[1]) - 1 IN
            [op |-> "lag.interp", nodes |-> p[1], x |-> Z, rep |-> "aff", ys |-> RPoly("ly", n), ps |-> [i \in 1..n |-> PtG]], Pairs(NodeSets, <<0>>))
     \o MapSeq(LAMBDA p : [op |-> "lag.interp", nodes |-> p, x |-> ScDec("7"), rep |-> "aff", ys |-> [i \in 1..Len(p) |-> IF i % 2 = 0 THEN Z ELSE NM1], ps |-> [i \in 1..Len(p) |-> IF i % 2 = 0 THEN PtId ELSE PtH]], NodeSets)
     \o MapSeq(LAMBDA p : [op |-> "lag.cmp", a |-> p[1], b |-> p[2]], Pairs(Polys, <<RPoly("b", 2), <<ScOne>>, <<Z>>, << >>, RPoly("e", 5)>>))
     \* the same in another order, with the same sum, one position changed, negated, doubled, one more
     \o Flat(MapSeq(LAMBDA a : << [op |-> "lag.cmp", a |-> a, b |-> a], [op |-> "lag.cmp", a |-> a, b |-> Rev(a)], [op |-> "lag.cmp", a |-> a, b |-> MapSeq(ScNeg, a)], [op |-> "lag.cmp", a |-> a, b |-> a \o <<Z>>], [op |-> "lag.cmp", a |-> <<Z>> \o a, b |-> a], [op |-> "lag.cmp", a |-> a \o a, b |-> a] >>
          \o [i \in 1..Len(a) |-> [op |-> "lag.cmp", a |-> a, b |-> [a EXCEPT ![i] = ScAdd(@, ScOne)]]]
          \o (IF Len(a) < 2 THEN << >> ELSE [i \in 1..(Len(a) - 1) |-> [op |-> "lag.cmp", a |-> [a EXCEPT ![i] = ScAdd(@, RSc("lq")), ![i + 1] = ScSub(@, RSc("lq"))], b |-> a]]), Polys))

\* arguments that agree with a node in their low 32, 64 or 128 bits only
     \o Flat(MapSeq(LAMBDA x : << [op |-> "lag.at", nodes |-> <<"0", "1", "2">>, x |-> x], [op |-> "lag.at", nodes |-> <<"7", "0">>, x |-> x],
          [op |-> "lag.interp", nodes |-> <<"1", "0", "2">>, x |-> x, rep |-> "aff", ys |-> RPoly("lq", 3), ps |-> <<PtG, PtH, PtNeg(PtG)>>] >>,
          <<ScDec("4294967297"), ScDec("4294967298"), ScDec("18446744073709551616"), ScDec("18446744073709551617"), ScDec("18446744073709551618"),
            ScDec("340282366920938463463374607431768211456"), ScDec("340282366920938463463374607431768211457"), ScDec("340282366920938463463374607431768211458"), ScDec("65537"), ScDec("257")>>))

\* many nodes
WideNs == Times(<<40, 70>>, <<34, 40, 67, 70, 130, 260>>)
WideNodes(n, k) == [i \in 1..n |-> ToString(IF k = 1 THEN i - 1 ELSE IF k = 2 THEN 2 * (n - i) + 1 ELSE 65000 + 31 * i)]
LagWide == Flat(MapSeq(LAMBDA p : LET n == p[1]  ns == WideNodes(n, p[2])  a == RPoly("lw", 3) IN
     << [op |-> "lag.at", nodes |-> ns, x |-> Z], [op |-> "lag.at", nodes |-> ns, x |-> RSc("tg")],
        [op |-> "lag.interp", nodes |-> ns, x |-> Z, rep |-> "aff", ys |-> [i \in 1..n |-> Eval(a, NodeSc(ns[i]))], ps |-> [i \in 1..n |-> IF i % 3 = 0 THEN PtId ELSE PtG]],
        Samp(RPoly("lv", n), MapSeq(NodeSc, ns)), Samp(RPoly("lv", n - 5), [i \in 1..n |-> ScDec(ToString(i))]) >>, Pairs(WideNs, <<1, 2, 3>>)))
\* more than a byte counts
LagHuge == LET n == 260  a == RPoly("lw", 3)  ns == WideNodes(n, 3) IN << [op |-> "lag.at", nodes |-> ns, x |-> RSc("tg")],
    [op |-> "lag.interp", nodes |-> ns, x |-> Z, rep |-> "aff", ys |-> [i \in 1..n |-> Eval(a, NodeSc(ns[i]))], ps |-> [i \in 1..n |-> IF i % 64 = 5 THEN PtH ELSE PtId]] >>
LongPolys == << RPoly("w1", 40), RPoly("w2", 33), RPoly("w3", 70) \o <<Z>>, RPoly("w4", 258), RPoly("w5", 257), [i \in 1..260 |-> IF i = 259 THEN ScOne ELSE Z] >>
PolyLong == MapSeq(LAMBDA p : [op |-> "poly.eval", a |-> p[1], x |-> p[2]], Pairs(LongPolys, <<ScOne, RSc("xv")>>)) \o MapSeq(LAMBDA p : [op |-> "poly.mulsc", a |-> p, x |-> RSc("xv"), self |-> FALSE], LongPolys)
     \o MapSeq(LAMBDA p : [op |-> "poly.bin", f |-> "add", a |-> p[1], b |-> p[2], alias |-> "new"], Pairs(LongPolys, LongPolys))
     \o MapSeq(LAMBDA p : [op |-> "poly.bin", f |-> "mul", a |-> p[1], b |-> p[2], alias |-> "new"], Pairs(LongPolys, << <<Z, NM1>>, RPoly("b", 2) >>) \o Pairs(SubSeq(LongPolys, 1, 3), SubSeq(LongPolys, 1, 2)))
     \o Flat(MapSeq(LAMBDA a : << [op |-> "poly.pred", a |-> a, b |-> a], [op |-> "poly.pred", a |-> a, b |-> [a EXCEPT ![Len(a)] = ScAdd(@, ScOne)]], [op |-> "poly.pred", a |-> a, b |-> [a EXCEPT ![Len(a) - 1] = ScAdd(@, ScOne)]], [op |-> "poly.pred", a |-> a, b |-> SubSeq(a, 1, Len(a) - 2)],
          [op |-> "poly.pred", a |-> a, b |-> a \o <<Z, ScOne>>] >>, LongPolys))
     \o << [op |-> "poly.rand", n |-> 40, key |-> RBytes("prkl"), c |-> ""], [op |-> "poly.rand", n |-> 258, key |-> RBytes("prkm"), c |-> ScOne] >>
LagCmpLong == Flat(MapSeq(LAMBDA a : << [op |-> "lag.cmp", a |-> a, b |-> a], [op |-> "lag.cmp", a |-> a, b |-> [a EXCEPT ![Len(a)] = ScAdd(@, ScOne)]], [op |-> "lag.cmp", a |-> a, b |-> [a EXCEPT ![34] = ScAdd(@, ScOne)]], [op |-> "lag.cmp", a |-> a, b |-> a \o <<Z>>] >>, LongPolys))
\* ----------------------------------------------------------- commitments ---
Creates == MapSeq(LAMBDA p : [op |-> "cm.create", kind |-> p[2][1], a |-> p[1], b |-> IF p[2][1] = "P" THEN Polys[p[2][2]] ELSE << >>, n |-> p[3]],
                  Triples(Polys, <<<<"S", 1>>, <<"P", 1>>, <<"P", 8>>, <<"P", 11>>>>, <<1, 2, 3, 5>>))
Coms == << [k |-> "S", p |-> ComS(RPoly("b", 2), 2)], [k |-> "S", p |-> ComS(RPoly("c", 1), 1)], [k |-> "S", p |-> ComS(<<ScOne, NM1>>, 3)],
           [k |-> "S", p |-> <<PtId>>], [k |-> "S", p |-> <<PtId, PtG, PtId>>], [k |-> "P", p |-> ComP(RPoly("b", 2), RPoly("c", 2), 2)],
           [k |-> "P", p |-> ComP(<<Z>>, RPoly("e", 3), 3)], [k |-> "P", p |-> ComP(RPoly("e", 4), <<Z>>, 4)], [k |-> "P", p |-> <<PtId, PtId>>],
           [k |-> "P", p |-> ComP(RPoly("e", 5), RPoly("g", 5), 5)], [k |-> "P", p |-> <<PtG>>], [k |-> "S", p |-> <<PtG>>], [k |-> "S", p |-> <<PtG, PtId>>], [k |-> "S", p |-> <<PtH, PtG>>], [k |-> "S", p |-> <<PtG, PtH>>],
           [k |-> "P", p |-> <<PtG, PtH>>], [k |-> "P", p |-> <<PtG, PtId>>], [k |-> "S", p |-> <<PtNeg(PtG)>>] >>
\* commitments with more points than small tables, or a byte, hold: a few distinct points, each place in turn
LongCom(k, n) == [k |-> k, p |-> [i \in 1..n |-> IF i = n \/ i = 34 THEN RPt("lwe") ELSE IF i % 7 = 0 THEN PtId ELSE RPt(L("lwc", i % 3))]]
LongComs == << LongCom("S", 40), LongCom("P", 33), LongCom("S", 257), LongCom("P", 260) >>
LongCmps == Flat(MapSeq(LAMBDA c : LET n == Len(c.p) cm(q) == [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> q, rep |-> "aff"] IN
      << cm(c.p), [cm(c.p) EXCEPT !.rep = "proj"], cm([c.p EXCEPT ![n] = PtNeg(@)]), cm([c.p EXCEPT ![33] = PtG]), cm([c.p EXCEPT ![n - 1] = PtH]), cm(SubSeq(c.p, 1, n - 1)), cm(SubSeq(c.p, 1, 1)), cm(c.p \o <<PtId>>) >>, LongComs))
LongEvals == MapSeq(LAMBDA p : [op |-> "cm.eval", kind |-> p[1].k, ps |-> p[1].p, i |-> p[2], rep |-> "aff"], Pairs(LongComs, <<"0", "1", "65536">>))
LongCreates == MapSeq(LAMBDA p : [op |-> "cm.create", kind |-> p[1], a |-> RPoly("w1", p[2]), b |-> IF p[1] = "P" THEN RPoly("w2", p[3]) ELSE << >>, n |-> p[4]],
      << <<"S", 40, 0, 40>>, <<"S", 3, 0, 40>>, <<"P", 33, 34, 34>>, <<"S", 40, 0, 39>>, <<"P", 2, 34, 33>>, <<"S", 1, 0, 257>>, <<"P", 1, 2, 258>>, <<"S", 257, 0, 1>> >>)
IdxC == Idx \o [k \in 1..Times(2, 20) |-> ToString(RInt(L("ix", k), 100000))]
CmEvals == MapSeq(LAMBDA p : [op |-> "cm.eval", kind |-> p[1].k, ps |-> p[1].p, i |-> p[2], rep |-> IF RInt(p[2], 2) = 0 THEN "aff" ELSE "proj"], Pairs(Coms, IdxC))
\* openings of the polynomials behind a commitment, right and wrong
Chk(kind, a, b, n, i, dv, dm, ok, ptr) == [op |-> "cm.check", kind |-> kind, ps |-> IF kind = "S" THEN ComS(a, n) ELSE ComP(a, b, n), i |-> i, okind |-> ok,
     v |-> ScAdd(Eval(a, NodeSc(i)), dv), m |-> ScAdd(Eval(b, NodeSc(i)), dm), ptr |-> ptr]
Checks == MapSeq(LAMBDA p : Chk(p[1][1], RPoly("ka", p[1][2]), RPoly("kb", p[1][2]), p[1][2], p[2], p[3][1], p[3][2], p[3][3], p[3][4]),
     Triples(<<<<"S", 1>>, <<"S", 3>>, <<"P", 1>>, <<"P", 3>>>>, <<"0", "1", "255", "4294967295">>,
             <<<<Z, Z, "S", FALSE>>, <<Z, Z, "P", FALSE>>, <<Z, Z, "S", TRUE>>, <<Z, Z, "P", TRUE>>, <<Z, Z, "none", FALSE>>, <<ScOne, Z, "S", FALSE>>, <<ScOne, Z, "P", FALSE>>, <<Z, ScOne, "P", FALSE>>,
               <<ScOne, NM1, "P", TRUE>>, <<RSc("dv"), Z, "S", TRUE>>, <<Z, RSc("dm"), "P", TRUE>>>>))
     \* the value at another index, the negated value, swapped value and mask, zero polynomials
     \o MapSeq(LAMBDA p : [op |-> "cm.check", kind |-> p[1], ps |-> IF p[1] = "S" THEN ComS(RPoly("ka", 2), 2) ELSE ComP(RPoly("ka", 2), RPoly("kb", 2), 2), i |-> "3", okind |-> p[1],
            v |-> p[2][1], m |-> p[2][2]],
          Pairs(<<"S", "P">>, << <<Eval(RPoly("ka", 2), NodeSc("2")), Eval(RPoly("kb", 2), NodeSc("2"))>>, <<Eval(RPoly("kb", 2), NodeSc("3")), Eval(RPoly("ka", 2), NodeSc("3"))>>,
               <<ScNeg(Eval(RPoly("ka", 2), NodeSc("3"))), ScNeg(Eval(RPoly("kb", 2), NodeSc("3")))>>, <<Z, Z>>,
               <<Eval(RPoly("ka", 2), NodeSc("3")), ScNeg(Eval(RPoly("kb", 2), NodeSc("3")))>>, <<Eval(RPoly("ka", 2), NodeSc("3")), Z>>, <<Eval(RPoly("ka", 2), Z), Eval(RPoly("kb", 2), Z)>>>>))
     \o MapSeq(LAMBDA p : Chk(p[1], <<Z, Z>>, <<Z, Z>>, 2, p[2], Z, Z, p[1], FALSE), Pairs(<<"S", "P">>, <<"0", "77">>))
Cmps == MapSeq(LAMBDA p : [op |-> "cm.cmp", k1 |-> p[1].k, p1 |-> p[1].p, k2 |-> p[2].k, p2 |-> p[2].p, rep |-> "aff"], Pairs(Coms, Coms))
     \o MapSeq(LAMBDA c : [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> c.p, rep |-> "proj"], Coms)
     \o MapSeq(LAMBDA c : [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> Rev(c.p), rep |-> "proj", c1 |-> "sum", c2 |-> IF Len(c.p) > 2 THEN "sum" ELSE "int"], Coms)
     \* differing in exactly one position, or in length
     \o Flat(MapSeq(LAMBDA c : [j \in 1..Len(c.p) |-> [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> [c.p EXCEPT ![j] = PtNeg(PtAdd(PtH, c.p[j]))], rep |-> "aff"]], Coms))
     \* ... by the sign of one, or all, or by one more time the same
     \o Flat(MapSeq(LAMBDA c : [j \in 1..Len(c.p) |-> [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> [c.p EXCEPT ![j] = PtNeg(@)], rep |-> IF j % 2 = 0 THEN "aff" ELSE "proj"]], Coms))
     \o Flat(MapSeq(LAMBDA c : << [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> MapSeq(PtNeg, c.p), rep |-> "aff"], [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> MapSeq(LAMBDA x : PtAdd(x, x), c.p), rep |-> "aff"],
           [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p \o c.p, k2 |-> c.k, p2 |-> c.p, rep |-> "aff"], [op |-> "cm.cmp", k1 |-> c.k, p1 |-> SubSeq(c.p, 1, Len(c.p) - 1), k2 |-> c.k, p2 |-> c.p, rep |-> "aff"] >>, SelectSeq(Coms, LAMBDA c : Len(c.p) > 1)))
     \o MapSeq(LAMBDA c : [op |-> "cm.cmp", k1 |-> c.k, p1 |-> c.p, k2 |-> c.k, p2 |-> c.p \o <<PtId>>, rep |-> "aff"], Coms)
     \* ... or with the same sum
     \o Flat(MapSeq(LAMBDA c : IF Len(c.p) < 2 THEN << >> ELSE [i \in 1..(Len(c.p) - 1) |-> [op |-> "cm.cmp", k1 |-> c.k, p1 |-> [c.p EXCEPT ![i] = PtAdd(@, PtH), ![i + 1] = PtSub(@, PtH)], k2 |-> c.k, p2 |-> c.p, rep |-> IF i % 2 = 0 THEN "aff" ELSE "proj"]], Coms))

LongChecks == Flat(MapSeq(LAMBDA p : << Chk(p[1], RPoly("ka", p[2]), RPoly("kb", p[2]), p[2], p[3], Z, Z, p[1], FALSE), Chk(p[1], RPoly("ka", p[2]), RPoly("kb", p[2]), p[2], p[3], ScOne, Z, p[1], FALSE) >>, << <<"S", 34, "3">>, <<"P", 40, "255">>, <<"S", 258, "1">> >>))
\* -------------------------------------------------------------- encoding ---
Cm(c, mut, n, old, b) == [op |-> "cm.round", kind |-> c.k, ps |-> c.p, mut |-> mut, n |-> n, old |-> old, b |-> b]
BadPt == HCat("02", HRep("ff", 32))
ComsE == Coms \o LongComs \o << [k |-> "S", p |-> [i \in 1..30 |-> RPt(L("lc", i % 3))]], [k |-> "P", p |-> [i \in 1..24 |-> RPt(L("ld", i % 3))]] >>
CmRounds == MapSeq(LAMBDA c : Cm(c, "none", 0, "", ""), ComsE) \o MapSeq(LAMBDA c : [Cm(c, "none", 0, "", "") EXCEPT !.op = "cm.round"], Coms)
     \o MapSeq(LAMBDA p : Cm(p[1], "trunc", p[2], "", ""), Pairs(ComsE, <<0, 1, 2, 3, 4, 5, 6, 7, 100, 101, 102, 133, 134, 135>>))
     \o MapSeq(LAMBDA p : Cm(p[1], "append", 0, "", p[2]), Pairs(ComsE, <<"00", "f6", "a0", "01">>))
     \o MapSeq(LAMBDA p : Cm(p[1], "subst", 0, HCat("01", p[1].p[Len(p[1].p)]), HCat(p[2], p[3])), Triples(Coms, <<"01">>, <<BadPt, HCat("04", HRep("11", 32)), HCat("00", HRep("11", 32)), HCat("ff", HRep("00", 32)), HCat("05", PtX(PtG))>>))
     \o MapSeq(LAMBDA p : Cm(p[1], "subst", 0, HCat("01", p[1].p[1]), HCat(p[2], p[1].p[1])), Pairs(Coms, <<"00", "02", "ff">>))
     \o MapSeq(LAMBDA b : Cm(Coms[1], "raw", 0, "", b), <<"", "00", "f6", "f7", "a0", "80", "40", "60", "ff", "18", "a1", "bf", "9f", HRep("81", 40), HRep("ff", 40), RLong("rb1", 10), RLong("rb2", 80)>>)
     \o MapSeq(LAMBDA b : Cm(Coms[1], "raw", 0, "", b),   \* maps with unknown kind, unknown curve, no message, nil and empty messages
          << "a0", "a1", "a2" >>)
Op(k, v, m, mut, n, old, b) == [op |-> "op.round", okind |-> k, v |-> v, m |-> m, mut |-> mut, n |-> n, old |-> old, b |-> b]
OpVals == Pairs(<<"S", "P">>, Pairs(ScEdge \o ScShort \o <<RSc("ov")>>, <<Z, NM1, RSc("om")>>))
OpRounds == MapSeq(LAMBDA p : Op(p[1], p[2][1], p[2][2], "none", 0, "", ""), OpVals)
     \o MapSeq(LAMBDA p : [Op(p[1], p[2][1], p[2][2], "none", 0, "", "") EXCEPT !.op = "op.round"] @@ [bytes |-> TRUE], OpVals)
     \o MapSeq(LAMBDA p : [Op(p[1], p[2][1], p[2][2], "none", 0, "", "") EXCEPT !.op = "op.round"] @@ [ptr |-> TRUE], OpVals)
     \o MapSeq(LAMBDA p : Op(p[1], RSc("t1"), RSc("t2"), "trunc", p[2], "", ""), Pairs(<<"S", "P">>, <<0, 1, 2, 3, 4, 5, 6, 7, 100, 101, 102, 133, 134, 135>>))
     \o MapSeq(LAMBDA p : Op(p[1], RSc("t1"), RSc("t2"), "append", 0, "", p[2]), Pairs(<<"S", "P">>, <<"00", "f6", "01">>))
     \o MapSeq(LAMBDA p : Op(p[1], RSc("t1"), RSc("t2"), "subst", 0, HCat("01", IF p[3] THEN RSc("t1") ELSE RSc("t2")), p[2]),
          Triples(<<"S", "P">>, <<HCat("01", HRep("ff", 32)), HCat("01", HCat(HSub(NM1, 0, 31), "41")), HCat("00", RSc("t1")), HCat("02", RSc("t1")), HCat("ff", ScOne)>>, <<TRUE, FALSE>>))
     \o MapSeq(LAMBDA b : Op("S", ScOne, ScOne, "raw", 0, "", b), <<"", "00", "f6", "f7", "a0", "80", "40", "60", "ff", "a1", "bf", "9f", HRep("81", 40), RLong("rb1", 10), RLong("rb2", 80)>>)

PolyScen(f) ==
  CASE f = "poly" -> Cut("poly-long", PolyLong, 6, 1) \o Cut("poly", PolyBins \o PolyUns \o Interps \o PolyRands, 40, 1)
    [] f = "lag" -> Cut("lag", Lags \o LagWide \o LagHuge \o LagCmpLong, 20, 1)
    [] f = "commit" -> Cut("commit", Creates \o CmEvals \o Checks, 20, 1) \o Cut("commit-long", LongCreates \o LongEvals \o LongChecks, 3, 1)
    [] f = "cmp" -> Cut("cmp", Cmps, 20, 1) \o Cut("cmp-long", LongCmps, 8, 1)
    [] f = "cbor" -> Cut("cbor", CmRounds \o OpRounds, 20, 1)
PolyFams == {"poly", "lag", "commit", "cmp", "cbor"}
ASSUME Write(PolyScen(IOEnv.FAM))
=============================================================================
