------------------------------ MODULE ProtoLib ------------------------------
(***************************************************************************)
(* Runs of the protocol: key generation rounds, faults, complaints,        *)
(* reconstruction, signing.  All choices come from GenBase.                *)
(***************************************************************************)
EXTENDS Gen
S(i) == ToString(i)
Ads == << "", "61", RLong("ad", 32), RLong("ad", 255), RLong("ad", 256), RLong("ad", 300), "00", "0000" >>
KeyE(out, l) == [op |-> "key", out |-> out, seed |-> RBytes("key" \o l)]
KeyS(out, sk) == [op |-> "key", out |-> out, sk |-> sk]
Nm(pre, n) == [i \in 1..n |-> pre \o S(i - 1)]
KeysE(pre, l, n) == [i \in 1..n |-> KeyE(pre \o S(i - 1), L(l, i))]
DealE(out, sec, t, recips, dealer, ad, l) == [op |-> "deal", out |-> out, sec |-> sec, t |-> t, recips |-> recips, dealer |-> dealer, ad |-> ad, seed |-> RBytes("deal" \o l)]
RP(l, n) == [i \in 1..n |-> RSc(L(l, i))]
\* a polynomial of length n whose value at x is y
Thru(l, n, x, y) == LET p == RP(l, n) IN [p EXCEPT ![1] = ScAdd(ScSub(p[1], Eval(p, x)), y)]
MkTr(out, cls, k, a, b, n) == [op |-> "mktr", out |-> out, cls |-> cls, k |-> k, p |-> IF k = "S" THEN ComS(a, n) ELSE ComP(a, b, n), rep |-> "aff"]
MkO(out, k, v, m) == [op |-> "mkop", out |-> out, okind |-> k, v |-> v, m |-> m, ptr |-> FALSE]
Pub(d, tr, thr, dealer, n, ad) == [op |-> "pubver", d |-> d, tr |-> tr, thr |-> thr, dealer |-> dealer, n |-> n, ad |-> ad]
Priv(d, key, ad, dealer, idx) == [op |-> "privver", d |-> d, key |-> key, ad |-> ad, dealer |-> dealer, idx |-> idx]
OpenD(d, key, ad, dealer, idx) == [op |-> "opendeal", d |-> d, key |-> key, ad |-> ad, dealer |-> dealer, idx |-> idx, out |-> ""]
ModE(in, out, what, r) == [op |-> "mod", in |-> in, out |-> out, what |-> what] @@ r
None == [x \in {} |-> 0]
D1 == ScOne

\* simple combinations of secrets: nothing that should be random may be one of them
Rel(x, y, m) == LET a == <<x, y, m, ScMul(x, y), ScMul(x, m), ScMul(y, m), ScAdd(x, y), ScAdd(x, m), ScAdd(y, m), ScSub(x, y), ScSub(x, m), ScSub(y, m), ScMul(x, x), ScMul(y, y), ScMul(m, m), ScAdd(x, D1), ScAdd(y, D1), ScAdd(m, D1)>> IN a \o MapSeq(ScNeg, a)
\* Indices that a narrower integer, another byte order or an off-by-one would take for i
Up31(i) == CASE i = "0" -> "2147483648" [] i = "1" -> "2147483649" [] i = "2" -> "2147483650" [] i = "3" -> "2147483651" [] i = "7" -> "2147483655" [] i = "256" -> "2147483904" [] OTHER -> "4294967294"
NearTab == [i \in 0..3 |-> <<i + 256, i + 65536, i + 16777216, i + 1>>] @@ [i \in {7} |-> <<263, 65543, 16777223, 8>>] @@ [i \in {255} |-> <<511, 65791, 16777471, 254>>] @@ [i \in {256} |-> <<0, 1, 65792, 16777472, 512>>] @@ [i \in {65535} |-> <<131071, 16842751, 255, 32767>>] @@ [i \in {65536} |-> <<0, 256, 1, 131072, 16842752>>]
Near(i) == IF i \in {"0", "1", "2", "3", "7", "255", "256", "65535", "65536"} THEN LET n == CHOOSE k \in DOMAIN NearTab : S(k) = i IN MapSeq(S, NearTab[n]) \o <<Up31(i)>>
           ELSE IF i = "4294967295" THEN <<"65535", "255", "2147483647", "4294967294", "16777215">> ELSE IF i = "2147483648" THEN <<"0", "2147483647", "128", "32768">> ELSE <<"0", "255", "65535">>
\* ------------------------------------------------ one dealing and its past ---
\* previous transcripts p1, p2 and the dealer's secrets: x, y are its values, m its mask
Past(typ, pre, l, dealer, x, y, m, n1, n2) ==
  LET c == NodeSc(dealer) IN
  CASE typ = "rand" -> << >>
    [] typ = "unm" -> << MkTr(pre \o "p1", "int", "S", Thru(l \o "a", n1, c, x), << >>, n1) >>
    [] typ = "msk" -> << MkTr(pre \o "p1", "sum", "P", Thru(l \o "a", n1, c, x), Thru(l \o "b", n1, c, m), n1) >>
    [] typ = "mul" -> << MkTr(pre \o "p1", "int", "S", Thru(l \o "a", n1, c, x), << >>, n1),
                         MkTr(pre \o "p2", "sum", "P", Thru(l \o "b", n2, c, y), Thru(l \o "c", n2, c, m), n2) >>
SecR(typ, x, y, m) == CASE typ = "rand" -> [t |-> "rand"] [] typ = "unm" -> [t |-> "unm", s1 |-> x] [] typ = "msk" -> [t |-> "msk", s1 |-> x, s2 |-> m]
                        [] typ = "mul" -> [t |-> "mul", s1 |-> x, s2 |-> y, s3 |-> m]
TrR(typ, pre) == CASE typ = "rand" -> [t |-> "rand"] [] typ \in {"unm", "msk"} -> [t |-> typ, p1 |-> pre \o "p1"] [] typ = "mul" -> [t |-> "mul", p1 |-> pre \o "p1", p2 |-> pre \o "p2"]
Typs == <<"rand", "unm", "msk", "mul">>
\* a dealing with everything around it; recipients k0..k(n-1)
OneN(typ, pre, l, t, n, dealer, ad, x, y, m, n1, n2) == Past(typ, pre, l, dealer, x, y, m, n1, n2) \o << DealE(pre \o "d", SecR(typ, x, y, m), t, Nm("k", n), dealer, ad, l) >>
One(typ, pre, l, t, n, dealer, ad, x, y, m) == OneN(typ, pre, l, t, n, dealer, ad, x, y, m, 2, 2)
\* thresholds and previous lengths of the j-th scenario of a kind
Th(j) == <<2, 1, 3>>[1 + ((j - 1) % 3)]
Pl(j) == << <<2, 2>>, <<1, 3>>, <<4, 1>> >>[1 + ((j - 1) % 3)]

Sizes == << <<1, 1>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 5>>, <<4, 4>> >>
AllRecv(d, n, ad, dealer) == Flat([i \in 1..n |-> << Priv(d, "k" \o S(i - 1), ad, dealer, S(i - 1)), OpenD(d, "k" \o S(i - 1), ad, dealer, S(i - 1)) >>])
\* entries of the ciphertext with values of their own: zero, one, minus one, in either half or both
SetMods(i) == << <<"ctset", [i |-> i, cv |-> ScZero, cm |-> ""]>>, <<"ctset", [i |-> i, cv |-> "", cm |-> ScZero]>>, <<"ctset", [i |-> i, cv |-> ScZero, cm |-> ScZero]>>, <<"ctset", [i |-> i, cv |-> ScOne, cm |-> ""]>>, <<"ctset", [i |-> i, cv |-> "", cm |-> NM1]>> >>
DealSc(typ, j) ==
  LET l == "D" \o typ \o S(j)
      sz == IF j <= Len(Sizes) THEN Sizes[j] ELSE LET n == 1 + RInt(l, 6) IN <<1 + RInt(l \o "t", n), n>>
      t == sz[1]  n == sz[2]
      dealer == IF j % 2 = 1 THEN S(RInt(l \o "i", 6)) ELSE Idx[1 + RInt(l, Len(Idx))]
      ad == Ads[1 + ((j + RInt("ado", 8)) % Len(Ads))]
      e(k) == IF RInt(L(l, k), 2) = 0 THEN RSc(L(l, k)) ELSE ScEdge[1 + RInt(L(l \o "e", k), Len(ScEdge))]
      z == <<ScZero, ScOne, NM1>>
      x == IF j <= 3 THEN z[j] ELSE e(1)  y == IF j = 4 THEN ScZero ELSE e(2)  m == IF j = 5 THEN ScZero ELSE e(3)
      ks == IF j % 3 = 2 THEN [i \in 1..n |-> KeyS("k" \o S(i - 1), ScEdge[2 + (i % (Len(ScEdge) - 1))])] ELSE KeysE("k", l, n)
  IN Scen("deal-" \o typ \o "-" \o S(j), ks \o One(typ, "", l, t, n, dealer, ad, x, y, m) \o << Pub("d", TrR(typ, ""), t, dealer, n, ad), Pub("d", TrR(typ, "") @@ [wrap |-> TRUE], t, dealer, n, ad) >> \o AllRecv("d", n, ad, dealer))
BadDeal(zz) == LET d(sec, t, n) == DealE("x", sec, t, Nm("k", n), "1", "61", "bad" \o S(t)) IN
  Scen("deal-refused", KeysE("k", "bd", 4) \o
    << d([t |-> "rand"], 0, 4), d([t |-> "rand"], 5, 4), d([t |-> "rand"], -1, 4), d([t |-> "rand"], 1, 0), d([t |-> "rand"], 0, 0), d([t |-> "unm", s1 |-> ScOne], 4, 3), d([t |-> "unm", s1 |-> ScOne], 3, 3),
       d([t |-> "msk", s1 |-> ScOne, s2 |-> ScZero], 5, 4), d([t |-> "mul", s1 |-> ScOne, s2 |-> ScZero, s3 |-> ScOne], 0, 4), d([t |-> "nil"], 1, 2), d([t |-> "int"], 1, 2), d([t |-> "value"], 1, 2),
       MkO("s", "S", RSc("os"), ScZero), MkO("p", "P", RSc("op"), RSc("om")), MkO("q", "P", ScZero, ScZero),
       [op |-> "opmod", in |-> "s", out |-> "s2", what |-> "dec"], [op |-> "opmod", in |-> "p", out |-> "p2", what |-> "dec"], d([t |-> "open", o1 |-> "s2"], 2, 3), d([t |-> "open", o1 |-> "p2"], 2, 3), d([t |-> "open", o1 |-> "s2", o2 |-> "p2"], 2, 3),
       d([t |-> "open", o1 |-> "s", o2 |-> "p2"], 2, 3), d([t |-> "open", o1 |-> "p2", o2 |-> "s"], 2, 3),
       d([t |-> "open", o1 |-> "s"], 2, 3), d([t |-> "open", o1 |-> "p"], 2, 3), d([t |-> "open", o1 |-> "q"], 2, 3), d([t |-> "open", o1 |-> "s", o2 |-> "p"], 2, 3), d([t |-> "open", o1 |-> "s", o2 |-> "q"], 2, 3),
       d([t |-> "open", o1 |-> "p", o2 |-> "s"], 2, 3), d([t |-> "open", o1 |-> "p", o2 |-> "p"], 2, 3), d([t |-> "open", o1 |-> "s", o2 |-> "s"], 2, 3) >>)
\* more coefficients, recipients and previous coefficients
DealBig(typ, t, n, n1, n2) ==
  LET l == "DB" \o typ \o S(t)  dealer == "11"  ad == Ads[1 + (t % Len(Ads))]  x == RSc(l \o "x")  y == RSc(l \o "y")  m == RSc(l \o "m") IN
  Scen("deal-big-" \o typ \o "-" \o S(t), KeysE("k", l, n) \o Past(typ, "", l, dealer, x, y, m, n1, n2) \o << DealE("d", SecR(typ, x, y, m), t, Nm("k", n), dealer, ad, l), Pub("d", TrR(typ, ""), t, dealer, n, ad), Pub("d", TrR(typ, ""), t - 1, dealer, n, ad), Pub("d", TrR(typ, ""), t, dealer, n - 1, ad), Pub("d", TrR(typ, ""), t, "10", n, ad) >>
       \o AllRecv("d", n, ad, dealer)
       \o << [op |-> "note", what |-> "fresh", of |-> <<"d">>, known |-> Rel(x, y, m)] >>)
DealBigs(zz) == Flat(MapSeq(LAMBDA y : << DealBig(y, 13, 17, 9, 6), DealBig(y, 10, 10, 1, 12) >> \o (IF Times(1, 2) = 1 THEN << >> ELSE << DealBig(y, 40, 70, 33, 35) >>), Typs))
\* more recipients than a byte counts (keys repeat); receivers around the byte boundary open theirs
DealWide(typ, t, n) ==
  LET l == "DW" \o typ \o S(t)  dealer == "0"  x == RSc(l \o "x")  y == RSc(l \o "y")  m == RSc(l \o "m")
      at == SelectSeq(<<0, 1, 2, 127, 128, 129, 253, 254, 255, 256, 257, 258, 259, 299, 511, 512, 513>>, LAMBDA i : i < n)
  IN Scen("deal-wide-" \o typ \o "-" \o S(t), KeysE("k", l, 3) \o Past(typ, "", l, dealer, x, y, m, 2, 2)
       \o << DealE("d", SecR(typ, x, y, m), t, [i \in 1..n |-> "k" \o S(i % 3)], dealer, "61", l), Pub("d", TrR(typ, ""), t, dealer, n, "61"), Pub("d", TrR(typ, ""), t, dealer, n - 256, "61"), Pub("d", TrR(typ, ""), t, dealer, n + 256, "61") >>
       \o Flat(MapSeq(LAMBDA i : LET k == "k" \o S((i + 1) % 3) IN << Priv("d", k, "61", dealer, S(i)), OpenD("d", k, "61", dealer, S(i)), OpenD("d", k, "61", dealer, S(i + 256)) >>, at))
       \o << [op |-> "note", what |-> "fresh", of |-> <<"d">>, known |-> Rel(x, y, m)] >>)
DealWides(zz) == IF Times(1, 2) = 1 THEN << DealWide("rand", 3, 260), DealWide("unm", 258, 260) >> ELSE Flat(MapSeq(LAMBDA y : << DealWide(y, 3, 520), DealWide(y, 260, 262) >>, Typs))
DealScs(zz) == DealBigs(0) \o DealWides(0) \o Flat([y \in 1..4 |-> [j \in 1..Times(7, 40) |-> DealSc(Typs[y], j)]]) \o << BadDeal(0) >>

\* ------------------------------------------------------ public verification ---
DealMods(typ, l, t) ==
  LET pd == RPt(l \o "pd")  sd == RSc(l \o "sd") IN
  << (IF t = 1 THEN <<"comadd", [d |-> PtH]>> ELSE <<"comdrop", None>>), <<"comadd", [d |-> pd]>>, <<"comadd", [d |-> PtId]>>, <<"comkind", None>>, <<"com", [i |-> 0, d |-> PtG]>>, <<"com", [i |-> 0, d |-> PtH]>>, <<"com", [i |-> t - 1, d |-> pd]>>,
     <<"comneg", [i |-> 0]>>, <<"comneg", [i |-> t - 1]>>, <<"comneg", [i |-> -1]>>, <<"comrev", None>>, <<"ephneg", None>>, <<"popneg", None>>,
     <<"eph", [d |-> pd]>>, <<"pop", [d |-> pd]>>, <<"popc", [d |-> D1]>>, <<"popr", [d |-> sd]>>, <<"popr", [d |-> ScOne]>>, <<"dropct", None>>, <<"addct", None>>, <<"noct", None>>, <<"ctkind", None>>,
     <<"ct", [i |-> 0, dv |-> D1, dm |-> D1]>>, <<"swapct", [i |-> 0, j |-> 1]>>, <<"popfrom", [from |-> "od"]>>, <<"poppfrom", [from |-> "od"]>>, <<"ctfrom", [from |-> "od"]>>, <<"comfrom", [from |-> "od"]>>,
     <<"proofnil", None>>, <<"prooftype", [t |-> "msk", d |-> ScOne]>>, <<"prooftype", [t |-> "mul", d |-> ScOne]>>, <<"prooftype", [t |-> "msk", d |-> ScZero]>>, <<"prooftype", [t |-> "mul", d |-> ScZero]>>,
     <<"comset", [k |-> "S", p |-> <<PtId, PtId>>]>>, <<"comset", [k |-> "P", p |-> <<PtId, PtId>>]>>, <<"comset", [k |-> "P", p |-> <<PtG>>]>>, <<"comset", [k |-> "S", p |-> <<PtG, PtH, PtG>>]>> >>
  \o (IF typ \in {"msk", "mul"} THEN << <<"proofc", [d |-> D1]>>, <<"proofr1", [d |-> sd]>>, <<"proofr1", [d |-> NM1]>>, <<"prooffrom", [from |-> "od"]>> >> ELSE << >>)
  \o (IF typ = "mul" THEN << <<"proofr2", [d |-> D1]>> >> ELSE << >>)
\* proofs a dishonest dealer can make for what it dealt
ProofMods(typ, ad, x, y, m) ==
  LET v(w, a) == [t |-> typ, wit |-> w, ad |-> a, seed |-> RBytes("pm" \o typ)] IN
  IF typ = "msk" THEN << v(<<x, m>>, ad), v(<<x, ScAdd(m, D1)>>, ad), v(<<ScAdd(x, D1), m>>, ad), v(<<x, m>>, HCat(ad, "00")), v(<<ScZero, ScZero>>, ad), v(<<m, x>>, ad), v(<<ScNeg(x), m>>, ad), v(<<x, ScNeg(m)>>, ad), v(<<ScNeg(x), ScNeg(m)>>, ad), v(<<x, ScZero>>, ad) >>
  ELSE << v(<<x, y, m, ScMul(x, y), RSc("pmm")>>, ad), v(<<x, y, m, ScAdd(ScMul(x, y), D1), RSc("pmm")>>, ad), v(<<ScAdd(x, D1), y, m, ScMul(ScAdd(x, D1), y), RSc("pmm")>>, ad),
          v(<<x, ScAdd(y, D1), m, ScMul(x, ScAdd(y, D1)), ScZero>>, ad), v(<<ScZero, ScZero, ScZero, ScZero, ScZero>>, ad),
          v(<<ScNeg(x), y, m, ScNeg(ScMul(x, y)), RSc("pmm")>>, ad), v(<<ScNeg(x), ScNeg(y), ScNeg(m), ScMul(x, y), RSc("pmm")>>, ad), v(<<y, x, m, ScMul(x, y), RSc("pmm")>>, ad), v(<<x, y, ScNeg(m), ScMul(x, y), RSc("pmm")>>, ad) >>
\* a dealing of the other form (single values against pairs), by the same dealer for the same data
OtherForm(typ, l) == IF typ \in {"rand", "mul"} THEN [t |-> "unm", s1 |-> RSc(l \o "xd")] ELSE [t |-> "rand"]
FormMods == << <<"ctfrom", [from |-> "xd"]>>, <<"comfrom", [from |-> "xd"]>> >>
PubSc(typ, j) ==
  LET l == "P" \o typ \o S(j)
      dealer == IF j = 1 THEN "2" ELSE Idx[1 + RInt(l, Len(Idx))]  ad == IF j = 1 THEN RLong(l, 20) ELSE Ads[1 + RInt(l \o "ad", Len(Ads))]
      t == Th(j)  n == 3  n1 == Pl(j)[1]  n2 == Pl(j)[2]  x == RSc(l \o "x")  y == RSc(l \o "y")  m == RSc(l \o "m")
      tr == TrR(typ, "")
      pub(d) == Pub(d, tr, t, dealer, n, ad)
      mods == DealMods(typ, l, t) \o FormMods
      other == IF dealer = "0" THEN "1" ELSE "0"
      ops == << [t |-> "rand"], [t |-> "nil"], [t |-> "int"], [t |-> "unm", p1 |-> "s1"], [t |-> "msk", p1 |-> "q1"], [t |-> "mul", p1 |-> "s1", p2 |-> "q1"], [t |-> "mul", p1 |-> "q1", p2 |-> "q1"],
                [t |-> "mul", p1 |-> "s1", p2 |-> "s1"], [t |-> "mul", p1 |-> "q1", p2 |-> "s1"], [t |-> "unm", p1 |-> "q1"], [t |-> "msk", p1 |-> "s1"] >>
             \o (IF typ \in {"unm", "msk"} THEN << [t |-> "unm", p1 |-> "p1"], [t |-> "msk", p1 |-> "p1"], [t |-> "unm", p1 |-> "p1x"], [t |-> "msk", p1 |-> "p1x"], [t |-> typ, p1 |-> "p1", wrap |-> TRUE], [t |-> typ, p1 |-> "p1x", wrap |-> TRUE] >> ELSE << >>)
             \o (IF typ = "mul" THEN << [t |-> "mul", p1 |-> "p1", p2 |-> "q1"], [t |-> "mul", p1 |-> "s1", p2 |-> "p2"], [t |-> "mul", p1 |-> "p1x", p2 |-> "p2"], [t |-> "mul", p1 |-> "p1", p2 |-> "p2x"], [t |-> "mul", p1 |-> "p1x", p2 |-> "p2x"], [t |-> "mul", p1 |-> "p1", p2 |-> "p2", wrap |-> TRUE],
                                       [t |-> "mul", p1 |-> "p2", p2 |-> "p1"] >> ELSE << >>)
      \* the same points under the other kind
      c == NodeSc(dealer)
      flips == CASE typ = "unm" -> << [op |-> "mktr", out |-> "p1x", cls |-> "int", k |-> "P", p |-> ComS(Thru(l \o "a", n1, c, x), n1), rep |-> "proj"] >>
                 [] typ = "msk" -> << [op |-> "mktr", out |-> "p1x", cls |-> "int", k |-> "S", p |-> ComP(Thru(l \o "a", n1, c, x), Thru(l \o "b", n1, c, m), n1), rep |-> "proj"] >>
                 [] typ = "mul" -> << [op |-> "mktr", out |-> "p1x", cls |-> "sum", k |-> "P", p |-> ComS(Thru(l \o "a", n1, c, x), n1), rep |-> "aff"],
                                     [op |-> "mktr", out |-> "p2x", cls |-> "int", k |-> "S", p |-> ComP(Thru(l \o "b", n2, c, y), Thru(l \o "c", n2, c, m), n2), rep |-> "aff"] >>
                 [] OTHER -> << >>
      \* previous commitments to the negated shares, values, masks or both
      Neg(p) == [i \in 1..Len(p) |-> ScNeg(p[i])]
      pa == Thru(l \o "a", n1, c, x)  pb == IF typ = "msk" THEN Thru(l \o "b", n1, c, m) ELSE Thru(l \o "b", n2, c, y)  mp == Thru(l \o "c", n2, c, m)
      negs == CASE typ = "unm" -> << MkTr("n1", "int", "S", Neg(pa), << >>, n1) >>
                [] typ = "msk" -> << MkTr("n1", "sum", "P", Neg(pa), Neg(pb), n1), MkTr("n2", "sum", "P", Neg(pa), pb, n1), MkTr("n3", "sum", "P", pa, Neg(pb), n1), MkTr("n4", "sum", "P", pb, pa, n1) >>
                [] typ = "mul" -> << MkTr("n1", "int", "S", Neg(pa), << >>, n1), MkTr("n2", "sum", "P", Neg(pb), Neg(mp), n2), MkTr("n3", "sum", "P", Neg(pb), mp, n2), MkTr("n4", "sum", "P", pb, Neg(mp), n2), MkTr("n5", "sum", "P", mp, pb, n2) >>
                [] OTHER -> << >>
      nops == CASE typ = "unm" -> << [t |-> "unm", p1 |-> "n1"] >>
                [] typ = "msk" -> MapSeq(LAMBDA q : [t |-> "msk", p1 |-> q], <<"n1", "n2", "n3", "n4">>)
                [] typ = "mul" -> MapSeq(LAMBDA q : [t |-> "mul", p1 |-> q[1], p2 |-> q[2]], << <<"n1", "p2">>, <<"p1", "n2">>, <<"n1", "n2">>, <<"p1", "n3">>, <<"p1", "n4">>, <<"p1", "n5">>, <<"n1", "n3">> >>)
                [] OTHER -> << >>
      \* and dealings of the negated secrets against the previous transcripts as they are
      nsec == CASE typ = "unm" -> << SecR(typ, ScNeg(x), y, m) >>
                [] typ = "msk" -> << SecR(typ, ScNeg(x), y, ScNeg(m)), SecR(typ, ScNeg(x), y, m), SecR(typ, x, y, ScNeg(m)), SecR(typ, m, y, x) >>
                [] typ = "mul" -> << SecR(typ, ScNeg(x), y, m), SecR(typ, x, ScNeg(y), ScNeg(m)), SecR(typ, ScNeg(x), ScNeg(y), ScNeg(m)), SecR(typ, x, m, y) >>
                [] OTHER -> << >>
      signs == negs \o MapSeq(LAMBDA o : Pub("d", o, t, dealer, n, ad), nops)
               \o Flat([i \in 1..Len(nsec) |-> << DealE("nd" \o S(i), nsec[i], t, Nm("k", n), dealer, ad, l \o "nd" \o S(i)), pub("nd" \o S(i)) >>
                    \o MapSeq(LAMBDA o : Pub("nd" \o S(i), o, t, dealer, n, ad), nops)])
  IN Scen("pub-" \o typ \o "-" \o S(j),
       KeysE("k", l, n) \o OneN(typ, "", l, t, n, dealer, ad, x, y, m, n1, n2) \o flips
       \o << MkTr("s1", "int", "S", RP(l \o "s", 2), << >>, 2), MkTr("q1", "sum", "P", RP(l \o "q", 2), RP(l \o "r", 2), 2),
             DealE("od", SecR(typ, ScAdd(x, D1), y, m), t, Nm("k", n), dealer, ad, l \o "o"), DealE("xd", OtherForm(typ, l), t, Nm("k", n), dealer, ad, l \o "xd"),
             pub("xd"), ModE("xd", "xp", "prooffrom", [from |-> "d"]), pub("xp"),
             ModE("d", "LL", "compad", [n |-> 256]), pub("LL"), Pub("LL", tr, t + 256, dealer, n, ad), pub("d"), pub("od"), Pub("d", tr, t + 1, dealer, n, ad), Pub("d", tr, t - 1, dealer, n, ad), Pub("d", tr, 0, dealer, n, ad), Pub("d", tr, t, other, n, ad), Pub("d", tr, t, dealer, n + 1, ad), Pub("d", tr, t, dealer, n - 1, ad), Pub("d", tr, t, dealer, 0, ad),
             Pub("d", tr, t + 256, dealer, n, ad), Pub("d", tr, t + 65536, dealer, n, ad), Pub("d", tr, t, dealer, n + 256, ad), Pub("d", tr, t, dealer, n + 65536, ad), Pub("d", tr, 0 - t, dealer, n, ad), Pub("d", tr, t, dealer, 0 - n, ad) >>
       \o MapSeq(LAMBDA i : Pub("d", tr, t, i, n, ad), Near(dealer))
       \o << Pub("d", tr, t, dealer, n, HCat(ad, "00")), Pub("d", tr, t, dealer, n, HCat("00", ad)), Pub("d", tr, t, dealer, n, HSub(HCat("00", ad), 0, HLen(ad))) >>
       \o MapSeq(LAMBDA o : Pub("d", o, t, dealer, n, ad), ops) \o signs
       \o Flat([i \in 1..Len(mods) |-> << ModE("d", "m" \o S(i), mods[i][1], mods[i][2]), pub("m" \o S(i)) >>])
       \o (IF typ \notin {"msk", "mul"} THEN << >> ELSE LET pm == ProofMods(typ, ad, x, y, m) IN Flat([i \in 1..Len(pm) |-> << ModE("d", "w" \o S(i), "proofmake", pm[i]), pub("w" \o S(i)) >>])))
\* proofs for dealings under another past: zero secrets and masks make relations degenerate
PubZero(typ, j) ==
  LET l == "PZ" \o typ \o S(j)  x == IF j \in {1, 4} THEN ScZero ELSE RSc(l \o "x")  y == IF j \in {2, 4} THEN ScZero ELSE RSc(l \o "y")  m == IF j \in {3, 4} THEN ScZero ELSE RSc(l \o "m")
      pub(d) == Pub(d, TrR(typ, ""), 2, "1", 2, "61")
      mods == << <<"com", [i |-> 0, d |-> PtG]>>, <<"comneg", [i |-> 0]>>, <<"proofc", [d |-> D1]>>, <<"proofr1", [d |-> D1]>>, <<"prooftype", [t |-> typ, d |-> ScZero]>>, <<"prooftype", [t |-> typ, d |-> ScOne]>> >>
              \o (IF typ = "mul" THEN << <<"proofr2", [d |-> D1]>> >> ELSE << >>)
  IN Scen("pubz-" \o typ \o "-" \o S(j), KeysE("k", l, 2) \o One(typ, "", l, 2, 2, "1", "61", x, y, m) \o << pub("d") >> \o Flat([i \in 1..Len(mods) |-> << ModE("d", "m" \o S(i), mods[i][1], mods[i][2]), pub("m" \o S(i)) >>]))
\* previous commitments of other lengths, and wrong in any one of their coefficients
PubBig(typ, n1, n2) ==
  LET l == "PB" \o typ \o S(n1)  dealer == IF n1 = 1 THEN "65535" ELSE "2"  ad == "6162"  x == RSc(l \o "x")  y == RSc(l \o "y")  m == RSc(l \o "m")  c == NodeSc(dealer)
      pub(tr) == Pub("d", tr, 4, dealer, 5, ad)
      a == Thru(l \o "a", n1, c, x)  b == Thru(l \o "b", n2, c, IF typ = "msk" THEN m ELSE y)  r == Thru(l \o "c", n2, c, m)
      bump(p, i) == [p EXCEPT ![i] = ScAdd(@, ScOne)]
      one(i) == LET o == "w" \o S(i) IN
        CASE typ = "unm" -> << MkTr(o, "int", "S", bump(a, i), << >>, n1), pub([t |-> "unm", p1 |-> o]) >>
          [] typ = "msk" -> << MkTr(o, "sum", "P", bump(a, i), Pad(b, n1), n1), pub([t |-> "msk", p1 |-> o]) >>
          [] typ = "mul" -> << MkTr(o, "int", "S", bump(a, i), << >>, n1), pub([t |-> "mul", p1 |-> o, p2 |-> "p2"]) >>
      two(i) == LET o == "v" \o S(i) IN IF typ = "mul" THEN << MkTr(o, "sum", "P", b, bump(r, i), n2), pub([t |-> "mul", p1 |-> "p1", p2 |-> o]), MkTr("u" \o o, "sum", "P", bump(b, i), r, n2), pub([t |-> "mul", p1 |-> "p1", p2 |-> "u" \o o]) >> ELSE << >>
      prev == IF typ = "msk" THEN << MkTr("p1", "sum", "P", a, Pad(b, n1), n1) >> ELSE Past(typ, "", l, dealer, x, y, m, n1, n2)
  IN Scen("pub-big-" \o typ \o "-" \o S(n1), KeysE("k", l, 5) \o prev \o << DealE("d", SecR(typ, x, y, m), 4, Nm("k", 5), dealer, ad, l), pub(TrR(typ, "")) >> \o Flat([i \in 1..n1 |-> one(i)]) \o Flat([i \in 1..n2 |-> two(i)])
       \o Flat([i \in 1..4 |-> << ModE("d", "c" \o S(i), "com", [i |-> i - 1, d |-> PtH]), Pub("c" \o S(i), TrR(typ, ""), 4, dealer, 5, ad) >>]))
PubBigs(zz) == Flat(MapSeq(LAMBDA y : << PubBig(y, 7, 5), PubBig(y, 1, 1), PubBig(y, 3, 2) >> \o (IF Times(1, 2) = 1 THEN << >> ELSE << PubBig(y, 40, 34) >>), <<"unm", "msk", "mul">>))
PubScs(zz) == PubBigs(0) \o Flat([y \in 1..4 |-> [j \in 1..Times(3, 12) |-> PubSc(Typs[y], j)]]) \o [j \in 1..4 |-> PubZero("msk", j)] \o [j \in 1..4 |-> PubZero("mul", j)]

\* ----------------------------------------------------- private verification ---
PrivSc(typ, j) ==
  LET l == "V" \o typ \o S(j)  n == 3  t == Th(j)  dealer == IF j = 1 THEN "1" ELSE Idx[1 + RInt(l, Len(Idx))]  ad == Ads[1 + RInt(l, Len(Ads))]
      all(d) == [i \in 1..n |-> Priv(d, "k" \o S(i - 1), ad, dealer, S(i - 1))] \o << OpenD(d, "k1", ad, dealer, "1") >>
      other == IF dealer = "0" THEN "1" ELSE "0"
      x == IF j % 3 = 0 THEN ScZero ELSE RSc(l \o "x")
      mods == << <<"ct", [i |-> 1, dv |-> D1, dm |-> ScZero]>>, <<"ct", [i |-> 0, dv |-> NM1, dm |-> RSc(l \o "dm")]>>, <<"ct", [i |-> 2, dv |-> RSc(l \o "dv"), dm |-> RSc(l \o "dm")]>> >>
         \o (IF typ \in {"rand", "mul"} THEN << <<"ct", [i |-> 1, dv |-> ScZero, dm |-> D1]>> >> ELSE << >>)
         \o << <<"swapct", [i |-> 0, j |-> 1]>>, <<"swapct", [i |-> 1, j |-> 2]>>, <<"com", [i |-> 0, d |-> PtG]>>, <<"com", [i |-> t - 1, d |-> PtH]>>, (IF t = 1 THEN <<"comadd", [d |-> PtH]>> ELSE <<"comdrop", None>>), <<"comadd", [d |-> PtG]>>, <<"comadd", [d |-> PtId]>>, <<"comkind", None>>,
               <<"comset", [k |-> IF typ \in {"rand", "mul"} THEN "P" ELSE "S", p |-> <<PtId>>]>>, <<"ctfrom", [from |-> "od"]>>, <<"comfrom", [from |-> "od"]>>, <<"dropct", None>>, <<"addct", None>>, <<"noct", None>>,
               <<"popr", [d |-> D1]>>, <<"eph", [d |-> PtG]>>, <<"proofnil", None>>, <<"ctkind", None>>, <<"comneg", [i |-> 0]>>, <<"comneg", [i |-> t - 1]>>, <<"comneg", [i |-> -1]>>, <<"comrev", None>>, <<"ephneg", None>>, <<"popneg", None>> >>
         \o (IF typ \in {"rand", "mul"} THEN << <<"ctswapvm", [i |-> 1]>> >> ELSE << >>) \o FormMods \o SetMods(1)
      \* commitment changed so that it differs at one recipient only... and so that it agrees at one recipient only
      agree == <<ScNeg(NodeSc("1")), ScOne>>
  IN Scen("priv-" \o typ \o "-" \o S(j), KeysE("k", l, n) \o << KeyE("z", l \o "z") >> \o OneN(typ, "", l, t, n, dealer, ad, x, RSc(l \o "y"), RSc(l \o "m"), Pl(j)[1], Pl(j)[2])
       \o << DealE("od", SecR(typ, RSc(l \o "2"), RSc(l \o "y"), RSc(l \o "m")), t, Nm("k", n), dealer, ad, l \o "o"), DealE("xd", OtherForm(typ, l), t, Nm("k", n), dealer, ad, l \o "xd") >> \o all("d") \o all("xd")
       \o MapSeq(LAMBDA i : Priv("d", "k1", ad, i, "1"), Near(dealer)) \o MapSeq(LAMBDA i : Priv("d", "k1", ad, dealer, i), Near("1")) \o MapSeq(LAMBDA i : Priv("d", "k0", ad, dealer, i), Near("0"))
       \o << Priv("d", "k0", ad, dealer, "1"), Priv("d", "k1", ad, dealer, "0"), Priv("d", "z", ad, dealer, "0"), Priv("d", "k0", ad, dealer, "3"), Priv("d", "k0", ad, dealer, "4294967295"),
             Priv("d", "k0", ad, other, "0"), Priv("d", "k0", HCat(ad, "00"), dealer, "0"), Priv("d", "k0", HCat("00", ad), dealer, "0"),
             Priv("d", "k0", ad, dealer, "0") @@ [pk |-> "k1"], Priv("d", "k1", ad, dealer, "0") @@ [pk |-> "k0"], Priv("d", "z", ad, dealer, "0") @@ [pk |-> "k0"], Priv("d", "k0", ad, dealer, "0") @@ [pk |-> "z"],
             ModE("d", "ag0", "com", [i |-> 0, d |-> PtMul(PtG, agree[1])]), ModE("ag0", "ag", "com", [i |-> 1 % t, d |-> PtMul(PtG, agree[2])]) >> \o all("ag")
       \o Flat([i \in 1..Len(mods) |-> << ModE("d", "m" \o S(i), mods[i][1], mods[i][2]) >> \o all("m" \o S(i))]))
PrivScs(zz) == Flat([y \in 1..4 |-> [j \in 1..Times(3, 12) |-> PrivSc(Typs[y], j)]])

\* --------------------------------------------------------------- encryption ---
EncE(out, kind, pts, recips, dealer, ad, l) == [op |-> "enc", out |-> out, kind |-> kind, pts |-> pts, recips |-> recips, dealer |-> dealer, ad |-> ad, seed |-> RBytes("enc" \o l)]
CtDec(d, key, ad, dealer, idx) == [op |-> "ctdec", d |-> d, key |-> key, ad |-> ad, dealer |-> dealer, idx |-> idx]
CtSs(d, pk, ss, ad, dealer, idx) == [op |-> "ctss", d |-> d, pk |-> pk, ss |-> ss, ad |-> ad, dealer |-> dealer, idx |-> idx]
\* ss of a recipient is not known here: the driver takes the recipient's key (field "own")
CtOwn(d, pk, own, ad, dealer, idx) == [op |-> "ctss", d |-> d, pk |-> pk, own |-> own, ad |-> ad, dealer |-> dealer, idx |-> idx]
Valid(d, n, ad, dealer) == [op |-> "ctvalid", d |-> d, n |-> n, ad |-> ad, dealer |-> dealer]
EncSc(kind, j) ==
  LET l == "E" \o kind \o S(j)  n == IF j <= 2 THEN j ELSE 1 + RInt(l \o "n", 6)  dealer == Idx[1 + ((7 * j + RInt("eo", 19)) % Len(Idx))]  ad == Ads[1 + (j % Len(Ads))]
      pts == [i \in 1..n |-> << IF i % 3 = 1 THEN ScEdge[1 + RInt(L(l, i), Len(ScEdge))] ELSE RSc(L(l, i)), IF i % 3 = 2 THEN ScZero ELSE RSc(L(l \o "m", i)) >>]
      ks == IF j % 3 = 0 THEN [i \in 1..n |-> KeyS("k" \o S(i - 1), <<ScOne, NM1, ScDec("2"), Half, RSc(l), ScShort[2]>>[i])] ELSE KeysE("k", l, n)
  IN Scen("enc-" \o kind \o "-" \o S(j), ks \o << EncE("d", kind, pts, Nm("k", n), dealer, ad, l), Valid("d", n, ad, dealer), Valid("d", n + 1, ad, dealer), Valid("d", n - 1, ad, dealer) >>
       \o Flat([i \in 1..n |-> << CtDec("d", "k" \o S(i - 1), ad, dealer, S(i - 1)), CtOwn("d", "k" \o S(i - 1), "k" \o S(i - 1), ad, dealer, S(i - 1)) >>])
       \o << CtDec("d", "k0", ad, dealer, S(n)), CtDec("d", "k0", ad, dealer, "4294967295"), CtOwn("d", "k0", "k0", ad, dealer, S(n)), CtOwn("d", "k0", "k0", ad, dealer, "2147483648"),
             EncE("", kind, pts \o <<pts[1]>>, Nm("k", n), dealer, ad, l), EncE("", kind, Tail(pts), Nm("k", n), dealer, ad, l), EncE("", kind, << >>, << >>, dealer, ad, l), EncE("", kind, << >>, Nm("k", n), dealer, ad, l),
             EncE("", kind, pts, << >>, dealer, ad, l), [op |-> "note", what |-> "masks", of |-> <<"d">>] >>
       \o Flat([b \in 1..5 |-> LET q == SetMods(n - 1)[b] IN << ModE("d", "q" \o S(b), q[1], q[2]), CtDec("q" \o S(b), "k" \o S(n - 1), ad, dealer, S(n - 1)), CtDec("q" \o S(b), "k0", ad, dealer, "0") >>]))
\* many recipients: two-byte recipient indices
EncBig(kind) == LET n == 258 IN Scen("enc-big-" \o kind, << KeyE("k", "big") >> \o << EncE("d", kind, [i \in 1..n |-> <<ScDec(S(i)), ScDec(S(2 * i))>>], [i \in 1..n |-> "k"], "256", "61", "big"), Valid("d", n, "61", "256") >>
   \o MapSeq(LAMBDA i : CtDec("d", "k", "61", "256", i), <<"0", "1", "127", "128", "254", "255", "256", "257", "258">>) \o << [op |-> "note", what |-> "masks", of |-> <<"d">>] >>)
\* every part of the context
CtxSc(kind, j) ==
  LET l == "X" \o kind \o S(j)  n == 3  dealer == <<"1", "0", "256", "65536">>[1 + (j % 4)]  ad == Ads[1 + (j % Len(Ads))]
      pts == [i \in 1..n |-> <<RSc(L(l, i)), RSc(L(l \o "m", i))>>]
      ads == << HCat(ad, "00"), HCat("00", ad), HCat(ad, "01"), "ff", RLong(l, 256), RLong(l, 257), HCat(RLong(l, 256), "00") >>
      ds == SortIdx(SetSeq(Range(<< "0", "1", "2", "255", "256", "65535", "65536", "16777216", "4294967295" >> \o Near(dealer))))
  IN Scen("ctx-" \o kind \o "-" \o S(j), KeysE("k", l, n) \o << KeyE("z", l \o "z"), EncE("d", kind, pts, Nm("k", n), dealer, ad, l), EncE("e", kind, pts, Nm("k", n), dealer, ad, l \o "e"),
          EncE("f", IF kind = "S" THEN "P" ELSE "S", pts, Nm("k", n), dealer, ad, l), ModE("d", "g", "ctkind", None), ModE("d", "h", "eph", [d |-> PtG]), ModE("d", "w", "swapct", [i |-> 0, j |-> 1]) >>
       \o Flat(MapSeq(LAMBDA i : MapSeq(LAMBDA x : CtOwn("d", "k0", "k0", ad, x, i), ds), <<"0", "1", "2">>))
       \o MapSeq(LAMBDA a : CtOwn("d", "k0", "k0", a, dealer, "0"), ads)
       \o MapSeq(LAMBDA p : CtOwn("d", p[1], p[2], ad, dealer, p[3]), Triples(<<"k0", "k1", "z">>, <<"k0", "k1", "z">>, <<"0", "1">>))
       \o MapSeq(LAMBDA p : CtSs("d", "k0", p, ad, dealer, "0"), PtEdge \o <<RPt(l)>>)
       \o Flat(MapSeq(LAMBDA d : << CtOwn(d, "k0", "k0", ad, dealer, "0"), CtOwn(d, "k1", "k1", ad, dealer, "1"), CtOwn(d, "k0", "k0", ad, dealer, "1") >>, <<"e", "f", "g", "h", "w">>))
       \o << CtDec("d", "k1", ad, dealer, "0"), CtDec("d", "z", ad, dealer, "0"), CtDec("d", "k0", ad, dealer, "1"), CtDec("w", "k0", ad, dealer, "0"), CtDec("w", "k1", ad, dealer, "1"),
             CtDec("d", "k0", ad, dealer, "0") @@ [pk |-> "k1"], CtDec("d", "k1", ad, dealer, "1") @@ [pk |-> "z"], CtDec("d", "k0", HCat(ad, "00"), dealer, "0"), CtDec("d", "k0", ad, "77", "0"),
             [op |-> "note", what |-> "masks", of |-> <<"d", "e", "f">>] >>)
\* the possession proof
PopSc(kind, j) ==
  LET l == "O" \o kind \o S(j)  dealer == <<"1", "0", "256", "4294967295">>[1 + (j % 4)]  ad == Ads[1 + (j % Len(Ads))]  pts == <<<<RSc(l), RSc(l \o "m")>>>>
      q == << <<"ephneg", None>>, <<"popneg", None>>, <<"eph", [d |-> PtG]>>, <<"pop", [d |-> PtG]>>, <<"pop", [d |-> RPt(l)]>>, <<"popc", [d |-> D1]>>, <<"popc", [d |-> RSc(l \o "c")]>>, <<"popr", [d |-> D1]>>, <<"popr", [d |-> NM1]>>, <<"popfrom", [from |-> "e"]>>, <<"poppfrom", [from |-> "e"]>>,
              <<"poppfrom", [from |-> "b"]>>, <<"popfrom", [from |-> "b"]>>, <<"poppfrom", [from |-> "c"]>>, <<"popfrom", [from |-> "c"]>>, <<"popfrom", [from |-> "f"]>>, <<"poppfrom", [from |-> "f"]>>, <<"ctkind", None>>, <<"ctfrom", [from |-> "f"]>>, <<"addct", None>> >>
      chk(d, a, i) == << Valid(d, 1, a, i), CtDec(d, "k0", a, i, "0"), Priv(d, "k0", a, i, "0") >>
      od == IF dealer = "0" THEN "1" ELSE "0"
  IN Scen("pop-" \o kind \o "-" \o S(j), KeysE("k", l, 1) \o << EncE("d", kind, pts, <<"k0">>, dealer, ad, l), EncE("e", kind, pts, <<"k0">>, dealer, ad, l \o "e"), EncE("b", kind, pts, <<"k0">>, od, ad, l), EncE("c", kind, pts, <<"k0">>, dealer, HCat(ad, "61"), l),
             EncE("f", IF kind = "S" THEN "P" ELSE "S", pts, <<"k0">>, dealer, ad, l) >>
       \o chk("d", ad, dealer) \o chk("d", ad, od) \o chk("d", HCat(ad, "61"), dealer) \o chk("d", HCat(ad, "00"), dealer) \o chk("d", "ff", dealer) \o chk("b", ad, dealer) \o chk("c", ad, dealer) \o chk("c", HCat(ad, "61"), dealer) \o chk("f", ad, dealer) \o Flat(MapSeq(LAMBDA i : chk("d", ad, i), Near(dealer)))
       \o Flat([i \in 1..Len(q) |-> << ModE("d", "m" \o S(i), q[i][1], q[i][2]) >> \o chk("m" \o S(i), ad, dealer)]))
EncScs(zz) == Flat(MapSeq(LAMBDA k : [j \in 1..Times(5, 40) |-> EncSc(k, j)], <<"S", "P">>)) \o << EncBig("S"), EncBig("P") >>
\* recipients further apart than a byte can tell, all with the same key
CtxBig(kind) == LET n == 258 IN Scen("ctx-big-" \o kind, << KeyE("k", "big"), EncE("d", kind, [i \in 1..n |-> <<RSc(L("cb", i % 5)), RSc(L("cm", i % 7))>>], [i \in 1..n |-> "k"], "65536", "61", "cbig") >>
   \o MapSeq(LAMBDA i : CtOwn("d", "k", "k", "61", "65536", i), <<"0", "1", "2", "128", "255", "256", "257">>) \o << [op |-> "note", what |-> "masks", of |-> <<"d">>] >>)
CtxScs(zz) == << CtxBig("S"), CtxBig("P") >> \o Flat(MapSeq(LAMBDA k : [j \in 1..Times(2, 12) |-> CtxSc(k, j)], <<"S", "P">>))
PopScs(zz) == Flat(MapSeq(LAMBDA k : [j \in 1..Times(3, 24) |-> PopSc(k, j)], <<"S", "P">>))

\* ------------------------------------------------------------ whole rounds ---
\* One round: dealers (indices), with secrets secs[j]; receivers are the keys names; every dealing is
\* verified, the transcript is made from all of them and opened by every receiver (opening pre o <i>).
RoundE(pre, typ, tr, thr, dealers, secs, names, ad, l) ==
  LET n == Len(names)  dn(j) == pre \o "d" \o dealers[j]
      ds == [j \in 1..Len(dealers) |-> <<dealers[j], dn(j)>>] IN
  [j \in 1..Len(dealers) |-> DealE(dn(j), secs[j], thr, names, dealers[j], ad, L(l, j))]
  \o [j \in 1..Len(dealers) |-> Pub(dn(j), tr, thr, dealers[j], n, ad)]
  \o << [op |-> "tr", out |-> pre \o "t", ds |-> ds, tr |-> tr, thr |-> thr] >>
  \o [i \in 1..n |-> [op |-> "open", out |-> pre \o "o" \o S(i - 1), ds |-> ds, tr |-> pre \o "t", given |-> << >>, with |-> i % 2 = 0, ad |-> ad, idx |-> S(i - 1), key |-> names[i]]]
OpS(pre, is) == MapSeq(LAMBDA i : <<i, pre \o "o" \o i>>, is)
NSec(tr, ops) == [op |-> "note", what |-> "secret", tr |-> tr, ops |-> ops]
NSame(a, b) == [op |-> "note", what |-> "samesecret", a |-> a, b |-> b]
NProd(a, b, c) == [op |-> "note", what |-> "product", a |-> a, b |-> b, c |-> c]
\* all subsets of 0..n-1 with at least t elements, as sequences of index strings
SubsOf(n, t) == SetSeq({ {i \in 0..(n - 1) : x[i + 1]} : x \in {y \in [1..n -> BOOLEAN] : Cardinality({i \in 1..n : y[i]}) >= t} })
AsIdx(X) == SortIdx(MapSeq(LAMBDA i : S(i), SetSeq(X)))
Subs(n, t) == MapSeq(AsIdx, SubsOf(n, t))
OpenSec(pre, is) == MapSeq(LAMBDA i : [t |-> "open", o1 |-> pre \o "o" \o i], is)
OpenSec2(p1, p2, is) == MapSeq(LAMBDA i : [t |-> "open", o1 |-> p1 \o "o" \o i, o2 |-> p2 \o "o" \o i], is)
RandSec(n) == [j \in 1..n |-> [t |-> "rand"]]
\* a random transcript by these dealers, then a masked resharing, then an unmasked one, each by chosen dealers to chosen receivers
ChainSc(j) ==
  LET l == "C" \o S(j)
      c == << [d |-> <<"0", "1", "2">>, t |-> 2, n |-> 3, d2 |-> <<"0", "1">>, t2 |-> 2, n2 |-> 3, d3 |-> <<"1", "2">>, t3 |-> 3, n3 |-> 4],
              [d |-> <<"7">>, t |-> 1, n |-> 1, d2 |-> <<"0">>, t2 |-> 1, n2 |-> 2, d3 |-> <<"1">>, t3 |-> 2, n3 |-> 2],
              [d |-> <<"4294967295", "0">>, t |-> 3, n |-> 5, d2 |-> <<"0", "2", "4">>, t2 |-> 1, n2 |-> 4, d3 |-> <<"3", "0">>, t3 |-> 2, n3 |-> 3],
              [d |-> <<"3", "1">>, t |-> 2, n |-> 4, d2 |-> <<"3", "0", "2", "1">>, t2 |-> 3, n2 |-> 3, d3 |-> <<"2", "1", "0">>, t3 |-> 1, n3 |-> 2] >>
      q == IF j = 5 THEN [d |-> <<"0", "4", "9", "300">>, t |-> 6, n |-> 11, d2 |-> <<"1", "2", "3", "5", "7", "8", "10">>, t2 |-> 7, n2 |-> 9, d3 |-> <<"0", "1", "2", "4", "5", "6", "7", "8">>, t3 |-> 3, n3 |-> 3] ELSE IF j <= 4 THEN c[j] ELSE
           LET n == 1 + RInt(l \o "n", 5)  t == 1 + RInt(l \o "t", n)  n2 == 1 + RInt(l \o "n2", 5)  t2 == 1 + RInt(l \o "t2", n2)  n3 == 1 + RInt(l \o "n3", 5)  t3 == 1 + RInt(l \o "t3", n3)
           IN [d |-> AsIdx({RInt(L(l \o "d", i), 8) : i \in 1..3}), t |-> t, n |-> n, d2 |-> Pick(l \o "s2", Subs(n, t)), t2 |-> t2, n2 |-> n2, d3 |-> Pick(l \o "s3", Subs(n2, t2)), t3 |-> t3, n3 |-> n3]
      ad == Ads[1 + (j % Len(Ads))]
  IN Scen("chain-" \o S(j), KeysE("a", l \o "a", q.n) \o KeysE("b", l \o "b", q.n2) \o KeysE("c", l \o "c", q.n3)
       \o RoundE("r", "rand", [t |-> "rand"], q.t, q.d, RandSec(Len(q.d)), Nm("a", q.n), ad, l \o "r") \o MapSeq(LAMBDA x : NSec("rt", OpS("r", x)), IF q.n > 6 THEN << AsIdx(0..(q.t - 1)), AsIdx((q.n - q.t)..(q.n - 1)) >> ELSE Subs(q.n, q.t))
       \o RoundE("m", "msk", [t |-> "msk", p1 |-> "rt"], q.t2, q.d2, OpenSec("r", q.d2), Nm("b", q.n2), ad, l \o "m") \o << NSec("mt", OpS("m", AsIdx(0..(q.t2 - 1)))), NSame(OpS("r", AsIdx(0..(q.t - 1))), OpS("m", AsIdx((q.n2 - q.t2)..(q.n2 - 1)))) >>
       \o RoundE("u", "unm", [t |-> "unm", p1 |-> "mt", wrap |-> j % 2 = 0], q.t3, q.d3, OpenSec("m", q.d3), Nm("c", q.n3), ad, l \o "u") \o << NSec("ut", OpS("u", AsIdx(0..(q.t3 - 1)))), NSame(OpS("r", AsIdx(0..(q.t - 1))), OpS("u", AsIdx((q.n3 - q.t3)..(q.n3 - 1)))) >>
       \o << [op |-> "note", what |-> "sameconst", a |-> "mt", b |-> "ut"] >>)
\* every sufficient set of dealers gives the same secret
DealersSc(typ, j) ==
  LET l == "R" \o typ \o S(j)  n == IF typ = "mul" THEN 4 ELSE 3 + (j % 2)  t == 2  k == IF typ = "unm" THEN "S" ELSE "P"
      z1 == IF j % 4 = 1 THEN ScZero ELSE RSc(l \o "z1")  z2 == IF j % 4 \in {1, 2} THEN ScZero ELSE RSc(l \o "z2")  zm == IF j % 4 = 3 THEN ScZero ELSE RSc(l \o "zm")
      a == [RP(l \o "a", t) EXCEPT ![1] = z1]  b == [RP(l \o "b", t) EXCEPT ![1] = z2]  m == [RP(l \o "m", t) EXCEPT ![1] = zm]
      is == IF j % 2 = 0 THEN AsIdx(0..(n - 1)) ELSE SubSeq(<<"255", "256", "65536", "4294967295">>, 1, n)
      need == IF typ = "mul" THEN 3 ELSE 2
      v(p, i) == Eval(p, NodeSc(i))
      mine == IF typ = "mul" THEN << MkTr("p1", "int", "S", a, << >>, t), MkTr("p2", "sum", "P", b, m, t) >> ELSE << MkTr("p1", IF k = "S" THEN "int" ELSE "sum", k, a, m, t) >>
      ops == Flat(MapSeq(LAMBDA i : << MkO("xo" \o i, IF typ = "mul" THEN "S" ELSE k, v(a, i), v(m, i)) >> \o (IF typ = "mul" THEN << MkO("yo" \o i, "P", v(b, i), v(m, i)) >> ELSE << >>), is))
      tr == TrR(typ, "")
      deals == MapSeq(LAMBDA i : DealE("d" \o i, IF typ = "mul" THEN [t |-> "open", o1 |-> "xo" \o i, o2 |-> "yo" \o i] ELSE [t |-> "open", o1 |-> "xo" \o i], 2, <<"k0", "k1", "k2">>, i, "ad", l \o i), is)
      dsOf(X) == MapSeq(LAMBDA i : <<is[i + 1], "d" \o is[i + 1]>>, SetSeq(X))
      sets == SubsOf(n, 0)
      made(c) == LET X == sets[c]  q == S(c) \o "q" IN
          << [op |-> "tr", out |-> q \o "t", ds |-> dsOf(X), tr |-> tr, thr |-> 2] >>
          \o (IF Cardinality(X) < need THEN << >> ELSE
              [i \in 1..3 |-> [op |-> "open", out |-> q \o "o" \o S(i - 1), ds |-> dsOf(X), tr |-> q \o "t", given |-> << >>, ad |-> "ad", idx |-> S(i - 1), key |-> "k" \o S(i - 1)]]
              \o << NSec(q \o "t", OpS(q, <<"0", "1">>)), NSec(q \o "t", OpS(q, <<"0", "1", "2">>)),
                    IF typ = "mul" THEN NProd(OpS("x", SubSeq(is, 1, 2)), OpS("y", SubSeq(is, 2, 3)), OpS(q, <<"2", "0">>)) ELSE NSame(OpS("x", SubSeq(is, 1, 2)), OpS(q, <<"1", "2">>)) >>)
  IN Scen("dealers-" \o typ \o "-" \o S(j), KeysE("k", l, 3) \o mine \o ops \o deals \o MapSeq(LAMBDA i : Pub("d" \o i, tr, 2, i, 3, "ad"), is) \o Flat([c \in 1..Len(sets) |-> made(c)]))
RandTrSc(j) ==
  LET l == "T" \o S(j)  n == <<3, 1, 4, 5>>[1 + (j % 4)]  t == 1 + RInt(l, n)  nd == 1 + (j % 4)
      ds == IF j % 2 = 0 THEN AsIdx(0..(nd - 1)) ELSE SubSeq(<<"4294967295", "0", "65535", "128">>, 1, nd)  ad == Ads[1 + (j % Len(Ads))]
  IN Scen("rand-" \o S(j), KeysE("k", l, n) \o RoundE("r", "rand", [t |-> "rand"], t, ds, RandSec(nd), Nm("k", n), ad, l)
       \o MapSeq(LAMBDA x : NSec("rt", OpS("r", x)), Subs(n, t))
       \* inconsistent: another dealing set, another receiver, an altered share, a commitment that is not the transcript's
       \o LET all == [i \in 1..nd |-> <<ds[i], "rd" \o ds[i]>>]
              op(dd, tr, k, i, a) == [op |-> "open", out |-> "", ds |-> dd, tr |-> tr, given |-> << >>, ad |-> a, idx |-> i, key |-> k]
              swap(nm) == <<<<ds[1], nm>>>> \o Tail(all) IN
          << ModE("rd" \o ds[1], "b1", "ct", [i |-> 0, dv |-> D1, dm |-> ScZero]), op(swap("b1"), "rt", "k0", "0", ad), ModE("rd" \o ds[1], "b2", "ct", [i |-> 0, dv |-> ScZero, dm |-> D1]), op(swap("b2"), "rt", "k0", "0", ad),
             DealE("b3", [t |-> "rand"], t, Nm("k", n), ds[1], ad, l \o "3"), op(swap("b3"), "rt", "k0", "0", ad), op(Tail(all), "rt", "k0", "0", ad), op(all, "rt", "k0", S(n), ad), op(all, "rt", "k0", "0", HCat(ad, "00")),
             DealE("b4", [t |-> "unm", s1 |-> RSc(l)], t, Nm("k", n), ds[1], ad, l \o "4"), op(swap("b4"), "rt", "k0", "0", ad), op(<<<<ds[1], "b4">>>>, "rt", "k0", "0", ad),
             MkTr("ot", "sum", "P", RP(l \o "o", t), RP(l \o "p", t), t), op(all, "ot", "k0", "0", ad), MkTr("oi", "int", "P", RP(l \o "o", t), RP(l \o "p", t), t), op(all, "oi", "k0", "0", ad), MkTr("os", "int", "S", RP(l \o "o", t), << >>, t), op(all, "os", "k0", "0", ad),
             [op |-> "tr", out |-> "t5", ds |-> all \o <<<<"77", "b3">>>>, tr |-> [t |-> "rand"], thr |-> t], op(all \o <<<<"77", "b3">>>>, "t5", "k0", "0", ad) >>)
\* dealings that are equal, or cancel, wholly or in some coefficients
CancelSc(j) ==
  LET l == "TC" \o S(j)  n == 3  t == 1 + (j % 3)  ad == Ads[1 + (j % Len(Ads))]
      is == <<"0", "4", "256">>
      tr(out, ds) == [op |-> "tr", out |-> out, ds |-> [c \in 1..Len(ds) |-> <<is[c], ds[c]>>], tr |-> [t |-> "rand"], thr |-> t]
      op(tn, ds, i) == [op |-> "open", out |-> tn \o "o" \o S(i), ds |-> [c \in 1..Len(ds) |-> <<is[c], ds[c]>>], tr |-> tn, given |-> << >>, ad |-> ad, idx |-> S(i), key |-> "k" \o S(i)]
      neg(in, out, i) == ModE(in, out, "comneg", [i |-> i])
      go(tn, ds, k) == << tr(tn, ds) >> \o [i \in 1..k |-> op(tn, ds, i - 1)]
  IN Scen("cancel-" \o S(j), KeysE("k", l, n) \o Flat(MapSeq(LAMBDA i : << DealE("a" \o i, [t |-> "rand"], t, Nm("k", n), i, ad, l), DealE("b" \o i, [t |-> "rand"], t, Nm("k", n), i, ad, l \o i) >>, is))
       \o << neg("a4", "n", -1), neg("a4", "f", 0), neg("a4", "l", t - 1), neg("a256", "m", -1), ModE("a4", "z", "comset", [k |-> "P", p |-> [i \in 1..t |-> PtId]]) >>
       \* equal commitments by different dealers count once each
       \o go("t1", <<"a0", "a4">>, n) \o (IF t > n THEN << >> ELSE << NSec("t1", OpS("t1", AsIdx(0..(t - 1)))) >>) \o go("t2", <<"a0", "a4", "a256">>, n) \o << NSec("t2", OpS("t2", AsIdx((n - t)..(n - 1)))) >> \o go("t3", <<"a0", "b4", "a256">>, 1)
       \* commitments that sum to nothing, in all, the first or the last coefficient
       \o go("t4", <<"a0", "n">>, 1) \o go("t5", <<"a0", "f">>, 1) \o go("t6", <<"a0", "l">>, 1) \o go("t7", <<"a0", "n", "b256">>, 1) \o go("t8", <<"a0", "l", "m">>, 1) \o go("t9", <<"n", "a4">>, 1)
       \* commitments with the identity in some coefficient only
       \o Flat([i \in 1..t |-> LET zi == "z" \o S(i) IN << ModE("b4", zi, "com", [i |-> i - 1, d |-> PtNeg(PtG)]), [op |-> "mod", in |-> "b4", out |-> zi, what |-> "comset", k |-> "P", p |-> [q \in 1..t |-> IF q = i THEN PtId ELSE RPt(L(l, q))]], tr(zi \o "t", <<zi>>), tr(zi \o "u", <<"b0", zi>>), tr(zi \o "v", <<zi, "b4", "a256">>) >>])
       \o << tr("t10", <<"z">>), tr("t11", <<"b0", "z">>), tr("t12", <<"n">>) >>)
\* dealers whose share is zero (the value, the mask, or both): they still deal, and the receivers' openings count them
ZeroDealSc(typ, j) ==
  LET l == "Z" \o typ \o S(j)  t == 2  thr == 1 + (j % 2)  is == IF j % 2 = 1 THEN <<"0", "1", "2">> ELSE <<"65536", "255", "4294967295">>
      \* the j-th dealer, at index z, has zero for a share
      z == is[1 + (j % 3)]  root(r) == LET c == RSc(r) IN << ScNeg(ScMul(c, NodeSc(z))), c >>
      k == IF typ = "unm" THEN "S" ELSE "P"  v(p, i) == Eval(p, NodeSc(i))
      zero == CASE j % 4 = 1 -> <<TRUE, TRUE, FALSE>> [] j % 4 = 2 -> <<TRUE, FALSE, FALSE>> [] j % 4 = 3 -> <<FALSE, TRUE, TRUE>> [] OTHER -> <<TRUE, TRUE, TRUE>>
      pol(q, r) == IF zero[q] THEN root(l \o r) ELSE RP(l \o r, t)
      a == IF typ = "unm" THEN root(l \o "a") ELSE pol(1, "a")  b == pol(2, "b")  m == IF typ = "msk" THEN pol(2, "m") ELSE pol(3, "m")
      mine == IF typ = "mul" THEN << MkTr("p1", "int", "S", a, << >>, t), MkTr("p2", "sum", "P", b, m, t) >> ELSE << MkTr("p1", IF k = "S" THEN "int" ELSE "sum", k, a, m, t) >>
      ops == Flat(MapSeq(LAMBDA i : << MkO("xo" \o i, IF typ = "mul" THEN "S" ELSE k, v(a, i), v(m, i)) >> \o (IF typ = "mul" THEN << MkO("yo" \o i, "P", v(b, i), v(m, i)) >> ELSE << >>), is))
      tr == TrR(typ, "")
      deals == MapSeq(LAMBDA i : DealE("d" \o i, IF typ = "mul" THEN [t |-> "open", o1 |-> "xo" \o i, o2 |-> "yo" \o i] ELSE [t |-> "open", o1 |-> "xo" \o i], thr, <<"k0", "k1", "k2">>, i, "ad", l \o i), is)
      made(X, q) == LET ds == MapSeq(LAMBDA i : <<i, "d" \o i>>, X) IN
          << [op |-> "tr", out |-> q \o "t", ds |-> ds, tr |-> tr, thr |-> thr] >>
          \o [i \in 1..3 |-> [op |-> "open", out |-> q \o "o" \o S(i - 1), ds |-> ds, tr |-> q \o "t", given |-> << >>, with |-> i = 2, ad |-> "ad", idx |-> S(i - 1), key |-> "k" \o S(i - 1)]]
          \o << NSec(q \o "t", OpS(q, <<"0", "1">>)), NSec(q \o "t", OpS(q, <<"2", "1", "0">>)),
                IF typ = "mul" THEN NProd(OpS("x", SubSeq(is, 1, 2)), OpS("y", SubSeq(is, 2, 3)), OpS(q, <<"2", "0">>)) ELSE NSame(OpS("x", SubSeq(is, 1, 2)), OpS(q, <<"1", "2">>)) >>
  IN Scen("zerodeal-" \o typ \o "-" \o S(j), KeysE("k", l, 3) \o mine \o ops \o deals \o MapSeq(LAMBDA i : Pub("d" \o i, tr, thr, i, 3, "ad"), is) \o Flat(MapSeq(LAMBDA i : AllRecv("d" \o i, 3, "ad", i), is))
       \o made(is, "q") \o (IF typ = "mul" THEN << >> ELSE made(SelectSeq(is, LAMBDA i : i # is[1 + ((j + 1) % 3)]), "r")))
Wide(n) == AsIdx(0..(n - 1))
\* larger committees
RandTrBig(nd, t, n) ==
  LET l == "TB" \o S(n)  ds == IF nd > 19 THEN Wide(nd) ELSE SortIdx(SubSeq(Idx, 1, nd)) IN
  Scen("rand-big-" \o S(n), KeysE("k", l, n) \o RoundE("r", "rand", [t |-> "rand"], t, ds, RandSec(nd), Nm("k", n), "ad", l)
       \o << NSec("rt", OpS("r", AsIdx(0..(t - 1)))), NSec("rt", OpS("r", AsIdx((n - t)..(n - 1)))), NSec("rt", OpS("r", AsIdx(0..(n - 1)))) >>)
TransScs(zz) == << RandTrBig(9, 8, 11) >> \o (IF Times(1, 2) = 1 THEN << >> ELSE << RandTrBig(30, 20, 40) >>) \o [j \in 1..Times(3, 9) |-> CancelSc(j)] \o [j \in 1..Times(8, 60) |-> RandTrSc(j)]

\* ------------------------------------------- dealings that do not fit (C09) ---
FitSc(j) ==
  LET l == "F" \o S(j)  ad == "61"  n == 4
      a == RP(l \o "a", 2)  m == RP(l \o "m", 2)  b == RP(l \o "b", 2)
      is == IF j = 1 THEN <<"0", "1", "2", "3">> ELSE <<"5", "255", "65536", "4294967295">>
      v(p, i) == Eval(p, NodeSc(i))
      dl(out, sec, t, i) == DealE(out, sec, t, Nm("k", n), i, ad, l \o out)
      tr(names, op, thr) == [op |-> "tr", out |-> "", ds |-> [c \in 1..Len(names) |-> <<is[c], names[c] \o is[c]>>], tr |-> op, thr |-> thr]
      mk == << MkTr("s", "int", "S", a, << >>, 2), MkTr("p", "sum", "P", b, m, 2), MkTr("q", "int", "P", b, m, 2), MkTr("s3", "int", "S", RP(l \o "3", 3), << >>, 3), MkTr("p3", "sum", "P", RP(l \o "4", 3), RP(l \o "5", 3), 3),
               [op |-> "mktr", out |-> "sx", cls |-> "int", k |-> "S", p |-> ComP(b, m, 2), rep |-> "aff"], [op |-> "mktr", out |-> "px", cls |-> "int", k |-> "P", p |-> ComS(a, 2), rep |-> "aff"] >>
      deals == Flat(MapSeq(LAMBDA i : << dl("r" \o i, [t |-> "rand"], 2, i), dl("R" \o i, [t |-> "rand"], 3, i), dl("u" \o i, [t |-> "unm", s1 |-> v(a, i)], 2, i), dl("U" \o i, [t |-> "unm", s1 |-> v(a, i)], 3, i), dl("w" \o i, [t |-> "unm", s1 |-> ScAdd(v(a, i), D1)], 2, i),
                   dl("m" \o i, [t |-> "msk", s1 |-> v(b, i), s2 |-> v(m, i)], 2, i), dl("M" \o i, [t |-> "msk", s1 |-> v(b, i), s2 |-> v(m, i)], 1, i), dl("x" \o i, [t |-> "mul", s1 |-> v(a, i), s2 |-> v(b, i), s3 |-> v(m, i)], 2, i) >>, is))
      O(t, p1, p2) == IF p1 = "" THEN [t |-> t] ELSE IF p2 = "" THEN [t |-> t, p1 |-> p1] ELSE [t |-> t, p1 |-> p1, p2 |-> p2]
      W(o) == o @@ [wrap |-> TRUE]
      rnd == MapSeq(LAMBDA s : tr(s, O("rand", "", ""), 2), << <<"r">>, <<"r", "r", "r">>, <<"r", "R">>, <<"R", "r">>, <<"r", "u">>, <<"u", "u">>, <<"m">>, <<"x", "r">>, <<"r", "r", "m">>, <<"R">> >>)
             \o << tr(<<"R">>, O("rand", "", ""), 3), tr(<<"r", "R">>, O("rand", "", ""), 3), tr(<<"r">>, O("rand", "", ""), 0), tr(<<"r">>, O("rand", "", ""), 1), tr(<<"r">>, O("rand", "", ""), -1), tr(<<"r">>, O("rand", "", ""), 258), tr(<<"r">>, O("rand", "", ""), 65538) >>
      unm == Flat(MapSeq(LAMBDA o : MapSeq(LAMBDA s : tr(s, o, 2), << <<"u", "u">>, <<"u", "u", "u">>, <<"u">>, << >>, <<"u", "w">>, <<"w", "w">>, <<"u", "u", "w">>, <<"u", "U">>, <<"u", "r">>, <<"r", "r">>, <<"m", "m">>, <<"u", "m">>, <<"w", "w", "w">> >>),
                   << O("unm", "s", ""), O("unm", "p", ""), O("unm", "q", ""), O("unm", "s3", ""), O("unm", "px", ""), O("unm", "sx", ""), W(O("unm", "s", "")), W(O("unm", "q", "")) >>))
      msk == Flat(MapSeq(LAMBDA o : MapSeq(LAMBDA s : tr(s, o, 2), << <<"m", "m">>, <<"m", "m", "m">>, <<"m">>, << >>, <<"m", "M">>, <<"M", "m">>, <<"m", "r">>, <<"m", "u">>, <<"x", "m">>, <<"r", "r">> >>),
                   << O("msk", "p", ""), O("msk", "q", ""), O("msk", "s", ""), O("msk", "p3", ""), O("msk", "sx", ""), W(O("msk", "p", "")), W(O("msk", "s", "")) >>))
      mul == Flat(MapSeq(LAMBDA o : MapSeq(LAMBDA s : tr(s, o, 2), << <<"x", "x", "x">>, <<"x", "x", "x", "x">>, <<"x", "x">>, <<"x">>, << >>, <<"x", "x", "u">>, <<"x", "x", "m">>, <<"x", "R", "x">>, <<"x", "r", "x">>, <<"r", "r", "r">> >>),
                   << O("mul", "s", "p"), O("mul", "s", "q"), O("mul", "p", "q"), O("mul", "s", "s"), O("mul", "p", "s"), O("mul", "s3", "p"), O("mul", "s", "p3"), O("mul", "s3", "p3"), W(O("mul", "s", "p")), O("mul", "sx", "px") >>))
      \* previous transcripts longer than the dealings are many, by more than a byte counts and by less
      many == MapSeq(LAMBDA k : MkTr("sL" \o S(k), "int", "S", a, << >>, k), <<34, 129, 257, 258>>) \o MapSeq(LAMBDA k : MkTr("pL" \o S(k), "sum", "P", b, m, k), <<34, 129, 257, 258>>)
           \o Flat(MapSeq(LAMBDA k : LET sl == "sL" \o S(k)  pl == "pL" \o S(k) IN
                << tr(<<"u", "u">>, O("unm", sl, ""), 2), tr(<<"u", "u", "u", "u">>, O("unm", sl, ""), 2), tr(<<"u", "u">>, O("unm", pl, ""), 2), tr(<<"m", "m">>, O("msk", pl, ""), 2), tr(<<"m", "m", "m", "m">>, O("msk", pl, ""), 2),
                   tr(<<"x", "x", "x">>, O("mul", sl, "p"), 2), tr(<<"x", "x", "x", "x">>, O("mul", "s", pl), 2), tr(<<"x", "x", "x">>, O("mul", "s", pl), 2), tr(<<"x", "x", "x", "x">>, O("mul", sl, pl), 2), tr(<<"r", "r">>, O("rand", "", ""), k) >>, <<34, 129, 257, 258>>))
      bad == Flat(MapSeq(LAMBDA o : << tr(<<"r", "r">>, o, 2), tr(<<"u", "u">>, o, 2), tr(<<"x", "x", "x">>, o, 2), tr(<< >>, o, 2) >>, << O("nil", "", ""), O("int", "", "") >>))
      drop == << ModE("r" \o is[1], "c1" \o is[1], "comkind", None), tr(<<"c1", "r">>, O("rand", "", ""), 2), ModE("u" \o is[1], "c2" \o is[1], "comkind", None), tr(<<"c2", "u">>, O("unm", "s", ""), 2), ModE("m" \o is[1], "c3" \o is[1], "comkind", None), tr(<<"c3", "m">>, O("msk", "p", ""), 2),
                 ModE("x" \o is[1], "c4" \o is[1], "comadd", [d |-> PtId]), tr(<<"c4", "x", "x">>, O("mul", "s", "p"), 2), ModE("r" \o is[2], "c5" \o is[2], "comdrop", None), tr(<<"r", "c5">>, O("rand", "", ""), 2),
                 ModE("u" \o is[2], "c6" \o is[2], "com", [i |-> 0, d |-> PtG]), tr(<<"u", "c6">>, O("unm", "s", ""), 2), tr(<<"u", "c6", "u">>, O("unm", "s", ""), 2), ModE("u" \o is[2], "c7" \o is[2], "com", [i |-> 1, d |-> PtG]), tr(<<"u", "c7">>, O("unm", "s", ""), 2) >>
              \o Flat(MapSeq(LAMBDA i : << ModE("u" \o i, "nu" \o i, "comneg", [i |-> 0]), ModE("u" \o i, "na" \o i, "comneg", [i |-> -1]), ModE("u" \o i, "nl" \o i, "comneg", [i |-> 1]), ModE("m" \o i, "nm" \o i, "comneg", [i |-> 0]), ModE("x" \o i, "nx" \o i, "comneg", [i |-> -1]) >>, is))
              \o MapSeq(LAMBDA q : tr(q, O("unm", "s", ""), 2), << <<"nu", "nu">>, <<"na", "na">>, <<"nl", "nl">>, <<"u", "nu">>, <<"nu", "u">>, <<"na", "na", "na">>, <<"u", "nl">> >>)
              \o << tr(<<"nm", "m">>, O("msk", "p", ""), 2), tr(<<"nm", "nm">>, O("msk", "p", ""), 2), tr(<<"nx", "x", "x">>, O("mul", "s", "p"), 2), tr(<<"nx", "nx", "nx">>, O("mul", "s", "p"), 2) >>
      \* opening a transcript with dealings of another form
      open == Flat(MapSeq(LAMBDA q : MapSeq(LAMBDA t : [op |-> "open", out |-> "", ds |-> [c \in 1..Len(q) |-> <<is[c], q[c] \o is[c]>>], tr |-> t, given |-> << >>, with |-> Len(q) = 2, ad |-> ad, idx |-> "1", key |-> "k1"],
                     <<"s", "p", "q", "sx", "px">>), << <<"u", "u">>, <<"m", "m", "m">>, <<"r", "r">>, <<"x", "x", "x">>, <<"u", "r">>, <<"r", "u">>, <<"x", "u", "x">>, <<"u">>, << >> >>))
  IN Scen("fit-" \o S(j), KeysE("k", l, n) \o mk \o deals \o rnd \o unm \o msk \o mul \o many \o bad \o drop \o open)
FitScs(zz) == [j \in 1..2 |-> FitSc(j)]

\* ---------------------------------------------------------- reconstruction ---
ReconSc(typ, j) ==
  LET l == "N" \o typ \o S(j)  sz == <<<<1, 2>>, <<2, 3>>, <<3, 4>>, <<2, 4>>>>[1 + (j % 4)]  t == sz[1]  n == sz[2]  ad == Ads[1 + (j % Len(Ads))]  dealer == Idx[1 + RInt(l, Len(Idx))]
      k == IF typ \in {"rand", "mul"} THEN "P" ELSE "S"
      rec(ops, i) == [op |-> "recon", d |-> "d", ops |-> ops, idx |-> i, out |-> ""]
      o(i) == <<i, "o" \o i>>
      os(is) == MapSeq(o, is)
      all == AsIdx(0..(n - 1))
      tg == <<"0", "1", S(n), "255", "256", "65536", "4294967295">>
      fewer == IF t = 1 THEN << << >> >> ELSE Subs(n, 0)
  IN Scen("recon-" \o typ \o "-" \o S(j), KeysE("k", l, n) \o One(typ, "", l, t, n, dealer, ad, RSc(l \o "x"), RSc(l \o "y"), RSc(l \o "m"))
      \o [i \in 1..n |-> [op |-> "opendeal", d |-> "d", key |-> "k" \o S(i - 1), ad |-> ad, dealer |-> dealer, idx |-> S(i - 1), out |-> "o" \o S(i - 1)]]
      \o Flat(MapSeq(LAMBDA x : MapSeq(LAMBDA i : rec(os(x), i), <<"0", tg[1 + RInt(l \o S(Len(x)), Len(tg))]>>), Subs(n, 0)))
      \o MapSeq(LAMBDA i : rec(os(all), i), tg) \o << rec(os(Rev(all)), "0") >>
      \* the same polynomial under a longer commitment: more openings are needed than there are
      \o Flat(MapSeq(LAMBDA q : << ModE("d", "L" \o S(q), "compad", [n |-> q]), [rec(os(all), "0") EXCEPT !.d = "L" \o S(q)], [rec(os(SubSeq(all, 1, t)), S(n)) EXCEPT !.d = "L" \o S(q)] >>, SetSeq({1, n - t, n - t + 1, 126, 255, 256} \ {0})))
      \* wrong values, kinds, positions
      \o << [op |-> "mkop", out |-> "bv", okind |-> k, v |-> RSc(l \o "bv"), m |-> RSc(l \o "bm"), ptr |-> FALSE], MkO("bs", "S", RSc(l), ScZero), MkO("bp", "P", RSc(l), ScOne), MkO("bn", "none", ScZero, ScZero), MkO("bz", k, ScZero, ScZero) >>
      \o Flat(MapSeq(LAMBDA b : << rec(<<<<"0", b>>>> \o Tail(os(all)), "0"), rec(os(SubSeq(all, 1, n - 1)) \o <<<<S(n - 1), b>>>>, S(n)), rec(<<<<"0", b>>>> \o SubSeq(os(all), 2, t), "1") >>, <<"bv", "bs", "bp", "bn", "bz">>))
      \* openings off by their sign, their halves exchanged, and errors that cancel
      \o Flat(MapSeq(LAMBDA i : MapSeq(LAMBDA q : [op |-> "opmod", in |-> "o" \o i, out |-> q \o i, what |-> q], <<"neg", "negv", "negm", "swap", "kind", "dec", "byt">>), all))
      \o Flat(MapSeq(LAMBDA q : << rec(MapSeq(LAMBDA i : <<i, q \o i>>, all), "0"), rec(MapSeq(LAMBDA i : <<i, q \o i>>, SubSeq(all, 1, t)), S(n)), rec(<<<<"0", q \o "0">>>> \o SubSeq(os(all), 2, t), "0") >>, <<"neg", "negv", "negm", "swap", "kind", "dec", "byt">>))
      \o (IF t < 2 THEN << >> ELSE LET lg == Lag(MapSeq(NodeSc, SubSeq(all, 1, t)), NodeSc(S(n)))  e == RSc(l \o "ce") IN
           \* the errors vanish at position n only
           << [op |-> "opmod", in |-> "o0", out |-> "e0", what |-> "add", dv |-> ScMul(e, lg[2]), dm |-> ScZero], [op |-> "opmod", in |-> "o1", out |-> "e1", what |-> "add", dv |-> ScNeg(ScMul(e, lg[1])), dm |-> ScZero],
              rec(<<<<"0", "e0">>, <<"1", "e1">>>> \o SubSeq(os(all), 3, t), S(n)), rec(<<<<"0", "e0">>, <<"1", "e1">>>> \o SubSeq(os(all), 3, t), "0"), rec(<<<<"0", "e0">>, <<"1", "e1">>>> \o SubSeq(os(all), 3, t), S(n + 1)) >>)
      \o << rec(<<<<"0", "o1">>, <<"1", "o0">>>> \o SubSeq(os(all), 3, n), "0"), rec(<<<<"77", "o0">>>> \o Tail(os(all)), "0"), rec(<<<<"256", "o0">>>> \o Tail(os(all)), "0"), rec(<<<<"65536", "o0">>>> \o Tail(os(all)), S(n)), rec(MapSeq(LAMBDA i : <<i, "o0">>, all), "2") >>)
\* receivers that use rebuilt shares instead of their own decryption
GivenSc(j) ==
  LET l == "G" \o S(j)  t == 2  n == 4  ds == <<"0", "3", "256">>  ad == "61"
      nm(i) == "d" \o i
      dd == MapSeq(LAMBDA i : <<i, nm(i)>>, ds)
      op(given, dm, i) == [op |-> "open", out |-> "", ds |-> dm, tr |-> "t", given |-> given, with |-> TRUE, ad |-> ad, idx |-> i, key |-> "k" \o i]
      g(i, is) == <<i, MapSeq(LAMBDA r : <<r, "o" \o i \o "." \o r>>, is)>>
      h(i, is) == <<i, MapSeq(LAMBDA r : <<r, "e" \o i \o "." \o r>>, is)>>
      badd == <<<<"0", "b">>, <<"3", "d3">>, <<"256", "d256">>>>
      av(i) == Eval(RP(l \o "a", 2), NodeSc(i))  bv(i) == Eval(RP(l \o "b", 2), NodeSc(i))
      mskd(i) == CASE j % 4 = 0 -> [t |-> "rand"] [] j % 4 = 1 -> [t |-> "msk", s1 |-> av(i), s2 |-> bv(i)] [] j % 4 = 2 -> [t |-> "mul", s1 |-> av(i), s2 |-> av(i), s3 |-> bv(i)] [] j % 4 = 3 -> [t |-> "unm", s1 |-> av(i)]
      tro == CASE j % 4 = 0 -> [t |-> "rand"] [] j % 4 = 1 -> [t |-> "msk", p1 |-> "p"] [] j % 4 = 2 -> [t |-> "mul", p1 |-> "q", p2 |-> "p"] [] j % 4 = 3 -> [t |-> "unm", p1 |-> "q"]
      cb(os, i) == [op |-> "comb", tr |-> "t", ops |-> os, idx |-> i, out |-> ""]
      co(x, i, r) == <<i, x \o i \o "." \o r>>
      comb == Flat(MapSeq(LAMBDA r : Flat(MapSeq(LAMBDA x : << cb(<<co(x, "0", r), co(x, "3", r), co(x, "256", r)>>, r), cb(<<co(x, "256", r), co(x, "0", r), co(x, "3", r)>>, r), cb(<<co(x, "0", r), co(x, "3", r), co(x, "256", r)>>, "0"),
                     cb(<<co(x, "0", r), co(x, "3", r)>>, r), cb(<<co(x, "3", r), co(x, "256", r)>>, r), cb(<<co(x, "3", r)>>, r), cb(<<co(x, "0", r), co(x, "3", r), co(x, "256", r), co(x, "0", r)>>, r), cb(<<co(x, "0", r), co(x, "0", r)>>, r),
                     cb(<< <<"0", x \o "3." \o r>>, <<"3", x \o "0." \o r>>, co(x, "256", r)>>, r), cb(<< <<"1", x \o "0." \o r>>, co(x, "3", r), co(x, "256", r)>>, r) >>, <<"o", "e">>)), <<"1", "2", "3">>))
              \o << cb(<<co("o", "0", "1"), co("e", "3", "1"), co("o", "256", "1")>>, "1"), cb(<<co("e", "0", "1"), co("o", "3", "1"), co("o", "256", "1")>>, "1"), cb(<<co("o", "0", "1"), co("o", "3", "2"), co("o", "256", "3")>>, "1"), cb(<< >>, "1"),
                    [op |-> "opmod", in |-> "o0.1", out |-> "k0", what |-> "kind"], cb(<< <<"0", "k0">>, co("o", "3", "1"), co("o", "256", "1")>>, "1"), [op |-> "opmod", in |-> "o0.1", out |-> "n0", what |-> "negv"], cb(<< <<"0", "n0">>, co("o", "3", "1"), co("o", "256", "1")>>, "1") >>
  IN Scen("given-" \o S(j), KeysE("k", l, n) \o << MkTr("p", "sum", "P", RP(l \o "a", 2), RP(l \o "b", 2), 2), MkTr("q", "int", "S", RP(l \o "a", 2), << >>, 2) >> \o MapSeq(LAMBDA i : DealE(nm(i), mskd(i), t, Nm("k", n), i, ad, l \o i), ds)
      \o << [op |-> "tr", out |-> "t", ds |-> dd, tr |-> tro, thr |-> t] >>
      \o Flat(MapSeq(LAMBDA i : MapSeq(LAMBDA r : [op |-> "opendeal", d |-> nm(i), key |-> "k" \o r, ad |-> ad, dealer |-> i, idx |-> r, out |-> "o" \o i \o "." \o r], <<"1", "2", "3">>), ds))
      \o Flat(MapSeq(LAMBDA i : MapSeq(LAMBDA r : [op |-> "opmod", in |-> "o" \o i \o "." \o r, out |-> "e" \o i \o "." \o r, what |-> IF r = "3" THEN "byt" ELSE "dec"], <<"1", "2", "3">>), ds))
      \* receiver 0 gets a bad share from dealer 0
      \o << ModE("d0", "b", "ct", [i |-> 0, dv |-> RSc(l), dm |-> D1]), op(<< >>, badd, "0"), op(<<h("0", <<"1", "2">>)>>, badd, "0"), op(<<h("0", <<"3", "1">>), g("3", <<"1", "2">>)>>, badd, "0"), op(<<h("0", <<"1">>)>>, badd, "0"), op(<<h("0", <<"1", "2">>), h("3", <<"2", "3">>), h("256", <<"1", "3">>)>>, badd, "0"), op(<<g("0", <<"1", "2">>)>>, badd, "0"), op(<<g("0", <<"1", "2", "3">>)>>, badd, "0"), op(<<g("0", <<"3", "2">>)>>, badd, "0"), op(<<g("0", <<"1">>)>>, badd, "0"),
            op(<<g("0", << >>)>>, badd, "0"), op(<<g("3", <<"1", "2">>)>>, badd, "0"), op(<<g("0", <<"1", "2">>), g("3", <<"2", "3">>)>>, badd, "0"), op(<<g("0", <<"1", "2">>), g("3", <<"2", "3">>), g("256", <<"1", "3">>)>>, badd, "0"),
            op(<<g("0", <<"1", "2">>), g("3", <<"2">>)>>, badd, "0"), op(<<<<"0", <<<<"1", "o3.1">>, <<"2", "o0.2">>>>>>>>, badd, "0"), op(<<<<"0", <<<<"2", "o0.1">>, <<"1", "o0.2">>>>>>>>, badd, "0"), op(<<g("77", <<"1", "2">>)>>, badd, "0"), op(<<g("77", <<"1", "2">>)>>, dd, "0"),
            op(<<g("0", <<"1", "2">>)>>, badd, "1"), op(<<g("0", <<"1", "2">>)>>, badd, "3"), op(<< >>, badd, "1"), op(<< >>, dd, "0") >> \o comb)

\* --------------------------------------------------------------- complaints ---
CVer(c, d, dealer, idx, pk, ad) == [op |-> "cver", c |-> c, d |-> d, dealer |-> dealer, idx |-> idx, pk |-> pk, ad |-> ad]
Cmpl(out, ds, key, idx, ad, l) == [op |-> "complain", out |-> out, ds |-> ds, ad |-> ad, idx |-> idx, key |-> key, seed |-> RBytes("cp" \o l)]
CompSc(j) ==
  LET l == "Q" \o S(j)  n == 3  ad == Ads[1 + (j % Len(Ads))]  typ == Typs[1 + (j % 4)]  t == Th(j)
      is == IF j % 2 = 0 THEN <<"0", "1", "2", "3">> ELSE <<"0", "9", "256", "4294967295">>
      x == RSc(l \o "x")
      ds(names) == [c \in 1..Len(names) |-> <<is[c], names[c]>>]
      bads == << <<"ct", [i |-> 1, dv |-> D1, dm |-> ScZero]>>, <<"swapct", [i |-> 1, j |-> 2]>>, <<"com", [i |-> 0, d |-> PtG]>>, <<"ct", [i |-> 0, dv |-> D1, dm |-> D1]>> >>
             \o (IF typ \in {"rand", "mul"} THEN << <<"ct", [i |-> 1, dv |-> ScZero, dm |-> NM1]>> >> ELSE << <<"com", [i |-> t - 1, d |-> PtH]>> >>)
      mods == Flat([c \in 1..4 |-> << ModE("d" \o is[c], "b6" \o is[c], "comneg", [i |-> -1]), ModE("d" \o is[c], "b7" \o is[c], "comneg", [i |-> t - 1]), ModE("d" \o is[c], "b8" \o is[c], "ephneg", None) >> \o [b \in 1..5 |-> ModE("d" \o is[c], "z" \o S(b) \o is[c], SetMods(1)[b][1], SetMods(1)[b][2])]
             \o [b \in 1..5 |-> ModE("d" \o is[c], "b" \o S(b) \o is[c], bads[b][1], bads[b][2])]])
      \* which dealings are bad, by dealer: 0 means good
      cases == << <<1, 0, 0, 0>>, <<0, 0, 0, 2>>, <<3, 0, 5, 0>>, <<1, 2, 3, 5>>, <<0, 0, 0, 0>>, <<4, 4, 0, 0>>, <<0, 1, 4, 0>>, <<4, 1, 0, 4>>, <<6, 0, 7, 0>>, <<0, 7, 0, 6>>, <<8, 0, 0, 6>> >>
      nm(c, i) == IF c[i] = 0 THEN "d" \o is[i] ELSE "b" \o S(c[i]) \o is[i]
      zs(b) == LET names == [i \in 1..4 |-> "z" \o S(IF b < 5 THEN b ELSE 1 + (i % 4)) \o is[i]]  out == "cz" \o S(b) \o "-"  p == typ \in {"rand", "mul"} \/ b \in {1, 3, 4} IN
         << Cmpl(out, ds(names), "k1", "1", ad, l \o "z" \o S(b)) >> \o (IF p /\ b < 5 THEN [i \in 1..4 |-> CVer(out \o is[i], names[i], is[i], "1", "k1", ad)] ELSE << >>)
      run(q) == LET c == cases[q]  names == [i \in 1..4 |-> nm(c, i)]  out == "c" \o S(q) \o "-" IN
         << Cmpl(out, ds(names), "k1", "1", ad, l \o S(q)) >> \o Flat([i \in 1..4 |-> IF c[i] \in {1, 2, 3, 5, 6, 7} THEN << CVer(out \o is[i], names[i], is[i], "1", "k1", ad) >> ELSE << >>])
         \o << Cmpl(out \o "z", ds(names), "k0", "0", ad, l \o S(q)) >>
  IN Scen("complain-" \o S(j), KeysE("k", l, n) \o MapSeq(LAMBDA i : DealE("d" \o i, SecR(typ, x, RSc(l \o "y"), RSc(l \o "m")), t, Nm("k", n), i, ad, l \o i), is) \o mods \o Flat([q \in 1..Len(cases) |-> run(q)]) \o Flat([b \in 1..5 |-> zs(b)]) \o << Cmpl("e", << >>, "k1", "1", ad, l) >>)
CVerSc(j) ==
  LET l == "W" \o S(j)  n == 3  ad == Ads[1 + (j % Len(Ads))]  typ == Typs[1 + (j % 4)]  t == Th(j)  dl == <<"0", "256", "1", "65535">>[1 + (j % 4)]  od == "2"
      sec == SecR(typ, RSc(l \o "x"), RSc(l \o "y"), RSc(l \o "m"))
      C1(out, d, dealer, idx, key, a) == [op |-> "complain1", out |-> out, d |-> d, dealer |-> dealer, idx |-> idx, key |-> key, ad |-> a, seed |-> RBytes("c1" \o l \o out)]
      cm(out, what, r) == [op |-> "cmod", in |-> "c", out |-> out, what |-> what] @@ r
      ver(c) == CVer(c, "b", dl, "1", "k1", ad)
  IN Scen("cver-" \o S(j), KeysE("k", l, n) \o << KeyE("z", l \o "z"), DealE("d", sec, t, Nm("k", n), dl, ad, l), DealE("e", sec, t, Nm("k", n), od, ad, l \o "e"), DealE("f", sec, t, Nm("k", n), dl, ad, l \o "f"),
        ModE("d", "b", "ct", [i |-> 1, dv |-> D1, dm |-> D1]), ModE("e", "be", "ct", [i |-> 1, dv |-> D1, dm |-> D1]), ModE("f", "bf", "ct", [i |-> 1, dv |-> D1, dm |-> D1]), ModE("d", "ba", "com", [i |-> 0, d |-> PtG]), ModE("d", "bk", "comkind", None), ModE("d", "bc", "ctkind", None),
        DealE("xd", OtherForm(typ, l), t, Nm("k", n), dl, ad, l \o "xd"), ModE("d", "bf1", "ctfrom", [from |-> "xd"]), ModE("d", "bf2", "comfrom", [from |-> "xd"]), C1("cf1", "bf1", dl, "1", "k1", ad), C1("cf2", "bf2", dl, "1", "k1", ad),
        CVer("cf1", "bf1", dl, "1", "k1", ad), CVer("cf2", "bf2", dl, "1", "k1", ad), CVer("cf1", "d", dl, "1", "k1", ad), CVer("cf2", "d", dl, "1", "k1", ad), CVer("cf1", "bf1", dl, "2", "k1", ad), CVer("cf2", "bf2", dl, "1", "k2", ad),
        ModE("d", "bd", "dropct", None), ModE("bd", "bdd", "dropct", None), ModE("b", "bx", "eph", [d |-> PtG]),
        C1("c", "b", dl, "1", "k1", ad), C1("g", "d", dl, "1", "k1", ad), C1("c0", "b", dl, "0", "k0", ad), C1("cz", "b", dl, "1", "z", ad), C1("ce", "be", od, "1", "k1", ad), C1("cf", "bf", dl, "1", "k1", ad), C1("ca", "b", dl, "1", "k1", HCat(ad, "00")), C1("ci", "b", dl, "2", "k1", ad), C1("cd", "b", od, "1", "k1", ad),
        \* a good dealing: nobody's complaint stands
        CVer("g", "d", dl, "1", "k1", ad), CVer("c", "d", dl, "1", "k1", ad), CVer("c0", "b", dl, "0", "k0", ad), CVer("c0", "ba", dl, "0", "k0", ad), CVer("c", "ba", dl, "1", "k1", ad),
        \* another receiver, key, dealing, dealer, data
        ver("c"), ver("g"), ver("c0"), ver("cz"), ver("ce"), ver("cf"), ver("ca"), ver("ci"), ver("cd"), CVer("c", "b", dl, "2", "k1", ad), CVer("c", "b", dl, "0", "k1", ad), CVer("c", "b", dl, "1", "k2", ad), CVer("c", "b", dl, "1", "z", ad), CVer("cz", "b", dl, "1", "z", ad), CVer("ci", "b", dl, "2", "k1", ad),
        CVer("c", "be", od, "1", "k1", ad), CVer("c", "be", dl, "1", "k1", ad), CVer("c", "bf", dl, "1", "k1", ad), CVer("ce", "be", od, "1", "k1", ad), CVer("c", "b", od, "1", "k1", ad), CVer("cd", "b", od, "1", "k1", ad), CVer("c", "b", dl, "1", "k1", HCat(ad, "00")), CVer("ca", "b", dl, "1", "k1", HCat(ad, "00")), CVer("c", "b", dl, "1", "k1", "ff"),
        ModE("d", "bn", "comneg", [i |-> -1]), CVer("c", "bn", dl, "1", "k1", ad), CVer("g", "bn", dl, "1", "k1", ad), ModE("b", "bE", "ephneg", None), CVer("c", "bE", dl, "1", "k1", ad) >>
     \o MapSeq(LAMBDA i : CVer("c", "b", i, "1", "k1", ad), Near(dl)) \o MapSeq(LAMBDA i : CVer("c", "b", dl, i, "k1", ad), Near("1"))
     \o << CVer("c", "bk", dl, "1", "k1", ad), CVer("c", "bc", dl, "1", "k1", ad), CVer("c", "bx", dl, "1", "k1", ad), CVer("c", "bd", dl, "1", "k1", ad), CVer("c", "bdd", dl, "1", "k1", ad), CVer("ci", "bd", dl, "2", "k1", ad), CVer("ci", "bd", dl, "2", "k1", ad),
        C1("cr", "d", dl, "7", "k1", ad), CVer("cr", "d", dl, "7", "k1", ad), C1("cn", "d", dl, "4294967295", "k1", ad), CVer("cn", "d", dl, "4294967295", "k1", ad),
        cm("a1", "ss", [d |-> PtG]), ver("a1"), CVer("a1", "d", dl, "1", "k1", ad), cm("an", "ssneg", None), ver("an"), CVer("an", "d", dl, "1", "k1", ad), cm("a2", "c", [d |-> D1]), ver("a2"), cm("a3", "r", [d |-> D1]), ver("a3"), cm("a4", "r", [d |-> RSc(l)]), ver("a4"), cm("a5", "proof", [from |-> "g"]), ver("a5"), cm("a6", "proof", [from |-> "c0"]), ver("a6"), cm("a7", "proof", [from |-> "cf"]), ver("a7"),
        cm("a8", "forge", [d |-> "d", x |-> RSc(l \o "fx"), ad |-> ad]), CVer("a8", "d", dl, "1", "k1", ad), ver("a8"), cm("a9", "forge", [d |-> "d", x |-> ScZero, ad |-> ad]), CVer("a9", "d", dl, "1", "k1", ad), cm("a10", "forge", [d |-> "d", x |-> ScOne, ad |-> ""]), CVer("a10", "d", dl, "1", "k1", ad) >>)
\* many bad dealings at once
CompBig(n, d) ==
  LET l == "UB"  typ == Typs[1 + (d % 4)]  is == AsIdx(0..(n - 1))  bad(i) == d = 0 \/ i # S(d)  x == RSc(l \o "x")  nm(i) == IF bad(i) THEN "b" \o i ELSE "d" \o i
  IN Scen("complain-many-" \o S(d), KeysE("k", l, 2) \o MapSeq(LAMBDA i : DealE("d" \o i, SecR(typ, x, RSc(l \o "y"), RSc(l \o "m")), 2, <<"k0", "k1">>, i, "61", l \o i), is)
       \o MapSeq(LAMBDA i : ModE("d" \o i, "b" \o i, "ct", [i |-> 1, dv |-> D1, dm |-> ScZero]), is) \o << Cmpl("c", MapSeq(LAMBDA i : <<i, nm(i)>>, is), "k1", "1", "61", l) >>
       \o Flat(MapSeq(LAMBDA i : IF bad(i) THEN << CVer("c" \o i, nm(i), i, "1", "k1", "61") >> ELSE << >>, is)))
\* dealers that choose their ephemeral key: nothing, one, a recipient's own key, and encrypt properly or not at all under it
EphMk(in, out, x, names, ad, dealer) == [op |-> "mod", in |-> in, out |-> out, what |-> "ephmake", x |-> x, ad |-> ad, dealer |-> dealer, recips |-> names, seed |-> RBytes("ep" \o out)]
EphSc(typ, j) ==
  LET l == "EP" \o typ \o S(j)  n == 3  t == Th(j)  ad == Ads[1 + ((j + RInt("epa", 8)) % Len(Ads))]  dealer == IF j % 2 = 0 THEN "0" ELSE Idx[1 + RInt(l, Len(Idx))]
      x == RSc(l \o "x")  y == RSc(l \o "y")  m == RSc(l \o "m")  sk == RSc(l \o "sk")
      xs == <<ScZero, ScOne, NM1, sk, ScNeg(sk), RSc(l \o "e")>>
      ks == << KeyS("k0", sk), KeyS("k1", IF j % 2 = 0 THEN ScOne ELSE NM1), KeyE("k2", l) >>
      each(i) == LET g == "g" \o S(i)  b == "b" \o S(i)  c == "c" \o S(i) \o "-" IN
        << EphMk("d", g, xs[i], Nm("k", n), ad, dealer), Pub(g, TrR(typ, ""), t, dealer, n, ad), Valid(g, n, ad, dealer), Valid(g, n, HCat(ad, "00"), dealer) >> \o AllRecv(g, n, ad, dealer)
        \o << CtDec(g, "k0", ad, dealer, "1"), CtOwn(g, "k2", "k2", ad, dealer, "2"), CtSs(g, "k0", PtId, ad, dealer, "0"), EphMk("d", b, xs[i], << >>, ad, dealer), Pub(b, TrR(typ, ""), t, dealer, n, ad), Valid(b, n, ad, dealer) >> \o AllRecv(b, n, ad, dealer)
        \o << Cmpl(c, <<<<dealer, b>>>>, "k1", "1", ad, l \o S(i)), CVer(c \o dealer, b, dealer, "1", "k1", ad), CVer(c \o dealer, g, dealer, "1", "k1", ad), CVer(c \o dealer, b, dealer, "0", "k0", ad), CVer(c \o dealer, b, dealer, "1", "k1", HCat(ad, "00")),
              Cmpl(c \o "z", <<<<dealer, b>>>>, "k0", "0", ad, l \o S(i)), CVer(c \o "z" \o dealer, b, dealer, "0", "k0", ad), Cmpl(c \o "g", <<<<dealer, g>>>>, "k2", "2", ad, l \o S(i)),
              ModE(g, g \o "m", "ct", [i |-> 1, dv |-> D1, dm |-> ScZero]), Cmpl(c \o "m", <<<<dealer, g \o "m">>>>, "k1", "1", ad, l \o "m"), CVer(c \o "m" \o dealer, g \o "m", dealer, "1", "k1", ad), CVer(c \o "m" \o dealer, b, dealer, "1", "k1", ad) >>
  IN Scen("eph-" \o typ \o "-" \o S(j), ks \o One(typ, "", l, t, n, dealer, ad, x, y, m) \o Flat([i \in 1..Len(xs) |-> each(i)])
       \* complaints exchanged between dealings with the same and with other ephemeral keys
       \o Flat([i \in 1..Len(xs) |-> LET q == 1 + (i % Len(xs)) IN << CVer("c" \o S(i) \o "-" \o dealer, "b" \o S(q), dealer, "1", "k1", ad), CVer("c" \o S(i) \o "-z" \o dealer, "b" \o S(q), dealer, "0", "k0", ad) >>]))
EphScs(zz) == Flat(MapSeq(LAMBDA y : [j \in 1..Times(1, 6) |-> EphSc(y, j + RInt("eph" \o y, 6))], Typs))
CompScs(zz) == EphScs(0) \o  << CompBig(Times(20, 70), 0), CompBig(Times(20, 40), 3) >> \o [j \in 1..Times(4, 24) |-> CompSc(j)]
CVerScs(zz) == EphScs(0) \o [j \in 1..Times(4, 24) |-> CVerSc(j)]

\* ------------------------------------------------------------- randomness ---
FreshSc(j) ==
  LET l == "H" \o S(j)  n == 3  ad == "61"  z == <<ScZero, ScOne, NM1>>
      x == IF j % 4 = 1 THEN RSc(l \o "x") ELSE z[1 + (j % 3)]  y == IF j > 4 /\ j % 3 = 0 THEN z[1 + (j % 2)] ELSE RSc(l \o "y")  m == IF j > 4 /\ j % 5 = 0 THEN z[1 + (j % 3)] ELSE RSc(l \o "m")
      dl(out, typ, sd, t) == [op |-> "deal", out |-> out, sec |-> SecR(typ, x, y, m), t |-> t, recips |-> Nm("k", n), dealer |-> "1", ad |-> ad, seed |-> sd]
      s0 == IF j % 3 = 0 THEN "" ELSE RBytes(l)
      note(w, of) == [op |-> "note", what |-> w, of |-> of, known |-> Rel(x, y, m)]
      seeds == <<s0, HCat(s0, "00"), HCat("01", s0), RBytes(l \o "2"), RLong(l, 300), RLong(l, 64)>>
      kk(out, sd) == [op |-> "key", out |-> out, seed |-> sd]
      b(i) == ModE("dq" \o i, "b" \o i, "ct", [i |-> 0, dv |-> D1, dm |-> D1])
      is == <<"0", "1", "10", "256", "257", "65535", "65536", "65537", "16777216", "2147483648", "4294967295">>
      cm(out, sd) == [op |-> "complain", out |-> out, ds |-> MapSeq(LAMBDA i : <<i, "b" \o i>>, is), ad |-> ad, idx |-> "0", key |-> "k0", seed |-> sd]
  IN Scen("fresh-" \o S(j), KeysE("k", l, n)
      \o Flat(MapSeq(LAMBDA typ : [q \in 1..Len(seeds) |-> dl(typ \o S(q), typ, seeds[q], 2)] \o << dl(typ \o "x", typ, seeds[1], 2), dl(typ \o "t3", typ, seeds[4], 3), dl(typ \o "t1", typ, seeds[5], 1),
                [dl(typ \o "t9", typ, seeds[6], 9) EXCEPT !.recips = [i \in 1..12 |-> "k" \o S(i % 3)]], note("fresh", <<typ \o "t9">>), note("masks", <<typ \o "t9">>),
                note("same", <<typ \o "1", typ \o "x">>), note("fresh", [q \in 1..Len(seeds) |-> typ \o S(q)]), note("fresh", <<typ \o "t3">>), note("fresh", <<typ \o "t1">>), note("distinct", [q \in 1..Len(seeds) |-> typ \o S(q)]) >>, Typs))
      \o [q \in 1..(Len(seeds) - 1) |-> kk("s" \o S(q + 1), seeds[q + 1])] \o << kk("sx", seeds[2]), note("same", <<"s2", "sx">>), note("fresh", [q \in 1..(Len(seeds) - 1) |-> "s" \o S(q + 1)]) >>
      \o MapSeq(LAMBDA k : [op |-> "enc", out |-> "e" \o k, kind |-> k, pts |-> <<<<x, y>>>>, recips |-> <<"k0">>, dealer |-> "1", ad |-> ad, seed |-> RBytes(l)], <<"S", "P">>) \o << note("fresh", <<"eS">>), note("fresh", <<"eP">>) >>
      \o MapSeq(LAMBDA i : DealE("dq" \o i, [t |-> "rand"], 2, Nm("k", n), i, ad, l \o i), is) \o MapSeq(b, is)
      \o << cm("c", RBytes(l)), cm("C", RBytes(l)), cm("e", RBytes(l \o "e")) >>
      \o << note("fresh", MapSeq(LAMBDA i : "c" \o i, is) \o MapSeq(LAMBDA i : "e" \o i, is)) >> \o MapSeq(LAMBDA i : note("same", <<"c" \o i, "C" \o i>>), is))
FreshScs(zz) == [j \in 1..Times(4, 16) |-> FreshSc(j)]

\* points whose x coordinate is not below the order (no run of the protocol meets one), and others at the ends
NOrdFe == "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"
AtX(x) == SelectSeq(<<HCat("02", x), HCat("03", x)>>, PtOk)
ConvXs == MapSeq(LAMBDA k : FeAdd(NOrdFe, FeRed(HNum(S(k), 4))), [k \in 1..12 |-> k - 1]) \o MapSeq(LAMBDA k : FeSub(NOrdFe, FeRed(HNum(S(k), 4))), [k \in 1..8 |-> k])
   \o MapSeq(LAMBDA k : FeSub(ScZero, FeRed(HNum(S(k), 4))), [k \in 1..12 |-> k]) \o MapSeq(LAMBDA k : FeRed(HNum(S(k), 4)), [k \in 1..12 |-> k]) \o MapSeq(LAMBDA k : FeAdd(NOrdFe, FeRed(RLong(L("cx", k), 16))), [k \in 1..12 |-> k])
   \o MapSeq(LAMBDA k : FeRed(RLong(L("cs", k), 31)), [k \in 1..6 |-> k])
HashIns == << "", "00", "01", ScZero, ScOne, NM1, NOrdFe, FeAdd(NOrdFe, ScOne), HRep("ff", 32), HCat(NOrdFe, "00"), HCat(HRep("ff", 32), "ff"), HCat(NM1, HRep("ab", 32)), HCat(ScZero, ScOne), HRep("00", 33), HRep("00", 64), HRep("ff", 64), HRep("ff", 65), RLong("hi1", 20), RLong("hi2", 28), RLong("hi3", 31), RLong("hi4", 32), RLong("hi5", 33), RLong("hi6", 48), RLong("hi7", 64), RLong("hi8", 100), RLong("hi9", 300) >>
ConvScs(zz) == Cut("conv", MapSeq(LAMBDA p : [op |-> "conv", pt |-> p], Flat(MapSeq(AtX, ConvXs)) \o << PtG, PtH, PtNeg(PtG), RPt("cv1"), RPt("cv2") >>) \o MapSeq(LAMBDA h : [op |-> "hashint", hash |-> h], HashIns), 60, 1)
HmScs(zz) == Cut("hmac", MapSeq(LAMBDA p : [op |-> "hmac", k |-> p[1], msgs |-> p[2]], Pairs(<< "", "00", HRep("00", 32), RBytes("hk"), RLong("hk2", 128), RLong("hk3", 129), RLong("hk4", 300) >>,
   << << >>, << "" >>, << "", "" >>, << "01", "", "02" >>, << "0102" >>, << RLong("hm1", 33), "00000001" >>, << RLong("hm2", 127), RLong("hm3", 129), "ff" >> >>)), 60, 1)
\* ---------------------------------------------------------------- signing ---
\* transcripts of a key x, presignature kappa and masked lambda, kappa*lambda, x*lambda, all from known polynomials;
\* openings for the nodes is
SigSetup(pre, l, t, is, x, kap) ==
  LET f(c, z) == [RP(l \o c, t) EXCEPT ![1] = z]
      lam == IF RInt(l, 5) = 0 THEN ScOne ELSE RSc(l \o "lam")
      tl == f("l", lam)  tk == f("k", ScMul(kap, lam))  tx == f("x", ScMul(x, lam))
      m1 == RP(l \o "m1", t)  m2 == RP(l \o "m2", t)  m3 == RP(l \o "m3", t)
  IN << MkTr(pre \o "key", "int", "S", f("key", x), << >>, t), MkTr(pre \o "pre", "int", "S", f("pre", kap), << >>, t), MkTr(pre \o "lam", "sum", "P", tl, m1, t), MkTr(pre \o "kl", "int", "P", tk, m2, t), MkTr(pre \o "xl", "int", "P", tx, m3, t) >>
     \o Flat(MapSeq(LAMBDA i : LET c == NodeSc(i) IN << MkO(pre \o "lo" \o i, "P", Eval(tl, c), Eval(m1, c)), MkO(pre \o "ko" \o i, "P", Eval(tk, c), Eval(m2, c)), MkO(pre \o "xo" \o i, "P", Eval(tx, c), Eval(m3, c)) >>, is))
Cx(pre, path, hash, rand) == [path |-> path, hash |-> hash, rand |-> rand, tkey |-> pre \o "key", tpre |-> pre \o "pre"]
ShareE(out, pre, i, c) == [op |-> "share", out |-> out, lam |-> pre \o "lo" \o i, kl |-> pre \o "ko" \o i, xl |-> pre \o "xo" \o i] @@ c
ShVer(s, pre, i, c) == [op |-> "shver", s |-> s, idx |-> i, tlam |-> pre \o "lam", tkl |-> pre \o "kl", txl |-> pre \o "xl"] @@ c
CombE(out, ss, thr, valid, c) == [op |-> "combine", out |-> out, shares |-> ss, thr |-> thr, valid |-> valid] @@ c
SigVer(s, c) == [op |-> "sigver", s |-> s] @@ c
RhoE(c) == [op |-> "rho"] @@ c
NBytes == "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"
Hashes == << RLong("h", 32), "", "01", "00", HRep("00", 32), HRep("ff", 32), NBytes, HCat(NBytes, "ff"), HSub(NBytes, 0, 31), RLong("h", 20), RLong("h", 31), RLong("h", 33), RLong("h", 48), RLong("h", 64), RLong("h", 100), HCat(HRep("00", 31), "01"), HRep("ff", 64), RLong("h", 256), RLong("h", 300) >>
Paths == << << >>, <<"00000000">>, <<"00000001", "00000002">>, <<"">>, <<"", "">>, <<"ff">>, <<"7fffffff">>, <<"80000000">>, <<"ffffffff", "ffffffff", "ffffffff">>, <<RLong("pe", 32)>>, <<RLong("pe", 300), "01">>, <<RLong("pe", 1000)>>, <<HRep("a5", 65537)>>, <<RLong("pe", 127)>>, <<RLong("pe", 128)>>, <<RLong("pe", 129), "02">>, <<"0001">>, <<"00", "01">>, <<"0001", "">>,
            <<"01", "02", "03", "04", "05", "06", "07", "08", "09", "0a">>, [i \in 1..40 |-> HNum(S(i), 4)] >>
SigNodes == << <<"0", "1", "2">>, <<"0">>, <<"3", "1">>, <<"0", "2", "4", "5">>, <<"255", "256", "65535", "65536">>, <<"4294967295", "0", "2147483648">>, <<"9", "127", "128">> >>
SubSets(is, t) == MapSeq(LAMBDA X : MapSeq(LAMBDA i : is[i + 1], SetSeq(X)), SubsOf(Len(is), t))
SignSc(j) ==
  LET l == "S" \o S(j)  is == IF j <= Len(SigNodes) THEN SigNodes[j] ELSE Pick(l \o "is", SigNodes)  n == Len(is)
      t == IF j = 1 THEN 2 ELSE 1 + RInt(l \o "t", n)
      x == IF j = 3 THEN ScOne ELSE IF j = 4 THEN NM1 ELSE RSc(l \o "x")  kap == IF j = 5 THEN ScOne ELSE IF j = 6 THEN NM1 ELSE RSc(l \o "kap")
      c(q) == Cx("", Paths[1 + ((j * 5 + q * 3 + RInt("po", 9)) % Len(Paths))], Hashes[1 + ((j * 3 + q + RInt("ho", 9)) % Len(Hashes))], IF q = 1 /\ j = 2 THEN "" ELSE RLong(L(l \o "rn", q), 32))
      run(q) == LET sn(i) == "s" \o S(q) \o i  cc == c(q)
                    sets == SubSets(is, t)  few == IF t = 1 THEN << << >> >> ELSE SubSets(is, 1) IN
         Flat(MapSeq(LAMBDA i : << ShareE(sn(i), IF q = 2 THEN "D" ELSE "", i, cc), ShVer(sn(i), "", i, cc) >>, is))
         \o Flat([z \in 1..Len(sets) |-> << CombE("g" \o S(q) \o "." \o S(z), MapSeq(LAMBDA i : <<i, sn(i)>>, sets[z]), t, TRUE, cc), SigVer("g" \o S(q) \o "." \o S(z), cc) >>])
         \o MapSeq(LAMBDA X : CombE("", MapSeq(LAMBDA i : <<i, sn(i)>>, X), Len(X) + 1, FALSE, cc), few)
         \o << [op |-> "note", what |-> "same", of |-> [z \in 1..Len(sets) |-> "g" \o S(q) \o "." \o S(z)]] >>
      \* openings kept in their serialised form
      decs == Flat(MapSeq(LAMBDA i : MapSeq(LAMBDA q : [op |-> "opmod", in |-> q \o i, out |-> "D" \o q \o i, what |-> IF q = "ko" THEN "byt" ELSE "dec"], <<"lo", "ko", "xo">>), is))
  IN Scen("sign-" \o S(j), SigSetup("", l, t, is, x, kap) \o decs \o Flat([q \in 1..Times(3, 6) |-> run(q)]))
\* the whole protocol: five nodes generate everything and sign
FullSc(j) ==
  LET l == "Z" \o S(j)  n == IF j = 1 THEN 3 ELSE 4 + (j % 2)  t == IF j = 1 THEN 2 ELSE 1 + RInt(l, (n + 1) \div 2)  ad == Ads[1 + (j % Len(Ads))]  names == Nm("k", n)
      all == AsIdx(0..(n - 1))  ts == SubSeq(all, n - t + 1, n)  tt == SubSeq(all, 1, 2 * t - 1)
      r(pre) == RoundE(pre, "rand", [t |-> "rand"], t, SubSeq(all, 1, IF n < 3 THEN n ELSE 2), RandSec(IF n < 3 THEN n ELSE 2), names, ad, l \o pre)
      msk(pre, from) == RoundE(pre, "msk", [t |-> "msk", p1 |-> from \o "t"], t, ts, OpenSec(from, ts), names, ad, l \o pre)
      mul(pre, a, b) == RoundE(pre, "mul", [t |-> "mul", p1 |-> a \o "t", p2 |-> b \o "t"], t, tt, OpenSec2(a, b, tt), names, ad, l \o pre)
      cc == [path |-> Paths[1 + ((3 * j) % Len(Paths))], hash |-> RBytes(l \o "hash"), rand |-> RBytes(l \o "rand"), tkey |-> "Xt", tpre |-> "Kt"]
      sh(i) == [op |-> "share", out |-> "s" \o i, lam |-> "Lo" \o i, kl |-> "Ao" \o i, xl |-> "Bo" \o i] @@ cc
      sv(i) == [op |-> "shver", s |-> "s" \o i, idx |-> i, tlam |-> "Lt", tkl |-> "At", txl |-> "Bt"] @@ cc
      sets == Subs(n, t)
  IN Scen("full-" \o S(j), KeysE("k", l, n) \o r("x") \o msk("X", "x") \o r("q") \o msk("K", "q") \o r("L") \o mul("A", "K", "L") \o mul("B", "X", "L")
       \o Flat(MapSeq(LAMBDA i : << sh(i), sv(i) >>, all)) \o Flat([z \in 1..Len(sets) |-> << CombE("g" \o S(z), MapSeq(LAMBDA i : <<i, "s" \o i>>, sets[z]), t, TRUE, cc), SigVer("g" \o S(z), cc) >>]))
\* signers whose numerator or denominator share is zero, or the same as another signer's, in every context: polynomials with a chosen root or constant ones
SignRoot(j) ==
  LET l == "SR" \o S(j)  is == <<"0", "1", "4">>  z == is[1 + (j % 3)]  zs == NodeSc(z)
      \* the polynomial of value y at zero and zero at z
      root(y) == << y, ScNeg(ScMul(y, ScInv(zs))) >>
      free(y) == << y, RSc(l \o "f") >>  flat(y) == << y, ScZero >>
      x == RSc(l \o "x")  kap == RSc(l \o "kap")  lam == RSc(l \o "lam")
      y1 == lam  y2 == ScMul(kap, lam)  y3 == ScMul(x, lam)
      ps == CASE j % 4 = 0 -> << root(y1), free(y2), root(y3) >> [] j % 4 = 1 -> << root(y1), root(y2), free(y3) >> [] j % 4 = 2 -> << root(y1), root(y2), root(y3) >> [] j % 4 = 3 -> << flat(y1), flat(y2), flat(y3) >>
      zz == <<ScZero, ScZero>>  m == IF j % 2 = 0 THEN << RP(l \o "m1", 2), RP(l \o "m2", 2), RP(l \o "m3", 2) >> ELSE << zz, zz, zz >>
      cc(q) == Cx("", Paths[1 + ((j + q) % Len(Paths))], RBytes(L(l \o "h", q)), RBytes(l \o "r"))
      sets == SubSets(is, 2) \o << is >>
      run(q) == Flat(MapSeq(LAMBDA i : << ShareE("s" \o S(q) \o i, "", i, cc(q)), ShVer("s" \o S(q) \o i, "", i, cc(q)) >>, is))
         \o Flat([y \in 1..Len(sets) |-> LET g == "g" \o S(q) \o "." \o S(y) IN << CombE(g, MapSeq(LAMBDA i : <<i, "s" \o S(q) \o i>>, sets[y]), 2, TRUE, cc(q)), SigVer(g, cc(q)) >>])
  IN Scen("sign-root-" \o S(j), << MkTr("key", "int", "S", free(x), << >>, 2), MkTr("pre", "int", "S", free(kap), << >>, 2), MkTr("lam", "sum", "P", ps[1], m[1], 2), MkTr("kl", "int", "P", ps[2], m[2], 2), MkTr("xl", "int", "P", ps[3], m[3], 2) >>
     \o Flat(MapSeq(LAMBDA i : LET c == NodeSc(i) IN << MkO("lo" \o i, "P", Eval(ps[1], c), Eval(m[1], c)), MkO("ko" \o i, "P", Eval(ps[2], c), Eval(m[2], c)), MkO("xo" \o i, "P", Eval(ps[3], c), Eval(m[3], c)) >>, is))
     \o run(1) \o run(2))

\* contexts that differ from c in one input
Variants(c, l) == << [c EXCEPT !.hash = HCat(@, "00")], [c EXCEPT !.hash = HCat("00", @)], [c EXCEPT !.hash = RBytes(l)], [c EXCEPT !.rand = HCat(@, "00")], [c EXCEPT !.rand = RBytes(l \o "r")], [c EXCEPT !.rand = ""],
   [c EXCEPT !.path = @ \o <<"00000000">>], [c EXCEPT !.path = <<"01">>], [c EXCEPT !.path = << >>], [c EXCEPT !.hash = c.rand, !.rand = c.hash], [c EXCEPT !.tkey = "okey"], [c EXCEPT !.tpre = "opre"], [c EXCEPT !.tkey = c.tpre, !.tpre = c.tkey],
   [c EXCEPT !.rand = HCat(c.hash, c.rand), !.hash = ""], [c EXCEPT !.hash = HCat(c.rand, c.hash), !.rand = ""] >>
   \o (IF c.rand = "" THEN << >> ELSE << [c EXCEPT !.hash = HCat(@, HSub(c.rand, 0, 1)), !.rand = HSub(@, 1, HLen(@))] >>)
   \o (IF c.hash = "" THEN << >> ELSE << [c EXCEPT !.rand = HCat(@, HSub(c.hash, 0, 1)), !.hash = HSub(@, 1, HLen(@))] >>)
ShVerSc(j) ==
  LET l == "B" \o S(j)  is == Pick(l, SigNodes \o <<>>)  n == Len(is)  t == IF j = 1 THEN 1 ELSE 1 + RInt(l \o "t", n)  i == is[1 + (j % n)]
      c == Cx("", Paths[1 + (j * 3 % Len(Paths))], IF j % 2 = 0 THEN RBytes(l \o "h") ELSE Hashes[1 + RInt(l \o "h", Len(Hashes))], RBytes(l \o "rn"))
      ms == << <<"nv", D1>>, <<"nv", RSc(l)>>, <<"nm", D1>>, <<"dv", NM1>>, <<"dm", RSc(l)>>, <<"dm", D1>>, <<"nm", NM1>>, <<"dv", D1>>, <<"swap", D1>>, <<"numkind", D1>>, <<"denkind", D1>>, <<"numnil", D1>>, <<"dennil", D1>>, <<"nneg", D1>>, <<"dneg", D1>>, <<"neg", D1>>, <<"nvm", D1>> >>
      md(out, what, r) == [op |-> "shmod", in |-> "s", out |-> out, what |-> what] @@ r
      vs == SelectSeq(Variants(c, l), LAMBDA v : v.hash # c.hash \/ v.rand # c.rand \/ v.path # c.path \/ v.tkey # c.tkey \/ v.tpre # c.tpre)
      sv(s, r) == [ShVer(s, "", i, c) EXCEPT !.tlam = r.l, !.tkl = r.k, !.txl = r.x]
      T(a, b, d) == [l |-> a, k |-> b, x |-> d]
      \* both halves off in ways that cancel in a sum
      nodes == SortIdx(SetSeq(Range(<<"0", "1", "2", "3", "255", "256", "4294967295">> \o Near(i))))
  IN Scen("shver-" \o S(j), SigSetup("", l, t, is, RSc(l \o "x"), RSc(l \o "kap")) \o SigSetup("o", l \o "o", t, is, RSc(l \o "ox"), RSc(l \o "ok"))
       \o Flat(MapSeq(LAMBDA q : << ShareE("s" \o q, "", q, c), ShVer("s" \o q, "", q, c) >>, is)) \o << ShareE("s", "", i, c), ShareE("os", "o", i, c) >>
       \o MapSeq(LAMBDA q : ShVer("s", "", q, c), nodes)
       \o Flat([q \in 1..Len(ms) |-> << md("m" \o S(q), ms[q][1], [d |-> ms[q][2]]), ShVer("m" \o S(q), "", i, c) >>])
       \o << md("n1", "numfrom", [from |-> "os"]), ShVer("n1", "", i, c), md("n2", "denfrom", [from |-> "os"]), ShVer("n2", "", i, c), ShVer("os", "", i, c), ShVer("os", "o", i, c) >>
       \o (IF n = 1 THEN << >> ELSE << md("n3", "numfrom", [from |-> "s" \o is[1 + ((j + 1) % n)]]), ShVer("n3", "", i, c), md("n4", "denfrom", [from |-> "s" \o is[1 + ((j + 1) % n)]]), ShVer("n4", "", i, c) >>)
       \* each half changed for itself, in a share that is right otherwise
       \o << md("n5", "nv", [d |-> D1]), [op |-> "shmod", in |-> "n5", out |-> "n6", what |-> "dv", d |-> NM1], ShVer("n6", "", i, c), [op |-> "shmod", in |-> "n5", out |-> "n7", what |-> "nm", d |-> NM1], ShVer("n7", "", i, c) >>
       \o MapSeq(LAMBDA v : ShVer("s", "", i, v), vs) \o Flat([q \in 1..Len(vs) |-> << ShareE("v" \o S(q), "", i, vs[q]), ShVer("v" \o S(q), "", i, c), ShVer("v" \o S(q), "", i, vs[q]) >>])
       \o MapSeq(LAMBDA r : sv("s", r), << T("olam", "kl", "xl"), T("lam", "okl", "xl"), T("lam", "kl", "oxl"), T("kl", "lam", "xl"), T("lam", "xl", "kl"), T("xl", "kl", "lam"), T("pre", "kl", "xl"), T("lam", "lam", "lam"), T("lam", "key", "xl"), T("lam", "kl", "pre") >>)
       \* openings of the wrong kind
       \o << MkO("so", "S", RSc(l), ScZero), MkO("po", "P", RSc(l), ScOne), MkO("no", "none", ScZero, ScZero) >>
       \o Flat(MapSeq(LAMBDA o : << [ShareE("", "", i, c) EXCEPT !.lam = o], [ShareE("", "", i, c) EXCEPT !.kl = o], [ShareE("", "", i, c) EXCEPT !.xl = o] >>, <<"so", "no", "po">>))
       \o << [ShareE("w", "", i, c) EXCEPT !.lam = "olo" \o i], ShVer("w", "", i, c), [ShareE("w2", "", i, c) EXCEPT !.kl = "oko" \o i], ShVer("w2", "", i, c), [ShareE("w3", "", i, c) EXCEPT !.xl = "oxo" \o i], ShVer("w3", "", i, c),
             [ShareE("", "", i, c) EXCEPT !.tpre = "lam"], [ShVer("s", "", i, c) EXCEPT !.tpre = "lam"], [ShVer("s", "", i, c) EXCEPT !.tpre = "kl"] >>)
ShVerScs(zz) == [j \in 1..Times(3, 30) |-> ShVerSc(j)]
SigVerSc(j) ==
  LET l == "Y" \o S(j)  is == <<"0", "1">>  c == Cx("", Paths[1 + (j * 3 % Len(Paths))], IF j <= Len(Hashes) THEN Hashes[j] ELSE RBytes(l \o "h"), RBytes(l \o "rn"))
      vs == SelectSeq(Variants(c, l), LAMBDA v : v.hash # c.hash \/ v.rand # c.rand \/ v.path # c.path \/ v.tkey # c.tkey \/ v.tpre # c.tpre)
      mk(out, what, d) == [op |-> "mksig", out |-> out, from |-> "g", what |-> what, d |-> d]
      ri(out, f, v) == IF f = "r" THEN [op |-> "mksig", out |-> out, from |-> "g", ri |-> v] ELSE [op |-> "mksig", out |-> out, from |-> "g", si |-> v]
      ms == << mk("m1", "neg", D1), mk("m2", "negr", D1), mk("m3", "addr", D1), mk("m4", "adds", D1), mk("m5", "adds", RSc(l)), mk("m6", "swap", D1), ri("m7", "r", ScZero), ri("m8", "s", ScZero), ri("m9", "s", ScOne), ri("m10", "s", Half), ri("m11", "s", HalfUp), ri("m12", "r", ScOne), ri("m13", "s", NM1), mk("m14", "addr", NM1),
               [op |-> "mksig", out |-> "m15", ri |-> ScZero, si |-> ScZero] >>
  IN Scen("sigver-" \o S(j), SigSetup("", l, 2, is, RSc(l \o "x"), RSc(l \o "kap")) \o SigSetup("o", l \o "o", 2, is, RSc(l \o "ox"), RSc(l \o "ok"))
       \o Flat(MapSeq(LAMBDA q : << ShareE("s" \o q, "", q, c) >>, is)) \o << CombE("g", MapSeq(LAMBDA i : <<i, "s" \o i>>, is), 2, TRUE, c), SigVer("g", c) >>
       \o Flat(MapSeq(LAMBDA e : << e, SigVer(e.out, c) >>, ms)) \o MapSeq(LAMBDA v : SigVer("g", v), vs)
       \o << [SigVer("g", c) EXCEPT !.tpre = "lam"], [SigVer("g", c) EXCEPT !.tpre = "kl"] >>)
\* keys and presignatures chosen so that a high or boundary s, and infinity, are met: x and kappa known
SigEdge(j) ==
  LET l == "YE" \o S(j)  c == Cx("", << >>, IF j % 2 = 0 THEN RBytes(l) ELSE HRep("00", 32), RBytes(l \o "r")) IN
  Scen("sigedge-" \o S(j), << MkTr("key", "int", "S", <<IF j <= 2 THEN ScZero ELSE ScEdge[1 + RInt(l, Len(ScEdge))]>>, << >>, 1), MkTr("pre", "int", "S", <<IF j \in {2, 3} THEN ScZero ELSE ScOne>>, << >>, 1), RhoE(c) >>
     \o << [op |-> "mksig", out |-> "a", ri |-> ScOne, si |-> ScOne], SigVer("a", c) >>)
SigVerScs(zz) == [j \in 1..Times(5, 40) |-> SigVerSc(j)] \o [j \in 1..4 |-> SigEdge(j)] \o ConvScs(0)
\* ----------------------------------------------------- numbers of dealings ---
\* sharings with t1 and t2 coefficients: as many dealings as needed, one less, one more, by varying dealers
QuoSc(typ, t1, t2) ==
  LET l == "Q" \o typ \o S(t1) \o S(t2)
      need == IF typ = "mul" THEN t1 + t2 - 1 ELSE t1
      n == need + 1
      is == IF (t1 + t2) % 2 = 0 THEN AsIdx(0..(n - 1)) ELSE SortIdx([i \in 1..n |-> Idx[1 + ((i * 5 + RInt(l, 19)) % 19)]])
      a == RP(l \o "a", t1)  am == RP(l \o "am", t1)  b == RP(l \o "b", t2)  m == RP(l \o "m", t2)
      v(p, i) == Eval(p, NodeSc(i))
      past == CASE typ = "unm" -> << MkTr("p1", "int", "S", a, << >>, t1) >> [] typ = "msk" -> << MkTr("p1", "sum", "P", a, am, t1) >>
                [] typ = "mul" -> << MkTr("p1", "int", "S", a, << >>, t1), MkTr("p2", "sum", "P", b, m, t2) >>
      sec(i) == SecR(typ, v(a, i), v(b, i), IF typ = "msk" THEN v(am, i) ELSE v(m, i))
      thr == 1 + ((t1 + t2) % 2)
      tr(X) == << [op |-> "tr", out |-> "t" \o S(Len(X)) \o X[1], ds |-> MapSeq(LAMBDA i : <<i, "d" \o i>>, X), tr |-> TrR(typ, ""), thr |-> thr] >>
      opn(X) == << [op |-> "open", out |-> "", ds |-> MapSeq(LAMBDA i : <<i, "d" \o i>>, X), tr |-> "t" \o S(Len(X)) \o X[1], given |-> << >>, ad |-> "ad", idx |-> "1", key |-> "k1"] >>
  IN Scen("quo-" \o typ \o "-" \o S(t1) \o "-" \o S(t2), KeysE("k", l, 2) \o past \o MapSeq(LAMBDA i : DealE("d" \o i, sec(i), thr, <<"k0", "k1">>, i, "ad", l \o i), is)
       \o (IF need < 2 THEN << >> ELSE tr(SubSeq(is, 1, need - 1)) \o tr(SubSeq(is, 3, n)))
       \o tr(SubSeq(is, 1, need)) \o opn(SubSeq(is, 1, need)) \o tr(SubSeq(is, 2, n)) \o opn(SubSeq(is, 2, n)) \o (IF need < 3 THEN << >> ELSE tr(<<is[1]>> \o SubSeq(is, 3, n)))
       \o tr(is) \o opn(is) \o (IF need < 3 THEN << >> ELSE tr(SubSeq(is, 1, 1))))
\* numbers of openings and of signature shares, for thresholds up to k
QuoRecon(k) ==
  LET l == "QR" \o S(k)  n == k + 2  os(is) == MapSeq(LAMBDA i : <<i, "o" \o i>>, is)
      all == AsIdx(0..(n - 1))  typ == Typs[1 + (k % 4)]
      rec(is, i) == [op |-> "recon", d |-> "d", ops |-> os(is), idx |-> i, out |-> ""] IN
  Scen("quo-recon-" \o S(k), KeysE("k", l, n) \o One(typ, "", l, k, n, "3", "ad", RSc(l \o "x"), RSc(l \o "y"), RSc(l \o "m"))
     \o [i \in 1..n |-> [op |-> "opendeal", d |-> "d", key |-> "k" \o S(i - 1), ad |-> "ad", dealer |-> "3", idx |-> S(i - 1), out |-> "o" \o S(i - 1)]]
     \o Flat([c \in 1..(n + 1) |-> << rec(SubSeq(all, 1, c - 1), S(n)), rec(SubSeq(all, n - c + 2, n), "0") >>]))
ReconScs(zz) == << QuoRecon(9), QuoRecon(10), QuoRecon(12), QuoRecon(11) >> \o Flat(MapSeq(LAMBDA y : [j \in 1..Times(4, 12) |-> ReconSc(y, j)], Typs)) \o [j \in 1..Times(4, 12) |-> GivenSc(j)]
QuoSign(t) ==
  LET l == "QS" \o S(t)  n == t + 2  is == IF t % 2 = 0 THEN AsIdx(0..(n - 1)) ELSE SortIdx([i \in 1..n |-> Idx[1 + ((i * 3 + RInt(l, 19)) % 19)]])
      cc == Cx("", Paths[1 + t], RBytes(l \o "h"), RBytes(l \o "r"))
      cb(X, thr, ok) == CombE("", MapSeq(LAMBDA i : <<i, "s" \o i>>, X), thr, ok, cc) IN
  Scen("quo-sign-" \o S(t), SigSetup("", l, t, is, RSc(l \o "x"), RSc(l \o "kap")) \o Flat(MapSeq(LAMBDA i : << ShareE("s" \o i, "", i, cc) >>, is))
     \o Flat([c \in 1..(n + 1) |-> << cb(SubSeq(is, 1, c - 1), t, c - 1 >= t), cb(SubSeq(is, n - c + 2, n), t, c - 1 >= t), cb(SubSeq(is, 1, c - 1), c, FALSE) >>]))
\* the same where the number of dealers, openers and signers no longer fits small tables
QuoBig(typ, t1, t2) ==
  LET l == "QB" \o typ \o S(t1)  need == IF typ = "mul" THEN t1 + t2 - 1 ELSE t1
      is == [i \in 1..(need + 1) |-> S(3 * i - 2)]
      a == RP(l \o "a", t1)  am == RP(l \o "am", t1)  b == RP(l \o "b", t2)  m == RP(l \o "m", t2)  v(p, i) == Eval(p, NodeSc(i))
      past == CASE typ = "unm" -> << MkTr("p1", "int", "S", a, << >>, t1) >> [] typ = "msk" -> << MkTr("p1", "sum", "P", a, am, t1) >> [] typ = "mul" -> << MkTr("p1", "int", "S", a, << >>, t1), MkTr("p2", "sum", "P", b, m, t2) >>
      tr(q, X) == << [op |-> "tr", out |-> q, ds |-> MapSeq(LAMBDA i : <<i, "d" \o i>>, X), tr |-> TrR(typ, ""), thr |-> 2] >>
      opn(q, X) == [i \in 1..2 |-> [op |-> "open", out |-> q \o "o" \o S(i - 1), ds |-> MapSeq(LAMBDA y : <<y, "d" \o y>>, X), tr |-> q, given |-> << >>, ad |-> "ad", idx |-> S(i - 1), key |-> "k" \o S(i - 1)]]
  IN Scen("quo-big-" \o typ, KeysE("k", l, 2) \o past \o MapSeq(LAMBDA i : DealE("d" \o i, SecR(typ, v(a, i), v(b, i), IF typ = "msk" THEN v(am, i) ELSE v(m, i)), 2, <<"k0", "k1">>, i, "ad", l \o i), is)
       \o tr("t0", SubSeq(is, 2, need)) \o tr("t", SubSeq(is, 1, need)) \o opn("t", SubSeq(is, 1, need)) \o << NSec("t", OpS("t", <<"0", "1">>)) >> \o tr("u", is) \o opn("u", is))
\* every shape at once: coefficients of the factors (t1, t2), the new threshold, dealers beyond the number needed (x), and which coefficients are zero (z)
GridSc(typ, t1, t2, thr, x, z) ==
  LET l == "G" \o typ \o S(t1) \o S(t2) \o S(thr)
      need == IF typ = "mul" THEN t1 + t2 - 1 ELSE t1
      n == need + x
      is == IF (t1 + t2 + thr) % 2 = 0 THEN AsIdx(0..(n - 1)) ELSE SortIdx([i \in 1..n |-> Idx[1 + ((i * 5 + RInt(l, 19)) % 19)]])
      bit(k) == (z \div k) % 2 = 1
      pol(r, k, top, bot) == [i \in 1..k |-> IF (i = k /\ bit(top)) \/ (i = 1 /\ bit(bot)) THEN ScZero ELSE RSc(L(l \o r, i))]
      a == pol("a", t1, 1, 2)  am == pol("am", t1, 4, 8)  b == pol("b", t2, 4, 8)  m == pol("m", t2, 4, 16)
      v(p, i) == Eval(p, NodeSc(i))
      past == CASE typ = "unm" -> << MkTr("p1", "int", "S", a, << >>, t1) >> [] typ = "msk" -> << MkTr("p1", "sum", "P", a, am, t1) >> [] typ = "mul" -> << MkTr("p1", "int", "S", a, << >>, t1), MkTr("p2", "sum", "P", b, m, t2) >>
      mine(i) == << MkO("xo" \o i, IF typ = "msk" THEN "P" ELSE "S", v(a, i), v(am, i)) >> \o (IF typ = "mul" THEN << MkO("yo" \o i, "P", v(b, i), v(m, i)) >> ELSE << >>)
      sec(i) == SecR(typ, v(a, i), v(b, i), IF typ = "msk" THEN v(am, i) ELSE v(m, i))
      ks == Nm("k", thr + 1)
      go(q, X) == LET ds == MapSeq(LAMBDA i : <<i, "d" \o i>>, X) IN
         << [op |-> "tr", out |-> q, ds |-> ds, tr |-> TrR(typ, ""), thr |-> thr] >>
         \o (IF Len(X) < need THEN << >> ELSE
             [i \in 1..(thr + 1) |-> [op |-> "open", out |-> q \o "o" \o S(i - 1), ds |-> ds, tr |-> q, given |-> << >>, ad |-> "ad", idx |-> S(i - 1), key |-> "k" \o S(i - 1)]]
             \o << NSec(q, OpS(q, AsIdx(0..(thr - 1)))), NSec(q, OpS(q, AsIdx(1..thr))) >>
             \o << IF typ = "mul" THEN NProd(OpS("x", SubSeq(is, 1, t1)), OpS("y", SubSeq(is, n - t2 + 1, n)), OpS(q, AsIdx(1..thr))) ELSE NSame(OpS("x", SubSeq(is, 1, t1)), OpS(q, AsIdx(0..(thr - 1)))) >>)
  IN Scen("grid-" \o typ \o "-" \o S(t1) \o "-" \o S(t2) \o "-" \o S(thr), KeysE("k", l, thr + 1) \o past \o Flat(MapSeq(mine, is)) \o MapSeq(LAMBDA i : DealE("d" \o i, sec(i), thr, ks, i, "ad", l \o i), is)
       \o MapSeq(LAMBDA i : Pub("d" \o i, TrR(typ, ""), thr, i, thr + 1, "ad"), is)
       \o go("t0", SubSeq(is, 1, need - 1)) \o go("t1", SubSeq(is, 1, need)) \o (IF x = 0 THEN << >> ELSE go("t2", is) \o go("t3", SubSeq(is, x + 1, n)) \o go("t4", SubSeq(is, n - need + 2, n))))
GridRs(y) == LET d == Times(3, 4) IN Flat([t1 \in 1..d |-> [thr \in 1..d |-> GridSc(y, t1, 1, thr, <<4, 0, 2, 1, 3>>[1 + ((t1 * 2 + thr + RInt("gx", 5)) % 5)], RInt(L(L("gz" \o y, t1), thr), 16))]]) \o << GridSc(y, 2, 1, 1, 5, 0), GridSc(y, 1, 2, 2, 6, 0), GridSc(y, 4, 1, 3, 3, 1), GridSc(y, 1, 3, 1, 4, 2), GridSc(y, 3, 3, 1, 2, 2) >>
GridMs(zz) == LET d == Times(3, 4) IN MapSeq(LAMBDA p : LET thr == 1 + ((p[1] + p[2] + RInt("gt", 2)) % 2) IN GridSc("mul", p[1], p[2], thr, (p[1] * 2 + p[2]) % 3, IF p = <<1, 1>> THEN 26 ELSE RInt(L(L("gz", p[1]), p[2]), 32)), Pairs([i \in 1..d |-> i], [i \in 1..d |-> i]))
  \o << GridSc("mul", 1, 1, 1, 0, 27), GridSc("mul", 2, 1, 1, 1, 1), GridSc("mul", 1, 2, 1, 0, 4), GridSc("mul", 3, 3, 1, 0, 5), GridSc("mul", 3, 2, 3, 2, 1) >>
ReshScs(zz) == GridRs("unm") \o GridRs("msk") \o << QuoBig("unm", 9, 1), QuoBig("msk", 9, 1) >> \o [j \in 1..Times(6, 40) |-> ChainSc(j)] \o Flat(MapSeq(LAMBDA y : [j \in 1..Times(3, 12) |-> DealersSc(y, j)] \o [j \in 1..Times(IF y = "unm" THEN 2 ELSE 4, 12) |-> ZeroDealSc(y, j)], <<"unm", "msk">>))
MultScs(zz) == GridMs(0) \o << QuoBig("mul", 5, 6) >> \o [j \in 1..Times(5, 24) |-> DealersSc("mul", j)] \o [j \in 1..Times(4, 16) |-> ZeroDealSc("mul", j)]
QuoBigRecon(k) ==
  LET l == "QBR"  n == k + 1  all == Wide(n)  rec(is, i) == [op |-> "recon", d |-> "d", ops |-> MapSeq(LAMBDA i2 : <<i2, "o" \o i2>>, is), idx |-> i, out |-> ""] IN
  Scen("quo-big-recon", << KeyE("k", l) >> \o << DealE("d", [t |-> "rand"], k, [i \in 1..n |-> "k"], "3", "ad", l) >> \o [i \in 1..n |-> [op |-> "opendeal", d |-> "d", key |-> "k", ad |-> "ad", dealer |-> "3", idx |-> S(i - 1), out |-> "o" \o S(i - 1)]]
     \o << rec(SubSeq(all, 1, k - 1), "0"), rec(SubSeq(all, 1, k), S(k)), rec(SubSeq(all, 2, n), "0"), rec(all, S(n)) >>)
QuoBigSign(t) ==
  LET l == "QBS"  is == Wide(t + 1)  cc == Cx("", <<"01">>, RBytes(l \o "h"), RBytes(l \o "r"))  cb(o, X, thr, ok) == CombE(o, MapSeq(LAMBDA i : <<i, "s" \o i>>, X), thr, ok, cc) IN
  Scen("quo-big-sign", SigSetup("", l, t, is, RSc(l \o "x"), RSc(l \o "kap")) \o Flat(MapSeq(LAMBDA i : << ShareE("s" \o i, "", i, cc) >>, is))
     \o << ShVer("s" \o is[1], "", is[1], cc), ShVer("s" \o is[t + 1], "", is[t + 1], cc), cb("", SubSeq(is, 1, t - 1), t, FALSE), cb("g1", SubSeq(is, 1, t), t, TRUE), cb("g2", SubSeq(is, 2, t + 1), t, TRUE), cb("g3", is, t, TRUE), SigVer("g1", cc), SigVer("g3", cc), cb("", is, t + 256, FALSE), cb("", is, t + 65536, FALSE) >>)
SignScs(zz) == << QuoSign(9) >> \o [j \in 1..Times(8, 24) |-> SignRoot(j)] \o [j \in 1..Times(8, 60) |-> SignSc(j)] \o [j \in 1..Times(2, 10) |-> FullSc(j)]
QuoBigs(zz) == LET b == Times(38, 80) IN << QuoBig("unm", b, 1), QuoBig("msk", b, 1), QuoBig("mul", b \div 2, b \div 2 + 2), QuoBigRecon(b), QuoBigSign(b) >>
QuoScs(zz) == LET k == Times(4, 7) IN
  QuoBigs(0) \o
  MapSeq(LAMBDA t : QuoSc("unm", t, t + 1), [i \in 1..k |-> i]) \o MapSeq(LAMBDA t : QuoSc("msk", t, t), [i \in 1..k |-> i])
  \o MapSeq(LAMBDA x : QuoSc("mul", x[1], x[2]), Pairs([i \in 1..Times(4, 5) |-> i], [i \in 1..Times(4, 5) |-> i]))
  \o [i \in 1..k |-> QuoRecon(i)] \o [i \in 1..k |-> QuoSign(i)]
RhoSc(j) ==
  LET l == "A" \o S(j)
      c == Cx("", Paths[1 + (j % Len(Paths))], Hashes[1 + (j * 7 % Len(Hashes))], IF j % 3 = 0 THEN RLong(l, 256) ELSE RBytes(l))
      d == Cx("", << >>, "0102", "0304")
      mv == << <<"", "01020304">>, <<"01", "020304">>, <<"0102", "0304">>, <<"010203", "04">>, <<"01020304", "">>, <<"0304", "0102">>, <<"", "">>, <<"00", "">>, <<"", "00">>, <<"0000", "">>,
               <<RLong(l, 255), RLong(l, 10)>>, <<RLong(l, 256), RLong(l, 10)>>, <<RLong(l, 257), RLong(l, 10)>>, <<RLong(l, 10), RLong(l, 256)>>, <<RLong(l, 10), RLong(l, 300)>>, <<RLong(l, 10), RLong(l, 65536)>>, <<RLong(l, 10), RLong(l, 65537)>> >>
  IN Scen("rho-" \o S(j), SigSetup("", l, 2, <<"0">>, RSc(l \o "x"), RSc(l \o "kap")) \o SigSetup("o", l \o "o", 2, <<"0">>, RSc(l \o "ox"), RSc(l \o "ok"))
     \o << RhoE(c), RhoE(c), ShareE("", "", "0", c) >> \o MapSeq(RhoE, Variants(c, l)) \o MapSeq(LAMBDA p : RhoE([d EXCEPT !.hash = p[1], !.rand = p[2]]), mv) \o MapSeq(LAMBDA p : RhoE([c EXCEPT !.path = p]), Paths) \o MapSeq(LAMBDA h : RhoE([c EXCEPT !.hash = h]), Hashes)
     \* keys and presignatures that share a coordinate, or differ by little; the same constant term under another polynomial, length or kind
     \o LET x == RSc(l \o "x")  kap == RSc(l \o "kap")
            T(n, k, q) == [op |-> "mktr", out |-> n, cls |-> "int", k |-> k, p |-> q, rep |-> "proj"]
            near(y) == << PtMul(PtG, ScNeg(y)), PtMul(PtG, ScAdd(y, ScOne)), PtMul(PtG, ScAdd(y, y)), PtMul(PtH, y), PtAdd(PtMul(PtG, y), PtH), PtId, PtG, PtH, PtNeg(PtG) >>
            nk == near(x)  np == near(kap) IN
        Flat([i \in 1..Len(nk) |-> << T("nk" \o S(i), "S", <<nk[i], PtG>>), T("np" \o S(i), "S", <<np[i], PtH>>), RhoE([c EXCEPT !.tkey = "nk" \o S(i)]), RhoE([c EXCEPT !.tpre = "np" \o S(i)]), RhoE([c EXCEPT !.tkey = "nk" \o S(i), !.tpre = "np" \o S(i)]) >>])
        \o << T("sk", "S", <<PtMul(PtG, x)>>), T("sp", "S", <<PtMul(PtG, kap), PtNeg(PtG), PtH>>), T("pk", "P", <<PtMul(PtG, x), PtH>>), T("pp", "P", <<PtMul(PtG, kap)>>), RhoE([c EXCEPT !.tkey = "sk"]), RhoE([c EXCEPT !.tpre = "sp"]), RhoE([c EXCEPT !.tkey = "pk"]), RhoE([c EXCEPT !.tpre = "pp"]), RhoE([c EXCEPT !.tkey = "np1", !.tpre = "nk1"]) >>
     \o << RhoE(c), [RhoE(c) EXCEPT !.tpre = "lam"], [RhoE(c) EXCEPT !.tpre = "kl"], [RhoE(c) EXCEPT !.tkey = "lam"] >>)
RhoScs(zz) == [j \in 1..Times(2, 20) |-> RhoSc(j)] \o ConvScs(0)

\* --------------------------------------------------------------- derivation ---
Dk(pk, path) == [op |-> "derive", pk |-> pk, path |-> path]
DKeys == << PtG, PtH, PtNeg(PtG), RPt("dk1"), RPt("dk2"), PtMul(PtG, NM1) >>
DeriveScs(zz) == Cut("derive", MapSeq(LAMBDA p : Dk(p[1], p[2]), Pairs(DKeys, Paths \o [j \in 1..Times(4, 40) |-> [i \in 1..(1 + RInt(L("pl", j), 6)) |-> RLong(L(L("pp", j), i), RInt(L(L("pq", j), i), 40))]]))
    \o MapSeq(LAMBDA p : [op |-> "bip32", pk |-> p[1], path |-> p[2]], Pairs(DKeys, << << >>, <<"0">>, <<"1", "2">>, <<"2147483647">>, <<"2147483648">>, <<"4294967295", "0">>, <<"44", "60", "0", "0", "7">>, <<"255", "256", "65536", "16777216">> >>))
    \o << Dk(PtG, [i \in 1..258 |-> IF i % 3 = 0 THEN "" ELSE RBytes(L("lp", i))]), [op |-> "bip32", pk |-> PtG, path |-> [i \in 1..258 |-> ToString(i)]] >>
    \o MapSeq(LAMBDA p : Dk(p, <<"01">>), << "", "02", PtId, HCat(PtG, "00"), HCat("04", HSub(PtG, 1, 33)), HCat("02", HRep("ff", 32)), HCat("05", HSub(PtG, 1, 33)) >>), 60, 1) \o HmScs(0)
NextScs(zz) == Cut("next", MapSeq(LAMBDA x : [op |-> "next", i |-> x],
   << "", "00", "01", "7f", "80", "fe", "ff", "0000", "00ff", "01ff", "feff", "fffe", "ffff", "00000000", "000000ff", "0000ffff", "7fffffff", "80000000", "fffffffe", "ffffffff", "00ffffff", "ff00ff", "ffff00", "0100ff", "fffffffffffffffe", "ffffffffffffffff", HRep("ff", 32), HCat(HRep("ff", 31), "fe"), HCat("00", HRep("ff", 40)),
      HCat("fe", HRep("ff", 40)), HRep("ff", 255), HRep("ff", 300) >> \o [j \in 1..Times(40, 600) |-> LET n == RInt(L("nx", j), 9) k == RInt(L("ny", j), 6) IN HCat(RLong(L("nz", j), n), HRep("ff", k))] \o [j \in 1..256 |-> HNum(S(j - 1), 1)]), 400, 1)

\* --------------------------------------------------------------------- clones ---
CloneScs(zz) == Flat(MapSeq(LAMBDA typ : [j \in 1..Times(2, 10) |-> LET l == "CL" \o typ \o S(j)  n == 2 + j  t == 1 + (j % 3) IN
   Scen("clone-" \o typ \o "-" \o S(j), KeysE("k", l, n) \o One(typ, "", l, t, n, "1", "61", IF j = 2 THEN ScZero ELSE RSc(l \o "x"), RSc(l \o "y"), RSc(l \o "m"))
     \o << [op |-> "clone", d |-> "d"], ModE("d", "e", "compad", [n |-> 1]), [op |-> "clone", d |-> "e"], ModE("d", "f", "comkind", None), [op |-> "clone", d |-> "f"],
           Pub("d", TrR(typ, ""), t, "1", n, "61"), Priv("d", "k0", "61", "1", "0"), [op |-> "clone", d |-> "d"] >>)], Typs))
ProtoFams == {"clone", "deal", "pub", "priv", "enc", "ctx", "pop", "trans", "resh", "mult", "fit", "recon", "comp", "cver", "fresh", "sign", "shver", "sigver", "rho", "derive", "next", "quo"}
ProtoScen(f) == CASE f = "deal" -> DealScs(0) [] f = "pub" -> PubScs(0) \o EphScs(0) [] f = "priv" -> PrivScs(0) \o EphScs(0) [] f = "enc" -> EncScs(0) [] f = "ctx" -> CtxScs(0) \o EphScs(0) [] f = "pop" -> PopScs(0) \o EphScs(0)
  [] f = "trans" -> TransScs(0) [] f = "resh" -> ReshScs(0) [] f = "mult" -> MultScs(0) [] f = "fit" -> FitScs(0) [] f = "recon" -> ReconScs(0) [] f = "comp" -> CompScs(0) [] f = "cver" -> CVerScs(0)
  [] f = "fresh" -> FreshScs(0) [] f = "sign" -> SignScs(0) [] f = "shver" -> ShVerScs(0) [] f = "sigver" -> SigVerScs(0) [] f = "rho" -> RhoScs(0) [] f = "derive" -> DeriveScs(0) [] f = "next" -> NextScs(0) [] f = "quo" -> QuoScs(0) [] f = "clone" -> CloneScs(0)

=============================================================================
