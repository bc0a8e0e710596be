------------------------------- MODULE ZkGen -------------------------------
(* Proofs from every kind of witness; every part of statement, data,       *)
(* challenge and responses altered; proofs a cheat would make.             *)
EXTENDS Gen
ZS == INSTANCE ZkSpec
S(i) == ToString(i)
Types == <<"dleq", "eq", "prod">>
NW(t) == CASE t = "dleq" -> 1 [] t = "eq" -> 2 [] t = "prod" -> 5
NSt(t) == CASE t = "dleq" -> 4 [] t = "eq" -> 2 [] t = "prod" -> 3
NP(t) == IF t = "prod" THEN 3 ELSE 2
NCom(t) == IF t = "eq" THEN 1 ELSE 2
Ads == << "", "00", "61", RLong("ad", 32), RLong("ad", 255), RLong("ad", 256), RLong("ad", 1000) >>
MakeE(out, t, w, g, h, ad, l) == [op |-> "zk.make", out |-> out, t |-> t, wit |-> w, g |-> g, h |-> h, ad |-> ad, seed |-> RBytes("zk" \o l), rep |-> IF RInt(l, 2) = 0 THEN "aff" ELSE "proj"]
Ver(t, p, st, ad) == [op |-> "zk.ver", t |-> t, p |-> p, st |-> st, ad |-> ad, rep |-> "aff", clone |-> FALSE]
Rec(t, p, st) == [op |-> "zk.rec", t |-> t, p |-> p, st |-> st, rep |-> "aff"]
HashE(out, t, st, com, ad) == [op |-> "zk.hash", out |-> out, t |-> t, st |-> st, com |-> com, ad |-> ad, rep |-> "aff"]
Mod(out, t, from, d) == [op |-> "zk.mod", out |-> out, t |-> t, from |-> from, d |-> d]
Build(out, t, from, dc, lin) == [op |-> "zk.build", out |-> out, t |-> t, from |-> from, dc |-> dc, lin |-> lin]
All(t, p, st, ad) == << Ver(t, p, st, ad), [Ver(t, p, st, ad) EXCEPT !.rep = "proj"], [Ver(t, p, st, ad) EXCEPT !.clone = TRUE], [Ver(t, p, st, ad) EXCEPT !.clone = TRUE, !.rep = "proj"], Rec(t, p, st) >>
WEdge == << ScZero, ScOne, NM1, Half, HalfUp >>
Wv(l) == IF RInt(l, 3) = 0 THEN WEdge[1 + RInt(l \o "e", 5)] ELSE RSc(l)
Wit(t, l) == LET w == [i \in 1..NW(t) |-> Wv(L(l, i))] IN IF t = "prod" THEN [w EXCEPT ![4] = ScMul(w[1], w[2])] ELSE w
Gen2(j) == << <<PtG, PtH>>, <<RPt("zg"), RPt("zh")>>, <<PtH, PtG>>, <<PtG, PtG>>, <<PtG, PtNeg(PtG)>>, <<RPt("zg"), PtG>>, <<PtId, PtG>>, <<PtG, PtId>> >>[1 + (j % 8)]
\* ------------------------------------------------------------ completeness ---
EdgeW(t) == CASE t = "dleq" -> MapSeq(LAMBDA x : <<x>>, WEdge \o <<ScDec("2")>>) [] t = "eq" -> MapSeq(LAMBDA p : <<p[1], p[2]>>, Pairs(<<ScZero, ScOne, NM1>>, <<ScZero, ScOne, NM1>>))
             [] t = "prod" -> MapSeq(LAMBDA p : <<p[1][1], p[1][2], p[2], ScMul(p[1][1], p[1][2]), p[3]>>, Triples(Pairs(<<ScZero, ScOne, NM1>>, <<ScZero, ScOne>>), <<ScZero, ScOne>>, <<ScZero, NM1>>))
Comp1(t, k, w, g, h, ad) == << MakeE("p" \o S(k), t, w, g, h, ad, t \o S(k)) >> \o All(t, "p" \o S(k), ZS!ZStmt(t, w, g, h), ad)
CompSc(t) == Cut("zkc-" \o t, LET e == EdgeW(t) IN Flat([k \in 1..Len(e) |-> Comp1(t, k, e[k], Gen2(k)[1], Gen2(k)[2], Ads[1 + (k % Len(Ads))])])
     \o Flat([k \in 1..Times(10, 200) |-> LET g == Gen2(k) IN Comp1(t, 100 + k, Wit(t, L("cw" \o t, k)), g[1], g[2], Ads[1 + (k % Len(Ads))])]), 120, 1)
CompScs(zz) == Flat(MapSeq(CompSc, Types))

\* --------------------------------------------------------------- soundness ---
Repl(st, i, x) == [st EXCEPT ![i] = x]
UnitV(n, i, d) == [k \in 1..n |-> IF k = i THEN d ELSE ScZero]
AdVars(ad) == << HCat(ad, "00"), HCat("00", ad), RBytes("oad"), IF ad = "" THEN "01" ELSE "", IF ad = "" THEN "02" ELSE HSub(ad, 0, HLen(ad) - 1), IF HLen(ad) > 1 THEN HCat(HSub(ad, 1, HLen(ad)), HSub(ad, 0, 1)) ELSE "0303" >>
SndSc(t, j) ==
  LET l == "S" \o t \o S(j)
      w == IF j = 1 THEN [i \in 1..NW(t) |-> IF t = "prod" /\ i = 4 THEN ScMul(RSc(L(l, 1)), RSc(L(l, 2))) ELSE RSc(L(l, i))] ELSE Wit(t, l)
      g == IF j = 1 THEN <<RPt(l \o "g"), RPt(l \o "h")>> ELSE Gen2(j)  ad == Ads[1 + ((j + 3) % Len(Ads))]
      st == ZS!ZStmt(t, w, g[1], g[2])  n == NSt(t)  np == NP(t)
      pt == RPt(l \o "pt")
      stv == Flat([i \in 1..n |-> << Repl(st, i, PtAdd(st[i], PtG)), Repl(st, i, pt), Repl(st, i, PtId), Repl(st, i, PtNeg(st[i])), Repl(st, i, PtAdd(st[i], PtH)) >>])
          \o Flat([i \in 1..n |-> [k \in 1..n |-> [st EXCEPT ![i] = st[k], ![k] = st[i]]]]) \o << [i \in 1..n |-> PtId], [i \in 1..n |-> PtAdd(st[i], st[i])], [i \in 1..n |-> PtNeg(st[i])] >>
          \* changes that cancel between parts
          \o << [st EXCEPT ![n - 1] = PtAdd(@, PtH), ![n] = PtAdd(@, PtH)], [st EXCEPT ![n - 1] = PtAdd(@, PtG), ![n] = PtAdd(@, PtG)], [st EXCEPT ![n - 1] = PtAdd(@, pt), ![n] = PtSub(@, pt)] >>
      w2 == [w EXCEPT ![1] = ScAdd(@, ScOne), ![NW(t)] = ScAdd(@, RSc(l \o "w2"))]
      false == IF t = "prod" THEN [w EXCEPT ![4] = ScAdd(@, ScOne)] ELSE w
  IN Scen("zks-" \o t \o "-" \o S(j),
     << MakeE("p", t, w, g[1], g[2], ad, l), MakeE("p2", t, w, g[1], g[2], ad, l \o "2"), MakeE("q", t, w2, g[1], g[2], ad, l \o "q"), MakeE("f", t, false, g[1], g[2], ad, l \o "f"), MakeE("pa", t, w, g[1], g[2], HCat(ad, "00"), l), Ver(t, "p", st, ad), Ver(t, "p2", st, ad), Ver(t, "q", st, ad), Ver(t, "pa", st, ad), Ver(t, "pa", st, HCat(ad, "00")),
        Ver(t, "f", ZS!ZStmt(t, false, g[1], g[2]), ad), Ver(t, "f", st, ad) >>
     \o MapSeq(LAMBDA x : Ver(t, "p", x, ad), stv) \o MapSeq(LAMBDA x : Ver(t, "p", st, x), AdVars(ad))
     \o Flat([i \in 1..np |-> Flat(MapSeq(LAMBDA d : LET o == "m" \o S(i) \o d IN << Mod(o, t, "p", UnitV(np, i, d)), Ver(t, o, st, ad), Rec(t, o, st) >>, <<ScOne, NM1, RSc(l \o "d")>>))])
     \* challenge and responses moved together, and parts of two proofs mixed
     \o << Mod("mm", t, "p", [i \in 1..np |-> ScOne]), Ver(t, "mm", st, ad), Build("mx", t, "p2", ScZero, [i \in 1..(np - 1) |-> <<RSc(l \o "a"), ScZero>>]), Ver(t, "mx", st, ad) >>
     \* the challenge answers for every part
     \o << HashE("h0", t, st, [i \in 1..NCom(t) |-> pt], ad) >> \o MapSeq(LAMBDA x : HashE("", t, x, [i \in 1..NCom(t) |-> pt], ad), SubSeq(stv, 1, 5 * n)) \o MapSeq(LAMBDA x : HashE("", t, st, [i \in 1..NCom(t) |-> pt], x), AdVars(ad))
     \o Flat([i \in 1..NCom(t) |-> << HashE("", t, st, [k \in 1..NCom(t) |-> IF k = i THEN PtG ELSE pt], ad), HashE("", t, st, [k \in 1..NCom(t) |-> IF k = i THEN PtId ELSE pt], ad), HashE("", t, st, [k \in 1..NCom(t) |-> IF k = i THEN PtNeg(pt) ELSE pt], ad) >>])
     \o << [HashE("", t, st, [i \in 1..NCom(t) |-> pt], ad) EXCEPT !.rep = "proj"] >>)
\* A cheat picks commitments, asks for the challenge and answers as well as the false statement allows.
Cheat(t, j) ==
  LET l == "Ch" \o t \o S(j)  k == RSc(l \o "k")  k2 == RSc(l \o "k2")  x == RSc(l \o "x")  y == RSc(l \o "y")  m == RSc(l \o "m")  z == RSc(l \o "z")  ad == Ads[1 + (j % Len(Ads))]
      b(o, st, com, lin) == << HashE("h" \o o, t, st, com, ad), Build("b" \o o, t, "h" \o o, ScZero, lin), Ver(t, "b" \o o, st, ad) >>
      P(a) == PtMul(PtG, a)  Q(a) == PtMul(PtH, a)
      free == [i \in 1..NSt(t) |-> IF t = "dleq" THEN <<PtG, PtH, P(x), Q(y)>>[i] ELSE IF t = "eq" THEN <<Com2(x, m), P(y)>>[i] ELSE <<P(x), Com2(y, m), Com2(z, m)>>[i]]
  IN Scen("zkf-" \o t \o "-" \o S(j),
     (CASE t = "dleq" -> b("1", <<PtG, PtH, P(x), Q(y)>>, <<P(k), Q(k)>>, <<<<k, x>>>>) \o b("2", <<PtG, PtH, P(x), Q(y)>>, <<P(k), Q(k)>>, <<<<k, y>>>>)                        \* right for one half only
                         \o b("3", <<PtG, PtH, P(x), Q(x)>>, <<P(k), Q(k2)>>, <<<<k, x>>>>) \o b("4", <<PtG, PtH, P(x), Q(x)>>, <<P(k), Q(k)>>, <<<<k, x>>>>)               \* the last one is honest
                         \o b("5", <<PtG, PtG, P(x), P(y)>>, <<P(k), P(k)>>, <<<<k, x>>>>) \o b("6", <<PtG, PtH, PtId, Q(y)>>, <<P(k), Q(k)>>, <<<<k, ScZero>>>>) \o b("7", <<PtG, PtId, P(x), Q(y)>>, <<P(k), PtId>>, <<<<k, x>>>>)
        [] t = "eq" -> b("1", <<Com2(x, m), P(x)>>, <<Q(k)>>, <<<<k, m>>>>) \o b("2", <<Com2(x, m), P(y)>>, <<Q(k)>>, <<<<k, m>>>>) \o b("3", <<Com2(x, m), P(y)>>, <<P(k)>>, <<<<k, ScSub(x, y)>>>>) \o b("4", <<Com2(x, m), P(y)>>, <<PtId>>, <<<<ScZero, m>>>>)
                       \o b("5", <<Com2(x, m), Com2(x, m)>>, <<Q(k)>>, <<<<k, ScZero>>>>) \o b("6", <<Com2(x, m), PtId>>, <<Q(k)>>, <<<<k, m>>>>)
        [] t = "prod" -> b("1", <<P(x), Com2(y, m), Com2(ScMul(x, y), z)>>, <<P(k), PtAdd(PtMul(Com2(y, m), k), Q(k2))>>, <<<<k, x>>, <<k2, ScSub(z, ScMul(x, m))>>>>)                                   \* honest
                       \o b("2", <<P(x), Com2(y, m), Com2(z, z)>>, <<P(k), PtAdd(PtMul(Com2(y, m), k), Q(k2))>>, <<<<k, x>>, <<k2, ScSub(z, ScMul(x, m))>>>>)
                       \o b("3", <<P(x), Com2(y, m), Com2(ScMul(z, y), m)>>, <<P(k), PtAdd(PtMul(Com2(y, m), k), Q(k2))>>, <<<<k, z>>, <<k2, ScSub(m, ScMul(z, m))>>>>)    \* product of another left factor: only the first check fails
                       \o b("4", <<P(x), Com2(y, m), Com2(ScMul(x, y), m)>>, <<P(k), Q(k2)>>, <<<<k, x>>, <<k2, ScZero>>>>)
                       \o b("5", <<P(x), PtId, Com2(y, m)>>, <<P(k), Q(k2)>>, <<<<k, x>>, <<k2, m>>>>))
     \* a challenge chosen first
     \o << HashE("h", t, free, [i \in 1..NCom(t) |-> P(z)], "ff"), Build("c", t, "h", ScZero, [i \in 1..(NP(t) - 1) |-> <<k, k2>>]), Ver(t, "c", free, ad), Rec(t, "c", free), Build("c0", t, "h", ScZero, [i \in 1..(NP(t) - 1) |-> <<ScZero, ScZero>>]), Ver(t, "c0", [i \in 1..NSt(t) |-> PtId], ad), Ver(t, "c0", free, ad) >>)
\* challenges of different proof types do not meet
Cross == Scen("zk-cross", LET p(i) == RPt(L("cx", i)) IN << HashE("a", "dleq", <<p(1), p(2), p(3), p(4)>>, <<p(5), p(6)>>, "61"), HashE("b", "dleq", <<p(1), p(2), p(3), p(4)>>, <<p(6), p(5)>>, "61"), HashE("c", "eq", <<p(3), p(4)>>, <<p(5)>>, "61"), HashE("d", "prod", <<p(3), p(4), p(5)>>, <<p(5), p(6)>>, "61"), HashE("e", "prod", <<p(3), p(4), p(6)>>, <<p(5), p(5)>>, "61"),
      HashE("g", "dleq", <<PtG, PtH, p(3), p(4)>>, <<p(5), p(6)>>, "61"), HashE("h", "eq", <<p(3), p(4)>>, <<p(6)>>, "61") >>)
SndScs(zz) == Flat(MapSeq(LAMBDA t : [j \in 1..Times(2, 25) |-> SndSc(t, j)] \o [j \in 1..Times(2, 25) |-> Cheat(t, j)], Types)) \o << Cross >>

ZkScen(f) == CASE f = "zkc" -> CompScs(0) [] f = "zks" -> SndScs(0)
ASSUME Write(ZkScen(IOEnv.FAM))
=============================================================================
