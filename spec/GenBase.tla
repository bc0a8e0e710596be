------------------------------ MODULE GenBase ------------------------------
(***************************************************************************)
(* Deterministic pseudo-random choices and the boundary values that every  *)
(* generator draws from.  VERIF_SEED selects the random part.              *)
(***************************************************************************)
EXTENDS ShamirK, Json, IOUtils
SEED == IF "VERIF_SEED" \in DOMAIN IOEnv THEN IOEnv.VERIF_SEED ELSE "1"
Deep == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Times(q, d) == IF Deep THEN d ELSE q

RBytes(l) == Sha256(HAscii(SEED \o "/" \o l))
RSc(l) == ScRed(RBytes(l))
RFe(l) == FeRed(RBytes(l))
RPt(l) == PtMul(PtG, RSc(l))
RInt(l, n) == LET b == RBytes(l) IN ((HByte(b, 0) * 256 + HByte(b, 1)) * 256 + HByte(b, 2)) % n
Pick(l, s) == s[1 + RInt(l, Len(s))]
RECURSIVE RLongGo(_, _, _)
RLongGo(l, k, acc) == IF HLen(acc) >= k THEN HSub(acc, 0, k) ELSE RLongGo(l, k, HCat(acc, RBytes(l \o "." \o ToString(HLen(acc)))))
RLong(l, k) == RLongGo(l, k, "")
L(a, b) == a \o "." \o ToString(b)

NM1 == ScNeg(ScOne)
Half == ScMul(NM1, ScInv(ScDec("2")))              \* (n-1)/2: the largest scalar that is not high
HalfUp == ScAdd(Half, ScOne)
ScEdge == << ScZero, ScOne, ScDec("2"), NM1, ScSub(NM1, ScOne), Half, HalfUp, ScDec("255"), ScDec("256"),
             ScDec("4294967296"), ScDec("18446744073709551615"), ScDec("340282366920938463463374607431768211456"),
             ScDec("57896044618658097711785492504343953926634992332820282019728792003956564819968") >>
\* short scalars: leading zero bytes in every encoding
ScShort == << ScDec("65537"), ScRed(HSub(RBytes("short"), 0, 31)), ScRed(HSub(RBytes("short"), 0, 16)) >>
FPM1 == FeNeg(ScOne)
FeEdge == << ScZero, ScOne, FeRed("02"), FeRed("07"), FPM1, FeSub(FPM1, ScOne), FeRed("ff"), FeRed("0100"),
             FeMul(FPM1, FeInv(FeRed("02"))), FeRed("0100000000000000000000000000000000"), FeRed("80") >>
\* points: identity, generators, small and large multiples, x or y with leading zero bytes are found below
PtEdge == << PtId, PtG, PtH, PtNeg(PtG), PtNeg(PtH), PtAdd(PtG, PtG), PtMul(PtG, Half), PtMul(PtG, NM1) >>
Idx == << "0", "1", "2", "3", "126", "127", "128", "254", "255", "256", "257", "65534", "65535", "65536",
          "16777215", "2147483647", "2147483648", "4294967294", "4294967295" >>

Scen(id, evs) == [id |-> id, ev |-> evs]
\* cut a long list of independent calls into scenarios of k calls
RECURSIVE Cut(_, _, _, _)
Cut(id, evs, k, j) == IF evs = << >> THEN << >>
  ELSE IF Len(evs) <= k THEN << Scen(id \o "-" \o ToString(j), evs) >>
  ELSE << Scen(id \o "-" \o ToString(j), SubSeq(evs, 1, k)) >> \o Cut(id, SubSeq(evs, k + 1, Len(evs)), k, j + 1)
\* all pairs of two sequences, as a sequence
Pairs(s, t) == [k \in 1..(Len(s) * Len(t)) |-> <<s[((k - 1) \div Len(t)) + 1], t[((k - 1) % Len(t)) + 1]>>]
Triples(s, t, u) == [k \in 1..(Len(s) * Len(t) * Len(u)) |->
   <<s[((k - 1) \div (Len(t) * Len(u))) + 1], t[(((k - 1) \div Len(u)) % Len(t)) + 1], u[((k - 1) % Len(u)) + 1]>>]
Rands(F(_), l, n) == [i \in 1..n |-> F(L(l, i))]
=============================================================================
