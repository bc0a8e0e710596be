------------------------------ MODULE WalkGen ------------------------------
(***************************************************************************)
(* Seeded random walks of the whole protocol: rounds of random sharing,    *)
(* resharing and multiplication, each from any of the sharings before, by  *)
(* any dealers, to either of two groups of keys, with any threshold; with  *)
(* dishonest dealings, complaints and rebuilt shares on the way; and       *)
(* signatures from whatever sharings there are.                            *)
(*                                                                         *)
(* The pool of a walk: [pre, k, thr, n, g] -- openings pre \o "o0".. of    *)
(* the transcript pre \o "t", kind, threshold, holders, their key group.   *)
(***************************************************************************)
EXTENDS ProtoLib
Big == 5
Groups == <<"a", "b">>
Key0(g, i) == g \o S(i)
IfThen(c, s) == IF c THEN s ELSE << >>
\* r different ones of 0..(n-1), by a stride
Choose(l, n, r) == LET off == RInt(l \o "off", n)  st == IF n = 5 THEN 1 + RInt(l \o "st", 4) ELSE IF n % 2 = 0 THEN Pick(l \o "st", <<1, n - 1>>) ELSE IF n = 3 THEN 1 + RInt(l \o "st", 2) ELSE 1 IN
   [j \in 1..r |-> S((off + (j - 1) * st) % n)]
Between(l, a, b) == a + RInt(l, b - a + 1)

\* a round with operation typ on pool entries x, y: dealers q
WRound(l, pre, typ, x, y, q, thr, n, g, sure) ==
  LET ad == Pick(l \o "ad", Ads)
      tr == (CASE typ = "rand" -> [t |-> "rand"] [] typ \in {"unm", "msk"} -> [t |-> typ, p1 |-> x.pre \o "t"] [] typ = "mul" -> [t |-> "mul", p1 |-> x.pre \o "t", p2 |-> y.pre \o "t"])
            @@ (IF RInt(l \o "wr", 3) = 0 /\ typ # "rand" THEN [wrap |-> TRUE] ELSE None)
      sec(i) == CASE typ = "rand" -> [t |-> "rand"] [] typ \in {"unm", "msk"} -> [t |-> "open", o1 |-> x.pre \o "o" \o i] [] typ = "mul" -> [t |-> "open", o1 |-> x.pre \o "o" \o i, o2 |-> y.pre \o "o" \o i]
      dn(j) == pre \o "d" \o q[j]
      names == [i \in 1..n |-> Key0(g, i - 1)]
      fault == IF sure /\ n - 1 < thr THEN 4 ELSE RInt(l \o "f", 5)    \* 0, 1: bad shares for one receiver; 2: a dealer deals something else; else none
      bj == 1 + RInt(l \o "bj", Len(q))  ri == RInt(l \o "r", n)  r == S(ri)
      \* which of its dealings are bad
      badAt(j) == fault \in {0, 1} /\ (j = bj \/ RInt(L(l \o "b2", j), 3) = 0)
      ud(j) == IF badAt(j) THEN dn(j) \o "b" ELSE dn(j)   \* as received
      P == typ \in {"rand", "mul"}
      ds == [j \in 1..Len(q) |-> <<q[j], ud(j)>>]
      opn(i, given) == [op |-> "open", out |-> pre \o "o" \o S(i), ds |-> ds, tr |-> pre \o "t", given |-> given, with |-> given # << >> \/ (i % 2 = 0), ad |-> ad, idx |-> S(i), key |-> names[i + 1]]
      deals == [j \in 1..Len(q) |-> DealE(dn(j), sec(q[j]), thr, names, q[j], ad, L(l, j))]
      tamper == Flat([j \in 1..Len(q) |-> IfThen(badAt(j), << ModE(dn(j), dn(j) \o "b", "ct", [i |-> ri, dv |-> IF P /\ j % 2 = 0 THEN ScZero ELSE RSc(L(l \o "dv", j)), dm |-> IF P THEN RSc(L(l \o "dm", j)) ELSE ScZero]) >>)])
      pubs == [j \in 1..Len(q) |-> Pub(ud(j), tr, thr, q[j], n, ad)]
      privs == Flat([j \in 1..Len(q) |-> << Priv(ud(j), names[ri + 1], ad, q[j], r), Priv(ud(j), names[1], ad, q[j], "0") >>])
      made == << [op |-> "tr", out |-> pre \o "t", ds |-> ds, tr |-> tr, thr |-> thr] >>
      \* the others open; the receiver complains, they check and reveal, it rebuilds
      others == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i # ri)
      reveal(j, i) == [op |-> "opendeal", d |-> ud(j), key |-> names[i + 1], ad |-> ad, dealer |-> q[j], idx |-> S(i), out |-> pre \o "R" \o q[j] \o "." \o S(i)]
      badj == SelectSeq([j \in 1..Len(q) |-> j], badAt)
      tk == SubSeq(others, 1, IF Len(others) < thr THEN Len(others) ELSE Between(l \o "tk", thr, Len(others)))
      given(j) == <<q[j], MapSeq(LAMBDA i : <<S(i), pre \o "R" \o q[j] \o "." \o S(i)>>, tk)>>
      solve == IF badj = << >> THEN << opn(ri, << >>) >>
               ELSE << [opn(ri, << >>) EXCEPT !.out = ""], Cmpl(pre \o "c", ds, names[ri + 1], r, ad, l) >>
                 \o Flat(MapSeq(LAMBDA j : << CVer(pre \o "c" \o q[j], ud(j), q[j], r, names[ri + 1], ad), CVer(pre \o "c" \o q[j], dn(j), q[j], r, names[ri + 1], ad) >> \o MapSeq(LAMBDA i : reveal(j, i), tk), badj))
                 \o << opn(ri, MapSeq(given, badj)) >>
      \* a dealing of something else, or with another threshold, or for the dealer next to it
      other == IF fault # 2 THEN << >> ELSE
        LET k == RInt(l \o "ok", 3)  w == pre \o "w"
            osec == CASE typ = "rand" -> [t |-> "unm", s1 |-> RSc(l)] [] typ = "unm" -> [t |-> "unm", s1 |-> RSc(l)] [] typ = "msk" -> [t |-> "msk", s1 |-> RSc(l), s2 |-> RSc(l \o "2")] [] typ = "mul" -> [t |-> "mul", s1 |-> RSc(l), s2 |-> ScOne, s3 |-> ScOne]
            e == CASE k = 0 -> DealE(w, osec, thr, names, q[bj], ad, l \o "o") [] k = 1 -> DealE(w, sec(q[bj]), IF thr = 1 THEN IF n = 1 THEN 1 ELSE 2 ELSE thr - 1, names, q[bj], ad, l \o "o") [] k = 2 -> DealE(w, sec(q[bj]), thr, names, q[bj] \o "7", ad, l \o "o")
            sw == [ds EXCEPT ![bj] = <<q[bj], w>>] IN
        << e, Pub(w, tr, thr, q[bj], n, ad), Priv(w, names[1], ad, q[bj], "0"), [op |-> "tr", out |-> pre \o "x", ds |-> sw, tr |-> tr, thr |-> thr],
           [op |-> "open", out |-> "", ds |-> sw, tr |-> pre \o "t", given |-> << >>, ad |-> ad, idx |-> "0", key |-> names[1]] >>
      few == IfThen(Len(q) > 1, << [op |-> "tr", out |-> "", ds |-> SubSeq(ds, 1, Len(ds) - 1), tr |-> tr, thr |-> thr] >>)
      rec == LET j == Between(l \o "rj", 1, Len(q)) IN IfThen(badj = << >> /\ RInt(l \o "rec", 2) = 0,
               MapSeq(LAMBDA i : reveal(j, i), [i \in 1..n |-> i - 1]) \o << [op |-> "recon", d |-> ud(j), ops |-> MapSeq(LAMBDA i : <<i, pre \o "R" \o q[j] \o "." \o i>>, Choose(l \o "rc", n, Between(l \o "rn", 1, n))), idx |-> Pick(l \o "ri", Idx), out |-> ""] >>)
  IN deals \o tamper \o pubs \o privs \o made \o other \o few \o MapSeq(LAMBDA i : opn(i, << >>), others) \o solve \o rec
     \* (the receiver has no share if there are too few others)
     \o IfThen(Len(others) >= thr \/ badj = << >>, << NSec(pre \o "t", OpS(pre, Choose(l \o "ns", n, thr))) >>)
     \o IfThen(typ \in {"unm", "msk"} /\ (Len(others) >= thr \/ badj = << >>), << NSame(OpS(x.pre, Choose(l \o "n1", x.n, x.thr)), OpS(pre, Choose(l \o "n2", n, thr))) >>)
     \o IfThen(typ = "mul" /\ (Len(others) >= thr \/ badj = << >>), << NProd(OpS(x.pre, Choose(l \o "n1", x.n, x.thr)), OpS(y.pre, Choose(l \o "n2", y.n, y.thr)), OpS(pre, Choose(l \o "n3", n, thr))) >>)
\* is every holder sure to have a share?
Whole(l, q, thr, n) == ~(RInt(l \o "f", 5) \in {0, 1}) \/ n - 1 >= thr

\* one step of a walk: what to do with the pool
Mn(a, b) == IF a < b THEN a ELSE b
Step0(l, pre, pool) ==
  LET ss == SelectSeq(pool, LAMBDA p : p.k = "S")  ps == SelectSeq(pool, LAMBDA p : p.k = "P")
      muls == SelectSeq(Pairs(ss, ps), LAMBDA c : c[1].thr + c[2].thr - 1 <= Mn(c[1].n, c[2].n))
      w == RInt(l \o "op", 8)
      typ == IF w \in {1, 2} /\ ss # << >> THEN "unm" ELSE IF w \in {3, 4} /\ ps # << >> THEN "msk" ELSE IF w >= 5 /\ muls # << >> THEN "mul" ELSE IF w >= 6 /\ ps # << >> THEN "msk" ELSE "rand"
      c == IF typ = "mul" THEN Pick(l \o "c", muls) ELSE IF typ = "unm" THEN <<Pick(l \o "c", ss)>> ELSE IF typ = "msk" THEN <<Pick(l \o "c", ps)>> ELSE << >>
      hold == CASE typ = "rand" -> 0 [] typ \in {"unm", "msk"} -> c[1].n [] typ = "mul" -> Mn(c[1].n, c[2].n)
      need == CASE typ = "rand" -> 1 [] typ \in {"unm", "msk"} -> c[1].thr [] typ = "mul" -> c[1].thr + c[2].thr - 1
      q == IF typ = "rand" THEN LET m == Between(l \o "m", 1, 3) o == RInt(l \o "o", 17) IN [j \in 1..m |-> Idx[1 + ((o + 5 * j) % 19)]] ELSE Choose(l \o "q", hold, Between(l \o "m", need, hold))
      n == Between(l \o "n", 2, Big)  thr == Between(l \o "t", 1, IF n > 3 /\ RInt(l \o "hi", 3) # 0 THEN 2 ELSE n)  g == Pick(l \o "g", Groups)
  IN [ev |-> WRound(l, pre, typ, IF c = << >> THEN None ELSE c[1], IF Len(c) < 2 THEN None ELSE c[2], q, thr, n, g, FALSE),
      pool |-> IF Whole(l, q, thr, n) THEN Append(pool, [pre |-> pre, k |-> IF typ \in {"rand", "mul"} THEN "P" ELSE "S", thr |-> thr, n |-> n, g |-> g]) ELSE pool]

\* sign with two unmasked sharings of the pool: a new lambda and the products, then shares, then every quorum
SignW(l, pre, x, kp) ==
  LET n == Mn(x.n, kp.n)  tl == 1 + RInt(l \o "tl", Mn(2, n - MaxN(x.thr, kp.thr) + 1))
      ta == Between(l \o "ta", 1, n)  tb == Between(l \o "tb", 1, n)
      g == Pick(l \o "g", Groups)
      lm == [pre |-> pre \o "L", k |-> "P", thr |-> tl, n |-> n, g |-> g]
      all == AsIdx(0..(n - 1))
      cc == [path |-> Pick(l \o "p", Paths), hash |-> Pick(l \o "h", Hashes), rand |-> RBytes(l \o "rn"), tkey |-> x.pre \o "t", tpre |-> kp.pre \o "t"]
      sh(i) == [op |-> "share", out |-> pre \o "s" \o i, lam |-> pre \o "Lo" \o i, kl |-> pre \o "Ao" \o i, xl |-> pre \o "Bo" \o i] @@ cc
      sv(i, j) == [op |-> "shver", s |-> pre \o "s" \o i, idx |-> j, tlam |-> pre \o "Lt", tkl |-> pre \o "At", txl |-> pre \o "Bt"] @@ cc
      quo == MaxN(tl, MaxN(ta, tb))
      sets == Subs(n, quo)
      pick == IF Len(sets) <= 4 THEN sets ELSE [i \in 1..4 |-> Pick(L(l \o "qs", i), sets)]
  IN WRound(l \o "zL", pre \o "L", "rand", None, None, SubSeq(Idx, 1, 1 + RInt(l, 3)), tl, n, g, TRUE)
     \o WRound(l \o "zA", pre \o "A", "mul", kp, lm, Choose(l \o "qa", n, Between(l \o "ma", kp.thr + tl - 1, n)), ta, n, g, TRUE)
     \o WRound(l \o "zB", pre \o "B", "mul", x, lm, Choose(l \o "qb", n, Between(l \o "mb", x.thr + tl - 1, n)), tb, n, g, TRUE)
     \o Flat(MapSeq(LAMBDA i : << sh(i), sv(i, i), sv(i, S(n)) >>, all))
     \o Flat([z \in 1..Len(pick) |-> << CombE(pre \o "g" \o S(z), MapSeq(LAMBDA i : <<i, pre \o "s" \o i>>, pick[z]), quo, TRUE, cc), SigVer(pre \o "g" \o S(z), cc) >>])
     \o IfThen(quo > 1, << CombE("", MapSeq(LAMBDA i : <<i, pre \o "s" \o i>>, SubSeq(all, 1, quo - 1)), quo, FALSE, cc) >>)
     \o << SigVer(pre \o "g1", [cc EXCEPT !.hash = RBytes(l \o "h2")]), SigVer(pre \o "g1", [cc EXCEPT !.path = Append(@, "07")]) >>
RECURSIVE WalkGo(_, _, _, _)
WalkGo(l, pool, k, m) == IF k > m THEN [ev |-> << >>, pool |-> pool]
  ELSE LET r == Step0(L(l, k), "e" \o S(k), pool)  t == WalkGo(l, r.pool, k + 1, m) IN [ev |-> r.ev \o t.ev, pool |-> t.pool]
WalkSc(j) ==
  LET l == "WK" \o S(j)
      w == WalkGo(l, << >>, 1, Times(6, 10))
      ss == SelectSeq(w.pool, LAMBDA p : p.k = "S" /\ p.n >= 2)
      sg == SelectSeq(Pairs(ss, ss), LAMBDA c : MaxN(c[1].thr, c[2].thr) <= Mn(c[1].n, c[2].n))
  IN Scen("walk-" \o S(j), KeysE("a", l \o "a", Big) \o KeysE("b", l \o "b", Big) \o w.ev \o (IF sg = << >> THEN << >> ELSE LET c == Pick(l \o "sg", sg) IN SignW(l \o "S", "s", c[1], c[2])))
ASSUME Write([j \in 1..Times(12, 150) |-> WalkSc(j)])
=============================================================================
