------------------------------ MODULE ConcGen ------------------------------
(***************************************************************************)
(* Concurrent calls.  Scenarios of the other families are rearranged: what *)
(* makes objects first, in order; then everything, the calls that made     *)
(* objects included (their results dropped), in concurrent groups of calls *)
(* that share their objects and arguments.                                 *)
(***************************************************************************)
EXTENDS ProtoLib
Makers == {"key", "mod", "mktr", "mkop", "cmod", "shmod", "mksig", "note"}        \* the driver's own
Calls == {"deal", "enc", "pubver", "privver", "opendeal", "ctdec", "ctss", "ctvalid", "tr", "open", "comb", "recon", "complain", "complain1", "cver", "rho", "share", "shver", "combine", "sigver", "derive", "bip32", "next", "conv", "hashint", "hmac"}
Makes(e) == e.op \in Makers \/ Get(e, "out", "") # ""
Drop(e) == IF "out" \in DOMAIN e THEN [e EXCEPT !.out = ""] ELSE e
RECURSIVE Chunks(_, _)
Chunks(l, k) == IF l = << >> THEN << >> ELSE IF Len(l) <= k THEN << l >> ELSE << SubSeq(l, 1, k) >> \o Chunks(SubSeq(l, k + 1, Len(l)), k)
Par(l) == [op |-> "par", reps |-> 2, steps |-> l]
\* a sample of at most k of l, and their order mixed with stride q
Mix(l, k, q) == LET n == Len(l)  m == IF n < k THEN n ELSE k IN [i \in 1..m |-> l[1 + (((i - 1) * q) % n)]]
Prime(n) == IF n % 7 # 0 THEN 7 ELSE IF n % 5 # 0 THEN 5 ELSE IF n % 11 # 0 THEN 11 ELSE 1
Conc(sc, k) == LET made == SelectSeq(sc.ev, LAMBDA e : Makes(e) /\ e.op # "note")
                   calls == MapSeq(Drop, SelectSeq(sc.ev, LAMBDA e : e.op \in Calls)) IN
  Scen("conc-" \o sc.id, made \o MapSeq(Par, Chunks(Mix(calls, k, Prime(Len(calls))), 8)))
Some(l, n) == LET k == IF Deep THEN 4 * n ELSE n IN IF Len(l) <= k THEN l ELSE SubSeq(l, 1, k)
Steps1(zz) == << [op |-> "xmd", msg |-> RLong("cm", 70), dst |-> "6161", len |-> 96], [op |-> "h2c", f |-> "point", msg |-> RLong("cm", 40), dst |-> "6162"], [op |-> "h2c", f |-> "scalar", msg |-> RLong("cm", 40), dst |-> "6162"],
   [op |-> "h2c", f |-> "scalars", n |-> 2, msg |-> RLong("cm", 40), dst |-> "6163"], [op |-> "sc.fromseed", seed |-> << [t |-> "bytes", v |-> RBytes("cs")] >>], [op |-> "sc.fromseed", seed |-> << [t |-> "bytes", v |-> RBytes("cs")], [t |-> "derive", dom |-> "6162"] >>],
   [op |-> "rng", seed |-> << [t |-> "bytes", v |-> RBytes("cs")] >>, reads |-> << [h |-> 1, f |-> "u32"], [h |-> 1, f |-> "fill", n |-> 70], [h |-> 2, f |-> "u64"] >>],
   [op |-> "derive", pk |-> PtG, path |-> <<"00000001", "ff">>] >>
\* transcripts from, and openings combined for, sets of dealers that nothing used before
NewSc(typ, j) ==
  LET l == "N" \o typ \o S(j)  t == 2  is == <<"0", "3", "255", "65536", "4294967295">>  k == IF typ = "unm" THEN "S" ELSE "P"
      a == RP(l \o "a", t)  b == RP(l \o "b", t)  m == RP(l \o "m", t)  v(p, i) == Eval(p, NodeSc(i))
      mine == CASE typ = "mul" -> << MkTr("p1", "int", "S", a, << >>, t), MkTr("p2", "sum", "P", b, m, t) >> [] typ = "rand" -> << >> [] OTHER -> << MkTr("p1", IF k = "S" THEN "int" ELSE "sum", k, a, m, t) >>
      sec(i) == CASE typ = "mul" -> [t |-> "mul", s1 |-> v(a, i), s2 |-> v(b, i), s3 |-> v(m, i)] [] typ = "unm" -> [t |-> "unm", s1 |-> v(a, i)] [] typ = "msk" -> [t |-> "msk", s1 |-> v(a, i), s2 |-> v(m, i)] [] OTHER -> [t |-> "rand"]
      deal(i, out) == DealE(out, sec(i), t, <<"k0", "k1", "k2">>, i, "ad", l \o i)
      sets == Subs(Len(is), IF typ = "mul" THEN 3 ELSE 2)
      ds(x) == MapSeq(LAMBDA c : LET q == CHOOSE n \in 1..Len(is) : S(n - 1) = c IN <<is[q], "d" \o is[q]>>, x)
      trs == MapSeq(LAMBDA x : [op |-> "tr", out |-> "", ds |-> ds(x), tr |-> TrR(typ, ""), thr |-> t], sets)
      pubs == MapSeq(LAMBDA i : Pub("d" \o i, TrR(typ, ""), t, i, 3, "ad"), is)
      privs == Flat(MapSeq(LAMBDA i : << Priv("d" \o i, "k1", "ad", i, "1"), OpenD("d" \o i, "k2", "ad", i, "2") >>, is))
  IN Scen("conc-new-" \o typ \o "-" \o S(j), KeysE("k", l, 3) \o mine \o << Par(MapSeq(LAMBDA i : deal(i, ""), is)) >> \o MapSeq(LAMBDA i : deal(i, "d" \o i), is) \o MapSeq(Par, Chunks(Mix(trs, 26, Prime(Len(trs))) \o pubs \o privs, 8)))
NewScs(zz) == Flat([j \in 1..Times(1, 4) |-> MapSeq(LAMBDA y : NewSc(y, j), Typs)])
ConcScs(zz) == LET p(l, n, k) == MapSeq(LAMBDA s : Conc(s, k), Some(l, n)) IN
  p(<< DealSc("rand", 4), DealSc("unm", 4), DealSc("msk", 4), DealSc("mul", 4) >>, 4, 24) \o p(<< PubSc("rand", 1), PubSc("unm", 1), PubSc("msk", 1), PubSc("mul", 1) >>, 4, 32) \o p(<< PrivSc("rand", 1), PrivSc("unm", 1) >>, 2, 32)
  \o p(<< EncSc("S", 4), EncSc("P", 4), CtxSc("S", 1), CtxSc("P", 1), PopSc("S", 1) >>, 5, 32) \o p(TransScs(0), 2, 32) \o p(ReshScs(0), 2, 32) \o p(ReconScs(0), 4, 24) \o p(CompScs(0), 3, 32) \o p(CVerScs(0), 3, 32)
  \o p(SignScs(0), 2, 40) \o p(ShVerScs(0), 1, 32) \o p(SigVerScs(0), 1, 32) \o p(RhoScs(0), 1, 24) \o p(DeriveScs(0), 1, 24) \o p(ConvScs(0), 1, 32) \o p(HmScs(0), 1, 24)
  \o NewScs(0) \o << Scen("conc-hash", << Par(Steps1(0)), Par(Rev(Steps1(0))) >>) >>
ASSUME Write(ConcScs(0))
=============================================================================
