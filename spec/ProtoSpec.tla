----------------------------- MODULE ProtoSpec -----------------------------
(***************************************************************************)
(* Transitions of the protocol over secp256k1, driven by recorded events.  *)
(***************************************************************************)
EXTENDS ProtoBase
\* the call succeeds exactly if good
Verdict(s, e, good) == R(IF good THEN Ok(e) ELSE Err(e), s)

RecO(r) == Opening(r.k, r.v, IF r.m = "" THEN ScZero ELSE r.m)
PairsOf(x) == IF DOMAIN x = {} THEN << >> ELSE x
ObjPairs(s, l) == [j \in 1..Len(l) |-> <<l[j][1], s.o[l[j][2]]>>]
OpOf(s, r) == [t |-> r.t] @@ (IF Get(r, "p1", "") # "" THEN [p1 |-> s.o[r.p1]] ELSE Empty) @@ (IF Get(r, "p2", "") # "" THEN [p2 |-> s.o[r.p2]] ELSE Empty)
PkOf(s, e) == IF Get(e, "pk", "") # "" THEN s.o[e.pk].pk ELSE s.o[e.key].pk
SkOf(s, e) == s.o[e.key].sk

KeyStep(s, e) == LET sk == IF Has(e, "sk") THEN e.sk ELSE e.sks IN
  R(Ok(e) /\ ScCanon(e.sks) /\ e.sks = sk /\ e.pk = PtMul(PtG, sk), Put(s, Out(e), [sk |-> sk, pk |-> e.pk, fr |-> <<PtMul(PtG, sk)>>, rec |-> <<sk>>]))

\* --------------------------------------------------------------- dealings ---
SecOf(s, r) ==
  IF r.t # "open" THEN (IF r.t \in {"rand", "unm", "msk", "mul"} THEN r ELSE [t |-> "bad"])
  ELSE LET a == s.o[r.o1] IN
       IF Get(r, "o2", "") = "" THEN (IF a.k = "S" THEN [t |-> "unm", s1 |-> a.v] ELSE [t |-> "msk", s1 |-> a.v, s2 |-> a.m])
       ELSE LET b == s.o[r.o2] IN IF a.k = "S" /\ b.k = "P" THEN [t |-> "mul", s1 |-> a.v, s2 |-> b.v, s3 |-> b.m] ELSE [t |-> "bad"]
Secret(sec) == CASE sec.t \in {"unm", "msk"} -> sec.s1 [] sec.t = "mul" -> ScMul(sec.s1, sec.s2)
Kd(t) == IF t \in {"rand", "mul"} THEN "P" ELSE "S"
Xn(n) == [i \in 1..n |-> ScDec(ToString(i))]
PopNonce(e) == PtSub(PtMul(PtG, e.popr), PtMul(e.eph, e.popc))
Entry(s, e, names, i, v, m) == [ctx |-> EncCtx(e.ck, e.dealer, ToString(i - 1), e.ad, s.o[names[i]].pk, e.eph, PtMul(e.eph, s.o[names[i]].sk)), v |-> v, m |-> m,
                                cv |-> HSub(e.cts[i], 0, 32), cm |-> IF e.ck = "P" THEN HSub(e.cts[i], 32, 64) ELSE e.cts[i]]
DealStep(s, e) ==
  LET sec == SecOf(s, e.sec)  names == Lst(e, "recips")  n == Len(names) IN
  IF sec.t = "bad" \/ e.t < 1 \/ e.t > n THEN R(Err(e), s)
  ELSE IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET
      k == Kd(sec.t)
      vs == [i \in 1..n |-> e.plain[i][1]]   ms == [i \in 1..n |-> e.plain[i][2]]
      a == Pad(InterpPoly(Xn(e.t), SubSeq(vs, 1, e.t)), e.t)
      b == IF k = "P" THEN Pad(InterpPoly(Xn(e.t), SubSeq(ms, 1, e.t)), e.t) ELSE << >>
      p == Lst(e, "p")
      stmt == CASE sec.t = "msk" -> <<Com2(sec.s1, sec.s2), p[1]>>
                [] sec.t = "mul" -> <<Com1(sec.s1), Com2(sec.s2, sec.s3), p[1]>>
                [] OTHER -> << >>
      ok == /\ e.k = k /\ e.ck = k /\ e.n = n /\ Len(e.plain) = n
            /\ \A i \in 1..n : ScCanon(vs[i]) /\ vs[i] = Eval(a, Xn(n)[i]) /\ (k = "P" => ms[i] = Eval(b, Xn(n)[i]))
            /\ p = (IF k = "S" THEN ComS(a, e.t) ELSE ComP(a, b, e.t))
            /\ sec.t # "rand" => a[1] = Secret(sec)
            /\ e.pt = (IF sec.t \in {"msk", "mul"} THEN sec.t ELSE "none")
            /\ PtOk(e.eph) /\ e.eph # PtId
      coef == (IF sec.t = "rand" THEN a ELSE Tail(a)) \o b
      nonces == CASE sec.t = "msk" -> <<ScSub(e.pr1, ScMul(e.pc, sec.s2))>>
                  [] sec.t = "mul" -> <<ScSub(e.pr1, ScMul(e.pc, sec.s1)), ScSub(e.pr2, ScMul(e.pc, ScSub(b[1], ScMul(sec.s1, sec.s3))))>>
                  [] OTHER -> << >>
      d == [k |-> e.k, p |-> p, ck |-> e.ck, eph |-> e.eph, pop |-> e.pop, popctx |-> PopCtx(e.ck, e.ad, e.dealer, e.eph, e.pop),
            ct |-> [i \in 1..n |-> Entry(s, e, names, i, vs[i], ms[i])],
            prf |-> IF e.pt = "none" THEN NoProof ELSE [t |-> e.pt, good |-> TRUE, st |-> stmt, ad |-> e.ad],
            \* for the checks of where randomness comes from
            sc |-> [coef |-> coef, nonces |-> nonces], pts |-> <<e.eph, PopNonce(e)>>,
            rec |-> <<e.k, p, e.eph, e.pop, e.popc, e.popr, e.cts, e.pc, e.pr1, e.pr2>>]
    IN R(ok, Put(s, Out(e), d))

Flip(k) == IF k = "S" THEN "P" ELSE "S"
ModD(s, e, d) ==
  CASE e.what = "ct" -> [d EXCEPT !.ct[e.i + 1].v = ScAdd(@, e.dv), !.ct[e.i + 1].m = IF d.ck = "P" THEN ScAdd(@, e.dm) ELSE @,
                                         !.ct[e.i + 1].cv = ScAdd(@, e.dv), !.ct[e.i + 1].cm = ScAdd(@, IF d.ck = "P" THEN e.dm ELSE e.dv)]
    \* a ciphertext entry of a given value; "" leaves a half as it is
    [] e.what = "ctset" -> LET t == d.ct[e.i + 1]  nv == IF e.cv = "" THEN t.cv ELSE e.cv  nm == IF d.ck = "S" THEN nv ELSE IF e.cm = "" THEN t.cm ELSE e.cm IN
         [d EXCEPT !.ct[e.i + 1].v = ScAdd(@, ScSub(nv, t.cv)), !.ct[e.i + 1].m = IF d.ck = "P" THEN ScAdd(@, ScSub(nm, t.cm)) ELSE @, !.ct[e.i + 1].cv = nv, !.ct[e.i + 1].cm = nm]
    [] e.what = "swapct" -> [d EXCEPT !.ct[e.i + 1] = d.ct[e.j + 1], !.ct[e.j + 1] = d.ct[e.i + 1]]
    [] e.what = "dropct" -> [d EXCEPT !.ct = SubSeq(@, 1, Len(@) - 1)]
    [] e.what = "addct" -> [d EXCEPT !.ct = Append(@, @[1])]
    [] e.what = "noct" -> [d EXCEPT !.ct = << >>]
    [] e.what = "com" -> [d EXCEPT !.p[e.i + 1] = PtAdd(@, e.d)]
    [] e.what = "comneg" -> [d EXCEPT !.p = [c \in 1..Len(@) |-> IF e.i < 0 \/ c = e.i + 1 THEN PtNeg(@[c]) ELSE @[c]]]
    [] e.what = "comrev" -> [d EXCEPT !.p = Rev(@)]
    [] e.what = "ctswapvm" -> [d EXCEPT !.ct[e.i + 1].v = ScSub(d.ct[e.i + 1].cm, ScSub(d.ct[e.i + 1].cv, d.ct[e.i + 1].v)), !.ct[e.i + 1].m = ScSub(d.ct[e.i + 1].cv, ScSub(d.ct[e.i + 1].cm, d.ct[e.i + 1].m)),
                                               !.ct[e.i + 1].cv = d.ct[e.i + 1].cm, !.ct[e.i + 1].cm = d.ct[e.i + 1].cv]
    [] e.what = "ephneg" -> [d EXCEPT !.eph = PtNeg(@)]
    [] e.what = "popneg" -> [d EXCEPT !.pop = PtNeg(@)]
    [] e.what = "comset" -> [d EXCEPT !.k = e.k, !.p = Lst(e, "p")]
    [] e.what = "comdrop" -> [d EXCEPT !.p = SubSeq(@, 1, Len(@) - 1)]
    [] e.what = "comadd" -> [d EXCEPT !.p = Append(@, e.d)]
    [] e.what = "compad" -> [d EXCEPT !.p = @ \o [c \in 1..e.n |-> PtId]]
    [] e.what = "comkind" -> [d EXCEPT !.k = Flip(@)]
    [] e.what = "eph" -> [d EXCEPT !.eph = PtAdd(@, e.d)]
    [] e.what = "pop" -> [d EXCEPT !.pop = PtAdd(@, e.d)]
    [] e.what \in {"popc", "popr"} -> [d EXCEPT !.popctx = [k |-> "altered"]]
    [] e.what = "popfrom" -> LET o == s.o[e.from] IN [d EXCEPT !.eph = o.eph, !.pop = o.pop, !.popctx = o.popctx]
    [] e.what = "poppfrom" -> [d EXCEPT !.popctx = s.o[e.from].popctx]
    [] e.what = "ctkind" -> [d EXCEPT !.ck = Flip(@)]
    [] e.what = "ctfrom" -> LET o == s.o[e.from] IN [d EXCEPT !.ck = o.ck, !.ct = o.ct, !.eph = o.eph, !.pop = o.pop, !.popctx = o.popctx]
    [] e.what = "comfrom" -> [d EXCEPT !.k = s.o[e.from].k, !.p = s.o[e.from].p]
    [] e.what = "prooffrom" -> [d EXCEPT !.prf = s.o[e.from].prf]
    [] e.what = "proofnil" -> [d EXCEPT !.prf = NoProof]
    [] e.what = "prooftype" -> [d EXCEPT !.prf = [t |-> e.t, good |-> FALSE, st |-> << >>, ad |-> ""]]
    [] e.what = "proofmake" -> [d EXCEPT !.prf =
         IF e.t = "msk" THEN [t |-> "msk", good |-> TRUE, ad |-> e.ad, st |-> <<Com2(e.wit[1], e.wit[2]), Com1(e.wit[1])>>]
         ELSE [t |-> "mul", good |-> e.wit[4] = ScMul(e.wit[1], e.wit[2]), ad |-> e.ad, st |-> <<Com1(e.wit[1]), Com2(e.wit[2], e.wit[3]), Com2(e.wit[4], e.wit[5])>>]]
    [] e.what \in {"proofc", "proofr1", "proofr2"} -> [d EXCEPT !.prf.good = FALSE]
\* an ephemeral key of the dealer's own choice (x times G), possession proved; with recipients, the entries are encrypted under it
EphMade(s, e, d) ==
  LET eph == PtMul(PtG, e.x)  names == Lst(e, "recips") IN
  [d EXCEPT !.eph = eph, !.pop = e.pop, !.popctx = PopCtx(d.ck, e.ad, e.dealer, eph, e.pop),
            !.ct = IF names = << >> THEN @ ELSE [i \in 1..Len(@) |-> Entry(s, [e EXCEPT !.eph = eph], names, i, @[i].v, @[i].m)]]
ModStep(s, e) == IF e.what = "ephmake" THEN R(Ok(e) /\ e.eph = PtMul(PtG, e.x) /\ PtOk(e.pop) /\ e.ck = s.o[e.in].ck, Put(s, e.out, EphMade(s, e, s.o[e.in])))
                 ELSE R(Ok(e), Put(s, e.out, ModD(s, e, s.o[e.in])))

PubStep(s, e) == Verdict(s, e, PubOk(s.o[e.d], OpOf(s, e.tr), e.thr, e.dealer, e.n, e.ad))
PrivStep(s, e) == Verdict(s, e, DecOpen(s.o[e.d], e.ad, e.dealer, e.idx, SkOf(s, e), PkOf(s, e)).ok)
\* a call that returns an opening: x is what it must be
OpenResult(s, e, x) == IF ~x.ok THEN R(Err(e), s) ELSE R(Ok(e) /\ RecO(e) = x.o, Put(s, Out(e), x.o))
OpenDealStep(s, e) == OpenResult(s, e, DecOpen(s.o[e.d], e.ad, e.dealer, e.idx, SkOf(s, e), PkOf(s, e)))
ValidStep(s, e) == Verdict(s, e, LET d == s.o[e.d] IN Len(d.ct) = e.n /\ PopOk(d, e.ad, e.dealer))
\* decryption alone: the plaintext in its own context, and anything else in another
Decrypted(e, d, x) == CASE x.st = "range" -> Err(e)
                        [] x.st = "plain" -> Ok(e) /\ e.v = x.v /\ (d.ck = "P" => e.m = x.m)
                        [] OTHER -> LET j == IdxPos(e.idx, Len(d.ct)) IN Ok(e) /\ e.v # d.ct[j].v /\ (d.ck = "P" => e.m # d.ct[j].m)
\* Masks: a table of what was seen to hide plaintexts, per context and component.  It must be a function, and injective.
MaskTab(mk, ctx, comp, v) == LET x == ctx @@ [comp |-> comp] IN
  IF x \in DOMAIN mk THEN [ok |-> mk[x] = v, mk |-> mk] ELSE [ok |-> \A y \in DOMAIN mk : mk[y] # v, mk |-> (x :> v) @@ mk]
Masked(s, d, e, ss, good) ==
  IF ~good \/ ~Ok(e) THEN R(good, s)
  ELSE LET c == EncCtx(d.ck, e.dealer, e.idx, e.ad, PkOf(s, e), d.eph, ss)
           t == d.ct[IdxPos(e.idx, Len(d.ct))]
           a == MaskTab(s.mk, c, "v", ScSub(t.cv, e.v))
           b == IF d.ck = "P" THEN MaskTab(a.mk, c, "m", ScSub(t.cm, e.m)) ELSE [ok |-> TRUE, mk |-> a.mk]
       IN R(a.ok /\ b.ok, [s EXCEPT !.mk = b.mk])
CtDecStep(s, e) == LET d == s.o[e.d] IN
  IF ~PopOk(d, e.ad, e.dealer) THEN R(Err(e), s)
  ELSE LET ss == PtMul(d.eph, SkOf(s, e)) IN Masked(s, d, e, ss, Decrypted(e, d, Plain(d, e.ad, e.dealer, e.idx, PkOf(s, e), ss)))
CtSsStep(s, e) == LET d == s.o[e.d]  ss == IF Has(e, "own") THEN PtMul(d.eph, s.o[e.own].sk) ELSE e.ss IN Masked(s, d, e, ss, Decrypted(e, d, Plain(d, e.ad, e.dealer, e.idx, PkOf(s, e), ss)))
\* encryption of given plaintexts
RECURSIVE MaskAll(_, _, _)
MaskAll(a, ck, ct) == IF ct = << >> THEN a
  ELSE LET t == Head(ct)  x == MaskTab(a.mk, t.ctx, "v", ScSub(t.cv, t.v))
           y == IF ck = "P" THEN MaskTab(x.mk, t.ctx, "m", ScSub(t.cm, t.m)) ELSE [ok |-> TRUE, mk |-> x.mk]
       IN MaskAll([ok |-> a.ok /\ x.ok /\ y.ok, mk |-> y.mk], ck, Tail(ct))
EncStep(s, e) ==
  LET names == Lst(e, "recips")  pts == Lst(e, "pts")  n == Len(pts) IN
  IF n # Len(names) \/ n = 0 THEN R(Err(e), s)
  ELSE IF ~Ok(e) THEN R(FALSE, s)
  ELSE IF ~(e.ck = e.kind /\ e.n = n /\ Len(e.cts) = n /\ PtOk(e.eph) /\ e.eph # PtId) THEN R(FALSE, s)
  ELSE LET ct == [i \in 1..n |-> Entry(s, e, names, i, pts[i][1], IF e.kind = "P" THEN pts[i][2] ELSE ScZero)]
           a == MaskAll([ok |-> TRUE, mk |-> s.mk], e.kind, ct)
           d == [k |-> e.kind, p |-> <<PtG>>, ck |-> e.ck, eph |-> e.eph, pop |-> e.pop, popctx |-> PopCtx(e.ck, e.ad, e.dealer, e.eph, e.pop), ct |-> ct, prf |-> NoProof, pts |-> <<e.eph, PopNonce(e)>>,
                 rec |-> <<e.eph, e.pop, e.popc, e.popr, e.cts>>]
       IN R(a.ok, Put([s EXCEPT !.mk = a.mk], Out(e), d))

\* ------------------------------------------------------------ transcripts ---
TrStep(s, e) ==
  LET x == Transcript(OpOf(s, e.tr), e.thr, ObjPairs(s, Lst(e, "ds"))) IN
  IF ~x.ok THEN R(Err(e), s)
  ELSE R(Ok(e) /\ [cls |-> e.cls, k |-> e.k, p |-> Lst(e, "p")] = x.t /\ e.ct = x.t.p[1], Put(s, Out(e), x.t))
GivenOf(s, e, i) == LET g == Lst(e, "given") IN
  IF \E j \in 1..Len(g) : g[j][1] = i THEN [has |-> TRUE, l |-> ObjPairs(s, PairsOf(g[CHOOSE j \in 1..Len(g) : g[j][1] = i][2]))] ELSE [has |-> FALSE, l |-> << >>]
OpenStep(s, e) ==
  LET ds == ObjPairs(s, Lst(e, "ds")) IN
  OpenResult(s, e, OpenShare(s.o[e.tr], ds, [j \in 1..Len(ds) |-> GivenOf(s, e, ds[j][1])], e.ad, e.idx, SkOf(s, e), PkOf(s, e)))
CombStep(s, e) == OpenResult(s, e, CombineGiven(s.o[e.tr], ObjPairs(s, Lst(e, "ops")), e.idx))
ReconStep(s, e) == OpenResult(s, e, Recon(s.o[e.d], ObjPairs(s, Lst(e, "ops")), e.idx))

\* ------------------------------------------------------------- complaints ---
CompRec(d, dealer, e, s, x) == Complaint(d, dealer, e.idx, SkOf(s, e), PkOf(s, e), e.ad) @@ [pts |-> <<PtMul(PtG, ScSub(x.r, ScMul(x.c, SkOf(s, e))))>>, rec |-> <<x.ss, x.c, x.r>>]
RECURSIVE PutAll(_, _, _)
PutAll(s, ns, vs) == IF ns = << >> THEN s ELSE PutAll(Put(s, Head(ns), Head(vs)), Tail(ns), Tail(vs))
ComplainStep(s, e) ==
  LET bad == BadDealers(ObjPairs(s, Lst(e, "ds")), e.ad, e.idx, SkOf(s, e), PkOf(s, e))
      who == SortIdx([j \in 1..Len(bad) |-> bad[j][1]])
      dOf(i) == bad[CHOOSE j \in 1..Len(bad) : bad[j][1] = i][2]
  IN IF bad = << >> THEN R(Err(e), s)
     ELSE IF ~Ok(e) THEN R(FALSE, s)
     ELSE IF Lst(e, "who") # who THEN R(FALSE, s)
     ELSE R(\A j \in 1..Len(who) : e.cs[j].ss = PtMul(dOf(who[j]).eph, SkOf(s, e)),
            PutAll(s, [j \in 1..Len(who) |-> e.out \o who[j]], [j \in 1..Len(who) |-> CompRec(dOf(who[j]), who[j], e, s, e.cs[j])]))
Complain1Step(s, e) == LET d == s.o[e.d] IN R(Ok(e) /\ e.ss = PtMul(d.eph, SkOf(s, e)), Put(s, e.out, CompRec(d, e.dealer, e, s, e)))
CModStep(s, e) ==
  LET c == s.o[e.in] IN
  R(Ok(e), Put(s, e.out,
    CASE e.what = "ssneg" -> [c EXCEPT !.ss = PtNeg(@)]
      [] e.what = "ss" -> [c EXCEPT !.ss = PtAdd(@, e.d)]
      [] e.what \in {"c", "r"} -> [c EXCEPT !.good = FALSE]
      [] e.what = "proof" -> [s.o[e.from] EXCEPT !.ss = c.ss]
      [] e.what = "forge" -> [c EXCEPT !.good = FALSE]))
CVerStep(s, e) == Verdict(s, e, CompOk(s.o[e.c], s.o[e.d], e.dealer, e.idx, s.o[e.pk].pk, e.ad))

\* ------------------------------------------- where randomness comes from ---
FreshOf(x) == IF "sc" \in DOMAIN x THEN MapSeq(LAMBDA c : PtMul(PtG, c), x.sc.coef \o x.sc.nonces) \o x.pts
              ELSE IF "pts" \in DOMAIN x THEN x.pts ELSE x.fr
SmallMult == { PtMul(PtG, ScDec(ToString(i))) : i \in -16..16 }
SecOfOps(s, l) == LET o == ObjPairs(s, l) IN [v |-> InterpSc(DXs(o), [j \in 1..Len(o) |-> o[j][2].v], ScZero), m |-> InterpSc(DXs(o), [j \in 1..Len(o) |-> o[j][2].m], ScZero)]
\* the masks of the plaintexts themselves must be unrelated to anything simple
MasksOf(d) == Flat([j \in 1..Len(d.ct) |-> <<ScSub(d.ct[j].cv, d.ct[j].v)>> \o (IF d.ck = "P" THEN <<ScSub(d.ct[j].cm, d.ct[j].m)>> ELSE << >>)])
\* not confined to a small range (a random scalar fails this with probability 2^-94)
Spread(c) == HCmp(HSub(c, 0, 12), HRep("00", 12)) # 0 /\ HCmp(HSub(c, 20, 32), HRep("00", 12)) # 0
NoteStep(s, e) ==
  LET xs == [j \in 1..Len(Lst(e, "of")) |-> s.o[e.of[j]]]
      known == IF Has(e, "known") THEN Range(MapSeq(LAMBDA c : PtMul(PtG, c), Lst(e, "known"))) ELSE {}
  IN CASE e.what = "fresh" -> LET all == Flat([j \in 1..Len(xs) |-> FreshOf(xs[j])]) IN
            R(/\ \A j \in 1..Len(xs) : "sc" \in DOMAIN xs[j] => \A c \in Range(xs[j].sc.coef \o xs[j].sc.nonces) : Spread(c) /\ Spread(ScNeg(c))
              /\ Cardinality(Range(all)) = Len(all) /\ Range(all) \cap (SmallMult \cup known \cup {PtH, PtNeg(PtH)}) = {}, s)
       [] e.what = "same" -> R(\A j \in 1..Len(xs) : xs[j].rec = xs[1].rec, s)
       [] e.what = "masks" -> LET all == Flat([j \in 1..Len(xs) |-> MasksOf(xs[j])]) IN
            R(Cardinality(Range(all)) = Len(all) /\ \A j \in 1..Len(all) : HCmp(HSub(all[j], 0, 12), HRep("00", 12)) # 0, s)
       [] e.what = "secret" -> LET x == SecOfOps(s, e.ops) t == s.o[e.tr] IN R(t.p[1] = (IF t.k = "S" THEN Com1(x.v) ELSE Com2(x.v, x.m)), s)
       [] e.what = "samesecret" -> R(SecOfOps(s, e.a).v = SecOfOps(s, e.b).v, s)
       [] e.what = "product" -> R(ScMul(SecOfOps(s, e.a).v, SecOfOps(s, e.b).v) = SecOfOps(s, e.c).v, s)
       [] e.what = "sameconst" -> R(s.o[e.a].p[1] = s.o[e.b].p[1], s)
       [] e.what = "distinct" -> R(\A i, j \in 1..Len(xs) : i # j => xs[i].rec # xs[j].rec, s)

\* ---------------------------------------------------------------- signing ---
RECURSIVE Ckd(_, _, _, _)
Ckd(pk, chain, tweak, path) == IF path = << >> THEN [key |-> pk, chain |-> chain, tweak |-> tweak]
  ELSE LET h == HmacSha512(chain, HCat(pk, Head(path)))
           off == ScRed(HSub(h, 0, 32))
       IN Ckd(PtAdd(pk, PtMul(PtG, off)), HSub(h, 32, 64), ScAdd(tweak, off), Tail(path))
Derived(pk, path) == Ckd(pk, HRep("00", 32), ScZero, path)
HashInt(h) == ScRed(IF HLen(h) > 32 THEN HSub(h, 0, 32) ELSE h)

Presig(t) == t.cls = "int" /\ t.k = "S"
\* what the event must have derived: [ok, ro, c]
RhoOf(s, e) ==
  LET k == s.o[e.tkey].p[1]  q == s.o[e.tpre].p[1]
      dv == Derived(k, Lst(e, "path"))
      x == [h |-> e.hash, r |-> e.rand, p |-> q, t |-> dv.tweak]
      ro == s.ro
      seen == x \in DOMAIN ro
      ok == /\ e.tweak = dv.tweak
            /\ (IF seen THEN ro[x] = e.rz ELSE \A y \in DOMAIN ro : ro[y] # e.rz)
            /\ ScCanon(e.rz) /\ e.rz # ScZero
            /\ e.pre = PtAdd(q, PtMul(PtG, e.rz))
            /\ e.rho = PtXSc(e.pre)
  IN [ok |-> ok, ro |-> IF seen THEN ro ELSE (x :> e.rz) @@ ro,
      c |-> [e |-> HashInt(e.hash), tweak |-> dv.tweak, rz |-> e.rz, rho |-> e.rho], q |-> dv.key]
Ro(s, x) == [s EXCEPT !.ro = x.ro]
RhoStep(s, e) == IF ~Presig(s.o[e.tpre]) THEN R(Err(e), s) ELSE IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET x == RhoOf(s, e) IN R(x.ok, Ro(s, x))
ShareStep(s, e) ==
  LET lam == s.o[e.lam]  kl == s.o[e.kl]  xl == s.o[e.xl] IN
  IF ~Presig(s.o[e.tpre]) \/ lam.k # "P" \/ kl.k # "P" \/ xl.k # "P" THEN R(Err(e), s)
  ELSE IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET x == RhoOf(s, e)
           num == ShareNum(x.c, lam, xl)  den == ShareDen(x.c, lam, kl)
       IN R(x.ok /\ RecO(e.num) = num /\ RecO(e.den) = den, Put(Ro(s, x), Out(e), [num |-> num, den |-> den]))
NegO(o) == [o EXCEPT !.v = ScNeg(@), !.m = ScNeg(@)]
\* "dec", "byt": through its serialised form or its byte form, which changes nothing
OpMod(o, e) ==
  CASE e.what = "neg" -> NegO(o) [] e.what = "negv" -> [o EXCEPT !.v = ScNeg(@)] [] e.what = "negm" -> [o EXCEPT !.m = ScNeg(@)] [] e.what = "swap" -> [o EXCEPT !.v = o.m, !.m = o.v]
    [] e.what = "add" -> [o EXCEPT !.v = ScAdd(@, e.dv), !.m = ScAdd(@, e.dm)] [] e.what \in {"dec", "byt"} -> o [] e.what = "kind" -> [o EXCEPT !.k = IF @ = "S" THEN "P" ELSE "S"]
OpModStep(s, e) == LET o == OpMod(s.o[e.in], e) IN R(Ok(e), Put(s, e.out, Opening(o.k, o.v, o.m)))
ShModStep(s, e) ==
  LET x == s.o[e.in] IN
  R(Ok(e), Put(s, e.out,
    CASE e.what = "nv" -> [x EXCEPT !.num.v = ScAdd(@, e.d)] [] e.what = "nm" -> [x EXCEPT !.num.m = ScAdd(@, e.d)]
      [] e.what = "dv" -> [x EXCEPT !.den.v = ScAdd(@, e.d)] [] e.what = "dm" -> [x EXCEPT !.den.m = ScAdd(@, e.d)]
      [] e.what = "swap" -> [num |-> x.den, den |-> x.num]
      [] e.what \in {"nneg", "dneg", "neg"} -> [num |-> IF e.what = "dneg" THEN x.num ELSE NegO(x.num), den |-> IF e.what = "nneg" THEN x.den ELSE NegO(x.den)]
      [] e.what = "nvm" -> [x EXCEPT !.num.v = x.num.m, !.num.m = x.num.v]
      [] e.what = "numfrom" -> [x EXCEPT !.num = s.o[e.from].num] [] e.what = "denfrom" -> [x EXCEPT !.den = s.o[e.from].den]
      [] e.what = "numkind" -> [x EXCEPT !.num.k = "S"] [] e.what = "denkind" -> [x EXCEPT !.den.k = "S"]
      [] e.what = "numnil" -> [x EXCEPT !.num.k = "none"] [] e.what = "dennil" -> [x EXCEPT !.den.k = "none"]))
ShVerStep(s, e) ==
  IF ~Presig(s.o[e.tpre]) THEN R(Ok(e) /\ ~e.good, s) ELSE IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET x == RhoOf(s, e) IN
       R(x.ok /\ e.good = ShareOk(x.c, s.o[e.s], e.idx, s.o[e.tlam], s.o[e.tkl], s.o[e.txl]), Ro(s, x))
CombineStep(s, e) ==
  LET ss == ObjPairs(s, Lst(e, "shares")) IN
  IF ~Presig(s.o[e.tpre]) \/ Len(ss) < e.thr \/ ss = << >> \/ \E j \in 1..Len(ss) : ss[j][2].num.k # "P" \/ ss[j][2].den.k # "P" THEN R(Err(e), s)
  ELSE IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET x == RhoOf(s, e)
           g == Combine(x.c, ss)
           \* consistent shares give the one signature; of others nothing is asked but the form
       IN R(/\ x.ok /\ ScCanon(e.r) /\ ScCanon(e.s) /\ ~ScHigh(e.s)
            /\ (Get(e, "valid", FALSE) => e.r = g.r /\ e.s = g.s /\ Ecdsa(x.c.e, e.r, e.s, x.q)), Put(Ro(s, x), Out(e), [r |-> e.r, sv |-> e.s, rec |-> <<e.r, e.s>>]))
MkSigStep(s, e) ==
  LET f == IF Has(e, "from") THEN s.o[e.from] ELSE [r |-> "", sv |-> ""]
      g == IF ~Has(e, "what") THEN f
           ELSE CASE e.what = "neg" -> [f EXCEPT !.sv = ScNeg(@)] [] e.what = "negr" -> [f EXCEPT !.r = ScNeg(@)]
                  [] e.what = "addr" -> [f EXCEPT !.r = ScAdd(@, e.d)] [] e.what = "adds" -> [f EXCEPT !.sv = ScAdd(@, e.d)]
                  [] e.what = "swap" -> [r |-> f.sv, sv |-> f.r] [] OTHER -> f
      h == [r |-> IF Get(e, "ri", "") # "" THEN e.ri ELSE g.r, sv |-> IF Get(e, "si", "") # "" THEN e.si ELSE g.sv]
  IN R(Ok(e) /\ e.r = h.r /\ e.sv = h.sv, Put(s, e.out, h))
SigVerStep(s, e) ==
  IF ~Presig(s.o[e.tpre]) THEN R(Ok(e) /\ ~e.good, s) ELSE IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET x == RhoOf(s, e)  g == s.o[e.s] IN
       R(x.ok /\ e.r = g.r /\ e.sv = g.sv /\ e.good = (g.r = x.c.rho /\ ~ScHigh(g.sv) /\ Ecdsa(x.c.e, g.r, g.sv, x.q)), Ro(s, x))

DeriveOk(e) == IF ~PtOk(e.pk) THEN Err(e) ELSE
  LET d == Derived(e.pk, Lst(e, "path")) IN Ok(e) /\ e.key = d.key /\ e.chain = d.chain /\ e.tweak = d.tweak /\ e.chain2 = d.chain
Bip32Ok(e) == LET p == Lst(e, "path") d == Derived(e.pk, [i \in 1..Len(p) |-> HNum(p[i], 4)]) IN Ok(e) /\ e.key = d.key /\ e.chain = d.chain
RECURSIVE BeNext(_)
\* the big-endian successor: the last byte plus one, carrying to the left; a longer number if there is nothing to carry into
Hex2(n) == HNum(ToString(n), 1)
BeNext(x) == IF HLen(x) = 0 THEN "01"
  ELSE LET l == HLen(x)  b == HByte(x, l - 1) IN
       IF b < 255 THEN HCat(HSub(x, 0, l - 1), Hex2(b + 1)) ELSE HCat(BeNext(HSub(x, 0, l - 1)), "00")
NextOk(e) == Ok(e) /\ e.out = BeNext(e.i) /\ e.orig = e.i /\ e.again = e.out

ProtoOps == {"key", "deal", "mod", "pubver", "privver", "opendeal", "ctdec", "ctss", "ctvalid", "tr", "mktr", "mkop", "opmod", "open", "comb", "recon",
             "enc", "complain", "complain1", "cmod", "cver", "note", "rho", "share", "shmod", "shver", "combine", "mksig", "sigver", "derive", "bip32", "next", "conv", "hashint", "hmac", "clone"}
ProtoStep1(s, e) ==
  CASE e.op = "key" -> KeyStep(s, e) [] e.op = "deal" -> DealStep(s, e) [] e.op = "mod" -> ModStep(s, e) [] e.op = "enc" -> EncStep(s, e)
    [] e.op = "pubver" -> PubStep(s, e) [] e.op = "privver" -> PrivStep(s, e) [] e.op = "opendeal" -> OpenDealStep(s, e)
    [] e.op = "ctdec" -> CtDecStep(s, e) [] e.op = "ctss" -> CtSsStep(s, e) [] e.op = "ctvalid" -> ValidStep(s, e)
    [] e.op = "tr" -> TrStep(s, e)
    [] e.op = "mktr" -> R(Ok(e), Put(s, e.out, [cls |-> e.cls, k |-> e.k, p |-> e.p]))
    [] e.op = "mkop" -> R(Ok(e), Put(s, e.out, IF e.okind = "none" THEN [k |-> "none", v |-> ScZero, m |-> ScZero] ELSE Opening(e.okind, e.v, e.m)))
    [] e.op = "opmod" -> OpModStep(s, e) [] e.op = "open" -> OpenStep(s, e) [] e.op = "comb" -> CombStep(s, e) [] e.op = "recon" -> ReconStep(s, e)
    [] e.op = "complain" -> ComplainStep(s, e) [] e.op = "complain1" -> Complain1Step(s, e) [] e.op = "cmod" -> CModStep(s, e) [] e.op = "cver" -> CVerStep(s, e)
    [] e.op = "note" -> NoteStep(s, e) [] e.op = "rho" -> RhoStep(s, e)
    [] e.op = "share" -> ShareStep(s, e) [] e.op = "shmod" -> ShModStep(s, e) [] e.op = "shver" -> ShVerStep(s, e)
    [] e.op = "combine" -> CombineStep(s, e) [] e.op = "mksig" -> MkSigStep(s, e) [] e.op = "sigver" -> SigVerStep(s, e)
    [] e.op = "derive" -> R(DeriveOk(e), s) [] e.op = "bip32" -> R(Bip32Ok(e), s) [] e.op = "next" -> R(NextOk(e), s)
    [] e.op = "conv" -> R(Ok(e) /\ e.val = PtXSc(e.pt) /\ e.p2 = e.pt, s)          \* the x coordinate, modulo the order
    [] e.op = "hashint" -> R(Ok(e) /\ e.val = HashInt(e.hash) /\ e.h2 = e.hash, s)
    [] e.op = "clone" -> LET d == s.o[e.d]  good == <<TRUE, TRUE, TRUE>> IN
         R(Ok(e) /\ e.com = good /\ e.pop = good /\ Lst(e, "ct") = (IF d.ck = "S" THEN good ELSE << >>) /\ Lst(e, "prf") = (IF d.prf.t = "none" THEN << >> ELSE good), s)
    [] e.op = "hmac" -> R(Ok(e) /\ e.val = HmacSha512(e.k, HCatAll(Lst(e, "msgs"))) /\ e.k2 = e.k, s)
\* an event is skipped only if an object it needs was rightly not made
ProtoStep(s, e) == IF e.res = "skip" THEN R(e.msg \notin DOMAIN s.o, s) ELSE ProtoStep1(s, e)
=============================================================================
