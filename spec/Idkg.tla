-------------------------------- MODULE Idkg --------------------------------
(***************************************************************************)
(* The interactive distributed key generation protocol: dealings, their    *)
(* public and private verification, transcripts, openings, reconstruction  *)
(* and complaints -- over any field, group and set of node indices.        *)
(*                                                                         *)
(* Encryption and proofs are modelled by provenance: a ciphertext entry    *)
(* carries the context it was encrypted in, a proof the statement it was   *)
(* made for.  Decrypting in another context gives noise; a proof verifies  *)
(* for its own statement only.                                             *)
(*                                                                         *)
(* dealing  [k, p, ck, ct, eph, pop, popctx, prf]                          *)
(*   k, p    commitment kind ("S" simple, "P" Pedersen) and coefficients   *)
(*   ck, ct  ciphertext kind and entries [ctx, v, m]                       *)
(*   popctx  the context the proof of possession was made in               *)
(*   prf     [t, good, st, ad]: type, unaltered, statement, data           *)
(* transcript [cls, k, p]; opening [k, v, m]                               *)
(* operation  [t, p1, p2]: "rand", "unm", "msk", "mul"                     *)
(***************************************************************************)
EXTENDS Shamir
CONSTANTS NodeSc(_),      \* the evaluation point of a node index
          IdxPos(_, _)    \* position 1..n of a node index in a list of n, 0 if outside

Com(x) == [k |-> x.k, p |-> x.p]
Opening(k, v, m) == [k |-> k, v |-> v, m |-> IF k = "S" THEN ScZero ELSE m]
OpensAt(x, i, o) == Opens(Com(x), NodeSc(i), o)
ComAt(x, i) == EvalCom(x.p, NodeSc(i))
ConstTerm(x) == x.p[1]

PopCtx(ck, ad, dealer, eph, pop) == [k |-> ck, ad |-> ad, dealer |-> dealer, eph |-> eph, pop |-> pop]
EncCtx(ck, dealer, i, ad, pk, eph, ss) == [k |-> ck, dealer |-> dealer, i |-> i, ad |-> ad, pk |-> pk, eph |-> eph, ss |-> ss]
NoProof == [t |-> "none", good |-> FALSE, st |-> << >>, ad |-> ""]

PopOk(d, ad, dealer) == d.popctx = PopCtx(d.ck, ad, dealer, d.eph, d.pop)
\* what the entry for recipient i decrypts to with shared secret ss
Plain(d, ad, dealer, i, pk, ss) ==
  LET j == IdxPos(i, Len(d.ct)) IN
  IF j = 0 THEN [st |-> "range"]
  ELSE IF d.ct[j].ctx = EncCtx(d.ck, dealer, i, ad, pk, d.eph, ss) THEN [st |-> "plain", v |-> d.ct[j].v, m |-> d.ct[j].m]
  ELSE [st |-> "noise"]
Bad == [ok |-> FALSE]
\* decrypt and check against the commitment
DecOpen(d, ad, dealer, i, sk, pk) ==
  IF ~PopOk(d, ad, dealer) THEN Bad
  ELSE LET x == Plain(d, ad, dealer, i, pk, PtMul(d.eph, sk)) IN
       IF x.st # "plain" THEN Bad
       ELSE LET o == Opening(d.ck, x.v, x.m) IN IF OpensAt(d, i, o) THEN [ok |-> TRUE, o |-> o] ELSE Bad

ProofFor(d, t, st, ad) == d.prf.t = t /\ d.prf.good /\ d.prf.st = st /\ d.prf.ad = ad
\* what an operation requires of a dealing by the dealer with this index
OpReq(d, op, dealer, ad) ==
  CASE op.t = "rand" -> d.k = "P" /\ d.ck = "P" /\ d.prf.t = "none"
    [] op.t = "unm" -> d.k = "S" /\ d.ck = "S" /\ d.prf.t = "none" /\ op.p1.k = "S" /\ ComAt(op.p1, dealer) = ConstTerm(d)
    [] op.t = "msk" -> d.k = "S" /\ d.ck = "S" /\ ProofFor(d, "msk", <<ComAt(op.p1, dealer), ConstTerm(d)>>, ad)
    [] op.t = "mul" -> d.k = "P" /\ d.ck = "P" /\ op.p1.k = "S" /\ op.p2.k = "P"
                       /\ ProofFor(d, "mul", <<ComAt(op.p1, dealer), ComAt(op.p2, dealer), ConstTerm(d)>>, ad)
    [] OTHER -> FALSE
PubOk(d, op, thr, dealer, n, ad) == Len(d.p) = thr /\ Len(d.ct) = n /\ PopOk(d, ad, dealer) /\ OpReq(d, op, dealer, ad)

\* ------------------------------------------------------------ transcripts ---
\* ds is a sequence of <<dealer index, dealing>>
Kinds(ds, k) == \A j \in 1..Len(ds) : ds[j][2].k = k
DXs(ds) == [j \in 1..Len(ds) |-> NodeSc(ds[j][1])]
Need(op) == CASE op.t = "rand" -> 0 [] op.t \in {"unm", "msk"} -> Len(op.p1.p) [] op.t = "mul" -> Len(op.p1.p) + Len(op.p2.p) - 1
KindOf(op) == IF op.t \in {"rand", "mul"} THEN "P" ELSE "S"
Combined(op, thr, ds) ==
  IF op.t = "rand" THEN [cls |-> "sum", k |-> "P", p |-> [c \in 1..thr |-> SumPt([j \in 1..Len(ds) |-> ds[j][2].p[c]])]]
  ELSE LET l == Lag(DXs(ds), ScZero)
       IN [cls |-> "int", k |-> KindOf(op), p |-> [c \in 1..thr |-> SumPt([j \in 1..Len(ds) |-> PtMul(ds[j][2].p[c], l[j])])]]
Transcript(op, thr, ds) ==
  IF \/ op.t \notin {"rand", "unm", "msk", "mul"}
     \/ \E j \in 1..Len(ds) : Len(ds[j][2].p) # thr
     \/ ~Kinds(ds, KindOf(op))
     \/ op.t = "unm" /\ op.p1.k # "S"
     \/ op.t = "msk" /\ op.p1.k # "P"
     \/ op.t = "mul" /\ (op.p1.k # "S" \/ op.p2.k # "P")
  THEN Bad
  ELSE IF Len(ds) < Need(op) THEN Bad
  ELSE LET t == Combined(op, thr, ds) IN
       IF op.t = "unm" /\ ConstTerm(op.p1) # ConstTerm(t) THEN Bad ELSE [ok |-> TRUE, t |-> t]

\* os: sequence of openings by the dealers at xs
CombineOpen(cls, k, xs, os) ==
  IF \E j \in 1..Len(os) : os[j].k # k THEN Bad
  ELSE IF cls = "sum"
       THEN [ok |-> TRUE, o |-> Opening(k, SumSc([j \in 1..Len(os) |-> os[j].v]), SumSc([j \in 1..Len(os) |-> os[j].m]))]
       ELSE LET l == Lag(xs, ScZero) IN
            [ok |-> TRUE, o |-> Opening(k, SumSc([j \in 1..Len(os) |-> ScMul(l[j], os[j].v)]), SumSc([j \in 1..Len(os) |-> ScMul(l[j], os[j].m)]))]
\* os: sequence of <<opener index, opening>>
Recon(d, os, i) ==
  IF Len(os) < Len(d.p) \/ \E j \in 1..Len(os) : os[j][2].k # d.k THEN Bad
  ELSE LET l == Lag(DXs(os), NodeSc(i))
           o == Opening(d.k, SumSc([j \in 1..Len(os) |-> ScMul(l[j], os[j][2].v)]), SumSc([j \in 1..Len(os) |-> ScMul(l[j], os[j][2].m)]))
       IN IF OpensAt(d, i, o) THEN [ok |-> TRUE, o |-> o] ELSE Bad
\* the opening of transcript t by receiver i; given[j].has: rebuild from the openings given[j].l instead of decrypting
OpenShare(t, ds, given, ad, i, sk, pk) ==
  LET one(j) == IF ~given[j].has THEN DecOpen(ds[j][2], ad, ds[j][1], i, sk, pk) ELSE Recon(ds[j][2], given[j].l, i)
      all == [j \in 1..Len(ds) |-> one(j)]
  IN IF \E j \in 1..Len(ds) : ~all[j].ok THEN Bad
     ELSE LET r == CombineOpen(t.cls, t.k, DXs(ds), [j \in 1..Len(ds) |-> all[j].o]) IN
          IF ~r.ok THEN Bad ELSE IF OpensAt(t, i, r.o) THEN r ELSE Bad

\* the opening of transcript t at i from one opening per dealing, given in any order as <<dealer, opening>>
CombineGiven(t, os, i) ==
  IF t.cls = "int" /\ \E a, b \in 1..Len(os) : a # b /\ os[a][1] = os[b][1] THEN Bad
  ELSE LET r == CombineOpen(t.cls, t.k, DXs(os), [j \in 1..Len(os) |-> os[j][2]]) IN
       IF ~r.ok THEN Bad ELSE IF OpensAt(t, i, r.o) THEN r ELSE Bad

\* ------------------------------------------------------------- complaints ---
\* complaint [good, sk, eph, ss, ad, i, dealer, pk]: the statement its proof was made for
Complaint(d, dealer, i, sk, pk, ad) == [good |-> TRUE, pk0 |-> PtMul(PtG, sk), eph |-> d.eph, ss0 |-> PtMul(d.eph, sk), ss |-> PtMul(d.eph, sk),
                                        ad |-> ad, i |-> i, dealer |-> dealer, pk |-> pk]
BadDealers(ds, ad, i, sk, pk) == SelectSeq(ds, LAMBDA x : ~DecOpen(x[2], ad, x[1], i, sk, pk).ok)
CompOk(c, d, dealer, i, pk, ad) ==
  /\ c.good /\ c.eph = d.eph /\ c.pk0 = pk /\ c.ss0 = c.ss /\ c.ad = ad /\ c.i = i /\ c.dealer = dealer /\ c.pk = pk
  /\ d.k = d.ck
  /\ LET x == Plain(d, ad, dealer, i, pk, c.ss) IN
     CASE x.st = "range" -> FALSE
       [] x.st = "noise" -> TRUE
       [] OTHER -> ~OpensAt(d, i, Opening(d.ck, x.v, x.m))
=============================================================================
