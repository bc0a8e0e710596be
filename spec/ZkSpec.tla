------------------------------- MODULE ZkSpec -------------------------------
(***************************************************************************)
(* The three proofs (equal discrete logarithms, equal openings, product),  *)
(* Fiat-Shamir style.  s.mk is the random oracle: the challenges seen so   *)
(* far, as a function of statement, commitments and associated data.  It   *)
(* must stay a function and injective.  A proof verifies exactly if the    *)
(* oracle was asked for the commitments recovered from it and answered its *)
(* challenge: a challenge nobody asked for cannot be met.                  *)
(***************************************************************************)
EXTENDS ProtoBase
ZQuery(t, st, com, ad) == [zk |-> t, st |-> st, com |-> com, ad |-> ad]
Asked(s, x, c) == IF x \in DOMAIN s.mk THEN [ok |-> s.mk[x] = c, s |-> s] ELSE [ok |-> \A y \in DOMAIN s.mk : s.mk[y] # c, s |-> [s EXCEPT !.mk = (x :> c) @@ s.mk]]
ZkMakeStep(s, e) ==
  IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET st == ZStmt(e.t, e.wit, Get(e, "g", PtG), Get(e, "h", PtH))  p == e.p
           a == IF ZTrue(e.t, e.wit) THEN Asked(s, ZQuery(e.t, st, ZRec(e.t, st, p), e.ad), p[1]) ELSE [ok |-> TRUE, s |-> s]
       IN R(a.ok /\ \A i \in 1..Len(p) : ScCanon(p[i]), Put(a.s, e.out, p))
ZkHashStep(s, e) == IF ~Ok(e) THEN R(FALSE, s) ELSE LET a == Asked(s, ZQuery(e.t, e.st, e.com, e.ad), e.c) IN R(a.ok /\ ScCanon(e.c), Put(a.s, Get(e, "out", ""), <<e.c>>))
\* a proof from an older one's challenge c: <<c + dc, a1 + b1 c, a2 + b2 c>>, or by changes to a proof
ZkBuild(s, e) == LET c == s.o[e.from][1] IN <<ScAdd(c, e.dc)>> \o [i \in 1..Len(e.lin) |-> ScAdd(e.lin[i][1], ScMul(e.lin[i][2], c))]
ZkModify(s, e) == LET q == s.o[e.from] IN [i \in 1..Len(q) |-> ScAdd(q[i], e.d[i])]
ZkMkStep(s, e) == R(Ok(e), Put(s, e.out, IF e.op = "zk.build" THEN ZkBuild(s, e) ELSE ZkModify(s, e)))
ZkVerStep(s, e) ==
  LET p == s.o[e.p]  x == ZQuery(e.t, e.st, ZRec(e.t, e.st, p), e.ad)
      good == IF x \in DOMAIN s.mk THEN s.mk[x] = p[1] ELSE FALSE
  IN R(IF good THEN Ok(e) ELSE Err(e), s)
ZkRecStep(s, e) == R(Ok(e) /\ e.com = ZRec(e.t, e.st, s.o[e.p]), s)
ZkOps == {"zk.make", "zk.hash", "zk.build", "zk.mod", "zk.ver", "zk.rec"}
ZkStep1(s, e) == CASE e.op = "zk.make" -> ZkMakeStep(s, e) [] e.op = "zk.hash" -> ZkHashStep(s, e) [] e.op \in {"zk.build", "zk.mod"} -> ZkMkStep(s, e)
                   [] e.op = "zk.ver" -> ZkVerStep(s, e) [] e.op = "zk.rec" -> ZkRecStep(s, e)
ZkStep(s, e) == IF e.res = "skip" THEN R(e.msg \notin DOMAIN s.o, s) ELSE ZkStep1(s, e)
=============================================================================
