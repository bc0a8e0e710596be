------------------------------- MODULE IdkgMC -------------------------------
(***************************************************************************)
(* One round of distributed key generation with a dishonest node: four     *)
(* nodes, threshold two, two dealers, one of them (node 1) dishonest.  It  *)
(* deals anything that passes public verification, with any of the         *)
(* recipients' ciphertexts wrong in any way; it complains about anything   *)
(* and reveals wrong openings.  A dealing is used if three nodes support   *)
(* it.  Messages arrive in any order.                                      *)
(*   Agreement    every share opens the one transcript, any two shares     *)
(*                give the one secret                                      *)
(*   HonestSafe   no accepted complaint against an honest dealing or by    *)
(*                one whose share was good                                 *)
(*   Private      no honest node reveals a share of an honest dealing, and *)
(*                of the other only after an accepted complaint            *)
(*   Done         every honest node obtains its share in the end           *)
(***************************************************************************)
EXTENDS SmallField
CONSTANTS Typ,     \* operation of the round: "rand", "unm", "msk" or "mul"
          Wide     \* more dishonest dealings
Nodes == 0..3
Honest == {0, 2, 3}
Adv == 1
T == 2
N == 4
Ad == "ad"
Sk(i) == <<1, 3, 2, 4>>[i + 1]
Pk(i) == PtMul(PtG, Sk(i))
\* the past: sharings the dealers hold shares of (threshold 2, held by nodes 0 and 1; 3 for mul: node 0, 1 and 2 deal)
PA == <<3, 1>>
PB == <<2, 4>>
PM == <<1, 2>>
Op == CASE Typ = "rand" -> [t |-> "rand"]
        [] Typ = "unm" -> [t |-> "unm", p1 |-> [cls |-> "int", k |-> "S", p |-> ComS(PA, 2)]]
        [] Typ = "msk" -> [t |-> "msk", p1 |-> [cls |-> "sum", k |-> "P", p |-> ComP(PA, PM, 2)]]
        [] Typ = "mul" -> [t |-> "mul", p1 |-> [cls |-> "int", k |-> "S", p |-> ComS(PA, 2)], p2 |-> [cls |-> "sum", k |-> "P", p |-> ComP(PB, PM, 2)]]
Dealers == IF Typ = "mul" THEN <<0, 1, 2>> ELSE <<0, 1>>
K == KindOf(Op)
\* what a dealer holds
ValA(i) == Eval(PA, NodeSc(i))
ValB(i) == Eval(PB, NodeSc(i))
Due(i) == IF Typ = "mul" THEN ScMul(ValA(i), ValB(i)) ELSE ValA(i)
Stmt(i, p) == CASE Typ = "msk" -> <<ComAt(Op.p1, i), p[1]>> [] Typ = "mul" -> <<ComAt(Op.p1, i), ComAt(Op.p2, i), p[1]>> [] OTHER -> << >>
Prf(i, p) == IF Typ \in {"msk", "mul"} THEN [t |-> Typ, good |-> TRUE, st |-> Stmt(i, p), ad |-> Ad] ELSE NoProof
\* a proof exists only for a true statement
Provable(i, a, b) == Typ \in {"msk", "mul"} => a[1] = Due(i)
Ways == {"ok", "v", "ctx"} \cup (IF K = "P" THEN {"m"} ELSE {})
Eph(i) == PtMul(PtG, 1 + (i % 4))
Pop(i) == PtMul(PtH, 1 + (i % 4))
Ctx(i, j) == EncCtx(K, i, j, Ad, Pk(j), Eph(i), PtMul(Eph(i), Sk(j)))
MkDeal(i, a, b, w) ==
  LET p == IF K = "S" THEN ComS(a, T) ELSE ComP(a, b, T) IN
  [k |-> K, p |-> p, ck |-> K, eph |-> Eph(i), pop |-> Pop(i), popctx |-> PopCtx(K, Ad, i, Eph(i), Pop(i)), prf |-> Prf(i, p),
   ct |-> [j \in 1..N |-> LET v == Eval(a, NodeSc(j - 1)) m == IF K = "P" THEN Eval(b, NodeSc(j - 1)) ELSE 0 IN
      CASE w[j - 1] = "ok" -> [ctx |-> Ctx(i, j - 1), v |-> v, m |-> m]
        [] w[j - 1] = "v" -> [ctx |-> Ctx(i, j - 1), v |-> ScAdd(v, 1), m |-> m]
        [] w[j - 1] = "m" -> [ctx |-> Ctx(i, j - 1), v |-> v, m |-> ScAdd(m, 1)]
        [] w[j - 1] = "ctx" -> [ctx |-> Ctx(i, (j % N)), v |-> v, m |-> m]]]
AllOk == [j \in Nodes |-> "ok"]
HPoly(i) == IF Typ = "rand" THEN <<2, 3>> ELSE <<Due(i), 3>>
HD(i) == MkDeal(i, HPoly(i), <<1, 4>>, AllOk)
AdvPolys == {<<a, c>> : a \in (IF Typ = "rand" THEN {0, 3} ELSE {Due(Adv), ScAdd(Due(Adv), 1)}), c \in (IF Wide THEN {0, 2, 3} ELSE {2})}

VARIABLES bad,      \* the dishonest dealing
          sup,      \* honest nodes that support it
          tr,       \* the transcript, or not yet
          share,    \* node -> its opening of the transcript, or Bad
          comps,    \* complaints posted: <<complainer, dealer, complaint>>
          okd,      \* <<node, complaint>> pairs accepted
          revl      \* openings revealed: <<opener, dealer, opening>>
vars == <<bad, sup, tr, share, comps, okd, revl>>
DOf(i) == IF i = Adv THEN bad ELSE HD(i)
Ds == [j \in 1..Len(Dealers) |-> <<Dealers[j], DOf(Dealers[j])>>]
Dec(i, d) == DecOpen(DOf(d), Ad, d, i, Sk(i), Pk(i))
NotYet == [ok |-> FALSE, t |-> << >>]
Init == /\ \E a \in AdvPolys, b \in (IF K = "P" THEN (IF Wide THEN {<<0, 0>>, <<2, 1>>} ELSE {<<2, 1>>}) ELSE {<<0, 0>>}), w \in [Nodes -> Ways] :
             w[Adv] = "ok" /\ Provable(Adv, a, b) /\ bad = MkDeal(Adv, a, b, w)
        /\ sup = {} /\ tr = NotYet /\ share = [i \in Honest |-> Bad] /\ comps = {} /\ okd = {} /\ revl = {}
Support(i) == /\ ~tr.ok /\ i \notin sup /\ PubOk(bad, Op, T, Adv, N, Ad) /\ Dec(i, Adv).ok
              /\ sup' = sup \cup {i} /\ UNCHANGED <<bad, tr, share, comps, okd, revl>>
Build == /\ ~tr.ok /\ Cardinality(sup) + 1 >= 3
         /\ \A j \in 1..Len(Ds) : PubOk(Ds[j][2], Op, T, Ds[j][1], N, Ad)
         /\ tr' = Transcript(Op, T, Ds) /\ UNCHANGED <<bad, sup, share, comps, okd, revl>>
\* a node loads its share, or complains
Load(i) == /\ tr.ok /\ ~share[i].ok
           /\ LET none == [j \in 1..Len(Ds) |-> [has |-> FALSE]]
                  r == OpenShare(tr.t, Ds, none, Ad, i, Sk(i), Pk(i)) IN
              IF r.ok THEN share' = [share EXCEPT ![i] = r] /\ UNCHANGED comps
              ELSE LET l == BadDealers(Ds, Ad, i, Sk(i), Pk(i)) IN
                   /\ l # << >>
                   /\ comps' = comps \cup {<<i, l[j][1], Complaint(l[j][2], l[j][1], i, Sk(i), Pk(i), Ad)>> : j \in 1..Len(l)}
                   /\ UNCHANGED share
           /\ UNCHANGED <<bad, sup, tr, okd, revl>>
\* the dishonest node knows its own key only: it complains about anything, truthfully or with another shared secret
Lie == /\ tr.ok /\ ~\E c \in comps : c[1] = Adv
       /\ \E d \in {Dealers[j] : j \in 1..Len(Dealers)}, f \in {"plain", "ss", "reuse"} :
            LET c == Complaint(DOf(d), d, Adv, Sk(Adv), Pk(Adv), Ad)
                x == CASE f = "plain" -> {c}
                       [] f = "ss" -> {[c EXCEPT !.ss = PtAdd(@, PtG)], [c EXCEPT !.ss = PtAdd(@, PtG), !.ss0 = PtAdd(@, PtG), !.good = FALSE]}
                       [] f = "reuse" -> {y[3] : y \in comps} IN
            \E y \in x : comps' = comps \cup {<<Adv, d, y>>}
       /\ UNCHANGED <<bad, sup, tr, share, okd, revl>>
\* an honest node checks a complaint and, if it holds, reveals its opening of that dealing
Check(j) == \E c \in comps :
   /\ <<j, c>> \notin okd /\ c[1] # j
   /\ CompOk(c[3], DOf(c[2]), c[2], c[1], Pk(c[1]), Ad)
   /\ okd' = okd \cup {<<j, c>>}
   /\ revl' = IF Dec(j, c[2]).ok THEN revl \cup {<<j, c[2], Dec(j, c[2]).o>>} ELSE revl
   /\ UNCHANGED <<bad, sup, tr, share, comps>>
AdvReveal == /\ tr.ok /\ ~\E r \in revl : r[1] = Adv
             /\ \E o \in {Opening(K, 0, 0), Opening(K, Eval(<<1, 2>>, 3), 1)} : revl' = revl \cup {<<Adv, Adv, o>>}
             /\ UNCHANGED <<bad, sup, tr, share, comps, okd>>
Rebuild(i) == /\ tr.ok /\ ~share[i].ok
              /\ \E x, y \in {r \in revl : r[2] = Adv} :
                   /\ x[1] < y[1]
                   /\ LET given == [j \in 1..Len(Ds) |-> IF Ds[j][1] = Adv THEN [has |-> TRUE, l |-> <<<<x[1], x[3]>>, <<y[1], y[3]>>>>] ELSE [has |-> FALSE]]
                          r == OpenShare(tr.t, Ds, given, Ad, i, Sk(i), Pk(i)) IN
                      r.ok /\ share' = [share EXCEPT ![i] = r]
              /\ UNCHANGED <<bad, sup, tr, comps, okd, revl>>
Next == \/ \E i \in Honest : Support(i) \/ Load(i) \/ Check(i) \/ Rebuild(i)
        \/ Build \/ Lie \/ AdvReveal
Fair == /\ WF_vars(Build) /\ \A i \in Honest : WF_vars(Load(i)) /\ WF_vars(Check(i)) /\ WF_vars(Rebuild(i))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

Secret == LET c == ConstTerm(tr.t) IN Opening(K, c[1], c[2])
Agreement == \A i \in Honest : share[i].ok =>
   /\ OpensAt(tr.t, i, share[i].o)
   /\ \A j \in Honest : (share[j].ok /\ i < j) =>
        LET xs == <<NodeSc(i), NodeSc(j)>> IN
        /\ InterpSc(xs, <<share[i].o.v, share[j].o.v>>, 0) = Secret.v
        /\ K = "P" => InterpSc(xs, <<share[i].o.m, share[j].o.m>>, 0) = Secret.m
\* an operation on an old secret keeps it (or multiplies it), whatever the dishonest dealer does
Kept == tr.ok => CASE Typ = "rand" -> TRUE
                   [] Typ \in {"unm", "msk"} -> Secret.v = PA[1]
                   [] Typ = "mul" -> Secret.v = ScMul(PA[1], PB[1])
HonestSafe == \A x \in okd : x[2][2] = Adv /\ ~Dec(x[2][1], Adv).ok
Private == \A r \in revl : r[1] \in Honest => r[2] = Adv /\ \E x \in okd : x[1] = r[1]
\* whoever cannot load its share has a complaint that all others accept
Complete == \A c \in comps : c[1] \in Honest => CompOk(c[3], DOf(c[2]), c[2], c[1], Pk(c[1]), Ad)
\* the transcript is the same in whatever order its dealings are listed
Order == tr.ok => tr = Transcript(Op, T, [j \in 1..Len(Ds) |-> Ds[Len(Ds) + 1 - j]])
HonestPub == \A j \in 1..Len(Dealers) : Dealers[j] # Adv => PubOk(HD(Dealers[j]), Op, T, Dealers[j], N, Ad) /\ \A i \in Nodes : Dec(i, Dealers[j]).ok
Inv == Agreement /\ Kept /\ HonestSafe /\ Private /\ Complete /\ Order /\ HonestPub
Done == tr.ok ~> \A i \in Honest : share[i].ok
\* flaws put in place of operators of the protocol by IdkgMC_flaw*.cfg: the invariants notice them
LaxCompOk(c, d, dealer, i, pk, ad) ==   \* a complaint's shared secret is not proven
  /\ c.eph = d.eph /\ c.pk0 = pk /\ c.ad = ad /\ c.i = i /\ c.dealer = dealer /\ c.pk = pk
  /\ LET x == Plain(d, ad, dealer, i, pk, c.ss) IN x.st = "noise" \/ (x.st = "plain" /\ ~OpensAt(d, i, Opening(d.ck, x.v, x.m)))
LaxOpReq(d, op, dealer, ad) == TRUE     \* what the dealing commits to is not compared with what the dealer holds
Unproven(i, a, b) == TRUE
=============================================================================
