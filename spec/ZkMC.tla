-------------------------------- MODULE ZkMC --------------------------------
(***************************************************************************)
(* The sigma protocols over a small field.                                 *)
(*   Complete    a proof made from a witness stands for its commitments    *)
(*   Sound       two proofs with the same commitments and different        *)
(*               challenges give a witness of the statement -- for every   *)
(*               statement, true or not; hence a false one can be proven   *)
(*               for at most one challenge                                 *)
(*   Hidden      the honest proofs for a challenge are, over all nonces,   *)
(*               exactly those a simulator makes without the witness       *)
(***************************************************************************)
EXTENDS SmallField
CONSTANTS Typ, Many   \* type of proof; more base points
Bases == {<<0, 1>>, <<2, Q - 2>>} \cup IF Many THEN {PtId, PtG, <<Q - 2, Q - 2>>, <<Q - 1, 0>>} ELSE {}
VARIABLES w, st, n
vars == <<w, st, n>>
Pts == F \X F
WLen == CASE Typ = "dleq" -> 1 [] Typ = "eq" -> 2 [] Typ = "prod" -> 5
KLen == IF Typ = "prod" THEN 2 ELSE 1
Init == n = 0 /\ w = << >> /\ st = << >>
\* a true statement from a witness
TrueSt == n = 0 /\ n' = 1 /\ w' \in {v \in SeqN(F, WLen) : ZTrue(Typ, v)} /\ UNCHANGED st
TrueSt2 == n = 1 /\ n' = 2 /\ \E g \in {PtG, PtH}, h \in Bases : st' = ZStmt(Typ, w, g, h) /\ UNCHANGED w
\* any statement
AnySt == n = 0 /\ n' = 3 /\ st' \in (CASE Typ = "dleq" -> {<<PtG, h, a, b>> : h \in Bases, a, b \in Pts}
                                     [] Typ = "eq" -> Pts \X Pts
                                     [] Typ = "prod" -> {<<a, b, c>> : a, c \in Pts, b \in Bases}) /\ UNCHANGED w
Next == TrueSt \/ TrueSt2 \/ AnySt
Spec == Init /\ [][Next]_vars
Complete == n = 2 => \A c \in F, k \in SeqN(F, KLen) : ZRec(Typ, st, ZProof(Typ, w, k, c)) = ZCom(Typ, st, k) /\ ZHolds(Typ, st, ZSecrets(Typ, w))
Sound == n = 3 => \A k \in SeqN({0, 2}, KLen), c, d \in F, r \in SeqN(F, KLen) :
   LET p == <<c>> \o k  q == <<d>> \o r IN
   (c # d /\ ZRec(Typ, st, p) = ZRec(Typ, st, q)) => ZHolds(Typ, st, ZExtract(p, q))
Hidden == n = 2 => \A c \in F : {<<ZCom(Typ, st, k), ZProof(Typ, w, k, c)>> : k \in SeqN(F, KLen)} = {<<ZRec(Typ, st, <<c>> \o r), <<c>> \o r>> : r \in SeqN(F, KLen)}
=============================================================================
