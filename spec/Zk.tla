--------------------------------- MODULE Zk ---------------------------------
(***************************************************************************)
(* The three sigma protocols: equal discrete logarithms ("dleq"), equal    *)
(* openings of a simple and a Pedersen commitment ("eq"), product of       *)
(* committed values ("prod").  A proof is <<challenge, response...>>.      *)
(***************************************************************************)
EXTENDS Signing
CONSTANT PtSub(_, _)
\* a statement as a sequence of points, from a witness
ZStmt(t, w, g, h) ==
  CASE t = "dleq" -> <<g, h, PtMul(g, w[1]), PtMul(h, w[1])>>
    [] t = "eq" -> <<Com2(w[1], w[2]), Com1(w[1])>>
    [] t = "prod" -> <<Com1(w[1]), Com2(w[2], w[3]), Com2(w[4], w[5])>>
\* the commitments a proof stands for
ZRec(t, st, p) ==
  CASE t = "dleq" -> <<PtSub(PtMul(st[1], p[2]), PtMul(st[3], p[1])), PtSub(PtMul(st[2], p[2]), PtMul(st[4], p[1]))>>
    [] t = "eq" -> <<PtSub(PtMul(PtH, p[2]), PtMul(PtSub(st[1], st[2]), p[1]))>>
    [] t = "prod" -> <<PtSub(PtMul(PtG, p[2]), PtMul(st[1], p[1])), PtSub(PtAdd(PtMul(st[2], p[2]), PtMul(PtH, p[3])), PtMul(st[3], p[1]))>>
ZTrue(t, w) == t = "prod" => w[4] = ScMul(w[1], w[2])
\* the honest prover: commitments to nonces k, responses to challenge c
ZCom(t, st, k) == ZRec(t, st, <<ScZero>> \o k)
ZSecrets(t, w) == CASE t = "dleq" -> <<w[1]>> [] t = "eq" -> <<w[2]>> [] t = "prod" -> <<w[1], ScSub(w[5], ScMul(w[1], w[3]))>>
ZProof(t, w, k, c) == <<c>> \o [i \in 1..Len(k) |-> ScAdd(k[i], ScMul(c, ZSecrets(t, w)[i]))]
\* what two proofs for one commitment and different challenges give away, and what it shows
ZExtract(p, q) == [i \in 1..(Len(p) - 1) |-> ScMul(ScSub(p[i + 1], q[i + 1]), ScInv(ScSub(p[1], q[1])))]
ZHolds(t, st, x) ==
  CASE t = "dleq" -> st[3] = PtMul(st[1], x[1]) /\ st[4] = PtMul(st[2], x[1])
    [] t = "eq" -> PtSub(st[1], st[2]) = PtMul(PtH, x[1])
    [] t = "prod" -> st[1] = PtMul(PtG, x[1]) /\ st[3] = PtAdd(PtMul(st[2], x[1]), PtMul(PtH, x[2]))
=============================================================================
