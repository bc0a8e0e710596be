------------------------------ MODULE Signing ------------------------------
(***************************************************************************)
(* Threshold ECDSA signing from five transcripts: the key (unmasked x),    *)
(* the presignature (unmasked kappa), and masked lambda, kappa*lambda,     *)
(* x*lambda.  ctx supplies e (the hash as a scalar), tweak, rz (the        *)
(* randomiser) and rho (the x-coordinate of kappa*G + rz*G).               *)
(***************************************************************************)
EXTENDS Idkg
CONSTANTS ScNeg(_), ScHigh(_), PtXSc(_)   \* x-coordinate as a scalar
Theta(c) == ScAdd(c.e, ScMul(c.rho, c.tweak))
\* shares are [num, den], both Pedersen openings
ShareNum(c, lam, xl) == [k |-> "P", v |-> ScAdd(ScMul(Theta(c), lam.v), ScMul(c.rho, xl.v)), m |-> ScAdd(ScMul(Theta(c), lam.m), ScMul(c.rho, xl.m))]
ShareDen(c, lam, kl) == [k |-> "P", v |-> ScAdd(ScMul(c.rz, lam.v), kl.v), m |-> ScAdd(ScMul(c.rz, lam.m), kl.m)]
ShareOk(c, s, i, tlam, tkl, txl) ==
  /\ s.num.k = "P" /\ s.den.k = "P"
  /\ PtAdd(PtMul(ComAt(tlam, i), Theta(c)), PtMul(ComAt(txl, i), c.rho)) = Com2(s.num.v, s.num.m)
  /\ PtAdd(PtMul(ComAt(tlam, i), c.rz), ComAt(tkl, i)) = Com2(s.den.v, s.den.m)
\* ss: sequence of <<signer index, share>>
Combine(c, ss) ==
  LET l == Lag(DXs(ss), ScZero)
      n == SumSc([j \in 1..Len(ss) |-> ScMul(l[j], ss[j][2].num.v)])
      d == SumSc([j \in 1..Len(ss) |-> ScMul(l[j], ss[j][2].den.v)])
      s == ScMul(n, ScInv(d))
  IN [r |-> c.rho, s |-> IF ScHigh(s) THEN ScNeg(s) ELSE s]
\* the standard ECDSA equation for public key q
EcdsaPoint(e, r, s, q) == LET si == ScInv(s) IN PtAdd(PtMul(PtG, ScMul(e, si)), PtMul(q, ScMul(r, si)))
Ecdsa(e, r, s, q) == /\ r # ScZero /\ s # ScZero
                     /\ LET p == EcdsaPoint(e, r, s, q) IN p # PtId /\ PtXSc(p) = r
=============================================================================
