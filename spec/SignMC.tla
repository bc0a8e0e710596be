------------------------------- MODULE SignMC -------------------------------
(***************************************************************************)
(* Threshold signing over a small field: for every key, presignature,      *)
(* lambda, hash, tweak, randomiser and sharing polynomials (threshold two, *)
(* three nodes), walked one choice after another.                          *)
(*   Quorums    every two or three signers produce the one signature       *)
(*   Valid      it satisfies the ECDSA equation for the derived key, and s *)
(*              is not high                                                *)
(*   Only       of all pairs (r, s) with this r only s and -s satisfy the  *)
(*              equation, and only one of them is not high                 *)
(*   Shares     an honest share is accepted, and no other pair of openings *)
(*              is                                                         *)
(***************************************************************************)
EXTENDS SmallField
CONSTANTS Es, Tweaks, Rzs, Slopes
VARIABLES x, kap, lam,       \* key, presignature, lambda
          c,                 \* context [e, tweak, rz, rho]
          f,                 \* slopes of the sharings of lam, kap*lam, x*lam
          n                  \* choices made
vars == <<x, kap, lam, c, f, n>>
T == 2
Nodes == <<0, 1, 2>>
Init == x = 0 /\ kap = 0 /\ lam = 0 /\ c = [e |-> 0, tweak |-> 0, rz |-> 0, rho |-> 0] /\ f = <<0, 0, 0>> /\ n = 0
Step1 == n = 0 /\ n' = 1 /\ x' \in F /\ kap' \in F /\ lam' \in F /\ UNCHANGED <<c, f>>
Step2 == n = 1 /\ n' = 2 /\ UNCHANGED <<x, kap, lam, f>>
         /\ \E e \in Es, t \in Tweaks, z \in Rzs : c' = [e |-> e, tweak |-> t, rz |-> z, rho |-> PtXSc(PtMul(PtG, ScAdd(kap, z)))]
Step3 == n = 2 /\ n' = 3 /\ f' \in Slopes \X Slopes \X Slopes /\ UNCHANGED <<x, kap, lam, c>>
Next == Step1 \/ Step2 \/ Step3
Spec == Init /\ [][Next]_vars
PL == <<lam, f[1]>>   PK == <<ScMul(kap, lam), f[2]>>   PX == <<ScMul(x, lam), f[3]>>
ML == <<1, 2>>  MK == <<0, 3>>  MX == <<4, 1>>          \* masks
Tr(p, m) == [cls |-> "int", k |-> "P", p |-> ComP(p, m, T)]
Op(p, m, i) == Opening("P", Eval(p, NodeSc(i)), Eval(m, NodeSc(i)))
Sh(i) == [num |-> ShareNum(c, Op(PL, ML, i), Op(PX, MX, i)), den |-> ShareDen(c, Op(PL, ML, i), Op(PK, MK, i))]
Quor == {<<0, 1>>, <<1, 2>>, <<2, 0>>, <<0, 1, 2>>}
Sig(q) == Combine(c, [j \in 1..Len(q) |-> <<q[j], Sh(q[j])>>])
Key == PtMul(PtG, ScAdd(x, c.tweak))
Nonce == ScAdd(kap, c.rz)
Quorums == n = 3 => \A q \in Quor : Sig(q) = Sig(<<0, 1>>)
Valid == n = 3 => LET s == Sig(<<0, 1>>).s IN
   (lam # 0 /\ Nonce # 0 /\ s # 0) => Ecdsa(c.e, c.rho, s, Key) /\ ~ScHigh(s) /\ Sig(<<0, 1>>).r = c.rho
\* s is zero only if the hash and the key cancel
Zero == n = 3 => LET s == Sig(<<0, 1>>).s IN (lam # 0 /\ Nonce # 0) => ((s = 0) = (ScAdd(c.e, ScMul(c.rho, ScAdd(x, c.tweak))) = 0))
Only == n = 3 /\ lam # 0 /\ Nonce # 0 => LET s == Sig(<<0, 1>>).s IN s # 0 =>
   \A z \in F : Ecdsa(c.e, c.rho, z, Key) = (z \in {s, ScNeg(s)})
Tl == Tr(PL, ML)   Tk == Tr(PK, MK)   Tx == Tr(PX, MX)
Shares == n = 3 => \A i \in {0, 2} :
   /\ ShareOk(c, Sh(i), i, Tl, Tk, Tx)
   /\ \A a, b \in F : LET o == [k |-> "P", v |-> a, m |-> b] IN
        /\ ShareOk(c, [num |-> o, den |-> Sh(i).den], i, Tl, Tk, Tx) = (o = Sh(i).num)
        /\ ShareOk(c, [num |-> Sh(i).num, den |-> o], i, Tl, Tk, Tx) = (o = Sh(i).den)
=============================================================================
