------------------------------ MODULE ShamirK ------------------------------
(* The generic modules over secp256k1; node indices are decimal strings.   *)
EXTENDS Util
IdxPos(i, n) == IF \E j \in 1..n : ToString(j - 1) = i THEN CHOOSE j \in 1..n : ToString(j - 1) = i ELSE 0
PtXSc(p) == ScRed(PtX(p))
INSTANCE Zk
=============================================================================
