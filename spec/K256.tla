-------------------------------- MODULE K256 --------------------------------
(***************************************************************************)
(* The concrete algebra: the secp256k1 group, its scalar field (mod n) and *)
(* its base field (mod p), byte strings, and the primitives the protocol   *)
(* treats as black boxes.  Every operator with a body FALSE/"" below is    *)
(* evaluated by the TLC override java/K256.java (java.math.BigInteger).    *)
(*                                                                         *)
(* Scalars and field elements are 32-byte big-endian hex strings, points   *)
(* are 33-byte SEC 1 compressed hex strings (all zero for the identity),   *)
(* byte strings are hex strings.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

ScDec(d) == ""        \* scalar of a decimal string (may be negative)
ScRed(h) == ""        \* big-endian bytes of any length, modulo n
ScAdd(a, b) == ""
ScSub(a, b) == ""
ScMul(a, b) == ""
ScNeg(a) == ""
ScInv(a) == ""        \* 0 for 0
ScHigh(a) == FALSE    \* a > floor(n / 2)
ScCanon(h) == FALSE   \* 32 bytes below n

FeRed(h) == ""
FeAdd(a, b) == ""
FeSub(a, b) == ""
FeMul(a, b) == ""
FeNeg(a) == ""
FeInv(a) == ""        \* 0 for 0
FeIsSq(a) == FALSE
FeSqrt(a) == ""       \* a^((p+1)/4)
FeOdd(a) == FALSE
FeCanon(h) == FALSE

PtOk(p) == FALSE      \* identity, or a compressed encoding of a curve point
PtAdd(p, q) == ""
PtNeg(p) == ""
PtMul(p, k) == ""
PtX(p) == ""
PtY(p) == ""
PtXY(x, y) == ""
OnCurve(x, y) == FALSE

HLen(a) == 0
HCat(a, b) == ""
HSub(a, i, j) == ""   \* bytes i .. j-1
HByte(a, i) == 0
HXor(a, b) == ""
HRep(a, k) == ""
HNum(d, k) == ""      \* decimal string as k bytes, big endian
HRev(a) == ""
HAscii(a) == ""
HCmp(a, b) == 0
HIsZero(a) == FALSE

Sha256(a) == ""
HmacSha512(k, a) == ""
ChaCha20(k, n) == ""
PtMSum(ps, ks) == ""   \* sum of k_i * p_i

\* ------------------------------------------------------------- derived ---
RECURSIVE HCatAll(_)
HCatAll(s) == IF s = << >> THEN "" ELSE HCat(Head(s), HCatAll(Tail(s)))

ScZero == "0000000000000000000000000000000000000000000000000000000000000000"
ScOne  == "0000000000000000000000000000000000000000000000000000000000000001"
PtId   == "000000000000000000000000000000000000000000000000000000000000000000"
PtG    == "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
PtH    == "037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59"
PtSub(p, q) == PtAdd(p, PtNeg(q))
NodeSc(i) == ScAdd(ScDec(i), ScOne)   \* the evaluation point of node i
=============================================================================
