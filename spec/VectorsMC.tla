----------------------------- MODULE VectorsMC -----------------------------
(***************************************************************************)
(* The arithmetic under the specification (java/K256.java), against        *)
(* published vectors (FIPS 180, RFC 4231, RFC 8439, RFC 9380, BIP 32,      *)
(* SEC 2) and against the laws of a field and a group, on a walk through   *)
(* pseudo-random values.                                                   *)
(***************************************************************************)
EXTENDS ProtoSpec, HashSpec
CONSTANT Steps
Quux(s) == HAscii("QUUX-V01-CS02-with-" \o s)
H2cDst == Quux("secp256k1_XMD:SHA-256_SSWU_RO_")
XmdDst == Quux("expander-SHA256-128")
ASSUME Sha256(HAscii("abc")) = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
ASSUME Sha256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
ASSUME HmacSha512(HAscii("Jefe"), HAscii("what do ya want for nothing?")) =
  HCat("164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea250554", "9758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737")
ASSUME ChaCha20(HRep("00", 32), 64) = HCat("76b8e0ada0f13d90405d6ae55386bd28bdd219b8a08ded1aa836efcc8b770dc7", "da41597c5157488d7724e03fb8d84a376a43b8f41518a11cc387b669b2ee6586")
ASSUME ChaCha20(HRep("00", 32), 33) = HSub(ChaCha20(HRep("00", 32), 500), 0, 33)
ASSUME Xmd("", XmdDst, 32) = "68a985b87eb6b46952128911f2a4412bbc302a9d759667f87f7a21d803f07235"
ASSUME Xmd(HAscii("abc"), XmdDst, 32) = "d8ccab23b5985ccea865c6c97b6e5b8350e794e603b4b97902f53a8a0d605615"
ASSUME HashPoint("", H2cDst) = PtXY("c1cae290e291aee617ebaef1be6d73861479c48b841eaba9b7b5852ddfeb1346", "64fa678e07ae116126f08b022a94af6de15985c996c3a91b64c406a960e51067")
ASSUME HashPoint(HAscii("abc"), H2cDst) = PtXY("3377e01eab42db296b512293120c6cee72b6ecf9f9205760bd9ff11fb3cb2c4b", "7f95890f33efebd1044d382a01b1bee0900fb6116f94688d487c6c7b9c8371f6")
Step32(k, c, i) == Ckd(k, c, ScZero, <<i>>)
Bip(k, c, i, k2, c2) == LET d == Step32(k, c, i) IN d.key = k2 /\ d.chain = c2 /\ PtAdd(k, PtMul(PtG, d.tweak)) = k2
ASSUME Bip("035a784662a4a20a65bf6aab9ae98a6c068a81c52e4b032c0fb5400c706cfccc56", "47fdacbd0f1097043b78c63c20c34ef4ed9a111d980047ad16282c7ae6236141", "00000001",
           "03501e454bf00751f24b1b489aa925215d66af2234e3891c3b21a52bedb3cd711c", "2a7857631386ba23dacac34180dd1983734e444fdbf774041578e9b6adb37c19")
ASSUME Bip("0357bfe1e341d01c69fe5654309956cbea516822fba8a601743a012a7896ee8dc2", "04466b9cc8e161e966409ca52986c584f07e9dc81f735db683c3ff6ec7b1503f", "00000002",
           "02e8445082a72f29b75ca48748a914df60622a609cacfce8ed0e35804560741d29", "cfb71883f01676f587d023cc53a35bc7f88f724b1f8c2892ac1275ac822a3edd")
ASSUME Bip("02e8445082a72f29b75ca48748a914df60622a609cacfce8ed0e35804560741d29", "cfb71883f01676f587d023cc53a35bc7f88f724b1f8c2892ac1275ac822a3edd", "3b9aca00",
           "022a471424da5e657499d1ff51cb43c47481a03b1e77f951fe64cec9f5a48f7011", "c783e67b921d2beb8f6b389cc646d7263b4145701dadd2161548a8b078e65e9e")
ASSUME Bip("03cbcaa9c98c877a26977d00825c956a238e8dddfbd322cce4f74b0b5bd6ace4a7", "60499f801b896d83179a4374aeb7822aaeaceaa0db1f85ee3e904c4defbd9689", "00000000",
           "02fc9e5af0ac8d9b3cecfe2a888e2117ba3d089d8585886c9c826b6b22a98d12ea", "f0909affaa7ee7abe5dd4e100598d4dc53cd709d5a5c2cac40e7412f232f7c9c")
\* the generator: 2G, the order
ASSUME PtAdd(PtG, PtG) = "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5" /\ PtMul(PtG, ScDec("2")) = PtAdd(PtG, PtG)
ASSUME PtMul(PtG, ScNeg(ScOne)) = PtNeg(PtG) /\ PtAdd(PtMul(PtG, ScNeg(ScOne)), PtG) = PtId /\ PtOk(PtH) /\ PtOk(PtId)
ASSUME ScDec("115792089237316195423570985008687907852837564279074904382605163141518161494337") = ScZero /\ ScNeg(ScZero) = ScZero
ASSUME ScInv(ScZero) = ScZero /\ FeInv(ScZero) = ScZero /\ ~ScHigh(ScZero) /\ ScHigh(ScNeg(ScOne)) /\ ~ScHigh(ScMul(ScNeg(ScOne), ScInv(ScDec("2"))))
           /\ ScHigh(ScAdd(ScMul(ScNeg(ScOne), ScInv(ScDec("2"))), ScOne))

VARIABLE i
Init == i = 0
Next == i < Steps /\ i' = i + 1
Spec == Init /\ [][Next]_i
Rnd(l) == Sha256(HAscii(ToString(i) \o l))
\* among them the corners
a == CASE i = 0 -> ScZero [] i = 1 -> ScOne [] i = 2 -> ScNeg(ScOne) [] OTHER -> ScRed(Rnd("a"))
b == IF i % 7 = 3 THEN a ELSE IF i % 7 = 4 THEN ScNeg(a) ELSE ScRed(Rnd("b"))
c == ScRed(Rnd("c"))
FieldLaws == /\ ScMul(a, ScAdd(b, c)) = ScAdd(ScMul(a, b), ScMul(a, c)) /\ ScMul(a, ScMul(b, c)) = ScMul(ScMul(a, b), c) /\ ScMul(a, b) = ScMul(b, a)
             /\ ScSub(a, b) = ScAdd(a, ScNeg(b)) /\ ScAdd(ScSub(a, b), b) = a /\ (a # ScZero => ScMul(a, ScInv(a)) = ScOne)
             /\ (a # ScZero => ScHigh(a) # ScHigh(ScNeg(a))) /\ ScCanon(a) /\ ScRed(a) = a
f == FeRed(Rnd("f"))  g == FeRed(Rnd("g"))  h == FeRed(Rnd("h"))
FieldLawsFe == /\ FeMul(f, FeAdd(g, h)) = FeAdd(FeMul(f, g), FeMul(f, h)) /\ FeMul(f, FeMul(g, h)) = FeMul(FeMul(f, g), h) /\ FeSub(f, g) = FeAdd(f, FeNeg(g))
               /\ (f # ScZero => FeMul(f, FeInv(f)) = ScOne) /\ FeIsSq(FeMul(f, f))
               /\ LET r == FeSqrt(FeMul(f, f)) IN r \in {f, FeNeg(f)} /\ (FeIsSq(g) = (FeMul(FeSqrt(g), FeSqrt(g)) = g)) /\ (FeIsSq(g) # FeIsSq(FeNeg(g)))
P == PtMul(PtG, a)  R0 == PtMul(PtH, b)  S == PtMul(PtG, c)
GroupLaws == /\ PtAdd(P, R0) = PtAdd(R0, P) /\ PtAdd(PtAdd(P, R0), S) = PtAdd(P, PtAdd(R0, S)) /\ PtAdd(P, PtNeg(P)) = PtId /\ PtAdd(P, PtId) = P
             /\ PtMul(P, b) = PtMul(PtG, ScMul(a, b)) /\ PtMul(R0, ScAdd(a, c)) = PtAdd(PtMul(R0, a), PtMul(R0, c)) /\ PtMul(PtAdd(P, R0), c) = PtAdd(PtMul(P, c), PtMul(R0, c))
             /\ PtOk(P) /\ PtOk(R0) /\ (a # ScZero => OnCurve(PtX(P), PtY(P)) /\ PtXY(PtX(P), PtY(P)) = P)
             /\ PtMSum(<<P, R0, S>>, <<c, a, b>>) = PtAdd(PtAdd(PtMul(P, c), PtMul(R0, a)), PtMul(S, b))
             /\ LET p == MapCurve(f) IN PtOk(p) /\ p # PtId
\* derivation: along a path is along its parts, and the tweak is the difference of the keys
Path == [j \in 1..(i % 4) |-> HSub(Rnd(ToString(j)), 0, (i + j) % 6)]
Derivation == a # ScZero =>
  LET d == Derived(P, Path) IN
  /\ d.key = PtAdd(P, PtMul(PtG, d.tweak))
  /\ \A m \in 0..Len(Path) : LET e == Derived(P, SubSeq(Path, 1, m)) IN Ckd(e.key, e.chain, e.tweak, SubSeq(Path, m + 1, Len(Path))) = d
\* a signature made the textbook way verifies
SigLaw == (a # ScZero /\ c # ScZero) =>
  LET r == PtXSc(S)  s == ScMul(ScInv(c), ScAdd(b, ScMul(r, a))) IN s # ScZero => Ecdsa(b, r, s, P) /\ Ecdsa(b, r, ScNeg(s), P) /\ ~Ecdsa(ScAdd(b, ScOne), r, s, P)
=============================================================================
