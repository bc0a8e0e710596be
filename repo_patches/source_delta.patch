From 5b4041c92ed89bcfc67d724af2a6208ca78bb804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 01/31] fix: verify signature shares against the transcripts

The openings are held by value, so the pointer type assertions never matched
and every share was accepted; the equation also used kappaTimesLambda for the
keyTimesLambda term and compared the denominator with the numerator.
---
 sign/share.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index d527dc1..2d7de53 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -69,18 +69,18 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	if k, ok := t.sigmaNumerator.(poly2.PedersenCommitmentOpening); !ok {
+		return errors.New("unexpected commitment type")
+	} else if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	if k, ok := t.sigmaDenominator.(poly2.PedersenCommitmentOpening); !ok {
+		return errors.New("unexpected commitment type")
+	} else if sigmaDen.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
 	return nil
 }
-- 
2.43.0


From 7a2cbc550402e684a6c264c0b25cadc5ee444c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:48 +0000
Subject: [PATCH 02/31] fix: compare a transcript with the other one, not with
 itself

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From a27a5eb03a4eae85af270101cc40c3157aa8fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:25 +0000
Subject: [PATCH 03/31] fix: reject a multiplication dealing without proof
 instead of panicking

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..d8c1c07 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -164,7 +164,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 				return errors.New("invalid commitment")
 			}
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From bc3dcd4cbf76fa875c2f473d09850c190748f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 04/31] fix: do not drop random oracle inputs longer than 255
 bytes

The length of an input is framed with four bytes. The limit of 255 made
AddInput refuse longer associated data, randomness and messages, and since the
callers ignore its error these were silently not bound.
---
 ro/ro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..0b83761 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,7 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	if uint64(len(input)) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From 7a30bed422dcaf83a70775863559b9bb184d3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 05/31] fix: use the leftmost 256 bits of longer message
 hashes, as ECDSA does

---
 sign/sign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sign/sign.go b/sign/sign.go
index ffc12c7..6c71447 100644
--- a/sign/sign.go
+++ b/sign/sign.go
@@ -15,6 +15,10 @@ func EcdsaConversion(pt curve.EccPoint) (curve.EccScalar, error) {
 }
 
 func ConvertHashToInteger(hashedMsg []byte, curveType curve.EccCurveType) (curve.EccScalar, error) {
+	// As in ECDSA, only the leftmost bits of a hash longer than the order are used
+	if len(hashedMsg) > curveType.ScalarBytes() {
+		hashedMsg = hashedMsg[:curveType.ScalarBytes()]
+	}
 	return curve.Scalar.FromBytesWide(curveType, hashedMsg)
 }
 
-- 
2.43.0


From fd98ab97694666ba9159ff00b38dea15c35f175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:28 +0000
Subject: [PATCH 06/31] fix: reject point encodings that do not encode a curve
 point

A compressed x without square root silently decoded to the identity, x and y
were reduced modulo p, uncompressed points were not checked to be on the curve,
empty input and unknown tags panicked, and the identity tag decoded to nil.
---
 curve/encode.go     | 12 ++++++++++--
 curve/k256_point.go | 30 +++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..909c9f7 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,15 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed")
+	}
 	tag := Tag(input[0])
+	switch tag {
+	case Identity, CompressedEvenY, CompressedOddY, Uncompressed, Compact:
+	default:
+		return nil, errors.New("point decode failed")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
@@ -233,7 +241,7 @@ func (e EncodePoint32) Coordinates() Coordinates {
 func (e EncodePoint32) X() []byte {
 	var x []byte
 	switch c := e.Coordinates().(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		x = nil
 	case *CompressedCoordinates:
 		x = c.x
@@ -248,7 +256,7 @@ func (e EncodePoint32) X() []byte {
 func (e EncodePoint32) Y() []byte {
 	var y []byte
 	switch c := e.Coordinates().(type) {
-	case *IdentityCoordinates, *CompressedCoordinates, *CompactCoordinates:
+	case IdentityCoordinates, *CompressedCoordinates, *CompactCoordinates:
 		y = nil
 	case *UnCompressedCoordinates:
 		y = c.y
diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..1102f80 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -1,11 +1,13 @@
 package curve
 
 import (
+	"bytes"
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 	"math/bits"
 )
@@ -50,6 +52,11 @@ func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
 	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
 
 	value := k256.K256PointNew()
+	rhs := fp.K256FpNew()
+	value.Arithmetic.RhsEq(rhs, x)
+	if !bytes.Equal(x.BigInt().FillBytes(make([]byte, 32)), xb) || !bytes.Equal(y.BigInt().FillBytes(make([]byte, 32)), yb) || fp.K256FpNew().Square(y).Equal(rhs) != 1 {
+		return nil, errors.New("invalid point, not on the curve")
+	}
 	value.X = x
 	value.Y = y
 	value.Z.SetOne()
@@ -63,24 +70,25 @@ func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
 	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if not, then there is no point with this x
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
-	if wasQr {
-		// fix the sign
-		sigY := int(y.Bytes()[0] & 1)
-		if sigY != sign {
-			y.Neg(y)
-		}
-		value.X = x
-		value.Y = y
-		value.Z.SetOne()
+	if !wasQr || x.BigInt().Cmp(new(big.Int).SetBytes(bytes)) != 0 {
+		return nil, errors.New("invalid point, not on the curve")
+	}
+	// fix the sign
+	sigY := int(y.Bytes()[0] & 1)
+	if sigY != sign {
+		y.Neg(y)
 	}
+	value.X = x
+	value.Y = y
+	value.Z.SetOne()
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
-- 
2.43.0


From c7bbdeb4ba19b31231f305dc2b99e8ae8bed49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 07/31] fix: serialize uncompressed points without panicking

---
 curve/k256_point.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 1102f80..13c85ea 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -167,7 +167,11 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 		choice = 1
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
-	result := make([]byte, 33, 33)
+	size := 33
+	if encode.Len() > size {
+		size = encode.Len()
+	}
+	result := make([]byte, size, size)
 	copy(result[0:encode.Len()], encode.AsBytes())
 	return result
 }
-- 
2.43.0


From 298583b918ca3019e9d74f9acaebaae281c03c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 08/31] fix: strip the curve tag when deserializing tagged
 points and scalars

---
 curve/point.go  | 6 ++++--
 curve/scalar.go | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/curve/point.go b/curve/point.go
index 7848ffa..dcee0f9 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,10 +101,10 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	return p.Deserialize(EccCurveType(bytes[0]), bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
-	if len(bytes) != curve.PointBytes() {
+	if curve != K256 || len(bytes) != curve.PointBytes() {
 		return nil, errors.New("invalid point")
 	}
 
@@ -127,6 +127,8 @@ func (p point) DeserializeAnyFormat(curve EccCurveType, bytes []byte) (pt EccPoi
 	switch curve {
 	case K256:
 		pt, err = K256Point.Deserialize(bytes)
+	default:
+		err = errors.New("unknown curve type")
 	}
 	return pt, err
 }
diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..748d215 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -51,8 +51,9 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	var err error
 	switch EccCurveType(bytes[0]) {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
+		scalar, err = K256Scalar.Deserialize(bytes[1:])
+	default:
+		err = errors.New("unknown curve type")
 	}
 	return scalar, err
 }
@@ -66,6 +67,8 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 	switch curve {
 	case K256:
 		scalar, err = K256Scalar.Deserialize(bytes)
+	default:
+		err = errors.New("unknown curve type")
 	}
 	return scalar, err
 }
-- 
2.43.0


From 7d9b8fef71e2a28301c922ba7e1416ea2bac5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:31 +0000
Subject: [PATCH 09/31] fix: reject scalars that are not 32 bytes long

---
 curve/k256_scalar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..37f3adb 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -21,6 +22,9 @@ type Secp256k1Scalar struct {
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
 	var buf [32]byte
+	if len(bytes) != len(buf) {
+		return nil, errors.New("invalid scalar length")
+	}
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
 	if err != nil {
-- 
2.43.0


From aad18fcc34fb4520a2a67d73ad33f50202b057ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 10/31] fix: make secret shares usable when built from opening
 bytes

ToScalarBytes returned nil, and the unmasked resharing secret was returned by
value, which NewIDkgDealingInternal ignores.
---
 curve/scalar.go           | 1 +
 dealings/secret_shares.go | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/curve/scalar.go b/curve/scalar.go
index 748d215..d031c99 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -122,6 +122,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..00bc6f3 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("unexpected commitment type")
 	}
 	return share, nil
 }
-- 
2.43.0


From 7acf0412f510579149bc25397d647a78eecda554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 11/31] fix: round-trip openings, Pedersen commitments and
 identity points through CBOR

Pedersen openings were tagged as simple ones, Pedersen commitments could not be
deserialized, errors of the inner decoding were ignored, the identity point did
not survive and empty byte strings panicked.
---
 curve/k256_point.go  |  4 ++--
 curve/k256_scalar.go |  3 +++
 poly/commitment.go   | 28 +++++++++++++++++++++++-----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 13c85ea..e37b7e7 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -220,10 +220,10 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	tmp, err := Point.DeserializeTagged(s.CurveType(), bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	s.point = tmp.(*Secp256k1Point).point
 	return nil
 }
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 37f3adb..094d923 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -141,6 +141,9 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
+	if len(bytes) == 0 || bytes[0] != s.CurveType().Tag() {
+		return errors.New("invalid scalar")
+	}
 	tmp, err := K256Scalar.Deserialize(bytes[1:])
 	if err != nil {
 		return err
diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..5516819 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -59,7 +59,12 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 		switch c.CurveType {
 		case curve.K256:
 			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
+			if err := cbor.Unmarshal(c.Message, &o); err != nil {
+				return nil, err
+			}
+			if o == nil || o[0] == nil {
+				return nil, errors.New("invalid opening")
+			}
 			return o, nil
 		}
 
@@ -67,7 +72,12 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 		switch c.CurveType {
 		case curve.K256:
 			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
+			if err := cbor.Unmarshal(c.Message, &o); err != nil {
+				return nil, err
+			}
+			if o == nil || o[0] == nil || o[1] == nil {
+				return nil, errors.New("invalid opening")
+			}
 			return o, nil
 		}
 	}
@@ -102,7 +112,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
@@ -404,20 +414,28 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 		return nil, err
 	}
 	switch c.CommitmentType {
-	case Simple:
+	case Simple, Pedersen:
 		switch c.CurveType {
 		case curve.K256:
 			var ps []*curve.Secp256k1Point
 			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
 				return nil, err
 			}
+			if len(ps) == 0 {
+				return nil, errors.New("invalid commitment")
+			}
 			points := make([]curve.EccPoint, len(ps), len(ps))
 			for i, _ := range points {
+				if ps[i] == nil {
+					return nil, errors.New("invalid commitment")
+				}
 				points[i] = ps[i]
 			}
+			if c.CommitmentType == Pedersen {
+				return &PedersenCommitment{points: points}, nil
+			}
 			return &SimpleCommitment{points: points}, nil
 		}
-	case Pedersen:
 	}
 	return nil, errors.New("invalid commitment")
 
-- 
2.43.0


From 84499819cbfe60c3d5f216d5bc28db1d4ad204b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 12/31] fix: do not commit to a truncated polynomial

NonZeroCoefficients is what bounds the degree when a commitment is created. It
also discounted zeros below the leading coefficient, so that a polynomial of too
high a degree could be accepted and committed to without its leading terms.
---
 poly/poly.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..23b48e3 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -72,13 +72,11 @@ func (p Polynomial) Coeff(idx int) curve.EccScalar {
 	return curve.Scalar.Zero(p.curve)
 }
 
-/// Return the count of non-zero coefficients
+/// Return the count of coefficients up to the last non-zero one
 func (p Polynomial) NonZeroCoefficients() int {
 	zeros := 0
-	for _, c := range p.coefficients {
-		if c.IsZero() == 1 {
-			zeros++
-		}
+	for i := len(p.coefficients) - 1; i >= 0 && p.coefficients[i].IsZero() == 1; i-- {
+		zeros++
 	}
 	return len(p.coefficients) - zeros
 }
-- 
2.43.0


From 4623a8b595f78ff7cda4fdc01bba8e7dab51a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 13/31] fix: multiply the operand, not the receiver, in
 Polynomial.MulScalar

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index 23b48e3..60e7cbe 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -122,7 +122,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
-- 
2.43.0


From 15dbc595bf7757384775f25245c0c9a97d72cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 14/31] fix: interpolate samples of polynomials of lower degree

Once a sample already lay on the interpolated polynomial, the base polynomial
became zero and every further sample was refused.
---
 poly/poly.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index 60e7cbe..44cda70 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -179,8 +179,7 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		poly = poly.Add(poly, Poly.Zero(curveType).MulScalar(base, diff))
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From 7d87813bd38646e4a4b806fb2064a57e635b08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:55 +0000
Subject: [PATCH 15/31] fix: check openings of any type without panicking

An opening of the wrong kind, which a dealer can provoke, panicked the receiver,
and deserialized openings (pointers) panicked or were skipped.
---
 dealings/transcript.go | 11 +++++++++--
 poly/commitment.go     | 18 ++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..0635e80 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -153,7 +153,10 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 			case poly.SimpleCommitmentOpening:
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
-			case poly.PedersenCommitmentOpening:
+			case *poly.SimpleCommitmentOpening:
+				xValues = append(xValues, receiverIndex)
+				values = append(values, o[0])
+			default:
 				err = errors.New("unexpected commitment type")
 				return false
 			}
@@ -181,7 +184,11 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
 				masks = append(masks, o[1])
-			case poly.SimpleCommitmentOpening:
+			case *poly.PedersenCommitmentOpening:
+				xValues = append(xValues, receiverIndex)
+				values = append(values, o[0])
+				masks = append(masks, o[1])
+			default:
 				err = errors.New("unexpected commitment type")
 				return false
 			}
diff --git a/poly/commitment.go b/poly/commitment.go
index 5516819..d64bebb 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -252,8 +252,13 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
-	return s.checkOpening(evalPoint, o[0])
+	switch o := opening.(type) {
+	case SimpleCommitmentOpening:
+		return s.checkOpening(evalPoint, o[0])
+	case *SimpleCommitmentOpening:
+		return s.checkOpening(evalPoint, o[0])
+	}
+	return false
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
 	eval := s.EvaluateAt(evalPoint)
@@ -374,8 +379,13 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
-	return p.checkOpening(evalPoint, o[0], o[1])
+	switch o := opening.(type) {
+	case PedersenCommitmentOpening:
+		return p.checkOpening(evalPoint, o[0], o[1])
+	case *PedersenCommitmentOpening:
+		return p.checkOpening(evalPoint, o[0], o[1])
+	}
+	return false
 }
 
 func (p *PedersenCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar, mask curve.EccScalar) bool {
-- 
2.43.0


From 6d25165ff6c0f632f2bbc4d77ab46174389f2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:56 +0000
Subject: [PATCH 16/31] fix: refuse wide inputs of a length that cannot be
 reduced exactly

More than 64 bytes panicked for scalars and were truncated for field elements.
---
 curve/fe.go     | 11 ++++++++++-
 curve/scalar.go |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/curve/fe.go b/curve/fe.go
index 35277c1..7bdf725 100644
--- a/curve/fe.go
+++ b/curve/fe.go
@@ -1,6 +1,9 @@
 package curve
 
-import "math/big"
+import (
+	"github.com/pkg/errors"
+	"math/big"
+)
 
 var (
 	Field = field{}
@@ -107,6 +110,9 @@ func (f field) SswuC2(curve EccCurveType) EccFieldElement {
 func (f field) FromBytes(curve EccCurveType, bytes []byte) (fe EccFieldElement, err error) {
 	switch curve {
 	case K256:
+		if len(bytes) != curve.FieldBytes() {
+			return nil, errors.New("invalid field element length")
+		}
 		fe, err = K256Field.FromBytes(bytes)
 	}
 	return fe, err
@@ -116,6 +122,9 @@ func (f field) FromBytesWide(curve EccCurveType, bytes []byte) (EccFieldElement,
 	var fe EccFieldElement
 	switch curve {
 	case K256:
+		if len(bytes) > 2*curve.FieldBytes() {
+			return nil, errors.New("invalid field element length")
+		}
 		fe = K256Field.FromBytesWide(bytes)
 	}
 	return fe, nil
diff --git a/curve/scalar.go b/curve/scalar.go
index d031c99..c563681 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -77,6 +77,9 @@ func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, erro
 	var scalar EccScalar
 	switch curve {
 	case K256:
+		if len(bytes) > 2*curve.ScalarBytes() {
+			return nil, errors.New("invalid scalar length")
+		}
 		scalar = K256Scalar.FromWideBytes(bytes)
 
 	}
-- 
2.43.0


From bffb13fee00c04f72ca14f51db79e6e635a1139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 17/31] fix: refuse transcripts of mixed commitment types and
 unknown operations

---
 dealings/transcript.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 0635e80..d6e9297 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -30,6 +30,11 @@ func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitment
 		commitments = append(commitments, dealing.Commitment.Clone())
 		return true
 	})
+	for _, commitment := range commitments {
+		if commitment.Type() != commitmentType {
+			return nil, errors.New("unexpected commitment type")
+		}
+	}
 	coefficients, err := poly.Lagrange.AtZero(curveType, indexes)
 	if err != nil {
 		return nil, err
@@ -118,6 +123,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unknown transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From 4dcc3748b9309b8d76b0cb2968667ffaf6f00d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 18/31] fix: refuse dealings with a negative threshold or of an
 unknown secret type

---
 dealings/dealings.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index d8c1c07..64932cc 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -58,7 +58,7 @@ type IDkgDealingInternal struct {
 }
 
 func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, seed *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealerIndex common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
-	if threshold == 0 || threshold > len(recipients) {
+	if threshold <= 0 || threshold > len(recipients) {
 		return nil, errors.New("invalid threshold")
 	}
 
@@ -113,6 +113,8 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unknown secret share type")
 	}
 
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
-- 
2.43.0


From d1d3ab2f57b2e334122cb33b36a2bbd5ba53839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 19/31] fix: refuse to sign with openings of the wrong type
 instead of panicking

---
 sign/share.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sign/share.go b/sign/share.go
index 2d7de53..93be044 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -29,6 +29,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
 		lambdaValue = l[0]
 		lambdaMask = l[1]
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	var nu poly2.CommitmentOpening
 	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
@@ -37,6 +39,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
 		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
 		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 
 	var mu poly2.CommitmentOpening
@@ -46,6 +50,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
 		muMask = muMask.Add(muMask, k[1])
 		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	return &ThresholdEcdsaSigShareInternal{
 		sigmaNumerator:   nu,
-- 
2.43.0


From 86938a3a405c9b3c46f4e3f426651aaa2135d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:59 +0000
Subject: [PATCH 20/31] fix: decide whether a scalar is high on its value

Field.Cmp compares the Montgomery representations, so signatures were
normalised to the high half of the order about as often as to the low one.
---
 curve/k256_scalar.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 094d923..5755a9f 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -12,7 +12,7 @@ import (
 var (
 	K256Scalar = EccK256Scalar{}
 	GroupOrder = fromHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
-	OrderHalf  = fq.K256FqNew().SetBigInt(new(big.Int).Div(GroupOrder, big.NewInt(2)))
+	OrderHalf  = new(big.Int).Div(GroupOrder, big.NewInt(2))
 )
 
 type EccK256Scalar struct{}
@@ -129,8 +129,7 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
-	return true
+	return s.scalar.BigInt().Cmp(OrderHalf) > 0
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
 	return cbor.Marshal(s.SerializeTagged())
-- 
2.43.0


From e51b81d3c460c0315dfb63d1d879d90783985e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:47 +0000
Subject: [PATCH 21/31] fix: add and subtract points correctly when the
 receiver is the second operand

The underlying library overwrites its receiver with the first operand before it
reads the second one, so p.AddPoints(q, p) returned q+q.
---
 curve/k256_point.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index e37b7e7..3893302 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -110,14 +110,14 @@ func (s Secp256k1Point) CurveType() EccCurveType {
 func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Add(l.point, r.point)
+	s.point = k256.K256PointNew().Add(l.point, r.point)
 	return s
 }
 
 func (s *Secp256k1Point) SubPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Sub(l.point, r.point)
+	s.point = k256.K256PointNew().Sub(l.point, r.point)
 	return s
 }
 
-- 
2.43.0


From 2acbc166516605546d01ee01427103a9d700be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:34 +0000
Subject: [PATCH 22/31] fix: fill buffers with random bytes whatever they
 contained

---
 rand/chacha20.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rand/chacha20.go b/rand/chacha20.go
index 7791a4c..e395142 100644
--- a/rand/chacha20.go
+++ b/rand/chacha20.go
@@ -33,6 +33,9 @@ func (c ChaCha20) Uint64() uint64 {
 }
 
 func (c *ChaCha20) FillUint8(res []uint8) {
+	for i := range res {
+		res[i] = 0
+	}
 	c.cipher.XORKeyStream(res, res)
 }
 
-- 
2.43.0


From a1c9e1d7b5509a40cc6776ec77f65896f6b1c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:34 +0000
Subject: [PATCH 23/31] fix: refuse to expand a message to a negative length

---
 seed/xmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seed/xmd.go b/seed/xmd.go
index 293b8ba..f6ed23d 100644
--- a/seed/xmd.go
+++ b/seed/xmd.go
@@ -10,8 +10,8 @@ const (
 )
 
 func ExpandMessageXmd(msg []byte, domainSeparator []byte, length int) ([]byte, error) {
-	if length > maxLen {
-		return nil, errors.Errorf("Requested XMD output length %d too large (max: %d)", length, maxLen)
+	if length < 0 || length > maxLen {
+		return nil, errors.Errorf("Requested XMD output length %d out of range (max: %d)", length, maxLen)
 	}
 	ell := (length-1)/32 + 1
 
-- 
2.43.0


From 7ab0f67dc85372d82f89d6aea0054eaf88848919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:40 +0000
Subject: [PATCH 24/31] fix: commitments of different kinds are not equal

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index d64bebb..3ae1f63 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -215,7 +215,7 @@ func (s *SimpleCommitment) Len() int {
 	return len(s.points)
 }
 func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
-	if s.Len() != other.Len() {
+	if s.Type() != other.Type() || s.Len() != other.Len() {
 		return 0
 	}
 	for i := range s.points {
@@ -343,7 +343,7 @@ func (p *PedersenCommitment) Len() int {
 	return len(p.points)
 }
 func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
-	if p.Len() != other.Len() {
+	if p.Type() != other.Type() || p.Len() != other.Len() {
 		return 0
 	}
 	for i := range p.points {
-- 
2.43.0


From 42b73cae20d7de8f4c319afb0cd7a54446055142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:55 +0000
Subject: [PATCH 25/31] fix: check the reshared constant whatever form the
 previous commitment has

---
 dealings/dealings.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 64932cc..d340345 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -158,13 +158,8 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		switch c := t.P1.(type) {
-		case *poly2.PedersenCommitment:
-			return errors.New("unexpected commitment type")
-		case *poly2.SimpleCommitment:
-			if c.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
-				return errors.New("invalid commitment")
-			}
+		if t.P1.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
+			return errors.New("invalid commitment")
 		}
 	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
-- 
2.43.0


From 926654f302d043aab8f1d65d534ac8d9fdee3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 26/31] fix: refuse empty commitments instead of panicking

---
 dealings/dealings.go   |  2 +-
 dealings/transcript.go |  3 +++
 poly/commitment.go     | 12 ++++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index d340345..150a06d 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -184,7 +184,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 }
 
 func (dealing IDkgDealingInternal) PrivateVerify(curveType curve.EccCurveType, privateKey *mega.MEGaPrivateKey, publicKey *mega.MEGaPublicKey, ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex) error {
-	if privateKey.CurveType() != curveType || publicKey.CurveType() != curveType || dealing.Commitment.ConstantTerm().CurveType() != curveType {
+	if privateKey.CurveType() != curveType || publicKey.CurveType() != curveType || dealing.Commitment.CurveType() != curveType {
 		return errors.New("curve mismatch")
 	}
 	_, err := dealing.Ciphertext.DecryptAndCheck(dealing.Commitment, ad, dealerIndex, recipientIndex, privateKey, publicKey)
diff --git a/dealings/transcript.go b/dealings/transcript.go
index d6e9297..8a83c35 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -144,6 +144,9 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 /// * Any other error if the share could not be recomputed.
 func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.Map[common.NodeIndex, poly.CommitmentOpening], shareIndex common.NodeIndex) (poly.CommitmentOpening, error) {
 	reconstructionThreshold := dealing.Commitment.Len()
+	if reconstructionThreshold == 0 {
+		return nil, errors.New("invalid commitment")
+	}
 	if openings.Len() < reconstructionThreshold {
 		return nil, errors.New("insufficient openings")
 	}
diff --git a/poly/commitment.go b/poly/commitment.go
index 3ae1f63..ebd1224 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -226,6 +226,9 @@ func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
 	return 1
 }
 func (s *SimpleCommitment) CurveType() curve.EccCurveType {
+	if len(s.points) == 0 {
+		return curve.EccCurveType(0)
+	}
 	return s.points[0].CurveType()
 }
 func (s *SimpleCommitment) ReturnOpeningIfConsistent(index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
@@ -261,6 +264,9 @@ func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening Comm
 	return false
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
+	if len(s.points) == 0 {
+		return false
+	}
 	eval := s.EvaluateAt(evalPoint)
 	return eval.Equal(curve.Point.MulByG(value)) == 1
 }
@@ -354,6 +360,9 @@ func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
 	return 1
 }
 func (p *PedersenCommitment) CurveType() curve.EccCurveType {
+	if len(p.points) == 0 {
+		return curve.EccCurveType(0)
+	}
 	return p.points[0].CurveType()
 }
 func (p *PedersenCommitment) ReturnOpeningIfConsistent(index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
@@ -389,6 +398,9 @@ func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening Co
 }
 
 func (p *PedersenCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar, mask curve.EccScalar) bool {
+	if len(p.points) == 0 {
+		return false
+	}
 	eval := p.EvaluateAt(evalPoint)
 	return eval.Equal(curve.Point.Pedersen(value, mask)) == 1
 }
-- 
2.43.0


From 96860bdd31f52e62a2e6d73a3ca8508a08cfc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 27/31] fix: refuse negative recipient indices instead of
 panicking

---
 mega/ciphertext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mega/ciphertext.go b/mega/ciphertext.go
index 19e115c..30d4cd4 100644
--- a/mega/ciphertext.go
+++ b/mega/ciphertext.go
@@ -198,7 +198,7 @@ func (m MEGaCiphertextSingle) VerifyPop(ad []byte, dealerIndex common.NodeIndex)
 }
 
 func (m MEGaCiphertextSingle) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) (curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return nil, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextSingle, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
@@ -286,7 +286,7 @@ func (m MEGaCiphertextPair) VerifyPop(ad []byte, dealerIndex common.NodeIndex) e
 }
 
 func (m MEGaCiphertextPair) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) ([2]curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return [2]curve.EccScalar{}, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextPairs, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
-- 
2.43.0


From 2d53980f6bc4183dfed358926c3b75f07ce8711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:46 +0000
Subject: [PATCH 28/31] fix: print an encoded point's encoding only

---
 curve/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curve/encode.go b/curve/encode.go
index 909c9f7..623bd7d 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -192,7 +192,7 @@ func (e EncodePoint32) AsBytes() []byte {
 }
 
 func (e EncodePoint32) ToString() string {
-	return hex.EncodeToString(e.bytes)
+	return hex.EncodeToString(e.AsBytes())
 }
 
 func (e EncodePoint32) IsCompact() bool {
-- 
2.43.0


From b206bc2aea3c53fc6ae36e613cda37caa277ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:46 +0000
Subject: [PATCH 29/31] fix: sign with decoded openings too

---
 sign/share.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index 93be044..f0d9c63 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -14,6 +14,17 @@ type ThresholdEcdsaSigShareInternal struct {
 	sigmaDenominator poly2.CommitmentOpening
 }
 
+// pedersenOpening returns a Pedersen opening given by value, or by pointer as decoding returns it.
+func pedersenOpening(opening poly2.CommitmentOpening) (poly2.PedersenCommitmentOpening, bool) {
+	switch o := opening.(type) {
+	case poly2.PedersenCommitmentOpening:
+		return o, true
+	case *poly2.PedersenCommitmentOpening:
+		return *o, true
+	}
+	return poly2.PedersenCommitmentOpening{}, false
+}
+
 func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashedMsg []byte, randomness []byte, keyTranscript *dealings.IDkgTranscriptInternal, presigTranscript *dealings.IDkgTranscriptInternal, lambda poly2.CommitmentOpening, kappaTimesLambda poly2.CommitmentOpening, keyTimesLambda poly2.CommitmentOpening, curveType curve.EccCurveType) (*ThresholdEcdsaSigShareInternal, error) {
 	rho, keyTweak, randomizer, _, err := DeriveRho(curveType, hashedMsg, randomness, derivationPath, keyTranscript, presigTranscript)
 	if err != nil {
@@ -26,14 +37,14 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	theta := e.Add(e, rho.Clone().Mul(rho, keyTweak))
 	var lambdaValue curve.EccScalar
 	var lambdaMask curve.EccScalar
-	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
+	if l, ok := pedersenOpening(lambda); ok {
 		lambdaValue = l[0]
 		lambdaMask = l[1]
 	} else {
 		return nil, errors.New("unexpected commitment type")
 	}
 	var nu poly2.CommitmentOpening
-	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := pedersenOpening(keyTimesLambda); ok {
 		nuValue := theta.Clone().Mul(theta, lambdaValue)
 		nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
@@ -44,7 +55,7 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	}
 
 	var mu poly2.CommitmentOpening
-	if k, ok := kappaTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := pedersenOpening(kappaTimesLambda); ok {
 		muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
 		muValue = muValue.Add(muValue, k[0])
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
-- 
2.43.0


From 6a6552151af13b8e13a91559831f45ea5190c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:46 +0000
Subject: [PATCH 30/31] fix: combine decoded openings too

---
 dealings/commitment.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index e7bfb86..a10356a 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -66,6 +66,17 @@ func (c commitmentOpening) FromDealings(verifiedDealings *btree.Map[common.NodeI
 
 }
 
+// openingByValue returns an opening as a value: openings made here are values, decoded ones are pointers.
+func openingByValue(opening poly.CommitmentOpening) poly.CommitmentOpening {
+	switch o := opening.(type) {
+	case *poly.SimpleCommitmentOpening:
+		return *o
+	case *poly.PedersenCommitmentOpening:
+		return *o
+	}
+	return opening
+}
+
 func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, commitmentOpenings []poly.CommitmentOpening, transcriptCommitment CombinedCommitment, receiverIndex common.NodeIndex, curveType curve.EccCurveType) (poly.CommitmentOpening, error) {
 	var opening poly.CommitmentOpening
 
@@ -74,7 +85,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 		combinedValue := curve.Scalar.Zero(curveType)
 		combinedMask := curve.Scalar.Zero(curveType)
 		for _, opening := range commitmentOpenings {
-			switch o := opening.(type) {
+			switch o := openingByValue(opening).(type) {
 			case poly.PedersenCommitmentOpening:
 				combinedValue = combinedValue.Add(combinedValue, o[0])
 				combinedMask = combinedMask.Add(combinedMask, o[1])
@@ -90,7 +101,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			values := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
+				switch o := openingByValue(opening).(type) {
 				case poly.SimpleCommitmentOpening:
 					xValues = append(xValues, dealerIndex)
 					values = append(values, o[0])
@@ -115,7 +126,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			masks := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
+				switch o := openingByValue(opening).(type) {
 				case poly.PedersenCommitmentOpening:
 					xValues = append(xValues, dealerIndex)
 					values = append(values, o[0])
-- 
2.43.0


From 12a46c2f4e75874797b27d808acf46b34649a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 31/31] fix: clone the scalars of product proofs

---
 zk/product.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zk/product.go b/zk/product.go
index 62d5979..0ca413a 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -115,8 +115,8 @@ func (p *ProofOfProduct) Verify(lhsCom curve.EccPoint, rhsCom curve.EccPoint, pr
 }
 func (p *ProofOfProduct) Clone() *ProofOfProduct {
 	return &ProofOfProduct{
-		challenge: p.challenge,
-		response1: p.response1,
-		response2: p.response2,
+		challenge: p.challenge.Clone(),
+		response1: p.response1.Clone(),
+		response2: p.response2.Clone(),
 	}
 }
-- 
2.43.0

