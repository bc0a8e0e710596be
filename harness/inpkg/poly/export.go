package poly

// Verif exposes the decoder of commitments, which has no exported name.
func VerifDeserializeCommitment(b []byte) (PolynomialCommitment, error) {
	return polynomialCommitment{}.Deserialize(b)
}
