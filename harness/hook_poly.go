package main

import "github.com/PlatONnetwork/tecdsa/poly"

func init() { cmDeserialize = poly.VerifDeserializeCommitment }
