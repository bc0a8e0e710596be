#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the statements stay reviewable)
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
I,C,H,F,S=["inputs"],"configurations","histories","fault_sequences","schedules"

p("C01","Every quorum of honest shares combines to one valid ECDSA signature",
 "For every key, presignature, message hash, randomness, derivation path and threshold, the shares of any set of at least threshold signers combine to a signature (r, s) that is a standard ECDSA signature (checked by an independent verifier) of that hash under the public key derived for that path, and that the library's own verification accepts. All quorums, and quorums larger than the threshold, produce the same signature. s never exceeds half the group order. Openings that were stored in encoded form serve like the originals.",
 ["inputs",C,H],"all secrets, hashes of every length, randomness, paths, thresholds t, node indices, and every subset of at least t signers",
 "The sign tests run a handful of random setups with contiguous indices, one hash length, and sometimes only the first t shares; they never check with an independent ECDSA verifier.",
 ["sign/combined_sig.go","sign/share.go","sign/sign.go","key/key_derivation.go"],
 [("NewThresholdEcdsaCombinedSigInternal","sign/combined_sig.go"),("NewThresholdEcdsaSigShareInternal","sign/share.go"),("DeriveRho","sign/sign.go")])
p("C02","Share verification accepts exactly the shares that open to the transcripts",
 "Verification of a signature share succeeds if the share is the one the named signer computes from openings consistent with the lambda, kappa*lambda and key*lambda transcripts for this hash, randomness, path and presignature. It fails when either half of the share is off by anything, belongs to another signer, or was made for another hash, randomness, path, key or presignature, and when any transcript it is checked against is a different one.",
 ["inputs",C],"all shares (honest, tampered, transplanted) x all signer indices x all contexts",
 "Tests verify honest shares and little else; a verifier comparing the wrong values passes them (one did, see fix 5b4041c).",
 ["sign/share.go"],[("ThresholdEcdsaSigShareInternal.Verify","sign/share.go")])
p("C03","Signature verification accepts exactly standard ECDSA, low-s, for this context",
 "Verification of a combined signature succeeds exactly when r is the x-coordinate of the presignature re-randomised for this hash, randomness, path and key, s is nonzero and at most half the group order, and (r, s) satisfies the ECDSA equation with that nonce point for the derived public key. Any other r, s, negated s, hash, randomness, path, key or presignature is refused with an error.",
 ["inputs"],"all (r, s), hashes (any length, including hashes not below the group order), randomness, paths, transcripts",
 "Tests check that the produced signature verifies and one or two corruptions; they do not reach s = n-s, long hashes, or wrong contexts field by field.",
 ["sign/combined_sig.go","sign/sign.go"],[("ThresholdEcdsaCombinedSigInternal.Verify","sign/combined_sig.go"),("ConvertHashToInteger","sign/sign.go")])
p("C04","Quorum sizes are enforced and honoured everywhere",
 "A signature is not produced from fewer shares than the threshold, a share is not reconstructed from fewer openings than the dealing's threshold, a resharing transcript needs at least as many dealings as the old sharing's threshold and a multiplication transcript at least the sum of both thresholds minus one; exactly that many, from any nodes, always suffice. A dealing has a threshold between one and the number of recipients.",
 ["inputs",C,H],"all thresholds, numbers of dealings, openings and shares at, below and above each bound; every choice of contributing nodes",
 "Tests use a few fixed sizes, mostly well above the bounds.",
 ["sign/combined_sig.go","dealings/transcript.go","dealings/dealings.go"],
 [("NewThresholdEcdsaCombinedSigInternal","sign/combined_sig.go"),("NewTranscriptInternal, ReconstructShareFromOpenings","dealings/transcript.go"),("NewIDkgDealingInternal","dealings/dealings.go")])
p("C05","A presignature is re-randomised by everything that is signed",
 "The nonce point used for a signature is the presignature point plus a multiple of the generator that is a deterministic function of the randomness, the message hash, the presignature and the tweak of the derivation path and key; r is its x-coordinate modulo the group order. Changing any one of these inputs changes it, and moving bytes from one input to another never yields the same value.",
 I,"all pairs of different (randomness, hash, presignature, path, key) tuples, including empty and very long byte strings",
 "Tests never compare two contexts with each other.",
 ["sign/sign.go","ro/ro.go"],[("DeriveRho, EcdsaConversion","sign/sign.go")])
p("C06","All receivers of a transcript hold consistent shares of one secret",
 "Whenever a transcript is built from publicly verified dealings, every receiver whose dealings decrypt obtains an opening that matches the transcript's commitment at its own index, and the openings of any threshold-many receivers interpolate to the secret committed in the transcript's constant term, which is the sum of the dealt secrets for a random transcript and the interpolation of the dealt secrets otherwise. An opening that does not match the commitment is never returned.",
 ["inputs",C,H],"all dealer sets and indices, thresholds, receivers, secrets; honest and inconsistent dealings",
 "Tests use contiguous dealers, one random secret, and only check openings of one configuration.",
 ["dealings/commitment.go","dealings/transcript.go"],
 [("CombineOpenings, FromDealings","dealings/commitment.go"),("NewTranscriptInternal","dealings/transcript.go")])
p("C07","Resharing keeps the secret, for any dealers, receivers and new threshold",
 "A transcript that reshares a masked or an unmasked transcript commits to the same secret as the original, whichever sufficient set of dealers contributed, however receivers and threshold change, and through any number of successive resharings; the public key is unchanged. Resharing a masked secret reveals exactly the generator multiple of it.",
 ["inputs",C,H],"all sequences of rounds (random, reshare masked, reshare unmasked, multiply) with changing committees and thresholds",
 "Tests run a few fixed sequences with small fixed committees.",
 ["dealings/transcript.go","dealings/dealings.go","testutils/protocol_round.go"],
 [("NewTranscriptInternal, CombineCommitmentsViaInterpolation","dealings/transcript.go"),("NewIDkgDealingInternal","dealings/dealings.go")])
p("C08","Multiplication transcripts share exactly the product of the two secrets",
 "A transcript multiplying an unmasked and a masked sharing commits, under a fresh mask, to the product of the two shared secrets, for every sufficient dealer set and also when a secret, share or mask is zero.",
 ["inputs",C],"all secrets including 0, 1 and n-1; all dealer sets of sufficient size; all thresholds",
 "Tests multiply two random secrets in one configuration.",
 ["dealings/dealings.go","dealings/transcript.go","zk/product.go"],
 [("NewIDkgDealingInternal (product)","dealings/dealings.go"),("NewTranscriptInternal (product)","dealings/transcript.go")])
p("C09","Transcripts are refused for dealings that do not fit the operation",
 "Creating a transcript fails with an error when a dealing's commitment has a length other than the threshold, a kind (masked or unmasked) other than the operation requires, when the previous transcript has the wrong kind, when an unmasked resharing would change the committed secret, or when the operation is unknown. It never panics and never yields a transcript in those cases.",
 ["inputs",C],"all operations x mixtures of dealing kinds, lengths and constant terms",
 "Tests exercise one or two refusals.",
 ["dealings/transcript.go"],[("NewTranscriptInternal","dealings/transcript.go"),("CombineCommitmentsViaInterpolation","dealings/transcript.go")])
p("C10","Every dealing an honest dealer creates is accepted by everyone",
 "For every operation, threshold between one and the number of recipients, dealer index and associated data, a dealing created with the matching shares passes public verification for that operation and private verification by every recipient; each recipient decrypts the dealt polynomial evaluated at its own index, and the dealt secret is the one requested (or the product requested).",
 ["inputs",C],"all operations, thresholds, recipient counts, indices, associated data of any length, secrets including zero",
 "Tests create dealings for a few sizes with random secrets.",
 ["dealings/dealings.go","dealings/secret_shares.go"],[("NewIDkgDealingInternal","dealings/dealings.go"),("Secret.From","dealings/secret_shares.go")])
p("C11","Public verification accepts exactly well-formed, correctly proven dealings",
 "Public verification of a dealing succeeds exactly when the commitment has the threshold's length and the kind the operation requires, the ciphertext has the right kind, the expected number of recipients and a valid possession proof for this dealer and associated data, and the zero-knowledge proof is present exactly when required and proves the operation's relation between the previous commitments at the dealer's index, the new constant term and the associated data. Any deviation is refused with an error.",
 ["inputs",C],"all operations x every single-field deviation of the dealing or of the context it is verified in",
 "Tests flip a few contexts for each operation but not every field.",
 ["dealings/dealings.go","mega/ciphertext.go"],[("PubliclyVerify","dealings/dealings.go"),("CheckValidity, VerifyIs","mega/ciphertext.go")])
p("C12","Private verification accepts exactly what decrypts to the committed share",
 "Private verification of a dealing succeeds for a recipient exactly when the dealing is validly encrypted for this dealer and associated data and the plaintext decrypted with the recipient's key opens the commitment at the recipient's index. A ciphertext or a commitment altered for one recipient fails for that recipient and for no other.",
 ["inputs",C],"all recipients x all corruptions (single byte-pair component, commitment coefficient, key, index, dealer, associated data)",
 "Tests corrupt one recipient in one way.",
 ["dealings/dealings.go","mega/ciphertext.go"],[("PrivateVerify","dealings/dealings.go"),("DecryptAndCheck","mega/ciphertext.go")])
p("C13","All secret randomness comes from the caller's seed, separated by use",
 "Dealings, encryptions, keys, complaints and proofs are deterministic functions of the seed and inputs; different seeds give different polynomials, masks, ephemeral keys and proof nonces. Within one call, values derived for different purposes are unrelated: no two of the coefficients, masks, ephemeral secret, and no two nonces of proofs about different statements coincide, and no secret is a known constant or confined to a small range.",
 ["inputs",H],"all seeds, operations, pairs of calls differing in one input",
 "Tests use one seed per call and never compare two runs.",
 ["dealings/dealings.go","mega/mega.go","zk/dlog.go","zk/equal_opening.go","zk/product.go","seed/seed.go"],
 [("NewIDkgDealingInternal","dealings/dealings.go"),("ComputeEphKeyAndPop","mega/mega.go"),("Create","zk/*.go"),("Derive, Rng","seed/seed.go")])
p("C14","Every bad share leads to a complaint that everyone accepts",
 "When some of a receiver's publicly verified dealings do not decrypt to consistent shares, complaint generation returns one complaint for exactly each of those dealings and no other, and every such complaint verifies for the dealing, dealer, complainer, complainer's key and associated data. When all dealings are consistent it reports an error instead.",
 ["inputs",C,F],"all subsets of corrupted dealings x corruption kinds x receivers x indices",
 "Tests corrupt one dealing for one or all receivers.",
 ["complaints/complaints.go"],[("GenerateComplaints, NewComplaintInternal","complaints/complaints.go")])
p("C15","No complaint against a good dealing, or moved to another context, is accepted",
 "Complaint verification fails when the dealing is consistent for the complainer, when the complaint was made by another receiver or key, about another dealing or dealer, or with other associated data, and when its shared secret or proof is altered in any component.",
 ["inputs",C],"all complaints x all single-field changes of the context or the complaint",
 "Tests try a few wrong contexts on one dealing.",
 ["complaints/complaints.go"],[("IDkgComplaintInternal.Verify, createProofAssocData","complaints/complaints.go")])
p("C16","Lost shares are rebuilt exactly from enough openings, wrong ones refused",
 "From any at least threshold-many correct openings of a dealing, the share of any node index is rebuilt exactly, and receivers using such openings in place of their own decryption obtain the same transcript opening; one opening per dealing, in any order, combines to the transcript's opening exactly when it matches its commitment. Openings that were sent in encoded form count like the originals. If too few openings are given, an opening has the wrong kind, or the result does not match the dealing's commitment, an error is returned and no share.",
 ["inputs",C,F],"all subsets of openings of size around the threshold, all target indices, any subset of openings wrong",
 "Tests rebuild one share from all openings.",
 ["dealings/transcript.go","dealings/commitment.go"],[("ReconstructShareFromOpenings","dealings/transcript.go"),("FromDealingsAndOpenings, CombineOpenings","dealings/commitment.go")])
p("C17","Encrypted shares decrypt to what was encrypted, for each recipient only",
 "For every list of plaintexts and recipient keys, the ciphertext passes its validity check for its dealer, data and number of recipients, and each recipient decrypts exactly its own plaintext (both components for pairs); anyone holding the recipient's shared secret gets the same. Encryption refuses empty or mismatched lists; a recipient index outside the ciphertext is refused.",
 ["inputs",C],"all plaintexts incl. 0 and n-1, numbers of recipients, repeated keys, indices, associated data of any length",
 "Tests encrypt for two or three random recipients.",
 ["mega/ciphertext.go","mega/mega.go"],[("EncryptCiphertextSingle/Pair, Decrypt, DecryptFromSharedSecret","mega/ciphertext.go"),("megaHashToScalars","mega/mega.go")])
p("C18","The encryption mask depends on every part of the context",
 "The mask that hides a plaintext is a function of the ciphertext kind, dealer index, recipient index, associated data, recipient key, ephemeral key and shared secret; changing any one of them changes it, and the two masks of a pair differ. Moving a ciphertext component to another recipient, dealer or session never decrypts to the original plaintext.",
 I,"all pairs of contexts that differ in at least one component; indices up to 2^32-1; associated data of any length",
 "Tests change one or two components on one ciphertext.",
 ["mega/mega.go"],[("megaHashToScalars","mega/mega.go")])
p("C19","The possession proof of a ciphertext holds exactly for its dealer and data",
 "The proof of possession of the ephemeral key verifies exactly for the ciphertext kind, associated data, dealer index, ephemeral key and companion key it was made for; altering any of them or the proof makes decryption and validation fail with an error.",
 I,"all single-component changes of the ciphertext header and context",
 "Tests try a wrong dealer and wrong data once.",
 ["mega/mega.go","mega/ciphertext.go"],[("ComputePopBase, VerifyPop, ComputeEphKeyAndPop","mega/mega.go")])
p("C20","Proofs made from a true witness always verify",
 "For every witness, including zero and extreme values, every seed and associated data, the proofs of equal discrete logarithms, of equal openings and of product made from it verify against the statement it defines, also after cloning or decoding the statement's points.",
 I,"all witnesses, generators, seeds and associated data",
 "Tests use one random witness per proof.",
 ["zk/dlog.go","zk/equal_opening.go","zk/product.go"],[("Create, Verify, FromWitness","zk/*.go")])
p("C21","A proof verifies only for its own statement, data and unaltered values",
 "A proof is refused whenever any component of the statement, the associated data, the challenge or any response differs from the ones it was made with, and a proof whose challenge is not the hash of the statement, of the recomputed commitments and of the data is never accepted. The challenge depends on each of these, and proofs created for a false statement do not verify.",
 I,"all statements x all single-component changes, false witnesses, forged (challenge, response) pairs",
 "Tests change one component of one proof.",
 ["zk/dlog.go","zk/equal_opening.go","zk/product.go"],[("Verify, RecoverCommitments, HashToChallenge","zk/*.go")])
p("C22","Transcripts and commitments are compared and represented faithfully",
 "Comparing two transcripts gives zero exactly when they commit to the same kind of commitment and the same points, is antisymmetric and transitive; commitment equality and the stable byte representation agree with it and do not depend on how points are represented internally. A clone of a commitment, ciphertext or proof equals its original and shares nothing with it that can be changed.",
 I,"all pairs and triples of commitments of equal or different kind, length and points",
 "Tests never compare two different transcripts (the comparison compared a value with itself, see fix 7a2cbc5).",
 ["dealings/transcript_operation.go","poly/commitment.go"],[("Compare","dealings/transcript_operation.go"),("StableRepresentation, Equal, Clone","poly/commitment.go"),("Clone","zk/*.go, mega/ciphertext.go, dealings/zk_proof.go")])
p("C23","The random oracle separates every distinct list of inputs",
 "Two queries that differ in the domain separator, or in the name, type or value of any input, are hashed to different inputs whatever the lengths involved, and the same set of named inputs gives the same output regardless of the order in which they were added. Inputs with an empty or over-long name and repeated names are refused; nothing that was accepted is ignored. The hashed input is the concatenation, in the byte order of the names, of length-prefixed name, type, length-prefixed value; the output is expand_message_xmd, or hashing to the curve or scalars, of it under the separator (with the curve's name appended for scalars and points).",
 I,"all pairs of input lists; names and values of every length (0, 255, 256, 65536 bytes); all types",
 "Tests check a few known outputs of short inputs.",
 ["ro/ro.go"],[("AddInput, formRoInput, OutputScalars","ro/ro.go")])
p("C24","Message expansion, seeds and random streams follow their definitions",
 "Message expansion equals expand_message_xmd of RFC 9380 with SHA-256 for every message, separator and length (lengths that cannot be expanded are refused); a seed and every seed derived from it are that expansion of the parent and separator; the generator is the ChaCha20 key stream of the seed, read consecutively and identically through every reading function.",
 ["inputs",H],"all messages, separators (0..255 bytes and longer), lengths 0..8160 and beyond; all interleavings of reads",
 "Tests have a few vectors; the stream is never read in different ways.",
 ["seed/xmd.go","seed/seed.go","rand/chacha20.go"],[("ExpandMessageXmd","seed/xmd.go"),("NewSeed, Derive, Rng","seed/seed.go"),("ChaCha20","rand/chacha20.go")])
p("C25","Hashing to the curve and to scalars follows RFC 9380",
 "Hashing to a point equals the hash-to-curve suite secp256k1_XMD:SHA-256_SSWU_RO_ of RFC 9380 for every message and separator, always giving a point on the curve; hashing to n scalars is the expansion cut in equal wide pieces, each reduced modulo the order. A random scalar is the generator's next 32-byte block that is below the order.",
 I,"all messages and separators, including the exceptional inputs of the map; all scalar counts",
 "Tests have five vectors.",
 ["curve/hash_to_curve.go","curve/scalar.go"],[("hash-to-curve map and isogeny","curve/hash_to_curve.go"),("HashToScalars","curve/hash_to_curve.go")])
p("C26","Polynomial arithmetic is the ring of polynomials over the scalar field",
 "Sum, product, scalar product, evaluation, equality, zero test and coefficient access of polynomials agree with the ring of polynomials over the scalar field for all operands, irrespective of trailing zero coefficients, unequal lengths and of the receiver also being an operand. Interpolating at least degree-plus-one distinct samples returns the polynomial they come from; repeated sample positions are refused.",
 I,"all polynomials up to the tested degree including zero polynomials and trailing zeros; all sample sets",
 "Tests use random dense polynomials of a few degrees.",
 ["poly/poly.go"],[("Add, Mul, MulScalar, EvaluateAt, Interpolate","poly/poly.go")])
p("C27","Lagrange coefficients interpolate exactly and refuse duplicates",
 "For every set of distinct node indices and every target value (also one of the samples), the Lagrange coefficients reproduce the value at the target of every polynomial of degree below the number of samples, both for scalars and for points; duplicate indices and a number of values different from the number of coefficients are refused. Two lists of coefficients are equal exactly when they agree in length and in every position.",
 I,"all sets of distinct 32-bit indices in any order, all targets, all polynomials",
 "Tests use small consecutive indices.",
 ["poly/lagrange.go"],[("AtZero, AtValue, InterpolateScalar, InterpolatePoint","poly/lagrange.go")])
p("C28","Polynomial commitments open exactly to the committed polynomial",
 "A commitment to a polynomial (or pair) evaluates at every node index to the commitment of the polynomial's values there, and checks an opening as correct exactly when value and mask are those of the polynomial at that index and the opening is of the commitment's kind. Commitments have exactly the requested number of coefficients; a polynomial that does not fit is refused.",
 I,"all polynomials, lengths, node indices up to 2^32-1, openings (correct, wrong value, wrong mask, wrong kind, nil)",
 "Tests use one random polynomial and small indices.",
 ["poly/commitment.go"],[("Create, EvaluateAt, CheckOpening, ReturnOpeningIfConsistent","poly/commitment.go")])
p("C29","Serialised commitments and openings decode to the same value or are refused",
 "Encoding and decoding commitments, openings, and the points and scalars in them returns an equal value of the same kind for every value, including zero scalars and identity points, and re-encoding gives the same bytes. Truncated strings and strings that encode something else are refused with an error and never panic; bytes after a complete encoding never change the decoded value.",
 I,"all commitments and openings; all truncations, extensions and element corruptions of their encodings",
 "Tests round-trip one or two random values; failing round trips were unnoticed (see fix 7acf041).",
 ["poly/commitment.go","curve/k256_point.go","curve/k256_scalar.go"],[("Serialize, Deserialize","poly/commitment.go"),("MarshalCBOR, UnmarshalCBOR","curve/k256_*.go")])
p("C30","Point decoding accepts exactly valid encodings and inverts encoding",
 "Every point, including the identity, is recovered from each of its encodings (compressed, uncompressed where supported, tagged, from affine coordinates). Every other byte string, including coordinates not below the field prime, coordinates off the curve, wrong lengths, unknown tags and unknown curves, is refused with an error; decoding never panics.",
 I,"all byte strings of every length and tag",
 "Tests decode a few vectors.",
 ["curve/k256_point.go","curve/encode.go","curve/point.go","mega/key.go"],[("Deserialize, DeserializeAnyFormat, DeserializeTagged","curve/point.go"),("Encode.FromBytes","curve/encode.go"),("VerifyMegaPublicKey","mega/key.go")])
p("C31","Scalar, field and key decoding is canonical",
 "Scalars, field elements and private keys decode only from exactly 32 bytes that are below the respective modulus, and encode back to the same bytes; tagged scalars are recovered for the right tag only. Wide decoding is big-endian reduction modulo the order (or prime) for every length it accepts.",
 I,"all byte strings; values around the modulus; all lengths",
 "Tests decode a few random values.",
 ["curve/scalar.go","curve/k256_scalar.go","curve/k256_fe.go","curve/fe.go","mega/key.go"],[("Deserialize, DeserializeTagged, FromBytesWide","curve/scalar.go"),("FromBytes, FromBytesWide","curve/fe.go")])
p("C32","Scalar and base field operations are exact modular arithmetic",
 "Addition, subtraction, multiplication, negation, inversion (of zero: zero), equality, zero and high tests of scalars, and additionally squaring, square roots, parity and conditional assignment of field elements, are the arithmetic modulo the group order and field prime for all operands, whatever operand the receiver is. Constants, clones and node-index scalars have the defined values and clones share no state.",
 I,"all operand pairs including 0, 1, half, modulus-1 and all receiver aliasings",
 "Tests use a few random operands.",
 ["curve/k256_scalar.go","curve/k256_fe.go","curve/scalar.go","curve/fe.go"],[("Add, Sub, Mul, Invert, Negate, IsHigh","curve/k256_scalar.go"),("Add, Mul, Sqrt, CAssign","curve/k256_fe.go")])
p("C33","Point operations are the secp256k1 group law",
 "Addition, subtraction, doubling, scalar and node-index multiplication, two-point linear combination, generator multiples, Pedersen commitments, equality and identity tests are those of the secp256k1 group for all points and scalars, including the identity, equal and opposite operands, non-normalised representations and any receiver aliasing. The two generators and the identity have their defined values whatever was done with earlier copies.",
 I,"all points (identity, opposite, equal, any representation) and scalars (0, 1, n-1), node indices up to 2^32-1, all aliasings",
 "Tests use random points and never the edge cases.",
 ["curve/k256_point.go","curve/point.go"],[("AddPoints, SubPoints, ScalarMul, MulByNodeIndex","curve/k256_point.go"),("MulPoints, Pedersen, MulByG","curve/point.go")])
p("C34","Key derivation is BIP32 public derivation generalised to byte paths",
 "Deriving along a path adds to the public key, per path element, the tweak given by HMAC-SHA512 of the compressed parent key and index under the parent's chain key, starting from an all-zero chain key; the returned tweak is the sum, the derived key is the master key plus its multiple of the generator, and the chain key is the last right half. Four-byte indices give standard non-hardened BIP32 results, an empty path gives the master key, and deriving in steps equals deriving at once.",
 I,"all master keys and all paths: empty, long, elements of any length",
 "Tests have a few BIP32 vectors.",
 ["key/key_derivation.go","sign/sign.go"],[("DeriveTweak, ckdpub, ComputeHMAC","key/key_derivation.go"),("DerivePublicKey","sign/sign.go")])
p("C35","The next derivation index is the big-endian successor",
 "The successor of a derivation index is the big-endian number plus one in the same number of bytes when it fits, and one byte longer when every byte is 255; the original is not modified.",
 I,"all byte strings of every length",
 "Tests cover a handful of values.",
 ["key/key_derivation.go"],[("DerivationIndex.Next","key/key_derivation.go")])
p("C36","No operation modifies its inputs or depends on earlier calls",
 "Creating, verifying, opening, combining, signing, deriving, encoding and comparing leave every dealing, transcript, commitment, opening, key, share, seed, path, list and byte string given to them unchanged, and the memory behind the end of a list or byte string too; repeating a call gives the same result, also after any other calls.",
 ["inputs",H],"all sequences of calls on shared objects",
 "Tests use each object for one flow and never compare it before and after.",
 ["dealings/transcript.go","dealings/commitment.go","sign/share.go","sign/combined_sig.go","poly/commitment.go","curve/point.go"],
 [("receiver-returning arithmetic on clones","curve/*.go, sign/*.go, dealings/*.go")])
p("C37","Concurrent use of shared objects is race-free and gives serial results",
 "Independent operations (verification, opening, complaint, share creation, combination, encryption) run concurrently on the same dealings, transcripts, keys and seeds have no data race and each returns what it returns when run alone.",
 [S,H],"all interleavings of concurrent reads of shared protocol objects",
 "All tests are sequential.",
 ["dealings/dealings.go","sign/share.go","mega/ciphertext.go","curve/k256_point.go","zk/dlog.go"],[("no writes to shared state","all packages")])
p("C38","Malformed input from peers is refused with an error, never a crash",
 "Whatever dealing, ciphertext, commitment, proof, opening, complaint, signature share or bytes a peer sends (an absent proof or opening, empty lists, wrong kinds, wrong lengths, out-of-range or negative indices, identity points; but no nil pointer where a point, scalar or part is required), the receiving operations return an error or a result within bounded time; they do not panic, hang or loop.",
 ["inputs","fault_sequences"],"all structurally possible malformed protocol objects in every receiving operation",
 "Tests send almost only well-formed objects.",
 ["dealings/dealings.go","dealings/transcript.go","dealings/commitment.go","complaints/complaints.go","mega/ciphertext.go","sign/combined_sig.go"],
 [("kind and length checks before use","dealings/*.go, mega/ciphertext.go, poly/commitment.go, sign/*.go")])
p("C39","Encoded points report their tag, coordinates and compressed form faithfully",
 "An encoded point is accepted, from bytes or from hexadecimal text in either case, exactly when its tag is known and its length is the one the tag announces. It then reports that tag, length, kind and those coordinates; its bytes and its text are the encoding itself and decode to it again. Compressing replaces an uncompressed encoding by the tag of y's parity and x, and leaves the others alone; encodings made from affine or untagged coordinates, by selection between two, or the identity are the ones SEC 1 defines.",
 I,"all byte strings and texts; all coordinate pairs, compressed or not; selections between every two kinds",
 "Tests use one pattern of bytes per tag and never print a compressed or identity encoding (which printed bytes beyond the encoding, see the fix).",
 ["curve/encode.go"],[("Encode.FromBytes, FromStr, FromAffineCoordinates, FromUnTaggedBytes, ConditionalSelect","curve/encode.go"),("EncodePoint32 (AsBytes, ToString, Compress, Coordinates, X, Y, Tag)","curve/encode.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
