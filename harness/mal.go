package main

import (
	"reflect"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/PlatONnetwork/tecdsa/zk"
)

// Malformed objects: what a peer may send that no honest node makes.

func comPts(d *dealings.IDkgDealingInternal, pts []curve.EccPoint) {
	d.Commitment = mkComPts(kindOf(d.Commitment), pts)
}

func malDealing(w *world, s M) interface{} {
	n := cloneDealing(w.deal(str(s, "from")))
	single, _ := n.Ciphertext.(*mega.MEGaCiphertextSingle)
	pair, _ := n.Ciphertext.(*mega.MEGaCiphertextPair)
	head := func(f func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence)) {
		if single != nil {
			f(&single.EphemeralKey, &single.PopPublicKey, &single.PopProof)
		} else {
			f(&pair.EphemeralKey, &pair.PopPublicKey, &pair.PopProof)
		}
	}
	id := func() curve.EccPoint { return curve.Point.Identity(curve.K256) }
	zero := func() curve.EccScalar { return curve.Scalar.Zero(curve.K256) }
	switch str(s, "what") {
	case "same":
	case "comnone":
		n.Commitment = nil
	case "comempty":
		comPts(n, nil)
	case "comemptykind":
		n.Commitment = mkComPts(map[string]string{"S": "P", "P": "S"}[kindOf(n.Commitment)], []curve.EccPoint{})
	case "comid":
		ps := n.Commitment.Points()
		for i := range ps {
			ps[i] = id()
		}
	case "comnilpt":
		ps := n.Commitment.Points()
		ps[len(ps)-1] = nil
	case "comnilpt0":
		n.Commitment.Points()[0] = nil
	case "comlong":
		ps := n.Commitment.Points()
		for i := 0; i < 300; i++ {
			ps = append(ps, ps[0].Clone())
		}
		comPts(n, ps)
	case "comone":
		comPts(n, n.Commitment.Points()[:1])
	case "comsum":
		n.Commitment = &dealings.SummationCommitment{PolynomialCommitment: n.Commitment}
	case "comint":
		n.Commitment = &dealings.InterpolationCommitment{PolynomialCommitment: n.Commitment}
	case "comsumnil":
		n.Commitment = &dealings.SummationCommitment{}
	case "ctnone":
		n.Ciphertext = nil
	case "ctempty":
		modify(w, n, M{"what": "noct"})
	case "ctone":
		if single != nil {
			single.CTexts = single.CTexts[:1]
		} else {
			pair.CTexts = pair.CTexts[:1]
		}
	case "ctlong":
		for i := 0; i < 300; i++ {
			modify(w, n, M{"what": "addct"})
		}
	case "ctnilent":
		if single != nil {
			single.CTexts[len(single.CTexts)-1] = nil
		} else {
			pair.CTexts[len(pair.CTexts)-1] = [2]curve.EccScalar{}
		}
	case "ctnilent0":
		if single != nil {
			single.CTexts[0] = nil
		} else {
			pair.CTexts[0][1] = nil
		}
	case "ctzero":
		if single != nil {
			for i := range single.CTexts {
				single.CTexts[i] = zero()
			}
		} else {
			for i := range pair.CTexts {
				pair.CTexts[i] = [2]curve.EccScalar{zero(), zero()}
			}
		}
	case "ctkind":
		modify(w, n, M{"what": "ctkind"})
	case "ephid":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) { *e = id() })
	case "popid":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) { *p = id() })
	case "headid":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) {
			*e, *p = id(), id()
			setSc(*q, "challenge", 0, zero())
			setSc(*q, "response", 1, zero())
		})
	case "ephnil":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) { *e = nil })
	case "popnil":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) { *p = nil })
	case "popproofnil":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) { *q = nil })
	case "popproofempty":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) { *q = &zk.ProofOfDLogEquivalence{} })
	case "popproofzero":
		head(func(e, p *curve.EccPoint, q **zk.ProofOfDLogEquivalence) {
			setSc(*q, "challenge", 0, zero())
			setSc(*q, "response", 1, zero())
		})
	case "proofnone":
		n.Proof = nil
	case "proofnilin":
		switch str(s, "t") {
		case "msk":
			n.Proof = &dealings.MaskedResharingProof{}
		default:
			n.Proof = &dealings.ProductProof{}
		}
	case "proofempty":
		switch str(s, "t") {
		case "msk":
			n.Proof = &dealings.MaskedResharingProof{ProofOfEqualOpenings: &zk.ProofOfEqualOpenings{}}
		default:
			n.Proof = &dealings.ProductProof{ProofOfProduct: &zk.ProofOfProduct{}}
		}
	case "prooftypednil":
		switch str(s, "t") {
		case "msk":
			n.Proof = (*dealings.MaskedResharingProof)(nil)
		default:
			n.Proof = (*dealings.ProductProof)(nil)
		}
	case "proofvalue": // not a pointer
		switch str(s, "t") {
		case "msk":
			n.Proof = dealings.MaskedResharingProof{ProofOfEqualOpenings: &zk.ProofOfEqualOpenings{}}
		default:
			n.Proof = dealings.ProductProof{ProofOfProduct: &zk.ProofOfProduct{}}
		}
	case "proofzero":
		modify(w, n, M{"what": "prooftype", "t": str(s, "t"), "d": "0000000000000000000000000000000000000000000000000000000000000000"})
	case "none":
		return dealObj{&dealings.IDkgDealingInternal{}}
	case "nil":
		return dealObj{nil}
	default:
		bug("unknown malformation %s", str(s, "what"))
	}
	return dealObj{n}
}

func malOpening(w *world, s M) interface{} {
	sc := func() curve.EccScalar {
		return mkSc("0000000000000000000000000000000000000000000000000000000000000001")
	}
	switch str(s, "what") {
	case "none":
		return nil
	case "S":
		return poly.SimpleCommitmentOpening{sc()}
	case "P":
		return poly.PedersenCommitmentOpening{sc(), sc()}
	case "Sptr":
		return &poly.SimpleCommitmentOpening{sc()}
	case "Pptr":
		return &poly.PedersenCommitmentOpening{sc(), sc()}
	case "Snil":
		return poly.SimpleCommitmentOpening{}
	case "Pnil":
		return poly.PedersenCommitmentOpening{sc()}
	case "Pnil0":
		return poly.PedersenCommitmentOpening{nil, sc()}
	case "Sptrnil":
		return &poly.SimpleCommitmentOpening{}
	case "Pptrnil":
		return &poly.PedersenCommitmentOpening{}
	case "Stypednil":
		return (*poly.SimpleCommitmentOpening)(nil)
	case "Ptypednil":
		return (*poly.PedersenCommitmentOpening)(nil)
	}
	bug("unknown malformation %s", str(s, "what"))
	return nil
}

func malComplaint(w *world, s M) interface{} {
	n := *(w.get(str(s, "from")).(*complaints.IDkgComplaintInternal))
	pf, ss := field(&n, "proof", dleqType, 0), field(&n, "sharedSecret", ptType, 0)
	switch str(s, "what") {
	case "same":
	case "proofnil":
		pf.Set(reflect.Zero(dleqType))
	case "proofempty":
		pf.Set(reflect.ValueOf(&zk.ProofOfDLogEquivalence{}))
	case "proofzero":
		p := &zk.ProofOfDLogEquivalence{}
		setSc(p, "challenge", 0, curve.Scalar.Zero(curve.K256))
		setSc(p, "response", 1, curve.Scalar.Zero(curve.K256))
		pf.Set(reflect.ValueOf(p))
	case "ssid":
		ss.Set(reflect.ValueOf(curve.Point.Identity(curve.K256)))
	case "ssnil":
		ss.Set(reflect.Zero(ptType))
	case "empty":
		return &complaints.IDkgComplaintInternal{}
	default:
		bug("unknown malformation %s", str(s, "what"))
	}
	return &n
}

func malShare(w *world, s M) interface{} {
	x := *w.share(str(s, "from"))
	set := func(name string, i int, what string) {
		f := field(&x, name, opType, i)
		o := malOpening(w, M{"what": what})
		if o == nil {
			f.Set(reflect.Zero(opType))
		} else {
			f.Set(reflect.ValueOf(o))
		}
	}
	if n := strOr(s, "num", ""); n != "" {
		set("sigmaNumerator", 0, n)
	}
	if n := strOr(s, "den", ""); n != "" {
		set("sigmaDenominator", 1, n)
	}
	return &x
}

func init() {
	ops["mal"] = func(w *world, s M) M {
		var o interface{}
		switch str(s, "t0") {
		case "deal":
			o = malDealing(w, s)
		case "opening":
			o = malOpening(w, s)
		case "complaint":
			o = malComplaint(w, s)
		case "share":
			o = malShare(w, s)
		case "sig":
			x := &sign.ThresholdEcdsaCombinedSigInternal{R: curve.Scalar.One(curve.K256), S: curve.Scalar.One(curve.K256)}
			switch str(s, "what") {
			case "rnil":
				x.R = nil
			case "snil":
				x.S = nil
			case "zero":
				x.R, x.S = curve.Scalar.Zero(curve.K256), curve.Scalar.Zero(curve.K256)
			case "rzero":
				x.R = curve.Scalar.Zero(curve.K256)
			case "szero":
				x.S = curve.Scalar.Zero(curve.K256)
			}
			o = x
		default:
			bug("unknown object")
		}
		w.put(str(s, "out"), o)
		return M{}
	}
	// a received message: the step is run and only what kind of end it came to is recorded, and a verdict
	ops["rx"] = func(w *world, s M) M {
		in := s["step"].(M)
		f, ok := ops[str(in, "op")]
		if !ok {
			bug("unknown op %s", str(in, "op"))
		}
		r := f(w, in)
		if g, ok := r["good"]; ok {
			return M{"good": g}
		}
		return M{}
	}
	ops["raw"] = func(w *world, s M) M { // bytes from a peer, to a decoder
		b := bytesOf(s, "v")
		var err error
		switch str(s, "f") {
		case "commitment":
			var c poly.PolynomialCommitment
			if cmDeserialize == nil {
				break
			}
			if c, err = cmDeserialize(b); err == nil {
				use(c)
			}
		case "opening":
			var o poly.CommitmentOpening
			if o, err = poly.Commitment.Deserialize(b); err == nil {
				c := mkComPts("S", []curve.EccPoint{curve.Point.GeneratorG(curve.K256)})
				c.CheckOpening(0, o)
				o.Serialize()
				o.ToCommitmentOpeningBytes()
			}
		case "point":
			_, err = curve.Point.Deserialize(curve.K256, b)
		case "pointtag":
			_, err = curve.Point.DeserializeTagged(curve.K256, b)
		case "scalar":
			_, err = curve.Scalar.Deserialize(curve.K256, b)
		case "scalartag":
			_, err = curve.Scalar.DeserializeTagged(b)
		case "pubkey":
			err = mega.VerifyMegaPublicKey(curve.K256, b)
		case "privkey":
			_, err = mega.PrivateKey.Deserialize(curve.K256, b)
		case "master":
			_, err = sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: b}, key.NewBip32([]uint32{1}))
		default:
			bug("unknown decoder")
		}
		fail(err)
		return M{}
	}
	ops["rawcurve"] = func(w *world, s M) M { // an unknown curve
		t := curve.EccCurveType(num(s, "curve"))
		b := bytesOf(s, "v")
		var err error
		switch str(s, "f") {
		case "point":
			_, err = curve.Point.Deserialize(t, b)
		case "scalar":
			_, err = curve.Scalar.Deserialize(t, b)
		case "pubkey":
			err = mega.VerifyMegaPublicKey(t, b)
		case "privkey":
			_, err = mega.PrivateKey.Deserialize(t, b)
		}
		fail(err)
		return M{}
	}
}

func use(c poly.PolynomialCommitment) {
	c.Len()
	c.EvaluateAt(common.NodeIndex(3))
	c.ConstantTerm()
	c.StableRepresentation()
	c.Serialize()
	c.Equal(c)
	c.CheckOpening(1, poly.SimpleCommitmentOpening{curve.Scalar.One(curve.K256)})
	c.CheckOpening(1, nil)
	c.Clone()
}
