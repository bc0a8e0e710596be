package main

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/fxamacker/cbor/v2"
	"strings"
)

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	// receiver of a binary operation: a fresh value, the left or the right operand
	ops["sc.bin"] = func(w *world, s M) M {
		a, b := mkSc(str(s, "a")), mkSc(str(s, "b"))
		if strOr(s, "alias", "") == "same" {
			b = a
		}
		r := curve.Scalar.Zero(curve.K256)
		switch strOr(s, "alias", "new") {
		case "lhs", "same":
			r = a
		case "rhs":
			r = b
		}
		var q curve.EccScalar
		switch str(s, "f") {
		case "add":
			q = r.Add(a, b)
		case "sub":
			q = r.Sub(a, b)
		case "mul":
			q = r.Mul(a, b)
		}
		return M{"out": sch(q), "self": sch(r), "a2": sch(a), "b2": sch(b)}
	}
	ops["sc.un"] = func(w *world, s M) M {
		a := mkSc(str(s, "a"))
		r := curve.Scalar.Zero(curve.K256)
		if strOr(s, "alias", "new") == "self" {
			r = a
		}
		var q curve.EccScalar
		switch str(s, "f") {
		case "inv":
			q = r.Invert(a)
		case "neg":
			q = r.Negate(a)
		case "assign":
			q = r.Assign(a)
		case "clone":
			q = a.Clone()
			// a clone must not share state with the original
			q.Add(q, curve.Scalar.One(curve.K256))
			q = q.Sub(q, curve.Scalar.One(curve.K256))
			c := a.Clone()
			c.Negate(c)
			c.Add(c, curve.Scalar.One(curve.K256))
		}
		return M{"out": sch(q), "a2": sch(a)}
	}
	ops["sc.pred"] = func(w *world, s M) M {
		a, b := mkSc(str(s, "a")), mkSc(str(s, "b"))
		return M{"eq": a.Equal(b), "zero": a.IsZero(), "high": a.IsHigh(), "ser": hx(a.Serialize()), "tag": hx(a.SerializeTagged()), "big": hexBig(a.BigInt())}
	}
	ops["sc.dec"] = func(w *world, s M) M {
		var r curve.EccScalar
		var err error
		b := bytesOf(s, "b")
		switch str(s, "f") {
		case "raw":
			r, err = curve.Scalar.Deserialize(curve.K256, b)
		case "tagged":
			r, err = curve.Scalar.DeserializeTagged(b)
		case "wide":
			r, err = curve.Scalar.FromBytesWide(curve.K256, b)
		case "cbor":
			var raw []byte
			raw, err = cbor.Marshal(b)
			fail(err)
			x := curve.K256Scalar.Zero()
			err = x.UnmarshalCBOR(raw)
			r = x
		case "mega":
			var k *mega.MEGaPrivateKey
			k, err = mega.PrivateKey.Deserialize(curve.K256, b)
			if err == nil {
				return M{"out": sch(k.SecretScalar()), "back": hx(k.Serialize())}
			}
		}
		fail(err)
		return M{"out": sch(r), "back": hx(r.Serialize())}
	}
	// encode with every encoder, decode with the matching decoder
	ops["sc.round"] = func(w *world, s M) M {
		a := mkSc(str(s, "a"))
		r1, err := curve.Scalar.Deserialize(curve.K256, a.Serialize())
		fail(err)
		r2, err := curve.Scalar.DeserializeTagged(a.SerializeTagged())
		fail(err)
		c, err := a.(*curve.Secp256k1Scalar).MarshalCBOR()
		fail(err)
		r3 := curve.K256Scalar.Zero()
		fail(r3.UnmarshalCBOR(c))
		sb := curve.Scalar.ToScalarBytes(a)
		k, err := mega.PrivateKey.Deserialize(curve.K256, mega.NewMEGaPrivateKey(a).Serialize())
		fail(err)
		return M{"raw": sch(r1), "tagged": sch(r2), "cbor": sch(r3), "sbytes": sch(sb.ToScalar()), "sraw": hx(sb.ScalarBytes()), "mega": sch(k.SecretScalar())}
	}
	ops["sc.node"] = func(w *world, s M) M {
		return M{"out": sch(curve.Scalar.FromNodeIndex(curve.K256, node(s, "i")))}
	}
	ops["sc.const"] = func(w *world, s M) M {
		return M{"zero": sch(curve.Scalar.Zero(curve.K256)), "one": sch(curve.Scalar.One(curve.K256))}
	}

	ops["fe.bin"] = func(w *world, s M) M {
		a, b := mkFe(str(s, "a")), mkFe(str(s, "b"))
		r := curve.Field.Zero(curve.K256)
		switch strOr(s, "alias", "new") {
		case "lhs":
			r = a
		case "rhs":
			r = b
		}
		var q curve.EccFieldElement
		switch str(s, "f") {
		case "add":
			q = r.Add(a, b)
		case "sub":
			q = r.Sub(a, b)
		case "mul":
			q = r.Mul(a, b)
		}
		return M{"out": feh(q), "self": feh(r), "a2": feh(a), "b2": feh(b)}
	}
	ops["fe.un"] = func(w *world, s M) M {
		a := mkFe(str(s, "a"))
		r := curve.Field.Zero(curve.K256)
		if strOr(s, "alias", "new") == "self" {
			r = a
		}
		flag := 1
		var q curve.EccFieldElement
		switch str(s, "f") {
		case "inv":
			q = r.Invert(a)
		case "neg":
			q = r.Negate(a)
		case "sq":
			q = r.Square(a)
		case "sqrt":
			q, flag = r.Sqrt(a)
		case "assign":
			q = r.Assign(a)
		case "clone":
			q = a.Clone()
		}
		return M{"out": feh(q), "flag": flag, "a2": feh(a)}
	}
	ops["fe.pred"] = func(w *world, s M) M {
		a, b := mkFe(str(s, "a")), mkFe(str(s, "b"))
		c0, c1 := a.Clone(), a.Clone()
		c0.CAssign(b, 0)
		c1.CAssign(b, 1)
		return M{"eq": a.Equal(b), "zero": a.IsZero(), "sign": int(a.Sign()), "ser": hx(a.AsBytes()), "c0": feh(c0), "c1": feh(c1)}
	}
	ops["fe.dec"] = func(w *world, s M) M {
		var r curve.EccFieldElement
		var err error
		if str(s, "f") == "wide" {
			r, err = curve.Field.FromBytesWide(curve.K256, bytesOf(s, "b"))
		} else {
			r, err = curve.Field.FromBytes(curve.K256, bytesOf(s, "b"))
		}
		fail(err)
		return M{"out": feh(r)}
	}

	ops["pt.bin"] = func(w *world, s M) M {
		rep := strOr(s, "rep", "aff")
		a, b := mkPtRep(str(s, "a"), rep), mkPtRep(str(s, "b"), rep)
		if strOr(s, "alias", "") == "same" {
			b = a
		}
		r := curve.Point.Identity(curve.K256)
		switch strOr(s, "alias", "new") {
		case "lhs", "same":
			r = a
		case "rhs":
			r = b
		}
		var q curve.EccPoint
		switch str(s, "f") {
		case "add":
			q = r.AddPoints(a, b)
		case "sub":
			q = r.SubPoints(a, b)
		}
		return M{"out": pth(q), "self": pth(r), "a2": pth(a), "b2": pth(b)}
	}
	ops["pt.un"] = func(w *world, s M) M {
		a := mkPtRep(str(s, "a"), strOr(s, "rep", "aff"))
		r := curve.Point.Identity(curve.K256)
		if strOr(s, "alias", "new") == "self" {
			r = a
		}
		var q curve.EccPoint
		switch str(s, "f") {
		case "dbl":
			q = r.Double(a)
		case "assign":
			q = r.Assign(a)
		case "clone":
			q = a.Clone()
			c := a.Clone()
			c.AddPoints(c, curve.Point.GeneratorG(curve.K256))
			c.Double(c)
		}
		return M{"out": pth(q), "a2": pth(a)}
	}
	ops["pt.mul"] = func(w *world, s M) M {
		p, k := mkPtRep(str(s, "p"), strOr(s, "rep", "aff")), mkSc(str(s, "k"))
		r := curve.Point.Identity(curve.K256)
		if strOr(s, "alias", "new") == "self" {
			r = p
		}
		q := r.ScalarMul(p, k)
		return M{"out": pth(q), "p2": pth(p), "k2": sch(k)}
	}
	ops["pt.node"] = func(w *world, s M) M {
		p := mkPtRep(str(s, "p"), strOr(s, "rep", "aff"))
		q := p.MulByNodeIndex(node(s, "i"))
		return M{"out": pth(q), "p2": pth(p)}
	}
	ops["pt.lin"] = func(w *world, s M) M {
		p, q := mkPt(str(s, "p")), mkPt(str(s, "q"))
		a, b := mkSc(str(s, "a")), mkSc(str(s, "b"))
		return M{"out": pth(curve.Point.MulPoints(p, a, q, b)), "ped": pth(curve.Point.Pedersen(a, b)), "mulg": pth(curve.Point.MulByG(a)), "p2": pth(p), "q2": pth(q)}
	}
	ops["pt.pred"] = func(w *world, s M) M {
		a, b := mkPtRep(str(s, "a"), strOr(s, "rep", "aff")), mkPt(str(s, "b"))
		m := M{"eq": a.Equal(b), "eq2": b.Equal(a), "inf": a.IsInfinity(), "ser": hx(a.Serialize()), "tag": hx(a.SerializeTagged())}
		if !a.IsInfinity() {
			m["unc"] = hx(a.SerializeUncompressed())
			m["x"] = feh(a.AffineX())
			m["y"] = feh(a.AffineY())
		}
		return m
	}
	ops["pt.const"] = func(w *world, s M) M {
		// generators must be fresh values: using one must not change the next
		g := curve.Point.GeneratorG(curve.K256)
		g.Double(g)
		h := curve.Point.GeneratorH(curve.K256)
		h.Double(h)
		i := curve.Point.Identity(curve.K256)
		i.AddPoints(i, g)
		return M{"g": pth(curve.Point.GeneratorG(curve.K256)), "h": pth(curve.Point.GeneratorH(curve.K256)), "id": pth(curve.Point.Identity(curve.K256))}
	}
	ops["pt.dec"] = func(w *world, s M) M {
		var r curve.EccPoint
		var err error
		b := bytesOf(s, "b")
		switch str(s, "f") {
		case "strict":
			r, err = curve.Point.Deserialize(curve.K256, b)
		case "any":
			r, err = curve.Point.DeserializeAnyFormat(curve.K256, b)
		case "tagged":
			r, err = curve.Point.DeserializeTagged(curve.K256, b)
		case "cbor":
			var raw []byte
			raw, err = cbor.Marshal(b)
			fail(err)
			x := curve.K256Point.Identity()
			err = x.UnmarshalCBOR(raw)
			r = x
		case "mega":
			var k *mega.MEGaPublicKey
			k, err = mega.PublicKey.Deserialize(curve.K256, b)
			verr := mega.VerifyMegaPublicKey(curve.K256, b)
			if (err == nil) != (verr == nil) {
				return M{"out": "inconsistent"}
			}
			if err == nil {
				r = k.PublicPoint()
			}
		case "fields":
			var x, y curve.EccFieldElement
			x, err = curve.Field.FromBytes(curve.K256, b[:32])
			fail(err)
			y, err = curve.Field.FromBytes(curve.K256, b[32:])
			fail(err)
			r, err = curve.Point.FromFieldElems(x, y)
		}
		fail(err)
		return M{"out": pth(r)}
	}
	ops["pt.round"] = func(w *world, s M) M {
		a := mkPtRep(str(s, "a"), strOr(s, "rep", "aff"))
		r1, err := curve.Point.Deserialize(curve.K256, a.Serialize())
		fail(err)
		r2, err := curve.Point.DeserializeTagged(curve.K256, a.SerializeTagged())
		fail(err)
		c, err := a.(*curve.Secp256k1Point).MarshalCBOR()
		fail(err)
		r3 := curve.K256Point.Identity()
		fail(r3.UnmarshalCBOR(c))
		k, err := mega.PublicKey.Deserialize(curve.K256, mega.NewMEGaPublicKey(a).Serialize())
		fail(err)
		m := M{"raw": pth(r1), "tagged": pth(r2), "cbor": pth(r3), "mega": pth(k.PublicPoint()), "unc": pth(a), "fields": pth(a)}
		if !a.IsInfinity() {
			r4, err := curve.Point.DeserializeAnyFormat(curve.K256, a.SerializeUncompressed())
			fail(err)
			m["unc"] = pth(r4)
			r5, err := curve.Point.FromFieldElems(a.AffineX(), a.AffineY())
			fail(err)
			m["fields"] = pth(r5)
		}
		return m
	}
	// the encoded-point container
	rep := func(e curve.EncodePoint) M {
		c := e.Compress()
		again, err := curve.Encode.FromStr(e.ToString())
		fail(err)
		return M{"x": hx(e.X()), "y": hx(e.Y()), "tagv": int(e.Tag()), "ctag": int(e.Coordinates().Tag()), "len": e.Len(), "bytes": hx(e.AsBytes()), "str": e.ToString(), "again": hx(again.AsBytes()),
			"comp": hx(c.AsBytes()), "compx": hx(c.X()), "compy": hx(c.Y()), "compstr": c.ToString(), "compcomp": hx(c.Compress().AsBytes()),
			"iscompact": e.IsCompact(), "iscompressed": e.IsCompressed(), "isidentity": e.IsIdentity()}
	}
	ops["enc.dec"] = func(w *world, s M) M {
		var e curve.EncodePoint
		var err error
		b := str(s, "b")
		switch str(s, "via") {
		case "bytes":
			e, err = curve.Encode.FromBytes(bytesOf(s, "b"))
		case "lower":
			e, err = curve.Encode.FromStr(b)
		case "upper":
			e, err = curve.Encode.FromStr(strings.ToUpper(b))
		case "odd":
			e, err = curve.Encode.FromStr(b + "0")
		case "junk":
			e, err = curve.Encode.FromStr(b + "zz")
		}
		fail(err)
		return rep(e)
	}
	ops["enc.aff"] = func(w *world, s M) M {
		return rep(curve.Encode.FromAffineCoordinates(bytesOf(s, "ax"), bytesOf(s, "ay"), s["compress"].(bool)))
	}
	ops["enc.unt"] = func(w *world, s M) M { return rep(curve.Encode.FromUnTaggedBytes(bytesOf(s, "b"))) }
	ops["enc.sel"] = func(w *world, s M) M {
		a, err := curve.Encode.FromBytes(bytesOf(s, "a"))
		fail(err)
		b, err := curve.Encode.FromBytes(bytesOf(s, "b"))
		fail(err)
		m := rep(curve.Encode.ConditionalSelect(a, b, num(s, "choice")))
		m["a2"], m["b2"] = hx(a.AsBytes()), hx(b.AsBytes())
		return m
	}
	ops["enc.const"] = func(w *world, s M) M {
		if str(s, "f") == "default" {
			return rep(curve.Encode.Default())
		}
		return rep(curve.Encode.Identity())
	}
	_ = common.NodeIndex(0)
}
