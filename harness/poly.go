package main

import (
	"bytes"
	"errors"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/seed"
)

var cmDeserialize func([]byte) (poly.PolynomialCommitment, error)

func scs(s M, k string) []curve.EccScalar {
	return memo(mkey("list of scs", list(s, k)), func() interface{} {
		out := []curve.EccScalar{}
		for _, x := range list(s, k) {
			out = append(out, mkSc(x.(string)))
		}
		return out
	}).([]curve.EccScalar)
}

func pts(s M, k, rep string) []curve.EccPoint {
	return memo(mkey("list of pts", list(s, k), rep), func() interface{} {
		out := []curve.EccPoint{}
		for _, x := range list(s, k) {
			out = append(out, mkPtRep(x.(string), rep))
		}
		return out
	}).([]curve.EccPoint)
}

func nodes(s M, k string) []common.NodeIndex {
	return memo(mkey("list of nodes", list(s, k)), func() interface{} {
		out := []common.NodeIndex{}
		for _, x := range list(s, k) {
			out = append(out, node(M{"i": x}, "i"))
		}
		return out
	}).([]common.NodeIndex)
}

func schs(a []curve.EccScalar) []string {
	out := []string{}
	for _, x := range a {
		out = append(out, sch(x))
	}
	return out
}

func pths(a []curve.EccPoint) []string {
	out := []string{}
	for _, x := range a {
		out = append(out, pth(x))
	}
	return out
}

// coeffs reads the first k coefficients through the public accessor.
func coeffs(p *poly.Polynomial, k int) []string {
	out := []string{}
	for i := 0; i < k; i++ {
		out = append(out, sch(p.Coeff(i)))
	}
	return out
}

func mkCom(kind string, ps []curve.EccPoint) poly.PolynomialCommitment {
	if kind == "S" {
		return poly.SimpleCM.New(ps)
	}
	return poly.PedersenCM.New(ps)
}

func kindOf(c poly.PolynomialCommitment) string {
	switch c.Type() {
	case poly.Simple:
		return "S"
	case poly.Pedersen:
		return "P"
	}
	return "?"
}

func mkOpening(s M) poly.CommitmentOpening {
	switch str(s, "okind") {
	case "S":
		o := poly.SimpleCommitmentOpening{mkSc(str(s, "v"))}
		if flag(s, "ptr") {
			return &o
		}
		return o
	case "P":
		o := poly.PedersenCommitmentOpening{mkSc(str(s, "v")), mkSc(str(s, "m"))}
		if flag(s, "ptr") {
			return &o
		}
		return o
	}
	return nil
}

// openingRec describes an opening as kind, value and mask.
func openingRec(o poly.CommitmentOpening) M {
	switch x := o.(type) {
	case poly.SimpleCommitmentOpening:
		return M{"k": "S", "v": sch(x[0]), "m": ""}
	case *poly.SimpleCommitmentOpening:
		return M{"k": "S", "v": sch(x[0]), "m": ""}
	case poly.PedersenCommitmentOpening:
		return M{"k": "P", "v": sch(x[0]), "m": sch(x[1])}
	case *poly.PedersenCommitmentOpening:
		return M{"k": "P", "v": sch(x[0]), "m": sch(x[1])}
	}
	return M{"k": "none", "v": "", "m": ""}
}

func comRec(c poly.PolynomialCommitment) M { return M{"k": kindOf(c), "p": pths(c.Points())} }

func mutate(enc []byte, s M) ([]byte, bool) {
	switch str(s, "mut") {
	case "none":
		return enc, true
	case "trunc": // keep i parts of 8, or drop i bytes from the end
		if num(s, "n") < 100 {
			return enc[:len(enc)*num(s, "n")/8], true
		}
		return enc[:len(enc)-(num(s, "n")-99)], true
	case "append":
		return append(append([]byte{}, enc...), bytesOf(s, "b")...), true
	case "subst":
		old := bytesOf(s, "old")
		if !bytes.Contains(enc, old) {
			return enc, false
		}
		return bytes.Replace(enc, old, bytesOf(s, "b"), 1), true
	case "raw":
		return bytesOf(s, "b"), true
	}
	bug("unknown mutation")
	return nil, false
}

func init() {
	ops["poly.bin"] = func(w *world, s M) M {
		a, b := poly.Poly.New(curve.K256, scs(s, "a")), poly.Poly.New(curve.K256, scs(s, "b"))
		k := 2*(len(list(s, "a"))+len(list(s, "b"))) + 2
		r := poly.Poly.Zero(curve.K256)
		switch strOr(s, "alias", "new") {
		case "lhs":
			r = a
		case "rhs":
			r = b
		case "same":
			b = a
			r = a
		}
		var q *poly.Polynomial
		if str(s, "f") == "add" {
			q = r.Add(a, b)
		} else {
			q = r.Mul(a, b)
		}
		return M{"out": coeffs(q, k), "self": coeffs(r, k), "a2": coeffs(a, k), "b2": coeffs(b, k), "nz": q.NonZeroCoefficients(), "iszero": q.IsZero()}
	}
	ops["poly.mulsc"] = func(w *world, s M) M {
		a, x := poly.Poly.New(curve.K256, scs(s, "a")), mkSc(str(s, "x"))
		k := len(list(s, "a")) + 2
		r := poly.Poly.New(curve.K256, []curve.EccScalar{curve.Scalar.FromUint64(curve.K256, 5), curve.Scalar.FromUint64(curve.K256, 9)})
		if flag(s, "self") {
			r = a
		}
		q := r.MulScalar(a, x)
		return M{"out": coeffs(q, k), "a2": coeffs(a, k), "x2": sch(x)}
	}
	ops["poly.eval"] = func(w *world, s M) M {
		a, x := poly.Poly.New(curve.K256, scs(s, "a")), mkSc(str(s, "x"))
		v := a.EvaluateAt(x)
		return M{"out": sch(v), "again": sch(a.EvaluateAt(x)), "x2": sch(x), "a2": coeffs(a, len(list(s, "a")))}
	}
	ops["poly.pred"] = func(w *world, s M) M {
		a, b := poly.Poly.New(curve.K256, scs(s, "a")), poly.Poly.New(curve.K256, scs(s, "b"))
		return M{"eq": a.Equal(b), "eq2": b.Equal(a), "nz": a.NonZeroCoefficients(), "iszero": a.IsZero()}
	}
	ops["poly.interp"] = func(w *world, s M) M {
		xs, ys := scs(s, "xs"), scs(s, "ys")
		var smp [][2]curve.EccScalar
		for i := range xs {
			smp = append(smp, [2]curve.EccScalar{xs[i], ys[i]})
		}
		p, err := poly.Poly.Interpolate(curve.K256, smp)
		fail(err)
		return M{"out": coeffs(p, len(xs)+2), "xs2": schs(xs), "ys2": schs(ys)}
	}
	ops["poly.rand"] = func(w *world, s M) M {
		rng := rand.NewChaCha20(bytesOf(s, "key"))
		n := num(s, "n")
		if c := strOr(s, "c", ""); c != "" {
			p, err := poly.Poly.RandomWithConstant(mkSc(c), n, rng)
			fail(err)
			return M{"out": coeffs(p, n+2), "next": hx(fill(rng, 8))}
		}
		p := poly.Poly.Random(curve.K256, n, rng)
		return M{"out": coeffs(p, n+2), "next": hx(fill(rng, 8))}
	}
	ops["lag.at"] = func(w *world, s M) M {
		nd := nodes(s, "nodes")
		c, err := (&poly.Lagrange).AtValue(mkSc(str(s, "x")), nd)
		fail(err)
		m := M{"out": schs(c.Coefficients())}
		if str(s, "x") == sch(curve.Scalar.Zero(curve.K256)) {
			z, err := (&poly.Lagrange).AtZero(curve.K256, nd)
			fail(err)
			m["zero"] = schs(z.Coefficients())
			m["eq"] = z.Equal(c)
		}
		return m
	}
	ops["lag.interp"] = func(w *world, s M) M {
		c, err := (&poly.Lagrange).AtValue(mkSc(str(s, "x")), nodes(s, "nodes"))
		fail(err)
		ys := scs(s, "ys")
		ps := pts(s, "ps", strOr(s, "rep", "aff"))
		v, err1 := c.InterpolateScalar(ys)
		p, err2 := c.InterpolatePoint(ps)
		if (err1 == nil) != (err2 == nil) {
			return M{"sc": "inconsistent", "pt": "inconsistent"}
		}
		fail(err1)
		return M{"sc": sch(v), "pt": pth(p), "ys2": schs(ys), "ps2": pths(ps), "sc2": sch(must(c.InterpolateScalar(ys)))}
	}
	ops["lag.cmp"] = func(w *world, s M) M {
		a, err := poly.Lagrange.New(scs(s, "a"))
		fail(err)
		b, err := poly.Lagrange.New(scs(s, "b"))
		fail(err)
		return M{"eq": a.Equal(b)}
	}
	ops["cm.create"] = func(w *world, s M) M {
		a := poly.Poly.New(curve.K256, scs(s, "a"))
		var c poly.PolynomialCommitment
		if str(s, "kind") == "S" {
			x, err := poly.SimpleCM.Create(a, num(s, "n"))
			fail(err)
			c = x
		} else {
			x, err := poly.PedersenCM.Create(a, poly.Poly.New(curve.K256, scs(s, "b")), num(s, "n"))
			fail(err)
			c = x
		}
		return M{"com": comRec(c), "len": c.Len()}
	}
	ops["cm.eval"] = func(w *world, s M) M {
		c := mkCom(str(s, "kind"), pts(s, "ps", strOr(s, "rep", "aff")))
		v := c.EvaluateAt(node(s, "i"))
		return M{"out": pth(v), "c0": pth(c.ConstantTerm()), "ps2": pths(c.Points()), "again": pth(c.EvaluateAt(node(s, "i"))), "cl": comRec(c.Clone())}
	}
	ops["cm.check"] = func(w *world, s M) M {
		c := mkCom(str(s, "kind"), pts(s, "ps", strOr(s, "rep", "aff")))
		o := mkOpening(s)
		ok := c.CheckOpening(node(s, "i"), o)
		r, err := c.ReturnOpeningIfConsistent(node(s, "i"), o)
		m := M{"out": ok, "ret": err == nil, "is": c.VerifyIs(c.Type(), curve.K256) == nil}
		if err == nil {
			m["val"] = openingRec(r)
		}
		return m
	}
	ops["cm.cmp"] = func(w *world, s M) M {
		mk := func(kind, ps, rep, cls string) (poly.PolynomialCommitment, dealings.IDkgTranscriptInternal) {
			c := mkCom(str(s, kind), pts(s, ps, rep))
			if cls == "sum" {
				return c, dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: c}}
			}
			return c, dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: c}}
		}
		a, ta := mk("k1", "p1", strOr(s, "rep", "aff"), strOr(s, "c1", "int"))
		b, tb := mk("k2", "p2", "aff", strOr(s, "c2", "int"))
		return M{"eq": a.Equal(b), "eq2": b.Equal(a), "cmp": ta.Compare(tb), "cmp2": tb.Compare(ta), "r1": hx(a.StableRepresentation()), "r2": hx(b.StableRepresentation())}
	}
	ops["cm.round"] = func(w *world, s M) M {
		c := mkCom(str(s, "kind"), pts(s, "ps", strOr(s, "rep", "aff")))
		enc, err := c.Serialize()
		fail(err)
		mu, found := mutate(enc, s)
		if cmDeserialize == nil {
			return M{"nohook": true}
		}
		if !found {
			return M{"skipped": true}
		}
		d, err := cmDeserialize(mu)
		fail(err)
		enc2, err := d.Serialize()
		fail(err)
		return M{"com": comRec(d), "same": bytes.Equal(enc, enc2), "skipped": false, "eq": c.Equal(d)}
	}
	ops["op.round"] = func(w *world, s M) M {
		o := mkOpening(s)
		if flag(s, "bytes") { // through the byte form of the opening
			o2 := o.ToCommitmentOpeningBytes().ToCommitmentOpening()
			return M{"val": openingRec(o2), "same": true, "skipped": false}
		}
		enc, err := o.Serialize()
		fail(err)
		mu, found := mutate(enc, s)
		if !found {
			return M{"skipped": true}
		}
		d, err := poly.Commitment.Deserialize(mu)
		fail(err)
		if d == nil {
			fail(errors.New("nil"))
		}
		enc2, err := d.Serialize()
		fail(err)
		return M{"val": openingRec(d), "same": bytes.Equal(enc, enc2), "skipped": false}
	}
	_ = seed.FromBytes
}

func must(x curve.EccScalar, err error) curve.EccScalar {
	fail(err)
	return x
}

func fill(r rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.FillUint8(b)
	return b
}
