package main

import (
	"crypto/sha512"
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/tidwall/btree"
	"reflect"
)

// mkPath builds a derivation path.
func mkPath(s M) *key.DerivationPath {
	return memo(mkey("path", list(s, "path")), func() interface{} {
		return key.New(memo(mkey("path components", list(s, "path")), func() interface{} {
			p := []key.DerivationIndex{}
			for _, x := range list(s, "path") {
				p = append(p, key.DerivationIndex(unhex(x.(string))))
			}
			return p
		}).([]key.DerivationIndex))
	}).(*key.DerivationPath)
}

// rhoRec records what the library derives from the context of a signature.
func rhoRec(w *world, s M) M {
	rho, tweak, rz, pre, err := sign.DeriveRho(curve.K256, bytesOf(s, "hash"), bytesOf(s, "rand"), mkPath(s), w.tr(str(s, "tkey")), w.tr(str(s, "tpre")))
	if err != nil {
		return M{"rho": "", "tweak": "", "rz": "", "pre": ""}
	}
	return M{"rho": sch(rho), "tweak": sch(tweak), "rz": sch(rz), "pre": pth(pre)}
}

func shareOps(x *sign.ThresholdEcdsaSigShareInternal) (n, d poly.CommitmentOpening) {
	n, _ = field(x, "sigmaNumerator", opType, 0).Interface().(poly.CommitmentOpening)
	d, _ = field(x, "sigmaDenominator", opType, 1).Interface().(poly.CommitmentOpening)
	return
}

func (w *world) share(name string) *sign.ThresholdEcdsaSigShareInternal {
	x, ok := w.get(name).(*sign.ThresholdEcdsaSigShareInternal)
	if !ok {
		bug("%s is not a share", name)
	}
	return x
}

func (w *world) shareMap(l []interface{}) *btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal] {
	return memo(mkey("shares", w.id, l), func() interface{} {
		m := &btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]{}
		for _, x := range l {
			p := x.([]interface{})
			m.Set(idxOf(p[0]), w.share(p[1].(string)))
		}
		return m
	}).(*btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal])
}

func (w *world) trOrNil(n string) *dealings.IDkgTranscriptInternal { return w.tr(n) }

func init() {
	ops["rho"] = func(w *world, s M) M {
		rho, tweak, rz, pre, err := sign.DeriveRho(curve.K256, bytesOf(s, "hash"), bytesOf(s, "rand"), mkPath(s), w.tr(str(s, "tkey")), w.tr(str(s, "tpre")))
		fail(err)
		return M{"rho": sch(rho), "tweak": sch(tweak), "rz": sch(rz), "pre": pth(pre)}
	}
	ops["share"] = func(w *world, s M) M {
		m := rhoRec(w, s)
		x, err := sign.NewThresholdEcdsaSigShareInternal(mkPath(s), bytesOf(s, "hash"), bytesOf(s, "rand"), w.tr(str(s, "tkey")), w.tr(str(s, "tpre")), w.opening(str(s, "lam")), w.opening(str(s, "kl")), w.opening(str(s, "xl")), curve.K256)
		fail(err)
		w.put(strOr(s, "out", ""), x)
		n, d := shareOps(x)
		m["num"], m["den"] = openingRec(n), openingRec(d)
		return m
	}
	ops["shmod"] = func(w *world, s M) M {
		x := *w.share(str(s, "in"))
		n, d := shareOps(&x)
		add := func(o poly.CommitmentOpening, i int) poly.CommitmentOpening {
			p := o.(poly.PedersenCommitmentOpening)
			r := poly.PedersenCommitmentOpening{p[0].Clone(), p[1].Clone()}
			r[i] = r[i].Add(r[i], mkSc(str(s, "d")))
			return r
		}
		switch str(s, "what") {
		case "nv":
			n = add(n, 0)
		case "nm":
			n = add(n, 1)
		case "dv":
			d = add(d, 0)
		case "dm":
			d = add(d, 1)
		case "swap":
			n, d = d, n
		case "nneg", "dneg", "neg":
			sign := func(o poly.CommitmentOpening) poly.CommitmentOpening {
				p := o.(poly.PedersenCommitmentOpening)
				return poly.PedersenCommitmentOpening{p[0].Clone().Negate(p[0]), p[1].Clone().Negate(p[1])}
			}
			if str(s, "what") != "dneg" {
				n = sign(n)
			}
			if str(s, "what") != "nneg" {
				d = sign(d)
			}
		case "nvm":
			p := n.(poly.PedersenCommitmentOpening)
			n = poly.PedersenCommitmentOpening{p[1].Clone(), p[0].Clone()}
		case "numfrom":
			n, _ = shareOps(w.share(str(s, "from")))
		case "denfrom":
			_, d = shareOps(w.share(str(s, "from")))
		case "numkind":
			n = poly.SimpleCommitmentOpening{n.(poly.PedersenCommitmentOpening)[0]}
		case "denkind":
			d = poly.SimpleCommitmentOpening{d.(poly.PedersenCommitmentOpening)[0]}
		case "numnil":
			n = nil
		case "dennil":
			d = nil
		default:
			bug("unknown share change")
		}
		put := func(name string, i int, o poly.CommitmentOpening) {
			f := field(&x, name, opType, i)
			if o == nil {
				f.Set(reflect.Zero(opType))
			} else {
				f.Set(reflect.ValueOf(o))
			}
		}
		put("sigmaNumerator", 0, n)
		put("sigmaDenominator", 1, d)
		w.put(str(s, "out"), &x)
		return M{}
	}
	ops["shver"] = func(w *world, s M) M {
		m := rhoRec(w, s)
		err := w.share(str(s, "s")).Verify(mkPath(s), bytesOf(s, "hash"), bytesOf(s, "rand"), node(s, "idx"), w.tr(str(s, "tkey")), w.tr(str(s, "tpre")), w.tr(str(s, "tlam")), w.tr(str(s, "tkl")), w.tr(str(s, "txl")), curve.K256)
		m["good"] = err == nil
		return m
	}
	ops["combine"] = func(w *world, s M) M {
		m := rhoRec(w, s)
		x, err := sign.NewThresholdEcdsaCombinedSigInternal(mkPath(s), bytesOf(s, "hash"), bytesOf(s, "rand"), w.tr(str(s, "tkey")), w.tr(str(s, "tpre")), num(s, "thr"), w.shareMap(list(s, "shares")), curve.K256)
		fail(err)
		w.put(strOr(s, "out", ""), x)
		m["r"], m["s"] = sch(x.R), sch(x.S)
		return m
	}
	ops["mksig"] = func(w *world, s M) M { // a signature from values, or from another one's values
		r, sv := strOr(s, "ri", ""), strOr(s, "si", "")
		x := &sign.ThresholdEcdsaCombinedSigInternal{}
		if f := strOr(s, "from", ""); f != "" {
			o := w.get(f).(*sign.ThresholdEcdsaCombinedSigInternal)
			x.R, x.S = o.R.Clone(), o.S.Clone()
			switch strOr(s, "what", "") {
			case "neg":
				x.S = x.S.Negate(x.S)
			case "negr":
				x.R = x.R.Negate(x.R)
			case "addr":
				x.R = x.R.Add(x.R, mkSc(str(s, "d")))
			case "adds":
				x.S = x.S.Add(x.S, mkSc(str(s, "d")))
			case "swap":
				x.R, x.S = x.S, x.R
			}
		}
		if r != "" {
			x.R = mkSc(r)
		}
		if sv != "" {
			x.S = mkSc(sv)
		}
		w.put(str(s, "out"), x)
		return M{"r": sch(x.R), "sv": sch(x.S)}
	}
	ops["sigver"] = func(w *world, s M) M {
		m := rhoRec(w, s)
		x := w.get(str(s, "s")).(*sign.ThresholdEcdsaCombinedSigInternal)
		err := x.Verify(mkPath(s), bytesOf(s, "hash"), bytesOf(s, "rand"), w.tr(str(s, "tkey")), w.tr(str(s, "tpre")), curve.K256)
		m["good"] = err == nil
		m["r"], m["sv"] = sch(x.R), sch(x.S)
		return m
	}
	ops["derive"] = func(w *world, s M) M {
		k, err := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: bytesOf(s, "pk")}, mkPath(s))
		fail(err)
		t, c, err := mkPath(s).DeriveTweak(mkPt(str(s, "pk")))
		fail(err)
		return M{"key": hx(k.PublicKey), "chain": hx(k.ChainKey), "tweak": sch(t), "chain2": hx(c)}
	}
	ops["conv"] = func(w *world, s M) M {
		p := mkPt(str(s, "pt"))
		r, err := sign.EcdsaConversion(p)
		fail(err)
		return M{"val": sch(r), "p2": pth(p)}
	}
	ops["hashint"] = func(w *world, s M) M {
		h := bytesOf(s, "hash")
		r, err := sign.ConvertHashToInteger(h, curve.K256)
		fail(err)
		return M{"val": sch(r), "h2": hx(h)}
	}
	ops["hmac"] = func(w *world, s M) M {
		msgs := [][]byte{}
		for _, x := range list(s, "msgs") {
			msgs = append(msgs, unhex(x.(string)))
		}
		k := bytesOf(s, "k")
		r, err := key.ComputeHMAC(sha512.New, k, msgs...)
		fail(err)
		return M{"val": hx(r), "k2": hx(k)}
	}
	ops["bip32"] = func(w *world, s M) M {
		p := []uint32{}
		for _, x := range list(s, "path") {
			p = append(p, uint32(idxOf(x)))
		}
		k, err := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: bytesOf(s, "pk")}, key.NewBip32(p))
		fail(err)
		return M{"key": hx(k.PublicKey), "chain": hx(k.ChainKey)}
	}
	ops["next"] = func(w *world, s M) M {
		d := key.DerivationIndex(bytesOf(s, "i"))
		n := d.Next()
		return M{"out": hx(n), "orig": hx(d), "again": hx(d.Next())}
	}
}
