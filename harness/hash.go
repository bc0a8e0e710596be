package main

import (
	"encoding/binary"
	"reflect"
	"strconv"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
)

func mkSeed(s M, k string) *seed.Seed {
	return memo(mkey("seed", list(s, k)), func() interface{} { return mkSeed1(s, k) }).(*seed.Seed)
}

func mkSeed1(s M, k string) *seed.Seed {
	var x *seed.Seed
	skip := func(c M) rand.Rand {
		r := x.Rng()
		r.FillUint8(make([]byte, num(c, "skip")))
		return r
	}
	for _, v := range list(s, k) {
		c := v.(M)
		switch str(c, "t") {
		case "bytes":
			x = seed.FromBytes(bytesOf(c, "v"))
		case "new":
			x = seed.NewSeed(bytesOf(c, "v"), string(bytesOf(c, "dom")))
		case "derive":
			x = x.Derive(string(bytesOf(c, "dom")))
		case "rng":
			x = seed.FromRng(skip(c))
		case "stream":
			x = seed.FromRandomness(skip(c))
		default:
			bug("unknown seed step")
		}
	}
	return x
}

// fixed is a generator that returns given bytes.
type fixed struct {
	b    []byte
	used int
}

func (f *fixed) take(n int) []byte {
	if f.used+n > len(f.b) {
		panic("the scripted generator ran out of bytes")
	}
	f.used += n
	return f.b[f.used-n : f.used]
}
func (f *fixed) Uint32() uint32      { return binary.BigEndian.Uint32(f.take(4)) }
func (f *fixed) Uint64() uint64      { return binary.BigEndian.Uint64(f.take(8)) }
func (f *fixed) FillUint8(b []uint8) { copy(b, f.take(len(b))) }
func (f *fixed) XORKeyStream(dst, src []byte) {
	t := f.take(len(src))
	for i := range src {
		dst[i] = src[i] ^ t[i]
	}
}

func fehs(l []curve.EccFieldElement) []string {
	r := []string{}
	for _, x := range l {
		r = append(r, feh(x))
	}
	return r
}

type zkProof struct{ p interface{} }

func (w *world) proof(s M, k string) interface{} { return w.get(str(s, k)).(zkProof).p }

func zkVals(p interface{}) []string {
	switch x := p.(type) {
	case *zk.ProofOfDLogEquivalence, *zk.ProofOfEqualOpenings:
		return []string{sch(getSc(x, "challenge", 0)), sch(getSc(x, "response", 1))}
	case *zk.ProofOfProduct:
		return []string{sch(getSc(x, "challenge", 0)), sch(getSc(x, "response1", 1)), sch(getSc(x, "response2", 2))}
	}
	bug("not a proof")
	return nil
}

func zkFrom(t string, v []curve.EccScalar) interface{} {
	switch t {
	case "dleq":
		p := &zk.ProofOfDLogEquivalence{}
		setSc(p, "challenge", 0, v[0])
		setSc(p, "response", 1, v[1])
		return p
	case "eq":
		p := &zk.ProofOfEqualOpenings{}
		setSc(p, "challenge", 0, v[0])
		setSc(p, "response", 1, v[1])
		return p
	case "prod":
		p := &zk.ProofOfProduct{}
		setSc(p, "challenge", 0, v[0])
		setSc(p, "response1", 1, v[1])
		setSc(p, "response2", 2, v[2])
		return p
	}
	bug("unknown proof")
	return nil
}

func zkClone(p interface{}) interface{} {
	switch x := p.(type) {
	case *zk.ProofOfDLogEquivalence:
		return x.Clone()
	case *zk.ProofOfEqualOpenings:
		return x.Clone()
	case *zk.ProofOfProduct:
		return x.Clone()
	}
	return p
}

func zkPts(s M, k string) []curve.EccPoint {
	r := pts(s, k, strOr(s, "rep", "aff"))
	if flag(s, "clone") {
		r = append([]curve.EccPoint{}, r...)
		for i := range r {
			r[i] = r[i].Clone()
		}
	}
	return r
}

func init() {
	ops["xmd"] = func(w *world, s M) M {
		b, err := seed.ExpandMessageXmd(bytesOf(s, "msg"), bytesOf(s, "dst"), num(s, "len"))
		fail(err)
		return M{"val": hx(b)}
	}
	ops["h2c"] = func(w *world, s M) M {
		switch str(s, "f") {
		case "point", "vector":
			p, err := curve.Point.HashToPoint(curve.K256, bytesOf(s, "msg"), bytesOf(s, "dst"))
			fail(err)
			return M{"val": pth(p)}
		case "scalar":
			x, err := curve.Scalar.HashToScalar(curve.K256, bytesOf(s, "msg"), bytesOf(s, "dst"))
			fail(err)
			return M{"val": sch(x)}
		case "scalars":
			x, err := curve.Scalar.HashToSeveralScalar(curve.K256, num(s, "n"), bytesOf(s, "msg"), bytesOf(s, "dst"))
			fail(err)
			return M{"val": schs(x)}
		case "fields":
			x, err := curve.HashToField(num(s, "n"), curve.K256, bytesOf(s, "msg"), bytesOf(s, "dst"))
			fail(err)
			return M{"val": fehs(x)}
		case "map":
			u := mkFe(str(s, "u"))
			p, err := curve.MapToCurve(u)
			fail(err)
			return M{"val": pth(p), "u2": feh(u)}
		}
		bug("unknown hash")
		return nil
	}
	ops["rng"] = func(w *world, s M) M {
		sd := mkSeed(s, "seed")
		hs := map[int]rand.Rand{}
		out := []string{}
		for _, v := range list(s, "reads") {
			r := v.(M)
			h := num(r, "h")
			if hs[h] == nil {
				hs[h] = sd.Rng()
			}
			g := hs[h]
			switch str(r, "f") {
			case "u32":
				var b [4]byte
				binary.BigEndian.PutUint32(b[:], g.Uint32())
				out = append(out, hx(b[:]))
			case "u64":
				var b [8]byte
				binary.BigEndian.PutUint64(b[:], g.Uint64())
				out = append(out, hx(b[:]))
			case "fill":
				b := make([]byte, num(r, "n"))
				for i := range b {
					b[i] = byte(0xa5 + i)
				}
				g.FillUint8(b)
				out = append(out, hx(b))
			case "xor":
				src := bytesOf(r, "src")
				dst := make([]byte, len(src))
				g.XORKeyStream(dst, src)
				if !reflect.DeepEqual(src, bytesOf(r, "src")) {
					out = append(out, "source changed")
				} else {
					out = append(out, hx(dst))
				}
			case "xorself":
				b := append([]byte{}, bytesOf(r, "src")...)
				g.XORKeyStream(b, b)
				out = append(out, hx(b))
			}
		}
		return M{"vals": out}
	}
	ops["sc.random"] = func(w *world, s M) M {
		f := &fixed{b: bytesOf(s, "stream")}
		x := curve.Scalar.Random(curve.K256, f)
		return M{"val": sch(x), "used": f.used}
	}
	ops["sc.fromseed"] = func(w *world, s M) M {
		return M{"val": sch(curve.Scalar.FromSeed(curve.K256, mkSeed(s, "seed")))}
	}
	ops["ro.new"] = func(w *world, s M) M {
		w.put(str(s, "out"), ro.NewRandomOracle(string(bytesOf(s, "sep"))))
		return M{}
	}
	ops["ro.add"] = func(w *world, s M) M {
		r := w.get(str(s, "ro")).(*ro.RandomOracle)
		n := string(bytesOf(s, "name"))
		switch str(s, "t") {
		case "bytes":
			fail(r.AddBytesString(n, bytesOf(s, "v")))
		case "long":
			b := make([]byte, num(s, "n"))
			for i := range b {
				b[i] = bytesOf(s, "v")[0]
			}
			fail(r.AddBytesString(n, b))
		case "u32":
			x, err := strconv.ParseUint(str(s, "v"), 10, 32)
			if err != nil {
				bug("%v", err)
			}
			fail(r.AddUint32(n, uint32(x)))
		case "u64":
			x, err := strconv.ParseUint(str(s, "v"), 10, 64)
			if err != nil {
				bug("%v", err)
			}
			fail(r.AddUint64(n, x))
		case "point":
			fail(r.AddPoint(n, mkPtRep(str(s, "v"), strOr(s, "rep", "aff"))))
		case "scalar":
			fail(r.AddScalar(n, mkSc(str(s, "v"))))
		case "points":
			fail(r.AddPoints(n, pts(s, "v", strOr(s, "rep", "aff"))))
		case "raw":
			fail(r.AddInput(n, bytesOf(s, "v"), ro.RandomOracleInputType(num(s, "ty"))))
		default:
			bug("unknown input")
		}
		return M{}
	}
	ops["ro.out"] = func(w *world, s M) M {
		r := w.get(str(s, "ro")).(*ro.RandomOracle)
		switch str(s, "t") {
		case "bytes":
			b, err := r.OutputByteString(num(s, "n"))
			fail(err)
			return M{"val": hx(b)}
		case "scalar":
			x, err := r.OutputScalar(curve.K256)
			fail(err)
			return M{"val": sch(x)}
		case "scalars":
			x, err := r.OutputScalars(curve.K256, num(s, "n"))
			fail(err)
			return M{"val": schs(x)}
		case "point":
			x, err := r.OutputPoint(curve.K256)
			fail(err)
			return M{"val": pth(x)}
		}
		bug("unknown output")
		return nil
	}

	ops["zk.make"] = func(w *world, s M) M {
		v := scs(s, "wit")
		sd := mkSd(str(s, "seed"))
		ad := bytesOf(s, "ad")
		var p interface{}
		var err error
		switch str(s, "t") {
		case "dleq":
			p, err = (&zk.ProofOfDLogEquivalenceIns).Create(sd, v[0], mkPtRep(str(s, "g"), strOr(s, "rep", "aff")), mkPtRep(str(s, "h"), strOr(s, "rep", "aff")), ad)
		case "eq":
			p, err = zk.ProofOfEqualOpeningsIns.Create(sd, v[0], v[1], ad)
		case "prod":
			p, err = (&zk.ProofOfProductIns).Create(sd, v[0], v[1], v[2], v[3], v[4], ad)
		}
		fail(err)
		w.put(str(s, "out"), zkProof{p})
		return M{"p": zkVals(p)}
	}
	ops["zk.build"] = func(w *world, s M) M {
		c := mkSc(zkValsOf(w.get(str(s, "from")))[0])
		l := []curve.EccScalar{c.Clone().Add(c, mkSc(str(s, "dc")))}
		for _, x := range list(s, "lin") {
			ab := x.([]interface{})
			a, b := mkSc(ab[0].(string)), mkSc(ab[1].(string))
			t := b.Clone().Mul(b, c)
			l = append(l, t.Add(t, a))
		}
		w.put(str(s, "out"), zkProof{zkFrom(str(s, "t"), l)})
		return M{}
	}
	ops["zk.mod"] = func(w *world, s M) M {
		l := []curve.EccScalar{}
		for i, v := range zkVals(w.proof(s, "from")) {
			x := mkSc(v)
			l = append(l, x.Clone().Add(x, mkSc(list(s, "d")[i].(string))))
		}
		w.put(str(s, "out"), zkProof{zkFrom(str(s, "t"), l)})
		return M{}
	}
	ops["zk.hash"] = func(w *world, s M) M {
		st, com := zkPts(s, "st"), zkPts(s, "com")
		ad := bytesOf(s, "ad")
		var c curve.EccScalar
		var err error
		switch str(s, "t") {
		case "dleq":
			i, e := zk.ProofOfDLogEquivalenceIns.FromCommitments(st[0], st[1], st[2], st[3])
			fail(e)
			c, err = i.HashToChallenge(com[0], com[1], ad)
		case "eq":
			c, err = zk.ProofOfEqualOpeningsIns.FromCommitments(st[0], st[1]).HashToChallenge(com[0], ad)
		case "prod":
			c, err = zk.ProofOfProductIns.FromCommitments(st[0], st[1], st[2]).HashToChallenge(com[0], com[1], ad)
		}
		fail(err)
		w.put(strOr(s, "out", ""), zkChal{sch(c)})
		return M{"c": sch(c)}
	}
	ops["zk.rec"] = func(w *world, s M) M {
		st := zkPts(s, "st")
		p := w.proof(s, "p")
		switch x := p.(type) {
		case *zk.ProofOfDLogEquivalence:
			i, e := zk.ProofOfDLogEquivalenceIns.FromCommitments(st[0], st[1], st[2], st[3])
			fail(e)
			a, b, err := i.RecoverCommitments(x)
			fail(err)
			return M{"com": pths([]curve.EccPoint{a, b})}
		case *zk.ProofOfEqualOpenings:
			return M{"com": pths([]curve.EccPoint{zk.ProofOfEqualOpeningsIns.FromCommitments(st[0], st[1]).RecoverCommitments(x)})}
		case *zk.ProofOfProduct:
			a, b := zk.ProofOfProductIns.FromCommitments(st[0], st[1], st[2]).RecoverCommitment(x)
			return M{"com": pths([]curve.EccPoint{a, b})}
		}
		bug("not a proof")
		return nil
	}
	ops["zk.ver"] = func(w *world, s M) M {
		st := zkPts(s, "st")
		ad := bytesOf(s, "ad")
		p := w.proof(s, "p")
		if flag(s, "clone") {
			p = zkClone(p)
		}
		switch x := p.(type) {
		case *zk.ProofOfDLogEquivalence:
			fail(x.Verify(st[0], st[1], st[2], st[3], ad))
		case *zk.ProofOfEqualOpenings:
			fail(x.Verify(st[0], st[1], ad))
		case *zk.ProofOfProduct:
			fail(x.Verify(st[0], st[1], st[2], ad))
		}
		return M{}
	}
}

type zkChal struct{ c string }

func zkValsOf(o interface{}) []string {
	switch x := o.(type) {
	case zkChal:
		return []string{x.c}
	case zkProof:
		return zkVals(x.p)
	}
	bug("not a proof or challenge")
	return nil
}
