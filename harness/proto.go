package main

import (
	"fmt"
	"reflect"
	"strconv"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"
)

type keyObj struct {
	sk *mega.MEGaPrivateKey
	pk *mega.MEGaPublicKey
}
type dealObj struct {
	d *dealings.IDkgDealingInternal
}

func (w *world) put(name string, v interface{}) {
	if name == "" {
		return
	}
	w.mu.Lock()
	w.objs[name] = v
	if w.made != nil {
		w.made[name] = true
	}
	w.mu.Unlock()
}

func (w *world) get(name string) interface{} {
	w.mu.RLock()
	defer w.mu.RUnlock()
	v, ok := w.objs[name]
	if !ok {
		// the operation that should have made the object failed
		panic(missingObj{name})
	}
	return v
}

type missingObj struct{ name string }

func (w *world) key(s M, k string) keyObj {
	v, ok := w.get(str(s, k)).(keyObj)
	if !ok {
		bug("%s is not a key", k)
	}
	return v
}
func (w *world) deal(name string) *dealings.IDkgDealingInternal {
	v, ok := w.get(name).(dealObj)
	if !ok {
		bug("%s is not a dealing", name)
	}
	return v.d
}
func (w *world) tr(name string) *dealings.IDkgTranscriptInternal {
	v, ok := w.get(name).(*dealings.IDkgTranscriptInternal)
	if !ok {
		bug("%s is not a transcript", name)
	}
	return v
}
func (w *world) opening(name string) poly.CommitmentOpening {
	v := w.get(name)
	if v == nil {
		return nil
	}
	o, ok := v.(poly.CommitmentOpening)
	if !ok {
		bug("%s is not an opening", name)
	}
	return o
}
func (w *world) pk(s M) *mega.MEGaPublicKey {
	if k := strOr(s, "pk", ""); k != "" {
		return w.key(s, "pk").pk
	}
	return w.key(s, "key").pk
}

func (w *world) pks(s M) []*mega.MEGaPublicKey {
	return memo(mkey("recipients", w.id, list(s, "recips")), func() interface{} {
		var pks []*mega.MEGaPublicKey
		for _, r := range list(s, "recips") {
			pks = append(pks, w.get(r.(string)).(keyObj).pk)
		}
		return pks
	}).([]*mega.MEGaPublicKey)
}

func idxOf(x interface{}) common.NodeIndex {
	switch t := x.(type) {
	case string:
		n, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			bug("bad index %q", t)
		}
		return common.NodeIndex(n)
	case float64:
		return common.NodeIndex(int(t))
	}
	bug("bad index %v", x)
	return 0
}

// field gives access to a field (possibly unexported) of the struct p points to: the one with the
// given name, or else the n-th field of type t.
func field(p interface{}, name string, t reflect.Type, n int) reflect.Value {
	v := reflect.ValueOf(p).Elem()
	f := v.FieldByName(name)
	if !f.IsValid() || f.Type() != t {
		f = reflect.Value{}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == t {
				if n == 0 {
					f = v.Field(i)
					break
				}
				n--
			}
		}
	}
	if !f.IsValid() {
		bug("no field %s of %T", name, p)
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

var scType = reflect.TypeOf((*curve.EccScalar)(nil)).Elem()
var ptType = reflect.TypeOf((*curve.EccPoint)(nil)).Elem()
var opType = reflect.TypeOf((*poly.CommitmentOpening)(nil)).Elem()
var dleqType = reflect.TypeOf((*zk.ProofOfDLogEquivalence)(nil))

func getSc(p interface{}, name string, n int) curve.EccScalar {
	v, _ := field(p, name, scType, n).Interface().(curve.EccScalar)
	return v
}
func setSc(p interface{}, name string, n int, s curve.EccScalar) {
	field(p, name, scType, n).Set(reflect.ValueOf(s))
}
func addSc(p interface{}, name string, n int, d string) {
	s := getSc(p, name, n)
	setSc(p, name, n, s.Clone().Add(s, mkSc(d)))
}

func plus(p curve.EccPoint, d string) curve.EccPoint { return p.Clone().AddPoints(p, mkPt(d)) }

func neg(p curve.EccPoint) curve.EccPoint {
	h := []byte(pth(p))
	switch string(h[:2]) {
	case "02":
		h[1] = '3'
	case "03":
		h[1] = '2'
	}
	return mkPt(string(h)).Clone()
}

func curveOf(s M) curve.EccCurveType { return curve.K256 }

func mkSecret(w *world, s M) dealings.SecretShares {
	x, _ := memo(mkey("secret", w.id, s), func() interface{} { return secret(w, s) }).(dealings.SecretShares)
	return x
}

func secret(w *world, s M) interface{} {
	switch str(s, "t") {
	case "rand":
		return &dealings.RandomSecret{}
	case "unm":
		return &dealings.ReshareOfUnmaskedSecret{S1: mkSc(str(s, "s1"))}
	case "msk":
		return &dealings.ReshareOfMaskedSecret{S1: mkSc(str(s, "s1")), S2: mkSc(str(s, "s2"))}
	case "mul":
		return &dealings.UnmaskedTimesMaskedSecret{Left: mkSc(str(s, "s1")), Right: [2]curve.EccScalar{mkSc(str(s, "s2")), mkSc(str(s, "s3"))}}
	case "open": // from openings obtained earlier, through their byte form
		var o1, o2 poly.CommitmentOpeningBytes
		o1 = w.opening(str(s, "o1")).ToCommitmentOpeningBytes()
		if n := strOr(s, "o2", ""); n != "" {
			o2 = w.opening(n).ToCommitmentOpeningBytes()
		}
		x, err := dealings.Secret.From(o1, o2)
		fail(err)
		return x
	case "nil":
		return nil
	case "int":
		return 7
	case "value":
		return dealings.RandomSecret{}
	}
	bug("unknown secret")
	return nil
}

func (w *world) commitment(s M, k string) poly.PolynomialCommitment {
	n := strOr(s, k, "")
	if n == "" {
		return nil
	}
	c := w.tr(n).CombinedCommitment
	if flag(s, "wrap") {
		return c
	}
	switch x := c.(type) {
	case *dealings.SummationCommitment:
		return x.PolynomialCommitment
	case *dealings.InterpolationCommitment:
		return x.PolynomialCommitment
	}
	return c
}

func mkOperation(w *world, v interface{}) dealings.IDkgTranscriptOperationInternal {
	s := v.(M)
	x, _ := memo(mkey("operation", w.id, s), func() interface{} { return operation(w, s) }).(dealings.IDkgTranscriptOperationInternal)
	return x
}

func operation(w *world, s M) interface{} {
	switch str(s, "t") {
	case "rand":
		return &dealings.RandomTranscript{}
	case "unm":
		return &dealings.ReshareOfUnmaskedTranscript{P1: w.commitment(s, "p1")}
	case "msk":
		return &dealings.ReshareOfMaskedTranscript{P1: w.commitment(s, "p1")}
	case "mul":
		return &dealings.UnmaskedTimesMaskedTranscript{Left: w.commitment(s, "p1"), Right: w.commitment(s, "p2")}
	case "nil":
		return nil
	case "int":
		return 7
	}
	bug("unknown operation")
	return nil
}

func ckindOf(c mega.MEGaCiphertext) string {
	switch c.(type) {
	case *mega.MEGaCiphertextSingle:
		return "S"
	case *mega.MEGaCiphertextPair:
		return "P"
	}
	return "?"
}

func ctRec(c mega.MEGaCiphertext) M {
	m := M{"ck": ckindOf(c), "n": c.Recipients(), "eph": pth(c.Ephemeral()), "pop": pth(c.PopPublic()),
		"popc": sch(getSc(c.Proof(), "challenge", 0)), "popr": sch(getSc(c.Proof(), "response", 1))}
	switch x := c.(type) {
	case *mega.MEGaCiphertextSingle:
		m["cts"] = schs(x.CTexts)
	case *mega.MEGaCiphertextPair:
		l := []string{}
		for _, t := range x.CTexts {
			l = append(l, sch(t[0])+sch(t[1]))
		}
		m["cts"] = l
	}
	return m
}

func dealRec(d *dealings.IDkgDealingInternal) M {
	m := ctRec(d.Ciphertext)
	m["k"], m["p"] = kindOf(d.Commitment), pths(d.Commitment.Points())
	m["pt"], m["pc"], m["pr1"], m["pr2"] = "none", "", "", ""
	switch p := d.Proof.(type) {
	case *dealings.MaskedResharingProof:
		m["pt"], m["pc"], m["pr1"] = "msk", sch(getSc(p.ProofOfEqualOpenings, "challenge", 0)), sch(getSc(p.ProofOfEqualOpenings, "response", 1))
	case *dealings.ProductProof:
		m["pt"], m["pc"] = "mul", sch(getSc(p.ProofOfProduct, "challenge", 0))
		m["pr1"], m["pr2"] = sch(getSc(p.ProofOfProduct, "response1", 1)), sch(getSc(p.ProofOfProduct, "response2", 2))
	}
	return m
}

func plain(c mega.MEGaCiphertext, ad []byte, dealer common.NodeIndex, i common.NodeIndex, pk *mega.MEGaPublicKey, ss curve.EccPoint) ([]string, error) {
	switch x := c.(type) {
	case *mega.MEGaCiphertextSingle:
		v, err := x.DecryptFromSharedSecret(ad, dealer, i, pk, ss)
		if err != nil {
			return nil, err
		}
		return []string{sch(v), sch(curve.Scalar.Zero(curve.K256))}, nil
	case *mega.MEGaCiphertextPair:
		v, err := x.DecryptFromSharedSecret(ad, dealer, i, pk, ss)
		if err != nil {
			return nil, err
		}
		return []string{sch(v[0]), sch(v[1])}, nil
	}
	bug("unknown ciphertext")
	return nil, nil
}

// cloneDealing copies a dealing deeply enough that modifications stay in the copy.
func cloneDealing(d *dealings.IDkgDealingInternal) *dealings.IDkgDealingInternal {
	n := &dealings.IDkgDealingInternal{}
	pts := []curve.EccPoint{}
	for _, p := range d.Commitment.Points() {
		pts = append(pts, p.Clone())
	}
	n.Commitment = mkComPts(kindOf(d.Commitment), pts)
	switch c := d.Ciphertext.(type) {
	case *mega.MEGaCiphertextSingle:
		x := &mega.MEGaCiphertextSingle{EphemeralKey: c.EphemeralKey.Clone(), PopPublicKey: c.PopPublicKey.Clone(), PopProof: c.PopProof.Clone()}
		for _, t := range c.CTexts {
			x.CTexts = append(x.CTexts, t.Clone())
		}
		n.Ciphertext = x
	case *mega.MEGaCiphertextPair:
		x := &mega.MEGaCiphertextPair{EphemeralKey: c.EphemeralKey.Clone(), PopPublicKey: c.PopPublicKey.Clone(), PopProof: c.PopProof.Clone()}
		for _, t := range c.CTexts {
			x.CTexts = append(x.CTexts, [2]curve.EccScalar{t[0].Clone(), t[1].Clone()})
		}
		n.Ciphertext = x
	}
	switch p := d.Proof.(type) {
	case *dealings.MaskedResharingProof:
		n.Proof = &dealings.MaskedResharingProof{ProofOfEqualOpenings: p.ProofOfEqualOpenings.Clone()}
	case *dealings.ProductProof:
		n.Proof = &dealings.ProductProof{ProofOfProduct: cloneProduct(p.ProofOfProduct)}
	}
	return n
}

func cloneProduct(p *zk.ProofOfProduct) *zk.ProofOfProduct {
	q := p.Clone()
	for i, n := range []string{"challenge", "response1", "response2"} {
		setSc(q, n, i, getSc(q, n, i).Clone())
	}
	return q
}

func mkComPts(kind string, pts []curve.EccPoint) poly.PolynomialCommitment {
	if kind == "S" {
		return poly.SimpleCM.New(pts)
	}
	return poly.PedersenCM.New(pts)
}

func modify(w *world, n *dealings.IDkgDealingInternal, s M) {
	single, _ := n.Ciphertext.(*mega.MEGaCiphertextSingle)
	pair, _ := n.Ciphertext.(*mega.MEGaCiphertextPair)
	ps := n.Commitment.Points()
	kind := kindOf(n.Commitment)
	switch str(s, "what") {
	case "ct":
		i := num(s, "i")
		if single != nil {
			single.CTexts[i] = single.CTexts[i].Add(single.CTexts[i], mkSc(str(s, "dv")))
		} else {
			pair.CTexts[i] = [2]curve.EccScalar{pair.CTexts[i][0].Clone().Add(pair.CTexts[i][0], mkSc(str(s, "dv"))), pair.CTexts[i][1].Clone().Add(pair.CTexts[i][1], mkSc(str(s, "dm")))}
		}
	case "ctset": // an entry of a given value
		i := num(s, "i")
		set := func(old curve.EccScalar, k string) curve.EccScalar {
			if str(s, k) == "" {
				return old
			}
			return mkSc(str(s, k))
		}
		if single != nil {
			single.CTexts[i] = set(single.CTexts[i], "cv")
		} else {
			pair.CTexts[i] = [2]curve.EccScalar{set(pair.CTexts[i][0], "cv"), set(pair.CTexts[i][1], "cm")}
		}
	case "swapct":
		i, j := num(s, "i"), num(s, "j")
		if single != nil {
			single.CTexts[i], single.CTexts[j] = single.CTexts[j], single.CTexts[i]
		} else {
			pair.CTexts[i], pair.CTexts[j] = pair.CTexts[j], pair.CTexts[i]
		}
	case "dropct":
		if single != nil {
			single.CTexts = single.CTexts[:len(single.CTexts)-1]
		} else {
			pair.CTexts = pair.CTexts[:len(pair.CTexts)-1]
		}
	case "addct":
		if single != nil {
			single.CTexts = append(single.CTexts, single.CTexts[0].Clone())
		} else {
			pair.CTexts = append(pair.CTexts, [2]curve.EccScalar{pair.CTexts[0][0].Clone(), pair.CTexts[0][1].Clone()})
		}
	case "noct":
		if single != nil {
			single.CTexts = nil
		} else {
			pair.CTexts = nil
		}
	case "com":
		i := num(s, "i")
		ps[i] = plus(ps[i], str(s, "d"))
	case "comneg": // one coefficient, or all, negated
		for i := range ps {
			if j := num(s, "i"); j < 0 || i == j {
				ps[i] = neg(ps[i])
			}
		}
		n.Commitment = mkComPts(kind, ps)
	case "comrev":
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
		n.Commitment = mkComPts(kind, ps)
	case "ctswapvm": // the two halves of one entry exchanged
		i := num(s, "i")
		pair.CTexts[i] = [2]curve.EccScalar{pair.CTexts[i][1], pair.CTexts[i][0]}
	case "ephneg":
		if single != nil {
			single.EphemeralKey = neg(single.EphemeralKey)
		} else {
			pair.EphemeralKey = neg(pair.EphemeralKey)
		}
	case "popneg":
		if single != nil {
			single.PopPublicKey = neg(single.PopPublicKey)
		} else {
			pair.PopPublicKey = neg(pair.PopPublicKey)
		}
	case "comset":
		pts := []curve.EccPoint{}
		for _, x := range list(s, "p") {
			pts = append(pts, mkPt(x.(string)))
		}
		n.Commitment = mkComPts(str(s, "k"), pts)
	case "comdrop":
		n.Commitment = mkComPts(kind, ps[:len(ps)-1])
	case "comadd":
		n.Commitment = mkComPts(kind, append(ps, mkPt(str(s, "d"))))
	case "compad":
		more := make([]curve.EccPoint, num(s, "n"))
		for i := range more {
			more[i] = curve.Point.Identity(curve.K256)
		}
		n.Commitment = mkComPts(kind, append(ps, more...))
	case "comkind":
		k := "S"
		if kind == "S" {
			k = "P"
		}
		n.Commitment = mkComPts(k, ps)
	case "eph":
		if single != nil {
			single.EphemeralKey = plus(single.EphemeralKey, str(s, "d"))
		} else {
			pair.EphemeralKey = plus(pair.EphemeralKey, str(s, "d"))
		}
	case "pop":
		if single != nil {
			single.PopPublicKey = plus(single.PopPublicKey, str(s, "d"))
		} else {
			pair.PopPublicKey = plus(pair.PopPublicKey, str(s, "d"))
		}
	case "popc":
		addSc(n.Ciphertext.Proof(), "challenge", 0, str(s, "d"))
	case "popr":
		addSc(n.Ciphertext.Proof(), "response", 1, str(s, "d"))
	case "popfrom": // the whole header of another ciphertext: ephemeral key, companion and proof
		o := w.deal(str(s, "from")).Ciphertext
		if single != nil {
			single.EphemeralKey, single.PopPublicKey, single.PopProof = o.Ephemeral().Clone(), o.PopPublic().Clone(), o.Proof().Clone()
		} else {
			pair.EphemeralKey, pair.PopPublicKey, pair.PopProof = o.Ephemeral().Clone(), o.PopPublic().Clone(), o.Proof().Clone()
		}
	case "poppfrom": // only the proof of another ciphertext
		o := w.deal(str(s, "from")).Ciphertext
		if single != nil {
			single.PopProof = o.Proof().Clone()
		} else {
			pair.PopProof = o.Proof().Clone()
		}
	case "ctkind": // the other ciphertext form around the same header and values
		if single != nil {
			x := &mega.MEGaCiphertextPair{EphemeralKey: single.EphemeralKey, PopPublicKey: single.PopPublicKey, PopProof: single.PopProof}
			for _, t := range single.CTexts {
				x.CTexts = append(x.CTexts, [2]curve.EccScalar{t, t.Clone()})
			}
			n.Ciphertext = x
		} else {
			x := &mega.MEGaCiphertextSingle{EphemeralKey: pair.EphemeralKey, PopPublicKey: pair.PopPublicKey, PopProof: pair.PopProof}
			for _, t := range pair.CTexts {
				x.CTexts = append(x.CTexts, t[0])
			}
			n.Ciphertext = x
		}
	case "ctfrom":
		n.Ciphertext = cloneDealing(w.deal(str(s, "from"))).Ciphertext
	case "comfrom":
		n.Commitment = cloneDealing(w.deal(str(s, "from"))).Commitment
	case "prooffrom":
		n.Proof = cloneDealing(w.deal(str(s, "from"))).Proof
	case "proofnil":
		n.Proof = nil
	case "prooftype":
		if str(s, "t") == "msk" {
			p := &zk.ProofOfEqualOpenings{}
			setSc(p, "challenge", 0, mkSc(str(s, "d")))
			setSc(p, "response", 1, mkSc(str(s, "d")))
			n.Proof = &dealings.MaskedResharingProof{ProofOfEqualOpenings: p}
		} else {
			p := &zk.ProofOfProduct{}
			for i, f := range []string{"challenge", "response1", "response2"} {
				setSc(p, f, i, mkSc(str(s, "d")))
			}
			n.Proof = &dealings.ProductProof{ProofOfProduct: p}
		}
	case "proofmake": // a dishonest dealer's proof: made from witnesses of its choice
		sd := mkSd(str(s, "seed"))
		sc := scs(s, "wit")
		if str(s, "t") == "msk" {
			p, err := (&zk.ProofOfEqualOpeningsIns).Create(sd, sc[0], sc[1], bytesOf(s, "ad"))
			fail(err)
			n.Proof = &dealings.MaskedResharingProof{ProofOfEqualOpenings: p}
		} else {
			p, err := (&zk.ProofOfProductIns).Create(sd, sc[0], sc[1], sc[2], sc[3], sc[4], bytesOf(s, "ad"))
			fail(err)
			n.Proof = &dealings.ProductProof{ProofOfProduct: p}
		}
	case "proofc", "proofr1", "proofr2":
		f, i := "challenge", 0
		switch p := n.Proof.(type) {
		case *dealings.MaskedResharingProof:
			if str(s, "what") != "proofc" {
				f, i = "response", 1
			}
			addSc(p.ProofOfEqualOpenings, f, i, str(s, "d"))
		case *dealings.ProductProof:
			if str(s, "what") == "proofr1" {
				f, i = "response1", 1
			} else if str(s, "what") == "proofr2" {
				f, i = "response2", 2
			}
			addSc(p.ProofOfProduct, f, i, str(s, "d"))
		default:
			bug("no proof to alter")
		}
	default:
		bug("unknown modification %s", str(s, "what"))
	}
}

// ephMake gives the ciphertext an ephemeral key of the dealer's choice, with a proof of possession made
// for it; with "re", the entries are encrypted again under it, else they stay as they are.
func ephMake(w *world, n *dealings.IDkgDealingInternal, s M) M {
	x, ad, dealer, old := mkSc(str(s, "x")), bytesOf(s, "ad"), node(s, "dealer"), n.Ciphertext
	eph := curve.Point.MulByG(x)
	base, err := mega.ComputePopBase(old.CType(), curve.K256, ad, dealer, eph)
	fail(err)
	pop := base.Clone().ScalarMul(base, x)
	proof, err := (&zk.ProofOfDLogEquivalenceIns).Create(mkSd(str(s, "seed")), x, curve.Point.GeneratorG(curve.K256), base, ad)
	fail(err)
	zero := func() curve.EccScalar { return curve.Scalar.Zero(curve.K256) }
	for i, r := range list(s, "recips") {
		k, j := w.get(r.(string)).(keyObj), common.NodeIndex(i)
		pk := curve.Point.MulByG(k.sk.SecretScalar())
		e := old.Ephemeral()
		was, now := e.Clone().ScalarMul(e, k.sk.SecretScalar()), pk.Clone().ScalarMul(pk, x)
		switch c := old.(type) {
		case *mega.MEGaCiphertextSingle:
			v, err := c.DecryptFromSharedSecret(ad, dealer, j, k.pk, was)
			fail(err)
			t := mega.MEGaCiphertextSingle{EphemeralKey: eph, PopPublicKey: pop, PopProof: proof}
			for range c.CTexts {
				t.CTexts = append(t.CTexts, zero())
			}
			m, err := t.DecryptFromSharedSecret(ad, dealer, j, k.pk, now)
			fail(err)
			c.CTexts[i] = v.Clone().Sub(v, m)
		case *mega.MEGaCiphertextPair:
			v, err := c.DecryptFromSharedSecret(ad, dealer, j, k.pk, was)
			fail(err)
			t := mega.MEGaCiphertextPair{EphemeralKey: eph, PopPublicKey: pop, PopProof: proof}
			for range c.CTexts {
				t.CTexts = append(t.CTexts, [2]curve.EccScalar{zero(), zero()})
			}
			m, err := t.DecryptFromSharedSecret(ad, dealer, j, k.pk, now)
			fail(err)
			c.CTexts[i] = [2]curve.EccScalar{v[0].Clone().Sub(v[0], m[0]), v[1].Clone().Sub(v[1], m[1])}
		}
	}
	switch c := old.(type) {
	case *mega.MEGaCiphertextSingle:
		c.EphemeralKey, c.PopPublicKey, c.PopProof = eph, pop, proof
	case *mega.MEGaCiphertextPair:
		c.EphemeralKey, c.PopPublicKey, c.PopProof = eph, pop, proof
	}
	return ctRec(n.Ciphertext)
}

func (w *world) dealMap(s M, k string) *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal] {
	return memo(mkey("dealings", w.id, list(s, k)), func() interface{} {
		m := &btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]{}
		for _, x := range list(s, k) {
			p := x.([]interface{})
			m.Set(idxOf(p[0]), w.deal(p[1].(string)))
		}
		return m
	}).(*btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal])
}

func (w *world) openMap(l []interface{}) *btree.Map[common.NodeIndex, poly.CommitmentOpening] {
	return memo(mkey("openings", w.id, l), func() interface{} {
		m := &btree.Map[common.NodeIndex, poly.CommitmentOpening]{}
		for _, x := range l {
			p := x.([]interface{})
			m.Set(idxOf(p[0]), w.opening(p[1].(string)))
		}
		return m
	}).(*btree.Map[common.NodeIndex, poly.CommitmentOpening])
}

func asList(x interface{}) []interface{} {
	l, _ := x.([]interface{})
	return l
}

func trRec(t *dealings.IDkgTranscriptInternal) M {
	m := M{"cls": "?", "k": kindOf(t.CombinedCommitment), "p": pths(t.CombinedCommitment.Points()), "ct": pth(t.ConstantTerm())}
	switch t.CombinedCommitment.(type) {
	case *dealings.SummationCommitment:
		m["cls"] = "sum"
	case *dealings.InterpolationCommitment:
		m["cls"] = "int"
	}
	return m
}

func ctDec(d *dealings.IDkgDealingInternal, s M, ad []byte, dealer, i common.NodeIndex, k keyObj, pk *mega.MEGaPublicKey) (M, error) {
	switch c := d.Ciphertext.(type) {
	case *mega.MEGaCiphertextSingle:
		v, err := c.Decrypt(ad, dealer, i, k.sk, pk)
		if err != nil {
			return nil, err
		}
		return M{"v": sch(v), "m": sch(curve.Scalar.Zero(curve.K256))}, nil
	case *mega.MEGaCiphertextPair:
		v, err := c.Decrypt(ad, dealer, i, k.sk, pk)
		if err != nil {
			return nil, err
		}
		return M{"v": sch(v[0]), "m": sch(v[1])}, nil
	}
	bug("unknown ciphertext")
	return nil, nil
}

func init() {
	ops["key"] = func(w *world, s M) M {
		k := keyObj{}
		if sd := strOr(s, "seed", ""); sd != "" {
			pk, sk, err := mega.GenKeypair(curve.K256, mkSd(sd))
			fail(err)
			k = keyObj{sk, pk}
		} else {
			k.sk = mega.NewMEGaPrivateKey(mkSc(str(s, "sk")))
			k.pk = k.sk.PublicKey()
		}
		w.put(strOr(s, "out", ""), k)
		return M{"pk": hx(k.pk.Serialize()), "sks": hx(k.sk.Serialize())}
	}
	ops["deal"] = func(w *world, s M) M {
		var ks []keyObj
		for _, r := range list(s, "recips") {
			ks = append(ks, w.get(r.(string)).(keyObj))
		}
		pks := w.pks(s)
		ad := bytesOf(s, "ad")
		dealer := node(s, "dealer")
		d, err := dealings.NewIDkgDealingInternal(mkSecret(w, s["sec"].(M)), curve.K256, mkSd(str(s, "seed")), num(s, "t"), pks, dealer, ad)
		fail(err)
		w.put(strOr(s, "out", ""), dealObj{d})
		m := dealRec(d)
		pl := []interface{}{}
		for i := 0; i < d.Ciphertext.Recipients() && i < len(ks); i++ {
			e := d.Ciphertext.Ephemeral()
			x, err := plain(d.Ciphertext, ad, dealer, common.NodeIndex(i), pks[i], e.Clone().ScalarMul(e, ks[i].sk.SecretScalar()))
			if err != nil {
				x = []string{"", ""}
			}
			pl = append(pl, x)
		}
		m["plain"] = pl
		return m
	}
	ops["enc"] = func(w *world, s M) M { // encryption alone; kept as a dealing with a trivial commitment
		pks := w.pks(s)
		var c mega.MEGaCiphertext
		sd := mkSd(str(s, "seed"))
		kind := str(s, "kind")
		if kind == "S" {
			var p []curve.EccScalar
			for _, x := range list(s, "pts") {
				p = append(p, mkSc(x.([]interface{})[0].(string)))
			}
			x, err := mega.EncryptCiphertextSingle(sd, p, pks, node(s, "dealer"), bytesOf(s, "ad"))
			fail(err)
			c = x
		} else {
			var p [][2]curve.EccScalar
			for _, x := range list(s, "pts") {
				v := x.([]interface{})
				p = append(p, [2]curve.EccScalar{mkSc(v[0].(string)), mkSc(v[1].(string))})
			}
			x, err := mega.EncryptCiphertextPair(sd, p, pks, node(s, "dealer"), bytesOf(s, "ad"))
			fail(err)
			c = x
		}
		d := &dealings.IDkgDealingInternal{Ciphertext: c, Commitment: mkComPts(kind, []curve.EccPoint{curve.Point.GeneratorG(curve.K256)})}
		w.put(strOr(s, "out", ""), dealObj{d})
		return ctRec(c)
	}
	ops["mod"] = func(w *world, s M) M {
		n := cloneDealing(w.deal(str(s, "in")))
		m := M{}
		if str(s, "what") == "ephmake" {
			m = ephMake(w, n, s)
		} else {
			modify(w, n, s)
		}
		w.put(str(s, "out"), dealObj{n})
		return m
	}
	ops["pubver"] = func(w *world, s M) M {
		d := w.deal(str(s, "d"))
		fail(d.PubliclyVerify(curve.K256, mkOperation(w, s["tr"]), num(s, "thr"), node(s, "dealer"), num(s, "n"), bytesOf(s, "ad")))
		return M{}
	}
	ops["privver"] = func(w *world, s M) M {
		d := w.deal(str(s, "d"))
		fail(d.PrivateVerify(curve.K256, w.key(s, "key").sk, w.pk(s), bytesOf(s, "ad"), node(s, "dealer"), node(s, "idx")))
		return M{}
	}
	ops["opendeal"] = func(w *world, s M) M {
		d := w.deal(str(s, "d"))
		o, err := dealings.CommitmentOpening.OpenDealing(d, bytesOf(s, "ad"), node(s, "dealer"), node(s, "idx"), w.key(s, "key").sk, w.pk(s))
		fail(err)
		w.put(strOr(s, "out", ""), o)
		return openingRec(o)
	}
	ops["ctdec"] = func(w *world, s M) M { // decryption without a commitment
		m, err := ctDec(w.deal(str(s, "d")), s, bytesOf(s, "ad"), node(s, "dealer"), node(s, "idx"), w.key(s, "key"), w.pk(s))
		fail(err)
		return m
	}
	ops["ctss"] = func(w *world, s M) M { // decryption with a shared secret
		d := w.deal(str(s, "d"))
		var ss curve.EccPoint
		if strOr(s, "own", "") != "" {
			e := d.Ciphertext.Ephemeral()
			ss = e.Clone().ScalarMul(e, w.key(s, "own").sk.SecretScalar())
		} else {
			ss = mkPt(str(s, "ss"))
		}
		x, err := plain(d.Ciphertext, bytesOf(s, "ad"), node(s, "dealer"), node(s, "idx"), w.pk(s), ss)
		fail(err)
		return M{"v": x[0], "m": x[1]}
	}
	ops["ctvalid"] = func(w *world, s M) M {
		fail(w.deal(str(s, "d")).Ciphertext.CheckValidity(num(s, "n"), bytesOf(s, "ad"), node(s, "dealer")))
		return M{}
	}
	ops["tr"] = func(w *world, s M) M {
		t, err := dealings.NewTranscriptInternal(curve.K256, num(s, "thr"), w.dealMap(s, "ds"), mkOperation(w, s["tr"]))
		fail(err)
		w.put(strOr(s, "out", ""), t)
		return trRec(t)
	}
	ops["mktr"] = func(w *world, s M) M {
		c := mkCom(str(s, "k"), pts(s, "p", strOr(s, "rep", "aff")))
		var t *dealings.IDkgTranscriptInternal
		if str(s, "cls") == "sum" {
			t = &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: c}}
		} else {
			t = &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: c}}
		}
		w.put(str(s, "out"), t)
		return M{}
	}
	ops["mkop"] = func(w *world, s M) M {
		w.put(str(s, "out"), mkOpening(s))
		return M{}
	}
	ops["opmod"] = func(w *world, s M) M { // an opening made from another one
		var v, m curve.EccScalar
		o := w.opening(str(s, "in"))
		if str(s, "what") == "byt" { // through the byte form dealers take
			w.put(str(s, "out"), o.ToCommitmentOpeningBytes().ToCommitmentOpening())
			return M{}
		}
		if str(s, "what") == "dec" {
			var enc []byte
			var err error
			switch x := o.(type) {
			case poly.SimpleCommitmentOpening:
				enc, err = x.Serialize()
			case poly.PedersenCommitmentOpening:
				enc, err = x.Serialize()
			case *poly.SimpleCommitmentOpening:
				enc, err = x.Serialize()
			case *poly.PedersenCommitmentOpening:
				enc, err = x.Serialize()
			}
			fail(err)
			d, err := poly.Commitment.Deserialize(enc)
			fail(err)
			w.put(str(s, "out"), d)
			return M{}
		}
		kind := "S"
		switch x := o.(type) {
		case poly.SimpleCommitmentOpening:
			v, m = x[0].Clone(), curve.Scalar.Zero(curve.K256)
		case *poly.SimpleCommitmentOpening:
			v, m = x[0].Clone(), curve.Scalar.Zero(curve.K256)
		case poly.PedersenCommitmentOpening:
			v, m, kind = x[0].Clone(), x[1].Clone(), "P"
		case *poly.PedersenCommitmentOpening:
			v, m, kind = x[0].Clone(), x[1].Clone(), "P"
		default:
			bug("unknown opening %T", o)
		}
		switch str(s, "what") {
		case "neg":
			v, m = v.Negate(v), m.Negate(m)
		case "negv":
			v = v.Negate(v)
		case "negm":
			m = m.Negate(m)
		case "swap":
			v, m = m, v
		case "add":
			v, m = v.Add(v, mkSc(str(s, "dv"))), m.Add(m, mkSc(str(s, "dm")))
		case "kind":
			if kind == "S" {
				kind = "P"
			} else {
				kind = "S"
			}
		default:
			bug("unknown opening change")
		}
		if kind == "S" {
			w.put(str(s, "out"), poly.SimpleCommitmentOpening{v})
		} else {
			w.put(str(s, "out"), poly.PedersenCommitmentOpening{v, m})
		}
		return M{}
	}
	ops["open"] = func(w *world, s M) M {
		ds, t := w.dealMap(s, "ds"), w.tr(str(s, "tr")).CombinedCommitment
		var o poly.CommitmentOpening
		var err error
		if g := asList(s["given"]); len(g) > 0 || flag(s, "with") {
			m := memo(mkey("provided openings", w.id, g), func() interface{} {
				m := &btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]{}
				for _, x := range g {
					p := x.([]interface{})
					m.Set(idxOf(p[0]), w.openMap(asList(p[1])))
				}
				return m
			}).(*btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]])
			o, err = dealings.CommitmentOpening.FromDealingsAndOpenings(ds, m, t, bytesOf(s, "ad"), node(s, "idx"), w.key(s, "key").sk, w.pk(s))
		} else {
			o, err = dealings.CommitmentOpening.FromDealings(ds, t, bytesOf(s, "ad"), node(s, "idx"), w.key(s, "key").sk, w.pk(s))
		}
		fail(err)
		w.put(strOr(s, "out", ""), o)
		return openingRec(o)
	}
	// a clone of each part of a dealing: equal to it, and nothing done to the clone shows in the original
	ops["clone"] = func(w *world, s M) M {
		d := w.deal(str(s, "d"))
		m := M{}
		try := func(what string, x, c interface{}) {
			was := print1(x)
			eq := print1(c) == was
			a := reflect.New(reflect.TypeOf(c)).Elem()
			a.Set(reflect.ValueOf(c))
			n := scramble(a)
			m[what] = []bool{eq, n > 0 && print1(c) != was, print1(x) == was}
		}
		try("com", d.Commitment, d.Commitment.Clone())
		m["ct"] = []bool{}
		if c, ok := d.Ciphertext.(*mega.MEGaCiphertextSingle); ok {
			try("ct", c, c.Clone())
		}
		try("pop", d.Ciphertext.Proof(), d.Ciphertext.Proof().Clone())
		m["prf"] = []bool{}
		if d.Proof != nil {
			try("prf", d.Proof, d.Proof.Clone())
		}
		return m
	}
	ops["comb"] = func(w *world, s M) M { // one opening per dealing, in any order
		l := list(s, "ops")
		is := memo(mkey("positions", w.id, l), func() interface{} {
			is := []common.NodeIndex{}
			for _, x := range l {
				is = append(is, idxOf(x.([]interface{})[0]))
			}
			return is
		}).([]common.NodeIndex)
		os := memo(mkey("opening list", w.id, l), func() interface{} {
			os := []poly.CommitmentOpening{}
			for _, x := range l {
				os = append(os, w.opening(x.([]interface{})[1].(string)))
			}
			return os
		}).([]poly.CommitmentOpening)
		o, err := dealings.CommitmentOpening.CombineOpenings(is, os, w.tr(str(s, "tr")).CombinedCommitment, node(s, "idx"), curve.K256)
		fail(err)
		w.put(strOr(s, "out", ""), o)
		return openingRec(o)
	}
	ops["recon"] = func(w *world, s M) M {
		o, err := dealings.ReconstructShareFromOpenings(w.deal(str(s, "d")), w.openMap(list(s, "ops")), node(s, "idx"))
		fail(err)
		w.put(strOr(s, "out", ""), o)
		return openingRec(o)
	}
	ops["complain"] = func(w *world, s M) M {
		cs, err := complaints.GenerateComplaints(w.dealMap(s, "ds"), bytesOf(s, "ad"), node(s, "idx"), w.key(s, "key").sk, w.pk(s), mkSd(str(s, "seed")))
		fail(err)
		who, vals := []string{}, []interface{}{}
		cs.Scan(func(i common.NodeIndex, c *complaints.IDkgComplaintInternal) bool {
			who = append(who, fmt.Sprint(int64(i)))
			vals = append(vals, complaintRec(c))
			w.put(str(s, "out")+fmt.Sprint(int64(i)), c)
			return true
		})
		return M{"who": who, "cs": vals}
	}
	ops["complain1"] = func(w *world, s M) M {
		c, err := complaints.NewComplaintInternal(mkSd(str(s, "seed")), w.deal(str(s, "d")), node(s, "dealer"), node(s, "idx"), w.key(s, "key").sk, w.pk(s), bytesOf(s, "ad"))
		fail(err)
		w.put(str(s, "out"), c)
		return complaintRec(c)
	}
	ops["cmod"] = func(w *world, s M) M {
		c := w.get(str(s, "in")).(*complaints.IDkgComplaintInternal)
		n := *c
		pf := field(&n, "proof", dleqType, 0)
		ss := field(&n, "sharedSecret", ptType, 0)
		p := pf.Interface().(*zk.ProofOfDLogEquivalence).Clone()
		switch str(s, "what") {
		case "ss":
			ss.Set(reflect.ValueOf(plus(ss.Interface().(curve.EccPoint), str(s, "d"))))
		case "ssneg":
			ss.Set(reflect.ValueOf(neg(ss.Interface().(curve.EccPoint))))
		case "c":
			addSc(p, "challenge", 0, str(s, "d"))
		case "r":
			addSc(p, "response", 1, str(s, "d"))
		case "proof":
			o := w.get(str(s, "from")).(*complaints.IDkgComplaintInternal)
			p = field(o, "proof", dleqType, 0).Interface().(*zk.ProofOfDLogEquivalence).Clone()
		case "forge": // proof of another statement of the forger's choice: knowledge of x for g^x, h^x
			var err error
			h := w.deal(str(s, "d")).Ciphertext.Ephemeral()
			p, err = (&zk.ProofOfDLogEquivalenceIns).Create(seed.FromBytes([]byte{1}), mkSc(str(s, "x")), curve.Point.GeneratorG(curve.K256), h, bytesOf(s, "ad"))
			fail(err)
			ss.Set(reflect.ValueOf(h.Clone().ScalarMul(h, mkSc(str(s, "x")))))
		}
		pf.Set(reflect.ValueOf(p))
		w.put(str(s, "out"), &n)
		return M{}
	}
	ops["cver"] = func(w *world, s M) M {
		c := w.get(str(s, "c")).(*complaints.IDkgComplaintInternal)
		fail(c.Verify(w.deal(str(s, "d")), node(s, "dealer"), node(s, "idx"), w.key(s, "pk").pk, bytesOf(s, "ad")))
		return M{}
	}
	ops["note"] = func(w *world, s M) M { return M{} } // judged by the specification on its own state
}

func complaintRec(c *complaints.IDkgComplaintInternal) M {
	p := field(c, "proof", dleqType, 0).Interface().(*zk.ProofOfDLogEquivalence)
	ss, _ := field(c, "sharedSecret", ptType, 0).Interface().(curve.EccPoint)
	return M{"ss": pth(ss), "c": sch(getSc(p, "challenge", 0)), "r": sch(getSc(p, "response", 1))}
}
