package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/curve"
)

// Purity: every step is run twice in a row, and once more at the end when all other scenarios
// have run (in reverse order).  Recorded: a digest of each result, the named objects whose content
// the step changed, and the arguments whose content it changed.

type tracked struct {
	what string
	x    interface{}
	fp   string
}

var tracking bool
var tracks []tracked

// track notes an argument given to the code under test.
func track(what string, x interface{}) {
	if tracking && x != nil {
		x = whole(x)
		tracks = append(tracks, tracked{what, x, print1(x)})
	}
}

// whole extends a list to its capacity.
func whole(x interface{}) interface{} {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Slice {
		return v.Slice(0, v.Cap()).Interface()
	}
	return x
}

func pure(raws [][]byte) [][]byte {
	out := make([][]byte, len(raws))
	ms := make([]M, len(raws))
	for i, raw := range raws {
		if err := json.Unmarshal(raw, &ms[i]); err != nil {
			fmt.Fprintln(os.Stderr, "driver: bad scenario:", err)
			os.Exit(3)
		}
		w := newWorld(ms[i])
		before := w.prints()
		var evs []interface{}
		for _, x := range ms[i]["ev"].([]interface{}) {
			s := x.(M)
			w.made, tracking, tracks = map[string]bool{}, true, nil
			e := runStep(w, s)
			d1 := digest(e)
			changed := []string{}
			seen := map[string]bool{}
			note := func() {
				after := w.prints()
				for n, p := range before {
					if q, ok := after[n]; ok && q != p && !w.made[n] && !seen[n] {
						seen[n] = true
						changed = append(changed, n)
					}
				}
				before = after
			}
			note()
			w.made = map[string]bool{} // what is made again must be the same
			e2 := runStep(w, s)
			w.made = map[string]bool{}
			note()
			tracking = false
			args := []string{}
			for _, t := range tracks {
				if print1(t.x) != t.fp {
					args = append(args, t.what)
				}
			}
			tracks = nil
			sort.Strings(changed)
			e["changed"], e["args"], e["d1"], e["d2"] = changed, args, d1, digest(e2)
			evs = append(evs, e)
		}
		ms[i]["ev"] = evs
	}
	for i := len(raws) - 1; i >= 0; i-- {
		var m M
		json.Unmarshal(raws[i], &m)
		w := newWorld(m)
		for j, x := range m["ev"].([]interface{}) {
			e := ms[i]["ev"].([]interface{})[j].(M)
			e["d3"] = digest(runStep(w, x.(M)))
		}
	}
	for i := range ms {
		// the results themselves are not needed
		for _, x := range ms[i]["ev"].([]interface{}) {
			e := x.(M)
			for k := range e {
				switch k {
				case "op", "res", "changed", "args", "d1", "d2", "d3", "out":
				default:
					delete(e, k)
				}
			}
		}
		out[i] = marshal(ms[i])
	}
	return out
}

func digest(e M) string {
	c := M{}
	for k, v := range e {
		if k != "msg" || e["res"] == "ok" {
			c[k] = v
		}
	}
	h := sha256.Sum256(marshal(c))
	return hx(h[:8])
}

// prints gives a fingerprint of each object of the world, and of the constants of the curve.
func (w *world) prints() map[string]string {
	m := map[string]string{
		"constant G": pth(curve.Point.GeneratorG(curve.K256)), "constant H": pth(curve.Point.GeneratorH(curve.K256)), "constant infinity": pth(curve.Point.Identity(curve.K256)),
		"constant 0": sch(curve.Scalar.Zero(curve.K256)), "constant 1": sch(curve.Scalar.One(curve.K256)), "constant field 0": feh(curve.Field.Zero(curve.K256)), "constant field 1": feh(curve.Field.One(curve.K256)),
	}
	for n, o := range w.objs {
		m[n] = print1(o)
	}
	return m
}

func print1(x interface{}) string {
	h := sha256.New()
	v := reflect.ValueOf(x)
	if v.IsValid() {
		a := reflect.New(v.Type()).Elem()
		a.Set(v)
		walk(h, a, map[visit]bool{})
	}
	return hx(h.Sum(nil)[:8])
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
}

var eccPoint = reflect.TypeOf((*curve.EccPoint)(nil)).Elem()
var eccScalar = reflect.TypeOf((*curve.EccScalar)(nil)).Elem()
var eccField = reflect.TypeOf((*curve.EccFieldElement)(nil)).Elem()

// walk writes a description of v, which must be addressable: points, scalars and field elements
// by their value, everything else by its structure.
func walk(o io.Writer, v reflect.Value, seen map[visit]bool) {
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(o, "nil;")
			return
		}
		switch {
		case t.Implements(eccPoint):
			fmt.Fprint(o, "P", pth(v.Interface().(curve.EccPoint).Clone()), ";")
			return
		case t.Implements(eccScalar):
			fmt.Fprint(o, "S", sch(v.Interface().(curve.EccScalar)), ";")
			return
		case t.Implements(eccField):
			fmt.Fprint(o, "F", feh(v.Interface().(curve.EccFieldElement)), ";")
			return
		}
		k := visit{v.UnsafePointer(), t}
		if seen[k] {
			fmt.Fprint(o, "again;")
			return
		}
		seen[k] = true
		fmt.Fprint(o, "*")
		walk(o, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(o, "nil;")
			return
		}
		e := v.Elem()
		a := reflect.New(e.Type()).Elem()
		a.Set(e)
		fmt.Fprint(o, e.Type(), ":")
		walk(o, a, seen)
	case reflect.Struct:
		fmt.Fprint(o, "{")
		for i := 0; i < v.NumField(); i++ {
			walk(o, v.Field(i), seen)
		}
		fmt.Fprint(o, "}")
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(o, "b%x;", v.Bytes())
			return
		}
		fmt.Fprint(o, "[", v.Len(), ":")
		for i := 0; i < v.Len(); i++ {
			walk(o, v.Index(i), seen)
		}
		fmt.Fprint(o, "]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			e := reflect.New(t.Elem()).Elem()
			e.Set(v.MapIndex(k))
			h := sha256.New()
			walk(h, e, seen)
			l = append(l, fmt.Sprint(k, "=", hx(h.Sum(nil))))
		}
		sort.Strings(l)
		fmt.Fprint(o, l)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprint(o, "?")
	default:
		fmt.Fprint(o, v.Interface(), ";")
	}
}

// scramble changes, in place, every point and scalar that v leads to, and says how many there were.
func scramble(v reflect.Value) int {
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	t, n := v.Type(), 0
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return 0
		}
		switch {
		case t.Implements(eccPoint):
			p := v.Interface().(curve.EccPoint)
			p.AddPoints(p, curve.Point.GeneratorH(curve.K256))
			return 1
		case t.Implements(eccScalar):
			x := v.Interface().(curve.EccScalar)
			x.Add(x, curve.Scalar.One(curve.K256))
			return 1
		}
		return scramble(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		a := reflect.New(v.Elem().Type()).Elem()
		a.Set(v.Elem())
		return scramble(a)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += scramble(v.Field(i))
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += scramble(v.Index(i))
		}
	}
	return n
}
