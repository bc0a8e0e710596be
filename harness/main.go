// Driver: executes scenarios generated from the TLA+ specification against the
// real code and records what happened.  It judges nothing.
//
//	driver SCENARIOS.ndjson TRACE.ndjson
//
// A scenario is {"id":..,"ev":[step,..]}; a step is an object with an "op".
// The trace repeats every step with the observed results added: "res" is
// "ok", "err", "panic" or "skip" (an object it needs was not made).  A call
// that does not return ends the driver with status 4.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
)

type M = map[string]interface{}

// errRes is how an operation reports an error returned by the code under test.
type errRes struct{ err error }

func fail(err error) {
	if err != nil {
		panic(errRes{err})
	}
}

// harnessErr is a mistake of the scenario or the driver, never of the code under test.
type harnessErr struct{ msg string }

func bug(f string, a ...interface{}) { panic(harnessErr{fmt.Sprintf(f, a...)}) }

type world struct {
	seed string
	id   string
	objs map[string]interface{}
	mu   sync.RWMutex
	made map[string]bool // names written since it was last reset, if recorded
}

type opFunc func(w *world, s M) M

var ops = map[string]opFunc{}

func runStep(w *world, s M) M {
	name := str(s, "op")
	f, ok := ops[name]
	if !ok {
		bug("unknown op %q", name)
	}
	ch := make(chan result, 1)
	go func() { ch <- attempt(f, w, s) }()
	var r result
	select {
	case r = <-ch:
	case <-time.After(100 * time.Second): // calls take milliseconds
		b, _ := json.Marshal(s)
		if len(b) > 3000 {
			b = b[:3000]
		}
		fmt.Fprintf(os.Stderr, "HANG: scenario %s op %s did not return: %s\n", w.id, name, b)
		os.Exit(4)
	}
	if r.bug != nil {
		fmt.Fprintf(os.Stderr, "driver: scenario %s op %s: %s\n", w.id, name, r.bug.msg)
		os.Exit(3)
	}
	return r.event(s)
}

type result struct {
	res string
	m   M
	msg string
	bug *harnessErr
}

func attempt(f opFunc, w *world, s M) (res result) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case errRes:
				res = result{res: "err", msg: x.err.Error()}
			case missingObj:
				res = result{res: "skip", msg: x.name}
			case harnessErr:
				res = result{bug: &x}
			default:
				msg := fmt.Sprint(r)
				if os.Getenv("VERIF_STACK") != "" {
					msg += "\n" + string(debug.Stack())
				}
				res = result{res: "panic", msg: msg}
			}
		}
	}()
	return result{res: "ok", m: f(w, s)}
}

// event is the step with what was observed.
func (r result) event(s M) M {
	out := M{}
	for k, v := range s {
		out[k] = v
	}
	out["res"] = r.res
	if r.msg != "" {
		out["msg"] = r.msg
	}
	for k, v := range r.m {
		out[k] = v
	}
	return out
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	type scen struct {
		raw []byte
		out []byte
	}
	var all []*scen
	sc := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 1 {
			all = append(all, &scen{raw: line})
		}
		if err != nil {
			break
		}
	}
	if os.Getenv("VERIF_PURE") != "" {
		var raws, res [][]byte
		for _, s := range all {
			raws = append(raws, s.raw)
		}
		res = pure(raws)
		for i, s := range all {
			s.out = res[i]
		}
		write(os.Args[2], func(i int) []byte { return all[i].out }, len(all))
		return
	}
	workers := runtime.NumCPU()
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		workers, _ = strconv.Atoi(v)
	}
	var wg sync.WaitGroup
	next := make(chan *scen)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range next {
				var m M
				if err := json.Unmarshal(s.raw, &m); err != nil {
					fmt.Fprintln(os.Stderr, "driver: bad scenario:", err, string(s.raw))
					os.Exit(3)
				}
				w := newWorld(m)
				evs := m["ev"].([]interface{})
				var outs []interface{}
				for _, e := range evs {
					outs = append(outs, runStep(w, e.(M)))
				}
				m["ev"] = outs
				s.out = marshal(m)
			}
		}()
	}
	for _, s := range all {
		next <- s
	}
	close(next)
	wg.Wait()
	write(os.Args[2], func(i int) []byte { return all[i].out }, len(all))
}

func newWorld(m M) *world {
	return &world{seed: os.Getenv("VERIF_SEED"), id: fmt.Sprint(m["id"]), objs: map[string]interface{}{}}
}

func marshal(m M) []byte {
	b, err := json.Marshal(m)
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
	return b
}

func write(name string, get func(i int) []byte, n int) {
	o, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	bw := bufio.NewWriterSize(o, 1<<20)
	for i := 0; i < n; i++ {
		bw.Write(get(i))
		bw.WriteByte('\n')
	}
	bw.Flush()
	o.Close()
}

// ---- arguments -------------------------------------------------------------

func str(s M, k string) string {
	v, ok := s[k]
	if !ok {
		bug("missing argument %q", k)
	}
	t, ok := v.(string)
	if !ok {
		bug("argument %q is not a string: %v", k, v)
	}
	return t
}

func strOr(s M, k, d string) string {
	if v, ok := s[k].(string); ok {
		return v
	}
	return d
}

func num(s M, k string) int {
	v, ok := s[k]
	if !ok {
		bug("missing argument %q", k)
	}
	switch t := v.(type) {
	case float64:
		return int(t)
	case string:
		n, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			bug("argument %q: %v", k, err)
		}
		return int(n)
	}
	bug("argument %q is not a number: %v", k, v)
	return 0
}

func flag(s M, k string) bool {
	v, _ := s[k].(bool)
	return v
}

func list(s M, k string) []interface{} {
	v, ok := s[k]
	if !ok {
		bug("missing argument %q", k)
	}
	switch t := v.(type) {
	case []interface{}:
		return t
	case M: // TLC writes an empty sequence or function as an object
		if len(t) == 0 {
			return nil
		}
	case string:
		if t == "" {
			return nil
		}
	}
	bug("argument %q is not a list: %v", k, v)
	return nil
}

func node(s M, k string) common.NodeIndex { return common.NodeIndex(num(s, k)) }

// Arguments are normally built anew for each call.  With memoOn equal arguments are one
// object, shared by all calls (and goroutines); with tracking on each argument's content is
// recorded when it is made, to be compared after the call.
var memoOn = os.Getenv("VERIF_MEMO") != ""
var memoTab sync.Map

func memo(k string, f func() interface{}) interface{} {
	if !memoOn {
		x := roomy(f())
		track(k, x)
		return x
	}
	if x, ok := memoTab.Load(k); ok {
		return x
	}
	x, _ := memoTab.LoadOrStore(k, roomy(f()))
	return x
}

// roomy gives a list more capacity than it uses: what lies behind its end is the caller's too.
func roomy(x interface{}) interface{} {
	v := reflect.ValueOf(x)
	if !v.IsValid() || v.Kind() != reflect.Slice || v.IsNil() {
		return x
	}
	n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+72)
	reflect.Copy(n, v)
	if b, ok := n.Interface().([]byte); ok {
		for i := range b[len(b):cap(b)] {
			b[len(b):cap(b)][i] = 0xee
		}
	}
	return n.Interface()
}

func mkey(kind string, args ...interface{}) string {
	b, err := json.Marshal(args)
	if err != nil {
		bug("%v", err)
	}
	return kind + " " + string(b)
}

func unhex(h string) []byte {
	return memo("bytes "+h, func() interface{} {
		b, err := hex.DecodeString(h)
		if err != nil {
			bug("bad hex %q", h)
		}
		return b
	}).([]byte)
}

func mkSd(h string) *seed.Seed {
	return memo("seed "+h, func() interface{} { return seed.FromBytes(unhex(h)) }).(*seed.Seed)
}

func bytesOf(s M, k string) []byte { return unhex(str(s, k)) }

// mkSc builds a scalar from a canonical 32-byte value.
func mkSc(h string) curve.EccScalar {
	return memo("scalar "+h, func() interface{} {
		s, err := curve.Scalar.Deserialize(curve.K256, unhex(h))
		fail(err)
		return s
	}).(curve.EccScalar)
}

func mkPt(h string) curve.EccPoint {
	return memo("point "+h, func() interface{} {
		p, err := curve.Point.Deserialize(curve.K256, unhex(h))
		fail(err)
		return p
	}).(curve.EccPoint)
}

// mkPtRep builds a point in affine ("aff") or non-normalised projective form ("proj").
func mkPtRep(h, rep string) curve.EccPoint {
	if rep != "proj" {
		return mkPt(h)
	}
	return memo("projective point "+h, func() interface{} {
		p := mkPt(h)
		k := curve.Scalar.FromUint64(curve.K256, 987654321)
		t := curve.Point.MulByG(k)
		u := curve.Point.Identity(curve.K256)
		u = u.AddPoints(p, t)
		v := curve.Point.Identity(curve.K256)
		return v.SubPoints(u, t)
	}).(curve.EccPoint)
}

func mkFe(h string) curve.EccFieldElement {
	f, err := curve.Field.FromBytes(curve.K256, unhex(h))
	fail(err)
	return f
}

// ---- results ----------------------------------------------------------------

func hx(b []byte) string { return hex.EncodeToString(b) }

func hexBig(b *big.Int) string {
	var buf [32]byte
	return hx(b.FillBytes(buf[:]))
}

func sch(s curve.EccScalar) string {
	if s == nil {
		return "nil"
	}
	return hexBig(s.BigInt())
}

func pth(p curve.EccPoint) string {
	if p == nil {
		return "nil"
	}
	return hx(p.Serialize())
}

func feh(f curve.EccFieldElement) string {
	if f == nil {
		return "nil"
	}
	return hexBig(f.BigInt())
}
