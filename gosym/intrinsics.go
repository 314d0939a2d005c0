package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fn *ssa.Function, args []Value) Value

type ufEntry struct {
	key  string
	args []Value
	res  Value
}

// packages whose initialisers are never run
var noInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "reflect": true,
	"internal/cpu": true, "internal/godebug": true, "internal/poll": true, "log": true,
	"net/http": true, "crypto/tls": true, "crypto/x509": true, "testing": true,
	"internal/bytealg": true, "sync": true, "sync/atomic": true,
}

func nop(in *Interp, fn *ssa.Function, args []Value) Value { return in.zeroResults(fn) }

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// runReal executes a function's own body although an intrinsic exists for it.
func (in *Interp) runReal(fn *ssa.Function, args []Value) Value {
	c := in.real[fn]
	if c == nil {
		save := in.funcs[fn]
		delete(in.funcs, fn)
		in.noIntr = true
		c = in.compile(fn)
		in.noIntr = false
		in.funcs[fn] = save
		in.real[fn] = c
	}
	return in.runFunc(c, args, nil, false)
}

const vs = "github.com/mrasu/GravityR/internal/vsym."

var logPkg = "github.com/rs/zerolog"

func patternIntrinsic(name string) intrinsic {
	switch {
	case strings.HasPrefix(name, "(*"+logPkg+".Event)."), strings.HasPrefix(name, "(*"+logPkg+".Logger)."),
		strings.HasPrefix(name, "("+logPkg+".Logger)."), strings.HasPrefix(name, logPkg+"/log."):
		return nop
	case strings.HasPrefix(name, "(*sync.Mutex)."), strings.HasPrefix(name, "(*sync.RWMutex)."):
		return func(in *Interp, fn *ssa.Function, args []Value) Value {
			if fn.Name() == "TryLock" {
				return in.b.T
			}
			return in.zeroResults(fn)
		}
	case strings.HasPrefix(name, "sync/atomic."):
		return atomicIntr(strings.TrimPrefix(name, "sync/atomic."))
	case strings.HasPrefix(name, "internal/race."), strings.HasPrefix(name, "internal/asan."), strings.HasPrefix(name, "internal/msan."):
		return nop
	}
	return nil
}

func atomicIntr(n string) intrinsic {
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value { return in.load(a[0]) }
	case strings.HasPrefix(n, "Store"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value { in.store(a[0], a[1]); return nil }
	case strings.HasPrefix(n, "Add"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			v := in.b.Bin(OAdd, in.load(a[0]).(*Term), a[1].(*Term))
			in.store(a[0], v)
			return v
		}
	case strings.HasPrefix(n, "Swap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			v := in.load(a[0])
			in.store(a[0], a[1])
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			if in.branch(in.eq(in.load(a[0]), a[1])) {
				in.store(a[0], a[2])
				return in.b.T
			}
			return in.b.F
		}
	}
	return nil
}

func (in *Interp) constInt(v Value) int64 {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		panic(unsupported{"harness argument must be concrete"})
	}
	return sx(t.val, t.sort.W)
}

func (p *Path) input(kind string, t ...*Term) {
	p.inputs = append(p.inputs, Input{Kind: kind, t: t})
}

func needPath(in *Interp) *Path {
	if in.p == nil || in.initMode > 0 {
		panic(unsupported{"symbolic input during initialisation"})
	}
	return in.p
}

func init() {
	id := func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("internal/stringslite.Clone", id)
	reg("strings.Clone", id)
}

func init() {
	// Calendar dates are computed per day: the path forks over the days.
	reg("(time.absSeconds).days", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := in.b.Bin(OUdiv, a[0].(*Term), in.b.Const(64, 86400))
		if !t.isConst() {
			t = in.b.Const(64, in.concretize(t))
		}
		return t
	})
}

func init() {
	// ---- harness API
	reg(vs+"Bool", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		t := p.fresh(0, "b", 0, 1)
		p.input("bool", t)
		return t
	})
	reg(vs+"Byte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		t := p.fresh(8, "u", 0, 255)
		p.input("byte", t)
		return t
	})
	reg(vs+"Int", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		t := p.freshSigned(64, "i", in.constInt(a[0]), in.constInt(a[1]))
		p.input("int", t)
		return t
	})
	reg(vs+"Int64", intrinsics[vs+"Int"])
	reg(vs+"Uint64", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		t := p.fresh(64, "u", a[0].(*Term).val, a[1].(*Term).val)
		p.input("uint", t)
		return t
	})
	reg(vs+"Float64", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		t := p.fresh(64, "f", 0, ^uint64(0))
		p.input("float", t)
		return in.b.FFromBits(t)
	})
	reg(vs+"Choice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		n := in.constInt(a[0])
		if n <= 0 {
			panic(unsupported{"Choice of nothing"})
		}
		t := p.fresh(64, "c", 0, uint64(n-1))
		p.input("choice", t)
		if n == 1 {
			return in.b.Const(64, 0)
		}
		return in.b.Const(64, in.concretize(t))
	})
	reg(vs+"String", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.symString(needPath(in), "", int(in.constInt(a[0])), int(in.constInt(a[1])))
	})
	reg(vs+"StringOf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		al, ok := a[0].(string)
		if !ok || al == "" {
			panic(unsupported{"alphabet must be concrete"})
		}
		return in.symString(needPath(in), al, int(in.constInt(a[1])), int(in.constInt(a[2])))
	})
	reg(vs+"Assume", func(in *Interp, fn *ssa.Function, a []Value) Value { needPath(in).assume(a[0].(*Term)); return nil })
	reg(vs+"Assert", func(in *Interp, fn *ssa.Function, a []Value) Value {
		l, _ := a[1].(string)
		needPath(in).assert(a[0].(*Term), l)
		return nil
	})
	reg(vs+"Observe", func(in *Interp, fn *ssa.Function, a []Value) Value {
		l, _ := a[0].(string)
		p := needPath(in)
		p.obs = append(p.obs, Obs{l, a[1]})
		return nil
	})
	reg(vs+"Cover", func(in *Interp, fn *ssa.Function, a []Value) Value {
		l, _ := a[0].(string)
		needPath(in).e.cover("cover:" + l)
		return nil
	})
	reg(vs+"Thorough", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.b.Bool(needPath(in).e.tier == "thorough")
	})
	reg(vs+"Symbolic", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.b.T })
	reg(vs+"MapOrder", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		p.mapOrder = int(in.constInt(a[0]))
		p.mapForkMax = p.mapForks + int(in.constInt(a[1]))
		return nil
	})
	reg(vs+"Init", func(in *Interp, fn *ssa.Function, a []Value) Value {
		path := a[0].(string)
		for _, pk := range in.prog.SSA.AllPackages() {
			if pk.Pkg.Path() == path && in.initDone[pk] == 0 {
				in.initPkg(pk)
			}
		}
		return nil
	})
	// And/Or/Implies/Ite without forking
	reg(vs+"And", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := in.b.T
		for _, x := range a[0].([]Value) {
			r = in.b.And(r, x.(*Term))
		}
		return r
	})
	reg(vs+"Or", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := in.b.F
		for _, x := range a[0].([]Value) {
			r = in.b.Or(r, x.(*Term))
		}
		return r
	})
	reg(vs+"Implies", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.b.Or(in.b.Not(a[0].(*Term)), a[1].(*Term))
	})
	reg(vs+"Ite", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.b.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	reg(vs+"IteU", intrinsics[vs+"Ite"])
	reg(vs+"StrEq", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.strEq(a[0], a[1]) })
	reg(vs+"Linear", func(in *Interp, fn *ssa.Function, a []Value) Value { in.s.setInt(true); return nil })
	reg(vs+"FloatSame", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.b.Eq(a[0].(*Term), a[1].(*Term)) })

	// ---- internal/bytealg and friends
	byteSeq := func(in *Interp, v Value) []*Term {
		switch x := v.(type) {
		case []Value:
			r := make([]*Term, len(x))
			for i := range x {
				r[i] = x[i].(*Term)
			}
			return r
		}
		return in.strBytes(v)
	}
	indexByte := func(in *Interp, fn *ssa.Function, a []Value) Value {
		for i, t := range byteSeq(in, a[0]) {
			if in.branch(in.b.Eq(t, a[1].(*Term))) {
				return in.b.Const(64, uint64(i))
			}
		}
		return in.b.Const(64, ^uint64(0))
	}
	reg("internal/bytealg.IndexByte", indexByte)
	reg("internal/bytealg.IndexByteString", indexByte)
	count := func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, t := range byteSeq(in, a[0]) {
			if in.branch(in.b.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return in.b.Const(64, uint64(n))
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	reg("bytes.Equal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.strEq(in.bytesToStr(a[0].([]Value)), in.bytesToStr(a[1].([]Value)))
	})
	reg("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	cmp := func(in *Interp, x, y Value) Value {
		if in.branch(in.strEq(x, y)) {
			return in.b.Const(64, 0)
		}
		if in.branch(in.strLess(x, y, false)) {
			return in.b.Const(64, ^uint64(0))
		}
		return in.b.Const(64, 1)
	}
	reg("internal/bytealg.Compare", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return cmp(in, in.bytesToStr(a[0].([]Value)), in.bytesToStr(a[1].([]Value)))
	})
	reg("internal/bytealg.CompareString", func(in *Interp, fn *ssa.Function, a []Value) Value { return cmp(in, a[0], a[1]) })
	reg("strings.Compare", func(in *Interp, fn *ssa.Function, a []Value) Value { return cmp(in, a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.concInt(a[0], true)
		s := make([]Value, n)
		for i := range s {
			s[i] = in.b.Const(8, 0)
		}
		return s
	})
	matchAt := func(in *Interp, s, sub Value, i int) *Term {
		return in.strEq(in.strSlice(s, i, i+strLen(sub)), sub)
	}
	index := func(in *Interp, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return in.b.Const(64, uint64(int64(strings.Index(x, y))))
			}
		}
		n, m := strLen(a[0]), strLen(a[1])
		for i := 0; i+m <= n; i++ {
			if in.branch(matchAt(in, a[0], a[1], i)) {
				return in.b.Const(64, uint64(i))
			}
		}
		return in.b.Const(64, ^uint64(0))
	}
	reg("strings.Index", index)
	reg("internal/stringslite.Index", index)
	reg("strings.LastIndex", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		for i := n - m; i >= 0; i-- {
			if in.branch(matchAt(in, a[0], a[1], i)) {
				return in.b.Const(64, uint64(i))
			}
		}
		return in.b.Const(64, ^uint64(0))
	})
	reg("strings.Contains", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		r := in.b.F
		for i := 0; i+m <= n; i++ {
			r = in.b.Or(r, matchAt(in, a[0], a[1], i))
		}
		return r
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("(*bytes.Buffer).tryGrowByReslice", nil)
	delete(intrinsics, "(*bytes.Buffer).tryGrowByReslice")
	caseMap := func(lo, hi byte, add int) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(string); ok {
				if add > 0 {
					return strings.ToLower(x)
				}
				return strings.ToUpper(x)
			}
			bs := in.strBytes(a[0])
			ascii := in.b.T
			for _, t := range bs {
				ascii = in.b.And(ascii, in.b.Ult(t, in.b.Const(8, 0x80)))
			}
			if !in.branch(ascii) {
				return in.runReal(fn, a)
			}
			out := make([]*Term, len(bs))
			for i, t := range bs {
				isL := in.b.And(in.b.Ule(in.b.Const(8, uint64(lo)), t), in.b.Ule(t, in.b.Const(8, uint64(hi))))
				out[i] = in.b.Ite(isL, in.b.Bin(OAdd, t, in.b.Const(8, uint64(byte(add)))), t)
			}
			return in.mkStr(out)
		}
	}
	reg("strings.ToLower", caseMap('A', 'Z', 32))
	reg("strings.ToUpper", caseMap('a', 'z', -32))
	reg("strings.EqualFold", func(in *Interp, fn *ssa.Function, a []Value) Value {
		ascii := in.b.T
		for _, v := range a {
			for _, t := range in.strBytes(v) {
				ascii = in.b.And(ascii, in.b.Ult(t, in.b.Const(8, 0x80)))
			}
		}
		if !in.branch(ascii) {
			return in.runReal(fn, a)
		}
		l := intrinsics["strings.ToLower"]
		return in.strEq(l(in, fn, a[:1]), l(in, fn, a[1:]))
	})

	// ---- strconv
	reg("strconv.FormatInt", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		base := in.concInt(a[1], true)
		if t.isConst() {
			return strconv.FormatInt(int64(t.val), base)
		}
		return in.fmtInt(t, true, base)
	})
	reg("strconv.FormatUint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		base := in.concInt(a[1], true)
		if t.isConst() {
			return strconv.FormatUint(t.val, base)
		}
		return in.fmtInt(t, false, base)
	})
	reg("strconv.Itoa", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.fmtInt(a[0].(*Term), true, 10)
	})
	reg("strconv.FormatFloat", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t, f := a[0].(*Term), a[1].(*Term)
		if !t.isConst() || !f.isConst() {
			panic(unsupported{"text of a symbolic float"})
		}
		return strconv.FormatFloat(math.Float64frombits(t.val), byte(f.val), in.concInt(a[2], true), in.concInt(a[3], true))
	})
	reg("strconv.ParseFloat", parseFloat)
	reg("strconv.ParseInt", parseInt)

	// ---- errors, runtime
	reg("runtime.Callers", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.b.Const(64, 0) })
	reg("runtime.GC", nop)
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("errors.Is", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.b.Bool(in.errIs(a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.As", errAs)
	reg("os.Getenv", func(in *Interp, fn *ssa.Function, a []Value) Value {
		k, ok := a[0].(string)
		if !ok || in.p == nil {
			panic(unsupported{"os.Getenv of a symbolic name"})
		}
		if v, ok := in.p.env[k]; ok {
			return v
		}
		return ""
	})
	reg(vs+"Setenv", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		if p.env == nil {
			p.env = map[string]Value{}
		}
		p.env[a[0].(string)] = a[1]
		return nil
	})

	// ---- sort
	reg("sort.Slice", func(in *Interp, fn *ssa.Function, a []Value) Value { return sortSlice(in, fn, a, "pdqsort_func") })
	reg("sort.SliceStable", func(in *Interp, fn *ssa.Function, a []Value) Value { return sortSlice(in, fn, a, "stable_func") })

	// ---- sync
	reg("(*sync.Once).Do", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if in.onces[p] {
			return nil
		}
		in.onces[p] = true
		in.onUndo(func() { delete(in.onces, p) })
		in.Call(a[1].(*Closure), nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		c, _ := s[len(s)-1].(*Closure)
		if c == nil {
			return Iface{}
		}
		return in.Call(c, nil)
	})
	reg("(*sync.Pool).Put", nop)
	reg("(*sync/atomic.Value).Load", func(in *Interp, fn *ssa.Function, a []Value) Value { return (*a[0].(*Value)).(Struct)[0] })
	reg("(*sync/atomic.Value).Store", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.set(&(*a[0].(*Value)).(Struct)[0], a[1])
		return nil
	})
	reg("(*sync.Map).Load", func(in *Interp, fn *ssa.Function, a []Value) Value {
		m := in.syncMap(a[0].(*Value))
		if e := in.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, in.b.T}
		}
		return Tuple{Iface{}, in.b.F}
	})
	reg("(*sync.Map).Store", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.mapSet(in.syncMap(a[0].(*Value)), a[1], a[2])
		return nil
	})

	// ---- fmt
	reg("fmt.Sprintf", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprintf(a[0], a[1].([]Value)) })
	reg("fmt.Sprint", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(a[0].([]Value), false) })
	reg("fmt.Sprintln", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(a[0].([]Value), true) })
	reg("fmt.Errorf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := in.sprintf(a[0], a[1].([]Value))
		args := a[1].([]Value)
		f, _ := a[0].(string)
		if strings.Contains(f, "%w") {
			// position of the %w verb
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					if f[i+1] == 'w' {
						break
					}
					k++
				}
			}
			if k < len(args) {
				if t := in.namedType("fmt", "wrapError"); t != nil {
					p := new(Value)
					*p = Struct{s, args[k]}
					return Iface{t: types.NewPointer(t), v: p}
				}
			}
		}
		t := in.namedType("errors", "errorString")
		p := new(Value)
		*p = Struct{s}
		return Iface{t: types.NewPointer(t), v: p}
	})
	for _, n := range []string{"fmt.Print", "fmt.Printf", "fmt.Println"} {
		reg(n, func(in *Interp, fn *ssa.Function, a []Value) Value { return Tuple{in.b.Const(64, 0), Iface{}} })
	}
	fprint := func(mk func(in *Interp, a []Value) Value) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			s := mk(in, a[1:])
			w := a[0].(Iface)
			if w.t == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			bs := in.strBytes(s)
			r := make([]Value, len(bs))
			for i := range r {
				r[i] = bs[i]
			}
			return in.CallMethod(w, "Write", r)
		}
	}
	reg("fmt.Fprintf", fprint(func(in *Interp, a []Value) Value { return in.sprintf(a[0], a[1].([]Value)) }))
	reg("fmt.Fprint", fprint(func(in *Interp, a []Value) Value { return in.sprint(a[0].([]Value), false) }))
	reg("fmt.Fprintln", fprint(func(in *Interp, a []Value) Value { return in.sprint(a[0].([]Value), true) }))

	// ---- math
	reg("math.Float64bits", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return in.b.Const(64, t.val)
		}
		if t.op == OFFromBits {
			return t.a[0]
		}
		panic(unsupported{"Float64bits of a computed float"})
	})
	reg("math.Float64frombits", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.b.FFromBits(a[0].(*Term)) })
	reg("math.IsNaN", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.b.Not(in.b.FCmp(OFEq, a[0].(*Term), a[0].(*Term)))
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt} {
		f := f
		g := func(in *Interp, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return in.b.FConst(64, math.Float64bits(f(math.Float64frombits(t.val))))
			}
			panic(unsupported{"math on a symbolic float"})
		}
		reg("math."+n, g)
	}

	// ---- time, randomness
	reg("time.Now", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := in.zero(fn.Signature.Results().At(0).Type()).(Struct)
		if in.p != nil && in.p.now != nil {
			return copyVal(in.p.now)
		}
		// wall = nanoseconds, ext = seconds since year 1
		var c uint64
		if in.p != nil {
			c = in.p.clock
		}
		t[0] = in.b.Const(64, c%1000000000)
		t[1] = in.b.Const(64, uint64(63800000000)+c/1000000000)
		return t
	})
	reg(vs+"Elapse", func(in *Interp, fn *ssa.Function, a []Value) Value {
		d := a[0].(*Term)
		if !d.isConst() {
			panic(unsupported{"elapsing a symbolic time"})
		}
		p := needPath(in)
		p.clock += d.val
		p.clocked = true
		return nil
	})
	reg(vs+"SetNow", func(in *Interp, fn *ssa.Function, a []Value) Value {
		needPath(in).now = copyVal(a[0])
		return nil
	})
	reg("time.initLocal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		for _, m := range fn.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() == "localLoc" {
				s := (*in.global(g)).(Struct)
				in.set(&s[0], "UTC")
			}
		}
		return nil
	})
	reg("time.runtimeNano", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.b.Const(64, 1) })
	reg("time.Since", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if in.p != nil && in.p.sinceSym {
			p := in.p
			t := p.fresh(64, "i", 0, 1<<40)
			p.inputs = append(p.inputs, Input{Kind: "mapnd", t: []*Term{t}})
			return t
		}
		if in.p != nil && in.p.clocked {
			now := in.callFn(fn.Pkg.Func("Now"), nil, nil)
			sub := fn.Prog.LookupMethod(fn.Pkg.Type("Time").Type(), fn.Pkg.Pkg, "Sub")
			return in.callFn(sub, []Value{now, a[0]}, nil)
		}
		return in.b.Const(64, 1000000)
	})
	reg("time.Sleep", nop)
	randIntn := func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := a[len(a)-1].(*Term)
		if in.branch(in.b.Sle(n, in.b.Const(64, 0))) {
			in.panicStr("invalid argument to Intn")
		}
		p := needPath(in)
		t := p.fresh(64, "i", 0, ^uint64(0)>>1)
		p.inputs = append(p.inputs, Input{Kind: "mapnd", t: []*Term{t}})
		p.sawMapFork = true
		p.assume(in.b.Slt(t, n))
		p.assume(in.b.Sle(in.b.Const(64, 0), t))
		return t
	}
	reg("math/rand.Intn", randIntn)
	reg("(*math/rand.Rand).Intn", randIntn)

	// ---- reflect (the little that is needed)
	reg("reflect.TypeOf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{t: types.Typ[types.Int], v: &Host{"rtype", i.t}}
	})
	reg("internal/reflectlite.TypeOf", intrinsics["reflect.TypeOf"])
	reg("reflect.DeepEqual", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.deepEq(a[0], a[1], 0) })
	regRegexp()
}

func (in *Interp) panicStr(s string) {
	panic(targetPanic{v: Iface{t: types.Typ[types.String], v: s}})
}

func (in *Interp) syncMap(p *Value) *MapV {
	if m := in.syncMaps[p]; m != nil {
		return m
	}
	m := NewMap()
	in.syncMaps[p] = m
	in.onUndo(func() { delete(in.syncMaps, p) })
	return m
}

func (in *Interp) namedType(pkg, name string) types.Type {
	for _, p := range in.prog.SSA.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func hostMethod(h *Host, name string) intrinsic {
	switch h.kind {
	case "rtype":
		t := h.v.(types.Type)
		switch name {
		case "Name":
			return func(in *Interp, fn *ssa.Function, a []Value) Value {
				if n, ok := t.(*types.Named); ok {
					return n.Obj().Name()
				}
				if b, ok := t.(*types.Basic); ok {
					return b.Name()
				}
				return ""
			}
		case "String":
			return func(in *Interp, fn *ssa.Function, a []Value) Value {
				return types.TypeString(t, func(p *types.Package) string { return p.Name() })
			}
		case "Elem":
			return func(in *Interp, fn *ssa.Function, a []Value) Value {
				switch u := t.Underlying().(type) {
				case *types.Pointer:
					return Iface{t: types.Typ[types.Int], v: &Host{"rtype", u.Elem()}}
				case *types.Slice:
					return Iface{t: types.Typ[types.Int], v: &Host{"rtype", u.Elem()}}
				}
				panic(unsupported{"reflect Elem"})
			}
		case "Comparable":
			return func(in *Interp, fn *ssa.Function, a []Value) Value { return in.b.Bool(types.Comparable(t)) }
		}
	}
	return nil
}

func (in *Interp) symString(p *Path, alphabet string, min, max int) Value {
	n := min
	if max > min {
		t := p.fresh(64, "len", uint64(min), uint64(max))
		n = int(in.concretize(t))
	}
	b := make([]*Term, n)
	for i := range b {
		p.nvar++
		name := fmt.Sprintf("v%d.s8", p.nvar)
		t := in.b.Var(name, 8)
		if alphabet != "" {
			if _, ok := p.model[name]; !ok {
				p.model[name] = uint64(alphabet[0])
			}
			c := in.b.F
			for j := 0; j < 256; {
				if strings.IndexByte(alphabet, byte(j)) < 0 {
					j++
					continue
				}
				k := j
				for k+1 < 256 && strings.IndexByte(alphabet, byte(k+1)) >= 0 {
					k++
				}
				c = in.b.Or(c, in.b.And(in.b.Ule(in.b.Const(8, uint64(j)), t), in.b.Ule(t, in.b.Const(8, uint64(k)))))
				j = k + 1
			}
			p.add(c)
			// (no tightened ranges: the name does not carry the alphabet)
		}
		b[i] = t
	}
	p.inputs = append(p.inputs, Input{Kind: "string", t: b, str: true})
	return in.mkStr(b)
}

// fmtInt renders a symbolic integer, forking on sign and number of digits.
func (in *Interp) fmtInt(t *Term, signed bool, base int) Value {
	if t.sort.W < 64 {
		if signed {
			t = in.b.Sext(t, 64)
		} else {
			t = in.b.Zext(t, 64)
		}
	}
	if t.isConst() {
		if signed {
			return strconv.FormatInt(int64(t.val), base)
		}
		return strconv.FormatUint(t.val, base)
	}
	var pre Value = ""
	if signed && in.branch(in.b.Slt(t, in.b.Const(64, 0))) {
		pre = "-"
		t = in.b.Bin(OSub, in.b.Const(64, 0), t)
	}
	pw := uint64(base)
	n := 1
	for {
		if in.branch(in.b.Ult(t, in.b.Const(64, pw))) {
			break
		}
		n++
		hi := pw * uint64(base)
		if hi/uint64(base) != pw {
			break
		}
		pw = hi
	}
	bs := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		d := in.b.Extract(in.b.Bin(OUrem, t, in.b.Const(64, uint64(base))), 7, 0)
		if base <= 10 {
			bs[i] = in.b.Bin(OAdd, d, in.b.Const(8, '0'))
		} else {
			bs[i] = in.b.Ite(in.b.Ult(d, in.b.Const(8, 10)), in.b.Bin(OAdd, d, in.b.Const(8, '0')), in.b.Bin(OAdd, d, in.b.Const(8, 'a'-10)))
		}
		if i > 0 {
			t = in.b.Bin(OUdiv, t, in.b.Const(64, uint64(base)))
		}
	}
	return in.strConcat(pre, in.mkStr(bs))
}

// parseFloat is exact for plain decimals of at most 15 significant digits.
func parseFloat(in *Interp, fn *ssa.Function, a []Value) Value {
	if s, ok := a[0].(string); ok {
		f, err := strconv.ParseFloat(s, in.concInt(a[1], true))
		return Tuple{in.b.FConst(64, math.Float64bits(f)), in.hostErr(err)}
	}
	bs := in.strBytes(a[0])
	b := in.b
	mant := b.Const(64, 0)
	dot := -1
	nd := 0
	for i, t := range bs {
		isD := b.And(b.Ule(b.Const(8, '0'), t), b.Ule(t, b.Const(8, '9')))
		if in.branch(isD) {
			nd++
			mant = b.Bin(OAdd, b.Bin(OMul, mant, b.Const(64, 10)), b.Zext(b.Bin(OSub, t, b.Const(8, '0')), 64))
			continue
		}
		if dot < 0 && in.branch(b.Eq(t, b.Const(8, '.'))) {
			dot = i
			continue
		}
		return in.runReal(fn, a)
	}
	if nd == 0 || nd > 15 {
		return in.runReal(fn, a)
	}
	f := b.FConv(OUToF, mant, Sort{64, true})
	if dot >= 0 {
		k := len(bs) - 1 - dot
		if k > 0 {
			f = b.FBin(OFDiv, f, b.FConst(64, math.Float64bits(math.Pow10(k))))
		}
	}
	return Tuple{f, Iface{}}
}

func parseInt(in *Interp, fn *ssa.Function, a []Value) Value {
	base := in.concInt(a[1], true)
	bits := in.concInt(a[2], true)
	if s, ok := a[0].(string); ok {
		v, err := strconv.ParseInt(s, base, bits)
		return Tuple{in.b.Const(64, uint64(v)), in.hostErr(err)}
	}
	bs := in.strBytes(a[0])
	b := in.b
	if base != 10 || (bits != 64 && bits != 0) || len(bs) == 0 || len(bs) > 18 {
		return in.runReal(fn, a)
	}
	all := b.T
	v := b.Const(64, 0)
	for _, t := range bs {
		all = b.And(all, b.And(b.Ule(b.Const(8, '0'), t), b.Ule(t, b.Const(8, '9'))))
		v = b.Bin(OAdd, b.Bin(OMul, v, b.Const(64, 10)), b.Zext(b.Bin(OSub, t, b.Const(8, '0')), 64))
	}
	if !in.branch(all) {
		return in.runReal(fn, a)
	}
	return Tuple{v, Iface{}}
}

func (in *Interp) hostErr(err error) Value {
	if err == nil {
		return Iface{}
	}
	t := in.namedType("errors", "errorString")
	p := new(Value)
	*p = Struct{err.Error()}
	return Iface{t: types.NewPointer(t), v: p}
}

func (in *Interp) hasMethod(i Iface, name string) bool {
	return i.t != nil && in.prog.method(i.t, nil, name) != nil
}

func (in *Interp) unwrap(e Iface) (Iface, bool) {
	if !in.hasMethod(e, "Unwrap") {
		return Iface{}, false
	}
	r, ok := in.CallMethod(e, "Unwrap").(Iface)
	return r, ok && r.t != nil
}

func (in *Interp) errIs(e, target Iface) bool {
	for e.t != nil {
		if target.t != nil && types.Comparable(target.t) && types.Identical(e.t, target.t) && in.branch(in.eq(e, target)) {
			return true
		}
		if in.hasMethod(e, "Is") {
			if in.branch(in.CallMethod(e, "Is", target).(*Term)) {
				return true
			}
		}
		n, ok := in.unwrap(e)
		if !ok {
			return false
		}
		e = n
	}
	return target.t == nil
}

func errAs(in *Interp, fn *ssa.Function, a []Value) Value {
	e := a[0].(Iface)
	tg := a[1].(Iface)
	pt, ok := tg.t.(*types.Pointer)
	if !ok {
		in.panicStr("errors: target must be a non-nil pointer")
	}
	for e.t != nil {
		if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
			if in.prog.implements(e, it) {
				in.store(tg.v, e)
				return in.b.T
			}
		} else if types.Identical(e.t, pt.Elem()) {
			in.store(tg.v, e.v)
			return in.b.T
		}
		n, ok := in.unwrap(e)
		if !ok {
			break
		}
		e = n
	}
	return in.b.F
}

func sortSlice(in *Interp, fn *ssa.Function, a []Value, impl string) Value {
	s := a[0].(Iface).v.([]Value)
	swap := &Closure{host: func(in *Interp, x []Value) Value {
		i, j := in.concInt(x[0], true), in.concInt(x[1], true)
		vi, vj := copyVal(s[i]), copyVal(s[j])
		in.set(&s[i], vj)
		in.set(&s[j], vi)
		return nil
	}}
	ls := Struct{a[1], swap}
	n := len(s)
	f := fn.Pkg.Func(impl)
	if impl == "stable_func" {
		return in.callFn(f, []Value{ls, in.b.Const(64, uint64(n))}, nil)
	}
	lim := 0
	for x := n; x > 0; x >>= 1 {
		lim++
	}
	return in.callFn(f, []Value{ls, in.b.Const(64, 0), in.b.Const(64, uint64(n)), in.b.Const(64, uint64(lim))}, nil)
}

func (in *Interp) deepEq(x, y Value, depth int) *Term {
	if depth > 60 {
		panic(unsupported{"deepEq depth"})
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported{"deepEq"})
		}
		if a.t == nil || b.t == nil {
			return in.b.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return in.b.F
		}
		return in.deepEq(a.v, b.v, depth+1)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return in.eq(x, y)
		}
		if a == b {
			return in.b.T
		}
		if a == nil || b == nil {
			return in.b.F
		}
		return in.deepEq(*a, *b, depth+1)
	case Struct:
		return in.deepEqL(a, y.(Struct), depth)
	case Array:
		return in.deepEqL(a, y.(Array), depth)
	case []Value:
		b := y.([]Value)
		if len(a) != len(b) || (a == nil) != (b == nil) {
			return in.b.F
		}
		return in.deepEqL(a, b, depth)
	case *MapV:
		b := y.(*MapV)
		if a == b {
			return in.b.T
		}
		if a == nil || b == nil || a.n != b.n {
			return in.b.F
		}
		r := in.b.T
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			o := in.mapFind(b, e.k)
			if o == nil {
				return in.b.F
			}
			r = in.b.And(r, in.deepEq(e.v, o.v, depth+1))
		}
		return r
	case *Closure:
		return in.b.Bool(a == nil && y.(*Closure) == nil)
	}
	return in.eq(x, y)
}

func (in *Interp) deepEqL(a, b []Value, depth int) *Term {
	r := in.b.T
	for i := range a {
		r = in.b.And(r, in.deepEq(a[i], b[i], depth+1))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// ---- fmt

func (in *Interp) sprint(args []Value, ln bool) Value {
	var out Value = ""
	prevStr := true
	for i, a := range args {
		ifc := a.(Iface)
		_, isS := ifc.v.(string)
		_, isS2 := ifc.v.(*SymStr)
		str := isS || isS2
		if i > 0 && (ln || (!str && !prevStr)) {
			out = in.strConcat(out, " ")
		}
		out = in.strConcat(out, in.fmtArg(ifc, "%v", 'v'))
		prevStr = str
	}
	if ln {
		out = in.strConcat(out, "\n")
	}
	return out
}

func (in *Interp) sprintf(format Value, args []Value) Value {
	f, ok := format.(string)
	if !ok {
		panic(unsupported{"symbolic format string"})
	}
	var out Value = ""
	ai, reordered := 0, false
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = in.strConcat(out, f[i:])
			break
		}
		out = in.strConcat(out, f[i:i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = in.strConcat(out, "%!(NOVERB)")
			break
		}
		flags := f[i:k]
		for k < len(f) && (f[k] == '[' || f[k] == '*') {
			if f[k] == '[' {
				e := strings.IndexByte(f[k:], ']')
				if e < 0 {
					panic(unsupported{"format " + f})
				}
				n, err := strconv.Atoi(f[k+1 : k+e])
				if err != nil || n < 1 || n > len(args) {
					panic(unsupported{"format " + f})
				}
				ai, reordered = n-1, true
				k += e + 1
			} else {
				var n *Term
				if ai < len(args) {
					n, _ = args[ai].(Iface).v.(*Term)
				}
				if n == nil || !n.isConst() {
					panic(unsupported{"format " + f})
				}
				flags += strconv.FormatInt(int64(n.val), 10)
				ai++
				k++
			}
			j := k
			for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
				k++
			}
			flags += f[j:k]
		}
		if k >= len(f) {
			out = in.strConcat(out, "%!(NOVERB)")
			break
		}
		verb := f[k]
		spec := flags + string(verb)
		i = k + 1
		if verb == '%' {
			out = in.strConcat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = in.strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = in.strConcat(out, in.fmtArg(args[ai].(Iface), spec, verb))
		ai++
	}
	if !reordered && ai < len(args) {
		out = in.strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (in *Interp) fmtArg(a Iface, spec string, verb byte) Value {
	if a.t == nil {
		if verb == 'v' || verb == 's' && false {
			return "<nil>"
		}
		return fmt.Sprintf(spec, nil)
	}
	plain := len(spec) == 2 || spec == "%+v"
	if plain && (verb == 'v' || verb == 's' || verb == 'w' || verb == 'q') {
		for _, m := range []string{"Error", "String"} {
			if _, isH := a.v.(*Host); !isH && in.hasMethod(a, m) {
				if p, ok := a.v.(*Value); ok && p == nil {
					return "<nil>"
				}
				f := in.prog.method(a.t, nil, m)
				if f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
					s := in.callFn(f, []Value{a.v}, nil)
					if verb == 'q' {
						if cs, ok := s.(string); ok {
							return strconv.Quote(cs)
						}
						panic(unsupported{"%q of a symbolic string"})
					}
					return s
				}
			}
		}
	}
	switch x := a.v.(type) {
	case string:
		if verb == 'w' {
			verb, spec = 'v', "%v"
		}
		return fmt.Sprintf(spec, x)
	case *SymStr:
		if plain && (verb == 's' || verb == 'v') {
			return x
		}
		if verb == 'q' && plain {
			return in.quoteSym(x)
		}
		panic(unsupported{"format " + spec + " of a symbolic string"})
	case *Term:
		bt, _ := a.t.Underlying().(*types.Basic)
		if bt == nil {
			break
		}
		if x.isConst() {
			return fmt.Sprintf(spec, nativeScalar(x, bt))
		}
		switch {
		case bt.Info()&types.IsBoolean != 0:
			if in.branch(x) {
				return fmt.Sprintf(spec, true)
			}
			return fmt.Sprintf(spec, false)
		case bt.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
			s := in.fmtInt(x, isSigned(a.t), 10)
			w := 0
			zero := false
			sp := spec[1 : len(spec)-1]
			if sp == "" {
				return s
			}
			if sp[0] == '0' {
				zero = true
			}
			w, err := strconv.Atoi(sp)
			if err != nil {
				panic(unsupported{"format " + spec})
			}
			for strLen(s) < w {
				if zero {
					s = in.strConcat("0", s)
				} else {
					s = in.strConcat(" ", s)
				}
			}
			return s
		case bt.Info()&types.IsInteger != 0 && verb == 'x' && plain:
			return in.fmtInt(x, isSigned(a.t), 16)
		case bt.Info()&types.IsInteger != 0 && verb == 'c' && plain:
			return in.runeToStr(in.b.Extract(in.idx64(x, false), 31, 0))
		}
		panic(unsupported{"format " + spec + " of a symbolic " + bt.Name()})
	case []Value:
		if st, ok := a.t.Underlying().(*types.Slice); ok && plain && verb == 'x' {
			if bt, ok := st.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				var bs []*Term
				for _, e := range x {
					t := e.(*Term)
					for _, n := range []*Term{in.b.Extract(t, 7, 4), in.b.Extract(t, 3, 0)} {
						n = in.b.Zext(n, 8)
						bs = append(bs, in.b.Ite(in.b.Ult(n, in.b.Const(8, 10)), in.b.Bin(OAdd, n, in.b.Const(8, '0')), in.b.Bin(OAdd, n, in.b.Const(8, 'a'-10))))
					}
				}
				return in.mkStr(bs)
			}
		}
		if st, ok := a.t.Underlying().(*types.Slice); ok && plain && (verb == 'v' || verb == 's' || verb == 'd') {
			if bt, ok := st.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 && verb == 's' {
				return in.bytesToStr(x)
			}
			var out Value = "["
			for i, e := range x {
				if i > 0 {
					out = in.strConcat(out, " ")
				}
				ei, ok := e.(Iface)
				if !ok {
					ei = Iface{t: st.Elem(), v: e}
				}
				out = in.strConcat(out, in.fmtArg(ei, spec, verb))
			}
			return in.strConcat(out, "]")
		}
	case *Value:
		if x == nil {
			return "<nil>"
		}
	}
	return "<" + a.t.String() + ">"
}

// quoteSym is strconv.Quote for printable ASCII (forks on what must be escaped).
func (in *Interp) quoteSym(x *SymStr) Value {
	b := in.b
	var out Value = "\""
	for _, t := range x.b {
		switch {
		case in.branch(b.Or(b.Eq(t, b.Const(8, '"')), b.Eq(t, b.Const(8, '\\')))):
			out = in.strConcat(out, in.mkStr([]*Term{b.Const(8, '\\'), t}))
		case in.branch(b.And(b.Ule(b.Const(8, 0x20), t), b.Ult(t, b.Const(8, 0x7f)))):
			out = in.strConcat(out, in.mkStr([]*Term{t}))
		default:
			panic(unsupported{"%q of an unprintable symbolic byte"})
		}
	}
	return in.strConcat(out, "\"")
}

func nativeScalar(x *Term, bt *types.Basic) any {
	v := x.val
	switch bt.Kind() {
	case types.Bool:
		return v == 1
	case types.Int:
		return int(v)
	case types.Int8:
		return int8(v)
	case types.Int16:
		return int16(v)
	case types.Int32:
		return int32(v)
	case types.Int64:
		return int64(v)
	case types.Uint:
		return uint(v)
	case types.Uint8:
		return uint8(v)
	case types.Uint16:
		return uint16(v)
	case types.Uint32:
		return uint32(v)
	case types.Uint64:
		return v
	case types.Uintptr:
		return uintptr(v)
	case types.Float32:
		return math.Float32frombits(uint32(v))
	case types.Float64:
		return math.Float64frombits(v)
	}
	return v
}
