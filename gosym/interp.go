package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- engine-level aborts (never caught by target code)

type unsupported struct{ msg string }
type pathEnd struct{ why string } // assume false, violation recorded, limits

// targetPanic is a Go panic of the program under execution.
type targetPanic struct {
	v   Iface
	pos string
}

type typeTable struct {
	mu sync.Mutex
	m  typeutil.Map
	n  int
}

func newTypeTable() *typeTable { return &typeTable{} }
func (tt *typeTable) key(t types.Type) string {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if v := tt.m.At(t); v != nil {
		return v.(string)
	}
	tt.n++
	s := fmt.Sprintf("T%d", tt.n)
	tt.m.Set(t, s)
	return s
}

var debugOn = os.Getenv("GOSYM_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, "[gosym] "+f+"\n", a...)
	}
}

type operand struct {
	kind int8 // 0 const, 1 reg, 2 global
	reg  int
	val  Value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
}

type cblock struct {
	phis   []cinstr
	instrs []cinstr
	b      *ssa.BasicBlock
}

type cfunc struct {
	fn     *ssa.Function
	blocks []*cblock
	nregs  int
	nparam int
	intr   intrinsic
	name   string
}

type frame struct {
	f         *cfunc
	regs      []Value
	defers    []func()
	panicv    *targetPanic
	panicking bool
	recovered bool
	result    Value
	caller    *frame
	initTop   bool
}

type Interp struct {
	prog  *Program
	b     *Bank
	s     *Solver
	funcs map[*ssa.Function]*cfunc

	globals  map[*ssa.Global]*Value
	initDone map[*ssa.Package]int // 1 running 2 done
	initMode int

	undo     []undoRec
	depth    int
	steps    int64
	maxSteps int64
	maxDepth int
	curFrame *frame

	p *Path // current path

	fnUsed map[*ssa.Function]bool
	ufs    []ufEntry

	real     map[*ssa.Function]*cfunc
	noIntr   bool
	onces    map[*Value]bool
	exactNum bool // JSON numbers are read as they are written
	syncMaps map[*Value]*MapV
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

func (in *Interp) set(p *Value, v Value) {
	if in.initMode == 0 {
		in.undo = append(in.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) onUndo(f func()) {
	if in.initMode == 0 {
		in.undo = append(in.undo, undoRec{f: f})
	}
}

func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		u := &in.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	in.undo = in.undo[:0]
}

// ---- compile

func (in *Interp) compile(fn *ssa.Function) *cfunc {
	if c, ok := in.funcs[fn]; ok {
		return c
	}
	c := &cfunc{fn: fn, name: fnName(fn)}
	in.funcs[fn] = c
	if !in.noIntr {
		if it, ok := intrinsics[c.name]; ok {
			c.intr = it
			return c
		}
		if it := patternIntrinsic(c.name); it != nil {
			c.intr = it
			return c
		}
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if len(fn.Blocks) == 0 {
		return c
	}
	idx := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		idx[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = n
		n++
	}
	c.nparam = n
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				idx[v] = n
				n++
			}
		}
	}
	c.nregs = n
	mkop := func(v ssa.Value) operand {
		if v == nil {
			return operand{kind: 0}
		}
		if r, ok := idx[v]; ok {
			return operand{kind: 1, reg: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return operand{val: in.constVal(x)}
		case *ssa.Function:
			return operand{val: &Closure{fn: x}}
		case *ssa.Builtin:
			return operand{val: &Closure{bi: x}}
		case *ssa.Global:
			return operand{kind: 2, g: x}
		}
		panic(unsupported{fmt.Sprintf("operand %T", v)})
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			if call, ok := i.(ssa.CallInstruction); ok {
				cc := call.Common()
				ci.ops = append(ci.ops, mkop(cc.Value))
				for _, a := range cc.Args {
					ci.ops = append(ci.ops, mkop(a))
				}
			} else {
				var rands [16]*ssa.Value
				for _, op := range i.Operands(rands[:0]) {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			if _, ok := i.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.instrs = append(cb.instrs, ci)
			}
		}
		c.blocks = append(c.blocks, cb)
	}
	return c
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			n, _ := constant.Int64Val(c.Value)
			return string(rune(n))
		case b.Info()&types.IsBoolean != 0:
			return in.b.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if b.Kind() == types.Float32 {
				f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
				return in.b.FConst(32, uint64(math.Float32bits(f32)))
			}
			return in.b.FConst(64, math.Float64bits(f))
		case b.Info()&types.IsInteger != 0:
			s := sortOf(t)
			v := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(v); ok {
				return in.b.Const(s.W, u)
			}
			i, _ := constant.Int64Val(v)
			return in.b.Const(s.W, uint64(i))
		case b.Info()&types.IsComplex != 0:
			return Poison{"complex const"}
		}
	}
	panic(unsupported{"const " + c.String()})
}

// ---- globals and package initialisation

func (in *Interp) global(g *ssa.Global) *Value {
	p, ok := in.globals[g]
	if !ok {
		p = new(Value)
		*p = in.zero(deref(g.Type()))
		in.globals[g] = p
	}
	if g.Pkg != nil && in.initDone[g.Pkg] == 0 {
		in.initPkg(g.Pkg)
	}
	return p
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (in *Interp) initPkg(pkg *ssa.Package) {
	in.initDone[pkg] = 1
	if noInit[pkg.Pkg.Path()] {
		in.initDone[pkg] = 2
		return
	}
	pkg.Build()
	f := pkg.Func("init")
	if f == nil {
		in.initDone[pkg] = 2
		return
	}
	sd, ss, sf := in.depth, in.steps, in.curFrame
	in.initMode++
	in.depth = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupported:
					debugf("init of %s stopped: %s", pkg.Pkg.Path(), x.msg)
				case targetPanic:
					debugf("init of %s panicked", pkg.Pkg.Path())
				default:
					panic(r)
				}
			}
		}()
		in.runFunc(in.compile(f), nil, nil, true)
	}()
	in.initMode--
	in.depth, in.steps, in.curFrame = sd, ss, sf
	in.initDone[pkg] = 2
}

// ---- frames

func (in *Interp) get(fr *frame, o *operand) Value {
	switch o.kind {
	case 1:
		return fr.regs[o.reg]
	case 2:
		return in.global(o.g)
	}
	return o.val
}

func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	c := in.compile(fn)
	if c.intr != nil {
		in.fnUsed[fn] = true
		return c.intr(in, fn, args)
	}
	return in.runFunc(c, args, env, false)
}

// Call invokes a function value.
func (in *Interp) Call(c *Closure, args []Value) Value {
	if c == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.host != nil {
		return c.host(in, args)
	}
	if c.bi != nil {
		return in.builtin(c.bi, nil, args)
	}
	return in.callFn(c.fn, args, c.env)
}

func (in *Interp) runFunc(c *cfunc, args []Value, env []Value, initTop bool) Value {
	if len(c.blocks) == 0 {
		panic(unsupported{"no body: " + c.name})
	}
	if in.initMode == 0 {
		in.fnUsed[c.fn] = true
	}
	in.depth++
	if in.depth > in.maxDepth {
		if in.initMode > 0 {
			panic(unsupported{"init depth"})
		}
		in.p.limit(in, "call depth")
	}
	fr := &frame{f: c, regs: make([]Value, c.nregs), caller: in.curFrame, initTop: initTop}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], env)
	in.curFrame = fr
	depth := in.depth
	in.exec(fr, c.blocks[0])
	in.curFrame = fr.caller
	in.depth = depth - 1
	return fr.result
}

// exec runs fr from block b to completion, handling target panics and defers.
func (in *Interp) exec(fr *frame, b *cblock) {
	depth := in.depth
	for b != nil {
		tp := in.execProtected(fr, b)
		if tp == nil {
			return
		}
		// target panic: run defers
		in.depth = depth
		in.curFrame = fr
		fr.panicking = true
		fr.panicv = tp
		fr.recovered = false
		in.runDefers(fr)
		if fr.recovered {
			fr.panicking = false
			if fr.f.fn.Recover != nil {
				b = fr.f.blocks[fr.f.fn.Recover.Index]
				continue
			}
			fr.result = in.zeroResults(fr.f.fn)
			return
		}
		panic(*fr.panicv)
	}
}

func (in *Interp) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(rs.At(0).Type())
	}
	return in.zero(rs)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := in.depth
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						in.depth = depth
						in.curFrame = fr
						fr.panicking = true
						fr.recovered = false
						fr.panicv = &tp
						return
					}
					panic(r)
				}
			}()
			d()
		}()
	}
	if fr.panicking && !fr.recovered {
		return
	}
}

func (in *Interp) execProtected(fr *frame, b *cblock) (tp *targetPanic) {
	if fr.f.fn.Recover == nil && !hasDefer(fr.f) && !fr.initTop {
		in.execBlocks(fr, b)
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(targetPanic); ok {
				tp = &x
				return
			}
			panic(r)
		}
	}()
	in.execBlocks(fr, b)
	return nil
}

func hasDefer(c *cfunc) bool {
	return c.fn.Recover != nil
}

func (in *Interp) execBlocks(fr *frame, cb *cblock) {
	var prev *ssa.BasicBlock
	regs := fr.regs
	for {
		if len(cb.phis) > 0 {
			pi := 0
			for i, p := range cb.b.Preds {
				if p == prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				regs[cb.phis[0].dst] = in.get(fr, &cb.phis[0].ops[pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = in.get(fr, &cb.phis[i].ops[pi])
				}
				for i := range cb.phis {
					regs[cb.phis[i].dst] = tmp[i]
				}
			}
		}
		var next int = -1
	instrs:
		for i := range cb.instrs {
			ci := &cb.instrs[i]
			in.steps++
			if in.steps > in.maxSteps {
				if in.initMode > 0 {
					panic(unsupported{"init steps"})
				}
				in.p.limit(in, "steps")
			}
			switch x := ci.in.(type) {
			case *ssa.Jump:
				next = 0
				break instrs
			case *ssa.If:
				c := in.get(fr, &ci.ops[0])
				t, ok := c.(*Term)
				if !ok {
					panic(unsupported{fmt.Sprintf("branch on %v", c)})
				}
				if in.branch(t) {
					next = 0
				} else {
					next = 1
				}
				break instrs
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = in.get(fr, &ci.ops[0])
				default:
					tu := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						tu[k] = in.get(fr, &ci.ops[k])
					}
					fr.result = tu
				}
				return
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking && !fr.recovered {
					panic(*fr.panicv)
				}
			case *ssa.Panic:
				v := in.get(fr, &ci.ops[0]).(Iface)
				panic(targetPanic{v: v, pos: in.pos(x.Pos())})
			default:
				if fr.initTop {
					in.stepInit(fr, ci)
				} else {
					in.step(fr, ci)
				}
			}
		}
		if next < 0 {
			panic(unsupported{"fell off block"})
		}
		prev = cb.b
		cb = fr.f.blocks[cb.b.Succs[next].Index]
	}
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	return in.prog.SSA.Fset.Position(p).String()
}

// stepInit executes one instruction of a package initialiser; whatever cannot
// be executed becomes poison, which stays confined to the variables it feeds.
func (in *Interp) stepInit(fr *frame, ci *cinstr) {
	defer func() {
		if r := recover(); r != nil {
			var why string
			switch x := r.(type) {
			case unsupported:
				why = x.msg
			case targetPanic:
				why = "panic in init"
			default:
				panic(r)
			}
			debugf("init %s: poison: %s (%s)", fr.f.name, why, ci.in)
			in.curFrame = fr
			in.depth = 1
			if ci.dst >= 0 {
				v := ci.in.(ssa.Value)
				if tp, ok := v.Type().(*types.Tuple); ok {
					tu := make(Tuple, tp.Len())
					for i := range tu {
						tu[i] = Poison{why}
					}
					fr.regs[ci.dst] = tu
				} else {
					fr.regs[ci.dst] = Poison{why}
				}
			}
		}
	}()
	if call, ok := ci.in.(*ssa.Call); ok {
		if f := call.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != fr.f.fn.Pkg && f.Signature.Recv() == nil {
			return // imported package's init: lazily run
		}
	}
	in.step(fr, ci)
}

// ---- memory

func (in *Interp) load(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		v := *x
		switch v.(type) {
		case Struct, Array:
			return copyVal(v)
		case Poison:
			panic(unsupported{"poisoned variable: " + v.(Poison).why})
		}
		return v
	case *SymPtr:
		return in.loadSym(x)
	case Poison:
		panic(unsupported{"poison pointer: " + x.why})
	}
	panic(unsupported{fmt.Sprintf("load from %T", p)})
}

func (in *Interp) loadSym(x *SymPtr) Value {
	var r *Term
	for i := len(x.cells) - 1; i >= 0; i-- {
		if uint64(i) < x.idx.lo || uint64(i) > x.idx.hi {
			continue
		}
		t, ok := x.cells[i].(*Term)
		if !ok {
			panic(unsupported{"symbolic load of non-scalar"})
		}
		if r == nil {
			r = t
		} else {
			r = in.b.Ite(in.b.Eq(x.idx, in.b.Const(x.idx.sort.W, uint64(i))), t, r)
		}
	}
	if r == nil {
		panic(unsupported{"empty symbolic load"})
	}
	return r
}

func (in *Interp) store(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		switch nv := v.(type) {
		case Struct:
			if old, ok := (*x).(Struct); ok && len(old) == len(nv) {
				for i := range nv {
					in.store(&old[i], nv[i])
				}
				return
			}
			in.set(x, copyVal(v))
			return
		case Array:
			if old, ok := (*x).(Array); ok && len(old) == len(nv) {
				for i := range nv {
					in.store(&old[i], nv[i])
				}
				return
			}
			in.set(x, copyVal(v))
			return
		}
		in.set(x, v)
		return
	case *SymPtr:
		t, ok := v.(*Term)
		if !ok {
			panic(unsupported{"symbolic store of non-scalar"})
		}
		for i := range x.cells {
			old := x.cells[i].(*Term)
			in.set(&x.cells[i], in.b.Ite(in.b.Eq(x.idx, in.b.Const(x.idx.sort.W, uint64(i))), t, old))
		}
		return
	case Poison:
		panic(unsupported{"poison pointer: " + x.why})
	}
	panic(unsupported{fmt.Sprintf("store to %T", p)})
}

func (in *Interp) rtErr(msg string) Iface {
	t := in.prog.rtErrType
	if t == nil {
		return Iface{t: types.Typ[types.String], v: "runtime error: " + msg}
	}
	return Iface{t: t, v: msg}
}

func (in *Interp) rtPanic(msg string) {
	pos := ""
	if in.curFrame != nil {
		pos = in.curFrame.f.name
	}
	panic(targetPanic{v: in.rtErr(msg), pos: pos})
}

// indexCell resolves an index into cells: a concrete cell pointer when the
// index is (or can cheaply be made) concrete, else a symbolic pointer.
func (in *Interp) indexCell(cells []Value, idx *Term, signed bool) Value {
	i64 := in.idx64(idx, signed)
	n := len(cells)
	if i64.isConst() {
		i := int64(i64.val)
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return &cells[i]
	}
	if !in.branch(in.b.Ult(i64, in.b.Const(64, uint64(n)))) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	scalar := true
	for _, c := range cells {
		if _, ok := c.(*Term); !ok {
			scalar = false
			break
		}
	}
	if scalar && n <= 1024 {
		return &SymPtr{cells, i64}
	}
	v := in.concretize(i64)
	return &cells[v]
}

func (in *Interp) idx64(idx *Term, signed bool) *Term {
	if idx.sort.W == 64 {
		return idx
	}
	if signed {
		return in.b.Sext(idx, 64)
	}
	return in.b.Zext(idx, 64)
}

// concInt forces a term to a concrete int (forking over its values).
func (in *Interp) concInt(v Value, signed bool) int {
	t := in.idx64(v.(*Term), signed)
	if t.isConst() {
		return int(int64(t.val))
	}
	return int(int64(in.concretize(t)))
}
