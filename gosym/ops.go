package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) step(fr *frame, ci *cinstr) {
	regs := fr.regs
	switch x := ci.in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(deref(x.Type()))
		regs[ci.dst] = p
	case *ssa.BinOp:
		regs[ci.dst] = in.binop(x.Op, in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		regs[ci.dst] = in.unop(fr, x, in.get(fr, &ci.ops[0]))
	case *ssa.Call:
		regs[ci.dst] = in.call(fr, ci, x.Common())
	case *ssa.Defer:
		c, args := in.prepareCall(fr, ci, x.Common())
		cc := x.Common()
		fr.defers = append(fr.defers, func() {
			if c.bi != nil {
				in.builtinIn(fr, c.bi, cc, args)
				return
			}
			// recover() inside the deferred function refers to this frame
			in.callDeferred(fr, c, args)
		})
	case *ssa.Go:
		panic(unsupported{"go statement"})
	case *ssa.ChangeInterface:
		regs[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.ChangeType:
		regs[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.Convert:
		regs[ci.dst] = in.convert(in.get(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		regs[ci.dst] = in.convert(in.get(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.Extract:
		v := in.get(fr, &ci.ops[0])
		tu, ok := v.(Tuple)
		if !ok {
			panic(unsupported{fmt.Sprintf("extract from %T", v)})
		}
		regs[ci.dst] = tu[x.Index]
	case *ssa.Field:
		v := in.get(fr, &ci.ops[0])
		s, ok := v.(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of %T", v)})
		}
		regs[ci.dst] = s[x.Field]
	case *ssa.FieldAddr:
		p, ok := in.get(fr, &ci.ops[0]).(*Value)
		if !ok {
			panic(unsupported{fmt.Sprintf("fieldaddr of %T in %s", in.get(fr, &ci.ops[0]), fr.f.name)})
		}
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("fieldaddr: cell holds %T (%s)", *p, fr.f.name)})
		}
		regs[ci.dst] = &s[x.Field]
	case *ssa.Index:
		v := in.get(fr, &ci.ops[0])
		idx := in.get(fr, &ci.ops[1]).(*Term)
		switch a := v.(type) {
		case Array:
			regs[ci.dst] = copyVal(in.load(in.indexCell(a, idx, isSigned(x.Index.Type()))))
		case string, *SymStr:
			regs[ci.dst] = in.strIndex(a, idx, isSigned(x.Index.Type()))
		default:
			panic(unsupported{fmt.Sprintf("index of %T", v)})
		}
	case *ssa.IndexAddr:
		v := in.get(fr, &ci.ops[0])
		idx := in.get(fr, &ci.ops[1]).(*Term)
		var cells []Value
		switch a := v.(type) {
		case []Value:
			cells = a
		case *Value:
			if a == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			arr, ok := (*a).(Array)
			if !ok {
				panic(unsupported{fmt.Sprintf("indexaddr: cell holds %T", *a)})
			}
			cells = arr
		default:
			panic(unsupported{fmt.Sprintf("indexaddr of %T", v)})
		}
		regs[ci.dst] = in.indexCell(cells, idx, isSigned(x.Index.Type()))
	case *ssa.Lookup:
		m := in.get(fr, &ci.ops[0])
		k := in.get(fr, &ci.ops[1])
		switch mm := m.(type) {
		case string, *SymStr:
			regs[ci.dst] = in.strIndex(mm, k.(*Term), isSigned(x.Index.Type()))
		case *MapV:
			e := in.mapFind(mm, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = in.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				regs[ci.dst] = Tuple{v, in.b.Bool(e != nil)}
			} else {
				regs[ci.dst] = v
			}
		default:
			panic(unsupported{fmt.Sprintf("lookup in %T", m)})
		}
	case *ssa.MapUpdate:
		m, ok := in.get(fr, &ci.ops[0]).(*MapV)
		if !ok {
			panic(unsupported{"mapupdate of non-map"})
		}
		in.mapSet(m, in.get(fr, &ci.ops[1]), copyVal(in.get(fr, &ci.ops[2])))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i := range env {
			env[i] = in.get(fr, &ci.ops[i+1])
		}
		regs[ci.dst] = &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.MakeInterface:
		v := in.get(fr, &ci.ops[0])
		if _, ok := v.(Poison); ok {
			regs[ci.dst] = v
			return
		}
		regs[ci.dst] = Iface{t: x.X.Type(), v: copyVal(v)}
	case *ssa.MakeMap:
		regs[ci.dst] = NewMap()
	case *ssa.MakeChan:
		n := in.concInt(in.get(fr, &ci.ops[0]), true)
		regs[ci.dst] = &ChanV{cap: n}
	case *ssa.MakeSlice:
		n := in.concInt(in.get(fr, &ci.ops[0]), isSigned(x.Len.Type()))
		c := in.concInt(in.get(fr, &ci.ops[1]), isSigned(x.Cap.Type()))
		if n < 0 || c < n {
			in.rtPanic("makeslice: len out of range")
		}
		if c > 1<<20 {
			panic(unsupported{"huge makeslice"})
		}
		s := make([]Value, c)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if c > 0 {
			z := in.zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
		}
		regs[ci.dst] = s[:n:c]
	case *ssa.Range:
		regs[ci.dst] = in.mkIter(in.get(fr, &ci.ops[0]))
	case *ssa.Next:
		regs[ci.dst] = in.get(fr, &ci.ops[0]).(*iter).next(in)
	case *ssa.Slice:
		regs[ci.dst] = in.slice(fr, ci, x)
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &ci.ops[0]).([]Value)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			in.rtPanic("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = Array(s[:n:n])
		regs[ci.dst] = p
	case *ssa.Store:
		in.store(in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]))
	case *ssa.TypeAssert:
		regs[ci.dst] = in.typeAssert(x, in.get(fr, &ci.ops[0]))
	case *ssa.Send:
		ch := in.get(fr, &ci.ops[0]).(*ChanV)
		if ch == nil || len(ch.buf) >= ch.cap {
			panic(unsupported{"blocking send"})
		}
		old := ch.buf
		in.onUndo(func() { ch.buf = old })
		ch.buf = append(append([]Value(nil), ch.buf...), in.get(fr, &ci.ops[1]))
	case *ssa.Select:
		panic(unsupported{"select"})
	default:
		panic(unsupported{fmt.Sprintf("instr %T", ci.in)})
	}
}

func (in *Interp) strIndex(s Value, idx *Term, signed bool) Value {
	n := strLen(s)
	i64 := in.idx64(idx, signed)
	if i64.isConst() {
		i := int64(i64.val)
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return in.strByte(s, int(i))
	}
	if !in.branch(in.b.Ult(i64, in.b.Const(64, uint64(n)))) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	bs := in.strBytes(s)
	cells := make([]Value, n)
	for i := range cells {
		cells[i] = bs[i]
	}
	return in.loadSym(&SymPtr{cells, i64})
}

func (in *Interp) callDeferred(fr *frame, c *Closure, args []Value) {
	save := in.curFrame
	in.curFrame = fr
	if c == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.Call(c, args)
	in.curFrame = save
}

func (in *Interp) prepareCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) (*Closure, []Value) {
	args := make([]Value, 0, len(ci.ops))
	if cc.IsInvoke() {
		rv, ok := in.get(fr, &ci.ops[0]).(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", in.get(fr, &ci.ops[0]))})
		}
		if rv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.lookupMethod(rv, cc.Method)
		args = append(args, rv.v)
		for i := range ci.ops[1:] {
			args = append(args, in.get(fr, &ci.ops[i+1]))
		}
		return fn, args
	}
	cv := in.get(fr, &ci.ops[0])
	c, ok := cv.(*Closure)
	if !ok {
		panic(unsupported{fmt.Sprintf("call of %T %v", cv, cv)})
	}
	for i := range ci.ops[1:] {
		args = append(args, in.get(fr, &ci.ops[i+1]))
	}
	return c, args
}

func (in *Interp) lookupMethod(rv Iface, m *types.Func) *Closure {
	if h, ok := rv.v.(*Host); ok {
		if f := hostMethod(h, m.Name()); f != nil {
			return &Closure{host: func(in *Interp, args []Value) Value { return f(in, nil, args) }}
		}
	}
	fn := in.prog.method(rv.t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %s", m.Name(), rv.t)})
	}
	return &Closure{fn: fn}
}

// CallMethod invokes a method by name on an interface value.
func (in *Interp) CallMethod(rv Iface, name string, args ...Value) Value {
	if h, ok := rv.v.(*Host); ok {
		if f := hostMethod(h, name); f != nil {
			return f(in, nil, append([]Value{rv.v}, args...))
		}
	}
	fn := in.prog.method(rv.t, nil, name)
	if fn == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %s", name, rv.t)})
	}
	return in.callFn(fn, append([]Value{rv.v}, args...), nil)
}

func (in *Interp) call(fr *frame, ci *cinstr, cc *ssa.CallCommon) Value {
	c, args := in.prepareCall(fr, ci, cc)
	if c == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.bi != nil {
		return in.builtinIn(fr, c.bi, cc, args)
	}
	return in.Call(c, args)
}

func (in *Interp) builtinIn(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	if b.Name() == "recover" {
		// fr is the deferred function's frame; its caller is the panicking frame
		t := fr.caller
		if t != nil && t.panicking && !t.recovered {
			t.recovered = true
			return t.panicv.v
		}
		return Iface{}
	}
	return in.builtin(b, cc, args)
}

func (in *Interp) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return in.b.Const(64, uint64(strLen(x)))
		case []Value:
			return in.b.Const(64, uint64(len(x)))
		case *MapV:
			if x == nil {
				return in.b.Const(64, 0)
			}
			return in.b.Const(64, uint64(x.n))
		case Array:
			return in.b.Const(64, uint64(len(x)))
		case *Value:
			return in.b.Const(64, uint64(len((*x).(Array))))
		case *ChanV:
			return in.b.Const(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return in.b.Const(64, uint64(cap(x)))
		case Array:
			return in.b.Const(64, uint64(len(x)))
		case *Value:
			return in.b.Const(64, uint64(len((*x).(Array))))
		case *ChanV:
			return in.b.Const(64, uint64(x.cap))
		}
	case "append":
		var s []Value
		switch x := args[0].(type) {
		case []Value:
			s = x
		default:
			panic(unsupported{fmt.Sprintf("append to %T", args[0])})
		}
		var add []Value
		if len(args) > 1 {
			switch y := args[1].(type) {
			case []Value:
				add = y
			case string, *SymStr:
				for _, t := range in.strBytes(y) {
					add = append(add, t)
				}
			default:
				panic(unsupported{fmt.Sprintf("append of %T", args[1])})
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			for i, v := range add {
				in.set(&r[n+i], copyVal(v))
			}
			return r
		}
		nc := growCap(cap(s), n+len(add))
		r := make([]Value, n+len(add), nc)
		copy(r, s)
		for i, v := range add {
			r[n+i] = copyVal(v)
		}
		if nc > n+len(add) {
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying()
			if st, ok := et.(*types.Slice); ok {
				z := in.zero(st.Elem())
				full := r[:nc]
				for i := n + len(add); i < nc; i++ {
					full[i] = copyVal(z)
				}
			}
		}
		return r
	case "copy":
		d := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case []Value:
			src = y
		case string, *SymStr:
			for _, t := range in.strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			in.store(&d[i], tmp[i])
		}
		return in.b.Const(64, uint64(n))
	case "delete":
		in.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range append([]*mapEntry(nil), x.ents...) {
					if !e.dead {
						in.mapDelete(x, e.k)
					}
				}
			}
		case []Value:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				in.store(&x[i], in.zero(et))
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := in.binop(op, a, r, t, t).(*Term)
			if rt, ok := r.(*Term); ok {
				r = in.b.Ite(c, a.(*Term), rt)
			} else if in.branch(c) {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0].(Iface)})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "close":
		return nil
	case "SliceData":
		return DataPtr{s: args[0].([]Value)}
	case "StringData":
		return DataPtr{str: args[0]}
	case "String":
		n := in.concInt(args[1], true)
		switch d := args[0].(type) {
		case DataPtr:
			if d.s != nil {
				return in.bytesToStr(d.s[:n])
			}
			if d.str != nil {
				return in.strSlice(d.str, 0, n)
			}
			return ""
		case *Value:
			if n == 0 {
				return ""
			}
		}
	case "Slice":
		n := in.concInt(args[1], true)
		switch d := args[0].(type) {
		case DataPtr:
			if d.str != nil {
				bs := in.strBytes(d.str)[:n]
				r := make([]Value, n)
				for i := range r {
					r[i] = bs[i]
				}
				return r
			}
			return d.s[:n]
		case *Value:
			if n == 0 {
				return []Value{}
			}
		}
	}
	panic(unsupported{"builtin " + b.Name()})
}

func growCap(old, need int) int {
	// mirrors the runtime's growth closely enough: any value >= need is a legal cap
	c := old
	if c == 0 {
		return need
	}
	for c < need {
		if c < 256 {
			c *= 2
		} else {
			c += (c + 768) / 4
		}
	}
	return c
}

func (in *Interp) bytesToStr(s []Value) Value {
	b := make([]*Term, len(s))
	for i := range s {
		t, ok := s[i].(*Term)
		if !ok {
			panic(unsupported{"bytesToStr"})
		}
		b[i] = t
	}
	return in.mkStr(b)
}

func (in *Interp) slice(fr *frame, ci *cinstr, x *ssa.Slice) Value {
	v := in.get(fr, &ci.ops[0])
	bound := func(i int, sv ssa.Value, def int) int {
		if sv == nil {
			return def
		}
		return in.concInt(in.get(fr, &ci.ops[i]), isSigned(sv.Type()))
	}
	// operands order: X, Low, High, Max (absent ones are nil operands)
	if p, ok := v.(*Value); ok {
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		v = []Value((*p).(Array))
	}
	switch s := v.(type) {
	case string, *SymStr:
		n := strLen(s)
		lo := bound(1, x.Low, 0)
		hi := bound(2, x.High, n)
		if lo < 0 || hi > n || lo > hi {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return in.strSlice(s, lo, hi)
	case []Value:
		lo := bound(1, x.Low, 0)
		hi := bound(2, x.High, len(s))
		mx := bound(3, x.Max, cap(s))
		if lo < 0 || lo > hi || hi > mx || mx > cap(s) {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	}
	panic(unsupported{fmt.Sprintf("slice of %T", v)})
}

func (in *Interp) unop(fr *frame, x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		return in.load(v)
	case token.NOT:
		return in.b.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort.FP {
			return in.b.FNeg(t)
		}
		return in.b.Bin(OSub, in.b.Const(t.sort.W, 0), t)
	case token.XOR:
		return in.b.BNot(v.(*Term))
	case token.ARROW:
		ch := v.(*ChanV)
		if ch == nil || (len(ch.buf) == 0 && !ch.closed) {
			panic(unsupported{"blocking receive"})
		}
		var r Value
		ok := true
		if len(ch.buf) > 0 {
			old := ch.buf
			in.onUndo(func() { ch.buf = old })
			r = ch.buf[0]
			ch.buf = ch.buf[1:]
		} else {
			ok = false
			r = in.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			return Tuple{r, in.b.Bool(ok)}
		}
		return r
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (in *Interp) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	if p, ok := a.(Poison); ok {
		panic(unsupported{"poison operand " + p.why})
	}
	if p, ok := b.(Poison); ok {
		panic(unsupported{"poison operand " + p.why})
	}
	switch op {
	case token.EQL:
		return in.eqT(a, b, ta, tb)
	case token.NEQ:
		return in.b.Not(in.eqT(a, b, ta, tb))
	}
	switch a.(type) {
	case string, *SymStr:
		switch op {
		case token.ADD:
			return in.strConcat(a, b)
		case token.LSS:
			return in.strLess(a, b, false)
		case token.LEQ:
			return in.strLess(a, b, true)
		case token.GTR:
			return in.strLess(b, a, false)
		case token.GEQ:
			return in.strLess(b, a, true)
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %s %T %T", op, a, b)})
	}
	if x.sort.FP {
		switch op {
		case token.ADD:
			return in.b.FBin(OFAdd, x, y)
		case token.SUB:
			return in.b.FBin(OFSub, x, y)
		case token.MUL:
			return in.b.FBin(OFMul, x, y)
		case token.QUO:
			return in.b.FBin(OFDiv, x, y)
		case token.LSS:
			return in.b.FCmp(OFLt, x, y)
		case token.LEQ:
			return in.b.FCmp(OFLe, x, y)
		case token.GTR:
			return in.b.FCmp(OFLt, y, x)
		case token.GEQ:
			return in.b.FCmp(OFLe, y, x)
		}
		panic(unsupported{"fp op " + op.String()})
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return in.b.Bin(OAdd, x, y)
	case token.SUB:
		return in.b.Bin(OSub, x, y)
	case token.MUL:
		return in.b.Bin(OMul, x, y)
	case token.QUO, token.REM:
		if in.branch(in.b.Eq(y, in.b.Const(y.sort.W, 0))) {
			in.rtPanic("integer divide by zero")
		}
		o := map[bool]map[token.Token]Op{true: {token.QUO: OSdiv, token.REM: OSrem}, false: {token.QUO: OUdiv, token.REM: OUrem}}[sg][op]
		return in.b.Bin(o, x, y)
	case token.AND:
		return in.b.Bin(OBand, x, y)
	case token.OR:
		return in.b.Bin(OBor, x, y)
	case token.XOR:
		return in.b.Bin(OBxor, x, y)
	case token.AND_NOT:
		return in.b.Bin(OBand, x, in.b.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			if in.branch(in.b.Slt(y, in.b.Const(y.sort.W, 0))) {
				in.rtPanic("negative shift amount")
			}
		}
		w := x.sort.W
		sh := y
		// saturate the shift amount into width w
		if y.sort.W > w {
			big := in.b.Ule(in.b.Const(y.sort.W, uint64(w)), y)
			sh = in.b.Ite(big, in.b.Const(w, uint64(w)), in.b.Extract(y, w-1, 0))
		} else if y.sort.W < w {
			sh = in.b.Zext(y, w)
		}
		if op == token.SHL {
			return in.b.Bin(OShl, x, sh)
		}
		if sg {
			return in.b.Bin(OAshr, x, sh)
		}
		return in.b.Bin(OLshr, x, sh)
	case token.LSS:
		if sg {
			return in.b.Slt(x, y)
		}
		return in.b.Ult(x, y)
	case token.LEQ:
		if sg {
			return in.b.Sle(x, y)
		}
		return in.b.Ule(x, y)
	case token.GTR:
		if sg {
			return in.b.Slt(y, x)
		}
		return in.b.Ult(y, x)
	case token.GEQ:
		if sg {
			return in.b.Sle(y, x)
		}
		return in.b.Ule(y, x)
	}
	panic(unsupported{"binop " + op.String()})
}

func (in *Interp) eqT(a, b Value, ta, tb types.Type) *Term {
	ia, oka := a.(Iface)
	ib, okb := b.(Iface)
	if oka != okb { // comparison of interface with concrete
		if !oka {
			ia = Iface{t: ta, v: a}
		}
		if !okb {
			ib = Iface{t: tb, v: b}
		}
		return in.eq(ia, ib)
	}
	return in.eq(a, b)
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	if p, ok := v.(Poison); ok {
		return p
	}
	uf, ut := from.Underlying(), to.Underlying()
	switch t := ut.(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch f := uf.(type) {
			case *types.Slice:
				s := v.([]Value)
				eb, _ := f.Elem().Underlying().(*types.Basic)
				if eb != nil && eb.Kind() == types.Uint8 {
					return in.bytesToStr(s)
				}
				var out Value = ""
				for _, r := range s {
					out = in.strConcat(out, in.runeToStr(r.(*Term)))
				}
				return out
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				x := v.(*Term)
				if x.sort.W < 32 {
					if isSigned(from) {
						x = in.b.Sext(x, 32)
					} else {
						x = in.b.Zext(x, 32)
					}
				} else if x.sort.W > 32 {
					if !in.branch(in.b.Ule(x, in.b.Const(64, 0x10ffff))) {
						return "\uFFFD"
					}
					x = in.b.Extract(x, 31, 0)
				}
				return in.runeToStr(x)
			}
		}
		if t.Kind() == types.UnsafePointer {
			return v
		}
		x, ok := v.(*Term)
		if !ok {
			panic(unsupported{fmt.Sprintf("convert %T to %s", v, to)})
		}
		s := sortOf(to)
		switch {
		case x.sort.FP && s.FP:
			if x.sort == s {
				return x
			}
			return in.b.FConv(OFToF, x, s)
		case !x.sort.FP && s.FP:
			if isSigned(from) {
				return in.b.FConv(OSToF, x, s)
			}
			return in.b.FConv(OUToF, x, s)
		case x.sort.FP && !s.FP:
			if isSigned(to) {
				return in.b.FConv(OFToS, x, s)
			}
			return in.b.FConv(OFToU, x, s)
		}
		if s.W == x.sort.W {
			return x
		}
		if s.W < x.sort.W {
			return in.b.Extract(x, s.W-1, 0)
		}
		if isSigned(from) {
			return in.b.Sext(x, s.W)
		}
		return in.b.Zext(x, s.W)
	case *types.Slice:
		if isString(from) {
			eb := t.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				bs := in.strBytes(v)
				r := make([]Value, len(bs))
				for i := range r {
					r[i] = bs[i]
				}
				return r
			}
			r := []Value{}
			it := in.mkIter(v)
			for {
				tu := it.next(in).(Tuple)
				if tu[0].(*Term).isFalse() {
					break
				}
				r = append(r, tu[2])
			}
			return r
		}
		return v
	case *types.Pointer:
		return v
	}
	return v
}

func (in *Interp) runeToStr(r *Term) Value {
	if r.isConst() {
		return string(rune(int32(r.val)))
	}
	c := func(v uint64) *Term { return in.b.Const(32, v) }
	lo8 := func(t *Term) *Term { return in.b.Extract(t, 7, 0) }
	sh := func(n uint64) *Term { return in.b.Bin(OLshr, r, c(n)) }
	cont := func(t *Term) *Term {
		return lo8(in.b.Bin(OBor, c(0x80), in.b.Bin(OBand, t, c(0x3f))))
	}
	if in.branch(in.b.Ult(r, c(0x80))) {
		return in.mkStr([]*Term{lo8(r)})
	}
	if in.branch(in.b.Ult(r, c(0x800))) {
		return in.mkStr([]*Term{lo8(in.b.Bin(OBor, c(0xc0), sh(6))), cont(r)})
	}
	if in.branch(in.b.Or(in.b.Ult(c(0x10ffff), r), in.b.And(in.b.Ule(c(0xd800), r), in.b.Ule(r, c(0xdfff))))) {
		return "\uFFFD"
	}
	if in.branch(in.b.Ult(r, c(0x10000))) {
		return in.mkStr([]*Term{lo8(in.b.Bin(OBor, c(0xe0), sh(12))), cont(sh(6)), cont(r)})
	}
	return in.mkStr([]*Term{lo8(in.b.Bin(OBor, c(0xf0), sh(18))), cont(sh(12)), cont(sh(6)), cont(r)})
}

// decodeRune decodes the rune at position i (forking on validity and width).
func (in *Interp) decodeRune(s Value, i int) (*Term, int) {
	if cs, ok := s.(string); ok {
		r, w := utf8.DecodeRuneInString(cs[i:])
		return in.b.Const(32, uint64(uint32(r))), w
	}
	b0 := in.strByte(s, i)
	if in.branch(in.b.Ult(b0, in.b.Const(8, 0x80))) {
		return in.b.Zext(b0, 32), 1
	}
	for w := 2; w <= 4; w++ {
		valid, r := in.utf8At(s, i, w)
		if valid.isFalse() {
			continue
		}
		if in.branch(valid) {
			return r, w
		}
	}
	return in.b.Const(32, 0xFFFD), 1
}

// utf8At gives the condition that a valid w-byte sequence starts at i, and its rune.
func (in *Interp) utf8At(s Value, i, w int) (*Term, *Term) {
	b := in.b
	if i+w > strLen(s) {
		return b.F, b.Const(32, 0xFFFD)
	}
	B := func(k int) *Term { return in.strByte(s, i+k) }
	c8 := func(v uint64) *Term { return b.Const(8, v) }
	rng := func(t *Term, lo, hi uint64) *Term { return b.And(b.Ule(c8(lo), t), b.Ule(t, c8(hi))) }
	z := func(k int, m uint64) *Term { return b.Bin(OBand, b.Zext(B(k), 32), b.Const(32, m)) }
	shl := func(t *Term, n uint64) *Term { return b.Bin(OShl, t, b.Const(32, n)) }
	or := func(x, y *Term) *Term { return b.Bin(OBor, x, y) }
	switch w {
	case 1:
		return b.Ult(B(0), c8(0x80)), b.Zext(B(0), 32)
	case 2:
		return b.And(rng(B(0), 0xC2, 0xDF), rng(B(1), 0x80, 0xBF)), or(shl(z(0, 0x1f), 6), z(1, 0x3f))
	case 3:
		v := b.And(rng(B(0), 0xE0, 0xEF), b.And(rng(B(1), 0x80, 0xBF), rng(B(2), 0x80, 0xBF)))
		v = b.And(v, b.Or(b.Not(b.Eq(B(0), c8(0xE0))), b.Ule(c8(0xA0), B(1))))
		v = b.And(v, b.Or(b.Not(b.Eq(B(0), c8(0xED))), b.Ule(B(1), c8(0x9F))))
		return v, or(or(shl(z(0, 0xf), 12), shl(z(1, 0x3f), 6)), z(2, 0x3f))
	case 4:
		v := b.And(rng(B(0), 0xF0, 0xF4), b.And(rng(B(1), 0x80, 0xBF), b.And(rng(B(2), 0x80, 0xBF), rng(B(3), 0x80, 0xBF))))
		v = b.And(v, b.Or(b.Not(b.Eq(B(0), c8(0xF0))), b.Ule(c8(0x90), B(1))))
		v = b.And(v, b.Or(b.Not(b.Eq(B(0), c8(0xF4))), b.Ule(B(1), c8(0x8F))))
		return v, or(or(shl(z(0, 7), 18), shl(z(1, 0x3f), 12)), or(shl(z(2, 0x3f), 6), z(3, 0x3f)))
	}
	return b.F, b.Const(32, 0xFFFD)
}

// ---- maps

func (in *Interp) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if ik, ok := k.(Iface); ok && ik.t != nil && !types.Comparable(ik.t) {
		in.rtPanic("hash of unhashable type " + ik.t.String())
	}
	kk, conc := keyOf(k)
	if conc {
		if e, ok := m.idx[kk]; ok && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := keyOf(e.k); c2 {
				continue // both concrete and not equal
			}
		}
		if in.branch(in.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *MapV, k, v Value) {
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	if e := in.mapFind(m, k); e != nil {
		old := e.v
		in.onUndo(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	kk, conc := keyOf(k)
	oldEnts := m.ents
	var oldIdx *mapEntry
	var hadIdx bool
	if conc {
		oldIdx, hadIdx = m.idx[kk]
		m.idx[kk] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents[:len(m.ents):len(m.ents)], e)
	if in.initMode > 0 {
		// amortised growth for big initialisers
		m.ents = append(oldEnts, e)
	}
	m.n++
	in.onUndo(func() {
		m.n--
		m.ents = oldEnts
		if conc {
			if hadIdx {
				m.idx[kk] = oldIdx
			} else {
				delete(m.idx, kk)
			}
		} else {
			m.nsym--
		}
	})
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	kk, conc := keyOf(e.k)
	e.dead = true
	m.n--
	oldEnts := m.ents
	var ne []*mapEntry
	for _, x := range m.ents {
		if x != e {
			ne = append(ne, x)
		}
	}
	m.ents = ne
	if conc {
		delete(m.idx, kk)
	} else {
		m.nsym--
	}
	in.onUndo(func() {
		e.dead = false
		m.n++
		m.ents = oldEnts
		if conc {
			m.idx[kk] = e
		} else {
			m.nsym++
		}
	})
}

type iter struct {
	str  Value
	pos  int
	m    *MapV
	ents []*mapEntry
}

func (in *Interp) mkIter(v Value) *iter {
	switch x := v.(type) {
	case string, *SymStr:
		return &iter{str: x}
	case *MapV:
		it := &iter{m: x}
		if x != nil {
			it.ents = in.mapOrder(x.ents)
		}
		return it
	}
	panic(unsupported{fmt.Sprintf("range over %T", v)})
}

// mapOrder picks the iteration order of a map: nondeterministic, within the
// budget set by the harness (0: insertion order; 1: insertion or reverse;
// n>=2: any permutation for maps up to n entries, else insertion or reverse).
func (in *Interp) mapOrder(ents []*mapEntry) []*mapEntry {
	out := append([]*mapEntry(nil), ents...)
	if in.initMode > 0 || len(out) < 2 || in.p == nil || in.p.mapOrder == 0 || in.p.mapForks >= in.p.mapForkMax {
		return out
	}
	in.p.mapForks++
	in.p.sawMapFork = true
	if len(out) <= in.p.mapOrder {
		for i := 0; i < len(out)-1; i++ {
			j := i + in.choice(len(out)-i, "maporder")
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	if in.choice(2, "maporder") == 1 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (it *iter) next(in *Interp) Value {
	if it.str != nil {
		if it.pos >= strLen(it.str) {
			return Tuple{in.b.F, in.b.Const(64, 0), in.b.Const(32, 0)}
		}
		p := it.pos
		r, w := in.decodeRune(it.str, p)
		it.pos += w
		return Tuple{in.b.T, in.b.Const(64, uint64(p)), r}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{in.b.T, copyVal(e.k), copyVal(e.v)}
	}
	return Tuple{in.b.F, nil, nil}
}

// ---- type assertions

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	iv, ok := v.(Iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("typeassert on %T", v)})
	}
	var okv bool
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if iv.t != nil && in.prog.implements(iv, it) {
			okv = true
			res = iv
		} else {
			res = Iface{}
		}
	} else {
		if iv.t != nil && types.Identical(iv.t, x.AssertedType) {
			okv = true
			res = copyVal(iv.v)
		} else {
			res = in.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, in.b.Bool(okv)}
	}
	if !okv {
		in.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %s", iv.t, x.AssertedType))
	}
	return res
}
