package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value any

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
)

type SymStr struct{ b []*Term }

type Iface struct {
	t types.Type // nil = nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	host func(in *Interp, args []Value) Value
	bi   *ssa.Builtin
}

// SymPtr points at cells[idx] for a symbolic in-range idx.
type SymPtr struct {
	cells []Value
	idx   *Term
}

// DataPtr is the result of unsafe.SliceData/StringData.
type DataPtr struct {
	s   []Value
	str Value
}

type Host struct {
	kind string
	v    any
}

type Poison struct{ why string }

type mapEntry struct {
	k, v Value
	dead bool
}

type MapV struct {
	ents []*mapEntry
	idx  map[any]*mapEntry // concrete keys
	nsym int               // live entries whose key is symbolic
	n    int
}

func NewMap() *MapV { return &MapV{idx: map[any]*mapEntry{}} }

// keyOf gives a comparable Go key for a fully concrete value.
func keyOf(v Value) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OConst {
			return [2]uint64{uint64(x.sort.W), x.val}, true
		}
		return nil, false
	case string:
		return x, true
	case *SymStr:
		return nil, false
	case *Value, *MapV, *Host, *Closure:
		return x, true
	case Iface:
		if x.t == nil {
			return "<nil iface>", true
		}
		k, ok := keyOf(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{typeKey(x.t), k}, true
	case Struct:
		return aggKey([]Value(x))
	case Array:
		return aggKey([]Value(x))
	case nil:
		return nil, true
	}
	return nil, false
}

type aggK struct {
	h any
	t any
}

func aggKey(xs []Value) (any, bool) {
	var k any = "agg"
	for _, x := range xs {
		kk, ok := keyOf(x)
		if !ok {
			return nil, false
		}
		k = aggK{k, kk}
	}
	return k, true
}

var typeKeys = newTypeTable()

func typeKey(t types.Type) string { return typeKeys.key(t) }

// ---- strings

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(unsupported{fmt.Sprintf("strLen of %T", v)})
}

func (in *Interp) strByte(v Value, i int) *Term {
	switch x := v.(type) {
	case string:
		return in.b.Const(8, uint64(x[i]))
	case *SymStr:
		return x.b[i]
	}
	panic(unsupported{fmt.Sprintf("strByte of %T", v)})
}

func (in *Interp) mkStr(b []*Term) Value {
	conc := true
	for _, t := range b {
		if t.op != OConst {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		for _, t := range b {
			sb.WriteByte(byte(t.val))
		}
		return sb.String()
	}
	return &SymStr{b}
}

func (in *Interp) strBytes(v Value) []*Term {
	switch x := v.(type) {
	case string:
		r := make([]*Term, len(x))
		for i := range r {
			r[i] = in.b.Const(8, uint64(x[i]))
		}
		return r
	case *SymStr:
		return x.b
	}
	panic(unsupported{fmt.Sprintf("strBytes of %T", v)})
}

func (in *Interp) strSlice(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return in.mkStr(x.b[lo:hi:hi])
	}
	panic(unsupported{"strSlice"})
}

func (in *Interp) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ab, bb := in.strBytes(a), in.strBytes(b)
	r := make([]*Term, 0, len(ab)+len(bb))
	r = append(append(r, ab...), bb...)
	return in.mkStr(r)
}

func (in *Interp) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.b.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return in.b.F
	}
	n := strLen(a)
	r := in.b.T
	for i := n - 1; i >= 0; i-- {
		e := in.b.Eq(in.strByte(a, i), in.strByte(b, i))
		if e.isFalse() {
			return e
		}
		r = in.b.And(e, r)
	}
	return r
}

// strLess is the lexicographic a < b.
func (in *Interp) strLess(a, b Value, orEq bool) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.b.Bool(x < y || orEq && x == y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := in.b.Bool(la < lb || orEq && la == lb)
	for i := n - 1; i >= 0; i-- {
		x, y := in.strByte(a, i), in.strByte(b, i)
		r = in.b.Or(in.b.Ult(x, y), in.b.And(in.b.Eq(x, y), r))
	}
	return r
}

// ---- zero values

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsComplex != 0:
			return Poison{"complex"}
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		}
		s := sortOf(t)
		if s.FP {
			return in.b.FConst(s.W, 0)
		}
		if s.W == 0 {
			return in.b.F
		}
		return in.b.Const(s.W, 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<16 {
			return Poison{"huge array"}
		}
		a := make(Array, n)
		if n > 0 {
			z := in.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = in.zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		panic(unsupported{"type param zero"})
	}
	panic(unsupported{"zero of " + t.String()})
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

func sortOf(t types.Type) Sort {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"sortOf " + t.String()})
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return Sort{W: 0}
	case types.Int8, types.Uint8:
		return Sort{W: 8}
	case types.Int16, types.Uint16:
		return Sort{W: 16}
	case types.Int32, types.Uint32, types.UntypedRune:
		return Sort{W: 32}
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return Sort{W: 64}
	case types.Float32:
		return Sort{W: 32, FP: true}
	case types.Float64, types.UntypedFloat:
		return Sort{W: 64, FP: true}
	}
	panic(unsupported{"sortOf " + t.String()})
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- equality (as a term; forks are left to the caller)

func (in *Interp) eq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if x.sort.FP {
			return in.b.FCmp(OFEq, x, y)
		}
		return in.b.Eq(x, y)
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
			return in.strEq(a, b)
		}
	case *Value:
		switch y := b.(type) {
		case *Value:
			return in.b.Bool(x == y)
		case *Host, *SymPtr, DataPtr:
			return in.b.F
		}
	case *Host:
		if y, ok := b.(*Host); ok {
			return in.b.Bool(x == y)
		}
		return in.b.F
	case *MapV:
		y, _ := b.(*MapV)
		return in.b.Bool(x == y)
	case *ChanV:
		y, _ := b.(*ChanV)
		return in.b.Bool(x == y)
	case []Value: // only against nil
		y, _ := b.([]Value)
		return in.b.Bool(x == nil && y == nil)
	case *Closure:
		y, _ := b.(*Closure)
		return in.b.Bool(x == y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return in.b.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return in.b.F
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			break
		}
		r := in.b.T
		for i := range x {
			r = in.b.And(r, in.eq(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		y, ok := b.(Array)
		if !ok {
			break
		}
		r := in.b.T
		for i := range x {
			r = in.b.And(r, in.eq(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case DataPtr:
		return in.b.F
	case *SymPtr:
		return in.b.F
	}
	panic(unsupported{fmt.Sprintf("eq %T %T", a, b)})
}
