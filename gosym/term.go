package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: a hash-consed DAG over Bool (w=0), bit-vectors (w=1..64) and IEEE
// floats (fp=true, w=32/64).  Every constructor simplifies, so that concrete
// execution never reaches the solver.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool, 2 args
	OOr
	OIte // cond, a, b (any sort)
	OEq  // any sort (bitwise for bv; for fp: IEEE equality is OFEq)
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = hi<<8|lo
	OConcat
	// floats
	OFFromBits // bv -> fp
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFToF // fp -> fp
	OSToF // signed bv -> fp
	OUToF // unsigned bv -> fp
	OFToS // fp -> signed bv (rtz)
	OFToU // fp -> unsigned bv
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN",
}

type Sort struct {
	W  uint8 // 0 = Bool
	FP bool
}

type Term struct {
	op     Op
	sort   Sort
	a      [3]*Term
	n      uint8
	val    uint64 // const value (fp: bits) / extract params
	name   string
	id     uint32
	lo, hi uint64 // unsigned range for bv
	vars   *varset
	gen    uint32 // solver generation in which this term is defined
}

type varset struct {
	bits []uint64
}

func (v *varset) has(i int) bool {
	if v == nil {
		return false
	}
	w := i >> 6
	return w < len(v.bits) && v.bits[w]>>(uint(i)&63)&1 == 1
}
func (v *varset) intersects(o *varset) bool {
	if v == nil || o == nil {
		return false
	}
	n := min(len(v.bits), len(o.bits))
	for i := 0; i < n; i++ {
		if v.bits[i]&o.bits[i] != 0 {
			return true
		}
	}
	return false
}
func unionVS(a, b *varset) *varset {
	if a == nil || a == b {
		return b
	}
	if b == nil {
		return a
	}
	if len(a.bits) < len(b.bits) {
		a, b = b, a
	}
	sub := true
	for i := range b.bits {
		if b.bits[i]&^a.bits[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := make([]uint64, len(a.bits))
	copy(r, a.bits)
	for i := range b.bits {
		r[i] |= b.bits[i]
	}
	return &varset{r}
}

type tkey struct {
	op      Op
	sort    Sort
	a, b, c uint32
	val     uint64
}

type Bank struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	varIdx map[string]int
	names  []string
	nextID uint32
	T, F   *Term
	small  [65][257]*Term
}

func NewBank() *Bank {
	b := &Bank{tab: map[tkey]*Term{}, vars: map[string]*Term{}, varIdx: map[string]int{}}
	b.F = b.mk(Term{op: OConst, val: 0})
	b.T = b.mk(Term{op: OConst, val: 1})
	return b
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (b *Bank) mk(t Term) *Term {
	k := tkey{op: t.op, sort: t.sort, val: t.val}
	if t.n > 0 {
		k.a = t.a[0].id
	}
	if t.n > 1 {
		k.b = t.a[1].id
	}
	if t.n > 2 {
		k.c = t.a[2].id
	}
	if r, ok := b.tab[k]; ok {
		return r
	}
	b.nextID++
	r := new(Term)
	*r = t
	r.id = b.nextID
	if t.op == OConst {
		r.lo, r.hi = t.val, t.val
	} else {
		for i := 0; i < int(t.n); i++ {
			r.vars = unionVS(r.vars, t.a[i].vars)
		}
		b.setRange(r)
	}
	b.tab[k] = r
	return r
}

func (b *Bank) setRange(t *Term) {
	if t.sort.FP || t.sort.W == 0 {
		t.lo, t.hi = 0, 1
		return
	}
	m := mask(t.sort.W)
	t.lo, t.hi = 0, m
	x, y := t.a[0], t.a[1]
	switch t.op {
	case OZext:
		t.lo, t.hi = x.lo, x.hi
	case OSext:
		if x.hi>>(x.sort.W-1) == 0 {
			t.lo, t.hi = x.lo, x.hi
		}
	case OIte:
		t.lo, t.hi = min(t.a[1].lo, t.a[2].lo), max(t.a[1].hi, t.a[2].hi)
	case OAdd:
		hi, c := bits.Add64(x.hi, y.hi, 0)
		if c == 0 && hi <= m {
			t.lo, t.hi = x.lo+y.lo, hi
		}
	case OSub:
		if x.lo >= y.hi {
			t.lo, t.hi = x.lo-y.hi, x.hi-y.lo
		}
	case OMul:
		h, l := bits.Mul64(x.hi, y.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = x.lo*y.lo, l
		}
	case OUdiv:
		if y.lo > 0 {
			t.lo, t.hi = x.lo/y.hi, x.hi/y.lo
		}
	case OUrem:
		if y.lo > 0 {
			t.hi = min(x.hi, y.hi-1)
		}
	case OBand:
		t.hi = min(x.hi, y.hi)
	case OBor, OBxor:
		n := bits.Len64(x.hi | y.hi)
		if n < 64 {
			t.hi = min(m, (uint64(1)<<n)-1)
		}
	case OLshr:
		if y.op == OConst && y.val < 64 {
			t.lo, t.hi = x.lo>>y.val, x.hi>>y.val
		} else {
			t.hi = x.hi
		}
	case OShl:
		if y.op == OConst && y.val < 64 && x.hi <= m>>y.val {
			t.lo, t.hi = x.lo<<y.val, x.hi<<y.val
		}
	case OExtract:
		if t.val&0xff == 0 && x.hi <= m {
			t.lo, t.hi = x.lo, x.hi
		}
	case OConcat:
		t.hi = x.hi<<y.sort.W | mask(y.sort.W)
		t.lo = x.lo << y.sort.W
	}
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort.W == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort.W == 0 && t.val == 0 }

func (b *Bank) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 256 {
		if t := b.small[w][v]; t != nil {
			return t
		}
		t := b.mk(Term{op: OConst, sort: Sort{W: w}, val: v})
		b.small[w][v] = t
		return t
	}
	return b.mk(Term{op: OConst, sort: Sort{W: w}, val: v})
}
func (b *Bank) FConst(w uint8, bitsv uint64) *Term {
	return b.mk(Term{op: OConst, sort: Sort{W: w, FP: true}, val: bitsv})
}
func (b *Bank) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}

// Var returns the (unique) variable of that name.
func (b *Bank) Var(name string, w uint8) *Term {
	k := fmt.Sprintf("%s#%d", name, w)
	if t, ok := b.vars[k]; ok {
		return t
	}
	b.nextID++
	t := &Term{op: OVar, sort: Sort{W: w}, name: name, id: b.nextID}
	idx := len(b.names)
	b.names = append(b.names, name)
	b.varIdx[name] = idx
	bs := make([]uint64, idx/64+1)
	bs[idx/64] = 1 << (uint(idx) & 63)
	t.vars = &varset{bs}
	t.lo, t.hi = 0, mask(w)
	if w == 0 {
		t.hi = 1
	}
	b.vars[k] = t
	return t
}

func (b *Bank) Not(x *Term) *Term {
	if x.isConst() {
		return b.Bool(x.val == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	switch x.op {
	case OUlt:
		return b.Ule(x.a[1], x.a[0])
	case OUle:
		return b.Ult(x.a[1], x.a[0])
	case OSlt:
		return b.Sle(x.a[1], x.a[0])
	case OSle:
		return b.Slt(x.a[1], x.a[0])
	}
	return b.mk(Term{op: ONot, a: [3]*Term{x}, n: 1})
}
func (b *Bank) And(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return b.F
	}
	if x.isTrue() || x == y {
		return y
	}
	if y.isTrue() {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return b.F
	}
	return b.mk(Term{op: OAnd, a: [3]*Term{x, y}, n: 2})
}
func (b *Bank) Or(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return b.T
	}
	if x.isFalse() || x == y {
		return y
	}
	if y.isFalse() {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return b.T
	}
	return b.mk(Term{op: OOr, a: [3]*Term{x, y}, n: 2})
}
func (b *Bank) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.sort.W == 0 {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		return b.Ite(c.a[0], y, x)
	}
	return b.mk(Term{op: OIte, sort: x.sort, a: [3]*Term{c, x, y}, n: 3})
}

func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.sort.FP != y.sort.FP || x.sort.W != y.sort.W {
		panic(fmt.Sprintf("Eq sorts %v %v", x.sort, y.sort))
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val == y.val)
	}
	if x.sort.FP {
		if p, q, ok := b.decPair(x, y); ok {
			return b.Eq(p, q)
		}
	}
	if x.sort.W == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return b.Not(x)
		}
	} else if !x.sort.FP {
		if x.hi < y.lo || y.hi < x.lo {
			return b.F
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			switch x.op {
			case OZext:
				return b.Eq(x.a[0], b.Const(x.a[0].sort.W, y.val)) // in range by lo/hi check
			case OIte:
				if x.a[1].isConst() || x.a[2].isConst() {
					return b.Ite(x.a[0], b.Eq(x.a[1], y), b.Eq(x.a[2], y))
				}
			case OAdd:
				if x.a[1].isConst() {
					return b.Eq(x.a[0], b.Const(x.sort.W, y.val-x.a[1].val))
				}
			case OSub:
				if x.a[1].isConst() {
					return b.Eq(x.a[0], b.Const(x.sort.W, y.val+x.a[1].val))
				}
			case OConcat:
				lw := x.a[1].sort.W
				return b.And(b.Eq(x.a[0], b.Const(x.a[0].sort.W, y.val>>lw)), b.Eq(x.a[1], b.Const(lw, y.val)))
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(Term{op: OEq, a: [3]*Term{x, y}, n: 2})
}

func (b *Bank) Ult(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.hi < y.lo {
		return b.T
	}
	if x.lo >= y.hi {
		return b.F
	}
	if x.op == OZext && y.op == OZext && x.a[0].sort == y.a[0].sort {
		return b.Ult(x.a[0], y.a[0])
	}
	if x.op == OZext && y.isConst() && y.val <= mask(x.a[0].sort.W) {
		return b.Ult(x.a[0], b.Const(x.a[0].sort.W, y.val))
	}
	if y.op == OZext && x.isConst() && x.val <= mask(y.a[0].sort.W) {
		return b.Ult(b.Const(y.a[0].sort.W, x.val), y.a[0])
	}
	return b.mk(Term{op: OUlt, a: [3]*Term{x, y}, n: 2})
}
func (b *Bank) Ule(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.hi <= y.lo {
		return b.T
	}
	if x.lo > y.hi {
		return b.F
	}
	if x.op == OZext && y.op == OZext && x.a[0].sort == y.a[0].sort {
		return b.Ule(x.a[0], y.a[0])
	}
	if x.op == OZext && y.isConst() && y.val <= mask(x.a[0].sort.W) {
		return b.Ule(x.a[0], b.Const(x.a[0].sort.W, y.val))
	}
	if y.op == OZext && x.isConst() && x.val <= mask(y.a[0].sort.W) {
		return b.Ule(b.Const(y.a[0].sort.W, x.val), y.a[0])
	}
	return b.mk(Term{op: OUle, a: [3]*Term{x, y}, n: 2})
}

func nonneg(t *Term) bool { return t.hi>>(t.sort.W-1) == 0 }
func neg(t *Term) bool    { return t.lo>>(t.sort.W-1) == 1 }

func (b *Bank) Slt(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.isConst() && y.isConst() {
		return b.Bool(sx(x.val, x.sort.W) < sx(y.val, y.sort.W))
	}
	if nonneg(x) && nonneg(y) || neg(x) && neg(y) {
		return b.Ult(x, y)
	}
	if nonneg(x) && neg(y) {
		return b.F
	}
	if neg(x) && nonneg(y) {
		return b.T
	}
	if x.op == OSext && y.isConst() {
		w := x.a[0].sort.W
		if sx(y.val&mask(w), w) == sx(y.val, y.sort.W) {
			return b.Slt(x.a[0], b.Const(w, y.val))
		}
	}
	if y.op == OSext && x.isConst() {
		w := y.a[0].sort.W
		if sx(x.val&mask(w), w) == sx(x.val, x.sort.W) {
			return b.Slt(b.Const(w, x.val), y.a[0])
		}
	}
	return b.mk(Term{op: OSlt, a: [3]*Term{x, y}, n: 2})
}
func (b *Bank) Sle(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.isConst() && y.isConst() {
		return b.Bool(sx(x.val, x.sort.W) <= sx(y.val, y.sort.W))
	}
	if nonneg(x) && nonneg(y) || neg(x) && neg(y) {
		return b.Ule(x, y)
	}
	if nonneg(x) && neg(y) {
		return b.F
	}
	if neg(x) && nonneg(y) {
		return b.T
	}
	return b.mk(Term{op: OSle, a: [3]*Term{x, y}, n: 2})
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			if a >= 0 {
				return m, true
			}
			return 1, true
		}
		if c == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/c) & m, true
	case OSrem:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			return x, true
		}
		if c == -1 {
			return 0, true
		}
		return uint64(a%c) & m, true
	case OBand:
		return x & y, true
	case OBor:
		return x | y, true
	case OBxor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>min(y, 63)) & m, true
	}
	return 0, false
}

// narrowDiv divides at the width the operands need.
func (b *Bank) narrowDiv(op Op, x, y *Term) *Term {
	w := x.sort.W
	k := uint8(bits.Len64(x.hi | y.hi))
	if y.lo == 0 || k == 0 || k+8 > w {
		return nil
	}
	return b.Zext(b.Bin(op, b.Extract(x, k-1, 0), b.Extract(y, k-1, 0)), w)
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// mulOf recognises q*c that does not overflow.
func mulOf(x *Term) (*Term, uint64, bool) {
	switch x.op {
	case OMul:
		if c := x.a[1]; c.isConst() {
			h, l := bits.Mul64(x.a[0].hi, c.val)
			return x.a[0], c.val, h == 0 && l <= mask(x.sort.W)
		}
	case OShl:
		if c := x.a[1]; c.isConst() && c.val < uint64(x.sort.W) {
			return x.a[0], uint64(1) << c.val, x.a[0].hi <= mask(x.sort.W)>>c.val
		}
	case OConst:
		if x.val > 1 {
			return nil, x.val, false
		}
	}
	return nil, 0, false
}

// divMul simplifies division of multiples of a constant.
func (b *Bank) divMul(op Op, x *Term, c uint64) *Term {
	w := x.sort.W
	if q, k, ok := mulOf(x); ok {
		if g := gcd(k, c); g > 1 {
			in := b.Bin(op, b.Bin(OMul, q, b.Const(w, k/g)), b.Const(w, c/g))
			if op == OUrem {
				in = b.Bin(OMul, in, b.Const(w, g))
			}
			return in
		}
	}
	if x.op == OAdd {
		if h, cy := bits.Add64(x.a[0].hi, x.a[1].hi, 0); cy == 0 && h <= mask(w) {
			for i := 0; i < 2; i++ {
				m, r := x.a[i], x.a[1-i]
				k, ok := uint64(0), false
				if m.isConst() {
					k, ok = m.val, true
				} else {
					_, k, ok = mulOf(m)
				}
				if m.isConst() && k >= c && k%c != 0 {
					low := b.Bin(op, b.Bin(OAdd, r, b.Const(w, k%c)), b.Const(w, c))
					if op == OUdiv {
						low = b.Bin(OAdd, low, b.Const(w, k/c))
					}
					return low
				}
				if ok && k%c == 0 && k != 0 {
					in := b.Bin(op, r, b.Const(w, c))
					if op == OUdiv {
						in = b.Bin(OAdd, in, b.Bin(OUdiv, m, b.Const(w, c)))
					}
					return in
				}
			}
		}
	}
	return nil
}

func (b *Bank) Bin(op Op, x, y *Term) *Term {
	w := x.sort.W
	if y.sort.W != w {
		panic(fmt.Sprintf("Bin %s widths %d %d", opName[op], w, y.sort.W))
	}
	if x.isConst() && y.isConst() {
		v, _ := evalBin(op, w, x.val, y.val)
		return b.Const(w, v)
	}
	switch op {
	case OAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].isConst() {
				return b.Bin(OAdd, x.a[0], b.Const(w, x.a[1].val+y.val))
			}
		}
	case OSub:
		if x == y {
			return b.Const(w, 0)
		}
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if x.hi < y.val || x.lo < y.val { // may wrap: keep as add
				return b.Bin(OAdd, x, b.Const(w, -y.val))
			}
		}
		if x.op == OAdd && x.a[0] == y {
			return x.a[1]
		}
		if y.op == OMul && y.a[1].isConst() && !x.isConst() {
			c := y.a[1].val
			if x.op == OMul && x.a[1].isConst() && x.a[1].val == c { // a*c - b*c
				return b.Bin(OMul, b.Bin(OSub, x.a[0], y.a[0]), y.a[1])
			}
			d := y.a[0] // z*m - (z/k)*k*m
			if d.op == OZext {
				d = d.a[0]
			}
			if d.op == OUdiv && d.a[1].isConst() && d.a[1].val > 1 && c%d.a[1].val == 0 {
				k, z, m := b.Const(w, d.a[1].val), x, c/d.a[1].val
				if m > 1 && x.op == OMul && x.a[1].isConst() && x.a[1].val == m {
					z = x.a[0]
				} else if m > 1 {
					z = nil
				}
				if z != nil && b.Bin(OUdiv, z, k) == y.a[0] {
					return b.Bin(OMul, b.Bin(OUrem, z, k), b.Const(w, m))
				}
			}
		}
		r := y // x - x%c
		if r.op == OZext {
			r = r.a[0]
		}
		if r.op == OUrem && r.a[1].isConst() {
			if c := b.Const(w, r.a[1].val); b.Bin(OUrem, x, c) == y {
				return b.Bin(OMul, b.Bin(OUdiv, x, c), c)
			}
		}
		if x.op == OAdd && y.op == OAdd && x.a[0] == y.a[0] && x.a[1].isConst() && y.a[1].isConst() {
			return b.Const(w, x.a[1].val-y.a[1].val)
		}
		if x.op == OAdd && x.a[1].isConst() && !y.isConst() {
			return b.Bin(OAdd, b.Bin(OSub, x.a[0], y), x.a[1])
		}
	case OMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
			if x.op == OMul && x.a[1].isConst() {
				return b.Bin(OMul, x.a[0], b.Const(w, x.a[1].val*y.val))
			}
			if y.val&(y.val-1) == 0 {
				return b.Bin(OShl, x, b.Const(w, uint64(bits.TrailingZeros64(y.val))))
			}
		}
	case OUdiv:
		if y.isConst() && y.val == 1 {
			return x
		}
		if y.isConst() && y.val != 0 && x.hi < y.val {
			return b.Const(w, 0)
		}
		if y.isConst() && y.val != 0 && x.op == OUdiv && x.a[1].isConst() && x.a[1].val != 0 {
			if h, l := bits.Mul64(y.val, x.a[1].val); h == 0 && l <= mask(w) {
				return b.Bin(OUdiv, x.a[0], b.Const(w, l))
			}
		}
		if y.isConst() && y.val > 1 {
			if r := b.divMul(op, x, y.val); r != nil {
				return r
			}
		}
		if r := b.narrowDiv(op, x, y); r != nil {
			return r
		}
		if y.isConst() && y.val != 0 && y.val&(y.val-1) == 0 {
			return b.Bin(OLshr, x, b.Const(w, uint64(bits.TrailingZeros64(y.val))))
		}
	case OUrem:
		if y.isConst() && y.val != 0 {
			if x.hi < y.val {
				return x
			}
			if y.val&(y.val-1) == 0 {
				return b.Bin(OBand, x, b.Const(w, y.val-1))
			}
		}
		if y.isConst() && y.val > 1 {
			if r := b.divMul(op, x, y.val); r != nil {
				return r
			}
		}
		if r := b.narrowDiv(op, x, y); r != nil {
			return r
		}
	case OSdiv:
		if nonneg(x) && nonneg(y) && y.lo > 0 {
			return b.Bin(OUdiv, x, y)
		}
	case OSrem:
		if nonneg(x) && nonneg(y) && y.lo > 0 {
			return b.Bin(OUrem, x, y)
		}
	case OBand:
		if x.isConst() {
			x, y = y, x
		}
		if x == y {
			return x
		}
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == mask(w) {
				return x
			}
			if y.val&(y.val+1) == 0 && x.hi <= y.val {
				return x
			}
			// low mask of a constant-disjoint value
			if tz := bits.TrailingZeros64(y.val); x.hi < uint64(1)<<tz {
				return b.Const(w, 0)
			}
			if x.op == OBor && x.a[1].isConst() {
				return b.Bin(OBor, b.Bin(OBand, x.a[0], y), b.Const(w, x.a[1].val&y.val))
			}
			if x.op == OBand && x.a[1].isConst() {
				return b.Bin(OBand, x.a[0], b.Const(w, x.a[1].val&y.val))
			}
		}
	case OBor:
		if x.isConst() {
			x, y = y, x
		}
		if x == y {
			return x
		}
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if y.val == mask(w) {
				return y
			}
		}
	case OBxor:
		if x.isConst() {
			x, y = y, x
		}
		if x == y {
			return b.Const(w, 0)
		}
		if y.isConst() && y.val == 0 {
			return x
		}
	case OShl, OLshr, OAshr:
		if y.isConst() && y.val == 0 {
			return x
		}
		if x.isConst() && x.val == 0 {
			return x
		}
		if op == OLshr && y.isConst() && y.val < 64 && x.hi>>y.val == 0 {
			return b.Const(w, 0)
		}
		if op != OAshr && y.isConst() && y.val >= uint64(w) {
			return b.Const(w, 0)
		}
		if op == OAshr && nonneg(x) {
			return b.Bin(OLshr, x, y)
		}
		if op == OLshr && y.isConst() && x.op == OShl && x.a[1] == y && x.a[0].hi <= mask(w)>>y.val {
			return x.a[0]
		}
	}
	// distribute over ite with constants (keeps tables and choices cheap)
	if y.isConst() && x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
		return b.Ite(x.a[0], b.Bin(op, x.a[1], y), b.Bin(op, x.a[2], y))
	}
	return b.mk(Term{op: op, sort: Sort{W: w}, a: [3]*Term{x, y}, n: 2})
}

func (b *Bank) BNot(x *Term) *Term {
	if x.isConst() {
		return b.Const(x.sort.W, ^x.val)
	}
	return b.mk(Term{op: OBnot, sort: x.sort, a: [3]*Term{x}, n: 1})
}

func (b *Bank) Zext(x *Term, w uint8) *Term {
	if x.sort.W == w {
		return x
	}
	if x.isConst() {
		return b.Const(w, x.val)
	}
	if x.op == OZext {
		return b.Zext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
		return b.Ite(x.a[0], b.Zext(x.a[1], w), b.Zext(x.a[2], w))
	}
	return b.mk(Term{op: OZext, sort: Sort{W: w}, a: [3]*Term{x}, n: 1})
}
func (b *Bank) Sext(x *Term, w uint8) *Term {
	if x.sort.W == w {
		return x
	}
	if x.isConst() {
		return b.Const(w, uint64(sx(x.val, x.sort.W)))
	}
	if nonneg(x) {
		return b.Zext(x, w)
	}
	return b.mk(Term{op: OSext, sort: Sort{W: w}, a: [3]*Term{x}, n: 1})
}
func (b *Bank) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.sort.W {
		return x
	}
	if x.isConst() {
		return b.Const(w, x.val>>lo)
	}
	if x.op == OZext || x.op == OSext {
		in := x.a[0]
		if hi < in.sort.W {
			return b.Extract(in, hi, lo)
		}
		if x.op == OZext && lo == 0 {
			return b.Zext(in, w)
		}
		if x.op == OZext && lo >= in.sort.W {
			return b.Const(w, 0)
		}
		if x.op == OSext && lo == 0 {
			return b.Sext(in, w)
		}
	}
	if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
		return b.Ite(x.a[0], b.Extract(x.a[1], hi, lo), b.Extract(x.a[2], hi, lo))
	}
	if lo == 0 && (x.op == OAdd || x.op == OSub || x.op == OMul || x.op == OBand || x.op == OBor || x.op == OBxor) {
		return b.Bin(x.op, b.Extract(x.a[0], hi, 0), b.Extract(x.a[1], hi, 0))
	}
	if x.op == OExtract {
		l2 := uint8(x.val & 0xff)
		return b.Extract(x.a[0], hi+l2, lo+l2)
	}
	return b.mk(Term{op: OExtract, sort: Sort{W: w}, a: [3]*Term{x}, n: 1, val: uint64(hi)<<8 | uint64(lo)})
}
func (b *Bank) Concat(x, y *Term) *Term {
	w := x.sort.W + y.sort.W
	if x.isConst() && y.isConst() {
		return b.Const(w, x.val<<y.sort.W|y.val)
	}
	if x.isConst() && x.val == 0 {
		return b.Zext(y, w)
	}
	return b.mk(Term{op: OConcat, sort: Sort{W: w}, a: [3]*Term{x, y}, n: 2})
}

// ---- floats

func (b *Bank) FFromBits(x *Term) *Term {
	if x.isConst() {
		return b.FConst(x.sort.W, x.val)
	}
	return b.mk(Term{op: OFFromBits, sort: Sort{W: x.sort.W, FP: true}, a: [3]*Term{x}, n: 1})
}

func fval(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalF(op Op, w uint8, x, y uint64) uint64 {
	if w == 32 {
		p, q := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = p + q
		case OFSub:
			r = p - q
		case OFMul:
			r = p * q
		case OFDiv:
			r = p / q
		case OFNeg:
			r = -p
		}
		return uint64(math.Float32bits(r))
	}
	p, q := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = p + q
	case OFSub:
		r = p - q
	case OFMul:
		r = p * q
	case OFDiv:
		r = p / q
	case OFNeg:
		r = -p
	}
	return math.Float64bits(r)
}

func (b *Bank) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.FConst(x.sort.W, evalF(op, x.sort.W, x.val, y.val))
	}
	// exact integers
	if p, k, ok := b.decOf(x); ok && k == 0 {
		if q, l, ok := b.decOf(y); ok && l == 0 {
			var r *Term
			switch {
			case op == OFAdd && p.hi+q.hi < 1<<53:
				r = b.Bin(OAdd, p, q)
			case op == OFSub && p.lo >= q.hi:
				r = b.Bin(OSub, p, q)
			case op == OFMul:
				if h, l := bits.Mul64(p.hi, q.hi); h == 0 && l < 1<<53 {
					r = b.Bin(OMul, p, q)
				}
			}
			if r != nil {
				return b.FConv(OUToF, r, x.sort)
			}
		}
	}
	return b.mk(Term{op: op, sort: x.sort, a: [3]*Term{x, y}, n: 2})
}
func (b *Bank) FNeg(x *Term) *Term {
	if x.isConst() {
		return b.FConst(x.sort.W, evalF(OFNeg, x.sort.W, x.val, 0))
	}
	return b.mk(Term{op: OFNeg, sort: x.sort, a: [3]*Term{x}, n: 1})
}

// decOf recognises a non-negative decimal mant/10^scale of at most 15
// significant digits.  Distinct such decimals have distinct nearest doubles and
// rounding is monotone, so they compare as their exact values do.
func (b *Bank) decOf(t *Term) (*Term, int, bool) {
	if t.sort.W != 64 || !t.sort.FP {
		return nil, 0, false
	}
	if t.isConst() {
		f := math.Float64frombits(t.val)
		if f >= 0 && f < 1e15 && f == math.Trunc(f) && !math.Signbit(f) {
			return b.Const(64, uint64(f)), 0, true
		}
		return nil, 0, false
	}
	switch t.op {
	case OUToF:
		if m := t.a[0]; m.sort.W == 64 && m.hi < 1e15 {
			return m, 0, true
		}
	case OFDiv:
		if n, d := t.a[0], t.a[1]; n.op == OUToF && d.isConst() {
			if m := n.a[0]; m.sort.W == 64 && m.hi < 1e15 {
				for k, p := 1, 10.0; k <= 9; k, p = k+1, p*10 {
					if math.Float64bits(p) == d.val {
						return m, k, true
					}
				}
			}
		}
	}
	return nil, 0, false
}

func (b *Bank) decPair(x, y *Term) (*Term, *Term, bool) {
	p, k, ok := b.decOf(x)
	q, l, ok2 := b.decOf(y)
	if !ok || !ok2 {
		return nil, nil, false
	}
	for ; k < l; k++ {
		if p.hi >= 1e14 {
			return nil, nil, false
		}
		p = b.Bin(OMul, p, b.Const(64, 10))
	}
	for ; l < k; l++ {
		if q.hi >= 1e14 {
			return nil, nil, false
		}
		q = b.Bin(OMul, q, b.Const(64, 10))
	}
	return p, q, true
}

func (b *Bank) FCmp(op Op, x, y *Term) *Term {
	if p, q, ok := b.decPair(x, y); ok {
		switch op {
		case OFEq:
			return b.Eq(p, q)
		case OFLt:
			return b.Ult(p, q)
		case OFLe:
			return b.Ule(p, q)
		}
	}
	if x.isConst() && y.isConst() {
		p, q := fval(x.sort.W, x.val), fval(y.sort.W, y.val)
		switch op {
		case OFEq:
			return b.Bool(p == q)
		case OFLt:
			return b.Bool(p < q)
		case OFLe:
			return b.Bool(p <= q)
		}
	}
	return b.mk(Term{op: op, a: [3]*Term{x, y}, n: 2})
}
func (b *Bank) FConv(op Op, x *Term, to Sort) *Term {
	if x.isConst() {
		if v, ok := evalConv(op, x.sort, x.val, to); ok {
			if to.FP {
				return b.FConst(to.W, v)
			}
			return b.Const(to.W, v)
		}
	}
	if op == OSToF && nonneg(x) {
		op = OUToF
	}
	if op == OUToF && x.sort.W < 64 {
		x = b.Zext(x, 64)
	}
	if (op == OFToS || op == OFToU) && x.op == OUToF && x.sort.W == 64 && x.a[0].hi < 1<<53 {
		if to.W == 64 || x.a[0].hi < 1<<(to.W-1) {
			if v := x.a[0]; to.W == v.sort.W {
				return v
			} else if to.W < v.sort.W {
				return b.Extract(v, to.W-1, 0)
			}
		}
	}
	return b.mk(Term{op: op, sort: to, a: [3]*Term{x}, n: 1})
}

func evalConv(op Op, from Sort, v uint64, to Sort) (uint64, bool) {
	switch op {
	case OFToF:
		return fbits(to.W, fval(from.W, v)), true
	case OSToF:
		s := sx(v, from.W)
		if to.W == 32 {
			return uint64(math.Float32bits(float32(s))), true
		}
		return math.Float64bits(float64(s)), true
	case OUToF:
		if to.W == 32 {
			return uint64(math.Float32bits(float32(v))), true
		}
		return math.Float64bits(float64(v)), true
	case OFToS:
		return uint64(int64(fval(from.W, v))) & mask(to.W), true
	case OFToU:
		return uint64(fval(from.W, v)) & mask(to.W), true
	}
	return 0, false
}

// ---- evaluation under a model (missing vars are 0)

type Model map[string]uint64

type evalMemo map[*Term]uint64

func (m Model) Eval(t *Term, memo evalMemo) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t.name] & func() uint64 {
			if t.sort.W == 0 {
				return 1
			}
			return mask(t.sort.W)
		}()
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	bl := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	e := func(i int) uint64 { return m.Eval(t.a[i], memo) }
	switch t.op {
	case ONot:
		r = 1 - e(0)
	case OAnd:
		r = e(0)
		if r == 1 {
			r = e(1)
		}
	case OOr:
		r = e(0)
		if r == 0 {
			r = e(1)
		}
	case OIte:
		if e(0) == 1 {
			r = e(1)
		} else {
			r = e(2)
		}
	case OEq:
		r = bl(e(0) == e(1))
	case OUlt:
		r = bl(e(0) < e(1))
	case OUle:
		r = bl(e(0) <= e(1))
	case OSlt:
		r = bl(sx(e(0), t.a[0].sort.W) < sx(e(1), t.a[0].sort.W))
	case OSle:
		r = bl(sx(e(0), t.a[0].sort.W) <= sx(e(1), t.a[0].sort.W))
	case OBnot:
		r = ^e(0) & mask(t.sort.W)
	case OZext:
		r = e(0)
	case OSext:
		r = uint64(sx(e(0), t.a[0].sort.W)) & mask(t.sort.W)
	case OExtract:
		r = (e(0) >> (t.val & 0xff)) & mask(t.sort.W)
	case OConcat:
		r = e(0)<<t.a[1].sort.W | e(1)
	case OFFromBits:
		r = e(0)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = evalF(t.op, t.sort.W, e(0), e(1))
	case OFNeg:
		r = evalF(t.op, t.sort.W, e(0), 0)
	case OFEq:
		r = bl(fval(t.a[0].sort.W, e(0)) == fval(t.a[0].sort.W, e(1)))
	case OFLt:
		r = bl(fval(t.a[0].sort.W, e(0)) < fval(t.a[0].sort.W, e(1)))
	case OFLe:
		r = bl(fval(t.a[0].sort.W, e(0)) <= fval(t.a[0].sort.W, e(1)))
	case OFIsNaN:
		f := fval(t.a[0].sort.W, e(0))
		r = bl(f != f)
	case OFToF, OSToF, OUToF, OFToS, OFToU:
		r, _ = evalConv(t.op, t.a[0].sort, e(0), t.sort)
	default:
		r, _ = evalBin(t.op, t.sort.W, e(0), e(1))
	}
	memo[t] = r
	return r
}

// ---- SMT-LIB printing

func (s Sort) smt() string {
	if s.W == 0 {
		return "Bool"
	}
	if s.FP {
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.W)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.sort.W == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.sort.FP {
			return fmt.Sprintf("((_ to_fp %s) (_ bv%d %d))", fpParams(t.sort.W), t.val, t.sort.W)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func fpParams(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) body() string {
	var sb strings.Builder
	args := func() {
		for i := 0; i < int(t.n); i++ {
			sb.WriteByte(' ')
			sb.WriteString(t.a[i].ref())
		}
	}
	switch t.op {
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d)", t.sort.W-t.a[0].sort.W)
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d)", t.sort.W-t.a[0].sort.W)
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d)", t.val>>8, t.val&0xff)
	case OFFromBits:
		fmt.Fprintf(&sb, "((_ to_fp %s)", fpParams(t.sort.W))
	case OFToF:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE", fpParams(t.sort.W))
	case OSToF:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE", fpParams(t.sort.W))
	case OUToF:
		fmt.Fprintf(&sb, "((_ to_fp_unsigned %s) RNE", fpParams(t.sort.W))
	case OFToS:
		fmt.Fprintf(&sb, "((_ fp.to_sbv %d) RTZ", t.sort.W)
	case OFToU:
		fmt.Fprintf(&sb, "((_ fp.to_ubv %d) RTZ", t.sort.W)
	default:
		sb.WriteString("(" + opName[t.op])
	}
	args()
	sb.WriteByte(')')
	return sb.String()
}
