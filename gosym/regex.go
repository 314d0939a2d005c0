package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Symbolic regular expressions: the compiled program of regexp/syntax is
// unfolded over the (concrete-length) string.  R(pc,pos) is the formula "a
// match can be completed from instruction pc at byte pos"; captures come from
// a walk in priority order that branches on those formulas.

type rx struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

var rxMu sync.Mutex
var rxCache = map[string]*rx{}

func getRx(src string) (*rx, error) {
	rxMu.Lock()
	defer rxMu.Unlock()
	if r, ok := rxCache[src]; ok {
		return r, nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	ncap := p.MaxCap()
	pr, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	r := &rx{src, re, pr, ncap}
	rxCache[src] = r
	return r, nil
}

type rxRun struct {
	in   *Interp
	r    *rx
	s    Value
	n    int
	memo map[[2]int]*Term
	wm   map[int][5]*Term // width conditions per position
}

func (in *Interp) rxRun(r *rx, s Value) *rxRun {
	return &rxRun{in: in, r: r, s: s, n: strLen(s), memo: map[[2]int]*Term{}, wm: map[int][5]*Term{}}
}

// widths gives, per width 1..4, the condition that the rune at pos has it,
// index 0 being the condition "invalid byte" (decoded as U+FFFD, width 1).
func (x *rxRun) widths(pos int) [5]*Term {
	if w, ok := x.wm[pos]; ok {
		return w
	}
	b := x.in.b
	var w [5]*Term
	any := b.F
	for k := 1; k <= 4; k++ {
		v, _ := x.in.utf8At(x.s, pos, k)
		if x.in.strByte(x.s, pos).hi < 0x80 && k > 1 {
			v = b.F
		}
		w[k] = v
		any = b.Or(any, v)
	}
	w[0] = b.Not(any)
	if x.in.p != nil {
		if v, ok := x.in.p.implied(w[1]); ok && v {
			w = [5]*Term{b.F, b.T, b.F, b.F, b.F}
		}
	}
	x.wm[pos] = w
	return w
}

func (x *rxRun) class(i *syntax.Inst, r *Term) *Term {
	b := x.in.b
	if r.isConst() {
		return b.Bool(i.MatchRune(rune(int32(r.val))))
	}
	c := func(v rune) *Term { return b.Const(32, uint64(uint32(v))) }
	rng := func(lo, hi rune) *Term {
		if lo == hi {
			return b.Eq(r, c(lo))
		}
		return b.And(b.Ule(c(lo), r), b.Ule(r, c(hi)))
	}
	switch i.Op {
	case syntax.InstRuneAny:
		return b.T
	case syntax.InstRuneAnyNotNL:
		return b.Not(b.Eq(r, c('\n')))
	}
	if len(i.Rune) == 1 {
		out := b.Eq(r, c(i.Rune[0]))
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			out = b.F
			for v := rune(0); v < 0x3000; v++ {
				if i.MatchRune(v) {
					out = b.Or(out, b.Eq(r, c(v)))
				}
			}
		}
		return out
	}
	out := b.F
	for k := 0; k+1 < len(i.Rune); k += 2 {
		out = b.Or(out, rng(i.Rune[k], i.Rune[k+1]))
	}
	return out
}

// step gives the formula for consuming one rune with instruction i at pos.
func (x *rxRun) consume(i *syntax.Inst, pos int) *Term {
	if pos >= x.n {
		return x.in.b.F
	}
	b := x.in.b
	w := x.widths(pos)
	out := b.F
	for k := 1; k <= 4; k++ {
		if w[k].isFalse() {
			continue
		}
		_, r := x.in.utf8At(x.s, pos, k)
		c := b.And(w[k], x.class(i, r))
		if c.isFalse() {
			continue
		}
		out = b.Or(out, b.And(c, x.R(int(i.Out), pos+k)))
	}
	if !w[0].isFalse() {
		c := b.And(w[0], x.class(i, b.Const(32, 0xFFFD)))
		if !c.isFalse() {
			out = b.Or(out, b.And(c, x.R(int(i.Out), pos+1)))
		}
	}
	return out
}

func (x *rxRun) isWord(pos int) *Term {
	b := x.in.b
	if pos < 0 || pos >= x.n {
		return b.F
	}
	t := x.in.strByte(x.s, pos)
	rng := func(lo, hi uint64) *Term { return b.And(b.Ule(b.Const(8, lo), t), b.Ule(t, b.Const(8, hi))) }
	return b.Or(b.Or(rng('a', 'z'), rng('A', 'Z')), b.Or(rng('0', '9'), b.Eq(t, b.Const(8, '_'))))
}

func (x *rxRun) empty(op syntax.EmptyOp, pos int) *Term {
	b := x.in.b
	out := b.T
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return b.F
	}
	if op&syntax.EmptyEndText != 0 && pos != x.n {
		return b.F
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 {
		out = b.And(out, b.Eq(x.in.strByte(x.s, pos-1), b.Const(8, '\n')))
	}
	if op&syntax.EmptyEndLine != 0 && pos != x.n {
		out = b.And(out, b.Eq(x.in.strByte(x.s, pos), b.Const(8, '\n')))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, c := x.isWord(pos-1), x.isWord(pos)
		same := b.Eq(a, c)
		if op&syntax.EmptyWordBoundary != 0 {
			out = b.And(out, b.Not(same))
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			out = b.And(out, same)
		}
	}
	return out
}

func (x *rxRun) R(pc, pos int) *Term {
	k := [2]int{pc, pos}
	if t, ok := x.memo[k]; ok {
		return t
	}
	t := x.eps(pc, pos, map[int]bool{})
	x.memo[k] = t
	return t
}

// eps follows empty transitions, never re-entering an instruction on the stack.
func (x *rxRun) eps(pc, pos int, on map[int]bool) *Term {
	b := x.in.b
	if on[pc] {
		return b.F
	}
	i := &x.r.prog.Inst[pc]
	switch i.Op {
	case syntax.InstFail:
		return b.F
	case syntax.InstMatch:
		return b.T
	case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		return x.consume(i, pos)
	}
	on[pc] = true
	defer delete(on, pc)
	switch i.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		return b.Or(x.eps(int(i.Out), pos, on), x.eps(int(i.Arg), pos, on))
	case syntax.InstCapture, syntax.InstNop:
		return x.eps(int(i.Out), pos, on)
	case syntax.InstEmptyWidth:
		c := x.empty(syntax.EmptyOp(i.Arg), pos)
		if c.isFalse() {
			return c
		}
		return b.And(c, x.eps(int(i.Out), pos, on))
	}
	panic(unsupported{fmt.Sprintf("regexp instruction %v", i.Op)})
}

// starts enumerates candidate start positions: cond(i) = i is a rune boundary.
func (x *rxRun) match() *Term {
	b := x.in.b
	if x.r.prog.StartCond()&syntax.EmptyBeginText != 0 {
		return x.R(x.r.prog.Start, 0)
	}
	// a start position is always a rune boundary of the search
	out := b.F
	bound := make([]*Term, x.n+1)
	bound[0] = b.T
	for i := 1; i <= x.n; i++ {
		bound[i] = b.F
	}
	for i := 0; i <= x.n; i++ {
		if bound[i].isFalse() {
			continue
		}
		out = b.Or(out, b.And(bound[i], x.R(x.r.prog.Start, i)))
		if i < x.n {
			w := x.widths(i)
			bound[i+1] = b.Or(bound[i+1], b.And(bound[i], b.Or(w[0], w[1])))
			for k := 2; k <= 4 && i+k <= x.n; k++ {
				bound[i+k] = b.Or(bound[i+k], b.And(bound[i], w[k]))
			}
		}
	}
	return out
}

// width branches on the width of the rune at pos.
func (x *rxRun) width(pos int) (int, *Term) {
	w := x.widths(pos)
	for k := 1; k <= 4; k++ {
		if w[k].isFalse() {
			continue
		}
		if x.in.branch(w[k]) {
			_, r := x.in.utf8At(x.s, pos, k)
			return k, r
		}
	}
	return 1, x.in.b.Const(32, 0xFFFD)
}

// find returns the capture positions of the leftmost-first match from start.
func (x *rxRun) find(start int) []int {
	anch := x.r.prog.StartCond()&syntax.EmptyBeginText != 0
	for i := start; i <= x.n; {
		if anch && i > 0 {
			return nil
		}
		if x.in.branch(x.R(x.r.prog.Start, i)) {
			return x.walk(i)
		}
		if i == x.n {
			break
		}
		w, _ := x.width(i)
		i += w
	}
	return nil
}

func (x *rxRun) walk(pos int) []int {
	cap := make([]int, 2*(x.r.ncap+1))
	for i := range cap {
		cap[i] = -1
	}
	cap[0] = pos
	pc := x.r.prog.Start
	on := map[int]bool{}
	for {
		i := &x.r.prog.Inst[pc]
		switch i.Op {
		case syntax.InstMatch:
			cap[1] = pos
			return cap
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			w, _ := x.width(pos)
			pos += w
			pc = int(i.Out)
			on = map[int]bool{}
			continue
		case syntax.InstAlt, syntax.InstAltMatch:
			on[pc] = true
			c := x.eps(int(i.Out), pos, on)
			if x.in.branch(c) {
				pc = int(i.Out)
			} else {
				pc = int(i.Arg)
			}
			continue
		case syntax.InstCapture:
			if int(i.Arg) < len(cap) {
				cap[i.Arg] = pos
			}
			on[pc] = true
			pc = int(i.Out)
		case syntax.InstNop, syntax.InstEmptyWidth:
			on[pc] = true
			pc = int(i.Out)
		default:
			panic(unsupported{"regexp walk"})
		}
	}
}

func rxOf(v Value) *rx {
	h, ok := v.(*Host)
	if !ok {
		panic(unsupported{fmt.Sprintf("regexp receiver %T", v)})
	}
	return h.v.(*rx)
}

func regRegexp() {
	mk := func(in *Interp, src Value) (*Host, error) {
		s, ok := src.(string)
		if !ok {
			panic(unsupported{"regexp from a symbolic string"})
		}
		r, err := getRx(s)
		if err != nil {
			return nil, err
		}
		return &Host{"regexp", r}, nil
	}
	reg("regexp.MustCompile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h, err := mk(in, a[0])
		if err != nil {
			in.panicStr(err.Error())
		}
		return h
	})
	reg("regexp.Compile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h, err := mk(in, a[0])
		if err != nil {
			return Tuple{(*Value)(nil), in.hostErr(err)}
		}
		return Tuple{h, Iface{}}
	})
	reg("regexp.MatchString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h, err := mk(in, a[0])
		if err != nil {
			return Tuple{in.b.F, in.hostErr(err)}
		}
		return Tuple{in.rxMatch(h.v.(*rx), a[1]), Iface{}}
	})
	reg("regexp.QuoteMeta", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return regexp.QuoteMeta(s)
		}
		return in.runReal(fn, a)
	})
	const R = "(*regexp.Regexp)."
	reg(R+"MatchString", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.rxMatch(rxOf(a[0]), a[1]) })
	reg(R+"Match", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.rxMatch(rxOf(a[0]), in.bytesToStr(a[1].([]Value)))
	})
	reg(R+"String", func(in *Interp, fn *ssa.Function, a []Value) Value { return rxOf(a[0]).src })
	reg(R+"NumSubexp", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.b.Const(64, uint64(rxOf(a[0]).ncap)) })
	reg(R+"SubexpIndex", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.b.Const(64, uint64(int64(rxOf(a[0]).re.SubexpIndex(a[1].(string)))))
	})
	reg(R+"SubexpNames", func(in *Interp, fn *ssa.Function, a []Value) Value {
		var r []Value
		for _, n := range rxOf(a[0]).re.SubexpNames() {
			r = append(r, n)
		}
		return r
	})
	ints := func(in *Interp, c []int) Value {
		if c == nil {
			return []Value(nil)
		}
		r := make([]Value, len(c))
		for i := range c {
			r[i] = in.b.Const(64, uint64(int64(c[i])))
		}
		return r
	}
	sub := func(in *Interp, s Value, c []int) Value {
		if c == nil {
			return []Value(nil)
		}
		r := make([]Value, len(c)/2)
		for i := range r {
			if c[2*i] < 0 {
				r[i] = ""
			} else {
				r[i] = in.strSlice(s, c[2*i], c[2*i+1])
			}
		}
		return r
	}
	reg(R+"FindStringSubmatch", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return sub(in, a[1], in.rxFind(rxOf(a[0]), a[1]))
	})
	reg(R+"FindStringSubmatchIndex", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return ints(in, in.rxFind(rxOf(a[0]), a[1]))
	})
	reg(R+"FindStringIndex", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := in.rxFind(rxOf(a[0]), a[1])
		if c != nil {
			c = c[:2]
		}
		return ints(in, c)
	})
	reg(R+"FindString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := in.rxFind(rxOf(a[0]), a[1])
		if c == nil {
			return ""
		}
		return in.strSlice(a[1], c[0], c[1])
	})
	all := func(in *Interp, r *rx, s Value, n int) [][]int {
		if cs, ok := s.(string); ok {
			return r.re.FindAllStringSubmatchIndex(cs, n)
		}
		x := in.rxRun(r, s)
		var out [][]int
		pos, prevEnd := 0, -1
		for pos <= x.n && (n < 0 || len(out) < n) {
			c := x.find(pos)
			if c == nil {
				break
			}
			accept := true
			if c[1] == pos {
				// empty match
				if c[0] == prevEnd {
					accept = false
				}
				if pos < x.n {
					w, _ := x.width(pos)
					pos += w
				} else {
					pos = x.n + 1
				}
			} else {
				pos = c[1]
			}
			prevEnd = c[1]
			if accept {
				out = append(out, c)
			}
		}
		return out
	}
	reg(R+"FindAllString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		cs := all(in, rxOf(a[0]), a[1], in.concInt(a[2], true))
		if cs == nil {
			return []Value(nil)
		}
		var out []Value
		for _, c := range cs {
			out = append(out, in.strSlice(a[1], c[0], c[1]))
		}
		return out
	})
	reg(R+"FindAllStringSubmatch", func(in *Interp, fn *ssa.Function, a []Value) Value {
		cs := all(in, rxOf(a[0]), a[1], in.concInt(a[2], true))
		if cs == nil {
			return []Value(nil)
		}
		var out []Value
		for _, c := range cs {
			out = append(out, sub(in, a[1], c))
		}
		return out
	})
	replace := func(in *Interp, r *rx, s Value, f func(c []int) Value) Value {
		var out Value = ""
		last := 0
		for _, c := range all(in, r, s, -1) {
			out = in.strConcat(out, in.strSlice(s, last, c[0]))
			out = in.strConcat(out, f(c))
			last = c[1]
		}
		return in.strConcat(out, in.strSlice(s, last, strLen(s)))
	}
	reg(R+"ReplaceAllString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t, ok := a[2].(string)
		if !ok {
			panic(unsupported{"ReplaceAllString with a symbolic template"})
		}
		r := rxOf(a[0])
		for i := 0; i < len(t); i++ {
			if t[i] == '$' {
				if cs, ok := a[1].(string); ok {
					return r.re.ReplaceAllString(cs, t)
				}
				panic(unsupported{"ReplaceAllString with $ in the template"})
			}
		}
		return replace(in, r, a[1], func(c []int) Value { return t })
	})
	reg(R+"ReplaceAllLiteralString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return replace(in, rxOf(a[0]), a[1], func(c []int) Value { return a[2] })
	})
	reg(R+"ReplaceAllStringFunc", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return replace(in, rxOf(a[0]), a[1], func(c []int) Value {
			return in.Call(a[2].(*Closure), []Value{in.strSlice(a[1], c[0], c[1])})
		})
	})
	reg(R+"Split", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rxOf(a[0])
		n := in.concInt(a[2], true)
		if s, ok := a[1].(string); ok {
			var out []Value
			for _, p := range r.re.Split(s, n) {
				out = append(out, p)
			}
			return out
		}
		if n != -1 {
			panic(unsupported{"regexp Split with a limit"})
		}
		var out []Value
		beg, end := 0, 0
		for _, c := range all(in, r, a[1], -1) {
			end = c[0]
			if c[1] != 0 {
				out = append(out, in.strSlice(a[1], beg, end))
			}
			beg = c[1]
		}
		if end != strLen(a[1]) {
			out = append(out, in.strSlice(a[1], beg, strLen(a[1])))
		}
		return out
	})
}

func (in *Interp) rxMatch(r *rx, s Value) Value {
	if cs, ok := s.(string); ok {
		return in.b.Bool(r.re.MatchString(cs))
	}
	return in.rxRun(r, s).match()
}

func (in *Interp) rxFind(r *rx, s Value) []int {
	if cs, ok := s.(string); ok {
		return r.re.FindStringSubmatchIndex(cs)
	}
	return in.rxRun(r, s).find(0)
}
