package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- exploration: depth-first symbolic execution by re-execution.  A work
// item is a decision prefix plus a model of its path condition.

type Dec struct {
	seq int64  // number of the branch() call this decision belongs to
	v   bool   // outcome
	cv  uint64 // value, for concretisation
}

type Item struct {
	prefix []Dec
	model  Model
}

type Input struct {
	Kind string
	t    []*Term // scalar: 1 term; string: bytes
	str  bool
}

type Obs struct {
	Label string
	v     Value
}

type Candidate struct {
	Label  string
	Detail string
	Inputs []string
	Obs    []string
	Kind   string // assert | panic | limit | unsupported | witness
	MapND  bool
	key    string
}

type Path struct {
	e      *Explorer
	in     *Interp
	prefix []Dec
	pos    int
	decs   []Dec
	seq    int64
	pcset  map[*Term]bool
	group  map[int]*grp
	model  Model
	memo   evalMemo
	inputs []Input
	obs    []Obs
	nvar   int

	mapOrder   int
	mapForks   int
	mapForkMax int
	sawMapFork bool
	asserted   int
	env        map[string]Value
	now        Value
	sinceSym   bool
	clock      uint64 // nanoseconds passed, by vsym.Elapse
	clocked    bool
	hooks      map[*Value]Iface
	urls       map[*Value]Value
	jdecs      map[*Value]any
	pages      map[string]Iface  // result pages written, by path
	files      map[*Value]string // open files
	tmpls      map[*Value]string // template texts
	trees      []Iface
}

type grp struct {
	parent *grp
	terms  []*Term
}

func (g *grp) find() *grp {
	for g.parent != nil {
		if g.parent.parent != nil {
			g.parent = g.parent.parent
		}
		g = g.parent
	}
	return g
}

func (vs *varset) each(f func(i int)) {
	if vs == nil {
		return
	}
	for w, x := range vs.bits {
		for x != 0 {
			k := 0
			for x>>uint(k)&1 == 0 {
				k++
			}
			f(w*64 + k)
			x &= x - 1
		}
	}
}

// add puts a literal on the path condition.
func (p *Path) add(t *Term) {
	if t.isConst() {
		return
	}
	if t.op == OAnd {
		p.add(t.a[0])
		p.add(t.a[1])
		return
	}
	if t.op == ONot && t.a[0].op == OOr {
		p.add(p.in.b.Not(t.a[0].a[0]))
		p.add(p.in.b.Not(t.a[0].a[1]))
		return
	}
	if p.pcset[t] {
		return
	}
	p.pcset[t] = true
	var root *grp
	t.vars.each(func(i int) {
		g := p.group[i]
		if g == nil {
			g = &grp{}
			p.group[i] = g
		}
		g = g.find()
		if root == nil {
			root = g
		} else if g != root {
			if len(g.terms) > len(root.terms) {
				g, root = root, g
			}
			root.terms = append(root.terms, g.terms...)
			g.terms = nil
			g.parent = root
		}
	})
	if root != nil {
		root.terms = append(root.terms, t)
	}
}

// slice collects the constraints that share variables with t.
func (p *Path) slice(t *Term) []*Term {
	var out []*Term
	seen := map[*grp]bool{}
	t.vars.each(func(i int) {
		g := p.group[i]
		if g == nil {
			return
		}
		g = g.find()
		if seen[g] {
			return
		}
		seen[g] = true
		out = append(out, g.terms...)
	})
	return append(out, t)
}

func (p *Path) eval(t *Term) uint64 { return p.model.Eval(t, p.memo) }

func (p *Path) merged(m Model) Model {
	r := make(Model, len(p.model)+len(m))
	for k, v := range p.model {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (p *Path) setModel(m Model) {
	p.model = m
	p.memo = evalMemo{}
}

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

func (p *Path) implied(t *Term) (bool, bool) {
	if p.pcset[t] {
		return true, true
	}
	if p.pcset[p.in.b.Not(t)] {
		return false, true
	}
	return false, false
}

func (p *Path) child(d Dec, m Model) {
	pre := make([]Dec, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	p.e.push(Item{pre, m})
}

// branch decides a boolean, forking when both outcomes are feasible.
func (in *Interp) branch(t *Term) bool {
	if in.initMode > 0 || in.p == nil {
		if t.isConst() {
			return t.val == 1
		}
		panic(unsupported{"symbolic branch during initialisation"})
	}
	p := in.p
	p.seq++
	if p.replaying() && p.prefix[p.pos].seq == p.seq {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if d.v {
			p.add(t)
		} else {
			p.add(in.b.Not(t))
		}
		return d.v
	}
	if t.isConst() {
		return t.val == 1
	}
	if v, ok := p.implied(t); ok {
		return v
	}
	if p.replaying() {
		// the parent decided this one without forking: it is implied
		v := p.eval(t) == 1
		if v {
			p.add(t)
		} else {
			p.add(in.b.Not(t))
		}
		return v
	}
	v := p.eval(t) == 1
	mine, other := t, in.b.Not(t)
	if !v {
		mine, other = other, mine
	}
	r, m := in.s.Check(p.slice(other))
	switch r {
	case Sat:
		p.child(Dec{seq: p.seq, v: !v}, p.merged(m))
		p.decs = append(p.decs, Dec{seq: p.seq, v: v})
	case Unknown:
		atomic.AddInt64(&p.e.unknownBranch, 1)
	}
	p.add(mine)
	return v
}

// concretize picks a concrete value for t, forking over the alternatives.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if in.initMode > 0 || in.p == nil {
		panic(unsupported{"symbolic value during initialisation"})
	}
	p := in.p
	for n := 0; ; n++ {
		if n > 300 {
			p.limit(in, "concretisation of a wide value")
		}
		p.seq++
		if p.replaying() && p.prefix[p.pos].seq == p.seq {
			d := p.prefix[p.pos]
			p.pos++
			p.decs = append(p.decs, d)
			eq := in.b.Eq(t, in.b.Const(t.sort.W, d.cv))
			if d.v {
				p.add(eq)
				return d.cv
			}
			p.add(in.b.Not(eq))
			continue
		}
		v := p.eval(t)
		eq := in.b.Eq(t, in.b.Const(t.sort.W, v))
		if x, ok := p.implied(eq); ok && x {
			return v
		}
		if p.replaying() {
			p.add(eq)
			return v
		}
		r, m := in.s.Check(p.slice(in.b.Not(eq)))
		switch r {
		case Sat:
			p.child(Dec{seq: p.seq, v: false, cv: v}, p.merged(m))
			p.decs = append(p.decs, Dec{seq: p.seq, v: true, cv: v})
		case Unknown:
			atomic.AddInt64(&p.e.unknownBranch, 1)
		}
		p.add(eq)
		return v
	}
}

// choice is an internal n-way nondeterministic choice.
func (in *Interp) choice(n int, label string) int {
	if n <= 1 {
		return 0
	}
	v := in.p.fresh(64, "ch", 0, uint64(n-1))
	in.p.inputs = append(in.p.inputs, Input{Kind: "mapnd", t: []*Term{v}})
	return int(in.concretize(v))
}

// fresh makes an input variable with an unsigned range.
func (p *Path) fresh(w uint8, kind string, lo, hi uint64) *Term {
	if k := uint8(bits.Len64(hi)); w == 64 && k > 0 && k <= 48 && kind != "c" {
		return p.in.b.Zext(p.fresh(k, kind, lo, hi), w)
	}
	p.nvar++
	name := fmt.Sprintf("v%d.%s%d", p.nvar, kind, w)
	full := lo == 0 && (hi == mask(w) || w == 0)
	if !full {
		name += fmt.Sprintf(".%d.%d", lo, hi)
	}
	t := p.in.b.Var(name, w)
	if _, ok := p.model[name]; !ok {
		p.model[name] = lo
	}
	if !full {
		if hi-lo < 1<<62 {
			c := p.in.b.And(p.in.b.mk(Term{op: OUle, a: [3]*Term{p.in.b.Const(w, lo), t}, n: 2}),
				p.in.b.mk(Term{op: OUle, a: [3]*Term{t, p.in.b.Const(w, hi)}, n: 2}))
			p.add(c)
			t.lo, t.hi = lo, hi
		} else {
			p.add(p.in.b.And(p.in.b.Ule(p.in.b.Const(w, lo), t), p.in.b.Ule(t, p.in.b.Const(w, hi))))
		}
	}
	return t
}

// freshSigned makes an input with a signed range.
func (p *Path) freshSigned(w uint8, kind string, lo, hi int64) *Term {
	if lo >= 0 {
		return p.fresh(w, kind, uint64(lo), uint64(hi))
	}
	p.nvar++
	name := fmt.Sprintf("v%d.%s%d.s%d.%d", p.nvar, kind, w, lo, hi)
	t := p.in.b.Var(name, w)
	if _, ok := p.model[name]; !ok {
		v := int64(0)
		if hi < 0 {
			v = hi
		}
		p.model[name] = uint64(v) & mask(w)
	}
	min := int64(-1) << (w - 1)
	max := ^min
	b := p.in.b
	if lo > min {
		p.add(b.Sle(b.Const(w, uint64(lo)), t))
	}
	if hi < max {
		p.add(b.Sle(t, b.Const(w, uint64(hi))))
	}
	return t
}

func (p *Path) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(pathEnd{"assume"})
	}
	if p.replaying() {
		p.add(t)
		return
	}
	if v, ok := p.implied(t); ok {
		if v {
			return
		}
		panic(pathEnd{"assume"})
	}
	if p.eval(t) != 1 {
		r, m := p.in.s.Check(p.slice(t))
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			atomic.AddInt64(&p.e.unknownAssume, 1)
			panic(pathEnd{"assume-unknown"})
		}
		p.setModel(p.merged(m))
	}
	p.add(t)
}

func (p *Path) assert(t *Term, label string) {
	p.asserted++
	p.e.cover("assert:" + label)
	if p.replaying() {
		if t.isFalse() {
			panic(pathEnd{"assert"})
		}
		p.add(t)
		return
	}
	if t.isTrue() {
		atomic.AddInt64(&p.e.assertConst, 1)
		return
	}
	if v, ok := p.implied(t); ok && v {
		atomic.AddInt64(&p.e.assertConst, 1)
		return
	}
	atomic.AddInt64(&p.e.assertQ, 1)
	if t.isFalse() {
		p.candidate("assert", label, "", p.model)
		panic(pathEnd{"assert"})
	}
	r, m := p.in.s.Check(p.slice(p.in.b.Not(t)))
	switch r {
	case Sat:
		p.candidate("assert", label, "", p.merged(m))
		// go on with the executions in which it holds
		p.assume(t)
		return
	case Unknown:
		atomic.AddInt64(&p.e.unknownAssert, 1)
		p.e.note("assertion undecided: " + label)
		// the current model may still refute it
		if p.eval(t) != 1 {
			p.candidate("assert", label, "", p.model)
		}
	}
	p.assume(t)
}

func (p *Path) limit(in *Interp, why string) {
	p.candidate("limit", why, "", p.model)
	panic(pathEnd{"limit:" + why})
}

// candidate records a suspected violation with the inputs that lead to it.
func (p *Path) candidate(kind, label, detail string, m Model) {
	c := Candidate{Kind: kind, Label: label, Detail: detail, MapND: p.sawMapFork}
	c.Inputs = p.renderInputs(m)
	memo := evalMemo{}
	for _, o := range p.obs {
		c.Obs = append(c.Obs, o.Label+"="+renderObs(o.v, m, memo))
	}
	c.key = kind + "|" + label
	p.e.addCandidate(c)
}

func (p *Path) renderInputs(m Model) []string {
	memo := evalMemo{}
	var out []string
	for _, i := range p.inputs {
		if i.Kind == "mapnd" {
			continue
		}
		if i.str {
			s := "s"
			for _, t := range i.t {
				s += fmt.Sprintf("%02x", m.Eval(t, memo))
			}
			out = append(out, s)
		} else {
			out = append(out, fmt.Sprintf("%d", m.Eval(i.t[0], memo)))
		}
	}
	return out
}

func renderObs(v Value, m Model, memo evalMemo) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("%d", m.Eval(x, memo))
	case string:
		return fmt.Sprintf("%x", x)
	case *SymStr:
		s := ""
		for _, t := range x.b {
			s += fmt.Sprintf("%02x", m.Eval(t, memo))
		}
		return s
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return renderObs(x.v, m, memo)
	case []Value:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += renderObs(e, m, memo)
		}
		return s + "]"
	}
	return fmt.Sprintf("?%T", v)
}

// ---- explorer

type Explorer struct {
	prog    *Program
	harness *ssa.Function
	name    string
	tier    string
	quick   bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []Item
	active  int
	stopped bool

	deadline time.Time
	maxPaths int64

	paths, complete, infeasible  int64
	unsupp                       map[string]int
	limits                       map[string]int
	unknownBranch, unknownAssume int64
	unknownAssert                int64
	assertQ, assertConst         int64
	steps                        int64
	dropped                      int64
	maxDec                       int64
	cands                        []Candidate
	candCount                    map[string]int
	witnesses                    []Candidate
	covers                       map[string]int
	notes                        map[string]int
	fns                          map[string]bool
	timedOut                     bool
	toMs                         int
	maxSteps                     int64
	witnessMax                   int
}

func NewExplorer(prog *Program, fn *ssa.Function, tier string) *Explorer {
	e := &Explorer{prog: prog, harness: fn, name: fn.Name(), tier: tier,
		unsupp: map[string]int{}, limits: map[string]int{}, candCount: map[string]int{},
		covers: map[string]int{}, notes: map[string]int{}, fns: map[string]bool{},
		toMs: 1500, maxSteps: 3000000, witnessMax: 40, maxPaths: 1 << 40}
	if n, err := strconv.Atoi(os.Getenv("GOSYM_WITNESSES")); err == nil {
		e.witnessMax = n
	}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(it Item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) cover(l string) {
	e.mu.Lock()
	e.covers[l]++
	e.mu.Unlock()
}

func (e *Explorer) note(l string) {
	e.mu.Lock()
	e.notes[l]++
	e.mu.Unlock()
}

const maxCandPerKey = 12

func (e *Explorer) addCandidate(c Candidate) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.candCount[c.key]++
	if e.candCount[c.key] <= maxCandPerKey {
		e.cands = append(e.cands, c)
	}
}

func (e *Explorer) Run(workers int) {
	e.queue = []Item{{nil, Model{}}}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	e.dropped = int64(len(e.queue))
}

func (e *Explorer) worker() {
	in := NewInterp(e.prog, e.toMs)
	in.maxSteps = e.maxSteps
	defer in.s.stop()
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.active > 0 && !e.stopped {
			e.cond.Wait()
		}
		if e.stopped || (len(e.queue) == 0 && e.active == 0) {
			e.mu.Unlock()
			e.cond.Broadcast()
			break
		}
		if time.Now().After(e.deadline) || e.paths >= e.maxPaths {
			e.stopped = true
			e.timedOut = true
			e.mu.Unlock()
			e.cond.Broadcast()
			break
		}
		it := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.active++
		e.paths++
		e.mu.Unlock()
		if len(in.b.tab) > 4000000 { // keep the term table bounded
			in.s.stop()
			in = NewInterp(e.prog, e.toMs)
			in.maxSteps = e.maxSteps
		}
		e.runPath(in, it)
		e.mu.Lock()
		e.active--
		e.mu.Unlock()
		e.cond.Broadcast()
	}
	e.mu.Lock()
	for f := range in.fnUsed {
		e.fns[fnName(f)] = true
	}
	e.mu.Unlock()
}

func NewInterp(prog *Program, toMs int) *Interp {
	b := NewBank()
	return &Interp{prog: prog, b: b, s: NewSolver(b, toMs), funcs: map[*ssa.Function]*cfunc{},
		globals: map[*ssa.Global]*Value{}, initDone: map[*ssa.Package]int{},
		maxSteps: 3000000, maxDepth: 2500, fnUsed: map[*ssa.Function]bool{},
		real: map[*ssa.Function]*cfunc{}, onces: map[*Value]bool{}, syncMaps: map[*Value]*MapV{}}
}

func (e *Explorer) runPath(in *Interp, it Item) {
	m := make(Model, len(it.model))
	for k, v := range it.model {
		m[k] = v
	}
	p := &Path{e: e, in: in, prefix: it.prefix, pcset: map[*Term]bool{}, group: map[int]*grp{}, model: m, memo: evalMemo{}, mapForkMax: 4}
	in.p = p
	in.steps, in.depth, in.curFrame = 0, 0, nil
	in.initMode = 0
	in.exactNum = false
	in.ufs = nil
	why := "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					why = x.why
				case unsupported:
					why = "unsupported"
					msg := x.msg
					if in.curFrame != nil {
						msg += " (in " + in.curFrame.f.name + ")"
					}
					e.mu.Lock()
					e.unsupp[msg]++
					first := e.unsupp[msg] <= 3
					e.mu.Unlock()
					if first {
						debugf("unsupported: %s\n%s", msg, in.trace())
						p.candidate("unsupported", msg, "", p.model)
					}
				case targetPanic:
					why = "panic"
					if p.replaying() {
						break
					}
					p.candidate("panic", in.panicText(x), x.pos, p.model)
				default:
					why = "unsupported"
					msg := fmt.Sprintf("engine: %v", r)
					if in.curFrame != nil {
						msg += " (in " + in.curFrame.f.name + ")"
					}
					e.mu.Lock()
					e.unsupp[msg]++
					first := e.unsupp[msg] <= 3
					e.mu.Unlock()
					if first {
						debugf("%s\n%s\n%s", msg, in.trace(), debug.Stack())
						p.candidate("unsupported", msg, "", p.model)
					}
				}
			}
		}()
		in.callFn(e.harness, nil, nil)
	}()
	in.initMode = 0
	e.mu.Lock()
	e.steps += in.steps
	switch {
	case why == "done" || why == "panic" || why == "assert":
		e.complete++
		if why == "done" && (len(e.witnesses) < e.witnessMax) && (e.complete < 10 || e.complete%7 == 0 || e.witnessMax > 40) {
			c := Candidate{Kind: "witness", Inputs: p.renderInputs(p.model), MapND: p.sawMapFork}
			memo := evalMemo{}
			for _, o := range p.obs {
				c.Obs = append(c.Obs, o.Label+"="+renderObs(o.v, p.model, memo))
			}
			e.witnesses = append(e.witnesses, c)
		}
	case why == "assume":
		e.infeasible++
	case len(why) > 5 && why[:5] == "limit":
		e.limits[why]++
	}
	if int64(len(p.decs)) > e.maxDec {
		e.maxDec = int64(len(p.decs))
	}
	if p.replaying() && why != "unsupported" {
		e.notes["replay divergence"]++
	}
	e.mu.Unlock()
	in.rollback()
	in.p = nil
}

func (in *Interp) trace() string {
	s := ""
	n := 0
	for f := in.curFrame; f != nil && n < 25; f = f.caller {
		s += "  " + f.f.name + "\n"
		n++
	}
	return s
}

func (in *Interp) panicText(x targetPanic) string {
	v := x.v
	if v.t == nil {
		return "panic: nil"
	}
	switch s := v.v.(type) {
	case string:
		return "panic: " + s
	}
	return "panic: value of type " + v.t.String()
}

// ---- program

type Program struct {
	SSA       *ssa.Program
	rtErrType types.Type
	mu        sync.Mutex
	methods   map[string]*ssa.Function
	impl      map[[2]string]bool
}

func (p *Program) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := typeKey(t) + "." + name
	p.mu.Lock()
	defer p.mu.Unlock()
	if f, ok := p.methods[k]; ok {
		return f
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil && pkg == nil {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	var f *ssa.Function
	if sel != nil {
		f = p.SSA.MethodValue(sel)
	}
	p.methods[k] = f
	return f
}

func (p *Program) implements(iv Iface, it *types.Interface) bool {
	k := [2]string{typeKey(iv.t), typeKey(it)}
	p.mu.Lock()
	defer p.mu.Unlock()
	if v, ok := p.impl[k]; ok {
		return v
	}
	v := types.Implements(iv.t, it)
	p.impl[k] = v
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
