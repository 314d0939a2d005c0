package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, Fallback int64
	Time                                                 int64 // ns
	AssertQueries                                        int64
	MaxQuery                                             int64
}

var stats SolverStats

// Solver drives one z3 process.  Terms are sent once, as define-fun, and each
// query is a push/assert/check/pop over them.
type Solver struct {
	b      *Bank
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	gen    uint32
	defs   int
	cache  map[string]cacheEnt
	toMs   int
	buf    bytes.Buffer
	nfresh int
	int    bool
}

type cacheEnt struct {
	r SatRes
	m Model
}

var solverBin = "z3-new"

func NewSolver(b *Bank, toMs int) *Solver {
	return &Solver{b: b, cache: map[string]cacheEnt{}, toMs: toMs}
}

func (s *Solver) start() {
	s.stop()
	s.cmd = exec.Command(solverBin, s.args()...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.gen++
	s.defs = 0
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.toMs)
}

// args: with int, z3 decides bit vectors by translation to integers, which
// suits sums and differences of wide values.
func (s *Solver) args() []string {
	a := []string{"-in", "-smt2"}
	if s.int {
		a = append(a, "smt.bv.solver=2")
	}
	return a
}

func (s *Solver) setInt(on bool) {
	if s.int != on {
		s.int = on
		s.stop()
	}
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.gen == s.gen {
		return
	}
	// iterative post-order to survive deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || f.t.gen == s.gen {
			st = st[:len(st)-1]
			continue
		}
		if f.i < int(f.t.n) {
			c := f.t.a[f.i]
			f.i++
			if c.op != OConst && c.gen != s.gen {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := f.t
		if x.op == OVar {
			fmt.Fprintf(&s.buf, "(declare-const |%s| %s)\n", x.name, x.sort.smt())
		} else {
			fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", x.id, x.sort.smt(), x.body())
		}
		x.gen = s.gen
		s.defs++
		st = st[:len(st)-1]
	}
}

func collectVars(ts []*Term, b *Bank) []*Term {
	var vs *varset
	for _, t := range ts {
		vs = unionVS(vs, t.vars)
	}
	var out []*Term
	if vs == nil {
		return nil
	}
	// names index -> term
	for _, v := range b.vars {
		if vs.has(b.varIdx[v.name]) {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Check decides the conjunction of ts.
func (s *Solver) Check(ts []*Term) (SatRes, Model) {
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		if t.isFalse() {
			return Unsat, nil
		}
		if !t.isTrue() {
			ids = append(ids, int(t.id))
		}
	}
	if len(ids) == 0 {
		return Sat, Model{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	prev := -1
	for _, i := range ids {
		if i == prev {
			continue
		}
		prev = i
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		atomic.AddInt64(&stats.CacheHits, 1)
		return e.r, e.m
	}
	t0 := time.Now()
	r, m := s.query(ts)
	d := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&stats.Queries, 1)
	atomic.AddInt64(&stats.Time, d)
	for {
		o := atomic.LoadInt64(&stats.MaxQuery)
		if d <= o || atomic.CompareAndSwapInt64(&stats.MaxQuery, o, d) {
			break
		}
	}
	if r == Unknown {
		r, m = s.fallback(ts)
	}
	switch r {
	case Sat:
		atomic.AddInt64(&stats.SatN, 1)
		// sanity: the model must satisfy the query under our own evaluator
		memo := evalMemo{}
		for _, t := range ts {
			if m.Eval(t, memo) != 1 {
				debugf("solver model does not satisfy term under evaluator: %s", t.body())
				r = Unknown
				break
			}
		}
	case Unsat:
		atomic.AddInt64(&stats.UnsatN, 1)
	}
	if r == Unknown {
		atomic.AddInt64(&stats.UnknownN, 1)
		dumpUnknown(s, ts)
	}
	if d := os.Getenv("GOSYM_DUMPSLOW"); d != "" && time.Since(t0) > time.Second {
		os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", d, atomic.AddInt64(&dumpN, 1)), []byte(s.script(ts)), 0o644)
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

var dumpN int64

func dumpUnknown(s *Solver, ts []*Term) {
	dir := os.Getenv("GOSYM_DUMP")
	if dir == "" {
		return
	}
	n := atomic.AddInt64(&dumpN, 1)
	os.WriteFile(fmt.Sprintf("%s/unknown%d.smt2", dir, n), []byte(s.script(ts)), 0o644)
}

func (s *Solver) query(ts []*Term) (SatRes, Model) {
	if s.cmd == nil || s.defs > 60000 {
		s.start()
	}
	for _, t := range ts {
		s.define(t)
	}
	s.buf.WriteString("(push)\n")
	for _, t := range ts {
		fmt.Fprintf(&s.buf, "(assert %s)\n", t.ref())
	}
	s.buf.WriteString("(check-sat)\n")
	vs := collectVars(ts, s.b)
	if _, err := s.in.Write(s.buf.Bytes()); err != nil {
		s.stop()
		return Unknown, nil
	}
	s.buf.Reset()
	line, err := s.readLine(s.toMs)
	if err != nil {
		debugf("solver read: %v", err)
		s.stop()
		return Unknown, nil
	}
	switch {
	case line == "unsat":
		s.buf.WriteString("(pop)\n")
		return Unsat, nil
	case line == "sat":
		m := Model{}
		if len(vs) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vs {
				s.buf.WriteString(" " + v.ref())
			}
			s.buf.WriteString("))\n(pop)\n")
			s.in.Write(s.buf.Bytes())
			s.buf.Reset()
			txt, err := s.readSexp()
			if err != nil {
				s.stop()
				return Unknown, nil
			}
			parseModel(txt, m)
		} else {
			s.buf.WriteString("(pop)\n")
		}
		return Sat, m
	default:
		if strings.Contains(line, "error") {
			debugf("solver error: %s", line)
			s.stop()
			return Unknown, nil
		}
		s.buf.WriteString("(pop)\n")
		return Unknown, nil
	}
}

func (s *Solver) readLine(toMs int) (string, error) {
	type res struct {
		l string
		e error
	}
	tm := time.AfterFunc(time.Duration(toMs)*time.Millisecond+5*time.Second, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	defer tm.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth, started, inbar := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inbar = !inbar
		}
		if inbar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, m Model) {
	// ((|name| #x..) (|n2| true) (|n3| (_ bv3 4)) ...)
	i := 0
	for {
		j := strings.IndexByte(txt[i:], '|')
		k := -1
		name := ""
		if j < 0 {
			return
		}
		j += i
		k = strings.IndexByte(txt[j+1:], '|') + j + 1
		name = txt[j+1 : k]
		rest := strings.TrimLeft(txt[k+1:], " \n\t")
		i = k + 1
		switch {
		case strings.HasPrefix(rest, "#x"):
			e := 2
			for e < len(rest) && strings.IndexByte("0123456789abcdefABCDEF", rest[e]) >= 0 {
				e++
			}
			v, _ := strconv.ParseUint(rest[2:e], 16, 64)
			m[name] = v
		case strings.HasPrefix(rest, "#b"):
			e := 2
			for e < len(rest) && (rest[e] == '0' || rest[e] == '1') {
				e++
			}
			v, _ := strconv.ParseUint(rest[2:e], 2, 64)
			m[name] = v
		case strings.HasPrefix(rest, "true"):
			m[name] = 1
		case strings.HasPrefix(rest, "false"):
			m[name] = 0
		case strings.HasPrefix(rest, "(_ bv"):
			e := 5
			for e < len(rest) && rest[e] >= '0' && rest[e] <= '9' {
				e++
			}
			v, _ := strconv.ParseUint(rest[5:e], 10, 64)
			m[name] = v
		}
	}
}

// script renders a stand-alone query for the one-shot fall-back solvers.
func (s *Solver) script(ts []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		for i := 0; i < int(t.n); i++ {
			rec(t.a[i])
		}
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", t.name, t.sort.smt())
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, t.sort.smt(), t.body())
		}
	}
	for _, t := range ts {
		rec(t)
	}
	for _, t := range ts {
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

var fallbackSem = make(chan struct{}, 8)

var fallbackMs = 20000

// fallback races other back ends on a query the main one did not decide.
func (s *Solver) fallback(ts []*Term) (SatRes, Model) {
	atomic.AddInt64(&stats.Fallback, 1)
	txt := s.script(ts)
	vs := collectVars(ts, s.b)
	if len(vs) > 0 {
		txt += "(get-value ("
		for _, v := range vs {
			txt += " " + v.ref()
		}
		txt += "))\n"
	}
	fallbackSem <- struct{}{}
	defer func() { <-fallbackSem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(fallbackMs)*time.Millisecond)
	defer cancel()
	cmds := [][]string{
		{"cvc5", "--lang=smt2", "--produce-models", "-"},
		{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", "-"},
		{"z3-new", "-in", "-smt2"},
		{"z3-new", "-in", "-smt2", "tactic.default_tactic=smt", "smt.bv.solver=2"},
	}
	type ans struct {
		r SatRes
		m Model
	}
	ch := make(chan ans, len(cmds))
	var wg sync.WaitGroup
	for _, c := range cmds {
		wg.Add(1)
		go func(c []string) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := string(out)
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(o, "sat") && !strings.Contains(o, "(error"):
				m := Model{}
				parseModel(o, m)
				ch <- ans{Sat, m}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			cancel()
			wg.Wait()
			return a.r, a.m
		}
	}
	return Unknown, nil
}
