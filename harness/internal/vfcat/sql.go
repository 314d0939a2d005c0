// Package vfcat answers queries on a database's catalogue by evaluating them:
// joins, conditions, sub queries and order as SQL defines them.  Without an
// ORDER BY rows come in the reverse of the order they are stored in.
package vfcat

import "strings"

type Table struct {
	Cols []string
	Rows [][]any
}

// Array is an array whose first subscript is Lo.
type Array struct {
	Lo int64
	V  []any
}

type DB struct {
	Tables map[string]*Table
	Func   func(name string, args []any) (any, bool)
}

type unsupported struct{ what string }

type scope struct {
	name string
	cols []string
	row  []any
}

type env struct {
	scopes []scope
	up     *env
}

type expr func(e *env) any

type item struct {
	e    expr
	name string
	star bool
}

type source struct {
	name  string
	table *Table
	fn    expr // a set returning function
	left  bool
	on    expr
}

type sel struct {
	items    []item
	from     []source
	where    expr
	order    []expr
	desc     []bool
	distinct bool
}

type tok struct {
	s    string
	kind byte // w word, n number, s string, p punctuation, q quoted identifier
}

type parser struct {
	db   *DB
	toks []tok
	i    int
	args []any
	argi int
}

// Query evaluates a query; ok is false if it uses something not known here.
func (db *DB) Query(q string, args []any) (cols []string, rows [][]any, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
			cols, rows, ok = nil, nil, false
		}
	}()
	p := &parser{db: db, args: args, toks: lex(q)}
	s := p.sel()
	if p.is(";") {
		p.i++
	}
	if p.i != len(p.toks) {
		panic(unsupported{"rest of query"})
	}
	if p.argi != 0 && p.argi != len(args) {
		panic(unsupported{"arguments"})
	}
	for _, it := range s.items {
		cols = append(cols, it.name)
	}
	return cols, p.run(s, nil), true
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func lex(q string) []tok {
	var out []tok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < len(q) && q[i+1] == '-':
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"' || c == '`':
			k := i + 1
			for k < len(q) && q[k] != c {
				k++
			}
			if k >= len(q) || k+1 < len(q) && q[k+1] == c {
				panic(unsupported{"quote"})
			}
			kind := byte('q')
			if c == '\'' {
				kind = 's'
			}
			out = append(out, tok{q[i+1 : k], kind})
			i = k + 1
		case isWord(c):
			k := i
			for k < len(q) && isWord(q[k]) {
				k++
			}
			kind := byte('w')
			if c >= '0' && c <= '9' {
				kind = 'n'
			}
			out = append(out, tok{q[i:k], kind})
			i = k
		case c == '$':
			k := i + 1
			for k < len(q) && q[k] >= '0' && q[k] <= '9' {
				k++
			}
			out = append(out, tok{q[i:k], 'p'})
			i = k
		default:
			n := 1
			if i+1 < len(q) {
				switch q[i : i+2] {
				case "<=", ">=", "<>", "!=", "::", "||":
					n = 2
				}
			}
			out = append(out, tok{q[i : i+n], 'p'})
			i += n
		}
	}
	return out
}

func (p *parser) is(s string) bool {
	if p.i >= len(p.toks) {
		return false
	}
	t := p.toks[p.i]
	return (t.kind == 'w' || t.kind == 'p') && strings.EqualFold(t.s, s)
}

func (p *parser) next(s string) bool {
	if p.i+1 >= len(p.toks) {
		return false
	}
	t := p.toks[p.i+1]
	return (t.kind == 'w' || t.kind == 'p') && strings.EqualFold(t.s, s)
}

func (p *parser) eat(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}

func (p *parser) want(s string) {
	if !p.eat(s) {
		panic(unsupported{"expected " + s})
	}
}

func (p *parser) name() string {
	if p.i < len(p.toks) && (p.toks[p.i].kind == 'w' || p.toks[p.i].kind == 'q') {
		p.i++
		return p.toks[p.i-1].s
	}
	panic(unsupported{"name"})
}

var keywords = map[string]bool{"from": true, "where": true, "order": true, "on": true, "inner": true, "left": true, "join": true, "cross": true, "as": true, "and": true, "or": true, "group": true, "limit": true, "union": true, "having": true, "right": true, "full": true, "asc": true, "desc": true, "natural": true, "using": true, "with": true, "offset": true, "for": true, "in": true, "is": true, "not": true, "like": true, "between": true, "nulls": true, "collate": true}

func (p *parser) alias() string {
	if p.eat("as") {
		return p.name()
	}
	if p.i < len(p.toks) && (p.toks[p.i].kind == 'q' || p.toks[p.i].kind == 'w' && !keywords[strings.ToLower(p.toks[p.i].s)]) {
		return p.name()
	}
	return ""
}

func (p *parser) sel() *sel {
	p.want("select")
	s := &sel{distinct: p.eat("distinct")}
	for {
		start := p.i
		it := item{e: p.or()}
		it.name = p.alias()
		if it.name == "" && p.i > start {
			it.name = p.toks[p.i-1].s
		}
		s.items = append(s.items, it)
		if !p.eat(",") {
			break
		}
	}
	if p.eat("from") {
		s.from = append(s.from, p.source())
		for {
			if p.eat(",") || p.is("cross") {
				if p.eat("cross") {
					p.want("join")
				}
				s.from = append(s.from, p.source())
				continue
			}
			left := false
			switch {
			case p.is("inner"):
				p.i++
			case p.is("left"):
				p.i++
				p.eat("outer")
				left = true
			case p.is("join"):
			default:
				goto joined
			}
			p.want("join")
			src := p.source()
			src.left = left
			p.want("on")
			src.on = p.or()
			s.from = append(s.from, src)
		}
	}
joined:
	if p.eat("where") {
		s.where = p.or()
	}
	if p.is("order") {
		p.i++
		p.want("by")
		for {
			var e expr
			n := -1
			if p.i < len(p.toks) && !p.next(".") && !p.next("(") {
				for k, it := range s.items {
					if strings.EqualFold(it.name, p.toks[p.i].s) && p.toks[p.i].kind != 's' {
						n = k
					}
				}
			}
			if n >= 0 {
				e = s.items[n].e
				p.i++
			} else {
				if p.toks[p.i].kind == 'n' {
					panic(unsupported{"order by position"})
				}
				e = p.or()
			}
			s.order = append(s.order, e)
			d := p.eat("desc")
			if !d {
				p.eat("asc")
			}
			s.desc = append(s.desc, d)
			if !p.eat(",") {
				break
			}
		}
	}
	return s
}

func (p *parser) source() source {
	if p.is("(") || p.is("lateral") {
		panic(unsupported{"derived table"})
	}
	n := p.name()
	if p.eat(".") {
		n += "." + p.name()
	}
	var s source
	if p.eat("(") {
		args := p.list()
		fn := strings.ToLower(n)
		s.fn = func(e *env) any { return p.call(fn, args, e) }
		s.name = p.alias()
		if s.name == "" {
			s.name = fn
		}
		if p.is("(") || p.is("with") {
			panic(unsupported{"columns of a function"})
		}
		return s
	}
	if k := strings.LastIndexByte(n, '.'); k >= 0 && p.db.Tables[strings.ToLower(n)] == nil && strings.EqualFold(n[:k], "pg_catalog") {
		n = n[k+1:]
	}
	s.table = p.db.Tables[strings.ToLower(n)]
	if s.table == nil {
		panic(unsupported{"table " + n})
	}
	s.name = p.alias()
	if s.name == "" {
		s.name = n[strings.LastIndexByte(n, '.')+1:]
	}
	return s
}

func (p *parser) list() []expr {
	var out []expr
	if p.eat(")") {
		return nil
	}
	for {
		out = append(out, p.or())
		if p.eat(")") {
			return out
		}
		p.want(",")
	}
}

func (p *parser) or() expr {
	a := p.and()
	for p.eat("or") {
		l, r := a, p.and()
		a = func(e *env) any {
			x, y := l(e), r(e)
			if x == true || y == true {
				return true
			}
			if x == nil || y == nil {
				return nil
			}
			return false
		}
	}
	return a
}

func (p *parser) and() expr {
	a := p.not()
	for p.eat("and") {
		l, r := a, p.not()
		a = func(e *env) any {
			x := l(e)
			if x == false {
				return false
			}
			y := r(e)
			if y == false {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}
	}
	return a
}

func negate(x any) any {
	if b, ok := x.(bool); ok {
		return !b
	}
	return nil
}

func (p *parser) not() expr {
	if p.eat("not") {
		a := p.not()
		return func(e *env) any { return negate(a(e)) }
	}
	return p.cmp()
}

func same(a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	return order(a, b) == 0
}

func order(a, b any) int {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			if x < y {
				return -1
			}
			if x == y {
				return 0
			}
			return 1
		}
	case int64:
		if y, ok := b.(int64); ok {
			if x < y {
				return -1
			}
			if x == y {
				return 0
			}
			return 1
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0
			}
			if y {
				return -1
			}
			return 1
		}
	}
	panic(unsupported{"comparison"})
}

func (p *parser) cmp() expr {
	a := p.add()
	for {
		for _, op := range []string{"=", "<>", "!=", "<=", ">=", "<", ">"} {
			if !p.is(op) {
				continue
			}
			p.i++
			l := a
			if p.is("any") && p.next("(") {
				if op != "=" {
					panic(unsupported{"any"})
				}
				p.i += 2
				arr := p.or()
				p.want(")")
				a = func(e *env) any {
					v, list := l(e), arr(e)
					if v == nil || list == nil {
						return nil
					}
					for _, x := range list.(Array).V {
						if same(v, x) == true {
							return true
						}
					}
					return false
				}
				goto again
			}
			r, o := p.add(), op
			a = func(e *env) any {
				x, y := l(e), r(e)
				if x == nil || y == nil {
					return nil
				}
				c := order(x, y)
				switch o {
				case "=":
					return c == 0
				case "<>", "!=":
					return c != 0
				case "<=":
					return c <= 0
				case ">=":
					return c >= 0
				case "<":
					return c < 0
				}
				return c > 0
			}
			goto again
		}
		if p.is("is") {
			p.i++
			neg := p.eat("not")
			l := a
			switch {
			case p.eat("null"):
				a = func(e *env) any { return (l(e) == nil) != neg }
			case p.eat("true"):
				a = func(e *env) any { return (l(e) == true) != neg }
			case p.eat("false"):
				a = func(e *env) any { return (l(e) == false) != neg }
			default:
				panic(unsupported{"is"})
			}
			continue
		}
		if p.is("in") || p.is("not") && p.next("in") {
			neg := p.eat("not")
			p.want("in")
			p.want("(")
			l := a
			var list func(e *env) []any
			if p.is("select") {
				s := p.sel()
				p.want(")")
				list = func(e *env) []any {
					var out []any
					for _, r := range p.run(s, e) {
						out = append(out, r[0])
					}
					return out
				}
			} else {
				es := p.list()
				list = func(e *env) []any {
					var out []any
					for _, x := range es {
						out = append(out, x(e))
					}
					return out
				}
			}
			a = func(e *env) any {
				v := l(e)
				if v == nil {
					return nil
				}
				unknown := false
				for _, x := range list(e) {
					if x == nil {
						unknown = true
					} else if same(v, x) == true {
						return !neg
					}
				}
				if unknown {
					return nil
				}
				return neg
			}
			continue
		}
		return a
	again:
	}
}

func (p *parser) add() expr {
	a := p.prim()
	for {
		switch {
		case p.is("+") || p.is("-"):
			sign := int64(1)
			if p.is("-") {
				sign = -1
			}
			p.i++
			l, r := a, p.prim()
			a = func(e *env) any {
				x, y := l(e), r(e)
				if x == nil || y == nil {
					return nil
				}
				return x.(int64) + sign*y.(int64)
			}
		case p.is("::"):
			p.i++
			t := strings.ToLower(p.name())
			if t != "text" && t != "varchar" && t != "name" && t != "boolean" && t != "bool" {
				panic(unsupported{"cast"})
			}
			if p.is("[") {
				p.i++
				p.want("]")
			}
		case p.is("["):
			p.i++
			l, x := a, p.or()
			p.want("]")
			a = func(e *env) any {
				arr, k := l(e), x(e)
				if arr == nil || k == nil {
					return nil
				}
				i := k.(int64) - arr.(Array).Lo
				if i < 0 || i >= int64(len(arr.(Array).V)) {
					return nil
				}
				return arr.(Array).V[i]
			}
		case p.is("collate"):
			panic(unsupported{"collate"})
		default:
			return a
		}
	}
}

func (p *parser) prim() expr {
	if p.i >= len(p.toks) {
		panic(unsupported{"end"})
	}
	t := p.toks[p.i]
	switch {
	case t.kind == 's':
		p.i++
		return func(*env) any { return t.s }
	case t.kind == 'n':
		p.i++
		n := int64(0)
		for k := 0; k < len(t.s); k++ {
			if t.s[k] < '0' || t.s[k] > '9' {
				panic(unsupported{"number"})
			}
			n = n*10 + int64(t.s[k]-'0')
		}
		return func(*env) any { return n }
	case t.s == "-" && t.kind == 'p':
		p.i++
		a := p.prim()
		return func(e *env) any { return -a(e).(int64) }
	case t.s == "?" && t.kind == 'p':
		p.i++
		if p.argi >= len(p.args) {
			panic(unsupported{"argument"})
		}
		v := p.args[p.argi]
		p.argi++
		return func(*env) any { return v }
	case t.kind == 'p' && len(t.s) > 1 && t.s[0] == '$':
		p.i++
		n := 0
		for k := 1; k < len(t.s); k++ {
			n = n*10 + int(t.s[k]-'0')
		}
		if n < 1 || n > len(p.args) {
			panic(unsupported{"argument"})
		}
		v := p.args[n-1]
		return func(*env) any { return v }
	case p.is("("):
		p.i++
		if p.is("select") {
			s := p.sel()
			p.want(")")
			return func(e *env) any {
				r := p.run(s, e)
				if len(r) == 0 {
					return nil
				}
				if len(r) > 1 {
					panic(unsupported{"several rows"})
				}
				return r[0][0]
			}
		}
		a := p.or()
		p.want(")")
		return a
	case p.is("array") && p.next("("):
		p.i += 2
		s := p.sel()
		p.want(")")
		return func(e *env) any {
			out := Array{Lo: 1}
			for _, r := range p.run(s, e) {
				out.V = append(out.V, r[0])
			}
			return out
		}
	case p.is("exists") && p.next("("):
		p.i += 2
		s := p.sel()
		p.want(")")
		return func(e *env) any { return len(p.run(s, e)) > 0 }
	case p.is("true"):
		p.i++
		return func(*env) any { return true }
	case p.is("false"):
		p.i++
		return func(*env) any { return false }
	case p.is("null"):
		p.i++
		return func(*env) any { return nil }
	case p.is("case") || p.is("cast") || p.is("interval"):
		panic(unsupported{t.s})
	}
	n := p.name()
	if p.is("(") {
		p.i++
		args := p.list()
		fn := strings.ToLower(n)
		return func(e *env) any { return p.call(fn, args, e) }
	}
	q := ""
	for p.eat(".") {
		q, n = n, p.name()
		if p.is("(") {
			p.i++
			args := p.list()
			fn := strings.ToLower(n)
			return func(e *env) any { return p.call(fn, args, e) }
		}
	}
	return func(e *env) any {
		for ; e != nil; e = e.up {
			for i := len(e.scopes) - 1; i >= 0; i-- {
				s := e.scopes[i]
				if q != "" && !strings.EqualFold(q, s.name) {
					continue
				}
				for k, c := range s.cols {
					if strings.EqualFold(c, n) {
						if s.row == nil {
							return nil
						}
						return s.row[k]
					}
				}
			}
		}
		panic(unsupported{"column " + q + "." + n})
	}
}

func (p *parser) call(fn string, args []expr, e *env) any {
	var vs []any
	for _, a := range args {
		vs = append(vs, a(e))
	}
	switch fn {
	case "coalesce", "ifnull":
		for _, v := range vs {
			if v != nil {
				return v
			}
		}
		return nil
	case "lower":
		if s, ok := vs[0].(string); ok {
			return strings.ToLower(s)
		}
		return nil
	case "generate_subscripts":
		out := Array{Lo: 1}
		if a, ok := vs[0].(Array); ok {
			for i := range a.V {
				out.V = append(out.V, a.Lo+int64(i))
			}
		}
		return out
	}
	if p.db.Func != nil {
		if v, ok := p.db.Func(fn, vs); ok {
			return v
		}
	}
	panic(unsupported{"function " + fn})
}

func (p *parser) run(s *sel, up *env) [][]any {
	rows := []*env{{up: up}}
	for _, src := range s.from {
		var next []*env
		for _, e := range rows {
			var cand []scope
			if src.fn != nil {
				for _, v := range src.fn(e).(Array).V {
					cand = append(cand, scope{src.name, []string{src.name}, []any{v}})
				}
			} else {
				for _, r := range src.table.Rows {
					cand = append(cand, scope{src.name, src.table.Cols, r})
				}
			}
			any := false
			for _, c := range cand {
				n := &env{append(append([]scope{}, e.scopes...), c), up}
				if src.on != nil && src.on(n) != true {
					continue
				}
				any = true
				next = append(next, n)
			}
			if !any && src.left {
				var cols []string
				if src.table != nil {
					cols = src.table.Cols
				} else {
					cols = []string{src.name}
				}
				next = append(next, &env{append(append([]scope{}, e.scopes...), scope{src.name, cols, nil}), up})
			}
		}
		rows = next
	}
	var out [][]any
	var keys [][]any
	for i := len(rows) - 1; i >= 0; i-- {
		e := rows[i]
		if s.where != nil && s.where(e) != true {
			continue
		}
		var r, k []any
		for _, it := range s.items {
			r = append(r, it.e(e))
		}
		for _, o := range s.order {
			k = append(k, o(e))
		}
		if s.distinct {
			dup := false
			for _, x := range out {
				eq := true
				for c := range x {
					if x[c] == nil || r[c] == nil {
						eq = eq && x[c] == nil && r[c] == nil
					} else {
						eq = eq && order(x[c], r[c]) == 0
					}
				}
				dup = dup || eq
			}
			if dup {
				continue
			}
		}
		at := len(out)
		for at > 0 && before(k, keys[at-1], s.desc) {
			at--
		}
		out = append(out, nil)
		keys = append(keys, nil)
		copy(out[at+1:], out[at:])
		copy(keys[at+1:], keys[at:])
		out[at], keys[at] = r, k
	}
	return out
}

func before(a, b []any, desc []bool) bool {
	for i := range a {
		if a[i] == nil || b[i] == nil {
			continue
		}
		c := order(a[i], b[i])
		if desc[i] {
			c = -c
		}
		if c != 0 {
			return c < 0
		}
	}
	return false
}

// Text is an array as PostgreSQL writes it.
func (a Array) Text() string {
	s := "{"
	for i, v := range a.V {
		if i > 0 {
			s += ","
		}
		if v == nil {
			s += "NULL"
			continue
		}
		s += `"` + strings.ReplaceAll(strings.ReplaceAll(v.(string), `\`, `\\`), `"`, `\"`) + `"`
	}
	return s + "}"
}
