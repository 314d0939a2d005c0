// Package vfquery describes queries, independently of any parser: their text,
// and which columns of which tables they use.
package vfquery

import (
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

type Query struct {
	Fields []Field
	Unique []*Expr // DISTINCT ON
	From   []Item
	Where  *Expr
	Group  []*Expr
	Having *Expr
	Order  []*Expr
	Limit  bool
	Offset bool
	Count  *Expr // of LIMIT and OFFSET, instead of numbers
	Skip   *Expr
}

type Field struct {
	E    *Expr
	As   string
	Star bool // *, or Of.*
	Of   string
}

// Item is a table or a subquery in FROM; Join says how it follows the ones before.
type Item struct {
	Join    string // "," "JOIN" "LEFT JOIN" "CROSS JOIN"
	Table   string
	Sub     *Query
	As      string
	Lateral bool
	On      *Expr
	Using   string // columns of one character
	Natural bool
	Group   []Item // in parentheses, instead of a table
}

func (i *Item) Name() string {
	if i.As != "" {
		return i.As
	}
	return i.Table
}

// Expr is an expression: Parts are the texts around the arguments.
type Expr struct {
	Kind  string
	Parts []string
	Args  []*Expr
	Tab   string // of a column
	Col   string
	Sub   *Query // text follows the arguments
}

func Col(tab, col string) *Expr { return &Expr{Kind: "col", Tab: tab, Col: col} }
func Num() *Expr                { return &Expr{Kind: "num"} }

func (e *Expr) Text() string {
	switch e.Kind {
	case "col":
		if e.Tab != "" {
			return e.Tab + "." + e.Col
		}
		return e.Col
	case "num":
		return "1"
	}
	s := ""
	n := 0
	for i, p := range e.Parts {
		s += p
		if i == len(e.Parts)-1 {
			break
		}
		if n < len(e.Args) {
			s += e.Args[n].Text()
			n++
		} else {
			s += e.Sub.Text()
		}
	}
	return s
}

func list(es []*Expr) string {
	s := ""
	for i, e := range es {
		if i > 0 {
			s += ", "
		}
		s += e.Text()
	}
	return s
}

func from(items []Item) string {
	s := ""
	for i, t := range items {
		if i > 0 {
			if t.Join == "," {
				s += ", "
			} else {
				if t.Natural {
					s += " NATURAL"
				}
				s += " " + t.Join + " "
			}
		}
		if t.Lateral {
			s += "LATERAL "
		}
		switch {
		case t.Group != nil:
			s += "(" + from(t.Group) + ")"
		case t.Sub != nil:
			s += "(" + t.Sub.Text() + ")"
		default:
			s += t.Table
		}
		if t.As != "" {
			s += " AS " + t.As
		}
		if t.On != nil {
			s += " ON " + t.On.Text()
		}
		if t.Using != "" {
			s += " USING ("
			for j := 0; j < len(t.Using); j++ {
				if j > 0 {
					s += ", "
				}
				s += t.Using[j : j+1]
			}
			s += ")"
		}
	}
	return s
}

func (q *Query) Text() string {
	s := "SELECT "
	if len(q.Unique) > 0 {
		s += "DISTINCT ON (" + list(q.Unique) + ") "
	}
	for i, f := range q.Fields {
		if i > 0 {
			s += ", "
		}
		switch {
		case f.Star && f.Of != "":
			s += f.Of + ".*"
		case f.Star:
			s += "*"
		default:
			s += f.E.Text()
		}
		if f.As != "" {
			s += " AS " + f.As
		}
	}
	if len(q.From) > 0 {
		s += " FROM " + from(q.From)
	}
	if q.Where != nil {
		s += " WHERE " + q.Where.Text()
	}
	if len(q.Group) > 0 {
		s += " GROUP BY " + list(q.Group)
	}
	if q.Having != nil {
		s += " HAVING " + q.Having.Text()
	}
	if len(q.Order) > 0 {
		s += " ORDER BY " + list(q.Order)
	}
	if q.Count != nil {
		s += " LIMIT " + q.Count.Text()
	}
	if q.Skip != nil {
		s += " OFFSET " + q.Skip.Text()
	}
	if q.Limit {
		s += " LIMIT 1"
	}
	if q.Offset {
		s += " OFFSET 2"
	}
	return s
}

// Analysis resolves the columns of a query.
type Analysis struct {
	Uses []*vfspec.Use
	Deep bool // the columns subqueries use count
	Bad  bool // a column or table that does not exist
}

type base struct{ tab, col string }

// out is a column of a table or subquery, with the columns it stands for.
type out struct {
	name  string
	bases []base
}

type scope struct {
	items []rel
	outer *scope
}

type rel struct {
	name string
	cols []out
}

func (a *Analysis) use(t string) *vfspec.Use {
	for _, u := range a.Uses {
		if u.Table == t {
			return u
		}
	}
	return nil
}

func (s *scope) find(tab, col string) ([]base, bool) {
	for ; s != nil; s = s.outer {
		for _, r := range s.items {
			if tab != "" && r.name != tab {
				continue
			}
			for _, c := range r.cols {
				if c.name == col {
					return c.bases, true
				}
			}
			if tab != "" {
				return nil, false
			}
		}
	}
	return nil, false
}

func (a *Analysis) expr(e *Expr, s *scope, cond bool) []base {
	if e == nil {
		return nil
	}
	if e.Kind == "col" {
		bs, ok := s.find(e.Tab, e.Col)
		if !ok {
			a.Bad = true
		}
		for _, b := range bs {
			a.use(b.tab).Mention(b.col, cond)
		}
		return bs
	}
	var res []base
	for _, x := range e.Args {
		res = append(res, a.expr(x, s, cond)...)
	}
	if e.Sub != nil && a.Deep {
		a.Query(e.Sub, s)
	}
	return res
}

func (a *Analysis) ons(items []Item, s *scope) {
	for _, t := range items {
		a.expr(t.On, s, true)
		a.ons(t.Group, s)
	}
}

// from adds the tables of a FROM to a scope.
func (a *Analysis) from(items []Item, s, outer *scope) {
	chain := len(s.items) // where the tables joined with each other start
	for i := range items {
		t := &items[i]
		if t.Join == "," {
			chain = len(s.items)
		}
		before := len(s.items)
		if t.Group != nil {
			a.from(t.Group, s, outer)
		} else {
			a.item(t, s, outer)
		}
		left := &scope{items: s.items[chain:before]}
		right := &scope{items: s.items[before:]}
		same := t.Using
		if t.Natural {
			for _, r := range left.items {
				for _, c := range r.cols {
					if _, ok := right.find("", c.name); ok {
						same += c.name
					}
				}
			}
		}
		for j := 0; j < len(same); j++ {
			a.expr(Col("", same[j:j+1]), left, true)
			a.expr(Col("", same[j:j+1]), right, true)
		}
	}
}

func (a *Analysis) item(t *Item, s, outer *scope) {
	r := rel{name: t.Name()}
	if t.Sub != nil {
		if !a.Deep {
			return
		}
		o := outer
		if t.Lateral {
			o = &scope{items: append([]rel{}, s.items...), outer: outer}
		}
		r.cols = a.Query(t.Sub, o)
	} else {
		u := a.use(t.Table)
		if u == nil {
			a.Bad = true
			return
		}
		for _, c := range u.All {
			r.cols = append(r.cols, out{name: c, bases: []base{{t.Table, c}}})
		}
	}
	s.items = append(s.items, r)
}

// Query records what the query uses and gives its columns.
func (a *Analysis) Query(q *Query, outer *scope) []out {
	s := &scope{outer: outer}
	a.from(q.From, s, outer)
	var outs []out
	for _, f := range q.Fields {
		if f.Star {
			found := f.Of == ""
			for _, r := range s.items {
				if f.Of == "" || f.Of == r.name {
					outs = append(outs, r.cols...)
					found = true
				}
			}
			if !found {
				a.Bad = true
			}
			continue
		}
		bs := a.expr(f.E, s, false)
		n := f.As
		if n == "" && f.E.Kind == "col" {
			n = f.E.Col
		}
		if n != "" {
			outs = append(outs, out{name: n, bases: bs})
		}
	}
	a.ons(q.From, s)
	for _, e := range q.Unique {
		a.expr(e, s, false)
	}
	a.expr(q.Where, s, true)
	for _, e := range q.Group {
		a.expr(e, s, false)
	}
	a.expr(q.Having, s, false)
	for _, e := range q.Order {
		a.expr(e, s, false)
	}
	a.expr(q.Count, s, false)
	a.expr(q.Skip, s, false)
	return outs
}

// Kind is a form of expression: the texts around its N arguments, and the
// subquery if Sub.
type Kind struct {
	Name  string
	Parts []string
	N     int
	Sub   bool
	Agg   bool // not allowed everywhere
}

// Make gives an expression of a kind on arguments.
func (k Kind) Make(args []*Expr, sub *Query) *Expr {
	return &Expr{Kind: k.Name, Parts: k.Parts, Args: args, Sub: sub}
}

// Leaf is a column of one of two tables, "x" and "tb", or a number.
func Leaf(any bool) *Expr {
	n := 2
	if any {
		n = 4
	}
	switch vsym.Choice(n) {
	case 0:
		return Col("x", vsym.StringOf("abc", 1, 1))
	case 1:
		return Num()
	case 2:
		return Col("", vsym.StringOf("bcd", 1, 1))
	}
	return Col("tb", vsym.StringOf("ad", 1, 1))
}
