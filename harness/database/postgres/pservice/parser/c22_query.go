package parser

//vsym:use internal/vfdb/db.go
//vsym:use internal/vfsql/sql.go
//vsym:use internal/vfspec/index.go
//vsym:use internal/vfquery/query.go

import (
	"errors"

	pparser "github.com/auxten/postgresql-parser/pkg/sql/parser"
	"github.com/auxten/postgresql-parser/pkg/sql/sem/tree"
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vfquery"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vfsql"
	"github.com/mrasu/GravityR/internal/vsym"
)

var vf_kinds = []vfquery.Kind{
	{Name: "eq", Parts: []string{"", " = ", ""}, N: 2},
	{Name: "and", Parts: []string{"(", " AND ", ")"}, N: 2},
	{Name: "or", Parts: []string{"(", " OR ", ")"}, N: 2},
	{Name: "plus", Parts: []string{"(", " + ", ")"}, N: 2},
	{Name: "between", Parts: []string{"(", " BETWEEN ", " AND ", ")"}, N: 3},
	{Name: "case", Parts: []string{"CASE ", " WHEN ", " THEN ", " ELSE ", " END"}, N: 4},
	{Name: "casewhen", Parts: []string{"CASE WHEN ", " THEN ", " WHEN ", " THEN ", " END"}, N: 4},
	{Name: "in", Parts: []string{"", " IN (", ", ", ")"}, N: 3},
	{Name: "insub", Parts: []string{"", " IN (", ")"}, N: 1, Sub: true},
	{Name: "exists", Parts: []string{"EXISTS (", ")"}, N: 0, Sub: true},
	{Name: "anysub", Parts: []string{"", " = ANY (", ")"}, N: 1, Sub: true},
	{Name: "sub", Parts: []string{"(", ")"}, N: 0, Sub: true},
	{Name: "isnull", Parts: []string{"", " IS NULL"}, N: 1},
	{Name: "like", Parts: []string{"", " LIKE ", ""}, N: 2},
	{Name: "regexp", Parts: []string{"", " ~ ", ""}, N: 2},
	{Name: "paren", Parts: []string{"(", ")"}, N: 1},
	{Name: "row", Parts: []string{"(", ", ", ") = (", ", 1)"}, N: 3},
	{Name: "not", Parts: []string{"NOT ", ""}, N: 1},
	{Name: "neg", Parts: []string{"- ", ""}, N: 1},
	{Name: "func", Parts: []string{"CONCAT(", ", ", ")"}, N: 2},
	{Name: "nullif", Parts: []string{"NULLIF(", ", ", ")"}, N: 2},
	{Name: "coalesce", Parts: []string{"COALESCE(", ", ", ")"}, N: 2},
	{Name: "array", Parts: []string{"ARRAY[", ", ", "]"}, N: 2},
	{Name: "cast", Parts: []string{"CAST(", " AS TEXT)"}, N: 1},
	{Name: "collate", Parts: []string{"(", " COLLATE \"C\")"}, N: 1},
	{Name: "star", Parts: []string{"COUNT(*)"}, N: 0, Agg: true},
	{Name: "agg", Parts: []string{"COUNT(DISTINCT ", ") FILTER (WHERE ", ")"}, N: 2, Agg: true},
	{Name: "aggorder", Parts: []string{"ARRAY_AGG(", " ORDER BY ", ")"}, N: 2, Agg: true},
	{Name: "win", Parts: []string{"LAG(", ") OVER (PARTITION BY ", " ORDER BY ", ")"}, N: 3, Agg: true},
	{Name: "winframe", Parts: []string{"SUM(", ") OVER (ORDER BY ", " ROWS BETWEEN 1 PRECEDING AND 1 FOLLOWING)"}, N: 2, Agg: true},
	{Name: "winstart", Parts: []string{"SUM(", ") OVER (ORDER BY ", " ROWS 1 PRECEDING)"}, N: 2, Agg: true},
}

// Forms with many operands.
var vf_long = []vfquery.Kind{
	{Name: "func", Parts: []string{"CONCAT(", ", ", ", ", ", ", ", ", ", ", ")"}, N: 6},
	{Name: "in", Parts: []string{"", " IN (", ", ", ", ", ", ", ", ", ", ", ", ", ")"}, N: 8},
	{Name: "casewhenelse", Parts: []string{"CASE WHEN ", " THEN ", " WHEN ", " THEN ", " WHEN ", " THEN ", " ELSE ", " END"}, N: 7},
	{Name: "casewhenelse", Parts: []string{"CASE WHEN ", " THEN ", " ELSE ", " END"}, N: 3},
	{Name: "array", Parts: []string{"ARRAY[", ", ", ", ", ", ", ", ", "]"}, N: 5},
	{Name: "coalesce", Parts: []string{"COALESCE(", ", ", ", ", ", ", ", ", ")"}, N: 5},
	{Name: "winmany", Parts: []string{"LAG(", ") OVER (PARTITION BY ", ", ", " ORDER BY ", ", ", ")"}, N: 5, Agg: true},
	{Name: "winall", Parts: []string{"COUNT(", ") FILTER (WHERE ", ") OVER (ORDER BY ", ")"}, N: 3, Agg: true},
}

// Forms that may be refused.
var vf_maybe = []vfquery.Kind{
	{Name: "subscript", Parts: []string{"(", ")[", "]"}, N: 2},
	{Name: "slice", Parts: []string{"(", ")[", ":", "]"}, N: 3},
	{Name: "flatten", Parts: []string{"ARRAY(", ")"}, N: 0, Sub: true},
	{Name: "param", Parts: []string{"($1 + ", ")"}, N: 1},
	{Name: "isoftype", Parts: []string{"", " IS OF (INT)"}, N: 1},
}

func vf_expr(e *vfquery.Expr) tree.Expr {
	if e == nil {
		return nil
	}
	var a tree.Exprs
	for _, x := range e.Args {
		a = append(a, vf_expr(x))
	}
	var sub *tree.Subquery
	if e.Sub != nil {
		sub = &tree.Subquery{Select: &tree.ParenSelect{Select: vf_select(e.Sub)}}
	}
	switch e.Kind {
	case "col":
		return vf_col(e.Tab, e.Col)
	case "num":
		return &tree.NumVal{}
	case "eq", "like", "regexp":
		return &tree.ComparisonExpr{Left: a[0], Right: a[1]}
	case "and":
		return &tree.ParenExpr{Expr: &tree.AndExpr{Left: a[0], Right: a[1]}}
	case "or":
		return &tree.ParenExpr{Expr: &tree.OrExpr{Left: a[0], Right: a[1]}}
	case "plus":
		return &tree.ParenExpr{Expr: &tree.BinaryExpr{Left: a[0], Right: a[1]}}
	case "between":
		return &tree.RangeCond{Left: a[0], From: a[1], To: a[2]}
	case "case":
		return &tree.CaseExpr{Expr: a[0], Whens: []*tree.When{{Cond: a[1], Val: a[2]}}, Else: a[3]}
	case "casewhen":
		return &tree.CaseExpr{Whens: []*tree.When{{Cond: a[0], Val: a[1]}, {Cond: a[2], Val: a[3]}}}
	case "in":
		return &tree.ComparisonExpr{Left: a[0], Right: &tree.Tuple{Exprs: a[1:]}}
	case "casewhenelse":
		c := &tree.CaseExpr{Else: a[len(a)-1]}
		for i := 0; i+1 < len(a); i += 2 {
			c.Whens = append(c.Whens, &tree.When{Cond: a[i], Val: a[i+1]})
		}
		return c
	case "winmany":
		return &tree.FuncExpr{Exprs: a[:1], WindowDef: &tree.WindowDef{Partitions: a[1:3], OrderBy: vf_order(e.Args[3:])}}
	case "winall":
		return &tree.FuncExpr{Exprs: a[:1], Filter: a[1], WindowDef: &tree.WindowDef{OrderBy: vf_order(e.Args[2:])}}
	case "subscript":
		return &tree.IndirectionExpr{Expr: &tree.ParenExpr{Expr: a[0]}, Indirection: tree.ArraySubscripts{{Begin: a[1]}}}
	case "slice":
		return &tree.IndirectionExpr{Expr: &tree.ParenExpr{Expr: a[0]}, Indirection: tree.ArraySubscripts{{Begin: a[1], End: a[2], Slice: true}}}
	case "flatten":
		return &tree.ArrayFlatten{Subquery: sub}
	case "param":
		return &tree.ParenExpr{Expr: &tree.BinaryExpr{Left: &tree.Placeholder{}, Right: a[0]}}
	case "isoftype":
		return &tree.IsOfTypeExpr{Expr: a[0]}
	case "insub", "anysub":
		return &tree.ComparisonExpr{Left: a[0], Right: sub}
	case "exists":
		sub.Exists = true
		return sub
	case "sub":
		return sub
	case "isnull":
		return &tree.ComparisonExpr{Left: a[0], Right: tree.DNull}
	case "paren":
		return &tree.ParenExpr{Expr: a[0]}
	case "row":
		return &tree.ComparisonExpr{Left: &tree.Tuple{Exprs: tree.Exprs{a[0], a[1]}}, Right: &tree.Tuple{Exprs: tree.Exprs{a[2], &tree.NumVal{}}}}
	case "not":
		return &tree.NotExpr{Expr: a[0]}
	case "neg":
		return &tree.UnaryExpr{Expr: a[0]}
	case "func":
		return &tree.FuncExpr{Exprs: a}
	case "nullif":
		return &tree.NullIfExpr{Expr1: a[0], Expr2: a[1]}
	case "coalesce":
		return &tree.CoalesceExpr{Exprs: a}
	case "array":
		return &tree.Array{Exprs: a}
	case "cast":
		return &tree.CastExpr{Expr: a[0]}
	case "collate":
		return &tree.CollateExpr{Expr: a[0], Locale: "C"}
	case "star":
		return &tree.FuncExpr{Exprs: tree.Exprs{tree.UnqualifiedStar{}}}
	case "agg":
		return &tree.FuncExpr{Exprs: a[:1], Filter: a[1]}
	case "aggorder":
		return &tree.FuncExpr{Exprs: a[:1], OrderBy: vf_order(e.Args[1:])}
	case "win":
		return &tree.FuncExpr{Exprs: a[:1], WindowDef: &tree.WindowDef{Partitions: a[1:2], OrderBy: vf_order(e.Args[2:])}}
	case "winframe", "winstart":
		f := &tree.WindowFrame{Bounds: tree.WindowFrameBounds{StartBound: &tree.WindowFrameBound{OffsetExpr: &tree.NumVal{}}}}
		if e.Kind == "winframe" {
			f.Bounds.EndBound = &tree.WindowFrameBound{OffsetExpr: &tree.NumVal{}}
		}
		return &tree.FuncExpr{Exprs: a[:1], WindowDef: &tree.WindowDef{OrderBy: vf_order(e.Args[1:]), Frame: f}}
	}
	panic(e.Kind)
}

func vf_col(tab, col string) *tree.UnresolvedName {
	n := &tree.UnresolvedName{NumParts: 1}
	n.Parts[0] = col
	if tab != "" {
		n.NumParts, n.Parts[1] = 2, tab
	}
	return n
}

func vf_order(es []*vfquery.Expr) tree.OrderBy {
	var o tree.OrderBy
	for _, e := range es {
		o = append(o, &tree.Order{Expr: vf_expr(e)})
	}
	return o
}

// vf_select builds what the parser makes of the text of a query.
func vf_select(q *vfquery.Query) *tree.Select {
	c := &tree.SelectClause{}
	s := &tree.Select{Select: c, OrderBy: vf_order(q.Order)}
	for _, f := range q.Fields {
		x := tree.SelectExpr{As: tree.UnrestrictedName(f.As)}
		switch {
		case f.Star && f.Of != "":
			n := vf_col(f.Of, "")
			n.Star = true
			x.Expr = n
		case f.Star:
			x.Expr = tree.UnqualifiedStar{}
		default:
			x.Expr = vf_expr(f.E)
		}
		c.Exprs = append(c.Exprs, x)
	}
	c.From.Tables = vf_tables(q.From)
	for _, e := range q.Unique {
		c.DistinctOn = append(c.DistinctOn, vf_expr(e))
	}
	if q.Where != nil {
		c.Where = &tree.Where{Type: "WHERE", Expr: vf_expr(q.Where)}
	}
	for _, e := range q.Group {
		c.GroupBy = append(c.GroupBy, vf_expr(e))
	}
	if q.Having != nil {
		c.Having = &tree.Where{Type: "HAVING", Expr: vf_expr(q.Having)}
	}
	if q.Limit {
		s.Limit = &tree.Limit{Count: &tree.NumVal{}}
	}
	if q.Offset {
		s.Limit.Offset = &tree.NumVal{}
	}
	if q.Count != nil || q.Skip != nil {
		s.Limit = &tree.Limit{Count: vf_expr(q.Count), Offset: vf_expr(q.Skip)}
	}
	return s
}

func vf_tables(items []vfquery.Item) tree.TableExprs {
	var ts tree.TableExprs
	for _, t := range items {
		var x tree.TableExpr = &tree.AliasedTableExpr{Expr: vf_table("", t.Table), As: tree.AliasClause{Alias: tree.Name(t.As)}}
		if t.Group != nil {
			x = &tree.ParenTableExpr{Expr: vf_tables(t.Group)[0]}
		}
		if t.Sub != nil {
			x = &tree.AliasedTableExpr{
				Expr:    &tree.Subquery{Select: &tree.ParenSelect{Select: vf_select(t.Sub)}},
				As:      tree.AliasClause{Alias: tree.Name(t.As)},
				Lateral: t.Lateral,
			}
		}
		n := len(ts)
		if n == 0 || t.Join == "," {
			ts = append(ts, x)
			continue
		}
		j := &tree.JoinTableExpr{JoinType: t.Join, Left: ts[n-1], Right: x}
		if t.On != nil {
			j.Cond = &tree.OnJoinCond{Expr: vf_expr(t.On)}
		}
		if t.Using != "" {
			u := &tree.UsingJoinCond{}
			for i := 0; i < len(t.Using); i++ {
				u.Cols = append(u.Cols, tree.Name(t.Using[i:i+1]))
			}
			j.Cond = u
		}
		if t.Natural {
			j.Cond = tree.NaturalJoinCond{}
		}
		ts[n-1] = j
	}
	return ts
}

func vf_table(schema, name string) *tree.TableName {
	n := &tree.TableName{}
	n.TableName = tree.Name(name)
	n.SchemaName = tree.Name(schema)
	n.ExplicitSchema = schema != ""
	return n
}

type vf_catalog struct {
	us     []*vfspec.Use
	schema string
	bad    bool
}

func (c *vf_catalog) Exec(q string, args []any) error {
	c.bad = true
	return nil
}

func (c *vf_catalog) Query(q string, args []any) ([]string, [][]any, error) {
	if len(args) < 2 || args[0] != c.schema {
		return nil, nil, errors.New("unexpected")
	}
	var rows []vfsql.Row
	for _, u := range c.us {
		for _, a := range args[1:] {
			if a != u.Table {
				continue
			}
			for i, col := range u.All {
				r := vfsql.Row{"table_name": u.Table, "column_name": col, "is_pk": false, "attnum": i}
				for _, k := range u.PK {
					if k == col {
						r["is_pk"] = true
					}
				}
				rows = append(rows, r)
			}
			break
		}
	}
	cols, res := vfsql.Answer(q, rows)
	return cols, res, nil
}

func vf_list(us []*vfspec.Use, schema string, node tree.Statement, text string) ([]*dmodel.IndexTarget, []error) {
	stmt := &pparser.Statement{AST: node}
	if !vsym.Symbolic() {
		ns, err := pparser.Parse(text)
		if err != nil {
			panic("the text of a query is not valid: " + text + ": " + err.Error())
		}
		stmt = &ns[0]
	}
	c := &vf_catalog{us: us, schema: schema}
	its, errs := ListPossibleIndexes(postgres.NewDB(vfdb.Open("postgres", c)), schema, stmt)
	vsym.Assert(!c.bad, "listing indexes changes nothing")
	return its, errs
}

func vf_uses() []*vfspec.Use {
	return []*vfspec.Use{
		{Table: "ta", All: []string{"a", "b", "c"}, PK: []string{"a"}},
		{Table: "tb", All: []string{"a", "d"}},
	}
}

func vf_check(q *vfquery.Query) { vf_check2(q, false) }

// vf_check2 compares the suggestions for a query with what it uses.
func vf_check2(q *vfquery.Query, mayRefuse bool) { vf_check3(vf_uses(), q, mayRefuse) }

func vf_check3(us []*vfspec.Use, q *vfquery.Query, mayRefuse bool) {
	a := &vfquery.Analysis{Uses: us, Deep: true}
	a.Query(q, nil)
	text := ""
	var node tree.Statement
	if vsym.Symbolic() {
		node = vf_select(q)
	} else {
		text = q.Text()
	}
	its, errs := vf_list(us, "shop", node, text)
	vsym.Observe("n", len(its))
	if mayRefuse && len(errs) > 0 && len(its) == 0 {
		return
	}
	if a.Bad {
		vsym.Assert(len(errs) > 0 && len(its) == 0, "a query on unknown columns is an error")
		return
	}
	vsym.Assert(len(errs) == 0, "a query on known columns is analysed")
	vfspec.Sound(us, its)
	vfspec.Complete(us, its)
}

func vf_from() []vfquery.Item {
	return []vfquery.Item{{Table: "ta", As: "x"}, {Join: "CROSS JOIN", Table: "tb"}}
}

// Every form of expression in every clause.
func VerifC22_PostgresExpr() {
	k := vf_kinds[vsym.Choice(len(vf_kinds))]
	var args []*vfquery.Expr
	for i := 0; i < k.N; i++ {
		args = append(args, vfquery.Leaf(i == 0))
	}
	var sub *vfquery.Query
	if k.Sub {
		sub = &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "d")}}, From: []vfquery.Item{{Table: "tb"}}, Where: vfquery.Col("", "a")}
	}
	e := k.Make(args, sub)
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}, From: vf_from()}
	switch vsym.Choice(6) {
	case 0:
		q.Fields[0].E = e
	case 1:
		vsym.Assume(!k.Agg)
		q.Where = e
	case 2:
		vsym.Assume(!k.Agg)
		q.From[1].Join = "JOIN"
		q.From[1].On = e
	case 3:
		vsym.Assume(!k.Agg)
		q.Group = []*vfquery.Expr{e}
	case 4:
		q.Having = e
	case 5:
		q.Order = []*vfquery.Expr{e}
	}
	vf_check(q)
}

// One operand of any form, itself a form or a query, next to other columns.
func VerifC22_PostgresOperand() {
	kinds := append(append(append([]vfquery.Kind{}, vf_maybe...), vf_kinds...), vf_long...)
	ki := vsym.Choice(len(kinds))
	k := kinds[ki]
	var args []*vfquery.Expr
	for i := 0; i < k.N; i++ {
		args = append(args, vfquery.Num())
	}
	if k.N > 0 {
		at := vsym.Choice(k.N)
		col := vfquery.Col("x", vsym.StringOf("bd", 1, 1))
		args[at] = col
		switch vsym.Choice(4) {
		case 1:
			args[at] = vf_kinds[3].Make([]*vfquery.Expr{vfquery.Num(), col}, nil)
		case 2:
			args[at] = vf_long[0].Make([]*vfquery.Expr{vfquery.Num(), vfquery.Num(), vfquery.Num(), vfquery.Num(), vfquery.Num(), col}, nil)
		case 3:
			in := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("y", vsym.StringOf("ad", 1, 1))}}, From: []vfquery.Item{{Table: "tb", As: "y"}}, Where: vf_kinds[0].Make([]*vfquery.Expr{vfquery.Col("y", "d"), col}, nil)}
			args[at] = vf_kinds[11].Make(nil, in)
			vsym.Assume(k.Name != "paren") // "((SELECT 1))" is read as one subquery in parentheses, which is refused
		}
	}
	var sub *vfquery.Query
	if k.Sub {
		sub = &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "d")}}, From: []vfquery.Item{{Table: "tb"}}, Where: vfquery.Col("", "a")}
	}
	e := k.Make(args, sub)
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("x", "c")}}, From: vf_from()}
	if k.Agg || vsym.Choice(2) == 0 {
		q.Fields = append(q.Fields, vfquery.Field{E: e})
	} else {
		q.Where = e
	}
	vf_check2(q, ki < len(vf_maybe))
}

// Joins by USING, NATURAL joins, joins in parentheses, DISTINCT ON.
func VerifC22_PostgresJoins() {
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("x", "c")}}, From: vf_from()}
	on := func(t string) *vfquery.Expr {
		return vf_kinds[0].Make([]*vfquery.Expr{vfquery.Col(t, vsym.StringOf("ad", 1, 1)), vfquery.Col("x", vsym.StringOf("bd", 1, 1))}, nil)
	}
	q.From[1].Join = []string{"JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"}[vsym.Choice(4)]
	form := vsym.Choice(9)
	switch form {
	case 0:
		q.From[1].On = on("tb")
	case 1:
		q.From[1].On = on("tb")
		q.Unique = []*vfquery.Expr{vfquery.Num(), vfquery.Col("x", vsym.StringOf("abd", 1, 1)), vfquery.Col("tb", vsym.StringOf("abd", 1, 1))}
	case 2:
		q.From[1].Using = vsym.StringOf("abd", 1, 1)
	case 3:
		q.From = append([]vfquery.Item{{Table: "tb", As: "p"}}, q.From...)
		q.From[1].Join = ","
		q.From[2].Using = vsym.StringOf("ad", 1, 1)
	case 4:
		q.From[1].Using = "a"
		q.From = append(q.From, vfquery.Item{Join: "JOIN", Table: "tb", As: "y", Using: vsym.StringOf("ad", 1, 1)})
	case 5:
		q.From[1] = vfquery.Item{Join: q.From[1].Join, On: on("tb"), Group: []vfquery.Item{{Table: "tb"}, {Join: "JOIN", Table: "ta", As: "y", On: vfquery.Col("y", vsym.StringOf("bd", 1, 1))}}}
	case 6:
		q.From = []vfquery.Item{{Group: q.From}, {Join: "JOIN", Table: "tb", As: "y", On: on("y")}}
		q.From[0].Group[1].On = on("tb")
	case 7:
		q.From[1].Natural = true
	case 8:
		q.From[1].On = on("tb")
		for i := 0; i < 2; i++ {
			in := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("y", vsym.StringOf("ad", 1, 1))}}, From: []vfquery.Item{{Table: "tb", As: "y"}}, Where: vfquery.Col("y", vsym.StringOf("bd", 1, 1))}
			if vsym.Choice(2) == 0 {
				q.Count = vf_kinds[11].Make(nil, in)
			} else {
				q.Skip = vf_kinds[11].Make(nil, in)
			}
		}
	}
	vf_check2(q, form > 1 && form < 8)
}

// Any set of clauses.
func VerifC22_PostgresClauses() {
	c := func() *vfquery.Expr {
		return vfquery.Col([]string{"x", "tb"}[vsym.Choice(2)], vsym.StringOf("abd", 1, 1))
	}
	q := &vfquery.Query{From: vf_from()}
	for n := vsym.Choice(vsym.Bound(2, 3)); n > 0; n-- {
		q.Fields = append(q.Fields, vfquery.Field{E: c()})
	}
	switch vsym.Choice(3) {
	case 1:
		q.Fields = append(q.Fields, vfquery.Field{Star: true, Of: "x"})
	case 2:
		q.Fields = append(q.Fields, vfquery.Field{E: vfquery.Num(), As: "k"})
	}
	vsym.Assume(len(q.Fields) > 0)
	if vsym.Choice(2) == 1 {
		q.From[1].Join = "JOIN"
		q.From[1].On = vf_kinds[0].Make([]*vfquery.Expr{c(), c()}, nil)
	}
	more := vsym.Choice(5)
	if more&1 > 0 {
		q.Where = vf_kinds[0].Make([]*vfquery.Expr{c(), vfquery.Num()}, nil)
	}
	switch {
	case more == 2:
		q.Group = []*vfquery.Expr{c(), vfquery.Num()}
	case more == 3:
		q.Order = []*vfquery.Expr{vfquery.Num(), c()}
	case more == 4:
		q.Having = c()
	}
	q.Limit = more > 1
	q.Offset = q.Limit && more > 2
	vf_check(q)
}

// Any list of tables, joined in any way.
func VerifC22_PostgresTables() {
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}}
	var names []string
	chain := 0 // where the chain of joins starts
	for n := 1 + vsym.Choice(3); n > 0; n-- {
		t := vfquery.Item{Table: []string{"ta", "tb"}[vsym.Choice(2)]}
		if vsym.Choice(2) == 1 || len(names) == 2 {
			t.As = "x" + string(rune('0'+n))
		}
		for _, m := range names {
			vsym.Assume(m != t.Name())
		}
		names = append(names, t.Name())
		if len(names) > 1 {
			t.Join = []string{",", "LEFT JOIN", "JOIN"}[vsym.Choice(3)]
			if t.Join != "," {
				t.On = vf_kinds[0].Make([]*vfquery.Expr{vfquery.Col(names[chain], vsym.StringOf("ad", 1, 1)), vfquery.Col(t.Name(), "a")}, nil)
			} else {
				chain = len(names) - 1
			}
		}
		q.From = append(q.From, t)
	}
	q.Where = vfquery.Col(names[vsym.Choice(len(names))], vsym.StringOf("abcdz", 1, 1))
	vf_check(q)
}

// vf_inner is a query on ta or tb with one filter, which may use the outer table.
func vf_inner(outer string) *vfquery.Query {
	q := &vfquery.Query{From: []vfquery.Item{{Table: "tb", As: "y"}}}
	switch vsym.Choice(3) {
	case 0:
		q.Fields = []vfquery.Field{{E: vfquery.Col("y", vsym.StringOf("ad", 1, 1)), As: "k"}}
	case 1:
		q.Fields = []vfquery.Field{{Star: true}}
	case 2:
		q.Fields = []vfquery.Field{{E: vf_kinds[3].Make([]*vfquery.Expr{vfquery.Col("", "d"), vfquery.Col("y", "a")}, nil), As: "k"}, {E: vfquery.Col("y", "d")}}
	}
	c := vfquery.Col([]string{"y", outer, ""}[vsym.Choice(3)], vsym.StringOf("bd", 1, 1))
	q.Where = vf_kinds[0].Make([]*vfquery.Expr{c, vfquery.Num()}, nil)
	return q
}

// Queries within queries.
func VerifC22_PostgresNested() {
	q := &vfquery.Query{From: []vfquery.Item{{Table: "ta", As: "x"}}}
	one := []vfquery.Field{{E: vfquery.Num()}}
	switch vsym.Choice(5) {
	case 0: // the value of a field
		q.Fields = []vfquery.Field{{E: vf_kinds[11].Make(nil, vf_inner("x"))}, {E: vfquery.Col("x", vsym.StringOf("bc", 1, 1))}}
	case 1: // EXISTS and IN
		q.Fields = one
		if vsym.Choice(2) == 0 {
			q.Where = vf_kinds[9].Make(nil, vf_inner("x"))
		} else {
			q.Where = vf_kinds[8].Make([]*vfquery.Expr{vfquery.Col("", vsym.StringOf("bc", 1, 1))}, vf_inner("x"))
		}
	case 2: // a table
		q.Fields = []vfquery.Field{{E: vfquery.Col("z", vsym.StringOf("ad", 1, 1))}}
		q.From = append(q.From, vfquery.Item{Join: "CROSS JOIN", Sub: vf_inner("x"), As: "z", Lateral: vsym.Choice(2) == 1})
		q.Where = vfquery.Col([]string{"z", "x", ""}[vsym.Choice(3)], vsym.StringOf("dk", 1, 1))
	case 3: // a table within a table
		in := vf_inner("x")
		mid := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("w", vsym.StringOf("dk", 1, 1)), As: "m"}, {Star: true, Of: "w"}}, From: []vfquery.Item{{Sub: in, As: "w"}}}
		q.Fields = []vfquery.Field{{E: vfquery.Col("z", "m")}, {Star: true}}
		q.From = append(q.From, vfquery.Item{Join: "JOIN", Sub: mid, As: "z", On: vf_kinds[0].Make([]*vfquery.Expr{vfquery.Col("z", vsym.StringOf("dk", 1, 1)), vfquery.Col("x", "b")}, nil)})
	case 4: // a field of a query in a field
		in := vf_inner("x")
		mid := &vfquery.Query{Fields: one, From: []vfquery.Item{{Table: "ta", As: "x2"}}, Where: vf_kinds[9].Make(nil, in)}
		q.Fields = []vfquery.Field{{E: vf_kinds[11].Make(nil, mid)}}
		q.Where = vfquery.Col("", "c")
	}
	vf_check(q)
}

// What is not one SELECT on tables of the schema is refused.
func VerifC22_PostgresRefused() {
	us := vf_uses()
	sel := func() *tree.Select {
		return vf_select(&vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "b")}}, From: []vfquery.Item{{Table: "ta"}}, Where: vfquery.Col("", "b")})
	}
	from := func(t tree.TableExpr) *tree.Select {
		s := sel()
		s.Select.(*tree.SelectClause).From.Tables = tree.TableExprs{t}
		return s
	}
	table := func(schema string) *tree.AliasedTableExpr {
		return &tree.AliasedTableExpr{Expr: vf_table(schema, "ta")}
	}
	var node tree.Statement
	text := ""
	schema := "shop"
	switch vsym.Choice(8) {
	case 0:
		text = "SELECT b FROM ta WHERE b UNION SELECT b FROM ta WHERE b"
		node = &tree.Select{Select: &tree.UnionClause{Left: sel(), Right: sel()}}
	case 1:
		text = "DELETE FROM ta WHERE b"
		node = &tree.Delete{Table: table(""), Where: &tree.Where{Expr: vf_col("", "b")}}
	case 2:
		text = "UPDATE ta SET a = 1 WHERE b"
		node = &tree.Update{Table: table(""), Where: &tree.Where{Expr: vf_col("", "b")}}
	case 3:
		text = "INSERT INTO ta SELECT b FROM ta WHERE b"
		node = &tree.Insert{Table: table(""), Rows: sel()}
	case 4:
		text = "SELECT b FROM other.ta WHERE b"
		node = from(table("other"))
	case 5:
		text = "SELECT b FROM public.ta WHERE b"
		node = from(table("public"))
	case 6:
		text = "WITH w AS (SELECT b FROM ta WHERE b) SELECT b FROM w"
		s := vf_select(&vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "b")}}, From: []vfquery.Item{{Table: "w"}}})
		s.With = &tree.With{CTEList: []*tree.CTE{{Name: tree.AliasClause{Alias: "w"}, Stmt: sel()}}}
		node = s
	case 7:
		text = "SELECT LAG(b) OVER w FROM ta WINDOW w AS (ORDER BY a)"
		s := sel()
		s.Select.(*tree.SelectClause).Window = tree.Window{&tree.WindowDef{Name: "w"}}
		node = s
	}
	its, errs := vf_list(us, schema, node, text)
	vsym.Assert(len(errs) > 0 && len(its) == 0, "what is not supported is an error, never a partial answer")
}

// The schema may be named, and DISTINCT ON uses columns.
func VerifC22_PostgresMore() {
	us := vf_uses()
	s := vf_select(&vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}, From: []vfquery.Item{{Table: "ta"}}, Where: vfquery.Col("", "b")})
	c := s.Select.(*tree.SelectClause)
	text := ""
	us[0].Mention("b", true)
	switch vsym.Choice(2) {
	case 0:
		text = "SELECT 1 FROM public.ta WHERE b"
		c.From.Tables[0].(*tree.AliasedTableExpr).Expr = vf_table("public", "ta")
	case 1:
		col := vsym.StringOf("abc", 1, 1)
		text = "SELECT DISTINCT ON (" + col + ") 1 FROM ta WHERE b"
		c.DistinctOn = tree.DistinctOn{vf_col("", col)}
		us[0].Mention(col, false)
	}
	its, errs := vf_list(us, "public", s, text)
	vsym.Assert(len(errs) == 0, "a query on known columns is analysed")
	vfspec.Sound(us, its)
	vfspec.Complete(us, its)
}

// Columns computed from several columns, seen from LATERAL and inner queries; hidden names; self joins.
func VerifC22_PostgresDeep() {
	one := []vfquery.Field{{E: vfquery.Num()}}
	eq := func(a, b *vfquery.Expr) *vfquery.Expr { return vf_kinds[0].Make([]*vfquery.Expr{a, b}, nil) }
	exists := func(q *vfquery.Query) *vfquery.Expr { return vf_kinds[9].Make(nil, q) }
	sum := vf_kinds[3].Make([]*vfquery.Expr{vfquery.Col("x2", "b"), vfquery.Col("", "c")}, nil)
	w := vfquery.Item{Sub: &vfquery.Query{Fields: []vfquery.Field{{E: sum, As: "m"}, {E: vfquery.Num(), As: "n"}}, From: []vfquery.Item{{Table: "ta", As: "x2"}}}, As: "w"}
	q := &vfquery.Query{Fields: one, From: []vfquery.Item{w}}
	mn := vfquery.Col([]string{"w", "", "y"}[vsym.Choice(3)], vsym.StringOf("mnd", 1, 1))
	in := &vfquery.Query{Fields: one, From: []vfquery.Item{{Table: "tb", As: "y"}}}
	vsym.MapOrder(3, 1)
	switch vsym.Choice(8) {
	case 0: // from a LATERAL query
		in.Where = eq(vfquery.Col("y", "a"), mn)
		q.From = append(q.From, vfquery.Item{Join: "CROSS JOIN", Sub: in, As: "z", Lateral: true})
	case 1: // from a query of the filter
		in.Where = mn
		q.Where = exists(in)
	case 2: // two levels down
		in.Where = mn
		mid := &vfquery.Query{Fields: one, From: []vfquery.Item{{Table: "ta", As: "v"}}, Where: exists(in)}
		q.Where = exists(mid)
	case 3: // read by an inner query, and handed on
		in.Fields = []vfquery.Field{{E: mn, As: "o"}}
		q.From = append(q.From, vfquery.Item{Join: "LEFT JOIN", Sub: in, As: "z", Lateral: true, On: eq(vfquery.Col("z", vsym.StringOf("on", 1, 1)), vfquery.Num())})
	case 4: // an inner name hides an outer one
		q.From = []vfquery.Item{{Table: "ta", As: "y"}}
		in.Where = vfquery.Col("y", vsym.StringOf("bd", 1, 1))
		q.Where = exists(in)
		q.Fields = []vfquery.Field{{E: vfquery.Col("y", vsym.StringOf("bd", 1, 1))}}
	case 5: // a table joined with itself
		q.From = []vfquery.Item{{Table: "ta", As: "x"}, {Join: "JOIN", Table: "ta", As: "y", On: eq(vfquery.Col("x", vsym.StringOf("bcd", 1, 1)), vfquery.Col("y", vsym.StringOf("ac", 1, 1)))}}
		q.Fields = []vfquery.Field{{E: vfquery.Col("y", "b")}}
		q.Order = []*vfquery.Expr{vfquery.Col("x", "c")}
	case 6: // a query in ON, in ORDER BY, or in HAVING
		in.Where = vfquery.Col([]string{"x", "v", ""}[vsym.Choice(3)], vsym.StringOf("bd", 1, 1))
		q.From = []vfquery.Item{{Table: "ta", As: "x"}, {Join: "JOIN", Table: "tb", As: "v", On: vfquery.Col("v", "a")}}
		switch vsym.Choice(3) {
		case 0:
			q.From[1].On = exists(in)
		case 1:
			q.Order = []*vfquery.Expr{vf_kinds[11].Make(nil, in)}
		case 2:
			q.Having = exists(in)
		}
	case 7: // three derived tables
		mk := func(as, c string) vfquery.Item {
			return vfquery.Item{Join: "CROSS JOIN", As: as, Sub: &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", c), As: "k"}}, From: []vfquery.Item{{Table: "ta"}}}}
		}
		q.From = append(q.From, mk("p", "a"), mk("q", "b"), mk("r", "c"))
		q.Where = vfquery.Col(vsym.StringOf("pqr", 1, 1), "k")
		q.Fields = []vfquery.Field{{E: vfquery.Col("r", "k")}, {Star: true, Of: "p"}}
	}
	vf_check(q)
}

// A name means what the nearest query around it has by that name.
func VerifC22_PostgresNearest() {
	us := append(vf_uses(), &vfspec.Use{Table: "tc", All: []string{"b", "e"}})
	one := []vfquery.Field{{E: vfquery.Num()}}
	outer, mid := []string{"x", "tb", "tc"}[vsym.Choice(3)], []string{"v", "tb", "ta", ""}[vsym.Choice(4)]
	inner := []string{"y", "tc", "ta"}[vsym.Choice(3)]
	q := &vfquery.Query{Fields: one, From: []vfquery.Item{{Table: "ta", As: outer}}}
	m := &vfquery.Query{Fields: one, From: []vfquery.Item{{Table: "tc", As: mid}}}
	in := &vfquery.Query{Fields: one, From: []vfquery.Item{{Table: "tb", As: inner}}}
	vsym.MapOrder(4, 1)
	of := []string{"", outer, m.From[0].Name(), inner}[vsym.Choice(4)]
	in.Where = vfquery.Col(of, vsym.StringOf("abcez", 1, 1))
	m.Where = vf_kinds[9].Make(nil, in)
	switch vsym.Choice(2) {
	case 0:
		q.Where = vf_kinds[9].Make(nil, m)
	case 1:
		m.Fields = []vfquery.Field{{E: vfquery.Col("", vsym.StringOf("be", 1, 1)), As: "k"}}
		q.From = append(q.From, vfquery.Item{Join: "CROSS JOIN", Sub: m, As: "z", Lateral: true})
		q.Where = vfquery.Col("z", "k")
	}
	vf_check3(us, q, false)
}

// Names are the ones written, in the case they are written in.
func VerifC22_PostgresQuoted() {
	n := func() string { return vsym.StringOf("tT", 1, 1) }
	table, named, alias, of, col := n()+"a", n()+"a", vsym.StringOf("xX", 1, 1), vsym.StringOf("xX", 1, 1), vsym.StringOf("bB", 1, 1)
	us := []*vfspec.Use{{Table: table, All: []string{"a", "b"}}, {Table: "zz", All: []string{"a"}}}
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}, From: []vfquery.Item{{Table: named, As: alias}}, Where: vfquery.Col(of, col)}
	text := ""
	var node tree.Statement
	if vsym.Symbolic() {
		node = vf_select(q)
	} else {
		text = `SELECT 1 FROM "` + named + `" AS "` + alias + `" WHERE "` + of + `"."` + col + `"`
	}
	its, errs := vf_list(us, "shop", node, text)
	if named != table || of != alias || col != "b" {
		vsym.Assert(len(errs) > 0 && len(its) == 0, "a query on unknown columns is an error")
		return
	}
	us[0].Mention("b", true)
	vsym.Assert(len(errs) == 0, "a query on known columns is analysed")
	vfspec.Sound(us, its)
	vfspec.Complete(us, its)
}
