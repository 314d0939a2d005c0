package parser

//vsym:use internal/vfdb/db.go
//vsym:use internal/vfsql/sql.go
//vsym:use internal/vfspec/index.go
//vsym:use internal/vfquery/query.go

import (
	"strings"

	"errors"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vfquery"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vfsql"
	"github.com/mrasu/GravityR/internal/vsym"
	tparser "github.com/pingcap/tidb/parser"
	"github.com/pingcap/tidb/parser/ast"
	"github.com/pingcap/tidb/parser/model"
	driver "github.com/pingcap/tidb/types/parser_driver"
)

var vf_kinds = []vfquery.Kind{
	{Name: "eq", Parts: []string{"", " = ", ""}, N: 2},
	{Name: "and", Parts: []string{"(", " AND ", ")"}, N: 2},
	{Name: "or", Parts: []string{"(", " OR ", ")"}, N: 2},
	{Name: "plus", Parts: []string{"(", " + ", ")"}, N: 2},
	{Name: "between", Parts: []string{"(", " BETWEEN ", " AND ", ")"}, N: 3},
	{Name: "case", Parts: []string{"CASE ", " WHEN ", " THEN ", " ELSE ", " END"}, N: 4},
	{Name: "casewhen", Parts: []string{"CASE WHEN ", " THEN ", " WHEN ", " THEN ", " END"}, N: 4},
	{Name: "in", Parts: []string{"", " IN (", ", ", ")"}, N: 3},
	{Name: "insub", Parts: []string{"", " IN (", ")"}, N: 1, Sub: true},
	{Name: "exists", Parts: []string{"EXISTS (", ")"}, N: 0, Sub: true},
	{Name: "anysub", Parts: []string{"", " = ANY (", ")"}, N: 1, Sub: true},
	{Name: "sub", Parts: []string{"(", ")"}, N: 0, Sub: true},
	{Name: "isnull", Parts: []string{"", " IS NULL"}, N: 1},
	{Name: "istrue", Parts: []string{"", " IS TRUE"}, N: 1},
	{Name: "like", Parts: []string{"", " LIKE ", ""}, N: 2},
	{Name: "regexp", Parts: []string{"", " REGEXP ", ""}, N: 2},
	{Name: "paren", Parts: []string{"(", ")"}, N: 1},
	{Name: "row", Parts: []string{"(", ", ", ") = (", ", 1)"}, N: 3},
	{Name: "not", Parts: []string{"NOT ", ""}, N: 1},
	{Name: "func", Parts: []string{"CONCAT(", ", ", ")"}, N: 2},
	{Name: "date", Parts: []string{"DATE_ADD(", ", INTERVAL ", " DAY)"}, N: 2},
	{Name: "trim", Parts: []string{"TRIM(LEADING ", " FROM ", ")"}, N: 2},
	{Name: "cast", Parts: []string{"CAST(", " AS CHAR)"}, N: 1},
	{Name: "var", Parts: []string{"(@v + ", ")"}, N: 1},
	{Name: "param", Parts: []string{"(? + ", ")"}, N: 1},
	{Name: "collate", Parts: []string{"(", " COLLATE utf8mb4_bin)"}, N: 1},
	{Name: "agg", Parts: []string{"COUNT(DISTINCT ", ", ", ")"}, N: 2, Agg: true},
	{Name: "groupconcat", Parts: []string{"GROUP_CONCAT(", " ORDER BY ", ")"}, N: 2, Agg: true},
	{Name: "match", Parts: []string{"MATCH (", ", ", ") AGAINST (", ")"}, N: 3},
	{Name: "win", Parts: []string{"LAG(", ") OVER (PARTITION BY ", " ORDER BY ", ")"}, N: 3, Agg: true},
}

// Forms with many operands.
var vf_long = []vfquery.Kind{
	{Name: "in", Parts: []string{"", " IN (", ", ", ", ", ", ", ", ", ", ", ", ", ")"}, N: 8},
	{Name: "func", Parts: []string{"CONCAT(", ", ", ", ", ", ", ", ", ", ", ")"}, N: 6},
	{Name: "casewhenelse", Parts: []string{"CASE WHEN ", " THEN ", " WHEN ", " THEN ", " WHEN ", " THEN ", " ELSE ", " END"}, N: 7},
	{Name: "casewhenelse", Parts: []string{"CASE WHEN ", " THEN ", " ELSE ", " END"}, N: 3},
	{Name: "row5", Parts: []string{"(", ", ", ", ", ", ", ", ", ") = (1, 1, 1, 1, 1)"}, N: 5},
	{Name: "winmany", Parts: []string{"LAG(", ") OVER (PARTITION BY ", ", ", " ORDER BY ", ", ", ")"}, N: 5, Agg: true},
}

func vf_expr(e *vfquery.Expr) ast.ExprNode {
	if e == nil {
		return nil
	}
	var a []ast.ExprNode
	for _, x := range e.Args {
		a = append(a, vf_expr(x))
	}
	var sub *ast.SubqueryExpr
	if e.Sub != nil {
		sub = &ast.SubqueryExpr{Query: vf_select(e.Sub)}
	}
	switch e.Kind {
	case "col":
		return vf_col(e.Tab, e.Col)
	case "num":
		return &driver.ValueExpr{}
	case "eq", "plus":
		return &ast.BinaryOperationExpr{L: a[0], R: a[1]}
	case "and", "or":
		return &ast.ParenthesesExpr{Expr: &ast.BinaryOperationExpr{L: a[0], R: a[1]}}
	case "between":
		return &ast.BetweenExpr{Expr: a[0], Left: a[1], Right: a[2]}
	case "case":
		return &ast.CaseExpr{Value: a[0], WhenClauses: []*ast.WhenClause{{Expr: a[1], Result: a[2]}}, ElseClause: a[3]}
	case "casewhen":
		return &ast.CaseExpr{WhenClauses: []*ast.WhenClause{{Expr: a[0], Result: a[1]}, {Expr: a[2], Result: a[3]}}}
	case "casewhenelse":
		c := &ast.CaseExpr{ElseClause: a[len(a)-1]}
		for i := 0; i+1 < len(a); i += 2 {
			c.WhenClauses = append(c.WhenClauses, &ast.WhenClause{Expr: a[i], Result: a[i+1]})
		}
		return c
	case "row5":
		v := func() ast.ExprNode { return &driver.ValueExpr{} }
		return &ast.BinaryOperationExpr{L: &ast.RowExpr{Values: a}, R: &ast.RowExpr{Values: []ast.ExprNode{v(), v(), v(), v(), v()}}}
	case "winmany":
		return &ast.WindowFuncExpr{F: "lag", Args: a[:1], Spec: ast.WindowSpec{
			PartitionBy: &ast.PartitionByClause{Items: []*ast.ByItem{{Expr: a[1]}, {Expr: a[2]}}},
			OrderBy:     &ast.OrderByClause{Items: []*ast.ByItem{{Expr: a[3]}, {Expr: a[4]}}},
		}}
	case "groupconcat":
		return &ast.AggregateFuncExpr{F: "group_concat", Args: []ast.ExprNode{a[0], &driver.ValueExpr{}}, Order: &ast.OrderByClause{Items: vf_by(e.Args[1:])}}
	case "match":
		return &ast.MatchAgainst{ColumnNames: []*ast.ColumnName{a[0].(*ast.ColumnNameExpr).Name, a[1].(*ast.ColumnNameExpr).Name}, Against: a[2]}
	case "in":
		return &ast.PatternInExpr{Expr: a[0], List: a[1:]}
	case "insub":
		return &ast.PatternInExpr{Expr: a[0], Sel: sub}
	case "exists":
		return &ast.ExistsSubqueryExpr{Sel: sub}
	case "anysub":
		return &ast.CompareSubqueryExpr{L: a[0], R: sub}
	case "sub":
		return sub
	case "isnull":
		return &ast.IsNullExpr{Expr: a[0]}
	case "istrue":
		return &ast.IsTruthExpr{Expr: a[0]}
	case "like":
		return &ast.PatternLikeExpr{Expr: a[0], Pattern: a[1]}
	case "regexp":
		return &ast.PatternRegexpExpr{Expr: a[0], Pattern: a[1]}
	case "paren":
		return &ast.ParenthesesExpr{Expr: a[0]}
	case "row":
		return &ast.BinaryOperationExpr{L: &ast.RowExpr{Values: []ast.ExprNode{a[0], a[1]}}, R: &ast.RowExpr{Values: []ast.ExprNode{a[2], &driver.ValueExpr{}}}}
	case "not":
		return &ast.UnaryOperationExpr{V: a[0]}
	case "func":
		return &ast.FuncCallExpr{Args: a}
	case "date":
		return &ast.FuncCallExpr{Args: append(a, &ast.TimeUnitExpr{})}
	case "trim":
		return &ast.FuncCallExpr{Args: []ast.ExprNode{a[1], a[0], &ast.TrimDirectionExpr{}}}
	case "cast":
		return &ast.FuncCastExpr{Expr: a[0]}
	case "var":
		return &ast.BinaryOperationExpr{L: &ast.VariableExpr{Name: "v"}, R: a[0]}
	case "param":
		return &ast.BinaryOperationExpr{L: &driver.ParamMarkerExpr{}, R: a[0]}
	case "collate":
		return &ast.SetCollationExpr{Expr: a[0], Collate: "utf8mb4_bin"}
	case "agg":
		return &ast.AggregateFuncExpr{F: "count", Args: a, Distinct: true}
	case "win":
		return &ast.WindowFuncExpr{F: "lag", Args: a[:1], Spec: ast.WindowSpec{
			PartitionBy: &ast.PartitionByClause{Items: []*ast.ByItem{{Expr: a[1]}}},
			OrderBy:     &ast.OrderByClause{Items: []*ast.ByItem{{Expr: a[2]}}},
		}}
	}
	panic(e.Kind)
}

func vf_col(tab, col string) *ast.ColumnNameExpr {
	return &ast.ColumnNameExpr{Name: &ast.ColumnName{Table: model.NewCIStr(tab), Name: model.NewCIStr(col)}}
}

// vf_select builds what the parser makes of the text of a query.
func vf_select(q *vfquery.Query) *ast.SelectStmt {
	s := &ast.SelectStmt{SelectStmtOpts: &ast.SelectStmtOpts{}, Fields: &ast.FieldList{}}
	for _, f := range q.Fields {
		x := &ast.SelectField{AsName: model.NewCIStr(f.As)}
		if f.Star {
			x.WildCard = &ast.WildCardField{Table: model.NewCIStr(f.Of)}
		} else {
			x.Expr = vf_expr(f.E)
		}
		s.Fields.Fields = append(s.Fields.Fields, x)
	}
	join := vf_join(q.From)
	if join != nil {
		s.From = &ast.TableRefsClause{TableRefs: join}
	}
	s.Where = vf_expr(q.Where)
	if len(q.Group) > 0 {
		s.GroupBy = &ast.GroupByClause{Items: vf_by(q.Group)}
	}
	if q.Having != nil {
		s.Having = &ast.HavingClause{Expr: vf_expr(q.Having)}
	}
	if len(q.Order) > 0 {
		s.OrderBy = &ast.OrderByClause{Items: vf_by(q.Order)}
	}
	if q.Limit {
		s.Limit = &ast.Limit{Count: &driver.ValueExpr{}}
		if q.Offset {
			s.Limit.Offset = &driver.ValueExpr{}
		}
	}
	return s
}

// vf_join builds the tree of joined tables.
func vf_join(items []vfquery.Item) *ast.Join {
	for i := len(items) - 1; i > 0; i-- {
		if items[i].Join == "," { // binds less than JOIN
			l, r := vf_join(items[:i]), vf_join(items[i:])
			j := &ast.Join{Left: l, Right: r, Tp: ast.CrossJoin}
			if l.Right == nil {
				j.Left = l.Left
			}
			if r.Right == nil {
				j.Right = r.Left
			}
			return j
		}
	}
	var join *ast.Join
	for _, t := range items {
		src := &ast.TableSource{AsName: model.NewCIStr(t.As)}
		var node ast.ResultSetNode = src
		switch {
		case t.Group != nil:
			node = vf_join(t.Group)
		case t.Sub != nil:
			src.Source = vf_select(t.Sub)
		default:
			src.Source = &ast.TableName{Name: model.NewCIStr(t.Table)}
		}
		switch {
		case join == nil:
			join = &ast.Join{Left: node}
			continue
		case join.Right == nil:
			join.Right = node
		default:
			join = &ast.Join{Left: join, Right: node}
		}
		join.Tp = map[string]ast.JoinType{"LEFT JOIN": ast.LeftJoin, "RIGHT JOIN": ast.RightJoin, "LEFT": ast.LeftJoin}[t.Join]
		if join.Tp == 0 {
			join.Tp = ast.CrossJoin
		}
		join.NaturalJoin = t.Natural
		for i := 0; i < len(t.Using); i++ {
			join.Using = append(join.Using, &ast.ColumnName{Name: model.NewCIStr(t.Using[i : i+1])})
		}
		if t.On != nil {
			join.On = &ast.OnCondition{Expr: vf_expr(t.On)}
		}
	}
	return join
}

// vf_by: a number stands for a field.
func vf_by(es []*vfquery.Expr) []*ast.ByItem {
	var out []*ast.ByItem
	for _, e := range es {
		if e.Kind == "num" {
			out = append(out, &ast.ByItem{Expr: &ast.PositionExpr{N: 1}})
		} else {
			out = append(out, &ast.ByItem{Expr: vf_expr(e)})
		}
	}
	return out
}

type vf_catalog struct {
	us  []*vfspec.Use
	bad bool
}

func (c *vf_catalog) Exec(q string, args []any) error {
	c.bad = true
	return nil
}

func (c *vf_catalog) Query(q string, args []any) ([]string, [][]any, error) {
	if len(args) < 2 || args[0] != "shop" {
		return nil, nil, errors.New("unexpected")
	}
	var rows []vfsql.Row
	for _, u := range c.us {
		for _, a := range args[1:] {
			if a != u.Table {
				continue
			}
			for i, col := range u.All {
				r := vfsql.Row{"TABLE_NAME": u.Table, "COLUMN_NAME": col, "COLUMN_KEY": "", "ORDINAL_POSITION": i}
				for _, k := range u.PK {
					if k == col {
						r["COLUMN_KEY"] = "PRI"
					}
				}
				rows = append(rows, r)
			}
			break
		}
	}
	cols, res := vfsql.Answer(q, rows)
	return cols, res, nil
}

func vf_list(us []*vfspec.Use, node ast.StmtNode, text string) ([]*dmodel.IndexTarget, []error) {
	if !vsym.Symbolic() {
		ns, _, err := tparser.New().Parse(text, "", "")
		if err != nil {
			panic("the text of a query is not valid: " + text + ": " + err.Error())
		}
		node = ns[0]
	}
	c := &vf_catalog{us: us}
	its, errs := ListPossibleIndexes(mysql.NewDB(vfdb.Open("mysql", c)), "shop", node)
	vsym.Assert(!c.bad, "listing indexes changes nothing")
	return its, errs
}

func vf_check(q *vfquery.Query) { vf_check2(q, false) }

// vf_check2 compares the suggestions for a query with what it uses.
func vf_check2(q *vfquery.Query, mayRefuse bool) { vf_check3(vf_uses(), q, mayRefuse) }

func vf_uses() []*vfspec.Use {
	return []*vfspec.Use{
		{Table: "ta", All: []string{"a", "b", "c"}, PK: []string{"a"}},
		{Table: "tb", All: []string{"a", "d"}},
	}
}

func vf_check3(us []*vfspec.Use, q *vfquery.Query, mayRefuse bool) {
	a := &vfquery.Analysis{Uses: us}
	a.Query(q, nil)
	text := ""
	if !vsym.Symbolic() {
		text = q.Text()
	}
	var node ast.StmtNode
	if vsym.Symbolic() {
		node = vf_select(q)
	}
	its, errs := vf_list(us, node, text)
	vsym.Observe("n", len(its))
	if mayRefuse && len(errs) > 0 && len(its) == 0 {
		return
	}
	if a.Bad {
		vsym.Assert(len(errs) > 0 && len(its) == 0, "a query on unknown columns is an error")
		return
	}
	vsym.Assert(len(errs) == 0, "a query on known columns is analysed")
	vfspec.Sound(us, its)
	vfspec.Complete(us, its)
}

func vf_from() []vfquery.Item {
	return []vfquery.Item{{Table: "ta", As: "x"}, {Join: "JOIN", Table: "tb"}}
}

// Every form of expression in every clause.
func VerifC21_MysqlExpr() {
	k := vf_kinds[vsym.Choice(len(vf_kinds))]
	var args []*vfquery.Expr
	for i := 0; i < k.N; i++ {
		args = append(args, vfquery.Leaf(i == 0))
		vsym.Assume(k.Name != "match" || i == 2 || args[i].Kind == "col")
	}
	var sub *vfquery.Query
	if k.Sub {
		sub = &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "d")}}, From: []vfquery.Item{{Table: "tb"}}, Where: vfquery.Col("", "a")}
	}
	e := k.Make(args, sub)
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}, From: vf_from()}
	switch vsym.Choice(6) {
	case 0:
		q.Fields[0].E = e
	case 1:
		vsym.Assume(!k.Agg)
		q.Where = e
	case 2:
		vsym.Assume(!k.Agg)
		q.From[1].On = e
	case 3:
		vsym.Assume(!k.Agg)
		q.Group = []*vfquery.Expr{e}
	case 4:
		q.Having = e
	case 5:
		q.Order = []*vfquery.Expr{e}
	}
	vf_check(q)
}

// One operand of any form, itself a form, next to other columns.
func VerifC21_MysqlOperand() {
	kinds := append(append([]vfquery.Kind{}, vf_kinds...), vf_long...)
	k := kinds[vsym.Choice(len(kinds))]
	vsym.Assume(k.N > 0)
	at := vsym.Choice(k.N)
	var args []*vfquery.Expr
	for i := 0; i < k.N; i++ {
		args = append(args, vfquery.Num())
		if k.Name == "match" && i < 2 {
			args[i] = vfquery.Col("x", "b")
		}
	}
	args[at] = vfquery.Col("x", vsym.StringOf("bd", 1, 1))
	if k.Name != "match" || at == 2 {
		switch vsym.Choice(3) {
		case 1:
			args[at] = vf_kinds[3].Make([]*vfquery.Expr{vfquery.Num(), args[at]}, nil)
		case 2:
			args[at] = vf_long[1].Make([]*vfquery.Expr{vfquery.Num(), vfquery.Num(), vfquery.Num(), vfquery.Num(), vfquery.Num(), args[at]}, nil)
		}
	}
	var sub *vfquery.Query
	if k.Sub {
		sub = &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "d")}}, From: []vfquery.Item{{Table: "tb"}}, Where: vfquery.Col("", "a")}
	}
	e := k.Make(args, sub)
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("x", "c")}}, From: vf_from()}
	if k.Agg || vsym.Choice(2) == 0 {
		q.Fields = append(q.Fields, vfquery.Field{E: e})
	} else {
		q.Where = e
	}
	vf_check(q)
}

// Joins by USING, NATURAL joins, and joins in parentheses.
func VerifC21_MysqlJoins() {
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("x", "c")}}, From: vf_from()}
	on := func(t string) *vfquery.Expr {
		return vf_kinds[0].Make([]*vfquery.Expr{vfquery.Col(t, vsym.StringOf("ad", 1, 1)), vfquery.Col("x", vsym.StringOf("bd", 1, 1))}, nil)
	}
	q.From[1].Join = []string{"JOIN", "LEFT JOIN", "RIGHT JOIN"}[vsym.Choice(3)]
	form := vsym.Choice(7)
	switch form {
	case 0:
		q.From[1].On = on("tb")
	case 1:
		q.From[1].Using = vsym.StringOf("abd", 1, 1)
	case 2:
		q.From = append([]vfquery.Item{{Table: "tb", As: "p"}}, q.From...)
		q.From[1].Join = ","
		q.From[2].Using = vsym.StringOf("ad", 1, 1)
	case 3:
		q.From[1].Using = "a"
		q.From = append(q.From, vfquery.Item{Join: "JOIN", Table: "tb", As: "y", Using: vsym.StringOf("ad", 1, 1)})
	case 4:
		q.From[1] = vfquery.Item{Join: q.From[1].Join, On: on("tb"), Group: []vfquery.Item{{Table: "tb"}, {Join: "JOIN", Table: "ta", As: "y", On: vfquery.Col("y", vsym.StringOf("bd", 1, 1))}}}
	case 5:
		q.From = []vfquery.Item{{Group: q.From}, {Join: "JOIN", Table: "tb", As: "y", On: on("y")}}
		q.From[0].Group[1].On = on("tb")
	case 6:
		q.From[1].Natural = true
	}
	vf_check2(q, form > 3)
}

// Any set of clauses.
func VerifC21_MysqlClauses() {
	c := func() *vfquery.Expr {
		return vfquery.Col([]string{"x", "tb"}[vsym.Choice(2)], vsym.StringOf("abd", 1, 1))
	}
	q := &vfquery.Query{From: vf_from()}
	for n := vsym.Choice(vsym.Bound(2, 3)); n > 0; n-- {
		q.Fields = append(q.Fields, vfquery.Field{E: c()})
	}
	switch vsym.Choice(3) {
	case 1:
		q.Fields = append(q.Fields, vfquery.Field{Star: true, Of: "x"})
	case 2:
		q.Fields = append(q.Fields, vfquery.Field{E: vfquery.Num(), As: "k"})
	}
	vsym.Assume(len(q.Fields) > 0)
	if vsym.Choice(2) == 1 {
		q.From[1].On = vf_kinds[0].Make([]*vfquery.Expr{c(), c()}, nil)
	}
	more := vsym.Choice(5)
	if more&1 > 0 {
		q.Where = vf_kinds[0].Make([]*vfquery.Expr{c(), vfquery.Num()}, nil)
	}
	switch {
	case more == 2:
		q.Group = []*vfquery.Expr{c(), vfquery.Num()}
	case more == 3:
		q.Order = []*vfquery.Expr{vfquery.Num(), c()}
	case more == 4:
		q.Having = c()
	}
	q.Limit = more > 1
	q.Offset = q.Limit && more > 2
	vf_check(q)
}

// Any list of tables, joined in any way.
func VerifC21_MysqlTables() {
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}}
	var names []string
	for n := 1 + vsym.Choice(3); n > 0; n-- {
		t := vfquery.Item{Table: []string{"ta", "tb"}[vsym.Choice(2)]}
		if vsym.Choice(2) == 1 || len(names) == 2 {
			t.As = "x" + string(rune('0'+n))
		}
		for _, m := range names {
			vsym.Assume(m != t.Name())
		}
		names = append(names, t.Name())
		if len(names) > 1 {
			t.Join = []string{",", "LEFT JOIN", "JOIN"}[vsym.Choice(3)]
			if t.Join != "," {
				t.On = vf_kinds[0].Make([]*vfquery.Expr{vfquery.Col(names[0], vsym.StringOf("ad", 1, 1)), vfquery.Col(t.Name(), "a")}, nil)
			}
		}
		q.From = append(q.From, t)
	}
	q.Where = vfquery.Col(names[vsym.Choice(len(names))], vsym.StringOf("abcdz", 1, 1))
	vf_check(q)
}

// What is not one SELECT is refused.
func VerifC21_MysqlRefused() {
	us := []*vfspec.Use{{Table: "ta", All: []string{"a", "b"}}, {Table: "tb", All: []string{"a", "d"}}}
	sel := func() *ast.SelectStmt {
		return vf_select(&vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "b")}}, From: []vfquery.Item{{Table: "ta"}}, Where: vfquery.Col("", "b")})
	}
	star := func(s ast.ResultSetNode) *ast.SelectStmt {
		r := vf_select(&vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}, From: []vfquery.Item{{Table: "tb", As: "z"}}})
		r.From.TableRefs.Left.(*ast.TableSource).Source = s
		return r
	}
	var node ast.StmtNode
	text := ""
	switch vsym.Choice(8) {
	case 0:
		text = "SELECT b FROM ta WHERE b UNION SELECT b FROM ta WHERE b"
		node = &ast.SetOprStmt{SelectList: &ast.SetOprSelectList{Selects: []ast.Node{sel(), sel()}}}
	case 1:
		text = "DELETE FROM ta WHERE b"
		node = &ast.DeleteStmt{TableRefs: sel().From, Where: vf_col("", "b")}
	case 2:
		text = "UPDATE ta SET a = 1 WHERE b"
		node = &ast.UpdateStmt{TableRefs: sel().From, Where: vf_col("", "b")}
	case 3:
		text = "INSERT INTO ta SELECT b FROM ta WHERE b"
		node = &ast.InsertStmt{Table: sel().From, Select: sel()}
	case 4:
		text = "SELECT 1 FROM (SELECT b FROM ta WHERE b UNION SELECT b FROM ta WHERE b) AS z"
		node = star(&ast.SetOprStmt{SelectList: &ast.SetOprSelectList{Selects: []ast.Node{sel(), sel()}}})
	case 5:
		text = "SELECT 1 FROM shop.tb AS z"
		node = star(&ast.TableName{Schema: model.NewCIStr("shop"), Name: model.NewCIStr("tb")})
	case 6:
		text = "WITH w AS (SELECT b FROM ta WHERE b) SELECT b FROM w"
		s := vf_select(&vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", "b")}}, From: []vfquery.Item{{Table: "w"}}})
		s.With = &ast.WithClause{CTEs: []*ast.CommonTableExpression{{Name: model.NewCIStr("w"), Query: &ast.SubqueryExpr{Query: sel()}}}}
		node = s
	case 7:
		text = "SELECT LAG(b) OVER w FROM ta WINDOW w AS (ORDER BY a)"
		s := sel()
		s.WindowSpecs = []ast.WindowSpec{{Name: model.NewCIStr("w")}}
		node = s
	}
	its, errs := vf_list(us, node, text)
	vsym.Assert(len(errs) > 0 && len(its) == 0, "what is not supported is an error, never a partial answer")
}

// A column of USING is the one of the tables joined, whatever others there are.
func VerifC21_MysqlUsing() {
	us := append(vf_uses(), &vfspec.Use{Table: "tc", All: []string{"b", "d", "e"}})
	as := []string{"", "z", "ta"}[vsym.Choice(3)]
	q := &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Num()}}, From: []vfquery.Item{{Table: "ta", As: "x"}, {Join: []string{"JOIN", ","}[vsym.Choice(2)], Table: "tb"}}}
	vsym.MapOrder(3, 2)
	if vsym.Choice(2) == 1 && q.From[1].Join == "JOIN" {
		q.From[1].Using = "a"
	} else if q.From[1].Join == "JOIN" {
		q.From[1].On = vfquery.Col("tb", "d")
	}
	q.From = append(q.From, vfquery.Item{Join: []string{"JOIN", "LEFT JOIN"}[vsym.Choice(2)], Table: "tc", As: as, Using: vsym.StringOf("bde", 1, 1)})
	if vsym.Choice(2) == 1 {
		q.From = []vfquery.Item{q.From[2], {Join: q.From[2].Join, Group: q.From[:2], Using: q.From[2].Using}}
		q.From[0].Join, q.From[0].Using = "", ""
	}
	q.Where = vfquery.Col("x", vsym.StringOf("bc", 1, 1))
	vf_check3(us, q, false)
}

// Names of columns are the same in any case.
func VerifC21_MysqlCase() {
	us := vf_uses()
	var declared []*vfspec.Use
	for _, u := range us {
		d := &vfspec.Use{Table: u.Table, All: append([]string{}, u.All...), PK: append([]string{}, u.PK...)}
		declared = append(declared, d)
	}
	up := func(s *string) { *s = strings.ToUpper(*s) }
	switch vsym.Choice(4) {
	case 1:
		up(&declared[0].All[1])
	case 2:
		up(&declared[0].All[0])
		up(&declared[0].PK[0])
	case 3:
		up(&declared[1].All[1])
	}
	make := func(f, w string) *vfquery.Query {
		return &vfquery.Query{Fields: []vfquery.Field{{E: vfquery.Col("", f)}}, From: vf_from(), Where: vfquery.Col("x", w)}
	}
	f, w := vsym.StringOf("cCdD", 1, 1), vsym.StringOf("aAbBdD", 1, 1)
	a := &vfquery.Analysis{Uses: us}
	a.Query(make(strings.ToLower(f), strings.ToLower(w)), nil)
	q := make(f, w)
	text := ""
	var node ast.StmtNode
	if vsym.Symbolic() {
		node = vf_select(q)
	} else {
		text = q.Text()
	}
	its, errs := vf_list(declared, node, text)
	if a.Bad {
		vsym.Assert(len(errs) > 0 && len(its) == 0, "a query on unknown columns is an error")
		return
	}
	vsym.Assert(len(errs) == 0, "a query on known columns is analysed")
	for _, it := range its {
		for _, c := range it.Columns {
			c.Name = strings.ToLower(c.Name)
		}
	}
	vfspec.Sound(us, its)
	vfspec.Complete(us, its)
}
