// Package vfmycmd is a MySQL server a suggest command talks to.
package vfmycmd

import (
	"errors"

	"github.com/mrasu/GravityR/internal/vfcmd"
	"github.com/mrasu/GravityR/internal/vfmyparse"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vfsql"
	"github.com/mrasu/GravityR/internal/vsym"
	"github.com/pingcap/tidb/parser/ast"
	"github.com/pingcap/tidb/parser/model"
	driver "github.com/pingcap/tidb/types/parser_driver"
)

// New is a server for a run; its parser knows the query.
func New(r *vfcmd.Run) *MySQL {
	h := &MySQL{r}
	if vsym.Symbolic() {
		col := func(c string) *ast.ColumnNameExpr {
			return &ast.ColumnNameExpr{Name: &ast.ColumnName{Name: model.NewCIStr(c)}}
		}
		f := &ast.SelectField{Expr: &driver.ValueExpr{}}
		if h.Field != "1" {
			f.Expr = col(h.Field)
		}
		s := &ast.SelectStmt{SelectStmtOpts: &ast.SelectStmtOpts{}, Fields: &ast.FieldList{Fields: []*ast.SelectField{f}}}
		s.From = &ast.TableRefsClause{TableRefs: &ast.Join{Left: &ast.TableSource{Source: &ast.TableName{Name: model.NewCIStr("ta")}}}}
		s.Where = &ast.BinaryOperationExpr{L: col(h.Col), R: &driver.ValueExpr{}}
		vfmyparse.Set(h.Run.Query(), s)
		if h.BadSQL {
			vfmyparse.Set(h.Run.Query())
		}
	}
	return h
}

// Check checks the outcome of the command.
func (h *MySQL) Check(err error, page any, path string) {
	data := h.Run.Check(err, page, path, "mysql")
	if data == nil {
		return
	}
	vsym.Assert(vfpage.Str(data, "query") == h.Run.Query() && vfcmd.Option(data, "q") == h.Run.Query(), "the page shows the query given")
	n := vfpage.At(data, "analyzeNodes", 0)
	vsym.Assert(vfpage.Len(data, "analyzeNodes") == 1 && vfpage.Str(n, "tableName") == "ta" && vfpage.Len(n, "children") == 1 && vfpage.Num(n, "actualReturnedRows") == 3, "the page shows the plan")
}

type MySQL struct{ *vfcmd.Run }

const plan = "-> Filter: (ta.b = 'x')  (cost=1.50 rows=10) (actual time=0.10..0.20 rows=3 loops=1)\n    -> Table scan on ta  (cost=1.50 rows=10) (actual time=0.10..0.20 rows=3 loops=1)\n"

func (h *MySQL) Exec(q string, args []any) error {
	if vsym.StrEq(q, h.Run.Query()) {
		return h.Op("run")
	}
	return h.DDL(q)
}

func (h *MySQL) Query(q string, args []any) ([]string, [][]any, error) {
	if len(args) == 0 {
		vsym.Assert(vsym.StrEq(q, "EXPLAIN ANALYZE FORMAT=TREE "+h.Run.Query()), "the plan asked for is that of the query given")
		if err := h.Op("plan"); err != nil {
			return nil, nil, err
		}
		p := plan
		if h.BadPlan {
			p = "        -> Table scan on ta\n"
		}
		return []string{"EXPLAIN"}, [][]any{{p}}, nil
	}
	if len(args) != 2 || args[0] != "shop" || args[1] != "ta" {
		vsym.Assert(false, "the metadata asked for is that of the query's tables in the database configured")
		return nil, nil, errors.New("bad")
	}
	var rows []vfsql.Row
	op := "columns"
	for _, c := range vfsql.Columns(q) {
		if c == "INDEX_NAME" {
			op = "indexes"
		}
	}
	if op == "columns" {
		for i, c := range []string{"a", h.Col, "c"} {
			r := vfsql.Row{"TABLE_NAME": "ta", "COLUMN_NAME": c, "COLUMN_KEY": "", "ORDINAL_POSITION": i}
			if i == 0 {
				r["COLUMN_KEY"] = "PRI"
			}
			rows = append(rows, r)
		}
	} else {
		rows = append(rows, vfsql.Row{"TABLE_NAME": "ta", "INDEX_NAME": "PRIMARY", "COLUMN_NAME": "a", "SEQ_IN_INDEX": 1})
		if h.Exists {
			rows = append(rows, vfsql.Row{"TABLE_NAME": "ta", "INDEX_NAME": "i", "COLUMN_NAME": h.Col, "SEQ_IN_INDEX": 1})
		}
	}
	if err := h.Op(op); err != nil {
		return nil, nil, err
	}
	cols, res := vfsql.Answer(q, rows)
	return cols, res, nil
}
