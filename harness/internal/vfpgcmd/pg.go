// Package vfpgcmd is a PostgreSQL server a suggest command talks to.
package vfpgcmd

import (
	"errors"

	"github.com/auxten/postgresql-parser/pkg/sql/sem/tree"
	"github.com/mrasu/GravityR/internal/vfcmd"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vfpgparse"
	"github.com/mrasu/GravityR/internal/vfsql"
	"github.com/mrasu/GravityR/internal/vsym"
)

// Parse lets the parser know the query of a run.
func Parse(r *vfcmd.Run) {
	if vsym.Symbolic() {
		vfpgparse.Set(r.Query(), Select(r.Field, r.Col))
		if r.BadSQL {
			vfpgparse.Set(r.Query())
		}
	}
}

// New is a server for a run; its parser knows the query.
func New(r *vfcmd.Run) *Postgres {
	Parse(r)
	return &Postgres{r}
}

// Check checks the outcome of the command.
func (h *Postgres) Check(err error, page any, path string) {
	data := h.Run.Check(err, page, path, "postgres")
	if data == nil {
		return
	}
	vsym.Assert(vfpage.Str(data, "query") == h.Run.Query() && vfcmd.Option(data, "q") == h.Run.Query(), "the page shows the query given")
	n := vfpage.At(data, "analyzeNodes", 0)
	vsym.Assert(vfpage.Len(data, "analyzeNodes") == 1 && vfpage.Str(n, "tableName") == "ta" && vfpage.Num(n, "actualReturnedRows") == 3, "the page shows the plan")
	vsym.Assert(vfpage.Str(data, "summaryText") == "Planning Time: 0.1 ms", "the page shows the summary")
}

type Postgres struct{ *vfcmd.Run }

func (h *Postgres) Exec(q string, args []any) error {
	if vsym.StrEq(q, h.Run.Query()) {
		return h.Op("run")
	}
	return h.DDL(q)
}

func (h *Postgres) Query(q string, args []any) ([]string, [][]any, error) {
	if len(args) == 0 {
		vsym.Assert(vsym.StrEq(q, "EXPLAIN (ANALYZE, BUFFERS) "+h.Run.Query()), "the plan asked for is that of the query given")
		if err := h.Op("plan"); err != nil {
			return nil, nil, err
		}
		if h.BadPlan {
			return nil, nil, errors.New("plan")
		}
		var rows [][]any
		for _, l := range []string{"Seq Scan on ta  (cost=0.00..1.50 rows=10 width=4) (actual time=0.1..0.2 rows=3 loops=1)", "  Filter: (b = 'x')", "Planning Time: 0.1 ms"} {
			rows = append(rows, []any{l})
		}
		return []string{"QUERY PLAN"}, rows, nil
	}
	if len(args) != 2 || args[0] != "shop" || args[1] != "ta" {
		vsym.Assert(false, "the metadata asked for is that of the query's tables in the schema configured")
		return nil, nil, errors.New("bad")
	}
	var rows []vfsql.Row
	op := "columns"
	for _, c := range vfsql.Columns(q) {
		if c == "column_names" {
			op = "indexes"
		}
	}
	if op == "columns" {
		for i, c := range []string{"a", h.Col, "c"} {
			rows = append(rows, vfsql.Row{"table_name": "ta", "column_name": c, "is_pk": i == 0, "attnum": i})
		}
	} else {
		rows = append(rows, vfsql.Row{"table_name": "ta", "index_name": "p", "column_names": []byte("{a}")})
		if h.Exists {
			rows = append(rows, vfsql.Row{"table_name": "ta", "index_name": "i", "column_names": []byte("{" + h.Col + "}")})
		}
	}
	if err := h.Op(op); err != nil {
		return nil, nil, err
	}
	cols, res := vfsql.Answer(q, rows)
	return cols, res, nil
}

// Select is the tree of the query.
func Select(f, c string) tree.Statement {
	col := func(c string) *tree.UnresolvedName {
		n := &tree.UnresolvedName{NumParts: 1}
		n.Parts[0] = c
		return n
	}
	n := &tree.TableName{}
	n.TableName = "ta"
	s := &tree.SelectClause{Exprs: tree.SelectExprs{{Expr: &tree.NumVal{}}}}
	if f != "1" {
		s.Exprs[0].Expr = col(f)
	}
	s.From.Tables = tree.TableExprs{&tree.AliasedTableExpr{Expr: n}}
	s.Where = &tree.Where{Type: "WHERE", Expr: &tree.ComparisonExpr{Left: col(c), Right: &tree.StrVal{}}}
	return &tree.Select{Select: s}
}
