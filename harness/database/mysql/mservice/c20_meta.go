package mservice

//vsym:use internal/vfdb/db.go
//vsym:use internal/vfsql/sql.go

import (
	"errors"
	"strings"

	"github.com/mrasu/GravityR/database/mysql/mservice/parser"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vfsql"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_meta struct {
	rows   []vfsql.Row
	schema string
	fail   bool
	n      int
	bad    bool
}

// add adds a row, in the order the tables hold them: any.
func (m *vf_meta) add(r vfsql.Row, reversed bool) {
	if reversed {
		m.rows = append([]vfsql.Row{r}, m.rows...)
	} else {
		m.rows = append(m.rows, r)
	}
}

func (m *vf_meta) Exec(q string, args []any) error {
	m.bad = true
	return nil
}

func (m *vf_meta) Query(q string, args []any) ([]string, [][]any, error) {
	m.n++
	if !strings.HasPrefix(strings.TrimSpace(q), "SELECT") || len(args) < 2 {
		m.bad = true
		return nil, nil, errors.New("not a query")
	}
	if m.fail {
		return nil, nil, errors.New("fail")
	}
	if s, ok := args[0].(string); !ok || s != m.schema {
		return vfsql.Columns(q), nil, nil
	}
	var out []vfsql.Row
	for _, r := range m.rows {
		for _, a := range args[1:] {
			if a == r["TABLE_NAME"] {
				out = append(out, r)
				break
			}
		}
	}
	cols, res := vfsql.Answer(q, out)
	return cols, res, nil
}

// Existing indexes are those of the asked tables, each with its columns in order.
func VerifC20_MysqlIndexes() {
	names := []string{"t1", "t2", "t3"}
	var asked []string
	for i, n := range names {
		if vsym.Choice(2) == 1 || i == 0 {
			asked = append(asked, n)
		}
	}
	type ix struct {
		t    string
		cols []string
	}
	var want []ix
	m := &vf_meta{schema: "shop"}
	reversed := vsym.Choice(2) == 1
	for _, t := range names {
		for k := vsym.Choice(3); k > 0; k-- {
			w := ix{t: t}
			for c := 1 + vsym.Choice(vsym.Bound(2, 3)); c > 0; c-- {
				col := vsym.StringOf("aB", 1, 1)
				w.cols = append(w.cols, col)
				iname := []string{"", "idx2", "idx1"}[k]
				m.add(vfsql.Row{"TABLE_NAME": t, "INDEX_NAME": iname, "COLUMN_NAME": col, "SEQ_IN_INDEX": len(w.cols)}, reversed)
			}
			for _, a := range asked {
				if a == t {
					want = append(want, w)
				}
			}
		}
	}
	m.fail = vsym.Choice(2) == 1
	got, err := NewIndexGetter(mysql.NewDB(vfdb.Open("mysql", m))).GetIndexes("shop", asked)
	vsym.Assert(!m.bad, "indexes are read by a query for the database and tables")
	vsym.Assert((err != nil) == m.fail, "failing to read the indexes is an error, nothing else is")
	if err != nil {
		return
	}
	vsym.Assert(len(got) == len(want), "every index of the asked tables is read, once")
	if len(got) != len(want) {
		return
	}
	for i, w := range want {
		g := got[i]
		vsym.Assert(g.TableName == w.t && len(g.Columns) == len(w.cols), "an index has its table and columns")
		if len(g.Columns) != len(w.cols) {
			return
		}
		for k := range w.cols {
			vsym.Assert(g.Columns[k].Name == w.cols[k], "an index has its columns in order")
		}
	}
}

// Table schemas have the columns and primary keys the database reports, for every table asked for.
func VerifC20_MysqlSchemas() {
	names := []string{"t1", "t2", "t3"}
	asked := [][]string{{"t1"}, {"t2", "t1"}, {"t3", "t1", "t2"}, {"t1", "view"}, {"t1", "t1"}}[vsym.Choice(5)]
	m := &vf_meta{schema: "shop"}
	cols, pks := map[string][]string{}, map[string][]string{}
	for _, t := range names {
		for c := vsym.Choice(vsym.Bound(3, 4)); c > 0; c-- {
			col := vsym.StringOf("aB", 1, 1) + string(rune('0'+c))
			key := []string{"", "PRI", "MUL", "UNI"}[vsym.Choice(4)]
			cols[t] = append(cols[t], col)
			m.add(vfsql.Row{"TABLE_NAME": t, "COLUMN_NAME": col, "COLUMN_KEY": key, "ORDINAL_POSITION": len(cols[t])}, false)
			if key == "PRI" {
				pks[t] = append(pks[t], col)
			}
		}
	}
	m.fail = vsym.Choice(2) == 1
	got, err := parser.CollectTableSchemas(mysql.NewDB(vfdb.Open("mysql", m)), "shop", asked)
	vsym.Assert(!m.bad, "schemas are read by a query for the database and tables")
	missing := false
	for _, a := range asked {
		missing = missing || len(cols[a]) == 0
	}
	vsym.Assert((err != nil) == (m.fail || missing), "an unknown table and failing to read are errors, nothing else is")
	if err != nil {
		return
	}
	vsym.Assert(len(got) == len(asked), "every table asked for has a schema")
	if len(got) != len(asked) {
		return
	}
	for i, a := range asked {
		s := got[i]
		vsym.Assert(s != nil && s.Name == a && len(s.Columns) == len(cols[a]) && len(s.PrimaryKeys) == len(pks[a]), "a schema has the table's columns and primary keys")
		if s == nil || len(s.Columns) != len(cols[a]) || len(s.PrimaryKeys) != len(pks[a]) {
			return
		}
		for k, c := range cols[a] {
			vsym.Assert(strings.EqualFold(s.Columns[k].Name, c), "columns come in order")
		}
		for k, c := range pks[a] {
			vsym.Assert(strings.EqualFold(s.PrimaryKeys[k], c), "primary keys are the ones reported")
		}
	}
}
