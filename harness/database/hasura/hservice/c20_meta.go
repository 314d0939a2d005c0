package hservice

//vsym:use internal/vfhttp/http.go
//vsym:use internal/vfsql/sql.go

import (
	"errors"
	"net/url"
	"strings"

	"github.com/mrasu/GravityR/database/hasura/hservice/parser"
	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/internal/vfhttp"
	"github.com/mrasu/GravityR/internal/vfsql"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_meta struct {
	rows   []vfsql.Row
	schema string
	asked  []string
	fail   int // 0 answers, 1 no connection, 2 status 400, 3 not JSON
	n      int
	bad    bool
	sent   []string
}

func (m *vf_meta) Do(method, u string, header map[string]string, body any) (int, any, error) {
	m.n++
	b, _ := body.(map[string]any)
	a, _ := b["args"].(map[string]any)
	q, _ := a["sql"].(string)
	t, _ := b["type"].(string)
	ro, _ := a["read_only"].(bool)
	if method != "POST" || u != "http://localhost:8081/v2/query" || header["X-Hasura-Admin-Secret"] != "secret" || t != "run_sql" || !ro {
		m.bad = true
	}
	if !strings.HasPrefix(strings.TrimSpace(q), "SELECT") || strings.Contains(q, "?") || strings.Contains(q, ";") {
		m.bad = true
	}
	m.sent = append(m.sent, q)
	switch m.fail {
	case 1:
		return 0, nil, errors.New("connection")
	case 2:
		return 400, map[string]any{"error": "x"}, nil
	case 3:
		return 200, vfhttp.Raw("<html>"), nil
	}
	lits := vf_literals(q)
	var out []vfsql.Row
	for _, r := range m.rows {
		if !vf_in(lits, m.schema) {
			break
		}
		for _, a := range lits {
			if a == r["table_name"] {
				out = append(out, r)
				break
			}
		}
	}
	cols, rows := vfsql.Answer(q, out)
	var head []any
	for _, c := range cols {
		head = append(head, c)
	}
	res := []any{head}
	for _, r := range rows {
		res = append(res, r)
	}
	return 200, map[string]any{"result_type": "TuplesOk", "result": res}, nil
}

func vf_in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func vf_literals(q string) []string {
	var out []string
	for i := 0; i < len(q); i++ {
		if q[i] != '\'' {
			continue
		}
		k := i + 1
		for i++; i < len(q) && q[i] != '\''; i++ {
		}
		if i < len(q) {
			out = append(out, q[k:i])
		}
	}
	return out
}

func vf_client(m *vf_meta) *hasura.Client {
	vfhttp.Set(m)
	return hasura.NewClient(&hasura.Config{Url: &url.URL{Scheme: "http", Host: "localhost:8081"}, AdminSecret: "secret"})
}

func vf_word(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			return false
		}
	}
	return len(s) > 0
}

// Whatever the names are, the query holds them as plain literals or is not sent.
func VerifC20_HasuraNames() {
	schema, t1, t2 := "public", "t1", "t2"
	n := vsym.Bound(2, 3)
	switch vsym.Choice(3) {
	case 0:
		schema = vsym.String(0, n)
	case 1:
		t1 = vsym.String(0, n)
	case 2:
		t2 = vsym.String(0, n)
	}
	m := &vf_meta{schema: schema, asked: []string{t1, t2}}
	cli := vf_client(m)
	var err error
	indexes := vsym.Choice(2) == 0
	ask := func(schema string, tables []string) error {
		if indexes {
			_, err := cli.GetIndexes(schema, tables)
			return err
		}
		_, err := cli.GetTableColumns(schema, tables)
		return err
	}
	err = ask(schema, []string{t1, t2})
	ok := vf_word(schema) && vf_word(t1) && vf_word(t2)
	vsym.Assert((err == nil) == ok && (m.n == 1) == ok, "names that are not words are refused and not sent")
	vsym.Assert(!m.bad, "the query is read-only")
	if !ok || len(m.sent) != 1 {
		return
	}
	// the literals are the ones of the same query for other names, with the names in place
	err = ask("vschema", []string{"vtable1", "vtable2"})
	vsym.Assert(err == nil && len(m.sent) == 2, "words are names")
	if len(m.sent) != 2 {
		return
	}
	got, ref := vf_literals(m.sent[0]), vf_literals(m.sent[1])
	vsym.Assert(len(got) == len(ref), "names are literals")
	if len(got) != len(ref) {
		return
	}
	names := map[string]string{"vschema": schema, "vtable1": t1, "vtable2": t2}
	seen := 0
	for i, l := range ref {
		w, isName := names[l]
		if !isName {
			w = l
		} else {
			seen++
		}
		vsym.Assert(got[i] == w, "the query holds the schema and the tables as they are")
	}
	vsym.Assert(seen >= 3, "the query holds the schema and the tables")
}

// Existing indexes are those of the asked tables, each with its columns in order.
func VerifC20_HasuraIndexes() {
	names := []string{"t1", "t2", "t3"}[:vsym.Bound(2, 3)]
	asked := [][]string{{"t1"}, {"t1", "t2"}, {"t2", "t1"}}[vsym.Choice(3)]
	quoted := vsym.Choice(2) == 1
	type ix struct {
		t    string
		cols []string
	}
	var want []ix
	m := &vf_meta{schema: "shop", asked: asked}
	for _, t := range names {
		for k := vsym.Choice(3); k > 0; k-- {
			w := ix{t: t}
			text := "{"
			for c := 1 + vsym.Choice(2); c > 0; c-- {
				col, shown := vsym.StringOf("aB", 1, 1), ""
				shown = col
				if quoted && c == 1 {
					col, shown = "lower((a)::text) \"x\"", `"lower((a)::text) \"x\""`
				}
				w.cols = append(w.cols, col)
				if len(text) > 1 {
					text += ","
				}
				text += shown
			}
			m.rows = append(m.rows, vfsql.Row{"table_name": t, "index_name": "x", "column_names": text + "}"})
			for _, a := range asked {
				if a == t {
					want = append(want, w)
				}
			}
		}
	}
	m.fail = vsym.Choice(4)
	got, err := NewIndexGetter(vf_client(m)).GetIndexes("shop", asked)
	vsym.Assert(!m.bad, "indexes are read by a query for the database and tables")
	vsym.Assert((err != nil) == (m.fail > 0), "failing to read the indexes is an error, nothing else is")
	if err != nil {
		return
	}
	vsym.Assert(len(got) == len(want), "every index of the asked tables is read, once")
	if len(got) != len(want) {
		return
	}
	for i, w := range want {
		g := got[i]
		vsym.Assert(g.TableName == w.t && len(g.Columns) == len(w.cols), "an index has its table and columns")
		if len(g.Columns) != len(w.cols) {
			return
		}
		for k := range w.cols {
			vsym.Assert(g.Columns[k].Name == w.cols[k], "an index has its columns in order")
		}
	}
}

// Table schemas have the columns and primary keys the database reports, for every table asked for.
func VerifC20_HasuraSchemas() {
	names := []string{"t1", "t2", "t3"}
	asked := [][]string{{"t1"}, {"t2", "t1"}, {"t3", "t1", "t2"}, {"t1", "view"}, {"t1", "t1"}}[vsym.Choice(5)]
	m := &vf_meta{schema: "shop", asked: asked}
	cols, pks := map[string][]string{}, map[string][]string{}
	for _, t := range names {
		for c := vsym.Choice(vsym.Bound(3, 4)); c > 0; c-- {
			col := vsym.StringOf("aB", 1, 1) + string(rune('0'+c))
			key := vsym.Choice(2) == 1
			m.rows = append(m.rows, vfsql.Row{"table_name": t, "column_name": col, "is_pk": map[bool]string{true: "t", false: "f"}[key]})
			cols[t] = append(cols[t], col)
			if key {
				pks[t] = append(pks[t], col)
			}
		}
	}
	m.fail = vsym.Choice(4)
	got, err := parser.CollectTableSchemas(vf_client(m), "shop", asked)
	vsym.Assert(!m.bad, "schemas are read by a query for the database and tables")
	missing := false
	for _, a := range asked {
		missing = missing || len(cols[a]) == 0
	}
	vsym.Assert((err != nil) == (m.fail > 0 || missing), "an unknown table and failing to read are errors, nothing else is")
	if err != nil {
		return
	}
	vsym.Assert(len(got) == len(asked), "every table asked for has a schema")
	if len(got) != len(asked) {
		return
	}
	for i, a := range asked {
		s := got[i]
		vsym.Assert(s != nil && s.Name == a && len(s.Columns) == len(cols[a]) && len(s.PrimaryKeys) == len(pks[a]), "a schema has the table's columns and primary keys")
		if s == nil || len(s.Columns) != len(cols[a]) || len(s.PrimaryKeys) != len(pks[a]) {
			return
		}
		for k, c := range cols[a] {
			vsym.Assert(s.Columns[k].Name == c, "columns come in order")
		}
		for k, c := range pks[a] {
			vsym.Assert(s.PrimaryKeys[k] == c, "primary keys are the ones reported")
		}
	}
}
