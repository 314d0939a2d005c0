// Package vfhacmd is a Hasura server a suggest command talks to.
package vfhacmd

import (
	"encoding/json"
	"strings"

	"github.com/mrasu/GravityR/internal/vfcmd"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vfpgcmd"
	"github.com/mrasu/GravityR/internal/vfsql"
	"github.com/mrasu/GravityR/internal/vsym"
)

// Vars are the variables of the query.
const Vars = ` {"n": 9007199254740993, "email":"a@b"}`

// New is a server for a run; its parser knows the query.
func New(r *vfcmd.Run) *Hasura {
	h := &Hasura{Run: r, GQL: "query Q { ta { a } } # " + vsym.StringOf("x\"\n", 0, 2)}
	h.answers = 1
	if h.BadPlan {
		h.answers = 2 * vsym.Choice(2)
	}
	vfpgcmd.Parse(r)
	return h
}

// Check checks the outcome of the command.
func (h *Hasura) Check(err error, page any, path string) {
	data := h.Run.Check(err, page, path, "hasura", "postgres")
	if data == nil {
		return
	}
	vsym.Assert(vfpage.Str(data, "gql") == h.GQL && vfcmd.Option(data, "q") == h.GQL && vfpage.Str(data, "query") == h.Run.Query(), "the page shows the query given and its SQL")
	if h.NoVars {
		_, any := vfpage.At(data, "gqlVariables", "email").(string)
		vsym.Assert(!any && vfcmd.Option(data, "json-variables") == "{}", "without variables there are none")
		return
	}
	vsym.Assert(vfpage.Str(data, "gqlVariables", "email") == "a@b" && vfpage.Num(data, "gqlVariables", "n") == 9007199254740993, "the page shows the variables")
	vsym.Assert(vfcmd.Option(data, "json-variables") == Vars, "the command shown has the variables given")
	n := vfpage.At(data, "analyzeNodes", 0)
	vsym.Assert(vfpage.Len(data, "analyzeNodes") == 1 && vfpage.Str(n, "tableName") == "ta" && vfpage.Num(n, "estimatedReturnedRows") == 10, "the page shows the plan")
	vsym.Assert(vfpage.Str(data, "summaryText") == "Planning Time: 0.1 ms", "the page shows the summary")
}

type Hasura struct {
	*vfcmd.Run
	GQL     string
	NoVars  bool // no variables are given
	answers int
}

func (h *Hasura) variables(x any) {
	m, _ := x.(map[string]any)
	n, _ := m["n"].(json.Number)
	s, _ := m["email"].(string)
	if h.NoVars {
		vsym.Assert(len(m) == 0, "without variables there are none")
		return
	}
	vsym.Assert(len(m) == 2 && string(n) == "9007199254740993" && s == "a@b", "the variables sent are the ones given")
}

func (h *Hasura) Do(method, u string, header map[string]string, body any) (int, any, error) {
	vsym.Assert(method == "POST" && header["X-Hasura-Admin-Secret"] == "secret", "requests carry the secret")
	fail := func(err error) (int, any, error) {
		if h.FailAt%2 == 0 {
			return 500, map[string]any{"error": "x"}, nil
		}
		return 0, nil, err
	}
	b, _ := body.(map[string]any)
	switch u {
	case "http://localhost:8081/v1/graphql/explain":
		q, _ := b["query"].(map[string]any)
		s, _ := q["query"].(string)
		vsym.Assert(vsym.StrEq(s, h.GQL), "the plan asked for is that of the query given")
		h.variables(q["variables"])
		if err := h.Op("plan"); err != nil {
			return fail(err)
		}
		var out []any
		for i := 0; i < h.answers; i++ {
			out = append(out, map[string]any{"field": "ta", "sql": h.Query(), "plan": []any{"Seq Scan on ta  (cost=0.00..1.50 rows=10 width=4)", "  Filter: (b = 'x')", "Planning Time: 0.1 ms"}})
		}
		return 200, out, nil
	case "http://localhost:8081/v1/graphql":
		s, _ := b["query"].(string)
		vsym.Assert(vsym.StrEq(s, h.GQL), "the query run is the one given")
		h.variables(b["variables"])
		if err := h.Op("run"); err != nil {
			if vsym.Choice(2) == 1 {
				return 200, map[string]any{"errors": []any{map[string]any{"message": "x", "path": "$"}}}, nil
			}
			return fail(err)
		}
		return 200, map[string]any{"data": nil}, nil
	case "http://localhost:8081/v2/query":
	default:
		vsym.Assert(false, "only known endpoints are called")
		return 404, nil, nil
	}
	a, _ := b["args"].(map[string]any)
	q, _ := a["sql"].(string)
	ro, _ := a["read_only"].(bool)
	if !strings.HasPrefix(strings.TrimSpace(q), "SELECT") {
		if err := h.DDL(q); err != nil {
			return fail(err)
		}
		return 200, map[string]any{"result_type": "CommandOk", "result": nil}, nil
	}
	vsym.Assert(ro, "metadata is read in read-only mode")
	op := "columns"
	var rows []vfsql.Row
	for _, c := range vfsql.Columns(q) {
		if c == "column_names" {
			op = "indexes"
		}
	}
	if err := h.Op(op); err != nil {
		return fail(err)
	}
	switch {
	case !strings.Contains(q, "'public'") || !strings.Contains(q, "'ta'"):
	case op == "columns":
		for i, c := range []string{"a", h.Col, "c"} {
			rows = append(rows, vfsql.Row{"table_name": "ta", "column_name": c, "is_pk": []string{"f", "t"}[map[bool]int{true: 1}[i == 0]]})
		}
	default:
		rows = append(rows, vfsql.Row{"table_name": "ta", "index_name": "p", "column_names": "{a}"})
		if h.Exists {
			rows = append(rows, vfsql.Row{"table_name": "ta", "index_name": "i", "column_names": "{" + h.Col + "}"})
		}
	}
	cols, res := vfsql.Answer(q, rows)
	var head []any
	for _, c := range cols {
		head = append(head, c)
	}
	out := []any{head}
	for _, r := range res {
		out = append(out, r)
	}
	return 200, map[string]any{"result_type": "TuplesOk", "result": out}, nil
}
