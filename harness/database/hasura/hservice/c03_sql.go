package hservice

//vsym:use internal/vfspec/sql.go
//vsym:use internal/vfhttp/http.go

import (
	"net/url"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/internal/vfhttp"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_sent struct {
	sent []string
	bad  bool
}

func (h *vf_sent) Do(method, u string, header map[string]string, body any) (int, any, error) {
	m, _ := body.(map[string]any)
	if method != "POST" || m == nil || header["X-Hasura-Admin-Secret"] != "secret" {
		h.bad = true
	}
	switch u {
	case "http://localhost:8081/v1/graphql":
		q, _ := m["query"].(string)
		h.sent = append(h.sent, q)
		v, _ := m["variables"].(map[string]any)
		if x, _ := v["k"].(string); x != "v" || len(v) != 1 {
			h.bad = true
		}
		return 200, map[string]any{"data": map[string]any{}}, nil
	case "http://localhost:8081/v2/query":
		a, _ := m["args"].(map[string]any)
		s, _ := a["sql"].(string)
		if t, _ := m["type"].(string); t != "run_sql" {
			h.bad = true
		}
		if ro, _ := a["read_only"].(bool); ro {
			h.bad = true
		}
		h.sent = append(h.sent, s)
		return 200, map[string]any{"result_type": "CommandOk", "result": nil}, nil
	}
	h.bad = true
	return 404, vfhttp.Raw("not found"), nil
}

// The requests sent to Hasura while an index is examined.
func VerifC03_hasura() {
	if it := vfspec.Target(); it != nil {
		vf_sql("q", it)
	}
}

// Whatever the query is, it is sent unchanged.
func VerifC03_hasuraQuery() {
	vf_sql(vfspec.Query("q{}% ;"), dmodel.NewIndexTarget("t", []string{"c"}))
}

func vf_sql(query string, it *dmodel.IndexTarget) {
	h := &vf_sent{}
	vfhttp.Set(h)
	cli := hasura.NewClient(&hasura.Config{Url: &url.URL{Scheme: "http", Host: "localhost:8081"}, AdminSecret: "secret"})
	ie := NewIndexExaminer(cli, query, map[string]interface{}{"k": "v"})
	_, err := dservice.NewIndexEfficiencyExaminer(ie).Run([]*dmodel.IndexTarget{it})
	vsym.Assert(err == nil, "nothing failed")
	vsym.Assert(!h.bad, "requests go to the GraphQL and run_sql endpoints, with secret and variables")
	vfspec.IndexSQL(false, query, it, h.sent)
}
