package hservice

//vsym:use internal/vfspec/sql.go
//vsym:use internal/vflife/life.go
//vsym:use internal/vfhttp/http.go

import (
	"net/url"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/internal/vfhttp"
	"github.com/mrasu/GravityR/internal/vflife"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_life struct{ *vflife.Life }

func (h vf_life) Do(method, u string, header map[string]string, body any) (int, any, error) {
	m, _ := body.(map[string]any)
	q, ok := m["query"].(string)
	if !ok {
		a, _ := m["args"].(map[string]any)
		q, _ = a["sql"].(string)
	}
	if err := h.Stmt(q); err != nil {
		if !h.Clocked && vsym.Choice(2) == 1 {
			return []int{500, 400, 503}[len(q)%3], map[string]any{"error": "x"}, nil
		}
		return 0, nil, err
	}
	if ok {
		return 200, map[string]any{"data": map[string]any{}}, nil
	}
	return 200, map[string]any{"result_type": "CommandOk", "result": nil}, nil
}

func vf_examine(n int, clocked bool) (*vflife.Life, []*dmodel.IndexTarget, *dmodel.ExaminationResult, error) {
	l := &vflife.Life{Query: "query { users { name } }", Quote: '"', Clocked: clocked, Faults: 2}
	its := vflife.Targets(n)
	vfhttp.Set(vf_life{l})
	cli := hasura.NewClient(&hasura.Config{Url: &url.URL{Scheme: "http", Host: "localhost:8081"}, AdminSecret: "secret"})
	ie := NewIndexExaminer(cli, l.Query, nil)
	if clocked {
		vsym.Elapse(1)
	}
	res, err := dservice.NewIndexEfficiencyExaminer(ie).Run(its)
	return l, its, res, err
}
