package pservice

//vsym:use internal/vfspec/sql.go
//vsym:use internal/vfdb/db.go

import (
	"errors"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_sent struct {
	sent []string
	args int
}

func (h *vf_sent) Exec(q string, args []any) error {
	h.sent = append(h.sent, q)
	h.args += len(args)
	return nil
}

func (h *vf_sent) Query(q string, args []any) ([]string, [][]any, error) {
	h.sent = append(h.sent, q)
	return nil, nil, errors.New("no rows")
}

// The statements sent to the database while an index is examined.
func VerifC03_postgres() {
	if it := vfspec.Target(); it != nil {
		vf_sql("q", it)
	}
}

// Whatever the query is, it is sent unchanged.
func VerifC03_postgresQuery() {
	vf_sql(vfspec.Query(""), dmodel.NewIndexTarget("t", []string{"c"}))
}

func vf_sql(query string, it *dmodel.IndexTarget) {
	h := &vf_sent{}
	ie := NewIndexExaminer(postgres.NewDB(vfdb.Open("postgres", h)), query)
	_, err := dservice.NewIndexEfficiencyExaminer(ie).Run([]*dmodel.IndexTarget{it})
	vsym.Assert(err == nil, "nothing failed")
	vsym.Assert(h.args == 0, "no bind parameters")
	vfspec.IndexSQL(false, query, it, h.sent)
}
