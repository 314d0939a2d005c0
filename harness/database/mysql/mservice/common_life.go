package mservice

//vsym:use internal/vfspec/sql.go
//vsym:use internal/vflife/life.go
//vsym:use internal/vfdb/db.go

import (
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vflife"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_life struct{ *vflife.Life }

func (h vf_life) Exec(q string, args []any) error { return h.Stmt(q) }

func (h vf_life) Query(q string, args []any) ([]string, [][]any, error) {
	err := h.Stmt(q)
	return []string{"a"}, nil, err
}

func vf_examine(n int, clocked bool) (*vflife.Life, []*dmodel.IndexTarget, *dmodel.ExaminationResult, error) {
	l := &vflife.Life{Query: "SELECT * FROM users", Quote: '`', Clocked: clocked, Faults: 5}
	its := vflife.Targets(n)
	ie := NewIndexExaminer(mysql.NewDB(vfdb.Open("mysql", vf_life{l})), l.Query)
	if clocked {
		vsym.Elapse(1)
	}
	res, err := dservice.NewIndexEfficiencyExaminer(ie).Run(its)
	return l, its, res, err
}
