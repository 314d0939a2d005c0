package suggest

//vsym:use internal/vfpgcmd/*.go
//vsym:use internal/vfpgparse/*.go

import (
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/internal/vfcmd"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vfpgcmd"
)

// The suggest command for PostgreSQL.
func VerifC23_Postgres() {
	h := vfpgcmd.New(vfcmd.New('"'))
	path, done := vfpage.New()
	defer done()
	r := &postgresRunner{runsExamination: h.Examine, indexTargets: h.Index, query: h.Run.Query()}
	err := r.suggest(path, postgres.NewDB(vfdb.Open("postgres", h)), "shop")
	h.Check(err, vfpage.Read(path), path)
}
