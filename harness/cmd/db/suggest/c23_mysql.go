package suggest

//vsym:use internal/vfdb/db.go
//vsym:use internal/vfsql/sql.go
//vsym:use internal/vfspec/*.go
//vsym:use internal/vfpage/*.go
//vsym:use internal/vfcmd/*.go
//vsym:use internal/vfmycmd/*.go
//vsym:use internal/vfmyparse/*.go

import (
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/internal/vfcmd"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vfmycmd"
	"github.com/mrasu/GravityR/internal/vfpage"
)

// The suggest command for MySQL.
func VerifC23_Mysql() {
	h := vfmycmd.New(vfcmd.New('`'))
	path, done := vfpage.New()
	defer done()
	r := &mysqlRunner{runsExamination: h.Examine, indexTargets: h.Index, query: h.Run.Query()}
	err := r.suggest(path, mysql.NewDB(vfdb.Open("mysql", h)), "shop")
	h.Check(err, vfpage.Read(path), path)
}
