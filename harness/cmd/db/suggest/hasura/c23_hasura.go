package hasura

//vsym:use internal/vfhttp/http.go
//vsym:use internal/vfsql/sql.go
//vsym:use internal/vfspec/*.go
//vsym:use internal/vfpage/*.go
//vsym:use internal/vfcmd/*.go
//vsym:use internal/vfhacmd/*.go
//vsym:use internal/vfpgcmd/*.go
//vsym:use internal/vfpgparse/*.go

import (
	"net/url"

	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/internal/vfcmd"
	"github.com/mrasu/GravityR/internal/vfhacmd"
	"github.com/mrasu/GravityR/internal/vfhttp"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vsym"
)

// The suggest command for Hasura.
func VerifC23_Hasura() {
	h := vfhacmd.New(vfcmd.New('"'))
	path, done := vfpage.New()
	defer done()
	vfhttp.Set(h)
	cli := hasura.NewClient(&hasura.Config{Url: &url.URL{Scheme: "http", Host: "localhost:8081"}, AdminSecret: "secret"})
	r := &postgresRunner{runsExamination: h.Examine, indexTargets: h.Index, query: h.GQL, jsonVariables: vfhacmd.Vars}
	err := r.prepare()
	vsym.Assert(err == nil, "variables are understood")
	err = r.suggest(path, cli)
	h.Check(err, vfpage.Read(path), path)
}

// Variables that are not one JSON object are refused, before anything is sent.
func VerifC23_Variables() {
	ok := []string{"{}", ` {"a":[1,{"b":null}],"c":"x"}
`, "null"}
	bad := []string{"", "{", "[]", "1", `"a"`, `{"a":}`, "{} {}", "{}x", `{"a":1}}`, `{'a':1}`}
	k := vsym.Choice(len(ok) + len(bad))
	r := &postgresRunner{}
	if k < len(ok) {
		r.jsonVariables = ok[k]
	} else {
		r.jsonVariables = bad[k-len(ok)]
	}
	err := r.prepare()
	vsym.Assert((err == nil) == (k < len(ok)), "variables are one JSON object")
	if k == 1 && err == nil {
		s, _ := r.parsedVariables["c"].(string)
		l, _ := r.parsedVariables["a"].([]any)
		vsym.Assert(len(r.parsedVariables) == 2 && s == "x" && len(l) == 2, "variables are as given")
	}
}
