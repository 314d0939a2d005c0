package cmd

//vsym:use internal/vfdb/db.go
//vsym:use internal/vfsql/sql.go
//vsym:use internal/vfspec/*.go
//vsym:use internal/vfpage/*.go
//vsym:use internal/vfcmd/*.go
//vsym:use internal/vfmycmd/*.go
//vsym:use internal/vfmyparse/*.go
//vsym:use internal/vfpgcmd/*.go
//vsym:use internal/vfpgparse/*.go
//vsym:use internal/vfhacmd/*.go
//vsym:use internal/vfhttp/http.go
//vsym:use internal/vfopen/*.go
//vsym:use internal/vfgrpc/*.go

import (
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vfcmd"
	"github.com/mrasu/GravityR/internal/vfgrpc"
	"github.com/mrasu/GravityR/internal/vfhacmd"
	"github.com/mrasu/GravityR/internal/vfhttp"
	"github.com/mrasu/GravityR/internal/vfmycmd"
	"github.com/mrasu/GravityR/internal/vfopen"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vfpgcmd"
	"github.com/mrasu/GravityR/internal/vsym"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
)

// vf_exec runs the program with a command line.
func vf_exec(args []string) error {
	if !vsym.Symbolic() {
		vf_reset(rootCmd) // replays share a process
	}
	rootCmd.SetArgs(args)
	return rootCmd.Execute()
}

func vf_reset(c *cobra.Command) {
	f := func(f *pflag.Flag) {
		f.Changed = false
		if s, ok := f.Value.(pflag.SliceValue); ok {
			s.Replace(nil)
		} else {
			f.Value.Set(f.DefValue)
		}
	}
	c.Flags().VisitAll(f)
	c.PersistentFlags().VisitAll(f)
	for _, s := range c.Commands() {
		vf_reset(s)
	}
}

// vf_opt writes an option of a command line in one of the ways there are.
func vf_opt(way int, short, long, v string) []string {
	if short == "" && way != 1 && way != 2 {
		way = 1
	}
	switch way {
	case 0:
		return []string{"-" + short, v}
	case 1:
		return []string{"--" + long, v}
	case 2:
		return []string{"--" + long + "=" + v}
	default:
		return []string{"-" + short + v}
	}
}

// vf_line is the command line of a run of a suggest command; bad tells that it is none.
func vf_line(r *vfcmd.Run, path, query string, sub []string, more ...[]string) (line []string, bad bool) {
	way, pos := vsym.Choice(4), vsym.Choice(3)
	kind := vsym.Choice(9) // 0-3: a command line that can be understood
	out, q := vf_opt(way, "o", "output", path), vf_opt(way, "q", "query", query)
	var rest []string
	if kind == 4 {
		q = nil
	}
	if kind == 5 {
		out = nil
	}
	rest = append(rest, q...)
	for i, x := range r.Index {
		rest = append(rest, vf_opt((way+i)%4, "i", "index", x)...)
	}
	switch {
	case kind == 6:
		rest = append(rest, "--with-examine=maybe")
	case r.Examine && kind == 1:
		rest = append([]string{"--with-examine=true"}, rest...)
	case r.Examine:
		rest = append(rest, "--with-examine")
	case kind == 2:
		rest = append(rest, "--with-examine=false")
	}
	if kind == 3 {
		rest = append(rest, "-v")
	}
	if kind == 7 {
		rest = append(rest, "--bogus")
	}
	for _, m := range more {
		rest = append(rest, m...)
	}
	switch pos {
	case 0: // all after the command
		line = append(append(append([]string{"db", "suggest"}, sub...), out...), rest...)
	case 1: // options of the group before the command
		line = append(append(append(append([]string{"db"}, out...), "suggest"), sub...), rest...)
	case 2:
		line = append(append(append([]string{"-v", "db", "suggest"}, sub...), rest...), out...)
	}
	if kind == 8 {
		line = append(line, "-q")
	}
	return line, kind > 3
}

// vf_plain is a run that goes well.
func vf_plain(quote byte) *vfcmd.Run {
	r := vfcmd.New(quote)
	vsym.Assume(r.FailAt == -1 && !r.BadPlan && !r.BadSQL && !r.Exists && r.Col == "b" && r.Field == "a")
	if vsym.Choice(2) == 1 {
		vsym.Assume(r.Index == nil)
		r.Index, r.Given, r.BadIdx = []string{"ta:c,tb:d"}, nil, true // one argument is one index
	} else if len(r.Index) == 1 && !r.BadIdx && vsym.Choice(2) == 1 {
		r.Index, r.Given = []string{"ta:c", "ta:c+a"}, []*dmodel.IndexTarget{dmodel.NewIndexTarget("ta", []string{"c"}), dmodel.NewIndexTarget("ta", []string{"c", "a"})}
	}
	return r
}

func vf_env(kv ...string) {
	for i := 0; i < len(kv); i += 2 {
		vsym.Setenv(kv[i], kv[i+1])
	}
}

// suggest mysql.
func VerifC24_Mysql() {
	vsym.Init("github.com/spf13/cobra")
	r := vf_plain('`')
	h := vfmycmd.New(r)
	path, done := vfpage.New()
	defer done()
	vfopen.Set(h)
	line, bad := vf_line(r, path, r.Query(), []string{"mysql"})
	env := vsym.Choice(3)
	vsym.Assume(env == 0 || !bad)
	vf_env("DB_USERNAME", "us", "DB_PASSWORD", "pw", "DB_PROTOCOL", "", "DB_ADDRESS", "h:1", "DB_DATABASE", "shop", "DB_PARAM_TEXT", "parseTime=true")
	switch env {
	case 1:
		vf_env("DB_USERNAME", "")
	case 2:
		vf_env("DB_DATABASE", "")
	}
	err := vf_exec(line)
	page := vfpage.Read(path)
	if bad || env > 0 {
		vsym.Assert(err != nil, "a command line that is not understood and settings that are missing are errors")
		vsym.Assert(page == nil && len(vfopen.Opened) == 0 && len(r.Ops) == 0, "then nothing is done")
		return
	}
	h.Check(err, page, path)
	for _, o := range vfopen.Opened {
		c, err := mysql.ParseDSN(o[1])
		vsym.Assert(o[0] == "mysql" && err == nil && c.User == "us" && c.Passwd == "pw" && c.Addr == "h:1" && c.DBName == "shop" && c.ParseTime, "the database is the one of the settings")
	}
	vsym.Assert(len(vfopen.Opened) <= 1, "one database is opened")
}

// suggest postgres.
func VerifC24_Postgres() {
	vsym.Init("github.com/spf13/cobra")
	r := vf_plain('"')
	h := vfpgcmd.New(r)
	path, done := vfpage.New()
	defer done()
	vfopen.Set(h)
	line, bad := vf_line(r, path, r.Query(), []string{"postgres"})
	env := vsym.Choice(3)
	vsym.Assume(env == 0 || !bad)
	vf_env("DB_USERNAME", "us", "DB_PASSWORD", "pw", "DB_HOST", "h", "DB_PORT", "1", "DB_DATABASE", "dbx", "DB_SEARCH_PATH", "shop", "DB_PARAM_TEXT", "")
	switch env {
	case 1:
		vf_env("DB_USERNAME", "")
	case 2:
		vf_env("DB_DATABASE", "")
	}
	err := vf_exec(line)
	page := vfpage.Read(path)
	if bad || env > 0 {
		vsym.Assert(err != nil, "a command line that is not understood and settings that are missing are errors")
		vsym.Assert(page == nil && len(vfopen.Opened) == 0 && len(r.Ops) == 0, "then nothing is done")
		return
	}
	h.Check(err, page, path)
	for _, o := range vfopen.Opened {
		ks, vs, ok := vfopen.KV(o[1])
		vsym.Assert(o[0] == "postgres" && ok, "the database is the one of the settings")
		for _, kv := range [][2]string{{"user", "us"}, {"password", "pw"}, {"host", "h"}, {"port", "1"}, {"dbname", "dbx"}} {
			v, _ := vfopen.Last(ks, vs, kv[0])
			vsym.Assert(v == kv[1], "the database is the one of the settings")
		}
	}
	vsym.Assert(len(vfopen.Opened) <= 1, "one database is opened")
}

// suggest hasura postgres.
func VerifC24_Hasura() {
	vsym.Init("github.com/spf13/cobra")
	r := vf_plain('"')
	h := vfhacmd.New(r)
	path, done := vfpage.New()
	defer done()
	vfhttp.Set(h)
	var more []string
	vars := vsym.Choice(4)
	switch vars {
	case 0:
		h.NoVars = true
	case 1:
		more = []string{"--json-variables", vfhacmd.Vars}
	case 2:
		more = []string{"--json-variables=" + vfhacmd.Vars}
	case 3:
		more = []string{"--json-variables", "{"}
	}
	line, bad := vf_line(r, path, h.GQL, []string{"hasura", "postgres"}, more)
	env := vsym.Choice(3)
	vsym.Assume((env == 0 || vars == 0) && (!bad || env == 0 && vars < 2))
	vf_env("HASURA_URL", "http://localhost:8081", "HASURA_ADMIN_SECRET", "secret")
	switch env {
	case 1:
		vf_env("HASURA_URL", "")
	case 2:
		vf_env("HASURA_ADMIN_SECRET", "")
	}
	err := vf_exec(line)
	page := vfpage.Read(path)
	if bad || env > 0 || vars == 3 {
		vsym.Assert(err != nil, "a command line that is not understood and settings that are missing are errors")
		vsym.Assert(page == nil && len(r.Ops) == 0, "then nothing is done")
		return
	}
	h.Check(err, page, path)
}

type vf_jaeger struct {
	reqs []*api_v3.TraceQueryParameters
}

func (j *vf_jaeger) Find(req *api_v3.FindTracesRequest) vfgrpc.Reply {
	j.reqs = append(j.reqs, req.Query)
	return vfgrpc.Reply{}
}

// vf_number is a number as a command line has it, with its value.
func vf_number() (string, int64) {
	k := vsym.Choice(5)
	if k == 0 {
		s := vsym.StringOf("123456789", 1, 3)
		n := int64(0)
		for i := 0; i < len(s); i++ {
			n = n*10 + int64(s[i]-'0')
		}
		return s, n
	}
	return []string{"", "0", "86400000", "1500", "2147483647"}[k], []int64{0, 0, 86400000, 1500, 2147483647}[k]
}

// dig jaeger.
func VerifC24_Jaeger() {
	vsym.Init("github.com/spf13/cobra")
	vsym.Init("time")
	j := &vf_jaeger{}
	path, done := vfpage.New()
	defer done()
	addr, stop := vfgrpc.Listen(j)
	defer stop()
	now := time.Now()
	way := vsym.Choice(4)
	svc := "x" + vsym.String(0, 2)
	dur, same, count := int64(1000), int64(5), int64(500)
	start := now.Add(-24 * time.Hour)
	kind := vsym.Choice(10) // 0: a command line that can be understood
	out, sv := vf_opt(way, "o", "output", path), vf_opt(way, "s", "service-name", svc)
	if kind == 1 {
		out = nil
	}
	if kind == 2 {
		sv = nil
	}
	rest := append([]string{}, sv...)
	var s string
	switch vsym.Choice(5) {
	case 1:
		s, dur = vf_number()
		rest = append(rest, vf_opt(way, "d", "min-duration-millisecond", s)...)
	case 2:
		s, same = vf_number()
		rest = append(rest, vf_opt(way, "t", "same-service-threshold", s)...)
	case 3:
		s, count = vf_number()
		rest = append(rest, vf_opt(way, "c", "count", s)...)
	case 4:
		start = now.Add(-30 * time.Hour)
		rest = append(rest, vf_opt(way, "", "start-from", start.UTC().Format(time.RFC3339))...)
	}
	switch kind {
	case 3:
		rest = append(rest, "-d", "1s")
	case 4:
		rest = append(rest, "--count=many")
	case 5:
		rest = append(rest, "--bogus")
	case 6:
		rest = append(rest, "--start-from", "yesterday")
	case 7:
		rest = append(rest, "-c", "4294967297") // cannot be asked for
	}
	line := []string{"app"}
	switch vsym.Choice(2) {
	case 0:
		line = append(append(append(line, "dig", "jaeger"), out...), rest...)
	case 1:
		line = append(append(append(append(line, out...), "dig", "jaeger"), rest...), "-v")
	}
	vf_env("JAEGER_UI_URL", "http://ui", "JAEGER_GRPC_ADDRESS", addr)
	switch kind {
	case 8:
		vf_env("JAEGER_UI_URL", "")
	case 9:
		vf_env("JAEGER_GRPC_ADDRESS", "")
	}
	err := vf_exec(line)
	page := vfpage.Read(path)
	if kind > 0 {
		vsym.Assert(err != nil, "a command line that is not understood and settings that are missing are errors")
		vsym.Assert(page == nil && len(j.reqs) == 0, "then nothing is done")
		return
	}
	vsym.Assert(err == nil && page != nil && len(j.reqs) > 0, "traces are asked for and a page is made")
	near := func(t, u time.Time) bool {
		d := t.Sub(u)
		return d < 10*time.Second && d > -10*time.Second
	}
	for _, q := range j.reqs {
		vsym.Assert(q.ServiceName == svc, "the service is the one given")
		vsym.Assert(int64(q.NumTraces) == count, "the number of traces is the one given, or 500")
		vsym.Assert(q.DurationMin != nil && q.DurationMin.Seconds*1000+int64(q.DurationMin.Nanos)/1000000 == dur, "the duration is the one given, or a second")
	}
	for i, q := range j.reqs {
		if i == 0 || q.StartTimeMin.Seconds < j.reqs[0].StartTimeMin.Seconds {
			start0 := time.Unix(q.StartTimeMin.Seconds, 0)
			vsym.Assert(near(start0, start), "the period starts where it was asked to, or a day ago")
		}
	}
	d := vfpage.At(page, "digData", "jaeger")
	vsym.Assert(vfpage.Str(d, "uiPath") == "http://ui" && vsym.FloatSame(vfpage.Num(d, "slowThresholdMilli"), float64(dur)) && vsym.FloatSame(vfpage.Num(d, "sameServiceThreshold"), float64(same)), "the page names the settings")
}
