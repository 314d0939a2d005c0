package postgres

//vsym:use internal/vfopen/*.go
//vsym:use internal/vfdb/db.go

import (
	"github.com/mrasu/GravityR/internal/vfopen"
	"github.com/mrasu/GravityR/internal/vsym"
)

const vf_chars = "aZ'\\ =:@/"

func vf_setenv(user, pass, host, port, db, path, param string) {
	vsym.Setenv("DB_USERNAME", user)
	vsym.Setenv("DB_PASSWORD", pass)
	vsym.Setenv("DB_HOST", host)
	vsym.Setenv("DB_PORT", port)
	vsym.Setenv("DB_DATABASE", db)
	vsym.Setenv("DB_SEARCH_PATH", path)
	vsym.Setenv("DB_PARAM_TEXT", param)
}

// The driver gets exactly the settings given, whatever characters they hold.
func VerifC19_PostgresSettings() {
	vals := []string{"user", "pass", "host", "5432", "db"}
	opt := []bool{false, true, true, true, false}
	for i := range vals {
		if opt[i] && vsym.Choice(2) == 1 {
			vals[i] = ""
		}
	}
	k := vsym.Choice(len(vals))
	vals[k] = vsym.StringOf(vf_chars, 0, vsym.Bound(3, 4))
	params := []string{"", "connect_timeout=5", "sslmode=require", "connect_timeout = '5' sslmode=verify-full"}
	p := vsym.Choice(len(params))
	vf_setenv(vals[0], vals[1], vals[2], vals[3], vals[4], "", params[p])
	cfg, err := NewConfigFromEnv()
	vsym.Assert((err != nil) == (vals[0] == "" || vals[4] == ""), "user and database are required, nothing else is")
	if err != nil {
		return
	}
	ks, vs, ok := vfopen.KV(cfg.GetKVConnectionString())
	vsym.Assert(ok, "the connection string can be read")
	if !ok {
		return
	}
	for i, name := range []string{"user", "password", "host", "port", "dbname"} {
		v, has := vfopen.Last(ks, vs, name)
		vsym.Assert(has == (vals[i] != "") && v == vals[i], "the driver gets exactly the "+name+" given")
	}
	ct, has := vfopen.Last(ks, vs, "connect_timeout")
	vsym.Assert(has == (p == 1 || p == 3) && (!has || ct == "5"), "the driver gets the additional parameters")
	ssl, has := vfopen.Last(ks, vs, "sslmode")
	vsym.Assert(has && ssl == []string{"disable", "disable", "require", "verify-full"}[p], "SSL is off unless the additional parameters say otherwise")
	for _, k := range ks {
		vsym.Assert(k == "user" || k == "password" || k == "host" || k == "port" || k == "dbname" || k == "sslmode" || k == "connect_timeout", "no other setting is made")
	}
	vsym.Assert(cfg.DBName == vals[4], "the database is the one given")
}

// The search path is the one given, or public.
func VerifC19_PostgresSearchPath() {
	path := vsym.StringOf("a,\" ", 0, 3)
	vf_setenv("u", "", "", "", "d", path, "")
	cfg, err := NewConfigFromEnv()
	vsym.Assert(err == nil, "the settings suffice")
	if err != nil {
		return
	}
	want := path
	if want == "" {
		want = "public"
	}
	vsym.Assert(cfg.GetSearchPathOrPublic() == want, "the search path is the one given, or public")
}
