package mysql

import (
	"github.com/go-sql-driver/mysql"
	"github.com/mrasu/GravityR/internal/vsym"
)

// The driver gets exactly the settings given.
func VerifC19_MysqlSettings() {
	vals := []string{"user", "pass", "tcp", "host:3306", "db"}
	for i := 1; i < 4; i++ {
		if vsym.Choice(2) == 1 {
			vals[i] = ""
		}
	}
	n := vsym.Bound(3, 4)
	switch vsym.Choice(4) {
	case 0:
		vals[0] = vsym.StringOf("aZ@/(?'", 0, n)
	case 1:
		vals[1] = vsym.StringOf("aZ:@/()?&='", 0, n)
	case 2:
		vals[3] = vsym.StringOf("aZ1.-", 1, n)
	case 3:
		vals[4] = vsym.StringOf("aZ_-@:(.", 0, n)
	}
	params := []string{"", "parseTime=true", "tls=skip-verify&timeout=5s", "time_zone=UTC&x=Ab "}
	p := vsym.Choice(len(params))
	for i, k := range []string{"DB_USERNAME", "DB_PASSWORD", "DB_PROTOCOL", "DB_ADDRESS", "DB_DATABASE"} {
		vsym.Setenv(k, vals[i])
	}
	vsym.Setenv("DB_PARAM_TEXT", params[p])
	cfg, err := NewConfigFromEnv()
	vsym.Assert((err != nil) == (vals[0] == "" || vals[4] == ""), "user and database are required, nothing else is")
	if err != nil {
		return
	}
	got, err := mysql.ParseDSN(cfg.ToDSN())
	vsym.Assert(err == nil, "the driver understands the settings")
	if err != nil {
		return
	}
	addr := vals[3]
	if addr == "" {
		addr = "127.0.0.1:3306"
	} else if addr != "host:3306" {
		addr += ":3306"
	}
	vsym.Assert(got.User == vals[0], "the driver gets the user given")
	vsym.Assert(got.Passwd == vals[1], "the driver gets the password given")
	vsym.Assert(got.Net == "tcp" && got.Addr == addr, "the driver gets the address given, or the local one")
	vsym.Assert(got.DBName == vals[4] && cfg.GetDBName() == vals[4], "the driver gets the database given")
	vsym.Assert(got.ParseTime == (p == 1), "the driver gets the additional parameters")
	vsym.Assert((got.TLSConfig == "skip-verify") == (p == 2) && (got.Timeout == 5000000000) == (p == 2), "the driver gets the additional parameters")
	vsym.Assert(p != 3 || got.Params["time_zone"] == "UTC" && got.Params["x"] == "Ab ", "the driver gets the additional parameters")
	vsym.Assert(!got.MultiStatements && !got.AllowAllFiles && !got.InterpolateParams && len(got.Params) == map[int]int{3: 2}[p], "no other setting is made")
}

// Another protocol is passed on.
func VerifC19_MysqlProtocol() {
	sock := vsym.StringOf("a/.", 1, 3)
	for _, kv := range [][2]string{{"DB_USERNAME", "u"}, {"DB_PASSWORD", ""}, {"DB_PROTOCOL", "unix"}, {"DB_ADDRESS", sock}, {"DB_DATABASE", "d"}, {"DB_PARAM_TEXT", ""}} {
		vsym.Setenv(kv[0], kv[1])
	}
	cfg, err := NewConfigFromEnv()
	vsym.Assert(err == nil, "the settings suffice")
	if err != nil {
		return
	}
	got, err := mysql.ParseDSN(cfg.ToDSN())
	vsym.Assert(err == nil && got.Net == "unix" && got.Addr == sock, "the driver gets the protocol and address given")
}
