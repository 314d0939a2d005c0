package hasura

//vsym:use internal/vfhttp/http.go

import (
	"github.com/mrasu/GravityR/internal/vfhttp"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_echo struct {
	method, url, secret string
	n                   int
}

func (e *vf_echo) Do(method, u string, header map[string]string, body any) (int, any, error) {
	e.n++
	e.method, e.url, e.secret = method, u, header["X-Hasura-Admin-Secret"]
	return 200, map[string]any{}, nil
}

// The address and secret are required, kept, and used for every request.
func VerifC19_HasuraSettings() {
	us := []string{"", "http://[bad", "http://localhost:8081", "https://H.example/Base/", "https://h.example:443/a/b"}
	bases := []string{"", "", "http://localhost:8081", "https://H.example/Base", "https://h.example:443/a/b"}
	k := vsym.Choice(len(us))
	u := us[k]
	secret := vsym.StringOf("a'Z \\", 0, 3)
	vsym.Setenv("HASURA_URL", u)
	vsym.Setenv("HASURA_ADMIN_SECRET", secret)
	cfg, err := NewConfigFromEnv()
	vsym.Assert((err != nil) == (k < 2 || secret == ""), "address and secret are required and must be readable")
	if err != nil {
		return
	}
	e := &vf_echo{}
	vfhttp.Set(e)
	cli := NewClient(cfg)
	want := "/v1/graphql"
	for i := 1 + vsym.Choice(2); i > 0; i-- {
		switch vsym.Choice(3) {
		case 0:
			err = cli.QueryWithoutResult("query", nil)
		case 1:
			_, err = cli.RunRawSQL("SELECT 1")
			want = "/v2/query"
		case 2:
			_, err = cli.RunSQL(&RunSQLArgs{SQL: "SELECT 1"})
			want = "/v2/query"
		}
		vsym.Assert(err == nil && e.method == "POST" && e.url == bases[k]+want && e.secret == secret, "requests go to the address given, with the secret given")
		e.n, want = 0, "/v1/graphql"
	}
}
