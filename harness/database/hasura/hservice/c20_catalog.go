package hservice

//vsym:use internal/vfcat/*.go

import (
	"net/url"

	"github.com/mrasu/GravityR/database/hasura/hservice/parser"
	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/internal/vfcat"
	"github.com/mrasu/GravityR/internal/vfhttp"
	"github.com/mrasu/GravityR/internal/vsym"
)

// vf_cat answers queries on the catalogue.
type vf_cat struct {
	c       *vfcat.PG
	unknown bool
}

func (m *vf_cat) Do(method, u string, header map[string]string, body any) (int, any, error) {
	b, _ := body.(map[string]any)
	a, _ := b["args"].(map[string]any)
	q, _ := a["sql"].(string)
	cols, rows, ok := m.c.Answer(q, nil)
	m.unknown = m.unknown || !ok
	var head []any
	for _, c := range cols {
		head = append(head, c)
	}
	res := []any{head}
	for _, r := range rows {
		var out []any
		for _, v := range r {
			switch x := v.(type) {
			case bool:
				v = map[bool]string{true: "t", false: "f"}[x]
			case []byte:
				v = string(x)
			case nil:
				v = "NULL"
			}
			out = append(out, v)
		}
		res = append(res, out)
	}
	return 200, map[string]any{"result_type": "TuplesOk", "result": res}, nil
}

func vf_catClient(m *vf_cat) *hasura.Client {
	vfhttp.Set(m)
	return hasura.NewClient(&hasura.Config{Url: &url.URL{Scheme: "http", Host: "localhost:8081"}, AdminSecret: "secret"})
}

// The indexes read are those the catalogue has for the tables of the schema, with the names of their columns.
func VerifC20_HasuraCatalogIndexes() {
	s := vfcat.NewShop(true)
	c, all := s.PG()
	asked := [][]string{{"t1"}, {"t2", "t1"}, {"t2"}}[vsym.Choice(3)]
	m := &vf_cat{c: c}
	got, err := NewIndexGetter(vf_catClient(m)).GetIndexes("shop", asked)
	vsym.Assume(!m.unknown)
	vsym.Assert(err == nil, "indexes can be read")
	if err != nil {
		return
	}
	var ixs []vfcat.Index
	for _, g := range got {
		x := vfcat.Index{Table: g.TableName}
		for _, c := range g.Columns {
			x.Cols = append(x.Cols, c.Name)
		}
		ixs = append(ixs, x)
	}
	vsym.Assert(vfcat.Same(ixs, all, asked), "the indexes are those of the tables of the schema, each with its columns in order")
}

// A table's schema has the columns the table has, in order, each once, and its primary key.
func VerifC20_HasuraCatalogSchemas() {
	s := vfcat.NewShop(true)
	c, _ := s.PG()
	asked := [][]string{{"t1"}, {"t2", "t1"}, {"t2"}, {"t1", "v"}, {"none"}}[vsym.Choice(5)]
	m := &vf_cat{c: c}
	got, err := parser.CollectTableSchemas(vf_catClient(m), "shop", asked)
	vsym.Assume(!m.unknown)
	bad := asked[len(asked)-1] == "v" || asked[0] == "none"
	vsym.Assert((err != nil) == bad, "what is no table of the schema is an error, nothing else is")
	if err != nil {
		return
	}
	vsym.Assert(len(got) == len(asked), "every table asked for has a schema")
	if len(got) != len(asked) {
		return
	}
	for i, a := range asked {
		g := got[i]
		vsym.Assert(g.Name == a && len(g.Columns) == len(s.Tables[a]) && len(g.PrimaryKeys) == len(s.Keys[a]), "a schema has the columns of the table, each once, and its primary key")
		if len(g.Columns) != len(s.Tables[a]) || len(g.PrimaryKeys) != len(s.Keys[a]) {
			return
		}
		for k, c := range s.Tables[a] {
			vsym.Assert(g.Columns[k].Name == c, "columns come in order")
		}
		for k, c := range s.Keys[a] {
			vsym.Assert(g.PrimaryKeys[k] == c, "the primary key is the table's")
		}
	}
}
