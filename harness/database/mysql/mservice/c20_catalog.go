package mservice

//vsym:use internal/vfcat/*.go

import (
	"errors"
	"strings"

	"github.com/mrasu/GravityR/database/mysql/mservice/parser"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/internal/vfcat"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vsym"
)

// vf_cat answers queries on the catalogue.
type vf_cat struct {
	c       *vfcat.MySQL
	unknown bool
}

func (m *vf_cat) Exec(q string, args []any) error { return errors.New("not a query") }

func (m *vf_cat) Query(q string, args []any) ([]string, [][]any, error) {
	cols, rows, ok := m.c.Query(q, args)
	m.unknown = m.unknown || !ok
	return cols, rows, nil
}

// The indexes read are those the catalogue has for the tables of the schema, with the names of their columns.
func VerifC20_MysqlCatalogIndexes() {
	s := vfcat.NewShop(false)
	c, all := s.MySQL()
	asked := [][]string{{"t1"}, {"t2", "t1"}, {"t2"}}[vsym.Choice(3)]
	m := &vf_cat{c: c}
	got, err := NewIndexGetter(mysql.NewDB(vfdb.Open("mysql", m))).GetIndexes("shop", asked)
	vsym.Assume(!m.unknown)
	vsym.Assert(err == nil, "indexes can be read")
	if err != nil {
		return
	}
	var ixs []vfcat.Index
	for _, g := range got {
		x := vfcat.Index{Table: g.TableName}
		for _, c := range g.Columns {
			x.Cols = append(x.Cols, c.Name)
		}
		ixs = append(ixs, x)
	}
	vsym.Assert(vfcat.Same(ixs, all, asked), "the indexes are those of the tables of the schema, each with its columns in order")
}

// A table's schema has the columns the table has, in order, each once, and its primary key.
func VerifC20_MysqlCatalogSchemas() {
	s := vfcat.NewShop(false)
	c, _ := s.MySQL()
	asked := [][]string{{"t1"}, {"t2", "t1"}, {"t2"}, {"t1", "v"}, {"none"}}[vsym.Choice(5)]
	m := &vf_cat{c: c}
	got, err := parser.CollectTableSchemas(mysql.NewDB(vfdb.Open("mysql", m)), "shop", asked)
	vsym.Assume(!m.unknown)
	bad := asked[len(asked)-1] == "v" || asked[0] == "none"
	vsym.Assert((err != nil) == bad, "what is no table of the schema is an error, nothing else is")
	if err != nil {
		return
	}
	vsym.Assert(len(got) == len(asked), "every table asked for has a schema")
	if len(got) != len(asked) {
		return
	}
	for i, a := range asked {
		g := got[i]
		vsym.Assert(g.Name == a && len(g.Columns) == len(s.Tables[a]) && len(g.PrimaryKeys) == len(s.Keys[a]), "a schema has the columns of the table, each once, and its primary key")
		if len(g.Columns) != len(s.Tables[a]) || len(g.PrimaryKeys) != len(s.Keys[a]) {
			return
		}
		for k, c := range s.Tables[a] {
			vsym.Assert(strings.EqualFold(g.Columns[k].Name, c), "columns come in order")
		}
		for k, c := range s.Keys[a] {
			vsym.Assert(strings.EqualFold(g.PrimaryKeys[k], c), "the primary key is the table's")
		}
	}
}
