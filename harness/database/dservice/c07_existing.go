package dservice

import (
	"errors"
	"strings"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_getter struct {
	db     string
	tables []string
	calls  int
	res    []*dmodel.IndexTarget
	err    error
}

// GetIndexes behaves as the databases do: an empty list of tables cannot be
// put in a query, and only indexes of the tables asked for come back.
func (g *vf_getter) GetIndexes(database string, tables []string) ([]*dmodel.IndexTarget, error) {
	g.calls++
	g.db, g.tables = database, tables
	if len(tables) == 0 {
		return nil, errors.New("empty slice passed to 'in' query")
	}
	if g.err != nil {
		return nil, g.err
	}
	var r []*dmodel.IndexTarget
	for _, it := range g.res {
		for _, t := range tables {
			if t == it.TableName {
				r = append(r, it)
				break
			}
		}
	}
	return r, nil
}

func vf_pick(n, maxCols int) []*dmodel.IndexTarget {
	var r []*dmodel.IndexTarget
	for i := 0; i < n; i++ {
		t := []string{"ta", "tb"}[vsym.Choice(2)]
		k := 1 + vsym.Choice(maxCols)
		var cs []string
		for j := 0; j < k; j++ {
			cs = append(cs, vsym.StringOf("aAb", 1, 1))
		}
		r = append(r, dmodel.NewIndexTarget(t, cs))
	}
	return r
}

func vf_same(a, b *dmodel.IndexTarget) bool {
	if a.TableName != b.TableName || len(a.Columns) != len(b.Columns) {
		return false
	}
	for i := range a.Columns {
		if strings.ToLower(a.Columns[i].Name) != strings.ToLower(b.Columns[i].Name) {
			return false
		}
	}
	return true
}

// What remains is exactly the candidates no existing index equals, in order.
func VerifC07_Exact() {
	nt := vsym.Choice(vsym.Bound(3, 4))
	ne := vsym.Choice(3)
	vf_remove(vf_pick(nt, 2), vf_pick(ne, 2))
}

// Many candidates over three tables, with indexes that share beginnings.
func VerifC07_Many() {
	mk := func(t string, cs ...string) *dmodel.IndexTarget { return dmodel.NewIndexTarget(t, cs) }
	its := []*dmodel.IndexTarget{mk("TA", "a"), mk("ta", "a"), mk("ta", "b"), mk("ta", "a", "b"), mk("ta", "b", "a"), mk("ta", "a", "b", "c"), mk("tb", "a"), mk("tb", "a", "b")}
	var ex []*dmodel.IndexTarget
	for _, it := range []*dmodel.IndexTarget{mk("ta", "c"), mk("ta", "a", "b", "c", "d"), mk("TA", "A"), mk("ta", "b", "A"), mk("ta", "A", "B", "C"), mk("tb", "b"), mk("tb", "a", "B"), mk("ta", "a_b"), mk("ta", "B")} {
		if vsym.Choice(2) == 1 {
			ex = append(ex, it)
		}
	}
	vf_remove(its, ex)
}

func vf_remove(its, ex []*dmodel.IndexTarget) {
	for i := range its {
		for j := 0; j < i; j++ {
			vsym.Assume(!its[i].Equals(its[j]))
		}
	}
	g := &vf_getter{res: ex}
	before := append([]*dmodel.IndexTarget{}, its...)
	res, err := NewExistingIndexRemover(g, "mydb", its).Remove()
	vsym.Assert(err == nil, "no candidates or no existing index is not an error")
	var want []*dmodel.IndexTarget
	for _, it := range before {
		exists := false
		for _, e := range g.res {
			if vf_same(it, e) {
				exists = true
			}
		}
		if !exists {
			want = append(want, it)
		}
	}
	vsym.Observe("n", len(res))
	vsym.Assert(len(res) == len(want), "exactly the candidates equal to an existing index are removed")
	if len(res) != len(want) {
		return
	}
	for i := range res {
		vsym.Assert(res[i].Equals(want[i]), "what remains keeps its order and columns")
	}
	if len(before) > 0 {
		vsym.Assert(g.db == "mydb", "the indexes are looked up in the database given")
	}
}

// When the indexes cannot be read the suggestion fails.
func VerifC07_Error() {
	g := &vf_getter{err: errors.New("down")}
	res, err := NewExistingIndexRemover(g, "mydb", vf_pick(1+vsym.Choice(2), 1)).Remove()
	vsym.Assert(err != nil && len(res) == 0, "failing to read the indexes is reported")
}
