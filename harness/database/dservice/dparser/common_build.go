package dparser

//vsym:use internal/vfspec/index.go

import (
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

func vf_schema(name string, cols []string, pk int) *TableSchema {
	t := &TableSchema{Name: name}
	for i, c := range cols {
		t.Columns = append(t.Columns, &ColumnSchema{Name: c})
		if i < pk {
			t.PrimaryKeys = append(t.PrimaryKeys, c)
		}
	}
	return t
}

// vf_query: two tables, up to n mentions of columns in any clause.
func vf_query(n, order int) (its []*dmodel.IndexTarget, us []*vfspec.Use, err error, known bool) {
	names := []string{"ta", "tb"}
	cols := [][]string{{"a", "b", "c", "d"}, {"a", "e"}}
	alias := []string{"", "y"}
	schemas := []*TableSchema{vf_schema("ta", cols[0], vsym.Choice(3)), vf_schema("tb", cols[1], 1)}
	us = []*vfspec.Use{
		{Table: "ta", All: cols[0], PK: schemas[0].PrimaryKeys},
		{Table: "tb", All: cols[1], PK: schemas[1].PrimaryKeys},
	}
	sc := &StmtScope{Name: RootScopeName, Tables: []*Table{
		{Name: names[0], AsName: alias[0]},
		{Name: names[1], AsName: alias[1]},
	}}
	known = true
	for i := 0; i < n; i++ {
		f := &Field{}
		fc := &FieldColumn{Name: vsym.StringOf("abcdezBy", 1, 1)}
		cond := vsym.Bool()
		if cond {
			fc.Type = FieldCondition
		}
		t := -1
		switch vsym.Choice(3) {
		case 0: // unqualified; the name must not be ambiguous
			vsym.Assume(fc.Name != "a")
			for k := range cols {
				for _, c := range cols[k] {
					if c == fc.Name {
						t = k
					}
				}
			}
		case 1:
			fc.Table = "ta"
			t = 0
		case 2:
			fc.Table = "y"
			t = 1
		}
		found := false
		if t >= 0 {
			for _, c := range cols[t] {
				if c == fc.Name {
					found = true
				}
			}
		}
		if found {
			us[t].Mention(fc.Name, cond)
		} else {
			known = false
		}
		if i > 0 && vsym.Choice(2) == 1 { // another column of the same expression
			last := sc.Fields[len(sc.Fields)-1]
			last.Columns = append(last.Columns, fc)
		} else {
			f.Columns = []*FieldColumn{fc}
			sc.Fields = append(sc.Fields, f)
		}
	}
	if vsym.Choice(2) == 1 {
		sc.Fields = append(sc.Fields, &Field{Columns: []*FieldColumn{{Type: FieldStar}}})
	}
	vsym.MapOrder(4, order)
	its, err = NewIndexTargetBuilder(schemas).Build([]*StmtScope{sc})
	return
}

// vf_wide: one table, every assignment of uses to its columns.
func vf_wide(n int) (its []*dmodel.IndexTarget, us []*vfspec.Use, err error) {
	cols := []string{"b", "a", "c", "d", "e"}[:n]
	t := &TableSchema{Name: "t"}
	u := &vfspec.Use{Table: "t", All: cols}
	sc := &StmtScope{Name: RootScopeName, Tables: []*Table{{Name: "t", AsName: "x"}}}
	for _, c := range cols {
		t.Columns = append(t.Columns, &ColumnSchema{Name: c})
		if vsym.Bool() {
			t.PrimaryKeys = append(t.PrimaryKeys, c)
		}
	}
	u.PK = t.PrimaryKeys
	for _, c := range cols {
		// 0 unused, 1 read, 2 filtered, 3 read then filtered, 4 filtered then read
		k := vsym.Choice(5)
		for _, cond := range [][]bool{nil, {false}, {true}, {false, true}, {true, false}}[k] {
			fc := &FieldColumn{Table: "x", Name: c}
			if cond {
				fc.Type = FieldCondition
			}
			sc.Fields = append(sc.Fields, &Field{Columns: []*FieldColumn{fc}})
			u.Mention(c, cond)
		}
	}
	its, err = NewIndexTargetBuilder([]*TableSchema{t}).Build([]*StmtScope{sc})
	return its, []*vfspec.Use{u}, err
}

// vf_names: columns of any name, and a table that comes before or after.
func vf_names() (its []*dmodel.IndexTarget, us []*vfspec.Use, err error) {
	n := 2 + vsym.Choice(vsym.Bound(2, 3))
	var cols []string
	for i := 0; i < n; i++ {
		c := vsym.StringOf("aB_1", 1, 2)
		for _, o := range cols {
			vsym.Assume(c != o)
		}
		cols = append(cols, c)
	}
	names := []string{"t", []string{"s", "t_", "T", "t1"}[vsym.Choice(4)]}
	var ts []*TableSchema
	sc := &StmtScope{Name: RootScopeName}
	for k, t := range names {
		all := cols
		if k == 1 {
			all = []string{"k", "z"}
		}
		ts = append(ts, vf_schema(t, all, 0))
		u := &vfspec.Use{Table: t, All: all}
		us = append(us, u)
		sc.Tables = append(sc.Tables, &Table{Name: t})
		for i, c := range all {
			fc := &FieldColumn{Table: t, Name: c}
			cond := i == 0 || vsym.Choice(2) == 1
			if cond {
				fc.Type = FieldCondition
			}
			u.Mention(c, cond)
			sc.Fields = append(sc.Fields, &Field{Columns: []*FieldColumn{fc}})
		}
	}
	its, err = NewIndexTargetBuilder(ts).Build([]*StmtScope{sc})
	return
}

// vf_wider: more columns, used in a few ways.
func vf_wider() (its []*dmodel.IndexTarget, us []*vfspec.Use, err error) {
	n := vsym.Bound(5, 6)
	cols := []string{"b", "a", "c", "d", "e", "f"}[:n]
	reads := vsym.Choice(n + 1) // the first ones are only read
	pk := vsym.Choice(3)
	t := vf_schema("t", cols, pk)
	u := &vfspec.Use{Table: "t", All: cols, PK: t.PrimaryKeys}
	sc := &StmtScope{Name: RootScopeName, Tables: []*Table{{Name: "t", AsName: "x"}}}
	for i, c := range cols {
		fc := &FieldColumn{Name: c}
		if i >= reads {
			fc.Type = FieldCondition
		}
		u.Mention(c, i >= reads)
		sc.Fields = append(sc.Fields, &Field{Columns: []*FieldColumn{fc}})
	}
	its, err = NewIndexTargetBuilder([]*TableSchema{t}).Build([]*StmtScope{sc})
	return its, []*vfspec.Use{u}, err
}
