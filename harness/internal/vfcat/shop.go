package vfcat

import (
	"github.com/mrasu/GravityR/internal/vsym"
)

// Index is an index as it should be read.
type Index struct {
	Table string
	Cols  []string
}

// Shop is a catalogue with the tables t1 and t2, and v, a view, in the schema
// shop, and with others of the same names elsewhere.
type Shop struct {
	Tables  map[string][]string
	Keys    map[string][]string
	Indexes []Index // of t1 and t2

	t1  []Column
	pk  []int64
	sec []int64
	t2x bool
	uni bool // ix is unique
}

// NewShop chooses what the schema shop has.
func NewShop(dropped bool) *Shop {
	s := &Shop{Tables: map[string][]string{}, Keys: map[string][]string{}}
	for i := 0; i < 3; i++ {
		s.t1 = append(s.t1, Column{Name: vsym.StringOf("aB", 1, 1) + string(rune('1'+i))})
	}
	if dropped && vsym.Choice(2) == 1 {
		s.t1[1] = Column{Name: "........pg.dropped.2........", Dropped: true}
	}
	s.pk = [][]int64{nil, {1}, {3, 1}}[vsym.Choice(3)]
	s.sec = [][]int64{nil, {1}, {3, 1}, {3, 0}}[vsym.Choice(4)]
	s.t2x = vsym.Choice(2) == 1
	s.uni = s.sec != nil && vsym.Choice(2) == 1
	for _, c := range s.t1 {
		if !c.Dropped {
			s.Tables["t1"] = append(s.Tables["t1"], c.Name)
		}
	}
	s.Tables["t2"] = []string{"x", "y"}
	// keys in the order of the columns
	for n := int64(1); n <= 3; n++ {
		for _, k := range s.pk {
			if k == n {
				s.Keys["t1"] = append(s.Keys["t1"], s.t1[n-1].Name)
			}
		}
	}
	return s
}

func (s *Shop) names(cols []int64, expr string) []string {
	var out []string
	for _, c := range cols {
		if c == 0 {
			out = append(out, expr)
		} else {
			out = append(out, s.t1[c-1].Name)
		}
	}
	return out
}

// PG is the schema in PostgreSQL's catalogue, and the indexes there are.
func (s *Shop) PG() (*PG, []Index) {
	c := NewPG()
	var ixs []Index
	other := func(schema string) {
		r := c.Relation(schema, "t1", "r", []Column{{Name: "z"}, {Name: "w"}})
		c.Index(schema, "t1_pkey", r, true, true, 1)
		c.Index(schema, "ix", r, false, false, 2, 1)
		r = c.Relation(schema, "v", "r", []Column{{Name: "z"}})
		c.Index(schema, "v_pkey", r, true, true, 1)
	}
	other("public")
	t1 := c.Relation("shop", "t1", "r", s.t1)
	if s.pk != nil {
		c.Index("shop", "t1_pkey", t1, true, true, s.pk...)
		ixs = append(ixs, Index{"t1", s.names(s.pk, Expression)})
	}
	if s.sec != nil {
		c.Index("shop", "ix", t1, false, s.uni, s.sec...)
		ixs = append(ixs, Index{"t1", s.names(s.sec, Expression)})
	}
	t2 := c.Relation("shop", "t2", "r", []Column{{Name: "x"}, {Name: "y"}})
	if s.t2x {
		c.Index("shop", "ix2", t2, false, false, 2, 1)
		ixs = append(ixs, Index{"t2", []string{"y", "x"}})
	}
	c.Relation("shop", "v", "v", []Column{{Name: "x"}})
	r := c.Relation("shop", "t3", "r", []Column{{Name: "q"}})
	c.Index("shop", "t3_pkey", r, true, true, 1)
	other("zzz")
	return c, ixs
}

// MySQL is the schema in MySQL's catalogue, and the indexes there are.
func (s *Shop) MySQL() (*MySQL, []Index) {
	c := NewMySQL()
	var ixs []Index
	other := func(schema string) {
		c.Table(schema, "t1", []string{"z", "w"}, []string{"PRI", "MUL"})
		c.Index(schema, "t1", "PRIMARY", true, "z")
		c.Index(schema, "t1", "ix", false, "w", "z")
		c.Table(schema, "v", []string{"z"}, []string{"PRI"})
		c.Index(schema, "v", "PRIMARY", true, "z")
	}
	other("another")
	keys := []string{"", "", ""}
	if s.sec != nil {
		keys[s.sec[0]-1] = "MUL"
	}
	for _, k := range s.pk {
		keys[k-1] = "PRI"
	}
	c.Table("shop", "t1", s.names([]int64{1, 2, 3}, ""), keys)
	if s.pk != nil {
		c.Index("shop", "t1", "PRIMARY", true, s.names(s.pk, "")...)
		ixs = append(ixs, Index{"t1", s.names(s.pk, "")})
	}
	if s.sec != nil {
		c.Index("shop", "t1", "ix", s.uni, s.names(s.sec, "")...)
		ixs = append(ixs, Index{"t1", s.names(s.sec, "")})
	}
	c.Table("shop", "t2", []string{"x", "y"}, []string{"", ""})
	if s.t2x {
		c.Index("shop", "t2", "ix2", false, "y", "x")
		ixs = append(ixs, Index{"t2", []string{"y", "x"}})
	}
	c.Table("shop", "t3", []string{"q"}, []string{"PRI"})
	c.Index("shop", "t3", "PRIMARY", true, "q")
	other("zzz")
	return c, ixs
}

// Same tells that got are the indexes there are of the tables asked for.
func Same(got []Index, all []Index, asked []string) bool {
	var want []Index
	for _, w := range all {
		for _, a := range asked {
			if w.Table == a {
				want = append(want, w)
			}
		}
	}
	if len(got) != len(want) {
		return false
	}
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, g := range got {
			if used[i] || found || g.Table != w.Table || len(g.Cols) != len(w.Cols) {
				continue
			}
			eq := true
			for k := range g.Cols {
				if w.Cols[k] == "" || w.Cols[k] == Expression { // any text that is no column's name
					eq = eq && g.Cols[k] != "x" && g.Cols[k] != "y" && len(g.Cols[k]) != 2
				} else {
					eq = eq && g.Cols[k] == w.Cols[k]
				}
			}
			if eq {
				used[i], found = true, true
			}
		}
		if !found {
			return false
		}
	}
	return true
}
