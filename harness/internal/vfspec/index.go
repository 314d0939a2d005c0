// Package vfspec holds the specification of index suggestions, written
// independently of the implementation.
package vfspec

import (
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vsym"
)

// Use is what a query does with the columns of one table.
type Use struct {
	Table string
	All   []string // the columns of the table
	Cond  []string // columns filtered or joined on
	Ref   []string // columns otherwise mentioned, not in Cond
	PK    []string
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// Mention records the use of a column; a condition outranks a reference.
func (u *Use) Mention(col string, cond bool) {
	if has(u.Cond, col) {
		return
	}
	if !cond {
		if !has(u.Ref, col) {
			u.Ref = append(u.Ref, col)
		}
		return
	}
	var rs []string
	for _, r := range u.Ref {
		if r != col {
			rs = append(rs, r)
		}
	}
	u.Ref = rs
	u.Cond = append(u.Cond, col)
}

func perms(n, k int) int {
	r := 1
	for i := 0; i < k; i++ {
		r *= n - i
	}
	return r
}

// Count is the number of indexes to suggest for a table.
func (u *Use) Count() int {
	c, pk := len(u.Cond), 0
	for _, x := range u.Cond {
		if has(u.PK, x) {
			pk++
		}
	}
	n := 0
	for k := 1; k <= c; k++ {
		n += perms(c, k)
		if k <= pk {
			n -= perms(pk, k)
		}
	}
	if len(u.Ref) > 0 {
		all := pk == c
		for _, x := range u.Ref {
			all = all && has(u.PK, x)
		}
		if !all {
			n += perms(c, c)
		}
	}
	return n
}

func cols(it *dmodel.IndexTarget) []string {
	var r []string
	for _, c := range it.Columns {
		r = append(r, c.Name)
	}
	return r
}

// Sound checks one suggestion against the uses of the query.
func Sound(us []*Use, its []*dmodel.IndexTarget) {
	for _, it := range its {
		var u *Use
		for _, x := range us {
			if x.Table == it.TableName {
				u = x
			}
		}
		vsym.Assert(u != nil, "a suggested index is on a table of the query")
		if u == nil {
			continue
		}
		cs := cols(it)
		vsym.Assert(len(cs) > 0, "a suggested index has columns")
		pkOnly := true
		for i, c := range cs {
			vsym.Assert(has(u.All, c), "a suggested column exists in its table")
			vsym.Assert(has(u.Cond, c) || has(u.Ref, c), "a suggested column is used by the query")
			vsym.Assert(!has(cs[:i], c), "no column comes twice in an index")
			pkOnly = pkOnly && has(u.PK, c)
		}
		vsym.Assert(!pkOnly, "an index of primary-key columns only is not suggested")
	}
}

// Shape checks that the columns used by conditions come first, and that the
// other columns come only to cover everything the query uses, in name order.
func Shape(us []*Use, its []*dmodel.IndexTarget) {
	for _, it := range its {
		for _, u := range us {
			if u.Table != it.TableName {
				continue
			}
			cs := cols(it)
			k := 0
			for k < len(cs) && has(u.Cond, cs[k]) {
				k++
			}
			if k == len(cs) {
				continue
			}
			vsym.Assert(k == len(u.Cond) && len(cs) == len(u.Cond)+len(u.Ref), "columns that are only read come only in a covering index, after the filtered ones")
			for i := k; i < len(cs); i++ {
				vsym.Assert(has(u.Ref, cs[i]), "the covering part holds the columns that are only read")
				vsym.Assert(i == k || cs[i-1] < cs[i], "the covering part is in name order")
			}
		}
	}
}

// Less is the order suggestions come in: table, number of columns, columns.
func Less(a, b *dmodel.IndexTarget) bool {
	if a.TableName != b.TableName {
		return a.TableName < b.TableName
	}
	if len(a.Columns) != len(b.Columns) {
		return len(a.Columns) < len(b.Columns)
	}
	for i := range a.Columns {
		if a.Columns[i].Name != b.Columns[i].Name {
			return a.Columns[i].Name < b.Columns[i].Name
		}
	}
	return false
}

// Complete checks number, shape and order: together with Sound, the list is
// exactly the specified one.
func Complete(us []*Use, its []*dmodel.IndexTarget) {
	Shape(us, its)
	for i := 1; i < len(its); i++ {
		vsym.Assert(Less(its[i-1], its[i]), "suggestions come once each, by table, number of columns and names")
	}
	for _, u := range us {
		n := 0
		for _, it := range its {
			if it.TableName == u.Table {
				n++
			}
		}
		vsym.Assert(n == u.Count(), "every ordering of every subset of the filtered columns, and the covering indexes, are suggested")
	}
}
