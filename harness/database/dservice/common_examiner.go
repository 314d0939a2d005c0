package dservice

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vsym"
)

// vf_db is a database with an arbitrary fault schedule: every call may fail,
// and executing the query may also panic.
type vf_db struct {
	op                          []byte // 'x' execute, 'c' create, 'd' drop
	name                        []string
	table                       []string
	cols                        []string
	fail                        []bool
	time                        []int64
	live                        int
	nlive                       int // highest number of indexes alive at once
	panics                      bool
	quietBut                    int  // if not below 0, the only operation that may fail
	kinds                       bool // errors of several kinds
	errExec, errCreate, errDrop error
}

func vf_newDB(panics bool) *vf_db {
	return &vf_db{quietBut: -1, panics: panics, errExec: errors.New("exec"), errCreate: errors.New("create"), errDrop: errors.New("drop")}
}

// vf_errs are errors executing the query may end with.
func vf_errs() []error {
	return []error{errors.New("exec"), context.DeadlineExceeded, context.Canceled, driver.ErrBadConn, sql.ErrConnDone, sql.ErrNoRows, io.EOF}
}

func vf_cols(it *dmodel.IndexTarget) string {
	s := ""
	for _, c := range it.Columns {
		s += c.Name + "|"
	}
	return s
}

func (d *vf_db) rec(op byte, name string, it *dmodel.IndexTarget, fail bool, t int64) {
	d.op = append(d.op, op)
	d.name = append(d.name, name)
	if it != nil {
		d.table = append(d.table, it.TableName)
		d.cols = append(d.cols, vf_cols(it))
	} else {
		d.table = append(d.table, "")
		d.cols = append(d.cols, "")
	}
	d.fail = append(d.fail, fail)
	d.time = append(d.time, t)
}

func (d *vf_db) fails() bool {
	if d.quietBut >= 0 && d.quietBut != len(d.op) {
		return false
	}
	return vsym.Bool()
}

func (d *vf_db) Execute() (int64, error) {
	t := vsym.Int64(0, 1<<40)
	if d.panics && d.fails() {
		d.rec('x', "", nil, true, t)
		panic("driver panic")
	}
	f := d.fails()
	d.rec('x', "", nil, f, t)
	if f {
		if d.kinds {
			return t, vf_errs()[vsym.Choice(len(vf_errs()))]
		}
		return t, d.errExec
	}
	return t, nil
}

func (d *vf_db) CreateIndex(name string, it *dmodel.IndexTarget) error {
	f := d.fails()
	d.rec('c', name, it, f, 0)
	if f {
		return d.errCreate
	}
	d.live++
	if d.live > d.nlive {
		d.nlive = d.live
	}
	return nil
}

func (d *vf_db) DropIndex(name string, it *dmodel.IndexTarget) error {
	f := d.fails()
	d.rec('d', name, it, f, 0)
	if f {
		return d.errDrop
	}
	d.live--
	return nil
}

// vf_targets builds n targets over a few tables and columns.
func vf_targets(n int) []*dmodel.IndexTarget {
	return vf_targetsOf(n, 3)
}

func vf_targetsOf(n, kinds int) []*dmodel.IndexTarget {
	tables := []string{"users", "todos", "users", "users", "Users"}
	cols := [][]string{{"name"}, {"user_id", "title"}, {"a_rather_long_column_name", "email"}, {"a-b", "c"}, {"a", "b", "c", "d", "e", "f"}}
	var its []*dmodel.IndexTarget
	for i := 0; i < n; i++ {
		k := vsym.Choice(kinds)
		its = append(its, dmodel.NewIndexTarget(tables[k], cols[k]))
	}
	return its
}
