// Package vflife watches the indexes of a database while indexes are examined.
package vflife

import (
	"context"
	"database/sql"
	"errors"
	"io"
	"strings"
	"time"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

// Life is a database whose statements fail, and take time, as the solver decides.
type Life struct {
	Query   string
	Quote   byte
	Clocked bool // statements take time, too
	Faults  int  // how many kinds of Errs, nil included

	ops    []byte // 'x' 'c' 'd'
	what   []string
	failed []bool
	took   []int64
	open   []string // table/name of the indexes that exist
	most   int
	stray  bool
}

// Errs are errors a database may answer with.
func Errs() []error {
	return []error{nil, errors.New("boom"), context.DeadlineExceeded, sql.ErrConnDone, io.ErrUnexpectedEOF}
}

// Stmt is a statement that arrives at the database.
func (l *Life) Stmt(q string) error {
	var err error
	var ms int64
	if l.Clocked {
		k := 2
		if len(l.ops) < 3 {
			k = 3
			if len(l.ops) == 0 {
				k = 4
			}
		}
		ms = []int64{-1, 0, 60, 1100}[vsym.Choice(k)]
		if ms < 0 {
			ms, err = 0, errors.New("boom")
			if len(l.ops) < 2 {
				ms = []int64{0, 1100}[vsym.Choice(2)] // a timeout, say
			}
		}
		vsym.Elapse(time.Duration(ms) * time.Millisecond)
	} else {
		err = Errs()[vsym.Choice(l.Faults)]
	}
	op, what := byte('x'), ""
	if q != l.Query {
		s := vfspec.Split(q, l.Quote)
		op = 0
		switch {
		case !s.OK:
		case strings.HasPrefix(s.Skeleton, "ALTER TABLE ? ADD INDEX ?(") && len(s.Names) > 2:
			op, what = 'c', s.Names[0]+"/"+s.Names[1]
		case strings.HasPrefix(s.Skeleton, "CREATE INDEX ? ON ?(") && len(s.Names) > 2:
			op, what = 'c', s.Names[1]+"/"+s.Names[0]
		case s.Skeleton == "ALTER TABLE ? DROP INDEX ?":
			op, what = 'd', s.Names[0]+"/"+s.Names[1]
		case s.Skeleton == "DROP INDEX ? ON ?":
			op, what = 'd', s.Names[1]+"/"+s.Names[0]
		case s.Skeleton == "DROP INDEX ?" || s.Skeleton == "DROP INDEX IF EXISTS ?":
			op, what = 'd', "*/"+s.Names[0]
		}
	}
	vsym.Assert(op != 0, "only indexes are created and dropped")
	l.ops = append(l.ops, op)
	l.what = append(l.what, what)
	l.failed = append(l.failed, err != nil)
	l.took = append(l.took, ms)
	if err != nil {
		return err
	}
	switch op {
	case 'c':
		l.open = append(l.open, what)
		if len(l.open) > l.most {
			l.most = len(l.open)
		}
	case 'd':
		k := -1
		for i, o := range l.open {
			if o == what || what[0] == '*' && strings.HasSuffix(o, what[1:]) {
				k = i
			}
		}
		if k < 0 {
			l.stray = true
		} else {
			l.open = append(l.open[:k:k], l.open[k+1:]...)
		}
	}
	return nil
}

// Targets to examine.
func Targets(n int) []*dmodel.IndexTarget {
	var its []*dmodel.IndexTarget
	for i := 0; i < n; i++ {
		switch vsym.Choice(3) {
		case 0:
			its = append(its, dmodel.NewIndexTarget("users", []string{"name"}))
		case 1:
			its = append(its, dmodel.NewIndexTarget("Todos_2", []string{"user_id", "Title"}))
		case 2:
			its = append(its, dmodel.NewIndexTarget("users", []string{"a_rather_long_column_name", "email"}))
		}
	}
	return its
}

// Dropped: every index that was created is dropped again.
func (l *Life) Dropped(err error) {
	dropFailed := false
	for i, o := range l.ops {
		vsym.Assert(!dropFailed, "when a drop fails the run stops")
		if o == 'd' && l.failed[i] {
			dropFailed = true
		}
	}
	vsym.Assert(!l.stray, "only an index that was created is dropped, under its name and on its table")
	vsym.Assert(l.most <= 1, "at most one temporary index exists")
	vsym.Assert(dropFailed || len(l.open) == 0, "every created index is dropped")
	vsym.Assert(!dropFailed || err != nil, "a failed drop is reported")
	vsym.Observe("ops", string(l.ops))
}

// Truthful: the results are what was measured.
func (l *Life) Truthful(its []*dmodel.IndexTarget, res *dmodel.ExaminationResult, err error) {
	bad := false
	var runs []int64
	for i, o := range l.ops {
		if l.failed[i] {
			bad = true
		}
		if o == 'x' {
			runs = append(runs, l.took[i])
		}
	}
	vsym.Observe("ops", string(l.ops))
	vsym.Assert((err != nil) == bad, "an examination fails exactly when a step failed")
	vsym.Assert((res != nil) == (err == nil), "a failed examination yields no result")
	if res == nil || err != nil {
		return
	}
	vsym.Assert(len(runs) == len(its)+1 && len(res.IndexResults) == len(its), "one measurement per index")
	if len(runs) != len(its)+1 || len(res.IndexResults) != len(its) {
		return
	}
	vm := res.ToViewModel()
	about(res.OriginalTimeMillis, runs[0])
	vsym.Assert(vm.OriginalTimeMillis == res.OriginalTimeMillis && len(vm.IndexResults) == len(its), "the page shows the original time and every result")
	for i, r := range res.IndexResults {
		about(r.ExecutionTimeMillis, runs[i+1])
		vsym.Assert(r.IndexTarget.Equals(its[i]), "results come in the requested order")
		v := vm.IndexResults[i]
		vsym.Assert(v.ExecutionTimeMillis == r.ExecutionTimeMillis && v.IndexTarget.TableName == its[i].TableName && len(v.IndexTarget.Columns) == len(its[i].Columns), "the page shows the time of each index")
		for k, c := range its[i].Columns {
			vsym.Assert(v.IndexTarget.Columns[k].Name == c.Name, "the page shows the columns of each index")
		}
	}
}

// about: the time reported is the time taken, but for the time the tool itself takes.
func about(got, took int64) {
	vsym.Assert(got >= took && got < took+40, "the time reported is the one the query took")
}
