package mservice

//vsym:use internal/vfdb/db.go
//vsym:use internal/vfspec/num.go

import (
	"errors"

	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_plan struct{ text string }

func (h *vf_plan) Exec(q string, args []any) error { return errors.New("not expected") }
func (h *vf_plan) Query(q string, args []any) ([]string, [][]any, error) {
	return []string{"EXPLAIN"}, [][]any{{h.text}}, nil
}

func vf_show(line string) *viewmodel.VmMysqlExplainAnalyzeNode {
	tree, err := NewExplainer(mysql.NewDB(vfdb.Open("mysql", &vf_plan{line}))).ExplainWithAnalyze("SELECT 1")
	vsym.Assert(err == nil && tree != nil, "a plan line is accepted")
	if err != nil || tree == nil {
		return nil
	}
	vm := tree.ToViewModel()
	vsym.Assert(len(vm) == 1, "one line, one node")
	if len(vm) != 1 {
		return nil
	}
	return vm[0]
}

// The estimates shown are the numbers of the plan.
func VerifC10_MysqlEstimates() {
	line := "-> Table scan on users  ("
	form := vsym.Choice(4) // 0 none, 1 cost, 2 cost rows, 3 init..cost rows
	nf := vsym.Choice(vsym.Bound(3, 4))
	k := vsym.Bound(2, 4)
	var cost, init float64
	var rows int64
	if form == 0 {
		line = "-> Table scan on users"
	} else {
		s := ""
		if form == 3 {
			s, init = vfspec.Dec(1, k, nf)
			s += ".."
		}
		c, cv := vfspec.Dec(1, k, nf)
		cost = cv
		line += "cost=" + s + c
		if form >= 2 {
			r, rv := vfspec.Digits(1, k+1)
			rows = rv
			line += " rows=" + r
		}
		line += ")"
	}
	never := vsym.Choice(2) == 1
	if never {
		line += " (never executed)"
	}
	n := vf_show(line)
	if n == nil {
		return
	}
	vsym.Assert(n.EstimatedCost.Valid == (form > 0), "a cost is shown exactly when the plan has one")
	vsym.Assert(n.EstimatedReturnedRows.Valid == (form >= 2), "estimated rows are shown exactly when the plan has them")
	vsym.Assert(n.EstimatedInitCost.Valid == (form == 3), "an initial cost is shown exactly when the plan has one")
	if form > 0 {
		vsym.Assert(n.EstimatedCost.Float64 == cost, "the cost is the plan's")
	}
	if form >= 2 {
		vsym.Assert(n.EstimatedReturnedRows.Int64 == rows, "the estimated rows are the plan's")
	}
	if form == 3 {
		vsym.Assert(n.EstimatedInitCost.Float64 == init, "the initial cost is the plan's")
	}
	vsym.Assert(!n.ActualTimeAvg.Valid && !n.ActualTimeFirstRow.Valid && !n.ActualReturnedRows.Valid && !n.ActualLoopCount.Valid, "nothing is shown as measured when nothing was")
}

// The measurements shown are the numbers of the plan.
func VerifC10_MysqlActuals() {
	k := vsym.Bound(2, 4)
	first, firstV := vfspec.Dec(1, k, 3)
	avg, avgV := vfspec.Dec(1, k, 3)
	rows, rowsV := vfspec.Digits(1, k+1)
	loops, loopsV := vfspec.Digits(1, k+1)
	line := "-> Index lookup on users using PRIMARY (id=1)"
	est := vsym.Choice(2) == 1
	if est {
		line += "  (cost=0.35 rows=1)"
	}
	line += " (actual time=" + first + ".." + avg + " rows=" + rows + " loops=" + loops + ")"
	n := vf_show(line)
	if n == nil {
		return
	}
	vsym.Assert(n.EstimatedCost.Valid == est, "a cost is shown exactly when the plan has one")
	vsym.Assert(n.ActualTimeAvg.Valid && n.ActualTimeFirstRow.Valid && n.ActualReturnedRows.Valid && n.ActualLoopCount.Valid, "what was measured is shown")
	vsym.Assert(n.ActualTimeFirstRow.Float64 == firstV, "the time to the first row is the plan's")
	vsym.Assert(n.ActualTimeAvg.Float64 == avgV, "the time to all rows is the plan's")
	vsym.Assert(n.ActualReturnedRows.Int64 == rowsV, "the rows are the plan's")
	vsym.Assert(n.ActualLoopCount.Int64 == loopsV, "the loops are the plan's")
}

// The table of a node is the one its line names.
func VerifC10_MysqlTable() {
	t := vsym.StringOf("tb_1N", 1, vsym.Bound(3, 4))
	head := []string{"-> Table scan on ", "-> Single-row index lookup on ", "-> Filter: (", "-> Sort: ", "-> Aggregate: count(", "-> Nested loop inner join"}
	tail := []string{"", " using PRIMARY (id=x.y)", ".`status` = 1)", ".email DESC", ".email)", ""}
	k := vsym.Choice(len(head))
	want := t
	line := head[k] + t + tail[k]
	if k == 5 {
		line, want = head[k], ""
	}
	line += "  (cost=1.00 rows=1) (actual time=0.069..1.459 rows=6 loops=1)"
	n := vf_show(line)
	if n != nil {
		vsym.Assert(n.TableName == want, "a node's table is the one its line names")
		vsym.Assert(n.Text == line, "the text is the line")
	}
}

// Large numbers are shown as they are.
func VerifC10_MysqlBig() {
	er, erV := vfspec.Big(2)
	ar, arV := vfspec.Big(2)
	lo, loV := vfspec.Big(2)
	n := vf_show("-> Table scan on users  (cost=1234567890.25..98765432109.75 rows=" + er + ") (actual time=1234567.125..7654321.250 rows=" + ar + " loops=" + lo + ")")
	if n == nil {
		return
	}
	vsym.Assert(n.EstimatedInitCost.Float64 == 1234567890.25 && n.EstimatedCost.Float64 == 98765432109.75 && n.EstimatedReturnedRows.Int64 == erV, "large estimates are the plan's")
	vsym.Assert(n.ActualTimeFirstRow.Float64 == 1234567.125 && n.ActualTimeAvg.Float64 == 7654321.25 && n.ActualReturnedRows.Int64 == arV && n.ActualLoopCount.Int64 == loV, "large measurements are the plan's")
}
