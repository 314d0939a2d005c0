package pservice

//vsym:use internal/vfspec/num.go

import (
	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

func vf_show(lines ...string) *viewmodel.VmPostgresExplainAnalyzeNode {
	tree, err := NewExplainAnalyzeTreeBuilder().Build(lines)
	vsym.Assert(err == nil && tree != nil, "a plan is accepted")
	if err != nil || tree == nil {
		return nil
	}
	vm := tree.ToViewModel()
	vsym.Assert(len(vm) == 1, "one node")
	if len(vm) != 1 {
		return nil
	}
	return vm[0]
}

// The estimates shown are the numbers of the plan.
func VerifC10_PostgresEstimates() {
	k := vsym.Bound(2, 4)
	init, initV := vfspec.Dec(1, k, 2)
	cost, costV := vfspec.Dec(1, k, 2)
	rows, rowsV := vfspec.Digits(1, k+1)
	width, widthV := vfspec.Digits(1, k)
	line := "Seq Scan on users  (cost=" + init + ".." + cost + " rows=" + rows + " width=" + width + ")"
	if vsym.Choice(2) == 1 {
		line += " (never executed)"
	}
	n := vf_show(line, "  Buffers: shared hit=745", "Planning Time: 0.031 ms")
	if n == nil {
		return
	}
	vsym.Assert(n.EstimatedInitCost.Valid && n.EstimatedCost.Valid && n.EstimatedReturnedRows.Valid && n.EstimatedWidth.Valid, "the estimates of the plan are shown")
	vsym.Assert(n.EstimatedInitCost.Float64 == initV, "the initial cost is the plan's")
	vsym.Assert(n.EstimatedCost.Float64 == costV, "the cost is the plan's")
	vsym.Assert(n.EstimatedReturnedRows.Int64 == rowsV, "the estimated rows are the plan's")
	vsym.Assert(n.EstimatedWidth.Int64 == widthV, "the width is the plan's")
	vsym.Assert(!n.ActualTimeAvg.Valid && !n.ActualTimeFirstRow.Valid && !n.ActualReturnedRows.Valid && !n.ActualLoopCount.Valid, "nothing is shown as measured when nothing was")
}

// The measurements shown are the numbers of the plan, for a node with or without a name line.
func VerifC10_PostgresActuals() {
	k := vsym.Bound(2, 4)
	first, firstV := vfspec.Dec(1, k, 3)
	avg, avgV := vfspec.Dec(1, k, 3)
	rows, rowsV := vfspec.Digits(1, k+1)
	loops, loopsV := vfspec.Digits(1, k+1)
	line := "Seq Scan on users  (cost=0.00..1.10 rows=1 width=4) (actual time=" + first + ".." + avg + " rows=" + rows + " loops=" + loops + ")"
	ls := []string{"Result  (cost=0.00..0.01 rows=1 width=4) (actual time=9.1..9.2 rows=9 loops=9)"}
	if vsym.Choice(2) == 1 {
		ls = append(ls, "  SubPlan 1", "    ->  "+line, "          Buffers: shared hit=1")
	} else {
		ls = append(ls, "  ->  "+line, "        Filter: (id = 1)")
	}
	r := vf_show(ls...)
	if r == nil || len(r.Children) != 1 {
		vsym.Assert(false, "the node is shown")
		return
	}
	n := r.Children[0]
	vsym.Assert(n.ActualTimeAvg.Valid && n.ActualTimeFirstRow.Valid && n.ActualReturnedRows.Valid && n.ActualLoopCount.Valid, "what was measured is shown")
	vsym.Assert(n.ActualTimeFirstRow.Float64 == firstV, "the time to the first row is the plan's")
	vsym.Assert(n.ActualTimeAvg.Float64 == avgV, "the time to all rows is the plan's")
	vsym.Assert(n.ActualReturnedRows.Int64 == rowsV, "the rows are the plan's")
	vsym.Assert(n.ActualLoopCount.Int64 == loopsV, "the loops are the plan's")
	vsym.Assert(r.ActualLoopCount.Int64 == 9 && r.ActualReturnedRows.Int64 == 9, "each node has its own numbers")
}

// The table of a node is the one its lines name.
func VerifC10_PostgresTable() {
	t := vsym.StringOf("tb_1N", 1, vsym.Bound(3, 4))
	m := "  (cost=0.00..1.10 rows=1 width=4)"
	var n *viewmodel.VmPostgresExplainAnalyzeNode
	want := t
	switch vsym.Choice(4) {
	case 0:
		n = vf_show("Seq Scan on " + t + m)
	case 1:
		n = vf_show("Index Scan using users_pkey on "+t+" u"+m, "  Index Cond: (id = 1)")
	case 2:
		n = vf_show("Sort"+m, "  Sort Key: "+t+".name")
	case 3:
		n, want = vf_show("Hash Join"+m, "  Hash Cond: (a.b = c.d)"), ""
	}
	if n != nil {
		vsym.Assert(n.TableName == want, "a node's table is the one its lines name")
	}
}

// Large numbers are shown as they are.
func VerifC10_PostgresBig() {
	er, erV := vfspec.Big(2)
	ar, arV := vfspec.Big(2)
	lo, loV := vfspec.Big(2)
	n := vf_show("Seq Scan on users  (cost=1234567890.25..98765432109.75 rows="+er+" width=2147483649) (actual time=1234567.125..7654321.250 rows="+ar+" loops="+lo+")", "  Buffers: shared hit=745")
	if n == nil {
		return
	}
	vsym.Assert(n.EstimatedInitCost.Float64 == 1234567890.25 && n.EstimatedCost.Float64 == 98765432109.75 && n.EstimatedReturnedRows.Int64 == erV && n.EstimatedWidth.Int64 == 2147483649, "large estimates are the plan's")
	vsym.Assert(n.ActualTimeFirstRow.Float64 == 1234567.125 && n.ActualTimeAvg.Float64 == 7654321.25 && n.ActualReturnedRows.Int64 == arV && n.ActualLoopCount.Int64 == loV, "large measurements are the plan's")
}
