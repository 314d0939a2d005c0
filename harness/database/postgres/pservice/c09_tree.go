package pservice

//vsym:use internal/vfdb/db.go

import (
	"errors"
	"strings"

	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_explain struct {
	lines []string
	fail  bool
	sent  []string
}

func (h *vf_explain) Exec(q string, args []any) error { return errors.New("not expected") }
func (h *vf_explain) Query(q string, args []any) ([]string, [][]any, error) {
	h.sent = append(h.sent, q)
	if h.fail {
		return nil, nil, errors.New("down")
	}
	var rows [][]any
	for _, l := range h.lines {
		rows = append(rows, []any{l})
	}
	return []string{"QUERY PLAN"}, rows, nil
}

type vf_flat struct {
	depth int
	text  string
}

func vf_flatten(ns []*viewmodel.VmPostgresExplainAnalyzeNode, d int, out *[]vf_flat) {
	for _, n := range ns {
		*out = append(*out, vf_flat{d, n.Text})
		vf_flatten(n.Children, d+1, out)
	}
}

// Every line of the plan belongs to one node, nodes nest as they are indented,
// and what follows the plan is the summary; with or without a summary.
func VerifC09_Nodes() {
	n := vsym.Choice(vsym.Bound(6, 8))
	lines := []string{"Hash Join  (cost=0.00..1.10 rows=1 width=4) (actual time=0.1..0.2 rows=1 loops=1)"}
	want := []vf_flat{{0, lines[0]}}
	indent := []int{0}
	add := func(l string) {
		lines = append(lines, l)
		want[len(want)-1].text += "\n" + l
	}
	node := func(ind int, l string) {
		lines = append(lines, l)
		indent = append(indent, ind)
		d := 0
		for i := len(indent) - 2; i >= 0; i-- {
			if indent[i] < ind {
				d = want[i].depth + 1
				break
			}
		}
		want = append(want, vf_flat{d, l})
	}
	ind := 0
	for i := 0; i < n; i++ {
		switch vsym.Choice(4) {
		case 0: // detail of the current node
			add(strings.Repeat(" ", ind+2) + []string{"Buffers: shared hit=745", "Sort Key: users.name", "Rows Removed by Filter: 3"}[i%3])
		case 1: // another node
			ind = []int{2, 8, 14}[vsym.Choice(3)]
			node(ind, strings.Repeat(" ", ind)+"->  Seq Scan on users  (cost=0.00..1.00 rows=1 width=4) (actual time=0.1..0.2 rows=1 loops=1)")
		case 2: // a sub plan: its name, then its node
			ind = []int{2, 8}[vsym.Choice(2)]
			node(ind, strings.Repeat(" ", ind)+[]string{"SubPlan 1", "InitPlan 2 (returns $0)", "CTE x"}[i%3])
			add(strings.Repeat(" ", ind+2) + "->  Index Scan using i on tasks  (cost=0.00..1.00 rows=1 width=4) (never executed)")
		case 3: // a detail that may look like something else
			add(strings.Repeat(" ", ind+2) + "Filter: (name = '" + vsym.StringOf("a ->:", 0, 2) + "')")
		}
	}
	summary := ""
	switch vsym.Choice(3) {
	case 1:
		summary = "Planning Time: 0.031 ms\nExecution Time: 6.023 ms"
	case 2:
		summary = "Planning:\n  Buffers: shared hit=1\nPlanning Time: 0.1 ms"
	}
	if summary != "" {
		lines = append(lines, strings.Split(summary, "\n")...)
	}
	vf_plan09(lines, want, summary)
}

// Deep plans with every kind of detail, and all that may follow a plan.
func VerifC09_Deep() {
	n := vsym.Bound(8, 12)
	lines := []string{"Limit  (cost=0.00..1.10 rows=1 width=4) (actual time=0.1..0.2 rows=1 loops=1)"}
	want := []vf_flat{{0, lines[0]}}
	details := []string{"Full-sort Groups: 1  Sort Method: quicksort  Average Memory: 27kB  Peak Memory: 27kB", "I/O Timings: read=0.103", "One-Time Filter: (now() > '2000-01-01 00:00:00'::timestamp)",
		"Buckets: 1024  Batches: 1  Memory Usage: 9kB", "Workers Launched: 2", "Rows Removed by Index Recheck: 3", "Heap Fetches: 0"}
	k := vsym.Choice(len(details))
	for i := 0; i < n; i++ {
		lines = append(lines, strings.Repeat(" ", 2+6*i)+"->  Nested Loop Left Join  (cost=0.00..1.00 rows=1 width=4) (actual time=0.1..0.2 rows=1 loops=1)")
		want = append(want, vf_flat{i + 1, lines[len(lines)-1]})
		if i == n-1 || i == 0 {
			l := strings.Repeat(" ", 8+6*i) + details[k]
			lines = append(lines, l)
			want[len(want)-1].text += "\n" + l
		}
	}
	d := vsym.Choice(n + 1) // comes back to any level
	lines = append(lines, strings.Repeat(" ", 2+6*d)+"->  Index Scan using i on "+vsym.StringOf("a_Z1", 1, 2)+"  (cost=0.00..1.00 rows=1 width=4) (never executed)")
	want = append(want, vf_flat{d + 1, lines[len(lines)-1]})
	l := strings.Repeat(" ", 8+6*d) + details[(k+1)%len(details)]
	lines = append(lines, l)
	want[len(want)-1].text += "\n" + l
	summary := []string{"Trigger for constraint c: time=0.1 calls=1\nExecution Time: 6.023 ms", "Planning:\n  Buffers: shared hit=1\nPlanning Time: 0.1 ms\nJIT:\n  Functions: 3\n  Options: Inlining false\nExecution Time: 1.0 ms",
		"Settings: work_mem = '1MB'\nQuery Identifier: -1"}[vsym.Choice(3)]
	lines = append(lines, strings.Split(summary, "\n")...)
	vf_plan09(lines, want, summary)
}

func vf_plan09(lines []string, want []vf_flat, summary string) {
	tree, err := NewExplainAnalyzeTreeBuilder().Build(lines)
	vsym.Assert(err == nil && tree != nil, "a plan is accepted")
	if err != nil || tree == nil {
		return
	}
	var got []vf_flat
	vf_flatten(tree.ToViewModel(), 0, &got)
	vsym.Observe("nodes", len(got))
	vsym.Assert(len(got) == len(want), "every node of the plan is shown once")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		vsym.Assert(got[i].text == want[i].text, "a node has its own lines, all of them, in order")
		vsym.Assert(got[i].depth == want[i].depth, "nesting follows the indentation")
	}
	vsym.Assert(tree.SummaryText == summary, "the summary is what follows the plan")
}

// The plan is that of the query given, and failures are reported.
func VerifC09_Query() {
	q := vsym.String(0, 2)
	h := &vf_explain{lines: []string{"Result  (cost=0.00..0.01 rows=1 width=4)"}, fail: vsym.Bool()}
	tree, err := NewExplainer(postgres.NewDB(vfdb.Open("postgres", h))).ExplainWithAnalyze(q)
	vsym.Assert(len(h.sent) == 1 && h.sent[0] == "EXPLAIN (ANALYZE, BUFFERS) "+q, "the plan asked for is that of the query")
	vsym.Assert((err != nil) == h.fail, "a plan that cannot be read is an error")
	vsym.Assert((tree == nil) == (err != nil), "no tree comes with an error")
	if tree != nil {
		vsym.Assert(len(tree.ToViewModel()) == 1, "the plan read is shown")
	}
}
