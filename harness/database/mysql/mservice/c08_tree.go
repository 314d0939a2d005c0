package mservice

//vsym:use internal/vfdb/db.go

import (
	"errors"
	"strings"

	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/internal/vfdb"
	"github.com/mrasu/GravityR/internal/vsym"
)

type vf_explain struct {
	text string
	fail bool
	none bool
	sent []string
}

func (h *vf_explain) Exec(q string, args []any) error { return errors.New("not expected") }
func (h *vf_explain) Query(q string, args []any) ([]string, [][]any, error) {
	h.sent = append(h.sent, q)
	if h.fail {
		return nil, nil, errors.New("down")
	}
	if h.none {
		return []string{"EXPLAIN"}, nil, nil
	}
	return []string{"EXPLAIN"}, [][]any{{h.text}}, nil
}

type vf_flat struct {
	depth int
	text  string
}

func vf_flatten(ns []*viewmodel.VmMysqlExplainAnalyzeNode, d int, out *[]vf_flat) {
	for _, n := range ns {
		*out = append(*out, vf_flat{d, n.Text})
		vf_flatten(n.Children, d+1, out)
	}
}

// The tree shown has every line of the plan once, in order, nested as it is indented.
func VerifC08_Indentation() {
	n := vsym.Choice(vsym.Bound(6, 8))
	ops := []string{"-> Table scan on t  (cost=1 rows=1)", "-> Nested loop inner join", "-> Filter: (t.`a` = 1)  (cost=2.50 rows=1) (actual time=0.1..0.2 rows=1 loops=1)", "<not executable by iterator executor>"}
	var want []vf_flat
	var lines []string
	valid, prev := true, -1
	for i := 0; i < n; i++ {
		d := vsym.Int(0, vsym.Bound(4, 5))
		if d > prev+1 {
			valid = false
		}
		prev = d
		l := strings.Repeat("    ", d) + ops[i%len(ops)]
		lines = append(lines, l)
		want = append(want, vf_flat{d, l})
	}
	vf_plan08(lines, want, valid, vsym.Choice(3))
}

// Deep plans, and lines of any text.
func VerifC08_Deep() {
	n := vsym.Bound(10, 14)
	var want []vf_flat
	var lines []string
	add := func(d int, t string) {
		l := strings.Repeat("    ", d) + "-> " + t
		lines = append(lines, l)
		want = append(want, vf_flat{d, l})
	}
	for i := 0; i < n; i++ {
		add(i, "Nested loop inner join  (cost=1 rows=1)")
	}
	d := vsym.Choice(n + 2) // comes back to any level
	add(d, "Table scan on "+vsym.StringOf("a ->`(:\t", 0, 3)+"  (cost=1 rows=1)"+vsym.StringOf(" .", 0, 1))
	d2 := vsym.Choice(3)
	valid := d <= n && d2 <= d+1
	add(d2, "Filter: (t.a = 'x')")
	if d2 == 0 {
		lines[len(lines)-1] = "Select: no arrow here"
		want[len(want)-1].text = lines[len(lines)-1]
	}
	vf_plan08(lines, want, valid, 1)
}

func vf_plan08(lines []string, want []vf_flat, valid bool, ends int) {
	text := strings.Join(lines, "\n")
	switch ends {
	case 1:
		text += "\n"
	case 2:
		text = "\n" + text + "\n"
	}
	h := &vf_explain{text: text}
	tree, err := NewExplainer(mysql.NewDB(vfdb.Open("mysql", h))).ExplainWithAnalyze("SELECT 1")
	vsym.Observe("ok", err == nil)
	if !valid {
		vsym.Assert(err != nil && tree == nil, "a plan that skips a level is an error")
		return
	}
	vsym.Assert(err == nil && tree != nil, "a well-formed plan is accepted")
	if err != nil || tree == nil {
		return
	}
	var got []vf_flat
	vf_flatten(tree.ToViewModel(), 0, &got)
	vsym.Assert(len(got) == len(want), "every line of the plan is shown once")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		vsym.Assert(got[i].text == want[i].text, "lines keep their text and order")
		vsym.Assert(got[i].depth == want[i].depth, "nesting follows the indentation")
	}
}

// The plan is that of the query given, and failures are reported.
func VerifC08_Query() {
	q := vsym.String(0, 2)
	h := &vf_explain{text: "-> Rows fetched before execution", fail: vsym.Bool(), none: vsym.Bool()}
	tree, err := NewExplainer(mysql.NewDB(vfdb.Open("mysql", h))).ExplainWithAnalyze(q)
	vsym.Assert(len(h.sent) == 1 && h.sent[0] == "EXPLAIN ANALYZE FORMAT=TREE "+q, "the plan asked for is that of the query")
	vsym.Assert((err != nil) == (h.fail || h.none), "a plan that cannot be read is an error")
	vsym.Assert((tree == nil) == (err != nil), "no tree comes with an error")
}
