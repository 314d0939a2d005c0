package jaeger

import (
	"github.com/mrasu/GravityR/internal/vsym"
	"github.com/mrasu/GravityR/otel/omodel"
)

// The slowest traces are picked, slowest first, at most the number asked for.
func VerifC14_Slow() {
	n := vsym.Choice(vsym.Bound(6, 7))
	num := vsym.Choice(n + 2)
	var trees []*omodel.TraceTree
	var dur []uint64
	for i := 0; i < n; i++ {
		s, e := vsym.Uint64(0, 1<<40), vsym.Uint64(0, 1<<40)
		vsym.Assume(s <= e)
		trees = append(trees, omodel.NewTraceTree(&omodel.Span{Name: string(rune('A' + i)), StartTimeUnixNano: s, EndTimeUnixNano: e}))
		dur = append(dur, e-s)
	}
	in := append([]*omodel.TraceTree{}, trees...)
	got := NewTracePicker(in).PickSlowTraces(num)
	want := num
	if n < num {
		want = n
	}
	vsym.Observe("n", len(got))
	vsym.Assert(len(got) == want, "as many traces as asked for, or all")
	picked := make([]bool, n)
	last := ^uint64(0)
	for _, t := range got {
		i := int(t.Root.Name[0] - 'A')
		vsym.Assert(!picked[i], "a trace is picked once")
		picked[i] = true
		vsym.Assert(dur[i] <= last, "the slowest trace comes first")
		last = dur[i]
	}
	for i := range picked {
		if !picked[i] && len(got) > 0 {
			vsym.Assert(dur[i] <= last, "no trace left out is slower than one picked")
		}
	}
}

// Exactly the traces that access one service more often than the threshold are picked, in order.
func VerifC14_SameService() {
	n := vsym.Choice(4)
	th := vsym.Int(0, 4)
	var trees []*omodel.TraceTree
	var max []int
	for i := 0; i < n; i++ {
		m := 1 + vsym.Choice(vsym.Bound(3, 4))
		var svc []string
		for k := 0; k < m; k++ {
			svc = append(svc, vsym.StringOf("xy", 1, 1))
		}
		root := &omodel.Span{Name: string(rune('A' + i)), ServiceName: svc[0]}
		for k := 1; k < m; k++ {
			at := root
			if k == 2 {
				at = root.Children[0]
			}
			at.Children = append(at.Children, &omodel.Span{ServiceName: svc[k], Parent: at})
		}
		x := 0
		for _, s := range svc {
			if s == "x" {
				x++
			}
		}
		if m-x > x {
			x = m - x
		}
		trees = append(trees, omodel.NewTraceTree(root))
		max = append(max, x)
	}
	got := NewTracePicker(trees).PickSameServiceAccessTraces(th)
	k := 0
	for i := range trees {
		if max[i] > th {
			vsym.Assert(k < len(got) && got[k] == trees[i], "a trace with more accesses to one service than the threshold is picked, in order")
			k++
		}
	}
	vsym.Assert(k == len(got), "no other trace is picked")
	vsym.Observe("n", k)
}
