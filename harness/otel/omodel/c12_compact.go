package omodel

import "github.com/mrasu/GravityR/internal/vsym"

func vf_preorder(s *Span, out *[]*Span) {
	*out = append(*out, s)
	for _, c := range s.Children {
		vf_preorder(c, out)
	}
}

// The compacted trace has exactly the root, the spans that enter another
// service and the final database calls, each under its nearest remaining ancestor.
func VerifC12_Compact() {
	n := 1 + vsym.Choice(vsym.Bound(5, 6))
	spans, parent := vf_tree(n)
	names := []string{"mysql", "redis", "", "PostgreSQL (rds)"}
	db := make([]bool, n)
	for i, s := range spans {
		db[i] = vsym.Bool()
		if db[i] {
			s.SpanAttributes["db.system"] = &AnyValue{Val: &AnyValueString{StringValue: names[i%len(names)]}}
			if i == 5 {
				s.SpanAttributes["db.system"] = &AnyValue{Val: &AnyValueInt{IntValue: 1}}
			}
		}
	}
	var before []string
	leaf := make([]bool, n)
	for i, s := range spans {
		before = append(before, s.ServiceName)
		leaf[i] = len(s.Children) == 0
	}
	res := NewTraceTree(spans[0]).Compact()

	keep := make([]bool, n)
	up := make([]int, n) // nearest remaining ancestor
	for i := range spans {
		keep[i] = i == 0 || before[i] != before[parent[i]] || (leaf[i] && db[i])
		up[i] = -1
		for p := parent[i]; p >= 0; p = parent[p] {
			if keep[p] {
				up[i] = p
				break
			}
		}
	}
	var order, got []*Span
	vf_preorder(spans[0], &order)
	vsym.Assert(res != nil && res.Root != nil, "the root remains")
	if res == nil || res.Root == nil {
		return
	}
	vf_preorder(res.Root, &got)
	var want []int
	for _, s := range order {
		i := int(s.SpanId[7]) - 1
		if keep[i] {
			want = append(want, i)
		}
	}
	vsym.Observe("n", len(got))
	vsym.Assert(len(got) == len(want), "exactly the root, the entries into other services and the final database calls remain")
	if len(got) != len(want) {
		return
	}
	pos := map[string]*Span{}
	for k, i := range want {
		g, o := got[k], spans[i]
		vsym.Assert(g.Name == o.Name && string(g.SpanId) == string(o.SpanId) && string(g.TraceId) == string(o.TraceId), "remaining spans keep identity and order")
		vsym.Assert(g.StartTimeUnixNano == o.StartTimeUnixNano && g.EndTimeUnixNano == o.EndTimeUnixNano, "remaining spans keep their times")
		svc := before[i]
		if leaf[i] && db[i] {
			svc = names[i%len(names)] + " (" + before[i] + ")"
		}
		vsym.Assert(g.ServiceName == svc || i == 5, "a final database call is named after the database and its caller, others after their service")
		pos[o.Name] = g
		if up[i] >= 0 {
			found := false
			if p := pos[spans[up[i]].Name]; p != nil {
				for _, c := range p.Children {
					found = found || c == g
				}
			}
			vsym.Assert(found, "a remaining span is below its nearest remaining ancestor")
		}
	}
	for i, s := range spans {
		vsym.Assert(s.ServiceName == before[i], "compacting does not change the trace")
	}
}
