package omodel

import (
	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/internal/vsym"
)

func vf_order(s *Span, out *[]*Span) {
	*out = append(*out, s)
	for _, c := range s.Children {
		vf_order(c, out)
	}
}

func vf_walk(v *viewmodel.VmOtelTraceSpan, d int, f func(name, id, service string, s, e, d int)) {
	f(v.Name, v.SpanId, v.ServiceName, v.StartTimeMillis, v.EndTimeMillis, d)
	for _, c := range v.Children {
		vf_walk(c, d+1, f)
	}
}

func vf_min(a, b uint64) uint64 { return vsym.IteU(a < b, a, b) }
func vf_max(a, b uint64) uint64 { return vsym.IteU(a < b, b, a) }

type vf_iv struct{ s, e uint64 }

func vf_cut(a, b vf_iv) vf_iv { return vf_iv{vf_max(a.s, b.s), vf_min(a.e, b.e)} }
func vf_len(a vf_iv) uint64   { return vsym.IteU(a.s < a.e, a.e-a.s, 0) }

// vf_own is the time of s not covered by the children, by inclusion and exclusion.
func vf_own(s vf_iv, cs []vf_iv) uint64 {
	r := vf_len(s)
	for m := 1; m < 1<<len(cs); m++ {
		x, odd := s, false
		for i, c := range cs {
			if m>>i&1 == 1 {
				x, odd = vf_cut(x, c), !odd
			}
		}
		if odd {
			r -= vf_len(x)
		} else {
			r += vf_len(x)
		}
	}
	return r
}

func vf_span(svc string, max uint64) (*Span, vf_iv) {
	a, b := vsym.Uint64(0, max), vsym.Uint64(0, max)
	vsym.Assume(a <= b)
	return &Span{ServiceName: svc, SpanId: []byte{1}, TraceId: []byte{1}, StartTimeUnixNano: a, EndTimeUnixNano: b}, vf_iv{a, b}
}

// A span's own time is its duration less the time its children cover.
func VerifC13_OwnTime() {
	vsym.Linear()
	n := vsym.Choice(vsym.Bound(4, 5))
	max := uint64(1)<<40 - 1
	if n > 1 {
		max = 31
	}
	s, iv := vf_span("x", max)
	var cs []vf_iv
	for i := 0; i < n; i++ {
		c, civ := vf_span("y", max)
		c.Parent = s
		s.Children = append(s.Children, c)
		cs = append(cs, civ)
	}
	got := s.CalcConsumedTime()
	vsym.Observe("own", got)
	vsym.Assert(got == vf_own(iv, cs), "own time is the span less what its children cover of it")
	for i := 0; i < n; i++ {
		vsym.Assert(s.Children[i].StartTimeUnixNano == cs[i].s && s.Children[i].EndTimeUnixNano == cs[i].e, "children are left as they are")
	}
}

// The service shown as consuming most is one with the largest total own time,
// and the access count is that of the most accessed service.
func VerifC13_Service() {
	vsym.Linear()
	n := 1 + vsym.Choice(vsym.Bound(3, 4))
	var spans []*Span
	var ivs []vf_iv
	kids := make([][]vf_iv, n)
	names := []string{"x", "y", "z"}
	svc := make([]int, n)
	for i := 0; i < n; i++ {
		svc[i] = vsym.Choice(vsym.Bound(2, 3))
		s, iv := vf_span(names[svc[i]], 15)
		if i > 0 {
			p := vsym.Choice(i)
			s.Parent = spans[p]
			spans[p].Children = append(spans[p].Children, s)
			if n > 2 {
				vsym.Assume(ivs[p].s <= iv.s)
				vsym.Assume(iv.s < iv.e)
				vsym.Assume(iv.e <= ivs[p].e)
			}
			kids[p] = append(kids[p], iv)
		}
		spans = append(spans, s)
		ivs = append(ivs, iv)
	}
	vsym.MapOrder(3, 2)
	tt := NewTraceTree(spans[0])
	vm := tt.ToCompactViewModel()
	var total [3]uint64
	var count [3]int
	for i := range spans {
		total[svc[i]] += vf_own(ivs[i], kids[i])
		count[svc[i]]++
	}
	maxC, maxT := 0, uint64(0)
	for k := range total {
		if count[k] > maxC {
			maxC = count[k]
		}
		maxT = vf_max(maxT, total[k])
	}
	vsym.Assert(vm.SameServiceAccessCount == maxC && tt.MaxSameServiceAccessCount() == maxC, "the access count is that of the most accessed service")
	ok := vsym.And(vm.TimeConsumingServiceName == "", maxT == 0)
	for k := range total {
		ok = vsym.Or(ok, vsym.And(vm.TimeConsumingServiceName == names[k], vsym.And(count[k] > 0, total[k] == maxT)))
	}
	vsym.Assert(ok, "the most time consuming service has the largest total own time")
}

// The displayed tree mirrors the trace, times in milliseconds.
func VerifC13_Display() {
	n := 1 + vsym.Choice(vsym.Bound(3, 4))
	spans, parent := vf_tree(n)
	for _, s := range spans {
		s.StartTimeUnixNano = vsym.Uint64(0, 1<<62)
		s.EndTimeUnixNano = vsym.Uint64(0, 1<<62)
	}
	root := spans[0].ToViewModel()
	vm := NewTraceTree(&Span{TraceId: []byte{9, 9}, SpanId: []byte{0, 1}}).ToCompactViewModel()
	vsym.Assert(vm.TraceId == "0909", "the trace is identified by its id in hexadecimal")
	var order []*Span
	vf_order(spans[0], &order)
	depth := func(i int) int {
		d := 0
		for p := parent[i]; p >= 0; p = parent[p] {
			d++
		}
		return d
	}
	k := 0
	vf_walk(root, 0, func(name, id, service string, s, e, d int) {
		if k >= len(order) {
			k++
			return
		}
		o := order[k]
		i := int(o.SpanId[7]) - 1
		vsym.Assert(name == o.Name && service == o.ServiceName, "spans are shown in order with name and service")
		vsym.Assert(id == "ab0000000000000"+string(rune('1'+i)), "a span's id is shown in hexadecimal")
		vsym.Assert(d == depth(i), "spans are nested as in the trace")
		vsym.Assert(uint64(s) == o.StartTimeUnixNano/1000000 && uint64(e) == o.EndTimeUnixNano/1000000, "times are shown in milliseconds")
		k++
	})
	vsym.Assert(k == len(order), "every span is shown once")
}

// Ids are shown in hexadecimal, every byte as two digits.
func VerifC13_Ids() {
	tid := []byte(vsym.String(0, 16))
	sid := []byte(vsym.String(0, 16))
	root := &Span{TraceId: tid, SpanId: sid}
	vm := NewTraceTree(root).ToCompactViewModel()
	vsym.Assert(vm.TraceId == vf_hex(tid), "the trace is identified by its id in hexadecimal")
	vsym.Assert(root.ToViewModel().SpanId == vf_hex(sid), "a span's id is shown in hexadecimal")
}

func vf_hex(b []byte) string {
	var s []byte
	for _, x := range b {
		for _, d := range [2]byte{x >> 4, x & 15} {
			s = append(s, byte(vsym.IteU(d < 10, uint64(d+'0'), uint64(d+'a'-10))))
		}
	}
	return string(s)
}
