package omodel

import "github.com/mrasu/GravityR/internal/vsym"

// vf_tree builds a trace of n spans: span i's parent is some earlier span.
// Spans have arbitrary services and may be database calls.
func vf_tree(n int) (spans []*Span, parent []int) {
	for i := 0; i < n; i++ {
		s := &Span{
			Name:              string(rune('A' + i)),
			TraceId:           []byte{9, 9},
			SpanId:            []byte{0xab, 0, 0, 0, 0, 0, 0, byte(i + 1)},
			StartTimeUnixNano: uint64(100 + i),
			EndTimeUnixNano:   uint64(200 + i),
			ServiceName:       vsym.StringOf("xy", 0, 1),
			SpanAttributes:    map[string]*AnyValue{"http.method": {Val: &AnyValueString{StringValue: "GET"}}},
		}
		p := -1
		if i > 0 {
			p = vsym.Choice(i)
			s.Parent = spans[p]
			spans[p].Children = append(spans[p].Children, s)
		}
		spans = append(spans, s)
		parent = append(parent, p)
	}
	return
}
