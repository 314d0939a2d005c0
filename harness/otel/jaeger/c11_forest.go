package jaeger

import (
	v1 "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	v1Res "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	v1Trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	"github.com/mrasu/GravityR/internal/vsym"
	"github.com/mrasu/GravityR/otel/omodel"
)

func vf_str(k, v string) *v1.KeyValue {
	return &v1.KeyValue{Key: k, Value: &v1.AnyValue{Value: &v1.AnyValue_StringValue{StringValue: v}}}
}

func vf_id(i int, first bool) []byte {
	if first {
		return []byte{byte(i + 1), 0, 0, 0, 0, 0, 0, 0}
	}
	return []byte{0, 0, 0, 0, 0, 0, 0, byte(i + 1)}
}

// vf_forest makes n spans in two resources, each below nothing, another span or a span that is not there.
func vf_forest(n int) (rs []*v1Trace.ResourceSpans, spans []*v1Trace.Span, parent []int, svc []string) {
	a := &v1Trace.ResourceSpans{Resource: &v1Res.Resource{Attributes: []*v1.KeyValue{vf_str("telemetry.sdk", "go"), vf_str("service.name", "svc-a"), vf_str("service.name", "other")}}}
	b := &v1Trace.ResourceSpans{}
	if vsym.Choice(2) == 1 {
		b.Resource = &v1Res.Resource{Attributes: []*v1.KeyValue{vf_str("host", "h")}}
	}
	a.InstrumentationLibrarySpans = []*v1Trace.InstrumentationLibrarySpans{{}, {}}
	b.InstrumentationLibrarySpans = []*v1Trace.InstrumentationLibrarySpans{{}}
	rs = []*v1Trace.ResourceSpans{a, b}
	first := vsym.Choice(2) == 1 // which byte of the ids differs
	for i := 0; i < n; i++ {
		s := &v1Trace.Span{
			TraceId: []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7}, SpanId: vf_id(i, first), Name: string(rune('A' + i)),
			StartTimeUnixNano: vsym.Uint64(0, 255), EndTimeUnixNano: vsym.Uint64(0, 255),
		}
		p := vsym.Choice(n+2) - 2 // -2: no id, -1: zeros, i itself: a span that is not there
		switch {
		case p == -1:
			s.ParentSpanId = []byte{0, 0, 0, 0, 0, 0, 0, 0}
		case p == i:
			s.ParentSpanId = []byte{0, 0, 0, 0, 0, 0, 1, 0}
			p = -1
		case p >= 0:
			s.ParentSpanId = vf_id(p, first)
		}
		parent = append(parent, p)
		spans = append(spans, s)
		switch i % 3 {
		case 0:
			a.InstrumentationLibrarySpans[0].Spans = append(a.InstrumentationLibrarySpans[0].Spans, s)
		case 1:
			b.InstrumentationLibrarySpans[0].Spans = append(b.InstrumentationLibrarySpans[0].Spans, s)
		case 2:
			a.InstrumentationLibrarySpans[1].Spans = append(a.InstrumentationLibrarySpans[1].Spans, s)
		}
		svc = append(svc, []string{"svc-a", "", "svc-a"}[i%3])
	}
	for i := range spans { // parents form no cycle
		k := 0
		for p := i; p >= 0 && k <= n; p = parent[p] {
			k++
		}
		vsym.Assume(k <= n)
	}
	return
}

func vf_checkForest(trees []*omodel.TraceTree, spans []*v1Trace.Span, parent []int, svc []string) {
	n := len(spans)
	seen := make([]int, n)
	var walk func(s *omodel.Span, p int)
	walk = func(s *omodel.Span, p int) {
		i := int(s.Name[0] - 'A')
		seen[i]++
		if seen[i] > 1 {
			return
		}
		o := spans[i]
		want := parent[i]
		if want < 0 {
			want = -1
		}
		vsym.Assert(p == want, "a span is below its parent, or a root when its parent is not there")
		vsym.Assert(string(s.SpanId) == string(o.SpanId) && string(s.TraceId) == string(o.TraceId) && s.StartTimeUnixNano == o.StartTimeUnixNano && s.EndTimeUnixNano == o.EndTimeUnixNano, "a span keeps its ids and times")
		vsym.Assert(s.ServiceName == svc[i], "a span's service is its resource's")
		for k, c := range s.Children {
			vsym.Assert(k == 0 || s.Children[k-1].StartTimeUnixNano <= c.StartTimeUnixNano, "children come by start time")
			vsym.Assert(c.Parent == s, "a child knows its parent")
			walk(c, i)
		}
	}
	for _, t := range trees {
		vsym.Assert(t.Root.Parent == nil, "a root has no parent")
		walk(t.Root, -1)
	}
	for i := range seen {
		vsym.Assert(seen[i] == 1, "every span is in exactly one tree, once")
	}
}

// Every span received is in exactly one tree, below its parent, in any order of visits.
func VerifC11_Orders() {
	n := vsym.Choice(4)
	rs, spans, parent, svc := vf_forest(n)
	vsym.MapOrder(3, 1)
	vf_checkForest(ToTraceTrees(rs), spans, parent, svc)
}

// The same for larger traces, in one order.
func VerifC11_Larger() {
	rs, spans, parent, svc := vf_forest(vsym.Bound(5, 6))
	vf_checkForest(ToTraceTrees(rs), spans, parent, svc)
}

// Attributes keep their kind and value.
func VerifC11_Attributes() {
	i, d, bo := vsym.Int64(-9, 1<<40), vsym.Float64(), vsym.Bool()
	str := vsym.String(0, 3)
	attr := func(k string, v *v1.AnyValue) *v1.KeyValue { return &v1.KeyValue{Key: k, Value: v} }
	s := &v1Trace.Span{SpanId: vf_id(0, false), Attributes: []*v1.KeyValue{
		vf_str("s", str),
		attr("i", &v1.AnyValue{Value: &v1.AnyValue_IntValue{IntValue: i}}),
		attr("d", &v1.AnyValue{Value: &v1.AnyValue_DoubleValue{DoubleValue: d}}),
		attr("b", &v1.AnyValue{Value: &v1.AnyValue_BoolValue{BoolValue: bo}}),
		attr("y", &v1.AnyValue{Value: &v1.AnyValue_BytesValue{BytesValue: []byte{1, 2}}}),
		attr("a", &v1.AnyValue{Value: &v1.AnyValue_ArrayValue{ArrayValue: &v1.ArrayValue{Values: []*v1.AnyValue{{Value: &v1.AnyValue_StringValue{StringValue: str}}}}}}),
		attr("k", &v1.AnyValue{Value: &v1.AnyValue_KvlistValue{KvlistValue: &v1.KeyValueList{Values: []*v1.KeyValue{vf_str("z", str),
			attr("m", &v1.AnyValue{Value: &v1.AnyValue_KvlistValue{KvlistValue: &v1.KeyValueList{Values: []*v1.KeyValue{attr("n", &v1.AnyValue{Value: &v1.AnyValue_IntValue{IntValue: i}})}}}}),
			attr("l", &v1.AnyValue{Value: &v1.AnyValue_ArrayValue{ArrayValue: &v1.ArrayValue{Values: []*v1.AnyValue{{Value: &v1.AnyValue_BoolValue{BoolValue: bo}}, {Value: &v1.AnyValue_BoolValue{BoolValue: !bo}}}}}})}}}}),
	}}
	t := ToTraceTrees([]*v1Trace.ResourceSpans{{InstrumentationLibrarySpans: []*v1Trace.InstrumentationLibrarySpans{{Spans: []*v1Trace.Span{s}}}}})
	vsym.Assert(len(t) == 1, "one span, one tree")
	if len(t) != 1 {
		return
	}
	m := t[0].Root.SpanAttributes
	vsym.Assert(len(m) == 7, "every attribute is kept")
	if len(m) != 7 || m["s"] == nil || m["i"] == nil || m["d"] == nil || m["b"] == nil || m["y"] == nil || m["a"] == nil || m["k"] == nil {
		vsym.Assert(false, "every attribute keeps its name")
		return
	}
	vsym.Assert(m["s"].GetStringValue() == str && m["i"].GetIntValue() == i && vsym.FloatSame(m["d"].GetDoubleValue(), d) && m["b"].GetBoolValue() == bo, "attributes keep their values")
	vsym.Assert(string(m["y"].GetBytesValue()) == "\x01\x02", "bytes keep their value")
	av := m["a"].GetArrayValue()
	vsym.Assert(len(av) == 1, "an array keeps its elements")
	if len(av) == 1 {
		x, ok := av[0].(*omodel.AnyValueString)
		vsym.Assert(ok && x.StringValue == str, "an array keeps its elements")
	}
	x, ok := m["k"].GetKV()["z"].(*omodel.AnyValueString)
	vsym.Assert(ok && x.StringValue == str, "a map keeps its entries")
	kv, ok := m["k"].GetKV()["m"].(*omodel.AnyValueKV)
	vsym.Assert(ok && len(kv.KVValue) == 1, "a map in a map keeps its entries")
	if ok {
		y, ok := kv.KVValue["n"].(*omodel.AnyValueInt)
		vsym.Assert(ok && y.IntValue == i, "a map in a map keeps its entries")
	}
	l, ok := m["k"].GetKV()["l"].(*omodel.AnyValueArray)
	vsym.Assert(ok && len(l.ArrayValues) == 2, "a list in a map keeps its elements")
	if ok && len(l.ArrayValues) == 2 {
		y0, ok0 := l.ArrayValues[0].(*omodel.AnyValueBool)
		y1, ok1 := l.ArrayValues[1].(*omodel.AnyValueBool)
		vsym.Assert(ok0 && ok1 && y0.BoolValue == bo && y1.BoolValue == !bo, "a list in a map keeps its elements, in order")
	}
}
