package dig

import (
	"errors"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	v1 "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	v1Res "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	v1Trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	iJaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/internal/vfgrpc"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vsym"
)

//vsym:use internal/vfpage/*.go
//vsym:use internal/vfgrpc/*.go

type vf_trace struct {
	id  byte
	dur uint64
	acc int // accesses of the most accessed service
}

type vf_server struct {
	traces []vf_trace
	fail   int
	n      int
	reqs   []api_v3.TraceQueryParameters
}

// Find answers the first request with all traces, the others with none.
func (s *vf_server) Find(req *api_v3.FindTracesRequest) vfgrpc.Reply {
	s.n++
	s.reqs = append(s.reqs, *req.Query)
	var r vfgrpc.Reply
	if s.fail == s.n {
		r.Err = errors.New("lost")
	}
	if s.n > 1 {
		return r
	}
	for _, t := range s.traces {
		c := &api_v3.SpansResponseChunk{}
		for k := 0; k <= t.acc; k++ { // the root in the front service, its children in other services
			svc := "front"
			sp := &v1Trace.Span{TraceId: []byte{t.id}, SpanId: []byte{byte(k + 1)}, Name: "span" + string(rune('0'+k)), StartTimeUnixNano: 5000000, EndTimeUnixNano: 5000000 + t.dur}
			if k > 0 {
				svc = "back"
				sp.ParentSpanId = []byte{1}
				sp.EndTimeUnixNano = 5000000
			}
			c.ResourceSpans = append(c.ResourceSpans, &v1Trace.ResourceSpans{
				Resource:                    &v1Res.Resource{Attributes: []*v1.KeyValue{{Key: "service.name", Value: &v1.AnyValue{Value: &v1.AnyValue_StringValue{StringValue: svc}}}}},
				InstrumentationLibrarySpans: []*v1Trace.InstrumentationLibrarySpans{{Spans: []*v1Trace.Span{sp}}},
			})
		}
		r.Chunks = append(r.Chunks, c)
	}
	return r
}

func vf_hex(b byte) string {
	return string("0123456789abcdef"[b>>4]) + string("0123456789abcdef"[b&15])
}

func vf_run(s *vf_server, jr *jaegerRunner) (any, error) {
	path, done := vfpage.New()
	defer done()
	err := jr.dig(path, iJaeger.NewClient(vfgrpc.Open(s)))
	return vfpage.Read(path), err
}

// The page shows the slowest traces, those that exceed the threshold, and the settings.
func VerifC18_Page() {
	vsym.Init("time")
	s := &vf_server{}
	for n := vsym.Choice(vsym.Bound(4, 5)); n > 0; n-- {
		s.traces = append(s.traces, vf_trace{byte(0x50 + n), vsym.Uint64(1000000, 1<<36), 1 + vsym.Choice(3)})
	}
	s.fail = vsym.Choice(3)
	th := vsym.Choice(4)
	ui := vsym.String(0, 2)
	milli := int(vsym.Int64(0, 1<<30))
	count := vsym.Int64(0, 1<<31-1)
	svc := vsym.String(0, 2)
	start := time.Unix(1700006400, 0)
	jr := &jaegerRunner{serviceName: svc, durationMilli: milli, sameServiceThreshold: th, count: int(count), uiURL: ui, start: start, end: start.Add(time.Hour)}
	page, err := vf_run(s, jr)
	vsym.Assert((err != nil) == (s.fail > 0) && (page != nil) == (err == nil), "it fails exactly when a request fails, and a failure gives no page")
	if err != nil || page == nil {
		return
	}
	for i := range s.reqs {
		q := &s.reqs[i]
		vsym.Assert(q.ServiceName == svc && int64(q.NumTraces) == count && q.DurationMin != nil && q.DurationMin.Seconds*1000+int64(q.DurationMin.Nanos)/1000000 == int64(milli) && q.DurationMin.Nanos%1000000 == 0, "the traces asked for are those of the settings")
	}
	j := vfpage.At(page, "digData", "jaeger")
	vsym.Assert(vfpage.Str(j, "uiPath") == ui && vsym.FloatSame(vfpage.Num(j, "slowThresholdMilli"), float64(milli)) && vfpage.Num(j, "sameServiceThreshold") == float64(th), "the page names the settings")
	slow := vfpage.At(j, "slowTraces")
	vsym.Assert(vfpage.Len(slow) == len(s.traces), "every trace is shown")
	seen := map[string]bool{}
	last := ^uint64(0)
	for i := 0; i < vfpage.Len(slow); i++ {
		id := vfpage.Str(slow, i, "traceId")
		for _, t := range s.traces {
			if vf_hex(t.id) == id {
				vsym.Assert(!seen[id] && t.dur <= last, "traces come once, the slowest first")
				seen[id] = true
				last = t.dur
				vsym.Assert(vfpage.Num(slow, i, "sameServiceAccessCount") == float64(t.acc), "the number of accesses is shown")
				vsym.Assert(vfpage.Str(slow, i, "root", "serviceName") == "front" && vfpage.Str(slow, i, "root", "spanId") == "01" && vfpage.Len(slow, i, "root", "children") == t.acc, "the trace is shown with its spans")
				vsym.Assert(vfpage.Str(slow, i, "timeConsumingServiceName") == "front", "the most time consuming service is shown")
				vsym.Assert(vsym.FloatSame(vfpage.Num(slow, i, "root", "startTimeMillis"), 5) && vsym.FloatSame(vfpage.Num(slow, i, "root", "endTimeMillis"), float64((5000000+t.dur)/1000000)), "times are shown in milliseconds")
			}
		}
	}
	vsym.Assert(len(seen) == len(s.traces), "every trace is shown")
	same := vfpage.At(j, "sameServiceTraces")
	k := 0
	for _, t := range s.traces {
		if t.acc > th {
			vsym.Assert(vfpage.Str(same, k, "traceId") == vf_hex(t.id), "traces with more accesses than the threshold are shown")
			k++
		}
	}
	vsym.Assert(vfpage.Len(same) == k, "no other trace is shown")
	vsym.Assert(vfpage.At(page, "suggestData") == nil, "the page shows no suggestion")
}

// At most the hundred slowest traces are shown.
func VerifC18_Hundred() {
	vsym.Init("time")
	s := &vf_server{}
	n := 98 + vsym.Choice(5)
	for i := 0; i < n; i++ {
		s.traces = append(s.traces, vf_trace{byte(i), uint64((i*37)%n+1) * 1000000, 1})
	}
	start := time.Unix(1700006400, 0)
	page, err := vf_run(s, &jaegerRunner{start: start, end: start.Add(time.Minute), sameServiceThreshold: 5})
	vsym.Assert(err == nil, "nothing fails")
	slow := vfpage.At(page, "digData", "jaeger", "slowTraces")
	want := n
	if want > 100 {
		want = 100
	}
	vsym.Assert(vfpage.Len(slow) == want, "up to a hundred traces are shown")
	for i := 0; i < vfpage.Len(slow); i++ {
		vsym.Assert(vfpage.Num(slow, i, "root", "endTimeMillis") == float64(5+n-i), "the slowest traces come first")
	}
	vsym.Assert(vfpage.Len(page, "digData", "jaeger", "sameServiceTraces") == 0, "no trace exceeds the threshold")
}

// The period is a day from the start given, or the last day, and never in the future; the settings come from the environment.
func VerifC18_Prepare() {
	vsym.Init("time")
	ui, addr := vsym.Choice(2), vsym.Choice(2)
	vsym.Setenv("JAEGER_UI_URL", []string{"", "http://ui"}[ui])
	vsym.Setenv("JAEGER_GRPC_ADDRESS", []string{"", "host:1"}[addr])
	now := time.Now()
	back := time.Duration(vsym.Choice(5)*18) * time.Hour
	texts := []string{"", now.Add(-back).UTC().Format(time.RFC3339), now.Add(-back).In(time.FixedZone("z", 5*3600+1800)).Format(time.RFC3339), "2023-11-15", "yesterday"}
	k := vsym.Choice(len(texts))
	jr := &jaegerRunner{startStr: texts[k]}
	err := jr.prepare()
	bad := k > 2 || ui == 0 || addr == 0
	vsym.Assert((err != nil) == bad, "a bad start and a missing setting are errors, nothing else is")
	if err != nil {
		return
	}
	vsym.Assert(jr.uiURL == "http://ui" && jr.grpcAddress == "host:1", "settings come from the environment")
	near := func(t time.Time, d time.Duration) bool {
		x := t.Sub(now.Add(d))
		return x < 10*time.Second && x > -10*time.Second
	}
	if k == 0 {
		vsym.Assert(near(jr.start, -24*time.Hour) && near(jr.end, 0), "by default the last day is dug")
		return
	}
	vsym.Assert(jr.start.Unix() == now.Add(-back).Unix() && jr.start.Nanosecond() == 0, "the period starts where it was asked to")
	if back > 24*time.Hour {
		vsym.Assert(jr.end.Equal(jr.start.Add(24*time.Hour)), "the period is a day")
	} else {
		vsym.Assert(near(jr.end, 0), "the period does not reach into the future")
	}
}
