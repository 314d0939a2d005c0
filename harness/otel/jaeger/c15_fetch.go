package jaeger

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	v1Trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	iJaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/internal/vfgrpc"
	"github.com/mrasu/GravityR/internal/vsym"
)

//vsym:use internal/vfgrpc/*.go

const vf_base = int64(1700000000)

// the ways a call fails: anything but the end of the stream
func vf_failure() error {
	switch vsym.Choice(4) {
	case 0:
		return io.ErrUnexpectedEOF
	case 1:
		return context.DeadlineExceeded
	case 2:
		return context.Canceled
	}
	return errors.New("failed")
}

type vf_jaeger struct {
	plain  bool
	reqs   []api_v3.TraceQueryParameters
	sent   []string
	failed bool
}

func (j *vf_jaeger) Find(req *api_v3.FindTracesRequest) vfgrpc.Reply {
	vsym.Assert(!j.failed, "nothing is asked after a failure")
	j.reqs = append(j.reqs, *req.Query)
	if j.plain {
		return vfgrpc.Reply{}
	}
	var r vfgrpc.Reply
	fail := vsym.Choice(3)
	if fail == 1 {
		j.failed = true
		return vfgrpc.Reply{OpenErr: vf_failure()}
	}
	for i := vsym.Choice(3); i > 0; i-- {
		var spans []*v1Trace.Span
		for k := vsym.Choice(3); k > 0; k-- { // unrelated spans: one tree each
			n := string(rune('A' + len(j.sent)))
			j.sent = append(j.sent, n)
			spans = append(spans, &v1Trace.Span{SpanId: []byte{byte(k)}, Name: n})
		}
		r.Chunks = append(r.Chunks, &api_v3.SpansResponseChunk{ResourceSpans: []*v1Trace.ResourceSpans{{InstrumentationLibrarySpans: []*v1Trace.InstrumentationLibrarySpans{{Spans: spans}}}}})
	}
	if fail == 2 {
		j.failed = true
		r.Err = vf_failure()
	}
	return r
}

// The requests cover the period without gap or overlap and carry what was asked for.
func VerifC15_Windows() {
	vsym.Linear()
	j := &vf_jaeger{plain: true}
	f := NewTraceFetcher(iJaeger.NewClient(vfgrpc.Open(j)))
	max := int64(vsym.Bound(3, 6)) * 1800
	s, sn := vsym.Int64(0, 1<<20), vsym.Int64(0, 999999999)
	d, dn := vsym.Int64(0, max), vsym.Int64(0, 999999999)
	start := time.Unix(vf_base+s, sn)
	end := start.Add(time.Duration(d)*time.Second + time.Duration(dn))
	_, err := f.FetchCompactedTraces(7, start, end, "svc", time.Second)
	vsym.Assert(err == nil, "nothing fails")
	n := len(j.reqs)
	vsym.Observe("n", n)
	empty := vsym.And(d == 0, dn == 0)
	vsym.Assert(vsym.Or(n > 0, empty), "a period is asked for")
	for i := range j.reqs {
		q := &j.reqs[i]
		vsym.Assert(q.StartTimeMin != nil && q.StartTimeMax != nil, "every request has a period")
		if q.StartTimeMin == nil || q.StartTimeMax == nil {
			return
		}
		vsym.Assert(q.StartTimeMax.Seconds-q.StartTimeMin.Seconds == 1800 && q.StartTimeMin.Nanos == q.StartTimeMax.Nanos, "a request covers half an hour")
		if i > 0 {
			p := &j.reqs[i-1]
			vsym.Assert(p.StartTimeMax.Seconds == q.StartTimeMin.Seconds && p.StartTimeMax.Nanos == q.StartTimeMin.Nanos, "requests leave no gap and do not overlap")
		}
	}
	if n > 0 {
		a, z := j.reqs[0].StartTimeMin, j.reqs[n-1].StartTimeMax
		vsym.Assert(a.Seconds == vf_base+s && int64(a.Nanos) <= sn, "the first request starts with the period")
		vsym.Assert(z.Seconds >= vf_base+s+d, "the last request reaches the end of the period")
		vsym.Assert(z.Seconds-1800 <= vf_base+s+d, "nothing after the period is asked for")
	}
}

// Every request carries the service, the number and exactly the minimum duration.
func VerifC15_Parameters() {
	vsym.Linear()
	j := &vf_jaeger{plain: true}
	f := NewTraceFetcher(iJaeger.NewClient(vfgrpc.Open(j)))
	svc := vsym.String(0, 3)
	size := int32(vsym.Int64(0, 1<<31-1))
	ns := vsym.Int64(0, 1<<50)
	start := time.Unix(vf_base, 0)
	_, err := f.FetchCompactedTraces(size, start, start.Add(time.Hour), svc, time.Duration(ns))
	vsym.Assert(err == nil && len(j.reqs) == 2, "an hour takes two requests")
	for i := range j.reqs {
		q := &j.reqs[i]
		vsym.Assert(q.ServiceName == svc, "the service is the one asked for")
		vsym.Assert(q.NumTraces == size, "the number is the one asked for")
		vsym.Assert(q.OperationName == "" && len(q.Attributes) == 0 && q.DurationMax == nil, "nothing else restricts the traces")
		vsym.Assert(q.DurationMin != nil, "a minimum duration is given")
		if q.DurationMin == nil {
			return
		}
		vsym.Assert(q.DurationMin.Nanos >= 0 && q.DurationMin.Nanos < 1000000000, "the minimum duration is well formed")
		vsym.Assert(q.DurationMin.Seconds*1000000000+int64(q.DurationMin.Nanos) == ns, "the minimum duration is the one asked for")
	}
}

// Every trace received is returned, in order, unless anything failed.
func VerifC15_Answers() {
	j := &vf_jaeger{}
	f := NewTraceFetcher(iJaeger.NewClient(vfgrpc.Open(j)))
	start := time.Unix(vf_base, 0)
	n := vsym.Choice(3)
	got, err := f.FetchCompactedTraces(10, start, start.Add(time.Duration(n)*30*time.Minute), "svc", time.Second)
	vsym.Assert((err != nil) == j.failed, "it fails exactly when a request or an answer failed")
	if err != nil {
		vsym.Assert(len(got) == 0, "a failure gives no traces")
		return
	}
	vsym.Assert(len(j.reqs) == n, "every request is sent")
	vsym.Assert(len(got) == len(j.sent), "every trace received is returned, once")
	seen := map[string]bool{}
	for _, t := range got {
		vsym.Assert(!seen[t.Root.Name], "no trace is returned twice")
		seen[t.Root.Name] = true
	}
	for _, s := range j.sent {
		vsym.Assert(seen[s], "every trace received is returned")
	}
}
