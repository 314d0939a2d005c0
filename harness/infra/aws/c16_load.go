package aws

import (
	"time"

	"github.com/mrasu/GravityR/internal/vsym"
)

const vf_base = int64(1700006400) // a full hour

type vf_point struct {
	at          int64
	v           uint64
	db, sql, id string
}

// vf_check compares the loads shown with the data points.
func vf_check(start, end time.Time, avgs []*PiSQLLoadAvg, s, e int64, ps []vf_point) {
	res := ConvertPiSQLLoadAvgsToVms(start, end, avgs)
	vsym.Observe("n", len(res))
	vsym.Assert(len(res) > 0, "the period has an hour")
	if len(res) == 0 {
		return
	}
	for i, r := range res {
		ts := time.Time(r.Timestamp)
		at := ts.Unix()
		vsym.Assert(at%3600 == 0 && ts.Nanosecond() == 0, "loads are shown per full hour")
		if i == 0 {
			vsym.Assert(vsym.And(at <= s, s < at+3600), "the first hour is the one the period starts in")
		} else {
			vsym.Assert(at == time.Time(res[i-1].Timestamp).Unix()+3600, "hours follow each other")
		}
		if i == len(res)-1 {
			vsym.Assert(vsym.And(at <= e, e < at+3600), "the last hour is the one the period ends in")
		}
		for a, d := range r.Databases {
			for _, d2 := range r.Databases[:a] {
				vsym.Assert(d.Name != d2.Name, "a database comes once per hour")
			}
			for b, q := range d.Sqls {
				for _, q2 := range d.Sqls[:b] {
					vsym.Assert(vsym.Or(q.Sql != q2.Sql, q.TokenizedId != q2.TokenizedId), "an SQL comes once per database and hour")
				}
				sum, max, any := uint64(0), uint64(0), false
				for _, p := range ps {
					in := vsym.And(vsym.And(p.db == d.Name, vsym.And(p.sql == q.Sql, p.id == q.TokenizedId)), vsym.And(at <= p.at, p.at < at+3600))
					sum += vsym.IteU(in, p.v, 0)
					max = vsym.IteU(vsym.And(in, max < p.v), p.v, max)
					any = vsym.Or(any, in)
				}
				vsym.Assert(any, "only loads of that hour, database, SQL and id are shown")
				vsym.Assert(vsym.FloatSame(q.LoadSum, float64(sum)), "the sum is that of the hour's values")
				vsym.Assert(vsym.FloatSame(q.LoadMax, float64(max)), "the maximum is the largest of the hour's values")
			}
		}
	}
	for _, p := range ps {
		found := false
		for _, r := range res {
			at := time.Time(r.Timestamp).Unix()
			for _, d := range r.Databases {
				for _, q := range d.Sqls {
					found = vsym.Or(found, vsym.And(vsym.And(d.Name == p.db, vsym.And(q.Sql == p.sql, q.TokenizedId == p.id)), vsym.And(at <= p.at, p.at < at+3600)))
				}
			}
		}
		vsym.Assert(found, "every value within the period is shown")
	}
}

var vf_zones = []int64{0, 9 * 3600, 5*3600 + 1800, -3*3600 - 1800, 5*3600 + 2700}

// Every value of the period is in the hour, database and SQL it belongs to.
func VerifC16_Hours() {
	vsym.Init("time")
	vsym.Linear()
	s := vf_base + vsym.Int64(0, 86399)
	l := vsym.Int64(0, int64(vsym.Bound(2, 3))*3600)
	start := time.Unix(s, 0).In(time.FixedZone("zone", int(vf_zones[vsym.Choice(len(vf_zones))])))
	end := start.Add(time.Duration(l) * time.Second)
	n := vsym.Choice(3)
	var ps []vf_point
	avg := NewPiSQLLoadAvg("x", "q", "id")
	for i := 0; i < n; i++ {
		off := vsym.Int64(0, int64(vsym.Bound(2, 3))*3600)
		vsym.Assume(off <= l)
		p := vf_point{s + off, vsym.Uint64(0, 1<<20), "x", "q", "id"}
		ps = append(ps, p)
		avg.Values = append(avg.Values, &PiTimeValue{Time: time.Unix(p.at, 0).UTC(), Value: float64(p.v)})
	}
	vf_check(start, end, []*PiSQLLoadAvg{avg}, s, s+l, ps)
}

// Values of several databases and SQLs are kept apart and summed up.
func VerifC16_Groups() {
	vsym.Init("time")
	vsym.Linear()
	s := vf_base + vsym.Int64(0, 3599)
	start := time.Unix(s, 0).UTC()
	// statements may be cut, so those of different ids may look the same
	own := vsym.Choice(3)
	n := vsym.Choice(vsym.Bound(4, 5))
	var ps []vf_point
	var avgs []*PiSQLLoadAvg
	for i := 0; i < n; i++ {
		p := vf_point{vf_base + 3600*int64(1+vsym.Choice(2)), vsym.Uint64(0, 1<<20), vsym.StringOf("xy", 1, 1), vsym.StringOf("qr", 1, 1), "id"}
		switch own {
		case 1:
			p.id += p.sql
		case 2:
			p.id = vsym.StringOf("mn", 1, 1)
		}
		ps = append(ps, p)
		var a *PiSQLLoadAvg
		if i == 2 && p.db == avgs[0].DbName && p.sql == avgs[0].SQL && p.id == avgs[0].TokenizedId {
			a = avgs[0]
		} else {
			a = NewPiSQLLoadAvg(p.db, p.sql, p.id)
			avgs = append(avgs, a)
		}
		a.Values = append(a.Values, &PiTimeValue{Time: time.Unix(p.at, 0).UTC(), Value: float64(p.v)})
	}
	vf_check(start, start.Add(3*time.Hour), avgs, s, s+3*3600, ps)
}

// Sum and maximum are right for fractions too.
func VerifC16_Fractions() {
	vsym.Init("time")
	a, b := vsym.Float64(), vsym.Float64()
	vsym.Assume(vsym.And(vsym.And(a >= 0, a < 1e9), vsym.And(b >= 0, b < 1e9)))
	start := time.Unix(vf_base, 0).UTC()
	avg := NewPiSQLLoadAvg("x", "q", "id")
	avg.Values = []*PiTimeValue{{Time: start, Value: a}, {Time: start.Add(time.Minute), Value: b}}
	res := ConvertPiSQLLoadAvgsToVms(start, start.Add(time.Hour), []*PiSQLLoadAvg{avg})
	ok := len(res) == 2 && len(res[0].Databases) == 1 && len(res[0].Databases[0].Sqls) == 1
	vsym.Assert(ok, "values of one hour, database and SQL are shown together")
	if !ok {
		return
	}
	q := res[0].Databases[0].Sqls[0]
	vsym.Assert(q.LoadSum == a+b, "the sum is that of the hour's values")
	vsym.Assert(vsym.And(q.LoadMax >= a, q.LoadMax >= b), "the maximum is not exceeded")
	vsym.Assert(vsym.Or(q.LoadMax == a, q.LoadMax == b), "the maximum is one of the hour's values")
}
