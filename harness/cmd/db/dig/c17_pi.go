package dig

import (
	"context"
	"errors"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	piTypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/aws/aws-sdk-go-v2/service/rds"
	rdsTypes "github.com/aws/aws-sdk-go-v2/service/rds/types"
	"github.com/mrasu/GravityR/infra/aws"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vsym"
	"github.com/spf13/cobra"
)

//vsym:use internal/vfpage/*.go

func vf_ptr[T any](x T) *T { return &x }

type vf_req struct {
	id, group  string
	start, end int64
}

type vf_cloud struct {
	dbs    int
	failAt int // the request that fails, -1 for none
	reqs   []vf_req
	answer func(n int, tokenized bool) *pi.GetResourceMetricsOutput
	failed bool

	rdsPaged bool // instances come one per page
	rdsAt    int

	rdsFailsAt int // the page that fails if failAt is 0
	piPaged    int // 0: one page; 1: the answer is on the first of two; 2: on the second
	piFailsAt  int // the request whose second page fails, -1 for none
	piNext     bool
}

func (c *vf_cloud) DescribeDBInstances(_ context.Context, in *rds.DescribeDBInstancesInput, _ ...func(*rds.Options)) (*rds.DescribeDBInstancesOutput, error) {
	vsym.Assert(len(in.Filters) == 1 && in.Filters[0].Name != nil && *in.Filters[0].Name == "engine" && len(in.Filters[0].Values) == 1 && in.Filters[0].Values[0] == "mysql", "the MySQL instances are asked for")
	if c.failAt == 0 && c.rdsAt == c.rdsFailsAt {
		c.failed = true
		return nil, errors.New("rds")
	}
	out := &rds.DescribeDBInstancesOutput{}
	first, last := 0, c.dbs
	if c.rdsPaged {
		vsym.Assert((in.Marker == nil) == (c.rdsAt == 0) && (in.Marker == nil || *in.Marker == "m"+string(rune('0'+c.rdsAt))), "pages follow each other")
		first, last = c.rdsAt, c.rdsAt+1
		c.rdsAt++
		if last > c.dbs {
			last = c.dbs
		}
		if c.rdsAt <= c.dbs { // the last page is empty
			out.Marker = vf_ptr("m" + string(rune('0'+c.rdsAt)))
		}
	}
	for i := first; i < last; i++ {
		out.DBInstances = append(out.DBInstances, rdsTypes.DBInstance{DBInstanceIdentifier: vf_ptr("name" + string(rune('0'+i))), DbiResourceId: vf_ptr("res" + string(rune('0'+i)))})
	}
	return out, nil
}

func (c *vf_cloud) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	vsym.Assert(!c.failed, "nothing is asked for after a failure")
	ok := in.Identifier != nil && in.StartTime != nil && in.EndTime != nil && in.PeriodInSeconds != nil && len(in.MetricQueries) == 1
	vsym.Assert(ok, "a request names instance, period and metric")
	q := in.MetricQueries[0]
	vsym.Assert(in.ServiceType == piTypes.ServiceTypeRds && *in.PeriodInSeconds == 300 && q.Metric != nil && *q.Metric == "db.load.avg" && q.GroupBy != nil && q.GroupBy.Group != nil, "the average load is asked for, per five minutes and SQL")
	vsym.Assert((in.NextToken != nil) == c.piNext && (!c.piNext || *in.NextToken == "t"), "pages follow each other")
	if c.piNext {
		c.piNext = false
		r := c.reqs[len(c.reqs)-1]
		vsym.Assert(r == vf_req{*in.Identifier, *q.GroupBy.Group, in.StartTime.Unix(), in.EndTime.Unix()}, "a further page is asked for by the same request")
		if c.piFailsAt == len(c.reqs) {
			c.failed = true
			return nil, errors.New("pi page")
		}
		if c.piPaged == 2 && c.answer != nil {
			return c.answer(len(c.reqs)-1, *q.GroupBy.Group == "db.sql_tokenized"), nil
		}
		return &pi.GetResourceMetricsOutput{}, nil
	}
	c.reqs = append(c.reqs, vf_req{*in.Identifier, *q.GroupBy.Group, in.StartTime.Unix(), in.EndTime.Unix()})
	vsym.Assert(in.StartTime.Nanosecond() == in.EndTime.Nanosecond(), "a request covers whole seconds")
	if c.failAt == len(c.reqs) {
		c.failed = true
		return nil, errors.New("pi")
	}
	out := &pi.GetResourceMetricsOutput{}
	if c.answer != nil && c.piPaged < 2 {
		out = c.answer(len(c.reqs)-1, *q.GroupBy.Group == "db.sql_tokenized")
	}
	if c.piPaged > 0 {
		c.piNext = true
		out.NextToken = vf_ptr("t")
	}
	return out, nil
}

var vf_starts = []struct {
	text string
	unix int64
}{
	{"2023-11-15T00:00:00Z", 1700006400},
	{"2023-11-15T05:50:10+05:30", 1700007610},
	{"2023-11-14T20:50:00-03:30", 1700007600},
	{"", 0},
}

// Every instance's week is asked for in both groupings, without gap or overlap, and any failure is reported without a page.
func VerifC17_Requests() {
	vsym.Init("time")
	c := &vf_cloud{dbs: vsym.Choice(3)}
	c.failAt = vsym.Choice(2+vsym.Bound(3, 57)) - 1
	if c.failAt == vsym.Bound(3, 57) && c.dbs > 0 {
		c.failAt = c.dbs * 28
	}
	c.rdsPaged = vsym.Choice(2) == 1
	if c.failAt == 0 && c.rdsPaged && c.dbs > 0 {
		c.rdsFailsAt = vsym.Choice(2)
	}
	c.piFailsAt = -1
	if c.failAt < 0 {
		c.piPaged = vsym.Choice(2)
		if c.piPaged == 1 {
			c.piFailsAt = vsym.Choice(4) - 1
		}
	}
	st := vf_starts[vsym.Choice(len(vf_starts))]
	path, done := vfpage.New()
	defer done()
	err := (&piRunner{start: st.text}).dig(path, aws.NewRdsWithCli(c), aws.NewPerformanceInsightsWithCli(c))
	page := vfpage.Read(path)
	vsym.Assert((err != nil) == c.failed && (page != nil) == (err == nil), "it fails exactly when a request fails, and a failure gives no page")
	if err != nil {
		return
	}
	vsym.Assert(!c.piNext && (!c.rdsPaged || c.rdsAt == c.dbs+1), "every page is read")
	vsym.Assert(len(c.reqs) == c.dbs*28, "fourteen half days of every instance are asked for, in two groupings")
	first := st.unix
	if st.text == "" && len(c.reqs) > 0 {
		first = c.reqs[0].start
		d := time.Now().Unix() - first - 7*24*3600
		vsym.Assert(d >= 0 && d < 60, "by default the last seven days are asked for")
	}
	for db := 0; db < c.dbs; db++ {
		for _, g := range []string{"db.sql", "db.sql_tokenized"} {
			at, n := first, 0
			for _, r := range c.reqs {
				if r.id == "res"+string(rune('0'+db)) && r.group == g {
					vsym.Assert(r.start == at && r.end == at+12*3600, "half days follow each other from the start")
					at = r.end
					n++
				}
			}
			vsym.Assert(n == 14, "seven days are asked for")
		}
	}
	for _, k := range []string{"sqlDbLoads", "tokenizedSqlDbLoads"} {
		n := vfpage.Len(page, "digData", "performanceInsights", k)
		vsym.Assert(n == 169, "the page has every hour of the week")
	}
	vsym.Assert(vfpage.At(page, "suggestData") == nil, "the page shows no suggestion")
}

// The period is the one of the command line, however it is written there, or the last week.
func VerifC17_CommandLine() {
	vsym.Init("time")
	vsym.Init("github.com/spf13/cobra")
	c := &vf_cloud{dbs: 1, failAt: -1, piFailsAt: -1}
	st := vf_starts[vsym.Choice(len(vf_starts))]
	text, bad := st.text, false
	if vsym.Choice(2) == 1 {
		text, bad = []string{"2023-11-15", "now", "2023-11-15T00:00:00"}[vsym.Choice(3)], true
	}
	args := []string{}
	switch way := vsym.Choice(3); {
	case way == 0 && text != "":
		args = []string{"--start-from", text}
	case way == 1:
		args = []string{"--start-from=" + text}
	default:
		vsym.Assume(way == 2 && text == "")
	}
	switch vsym.Choice(3) {
	case 1:
		args, bad = append(args, "--bogus"), true
	case 2:
		args, bad = append(args, "--start-from"), true
	}
	path, done := vfpage.New()
	defer done()
	f := PerformanceInsightsCmd.Flags().Lookup("start-from")
	vsym.Assert(f != nil, "the start can be given")
	if f == nil {
		return
	}
	if !vsym.Symbolic() { // replays share a process
		f.Value.Set(f.DefValue)
	}
	run := PerformanceInsightsCmd.RunE
	defer func() { PerformanceInsightsCmd.RunE = run }()
	PerformanceInsightsCmd.RunE = func(*cobra.Command, []string) error {
		return piR.dig(path, aws.NewRdsWithCli(c), aws.NewPerformanceInsightsWithCli(c))
	}
	PerformanceInsightsCmd.SilenceUsage, PerformanceInsightsCmd.SilenceErrors = true, true
	PerformanceInsightsCmd.SetArgs(args)
	err := PerformanceInsightsCmd.Execute()
	page := vfpage.Read(path)
	vsym.Assert((err != nil) == bad && (page != nil) == !bad, "a command line or start that is not understood is an error, and gives no page")
	if bad || len(c.reqs) == 0 {
		return
	}
	if text != "" {
		vsym.Assert(c.reqs[0].start == st.unix, "the week starts when it was asked to")
	} else {
		d := time.Now().Unix() - c.reqs[0].start - 7*24*3600
		vsym.Assert(d >= 0 && d < 60, "by default the last seven days are asked for")
	}
}

// vf_answer makes an answer of one metric that is usable or not.
func vf_answer(prefix, id string, sql string, v float64, kind int, at time.Time) *pi.GetResourceMetricsOutput {
	key := &piTypes.ResponseResourceMetricKey{Metric: vf_ptr("db.load.avg"), Dimensions: map[string]string{prefix + ".statement": sql, id: "id-" + sql}}
	pt := piTypes.DataPoint{Timestamp: &at, Value: &v}
	switch kind {
	case 1:
		key.Dimensions = nil
	case 2:
		key.Metric = vf_ptr("db.load.max")
	case 3:
		key.Metric = nil
	case 4:
		pt.Timestamp = nil
	case 5:
		pt.Value = nil
	case 7: // usable
		delete(key.Dimensions, id)
	case 6:
		pt.Value = vf_ptr(0.0)
	}
	total := &piTypes.ResponseResourceMetricKey{Metric: vf_ptr("db.load.avg")}
	last := &piTypes.ResponseResourceMetricKey{Metric: vf_ptr("db.load.avg"), Dimensions: map[string]string{prefix + ".statement": "last", id: "id-last"}}
	return &pi.GetResourceMetricsOutput{MetricList: []piTypes.MetricKeyDataPoints{
		{Key: total, DataPoints: []piTypes.DataPoint{{Timestamp: &at, Value: vf_ptr(9.0)}}},
		{Key: key, DataPoints: []piTypes.DataPoint{pt}},
		{Key: last, DataPoints: []piTypes.DataPoint{{Timestamp: &at, Value: vf_ptr(0.0)}, {Timestamp: &at, Value: vf_ptr(0.25)}}},
	}}
}

// The page shows every load received, under its hour, instance and SQL, in its grouping.
func VerifC17_Page() {
	vsym.Init("time")
	c := &vf_cloud{dbs: 2, failAt: -1, piFailsAt: -1, piPaged: vsym.Choice(3)}
	st := vf_starts[vsym.Choice(2)]
	sql := vsym.StringOf("a'<", 1, 2)
	v := vsym.Float64()
	vsym.Assume(vsym.And(v > 0, v < 1e9))
	at := vsym.Choice(4) // the request with the answer
	if at > 1 {
		at += 26 // the second instance
	}
	kind := vsym.Choice(8)
	hour := int64(vsym.Choice(3)) * 5
	ts := time.Unix(st.unix+hour*3600+1800, 0).UTC()
	c.answer = func(n int, tok bool) *pi.GetResourceMetricsOutput {
		if n != at {
			return &pi.GetResourceMetricsOutput{}
		}
		if tok {
			return vf_answer("db.sql_tokenized", "db.sql_tokenized.id", sql, v, kind, ts)
		}
		return vf_answer("db.sql", "db.sql.tokenized_id", sql, v, kind, ts)
	}
	path, done := vfpage.New()
	defer done()
	err := (&piRunner{start: st.text}).dig(path, aws.NewRdsWithCli(c), aws.NewPerformanceInsightsWithCli(c))
	page := vfpage.Read(path)
	vsym.Assert(err == nil && page != nil && len(c.reqs) == 56, "a page is made")
	if err != nil || page == nil || len(c.reqs) != 56 {
		return
	}
	shown, wantId := 0, "id-"+sql
	if kind == 7 {
		wantId = ""
	}
	for _, k := range []string{"sqlDbLoads", "tokenizedSqlDbLoads"} {
		loads := vfpage.At(page, "digData", "performanceInsights", k)
		for i := 0; i < vfpage.Len(loads); i++ {
			vsym.Assert(vfpage.Num(loads, i, "timestamp") == float64((st.unix-st.unix%3600+int64(i)*3600)*1000), "hours are shown in order, in milliseconds")
			for d := 0; d < vfpage.Len(loads, i, "databases"); d++ {
				for q := 0; q < vfpage.Len(loads, i, "databases", d, "sqls"); q++ {
					shown++
					s := vfpage.At(loads, i, "databases", d, "sqls", q)
					vsym.Assert((c.reqs[at].group == "db.sql_tokenized") == (k == "tokenizedSqlDbLoads"), "a load is shown in its grouping")
					vsym.Assert(vfpage.Str(loads, i, "databases", d, "name") == "name"+c.reqs[at].id[3:], "a load is shown under its instance")
					vsym.Assert(int64(i) == (ts.Unix()-(st.unix-st.unix%3600))/3600, "a load is shown in its hour")
					if vfpage.Str(s, "sql") == "last" {
						vsym.Assert(vfpage.Str(s, "tokenizedId") == "id-last" && vfpage.Num(s, "loadMax") == 0.25 && vfpage.Num(s, "loadSum") == 0.25, "the value shown is the one received")
						continue
					}
					vsym.Assert(vfpage.Str(s, "sql") == sql && vfpage.Str(s, "tokenizedId") == wantId, "a load is shown with its SQL and id")
					vsym.Assert(vsym.FloatSame(vfpage.Num(s, "loadMax"), v) && vsym.FloatSame(vfpage.Num(s, "loadSum"), v), "the value shown is the one received")
				}
			}
		}
	}
	want := 2
	if kind != 0 && kind != 7 {
		want = 1
	}
	vsym.Assert(shown == want, "exactly the loads received are shown")
}
