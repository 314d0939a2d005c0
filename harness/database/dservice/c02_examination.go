package dservice

import (
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vsym"
)

// A result is returned only when everything succeeded, and then it says what was measured.
func VerifC02_ResultTruthful() {
	vf_truthful(vf_newDB(false), vf_targets(vsym.Choice(vsym.Bound(4, 6))))
}

// Many targets, also equal and unsafe ones: whichever operation fails.
func VerifC02_Many() {
	d := vf_newDB(false)
	d.quietBut = vsym.Choice(26)
	var its []*dmodel.IndexTarget
	for i := 0; i < 8; i++ {
		its = append(its, dmodel.NewIndexTarget([]string{"users", "todos", "Users"}[i%3], []string{"c" + string(rune('a'+i%5)), "x-y"}))
	}
	vf_truthful(d, its)
}

func VerifC02_Kinds() {
	d := vf_newDB(false)
	d.kinds = true
	vf_truthful(d, vf_targetsOf(vsym.Choice(3), 5))
}

func vf_truthful(d *vf_db, its []*dmodel.IndexTarget) {
	n := len(its)
	res, err := NewIndexEfficiencyExaminer(d).Run(its)

	anyFail := false
	for i := range d.fail {
		anyFail = vsym.Or(anyFail, d.fail[i])
	}
	vsym.Assert((err != nil) == anyFail, "an error is returned exactly when some step failed")
	vsym.Assert((res == nil) == (err != nil), "no result comes with an error")
	vsym.Observe("ops", string(d.op))
	if err != nil || res == nil {
		return
	}
	vsym.Assert(len(d.op) > 0 && d.op[0] == 'x', "the query is first executed without any index")
	vsym.Assert(res.OriginalTimeMillis == d.time[0], "the original time is that of the run without index")
	vsym.Assert(len(res.IndexResults) == n, "one result per target")
	if len(res.IndexResults) != n || len(d.op) == 0 {
		return
	}
	k, inIdx := 0, -1
	for i := 1; i < len(d.op); i++ {
		switch d.op[i] {
		case 'c':
			inIdx = i
		case 'x':
			vsym.Assert(inIdx >= 0, "the query is measured while the index exists")
			vsym.Assert(k < n, "one measurement per target")
			if k < n && inIdx >= 0 {
				vsym.Assert(res.IndexResults[k].ExecutionTimeMillis == d.time[i], "the reported time is the one measured with that index")
				vsym.Assert(res.IndexResults[k].IndexTarget.Equals(its[k]), "results come in the order of the targets")
				vsym.Assert(d.table[inIdx] == its[k].TableName && d.cols[inIdx] == vf_cols(its[k]), "the index measured is the target's")
			}
			k++
		case 'd':
			inIdx = -1
		}
	}
	vsym.Assert(k == n, "every target is measured")
}
