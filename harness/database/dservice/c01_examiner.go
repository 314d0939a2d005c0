package dservice

import (
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vsym"
)

// Every index that was created is dropped again, whatever fails.
func VerifC01_TempIndexDropped() {
	n := vsym.Choice(vsym.Bound(4, 5))
	vf_dropped(vf_newDB(true), vf_targets(n))
}

// Errors of any kind, and more targets.
func VerifC01_Kinds() {
	d := vf_newDB(true)
	d.kinds = true
	vf_dropped(d, vf_targetsOf(vsym.Choice(3), 5))
}

// Many targets: whichever operation fails first.
func VerifC01_Many() {
	d := vf_newDB(true)
	d.quietBut = vsym.Choice(26)
	var its []*dmodel.IndexTarget
	for i := 0; i < 8; i++ {
		its = append(its, dmodel.NewIndexTarget([]string{"users", "todos"}[i%2], []string{"c" + string(rune('a'+i))}))
	}
	vf_dropped(d, its)
}

func vf_dropped(d *vf_db, its []*dmodel.IndexTarget) {
	panicked := false
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = true
			}
		}()
		_, err = NewIndexEfficiencyExaminer(d).Run(its)
	}()

	vsym.Assert(d.nlive <= 1, "at most one temporary index exists at a time")
	open, dropFailed := -1, false
	for i := range d.op {
		switch d.op[i] {
		case 'c':
			vsym.Assert(!dropFailed, "no index is created after a drop failed")
			vsym.Assert(open < 0, "no index is created before the previous one was dropped")
			if !d.fail[i] {
				open = i
			}
		case 'd':
			vsym.Assert(open >= 0, "only an index that was created is dropped")
			if open >= 0 {
				vsym.Assert(d.name[i] == d.name[open], "the dropped index has the created name")
				vsym.Assert(d.table[i] == d.table[open], "the index is dropped on the table it was created on")
			}
			open = -1
			if d.fail[i] {
				dropFailed = true
			}
		}
	}
	vsym.Assert(open < 0, "every created index is dropped")
	if !panicked {
		vsym.Assert(vsym.Implies(dropFailed, err != nil), "a failed drop is reported")
	}
	vsym.Observe("ops", string(d.op))
	vsym.Observe("panicked", panicked)
	vsym.Observe("err", err != nil)
}
