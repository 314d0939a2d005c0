package dparser

import (
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

func VerifC06_Complete() {
	its, us, err, known := vf_query(vsym.Choice(4), vsym.Bound(1, 3))
	vsym.Observe("n", len(its))
	if !known || err != nil {
		return
	}
	vfspec.Complete(us, its)
}

func VerifC06_Wide() {
	its, us, err := vf_wide(1 + vsym.Choice(vsym.Bound(4, 5)))
	vsym.Observe("n", len(its))
	vsym.Assert(err == nil, "a query over known columns is not rejected")
	vfspec.Complete(us, its)
}

func VerifC06_Names() {
	its, us, err := vf_names()
	vsym.Observe("n", len(its))
	vsym.Assert(err == nil, "a query over known columns is not rejected")
	vfspec.Complete(us, its)
}

func VerifC06_Wider() {
	its, us, err := vf_wider()
	vsym.Observe("n", len(its))
	vsym.Assert(err == nil, "a query over known columns is not rejected")
	vfspec.Complete(us, its)
}
