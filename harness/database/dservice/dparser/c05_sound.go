package dparser

import (
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

func VerifC05_Sound() {
	its, us, err, known := vf_query(vsym.Choice(4), vsym.Bound(1, 3))
	vsym.Observe("n", len(its))
	if !known {
		vsym.Assert(err != nil && len(its) == 0, "a column no table of the query has is an error, not a guess")
		return
	}
	vsym.Assert(err == nil, "a query over known columns is not rejected")
	vfspec.Sound(us, its)
}

func VerifC05_Wide() {
	its, us, err := vf_wide(1 + vsym.Choice(vsym.Bound(4, 5)))
	vsym.Observe("n", len(its))
	vsym.Assert(err == nil, "a query over known columns is not rejected")
	vfspec.Sound(us, its)
}

func VerifC05_Names() {
	its, us, err := vf_names()
	vsym.Observe("n", len(its))
	vsym.Assert(err == nil, "a query over known columns is not rejected")
	vfspec.Sound(us, its)
}

func VerifC05_Wider() {
	its, us, err := vf_wider()
	vsym.Observe("n", len(its))
	vsym.Assert(err == nil, "a query over known columns is not rejected")
	vfspec.Sound(us, its)
}
