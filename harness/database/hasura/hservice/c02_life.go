package hservice

import "github.com/mrasu/GravityR/internal/vsym"

// What is reported for Hasura is what was measured.
func VerifC02_hasura() {
	l, its, res, err := vf_examine(vsym.Choice(vsym.Bound(3, 4)), true)
	l.Truthful(its, res, err)
}
