package mservice

import "github.com/mrasu/GravityR/internal/vsym"

// What is reported for MySQL is what was measured.
func VerifC02_mysql() {
	l, its, res, err := vf_examine(vsym.Choice(vsym.Bound(3, 4)), true)
	l.Truthful(its, res, err)
}
