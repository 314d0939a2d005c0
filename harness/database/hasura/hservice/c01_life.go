package hservice

import "github.com/mrasu/GravityR/internal/vsym"

// Every index created in Hasura is dropped again.
func VerifC01_hasura() {
	l, _, _, err := vf_examine(vsym.Choice(vsym.Bound(3, 4)), false)
	l.Dropped(err)
}
