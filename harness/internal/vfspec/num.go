package vfspec

import (
	"strconv"

	"github.com/mrasu/GravityR/internal/vsym"
)

// Digits is a number of n..m arbitrary digits, as text and value.
func Digits(n, m int) (string, int64) { return digits("", n, m) }

// Big is a number of more digits than fit 32 bits.
func Big(n int) (string, int64) { return digits("98765432100", n, n) }

func digits(lead string, n, m int) (string, int64) {
	s := lead + vsym.StringOf("0123456789", n, m)
	var v int64
	for i := 0; i < len(s); i++ {
		v = v*10 + int64(s[i]-'0')
	}
	return s, v
}

// Dec is a decimal number i.f with nf fraction digits, as text and value.
func Dec(n, m, nf int) (string, float64) {
	s, _ := Digits(n, m)
	if nf > 0 {
		f, _ := Digits(nf, nf)
		s += "." + f
	}
	v, err := strconv.ParseFloat(s, 64)
	vsym.Assert(err == nil, "a decimal number is a number")
	return s, v
}
