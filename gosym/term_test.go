package main

import (
	"math/rand"
	"testing"
)

// Simplified terms evaluate like the operations they came from.
func TestSimplifier(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	ops := []Op{OAdd, OSub, OMul, OUdiv, OUrem, OSdiv, OSrem, OBand, OBor, OBxor, OShl, OLshr, OAshr}
	consts := []uint64{0, 1, 2, 3, 7, 8, 10, 60, 100, 1000, 1800, 1000000, 1000000000, ^uint64(0), 1 << 63, 1<<32 - 1}
	for it := 0; it < 40000; it++ {
		b := NewBank()
		m := Model{}
		type pair struct {
			t *Term
			v uint64
		}
		var pool []pair
		for i, w := range []uint8{8, 10, 20, 31, 64} {
			n := string(rune('a' + i))
			v := b.Var(n, w)
			m[n] = r.Uint64() & mask(w)
			if r.Intn(3) == 0 {
				m[n] = consts[r.Intn(len(consts))] & mask(w)
			}
			x := v
			if w < 64 {
				x = b.Zext(v, 64)
			}
			pool = append(pool, pair{x, m[n]})
		}
		for k := 0; k < 12; k++ {
			x := pool[r.Intn(len(pool))]
			y := pool[r.Intn(len(pool))]
			if r.Intn(2) == 0 {
				c := consts[r.Intn(len(consts))]
				y = pair{b.Const(64, c), c}
			}
			op := ops[r.Intn(len(ops))]
			if op == OUdiv || op == OUrem || op == OSdiv || op == OSrem {
				if y.v == 0 {
					continue
				}
			}
			v, _ := evalBin(op, 64, x.v, y.v)
			pool = append(pool, pair{b.Bin(op, x.t, y.t), v})
		}
		for k := 0; k < 8; k++ {
			x, y := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			chk := func(name string, tt *Term, want bool) {
				if (m.Eval(tt, evalMemo{}) == 1) != want {
					t.Fatalf("it %d: %s", it, name)
				}
			}
			chk("eq", b.Eq(x.t, y.t), x.v == y.v)
			chk("ult", b.Ult(x.t, y.t), x.v < y.v)
			chk("ule", b.Ule(x.t, y.t), x.v <= y.v)
			chk("slt", b.Slt(x.t, y.t), int64(x.v) < int64(y.v))
			chk("sle", b.Sle(x.t, y.t), int64(x.v) <= int64(y.v))
			w := uint8(1 + r.Intn(63))
			if got := m.Eval(b.Extract(x.t, w-1, 0), evalMemo{}); got != x.v&mask(w) {
				t.Fatalf("it %d: extract", it)
			}
			f := b.FConv(OUToF, x.t, Sort{W: 64, FP: true})
			g := b.FConv(OUToF, y.t, Sort{W: 64, FP: true})
			s := b.FBin(OFAdd, f, g)
			if got, want := m.Eval(s, evalMemo{}), fbits(64, float64(x.v)+float64(y.v)); got != want {
				t.Fatalf("it %d: fadd", it)
			}
			chk("flt", b.FCmp(OFLt, f, g), float64(x.v) < float64(y.v))
		}
		for _, p := range pool {
			if got := m.Eval(p.t, evalMemo{}); got != p.v {
				t.Fatalf("it %d: got %x want %x", it, got, p.v)
			}
			if p.v < p.t.lo || p.v > p.t.hi {
				t.Fatalf("it %d: range", it)
			}
		}
	}
}
