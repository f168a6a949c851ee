package main

import (
	"math/rand"
	"testing"
)

// Queries decided in integer form must get the answer of the bit-vector form.
func TestIntegerForm(t *testing.T) {
	ts := NewTerms()
	stats := &SolverStats{}
	s := NewSolver(ts, stats, 5000, 5000)
	defer s.stop()
	ref := NewSolver(ts, &SolverStats{}, 5000, 5000)
	defer ref.stop()
	used, sat, unsat := 0, 0, 0
	for round := 0; round < 6000; round++ {
		r := rand.New(rand.NewSource(int64(round)))
		w := []uint8{8, 16, 12, 32, 64}[r.Intn(5)]
		pool := []*Term{ts.Var(0, w), ts.Var(1, w), ts.ZExt(ts.Var(2, 5), w), ts.SExt(ts.Var(3, 6), w), ts.Const(uint64(r.Intn(40)), w), ts.Const(-uint64(r.Intn(9)), w)}
		pick := func() *Term { return pool[r.Intn(len(pool))] }
		cond := func() *Term {
			a, b := pick(), pick()
			switch r.Intn(4) {
			case 0:
				return ts.Eq(a, b)
			case 1:
				return ts.Ult(a, b)
			case 2:
				return ts.Slt(a, b)
			}
			return ts.Not(ts.Slt(a, b))
		}
		for i := 0; i < 2+r.Intn(5); i++ {
			a, b := pick(), pick()
			k := ts.Const(uint64(1+r.Intn(7)), w)
			var x *Term
			switch r.Intn(17) {
			case 0, 1:
				x = ts.Add(a, b)
			case 2, 3:
				x = ts.Sub(a, b)
			case 4:
				x = ts.Mul(a, k)
			case 5:
				x = ts.Ite(cond(), a, b)
			case 6:
				x = ts.mk(OpBNot, w, 0, a, nil, nil, 0)
			case 7:
				x = ts.Shl(a, k)
			case 8:
				x = ts.LShr(a, k)
			case 9:
				x = ts.AShr(a, k)
			case 10:
				x = ts.mk(OpURem, w, 0, a, k, nil, 0)
			case 11:
				x = ts.mk(OpUDiv, w, 0, a, k, nil, 0)
			case 12:
				x = ts.mk(OpBAnd, w, 0, a, ts.Const([]uint64{7, 15, ^uint64(7)}[r.Intn(3)], w), nil, 0)
			case 13:
				x = ts.SExt(ts.Extract(a, 5, 0), w)
			case 15:
				x = ts.mk(OpSDiv, w, 0, a, k, nil, 0)
			case 16:
				x = ts.mk(OpSRem, w, 0, a, k, nil, 0)
			case 14:
				x = ts.ZExt(ts.Extract(a, 6, 2), w)
			}
			pool = append(pool, x)
		}
		var list []*Term
		for i := 0; i < 1+r.Intn(4); i++ {
			c := cond()
			if r.Intn(4) == 0 {
				c = ts.Or(c, cond())
			}
			list = append(list, c)
		}
		before := stats.Integer.Load()
		noIntegers = false
		a, _ := s.Check(list, false)
		noIntegers = true
		b, _ := ref.Check(list, false)
		noIntegers = false
		if stats.Integer.Load() != before {
			used++
			if a == Sat {
				sat++
			} else {
				unsat++
			}
		}
		if a != b || stats.Errors.Load() != 0 {
			t.Fatalf("round %d: integer form %v, bit-vector form %v, errors %d: %v", round, a, b, stats.Errors.Load(), list)
		}
	}
	t.Logf("%d decided in integer form: %d sat, %d unsat", used, sat, unsat)
	if used < 1000 {
		t.Fatal("too few queries in integer form")
	}
}
