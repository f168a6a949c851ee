package main

import (
	"math/bits"
	"math/rand"
	"testing"
)

// TestSimplifier builds random terms and compares them with a direct
// evaluation under several assignments.
func TestSimplifier(t *testing.T) {
	const K = 6
	type node struct {
		t *Term
		v [K]uint64
	}
	widths := []uint8{8, 16, 32, 64}
	for round := 0; round < 20000; round++ {
		r := rand.New(rand.NewSource(int64(round)))
		ts := NewTerms()
		var models [K][]uint64
		byW := map[uint8][]node{}
		add := func(n node) { byW[n.t.w] = append(byW[n.t.w], n) }
		nv := 0
		rv := func(w uint8) uint64 {
			switch r.Intn(5) {
			case 0:
				return uint64(r.Intn(4)) & mask(w)
			case 1:
				return (^uint64(0) - uint64(r.Intn(4))) & mask(w)
			case 2:
				return (uint64(1) << uint(r.Intn(int(w)))) & mask(w)
			}
			return r.Uint64() & mask(w)
		}
		for _, w := range []uint8{8, 8, 16, 16, 32, 32, 64, 64, 5, 14} {
			n := node{t: ts.Var(nv, w)}
			for k := 0; k < K; k++ {
				n.v[k] = rv(w)
				models[k] = append(models[k], n.v[k])
			}
			nv++
			if w == 5 || w == 14 {
				n.t = ts.ZExt(n.t, 64)
			}
			add(n)
		}
		b0 := node{t: ts.Var(nv, 0)}
		for k := 0; k < K; k++ {
			b0.v[k] = uint64(r.Intn(2))
			models[k] = append(models[k], b0.v[k])
		}
		add(b0)
		pick := func(w uint8) node {
			if w != 0 && r.Intn(4) == 0 {
				c := rv(w)
				n := node{t: ts.Const(c, w)}
				for k := range n.v {
					n.v[k] = c
				}
				return n
			}
			l := byW[w]
			return l[r.Intn(len(l))]
		}
		for step := 0; step < 40; step++ {
			w := widths[r.Intn(4)]
			a, b := pick(w), pick(w)
			var n node
			m := mask(w)
			s := func(x uint64) int64 { return sext(x, w) }
			f := func(t *Term, g func(x, y uint64) uint64, ow uint8) {
				n.t = t
				for k := range n.v {
					n.v[k] = g(a.v[k], b.v[k])
					if ow > 0 {
						n.v[k] &= mask(ow)
					}
				}
			}
			bb := func(x bool) uint64 {
				if x {
					return 1
				}
				return 0
			}
			op := r.Intn(26)
			switch op {
			case 0, 20:
				f(ts.Add(a.t, b.t), func(x, y uint64) uint64 { return x + y }, w)
			case 1:
				f(ts.Sub(a.t, b.t), func(x, y uint64) uint64 { return x - y }, w)
			case 2:
				f(ts.Mul(a.t, b.t), func(x, y uint64) uint64 { return x * y }, w)
			case 3:
				if b.t.isConst() && b.t.val != 0 {
					f(ts.UDiv(a.t, b.t), func(x, y uint64) uint64 { return x / y }, w)
				}
			case 4:
				if b.t.isConst() && b.t.val != 0 {
					f(ts.URem(a.t, b.t), func(x, y uint64) uint64 { return x % y }, w)
				}
			case 5:
				if b.t.isConst() && b.t.val != 0 && b.t.val != m {
					f(ts.SDiv(a.t, b.t), func(x, y uint64) uint64 { return uint64(s(x) / s(y)) }, w)
				}
			case 6:
				if b.t.isConst() && b.t.val != 0 && b.t.val != m {
					f(ts.SRem(a.t, b.t), func(x, y uint64) uint64 { return uint64(s(x) % s(y)) }, w)
				}
			case 7:
				f(ts.BAnd(a.t, b.t), func(x, y uint64) uint64 { return x & y }, w)
			case 8:
				f(ts.BOr(a.t, b.t), func(x, y uint64) uint64 { return x | y }, w)
			case 9:
				f(ts.BXor(a.t, b.t), func(x, y uint64) uint64 { return x ^ y }, w)
			case 10:
				f(ts.BNot(a.t), func(x, y uint64) uint64 { return ^x }, w)
			case 11, 12, 13:
				sh := uint64(r.Intn(int(w)))
				c := ts.Const(sh, w)
				switch op {
				case 11:
					f(ts.Shl(a.t, c), func(x, y uint64) uint64 { return x << sh }, w)
				case 12:
					f(ts.LShr(a.t, c), func(x, y uint64) uint64 { return x >> sh }, w)
				case 13:
					f(ts.AShr(a.t, c), func(x, y uint64) uint64 { return uint64(s(x) >> sh) }, w)
				}
			case 14, 21:
				f(ts.Eq(a.t, b.t), func(x, y uint64) uint64 { return bb(x == y) }, 0)
			case 15:
				f(ts.Ult(a.t, b.t), func(x, y uint64) uint64 { return bb(x < y) }, 0)
			case 16:
				f(ts.Slt(a.t, b.t), func(x, y uint64) uint64 { return bb(s(x) < s(y)) }, 0)
			case 17, 22:
				c := pick(0)
				n.t = ts.Ite(c.t, a.t, b.t)
				for k := range n.v {
					n.v[k] = b.v[k]
					if c.v[k] != 0 {
						n.v[k] = a.v[k]
					}
				}
			case 18, 23:
				ow := widths[r.Intn(4)]
				switch {
				case ow < w:
					lo := uint8(r.Intn(int(w-ow) + 1))
					f(ts.Extract(a.t, lo+ow-1, lo), func(x, y uint64) uint64 { return x >> lo }, ow)
				case ow > w && r.Intn(2) == 0:
					f(ts.ZExt(a.t, ow), func(x, y uint64) uint64 { return x }, ow)
				case ow > w:
					f(ts.SExt(a.t, ow), func(x, y uint64) uint64 { return uint64(s(x)) }, ow)
				}
			case 19:
				if w <= 32 {
					f(ts.Concat(a.t, b.t), func(x, y uint64) uint64 { return x<<w | y }, 2*w)
				}
			case 24:
				x, y := pick(0), pick(0)
				switch r.Intn(4) {
				case 0:
					n.t = ts.And(x.t, y.t)
					for k := range n.v {
						n.v[k] = x.v[k] & y.v[k]
					}
				case 1:
					n.t = ts.Or(x.t, y.t)
					for k := range n.v {
						n.v[k] = x.v[k] | y.v[k]
					}
				case 2:
					n.t = ts.Not(x.t)
					for k := range n.v {
						n.v[k] = 1 - x.v[k]
					}
				case 3:
					n.t = ts.Eq(x.t, y.t)
					for k := range n.v {
						n.v[k] = bb(x.v[k] == y.v[k])
					}
				}
			case 25:
				c, x, y := pick(0), pick(0), pick(0)
				n.t = ts.Ite(c.t, x.t, y.t)
				for k := range n.v {
					n.v[k] = y.v[k]
					if c.v[k] != 0 {
						n.v[k] = x.v[k]
					}
				}
			}
			if n.t == nil {
				continue
			}
			for k := range n.v {
				ts.SetModel(models[k])
				if got := ts.Eval(n.t); got != n.v[k] {
					t.Fatalf("round %d step %d op %d w %d: got %x want %x (a=%x b=%x): %s", round, step, op, w, got, n.v[k], a.v[k], b.v[k], n.t.String())
				}
				// known leading zeros
				if n.t.w > 0 {
					if lz := leadZeros(n.t); bits.Len64(n.v[k]) > int(n.t.w-lz) {
						t.Fatalf("leadZeros wrong")
					}
				}
			}
			add(n)
		}
	}
}
