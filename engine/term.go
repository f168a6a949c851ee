package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term constructor. Bit-vector terms have a width in 1..64, boolean
// terms have width 0.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq // over bit-vectors or booleans
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract
	OpSExt
)

var opNames = [...]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand",
	OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr",
	OpAShr: "bvashr", OpConcat: "concat",
}

// Term is a hash-consed expression node.
type Term struct {
	op      Op
	w       uint8
	lo      uint8 // OpExtract: low bit (high bit is lo+w-1)
	a, b, c *Term
	val     uint64 // OpConst: value; OpVar: path-local variable index
	id      int32
	vars    []int32 // sorted variable indices, computed on demand
	varsOK  bool
	evalGen uint32
	evalVal uint64
}

type termKey struct {
	op, w, lo uint8
	a, b, c   int32
	val       uint64
}

// Terms is a term table. It is not safe for concurrent use; every worker has
// its own.
type Terms struct {
	tab     map[termKey]*Term
	next    int32
	T, F    *Term
	evalGen uint32
	model   []uint64
}

func NewTerms() *Terms {
	ts := &Terms{tab: make(map[termKey]*Term)}
	ts.F = ts.mk(OpConst, 0, 0, nil, nil, nil, 0)
	ts.T = ts.mk(OpConst, 0, 0, nil, nil, nil, 1)
	return ts
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (ts *Terms) mk(op Op, w, lo uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{uint8(op), w, lo, tid(a), tid(b), tid(c), val}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, lo: lo, a: a, b: b, c: c, val: val, id: ts.next}
	ts.next++
	ts.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (ts *Terms) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return ts.Bool(v != 0)
	}
	return ts.mk(OpConst, w, 0, nil, nil, nil, v&mask(w))
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

func (ts *Terms) Var(idx int, w uint8) *Term {
	return ts.mk(OpVar, w, 0, nil, nil, nil, uint64(idx))
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return ts.Bool(a.val == 0)
	case OpNot:
		return a.a
	case OpUlt:
		return ts.mk(OpUle, 0, 0, a.b, a.a, nil, 0)
	case OpUle:
		return ts.mk(OpUlt, 0, 0, a.b, a.a, nil, 0)
	case OpSlt:
		return ts.mk(OpSle, 0, 0, a.b, a.a, nil, 0)
	case OpSle:
		return ts.mk(OpSlt, 0, 0, a.b, a.a, nil, 0)
	}
	return ts.mk(OpNot, 0, 0, a, nil, nil, 0)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a == ts.F || b == ts.F {
		return ts.F
	}
	if a == ts.T {
		return b
	}
	if b == ts.T || a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpAnd, 0, 0, a, b, nil, 0)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a == ts.T || b == ts.T {
		return ts.T
	}
	if a == ts.F {
		return b
	}
	if b == ts.F || a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpOr, 0, 0, a, b, nil, 0)
}

func (ts *Terms) Ite(c, x, y *Term) *Term {
	if c == ts.T || x == y {
		return x
	}
	if c == ts.F {
		return y
	}
	if c.op == OpNot {
		c, x, y = c.a, y, x
	}
	if x.w == 0 {
		if x == ts.T {
			return ts.Or(c, y)
		}
		if x == ts.F {
			return ts.And(ts.Not(c), y)
		}
		if y == ts.T {
			return ts.Or(ts.Not(c), x)
		}
		if y == ts.F {
			return ts.And(c, x)
		}
	}
	if x.op == OpIte && x.a == c {
		x = x.b
	}
	if y.op == OpIte && y.a == c {
		y = y.c
	}
	if x == y {
		return x
	}
	// ite(c, concat(h, x), concat(h, y)) with the same high part: merge below
	if x.w > 1 && x.w == y.w {
		hx, hy := leadZeros(x), leadZeros(y)
		h := hx
		if hy < h {
			h = hy
		}
		if h > 0 && h < x.w && !(x.isConst() && y.isConst()) {
			return ts.Concat(ts.Const(0, h), ts.Ite(c, ts.Extract(x, x.w-1-h, 0), ts.Extract(y, y.w-1-h, 0)))
		}
	}
	return ts.mk(OpIte, x.w, 0, c, x, y, 0)
}

// leadZeros is a lower bound on the number of leading zero bits.
func leadZeros(t *Term) uint8 {
	switch t.op {
	case OpConst:
		return t.w - uint8(bits.Len64(t.val))
	case OpConcat:
		if t.a.isConst() {
			z := t.a.w - uint8(bits.Len64(t.a.val))
			if z == t.a.w {
				return z + leadZeros(t.b)
			}
			return z
		}
		return leadZeros(t.a)
	case OpIte:
		x, y := leadZeros(t.b), leadZeros(t.c)
		if x < y {
			return x
		}
		return y
	case OpURem:
		if t.b.isConst() && t.b.val > 0 {
			return t.w - uint8(bits.Len64(t.b.val-1))
		}
	case OpUDiv:
		if t.b.isConst() && t.b.val > 0 {
			z := int(leadZeros(t.a)) + bits.Len64(t.b.val) - 1
			if z > int(t.w) {
				z = int(t.w)
			}
			return uint8(z)
		}
	case OpAdd:
		x, y := leadZeros(t.a), leadZeros(t.b)
		if y < x {
			x = y
		}
		if x > 0 {
			return x - 1
		}
	case OpMul:
		x, y := int(leadZeros(t.a)), int(leadZeros(t.b))
		z := x + y - int(t.w)
		if z > 0 {
			return uint8(z)
		}
	case OpBAnd:
		x, y := leadZeros(t.a), leadZeros(t.b)
		if x > y {
			return x
		}
		return y
	case OpBOr, OpBXor:
		x, y := leadZeros(t.a), leadZeros(t.b)
		if x < y {
			return x
		}
		return y
	}
	return 0
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == ts.T {
			return a
		}
		if b == ts.F {
			return ts.Not(a)
		}
		if ts.Not(a) == b {
			return ts.F
		}
	} else if b.isConst() {
		switch a.op {
		case OpConcat:
			return ts.And(ts.Eq(a.a, ts.Const(b.val>>a.b.w, a.a.w)), ts.Eq(a.b, ts.Const(b.val, a.b.w)))
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
			}
		case OpAdd:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(b.val-a.b.val, a.w))
			}
		case OpSExt:
			lo := ts.Const(b.val, a.a.w)
			if uint64(sext(lo.val, a.a.w))&mask(a.w) != b.val {
				return ts.F
			}
			return ts.Eq(a.a, lo)
		case OpBNot:
			return ts.Eq(a.a, ts.Const(^b.val, a.w))
		case OpBXor:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(b.val^a.b.val, a.w))
			}
		}
	} else {
		if a.op == OpConcat && b.op == OpConcat && a.b.w == b.b.w {
			return ts.And(ts.Eq(a.a, b.a), ts.Eq(a.b, b.b))
		}
		h := leadZeros(a)
		if hb := leadZeros(b); hb < h {
			h = hb
		}
		if h > 0 {
			return ts.Eq(ts.Extract(a, a.w-1-h, 0), ts.Extract(b, b.w-1-h, 0))
		}
		if a.op == OpAdd && b.op == OpAdd {
			if a.b == b.b {
				return ts.Eq(a.a, b.a)
			}
			if a.a == b.a {
				return ts.Eq(a.b, b.b)
			}
		}
		if a.op == OpAdd && (a.a == b) {
			return ts.Eq(a.b, ts.Const(0, a.w))
		}
		if b.op == OpAdd && (b.a == a) {
			return ts.Eq(b.b, ts.Const(0, a.w))
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return ts.mk(OpEq, 0, 0, a, b, nil, 0)
}

func (ts *Terms) narrowPair(a, b *Term) (*Term, *Term, bool) {
	h := leadZeros(a)
	if hb := leadZeros(b); hb < h {
		h = hb
	}
	if h > 0 && h < a.w {
		return ts.Extract(a, a.w-1-h, 0), ts.Extract(b, b.w-1-h, 0), true
	}
	return a, b, false
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.F
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return ts.F
		}
		if b.val == 1 {
			return ts.Eq(a, ts.Const(0, a.w))
		}
		if lz := leadZeros(a); lz > 0 && b.val > mask(a.w-lz) {
			return ts.T
		}
		if a.op == OpURem && a.b.isConst() && a.b.val > 0 && b.val >= a.b.val {
			return ts.T
		}
	}
	if a.isConst() {
		if a.val == mask(a.w) {
			return ts.F
		}
		if lz := leadZeros(b); lz > 0 && a.val >= mask(b.w-lz) {
			return ts.F
		}
		if a.val == 0 {
			return ts.Not(ts.Eq(b, a))
		}
	}
	if a.op == OpIte && b.isConst() && a.b.isConst() && a.c.isConst() {
		return ts.Ite(a.a, ts.Ult(a.b, b), ts.Ult(a.c, b))
	}
	if b.op == OpIte && a.isConst() && b.b.isConst() && b.c.isConst() {
		return ts.Ite(b.a, ts.Ult(a, b.b), ts.Ult(a, b.c))
	}
	if x, y, ok := ts.narrowPair(a, b); ok {
		return ts.Ult(x, y)
	}
	return ts.mk(OpUlt, 0, 0, a, b, nil, 0)
}

func (ts *Terms) Ule(a, b *Term) *Term { return ts.Not(ts.Ult(b, a)) }

func (ts *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return ts.F
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	la, lb := leadZeros(a), leadZeros(b)
	if la > 0 && lb > 0 {
		return ts.Ult(a, b)
	}
	if la > 0 && b.isConst() { // b negative
		return ts.F
	}
	if lb > 0 && a.isConst() { // a negative
		return ts.T
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return ts.Slt(a.a, b.a)
	}
	return ts.mk(OpSlt, 0, 0, a, b, nil, 0)
}

func (ts *Terms) Sle(a, b *Term) *Term { return ts.Not(ts.Slt(b, a)) }

func (ts *Terms) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ts.Const(a.val<<b.w|b.val, a.w+b.w)
	}
	if a.op == OpConcat {
		return ts.Concat(a.a, ts.Concat(a.b, b))
	}
	// merge with the head of b
	h, rest := b, (*Term)(nil)
	if b.op == OpConcat {
		h, rest = b.a, b.b
	}
	if m := ts.mergeAdj(a, h); m != nil {
		if rest == nil {
			return m
		}
		return ts.Concat(m, rest)
	}
	return ts.mk(OpConcat, a.w+b.w, 0, a, b, nil, 0)
}

func (ts *Terms) mergeAdj(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ts.Const(a.val<<b.w|b.val, a.w+b.w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.lo == b.lo+b.w {
		return ts.Extract(a.a, a.lo+a.w-1, b.lo)
	}
	return nil
}

func (ts *Terms) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		return ts.Const(t.val>>lo, w)
	case OpExtract:
		return ts.Extract(t.a, hi+t.lo, lo+t.lo)
	case OpConcat:
		lw := t.b.w
		if hi < lw {
			return ts.Extract(t.b, hi, lo)
		}
		if lo >= lw {
			return ts.Extract(t.a, hi-lw, lo-lw)
		}
		return ts.Concat(ts.Extract(t.a, hi-lw, 0), ts.Extract(t.b, lw-1, lo))
	case OpSExt:
		iw := t.a.w
		if hi < iw {
			return ts.Extract(t.a, hi, lo)
		}
		if lo == 0 {
			return ts.SExt(t.a, w)
		}
	case OpIte:
		if t.b.isConst() || t.c.isConst() || (t.b.op == OpConcat && t.c.op == OpConcat) {
			return ts.Ite(t.a, ts.Extract(t.b, hi, lo), ts.Extract(t.c, hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		x, y := ts.Extract(t.a, hi, lo), ts.Extract(t.b, hi, lo)
		return ts.bitwise(t.op, x, y)
	case OpBNot:
		return ts.BNot(ts.Extract(t.a, hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			x, y := ts.Extract(t.a, hi, 0), ts.Extract(t.b, hi, 0)
			switch t.op {
			case OpAdd:
				return ts.Add(x, y)
			case OpSub:
				return ts.Sub(x, y)
			default:
				return ts.Mul(x, y)
			}
		}
	}
	return ts.mk(OpExtract, w, lo, t, nil, nil, 0)
}

func (ts *Terms) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	return ts.Concat(ts.Const(0, w-t.w), t)
}

func (ts *Terms) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return ts.Const(uint64(sext(t.val, t.w)), w)
	}
	if leadZeros(t) > 0 {
		return ts.ZExt(t, w)
	}
	if t.op == OpSExt {
		return ts.SExt(t.a, w)
	}
	if t.op == OpIte && t.b.isConst() && t.c.isConst() {
		return ts.Ite(t.a, ts.SExt(t.b, w), ts.SExt(t.c, w))
	}
	return ts.mk(OpSExt, w, 0, t, nil, nil, 0)
}

func (ts *Terms) constArmIte(t *Term) bool { return t.op == OpIte && t.b.isConst() && t.c.isConst() }

func (ts *Terms) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return ts.Const(a.val+b.val, a.w)
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.isConst() {
			return ts.Add(a.a, ts.Const(a.b.val+b.val, a.w))
		}
		if r := ts.addLow(a, b.val); r != nil {
			return r
		}
		if ts.constArmIte(a) {
			return ts.Ite(a.a, ts.Add(a.b, b), ts.Add(a.c, b))
		}
		return ts.mk(OpAdd, a.w, 0, a, b, nil, 0)
	}
	// pull constants outwards
	if a.op == OpAdd && a.b.isConst() {
		return ts.Add(ts.Add(a.a, b), a.b)
	}
	if b.op == OpAdd && b.b.isConst() {
		return ts.Add(ts.Add(a, b.a), b.b)
	}
	if a.op == OpSub && a.b == b {
		return a.a
	}
	if b.op == OpSub && b.b == a {
		return b.a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpAdd, a.w, 0, a, b, nil, 0)
}

// addLow adds c to a term whose low bits are constant, if that changes
// nothing but these.
func (ts *Terms) addLow(a *Term, c uint64) *Term {
	if a.isConst() {
		if a.w == 64 || (a.val+c)>>a.w != 0 || c>>a.w != 0 {
			return nil
		}
		return ts.Const(a.val+c, a.w)
	}
	if a.op != OpConcat {
		return nil
	}
	if r := ts.addLow(a.b, c); r != nil {
		return ts.Concat(a.a, r)
	}
	return nil
}

func (ts *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return ts.Const(0, a.w)
	}
	if b.isConst() {
		return ts.Add(a, ts.Const(-b.val, b.w))
	}
	if a.op == OpAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isConst() {
			return ts.Add(ts.Sub(a.a, b), a.b)
		}
	}
	if b.op == OpAdd && b.b.isConst() {
		return ts.Add(ts.Sub(a, b.a), ts.Const(-b.b.val, b.w))
	}
	if b.op == OpAdd {
		if b.a == a {
			return ts.Neg(b.b)
		}
		if b.b == a {
			return ts.Neg(b.a)
		}
	}
	if b.op == OpSub && b.a == a {
		return b.b
	}
	if a.op == OpAdd && b.op == OpAdd {
		switch {
		case a.a == b.a:
			return ts.Sub(a.b, b.b)
		case a.a == b.b:
			return ts.Sub(a.b, b.a)
		case a.b == b.a:
			return ts.Sub(a.a, b.b)
		case a.b == b.b:
			return ts.Sub(a.a, b.a)
		}
	}
	if a.op == OpIte && !b.isConst() && (a.b == b || a.c == b) {
		return ts.Ite(a.a, ts.Sub(a.b, b), ts.Sub(a.c, b))
	}
	return ts.mk(OpSub, a.w, 0, a, b, nil, 0)
}

func (ts *Terms) Neg(a *Term) *Term { return ts.Sub(ts.Const(0, a.w), a) }

func isPow2(v uint64) (uint8, bool) {
	if v != 0 && v&(v-1) == 0 {
		return uint8(bits.TrailingZeros64(v)), true
	}
	return 0, false
}

func (ts *Terms) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return ts.Const(a.val*b.val, a.w)
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if k, ok := isPow2(b.val); ok {
			return ts.Shl(a, ts.Const(uint64(k), a.w))
		}
		if ts.constArmIte(a) {
			return ts.Ite(a.a, ts.Mul(a.b, b), ts.Mul(a.c, b))
		}
		if a.op == OpMul && a.b.isConst() {
			return ts.Mul(a.a, ts.Const(a.b.val*b.val, a.w))
		}
		return ts.mk(OpMul, a.w, 0, a, b, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpMul, a.w, 0, a, b, nil, 0)
}

// The divisor is never zero here: the VM checks for division by zero first.
func (ts *Terms) UDiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return ts.Const(a.val/b.val, a.w)
		}
		if k, ok := isPow2(b.val); ok {
			return ts.LShr(a, ts.Const(uint64(k), a.w))
		}
		if lz := leadZeros(a); lz > 0 && lz < a.w {
			nw := a.w - lz
			if b.val > mask(nw) {
				return ts.Const(0, a.w)
			}
			return ts.ZExt(ts.UDiv(ts.Extract(a, nw-1, 0), ts.Const(b.val, nw)), a.w)
		}
	}
	return ts.mk(OpUDiv, a.w, 0, a, b, nil, 0)
}

func (ts *Terms) URem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return ts.Const(a.val%b.val, a.w)
		}
		if k, ok := isPow2(b.val); ok {
			if k == 0 {
				return ts.Const(0, a.w)
			}
			return ts.ZExt(ts.Extract(a, k-1, 0), a.w)
		}
		if lz := leadZeros(a); lz > 0 && lz < a.w {
			nw := a.w - lz
			if b.val > mask(nw) {
				return a
			}
			return ts.ZExt(ts.URem(ts.Extract(a, nw-1, 0), ts.Const(b.val, nw)), a.w)
		}
	}
	return ts.mk(OpURem, a.w, 0, a, b, nil, 0)
}

func (ts *Terms) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y == -1 {
			return ts.Const(uint64(-x), a.w)
		}
		return ts.Const(uint64(x/y), a.w)
	}
	if leadZeros(a) > 0 && leadZeros(b) > 0 {
		return ts.UDiv(a, b)
	}
	if b.isConst() && sext(b.val, b.w) > 0 {
		if k, ok := isPow2(b.val); ok {
			if k == 0 {
				return a
			}
			w := a.w
			sign := ts.AShr(a, ts.Const(uint64(w-1), w))
			bias := ts.LShr(sign, ts.Const(uint64(w-k), w))
			return ts.AShr(ts.Add(a, bias), ts.Const(uint64(k), w))
		}
	}
	return ts.mk(OpSDiv, a.w, 0, a, b, nil, 0)
}

func (ts *Terms) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y == -1 {
			return ts.Const(0, a.w)
		}
		return ts.Const(uint64(x%y), a.w)
	}
	if leadZeros(a) > 0 && leadZeros(b) > 0 {
		return ts.URem(a, b)
	}
	if b.isConst() && sext(b.val, b.w) > 0 {
		if k, ok := isPow2(b.val); ok {
			q := ts.SDiv(a, b)
			return ts.Sub(a, ts.Shl(q, ts.Const(uint64(k), a.w)))
		}
	}
	return ts.mk(OpSRem, a.w, 0, a, b, nil, 0)
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return ts.Const(^a.val, a.w)
	}
	if a.op == OpBNot {
		return a.a
	}
	return ts.mk(OpBNot, a.w, 0, a, nil, nil, 0)
}

// pieces splits a term into its concat fields, most significant first.
func pieces(t *Term, out []*Term) []*Term {
	for t.op == OpConcat {
		out = append(out, t.a)
		t = t.b
	}
	return append(out, t)
}

func (ts *Terms) bitwise(op Op, a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	w := a.w
	if a.isConst() {
		switch op {
		case OpBAnd:
			return ts.Const(a.val&b.val, w)
		case OpBOr:
			return ts.Const(a.val|b.val, w)
		default:
			return ts.Const(a.val^b.val, w)
		}
	}
	if a == b {
		if op == OpBXor {
			return ts.Const(0, w)
		}
		return a
	}
	if b.isConst() {
		if b.val == 0 {
			if op == OpBAnd {
				return b
			}
			return a
		}
		if b.val == mask(w) {
			switch op {
			case OpBAnd:
				return a
			case OpBOr:
				return b
			default:
				return ts.BNot(a)
			}
		}
		// split at bit-run boundaries of the constant
		run := uint8(bits.TrailingZeros64(b.val))
		if b.val&1 != 0 {
			run = uint8(bits.TrailingZeros64(^b.val))
		}
		if run < w {
			nruns := 0
			for v, k := b.val, uint8(0); k < w; {
				var r uint8
				if v&1 != 0 {
					r = uint8(bits.TrailingZeros64(^v))
				} else if v == 0 {
					r = w - k
				} else {
					r = uint8(bits.TrailingZeros64(v))
				}
				nruns++
				k += r
				if r >= 64 {
					break
				}
				v >>= r
			}
			if nruns <= 4 || a.op == OpConcat {
				hi := ts.bitwise(op, ts.Extract(a, w-1, run), ts.Const(b.val>>run, w-run))
				lo := ts.bitwise(op, ts.Extract(a, run-1, 0), ts.Const(b.val, run))
				return ts.Concat(hi, lo)
			}
		}
		if ts.constArmIte(a) {
			return ts.Ite(a.a, ts.bitwise(op, a.b, b), ts.bitwise(op, a.c, b))
		}
	} else if a.op == OpConcat || b.op == OpConcat {
		// split at a common boundary when some field is constant
		var pa, pb [16]*Term
		la, lb := pieces(a, pa[:0]), pieces(b, pb[:0])
		useful := false
		for _, t := range la {
			useful = useful || t.isConst()
		}
		for _, t := range lb {
			useful = useful || t.isConst()
		}
		if useful {
			var k uint8
			if a.op == OpConcat {
				k = a.b.w
			}
			if b.op == OpConcat && (a.op != OpConcat || b.b.w > k) {
				k = b.b.w
			}
			hi := ts.bitwise(op, ts.Extract(a, w-1, k), ts.Extract(b, w-1, k))
			lo := ts.bitwise(op, ts.Extract(a, k-1, 0), ts.Extract(b, k-1, 0))
			return ts.Concat(hi, lo)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return ts.mk(op, w, 0, a, b, nil, 0)
}

func (ts *Terms) BAnd(a, b *Term) *Term { return ts.bitwise(OpBAnd, a, b) }
func (ts *Terms) BOr(a, b *Term) *Term  { return ts.bitwise(OpBOr, a, b) }
func (ts *Terms) BXor(a, b *Term) *Term { return ts.bitwise(OpBXor, a, b) }

// Shifts: the amount has the same width as the operand (the VM saturates).
func (ts *Terms) Shl(a, k *Term) *Term {
	if k.isConst() {
		if k.val == 0 {
			return a
		}
		if k.val >= uint64(a.w) {
			return ts.Const(0, a.w)
		}
		n := uint8(k.val)
		return ts.Concat(ts.Extract(a, a.w-1-n, 0), ts.Const(0, n))
	}
	return ts.mk(OpShl, a.w, 0, a, k, nil, 0)
}

func (ts *Terms) LShr(a, k *Term) *Term {
	if k.isConst() {
		if k.val == 0 {
			return a
		}
		if k.val >= uint64(a.w) {
			return ts.Const(0, a.w)
		}
		n := uint8(k.val)
		return ts.Concat(ts.Const(0, n), ts.Extract(a, a.w-1, n))
	}
	return ts.mk(OpLShr, a.w, 0, a, k, nil, 0)
}

func (ts *Terms) AShr(a, k *Term) *Term {
	if k.isConst() {
		n := k.val
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		return ts.SExt(ts.Extract(a, a.w-1, uint8(n)), a.w)
	}
	return ts.mk(OpAShr, a.w, 0, a, k, nil, 0)
}

// Vars returns the sorted variable indices of t.
func (t *Term) Vars() []int32 {
	if t.varsOK {
		return t.vars
	}
	var r []int32
	if t.op == OpVar {
		r = []int32{int32(t.val)}
	} else {
		for _, s := range [...]*Term{t.a, t.b, t.c} {
			if s != nil {
				r = mergeVars(r, s.Vars())
			}
		}
	}
	t.vars = r
	t.varsOK = true
	return r
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// a is a superset of b?
	i := 0
	sub := true
	for _, x := range b {
		for i < len(a) && a[i] < x {
			i++
		}
		if i == len(a) || a[i] != x {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

// SetModel selects the assignment used by Eval.
func (ts *Terms) SetModel(m []uint64) {
	ts.model = m
	ts.evalGen++
}

func (ts *Terms) Eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evalGen == ts.evalGen {
		return t.evalVal
	}
	var r uint64
	m := mask(t.w)
	switch t.op {
	case OpVar:
		if int(t.val) < len(ts.model) {
			r = ts.model[t.val] & m
			if t.w == 0 {
				r = ts.model[t.val] & 1
			}
		}
	case OpNot:
		r = 1 - ts.Eval(t.a)
	case OpAnd:
		r = ts.Eval(t.a) & ts.Eval(t.b)
	case OpOr:
		r = ts.Eval(t.a) | ts.Eval(t.b)
	case OpIte:
		if ts.Eval(t.a) != 0 {
			r = ts.Eval(t.b)
		} else {
			r = ts.Eval(t.c)
		}
	case OpExtract:
		r = ts.Eval(t.a) >> t.lo & m
	case OpSExt:
		r = uint64(sext(ts.Eval(t.a), t.a.w)) & m
	case OpBNot:
		r = ^ts.Eval(t.a) & m
	case OpConcat:
		r = ts.Eval(t.a)<<t.b.w | ts.Eval(t.b)
	default:
		x, y := ts.Eval(t.a), ts.Eval(t.b)
		aw := t.a.w
		switch t.op {
		case OpEq:
			r = b2u(x == y)
		case OpUlt:
			r = b2u(x < y)
		case OpUle:
			r = b2u(x <= y)
		case OpSlt:
			r = b2u(sext(x, aw) < sext(y, aw))
		case OpSle:
			r = b2u(sext(x, aw) <= sext(y, aw))
		case OpAdd:
			r = (x + y) & m
		case OpSub:
			r = (x - y) & m
		case OpMul:
			r = (x * y) & m
		case OpUDiv:
			if y == 0 {
				r = m
			} else {
				r = x / y
			}
		case OpURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSDiv:
			sx, sy := sext(x, aw), sext(y, aw)
			switch {
			case sy == 0:
				if sx < 0 {
					r = 1
				} else {
					r = m
				}
			case sy == -1:
				r = uint64(-sx) & m
			default:
				r = uint64(sx/sy) & m
			}
		case OpSRem:
			sx, sy := sext(x, aw), sext(y, aw)
			switch {
			case sy == 0:
				r = x
			case sy == -1:
				r = 0
			default:
				r = uint64(sx%sy) & m
			}
		case OpBAnd:
			r = x & y
		case OpBOr:
			r = x | y
		case OpBXor:
			r = x ^ y
		case OpShl:
			if y >= uint64(aw) {
				r = 0
			} else {
				r = x << y & m
			}
		case OpLShr:
			if y >= uint64(aw) {
				r = 0
			} else {
				r = x >> y
			}
		case OpAShr:
			if y >= uint64(aw) {
				y = uint64(aw) - 1
			}
			r = uint64(sext(x, aw)>>y) & m
		default:
			panic("eval: op")
		}
	}
	t.evalGen = ts.evalGen
	t.evalVal = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// smtPrinter writes terms as SMT-LIB, naming shared nodes with let-style
// define-fun macros inside the current scope.
type smtPrinter struct {
	sb    strings.Builder
	named map[int32]bool // terms already defined in this query
	vars  map[int64]*Term
}

func varName(t *Term) string { return fmt.Sprintf("x%d_%d", t.val, t.w) }

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *smtPrinter) define(t *Term) {
	// iterative post-order to avoid deep recursion
	type item struct {
		t    *Term
		done bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		t := it.t
		if t == nil || t.op == OpConst || p.named[t.id] {
			continue
		}
		if t.op == OpVar {
			p.vars[int64(t.val)<<8|int64(t.w)] = t
			continue
		}
		if !it.done {
			st = append(st, item{t, true}, item{t.a, false}, item{t.b, false}, item{t.c, false})
			continue
		}
		p.named[t.id] = true
		p.sb.WriteString("(define-fun t")
		writeInt(&p.sb, int64(t.id))
		p.sb.WriteString(" () ")
		p.sb.WriteString(sortOf(t.w))
		p.sb.WriteByte(' ')
		switch t.op {
		case OpExtract:
			fmt.Fprintf(&p.sb, "((_ extract %d %d) ", t.lo+t.w-1, t.lo)
			p.ref(t.a)
			p.sb.WriteByte(')')
		case OpSExt:
			fmt.Fprintf(&p.sb, "((_ sign_extend %d) ", t.w-t.a.w)
			p.ref(t.a)
			p.sb.WriteByte(')')
		default:
			p.sb.WriteByte('(')
			p.sb.WriteString(opNames[t.op])
			for _, s := range [...]*Term{t.a, t.b, t.c} {
				if s != nil {
					p.sb.WriteByte(' ')
					p.ref(s)
				}
			}
			p.sb.WriteByte(')')
		}
		p.sb.WriteString(")\n")
	}
}

func writeInt(sb *strings.Builder, v int64) {
	var buf [20]byte
	i := len(buf)
	if v == 0 {
		sb.WriteByte('0')
		return
	}
	for v > 0 {
		i--
		buf[i] = byte('0' + v%10)
		v /= 10
	}
	sb.Write(buf[i:])
}

func (p *smtPrinter) ref(t *Term) {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				p.sb.WriteString("true")
			} else {
				p.sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(&p.sb, "(_ bv%d %d)", t.val, t.w)
	case OpVar:
		p.sb.WriteString(varName(t))
	default:
		p.sb.WriteByte('t')
		writeInt(&p.sb, int64(t.id))
	}
}

// String renders a term for diagnostics.
func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OpVar:
		return varName(t)
	}
	if d == 0 {
		return "..."
	}
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("%s[%d:%d]", t.a.str(d-1), t.lo+t.w-1, t.lo)
	case OpSExt:
		return fmt.Sprintf("sext%d(%s)", t.w, t.a.str(d-1))
	}
	s := "(" + opNames[t.op]
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
