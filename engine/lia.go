package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Offset arithmetic is decided far faster over the integers than over
// bit-vectors. A query whose terms all have an exact linear integer form is
// therefore written as one: every bit-vector term t of width w becomes an
// integer expression congruent to t modulo 2^w with known bounds, and is
// reduced modulo 2^w only where an operation looks at its value and the
// bounds do not already make the reduction the identity. Queries with terms
// outside this fragment stay bit-vector queries.

type intForm struct {
	ok     bool
	cost   int // reductions and divisions introduced by this node alone
	arith  bool
	expr   string
	lo, hi *big.Int
}

// intForms holds the forms of one query.
type intForms struct {
	memo map[int32]*intForm
	ref  map[int32]*bounds // signed bounds implied by the query
	raw  *Term             // refers to the plain form of this term
}

type bounds struct{ lo, hi *big.Int }

// note records signed bounds that an asserted comparison with a constant
// puts on a term.
func (n *intForms) note(t *Term, holds bool) {
	for t.op == OpNot {
		t, holds = t.a, !holds
	}
	switch {
	case t.op == OpAnd && holds || t.op == OpOr && !holds:
		n.note(t.a, holds)
		n.note(t.b, holds)
		return
	case t.op != OpUlt && t.op != OpUle && t.op != OpSlt && t.op != OpSle:
		return
	}
	a, b, strict := t.a, t.b, t.op == OpUlt || t.op == OpSlt
	if !holds {
		a, b, strict = b, a, !strict
	}
	// a < b or a <= b
	unsigned := t.op == OpUlt || t.op == OpUle
	x, k, upper := a, b, true
	if !k.isConst() {
		x, k, upper = b, a, false
	}
	if !k.isConst() || x.isConst() || x.w < 2 {
		return
	}
	half := pow2(x.w - 1)
	v := new(big.Int).SetUint64(k.val)
	if !unsigned && v.Cmp(half) >= 0 {
		v.Sub(v, pow2(x.w))
	}
	lo, hi := new(big.Int).Neg(half), new(big.Int).Sub(half, bigOne)
	switch {
	case upper:
		if strict {
			v.Sub(v, bigOne)
		}
		if unsigned {
			if v.Cmp(half) >= 0 || v.Sign() < 0 {
				return
			}
			lo = new(big.Int)
		}
		hi = minBig(hi, v)
	case unsigned:
		return
	default:
		if strict {
			v.Add(v, bigOne)
		}
		lo = maxBig(lo, v)
	}
	if o := n.ref[x.id]; o != nil {
		lo, hi = maxBig(lo, o.lo), minBig(hi, o.hi)
	}
	if lo.Cmp(hi) > 0 {
		return
	}
	n.ref[x.id] = &bounds{lo, hi}
}

func pow2(k uint8) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

var bigOne = big.NewInt(1)

func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func within(f *intForm, lo, hi *big.Int) bool { return f.lo.Cmp(lo) >= 0 && f.hi.Cmp(hi) <= 0 }

func (n *intForms) name(t *Term) string {
	f := n.memo[t.id]
	if t == n.raw {
		return f.expr
	}
	switch t.op {
	case OpConst:
		return f.expr
	case OpVar:
		return varName(t)
	}
	return fmt.Sprintf("i%d", t.id)
}

// uns gives the unsigned value of a term.
func (n *intForms) uns(t *Term, out *intForm) (string, *big.Int, *big.Int) {
	f := n.memo[t.id]
	if t.op == OpConst {
		v := new(big.Int).SetUint64(t.val)
		return v.String(), v, v
	}
	m := pow2(t.w)
	top := new(big.Int).Sub(m, bigOne)
	if within(f, new(big.Int), top) {
		return n.name(t), f.lo, f.hi
	}
	if f.hi.Sign() < 0 && f.lo.Cmp(new(big.Int).Neg(m)) >= 0 {
		return "(+ " + n.name(t) + " " + m.String() + ")", new(big.Int).Add(f.lo, m), new(big.Int).Add(f.hi, m)
	}
	out.cost++
	if f.lo.Cmp(new(big.Int).Neg(m)) >= 0 && f.hi.Cmp(m) < 0 {
		return "(ite (< " + n.name(t) + " 0) (+ " + n.name(t) + " " + m.String() + ") " + n.name(t) + ")", new(big.Int), top
	}
	return "(mod " + n.name(t) + " " + m.String() + ")", new(big.Int), top
}

// sgn gives the two's complement value of a term.
func (n *intForms) sgn(t *Term, out *intForm) (string, *big.Int, *big.Int) {
	f := n.memo[t.id]
	half := pow2(t.w - 1)
	lo, hi := new(big.Int).Neg(half), new(big.Int).Sub(half, bigOne)
	if within(f, lo, hi) {
		return n.name(t), f.lo, f.hi
	}
	m := pow2(t.w)
	out.cost++
	if f.lo.Cmp(lo) >= 0 && f.hi.Cmp(m) < 0 {
		nm := n.name(t)
		return "(ite (>= " + nm + " " + half.String() + ") (- " + nm + " " + m.String() + ") " + nm + ")", lo, hi
	}
	out.cost++
	return "(- (mod (+ " + n.name(t) + " " + half.String() + ") " + m.String() + ") " + half.String() + ")", lo, hi
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func floorDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() < 0 {
		q.Sub(q, bigOne)
	}
	return q
}

// form computes the integer form of a term whose operands have one.
func (n *intForms) form(t *Term) *intForm {
	f := &intForm{}
	for _, s := range [...]*Term{t.a, t.b, t.c} {
		if s != nil && !n.memo[s.id].ok {
			return f
		}
	}
	fa := func() *intForm { return n.memo[t.a.id] }
	fb := func() *intForm { return n.memo[t.b.id] }
	set := func(e string, lo, hi *big.Int) { f.ok, f.expr, f.lo, f.hi = true, e, lo, hi }
	boolean := func(e string) { f.ok, f.expr = true, e }
	switch t.op {
	case OpConst:
		if t.w == 0 {
			boolean(fmt.Sprint(t.val != 0))
			break
		}
		v := new(big.Int).SetUint64(t.val)
		if t.w > 1 && t.val>>(t.w-1) != 0 {
			v.Sub(v, pow2(t.w))
		}
		set(intLit(v), v, v)
	case OpVar:
		if t.w == 0 {
			boolean(varName(t))
			break
		}
		if r := n.ref[t.id]; r != nil {
			set(varName(t), r.lo, r.hi)
			break
		}
		set(varName(t), new(big.Int), new(big.Int).Sub(pow2(t.w), bigOne))
	case OpNot:
		boolean("(not " + n.name(t.a) + ")")
	case OpAnd:
		boolean("(and " + n.name(t.a) + " " + n.name(t.b) + ")")
	case OpOr:
		boolean("(or " + n.name(t.a) + " " + n.name(t.b) + ")")
	case OpEq:
		if t.a.w == 0 {
			boolean("(= " + n.name(t.a) + " " + n.name(t.b) + ")")
			break
		}
		m := pow2(t.a.w)
		d1 := new(big.Int).Sub(fa().hi, fb().lo)
		d2 := new(big.Int).Sub(fb().hi, fa().lo)
		if d1.Cmp(m) < 0 && d2.Cmp(m) < 0 {
			boolean("(= " + n.name(t.a) + " " + n.name(t.b) + ")")
			break
		}
		x, _, _ := n.uns(t.a, f)
		y, _, _ := n.uns(t.b, f)
		boolean("(= " + x + " " + y + ")")
	case OpUlt, OpUle:
		x, _, _ := n.uns(t.a, f)
		y, _, _ := n.uns(t.b, f)
		f.arith = true
		boolean(map[Op]string{OpUlt: "(< ", OpUle: "(<= "}[t.op] + x + " " + y + ")")
	case OpSlt, OpSle:
		x, _, _ := n.sgn(t.a, f)
		y, _, _ := n.sgn(t.b, f)
		f.arith = true
		boolean(map[Op]string{OpSlt: "(< ", OpSle: "(<= "}[t.op] + x + " " + y + ")")
	case OpIte:
		e := "(ite " + n.name(t.a) + " " + n.name(t.b) + " " + n.name(t.c) + ")"
		if t.w == 0 {
			boolean(e)
			break
		}
		fc := n.memo[t.c.id]
		set(e, minBig(fb().lo, fc.lo), maxBig(fb().hi, fc.hi))
	case OpAdd:
		f.arith = true
		set("(+ "+n.name(t.a)+" "+n.name(t.b)+")", new(big.Int).Add(fa().lo, fb().lo), new(big.Int).Add(fa().hi, fb().hi))
	case OpSub:
		f.arith = true
		set("(- "+n.name(t.a)+" "+n.name(t.b)+")", new(big.Int).Sub(fa().lo, fb().hi), new(big.Int).Sub(fa().hi, fb().lo))
	case OpMul:
		k, x := t.a, t.b
		if !k.isConst() {
			k, x = x, k
		}
		if !k.isConst() {
			return f
		}
		kv, fx := n.memo[k.id].lo, n.memo[x.id]
		p, q := new(big.Int).Mul(kv, fx.lo), new(big.Int).Mul(kv, fx.hi)
		set("(* "+intLit(kv)+" "+n.name(x)+")", minBig(p, q), maxBig(p, q))
	case OpBNot:
		set("(- (- 1) "+n.name(t.a)+")", new(big.Int).Sub(big.NewInt(-1), fa().hi), new(big.Int).Sub(big.NewInt(-1), fa().lo))
	case OpShl:
		if !t.b.isConst() || t.b.val >= uint64(t.w) {
			return f
		}
		k := pow2(uint8(t.b.val))
		set("(* "+k.String()+" "+n.name(t.a)+")", new(big.Int).Mul(k, fa().lo), new(big.Int).Mul(k, fa().hi))
	case OpLShr, OpUDiv:
		if !t.b.isConst() || t.op == OpUDiv && t.b.val == 0 || t.op == OpLShr && t.b.val >= uint64(t.w) {
			return f
		}
		d := new(big.Int).SetUint64(t.b.val)
		if t.op == OpLShr {
			d = pow2(uint8(t.b.val))
		}
		x, lo, hi := n.uns(t.a, f)
		f.cost++
		set("(div "+x+" "+d.String()+")", floorDiv(lo, d), floorDiv(hi, d))
	case OpAShr:
		if !t.b.isConst() || t.b.val >= uint64(t.w) {
			return f
		}
		d := pow2(uint8(t.b.val))
		x, lo, hi := n.sgn(t.a, f)
		f.cost++
		set("(div "+x+" "+d.String()+")", floorDiv(lo, d), floorDiv(hi, d))
	case OpURem:
		if !t.b.isConst() || t.b.val == 0 {
			return f
		}
		d := new(big.Int).SetUint64(t.b.val)
		x, lo, hi := n.uns(t.a, f)
		if hi.Cmp(d) < 0 {
			set(x, lo, hi)
			break
		}
		f.cost++
		set("(mod "+x+" "+d.String()+")", new(big.Int), new(big.Int).Sub(d, bigOne))
	case OpSDiv, OpSRem:
		if !t.b.isConst() || n.memo[t.b.id].lo.Sign() <= 0 {
			return f
		}
		d := n.memo[t.b.id].lo
		x, lo, hi := n.sgn(t.a, f)
		f.cost++
		if lo.Sign() < 0 {
			f.cost++
			q := func(v *big.Int) *big.Int { return new(big.Int).Quo(v, d) }
			if t.op == OpSDiv {
				set("(ite (>= "+x+" 0) (div "+x+" "+d.String()+") (- (div (- "+x+") "+d.String()+")))", q(lo), q(hi))
			} else {
				top := new(big.Int).Sub(d, bigOne)
				set("(ite (>= "+x+" 0) (mod "+x+" "+d.String()+") (- (mod (- "+x+") "+d.String()+")))", new(big.Int).Neg(top), top)
			}
			break
		}
		if t.op == OpSDiv {
			set("(div "+x+" "+d.String()+")", floorDiv(lo, d), floorDiv(hi, d))
		} else {
			set("(mod "+x+" "+d.String()+")", new(big.Int), new(big.Int).Sub(d, bigOne))
		}
	case OpBAnd:
		k, x := t.a, t.b
		if !k.isConst() {
			k, x = x, k
		}
		if !k.isConst() || k.val == 0 {
			return f
		}
		if k.val&(k.val+1) == 0 { // low mask
			d := new(big.Int).Add(new(big.Int).SetUint64(k.val), bigOne)
			s, lo, hi := n.uns(x, f)
			if hi.Cmp(d) < 0 {
				set(s, lo, hi)
				break
			}
			f.cost++
			set("(mod "+n.name(x)+" "+d.String()+")", new(big.Int), new(big.Int).Sub(d, bigOne))
			break
		}
		inv := ^k.val & mask(t.w)
		if inv&(inv+1) == 0 { // clears the low bits
			d := new(big.Int).Add(new(big.Int).SetUint64(inv), bigOne)
			s, lo, hi := n.uns(x, f)
			f.cost++
			set("(* "+d.String()+" (div "+s+" "+d.String()+"))", new(big.Int).Mul(d, floorDiv(lo, d)), new(big.Int).Mul(d, floorDiv(hi, d)))
		}
	case OpConcat:
		y, ylo, yhi := n.uns(t.b, f)
		if t.a.isConst() && t.a.val == 0 {
			set(y, ylo, yhi)
			break
		}
		x, xlo, xhi := n.uns(t.a, f)
		k := pow2(t.b.w)
		set("(+ (* "+k.String()+" "+x+") "+y+")", new(big.Int).Add(new(big.Int).Mul(k, xlo), ylo), new(big.Int).Add(new(big.Int).Mul(k, xhi), yhi))
	case OpSExt:
		x, lo, hi := n.sgn(t.a, f)
		set(x, lo, hi)
	case OpExtract:
		if t.lo == 0 {
			set(n.name(t.a), fa().lo, fa().hi)
			break
		}
		x, lo, hi := n.uns(t.a, f)
		d := pow2(t.lo)
		f.cost++
		set("(div "+x+" "+d.String()+")", floorDiv(lo, d), floorDiv(hi, d))
	}
	return f
}

// integers writes the conjunction as a linear integer query, if it has that
// form and is likely to be decided faster in it.
func integers(list []*Term) (string, bool) {
	n := &intForms{memo: map[int32]*intForm{}, ref: map[int32]*bounds{}}
	for _, t := range list {
		n.note(t, true)
	}
	type item struct {
		t    *Term
		done bool
	}
	var sb, decl strings.Builder
	seen := map[int32]bool{}
	cost, arith := 0, false
	for _, root := range list {
		st := []item{{root, false}}
		for len(st) > 0 {
			it := st[len(st)-1]
			st = st[:len(st)-1]
			t := it.t
			if t == nil || seen[t.id] {
				continue
			}
			if !it.done {
				st = append(st, item{t, true}, item{t.a, false}, item{t.b, false}, item{t.c, false})
				continue
			}
			seen[t.id] = true
			f := n.form(t)
			n.memo[t.id] = f
			if !f.ok {
				return "", false
			}
			r := n.ref[t.id]
			if r != nil && t.op != OpVar {
				// name the plain form and go on with the signed value
				fmt.Fprintf(&sb, "(define-fun r%d () Int %s)\n", t.id, f.expr)
				f.expr = fmt.Sprintf("r%d", t.id)
				n.raw = t
				e, lo, hi := n.sgn(t, f)
				n.raw = nil
				f.expr, f.lo, f.hi = e, maxBig(lo, r.lo), minBig(hi, r.hi)
				if f.lo.Cmp(f.hi) > 0 {
					return "", false
				}
			}
			cost += f.cost
			if cost > maxIntCost {
				return "", false
			}
			arith = arith || f.arith && t.a.w > 8
			switch t.op {
			case OpConst:
			case OpVar:
				if t.w == 0 {
					fmt.Fprintf(&decl, "(declare-const %s Bool)\n", f.expr)
				} else {
					fmt.Fprintf(&decl, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", f.expr, intLit(f.lo), f.expr, f.expr, intLit(f.hi))
				}
			default:
				srt := "Int"
				if t.w == 0 {
					srt = "Bool"
				}
				fmt.Fprintf(&sb, "(define-fun i%d () %s %s)\n", t.id, srt, f.expr)
				if r != nil {
					fmt.Fprintf(&sb, "(assert (and (<= %s i%d) (<= i%d %s)))\n", intLit(f.lo), t.id, t.id, intLit(f.hi))
				}
			}
		}
	}
	if !arith {
		return "", false
	}
	for _, t := range list {
		sb.WriteString("(assert " + n.name(t) + ")\n")
	}
	return decl.String() + sb.String(), true
}

var maxIntCost = 40 // reductions in a query
