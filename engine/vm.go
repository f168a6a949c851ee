package main

import (
	"fmt"
	"go/token"
	"math"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation record.
type Frame struct {
	fn       *Func
	regs     []Value
	blk      *Block
	pc       int
	caller   *Frame
	retDst   int32
	defers   []deferred
	unwind   *panicking // set while this frame is being unwound
	deferOf  *Frame     // the frame whose defer runs this frame
	nested   bool       // return leaves the nested interpreter loop
	retVal   Value
	isResume bool
	race     bool // accesses are watched for races
}

type deferred struct {
	fn   *Func
	bi   string
	args []Value
	cs   *callSite
}

type panicking struct {
	val       Value // interface value
	msg       string
	recovered bool
	goexit    bool
}

type Thread struct {
	id      int
	top     *Frame
	depth   int
	sel     *selWait
	blocked string // reason, "" when runnable
	gate    string
	wakeAt  int64
	asleep  bool
	done    bool
	system  bool
	result  Value
	retry   func() bool // re-check of a blocked operation
	skipVis bool
	pass    string // the parking operation that may now complete
	vc      vclock
}

// pathEnd terminates the current path; it is thrown as a Go panic.
type pathEnd struct {
	kind string // "done", "assume", "unsupported", "budget", "deadlock", "panic", "violation", "exit"
	msg  string
	pos  string
}

type specAbort struct{ why string }

// VM interprets the program for one worker.
type VM struct {
	p       *Program
	ts      *Terms
	ex      *Explorer
	path    *Path
	globals []*Value
	pkgInit map[*ssa.Package]int
	setups  map[*Func]*Value
	ready   []bool

	threads   []*Thread
	runq      []*Thread
	parked    []*Thread
	cur       *Thread
	nextTID   int
	steps     int64
	maxSteps  int64
	journal   []undo
	journalOn bool
	spec      int // >0 while evaluating speculatively
	specSteps int
	sync      map[*Value]*syncState
	side      map[string]any // per-path side tables of intrinsics
	initing   int
	now       int64
	preempt   int
	race      *raceState
	gates     []string
	maxDepth  int
	funcsUsed map[*Func]bool
	isoThread bool
}

type undo struct {
	p   *Value
	old Value
	f   func()
}

func newVM(p *Program) *VM {
	return &VM{p: p, ts: NewTerms(), pkgInit: map[*ssa.Package]int{}, sync: map[*Value]*syncState{}, side: map[string]any{}, maxDepth: 4000, funcsUsed: map[*Func]bool{}, maxSteps: 1 << 40}
}

func (vm *VM) unsupported(format string, args ...any) {
	if vm.spec > 0 {
		panic(specAbort{"unsupported"})
	}
	panic(pathEnd{kind: "unsupported", msg: fmt.Sprintf(format, args...), pos: vm.where()})
}

func (vm *VM) where() string {
	var sb strings.Builder
	if vm.cur == nil {
		return ""
	}
	n := 0
	for f := vm.cur.top; f != nil && n < 12; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(shortName(f.fn.name))
		if f.blk != nil && f.pc < len(f.blk.instrs) {
			pos := f.blk.instrs[f.pc].pos
			if !pos.IsValid() && f.pc > 0 {
				pos = f.blk.instrs[f.pc-1].pos
			}
			if pos.IsValid() {
				fmt.Fprintf(&sb, ":%d", vm.p.fset.Position(pos).Line)
			}
		}
		n++
	}
	return sb.String()
}

// ---- terms and values

func (vm *VM) term(v Value, w uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return vm.ts.Const(v.I, w)
}

func (vm *VM) bterm(v Value) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return vm.ts.Bool(v.I != 0)
}

func (vm *VM) val(t *Term) Value {
	if t.isConst() {
		return Value{I: t.val}
	}
	return Value{P: t}
}

// truth turns a boolean value into a decision.
func (vm *VM) truth(v Value) bool {
	if t, ok := v.P.(*Term); ok {
		return vm.decide(t)
	}
	return v.I != 0
}

func (vm *VM) decide(t *Term) bool {
	if t.isConst() {
		return t.val != 0
	}
	if vm.spec > 0 {
		if k, ok := vm.path.known(vm.ts, t); ok {
			return k
		}
		panic(specAbort{"decide"})
	}
	return vm.ex.decide(vm, t)
}

// conc returns a concrete value for v, forking over the alternatives.
func (vm *VM) conc(v Value, w uint8) uint64 {
	t, ok := v.P.(*Term)
	if !ok {
		return v.I
	}
	if vm.spec > 0 {
		panic(specAbort{"concretise"})
	}
	return vm.ex.concretise(vm, t)
}

func (vm *VM) concInt(v Value) int { return int(int64(vm.conc(v, 64))) }

// concStr concretises a string.
func (vm *VM) concStr(v Value) string {
	if s, ok := v.goStr(); ok {
		return s
	}
	b := v.strBytes()
	out := make([]byte, len(b))
	for i := range b {
		out[i] = byte(vm.conc(b[i], 8))
	}
	return string(out)
}

// ---- memory

func (vm *VM) set(p *Value, v Value) {
	if vm.journalOn {
		vm.journal = append(vm.journal, undo{p: p, old: *p})
	}
	*p = v
}

// assign stores v into the cell p, keeping the identity of aggregates.
func (vm *VM) assign(p *Value, v Value, fresh bool) {
	if a, ok := v.P.(*Agg); ok {
		d, ok := p.P.(*Agg)
		if !ok {
			// cell reinterpreted through unsafe: give it its own copy
			vm.set(p, clone(v))
			return
		}
		if d == a {
			return
		}
		if len(d.e) != len(a.e) {
			vm.unsupported("aggregate size mismatch in store")
		}
		for i := range a.e {
			if _, ok := a.e[i].P.(*Agg); ok {
				vm.assign(&d.e[i], a.e[i], fresh)
			} else if fresh {
				d.e[i] = a.e[i]
			} else {
				vm.set(&d.e[i], a.e[i])
			}
		}
		return
	}
	if fresh {
		*p = v
		return
	}
	vm.set(p, v)
}

func (vm *VM) load(p Value, t *TypeInfo) Value {
	switch q := p.P.(type) {
	case *Value:
		v := *q
		switch t.k {
		case kStruct, kArray:
			if a, ok := v.P.(*Agg); ok && len(a.e) == t.n {
				return clone(v)
			}
			vm.unsupported("load of %s through reinterpreted pointer", t.t)
		case kString:
			if b, ok := v.P.([]Value); ok {
				return mkStr(b)
			}
		case kSlice:
			switch v.P.(type) {
			case string, *SymStr:
				return Value{P: v.strBytes()}
			}
		case kInt:
			if _, ok := v.P.(*Agg); ok {
				vm.unsupported("integer load of an aggregate")
			}
		}
		return v
	case *SymPtr:
		return vm.symLoad(q.elems, q.idx, t)
	case nil:
		vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	vm.unsupported("load through %T", p.P)
	return Value{}
}

// symLoad builds the ITE tree for elems[idx].
func (vm *VM) symLoad(elems []Value, idx *Term, t *TypeInfo) Value {
	w := t.w
	if t.k == kBool {
		w = 0
	}
	var rec func(lo, hi int) *Term
	get := func(i int) *Term {
		if t.k == kBool {
			return vm.bterm(elems[i])
		}
		return vm.term(elems[i], w)
	}
	// runs of equal elements
	type run struct{ start int }
	starts := []int{0}
	for i := 1; i < len(elems); i++ {
		if elems[i] != elems[i-1] {
			starts = append(starts, i)
		}
	}
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return get(starts[lo])
		}
		mid := (lo + hi) / 2
		l, r := rec(lo, mid), rec(mid, hi)
		if l == r {
			return l
		}
		return vm.ts.Ite(vm.ts.Ult(idx, vm.ts.Const(uint64(starts[mid]), idx.w)), l, r)
	}
	return vm.val(rec(0, len(starts)))
}

func (vm *VM) store(p, v Value, fresh bool) {
	switch q := p.P.(type) {
	case *Value:
		if fresh && vm.journalOn && vm.spec == 0 {
			if _, ok := v.P.(*Agg); !ok {
				*q = v
				return
			}
		}
		vm.assign(q, v, fresh)
		return
	case *SymPtr:
		for i := range q.elems {
			c := vm.ts.Eq(q.idx, vm.ts.Const(uint64(i), q.idx.w))
			nv, ok := vm.ite(c, v, q.elems[i], nil)
			if !ok {
				vm.unsupported("symbolic-index store of %T", v.P)
			}
			if nv != q.elems[i] {
				vm.set(&q.elems[i], nv)
			}
		}
		return
	case nil:
		vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	vm.unsupported("store through %T", p.P)
}

// ite merges two values; w is needed when both are concrete integers, so t
// gives the type (nil: guessed from the symbolic side).
func (vm *VM) ite(c *Term, a, b Value, t *TypeInfo) (Value, bool) {
	if c.isConst() {
		if c.val != 0 {
			return a, true
		}
		return b, true
	}
	if sameValue(a, b) {
		return a, true
	}
	ta, oka := a.P.(*Term)
	tb, okb := b.P.(*Term)
	if (oka || a.P == nil) && (okb || b.P == nil) && (t == nil || t.k == kInt || t.k == kBool) {
		var w uint8
		switch {
		case t != nil:
			w = t.w
			if t.k == kBool {
				w = 0
			}
		case oka:
			w = ta.w
		case okb:
			w = tb.w
		default:
			w = 8 // only byte-array stores come here without a type
			if a.I > 255 || b.I > 255 {
				return Value{}, false
			}
		}
		if !oka {
			ta = vm.ts.Const(a.I, w)
		}
		if !okb {
			tb = vm.ts.Const(b.I, w)
		}
		return vm.val(vm.ts.Ite(c, ta, tb)), true
	}
	if t != nil && t.k == kString && a.strLen() == b.strLen() {
		x, y := a.strBytes(), b.strBytes()
		out := make([]Value, len(x))
		for i := range x {
			out[i] = vm.val(vm.ts.Ite(c, vm.term(x[i], 8), vm.term(y[i], 8)))
		}
		return mkStr(out), true
	}
	if aa, ok := a.P.(*Agg); ok && t != nil {
		if ba, ok := b.P.(*Agg); ok && len(aa.e) == len(ba.e) {
			out := &Agg{make([]Value, len(aa.e))}
			for i := range aa.e {
				et := t.elem
				if t.k == kStruct {
					et = t.fields[i]
				}
				v, ok := vm.ite(c, aa.e[i], ba.e[i], et)
				if !ok {
					return Value{}, false
				}
				out.e[i] = v
			}
			return Value{P: out}, true
		}
	}
	if at, ok := a.P.(Tuple); ok && t != nil && t.k == kTuple {
		bt := b.P.(Tuple)
		out := make(Tuple, len(at))
		for i := range at {
			v, ok := vm.ite(c, at[i], bt[i], t.fields[i])
			if !ok {
				return Value{}, false
			}
			out[i] = v
		}
		return Value{P: out}, true
	}
	return Value{}, false
}

func sameValue(a, b Value) bool {
	if a.I != b.I {
		return false
	}
	switch x := a.P.(type) {
	case nil:
		return b.P == nil
	case *Term, *Value, *ChanV, *MapV:
		return a.P == b.P
	case *Iface:
		y, ok := b.P.(*Iface)
		return ok && (x == y || x.t == y.t && sameValue(x.v, y.v))
	case string:
		y, ok := b.P.(string)
		return ok && x == y
	case *SymStr:
		y, ok := b.P.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case []Value:
		y, ok := b.P.([]Value)
		return ok && len(x) == len(y) && cap(x) == cap(y) && unsafe.SliceData(x) == unsafe.SliceData(y)
	case *Closure:
		y, ok := b.P.(*Closure)
		return ok && (x == y || x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0)
	case *Agg:
		y, ok := b.P.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameValue(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- equality and ordering

func (vm *VM) eq(t *TypeInfo, a, b Value) Value {
	switch t.k {
	case kBool:
		if a.P == nil && b.P == nil {
			return boolVal(a.I == b.I)
		}
		return vm.val(vm.ts.Eq(vm.bterm(a), vm.bterm(b)))
	case kInt:
		if a.P == nil && b.P == nil {
			return boolVal(a.I == b.I)
		}
		return vm.val(vm.ts.Eq(vm.term(a, t.w), vm.term(b, t.w)))
	case kFloat:
		return boolVal(math.Float64frombits(a.I) == math.Float64frombits(b.I))
	case kComplex:
		return boolVal(a.P.(complex128) == b.P.(complex128))
	case kString:
		return vm.strEq(a, b)
	case kPtr, kChan, kMap, kFunc, kSlice:
		if _, ok := a.P.(*SymPtr); ok && b.P != nil {
			vm.unsupported("comparison of symbolic pointers")
		}
		if _, ok := b.P.(*SymPtr); ok && a.P != nil {
			vm.unsupported("comparison of symbolic pointers")
		}
		switch x := a.P.(type) {
		case []Value:
			return boolVal(b.P == nil && x == nil)
		}
		if _, ok := b.P.([]Value); ok {
			return boolVal(false)
		}
		return boolVal(a.P == b.P && a.I == b.I)
	case kIface:
		if a.P == nil || b.P == nil {
			return boolVal(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return boolVal(false)
		}
		if !comparable(x.t) {
			vm.goPanic("runtime error: comparing uncomparable type " + x.t.t.String())
		}
		return vm.eq(x.t, x.v, y.v)
	case kStruct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := boolVal(true)
		for i, f := range t.fields {
			r = vm.and(r, vm.eq(f, x.e[i], y.e[i]))
		}
		return r
	case kArray:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := boolVal(true)
		for i := range x.e {
			r = vm.and(r, vm.eq(t.elem, x.e[i], y.e[i]))
		}
		return r
	}
	vm.unsupported("equality on %s", t.t)
	return Value{}
}

func comparable(t *TypeInfo) bool {
	switch t.k {
	case kSlice, kMap, kFunc:
		return false
	case kStruct:
		for _, f := range t.fields {
			if !comparable(f) {
				return false
			}
		}
	case kArray:
		return comparable(t.elem)
	}
	return true
}

func (vm *VM) and(a, b Value) Value {
	if a.P == nil {
		if a.I == 0 {
			return a
		}
		return b
	}
	if b.P == nil {
		if b.I == 0 {
			return b
		}
		return a
	}
	return vm.val(vm.ts.And(a.P.(*Term), b.P.(*Term)))
}

func (vm *VM) not(a Value) Value {
	if t, ok := a.P.(*Term); ok {
		return vm.val(vm.ts.Not(t))
	}
	return boolVal(a.I == 0)
}

func (vm *VM) strEq(a, b Value) Value {
	if a.strLen() != b.strLen() {
		return boolVal(false)
	}
	if x, ok := a.goStr(); ok {
		if y, ok := b.goStr(); ok {
			return boolVal(x == y)
		}
	}
	return vm.bytesEq(a.strBytes(), b.strBytes())
}

func (vm *VM) bytesEq(x, y []Value) Value {
	if len(x) != len(y) {
		return boolVal(false)
	}
	for i := range x {
		if x[i].P == nil && y[i].P == nil && x[i].I != y[i].I {
			return boolVal(false)
		}
	}
	r := vm.ts.T
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		r = vm.ts.And(r, vm.ts.Eq(vm.term(x[i], 8), vm.term(y[i], 8)))
	}
	return vm.val(r)
}

// bytesLess is the lexicographic order; orEq includes equality.
func (vm *VM) bytesLess(x, y []Value, orEq bool) Value {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var r *Term
	if len(x) < len(y) || orEq && len(x) == len(y) {
		r = vm.ts.T
	} else {
		r = vm.ts.F
	}
	for i := n - 1; i >= 0; i-- {
		if x[i].P == nil && y[i].P == nil {
			if x[i].I != y[i].I {
				r = vm.ts.Bool(x[i].I < y[i].I)
			}
			continue
		}
		a, b := vm.term(x[i], 8), vm.term(y[i], 8)
		r = vm.ts.Or(vm.ts.Ult(a, b), vm.ts.And(vm.ts.Eq(a, b), r))
	}
	return vm.val(r)
}

// ---- integer operations

func (vm *VM) intBin(tok token.Token, t *TypeInfo, a, b Value) Value {
	w := t.w
	if t.k == kBool {
		switch tok {
		case token.AND, token.LAND:
			return vm.and(a, b)
		case token.OR, token.LOR:
			return vm.not(vm.and(vm.not(a), vm.not(b)))
		}
		vm.unsupported("bool op %s", tok)
	}
	if a.P == nil && b.P == nil {
		m := mask(w)
		switch tok {
		case token.ADD:
			return Value{I: (a.I + b.I) & m}
		case token.SUB:
			return Value{I: (a.I - b.I) & m}
		case token.MUL:
			return Value{I: (a.I * b.I) & m}
		case token.QUO:
			if b.I == 0 {
				vm.goPanic("runtime error: integer divide by zero")
			}
			if t.signed {
				x, y := sext(a.I, w), sext(b.I, w)
				if y == -1 {
					return Value{I: uint64(-x) & m}
				}
				return Value{I: uint64(x/y) & m}
			}
			return Value{I: a.I / b.I}
		case token.REM:
			if b.I == 0 {
				vm.goPanic("runtime error: integer divide by zero")
			}
			if t.signed {
				x, y := sext(a.I, w), sext(b.I, w)
				if y == -1 {
					return Value{}
				}
				return Value{I: uint64(x%y) & m}
			}
			return Value{I: a.I % b.I}
		case token.AND:
			return Value{I: a.I & b.I}
		case token.OR:
			return Value{I: a.I | b.I}
		case token.XOR:
			return Value{I: a.I ^ b.I}
		case token.AND_NOT:
			return Value{I: a.I &^ b.I}
		}
		vm.unsupported("int op %s", tok)
	}
	x, y := vm.term(a, w), vm.term(b, w)
	ts := vm.ts
	var r *Term
	switch tok {
	case token.ADD:
		r = ts.Add(x, y)
	case token.SUB:
		r = ts.Sub(x, y)
	case token.MUL:
		r = ts.Mul(x, y)
	case token.QUO, token.REM:
		if vm.decide(ts.Eq(y, ts.Const(0, w))) {
			vm.goPanic("runtime error: integer divide by zero")
		}
		switch {
		case tok == token.QUO && t.signed:
			r = ts.SDiv(x, y)
		case tok == token.QUO:
			r = ts.UDiv(x, y)
		case t.signed:
			r = ts.SRem(x, y)
		default:
			r = ts.URem(x, y)
		}
	case token.AND:
		r = ts.BAnd(x, y)
	case token.OR:
		r = ts.BOr(x, y)
	case token.XOR:
		r = ts.BXor(x, y)
	case token.AND_NOT:
		r = ts.BAnd(x, ts.BNot(y))
	default:
		vm.unsupported("int op %s", tok)
	}
	return vm.val(r)
}

func (vm *VM) intCmp(tok token.Token, t *TypeInfo, a, b Value) Value {
	w := t.w
	if a.P == nil && b.P == nil {
		if t.signed {
			x, y := sext(a.I, w), sext(b.I, w)
			switch tok {
			case token.EQL:
				return boolVal(x == y)
			case token.NEQ:
				return boolVal(x != y)
			case token.LSS:
				return boolVal(x < y)
			case token.LEQ:
				return boolVal(x <= y)
			case token.GTR:
				return boolVal(x > y)
			case token.GEQ:
				return boolVal(x >= y)
			}
		}
		x, y := a.I, b.I
		switch tok {
		case token.EQL:
			return boolVal(x == y)
		case token.NEQ:
			return boolVal(x != y)
		case token.LSS:
			return boolVal(x < y)
		case token.LEQ:
			return boolVal(x <= y)
		case token.GTR:
			return boolVal(x > y)
		case token.GEQ:
			return boolVal(x >= y)
		}
	}
	if _, ok := a.P.(*Term); !ok && a.P != nil {
		vm.unsupported("comparison of pointer integers")
	}
	x, y := vm.term(a, w), vm.term(b, w)
	ts := vm.ts
	lt, le := ts.Ult, ts.Ule
	if t.signed {
		lt, le = ts.Slt, ts.Sle
	}
	var r *Term
	switch tok {
	case token.EQL:
		r = ts.Eq(x, y)
	case token.NEQ:
		r = ts.Not(ts.Eq(x, y))
	case token.LSS:
		r = lt(x, y)
	case token.LEQ:
		r = le(x, y)
	case token.GTR:
		r = lt(y, x)
	case token.GEQ:
		r = le(y, x)
	}
	return vm.val(r)
}

func (vm *VM) shift(tok token.Token, t, ct *TypeInfo, a, b Value) Value {
	w := t.w
	if b.P == nil {
		if ct.signed && sext(b.I, ct.w) < 0 {
			vm.goPanic("runtime error: negative shift amount")
		}
		n := b.I
		if a.P == nil {
			if tok == token.SHL {
				if n >= 64 {
					return Value{}
				}
				return Value{I: (a.I << n) & mask(w)}
			}
			if t.signed {
				if n > 63 {
					n = 63
				}
				return Value{I: uint64(sext(a.I, w)>>n) & mask(w)}
			}
			if n >= 64 {
				return Value{}
			}
			return Value{I: a.I >> n}
		}
	} else if ct.signed {
		if vm.decide(vm.ts.Slt(b.P.(*Term), vm.ts.Const(0, ct.w))) {
			vm.goPanic("runtime error: negative shift amount")
		}
	}
	ts := vm.ts
	x := vm.term(a, w)
	cnt := vm.term(b, ct.w)
	var k *Term
	if ct.w > w {
		k = ts.Ite(ts.Ult(cnt, ts.Const(uint64(w), ct.w)), ts.Extract(cnt, w-1, 0), ts.Const(uint64(w), w))
	} else {
		k = ts.ZExt(cnt, w)
	}
	var r *Term
	switch {
	case tok == token.SHL:
		r = ts.Shl(x, k)
	case t.signed:
		r = ts.AShr(x, k)
	default:
		r = ts.LShr(x, k)
	}
	return vm.val(r)
}

func (vm *VM) floatBin(tok token.Token, t *TypeInfo, a, b Value) Value {
	x, y := math.Float64frombits(a.I), math.Float64frombits(b.I)
	if a.P != nil || b.P != nil {
		vm.unsupported("symbolic float")
	}
	var r float64
	switch tok {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	default:
		vm.unsupported("float op %s", tok)
	}
	if t.f32 {
		r = float64(float32(r))
	}
	return Value{I: math.Float64bits(r)}
}

func (vm *VM) floatCmp(tok token.Token, a, b Value) Value {
	if a.P != nil || b.P != nil {
		vm.unsupported("symbolic float")
	}
	x, y := math.Float64frombits(a.I), math.Float64frombits(b.I)
	switch tok {
	case token.EQL:
		return boolVal(x == y)
	case token.NEQ:
		return boolVal(x != y)
	case token.LSS:
		return boolVal(x < y)
	case token.LEQ:
		return boolVal(x <= y)
	case token.GTR:
		return boolVal(x > y)
	default:
		return boolVal(x >= y)
	}
}

func (vm *VM) resize(v Value, from, to *TypeInfo) Value {
	if v.P == nil {
		if from.signed {
			return Value{I: uint64(sext(v.I, from.w)) & mask(to.w)}
		}
		return Value{I: v.I & mask(to.w)}
	}
	t, ok := v.P.(*Term)
	if !ok {
		return v // pointer disguised as uintptr
	}
	switch {
	case to.w < from.w:
		return vm.val(vm.ts.Extract(t, to.w-1, 0))
	case to.w == from.w:
		return v
	case from.signed:
		return vm.val(vm.ts.SExt(t, to.w))
	default:
		return vm.val(vm.ts.ZExt(t, to.w))
	}
}

func (vm *VM) convert(v Value, from, to *TypeInfo) Value {
	switch to.k {
	case kInt:
		switch from.k {
		case kInt:
			return vm.resize(v, from, to)
		case kFloat:
			f := math.Float64frombits(v.I)
			if to.signed || f < 0 {
				return Value{I: uint64(int64(f)) & mask(to.w)}
			}
			return Value{I: uint64(f) & mask(to.w)}
		case kPtr:
			if v.P == nil {
				return Value{}
			}
			return v
		}
	case kFloat:
		switch from.k {
		case kInt:
			if v.P != nil {
				v = Value{I: vm.conc(v, from.w)}
			}
			var f float64
			if from.signed {
				f = float64(sext(v.I, from.w))
			} else {
				f = float64(v.I)
			}
			if to.f32 {
				f = float64(float32(f))
			}
			return Value{I: math.Float64bits(f)}
		case kFloat:
			if to.f32 {
				return Value{I: math.Float64bits(float64(float32(math.Float64frombits(v.I))))}
			}
			return v
		}
	case kComplex:
		return v
	case kString:
		switch from.k {
		case kString:
			return v
		case kInt:
			if v.P != nil {
				return vm.runeToStr(v, from)
			}
			return strVal(string(rune(sext(v.I, from.w))))
		case kSlice:
			s := sliceOf(v)
			if from.elem.w == 8 {
				return mkStr(s)
			}
			// []rune
			out := Value{}
			for _, r := range s {
				if r.P != nil {
					out = strConcat(out, vm.runeToStr(r, from.elem))
				} else {
					out = strConcat(out, strVal(string(rune(sext(r.I, 32)))))
				}
			}
			return out
		}
	case kSlice:
		switch from.k {
		case kSlice:
			return v
		case kString:
			if to.elem.w == 8 {
				b := v.strBytes()
				if len(b) == 0 {
					return Value{P: []Value{}}
				}
				c := make([]Value, len(b), growCap(0, len(b), 1))
				copy(c, b)
				return Value{P: c}
			}
			var out []Value
			pos := 0
			for pos < v.strLen() {
				r, n := vm.decodeRune(v, pos)
				out = append(out, r)
				pos += n
			}
			if out == nil {
				out = []Value{}
			}
			return Value{P: out}
		}
	case kPtr:
		return v
	}
	if to.k == from.k {
		return v
	}
	vm.unsupported("conversion %s -> %s", from.t, to.t)
	return Value{}
}

// decodeRune decodes the rune at byte offset pos of s.
func (vm *VM) decodeRune(s Value, pos int) (Value, int) {
	if str, ok := s.goStr(); ok {
		r, n := utf8.DecodeRuneInString(str[pos:])
		return Value{I: uint64(uint32(r))}, n
	}
	b := s.strBytes()[pos:]
	if b[0].P == nil && b[0].I < 0x80 {
		return Value{I: b[0].I}, 1
	}
	if t, ok := b[0].P.(*Term); ok {
		if vm.decide(vm.ts.Ult(t, vm.ts.Const(0x80, 8))) {
			return vm.val(vm.ts.ZExt(t, 32)), 1
		}
	}
	n := len(b)
	if n > 4 {
		n = 4
	}
	all := true
	for _, x := range b[:n] {
		if x.P != nil {
			all = false
		}
	}
	if all {
		bs, _ := goBytes(b[:n])
		r, k := utf8.DecodeRune(bs)
		return Value{I: uint64(uint32(r))}, k
	}
	if vm.spec > 0 {
		panic(specAbort{"rune"})
	}
	pkg := vm.p.byName["unicode/utf8"]
	if pkg == nil {
		vm.unsupported("unicode/utf8 not loaded")
	}
	fn := vm.p.fn(pkg.Func("DecodeRuneInString"))
	res := vm.callNested(fn, []Value{mkStr(b[:n])}).P.(Tuple)
	return res[0], int(vm.conc(res[1], 64))
}

func (vm *VM) runeToStr(v Value, from *TypeInfo) Value {
	if t, ok := v.P.(*Term); ok {
		if vm.decide(vm.ts.Ult(t, vm.ts.Const(0x80, t.w))) {
			return mkStr([]Value{vm.val(vm.ts.Extract(t, 7, 0))})
		}
		if vm.spec > 0 {
			panic(specAbort{"rune"})
		}
		pkg := vm.p.byName["unicode/utf8"]
		fn := vm.p.fn(pkg.Func("AppendRune"))
		r := vm.resize(v, from, &TypeInfo{k: kInt, w: 32, signed: true})
		res := vm.callNested(fn, []Value{{}, r})
		return mkStr(sliceOf(res))
	}
	return strVal(string(rune(sext(v.I, from.w))))
}

// ---- panics

// goPanic raises a run-time error in the interpreted program.
func (vm *VM) goPanic(msg string) {
	if vm.spec > 0 {
		panic(specAbort{"panic"})
	}
	panic(goPanicSignal{msg: msg})
}

type goPanicSignal struct {
	msg string
	val Value
	has bool
}

// ---- merging of side-effect-free branches

type specFrame struct {
	fn   *Func
	regs []Value
}

const specMaxSteps = 6000

// tryMerge evaluates both arms of a symbolic branch up to the point where
// they join, if neither has side effects, and turns the phis into ITEs.
func (vm *VM) tryMerge(fr *Frame, in *Instr, cond *Term) bool {
	stop := fr.blk.ipdom
	if stop == nil || !in.commaOk {
		return false
	}
	if vm.ex != nil && vm.ex.noMerge {
		return false
	}
	ok := false
	func() {
		vm.spec++
		vm.specSteps = 0
		saved := vm.journalOn
		defer func() {
			vm.spec--
			vm.journalOn = saved
			if r := recover(); r != nil {
				if _, is := r.(specAbort); is {
					return
				}
				panic(r)
			}
		}()
		vals := vm.specBranch(fr.fn, fr.regs, fr.blk, in, cond, stop, 0)
		for i, p := range stop.phis {
			fr.regs[p.dst] = vals[i]
		}
		ok = true
	}()
	if ok {
		fr.blk, fr.pc = stop, 0
	}
	return ok
}

// specBranch evaluates both arms of a branch to stop (nil: to the return) and
// merges the phi values of stop (or the results).
func (vm *VM) specBranch(fn *Func, regs []Value, blk *Block, in *Instr, cond *Term, stop *Block, depth int) []Value {
	if depth > 40 {
		panic(specAbort{"depth"})
	}
	r0 := append([]Value(nil), regs...)
	v0 := vm.specRun(fn, r0, in.succ[0], in.pred[0], stop, depth+1)
	r1 := append([]Value(nil), regs...)
	v1 := vm.specRun(fn, r1, in.succ[1], in.pred[1], stop, depth+1)
	out := make([]Value, len(v0))
	for i := range v0 {
		var t *TypeInfo
		if stop != nil {
			t = fn.phiType(stop, i)
		} else if fn.resN == 1 {
			t = fn.res
		} else {
			t = fn.res.fields[i]
		}
		v, ok := vm.ite(cond, v0[i], v1[i], t)
		if !ok {
			panic(specAbort{"merge"})
		}
		out[i] = v
	}
	return out
}

func (fn *Func) phiType(b *Block, i int) *TypeInfo {
	n := 0
	for _, in := range fn.ssa.Blocks[b.idx].Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if n == i {
				return typeInfo(ph.Type())
			}
			n++
		} else {
			break
		}
	}
	return nil
}

func get(fn *Func, regs []Value, o int32) Value {
	if o >= 0 {
		return regs[o]
	}
	return fn.consts[-1-o]
}

func (vm *VM) specRun(fn *Func, regs []Value, blk *Block, pred int, stop *Block, depth int) []Value {
	for {
		if blk == stop {
			out := make([]Value, len(blk.phis))
			for i, p := range blk.phis {
				out[i] = get(fn, regs, p.edges[pred])
			}
			return out
		}
		if len(blk.phis) > 0 {
			var tmp [8]Value
			t := tmp[:0]
			for _, p := range blk.phis {
				t = append(t, get(fn, regs, p.edges[pred]))
			}
			for i, p := range blk.phis {
				regs[p.dst] = t[i]
			}
		}
		next := (*Block)(nil)
		for k := range blk.instrs {
			in := &blk.instrs[k]
			vm.specSteps++
			if vm.specSteps > specMaxSteps {
				panic(specAbort{"steps"})
			}
			switch in.op {
			case opJump:
				next, pred = in.succ[0], in.pred[0]
			case opIf:
				c := get(fn, regs, in.a)
				t, ok := c.P.(*Term)
				if ok {
					if kv, known := vm.path.known(vm.ts, t); known {
						c, ok = boolVal(kv), false
					}
				}
				if !ok {
					if c.I != 0 {
						next, pred = in.succ[0], in.pred[0]
					} else {
						next, pred = in.succ[1], in.pred[1]
					}
					break
				}
				join := blk.ipdom
				if join == nil || join == stop {
					return vm.specBranch(fn, regs, blk, in, t, stop, depth)
				}
				vals := vm.specBranch(fn, regs, blk, in, t, join, depth)
				for i, p := range join.phis {
					regs[p.dst] = vals[i]
				}
				// continue after the phis of join
				return vm.specRunFrom(fn, regs, join, stop, depth+1)
			case opReturn:
				if stop != nil {
					panic(specAbort{"return"})
				}
				out := make([]Value, len(in.args))
				for i, a := range in.args {
					out[i] = get(fn, regs, a)
				}
				return out
			case opCall:
				regs[in.dst] = vm.specCall(fn, regs, in, depth)
			case opAlloc, opStore, opMapUpdate, opSend, opSelect, opRange, opNext, opMakeMap, opMakeChan, opMakeSlice,
				opGo, opDefer, opRunDefers, opPanic, opUnsupported, opRecv, opMakeClosure:
				panic(specAbort{"effect"})
			default:
				v := vm.pure(fn, regs, in)
				if in.dst >= 0 {
					regs[in.dst] = v
				}
			}
		}
		if next == nil {
			panic(specAbort{"no successor"})
		}
		blk = next
	}
}

// specRunFrom continues in a block whose phis are already set.
func (vm *VM) specRunFrom(fn *Func, regs []Value, blk *Block, stop *Block, depth int) []Value {
	b := *blk
	b.phis = nil
	nb := &b
	if blk == stop {
		panic(specAbort{"join"})
	}
	// run with a phi-less copy; its successors are the original blocks
	return vm.specRun(fn, regs, nb, 0, stop, depth)
}

func (vm *VM) specCall(fn *Func, regs []Value, in *Instr, depth int) Value {
	cs := in.call
	if depth > 12 {
		panic(specAbort{"call depth"})
	}
	args := make([]Value, 0, len(cs.args)+1)
	var callee *Func
	var bind []Value
	switch {
	case cs.builtin != "":
		switch cs.builtin {
		case "len", "cap", "min", "max", "ssa:wrapnilchk":
			for _, a := range cs.args {
				args = append(args, get(fn, regs, a))
			}
			return vm.builtin(nil, cs, args)
		}
		panic(specAbort{"builtin"})
	case cs.fn != nil:
		callee = cs.fn
	case cs.method != nil:
		rv := get(fn, regs, cs.val)
		i, ok := rv.P.(*Iface)
		if !ok {
			panic(specAbort{"nil iface"})
		}
		callee = vm.p.method(i.t, cs)
		if callee == nil {
			panic(specAbort{"method"})
		}
		args = append(args, i.v)
	default:
		cv, ok := get(fn, regs, cs.val).P.(*Closure)
		if !ok {
			panic(specAbort{"nil func"})
		}
		callee, bind = cv.fn, cv.bind
	}
	for _, a := range cs.args {
		args = append(args, get(fn, regs, a))
	}
	vm.p.compile(callee)
	if callee.redirect != nil {
		callee = callee.redirect
		vm.p.compile(callee)
	}
	if callee.intr != nil {
		if !pureIntrinsics[origName(callee.ssa)] {
			panic(specAbort{"intrinsic"})
		}
		v, st := callee.intr(vm, nil, callee, args)
		if st != intrDone {
			panic(specAbort{"intrinsic"})
		}
		return v
	}
	if callee.stub || callee.nobody || len(callee.blocks) == 0 {
		panic(specAbort{"stub"})
	}
	return vm.specInvoke(callee, args, bind, depth)
}

func (vm *VM) specInvoke(callee *Func, args, bind []Value, depth int) Value {
	vm.prepare(callee)
	nr := make([]Value, callee.nregs)
	copy(nr, args)
	copy(nr[callee.nparams:], bind)
	for _, g := range callee.globals {
		nr[g.reg] = Value{P: vm.global(g.gi)}
	}
	vals := vm.specRun(callee, nr, callee.blocks[0], 0, nil, depth+1)
	switch len(vals) {
	case 0:
		return Value{}
	case 1:
		return vals[0]
	}
	return Value{P: Tuple(vals)}
}
