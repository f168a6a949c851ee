package main

import (
	"fmt"
	"math"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type strIter struct {
	s   Value
	pos int
}

type mapIter struct {
	m   *MapV
	pos int
}

// pure executes an instruction that has no effect beyond its result.
func (vm *VM) pure(fn *Func, regs []Value, in *Instr) Value {
	switch in.op {
	case opIntBin:
		return vm.intBin(in.tok, in.t2, get(fn, regs, in.a), get(fn, regs, in.b))
	case opIntCmp:
		return vm.intCmp(in.tok, in.t2, get(fn, regs, in.a), get(fn, regs, in.b))
	case opShift:
		return vm.shift(in.tok, in.t2, in.aux.(*TypeInfo), get(fn, regs, in.a), get(fn, regs, in.b))
	case opFloatBin:
		return vm.floatBin(in.tok, in.t2, get(fn, regs, in.a), get(fn, regs, in.b))
	case opFloatCmp:
		return vm.floatCmp(in.tok, get(fn, regs, in.a), get(fn, regs, in.b))
	case opComplexBin:
		vm.unsupported("complex arithmetic")
	case opStrAdd:
		return strConcat(get(fn, regs, in.a), get(fn, regs, in.b))
	case opStrCmp:
		a, b := get(fn, regs, in.a), get(fn, regs, in.b)
		return vm.strCmp(in, a, b)
	case opEq:
		r := vm.eq(in.t2, get(fn, regs, in.a), get(fn, regs, in.b))
		if in.tok.String() == "!=" {
			return vm.not(r)
		}
		return r
	case opBoolNot:
		return vm.not(get(fn, regs, in.a))
	case opNeg:
		v := get(fn, regs, in.a)
		switch in.t.k {
		case kInt:
			if v.P == nil {
				return Value{I: (-v.I) & mask(in.t.w)}
			}
			return vm.val(vm.ts.Neg(vm.term(v, in.t.w)))
		case kFloat:
			return Value{I: math.Float64bits(-math.Float64frombits(v.I))}
		}
		vm.unsupported("negation of %s", in.t.t)
	case opCompl:
		v := get(fn, regs, in.a)
		if v.P == nil {
			return Value{I: (^v.I) & mask(in.t.w)}
		}
		return vm.val(vm.ts.BNot(vm.term(v, in.t.w)))
	case opLoad:
		if vm.race != nil && vm.watching() {
			if q, ok := get(fn, regs, in.a).P.(*Value); ok {
				vm.raceCell(q, false)
			}
		}
		return vm.load(get(fn, regs, in.a), in.t)
	case opMove:
		return get(fn, regs, in.a)
	case opConvert:
		return vm.convert(get(fn, regs, in.a), in.t2, in.t)
	case opMakeIface:
		return Value{P: &Iface{in.t2, get(fn, regs, in.a)}}
	case opSlice:
		return vm.slice(fn, regs, in)
	case opFieldAddr:
		p := get(fn, regs, in.a)
		switch q := p.P.(type) {
		case *Value:
			a, ok := q.P.(*Agg)
			if !ok || in.n >= len(a.e) {
				vm.unsupported("field address of reinterpreted memory")
			}
			return Value{P: &a.e[in.n]}
		case nil:
			vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		vm.unsupported("field address through %T", p.P)
	case opField:
		return get(fn, regs, in.a).P.(*Agg).e[in.n]
	case opIndexAddr:
		return vm.indexAddr(fn, regs, in)
	case opIndex:
		x, idx := get(fn, regs, in.a), get(fn, regs, in.b)
		if in.t2.k == kString {
			i, sym := vm.index(idx, in.aux.(*TypeInfo), x.strLen())
			if sym != nil {
				return vm.symLoad(x.strBytes(), sym, in.t)
			}
			return x.strAt(i)
		}
		a := x.P.(*Agg)
		i, sym := vm.index(idx, in.aux.(*TypeInfo), len(a.e))
		if sym != nil {
			if scalarT(in.t) {
				return vm.symLoad(a.e, sym, in.t)
			}
			i = int(vm.conc(Value{P: sym}, 64))
		}
		return a.e[i]
	case opLookup:
		x := get(fn, regs, in.a)
		if in.t2.k == kString {
			idx := get(fn, regs, in.b)
			i, sym := vm.index(idx, &TypeInfo{k: kInt, w: 64, signed: true}, x.strLen())
			if sym != nil {
				return vm.symLoad(x.strBytes(), sym, in.t)
			}
			return x.strAt(i)
		}
		var v Value
		ok := boolVal(false)
		if x.P != nil {
			v, ok = vm.mapGet(x.P.(*MapV), get(fn, regs, in.b))
		}
		if ok.P == nil && ok.I == 0 {
			v = in.t2.elem.zero()
		}
		if in.commaOk {
			return Value{P: Tuple{v, ok}}
		}
		return v
	case opTypeAssert:
		return vm.typeAssert(in, get(fn, regs, in.a))
	case opExtract:
		return get(fn, regs, in.a).P.(Tuple)[in.n]
	case opSliceToArrayPtr:
		s := sliceOf(get(fn, regs, in.a))
		n := in.t.elem.n
		if len(s) < n {
			vm.goPanic("runtime error: cannot convert slice to array pointer: length too short")
		}
		if s == nil {
			return Value{}
		}
		return Value{P: &Value{P: &Agg{s[:n:n]}}}
	case opUnsupported:
		vm.unsupported("instruction %v", in.aux)
	}
	vm.unsupported("opcode %d", in.op)
	return Value{}
}

func scalarT(t *TypeInfo) bool { return t.k == kInt || t.k == kBool }

func (vm *VM) strCmp(in *Instr, a, b Value) Value {
	x, ok1 := a.goStr()
	y, ok2 := b.goStr()
	if ok1 && ok2 {
		switch in.tok.String() {
		case "<":
			return boolVal(x < y)
		case "<=":
			return boolVal(x <= y)
		case ">":
			return boolVal(x > y)
		default:
			return boolVal(x >= y)
		}
	}
	p, q := a.strBytes(), b.strBytes()
	switch in.tok.String() {
	case "<":
		return vm.bytesLess(p, q, false)
	case "<=":
		return vm.bytesLess(p, q, true)
	case ">":
		return vm.bytesLess(q, p, false)
	default:
		return vm.bytesLess(q, p, true)
	}
}

// index checks bounds; a symbolic index within bounds is returned as a 64-bit
// term, reduced to a constant when only one value is left.
func (vm *VM) index(v Value, t *TypeInfo, n int) (int, *Term) {
	if v.P == nil {
		i := v.I
		if t.signed {
			i = uint64(sext(v.I, t.w))
		}
		if i >= uint64(n) {
			vm.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i), n))
		}
		return int(i), nil
	}
	tm, ok := v.P.(*Term)
	if !ok {
		vm.unsupported("index %T", v.P)
	}
	if t.signed {
		tm = vm.ts.SExt(tm, 64)
	} else {
		tm = vm.ts.ZExt(tm, 64)
	}
	if !vm.decide(vm.ts.Ult(tm, vm.ts.Const(uint64(n), 64))) {
		vm.goPanic("runtime error: index out of range")
	}
	if tm.isConst() {
		return int(tm.val), nil
	}
	return 0, tm
}

func (vm *VM) indexAddr(fn *Func, regs []Value, in *Instr) Value {
	x, idx := get(fn, regs, in.a), get(fn, regs, in.b)
	var elems []Value
	var et *TypeInfo
	if in.t2.k == kSlice {
		elems = sliceOf(x)
		et = in.t2.elem
	} else {
		switch q := x.P.(type) {
		case *Value:
			a, ok := q.P.(*Agg)
			if !ok {
				vm.unsupported("element address of reinterpreted memory")
			}
			elems = a.e
		case nil:
			vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
		default:
			vm.unsupported("element address through %T", x.P)
		}
		et = in.t2.elem.elem
	}
	i, sym := vm.index(idx, in.aux.(*TypeInfo), len(elems))
	if sym != nil {
		if scalarT(et) && len(elems) <= 4096 {
			return Value{P: &SymPtr{elems, sym}}
		}
		i = int(vm.conc(Value{P: sym}, 64))
	}
	return Value{P: &elems[i]}
}

func (vm *VM) slice(fn *Func, regs []Value, in *Instr) Value {
	x := get(fn, regs, in.a)
	opt := func(o int32) (Value, bool) {
		if o == noReg {
			return Value{}, false
		}
		return get(fn, regs, o), true
	}
	lo, hasLo := opt(in.b)
	hi, hasHi := opt(in.c)
	mx, hasMax := opt(in.d)
	var length, capacity int
	var elems []Value
	isStr := in.t2.k == kString
	switch {
	case isStr:
		length = x.strLen()
		capacity = length
	case in.t2.k == kSlice:
		elems = sliceOf(x)
		length, capacity = len(elems), cap(elems)
	default: // pointer to array
		q, ok := x.P.(*Value)
		if !ok {
			if x.P == nil {
				vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			vm.unsupported("slice of %T", x.P)
		}
		elems = q.P.(*Agg).e
		length, capacity = len(elems), len(elems)
		elems = elems[:length:length]
	}
	l, h, m := 0, length, capacity
	// bounds are checked before any value is fixed, as one condition each
	ts := vm.ts
	if lo.P != nil || hi.P != nil || mx.P != nil {
		mt := ts.Const(uint64(capacity), 64)
		if hasMax {
			t := vm.term(mx, 64)
			if !vm.decide(ts.Ule(t, mt)) {
				vm.goPanic("runtime error: slice bounds out of range")
			}
			mt = t
		}
		ht := ts.Const(uint64(length), 64)
		if hasHi {
			t := vm.term(hi, 64)
			if !vm.decide(ts.Ule(t, mt)) {
				vm.goPanic("runtime error: slice bounds out of range")
			}
			ht = t
		}
		if hasLo {
			t := vm.term(lo, 64)
			if !vm.decide(ts.Ule(t, ht)) {
				vm.goPanic("runtime error: slice bounds out of range")
			}
		}
	}
	if hasMax {
		m = vm.concInt(mx)
	}
	if hasHi {
		h = vm.concInt(hi)
	}
	if hasLo {
		l = vm.concInt(lo)
	}
	if m < 0 || m > capacity || h < 0 || h > m || l < 0 || l > h {
		vm.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, capacity))
	}
	if isStr {
		return strSlice(x, l, h)
	}
	if elems == nil {
		return Value{}
	}
	return Value{P: elems[l:h:m]}
}

func (vm *VM) typeAssert(in *Instr, x Value) Value {
	ok := false
	var v Value
	if x.P != nil {
		i, is := x.P.(*Iface)
		if !is {
			vm.unsupported("type assertion on %T", x.P)
		}
		if in.t2.k == kIface {
			if vm.p.implements(i.t, in.t2) {
				ok, v = true, x
			}
		} else if i.t == in.t2 {
			ok, v = true, i.v
		}
	}
	if in.commaOk {
		if !ok {
			v = in.t2.zero()
		}
		return Value{P: Tuple{v, boolVal(ok)}}
	}
	if !ok {
		d := "nil"
		if x.P != nil {
			d = x.P.(*Iface).t.t.String()
		}
		vm.goPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.t2.t))
	}
	return v
}

// ---- maps

// mapFind returns the entry index for a key (-1: absent).
func (vm *VM) mapFind(m *MapV, k Value) int {
	kt := m.t.key
	key, conc := mapKey(kt, k)
	if !conc && vm.mapKeySymbolicOnlyByTerm(kt, k) {
		// symbolic: scan in insertion order
		for i := range m.ent {
			if !m.ent[i].alive {
				continue
			}
			if vm.truth(vm.eq(kt, m.ent[i].k, k)) {
				return i
			}
		}
		return -1
	}
	if !conc {
		if kt.k == kIface || kt.k == kStruct || kt.k == kArray || kt.k == kString {
			for i := range m.ent {
				if m.ent[i].alive && vm.truth(vm.eq(kt, m.ent[i].k, k)) {
					return i
				}
			}
			return -1
		}
		vm.unsupported("map key of type %s", kt.t)
	}
	if i, ok := m.idx[key]; ok {
		return i
	}
	if m.nsym > 0 {
		for i := range m.ent {
			if m.ent[i].alive && !m.ent[i].conc {
				if vm.truth(vm.eq(kt, m.ent[i].k, k)) {
					return i
				}
			}
		}
	}
	return -1
}

func (vm *VM) mapKeySymbolicOnlyByTerm(t *TypeInfo, k Value) bool {
	_, ok := k.P.(*Term)
	return ok
}

func (vm *VM) mapGet(m *MapV, k Value) (Value, Value) {
	if m != nil && vm.race != nil && vm.spec == 0 && vm.watching() {
		vm.raceAccess(m, false)
	}
	// symbolic integer key, scalar elements under concrete keys: one ITE instead of a fork per entry
	if t, ok := k.P.(*Term); ok && m.t.elem.k == kStruct && len(m.t.elem.fields) == 0 && len(m.ent) <= 256 {
		found := vm.ts.F
		for i := range m.ent {
			if m.ent[i].alive {
				found = vm.ts.Or(found, vm.ts.Eq(t, vm.term(m.ent[i].k, m.t.key.w)))
			}
		}
		return m.t.elem.zero(), vm.val(found)
	}
	if t, ok := k.P.(*Term); ok && scalarT(m.t.elem) && m.nsym == 0 && len(m.ent) <= 64 {
		w := m.t.elem.w
		if m.t.elem.k == kBool {
			w = 0
		}
		r := vm.ts.Const(0, w)
		found := vm.ts.F
		kw := m.t.key.w
		for i := range m.ent {
			if !m.ent[i].alive {
				continue
			}
			c := vm.ts.Eq(t, vm.term(m.ent[i].k, kw))
			var ev *Term
			if w == 0 {
				ev = vm.bterm(m.ent[i].v)
			} else {
				ev = vm.term(m.ent[i].v, w)
			}
			r = vm.ts.Ite(c, ev, r)
			found = vm.ts.Or(found, c)
		}
		return vm.val(r), vm.val(found)
	}
	i := vm.mapFind(m, k)
	if i < 0 {
		return Value{}, boolVal(false)
	}
	return m.ent[i].v, boolVal(true)
}

func (vm *VM) touchMap(m *MapV) {
	if !vm.journalOn {
		return
	}
	owned, _ := vm.side["maps"].(map[*MapV]bool)
	if owned == nil {
		owned = map[*MapV]bool{}
		vm.side["maps"] = owned
	}
	if owned[m] {
		return
	}
	owned[m] = true
	saved := *m.cloneMap()
	vm.journal = append(vm.journal, undo{f: func() { *m = saved }})
}

func (vm *VM) newMap(t *TypeInfo) *MapV {
	m := newMap(t)
	if vm.journalOn {
		owned, _ := vm.side["maps"].(map[*MapV]bool)
		if owned == nil {
			owned = map[*MapV]bool{}
			vm.side["maps"] = owned
		}
		owned[m] = true
	}
	return m
}

func (vm *VM) mapSet(m *MapV, k, v Value) {
	if m != nil && vm.race != nil && vm.spec == 0 && vm.watching() {
		vm.raceAccess(m, true)
	}
	vm.touchMap(m)
	i := vm.mapFind(m, k)
	if i >= 0 {
		m.ent[i].v = v
		return
	}
	key, conc := mapKey(m.t.key, k)
	m.ent = append(m.ent, mapEnt{k: k, v: v, alive: true, conc: conc, key: key})
	if conc {
		m.idx[key] = len(m.ent) - 1
	} else {
		m.nsym++
	}
	m.live++
}

func (vm *VM) mapDelete(m *MapV, k Value) {
	if m != nil && vm.race != nil && vm.spec == 0 && vm.watching() {
		vm.raceAccess(m, true)
	}
	vm.touchMap(m)
	i := vm.mapFind(m, k)
	if i < 0 {
		return
	}
	if m.ent[i].conc {
		delete(m.idx, m.ent[i].key)
	} else {
		m.nsym--
	}
	m.ent[i].alive = false
	m.ent[i].v = Value{}
	m.live--
}

// ---- functions

func (vm *VM) global(i int) *Value {
	for i >= len(vm.globals) {
		vm.globals = append(vm.globals, nil)
	}
	if vm.globals[i] == nil {
		vm.p.mu.Lock()
		g := vm.p.globals[i]
		vm.p.mu.Unlock()
		v := typeInfo(g.Type()).elem.zero()
		vm.globals[i] = &v
	}
	return vm.globals[i]
}

// prepare makes sure the packages whose variables fn refers to are initialised.
func (vm *VM) prepare(fn *Func) {
	for fn.id >= len(vm.ready) {
		vm.ready = append(vm.ready, make([]bool, fn.id+256-len(vm.ready))...)
	}
	if vm.ready[fn.id] {
		return
	}
	vm.ready[fn.id] = true
	vm.funcsUsed[fn] = true
	for _, pk := range fn.pkgs {
		vm.initPkg(pk)
	}
}

// initPkg runs a package's initialiser, outside of any path.
func (vm *VM) initPkg(pk *ssa.Package) {
	if vm.pkgInit[pk] != 0 {
		return
	}
	vm.pkgInit[pk] = 1
	if isStubPkg(pk.Pkg.Path()) || noInitPkg[pk.Pkg.Path()] {
		return
	}
	vm.p.buildPkg(pk)
	initFn := pk.Func("init")
	if initFn == nil {
		return
	}
	spec, jo := vm.spec, vm.journalOn
	steps := vm.steps
	path := vm.path
	vm.spec, vm.journalOn, vm.path = 0, false, nil
	vm.initing++
	defer func() {
		vm.spec, vm.journalOn, vm.path = spec, jo, path
		vm.initing--
		vm.steps = steps
	}()
	fn := vm.p.fn(initFn)
	vm.callNestedNewThread(fn, nil)
}

// setup runs fn outside the path, so that its effects stay. It gives nil if
// that fails.
func (vm *VM) setup(fn *Func) (res *Value) {
	spec, jo, path, steps, cur := vm.spec, vm.journalOn, vm.path, vm.steps, vm.cur
	vm.spec, vm.journalOn, vm.path = 0, false, nil
	vm.cur = &Thread{id: -1, system: true}
	defer func() {
		vm.spec, vm.journalOn, vm.path, vm.steps, vm.cur = spec, jo, path, steps, cur
		if r := recover(); r != nil {
			res = nil
		}
	}()
	v := vm.callNested(fn, nil)
	return &v
}

// callNestedNewThread runs fn to completion on a thread of its own.
func (vm *VM) callNestedNewThread(fn *Func, args []Value) {
	saved := vm.cur
	th := &Thread{id: -1, system: true}
	vm.cur = th
	defer func() { vm.cur = saved }()
	vm.callNested(fn, args)
}

// callNested runs fn(args) to completion on the current thread. The callee
// must not block.
func (vm *VM) callNested(fn *Func, args []Value) Value {
	th := vm.cur
	base := th.top
	depth := th.depth
	done, v := vm.invoke(th, fn, args, nil, noReg, nil)
	if done {
		return v
	}
	th.top.nested = true
	nf := th.top
	vm.exec(th, base)
	th.depth = depth
	if th.blocked != "" {
		vm.unsupported("blocking operation inside a nested call")
	}
	return nf.retVal
}

// invoke starts a call. It reports done=true with the value when the call
// completed immediately (intrinsics, stubs); otherwise a frame was pushed.
func (vm *VM) invoke(th *Thread, fn *Func, args, bind []Value, dst int32, deferOf *Frame) (bool, Value) {
	vm.p.compile(fn)
	if fn.redirect != nil {
		fn = fn.redirect
		vm.p.compile(fn)
	}
	if fn.intr != nil {
		v, st := fn.intr(vm, th, fn, args)
		if st == intrBlock {
			return true, blockedMark
		}
		if st == intrCall {
			// the intrinsic asks to call a closure instead
			t := v.P.(*tailCall)
			return vm.invoke(th, t.fn, t.args, t.bind, dst, deferOf)
		}
		if st != intrBody {
			return true, v
		}
	}
	if fn.stub {
		if fn.res == nil {
			return true, Value{}
		}
		return true, vm.stubResult(fn)
	}
	if fn.nobody {
		vm.unsupported("function without body: %s", fn.name)
	}
	if fn.ssa.Synthetic == "package initializer" && fn.ssa.Pkg != nil && vm.initing > 0 && vm.pkgInit[fn.ssa.Pkg] == 0 {
		// imports are initialised on demand
		return true, Value{}
	}
	if fn.ssa.Synthetic == "package initializer" && th.top != nil {
		return true, Value{}
	}
	vm.prepare(fn)
	if th.depth > vm.maxDepth {
		panic(pathEnd{kind: "budget", msg: "call depth exceeded (unbounded recursion?)", pos: vm.where()})
	}
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs), blk: fn.blocks[0], caller: th.top, retDst: dst, deferOf: deferOf}
	copy(fr.regs, args)
	if len(bind) > 0 {
		copy(fr.regs[fn.nparams:], bind)
	}
	for _, g := range fn.globals {
		fr.regs[g.reg] = Value{P: vm.global(g.gi)}
	}
	if vm.race != nil {
		fr.race = fn.race == raceRepo || fn.race == raceLib && th.top != nil && th.top.race
	}
	th.top = fr
	th.depth++
	return false, Value{}
}

type tailCall struct {
	fn   *Func
	args []Value
	bind []Value
}

type blockedT struct{}

var blockedMark = Value{P: &blockedT{}}

// stubResult is the value returned by a stubbed-out function: the zero value,
// except that constructors returning pointers return a fresh zero object.
func (vm *VM) stubResult(fn *Func) Value {
	mk := func(t *TypeInfo) Value {
		if t.k == kPtr && t.elem != nil && t.elem.k == kStruct {
			z := t.elem.zero()
			return Value{P: &z}
		}
		return t.zero()
	}
	if fn.resN == 1 {
		return mk(fn.res)
	}
	t := make(Tuple, fn.resN)
	for i, f := range fn.res.fields {
		t[i] = mk(f)
	}
	return Value{P: t}
}

// resolve finds the callee of a call site.
func (vm *VM) resolve(fr *Frame, cs *callSite) (fn *Func, args, bind []Value, skip bool) {
	args = make([]Value, 0, len(cs.args)+1)
	switch {
	case cs.fn != nil:
		fn = cs.fn
	case cs.method != nil:
		rv := get(fr.fn, fr.regs, cs.val)
		if rv.P == nil {
			if cs.ifaceT.stub {
				return nil, nil, nil, true
			}
			vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		i := rv.P.(*Iface)
		if i.t == rtypeTI && vm.initing > 0 {
			// type descriptors prepared by library initialisers
			return nil, nil, nil, true
		}
		fn = vm.p.method(i.t, cs)
		if fn == nil {
			vm.unsupported("method %s of %s not found", cs.mkey, i.t.t)
		}
		args = append(args, i.v)
	default:
		cv := get(fr.fn, fr.regs, cs.val)
		if cv.P == nil {
			vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		c, ok := cv.P.(*Closure)
		if !ok {
			vm.unsupported("call of %T", cv.P)
		}
		fn, bind = c.fn, c.bind
	}
	for _, a := range cs.args {
		args = append(args, get(fr.fn, fr.regs, a))
	}
	return
}

// exec runs th until it blocks, finishes, or returns to frame base.
func (vm *VM) exec(th *Thread, base *Frame) {
	for {
		if vm.execProtected(th, base) {
			return
		}
	}
}

// execProtected runs the loop and turns Go-level panic signals into panics of
// the interpreted program. It reports whether the loop is finished.
func (vm *VM) execProtected(th *Thread, base *Frame) (finished bool) {
	defer func() {
		if r := recover(); r != nil {
			sig, ok := r.(goPanicSignal)
			if !ok {
				panic(r)
			}
			if vm.spec > 0 {
				panic(specAbort{"panic"})
			}
			vm.raise(th, base, sig)
			finished = false
		}
	}()
	vm.loop(th, base)
	return true
}

// raise begins unwinding with a run-time error or explicit panic value.
func (vm *VM) raise(th *Thread, base *Frame, sig goPanicSignal) {
	p := &panicking{msg: sig.msg, val: sig.val}
	if !sig.has {
		p.val = vm.runtimeError(sig.msg)
	}
	if p.msg == "" {
		p.msg = vm.describePanic(p.val)
	}
	vm.unwindFrom(th, base, p)
}

func (vm *VM) unwindFrom(th *Thread, base *Frame, p *panicking) {
	where := vm.where()
	for {
		f := th.top
		if f == base || f == nil {
			if base != nil || th.system {
				if base == nil {
					panic(pathEnd{kind: "unsupported", msg: "panic in initialiser: " + p.msg, pos: where})
				}
				// propagate out of the nested interpreter into the enclosing one
				panic(goPanicSignal{msg: p.msg, val: p.val, has: true})
			}
			panic(pathEnd{kind: "panic", msg: p.msg, pos: where})
		}
		f.unwind = p
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if vm.runDeferred(th, f, d) {
				// completed immediately (intrinsic)
				continue
			}
			return // the pushed frame runs; its return resumes unwinding
		}
		th.top = f.caller
		th.depth--
		if f.nested {
			th.top = base
			panic(goPanicSignal{msg: p.msg, val: p.val, has: true})
		}
	}
}

// runDeferred starts a deferred call; true when it completed at once.
func (vm *VM) runDeferred(th *Thread, f *Frame, d deferred) bool {
	if d.bi != "" {
		vm.builtin(th, d.cs, d.args)
		return true
	}
	var bind []Value
	args := d.args
	if len(args) > 0 {
		if b, ok := args[len(args)-1].P.(*bindMark); ok {
			bind = b.bind
			args = args[:len(args)-1]
		}
	}
	done, v := vm.invoke(th, d.fn, args, bind, noReg, f)
	if done && v == blockedMark {
		f.defers = append(f.defers, d)
		vm.unsupported("deferred call blocks")
	}
	return done
}

type bindMark struct{ bind []Value }

// loop is the main interpreter loop.
func (vm *VM) loop(th *Thread, base *Frame) {
	fr := th.top
	for {
		if fr == nil || fr == base {
			return
		}
		in := &fr.blk.instrs[fr.pc]
		vm.steps++
		if vm.steps > vm.maxSteps {
			panic(pathEnd{kind: "budget", msg: "instruction budget exceeded", pos: vm.where()})
		}
		switch in.op {
		case opJump:
			vm.jump(fr, in.succ[0], in.pred[0])
			continue
		case opIf:
			c := get(fr.fn, fr.regs, in.a)
			if t, ok := c.P.(*Term); ok {
				if kv, known := vm.path.known(vm.ts, t); known {
					c = boolVal(kv)
				} else if in.commaOk && vm.tryMerge(fr, in, t) {
					continue
				} else {
					c = boolVal(vm.ex.decide(vm, t))
				}
			}
			if c.I != 0 {
				vm.jump(fr, in.succ[0], in.pred[0])
			} else {
				vm.jump(fr, in.succ[1], in.pred[1])
			}
			continue
		case opAlloc:
			z := in.t2.zero()
			fr.regs[in.dst] = Value{P: &z}
		case opStore:
			if vm.race != nil && vm.spec == 0 && !in.commaOk && vm.watching() {
				if q, ok := get(fr.fn, fr.regs, in.a).P.(*Value); ok {
					vm.raceCell(q, true)
				}
			}
			vm.store(get(fr.fn, fr.regs, in.a), get(fr.fn, fr.regs, in.b), in.commaOk)
		case opCall:
			cs := in.call
			if cs.builtin != "" {
				args := make([]Value, len(cs.args))
				for i, a := range cs.args {
					args[i] = get(fr.fn, fr.regs, a)
				}
				fr.regs[in.dst] = vm.builtin(th, cs, args)
				break
			}
			fn, args, bind, skip := vm.resolve(fr, cs)
			if skip {
				fr.regs[in.dst] = cs.res.zero()
				break
			}
			if v, ok := vm.tryPureCall(fn, args, bind); ok {
				fr.regs[in.dst] = v
				break
			}
			done, v := vm.invoke(th, fn, args, bind, in.dst, nil)
			if done {
				if v == blockedMark {
					return
				}
				fr.regs[in.dst] = v
				if th.top != fr { // the intrinsic switched frames
					fr = th.top
				}
				break
			}
			fr.pc++
			fr = th.top
			continue
		case opReturn:
			var rv Value
			switch len(in.args) {
			case 0:
			case 1:
				rv = get(fr.fn, fr.regs, in.args[0])
			default:
				t := make(Tuple, len(in.args))
				for i, a := range in.args {
					t[i] = get(fr.fn, fr.regs, a)
				}
				rv = Value{P: t}
			}
			th.top = fr.caller
			th.depth--
			if fr.nested {
				fr.retVal = rv
				return
			}
			caller := fr.caller
			if fr.deferOf != nil {
				// resume the frame that is running its defers
				f := fr.deferOf
				if f.unwind != nil {
					p := f.unwind
					if p.recovered {
						f.unwind = nil
						if p.goexit {
							vm.unsupported("recovered Goexit")
						}
						vm.resumeRecovered(th, f)
						fr = th.top
						continue
					}
					vm.unwindFrom(th, base, p)
					fr = th.top
					continue
				}
				fr = th.top
				continue
			}
			if caller == nil {
				th.result = rv
				return
			}
			if fr.retDst != noReg {
				caller.regs[fr.retDst] = rv
			}
			fr = caller
			continue
		case opRunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				if vm.runDeferred(th, fr, d) {
					continue
				}
				fr = th.top
				continue
			}
		case opDefer:
			cs := in.call
			d := deferred{cs: cs}
			if cs.builtin != "" {
				d.bi = cs.builtin
				for _, a := range cs.args {
					d.args = append(d.args, get(fr.fn, fr.regs, a))
				}
			} else {
				fn, args, bind, skip := vm.resolve(fr, cs)
				if skip {
					break
				}
				d.fn = fn
				d.args = args
				if len(bind) > 0 {
					d.args = append(d.args, Value{P: &bindMark{bind}})
				}
			}
			target := fr
			if in.a != noReg {
				if ds, ok := get(fr.fn, fr.regs, in.a).P.(*Frame); ok {
					target = ds
				}
			}
			target.defers = append(target.defers, d)
		case opGo:
			cs := in.call
			if cs.builtin != "" {
				vm.unsupported("go with builtin")
			}
			fn, args, bind, skip := vm.resolve(fr, cs)
			if !skip {
				vm.spawn(fn, args, bind)
			}
			fr.pc++
			if vm.visible(th) {
				return
			}
			continue
		case opPanic:
			v := get(fr.fn, fr.regs, in.a)
			panic(goPanicSignal{val: v, has: true})
		case opMakeClosure:
			c := &Closure{fn: in.aux.(*Func)}
			for _, a := range in.args {
				c.bind = append(c.bind, get(fr.fn, fr.regs, a))
			}
			fr.regs[in.dst] = Value{P: c}
		case opMakeMap:
			fr.regs[in.dst] = Value{P: vm.newMap(in.t)}
		case opMakeChan:
			n := vm.concInt(get(fr.fn, fr.regs, in.a))
			fr.regs[in.dst] = Value{P: &ChanV{cap: n, elem: in.t.elem}}
		case opMakeSlice:
			fr.regs[in.dst] = vm.makeSlice(in, get(fr.fn, fr.regs, in.a), get(fr.fn, fr.regs, in.b))
		case opMapUpdate:
			m := get(fr.fn, fr.regs, in.a)
			if m.P == nil {
				vm.goPanic("assignment to entry in nil map")
			}
			vm.mapSet(m.P.(*MapV), get(fr.fn, fr.regs, in.b), get(fr.fn, fr.regs, in.c))
		case opRange:
			x := get(fr.fn, fr.regs, in.a)
			if in.t2.k == kString {
				fr.regs[in.dst] = Value{P: &strIter{s: x}}
			} else {
				it := &mapIter{}
				if x.P != nil {
					it.m = x.P.(*MapV)
				}
				fr.regs[in.dst] = Value{P: it}
			}
		case opNext:
			fr.regs[in.dst] = vm.next(get(fr.fn, fr.regs, in.a), in)
		case opSend, opRecv, opSelect:
			if vm.visible(th) {
				return
			}
			if !vm.chanOp(th, fr, in) {
				return
			}
		case opNop:
		default:
			v := vm.pure(fr.fn, fr.regs, in)
			if in.dst >= 0 {
				fr.regs[in.dst] = v
			}
		}
		fr.pc++
	}
}

// tryPureCall evaluates a call of a pure function on symbolic arguments as
// one term.
func (vm *VM) tryPureCall(fn *Func, args, bind []Value) (res Value, ok bool) {
	sym := false
	for _, a := range args {
		if _, is := a.P.(*Term); is {
			sym = true
			break
		}
	}
	if !sym || len(bind) > 0 || vm.ex == nil || vm.ex.noMerge || !vm.p.isPure(fn, 0) || fn.intr != nil {
		return Value{}, false
	}
	if len(fn.blocks) < 2 {
		return Value{}, false
	}
	vm.spec++
	vm.specSteps = 0
	saved := vm.journalOn
	defer func() {
		vm.spec--
		vm.journalOn = saved
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				res, ok = Value{}, false
				return
			}
			panic(r)
		}
	}()
	v := vm.specInvoke(fn, args, nil, 0)
	return v, true
}

func (vm *VM) resumeRecovered(th *Thread, f *Frame) {
	// run remaining defers, then return the named results
	if f.fn.recover_ == nil {
		// no named results: return zero values
		for len(f.defers) > 0 {
			vm.unsupported("remaining defers after recover without recover block")
		}
		th.top = f.caller
		th.depth--
		var rv Value
		if f.fn.res != nil {
			rv = f.fn.res.zero()
		}
		if f.nested {
			vm.unsupported("recover in nested frame")
		}
		if f.caller != nil && f.retDst != noReg {
			f.caller.regs[f.retDst] = rv
		}
		if f.caller == nil {
			th.result = rv
		}
		return
	}
	f.blk, f.pc = f.fn.recover_, 0
	th.top = f
}

func (vm *VM) jump(fr *Frame, to *Block, pred int) {
	if n := len(to.phis); n > 0 {
		if n == 1 {
			fr.regs[to.phis[0].dst] = get(fr.fn, fr.regs, to.phis[0].edges[pred])
		} else {
			var tmp [8]Value
			t := tmp[:0]
			for i := range to.phis {
				t = append(t, get(fr.fn, fr.regs, to.phis[i].edges[pred]))
			}
			for i := range to.phis {
				fr.regs[to.phis[i].dst] = t[i]
			}
		}
	}
	fr.blk, fr.pc = to, 0
}

const maxAlloc = 1 << 24

func (vm *VM) makeSlice(in *Instr, lv, cv Value) Value {
	ts := vm.ts
	for _, v := range []Value{lv, cv} {
		if t, ok := v.P.(*Term); ok {
			// makeslice panics for absurd sizes; beyond the bound the path is cut
			if !vm.decide(ts.Ult(t, ts.Const(1<<40, 64))) {
				vm.goPanic("runtime error: makeslice: len out of range")
			}
		}
	}
	n, c := vm.concInt(lv), vm.concInt(cv)
	if n < 0 || uint64(n) > 1<<40 {
		vm.goPanic("runtime error: makeslice: len out of range")
	}
	if c < n || uint64(c) > 1<<40 {
		vm.goPanic("runtime error: makeslice: cap out of range")
	}
	if c > maxAlloc {
		panic(pathEnd{kind: "budget", msg: fmt.Sprintf("allocation of %d elements", c), pos: vm.where()})
	}
	s := make([]Value, n, c)
	et := in.t.elem
	if et.isAgg() || et.k == kComplex {
		full := s[:c]
		for i := range full {
			full[i] = et.zero()
		}
	}
	return Value{P: s}
}

func (vm *VM) next(it Value, in *Instr) Value {
	switch i := it.P.(type) {
	case *strIter:
		if i.pos >= i.s.strLen() {
			return Value{P: Tuple{boolVal(false), {}, {}}}
		}
		r, n := vm.decodeRune(i.s, i.pos)
		k := i.pos
		i.pos += n
		return Value{P: Tuple{boolVal(true), intVal(k), r}}
	case *mapIter:
		if i.m != nil {
			if vm.race != nil && vm.spec == 0 && vm.watching() {
				vm.raceAccess(i.m, false)
			}
			for i.pos < len(i.m.ent) {
				e := &i.m.ent[i.pos]
				i.pos++
				if e.alive {
					return Value{P: Tuple{boolVal(true), e.k, e.v}}
				}
			}
		}
		kt, vt := Value{}, Value{}
		if in.t.k == kTuple {
			kt, vt = in.t.fields[1].zero(), in.t.fields[2].zero()
		}
		return Value{P: Tuple{boolVal(false), kt, vt}}
	}
	vm.unsupported("range over %T", it.P)
	return Value{}
}

// ---- builtins

func (vm *VM) builtin(th *Thread, cs *callSite, args []Value) Value {
	switch cs.builtin {
	case "len":
		v := args[0]
		switch cs.argT[0].k {
		case kString:
			return intVal(v.strLen())
		case kSlice:
			return intVal(len(sliceOf(v)))
		case kMap:
			if v.P == nil {
				return Value{}
			}
			return intVal(v.P.(*MapV).live)
		case kChan:
			if v.P == nil {
				return Value{}
			}
			return intVal(len(v.P.(*ChanV).buf))
		case kArray:
			return intVal(cs.argT[0].n)
		case kPtr:
			return intVal(cs.argT[0].elem.n)
		}
	case "cap":
		v := args[0]
		switch cs.argT[0].k {
		case kSlice:
			return intVal(cap(sliceOf(v)))
		case kChan:
			if v.P == nil {
				return Value{}
			}
			return intVal(v.P.(*ChanV).cap)
		case kArray:
			return intVal(cs.argT[0].n)
		case kPtr:
			return intVal(cs.argT[0].elem.n)
		}
	case "append":
		return vm.appendSlice(cs, args)
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if cs.argT[1].k == kString {
			src = args[1].strBytes()
		} else {
			src = sliceOf(args[1])
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if vm.race != nil && vm.spec == 0 && vm.watching() {
			vm.raceSlice(src[:n], false)
			vm.raceSlice(dst[:n], true)
		}
		vm.copyElems(dst[:n], src[:n])
		return intVal(n)
	case "delete":
		if args[0].P != nil {
			vm.mapDelete(args[0].P.(*MapV), args[1])
		}
		return Value{}
	case "clear":
		switch cs.argT[0].k {
		case kMap:
			if args[0].P != nil {
				m := args[0].P.(*MapV)
				vm.touchMap(m)
				m.ent, m.idx, m.nsym, m.live = nil, map[any]int{}, 0, 0
			}
		case kSlice:
			s := sliceOf(args[0])
			z := cs.argT[0].elem
			for i := range s {
				vm.assign(&s[i], z.zero(), false)
			}
		}
		return Value{}
	case "close":
		vm.closeChan(args[0])
		return Value{}
	case "panic":
		panic(goPanicSignal{val: args[0], has: true})
	case "recover":
		f := th.top
		if f.deferOf != nil && f.deferOf.unwind != nil && !f.deferOf.unwind.recovered {
			f.deferOf.unwind.recovered = true
			return f.deferOf.unwind.val
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		t := cs.argT[0]
		for _, a := range args[1:] {
			r = vm.minmax(cs.builtin == "min", t, r, a)
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return Value{P: th.top}
	case "String": // unsafe.String
		n := vm.concInt(args[1])
		if n == 0 {
			return Value{}
		}
		p, ok := args[0].P.(*Value)
		if !ok {
			vm.unsupported("unsafe.String of %T", args[0].P)
		}
		return mkStr(unsafe.Slice(p, n))
	case "Slice":
		n := vm.concInt(args[1])
		if args[0].P == nil {
			return Value{}
		}
		p, ok := args[0].P.(*Value)
		if !ok {
			vm.unsupported("unsafe.Slice of %T", args[0].P)
		}
		return Value{P: unsafe.Slice(p, n)}
	case "SliceData":
		s := sliceOf(args[0])
		if cap(s) == 0 {
			return Value{}
		}
		return Value{P: &s[:1][0]}
	case "StringData":
		b := args[0].strBytes()
		if len(b) == 0 {
			return Value{}
		}
		c := append([]Value(nil), b...)
		return Value{P: &c[0]}
	case "complex", "real", "imag":
		vm.unsupported("complex numbers")
	}
	vm.unsupported("builtin %s", cs.builtin)
	return Value{}
}

func (vm *VM) minmax(min bool, t *TypeInfo, a, b Value) Value {
	switch t.k {
	case kInt:
		tok := tokLSS
		lt := vm.intCmp(tok, t, b, a) // b < a
		if !min {
			lt = vm.intCmp(tok, t, a, b)
		}
		if lt.P == nil {
			if lt.I != 0 {
				return b
			}
			return a
		}
		v, _ := vm.ite(lt.P.(*Term), b, a, t)
		return v
	case kFloat:
		x, y := math.Float64frombits(a.I), math.Float64frombits(b.I)
		if min {
			return Value{I: math.Float64bits(math.Min(x, y))}
		}
		return Value{I: math.Float64bits(math.Max(x, y))}
	}
	vm.unsupported("min/max on %s", t.t)
	return Value{}
}

func (vm *VM) copyElems(dst, src []Value) {
	n := len(dst)
	if n == 0 {
		return
	}
	if _, agg := src[0].P.(*Agg); agg {
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = clone(src[i])
		}
		for i := range tmp {
			vm.assign(&dst[i], tmp[i], false)
		}
		return
	}
	if vm.journalOn {
		for i := range dst {
			vm.journal = append(vm.journal, undo{p: &dst[i], old: dst[i]})
		}
	}
	copy(dst, src)
}

func (vm *VM) appendSlice(cs *callSite, args []Value) Value {
	s := sliceOf(args[0])
	var add []Value
	if len(args) > 1 {
		if cs.argT[1].k == kString {
			add = args[1].strBytes()
		} else {
			add = sliceOf(args[1])
		}
	}
	if len(add) == 0 {
		return args[0]
	}
	n := len(s) + len(add)
	et := cs.argT[0].elem
	if n > maxAlloc {
		panic(pathEnd{kind: "budget", msg: "append beyond allocation bound", pos: vm.where()})
	}
	if vm.race != nil && vm.spec == 0 && vm.watching() {
		vm.raceSlice(add, false)
		if n <= cap(s) {
			vm.raceSlice(s[len(s):n], true)
		} else {
			vm.raceSlice(s, false)
		}
	}
	if n <= cap(s) {
		r := s[:n]
		vm.copyElems(r[len(s):], add)
		return Value{P: r}
	}
	c := growCap(cap(s), n, et.sizeof())
	if c < n {
		c = n
	}
	r := make([]Value, n, c)
	if et.isAgg() {
		full := r[:c]
		for i := range full {
			switch {
			case i < len(s):
				full[i] = clone(s[i])
			case i < n:
				full[i] = clone(add[i-len(s)])
			default:
				full[i] = et.zero()
			}
		}
	} else {
		copy(r, s)
		copy(r[len(s):], add)
	}
	return Value{P: r}
}
