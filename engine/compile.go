package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	opNop opcode = iota
	opAlloc
	opIntBin
	opIntCmp
	opShift
	opFloatBin
	opFloatCmp
	opComplexBin
	opStrAdd
	opStrCmp
	opEq
	opBoolNot
	opNeg
	opCompl
	opLoad
	opRecv
	opMove
	opConvert
	opMakeIface
	opMakeClosure
	opMakeMap
	opMakeChan
	opMakeSlice
	opSlice
	opFieldAddr
	opField
	opIndexAddr
	opIndex
	opLookup
	opStore
	opMapUpdate
	opSend
	opSelect
	opRange
	opNext
	opTypeAssert
	opExtract
	opSliceToArrayPtr
	opCall
	opGo
	opDefer
	opRunDefers
	opPanic
	opReturn
	opJump
	opIf
	opUnsupported
)

// Instr is one compiled SSA instruction. Operands are registers (>=0) or
// constants (<0, index -1-x).
type Instr struct {
	op      opcode
	tok     token.Token
	commaOk bool
	dst     int32
	a, b, c int32
	d       int32
	n       int
	t       *TypeInfo // result type
	t2      *TypeInfo // operand type
	args    []int32
	call    *callSite
	aux     any
	succ    [2]*Block
	pred    [2]int
	pos     token.Pos
}

const noReg = math.MinInt32

type callSite struct {
	fn      *Func       // static callee
	builtin string      // builtin name
	method  *types.Func // interface method
	mkey    string      // method lookup key
	ifaceT  *TypeInfo   // static interface type
	val     int32       // callee or receiver operand
	args    []int32     // arguments (without the receiver for invoke)
	argT    []*TypeInfo // types of arguments
	res     *TypeInfo   // result type
	sig     *types.Signature
}

type phi struct {
	dst   int32
	edges []int32
}

type Block struct {
	idx    int
	phis   []phi
	instrs []Instr
	// immediate post-dominator, when a symbolic branch can be merged
	ipdom *Block
}

type globalRef struct {
	reg int32
	g   *ssa.Global
	gi  int
}

// Func is a compiled function, shared by all workers.
type Func struct {
	id       int
	ssa      *ssa.Function
	name     string
	once     sync.Once
	nparams  int
	nregs    int
	blocks   []*Block
	consts   []Value
	globals  []globalRef
	pkgs     []*ssa.Package
	recover_ *Block
	res      *TypeInfo
	resN     int
	intr     intrinsic
	redirect *Func
	stub     bool
	nobody   bool
	pkgPath  string
	pure     int32 // purity cache: 0 unknown, 1 pure, 2 impure
	instrs   int
	bitIdx   int
	race     uint8
}

type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	mu      sync.Mutex
	funcs   map[*ssa.Function]*Func
	list    []*Func
	gidx    map[*ssa.Global]int
	globals []*ssa.Global
	methods map[methodKey]*Func
	impl    map[implKey]bool
	built   map[*ssa.Package]bool
	bmu     sync.Mutex
	imu     sync.RWMutex
	byName  map[string]*ssa.Package
}

type methodKey struct {
	t    *TypeInfo
	name string
}

type implKey struct{ t, i *TypeInfo }

func (p *Program) fn(f *ssa.Function) *Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fn, ok := p.funcs[f]; ok {
		return fn
	}
	fn := &Func{id: len(p.list), ssa: f, name: f.String()}
	if f.Pkg != nil {
		fn.pkgPath = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		fn.pkgPath = o.Pkg.Pkg.Path()
	} else if obj := f.Object(); obj != nil && obj.Pkg() != nil {
		fn.pkgPath = obj.Pkg().Path()
	} else if pf := f.Parent(); pf != nil {
		for pf.Parent() != nil {
			pf = pf.Parent()
		}
		if pf.Pkg != nil {
			fn.pkgPath = pf.Pkg.Pkg.Path()
		} else if o := pf.Origin(); o != nil && o.Pkg != nil {
			fn.pkgPath = o.Pkg.Pkg.Path()
		}
	}
	p.funcs[f] = fn
	p.list = append(p.list, fn)
	return fn
}

// ensureBuilt builds the SSA of the package that declares f.
func (p *Program) ensureBuilt(f *ssa.Function) {
	pkg := f.Pkg
	if pkg == nil {
		if o := f.Origin(); o != nil {
			pkg = o.Pkg
		}
	}
	if pkg != nil {
		p.buildPkg(pkg)
	}
}

func (p *Program) buildPkg(pkg *ssa.Package) {
	p.bmu.Lock()
	defer p.bmu.Unlock()
	if !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.globals)
	p.gidx[g] = i
	p.globals = append(p.globals, g)
	return i
}

// origName is the name intrinsics and models are looked up by: instances of
// generic functions use the name of their origin.
func origName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (p *Program) compile(fn *Func) {
	fn.once.Do(func() { p.doCompile(fn) })
}

func (p *Program) doCompile(fn *Func) {
	f := fn.ssa
	sig := f.Signature
	fn.nparams = len(f.Params)
	fn.resN = sig.Results().Len()
	switch fn.resN {
	case 0:
	case 1:
		fn.res = typeInfo(sig.Results().At(0).Type())
	default:
		fn.res = typeInfo(sig.Results())
	}
	name := origName(f)
	if in, ok := intrinsics[name]; ok {
		fn.intr = in
		if !hooked[name] {
			return
		}
	}
	if m, ok := modelFor(name); ok {
		pkg := p.byName[modelPkg]
		if pkg != nil {
			p.buildPkg(pkg)
			if mf := pkg.Func(m); mf != nil {
				fn.redirect = p.fn(mf)
				return
			}
		}
		panic(fmt.Sprintf("model %s for %s not found", m, name))
	}
	fn.race = raceClass(fn.pkgPath)
	if fn.race == raceRepo && f.Prog != nil && strings.Contains(f.Prog.Fset.Position(f.Pos()).Filename, "zz_verif_") {
		fn.race = raceNone
	}
	if fn.pkgPath != "" && isStubPkg(fn.pkgPath) {
		fn.stub = true
		return
	}
	p.ensureBuilt(f)
	if f.Blocks == nil {
		fn.nobody = true
		return
	}
	c := &compiler{p: p, fn: fn, regs: map[ssa.Value]int32{}, constIdx: map[ssa.Value]int32{}, gregs: map[*ssa.Global]int32{}, pkgs: map[*ssa.Package]bool{}}
	for _, prm := range f.Params {
		c.newReg(prm)
	}
	for _, fv := range f.FreeVars {
		c.newReg(fv)
	}
	for _, b := range f.Blocks {
		fn.blocks = append(fn.blocks, &Block{idx: b.Index})
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.newReg(v)
			}
		}
	}
	if f.Recover != nil {
		fn.recover_ = fn.blocks[f.Recover.Index]
	}
	for i, b := range f.Blocks {
		c.block(fn.blocks[i], b)
	}
	fn.nregs = int(c.next)
	for pk := range c.pkgs {
		fn.pkgs = append(fn.pkgs, pk)
	}
	computeIpdom(fn, f)
	for _, b := range fn.blocks {
		if n := len(b.instrs); n > 0 && b.instrs[n-1].op == opIf {
			b.instrs[n-1].commaOk = mergeable(b)
		}
	}
	for _, b := range fn.blocks {
		fn.instrs += len(b.instrs)
	}
}

type compiler struct {
	p        *Program
	fn       *Func
	regs     map[ssa.Value]int32
	constIdx map[ssa.Value]int32
	gregs    map[*ssa.Global]int32
	pkgs     map[*ssa.Package]bool
	next     int32
}

func (c *compiler) newReg(v ssa.Value) int32 {
	r := c.next
	c.next++
	c.regs[v] = r
	return r
}

func (c *compiler) constant(v Value) int32 {
	c.fn.consts = append(c.fn.consts, v)
	return -int32(len(c.fn.consts))
}

func constValue(k *ssa.Const) Value {
	ti := typeInfo(k.Type())
	if k.Value == nil {
		return ti.zero()
	}
	return constOf(ti, k.Value)
}

func constOf(ti *TypeInfo, v constant.Value) Value {
	switch ti.k {
	case kBool:
		return boolVal(constant.BoolVal(v))
	case kInt:
		cv := constant.ToInt(v)
		if i, ok := constant.Int64Val(cv); ok {
			return Value{I: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(cv)
		return Value{I: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(v)
		if ti.f32 {
			f = float64(float32(f))
		}
		return Value{I: math.Float64bits(f)}
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(v))
		im, _ := constant.Float64Val(constant.Imag(v))
		return Value{P: complex(re, im)}
	case kString:
		if v.Kind() == constant.String {
			return strVal(constant.StringVal(v))
		}
		i, _ := constant.Int64Val(v)
		return strVal(string(rune(i)))
	case kPtr:
		if i, ok := constant.Uint64Val(constant.ToInt(v)); ok {
			return Value{I: i}
		}
	}
	panic(fmt.Sprintf("constant of type %s", ti.t))
}

func (c *compiler) operand(v ssa.Value) int32 {
	switch v := v.(type) {
	case nil:
		return noReg
	case *ssa.Const:
		if i, ok := c.constIdx[v]; ok {
			return i
		}
		i := c.constant(constValue(v))
		c.constIdx[v] = i
		return i
	case *ssa.Function:
		if i, ok := c.constIdx[v]; ok {
			return i
		}
		i := c.constant(Value{P: &Closure{fn: c.p.fn(v)}})
		c.constIdx[v] = i
		return i
	case *ssa.Global:
		if r, ok := c.gregs[v]; ok {
			return r
		}
		r := c.next
		c.next++
		c.gregs[v] = r
		c.fn.globals = append(c.fn.globals, globalRef{r, v, c.p.globalIndex(v)})
		if v.Pkg != nil {
			c.pkgs[v.Pkg] = true
		}
		return r
	case *ssa.Builtin:
		return noReg
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, c.fn.name))
	}
	return r
}

func (c *compiler) callSite(cc *ssa.CallCommon, res types.Type) *callSite {
	cs := &callSite{val: noReg, sig: cc.Signature()}
	for _, a := range cc.Args {
		cs.args = append(cs.args, c.operand(a))
		cs.argT = append(cs.argT, typeInfo(a.Type()))
	}
	if res != nil {
		cs.res = typeInfo(res)
	} else {
		r := cc.Signature().Results()
		if r.Len() == 1 {
			cs.res = typeInfo(r.At(0).Type())
		} else {
			cs.res = typeInfo(r)
		}
	}
	if cc.IsInvoke() {
		cs.method = cc.Method
		cs.mkey = methodName(cc.Method)
		cs.val = c.operand(cc.Value)
		cs.ifaceT = typeInfo(cc.Value.Type())
		return cs
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		cs.builtin = v.Name()
	case *ssa.Function:
		cs.fn = c.p.fn(v)
	default:
		cs.val = c.operand(v)
	}
	return cs
}

func methodName(m *types.Func) string {
	if m.Exported() || m.Pkg() == nil {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}

func (c *compiler) block(blk *Block, b *ssa.BasicBlock) {
	succ := func(i int) (*Block, int) {
		s := b.Succs[i]
		// the same block may appear twice among the predecessors
		n := 0
		for j := 0; j < i; j++ {
			if b.Succs[j] == s {
				n++
			}
		}
		for k, p := range s.Preds {
			if p == b {
				if n == 0 {
					return c.fn.blocks[s.Index], k
				}
				n--
			}
		}
		panic("pred not found")
	}
	for _, in := range b.Instrs {
		i := Instr{dst: noReg, a: noReg, b: noReg, c: noReg, d: noReg, pos: in.Pos()}
		if v, ok := in.(ssa.Value); ok {
			i.dst = c.regs[v]
			i.t = typeInfo(v.Type())
		}
		switch in := in.(type) {
		case *ssa.Phi:
			ph := phi{dst: i.dst}
			for _, e := range in.Edges {
				ph.edges = append(ph.edges, c.operand(e))
			}
			blk.phis = append(blk.phis, ph)
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Alloc:
			i.op = opAlloc
			i.t2 = typeInfo(in.Type().Underlying().(*types.Pointer).Elem())
		case *ssa.BinOp:
			i.a, i.b = c.operand(in.X), c.operand(in.Y)
			i.tok = in.Op
			i.t2 = typeInfo(in.X.Type())
			xt := i.t2
			switch in.Op {
			case token.SHL, token.SHR:
				i.op = opShift
				i.aux = typeInfo(in.Y.Type())
			case token.EQL, token.NEQ:
				switch xt.k {
				case kInt:
					i.op = opIntCmp
				case kFloat:
					i.op = opFloatCmp
				default:
					i.op = opEq
					// comparing an interface with a concrete value
					yt := typeInfo(in.Y.Type())
					if xt.k == kIface && yt.k != kIface || yt.k == kIface && xt.k != kIface {
						i.op = opUnsupported
						i.aux = "mixed comparison"
					}
				}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				switch xt.k {
				case kInt:
					i.op = opIntCmp
				case kFloat:
					i.op = opFloatCmp
				case kString:
					i.op = opStrCmp
				}
			default:
				switch xt.k {
				case kInt:
					i.op = opIntBin
				case kFloat:
					i.op = opFloatBin
				case kComplex:
					i.op = opComplexBin
				case kString:
					i.op = opStrAdd
				case kBool:
					i.op = opIntBin
				}
			}
		case *ssa.UnOp:
			i.a = c.operand(in.X)
			i.commaOk = in.CommaOk
			i.t2 = typeInfo(in.X.Type())
			switch in.Op {
			case token.MUL:
				i.op = opLoad
			case token.ARROW:
				i.op = opRecv
			case token.NOT:
				i.op = opBoolNot
			case token.SUB:
				i.op = opNeg
			case token.XOR:
				i.op = opCompl
			}
		case *ssa.ChangeType:
			i.op, i.a = opMove, c.operand(in.X)
		case *ssa.ChangeInterface:
			i.op, i.a = opMove, c.operand(in.X)
		case *ssa.Convert:
			i.op, i.a, i.t2 = opConvert, c.operand(in.X), typeInfo(in.X.Type())
		case *ssa.MultiConvert:
			i.op, i.a, i.t2 = opConvert, c.operand(in.X), typeInfo(in.X.Type())
		case *ssa.SliceToArrayPointer:
			i.op, i.a = opSliceToArrayPtr, c.operand(in.X)
		case *ssa.MakeInterface:
			i.op, i.a, i.t2 = opMakeIface, c.operand(in.X), typeInfo(in.X.Type())
		case *ssa.MakeClosure:
			i.op = opMakeClosure
			i.aux = c.p.fn(in.Fn.(*ssa.Function))
			for _, bnd := range in.Bindings {
				i.args = append(i.args, c.operand(bnd))
			}
		case *ssa.MakeMap:
			i.op = opMakeMap
		case *ssa.MakeChan:
			i.op, i.a = opMakeChan, c.operand(in.Size)
		case *ssa.MakeSlice:
			i.op, i.a, i.b = opMakeSlice, c.operand(in.Len), c.operand(in.Cap)
		case *ssa.Slice:
			i.op, i.a, i.t2 = opSlice, c.operand(in.X), typeInfo(in.X.Type())
			i.b, i.c, i.d = c.operandOpt(in.Low), c.operandOpt(in.High), c.operandOpt(in.Max)
		case *ssa.FieldAddr:
			i.op, i.a, i.n = opFieldAddr, c.operand(in.X), in.Field
		case *ssa.Field:
			i.op, i.a, i.n = opField, c.operand(in.X), in.Field
		case *ssa.IndexAddr:
			i.op, i.a, i.b, i.t2 = opIndexAddr, c.operand(in.X), c.operand(in.Index), typeInfo(in.X.Type())
			i.aux = typeInfo(in.Index.Type())
		case *ssa.Index:
			i.op, i.a, i.b, i.t2 = opIndex, c.operand(in.X), c.operand(in.Index), typeInfo(in.X.Type())
			i.aux = typeInfo(in.Index.Type())
		case *ssa.Lookup:
			i.op, i.a, i.b, i.t2 = opLookup, c.operand(in.X), c.operand(in.Index), typeInfo(in.X.Type())
			i.commaOk = in.CommaOk
		case *ssa.Store:
			i.op, i.a, i.b = opStore, c.operand(in.Addr), c.operand(in.Val)
			i.commaOk = freshAddr(in.Addr)
		case *ssa.MapUpdate:
			i.op, i.a, i.b, i.c = opMapUpdate, c.operand(in.Map), c.operand(in.Key), c.operand(in.Value)
			i.t2 = typeInfo(in.Map.Type())
		case *ssa.Send:
			i.op, i.a, i.b = opSend, c.operand(in.Chan), c.operand(in.X)
		case *ssa.Select:
			i.op = opSelect
			i.commaOk = in.Blocking
			st := make([]selState, 0, len(in.States))
			for _, s := range in.States {
				st = append(st, selState{send: s.Dir == types.SendOnly, ch: c.operand(s.Chan), val: c.operandOpt(s.Send), elem: typeInfo(s.Chan.Type().Underlying().(*types.Chan).Elem())})
			}
			i.aux = st
		case *ssa.Range:
			i.op, i.a, i.t2 = opRange, c.operand(in.X), typeInfo(in.X.Type())
		case *ssa.Next:
			i.op, i.a = opNext, c.operand(in.Iter)
			i.commaOk = in.IsString
		case *ssa.TypeAssert:
			i.op, i.a, i.t2, i.commaOk = opTypeAssert, c.operand(in.X), typeInfo(in.AssertedType), in.CommaOk
		case *ssa.Extract:
			i.op, i.a, i.n = opExtract, c.operand(in.Tuple), in.Index
		case *ssa.Call:
			i.op = opCall
			i.call = c.callSite(&in.Call, in.Type())
		case *ssa.Go:
			i.op = opGo
			i.call = c.callSite(&in.Call, nil)
		case *ssa.Defer:
			i.op = opDefer
			i.call = c.callSite(&in.Call, nil)
			if in.DeferStack != nil {
				i.a = c.operand(in.DeferStack)
			}
		case *ssa.RunDefers:
			i.op = opRunDefers
		case *ssa.Panic:
			i.op, i.a = opPanic, c.operand(in.X)
		case *ssa.Return:
			i.op = opReturn
			for _, r := range in.Results {
				i.args = append(i.args, c.operand(r))
			}
		case *ssa.Jump:
			i.op = opJump
			i.succ[0], i.pred[0] = succ(0)
		case *ssa.If:
			i.op, i.a = opIf, c.operand(in.Cond)
			i.succ[0], i.pred[0] = succ(0)
			i.succ[1], i.pred[1] = succ(1)
		default:
			i.op = opUnsupported
			i.aux = fmt.Sprintf("%T", in)
		}
		blk.instrs = append(blk.instrs, i)
	}
}

func (c *compiler) operandOpt(v ssa.Value) int32 {
	if v == nil {
		return noReg
	}
	return c.operand(v)
}

type selState struct {
	send bool
	ch   int32
	val  int32
	elem *TypeInfo
}

// computeIpdom finds the immediate post-dominator of every block. A virtual
// exit (index n) joins all returns and panics.
func computeIpdom(fn *Func, f *ssa.Function) {
	n := len(f.Blocks)
	succs := make([][]int, n+1)
	preds := make([][]int, n+1)
	for i, b := range f.Blocks {
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
			preds[s.Index] = append(preds[s.Index], i)
		}
		if len(b.Succs) == 0 {
			succs[i] = append(succs[i], n)
			preds[n] = append(preds[n], i)
		}
	}
	// reverse post-order of the reversed graph, from the exit
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, p := range preds[x] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(n)
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	for changed := true; changed; {
		changed = false
		for i := len(order) - 2; i >= 0; i-- {
			x := order[i]
			nd := -1
			for _, s := range succs[x] {
				if num[s] < 0 || idom[s] < 0 {
					continue
				}
				if nd < 0 {
					nd = s
					continue
				}
				a, b := s, nd
				for a != b {
					for num[a] < num[b] {
						a = idom[a]
					}
					for num[b] < num[a] {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd >= 0 && idom[x] != nd {
				idom[x] = nd
				changed = true
			}
		}
	}
	for i := range f.Blocks {
		if d := idom[i]; d >= 0 && d < n {
			fn.blocks[i].ipdom = fn.blocks[d]
		}
	}
}

// method resolves the method of a dynamic type.
func (p *Program) method(t *TypeInfo, cs *callSite) *Func {
	key := methodKey{t, cs.mkey}
	p.imu.RLock()
	fn, ok := p.methods[key]
	p.imu.RUnlock()
	if ok {
		return fn
	}
	var pkg *types.Package
	if !cs.method.Exported() {
		pkg = cs.method.Pkg()
	}
	p.bmu.Lock()
	sel := p.prog.MethodSets.MethodSet(t.t).Lookup(pkg, cs.method.Name())
	var f *ssa.Function
	if sel != nil {
		f = p.prog.MethodValue(sel)
	}
	p.bmu.Unlock()
	if f != nil {
		fn = p.fn(f)
	}
	p.imu.Lock()
	p.methods[key] = fn
	p.imu.Unlock()
	return fn
}

func (p *Program) implements(t, iface *TypeInfo) bool {
	key := implKey{t, iface}
	p.imu.RLock()
	r, ok := p.impl[key]
	p.imu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t.t, iface.t.Underlying().(*types.Interface))
	p.imu.Lock()
	p.impl[key] = r
	p.imu.Unlock()
	return r
}

func shortName(s string) string {
	return strings.ReplaceAll(s, "github.com/NVIDIA/vdisc/", "")
}

// freshAddr reports whether an address certainly belongs to an object that the
// running path itself allocated, so that stores need not be undone.
func freshAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

func effectful(in *Instr) bool {
	switch in.op {
	case opAlloc, opStore, opMapUpdate, opSend, opSelect, opRange, opNext, opMakeMap, opMakeChan, opMakeSlice,
		opGo, opDefer, opRunDefers, opPanic, opUnsupported, opRecv, opMakeClosure, opReturn:
		return true
	case opCall:
		switch in.call.builtin {
		case "", "len", "cap", "min", "max", "ssa:wrapnilchk":
			return false
		}
		return true
	}
	return false
}

// mergeable reports whether the region between a branch and its immediate
// post-dominator is acyclic and free of effects.
func mergeable(b *Block) bool {
	stop := b.ipdom
	if stop == nil || len(stop.phis) == 0 || len(stop.phis) > 8 {
		return false
	}
	state := map[*Block]int{}
	n := 0
	var visit func(x *Block) bool
	visit = func(x *Block) bool {
		if x == stop {
			return true
		}
		if x == b || state[x] == 1 {
			return false
		}
		if state[x] == 2 {
			return true
		}
		n++
		if n > 32 || len(x.phis) > 8 {
			return false
		}
		state[x] = 1
		for i := range x.instrs {
			in := &x.instrs[i]
			if effectful(in) {
				return false
			}
			switch in.op {
			case opJump:
				if !visit(in.succ[0]) {
					return false
				}
			case opIf:
				if !visit(in.succ[0]) || !visit(in.succ[1]) {
					return false
				}
			}
		}
		state[x] = 2
		return true
	}
	last := &b.instrs[len(b.instrs)-1]
	return visit(last.succ[0]) && visit(last.succ[1])
}

// isPure reports whether a function can be evaluated without side effects:
// only reads and arithmetic, returning integers or booleans, with at least one
// branch (otherwise there is nothing to merge).
func (p *Program) isPure(fn *Func, depth int) bool {
	switch atomic.LoadInt32(&fn.pure) {
	case 1:
		return true
	case 2:
		return false
	}
	p.compile(fn)
	r := p.computePure(fn, depth)
	v := int32(2)
	if r {
		v = 1
	}
	atomic.StoreInt32(&fn.pure, v)
	return r
}

func (p *Program) computePure(fn *Func, depth int) bool {
	if fn.intr != nil {
		return pureIntrinsics[origName(fn.ssa)]
	}
	if fn.redirect != nil || fn.stub || fn.nobody || depth > 4 || len(fn.blocks) == 0 || len(fn.blocks) > 60 || fn.res == nil {
		return false
	}
	scalar := func(t *TypeInfo) bool { return t.k == kInt || t.k == kBool }
	if fn.resN == 1 {
		if !scalar(fn.res) {
			return false
		}
	} else {
		for _, f := range fn.res.fields {
			if !scalar(f) {
				return false
			}
		}
	}
	for _, b := range fn.blocks {
		if len(b.phis) > 8 {
			return false
		}
		for i := range b.instrs {
			in := &b.instrs[i]
			if in.op == opReturn {
				continue
			}
			if effectful(in) {
				return false
			}
			if in.op == opCall && in.call.builtin == "" {
				if in.call.fn == nil || in.call.fn == fn || !p.isPure(in.call.fn, depth+1) {
					return false
				}
			}
		}
	}
	return true
}
