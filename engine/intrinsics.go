package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int)

const (
	intrDone = iota
	intrBlock
	intrCall
	intrBody // run the function's own body
)

// hooked functions have an intrinsic that may fall back to their body.
var hooked = map[string]bool{}

const (
	modPath  = "github.com/NVIDIA/vdisc"
	vrtPkg   = modPath + "/pkg/zzverif/vrt"
	modelPkg = modPath + "/pkg/zzverif/model"
)

// stubPkgs have no behaviour: their functions return zero values. Logging,
// metrics and tracing only.
var stubPrefixes = []string{
	"go.uber.org/zap", "go.uber.org/multierr", "go.uber.org/atomic",
	"github.com/prometheus/", "github.com/fatih/color", "log", "internal/race", "internal/msan", "internal/asan",
	"runtime/pprof", "runtime/trace", "net/http/httptrace", "internal/godebug", "internal/godebugs", "internal/testlog", "expvar",
	"internal/poll", "internal/sysinfo", "os/signal", "os/user", "os/exec",
}

func isStubPkg(path string) bool {
	for _, p := range stubPrefixes {
		if path == p || strings.HasSuffix(p, "/") && strings.HasPrefix(path, p) || strings.HasPrefix(path, p+"/") {
			return true
		}
	}
	return false
}

// noInitPkg: packages whose initialisers are skipped (run-time support whose
// state the interpreter replaces).
var noInitPkg = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/bytealg": true, "internal/runtime/maps": true,
	"crypto/internal/fips140/check": true, "crypto/internal/fips140deps/godebug": true,
	"internal/abi": true, "sync": true, "internal/sync": true, "time": false, "crypto/internal/entropy": true,
	"golang.org/x/sys/cpu": true, "internal/runtime/atomic": true, "internal/chacha8rand": true, "math/rand/v2": true,
	"crypto/internal/fips140/drbg": true, "crypto/internal/sysrand": true, "crypto/rand": true, "testing": true,
}

// modelFor maps functions to Go models in the model package.
func modelFor(name string) (string, bool) {
	m, ok := models[name]
	return m, ok
}

var models = map[string]string{
	"encoding/binary.Write":           "BinaryWrite",
	"encoding/binary.Read":            "BinaryRead",
	"(*go.uber.org/zap.Logger).Fatal": "ZapFatal",
	"fmt.Sprintf":                     "Sprintf",
	"fmt.Sprint":                      "Sprint",
	"fmt.Sprintln":                    "Sprintln",
	"fmt.Errorf":                      "Errorf",
	"fmt.Fprintf":                     "Fprintf",
	"fmt.Fprintln":                    "Fprintln",
	"fmt.Fprint":                      "Fprint",
	"fmt.Printf":                      "Printf",
	"fmt.Println":                     "Println",
	"fmt.Print":                       "Println",
	"sort.Slice":                      "SortSlice",
	"sort.SliceStable":                "SortSlice",
	"time.After":                      "TimeAfter",
	"time.NewTimer":                   "TimeNewTimer",
	"time.AfterFunc":                  "TimeAfterFunc",
	"(*time.Timer).Stop":              "TimerStop",
	"(*time.Timer).Reset":             "TimerReset",
	"time.NewTicker":                  "TimeNewTicker",
	"(*time.Ticker).Stop":             "TickerStop",
	"time.Tick":                       "TimeTick",
	"errors.As":                       "ErrorsAs",
	"(*sync.Map).Load":                "SyncMapLoad",
	"(*sync.Map).Store":               "SyncMapStore",
	"(*sync.Map).LoadOrStore":         "SyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":       "SyncMapLoadAndDelete",
	"(*sync.Map).Delete":              "SyncMapDelete",
	"(*sync.Map).Range":               "SyncMapRange",
	"(*net/http.Client).Do":           "HTTPClientDo",
	"context.WithValue":               "ContextWithValue",
	"encoding/json.Marshal":           "JSONMarshal",
	"math/rand.Shuffle":               "Shuffle",

	"(*math/rand.Rand).Shuffle":       "RandShuffle",
	"(*net/http.Transport).RoundTrip": "HTTPTransportRoundTrip",

	"github.com/jacobsa/fuse/fuseutil.WriteDirent": "WriteDirent",

	"compress/gzip.NewWriterLevel":  "GzipNewWriterLevel",
	"compress/gzip.NewWriter":       "GzipNewWriter",
	"(*compress/gzip.Writer).Write": "GzipWrite",
	"(*compress/gzip.Writer).Flush": "GzipFlush",
	"(*compress/gzip.Writer).Close": "GzipClose",
	"compress/gzip.NewReader":       "GzipNewReader",
	"(*compress/gzip.Reader).Read":  "GzipRead",
	"(*compress/gzip.Reader).Close": "GzipReaderClose",
}

var pureIntrinsics = map[string]bool{
	"internal/bytealg.Equal": true, "bytes.Equal": true, "strings.EqualFold": false,
	"math.Float64bits": true, "math.Float64frombits": true,
	"math/bits.LeadingZeros64": false,
	"internal/abi.NoEscape":    true,
}

var intrinsics map[string]intrinsic

func reg(name string, f intrinsic) { intrinsics[name] = f }

// pureFn registers an intrinsic that simply computes a value.
func pureFn(name string, f func(vm *VM, args []Value) Value) {
	intrinsics[name] = func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) { return f(vm, args), intrDone }
}

func noop(names ...string) {
	for _, n := range names {
		intrinsics[n] = func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			if fn.res == nil {
				return Value{}, intrDone
			}
			return fn.res.zero(), intrDone
		}
	}
}

func (vm *VM) deref(v Value) *Value {
	p, ok := v.P.(*Value)
	if !ok {
		if v.P == nil {
			vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		vm.unsupported("dereference of %T in intrinsic", v.P)
	}
	return p
}

func (vm *VM) field(v Value, i int) *Value {
	return &vm.deref(v).P.(*Agg).e[i]
}

func init() {
	intrinsics = map[string]intrinsic{}
	regVrt()
	regSync()
	regBytes()
	regRuntime()
}

// ---- harness run-time

func name0(args []Value) string { s, _ := args[0].goStr(); return s }

func regVrt() {
	mk := func(fn string, w uint8) {
		reg(vrtPkg+"."+fn, func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
			return Value{P: vm.ex.newVar(vm, name0(args), w)}, intrDone
		})
	}
	mk("Bool", 0)
	mk("U8", 8)
	mk("U16", 16)
	mk("U32", 32)
	mk("U64", 64)
	mk("I64", 64)
	mk("I32", 32)
	mk("I16", 16)
	mk("I8", 8)
	mk("Int", 64)
	reg(vrtPkg+".Bits", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		n := uint8(args[1].I)
		t := vm.ex.newVar(vm, name0(args), n)
		return Value{P: vm.ts.ZExt(t, 64)}, intrDone
	})
	reg(vrtPkg+".Range", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		lo, hi := int64(args[1].I), int64(args[2].I)
		if args[1].P != nil || args[2].P != nil {
			vm.unsupported("vrt.Range with symbolic bounds")
		}
		if lo == hi {
			return Value{I: uint64(lo)}, intrDone
		}
		span := uint64(hi - lo)
		w := uint8(bits.Len64(span))
		t := vm.ex.newVar(vm, name0(args), w)
		if span != mask(w) {
			vm.ex.assume(vm, vm.ts.Ule(t, vm.ts.Const(span, w)))
		}
		r := vm.ts.Add(vm.ts.ZExt(t, 64), vm.ts.Const(uint64(lo), 64))
		return vm.val(r), intrDone
	})
	reg(vrtPkg+".Choose", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		n := args[1].I
		if n <= 1 {
			return Value{}, intrDone
		}
		w := uint8(bits.Len64(n - 1))
		t := vm.ex.newVar(vm, name0(args), w)
		if n-1 != mask(w) {
			vm.ex.assume(vm, vm.ts.Ult(t, vm.ts.Const(n, w)))
		}
		return Value{I: vm.ex.concretise(vm, t)}, intrDone
	})
	bytesOf := func(vm *VM, args []Value) []Value {
		n := int(vm.conc(args[1], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = Value{P: vm.ex.newVar(vm, name0(args), 8)}
		}
		return b
	}
	pureFn(vrtPkg+".Bytes", func(vm *VM, args []Value) Value { return Value{P: bytesOf(vm, args)} })
	pureFn(vrtPkg+".String", func(vm *VM, args []Value) Value { return mkStr(bytesOf(vm, args)) })
	reg(vrtPkg+".Assume", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		vm.ex.assume(vm, vm.bterm(args[0]))
		return Value{}, intrDone
	})
	reg(vrtPkg+".Assert", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		vm.ex.assert(vm, args[0], vm.constStr(args[1]))
		return Value{}, intrDone
	})
	reg(vrtPkg+".Cover", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		if vm.path != nil {
			vm.path.covers[name0(args)] = true
		}
		return Value{}, intrDone
	})
	reg(vrtPkg+".Observe", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		o := obs{label: name0(args)}
		for _, v := range sliceOf(args[1]) {
			o.vals = append(o.vals, snapshot(v))
		}
		vm.path.obsTerm = append(vm.path.obsTerm, o)
		return Value{}, intrDone
	})
	pureFn(vrtPkg+".Symbolic", func(vm *VM, args []Value) Value { return boolVal(true) })
	pureFn(vrtPkg+".Concretize", func(vm *VM, args []Value) Value { return Value{I: vm.conc(args[0], 64)} })
	pureFn(vrtPkg+".Decide", func(vm *VM, args []Value) Value { return boolVal(vm.truth(args[0])) })
	noop(vrtPkg + ".Register")
	pureFn(vrtPkg+".Param", func(vm *VM, args []Value) Value {
		v := args[1]
		if vm.ex.tier == "thorough" {
			v = args[2]
		}
		vm.ex.mu.Lock()
		vm.ex.params[name0(args)] = int(int64(v.I))
		vm.ex.mu.Unlock()
		return v
	})
	// Setup runs a function without inputs once per worker.
	reg(vrtPkg+".Setup", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		cl, ok := args[0].P.(*Closure)
		if !ok || len(cl.bind) > 0 {
			vm.unsupported("Setup needs a function without captured variables")
		}
		if vm.setups == nil {
			vm.setups = map[*Func]*Value{}
		}
		v, seen := vm.setups[cl.fn]
		if !seen {
			v = vm.setup(cl.fn)
			vm.setups[cl.fn] = v
		}
		if v != nil {
			return *v, intrDone
		}
		return vm.callNested(cl.fn, nil), intrDone
	})
	reg(vrtPkg+".Preempt", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		vm.preempt = int(args[0].I)
		return Value{}, intrDone
	})
	// Ite selects without branching.
	pureFn(vrtPkg+".IteInt", func(vm *VM, args []Value) Value {
		v, _ := vm.ite(vm.bterm(args[0]), args[1], args[2], &TypeInfo{k: kInt, w: 64, signed: true})
		return v
	})
	pureFn(vrtPkg+".IteU8", func(vm *VM, args []Value) Value {
		v, _ := vm.ite(vm.bterm(args[0]), args[1], args[2], &TypeInfo{k: kInt, w: 8})
		return v
	})
	pureFn(vrtPkg+".And", func(vm *VM, args []Value) Value { return vm.and(args[0], args[1]) })
	pureFn(vrtPkg+".Or", func(vm *VM, args []Value) Value {
		return vm.not(vm.and(vm.not(args[0]), vm.not(args[1])))
	})
	pureFn(vrtPkg+".Implies", func(vm *VM, args []Value) Value {
		return vm.not(vm.and(args[0], vm.not(args[1])))
	})
	// EqBytes compares without branching.
	pureFn(vrtPkg+".EqBytes", func(vm *VM, args []Value) Value { return vm.bytesEq(sliceOf(args[0]), sliceOf(args[1])) })
	pureFn(vrtPkg+".EqString", func(vm *VM, args []Value) Value { return vm.strEq(args[0], args[1]) })
	pureIntrinsics[vrtPkg+".And"] = true
	pureIntrinsics[vrtPkg+".Or"] = true
	pureIntrinsics[vrtPkg+".Implies"] = true
	pureIntrinsics[vrtPkg+".EqBytes"] = true
	pureIntrinsics[vrtPkg+".EqString"] = true
	pureIntrinsics[vrtPkg+".IteInt"] = true
	pureIntrinsics[vrtPkg+".IteU8"] = true
	reg(vrtPkg+".Gate", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		if th.pass == "gate" {
			th.pass = ""
			return Value{}, intrDone
		}
		th.gate = name0(args)
		vm.block(th, "gate "+th.gate)
		return Value{}, intrBlock
	})
	reg(vrtPkg+".Settle", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		if th.pass == "settle" {
			th.pass = ""
			return Value{}, intrDone
		}
		vm.block(th, "settle")
		return Value{}, intrBlock
	})
	// Blocked reports the number of other goroutines that have not finished.
	pureFn(vrtPkg+".Others", func(vm *VM, args []Value) Value {
		n := 0
		for _, t := range vm.threads {
			if t != vm.cur && !t.done && !t.asleep {
				n++
			}
		}
		return intVal(n)
	})
	pureFn(vrtPkg+".Scratch", func(vm *VM, args []Value) Value { return Value{P: "/scratch"} })
	pureFn(modelPkg+".schedChoice", func(vm *VM, args []Value) Value { return intVal(vm.ex.choose(vm, int(args[0].I))) })
	hooked["crypto/md5.Sum"] = true
	reg("crypto/md5.Sum", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		in := sliceOf(args[0])
		b := make([]byte, len(in))
		for i, v := range in {
			if v.P != nil {
				return Value{}, intrBody
			}
			b[i] = byte(v.I)
		}
		out := &Agg{e: make([]Value, 16)}
		for i, c := range md5.Sum(b) {
			out.e[i].I = uint64(c)
		}
		return Value{P: out}, intrDone
	})
	pureFn(vrtPkg+".Elapsed", func(vm *VM, args []Value) Value { return Value{I: uint64(vm.now)} })
	reg(vrtPkg+".Stop", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		panic(pathEnd{kind: "exit"})
	})
	// side tables for models
	reg(modelPkg+".sideGet", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		vm.both(th, sideKey(args[1]))
		tab, _ := vm.side["model:"+name0(args)].(map[any]Value)
		v, ok := tab[sideKey(args[1])]
		return Value{P: Tuple{v, boolVal(ok)}}, intrDone
	})
	reg(modelPkg+".sideSet", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		k := "model:" + name0(args)
		vm.both(th, sideKey(args[1]))
		tab, _ := vm.side[k].(map[any]Value)
		if tab == nil {
			tab = map[any]Value{}
			vm.side[k] = tab
		}
		tab[sideKey(args[1])] = args[2]
		return Value{}, intrDone
	})
	// typeName of the dynamic type; kindOf: small classification for models
	pureFn(modelPkg+".kindOf", func(vm *VM, args []Value) Value {
		i, ok := args[0].P.(*Iface)
		if !ok {
			return Value{}
		}
		return intVal(kindCode(i.t))
	})
	pureFn(modelPkg+".typeName", func(vm *VM, args []Value) Value {
		i, ok := args[0].P.(*Iface)
		if !ok {
			return strVal("<nil>")
		}
		return strVal(shortType(i.t))
	})
	pureFn(modelPkg+".asUint64", func(vm *VM, args []Value) Value {
		i := args[0].P.(*Iface)
		if i.t.k == kBool {
			if t, ok := i.v.P.(*Term); ok {
				return vm.val(vm.ts.Ite(t, vm.ts.Const(1, 64), vm.ts.Const(0, 64)))
			}
			return i.v
		}
		return vm.resize(i.v, i.t, &TypeInfo{k: kInt, w: 64})
	})
	pureFn(modelPkg+".bitsOf", func(vm *VM, args []Value) Value {
		i := args[0].P.(*Iface)
		return intVal(int(i.t.w))
	})
	pureFn(modelPkg+".isSigned", func(vm *VM, args []Value) Value {
		i := args[0].P.(*Iface)
		return boolVal(i.t.signed)
	})
	pureFn(modelPkg+".asString", func(vm *VM, args []Value) Value { return args[0].P.(*Iface).v })
	pureFn(modelPkg+".asBytes", func(vm *VM, args []Value) Value {
		i := args[0].P.(*Iface)
		if a, ok := i.v.P.(*Agg); ok {
			return Value{P: append([]Value(nil), a.e...)}
		}
		if p, ok := i.v.P.(*Value); ok {
			return Value{P: p.P.(*Agg).e}
		}
		return i.v
	})
	reg(modelPkg+".unsupported", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		vm.unsupported("model: %s", vm.constStr(args[0]))
		return Value{}, intrDone
	})
	pureFn(modelPkg+".deref", func(vm *VM, args []Value) Value {
		i := args[0].P.(*Iface)
		if i.v.P == nil {
			return Value{}
		}
		return wrapIface(i.t.elem, clone(*vm.deref(i.v)))
	})
	// awsutil.Copy: fields of the same name that are pointers to basic values
	reg("github.com/aws/aws-sdk-go/aws/awsutil.Copy", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		dst, src := args[0].P.(*Iface), args[1].P.(*Iface)
		if dst.t.k != kPtr || src.t.k != kPtr || dst.t.elem.k != kStruct || src.t.elem.k != kStruct {
			vm.unsupported("copying %s", src.t.t)
		}
		from := map[string]int{}
		st := src.t.elem.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			from[st.Field(i).Name()] = i
		}
		dt := dst.t.elem.t.Underlying().(*types.Struct)
		for i := 0; i < dt.NumFields(); i++ {
			k, ok := from[dt.Field(i).Name()]
			if !ok || !dt.Field(i).Exported() {
				continue
			}
			v := vm.deref(src.v).P.(*Agg).e[k]
			ft := src.t.elem.fields[k]
			if !types.Identical(st.Field(k).Type(), dt.Field(i).Type()) {
				if _, ok := st.Field(k).Type().Underlying().(*types.Interface); ok {
					continue
				}
				vm.unsupported("copying field %s", dt.Field(i).Name())
			}
			if ft.k == kPtr && v.P != nil {
				if ft.elem.k == kStruct {
					vm.unsupported("copying field %s", dt.Field(i).Name())
				}
				c := clone(*vm.deref(v))
				v = Value{P: &c}
			}
			vm.assign(&vm.deref(dst.v).P.(*Agg).e[i], v, false)
		}
		return Value{}, intrDone
	})
	pureFn(modelPkg+".jsonName", func(vm *VM, args []Value) Value {
		st := args[0].P.(*Iface).t.t.Underlying().(*types.Struct)
		k := int(args[1].I)
		f := st.Field(k)
		if !f.Exported() {
			return Value{P: ""}
		}
		tag := reflect.StructTag(st.Tag(k)).Get("json")
		if tag == "" {
			return Value{P: f.Name()}
		}
		if tag == "-" {
			return Value{P: ""}
		}
		if i := strings.IndexByte(tag, ','); i >= 0 {
			vm.unsupported("model: json tag %q", tag)
		}
		return Value{P: tag}
	})
	// elems returns the elements of a struct, array, slice or pointer as
	// interface values (pointers to elements when given a pointer)
	reg(modelPkg+".elems", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		i := args[0].P.(*Iface)
		var out []Value
		et := func(t *TypeInfo, k int) *TypeInfo {
			if t.k == kStruct {
				return t.fields[k]
			}
			return t.elem
		}
		switch i.t.k {
		case kStruct, kArray:
			for k, e := range i.v.P.(*Agg).e {
				out = append(out, wrapIface(et(i.t, k), e))
			}
		case kSlice:
			for _, e := range sliceOf(i.v) {
				out = append(out, wrapIface(i.t.elem, e))
			}
		}
		return Value{P: out}, intrDone
	})
	// swap exchanges two elements of a slice held in an interface
	reg(modelPkg+".swap", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		s := sliceOf(args[0].P.(*Iface).v)
		a, b := int(args[1].I), int(args[2].I)
		x, y := clone(s[a]), clone(s[b])
		vm.assign(&s[a], y, false)
		vm.assign(&s[b], x, false)
		return Value{}, intrDone
	})
	pureFn(modelPkg+".sliceLen", func(vm *VM, args []Value) Value { return intVal(len(sliceOf(args[0].P.(*Iface).v))) })
	// storePtr stores an unsigned value through a pointer held in an interface
	reg(modelPkg+".storeUint", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		i := args[0].P.(*Iface)
		p := i.v.P.(*Value)
		t := i.t.elem
		var v Value
		if t.k == kBool {
			v = vm.not(vm.eq(&TypeInfo{k: kInt, w: 64}, args[1], Value{}))
		} else {
			v = vm.resize(args[1], &TypeInfo{k: kInt, w: 64}, t)
		}
		vm.assign(p, v, false)
		return Value{}, intrDone
	})
	// ptrElem describes the pointee: (kind, bits)
	pureFn(modelPkg+".ptrElemBits", func(vm *VM, args []Value) Value {
		i := args[0].P.(*Iface)
		if i.t.k != kPtr || i.t.elem == nil {
			return Value{}
		}
		if i.t.elem.k == kBool {
			return intVal(8)
		}
		if i.t.elem.k != kInt {
			return Value{}
		}
		return intVal(int(i.t.elem.w))
	})
	// ptrElems: pointers to the elements of the aggregate pointed to
	reg(modelPkg+".ptrElems", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		i := args[0].P.(*Iface)
		var out []Value
		switch {
		case i.t.k == kSlice:
			s := sliceOf(i.v)
			for k := range s {
				out = append(out, ptrIface(i.t.elem, &s[k]))
			}
		case i.t.k == kPtr && i.t.elem != nil && (i.t.elem.k == kStruct || i.t.elem.k == kArray):
			a := i.v.P.(*Value).P.(*Agg)
			for k := range a.e {
				t := i.t.elem.elem
				if i.t.elem.k == kStruct {
					t = i.t.elem.fields[k]
				}
				out = append(out, ptrIface(t, &a.e[k]))
			}
		}
		return Value{P: out}, intrDone
	})
	// assignAs implements the core of errors.As: target is a pointer to a type
	// the error can be assigned to
	reg(modelPkg+".assignAs", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) {
		e, ok := args[0].P.(*Iface)
		tg, ok2 := args[1].P.(*Iface)
		if !ok || !ok2 {
			return boolVal(false), intrDone
		}
		et := tg.t.elem
		if et.k == kIface {
			if !vm.p.implements(e.t, et) {
				return boolVal(false), intrDone
			}
			vm.assign(tg.v.P.(*Value), args[0], false)
			return boolVal(true), intrDone
		}
		if e.t != et {
			return boolVal(false), intrDone
		}
		vm.assign(tg.v.P.(*Value), e.v, false)
		return boolVal(true), intrDone
	})
	pureFn(modelPkg+".isConcrete", func(vm *VM, args []Value) Value {
		_, ok := args[0].goStr()
		return boolVal(ok)
	})
	pureFn(modelPkg+".isConcreteInt", func(vm *VM, args []Value) Value { return boolVal(args[0].P == nil) })
	// uitoaConc formats a concrete integer
	pureFn(modelPkg+".fmtUint", func(vm *VM, args []Value) Value {
		base := int(args[1].I)
		if args[2].I != 0 {
			return strVal(strconv.FormatInt(int64(args[0].I), base))
		}
		return strVal(strconv.FormatUint(args[0].I, base))
	})
	pureFn(modelPkg+".fmtFloat", func(vm *VM, args []Value) Value {
		i := args[0].P.(*Iface)
		return strVal(strconv.FormatFloat(math.Float64frombits(i.v.I), byte(args[1].I), int(int64(args[2].I)), 64))
	})
	reg(modelPkg+".sleep", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) { return sleepIntr(vm, th, args[0]) })
	reg("time.Sleep", func(vm *VM, th *Thread, f *Func, args []Value) (Value, int) { return sleepIntr(vm, th, args[0]) })
}

func sleepIntr(vm *VM, th *Thread, d Value) (Value, int) {
	if th.pass == "sleep" {
		th.pass = ""
		return Value{}, intrDone
	}
	n := int64(vm.conc(d, 64))
	if n < 0 {
		n = 0
	}
	th.asleep = true
	th.wakeAt = vm.now + n
	vm.block(th, "sleep")
	return Value{}, intrBlock
}

func sideKey(v Value) any {
	if i, ok := v.P.(*Iface); ok {
		if k, ok := mapKey(i.t, i.v); ok {
			return k
		}
		v = i.v
	}
	switch p := v.P.(type) {
	case *Value, *ChanV, *MapV, string:
		return p
	}
	return v.I
}

func wrapIface(t *TypeInfo, v Value) Value {
	if t.k == kIface {
		return v
	}
	return Value{P: &Iface{t, v}}
}

func ptrIface(t *TypeInfo, p *Value) Value {
	return Value{P: &Iface{ptrTo(t), Value{P: p}}}
}

func snapshot(v Value) Value {
	i, ok := v.P.(*Iface)
	if !ok {
		return v
	}
	c := *i
	switch p := i.v.P.(type) {
	case []Value:
		c.v = Value{P: append([]Value(nil), p...)}
	case *Agg:
		c.v = clone(i.v)
	}
	return Value{P: &c}
}

// renderObs prints an observation under the current model exactly as the
// native run-time does.
func (vm *VM) renderObs(o obs) string {
	var sb strings.Builder
	sb.WriteString(o.label)
	for _, v := range o.vals {
		sb.WriteByte(' ')
		sb.WriteString(vm.renderVal(v))
	}
	return sb.String()
}

func (vm *VM) evalInt(v Value) uint64 {
	if t, ok := v.P.(*Term); ok {
		return vm.ts.Eval(t)
	}
	return v.I
}

func (vm *VM) renderVal(v Value) string {
	i, ok := v.P.(*Iface)
	if !ok {
		return "nil"
	}
	switch i.t.k {
	case kBool:
		return fmt.Sprint(vm.evalInt(i.v) != 0)
	case kInt:
		u := vm.evalInt(i.v)
		if i.t.signed {
			return fmt.Sprint(sext(u, i.t.w))
		}
		return fmt.Sprint(u)
	case kString:
		b := i.v.strBytes()
		out := make([]byte, len(b))
		for k := range b {
			out[k] = byte(vm.evalInt(b[k]))
		}
		return strconv.Quote(string(out))
	case kSlice:
		if i.t.elem.k == kInt && i.t.elem.w == 8 {
			s := sliceOf(i.v)
			out := make([]byte, len(s))
			for k := range s {
				out[k] = byte(vm.evalInt(s[k]))
			}
			return fmt.Sprintf("%x", out)
		}
	}
	return "obj"
}

func kindCode(t *TypeInfo) int {
	switch t.k {
	case kBool:
		return 1
	case kInt:
		if t.signed {
			return 2
		}
		return 3
	case kFloat:
		return 4
	case kString:
		return 5
	case kSlice:
		if t.elem.k == kInt && t.elem.w == 8 {
			return 6
		}
		return 7
	case kPtr:
		return 8
	case kStruct:
		return 9
	case kArray:
		return 10
	case kMap:
		return 11
	}
	return 12
}

func shortType(t *TypeInfo) string {
	s := t.t.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		pre := ""
		for strings.HasPrefix(s, "*") {
			pre += "*"
			s = s[1:]
			i--
		}
		s = pre + s[i+1:]
	}
	return s
}

// constStr is a string needed for reporting only.
func (vm *VM) constStr(v Value) string {
	if s, ok := v.goStr(); ok {
		return s
	}
	b := v.strBytes()
	out := make([]byte, len(b))
	for i := range b {
		out[i] = byte(vm.evalInt(b[i]))
	}
	return string(out)
}

// ---- sync and atomic

func regSync() {
	lock := func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		if vm.visible(th) {
			return Value{}, intrBlock
		}
		if s.locked || s.readers > 0 {
			s.waiters = append(s.waiters, th)
			vm.block(th, "mutex")
			return Value{}, intrBlock
		}
		s.locked = true
		s.owner = th
		vm.acquire(th, s)
		vm.acquire(th, rdKey{s})
		return Value{}, intrDone
	}
	unlock := func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		if !s.locked {
			panic(pathEnd{kind: "panic", msg: "fatal error: sync: unlock of unlocked mutex", pos: vm.where()})
		}
		s.locked = false
		s.owner = nil
		vm.release(th, s)
		w := s.waiters
		s.waiters = nil
		vm.wakeAll(w)
		return Value{}, intrDone
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		if s.locked {
			return boolVal(false), intrDone
		}
		vm.acquire(th, s)
		s.locked = true
		return boolVal(true), intrDone
	})
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		if vm.visible(th) {
			return Value{}, intrBlock
		}
		if s.locked {
			s.waiters = append(s.waiters, th)
			vm.block(th, "rwmutex")
			return Value{}, intrBlock
		}
		s.readers++
		vm.acquire(th, s)
		return Value{}, intrDone
	})
	reg("(*sync.RWMutex).RUnlock", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		if s.readers <= 0 {
			panic(pathEnd{kind: "panic", msg: "fatal error: sync: RUnlock of unlocked RWMutex", pos: vm.where()})
		}
		s.readers--
		vm.release(th, rdKey{s})
		if s.readers == 0 {
			w := s.waiters
			s.waiters = nil
			vm.wakeAll(w)
		}
		return Value{}, intrDone
	})
	reg("(*sync.WaitGroup).Add", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		s.count += int64(vm.conc(args[1], 64))
		vm.release(th, s)
		return wgCheck(vm, s), intrDone
	})
	reg("(*sync.WaitGroup).Done", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		s.count--
		vm.release(th, s)
		return wgCheck(vm, s), intrDone
	})
	reg("(*sync.WaitGroup).Wait", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		if vm.visible(th) {
			return Value{}, intrBlock
		}
		if s.count > 0 {
			s.waiters = append(s.waiters, th)
			vm.block(th, "waitgroup")
			return Value{}, intrBlock
		}
		vm.acquire(th, s)
		return Value{}, intrDone
	})
	// Cond: Wait releases the lock, parks, and re-locks. The locker is the
	// field L (index 1).
	reg("(*sync.Cond).Wait", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		li := vm.condLock(args[0])
		if th.retry == nil {
			// first call: unlock and park
			ls := vm.syncOf(li)
			if !ls.locked {
				panic(pathEnd{kind: "panic", msg: "fatal error: sync: unlock of unlocked mutex", pos: vm.where()})
			}
			ls.locked = false
			vm.release(th, ls)
			w := ls.waiters
			ls.waiters = nil
			vm.wakeAll(w)
			signalled := false
			th.retry = func() bool { return signalled }
			s.waiters = append(s.waiters, th)
			_ = signalled
			th.gate = ""
			vm.block(th, "cond")
			vm.condFlags()[th] = false
			return Value{}, intrBlock
		}
		if !vm.condFlags()[th] {
			vm.block(th, "cond")
			return Value{}, intrBlock
		}
		ls := vm.syncOf(li)
		if ls.locked || ls.readers > 0 {
			ls.waiters = append(ls.waiters, th)
			vm.block(th, "cond relock")
			return Value{}, intrBlock
		}
		ls.locked = true
		vm.acquire(th, ls)
		vm.acquire(th, s)
		th.retry = nil
		delete(vm.condFlags(), th)
		return Value{}, intrDone
	})
	reg("(*sync.Cond).Signal", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		vm.release(th, s)
		if len(s.waiters) > 0 {
			k := 0
			t := s.waiters[k]
			s.waiters = append(s.waiters[:k:k], s.waiters[k+1:]...)
			vm.condFlags()[t] = true
			vm.wake(t)
		}
		return Value{}, intrDone
	})
	reg("(*sync.Cond).Broadcast", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := vm.syncOf(args[0])
		vm.release(th, s)
		for _, t := range s.waiters {
			vm.condFlags()[t] = true
			vm.wake(t)
		}
		s.waiters = nil
		return Value{}, intrDone
	})
	// Pool: Get pops what was Put (most recent first), as a single-P run does.
	reg("(*sync.Pool).Get", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		pools := vm.pools()
		c := vm.deref(args[0])
		vm.acquire(th, c)
		if l := pools[c]; len(l) > 0 {
			v := l[len(l)-1]
			pools[c] = l[:len(l)-1]
			return v, intrDone
		}
		a := c.P.(*Agg)
		nf := a.e[len(a.e)-1]
		if nf.P == nil {
			return Value{}, intrDone
		}
		cl := nf.P.(*Closure)
		return Value{P: &tailCall{fn: cl.fn, bind: cl.bind}}, intrCall
	})
	reg("(*sync.Pool).Put", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		if args[1].P == nil {
			return Value{}, intrDone
		}
		pools := vm.pools()
		c := vm.deref(args[0])
		vm.release(th, c)
		pools[c] = append(pools[c], args[1])
		return Value{}, intrDone
	})
	// atomics
	for _, w := range []struct {
		n string
		t *TypeInfo
	}{{"Int32", &TypeInfo{k: kInt, w: 32, signed: true}}, {"Int64", &TypeInfo{k: kInt, w: 64, signed: true}}, {"Uint32", &TypeInfo{k: kInt, w: 32}}, {"Uint64", &TypeInfo{k: kInt, w: 64}}, {"Uintptr", &TypeInfo{k: kInt, w: 64}}, {"Pointer", &TypeInfo{k: kPtr}}} {
		t := w.t
		vis := func(f intrinsic) intrinsic {
			return func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
				if vm.spec == 0 && vm.visible(th) {
					return Value{}, intrBlock
				}
				if vm.spec > 0 {
					panic(specAbort{"atomic"})
				}
				if c, ok := args[0].P.(*Value); ok {
					vm.acquire(th, c)
					if !strings.Contains(fn.name, ".Load") {
						vm.release(th, c)
					}
				}
				return f(vm, th, fn, args)
			}
		}
		reg("sync/atomic.Load"+w.n, vis(func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			return *vm.deref(args[0]), intrDone
		}))
		reg("sync/atomic.Store"+w.n, vis(func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			vm.set(vm.deref(args[0]), args[1])
			return Value{}, intrDone
		}))
		reg("sync/atomic.Swap"+w.n, vis(func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			p := vm.deref(args[0])
			old := *p
			vm.set(p, args[1])
			return old, intrDone
		}))
		reg("sync/atomic.CompareAndSwap"+w.n, vis(func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			p := vm.deref(args[0])
			if vm.truth(vm.eq(t, *p, args[1])) {
				vm.set(p, args[2])
				return boolVal(true), intrDone
			}
			return boolVal(false), intrDone
		}))
		reg("sync/atomic.Add"+w.n, vis(func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			p := vm.deref(args[0])
			v := vm.intBin(tokADD, t, *p, args[1])
			vm.set(p, v)
			return v, intrDone
		}))
		reg("sync/atomic.And"+w.n, vis(func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			p := vm.deref(args[0])
			old := *p
			vm.set(p, vm.intBin(tokAND, t, old, args[1]))
			return old, intrDone
		}))
		reg("sync/atomic.Or"+w.n, vis(func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			p := vm.deref(args[0])
			old := *p
			vm.set(p, vm.intBin(tokOR, t, old, args[1]))
			return old, intrDone
		}))
	}
	reg("(*sync/atomic.Value).Load", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		vm.acquire(th, vm.field(args[0], 0))
		return *vm.field(args[0], 0), intrDone
	})
	reg("(*sync/atomic.Value).Store", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		vm.both(th, vm.field(args[0], 0))
		vm.set(vm.field(args[0], 0), args[1])
		return Value{}, intrDone
	})
	reg("(*sync/atomic.Value).Swap", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		p := vm.field(args[0], 0)
		vm.both(th, p)
		old := *p
		vm.set(p, args[1])
		return old, intrDone
	})
}

func wgCheck(vm *VM, s *syncState) Value {
	if s.count < 0 {
		vm.goPanic("sync: negative WaitGroup counter")
	}
	if s.count == 0 {
		w := s.waiters
		s.waiters = nil
		vm.wakeAll(w)
	}
	return Value{}
}

func (vm *VM) condFlags() map[*Thread]bool {
	m, _ := vm.side["cond"].(map[*Thread]bool)
	if m == nil {
		m = map[*Thread]bool{}
		vm.side["cond"] = m
	}
	return m
}

// condLock returns the pointer held by the Cond's Locker.
func (vm *VM) condLock(c Value) Value {
	a := vm.deref(c).P.(*Agg)
	for _, e := range a.e {
		if i, ok := e.P.(*Iface); ok {
			return i.v
		}
	}
	vm.unsupported("Cond without locker")
	return Value{}
}

func (vm *VM) pools() map[*Value][]Value {
	m, _ := vm.side["pools"].(map[*Value][]Value)
	if m == nil {
		m = map[*Value][]Value{}
		vm.side["pools"] = m
	}
	return m
}

// ---- bytes and strings

func regBytes() {
	indexByte := func(vm *VM, b []Value, c Value) Value {
		for i := range b {
			if vm.truth(vm.eq(u8T, b[i], c)) {
				return intVal(i)
			}
		}
		return Value{I: math.MaxUint64}
	}
	lastIndexByte := func(vm *VM, b []Value, c Value) Value {
		for i := len(b) - 1; i >= 0; i-- {
			if vm.truth(vm.eq(u8T, b[i], c)) {
				return intVal(i)
			}
		}
		return Value{I: math.MaxUint64}
	}
	bs := func(v Value) []Value {
		switch v.P.(type) {
		case string, *SymStr:
			return v.strBytes()
		}
		return sliceOf(v)
	}
	two := func(names []string, f func(vm *VM, a []Value, x Value) Value) {
		for _, n := range names {
			pureFn(n, func(vm *VM, args []Value) Value { return f(vm, bs(args[0]), args[1]) })
		}
	}
	two([]string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"}, indexByte)
	two([]string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"}, lastIndexByte)
	two([]string{"internal/bytealg.Count", "internal/bytealg.CountString"}, func(vm *VM, b []Value, c Value) Value {
		r := Value{}
		for i := range b {
			e := vm.eq(u8T, b[i], c)
			if e.P == nil {
				r = vm.intBin(tokADD, intT, r, e)
			} else {
				r = vm.intBin(tokADD, intT, r, vm.val(vm.ts.Ite(e.P.(*Term), vm.ts.Const(1, 64), vm.ts.Const(0, 64))))
			}
		}
		return r
	})
	two([]string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"}, func(vm *VM, b []Value, x Value) Value {
		sep := bs(x)
		for i := 0; i+len(sep) <= len(b); i++ {
			if vm.truth(vm.bytesEq(b[i:i+len(sep)], sep)) {
				return intVal(i)
			}
		}
		return Value{I: math.MaxUint64}
	})
	two([]string{"strings.LastIndex", "bytes.LastIndex"}, func(vm *VM, b []Value, x Value) Value {
		sep := bs(x)
		for i := len(b) - len(sep); i >= 0; i-- {
			if vm.truth(vm.bytesEq(b[i:i+len(sep)], sep)) {
				return intVal(i)
			}
		}
		return Value{I: math.MaxUint64}
	})
	pureFn("bytes.Equal", func(vm *VM, args []Value) Value { return vm.bytesEq(sliceOf(args[0]), sliceOf(args[1])) })
	pureFn("internal/bytealg.Equal", func(vm *VM, args []Value) Value { return vm.bytesEq(sliceOf(args[0]), sliceOf(args[1])) })
	cmp := func(vm *VM, args []Value) Value {
		a, b := bs(args[0]), bs(args[1])
		lt := vm.bytesLess(a, b, false)
		eq := vm.bytesEq(a, b)
		one, neg := vm.ts.Const(1, 64), vm.ts.Const(math.MaxUint64, 64)
		return vm.val(vm.ts.Ite(vm.bterm(eq), vm.ts.Const(0, 64), vm.ts.Ite(vm.bterm(lt), neg, one)))
	}
	pureFn("internal/bytealg.Compare", cmp)
	pureFn("internal/bytealg.CompareString", cmp)
	pureFn("bytes.Compare", cmp)
	pureFn("strings.Compare", cmp)
	pureIntrinsics["bytes.Compare"] = true
	pureIntrinsics["strings.Compare"] = true
	pureFn("internal/bytealg.MakeNoZero", func(vm *VM, args []Value) Value {
		n := vm.concInt(args[0])
		return Value{P: make([]Value, n, growCap(0, n, 1))}
	})
	pureFn("strings.Clone", func(vm *VM, args []Value) Value { return args[0] })
	// case mapping of single runes: ASCII as arithmetic, the rest by ranges
	pureFn("unicode.ToUpper", func(vm *VM, args []Value) Value { return vm.runeCase(args[0], true) })
	pureFn("unicode.ToLower", func(vm *VM, args []Value) Value { return vm.runeCase(args[0], false) })
	pureIntrinsics["unicode.ToUpper"] = true
	pureIntrinsics["unicode.ToLower"] = true
	pureFn("unicode.IsPrint", func(vm *VM, args []Value) Value { return vm.runeClass("print", args[0]) })
	pureFn("unicode.IsSpace", func(vm *VM, args []Value) Value { return vm.runeClass("space", args[0]) })
	pureFn("unicode.IsLetter", func(vm *VM, args []Value) Value { return vm.runeClass("letter", args[0]) })
	pureFn("unicode.IsDigit", func(vm *VM, args []Value) Value { return vm.runeClass("digit", args[0]) })
	pureFn("unicode.IsControl", func(vm *VM, args []Value) Value { return vm.runeClass("control", args[0]) })
	pureFn("unicode.IsUpper", func(vm *VM, args []Value) Value { return vm.runeClass("upper", args[0]) })
	pureFn("unicode.IsLower", func(vm *VM, args []Value) Value { return vm.runeClass("lower", args[0]) })
	for _, n := range []string{"IsPrint", "IsSpace", "IsLetter", "IsDigit", "IsControl", "IsUpper", "IsLower"} {
		pureIntrinsics["unicode."+n] = true
	}
	// number formatting of concrete values
	conc := func(name string, f func(vm *VM, args []Value) Value, idx ...int) {
		reg(name, func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			return f(vm, args), intrDone
		})
	}
	conc("strconv.Quote", func(vm *VM, args []Value) Value { return strVal(strconv.Quote(vm.concStr(args[0]))) })
	conc("strconv.FormatFloat", func(vm *VM, args []Value) Value {
		return strVal(strconv.FormatFloat(math.Float64frombits(args[0].I), byte(args[1].I), int(int64(args[2].I)), int(args[3].I)))
	})
	pureFn("math.Float64bits", func(vm *VM, args []Value) Value { return args[0] })
	pureFn("math.Float64frombits", func(vm *VM, args []Value) Value { return Value{I: vm.conc(args[0], 64)} })
	pureFn("math.Float32bits", func(vm *VM, args []Value) Value {
		return Value{I: uint64(math.Float32bits(float32(math.Float64frombits(args[0].I))))}
	})
	pureFn("math.Float32frombits", func(vm *VM, args []Value) Value {
		return Value{I: math.Float64bits(float64(math.Float32frombits(uint32(vm.conc(args[0], 32)))))}
	})
	fl := func(n string, f func(float64) float64) {
		pureFn("math."+n, func(vm *VM, args []Value) Value {
			return Value{I: math.Float64bits(f(math.Float64frombits(args[0].I)))}
		})
	}
	fl("Floor", math.Floor)
	fl("Ceil", math.Ceil)
	fl("Trunc", math.Trunc)
	fl("Sqrt", math.Sqrt)
	fl("Log2", math.Log2)
	fl("Log", math.Log)
	fl("Exp", math.Exp)
	fl("Round", math.Round)
	fl("Abs", math.Abs)
	pureFn("math.Pow", func(vm *VM, args []Value) Value {
		return Value{I: math.Float64bits(math.Pow(math.Float64frombits(args[0].I), math.Float64frombits(args[1].I)))}
	})
	// integer kernels the compiler treats specially
	pureFn("math/bits.Mul64", func(vm *VM, args []Value) Value {
		if args[0].P == nil && args[1].P == nil {
			hi, lo := bits.Mul64(args[0].I, args[1].I)
			return Value{P: Tuple{{I: hi}, {I: lo}}}
		}
		a, b := Value{I: vm.conc(args[0], 64)}, Value{I: vm.conc(args[1], 64)}
		hi, lo := bits.Mul64(a.I, b.I)
		return Value{P: Tuple{{I: hi}, {I: lo}}}
	})
}

var (
	u8T  = &TypeInfo{k: kInt, w: 8}
	intT = &TypeInfo{k: kInt, w: 64, signed: true}
)

// ---- runtime, time, os, reflectlite

const baseUnix = 1577934245 // 2020-01-02T03:04:05Z: the virtual clock's origin

func regRuntime() {
	noop("runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/runtime/atomic.Store", "runtime.AddCleanup", "internal/runtime/sys.Prefetch", "os.runtime_beforeExit", "runtime/debug.SetGCPercent",
		"crypto/internal/fips140only.Enforced", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved",
		"crypto/internal/fips140only.Enabled", "crypto/internal/fips140.CAST", "crypto/internal/boring.Unreachable", "crypto/internal/boring.UnreachableExceptTests",
		"crypto/fips140.Enforced", "crypto/fips140.Enabled", "internal/synctest.IsInBubble", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault",
		"time.runtimeNano", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "internal/synctest.Run", "crypto/subtle.WithDataIndependentTiming", "runtime_registerPoolCleanup", "sync.runtime_registerPoolCleanup",
		"weak.runtime_registerWeakPointer", "internal/cpu.Initialize", "syscall.runtime_envs", "runtime.Callers", "runtime.Caller", "runtime.CallersFrames", "runtime.Stack", "os.runtime_args", "maps.clone", "time.initLocal", "(*reflect.rtype).String", "internal/runtime/sys.GetCallerPC", "runtime.ReadMemStats", "runtime.NumCgoCall", "runtime/debug.FreeOSMemory", "syscall.Getpagesize", "runtime.SetBlockProfileRate", "runtime.SetMutexProfileFraction")
	pureFn("runtime.NumCPU", func(vm *VM, args []Value) Value { return intVal(4) })
	pureFn("runtime.GOMAXPROCS", func(vm *VM, args []Value) Value { return intVal(4) })
	pureFn("runtime.NumGoroutine", func(vm *VM, args []Value) Value { return intVal(len(vm.threads)) })
	pureFn("internal/abi.NoEscape", func(vm *VM, args []Value) Value { return args[0] })
	pureFn("internal/abi.Escape", func(vm *VM, args []Value) Value { return args[0] })
	pureFn("os.Getenv", func(vm *VM, args []Value) Value { return Value{} })
	pureFn("os.LookupEnv", func(vm *VM, args []Value) Value { return Value{P: Tuple{{}, boolVal(false)}} })
	pureFn("syscall.Getenv", func(vm *VM, args []Value) Value { return Value{P: Tuple{{}, boolVal(false)}} })
	pureFn("os.Getpid", func(vm *VM, args []Value) Value { return intVal(4242) })
	pureFn("os.Getpagesize", func(vm *VM, args []Value) Value { return intVal(4096) })
	pureFn("os.Hostname", func(vm *VM, args []Value) Value { return Value{P: Tuple{strVal("verif"), {}}} })
	reg("os.Exit", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) { panic(pathEnd{kind: "exit"}) })
	reg("runtime.Goexit", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		vm.unsupported("runtime.Goexit")
		return Value{}, intrDone
	})
	// time.Now: wall seconds and nanoseconds since the origin; the struct is
	// {wall uint64, ext int64, loc *Location} without monotonic reading.
	pureFn("time.Now", func(vm *VM, args []Value) Value {
		sec := int64(baseUnix) + vm.now/1e9
		ns := vm.now % 1e9
		const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
		return Value{P: &Agg{[]Value{{I: uint64(ns)}, {I: uint64(sec + unixToInternal)}, {}}}}
	})
	pureFn("time.now", func(vm *VM, args []Value) Value {
		return Value{P: Tuple{{I: uint64(int64(baseUnix) + vm.now/1e9)}, {I: uint64(vm.now % 1e9)}, {I: uint64(vm.now)}}}
	})
	pureFn("time.runtimeNow", func(vm *VM, args []Value) Value {
		return Value{P: Tuple{{I: uint64(int64(baseUnix) + vm.now/1e9)}, {I: uint64(vm.now % 1e9)}, {I: uint64(vm.now)}}}
	})
	calendar()
	// math/rand: unspecified values, fresh per call
	rnd := func(name string, w uint8, lim int) {
		reg(name, func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			if vm.path == nil {
				return Value{}, intrDone
			}
			t := vm.ex.newVar(vm, "sched", w)
			if lim >= 0 {
				n := args[lim]
				vm.ex.assume(vm, vm.ts.Slt(t, vm.term(n, w)))
				vm.ex.assume(vm, vm.ts.Sle(vm.ts.Const(0, w), t))
			}
			return Value{P: t}, intrDone
		})
	}
	rnd("math/rand.Intn", 64, 0)
	rnd("math/rand.Int63n", 64, 0)
	rnd("math/rand.Int31n", 32, 0)
	rnd("(*math/rand.Rand).Intn", 64, 1)
	rnd("(*math/rand.Rand).Int63n", 64, 1)
	pureFn("(*math/rand.Rand).Int31n", func(vm *VM, args []Value) Value { return Value{} })
	pureFn("math/rand.Float64", func(vm *VM, args []Value) Value { return Value{I: math.Float64bits(0.5)} })
	pureFn("math/rand.Uint32", func(vm *VM, args []Value) Value { return Value{I: 4} })
	pureFn("math/rand.Int63", func(vm *VM, args []Value) Value { return Value{I: 4} })
	pureFn("math/rand.NewSource", func(vm *VM, args []Value) Value { return Value{} })
	pureFn("math/rand.New", func(vm *VM, args []Value) Value {
		z := Value{}
		return Value{P: &z}
	})
	noop("math/rand.Seed", "os.NewFile", "os.runtime_args", "os.runtime_beforeExit", "runtime.Version", "os.Getpagesize", "os.Getpid", "syscall.runtime_entersyscall", "syscall.runtime_exitsyscall")
	reg("crypto/rand.Read", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		s := sliceOf(args[0])
		n, _ := vm.side["rand"].(int)
		for i := range s {
			n++
			vm.set(&s[i], Value{I: uint64(byte(n*37 + 11))})
		}
		vm.side["rand"] = n
		return Value{P: Tuple{intVal(len(s)), {}}}, intrDone
	})
	// reflectlite / errors
	for _, name := range []string{"internal/reflectlite.TypeOf", "reflect.TypeOf"} {
		reg(name, func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			if args[0].P == nil {
				return Value{}, intrDone
			}
			return Value{P: &Iface{rtypeTI, Value{P: args[0].P.(*Iface).t}}}, intrDone
		})
	}
	// errors.Is uses reflectlite only to ask whether the target is comparable
	reg("errors.Is", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		f := vm.p.byName[modelPkg].Func("ErrorsIs")
		cmp := true
		if i, ok := args[1].P.(*Iface); ok {
			cmp = comparable(i.t)
		}
		return Value{P: &tailCall{fn: vm.p.fn(f), args: []Value{args[0], args[1], boolVal(cmp)}}}, intrCall
	})
	pureFn("internal/runtime/syscall/linux.Syscall6", func(vm *VM, args []Value) Value {
		if vm.initing == 0 {
			vm.unsupported("system call %d", args[0].I)
		}
		return Value{P: Tuple{{I: ^uint64(0)}, {}, {I: 2}}}
	})
	pureFn("reflect.DeepEqual", func(vm *VM, args []Value) Value { return vm.deepEqual(args[0], args[1], 0) })
	pureFn("internal/godebug.New", func(vm *VM, args []Value) Value {
		z := Value{P: &Agg{make([]Value, 4)}}
		return Value{P: &z}
	})
	pureFn("hash/maphash.runtime_rand", func(vm *VM, args []Value) Value { return Value{I: 7} })
}

// deepEqual follows reflect.DeepEqual on interface values.
func (vm *VM) deepEqual(a, b Value, d int) Value {
	x, ok1 := a.P.(*Iface)
	y, ok2 := b.P.(*Iface)
	if !ok1 || !ok2 {
		return boolVal(ok1 == ok2)
	}
	if x.t != y.t {
		return boolVal(false)
	}
	return vm.deepEq(x.t, x.v, y.v, d)
}

func (vm *VM) deepEq(t *TypeInfo, a, b Value, d int) Value {
	if d > 50 {
		vm.unsupported("DeepEqual depth")
	}
	switch t.k {
	case kSlice:
		x, y := sliceOf(a), sliceOf(b)
		if (a.P == nil) != (b.P == nil) || len(x) != len(y) {
			return boolVal(false)
		}
		r := boolVal(true)
		for i := range x {
			r = vm.and(r, vm.deepEq(t.elem, x[i], y[i], d+1))
		}
		return r
	case kArray:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := boolVal(true)
		for i := range x.e {
			r = vm.and(r, vm.deepEq(t.elem, x.e[i], y.e[i], d+1))
		}
		return r
	case kStruct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := boolVal(true)
		for i, f := range t.fields {
			r = vm.and(r, vm.deepEq(f, x.e[i], y.e[i], d+1))
		}
		return r
	case kPtr:
		p, ok1 := a.P.(*Value)
		q, ok2 := b.P.(*Value)
		if !ok1 || !ok2 {
			return boolVal(ok1 == ok2)
		}
		if p == q {
			return boolVal(true)
		}
		return vm.deepEq(t.elem, *p, *q, d+1)
	case kIface:
		return vm.deepEqual(a, b, d+1)
	case kMap:
		vm.unsupported("DeepEqual of maps")
	case kFunc:
		return boolVal(a.P == nil && b.P == nil)
	}
	return vm.eq(t, a, b)
}

// describePanic renders a panic value for reports.
func (vm *VM) describePanic(v Value) string {
	i, ok := v.P.(*Iface)
	if !ok {
		return "panic(nil)"
	}
	switch i.t.k {
	case kString:
		return vm.constStr(i.v)
	case kInt:
		return fmt.Sprint(vm.evalInt(i.v))
	case kStruct:
		if a, ok := i.v.P.(*Agg); ok && len(a.e) == 1 {
			if s, ok := a.e[0].P.(string); ok {
				return s
			}
		}
	case kPtr:
		if p, ok := i.v.P.(*Value); ok {
			if a, ok := p.P.(*Agg); ok && len(a.e) >= 1 {
				if s, ok := a.e[0].P.(string); ok {
					return s
				}
			}
		}
	}
	return "panic(" + shortType(i.t) + ")"
}

var sortedIntr []string

func intrinsicNames() []string {
	if sortedIntr == nil {
		for n := range intrinsics {
			sortedIntr = append(sortedIntr, n)
		}
		sort.Strings(sortedIntr)
	}
	return sortedIntr
}

// civil is a calendar date and time of day.
type civil [6]Value

// calendar makes the calendar functions of package time invert time.Date: the
// fields of an instant made from symbolic fields are those fields, instead of
// being computed back from the number of seconds.
func calendar() {
	hook := func(name string, in intrinsic) {
		reg(name, in)
		hooked[name] = true
	}
	lim := [6][2]uint64{{0, 9999}, {1, 12}, {1, 31}, {0, 23}, {0, 59}, {0, 59}}
	hook("time.Date", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		if vm.path == nil || vm.side["civil:busy"] != nil {
			return Value{}, intrBody
		}
		sym := false
		for i := 0; i < 6; i++ {
			if _, ok := args[i].P.(*Term); ok {
				sym = true
			}
		}
		if !sym {
			return Value{}, intrBody
		}
		ts := vm.ts
		ok := ts.Bool(true)
		for i := 0; i < 6; i++ {
			t := vm.term(args[i], 64)
			ok = ts.And(ok, ts.And(ts.Sle(ts.Const(lim[i][0], 64), t), ts.Sle(t, ts.Const(lim[i][1], 64))))
		}
		y, m, d := vm.term(args[0], 64), vm.term(args[1], 64), vm.term(args[2], 64)
		// the day exists in its month
		c := func(n uint64) *Term { return ts.Const(n, 64) }
		short := ts.Or(ts.Or(ts.Eq(m, c(4)), ts.Eq(m, c(6))), ts.Or(ts.Eq(m, c(9)), ts.Eq(m, c(11))))
		leap := ts.And(ts.Eq(ts.URem(y, c(4)), c(0)), ts.Or(ts.Not(ts.Eq(ts.URem(y, c(100)), c(0))), ts.Eq(ts.URem(y, c(400)), c(0))))
		feb := ts.Eq(m, c(2))
		ok = ts.And(ok, ts.Or(ts.Not(short), ts.Ule(d, c(30))))
		ok = ts.And(ok, ts.Or(ts.Not(feb), ts.Or(ts.Ule(d, c(28)), ts.And(leap, ts.Ule(d, c(29))))))
		loc, _ := args[7].P.(*Value)
		utc := loc != nil && vm.isUTC(loc)
		if !utc || !vm.decide(ok) {
			return Value{}, intrBody
		}
		var cv civil
		copy(cv[:], args)
		vm.side["civil:busy"] = true
		v := vm.callNested(fn, args)
		delete(vm.side, "civil:busy")
		if ext, ok := v.P.(*Agg).e[1].P.(*Term); ok {
			tab, _ := vm.side["civil"].(map[*Term]civil)
			if tab == nil {
				tab = map[*Term]civil{}
				vm.side["civil"] = tab
			}
			tab[ext] = cv
		}
		return v, intrDone
	})
	get := func(vm *VM, t Value) (civil, bool) {
		a, ok := t.P.(*Agg)
		if !ok {
			return civil{}, false
		}
		ext, ok := a.e[1].P.(*Term)
		if !ok {
			return civil{}, false
		}
		if loc, ok := a.e[2].P.(*Value); ok && loc != nil && !vm.isUTC(loc) {
			return civil{}, false
		}
		tab, _ := vm.side["civil"].(map[*Term]civil)
		c, ok := tab[ext]
		return c, ok
	}
	for i, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second"} {
		i := i
		hook("(time.Time)."+n, func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
			if c, ok := get(vm, args[0]); ok {
				return c[i], intrDone
			}
			return Value{}, intrBody
		})
	}
	hook("(time.Time).Date", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		if c, ok := get(vm, args[0]); ok {
			return Value{P: Tuple{c[0], c[1], c[2]}}, intrDone
		}
		return Value{}, intrBody
	})
	hook("(time.Time).Clock", func(vm *VM, th *Thread, fn *Func, args []Value) (Value, int) {
		if c, ok := get(vm, args[0]); ok {
			return Value{P: Tuple{c[3], c[4], c[5]}}, intrDone
		}
		return Value{}, intrBody
	})
}

// isUTC reports whether loc is the variable behind time.UTC.
func (vm *VM) isUTC(loc *Value) bool {
	pk := vm.p.byName["time"]
	if pk == nil {
		return false
	}
	g, _ := pk.Members["utcLoc"].(*ssa.Global)
	return g != nil && vm.global(vm.p.globalIndex(g)) == loc
}
