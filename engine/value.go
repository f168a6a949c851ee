package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is a machine value of the interpreted program.
//
//	bool, integers   I (zero-extended), or P=*Term when symbolic
//	floats           I = math.Float64bits
//	complex          P = complex128
//	string           P = string or *SymStr; nil is ""
//	pointer          P = *Value (interior pointers are real) or *SymPtr; nil is nil
//	slice            P = []Value; nil is the nil slice
//	array, struct    P = *Agg
//	map              P = *MapV
//	interface        P = *Iface
//	func             P = *Closure
//	chan             P = *ChanV
//	tuple            P = Tuple
type Value struct {
	I uint64
	P any
}

type Agg struct{ e []Value }

type Tuple []Value

type SymStr struct{ b []Value }

type SymPtr struct {
	elems []Value
	idx   *Term
}

type Iface struct {
	t *TypeInfo
	v Value
}

type Closure struct {
	fn   *Func
	bind []Value
}

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kArray
	kStruct
	kMap
	kIface
	kFunc
	kChan
	kTuple
	kIter
)

// TypeInfo is the canonical descriptor of a type: identical types share one.
type TypeInfo struct {
	t      types.Type
	k      kind
	w      uint8
	signed bool
	f32    bool
	elem   *TypeInfo
	key    *TypeInfo
	n      int
	fields []*TypeInfo
	stub   bool // declared in a stubbed-out package
	size   int64
	id     int
}

var (
	tiMu    sync.RWMutex
	tiTab   typeutil.Map
	tiCount int
	sizes   = types.SizesFor("gc", "amd64")
)

func typeInfo(t types.Type) *TypeInfo {
	tiMu.Lock()
	defer tiMu.Unlock()
	return typeInfoLocked(t)
}

func typeInfoLocked(t types.Type) *TypeInfo {
	t = types.Unalias(t)
	if v := tiTab.At(t); v != nil {
		return v.(*TypeInfo)
	}
	ti := &TypeInfo{t: t, id: tiCount}
	tiCount++
	tiTab.Set(t, ti)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		ti.stub = isStubPkg(n.Obj().Pkg().Path())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.k = kBool
		case u.Info()&types.IsInteger != 0:
			ti.k = kInt
			ti.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			ti.k = kFloat
			ti.f32 = u.Kind() == types.Float32
		case u.Info()&types.IsComplex != 0:
			ti.k = kComplex
		case u.Info()&types.IsString != 0:
			ti.k = kString
		case u.Kind() == types.UnsafePointer:
			ti.k = kPtr
		case u.Kind() == types.UntypedNil:
			ti.k = kPtr
		}
	case *types.Pointer:
		ti.k = kPtr
		ti.elem = typeInfoLocked(u.Elem())
	case *types.Slice:
		ti.k = kSlice
		ti.elem = typeInfoLocked(u.Elem())
	case *types.Array:
		ti.k = kArray
		ti.elem = typeInfoLocked(u.Elem())
		ti.n = int(u.Len())
	case *types.Struct:
		ti.k = kStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, typeInfoLocked(u.Field(i).Type()))
		}
		ti.n = len(ti.fields)
	case *types.Map:
		ti.k = kMap
		ti.key = typeInfoLocked(u.Key())
		ti.elem = typeInfoLocked(u.Elem())
	case *types.Interface:
		ti.k = kIface
	case *types.Signature:
		ti.k = kFunc
	case *types.Chan:
		ti.k = kChan
		ti.elem = typeInfoLocked(u.Elem())
	case *types.Tuple:
		ti.k = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, typeInfoLocked(u.At(i).Type()))
		}
	}
	return ti
}

func (ti *TypeInfo) sizeof() int64 {
	if ti.size == 0 {
		s := int64(1)
		func() {
			defer func() { recover() }()
			s = sizes.Sizeof(ti.t)
		}()
		if s == 0 {
			s = -1
		}
		ti.size = s
	}
	if ti.size < 0 {
		return 0
	}
	return ti.size
}

func (ti *TypeInfo) isAgg() bool { return ti.k == kStruct || ti.k == kArray }

func (ti *TypeInfo) zero() Value {
	switch ti.k {
	case kStruct:
		a := &Agg{make([]Value, len(ti.fields))}
		for i, f := range ti.fields {
			if f.isAgg() || f.k == kComplex {
				a.e[i] = f.zero()
			}
		}
		return Value{P: a}
	case kArray:
		a := &Agg{make([]Value, ti.n)}
		if ti.elem.isAgg() || ti.elem.k == kComplex {
			for i := range a.e {
				a.e[i] = ti.elem.zero()
			}
		}
		return Value{P: a}
	case kComplex:
		return Value{P: complex128(0)}
	case kTuple:
		t := make(Tuple, len(ti.fields))
		for i, f := range ti.fields {
			t[i] = f.zero()
		}
		return Value{P: t}
	}
	return Value{}
}

// clone copies aggregates deeply (interfaces, pointers etc. are shared).
func clone(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		b := &Agg{make([]Value, len(a.e))}
		for i := range a.e {
			e := a.e[i]
			if _, ok := e.P.(*Agg); ok {
				e = clone(e)
			}
			b.e[i] = e
		}
		return Value{P: b}
	}
	return v
}

func boolVal(b bool) Value {
	if b {
		return Value{I: 1}
	}
	return Value{}
}

func intVal(i int) Value { return Value{I: uint64(i)} }

func strVal(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func (v Value) sym() bool { _, ok := v.P.(*Term); return ok }

func (v Value) int() int { return int(int64(v.I)) }

func (v Value) strLen() int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.P))
}

func (v Value) goStr() (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (v Value) strBytes() []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].I = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func (v Value) strAt(i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{I: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	conc := make([]byte, len(b))
	for i := range b {
		if b[i].P != nil {
			c := make([]Value, len(b))
			copy(c, b)
			return Value{P: &SymStr{c}}
		}
		conc[i] = byte(b[i].I)
	}
	return Value{P: string(conc)}
}

func strSlice(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.P.(type) {
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		sub := s.b[lo:hi]
		for i := range sub {
			if sub[i].P != nil {
				return Value{P: &SymStr{sub}}
			}
		}
		return mkStr(sub)
	}
	return Value{}
}

func strConcat(a, b Value) Value {
	if x, ok := a.goStr(); ok {
		if y, ok := b.goStr(); ok {
			return strVal(x + y)
		}
	}
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	x, y := a.strBytes(), b.strBytes()
	out := make([]Value, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return Value{P: &SymStr{out}}
}

func sliceOf(v Value) []Value {
	if v.P == nil {
		return nil
	}
	return v.P.([]Value)
}

func bytesVal(b []byte) Value {
	s := make([]Value, len(b))
	for i, c := range b {
		s[i].I = uint64(c)
	}
	return Value{P: s}
}

func goBytes(s []Value) ([]byte, bool) {
	b := make([]byte, len(s))
	for i := range s {
		if s[i].P != nil {
			return nil, false
		}
		b[i] = byte(s[i].I)
	}
	return b, true
}

// MapV is an insertion-ordered map. Keys whose value is concrete are indexed;
// symbolic keys are compared one by one.
type MapV struct {
	t    *TypeInfo
	ent  []mapEnt
	idx  map[any]int
	nsym int
	live int
}

type mapEnt struct {
	k, v  Value
	alive bool
	conc  bool
	key   any
}

func newMap(t *TypeInfo) *MapV { return &MapV{t: t, idx: map[any]int{}} }

func (m *MapV) cloneMap() *MapV {
	n := &MapV{t: m.t, ent: append([]mapEnt(nil), m.ent...), idx: make(map[any]int, len(m.idx)), nsym: m.nsym, live: m.live}
	for k, v := range m.idx {
		n.idx[k] = v
	}
	return n
}

type ifaceKey struct {
	t *TypeInfo
	k any
}

// mapKey converts a concrete key value to a comparable Go value.
func mapKey(t *TypeInfo, v Value) (any, bool) {
	switch t.k {
	case kBool, kInt:
		if v.P != nil {
			return nil, false
		}
		return v.I, true
	case kFloat:
		return math.Float64frombits(v.I), true
	case kString:
		return v.goStr()
	case kPtr, kChan, kFunc:
		switch p := v.P.(type) {
		case nil:
			return nil, true
		case *Value:
			return p, true
		case *ChanV:
			return p, true
		}
		return nil, false
	case kIface:
		if v.P == nil {
			return nil, true
		}
		i := v.P.(*Iface)
		k, ok := mapKey(i.t, i.v)
		return ifaceKey{i.t, k}, ok
	case kStruct, kArray:
		var sb strings.Builder
		if !encodeKey(&sb, t, v) {
			return nil, false
		}
		return sb.String(), true
	}
	return nil, false
}

func encodeKey(sb *strings.Builder, t *TypeInfo, v Value) bool {
	switch t.k {
	case kBool, kInt, kFloat:
		if v.P != nil {
			return false
		}
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v.I)
		sb.Write(b[:])
		return true
	case kString:
		s, ok := v.goStr()
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "%d:%s", len(s), s)
		return true
	case kPtr, kChan:
		fmt.Fprintf(sb, "%p;", v.P)
		return true
	case kIface:
		if v.P == nil {
			sb.WriteString("nil;")
			return true
		}
		i := v.P.(*Iface)
		fmt.Fprintf(sb, "T%d;", i.t.id)
		return encodeKey(sb, i.t, i.v)
	case kStruct:
		a := v.P.(*Agg)
		for i, f := range t.fields {
			if !encodeKey(sb, f, a.e[i]) {
				return false
			}
		}
		return true
	case kArray:
		a := v.P.(*Agg)
		for i := range a.e {
			if !encodeKey(sb, t.elem, a.e[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// Go's malloc size classes, to reproduce append's capacity growth (aliasing
// between slices that share a backing array depends on it).
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	const page = 8192
	return (n + page - 1) / page * page
}

func growCap(oldCap, newLen int, elemSize int64) int {
	newcap := nextslicecap(newLen, oldCap)
	if elemSize == 0 {
		return newLen
	}
	mem := roundupsize(int64(newcap) * elemSize)
	return int(mem / elemSize)
}

func nextslicecap(newLen, oldCap int) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		return newLen
	}
	const threshold = 256
	if oldCap < threshold {
		return doublecap
	}
	for {
		newcap += (newcap + 3*threshold) >> 2
		if uint(newcap) >= uint(newLen) {
			break
		}
	}
	return newcap
}
