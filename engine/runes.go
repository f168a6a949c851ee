package main

import (
	"go/token"
	"go/types"
	"sync"
	"unicode"
)

const (
	tokADD = token.ADD
	tokAND = token.AND
	tokOR  = token.OR
)

func ptrTo(t *TypeInfo) *TypeInfo { return typeInfo(types.NewPointer(t.t)) }

var rtypeTI = &TypeInfo{k: kPtr, t: types.Typ[types.UnsafePointer]}

type runeRange struct{ lo, hi uint32 }

var (
	classMu  sync.Mutex
	classTab = map[string][]runeRange{}
	deltaTab = map[bool][]caseRange{}
)

type caseRange struct {
	lo, hi uint32
	delta  int32
}

func classRanges(name string) []runeRange {
	classMu.Lock()
	defer classMu.Unlock()
	if r, ok := classTab[name]; ok {
		return r
	}
	f := map[string]func(rune) bool{
		"print": unicode.IsPrint, "space": unicode.IsSpace, "letter": unicode.IsLetter, "digit": unicode.IsDigit,
		"control": unicode.IsControl, "upper": unicode.IsUpper, "lower": unicode.IsLower,
	}[name]
	var out []runeRange
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if f(r) {
			if n := len(out); n > 0 && out[n-1].hi == uint32(r)-1 {
				out[n-1].hi = uint32(r)
			} else {
				out = append(out, runeRange{uint32(r), uint32(r)})
			}
		}
	}
	classTab[name] = out
	return out
}

// runeClass is the membership predicate as a balanced decision tree.
func (vm *VM) runeClass(name string, v Value) Value {
	rs := classRanges(name)
	t, ok := v.P.(*Term)
	if !ok {
		for _, r := range rs {
			if uint64(r.lo) <= v.I && v.I <= uint64(r.hi) {
				return boolVal(true)
			}
		}
		return boolVal(false)
	}
	// runes that come from one byte only need the low ranges
	max := uint64(1) << 32
	if lz := leadZeros(t); lz > 0 {
		max = uint64(1) << (32 - lz)
	}
	ts := vm.ts
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if lo == hi {
			return ts.F
		}
		if hi-lo == 1 {
			r := rs[lo]
			return ts.And(ts.Ule(ts.Const(uint64(r.lo), t.w), t), ts.Ule(t, ts.Const(uint64(r.hi), t.w)))
		}
		mid := (lo + hi) / 2
		return ts.Ite(ts.Ult(t, ts.Const(uint64(rs[mid].lo), t.w)), rec(lo, mid), rec(mid, hi))
	}
	n := 0
	for n < len(rs) && uint64(rs[n].lo) < max {
		n++
	}
	return vm.val(rec(0, n))
}

func caseRanges(upper bool) []caseRange {
	classMu.Lock()
	defer classMu.Unlock()
	if r, ok := deltaTab[upper]; ok {
		return r
	}
	var out []caseRange
	for r := rune(0); r <= unicode.MaxRune; r++ {
		m := unicode.ToLower(r)
		if upper {
			m = unicode.ToUpper(r)
		}
		d := int32(m - r)
		if n := len(out); n > 0 && out[n-1].delta == d {
			out[n-1].hi = uint32(r)
		} else {
			out = append(out, caseRange{uint32(r), uint32(r), d})
		}
	}
	deltaTab[upper] = out
	return out
}

func (vm *VM) runeCase(v Value, upper bool) Value {
	t, ok := v.P.(*Term)
	if !ok {
		r := rune(int32(v.I))
		if upper {
			return Value{I: uint64(uint32(unicode.ToUpper(r)))}
		}
		return Value{I: uint64(uint32(unicode.ToLower(r)))}
	}
	rs := caseRanges(upper)
	max := uint64(1) << 32
	if lz := leadZeros(t); lz > 0 {
		max = uint64(1) << (32 - lz)
	}
	n := 0
	for n < len(rs) && uint64(rs[n].lo) < max {
		n++
	}
	ts := vm.ts
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			if rs[lo].delta == 0 {
				return t
			}
			return ts.Add(t, ts.Const(uint64(uint32(rs[lo].delta)), t.w))
		}
		mid := (lo + hi) / 2
		return ts.Ite(ts.Ult(t, ts.Const(uint64(rs[mid].lo), t.w)), rec(lo, mid), rec(mid, hi))
	}
	r := rec(0, n)
	if max > unicode.MaxRune {
		// out-of-range values are returned unchanged
		r = ts.Ite(ts.Ule(t, ts.Const(unicode.MaxRune, t.w)), r, t)
	}
	return vm.val(r)
}
