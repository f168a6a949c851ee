package main

import (
	"go/token"
	"sort"
	"strings"
)

// Happens-before race detection for concurrent harnesses. Every path keeps
// vector clocks for the threads and the synchronisation objects they use; two
// accesses to one memory cell, one of them a write, that no chain of
// synchronisation orders are a candidate. The native confirmation is a run of
// the same inputs under the Go race detector.

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// join makes v at least o.
func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, c := range o {
		if c > v[i] {
			v[i] = c
		}
	}
	return v
}

func (v vclock) tick(i int) vclock {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i]++
	return v
}

type raceAcc struct {
	tid int
	c   uint32
	fn  *Func
	pos token.Pos
}

type shadow struct {
	w     raceAcc
	reads []raceAcc
}

type raceState struct {
	mem  map[any]*shadow
	objs map[any]vclock
	hit  map[string]bool
}

// readers and receivers release into clocks of their own
type rdKey struct{ p any }

func newRace() *raceState {
	return &raceState{mem: map[any]*shadow{}, objs: map[any]vclock{}, hit: map[string]bool{}}
}

const (
	raceNone = iota
	raceRepo
	raceLib
)

// raceClass tells which functions' accesses are watched: those of the tree
// under test and the library code they call.
func raceClass(pkg string) uint8 {
	switch {
	case strings.HasPrefix(pkg, modPath+"/pkg/zzverif"):
		return raceNone
	case strings.HasPrefix(pkg, modPath):
		return raceRepo
	}
	switch pkg {
	case "", "sync", "sync/atomic", "runtime", "context", "time", "reflect", "unsafe", "math/rand", "os", "syscall":
		return raceNone
	}
	if strings.HasPrefix(pkg, "internal/") || strings.HasPrefix(pkg, "runtime/") {
		return raceNone
	}
	return raceLib
}

func (vm *VM) acquire(th *Thread, key any) {
	if vm.race == nil || th.system {
		return
	}
	th.vc = th.vc.join(vm.race.objs[key])
}

func (vm *VM) release(th *Thread, key any) {
	if vm.race == nil || th.system {
		return
	}
	if len(th.vc) <= th.id {
		th.vc = th.vc.tick(th.id)
	}
	vm.race.objs[key] = vm.race.objs[key].join(th.vc)
	th.vc = th.vc.tick(th.id)
}

func (vm *VM) both(th *Thread, key any) {
	vm.acquire(th, key)
	vm.release(th, key)
}

// forked gives a new thread the clock of its parent.
func (vm *VM) forked(parent, th *Thread) {
	if vm.race == nil || parent == nil || parent.system {
		return
	}
	parent.vc = parent.vc.tick(parent.id)
	th.vc = append(vclock(nil), parent.vc...).tick(th.id)
}

// settled orders a thread after everything that happened so far.
func (vm *VM) settled(th *Thread) {
	if vm.race == nil {
		return
	}
	for _, t := range vm.threads {
		if t != th {
			th.vc = th.vc.join(t.vc)
		}
	}
	th.vc = th.vc.join(vm.race.objs["exited"])
}

func (vm *VM) watching() bool {
	if vm.race == nil || vm.nextTID < 2 || vm.cur == nil || vm.cur.system || vm.cur.top == nil {
		return false
	}
	return vm.cur.top.race
}

func (vm *VM) raceRead(p any)  { vm.raceAccess(p, false) }
func (vm *VM) raceWrite(p any) { vm.raceAccess(p, true) }

// raceCell records an access to a cell and to the parts of an aggregate.
func (vm *VM) raceCell(p *Value, write bool) {
	if a, ok := p.P.(*Agg); ok {
		for i := range a.e {
			vm.raceCell(&a.e[i], write)
		}
		return
	}
	vm.raceAccess(p, write)
}

func (vm *VM) raceSlice(s []Value, write bool) {
	for i := range s {
		vm.raceCell(&s[i], write)
	}
}

func (vm *VM) raceAccess(p any, write bool) {
	th := vm.cur
	if len(th.vc) <= th.id {
		th.vc = th.vc.tick(th.id)
	}
	now := th.vc[th.id]
	sh := vm.race.mem[p]
	if sh == nil {
		sh = &shadow{w: raceAcc{tid: -1}}
		vm.race.mem[p] = sh
	}
	me := raceAcc{tid: th.id, c: now}
	if sh.w.tid >= 0 && sh.w.tid != th.id && sh.w.c > th.vc.at(sh.w.tid) {
		vm.raced(sh.w)
	}
	if write {
		if sh.w.tid == th.id && sh.w.c == now && len(sh.reads) == 0 {
			return
		}
		for _, r := range sh.reads {
			if r.tid != th.id && r.c > th.vc.at(r.tid) {
				vm.raced(r)
			}
		}
		me.fn, me.pos = vm.racePos()
		sh.w = me
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].tid == th.id {
			if sh.reads[i].c != now {
				me.fn, me.pos = vm.racePos()
				sh.reads[i] = me
			}
			return
		}
	}
	me.fn, me.pos = vm.racePos()
	sh.reads = append(sh.reads, me)
}

// racePos is the place of the current access in the tree under test.
func (vm *VM) racePos() (*Func, token.Pos) {
	for f := vm.cur.top; f != nil; f = f.caller {
		if f.fn.race == raceRepo {
			pos := token.NoPos
			if f.blk != nil && f.pc < len(f.blk.instrs) {
				pos = f.blk.instrs[f.pc].pos
			}
			return f.fn, pos
		}
	}
	return vm.cur.top.fn, token.NoPos
}

func (vm *VM) raced(old raceAcc) {
	fn, _ := vm.racePos()
	names := []string{shortName(fn.name), shortName(old.fn.name)}
	sort.Strings(names)
	key := names[0] + " and " + names[1]
	if vm.race.hit[key] || vm.path == nil {
		return
	}
	vm.race.hit[key] = true
	vm.ex.candidate(vm, "race", "data race between "+key, vm.where(), vm.path.model)
}
