package main

import (
	"fmt"
	"go/token"
	"sort"
)

const tokLSS = token.LSS

// ChanV is a channel. Waiting operations queue as in the Go run-time.
type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	elem   *TypeInfo
}

type waiter struct {
	th  *Thread
	sel *selWait
	idx int
	val Value
}

// selWait is one blocked channel operation (a select, or a single send or
// receive).
type selWait struct {
	fired bool
	idx   int
	val   Value
	ok    bool
	panic bool
}

type syncState struct {
	locked  bool
	owner   *Thread
	readers int
	wwait   int
	count   int64
	waiters []*Thread
}

func (vm *VM) syncOf(p Value) *syncState {
	c, ok := p.P.(*Value)
	if !ok {
		if p.P == nil {
			vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		vm.unsupported("sync object through %T", p.P)
	}
	s := vm.sync[c]
	if s == nil {
		s = &syncState{}
		vm.sync[c] = s
	}
	return s
}

func (vm *VM) spawn(fn *Func, args, bind []Value) {
	if vm.initing > 0 {
		vm.unsupported("goroutine started by an initialiser")
	}
	th := &Thread{id: vm.nextTID}
	vm.nextTID++
	saved := vm.cur
	vm.forked(saved, th)
	vm.cur = th
	done, v := vm.invoke(th, fn, args, bind, noReg, nil)
	vm.cur = saved
	if done {
		if v == blockedMark {
			vm.unsupported("go statement with blocking intrinsic")
		}
		return
	}
	vm.threads = append(vm.threads, th)
	vm.runq = append(vm.runq, th)
}

// block parks the current thread; the operation is retried when it is woken.
func (vm *VM) block(th *Thread, why string) {
	if vm.spec > 0 {
		panic(specAbort{"block"})
	}
	if th.system {
		vm.unsupported("blocking operation in an initialiser: %s", why)
	}
	th.blocked = why
}

func (vm *VM) wake(th *Thread) {
	if th.blocked != "" {
		th.blocked = ""
		th.skipVis = vm.preempt > 0
		vm.runq = append(vm.runq, th)
	}
}

func (vm *VM) wakeAll(list []*Thread) {
	for _, t := range list {
		vm.wake(t)
	}
}

// visible is called before operations other threads can observe. With
// preemption enabled it may hand the processor to another runnable thread.
func (vm *VM) visible(th *Thread) bool {
	if vm.preempt <= 0 || th.system || vm.spec > 0 {
		return false
	}
	if th.skipVis {
		th.skipVis = false
		return false
	}
	if len(vm.runq) == 0 {
		return false
	}
	n := len(vm.runq)
	k := vm.ex.choose(vm, n+2)
	if k == 0 {
		return false
	}
	vm.preempt--
	if k == n+1 {
		// hold the thread back until no other can run
		vm.parked = append(vm.parked[:len(vm.parked):len(vm.parked)], th)
		th.skipVis = true
		th.blocked = "preempted"
		return true
	}
	other := vm.runq[k-1]
	rest := append([]*Thread{}, vm.runq[:k-1]...)
	rest = append(rest, vm.runq[k:]...)
	vm.runq = append([]*Thread{other}, rest...)
	vm.runq = append(vm.runq, th)
	th.skipVis = true
	th.blocked = "preempted"
	return true
}

// runThreads drives the scheduler until the main thread finishes.
func (vm *VM) runThreads(main *Thread) {
	vm.threads = append(vm.threads, main)
	vm.runq = append(vm.runq, main)
	for {
		if main.done {
			return
		}
		th := vm.pick()
		if th == nil {
			panic(pathEnd{kind: "deadlock", msg: "all goroutines are asleep: " + vm.blockedList(), pos: vm.where()})
		}
		th.blocked = ""
		vm.cur = th
		vm.exec(th, nil)
		if th.top == nil {
			th.done = true
			vm.release(th, "exited")
			vm.dropThread(th)
		}
	}
}

func (vm *VM) dropThread(th *Thread) {
	for i, t := range vm.threads {
		if t == th {
			vm.threads = append(vm.threads[:i:i], vm.threads[i+1:]...)
			return
		}
	}
}

func (vm *VM) blockedList() string {
	s := ""
	for _, t := range vm.threads {
		if t.top != nil {
			s += fmt.Sprintf("[g%d %s in %s] ", t.id, t.blocked, shortName(t.top.fn.name))
		}
	}
	return s
}

func (vm *VM) pick() *Thread {
	for {
		if len(vm.runq) > 0 {
			th := vm.runq[0]
			vm.runq = vm.runq[1:]
			return th
		}
		if len(vm.parked) > 0 {
			th := vm.parked[0]
			vm.parked = vm.parked[1:]
			return th
		}
		// everything is blocked: release one thread waiting at a gate
		var gated []*Thread
		for _, t := range vm.threads {
			if t.gate != "" && !t.done {
				gated = append(gated, t)
			}
		}
		if len(gated) > 0 {
			k := 0
			if len(gated) > 1 {
				k = vm.ex.choose(vm, len(gated))
			}
			t := gated[k]
			vm.gates = append(vm.gates, t.gate)
			t.gate = ""
			t.blocked = ""
			t.pass = "gate"
			return t
		}
		// settled threads continue when nothing else can run
		for _, t := range vm.threads {
			if t.blocked == "settle" {
				vm.settled(t)
				t.blocked = ""
				t.pass = "settle"
				return t
			}
		}
		// advance the virtual clock to the next timer
		var sl []*Thread
		for _, t := range vm.threads {
			if t.asleep {
				sl = append(sl, t)
			}
		}
		if len(sl) > 0 {
			sort.SliceStable(sl, func(i, j int) bool { return sl[i].wakeAt < sl[j].wakeAt })
			t := sl[0]
			if t.wakeAt > vm.now {
				vm.now = t.wakeAt
			}
			t.asleep = false
			t.blocked = ""
			t.pass = "sleep"
			return t
		}
		return nil
	}
}

// ---- channels

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func (vm *VM) fire(w *waiter, v Value, ok bool) {
	w.sel.fired = true
	w.sel.idx = w.idx
	w.sel.val = v
	w.sel.ok = ok
	vm.wake(w.th)
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (ch *ChanV) canRecv() bool { return len(ch.buf) > 0 || hasWaiter(ch.sendq) || ch.closed }
func (ch *ChanV) canSend() bool { return ch.closed || hasWaiter(ch.recvq) || len(ch.buf) < ch.cap }

func (vm *VM) doRecv(ch *ChanV) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			vm.fire(w, Value{}, true)
		}
		return v, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		v := w.val
		vm.fire(w, Value{}, true)
		return v, true
	}
	return ch.elem.zero(), false // closed
}

func (vm *VM) doSend(ch *ChanV, v Value) {
	if ch.closed {
		vm.goPanic("send on closed channel")
	}
	if w := popWaiter(&ch.recvq); w != nil {
		vm.fire(w, v, true)
		return
	}
	ch.buf = append(ch.buf, v)
}

func (vm *VM) closeChan(v Value) {
	if v.P == nil {
		vm.goPanic("close of nil channel")
	}
	ch := v.P.(*ChanV)
	if ch.closed {
		vm.goPanic("close of closed channel")
	}
	ch.closed = true
	vm.release(vm.cur, ch)
	for {
		w := popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		vm.fire(w, ch.elem.zero(), false)
	}
	for {
		w := popWaiter(&ch.sendq)
		if w == nil {
			break
		}
		w.sel.panic = true
		vm.fire(w, Value{}, false)
	}
}

// chanOp executes send, receive and select; false means the thread blocked.
func (vm *VM) chanOp(th *Thread, fr *Frame, in *Instr) bool {
	if vm.spec > 0 {
		panic(specAbort{"chan"})
	}
	if s := th.sel; s != nil {
		if !s.fired {
			vm.block(th, "channel")
			return false
		}
		th.sel = nil
		if vm.race != nil {
			vm.chanEdge(th, fr, in, s.idx, false)
		}
		if s.panic {
			vm.goPanic("send on closed channel")
		}
		switch in.op {
		case opRecv:
			vm.setRecv(fr, in, s.val, s.ok)
		case opSelect:
			vm.setSelect(fr, in, s.idx, s.val, s.ok)
		}
		return true
	}
	switch in.op {
	case opSend:
		cv, v := get(fr.fn, fr.regs, in.a), get(fr.fn, fr.regs, in.b)
		if cv.P == nil {
			vm.block(th, "send on nil channel")
			return false
		}
		ch := cv.P.(*ChanV)
		vm.release(th, ch)
		if ch.canSend() {
			vm.doSend(ch, v)
			vm.acquire(th, rdKey{ch})
			return true
		}
		s := &selWait{}
		ch.sendq = append(ch.sendq, &waiter{th: th, sel: s, val: v})
		th.sel = s
		vm.block(th, "channel send")
		return false
	case opRecv:
		cv := get(fr.fn, fr.regs, in.a)
		if cv.P == nil {
			vm.block(th, "receive from nil channel")
			return false
		}
		ch := cv.P.(*ChanV)
		vm.release(th, rdKey{ch})
		if ch.canRecv() {
			v, ok := vm.doRecv(ch)
			vm.acquire(th, ch)
			vm.setRecv(fr, in, v, ok)
			return true
		}
		s := &selWait{}
		ch.recvq = append(ch.recvq, &waiter{th: th, sel: s})
		th.sel = s
		vm.block(th, "channel receive")
		return false
	case opSelect:
		states := in.aux.([]selState)
		var ready []int
		for i, st := range states {
			cv := get(fr.fn, fr.regs, st.ch)
			if cv.P == nil {
				continue
			}
			ch := cv.P.(*ChanV)
			if st.send && ch.canSend() || !st.send && ch.canRecv() {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 {
				k = vm.ex.choose(vm, len(ready))
			}
			i := ready[k]
			st := states[i]
			ch := get(fr.fn, fr.regs, st.ch).P.(*ChanV)
			vm.chanEdge(th, fr, in, i, true)
			vm.chanEdge(th, fr, in, i, false)
			if st.send {
				vm.doSend(ch, get(fr.fn, fr.regs, st.val))
				vm.setSelect(fr, in, i, Value{}, false)
			} else {
				v, ok := vm.doRecv(ch)
				vm.setSelect(fr, in, i, v, ok)
			}
			return true
		}
		if !in.commaOk { // non-blocking
			vm.setSelect(fr, in, -1, Value{}, false)
			return true
		}
		s := &selWait{}
		for i, st := range states {
			cv := get(fr.fn, fr.regs, st.ch)
			if cv.P == nil {
				continue
			}
			ch := cv.P.(*ChanV)
			w := &waiter{th: th, sel: s, idx: i}
			vm.chanEdge(th, fr, in, i, true)
			if st.send {
				w.val = get(fr.fn, fr.regs, st.val)
				ch.sendq = append(ch.sendq, w)
			} else {
				ch.recvq = append(ch.recvq, w)
			}
		}
		th.sel = s
		vm.block(th, "select")
		return false
	}
	return true
}

func (vm *VM) setRecv(fr *Frame, in *Instr, v Value, ok bool) {
	if in.commaOk {
		fr.regs[in.dst] = Value{P: Tuple{v, boolVal(ok)}}
	} else {
		fr.regs[in.dst] = v
	}
}

// setSelect builds the (index, recvOk, recv...) tuple.
func (vm *VM) setSelect(fr *Frame, in *Instr, idx int, v Value, ok bool) {
	states := in.aux.([]selState)
	t := Tuple{intVal(idx), boolVal(ok)}
	for i, st := range states {
		if st.send {
			continue
		}
		if i == idx {
			t = append(t, v)
		} else {
			t = append(t, st.elem.zero())
		}
	}
	fr.regs[in.dst] = Value{P: t}
}

// chanEdge orders the thread with the other side of a channel operation:
// before it starts, or after it completes.
func (vm *VM) chanEdge(th *Thread, fr *Frame, in *Instr, idx int, start bool) {
	if vm.race == nil {
		return
	}
	send := in.op == opSend
	r := in.a
	if in.op == opSelect {
		st := in.aux.([]selState)[idx]
		send, r = st.send, st.ch
	}
	ch, ok := get(fr.fn, fr.regs, r).P.(*ChanV)
	if !ok {
		return
	}
	var mine, other any = ch, rdKey{ch}
	if !send {
		mine, other = other, mine
	}
	if start {
		vm.release(th, mine)
	} else {
		vm.acquire(th, other)
	}
}
