package main

import (
	"fmt"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels, select, locks, wait groups. One schedule is explored: a goroutine runs until it blocks, then the first
// that can go on does. A select takes its first ready case.

type recvTo struct {
	fr      *Frame
	dst     int32
	commaOk bool
}

type selWait struct {
	done bool
	size int // of the tuple delivered
	to   recvTo
}

// pop takes the first waiter that still waits.
func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel == nil || !w.sel.done {
			return w
		}
	}
	return nil
}

func waiting(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.done {
			return true
		}
	}
	return false
}

// deliver wakes a receiver up.
func (w *waiter) deliver(in *Interp, v Value, ok bool) {
	switch {
	case w.sel != nil:
		w.sel.done = true
		t := in.selTuple(w.sel.size, w.idx, ok)
		t[w.pos] = v
		w.sel.to.fr.regs[w.sel.to.dst] = t
	case w.to.commaOk:
		w.to.fr.regs[w.to.dst] = Tuple{v, in.st.Bool(ok)}
	case w.to.dst >= 0:
		w.to.fr.regs[w.to.dst] = v
	}
	w.g.status = gRun
}

// taken wakes a sender up.
func (w *waiter) taken(in *Interp) {
	if w.sel != nil {
		w.sel.done = true
		w.sel.to.fr.regs[w.sel.to.dst] = in.selTuple(w.sel.size, w.idx, false)
	}
	w.g.status = gRun
}

func (in *Interp) selTuple(size, idx int, ok bool) Tuple {
	t := make(Tuple, size)
	t[0] = in.st.Const(uint64(int64(idx)), 64)
	t[1] = in.st.Bool(ok)
	return t
}

func (in *Interp) trySend(ch *ChanV, v Value) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		in.goPanic(cstr("send on closed channel"))
	}
	if w := pop(&ch.recvq); w != nil {
		w.deliver(in, v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	return false
}

// tryRecv receives if that is possible at once; a nil value stands for zero.
func (in *Interp) tryRecv(ch *ChanV) (v Value, ok, done bool) {
	if ch == nil {
		return nil, false, false
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if s := pop(&ch.sendq); s != nil {
			ch.buf = append(ch.buf, s.val)
			s.taken(in)
		}
		return v, true, true
	}
	if s := pop(&ch.sendq); s != nil {
		s.taken(in)
		return s.val, true, true
	}
	return nil, false, ch.closed
}

func (in *Interp) send(g *G, fr *Frame, ch *ChanV, v Value) {
	if in.trySend(ch, v) {
		fr.pc++
		return
	}
	g.status = gBlocked
	if ch != nil {
		fr.pc++
		ch.sendq = append(ch.sendq, &waiter{g: g, val: v})
	}
}

func (in *Interp) recv(g *G, fr *Frame, ci *cinstr, x *ssa.UnOp) {
	ch := in.get(fr, &ci.ops[0]).(*ChanV)
	w := &waiter{g: g, to: recvTo{fr, ci.dst, x.CommaOk}, elem: chanElem(x.X.Type())}
	v, ok, done := in.tryRecv(ch)
	if done {
		fr.pc++
		if !ok {
			v = in.zero(w.elem)
		}
		w.deliver(in, v, ok)
		return
	}
	g.status = gBlocked
	if ch != nil {
		fr.pc++
		ch.recvq = append(ch.recvq, w)
	}
}

func (in *Interp) sel(g *G, fr *Frame, ci *cinstr, x *ssa.Select) {
	size := 2
	pos := make([]int, len(x.States))
	chs := make([]*ChanV, len(x.States))
	vals := make([]Value, len(x.States))
	zero := Tuple{nil, nil}
	for i, s := range x.States {
		chs[i] = in.get(fr, &ci.ops[2*i]).(*ChanV)
		if s.Send != nil {
			vals[i] = copyVal(in.get(fr, &ci.ops[2*i+1]))
		} else {
			pos[i] = size
			size++
			zero = append(zero, in.zero(chanElem(s.Chan.Type())))
		}
	}
	finish := func(i int, v Value, ok bool) {
		t := in.selTuple(size, i, ok)
		copy(t[2:], zero[2:])
		if v != nil {
			t[pos[i]] = v
		}
		fr.regs[ci.dst] = t
		fr.pc++
	}
	for i, s := range x.States {
		if s.Send != nil {
			if in.trySend(chs[i], vals[i]) {
				finish(i, nil, false)
				return
			}
		} else if v, ok, done := in.tryRecv(chs[i]); done {
			finish(i, v, ok)
			return
		}
	}
	if !x.Blocking {
		finish(-1, nil, false)
		return
	}
	sw := &selWait{size: size, to: recvTo{fr: fr, dst: ci.dst}}
	for i, s := range x.States {
		if chs[i] == nil {
			continue
		}
		w := &waiter{g: g, val: vals[i], sel: sw, idx: i, pos: pos[i], elem: chanElem(s.Chan.Type())}
		if s.Send != nil {
			chs[i].sendq = append(chs[i].sendq, w)
		} else {
			chs[i].recvq = append(chs[i].recvq, w)
		}
	}
	fr.pc++
	g.status = gBlocked
}

func (in *Interp) closeChan(ch *ChanV) {
	if ch == nil {
		in.goPanic(cstr("close of nil channel"))
	}
	if ch.closed {
		in.goPanic(cstr("close of closed channel"))
	}
	ch.closed = true
	for w := pop(&ch.recvq); w != nil; w = pop(&ch.recvq) {
		w.deliver(in, in.zero(w.elem), false)
	}
	for w := pop(&ch.sendq); w != nil; w = pop(&ch.sendq) {
		w.taken(in)
		const msg = "send on closed channel"
		w.g.top.panic = &panicState{v: Iface{}, runtime: msg}
	}
}

// ---- locks

type lockState struct {
	w bool
	r int
}

// guarded tells whether writes of the running goroutine are serialised with others by a lock. Only the question
// whether concurrent calls disturb each other makes a difference of that.
func (in *Interp) guarded() bool { return in.frozenGlobals && in.cur != nil && in.cur.locks > 0 }

func (in *Interp) atomicStore(p Ptr, v Value) {
	if in.frozenGlobals && in.cur != nil {
		in.cur.locks++
		defer func(g *G) { g.locks-- }(in.cur)
	}
	in.store(p, v)
}

func (in *Interp) lock(v Value) (*lockState, Ptr) {
	p, ok := v.(Ptr)
	if !ok {
		in.unsupported(fmt.Sprintf("lock at %T", v))
	}
	if p == nil {
		in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
	}
	l := in.w.locks[p]
	if l == nil {
		l = &lockState{}
		in.w.locks[p] = l
	}
	return l, p
}

// blockOn makes the running goroutine repeat the call that is being executed once p changes.
func (in *Interp) blockOn(p Ptr, fn *ssa.Function) {
	g := in.cur
	fr := g.top
	if fr.pc > 0 {
		if c, ok := fr.cf.blocks[fr.block].ins[fr.pc-1].in.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
			fr.pc--
			g.onLock = p
			g.status = gBlocked
			return
		}
	}
	in.unsupported("blocking inside " + fn.String() + " that is not called plainly")
}

func (in *Interp) wake(p Ptr) {
	for _, g := range in.gs {
		if g.status == gBlocked && g.onLock == p && p != nil {
			g.onLock = nil
			g.status = gRun
		}
	}
}

func lockIntr(write bool) intrFn {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		l, p := in.lock(a[0])
		if l.w || write && l.r > 0 {
			in.blockOn(p, fn)
			return nil
		}
		l.take(in, write)
		return nil
	}
}

func (l *lockState) take(in *Interp, write bool) {
	if write {
		l.w = true
		in.cur.locks++
	} else {
		l.r++
	}
}

func tryLockIntr(write bool) intrFn {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		l, _ := in.lock(a[0])
		if l.w || write && l.r > 0 {
			return in.st.F
		}
		l.take(in, write)
		return in.st.T
	}
}

func unlockIntr(write bool) intrFn {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		l, p := in.lock(a[0])
		if write && !l.w || !write && l.r == 0 {
			panic(violated{"CRASH: unlock of an unlocked lock at " + in.where()})
		}
		if write {
			l.w = false
			if in.cur.locks > 0 {
				in.cur.locks--
			}
		} else {
			l.r--
		}
		in.wake(p)
		return nil
	}
}

func wgCounter(in *Interp, p Ptr) *int {
	c, ok := in.w.wg[p]
	if !ok {
		c = new(int)
		in.w.wg[p] = c
	}
	return c
}

func wgAdd(in *Interp, p Ptr, n int) {
	c := wgCounter(in, p)
	*c += n
	if *c < 0 {
		in.goPanic(cstr("sync: negative WaitGroup counter"))
	}
	if *c == 0 {
		in.wake(p)
	}
}

func wgAddIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	wgAdd(in, a[0].(Ptr), in.intVal(a[1]))
	return nil
}

func wgDoneIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	wgAdd(in, a[0].(Ptr), -1)
	return nil
}

func wgWaitIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	if p := a[0].(Ptr); *wgCounter(in, p) > 0 {
		in.blockOn(p, fn)
	}
	return nil
}

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }
