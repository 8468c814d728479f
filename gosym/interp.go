package main

// The symbolic interpreter: executes one path of a harness, following a prefix of decisions and
// asking the solver at every undecided symbolic branch beyond it.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugTrace = os.Getenv("GOSYM_TRACE") != ""

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type Frame struct {
	cf       *cfunc
	regs     []Value
	block    int
	pc       int
	caller   *Frame
	dst      int32 // caller register for the result
	defers   []deferred
	panic    *panicState // set while this frame's defers run because of a panic
	isDefer  *panicState // this frame is a deferred call run by a panic
	syncBase bool        // bottom frame of a nested synchronous call
	results  Value
}

type panicState struct {
	v         Value
	recovered bool
	runtime   string
}

type gStatus int

const (
	gRun gStatus = iota
	gBlocked
	gDone
)

// G is a goroutine.
type G struct {
	id     int
	top    *Frame
	status gStatus
	wait   string
	locks  int // locks held for writing
	onLock Ptr // the lock or wait group it waits for
}

type (
	targetPanic struct {
		v   Value
		msg string
	}
	pathEnd     struct{ why string } // infeasible or assumed away
	unsupErr    struct{ why string }
	violated    struct{ msg string }
	limitErr    struct{ why string }
	syncReturn  struct{}
	uncaughtErr struct{ msg string }
)

type decision struct {
	v      bool
	forced bool
	eq     bool   // concretisation step: v tells whether the term equals val
	val    uint64 // value of the step
	choose bool   // val is the choice
}

type inputRec struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  uint64 `json:"val"`
	t    *Term  // value
	v    *Term  // solver variable
}

type obsRec struct {
	name string
	v    Value
	t    types.Type
}

// Interp executes one path.
type Interp struct {
	w             *Worker
	st            *Store
	job           *Job
	h             *Harness
	prefix        []decision
	dpos          int
	dec           []decision
	pc            []*Term
	known         map[*Term]bool
	model         Model
	modelOK       bool // memo valid for the current model
	inputs        []inputRec
	varSeen       map[string]int
	obs           []obsRec
	covers        map[string]bool
	gs            []*G
	cur           *G
	globals       map[*ssa.Global]Ptr
	frozen        map[Ptr]bool
	frozenM       map[*MapV]bool
	frozenGlobals bool
	steps         int64
	inInit        int
	undo          []undoRec
	merges        int
	conc          int
	nAssert       int
	nProved       int
}

type undoRec struct {
	p Ptr
	v Value
	m *MapV // or a map and its former content
	c MapV
}

// saveMap records the content of a map held by a package-level variable before it is changed.
func (in *Interp) saveMap(m *MapV) {
	if in.inInit == 0 && in.w.globalMaps[m] {
		c := *m
		c.keys = append([]Value(nil), m.keys...)
		c.vals = append([]Value(nil), m.vals...)
		c.live = append([]bool(nil), m.live...)
		in.undo = append(in.undo, undoRec{m: m, c: c})
	}
}

func (in *Interp) unsupported(why string) {
	panic(unsupErr{why})
}

func (in *Interp) goPanic(v Value) {
	msg := ""
	if s, ok := v.(Str); ok {
		msg = s.s
		v = Iface{t: in.w.prog.runtimeErrT, v: s}
	}
	panic(targetPanic{v: v, msg: msg})
}

// ---- path condition

func (in *Interp) learn(t *Term) {
	if in.known[t] {
		return
	}
	in.known[t] = true
	switch {
	case t.op == OBAnd:
		in.learn(t.a[0])
		in.learn(t.a[1])
	case t.op == OBNot && t.a[0].op == OBOr:
		in.learn(in.st.Not(t.a[0].a[0]))
		in.learn(in.st.Not(t.a[0].a[1]))
	}
}

func (in *Interp) addPC(t *Term) {
	if t == in.st.T {
		return
	}
	in.pc = append(in.pc, t)
	in.learn(t)
}

// implied looks a condition up among the known facts: 1 true, 0 false, -1 unknown.
func (in *Interp) implied(c *Term) int {
	if c.isConst() {
		return int(c.c)
	}
	if in.known[c] {
		return 1
	}
	if in.known[in.st.Not(c)] {
		return 0
	}
	switch {
	case c.op == OBAnd:
		a, b := in.implied(c.a[0]), in.implied(c.a[1])
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case c.op == OBOr:
		a, b := in.implied(c.a[0]), in.implied(c.a[1])
		if a == 1 || b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	case c.op == OBNot:
		r := in.implied(c.a[0])
		if r >= 0 {
			return 1 - r
		}
	}
	return -1
}

func (in *Interp) setModel(m Model) {
	in.model = m
	in.modelOK = false
}

func (in *Interp) evalM(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	st := in.st
	if !in.modelOK {
		st.cur++
		in.modelOK = true
	}
	if len(st.memo) < st.n {
		st.memo = append(st.memo, make([]uint64, st.n*2-len(st.memo))...)
		st.gen = append(st.gen, make([]uint32, st.n*2-len(st.gen))...)
	}
	return st.eval(t, in.model)
}

func (in *Interp) check(extra *Term) (Sat, Model) {
	r, m := in.w.solver.Check(in.pc, extra, in.inputs)
	in.modelOK = false // the solver evaluates its model with the same memo
	if r == Unknown {
		in.w.note(in.h, "solver gave no answer for a query (time limit)")
	}
	return r, m
}

// branch decides a boolean condition, forking when both outcomes are feasible.
func (in *Interp) branch(c *Term) bool {
	if r := in.implied(c); r >= 0 {
		return r == 1
	}
	nc := in.st.Not(c)
	if in.dpos < len(in.prefix) {
		d := in.prefix[in.dpos]
		in.dpos++
		in.dec = append(in.dec, d)
		lit := c
		if !d.v {
			lit = nc
		}
		if d.forced {
			in.learn(lit)
		} else {
			in.addPC(lit)
		}
		return d.v
	}
	if in.inInit > 0 {
		in.unsupported("symbolic branch in package initialisation")
	}
	b := in.evalM(c) != 0
	lit, other := c, nc
	if !b {
		lit, other = nc, c
	}
	in.w.countBranch(in)
	switch r, m := in.check(other); r {
	case IsSat:
		in.push(append(in.dec[:len(in.dec):len(in.dec)], decision{v: !b}), m)
		in.dec = append(in.dec, decision{v: b})
		in.addPC(lit)
	case Unsat:
		in.dec = append(in.dec, decision{v: b, forced: true})
		in.learn(lit)
	default:
		in.dec = append(in.dec, decision{v: b})
		in.addPC(lit)
	}
	in.dpos++
	in.prefix = in.dec[:len(in.dec):len(in.dec)]
	return b
}

func (in *Interp) push(prefix []decision, m Model) {
	in.w.pushJob(&Job{h: in.h, prefix: prefix, model: m})
}

// concretize returns a concrete value of t, forking over all its feasible values.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	in.conc++
	st := in.st
	for n := 0; ; n++ {
		if in.dpos < len(in.prefix) {
			d := in.prefix[in.dpos]
			in.dpos++
			in.dec = append(in.dec, d)
			eq := st.Eq(t, st.Const(d.val, t.w))
			if !d.v {
				eq = st.Not(eq)
			}
			if d.forced {
				in.learn(eq)
			} else {
				in.addPC(eq)
			}
			if d.v {
				return d.val
			}
			continue
		}
		if in.inInit > 0 {
			in.unsupported("symbolic value in package initialisation")
		}
		v := in.evalM(t)
		eq := st.Eq(t, st.Const(v, t.w))
		if r := in.implied(eq); r == 1 {
			// keep the decision list aligned
			in.dec = append(in.dec, decision{v: true, eq: true, val: v, forced: true})
			in.dpos++
			in.prefix = in.dec[:len(in.dec):len(in.dec)]
			return v
		}
		in.w.countBranch(in)
		r, m := in.check(st.Not(eq))
		d := decision{v: true, eq: true, val: v}
		switch r {
		case IsSat:
			in.push(append(in.dec[:len(in.dec):len(in.dec)], decision{v: false, eq: true, val: v}), m)
			in.addPC(eq)
		case Unsat:
			d.forced = true
			in.learn(eq)
		default:
			in.addPC(eq)
		}
		in.dec = append(in.dec, d)
		in.dpos++
		in.prefix = in.dec[:len(in.dec):len(in.dec)]
		return v
	}
}

// choose forks over 0..n-1 for a fresh unconstrained variable without asking the solver.
func (in *Interp) choose(name string, n int) int {
	t := in.freshVar(name, 64)
	nm := t.name
	st := in.st
	if in.dpos < len(in.prefix) {
		d := in.prefix[in.dpos]
		in.dpos++
		in.dec = append(in.dec, d)
		in.addPC(st.Eq(t, st.Const(d.val, 64)))
		return int(d.val)
	}
	m0 := in.model
	for v := n - 1; v >= 1; v-- {
		m := make(Model, len(m0)+1)
		for k, x := range m0 {
			m[k] = x
		}
		m[nm] = uint64(v)
		in.push(append(in.dec[:len(in.dec):len(in.dec)], decision{choose: true, val: uint64(v)}), m)
	}
	m := make(Model, len(m0)+1)
	for k, x := range m0 {
		m[k] = x
	}
	m[nm] = 0
	in.setModel(m)
	in.w.countBranch(in)
	in.dec = append(in.dec, decision{choose: true, val: 0})
	in.dpos++
	in.prefix = in.dec[:len(in.dec):len(in.dec)]
	in.addPC(st.Eq(t, st.Const(0, 64)))
	return 0
}

func (in *Interp) freshVar(name string, w uint8) *Term {
	if in.inInit > 0 {
		in.unsupported("input in package initialisation")
	}
	full := fmt.Sprintf("%s/%d", name, w)
	k := in.varSeen[full]
	in.varSeen[full]++
	if k > 0 {
		full = fmt.Sprintf("%s.%d/%d", name, k, w)
	}
	t := in.st.Var(full, w)
	in.inputs = append(in.inputs, inputRec{Name: full, W: w, t: t, v: t})
	return t
}

func (in *Interp) rangeVar(name string, lo, hi int64) *Term {
	if lo == hi {
		t := in.freshVar(name, 64)
		in.setVar(t, uint64(lo))
		in.addPC(in.st.Eq(t, in.st.Const(uint64(lo), 64)))
		return in.st.Const(uint64(lo), 64)
	}
	// a narrow variable, widened: the bounds then cost a comparison of few bits
	k := uint8(1)
	for k < 63 && (int64(1)<<k)-1 < hi-lo {
		k++
	}
	t := in.freshVar(name, 64)
	rec := &in.inputs[len(in.inputs)-1]
	st := in.st
	v := st.Var(t.name+"~"+strconv.Itoa(int(k)), k)
	rec.v = v
	rec.t = st.Add(st.Zext(v, 64), st.Const(uint64(lo), 64))
	if int64(in.model[v.name]) > hi-lo {
		in.setVar(v, 0)
	}
	in.addPC(st.Not(st.Ult(st.Const(uint64(hi-lo), k), v)))
	return rec.t
}

// prefixLen is an unconstrained number in 0..w, represented by its mask.
func (in *Interp) prefixLen(name string, w uint8) *Term {
	t := in.freshVar(name, w)
	st := in.st
	rec := &in.inputs[len(in.inputs)-1]
	if x := in.model[t.name] & mask(w); x != st.thermo(int64(bits.LeadingZeros64(^(x<<(64-w)))), w).c {
		in.setVar(t, 0)
	}
	in.addPC(st.Eq(st.BvAnd(st.Concat(st.Extract(t, w-2, 0), st.Const(0, 1)), st.BvNot(t)), st.Const(0, w)))
	rec.t = t
	return st.U2N(t, 0, 64)
}

func (in *Interp) setVar(t *Term, v uint64) {
	m := make(Model, len(in.model)+1)
	for k, x := range in.model {
		m[k] = x
	}
	m[t.name] = v
	in.setModel(m)
}

func (in *Interp) assume(c *Term) {
	if c == in.st.T || in.implied(c) == 1 {
		return
	}
	if c == in.st.F || in.implied(c) == 0 {
		panic(pathEnd{"assumption"})
	}
	if in.dpos < len(in.prefix) || in.evalM(c) != 0 {
		in.addPC(c)
		return
	}
	r, m := in.check(c)
	if r != IsSat {
		panic(pathEnd{"assumption"})
	}
	in.setModel(m)
	in.addPC(c)
}

func (in *Interp) assert(c *Term, msg string) {
	in.nAssert++
	if c == in.st.T {
		in.w.countAssert(in, 0)
		return
	}
	if in.dpos < len(in.prefix) {
		// decided on the path this one was forked from
		in.learn(c)
		return
	}
	if in.implied(c) == 1 {
		in.w.countAssert(in, 0)
		return
	}
	if in.evalM(c) == 0 {
		panic(violated{msg})
	}
	r, m := in.check(in.st.Not(c))
	switch r {
	case IsSat:
		in.setModel(m)
		panic(violated{msg})
	case Unsat:
		in.w.countAssert(in, 1)
		in.learn(c)
	}
}

// ---- registers

func (in *Interp) get(fr *Frame, o *opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot == -2 {
		return in.globalAddr(o.g)
	}
	return o.val
}

func (in *Interp) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		in.unsupported(fmt.Sprintf("expected scalar, got %T", v))
	}
	return t
}

func (in *Interp) intVal(v Value) int {
	t := in.term(v)
	return int(sx(in.concretize(t), t.w))
}

// ---- memory

func (in *Interp) store(p Ptr, v Value) {
	if p == nil {
		in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
	}
	in.preStore(p)
	assign(p, v)
}

func (in *Interp) preStore(p Ptr) {
	if len(in.frozen) > 0 && in.frozen[p] && !in.guarded() {
		panic(violated{"FROZEN: write to memory reachable from an earlier version at " + in.where()})
	}
	if in.inInit == 0 && in.w.globalCells[p] {
		if in.frozenGlobals && !in.guarded() {
			panic(violated{"FROZEN: write to a package-level variable at " + in.where()})
		}
		in.undo = append(in.undo, undoRec{p: p, v: copyVal(*p)})
	}
}

func (in *Interp) load(v Value) Value {
	switch p := v.(type) {
	case Ptr:
		if p == nil {
			in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
		}
		return copyVal(*p)
	case *SymAddr:
		return in.symLoad(p.arr, p.idx)
	}
	in.unsupported(fmt.Sprintf("load through %T", v))
	return nil
}

// symLoad reads arr[idx] for a symbolic in-range index.
func (in *Interp) symLoad(arr []Value, idx *Term) Value {
	if len(arr) <= 512 {
		ok := true
		for _, x := range arr {
			if _, is := x.(*Term); !is {
				ok = false
				break
			}
		}
		if ok && len(arr) > 0 && idx.op == OU2N {
			// a table of masks, indexed by a prefix length
			m, w := idx.a[0], arr[0].(*Term).w
			is := m.w <= w
			for n := int64(0); is && n <= int64(m.w); n++ {
				i := n + idx.uoff()
				is = i >= 0 && i < int64(len(arr)) && arr[i] == Value(in.st.thermo(n, w))
			}
			if is {
				return in.st.pad(m, w)
			}
		}
		if ok && len(arr) > 0 {
			r := arr[len(arr)-1].(*Term)
			for i := len(arr) - 2; i >= 0; i-- {
				r = in.st.Ite(in.st.Eq(idx, in.st.Const(uint64(i), idx.w)), arr[i].(*Term), r)
			}
			return r
		}
	}
	return copyVal(arr[in.concretize(idx)])
}

func (in *Interp) storeTo(addr, v Value) {
	switch p := addr.(type) {
	case Ptr:
		in.store(p, v)
	case *SymAddr:
		nv, ok := v.(*Term)
		if ok {
			for _, x := range p.arr {
				if _, is := x.(*Term); !is {
					ok = false
					break
				}
			}
		}
		if !ok || len(p.arr) > 512 {
			in.store(&p.arr[in.concretize(p.idx)], v)
			return
		}
		for i := range p.arr {
			in.store(&p.arr[i], in.st.Ite(in.st.Eq(p.idx, in.st.Const(uint64(i), p.idx.w)), nv, p.arr[i].(*Term)))
		}
	default:
		in.unsupported(fmt.Sprintf("store through %T", addr))
	}
}

func (in *Interp) where() string {
	if in.cur == nil {
		return "?"
	}
	for fr := in.cur.top; fr != nil; fr = fr.caller {
		b := fr.cf.blocks[fr.block]
		k := fr.pc
		if k >= len(b.ins) {
			k = len(b.ins) - 1
		}
		for ; k >= 0; k-- {
			if p := b.ins[k].in.Pos(); p != token.NoPos {
				pos := in.w.prog.fset.Position(p)
				return fmt.Sprintf("%s:%d (%s)", pos.Filename, pos.Line, fr.cf.fn.String())
			}
		}
		return fr.cf.fn.String()
	}
	return "?"
}

// ---- goroutines and frames

func (in *Interp) newG(fn *ssa.Function, args []Value, env []Value) *G {
	g := &G{id: len(in.gs)}
	in.gs = append(in.gs, g)
	save := in.cur
	in.cur = g
	in.pushFrame(fn, args, env, -1)
	in.cur = save
	return g
}

func (in *Interp) pushFrame(fn *ssa.Function, args []Value, env []Value, dst int32) *Frame {
	if len(fn.Blocks) == 0 {
		in.unsupported("no body: " + fn.String())
	}
	cf := in.compiled(fn)
	fr := &Frame{cf: cf, regs: make([]Value, cf.nslots), caller: in.cur.top, dst: dst}
	copy(fr.regs, args)
	copy(fr.regs[cf.free:], env)
	in.cur.top = fr
	depth := 0
	if in.steps&0xff == 0 {
		for f := fr; f != nil; f = f.caller {
			depth++
		}
		if depth > 5000 {
			panic(limitErr{"call depth"})
		}
	}
	return fr
}

// runAll runs goroutines until the main one has finished.
func (in *Interp) runMain(main *G) {
	for main.status != gDone {
		if !in.schedule() {
			panic(violated{"DEADLOCK: all goroutines are asleep"})
		}
	}
}

// schedule runs one runnable goroutine until it blocks or ends; false if none is runnable.
func (in *Interp) schedule() bool {
	for _, g := range in.gs {
		if g.status == gRun {
			in.runG(g, nil)
			return true
		}
	}
	return false
}

// quiesce runs everything but the current goroutine to completion; reports whether all others ended.
func (in *Interp) quiesce() bool {
	me := in.cur
	for {
		var pick *G
		for _, g := range in.gs {
			if g != me && g.status == gRun {
				pick = g
				break
			}
		}
		if pick == nil {
			break
		}
		in.runG(pick, nil)
	}
	in.cur = me
	for _, g := range in.gs {
		if g != me && g.status != gDone {
			return false
		}
	}
	return true
}

// runG runs g until it blocks, ends, or (base != nil) the frame base returns.
func (in *Interp) runG(g *G, base *Frame) {
	save := in.cur
	in.cur = g
	for g.status == gRun && (base == nil || g.top != base.caller) {
		in.runProtected(g, base)
	}
	in.cur = save
}

func (in *Interp) runProtected(g *G, base *Frame) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			g.top.panic = &panicState{v: tp.v, runtime: tp.msg}
			in.cur = g
		}
	}()
	for g.status == gRun && g.top != nil && (base == nil || g.top != base.caller) {
		if g.top.panic != nil {
			in.unwind(g, base)
			continue
		}
		in.step(g)
	}
	if g.top == nil {
		g.status = gDone
	}
}

// unwind continues the panic of the top frame.
func (in *Interp) unwind(g *G, base *Frame) {
	fr := g.top
	ps := fr.panic
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		top := g.top
		in.callValue(d.fn, d.args, d.inv, -1)
		if g.top != top && !ps.recovered {
			g.top.isDefer = ps
		}
		return
	}
	if ps.recovered {
		// return normally to the caller through the recover block
		fr.panic = nil
		if rb := fr.cf.fn.Recover; rb != nil {
			fr.block = rb.Index
			fr.pc = 0
			return
		}
		in.popFrame(g, fr, in.zeroResult(fr.cf.fn))
		return
	}
	if fr.caller == nil || fr == base {
		if fr == base && base.syncBase {
			g.top = fr.caller
			panic(targetPanic{v: ps.v, msg: ps.runtime})
		}
		panic(uncaughtErr{in.panicText(ps)})
	}
	if fr.isDefer != nil && fr.isDefer != ps {
		// a new panic replaces the one being unwound
		fr.isDefer.recovered = false
	}
	fr.caller.panic = ps
	g.top = fr.caller
}

func (in *Interp) panicText(ps *panicState) string {
	if ps.runtime != "" {
		return ps.runtime
	}
	if i, ok := ps.v.(Iface); ok {
		switch x := i.v.(type) {
		case Str:
			if x.b == nil {
				return x.s
			}
		case *Term:
			return "value"
		}
		if i.t != nil {
			return "panic value of type " + i.t.String()
		}
	}
	return "panic"
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

func (in *Interp) popFrame(g *G, fr *Frame, res Value) {
	g.top = fr.caller
	if fr.caller == nil {
		g.status = gDone
		return
	}
	if fr.dst >= 0 {
		fr.caller.regs[fr.dst] = res
	}
	if fr.syncBase {
		fr.results = res
	}
}

// callSync runs fn to completion on the current goroutine.
func (in *Interp) callSync(f Value, args []Value) Value {
	g := in.cur
	var env []Value
	c := f.(*Closure)
	env = c.env
	if r, ok := in.intrinsic(c.fn, args); ok {
		return r
	}
	fr := in.pushFrame(c.fn, args, env, -1)
	fr.syncBase = true
	for g.status == gRun && in.onStack(g, fr) {
		in.runProtected(g, fr)
	}
	if g.status == gBlocked {
		in.unsupported("blocking inside a nested call")
	}
	return fr.results
}

func (in *Interp) onStack(g *G, fr *Frame) bool {
	for f := g.top; f != nil; f = f.caller {
		if f == fr {
			return true
		}
	}
	return false
}

func (in *Interp) jump(fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	cb := fr.cf.blocks[to.Index]
	if len(cb.phis) > 0 {
		k := -1
		for i, p := range to.Preds {
			if p.Index == from {
				k = i
				break
			}
		}
		if len(cb.phis) == 1 {
			fr.regs[cb.phis[0].dst] = in.get(fr, &cb.phis[0].edges[k])
		} else {
			var tmp [16]Value
			vals := tmp[:0]
			for i := range cb.phis {
				vals = append(vals, in.get(fr, &cb.phis[i].edges[k]))
			}
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = vals[i]
			}
		}
	}
	fr.block = to.Index
	fr.pc = 0
}

func (in *Interp) step(g *G) {
	fr := g.top
	ci := &fr.cf.blocks[fr.block].ins[fr.pc]
	in.steps++
	if in.steps > in.w.maxSteps {
		panic(limitErr{"steps per path"})
	}
	if debugTrace {
		fmt.Fprintf(os.Stderr, "g%d %s b%d: %s\n", g.id, fr.cf.fn.Name(), fr.block, ci.in.String())
	}
	switch x := ci.in.(type) {
	case *ssa.If:
		c := in.term(in.get(fr, &ci.ops[0]))
		b := fr.cf.fn.Blocks[fr.block]
		r := in.implied(c)
		if r < 0 {
			if in.tryMerge(fr, c) {
				return
			}
		}
		if in.branch(c) {
			in.jump(fr, b.Succs[0])
		} else {
			in.jump(fr, b.Succs[1])
		}
		return
	case *ssa.Jump:
		in.jump(fr, fr.cf.fn.Blocks[fr.block].Succs[0])
		return
	case *ssa.Return:
		var res Value
		switch len(ci.ops) {
		case 0:
		case 1:
			res = in.get(fr, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = in.get(fr, &ci.ops[i])
			}
			res = t
		}
		in.popFrame(g, fr, res)
		return
	case *ssa.Call:
		fn, args := in.prepCall(fr, ci, &x.Call)
		if fn == nil {
			fr.pc++
			return
		}
		// the pc is advanced first: results arrive later
		fr.pc++
		in.callValue2(fn, args, ci.dst, fr, &x.Call)
		return
	case *ssa.Go:
		fn, args := in.prepCall(fr, ci, &x.Call)
		fr.pc++
		switch f := fn.(type) {
		case *Closure:
			if f == nil {
				in.goPanic(cstr("go of nil func value"))
			}
			in.newG(f.fn, args, f.env)
		default:
			in.unsupported("go of builtin")
		}
		return
	case *ssa.Defer:
		fn, args := in.prepCall(fr, ci, &x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, &x.Call})
		fr.pc++
		return
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			in.callValue(d.fn, d.args, d.inv, -1) // pc not advanced: RunDefers repeats
			return
		}
		fr.pc++
		return
	case *ssa.Panic:
		v := in.get(fr, &ci.ops[0])
		panic(targetPanic{v: v})
	case *ssa.Store:
		in.storeTo(in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]))
		fr.pc++
		return
	case *ssa.Send:
		in.send(g, fr, in.get(fr, &ci.ops[0]).(*ChanV), copyVal(in.get(fr, &ci.ops[1])))
		return
	case *ssa.MapUpdate:
		in.mapUpdate(in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]), in.get(fr, &ci.ops[2]))
		fr.pc++
		return
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			in.recv(g, fr, ci, x)
			return
		}
	case *ssa.Select:
		in.sel(g, fr, ci, x)
		return
	}
	fr.regs[ci.dst] = in.eval(fr, ci)
	fr.pc++
}

// prepCall evaluates callee and arguments; interface calls are resolved.
func (in *Interp) prepCall(fr *Frame, ci *cinstr, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv := in.get(fr, &ci.ops[0])
		args := make([]Value, 0, len(ci.ops))
		ifc, ok := recv.(Iface)
		if !ok {
			in.unsupported(fmt.Sprintf("method call on %T", recv))
		}
		if ifc.t == nil {
			in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
		}
		args = append(args, ifc.v)
		for i := 0; i < len(c.Args); i++ {
			args = append(args, copyVal(in.get(fr, &ci.ops[1+i])))
		}
		if rt, ok := ifc.v.(rtypeV); ok {
			return &Closure{fn: nil, env: []Value{rt, cstr(c.Method.Name())}}, args
		}
		fn := in.w.prog.method(ifc.t, c.Method)
		if fn == nil {
			in.unsupported("no method " + c.Method.Name() + " on " + ifc.t.String())
		}
		return &Closure{fn: fn}, args
	}
	fn := in.get(fr, &ci.ops[0])
	args := make([]Value, len(c.Args))
	for i := range args {
		args[i] = copyVal(in.get(fr, &ci.ops[1+i]))
	}
	return fn, args
}

func (in *Interp) callValue(fn Value, args []Value, c *ssa.CallCommon, dst int32) {
	in.callValue2(fn, args, dst, in.cur.top, c)
}

func (in *Interp) callValue2(fn Value, args []Value, dst int32, fr *Frame, c *ssa.CallCommon) {
	switch f := fn.(type) {
	case *ssa.Builtin:
		r := in.builtin(f.Name(), args, c, fr)
		if dst >= 0 {
			fr.regs[dst] = r
		}
	case *Closure:
		if f == nil {
			in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
		}
		if f.fn == nil {
			fr.regs[dst] = in.rtypeMethod(f.env[0].(rtypeV), f.env[1].(Str).s, args)
			return
		}
		if r, ok := in.intrinsic(f.fn, args); ok {
			if dst >= 0 {
				fr.regs[dst] = r
			}
			return
		}
		if in.inInit > 0 && in.skipInInit(f.fn) {
			return
		}
		in.pushFrame(f.fn, args, f.env, dst)
	default:
		in.unsupported(fmt.Sprintf("call of %T", fn))
	}
}

// ---- globals

func (in *Interp) globalAddr(g *ssa.Global) Ptr {
	w := in.w
	if p, ok := w.globals[g]; ok {
		return p
	}
	in.initPkg(g.Pkg)
	p, ok := w.globals[g]
	if !ok {
		in.unsupported("global " + g.String())
	}
	return p
}

// initPkg runs the initialiser of one package (not of its imports), tolerating what cannot be run.
func (in *Interp) initPkg(pkg *ssa.Package) {
	w := in.w
	if w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	var cells []*ssa.Global
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			p := new(Value)
			*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
			w.globals[g] = p
			cells = append(cells, g)
		}
	}
	saveCur, saveGs, saveSteps := in.cur, in.gs, in.steps
	in.inInit++
	g := &G{id: -1}
	in.cur = g
	fn := pkg.Func("init")
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupErr:
					w.noteInit(pkg.Pkg.Path() + ": " + e.why)
				case uncaughtErr:
					w.noteInit(pkg.Pkg.Path() + ": " + e.msg)
				case engineErr:
					w.noteInit(pkg.Pkg.Path() + ": " + string(e))
				default:
					panic(r)
				}
			}
		}()
		in.pushFrame(fn, nil, nil, -1)
		for g.status == gRun && g.top != nil {
			in.initStep(g)
		}
	}()
	in.inInit--
	in.cur, in.gs, in.steps = saveCur, saveGs, saveSteps
	seen := map[Ptr]bool{}
	for _, gl := range cells {
		in.reach(w.globals[gl], seen, w.globalMaps)
	}
	for p := range seen {
		w.globalCells[p] = true
	}
}

// initStep runs one instruction of an init frame; unsupported calls give an opaque value.
func (in *Interp) initStep(g *G) {
	fr := g.top
	depth1 := fr.caller == nil
	defer func() {
		if r := recover(); r != nil {
			var why string
			switch e := r.(type) {
			case unsupErr:
				why = e.why
			case targetPanic:
				why = "panic " + e.msg
			case uncaughtErr:
				why = "panic " + e.msg
			default:
				panic(r)
			}
			// back to the outermost frame: give up on that call
			f := g.top
			for f != nil && f.caller != nil {
				f = f.caller
			}
			if f == nil {
				panic(r)
			}
			g.top = f
			f.panic = nil
			g.status = gRun
			if depth1 {
				// failed in the init frame itself: skip the instruction
				cb := f.cf.blocks[f.block]
				if f.pc < len(cb.ins) {
					if d := cb.ins[f.pc].dst; d >= 0 {
						f.regs[d] = opaque{why}
					}
					switch cb.ins[f.pc].in.(type) {
					case *ssa.If, *ssa.Return:
						panic(unsupErr{"init control flow: " + why})
					}
					f.pc++
				}
			} else {
				cb := f.cf.blocks[f.block]
				if f.pc > 0 {
					if d := cb.ins[f.pc-1].dst; d >= 0 {
						f.regs[d] = opaque{why}
					}
				}
			}
		}
	}()
	if fr.panic != nil {
		in.unwind(g, nil)
		return
	}
	in.step(g)
}

// skipInInit: while initialising a package, calls of other packages' init functions are skipped.
func (in *Interp) skipInInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil
}

// reach collects every cell reachable from v.
func (in *Interp) reach(v Value, seen map[Ptr]bool, maps map[*MapV]bool) {
	switch x := v.(type) {
	case Ptr:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		in.reachIn(x, seen, maps)
	case Struct:
		for i := range x {
			in.reach(x[i], seen, maps)
		}
	case Array:
		for i := range x {
			in.reach(x[i], seen, maps)
		}
	case Slice:
		for i := range x.a {
			if !seen[&x.a[i]] {
				seen[&x.a[i]] = true
				in.reachIn(&x.a[i], seen, maps)
			}
		}
	case Iface:
		in.reach(x.v, seen, maps)
	case Tuple:
		for i := range x {
			in.reach(x[i], seen, maps)
		}
	case *Closure:
		if x != nil {
			for _, e := range x.env {
				in.reach(e, seen, maps)
			}
		}
	case *MapV:
		if x != nil && maps != nil && !maps[x] {
			maps[x] = true
			for i := range x.keys {
				in.reach(x.keys[i], seen, maps)
				in.reach(x.vals[i], seen, maps)
			}
		}
	}
}

// reachIn visits the contents of a cell, including the member cells of aggregates.
func (in *Interp) reachIn(p Ptr, seen map[Ptr]bool, maps map[*MapV]bool) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			if !seen[&x[i]] {
				seen[&x[i]] = true
				in.reachIn(&x[i], seen, maps)
			}
		}
	case Array:
		for i := range x {
			if !seen[&x[i]] {
				seen[&x[i]] = true
				in.reachIn(&x[i], seen, maps)
			}
		}
	default:
		in.reach(*p, seen, maps)
	}
}

// ---- if-conversion

func (in *Interp) tryMerge(fr *Frame, c *Term) bool {
	for _, r := range fr.cf.blocks[fr.block].getRegions() {
		if in.mergeRegion(fr, c, r) {
			in.merges++
			return true
		}
	}
	return false
}

type edgeGuard struct {
	from int
	g    *Term
}

func (in *Interp) mergeRegion(fr *Frame, c *Term, r *region) bool {
	st := in.st
	b := fr.cf.fn.Blocks[fr.block]
	inc := map[int][]edgeGuard{} // block -> incoming guarded edges
	addEdge := func(from, to *ssa.BasicBlock, g *Term) {
		if g != st.F {
			inc[to.Index] = append(inc[to.Index], edgeGuard{from.Index, g})
		}
	}
	addEdge(b, b.Succs[0], c)
	addEdge(b, b.Succs[1], st.Not(c))
	saved := map[int32]Value{}
	set := func(d int32, v Value) {
		if _, ok := saved[d]; !ok {
			saved[d] = fr.regs[d]
		}
		fr.regs[d] = v
	}
	restore := func() {
		for d, v := range saved {
			fr.regs[d] = v
		}
	}
	phiVals := func(to *ssa.BasicBlock, edges []edgeGuard) ([]Value, bool) {
		cb := fr.cf.blocks[to.Index]
		var out []Value
		for i := range cb.phis {
			var v Value
			for k := len(edges) - 1; k >= 0; k-- {
				idx := -1
				for q, p := range to.Preds {
					if p.Index == edges[k].from {
						idx = q
						break
					}
				}
				x := in.get(fr, &cb.phis[i].edges[idx])
				if v == nil {
					v = x
					continue
				}
				m, ok := in.mergeVal(edges[k].g, x, v)
				if !ok {
					return nil, false
				}
				v = m
			}
			out = append(out, v)
		}
		return out, true
	}
	for _, blk := range r.blocks {
		edges := inc[blk.Index]
		if len(edges) == 0 {
			continue
		}
		g := st.F
		for _, e := range edges {
			g = st.Or(g, e.g)
		}
		vals, ok := phiVals(blk, edges)
		if !ok {
			restore()
			return false
		}
		cb := fr.cf.blocks[blk.Index]
		for i := range cb.phis {
			set(cb.phis[i].dst, vals[i])
		}
		for k := range cb.ins {
			ci := &cb.ins[k]
			switch ci.in.(type) {
			case *ssa.If:
				cc, ok := in.get(fr, &ci.ops[0]).(*Term)
				if !ok {
					restore()
					return false
				}
				addEdge(blk, blk.Succs[0], st.And(g, cc))
				addEdge(blk, blk.Succs[1], st.And(g, st.Not(cc)))
			case *ssa.Jump:
				addEdge(blk, blk.Succs[0], g)
			default:
				v, ok := in.pureEval(fr, ci)
				if !ok {
					restore()
					return false
				}
				set(ci.dst, v)
			}
		}
	}
	type exit struct {
		b     *ssa.BasicBlock
		g     *Term
		edges []edgeGuard
		vals  []Value
	}
	var exits []exit
	for _, e := range r.exits {
		edges := inc[e.Index]
		if len(edges) == 0 {
			continue
		}
		g := st.F
		for _, x := range edges {
			g = st.Or(g, x.g)
		}
		vals, ok := phiVals(e, edges)
		if !ok {
			restore()
			return false
		}
		exits = append(exits, exit{e, g, edges, vals})
	}
	if len(exits) == 0 {
		restore()
		return false
	}
	pick := exits[0]
	if len(exits) == 2 && !in.branch(exits[0].g) {
		pick = exits[1]
	}
	cb := fr.cf.blocks[pick.b.Index]
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = pick.vals[i]
	}
	fr.block = pick.b.Index
	fr.pc = 0
	return true
}

// mergeVal is ite(g, a, b) where expressible.
func (in *Interp) mergeVal(g *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return in.st.Ite(g, x, y), true
	case Ptr:
		y, ok := b.(Ptr)
		return a, ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok || x.length() != y.length() {
			return nil, false
		}
		if x.b == nil && y.b == nil && x.s == y.s {
			return a, true
		}
		o := make([]*Term, x.length())
		for i := range o {
			o[i] = in.st.Ite(g, in.strAt(x, i), in.strAt(y, i))
		}
		return normStr(o), true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return a, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := in.mergeVal(g, x.v, y.v)
		return Iface{x.t, v}, ok
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x.a) != len(y.a) || cap(x.a) != cap(y.a) || (x.a == nil) != (y.a == nil) {
			return nil, false
		}
		return a, len(x.a) == 0 && cap(x.a) == 0 || cap(x.a) > 0 && &x.a[:1][0] == &y.a[:1][0]
	case *Closure:
		y, ok := b.(*Closure)
		return a, ok && x == y
	case *ChanV:
		y, ok := b.(*ChanV)
		return a, ok && x == y
	}
	return nil, false
}

// pureEval evaluates an instruction speculatively; ok is false if it could fail or fork.
func (in *Interp) pureEval(fr *Frame, ci *cinstr) (v Value, ok bool) {
	switch x := ci.in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			d, isT := in.get(fr, &ci.ops[1]).(*Term)
			if !isT || !d.isConst() || d.c == 0 {
				return nil, false
			}
		case token.SHL, token.SHR:
			if _, signed, _ := intInfo(x.Y.Type()); signed {
				d, isT := in.get(fr, &ci.ops[1]).(*Term)
				if !isT || !d.isConst() || sx(d.c, d.w) < 0 {
					return nil, false
				}
			}
		case token.EQL, token.NEQ:
			// comparing interfaces can panic
			if _, isI := in.get(fr, &ci.ops[0]).(Iface); isI {
				return nil, false
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch p := in.get(fr, &ci.ops[0]).(type) {
			case Ptr:
				if p == nil {
					return nil, false
				}
			case *SymAddr:
				for _, e := range p.arr {
					if _, is := e.(*Term); !is {
						return nil, false
					}
				}
				if len(p.arr) > 512 {
					return nil, false
				}
			default:
				return nil, false
			}
		}
	case *ssa.FieldAddr:
		p, is := in.get(fr, &ci.ops[0]).(Ptr)
		if !is || p == nil {
			return nil, false
		}
	case *ssa.IndexAddr, *ssa.Index:
		t, is := in.get(fr, &ci.ops[1]).(*Term)
		if !is || !t.isConst() {
			return nil, false
		}
		n := 0
		switch a := in.get(fr, &ci.ops[0]).(type) {
		case Slice:
			n = len(a.a)
		case Array:
			n = len(a)
		case Str:
			n = a.length()
		case Ptr:
			if a == nil {
				return nil, false
			}
			arr, is := (*a).(Array)
			if !is {
				return nil, false
			}
			n = len(arr)
		default:
			return nil, false
		}
		if i := sx(t.c, t.w); i < 0 || i >= int64(n) {
			return nil, false
		}
	case *ssa.Call:
		fn := x.Call.Value.(*ssa.Builtin)
		return in.builtin(fn.Name(), []Value{in.get(fr, &ci.ops[1])}, &x.Call, fr), true
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupErr, targetPanic:
				v, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return in.eval(fr, ci), true
}

func shortFn(fn *ssa.Function) string {
	return strings.TrimPrefix(fn.String(), "github.com/infobloxopen/go-trees/")
}
