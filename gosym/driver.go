package main

// Workers exploring the paths of harnesses, and the collected results.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA program, shared by all workers.
type Program struct {
	prog        *ssa.Program
	fset        *token.FileSet
	hpkg        *ssa.Package
	runtimeErrT types.Type
	rtypeT      types.Type
	mu          sync.Mutex
	methods     map[methodKey]*ssa.Function
}

type methodKey struct {
	t types.Type
	m string
}

func loadProgram(dir, pkg string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off",
			"GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, pkg)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, hpkg: sp[0], methods: map[methodKey]*ssa.Function{}}
	p.runtimeErrT = types.Typ[types.String]
	p.rtypeT = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "rtype", nil),
		types.NewStruct(nil, nil), nil))
	return p, nil
}

func (p *Program) named(pkg, name string) types.Type {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(engineErr("no package " + pkg))
	}
	return sp.Type(name).Type()
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	if sp := p.prog.ImportedPackage(pkg); sp != nil {
		return sp.Func(name)
	}
	return nil
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Name()}
	p.mu.Lock()
	defer p.mu.Unlock()
	if f, ok := p.methods[k]; ok {
		return f
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.methods[k] = f
	return f
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	k := methodKey{t, "?" + name}
	p.mu.Lock()
	defer p.mu.Unlock()
	if f, ok := p.methods[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = p.prog.MethodValue(ms.At(i))
		}
	}
	p.methods[k] = f
	return f
}

func (p *Program) hasMethod(t types.Type, name string) bool { return p.methodByName(t, name) != nil }

// Harness is one entry point with its bounds, and what its exploration found.
type Harness struct {
	Name   string
	Params map[string]int
	fn     *ssa.Function

	mu         sync.Mutex
	Paths      int
	Assumed    int
	Incomplete int // paths cut by limits or unsupported constructs
	Dropped    int // jobs not explored (time budget)
	Branches   int
	AssertTriv int
	AssertSMT  int
	Steps      int64
	Merges     int
	Conc       int
	Covers     map[string]int
	Notes      map[string]int
	Samples    []*PathSample
	nSample    int
	rng        *rand.Rand
	Violations []*Violation
	Cut        []*PathSample // inputs of paths given up; Covers holds the reason
	stopped    bool
	MaxPC      int
	first      time.Time
	last       time.Time
}

// PathSample is an explored path with concrete inputs, for validation against the compiled code.
type PathSample struct {
	Inputs []inputRec
	Obs    []string
	Covers []string
}

type Violation struct {
	Harness   string
	Msg       string
	Inputs    []inputRec
	Confirmed string // how the native replay failed; "" if not reproduced
}

type Job struct {
	h      *Harness
	prefix []decision
	model  Model
}

type Driver struct {
	prog     *Program
	mu       sync.Mutex
	cond     *sync.Cond
	initial  []*Job
	workers  []*Worker
	waiting  int
	done     bool
	deadline time.Time
	solver   string
	qTimeout int
	maxSteps int64
	stopViol int
	maxSamp  int
	verbose  bool
	funcs    map[string]bool
	initN    map[string]bool
	errs     []string
	smt      solverTotals

	// confirm replays a violation against the compiled code; once one is confirmed the exploration ends
	confirm func(*Harness, *Violation) bool
	trying  sync.WaitGroup
	tries   atomic.Int32
	halt    atomic.Bool
}

type solverTotals struct {
	Queries, Sat, Unsat, Unknown int
	Time, Max                    time.Duration
	Errors                       []string
	Terms                        int
	Cross                        int
	CrossTime                    time.Duration
	Confl                        int64
}

// Worker owns a term store and a solver process.
type Worker struct {
	d           *Driver
	id          int
	prog        *Program
	st          *Store
	solver      *Solver
	consts      map[*ssa.Const]Value
	funcs       map[*ssa.Function]*cfunc
	intr        map[*ssa.Function]intrFn
	globals     map[*ssa.Global]Ptr
	inited      map[*ssa.Package]bool
	globalCells map[Ptr]bool
	globalMaps  map[*MapV]bool
	cidr        map[string]*Term
	wg          map[Ptr]*int
	locks       map[Ptr]*lockState
	maxSteps    int64
	local       []*Job
	totTerms    int
}

func newDriver(p *Program, n int, solver string) *Driver {
	d := &Driver{prog: p, solver: solver, qTimeout: 30000, maxSteps: 8000000, stopViol: 3, maxSamp: 24,
		funcs: map[string]bool{}, initN: map[string]bool{}}
	d.cond = sync.NewCond(&d.mu)
	for i := 0; i < n; i++ {
		d.workers = append(d.workers, &Worker{d: d, id: i, prog: p})
	}
	return d
}

func (w *Worker) reset() {
	w.foldSolver()
	w.totTerms += 0
	w.st = newStore()
	w.solver = newSolver(w.d.solver, w.st, w.d.qTimeout)
	w.consts = map[*ssa.Const]Value{}
	w.funcs = map[*ssa.Function]*cfunc{}
	w.intr = map[*ssa.Function]intrFn{}
	w.globals = map[*ssa.Global]Ptr{}
	w.inited = map[*ssa.Package]bool{}
	w.globalCells = map[Ptr]bool{}
	w.globalMaps = map[*MapV]bool{}
	w.cidr = map[string]*Term{}
	w.maxSteps = w.d.maxSteps
}

func (w *Worker) foldSolver() {
	if w.solver == nil {
		return
	}
	w.d.mu.Lock()
	t := &w.d.smt
	s := w.solver
	t.Queries += s.Queries
	t.Sat += s.NSat
	t.Unsat += s.NUnsat
	t.Unknown += s.NUnk
	t.Time += s.Time
	t.Terms += s.ndef
	t.Cross += s.CrossN
	t.CrossTime += s.CrossT
	if s.bl != nil {
		t.Confl += s.bl.sat.Confl
		t.Terms += len(s.bl.bits)
	}
	if s.MaxQ > t.Max {
		t.Max = s.MaxQ
	}
	t.Errors = append(t.Errors, s.Errors...)
	w.d.mu.Unlock()
	s.close()
	w.solver = nil
}

func (w *Worker) noteFunc(fn *ssa.Function) {
	w.d.mu.Lock()
	w.d.funcs[fn.String()] = true
	w.d.mu.Unlock()
}

func (w *Worker) noteInit(s string) {
	w.d.mu.Lock()
	w.d.initN[s] = true
	w.d.mu.Unlock()
}

func (w *Worker) note(h *Harness, s string) {
	h.mu.Lock()
	h.Notes[s]++
	h.mu.Unlock()
}

func (w *Worker) countBranch(in *Interp) {
	in.h.mu.Lock()
	in.h.Branches++
	in.h.mu.Unlock()
}

func (w *Worker) countAssert(in *Interp, smt int) {
	in.h.mu.Lock()
	if smt > 0 {
		in.h.AssertSMT++
	} else {
		in.h.AssertTriv++
	}
	in.h.mu.Unlock()
}

func (w *Worker) pushJob(j *Job) {
	d := w.d
	d.mu.Lock()
	w.local = append(w.local, j)
	if d.waiting > 0 {
		d.cond.Signal()
	}
	d.mu.Unlock()
}

// next returns the next job for w, or nil when everything is explored.
func (w *Worker) next() *Job {
	d := w.d
	d.mu.Lock()
	defer d.mu.Unlock()
	for {
		if d.done {
			return nil
		}
		if n := len(w.local); n > 0 {
			j := w.local[n-1]
			w.local = w.local[:n-1]
			return j
		}
		if n := len(d.initial); n > 0 {
			j := d.initial[0]
			d.initial = d.initial[1:]
			return j
		}
		var victim *Worker
		for _, v := range d.workers {
			if v != w && len(v.local) > 0 && (victim == nil || len(v.local) > len(victim.local)) {
				victim = v
			}
		}
		if victim != nil {
			j := victim.local[0]
			victim.local = victim.local[1:]
			return j
		}
		d.waiting++
		if d.waiting == len(d.workers) {
			d.done = true
			d.cond.Broadcast()
			return nil
		}
		d.cond.Wait()
		d.waiting--
	}
}

func (d *Driver) run(hs []*Harness, budget time.Duration, seed int64) {
	d.deadline = time.Now().Add(budget)
	d.done, d.waiting = false, 0
	for i, h := range hs {
		h.Covers = map[string]int{}
		h.Notes = map[string]int{}
		h.rng = rand.New(rand.NewSource(seed + int64(i)))
		d.initial = append(d.initial, &Job{h: h, model: Model{}})
	}
	var wg sync.WaitGroup
	for _, w := range d.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					d.mu.Lock()
					d.errs = append(d.errs, fmt.Sprintf("worker: %v", r))
					d.waiting++
					if d.waiting == len(d.workers) {
						d.done = true
					}
					d.cond.Broadcast()
					d.mu.Unlock()
				}
			}()
			if w.st == nil {
				w.reset()
			}
			for {
				j := w.next()
				if j == nil {
					break
				}
				h := j.h
				h.mu.Lock()
				stop := h.stopped
				h.mu.Unlock()
				if stop || d.halt.Load() || time.Now().After(d.deadline) {
					h.mu.Lock()
					h.Dropped++
					h.mu.Unlock()
					continue
				}
				w.runPath(j)
				if w.st.n > 4000000 || w.solver.dead || w.solver.bl != nil && len(w.solver.bl.sat.level) > 2000000 {
					w.reset()
				}
			}
		}(w)
	}
	wg.Wait()
	d.trying.Wait()
	for _, w := range d.workers {
		w.foldSolver()
		w.st = nil
	}
}

func (in *Interp) inputVals() []inputRec {
	ins := make([]inputRec, len(in.inputs))
	for i, x := range in.inputs {
		ins[i] = inputRec{Name: x.Name, W: x.W, Val: in.evalM(x.t)}
	}
	return ins
}

// runPath executes one job to its end.
func (w *Worker) runPath(j *Job) {
	in := &Interp{w: w, st: w.st, job: j, h: j.h, prefix: j.prefix, known: map[*Term]bool{},
		varSeen: map[string]int{}, covers: map[string]bool{}}
	in.setModel(j.model)
	w.wg = map[Ptr]*int{}
	w.locks = map[Ptr]*lockState{}
	h := j.h
	status, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case pathEnd:
				status, msg = "assumed", e.why
			case unsupErr:
				status, msg = "unsupported", e.why+" at "+in.where()
			case limitErr:
				status, msg = "limit", e.why
			case violated:
				status, msg = "violation", e.msg
			case uncaughtErr:
				status, msg = "violation", "PANIC: "+e.msg+" at "+in.where()
			case engineErr:
				if strings.HasPrefix(string(e), "solver died") {
					w.solver.dead = true
				}
				status, msg = "unsupported", "engine: "+string(e)+" at "+in.where()
			default:
				if os.Getenv("GOSYM_CRASH") != "" {
					panic(r)
				}
				status, msg = "unsupported", fmt.Sprintf("engine failure: %v at %s", r, in.where())
			}
		}()
		main := in.newG(h.fn, nil, nil)
		in.runMain(main)
	}()
	for i := len(in.undo) - 1; i >= 0; i-- {
		if u := in.undo[i]; u.m != nil {
			*u.m = u.c
		} else {
			*u.p = u.v
		}
	}
	// self-check: the model satisfies the path condition
	if status == "ok" || status == "violation" {
		for _, t := range in.pc {
			if in.evalM(t) == 0 {
				status, msg = "unsupported", "engine: model does not satisfy the path condition"
				break
			}
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	now := time.Now()
	if h.first.IsZero() {
		h.first = now
	}
	h.last = now
	h.Steps += in.steps
	h.Merges += in.merges
	h.Conc += in.conc
	if len(in.pc) > h.MaxPC {
		h.MaxPC = len(in.pc)
	}
	if w.d.verbose {
		fmt.Fprintf(os.Stderr, "[%d] %s path %d: %s %s (dec %d, pc %d, steps %d)\n", w.id, h.Name, h.Paths, status, msg,
			len(in.dec), len(in.pc), in.steps)
	}
	switch status {
	case "assumed":
		h.Assumed++
		return
	case "unsupported", "limit":
		h.Incomplete++
		h.Notes[status+": "+msg]++
		if len(h.Cut) < 40 || len(h.Cut) < 80 && h.Notes[status+": "+msg] == 1 {
			h.Cut = append(h.Cut, &PathSample{Inputs: in.inputVals(), Covers: []string{status + ": " + msg}})
		}
		return
	}
	h.Paths++
	for c := range in.covers {
		h.Covers[c]++
	}
	ins := in.inputVals()
	if status == "violation" {
		same := 0
		for _, v := range h.Violations {
			if v.Msg == msg {
				same++
			}
		}
		if same < 3 {
			v := &Violation{Harness: h.Name, Msg: msg, Inputs: ins}
			h.Violations = append(h.Violations, v)
			if d := w.d; d.confirm != nil && d.tries.Add(1) <= 12 {
				d.trying.Add(1)
				go func() {
					defer d.trying.Done()
					if !d.halt.Load() && d.confirm(h, v) {
						d.halt.Store(true)
					}
				}()
			}
		}
		if len(h.Violations) >= w.d.stopViol {
			h.stopped = true
		}
		return
	}
	h.nSample++
	k := -1
	if len(h.Samples) < w.d.maxSamp {
		h.Samples = append(h.Samples, nil)
		k = len(h.Samples) - 1
	} else if r := h.rng.Intn(h.nSample); r < len(h.Samples) {
		k = r
	}
	if k >= 0 {
		s := &PathSample{Inputs: ins}
		for _, o := range in.obs {
			s.Obs = append(s.Obs, in.renderObs(o))
		}
		for c := range in.covers {
			s.Covers = append(s.Covers, c)
		}
		sort.Strings(s.Covers)
		h.Samples[k] = s
	}
}
