package main

// SMT solver process over a pipe. Definitions are global; assertions follow push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	IsSat
	Unknown
)

type Solver struct {
	kind    string
	bl      *Blaster // built-in back end; nil when every query goes to the process
	cross   float64  // share of the time spent cross-checking its answers
	CrossN  int
	CrossT  time.Duration
	OwnT    time.Duration
	nq      int
	qmask   int
	timeout int
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool // term ids defined in this process
	stack   []*Term      // asserted path condition, one push level each
	vars    []*Term      // declared variables in order
	st      *Store
	log     io.Writer

	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	MaxQ    time.Duration
	Errors  []string
	ndef    int
	dead    bool
	Killed  int
	limit   int // what the process was told last
}

func solverArgs(kind string) []string {
	switch kind {
	case "z3":
		return []string{"z3", "-in", "-smt2"}
	case "z3-new":
		return []string{"z3-new", "-in", "-smt2"}
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2"}
	}
	panic("unknown solver " + kind)
}

func newSolver(kind string, st *Store, timeoutMS int) *Solver {
	s := &Solver{kind: kind, st: st, timeout: timeoutMS}
	if k := strings.TrimPrefix(kind, "own+"); k != kind {
		s.kind, s.bl, s.cross = k, newBlaster(st), 0.3
		return s
	}
	s.start(timeoutMS)
	return s
}

func (s *Solver) start(timeoutMS int) {
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" && s.log == nil {
		f, _ := os.Create(fmt.Sprintf("%s.%p", p, s))
		s.log = f
	}
	a := solverArgs(s.kind)
	s.cmd = exec.Command(a[0], a[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.stack = nil
	s.vars = nil
	s.ndef = 0
	s.limit = 0
	s.send("(set-option :global-declarations true)\n")
	switch s.kind {
	case "cvc5":
		s.send(fmt.Sprintf("(set-option :tlimit-per %d)\n", timeoutMS))
	default:
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMS))
	}
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

// define makes sure t can be referred to by name.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	if t.op == OVar {
		s.send("(declare-const |" + t.name + "| " + sortName(t.w) + ")\n")
		s.vars = append(s.vars, t)
		s.defined[t.id] = true
		return
	}
	for _, x := range t.a {
		if x != nil {
			s.define(x)
		}
	}
	s.send("(define-fun t" + strconv.Itoa(t.id) + " () " + sortName(t.w) + " " + t.body() + ")\n")
	s.defined[t.id] = true
	s.ndef++
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send("(pop " + strconv.Itoa(n) + ")\n")
	}
	s.stack = s.stack[:k]
	for _, t := range pc[k:] {
		s.define(t)
		s.send("(push 1)\n(assert " + t.ref() + ")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc and extra; on sat it returns a model of the variables.
func (s *Solver) Check(pc []*Term, extra *Term, vars []inputRec) (Sat, Model) {
	t0 := time.Now()
	s.Queries++
	res, m := s.decide(pc, extra, vars)
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQ {
		s.MaxQ = d
	}
	switch res {
	case IsSat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
	}
	return res, m
}

func (s *Solver) decide(pc []*Term, extra *Term, vars []inputRec) (Sat, Model) {
	if s.bl == nil {
		return s.external(pc, extra, vars, s.timeout)
	}
	t0 := time.Now()
	res, m := s.bl.check(pc, extra, vars, 300000)
	if res == IsSat {
		// a model is evaluated on the terms themselves before it is believed
		s.st.beginEval()
		ok := s.st.eval(extra, m) != 0
		for _, t := range pc {
			ok = ok && s.st.eval(t, m) != 0
		}
		if !ok {
			s.Errors = append(s.Errors, "built-in solver: model does not satisfy the query")
			res = Unknown
		}
	}
	s.OwnT += time.Since(t0)
	s.nq++
	if res == Unknown {
		return s.external(pc, extra, vars, s.timeout)
	}
	// cross-check a spread-out sample against the independent solver, within a share of the time
	if s.nq&s.qmask == 0 && res == Unsat {
		if s.CrossT.Seconds() > s.cross*s.OwnT.Seconds()+0.5 {
			if s.qmask < 1<<20 {
				s.qmask = s.qmask<<1 | 1
			}
			return res, m
		}
		t1 := time.Now()
		r2, m2 := s.external(pc, extra, vars, min(s.timeout, 4000))
		s.CrossT += time.Since(t1)
		s.CrossN++
		if r2 != Unknown && r2 != res {
			s.Errors = append(s.Errors, fmt.Sprintf("solvers disagree: built-in %d, %s %d", res, s.kind, r2))
			return r2, m2
		}
	}
	return res, m
}

type solverDied string

// external asks the solver process. A process that does not answer in time is ended and the query left undecided.
func (s *Solver) external(pc []*Term, extra *Term, vars []inputRec, ms int) (res Sat, m Model) {
	if s.cmd == nil {
		s.start(s.timeout)
	}
	if s.limit != ms && s.kind != "cvc5" {
		s.limit = ms
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", ms))
	}
	cmd := s.cmd
	var late atomic.Bool
	dog := time.AfterFunc(time.Duration(ms)*time.Millisecond*3/2+2*time.Second, func() {
		late.Store(true)
		cmd.Process.Kill()
	})
	defer func() {
		dog.Stop()
		if e := recover(); e != nil {
			d, ok := e.(solverDied)
			if !ok || !late.Load() {
				if ok {
					e = engineErr("solver died: " + string(d))
				}
				panic(e)
			}
			s.Killed++
			s.inRaw.Close()
			cmd.Wait()
			s.cmd = nil
			res, m = Unknown, nil
		}
	}()
	return s.ask(pc, extra, vars)
}

func (s *Solver) ask(pc []*Term, extra *Term, vars []inputRec) (Sat, Model) {
	s.sync(pc)
	s.define(extra)
	s.send("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		panic(solverDied(err.Error()))
	}
	ans := s.line()
	var res Sat
	var m Model
	switch ans {
	case "sat":
		res = IsSat
		m = s.getModel(vars)
	case "unsat":
		res = Unsat
	default:
		res = Unknown
		if strings.HasPrefix(ans, "(error") {
			s.Errors = append(s.Errors, ans)
		}
	}
	if strings.HasPrefix(ans, "(error") {
		s.dead = true
	}
	s.send("(pop 1)\n")
	return res, m
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(solverDied(err.Error()))
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) getModel(vars []inputRec) Model {
	m := Model{}
	any := false
	for _, v := range vars {
		if s.defined[v.v.id] {
			if !any {
				s.send("(get-value (")
				any = true
			}
			s.send(v.v.ref() + " ")
		}
	}
	if !any {
		return m
	}
	s.send("))\n")
	s.in.Flush()
	// read one balanced s-expression
	depth, started := 0, false
	var b strings.Builder
	quoted := false
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(solverDied(err.Error()))
		}
		if c == '|' {
			quoted = !quoted
		}
		if !quoted {
			if c == '(' {
				depth++
				started = true
			}
			if c == ')' {
				depth--
			}
		}
		if started {
			b.WriteByte(c)
		}
	}
	txt := b.String()
	if strings.HasPrefix(txt, "(error") {
		s.Errors = append(s.Errors, txt)
		return nil
	}
	// tokens: ((|name| value) ...)
	i := 1
	byName := map[string]uint64{}
	for i < len(txt) {
		if txt[i] != '(' {
			i++
			continue
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|') + i + 1
			name = txt[i+1 : j]
			i = j + 1
		} else {
			j := i
			for txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := i
		if txt[j] == '(' {
			for txt[j] != ')' {
				j++
			}
			j++
		} else {
			for txt[j] != ')' {
				j++
			}
		}
		v := strings.TrimSpace(txt[i:j])
		i = j
		for i < len(txt) && txt[i] != ')' {
			i++
		}
		i++
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			x, _ = strconv.ParseUint(f[0], 10, 64)
		default:
			s.Errors = append(s.Errors, "cannot read value "+v)
		}
		byName[name] = x
	}
	for k, v := range byName {
		m[k] = v
	}
	return m
}
