package main

// Modelled functions: the harness API (verifharness/sym), math/bits, byte search primitives, fmt, the parts
// of net whose loops would fork per bit, atomics and the few reflect operations the repository uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(in *Interp, fn *ssa.Function, args []Value) Value

type fallthroughIntr struct{} // returned by an intrinsic that declines: interpret the body

func (in *Interp) intrinsic(fn *ssa.Function, args []Value) (Value, bool) {
	f, ok := in.w.intr[fn]
	if !ok {
		f = lookupIntrinsic(fn)
		in.w.intr[fn] = f
	}
	if f == nil {
		return nil, false
	}
	r := f(in, fn, args)
	if _, no := r.(fallthroughIntr); no {
		return nil, false
	}
	return r, true
}

func lookupIntrinsic(fn *ssa.Function) intrFn {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		if f := atomicIntr(name[strings.LastIndexByte(name, '.')+1:]); f != nil {
			return f
		}
	}
	return nil
}

const symPkg = "verifharness/sym"

func concreteStr(in *Interp, v Value) string {
	s := v.(Str)
	if s.b != nil {
		in.unsupported("symbolic name")
	}
	return s.s
}

func symScalar(w uint8) intrFn {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.freshVar(concreteStr(in, a[0]), w)
	}
}

func bitsIntr(kind string, w uint8) intrFn {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		x := in.term(a[0])
		st := in.st
		switch kind {
		case "lz":
			return st.Clz(x, 64)
		case "tz":
			return st.Ctz(x, 64)
		case "len":
			return st.Sub(st.Const(uint64(w), 64), st.Clz(x, 64))
		}
		return st.Popcount(x, 64)
	}
}

func bytesOf(in *Interp, v Value) Str {
	switch x := v.(type) {
	case Str:
		return x
	case Slice:
		b := make([]*Term, len(x.a))
		for i := range b {
			b[i] = in.term(x.a[i])
		}
		return normStr(b)
	}
	in.unsupported(fmt.Sprintf("bytes of %T", v))
	return Str{}
}

func idxByte(in *Interp, fn *ssa.Function, a []Value) Value {
	s := bytesOf(in, a[0])
	c := in.term(a[1])
	for i := 0; i < s.length(); i++ {
		if in.branch(in.st.Eq(in.strAt(s, i), c)) {
			return in.st.Const(uint64(i), 64)
		}
	}
	return in.st.Const(^uint64(0), 64)
}

func lastIdxByte(in *Interp, fn *ssa.Function, a []Value) Value {
	s := bytesOf(in, a[0])
	c := in.st.Extract(in.term(a[1]), 7, 0)
	for i := s.length() - 1; i >= 0; i-- {
		if in.branch(in.st.Eq(in.strAt(s, i), c)) {
			return in.st.Const(uint64(i), 64)
		}
	}
	return in.st.Const(^uint64(0), 64)
}

func idxStr(in *Interp, fn *ssa.Function, a []Value) Value {
	s, sub := bytesOf(in, a[0]), bytesOf(in, a[1])
	for i := 0; i+sub.length() <= s.length(); i++ {
		if in.branch(in.eqTerm(s.sub(i, i+sub.length()), sub, nil)) {
			return in.st.Const(uint64(i), 64)
		}
	}
	return in.st.Const(^uint64(0), 64)
}

func countByte(in *Interp, fn *ssa.Function, a []Value) Value {
	s := bytesOf(in, a[0])
	c := in.term(a[1])
	r := in.st.Const(0, 64)
	for i := 0; i < s.length(); i++ {
		r = in.st.Add(r, in.st.Ite(in.st.Eq(in.strAt(s, i), c), in.st.Const(1, 64), in.st.Const(0, 64)))
	}
	return r
}

func compareIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	return in.strCompare(bytesOf(in, a[0]), bytesOf(in, a[1]))
}

func nop(in *Interp, fn *ssa.Function, a []Value) Value { return in.zeroResult(fn) }

func identity(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] }

var intrinsics map[string]intrFn

func init() {
	intrinsics = map[string]intrFn{
		symPkg + ".U8":   symScalar(8),
		symPkg + ".U16":  symScalar(16),
		symPkg + ".U32":  symScalar(32),
		symPkg + ".U64":  symScalar(64),
		symPkg + ".Int":  symScalar(64),
		symPkg + ".Bool": symScalar(0),
		symPkg + ".Range": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.rangeVar(concreteStr(in, a[0]), int64(in.intVal(a[1])), int64(in.intVal(a[2])))
		},
		symPkg + ".PrefixLen": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.prefixLen(concreteStr(in, a[0]), uint8(in.intVal(a[1])))
		},
		symPkg + ".Choose": func(in *Interp, fn *ssa.Function, a []Value) Value {
			n := in.intVal(a[1])
			if n <= 0 {
				panic(pathEnd{"empty choice"})
			}
			return in.st.Const(uint64(in.choose(concreteStr(in, a[0]), n)), 64)
		},
		symPkg + ".Concretize": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Const(in.concretize(in.term(a[0])), 64)
		},
		symPkg + ".ConcretizeBool": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Bool(in.branch(in.term(a[0])))
		},
		symPkg + ".Str": func(in *Interp, fn *ssa.Function, a []Value) Value {
			n := in.intVal(a[1])
			b := make([]*Term, n)
			for i := range b {
				b[i] = in.freshVar(concreteStr(in, a[0]), 8)
			}
			return normStr(b)
		},
		symPkg + ".Bytes": func(in *Interp, fn *ssa.Function, a []Value) Value {
			n := in.intVal(a[1])
			b := make([]Value, n)
			for i := range b {
				b[i] = in.freshVar(concreteStr(in, a[0]), 8)
			}
			return Slice{b}
		},
		symPkg + ".Assume": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.assume(in.term(a[0]))
			return nil
		},
		symPkg + ".Assert": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.assert(in.term(a[0]), concreteStr(in, a[1]))
			return nil
		},
		symPkg + ".And": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.And(in.term(a[0]), in.term(a[1]))
		},
		symPkg + ".Or": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Or(in.term(a[0]), in.term(a[1]))
		},
		symPkg + ".Not": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Not(in.term(a[0]))
		},
		symPkg + ".Implies": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Or(in.st.Not(in.term(a[0])), in.term(a[1]))
		},
		symPkg + ".Iff": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Eq(in.term(a[0]), in.term(a[1]))
		},
		symPkg + ".IteU64": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Ite(in.term(a[0]), in.term(a[1]), in.term(a[2]))
		},
		symPkg + ".IteInt": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Ite(in.term(a[0]), in.term(a[1]), in.term(a[2]))
		},
		symPkg + ".IteBool": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Ite(in.term(a[0]), in.term(a[1]), in.term(a[2]))
		},
		symPkg + ".EqStr": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.eqTerm(a[0], a[1], nil)
		},
		symPkg + ".LessStr": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.strLess(a[0].(Str), a[1].(Str))
		},
		symPkg + ".LtU64": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Ult(in.term(a[0]), in.term(a[1]))
		},
		symPkg + ".LtInt": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Slt(in.term(a[0]), in.term(a[1]))
		},
		symPkg + ".Cover": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.covers[concreteStr(in, a[0])] = true
			return nil
		},
		symPkg + ".Observe": func(in *Interp, fn *ssa.Function, a []Value) Value {
			i := a[1].(Iface)
			in.obs = append(in.obs, obsRec{concreteStr(in, a[0]), copyVal(i.v), i.t})
			return nil
		},
		symPkg + ".Param": func(in *Interp, fn *ssa.Function, a []Value) Value {
			if v, ok := in.h.Params[concreteStr(in, a[0])]; ok {
				return in.st.Const(uint64(v), 64)
			}
			return a[1]
		},
		symPkg + ".Freeze": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.frozen = map[Ptr]bool{}
			in.frozenM = map[*MapV]bool{}
			in.reach(a[0], in.frozen, in.frozenM)
			for p := range in.frozen {
				if in.w.globalCells[p] {
					delete(in.frozen, p)
				}
			}
			return nil
		},
		symPkg + ".FreezeShared": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.frozen = map[Ptr]bool{}
			in.frozenM = map[*MapV]bool{}
			in.reach(a[0], in.frozen, in.frozenM)
			for _, pkg := range in.w.prog.prog.AllPackages() {
				if !strings.HasPrefix(pkg.Pkg.Path(), "github.com/infobloxopen/go-trees/") {
					continue
				}
				for _, m := range pkg.Members {
					if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
						in.reach(in.globalAddr(g), in.frozen, in.frozenM)
					}
				}
			}
			in.frozenGlobals = true
			return nil
		},
		symPkg + ".Race": func(in *Interp, fn *ssa.Function, a []Value) Value { return in.st.Bool(false) },
		symPkg + ".Thaw": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.frozen, in.frozenM, in.frozenGlobals = nil, nil, false
			return nil
		},
		symPkg + ".Depth": func(in *Interp, fn *ssa.Function, a []Value) Value {
			d := &depthWalk{in: in, memo: map[Ptr]int{}, on: map[Ptr]bool{}}
			d.iface(a[0].(Iface))
			return in.st.Const(uint64(d.best), 64)
		},
		symPkg + ".Quiesce": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Bool(in.quiesce())
		},

		"math/bits.LeadingZeros":    bitsIntr("lz", 64),
		"math/bits.LeadingZeros64":  bitsIntr("lz", 64),
		"math/bits.LeadingZeros32":  bitsIntr("lz", 32),
		"math/bits.LeadingZeros16":  bitsIntr("lz", 16),
		"math/bits.LeadingZeros8":   bitsIntr("lz", 8),
		"math/bits.TrailingZeros":   bitsIntr("tz", 64),
		"math/bits.TrailingZeros64": bitsIntr("tz", 64),
		"math/bits.TrailingZeros32": bitsIntr("tz", 32),
		"math/bits.TrailingZeros16": bitsIntr("tz", 16),
		"math/bits.TrailingZeros8":  bitsIntr("tz", 8),
		"math/bits.Len":             bitsIntr("len", 64),
		"math/bits.Len64":           bitsIntr("len", 64),
		"math/bits.Len32":           bitsIntr("len", 32),
		"math/bits.Len16":           bitsIntr("len", 16),
		"math/bits.Len8":            bitsIntr("len", 8),
		"math/bits.OnesCount":       bitsIntr("pop", 64),
		"math/bits.OnesCount64":     bitsIntr("pop", 64),
		"math/bits.OnesCount32":     bitsIntr("pop", 32),
		"math/bits.OnesCount16":     bitsIntr("pop", 16),
		"math/bits.OnesCount8":      bitsIntr("pop", 8),

		"internal/bytealg.IndexByteString":     idxByte,
		"internal/bytealg.IndexByte":           idxByte,
		"internal/bytealg.LastIndexByteString": lastIdxByte,
		"internal/bytealg.LastIndexByte":       lastIdxByte,
		"internal/bytealg.CountString":         countByte,
		"internal/bytealg.Count":               countByte,
		"internal/bytealg.IndexString":         idxStr,
		"internal/bytealg.Index":               idxStr,
		"internal/stringslite.Index":           idxStr,
		"internal/stringslite.IndexByte":       idxByte,
		"strings.Index":                        idxStr,
		"strings.IndexByte":                    idxByte,
		"bytes.IndexByte":                      idxByte,
		"bytes.Index":                          idxStr,
		"internal/bytealg.Compare":             compareIntr,
		"internal/bytealg.CompareString":       compareIntr,
		"strings.Compare":                      compareIntr,
		"bytes.Compare":                        compareIntr,
		"internal/bytealg.Equal": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.eqTerm(bytesOf(in, a[0]), bytesOf(in, a[1]), nil)
		},
		"bytes.Equal": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.eqTerm(bytesOf(in, a[0]), bytesOf(in, a[1]), nil)
		},
		"cmp.Compare": func(in *Interp, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(Str); ok {
				return in.strCompare(s, a[1].(Str))
			}
			return fallthroughIntr{}
		},
		"internal/bytealg.MakeNoZero": func(in *Interp, fn *ssa.Function, a []Value) Value {
			n := in.intVal(a[0])
			b := make([]Value, n)
			for i := range b {
				b[i] = in.st.Const(0, 8)
			}
			return Slice{b}
		},
		"internal/abi.NoEscape":        identity,
		"internal/abi.Escape":          identity,
		"(*strings.Builder).copyCheck": nop,
		"(*internal/race.x).y":         nop,
		"runtime.KeepAlive":            nop,
		"runtime.GC":                   nop,
		"runtime.Gosched":              nop,
		"internal/race.Acquire":        nop,
		"internal/race.Release":        nop,
		"internal/race.ReleaseMerge":   nop,
		"internal/race.Enable":         nop,
		"internal/race.Disable":        nop,
		"log.Printf":                   nop,
		"log.Println":                  nop,
		"log.Print":                    nop,
		"net.isZeros":                  isZerosIntr,
		"net.CIDRMask":                 cidrMaskIntr,
		"(net.IPMask).Size":            maskSizeIntr,
		"fmt.Sprintf":                  sprintfIntr,
		"fmt.Errorf":                   errorfIntr,
		"(*errors.errorString).Error":  errTextIntr,
		"(*fmt.wrapError).Error":       errTextIntr,
		"fmt.Sprint":                   sprintIntr,
		"fmt.Sprintln":                 sprintIntr,
		"fmt.Printf":                   nop,
		"fmt.Println":                  nop,
		"fmt.Fprintf":                  nop,
		"errors.Is":                    errorsIsIntr,
		"strconv.Itoa":                 itoaIntr,
		"(*sync.Mutex).Lock":           lockIntr(true),
		"(*sync.Mutex).TryLock":        tryLockIntr(true),
		"(*sync.Mutex).Unlock":         unlockIntr(true),
		"(*sync.RWMutex).Lock":         lockIntr(true),
		"(*sync.RWMutex).TryLock":      tryLockIntr(true),
		"(*sync.RWMutex).Unlock":       unlockIntr(true),
		"(*sync.RWMutex).RLock":        lockIntr(false),
		"(*sync.RWMutex).TryRLock":     tryLockIntr(false),
		"(*sync.RWMutex).RUnlock":      unlockIntr(false),
		"(*sync.Pool).Put":             nop,
		"(*sync.Pool).Get":             poolGetIntr,
		"(*sync.WaitGroup).Add":        wgAddIntr,
		"(*sync.WaitGroup).Done":       wgDoneIntr,
		"(*sync.WaitGroup).Wait":       wgWaitIntr,
		"reflect.TypeOf":               reflTypeOf,
		"reflect.ValueOf":              reflValueOf,
		"(reflect.Value).Type":         rvIntr("Type"),
		"(reflect.Value).Kind":         rvIntr("Kind"),
		"(reflect.Value).Elem":         rvIntr("Elem"),
		"(reflect.Value).String":       rvIntr("String"),
		"(reflect.Value).Field":        rvIntr("Field"),
		"(reflect.Value).Interface":    rvIntr("Interface"),
		"(reflect.Value).CanInterface": rvIntr("CanInterface"),
		"(reflect.Value).NumField":     rvIntr("NumField"),
		"(reflect.Value).IsNil":        rvIntr("IsNil"),
		"(reflect.Value).IsValid":      rvIntr("IsValid"),
		"(reflect.Value).Len":          rvIntr("Len"),
		"reflect.Indirect":             rvIntr("Indirect"),
	}
}

// ---- net

func isZerosIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	s := a[0].(Slice)
	r := in.st.T
	for _, x := range s.a {
		t := in.term(x)
		r = in.st.And(r, in.st.Eq(t, in.st.Const(0, 8)))
	}
	return r
}

func termKeyOf(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(strconv.Itoa(t.id))
		b.WriteByte(',')
	}
	return b.String()
}

func cidrMaskIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	ones, bits := in.term(a[0]), in.term(a[1])
	if ones.isConst() || !bits.isConst() || bits.c != 32 && bits.c != 128 {
		return fallthroughIntr{}
	}
	st := in.st
	if !in.branch(st.Not(st.Ult(bits, ones))) {
		return Slice{}
	}
	n := int(bits.c / 8)
	if ones.op == OU2N && ones.uoff()%8 == 0 && ones.uoff() >= 0 && int(ones.uoff())+int(ones.a[0].w) <= 8*n {
		m := ones.a[0]
		if r := m.w % 8; r != 0 {
			m = st.Concat(m, st.Const(0, 8-r))
		}
		o := make([]Value, n)
		ts := make([]*Term, n)
		for i := range o {
			d := 8*i - int(ones.uoff())
			switch {
			case d < 0:
				ts[i] = st.Const(0xff, 8)
			case d >= int(m.w):
				ts[i] = st.Const(0, 8)
			default:
				hi := m.w - 1 - uint8(d)
				ts[i] = st.Extract(m, hi, hi-7)
			}
			o[i] = ts[i]
		}
		in.w.cidr[termKeyOf(ts)] = ones
		return Slice{o}
	}
	o := make([]Value, n)
	ts := make([]*Term, n)
	for i := range o {
		t := st.Const(0, 8)
		for k := 1; k <= 7; k++ {
			t = st.Ite(st.Eq(ones, st.Const(uint64(8*i+k), 64)), st.Const(^uint64(0xff>>uint(k)), 8), t)
		}
		t = st.Ite(st.Ult(ones, st.Const(uint64(8*i+8), 64)), t, st.Const(0xff, 8))
		o[i] = t
		ts[i] = t
	}
	in.w.cidr[termKeyOf(ts)] = ones
	return Slice{o}
}

func maskSizeIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	s, ok := a[0].(Slice)
	if !ok {
		return fallthroughIntr{}
	}
	ts := make([]*Term, len(s.a))
	allC := true
	for i := range ts {
		ts[i] = in.term(s.a[i])
		if !ts[i].isConst() {
			allC = false
		}
	}
	if allC {
		return fallthroughIntr{}
	}
	st := in.st
	bits := st.Const(uint64(8*len(ts)), 64)
	if ones, ok := in.w.cidr[termKeyOf(ts)]; ok {
		// these exact bytes are CIDRMask(ones): Size is its inverse where ones is in range, which the
		// path condition contains
		if in.implied(st.Not(st.Ult(bits, ones))) == 1 {
			return Tuple{ones, bits}
		}
	}
	canon := st.F
	ones := st.Const(0, 64)
	for k := 8 * len(ts); k >= 0; k-- {
		is := st.T
		for i := len(ts) - 1; i >= 0; i-- {
			n := k - 8*i
			c := uint64(0)
			switch {
			case n >= 8:
				c = 0xff
			case n > 0:
				c = ^uint64(0xff>>uint(n)) & 0xff
			}
			is = st.And(st.Eq(ts[i], st.Const(c, 8)), is)
		}
		canon = st.Or(canon, is)
		ones = st.Ite(is, st.Const(uint64(k), 64), ones)
	}
	if in.branch(canon) {
		return Tuple{ones, bits}
	}
	return Tuple{st.Const(0, 64), st.Const(0, 64)}
}

// ---- fmt and errors

// native converts a concrete interpreter value to a Go value for formatting.
func (in *Interp) native(v Value) (interface{}, bool) {
	i, ok := v.(Iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return nil, true
	}
	if _, named := i.t.(*types.Named); named {
		if in.w.prog.hasMethod(i.t, "String") || in.w.prog.hasMethod(i.t, "Error") {
			return nil, false
		}
	}
	switch x := i.v.(type) {
	case Str:
		return x.s, x.b == nil
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		b, _ := i.t.Underlying().(*types.Basic)
		if b == nil {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.c != 0, true
		case types.Int:
			return int(x.c), true
		case types.Int8:
			return int8(x.c), true
		case types.Int16:
			return int16(x.c), true
		case types.Int32:
			return int32(x.c), true
		case types.Int64:
			return int64(x.c), true
		case types.Uint:
			return uint(x.c), true
		case types.Uint8:
			return uint8(x.c), true
		case types.Uint16:
			return uint16(x.c), true
		case types.Uint32:
			return uint32(x.c), true
		case types.Uint64:
			return x.c, true
		}
	}
	return nil, false
}

const opaqueText = "\x00unmodelled text\x00"

// sprintf formats: concrete operands by fmt itself, symbolic ones as what fmt does with the same verb.
func (in *Interp) sprintf(a []Value) Str {
	f, ok := a[0].(Str)
	if !ok {
		return cstr(opaqueText)
	}
	vals := a[1].(Slice).a
	if f.b == nil {
		var args []interface{}
		for _, v := range vals {
			n, ok := in.native(v)
			if !ok {
				break
			}
			args = append(args, n)
		}
		if len(args) == len(vals) {
			return cstr(fmt.Sprintf(f.s, args...))
		}
	}
	text := func(s string) []*Term { return in.strTerms(cstr(s)) }
	var out []*Term
	k := 0
	// Verbs in symbolic parts of the format are decided by branching.
	for ft := in.strTerms(f); len(ft) > 0; {
		t := ft[0]
		ft = ft[1:]
		if !in.branch(in.st.Eq(t, in.st.Const('%', 8))) {
			out = append(out, t)
			continue
		}
		verb := "%"
		for len(ft) > 0 {
			c := byte(in.concretize(ft[0]))
			ft = ft[1:]
			verb += string([]byte{c})
			if strings.IndexByte("#0123456789", c) < 0 {
				break
			}
		}
		last := verb[len(verb)-1]
		switch {
		case verb == "%" || strings.IndexByte("#0123456789", last) >= 0:
			out = append(out, text("%!(NOVERB)")...)
		case verb == "%%":
			out = append(out, in.st.Const('%', 8))
		case strings.IndexByte("+-*[. ", last) >= 0 || last >= 0x80 || last == '%':
			return cstr(opaqueText)
		case k >= len(vals):
			out = append(out, text("%!"+string(rune(last))+"(MISSING)")...)
		default:
			t, ok := in.formatOne(verb, vals[k])
			if !ok {
				return cstr(opaqueText)
			}
			out = append(out, in.strTerms(t)...)
			k++
		}
	}
	if k < len(vals) {
		return cstr(opaqueText)
	}
	return normStr(out)
}

// formatOne formats one operand, which may be symbolic.
func (in *Interp) formatOne(verb string, v Value) (Str, bool) {
	if n, ok := in.native(v); ok {
		return cstr(fmt.Sprintf(verb, n)), true
	}
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return Str{}, false
	}
	if _, named := i.t.(*types.Named); named {
		return Str{}, false
	}
	b, _ := i.t.Underlying().(*types.Basic)
	if b == nil {
		return Str{}, false
	}
	switch x := i.v.(type) {
	case Str:
		switch verb {
		case "%s", "%v":
			return x, true
		case "%q", "%#v":
			q := in.w.prog.fn("strconv", "Quote")
			if q == nil {
				return Str{}, false
			}
			return in.callSync(&Closure{fn: q}, []Value{x}).(Str), true
		}
	case *Term:
		if b.Info()&types.IsInteger == 0 {
			return Str{}, false
		}
		signed := b.Info()&types.IsUnsigned == 0
		switch {
		case verb == "%d" || verb == "%v" || verb == "%#v" && signed:
			return in.decimal(x, signed), true
		case verb == "%c" && (x.w == 8 || b.Kind() == types.Int32 || b.Kind() == types.Int):
			return in.utf8(x, signed), true
		case strings.HasSuffix(verb, "d") && verb[1] != '#':
			n, err := strconv.Atoi(verb[1 : len(verb)-1])
			if err != nil {
				return Str{}, false
			}
			d := in.strTerms(in.decimal(x, signed))
			var sign []*Term
			pad := in.st.Const(' ', 8)
			if verb[1] == '0' {
				pad = in.st.Const('0', 8)
				if len(d) > 0 && d[0].isConst() && d[0].c == '-' {
					sign, d = d[:1:1], d[1:]
				}
			}
			for j := len(sign) + len(d); j < n; j++ {
				sign = append(sign, pad)
			}
			return normStr(append(sign, d...)), true
		case !signed && len(verb) > 2 && verb[1] == '0' && verb[len(verb)-1] == 'x':
			n, err := strconv.Atoi(verb[2 : len(verb)-1])
			if err != nil || 4*n != int(x.w) {
				return Str{}, false
			}
			out := make([]*Term, n)
			for j := range out {
				out[n-1-j] = in.hexDigit(in.st.Extract(x, uint8(4*j+3), uint8(4*j)))
			}
			return normStr(out), true
		case !signed && verb == "%#v":
			n := uint8(4)
			for n < x.w && in.branch(in.st.Not(in.st.Ult(x, in.st.Const(1<<n, x.w)))) {
				n += 4
			}
			out := in.strTerms(cstr("0x"))
			for j := int(n) - 4; j >= 0; j -= 4 {
				out = append(out, in.hexDigit(in.st.Extract(x, uint8(j+3), uint8(j))))
			}
			return normStr(out), true
		}
	}
	return Str{}, false
}

func (in *Interp) hexDigit(t *Term) *Term {
	st := in.st
	d := st.Zext(t, 8)
	return st.Ite(st.Ult(d, st.Const(10, 8)), st.Add(d, st.Const('0', 8)), st.Add(d, st.Const('a'-10, 8)))
}

// decimal writes an integer; the number of digits and the sign are decided by branching.
func (in *Interp) decimal(t *Term, signed bool) Str {
	st := in.st
	if t.isConst() {
		if signed {
			return cstr(strconv.FormatInt(sx(t.c, t.w), 10))
		}
		return cstr(strconv.FormatUint(t.c, 10))
	}
	var sign []*Term
	if signed && in.branch(st.Slt(t, st.Const(0, t.w))) {
		sign = in.strTerms(cstr("-"))
		t = st.Neg(t)
	}
	n, limit := 1, uint64(10)
	max := ^uint64(0) >> (64 - t.w)
	for limit <= max && in.branch(st.Not(st.Ult(t, st.Const(limit, t.w)))) {
		n++
		if limit > max/10 {
			break
		}
		limit *= 10
	}
	w := t.w
	if n <= 2 && w > 8 { // a narrow division
		t = st.Extract(t, 7, 0)
		w = 8
	} else if n <= 4 && w > 16 {
		t = st.Extract(t, 15, 0)
		w = 16
	}
	out := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		q := t
		if i > 0 {
			q = st.div(OUdiv, t, st.Const(10, w))
		}
		d := t
		if i > 0 {
			d = st.Sub(t, st.Mul(q, st.Const(10, w)))
		}
		if w > 8 {
			d = st.Extract(d, 7, 0)
		}
		out[i] = st.Add(d, st.Const('0', 8))
		t = q
	}
	return normStr(append(sign, out...))
}

// utf8 is the encoding of a character.
func (in *Interp) utf8(t *Term, signed bool) Str {
	if in.branch(in.st.Ult(t, in.st.Const(0x80, t.w))) {
		if t.w > 8 {
			t = in.st.Extract(t, 7, 0)
		}
		return normStr([]*Term{t})
	}
	c := in.concretize(t)
	if signed {
		c = uint64(sx(c, t.w))
	}
	if c > utf8.MaxRune {
		c = utf8.RuneError
	}
	return cstr(string(rune(c)))
}

// sprintfIntr: text that isn't modelled is only good for messages, so it may not be computed with.
func sprintfIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	s := in.sprintf(a)
	if s.b == nil && s.s == opaqueText {
		in.unsupported("fmt.Sprintf with symbolic operands")
	}
	return s
}

func sprintIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	var args []interface{}
	for _, v := range a[0].(Slice).a {
		n, ok := in.native(v)
		if !ok {
			return in.sprintSym(a[0].(Slice).a, fn.Name() == "Sprintln")
		}
		args = append(args, n)
	}
	if fn.Name() == "Sprintln" {
		return cstr(fmt.Sprintln(args...))
	}
	return cstr(fmt.Sprint(args...))
}

func (in *Interp) sprintSym(vals []Value, ln bool) Str {
	isStr := func(v Value) bool {
		i, ok := v.(Iface)
		if !ok || i.t == nil {
			return false
		}
		b, ok := i.t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	var out []*Term
	for k, v := range vals {
		if k > 0 && (ln || !isStr(v) && !isStr(vals[k-1])) {
			out = append(out, in.st.Const(' ', 8))
		}
		t, ok := in.formatOne("%v", v)
		if !ok {
			in.unsupported("fmt.Sprint with symbolic operands")
		}
		out = append(out, in.strTerms(t)...)
	}
	if ln {
		out = append(out, in.st.Const('\n', 8))
	}
	return normStr(out)
}

func errTextIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	if p, ok := a[0].(Ptr); ok && p != nil {
		if s, ok := (*p).(Struct)[0].(Str); ok && s.b == nil && s.s == opaqueText {
			in.unsupported("reading the text of an error with symbolic operands")
		}
	}
	return fallthroughIntr{}
}

func errorfIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	f := a[0].(Str)
	// The text of an error with symbolic operands is left open: reading it is not supported.
	msg := cstr(opaqueText)
	open := f.b != nil
	for _, v := range a[1].(Slice).a {
		if _, ok := in.native(v); !ok {
			open = true
		}
	}
	if !open {
		msg = in.sprintf(a)
	}
	p := new(Value)
	if f.b == nil && strings.Contains(f.s, "%w") {
		for _, v := range a[1].(Slice).a {
			if i, ok := v.(Iface); ok && i.t != nil && types.Implements(i.t, errorIface) {
				*p = Struct{msg, i}
				return Iface{t: types.NewPointer(in.w.prog.named("fmt", "wrapError")), v: p}
			}
		}
	}
	*p = Struct{msg}
	return Iface{t: types.NewPointer(in.w.prog.named("errors", "errorString")), v: p}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func errorsIsIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	for i := 0; i < 50; i++ {
		if err.t == nil || target.t == nil {
			return in.st.Bool(err.t == nil && target.t == nil)
		}
		if types.Comparable(target.t) && in.branch(in.eqTerm(err, target, nil)) {
			return in.st.T
		}
		m := in.w.prog.methodByName(err.t, "Unwrap")
		if m == nil {
			return in.st.F
		}
		r, ok := in.callSync(&Closure{fn: m}, []Value{err.v}).(Iface)
		if !ok {
			in.unsupported("errors.Is on joined errors")
		}
		err = r
	}
	return in.st.F
}

func itoaIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	return in.decimal(in.term(a[0]), true)
}

// ---- sync (cooperative scheduling: locks never contend across a blocking operation in this code)

func poolGetIntr(in *Interp, fn *ssa.Function, a []Value) Value {
	p := a[0].(Ptr)
	s := (*p).(Struct)
	f := s[len(s)-1]
	if c, ok := f.(*Closure); ok && c != nil {
		return in.callSync(c, nil)
	}
	return Iface{}
}

func atomicIntr(name string) intrFn {
	cell := func(in *Interp, v Value) Ptr {
		p, ok := v.(Ptr)
		if !ok {
			in.unsupported("atomic on non-cell")
		}
		if p == nil {
			in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
		}
		return p
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value { return copyVal(*cell(in, a[0])) }
	case strings.HasPrefix(name, "Store"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value { in.atomicStore(cell(in, a[0]), a[1]); return nil }
	case strings.HasPrefix(name, "Add"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := cell(in, a[0])
			n := in.st.Add(in.term(*p), in.term(a[1]))
			in.atomicStore(p, n)
			return n
		}
	case strings.HasPrefix(name, "Swap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := cell(in, a[0])
			old := copyVal(*p)
			in.atomicStore(p, a[1])
			return old
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := cell(in, a[0])
			if in.branch(in.eqTerm(*p, a[1], nil)) {
				in.atomicStore(p, a[2])
				return in.st.T
			}
			return in.st.F
		}
	}
	return nil
}

// ---- reflect (only what the repository uses)

func (in *Interp) typeIface(t types.Type) Value {
	return Iface{t: in.w.prog.rtypeT, v: rtypeV{t}}
}

func reflTypeOf(in *Interp, fn *ssa.Function, a []Value) Value {
	i := a[0].(Iface)
	if i.t == nil {
		return Iface{}
	}
	return in.typeIface(i.t)
}

func reflValueOf(in *Interp, fn *ssa.Function, a []Value) Value {
	i := a[0].(Iface)
	if i.t == nil {
		return RV{}
	}
	return RV{t: i.t, v: i.v}
}

func (in *Interp) kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interp) rtypeMethod(r rtypeV, name string, args []Value) Value {
	switch name {
	case "String":
		return cstr(typeString(r.t))
	case "Kind":
		return in.st.Const(in.kindOf(r.t), 64)
	case "Name":
		if n, ok := r.t.(*types.Named); ok {
			return cstr(n.Obj().Name())
		}
		if b, ok := r.t.(*types.Basic); ok {
			return cstr(b.Name())
		}
		return cstr("")
	case "Elem":
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			return in.typeIface(u.Elem())
		case *types.Slice:
			return in.typeIface(u.Elem())
		}
	case "NumField":
		return in.st.Const(uint64(r.t.Underlying().(*types.Struct).NumFields()), 64)
	case "ConvertibleTo", "AssignableTo":
		o := args[1].(Iface).v.(rtypeV)
		if name == "ConvertibleTo" {
			return in.st.Bool(types.ConvertibleTo(r.t, o.t))
		}
		return in.st.Bool(types.AssignableTo(r.t, o.t))
	}
	in.unsupported("reflect.Type." + name)
	return nil
}

func rvIntr(name string) intrFn {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		v, ok := a[0].(RV)
		if !ok {
			in.unsupported("reflect.Value operand")
		}
		if v.t == nil {
			switch name {
			case "IsValid":
				return in.st.F
			case "Kind":
				return in.st.Const(0, 64)
			}
			in.goPanic(cstr("reflect: call on zero Value"))
		}
		switch name {
		case "IsValid":
			return in.st.T
		case "Type":
			return in.typeIface(v.t)
		case "Kind":
			return in.st.Const(in.kindOf(v.t), 64)
		case "CanInterface":
			return in.st.T
		case "Interface":
			return Iface{t: v.t, v: copyVal(v.v)}
		case "NumField":
			return in.st.Const(uint64(v.t.Underlying().(*types.Struct).NumFields()), 64)
		case "Elem", "Indirect":
			switch u := v.t.Underlying().(type) {
			case *types.Pointer:
				p := v.v.(Ptr)
				if p == nil {
					return RV{}
				}
				return RV{t: u.Elem(), v: copyVal(*p)}
			case *types.Interface:
				i := v.v.(Iface)
				if i.t == nil {
					return RV{}
				}
				return RV{t: i.t, v: i.v}
			}
			if name == "Indirect" {
				return v
			}
			in.goPanic(cstr("reflect: call of reflect.Value.Elem on value"))
		case "Field":
			s, ok := v.t.Underlying().(*types.Struct)
			if !ok {
				in.goPanic(cstr("reflect: call of reflect.Value.Field on non-struct"))
			}
			i := in.intVal(a[1])
			return RV{t: s.Field(i).Type(), v: v.v.(Struct)[i]}
		case "String":
			if s, ok := v.v.(Str); ok {
				return s
			}
			return cstr("<" + typeString(v.t) + " Value>")
		case "IsNil":
			switch x := v.v.(type) {
			case Ptr:
				return in.st.Bool(x == nil)
			case Slice:
				return in.st.Bool(x.a == nil)
			case *MapV:
				return in.st.Bool(x == nil)
			}
		case "Len":
			switch x := v.v.(type) {
			case Str:
				return in.st.Const(uint64(x.length()), 64)
			case Slice:
				return in.st.Const(uint64(len(x.a)), 64)
			}
		}
		in.unsupported("reflect.Value." + name)
		return nil
	}
}

// ---- heap depth: longest chain of same-typed struct pointers

type depthWalk struct {
	in   *Interp
	memo map[Ptr]int
	on   map[Ptr]bool
	best int
}

func (d *depthWalk) iface(i Iface) {
	if i.t != nil {
		d.val(i.v, i.t)
	}
}

// val visits v of static type t and returns the longest chain starting at a direct pointer of each type.
func (d *depthWalk) val(v Value, t types.Type) {
	if v == nil {
		return
	}
	if ifc, ok := v.(Iface); ok {
		d.iface(ifc)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(Ptr)
		if ok && p != nil {
			if n := d.ptr(p, u.Elem()); n > d.best {
				d.best = n
			}
		}
	case *types.Struct:
		if s, ok := v.(Struct); ok {
			for i := range s {
				d.val(s[i], u.Field(i).Type())
			}
		}
	case *types.Array:
		for _, e := range v.(Array) {
			d.val(e, u.Elem())
		}
	case *types.Slice:
		for _, e := range v.(Slice).a {
			d.val(e, u.Elem())
		}
	}
}

// ptr returns the length of the longest chain of pointers to type t starting at p.
func (d *depthWalk) ptr(p Ptr, t types.Type) int {
	if n, ok := d.memo[p]; ok {
		return n
	}
	if d.on[p] {
		return 0
	}
	d.on[p] = true
	n := 1 + d.same(*p, t, t)
	d.on[p] = false
	d.memo[p] = n
	if n > d.best {
		d.best = n
	}
	return n
}

// same visits a value of type vt and returns the longest chain of t-pointers directly in it.
func (d *depthWalk) same(v Value, vt, t types.Type) int {
	best := 0
	max := func(n int) {
		if n > best {
			best = n
		}
	}
	if ifc, ok := v.(Iface); ok {
		d.iface(ifc)
		return 0
	}
	switch u := vt.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(Ptr)
		if ok && p != nil {
			n := d.ptr(p, u.Elem())
			if types.Identical(u.Elem(), t) {
				max(n)
			}
		}
	case *types.Struct:
		if s, ok := v.(Struct); ok {
			for i := range s {
				max(d.same(s[i], u.Field(i).Type(), t))
			}
		}
	case *types.Array:
		for _, e := range v.(Array) {
			max(d.same(e, u.Elem(), t))
		}
	case *types.Slice:
		for _, e := range v.(Slice).a {
			max(d.same(e, u.Elem(), t))
		}
	}
	return best
}

// ---- observation rendering

func (in *Interp) renderObs(o obsRec) string {
	return o.name + "=" + in.render(o.v, o.t)
}

func (in *Interp) render(v Value, t types.Type) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		c := in.evalM(x)
		if x.w == 0 {
			return strconv.FormatBool(c != 0)
		}
		if t != nil {
			if _, signed, _ := intInfo(t); signed {
				return strconv.FormatInt(sx(c, x.w), 10)
			}
		}
		return strconv.FormatUint(c, 10)
	case Str:
		b := make([]byte, x.length())
		for i := range b {
			b[i] = byte(in.evalM(in.strAt(x, i)))
		}
		return strconv.Quote(string(b))
	case Slice:
		out := []string{}
		var et types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		for _, e := range x.a {
			out = append(out, in.render(e, et))
		}
		return "[" + strings.Join(out, " ") + "]"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return in.render(x.v, x.t)
	}
	return fmt.Sprintf("?%T", v)
}

var _ = token.ADD
var _ = sort.Strings
