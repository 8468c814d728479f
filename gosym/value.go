package main

// Runtime values of the symbolic interpreter. Control structure (pointers, lengths, dynamic types) is
// concrete on every path; integers, booleans and string bytes are terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Ptr is the address of a cell; nil is the nil pointer.
type Ptr = *Value

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
	// Slice shares its backing cells; a==nil is the nil slice.
	Slice struct{ a []Value }
	// Str is a string: concrete (b == nil) or with symbolic bytes.
	Str struct {
		s string
		b []*Term
	}
	// Iface is an interface value; t == nil is the nil interface.
	Iface struct {
		t types.Type
		v Value
	}
	Closure struct {
		fn  *ssa.Function
		env []Value
	}
	MapV struct {
		keys []Value
		vals []Value
		kt   types.Type
		live []bool
	}
	ChanV struct {
		buf    []Value
		cap    int
		closed bool
		sendq  []*waiter
		recvq  []*waiter
	}
	waiter struct {
		g    *G
		val  Value // sender's value
		to   recvTo
		elem types.Type
		sel  *selWait // it is a case of a select statement
		idx  int      // which case
		pos  int      // where its value goes
	}
	// SymAddr is &arr[idx] with a symbolic in-range index.
	SymAddr struct {
		arr []Value
		idx *Term
	}
	mapIter struct {
		m *MapV
		i int
	}
	strIter struct {
		s Str
		i int
	}
	dataPtr struct{ s Slice } // unsafe.SliceData
	strData struct{ s Str }
	opaque  struct{ why string }
	rtypeV  struct{ t types.Type } // a modelled reflect.Type
	// RV is a modelled reflect.Value
	RV struct {
		t    types.Type
		v    Value
		addr Ptr
	}
)

func cstr(s string) Str { return Str{s: s} }

func (s Str) length() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (in *Interp) strAt(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return in.st.Const(uint64(s.s[i]), 8)
}

func (in *Interp) strTerms(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = in.st.Const(uint64(s.s[i]), 8)
	}
	return out
}

func (s Str) sub(lo, hi int) Str {
	if s.b != nil {
		return normStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

// normStr makes a concrete string if all bytes are constants.
func normStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	o := make([]byte, len(b))
	for i, t := range b {
		o[i] = byte(t.c)
	}
	return Str{s: string(o)}
}

func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return in.st.Const(0, w)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Kind() == types.UntypedNil:
			return Ptr(nil)
		}
		return opaque{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Struct:
		if isReflectValue(t) {
			return RV{}
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		a := make(Array, n)
		if n > 0 {
			z := in.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = in.zero(u.At(i).Type())
		}
		return tp
	}
	panic(engineErr("zero: " + t.String()))
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		c := make(Struct, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	case Array:
		c := make(Array, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	}
	return v
}

// assign stores v into *p keeping the addresses of aggregate members.
func assign(p Ptr, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				assign(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				assign(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	if v, ok := in.w.consts[c]; ok {
		return v
	}
	var r Value
	t := c.Type()
	if w, signed, ok := intInfo(t); ok {
		switch {
		case w == 0:
			r = in.st.Bool(constant.BoolVal(c.Value))
		case signed:
			x, exact := constant.Int64Val(constant.ToInt(c.Value))
			if !exact {
				panic(engineErr("const"))
			}
			r = in.st.Const(uint64(x), w)
		default:
			x, exact := constant.Uint64Val(constant.ToInt(c.Value))
			if !exact {
				y, _ := constant.Int64Val(constant.ToInt(c.Value))
				x = uint64(y)
			}
			r = in.st.Const(x, w)
		}
	} else if isString(t) {
		if c.Value.Kind() == constant.String {
			r = cstr(constant.StringVal(c.Value))
		} else {
			panic(engineErr("string const"))
		}
	} else if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		r = f
	} else {
		r = opaque{"const " + c.String()}
	}
	in.w.consts[c] = r
	return r
}

// eqTerm is Go's == on two values of static type t.
func (in *Interp) eqTerm(a, b Value, t types.Type) *Term {
	st := in.st
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			in.unsupported(fmt.Sprintf("== of %T and %T", a, b))
		}
		return st.Eq(x, y)
	case Str:
		y := b.(Str)
		if x.length() != y.length() {
			return st.F
		}
		if x.b == nil && y.b == nil {
			return st.Bool(x.s == y.s)
		}
		r := st.T
		for i := x.length() - 1; i >= 0; i-- {
			r = st.And(st.Eq(in.strAt(x, i), in.strAt(y, i)), r)
		}
		return r
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return st.Bool(x == y)
		}
		return st.F
	case *ChanV:
		return st.Bool(x == b.(*ChanV))
	case *MapV:
		return st.Bool(x == b.(*MapV))
	case Slice:
		return st.Bool(x.a == nil && b.(Slice).a == nil)
	case *Closure:
		y, ok := b.(*Closure)
		return st.Bool(ok && x == nil && y == nil)
	case *ssa.Function:
		return st.F // compared with nil
	case *ssa.Builtin:
		return st.F
	case float64:
		return st.Bool(x == b.(float64))
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return st.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return st.F
		}
		if !types.Comparable(x.t) {
			in.goPanic(cstr("runtime error: comparing uncomparable type " + x.t.String()))
		}
		return in.eqTerm(x.v, y.v, x.t)
	case Struct:
		y := b.(Struct)
		ut := t.Underlying().(*types.Struct)
		r := st.T
		for i := range x {
			r = st.And(r, in.eqTerm(x[i], y[i], ut.Field(i).Type()))
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := st.T
		for i := range x {
			r = st.And(r, in.eqTerm(x[i], y[i], et))
		}
		return r
	case rtypeV:
		y, ok := b.(rtypeV)
		return st.Bool(ok && types.Identical(x.t, y.t))
	}
	in.unsupported(fmt.Sprintf("== of %T", a))
	return nil
}

// strLess is the term a < b (bytewise).
func (in *Interp) strLess(a, b Str) *Term {
	st := in.st
	n := a.length()
	if b.length() < n {
		n = b.length()
	}
	r := st.Bool(a.length() < b.length())
	for i := n - 1; i >= 0; i-- {
		x, y := in.strAt(a, i), in.strAt(b, i)
		r = st.Or(st.Ult(x, y), st.And(st.Eq(x, y), r))
	}
	return r
}

func (in *Interp) strCompare(a, b Str) *Term {
	st := in.st
	return st.Ite(in.strLess(a, b), st.Const(^uint64(0), 64),
		st.Ite(in.eqTerm(a, b, nil), st.Const(0, 64), st.Const(1, 64)))
}

// growCap mirrors the runtime's append growth for the element size.
func growCap(n, c, add int, et types.Type) int {
	sz := sizes.Sizeof(et)
	if sz == 0 {
		sz = 0
	}
	e := reflect.ArrayOf(int(sz), reflect.TypeOf(byte(0)))
	if hasPointers(et) && sz%8 == 0 {
		e = reflect.ArrayOf(int(sz/8), reflect.TypeOf((*int)(nil)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(e), n, c)
	return reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(e), add, add)).Cap()
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	}
	return true
}

var sizes = types.SizesFor("gc", "amd64")
