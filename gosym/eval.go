package main

// Evaluation of value-producing instructions and builtins.

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) eval(fr *Frame, ci *cinstr) Value {
	st := in.st
	switch x := ci.in.(type) {
	case *ssa.BinOp:
		return in.binop(x, in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]))
	case *ssa.UnOp:
		v := in.get(fr, &ci.ops[0])
		switch x.Op {
		case token.MUL:
			return in.load(v)
		case token.NOT:
			return st.Not(in.term(v))
		case token.SUB:
			if f, ok := v.(float64); ok {
				return -f
			}
			return st.Neg(in.term(v))
		case token.XOR:
			return st.BvNot(in.term(v))
		}
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(x.Type().Underlying().(*types.Pointer).Elem())
		return p
	case *ssa.FieldAddr:
		switch p := in.get(fr, &ci.ops[0]).(type) {
		case Ptr:
			if p == nil {
				in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
			}
			s, ok := (*p).(Struct)
			if !ok {
				in.unsupported(fmt.Sprintf("field of %T", *p))
			}
			return &s[x.Field]
		case *SymAddr:
			s := p.arr[in.concretize(p.idx)].(Struct)
			return &s[x.Field]
		default:
			in.unsupported(fmt.Sprintf("field address of %T", p))
		}
	case *ssa.Field:
		s, ok := in.get(fr, &ci.ops[0]).(Struct)
		if !ok {
			in.unsupported("field of modelled value")
		}
		return s[x.Field]
	case *ssa.IndexAddr:
		var arr []Value
		switch p := in.get(fr, &ci.ops[0]).(type) {
		case Slice:
			arr = p.a
		case Ptr:
			if p == nil {
				in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
			}
			a, ok := (*p).(Array)
			if !ok {
				in.unsupported(fmt.Sprintf("index of %T", *p))
			}
			arr = a
		case *SymAddr:
			arr = p.arr[in.concretize(p.idx)].(Array)
		default:
			in.unsupported(fmt.Sprintf("index address of %T", p))
		}
		idx := in.index(in.term(in.get(fr, &ci.ops[1])), len(arr), x.Index.Type())
		if idx.isConst() {
			return &arr[idx.c]
		}
		return &SymAddr{arr, idx}
	case *ssa.Index:
		i := in.term(in.get(fr, &ci.ops[1]))
		switch a := in.get(fr, &ci.ops[0]).(type) {
		case Array:
			idx := in.index(i, len(a), x.Index.Type())
			return in.symLoadC(a, idx)
		case Str:
			return in.strIndex(a, in.index(i, a.length(), x.Index.Type()))
		}
		in.unsupported("index")
	case *ssa.Lookup:
		m := in.get(fr, &ci.ops[0])
		k := in.get(fr, &ci.ops[1])
		if s, ok := m.(Str); ok {
			return in.strIndex(s, in.index(in.term(k), s.length(), x.Index.Type()))
		}
		return in.mapLookup(m.(*MapV), k, x)
	case *ssa.Slice:
		return in.slice(x, in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]), in.get(fr, &ci.ops[2]), in.get(fr, &ci.ops[3]))
	case *ssa.Extract:
		t, ok := in.get(fr, &ci.ops[0]).(Tuple)
		if !ok {
			in.unsupported("extract of opaque value")
		}
		return t[x.Index]
	case *ssa.MakeInterface:
		v := in.get(fr, &ci.ops[0])
		if o, ok := v.(opaque); ok {
			return o
		}
		return Iface{t: x.X.Type(), v: copyVal(v)}
	case *ssa.ChangeInterface:
		return in.get(fr, &ci.ops[0])
	case *ssa.ChangeType:
		return in.get(fr, &ci.ops[0])
	case *ssa.Convert:
		return in.convert(in.get(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return in.convert(in.get(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &ci.ops[0]).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.a) < n {
			in.goPanic(cstr("runtime error: cannot convert slice to array pointer"))
		}
		p := new(Value)
		*p = Array(s.a[:n:n])
		return p
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for i := range x.Bindings {
			c.env = append(c.env, in.get(fr, &ci.ops[1+i]))
		}
		return c
	case *ssa.MakeSlice:
		n := in.intVal(in.get(fr, &ci.ops[0]))
		c := in.intVal(in.get(fr, &ci.ops[1]))
		if n < 0 || c < n {
			in.goPanic(cstr("runtime error: makeslice: len out of range"))
		}
		if c > 1<<20 {
			panic(limitErr{"slice size"})
		}
		a := make([]Value, n, c)
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := in.zero(et)
		full := a[:c]
		for i := range full {
			full[i] = copyVal(z)
		}
		return Slice{a}
	case *ssa.MakeMap:
		return &MapV{kt: x.Type().Underlying().(*types.Map).Key()}
	case *ssa.MakeChan:
		n := in.intVal(in.get(fr, &ci.ops[0]))
		return &ChanV{cap: n}
	case *ssa.TypeAssert:
		return in.typeAssert(x, in.get(fr, &ci.ops[0]))
	case *ssa.Range:
		switch v := in.get(fr, &ci.ops[0]).(type) {
		case *MapV:
			if v != nil && len(v.keys) > 1 {
				// iteration order is unspecified; one order is explored
				in.w.note(in.h, "map iteration order fixed")
			}
			return &mapIter{m: v}
		case Str:
			return &strIter{s: v}
		}
		in.unsupported("range")
	case *ssa.Next:
		return in.next(in.get(fr, &ci.ops[0]), x)
	}
	in.unsupported(fmt.Sprintf("%T", ci.in))
	return nil
}

func (in *Interp) symLoadC(a []Value, idx *Term) Value {
	if idx.isConst() {
		return copyVal(a[idx.c])
	}
	return in.symLoad(a, idx)
}

func (in *Interp) strIndex(s Str, idx *Term) Value {
	if idx.isConst() {
		return in.strAt(s, int(idx.c))
	}
	ts := in.strTerms(s)
	if len(ts) > 512 {
		return ts[in.concretize(idx)]
	}
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = in.st.Ite(in.st.Eq(idx, in.st.Const(uint64(i), idx.w)), ts[i], r)
	}
	return r
}

// index checks 0 <= i < n and returns i as a 64-bit term.
func (in *Interp) index(i *Term, n int, t types.Type) *Term {
	st := in.st
	_, signed, _ := intInfo(t)
	if signed {
		i = st.Sext(i, 64)
	} else {
		i = st.Zext(i, 64)
	}
	if !in.branch(st.Ult(i, st.Const(uint64(n), 64))) {
		in.goPanic(cstr(fmt.Sprintf("runtime error: index out of range with length %d", n)))
	}
	return i
}

func (in *Interp) binop(x *ssa.BinOp, a, b Value) Value {
	st := in.st
	switch x.Op {
	case token.EQL:
		return in.eqTerm(a, b, x.X.Type())
	case token.NEQ:
		return st.Not(in.eqTerm(a, b, x.X.Type()))
	}
	if s, ok := a.(Str); ok {
		y, ok := b.(Str)
		if !ok {
			in.unsupported("string op")
		}
		switch x.Op {
		case token.ADD:
			return in.concat(s, y)
		case token.LSS:
			return in.strLess(s, y)
		case token.GTR:
			return in.strLess(y, s)
		case token.LEQ:
			return st.Not(in.strLess(y, s))
		case token.GEQ:
			return st.Not(in.strLess(s, y))
		}
	}
	if f, ok := a.(float64); ok {
		g := b.(float64)
		switch x.Op {
		case token.ADD:
			return f + g
		case token.SUB:
			return f - g
		case token.MUL:
			return f * g
		case token.QUO:
			return f / g
		case token.LSS:
			return st.Bool(f < g)
		case token.LEQ:
			return st.Bool(f <= g)
		case token.GTR:
			return st.Bool(f > g)
		case token.GEQ:
			return st.Bool(f >= g)
		}
	}
	p, q := in.term(a), in.term(b)
	_, signed, _ := intInfo(x.X.Type())
	switch x.Op {
	case token.ADD:
		return st.Add(p, q)
	case token.SUB:
		return st.Sub(p, q)
	case token.MUL:
		return st.Mul(p, q)
	case token.QUO, token.REM:
		if in.branch(st.Eq(q, st.Const(0, q.w))) {
			in.goPanic(cstr("runtime error: integer divide by zero"))
		}
		op := OUdiv
		switch {
		case x.Op == token.QUO && signed:
			op = OSdiv
		case x.Op == token.REM && signed:
			op = OSrem
		case x.Op == token.REM:
			op = OUrem
		}
		return st.div(op, p, q)
	case token.AND:
		if p.w == 0 {
			return st.And(p, q)
		}
		return st.BvAnd(p, q)
	case token.OR:
		if p.w == 0 {
			return st.Or(p, q)
		}
		return st.BvOr(p, q)
	case token.XOR:
		return st.BvXor(p, q)
	case token.AND_NOT:
		return st.BvAnd(p, st.BvNot(q))
	case token.SHL, token.SHR:
		_, ys, _ := intInfo(x.Y.Type())
		if ys {
			if in.branch(st.Slt(q, st.Const(0, q.w))) {
				in.goPanic(cstr("runtime error: negative shift amount"))
			}
		}
		n := q
		if q.w > p.w {
			w := st.Const(uint64(p.w), q.w)
			big := st.Not(st.Ult(q, w))
			n = st.Extract(st.Ite(big, w, q), p.w-1, 0)
			// w itself fits in p.w bits for widths >= 8
		} else if q.w < p.w {
			n = st.Zext(q, p.w)
		}
		if x.Op == token.SHL {
			return st.Shl(p, n)
		}
		if signed {
			return st.Ashr(p, n)
		}
		return st.Lshr(p, n)
	case token.LSS:
		return in.less(p, q, signed)
	case token.GTR:
		return in.less(q, p, signed)
	case token.LEQ:
		return st.Not(in.less(q, p, signed))
	case token.GEQ:
		return st.Not(in.less(p, q, signed))
	}
	in.unsupported("binop " + x.Op.String())
	return nil
}

func (in *Interp) less(a, b *Term, signed bool) *Term {
	if signed {
		return in.st.Slt(a, b)
	}
	return in.st.Ult(a, b)
}

func (in *Interp) concat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	o := append(append([]*Term{}, in.strTerms(a)...), in.strTerms(b)...)
	return normStr(o)
}

func (in *Interp) slice(x *ssa.Slice, v, lo, hi, max Value) Value {
	opt := func(o Value, def int) int {
		if o == nil {
			return def
		}
		t := in.term(o)
		return int(sx(in.concretize(t), t.w))
	}
	bad := func(l, h, m int) {
		in.goPanic(cstr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, m)))
	}
	switch s := v.(type) {
	case Str:
		l := opt(lo, 0)
		h := opt(hi, s.length())
		if l < 0 || h < l || h > s.length() {
			bad(l, h, s.length())
		}
		return s.sub(l, h)
	case Slice:
		l := opt(lo, 0)
		h := opt(hi, len(s.a))
		m := opt(max, cap(s.a))
		if l < 0 || h < l || m < h || m > cap(s.a) {
			bad(l, h, cap(s.a))
		}
		if s.a == nil {
			return s
		}
		return Slice{s.a[l:h:m]}
	case Ptr:
		if s == nil {
			in.goPanic(cstr("runtime error: invalid memory address or nil pointer dereference"))
		}
		a := (*s).(Array)
		l := opt(lo, 0)
		h := opt(hi, len(a))
		m := opt(max, len(a))
		if l < 0 || h < l || m < h || m > len(a) {
			bad(l, h, len(a))
		}
		return Slice{[]Value(a)[l:h:m]}
	}
	in.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		in.unsupported(fmt.Sprintf("type assertion on %T", v))
	}
	match := false
	var res Value
	if i.t != nil {
		if types.IsInterface(x.AssertedType) {
			if _, isR := i.v.(rtypeV); isR {
				match = true
			} else {
				match = types.Implements(i.t, x.AssertedType.Underlying().(*types.Interface))
			}
			res = i
		} else {
			match = types.Identical(i.t, x.AssertedType)
			res = i.v
		}
	}
	if match {
		if x.CommaOk {
			return Tuple{copyVal(res), in.st.T}
		}
		return copyVal(res)
	}
	if x.CommaOk {
		return Tuple{in.zero(x.AssertedType), in.st.F}
	}
	d := "nil"
	if i.t != nil {
		d = i.t.String()
	}
	in.goPanic(cstr("interface conversion: interface is " + d + ", not " + x.AssertedType.String()))
	return nil
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	st := in.st
	fw, fs, fok := intInfo(from)
	tw, _, tok := intInfo(to)
	switch {
	case fok && tok && fw > 0 && tw > 0:
		t := in.term(v)
		switch {
		case tw < fw:
			return st.Extract(t, tw-1, 0)
		case tw == fw:
			return t
		case fs:
			return st.Sext(t, tw)
		default:
			return st.Zext(t, tw)
		}
	case isString(to) && isString(from):
		return v
	case isString(to) && fok:
		return in.utf8(in.term(v), fs)
	case isString(to):
		s, ok := v.(Slice)
		if !ok {
			break
		}
		el := from.Underlying().(*types.Slice).Elem()
		if w, _, _ := intInfo(el); w == 8 {
			b := make([]*Term, len(s.a))
			for i := range b {
				b[i] = in.term(s.a[i])
			}
			return normStr(b)
		}
		var o []byte
		for _, r := range s.a {
			o = utf8.AppendRune(o, rune(int32(in.concretize(in.term(r)))))
		}
		return cstr(string(o))
	case isString(from):
		s := v.(Str)
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if w, _, _ := intInfo(sl.Elem()); w == 8 {
				a := make([]Value, s.length())
				for i := range a {
					a[i] = in.strAt(s, i)
				}
				return Slice{a}
			}
			if s.b == nil {
				var a []Value
				for _, r := range s.s {
					a = append(a, st.Const(uint64(r), 32))
				}
				if a == nil {
					a = []Value{}
				}
				return Slice{a}
			}
			a := []Value{}
			it := &strIter{s: s}
			for it.i < s.length() {
				r, n := in.decodeRune(s, it.i)
				a = append(a, r)
				it.i += n
			}
			return Slice{a}
		}
	case isFloat(to) && fok:
		t := in.term(v)
		c := in.concretize(t)
		if fs {
			return float64(sx(c, t.w))
		}
		return float64(c)
	case isFloat(to) && isFloat(from):
		return v
	case isFloat(from) && tok:
		return st.Const(uint64(int64(v.(float64))), tw)
	}
	switch v.(type) {
	case Ptr, dataPtr, strData, Slice, *SymAddr:
		// unsafe.Pointer conversions keep the cell
		if fok || tok {
			break
		}
		return v
	}
	in.unsupported(fmt.Sprintf("conversion %s -> %s of %T", from, to, v))
	return nil
}

// decodeRune decodes one rune of a possibly symbolic string.
func (in *Interp) decodeRune(s Str, i int) (*Term, int) {
	st := in.st
	c := in.strAt(s, i)
	if in.branch(st.Ult(c, st.Const(utf8.RuneSelf, 8))) {
		return st.Zext(c, 32), 1
	}
	var buf []byte
	for k := i; k < s.length() && k < i+utf8.UTFMax; k++ {
		buf = append(buf, byte(in.concretize(in.strAt(s, k))))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return st.Const(uint64(uint32(r)), 32), n
}

func (in *Interp) next(v Value, x *ssa.Next) Value {
	st := in.st
	switch it := v.(type) {
	case *strIter:
		if it.i >= it.s.length() {
			return Tuple{st.F, st.Const(0, 64), st.Const(0, 32)}
		}
		i := it.i
		r, n := in.decodeRune(it.s, i)
		it.i += n
		return Tuple{st.T, st.Const(uint64(i), 64), r}
	case *mapIter:
		for it.m != nil && it.i < len(it.m.keys) {
			i := it.i
			it.i++
			if it.m.live[i] {
				return Tuple{st.T, it.m.keys[i], copyVal(it.m.vals[i])}
			}
		}
		tt := x.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return in.zero(t)
		}
		return Tuple{st.F, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	in.unsupported("next")
	return nil
}

// ---- maps (small, searched linearly; keys may be symbolic)

func (in *Interp) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if in.branch(in.eqTerm(m.keys[i], k, m.kt)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapLookup(m *MapV, k Value, x *ssa.Lookup) Value {
	in.hashable(k)
	i := in.mapFind(m, k)
	et := x.X.Type().Underlying().(*types.Map).Elem()
	var v Value
	if i >= 0 {
		v = copyVal(m.vals[i])
	} else {
		v = in.zero(et)
	}
	if x.CommaOk {
		return Tuple{v, in.st.Bool(i >= 0)}
	}
	return v
}

func (in *Interp) hashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.goPanic(cstr("runtime error: hash of unhashable type " + i.t.String()))
	}
}

func (in *Interp) mapUpdate(mv, k, v Value) {
	m, ok := mv.(*MapV)
	if !ok {
		in.unsupported("map update of opaque map")
	}
	if m == nil {
		in.goPanic(cstr("assignment to entry in nil map"))
	}
	in.hashable(k)
	if in.frozenM[m] && !in.guarded() {
		panic(violated{"FROZEN: write to a map reachable from an earlier version at " + in.where()})
	}
	in.saveMap(m)
	if i := in.mapFind(m, k); i >= 0 {
		m.vals[i] = copyVal(v)
		return
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	m.live = append(m.live, true)
}

// ---- builtins

func (in *Interp) builtin(name string, args []Value, c *ssa.CallCommon, fr *Frame) Value {
	st := in.st
	k := func(n int) Value { return st.Const(uint64(n), 64) }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return k(x.length())
		case Slice:
			return k(len(x.a))
		case Array:
			return k(len(x))
		case Ptr:
			return k(int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *MapV:
			n := 0
			if x != nil {
				for _, l := range x.live {
					if l {
						n++
					}
				}
			}
			return k(n)
		case *ChanV:
			if x == nil {
				return k(0)
			}
			return k(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return k(cap(x.a))
		case Array:
			return k(len(x))
		case Ptr:
			return k(int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *ChanV:
			if x == nil {
				return k(0)
			}
			return k(x.cap)
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			break
		}
		var add []Value
		if len(args) > 1 {
			switch y := args[1].(type) {
			case Slice:
				add = append(add, y.a...)
			case Str:
				for i := 0; i < y.length(); i++ {
					add = append(add, in.strAt(y, i))
				}
			default:
				in.unsupported("append")
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.a)
		if n+len(add) <= cap(s.a) {
			r := s.a[:n+len(add)]
			for i, v := range add {
				in.preStore(&r[n+i])
				assign(&r[n+i], v)
			}
			return Slice{r}
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		nc := growCap(n, cap(s.a), len(add), et)
		r := make([]Value, n+len(add), nc)
		for i, v := range s.a {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[n+i] = copyVal(v)
		}
		full := r[:nc]
		z := in.zero(et)
		for i := len(r); i < nc; i++ {
			full[i] = copyVal(z)
		}
		return Slice{r}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = append(src, y.a...)
		case Str:
			for i := 0; i < y.length(); i++ {
				src = append(src, in.strAt(y, i))
			}
		default:
			in.unsupported("copy")
		}
		n := len(d.a)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			src[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			in.preStore(&d.a[i])
			assign(&d.a[i], src[i])
		}
		return k(n)
	case "close":
		in.closeChan(args[0].(*ChanV))
		return nil
	case "delete":
		m := args[0].(*MapV)
		if in.frozenM[m] && !in.guarded() {
			panic(violated{"FROZEN: delete from a map reachable from an earlier version at " + in.where()})
		}
		in.saveMap(m)
		if i := in.mapFind(m, args[1]); i >= 0 {
			m.live[i] = false
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if in.frozenM[x] && !in.guarded() {
				panic(violated{"FROZEN: clearing of a map reachable from an earlier version at " + in.where()})
			}
			in.saveMap(x)
			for i := range x.live {
				x.live[i] = false
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				in.store(&x.a[i], in.zero(et))
			}
		}
		return nil
	case "recover":
		f := in.cur.top
		if f != nil && f.isDefer != nil && !f.isDefer.recovered {
			f.isDefer.recovered = true
			return f.isDefer.v
		}
		return Iface{}
	case "panic":
		panic(targetPanic{v: args[0]})
	case "print", "println":
		return nil
	case "min", "max":
		if s, ok := args[0].(Str); ok {
			for _, a := range args[1:] {
				y := a.(Str)
				l := in.strLess(y, s)
				if name == "max" {
					l = in.strLess(s, y)
				}
				if in.branch(l) {
					s = y
				}
			}
			return s
		}
		_, signed, _ := intInfo(c.Args[0].Type())
		r := in.term(args[0])
		for _, a := range args[1:] {
			y := in.term(a)
			if name == "min" {
				r = st.Ite(in.less(y, r, signed), y, r)
			} else {
				r = st.Ite(in.less(r, y, signed), y, r)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.goPanic(cstr("value method called using nil pointer"))
		}
		return args[0]
	case "String": // unsafe.String
		n := in.intVal(args[1])
		switch p := args[0].(type) {
		case dataPtr:
			b := make([]*Term, n)
			for i := range b {
				b[i] = in.term(p.s.a[i])
			}
			return normStr(b)
		case strData:
			return p.s.sub(0, n)
		case Ptr:
			if n == 0 {
				return Str{}
			}
		}
	case "SliceData":
		return dataPtr{args[0].(Slice)}
	case "StringData":
		return strData{args[0].(Str)}
	case "Slice":
		n := in.intVal(args[1])
		switch p := args[0].(type) {
		case dataPtr:
			return Slice{p.s.a[:n]}
		case strData:
			a := make([]Value, n)
			for i := range a {
				a[i] = in.strAt(p.s, i)
			}
			return Slice{a}
		}
	}
	in.unsupported("builtin " + name)
	return nil
}
