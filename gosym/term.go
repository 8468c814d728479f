package main

// Hash-consed bit-vector / boolean terms with local simplification.
// Width 0 means Bool; widths 1..64 are bit-vectors. Each worker has its own store.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // c = hi<<8|lo
	OSext
	OIte
	OBNot
	OBAnd
	OBOr
	OEq
	OUlt
	OSlt
	OU2N // c + number of leading ones of a[0], a mask of the form 1..10..0
)

var opName = [...]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite", OBNot: "not", OBAnd: "and",
	OBOr: "or", OEq: "=", OUlt: "bvult", OSlt: "bvslt"}

// Term is an immutable node; equal terms of one store are pointer-equal.
type Term struct {
	op   Op
	w    uint8
	c    uint64 // constant value; extract bounds
	name string // variables
	a    [3]*Term
	id   int
}

type termKey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d int
}

// Store holds the terms of one worker.
type Store struct {
	m    map[termKey]*Term
	vars map[string]*Term
	n    int
	T, F *Term
	// evaluation memo
	memo []uint64
	gen  []uint32
	cur  uint32
}

func newStore() *Store {
	s := &Store{m: map[termKey]*Term{}, vars: map[string]*Term{}}
	s.T = s.mk(OConst, 0, 1, nil, nil, nil)
	s.F = s.mk(OConst, 0, 0, nil, nil, nil)
	return s
}

func idOf(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (s *Store) mk(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	k := termKey{op, w, c, idOf(a), idOf(b), idOf(d)}
	if t, ok := s.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, a: [3]*Term{a, b, d}, id: s.n}
	s.n++
	s.m[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (s *Store) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v != 0 {
			return s.T
		}
		return s.F
	}
	return s.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (s *Store) Bool(b bool) *Term {
	if b {
		return s.T
	}
	return s.F
}

func (s *Store) Var(name string, w uint8) *Term {
	if t, ok := s.vars[name]; ok {
		if t.w != w {
			panic(engineErr("variable " + name + " reused with another width"))
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: s.n}
	s.n++
	s.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// ---- booleans

func (s *Store) Not(a *Term) *Term {
	switch {
	case a == s.T:
		return s.F
	case a == s.F:
		return s.T
	case a.op == OBNot:
		return a.a[0]
	}
	return s.mk(OBNot, 0, 0, a, nil, nil)
}

func (s *Store) And(a, b *Term) *Term {
	if a == s.F || b == s.F {
		return s.F
	}
	if a == s.T || a == b {
		return b
	}
	if b == s.T {
		return a
	}
	if (a.op == OBNot && a.a[0] == b) || (b.op == OBNot && b.a[0] == a) {
		return s.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OBAnd, 0, 0, a, b, nil)
}

func (s *Store) Or(a, b *Term) *Term {
	if a == s.T || b == s.T {
		return s.T
	}
	if a == s.F || a == b {
		return b
	}
	if b == s.F {
		return a
	}
	if (a.op == OBNot && a.a[0] == b) || (b.op == OBNot && b.a[0] == a) {
		return s.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OBOr, 0, 0, a, b, nil)
}

func (s *Store) Ite(c, a, b *Term) *Term {
	if c == s.T || a == b {
		return a
	}
	if c == s.F {
		return b
	}
	if c.op == OBNot {
		return s.Ite(c.a[0], b, a)
	}
	if a.w == 0 {
		switch {
		case a == s.T && b == s.F:
			return c
		case a == s.F && b == s.T:
			return s.Not(c)
		case a == s.T:
			return s.Or(c, b)
		case b == s.F:
			return s.And(c, a)
		case a == s.F:
			return s.And(s.Not(c), b)
		case b == s.T:
			return s.Or(s.Not(c), a)
		}
	}
	if a.op == OU2N || b.op == OU2N {
		if x, y, off, ok := s.uPair(a, b); ok {
			return s.U2N(s.Ite(c, x, y), off, a.w)
		}
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	return s.mk(OIte, a.w, 0, c, a, b)
}

// ---- comparison

// constLeaves reports whether t is an ite-tree whose leaves are constants (bounded size).
func constLeaves(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.op == OConst {
		return true
	}
	return t.op == OIte && constLeaves(t.a[1], budget) && constLeaves(t.a[2], budget)
}

func isIteConst(t *Term) bool {
	if t.op != OIte {
		return false
	}
	n := 300
	return constLeaves(t, &n)
}

func (s *Store) mapIte(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if t.op != OIte {
		return f(t)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := s.Ite(t.a[0], s.mapIte(t.a[1], f, memo), s.mapIte(t.a[2], f, memo))
	memo[t] = r
	return r
}

func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.T
	}
	if a.w != b.w {
		panic(engineErr(fmt.Sprintf("eq widths %d %d", a.w, b.w)))
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.c == b.c)
	}
	if a.op == OU2N || b.op == OU2N {
		if x, y, _, ok := s.uPair(a, b); ok {
			if y.isConst() {
				x, y = y, x
			}
			if x.isConst() {
				n := uint8(bits.OnesCount64(x.c))
				r := s.T
				if n > 0 {
					r = s.bit(y, y.w-n)
				}
				if n < y.w {
					r = s.And(r, s.Not(s.bit(y, y.w-1-n)))
				}
				return r
			}
			return s.Eq(x, y)
		}
	}
	if a.w > 1 && (a.isConst() || b.isConst()) {
		if l1, h1, ok := rng(a); ok {
			if l2, h2, ok := rng(b); ok && (h1 < l2 || h2 < l1) {
				return s.F
			}
		}
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == s.T {
			return a
		}
		if b == s.F {
			return s.Not(a)
		}
		if a.op == OBNot && a.a[0] == b || b.op == OBNot && b.a[0] == a {
			return s.F
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if isIteConst(a) {
			return s.mapIte(a, func(l *Term) *Term { return s.Eq(l, b) }, map[*Term]*Term{})
		}
		switch a.op {
		case OConcat:
			lw := a.a[1].w
			return s.And(s.Eq(a.a[0], s.Const(b.c>>lw, a.a[0].w)), s.Eq(a.a[1], s.Const(b.c, lw)))
		case OSext:
			x := a.a[0]
			if uint64(sx(b.c&mask(x.w), x.w))&mask(a.w) != b.c {
				return s.F
			}
			return s.Eq(x, s.Const(b.c, x.w))
		case OAdd:
			if a.a[1].isConst() {
				return s.Eq(a.a[0], s.Const(b.c-a.a[1].c, a.w))
			}
		case OXor:
			if a.a[1].isConst() {
				return s.Eq(a.a[0], s.Const(b.c^a.a[1].c, a.w))
			}
			if b.c == 0 {
				return s.Eq(a.a[0], a.a[1])
			}
		case ONot:
			return s.Eq(a.a[0], s.Const(^b.c, a.w))
		}
	}
	if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w {
		return s.And(s.Eq(a.a[0], b.a[0]), s.Eq(a.a[1], b.a[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, 0, 0, a, b, nil)
}

func (s *Store) Ult(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.c < b.c)
	}
	if b.isConst() && b.c == 0 {
		return s.F
	}
	if a.isConst() && a.c == mask(a.w) {
		return s.F
	}
	if a.w > 1 {
		if l1, h1, ok := rng(a); ok && l1 >= 0 {
			if l2, h2, ok := rng(b); ok && l2 >= 0 {
				if h1 < l2 {
					return s.T
				}
				if l1 >= h2 {
					return s.F
				}
				if a.op == OU2N || b.op == OU2N {
					if r := s.uCmp(a, b); r != nil {
						return r
					}
				}
			}
		}
	}
	if b.isConst() && b.c == 1 {
		return s.Eq(a, s.Const(0, a.w))
	}
	if b.isConst() && isIteConst(a) {
		return s.mapIte(a, func(l *Term) *Term { return s.Ult(l, b) }, map[*Term]*Term{})
	}
	if a.isConst() && isIteConst(b) {
		return s.mapIte(b, func(l *Term) *Term { return s.Ult(a, l) }, map[*Term]*Term{})
	}
	// zero-extended operands
	if az, aw := zeroHi(a); az > 0 {
		if b.isConst() {
			if b.c > mask(aw) {
				return s.T
			}
			return s.Ult(s.Extract(a, aw-1, 0), s.Const(b.c, aw))
		}
		if bz, bw := zeroHi(b); bz > 0 {
			w := aw
			if bw > w {
				w = bw
			}
			return s.Ult(s.Extract(a, w-1, 0), s.Extract(b, w-1, 0))
		}
	}
	if a.isConst() {
		if bz, bw := zeroHi(b); bz > 0 {
			if a.c >= mask(bw) {
				return s.F
			}
			return s.Ult(s.Const(a.c, bw), s.Extract(b, bw-1, 0))
		}
	}
	return s.mk(OUlt, 0, 0, a, b, nil)
}

// zeroHi returns (number of known-zero high bits, remaining width) if t is concat(0, x).
func zeroHi(t *Term) (uint8, uint8) {
	if t.op == OConcat && t.a[0].isConst() && t.a[0].c == 0 {
		return t.a[0].w, t.a[1].w
	}
	return 0, t.w
}

func (s *Store) Slt(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.isConst() && b.isConst() {
		return s.Bool(sx(a.c, a.w) < sx(b.c, b.w))
	}
	if l1, h1, ok := rng(a); ok {
		if l2, h2, ok := rng(b); ok {
			if h1 < l2 {
				return s.T
			}
			if l1 >= h2 {
				return s.F
			}
			if a.op == OU2N || b.op == OU2N {
				if r := s.uCmp(a, b); r != nil {
					return r
				}
			}
		}
	}
	if b.isConst() && isIteConst(a) {
		return s.mapIte(a, func(l *Term) *Term { return s.Slt(l, b) }, map[*Term]*Term{})
	}
	if a.isConst() && isIteConst(b) {
		return s.mapIte(b, func(l *Term) *Term { return s.Slt(a, l) }, map[*Term]*Term{})
	}
	az, _ := zeroHi(a)
	bz, _ := zeroHi(b)
	aNon := az > 0 || a.isConst() && sx(a.c, a.w) >= 0
	bNon := bz > 0 || b.isConst() && sx(b.c, b.w) >= 0
	if aNon && bNon {
		return s.Ult(a, b)
	}
	if aNon && b.isConst() { // b negative
		return s.F
	}
	if bNon && a.isConst() { // a negative
		return s.T
	}
	return s.mk(OSlt, 0, 0, a, b, nil)
}

// ---- unary numbers
//
// A prefix length is best represented by its mask: comparisons become single bit tests and the mask
// itself needs no table. OU2N(m) + c is the number of leading ones of m, for masks whose ones are all
// leading (the callers guarantee that by construction or by a constraint on the input).

// U2N is the number of leading ones of m plus off, as a w-bit value.
func (s *Store) U2N(m *Term, off int64, w uint8) *Term {
	if m.isConst() {
		return s.Const(uint64(off+int64(bits.LeadingZeros64(^(m.c<<(64-m.w))))), w)
	}
	return s.mk(OU2N, w, uint64(off), m, nil, nil)
}

func (t *Term) uoff() int64 { return int64(t.c) }

// thermo is the w-bit mask with n leading ones.
func (s *Store) thermo(n int64, w uint8) *Term {
	return s.Const(mask(w)&^(mask(w)>>uint(n)), w)
}

func (s *Store) bit(t *Term, i uint8) *Term { return s.Eq(s.Extract(t, i, i), s.Const(1, 1)) }

// pad widens a mask at its low end.
func (s *Store) pad(m *Term, w uint8) *Term {
	if m.w == w {
		return m
	}
	return s.Concat(m, s.Const(0, w-m.w))
}

// asU2N gives t the form off + ones(m) with the offset and width of ref.
func (s *Store) asU2N(t, ref *Term) (*Term, bool) {
	if t.op == OU2N && t.c == ref.c {
		return t.a[0], true
	}
	if t.isConst() {
		n := sx(t.c, t.w) - ref.uoff()
		if n >= 0 && n <= int64(ref.a[0].w) {
			return s.thermo(n, ref.a[0].w), true
		}
	}
	return nil, false
}

// uPair represents both as masks of one width, if possible.
func (s *Store) uPair(a, b *Term) (x, y *Term, off int64, ok bool) {
	ref := a
	if ref.op != OU2N {
		ref = b
	}
	if ref.op != OU2N {
		return
	}
	x, ok = s.asU2N(a, ref)
	if !ok {
		return
	}
	y, ok = s.asU2N(b, ref)
	if !ok {
		return
	}
	w := x.w
	if y.w > w {
		w = y.w
	}
	return s.pad(x, w), s.pad(y, w), ref.uoff(), true
}

// rng bounds the signed value of t, if known.
func rng(t *Term) (lo, hi int64, ok bool) {
	switch t.op {
	case OConst:
		v := sx(t.c, t.w)
		return v, v, true
	case OU2N:
		return t.uoff(), t.uoff() + int64(t.a[0].w), true
	case OConcat:
		if z, w := zeroHi(t); z > 0 && w < 63 {
			return 0, int64(mask(w)), true
		}
	case OAdd:
		if l, h, k := rng(t.a[0]); k && t.a[1].isConst() {
			c := sx(t.a[1].c, t.w)
			lim := int64(1) << 40
			if t.w < 42 {
				lim = int64(1) << (t.w - 1)
			}
			if c > -lim && c < lim && l > -lim && h < lim && l+c >= -lim && h+c < lim {
				return l + c, h + c, true
			}
		}
	case OIte:
		if l, h, k := rng(t.a[1]); k {
			if l2, h2, k2 := rng(t.a[2]); k2 {
				if l2 < l {
					l = l2
				}
				if h2 > h {
					h = h2
				}
				return l, h, true
			}
		}
	}
	return 0, 0, false
}

// uCmp decides a < b where one is unary; nil if it does not apply.
func (s *Store) uCmp(a, b *Term) *Term {
	x, y, _, ok := s.uPair(a, b)
	if !ok {
		return nil
	}
	if a.isConst() { // a < ones: the bit after the first a is set
		n := uint8(bits.OnesCount64(x.c))
		if n >= x.w {
			return s.F
		}
		return s.bit(y, x.w-1-n)
	}
	if b.isConst() {
		n := uint8(bits.OnesCount64(y.c))
		if n == 0 {
			return s.F
		}
		return s.Not(s.bit(x, x.w-n))
	}
	return s.Not(s.Eq(s.BvAnd(y, s.BvNot(x)), s.Const(0, x.w)))
}

// ---- structure

func uOK(off int64, mw, w uint8) bool {
	if w >= 62 {
		return true
	}
	return w > 1 && off >= -(int64(1)<<(w-1)) && off+int64(mw) < int64(1)<<(w-1)
}

// unaryDown recognises c - ones(m), possibly zero-extended, and returns m; a count above c then wraps to
// a value no smaller than c.
func unaryDown(t *Term, c int64) *Term {
	if z, _ := zeroHi(t); z > 0 {
		t = t.a[1]
	}
	if t.op == OSub && t.a[0].isConst() && t.a[1].op == OU2N && t.a[1].uoff() == 0 {
		if int64(t.a[0].c) == c && t.a[0].w >= 8 {
			return t.a[1].a[0]
		}
	}
	return nil
}

func (s *Store) Extract(x *Term, hi, lo uint8) *Term {
	if hi < lo || hi >= x.w {
		panic(engineErr("extract"))
	}
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	switch x.op {
	case OU2N:
		if lo == 0 && uOK(x.uoff(), x.a[0].w, w) {
			return s.U2N(x.a[0], x.uoff(), w)
		}
	case OLshr:
		// one bit of a word, selected by a unary index: (x >> (w-1-n)) & 1
		if hi == 0 {
			if m := unaryDown(x.a[1], int64(x.w)-1); m != nil && m.w <= x.w {
				m = s.pad(m, x.w)
				first := s.BvAnd(s.BvNot(m), s.Concat(s.Const(1, 1), s.Extract(m, m.w-1, 1)))
				return s.Ite(s.Eq(s.BvAnd(first, x.a[0]), s.Const(0, x.w)), s.Const(0, 1), s.Const(1, 1))
			}
		}
	case OConst:
		return s.Const(x.c>>lo, w)
	case OExtract:
		base := uint8(x.c & 0xff)
		return s.Extract(x.a[0], hi+base, lo+base)
	case OConcat:
		lw := x.a[1].w
		if lo >= lw {
			return s.Extract(x.a[0], hi-lw, lo-lw)
		}
		if hi < lw {
			return s.Extract(x.a[1], hi, lo)
		}
		return s.Concat(s.Extract(x.a[0], hi-lw, 0), s.Extract(x.a[1], lw-1, lo))
	case OSext:
		in := x.a[0]
		if hi < in.w {
			return s.Extract(in, hi, lo)
		}
		if lo == 0 {
			return s.Sext(in, w)
		}
	case OIte:
		if isIteConst(x) {
			return s.mapIte(x, func(l *Term) *Term { return s.Extract(l, hi, lo) }, map[*Term]*Term{})
		}
		return s.Ite(x.a[0], s.Extract(x.a[1], hi, lo), s.Extract(x.a[2], hi, lo))
	case OAnd, OOr, OXor:
		return s.bitop(x.op, s.Extract(x.a[0], hi, lo), s.Extract(x.a[1], hi, lo))
	case ONot:
		return s.BvNot(s.Extract(x.a[0], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			a, b := s.Extract(x.a[0], hi, 0), s.Extract(x.a[1], hi, 0)
			switch x.op {
			case OAdd:
				return s.Add(a, b)
			case OSub:
				return s.Sub(a, b)
			default:
				return s.Mul(a, b)
			}
		}
	}
	return s.mk(OExtract, w, uint64(hi)<<8|uint64(lo), x, nil, nil)
}

// Concat builds hi:lo; normal form is right-nested with merged neighbours.
func (s *Store) Concat(hi, lo *Term) *Term {
	if hi.op == OConcat {
		return s.Concat(hi.a[0], s.Concat(hi.a[1], lo))
	}
	first, rest := lo, (*Term)(nil)
	if lo.op == OConcat {
		first, rest = lo.a[0], lo.a[1]
	}
	if m := s.joinAdj(hi, first); m != nil {
		if rest == nil {
			return m
		}
		return s.Concat(m, rest)
	}
	if hi.w+lo.w > 64 {
		panic(engineErr("concat wider than 64"))
	}
	return s.mk(OConcat, hi.w+lo.w, 0, hi, lo, nil)
}

func (s *Store) joinAdj(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Const(a.c<<b.w|b.c, a.w+b.w)
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] {
		if uint8(a.c&0xff) == uint8(b.c>>8)+1 {
			return s.Extract(a.a[0], uint8(a.c>>8), uint8(b.c&0xff))
		}
	}
	return nil
}

func (s *Store) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OU2N && x.uoff() >= 0 {
		return s.U2N(x.a[0], x.uoff(), w)
	}
	if isIteConst(x) {
		return s.mapIte(x, func(l *Term) *Term { return s.Const(l.c, w) }, map[*Term]*Term{})
	}
	return s.Concat(s.Const(0, w-x.w), x)
}

func (s *Store) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return s.Const(uint64(sx(x.c, x.w)), w)
	}
	if z, _ := zeroHi(x); z > 0 {
		return s.Zext(x, w)
	}
	if x.op == OU2N {
		return s.U2N(x.a[0], x.uoff(), w)
	}
	if x.op == OSext {
		x = x.a[0]
	}
	if isIteConst(x) {
		return s.mapIte(x, func(l *Term) *Term { return s.Sext(l, w) }, map[*Term]*Term{})
	}
	return s.mk(OSext, w, 0, x, nil, nil)
}

// segments of a right-nested concat, low first: (term, lo offset)
func segs(t *Term) []*Term {
	var out []*Term
	for t.op == OConcat {
		out = append(out, t.a[0])
		t = t.a[1]
	}
	out = append(out, t)
	return out // high first
}

// align splits both terms at the union of their segment boundaries; high first.
func (s *Store) align(a, b *Term) (as, bs []*Term) {
	cuts := map[uint8]bool{}
	for _, t := range []*Term{a, b} {
		off := t.w
		for _, g := range segs(t) {
			off -= g.w
			cuts[off] = true
		}
	}
	hi := a.w
	for lo := int(a.w) - 1; lo >= 0; lo-- {
		if cuts[uint8(lo)] {
			as = append(as, s.Extract(a, hi-1, uint8(lo)))
			bs = append(bs, s.Extract(b, hi-1, uint8(lo)))
			hi = uint8(lo)
		}
	}
	return
}

// runs splits a constant into runs of equal bits (as a list of constants, high first); nil if too many.
func (s *Store) runs(c *Term, limit int) []*Term {
	var out []*Term
	hi := int(c.w) - 1
	for hi >= 0 {
		b := c.c >> uint(hi) & 1
		lo := hi
		for lo > 0 && c.c>>uint(lo-1)&1 == b {
			lo--
		}
		out = append(out, s.Const(c.c>>uint(lo), uint8(hi-lo+1)))
		if len(out) > limit {
			return nil
		}
		hi = lo - 1
	}
	return out
}

func (s *Store) BvNot(a *Term) *Term {
	if a.isConst() {
		return s.Const(^a.c, a.w)
	}
	if a.op == ONot {
		return a.a[0]
	}
	if isIteConst(a) {
		return s.mapIte(a, func(l *Term) *Term { return s.Const(^l.c, l.w) }, map[*Term]*Term{})
	}
	if a.op == OConcat {
		return s.Concat(s.BvNot(a.a[0]), s.BvNot(a.a[1]))
	}
	return s.mk(ONot, a.w, 0, a, nil, nil)
}

func (s *Store) bitop(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OAnd:
			return s.Const(a.c&b.c, a.w)
		case OOr:
			return s.Const(a.c|b.c, a.w)
		default:
			return s.Const(a.c^b.c, a.w)
		}
	}
	if a == b {
		if op == OXor {
			return s.Const(0, a.w)
		}
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		ones := b.c == mask(b.w)
		switch {
		case op == OAnd && b.c == 0:
			return b
		case op == OAnd && ones, op == OOr && b.c == 0, op == OXor && b.c == 0:
			return a
		case op == OOr && ones:
			return b
		case op == OXor && ones:
			return s.BvNot(a)
		}
		if isIteConst(a) {
			return s.mapIte(a, func(l *Term) *Term { return s.bitop(op, l, b) }, map[*Term]*Term{})
		}
		if op == OAnd || op == OOr {
			if rs := s.runs(b, 5); rs != nil && len(rs) > 1 {
				var out *Term
				off := a.w
				for _, r := range rs {
					part := s.bitop(op, s.Extract(a, off-1, off-r.w), r)
					off -= r.w
					if out == nil {
						out = part
					} else {
						out = s.Concat(out, part)
					}
				}
				return out
			}
		}
	}
	if a.op == OConcat || b.op == OConcat {
		as, bs := s.align(a, b)
		if len(as) > 1 {
			useful := true
			for i := range as {
				if !as[i].isConst() && !bs[i].isConst() && as[i] != bs[i] {
					useful = false
					break
				}
			}
			if useful {
				var out *Term
				for i := range as {
					p := s.bitop(op, as[i], bs[i])
					if out == nil {
						out = p
					} else {
						out = s.Concat(out, p)
					}
				}
				return out
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return s.mk(op, a.w, 0, a, b, nil)
}

func (s *Store) BvAnd(a, b *Term) *Term { return s.bitop(OAnd, a, b) }
func (s *Store) BvOr(a, b *Term) *Term  { return s.bitop(OOr, a, b) }
func (s *Store) BvXor(a, b *Term) *Term { return s.bitop(OXor, a, b) }

// ---- arithmetic

func (s *Store) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Const(a.c+b.c, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OU2N {
			if n := sx(b.c, b.w); n > -1000 && n < 1000 && uOK(a.uoff()+n, a.a[0].w, a.w) {
				return s.U2N(a.a[0], a.uoff()+n, a.w)
			}
		}
		if a.op == OAdd && a.a[1].isConst() {
			return s.Add(a.a[0], s.Const(a.a[1].c+b.c, a.w))
		}
		if isIteConst(a) {
			return s.mapIte(a, func(l *Term) *Term { return s.Const(l.c+b.c, l.w) }, map[*Term]*Term{})
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OAdd, a.w, 0, a, b, nil)
}

func (s *Store) Sub(a, b *Term) *Term {
	if a == b {
		return s.Const(0, a.w)
	}
	if b.isConst() {
		return s.Add(a, s.Const(-b.c, b.w))
	}
	if a.isConst() && isIteConst(b) {
		return s.mapIte(b, func(l *Term) *Term { return s.Const(a.c-l.c, l.w) }, map[*Term]*Term{})
	}
	return s.mk(OSub, a.w, 0, a, b, nil)
}

func (s *Store) Neg(a *Term) *Term { return s.Sub(s.Const(0, a.w), a) }

func (s *Store) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Const(a.c*b.c, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return s.Shl(a, s.Const(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OMul, a.w, 0, a, b, nil)
}

func (s *Store) div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		w := a.w
		switch op {
		case OUdiv:
			return s.Const(a.c/b.c, w)
		case OUrem:
			return s.Const(a.c%b.c, w)
		case OSdiv:
			if sx(b.c, w) == -1 {
				return s.Const(-a.c, w)
			}
			return s.Const(uint64(sx(a.c, w)/sx(b.c, w)), w)
		case OSrem:
			if sx(b.c, w) == -1 {
				return s.Const(0, w)
			}
			return s.Const(uint64(sx(a.c, w)%sx(b.c, w)), w)
		}
	}
	return s.mk(op, a.w, 0, a, b, nil)
}

// Shifts: the count has the width of the shifted operand; counts >= width behave as in Go.
func (s *Store) Shl(a, n *Term) *Term {
	if n.isConst() {
		if n.c >= uint64(a.w) {
			return s.Const(0, a.w)
		}
		if n.c == 0 {
			return a
		}
		return s.Concat(s.Extract(a, a.w-1-uint8(n.c), 0), s.Const(0, uint8(n.c)))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	if a.isConst() && a.c == mask(a.w) {
		if m := unaryDown(n, int64(a.w)); m != nil && m.w <= a.w {
			return s.pad(m, a.w)
		}
	}
	return s.mk(OShl, a.w, 0, a, n, nil)
}

func (s *Store) Lshr(a, n *Term) *Term {
	if n.isConst() {
		if n.c >= uint64(a.w) {
			return s.Const(0, a.w)
		}
		if n.c == 0 {
			return a
		}
		return s.Concat(s.Const(0, uint8(n.c)), s.Extract(a, a.w-1, uint8(n.c)))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return s.mk(OLshr, a.w, 0, a, n, nil)
}

func (s *Store) Ashr(a, n *Term) *Term {
	if n.isConst() {
		c := n.c
		if c >= uint64(a.w) {
			c = uint64(a.w) - 1
		}
		if c == 0 {
			return a
		}
		return s.Sext(s.Extract(a, a.w-1, uint8(c)), a.w)
	}
	return s.mk(OAshr, a.w, 0, a, n, nil)
}

// Clz is the number of leading zeros of x as a w-bit value.
func (s *Store) Clz(x *Term, w uint8) *Term {
	// m has ones exactly above the first one of x
	var m *Term
	zero := s.Const(0, 1)
	z := s.T
	for i := int(x.w) - 1; i >= 0; i-- {
		z = s.And(z, s.Eq(s.Extract(x, uint8(i), uint8(i)), zero))
		b := s.Ite(z, s.Const(1, 1), zero)
		if m == nil {
			m = b
		} else {
			m = s.Concat(m, b)
		}
	}
	return s.U2N(m, 0, w)
}

// Ctz is the number of trailing zeros.
func (s *Store) Ctz(x *Term, w uint8) *Term {
	r := s.Const(uint64(x.w), w)
	for i := int(x.w) - 1; i >= 0; i-- {
		r = s.Ite(s.Eq(s.Extract(x, uint8(i), uint8(i)), s.Const(1, 1)), s.Const(uint64(i), w), r)
	}
	return r
}

// Popcount of x as a w-bit value.
func (s *Store) Popcount(x *Term, w uint8) *Term {
	r := s.Const(0, w)
	for i := uint8(0); i < x.w; i++ {
		r = s.Add(r, s.Zext(s.Extract(x, i, i), w))
	}
	return r
}

// ---- evaluation under a model

type Model map[string]uint64

// Eval computes the value of t; variables missing from m are zero. beginEval starts a new memo generation.
func (s *Store) beginEval() {
	s.cur++
	if len(s.memo) < s.n {
		s.memo = append(s.memo, make([]uint64, s.n*2-len(s.memo))...)
		s.gen = append(s.gen, make([]uint32, s.n*2-len(s.gen))...)
	}
}

func (s *Store) Eval(t *Term, m Model) uint64 {
	s.beginEval()
	return s.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (s *Store) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.op == OVar {
		return m[t.name] & maskB(t.w)
	}
	if s.gen[t.id] == s.cur {
		return s.memo[t.id]
	}
	var r uint64
	w := t.w
	switch t.op {
	case OIte:
		if s.eval(t.a[0], m) != 0 {
			r = s.eval(t.a[1], m)
		} else {
			r = s.eval(t.a[2], m)
		}
	case OBAnd:
		r = 0
		if s.eval(t.a[0], m) != 0 && s.eval(t.a[1], m) != 0 {
			r = 1
		}
	case OBOr:
		r = 1
		if s.eval(t.a[0], m) == 0 && s.eval(t.a[1], m) == 0 {
			r = 0
		}
	case OBNot:
		r = 1 - s.eval(t.a[0], m)
	case ONot:
		r = ^s.eval(t.a[0], m) & mask(w)
	case OExtract:
		r = s.eval(t.a[0], m) >> (t.c & 0xff) & mask(w)
	case OU2N:
		mw := t.a[0].w
		r = (t.c + uint64(bits.LeadingZeros64(^(s.eval(t.a[0], m) << (64 - mw))))) & mask(w)
	case OSext:
		r = uint64(sx(s.eval(t.a[0], m), t.a[0].w)) & mask(w)
	default:
		x, y := s.eval(t.a[0], m), s.eval(t.a[1], m)
		aw := t.a[0].w
		switch t.op {
		case OEq:
			r = b2u(x == y)
		case OUlt:
			r = b2u(x < y)
		case OSlt:
			r = b2u(sx(x, aw) < sx(y, aw))
		case OAdd:
			r = (x + y) & mask(w)
		case OSub:
			r = (x - y) & mask(w)
		case OMul:
			r = (x * y) & mask(w)
		case OAnd:
			r = x & y
		case OOr:
			r = x | y
		case OXor:
			r = x ^ y
		case OConcat:
			r = x<<t.a[1].w | y
		case OShl:
			if y < uint64(w) {
				r = x << y & mask(w)
			}
		case OLshr:
			if y < uint64(w) {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sx(x, w)>>y) & mask(w)
		case OUdiv:
			if y == 0 {
				r = mask(w)
			} else {
				r = x / y
			}
		case OUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSdiv:
			a, b := sx(x, w), sx(y, w)
			switch {
			case b == 0 && a < 0:
				r = 1
			case b == 0:
				r = mask(w)
			case b == -1:
				r = uint64(-a) & mask(w)
			default:
				r = uint64(a/b) & mask(w)
			}
		case OSrem:
			a, b := sx(x, w), sx(y, w)
			switch {
			case b == 0:
				r = x
			case b == -1:
				r = 0
			default:
				r = uint64(a%b) & mask(w)
			}
		default:
			panic(engineErr("eval op " + strconv.Itoa(int(t.op))))
		}
	}
	s.gen[t.id] = s.cur
	s.memo[t.id] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- printing

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

// ref prints a reference to an already defined term.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.c, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// body prints the term with references to its arguments.
func (t *Term) body() string {
	switch t.op {
	case OConst, OVar:
		return t.ref()
	case OExtract:
		return "((_ extract " + strconv.Itoa(int(t.c>>8)) + " " + strconv.Itoa(int(t.c&0xff)) + ") " + t.a[0].ref() + ")"
	case OU2N:
		m := t.a[0]
		var b strings.Builder
		for i := 0; i < int(m.w); i++ {
			v := t.c + uint64(m.w) - uint64(i)
			b.WriteString("(ite (= ((_ extract " + strconv.Itoa(i) + " " + strconv.Itoa(i) + ") " + m.ref() + ") #b1) (_ bv" + strconv.FormatUint(v&mask(t.w), 10) + " " + strconv.Itoa(int(t.w)) + ") ")
		}
		b.WriteString("(_ bv" + strconv.FormatUint(t.c&mask(t.w), 10) + " " + strconv.Itoa(int(t.w)) + ")")
		b.WriteString(strings.Repeat(")", int(m.w)))
		return b.String()
	case OSext:
		return "((_ sign_extend " + strconv.Itoa(int(t.w-t.a[0].w)) + ") " + t.a[0].ref() + ")"
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(opName[t.op])
	for _, x := range t.a {
		if x != nil {
			b.WriteByte(' ')
			b.WriteString(x.ref())
		}
	}
	b.WriteByte(')')
	return b.String()
}

type engineErr string

func (e engineErr) Error() string { return string(e) }
