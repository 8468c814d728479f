package h

import (
	"github.com/infobloxopen/go-trees/numtree"
	"verifharness/sym"
)

// ---- one face for both widths

type kbv struct {
	k uint64
	n int
	v int
}

type numT interface {
	insert(k uint64, n int, v interface{}) numT
	inplace(k uint64, n int, v interface{}) numT
	match(k uint64, n int) (interface{}, bool)
	exact(k uint64, n int) (interface{}, bool)
	find(k uint64, n int) (uint64, int, interface{}, bool)
	del(k uint64, n int) (numT, bool)
	iter() func() (kbv, bool) // starts an enumeration and gives its next entry
	enum() []kbv
	dot()
	raw() interface{}
	same(o numT) bool
}

type num32 struct{ t *numtree.Node32 }

func (t num32) insert(k uint64, n int, v interface{}) numT {
	return num32{t.t.Insert(uint32(k), n, v)}
}
func (t num32) inplace(k uint64, n int, v interface{}) numT {
	return num32{t.t.InplaceInsert(uint32(k), n, v)}
}
func (t num32) match(k uint64, n int) (interface{}, bool) { return t.t.Match(uint32(k), n) }
func (t num32) exact(k uint64, n int) (interface{}, bool) { return t.t.ExactMatch(uint32(k), n) }
func (t num32) find(k uint64, n int) (uint64, int, interface{}, bool) {
	r := t.t.FindNode(uint32(k), n)
	if r == nil {
		return 0, 0, nil, false
	}
	return uint64(r.Key), int(r.Bits), r.Value, true
}
func (t num32) del(k uint64, n int) (numT, bool) {
	r, ok := t.t.Delete(uint32(k), n)
	return num32{r}, ok
}
func (t num32) iter() func() (kbv, bool) {
	c := t.t.Enumerate()
	return func() (kbv, bool) {
		n, ok := <-c
		if !ok {
			return kbv{}, false
		}
		return kbv{uint64(n.Key), int(n.Bits), unval(n.Value)}, true
	}
}
func (t num32) enum() []kbv      { return allPrefixes(t.iter()) }
func (t num32) dot()             { t.t.Dot() }
func (t num32) raw() interface{} { return t.t }
func (t num32) same(o numT) bool { return t.t == o.(num32).t }

type num64 struct{ t *numtree.Node64 }

func (t num64) insert(k uint64, n int, v interface{}) numT { return num64{t.t.Insert(k, n, v)} }
func (t num64) inplace(k uint64, n int, v interface{}) numT {
	return num64{t.t.InplaceInsert(k, n, v)}
}
func (t num64) match(k uint64, n int) (interface{}, bool) { return t.t.Match(k, n) }
func (t num64) exact(k uint64, n int) (interface{}, bool) { return t.t.ExactMatch(k, n) }
func (t num64) find(k uint64, n int) (uint64, int, interface{}, bool) {
	r := t.t.FindNode(k, n)
	if r == nil {
		return 0, 0, nil, false
	}
	return r.Key, int(r.Bits), r.Value, true
}
func (t num64) del(k uint64, n int) (numT, bool) {
	r, ok := t.t.Delete(k, n)
	return num64{r}, ok
}
func (t num64) iter() func() (kbv, bool) {
	c := t.t.Enumerate()
	return func() (kbv, bool) {
		n, ok := <-c
		if !ok {
			return kbv{}, false
		}
		return kbv{n.Key, int(n.Bits), unval(n.Value)}, true
	}
}
func (t num64) enum() []kbv      { return allPrefixes(t.iter()) }
func (t num64) dot()             { t.t.Dot() }
func (t num64) raw() interface{} { return t.t }
func (t num64) same(o numT) bool { return t.t == o.(num64).t }

func allPrefixes(next func() (kbv, bool)) []kbv {
	var out []kbv
	for {
		x, ok := next()
		if !ok {
			return out
		}
		out = append(out, x)
	}
}

func newNum(w int) numT {
	if w == 32 {
		return num32{}
	}
	return num64{}
}

// Entry i holds the value i, the first one a nil interface. With the parameter vsame all entries hold equal values,
// with vref they are slices, which cannot be compared.
func val(i int) interface{} {
	i = vid(i)
	if i == 0 {
		return nil
	}
	if sym.Param("vref", 0) == 1 {
		return []int{i}
	}
	return i
}

// vid is the number entry i is known by.
func vid(i int) int {
	if vsame() {
		return 5
	}
	return i
}

func vsame() bool { return sym.Param("vsame", 0) == 1 }

func unval(v interface{}) int {
	if v == nil {
		return 0
	}
	if l, ok := v.([]int); ok {
		sym.Assert(len(l) == 1 && sym.Param("vref", 0) == 1, "another value came back")
		return l[0]
	}
	i, ok := v.(int)
	sym.Assert(ok, "a value of another type came back")
	return i
}

// ---- model: a list of prefixes with liveness conditions, evaluated without branching

type pent struct {
	k     uint64
	n     int
	v     int
	alive bool
}

type pmodel struct {
	w int
	e []pent
}

func pmask(w, n int) uint64 {
	if w == 32 {
		return uint64(uint32(0xffffffff) << uint(32-n))
	}
	return uint64(0xffffffffffffffff) << uint(64-n)
}

// inside reports that prefix (k2, n2) lies in (k, n).
func (m *pmodel) inside(k uint64, n int, k2 uint64, n2 int) bool {
	return sym.And(n <= n2, (k^k2)&pmask(m.w, n) == 0)
}

func (m *pmodel) equal(k uint64, n int, k2 uint64, n2 int) bool {
	return sym.And(n == n2, (k^k2)&pmask(m.w, n) == 0)
}

func (m *pmodel) put(k uint64, n int, v int) {
	for i := range m.e {
		e := &m.e[i]
		e.alive = sym.And(e.alive, sym.Not(m.equal(e.k, e.n, k, n)))
	}
	m.e = append(m.e, pent{k, n, vid(v), true})
}

func (m *pmodel) remove(k uint64, n int) (any bool) {
	for i := range m.e {
		e := &m.e[i]
		in := m.inside(k, n, e.k, e.n)
		any = sym.Or(any, sym.And(e.alive, in))
		e.alive = sym.And(e.alive, sym.Not(in))
	}
	return
}

func (m *pmodel) clone() *pmodel {
	return &pmodel{m.w, append([]pent(nil), m.e...)}
}

// checkHit asserts that entry v is the longest stored prefix containing (k, n); values are distinct.
func (m *pmodel) checkHit(v int, k uint64, n int, what string) {
	found := false
	if vsame() {
		for i := range m.e {
			e := &m.e[i]
			found = sym.Or(found, sym.And(e.alive, m.inside(e.k, e.n, k, n)))
		}
		sym.Assert(sym.And(found, v == 5), what)
		return
	}
	for i := range m.e {
		e := &m.e[i]
		if e.v != v {
			continue
		}
		found = true
		sym.Assert(e.alive, what)
		sym.Assert(m.inside(e.k, e.n, k, n), what)
		for j := range m.e {
			if o := &m.e[j]; j != i {
				sym.Assert(sym.Implies(sym.And(o.alive, m.inside(o.k, o.n, k, n)), o.n <= e.n), what)
			}
		}
	}
	sym.Assert(found, what)
}

// checkMiss asserts that no stored prefix contains (k, n).
func (m *pmodel) checkMiss(k uint64, n int, what string) {
	for i := range m.e {
		e := &m.e[i]
		sym.Assert(sym.Not(sym.And(e.alive, m.inside(e.k, e.n, k, n))), what)
	}
}

// storedAs reports that entry v is alive and is the prefix (k, n).
func (m *pmodel) storedAs(v int, k uint64, n int) bool {
	r := false
	for i := range m.e {
		e := &m.e[i]
		if e.v == v {
			r = sym.Or(r, sym.And(e.alive, m.equal(e.k, e.n, k, n)))
		}
	}
	return r
}

func (m *pmodel) notStored(k uint64, n int) bool {
	r := true
	for i := range m.e {
		e := &m.e[i]
		r = sym.And(r, sym.Not(sym.And(e.alive, m.equal(e.k, e.n, k, n))))
	}
	return r
}

func (m *pmodel) count() int {
	c := 0
	for i := range m.e {
		c += sym.IteInt(m.e[i].alive, 1, 0)
	}
	return c
}

// content checks that the list has exactly the entries of the model; ordered also checks the order.
func (m *pmodel) content(got []kbv, ordered bool, what string) {
	for i, g := range got {
		sym.Assert(m.storedAs(g.v, g.k, g.n), what)
		for j := 0; j < i; j++ {
			if vsame() {
				sym.Assert(sym.Not(m.equal(g.k, g.n, got[j].k, got[j].n)), what)
			} else {
				sym.Assert(got[j].v != g.v, what)
			}
		}
	}
	sym.Assert(m.count() == len(got), what)
	if !ordered {
		return
	}
	for i := 1; i < len(got); i++ {
		a, b := got[i-1].k&pmask(m.w, got[i-1].n), got[i].k&pmask(m.w, got[i].n)
		sym.Assert(sym.Or(a < b, sym.And(a == b, got[i-1].n < got[i].n)), what+" (order)")
	}
}

func symKey(name string, w int) uint64 {
	if w == 32 {
		return uint64(sym.U32(name))
	}
	return sym.U64(name)
}

// plan is a sequence of kinds of operations, read from the decimal digits of one of the parameters p0, p1, ...
// (1 copying insertion, 2 in-place insertion, 3 deletion, 7 lookups).
func plan() []int {
	n := 0
	for sym.Param("p"+digits(n), 0) != 0 {
		n++
	}
	x := sym.Param("p"+digits(sym.Choose("plan", n)), 0)
	if x == 9 {
		return nil
	}
	return numDigits(x)
}

func numDigits(x int) []int {
	var out []int
	for ; x > 0; x /= 10 {
		out = append([]int{x % 10}, out...)
	}
	return out
}

func digits(n int) string {
	s := string(rune('0' + n%10))
	if n >= 10 {
		s = digits(n/10) + s
	}
	return s
}

// symLen is a symbolic prefix length for keys of w bits: all of 0..w, or the window of lw lengths from lb on
// if such parameters are given.
func symLen(name string, w int) int { return symLenAt(name, w, sym.Param("lb", 0)) }

func symLenAt(name string, w, lb int) int {
	lw := sym.Param("lw", w)
	if lw >= w {
		return sym.PrefixLen(name, w)
	}
	if lb > w-lw {
		lb = w - lw
	}
	return lb + sym.PrefixLen(name, lw)
}

// numBase builds a concrete tree, chosen by the digits of the parameter base: 1 all prefixes of one key from the
// shortest on, 2 the same from the longest on, in place, 3 all siblings of these prefixes, shuffled, 4 both,
// with copying and in-place insertions in turn, 5 all prefixes of 4 bits, 6 both, from which parts are deleted.
func numBase(t numT, m *pmodel) (numT, int) {
	if sym.Param("base", 0) == 0 {
		return t, 0
	}
	w := m.w
	ks := numDigits(sym.Param("base", 0))
	kind := ks[sym.Choose("base", len(ks))]
	key := uint64(0xa5c3f00f96695aa5)
	if w == 32 {
		key = 0xa5c3f096
	}
	c := 0
	add := func(k uint64, n int, inplace bool) {
		v := 200 + c // values of the operations are small
		c++
		if inplace {
			t = t.inplace(k, n, val(v))
		} else {
			t = t.insert(k, n, val(v))
		}
		m.e = append(m.e, pent{k, n, vid(v), true})
	}
	bit := func(n int) uint64 { return uint64(1) << uint(w-n) }
	switch kind {
	case 1:
		for n := 0; n <= w; n++ {
			add(key, n, false)
		}
	case 2:
		for n := w; n >= 0; n-- {
			add(key, n, true)
		}
	case 3:
		for i := 0; i < w; i++ {
			n := 1 + i*7%w
			add(key^bit(n), n, false)
		}
	case 5:
		for i := 0; i < 16; i++ {
			add(uint64(i*7%16)<<uint(w-4), 4, i%3 == 1)
		}
	default:
		for i := 0; i < w; i++ {
			n := 1 + i*5%w
			add(key^bit(n), n, i%2 == 0)
			add(key, n, i%3 == 0)
		}
	}
	if kind == 6 {
		for n := 3; n <= w; n += 3 {
			var ok bool
			t, ok = t.del(key^bit(n), n)
			sym.Assert(ok && m.remove(key^bit(n), n), "deletion reports whether it removed a stored prefix")
		}
		t, _ = t.del(key, w-4)
		m.remove(key, w-4)
		m.live()
	}
	return t, c
}

// live drops what is known to be gone.
func (m *pmodel) live() {
	var l []pent
	for _, e := range m.e {
		if e.alive {
			l = append(l, e)
		}
	}
	m.e = l
}

// look is an operation of plans that changes nothing.
func (m *pmodel) look(t numT, k uint64, n int) {
	checkMatch(t, m, k, n)
	checkExact(t, m, k, n, n)
}

// numHistory builds a tree and its model by one of the plans.
func numHistory(w int) (numT, *pmodel) {
	t, m := newNum(w), &pmodel{w: w}
	t, _ = numBase(t, m)
	for i, op := range plan() {
		k, n := symKey("key", w), symLen("len", w)
		switch op {
		case 1:
			t = t.insert(k, n, val(i))
			m.put(k, n, i)
		case 2:
			t = t.inplace(k, n, val(i))
			m.put(k, n, i)
		case 7:
			m.look(t, k, n)
		default:
			t, _ = t.del(k, n)
			m.remove(k, n)
		}
	}
	return t, m
}

func numWidth() int {
	if sym.Param("w", 32) == 32 {
		return 32
	}
	return 64
}

// ---- N01

func checkMatch(t numT, m *pmodel, k uint64, n int) {
	v, ok := t.match(k, n)
	if ok {
		sym.Cover("hit")
		m.checkHit(unval(v), k, n, "match returns the longest stored prefix containing the query")
	} else {
		sym.Cover("miss")
		sym.Assert(v == nil, "a miss comes with no value")
		m.checkMiss(k, n, "match misses only if no stored prefix contains the query")
	}
	sym.Observe("match", ok)
	sym.Observe("value", v)
}

func NumMatch() {
	w := numWidth()
	t, m := numHistory(w)
	checkMatch(t, m, symKey("q", w), symLen("qlen", w))
}

// anyLen is a length of the full int range, split at the edges of the valid range; eff is the valid
// length it stands for.
func anyLen(name string, w int) (n, eff int) {
	switch sym.Choose(name+"?", 3) {
	case 0:
		n = sym.Int(name)
		sym.Assume(n < 0)
		return n, 0
	case 1:
		n = sym.Int(name)
		sym.Assume(n > w)
		return n, w
	}
	n = symLen(name, w)
	return n, n
}

func NumMatchLen() {
	w := numWidth()
	t, m := newNum(w), &pmodel{w: w}
	for i := 0; i < sym.Param("k", 1); i++ {
		k := symKey("key", w)
		n, eff := anyLen("len", w)
		t = t.insert(k, n, val(i))
		m.put(k, eff, i)
	}
	q := symKey("q", w)
	n, eff := anyLen("qlen", w)
	v, ok := t.match(q, n)
	if ok {
		sym.Cover("hit")
		m.checkHit(unval(v), q, eff, "match with lengths outside the width")
	} else {
		sym.Cover("miss")
		sym.Assert(v == nil, "a miss comes with no value")
		m.checkMiss(q, eff, "match with lengths outside the width misses only if none covers")
	}
	sym.Observe("match", ok)
}

// ---- N02

func checkExact(t numT, m *pmodel, k uint64, n, eff int) {
	v, ok := t.exact(k, n)
	if ok {
		sym.Cover("hit")
		sym.Assert(m.storedAs(unval(v), k, eff), "exact match returns the value last inserted for the very prefix")
	} else {
		sym.Cover("miss")
		sym.Assert(v == nil, "a miss comes with no value")
		sym.Assert(m.notStored(k, eff), "exact match misses only if the prefix is not stored")
	}
	fk, fn, fv, fok := t.find(k, n)
	sym.Assert(fok == ok, "finding the node agrees with the exact match")
	if fok {
		sym.Assert(sym.And(unval(fv) == unval(v), m.equal(fk, fn, k, eff)), "the node found is the prefix asked for")
	}
	sym.Observe("exact", ok)
	sym.Observe("value", v)
}

func NumExact() {
	w := numWidth()
	t, m := numHistory(w)
	k, n := symKey("q", w), symLen("qlen", w)
	checkExact(t, m, k, n, n)
}

func NumExactLen() {
	w := numWidth()
	t, m := newNum(w), &pmodel{w: w}
	for i := 0; i < sym.Param("k", 1); i++ {
		k := symKey("key", w)
		n, eff := anyLen("len", w)
		if sym.Choose("inplace", 2) == 1 {
			t = t.inplace(k, n, val(i))
		} else {
			t = t.insert(k, n, val(i))
		}
		m.put(k, eff, i)
	}
	k := symKey("q", w)
	n, eff := anyLen("qlen", w)
	checkExact(t, m, k, n, eff)
}

// ---- N03

func NumDelete() {
	w := numWidth()
	t, m := numHistory(w)
	k := symKey("d", w)
	var n, eff int
	if sym.Param("wide", 0) != 0 {
		n, eff = anyLen("dlen", w)
	} else {
		n = symLen("dlen", w)
		eff = n
	}
	r, ok := t.del(k, n)
	any := m.remove(k, eff)
	if ok {
		sym.Cover("deleted")
	} else {
		sym.Cover("not deleted")
	}
	sym.Assert(ok == any, "deletion reports whether it removed a stored prefix")
	m.content(r.enum(), false, "after deletion exactly the prefixes outside the given one are left")
	if sym.Param("probe", 0) != 0 {
		q, qn := symKey("q", w), symLen("qlen", w)
		v, hit := r.exact(q, qn)
		if hit {
			sym.Assert(m.storedAs(unval(v), q, qn), "after deletion an exact lookup finds what is left")
		} else {
			sym.Assert(m.notStored(q, qn), "after deletion an exact lookup misses what is gone")
		}
	}
	sym.Observe("deleted", ok)
	sym.Observe("left", len(r.enum()))
}

// ---- N04

func sameLists(w int, a, b []kbv) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.And(a[i].v == b[i].v, a[i].n == b[i].n))
		ok = sym.And(ok, (a[i].k^b[i].k)&pmask(w, a[i].n) == 0)
	}
	return ok
}

func NumInplace() {
	w := numWidth()
	a, b, m := newNum(w), newNum(w), &pmodel{w: w}
	a, _ = numBase(a, m)
	for _, e := range m.e {
		b = b.insert(e.k, e.n, val(e.v))
	}
	for i, op := range plan() {
		k, n := symKey("key", w), symLen("len", w)
		switch op {
		case 1:
			a = a.insert(k, n, val(i))
			b = b.insert(k, n, val(i))
			m.put(k, n, i)
		case 2:
			a = a.inplace(k, n, val(i))
			b = b.insert(k, n, val(i))
			m.put(k, n, i)
		case 7:
			m.look(a, k, n)
		default:
			var x, y bool
			a, x = a.del(k, n)
			b, y = b.del(k, n)
			sym.Assert(x == y, "deletion answers the same after in-place and copying insertion")
			m.remove(k, n)
		}
	}
	la, lb := a.enum(), b.enum()
	sym.Assert(sameLists(w, la, lb), "in-place and copying insertion give the same content")
	m.content(la, false, "in-place insertion adds or replaces exactly the given entry")
	q, qn := symKey("q", w), symLen("qlen", w)
	switch sym.Choose("probe", sym.Param("probes", 1)) {
	case 0:
		va, oka := a.match(q, qn)
		vb, okb := b.match(q, qn)
		sym.Assert(oka == okb && unval(va) == unval(vb), "match answers the same after in-place and copying insertion")
		sym.Observe("match", va)
	case 1:
		va, oka := a.exact(q, qn)
		vb, okb := b.exact(q, qn)
		sym.Assert(oka == okb && unval(va) == unval(vb), "exact match answers the same after in-place and copying insertion")
	case 2:
		ra, oka := a.del(q, qn)
		rb, okb := b.del(q, qn)
		sym.Assert(oka == okb, "deletion answers the same after in-place and copying insertion")
		sym.Assert(sameLists(w, ra.enum(), rb.enum()), "deletion leaves the same after in-place and copying insertion")
	}
	sym.Cover("built")
}

// NumInplaceLen: lengths outside the key width mean the nearest valid one for in-place insertion too.
func NumInplaceLen() {
	w := numWidth()
	a, b := newNum(w), newNum(w)
	for i := 0; i < sym.Param("k", 2); i++ {
		k := symKey("key", w)
		n, _ := anyLen("len", w)
		a = a.inplace(k, n, val(i))
		b = b.insert(k, n, val(i))
	}
	sym.Assert(sameLists(w, a.enum(), b.enum()), "in-place and copying insertion treat lengths outside the width alike")
	sym.Cover("built")
}

// ---- N05

func NumEnum() {
	w := numWidth()
	t, m := numHistory(w)
	l := t.enum()
	m.content(l, true, "enumeration delivers every stored prefix once, in order")
	sym.Assert(sym.Quiesce(), "enumeration leaves no worker behind")
	switch len(l) {
	case 0:
		sym.Cover("empty")
	case 1:
		sym.Cover("one")
	default:
		sym.Cover("many")
	}
	for _, x := range l {
		sym.Observe("v", x.v)
	}
}

// ---- N06

func NumFrozen() {
	w := numWidth()
	t, m := newNum(w), &pmodel{w: w}
	var raws []interface{}
	var olds []numT
	var oldm []*pmodel
	if sym.Param("base", 0) != 0 {
		t, _ = numBase(t, m)
		raws, olds, oldm = append(raws, t.raw()), append(olds, t), append(oldm, m.clone())
	}
	for i, op := range plan() {
		k, n := symKey("key", w), symLen("len", w)
		if op != 2 {
			sym.Freeze(raws)
		}
		switch op {
		case 1:
			t = t.insert(k, n, val(i))
			m.put(k, n, i)
		case 2:
			// only ever applied to trees nobody else holds
			t = t.inplace(k, n, val(i))
			m.put(k, n, i)
			raws, olds, oldm = nil, nil, nil
		default:
			var ok bool
			if t, ok = t.del(k, n); ok {
				sym.Cover("deleted")
			}
			m.remove(k, n)
		}
		if op != 2 {
			sym.Thaw()
		}
		raws = append(raws, t.raw())
		olds = append(olds, t)
		oldm = append(oldm, m.clone())
	}
	k, n := symKey("q", w), symLen("qlen", w)
	sym.Freeze(raws)
	switch sym.Choose("op", 5) {
	case 0:
		t.insert(k, n, val(77))
		sym.Cover("insert")
	case 1:
		t.del(k, n)
		sym.Cover("delete")
	case 2:
		t.match(k, n)
	case 3:
		t.exact(k, n)
		t.find(k, n)
	case 4:
		t.enum()
	}
	sym.Thaw()
	for i := range olds {
		oldm[i].content(olds[i].enum(), false, "an earlier version has changed its content")
	}
}
