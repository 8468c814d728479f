package h

import (
	"strings"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"verifharness/sym"
)

// Ordered maps: string trees (generic, typed) and label trees (plain and raw operations).

// mkey is a key as passed to the operation and its canonical form (which differ for label trees only).
type mkey struct {
	s, canon string
	raw      bool // use the raw operation
}

type mapkv struct {
	k string
	v uint64
}

type mapT interface {
	insert(k mkey, v uint64) mapT
	inplace(k mkey, v uint64)
	get(k mkey) (uint64, bool)
	del(k mkey) (mapT, bool)
	iter(raw bool) func() (mapkv, bool) // starts an enumeration and gives its next entry
	enum(raw bool) []mapkv
	empty() bool
	raw() interface{}
	none() mapT
}

func allOf(next func() (mapkv, bool)) []mapkv {
	var out []mapkv
	for {
		x, ok := next()
		if !ok {
			return out
		}
		out = append(out, x)
	}
}

// ---- label trees

type lblT struct{ t *dltree.Tree }

func (t lblT) insert(k mkey, v uint64) mapT {
	if k.raw {
		return lblT{t.t.RawInsert(k.s, gval(v))}
	}
	return lblT{t.t.Insert(k.s, gval(v))}
}
func (t lblT) inplace(k mkey, v uint64) {
	if k.raw {
		t.t.RawInplaceInsert(k.s, gval(v))
	} else {
		t.t.InplaceInsert(k.s, gval(v))
	}
}
func (t lblT) get(k mkey) (uint64, bool) {
	if k.raw {
		v, ok := t.t.RawGet(k.s)
		return ungval(v, ok), ok
	}
	v, ok := t.t.Get(k.s)
	return ungval(v, ok), ok
}
func (t lblT) del(k mkey) (mapT, bool) {
	if k.raw {
		r, ok := t.t.RawDelete(k.s)
		return lblT{r}, ok
	}
	r, ok := t.t.Delete(k.s)
	return lblT{r}, ok
}
func (t lblT) iter(raw bool) func() (mapkv, bool) {
	if raw {
		c := t.t.RawEnumerate()
		return func() (mapkv, bool) {
			p, ok := <-c
			if !ok {
				return mapkv{}, false
			}
			return mapkv{p.Key, ungval(p.Value, true)}, true
		}
	}
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, ungval(p.Value, true)}, true
	}
}
func (t lblT) enum(raw bool) []mapkv { return allOf(t.iter(raw)) }
func (t lblT) empty() bool           { return t.t.IsEmpty() }
func (t lblT) raw() interface{}      { return t.t }
func (t lblT) none() mapT            { return lblT{} }

// ---- comparison functions

var cmpCalls int

func cmpDefault(a, b string) int { return strings.Compare(a, b) }
func cmpReverse(a, b string) int { return strings.Compare(b, a) }

// cmpLength puts shorter keys first and returns numbers other than -1, 0, 1.
func cmpLength(a, b string) int {
	if len(a) != len(b) {
		return 10 * (len(a) - len(b))
	}
	return 7 * strings.Compare(a, b)
}

func upper(c byte) byte {
	return byte(sym.IteU64(sym.And(c >= 'a', c <= 'z'), uint64(c&0xdf), uint64(c)))
}

func upperStr(s string) string {
	b := make([]byte, len(s))
	for i := range b {
		b[i] = upper(s[i])
	}
	return string(b)
}

// cmpFold ignores letter case.
func cmpFold(a, b string) int { return strings.Compare(upperStr(a), upperStr(b)) }

func counting(f func(a, b string) int) func(a, b string) int {
	return func(a, b string) int {
		cmpCalls++
		return f(a, b)
	}
}

// mapEnv is a tree with its model.
type mapEnv struct {
	t     mapT
	cmp   func(a, b string) int
	e     []mapEnt
	next  uint64
	label bool
	def   int // form of label keys, -1 any
}

type mapEnt struct {
	k     string
	v     uint64
	alive bool
}

// newMap: parameter tree 0 string tree of type ty, 1 label tree; cmp 0 default, 1 reversed, 2 by length, 3 ignoring
// case, 4 the default one passed explicitly.
func newMap() *mapEnv {
	m := &mapEnv{}
	if sym.Param("tree", 0) == 1 {
		m.label = true
		m.t = lblT{dltree.NewTree()}
		m.cmp = cmpLength
		return m
	}
	switch sym.Param("cmp", 0) {
	case 0:
		m.cmp = cmpDefault
		m.t = newStr(sym.Param("ty", 0), nil)
		return m
	case 1:
		m.cmp = cmpReverse
	case 2:
		m.cmp = cmpLength
	case 3:
		m.cmp = cmpFold
	default:
		m.cmp = cmpDefault
	}
	m.t = newStr(sym.Param("ty", 0), counting(m.cmp))
	return m
}

func (m *mapEnv) same(a, b string) bool { return m.cmp(a, b) == 0 }

func (m *mapEnv) put(k string, v uint64) {
	for i := range m.e {
		m.e[i].alive = sym.And(m.e[i].alive, sym.Not(m.same(m.e[i].k, k)))
	}
	m.e = append(m.e, mapEnt{k, v, true})
}

func (m *mapEnv) remove(k string) (any bool) {
	for i := range m.e {
		s := m.same(m.e[i].k, k)
		any = sym.Or(any, sym.And(m.e[i].alive, s))
		m.e[i].alive = sym.And(m.e[i].alive, sym.Not(s))
	}
	return
}

func (m *mapEnv) count() int {
	c := 0
	for i := range m.e {
		c += sym.IteInt(m.e[i].alive, 1, 0)
	}
	return c
}

func (m *mapEnv) value() uint64 {
	m.next++
	return uint64(vid(int(m.next - 1)))
}

// ---- keys

// rankKey is the concrete key number r of base trees: one or two bytes, none of them a letter.
func rankKey(r int) string {
	if sym.Param("wide", 0) == 1 {
		return string([]byte{byte(0x80 + r/8), byte(0x80 + 4*(r%8))})
	}
	return string([]byte{byte(0x81 + 2*r)})
}

// key makes a symbolic key of 1..klen bytes (minimum kmin), between a stem and a tail of concrete bytes if
// parameters of these names give their lengths.
func (m *mapEnv) key(name string) mkey {
	k := m.core(name)
	if stem, tail := sym.Param("stem", 0), sym.Param("tail", 0); stem+tail > 0 {
		a, b := stemStr(stem), stemStr(tail)
		k.s, k.canon = a+k.s+b, a+k.canon+b
	}
	return k
}

func stemStr(n int) string {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte('A'+i*11%26))
	}
	return string(b)
}

func (m *mapEnv) core(name string) mkey {
	lo, hi := sym.Param("kmin", 1), sym.Param("klen", 1)
	n := lo
	if hi > lo {
		n = lo + sym.Choose(name+".len", hi-lo+1)
	}
	if !m.label {
		s := sym.Str(name, n)
		if lead := sym.Param("lead", 0); lead != 0 { // no UTF-8 sequences, or those of one leading byte
			for i := 0; i+1 < n; i++ {
				if lead == 1 {
					sym.Assume(s[i] < 0xc2)
				} else {
					sym.Assume(s[i] == byte(lead))
				}
			}
		}
		return mkey{s: s, canon: s}
	}
	return labelKey(name, n)
}

// labelKey makes a label of n symbolic bytes: raw, or spelled out plainly, with single escapes or as \DDD.
func labelKey(name string, n int) mkey {
	form := sym.Choose(name+".form", sym.Param("forms", 1))
	if form == 0 {
		b := sym.Bytes(name, n)
		for _, c := range b {
			sym.Assume(sym.Not(sym.And(c >= 'a', c <= 'z')))
		}
		return mkey{s: string(b), canon: string(b), raw: true}
	}
	var s, canon []byte
	for i := 0; i < n; i++ {
		p, c := spellByte(name, form)
		s = append(s, p...)
		canon = append(canon, c)
	}
	return mkey{s: string(s), canon: string(canon)}
}

// spellByte makes one byte of a label and one way to spell it: 1 plain, 2 backslash and the character, 3 \DDD.
func spellByte(name string, form int) (spelled []byte, canon byte) {
	switch form {
	case 1:
		c := sym.U8(name)
		sym.Assume(sym.And(c != '.', c != '\\'))
		return []byte{c}, upper(c)
	case 2:
		c := sym.U8(name)
		sym.Assume(sym.Or(c < '0', c > '9'))
		return []byte{'\\', c}, upper(c)
	}
	d := sym.Bytes(name, 3)
	for _, x := range d {
		sym.Assume(sym.And(x >= '0', x <= '9'))
	}
	code := uint64(d[0]-'0')*100 + uint64(d[1]-'0')*10 + uint64(d[2]-'0')
	sym.Assume(code <= 255)
	return append([]byte{'\\'}, d...), upper(byte(code))
}

// ---- histories

// base builds a concrete tree of about n keys: which one is chosen among nb of them, by the digits of a generator;
// they include ascending, descending and shuffled insertion, both styles, and deletions that hit and miss.
func (m *mapEnv) base() {
	n, nb := sym.Param("n", 0), sym.Param("nb", 1)
	if n == 0 {
		return
	}
	seed := sym.Param("b0", 0) + sym.Choose("base", nb)
	x := uint32(seed)*2654435761 + 12345
	rnd := func(k int) int {
		x = x*1664525 + 1013904223
		return int(x>>8) % k
	}
	live := make([]uint64, n)
	on := make([]bool, n)
	ins := func(r int) {
		v := m.value()
		k := mkey{s: rankKey(r), canon: rankKey(r), raw: true}
		if rnd(2) == 0 && sym.Param("cow", 0) == 0 {
			m.t.inplace(k, v)
		} else {
			m.t = m.t.insert(k, v)
		}
		live[r], on[r] = v, true
	}
	rm := func(r int) {
		k := mkey{s: rankKey(r), canon: rankKey(r), raw: true}
		var ok bool
		m.t, ok = m.t.del(k)
		sym.Assert(ok == on[r], "deletion reports whether the key was there")
		on[r] = false
	}
	switch seed % 4 {
	case 0:
		for r := 0; r < n; r++ {
			ins(r)
		}
	case 1:
		for r := n - 1; r >= 0; r-- {
			ins(r)
		}
	case 2:
		p := rnd(n)
		step := n/2 + 1
		for gcd(step, n) != 1 {
			step++
		}
		for i := 0; i < n; i++ {
			ins((p + i*step) % n)
		}
	default:
		for i := 0; i < 3*n; i++ {
			if r := rnd(n); rnd(3) == 0 {
				rm(r)
			} else {
				ins(r)
			}
		}
	}
	for i := 0; seed >= 4 && i < n/3; i++ {
		rm(rnd(n))
	}
	for r := 0; r < n; r++ {
		if on[r] {
			m.e = append(m.e, mapEnt{rankKey(r), live[r], true})
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (m *mapEnv) step(op int) bool {
	if op == 7 {
		m.checkGet()
		return false
	}
	k := m.key("key")
	switch op {
	case 1:
		v := m.value()
		m.t = m.t.insert(k, v)
		m.put(k.canon, v)
	case 2:
		v := m.value()
		m.t.inplace(k, v)
		m.put(k.canon, v)
	default:
		var ok bool
		m.t, ok = m.t.del(k)
		any := m.remove(k.canon)
		sym.Assert(ok == any, "deletion reports whether the key was there")
		return ok
	}
	return false
}

func mapHistory() *mapEnv {
	m := newMap()
	if sym.Param("nil", 0) == 1 {
		m.t = m.t.none()
	}
	m.base()
	for _, op := range plan() {
		m.step(op)
	}
	return m
}

// content checks an enumeration against the model.
func (m *mapEnv) content(got []mapkv, ordered bool, what string) {
	for i, g := range got {
		there := false
		for j := range m.e {
			if e := &m.e[j]; e.v == g.v {
				there = sym.Or(there, sym.And(e.alive, m.same(e.k, g.k)))
			}
		}
		sym.Assert(there, what)
		for j := 0; j < i; j++ {
			if vsame() {
				sym.Assert(sym.Not(m.same(got[j].k, g.k)), what)
			} else {
				sym.Assert(got[j].v != g.v, what)
			}
		}
	}
	sym.Assert(m.count() == len(got), what)
	if ordered {
		for i := 1; i < len(got); i++ {
			sym.Assert(m.cmp(got[i-1].k, got[i].k) < 0, what+" (order)")
		}
	}
}

func (m *mapEnv) checkGet() {
	k := m.key("q")
	v, ok := m.t.get(k)
	if ok {
		sym.Cover("hit")
		there := false
		for j := range m.e {
			if e := &m.e[j]; e.v == v {
				there = sym.Or(there, sym.And(e.alive, m.same(e.k, k.canon)))
			}
		}
		sym.Assert(there, "a lookup returns the value last inserted under the key")
	} else {
		sym.Cover("miss")
		sym.Assert(v == 0, "a miss comes with no value")
		for j := range m.e {
			sym.Assert(sym.Not(sym.And(m.e[j].alive, m.same(m.e[j].k, k.canon))), "a lookup misses only if the key is not stored")
		}
	}
	sym.Observe("get", ok)
	sym.Observe("value", v)
}

// ---- S01, L01

func MapGet() {
	m := mapHistory()
	if m.t.empty() {
		sym.Cover("empty")
		sym.Assert(m.count() == 0, "a tree is empty only if nothing is stored")
	} else {
		sym.Assert(m.count() > 0, "a tree with nothing stored is empty")
	}
	m.checkGet()
}

// MapContent deletes or inserts once more and compares everything that is left.
func MapContent() {
	m := mapHistory()
	if m.step(3) {
		sym.Cover("deleted")
	} else {
		sym.Cover("not deleted")
	}
	m.content(m.t.enum(true), true, "deletion removes only the given key")
	sym.Assert(sym.Iff(m.t.empty(), m.count() == 0), "a tree is empty exactly when nothing is stored")
	sym.Observe("n", len(m.t.enum(true)))
}

// ---- S02, L02

func MapEnum() {
	m := mapHistory()
	l := m.t.enum(true)
	m.content(l, true, "enumeration delivers every stored key once")
	sym.Assert(sym.Quiesce(), "enumeration leaves no worker behind")
	switch len(l) {
	case 0:
		sym.Cover("empty")
	case 1:
		sym.Cover("one")
	default:
		sym.Cover("many")
	}
	for _, x := range l {
		sym.Observe("k", x.k)
		sym.Observe("v", x.v)
	}
}

// MapPlain compares the two enumerations of a label tree.
func MapPlain() {
	m := mapHistory()
	raw, plain := m.t.enum(true), m.t.enum(false)
	sym.Assert(len(raw) == len(plain), "both enumerations deliver the same number of labels")
	m.content(raw, true, "enumeration delivers every stored label once")
	for i := range raw {
		p := plain[i]
		sym.Assert(p.v == raw[i].v, "both enumerations deliver the same values in the same order")
		ok := true
		for j := 0; j < len(p.k); j++ {
			c := p.k[j]
			ok = sym.And(ok, sym.And(c > ' ', c < 0x7f))
			ok = sym.And(ok, sym.Not(sym.And(c >= 'A', c <= 'Z')))
		}
		sym.Assert(ok, "a plain key is printable and has no upper-case letter")
		l, err := domain.MakeLabel(p.k)
		sym.Assert(err == nil, "a plain key is a valid label")
		sym.Assert(sym.EqStr(l, raw[i].k), "a plain key parses back to the raw one")
		sym.Observe("plain", p.k)
		sym.Observe("raw", raw[i].k)
	}
	if len(raw) > 1 {
		sym.Cover("many")
	} else if len(raw) == 1 {
		sym.Cover("one")
	}
}

// ---- S03, L03

func MapFrozen() {
	m := newMap()
	m.base()
	type ver struct {
		t mapT
		e []mapEnt
	}
	var vers []ver
	var raws []interface{}
	add := func() {
		vers = append(vers, ver{m.t, append([]mapEnt(nil), m.e...)})
		raws = append(raws, m.t.raw())
	}
	add()
	for _, op := range plan() {
		if op == 2 {
			m.step(op)
			vers, raws = nil, nil
			add()
			continue
		}
		sym.Freeze(raws)
		ok := m.step(op)
		sym.Thaw()
		if op == 3 {
			if ok {
				sym.Cover("deleted")
			} else {
				sym.Cover("not deleted")
			}
		}
		add()
	}
	sym.Freeze(raws)
	switch sym.Choose("op", 4) {
	case 0:
		m.t.insert(m.key("q"), 77)
		sym.Cover("insert")
	case 1:
		m.t.del(m.key("q"))
		sym.Cover("delete")
	case 2:
		m.t.get(m.key("q"))
		m.t.empty()
	case 3:
		m.t.enum(true)
		m.t.enum(false)
	}
	sym.Thaw()
	for _, v := range vers {
		m.e = v.e
		m.content(v.t.enum(true), true, "an earlier version has changed its content")
	}
}

// ---- S04: comparisons per lookup

func MapCost() {
	m := mapHistory()
	n := sym.Concretize(m.count())
	q := m.key("q")
	before := cmpCalls
	_, ok := m.t.get(q)
	c := cmpCalls - before
	sym.Assert(withinDepth(c, n), "a lookup makes at most 2*log2(n+1) comparisons")
	if ok {
		sym.Cover("hit")
	} else {
		sym.Cover("miss")
	}
	sym.Observe("comparisons", c)
	sym.Observe("n", n)
}

// withinDepth: c <= 2*log2(n+1), that is 2^c <= (n+1)^2.
func withinDepth(c, n int) bool {
	if c > 40 {
		return false
	}
	return 1<<uint(c) <= (n+1)*(n+1)
}

// ---- L04: depth of the tree

func MapDepth() {
	m := mapHistory()
	n := sym.Concretize(m.count())
	d := sym.Depth(m.t.raw())
	sym.Assert(n == 0 || withinDepth(d, n), "no label lies deeper than 2*log2(n+1) levels")
	sym.Cover("checked")
	sym.Observe("depth", d)
	sym.Observe("n", n)
}
