package h

import (
	"github.com/infobloxopen/go-trees/domain"
	"verifharness/sym"
)

// Domain trees, generic and typed.

type domT interface {
	insert(n domain.Name, v uint64) domT
	inplace(n domain.Name, v uint64)
	get(n domain.Name) (uint64, bool)
	del(n domain.Name) (domT, bool)
	delSub(n domain.Name) (domT, bool)
	iter() func() (mapkv, bool) // starts an enumeration and gives its next entry
	enum() []mapkv
	raw() interface{}
	none() domT
}

// dname is a name with its labels in canonical form, top-level first.
type dname struct {
	n      domain.Name
	labels []string
}

type domEnt struct {
	labels []string
	v      uint64
	alive  bool
}

type domEnv struct {
	t    domT
	e    []domEnt
	next uint64
	nop  int
}

// symLabel makes a label of the run's kind. Parameter forms: 0 letters and digits only, otherwise the number of
// spellings to choose from (1 plain, 2 backslash and character, 3 \DDD); stem concrete letters come first
// and tail of them last.
func symLabel(name string) (spelled []byte, canon []byte) {
	lo, hi := sym.Param("kmin", 1), sym.Param("klen", 1)
	n := lo
	if hi > lo {
		n = lo + sym.Choose(name+".len", hi-lo+1)
	}
	forms := sym.Param("forms", 0)
	form := 0
	if forms > 0 {
		form = sym.Choose(name+".form", forms) + 1
	}
	if stem := sym.Param("stem", 0); stem > 0 {
		spelled, canon = append(spelled, stemStr(stem)...), append(canon, stemStr(stem)...)
	}
	for i := 0; i < n; i++ {
		if form == 0 {
			c := sym.U8(name)
			sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z'))))
			spelled, canon = append(spelled, c), append(canon, upper(c))
			continue
		}
		p, c := spellByte(name, form)
		spelled, canon = append(spelled, p...), append(canon, c)
	}
	if tail := sym.Param("tail", 0); tail > 0 {
		spelled, canon = append(spelled, stemStr(tail)...), append(canon, stemStr(tail)...)
	}
	return
}

// name makes a name. The number of labels is chosen in dmin..dmax; with deep=N every name is at least N-2 labels
// long: a concrete stem of N-dmax labels with dmin..dmax symbolic ones below it.
func (m *domEnv) name(id string, lo, hi int) dname {
	d := lo
	if hi > lo {
		d = lo + sym.Choose(id+".depth", hi-lo+1)
	}
	var text []byte
	var labels []string
	dot := func() {
		if len(text) > 0 {
			text = append(text, '.')
		}
	}
	for i := 0; i < d; i++ {
		s, c := symLabel(id)
		dot()
		text = append(text, s...)
		labels = append(labels, string(c))
	}
	for i, j := 0, len(labels)-1; i < j; i, j = i+1, j-1 {
		labels[i], labels[j] = labels[j], labels[i]
	}
	if deep := sym.Param("deep", 0); deep > 0 {
		var stem []string
		for i := 0; i < deep-sym.Param("dmax", 2); i++ {
			dot()
			text = append(text, 'a')
			stem = append(stem, "A")
		}
		labels = append(stem, labels...)
	}
	if sym.Param("dot", 0) == 1 && sym.Choose(id+".dot", 2) == 1 {
		text = append(text, '.')
	}
	return m.named(string(text), labels)
}

func (m *domEnv) named(text string, labels []string) dname {
	n, err := domain.MakeNameFromString(text)
	sym.Assert(err == nil, "a valid name is accepted")
	return dname{n, labels}
}

func (m *domEnv) key(id string) dname {
	return m.name(id, sym.Param("dmin", 0), sym.Param("dmax", 2))
}

func sameLabels(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	return above(a, b)
}

// above: a equals b or is an ancestor of it.
func above(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.EqStr(a[i], b[i]))
	}
	return r
}

func (m *domEnv) put(labels []string, v uint64) {
	m.remove(labels, false)
	m.e = append(m.e, domEnt{labels, v, true})
}

func (m *domEnv) remove(labels []string, below bool) (any bool) {
	for i := range m.e {
		e := &m.e[i]
		s := sameLabels(labels, e.labels)
		if below {
			s = above(labels, e.labels)
		}
		any = sym.Or(any, sym.And(e.alive, s))
		e.alive = sym.And(e.alive, sym.Not(s))
	}
	return
}

func (m *domEnv) count() int {
	c := 0
	for i := range m.e {
		c += sym.IteInt(m.e[i].alive, 1, 0)
	}
	return c
}

func (m *domEnv) value() uint64 {
	m.next++
	return uint64(vid(int(m.next - 1)))
}

// base builds a concrete tree of n names over the labels a, b, c and d, up to three levels deep.
func (m *domEnv) base() {
	n, nb := sym.Param("n", 0), sym.Param("nb", 1)
	if n == 0 {
		return
	}
	seed := sym.Param("b0", 0) + sym.Choose("base", nb)
	x := uint32(seed)*2654435761 + 12345
	rnd := func(k int) int {
		x = x*1664525 + 1013904223
		return int(x>>8) % k
	}
	al := sym.Param("al", 4)
	for i := 0; i < n; i++ {
		d := rnd(4)
		if d == 0 && rnd(2) == 0 {
			d = 2
		}
		var text []byte
		labels := make([]string, d)
		for j := d - 1; j >= 0; j-- {
			c := byte('a' + rnd(al))
			if len(text) > 0 {
				text = append(text, '.')
			}
			text = append(text, c)
			labels[j] = string([]byte{c - 0x20})
		}
		k := m.named(string(text), labels)
		op := 1
		if seed%3 == 1 {
			op = 1 + rnd(2)
		} else if seed%3 == 2 {
			op = 2
		}
		if rnd(8) == 7 {
			op = 3
		}
		m.apply(op, k)
	}
	var live []domEnt
	for _, e := range m.e {
		if e.alive {
			live = append(live, e)
		}
	}
	m.e = live
}

// apply: 1 insert, 2 in-place insert, 3 delete, 4 delete with subdomains.
func (m *domEnv) apply(op int, k dname) bool {
	switch op {
	case 1:
		v := m.value()
		m.t = m.t.insert(k.n, v)
		m.put(k.labels, v)
	case 2:
		v := m.value()
		m.t.inplace(k.n, v)
		m.put(k.labels, v)
	case 3, 4:
		var ok bool
		if op == 3 {
			m.t, ok = m.t.del(k.n)
		} else {
			m.t, ok = m.t.delSub(k.n)
		}
		any := m.remove(k.labels, op == 4)
		sym.Assert(ok == any, "deletion reports whether something was removed")
		return ok
	}
	return false
}

func (m *domEnv) step(op int) bool {
	if op == 7 {
		m.checkGet(m.key("l"))
		return false
	}
	return m.apply(op, m.key("key"))
}

func newDomEnv() *domEnv {
	m := &domEnv{t: newDom(sym.Param("ty", 0))}
	if sym.Param("nil", 0) == 1 {
		m.t = m.t.none()
	}
	return m
}

func domHistory() *domEnv {
	m := newDomEnv()
	m.base()
	for _, op := range plan() {
		m.step(op)
	}
	return m
}

// find gives the number of the model entry with the (concrete) value v, -1 if there is none.
func (m *domEnv) find(v uint64) int {
	for i := range m.e {
		if m.e[i].v == v {
			return i
		}
	}
	return -1
}

// lowerKey is the text of labels that need no escape.
func lowerKey(labels []string) string {
	var b []byte
	for i := len(labels) - 1; i >= 0; i-- {
		if len(b) > 0 {
			b = append(b, '.')
		}
		for j := 0; j < len(labels[i]); j++ {
			c := labels[i][j]
			b = append(b, byte(sym.IteU64(sym.And(c >= 'A', c <= 'Z'), uint64(c|0x20), uint64(c))))
		}
	}
	return string(b)
}

// labelsOf are the labels of a key, which has to be a valid name, top-level first.
func labelsOf(key string) []string {
	n, err := domain.MakeNameFromString(key)
	sym.Assert(err == nil, "an enumerated key is a valid name")
	var l []string
	n.GetLabels(func(s string) error {
		l = append(l, s)
		return nil
	})
	return l
}

// content checks an enumeration against the model.
func (m *domEnv) content(got []mapkv, what string) {
	if vsame() {
		var ls [][]string
		for i, g := range got {
			there := false
			ls = append(ls, labelsOf(g.k))
			for j := range m.e {
				there = sym.Or(there, sym.And(m.e[j].alive, sameLabels(ls[i], m.e[j].labels)))
			}
			sym.Assert(sym.And(there, g.v == 5), what)
			for j := 0; j < i; j++ {
				sym.Assert(sym.Not(sameLabels(ls[i], ls[j])), what)
			}
		}
		sym.Assert(m.count() == len(got), what)
		return
	}
	seen := make([]bool, len(m.e))
	for _, g := range got {
		j := m.find(g.v)
		sym.Assert(j >= 0, what)
		sym.Assert(!seen[j], what)
		seen[j] = true
		sym.Assert(m.e[j].alive, what)
		if sym.Param("forms", 0) == 0 {
			sym.Assert(sym.EqStr(g.k, lowerKey(m.e[j].labels)), what)
		} else {
			sym.Assert(sameLabels(labelsOf(g.k), m.e[j].labels), what)
		}
	}
	for j := range m.e {
		if !seen[j] {
			sym.Assert(sym.Not(m.e[j].alive), what)
		}
	}
}

// ---- T01

func (m *domEnv) checkGet(q dname) {
	v, ok := m.t.get(q.n)
	if ok && vsame() {
		sym.Cover("hit")
		there := false
		for i := range m.e {
			there = sym.Or(there, sym.And(m.e[i].alive, above(m.e[i].labels, q.labels)))
		}
		sym.Assert(sym.And(there, v == 5), "a lookup returns the value of the domain or of an ancestor")
	} else if ok {
		sym.Cover("hit")
		j := m.find(v)
		sym.Assert(j >= 0, "a lookup returns a stored value")
		e := &m.e[j]
		sym.Assert(sym.And(e.alive, above(e.labels, q.labels)), "a lookup returns the value of the domain or of an ancestor")
		for i := range m.e {
			if f := &m.e[i]; len(f.labels) > len(e.labels) {
				sym.Assert(sym.Not(sym.And(f.alive, above(f.labels, q.labels))), "a lookup returns the value of the closest ancestor")
			}
		}
		if len(e.labels) == 0 {
			sym.Cover("root")
		}
	} else {
		sym.Cover("miss")
		sym.Assert(v == 0, "a miss comes with no value")
		for i := range m.e {
			f := &m.e[i]
			sym.Assert(sym.Not(sym.And(f.alive, above(f.labels, q.labels))), "a lookup misses only if no ancestor is stored")
		}
	}
	sym.Observe("get", ok)
	sym.Observe("value", v)
}

func DomGet() {
	m := domHistory()
	m.checkGet(m.name("q", sym.Param("qmin", 0), sym.Param("qmax", sym.Param("dmax", 2)+1-sym.Param("deep", 0)/100)))
}

// ---- T02, T03

func DomDelete() {
	m := domHistory()
	op := 3
	if sym.Param("sub", 0) == 1 {
		op = 4
	}
	k := m.key("q")
	if m.apply(op, k) {
		sym.Cover("deleted")
	} else {
		sym.Cover("not deleted")
	}
	if sym.Param("again", 0) == 1 {
		// the result has to work as a tree
		ok := m.apply(op, k)
		sym.Assert(!ok, "deleting again removes nothing")
		m.apply(sym.Param("then", 1), m.key("key"))
	}
	l := m.t.enum()
	m.content(l, "deletion removes exactly what it should")
	if sym.Param("probe", 0) == 1 {
		m.checkGet(m.name("q2", 0, sym.Param("dmax", 2)))
	}
	sym.Observe("n", len(l))
}

// ---- T04

func cmpLabel(a, b string) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	return cmpDefault(a, b)
}

// before: a name comes before its subdomains and siblings are ordered.
func before(a, b []string) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if c := cmpLabel(a[i], b[i]); c != 0 {
			return c < 0
		}
	}
	return len(a) < len(b)
}

func DomEnum() {
	m := domHistory()
	l := m.t.enum()
	what := "enumeration delivers every stored domain once"
	m.content(l, what)
	sym.Assert(sym.Quiesce(), "enumeration leaves no worker behind")
	for i, g := range l {
		ok := true
		for j := 0; j < len(g.k); j++ {
			c := g.k[j]
			ok = sym.And(ok, sym.And(c > ' ', c < 0x7f))
			ok = sym.And(ok, sym.Not(sym.And(c >= 'A', c <= 'Z')))
		}
		sym.Assert(ok, "keys are printable and lower-case")
		if i > 0 {
			sym.Assert(before(m.e[m.find(l[i-1].v)].labels, m.e[m.find(g.v)].labels), "a domain comes before its subdomains, siblings by length, then bytes")
		}
		sym.Observe("k", g.k)
		sym.Observe("v", g.v)
	}
	if sym.Param("twice", 0) == 1 {
		l2 := m.t.enum()
		sym.Assert(len(l2) == len(l), "two enumerations deliver the same")
		for i := range l {
			sym.Assert(sym.And(sym.EqStr(l[i].k, l2[i].k), l[i].v == l2[i].v), "two enumerations deliver the same")
		}
	}
	switch len(l) {
	case 0:
		sym.Cover("empty")
	case 1:
		sym.Cover("one")
	default:
		sym.Cover("many")
	}
}

// ---- T05

func DomFrozen() {
	m := newDomEnv()
	m.base()
	type ver struct {
		t domT
		e []domEnt
	}
	var vers []ver
	var raws []interface{}
	add := func() {
		vers = append(vers, ver{m.t, append([]domEnt(nil), m.e...)})
		raws = append(raws, m.t.raw())
	}
	add()
	for _, op := range plan() {
		if op == 2 {
			m.step(op)
			vers, raws = nil, nil
			add()
			continue
		}
		sym.Freeze(raws)
		m.step(op)
		sym.Thaw()
		add()
	}
	sym.Freeze(raws)
	switch sym.Choose("op", 5) {
	case 0:
		m.t.insert(m.key("q").n, 77)
		sym.Cover("insert")
	case 1:
		if _, ok := m.t.del(m.key("q").n); ok {
			sym.Cover("deleted")
		}
	case 2:
		if _, ok := m.t.delSub(m.key("q").n); ok {
			sym.Cover("deleted with subdomains")
		}
	case 3:
		m.t.get(m.key("q").n)
	case 4:
		m.t.enum()
	}
	sym.Thaw()
	for _, v := range vers {
		m.e = v.e
		m.content(v.t.enum(), "an earlier version has changed its content")
	}
}

// ---- T06

// DomInplace builds a tree as the plan says and once more with copying insertions only.
func DomInplace() {
	ty := sym.Param("ty", 0)
	a, b := newDom(ty), newDom(ty)
	m := &domEnv{t: a}
	for i, op := range plan() {
		if op == 7 {
			m.step(7)
			continue
		}
		k := m.key("key")
		v := ipVal(i)
		switch op {
		case 1:
			m.t = m.t.insert(k.n, v)
			b = b.insert(k.n, v)
			m.put(k.labels, v)
		case 2:
			m.t.inplace(k.n, v)
			b = b.insert(k.n, v)
			m.put(k.labels, v)
		default:
			var x, y bool
			if op == 3 {
				m.t, x = m.t.del(k.n)
				b, y = b.del(k.n)
			} else {
				m.t, x = m.t.delSub(k.n)
				b, y = b.delSub(k.n)
			}
			sym.Assert(x == y, "both styles give the same deletions")
			m.remove(k.labels, op == 4)
		}
	}
	sym.Cover("built")
	what := "both styles give the same content"
	l1, l2 := m.t.enum(), b.enum()
	m.content(l1, "each insertion adds or replaces its entry")
	sameKV(l1, l2, what)
	q := m.key("q")
	switch sym.Choose("probe", sym.Param("probes", 3)) {
	case 0:
		v1, ok1 := m.t.get(q.n)
		v2, ok2 := b.get(q.n)
		sym.Assert(ok1 == ok2 && v1 == v2, "both styles give the same answers")
		sym.Observe("get", ok1)
	case 1:
		x1, ok1 := m.t.del(q.n)
		x2, ok2 := b.del(q.n)
		sym.Assert(ok1 == ok2, "both styles give the same deletions")
		sameKV(x1.enum(), x2.enum(), "both styles leave the same after a deletion")
	case 2:
		x1, ok1 := m.t.delSub(q.n)
		x2, ok2 := b.delSub(q.n)
		sym.Assert(ok1 == ok2, "both styles give the same deletions")
		sameKV(x1.enum(), x2.enum(), "both styles leave the same after a deletion")
	}
	for _, x := range l1 {
		sym.Observe("k", x.k)
	}
}

func sameKV(l1, l2 []mapkv, what string) {
	sym.Assert(len(l1) == len(l2), what)
	for i := range l1 {
		sym.Assert(l1[i].v == l2[i].v, what)
		sym.Assert(sym.EqStr(l1[i].k, l2[i].k), what)
	}
}

// ---- L04: siblings

// DomDepth builds a set of sibling labels under one domain.
func DomDepth() {
	m := newDomEnv()
	n := sym.Param("n", 0)
	base := 0
	if n > 0 {
		base = sym.Choose("base", sym.Param("nb", 1))
	}
	sib := func(c byte) dname { return m.named(string([]byte{c})+".x", []string{"X", string([]byte{c})}) }
	for i := 0; i < n; i++ {
		c := i
		switch base % 4 {
		case 1:
			c = n - 1 - i
		case 2:
			c = (i*7 + base) % n // n is not a multiple of 7
		case 3:
			c = i ^ 1
			if c >= n {
				c = i
			}
		}
		op := 1 + (base+i/3)%2
		m.apply(op, sib(byte(0x81+2*c)))
		if base >= 4 && i%3 == 2 {
			m.apply(3+i%2, sib(byte(0x81+2*(i/2))))
		}
	}
	for _, op := range plan() {
		c := sym.U8("key")
		sym.Assume(c > 0x7f)
		m.apply(op, sib(c))
	}
	k := sym.Concretize(m.count())
	d := sym.Depth(m.t.raw())
	if k > 0 {
		sym.Assert(withinDepth(d, k), "no sibling label lies deeper than 2*log2(n+1) levels")
	}
	sym.Cover("checked")
	sym.Observe("depth", d)
	sym.Observe("n", k)
}
