package h

import (
	"net"

	"github.com/infobloxopen/go-trees/iptree"
	"verifharness/sym"
)

// A network: family 4 or 6, address and mask as two 64-bit halves (IPv4 sits at the top of the first half).
// Addresses may have host bits.
type ipk struct {
	fam      int
	hi, lo   uint64
	mhi, mlo uint64
}

type ipkv struct {
	ipk
	v     uint64
	canon bool // right lengths, host bits cleared
}

func pack64(b []byte) uint64 {
	r := uint64(0)
	for i := 0; i < 8; i++ {
		r = r<<8 | uint64(b[i])
	}
	return r
}

func pack32(b []byte) uint64 {
	return uint64(uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3])) << 32
}

// unnet decodes a delivered network.
func unnet(n *net.IPNet, v uint64) ipkv {
	r := ipkv{v: v}
	if n == nil {
		sym.Assert(false, "a nil network is delivered")
		return r
	}
	switch {
	case len(n.IP) == 4 && len(n.Mask) == 4:
		r.fam = 4
		r.hi, r.mhi = pack32(n.IP), pack32(n.Mask)
	case len(n.IP) == 16 && len(n.Mask) == 16:
		r.fam = 6
		r.hi, r.lo = pack64(n.IP), pack64(n.IP[8:])
		r.mhi, r.mlo = pack64(n.Mask), pack64(n.Mask[8:])
	default:
		sym.Assert(false, "a delivered network has address and mask of its family's length")
	}
	r.canon = sym.And(r.hi&^r.mhi == 0, r.lo&^r.mlo == 0)
	return r
}

func bytes64(x uint64) []byte {
	return []byte{byte(x >> 56), byte(x >> 48), byte(x >> 40), byte(x >> 32), byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

// symNet makes a symbolic network and its description. kind: 0 IPv4, 1 IPv6 up to /64, 2 IPv6 from /64 on.
func symNet(name string, kind int) (*net.IPNet, ipk) {
	switch kind {
	case 0:
		a, n := uint64(sym.U32(name+".a"))<<32, symLen(name+".n", 32)
		return &net.IPNet{IP: net.IP(bytes64(a)[:4]), Mask: net.CIDRMask(n, 32)},
			ipk{fam: 4, hi: a, mhi: pmask(32, n) << 32}
	case 1:
		hi, lo, n := sym.U64(name+".hi"), sym.U64(name+".lo"), symLen(name+".n", 64)
		return &net.IPNet{IP: net.IP(append(bytes64(hi), bytes64(lo)...)), Mask: net.CIDRMask(n, 128)},
			ipk{fam: 6, hi: hi, lo: lo, mhi: pmask(64, n)}
	}
	return lowNet(name, sym.U64(name+".hi"))
}

func lowNet(name string, hi uint64) (*net.IPNet, ipk) {
	lo, n := sym.U64(name+".lo"), symLenAt(name+".n", 64, sym.Param("lbl", sym.Param("lb", 0)))
	return &net.IPNet{IP: net.IP(append(bytes64(hi), bytes64(lo)...)), Mask: net.CIDRMask(64+n, 128)},
		ipk{fam: 6, hi: hi, lo: lo, mhi: ^uint64(0), mlo: pmask(64, n)}
}

// seq is the current sequence of kinds of keys: parameters k0, k1, ... hold alternatives as decimal digits, one
// digit per key in order of use: 1 IPv4, 2 IPv6 up to /64, 3 IPv6 from /64 on; beyond its end (or without such
// parameters) any kind the parameter fam (4, 6 or 46) allows.
type kindSeq struct {
	d    []int
	i    int
	same bool // all IPv6 keys from /64 on share one upper half
	hi   uint64
	has  bool
}

func newKinds() *kindSeq {
	s := &kindSeq{same: sym.Param("same64", 0) == 1}
	n := 0
	for sym.Param("k"+digits(n), 0) != 0 {
		n++
	}
	if n > 0 {
		s.d = numDigits(sym.Param("k"+digits(sym.Choose("kinds", n)), 0))
	}
	return s
}

func (s *kindSeq) kind(name string) int {
	if s.i < len(s.d) {
		s.i++
		return s.d[s.i-1] - 1
	}
	switch sym.Param("fam", 46) {
	case 4:
		return 0
	case 6:
		return 1 + sym.Choose(name, 2)
	}
	return sym.Choose(name, 3)
}

func (s *kindSeq) net(name string) (*net.IPNet, ipk) {
	k := s.kind(name + ".kind")
	if k == 2 && s.same {
		if !s.has {
			s.hi, s.has = sym.U64("hi"), true
		}
		return lowNet(name, s.hi)
	}
	return symNet(name, k)
}

func (s *kindSeq) addr(name string) (net.IP, ipk) {
	k := s.kind(name + ".kind")
	if k > 0 {
		return symAddr(name, 2)
	}
	return symAddr(name, sym.Choose(name+".form", 2))
}

// symAddr makes a symbolic address: kind 0 IPv4 in 4 bytes, 1 IPv4-mapped in 16 bytes, 2 IPv6.
func symAddr(name string, kind int) (net.IP, ipk) {
	switch kind {
	case 0, 1:
		a := uint64(sym.U32(name+".a")) << 32
		k := ipk{fam: 4, hi: a, mhi: 0xffffffff00000000}
		b := net.IP(bytes64(a)[:4])
		if kind == 1 {
			b = append(net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, b...)
		}
		return b, k
	}
	hi, lo := sym.U64(name+".hi"), sym.U64(name+".lo")
	sym.Assume(sym.Not(sym.And(hi == 0, lo>>32 == 0xffff)))
	return net.IP(append(bytes64(hi), bytes64(lo)...)), ipk{fam: 6, hi: hi, lo: lo, mhi: ^uint64(0), mlo: ^uint64(0)}
}

// inside reports that b lies in a.
func (a ipk) holds(b ipk) bool {
	if a.fam != b.fam {
		return false
	}
	r := sym.And(a.mhi&^b.mhi == 0, (a.hi^b.hi)&a.mhi == 0)
	if a.fam == 6 {
		r = sym.And(r, sym.And(a.mlo&^b.mlo == 0, (a.lo^b.lo)&a.mlo == 0))
	}
	return r
}

func (a ipk) equal(b ipk) bool {
	if a.fam != b.fam {
		return false
	}
	r := sym.And(a.mhi == b.mhi, (a.hi^b.hi)&a.mhi == 0)
	if a.fam == 6 {
		r = sym.And(r, sym.And(a.mlo == b.mlo, (a.lo^b.lo)&a.mlo == 0))
	}
	return r
}

// net is the network as a key.
func (a ipk) net() *net.IPNet {
	if a.fam == 4 {
		return &net.IPNet{IP: net.IP(bytes64(a.hi)[:4]), Mask: net.IPMask(bytes64(a.mhi)[:4])}
	}
	return &net.IPNet{IP: net.IP(append(bytes64(a.hi), bytes64(a.lo)...)), Mask: net.IPMask(append(bytes64(a.mhi), bytes64(a.mlo)...))}
}

// before is the order of enumeration; both canonical.
func (a ipk) before(b ipk) bool {
	if a.fam != b.fam {
		return a.fam < b.fam
	}
	lt := sym.Or(a.hi < b.hi, sym.And(a.hi == b.hi, a.lo < b.lo))
	eq := sym.And(a.hi == b.hi, a.lo == b.lo)
	shorter := sym.Or(a.mhi < b.mhi, sym.And(a.mhi == b.mhi, a.mlo < b.mlo))
	return sym.Or(lt, sym.And(eq, shorter))
}

type ipent struct {
	ipk
	v     uint64
	alive bool
}

type ipmodel struct{ e []ipent }

func (m *ipmodel) put(k ipk, v uint64) {
	for i := range m.e {
		m.e[i].alive = sym.And(m.e[i].alive, sym.Not(m.e[i].equal(k)))
	}
	m.e = append(m.e, ipent{k, v, true})
}

func (m *ipmodel) remove(k ipk) (any bool) {
	for i := range m.e {
		e := &m.e[i]
		in := k.holds(e.ipk)
		any = sym.Or(any, sym.And(e.alive, in))
		e.alive = sym.And(e.alive, sym.Not(in))
	}
	return
}

func (m *ipmodel) clone() *ipmodel { return &ipmodel{append([]ipent(nil), m.e...)} }

// checkHit asserts that entry v is the longest stored network containing k; values are distinct.
func (m *ipmodel) checkHit(v uint64, k ipk, what string) {
	found := false
	if vsame() {
		for i := range m.e {
			found = sym.Or(found, sym.And(m.e[i].alive, m.e[i].holds(k)))
		}
		sym.Assert(sym.And(found, v == 5), what)
		return
	}
	for i := range m.e {
		e := &m.e[i]
		if e.v != v {
			continue
		}
		found = true
		sym.Assert(e.alive, what)
		sym.Assert(e.holds(k), what)
		for j := range m.e {
			if o := &m.e[j]; j != i {
				sym.Assert(sym.Implies(sym.And(o.alive, o.holds(k)), o.holds(e.ipk)), what)
			}
		}
	}
	sym.Assert(found, what)
}

// checkMiss asserts that no stored network contains k.
func (m *ipmodel) checkMiss(k ipk, what string) {
	for i := range m.e {
		sym.Assert(sym.Not(sym.And(m.e[i].alive, m.e[i].holds(k))), what)
	}
}

func (m *ipmodel) storedAs(v uint64, k ipk) bool {
	r := false
	for i := range m.e {
		if e := &m.e[i]; e.v == v {
			r = sym.Or(r, sym.And(e.alive, e.equal(k)))
		}
	}
	return r
}

func (m *ipmodel) stored(k ipk) bool {
	r := false
	for i := range m.e {
		r = sym.Or(r, sym.And(m.e[i].alive, m.e[i].equal(k)))
	}
	return r
}

func (m *ipmodel) count() int {
	c := 0
	for i := range m.e {
		c += sym.IteInt(m.e[i].alive, 1, 0)
	}
	return c
}

// content checks that the list is what the model has; ordered also checks the order and the keys' form.
func (m *ipmodel) content(got []ipkv, ordered bool, what string) {
	for i, g := range got {
		sym.Assert(m.storedAs(g.v, g.ipk), what)
		for j := 0; j < i; j++ {
			if vsame() {
				sym.Assert(sym.Not(got[j].equal(g.ipk)), what)
			} else {
				sym.Assert(got[j].v != g.v, what)
			}
		}
	}
	sym.Assert(m.count() == len(got), what)
	if !ordered {
		return
	}
	for i := range got {
		sym.Assert(got[i].canon, what+" (canonical keys)")
		if i > 0 {
			sym.Assert(got[i-1].before(got[i].ipk), what+" (order)")
		}
	}
}

func sameNets(a, b []ipkv) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.And(a[i].v == b[i].v, a[i].equal(b[i].ipk)))
	}
	return ok
}

// ipVal is the value of the i-th operation.
func ipVal(i int) uint64 { return uint64(vid(i)) }

// step applies one operation of a plan to the tree and the model: 1 copying insertion, 2 in-place insertion,
// 3 deletion, 4-6 the same by address, 7 a lookup, 8 one by address.
func ipStep(s *kindSeq, t ipT, m *ipmodel, op int, v uint64) (ipT, bool) {
	ok := false
	if op >= 7 {
		ipCheckGet(s, t, m, op == 8)
		return t, false
	}
	if op <= 3 {
		n, k := s.net("net")
		switch op {
		case 1:
			t = t.insert(n, v)
			m.put(k, v)
		case 2:
			t.inplace(n, v)
			m.put(k, v)
		default:
			t, ok = t.del(n)
			any := m.remove(k)
			sym.Assert(ok == any, "deletion reports whether it removed a stored network")
		}
		return t, ok
	}
	ip, k := s.addr("ip")
	switch op {
	case 4:
		t = t.insertIP(ip, v)
		m.put(k, v)
	case 5:
		t.inplaceIP(ip, v)
		m.put(k, v)
	default:
		t, ok = t.delIP(ip)
		any := m.remove(k)
		sym.Assert(ok == any, "deletion by address reports whether it removed a stored network")
	}
	return t, ok
}

func ipHistory() (*kindSeq, ipT, *ipmodel) {
	s, t, m := newKinds(), newIP(), &ipmodel{}
	t = ipBase(t, m)
	for i, op := range plan() {
		t, _ = ipStep(s, t, m, op, ipVal(i))
	}
	return s, t, m
}

// ipBase builds a concrete tree, chosen by the digits of the parameter base: 1 all IPv4 networks around one
// address from the shortest on, 2 every fourth IPv6 network around one address from the longest on, in place,
// 3 siblings below one /64, shuffled, 4 IPv4 and IPv6 siblings and networks, both styles, some deleted.
func ipBase(t ipT, m *ipmodel) ipT {
	if sym.Param("base", 0) == 0 {
		return t
	}
	ks := numDigits(sym.Param("base", 0))
	c := 0
	const a4, hi, lo = uint64(0xa5c3f096) << 32, uint64(0x20010db8a5a55a5a), uint64(0x8421f00ff00f8421)
	add := func(n *net.IPNet, k ipk, inplace bool) {
		v := ipVal(10 + c)
		c++
		if inplace {
			t.inplace(n, v)
		} else {
			t = t.insert(n, v)
		}
		m.e = append(m.e, ipent{k, v, true})
	}
	sib := func(x uint64, n int) uint64 {
		if n == 0 {
			return x
		}
		return x ^ uint64(1)<<uint(64-n)
	}
	switch ks[sym.Choose("base", len(ks))] {
	case 1:
		for n := 0; n <= 32; n++ {
			x, k := netOf(4, a4, 0, n)
			add(x, k, false)
		}
	case 2:
		for n := 128; n >= 0; n -= 4 {
			x, k := netOf(6, hi, lo, n)
			add(x, k, true)
		}
	case 3:
		for i := 0; i < 32; i++ {
			n := 2 + 2*(i*7%32)
			x, k := netOf(6, hi, sib(lo, n), 64+n)
			add(x, k, false)
		}
	default:
		for i := 0; i < 16; i++ {
			n := 2 + 2*(i*7%16)
			x, k := netOf(4, sib(a4, n), 0, n)
			add(x, k, i%2 == 1)
			x, k = netOf(6, sib(hi, 4*(i*5%16)+1), lo, 4*(i*5%16)+1)
			add(x, k, i%3 == 1)
			x, k = netOf(6, hi, sib(lo, 4*(i*3%16)+2), 64+4*(i*3%16)+2)
			add(x, k, i%4 == 1)
			x, k = netOf(6, hi, lo, 8*i+1)
			add(x, k, i%5 == 1)
		}
		for i, n := range []int{14, 41, 70, 97, 110} {
			x, k := netOf(6, hi, lo, n)
			if i == 0 {
				x, k = netOf(4, sib(a4, n), 0, n)
			}
			var ok bool
			t, ok = t.del(x)
			sym.Assert(ok == m.remove(k), "deletion reports whether it removed a stored network")
		}
		var l []ipent
		for _, e := range m.e {
			if e.alive {
				l = append(l, e)
			}
		}
		m.e = l
	}
	return t
}

// netOf is the network of a length around an address.
func netOf(fam int, hi, lo uint64, n int) (*net.IPNet, ipk) {
	if fam == 4 {
		return &net.IPNet{IP: net.IP(bytes64(hi)[:4]), Mask: net.CIDRMask(n, 32)}, ipk{fam: 4, hi: hi, mhi: pmask(32, n) << 32}
	}
	k := ipk{fam: 6, hi: hi, lo: lo}
	if n <= 64 {
		k.mhi = pmask(64, n)
	} else {
		k.mhi, k.mlo = ^uint64(0), pmask(64, n-64)
	}
	return &net.IPNet{IP: net.IP(append(bytes64(hi), bytes64(lo)...)), Mask: net.CIDRMask(n, 128)}, k
}

// ---- I01

func ipCheckGet(s *kindSeq, t ipT, m *ipmodel, byAddr bool) {
	var (
		v  uint64
		ok bool
		k  ipk
	)
	if byAddr {
		var ip net.IP
		ip, k = s.addr("q")
		v, ok = t.getIP(ip)
	} else {
		var n *net.IPNet
		n, k = s.net("q")
		v, ok = t.get(n)
	}
	if ok {
		sym.Cover("hit")
		m.checkHit(v, k, "a lookup returns the longest stored network of the family containing the query")
	} else {
		sym.Cover("miss")
		sym.Assert(v == 0, "a miss comes with no value")
		m.checkMiss(k, "a lookup misses only if no stored network contains the query")
	}
	sym.Observe("get", ok)
	sym.Observe("value", v)
}

func IPGet() {
	s, t, m := ipHistory()
	ipCheckGet(s, t, m, sym.Param("addr", 0) == 1)
}

// ---- I02

func IPDelete() {
	s, t, m := ipHistory()
	op := 3
	if sym.Param("addr", 0) == 1 {
		op = 6
	}
	r, ok := ipStep(s, t, m, op, 0)
	if ok {
		sym.Cover("deleted")
	} else {
		sym.Cover("not deleted")
	}
	l := r.enum()
	m.content(l, false, "after deletion exactly the networks outside the given one are left")
	if sym.Param("probe", 0) == 1 {
		ipCheckGet(s, r, m, false)
	}
	sym.Observe("left", len(l))
}

// ---- I03

func IPEnum() {
	_, t, m := ipHistory()
	l := t.enum()
	m.content(l, true, "enumeration delivers every stored network once")
	sym.Assert(sym.Quiesce(), "enumeration leaves no worker behind")
	switch len(l) {
	case 0:
		sym.Cover("empty")
	case 1:
		sym.Cover("one")
	default:
		sym.Cover("many")
	}
	for _, x := range l {
		sym.Observe("v", x.v)
		sym.Observe("hi", x.hi)
	}
}

// IPEnumRoundTrip looks up every delivered network and rebuilds the tree from them.
func IPEnumRoundTrip() {
	_, t, _ := ipHistory()
	r := newIP()
	n := 0
	for _, x := range t.enum() {
		key := x.net()
		v, ok := t.get(key)
		sym.Assert(ok && v == x.v, "looking up a delivered network gives its value")
		r = r.insert(key, x.v)
		n++
	}
	sym.Assert(sameNets(t.enum(), r.enum()), "a tree rebuilt from the delivered pairs has the same content")
	sym.Cover("rebuilt")
	sym.Observe("n", n)
}

// ---- I04

func IPInplace() {
	s, a, b, m := newKinds(), newIP(), newIP(), &ipmodel{}
	a = ipBase(a, m)
	for _, e := range m.e {
		b = b.insert(e.net(), e.v)
	}
	for i, op := range plan() {
		v := ipVal(i)
		if op >= 7 {
			ipCheckGet(s, a, m, op == 8)
			continue
		}
		if op <= 3 {
			n, k := s.net("net")
			switch op {
			case 1:
				a, b = a.insert(n, v), b.insert(n, v)
				m.put(k, v)
			case 2:
				a.inplace(n, v)
				b = b.insert(n, v)
				m.put(k, v)
			default:
				var x, y bool
				a, x = a.del(n)
				b, y = b.del(n)
				sym.Assert(x == y, "deletion answers the same after in-place and copying insertion")
				m.remove(k)
			}
			continue
		}
		ip, k := s.addr("ip")
		switch op {
		case 4:
			a, b = a.insertIP(ip, v), b.insertIP(ip, v)
		default:
			a.inplaceIP(ip, v)
			b = b.insertIP(ip, v)
		}
		m.put(k, v)
	}
	la, lb := a.enum(), b.enum()
	sym.Assert(sameNets(la, lb), "in-place and copying insertion give the same content")
	m.content(la, false, "in-place insertion adds or replaces exactly the given entry")
	switch sym.Choose("probe", 1+sym.Param("probes", 0)) {
	case 0:
		n, _ := s.net("q")
		va, oka := a.get(n)
		vb, okb := b.get(n)
		sym.Assert(oka == okb && va == vb, "lookup answers the same after in-place and copying insertion")
		sym.Observe("get", va)
	case 1:
		n, _ := s.net("q")
		ra, oka := a.del(n)
		rb, okb := b.del(n)
		sym.Assert(oka == okb, "deletion answers the same after in-place and copying insertion")
		sym.Assert(sameNets(ra.enum(), rb.enum()), "deletion leaves the same after in-place and copying insertion")
	}
	sym.Cover("built")
}

// ---- I05

func IPFrozen() {
	s, t, m := newKinds(), newIP(), &ipmodel{}
	var raws []interface{}
	var olds []ipT
	var oldm []*ipmodel
	add := func() {
		raws = append(raws, t.raw())
		olds = append(olds, t)
		oldm = append(oldm, m.clone())
	}
	if t = ipBase(t, m); len(m.e) > 0 {
		add()
	}
	for i, op := range plan() {
		if op == 2 || op == 5 {
			// only ever applied to trees nobody else holds
			t, _ = ipStep(s, t, m, op, ipVal(i))
			raws, olds, oldm = nil, nil, nil
			add()
			continue
		}
		sym.Freeze(raws)
		var ok bool
		t, ok = ipStep(s, t, m, op, ipVal(i))
		sym.Thaw()
		if ok {
			sym.Cover("deleted")
		}
		add()
	}
	sym.Freeze(raws)
	switch sym.Choose("op", 4) {
	case 0:
		n, _ := s.net("q")
		t.insert(n, 77)
		sym.Cover("insert")
	case 1:
		n, _ := s.net("q")
		t.del(n)
		sym.Cover("delete")
	case 2:
		n, _ := s.net("q")
		t.get(n)
	case 3:
		t.enum()
	}
	sym.Thaw()
	for i := range olds {
		oldm[i].content(olds[i].enum(), false, "an earlier version has changed its content")
	}
}

// ---- I06

func IPUpdate() {
	s, t, m := newKinds(), iptree.NewTree(), &ipmodel{}
	var w ipT = ipg{t}
	for i, op := range plan() {
		w, _ = ipStep(s, w, m, op, uint64(i))
	}
	t = w.(ipg).t
	n, k := s.net("t")
	there := m.stored(k)
	var seen []ipkv
	upd := map[uint64]bool{}
	t.UpdateDescendants(n, func(p iptree.Pair) (interface{}, bool) {
		x := unnet(p.Key, ungval(p.Value, true))
		seen = append(seen, x)
		if len(seen) > 8 {
			sym.Assert(false, "the callback is called without end")
		}
		b := sym.Choose("upd", 2) == 1
		upd[x.v] = b
		return gval(x.v + 100), b
	})
	sym.Assert(sym.Quiesce(), "the update leaves no worker behind")
	// the visited ones
	want := 0
	for i := range m.e {
		e := &m.e[i]
		below := sym.And(there, sym.And(e.alive, sym.And(k.holds(e.ipk), sym.Not(k.equal(e.ipk)))))
		want += sym.IteInt(below, 1, 0)
	}
	ok := want == len(seen)
	for i, x := range seen {
		below := false
		for j := range m.e {
			if e := &m.e[j]; e.v == x.v {
				below = sym.Or(below, sym.And(sym.And(e.alive, e.equal(x.ipk)), sym.And(k.holds(e.ipk), sym.Not(k.equal(e.ipk)))))
			}
		}
		ok = sym.And(ok, sym.And(x.canon, below))
		for j := 0; j < i; j++ {
			ok = sym.And(ok, seen[j].v != x.v)
		}
	}
	sym.Assert(ok, "the callback sees exactly the stored networks strictly inside a stored target, once each, with canonical key and current value")
	if len(seen) > 0 {
		sym.Cover("visited")
	} else {
		sym.Cover("nothing visited")
	}
	for i := range m.e {
		if upd[m.e[i].v] {
			m.e[i].v += 100
		}
	}
	m.content(w.enum(), false, "the update changes exactly the values it was asked to change")
	sym.Observe("seen", len(seen))
}

// ---- I07

// badNet makes a key that is no network.
func badNet() *net.IPNet {
	switch sym.Choose("bad", 6) {
	case 0:
		return nil
	case 1: // address of a wrong length
		l := sym.Choose("iplen", 20)
		if l == 4 || l == 16 {
			l = 0
		}
		return &net.IPNet{IP: net.IP(sym.Bytes("ip", l)), Mask: net.CIDRMask(sym.PrefixLen("n", 32), 32)}
	case 2: // the same with an IPv6 mask
		l := sym.Choose("iplen", 20)
		if l == 4 || l == 16 {
			l = 0
		}
		return &net.IPNet{IP: net.IP(sym.Bytes("ip", l)), Mask: net.CIDRMask(sym.PrefixLen("n", 64), 128)}
	case 3: // mask of the other family
		if sym.Choose("which", 2) == 0 {
			return &net.IPNet{IP: net.IP(sym.Bytes("ip", 4)), Mask: net.CIDRMask(64*sym.Choose("half", 2)+sym.PrefixLen("n", 64), 128)}
		}
		return &net.IPNet{IP: net.IP(sym.Bytes("ip", 16)), Mask: net.CIDRMask(sym.PrefixLen("n", 32), 32)}
	case 4: // non-canonical or missing mask
		if sym.Choose("which", 2) == 0 {
			return &net.IPNet{IP: net.IP(sym.Bytes("ip", 4)), Mask: nil}
		}
		b := sym.Bytes("mask", 4)
		x := ^uint32(pack32(b) >> 32)
		sym.Assume(x&(x+1) != 0)
		return &net.IPNet{IP: net.IP(sym.Bytes("ip", 4)), Mask: net.IPMask(b)}
	}
	b := sym.Bytes("mask", 16)
	hi, lo := ^pack64(b), ^pack64(b[8:])
	sym.Assume(sym.Not(sym.Or(sym.And(hi == 0, lo&(lo+1) == 0), sym.And(lo == ^uint64(0), hi&(hi+1) == 0))))
	return &net.IPNet{IP: net.IP(sym.Bytes("ip", 16)), Mask: net.IPMask(b)}
}

func badIP() net.IP {
	l := sym.Choose("iplen", 20)
	if l == 4 || l == 16 {
		return nil
	}
	return net.IP(sym.Bytes("ip", l))
}

func IPMalformed() {
	_, t, m := ipHistory()
	if sym.Param("nil", 0) == 1 {
		t = t.none()
	}
	if sym.Choose("by", 2) == 0 {
		n := badNet()
		switch sym.Choose("op", 4) {
		case 0:
			t = t.insert(n, 77)
		case 1:
			if sym.Param("nil", 0) == 0 {
				t.inplace(n, 77)
			}
		case 2:
			v, ok := t.get(n)
			sym.Assert(!ok && v == 0, "looking up a malformed network misses")
		case 3:
			r, ok := t.del(n)
			sym.Assert(!ok, "deleting a malformed network reports nothing removed")
			t = r
		}
	} else {
		ip := badIP()
		switch sym.Choose("op", 4) {
		case 0:
			t = t.insertIP(ip, 77)
		case 1:
			if sym.Param("nil", 0) == 0 {
				t.inplaceIP(ip, 77)
			}
		case 2:
			v, ok := t.getIP(ip)
			sym.Assert(!ok && v == 0, "looking up a malformed address misses")
		case 3:
			r, ok := t.delIP(ip)
			sym.Assert(!ok, "deleting a malformed address reports nothing removed")
			t = r
		}
	}
	m.content(t.enum(), false, "an operation with a malformed key changes nothing")
	sym.Cover("inert")
}

func IPMalformedUpdate() {
	_, t, m := ipHistory()
	t.(ipg).t.UpdateDescendants(badNet(), func(p iptree.Pair) (interface{}, bool) {
		sym.Assert(false, "a malformed target visits nothing")
		return nil, true
	})
	m.content(t.enum(), false, "an update with a malformed target changes nothing")
	sym.Cover("inert")
}

// IPAddrIsHost compares an operation by address with the one by its host network.
func IPAddrIsHost() {
	s, t, m := ipHistory()
	ip, k := s.addr("ip")
	host := &net.IPNet{IP: net.IP(bytes64(k.hi)[:4]), Mask: net.CIDRMask(32, 32)}
	if k.fam == 6 {
		host = &net.IPNet{IP: ip, Mask: net.CIDRMask(128, 128)}
	}
	switch sym.Choose("op", 4) {
	case 0:
		a, b := t.insertIP(ip, 77), t.insert(host, 77)
		m.put(k, 77)
		sym.Assert(sameNets(a.enum(), b.enum()), "inserting an address is inserting its host network")
		m.content(a.enum(), false, "inserting an address stores its host network")
	case 1:
		va, oka := t.getIP(ip)
		vb, okb := t.get(host)
		sym.Assert(oka == okb && va == vb, "looking up an address is looking up its host network")
		sym.Observe("get", va)
	case 2:
		a, x := t.delIP(ip)
		b, y := t.del(host)
		sym.Assert(x == y, "deleting an address is deleting its host network")
		sym.Assert(sameNets(a.enum(), b.enum()), "deleting an address leaves what deleting its host network leaves")
		m.remove(k)
		m.content(a.enum(), false, "deleting an address removes its host network only")
	case 3:
		t.inplaceIP(ip, 77)
		m.put(k, 77)
		m.content(t.enum(), false, "in-place insertion of an address stores its host network")
	}
	sym.Cover("same")
}
