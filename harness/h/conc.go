package h

import (
	"net"
	"reflect"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/iptree"
	"verifharness/sym"
)

// C01: operations that goroutines may run at the same time write nothing another one may read. Memory reachable from
// the shared trees and all package-level variables are read-only while they run. When the race detector watches a
// replay, two goroutines run them.

func concurrently(f func()) {
	if !sym.Race() {
		f()
		return
	}
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	f()
	<-done
}

// shared runs f while x and the package-level variables are read-only.
func shared(x interface{}, f func()) {
	sym.FreezeShared(x)
	concurrently(f)
	sym.Thaw()
}

func NumConc() {
	w := numWidth()
	t, m := numHistory(w)
	k, n := symKey("q", w), symLen("qlen", w)
	op := sym.Choose("op", 8)
	shared(t.raw(), func() {
		switch op {
		case 0:
			t.insert(k, n, val(77))
		case 1:
			t.del(k, n)
		case 2:
			t.match(k, n)
		case 3:
			t.exact(k, n)
		case 4:
			t.find(k, n)
		case 5:
			t.enum()
		case 6: // a tree of one's own, derived from nothing
			p := newNum(w).inplace(5, 3, val(3)).inplace(k, n, val(77)).insert(9, 7, val(4))
			p.del(k, n)
		case 7:
			if sym.Param("dot", 0) == 1 {
				t.dot()
			}
		}
	})
	m.content(t.enum(), false, "the shared tree has changed")
	sym.Cover("done")
}

// NumDuring changes nothing about an enumeration in progress.
func NumDuring() {
	w := numWidth()
	t, m := numHistory(w)
	old := m.clone()
	next := t.iter()
	k, n := symKey("q", w), symLen("qlen", w)
	op := sym.Choose("op", 4)
	var got []kbv
	for i := sym.Choose("after", sym.Param("after", 3)); i > 0; i-- {
		if x, ok := next(); ok {
			got = append(got, x)
		}
	}
	switch op {
	case 0:
		t = t.insert(k, n, val(77))
		m.put(k, n, 77)
	case 1:
		t, _ = t.del(k, n)
		m.remove(k, n)
	case 2:
		m.look(t, k, n)
	case 3:
	}
	l := t.enum()
	for {
		x, ok := next()
		if !ok {
			break
		}
		got = append(got, x)
	}
	old.content(got, true, "an enumeration in progress delivers the version it was started on")
	m.content(l, true, "an enumeration started meanwhile delivers its own version")
	sym.Assert(sym.Quiesce(), "enumerations leave no worker behind")
	sym.Cover("done")
}

func IPConc() {
	s, t, m := ipHistory()
	op := sym.Choose("op", 8)
	var (
		n  *net.IPNet
		k  ipk
		ip net.IP
	)
	if op < 5 {
		n, k = s.net("q")
	} else {
		ip, k = s.addr("q")
	}
	own := &net.IPNet{IP: net.IP{192, 0, 2, 1}, Mask: net.IPMask{255, 255, 255, 0}}
	own6 := &net.IPNet{IP: net.IP{0x20, 1, 0xd, 0xb8, 15: 1}, Mask: net.CIDRMask(100, 128)}
	shared([]interface{}{t.raw(), n, ip}, func() {
		switch op {
		case 0:
			t.insert(n, 77)
		case 1:
			t.del(n)
		case 2:
			t.get(n)
		case 3:
			t.enum()
		case 4:
			p := newIP()
			p.inplace(own, 3)
			p.inplace(own6, 4)
			p.inplace(n, 77)
			if g, ok := p.(ipg); ok {
				g.t.UpdateDescendants(n, func(p iptree.Pair) (interface{}, bool) { return gval(5), true })
			}
			p.del(n)
		case 5:
			t.insertIP(ip, 77)
		case 6:
			t.delIP(ip)
		case 7:
			t.getIP(ip)
		}
	})
	_ = k
	m.content(t.enum(), false, "the shared tree has changed")
	sym.Cover("done")
}

func IPDuring() {
	s, t, m := ipHistory()
	old := m.clone()
	next := t.iter()
	op := sym.Choose("op", 3)
	var got []ipkv
	for i := sym.Choose("after", sym.Param("after", 3)); i > 0; i-- {
		if x, ok := next(); ok {
			got = append(got, x)
		}
	}
	switch op {
	case 0:
		t, _ = ipStep(s, t, m, 1, 77)
	case 1:
		t, _ = ipStep(s, t, m, 3, 0)
	}
	l := t.enum()
	for {
		x, ok := next()
		if !ok {
			break
		}
		got = append(got, x)
	}
	old.content(got, true, "an enumeration in progress delivers the version it was started on")
	m.content(l, true, "an enumeration started meanwhile delivers its own version")
	sym.Assert(sym.Quiesce(), "enumerations leave no worker behind")
	sym.Cover("done")
}

func MapConc() {
	m := mapHistory()
	op := sym.Choose("op", 7)
	k := m.key("q")
	shared(m.t.raw(), func() {
		switch op {
		case 0:
			m.t.insert(k, 77)
		case 1:
			m.t.del(k)
		case 2:
			m.t.get(k)
			m.t.empty()
		case 3:
			m.t.enum(true)
		case 4:
			m.t.enum(false)
		case 5:
			own := newMap()
			own.t.inplace(mkey{s: "M", canon: "M", raw: true}, 3)
			own.t.inplace(k, 77)
			own.t.inplace(mkey{s: "N", canon: "N", raw: true}, 4)
			own.t.del(k)
			own.t.none().insert(k, 5)
		case 6:
			if sym.Param("dot", 0) == 1 {
				m.t.raw().(interface{ Dot() string }).Dot()
			}
		}
	})
	m.content(m.t.enum(true), false, "the shared tree has changed")
	sym.Cover("done")
}

func MapDuring() {
	m := mapHistory()
	old := *m
	old.e = append([]mapEnt(nil), m.e...)
	next := m.t.iter(true)
	op := sym.Choose("op", 3)
	var got []mapkv
	for i := sym.Choose("after", sym.Param("after", 3)); i > 0; i-- {
		if x, ok := next(); ok {
			got = append(got, x)
		}
	}
	switch op {
	case 0:
		m.step(1)
	case 1:
		m.step(3)
	case 2:
		m.checkGet()
	}
	l := m.t.enum(true)
	for {
		x, ok := next()
		if !ok {
			break
		}
		got = append(got, x)
	}
	old.content(got, true, "an enumeration in progress delivers the version it was started on")
	m.content(l, true, "an enumeration started meanwhile delivers its own version")
	sym.Assert(sym.Quiesce(), "enumerations leave no worker behind")
	sym.Cover("done")
}

func DomConc() {
	m := domHistory()
	op := sym.Choose("op", 6)
	k := m.key("q")
	shared(m.t.raw(), func() {
		switch op {
		case 0:
			m.t.insert(k.n, 77)
		case 1:
			m.t.del(k.n)
		case 2:
			m.t.delSub(k.n)
		case 3:
			m.t.get(k.n)
		case 4:
			m.t.enum()
		case 5:
			a, _ := domain.MakeNameFromString("M.x")
			own := newDom(sym.Param("ty", 0))
			own.inplace(a, 3)
			own.inplace(k.n, 77)
			own.del(k.n)
			own.delSub(k.n)
			own.none().insert(k.n, 5)
		}
	})
	m.content(m.t.enum(), "the shared tree has changed")
	sym.Cover("done")
}

func DomDuring() {
	m := domHistory()
	old := *m
	old.e = append([]domEnt(nil), m.e...)
	next := m.t.iter()
	op := sym.Choose("op", 4)
	var got []mapkv
	for i := sym.Choose("after", sym.Param("after", 3)); i > 0; i-- {
		if x, ok := next(); ok {
			got = append(got, x)
		}
	}
	switch op {
	case 0:
		m.step(1)
	case 1:
		m.step(3)
	case 2:
		m.step(4)
	case 3:
		m.step(7)
	}
	l := m.t.enum()
	for {
		x, ok := next()
		if !ok {
			break
		}
		got = append(got, x)
	}
	old.content(got, "an enumeration in progress delivers the version it was started on")
	m.content(l, "an enumeration started meanwhile delivers its own version")
	sym.Assert(sym.Quiesce(), "enumerations leave no worker behind")
	sym.Cover("done")
}

// NameConc: parsing, writing and walking labels and names.
func NameConc() {
	s := text("s")
	op := sym.Choose("op", 4)
	if op == 0 && readSpec(s).inner {
		return // outside the contract of MakeLabel
	}
	n, err := domain.MakeNameFromString(s)
	shared([]interface{}{n, s}, func() {
		switch op {
		case 0:
			domain.MakeLabel(s)
		case 1:
			domain.MakeHumanReadableLabel(s)
		case 2:
			domain.MakeNameFromString(s)
		case 3:
			if err == nil {
				_ = n.String()
				n.GetLabels(func(l string) error { return nil })
				n.GetLabel(0)
				domain.MakeNameFromReflection(reflect.ValueOf(n))
			}
		}
	})
	if err == nil {
		sym.Cover("name")
	} else {
		sym.Cover("no name")
	}
}
