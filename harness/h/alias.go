package h

import (
	"net"

	"github.com/infobloxopen/go-trees/iptree"
	"verifharness/sym"
)

// I08: what callers pass in and get out of the IP trees belongs to them.

// guarded gives n with its address and mask in slices of their own with room behind them. check asserts that nothing
// of it was written and then overwrites it.
func guarded(n *net.IPNet) (r *net.IPNet, check func()) {
	ip, c1 := guardedBytes(n.IP)
	mask, c2 := guardedBytes(n.Mask)
	r = &net.IPNet{IP: net.IP(ip), Mask: net.IPMask(mask)}
	return r, func() {
		sym.Assert(len(r.IP) == len(ip) && len(r.Mask) == len(mask), "an operation changed the network passed to it")
		if len(r.IP) == len(ip) && len(ip) > 0 {
			sym.Assert(&r.IP[0] == &ip[0] && &r.Mask[0] == &mask[0], "an operation changed the network passed to it")
		}
		c1()
		c2()
		r.IP, r.Mask = nil, nil
	}
}

func guardedBytes(b []byte) ([]byte, func()) {
	whole := make([]byte, 20)
	for i := range whole {
		whole[i] = 0xee
	}
	copy(whole, b)
	kept := append([]byte(nil), whole...)
	return whole[:len(b)], func() {
		ok := true
		for i := range whole {
			ok = sym.And(ok, whole[i] == kept[i])
		}
		sym.Assert(ok, "an operation wrote into the bytes passed to it")
		for i := range whole {
			whole[i] = ^whole[i]
		}
	}
}

// IPArgs runs a history; every argument is checked and overwritten after its operation.
func IPArgs() {
	s, t, m := newKinds(), newIP(), &ipmodel{}
	for i, op := range plan() {
		v := ipVal(i)
		switch {
		case op <= 3 || op == 7:
			n, k := s.net("net")
			g, check := guarded(n)
			switch op {
			case 1:
				t = t.insert(g, v)
				m.put(k, v)
			case 2:
				t.inplace(g, v)
				m.put(k, v)
			case 3:
				t, _ = t.del(g)
				m.remove(k)
			default:
				t.get(g)
			}
			check()
		default:
			ip, k := s.addr("ip")
			g, check := guardedBytes(ip)
			switch op {
			case 4:
				t = t.insertIP(g, v)
				m.put(k, v)
			case 5:
				t.inplaceIP(g, v)
				m.put(k, v)
			case 6:
				t, _ = t.delIP(g)
				m.remove(k)
			default:
				t.getIP(g)
			}
			check()
		}
	}
	m.content(t.enum(), true, "the content does not depend on what becomes of the arguments")
	ipCheckGet(s, t, m, false)
	sym.Cover("done")
}

func scribble(n *net.IPNet) {
	for i := range n.IP {
		n.IP[i] = ^n.IP[i]
	}
	for i := range n.Mask {
		n.Mask[i] = ^n.Mask[i]
	}
}

type rawPair struct {
	n *net.IPNet
	v uint64
}

// IPKeys enumerates and overwrites the keys delivered, at once or at the end.
func IPKeys() {
	s, t, m := ipHistory()
	late := sym.Choose("late", 2) == 1
	var l []rawPair
	var got []ipkv
	t.each(func(n *net.IPNet, v uint64) {
		l = append(l, rawPair{n, v})
		if !late {
			got = append(got, unnet(n, v))
			scribble(n)
		}
	})
	if late {
		// overwriting one leaves the others alone
		for i := range l {
			got = append(got, unnet(l[i].n, l[i].v))
			scribble(l[i].n)
		}
	}
	m.content(got, true, "every delivered key is the receiver's own")
	m.content(t.enum(), true, "overwriting delivered keys leaves the tree alone")
	ipCheckGet(s, t, m, false)
	sym.Cover("done")
}

// IPUpdateKeys does the same with the keys given to the callback of an update.
func IPUpdateKeys() {
	s, w, m := ipHistory()
	t := w.(ipg).t
	n, k := s.net("t")
	g, check := guarded(n)
	upd := map[uint64]bool{}
	t.UpdateDescendants(g, func(p iptree.Pair) (interface{}, bool) {
		x := unnet(p.Key, ungval(p.Value, true))
		scribble(p.Key)
		sym.Assert(x.canon, "the callback's keys are canonical")
		sym.Assert(sym.And(m.storedAs(x.v, x.ipk), k.holds(x.ipk)), "the callback sees stored networks inside the target")
		upd[x.v] = true
		return gval(x.v + 100), true
	})
	check()
	for i := range m.e {
		if upd[m.e[i].v] {
			m.e[i].v += 100
		}
	}
	m.content(w.enum(), true, "overwriting the callback's keys leaves the tree alone")
	if len(upd) > 0 {
		sym.Cover("visited")
	}
	sym.Cover("done")
}
