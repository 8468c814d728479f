package h

import "verifharness/sym"

// X01: typed trees against the generic ones, with values from the whole range of the type (parameter full=1).

func symValue(name string, ty int) uint64 {
	switch ty {
	case 8:
		return uint64(sym.U8(name))
	case 16:
		return uint64(sym.U16(name))
	case 32:
		return uint64(sym.U32(name))
	}
	return sym.U64(name)
}

func sameAnswer(v1 uint64, ok1 bool, v2 uint64, ok2 bool) {
	sym.Assert(ok1 == ok2, "typed and generic trees agree whether there is an answer")
	if ok1 {
		sym.Cover("hit")
	} else {
		sym.Cover("miss")
		sym.Assert(v1 == 0, "a miss yields zero")
	}
	sym.Assert(v1 == v2, "typed and generic trees give the same value")
	sym.Observe("ok", ok1)
	sym.Observe("v", v1)
}

func DiffIP() {
	ty := sym.Param("ty", 64)
	a, b := newIPOf(ty), newIPOf(0)
	s := newKinds()
	for _, op := range plan() {
		v := symValue("v", ty)
		var x, y bool
		if op <= 3 {
			n, _ := s.net("net")
			switch op {
			case 1:
				a, b = a.insert(n, v), b.insert(n, v)
			case 2:
				a.inplace(n, v)
				b.inplace(n, v)
			default:
				a, x = a.del(n)
				b, y = b.del(n)
			}
		} else {
			ip, _ := s.addr("ip")
			switch op {
			case 4:
				a, b = a.insertIP(ip, v), b.insertIP(ip, v)
			case 5:
				a.inplaceIP(ip, v)
				b.inplaceIP(ip, v)
			default:
				a, x = a.delIP(ip)
				b, y = b.delIP(ip)
			}
		}
		sym.Assert(x == y, "typed and generic trees agree about deletions")
	}
	switch sym.Choose("probe", 4) {
	case 0:
		q, _ := s.net("q")
		v1, ok1 := a.get(q)
		v2, ok2 := b.get(q)
		sameAnswer(v1, ok1, v2, ok2)
	case 1:
		q, _ := s.addr("q")
		v1, ok1 := a.getIP(q)
		v2, ok2 := b.getIP(q)
		sameAnswer(v1, ok1, v2, ok2)
	case 2:
		q, _ := s.net("q")
		x, ok1 := a.del(q)
		y, ok2 := b.del(q)
		sym.Assert(ok1 == ok2, "typed and generic trees agree about deletions")
		diffNets(x.enum(), y.enum())
	case 3:
		diffNets(a.enum(), b.enum())
		sym.Cover("enumerated")
	}
}

func diffNets(a, b []ipkv) {
	sym.Assert(len(a) == len(b), "typed and generic trees enumerate the same")
	for i := range a {
		sym.Assert(a[i].equal(b[i].ipk), "typed and generic trees enumerate the same keys")
		sym.Assert(a[i].v == b[i].v, "typed and generic trees enumerate the same values")
	}
}

func DiffMap() {
	ty := sym.Param("ty", 64)
	a, b := &mapEnv{t: newStr(ty, nil), cmp: cmpDefault}, &mapEnv{t: newStr(0, nil), cmp: cmpDefault}
	if c := sym.Param("cmp", 0); c > 0 {
		f := []func(a, b string) int{cmpDefault, cmpReverse, cmpLength, cmpFold}[c]
		a.t, b.t = newStr(ty, f), newStr(0, f)
	}
	for i := 0; i < sym.Param("n", 0); i++ {
		k := mkey{s: rankKey((i * 5) % 16)}
		a.t, b.t = a.t.insert(k, uint64(i)), b.t.insert(k, uint64(i))
	}
	for _, op := range plan() {
		k := a.key("key")
		v := symValue("v", ty)
		switch op {
		case 1:
			a.t, b.t = a.t.insert(k, v), b.t.insert(k, v)
		case 2:
			a.t.inplace(k, v)
			b.t.inplace(k, v)
		default:
			var x, y bool
			a.t, x = a.t.del(k)
			b.t, y = b.t.del(k)
			sym.Assert(x == y, "typed and generic trees agree about deletions")
		}
	}
	sym.Assert(a.t.empty() == b.t.empty(), "typed and generic trees agree whether they are empty")
	if sym.Choose("probe", 2) == 0 {
		q := a.key("q")
		v1, ok1 := a.t.get(q)
		v2, ok2 := b.t.get(q)
		sameAnswer(v1, ok1, v2, ok2)
		return
	}
	diffKV(a.t.enum(false), b.t.enum(false))
	sym.Cover("enumerated")
}

func diffKV(a, b []mapkv) {
	sym.Assert(len(a) == len(b), "typed and generic trees enumerate the same")
	for i := range a {
		sym.Assert(sym.EqStr(a[i].k, b[i].k), "typed and generic trees enumerate the same keys")
		sym.Assert(a[i].v == b[i].v, "typed and generic trees enumerate the same values")
	}
}

func DiffDom() {
	ty := sym.Param("ty", 64)
	a, b := newDom(ty), newDom(0)
	m := &domEnv{}
	for _, op := range plan() {
		k := m.key("key")
		v := symValue("v", ty)
		var x, y bool
		switch op {
		case 1:
			a, b = a.insert(k.n, v), b.insert(k.n, v)
		case 2:
			a.inplace(k.n, v)
			b.inplace(k.n, v)
		case 3:
			a, x = a.del(k.n)
			b, y = b.del(k.n)
		default:
			a, x = a.delSub(k.n)
			b, y = b.delSub(k.n)
		}
		sym.Assert(x == y, "typed and generic trees agree about deletions")
	}
	if sym.Choose("probe", 2) == 0 {
		q := m.key("q")
		v1, ok1 := a.get(q.n)
		v2, ok2 := b.get(q.n)
		sameAnswer(v1, ok1, v2, ok2)
		return
	}
	diffKV(a.enum(), b.enum())
	sym.Cover("enumerated")
}
