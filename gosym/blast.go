package main

// Bit-blasting of terms into clauses. Every term is a circuit over the input bits; all clauses are gate
// definitions, assertions are passed to the SAT solver as assumptions.

type gateKey struct {
	op      uint8
	a, b, c lit
}

type Blaster struct {
	sat   *Sat2
	st    *Store
	bits  map[int][]lit // term id -> bits, low first; a boolean has one
	own   map[int][2]int32
	ext   map[int][]int32 // term id -> gates of other terms it is made of
	hits  []int32
	gates map[gateKey]lit
	T     lit
	mark  []uint32
	gen   uint32
	cone  []int32
	last  []*Term // path condition of the last query
}

func newBlaster(st *Store) *Blaster {
	b := &Blaster{sat: newSat2(), st: st, bits: map[int][]lit{}, own: map[int][2]int32{}, ext: map[int][]int32{}, gates: map[gateKey]lit{}}
	b.T = lit(2 * b.sat.newVar())
	b.sat.addClause(b.T)
	return b
}

func (b *Blaster) konst(x bool) lit {
	if x {
		return b.T
	}
	return b.T.not()
}

func (b *Blaster) and(x, y lit) lit {
	F := b.T.not()
	switch {
	case x == F || y == F || x == y.not():
		return F
	case x == b.T || x == y:
		return y
	case y == b.T:
		return x
	}
	if x > y {
		x, y = y, x
	}
	k := gateKey{0, x, y, 0}
	if g, ok := b.gates[k]; ok {
		b.hits = append(b.hits, g.v())
		return g
	}
	g := lit(2 * b.sat.newVar())
	b.sat.addClause(g.not(), x)
	b.sat.addClause(g.not(), y)
	b.sat.addClause(g, x.not(), y.not())
	b.gates[k] = g
	return g
}

func (b *Blaster) or(x, y lit) lit { return b.and(x.not(), y.not()).not() }

func (b *Blaster) xor(x, y lit) lit {
	F := b.T.not()
	switch {
	case x == F:
		return y
	case y == F:
		return x
	case x == b.T:
		return y.not()
	case y == b.T:
		return x.not()
	case x == y:
		return F
	case x == y.not():
		return b.T
	}
	neg := (x&1)^(y&1) != 0
	x &^= 1
	y &^= 1
	if x > y {
		x, y = y, x
	}
	k := gateKey{1, x, y, 0}
	g, ok := b.gates[k]
	if !ok {
		g = lit(2 * b.sat.newVar())
		b.sat.addClause(g.not(), x, y)
		b.sat.addClause(g.not(), x.not(), y.not())
		b.sat.addClause(g, x.not(), y)
		b.sat.addClause(g, x, y.not())
		b.gates[k] = g
	} else {
		b.hits = append(b.hits, g.v())
	}
	if neg {
		return g.not()
	}
	return g
}

func (b *Blaster) mux(c, x, y lit) lit {
	F := b.T.not()
	switch {
	case c == b.T:
		return x
	case c == F:
		return y
	case x == y:
		return x
	case x == b.T || x == c:
		return b.or(c, y)
	case x == F || x == c.not():
		return b.and(c.not(), y)
	case y == b.T || y == c.not():
		return b.or(c.not(), x)
	case y == F || y == c:
		return b.and(c, x)
	case x == y.not():
		return b.xor(c, y)
	}
	if c&1 != 0 {
		c, x, y = c.not(), y, x
	}
	neg := x&1 != 0
	if neg {
		x, y = x.not(), y.not()
	}
	k := gateKey{2, c, x, y}
	g, ok := b.gates[k]
	if !ok {
		g = lit(2 * b.sat.newVar())
		b.sat.addClause(c.not(), x.not(), g)
		b.sat.addClause(c.not(), x, g.not())
		b.sat.addClause(c, y.not(), g)
		b.sat.addClause(c, y, g.not())
		b.sat.addClause(x.not(), y.not(), g)
		b.sat.addClause(x, y, g.not())
		b.gates[k] = g
	} else {
		b.hits = append(b.hits, g.v())
	}
	if neg {
		return g.not()
	}
	return g
}

func (b *Blaster) add(x, y []lit, carry lit) []lit {
	out := make([]lit, len(x))
	for i := range x {
		h := b.xor(x[i], y[i])
		out[i] = b.xor(h, carry)
		if i+1 < len(x) {
			carry = b.or(b.and(x[i], y[i]), b.and(h, carry))
		}
	}
	return out
}

func notAll(x []lit) []lit {
	out := make([]lit, len(x))
	for i := range x {
		out[i] = x[i].not()
	}
	return out
}

func (b *Blaster) ult(x, y []lit) lit {
	r := b.T.not()
	for i := range x { // from the low end: the highest difference decides
		r = b.mux(b.xor(x[i], y[i]), y[i], r)
	}
	return r
}

func (b *Blaster) eq(x, y []lit) lit {
	r := b.T
	for i := range x {
		r = b.and(r, b.xor(x[i], y[i]).not())
	}
	return r
}

func (b *Blaster) muxAll(c lit, x, y []lit) []lit {
	out := make([]lit, len(x))
	for i := range x {
		out[i] = b.mux(c, x[i], y[i])
	}
	return out
}

func (b *Blaster) shift(x, n []lit, op Op) []lit {
	w := len(x)
	fill := b.T.not()
	if op == OAshr {
		fill = x[w-1]
	}
	cur := x
	big := b.T.not()
	for k := 0; k < len(n); k++ {
		if k > 6 || 1<<uint(k) >= w {
			big = b.or(big, n[k])
			continue
		}
		d := 1 << uint(k)
		nx := make([]lit, w)
		for i := range nx {
			s := fill
			if op == OShl {
				if i-d >= 0 {
					s = cur[i-d]
				}
			} else if i+d < w {
				s = cur[i+d]
			}
			nx[i] = b.mux(n[k], s, cur[i])
		}
		cur = nx
	}
	out := make([]lit, w)
	for i := range out {
		out[i] = b.mux(big, fill, cur[i])
	}
	return out
}

func (b *Blaster) mul(x, y []lit) []lit {
	w := len(x)
	acc := make([]lit, w)
	for i := range acc {
		acc[i] = b.T.not()
	}
	for i := 0; i < w; i++ {
		if y[i] == b.T.not() {
			continue
		}
		row := make([]lit, w)
		for j := range row {
			row[j] = b.T.not()
			if j >= i {
				row[j] = b.and(x[j-i], y[i])
			}
		}
		acc = b.add(acc, row, b.T.not())
	}
	return acc
}

// divmod is restoring division; division by zero gives all ones and the dividend, as in SMT-LIB.
func (b *Blaster) divmod(x, y []lit) (q, r []lit) {
	w := len(x)
	F := b.T.not()
	r = make([]lit, w+1)
	for i := range r {
		r[i] = F
	}
	yy := append(append([]lit{}, y...), F)
	q = make([]lit, w)
	for i := w - 1; i >= 0; i-- {
		r = append([]lit{x[i]}, r[:w]...)
		ge := b.ult(r, yy).not()
		q[i] = ge
		r = b.muxAll(ge, b.add(r, notAll(yy), b.T), r)
	}
	return q, r[:w]
}

func (b *Blaster) neg(x []lit) []lit {
	z := make([]lit, len(x))
	for i := range z {
		z[i] = b.T.not()
	}
	return b.add(z, notAll(x), b.T)
}

func (b *Blaster) abs(x []lit) []lit { return b.muxAll(x[len(x)-1], b.neg(x), x) }

// lits returns the bits of t.
func (b *Blaster) lits(t *Term) []lit {
	if r, ok := b.bits[t.id]; ok {
		return r
	}
	first := int32(len(b.sat.level))
	var r []lit
	w := int(t.w)
	if w == 0 {
		w = 1
	}
	arg := func(i int) []lit { return b.lits(t.a[i]) }
	for _, a := range t.a {
		if a != nil {
			b.lits(a)
		}
	}
	first = int32(len(b.sat.level))
	b.hits = b.hits[:0]
	switch t.op {
	case OConst:
		r = make([]lit, w)
		for i := range r {
			r[i] = b.konst(t.c>>uint(i)&1 != 0)
		}
	case OVar:
		r = make([]lit, w)
		for i := range r {
			r[i] = lit(2 * b.sat.newVar())
		}
	case OAdd:
		r = b.add(arg(0), arg(1), b.T.not())
	case OSub:
		r = b.add(arg(0), notAll(arg(1)), b.T)
	case OMul:
		r = b.mul(arg(0), arg(1))
	case OUdiv:
		r, _ = b.divmod(arg(0), arg(1))
	case OUrem:
		_, r = b.divmod(arg(0), arg(1))
	case OSdiv, OSrem:
		x, y := arg(0), arg(1)
		sa, sb := x[w-1], y[w-1]
		q, m := b.divmod(b.abs(x), b.abs(y))
		if t.op == OSdiv {
			r = b.muxAll(b.xor(sa, sb), b.neg(q), q)
		} else {
			r = b.muxAll(sa, b.neg(m), m)
		}
	case OAnd, OOr, OXor:
		x, y := arg(0), arg(1)
		r = make([]lit, w)
		for i := range r {
			switch t.op {
			case OAnd:
				r[i] = b.and(x[i], y[i])
			case OOr:
				r[i] = b.or(x[i], y[i])
			default:
				r[i] = b.xor(x[i], y[i])
			}
		}
	case ONot, OBNot:
		r = notAll(arg(0))
	case ONeg:
		r = b.neg(arg(0))
	case OShl, OLshr, OAshr:
		r = b.shift(arg(0), arg(1), t.op)
	case OConcat:
		r = append(append([]lit{}, arg(1)...), arg(0)...)
	case OExtract:
		r = arg(0)[t.c&0xff : t.c>>8+1]
	case OSext:
		x := arg(0)
		r = append([]lit{}, x...)
		for len(r) < w {
			r = append(r, x[len(x)-1])
		}
	case OIte:
		r = b.muxAll(arg(0)[0], arg(1), arg(2))
	case OBAnd:
		r = []lit{b.and(arg(0)[0], arg(1)[0])}
	case OBOr:
		r = []lit{b.or(arg(0)[0], arg(1)[0])}
	case OEq:
		r = []lit{b.eq(arg(0), arg(1))}
	case OUlt:
		r = []lit{b.ult(arg(0), arg(1))}
	case OSlt:
		x, y := append([]lit{}, arg(0)...), append([]lit{}, arg(1)...)
		n := len(x) - 1
		x[n], y[n] = y[n], x[n]
		r = []lit{b.ult(x, y)}
	case OU2N:
		m := arg(0)
		r = make([]lit, w)
		for i := range r {
			r[i] = b.konst(t.c>>uint(i)&1 != 0)
		}
		for i := len(m) - 1; i >= 0; i-- {
			v := t.c + uint64(len(m)-i)
			for k := range r {
				r[k] = b.mux(m[i], b.konst(v>>uint(k)&1 != 0), r[k])
			}
		}
	default:
		panic(engineErr("blast op"))
	}
	if last := int32(len(b.sat.level)); last > first {
		b.own[t.id] = [2]int32{first, last}
	}
	if len(b.hits) > 0 {
		l := b.hits[:0]
		for _, v := range b.hits {
			if v < first {
				l = append(l, v)
			}
		}
		if len(l) > 0 {
			b.ext[t.id] = append([]int32(nil), l...)
		}
		b.hits = b.hits[:0]
	}
	b.bits[t.id] = r
	return r
}

// collect adds the SAT variables t depends on to the cone.
func (b *Blaster) collect(t *Term) {
	for len(b.mark) <= t.id {
		b.mark = append(b.mark, make([]uint32, t.id+1024-len(b.mark))...)
	}
	if b.mark[t.id] == b.gen || t.op == OConst {
		return
	}
	b.mark[t.id] = b.gen
	if r, ok := b.own[t.id]; ok {
		for v := r[0]; v < r[1]; v++ {
			b.cone = append(b.cone, v)
		}
	}
	// gates found by structural hashing belong to another term: they are needed all the same
	b.cone = append(b.cone, b.ext[t.id]...)
	for _, l := range b.bits[t.id] {
		b.cone = append(b.cone, l.v())
	}
	for _, a := range t.a {
		if a != nil {
			b.collect(a)
		}
	}
}

// check decides the conjunction of ts.
func (b *Blaster) check(pc []*Term, extra *Term, vars []inputRec, maxConfl int64) (Sat, Model) {
	// the trail of the assumptions shared with the last query is kept
	k := 0
	for k < len(pc) && k < len(b.last) && pc[k] == b.last[k] {
		k++
	}
	b.sat.cancelUntil(k)
	b.last = append(b.last[:0], pc...)
	b.gen++
	b.cone = b.cone[:0]
	as := make([]lit, 0, len(pc)+1)
	for _, t := range pc {
		as = append(as, b.lits(t)[0])
		b.collect(t)
	}
	as = append(as, b.lits(extra)[0])
	b.collect(extra)
	s := b.sat
	// read the model before the trail is undone
	m := Model{}
	r := s.solveWith(as, b.cone, maxConfl, func() {
		for _, v := range vars {
			ls, ok := b.bits[v.v.id]
			if !ok {
				continue
			}
			var x uint64
			for i, l := range ls {
				if s.val[l] == lTrue {
					x |= 1 << uint(i)
				}
			}
			m[v.v.name] = x
		}
	})
	if r != IsSat {
		return r, nil
	}
	return r, m
}
