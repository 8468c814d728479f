package main

// A small incremental CDCL SAT solver: two watched literals, VSIDS, phase saving, Luby restarts, learned
// clause minimisation and reduction, solving under assumptions. It is the back end of the bit-blaster in
// blast.go; its answers are cross-checked against an independent SMT solver (see solver.go).

import "sort"

type lit int32 // 2*v for v, 2*v+1 for not v

func (l lit) not() lit { return l ^ 1 }
func (l lit) v() int32 { return int32(l >> 1) }

const (
	lUndef int8 = 0
	lTrue  int8 = 1
	lFalse int8 = -1
)

type clause struct {
	lits    []lit
	act     float32
	lbd     int32
	learned bool
	gone    bool
}

type watch struct {
	c     *clause
	block lit
}

type Sat2 struct {
	watches  [][]watch
	val      []int8 // by literal
	level    []int32
	reason   []*clause
	phase    []int8
	act      []float64
	heapPos  []int32
	heap     []int32
	cand     []uint32 // variable is a decision candidate of query number ...
	query    uint32
	trail    []lit
	lim      []int
	qhead    int
	varInc   float64
	claInc   float32
	learned  []*clause
	seen     []bool
	stackBuf []lit
	toClear  []lit
	ok       bool
	Confl    int64
	Props    int64
	Decs     int64
	Conflict []lit // assumptions responsible for the last unsat answer
	lbdSeen  []uint32
	lbdGen   uint32
	maxLearn int
}

func newSat2() *Sat2 {
	return &Sat2{varInc: 1, claInc: 1, ok: true, maxLearn: 4000}
}

func (s *Sat2) newVar() int32 {
	v := int32(len(s.level))
	s.watches = append(s.watches, nil, nil)
	s.val = append(s.val, lUndef, lUndef)
	s.level = append(s.level, 0)
	s.reason = append(s.reason, nil)
	s.phase = append(s.phase, lFalse)
	s.act = append(s.act, 0)
	s.heapPos = append(s.heapPos, -1)
	s.cand = append(s.cand, 0)
	s.seen = append(s.seen, false)
	s.lbdSeen = append(s.lbdSeen, 0)
	return v
}

func (s *Sat2) value(l lit) int8 { return s.val[l] }

// addClause adds a clause at decision level 0.
func (s *Sat2) addClause(ls ...lit) {
	if !s.ok {
		return
	}
	var out []lit
	for _, l := range ls {
		switch s.val[l] {
		case lTrue:
			if s.level[l.v()] == 0 {
				return
			}
		case lFalse:
			if s.level[l.v()] == 0 {
				continue
			}
		}
		dup := false
		for _, o := range out {
			if o == l {
				dup = true
			}
			if o == l.not() {
				return
			}
		}
		if !dup {
			out = append(out, l)
		}
	}
	switch len(out) {
	case 0:
		s.ok = false
	case 1:
		s.cancelUntil(0)
		s.enqueue(out[0], nil)
		if s.propagate() != nil {
			s.ok = false
		}
	default:
		c := &clause{lits: out}
		if len(s.lim) > 0 {
			// the trail of the last query is still there: watch what is not false, else what became false last
			for i := 0; i < 2; i++ {
				best := i
				for k := i + 1; k < len(out); k++ {
					if s.watchRank(out[k]) > s.watchRank(out[best]) {
						best = k
					}
				}
				out[i], out[best] = out[best], out[i]
			}
			if s.val[out[0]] == lFalse {
				s.cancelUntil(int(s.level[out[0].v()]) - 1)
			}
			if s.val[out[0]] == lUndef && s.val[out[1]] == lFalse {
				s.attach(c)
				s.enqueue(out[0], c)
				return
			}
		}
		s.attach(c)
	}
}

func (s *Sat2) watchRank(l lit) int32 {
	switch s.val[l] {
	case lTrue:
		return 1 << 30
	case lUndef:
		return 1<<30 - 1
	}
	return s.level[l.v()]
}

func (s *Sat2) attach(c *clause) {
	s.watches[c.lits[0].not()] = append(s.watches[c.lits[0].not()], watch{c, c.lits[1]})
	s.watches[c.lits[1].not()] = append(s.watches[c.lits[1].not()], watch{c, c.lits[0]})
}

func (s *Sat2) enqueue(l lit, from *clause) {
	s.val[l] = lTrue
	s.val[l^1] = lFalse
	v := l.v()
	s.level[v] = int32(len(s.lim))
	s.reason[v] = from
	s.trail = append(s.trail, l)
}

func (s *Sat2) propagate() *clause {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		s.Props++
		ws := s.watches[p]
		j := 0
		np := p.not()
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			if s.val[w.block] == lTrue {
				ws[j] = w
				j++
				continue
			}
			c := w.c
			if c.gone {
				continue
			}
			ls := c.lits
			if ls[0] == np {
				ls[0], ls[1] = ls[1], np
			}
			first := ls[0]
			if first != w.block && s.val[first] == lTrue {
				ws[j] = watch{c, first}
				j++
				continue
			}
			found := false
			for k := 2; k < len(ls); k++ {
				if s.val[ls[k]] != lFalse {
					ls[1], ls[k] = ls[k], np
					s.watches[ls[1].not()] = append(s.watches[ls[1].not()], watch{c, first})
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = watch{c, first}
			j++
			if s.val[first] == lFalse {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[p] = ws[:j]
				s.qhead = len(s.trail)
				return c
			}
			s.enqueue(first, c)
		}
		s.watches[p] = ws[:j]
	}
	return nil
}

func (s *Sat2) cancelUntil(lvl int) {
	if len(s.lim) <= lvl {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lvl]; i-- {
		l := s.trail[i]
		v := l.v()
		s.val[l] = lUndef
		s.val[l^1] = lUndef
		s.reason[v] = nil
		if l&1 == 0 {
			s.phase[v] = lTrue
		} else {
			s.phase[v] = lFalse
		}
		if s.cand[v] == s.query && s.heapPos[v] < 0 {
			s.heapInsert(v)
		}
	}
	s.trail = s.trail[:s.lim[lvl]]
	s.lim = s.lim[:lvl]
	s.qhead = len(s.trail)
}

// ---- heap

func (s *Sat2) heapInsert(v int32) {
	s.heapPos[v] = int32(len(s.heap))
	s.heap = append(s.heap, v)
	s.up(int(s.heapPos[v]))
}

func (s *Sat2) up(i int) {
	v := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if s.act[s.heap[p]] >= s.act[v] {
			break
		}
		s.heap[i] = s.heap[p]
		s.heapPos[s.heap[i]] = int32(i)
		i = p
	}
	s.heap[i] = v
	s.heapPos[v] = int32(i)
}

func (s *Sat2) down(i int) {
	v := s.heap[i]
	n := len(s.heap)
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && s.act[s.heap[c+1]] > s.act[s.heap[c]] {
			c++
		}
		if s.act[s.heap[c]] <= s.act[v] {
			break
		}
		s.heap[i] = s.heap[c]
		s.heapPos[s.heap[i]] = int32(i)
		i = c
	}
	s.heap[i] = v
	s.heapPos[v] = int32(i)
}

func (s *Sat2) heapPop() int32 {
	v := s.heap[0]
	last := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	s.heapPos[v] = -1
	if len(s.heap) > 0 {
		s.heap[0] = last
		s.heapPos[last] = 0
		s.down(0)
	}
	return v
}

func (s *Sat2) bump(v int32) {
	s.act[v] += s.varInc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.varInc *= 1e-100
	}
	if s.heapPos[v] >= 0 {
		s.up(int(s.heapPos[v]))
	}
}

// ---- conflict analysis

func (s *Sat2) analyze(confl *clause) (out []lit, back int) {
	out = append(s.stackBuf[:0], 0)
	n := 0
	var p lit = -1
	idx := len(s.trail) - 1
	cur := int32(len(s.lim))
	s.toClear = s.toClear[:0]
	for {
		if confl.learned {
			confl.act += s.claInc
			if confl.act > 1e20 {
				for _, c := range s.learned {
					c.act *= 1e-20
				}
				s.claInc *= 1e-20
			}
		}
		for _, q := range confl.lits {
			if q == p {
				continue
			}
			v := q.v()
			if !s.seen[v] && s.level[v] > 0 {
				s.seen[v] = true
				s.toClear = append(s.toClear, q)
				s.bump(v)
				if s.level[v] >= cur {
					n++
				} else {
					out = append(out, q)
				}
			}
		}
		for !s.seen[s.trail[idx].v()] {
			idx--
		}
		p = s.trail[idx]
		idx--
		confl = s.reason[p.v()]
		s.seen[p.v()] = false
		n--
		if n == 0 {
			break
		}
	}
	out[0] = p.not()
	// minimise: drop literals implied by the others
	s.seen[p.v()] = true
	s.toClear = append(s.toClear, p)
	j := 1
	for i := 1; i < len(out); i++ {
		if s.reason[out[i].v()] == nil || !s.redundant(out[i], 0) {
			out[j] = out[i]
			j++
		}
	}
	out = out[:j]
	for _, l := range s.toClear {
		s.seen[l.v()] = false
	}
	s.stackBuf = out
	if len(out) > 1 {
		m := 1
		for i := 2; i < len(out); i++ {
			if s.level[out[i].v()] > s.level[out[m].v()] {
				m = i
			}
		}
		out[1], out[m] = out[m], out[1]
		back = int(s.level[out[1].v()])
	}
	return append([]lit(nil), out...), back
}

func (s *Sat2) redundant(l lit, depth int) bool {
	if depth > 20 {
		return false
	}
	r := s.reason[l.v()]
	for _, q := range r.lits {
		v := q.v()
		if v == l.v() || s.seen[v] || s.level[v] == 0 {
			continue
		}
		if s.reason[v] == nil || !s.redundant(q, depth+1) {
			return false
		}
	}
	if depth > 0 {
		s.seen[l.v()] = true
		s.toClear = append(s.toClear, l)
	}
	return true
}

func (s *Sat2) lbd(ls []lit) int32 {
	s.lbdGen++
	n := int32(0)
	for _, l := range ls {
		lv := s.level[l.v()]
		if s.lbdSeen[lv] != s.lbdGen {
			s.lbdSeen[lv] = s.lbdGen
			n++
		}
	}
	return n
}

func (s *Sat2) reduce() {
	ls := s.learned
	sort.Slice(ls, func(i, j int) bool {
		a, b := ls[i], ls[j]
		if (a.lbd <= 2) != (b.lbd <= 2) {
			return a.lbd <= 2
		}
		return a.act > b.act
	})
	keep := ls[:0]
	half := len(ls) / 2
	for i, c := range ls {
		if i < half || len(c.lits) == 2 || s.locked(c) {
			keep = append(keep, c)
		} else {
			c.gone = true
		}
	}
	s.learned = keep
}

func (s *Sat2) locked(c *clause) bool {
	return s.val[c.lits[0]] == lTrue && s.reason[c.lits[0].v()] == c
}

func luby(i int64) int64 {
	for {
		k := int64(1)
		for (int64(1)<<uint(k))-1 < i {
			k++
		}
		if (int64(1)<<uint(k))-1 == i {
			return int64(1) << uint(k-1)
		}
		i -= (int64(1) << uint(k-1)) - 1
	}
}

// solve decides the clauses under the assumptions, branching on the variables in cone only. It gives up
// after maxConfl conflicts.
func (s *Sat2) solveWith(assume []lit, cone []int32, maxConfl int64, onSat func()) Sat {
	if !s.ok {
		return Unsat
	}
	s.query++
	for _, v := range s.heap {
		s.heapPos[v] = -1
	}
	s.heap = s.heap[:0]
	for _, v := range cone {
		if s.cand[v] != s.query {
			s.cand[v] = s.query
			s.heapPos[v] = int32(len(s.heap))
			s.heap = append(s.heap, v)
		}
	}
	for i := len(s.heap)/2 - 1; i >= 0; i-- {
		s.down(i)
	}
	if len(s.learned) > s.maxLearn {
		s.reduce()
	}
	start := s.Confl
	restart := int64(1)
	limit := luby(restart) * 64
	local := int64(0)
	for {
		if confl := s.propagate(); confl != nil {
			s.Confl++
			local++
			if len(s.lim) == 0 {
				s.ok = false
				return Unsat
			}
			ls, back := s.analyze(confl)
			s.cancelUntil(back)
			if len(ls) == 1 {
				s.enqueue(ls[0], nil)
			} else {
				c := &clause{lits: ls, learned: true, act: s.claInc}
				c.lbd = s.lbd(ls)
				s.learned = append(s.learned, c)
				s.attach(c)
				s.enqueue(ls[0], c)
			}
			s.varInc /= 0.95
			s.claInc /= 0.999
			if s.Confl-start > maxConfl {
				return Unknown
			}
			continue
		}
		if local >= limit {
			restart++
			limit = luby(restart) * 64
			local = 0
			s.cancelUntil(0)
			if len(s.learned) > s.maxLearn {
				s.reduce()
				s.maxLearn += 100
			}
			continue
		}
		var next lit = -1
		for len(s.lim) < len(assume) {
			p := assume[len(s.lim)]
			switch s.val[p] {
			case lTrue:
				s.lim = append(s.lim, len(s.trail))
				continue
			case lFalse:
				return Unsat
			}
			next = p
			break
		}
		if next < 0 {
			for len(s.heap) > 0 {
				v := s.heapPop()
				if s.val[lit(2*v)] == lUndef {
					next = lit(2 * v)
					if s.phase[v] == lFalse {
						next = lit(2*v + 1)
					}
					break
				}
			}
			if next < 0 {
				onSat()
				s.cancelUntil(len(assume))
				return IsSat
			}
			s.Decs++
		}
		s.lim = append(s.lim, len(s.trail))
		s.enqueue(next, nil)
	}
}
