package main

import (
	"math/big"
	"math/bits"
	"sort"
)

// Feasibility of linear constraints over the rationals by the simplex method
// (bounded variables, Bland's rule). It backs up Fourier-Motzkin elimination
// where that would produce too many constraints.

// q is a rational with small parts; ok is false once a part overflowed.
type q struct{ n, d int64 }

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mul64(a, b int64) (int64, bool) {
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo >= 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func mkq(n, d int64) q {
	if d < 0 {
		n, d = -n, -d
	}
	if g := gcd64(n, d); g > 1 {
		n, d = n/g, d/g
	}
	return q{n, d}
}

func (a q) mul(b q) (q, bool) {
	g1, g2 := gcd64(a.n, b.d), gcd64(b.n, a.d)
	if g1 == 0 {
		g1 = 1
	}
	if g2 == 0 {
		g2 = 1
	}
	n, ok1 := mul64(a.n/g1, b.n/g2)
	d, ok2 := mul64(a.d/g2, b.d/g1)
	return mkq(n, d), ok1 && ok2
}

func (a q) add(b q) (q, bool) {
	x, ok1 := mul64(a.n, b.d)
	y, ok2 := mul64(b.n, a.d)
	d, ok3 := mul64(a.d, b.d)
	return mkq(x+y, d), ok1 && ok2 && ok3
}

func (a q) inv() q        { return mkq(a.d, a.n) }
func (a q) neg() q        { return q{-a.n, a.d} }
func (a q) rat() *big.Rat { return big.NewRat(a.n, a.d) }

type splx struct {
	lo, hi []*big.Rat // nil: unbounded
	val    []*big.Rat
	rows   map[int]map[int]q // basic variable -> nonbasic combination
}

// simplexInfeasible reports whether the constraints (each >= 0) have no
// rational solution; false also when the effort is exceeded.
func simplexInfeasible(cons []*Lin) bool {
	idx := map[*Atom]int{}
	var as []*Atom
	for _, c := range cons {
		for _, m := range c.m {
			if _, ok := idx[m.a]; !ok {
				idx[m.a] = -1
				as = append(as, m.a)
			}
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	s := &splx{rows: map[int]map[int]q{}}
	newVar := func() int {
		s.lo, s.hi, s.val = append(s.lo, nil), append(s.hi, nil), append(s.val, new(big.Rat))
		return len(s.lo) - 1
	}
	for _, a := range as {
		idx[a] = newVar()
	}
	setLo := func(v int, r *big.Rat) {
		if s.lo[v] == nil || s.lo[v].Cmp(r) < 0 {
			s.lo[v] = r
		}
	}
	setHi := func(v int, r *big.Rat) {
		if s.hi[v] == nil || s.hi[v].Cmp(r) > 0 {
			s.hi[v] = r
		}
	}
	slack := map[hash2]int{}
	for _, c := range cons {
		if len(c.m) == 0 {
			if c.k.Sign() < 0 {
				return true
			}
			continue
		}
		b := new(big.Rat).Neg(new(big.Rat).SetInt(c.k))
		if len(c.m) == 1 {
			b.Quo(b, new(big.Rat).SetInt(c.m[0].c))
			if c.m[0].c.Sign() > 0 {
				setLo(idx[c.m[0].a], b)
			} else {
				setHi(idx[c.m[0].a], b)
			}
			continue
		}
		h := (&Lin{m: c.m, k: big0}).hash()
		if v, ok := slack[h]; ok {
			setLo(v, b)
			continue
		}
		nm := make([]mono, len(c.m))
		for i, m := range c.m {
			nm[i] = mono{m.a, new(big.Int).Neg(m.c)}
		}
		if v, ok := slack[(&Lin{m: nm, k: big0}).hash()]; ok {
			setHi(v, new(big.Rat).Neg(b))
			continue
		}
		v := newVar()
		slack[h] = v
		row := map[int]q{}
		for _, m := range c.m {
			if !m.c.IsInt64() || m.c.BitLen() > 61 {
				return false
			}
			row[idx[m.a]] = q{m.c.Int64(), 1}
		}
		s.rows[v] = row
		setLo(v, b)
	}
	for v := range s.lo {
		if s.lo[v] != nil && s.hi[v] != nil && s.lo[v].Cmp(s.hi[v]) > 0 {
			return true
		}
	}
	// nonbasic variables start at a bound
	for v := range s.lo {
		if _, basic := s.rows[v]; basic {
			continue
		}
		switch {
		case s.lo[v] != nil:
			s.val[v] = s.lo[v]
		case s.hi[v] != nil:
			s.val[v] = s.hi[v]
		}
	}
	s.recompute()
	for step := 0; step < 2000; step++ {
		b, dir := -1, 0
		for v := range s.rows {
			if b >= 0 && v > b {
				continue
			}
			if s.lo[v] != nil && s.val[v].Cmp(s.lo[v]) < 0 {
				b, dir = v, 1
			} else if s.hi[v] != nil && s.val[v].Cmp(s.hi[v]) > 0 {
				b, dir = v, -1
			}
		}
		if b < 0 {
			return false
		}
		row := s.rows[b]
		e := -1
		for v, c := range row {
			if e >= 0 && v > e {
				continue
			}
			up := (c.n > 0) == (dir > 0) // v must increase
			if up && (s.hi[v] == nil || s.val[v].Cmp(s.hi[v]) < 0) || !up && (s.lo[v] == nil || s.val[v].Cmp(s.lo[v]) > 0) {
				e = v
			}
		}
		if e < 0 {
			return true
		}
		target := s.lo[b]
		if dir < 0 {
			target = s.hi[b]
		}
		// move e so that b lands on its bound, then swap them
		d := new(big.Rat).Sub(target, s.val[b])
		d.Quo(d, row[e].rat())
		s.val[e] = new(big.Rat).Add(s.val[e], d)
		s.val[b] = target
		for v, r := range s.rows {
			if c, ok := r[e]; ok && v != b {
				s.val[v] = new(big.Rat).Add(s.val[v], new(big.Rat).Mul(d, c.rat()))
			}
		}
		if !s.pivot(b, e) {
			return false
		}
	}
	return false
}

func (s *splx) recompute() {
	for v, r := range s.rows {
		x := new(big.Rat)
		for u, c := range r {
			x.Add(x, new(big.Rat).Mul(s.val[u], c.rat()))
		}
		s.val[v] = x
	}
}

func (s *splx) pivot(b, e int) bool {
	row := s.rows[b]
	inv := row[e].inv()
	n := map[int]q{b: inv}
	for v, c := range row {
		if v == e {
			continue
		}
		x, ok := c.neg().mul(inv)
		if !ok {
			return false
		}
		n[v] = x
	}
	delete(s.rows, b)
	for v, r := range s.rows {
		c, ok := r[e]
		if !ok {
			continue
		}
		delete(r, e)
		for u, x := range n {
			y, ok := x.mul(c)
			if !ok {
				return false
			}
			if old, has := r[u]; has {
				if y, ok = y.add(old); !ok {
					return false
				}
			}
			if y.n == 0 {
				delete(r, u)
			} else {
				r[u] = y
			}
		}
		_ = v
	}
	s.rows[e] = n
	return true
}
