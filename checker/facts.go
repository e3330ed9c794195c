package main

// Path facts: linear inequalities, GF(2) equations, and their (incomplete but
// sound) decision procedures: interval reasoning, Fourier-Motzkin elimination
// over the polyhedra domain, Gaussian elimination over GF(2).

import (
	"fmt"
	"math/big"
	"sort"
)

type condKind int

const (
	cConst condKind = iota
	cGE             // lin >= 0
	cEQ             // lin == 0
	cBZ             // all bits zero
	cNil            // object's address is nil
	cOp             // opaque
)

// Cond is a canonical condition, possibly negated.
type Cond struct {
	kind   condKind
	neg    bool
	val    bool
	lin    *Lin
	bits   []Bit
	key    string
	ifT    []*Lin // linear consequences (>=0) of the un-negated condition
	ifF    []*Lin // linear consequences of its negation
	nilObj *Obj
	desc   string
}

func condB(b bool) *Cond { return &Cond{kind: cConst, val: b} }
func (c *Cond) not() *Cond {
	if c.kind == cConst {
		return condB(!c.val)
	}
	d := *c
	d.neg = !c.neg
	return &d
}
func (c *Cond) String() string {
	s := c.desc
	if s == "" {
		switch c.kind {
		case cConst:
			return fmt.Sprint(c.val)
		case cGE:
			s = c.lin.String() + " >= 0"
		case cEQ:
			s = c.lin.String() + " == 0"
		case cBZ:
			s = fmt.Sprintf("bits{%s} == 0", c.key)
		default:
			s = c.key
		}
	}
	if c.neg {
		return "!(" + s + ")"
	}
	return s
}

func normLin(l *Lin) *Lin { // for l >= 0: divide by gcd, floor the constant
	if len(l.m) == 0 {
		return l
	}
	g := new(big.Int)
	for _, m := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(big1) == 0 {
		return l
	}
	r := &Lin{k: new(big.Int).Div(l.k, g)} // Euclidean: floors for positive divisors
	for _, m := range l.m {
		r.m = append(r.m, mono{m.a, new(big.Int).Quo(m.c, g)})
	}
	return r
}

func mkGE(l *Lin) *Cond {
	if l.isConst() {
		return condB(l.k.Sign() >= 0)
	}
	l = normLin(l)
	neg := false
	if l.m[0].c.Sign() < 0 {
		l = l.neg().addC(-1)
		neg = true
	}
	return &Cond{kind: cGE, lin: l, key: "ge:" + l.Key(), neg: neg}
}

func mkLinEQ(l *Lin) *Cond {
	if l.isConst() {
		return condB(l.k.Sign() == 0)
	}
	if l.m[0].c.Sign() < 0 {
		l = l.neg()
	}
	return &Cond{kind: cEQ, lin: l, key: "eq:" + l.Key()}
}

func mkBZ(bs []Bit) *Cond {
	rows := rref(bs)
	if len(rows) == 0 {
		return condB(true)
	}
	if len(rows) == 1 && len(rows[0].v) == 0 {
		return condB(false)
	}
	if len(rows) == 1 && rows[0].c { // form^1 == 0: canonicalise as negation of form == 0
		r := rows[0].not()
		return &Cond{kind: cBZ, bits: []Bit{r}, key: "bz:" + bitsKey([]Bit{r}), neg: true}
	}
	return &Cond{kind: cBZ, bits: rows, key: "bz:" + bitsKey(rows)}
}

type fact struct {
	key string
	val bool
	c   *Cond // the condition itself, to replay it elsewhere
}
type atomRange struct {
	a      *Atom
	lo, hi *big.Int
}

type Facts struct {
	lins  []*Lin
	rng   []atomRange
	gf    []Bit
	gfv   map[int]bool // atoms mentioned in gf (rebuilt on change)
	tv    []fact
	negBZ [][]Bit
	diseq []*Lin
	dead  bool
}

func (f *Facts) clone() *Facts {
	g := *f
	g.lins = f.lins[:len(f.lins):len(f.lins)]
	g.tv = f.tv[:len(f.tv):len(f.tv)]
	g.rng = append([]atomRange(nil), f.rng...)
	g.gf = f.gf[:len(f.gf):len(f.gf)]
	g.negBZ = f.negBZ[:len(f.negBZ):len(f.negBZ)]
	g.diseq = f.diseq[:len(f.diseq):len(f.diseq)]
	return &g
}

func (in *Interp) rangeOf(f *Facts, a *Atom) (lo, hi *big.Int) {
	lo, hi = a.lo, a.hi
	for i := range f.rng {
		if f.rng[i].a == a {
			lo, hi = f.rng[i].lo, f.rng[i].hi
		}
	}
	bits := a.defBits
	if bits == nil && f.gfv[a.id] {
		bits = in.T.atomBits(a, a.w)
	}
	if bits != nil && len(f.gf) > 0 {
		touched := a.defBits == nil
		if !touched {
		outer:
			for _, b := range bits {
				for _, v := range b.v {
					if f.gfv[v>>7] {
						touched = true
						break outer
					}
				}
			}
		}
		if touched {
			blo, bhi := new(big.Int), new(big.Int)
			for i, b := range bits {
				b = reduceBit(b, f.gf)
				if a.signed && i == len(bits)-1 {
					p := pow2(i)
					if b.isConst() {
						if b.c {
							blo.Sub(blo, p)
							bhi.Sub(bhi, p)
						}
					} else {
						blo.Sub(blo, p)
					}
					continue
				}
				p := pow2(i)
				if b.isConst() {
					if b.c {
						blo.Add(blo, p)
						bhi.Add(bhi, p)
					}
				} else {
					bhi.Add(bhi, p)
				}
			}
			if blo.Cmp(lo) > 0 {
				lo = blo
			}
			if bhi.Cmp(hi) < 0 {
				hi = bhi
			}
		}
	}
	return lo, hi
}

func (in *Interp) linRange(f *Facts, l *Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for _, m := range l.m {
		alo, ahi := in.rangeOf(f, m.a)
		x, y := new(big.Int).Mul(alo, m.c), new(big.Int).Mul(ahi, m.c)
		if m.c.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}

// entails decides whether the facts imply l >= 0 (false means "not shown").
func (in *Interp) entails(f *Facts, l *Lin) bool {
	if l.isConst() {
		return l.k.Sign() >= 0
	}
	lo, hi := in.linRange(f, l)
	if lo.Sign() >= 0 {
		return true
	}
	if hi.Sign() < 0 {
		return false
	}
	key := l.Key()
	for _, t := range f.lins {
		if t.Key() == key {
			return true
		}
	}
	return in.infeasibleWith(f, l.neg().addC(-1))
}

func (in *Interp) infeasibleWith(f *Facts, extra *Lin) bool {
	// connected constraints
	rel := map[*Atom]bool{}
	for _, m := range extra.m {
		rel[m.a] = true
	}
	used := make([]bool, len(f.lins))
	cons := []*Lin{normLin(extra)}
	baseSeen := map[*Lin]bool{}
	for changed := true; changed; {
		changed = false
		for a := range rel {
			if b := in.baseLins[a]; b != nil && !baseSeen[b] {
				baseSeen[b] = true
				cons = append(cons, b)
				if u := in.baseUpper[a]; u != nil {
					cons = append(cons, u)
				}
				changed = true
				for _, m := range b.m {
					rel[m.a] = true
				}
			}
		}
		for i, l := range f.lins {
			if used[i] {
				continue
			}
			hit := false
			for _, m := range l.m {
				if rel[m.a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				cons = append(cons, l)
				for _, m := range l.m {
					rel[m.a] = true
				}
			}
		}
	}
	var atoms []*Atom
	for a := range rel {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	los, his := make([]*big.Int, len(atoms)), make([]*big.Int, len(atoms))
	var key hash2
	for _, c := range cons {
		key.add(c.hash())
	}
	for i, a := range atoms {
		los[i], his[i] = in.rangeOf(f, a)
		h := newHash()
		h.word(uint64(a.id) + 1<<40)
		h.big(los[i])
		h.big(his[i])
		key.add(h)
	}
	if r, ok := in.fmMemo[key]; ok {
		return r
	}
	in.stats.fm++
	for i, a := range atoms {
		cons = append(cons, linA(a).sub(linB(los[i])), linB(his[i]).sub(linA(a)))
	}
	r := fmInfeasible(cons)
	in.fmMemo[key] = r
	return r
}

// hash2 is a 128-bit hash; sums of hashes identify sets of constraints.
type hash2 struct{ a, b uint64 }

func newHash() hash2 { return hash2{14695981039346656037, 0x9e3779b97f4a7c15} }
func (h *hash2) word(x uint64) {
	h.a = (h.a ^ x) * 0x9e3779b97f4a7c15
	h.a ^= h.a >> 32
	h.b = (h.b + x) * 0xff51afd7ed558ccd
	h.b ^= h.b >> 29
	h.b *= 0xc4ceb9fe1a85ec53
	h.b ^= h.b >> 31
}
func (h *hash2) big(x *big.Int) {
	h.word(uint64(x.Sign() + 7))
	for _, w := range x.Bits() {
		h.word(uint64(w))
	}
}
func (h *hash2) add(o hash2) { h.a += o.a; h.b += o.b }

func (l *Lin) hash() hash2 {
	if l.h == (hash2{}) {
		h := newHash()
		for _, m := range l.m {
			h.word(uint64(m.a.id) + 1<<41)
			h.big(m.c)
		}
		h.big(l.k)
		l.h = h
	}
	return l.h
}

// fmInfeasible: Fourier-Motzkin over the rationals with integer tightening.
const fmLimit = 400

func fmInfeasible(cons []*Lin) bool {
	seen := map[hash2]bool{}
	var cs []*Lin
	addc := func(dst []*Lin, l *Lin) ([]*Lin, bool) {
		l = normLin(l)
		if l.isConst() {
			return dst, l.k.Sign() < 0
		}
		k := l.hash()
		if seen[k] {
			return dst, false
		}
		seen[k] = true
		return append(dst, l), false
	}
	for _, c := range cons {
		var bad bool
		if cs, bad = addc(cs, c); bad {
			return true
		}
	}
	for len(cs) > 0 {
		// pick the variable with the cheapest elimination
		pos, neg := map[*Atom]int{}, map[*Atom]int{}
		for _, c := range cs {
			for _, m := range c.m {
				if m.c.Sign() > 0 {
					pos[m.a]++
				} else {
					neg[m.a]++
				}
			}
		}
		var best *Atom
		bestCost := 1 << 30
		try := func(a *Atom) {
			cost := pos[a]*neg[a] - pos[a] - neg[a]
			if cost < bestCost || cost == bestCost && a.id < best.id {
				best, bestCost = a, cost
			}
		}
		for a := range pos {
			try(a)
		}
		for a := range neg {
			try(a)
		}
		var ps, ns, rest []*Lin
		for _, c := range cs {
			switch c.coef(best).Sign() {
			case 1:
				ps = append(ps, c)
			case -1:
				ns = append(ns, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(ps)*len(ns)+len(rest) > fmLimit {
			return simplexInfeasible(cs)
		}
		seen = map[hash2]bool{}
		for _, r := range rest {
			seen[r.hash()] = true
		}
		out := rest
		for _, p := range ps {
			for _, n := range ns {
				cp, cn := p.coef(best), new(big.Int).Neg(n.coef(best))
				l := linComb(p, cn, n, cp)
				var bad bool
				if out, bad = addc(out, l); bad {
					return true
				}
			}
		}
		// keep only the strongest constant for identical coefficient vectors
		cs = strongest(out)
	}
	return false
}

func strongest(cs []*Lin) []*Lin {
	idx := map[hash2]int{}
	var out []*Lin
	for _, c := range cs {
		k := (&Lin{m: c.m, k: big0}).hash()
		if i, ok := idx[k]; ok {
			if c.k.Cmp(out[i].k) < 0 {
				out[i] = c
			}
			continue
		}
		idx[k] = len(out)
		out = append(out, c)
	}
	return out
}

// decide returns 1 (true), -1 (false) or 0 (undecided).
func (in *Interp) decide(st *State, c *Cond) int {
	if c.kind == cConst {
		if c.val {
			return 1
		}
		return -1
	}
	r := in.decidePos(st, c)
	if c.neg {
		return -r
	}
	return r
}

func (in *Interp) decidePos(st *State, c *Cond) int {
	f := st.f
	for i := range f.tv {
		if f.tv[i].key == c.key {
			if f.tv[i].val {
				return 1
			}
			return -1
		}
	}
	switch c.kind {
	case cGE:
		if in.entails(f, c.lin) {
			return 1
		}
		if in.entails(f, c.lin.neg().addC(-1)) {
			return -1
		}
	case cEQ:
		return in.decideLinZero(f, c.lin)
	case cBZ:
		if r := in.decideBZ(f, c.bits); r != 0 {
			return r
		}
		// linear consequences
		for _, l := range c.ifT {
			if in.entails(f, l.neg().addC(-1)) {
				return -1
			}
		}
		for _, l := range c.ifF {
			if in.entails(f, l.neg().addC(-1)) {
				return 1
			}
		}
		if c.lin != nil {
			return in.decideLinZero(f, c.lin)
		}
	case cNil:
		for _, l := range c.nilObj.onNil {
			if in.decideLinZero(f, l) == -1 {
				return -1
			}
		}
	}
	return 0
}

func (in *Interp) decideLinZero(f *Facts, l *Lin) int {
	if l.isConst() {
		if l.k.Sign() == 0 {
			return 1
		}
		return -1
	}
	for _, d := range f.diseq {
		if d.eq(l) || d.eq(l.neg()) {
			return -1
		}
	}
	ge, le := in.entails(f, l), in.entails(f, l.neg())
	if ge && le {
		return 1
	}
	if ge && in.entails(f, l.addC(-1)) || le && in.entails(f, l.neg().addC(-1)) {
		return -1
	}
	return 0
}

func (in *Interp) decideBZ(f *Facts, bits []Bit) int {
	var red []Bit
	for _, b := range bits {
		r := reduceBit(b, f.gf)
		if r.isConst() {
			if r.c {
				return -1
			}
			continue
		}
		red = append(red, r)
	}
	if len(red) == 0 {
		return 1
	}
	red = rref(red)
	if len(red) == 1 && red[0].isConst() {
		return -1
	}
	// a set known not to be all zero, contained in the span of red
	for _, nz := range f.negBZ {
		all := true
		for _, b := range nz {
			if r := reduceBit(reduceBit(b, f.gf), red); !r.isConst() || r.c {
				all = false
				break
			}
		}
		if all {
			return -1
		}
	}
	return 0
}

// assume adds a condition; it returns false if the state becomes infeasible.
func (in *Interp) assume(st *State, c *Cond) bool {
	switch in.decide(st, c) {
	case 1:
		return true
	case -1:
		return false
	}
	f := st.f.clone()
	st.f = f
	pos := !c.neg
	f.tv = append(f.tv, fact{c.key, pos, c})
	addLin := func(l *Lin) bool { return in.addLin(f, l) }
	switch c.kind {
	case cGE:
		l := c.lin
		if !pos {
			l = l.neg().addC(-1)
		}
		return addLin(l)
	case cEQ:
		if pos {
			return addLin(c.lin) && addLin(c.lin.neg())
		}
		return in.addDiseq(f, c.lin)
	case cBZ:
		if pos {
			if !in.addGF(f, c.bits) {
				return false
			}
			for _, l := range c.ifT {
				if !addLin(l) {
					return false
				}
			}
			if c.lin != nil {
				return addLin(c.lin) && addLin(c.lin.neg())
			}
			return true
		}
		var red []Bit
		for _, b := range c.bits {
			if r := reduceBit(b, f.gf); !r.isConst() {
				red = append(red, r)
			}
		}
		red = rref(red)
		if len(red) == 1 {
			if !in.addGF(f, []Bit{red[0].not()}) {
				return false
			}
		} else {
			f.negBZ = append(f.negBZ, c.bits)
		}
		for _, l := range c.ifF {
			if !addLin(l) {
				return false
			}
		}
		if c.lin != nil {
			return in.addDiseq(f, c.lin)
		}
		return true
	case cNil:
		if pos {
			for _, l := range c.nilObj.onNil {
				if !addLin(l) || !addLin(l.neg()) {
					return false
				}
			}
		}
	}
	return true
}

func (in *Interp) addDiseq(f *Facts, l *Lin) bool {
	f.diseq = append(f.diseq, l)
	if in.entails(f, l) {
		return in.addLin(f, l.addC(-1))
	}
	if in.entails(f, l.neg()) {
		return in.addLin(f, l.neg().addC(-1))
	}
	return true
}

func (in *Interp) addLin(f *Facts, l *Lin) bool {
	l = normLin(l)
	if l.isConst() {
		return l.k.Sign() >= 0
	}
	if len(l.m) == 1 {
		a, c := l.m[0].a, l.m[0].c // c is +-1 after normalisation
		lo, hi := in.rangeOf(f, a)
		if c.Sign() > 0 {
			b := new(big.Int).Neg(l.k)
			if b.Cmp(lo) > 0 {
				lo = b
			}
		} else if l.k.Cmp(hi) < 0 {
			hi = l.k
		}
		if lo.Cmp(hi) > 0 {
			return false
		}
		for i := range f.rng {
			if f.rng[i].a == a {
				f.rng[i].lo, f.rng[i].hi = lo, hi
				return true
			}
		}
		f.rng = append(f.rng, atomRange{a, lo, hi})
		return true
	}
	lo, hi := in.linRange(f, l)
	if hi.Sign() < 0 {
		return false
	}
	if lo.Sign() >= 0 {
		return true
	}
	f.lins = append(f.lins, l)
	return true
}

func (in *Interp) addGF(f *Facts, rows []Bit) bool {
	all := rref(append(append([]Bit(nil), f.gf...), rows...))
	if len(all) == 1 && all[0].isConst() {
		return false
	}
	f.gf = all
	f.gfv = map[int]bool{}
	for _, r := range all {
		for _, v := range r.v {
			f.gfv[v>>7] = true
		}
	}
	for _, nz := range f.negBZ {
		allZero := true
		for _, b := range nz {
			if r := reduceBit(b, f.gf); !r.isConst() || r.c {
				allZero = false
				break
			}
		}
		if allZero {
			return false
		}
	}
	return true
}

// ---- comparisons of machine integers ----

func (in *Interp) bitsOf(st *State, x Int) []Bit {
	bs := in.T.toBits(x)
	if len(st.f.gf) == 0 {
		return bs
	}
	out := make([]Bit, len(bs))
	for i, b := range bs {
		out[i] = reduceBit(b, st.f.gf)
	}
	return out
}

func (in *Interp) linOf(st *State, x Int) *Lin {
	if x.lin != nil {
		return x.lin
	}
	return in.T.toLin(x)
}

func (in *Interp) mkEqInt(x, y Int) *Cond {
	if in.T.pure(x) && in.T.pure(y) {
		bx, by := in.T.toBits(x), in.T.toBits(y)
		d := make([]Bit, len(bx))
		for i := range bx {
			d[i] = bx[i].xor(by[i])
		}
		c := mkBZ(d)
		if c.kind == cConst {
			return c
		}
		l := in.T.toLin(x).sub(in.T.toLin(y))
		if !c.neg {
			c.lin = l
		} else {
			// single bit, canonicalised negatively: no linear refinement beyond the bit itself
			c.lin = nil
		}
		c.desc = in.T.showInt(x) + " == " + in.T.showInt(y)
		if c.neg {
			c.desc = "!(" + c.desc + ")"
		}
		return c
	}
	return mkLinEQ(in.T.toLin(x).sub(in.T.toLin(y)))
}

// mkLT builds x < y for integers of the same type.
func (in *Interp) mkLT(st *State, x, y Int) *Cond {
	lx, ly := in.T.toLin(x), in.T.toLin(y)
	lt := ly.sub(lx).addC(-1) // >= 0
	if k, ok := y.constBig(); ok && in.T.pure(x) && !lx.isConst() {
		if c := in.pow2LT(x, k, lt); c != nil {
			return c
		}
	}
	if k, ok := x.constBig(); ok && in.T.pure(y) && !ly.isConst() {
		// k < y  <=>  !(y < k+1)
		k1 := new(big.Int).Add(k, big1)
		if c := in.pow2LT(y, k1, linB(k1).sub(ly).addC(-1)); c != nil {
			return c.not()
		}
	}
	return mkGE(lt)
}

// pow2LT canonicalises x < k for k a power of two (x unsigned) or zero (x signed).
func (in *Interp) pow2LT(x Int, k *big.Int, lt *Lin) *Cond {
	bs := in.T.toBits(x)
	var c *Cond
	if !x.Signed {
		if k.Sign() <= 0 || new(big.Int).And(k, sub1(k)).Sign() != 0 {
			return nil
		}
		n := k.BitLen() - 1
		if n >= x.W {
			return condB(true)
		}
		c = mkBZ(bs[n:])
	} else {
		if k.Sign() != 0 {
			return nil
		}
		c = mkBZ([]Bit{bs[x.W-1]}).not()
	}
	if c.kind == cConst {
		return c
	}
	ge := lt.neg().addC(-1)
	// c (with its polarity) <=> lt >= 0
	if !c.neg {
		c.ifT, c.ifF = []*Lin{lt}, []*Lin{ge}
	} else {
		c.ifT, c.ifF = []*Lin{ge}, []*Lin{lt}
	}
	return c
}

// list describes the known facts.
func (f *Facts) list() []string {
	var out []string
	for _, l := range f.lins {
		out = append(out, l.String()+" >= 0")
	}
	for _, r := range f.rng {
		out = append(out, fmt.Sprintf("%s in [%s,%s]", r.a.key, r.lo, r.hi))
	}
	for _, b := range f.gf {
		out = append(out, "bit "+b.key()+" = 0")
	}
	for _, t := range f.tv {
		out = append(out, fmt.Sprintf("%s = %v", t.key, t.val))
	}
	for _, l := range f.diseq {
		out = append(out, l.String()+" != 0")
	}
	return out
}
