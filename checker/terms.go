package main

// The numeric part of the abstract domain: linear forms over interned atoms
// (for lengths, offsets, counts) and GF(2)-affine bit vectors (for wire values).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Atom is an unknown integer (or an interned uninterpreted term).
type Atom struct {
	id      int
	key     string
	w       int
	signed  bool
	lo, hi  *big.Int
	defBits []Bit // the atom denotes exactly this bit vector
	alias   *Lin  // the atom denotes the two's complement bits of this linear form

	// interpretation of derived atoms
	vlen *Int  // VLen(x): encoded length of varint x
	vpos *Ptr  // value/length of the varint at this address
	sum  *Loop // partial sum of a loop accumulator
	sumI int
	iter *Loop // iteration counter
}

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
)

func pow2(n int) *big.Int      { return new(big.Int).Lsh(big1, uint(n)) }
func bigI(n int64) *big.Int    { return big.NewInt(n) }
func sub1(x *big.Int) *big.Int { return new(big.Int).Sub(x, big1) }
func typeMin(w int, s bool) *big.Int {
	if !s {
		return big0
	}
	return new(big.Int).Neg(pow2(w - 1))
}
func typeMax(w int, s bool) *big.Int {
	if !s {
		return sub1(pow2(w))
	}
	return sub1(pow2(w - 1))
}

// Terms is the interning table of one analysis.
type Terms struct {
	atoms map[string]*Atom
	list  []*Atom
}

func newTerms() *Terms { return &Terms{atoms: map[string]*Atom{}} }

func (t *Terms) atom(key string, w int, signed bool) *Atom {
	if a, ok := t.atoms[key]; ok {
		return a
	}
	a := &Atom{id: len(t.list), key: key, w: w, signed: signed, lo: typeMin(w, signed), hi: typeMax(w, signed)}
	t.atoms[key] = a
	t.list = append(t.list, a)
	return a
}

func (t *Terms) atomR(key string, w int, signed bool, lo, hi *big.Int) *Atom {
	if a, ok := t.atoms[key]; ok {
		return a
	}
	a := t.atom(key, w, signed)
	a.lo, a.hi = lo, hi
	return a
}

// ---- linear forms ----

type mono struct {
	a *Atom
	c *big.Int
}

type Lin struct {
	m   []mono // sorted by atom id, nonzero coefficients
	k   *big.Int
	key string
	h   hash2
}

func linC(n int64) *Lin      { return &Lin{k: big.NewInt(n)} }
func linB(n *big.Int) *Lin   { return &Lin{k: n} }
func linA(a *Atom) *Lin      { return &Lin{m: []mono{{a, big1}}, k: big0} }
func (l *Lin) isConst() bool { return len(l.m) == 0 }
func (l *Lin) single() *Atom {
	if len(l.m) == 1 && l.k.Sign() == 0 && l.m[0].c.Cmp(big1) == 0 {
		return l.m[0].a
	}
	return nil
}
func (l *Lin) Key() string {
	if l.key == "" {
		var sb strings.Builder
		for _, m := range l.m {
			sb.WriteString(m.c.String())
			sb.WriteString("*#")
			sb.WriteString(strconv.Itoa(m.a.id))
			sb.WriteByte('+')
		}
		sb.WriteString(l.k.String())
		l.key = sb.String()
	}
	return l.key
}

func (l *Lin) String() string {
	if l == nil {
		return "<nil>"
	}
	var parts []string
	for _, m := range l.m {
		if m.c.Cmp(big1) == 0 {
			parts = append(parts, m.a.key)
		} else {
			parts = append(parts, m.c.String()+"*"+m.a.key)
		}
	}
	if l.k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, l.k.String())
	}
	return strings.Join(parts, " + ")
}

// linComb returns a*ca + b*cb.
func linComb(a *Lin, ca *big.Int, b *Lin, cb *big.Int) *Lin {
	r := &Lin{k: new(big.Int).Add(new(big.Int).Mul(a.k, ca), new(big.Int).Mul(b.k, cb))}
	i, j := 0, 0
	push := func(at *Atom, c *big.Int) {
		if c.Sign() != 0 {
			r.m = append(r.m, mono{at, c})
		}
	}
	for i < len(a.m) || j < len(b.m) {
		switch {
		case j >= len(b.m) || i < len(a.m) && a.m[i].a.id < b.m[j].a.id:
			push(a.m[i].a, new(big.Int).Mul(a.m[i].c, ca))
			i++
		case i >= len(a.m) || b.m[j].a.id < a.m[i].a.id:
			push(b.m[j].a, new(big.Int).Mul(b.m[j].c, cb))
			j++
		default:
			c := new(big.Int).Mul(a.m[i].c, ca)
			c.Add(c, new(big.Int).Mul(b.m[j].c, cb))
			push(a.m[i].a, c)
			i++
			j++
		}
	}
	return r
}

var bigM1 = big.NewInt(-1)

func (l *Lin) add(o *Lin) *Lin       { return linComb(l, big1, o, big1) }
func (l *Lin) sub(o *Lin) *Lin       { return linComb(l, big1, o, bigM1) }
func (l *Lin) addC(n int64) *Lin     { return &Lin{m: l.m, k: new(big.Int).Add(l.k, big.NewInt(n))} }
func (l *Lin) scale(c *big.Int) *Lin { return linComb(l, c, linC(0), big0) }
func (l *Lin) neg() *Lin             { return l.scale(bigM1) }
func (l *Lin) eq(o *Lin) bool        { return l == o || l.Key() == o.Key() }
func (l *Lin) mentions(a *Atom) bool {
	for _, m := range l.m {
		if m.a == a {
			return true
		}
	}
	return false
}
func (l *Lin) coef(a *Atom) *big.Int {
	for _, m := range l.m {
		if m.a == a {
			return m.c
		}
	}
	return big0
}
func (l *Lin) subst(a *Atom, r *Lin) *Lin {
	c := l.coef(a)
	if c.Sign() == 0 {
		return l
	}
	return linComb(l, big1, r.sub(linA(a)), c)
}
func (l *Lin) constInt() (int64, bool) {
	if !l.isConst() || !l.k.IsInt64() {
		return 0, false
	}
	return l.k.Int64(), true
}

// ---- bits ----

// Bit is a GF(2)-affine form: the xor of some atom bits and a constant.
type Bit struct {
	v []int // sorted atomid<<7|index
	c bool
}

var bit0 = Bit{}
var bit1 = Bit{c: true}

func bitVar(a *Atom, i int) Bit { return Bit{v: []int{a.id<<7 | i}} }
func (b Bit) isConst() bool     { return len(b.v) == 0 }
func (b Bit) eq(o Bit) bool {
	if b.c != o.c || len(b.v) != len(o.v) {
		return false
	}
	for i := range b.v {
		if b.v[i] != o.v[i] {
			return false
		}
	}
	return true
}
func (b Bit) not() Bit { return Bit{b.v, !b.c} }
func (b Bit) xor(o Bit) Bit {
	if len(o.v) == 0 {
		return Bit{b.v, b.c != o.c}
	}
	if len(b.v) == 0 {
		return Bit{o.v, b.c != o.c}
	}
	r := Bit{c: b.c != o.c}
	i, j := 0, 0
	for i < len(b.v) || j < len(o.v) {
		switch {
		case j >= len(o.v) || i < len(b.v) && b.v[i] < o.v[j]:
			r.v = append(r.v, b.v[i])
			i++
		case i >= len(b.v) || o.v[j] < b.v[i]:
			r.v = append(r.v, o.v[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}
func (b Bit) key() string {
	var sb strings.Builder
	if b.c {
		sb.WriteByte('1')
	} else {
		sb.WriteByte('0')
	}
	for _, v := range b.v {
		sb.WriteByte('.')
		sb.WriteString(strconv.Itoa(v))
	}
	return sb.String()
}

// rref puts a set of "form = 0" equations in reduced row echelon form, dropping zero rows.
// An inconsistent set contains the constant form 1.
func rref(rows []Bit) []Bit {
	var out []Bit
	for _, r := range rows {
		r = reduceBit(r, out)
		if len(r.v) == 0 {
			if r.c {
				return []Bit{bit1}
			}
			continue
		}
		p := r.v[len(r.v)-1]
		for i := range out {
			if hasVar(out[i], p) {
				out[i] = out[i].xor(r)
			}
		}
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].v[len(out[i].v)-1] < out[j].v[len(out[j].v)-1] })
	return out
}

func hasVar(b Bit, v int) bool {
	i := sort.SearchInts(b.v, v)
	return i < len(b.v) && b.v[i] == v
}

// reduceBit eliminates the pivots (largest variable) of rows from b.
func reduceBit(b Bit, rows []Bit) Bit {
	if len(b.v) == 0 {
		return b
	}
	for _, r := range rows {
		if hasVar(b, r.v[len(r.v)-1]) {
			b = b.xor(r)
		}
	}
	return b
}

func bitsKey(bs []Bit) string {
	var sb strings.Builder
	for _, b := range bs {
		sb.WriteString(b.key())
		sb.WriteByte('|')
	}
	return sb.String()
}

// ---- machine integers ----

// Int is a machine integer of a given width and signedness. Its value is given
// by a linear form (the mathematical value, known to be in range) or by bits.
type Int struct {
	W      int
	Signed bool
	lin    *Lin
	bits   []Bit
}

func intC(n int64, w int, s bool) Int { return Int{W: w, Signed: s, lin: linC(n)} }
func intL(l *Lin, w int, s bool) Int  { return Int{W: w, Signed: s, lin: l} }
func goInt(l *Lin) Int                { return Int{W: 64, Signed: true, lin: l} }
func goIntC(n int64) Int              { return goInt(linC(n)) }

func (x Int) constBig() (*big.Int, bool) {
	if x.lin != nil {
		if x.lin.isConst() {
			return x.lin.k, true
		}
		return nil, false
	}
	return bitsConst(x.bits, x.Signed)
}

func bitsConst(bs []Bit, signed bool) (*big.Int, bool) {
	r := new(big.Int)
	for i, b := range bs {
		if !b.isConst() {
			return nil, false
		}
		if b.c {
			if signed && i == len(bs)-1 {
				r.Sub(r, pow2(i))
			} else {
				r.Add(r, pow2(i))
			}
		}
	}
	return r, true
}

func constBits(k *big.Int, w int) []Bit {
	m := new(big.Int).And(new(big.Int).Set(k), sub1(pow2(w))) // two's complement for negatives too
	bs := make([]Bit, w)
	for i := range bs {
		if m.Bit(i) == 1 {
			bs[i] = bit1
		}
	}
	return bs
}

func (t *Terms) atomBits(a *Atom, w int) []Bit {
	var src []Bit
	if a.defBits != nil {
		src = a.defBits
	} else {
		src = make([]Bit, a.w)
		for i := range src {
			// bits above the atom's (state-independent) range are known
			if a.lo.Sign() >= 0 && i >= a.hi.BitLen() {
				src[i] = bit0
			} else {
				src[i] = bitVar(a, i)
			}
		}
	}
	bs := make([]Bit, w)
	for i := range bs {
		switch {
		case i < len(src):
			bs[i] = src[i]
		case a.signed:
			bs[i] = src[len(src)-1]
		default:
			bs[i] = bit0
		}
	}
	return bs
}

// toBits gives the two's complement bits of x.
func (t *Terms) toBits(x Int) []Bit {
	if x.bits != nil {
		return x.bits
	}
	l := x.lin
	if l.isConst() {
		return constBits(l.k, x.W)
	}
	if a := l.single(); a != nil {
		return t.atomBits(a, x.W)
	}
	if len(l.m) == 1 && l.k.Sign() == 0 {
		a, c := l.m[0].a, l.m[0].c
		if c.Cmp(bigM1) == 0 && a.lo.Sign() >= 0 && a.hi.Cmp(big1) <= 0 {
			b0 := t.atomBits(a, 1)[0]
			bs := make([]Bit, x.W)
			for i := range bs {
				bs[i] = b0
			}
			return bs
		}
	}
	if bs := t.shiftBits(x); bs != nil {
		return bs
	}
	a := t.atom(fmt.Sprintf("lin%d%v(%s)", x.W, x.Signed, l.Key()), x.W, x.Signed)
	a.alias = l
	return t.atomBits(a, x.W)
}

// toLin gives a linear form with the mathematical value of x.
func (t *Terms) toLin(x Int) *Lin {
	if x.lin != nil {
		return x.lin
	}
	bs := x.bits
	if k, ok := bitsConst(bs, x.Signed); ok {
		return linB(k)
	}
	if len(bs) > 0 && len(bs[0].v) == 1 && !bs[0].c {
		id := bs[0].v[0]
		if id&127 == 0 {
			a := t.list[id>>7]
			ext := t.atomBits(a, x.W)
			same := true
			for i := range bs {
				if !bs[i].eq(ext[i]) {
					same = false
					break
				}
			}
			if same {
				fits := a.lo.Cmp(typeMin(x.W, x.Signed)) >= 0 && a.hi.Cmp(typeMax(x.W, x.Signed)) <= 0
				if fits {
					if a.alias != nil {
						return a.alias
					}
					return linA(a)
				}
			}
		}
	}
	key := fmt.Sprintf("bv%d%v(%s)", x.W, x.Signed, bitsKey(bs))
	if a, ok := t.atoms[key]; ok {
		return linA(a)
	}
	a := t.atom(key, x.W, x.Signed)
	a.defBits = bs
	top := len(bs)
	for top > 0 && bs[top-1].isConst() && !bs[top-1].c {
		top--
	}
	if top < len(bs) || !x.Signed {
		hi := new(big.Int)
		for i := 0; i < top; i++ {
			if !bs[i].isConst() || bs[i].c {
				hi.Add(hi, pow2(i))
			}
		}
		lo := new(big.Int)
		for i := 0; i < top; i++ {
			if bs[i].isConst() && bs[i].c {
				lo.Add(lo, pow2(i))
			}
		}
		a.lo, a.hi = lo, hi
	}
	return linA(a)
}

// pure reports whether x has a bit-level meaning without aliasing a linear sum.
func (t *Terms) pure(x Int) bool {
	if x.bits != nil {
		return true
	}
	if x.lin.isConst() {
		return true
	}
	if a := x.lin.single(); a != nil && a.sum == nil && a.iter == nil {
		return true
	}
	if len(x.lin.m) == 1 && x.lin.m[0].a.sum == nil && x.lin.m[0].a.iter == nil {
		return t.shiftBits(x) != nil
	}
	return false
}

// shiftBits gives the bits of 2^s*a + c with 0 <= c < 2^s, or of its complement; nil for other forms.
func (t *Terms) shiftBits(x Int) []Bit {
	l := x.lin
	if len(l.m) != 1 {
		return nil
	}
	c := l.m[0].c
	flip := c.Sign() < 0
	if flip {
		l = l.neg().addC(-1)
		c = l.m[0].c
	}
	if new(big.Int).And(c, sub1(c)).Sign() != 0 || l.k.Sign() < 0 || l.k.Cmp(c) >= 0 {
		return nil
	}
	s := c.BitLen() - 1
	src := t.atomBits(l.m[0].a, x.W)
	bs := make([]Bit, x.W)
	for i := range bs {
		switch {
		case i >= s:
			bs[i] = src[i-s]
		case l.k.Bit(i) == 1:
			bs[i] = bit1
		}
		if flip {
			bs[i] = bs[i].not()
		}
	}
	return bs
}

func (t *Terms) intKey(x Int) string {
	return bitsKey(t.toBits(x))
}

func (t *Terms) showInt(x Int) string {
	if k, ok := x.constBig(); ok {
		return k.String()
	}
	return t.toLin(x).String()
}

// andBit / orBit produce nonlinear bits as interned one-bit atoms.
func (t *Terms) andBit(a, b Bit) Bit {
	if a.isConst() {
		if a.c {
			return b
		}
		return bit0
	}
	if b.isConst() {
		if b.c {
			return a
		}
		return bit0
	}
	if a.eq(b) {
		return a
	}
	if a.eq(b.not()) {
		return bit0
	}
	ka, kb := a.key(), b.key()
	if ka > kb {
		ka, kb = kb, ka
	}
	at := t.atomR("and("+ka+","+kb+")", 1, false, big0, big1)
	return bitVar(at, 0)
}
func (t *Terms) orBit(a, b Bit) Bit { return t.andBit(a.not(), b.not()).not() }
