package main

// Byte sequences: the content of output buffers.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

type Item interface{}

type ByteItem struct{ b []Bit } // 8 bits
type VarItem struct{ x Int }    // varint of a 64-bit value
type BytesItem struct {         // n bytes copied from p
	p Ptr
	n *Lin
}
type LoopItem struct {
	L *Loop
	v int // index of the carried buffer
}
type PrefixItem struct { // unknown bytes
	key string
	n   *Lin
}

func (in *Interp) vlenLin(x Int) *Lin {
	if k, ok := x.constBig(); ok {
		n := int64((k.BitLen() + 6) / 7)
		if n == 0 {
			n = 1
		}
		return linC(n)
	}
	l := in.T.toLin(x)
	if a := l.single(); a != nil && a.lo.Sign() >= 0 {
		lo, hi := int64((a.lo.BitLen()+6)/7), int64((a.hi.BitLen()+6)/7)
		if lo == 0 {
			lo = 1
		}
		if hi == 0 {
			hi = 1
		}
		if lo == hi {
			return linC(lo)
		}
	}
	key := "vlen(" + in.T.intKey(x) + ")"
	a := in.T.atomR(key, 64, true, big1, bigI(10))
	if a.vlen == nil {
		y := x
		a.vlen = &y
	}
	return linA(a)
}

func (in *Interp) normInt(st *State, x Int) Int {
	if x.bits != nil || in.T.pure(x) {
		bs := in.bitsOf(st, x)
		if k, ok := bitsConst(bs, x.Signed); ok {
			return intL(linB(k), x.W, x.Signed)
		}
		if l := x.lin; l != nil {
			lo, hi := in.linRange(st.f, l)
			if lo.Cmp(hi) == 0 {
				return intL(linB(lo), x.W, x.Signed)
			}
			return x
		}
		return Int{W: x.W, Signed: x.Signed, bits: bs}
	}
	return x
}

func (in *Interp) varItems(st *State, x Int) []Item {
	x = in.normInt(st, x)
	if k, ok := x.constBig(); ok {
		v := k.Uint64()
		var out []Item
		for v >= 0x80 {
			out = append(out, ByteItem{constBits(bigI(int64(v&0x7f|0x80)), 8)})
			v >>= 7
		}
		return append(out, ByteItem{constBits(bigI(int64(v)), 8)})
	}
	if bs := in.T.toBits(x); in.T.pure(x) {
		small := true
		for _, b := range bs[7:] {
			if !b.isConst() || b.c {
				small = false
				break
			}
		}
		if small {
			return []Item{ByteItem{append(append([]Bit(nil), bs[:7]...), bit0)}}
		}
	}
	return []Item{VarItem{x}}
}

func (in *Interp) itemLen(it Item) *Lin {
	switch it := it.(type) {
	case ByteItem:
		return linC(1)
	case VarItem:
		return in.vlenLin(it.x)
	case BytesItem:
		return it.n
	case PrefixItem:
		return it.n
	case LoopItem:
		return it.L.vars[it.v].sumAtom
	}
	panic("itemLen")
}

func (in *Interp) seqLen(s []Item) *Lin {
	l := linC(0)
	for _, it := range s {
		l = l.add(in.itemLen(it))
	}
	return l
}

func (in *Interp) showItem(it Item) string {
	switch it := it.(type) {
	case ByteItem:
		if k, ok := bitsConst(it.b, false); ok {
			return fmt.Sprintf("%02x", k.Int64())
		}
		return "byte(" + in.T.showInt(Int{W: 8, bits: it.b}) + ")"
	case VarItem:
		return "varint(" + in.T.showInt(it.x) + ")"
	case BytesItem:
		return fmt.Sprintf("bytes(%s, %s)", show(in, it.p), it.n)
	case PrefixItem:
		return "prefix(" + it.key + ")"
	case LoopItem:
		var cs []string
		for _, c := range it.L.cases {
			cs = append(cs, in.showSeq(c.items[it.v]))
		}
		return fmt.Sprintf("loop{%s}", strings.Join(cs, " | "))
	}
	return fmt.Sprintf("%T", it)
}

func (in *Interp) showSeq(s []Item) string {
	var p []string
	for _, it := range s {
		p = append(p, in.showItem(it))
	}
	return "[" + strings.Join(p, " ") + "]"
}

// contentOf gives the byte sequence at [p, p+n).
func (in *Interp) contentOf(st *State, p Ptr, n *Lin) []Item {
	if k, ok := n.constInt(); ok && k == 0 {
		return nil
	}
	if in.decideLinZero(st.f, n) == 1 {
		return nil
	}
	if p.Obj == nil {
		giveUp("content at nil of length %s", n)
	}
	o := p.Obj
	if lit, ok := in.litOf[o]; ok {
		a, ok1 := p.Off.constInt()
		k, ok2 := n.constInt()
		if ok1 && ok2 && a >= 0 && a+k <= int64(len(lit)) {
			return litItems(lit[a : a+k])
		}
	}
	if o.kind == oBuf {
		ct := st.content(o)
		var seq []Item
		if ct != nil {
			seq = ct.seq
		}
		return in.subSeq(st, seq, p.Off, n, o)
	}
	ct := st.content(o)
	if ct != nil && (len(ct.c) > 0 || len(ct.s) > 0 || ct.dirty) {
		if k, ok := n.constInt(); ok && k <= 64 {
			var out []Item
			for i := int64(0); i < k; i++ {
				v := in.loadWord(st, Ptr{o, p.Off.addC(i)}, 1, lInt, types.Typ[types.Uint8])
				out = append(out, ByteItem{in.T.toBits(v.(Int))})
			}
			return out
		}
		if len(ct.c) == 0 && len(ct.s) == 0 && o.kind == oArr && len(ct.seq) > 0 && in.decideLinZero(st.f, p.Off) == 1 && in.decideLinZero(st.f, in.seqLen(ct.seq).sub(n)) == 1 {
			return ct.seq // written by copy
		}
		giveUp("content of %s after partial writes", o.name)
	}
	if o.kind == oArr && o.sym && o.buf0 {
		return []Item{BytesItem{p, n}}
	}
	if k, ok := n.constInt(); ok && k <= 64 {
		var out []Item
		for i := int64(0); i < k; i++ {
			v := in.loadWord(st, Ptr{o, p.Off.addC(i)}, 1, lInt, types.Typ[types.Uint8])
			out = append(out, ByteItem{in.T.toBits(v.(Int))})
		}
		return out
	}
	giveUp("content of %s", o.name)
	return nil
}

func litItems(s string) []Item {
	var out []Item
	for i := 0; i < len(s); i++ {
		out = append(out, ByteItem{constBits(bigI(int64(s[i])), 8)})
	}
	return out
}

func (in *Interp) subSeq(st *State, seq []Item, off, n *Lin, o *Obj) []Item {
	// skip whole items up to off
	at := linC(0)
	i := 0
	for i < len(seq) && !(in.decideLinZero(st.f, off.sub(at)) == 1) {
		at = at.add(in.itemLen(seq[i]))
		i++
	}
	if in.decideLinZero(st.f, off.sub(at)) != 1 {
		giveUp("slice of buffer %s at %s does not fall on an item boundary", o.name, off)
	}
	end := off.add(n)
	j := i
	for j < len(seq) && in.decideLinZero(st.f, end.sub(at)) != 1 {
		at = at.add(in.itemLen(seq[j]))
		j++
	}
	if in.decideLinZero(st.f, end.sub(at)) != 1 {
		giveUp("slice of buffer %s of length %s does not fall on an item boundary", o.name, n)
	}
	return seq[i:j]
}

// bufByte reads one or more bytes of a buffer.
func (in *Interp) bufByte(st *State, o *Obj, off *Lin, size int64) Val {
	if lit, ok := in.litOf[o]; ok {
		if k, ok := off.constInt(); ok && k >= 0 && k+size <= int64(len(lit)) {
			var bits []Bit
			for i := int64(0); i < size; i++ {
				bits = append(bits, constBits(bigI(int64(lit[k+i])), 8)...)
			}
			return Int{W: int(size) * 8, bits: bits}
		}
	}
	ct := st.content(o)
	var bits []Bit
	for i := int64(0); i < size; i++ {
		want := off.addC(i)
		at := linC(0)
		found := false
		if ct != nil {
			for _, it := range ct.seq {
				if b, ok := it.(ByteItem); ok && in.decideLinZero(st.f, want.sub(at)) == 1 {
					bits = append(bits, b.b...)
					found = true
					break
				}
				if b, ok := it.(BytesItem); ok {
					d := want.sub(at)
					if in.entails(st.f, d) && in.entails(st.f, b.n.sub(d).addC(-1)) {
						v := in.loadWord(st, Ptr{b.p.Obj, b.p.Off.add(d)}, 1, lInt, types.Typ[types.Uint8])
						bits = append(bits, in.T.toBits(v.(Int))...)
						found = true
						break
					}
				}
				at = at.add(in.itemLen(it))
			}
		}
		if !found {
			a := in.T.atom(fmt.Sprintf("byte(%s,%s)", o, want.Key()), 8, false)
			bits = append(bits, in.T.atomBits(a, 8)...)
		}
	}
	return Int{W: int(size) * 8, bits: bits}
}

func (in *Interp) bufStore(st *State, p Ptr, v Val, size int64) {
	bits, ok := in.wordBits(v)
	if !ok {
		if q, isP := v.(Ptr); isP && q.Obj != nil {
			in.report(st, "pointer-in-bytes", fmt.Sprintf("a pointer to %s is stored in %s, which the garbage collector does not scan", q.Obj.name, p.Obj.name), "C23")
		}
		giveUp("store of %T into byte buffer", v)
	}
	ct := st.mut(p.Obj)
	for i := int64(0); i < size; i++ {
		want := p.Off.addC(i)
		at := linC(0)
		done := false
		for j, it := range ct.seq {
			if in.decideLinZero(st.f, want.sub(at)) == 1 {
				if _, ok := it.(ByteItem); ok {
					seq := append([]Item(nil), ct.seq...)
					seq[j] = ByteItem{bits[i*8 : i*8+8]}
					ct.seq = seq
					done = true
				}
				break
			}
			at = at.add(in.itemLen(it))
		}
		if !done {
			giveUp("store into byte buffer %s at %s", p.Obj.name, want)
		}
	}
}

// appendItems implements append(s, items...) for byte slices.
func (in *Interp) appendItems(st *State, s Slice, items []Item, pos token.Pos) []struct {
	st *State
	s  Slice
} {
	type res = struct {
		st *State
		s  Slice
	}
	n := in.seqLen(items)
	base := in.contentOf(st, s.Data, s.Len)
	mk := func(st *State) Slice {
		o := in.newObj(oBuf, "buf", types.Typ[types.Uint8])
		o.base = s.Data.Obj
		o.libNew = true
		newLen := s.Len.add(n)
		c := in.lenAtom(fmt.Sprintf("cap~%d", o.id))
		in.baseLins[c] = linA(c).sub(newLen)
		o.size = linA(c)
		ct := st.mut(o)
		ct.seq = append(append([]Item(nil), base...), items...)
		if s.Data.Obj != nil {
			// may write in place unless capacity is exhausted or nothing is appended
			if in.decideLinZero(st.f, n) != 1 && in.decideLinZero(st.f, s.Cap.sub(s.Len)) != 1 {
				st.event(Event{kind: "append", obj: s.Data.Obj, off: s.Data.Off.add(s.Len), size: n, pos: pos, fn: in.curFn()})
				in.checkPublished(st, s.Data.Obj, "appended to")
			}
		}
		return Slice{ptrTo(o), newLen, linA(c)}
	}
	isNil := Ptr{}.Obj == s.Data.Obj
	var nilC *Cond
	if s.Data.Obj == nil {
		nilC = condB(true)
	} else if s.Data.Obj.nilC != nil {
		nilC = s.Data.Obj.nilC
	} else {
		nilC = condB(false)
	}
	_ = isNil
	var out []res
	// nil base and nothing appended stays nil
	c1 := in.splitCond(st, nilC)
	for _, b := range c1 {
		if !b.val {
			out = append(out, res{b.st, mk(b.st)})
			continue
		}
		zero := mkLinEQ(n)
		for _, b2 := range in.splitCond(b.st, zero) {
			if b2.val {
				out = append(out, res{b2.st, Slice{nilPtr(), linC(0), linC(0)}})
			} else {
				out = append(out, res{b2.st, mk(b2.st)})
			}
		}
	}
	return out
}

type condBranch struct {
	st  *State
	val bool
}

// splitCond returns the feasible branches of a condition.
func (in *Interp) splitCond(st *State, c *Cond) []condBranch {
	switch in.decide(st, c) {
	case 1:
		return []condBranch{{st, true}}
	case -1:
		return []condBranch{{st, false}}
	}
	in.stats.forks++
	st2 := st.fork()
	var out []condBranch
	if in.assume(st, c) {
		out = append(out, condBranch{st, true})
	}
	if in.assume(st2, c.not()) {
		out = append(out, condBranch{st2, false})
	}
	return out
}
