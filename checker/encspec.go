package main

// The wire format as a specification of what Marshal must produce, compared
// with the byte sequences the analysis derives.

import (
	"fmt"
	"go/types"
)

type encCtx struct {
	s    *Scen
	in   *Interp
	path []string // field path, for messages
	fail []Finding
}

type specErr struct {
	props []string
	msg   string
}

func (e *specErr) Error() string { return e.msg }

func (c *encCtx) err(props []string, f string, a ...interface{}) *specErr {
	return &specErr{props, fmt.Sprintf(f, a...)}
}

// posProps adds the properties a field's position brings in.
func (f *FieldSpec) props(ps ...string) []string {
	switch f.pos {
	case fpRepeated:
		ps = append(ps, "C12")
	case fpMap:
		ps = append(ps, "C13")
	}
	if (f.kind.class == ecZig || f.key != nil && f.key.class == ecZig) && (contains(ps, "C03") || contains(ps, "C05")) {
		ps = append(ps, "C02")
	}
	return ps
}

func (in *Interp) constItemsVarint(items []Item) (Int, int, bool) {
	var bits []Bit
	for i, it := range items {
		b, ok := it.(ByteItem)
		if !ok || i >= 10 {
			return Int{}, 0, false
		}
		if !b.b[7].isConst() {
			return Int{}, 0, false
		}
		bits = append(bits, b.b[:7]...)
		if !b.b[7].c {
			for len(bits) < 64 {
				bits = append(bits, bit0)
			}
			return Int{W: 64, bits: bits[:64]}, i + 1, true
		}
	}
	return Int{}, 0, false
}

// takeVarint splits a varint off the front: its value, and whether it is minimal.
func (in *Interp) takeVarint(st *State, items []Item) (x Int, rest []Item, minimal, ok bool) {
	if len(items) == 0 {
		return
	}
	if v, isV := items[0].(VarItem); isV {
		return v.x, items[1:], true, true
	}
	// bytes whose continuation bit the facts decide
	var norm []Item
	for _, it := range items {
		b, isB := it.(ByteItem)
		if !isB || len(norm) >= 10 {
			break
		}
		bs := append([]Bit(nil), b.b...)
		if !bs[7].isConst() {
			bs[7] = reduceBit(bs[7], st.f.gf)
		}
		norm = append(norm, ByteItem{bs})
		if bs[7].isConst() && !bs[7].c {
			break
		}
	}
	x, n, ok := in.constItemsVarint(norm)
	if !ok {
		return
	}
	minimal = in.decideLinZero(st.f, in.vlenLin(in.normInt(st, x)).addC(-int64(n))) == 1
	return x, items[n:], minimal, true
}

func (in *Interp) eqInt(st *State, a, b Int) bool {
	return in.decide(st, in.mkEqInt(a, b)) == 1
}

// optionParts evaluates IsSome and Unwrap of an Option value.
func (s *Scen) method(st *State, t types.Type, name string, recv Val, args ...Val) []Outcome {
	m, _, _ := types.LookupFieldOrMethod(t, false, s.p.protoPkg.Pkg, name)
	f, ok := m.(*types.Func)
	if !ok {
		giveUp("method %s of %s not found", name, t)
	}
	sel := s.p.prog.MethodSets.MethodSet(t).Lookup(f.Pkg(), name)
	if sel == nil {
		giveUp("method %s of %s not found", name, t)
	}
	fn := s.p.prog.MethodValue(sel)
	return s.in.callFunc(st, fn, nil, append([]Val{recv}, args...))
}

type presence struct {
	st    *State
	some  bool
	val   Val // the scalar or reference, if present
	typ   types.Type
	known bool
}

// presenceOf splits the state on whether the field is present and gives its value.
// elem: the position always emits (list elements, map keys and values).
func (c *encCtx) presenceOf(st *State, f *FieldSpec, at Ptr) []presence {
	in := c.in
	t := f.typ
	split := func(st *State, cond *Cond, v Val, vt types.Type) []presence {
		var out []presence
		for _, b := range in.splitCond(st, cond) {
			out = append(out, presence{st: b.st, some: b.val, val: v, typ: vt})
		}
		return out
	}
	switch f.pos {
	case fpOption:
		ov := in.load(st, at, t)
		var out []presence
		for _, o := range c.s.method(st, t, "IsSome", ov) {
			if o.panic {
				giveUp("IsSome panics: %s", o.fault)
			}
			for _, b := range in.splitCond(o.st, o.vals[0].(Bool).c) {
				if !b.val {
					out = append(out, presence{st: b.st})
					continue
				}
				for _, o2 := range c.s.method(b.st, t, "Unwrap", ov) {
					if o2.panic {
						giveUp("Unwrap panics: %s", o2.fault)
					}
					out = append(out, presence{st: o2.st, some: true, val: o2.vals[0], typ: c.s.p.elemType(f.kind, f.msg)})
				}
			}
		}
		return out
	case fpPointer:
		p := in.load(st, at, t).(Ptr)
		var out []presence
		for _, b := range in.splitCond(st, in.isNil(p)) {
			if b.val {
				out = append(out, presence{st: b.st})
				continue
			}
			et := t.Underlying().(*types.Pointer).Elem()
			out = append(out, presence{st: b.st, some: true, val: in.load(b.st, p, et), typ: et})
		}
		return out
	case fpPlain:
		v := in.load(st, at, t)
		return split(st, in.nonZero(st, f.kind, v), v, t)
	}
	giveUp("presence of %s", f)
	return nil
}

// nonZero: the condition under which a plain field of this kind is emitted.
func (in *Interp) nonZero(st *State, k *kindInfo, v Val) *Cond {
	switch x := v.(type) {
	case Bool:
		return x.c
	case Int:
		return in.mkEqInt(x, intC(0, x.W, x.Signed)).not()
	case Float:
		return mkBZ(x.bits).not()
	case Str:
		return mkLinEQ(x.Len).not()
	case Slice:
		return in.isNil(x.Data).not()
	case Ptr:
		return in.isNil(x).not()
	}
	giveUp("zero test of %T", v)
	return nil
}

// wantInt gives the 64-bit integer the varint of a value must carry.
func (in *Interp) wantInt(st *State, k *kindInfo, v Val) Int {
	switch x := v.(type) {
	case Bool:
		b, ok := in.boolBit(x)
		if !ok {
			giveUp("bit of a boolean")
		}
		bs := make([]Bit, 64)
		bs[0] = b
		return Int{W: 64, bits: bs}
	case Int:
		bs := in.bitsOf(st, x)
		out := make([]Bit, 64)
		if k.class == ecZig {
			s := bs[k.width-1]
			for i := 0; i < k.width; i++ {
				if i == 0 {
					out[i] = s
				} else {
					out[i] = bs[i-1].xor(s)
				}
			}
			return Int{W: 64, bits: out}
		}
		for i := range out {
			if i < len(bs) {
				out[i] = bs[i]
			} else if x.Signed {
				out[i] = bs[len(bs)-1]
			}
		}
		return Int{W: 64, bits: out}
	}
	giveUp("varint value %T", v)
	return Int{}
}

type contFn func(st *State, rest []Item) *specErr

// value matches the encoding of one value (without its key).
func (c *encCtx) value(st *State, items []Item, f *FieldSpec, k *kindInfo, v Val, props []string, next contFn) *specErr {
	in := c.in
	switch k.class {
	case ecBool:
		b := v.(Bool)
		for _, br := range in.splitCond(st, b.c) {
			x, rest, min, ok := in.takeVarint(br.st, items)
			if !ok {
				return c.err(props, "%s: bool value expected, found %s", f, in.showSeq(items))
			}
			want := intC(0, 64, false)
			if br.val {
				want = intC(1, 64, false)
			}
			if !min || !in.eqInt(br.st, x, want) {
				return c.err(props, "%s: bool %v is written as %s", f, br.val, in.showSeq(items[:len(items)-len(rest)]))
			}
			if e := next(br.st, rest); e != nil {
				return e
			}
		}
		return nil
	case ecVar, ecZig:
		x, rest, min, ok := in.takeVarint(st, items)
		if !ok {
			return c.err(props, "%s: varint expected, found %s", f, in.showSeq(items))
		}
		if !in.eqInt(st, x, in.wantInt(st, k, v)) {
			return c.err(props, "%s: the varint written is %s, not the %s encoding of the value", f, in.showSeq(items[:len(items)-len(rest)]), k.name)
		}
		if !min {
			return c.err(append(props, "C02"), "%s: varint is not minimal", f)
		}
		return next(st, rest)
	case ecFix:
		n := k.width / 8
		var bs []Bit
		switch x := v.(type) {
		case Float:
			bs = x.bits
		case Int:
			bs = in.bitsOf(st, x)
		}
		if len(items) < n {
			return c.err(props, "%s: %d bytes expected, found %s", f, n, in.showSeq(items))
		}
		for i := 0; i < n; i++ {
			b, ok := items[i].(ByteItem)
			if ok {
				var d []Bit
				for j := 0; j < 8; j++ {
					d = append(d, b.b[j].xor(bs[i*8+j]))
				}
				ok = in.decide(st, mkBZ(d)) == 1
			}
			if !ok {
				return c.err(props, "%s: byte %d of the little-endian value is %s", f, i, in.showItem(items[i]))
			}
		}
		return next(st, items[n:])
	case ecLen:
		var data Ptr
		var n *Lin
		switch x := v.(type) {
		case Str:
			data, n = x.Data, x.Len
		case Slice:
			data, n = x.Data, x.Len
		}
		x, rest, min, ok := in.takeVarint(st, items)
		if !ok || !min || in.decideLinZero(st.f, in.linOf(st, x).sub(n)) != 1 {
			return c.err(append(props, "C01"), "%s: length prefix is %s, not the varint of %s", f, in.showSeq(items[:len(items)-len(rest)]), n)
		}
		if in.decideLinZero(st.f, n) == 1 {
			return next(st, rest)
		}
		if len(rest) > 0 {
			if b, ok := rest[0].(BytesItem); ok && in.samePlace(st, b.p, data) && in.decideLinZero(st.f, b.n.sub(n)) == 1 {
				return next(st, rest[1:])
			}
		}
		return c.err(append(props, "C01"), "%s: the payload is %s, not the %s bytes of the value", f, in.showSeq(rest), n)
	case ecMsg:
		p := v.(Ptr)
		inner, rest, e := c.delimited(st, items, f)
		if e != nil {
			return e
		}
		if e := c.message(st, inner, f.msg, p); e != nil {
			return e
		}
		return next(st, rest)
	}
	panic("value")
}

func (in *Interp) samePlace(st *State, a, b Ptr) bool {
	return a.Obj == b.Obj && a.Off != nil && b.Off != nil && in.decideLinZero(st.f, a.Off.sub(b.Off)) == 1
}

// delimited takes a length prefix and the items it covers.
func (c *encCtx) delimited(st *State, items []Item, f *FieldSpec) (inner, rest []Item, e *specErr) {
	in := c.in
	x, rest, min, ok := in.takeVarint(st, items)
	if !ok {
		return nil, nil, c.err([]string{"C01", "C03"}, "%s: length prefix expected, found %s", f, in.showSeq(items))
	}
	if !min {
		return nil, nil, c.err([]string{"C02"}, "%s: length prefix is not minimal", f)
	}
	n := in.linOf(st, x)
	for i := 0; i <= len(rest); i++ {
		if in.decideLinZero(st.f, in.seqLen(rest[:i]).sub(n)) == 1 {
			return rest[:i], rest[i:], nil
		}
	}
	return nil, nil, c.err(f.props("C01"), "%s: the length prefix %s covers no whole number of the items that follow: %s", f, n, in.showSeq(rest))
}

// key matches a record key.
func (c *encCtx) isKey(st *State, items []Item, num uint64, wire int) ([]Item, bool) {
	x, rest, min, ok := c.in.takeVarint(st, items)
	if !ok || !min {
		return nil, false
	}
	k, ok := x.constBig()
	if !ok {
		x = c.in.normInt(st, x)
		if k, ok = x.constBig(); !ok {
			return nil, false
		}
	}
	return rest, k.IsUint64() && k.Uint64() == num<<3|uint64(wire)
}

// message matches a whole message body.
func (c *encCtx) message(st *State, items []Item, m *MsgSpec, at Ptr) *specErr {
	var todo []*FieldSpec
	for _, f := range m.fields {
		if f.pos != fpIgnored {
			todo = append(todo, f)
		}
	}
	return c.fields(st, items, todo, at)
}

func without(fs []*FieldSpec, i int) []*FieldSpec {
	out := append([]*FieldSpec(nil), fs[:i]...)
	return append(out, fs[i+1:]...)
}

func (c *encCtx) fields(st *State, items []Item, todo []*FieldSpec, at Ptr) *specErr {
	in := c.in
	if len(items) == 0 {
		// the rest must be absent
		for _, f := range todo {
			if e := c.absent(st.fork(), f, Ptr{at.Obj, at.Off.addC(f.off)}); e != nil {
				return e
			}
		}
		return nil
	}
	for i, f := range todo {
		fat := Ptr{at.Obj, at.Off.addC(f.off)}
		if li, ok := items[0].(LoopItem); ok {
			if f.pos != fpRepeated && f.pos != fpMap {
				continue
			}
			if !c.loopFits(li, f) {
				continue
			}
			if e := c.loop(st, li, f, fat); e != nil {
				return e
			}
			return c.fields(st, items[1:], without(todo, i), at)
		}
		if f.pos == fpRepeated || f.pos == fpMap {
			continue
		}
		rest, ok := c.isKey(st, items, f.num, f.wire())
		if !ok {
			continue
		}
		for _, p := range c.presenceOf(st.fork(), f, fat) {
			if !p.some {
				return c.err(f.props("C04"), "%s: a record is written although the field is absent", f)
			}
			e := c.value(p.st, rest, f, f.kind, p.val, f.props("C03"), func(st *State, rest []Item) *specErr {
				return c.fields(st, rest, without(todo, i), at)
			})
			if e != nil {
				return e
			}
		}
		return nil
	}
	props := []string{"C03"}
	for _, f := range todo {
		props = append(props, f.props()...)
	}
	return c.err(props, "the output %s does not start with the key of any field still to be written (%s)", in.showSeq(items), fieldList(todo))
}

func fieldList(fs []*FieldSpec) string {
	s := ""
	for i, f := range fs {
		if i > 0 {
			s += "; "
		}
		s += f.String()
	}
	return s
}

// absent checks that a field nothing was written for is indeed absent.
func (c *encCtx) absent(st *State, f *FieldSpec, at Ptr) *specErr {
	in := c.in
	switch f.pos {
	case fpRepeated:
		sl := in.load(st, at, f.typ).(Slice)
		if in.decideLinZero(st.f, sl.Len) != 1 {
			if f.kind.class == ecMsg {
				// only nil elements may be skipped; a loop that writes nothing at all is reported below
			}
			return c.err(f.props("C04"), "%s: nothing is written although the list may have elements", f)
		}
		return nil
	case fpMap:
		p := in.load(st, at, f.typ).(Ptr)
		if p.Obj == nil || in.decide(st, in.isNil(p)) == 1 {
			return nil
		}
		if p.Obj.count == nil || in.decideLinZero(st.f, p.Obj.count) != 1 {
			return c.err(f.props("C04"), "%s: nothing is written although the map may have entries", f)
		}
		return nil
	}
	for _, p := range c.presenceOf(st, f, at) {
		if p.some {
			return c.err(f.props("C04"), "%s: nothing is written although the field is present", f)
		}
	}
	return nil
}

// loopFits: the records the loop writes carry this field's number.
func (c *encCtx) loopFits(li LoopItem, f *FieldSpec) bool {
	for _, cs := range li.L.cases {
		its := cs.items[li.v]
		if len(its) == 0 {
			continue
		}
		x, _, _, ok := c.in.takeVarint(cs.st, its)
		if !ok {
			return false
		}
		k, ok := x.constBig()
		return ok && k.IsUint64() && k.Uint64()>>3 == f.num
	}
	return false
}

// loop matches the records of a repeated field or map.
func (c *encCtx) loop(st *State, li LoopItem, f *FieldSpec, at Ptr) *specErr {
	in := c.in
	L := li.L
	var count *Lin
	var sl Slice
	var mp Ptr
	if f.pos == fpRepeated {
		sl = in.load(st.fork(), at, f.typ).(Slice)
		count = sl.Len
	} else {
		mp = in.load(st.fork(), at, f.typ).(Ptr)
		if mp.Obj == nil || mp.Obj.count == nil {
			return c.err(f.props("C13"), "%s: records are written for a nil map", f)
		}
		count = mp.Obj.count
	}
	if L.n == nil || in.decideLinZero(st.f, L.n.sub(count)) != 1 {
		return c.err(f.props("C04"), "%s: the number of records written is %s, not the %s elements of the field", f, L.n, count)
	}
	if L.parts != 1 {
		return c.err(f.props("C04"), "%s: the records written depend on earlier iterations", f)
	}
	for _, cs := range L.cases {
		items := cs.items[li.v]
		st := cs.st.fork()
		var e *specErr
		if f.pos == fpRepeated {
			et := f.typ.Underlying().(*types.Slice).Elem()
			v := in.load(st, Ptr{sl.Data.Obj, sl.Data.Off.add(linA(L.k).scale(bigI(sizeof(et))))}, et)
			e = c.element(st, items, f, f.kind, f.num, v, f.props("C03"), func(st *State, rest []Item) *specErr {
				if len(rest) > 0 {
					return c.err(f.props("C03"), "%s: extra bytes %s after an element", f, in.showSeq(rest))
				}
				return nil
			})
		} else {
			e = c.entry(st, items, f, mp, linA(L.k))
		}
		if e != nil {
			return e
		}
	}
	return nil
}

// element matches key and value of a position that always emits.
func (c *encCtx) element(st *State, items []Item, f *FieldSpec, k *kindInfo, num uint64, v Val, props []string, next contFn) *specErr {
	in := c.in
	one := func(st *State) *specErr {
		rest, ok := c.isKey(st, items, num, k.wire)
		if !ok {
			if len(items) == 0 {
				return c.err(append(props, "C04"), "%s: nothing is written for an element", f)
			}
			return c.err(props, "%s: the record %s does not start with the key of field %d, wire type %d", f, in.showSeq(items), num, k.wire)
		}
		return c.value(st, rest, f, k, v, props, next)
	}
	if k.class == ecMsg {
		// a nil element has no encoding of its own: nothing, or an empty message
		for _, b := range in.splitCond(st, in.isNil(v.(Ptr))) {
			if !b.val {
				if e := one(b.st); e != nil {
					return e
				}
				continue
			}
			if rest, ok := c.isKey(b.st, items, num, k.wire); ok {
				inner, rest, e := c.delimited(b.st, rest, f)
				if e == nil && len(inner) == 0 {
					if e := next(b.st, rest); e != nil {
						return e
					}
					continue
				}
			}
			if e := next(b.st, items); e != nil {
				return e
			}
		}
		return nil
	}
	return one(st)
}

// entry matches one map entry record.
func (c *encCtx) entry(st *State, items []Item, f *FieldSpec, mp Ptr, pos *Lin) *specErr {
	in := c.in
	rest, ok := c.isKey(st, items, f.num, 2)
	if !ok {
		return c.err(f.props("C03"), "%s: the entry %s does not start with the key of field %d", f, in.showSeq(items), f.num)
	}
	inner, after, e := c.delimited(st, rest, f)
	if e != nil {
		return e
	}
	if len(after) > 0 {
		return c.err(f.props("C01"), "%s: extra bytes %s after an entry", f, in.showSeq(after))
	}
	mt := mp.Obj.typ.Underlying().(*types.Map)
	kv := in.load(st, in.mapCellAt(mp.Obj, pos, false), mt.Key())
	vv := in.load(st, in.mapCellAt(mp.Obj, pos, true), mt.Elem())
	props := f.props("C03")
	valueFirst := false
	if _, ok := c.isKey(st, inner, f.vnum, f.kind.wire); ok && f.vnum != f.knum {
		valueFirst = true
	}
	end := func(st *State, rest []Item) *specErr {
		if len(rest) > 0 {
			return c.err(props, "%s: extra bytes %s in an entry", f, in.showSeq(rest))
		}
		return nil
	}
	key := func(next contFn) contFn {
		return func(st *State, rest []Item) *specErr {
			return c.element(st, rest, f, f.key, f.knum, kv, props, next)
		}
	}
	val := func(next contFn) contFn {
		return func(st *State, rest []Item) *specErr {
			return c.element(st, rest, f, f.kind, f.vnum, vv, props, next)
		}
	}
	if valueFirst {
		return val(key(end))(st, inner)
	}
	return key(val(end))(st, inner)
}
