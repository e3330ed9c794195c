package main

// The wire format as a specification of what Unmarshal must do with every
// record, compared with each path through each record loop the analysis finds.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopRec is one path through one iteration of a loop.
type loopRec struct {
	head *State
	st   *State
	back map[*Atom]*Lin
}

type loopData struct {
	L     *Loop
	entry *State
	recs  []loopRec
	reads bool // some iteration reads the input
}

type decSpec struct {
	s     *Scen
	in    *Interp
	loops map[*Loop]*loopData
	done  map[string]bool
	input *Obj
	top   *Lin  // length of the input
	inCap *Atom // its capacity
	// target leaves of maps under validation
	stats   struct{ recs, outs int }
	scratch map[*Loop][]*Obj
}

// a record region and what its records are decoded into
type region2 struct {
	fields []*FieldSpec // fields of the message (or of the map entry)
	all    []*FieldSpec // including those the codec must not touch
	cells  func(f *FieldSpec) Ptr
	owner  *Obj // the object the fields live in
	S, E   *Lin
	depth  int
	name   string
	entry  *FieldSpec // the map field, if this is a map entry
	fresh  bool       // the target starts as zero
}

type evItem struct {
	ev  *Event
	sub *evSeg
}

type evSeg struct {
	L     *Loop
	head  *State
	exit  *State
	items []evItem
	open  bool
}

// parseEvents groups events by the loops they happen in.
func parseEvents(evs []*Event) *evSeg {
	root := &evSeg{open: true}
	stack := []*evSeg{root}
	for _, e := range evs {
		top := stack[len(stack)-1]
		switch e.kind {
		case "loophead":
			h, _ := e.val.(*State)
			s := &evSeg{L: e.aux.(*Loop), head: h, open: true}
			top.items = append(top.items, evItem{sub: s})
			stack = append(stack, s)
		case "loopexit":
			L := e.aux.(*Loop)
			for len(stack) > 1 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				x.exit, _ = e.val.(*State)
				x.open = false
				if x.L == L {
					break
				}
			}
		default:
			top.items = append(top.items, evItem{ev: e})
		}
	}
	return root
}

func isRead(e *Event) bool {
	switch e.kind {
	case "varint", "readinput":
		return e.obj != nil && e.obj.input
	}
	return false
}

// reads of the segment itself, not of nested loops
func (g *evSeg) reads() []*Event {
	var out []*Event
	for _, it := range g.items {
		if it.ev != nil && isRead(it.ev) {
			out = append(out, it.ev)
		}
	}
	return out
}

func (g *evSeg) events(f func(e *Event)) {
	for _, it := range g.items {
		if it.ev != nil {
			f(it.ev)
		} else {
			it.sub.events(f)
		}
	}
}

func (d *decSpec) subs(g *evSeg) []*evSeg {
	var out []*evSeg
	for _, it := range g.items {
		if it.sub != nil && d.isRecordLoop(it.sub) {
			out = append(out, it.sub)
		}
	}
	return out
}

func (d *decSpec) isRecordLoop(g *evSeg) bool {
	if ld := d.loops[g.L]; ld != nil && ld.reads {
		return true
	}
	n := 0
	g.events(func(e *Event) {
		if isRead(e) {
			n++
		}
	})
	return n > 0
}

func (d *decSpec) fail(props []string, rule string, pos token.Pos, fn string, f string, a ...interface{}) {
	ps := append([]string(nil), props...)
	ps = append(ps, d.s.extra...)
	if !pos.IsValid() {
		pos = d.s.p.protoPkg.Func("Unmarshal").Pos()
	}
	d.in.reportAt(rule, fmt.Sprintf(f, a...), pos, fn, ps...)
}

func (d *decSpec) at(off *Lin) Ptr { return Ptr{d.input, off} }

// known adds what the bytes examined one by one say about the varint at off.
func (d *decSpec) known(st *State, off *Lin) {
	in := d.in
	p := d.at(off)
	t := in.vt(p)
	if in.decide(st, in.vov(p)) == -1 {
		return
	}
	var val []Bit
	for i := 0; i < 10; i++ {
		w, _, _ := in.wordAt(st, d.input, off.addC(int64(i)), 1)
		x, ok := w.(Int)
		if !ok {
			return
		}
		bs := in.bitsOf(st, x)
		c := reduceBit(bs[7], st.f.gf)
		if !c.isConst() {
			return
		}
		val = append(val, bs[:7]...)
		if c.c {
			continue
		}
		if i == 9 {
			if in.decideBZ(st.f, bs[1:7]) != 1 {
				return
			}
		}
		st.f = st.f.clone()
		in.addLin(st.f, linA(t).addC(int64(-i-1)))
		in.addLin(st.f, linA(t).neg().addC(int64(i+1)))
		in.assume(st, in.vov(p).not())
		xb := in.bitsOf(st, in.vx(p))
		var rows []Bit
		for j := 0; j < 64; j++ {
			if j < len(val) {
				rows = append(rows, xb[j].xor(val[j]))
			} else {
				rows = append(rows, xb[j])
			}
		}
		st.f = st.f.clone()
		in.addGF(st.f, rows)
		return
	}
}

type kase struct {
	st    *State
	wire  int // -1: none of the supported ones
	field *FieldSpec
}

// cases splits a state on the record's wire type and field.
func (d *decSpec) cases(st *State, p *Lin, fields []*FieldSpec) []kase {
	in := d.in
	tag := in.bitsOf(st, in.vx(d.at(p)))
	var out []kase
	rest := st.fork()
	alive := true
	for _, w := range []int{0, 1, 2, 5} {
		if !alive {
			break
		}
		var bs []Bit
		for i := 0; i < 3; i++ {
			b := tag[i]
			if w>>i&1 == 1 {
				b = b.not()
			}
			bs = append(bs, b)
		}
		c := mkBZ(bs)
		switch in.decide(rest, c) {
		case 1:
			out = append(out, kase{st: rest, wire: w})
			alive = false
		case -1:
		default:
			y := rest.fork()
			if in.assume(y, c) {
				out = append(out, kase{st: y, wire: w})
			}
			alive = in.assume(rest, c.not())
		}
	}
	if alive {
		out = append(out, kase{st: rest, wire: -1})
	}
	var out2 []kase
	for _, k := range out {
		rest := k.st.fork()
		alive := true
		for _, f := range fields {
			if !alive {
				break
			}
			var bs []Bit
			for i := 3; i < 64; i++ {
				b := tag[i]
				if i-3 < 61 && f.num>>(i-3)&1 == 1 {
					b = b.not()
				}
				bs = append(bs, b)
			}
			c := mkBZ(bs)
			switch in.decide(rest, c) {
			case 1:
				out2 = append(out2, kase{rest, k.wire, f})
				alive = false
			case -1:
			default:
				y := rest.fork()
				if in.assume(y, c) {
					out2 = append(out2, kase{y, k.wire, f})
				}
				alive = in.assume(rest, c.not())
			}
		}
		if alive {
			out2 = append(out2, kase{rest, k.wire, nil})
		}
	}
	return out2
}

func (d *decSpec) numBits(st *State, p *Lin) Int {
	tag := d.in.bitsOf(st, d.in.vx(d.at(p)))
	bs := append([]Bit(nil), tag[3:64]...)
	for len(bs) < 64 {
		bs = append(bs, bit0)
	}
	return Int{W: 64, Signed: true, bits: bs}
}

// extent of a record after its key, for its wire type. fits lists the
// conditions under which the payload is complete.
func (d *decSpec) extent(st *State, y, E *Lin, wire int) (q *Lin, fits []*Cond, pay *Lin) {
	in := d.in
	switch wire {
	case 0:
		d.known(st, y)
		t := linA(in.vt(d.at(y)))
		return y.add(t), []*Cond{mkGE(E.sub(y).sub(t)), in.vov(d.at(y)).not()}, y
	case 1:
		return y.addC(8), []*Cond{mkGE(E.sub(y).addC(-8))}, y
	case 5:
		return y.addC(4), []*Cond{mkGE(E.sub(y).addC(-4))}, y
	case 2:
		d.known(st, y)
		t := linA(in.vt(d.at(y)))
		n := in.linOf(st, in.vx(d.at(y)))
		pay = y.add(t)
		q = pay.add(n)
		return q, []*Cond{mkGE(E.sub(y).sub(t)), in.vov(d.at(y)).not(), mkGE(E.sub(q))}, pay
	}
	return nil, nil, nil
}

func wireName(w int) string {
	if w < 0 {
		return "an unsupported wire type"
	}
	return fmt.Sprintf("wire type %d", w)
}

// ---- records ----

// recordStart gives the offset at which the loop's iterations start reading.
func (d *decSpec) recordStart(ld *loopData) *Lin {
	var p *Lin
	for _, r := range ld.recs {
		rd := parseEvents(r.st.eventsSince(r.head.ev)).reads()
		if len(rd) == 0 {
			continue
		}
		if p != nil && !p.eq(rd[0].off) {
			giveUp("iterations of the loop in %s start reading at different offsets %s and %s", ld.L.nl.fn, p, rd[0].off)
		}
		p = rd[0].off
	}
	return p
}

// validateLoop checks every iteration of a record loop.
func (d *decSpec) validateLoop(ld *loopData, R *region2) *Lin {
	in := d.in
	p := d.recordStart(ld)
	key := fmt.Sprintf("%d|%s|%s|%s|%v", ld.L.id, R.S.Key(), R.E.Key(), R.name, R.fresh)
	if R.owner != nil {
		key += fmt.Sprintf("|%d", R.owner.id)
	}
	if d.done[key] {
		return p
	}
	d.done[key] = true
	fn := ld.L.nl.fn
	if p != nil {
		p0 := substLin(p, ld.L.entrySubst())
		if in.decideLinZero(ld.entry.f, p0.sub(R.S)) != 1 {
			d.fail([]string{"C05", "C06"}, "start", fn.Pos(), fn.String(), "%s: decoding starts at offset %s, not at the first byte of its data (%s)", R.name, p0, R.S)
		}
	}
	d.checkEntry(ld, R)
	for _, r := range ld.recs {
		d.validateRecord(ld, r, p, R)
	}
	return p
}

// checkEntry: what the records are decoded into starts as it should.
func (d *decSpec) checkEntry(ld *loopData, R *region2) {
	if !R.fresh {
		return
	}
	in := d.in
	fn := ld.L.nl.fn
	for _, f := range R.all {
		p := R.cells(f)
		st := ld.entry.fork()
		d.s.obl++
		for _, l := range leaves(types.Unalias(f.typ)) {
			v := in.loadLeaf(st, Ptr{p.Obj, p.Off.addC(l.off)}, l)
			if !in.isZeroVal(st, v) {
				props := []string{"C12", "C05"}
				if R.entry != nil {
					props = []string{"C13"}
				}
				d.fail(props, "zero-start", fn.Pos(), fn.String(), "%s: decoding starts with %s in field %s, not with its zero value", R.name, show(in, v), f.name)
				break
			}
		}
	}
}

func (d *decSpec) validateRecord(ld *loopData, r loopRec, p *Lin, R *region2) {
	fn := ld.L.nl.fn
	seg := parseEvents(r.st.eventsSince(r.head.ev))
	if len(seg.reads()) == 0 || p == nil {
		d.fail([]string{"C22"}, "advance", fn.Pos(), fn.String(), "%s: an iteration of the record loop consumes nothing", R.name)
		return
	}
	d.allocs(seg, r.st, 1<<16)
	p2 := substLin(p, r.back)
	d.record(seg, r.head, r.st.fork(), p, p2, R, fn)
}

// record checks one completed record: [p, p2) was consumed going from head to st.
func (d *decSpec) record(seg *evSeg, head, st *State, p, p2 *Lin, R *region2, fn *ssa.Function) {
	in := d.in
	d.stats.recs++
	d.s.paths++
	E := R.E
	d.known(st, p)
	t := linA(in.vt(d.at(p)))
	where := fn.String()
	pos := fn.Pos()
	if in.decide(st, in.vov(d.at(p))) != -1 || !in.entails(st.f, E.sub(p).sub(t)) {
		d.fail([]string{"C06", "C07"}, "key", pos, where, "%s: a record is accepted although its key may be malformed or end outside the data", R.name)
		return
	}
	for _, e := range seg.reads() {
		d.s.obl++
		if e.kind == "readinput" && (!in.entails(st.f, e.off.sub(p)) || !in.entails(st.f, E.sub(e.off).sub(e.size))) {
			d.fail([]string{"C06"}, "bounds", e.pos, fnName(e.fn), "%s: %s bytes at %s are read although the data ends at %s", R.name, e.size, e.off, E)
		}
	}
	for _, k := range d.cases(st, p, R.fields) {
		d.oneCase(seg, head, k, p, t, p2, R, fn)
	}
}

func (d *decSpec) oneCase(seg *evSeg, head *State, k kase, p, t, p2 *Lin, R *region2, fn *ssa.Function) {
	in := d.in
	st := k.st
	where, pos := fn.String(), fn.Pos()
	f := k.field
	what := R.name + ": an unknown field"
	if f != nil {
		what = fmt.Sprintf("%s: field %s", R.name, f)
	}
	d.s.obl++
	if f != nil && k.wire != f.wire() {
		d.fail([]string{"C09"}, "wire-type", pos, where, "%s: a record with %s is accepted", what, wireName(k.wire))
		return
	}
	if k.wire < 0 {
		d.fail([]string{"C08", "C07"}, "wire-type", pos, where, "%s: a record with an unsupported wire type is accepted", what)
		return
	}
	y := p.add(t)
	q, fits, pay := d.extent(st, y, R.E, k.wire)
	for _, c := range fits {
		d.s.obl++
		if in.decide(st, c) != 1 {
			props := []string{"C06", "C07", "C08"}
			if !in.entails(st.f, p2.sub(p).addC(-1)) || !in.entails(st.f, R.E.sub(p2)) {
				props = append(props, "C22")
			}
			d.fail(props, "payload", pos, where, "%s with %s: the record is accepted although it may be truncated or malformed (%s not established)", what, wireName(k.wire), c)
			return
		}
	}
	d.s.obl++
	if in.decideLinZero(st.f, p2.sub(q)) != 1 {
		props := []string{"C05"}
		if f == nil {
			props = []string{"C08"}
		}
		if !in.entails(st.f, p2.sub(p).addC(-1)) {
			props = append(props, "C22")
		}
		if !in.entails(st.f, R.E.sub(p2)) {
			props = append(props, "C06", "C07")
		}
		d.fail(props, "extent", pos, where, "%s with %s: the next record is read at %s, but this one ends at %s", what, wireName(k.wire), p2, q)
		return
	}
	d.effects(seg, head, st, f, R, fn, true)
	subs := d.subs(seg)
	if f == nil || (f.pos != fpMap && f.kind.class != ecMsg) {
		for _, g := range subs {
			d.fail([]string{"C05", "C08"}, "nested", pos, where, "%s: its payload is decoded as records (loop of %s)", what, g.L.nl.fn)
		}
	}
	if f == nil {
		return
	}
	d.fieldValue(seg, subs, head, st, f, R, y, pay, q, fn)
}

// ---- effects ----

// rootsOf lists the objects a field refers to directly.
func (d *decSpec) rootsOf(st *State, f *FieldSpec, at Ptr) []*Obj {
	in := d.in
	var out []*Obj
	st = st.fork()
	for _, l := range leaves(types.Unalias(f.typ)) {
		switch v := in.loadLeaf(st, Ptr{at.Obj, at.Off.addC(l.off)}, l).(type) {
		case Ptr:
			out = append(out, v.Obj)
		case Slice:
			out = append(out, v.Data.Obj)
		case Str:
			out = append(out, v.Data.Obj)
		}
	}
	var res []*Obj
	for _, o := range out {
		if o != nil {
			res = append(res, o)
		}
	}
	return res
}

// effects: besides field f (nil: none) nothing of the message changes.
func (d *decSpec) effects(seg *evSeg, head, st *State, f *FieldSpec, R *region2, fn *ssa.Function, complete bool) {
	in := d.in
	where, pos := fn.String(), fn.Pos()
	what := R.name + ": an unknown record"
	props := []string{"C08"}
	if f != nil {
		what = fmt.Sprintf("%s: a record of %s", R.name, f)
		props = f.props("C05", "C14")
	}
	changed := map[*Obj]bool{}
	eachChanged(head, st, func(o *Obj, c *Content) { changed[o] = true })
	for _, g := range R.all {
		at := R.cells(g)
		ps := props
		if g.pos == fpIgnored || f != nil {
			ps = append(append([]string(nil), props...), "C20")
		}
		if g == f {
			continue
		}
		if changed[at.Obj] {
			d.s.obl++
			h, s2 := head.fork(), st.fork()
			for _, l := range leaves(types.Unalias(g.typ)) {
				a := Ptr{at.Obj, at.Off.addC(l.off)}
				if !in.sameVal(s2, in.loadLeaf(h, a, l), in.loadLeaf(s2, a, l)) {
					d.fail(ps, "other-field", pos, where, "%s changes field %s", what, g.name)
					break
				}
			}
		}
		for _, o := range d.rootsOf(head, g, at) {
			if changed[o] && (o.msg || o.sym) {
				d.fail(ps, "other-field", pos, where, "%s changes what field %s refers to", what, g.name)
			}
		}
	}
	if f == nil {
		for o := range changed {
			if o.msg && o != R.owner && d.reachable(head, R, o) {
				d.fail(props, "other-field", pos, where, "%s changes the message (%s)", what, o.name)
			}
		}
	}
}

func (d *decSpec) reachable(st *State, R *region2, o *Obj) bool {
	for _, g := range R.all {
		for _, x := range d.rootsOf(st, g, R.cells(g)) {
			if x == o {
				return true
			}
		}
	}
	return false
}

// ---- values ----

// value checks that v is what the payload at y denotes.
func (d *decSpec) value(st *State, f *FieldSpec, k *kindInfo, v Val, y, pay, q *Lin, what string, fn *ssa.Function) {
	in := d.in
	d.s.obl++
	props := f.props("C05")
	bad := func(rule, format string, a ...interface{}) {
		d.fail(props, rule, fn.Pos(), fn.String(), what+": "+format, a...)
	}
	switch k.class {
	case ecBool:
		b, ok := v.(Bool)
		if !ok {
			bad("value", "the value is %s", show(in, v))
			return
		}
		x := in.vx(d.at(y))
		for _, br := range in.splitCond(st.fork(), in.mkEqInt(x, intC(0, 64, false))) {
			want := 1
			if br.val {
				want = -1
			}
			if in.decide(br.st, b.c) != want {
				bad("value", "a varint that is zero: %v gives %s", br.val, b.c)
			}
		}
	case ecVar, ecZig:
		x, ok := v.(Int)
		if !ok {
			bad("value", "the value is %s", show(in, v))
			return
		}
		st = st.fork()
		u := in.bitsOf(st, in.vx(d.at(y)))
		want := make([]Bit, k.width)
		if k.class == ecVar {
			copy(want, u[:k.width])
		} else {
			if k.width == 32 {
				if !in.assume(st, mkBZ(u[32:])) {
					return
				}
			}
			for i := range want {
				want[i] = u[0]
				if i < k.width-1 {
					want[i] = u[i+1].xor(u[0])
				}
			}
		}
		if !in.eqInt(st, Int{W: k.width, Signed: k.signed, bits: want}, x) {
			bad("value", "the value is %s, not the %s the varint denotes", brief(in.T.showInt(in.normInt(st, x))), k.name)
		}
	case ecFix:
		var bs []Bit
		switch x := v.(type) {
		case Float:
			bs = x.bits
		case Int:
			bs = in.bitsOf(st, x)
		}
		if len(bs) != k.width {
			bad("value", "the value is %s", show(in, v))
			return
		}
		for i := 0; i < k.width/8; i++ {
			w, _, _ := in.wordAt(st, d.input, pay.addC(int64(i)), 1)
			wb := in.bitsOf(st, w.(Int))
			var diff []Bit
			for j := 0; j < 8; j++ {
				diff = append(diff, wb[j].xor(bs[8*i+j]))
			}
			if in.decide(st, mkBZ(diff)) != 1 {
				bad("value", "byte %d of the value is not byte %d of the payload", i, i)
				return
			}
		}
	case ecLen:
		var data Ptr
		var n *Lin
		switch x := v.(type) {
		case Str:
			data, n = x.Data, x.Len
		case Slice:
			data, n = x.Data, x.Len
			if in.decide(st, in.isNil(x.Data)) != -1 {
				bad("presence", "the decoded bytes may be nil, so the field would count as absent")
			}
		default:
			bad("value", "the value is %s", show(in, v))
			return
		}
		want := q.sub(pay)
		if in.decideLinZero(st.f, n.sub(want)) != 1 {
			bad("value", "the length is %s, not %s", n, want)
			return
		}
		if o := data.Obj; o != nil {
			for b := o; b != nil; b = b.base {
				if b.input {
					d.fail(append([]string{"C10"}, props[1:]...), "alias", fn.Pos(), fn.String(), "%s: the decoded value shares memory with the input", what)
					return
				}
				if b.msg && f.pos == fpRepeated {
					d.fail([]string{"C12"}, "alias", fn.Pos(), fn.String(), "%s: the new element reuses memory that spare capacity referred to", what)
				}
				if b.pooled || st.put[b] {
					d.fail(append([]string{"C10"}, props[1:]...), "alias", fn.Pos(), fn.String(), "%s: the decoded value shares memory with a pool", what)
				}
				if b.frozen || b.global != nil || st.pub.m[b] {
					if in.decideLinZero(st.f, n) != 1 {
						d.fail(append([]string{"C10"}, props[1:]...), "alias", fn.Pos(), fn.String(), "%s: the decoded value shares memory with %s", what, b.name)
					}
				}
			}
		}
		if in.decideLinZero(st.f, n) == 1 {
			return
		}
		seq := in.contentOf(st, data, n)
		ok := len(seq) == 1
		if ok {
			b, isB := seq[0].(BytesItem)
			ok = isB && b.p.Obj == d.input && in.decideLinZero(st.f, b.p.Off.sub(pay)) == 1 && in.decideLinZero(st.f, b.n.sub(want)) == 1
		}
		if !ok {
			// the payload may be empty
			st2 := st.fork()
			if in.assume(st2, mkLinEQ(n).not()) {
				bad("value", "the content is %s, not the payload", brief(in.showSeq(seq)))
			}
		}
	}
}

// freshRef: memory a field refers to afterwards is its own.
func (d *decSpec) ownRef(st *State, o *Obj, what string, f *FieldSpec, fn *ssa.Function) {
	for b := o; b != nil; b = b.base {
		switch {
		case b.input:
			d.fail([]string{"C10"}, "alias", fn.Pos(), fn.String(), "%s refers to the input buffer", what)
		case b.pooled || st.put[b]:
			d.fail([]string{"C10", "C13", "C27"}, "alias", fn.Pos(), fn.String(), "%s refers to memory that belongs to a pool", what)
		case b.frozen || b.global != nil || st.pub.m[b]:
			d.fail([]string{"C10", "C05", "C12", "C15", "C27"}, "alias", fn.Pos(), fn.String(), "%s refers to memory the library keeps (%s)", what, b.name)
		}
	}
}

// fieldValue checks the field after one record of it.
func (d *decSpec) fieldValue(seg *evSeg, subs []*evSeg, head, st *State, f *FieldSpec, R *region2, y, pay, q *Lin, fn *ssa.Function) {
	in := d.in
	at := R.cells(f)
	what := fmt.Sprintf("%s: field %s", R.name, f)
	bad := func(props []string, rule, format string, a ...interface{}) {
		d.fail(props, rule, fn.Pos(), fn.String(), what+": "+format, a...)
	}
	st = st.fork()
	h := head.fork()
	v := in.load(st, at, f.typ)
	switch f.pos {
	case fpPlain:
		if f.kind.class == ecMsg {
			np := v.(Ptr)
			if in.decide(st, in.isNil(np)) != -1 {
				bad([]string{"C05"}, "presence", "the embedded message may still be nil")
				return
			}
			old := in.load(h, at, f.typ).(Ptr)
			fresh := np.Obj != old.Obj
			if fresh {
				d.ownRef(st, np.Obj, what, f, fn)
				// replacing an existing message would lose what it holds
				if old.Obj != nil && in.decide(st, in.isNil(old)) != 1 {
					bad([]string{"C12"}, "merge", "an embedded message that is already there is replaced instead of merged into")
				}
			}
			d.nested(subs, st, f, np, fresh, what, pay, q, R, fn)
			return
		}
		d.value(st, f, f.kind, v, y, pay, q, what, fn)
	case fpPointer:
		np := v.(Ptr)
		if in.decide(st, in.isNil(np)) != -1 {
			bad([]string{"C05"}, "presence", "the pointer may still be nil")
			return
		}
		d.ownRef(st, np.Obj, what, f, fn)
		et := f.typ.Underlying().(*types.Pointer).Elem()
		d.value(st, f, f.kind, in.load(st, np, et), y, pay, q, what, fn)
	case fpOption:
		for _, o := range d.s.method(st.fork(), f.typ, "IsSome", v) {
			if o.panic || in.decide(o.st, o.vals[0].(Bool).c) != 1 {
				bad([]string{"C05"}, "presence", "the Option may still be unset")
				return
			}
			for _, o2 := range d.s.method(o.st, f.typ, "Unwrap", v) {
				if o2.panic {
					bad([]string{"C05"}, "presence", "Unwrap panics")
					return
				}
				d.value(o2.st, f, f.kind, o2.vals[0], y, pay, q, what, fn)
			}
		}
	case fpRepeated:
		d.repeated(seg, subs, h, st, f, R, at, y, pay, q, what, fn)
	case fpMap:
		d.mapRecord(seg, subs, h, st, f, R, at, y, pay, q, what, fn)
	}
}

// nested checks the record loop of an embedded message.
func (d *decSpec) nested(subs []*evSeg, st *State, f *FieldSpec, target Ptr, fresh bool, what string, S, E *Lin, R *region2, fn *ssa.Function) {
	in := d.in
	if len(subs) == 0 {
		if in.decideLinZero(st.f, E.sub(S)) != 1 {
			d.fail([]string{"C05", "C07"}, "nested", fn.Pos(), fn.String(), "%s: the payload of the embedded message is not decoded", what)
		}
		return
	}
	N := d.msgRegion(f.msg, target, S, E, R.depth+1)
	N.fresh = fresh
	for i, g := range subs {
		if i > 0 {
			d.fail([]string{"C05"}, "nested", fn.Pos(), fn.String(), "%s: the payload is decoded more than once", what)
			return
		}
		d.finished(g, st, N)
	}
}

func (d *decSpec) msgRegion(m *MsgSpec, target Ptr, S, E *Lin, depth int) *region2 {
	N := &region2{S: S, E: E, owner: target.Obj, depth: depth, name: m.name}
	for _, f := range m.fields {
		if f.pos != fpIgnored {
			N.fields = append(N.fields, f)
		}
		N.all = append(N.all, f)
	}
	N.cells = func(f *FieldSpec) Ptr { return Ptr{target.Obj, target.Off.addC(f.off)} }
	return N
}

// finished checks a record loop that ended normally on the way to st.
func (d *decSpec) finished(g *evSeg, st *State, R *region2) {
	in := d.in
	fn := g.L.nl.fn
	ld := d.loops[g.L]
	if ld == nil {
		giveUp("loop of %s was not recorded", fn)
	}
	p := d.validateLoop(ld, R)
	rd := g.reads()
	d.s.obl++
	if len(rd) == 0 {
		if p == nil {
			if in.decideLinZero(st.f, R.E.sub(R.S)) != 1 {
				d.fail([]string{"C07"}, "end", fn.Pos(), fn.String(), "%s: decoding stops before anything was read", R.name)
			}
			return
		}
		if in.decideLinZero(st.f, R.E.sub(p)) != 1 {
			d.fail([]string{"C07"}, "end", fn.Pos(), fn.String(), "%s: decoding succeeds having consumed up to %s, although the data ends at %s", R.name, p, R.E)
		}
		return
	}
	// left in the middle: the record being read must be the last one
	if p == nil {
		p = rd[0].off
	}
	ex := g.exit
	if ex == nil {
		ex = st
	}
	d.record(g, g.head, ex.fork(), p, R.E, R, fn)
}

// repeated: exactly one element more.
func (d *decSpec) repeated(seg *evSeg, subs []*evSeg, h, st *State, f *FieldSpec, R *region2, at Ptr, y, pay, q *Lin, what string, fn *ssa.Function) {
	in := d.in
	bad := func(rule, format string, a ...interface{}) {
		d.fail([]string{"C12", "C05"}, rule, fn.Pos(), fn.String(), what+": "+format, a...)
	}
	old := in.load(h, at, f.typ).(Slice)
	now := in.load(st, at, f.typ).(Slice)
	d.s.obl += 3
	// holds before the first record, and is checked after each
	st.f = st.f.clone()
	in.addLin(st.f, old.Len)
	in.addLin(st.f, old.Cap.sub(old.Len))
	h.f = st.f
	if in.decideLinZero(st.f, now.Len.sub(old.Len).addC(-1)) != 1 {
		bad("append", "the list has %s elements after a record, not %s", now.Len, old.Len.addC(1))
		return
	}
	if !in.entails(st.f, now.Cap.sub(now.Len)) {
		d.fail([]string{"C12", "C23"}, "append", fn.Pos(), fn.String(), "%s: the length %s may exceed the capacity %s", what, now.Len, now.Cap)
	}
	if now.Data.Obj != old.Data.Obj {
		d.ownRef(st, now.Data.Obj, what, f, fn)
	}
	et := f.typ.Underlying().(*types.Slice).Elem()
	es := bigI(sizeof(et))
	if o := now.Data.Obj; o != nil && o.typ != nil && o.kind == oArr && (sizeof(o.typ) != sizeof(et) || objectProblem(o.typ, et) != "") {
		d.fail([]string{"C23"}, "list-type", fn.Pos(), fn.String(), "%s: the elements are kept in memory allocated for %s, not %s", what, o.typ, et)
	}
	// the elements that were there
	in.nextSym++
	j := in.T.atomR(fmt.Sprintf("j~%d", in.nextSym), 64, true, big0, maxLen)
	st2 := st.fork()
	h2 := h.fork()
	st2.f = st2.f.clone()
	if in.assume(st2, mkGE(old.Len.sub(linA(j)).addC(-1))) && in.assume(st2, in.isNil(old.Data).not()) {
		h2.f = st2.f
		a := in.load(h2, Ptr{old.Data.Obj, old.Data.Off.add(linA(j).scale(es))}, et)
		b := in.load(st2, Ptr{now.Data.Obj, now.Data.Off.add(linA(j).scale(es))}, et)
		if !in.sameVal(st2, a, b) {
			bad("keep", "an element that was already there becomes %s (was %s)", show(in, b), show(in, a))
		}
	}
	el := Ptr{now.Data.Obj, now.Data.Off.add(old.Len.scale(es))}
	v := in.load(st, el, et)
	if f.kind.class == ecMsg {
		np := v.(Ptr)
		if in.decide(st, in.isNil(np)) != -1 {
			bad("presence", "the new element may be nil")
			return
		}
		if np.Obj.msg {
			bad("zero-start", "the new element is decoded into memory that may already hold data (%s)", np.Obj.name)
			return
		}
		d.ownRef(st, np.Obj, what, f, fn)
		d.nested(subs, st, f, np, true, what, pay, q, R, fn)
		return
	}
	d.value(st, f, f.kind, v, y, pay, q, what, fn)
}

// mapRecord: one entry is set to what the record holds.
func (d *decSpec) mapRecord(seg *evSeg, subs []*evSeg, h, st *State, f *FieldSpec, R *region2, at Ptr, y, pay, q *Lin, what string, fn *ssa.Function) {
	in := d.in
	bad := func(rule, format string, a ...interface{}) {
		d.fail([]string{"C13", "C05"}, rule, fn.Pos(), fn.String(), what+": "+format, a...)
	}
	old := in.load(h, at, f.typ).(Ptr)
	now := in.load(st, at, f.typ).(Ptr)
	if in.decide(st, in.isNil(now)) != -1 {
		bad("map", "the map may still be nil")
		return
	}
	d.s.obl += 4
	if now.Obj != old.Obj {
		if old.Obj != nil && in.decide(st, in.isNil(old)) != 1 {
			bad("map", "the entries already in the map are lost")
		}
		d.ownRef(st, now.Obj, what, f, fn)
	}
	var asg []*Event
	seg.events(func(e *Event) {
		switch e.kind {
		case "mapassign":
			asg = append(asg, e)
		case "mapset", "mapdelete", "mapclear":
			if e.obj == now.Obj || e.obj == old.Obj {
				bad("map", "unexpected %s", e.kind)
			}
		}
	})
	if len(asg) != 1 {
		bad("map", "%d entries are set by one record", len(asg))
		return
	}
	e := asg[0]
	if e.obj != now.Obj {
		bad("map", "the entry is set in another map (%s)", e.obj.name)
		return
	}
	ma := e.aux.(mapAsg)
	mt := f.typ.Underlying().(*types.Map)
	val := in.load(st, ptrTo(ma.slot), mt.Elem())
	kf, vf := f.entryFields()
	if len(subs) == 0 {
		// an empty entry
		if in.decideLinZero(st.f, q.sub(pay)) != 1 {
			bad("map", "the entry's payload is not decoded")
			return
		}
		if !in.isZeroVal(st, e.val) || !in.isZeroVal(st, val) {
			bad("map", "an empty entry sets %s to %s", show(in, e.val), show(in, val))
		}
		return
	}
	if len(subs) > 1 {
		bad("map", "the entry's payload is decoded more than once")
		return
	}
	g := subs[0]
	// where the entry's key and value are decoded to
	kc := ma.key
	vc, ok := d.valueCell(g, kc, mt)
	if !ok {
		bad("map", "the analysis does not find where the entry's value is decoded to")
		return
	}
	N := &region2{S: pay, E: q, depth: R.depth + 1, name: f.parent.name + "." + f.name + " entry", entry: f, fresh: true, owner: kc.Obj}
	N.fields = []*FieldSpec{kf, vf}
	N.all = N.fields
	N.cells = func(x *FieldSpec) Ptr {
		if x == kf {
			return kc
		}
		return vc
	}
	d.finished(g, st, N)
	ex := g.exit
	if ex == nil {
		bad("map", "the state after the entry's records is not known")
		return
	}
	ex = ex.fork()
	if !in.sameVal(st, in.load(ex, kc, mt.Key()), e.val) {
		bad("map", "the entry is stored under the key %s, not under the decoded one", show(in, e.val))
	}
	if !in.sameVal(st, in.load(ex, vc, mt.Elem()), val) {
		bad("map", "the value stored is %s, not the decoded one", show(in, val))
	}
	for _, v := range []Val{e.val, val} {
		switch x := v.(type) {
		case Ptr:
			if x.Obj != nil {
				d.ownRef(st, x.Obj, what, f, fn)
			}
		}
	}
}

type mapAsg struct {
	slot *Obj
	key  Ptr
}

// entryFields: the two fields of a map entry.
func (f *FieldSpec) entryFields() (k, v *FieldSpec) {
	if f.ek == nil {
		mt := f.typ.Underlying().(*types.Map)
		f.ek = &FieldSpec{name: "key", kind: f.key, pos: fpPlain, num: f.knum, typ: mt.Key(), parent: f.parent}
		f.ev = &FieldSpec{name: "value", kind: f.kind, pos: fpPlain, num: f.vnum, typ: mt.Elem(), msg: f.msg, parent: f.parent}
	}
	return f.ek, f.ev
}

// valueCell finds the place next to the key's into which entries' values are decoded.
func (d *decSpec) valueCell(g *evSeg, kc Ptr, mt *types.Map) (Ptr, bool) {
	try := func(o *Obj) (Ptr, bool) {
		if o.typ == nil {
			return Ptr{}, false
		}
		if s, ok := o.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				off := fieldOffset(s, i)
				if k, isC := kc.Off.constInt(); o == kc.Obj && isC && k == off && sizeof(mt.Key()) > 0 {
					continue
				}
				if types.Identical(s.Field(i).Type(), mt.Elem()) {
					return Ptr{o, linC(off)}, true
				}
			}
		} else if o != kc.Obj && types.Identical(o.typ, mt.Elem()) {
			return ptrTo(o), true
		}
		return Ptr{}, false
	}
	if p, ok := try(kc.Obj); ok {
		return p, true
	}
	ld := d.loops[g.L]
	if ld == nil {
		return Ptr{}, false
	}
	var found []Ptr
	seen := map[*Obj]bool{}
	for _, r := range ld.recs {
		eachChanged(r.head, r.st, func(o *Obj, c *Content) {
			if !seen[o] && !o.msg && o.id < g.L.objMark {
				seen[o] = true
				if p, ok := try(o); ok {
					found = append(found, p)
				}
			}
		})
	}
	if len(found) == 1 {
		return found[0], true
	}
	return Ptr{}, false
}

// ---- outcomes ----

func (d *decSpec) outcome(o Outcome, mark *Event, R *region2, init *State) {
	in := d.in
	d.stats.outs++
	d.s.paths++
	um := d.s.p.protoPkg.Func("Unmarshal")
	if o.panic {
		props := append(faultProps(o.fault), "C06")
		if len(R.fields) == 1 && contains(props, "C20") {
			props = R.fields[0].props(props...) // the element or entry is stored outside its place
		}
		d.fail(props, "panic", o.pos, "", "Unmarshal panics: %s%s", o.fault, showPanic(in, o.pv))
		return
	}
	seg := parseEvents(o.st.eventsSince(mark))
	for _, e := range seg.reads() {
		if !in.entails(o.st.f, e.off) || !in.entails(o.st.f, d.top.sub(e.off).sub(e.size)) {
			d.fail([]string{"C06"}, "bounds", e.pos, fnName(e.fn), "%s bytes at %s are read outside the input", e.size, e.off)
		}
	}
	d.allocs(seg, o.st, 1<<20)
	subs := d.subs(seg)
	ev := o.vals[0].(Iface)
	// before and after the record loop nothing of the message changes
	if len(subs) > 0 {
		ld := d.loops[subs[0].L]
		if ld == nil {
			giveUp("loop of %s was not recorded", subs[0].L.nl.fn)
		}
		d.untouched(init, ld.entry, R, "before the first record")
		if x := subs[len(subs)-1].exit; x != nil {
			d.untouched(x, o.st, R, "after the last record")
		}
	} else {
		d.untouched(init, o.st, R, "although no record is decoded")
	}
	if ev.T == nil {
		switch len(subs) {
		case 0:
			if in.decideLinZero(o.st.f, R.E) != 1 {
				d.fail([]string{"C07"}, "end", um.Pos(), um.String(), "Unmarshal returns nil without decoding the input")
			}
		case 1:
			d.finished(subs[0], o.st, R)
		default:
			d.fail([]string{"C05"}, "nested", um.Pos(), um.String(), "the input is decoded more than once")
		}
		return
	}
	// an error: the open record must be malformed
	if len(subs) == 0 {
		d.fail([]string{"C05", "C17"}, "error", um.Pos(), um.String(), "a valid message and input are rejected (%s)", show(in, ev))
		return
	}
	d.failed(subs[len(subs)-1], o.st.fork(), R, ev)
}

func (d *decSpec) untouched(a, b *State, R *region2, when string) {
	in := d.in
	a, b = a.fork(), b.fork()
	for _, f := range R.all {
		at := R.cells(f)
		if a.content(at.Obj) == b.content(at.Obj) {
			return
		}
		for _, l := range leaves(types.Unalias(f.typ)) {
			p := Ptr{at.Obj, at.Off.addC(l.off)}
			if !in.sameVal(b, in.loadLeaf(a, p, l), in.loadLeaf(b, p, l)) {
				um := d.s.p.protoPkg.Func("Unmarshal")
				d.fail([]string{"C12", "C05", "C20"}, "other-field", um.Pos(), um.String(), "Unmarshal changes field %s %s", f.name, when)
			}
		}
	}
}

func showPanic(in *Interp, v Val) string {
	if v == nil {
		return ""
	}
	return show(in, v)
}

// leftWith gives the memory at the time the loop was left, with all that is known on the path.
func leftWith(g *evSeg, st *State) *State {
	x := st.fork()
	if g.exit != nil {
		x = g.exit.fork()
		x.f = st.f.clone()
	}
	return x
}

// failed checks an error: the record the loop was reading must be malformed,
// and the error must say so.
func (d *decSpec) failed(g *evSeg, st *State, R *region2, ev Iface) {
	in := d.in
	fn := g.L.nl.fn
	ld := d.loops[g.L]
	if ld == nil {
		giveUp("loop of %s was not recorded", fn)
	}
	p := d.validateLoop(ld, R)
	rd := g.reads()
	d.s.obl++
	if len(rd) == 0 {
		if p != nil && in.decideLinZero(st.f, R.E.sub(p)) == 1 {
			d.fail([]string{"C05", "C07"}, "error", fn.Pos(), fn.String(), "%s: an error is returned although every record was decoded", R.name)
		} else {
			d.fail([]string{"C05", "C07"}, "error", fn.Pos(), fn.String(), "%s: an error is returned without reading the next record", R.name)
		}
		return
	}
	if p == nil {
		p = rd[0].off
		p0 := substLin(p, ld.L.entrySubst())
		if in.decideLinZero(ld.entry.f, p0.sub(R.S)) != 1 {
			d.fail([]string{"C05", "C06"}, "start", fn.Pos(), fn.String(), "%s: decoding starts at offset %s, not at the first byte of its data (%s)", R.name, p0, R.S)
		}
	}
	for _, e := range rd {
		if e.kind == "readinput" && (!in.entails(st.f, e.off.sub(p)) || !in.entails(st.f, R.E.sub(e.off).sub(e.size))) {
			d.fail([]string{"C06"}, "bounds", e.pos, fnName(e.fn), "%s: %s bytes at %s are read although the data ends at %s", R.name, e.size, e.off, R.E)
		}
	}
	d.known(st, p)
	t := linA(in.vt(d.at(p)))
	// assume the key is well formed
	if !in.assume(st, mkGE(R.E.sub(p).sub(t))) || !in.assume(st, in.vov(d.at(p)).not()) {
		return // a malformed key
	}
	for _, k := range d.cases(st, p, R.fields) {
		d.failedCase(g, k, p, t, R, ev, fn)
	}
}

func (d *decSpec) failedCase(g *evSeg, k kase, p, t *Lin, R *region2, ev Iface, fn *ssa.Function) {
	in := d.in
	st := k.st
	f := k.field
	what := R.name + ": an unknown field"
	if f != nil {
		what = fmt.Sprintf("%s: field %s", R.name, f)
	}
	d.s.obl++
	inner, ok := d.fieldError(st, k, p, ev, what, fn)
	if !ok {
		return
	}
	wrong := f != nil && k.wire != f.wire()
	if wrong {
		d.effects(g, g.head, leftWith(g, st), nil, &region2{all: R.all, cells: R.cells, owner: R.owner, name: R.name + " (wrong wire type)"}, fn, false)
		if len(d.subs(g)) > 0 {
			d.fail([]string{"C09"}, "wire-type", fn.Pos(), fn.String(), "%s: the payload of a record with the wrong wire type is decoded", what)
		}
		h := g.head.fork()
		s2 := leftWith(g, st)
		at := R.cells(f)
		for _, l := range leaves(types.Unalias(f.typ)) {
			a := Ptr{at.Obj, at.Off.addC(l.off)}
			v := in.loadLeaf(h, a, l)
			if !in.sameVal(s2, v, in.loadLeaf(s2, a, l)) || R.depth == 0 && R.entry == nil && !in.sameVal(st, v, in.loadLeaf(st, a, l)) {
				d.fail([]string{"C09"}, "wire-type", fn.Pos(), fn.String(), "%s: a record with the wrong wire type changes the field", what)
				break
			}
		}
		return
	}
	d.effects(g, g.head, leftWith(g, st), f, R, fn, false)
	if k.wire < 0 {
		return
	}
	y := p.add(t)
	q, fits, pay := d.extent(st, y, R.E, k.wire)
	for _, c := range fits {
		if !in.assume(st, c) {
			return // truncated or malformed
		}
	}
	subs := d.subs(g)
	if f != nil && len(subs) > 0 && (f.pos == fpMap || f.kind.class == ecMsg) {
		sub := subs[len(subs)-1]
		if d.failedNested(g, sub, st, f, R, pay, q, inner, what, fn) {
			return
		}
	}
	d.fail([]string{"C05", "C08"}, "error", fn.Pos(), fn.String(), "%s with %s: a complete, well-formed record is rejected with %s", what, wireName(k.wire), show(in, ev))
}

// failedNested checks an error inside an embedded message or map entry.
func (d *decSpec) failedNested(parent, g *evSeg, st *State, f *FieldSpec, R *region2, pay, q *Lin, inner Iface, what string, fn *ssa.Function) bool {
	in := d.in
	if len(g.reads()) == 0 {
		return false
	}
	var N *region2
	if f.pos == fpMap {
		ld := d.loops[g.L]
		N = d.entryRegion(ld, f, R, pay, q)
		if N == nil {
			giveUp("the analysis does not find where entries of %s are decoded to", f)
		}
	} else {
		// the target of the nested records: where the field points now
		at := R.cells(f)
		s2 := leftWith(parent, st)
		v := in.load(s2, at, f.typ)
		var np Ptr
		fresh := true
		if f.pos == fpRepeated {
			sl := v.(Slice)
			et := f.typ.Underlying().(*types.Slice).Elem()
			hs := in.load(parent.head.fork(), at, f.typ).(Slice)
			if in.decideLinZero(st.f, sl.Len.sub(hs.Len).addC(-1)) != 1 {
				// not appended yet: the element is not visible; its records are checked on the paths that complete
				return d.innerMalformed(g, st, f, pay, q, inner, fn)
			}
			np = in.load(s2, Ptr{sl.Data.Obj, sl.Data.Off.add(hs.Len.scale(bigI(sizeof(et))))}, et).(Ptr)
		} else {
			np = v.(Ptr)
			hp := in.load(parent.head.fork(), at, f.typ).(Ptr)
			fresh = np.Obj != hp.Obj
		}
		if np.Obj == nil {
			return d.innerMalformed(g, st, f, pay, q, inner, fn)
		}
		N = d.msgRegion(f.msg, np, pay, q, R.depth+1)
		N.fresh = fresh
	}
	d.failed(g, st, N, inner)
	return true
}

// innerMalformed checks a failing nested record loop whose target the message
// does not refer to yet: it is the object of the message's type that the loop's
// iterations change.
func (d *decSpec) innerMalformed(g *evSeg, st *State, f *FieldSpec, pay, q *Lin, inner Iface, fn *ssa.Function) bool {
	var targets []*Obj
	for _, o := range d.scratch[g.L] {
		if types.Identical(types.Unalias(o.typ), types.Unalias(f.msg.T)) {
			targets = append(targets, o)
		}
	}
	if len(targets) != 1 {
		giveUp("%d candidates for what the element of %s is decoded into", len(targets), f)
	}
	N := d.msgRegion(f.msg, ptrTo(targets[0]), pay, q, 1)
	N.fresh = true
	d.failed(g, st, N, inner)
	return true
}

// entryRegion finds where a map entry's records are decoded to from the loop alone.
func (d *decSpec) entryRegion(ld *loopData, f *FieldSpec, R *region2, pay, q *Lin) *region2 {
	kf, vf := f.entryFields()
	for _, o := range d.scratch[ld.L] {
		s, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var kc, vc *Ptr
		for i := 0; i < s.NumFields(); i++ {
			p := Ptr{o, linC(fieldOffset(s, i))}
			if kc == nil && types.Identical(s.Field(i).Type(), kf.typ) {
				kc = &p
			} else if vc == nil && types.Identical(s.Field(i).Type(), vf.typ) {
				vc = &p
			}
		}
		if kc != nil && vc != nil {
			N := &region2{S: pay, E: q, depth: R.depth + 1, name: f.parent.name + "." + f.name + " entry", entry: f, fresh: true, owner: o}
			N.fields = []*FieldSpec{kf, vf}
			N.all = N.fields
			N.cells = func(x *FieldSpec) Ptr {
				if x == kf {
					return *kc
				}
				return *vc
			}
			return N
		}
	}
	return nil
}

// fieldError checks that an error names the record, and gives its cause.
func (d *decSpec) fieldError(st *State, k kase, p *Lin, ev Iface, what string, fn *ssa.Function) (Iface, bool) {
	in := d.in
	bad := func(format string, a ...interface{}) {
		props := []string{"C18"}
		if k.field != nil && k.wire != k.field.wire() {
			props = append(props, "C09")
		}
		d.fail(props, "error", fn.Pos(), fn.String(), what+": "+format, a...)
	}
	ft := d.s.p.protoPkg.Pkg.Scope().Lookup("UnmarshalFieldError")
	if ft == nil {
		giveUp("type UnmarshalFieldError not found in package proto")
	}
	if ev.T == nil {
		bad("the error has no cause")
		return ev, false
	}
	pt, ok := ev.T.(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), ft.Type()) {
		bad("the error about this record is %s, not an UnmarshalFieldError", show(in, ev))
		return ev, false
	}
	e := ev.V.(Ptr)
	u := ft.Type().Underlying().(*types.Struct)
	st = st.fork()
	for i := 0; i < u.NumFields(); i++ {
		v := in.load(st, Ptr{e.Obj, e.Off.addC(fieldOffset(u, i))}, u.Field(i).Type())
		switch u.Field(i).Name() {
		case "FieldNumber":
			if !in.eqInt(st, v.(Int), d.numBits(st, p)) {
				bad("the error carries field number %s", brief(in.T.showInt(in.normInt(st, v.(Int)))))
			}
		case "WireType":
			tag := in.bitsOf(st, in.vx(d.at(p)))
			w := append([]Bit(nil), tag[:3]...)
			for len(w) < 64 {
				w = append(w, bit0)
			}
			if !in.eqInt(st, v.(Int), Int{W: 64, Signed: true, bits: w}) {
				bad("the error carries wire type %s", brief(in.T.showInt(in.normInt(st, v.(Int)))))
			}
		}
	}
	if k := "error text|" + what; !d.done[k] {
		d.done[k] = true
		guard(func() { // what the text is made of may be beyond the analysis; that it can be made is not
			for _, o := range d.s.method(st.fork(), ev.T, "Error", ev.V) {
				d.s.obl++
				if o.panic {
					bad("its text cannot be formatted: %s", o.fault)
				}
			}
		})
	}
	for _, o := range d.s.method(st.fork(), ev.T, "Unwrap", ev.V) {
		if o.panic {
			bad("Unwrap panics")
			return ev, false
		}
		x := o.vals[0].(Iface)
		if x.T == nil {
			bad("unwrapping the error gives nil")
		}
		return x, true
	}
	return Iface{}, true
}

// ---- allocations ----

// allocs: every allocation on the path is bounded by the input, the field or a constant.
func (d *decSpec) allocs(seg *evSeg, st *State, limit int64) {
	in := d.in
	seg.events(func(e *Event) {
		if e.kind != "alloc" || e.size == nil {
			return
		}
		d.s.obl++
		k := "alloc|" + e.size.Key() + fmt.Sprint(e.pos)
		if d.done[k] {
			return
		}
		parts := append(e.size.m[:0:0], e.size.m...)
		for n := 0; len(parts) > 0 && n < 100; n++ {
			m := parts[0]
			parts = parts[1:]
			if m.c.Sign() <= 0 {
				continue
			}
			if q := in.quoOf[m.a]; q != nil { // at most what it is a fraction of
				parts = append(parts, q.m...)
				continue
			}
			if d.inCap != nil && m.a == d.inCap || strings.HasPrefix(m.a.key, "vx(") || strings.HasPrefix(m.a.key, "bv") || strings.HasPrefix(m.a.key, "junk") || strings.HasPrefix(m.a.key, "*") || strings.HasPrefix(m.a.key, "<<") {
				if !in.entails(st.f, d.top.sub(linA(m.a))) {
					d.fail([]string{"C22"}, "alloc", e.pos, fnName(e.fn), "%s bytes are allocated although the input is only %s bytes long", brief(e.size.String()), d.top)
				}
			}
		}
		// a fixed size must be moderate
		if c, ok := e.size.constInt(); ok && c > limit {
			d.fail([]string{"C22"}, "alloc", e.pos, fnName(e.fn), "%d bytes are allocated whatever the input", c)
		}
	})
}

// ---- driver ----

// checkDecode analyses Unmarshal of every input into every message of the type.
func (s *Scen) checkDecode(m *MsgSpec) {
	in := s.in
	s.undecided = guard(func() {
		ptr := s.message(m, "m")
		// the type is prepared first, as by any earlier call
		alone := s.st.env == nil
		outs := []Outcome{{st: s.st}}
		if alone {
			outs = s.call(s.st, "Size", Iface{T: types.NewPointer(s.p.buildMsg(m)), V: nilPtr()})
		}
		if len(outs) != 1 {
			s.find(&specErr{[]string{"C14", "C05"}, "preparing the type fails"}, "prepare")
			return
		}
		input := in.symSlice("input", types.Typ[types.Uint8], false)
		input.Data.Obj.input = true
		for _, o := range outs {
			if o.panic {
				s.find(&specErr{[]string{"C14", "C05"}, "preparing the type fails"}, "prepare")
				return
			}
			s.decodeFrom(m, ptr, o.st, input)
		}
	})
}

// decodeFrom: Unmarshal of any input, in a state in which the type is prepared.
func (s *Scen) decodeFrom(m *MsgSpec, ptr Ptr, st *State, input Slice) {
	in := s.in
	mark := st.ev
	for round := 0; ; round++ {
		if round > 4 {
			giveUp("pool contents do not settle")
		}
		in.poolChanged = false
		d := &decSpec{s: s, in: in, loops: map[*Loop]*loopData{}, done: map[string]bool{}, input: input.Data.Obj, top: input.Len, inCap: input.Cap.single(), scratch: map[*Loop][]*Obj{}}
		in.keepExit = true
		in.onLoop = func(L *Loop, e *State) {
			d.loops[L] = &loopData{L: L, entry: e}
		}
		in.onBackEdge = func(L *Loop, b backEdge, back map[*Atom]*Lin) {
			ld := d.loops[L]
			if ld == nil {
				giveUp("loop of %s was not recorded", L.nl.fn)
			}
			ld.recs = append(ld.recs, loopRec{head: b.head, st: b.s.st, back: back})
			parseEvents(b.s.st.eventsSince(b.head.ev)).events(func(e *Event) {
				if isRead(e) {
					ld.reads = true
				}
			})
		}
		nf := len(in.findings)
		outs := s.call(st.fork(), "Unmarshal", input, s.iface(m, ptr))
		in.onLoop, in.onBackEdge, in.keepExit = nil, nil, false
		if in.poolChanged {
			in.dropFindings(nf)
			continue
		}
		d.findScratch()
		R := d.msgRegion(m, ptr, linC(0), input.Len, 0)
		for _, o := range outs {
			d.outcome(o, mark, R, st)
		}
		return
	}
}

// findScratch lists, per loop, the objects its iterations change that existed before it and are not part of the message.
func (d *decSpec) findScratch() {
	for L, ld := range d.loops {
		seen := map[*Obj]bool{}
		var objs []*Obj
		for _, r := range ld.recs {
			eachChanged(r.head, r.st, func(o *Obj, c *Content) {
				if !seen[o] && !o.msg && o.typ != nil && o.id <= L.objMark {
					seen[o] = true
					objs = append(objs, o)
				}
			})
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		d.scratch[L] = objs
	}
}
