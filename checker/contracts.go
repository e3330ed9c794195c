package main

// Function summaries for the varint primitives. Any function of the repository
// whose signature is that of a varint writer, sizer or reader is analysed once
// over a complete partition of its inputs (by bit length, by position of the
// terminating byte). If every part meets the specification, callers use the
// summary; otherwise the function is followed like any other code.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type contractKind int

const (
	ckNone contractKind = iota
	ckAppend
	ckSize
	ckRead
)

type contractVerdict struct {
	kind       contractKind
	state      int // 0 pending, 1 ok, -1 fails
	why        string
	class      string // which part failed: value, size, truncated, overflow, crash
	parts      int
	errT, errO *ssa.Global // sentinel errors of a reader (nil: some other error)
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && sizeof(t) == 8
}

func contractShape(fn *ssa.Function) contractKind {
	sg := fn.Signature
	if sg.Recv() != nil || sg.Variadic() || fn.TypeParams().Len() > 0 || len(fn.FreeVars) > 0 {
		return ckNone
	}
	ps, rs := sg.Params(), sg.Results()
	switch {
	case ps.Len() == 2 && rs.Len() == 1 && isByteSlice(ps.At(0).Type()) && is64(ps.At(1).Type()) && isByteSlice(rs.At(0).Type()):
		return ckAppend
	case ps.Len() == 1 && rs.Len() == 1 && is64(ps.At(0).Type()):
		if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return ckSize
		}
	case ps.Len() == 1 && rs.Len() == 3 && isByteSlice(ps.At(0).Type()) && is64(rs.At(0).Type()) && is64(rs.At(1).Type()) && types.IsInterface(rs.At(2).Type()):
		if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return ckRead
		}
	}
	return ckNone
}

func (in *Interp) contractFor(fn *ssa.Function) *contractVerdict {
	if v, ok := in.P.verdicts[fn]; ok {
		if v != nil && (v.state == 1 || v.reported(in.P, fn)) {
			return v
		}
		return nil
	}
	if in.P.contractsDone {
		return nil
	}
	k := ckNone
	if in.P.inRepo(fn) && fn.Blocks != nil {
		k = contractShape(fn)
	}
	if k == ckNone {
		in.P.verdicts[fn] = nil
		return nil
	}
	v := &contractVerdict{kind: k}
	in.P.verdicts[fn] = v
	in.P.verifyContract(fn, v)
	if v.state == 1 {
		return v
	}
	return nil
}

// reported: a primitive found wrong. The finding stands on its own (varintJob);
// what calls it is analysed as if it were right.
func (v *contractVerdict) reported(p *Program, fn *ssa.Function) bool {
	if !p.contractsDone || v.state != -1 || v.class == "undecided" || v.class == "effects" {
		return false
	}
	for _, n := range varintPrimitives {
		if fn == p.protoPkg.Func(n) {
			return true
		}
	}
	return false
}

var varintPrimitives = []string{"appendVarint", "decodeVarint"}

// varintProps: what a wrong primitive breaks.
func (v *contractVerdict) breaks() []string {
	switch v.class {
	case "truncated", "overflow":
		return []string{"C02", "C07"}
	case "crash":
		return []string{"C02", "C06"}
	}
	if v.kind == ckRead {
		return []string{"C02", "C05"}
	}
	return []string{"C02", "C01", "C03"}
}

func (v *contractVerdict) fail(class, f string, a ...interface{}) {
	if v.state == 1 || v.state == 0 {
		v.state = -1
		v.class = class
		v.why = fmt.Sprintf(f, a...)
	}
}

// guard runs f, turning analysis failures into a message.
func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case undecided:
				msg = x.msg
			case memErr:
				msg = x.msg
			default:
				panic(r)
			}
		}
	}()
	f()
	return ""
}

func (p *Program) verifyContract(fn *ssa.Function, v *contractVerdict) {
	defer func() {
		if v.state == 0 {
			v.state = 1
		}
	}()
	msg := guard(func() {
		switch v.kind {
		case ckAppend, ckSize:
			p.verifyWrite(fn, v)
		case ckRead:
			p.verifyRead(fn, v)
		}
	})
	if msg != "" {
		v.fail("undecided", "%s", msg)
	}
}

func specVarintBytes(bs []Bit, n int) []Item {
	var out []Item
	for i := 0; i < n; i++ {
		b := make([]Bit, 8)
		for j := 0; j < 7; j++ {
			if i*7+j < len(bs) {
				b[j] = bs[i*7+j]
			}
		}
		if i < n-1 {
			b[7] = bit1
		}
		out = append(out, ByteItem{b})
	}
	return out
}

// verifyWrite: for every bit length L of v, the function appends (or reports the
// length of) exactly the minimal varint encoding.
func (p *Program) verifyWrite(fn *ssa.Function, v *contractVerdict) {
	for L := 0; L <= 64; L++ {
		in, st := p.subInterp()
		a := in.T.atom("v", 64, false)
		bits := in.T.atomBits(a, 64)
		var rows []Bit
		for i := L; i < 64; i++ {
			rows = append(rows, bits[i])
		}
		if L > 0 {
			rows = append(rows, bits[L-1].not())
		}
		st.f = st.f.clone()
		in.addGF(st.f, rows)
		n := (L + 6) / 7
		if n == 0 {
			n = 1
		}
		_, signed := intInfo(fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type())
		x := Int{W: 64, Signed: signed, bits: bits}
		var args []Val
		var pre Slice
		if v.kind == ckAppend {
			pre = in.symSlice("b", types.Typ[types.Uint8], false)
			args = append(args, pre)
		}
		args = append(args, x)
		mark := st.ev
		outs := in.callFunc(st, fn, nil, args)
		v.parts++
		if len(outs) == 0 {
			v.fail("crash", "no outcome for values of %d bits", L)
			return
		}
		for _, o := range outs {
			if o.panic {
				v.fail("crash", "panics for values of %d bits: %s", L, o.fault)
				return
			}
			if v.effects(in, mark, o, pre.Data.Obj) {
				return
			}
			if v.kind == ckSize {
				r := o.vals[0].(Int)
				if in.decideLinZero(o.st.f, in.T.toLin(r).addC(-int64(n))) != 1 {
					v.fail("size", "gives %s, not %d, for values of %d bits", in.T.showInt(in.normInt(o.st, r)), n, L)
					return
				}
				continue
			}
			r := o.vals[0].(Slice)
			seq := in.contentOf(o.st, r.Data, r.Len)
			// prefix: the original bytes
			k := 0
			for k < len(seq) {
				b, ok := seq[k].(BytesItem)
				if !ok || b.p.Obj != pre.Data.Obj {
					break
				}
				k++
			}
			if in.decideLinZero(o.st.f, in.seqLen(seq[:k]).sub(pre.Len)) != 1 {
				v.fail("value", "does not keep the bytes already in the buffer")
				return
			}
			want := specVarintBytes(bits, n)
			got := seq[k:]
			ok := len(got) == len(want)
			if ok {
				for i := range got {
					g, isB := got[i].(ByteItem)
					if !isB {
						ok = false
						break
					}
					w := want[i].(ByteItem)
					var d []Bit
					for j := range w.b {
						d = append(d, g.b[j].xor(w.b[j]))
					}
					if in.decide(o.st, mkBZ(d)) != 1 {
						ok = false
						break
					}
				}
			}
			if !ok {
				v.fail("value", "for values of %d bits it appends %s, not the %d-byte varint", L, in.showSeq(got), n)
				return
			}
		}
	}
}

// verifyRead: for every position of the terminating byte the function returns
// the value and length of the varint; it fails on truncated and overlong input.
func (p *Program) verifyRead(fn *ssa.Function, v *contractVerdict) {
	run := func(what string, setup func(in *Interp, st *State, byteAt func(i int) []Bit, n *Atom) bool, check func(in *Interp, o Outcome, byteAt func(i int) []Bit, n *Atom) (string, string)) bool {
		in, st := p.subInterp()
		s := in.symSlice("b", types.Typ[types.Uint8], false)
		s.Data.Obj.input = true
		n := s.Len.single()
		st.f = st.f.clone()
		byteAt := func(i int) []Bit {
			w, _, _ := in.wordAt(st, s.Data.Obj, linC(int64(i)), 1)
			return in.T.toBits(w.(Int))
		}
		if !setup(in, st, byteAt, n) {
			return true
		}
		// the slice is not nil if it has bytes
		mark := st.ev
		outs := in.callFunc(st, fn, nil, []Val{s})
		v.parts++
		if len(outs) == 0 {
			v.fail("crash", "%s: no outcome", what)
			return false
		}
		for _, o := range outs {
			if o.panic {
				v.fail("crash", "%s: panics: %s", what, o.fault)
				return false
			}
			if v.effects(in, mark, o, nil) {
				return false
			}
			if cl, m := check(in, o, byteAt, n); m != "" {
				v.fail(cl, "%s: %s", what, m)
				return false
			}
		}
		return true
	}
	errOf := func(in *Interp, o Outcome) (isErr bool, g *ssa.Global) {
		e, ok := o.vals[2].(Iface)
		if !ok {
			giveUp("error result %T", o.vals[2])
		}
		if e.T == nil {
			return false, nil
		}
		return true, in.globalHolding(o.st, e)
	}
	for N := 1; N <= 10; N++ {
		N := N
		ok := run(fmt.Sprintf("varint of %d bytes", N), func(in *Interp, st *State, byteAt func(int) []Bit, n *Atom) bool {
			var rows []Bit
			for i := 0; i < N-1; i++ {
				rows = append(rows, byteAt(i)[7].not())
			}
			rows = append(rows, byteAt(N - 1)[7])
			if N == 10 {
				for j := 1; j < 7; j++ {
					rows = append(rows, byteAt(9)[j])
				}
			}
			return in.addLin(st.f, linA(n).addC(-int64(N))) && in.addGF(st.f, rows)
		}, func(in *Interp, o Outcome, byteAt func(int) []Bit, n *Atom) (string, string) {
			if e, _ := errOf(in, o); e {
				return "rejects", "reports an error"
			}
			want := make([]Bit, 64)
			for i := 0; i < N; i++ {
				b := byteAt(i)
				for j := 0; j < 7 && i*7+j < 64; j++ {
					want[i*7+j] = b[j]
				}
			}
			if in.decide(o.st, in.mkEqInt(o.vals[0].(Int), Int{W: 64, bits: want})) != 1 {
				return "value", "returns the value " + in.T.showInt(o.vals[0].(Int))
			}
			if in.decideLinZero(o.st.f, in.T.toLin(o.vals[1].(Int)).addC(-int64(N))) != 1 {
				return "value", "reports a length of " + in.T.showInt(o.vals[1].(Int))
			}
			return "", ""
		})
		if !ok {
			return
		}
	}
	inRange := func(in *Interp, o Outcome, n *Atom) (string, string) {
		c := in.T.toLin(o.vals[1].(Int))
		if !in.entails(o.st.f, c) || !in.entails(o.st.f, linA(n).sub(c)) {
			return "bounds", "reports a length of " + c.String() + ", outside its input"
		}
		return "", ""
	}
	first := true
	for n0 := 0; n0 <= 10; n0++ {
		n0 := n0
		ok := run(fmt.Sprintf("truncated varint of %d bytes", n0), func(in *Interp, st *State, byteAt func(int) []Bit, n *Atom) bool {
			var rows []Bit
			for i := 0; i < n0; i++ {
				rows = append(rows, byteAt(i)[7].not())
			}
			return in.addLin(st.f, linA(n).addC(-int64(n0))) && in.addLin(st.f, linA(n).neg().addC(int64(n0))) && in.addGF(st.f, rows)
		}, func(in *Interp, o Outcome, byteAt func(int) []Bit, n *Atom) (string, string) {
			e, g := errOf(in, o)
			if !e {
				return "truncated", "reports no error"
			}
			if n0 < 10 {
				if first {
					v.errT, first = g, false
				} else if g != v.errT {
					v.errT = nil
				}
			}
			return inRange(in, o, n)
		})
		if !ok {
			return
		}
	}
	first = true
	over := func(in *Interp, o Outcome, byteAt func(int) []Bit, n *Atom) (string, string) {
		e, g := errOf(in, o)
		if !e {
			return "overflow", "reports no error"
		}
		if first {
			v.errO, first = g, false
		} else if g != v.errO {
			v.errO = nil
		}
		return inRange(in, o, n)
	}
	for hb := 1; hb < 7; hb++ {
		hb := hb
		if !run("varint of more than 64 bits", func(in *Interp, st *State, byteAt func(int) []Bit, n *Atom) bool {
			var rows []Bit
			for i := 0; i < 9; i++ {
				rows = append(rows, byteAt(i)[7].not())
			}
			rows = append(rows, byteAt(9)[7], byteAt(9)[hb].not())
			for j := hb + 1; j < 7; j++ {
				rows = append(rows, byteAt(9)[j])
			}
			return in.addLin(st.f, linA(n).addC(-10)) && in.addGF(st.f, rows)
		}, over) {
			return
		}
	}
	anyErr := func(in *Interp, o Outcome, byteAt func(int) []Bit, n *Atom) (string, string) {
		if e, _ := errOf(in, o); !e {
			return "overflow", "reports no error"
		}
		return inRange(in, o, n)
	}
	run("varint of more than 10 bytes", func(in *Interp, st *State, byteAt func(int) []Bit, n *Atom) bool {
		var rows []Bit
		for i := 0; i < 10; i++ {
			rows = append(rows, byteAt(i)[7].not())
		}
		return in.addLin(st.f, linA(n).addC(-11)) && in.addGF(st.f, rows)
	}, anyErr)
}

// globalHolding finds the package variable that holds this error value.
func (in *Interp) globalHolding(st *State, e Iface) *ssa.Global {
	for g, o := range in.globals {
		if !types.IsInterface(o.typ) {
			continue
		}
		var v Val
		if msg := guard(func() { v = in.loadLeaf(st, ptrTo(o), leaves(o.typ)[0]) }); msg != "" {
			continue
		}
		if i, ok := v.(Iface); ok && i.T != nil && in.sameVal(st, i, e) {
			return g
		}
	}
	return nil
}

// subInterp starts a fresh analysis in the state after package initialisation.
func (p *Program) subInterp() (*Interp, *State) {
	in := newInterp(p)
	in.quiet = 1
	in.noModel = true
	st := newState()
	in.pushRoot()
	// package variables the readers return: initialise lazily by running the package initialisers
	st = in.runInit(st)
	in.quiet = 0
	in.findings, in.seen = nil, map[string]bool{}
	in.onBackEdge = func(L *Loop, b backEdge, back map[*Atom]*Lin) {
		in.backEdges = append(in.backEdges, b.s.st.eventsSince(b.head.ev))
	}
	return in, st
}

// effects: what a primitive does besides computing its result. A function with
// effects is not summarised but followed at every call.
func (v *contractVerdict) effects(in *Interp, st0 *Event, o Outcome, own *Obj) bool {
	if len(in.findings) > 0 {
		v.fail("effects", "%s: %s", in.findings[0].Rule, in.findings[0].Msg)
		return true
	}
	evs := o.st.eventsSince(st0)
	for _, b := range in.backEdges {
		evs = append(evs, b...)
	}
	for _, e := range evs {
		switch e.kind {
		case "readinput", "alloc", "append":
		case "store":
			if e.obj != nil && e.obj != own && (e.obj.input || e.obj.sym || o.st.pub.m[e.obj]) {
				v.fail("effects", "it writes %s", e.obj.name)
				return true
			}
		case "put", "mapset", "mapassign":
			v.fail("effects", "it uses shared memory")
			return true
		}
	}
	return false
}

// pushRoot provides a frame for analysis-level operations.
func (in *Interp) pushRoot() {
	in.stack = append(in.stack, &Frame{fn: in.P.protoPkg.Func("init"), env: map[ssa.Value]Val{}})
}

func (in *Interp) runInit(st *State) *State {
	fn := in.P.protoPkg.Func("init")
	in.initPkg = in.P.protoPkg
	outs := in.callFunc(st, fn, nil, nil)
	if len(outs) != 1 || outs[0].panic {
		msg := ""
		if len(outs) > 0 {
			msg = outs[0].fault
		}
		giveUp("package initialisation of %s has %d outcomes %s", in.P.protoPkg.Pkg.Path(), len(outs), msg)
	}
	in.initDone = true
	st = outs[0].st
	var objs []*Obj
	for _, o := range in.globals {
		objs = append(objs, o)
	}
	for _, o := range objs { // what package variables refer to is shared
		in.publish(st, ptrTo(o))
	}
	return st
}

// ---- use ----

type varintRead struct {
	st   *State
	kind int // 0 ok, 1 truncated, 2 overflow
	x    Int
	n    *Lin
}

func vkey(p Ptr) string { return fmt.Sprintf("%s@[%s]", p.Obj.name, p.Off.Key()) }

// varint atoms at an address of the input.
func (in *Interp) vx(p Ptr) Int {
	return intL(linA(in.T.atom("vx("+vkey(p)+")", 64, false)), 64, false)
}
func (in *Interp) vt(p Ptr) *Atom {
	a := in.T.atomR("vt("+vkey(p)+")", 64, true, big1, pow2(47))
	if a.vpos == nil {
		q := p
		a.vpos = &q
	}
	return a
}
func (in *Interp) vov(p Ptr) *Cond {
	return &Cond{kind: cOp, key: "ov(" + vkey(p) + ")", desc: "overlong varint at " + p.Off.String()}
}

// readVarint splits on the well-formedness of the varint at the start of b.
func (in *Interp) readVarint(st *State, b Slice) []varintRead {
	if in.decideLinZero(st.f, b.Len) == 1 {
		return []varintRead{{st: st, kind: 1}}
	}
	o := b.Data.Obj
	if o == nil {
		if !in.assume(st, mkLinEQ(b.Len)) {
			return nil
		}
		return []varintRead{{st: st, kind: 1}}
	}
	if o.kind != oArr || !o.buf0 || !o.sym {
		giveUp("varint read from %s", o.name)
	}
	if ct := st.content(o); ct != nil && (len(ct.c) > 0 || len(ct.s) > 0 || ct.gen != 0) {
		giveUp("varint read from the modified %s", o.name)
	}
	t := in.vt(b.Data)
	st.event(Event{kind: "varint", obj: o, off: b.Data.Off, size: b.Len, pos: in.curPos(), fn: in.curFn()})
	var out []varintRead
	for _, br := range in.splitCond(st, mkGE(b.Len.sub(linA(t)))) {
		if !br.val {
			out = append(out, varintRead{st: br.st, kind: 1})
			continue
		}
		for _, b2 := range in.splitCond(br.st, in.vov(b.Data)) {
			if b2.val {
				out = append(out, varintRead{st: b2.st, kind: 2})
				continue
			}
			b2.st.f = b2.st.f.clone()
			if !in.addLin(b2.st.f, linA(t).neg().addC(10)) {
				continue
			}
			out = append(out, varintRead{st: b2.st, kind: 0, x: in.vx(b.Data), n: linA(t)})
		}
	}
	return out
}

func (in *Interp) applyContract(st *State, fn *ssa.Function, v *contractVerdict, args []Val) []Outcome {
	in.fnsSeen[fn] = true
	switch v.kind {
	case ckSize:
		x := args[0].(Int)
		w, s := intInfo(fn.Signature.Results().At(0).Type())
		n := in.vlenLin(in.normInt(st, unsigned64(in, x)))
		return ret(st, Int{W: w, Signed: s, lin: n})
	case ckAppend:
		items := in.varItems(st, unsigned64(in, args[1].(Int)))
		var outs []Outcome
		for _, r := range in.appendItems(st, args[0].(Slice), items, in.curPos()) {
			outs = append(outs, Outcome{st: r.st, vals: []Val{r.s}})
		}
		return outs
	}
	b := args[0].(Slice)
	if b.Data.Obj != nil && !(b.Data.Obj.kind == oArr && b.Data.Obj.buf0 && b.Data.Obj.sym) {
		return nil
	}
	var outs []Outcome
	w0, s0 := intInfo(fn.Signature.Results().At(0).Type())
	for _, r := range in.readVarint(st, b) {
		if r.kind == 0 {
			outs = append(outs, Outcome{st: r.st, vals: []Val{Int{W: w0, Signed: s0, lin: r.x.lin}, goInt(r.n), Iface{}}})
			continue
		}
		g := v.errT
		if r.kind == 2 {
			g = v.errO
		}
		var e Val
		if g != nil {
			o := in.globalObj(g)
			e = in.loadLeaf(r.st, ptrTo(o), leaves(o.typ)[0])
		} else {
			e = in.opaqueError("varint error")
		}
		in.nextSym++
		a := in.T.atomR(fmt.Sprintf("consumed~%d", in.nextSym), 64, true, big0, pow2(47))
		r.st.f = r.st.f.clone()
		if !in.addLin(r.st.f, b.Len.sub(linA(a))) {
			continue
		}
		y := in.T.atom(fmt.Sprintf("junk~%d", in.nextSym), 64, false)
		r.st.event(Event{kind: "varint-error", obj: b.Data.Obj, off: b.Data.Off, size: b.Len, aux: r.kind, pos: in.curPos(), fn: in.curFn()})
		outs = append(outs, Outcome{st: r.st, vals: []Val{Int{W: w0, Signed: s0, lin: linA(y)}, goInt(linA(a)), e}})
	}
	if outs == nil {
		outs = []Outcome{}
	}
	return outs
}

func unsigned64(in *Interp, x Int) Int {
	if !x.Signed {
		return x
	}
	if x.lin != nil && x.lin.isConst() {
		return intL(linB(wrapBig(x.lin.k, 64, false)), 64, false)
	}
	if x.lin != nil {
		if a := x.lin.single(); a != nil && a.lo.Sign() >= 0 {
			return intL(x.lin, 64, false)
		}
	}
	return Int{W: 64, bits: in.T.toBits(x)}
}

var _ = big.NewInt
