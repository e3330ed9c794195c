package main

// Loops. A loop whose trip count the domain knows is followed iteration by
// iteration. Any other loop is summarised: the header state is generalised to
// an inductive invariant (constant / linear in the iteration number / generic
// integers with linear relations, byte sequences that only grow, havocked
// memory), which is then checked to be preserved by every path of the body.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	fn     *ssa.Function
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	exitIf bool // the head block itself decides whether to leave
}

func (in *Interp) loopsOf(fn *ssa.Function) []*natLoop {
	if l, ok := in.loopInfo[fn]; ok {
		return l
	}
	byHead := map[*ssa.BasicBlock]*natLoop{}
	var out []*natLoop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &natLoop{fn: fn, head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range out {
		if i, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
			_ = i
			l.exitIf = !l.blocks[l.head.Succs[0]] || !l.blocks[l.head.Succs[1]]
		}
	}
	in.loopInfo[fn] = out
	return out
}

func (in *Interp) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *natLoop {
	for _, l := range in.loopsOf(fn) {
		if l.head == b {
			return l
		}
	}
	return nil
}

type compMode int

const (
	cmSame compMode = iota
	cmInduct
	cmGeneric
)

// comp is one integer component of a carried variable.
type comp struct {
	mode    compMode
	v0      *Lin
	step    *big.Int
	g       *Atom
	bounded bool
	w       int
	signed  bool
	fresh   bool // mode chosen in this round
}

type lvKind int

const (
	lvComp lvKind = iota
	lvDisc        // discrete: partitions
	lvHavoc
	lvBuf
	lvArr // whole array content
)

type lvar struct {
	key     string
	phi     *ssa.Phi
	obj     *Obj
	leaf    leaf
	off     *Lin
	ghost   string
	kind    lvKind
	entry   Val
	comps   []*comp
	havoc   Val
	hobj    *Obj // lvBuf: the header buffer
	sumAtom *Lin // total length added by the loop
	bufN    *Atom
	gen     int
}

type LoopCase struct {
	st    *State
	conds []*Cond
	delta map[*Atom]*Lin // generic atom -> change in this case
	items map[int][]Item // buffer variable -> appended items
}

type Loop struct {
	nl       *natLoop
	id       int
	k        *Atom
	n        *Lin // trip count, once known
	vars     []*lvar
	cands    []*Lin
	cases    []LoopCase
	parts    int
	mark     *Event // last event before the loop
	head     *State
	headFr   *Frame
	headMark *Event
	ctx      *State
	objMark  int // objects created before the loop
}

func (l *Loop) genericVal(a *Atom) (*lvar, *comp) {
	for _, v := range l.vars {
		for _, c := range v.comps {
			if c.mode == cmGeneric && c.g == a {
				return v, c
			}
		}
	}
	return nil, nil
}

// header value substitutions at entry and at a back edge.
func (l *Loop) entrySubst() map[*Atom]*Lin {
	m := map[*Atom]*Lin{l.k: linC(0)}
	for _, v := range l.vars {
		for _, c := range v.comps {
			if c.mode == cmGeneric {
				m[c.g] = c.v0
			}
		}
	}
	return m
}

func substLin(l *Lin, m map[*Atom]*Lin) *Lin {
	// simultaneous substitution
	hit := false
	for _, x := range l.m {
		if _, ok := m[x.a]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	r := linB(l.k)
	for _, x := range l.m {
		if y, ok := m[x.a]; ok {
			r = linComb(r, big1, y, x.c)
		} else {
			r = linComb(r, big1, linA(x.a), x.c)
		}
	}
	return r
}

func (in *Interp) substVal(v Val, m map[*Atom]*Lin) Val {
	switch x := v.(type) {
	case Int:
		if x.lin != nil {
			return Int{W: x.W, Signed: x.Signed, lin: substLin(x.lin, m)}
		}
		l := in.T.toLin(x)
		if s := substLin(l, m); !s.eq(l) {
			return Int{W: x.W, Signed: x.Signed, lin: s}
		}
		return x
	case Ptr:
		return Ptr{x.Obj, substLin(x.Off, m)}
	case Slice:
		return Slice{Ptr{x.Data.Obj, substLin(x.Data.Off, m)}, substLin(x.Len, m), substLin(x.Cap, m)}
	case Str:
		return Str{Ptr{x.Data.Obj, substLin(x.Data.Off, m)}, substLin(x.Len, m), x.lit}
	case Tuple:
		t := make(Tuple, len(x))
		for i := range x {
			t[i] = in.substVal(x[i], m)
		}
		return t
	case Iface:
		if x.T != nil {
			return Iface{x.T, in.substVal(x.V, m)}
		}
	}
	return v
}

// ---- dependency of terms on an atom (by interned key) ----

func (in *Interp) dependsKey(key string, a *Atom) bool {
	ck := fmt.Sprintf("%d|%s", a.id, key)
	if r, ok := in.depMemo[ck]; ok {
		return r
	}
	in.depMemo[ck] = false
	r := false
	for i := 0; i < len(key) && !r; i++ {
		switch key[i] {
		case '#':
			j := i + 1
			for j < len(key) && key[j] >= '0' && key[j] <= '9' {
				j++
			}
			if n, err := strconv.Atoi(key[i+1 : j]); err == nil && n < len(in.T.list) {
				r = in.dependsAtom(in.T.list[n], a)
			}
			i = j - 1
		case '.':
			j := i + 1
			for j < len(key) && key[j] >= '0' && key[j] <= '9' {
				j++
			}
			if n, err := strconv.Atoi(key[i+1 : j]); err == nil && n>>7 < len(in.T.list) {
				r = in.dependsAtom(in.T.list[n>>7], a)
			}
			i = j - 1
		}
	}
	in.depMemo[ck] = r
	return r
}

func (in *Interp) dependsAtom(x, a *Atom) bool {
	if x == a {
		return true
	}
	if x.id < a.id && x.alias == nil && x.sum == nil && !strings.ContainsAny(x.key, "#.") {
		return false
	}
	return in.dependsKey(x.key, a)
}

func (in *Interp) dependsLin(l *Lin, a *Atom) bool {
	for _, m := range l.m {
		if in.dependsAtom(m.a, a) {
			return true
		}
	}
	return false
}

func (in *Interp) dependsBits(bs []Bit, a *Atom) bool {
	for _, b := range bs {
		for _, v := range b.v {
			if in.dependsAtom(in.T.list[v>>7], a) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) dependsCond(c *Cond, a *Atom) bool {
	if c.lin != nil && in.dependsLin(c.lin, a) || in.dependsBits(c.bits, a) {
		return true
	}
	return in.dependsKey(c.key, a)
}

// forget drops every fact that depends on a.
func (in *Interp) forget(f *Facts, a *Atom) *Facts {
	g := f.clone()
	g.lins, g.rng, g.gf, g.tv, g.negBZ, g.diseq = nil, nil, nil, nil, nil, nil
	for _, l := range f.lins {
		if !in.dependsLin(l, a) {
			g.lins = append(g.lins, l)
		}
	}
	for _, r := range f.rng {
		if !in.dependsAtom(r.a, a) {
			g.rng = append(g.rng, r)
		}
	}
	for _, r := range f.gf {
		if !in.dependsBits([]Bit{r}, a) {
			g.gf = append(g.gf, r)
		}
	}
	g.gfv = map[int]bool{}
	for _, r := range g.gf {
		for _, v := range r.v {
			g.gfv[v>>7] = true
		}
	}
	for _, t := range f.tv {
		if t.c != nil && in.dependsCond(t.c, a) || t.c == nil && in.dependsKey(t.key, a) {
			continue
		}
		g.tv = append(g.tv, t)
	}
	for _, b := range f.negBZ {
		if !in.dependsBits(b, a) {
			g.negBZ = append(g.negBZ, b)
		}
	}
	for _, l := range f.diseq {
		if !in.dependsLin(l, a) {
			g.diseq = append(g.diseq, l)
		}
	}
	return g
}

// ---- driver ----

const unrollLimit = 300

func (in *Interp) execLoop(l *natLoop, fr *Frame, st *State, from *ssa.BasicBlock) []Stop {
	type item struct {
		fr   *Frame
		st   *State
		from *ssa.BasicBlock
		n    int
	}
	var out []Stop
	work := []item{{fr, st, from, 0}}
	depth := len(in.stack)
	st0, fr0, nf := st.fork(), fr.clone(), len(in.findings)
	forked := false
	counted := func(f *Frame) bool { return in.countedHead(f, l) }
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		in.stack = in.stack[:depth]
		in.stack[depth-1] = w.fr
		keepSt, keepFr := w.st.fork(), w.fr.clone()
		split := false
		reg := &region{loop: l, trial: &split}
		stops := in.run(w.fr, w.st, l.head, w.from, reg)
		ways := 0
		if !split {
			stay, leave := false, false
			for _, s := range stops {
				if s.kind == stEdge && s.to == l.head {
					stay = true
				} else if s.kind != stPanic {
					leave = true
				} else {
					continue
				}
				ways++
			}
			// some paths stay in the loop and some leave it: how often it runs is open
			split = stay && leave && !counted(w.fr)
		}
		if split || w.n >= unrollLimit {
			in.stack = in.stack[:depth]
			if forked {
				// the unrolled iterations split the state: summarise from the start instead
				in.dropFindings(nf)
				in.stack[depth-1] = fr0
				return in.summarise(l, fr0, st0, from)
			}
			in.stack[depth-1] = keepFr
			out = append(out, in.summarise(l, keepFr, keepSt, w.from)...)
			continue
		}
		forked = forked || ways > 1 && !counted(w.fr)
		for _, s := range stops {
			if s.kind == stEdge && s.to == l.head {
				work = append(work, item{s.fr, s.st, s.from, w.n + 1})
				continue
			}
			out = append(out, s)
		}
		if len(out)+len(work) > 6000 {
			giveUp("too many paths in a loop of %s", l.fn)
		}
	}
	in.stack = in.stack[:depth]
	return out
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (in *Interp) phiVal(fr *Frame, p *ssa.Phi, from *ssa.BasicBlock) Val {
	for k, pb := range p.Block().Preds {
		if pb == from {
			return in.get(fr, p.Edges[k])
		}
	}
	panic("phi without edge")
}

// compLins splits a value into integer components.
func (in *Interp) compLins(v Val) ([]*Lin, bool) {
	switch x := v.(type) {
	case Int:
		return []*Lin{in.T.toLin(x)}, true
	case Ptr:
		if x.Obj == nil {
			return nil, false
		}
		return []*Lin{x.Off}, true
	case Slice:
		if x.Data.Obj == nil {
			return nil, false
		}
		return []*Lin{x.Data.Off, x.Len, x.Cap}, true
	case Str:
		if x.Data.Obj == nil {
			return nil, false
		}
		return []*Lin{x.Data.Off, x.Len}, true
	}
	return nil, false
}

func (in *Interp) rebuild(v Val, ls []*Lin) Val {
	switch x := v.(type) {
	case Int:
		return Int{W: x.W, Signed: x.Signed, lin: ls[0]}
	case Ptr:
		return Ptr{x.Obj, ls[0]}
	case Slice:
		return Slice{Ptr{x.Data.Obj, ls[0]}, ls[1], ls[2]}
	case Str:
		if ls[0].eq(x.Data.Off) && ls[1].eq(x.Len) {
			return x
		}
		return Str{Ptr{x.Data.Obj, ls[0]}, ls[1], nil}
	}
	return v
}

func sameShape(a, b Val) bool {
	switch x := a.(type) {
	case Int:
		_, ok := b.(Int)
		return ok
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.Obj == y.Obj
	case Slice:
		y, ok := b.(Slice)
		return ok && x.Data.Obj == y.Data.Obj
	case Str:
		y, ok := b.(Str)
		return ok && x.Data.Obj == y.Data.Obj
	}
	return false
}

// sameVal: the two values are equal in every concretisation of st.
func (in *Interp) sameVal(st *State, a, b Val) bool {
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		if !ok {
			return false
		}
		if x.W != y.W {
			return false
		}
		return in.decide(st, in.mkEqInt(x, y)) == 1
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.Obj != y.Obj {
			if ok {
				return in.decide(st, in.isNil(x)) == 1 && in.decide(st, in.isNil(y)) == 1
			}
			return false
		}
		return x.Obj == nil || in.decideLinZero(st.f, x.Off.sub(y.Off)) == 1
	case Slice:
		y, ok := b.(Slice)
		return ok && in.sameVal(st, x.Data, y.Data) && in.decideLinZero(st.f, x.Len.sub(y.Len)) == 1 && in.decideLinZero(st.f, x.Cap.sub(y.Cap)) == 1
	case Str:
		y, ok := b.(Str)
		if !ok {
			return false
		}
		if x.lit != nil && y.lit != nil {
			return *x.lit == *y.lit
		}
		return in.sameVal(st, x.Data, y.Data) && in.decideLinZero(st.f, x.Len.sub(y.Len)) == 1
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return false
		}
		dx, dy := in.decide(st, x.c), in.decide(st, y.c)
		if dx != 0 && dy != 0 {
			return dx == dy
		}
		return x.c.key == y.c.key && x.c.neg == y.c.neg && x.c.kind == y.c.kind && x.c.kind != cConst
	case Float:
		y, ok := b.(Float)
		return ok && floatKey(x) == floatKey(y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return types.Identical(x.T, y.T) && in.sameVal(st, x.V, y.V)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Intr != y.Intr || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !in.sameVal(st, x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case TypeW:
		y, ok := b.(TypeW)
		return ok && (x.T == nil && y.T == nil || x.T != nil && y.T != nil && types.Identical(x.T, y.T))
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !in.sameVal(st, x[i], y[i]) {
				return false
			}
		}
		return true
	case Agg:
		y, ok := b.(Agg)
		if !ok {
			return false
		}
		for _, l := range leaves(x.T) {
			p, q := x.L[l.off], y.L[l.off]
			if p == nil {
				p = in.zeroLeaf(l)
			}
			if q == nil {
				q = in.zeroLeaf(l)
			}
			if !in.sameVal(st, p, q) {
				return false
			}
		}
		return true
	case opaqueV:
		y, ok := b.(opaqueV)
		return ok && x.key == y.key
	case mapRef:
		y, ok := b.(mapRef)
		return ok && x == y
	case RVal:
		y, ok := b.(RVal)
		return ok && (x.T == nil && y.T == nil || x.T != nil && y.T != nil && types.Identical(x.T, y.T) && in.sameVal(st, x.V, y.V))
	case nil:
		return b == nil
	}
	return false
}

type sumr struct {
	in        *Interp
	L         *Loop
	nl        *natLoop
	fr0       *Frame
	st0       *State
	from      *ssa.BasicBlock
	mark      int // atoms interned before the loop
	objMark   int
	exitConds []*Cond
	dropped   map[string]bool
	havocTag  string
}

func (s *sumr) find(key string) *lvar {
	for _, v := range s.L.vars {
		if v.key == key {
			return v
		}
	}
	return nil
}

func (s *sumr) initVar(v *lvar) {
	in := s.in
	ls, ok := in.compLins(v.entry)
	if ok {
		v.kind = lvComp
		w, sg := 64, true
		if x, ok := v.entry.(Int); ok {
			w, sg = x.W, x.Signed
		}
		for _, l := range ls {
			v.comps = append(v.comps, &comp{v0: l, w: w, signed: sg, bounded: w == 64})
		}
		return
	}
	v.kind = lvDisc
}

// pickIter selects the iteration counter: shared by all loops at one nesting depth.
func (in *Interp) pickIter(st *State) *Atom {
	for i := 0; ; i++ {
		a := in.T.atomR(fmt.Sprintf("iter%d", i), 64, true, big0, pow2(50))
		if !st.iters[a] {
			return a
		}
	}
}

func (in *Interp) summarise(nl *natLoop, fr *Frame, st *State, from *ssa.BasicBlock) []Stop {
	st.env = nil
	in.stats.loops++
	in.nextLoop++
	L := &Loop{nl: nl, id: in.nextLoop, k: in.pickIter(st), mark: st.ev, objMark: in.nextObj}
	s := &sumr{in: in, L: L, nl: nl, fr0: fr, st0: st, from: from, mark: len(in.T.list), objMark: in.nextObj, dropped: map[string]bool{}}
	s.havocTag = fmt.Sprintf("hv~%s~%d", nl.fn.Name(), L.id)
	for _, p := range phisOf(nl.head) {
		v := &lvar{key: "phi:" + p.Name(), phi: p, entry: in.phiVal(fr, p, from)}
		s.initVar(v)
		L.vars = append(L.vars, v)
	}
	in.loopDepth++
	defer func() { in.loopDepth-- }()
	if in.loopDepth > 8 {
		giveUp("loops nested too deeply in %s", nl.fn)
	}
	// rounds whose assumptions do not turn out inductive leave no trace
	var r *explored
	for round := 0; ; round++ {
		if round > 60 {
			giveUp("no invariant found for a loop of %s", nl.fn)
		}
		nf := len(in.findings)
		if in.onLoop != nil {
			in.onLoop(L, s.st0)
		}
		r = s.explore()
		if s.refine(r) {
			in.dropFindings(nf)
			continue
		}
		break
	}
	// record the cases of one iteration
	L.parts = r.parts
	for _, b := range r.backs {
		L.cases = append(L.cases, s.mkCase(b))
		if in.onBackEdge != nil {
			in.stack[len(in.stack)-1] = b.s.fr
			in.onBackEdge(L, b, s.backSubst(b))
		}
	}
	var outs []Stop
	for _, x := range r.exits {
		outs = append(outs, s.finishExit(x))
	}
	return outs
}

type backEdge struct {
	s    Stop
	head *State
	vals map[*lvar]Val
	part int
}

type exitEdge struct {
	s      Stop
	atHead bool // left through the header test, before any part of an iteration
	head   *State
	late   bool // left from a back-edge state
}

type explored struct {
	backs []backEdge
	exits []exitEdge
	parts int
	heads []*State
}

// headVal gives a variable's value at the header.
func (s *sumr) headVal(v *lvar) Val {
	in := s.in
	switch v.kind {
	case lvDisc:
		return v.entry
	case lvHavoc:
		if v.havoc == nil {
			if v.phi != nil {
				v.havoc = in.havocVal(fmt.Sprintf("%s:%s", s.havocTag, v.key), v.phi.Type(), v.entry)
			} else {
				v.havoc = in.symLeaf(fmt.Sprintf("%s:%s@%s", s.havocTag, v.obj, v.off.Key()), v.leaf, v.obj.msg)
			}
		}
		return v.havoc
	case lvBuf:
		if v.hobj == nil {
			e := v.entry.(Slice)
			o := in.newObj(oBuf, "buf", types.Typ[types.Uint8])
			o.libNew = e.Data.Obj == nil || e.Data.Obj.libNew
			o.base = e.Data.Obj
			n := in.T.atomR(fmt.Sprintf("buflen~%d", o.id), 64, true, big0, maxSum)
			c := in.lenAtomBig(fmt.Sprintf("cap~%d", o.id))
			in.baseLins[c] = linA(c).sub(linA(n))
			o.size = linA(c)
			v.hobj, v.bufN = o, n
			v.comps = []*comp{{mode: cmGeneric, v0: e.Len, g: n, bounded: true, w: 64, signed: true}}
		}
		c := v.hobj.size
		return Slice{ptrTo(v.hobj), linA(v.bufN), c}
	}
	var ls []*Lin
	for i, c := range v.comps {
		switch c.mode {
		case cmSame:
			ls = append(ls, c.v0)
		case cmInduct:
			ls = append(ls, linComb(c.v0, big1, linA(s.L.k), c.step))
		default:
			if c.g == nil {
				c.g = in.T.atom(fmt.Sprintf("G~%d~%s~%d", s.L.id, v.key, i), c.w, c.signed)
			}
			if c.bounded && c.w == 64 {
				c.g.hi = maxSum
				if c.signed {
					c.g.lo = new(big.Int).Neg(maxSum)
				}
			} else {
				c.g.lo, c.g.hi = typeMin(c.w, c.signed), typeMax(c.w, c.signed)
			}
			ls = append(ls, linA(c.g))
		}
	}
	return in.rebuild(v.entry, ls)
}

func (in *Interp) lenAtomBig(key string) *Atom {
	return in.T.atomR(key, 64, true, big0, maxSum)
}

func (in *Interp) havocVal(key string, t types.Type, like Val) Val {
	ls := leaves(types.Unalias(t))
	if len(ls) != 1 || isAgg(types.Unalias(t)) {
		giveUp("loop-carried value of type %s", t)
	}
	switch ls[0].kind {
	case lInt, lBool, lFloat, lStr:
		return in.symLeaf(key, ls[0], false)
	}
	giveUp("loop-carried value of type %s", t)
	return nil
}

// build makes the header state of a partition.
func (s *sumr) build(disc map[*lvar]Val, heapFrom *State) (*State, *Frame) {
	in := s.in
	st := s.st0.fork()
	fr := s.fr0.clone()
	it := map[*Atom]bool{s.L.k: true}
	for a := range st.iters {
		it[a] = true
	}
	st.iters = it
	st.f = st.f.clone()
	if heapFrom != nil {
		s.eachChanged(s.st0, heapFrom, func(o *Obj, c *Content) {
			if o.id > s.objMark {
				st.h.m[o] = c
			}
		})
	}
	for _, v := range s.L.vars {
		val := s.headVal(v)
		if d, ok := disc[v]; ok && v.kind == lvDisc {
			val = d
		}
		s.assign(st, fr, v, val)
	}
	for _, c := range s.L.cands {
		if !in.addLin(st.f, c) {
			giveUp("contradictory loop invariant in %s", s.nl.fn)
		}
	}
	st.event(Event{kind: "loophead", aux: s.L, pos: in.curPos(), fn: s.nl.fn})
	return st, fr
}

func (s *sumr) assign(st *State, fr *Frame, v *lvar, val Val) {
	in := s.in
	switch {
	case v.phi != nil:
		fr.env[v.phi] = val
	case v.ghost != "":
		ct := st.mut(v.obj)
		g := map[string]Val{}
		for k, x := range ct.ghost {
			g[k] = x
		}
		g[v.ghost] = val
		ct.ghost = g
	case v.kind == lvArr:
		ct := st.mut(v.obj)
		ct.gen = v.gen
		ct.c = map[int64]cell{}
		ct.s = nil
		ct.copied = nil
	default:
		in.storeLeaf(st, Ptr{v.obj, v.off}, val, v.leaf)
	}
	if v.kind == lvBuf {
		s.setBuf(st, v)
	}
}

func (s *sumr) setBuf(st *State, v *lvar) {
	ct := st.mut(v.hobj)
	ct.seq = []Item{PrefixItem{fmt.Sprintf("acc~%d", v.hobj.id), linA(v.bufN)}}
}

func (s *sumr) readVar(st *State, fr *Frame, v *lvar, from *ssa.BasicBlock) Val {
	in := s.in
	switch {
	case v.phi != nil:
		return in.phiVal(fr, v.phi, from)
	case v.ghost != "":
		if ct := st.content(v.obj); ct != nil {
			return ct.ghost[v.ghost]
		}
		return nil
	case v.kind == lvArr:
		return nil
	}
	return in.loadLeaf(st, Ptr{v.obj, v.off}, v.leaf)
}

// eachChanged visits the objects whose content differs (by identity) from base's.
func (s *sumr) eachChanged(base, st *State, f func(o *Obj, c *Content)) { eachChanged(base, st, f) }

func eachChanged(base, st *State, f func(o *Obj, c *Content)) {
	var anc = map[*heapLayer]bool{}
	for l := base.h; l != nil; l = l.parent {
		anc[l] = true
	}
	seen := map[*Obj]bool{}
	var objs []*Obj
	for l := st.h; l != nil && !anc[l]; l = l.parent {
		for o := range l.m {
			if !seen[o] {
				seen[o] = true
				objs = append(objs, o)
			}
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		c := st.content(o)
		if c != base.content(o) {
			f(o, c)
		}
	}
}

func (s *sumr) discKey(v Val) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return x.T.String() + ":" + s.discKey(x.V)
	case Ptr:
		if x.Obj == nil {
			return "nil"
		}
		return fmt.Sprintf("%s~%d+%s", x.Obj.name, x.Obj.id, x.Off.Key())
	case Slice:
		return s.discKey(x.Data) + "," + x.Len.Key() + "," + x.Cap.Key()
	case Str:
		if x.lit != nil {
			return strconv.Quote(*x.lit)
		}
		return s.discKey(x.Data) + "," + x.Len.Key()
	case Bool:
		return x.c.String()
	case FuncV:
		return fmt.Sprintf("%p%s%d", x.Fn, x.Intr, len(x.Bind))
	case Tuple:
		var p []string
		for _, e := range x {
			p = append(p, s.discKey(e))
		}
		return strings.Join(p, ";")
	case Int:
		return s.in.T.toLin(x).Key()
	}
	return show(s.in, v)
}

func (s *sumr) explore() *explored {
	in := s.in
	depth := len(in.stack)
	r := &explored{}
	type part struct {
		disc map[*lvar]Val
		heap *State
	}
	sig := func(d map[*lvar]Val) string {
		var b strings.Builder
		for _, v := range s.L.vars {
			if v.kind == lvDisc {
				x, ok := d[v]
				if !ok {
					x = v.entry
				}
				b.WriteString(v.key + "=" + s.discKey(x) + "|")
			}
		}
		return b.String()
	}
	entryDisc := map[*lvar]Val{}
	for _, v := range s.L.vars {
		if v.kind == lvDisc {
			entryDisc[v] = v.entry
		}
	}
	queue := []part{{entryDisc, nil}}
	seen := map[string]bool{sig(entryDisc): true}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		pi := r.parts
		r.parts++
		if r.parts > 24 {
			if os.Getenv("DBGLOOP") != "" {
				for x := range seen {
					println(x)
				}
			}
			giveUp("too many distinct states at the head of a loop of %s", s.nl.fn)
		}
		st, fr := s.build(p.disc, p.heap)
		mySig := sig(p.disc)
		head := st.fork()
		head.ev.val = head
		r.heads = append(r.heads, head)
		if s.L.head == nil || pi == 0 {
			s.L.head, s.L.headFr, s.L.headMark = head, fr.clone(), head.ev
		}
		in.stack = in.stack[:depth]
		in.stack[depth-1] = fr
		reg := &region{loop: s.nl, exitConds: &s.exitConds}
		for _, x := range in.run(fr, st, s.nl.head, nil, reg) {
			if !(x.kind == stEdge && x.to == s.nl.head) {
				r.exits = append(r.exits, exitEdge{s: x, head: head, atHead: x.kind == stEdge && x.from == s.nl.head})
				continue
			}
			in.stack = in.stack[:depth]
			in.stack[depth-1] = x.fr
			if h := x.st.locks.held(); h != head.locks.held() {
				in.report(x.st, "lock-kept", fmt.Sprintf("an iteration ends holding {%s}, the next begins with {%s}", h, head.locks.held()), "C27", "C15")
			}
			vals := map[*lvar]Val{}
			disc := map[*lvar]Val{}
			changed := false
			for _, v := range s.L.vars {
				vals[v] = s.readVar(x.st, x.fr, v, x.from)
				if v.kind == lvDisc {
					disc[v] = vals[v]
					if d, ok := p.disc[v]; !ok || !in.sameVal(x.st, d, vals[v]) {
						changed = true
					} else {
						disc[v] = d
					}
				}
			}
			if changed {
				// does the loop end right here?
				st2, fr2 := x.st.fork(), x.fr.clone()
				in.stack = in.stack[:depth]
				in.stack[depth-1] = fr2
				again := false
				r2 := &region{loop: s.nl}
				in.quiet++
				h1, h2 := in.onBackEdge, in.onLoop
				in.onBackEdge, in.onLoop = nil, nil
				ss := in.run(fr2, st2, s.nl.head, x.from, r2)
				in.onBackEdge, in.onLoop = h1, h2
				in.quiet--
				for _, y := range ss {
					if y.kind == stEdge && y.to == s.nl.head {
						again = true
					}
				}
				if !again {
					for _, y := range ss {
						r.exits = append(r.exits, exitEdge{s: y, head: head, late: true})
					}
					continue
				}
			}
			r.backs = append(r.backs, backEdge{s: x, head: head, vals: vals, part: pi})
			widen := false
			for _, v := range s.L.vars {
				if v.kind == lvDisc && v.phi == nil && v.ghost == "" && !in.sameVal(x.st, v.entry, vals[v]) && (s.fresh(vals[v]) || v.obj.msg || v.obj.sym) {
					widen = true // refine gives this variable up
				}
				if v.kind == lvDisc && !in.sameVal(x.st, v.entry, vals[v]) {
					if sl, ok := vals[v].(Slice); ok && s.bufGrown(v, sl, r.backs[len(r.backs)-1]) {
						widen = true // refine makes it a buffer
					}
				}
			}
			if changed && !widen {
				sg := sig(disc)
				if sg != mySig && !seen[sg] {
					seen[sg] = true
					queue = append(queue, part{disc, x.st})
				}
			}
		}
	}
	in.stack = in.stack[:depth]
	return r
}

// backSubst maps the header atoms to their values at the back edge.
func (s *sumr) backSubst(b backEdge) map[*Atom]*Lin {
	in := s.in
	m := map[*Atom]*Lin{s.L.k: linA(s.L.k).addC(1)}
	for _, v := range s.L.vars {
		if v.kind == lvBuf {
			if x, ok := b.vals[v].(Slice); ok {
				m[v.bufN] = x.Len
			}
			continue
		}
		if v.kind != lvComp {
			continue
		}
		ls, ok := in.compLins(b.vals[v])
		if !ok {
			continue
		}
		for i, c := range v.comps {
			if c.mode == cmGeneric {
				m[c.g] = ls[i]
			}
		}
	}
	return m
}

// refine weakens the invariant where a back edge contradicts it; false when it is inductive.
func (s *sumr) refine(r *explored) bool {
	in := s.in
	changed := false
	newGeneric := false
	for _, v := range s.L.vars {
		for _, c := range v.comps {
			c.fresh = false
		}
	}
	mkGeneric := func(c *comp) {
		c.mode = cmGeneric
		changed = true
		newGeneric = true
	}
	for _, b := range r.backs {
		in.stack[len(in.stack)-1] = b.s.fr
		for _, v := range s.L.vars {
			bv, known := b.vals[v]
			if !known {
				continue // found while looking at another path of this round
			}
			switch v.kind {
			case lvComp:
				if v.phi == nil && v.ghost == "" && !sameShape(v.entry, bv) {
					// memory now refers elsewhere
					if sl, ok := bv.(Slice); ok && s.bufGrown(v, sl, b) {
						s.toBuf(v)
					} else {
						s.toHavoc(v)
					}
					changed = true
					continue
				}
				if !sameShape(v.entry, bv) {
					if sl, ok := bv.(Slice); ok && s.bufGrown(v, sl, b) {
						s.toBuf(v)
					} else {
						v.kind = lvDisc
						v.comps = nil
					}
					changed = true
					continue
				}
				ls, _ := in.compLins(bv)
				for i, c := range v.comps {
					switch c.mode {
					case cmSame:
						d := ls[i].sub(c.v0)
						if in.decideLinZero(b.s.st.f, d) == 1 {
							continue
						}
						if k, ok := d.constInt(); ok && k != 0 {
							c.mode = cmInduct
							c.step = bigI(k)
							c.fresh = true
							changed = true
							continue
						}
						mkGeneric(c)
					case cmInduct:
						if c.fresh { // the iteration was explored with the entry value
							if in.decideLinZero(b.s.st.f, ls[i].sub(c.v0).sub(linB(c.step))) != 1 {
								mkGeneric(c)
							}
							continue
						}
						d := linComb(c.v0, big1, linA(s.L.k).addC(1), c.step).sub(ls[i])
						if in.decideLinZero(b.s.st.f, d) == 1 {
							continue
						}
						mkGeneric(c)
					default:
						if c.bounded && c.g != nil {
							d := ls[i].sub(linA(c.g))
							if !in.entails(b.s.st.f, d) && !in.entails(b.s.st.f, d.neg()) {
								c.bounded = false
								changed = true
							}
						}
					}
				}
			case lvBuf:
				// memory that is overwritten rather than appended to
				if v.phi == nil && v.hobj != nil { // nil: it became a buffer in this very round
					if sl, ok := bv.(Slice); ok && !s.onlyGrows(v, sl, b) {
						s.toHavoc(v)
						changed = true
					}
				}
			case lvDisc:
				if v.phi == nil && v.ghost == "" {
					// memory holding something else: keep exact values only if they are not fresh objects
					d := v.entry
					if !in.sameVal(b.s.st, d, bv) && (s.fresh(bv) || v.obj.msg || v.obj.sym) {
						s.toHavoc(v)
						changed = true
					}
					continue
				}
				if bl, ok := bv.(Bool); ok && bl.c.kind != cConst && in.decide(b.s.st, bl.c) == 0 {
					s.toHavoc(v)
					changed = true
				}
				if f, ok := bv.(Float); ok && !in.sameVal(b.s.st, v.entry, f) {
					s.toHavoc(v)
					changed = true
				}
				if sl, ok := bv.(Slice); ok {
					if s.bufGrown(v, sl, b) {
						s.toBuf(v)
						changed = true
					}
				}
			}
		}
		// memory that the iteration changed
		s.eachChanged(b.head, b.s.st, func(o *Obj, c *Content) {
			if o.id > s.objMark && !s.isHeadObj(o) {
				return // created during the iteration
			}
			if strings.Contains(o.name, s.havocTag) {
				return // reachable only through havocked memory
			}
			if s.changedCells(o, b.head, b.s.st) {
				changed = true
			}
		})
	}
	if changed {
		if newGeneric {
			s.L.cands = nil
			s.candidates()
		}
		return true
	}
	// linear invariants
	if s.moreCandidates() {
		return true
	}
	var keep []*Lin
	for _, c := range s.L.cands {
		ok := true
		for _, b := range r.backs {
			if !in.entails(b.s.st.f, substLin(c, s.backSubst(b))) {
				ok = false
				break
			}
		}
		if ok {
			keep = append(keep, c)
		} else {
			s.dropped[c.Key()] = true
			changed = true
		}
	}
	s.L.cands = keep
	return changed
}

func (s *sumr) isHeadObj(o *Obj) bool {
	for _, v := range s.L.vars {
		if v.hobj == o {
			return true
		}
	}
	return false
}

func (s *sumr) fresh(v Val) bool {
	switch x := v.(type) {
	case Ptr:
		return x.Obj != nil && x.Obj.id > s.objMark
	case Slice:
		return s.fresh(x.Data)
	case Str:
		return s.fresh(x.Data)
	case Iface:
		return x.T != nil && s.fresh(x.V)
	}
	return false
}

func (s *sumr) toHavoc(v *lvar) {
	if v.phi != nil {
		switch v.entry.(type) {
		case Int, Bool, Float:
		default:
			giveUp("loop-carried value %s of %s", v.phi.Name(), s.nl.fn)
		}
	}
	if v.ghost != "" {
		giveUp("iterator state in a loop of %s", s.nl.fn)
	}
	v.kind = lvHavoc
	v.comps = nil
}

// bufGrown: the back-edge value is the header's byte slice with something appended.
func (s *sumr) bufGrown(v *lvar, sl Slice, b backEdge) bool {
	o := sl.Data.Obj
	if o == nil || o.kind != oBuf || !sl.Data.Off.isConst() || sl.Data.Off.k.Sign() != 0 {
		return false
	}
	e, ok := v.entry.(Slice)
	if !ok {
		return false
	}
	if e.Data.Obj != nil && !(e.Data.Off.isConst() && e.Data.Off.k.Sign() == 0) {
		return false
	}
	for x := o; x != nil; x = x.base {
		if x == e.Data.Obj {
			return true
		}
	}
	return e.Data.Obj == nil
}

func (s *sumr) onlyGrows(v *lvar, sl Slice, b backEdge) (ok bool) {
	if sl.Data.Obj == v.hobj {
		return true
	}
	defer func() {
		if e := recover(); e != nil {
			if _, und := e.(undecided); !und {
				panic(e)
			}
			ok = false
		}
	}()
	seq := s.in.contentOf(b.s.st.fork(), sl.Data, sl.Len)
	if len(seq) > 0 {
		p, isP := seq[0].(PrefixItem)
		return isP && p.n.eq(linA(v.bufN))
	}
	return false
}

func (s *sumr) toBuf(v *lvar) {
	v.kind = lvBuf
	v.comps = nil
}

// changedCells adds the parts of o that the iteration changed to the carried variables.
func (s *sumr) changedCells(o *Obj, h, b *State) bool {
	in := s.in
	hc, bc := h.content(o), b.content(o)
	if hc == nil {
		hc = &Content{}
	}
	if v := s.find(fmt.Sprintf("arr:%d", o.id)); v != nil {
		return false
	}
	changed := false
	for g, bv := range bc.ghost {
		if in.sameVal(b, hc.ghost[g], bv) {
			continue
		}
		key := fmt.Sprintf("ghost:%d:%s", o.id, g)
		if s.find(key) != nil {
			continue
		}
		ev := Val(nil)
		if ec := s.st0.content(o); ec != nil {
			ev = ec.ghost[g]
		}
		if _, ok := bv.(Int); !ok || ev == nil {
			if _, isb := bv.(Bool); isb && ev == nil {
				// a ghost flag set during the loop: set it for good is not sound to assume either way
				giveUp("one-time initialisation inside a loop of %s", s.nl.fn)
			}
			giveUp("iterator created in a loop and used across iterations in %s", s.nl.fn)
		}
		v := &lvar{key: key, obj: o, ghost: g, entry: ev}
		s.initVar(v)
		s.L.vars = append(s.L.vars, v)
		changed = true
	}
	if len(bc.assoc) != len(hc.assoc) || len(bc.assoc) > 0 && &bc.assoc[0] != &hc.assoc[0] {
		same := len(bc.assoc) == len(hc.assoc)
		for i := range bc.assoc {
			if !same {
				break
			}
			same = bc.assoc[i].key == hc.assoc[i].key && in.sameVal(b, hc.assoc[i].v, bc.assoc[i].v)
		}
		if !same {
			giveUp("a map is updated in a loop of %s whose trip count is not known", s.nl.fn)
		}
	}
	if o.kind == oBuf {
		if !sameSeq(hc.seq, bc.seq) {
			giveUp("a byte buffer is modified in place in a loop of %s", s.nl.fn)
		}
		return changed
	}
	arr := o.kind == oArr
	sym := false
	for k, c := range bc.s {
		if hcell, ok := hc.s[k]; ok && hcell.size == c.size && in.sameVal(b, hcell.val, c.val) {
			continue
		}
		sym = true
	}
	if len(bc.copied) != len(hc.copied) || bc.gen != hc.gen {
		sym = true
	}
	if bc.dirty && !hc.dirty {
		giveUp("untracked write in a loop of %s", s.nl.fn)
	}
	for k, c := range bc.c {
		if hcell, ok := hc.c[k]; ok && hcell.size == c.size && in.sameVal(b, hcell.val, c.val) {
			continue
		}
		if arr {
			sym = true
			continue
		}
		l, _, lo, ok := typedLeafAt(o, linC(k))
		if !ok {
			giveUp("write to %s in a loop of %s", o.name, s.nl.fn)
		}
		// unchanged as a whole?
		hv := in.loadLeafQuiet(h, Ptr{o, lo}, l)
		bv := in.loadLeafQuiet(b, Ptr{o, lo}, l)
		if in.sameVal(b, hv, bv) {
			continue
		}
		key := fmt.Sprintf("cell:%d@%s", o.id, lo.Key())
		if s.find(key) != nil {
			continue
		}
		v := &lvar{key: key, obj: o, leaf: l, off: lo, entry: in.loadLeafQuiet(s.st0.fork(), Ptr{o, lo}, l)}
		s.initVar(v)
		if o.msg || o.sym {
			v.kind = lvHavoc
			v.comps = nil
		}
		s.L.vars = append(s.L.vars, v)
		changed = true
	}
	if sym {
		in.nextGen++
		s.L.vars = append(s.L.vars, &lvar{key: fmt.Sprintf("arr:%d", o.id), obj: o, kind: lvArr, gen: in.nextGen})
		changed = true
	}
	return changed
}

func sameSeq(a, b []Item) bool {
	if len(a) != len(b) {
		return false
	}
	return len(a) == 0 || &a[0] == &b[0]
}

// loadLeafQuiet reads a leaf without logging.
func (in *Interp) loadLeafQuiet(st *State, p Ptr, l leaf) Val {
	return in.loadLeaf(st, p, l)
}

// ---- linear candidates ----

func (s *sumr) addCand(l *Lin) bool {
	l = normLin(l)
	if l.isConst() {
		return false
	}
	k := l.Key()
	if s.dropped[k] {
		return false
	}
	for _, c := range s.L.cands {
		if c.Key() == k {
			return false
		}
	}
	// must hold at entry
	if !s.in.entails(s.st0.f, substLin(l, s.L.entrySubst())) {
		s.dropped[k] = true
		return false
	}
	s.L.cands = append(s.L.cands, l)
	return true
}

func (s *sumr) candidates() {
	var gs []*comp
	for _, v := range s.L.vars {
		s.headVal(v) // names the generic atoms
		for _, c := range v.comps {
			if c.mode == cmGeneric {
				gs = append(gs, c)
			}
		}
	}
	for i, a := range gs {
		d := linA(a.g).sub(a.v0)
		s.addCand(d)
		s.addCand(d.neg())
		s.addCand(linA(a.g))
		for _, b := range gs[i+1:] {
			e := linA(b.g).sub(b.v0)
			for _, l := range []*Lin{d.add(e), d.sub(e)} {
				s.addCand(l)
				s.addCand(l.neg())
			}
			// differences of the values themselves (e.g. off <= len)
			f := linA(b.g).sub(linA(a.g))
			s.addCand(f)
			s.addCand(f.neg())
		}
	}
}

func (s *sumr) moreCandidates() bool {
	added := false
	conds := s.exitConds
	s.exitConds = nil
	for _, c := range conds {
		var ls []*Lin
		if c.lin != nil {
			ls = append(ls, c.lin)
		}
		ls = append(ls, c.ifT...)
		ls = append(ls, c.ifF...)
		for _, l := range ls {
			rel, ok := false, true
			for _, m := range l.m {
				if m.a == s.L.k {
					rel = true
					continue
				}
				if v, _ := s.L.genericVal(m.a); v != nil {
					rel = true
					continue
				}
				if m.a.id >= s.mark {
					ok = false
				}
			}
			if !rel || !ok {
				continue
			}
			for _, x := range []*Lin{l, l.addC(1), l.neg(), l.neg().addC(1), l.addC(-1), l.neg().addC(-1)} {
				if s.addCand(x) {
					added = true
				}
			}
		}
	}
	return added
}

// ---- results ----

func (s *sumr) mkCase(b backEdge) LoopCase {
	in := s.in
	c := LoopCase{st: b.s.st, delta: map[*Atom]*Lin{}, items: map[int][]Item{}}
	for _, t := range b.s.st.f.tv[len(b.head.f.tv):] {
		if t.c == nil {
			continue
		}
		d := *t.c
		if d.kind != cConst {
			d.neg = !t.val
		}
		c.conds = append(c.conds, &d)
	}
	sub := s.backSubst(b)
	for i, v := range s.L.vars {
		for _, cp := range v.comps {
			if cp.mode == cmGeneric {
				if n, ok := sub[cp.g]; ok {
					c.delta[cp.g] = n.sub(linA(cp.g))
				}
			}
		}
		if v.kind == lvBuf {
			sl := b.vals[v].(Slice)
			seq := in.contentOf(b.s.st, sl.Data, sl.Len)
			if len(seq) > 0 {
				if p, ok := seq[0].(PrefixItem); ok && p.n.eq(linA(v.bufN)) {
					c.items[i] = seq[1:]
					continue
				}
			}
			if sl.Data.Obj == v.hobj {
				c.items[i] = nil
				continue
			}
			giveUp("a byte buffer does not only grow in a loop of %s", s.nl.fn)
		}
	}
	return c
}

// finishExit turns a way out of the loop into a state without the iteration counter where possible.
func (s *sumr) finishExit(x exitEdge) Stop {
	in := s.in
	st := x.s.st
	L := s.L
	if in.keepExit {
		st.event(Event{kind: "loopexit", aux: L, val: st.fork(), fn: s.nl.fn})
	} else {
		st.event(Event{kind: "loopexit", aux: L, fn: s.nl.fn})
	}
	if x.late || x.s.kind != stEdge {
		return x.s
	}
	n := in.tripCount(st, L)
	if n == nil {
		return x.s
	}
	// was any part of an iteration executed on this path? then k iterations are complete all the same,
	// but values of the unfinished one may be live: only substitute at the header.
	if !x.atHead && !s.headExit(x) {
		return x.s
	}
	sub := map[*Atom]*Lin{L.k: n}
	M := *L
	M.n = n
	Lx := &M
	Lx.ctx = s.st0
	for i, v := range L.vars {
		for _, c := range v.comps {
			if c.mode != cmGeneric {
				continue
			}
			pure := L.parts == 1
			for _, cs := range L.cases {
				d, ok := cs.delta[c.g]
				if !ok {
					pure = false
					break
				}
				for _, w := range L.vars {
					for _, c2 := range w.comps {
						if c2.mode == cmGeneric && in.dependsLin(d, c2.g) {
							pure = false
						}
					}
				}
			}
			if !pure {
				continue
			}
			a := in.sumLin(s, n, c.g)
			sub[c.g] = c.v0.add(a)
			if v.kind == lvBuf {
				w := *v
				w.sumAtom = a
				Lx.vars = append([]*lvar(nil), Lx.vars...)
				Lx.vars[i] = &w
			}
		}
	}
	fr := x.s.fr.clone()
	for val, v := range fr.env {
		if i, ok := val.(ssa.Instruction); ok && i.Block() != nil && s.nl.blocks[i.Block()] {
			fr.env[val] = in.substVal(v, sub)
		}
	}
	f := st.f.clone()
	var extra []*Lin
	for _, l := range f.lins {
		if in.dependsLin(l, L.k) {
			if y := substLin(l, sub); !in.dependsLin(y, L.k) {
				extra = append(extra, y)
			}
		}
	}
	st.f = f
	for i, v := range L.vars {
		switch {
		case v.kind == lvBuf:
			var seq []Item
			if e, ok := v.entry.(Slice); ok {
				seq = append(seq, in.contentOf(s.st0, e.Data, e.Len)...)
			}
			if _, ok := sub[v.bufN]; ok {
				if !in.sumIsZero(Lx, i) {
					seq = append(seq, LoopItem{Lx, i})
				}
			} else {
				seq = append(seq, PrefixItem{fmt.Sprintf("grown~%d", v.hobj.id), linA(v.bufN).sub(v.entry.(Slice).Len)})
			}
			ct := st.mut(v.hobj)
			ct.seq = seq
			if v.phi == nil {
				val := in.substVal(s.headVal(v), sub)
				in.storeLeaf(st, Ptr{v.obj, v.off}, val, v.leaf)
			}
		case v.phi != nil:
		case v.ghost != "" || v.kind == lvComp:
			cur := s.readVar(st, fr, v, nil)
			s.assign(st, fr, v, in.substVal(cur, sub))
		}
	}
	st.f = in.forget(st.f, L.k)
	for _, l := range extra {
		in.addLin(st.f, l)
	}
	it := map[*Atom]bool{}
	for a := range st.iters {
		if a != L.k {
			it[a] = true
		}
	}
	st.iters = it
	// zero-trip and non-negativity of the count
	in.addLin(st.f, n)
	return Stop{kind: stEdge, st: st, fr: fr, from: x.s.from, to: x.s.to}
}

func (in *Interp) sumIsZero(L *Loop, i int) bool {
	for _, c := range L.cases {
		if len(c.items[i]) > 0 {
			return false
		}
	}
	return true
}

// headExit: the path from the header to this exit executed no store and no carried update (e.g. a
// condition spread over several blocks).
func (s *sumr) headExit(x exitEdge) bool {
	for _, e := range x.s.st.eventsSince(s.L.headMark) {
		switch e.kind {
		case "loopexit", "readinput":
		default:
			return false
		}
	}
	return true
}

// tripCount finds N with k == N entailed.
func (in *Interp) tripCount(st *State, L *Loop) *Lin {
	lo, hi := in.rangeOf(st.f, L.k)
	if lo.Cmp(hi) == 0 {
		return linB(lo)
	}
	for _, l := range st.f.lins {
		c := l.coef(L.k)
		if c.Sign() == 0 || new(big.Int).Abs(c).Cmp(big1) != 0 {
			continue
		}
		// c*k + rest >= 0
		rest := l.sub(linA(L.k).scale(c))
		n := rest
		if c.Sign() > 0 {
			n = rest.neg()
		}
		if in.dependsLin(n, L.k) {
			continue
		}
		bad := false
		for _, m := range n.m {
			if v, _ := L.genericVal(m.a); v != nil {
				bad = true
			}
		}
		if bad {
			continue
		}
		for _, d := range []int64{0, -1, 1} {
			if in.decideLinZero(st.f, n.addC(d).sub(linA(L.k))) == 1 {
				return n.addC(d)
			}
		}
	}
	return nil
}

// ---- canonical sums ----

type sumRec struct {
	k     *Atom
	n     *Lin
	cases []sumCase
	atom  *Atom
	ctx   *State
}

type sumCase struct {
	conds []*Cond
	d     *Lin
}

// sumOf interns the sum over k < n of the change of g per iteration. Two sums
// are the same if on every jointly possible pair of cases the changes agree.
func (in *Interp) sumLin(s *sumr, n *Lin, g *Atom) *Lin {
	var kc *big.Int
	rest := false
	for _, c := range s.L.cases {
		d := c.delta[g]
		if kc == nil {
			kc = d.k
		} else if kc.Cmp(d.k) != 0 {
			kc = nil
			rest = true
			break
		}
		rest = rest || !d.isConst()
	}
	if kc == nil {
		kc = big0
	}
	total := n.scale(kc)
	if !rest {
		return total
	}
	return total.add(linA(in.sumOf(s, n, g, kc)))
}

func (in *Interp) sumOf(s *sumr, n *Lin, g *Atom, kc *big.Int) *Atom {
	L := s.L
	r := &sumRec{k: L.k, n: n, ctx: s.st0}
	nonneg := true
	for _, c := range L.cases {
		d := c.delta[g].sub(linB(kc))
		r.cases = append(r.cases, sumCase{c.conds, d})
		if !in.entails(c.st.f, d) {
			nonneg = false
		}
	}
	for _, o := range in.sums {
		if o.k == r.k && o.n.eq(r.n) && in.sameSum(s.st0, o, r) {
			return o.atom
		}
	}
	// the key mentions everything the sum depends on except the bound counter
	var sb strings.Builder
	fmt.Fprintf(&sb, "sum~%d[%s](", len(in.sums), strings.ReplaceAll(n.Key(), fmt.Sprintf("#%d", r.k.id), "k"))
	deps := map[int]bool{}
	for _, c := range r.cases {
		in.freeAtoms(c.d.Key(), r.k, deps)
		for _, cd := range c.conds {
			in.freeAtoms(cd.key, r.k, deps)
		}
	}
	var ids []int
	for i := range deps {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&sb, "#%d,", i)
	}
	sb.WriteString(")")
	lo := big0
	if !nonneg {
		lo = new(big.Int).Neg(maxSum)
	}
	r.atom = in.T.atomR(sb.String(), 64, true, lo, maxSum)
	r.atom.sum = L
	in.sums = append(in.sums, r)
	return r.atom
}

// freeAtoms collects the base atoms mentioned by a key, other than k itself.
func (in *Interp) freeAtoms(key string, k *Atom, out map[int]bool) {
	add := func(n int) {
		if n >= len(in.T.list) {
			return
		}
		a := in.T.list[n]
		if a == k || out[n] {
			return
		}
		if in.dependsAtom(a, k) {
			// mentions k inside: look through it
			if !in.freeSeen[[2]int{n, k.id}] {
				in.freeSeen[[2]int{n, k.id}] = true
				sub := map[int]bool{}
				in.freeAtoms(a.key, k, sub)
				in.freeMemo[[2]int{n, k.id}] = sub
			}
			for i := range in.freeMemo[[2]int{n, k.id}] {
				out[i] = true
			}
			return
		}
		out[n] = true
	}
	for i := 0; i < len(key); i++ {
		if key[i] != '#' && key[i] != '.' {
			continue
		}
		j := i + 1
		for j < len(key) && key[j] >= '0' && key[j] <= '9' {
			j++
		}
		if n, err := strconv.Atoi(key[i+1 : j]); err == nil {
			if key[i] == '.' {
				n >>= 7
			}
			add(n)
		}
		i = j - 1
	}
}

func (in *Interp) sameSum(ctx *State, a, b *sumRec) bool {
	for _, x := range a.cases {
		for _, y := range b.cases {
			if x.d.eq(y.d) {
				continue
			}
			st := ctx.fork()
			st.f = in.forget(st.f, a.k)
			if !in.addLin(st.f, a.n.sub(linA(a.k)).addC(-1)) {
				continue
			}
			ok := true
			for _, c := range append(append([]*Cond(nil), x.conds...), y.conds...) {
				if !in.assume(st, c) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			if in.decideLinZero(st.f, x.d.sub(y.d)) != 1 {
				return false
			}
		}
	}
	return true
}
