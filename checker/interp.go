package main

// Abstract interpretation of go/ssa, from the public API downwards. Every
// control-flow path is followed in the abstract domain; loops whose trip count
// the domain does not know are summarised by inductive invariants (loops.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Finding struct {
	seenKey string
	Rule    string
	Msg     string
	Pos     token.Pos
	Fn      string
	Where   string // scenario
	Props   []string
	PosStr  string // position, if not a token.Pos of the program
	Key     string // stable identity, for the known-findings file
}

type Interp struct {
	envRec    *envLog
	P         *Program
	T         *Terms
	nextObj   int
	symObjs   map[string]*Obj
	typeObjs  typeutil.Map
	baseLins  map[*Atom]*Lin
	baseUpper map[*Atom]*Lin // a second one
	lenOf     map[*Atom]*Lin // what a bit length is the length of
	quoOf     map[*Atom]*Lin // what a quotient is a fraction of
	litOf     map[*Obj]string
	boolAtoms map[*Atom]*Cond
	globals   map[*ssa.Global]*Obj
	loopInfo  map[*ssa.Function][]*natLoop
	stack     []*Frame
	findings  []Finding
	seen      map[string]bool
	scenario  string
	stats     struct{ fm, forks, calls, instrs, loops, paths int }
	budget    int
	nextSym   int

	onBackEdge  func(L *Loop, b backEdge, back map[*Atom]*Lin)
	keepExit    bool // remember the state at loop exits
	poolPut     map[string]*poolInfo
	poolChanged bool
	noModel     bool // interpret varint functions of the standard library instead of assuming what they do
	quiet       int
	backEdges   [][]*Event // what the iterations of loops did, in the analysis of a primitive
	fnsSeen     map[*ssa.Function]bool
	walkPhase   bool
	initDone    bool
	acc         map[accKey]accRec
	initPkg     *ssa.Package

	onLoop    func(L *Loop, entry *State)
	nextLoop  int
	nextGen   int
	loopDepth int
	depMemo   map[string]bool
	freeSeen  map[[2]int]bool
	freeMemo  map[[2]int]map[int]bool
	sums      []*sumRec
	fmMemo    map[hash2]bool
}

type poolEnt struct {
	kind  objKind
	typ   types.Type
	dyn   types.Type
	name  string
	size  *Lin
	dirty bool
	slice bool // a slice with elements of type typ
}

type poolInfo struct{ ents []poolEnt }

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Val
	bind      []Val
	args      []Val
	defers    []deferred
	instr     ssa.Instruction
	panicV    *Outcome // panic being handled (deferred functions running)
	recovered bool
	parent    *Frame
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

func (fr *Frame) clone() *Frame {
	g := *fr
	g.env = make(map[ssa.Value]Val, len(fr.env)+4)
	for k, v := range fr.env {
		g.env[k] = v
	}
	g.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	return &g
}

type Outcome struct {
	st    *State
	vals  []Val
	panic bool
	pv    Val    // panic value
	fault string // non-empty: a run-time fault (nil dereference, out of range, ...)
	pos   token.Pos
	fn    *ssa.Function
	fr    *Frame
}

func newInterp(p *Program) *Interp {
	in := &Interp{P: p, fmMemo: map[hash2]bool{}, T: newTerms(), symObjs: map[string]*Obj{}, baseLins: map[*Atom]*Lin{}, baseUpper: map[*Atom]*Lin{}, lenOf: map[*Atom]*Lin{}, quoOf: map[*Atom]*Lin{}, litOf: map[*Obj]string{},
		boolAtoms: map[*Atom]*Cond{}, globals: map[*ssa.Global]*Obj{}, loopInfo: map[*ssa.Function][]*natLoop{}, seen: map[string]bool{},
		poolPut: map[string]*poolInfo{}, budget: 4000000, fnsSeen: map[*ssa.Function]bool{},
		depMemo: map[string]bool{}, freeSeen: map[[2]int]bool{}, freeMemo: map[[2]int]map[int]bool{}}
	return in
}

func (in *Interp) curFrame() *Frame {
	if len(in.stack) == 0 {
		return nil
	}
	return in.stack[len(in.stack)-1]
}
func (in *Interp) curFn() *ssa.Function {
	if f := in.curFrame(); f != nil {
		return f.fn
	}
	return nil
}
func (in *Interp) curPos() token.Pos {
	// nearest instruction with a position, preferring functions of the repository
	for i := len(in.stack) - 1; i >= 0; i-- {
		f := in.stack[i]
		if f.instr != nil && f.instr.Pos().IsValid() {
			return f.instr.Pos()
		}
	}
	return token.NoPos
}

func (in *Interp) repoPos() (token.Pos, string) {
	for i := len(in.stack) - 1; i >= 0; i-- {
		f := in.stack[i]
		if in.P.inRepo(f.fn) {
			pos := f.fn.Pos()
			if f.instr != nil && f.instr.Pos().IsValid() {
				pos = f.instr.Pos()
			}
			return pos, f.fn.String()
		}
	}
	return token.NoPos, ""
}

func (in *Interp) report(st *State, rule, msg string, props ...string) {
	if in.quiet > 0 {
		return
	}
	pos, fn := in.repoPos()
	in.reportAt(rule, msg, pos, fn, props...)
}

func (in *Interp) reportAt(rule, msg string, pos token.Pos, fn string, props ...string) {
	if in.quiet > 0 {
		return
	}
	k := rule + "|" + msg + "|" + fn + "|" + in.scenario
	if in.seen[k] {
		return
	}
	in.seen[k] = true
	msg = brief(msg)
	in.findings = append(in.findings, Finding{seenKey: k, Rule: rule, Msg: msg, Pos: pos, Fn: fn, Where: in.scenario, Props: props})
}

// dropFindings forgets all findings but the first n.
func (in *Interp) dropFindings(n int) {
	for _, f := range in.findings[n:] {
		delete(in.seen, f.seenKey)
	}
	in.findings = in.findings[:n]
}

// ---- calls ----

func (in *Interp) callFunc(st *State, fn *ssa.Function, bind []Val, args []Val) []Outcome {
	if out, ok := in.intrinsic(st, fn, bind, args); ok {
		return out
	}
	if c := in.contractFor(fn); c != nil {
		if out := in.applyContract(st, fn, c, args); out != nil {
			return out
		}
	}
	if fn.Blocks == nil {
		giveUp("call of %s, which has no body and no model", fn)
	}
	if !in.P.mayInterpret(fn) {
		giveUp("call of %s, which is outside the analysed code and has no model", fn)
	}
	if len(in.stack) > 120 {
		giveUp("call depth exceeded at %s", fn)
	}
	in.stats.calls++
	in.fnsSeen[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, bind: bind, args: args, parent: in.curFrame()}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.env[f] = bind[i]
		}
	}
	in.stack = append(in.stack, fr)
	depth := len(in.stack)
	stops := in.run(fr, st, fn.Blocks[0], nil, nil)
	in.stack = in.stack[:depth-1]
	var outs []Outcome
	for _, s := range stops {
		outs = append(outs, in.finishStop(fn, s)...)
	}
	return outs
}

// finishStop turns the end of a function body into outcomes; a panic runs the deferred calls.
func (in *Interp) finishStop(fn *ssa.Function, s Stop) []Outcome {
	switch s.kind {
	case stRet:
		return []Outcome{{st: s.st, vals: s.vals}}
	case stPanic:
		o := s.out
		o.st = s.st
		if s.fr != nil && len(s.fr.defers) > 0 {
			return in.unwind(s.fr, o)
		}
		return []Outcome{o}
	}
	panic("edge stop leaving a function")
}

func (in *Interp) unwind(fr *Frame, o Outcome) []Outcome {
	in.stack = append(in.stack, fr)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	work := []struct {
		fr *Frame
		o  Outcome
	}{{fr, o}}
	var res []Outcome
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if len(w.fr.defers) == 0 {
			if w.fr.recovered {
				// resume at the recover block
				if rb := w.fr.fn.Recover; rb != nil {
					f2 := w.fr.clone()
					f2.recovered = false
					f2.panicV = nil
					in.stack[len(in.stack)-1] = f2
					for _, s := range in.run(f2, w.o.st, rb, nil, nil) {
						res = append(res, in.finishStop(w.fr.fn, s)...)
					}
				} else {
					var vals []Val
					r := w.fr.fn.Signature.Results()
					for i := 0; i < r.Len(); i++ {
						vals = append(vals, zeroVal(in, r.At(i).Type()))
					}
					res = append(res, Outcome{st: w.o.st, vals: vals})
				}
			} else {
				res = append(res, w.o)
			}
			continue
		}
		f2 := w.fr.clone()
		d := f2.defers[len(f2.defers)-1]
		f2.defers = f2.defers[:len(f2.defers)-1]
		oc := w.o
		if !f2.recovered {
			f2.panicV = &oc
		}
		in.stack[len(in.stack)-1] = f2
		for _, r := range in.callVal(oc.st, d.fn, d.args, d.call) {
			f3 := f2.clone()
			f3.recovered = f2.recovered
			if r.panic {
				f3.recovered = false
				work = append(work, struct {
					fr *Frame
					o  Outcome
				}{f3, r})
				continue
			}
			o2 := oc
			o2.st = r.st
			if v, ok := r.st.recoveredBy(f2); ok && v {
				f3.recovered = true
			}
			work = append(work, struct {
				fr *Frame
				o  Outcome
			}{f3, o2})
		}
	}
	return res
}

func (st *State) recoveredBy(fr *Frame) (bool, bool) {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == "recover" {
			return e.aux == interface{}(fr.panicV), true
		}
	}
	return false, false
}

func (in *Interp) callVal(st *State, f Val, args []Val, cc *ssa.CallCommon) []Outcome {
	fv, ok := f.(FuncV)
	if !ok {
		giveUp("call of %T", f)
	}
	if fv.Intr != "" {
		return in.intrinsicMethod(st, fv, args)
	}
	if fv.Fn == nil {
		return []Outcome{in.fault(st, "call of a nil function")}
	}
	return in.callFunc(st, fv.Fn, fv.Bind, args)
}

func (in *Interp) fault(st *State, msg string) Outcome {
	pos, _ := in.repoPos()
	return Outcome{st: st, panic: true, fault: msg, pos: pos, fn: in.curFn()}
}

// ---- running blocks ----

type stopKind int

const (
	stRet stopKind = iota
	stPanic
	stEdge
)

type Stop struct {
	kind     stopKind
	st       *State
	fr       *Frame
	vals     []Val
	out      Outcome
	from, to *ssa.BasicBlock
}

type region struct {
	loop      *natLoop
	trial     *bool // unrolling: set (and the path dropped) when it is open whether the loop ends
	exitConds *[]*Cond
}

type workItem struct {
	fr   *Frame
	st   *State
	blk  *ssa.BasicBlock
	pred *ssa.BasicBlock
	idx  int // next instruction; -1: at block entry (phis pending)
}

func (in *Interp) run(fr *Frame, st *State, blk, pred *ssa.BasicBlock, reg *region) []Stop {
	depth := len(in.stack)
	var stops []Stop
	var work []workItem
	push := func(w workItem) { work = append(work, w) }
	var edge func(fr *Frame, st *State, from, to *ssa.BasicBlock)
	edge = func(fr *Frame, st *State, from, to *ssa.BasicBlock) {
		if reg != nil && (to == reg.loop.head || !reg.loop.blocks[to]) {
			stops = append(stops, Stop{kind: stEdge, st: st, fr: fr, from: from, to: to})
			return
		}
		if l := in.loopAt(fr.fn, to); l != nil && !l.blocks[from] {
			in.stack = in.stack[:depth]
			in.stack[depth-1] = fr
			for _, s := range in.execLoop(l, fr, st, from) {
				if s.kind == stEdge {
					edge(s.fr, s.st, s.from, s.to)
				} else {
					stops = append(stops, s)
				}
			}
			return
		}
		push(workItem{fr, st, to, from, -1})
	}
	push(workItem{fr, st, blk, pred, -1})
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		in.stack = in.stack[:depth]
		in.stack[depth-1] = w.fr
		in.stepBlock(w, reg, &stops, push, edge)
		if len(stops)+len(work) > 6000 {
			giveUp("too many paths in %s", fr.fn)
		}
	}
	in.stack = in.stack[:depth]
	return stops
}

func (in *Interp) stepBlock(w workItem, reg *region, stops *[]Stop, push func(workItem), edge func(*Frame, *State, *ssa.BasicBlock, *ssa.BasicBlock)) {
	fr, st := w.fr, w.st
	idx := w.idx
	if idx < 0 {
		idx = 0
		var vals []Val
		var phis []*ssa.Phi
		for _, i := range w.blk.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			idx++
			if w.pred == nil { // loop head with preset phis
				continue
			}
			for k, pb := range w.blk.Preds {
				if pb == w.pred {
					vals = append(vals, in.get(fr, p.Edges[k]))
					phis = append(phis, p)
					break
				}
			}
		}
		for k, p := range phis {
			fr.env[p] = vals[k]
		}
	}
	for ; idx < len(w.blk.Instrs); idx++ {
		instr := w.blk.Instrs[idx]
		fr.instr = instr
		in.stats.instrs++
		in.budget--
		checkStop()
		if in.budget < 0 {
			giveUp("analysis budget exhausted in %s", fr.fn)
		}
		switch x := instr.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			edge(fr, st, w.blk, w.blk.Succs[0])
			return
		case *ssa.If:
			c, ok := in.get(fr, x.Cond).(Bool)
			if !ok {
				giveUp("branch on %T", in.get(fr, x.Cond))
			}
			d := in.decide(st, c.c)
			if d != 0 {
				s := w.blk.Succs[0]
				if d < 0 {
					s = w.blk.Succs[1]
				}
				edge(fr, st, w.blk, s)
				return
			}
			if reg != nil {
				e0, e1 := in.exits(reg.loop, w.blk.Succs[0]), in.exits(reg.loop, w.blk.Succs[1])
				if e0 != e1 {
					if reg.trial != nil && !in.countedHead(fr, reg.loop) {
						*reg.trial = true
						return
					}
					if reg.exitConds != nil {
						*reg.exitConds = append(*reg.exitConds, c.c)
					}
				}
			}
			in.stats.forks++
			st2 := st.fork()
			if in.assume(st2, c.c.not()) {
				edge(fr.clone(), st2, w.blk, w.blk.Succs[1])
			}
			if in.assume(st, c.c) {
				in.stack[len(in.stack)-1] = fr
				edge(fr, st, w.blk, w.blk.Succs[0])
			}
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, in.get(fr, r))
			}
			*stops = append(*stops, Stop{kind: stRet, st: st, fr: fr, vals: vals})
			return
		case *ssa.Panic:
			pos, _ := in.repoPos()
			*stops = append(*stops, Stop{kind: stPanic, st: st, fr: fr, out: Outcome{panic: true, pv: in.get(fr, x.X), pos: pos, fn: fr.fn}})
			return
		}
		outs := in.execInstr(fr, st, instr)
		if outs == nil {
			continue // plain: state and env updated in place
		}
		for k := range outs {
			o := &outs[k]
			if o.panic {
				*stops = append(*stops, Stop{kind: stPanic, st: o.st, fr: fr, out: *o})
				continue
			}
			f2 := fr
			if len(outs) > 1 {
				f2 = fr.clone()
			}
			if v, ok := instr.(ssa.Value); ok {
				switch len(o.vals) {
				case 1:
					f2.env[v] = o.vals[0]
				default:
					f2.env[v] = Tuple(o.vals)
				}
			}
			if o.fr != nil {
				f2.defers = o.fr.defers
			}
			push(workItem{f2, o.st, w.blk, w.pred, idx + 1})
		}
		return
	}
	giveUp("block of %s without terminator", fr.fn)
}

// countedHead: the loop's own test compares known integers, so unrolling it ends.
func (in *Interp) countedHead(fr *Frame, l *natLoop) bool {
	if !l.exitIf {
		return false
	}
	i := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if _, isConst := v.(*ssa.Const); !isConst {
			if _, ok := fr.env[v]; !ok {
				return false
			}
		}
		x, ok := in.get(fr, v).(Int)
		if !ok {
			return false
		}
		if _, ok := x.constBig(); !ok {
			return false
		}
	}
	return true
}

func (in *Interp) exits(l *natLoop, b *ssa.BasicBlock) bool { return !l.blocks[b] }

func (in *Interp) get(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(in, v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Global:
		return ptrTo(in.globalObj(v))
	case *ssa.Builtin:
		return FuncV{Intr: "builtin:" + v.Name()}
	}
	x, ok := fr.env[v]
	if !ok {
		giveUp("no value for %s in %s", v.Name(), fr.fn)
	}
	return x
}

func (in *Interp) globalObj(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	o := in.newObj(oMem, g.String(), g.Type().Underlying().(*types.Pointer).Elem())
	o.global = g
	in.globals[g] = o
	return o
}

// tracked: globals whose initialisation the analysis interprets.
func (in *Interp) tracked(g *ssa.Global) bool { return in.P.trackedPkg(g.Pkg) }

func (in *Interp) extGlobal(o *Obj, off *Lin, size int64) Val {
	// a package variable of another module: an opaque but fixed value
	k, _ := off.constInt()
	l, d, _, ok := typedLeafAt(o, off)
	if ok && l.kind == lIface {
		key := fmt.Sprintf("%s@%d", o.name, k-d)
		if types.IsInterface(l.typ) {
			if d == 0 {
				return TypeW{in.P.opaqueErr}
			}
			return ptrTo(in.symObj("ext:"+key, func() *Obj { return in.newObj(oOther, o.name, nil) }))
		}
	}
	giveUp("read of package variable %s", o.name)
	return nil
}

// execInstr executes one non-control instruction. A nil result means that fr
// and st were updated in place.
func (in *Interp) execInstr(fr *Frame, st *State, instr ssa.Instruction) (outs []Outcome) {
	depth := len(in.stack)
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(memErr); ok {
				in.stack = in.stack[:depth]
				in.stack[depth-1] = fr
				outs = append(outs, in.fault(st, m.msg))
				return
			}
			if u, ok := r.(undecided); ok && u.fn == nil {
				u.pos, _ = in.repoPos()
				u.fn = in.curFn()
				panic(u)
			}
			panic(r)
		}
	}()
	set := func(v Val) []Outcome {
		fr.env[instr.(ssa.Value)] = v
		return nil
	}
	switch x := instr.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		kind := oMem
		o := in.newObj(kind, fmt.Sprintf("%s:%s", fr.fn.Name(), x.Comment), t)
		o.libNew = true
		o.zero = true
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() > 256 {
			o.kind = oArr
			o.typ = at.Elem()
			o.size = linC(sizeof(t))
		}
		st.mut(o)
		return set(ptrTo(o))
	case *ssa.BinOp:
		return in.binop(fr, st, x)
	case *ssa.UnOp:
		return in.unop(fr, st, x)
	case *ssa.Call:
		return in.call(fr, st, &x.Call)
	case *ssa.Defer:
		var args []Val
		f, args := in.prepCall(fr, st, &x.Call)
		fr.defers = append(fr.defers, deferred{f, args, &x.Call})
		return nil
	case *ssa.RunDefers:
		return in.runDefers(fr, st)
	case *ssa.ChangeType:
		return set(in.get(fr, x.X))
	case *ssa.ChangeInterface:
		return set(in.get(fr, x.X))
	case *ssa.Convert:
		return in.convert(fr, st, x.X, x.Type(), x)
	case *ssa.MultiConvert:
		return in.convert(fr, st, x.X, x.Type(), x)
	case *ssa.MakeInterface:
		v := in.get(fr, x.X)
		return set(Iface{types.Unalias(x.X.Type()), v})
	case *ssa.MakeClosure:
		var b []Val
		for _, e := range x.Bindings {
			b = append(b, in.get(fr, e))
		}
		return set(FuncV{Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.MakeMap:
		o := in.newObj(oMap, "map:"+fr.fn.Name(), x.Type())
		o.libNew = true
		o.count = nil
		st.mut(o)
		return set(ptrTo(o))
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n := in.linOf(st, in.get(fr, x.Len).(Int))
		c := in.linOf(st, in.get(fr, x.Cap).(Int))
		if !in.entails(st.f, n) || !in.entails(st.f, c.sub(n)) {
			bad := st.fork()
			f := in.fault(bad, fmt.Sprintf("make: length %s or capacity %s may be out of range", n, c))
			outs = append(outs, f)
		}
		s := in.makeSlice(st, el, n, c)
		if outs == nil {
			return set(s)
		}
		return append(outs, Outcome{st: st, vals: []Val{s}})
	case *ssa.Store:
		p := in.asPtr(in.get(fr, x.Addr))
		return in.withNonNil(st, p, func(st *State) []Outcome {
			in.store(st, p, in.get(fr, x.Val), x.Val.Type())
			return nil
		})
	case *ssa.FieldAddr:
		p := in.asPtr(in.get(fr, x.X))
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := fieldOffset(stt, x.Field)
		if p.Obj == nil {
			return []Outcome{in.fault(st, "field access through a nil pointer")}
		}
		return in.withNonNil(st, p, func(st *State) []Outcome {
			fr.env[x] = Ptr{p.Obj, p.Off.addC(off)}
			return nil
		})
	case *ssa.Field:
		v := in.get(fr, x.X)
		return set(in.field(v, x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		return in.indexAddr(fr, st, x)
	case *ssa.Index:
		return in.index(fr, st, x)
	case *ssa.Slice:
		return in.slice(fr, st, x)
	case *ssa.Extract:
		t, ok := in.get(fr, x.Tuple).(Tuple)
		if !ok {
			giveUp("extract from %T", in.get(fr, x.Tuple))
		}
		return set(t[x.Index])
	case *ssa.TypeAssert:
		return in.typeAssert(fr, st, x)
	case *ssa.Lookup:
		return in.lookup(fr, st, x)
	case *ssa.MapUpdate:
		m := in.asPtr(in.get(fr, x.Map))
		in.mapSet(st, m, in.get(fr, x.Key), in.get(fr, x.Value))
		return nil
	case *ssa.Range:
		return set(Tuple{in.get(fr, x.X), goIntC(0)})
	case *ssa.Next:
		return in.next(fr, st, x)
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, x.X).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !in.entails(st.f, s.Len.addC(-n)) {
			bad := st.fork()
			if in.assume(bad, mkGE(linC(n-1).sub(s.Len))) {
				outs = append(outs, in.fault(bad, fmt.Sprintf("conversion of slice of length %s to array of %d", s.Len, n)))
			}
			if !in.assume(st, mkGE(s.Len.addC(-n))) {
				return outs
			}
		}
		if outs == nil {
			return set(s.Data)
		}
		return append(outs, Outcome{st: st, vals: []Val{s.Data}})
	}
	giveUp("instruction %T (%s)", instr, instr)
	return nil
}

func fieldOffset(s *types.Struct, i int) int64 {
	fs := make([]*types.Var, s.NumFields())
	for k := range fs {
		fs[k] = s.Field(k)
	}
	return sizes.Offsetsof(fs)[i]
}

// withNonNil runs f on the paths where p is not nil; other paths fault.
func (in *Interp) withNonNil(st *State, p Ptr, f func(st *State) []Outcome) []Outcome {
	if p.Obj == nil {
		return []Outcome{in.fault(st, "nil pointer dereference")}
	}
	if p.Obj.nilC == nil {
		return f(st)
	}
	switch in.decide(st, p.Obj.nilC) {
	case 1:
		return []Outcome{in.fault(st, "nil pointer dereference ("+p.Obj.name+")")}
	case -1:
		return f(st)
	}
	bad := st.fork()
	var outs []Outcome
	if in.assume(bad, p.Obj.nilC) {
		outs = append(outs, in.fault(bad, "nil pointer dereference ("+p.Obj.name+" may be nil)"))
	}
	if in.assume(st, p.Obj.nilC.not()) {
		fr := in.curFrame()
		r := f(st)
		if r == nil {
			var vals []Val
			if v, ok := fr.instr.(ssa.Value); ok {
				vals = []Val{fr.env[v]}
				if t, ok := fr.env[v].(Tuple); ok {
					vals = t
				}
			}
			r = []Outcome{{st: st, vals: vals}}
		}
		outs = append(outs, r...)
	}
	return outs
}

func (in *Interp) field(v Val, t types.Type, i int) Val {
	a, ok := v.(Agg)
	if !ok {
		giveUp("field of %T", v)
	}
	stt := t.Underlying().(*types.Struct)
	off := fieldOffset(stt, i)
	return in.subAgg(a, off, stt.Field(i).Type())
}

func (in *Interp) subAgg(a Agg, off int64, t types.Type) Val {
	t = types.Unalias(t)
	if isAgg(t) {
		r := Agg{t, map[int64]Val{}}
		for _, l := range leaves(t) {
			if v, ok := a.L[off+l.off]; ok {
				r.L[l.off] = v
			}
		}
		return r
	}
	if v, ok := a.L[off]; ok {
		return v
	}
	return zeroVal(in, t)
}

func (in *Interp) makeSlice(st *State, el types.Type, n, c *Lin) Slice {
	if sizeof(el) == 1 {
		if b, ok := el.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if k, ok := n.constInt(); ok && k <= 64 {
				o := in.newObj(oBuf, "buf", types.Typ[types.Uint8])
				o.libNew = true
				o.size = c
				o.allocLen = c
				ct := st.mut(o)
				for i := int64(0); i < k; i++ {
					ct.seq = append(ct.seq, ByteItem{constBits(big0, 8)})
				}
				st.event(Event{kind: "alloc", obj: o, size: c, pos: in.curPos(), fn: in.curFn()})
				return Slice{ptrTo(o), n, c}
			}
			// unknown length: a buffer that may later be filled by copy
			o := in.newObj(oBuf, "buf", types.Typ[types.Uint8])
			o.libNew = true
			o.size = c
			o.allocLen = c
			ct := st.mut(o)
			ct.seq = []Item{PrefixItem{fmt.Sprintf("zeros~%d", o.id), n}}
			st.event(Event{kind: "alloc", obj: o, size: c, pos: in.curPos(), fn: in.curFn()})
			return Slice{ptrTo(o), n, c}
		}
	}
	o := in.newObj(oArr, "arr:"+el.String(), el)
	o.libNew = true
	o.zero = true
	o.size = c.scale(bigI(sizeof(el)))
	o.allocLen = c
	st.mut(o)
	st.event(Event{kind: "alloc", obj: o, size: o.size, pos: in.curPos(), fn: in.curFn()})
	return Slice{ptrTo(o), n, c}
}

func (in *Interp) prepCall(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := in.get(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, in.get(fr, a))
		}
		return in.resolveInvoke(st, recv, c.Method, args)
	}
	f := in.get(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, in.get(fr, a))
	}
	return f, args
}

func (in *Interp) resolveInvoke(st *State, recv Val, m *types.Func, args []Val) (Val, []Val) {
	switch r := recv.(type) {
	case Iface:
		if r.T == nil {
			return FuncV{}, nil
		}
		if in.P.isRType(r.T) {
			return FuncV{Intr: "rtype:" + m.Name(), Recv: r.V}, args
		}
		if types.Identical(r.T, in.P.opaqueErr) {
			return FuncV{Intr: "opaque:" + m.Name(), Recv: r.V}, args
		}
		if fn := in.P.model(r.T, m.Name()); fn != "" {
			return FuncV{Intr: fn, Recv: r.V}, args
		}
		sel := in.P.prog.MethodSets.MethodSet(r.T).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			giveUp("method %s not found on %s", m.Name(), r.T)
		}
		fn := in.P.prog.MethodValue(sel)
		return FuncV{Fn: fn}, append([]Val{r.V}, args...)
	case opaqueV:
		return FuncV{Intr: "opaque:" + m.Name(), Recv: r}, args
	}
	giveUp("method call on %T", recv)
	return nil, nil
}

func (in *Interp) call(fr *Frame, st *State, c *ssa.CallCommon) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var args []Val
		for _, a := range c.Args {
			args = append(args, in.get(fr, a))
		}
		return in.builtin(fr, st, b.Name(), args, c)
	}
	f, args := in.prepCall(fr, st, c)
	if fv, ok := f.(FuncV); ok && fv.Fn == nil && fv.Intr == "" {
		return []Outcome{in.fault(st, "call through a nil function or interface")}
	}
	outs := in.callVal(st, f, args, c)
	if outs == nil {
		outs = []Outcome{} // no feasible path continues
	}
	for i := range outs {
		outs[i].fr = nil
	}
	return outs
}

func (in *Interp) runDefers(fr *Frame, st *State) []Outcome {
	type it struct {
		st *State
		ds []deferred
	}
	work := []it{{st, fr.defers}}
	var outs []Outcome
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if len(w.ds) == 0 {
			f2 := fr.clone()
			f2.defers = nil
			outs = append(outs, Outcome{st: w.st, fr: f2})
			continue
		}
		d := w.ds[len(w.ds)-1]
		for _, o := range in.callVal(w.st, d.fn, d.args, d.call) {
			if o.panic {
				outs = append(outs, o)
				continue
			}
			work = append(work, it{o.st, w.ds[: len(w.ds)-1 : len(w.ds)-1]})
		}
	}
	return outs
}

// ---- operators ----

func (in *Interp) arith(st *State, op token.Token, x, y Int) Val {
	w, s := x.W, x.Signed
	kx, cx := x.constBig()
	ky, cy := y.constBig()
	fold := func(k *big.Int) Val { // wrap to the type
		return intL(linB(wrapBig(k, w, s)), w, s)
	}
	fits := func(l *Lin) bool {
		if l.isConst() {
			return l.k.Cmp(typeMin(w, s)) >= 0 && l.k.Cmp(typeMax(w, s)) <= 0
		}
		return in.entails(st.f, l.sub(linB(typeMin(w, s)))) && in.entails(st.f, linB(typeMax(w, s)).sub(l))
	}
	opaque := func() Val {
		a := in.T.atom(fmt.Sprintf("%s%d%v(%s,%s)", op, w, s, in.T.intKey(x), in.T.intKey(y)), w, s)
		return intL(linA(a), w, s)
	}
	switch op {
	case token.ADD, token.SUB:
		if cx && cy {
			r := new(big.Int).Add(kx, ky)
			if op == token.SUB {
				r = new(big.Int).Sub(kx, ky)
			}
			return fold(r)
		}
		lx, ly := in.T.toLin(x), in.T.toLin(y)
		l := lx.add(ly)
		if op == token.SUB {
			l = lx.sub(ly)
		}
		if fits(l) {
			return intL(l, w, s)
		}
		if op == token.ADD {
			// disjoint bits add like or
			bx, by := in.bitsOf(st, x), in.bitsOf(st, y)
			ok := true
			for i := range bx {
				if !(bx[i].isConst() && !bx[i].c || by[i].isConst() && !by[i].c) {
					ok = false
					break
				}
			}
			if ok {
				r := make([]Bit, w)
				for i := range r {
					r[i] = bx[i].xor(by[i])
				}
				return Int{W: w, Signed: s, bits: r}
			}
		}
		if op == token.SUB && cx && kx.Sign() == 0 {
			// -b for a single unknown low bit
			by := in.bitsOf(st, y)
			ok := true
			for _, b := range by[1:] {
				if !b.isConst() || b.c {
					ok = false
				}
			}
			if ok {
				r := make([]Bit, w)
				for i := range r {
					r[i] = by[0]
				}
				return Int{W: w, Signed: s, bits: r}
			}
		}
		return opaque()
	case token.MUL:
		if cx && cy {
			return fold(new(big.Int).Mul(kx, ky))
		}
		var l *Lin
		if cx {
			l = in.T.toLin(y).scale(kx)
		} else if cy {
			l = in.T.toLin(x).scale(ky)
		}
		if l != nil && fits(l) {
			return intL(l, w, s)
		}
		return opaque()
	case token.QUO, token.REM:
		if cx && cy {
			if ky.Sign() == 0 {
				badAccess("integer division by zero")
			}
			if op == token.QUO {
				return fold(new(big.Int).Quo(kx, ky))
			}
			return fold(new(big.Int).Rem(kx, ky))
		}
		if cy && ky.Sign() > 0 && new(big.Int).And(ky, sub1(ky)).Sign() == 0 && (!s || in.entails(st.f, in.T.toLin(x))) {
			n := ky.BitLen() - 1
			if op == token.QUO {
				return in.quoFacts(st, x, n, in.shift(st, token.SHR, x, n))
			}
			bx := in.bitsOf(st, x)
			r := make([]Bit, w)
			copy(r, bx[:n])
			return Int{W: w, Signed: s, bits: r}
		}
		if !cy && in.decideLinZero(st.f, in.T.toLin(y)) != -1 {
			badAccess("integer division by %s, which may be zero", in.T.showInt(y))
		}
		v := opaque().(Int)
		if cy && ky.Sign() > 0 && in.entails(st.f, in.T.toLin(x)) {
			a := v.lin.single()
			if op == token.REM {
				a.lo, a.hi = big0, sub1(ky)
			} else {
				a.lo = big0
				// q*k <= x < q*k + k
				l := in.T.toLin(x).sub(linA(a).scale(ky))
				in.baseLins[a] = l
				in.baseUpper[a] = l.neg().add(linB(sub1(ky)))
				in.quoOf[a] = in.T.toLin(x)
			}
		}
		return v
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		bx, by := in.bitsOf(st, x), in.bitsOf(st, y)
		r := make([]Bit, w)
		for i := range r {
			switch op {
			case token.AND:
				r[i] = in.T.andBit(bx[i], by[i])
			case token.OR:
				r[i] = in.T.orBit(bx[i], by[i])
			case token.XOR:
				r[i] = bx[i].xor(by[i])
			default:
				r[i] = in.T.andBit(bx[i], by[i].not())
			}
		}
		return in.mkBits(r, w, s)
	}
	giveUp("arithmetic %s", op)
	return nil
}

func (in *Interp) mkBits(r []Bit, w int, s bool) Int {
	if k, ok := bitsConst(r, s); ok {
		return intL(linB(k), w, s)
	}
	return Int{W: w, Signed: s, bits: r}
}

func wrapBig(k *big.Int, w int, s bool) *big.Int {
	m := new(big.Int).And(k, sub1(pow2(w)))
	if s && m.Bit(w-1) == 1 {
		m.Sub(m, pow2(w))
	}
	return m
}

func (in *Interp) shift(st *State, op token.Token, x Int, n int) Int {
	w := x.W
	if op == token.SHL && x.lin != nil && n < 62 {
		l := x.lin.scale(pow2(n))
		if in.entails(st.f, l.sub(linB(typeMin(w, x.Signed)))) && in.entails(st.f, linB(typeMax(w, x.Signed)).sub(l)) {
			return intL(l, w, x.Signed)
		}
	}
	bs := in.bitsOf(st, x)
	r := make([]Bit, w)
	for i := range r {
		switch op {
		case token.SHL:
			if i-n >= 0 {
				r[i] = bs[i-n]
			}
		default:
			switch {
			case i+n < w:
				r[i] = bs[i+n]
			case x.Signed:
				r[i] = bs[w-1]
			}
		}
	}
	return in.mkBits(r, w, x.Signed)
}

// powerFacts: 1 << (bits.Len(v)+c) lies between 2^c*(v+1) and 2^(c+1)*v + 2^c.
func (in *Interp) powerFacts(st *State, at *Atom, one Int, n *Lin) {
	k, ok := one.constBig()
	c := n.k
	if !ok || k.Cmp(big1) != 0 || len(n.m) != 1 || n.m[0].c.Cmp(big1) != 0 || c.Sign() < 0 || c.BitLen() > 4 {
		return
	}
	v := in.lenOf[n.m[0].a]
	if v == nil || in.baseLins[at] != nil {
		return
	}
	p := new(big.Int).Lsh(big1, uint(c.Int64()))
	hi := v.scale(new(big.Int).Lsh(p, 1)).add(linB(p))
	if !in.entails(st.f, v) || !in.entails(st.f, linB(typeMax(one.W, one.Signed)).sub(hi)) {
		return
	}
	in.baseLins[at] = linA(at).sub(v.scale(p)).sub(linB(p))
	in.baseUpper[at] = hi.sub(linA(at))
	in.quoOf[at] = v
}

// quoFacts: q = x >> n for x >= 0, so that q*2^n <= x < q*2^n + 2^n.
func (in *Interp) quoFacts(st *State, x Int, n int, q Int) Int {
	if _, known := q.constBig(); known || n == 0 || !in.entails(st.f, in.linOf(st, x)) {
		return q
	}
	if a := in.T.toLin(q).single(); a != nil && in.baseLins[a] == nil && a.sum == nil {
		l := in.linOf(st, x).sub(linA(a).scale(pow2(n)))
		in.baseLins[a] = l
		in.baseUpper[a] = l.neg().add(linB(sub1(pow2(n))))
		in.quoOf[a] = in.linOf(st, x)
	}
	return q
}

func (in *Interp) binop(fr *Frame, st *State, x *ssa.BinOp) []Outcome {
	a, b := in.get(fr, x.X), in.get(fr, x.Y)
	set := func(v Val) []Outcome { fr.env[x] = v; return nil }
	switch x.Op {
	case token.EQL, token.NEQ:
		c := in.equal(st, a, b, x.X.Type())
		if x.Op == token.NEQ {
			c = c.not()
		}
		return set(Bool{c})
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return set(Bool{in.order(st, x.Op, a, b)})
	case token.SHL, token.SHR:
		xi, ok1 := a.(Int)
		yi, ok2 := b.(Int)
		if !ok1 || !ok2 {
			giveUp("shift of %T", a)
		}
		k, ok := in.normInt(st, yi).constBig()
		if !ok {
			at := in.T.atom(fmt.Sprintf("%s%d%v(%s,%s)", x.Op, xi.W, xi.Signed, in.T.intKey(xi), in.T.intKey(yi)), xi.W, xi.Signed)
			if x.Op == token.SHL {
				in.powerFacts(st, at, xi, in.linOf(st, in.normInt(st, yi)))
			}
			return set(intL(linA(at), xi.W, xi.Signed))
		}
		if k.Sign() < 0 {
			badAccess("negative shift count")
		}
		n := xi.W
		if k.IsInt64() && k.Int64() < int64(n) {
			n = int(k.Int64())
		}
		v := in.shift(st, x.Op, xi, n)
		if x.Op == token.SHR && xi.Signed && n < 32 {
			v = in.quoFacts(st, xi, n, v)
		}
		return set(v)
	}
	switch l := a.(type) {
	case Int:
		if r, ok := b.(Int); ok {
			return set(in.arith(st, x.Op, l, r))
		}
		if r, ok := b.(Ptr); ok && x.Op == token.ADD {
			return set(Ptr{r.Obj, r.Off.add(in.linOf(st, l))})
		}
	case Ptr: // uintptr arithmetic
		if r, ok := b.(Int); ok {
			if x.Op == token.ADD {
				return set(Ptr{l.Obj, l.Off.add(in.linOf(st, r))})
			}
			if x.Op == token.SUB {
				return set(Ptr{l.Obj, l.Off.sub(in.linOf(st, r))})
			}
		}
		if r, ok := b.(Ptr); ok && x.Op == token.SUB && l.Obj == r.Obj {
			return set(intL(l.Off.sub(r.Off), 64, false))
		}
	case Str:
		if r, ok := b.(Str); ok && x.Op == token.ADD {
			return set(in.concat(st, l, r))
		}
	case Float:
		if r, ok := b.(Float); ok {
			a := in.T.atom(fmt.Sprintf("f%s(%s,%s)", x.Op, floatKey(l), floatKey(r)), l.W, false)
			return set(Float{W: l.W, bits: in.T.atomBits(a, l.W)})
		}
	}
	giveUp("operator %s on %T and %T", x.Op, a, b)
	return nil
}

func floatKey(f Float) string {
	if f.conv != nil {
		return "conv" + floatKey(*f.conv)
	}
	return bitsKey(f.bits)
}

func (in *Interp) concat(st *State, l, r Str) Str {
	if l.lit != nil && r.lit != nil {
		return in.litStr(*l.lit + *r.lit)
	}
	key := fmt.Sprintf("cat(%s,%s)", show(in, l), show(in, r))
	return in.symStr(key, false)
}

func (in *Interp) equal(st *State, a, b Val, t types.Type) *Cond {
	switch x := a.(type) {
	case Int:
		switch y := b.(type) {
		case Int:
			return in.mkEqInt(x, y)
		case Ptr:
			return in.equal(st, b, a, t)
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			if y.c.kind == cConst {
				if y.c.val {
					return x.c
				}
				return x.c.not()
			}
			if x.c.kind == cConst {
				if x.c.val {
					return y.c
				}
				return y.c.not()
			}
			bx, _ := in.boolBit(x)
			by, _ := in.boolBit(y)
			return mkBZ([]Bit{bx.xor(by)})
		}
	case Float:
		if y, ok := b.(Float); ok {
			return in.floatEq(x, y)
		}
	case Ptr:
		if y, ok := b.(Int); ok {
			if k, ok := y.constBig(); ok && k.Sign() == 0 {
				return in.isNil(x)
			}
		}
		if y, ok := b.(Ptr); ok {
			if y.Obj == nil {
				return in.isNil(x)
			}
			if x.Obj == nil {
				return in.isNil(y)
			}
			if x.Obj == y.Obj {
				return mkLinEQ(x.Off.sub(y.Off))
			}
			if x.Obj.kind == oType && y.Obj.kind == oType {
				return condB(false)
			}
			// distinct objects: equal only if both nil
			cx, cy := in.isNil(x), in.isNil(y)
			if cx.kind == cConst && !cx.val || cy.kind == cConst && !cy.val {
				return condB(false)
			}
			return &Cond{kind: cOp, key: fmt.Sprintf("ptreq(%s,%s)", x.Obj, y.Obj)}
		}
		if y, ok := b.(FuncV); ok {
			return in.equal(st, y, x, t)
		}
	case FuncV:
		if y, ok := b.(FuncV); ok && y.Fn == nil && y.Intr == "" {
			return condB(x.Fn == nil && x.Intr == "")
		}
		if y, ok := b.(Ptr); ok && y.Obj == nil {
			return condB(x.Fn == nil && x.Intr == "")
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if y.Data.Obj == nil {
				return in.isNil(x.Data)
			}
			if x.Data.Obj == nil {
				return in.isNil(y.Data)
			}
		}
	case Str:
		if y, ok := b.(Str); ok {
			if x.lit != nil && y.lit != nil {
				return condB(*x.lit == *y.lit)
			}
			if x.lit != nil {
				x, y = y, x
			}
			if y.lit != nil && *y.lit == "" {
				return mkLinEQ(x.Len)
			}
			return &Cond{kind: cOp, key: fmt.Sprintf("streq(%s,%s)", show(in, x), show(in, y))}
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if y.T == nil || x.T == nil {
				return condB(x.T == nil && y.T == nil)
			}
			if !types.Identical(x.T, y.T) {
				return condB(false)
			}
			if in.P.isRType(x.T) {
				return condB(x.V.(Ptr).Obj == y.V.(Ptr).Obj)
			}
			return in.equal(st, x.V, y.V, x.T)
		}
		if y, ok := b.(opaqueV); ok {
			return in.equal(st, y, x, t)
		}
	case opaqueV:
		if y, ok := b.(Iface); ok && y.T == nil {
			return &Cond{kind: cOp, key: "isnil(" + x.key + ")"}
		}
		if y, ok := b.(Ptr); ok && y.Obj == nil {
			return &Cond{kind: cOp, key: "isnil(" + x.key + ")"}
		}
	case Agg:
		if y, ok := b.(Agg); ok {
			// conjunction: only decided cases
			res := condB(true)
			n := 0
			for _, l := range leaves(x.T) {
				lx, ok1 := x.L[l.off]
				ly, ok2 := y.L[l.off]
				if !ok1 {
					lx = in.zeroLeaf(l)
				}
				if !ok2 {
					ly = in.zeroLeaf(l)
				}
				c := in.equal(st, lx, ly, l.typ)
				switch in.decide(st, c) {
				case -1:
					return condB(false)
				case 0:
					res = c
					n++
				}
			}
			if n <= 1 {
				return res
			}
		}
	}
	giveUp("comparison of %T with %T", a, b)
	return nil
}

func (in *Interp) isNil(p Ptr) *Cond {
	if p.Obj == nil {
		return condB(true)
	}
	if p.Obj.nilC != nil {
		return p.Obj.nilC
	}
	return condB(false)
}

func (in *Interp) floatZero(f Float) *Cond {
	if f.conv != nil {
		return in.floatZero(*f.conv)
	}
	return mkBZ(f.bits[:f.W-1])
}

func (in *Interp) floatSign(f Float) Bit {
	if f.conv != nil {
		return in.floatSign(*f.conv)
	}
	return f.bits[f.W-1]
}

func (in *Interp) floatEq(x, y Float) *Cond {
	zero := func(f Float) bool {
		if f.conv != nil {
			return false
		}
		k, ok := bitsConst(f.bits[:f.W-1], false)
		return ok && k.Sign() == 0
	}
	if zero(y) {
		return in.floatZero(x)
	}
	if zero(x) {
		return in.floatZero(y)
	}
	return &Cond{kind: cOp, key: "feq(" + floatKey(x) + "," + floatKey(y) + ")"}
}

func (in *Interp) order(st *State, op token.Token, a, b Val) *Cond {
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		if !ok {
			break
		}
		switch op {
		case token.LSS:
			return in.mkLT(st, x, y)
		case token.GEQ:
			return in.mkLT(st, x, y).not()
		case token.GTR:
			return in.mkLT(st, y, x)
		case token.LEQ:
			return in.mkLT(st, y, x).not()
		}
	case Float:
		y, ok := b.(Float)
		if ok {
			return &Cond{kind: cOp, key: "f" + op.String() + "(" + floatKey(x) + "," + floatKey(y) + ")"}
		}
	case Str:
		y, ok := b.(Str)
		if ok && x.lit != nil && y.lit != nil {
			switch op {
			case token.LSS:
				return condB(*x.lit < *y.lit)
			case token.LEQ:
				return condB(*x.lit <= *y.lit)
			case token.GTR:
				return condB(*x.lit > *y.lit)
			case token.GEQ:
				return condB(*x.lit >= *y.lit)
			}
		}
	case Ptr:
		y, ok := b.(Ptr)
		if ok && x.Obj == y.Obj {
			d := y.Off.sub(x.Off)
			switch op {
			case token.LSS:
				return mkGE(d.addC(-1))
			case token.LEQ:
				return mkGE(d)
			case token.GTR:
				return mkGE(d.neg().addC(-1))
			case token.GEQ:
				return mkGE(d.neg())
			}
		}
	}
	giveUp("ordering of %T and %T", a, b)
	return nil
}

func (in *Interp) unop(fr *Frame, st *State, x *ssa.UnOp) []Outcome {
	set := func(v Val) []Outcome { fr.env[x] = v; return nil }
	v := in.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		p := in.asPtr(v)
		return in.withNonNil(st, p, func(st *State) []Outcome {
			r := in.load(st, p, x.Type())
			fr.env[x] = r
			return nil
		})
	case token.NOT:
		return set(Bool{v.(Bool).c.not()})
	case token.SUB:
		switch y := v.(type) {
		case Int:
			return set(in.arith(st, token.SUB, intC(0, y.W, y.Signed), y))
		case Float:
			b := append([]Bit(nil), y.bits...)
			b[y.W-1] = b[y.W-1].not()
			return set(Float{W: y.W, bits: b})
		}
	case token.XOR:
		y := v.(Int)
		bs := in.bitsOf(st, y)
		r := make([]Bit, len(bs))
		for i := range bs {
			r[i] = bs[i].not()
		}
		return set(in.mkBits(r, y.W, y.Signed))
	}
	giveUp("operator %s on %T", x.Op, v)
	return nil
}

func (in *Interp) convInt(st *State, x Int, w int, s bool) Int {
	if x.W == w && x.Signed == s {
		return x
	}
	if k, ok := x.constBig(); ok {
		return intL(linB(wrapBig(k, w, s)), w, s)
	}
	if x.lin != nil {
		l := x.lin
		if in.entails(st.f, l.sub(linB(typeMin(w, s)))) && in.entails(st.f, linB(typeMax(w, s)).sub(l)) {
			return intL(l, w, s)
		}
	} else {
		l := in.T.toLin(x)
		if a := l.single(); a != nil {
			lo, hi := in.rangeOf(st.f, a)
			if lo.Cmp(typeMin(w, s)) >= 0 && hi.Cmp(typeMax(w, s)) <= 0 {
				bs := in.T.toBits(x)
				r := make([]Bit, w)
				for i := range r {
					if i < len(bs) {
						r[i] = bs[i]
					} else if x.Signed {
						r[i] = bs[len(bs)-1]
					}
				}
				// keep bits, but make sure the value view agrees
				y := Int{W: w, Signed: s, bits: r}
				if in.T.toLin(y).eq(l) {
					return y
				}
				return intL(l, w, s)
			}
		}
	}
	bs := in.bitsOf(st, x)
	r := make([]Bit, w)
	for i := range r {
		if i < len(bs) {
			r[i] = bs[i]
		} else if x.Signed {
			r[i] = bs[len(bs)-1]
		}
	}
	return in.mkBits(r, w, s)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (in *Interp) convert(fr *Frame, st *State, xv ssa.Value, to types.Type, self ssa.Value) []Outcome {
	set := func(v Val) []Outcome { fr.env[self] = v; return nil }
	v := in.get(fr, xv)
	from := xv.Type()
	tb, _ := to.Underlying().(*types.Basic)
	switch x := v.(type) {
	case Int:
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			w, s := intInfo(to)
			return set(in.convInt(st, x, w, s))
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			w := int(sizeof(to)) * 8
			a := in.T.atom(fmt.Sprintf("i2f%d(%s)", w, in.T.intKey(x)), w, false)
			return set(Float{W: w, bits: in.T.atomBits(a, w)})
		}
		if tb != nil && tb.Kind() == types.UnsafePointer {
			if k, ok := x.constBig(); ok && k.Sign() == 0 {
				return set(nilPtr())
			}
			badAccess("an integer (%s) becomes a pointer", in.T.showInt(x))
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			if k, ok := x.constBig(); ok {
				return set(in.litStr(string(rune(k.Int64()))))
			}
		}
	case Float:
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			w := int(sizeof(to)) * 8
			if w == x.W {
				return set(x)
			}
			if w == 64 {
				y := x
				return set(Float{W: 64, conv: &y})
			}
			if x.conv != nil && x.conv.W == 32 && len(x.conv.bits) == 32 {
				// the value itself, except that signalling NaNs become quiet ones
				bs := append([]Bit(nil), x.conv.bits...)
				q := in.T.atom("quiet("+floatKey(*x.conv)+")", 1, false)
				bs[22] = in.T.atomBits(q, 1)[0]
				return set(Float{W: 32, bits: bs})
			}
			a := in.T.atom("f64to32("+floatKey(x)+")", 32, false)
			return set(Float{W: 32, bits: in.T.atomBits(a, 32)})
		}
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			w, s := intInfo(to)
			a := in.T.atom(fmt.Sprintf("f2i%d%v(%s)", w, s, floatKey(x)), w, s)
			return set(intL(linA(a), w, s))
		}
	case Ptr, FuncV, opaqueV:
		return set(v) // pointer <-> unsafe.Pointer <-> uintptr
	case Slice:
		if tb != nil && tb.Info()&types.IsString != 0 && isByteSlice(from) {
			return set(in.bytesToString(st, x))
		}
		if _, ok := to.Underlying().(*types.Slice); ok {
			return set(v)
		}
	case Str:
		if isByteSlice(to) {
			o := in.newObj(oBuf, "bytes(string)", types.Typ[types.Uint8])
			o.libNew = true
			o.size = x.Len
			o.allocLen = x.Len
			ct := st.mut(o)
			ct.seq = in.strItems(st, x)
			return set(Slice{ptrTo(o), x.Len, x.Len})
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			return set(v)
		}
	case Bool:
		return set(v)
	case Agg, Iface, Tuple:
		return set(v)
	}
	giveUp("conversion of %T (%s) to %s", v, from, to)
	return nil
}

func (in *Interp) strItems(st *State, s Str) []Item {
	if s.lit != nil {
		return litItems(*s.lit)
	}
	return in.contentOf(st, s.Data, s.Len)
}

func (in *Interp) bytesToString(st *State, x Slice) Val {
	if k, ok := x.Len.constInt(); ok && k == 0 {
		return in.litStr("")
	}
	items := in.contentOf(st, x.Data, x.Len)
	if lit, ok := itemsLit(items); ok {
		return in.litStr(lit)
	}
	o := in.newObj(oBuf, "string(bytes)", types.Typ[types.Uint8])
	o.libNew = true
	o.size = x.Len
	o.allocLen = x.Len
	ct := st.mut(o)
	ct.seq = items
	return Str{ptrTo(o), x.Len, nil}
}

func itemsLit(items []Item) (string, bool) {
	var sb strings.Builder
	for _, it := range items {
		b, ok := it.(ByteItem)
		if !ok {
			return "", false
		}
		k, ok := bitsConst(b.b, false)
		if !ok {
			return "", false
		}
		sb.WriteByte(byte(k.Int64()))
	}
	return sb.String(), true
}

func floatConst(c *ssa.Const, w int) Val {
	f, _ := constant.Float64Val(c.Value)
	if f == 0 {
		return Float{W: w, bits: constBits(big0, w)}
	}
	return floatLit(f, w)
}

// boundsSplit returns the continuing state (nil if infeasible) and the faulting outcome, for "cond must hold".
func (in *Interp) boundsSplit(st *State, ok *Cond, msg string) (*State, []Outcome) {
	switch in.decide(st, ok) {
	case 1:
		return st, nil
	case -1:
		return nil, []Outcome{in.fault(st, msg)}
	}
	bad := st.fork()
	var outs []Outcome
	if in.assume(bad, ok.not()) {
		outs = append(outs, in.fault(bad, msg))
	}
	if !in.assume(st, ok) {
		return nil, outs
	}
	return st, outs
}

func (in *Interp) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) []Outcome {
	base := in.get(fr, x.X)
	idx := in.get(fr, x.Index).(Int)
	i := in.linOf(st, idx)
	var data Ptr
	var n *Lin
	var el types.Type
	switch b := base.(type) {
	case Slice:
		data, n = b.Data, b.Len
		el = x.X.Type().Underlying().(*types.Slice).Elem()
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		data, n, el = b, linC(at.Len()), at.Elem()
	default:
		giveUp("index of %T", base)
	}
	st2, outs := in.boundsSplit2(st, i, n, fmt.Sprintf("index %s out of range [0,%s)", i, n))
	if st2 == nil {
		return outs
	}
	if k, known := n.constInt(); known && k <= 16 && !i.isConst() && in.pointerTable(st2, data, el) {
		// one path per entry that is set; the others are all nil and, where they are only
		// read, stand for one another
		readOnly := true
		for _, r := range *x.Referrers() {
			u, ok := r.(*ssa.UnOp)
			_, dbg := r.(*ssa.DebugRef)
			readOnly = readOnly && (ok && u.Op == token.MUL || dbg)
		}
		rest, unset := st2.fork(), int64(-1)
		for j := int64(0); j < k; j++ {
			o, _ := data.Off.addC(j * sizeof(el)).constInt()
			if _, set := st2.content(data.Obj).c[o]; !set && readOnly && data.Obj.zero {
				unset = j
				continue
			}
			if rest != nil && !in.assume(rest, in.mkEqInt(idx, intC(j, idx.W, idx.Signed)).not()) {
				rest = nil
			}
			s3 := st2.fork()
			if in.assume(s3, in.mkEqInt(idx, intC(j, idx.W, idx.Signed))) && in.addLin(in.ownFacts(s3), i.addC(-j)) && in.addLin(s3.f, i.neg().addC(j)) {
				outs = append(outs, Outcome{st: s3, vals: []Val{Ptr{data.Obj, data.Off.addC(j * sizeof(el))}}})
			}
		}
		if unset >= 0 && rest != nil {
			outs = append(outs, Outcome{st: rest, vals: []Val{Ptr{data.Obj, data.Off.addC(unset * sizeof(el))}}})
		}
		return outs
	}
	v := Ptr{data.Obj, data.Off.add(i.scale(bigI(sizeof(el))))}
	if outs == nil {
		fr.env[x] = v
		return nil
	}
	return append(outs, Outcome{st: st2, vals: []Val{v}})
}

// pointerTable: an array of pointers the library has filled with known ones.
func (in *Interp) pointerTable(st *State, data Ptr, el types.Type) bool {
	if _, ok := el.Underlying().(*types.Pointer); !ok || data.Obj == nil || data.Obj.sym || !data.Off.isConst() {
		return false
	}
	ct := st.content(data.Obj)
	return ct != nil && len(ct.c) > 0 && len(ct.s) == 0 && len(ct.copied) == 0 && !ct.dirty
}

func (in *Interp) ownFacts(st *State) *Facts {
	st.f = st.f.clone()
	return st.f
}

// boundsSplit2 requires 0 <= i < n.
func (in *Interp) boundsSplit2(st *State, i, n *Lin, msg string) (*State, []Outcome) {
	st2, outs := in.boundsSplit(st, mkGE(n.sub(i).addC(-1)), msg)
	if st2 == nil {
		return nil, outs
	}
	st3, o2 := in.boundsSplit(st2, mkGE(i), msg)
	return st3, append(outs, o2...)
}

func (in *Interp) index(fr *Frame, st *State, x *ssa.Index) []Outcome {
	base := in.get(fr, x.X)
	i := in.linOf(st, in.get(fr, x.Index).(Int))
	switch b := base.(type) {
	case Str:
		st2, outs := in.boundsSplit2(st, i, b.Len, fmt.Sprintf("index %s out of range [0,%s)", i, b.Len))
		if st2 == nil {
			return outs
		}
		var v Val
		if k, ok := i.constInt(); ok && b.lit != nil {
			v = intC(int64((*b.lit)[k]), 8, false)
		} else {
			p := in.strPtr(b)
			v = in.load(st2, Ptr{p.Data.Obj, p.Data.Off.add(i)}, types.Typ[types.Uint8])
		}
		if outs == nil {
			fr.env[x] = v
			return nil
		}
		return append(outs, Outcome{st: st2, vals: []Val{v}})
	case Agg:
		at := b.T.Underlying().(*types.Array)
		k, ok := i.constInt()
		if !ok {
			giveUp("symbolic index of array value")
		}
		if k < 0 || k >= at.Len() {
			return []Outcome{in.fault(st, "array index out of range")}
		}
		fr.env[x] = in.subAgg(b, k*sizeof(at.Elem()), at.Elem())
		return nil
	}
	giveUp("index of %T", base)
	return nil
}

func (in *Interp) slice(fr *Frame, st *State, x *ssa.Slice) []Outcome {
	base := in.get(fr, x.X)
	opt := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		return in.linOf(st, in.get(fr, v).(Int))
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = linC(0)
	}
	var outs []Outcome
	need := func(c *Cond, msg string) bool {
		st2, o := in.boundsSplit(st, c, msg)
		outs = append(outs, o...)
		if st2 == nil {
			return false
		}
		st = st2
		return true
	}
	finish := func(v Val) []Outcome {
		if outs == nil {
			fr.env[x] = v
			return nil
		}
		return append(outs, Outcome{st: st, vals: []Val{v}})
	}
	switch b := base.(type) {
	case Str:
		if hi == nil {
			hi = b.Len
		}
		msg := fmt.Sprintf("string slice [%s:%s] out of range (length %s)", lo, hi, b.Len)
		if !need(mkGE(hi.sub(lo)), msg) || !need(mkGE(b.Len.sub(hi)), msg) || !need(mkGE(lo), msg) {
			return outs
		}
		if b.lit != nil {
			l, ok1 := lo.constInt()
			h, ok2 := hi.constInt()
			if ok1 && ok2 {
				return finish(in.litStr((*b.lit)[l:h]))
			}
		}
		p := in.strPtr(b)
		return finish(Str{Ptr{p.Data.Obj, p.Data.Off.add(lo)}, hi.sub(lo), nil})
	case Slice:
		el := x.X.Type().Underlying().(*types.Slice).Elem()
		return in.sliceOf(st, b.Data, b.Len, b.Cap, el, lo, hi, max, need, finish, &outs, false)
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := linC(at.Len())
		return in.sliceOf(st, b, n, n, at.Elem(), lo, hi, max, need, finish, &outs, true)
	}
	giveUp("slice of %T", base)
	return nil
}

func (in *Interp) sliceOf(st *State, data Ptr, n, c *Lin, el types.Type, lo, hi, max *Lin, need func(*Cond, string) bool, finish func(Val) []Outcome, outs *[]Outcome, arr bool) []Outcome {
	if hi == nil {
		hi = n
	}
	lim := c
	msg := fmt.Sprintf("slice [%s:%s] out of range (length %s, capacity %s)", lo, hi, n, c)
	if max != nil {
		if !need(mkGE(c.sub(max)), msg) {
			return *outs
		}
		lim = max
	}
	if !need(mkGE(hi.sub(lo)), msg) || !need(mkGE(lo), msg) || !need(mkGE(lim.sub(hi)), msg) {
		return *outs
	}
	if data.Obj == nil {
		return finish(Slice{nilPtr(), linC(0), linC(0)})
	}
	off := data.Off.add(lo.scale(bigI(sizeof(el))))
	return finish(Slice{Ptr{data.Obj, off}, hi.sub(lo), lim.sub(lo)})
}

func (in *Interp) implements(t types.Type, to types.Type) bool {
	i, ok := to.Underlying().(*types.Interface)
	if !ok {
		return types.Identical(t, to)
	}
	return types.Implements(t, i)
}

func (in *Interp) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []Outcome {
	v := in.get(fr, x.X)
	ifc, ok := v.(Iface)
	if !ok {
		giveUp("type assertion on %T", v)
	}
	to := types.Unalias(x.AssertedType)
	good := false
	if ifc.T != nil {
		if in.P.isRType(ifc.T) {
			good = types.IsInterface(to) && (to.String() == "reflect.Type" || to.Underlying().(*types.Interface).NumMethods() == 0)
		} else {
			good = in.implements(ifc.T, to)
		}
	}
	var val Val
	if good {
		if types.IsInterface(to) {
			val = ifc
		} else {
			val = ifc.V
		}
	}
	if x.CommaOk {
		if !good {
			val = zeroVal(in, to)
		}
		fr.env[x] = Tuple{val, Bool{condB(good)}}
		return nil
	}
	if !good {
		return []Outcome{in.fault(st, fmt.Sprintf("type assertion to %s fails on dynamic type %v", to, ifc.T))}
	}
	fr.env[x] = val
	return nil
}

// ---- Go maps ----

func (in *Interp) keyOf(v Val) (string, bool) {
	switch x := v.(type) {
	case Int:
		if k, ok := x.constBig(); ok {
			return "i" + k.String(), true
		}
	case Bool:
		if x.c.kind == cConst {
			return fmt.Sprint("b", x.c.val), true
		}
	case Ptr:
		if x.Obj == nil {
			return "nil", true
		}
		if x.Off.isConst() {
			return fmt.Sprintf("p%d+%s", x.Obj.id, x.Off.k), true
		}
	case Str:
		if x.lit != nil {
			return "s" + *x.lit, true
		}
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		k, ok := in.keyOf(x.V)
		return x.T.String() + ":" + k, ok
	case Agg:
		var ks []int64
		for k := range x.L {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		var sb strings.Builder
		for _, k := range ks {
			s, ok := in.keyOf(x.L[k])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", k, s)
		}
		return sb.String(), true
	}
	return "", false
}

func (in *Interp) mapSet(st *State, m Ptr, k, v Val) {
	if m.Obj == nil {
		badAccess("assignment to entry in nil map")
	}
	if m.Obj.sym {
		giveUp("update of a message map through a Go map operation")
	}
	ks, ok := in.keyOf(k)
	if !ok {
		giveUp("map update with unknown key %s", show(in, k))
	}
	in.checkPublished(st, m.Obj, "updated")
	in.access(st, m.Obj, nil, 0, true)
	in.shared(st, m.Obj, k)
	in.shared(st, m.Obj, v)
	st.event(Event{kind: "mapset", obj: m.Obj, val: v, pos: in.curPos(), fn: in.curFn()})
	ct := st.mut(m.Obj)
	na := make([]assocEnt, 0, len(ct.assoc)+1)
	done := false
	for _, e := range ct.assoc {
		if e.key == ks {
			e.v = v
			done = true
		}
		na = append(na, e)
	}
	if !done {
		na = append(na, assocEnt{ks, k, v})
	}
	ct.assoc = na
}

func (in *Interp) assocOf(st *State, o *Obj) []assocEnt {
	if ct := st.content(o); ct != nil {
		return ct.assoc
	}
	return nil
}

func (in *Interp) lookup(fr *Frame, st *State, x *ssa.Lookup) []Outcome {
	base := in.get(fr, x.X)
	if s, ok := base.(Str); ok {
		i := in.linOf(st, in.get(fr, x.Index).(Int))
		st2, outs := in.boundsSplit2(st, i, s.Len, "string index out of range")
		if st2 == nil {
			return outs
		}
		var v Val
		if k, ok := i.constInt(); ok && s.lit != nil {
			v = intC(int64((*s.lit)[k]), 8, false)
		} else {
			v = in.load(st2, Ptr{s.Data.Obj, s.Data.Off.add(i)}, types.Typ[types.Uint8])
		}
		return append(outs, Outcome{st: st2, vals: []Val{v}})
	}
	m := in.asPtr(base)
	mt := x.X.Type().Underlying().(*types.Map)
	res := func(v Val, ok bool) []Val {
		if x.CommaOk {
			return []Val{v, Bool{condB(ok)}}
		}
		return []Val{v}
	}
	zero := zeroVal(in, mt.Elem())
	key := in.get(fr, x.Index)
	if m.Obj == nil {
		return []Outcome{{st: st, vals: res(zero, false)}}
	}
	if m.Obj.sym {
		giveUp("lookup in a message map")
	}
	in.access(st, m.Obj, nil, 0, false)
	ents := in.assocOf(st, m.Obj)
	if ks, ok := in.keyOf(key); ok {
		conc := true
		for _, e := range ents {
			if _, c := in.keyOf(e.k); !c {
				conc = false
			}
			if e.key == ks {
				return []Outcome{{st: st, vals: res(e.v, true)}}
			}
		}
		if conc {
			return []Outcome{{st: st, vals: res(zero, false)}}
		}
	}
	// symbolic key: split over the entries
	var outs []Outcome
	cur := st
	for _, e := range ents {
		c := in.equal(cur, key, e.k, mt.Key())
		brs := in.splitCond(cur, c)
		cur = nil
		for _, b := range brs {
			if b.val {
				outs = append(outs, Outcome{st: b.st, vals: res(e.v, true)})
			} else {
				cur = b.st
			}
		}
		if cur == nil {
			return outs
		}
	}
	return append(outs, Outcome{st: cur, vals: res(zero, false)})
}

func (in *Interp) next(fr *Frame, st *State, x *ssa.Next) []Outcome {
	it := in.get(fr, x.Iter).(Tuple)
	pos, _ := in.linOf(st, it[1].(Int)).constInt()
	advance := func() {
		// iterators are advanced in place in the frame
		fr.env[x.Iter] = Tuple{it[0], goIntC(pos + 1)}
	}
	rng := x.Iter.(*ssa.Range)
	if x.IsString {
		s := it[0].(Str)
		if s.lit == nil {
			giveUp("range over an unknown string")
		}
		if int(pos) >= len(*s.lit) {
			fr.env[x] = Tuple{Bool{condB(false)}, goIntC(0), intC(0, 32, true)}
			return nil
		}
		r, n := decodeRune((*s.lit)[pos:])
		fr.env[x.Iter] = Tuple{it[0], goIntC(pos + int64(n))}
		fr.env[x] = Tuple{Bool{condB(true)}, goIntC(pos), intC(int64(r), 32, true)}
		return nil
	}
	m := in.asPtr(it[0])
	mt := rng.X.Type().Underlying().(*types.Map)
	var ents []assocEnt
	if m.Obj != nil {
		if m.Obj.sym {
			giveUp("range over a message map")
		}
		in.access(st, m.Obj, nil, 0, false)
		ents = in.assocOf(st, m.Obj)
	}
	if int(pos) >= len(ents) {
		fr.env[x] = Tuple{Bool{condB(false)}, zeroVal(in, mt.Key()), zeroVal(in, mt.Elem())}
		return nil
	}
	advance()
	fr.env[x] = Tuple{Bool{condB(true)}, ents[pos].k, ents[pos].v}
	return nil
}
