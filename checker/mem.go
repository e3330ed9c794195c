package main

// Abstract values and the abstract heap (byte-addressed cells).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Bool struct{ c *Cond }

// Float is an IEEE value given by its bits; conv marks a float32 widened to float64.
type Float struct {
	W    int
	bits []Bit
	conv *Float
}

type Ptr struct {
	Obj *Obj // nil: the nil pointer
	Off *Lin
}

type Slice struct {
	Data     Ptr
	Len, Cap *Lin
}

type Str struct {
	Data Ptr
	Len  *Lin
	lit  *string // known content
}

// Iface: T is the dynamic type (nil for a nil interface), V its value.
type Iface struct {
	T types.Type
	V Val
}

// TypeW is the first word of an interface.
type TypeW struct{ T types.Type }

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Recv Val // bound method receiver for intrinsic methods
	Intr string
}

type Tuple []Val

// Agg is a struct or array value as a set of leaves at byte offsets.
type Agg struct {
	T types.Type
	L map[int64]Val
}

// RVal is a reflect.Value.
type RVal struct {
	T   types.Type
	V   Val
	Ptr *Ptr // addressable location, if known
}

type opaqueV struct{ key string }

type objKind int

const (
	oMem   objKind = iota // typed memory of one type
	oArr                  // array region: Typ is the element type
	oBuf                  // byte buffer with sequence content
	oMap                  // map
	oType                 // runtime type descriptor
	oOther                // opaque
)

type Obj struct {
	id       int
	kind     objKind
	name     string
	typ      types.Type
	size     *Lin // extent in bytes (nil: unknown)
	sym      bool // lazily symbolic content (otherwise zero)
	nilC     *Cond
	onNil    []*Lin
	count    *Lin // maps: number of entries (symbolic maps)
	lenL     *Lin // slices' backing arrays: the length they were created with (symbolic)
	global   *ssa.Global
	rtype    types.Type
	base     *Obj // append: the object whose backing may be shared
	input    bool // the input buffer
	msg      bool // part of the message
	libNew   bool
	site     string
	noZero   bool
	zero     bool // oMem created zeroed inside the analysed code
	mapOf    *Obj
	mapPos   *Lin
	mapVal   bool
	buf0     bool // symbolic bytes (message strings and byte slices, input)
	allocLen *Lin
	frozen   bool
	pooled   bool
	slotOf   *Obj
	wraps    []Val
}

func (o *Obj) String() string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%s~%d", o.name, o.id)
}

type cell struct {
	off  *Lin
	size int64
	val  Val
}

// Content is the mutable part of an object in one state.
type Content struct {
	c      map[int64]cell
	s      map[string]cell // symbolic offsets
	seq    []Item          // oBuf
	assoc  []assocEnt      // maps / sync maps
	ghost  map[string]Val
	dirty  bool // symbolic content partly overwritten in unknown ways
	gen    int  // generation of the symbolic content (loops)
	copied []copyRec
}

type assocEnt struct {
	key string
	k   Val
	v   Val
}

func (c *Content) clone() *Content {
	d := &Content{seq: c.seq, assoc: c.assoc[:len(c.assoc):len(c.assoc)], dirty: c.dirty, gen: c.gen, copied: c.copied[:len(c.copied):len(c.copied)]}
	d.c = make(map[int64]cell, len(c.c)+1)
	for k, v := range c.c {
		d.c[k] = v
	}
	if c.s != nil {
		d.s = make(map[string]cell, len(c.s)+1)
		for k, v := range c.s {
			d.s[k] = v
		}
	}
	if c.ghost != nil {
		d.ghost = make(map[string]Val, len(c.ghost)+1)
		for k, v := range c.ghost {
			d.ghost[k] = v
		}
	}
	return d
}

// Heap is a persistent map from objects to contents.
type heapLayer struct {
	parent *heapLayer
	m      map[*Obj]*Content
	depth  int
}

func (h *heapLayer) get(o *Obj) *Content {
	for l := h; l != nil; l = l.parent {
		if c, ok := l.m[o]; ok {
			return c
		}
	}
	return nil
}

type Event struct {
	prev *Event
	n    int
	kind string
	obj  *Obj
	off  *Lin
	size *Lin
	val  Val
	aux  interface{}
	pos  token.Pos
	fn   *ssa.Function
}

type State struct {
	f       *Facts
	h       *heapLayer
	own     map[*Obj]bool // contents owned (mutable) in the top layer
	ev      *Event
	put     map[*Obj]bool // objects handed back to a pool
	pub     *pubState
	locks   lockSet        // locks held
	lockPub []Val          // stored in shared memory under the lock held
	iters   map[*Atom]bool // loop counters in use
	env     *envLog        // what another call does meanwhile
	envAt   int            // the steps of it that have happened
}

func newState() *State {
	return &State{f: &Facts{}, h: &heapLayer{m: map[*Obj]*Content{}}, own: map[*Obj]bool{}, pub: &pubState{}}
}

func (st *State) fork() *State {
	// freeze the current layer
	n := *st
	l := st.h
	if len(l.m) > 0 || l.parent == nil {
		if l.depth > 24 {
			m := map[*Obj]*Content{}
			var chain []*heapLayer
			for x := l; x != nil; x = x.parent {
				chain = append(chain, x)
			}
			for i := len(chain) - 1; i >= 0; i-- {
				for k, v := range chain[i].m {
					m[k] = v
				}
			}
			l = &heapLayer{m: m}
		}
		st.h = &heapLayer{parent: l, m: map[*Obj]*Content{}, depth: l.depth + 1}
		n.h = &heapLayer{parent: l, m: map[*Obj]*Content{}, depth: l.depth + 1}
	} else {
		n.h = &heapLayer{parent: l.parent, m: map[*Obj]*Content{}, depth: l.depth}
	}
	st.own = map[*Obj]bool{}
	n.own = map[*Obj]bool{}
	return &n
}

func (st *State) content(o *Obj) *Content {
	if c := st.h.get(o); c != nil {
		return c
	}
	return nil
}

func (st *State) mut(o *Obj) *Content {
	if st.own[o] {
		return st.h.m[o]
	}
	c := st.h.get(o)
	if c == nil {
		c = &Content{c: map[int64]cell{}}
	} else {
		c = c.clone()
	}
	st.h.m[o] = c
	st.own[o] = true
	return c
}

func (st *State) event(e Event) {
	e.prev = st.ev
	if st.ev != nil {
		e.n = st.ev.n + 1
	} else {
		e.n = 1
	}
	st.ev = &e
}

func (st *State) eventsSince(mark *Event) []*Event {
	var out []*Event
	for e := st.ev; e != nil && e != mark; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- layout ----

var sizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return sizes.Sizeof(t) }

type leafKind int

const (
	lInt leafKind = iota
	lBool
	lFloat
	lPtr
	lFunc
	lSlice
	lStr
	lIface
	lRVal
	lOpaque
)

type leaf struct {
	off  int64
	typ  types.Type // the leaf's own type
	kind leafKind
	size int64
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

// leavesOf flattens a type; ok is false for arrays too large to flatten.
func leavesOf(t types.Type) []leaf {
	var out []leaf
	var walk func(t types.Type, off int64)
	walk = func(t types.Type, off int64) {
		t = types.Unalias(t)
		if isReflectValue(t) {
			out = append(out, leaf{off, t, lRVal, 24})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				out = append(out, leaf{off, t, lBool, 1})
			case u.Info()&types.IsInteger != 0:
				out = append(out, leaf{off, t, lInt, sizeof(t)})
			case u.Info()&types.IsFloat != 0:
				out = append(out, leaf{off, t, lFloat, sizeof(t)})
			case u.Info()&types.IsString != 0:
				out = append(out, leaf{off, t, lStr, 16})
			case u.Kind() == types.UnsafePointer:
				out = append(out, leaf{off, t, lPtr, 8})
			default:
				out = append(out, leaf{off, t, lOpaque, sizeof(t)})
			}
		case *types.Pointer, *types.Map, *types.Chan:
			out = append(out, leaf{off, t, lPtr, 8})
		case *types.Signature:
			out = append(out, leaf{off, t, lFunc, 8})
		case *types.Slice:
			out = append(out, leaf{off, t, lSlice, 24})
		case *types.Interface:
			out = append(out, leaf{off, t, lIface, 16})
		case *types.Struct:
			fs := make([]*types.Var, u.NumFields())
			for i := range fs {
				fs[i] = u.Field(i)
			}
			offs := sizes.Offsetsof(fs)
			for i, f := range fs {
				walk(f.Type(), off+offs[i])
			}
		case *types.Array:
			n := u.Len()
			es := sizeof(u.Elem())
			if n > 256 {
				out = append(out, leaf{off, t, lOpaque, sizeof(t)})
				return
			}
			for i := int64(0); i < n; i++ {
				walk(u.Elem(), off+i*es)
			}
		case *types.TypeParam:
			out = append(out, leaf{off, t, lOpaque, 8})
		default:
			out = append(out, leaf{off, t, lOpaque, sizeof(t)})
		}
	}
	walk(t, 0)
	return out
}

var leafCache sync.Map // types.Type -> []leaf

func leaves(t types.Type) []leaf {
	if l, ok := leafCache.Load(t); ok {
		return l.([]leaf)
	}
	l := leavesOf(t)
	leafCache.Store(t, l)
	return l
}

func isAgg(t types.Type) bool {
	if isReflectValue(types.Unalias(t)) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func intInfo(t types.Type) (w int, signed bool) {
	b := t.Underlying().(*types.Basic)
	return int(sizeof(t)) * 8, b.Info()&types.IsUnsigned == 0
}

func pointerShaped(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		return u.NumFields() == 1 && pointerShaped(u.Field(0).Type())
	case *types.Array:
		return u.Len() == 1 && pointerShaped(u.Elem())
	}
	return false
}

// undecided is thrown when the analysis cannot follow a construct.
type undecided struct {
	msg string
	pos token.Pos
	fn  *ssa.Function
}

func (u undecided) Error() string { return u.msg }

func giveUp(format string, args ...interface{}) {
	if os.Getenv("DBGSTACK") != "" {
		debug.PrintStack()
	}
	panic(undecided{msg: fmt.Sprintf(format, args...)})
}

// memErr is thrown for an access that is wrong in itself.
type memErr struct{ msg string }

func badAccess(format string, args ...interface{}) { panic(memErr{fmt.Sprintf(format, args...)}) }

// ---- objects ----

func (in *Interp) newObj(kind objKind, name string, t types.Type) *Obj {
	in.nextObj++
	o := &Obj{id: in.nextObj, kind: kind, name: name, typ: t}
	if t != nil && kind == oMem {
		o.size = linC(sizeof(t))
	}
	return o
}

func (in *Interp) symObj(key string, mk func() *Obj) *Obj {
	if o, ok := in.symObjs[key]; ok {
		return o
	}
	o := mk()
	in.symObjs[key] = o
	return o
}

func (in *Interp) typeObj(t types.Type) *Obj {
	t = types.Unalias(t)
	if o := in.typeObjs.At(t); o != nil {
		return o.(*Obj)
	}
	o := in.newObj(oType, "type:"+t.String(), nil)
	o.rtype = t
	in.typeObjs.Set(t, o)
	return o
}

func ptrTo(o *Obj) Ptr { return Ptr{o, linC(0)} }

func nilPtr() Ptr { return Ptr{nil, linC(0)} }

func zeroVal(in *Interp, t types.Type) Val {
	t = types.Unalias(t)
	if isAgg(t) {
		return Agg{t, map[int64]Val{}}
	}
	ls := leaves(t)
	if len(ls) != 1 {
		giveUp("zero value of %s", t)
	}
	return in.zeroLeaf(ls[0])
}

func (in *Interp) zeroLeaf(l leaf) Val {
	switch l.kind {
	case lInt:
		w, s := intInfo(l.typ)
		return intC(0, w, s)
	case lBool:
		return Bool{condB(false)}
	case lFloat:
		return Float{W: int(l.size) * 8, bits: constBits(big0, int(l.size)*8)}
	case lPtr:
		return nilPtr()
	case lFunc:
		return FuncV{}
	case lSlice:
		return Slice{nilPtr(), linC(0), linC(0)}
	case lStr:
		e := ""
		return Str{nilPtr(), linC(0), &e}
	case lIface:
		return Iface{}
	case lRVal:
		return RVal{}
	}
	return opaqueV{"zero:" + l.typ.String()}
}

// symbolic value of a leaf, identified by key (deterministic).
func (in *Interp) symLeaf(key string, l leaf, msg bool) Val {
	switch l.kind {
	case lInt:
		w, s := intInfo(l.typ)
		return intL(linA(in.T.atom(key, w, s)), w, s)
	case lBool:
		a := in.T.atomR(key, 1, false, big0, big1)
		return Bool{in.mkEqInt(Int{W: 1, lin: linA(a)}, intC(0, 1, false)).not()}
	case lFloat:
		w := int(l.size) * 8
		a := in.T.atom(key, w, false)
		return Float{W: w, bits: in.T.atomBits(a, w)}
	case lPtr:
		return in.symPtr(key, l.typ, msg)
	case lSlice:
		el := l.typ.Underlying().(*types.Slice).Elem()
		return in.symSlice(key, el, msg)
	case lStr:
		return in.symStr(key, msg)
	}
	return opaqueV{key}
}

var maxLen = pow2(47)

// assumed bound of sums of encoded sizes
var maxSum = pow2(56)

func (in *Interp) lenAtom(key string) *Atom {
	return in.T.atomR(key, 64, true, big0, maxLen)
}

func (in *Interp) nilCond(o *Obj) *Cond {
	return &Cond{kind: cNil, key: "nil:" + o.name, nilObj: o, desc: o.name + " == nil"}
}

func (in *Interp) symPtr(key string, t types.Type, msg bool) Ptr {
	o := in.symObj("p:"+key, func() *Obj {
		var o *Obj
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			o = in.newObj(oMem, "*"+key, u.Elem())
			o.sym = true
		case *types.Map:
			o = in.newObj(oMap, "map "+key, t)
			o.sym = true
			n := in.lenAtom("count(" + key + ")")
			o.count = linA(n)
			o.onNil = []*Lin{linA(n)}
		default:
			o = in.newObj(oOther, "*"+key, nil)
			o.sym = true
		}
		o.msg = msg
		o.nilC = in.nilCond(o)
		return o
	})
	return ptrTo(o)
}

func (in *Interp) symSlice(key string, el types.Type, msg bool) Slice {
	n := in.lenAtom("len(" + key + ")")
	c := in.lenAtom("cap(" + key + ")")
	o := in.symObj("s:"+key, func() *Obj {
		o := in.newObj(oArr, "arr "+key, el)
		o.sym = true
		o.msg = msg
		o.size = linA(c).scale(bigI(sizeof(el)))
		o.lenL = linA(n)
		o.onNil = []*Lin{linA(n), linA(c)}
		o.nilC = in.nilCond(o)
		o.buf0 = sizeof(el) == 1
		return o
	})
	in.baseLins[n] = linA(c).sub(linA(n)) // len <= cap
	in.baseLins[c] = linA(c).sub(linA(n))
	return Slice{ptrTo(o), linA(n), linA(c)}
}

func (in *Interp) symStr(key string, msg bool) Str {
	n := in.lenAtom("len(" + key + ")")
	o := in.symObj("t:"+key, func() *Obj {
		o := in.newObj(oArr, "str "+key, types.Typ[types.Uint8])
		o.sym = true
		o.msg = msg
		o.size = linA(n)
		o.lenL = linA(n)
		o.buf0 = true
		return o
	})
	return Str{ptrTo(o), linA(n), nil}
}

// ---- loads and stores ----

func (in *Interp) extentCheck(st *State, p Ptr, size int64, what string) {
	o := p.Obj
	if o == nil {
		badAccess("%s through a nil pointer", what)
	}
	if o.size == nil {
		return
	}
	if c, ok := p.Off.constInt(); ok {
		if n, ok := o.size.constInt(); ok {
			if c < 0 || c+size > n {
				badAccess("%s of %d bytes at offset %d of %s (%d bytes)", what, size, c, o.name, n)
			}
			return
		}
	}
	if !in.entails(st.f, p.Off) || !in.entails(st.f, o.size.sub(p.Off).addC(-size)) {
		badAccess("%s of %d bytes at offset %s not within %s (extent %s)", what, size, p.Off, o.name, o.size)
	}
}

func (in *Interp) checkLive(st *State, p Ptr, what string) {
	if st.put[p.Obj] {
		in.report(st, "use-after-put", fmt.Sprintf("%s of %s after it was returned to its pool", what, p.Obj.name), "C13", "C15", "C27")
	}
}

func (in *Interp) load(st *State, p Ptr, t types.Type) Val {
	p = in.requireNonNil(st, p, "load")
	t = types.Unalias(t)
	in.checkLive(st, p, "read")
	sz := sizeof(t)
	if sz > 0 {
		in.extentCheck(st, p, sz, "read")
		in.access(st, p.Obj, p.Off, sz, false)
	}
	if p.Obj.input {
		st.event(Event{kind: "readinput", obj: p.Obj, off: p.Off, size: linC(sz), pos: in.curPos(), fn: in.curFn()})
	}
	if isAgg(t) {
		a := Agg{t, map[int64]Val{}}
		for _, l := range leaves(t) {
			a.L[l.off] = in.loadLeaf(st, Ptr{p.Obj, p.Off.addC(l.off)}, l)
		}
		return a
	}
	ls := leaves(t)
	return in.loadLeaf(st, p, ls[0])
}

func (in *Interp) loadLeaf(st *State, p Ptr, l leaf) Val {
	switch l.kind {
	case lSlice:
		d := in.loadWord(st, p, 8, lPtr, nil)
		n := in.loadWord(st, Ptr{p.Obj, p.Off.addC(8)}, 8, lInt, types.Typ[types.Int])
		c := in.loadWord(st, Ptr{p.Obj, p.Off.addC(16)}, 8, lInt, types.Typ[types.Int])
		return Slice{in.asPtr(d), in.T.toLin(n.(Int)), in.T.toLin(c.(Int))}
	case lStr:
		d := in.loadWord(st, p, 8, lPtr, nil)
		n := in.loadWord(st, Ptr{p.Obj, p.Off.addC(8)}, 8, lInt, types.Typ[types.Int])
		return in.mkStr(st, in.asPtr(d), in.T.toLin(n.(Int)))
	case lIface:
		tw := in.loadWord(st, p, 8, lOpaque, nil)
		d := in.loadWord(st, Ptr{p.Obj, p.Off.addC(8)}, 8, lPtr, nil)
		return in.mkIface(st, tw, d)
	case lRVal:
		v := in.loadWord(st, p, 24, lRVal, l.typ)
		return v
	}
	return in.loadWord(st, p, l.size, l.kind, l.typ)
}

func (in *Interp) asPtr(v Val) Ptr {
	switch v := v.(type) {
	case Ptr:
		return v
	case Int:
		if k, ok := v.constBig(); ok && k.Sign() == 0 {
			return nilPtr()
		}
		badAccess("an integer (%s) is used as a pointer", in.T.showInt(v))
	case opaqueV:
		giveUp("opaque value %s used as a pointer", v.key)
	case FuncV:
		if v.Fn == nil && v.Intr == "" {
			return nilPtr()
		}
		return ptrTo(in.symObj(fmt.Sprintf("fn:%v:%p", v.Fn, v.Bind), func() *Obj { return in.newObj(oOther, "func", nil) }))
	case TypeW:
		if v.T == nil {
			return nilPtr()
		}
		return ptrTo(in.typeObj(v.T))
	}
	badAccess("a %T is used as a pointer", v)
	return Ptr{}
}

func (in *Interp) mkStr(st *State, d Ptr, n *Lin) Str {
	if k, ok := n.constInt(); ok && k == 0 {
		e := ""
		return Str{d, n, &e}
	}
	if d.Obj != nil {
		if s, ok := in.litOf[d.Obj]; ok {
			if o, ok := d.Off.constInt(); ok {
				if k, ok := n.constInt(); ok && o >= 0 && o+k <= int64(len(s)) {
					x := s[o : o+k]
					return Str{d, n, &x}
				}
			}
		}
	}
	return Str{d, n, nil}
}

func (in *Interp) mkIface(st *State, tw Val, d Val) Val {
	switch w := tw.(type) {
	case TypeW:
		if w.T == nil {
			return Iface{}
		}
		if pointerShaped(w.T) {
			return Iface{w.T, in.retype(d, w.T)}
		}
		p := in.asPtr(d)
		if p.Obj == nil {
			return Iface{w.T, zeroVal(in, w.T)}
		}
		return Iface{w.T, in.load(st, p, w.T)}
	case Ptr:
		if w.Obj == nil {
			return Iface{}
		}
		if w.Obj.kind == oType {
			return in.mkIface(st, TypeW{w.Obj.rtype}, d)
		}
	case opaqueV:
		return w
	}
	giveUp("interface with type word %T", tw)
	return nil
}

// retype adapts a pointer-shaped word to the representation used for type t.
func (in *Interp) retype(v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Signature); ok {
		return v
	}
	return v
}

func typedLeafAt(o *Obj, off *Lin) (leaf, int64, *Lin, bool) {
	// returns the typed leaf containing byte offset off, the offset within it and the leaf's own offset
	if o.typ == nil {
		return leaf{}, 0, nil, false
	}
	if o.kind == oArr {
		es := sizeof(o.typ)
		if es == 0 {
			return leaf{}, 0, nil, false
		}
		for _, m := range off.m {
			if new(big.Int).Mod(m.c, bigI(es)).Sign() != 0 {
				return leaf{}, 0, nil, false
			}
		}
		r := new(big.Int).Mod(off.k, bigI(es)).Int64()
		for _, l := range leaves(o.typ) {
			if r >= l.off && r < l.off+l.size {
				return l, r - l.off, off.addC(-(r - l.off)), true
			}
		}
		return leaf{}, 0, nil, false
	}
	r, ok := off.constInt()
	if !ok {
		return leaf{}, 0, nil, false
	}
	for _, l := range leaves(o.typ) {
		if r >= l.off && r < l.off+l.size {
			return l, r - l.off, linC(l.off), true
		}
	}
	return leaf{}, 0, nil, false
}

func (in *Interp) offKey(o *Lin) string { return o.Key() }

// symbolic initial content of the typed leaf that contains off.
func (in *Interp) initialWord(st *State, o *Obj, off *Lin, size int64) (Val, int64, *Lin, bool) {
	l, d, lo, ok := typedLeafAt(o, off)
	if !ok {
		return nil, 0, nil, false
	}
	var v Val
	gen := false
	if ct := st.content(o); ct != nil && ct.gen != 0 {
		gen = true
	}
	if !o.sym && !gen {
		v = in.zeroLeaf(l)
	} else {
		v = in.symLeaf(in.cellKey(st, o, lo), l, o.msg)
	}
	// split composite leaves into words
	switch l.kind {
	case lSlice:
		s := v.(Slice)
		switch d {
		case 0:
			return s.Data, 8, lo, true
		case 8:
			return goInt(s.Len), 8, lo.addC(8), true
		case 16:
			return goInt(s.Cap), 8, lo.addC(16), true
		}
		return nil, 0, nil, false
	case lStr:
		s := v.(Str)
		switch d {
		case 0:
			return s.Data, 8, lo, true
		case 8:
			return goInt(s.Len), 8, lo.addC(8), true
		}
		return nil, 0, nil, false
	case lIface:
		if d != 0 && d != 8 {
			return nil, 0, nil, false
		}
		if o.sym {
			if d == 0 {
				return opaqueV{in.cellKey(st, o, lo) + ".type"}, 8, lo, true
			}
			return opaqueV{in.cellKey(st, o, lo) + ".data"}, 8, lo.addC(8), true
		}
		if d == 0 {
			return TypeW{}, 8, lo, true
		}
		return nilPtr(), 8, lo.addC(8), true
	}
	return v, l.size, lo, true
}

func (in *Interp) cellKey(st *State, o *Obj, off *Lin) string {
	if ct := st.content(o); ct != nil && ct.gen != 0 {
		return fmt.Sprintf("%s^%d@[%s]", o.name, ct.gen, off.Key())
	}
	if k, ok := off.constInt(); ok {
		return fmt.Sprintf("%s@%d", o.name, k)
	}
	return fmt.Sprintf("%s@[%s]", o.name, off.Key())
}

// wordAt finds the word stored at exactly off (any size).
func (in *Interp) wordAt(st *State, o *Obj, off *Lin, size int64) (Val, int64, *Lin) {
	ct := st.content(o)
	if ct != nil {
		if k, ok := off.constInt(); ok {
			if c, ok := ct.c[k]; ok {
				return c.val, c.size, off
			}
			for d := int64(1); d < 24; d++ {
				if c, ok := ct.c[k-d]; ok && c.size > d {
					return c.val, c.size, off.addC(-d)
				}
			}
		} else {
			if c, ok := ct.s[off.Key()]; ok {
				return c.val, c.size, off
			}
			for d := int64(1); d < 24; d++ {
				o2 := off.addC(-d)
				if c, ok := ct.s[o2.Key()]; ok && c.size > d {
					return c.val, c.size, o2
				}
			}
		}
		// other symbolic cells may alias
		for _, c := range ct.s {
			if !in.disjoint(st, off, size, c.off, c.size) {
				if d := c.off.sub(off); in.decideLinZero(st.f, d) == 1 {
					return c.val, c.size, off
				}
				giveUp("read of %s at %s may alias the element stored at %s", o.name, off, c.off)
			}
		}
		if !off.isConst() {
			for _, c := range ct.c {
				if !in.disjoint(st, off, size, c.off, c.size) {
					if d := c.off.sub(off); in.decideLinZero(st.f, d) == 1 {
						return c.val, c.size, off
					}
					giveUp("read of %s at %s may alias offset %s", o.name, off, c.off)
				}
			}
		}
		if ct.dirty {
			giveUp("read of %s at %s after an untracked write", o.name, off)
		}
		for i := len(ct.copied) - 1; i >= 0; i-- {
			r := ct.copied[i]
			if in.entails(st.f, off.sub(r.off)) && in.entails(st.f, r.off.add(r.n).sub(off).addC(-size)) {
				v, sz, o2 := in.wordAt(st, r.src.Obj, r.src.Off.add(off.sub(r.off)), size)
				return v, sz, o2.sub(r.src.Off).add(r.off)
			}
			if !in.disjointLin(st, off, linC(size), r.off, r.n) {
				giveUp("read of %s at %s may or may not fall into a copied range", o.name, off)
			}
		}
	}
	if o.kind == oBuf {
		return in.bufByte(st, o, off, size), size, off
	}
	if o.global != nil && !in.tracked(o.global) {
		return in.extGlobal(o, off, size), size, off
	}
	if k, ok := off.constInt(); ok && !o.sym && o.kind == oArr && o.allocLen == nil && o.size != nil {
		_ = k
	}
	v, sz, lo, ok := in.initialWord(st, o, off, size)
	if !ok {
		if o.kind == oOther {
			return opaqueV{fmt.Sprintf("%s@%s", o.name, off.Key())}, size, off
		}
		badAccess("read of %d bytes at offset %s of %s, which holds no such value", size, off, o.name)
	}
	return v, sz, lo
}

func (in *Interp) disjoint(st *State, a *Lin, an int64, b *Lin, bn int64) bool {
	d := b.sub(a) // b - a
	if k, ok := d.constInt(); ok {
		return k >= an || -k >= bn
	}
	return in.entails(st.f, d.addC(-an)) || in.entails(st.f, d.neg().addC(-bn))
}

func (in *Interp) loadWord(st *State, p Ptr, size int64, kind leafKind, t types.Type) Val {
	if t != nil && size == 0 {
		size = sizeof(t)
	}
	v, sz, off := in.wordAt(st, p.Obj, p.Off, size)
	if mr, ok := v.(mapRef); ok {
		return in.castWord(in.mapCell(st, p.Obj, mr.val), size, kind, t)
	}
	if !off.eq(p.Off) || sz != size {
		v = in.subWord(st, p, size, v, sz, off)
	}
	return in.castWord(v, size, kind, t)
}

// subWord reads part of, or several, integer-like words.
func (in *Interp) subWord(st *State, p Ptr, size int64, v Val, sz int64, off *Lin) Val {
	var bits []Bit
	at := p.Off
	need := size
	for {
		bs, ok := in.wordBits(v)
		if !ok {
			badAccess("read of %d bytes at offset %s of %s overlaps part of a %d-byte non-numeric word", size, p.Off, p.Obj.name, sz)
		}
		d, _ := at.sub(off).constInt()
		avail := sz - d
		take := need
		if take > avail {
			take = avail
		}
		bits = append(bits, bs[d*8:(d+take)*8]...)
		need -= take
		if need == 0 {
			break
		}
		at = at.addC(take)
		v, sz, off = in.wordAt(st, p.Obj, at, need)
	}
	return Int{W: int(size) * 8, bits: bits}
}

func (in *Interp) wordBits(v Val) ([]Bit, bool) {
	switch v := v.(type) {
	case Int:
		return in.T.toBits(v), true
	case Bool:
		b, ok := in.boolBit(v)
		if !ok {
			return nil, false
		}
		bs := make([]Bit, 8)
		bs[0] = b
		return bs, true
	case Float:
		if v.bits != nil {
			return v.bits, true
		}
	}
	return nil, false
}

func (in *Interp) boolBit(b Bool) (Bit, bool) {
	c := b.c
	if c.kind == cConst {
		if c.val {
			return bit1, true
		}
		return bit0, true
	}
	if c.kind == cBZ && len(c.bits) == 1 {
		// value is (bits==0) xor neg
		r := c.bits[0].not()
		if c.neg {
			r = r.not()
		}
		return r, true
	}
	a := in.T.atomR("bool("+c.key+")", 1, false, big0, big1)
	r := bitVar(a, 0)
	if c.neg {
		r = r.not()
	}
	in.boolAtoms[a] = c
	return r, true
}

func (in *Interp) castWord(v Val, size int64, kind leafKind, t types.Type) Val {
	switch kind {
	case lInt:
		w, s := intInfo(t)
		switch x := v.(type) {
		case Int:
			if x.W == w && x.Signed == s {
				return x
			}
			return in.reinterp(x, w, s)
		case Ptr:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				return x
			}
			if x.Obj == nil {
				return intC(0, w, s)
			}
			badAccess("a pointer word is read as %s", t)
		case opaqueV:
			return intL(linA(in.T.atom(x.key+":"+t.String(), w, s)), w, s)
		}
		if bs, ok := in.wordBits(v); ok && len(bs) == w {
			return Int{W: w, Signed: s, bits: bs}
		}
		badAccess("a %T word is read as %s", v, t)
	case lBool:
		switch x := v.(type) {
		case Bool:
			return x
		}
		if bs, ok := in.wordBits(v); ok {
			return Bool{mkBZ(bs).not()}
		}
		badAccess("a %T word is read as bool", v)
	case lFloat:
		switch x := v.(type) {
		case Float:
			return x
		}
		if bs, ok := in.wordBits(v); ok {
			return Float{W: len(bs), bits: bs}
		}
		badAccess("a %T word is read as a float", v)
	case lPtr:
		if _, ok := v.(opaqueV); ok {
			return v
		}
		if f, ok := v.(FuncV); ok {
			return f
		}
		return in.asPtr(v)
	case lFunc:
		switch x := v.(type) {
		case FuncV:
			return x
		case Ptr:
			if x.Obj == nil {
				return FuncV{}
			}
		}
		giveUp("a %T word is read as a function", v)
	}
	return v
}

func (in *Interp) reinterp(x Int, w int, s bool) Int {
	bs := in.T.toBits(x)
	if w <= len(bs) {
		r := Int{W: w, Signed: s, bits: bs[:w]}
		if x.lin != nil && x.lin.isConst() {
			k, _ := bitsConst(r.bits, s)
			return intL(linB(k), w, s)
		}
		return r
	}
	badAccess("reading %d bits from a %d-bit word", w, len(bs))
	return Int{}
}

// inputWrite reports a write to the buffer that is decoded. The analysis goes
// on as if it had not happened.
func (in *Interp) inputWrite(st *State, o *Obj) bool {
	if o != nil && o.input {
		in.report(st, "input-write", "the input buffer is written to", "C10")
		return true
	}
	return false
}

func (in *Interp) store(st *State, p Ptr, v Val, t types.Type) {
	p = in.requireNonNil(st, p, "store")
	t = types.Unalias(t)
	in.checkLive(st, p, "write")
	sz := sizeof(t)
	if sz > 0 {
		in.extentCheck(st, p, sz, "write")
	}
	if sz > 0 {
		if in.inputWrite(st, p.Obj) {
			return
		}
		st.event(Event{kind: "store", obj: p.Obj, off: p.Off, size: linC(sz), val: v, pos: in.curPos(), fn: in.curFn()})
		in.checkPublished(st, p.Obj, "stored to")
		in.access(st, p.Obj, p.Off, sz, true)
		in.shared(st, p.Obj, v)
	}
	if isAgg(t) {
		a, ok := v.(Agg)
		if !ok {
			giveUp("store of %T as %s", v, t)
		}
		for _, l := range leaves(t) {
			lv, ok := a.L[l.off]
			if !ok {
				lv = in.zeroLeaf(l)
			}
			in.storeLeaf(st, Ptr{p.Obj, p.Off.addC(l.off)}, lv, l)
		}
		return
	}
	in.storeLeaf(st, p, v, leaves(t)[0])
}

func (in *Interp) storeLeaf(st *State, p Ptr, v Val, l leaf) {
	at := func(d int64) Ptr { return Ptr{p.Obj, p.Off.addC(d)} }
	switch l.kind {
	case lSlice:
		s := v.(Slice)
		in.storeWord(st, at(0), s.Data, 8)
		in.storeWord(st, at(8), goInt(s.Len), 8)
		in.storeWord(st, at(16), goInt(s.Cap), 8)
	case lStr:
		s := in.strPtr(v.(Str))
		in.storeWord(st, at(0), s.Data, 8)
		in.storeWord(st, at(8), goInt(s.Len), 8)
	case lIface:
		tw, d := in.ifaceWords(st, v)
		in.storeWord(st, at(0), tw, 8)
		in.storeWord(st, at(8), d, 8)
	case lRVal:
		in.storeWord(st, p, v, 24)
	default:
		in.storeWord(st, p, v, l.size)
	}
}

// strPtr gives a literal string an object.
func (in *Interp) strPtr(s Str) Str {
	if s.Data.Obj == nil && s.lit != nil && len(*s.lit) > 0 {
		o := in.symObj("lit:"+*s.lit, func() *Obj {
			o := in.newObj(oBuf, fmt.Sprintf("lit %q", *s.lit), nil)
			o.size = linC(int64(len(*s.lit)))
			in.litOf[o] = *s.lit
			return o
		})
		return Str{ptrTo(o), s.Len, s.lit}
	}
	return s
}

func (in *Interp) ifaceWords(st *State, v Val) (Val, Val) {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return TypeW{}, nilPtr()
		}
		if pointerShaped(x.T) {
			return TypeW{x.T}, x.V
		}
		o := in.newObj(oMem, "box "+x.T.String(), x.T)
		in.storeRaw(st, ptrTo(o), x.V, x.T)
		return TypeW{x.T}, ptrTo(o)
	case opaqueV:
		return x, opaqueV{x.key + ".data"}
	}
	giveUp("interface value %T", v)
	return nil, nil
}

// storeRaw stores without logging.
func (in *Interp) storeRaw(st *State, p Ptr, v Val, t types.Type) {
	t = types.Unalias(t)
	if isAgg(t) {
		a := v.(Agg)
		for _, l := range leaves(t) {
			lv, ok := a.L[l.off]
			if !ok {
				lv = in.zeroLeaf(l)
			}
			in.storeLeaf(st, Ptr{p.Obj, p.Off.addC(l.off)}, lv, l)
		}
		return
	}
	in.storeLeaf(st, p, v, leaves(t)[0])
}

func (in *Interp) storeWord(st *State, p Ptr, v Val, size int64) {
	ct := st.mut(p.Obj)
	if p.Obj.kind == oBuf {
		in.bufStore(st, p, v, size)
		return
	}
	if x, ok := v.(Ptr); ok && x.Obj != nil {
		if l, _, _, ok := typedLeafAt(p.Obj, p.Off); ok && (l.kind == lInt || l.kind == lFloat) && (p.Obj.libNew || !isUintptr(l.typ)) {
			in.report(st, "untyped-pointer", fmt.Sprintf("a pointer is stored in memory of type %s, where the collector does not see it", p.Obj.typ), "C23")
		}
	}
	if k, ok := p.Off.constInt(); ok {
		if c, ok := ct.c[k]; ok && c.size == size {
			ct.c[k] = cell{p.Off, size, v}
			return
		}
		in.splitOverlap(st, ct, p.Obj, k, size)
		// symbolic cells that might alias
		for key, c := range ct.s {
			if !in.disjoint(st, p.Off, size, c.off, c.size) {
				if in.decideLinZero(st.f, c.off.sub(p.Off)) == 1 {
					delete(ct.s, key)
					continue
				}
				giveUp("write to %s at %s may alias %s", p.Obj.name, p.Off, c.off)
			}
		}
		ct.c[k] = cell{p.Off, size, v}
		return
	}
	if ct.s == nil {
		ct.s = map[string]cell{}
	}
	key := p.Off.Key()
	if c, ok := ct.s[key]; ok && c.size == size {
		ct.s[key] = cell{p.Off, size, v}
		return
	}
	for k2, c := range ct.s {
		if !in.disjoint(st, p.Off, size, c.off, c.size) {
			if in.decideLinZero(st.f, c.off.sub(p.Off)) == 1 && c.size == size {
				delete(ct.s, k2)
				continue
			}
			giveUp("write to %s at %s may alias %s", p.Obj.name, p.Off, c.off)
		}
	}
	for k2, c := range ct.c {
		if !in.disjoint(st, p.Off, size, c.off, c.size) {
			if in.decideLinZero(st.f, c.off.sub(p.Off)) == 1 && c.size == size {
				delete(ct.c, k2)
				continue
			}
			giveUp("write to %s at %s may alias %s", p.Obj.name, p.Off, c.off)
		}
	}
	ct.s[key] = cell{p.Off, size, v}
}

// splitOverlap prepares constant-offset storage for a write of size bytes at k,
// materialising numeric words that the write covers only partly.
func (in *Interp) splitOverlap(st *State, ct *Content, o *Obj, k, size int64) {
	// words stored or initial that overlap [k, k+size)
	at := k
	type part struct {
		off  int64
		size int64
		val  Val
	}
	var parts []part
	for at < k+size {
		v, sz, off := in.wordAtForStore(st, o, at)
		if v == nil {
			at++
			continue
		}
		oc, _ := off.constInt()
		if oc < k || oc+sz > k+size {
			parts = append(parts, part{oc, sz, v})
		}
		at = oc + sz
	}
	for d := range ct.c {
		if d < k+size && d+ct.c[d].size > k {
			delete(ct.c, d)
		}
	}
	for _, pt := range parts {
		bs, ok := in.wordBits(pt.val)
		if !ok {
			badAccess("write of %d bytes at offset %d of %s overlaps part of a pointer word at offset %d", size, k, o.name, pt.off)
		}
		if pt.off < k {
			n := k - pt.off
			ct.c[pt.off] = cell{linC(pt.off), n, Int{W: int(n) * 8, bits: bs[:n*8]}}
		}
		if pt.off+pt.size > k+size {
			d := k + size - pt.off
			n := pt.size - d
			ct.c[k+size] = cell{linC(k + size), n, Int{W: int(n) * 8, bits: bs[d*8:]}}
		}
	}
}

func (in *Interp) wordAtForStore(st *State, o *Obj, at int64) (Val, int64, *Lin) {
	ct := st.content(o)
	if ct != nil {
		for d := int64(0); d < 24; d++ {
			if c, ok := ct.c[at-d]; ok && c.size > d {
				return c.val, c.size, linC(at - d)
			}
		}
	}
	if o.global != nil && !in.tracked(o.global) {
		return nil, 0, nil
	}
	v, sz, lo, ok := in.initialWord(st, o, linC(at), 1)
	if !ok {
		return nil, 0, nil
	}
	return v, sz, lo
}

// requireNonNil resolves a possibly-nil pointer on this path; the interpreter
// has already split paths on nilness (see derefPaths).
func (in *Interp) requireNonNil(st *State, p Ptr, what string) Ptr {
	if p.Obj == nil {
		badAccess("%s through a nil pointer", what)
	}
	if p.Obj.nilC != nil {
		switch in.decide(st, p.Obj.nilC) {
		case 1:
			badAccess("%s through a nil pointer", what)
		case 0:
			badAccess("%s through a pointer that may be nil (%s)", what, p.Obj.name)
		}
	}
	return p
}

func constVal(in *Interp, c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			giveUp("zero of type parameter %s", tp)
		}
		return zeroVal(in, t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		giveUp("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool{condB(constant.BoolVal(c.Value))}
	case b.Info()&types.IsInteger != 0:
		w, s := intInfo(t)
		v := constant.ToInt(c.Value)
		k, _ := new(big.Int).SetString(v.ExactString(), 10)
		if b.Kind() == types.Uintptr && k.Sign() == 0 {
			return intC(0, w, s)
		}
		return intL(linB(k), w, s)
	case b.Info()&types.IsFloat != 0:
		return floatConst(c, int(sizeof(t))*8)
	case b.Info()&types.IsString != 0:
		return in.litStr(constant.StringVal(c.Value))
	case b.Kind() == types.UnsafePointer:
		return nilPtr()
	}
	giveUp("constant %s", c)
	return nil
}

func (in *Interp) litStr(s string) Str {
	return Str{nilPtr(), linC(int64(len(s))), &s}
}

func sortedKeys(m map[int64]cell) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func show(in *Interp, v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case Int:
		return in.T.showInt(v)
	case Bool:
		return v.c.String()
	case Float:
		if v.bits == nil {
			return "float(conv)"
		}
		return "float(" + in.T.showInt(Int{W: v.W, bits: v.bits}) + ")"
	case Ptr:
		if v.Obj == nil {
			return "nil"
		}
		if v.Off.isConst() && v.Off.k.Sign() == 0 {
			return "&" + v.Obj.name
		}
		return "&" + v.Obj.name + "+" + v.Off.String()
	case Slice:
		return fmt.Sprintf("slice{%s, len %s, cap %s}", show(in, v.Data), v.Len, v.Cap)
	case Str:
		if v.lit != nil {
			return fmt.Sprintf("%q", *v.lit)
		}
		return fmt.Sprintf("string{%s, len %s}", show(in, v.Data), v.Len)
	case Iface:
		if v.T == nil {
			return "nil-interface"
		}
		return fmt.Sprintf("iface(%s: %s)", v.T, show(in, v.V))
	case FuncV:
		if v.Fn != nil {
			return "func " + v.Fn.String()
		}
		return "func <" + v.Intr + ">"
	case Tuple:
		var p []string
		for _, x := range v {
			p = append(p, show(in, x))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case Agg:
		var ks []int64
		for k := range v.L {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		var p []string
		for _, k := range ks {
			p = append(p, fmt.Sprintf("%d:%s", k, show(in, v.L[k])))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case opaqueV:
		return "?" + v.key
	}
	return fmt.Sprintf("%T", v)
}
