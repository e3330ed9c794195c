package main

// Models of what lies below the analysed code: builtins, reflection, the
// synchronised containers, the linknamed runtime entry points.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func ret(st *State, vals ...Val) []Outcome { return []Outcome{{st: st, vals: vals}} }

// mapRef is a cell of a map iterator whose value follows the iterator's position.
type mapRef struct{ val bool }

type pendingPub struct {
	key *Obj
	val Val
}

// pubState: what other goroutines can see.
type pubState struct {
	m       map[*Obj]bool
	pending []pendingPub
}

func floatLit(f float64, w int) Val {
	if w == 32 {
		return Float{W: 32, bits: constBits(new(big.Int).SetUint64(uint64(math.Float32bits(float32(f)))), 32)}
	}
	return Float{W: 64, bits: constBits(new(big.Int).SetUint64(math.Float64bits(f)), 64)}
}

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

// ---- visibility ----

func (in *Interp) reachVal(st *State, v Val, visit func(*Obj) bool) {
	switch x := v.(type) {
	case Ptr:
		if x.Obj != nil && visit(x.Obj) {
			in.reachObj(st, x.Obj, visit)
		}
	case Slice:
		in.reachVal(st, x.Data, visit)
	case Str:
		in.reachVal(st, x.Data, visit)
	case Iface:
		in.reachVal(st, x.V, visit)
	case FuncV:
		for _, b := range x.Bind {
			in.reachVal(st, b, visit)
		}
		if x.Recv != nil {
			in.reachVal(st, x.Recv, visit)
		}
	case Agg:
		for _, l := range x.L {
			in.reachVal(st, l, visit)
		}
	case Tuple:
		for _, l := range x {
			in.reachVal(st, l, visit)
		}
	case RVal:
		in.reachVal(st, x.V, visit)
		if x.Ptr != nil {
			in.reachVal(st, *x.Ptr, visit)
		}
	}
}

func (in *Interp) reachObj(st *State, o *Obj, visit func(*Obj) bool) {
	ct := st.content(o)
	if ct == nil {
		return
	}
	for _, k := range sortedKeys(ct.c) {
		in.reachVal(st, ct.c[k].val, visit)
	}
	var ks []string
	for k := range ct.s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		in.reachVal(st, ct.s[k].val, visit)
	}
	for _, it := range ct.seq {
		if b, ok := it.(BytesItem); ok {
			_ = b // content copies, not references
		}
	}
	for _, e := range ct.assoc {
		in.reachVal(st, e.k, visit)
		in.reachVal(st, e.v, visit)
	}
	for _, r := range ct.copied {
		in.reachVal(st, r.src, func(o *Obj) bool { return false })
	}
}

func (in *Interp) publish(st *State, v Val) {
	ps := &pubState{m: map[*Obj]bool{}, pending: st.pub.pending}
	for k := range st.pub.m {
		ps.m[k] = true
	}
	visit := func(o *Obj) bool {
		if o.kind == oType || ps.m[o] {
			return false
		}
		ps.m[o] = true
		return true
	}
	in.reachVal(st, v, visit)
	for changed := true; changed; {
		changed = false
		for i, p := range ps.pending {
			if p.key != nil && ps.m[p.key] {
				ps.pending = append(append([]pendingPub(nil), ps.pending[:i]...), ps.pending[i+1:]...)
				in.reachVal(st, p.val, visit)
				changed = true
				break
			}
		}
	}
	st.pub = ps
}

// publishEntry: an entry of a synchronised container; it is visible once its
// key is (a key nobody else holds cannot be looked up).
func (in *Interp) publishEntry(st *State, k, v Val) {
	if i, ok := k.(Iface); ok {
		k = i.V
	}
	if p, ok := k.(Ptr); ok && p.Obj != nil && p.Obj.kind != oType && !st.pub.m[p.Obj] && p.Obj.libNew {
		ps := &pubState{m: st.pub.m, pending: append(append([]pendingPub(nil), st.pub.pending...), pendingPub{p.Obj, v})}
		st.pub = ps
		return
	}
	in.publish(st, v)
}

func (in *Interp) checkPublished(st *State, o *Obj, what string) {
	if o == nil || !in.initDone || st.locks.exclusive() {
		return
	}
	if o.global != nil || st.pub.m[o] {
		in.report(st, "published-write", fmt.Sprintf("%s is %s although it is already visible to other goroutines", o.name, what), "C15", "C27")
	}
}

// ---- reflection ----

func (in *Interp) rtype(t types.Type) Iface {
	return Iface{in.P.rtypeT, ptrTo(in.typeObj(t))}
}

func typeOfR(v Val) types.Type {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return nil
		}
		return typeOfR(x.V)
	case Ptr:
		if x.Obj != nil && x.Obj.kind == oType {
			return x.Obj.rtype
		}
	}
	giveUp("unknown reflect.Type %T", v)
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (in *Interp) structFieldVal(st *types.Struct, i int) Val {
	sf := in.P.reflectP.Scope().Lookup("StructField").Type()
	f := st.Field(i)
	u := sf.Underlying().(*types.Struct)
	a := Agg{sf, map[int64]Val{}}
	for k := 0; k < u.NumFields(); k++ {
		off := fieldOffset(u, k)
		switch u.Field(k).Name() {
		case "Name":
			a.L[off] = in.litStr(f.Name())
		case "PkgPath":
			p := ""
			if !f.Exported() {
				p = "verif"
				if f.Pkg() != nil {
					p = f.Pkg().Path()
				}
			}
			a.L[off] = in.litStr(p)
		case "Type":
			a.L[off] = in.rtype(f.Type())
		case "Tag":
			a.L[off] = in.litStr(st.Tag(i))
		case "Offset":
			a.L[off] = intC(fieldOffset(st, i), 64, false)
		case "Index":
			a.L[off] = Slice{nilPtr(), linC(0), linC(0)}
		case "Anonymous":
			a.L[off] = Bool{condB(f.Embedded())}
		}
	}
	return a
}

func (in *Interp) rtypeMethod(st *State, name string, t types.Type, args []Val) []Outcome {
	bad := func() []Outcome {
		return []Outcome{in.fault(st, fmt.Sprintf("reflect: %s of inappropriate type %s", name, t))}
	}
	u := types.Unalias(t).Underlying()
	switch name {
	case "Kind":
		return ret(st, intC(int64(kindOf(t)), 64, false))
	case "Elem":
		switch u := u.(type) {
		case *types.Pointer:
			return ret(st, in.rtype(u.Elem()))
		case *types.Slice:
			return ret(st, in.rtype(u.Elem()))
		case *types.Array:
			return ret(st, in.rtype(u.Elem()))
		case *types.Map:
			return ret(st, in.rtype(u.Elem()))
		case *types.Chan:
			return ret(st, in.rtype(u.Elem()))
		}
		return bad()
	case "Key":
		if m, ok := u.(*types.Map); ok {
			return ret(st, in.rtype(m.Key()))
		}
		return bad()
	case "Len":
		if a, ok := u.(*types.Array); ok {
			return ret(st, goIntC(a.Len()))
		}
		return bad()
	case "NumField":
		if s, ok := u.(*types.Struct); ok {
			return ret(st, goIntC(int64(s.NumFields())))
		}
		return bad()
	case "Field":
		s, ok := u.(*types.Struct)
		k, ok2 := args[0].(Int).constBig()
		if !ok || !ok2 {
			return bad()
		}
		if k.Sign() < 0 || k.Cmp(bigI(int64(s.NumFields()))) >= 0 {
			return []Outcome{in.fault(st, "reflect: Field index out of bounds")}
		}
		return ret(st, in.structFieldVal(s, int(k.Int64())))
	case "Size":
		return ret(st, intC(sizeof(t), 64, false))
	case "Align", "FieldAlign":
		return ret(st, goIntC(sizes.Alignof(t)))
	case "String":
		return ret(st, in.litStr(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
	case "Name":
		n := ""
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			n = x.Obj().Name()
		case *types.Basic:
			n = x.Name()
		}
		return ret(st, in.litStr(n))
	case "PkgPath":
		n := ""
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			n = x.Obj().Pkg().Path()
		}
		return ret(st, in.litStr(n))
	case "Comparable":
		return ret(st, Bool{condB(types.Comparable(t))})
	case "NumMethod":
		return ret(st, goIntC(int64(types.NewMethodSet(t).Len())))
	case "Implements":
		o := typeOfR(args[0])
		if i, ok := o.Underlying().(*types.Interface); ok {
			return ret(st, Bool{condB(types.Implements(t, i))})
		}
		return bad()
	case "AssignableTo":
		return ret(st, Bool{condB(types.AssignableTo(t, typeOfR(args[0])))})
	case "ConvertibleTo":
		return ret(st, Bool{condB(types.ConvertibleTo(t, typeOfR(args[0])))})
	}
	giveUp("reflect.Type.%s has no model", name)
	return nil
}

func (in *Interp) newZero(st *State, t types.Type, what string) *Obj {
	o := in.newObj(oMem, what+" "+types.TypeString(t, func(p *types.Package) string { return p.Name() }), t)
	o.libNew = true
	o.zero = true
	st.mut(o)
	st.event(Event{kind: "alloc", obj: o, size: linC(sizeof(t)), pos: in.curPos(), fn: in.curFn()})
	return o
}

// ---- method calls on modelled receivers ----

func (in *Interp) intrinsicMethod(st *State, fv FuncV, args []Val) []Outcome {
	kind, name, _ := strings.Cut(fv.Intr, ":")
	switch kind {
	case "rtype":
		return in.rtypeMethod(st, name, typeOfR(fv.Recv), args)
	case "opaque":
		if name == "Error" || name == "String" {
			return ret(st, in.symStr("text of "+show(in, fv.Recv), false))
		}
	case "builtin":
		return in.builtin(in.curFrame(), st, name, args, nil)
	}
	if out, ok := in.genIntrinsic(st, fv, args); ok {
		return out
	}
	giveUp("call of %s has no model", fv.Intr)
	return nil
}

// ---- builtins ----

func (in *Interp) builtin(fr *Frame, st *State, name string, args []Val, cc *ssa.CallCommon) []Outcome {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if name == "cap" {
				return ret(st, goInt(x.Cap))
			}
			return ret(st, goInt(x.Len))
		case Str:
			return ret(st, goInt(x.Len))
		case Ptr:
			if x.Obj == nil {
				return ret(st, goIntC(0))
			}
			if x.Obj.kind == oMap {
				if x.Obj.sym {
					return ret(st, goInt(x.Obj.count))
				}
				for _, e := range in.assocOf(st, x.Obj) {
					if _, ok := in.keyOf(e.k); !ok {
						giveUp("len of a map with unknown keys")
					}
				}
				return ret(st, goIntC(int64(len(in.assocOf(st, x.Obj)))))
			}
			if cc != nil {
				t := cc.Args[0].Type().Underlying()
				if p, ok := t.(*types.Pointer); ok {
					if a, ok := p.Elem().Underlying().(*types.Array); ok {
						return ret(st, goIntC(a.Len()))
					}
				}
			}
		case Agg:
			if a, ok := x.T.Underlying().(*types.Array); ok {
				return ret(st, goIntC(a.Len()))
			}
		}
		giveUp("%s of %T", name, args[0])
	case "append":
		return in.appendB(fr, st, args, cc)
	case "copy":
		return in.copyB(fr, st, args, cc)
	case "delete":
		m := in.asPtr(args[0])
		if m.Obj == nil {
			return ret(st)
		}
		if m.Obj.sym {
			giveUp("delete from a message map")
		}
		ks, ok := in.keyOf(args[1])
		if !ok {
			giveUp("delete with unknown key")
		}
		in.checkPublished(st, m.Obj, "updated")
		ct := st.mut(m.Obj)
		var na []assocEnt
		for _, e := range ct.assoc {
			if e.key != ks {
				na = append(na, e)
			}
		}
		ct.assoc = na
		return ret(st)
	case "print", "println":
		return ret(st)
	case "recover":
		if len(in.stack) >= 2 {
			p := in.stack[len(in.stack)-2]
			if p.panicV != nil && !p.recovered {
				st.event(Event{kind: "recover", aux: p.panicV})
				v := p.panicV.pv
				if v == nil {
					o := in.newObj(oOther, "runtime error", nil)
					v = Iface{in.P.opaqueErr, ptrTo(o)}
				}
				return ret(st, v)
			}
		}
		return ret(st, Iface{})
	case "ssa:wrapnilchk":
		p := in.asPtr(args[0])
		return in.withNonNil(st, p, func(st *State) []Outcome { return ret(st, args[0]) })
	case "min", "max":
		x, y := args[0].(Int), args[1].(Int)
		c := in.mkLT(st, x, y)
		var outs []Outcome
		for _, b := range in.splitCond(st, c) {
			if b.val == (name == "min") {
				outs = append(outs, Outcome{st: b.st, vals: []Val{x}})
			} else {
				outs = append(outs, Outcome{st: b.st, vals: []Val{y}})
			}
		}
		return outs
	case "clear":
		if p, ok := args[0].(Ptr); ok && p.Obj != nil && p.Obj.kind == oMap && !p.Obj.sym {
			in.checkPublished(st, p.Obj, "cleared")
			st.mut(p.Obj).assoc = nil
			return ret(st)
		}
	case "Add": // unsafe.Add
		p := in.asPtr(args[0])
		if p.Obj == nil {
			if k, ok := args[1].(Int).constBig(); ok && k.Sign() == 0 {
				return ret(st, p)
			}
			badAccess("pointer arithmetic on nil")
		}
		return ret(st, Ptr{p.Obj, p.Off.add(in.linOf(st, args[1].(Int)))})
	case "SliceData":
		return ret(st, args[0].(Slice).Data)
	case "StringData":
		return ret(st, in.strPtr(args[0].(Str)).Data)
	case "Slice":
		p := in.asPtr(args[0])
		n := in.linOf(st, args[1].(Int))
		if !in.entails(st.f, n) {
			return []Outcome{in.fault(st, "unsafe.Slice: length may be negative")}
		}
		if p.Obj == nil {
			return ret(st, Slice{nilPtr(), linC(0), linC(0)})
		}
		return ret(st, Slice{p, n, n})
	case "String":
		p := in.asPtr(args[0])
		n := in.linOf(st, args[1].(Int))
		return ret(st, in.mkStr(st, p, n))
	}
	if name == "Offsetof" && cc != nil {
		switch x := cc.Args[0].(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if s, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
					return ret(st, goIntC(fieldOffset(s, fa.Field)))
				}
			}
		case *ssa.Field:
			if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
				return ret(st, goIntC(fieldOffset(s, x.Field)))
			}
		}
	}
	giveUp("builtin %s has no model", name)
	return nil
}

func (in *Interp) appendB(fr *Frame, st *State, args []Val, cc *ssa.CallCommon) []Outcome {
	s := args[0].(Slice)
	var el types.Type = types.Typ[types.Uint8]
	if cc != nil {
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			el = sl.Elem()
		}
	}
	if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		var items []Item
		switch y := args[1].(type) {
		case Slice:
			if k, ok := y.Len.constInt(); ok && k == 0 {
				items = nil
			} else {
				items = in.contentOfSlice(st, y)
			}
		case Str:
			items = in.strItems(st, y)
		default:
			giveUp("append of %T", args[1])
		}
		var outs []Outcome
		for _, r := range in.appendItems(st, s, items, in.curPos()) {
			outs = append(outs, Outcome{st: r.st, vals: []Val{r.s}})
		}
		return outs
	}
	y, ok := args[1].(Slice)
	if !ok {
		giveUp("append of %T", args[1])
	}
	es := sizeof(el)
	m, ok := y.Len.constInt()
	if !ok {
		giveUp("append of a slice of unknown length")
	}
	if m == 0 {
		return ret(st, s)
	}
	var vals []Val
	for i := int64(0); i < m; i++ {
		vals = append(vals, in.load(st, Ptr{y.Data.Obj, y.Data.Off.addC(i * es)}, el))
	}
	put := func(st *State, data Ptr, n *Lin) {
		for i, v := range vals {
			in.store(st, Ptr{data.Obj, data.Off.add(n.scale(bigI(es))).addC(int64(i) * es)}, v, el)
		}
	}
	inPlace := mkGE(s.Cap.sub(s.Len).addC(-m))
	if s.Data.Obj == nil {
		inPlace = condB(false)
	}
	var outs []Outcome
	for _, b := range in.splitCond(st, inPlace) {
		nl := s.Len.addC(m)
		if b.val {
			put(b.st, s.Data, s.Len)
			outs = append(outs, Outcome{st: b.st, vals: []Val{Slice{s.Data, nl, s.Cap}}})
			continue
		}
		o := in.newObj(oArr, "arr:"+el.String(), el)
		o.libNew, o.zero = true, true
		var c *Lin
		if k, ok := nl.constInt(); ok {
			c = linC(2 * k)
		} else {
			ca := in.lenAtom(fmt.Sprintf("cap~%d", o.id))
			in.baseLins[ca] = linA(ca).sub(nl)
			c = linA(ca)
		}
		o.size = c.scale(bigI(es))
		o.allocLen = c
		b.st.mut(o)
		b.st.event(Event{kind: "alloc", obj: o, size: nl.scale(bigI(2 * es)), pos: in.curPos(), fn: in.curFn()})
		in.copyRange(b.st, ptrTo(o), s.Data, s.Len, el)
		put(b.st, ptrTo(o), s.Len)
		outs = append(outs, Outcome{st: b.st, vals: []Val{Slice{ptrTo(o), nl, c}}})
	}
	return outs
}

type copyRec struct {
	off *Lin // bytes
	src Ptr
	n   *Lin // bytes
}

// copyRange copies n elements.
func (in *Interp) copyRange(st *State, dst, src Ptr, n *Lin, el types.Type) {
	es := sizeof(el)
	if in.decideLinZero(st.f, n) == 1 || es == 0 {
		return
	}
	if src.Obj == nil {
		giveUp("copy from nil")
	}
	if k, ok := n.constInt(); ok && k <= 256 {
		var vals []Val
		for i := int64(0); i < k; i++ {
			vals = append(vals, in.load(st, Ptr{src.Obj, src.Off.addC(i * es)}, el))
		}
		for i := int64(0); i < k; i++ {
			in.store(st, Ptr{dst.Obj, dst.Off.addC(i * es)}, vals[i], el)
		}
		return
	}
	in.checkPublished(st, dst.Obj, "copied to")
	nb := n.scale(bigI(es))
	in.extentLin(st, dst, nb, "copy to")
	in.extentLin(st, src, nb, "copy from")
	if in.inputWrite(st, dst.Obj) {
		return
	}
	st.event(Event{kind: "store", obj: dst.Obj, off: dst.Off, size: nb, pos: in.curPos(), fn: in.curFn()})
	ct := st.mut(dst.Obj)
	// cells overwritten
	for k, c := range ct.c {
		if !in.disjointLin(st, dst.Off, nb, c.off, linC(c.size)) {
			delete(ct.c, k)
		}
	}
	for k, c := range ct.s {
		if !in.disjointLin(st, dst.Off, nb, c.off, linC(c.size)) {
			delete(ct.s, k)
		}
	}
	ct.copied = append(ct.copied[:len(ct.copied):len(ct.copied)], copyRec{dst.Off, src, nb})
}

func (in *Interp) disjointLin(st *State, a, an, b, bn *Lin) bool {
	return in.entails(st.f, b.sub(a).sub(an)) || in.entails(st.f, a.sub(b).sub(bn))
}

func (in *Interp) extentLin(st *State, p Ptr, n *Lin, what string) {
	if p.Obj == nil {
		badAccess("%s nil", what)
	}
	if p.Obj.size == nil {
		return
	}
	if !in.entails(st.f, p.Off) || !in.entails(st.f, p.Obj.size.sub(p.Off).sub(n)) {
		badAccess("%s %s bytes at offset %s not within %s (extent %s)", what, n, p.Off, p.Obj.name, p.Obj.size)
	}
}

// contentOfSlice reads a byte slice's content, noting reads of the input.
func (in *Interp) contentOfSlice(st *State, y Slice) []Item {
	if y.Data.Obj != nil && y.Data.Obj.input {
		st.event(Event{kind: "readinput", obj: y.Data.Obj, off: y.Data.Off, size: y.Len, pos: in.curPos(), fn: in.curFn()})
	}
	return in.contentOf(st, y.Data, y.Len)
}

func (in *Interp) copyB(fr *Frame, st *State, args []Val, cc *ssa.CallCommon) []Outcome {
	d := args[0].(Slice)
	var sl *Lin
	switch y := args[1].(type) {
	case Slice:
		sl = y.Len
	case Str:
		sl = y.Len
	}
	var el types.Type = types.Typ[types.Uint8]
	if cc != nil {
		el = cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	}
	var outs []Outcome
	for _, b := range in.splitCond(st, mkGE(d.Len.sub(sl))) {
		n := sl
		if !b.val {
			n = d.Len
		}
		st := b.st
		if in.decideLinZero(st.f, n) != 1 {
			if bt, ok := el.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				in.copyBytes(st, d, args[1], n)
			} else {
				in.copyRange(st, d.Data, args[1].(Slice).Data, n, el)
			}
		}
		outs = append(outs, Outcome{st: st, vals: []Val{goInt(n)}})
	}
	return outs
}

func (in *Interp) copyBytes(st *State, d Slice, src Val, n *Lin) {
	var items []Item
	switch y := src.(type) {
	case Slice:
		items = in.contentOfSlice(st, Slice{y.Data, n, n})
	case Str:
		y = in.strPtr(y)
		items = in.contentOf(st, y.Data, n)
	}
	if d.Data.Obj == nil {
		return
	}
	o := d.Data.Obj
	if in.inputWrite(st, o) {
		return
	}
	st.event(Event{kind: "store", obj: o, off: d.Data.Off, size: n, pos: in.curPos(), fn: in.curFn()})
	in.checkPublished(st, o, "copied to")
	if o.kind != oBuf {
		if k, ok := n.constInt(); ok && k <= 64 {
			for i := int64(0); i < k; i++ {
				if b, ok := items[i].(ByteItem); ok && len(items) == int(k) {
					in.storeWord(st, Ptr{o, d.Data.Off.addC(i)}, Int{W: 8, bits: b.b}, 1)
				} else {
					giveUp("copy of unknown bytes into %s", o.name)
				}
			}
			return
		}
		if ct := st.content(o); o.kind == oArr && o.sym && o.buf0 && (ct == nil || !ct.dirty && len(ct.c) == 0 && len(ct.s) == 0) && in.decideLinZero(st.f, d.Data.Off) == 1 {
			// the start of an array of unknown bytes: what was written is known, the rest is not
			ct := st.mut(o)
			ct.seq, ct.dirty = items, true
			return
		}
		giveUp("copy of bytes into %s", o.name)
	}
	ct := st.mut(o)
	seq := ct.seq
	// split seq at [off, off+n)
	at := linC(0)
	i := 0
	for i < len(seq) && in.decideLinZero(st.f, d.Data.Off.sub(at)) != 1 {
		at = at.add(in.itemLen(seq[i]))
		i++
	}
	if in.decideLinZero(st.f, d.Data.Off.sub(at)) != 1 {
		giveUp("copy into buffer %s at %s does not fall on an item boundary", o.name, d.Data.Off)
	}
	end := d.Data.Off.add(n)
	j := i
	for j < len(seq) && in.decideLinZero(st.f, end.sub(at)) != 1 {
		at = at.add(in.itemLen(seq[j]))
		j++
	}
	var tail []Item
	if in.decideLinZero(st.f, end.sub(at)) == 1 {
		tail = seq[j:]
	} else if j == len(seq) {
		// a zero-filled region split by the copy
		if z, ok := seq[j-1].(PrefixItem); ok && strings.HasPrefix(z.key, "zeros~") && in.entails(st.f, at.sub(end)) {
			tail = []Item{PrefixItem{z.key, at.sub(end)}}
		} else if i == 0 && o.libNew {
			// the start is known from here on, the rest no longer is
		} else {
			giveUp("copy into buffer %s of length %s does not fall on an item boundary", o.name, n)
		}
	}
	ct.seq = append(append(append([]Item(nil), seq[:i]...), items...), tail...)
}

// ---- functions ----

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func lits(args []Val) ([]string, []int64, bool) {
	var ss []string
	var is []int64
	for _, a := range args {
		switch x := a.(type) {
		case Str:
			if x.lit == nil {
				return nil, nil, false
			}
			ss = append(ss, *x.lit)
		case Int:
			k, ok := x.constBig()
			if !ok || !k.IsInt64() {
				return nil, nil, false
			}
			is = append(is, k.Int64())
		default:
			return nil, nil, false
		}
	}
	return ss, is, true
}

func (in *Interp) strSlice(st *State, xs []string) Slice {
	t := types.Typ[types.String]
	o := in.newObj(oArr, "strings", t)
	o.libNew, o.zero = true, true
	o.size = linC(16 * int64(len(xs)))
	st.mut(o)
	for i, x := range xs {
		in.storeRaw(st, Ptr{o, linC(int64(i) * 16)}, in.litStr(x), t)
	}
	return Slice{ptrTo(o), linC(int64(len(xs))), linC(int64(len(xs)))}
}

func (in *Interp) opaqueError(what string, wraps ...Val) Iface {
	o := in.newObj(oOther, what, nil)
	o.wraps = wraps
	return Iface{in.P.opaqueErr, ptrTo(o)}
}

func (in *Interp) errOr(err error) Val {
	if err == nil {
		return Iface{}
	}
	return in.opaqueError("error: " + err.Error())
}

func (in *Interp) foldStd(st *State, name string, args []Val) ([]Outcome, bool) {
	ss, is, ok := lits(args)
	if !ok {
		return nil, false
	}
	s := func(i int) string { return ss[i] }
	b := func(v bool) []Outcome { return ret(st, Bool{condB(v)}) }
	i64 := func(v int) []Outcome { return ret(st, goIntC(int64(v))) }
	switch name {
	case "strings.Split":
		return ret(st, in.strSlice(st, strings.Split(s(0), s(1)))), true
	case "strings.SplitN":
		return ret(st, in.strSlice(st, strings.SplitN(s(0), s(1), int(is[0])))), true
	case "strings.Fields":
		return ret(st, in.strSlice(st, strings.Fields(s(0)))), true
	case "strings.Cut":
		x, y, f := strings.Cut(s(0), s(1))
		return ret(st, in.litStr(x), in.litStr(y), Bool{condB(f)}), true
	case "strings.HasPrefix":
		return b(strings.HasPrefix(s(0), s(1))), true
	case "strings.HasSuffix":
		return b(strings.HasSuffix(s(0), s(1))), true
	case "strings.Contains":
		return b(strings.Contains(s(0), s(1))), true
	case "strings.EqualFold":
		return b(strings.EqualFold(s(0), s(1))), true
	case "strings.Index":
		return i64(strings.Index(s(0), s(1))), true
	case "strings.IndexByte":
		return i64(strings.IndexByte(s(0), byte(is[0]))), true
	case "strings.LastIndex":
		return i64(strings.LastIndex(s(0), s(1))), true
	case "strings.Count":
		return i64(strings.Count(s(0), s(1))), true
	case "strings.TrimSpace":
		return ret(st, in.litStr(strings.TrimSpace(s(0)))), true
	case "strings.TrimPrefix":
		return ret(st, in.litStr(strings.TrimPrefix(s(0), s(1)))), true
	case "strings.TrimSuffix":
		return ret(st, in.litStr(strings.TrimSuffix(s(0), s(1)))), true
	case "strings.Trim":
		return ret(st, in.litStr(strings.Trim(s(0), s(1)))), true
	case "strings.ToLower":
		return ret(st, in.litStr(strings.ToLower(s(0)))), true
	case "strings.ToUpper":
		return ret(st, in.litStr(strings.ToUpper(s(0)))), true
	case "strings.ReplaceAll":
		return ret(st, in.litStr(strings.ReplaceAll(s(0), s(1), s(2)))), true
	case "strings.Repeat":
		return ret(st, in.litStr(strings.Repeat(s(0), int(is[0])))), true
	case "strconv.Quote":
		return ret(st, in.litStr(strconv.Quote(s(0)))), true
	case "strconv.Itoa":
		return ret(st, in.litStr(strconv.Itoa(int(is[0])))), true
	case "strconv.FormatInt":
		return ret(st, in.litStr(strconv.FormatInt(is[0], int(is[1])))), true
	case "strconv.FormatUint":
		return ret(st, in.litStr(strconv.FormatUint(uint64(is[0]), int(is[1])))), true
	case "strconv.Atoi":
		n, err := strconv.Atoi(s(0))
		return ret(st, goIntC(int64(n)), in.errOr(err)), true
	case "strconv.ParseInt":
		n, err := strconv.ParseInt(s(0), int(is[0]), int(is[1]))
		return ret(st, goIntC(n), in.errOr(err)), true
	case "strconv.ParseUint":
		n, err := strconv.ParseUint(s(0), int(is[0]), int(is[1]))
		return ret(st, intL(linB(new(big.Int).SetUint64(n)), 64, false), in.errOr(err)), true
	case "strconv.ParseBool":
		v, err := strconv.ParseBool(s(0))
		return ret(st, Bool{condB(v)}, in.errOr(err)), true
	case "strconv.Unquote":
		v, err := strconv.Unquote(s(0))
		return ret(st, in.litStr(v), in.errOr(err)), true
	case "(reflect.StructTag).Get":
		v, _ := lookupTag(s(0), s(1))
		return ret(st, in.litStr(v)), true
	case "(reflect.StructTag).Lookup":
		v, ok := lookupTag(s(0), s(1))
		return ret(st, in.litStr(v), Bool{condB(ok)}), true
	}
	return nil, false
}

// anyTag is the key of a tag that answers for every key but protobuf's own.
const anyTag = "verif_any"

func lookupTag(tag, key string) (string, bool) {
	t := reflect.StructTag(tag)
	if v, ok := t.Lookup(anyTag); ok && !strings.HasPrefix(key, "protobuf") {
		return v, true
	}
	return t.Lookup(key)
}

func contKey(p Ptr, k string) string { return p.Off.Key() + "|" + k }

// container entries (sync.Map and the like) live in the containing object.
func (in *Interp) contLoad(st *State, m Ptr, k Val) (Val, bool) {
	ks, ok := in.keyOf(k)
	if !ok {
		giveUp("lookup with unknown key in %s", m.Obj.name)
	}
	for _, e := range in.assocOf(st, m.Obj) {
		if e.key == contKey(m, ks) {
			return e.v, true
		}
	}
	return nil, false
}

func (in *Interp) contStore(st *State, m Ptr, k, v Val) {
	ks, ok := in.keyOf(k)
	if !ok {
		giveUp("update with unknown key of %s", m.Obj.name)
	}
	ct := st.mut(m.Obj)
	na := make([]assocEnt, 0, len(ct.assoc)+1)
	done := false
	for _, e := range ct.assoc {
		if e.key == contKey(m, ks) {
			e.v = v
			done = true
		}
		na = append(na, e)
	}
	if !done {
		na = append(na, assocEnt{contKey(m, ks), k, v})
	}
	ct.assoc = na
	if m.Obj.global != nil || st.pub.m[m.Obj] {
		in.envWrote(st)
		in.publishEntry(st, k, v)
	}
}

func (in *Interp) contDelete(st *State, m Ptr, k Val) {
	ks, _ := in.keyOf(k)
	ct := st.mut(m.Obj)
	var na []assocEnt
	for _, e := range ct.assoc {
		if e.key != contKey(m, ks) {
			na = append(na, e)
		}
	}
	ct.assoc = na
}

func (in *Interp) variadic(st *State, v Val) []Val {
	s, ok := v.(Slice)
	if !ok {
		return nil
	}
	n, ok := s.Len.constInt()
	if !ok || s.Data.Obj == nil {
		return nil
	}
	any := types.NewInterfaceType(nil, nil)
	var out []Val
	for i := int64(0); i < n; i++ {
		out = append(out, in.load(st, Ptr{s.Data.Obj, s.Data.Off.addC(16 * i)}, any))
	}
	return out
}

func (in *Interp) isErrorVal(v Val) bool {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		return false
	}
	if types.Identical(i.T, in.P.opaqueErr) {
		return true
	}
	return types.Implements(i.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

func (in *Interp) intrinsic1(st *State, fn *ssa.Function, bind, args []Val) ([]Outcome, bool) {
	if t, ok := in.P.linkname[fn]; ok {
		return in.runtimeCall(st, t, fn, args), true
	}
	if in.P.inRepo(fn) {
		if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Pkg != in.initPkg {
			return ret(st), true // package initialisers are run in order by the driver
		}
		return nil, false
	}
	name := originName(fn)
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil {
		return ret(st), true
	}
	if strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "(reflect.StructTag)") {
		if out, ok := in.foldStd(st, name, args); ok {
			return out, true
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") && fn.Signature.Recv() == nil && len(args) > 0 && fn.Blocks == nil {
		if out, ok := in.atomicOp(st, fn, args); ok {
			return out, true
		}
	}
	switch name {
	case "reflect.TypeOf":
		i, ok := args[0].(Iface)
		if !ok {
			giveUp("reflect.TypeOf of %T", args[0])
		}
		if i.T == nil {
			return ret(st, Iface{}), true
		}
		return ret(st, in.rtype(i.T)), true
	case "reflect.ValueOf":
		i, ok := args[0].(Iface)
		if !ok {
			giveUp("reflect.ValueOf of %T", args[0])
		}
		return ret(st, RVal{T: i.T, V: i.V}), true
	case "reflect.New":
		t := typeOfR(args[0])
		o := in.newZero(st, t, "new")
		return ret(st, RVal{T: types.NewPointer(t), V: ptrTo(o)}), true
	case "reflect.Zero":
		t := typeOfR(args[0])
		return ret(st, RVal{T: t, V: zeroVal(in, t)}), true
	case "reflect.PointerTo", "reflect.PtrTo":
		return ret(st, in.rtype(types.NewPointer(typeOfR(args[0])))), true
	case "reflect.SliceOf":
		return ret(st, in.rtype(types.NewSlice(typeOfR(args[0])))), true
	case "reflect.MapOf":
		return ret(st, in.rtype(types.NewMap(typeOfR(args[0]), typeOfR(args[1])))), true
	case "reflect.ArrayOf":
		k, ok := args[0].(Int).constBig()
		if !ok {
			giveUp("reflect.ArrayOf with unknown length")
		}
		return ret(st, in.rtype(types.NewArray(typeOfR(args[1]), k.Int64()))), true
	case "reflect.StructOf":
		return in.structOf(st, args[0].(Slice)), true
	case "reflect.MakeSlice":
		t := typeOfR(args[0])
		el := t.Underlying().(*types.Slice).Elem()
		s := in.makeSlice(st, el, in.linOf(st, args[1].(Int)), in.linOf(st, args[2].(Int)))
		return ret(st, RVal{T: t, V: s}), true
	case "reflect.MakeMap", "reflect.MakeMapWithSize":
		t := typeOfR(args[0])
		o := in.newObj(oMap, "map "+t.String(), t)
		o.libNew = true
		st.mut(o)
		return ret(st, RVal{T: t, V: ptrTo(o)}), true
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer":
		r := args[0].(RVal)
		switch v := r.V.(type) {
		case Ptr:
			return ret(st, v), true
		case Slice:
			return ret(st, v.Data), true
		}
		giveUp("reflect.Value.Pointer of %T", r.V)
	case "(reflect.Value).Interface":
		r := args[0].(RVal)
		v := r.V
		if r.Ptr != nil {
			v = in.load(st, *r.Ptr, r.T)
		}
		if i, ok := v.(Iface); ok && types.IsInterface(r.T) {
			return ret(st, i), true
		}
		return ret(st, Iface{r.T, v}), true
	case "(reflect.Value).Elem":
		r := args[0].(RVal)
		switch u := r.T.Underlying().(type) {
		case *types.Pointer:
			p := in.asPtr(in.rvalV(st, r))
			var outs []Outcome
			for _, b := range in.splitCond(st, in.isNil(p)) {
				if b.val {
					outs = append(outs, Outcome{st: b.st, vals: []Val{RVal{}}})
				} else {
					q := p
					outs = append(outs, Outcome{st: b.st, vals: []Val{RVal{T: u.Elem(), Ptr: &q}}})
				}
			}
			return outs, true
		}
		giveUp("reflect.Value.Elem of %s", r.T)
	case "(reflect.Value).IsValid":
		return ret(st, Bool{condB(args[0].(RVal).T != nil)}), true
	case "(reflect.Value).Type":
		r := args[0].(RVal)
		if r.T == nil {
			return []Outcome{in.fault(st, "reflect: Type of zero Value")}, true
		}
		return ret(st, in.rtype(r.T)), true
	case "(reflect.Value).Kind":
		r := args[0].(RVal)
		if r.T == nil {
			return ret(st, intC(0, 64, false)), true
		}
		return ret(st, intC(int64(kindOf(r.T)), 64, false)), true
	case "(reflect.Value).IsNil":
		r := args[0].(RVal)
		if r.T == nil {
			return []Outcome{in.fault(st, "reflect: IsNil of zero Value")}, true
		}
		switch kindOf(r.T) {
		case reflect.Pointer, reflect.Map, reflect.UnsafePointer, reflect.Chan, reflect.Func:
			return ret(st, Bool{in.isNil(in.asPtr(in.rvalV(st, r)))}), true
		case reflect.Slice:
			return ret(st, Bool{in.isNil(in.rvalV(st, r).(Slice).Data)}), true
		}
		return []Outcome{in.fault(st, "reflect: IsNil of "+r.T.String())}, true
	case "(reflect.Value).Addr", "(reflect.Value).UnsafeAddr":
		r := args[0].(RVal)
		if r.Ptr == nil {
			return []Outcome{in.fault(st, "reflect: address of unaddressable value")}, true
		}
		if strings.HasSuffix(name, "UnsafeAddr") {
			return ret(st, *r.Ptr), true
		}
		return ret(st, RVal{T: types.NewPointer(r.T), V: *r.Ptr}), true
	case "(reflect.Value).Len", "(reflect.Value).Cap":
		r := args[0].(RVal)
		switch v := in.rvalV(st, r).(type) {
		case Slice:
			if strings.HasSuffix(name, "Cap") {
				return ret(st, goInt(v.Cap)), true
			}
			return ret(st, goInt(v.Len)), true
		case Str:
			return ret(st, goInt(v.Len)), true
		case Ptr:
			if v.Obj == nil {
				return ret(st, goIntC(0)), true
			}
			if v.Obj.count != nil {
				return ret(st, goInt(v.Obj.count)), true
			}
		}
		giveUp("reflect.Value.Len of %s", r.T)
	case "(*sync.Map).Load", "(*github.com/RomiChan/syncx.Map[K, V]).Load":
		m := in.asPtr(args[0])
		v, ok := in.contLoad(st, m, args[1])
		if !ok {
			v = zeroVal(in, fn.Signature.Results().At(0).Type())
		}
		return ret(st, v, Bool{condB(ok)}), true
	case "(*sync.Map).Store", "(*github.com/RomiChan/syncx.Map[K, V]).Store":
		in.contStore(st, in.asPtr(args[0]), args[1], args[2])
		return ret(st), true
	case "(*sync.Map).Swap":
		v, ok := in.contLoad(st, in.asPtr(args[0]), args[1])
		if !ok {
			v = Iface{}
		}
		in.contStore(st, in.asPtr(args[0]), args[1], args[2])
		return ret(st, v, Bool{condB(ok)}), true
	case "(*sync.Map).LoadOrStore", "(*github.com/RomiChan/syncx.Map[K, V]).LoadOrStore":
		m := in.asPtr(args[0])
		if v, ok := in.contLoad(st, m, args[1]); ok {
			return ret(st, v, Bool{condB(true)}), true
		}
		in.contStore(st, m, args[1], args[2])
		return ret(st, args[2], Bool{condB(false)}), true
	case "(*sync.Map).Delete", "(*github.com/RomiChan/syncx.Map[K, V]).Delete":
		in.contDelete(st, in.asPtr(args[0]), args[1])
		return ret(st), true
	case "(*sync.Map).LoadAndDelete", "(*github.com/RomiChan/syncx.Map[K, V]).LoadAndDelete":
		m := in.asPtr(args[0])
		v, ok := in.contLoad(st, m, args[1])
		if !ok {
			v = zeroVal(in, fn.Signature.Results().At(0).Type())
		}
		in.contDelete(st, m, args[1])
		return ret(st, v, Bool{condB(ok)}), true
	case "(*sync.Pool).Get":
		return in.poolGet(st, in.asPtr(args[0])), true
	case "(*sync.Pool).Put":
		in.poolPutV(st, in.asPtr(args[0]), args[1])
		return ret(st), true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return in.lockOp(st, args[0], fn.Name()), true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		st2 := st.fork()
		w := "W " + in.lockName(in.asPtr(args[0]))
		if st2.locks.has(w) {
			return ret(st, Bool{condB(false)}), true
		}
		st2.locks = st2.locks.with(w)
		return append(ret(st, Bool{condB(false)}), ret(st2, Bool{condB(true)})...), true
	case "(*sync.Once).Do":
		p := in.asPtr(args[0])
		ct := st.content(p.Obj)
		key := "once" + p.Off.Key()
		once := in.lockName(p)
		if ct != nil && ct.ghost[key] != nil {
			if !st.locks.has("O " + once) {
				st.locks = st.locks.with("O " + once)
			}
			return ret(st), true
		}
		if st.locks.has("W " + once) {
			in.report(st, "deadlock", fmt.Sprintf("the function of %s calls Do again", once), "C27", "C15")
			return []Outcome{in.fault(st, "deadlock on "+once)}, true
		}
		c2 := st.mut(p.Obj)
		if c2.ghost == nil {
			c2.ghost = map[string]Val{}
		}
		c2.ghost[key] = Bool{condB(true)}
		st.locks = st.locks.with("W " + once)
		var outs []Outcome
		for _, o := range in.callVal(st, args[1], nil, nil) {
			o.st.locks = o.st.locks.without("W " + once).with("O " + once)
			in.flushShared(o.st)
			if !o.panic {
				o.vals = nil
			}
			outs = append(outs, o)
		}
		return outs, true
	case "(*sync/atomic.Pointer[T]).Load", "(*sync/atomic.Value).Load":
		p := in.asPtr(args[0])
		if v, ok := in.contLoad(st, p, intC(0, 64, true)); ok {
			return ret(st, v), true
		}
		return ret(st, zeroVal(in, fn.Signature.Results().At(0).Type())), true
	case "(*sync/atomic.Pointer[T]).Store", "(*sync/atomic.Value).Store":
		in.contStore(st, in.asPtr(args[0]), intC(0, 64, true), args[1])
		return ret(st), true
	case "(*sync/atomic.Pointer[T]).Swap", "(*sync/atomic.Value).Swap":
		p := in.asPtr(args[0])
		v, ok := in.contLoad(st, p, intC(0, 64, true))
		if !ok {
			v = zeroVal(in, fn.Signature.Results().At(0).Type())
		}
		in.contStore(st, p, intC(0, 64, true), args[1])
		return ret(st, v), true
	case "(*sync/atomic.Pointer[T]).CompareAndSwap", "(*sync/atomic.Value).CompareAndSwap":
		p := in.asPtr(args[0])
		t := fn.Signature.Params().At(0).Type()
		v, ok := in.contLoad(st, p, intC(0, 64, true))
		if !ok {
			v = zeroVal(in, t)
		}
		var outs []Outcome
		for _, b := range in.splitCond(st, in.equal(st, v, args[1], t)) {
			if b.val {
				in.contStore(b.st, p, intC(0, 64, true), args[2])
			}
			outs = append(outs, ret(b.st, Bool{condB(b.val)})...)
		}
		return outs, true
	case "fmt.Errorf":
		va := in.variadic(st, args[1])
		var w []Val
		txt := "error"
		if f, ok := args[0].(Str); ok && f.lit != nil {
			txt = strconv.Quote(*f.lit)
			if strings.Contains(*f.lit, "%w") {
				for _, v := range va {
					if in.isErrorVal(v) {
						w = append(w, v)
					}
				}
			}
		}
		return ret(st, in.opaqueError("fmt.Errorf("+txt+")", w...)), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if s, ok := in.foldSprint(st, name, args); ok {
			return ret(st, in.litStr(s)), true
		}
		in.nextSym++
		return ret(st, in.symStr(fmt.Sprintf("text~%d", in.nextSym), false)), true
	case "errors.Is":
		return in.errorsIs(st, args[0], args[1]), true
	case "errors.Unwrap":
		if i, ok := args[0].(Iface); ok {
			if i.T == nil {
				return ret(st, Iface{}), true
			}
			if types.Identical(i.T, in.P.opaqueErr) {
				w := i.V.(Ptr).Obj.wraps
				if len(w) == 1 {
					return ret(st, w[0]), true
				}
				return ret(st, Iface{}), true
			}
		}
	case "math.Float32bits", "math.Float64bits":
		f := args[0].(Float)
		if f.conv != nil {
			a := in.T.atom("fbits("+floatKey(f)+")", 64, false)
			return ret(st, intL(linA(a), 64, false)), true
		}
		return ret(st, in.mkBits(f.bits, f.W, false)), true
	case "math.Float32frombits":
		return ret(st, Float{W: 32, bits: in.bitsOf(st, args[0].(Int))}), true
	case "math.Float64frombits":
		return ret(st, Float{W: 64, bits: in.bitsOf(st, args[0].(Int))}), true
	case "math.Signbit":
		return ret(st, Bool{mkBZ([]Bit{in.floatSign(args[0].(Float))}).not()}), true
	case "math/bits.Len64", "math/bits.Len32", "math/bits.Len", "math/bits.Len8", "math/bits.Len16":
		return ret(st, in.bitsLen(st, args[0].(Int))), true
	case "math/bits.LeadingZeros64", "math/bits.LeadingZeros", "math/bits.LeadingZeros32":
		x := args[0].(Int)
		l := in.bitsLen(st, x)
		return ret(st, goInt(linC(int64(x.W)).sub(l.lin))), true
	case "encoding/binary.AppendUvarint":
		if in.noModel {
			return nil, false
		}
		var outs []Outcome
		for _, r := range in.appendItems(st, args[0].(Slice), in.varItems(st, args[1].(Int)), in.curPos()) {
			outs = append(outs, Outcome{st: r.st, vals: []Val{r.s}})
		}
		return outs, true
	case "encoding/binary.Uvarint":
		if in.noModel {
			return nil, false
		}
		return in.uvarint(st, args[0].(Slice)), true
	case "runtime.KeepAlive":
		return ret(st), true
	}
	if out, ok := in.genCall(st, fn, name, args); ok {
		return out, true
	}
	return nil, false
}

func (in *Interp) rvalV(st *State, r RVal) Val {
	if r.Ptr != nil {
		return in.load(st, *r.Ptr, r.T)
	}
	return r.V
}

func (in *Interp) foldSprint(st *State, name string, args []Val) (string, bool) {
	var va []Val
	format := ""
	if name == "fmt.Sprintf" {
		f, ok := args[0].(Str)
		if !ok || f.lit == nil {
			return "", false
		}
		format = *f.lit
		va = in.variadic(st, args[1])
	} else {
		va = in.variadic(st, args[0])
	}
	var xs []interface{}
	for _, v := range va {
		i, ok := v.(Iface)
		if !ok || i.T == nil {
			return "", false
		}
		if types.NewMethodSet(i.T).Len() > 0 {
			return "", false
		}
		switch x := i.V.(type) {
		case Str:
			if x.lit == nil {
				return "", false
			}
			xs = append(xs, *x.lit)
		case Int:
			k, ok := x.constBig()
			if !ok {
				return "", false
			}
			if k.IsInt64() {
				xs = append(xs, k.Int64())
			} else {
				xs = append(xs, k.Uint64())
			}
		case Bool:
			if x.c.kind != cConst {
				return "", false
			}
			xs = append(xs, x.c.val)
		default:
			return "", false
		}
	}
	switch name {
	case "fmt.Sprintf":
		return fmt.Sprintf(format, xs...), true
	case "fmt.Sprint":
		return fmt.Sprint(xs...), true
	}
	return fmt.Sprintln(xs...), true
}

func (in *Interp) errorsIs(st *State, e, target Val) []Outcome {
	for n := 0; n < 10; n++ {
		i, ok := e.(Iface)
		if !ok {
			giveUp("errors.Is of %T", e)
		}
		if i.T == nil {
			t, ok := target.(Iface)
			return ret(st, Bool{condB(ok && t.T == nil)})
		}
		c := in.equal(st, e, target, i.T)
		if in.decide(st, c) == 1 {
			return ret(st, Bool{condB(true)})
		}
		if types.Identical(i.T, in.P.opaqueErr) {
			w := i.V.(Ptr).Obj.wraps
			if len(w) == 0 {
				return ret(st, Bool{condB(false)})
			}
			e = w[0]
			continue
		}
		u := in.unwrapErr(st, i)
		if u == nil {
			return ret(st, Bool{condB(false)})
		}
		e = u
	}
	giveUp("errors.Is: chain too long")
	return nil
}

// unwrapErr runs an Unwrap method, if the error has one.
func (in *Interp) unwrapErr(st *State, i Iface) Val {
	ms := in.P.prog.MethodSets.MethodSet(i.T)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == "Unwrap" {
			fn := in.P.prog.MethodValue(ms.At(k))
			outs := in.callFunc(st, fn, nil, []Val{i.V})
			if len(outs) == 1 && !outs[0].panic {
				return outs[0].vals[0]
			}
		}
	}
	return nil
}

func (in *Interp) bitsLen(st *State, x Int) Int {
	bs := in.bitsOf(st, x)
	hi := len(bs)
	for hi > 0 && bs[hi-1].isConst() && !bs[hi-1].c {
		hi--
	}
	if hi == 0 {
		return goIntC(0)
	}
	if bs[hi-1].isConst() {
		return goIntC(int64(hi))
	}
	lo := 0
	for i := hi - 1; i >= 0; i-- {
		if bs[i].isConst() && bs[i].c {
			lo = i + 1
			break
		}
	}
	a := in.T.atomR("bitlen("+in.T.intKey(x)+")", 64, true, bigI(0), bigI(int64(x.W)))
	_ = lo
	in.lenOf[a] = in.linOf(st, x)
	return goInt(linA(a))
}

func (in *Interp) structOf(st *State, s Slice) []Outcome {
	n, ok := s.Len.constInt()
	if !ok {
		giveUp("reflect.StructOf with an unknown number of fields")
	}
	sf := in.P.reflectP.Scope().Lookup("StructField").Type()
	u := sf.Underlying().(*types.Struct)
	var fields []*types.Var
	var tags []string
	for i := int64(0); i < n; i++ {
		v := in.load(st, Ptr{s.Data.Obj, s.Data.Off.addC(i * sizeof(sf))}, sf).(Agg)
		var name, tag, pkg string
		var t types.Type
		for k := 0; k < u.NumFields(); k++ {
			f := v.L[fieldOffset(u, k)]
			str := func() string {
				x, ok := f.(Str)
				if !ok || x.lit == nil {
					giveUp("reflect.StructOf: unknown string")
				}
				return *x.lit
			}
			switch u.Field(k).Name() {
			case "Name":
				name = str()
			case "PkgPath":
				pkg = str()
			case "Tag":
				tag = str()
			case "Type":
				t = typeOfR(f)
			}
		}
		_ = pkg
		if t == nil || name == "" {
			return []Outcome{in.fault(st, "reflect.StructOf: field without name or type")}
		}
		fields = append(fields, types.NewField(0, in.P.protoPkg.Pkg, name, t, false))
		tags = append(tags, tag)
	}
	t := types.NewStruct(fields, tags)
	return ret(st, in.rtype(t))
}

// ---- pools ----

func (in *Interp) poolInfoOf(p Ptr) *poolInfo {
	k := fmt.Sprintf("%d+%s", p.Obj.id, p.Off.Key())
	pi := in.poolPut[k]
	if pi == nil {
		pi = &poolInfo{}
		in.poolPut[k] = pi
	}
	return pi
}

func (in *Interp) poolGet(st *State, p Ptr) []Outcome {
	var outs []Outcome
	pi := in.poolInfoOf(p)
	for i := range pi.ents {
		e := &pi.ents[i]
		s2 := st.fork()
		if e.slice {
			in.nextSym++
			sl := in.symSlice(fmt.Sprintf("pooled %s~%d", e.name, in.nextSym), e.typ, false)
			sl.Data.Obj.pooled = true
			outs = append(outs, Outcome{st: s2, vals: []Val{Iface{e.dyn, sl}}})
			continue
		}
		in.nextSym++
		o := in.newObj(e.kind, fmt.Sprintf("pooled %s", e.name), e.typ)
		o.size = e.size
		o.libNew = true
		o.pooled = true
		o.zero = !e.dirty
		o.sym = e.dirty
		if e.dirty {
			o.name = fmt.Sprintf("%s~%d", o.name, o.id)
		}
		s2.mut(o)
		outs = append(outs, Outcome{st: s2, vals: []Val{Iface{e.dyn, ptrTo(o)}}})
	}
	// nothing pooled: New, or nil
	var newF Val = FuncV{}
	if p.Obj.typ != nil {
		if stt, ok := p.Obj.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == "New" && stt.NumFields() > 2 {
					newF = in.load(st, Ptr{p.Obj, p.Off.addC(fieldOffset(stt, i))}, stt.Field(i).Type())
				}
			}
		}
	}
	if f, ok := newF.(FuncV); ok && f.Fn != nil {
		outs = append(outs, in.callVal(st, f, nil, nil)...)
	} else {
		outs = append(outs, Outcome{st: st, vals: []Val{Iface{}}})
	}
	return outs
}

func (in *Interp) poolPutV(st *State, p Ptr, v Val) {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		return
	}
	if sl, ok := i.V.(Slice); ok {
		in.poolPutSlice(st, p, i.T, sl)
		return
	}
	q, ok := i.V.(Ptr)
	if !ok {
		giveUp("sync.Pool.Put of %s", i.T)
	}
	if q.Obj == nil {
		return
	}
	if st.put[q.Obj] {
		in.report(st, "double-put", fmt.Sprintf("%s is returned to its pool twice", q.Obj.name), "C13", "C15", "C27")
	}
	if q.Obj.msg || q.Obj.input || st.pub.m[q.Obj] {
		in.report(st, "put-foreign", fmt.Sprintf("%s is put into a pool although it is visible elsewhere", q.Obj.name), "C13", "C15", "C27")
	}
	if q.Obj.kind != oMem || q.Obj.typ == nil {
		giveUp("sync.Pool.Put of %s", q.Obj.name)
	}
	dirty := !in.isZeroObj(st, q.Obj)
	m := map[*Obj]bool{}
	for k := range st.put {
		m[k] = true
	}
	m[q.Obj] = true
	st.put = m
	st.event(Event{kind: "put", obj: q.Obj, aux: dirty, pos: in.curPos(), fn: in.curFn()})
	pi := in.poolInfoOf(p)
	for k := range pi.ents {
		if types.Identical(pi.ents[k].typ, q.Obj.typ) {
			if dirty && !pi.ents[k].dirty {
				pi.ents[k].dirty = true
				in.poolChanged = true
			}
			return
		}
	}
	pi.ents = append(pi.ents, poolEnt{kind: q.Obj.kind, typ: q.Obj.typ, name: q.Obj.typ.String(), size: q.Obj.size, dyn: i.T, dirty: dirty})
	in.poolChanged = true
}

// poolPutSlice hands the memory of a slice to a pool.
func (in *Interp) poolPutSlice(st *State, p Ptr, dyn types.Type, sl Slice) {
	el := dyn.Underlying().(*types.Slice).Elem()
	if sl.Data.Obj == nil {
		return
	}
	m := map[*Obj]bool{}
	for k := range st.put {
		m[k] = true
	}
	for o := sl.Data.Obj; o != nil; o = o.base {
		if m[o] {
			in.report(st, "double-put", fmt.Sprintf("%s is returned to its pool twice", o.name), "C13", "C15", "C27")
		}
		if o.msg || o.input || st.pub.m[o] {
			in.report(st, "put-foreign", fmt.Sprintf("%s is put into a pool although it is visible elsewhere", o.name), "C11", "C10", "C15", "C27")
		}
		m[o] = true
	}
	st.put = m
	st.event(Event{kind: "put", obj: sl.Data.Obj, aux: true, pos: in.curPos(), fn: in.curFn()})
	pi := in.poolInfoOf(p)
	for k := range pi.ents {
		if pi.ents[k].slice && types.Identical(pi.ents[k].dyn, dyn) {
			return
		}
	}
	pi.ents = append(pi.ents, poolEnt{slice: true, typ: el, dyn: dyn, name: dyn.String(), dirty: true})
	in.poolChanged = true
}

// isZeroObj reports whether every leaf of the object is known to be zero.
func (in *Interp) isZeroObj(st *State, o *Obj) bool {
	for _, l := range leaves(o.typ) {
		v := in.loadLeaf(st, Ptr{o, linC(l.off)}, l)
		if !in.isZeroVal(st, v) {
			return false
		}
	}
	return true
}

func (in *Interp) isZeroVal(st *State, v Val) bool {
	switch x := v.(type) {
	case Int:
		return in.decide(st, in.mkEqInt(x, intC(0, x.W, x.Signed))) == 1
	case Bool:
		return in.decide(st, x.c) == -1
	case Float:
		if x.conv != nil {
			return false
		}
		return in.decide(st, mkBZ(x.bits)) == 1
	case Ptr:
		return in.decide(st, in.isNil(x)) == 1
	case Slice:
		return in.decide(st, in.isNil(x.Data)) == 1
	case Str:
		return in.decideLinZero(st.f, x.Len) == 1
	case Iface:
		return x.T == nil
	case FuncV:
		return x.Fn == nil && x.Intr == ""
	case Agg:
		for _, l := range x.L {
			if !in.isZeroVal(st, l) {
				return false
			}
		}
		return true
	case RVal:
		return x.T == nil
	}
	return false
}

// ---- the Go runtime ----

func (in *Interp) runtimeCall(st *State, target string, fn *ssa.Function, args []Val) []Outcome {
	switch target {
	case "reflect.makemap", "runtime.makemap", "runtime.reflect_makemap":
		t := typeOfR(args[0])
		if _, ok := t.Underlying().(*types.Map); !ok {
			badAccess("makemap with type %s", t)
		}
		o := in.newObj(oMap, "map "+t.String(), t)
		o.libNew = true
		st.mut(o)
		n := in.linOf(st, args[1].(Int))
		st.event(Event{kind: "alloc", obj: o, size: n.scale(bigI(64)), pos: in.curPos(), fn: in.curFn()})
		return ret(st, ptrTo(o))
	case "runtime.mapiterinit", "reflect.mapiterinit":
		t := typeOfR(args[0])
		m, it := in.asPtr(args[1]), in.asPtr(args[2])
		if m.Obj != nil && (m.Obj.typ == nil || !types.Identical(m.Obj.typ, t)) {
			in.report(st, "map-type", fmt.Sprintf("map iteration over %s with type %s", m.Obj.name, t), "C23", "C13")
		}
		if it.Obj == nil {
			badAccess("mapiterinit with a nil iterator")
		}
		in.extentCheck(st, it, 32, "map iterator")
		in.storeWord(st, it, mapRef{false}, 8)
		in.storeWord(st, Ptr{it.Obj, it.Off.addC(8)}, mapRef{true}, 8)
		in.storeWord(st, Ptr{it.Obj, it.Off.addC(16)}, ptrTo(in.typeObj(t)), 8)
		in.storeWord(st, Ptr{it.Obj, it.Off.addC(24)}, ptrTo(in.symObj("mapiter", func() *Obj { return in.newObj(oOther, "maps.Iter", nil) })), 8)
		ct := st.mut(it.Obj)
		if ct.ghost == nil {
			ct.ghost = map[string]Val{}
		}
		ct.ghost["map"] = m
		ct.ghost["pos"] = goIntC(0)
		return ret(st)
	case "runtime.mapiternext", "reflect.mapiternext":
		it := in.asPtr(args[0])
		if it.Obj == nil {
			badAccess("mapiternext with a nil iterator")
		}
		ct := st.mut(it.Obj)
		p, ok := ct.ghost["pos"].(Int)
		if !ok {
			return []Outcome{in.fault(st, "mapiternext on an iterator that was not initialised")}
		}
		ct.ghost["pos"] = goInt(in.linOf(st, p).addC(1))
		in.storeWord(st, it, mapRef{false}, 8)
		in.storeWord(st, Ptr{it.Obj, it.Off.addC(8)}, mapRef{true}, 8)
		return ret(st)
	case "runtime.mapassign", "reflect.mapassign":
		t := typeOfR(args[0])
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			badAccess("mapassign with type %s", t)
		}
		m, k := in.asPtr(args[1]), in.asPtr(args[2])
		if m.Obj == nil {
			return []Outcome{in.fault(st, "assignment to entry in nil map")}
		}
		if m.Obj.typ == nil || !types.Identical(m.Obj.typ, t) {
			in.report(st, "map-type", fmt.Sprintf("map assignment to %s with type %s", m.Obj.name, t), "C23", "C13")
		}
		return in.withNonNil(st, m, func(st *State) []Outcome {
			key := in.load(st, k, mt.Key())
			in.checkPublished(st, m.Obj, "assigned to")
			slot := in.newObj(oMem, "map slot", mt.Elem())
			slot.name = fmt.Sprintf("map slot~%d", slot.id)
			slot.sym = true
			slot.msg = true
			slot.slotOf = m.Obj
			st.mut(slot)
			st.event(Event{kind: "mapassign", obj: m.Obj, val: key, aux: mapAsg{slot, k}, size: linC(sizeof(mt.Elem()) + sizeof(mt.Key())), pos: in.curPos(), fn: in.curFn()})
			return ret(st, ptrTo(slot))
		})
	case "runtime.typedmemmove", "reflect.typedmemmove":
		t := typeOfR(args[0])
		d, s := in.asPtr(args[1]), in.asPtr(args[2])
		if d.Obj != nil && s.Obj == d.Obj && s.Off.eq(d.Off) {
			return ret(st)
		}
		return in.withNonNil(st, d, func(st *State) []Outcome {
			var outs []Outcome
			r := in.withNonNil(st, s, func(st *State) []Outcome {
				if d.Off.eq(linC(0)) && d.Obj.kind == oMem && d.Obj.typ != nil && sizeof(d.Obj.typ) == sizeof(t) && objectProblem(d.Obj.typ, t) != "" {
					in.report(st, "copy-type", fmt.Sprintf("typedmemmove with type %s to %s: %s", t, d.Obj.name, objectProblem(d.Obj.typ, t)), "C23")
				}
				v := in.load(st, s, t)
				in.store(st, d, v, t)
				return ret(st)
			})
			return append(outs, r...)
		})
	case "runtime.newarray", "reflect.unsafe_NewArray":
		t := typeOfR(args[0])
		n := in.linOf(st, args[1].(Int))
		if !in.entails(st.f, n) {
			return []Outcome{in.fault(st, fmt.Sprintf("newarray: length %s may be out of range", n))}
		}
		o := in.newObj(oArr, "arr:"+t.String(), t)
		o.libNew, o.zero = true, true
		o.size = n.scale(bigI(sizeof(t)))
		o.allocLen = n
		st.mut(o)
		st.event(Event{kind: "alloc", obj: o, size: o.size, pos: in.curPos(), fn: in.curFn()})
		return ret(st, ptrTo(o))
	case "reflect.unsafe_New", "runtime.newobject":
		t := typeOfR(args[0])
		return ret(st, ptrTo(in.newZero(st, t, "new")))
	case "reflect.typedslicecopy", "runtime.typedslicecopy", "runtime.reflect_typedslicecopy":
		t := typeOfR(args[0])
		get := func(v Val) Slice {
			switch x := v.(type) {
			case Agg:
				d, n, c := x.L[0], x.L[8], x.L[16]
				if d == nil {
					d = nilPtr()
				}
				if n == nil {
					n = goIntC(0)
				}
				if c == nil {
					c = goIntC(0)
				}
				return Slice{in.asPtr(d), in.linOf(st, n.(Int)), in.linOf(st, c.(Int))}
			case Slice:
				return x
			}
			giveUp("typedslicecopy of %T", v)
			return Slice{}
		}
		d, s := get(args[1]), get(args[2])
		var outs []Outcome
		for _, b := range in.splitCond(st, mkGE(d.Len.sub(s.Len))) {
			n := s.Len
			if !b.val {
				n = d.Len
			}
			for _, z := range in.splitCond(b.st, mkLinEQ(n)) {
				if z.val {
					outs = append(outs, Outcome{st: z.st, vals: []Val{goIntC(0)}})
					continue
				}
				if d.Data.Obj != nil && (d.Data.Obj.typ == nil || !types.Identical(d.Data.Obj.typ, t)) {
					in.report(z.st, "copy-type", fmt.Sprintf("typedslicecopy of %s into %s", t, d.Data.Obj.name), "C23", "C12")
				}
				if o := s.Data.Obj; o != nil && o.typ != nil && o.kind == oArr && objectProblem(o.typ, t) != "" {
					in.report(z.st, "copy-type", fmt.Sprintf("typedslicecopy with type %s from %s: %s", t, o.name, objectProblem(o.typ, t)), "C23", "C12")
				}
				if s.Data.Obj != nil && s.Data.Obj.nilC != nil {
					if !in.assume(z.st, s.Data.Obj.nilC.not()) {
						continue
					}
				}
				in.copyRange(z.st, d.Data, s.Data, n, t)
				outs = append(outs, Outcome{st: z.st, vals: []Val{goInt(n)}})
			}
		}
		return outs
	}
	giveUp("linkname target %s of %s has no model", target, fn)
	return nil
}

// mapCell resolves an iterator's key or value cell.
func (in *Interp) mapCell(st *State, it *Obj, val bool) Ptr {
	ct := st.content(it)
	m := ct.ghost["map"].(Ptr)
	pos := in.linOf(st, ct.ghost["pos"].(Int))
	if m.Obj == nil {
		return nilPtr()
	}
	if m.Obj.count == nil {
		giveUp("iteration over %s", m.Obj.name)
	}
	return in.mapCellAt(m.Obj, pos, val)
}

func (in *Interp) mapCellAt(m *Obj, pos *Lin, val bool) Ptr {
	mt := m.typ.Underlying().(*types.Map)
	what, t := "key", mt.Key()
	if val {
		what, t = "val", mt.Elem()
	}
	key := fmt.Sprintf("map%s(%s)@[%s]", what, m.name, pos.Key())
	o := in.symObj(key, func() *Obj {
		o := in.newObj(oMem, key, t)
		o.sym = true
		o.msg = true
		o.mapOf = m
		o.mapPos = pos
		o.mapVal = val
		o.nilC = mkGE(pos.sub(m.count))
		if sizeof(t) == 0 {
			o.size = nil
		}
		return o
	})
	return ptrTo(o)
}

// ---- encoding/binary.Uvarint ----

func (in *Interp) uvarint(st *State, b Slice) []Outcome {
	var outs []Outcome
	for _, r := range in.readVarint(st, b) {
		switch r.kind {
		case 0:
			outs = append(outs, Outcome{st: r.st, vals: []Val{r.x, goInt(r.n)}})
		case 1: // truncated
			outs = append(outs, Outcome{st: r.st, vals: []Val{intC(0, 64, false), goIntC(0)}})
		default:
			a := in.T.atomR(fmt.Sprintf("uvneg~%d", in.nextSym), 64, true, bigI(-11), bigI(-1))
			in.nextSym++
			outs = append(outs, Outcome{st: r.st, vals: []Val{intC(0, 64, false), goInt(linA(a))}})
		}
	}
	return outs
}
