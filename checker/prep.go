package main

// Preparation of types, refusal of what is not supported, arguments, Options.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C15: publication ----

// recursive message types, by name
var recursiveTypes = map[string]func() *MsgSpec{
	"self": func() *MsgSpec {
		m := &MsgSpec{name: "Self"}
		m.fields = []*FieldSpec{fld("X", "int32", fpPlain, 1), {name: "Next", kind: kinds["message"], num: 2, msg: m}}
		return m
	},
	"self, recursion first": func() *MsgSpec {
		m := &MsgSpec{name: "SelfFirst"}
		m.fields = []*FieldSpec{{name: "Next", kind: kinds["message"], num: 2, msg: m}, fld("X", "sint64", fpOption, 1)}
		return m
	},
	"empty": func() *MsgSpec { return &MsgSpec{name: "Empty"} },
	"no field of the wire": func() *MsgSpec {
		return &MsgSpec{name: "Mute", fields: []*FieldSpec{fld("a", "int32", fpIgnored, 1), fld("B", "string", fpIgnored, 2)}}
	},
	"empty inside": func() *MsgSpec {
		e := &MsgSpec{name: "EmptyIn"}
		return &MsgSpec{name: "Outer", fields: []*FieldSpec{{name: "E", kind: kinds["message"], num: 1, msg: e}, {name: "Es", kind: kinds["message"], pos: fpRepeated, num: 2, msg: e}, fld("X", "bool", fpPlain, 3)}}
	},
	"map of empty": func() *MsgSpec {
		e := &MsgSpec{name: "EmptyVal"}
		return &MsgSpec{name: "OuterMap", fields: []*FieldSpec{fld("X", "bool", fpPlain, 3), {name: "E", kind: kinds["message"], pos: fpMap, key: kinds["string"], num: 1, msg: e}}}
	},
	"repeated self": func() *MsgSpec {
		m := &MsgSpec{name: "SelfRep"}
		m.fields = []*FieldSpec{{name: "Kids", kind: kinds["message"], pos: fpRepeated, num: 1, msg: m}, fld("X", "string", fpPlain, 2)}
		return m
	},
	"map of self": func() *MsgSpec {
		m := &MsgSpec{name: "SelfMap"}
		m.fields = []*FieldSpec{{name: "Kids", kind: kinds["message"], pos: fpMap, key: kinds["string"], num: 1, msg: m}, fld("X", "bytes", fpPlain, 2)}
		return m
	},
	"mutual": func() *MsgSpec {
		a, b := &MsgSpec{name: "MutA"}, &MsgSpec{name: "MutB"}
		a.fields = []*FieldSpec{{name: "B", kind: kinds["message"], num: 1, msg: b}, fld("X", "int64", fpPlain, 2)}
		b.fields = []*FieldSpec{{name: "A", kind: kinds["message"], num: 1, msg: a}, fld("Y", "double", fpPlain, 2)}
		return a
	},
	"mutual through containers": func() *MsgSpec {
		a, b := &MsgSpec{name: "ContA"}, &MsgSpec{name: "ContB"}
		a.fields = []*FieldSpec{fld("X", "int64", fpPlain, 2), {name: "B", kind: kinds["message"], pos: fpRepeated, num: 1, msg: b}}
		b.fields = []*FieldSpec{{name: "A", kind: kinds["message"], pos: fpMap, key: kinds["int32"], num: 1, msg: a}, fld("Y", "fixed32", fpRepeated, 2)}
		return a
	},
	"cycle of three and a leaf": func() *MsgSpec {
		a, b, c := &MsgSpec{name: "CycA"}, &MsgSpec{name: "CycB"}, &MsgSpec{name: "CycC"}
		l := &MsgSpec{name: "CycLeaf", fields: []*FieldSpec{fld("V", "bool", fpPlain, 1)}}
		a.fields = []*FieldSpec{{name: "L", kind: kinds["message"], num: 3, msg: l}, {name: "B", kind: kinds["message"], num: 1, msg: b}}
		b.fields = []*FieldSpec{{name: "C", kind: kinds["message"], num: 1, msg: c}, {name: "L", kind: kinds["message"], num: 2, msg: l}}
		c.fields = []*FieldSpec{{name: "A", kind: kinds["message"], num: 1, msg: a}, {name: "L", kind: kinds["message"], pos: fpRepeated, num: 2, msg: l}, fld("Y", "uint32", fpPointer, 3)}
		return a
	},
	"diamond": func() *MsgSpec {
		l := &MsgSpec{name: "DiaLeaf", fields: []*FieldSpec{fld("V", "sint32", fpPlain, 1)}}
		b := &MsgSpec{name: "DiaB", fields: []*FieldSpec{{name: "L", kind: kinds["message"], num: 1, msg: l}}}
		c := &MsgSpec{name: "DiaC", fields: []*FieldSpec{{name: "L", kind: kinds["message"], pos: fpRepeated, num: 1, msg: l}}}
		return &MsgSpec{name: "DiaA", fields: []*FieldSpec{{name: "B", kind: kinds["message"], num: 1, msg: b}, {name: "C", kind: kinds["message"], num: 2, msg: c}, fld("X", "uint64", fpPlain, 3)}}
	},
}

func typeNames() []string {
	var out []string
	for n := range recursiveTypes {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// prepare runs Size on a nil pointer of type t, which prepares the type.
func (s *Scen) prepare(st *State, t types.Type) []Outcome {
	return s.call(st.fork(), "Size", Iface{T: types.NewPointer(t), V: nilPtr()})
}

// complete: what is visible to other goroutines has no unset functions.
func (s *Scen) complete(st *State, when string) {
	in := s.in
	var objs []*Obj
	for o := range st.pub.m {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		n, ok := types.Unalias(o.typ).(*types.Named)
		if o.typ == nil || !ok || o.kind != oMem || n.Obj().Pkg() == nil || !s.p.repo[n.Obj().Pkg()] {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		s.obl++
		for _, l := range leaves(n) {
			if _, ok := l.typ.Underlying().(*types.Signature); !ok {
				continue
			}
			if v := in.loadLeaf(st.fork(), Ptr{o, linC(l.off)}, l); in.isZeroVal(st, v) {
				s.in.reportAt("incomplete", fmt.Sprintf("%s: a %s without all of its functions is visible to other goroutines", when, n.Obj().Name()), n.Obj().Pos(), "", "C15")
			}
		}
	}
}

// checkPrepare: preparing the type writes to nothing that is already visible.
func (s *Scen) checkPrepare(mk func() *MsgSpec) {
	s.undecided = guard(func() {
		m := mk()
		t := s.p.buildMsg(m)
		outs := s.prepare(s.st, t)
		if len(outs) != 1 || outs[0].panic {
			s.find(&specErr{[]string{"C14", "C15"}, "preparing the type fails: " + failText(s.in, outs)}, "prepare")
			return
		}
		s.paths++
		s.complete(outs[0].st, "after the first use of "+m.String())
		// again, and the other types of the graph, as later calls do
		st := outs[0].st
		seen := map[*MsgSpec]bool{}
		var walk func(m *MsgSpec)
		walk = func(m *MsgSpec) {
			if seen[m] {
				return
			}
			seen[m] = true
			outs := s.prepare(st, s.p.buildMsg(m))
			s.paths++
			if len(outs) != 1 || outs[0].panic {
				s.find(&specErr{[]string{"C14", "C15"}, "preparing " + m.name + " fails: " + failText(s.in, outs)}, "prepare")
				return
			}
			st = outs[0].st
			s.complete(st, "after the first use of "+m.String())
			for _, f := range m.fields {
				if f.msg != nil {
					walk(f.msg)
				}
			}
		}
		walk(m)
	})
}

func failText(in *Interp, outs []Outcome) string {
	for _, o := range outs {
		if o.panic {
			return "panic " + o.fault + showPanic(in, o.pv)
		}
	}
	return fmt.Sprintf("%d outcomes", len(outs))
}

// checkPartial: values of a recursive type, two levels deep, are encoded right.
func (s *Scen) nested2(m *MsgSpec) (Ptr, bool) {
	in := s.in
	ptr := s.message(m, "m")
	st := s.st
	var cut func(m *MsgSpec, p Ptr, depth int) bool
	cut = func(m *MsgSpec, p Ptr, depth int) bool {
		for _, f := range m.fields {
			if f.kind.class != ecMsg {
				continue
			}
			if f.pos != fpPlain {
				return false
			}
			c := in.load(st, Ptr{p.Obj, p.Off.addC(f.off)}, f.typ).(Ptr)
			if depth == 0 {
				if !in.assume(st, in.isNil(c)) {
					return false
				}
				continue
			}
			y := st.fork()
			if !in.assume(y, in.isNil(c).not()) {
				continue
			}
			// the object exists only where the pointer is not nil; its own pointers are nil in any case
			for _, g := range f.msg.fields {
				if g.kind.class == ecMsg {
					if g.pos != fpPlain {
						return false
					}
					gc := in.load(y, Ptr{c.Obj, c.Off.addC(g.off)}, g.typ).(Ptr)
					if !in.assume(st, in.isNil(gc)) {
						return false
					}
				}
			}
		}
		return true
	}
	return ptr, cut(m, ptr, 1)
}

// ---- failure histories ----

type badType struct {
	name string
	mk   func(p *Program) types.Type // the field's type
	tag  string
}

func goType(t types.Type) func(p *Program) types.Type {
	return func(*Program) types.Type { return t }
}

func basic(k types.BasicKind) types.Type { return types.Typ[k] }

func innerNamed(p *Program) types.Type { return p.buildMsg(innerMsg()) }

// unsupported Go types, in every position
func badTypes() []badType {
	var out []badType
	scal := `protobuf:"varint,2,opt"`
	rep := `protobuf:"varint,2,rep"`
	mp := `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	empty := types.NewStruct(nil, nil)
	bad := map[string]types.Type{
		"int": basic(types.Int), "uint": basic(types.Uint), "int8": basic(types.Int8), "int16": basic(types.Int16), "uint8": basic(types.Uint8), "uint16": basic(types.Uint16),
		"uintptr": basic(types.Uintptr), "complex64": basic(types.Complex64), "complex128": basic(types.Complex128),
		"func()": types.NewSignatureType(nil, nil, nil, nil, nil, false), "interface{}": types.NewInterfaceType(nil, nil), "chan": types.NewChan(types.SendRecv, basic(types.Int32)),
		"[4]byte": types.NewArray(basic(types.Uint8), 4), "[2]int32": types.NewArray(basic(types.Int32), 2), "struct{}": empty,
		"unsafe.Pointer": basic(types.UnsafePointer),
	}
	var names []string
	for n := range bad {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := bad[n]
		out = append(out, badType{n, goType(t), scal})
		if n != "struct{}" {
			out = append(out, badType{"*" + n, goType(types.NewPointer(t)), scal})
		}
		if n != "uint8" {
			out = append(out, badType{"[]" + n, goType(types.NewSlice(t)), rep})
		}
		if types.Comparable(t) && n != "interface{}" && n != "chan" {
			out = append(out, badType{"map[" + n + "]int32", goType(types.NewMap(t, basic(types.Int32))), mp})
		}
		out = append(out, badType{"map[int32]" + n, goType(types.NewMap(basic(types.Int32), t)), mp})
	}
	add := func(name, tag string, t types.Type) { out = append(out, badType{name, goType(t), tag}) }
	i32 := basic(types.Int32)
	add("[][]int32", rep, types.NewSlice(types.NewSlice(i32)))
	add("[][]string", rep, types.NewSlice(types.NewSlice(basic(types.String))))
	add("[][][]byte", rep, types.NewSlice(types.NewSlice(types.NewSlice(basic(types.Uint8)))))
	add("[]map", rep, types.NewSlice(types.NewMap(i32, i32)))
	add("map of slices", mp, types.NewMap(i32, types.NewSlice(i32)))
	add("map of maps", mp, types.NewMap(i32, types.NewMap(i32, i32)))
	add("pointer to slice", scal, types.NewPointer(types.NewSlice(i32)))
	add("pointer to map", mp, types.NewPointer(types.NewMap(i32, i32)))
	lit := func(name, tag string, mk func(p *Program) types.Type) { out = append(out, badType{name, mk, tag}) }
	lit("message by value", `protobuf:"bytes,2,opt"`, innerNamed)
	lit("repeated message by value", `protobuf:"bytes,2,rep"`, func(p *Program) types.Type { return types.NewSlice(innerNamed(p)) })
	lit("map of messages by value", mp, func(p *Program) types.Type { return types.NewMap(i32, innerNamed(p)) })
	for _, t := range []types.Type{basic(types.Int8), basic(types.Int), basic(types.Uint8), types.NewSlice(basic(types.Uint8))} {
		t := t
		lit("Option["+t.String()+"]", scal, func(p *Program) types.Type {
			o, err := p.optionType(t)
			if err != nil {
				giveUp("%v", err)
			}
			return o
		})
	}
	return out
}

// malformed tags on supported types
func badTags() []badType {
	var out []badType
	i32 := basic(types.Int32)
	m := types.NewMap(basic(types.String), i32)
	forms := []string{"", ",", "varints,2,opt", "Varint,2,opt", "int32,2,opt", "group,2,opt", "fixed16,2,opt", "fixed,2,opt", "zigzag,2,opt", "byte,2,opt", " varint,2,opt", "2,varint,opt", ",2,opt",
		"varint,x,opt", "varint,,opt", "varint,1.5,opt", "varint,2a,opt", "varint,0x2,opt", "varint, 2,opt", "varint,two,opt", "bytes,-,opt",
		"varint,2,optional", "varint,2,repeated", "varint,2,", "varint,2,Opt", "varint,2,packed", "varint,2,opt ", "varint,2,name=x",
		"varint", "bytes", "varint,0,opt", "varint,-1,opt", "varint,536870912,opt", "varint,18446744073709551617,opt",
		"varint,536870913,opt", "varint,1073741826,opt", "varint,4294967298,opt", "varint,2305843009213693954,opt", "varint,-2,opt", "varint,-536870910,opt"}
	for _, f := range forms {
		tag := fmt.Sprintf("protobuf:%q", f)
		out = append(out, badType{"int32 with " + tag, goType(i32), tag})
		if f == "varint,2,optional" || f == "varint,x,opt" || f == "int32,2,opt" {
			out = append(out, badType{"[]int32 with " + tag, goType(types.NewSlice(i32)), tag},
				badType{"*int32 with " + tag, goType(types.NewPointer(i32)), tag},
				badType{"Option[int32] with " + tag, func(p *Program) types.Type { o, _ := p.optionType(i32); return o }, tag},
				badType{"message with " + tag, func(p *Program) types.Type { return types.NewPointer(innerNamed(p)) }, tag},
				badType{"map with " + tag, goType(m), tag + ` protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`})
		}
		k := fmt.Sprintf(`protobuf:"bytes,2,rep" protobuf_key:%q protobuf_val:"varint,2,opt"`, f)
		v := fmt.Sprintf(`protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:%q`, f)
		out = append(out, badType{"map with " + k, goType(m), k}, badType{"map with " + v, goType(m), v})
	}
	out = append(out, badType{"map without key and value tags", goType(m), `protobuf:"bytes,2,rep"`},
		badType{"map without key tag", goType(m), `protobuf:"bytes,2,rep" protobuf_val:"varint,2,opt"`},
		badType{"map without value tag", goType(m), `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt"`})
	return out
}

// badMsg: a message with a good field and the bad one.
func (p *Program) badMsg(name string, b badType) *types.Named {
	T := types.NewNamed(types.NewTypeName(token.NoPos, scenPkg, name, nil), nil, nil)
	vars := []*types.Var{types.NewField(token.NoPos, scenPkg, "Good", basic(types.Int32), false), types.NewField(token.NoPos, scenPkg, "Bad", b.mk(p), false)}
	T.SetUnderlying(types.NewStruct(vars, []string{`protobuf:"varint,1,opt"`, b.tag}))
	return T
}

// refused: every outcome of the call is a panic or an error.
func (s *Scen) refused(fn, what string, outs []Outcome, props ...string) (after *State) {
	in := s.in
	f := s.p.protoPkg.Func(fn)
	for _, o := range outs {
		s.obl++
		s.paths++
		if o.panic {
			after = o.st
			continue
		}
		if len(o.vals) > 0 {
			if e, ok := o.vals[len(o.vals)-1].(Iface); ok && e.T != nil {
				after = o.st
				continue
			}
		}
		in.reportAt("refuse", fmt.Sprintf("%s accepts %s", fn, what), f.Pos(), f.String(), props...)
	}
	return
}

// checkBad: a type that is not supported is refused by every entry point, every time.
func (s *Scen) checkBad(b badType) {
	in := s.in
	s.undecided = guard(func() {
		for _, wrap := range []string{"", "nested", "repeated", "map"} {
			if wrap != "" && !strings.Contains("int8 func() map of slices message by value", b.name) {
				continue
			}
			T := s.p.badMsg("Bad", b)
			what := "a message with a field of type " + b.name
			if strings.Contains(b.name, "with") {
				what = "a message with a field " + b.name
			}
			if wrap != "" {
				what += ", " + wrap
				o := types.NewNamed(types.NewTypeName(token.NoPos, scenPkg, "Outer", nil), nil, nil)
				ft, tag := types.Type(types.NewPointer(T)), `protobuf:"bytes,2,opt"`
				switch wrap {
				case "repeated":
					ft, tag = types.NewSlice(ft), `protobuf:"bytes,2,rep"`
				case "map":
					ft, tag = types.NewMap(basic(types.String), ft), `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
				}
				o.SetUnderlying(types.NewStruct([]*types.Var{types.NewField(token.NoPos, scenPkg, "F", ft, false)}, []string{tag}))
				T = o
			}
			input := in.symSlice("input", types.Typ[types.Uint8], false)
			input.Data.Obj.input = true
			st := s.st.fork()
			if !in.assume(st, mkGE(input.Len.addC(-1))) {
				return
			}
			obj := func() Iface {
				o := in.newObj(oMem, "m", T)
				return Iface{T: types.NewPointer(T), V: ptrTo(o)}
			}
			calls := []string{"Marshal", "Unmarshal", "Size", "Marshal", "Unmarshal"}
			for _, fn := range calls {
				if st == nil {
					break
				}
				a := obj()
				mark := st.ev
				var outs []Outcome
				if fn == "Unmarshal" {
					outs = s.call(st.fork(), fn, input, a)
				} else {
					outs = s.call(st.fork(), fn, a)
				}
				for _, o := range outs {
					for _, e := range o.st.eventsSince(mark) {
						if isRead(e) || e.obj == a.V.(Ptr).Obj {
							in.reportAt("refuse", fmt.Sprintf("%s touches the input or the message before refusing %s", fn, what), e.pos, fnName(e.fn), "C16")
						}
					}
				}
				next := s.refused(fn, what, outs, "C16")
				if next != nil {
					s.complete(next, "after refusing "+what)
				}
				st = next
			}
		}
	})
}

// checkAfterFailure: types that failed types refer to work as if nothing had happened.
func (s *Scen) checkAfterFailure(b badType, good func() *MsgSpec, first bool, pos fieldPos) {
	s.undecided = guard(func() {
		g := good()
		gt := s.p.buildMsg(g)
		T := types.NewNamed(types.NewTypeName(token.NoPos, scenPkg, "Failing", nil), nil, nil)
		var ft types.Type = types.NewPointer(gt)
		tag := `protobuf:"bytes,1,opt"`
		switch pos {
		case fpRepeated:
			ft, tag = types.NewSlice(ft), `protobuf:"bytes,1,rep"`
		case fpMap:
			ft, tag = types.NewMap(basic(types.String), ft), `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		}
		vars := []*types.Var{types.NewField(token.NoPos, scenPkg, "G", ft, false), types.NewField(token.NoPos, scenPkg, "Bad", b.mk(s.p), false),
			types.NewField(token.NoPos, scenPkg, "Self", types.NewPointer(T), false)}
		tags := []string{tag, b.tag, `protobuf:"bytes,3,opt"`}
		if !first {
			vars[0], vars[2], tags[0], tags[2] = vars[2], vars[0], tags[2], tags[0]
		}
		T.SetUnderlying(types.NewStruct(vars, tags))
		outs := s.prepare(s.st, T)
		after := s.refused("Size", "a message with a field of type "+b.name, outs, "C16")
		if after == nil {
			return
		}
		s.complete(after, "after refusing a type that refers to "+g.name)
		s.st = after
		s.extra = []string{"C15"}
		s.undecided = ""
		s.checkEncode(g)
		if s.undecided != "" {
			giveUp("%s", s.undecided)
		}
		// and the failing type is still refused
		outs = s.prepare(s.st, T)
		s.refused("Size", "a message with a field of type "+b.name+" (second time)", outs, "C16", "C15")
	})
}

// ---- C17: arguments ----

func (s *Scen) checkArgs() {
	in := s.in
	p := s.p
	s.undecided = guard(func() {
		msg := p.buildMsg(msg1(fld("F", "int32", fpPlain, 1)))
		i32 := basic(types.Int32)
		named := types.NewNamed(types.NewTypeName(token.NoPos, scenPkg, "Int", nil), i32, nil)
		ptrs := map[string]types.Type{
			"*int32": i32, "*string": basic(types.String), "*[]byte": types.NewSlice(basic(types.Uint8)), "**struct": types.NewPointer(msg), "*[]*struct": types.NewSlice(types.NewPointer(msg)),
			"*map": types.NewMap(i32, i32), "*interface{}": types.NewInterfaceType(nil, nil), "*Int": named, "*[1]struct": types.NewArray(msg, 1), "*func()": types.NewSignatureType(nil, nil, nil, nil, nil, false),
		}
		type arg struct {
			name string
			v    Iface
		}
		var args []arg
		args = append(args, arg{"nil", Iface{}})
		var pn []string
		for n := range ptrs {
			pn = append(pn, n)
		}
		sort.Strings(pn)
		for _, n := range pn {
			t := ptrs[n]
			o := in.newObj(oMem, "arg", t)
			o.sym = true
			args = append(args, arg{n, Iface{T: types.NewPointer(t), V: ptrTo(o)}}, arg{"nil " + n, Iface{T: types.NewPointer(t), V: nilPtr()}})
		}
		vals := map[string]types.Type{"int32": i32, "string": basic(types.String), "bool": basic(types.Bool), "float64": basic(types.Float64), "struct": msg, "[]byte": types.NewSlice(basic(types.Uint8)),
			"[]*struct": types.NewSlice(types.NewPointer(msg)), "map": types.NewMap(i32, i32), "func()": types.NewSignatureType(nil, nil, nil, nil, nil, false), "chan": types.NewChan(types.SendRecv, i32),
			"unsafe.Pointer": basic(types.UnsafePointer), "Int": named, "[2]*struct": types.NewArray(types.NewPointer(msg), 2)}
		var vn []string
		for n := range vals {
			vn = append(vn, n)
		}
		sort.Strings(vn)
		for _, n := range vn {
			args = append(args, arg{n, Iface{T: vals[n], V: zeroVal(in, vals[n])}})
		}
		input := in.symSlice("input", types.Typ[types.Uint8], false)
		input.Data.Obj.input = true
		some := s.st.fork()
		if !in.assume(some, mkGE(input.Len.addC(-1))) {
			return
		}
		errOnly := func(fn, what string, outs []Outcome) {
			f := p.protoPkg.Func(fn)
			for _, o := range outs {
				s.obl++
				s.paths++
				if o.panic {
					in.reportAt("argument", fmt.Sprintf("%s(%s) panics: %s%s", fn, what, o.fault, showPanic(in, o.pv)), f.Pos(), f.String(), "C17")
					continue
				}
				e, ok := o.vals[len(o.vals)-1].(Iface)
				if !ok || e.T == nil {
					in.reportAt("argument", fmt.Sprintf("%s(%s) returns no error", fn, what), f.Pos(), f.String(), "C17")
					continue
				}
				s.errorText(o.st, e, fn, what)
			}
		}
		for _, a := range args {
			errOnly("Marshal", a.name, s.call(s.st.fork(), "Marshal", a.v))
			errOnly("Unmarshal", a.name, s.call(some.fork(), "Unmarshal", input, a.v))
			f := p.protoPkg.Func("Size")
			for _, o := range s.call(s.st.fork(), "Size", a.v) {
				s.obl++
				s.paths++
				if !o.panic {
					in.reportAt("argument", fmt.Sprintf("Size(%s) returns", a.name), f.Pos(), f.String(), "C17")
				} else if o.fault != "" {
					in.reportAt("argument", fmt.Sprintf("Size(%s) crashes: %s", a.name, o.fault), f.Pos(), f.String(), "C17")
				}
			}
		}
		// a nil message
		for _, mk := range []func() *MsgSpec{func() *MsgSpec { return msg1(fld("F", "int32", fpPlain, 1)) }, func() *MsgSpec { return msg1(mapFld("F", "string", "message", 1)) },
			func() *MsgSpec { return msg1(fld("F", "string", fpRepeated, 1), fld("G", "bool", fpOption, 2)) }, recursiveTypes["self"]} {
			t := p.buildMsg(mk())
			np := Iface{T: types.NewPointer(t), V: nilPtr()}
			errOnly("Unmarshal", "nil *struct", s.call(some.fork(), "Unmarshal", input, np))
			f := p.protoPkg.Func("Marshal")
			for _, o := range s.call(s.st.fork(), "Marshal", np) {
				s.obl++
				s.paths++
				if o.panic {
					in.reportAt("argument", "Marshal(nil *struct) panics: "+o.fault+showPanic(in, o.pv), f.Pos(), f.String(), "C17")
					continue
				}
				if e := o.vals[1].(Iface); e.T != nil || in.decideLinZero(o.st.f, o.vals[0].(Slice).Len) != 1 {
					in.reportAt("argument", "Marshal(nil *struct) does not give an empty encoding", f.Pos(), f.String(), "C17")
				}
			}
			f = p.protoPkg.Func("Size")
			for _, o := range s.call(s.st.fork(), "Size", np) {
				s.obl++
				s.paths++
				if o.panic {
					in.reportAt("argument", "Size(nil *struct) panics: "+o.fault+showPanic(in, o.pv), f.Pos(), f.String(), "C17")
					continue
				}
				if in.decideLinZero(o.st.f, in.linOf(o.st, o.vals[0].(Int))) != 1 {
					in.reportAt("argument", "Size(nil *struct) is not zero", f.Pos(), f.String(), "C17")
				}
			}
		}
	})
}

// errorText: the error can be printed.
func (s *Scen) errorText(st *State, e Iface, fn, what string) {
	if types.Identical(e.T, s.p.opaqueErr) {
		return // made by the standard library
	}
	if n := namedOf(e.T); n == nil || n.Obj().Pkg() == nil || !s.p.repo[n.Obj().Pkg()] {
		return
	}
	for _, o := range s.method(st.fork(), e.T, "Error", e.V) {
		if o.panic {
			s.in.reportAt("argument", fmt.Sprintf("the text of the error from %s(%s) panics: %s", fn, what, o.fault), s.p.protoPkg.Func(fn).Pos(), "", "C17")
		}
	}
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// ---- C19: Options ----

func (s *Scen) checkOption(tname string) {
	in := s.in
	p := s.p
	tv, err := types.Eval(p.fset, p.protoPkg.Pkg, token.NoPos, "(*("+tname+"))(nil)")
	if err != nil {
		s.undecided = err.Error()
		return
	}
	t := tv.Type.(*types.Pointer).Elem()
	s.undecided = guard(func() {
		opt, err := p.optionType(t)
		if err != nil {
			giveUp("%v", err)
		}
		bad := func(fn *ssa.Function, f string, a ...interface{}) {
			var pos token.Pos
			name := ""
			if fn != nil {
				pos, name = fn.Pos(), fn.String()
			}
			in.reportAt("option", fmt.Sprintf("Option[%s]: ", tname)+fmt.Sprintf(f, a...), pos, name, "C19")
		}
		sym := func(key string) Val {
			o := in.newObj(oMem, key, t)
			o.sym = true
			return in.load(s.st, ptrTo(o), t)
		}
		x, dflt := sym("x"), sym("default")
		is := func(st *State, v Val, want bool) bool {
			b, ok := v.(Bool)
			w := -1
			if want {
				w = 1
			}
			return ok && in.decide(st, b.c) == w
		}
		check := func(st *State, v Val, set bool, val Val, how string) {
			in := s.in
			one := func(name string, args ...Val) (out []Outcome) {
				for _, o := range s.method(st.fork(), opt, name, append([]Val{v}, args...)[0], args...) {
					s.obl++
					s.paths++
					if o.panic {
						bad(o.fn, "%s panics on %s: %s", name, how, o.fault)
						continue
					}
					for _, e := range o.st.eventsSince(st.ev) {
						if e.kind == "store" && e.obj != nil && (e.obj.global != nil || e.obj.sym) {
							bad(e.fn, "%s writes to %s", name, e.obj.name)
						}
					}
					out = append(out, o)
				}
				return
			}
			for _, o := range one("IsSome") {
				if !is(o.st, o.vals[0], set) {
					bad(o.fn, "IsSome of %s is not %v", how, set)
				}
			}
			for _, o := range one("IsNone") {
				if !is(o.st, o.vals[0], !set) {
					bad(o.fn, "IsNone of %s is not %v", how, !set)
				}
			}
			for _, o := range one("Unwrap") {
				if !in.sameVal(o.st, o.vals[0], val) {
					bad(o.fn, "Unwrap of %s gives %s", how, show(in, o.vals[0]))
				}
			}
			want := dflt
			if set {
				want = val
			}
			for _, o := range one("UnwrapOr", dflt) {
				if !in.sameVal(o.st, o.vals[0], want) {
					bad(o.fn, "UnwrapOr of %s gives %s", how, show(in, o.vals[0]))
				}
			}
		}
		zero := zeroVal(in, t)
		make1 := func(fn *ssa.Function, args ...Val) []Outcome {
			var out []Outcome
			for _, o := range in.callFunc(s.st.fork(), fn, nil, args) {
				if o.panic {
					bad(fn, "%s panics: %s", fn.Name(), o.fault)
					continue
				}
				out = append(out, o)
			}
			return out
		}
		for _, fn := range []string{"Some", "None"} {
			inst := s.instance(fn, t)
			if inst == nil {
				giveUp("no instance of %s for %s", fn, tname)
			}
			if fn == "Some" {
				for _, o := range make1(inst, x) {
					check(o.st, o.vals[0], true, x, "Some(x)")
				}
				continue
			}
			for _, o := range make1(inst) {
				check(o.st, o.vals[0], false, zero, "None()")
			}
		}
		check(s.st.fork(), zeroVal(in, opt), false, zero, "the zero Option")
		// both of them always disagree, whatever the Option
		ob := in.newObj(oMem, "option", opt)
		ob.sym = true
		any := in.load(s.st, ptrTo(ob), opt)
		for _, o := range s.method(s.st.fork(), opt, "IsSome", any) {
			for _, o2 := range s.method(o.st, opt, "IsNone", any) {
				a, b := o.vals[0].(Bool), o2.vals[0].(Bool)
				for _, br := range in.splitCond(o2.st, a.c) {
					if !is(br.st, b, !br.val) {
						bad(o2.fn, "IsSome and IsNone agree on some Option")
					}
				}
			}
		}
		// typed constructors
		sc := p.protoPkg.Pkg.Scope()
		for _, name := range sc.Names() {
			f, ok := sc.Lookup(name).(*types.Func)
			if !ok || !f.Exported() {
				continue
			}
			sig := f.Type().(*types.Signature)
			if sig.TypeParams() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), opt) || !types.Identical(sig.Params().At(0).Type(), t) {
				continue
			}
			s.obl++
			for _, o := range make1(p.protoPkg.Func(name), x) {
				check(o.st, o.vals[0], true, x, name+"(x)")
			}
		}
	})
}

// instance finds the instance of a generic function of package proto for t.
func (s *Scen) instance(name string, t types.Type) *ssa.Function {
	gen := s.p.protoPkg.Func(name)
	if gen == nil {
		return nil
	}
	s.p.instOnce.Do(func() {
		s.p.insts = map[*ssa.Function][]*ssa.Function{}
		var visit func(fn *ssa.Function)
		seen := map[*ssa.Function]bool{}
		visit = func(fn *ssa.Function) {
			if fn == nil || seen[fn] {
				return
			}
			seen[fn] = true
			if o := fn.Origin(); o != nil && len(fn.TypeArgs()) > 0 {
				s.p.insts[o] = append(s.p.insts[o], fn)
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							visit(f)
						}
					}
				}
			}
		}
		for _, m := range s.p.protoPkg.Members {
			if f, ok := m.(*ssa.Function); ok {
				visit(f)
			}
		}
	})
	for _, f := range s.p.insts[gen] {
		if len(f.TypeArgs()) == 1 && types.Identical(f.TypeArgs()[0], t) {
			return f
		}
	}
	return nil
}
