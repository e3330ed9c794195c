package main

// Message types the analysis is run for, built with go/types (nothing is compiled).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type encClass int

const (
	ecVar  encClass = iota // varint of the unsigned (or sign-extended) value
	ecBool                 // varint 0 or 1
	ecZig                  // zigzag varint
	ecFix                  // little-endian
	ecLen                  // length-prefixed bytes
	ecMsg                  // length-prefixed message
)

type kindInfo struct {
	name   string
	tag    string // first part of the struct tag
	wire   int
	class  encClass
	basic  types.BasicKind
	width  int // bits of the value
	signed bool
}

var kindList = []*kindInfo{
	{"bool", "varint", 0, ecBool, types.Bool, 8, false},
	{"int32", "varint", 0, ecVar, types.Int32, 32, true},
	{"int64", "varint", 0, ecVar, types.Int64, 64, true},
	{"uint32", "varint", 0, ecVar, types.Uint32, 32, false},
	{"uint64", "varint", 0, ecVar, types.Uint64, 64, false},
	{"sint32", "zigzag32", 0, ecZig, types.Int32, 32, true},
	{"sint64", "zigzag64", 0, ecZig, types.Int64, 64, true},
	{"fixed32", "fixed32", 5, ecFix, types.Uint32, 32, false},
	{"sfixed32", "fixed32", 5, ecFix, types.Int32, 32, true},
	{"fixed64", "fixed64", 1, ecFix, types.Uint64, 64, false},
	{"sfixed64", "fixed64", 1, ecFix, types.Int64, 64, true},
	{"float", "fixed32", 5, ecFix, types.Float32, 32, false},
	{"double", "fixed64", 1, ecFix, types.Float64, 64, false},
	{"string", "bytes", 2, ecLen, types.String, 0, false},
	{"bytes", "bytes", 2, ecLen, types.Invalid, 0, false},
	{"message", "bytes", 2, ecMsg, types.Invalid, 0, false},
}

var kinds = func() map[string]*kindInfo {
	m := map[string]*kindInfo{}
	for _, k := range kindList {
		m[k.name] = k
	}
	return m
}()

type fieldPos int

const (
	fpPlain fieldPos = iota
	fpOption
	fpPointer
	fpRepeated
	fpMap
	fpIgnored // unexported or untagged
)

func (p fieldPos) String() string {
	return [...]string{"plain", "optional", "pointer", "repeated", "map", "ignored"}[p]
}

type FieldSpec struct {
	name       string
	kind       *kindInfo
	pos        fieldPos
	num        uint64
	key        *kindInfo // maps
	knum, vnum uint64
	msg        *MsgSpec // element message type
	rawTag     string   // struct tag to use instead of the usual one
	embedded   bool
	suffix     string // further attributes of the struct tags
	// of the built struct
	typ    types.Type
	off    int64
	parent *MsgSpec
	ek, ev *FieldSpec
}

func (f *FieldSpec) wire() int {
	if f.pos == fpMap {
		return 2
	}
	return f.kind.wire
}

type MsgSpec struct {
	pad    int64 // bytes before the first field
	name   string
	fields []*FieldSpec
	T      *types.Named
	built  bool
	pkg    *types.Package // instead of scenPkg
}

func (m *MsgSpec) String() string {
	var xs []string
	for _, f := range m.fields {
		xs = append(xs, f.String())
	}
	return m.name + "{" + strings.Join(xs, "; ") + "}"
}

func (f *FieldSpec) String() string {
	el := f.kind.name
	if f.msg != nil {
		el = f.msg.name
	}
	switch f.pos {
	case fpMap:
		return fmt.Sprintf("map<%s,%s> %s = %d", f.key.name, el, f.name, f.num)
	case fpPlain:
		return fmt.Sprintf("%s %s = %d", el, f.name, f.num)
	}
	return fmt.Sprintf("%s %s %s = %d%s", f.pos, el, f.name, f.num, f.suffix)
}

var scenPkg = types.NewPackage("verif/scenario", "scenario")

func (p *Program) elemType(k *kindInfo, m *MsgSpec) types.Type {
	switch k.name {
	case "message":
		return types.NewPointer(p.buildMsg(m))
	case "bytes":
		return types.NewSlice(types.Typ[types.Uint8])
	}
	return types.Typ[k.basic]
}

// otherScenPkg: another package whose types print like those of scenPkg.
var otherScenPkg = types.NewPackage("verif/other/scenario", "scenario")

func (m *MsgSpec) inPkg() *types.Package {
	if m.pkg != nil {
		return m.pkg
	}
	return scenPkg
}

// buildMsg makes the Go struct type of a message.
func (p *Program) buildMsg(m *MsgSpec) *types.Named {
	if m.T != nil {
		return m.T
	}
	m.T = types.NewNamed(types.NewTypeName(token.NoPos, m.inPkg(), m.name, nil), nil, nil)
	var vars []*types.Var
	var tags []string
	if m.pad > 0 {
		vars = append(vars, types.NewField(token.NoPos, scenPkg, "pad", types.NewArray(types.Typ[types.Uint8], m.pad), false))
		tags = append(tags, "")
	}
	for _, f := range m.fields {
		f.parent = m
		t := p.elemType(f.kind, f.msg)
		tag := fmt.Sprintf(`protobuf:"%s,%d,opt%s"`, f.kind.tag, f.num, f.suffix)
		switch f.pos {
		case fpOption:
			o, err := p.optionType(t)
			if err != nil {
				giveUp("%v", err)
			}
			t = o
		case fpPointer:
			t = types.NewPointer(t)
		case fpRepeated:
			t = types.NewSlice(t)
			tag = fmt.Sprintf(`protobuf:"%s,%d,rep%s"`, f.kind.tag, f.num, f.suffix)
		case fpMap:
			if f.knum == 0 {
				f.knum, f.vnum = 1, 2
			}
			t = types.NewMap(p.elemType(f.key, nil), t)
			tag = fmt.Sprintf(`protobuf:"bytes,%d,rep%s" protobuf_key:"%s,%d,opt%[2]s" protobuf_val:"%[5]s,%[6]d,opt%[2]s"`, f.num, f.suffix, f.key.tag, f.knum, f.kind.tag, f.vnum)
		case fpIgnored:
			if token.IsExported(f.name) {
				tag = fmt.Sprintf(`%s:"%s,%d,opt"`, anyTag, f.kind.tag, f.num)
			}
		}
		if f.rawTag != "" {
			tag = f.rawTag
		}
		f.typ = t
		vars = append(vars, types.NewField(token.NoPos, scenPkg, f.name, t, f.embedded))
		tags = append(tags, tag)
	}
	s := types.NewStruct(vars, tags)
	m.T.SetUnderlying(s)
	offs := sizes.Offsetsof(vars)
	for i, f := range m.fields {
		f.off = offs[len(offs)-len(m.fields)+i]
	}
	return m.T
}

// scenario runs in the state after package initialisation, with everything the
// package variables hold published to other goroutines.
type Scen struct {
	p         *Program
	in        *Interp
	st        *State // after initialisation
	name      string
	undecided string
	obl       int // comparisons made
	paths     int
	extra     []string // properties every mismatch of this scenario also violates
	only      []string // the only properties a mismatch of this scenario violates
	note      string
	steps     int // of the environment
}

func (s *Scen) find(e *specErr, rule string) {
	props := append(append([]string(nil), e.props...), s.extra...)
	if s.only != nil {
		props = s.only
	}
	s.in.reportAt(rule, e.msg, s.p.protoPkg.Func("Marshal").Pos(), "", props...)
}

// checkEncode: Size and Marshal on every message of the type.
func (s *Scen) checkEncode(m *MsgSpec) {
	in := s.in
	var ptr Ptr
	s.undecided = guard(func() {
		ptr = s.message(m, "m")
		st := s.st.fork()
		mark := st.ev
		for round := 0; ; round++ {
			// until what earlier calls may have left in pools is known
			if round > 4 {
				giveUp("pool contents do not settle")
			}
			in.poolChanged = false
			nf := len(in.findings)
			for _, o := range s.call(st.fork(), "Size", s.iface(m, ptr)) {
				if !o.panic && in.poolChanged == false {
					s.call(o.st, "Marshal", s.iface(m, ptr))
				}
			}
			in.dropFindings(nf)
			if !in.poolChanged {
				break
			}
		}
		for _, o := range s.call(st, "Size", s.iface(m, ptr)) {
			if o.panic {
				s.find(&specErr{append(faultProps(strings.Replace(o.fault, "slice [", "slice[", 1)), "C01", "C14"), "Size panics: " + o.fault + show(in, o.pv)}, "size")
				continue
			}
			n := in.linOf(o.st, o.vals[0].(Int))
			for _, o := range s.call(o.st, "Marshal", s.iface(m, ptr)) {
				s.paths++
				if o.panic {
					s.find(&specErr{append(faultProps(strings.Replace(o.fault, "slice [", "slice[", 1)), "C03", "C14"), "Marshal panics: " + o.fault + show(in, o.pv)}, "marshal")
					continue
				}
				if e := o.vals[1].(Iface); e.T != nil {
					s.find(&specErr{[]string{"C03", "C14"}, "Marshal reports an error for a valid message"}, "marshal")
					continue
				}
				sl := o.vals[0].(Slice)
				seq := in.contentOf(o.st, sl.Data, sl.Len)
				s.obl++
				if in.decideLinZero(o.st.f, in.seqLen(seq).sub(n)) != 1 {
					s.find(&specErr{[]string{"C01"}, fmt.Sprintf("Size gives %s for the %s bytes %s", n, in.seqLen(seq), in.showSeq(seq))}, "size")
				}
				if in.decideLinZero(o.st.f, sl.Len.sub(in.seqLen(seq))) != 1 {
					s.find(&specErr{[]string{"C01"}, fmt.Sprintf("Marshal's result has length %s but holds %s", sl.Len, in.showSeq(seq))}, "size")
				}
				c := &encCtx{s: s, in: in}
				s.obl++
				if e := c.message(o.st.fork(), seq, m, ptr); e != nil {
					s.find(e, "encode")
				}
				s.checkEncodeEffects(mark, o, sl)
			}
		}
	})
}

// checkEncodeEffects: nothing of the message is written, and the result is new memory.
func (s *Scen) checkEncodeEffects(mark *Event, o Outcome, sl Slice) {
	in := s.in
	for _, e := range o.st.eventsSince(mark) {
		if e.obj == nil {
			continue
		}
		switch e.kind {
		case "store", "copy", "append", "append-shared", "mapassign", "mapstore", "delete", "clear":
			if e.obj.msg {
				in.reportAt("effect", "Size or Marshal writes to the message ("+e.obj.name+")", e.pos, fnName(e.fn), "C11")
			}
		}
	}
	s.obl++
	if d := sl.Data.Obj; d != nil {
		// what later calls can get at: pooled objects and whatever is visible to others
		shared := map[*Obj]bool{}
		visit := func(o *Obj) bool {
			if o.kind == oType || shared[o] {
				return false
			}
			shared[o] = true
			return true
		}
		for x := range o.st.put {
			in.reachVal(o.st, ptrTo(x), visit)
		}
		for x := range o.st.pub.m {
			in.reachVal(o.st, ptrTo(x), visit)
		}
		for _, x := range in.globals {
			in.reachVal(o.st, ptrTo(x), visit)
		}
		for x := d; x != nil; x = x.base {
			if shared[x] || x.pooled {
				in.reportAt("fresh", "Marshal returns memory the library keeps ("+x.name+")", s.p.protoPkg.Func("Marshal").Pos(), "", "C11", "C27")
				break
			}
		}
		for x := d; x != nil; x = x.base {
			if x.msg || x.frozen || x.global != nil || x.sym {
				in.reportAt("fresh", "Marshal returns memory of "+x.name, s.p.protoPkg.Func("Marshal").Pos(), "", "C11")
				break
			}
		}
	}
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return f.String()
}

func (p *Program) newScen(name string) *Scen {
	in := newInterp(p)
	in.scenario = name
	in.pushRoot()
	in.quiet++
	st := in.runInit(newState())
	in.quiet--
	for _, o := range in.globals {
		in.publish(st, ptrTo(o))
	}
	return &Scen{p: p, in: in, st: st, name: name}
}

func (s *Scen) message(m *MsgSpec, key string) Ptr {
	T := s.p.buildMsg(m)
	o := s.in.symObj("msg:"+key, func() *Obj {
		o := s.in.newObj(oMem, key, T)
		o.sym = true
		o.msg = true
		return o
	})
	return ptrTo(o)
}

func (s *Scen) iface(m *MsgSpec, p Ptr) Iface {
	return Iface{T: types.NewPointer(s.p.buildMsg(m)), V: p}
}

func (s *Scen) call(st *State, name string, args ...Val) []Outcome {
	fn := s.p.protoPkg.Func(name)
	if fn == nil {
		giveUp("function %s not found in package proto", name)
	}
	outs := s.in.callFunc(st, fn, nil, args)
	for _, o := range outs {
		s.in.released(o, name)
	}
	return outs
}

// faultProps: what else a run-time fault violates besides the property of the
// call that faults: accesses outside an object (C20, C23), memory used as what
// it is not (C23), positions outside the data (C22).
func faultProps(fault string) []string {
	if strings.Contains(fault, " of pooled ") { // entries of maps, shared through a pool
		return append(faultProps(strings.Replace(fault, " of pooled ", " of ", 1)), "C13", "C27")
	}
	has := func(xs ...string) bool {
		for _, x := range xs {
			if strings.Contains(fault, x) {
				return true
			}
		}
		return false
	}
	switch {
	case has(" bytes at offset"):
		return []string{"C20", "C23"}
	case has("becomes a pointer", "used as a pointer", "is read as", "overlaps part", "pointer arithmetic", " with type ", "-bit word"):
		return []string{"C23"}
	case has("slice [", "newarray: length", "make: length"):
		return []string{"C22"}
	}
	return nil
}
