package main

// The code generator (C21, C24): what it emits for a schema is computed by
// partial evaluation (geninterp.go), then type-checked and compared with the
// schema; the Go type and tags of every field are handed to the analysis of
// the runtime, with the schema's own encoding as the oracle.

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) genIntrinsic(st *State, fv FuncV, args []Val) ([]Outcome, bool) { return nil, false }
func (in *Interp) genCall(st *State, fn *ssa.Function, name string, args []Val) ([]Outcome, bool) {
	return nil, false
}

const (
	protogenPath = "google.golang.org/protobuf/compiler/protogen"
	preflectPath = "google.golang.org/protobuf/reflect/protoreflect"
	descPath     = "google.golang.org/protobuf/types/descriptorpb"
	pbPath       = "example.com/verif/pb"
	otherPath    = "example.com/verif/otherpb"
	thirdPath    = "example.com/verif/thirdpb"
)

// schema descriptions

type gField struct {
	name     string
	kind     string // schema kind: bool ... message, enum, group
	card     int    // 1 optional, 2 required, 3 repeated
	presence bool
	proto2   bool
	key, val *gField // maps
	oneof    *gOneof
	ext      bool // enum or message of another package
	num      int
	msg      *gMsg // message, group and map-entry type
	enum     *gEnum
}

type gOneof struct {
	name      string
	synthetic bool
	fields    []*gField
}

type gEnum struct {
	name   string
	values []string
	nums   []int // 7000, 7001, ... if nil
	ext    bool
}

func (e *gEnum) num(i int) int {
	if e.nums != nil {
		return e.nums[i]
	}
	if e.ext {
		return 9000 + i
	}
	return 7000 + i
}

type gMsg struct {
	name     string
	fields   []*gField
	oneofs   []*gOneof
	nested   []*gMsg
	enums    []*gEnum
	mapEntry bool
	ext      bool
}

type gSchema struct {
	name   string
	msgs   []*gMsg
	enums  []*gEnum
	vary   string // what has deprecation, comments and tracking varied
	proto2 bool
	notes  int // comments: 0 none, 1 one line, 2 several lines
}

func (f *gField) String() string {
	if f.key != nil {
		return fmt.Sprintf("map<%s,%s> %s", f.key.kind, f.val.kind, f.name)
	}
	w := map[bool]string{true: "explicit ", false: "implicit "}[f.presence]
	switch {
	case f.card == 2:
		w = "required "
	case f.card == 3:
		w = "repeated "
	case f.oneof != nil && !f.oneof.synthetic:
		w = "oneof member "
	}
	x := ""
	if f.ext {
		x = " of another package"
	}
	return w + f.kind + x + " " + f.name
}

var protoKinds = map[string]int64{"bool": 8, "enum": 14, "int32": 5, "sint32": 17, "uint32": 13, "int64": 3, "sint64": 18, "uint64": 4,
	"sfixed32": 15, "fixed32": 7, "float": 2, "sfixed64": 16, "fixed64": 6, "double": 1, "string": 9, "bytes": 12, "message": 11, "group": 10}

// ---- descriptors ----

type gdesc struct {
	what string // field, message, oneof, enum, value, file, list
	id   string
	f    *gField
	m    *gMsg
	o    *gOneof
	e    *gEnum
	n    int
	g    *ginterp

	path    string // of a file
	imports []gImport
	items   []*gdesc
}

type gImport struct {
	desc         *gdesc
	public, weak bool
}

func (d *gdesc) list(items []*gdesc) gv {
	return giface{genDescT, &gdesc{what: "list", id: "list of " + d.id, n: len(items), items: items, g: d.g}}
}

func fieldDescs(m *gMsg, fields []*gField, g *ginterp) []*gdesc {
	var xs []*gdesc
	for _, f := range fields {
		id := f.name
		if m != nil && m.mapEntry {
			id = m.name + "." + f.name
		}
		xs = append(xs, &gdesc{what: "field", id: id, f: f, m: m, g: g})
	}
	return xs
}

// index is the element's position in its parent.
func (d *gdesc) index() (int, bool) {
	switch {
	case d.what == "value":
		for i, v := range d.e.values {
			if v == d.id {
				return i, true
			}
		}
	case d.what == "field" && d.m != nil:
		for i, f := range d.m.fields {
			if f == d.f {
				return i, true
			}
		}
	case d.what == "oneof" && d.m != nil:
		for i, o := range d.m.oneofs {
			if o == d.o {
				return i, true
			}
		}
	}
	return 0, false
}

func (d *gdesc) method(g *ginterp, name string, args []gv) []gv {
	one := func(v gv) []gv { return []gv{v} }
	switch name {
	case "Options":
		n := map[string]string{"field": "FieldOptions", "message": "MessageOptions", "oneof": "OneofOptions", "enum": "EnumOptions", "value": "EnumValueOptions", "file": "FileOptions"}[d.what]
		return one(giface{types.NewPointer(g.libType(descPath, n)), gopq{what: "options of " + d.id}})
	case "Name":
		return one(atomStr("proto_" + d.id))
	case "FullName":
		pkg := "verif"
		if d.e != nil && d.e.ext || d.what == "message" && d.m.ext {
			pkg = "other"
		}
		if d.g.ppkg != nil {
			if n := d.g.ppkg[d.m]; d.m != nil && n != "" {
				pkg = n
			} else if n := d.g.ppkg[d.e]; d.e != nil && n != "" {
				pkg = n
			}
		}
		parent := gstr(nil)
		if d.m != nil && (d.what == "field" || d.what == "oneof") {
			parent = atomStr("proto_" + d.m.name).cat(lit("."))
		}
		return one(atomStr("package_" + pkg).cat(lit(".")).cat(parent).cat(atomStr("proto_" + d.id)))
	case "Path":
		if d.path != "" {
			return one(lit(d.path))
		}
		return one(lit("verif.proto"))
	case "Index":
		if i, ok := d.index(); ok {
			return one(gk(int64(i)))
		}
	case "IsPlaceholder":
		return one(gb(false))
	case "ProtoInternal":
		return nil
	}
	switch d.what {
	case "list":
		switch name {
		case "Len":
			return one(gk(int64(d.n)))
		case "Get":
			i := args[0].(gint)
			if !i.known {
				giveUp("generator: unknown index of an import")
			}
			if i.k < 0 || i.k >= int64(d.n) {
				panic(gpanic{"index out of range"})
			}
			if d.imports == nil {
				return one(giface{genDescT, d.items[i.k]})
			}
			imp := d.imports[i.k]
			v := g.zero(g.libType(preflectPath, "FileImport")).(gstruct)
			for _, f := range v.f {
				switch f.name {
				case "FileDescriptor":
					f.v = giface{genDescT, imp.desc}
				case "IsPublic":
					f.v = gb(imp.public)
				case "IsWeak":
					f.v = gb(imp.weak)
				}
			}
			return one(v)
		case "ByNumber":
			k := args[0].(gint)
			for _, x := range d.items {
				y := x.method(g, "Number", nil)[0].(gint)
				if g.decide(g.eq(k, y)) {
					return one(giface{genDescT, x})
				}
			}
			return one(giface{})
		}
	case "file":
		switch name {
		case "Imports":
			return one(giface{genDescT, &gdesc{what: "list", id: "imports", n: len(d.imports), imports: d.imports, g: g}})
		case "Syntax":
			if d.f.proto2 {
				return one(gk(2))
			}
			return one(gk(3))
		case "Package":
			return one(lit("verif"))
		}
	case "message":
		switch name {
		case "IsMapEntry":
			return one(gb(d.m.mapEntry))
		case "Fields":
			return one(d.list(fieldDescs(d.m, d.m.fields, g)))
		case "Oneofs":
			var xs []*gdesc
			for _, o := range d.m.oneofs {
				xs = append(xs, &gdesc{what: "oneof", id: o.name, o: o, m: d.m, g: g})
			}
			return one(d.list(xs))
		case "Messages":
			var xs []*gdesc
			for _, m := range d.m.nested {
				xs = append(xs, &gdesc{what: "message", id: m.name, m: m, g: g})
			}
			return one(d.list(xs))
		case "Enums":
			var xs []*gdesc
			for _, e := range d.m.enums {
				xs = append(xs, &gdesc{what: "enum", id: e.name, e: e, g: g})
			}
			return one(d.list(xs))
		}
	case "oneof":
		switch name {
		case "IsSynthetic":
			return one(gb(d.o.synthetic))
		case "Fields":
			return one(d.list(fieldDescs(d.m, d.o.fields, g)))
		}
	case "enum":
		switch name {
		case "IsClosed":
			return one(gb(false))
		case "Values":
			var xs []*gdesc
			for i, v := range d.e.values {
				xs = append(xs, &gdesc{what: "value", id: v, e: d.e, n: d.e.num(i), g: g})
			}
			return one(d.list(xs))
		}
	case "value":
		switch name {
		case "Number":
			if d.e.nums != nil {
				return one(gk(int64(d.n)))
			}
			return one(gint{atom: strconv.Itoa(d.n)})
		}
	case "field":
		f := d.f
		switch name {
		case "Kind":
			return one(gk(protoKinds[f.kind]))
		case "Number":
			if f.num <= 2 {
				return one(gk(int64(f.num))) // of a map entry
			}
			return one(gint{atom: strconv.Itoa(f.num)})
		case "Cardinality":
			return one(gk(int64(f.card)))
		case "HasPresence":
			return one(gb(f.presence))
		case "HasOptionalKeyword":
			return one(gb(f.card == 1 && f.presence && (f.proto2 || f.oneof != nil && f.oneof.synthetic)))
		case "IsList":
			return one(gb(f.card == 3 && f.key == nil))
		case "IsMap":
			return one(gb(f.key != nil))
		case "IsWeak", "IsExtension":
			return one(gb(false))
		case "IsPacked":
			return one(gbool{atom: "packed " + d.id})
		case "HasDefault":
			return one(gbool{atom: "default " + d.id})
		case "HasJSONName":
			return one(gbool{atom: "json name " + d.id})
		case "JSONName", "TextName":
			return one(atomStr("json_" + d.id))
		case "MapKey", "MapValue":
			x := f.key
			if name == "MapValue" {
				x = f.val
			}
			if x == nil {
				return one(giface{})
			}
			return one(giface{genDescT, &gdesc{what: "field", id: f.name + "." + x.name, f: x, g: g}})
		case "ContainingOneof":
			if f.oneof == nil {
				return one(giface{})
			}
			return one(giface{genDescT, &gdesc{what: "oneof", id: f.oneof.name, o: f.oneof, m: d.m, g: g}})
		case "Message":
			if f.msg == nil {
				return one(giface{})
			}
			return one(giface{genDescT, &gdesc{what: "message", id: f.msg.name, m: f.msg, g: g}})
		case "Enum":
			if f.enum == nil {
				return one(giface{})
			}
			return one(giface{genDescT, &gdesc{what: "enum", id: f.enum.name, e: f.enum, g: g}})
		}
	}
	giveUp("generator: %s() of a %s descriptor", name, d.what)
	panic("unreachable")
}

var genDescT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, scenPkg, "descriptor", nil), types.NewStruct(nil, nil), nil)

func (g *ginterp) libType(path, name string) types.Type {
	pk := g.p.all[path]
	if pk == nil {
		giveUp("generator: package %s is not loaded", path)
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		giveUp("generator: type %s.%s not found", path, name)
	}
	return o.Type()
}

// ---- protogen objects ----

type genBuild struct {
	g    *ginterp
	s    *gSchema
	msgs map[*gMsg]gptr
	ens  map[*gEnum]gptr
	flds map[*gField]gptr
	ones map[*gOneof]gptr
	path string // import path
	pkg  string
	imps []gImport

	plain bool // names are known
}

func (g *ginterp) build(s *gSchema) *genBuild {
	return &genBuild{g: g, s: s, path: pbPath, pkg: "pb", msgs: map[*gMsg]gptr{}, ens: map[*gEnum]gptr{}, flds: map[*gField]gptr{}, ones: map[*gOneof]gptr{}}
}

func (b *genBuild) obj(typ string) (gptr, func(string, gv)) {
	v := b.g.zero(b.g.libType(protogenPath, typ)).(gstruct)
	l := &gloc{v: v, name: typ}
	return gptr{l}, func(field string, x gv) {
		for _, f := range v.f {
			if f.name == field {
				f.v = x
				return
			}
		}
		giveUp("generator: protogen.%s has no field %s", typ, field)
	}
}

func (b *genBuild) ident(name, path string) gv {
	v := b.g.zero(b.g.libType(protogenPath, "GoIdent")).(gstruct)
	for _, f := range v.f {
		switch f.name {
		case "GoName":
			f.v = atomStr(name)
			if b.plain {
				f.v = lit(name)
				b.g.names[name] = true
			}
		case "GoImportPath":
			f.v = lit(path)
		}
	}
	return v
}

func (b *genBuild) comments(id string) gv {
	v := b.g.zero(b.g.libType(protogenPath, "CommentSet")).(gstruct)
	if id != b.s.vary || b.s.notes == 0 {
		return v
	}
	for _, f := range v.f {
		switch f.name {
		case "Leading":
			f.v = lit([]string{"", " note\n", " note\n second line\n", ""}[b.s.notes])
		case "Trailing":
			f.v = lit([]string{"", " tail\n", " tail\n second tail\n", " tail\n"}[b.s.notes])
		}
	}
	return v
}

func ptrSlice(ps []gptr) gslice {
	s := gslice{nil: len(ps) == 0}
	for _, p := range ps {
		s.e = append(s.e, &gloc{v: p})
	}
	return s
}

func (b *genBuild) enum(e *gEnum) gptr {
	if p, ok := b.ens[e]; ok {
		return p
	}
	path := b.path
	if e.ext {
		path = otherPath
	}
	p, set := b.obj("Enum")
	b.ens[e] = p
	set("Desc", giface{genDescT, &gdesc{what: "enum", id: e.name, e: e, g: b.g}})
	set("GoIdent", b.ident(e.name, path))
	set("Comments", b.comments(e.name))
	var vs []gptr
	for i, v := range e.values {
		q, set := b.obj("EnumValue")
		set("Desc", giface{genDescT, &gdesc{what: "value", id: v, e: e, n: e.num(i), g: b.g}})
		set("GoIdent", b.ident(v, path))
		set("Parent", p)
		set("Comments", b.comments(v))
		vs = append(vs, q)
	}
	set("Values", ptrSlice(vs))
	return p
}

func (b *genBuild) field(m *gMsg, f *gField) gptr {
	if p, ok := b.flds[f]; ok {
		return p
	}
	p, set := b.obj("Field")
	b.flds[f] = p
	id := f.name
	if m.mapEntry {
		id = m.name + "." + f.name
	}
	set("Desc", giface{genDescT, &gdesc{what: "field", id: id, f: f, m: m, g: b.g}})
	set("GoName", atomStr(f.name))
	set("GoIdent", b.ident(m.name+"_"+f.name, b.path))
	set("Parent", b.msgs[m])
	set("Comments", b.comments(f.name))
	if f.oneof != nil {
		set("Oneof", b.oneof(m, f.oneof))
	}
	if f.enum != nil {
		set("Enum", b.enum(f.enum))
	}
	if f.msg != nil {
		set("Message", b.msg(f.msg))
	}
	return p
}

func (b *genBuild) oneof(m *gMsg, o *gOneof) gptr {
	if p, ok := b.ones[o]; ok {
		return p
	}
	p, set := b.obj("Oneof")
	b.ones[o] = p
	set("Desc", giface{genDescT, &gdesc{what: "oneof", id: o.name, o: o, m: m, g: b.g}})
	set("GoName", atomStr(o.name))
	set("GoIdent", b.ident(m.name+"_"+o.name, b.path))
	set("Parent", b.msgs[m])
	set("Comments", b.comments(o.name))
	var fs []gptr
	for _, f := range o.fields {
		fs = append(fs, b.field(m, f))
	}
	set("Fields", ptrSlice(fs))
	return p
}

func (b *genBuild) msg(m *gMsg) gptr {
	if p, ok := b.msgs[m]; ok {
		return p
	}
	path := b.path
	if m.ext {
		path = otherPath
	}
	p, set := b.obj("Message")
	b.msgs[m] = p
	set("Desc", giface{genDescT, &gdesc{what: "message", id: m.name, m: m, g: b.g}})
	set("GoIdent", b.ident(m.name, path))
	set("Comments", b.comments(m.name))
	var fs, os, es, ns []gptr
	for _, f := range m.fields {
		fs = append(fs, b.field(m, f))
	}
	for _, o := range m.oneofs {
		os = append(os, b.oneof(m, o))
	}
	for _, e := range m.enums {
		es = append(es, b.enum(e))
	}
	for _, n := range m.nested {
		ns = append(ns, b.msg(n))
	}
	set("Fields", ptrSlice(fs))
	set("Oneofs", ptrSlice(os))
	set("Enums", ptrSlice(es))
	set("Messages", ptrSlice(ns))
	return p
}

func (b *genBuild) file(generate bool, name string) gptr {
	p, set := b.obj("File")
	set("Desc", giface{genDescT, &gdesc{what: "file", id: name, f: &gField{proto2: b.s.proto2}, g: b.g, path: name + ".proto", imports: b.imps}})
	set("Proto", gptr{&gloc{v: gopq{what: "proto of " + name}}})
	set("GoPackageName", lit(b.pkg))
	set("GoImportPath", lit(b.path))
	set("GeneratedFilenamePrefix", lit(name))
	set("Generate", gb(generate))
	var ms, es []gptr
	for _, e := range b.s.enums {
		es = append(es, b.enum(e))
	}
	for _, m := range b.s.msgs {
		ms = append(ms, b.msg(m))
	}
	set("Enums", ptrSlice(es))
	set("Messages", ptrSlice(ms))
	return p
}

// ---- library models ----

func (g *ginterp) render(v gv) gstr {
	i, ok := v.(giface)
	if !ok {
		giveUp("generator: printing a %T", v)
	}
	if i.t == nil {
		return lit("<nil>")
	}
	return g.renderT(i.v, i.t)
}

func (g *ginterp) renderT(v gv, t types.Type) gstr {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return g.render(v)
	}
	if sel := g.p.prog.MethodSets.MethodSet(t).Lookup(nil, "String"); sel != nil {
		if sg, ok := sel.Type().(*types.Signature); ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 {
			if b, ok := sg.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
				return g.call(gfunc{fn: g.p.prog.MethodValue(sel)}, []gv{v})[0].(gstr)
			}
		}
	}
	switch x := v.(type) {
	case gstr:
		return x
	case gint:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && x.known {
			return lit(strconv.FormatUint(uint64(x.k), 10))
		}
		return itoa(x)
	case gbool:
		return lit(strconv.FormatBool(g.decide(x)))
	case gslice:
		if _, ok := t.Underlying().(*types.Slice); ok {
			out := lit("[")
			for i, l := range x.e {
				if i > 0 {
					out = out.cat(lit(" "))
				}
				out = out.cat(g.renderT(l.v, t.Underlying().(*types.Slice).Elem()))
			}
			return out.cat(lit("]"))
		}
	case gstruct:
		out := lit("{")
		st := t.Underlying().(*types.Struct)
		for i, l := range x.f {
			if i > 0 {
				out = out.cat(lit(" "))
			}
			out = out.cat(g.renderT(l.v, st.Field(i).Type()))
		}
		return out.cat(lit("}"))
	}
	giveUp("generator: printing a %s", t)
	panic("unreachable")
}

func itoa(x gint) gstr {
	if x.known {
		return lit(strconv.FormatInt(x.k, 10))
	}
	return atomStr(x.atom)
}

// quote of text whose atoms are identifiers and numbers
func quoteStr(s gstr) gstr {
	out := lit(`"`)
	for _, x := range s {
		if x.atom {
			out = out.cat(gstr{x})
			continue
		}
		q := strconv.Quote(x.s)
		out = out.cat(lit(q[1 : len(q)-1]))
	}
	return out.cat(lit(`"`))
}

func (g *ginterp) format(f string, args []*gloc) gstr {
	var out gstr
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = out.cat(lit(f[i : i+1]))
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			if f[i] != '+' {
				giveUp("generator: format %q", f)
			}
			i++
		}
		if i == len(f) {
			giveUp("generator: format %q", f)
		}
		if f[i] == '%' {
			out = out.cat(lit("%"))
			continue
		}
		if n >= len(args) {
			out = out.cat(lit("%!" + f[i:i+1] + "(MISSING)"))
			continue
		}
		a := args[n].v
		n++
		switch f[i] {
		case 'v', 's', 'd':
			out = out.cat(g.render(a))
		case 'q':
			out = out.cat(quoteStr(g.render(a)))
		case 'T':
			if x := a.(giface); x.t != nil {
				out = out.cat(lit(types.TypeString(x.t, func(p *types.Package) string { return p.Name() })))
			}
		default:
			giveUp("generator: format %q", f)
		}
	}
	if n < len(args) {
		out = out.cat(lit("%!(EXTRA)"))
	}
	return out
}

func (g *ginterp) sprint(args []*gloc, ln bool) gstr {
	var out gstr
	isStr := func(v gv) bool {
		i, ok := v.(giface)
		if !ok || i.t == nil {
			return false
		}
		b, ok := i.t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for i, l := range args {
		if i > 0 && (ln || !isStr(l.v) && !isStr(args[i-1].v)) {
			out = out.cat(lit(" "))
		}
		out = out.cat(g.render(l.v))
	}
	if ln {
		out = out.cat(lit("\n"))
	}
	return out
}

// fileID names the generated file v stands for.
func (g *ginterp) fileID(v gv) string {
	if p, ok := v.(gptr); ok && p.l != nil {
		if o, ok := p.l.v.(gopq); ok && strings.HasPrefix(o.what, "file ") {
			return o.what
		}
	}
	giveUp("generator: an unknown generated file")
	panic("unreachable")
}

func (g *ginterp) qualified(file gv, id gstruct) gstr {
	var name, path gstr
	for _, f := range id.f {
		switch f.name {
		case "GoName":
			name = f.v.(gstr)
		case "GoImportPath":
			path = f.v.(gstr)
		}
	}
	ps, ok := path.isLit()
	if !ok {
		giveUp("generator: unknown import path")
	}
	if ps == g.paths[g.fileID(file)] {
		return name
	}
	base := ps[strings.LastIndexByte(ps, '/')+1:]
	return lit(base + ".").cat(name)
}

func isGoIdent(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "GoIdent" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == protogenPath
}

func (g *ginterp) write(w gv, s gstr) {
	i, ok := w.(giface)
	if ok {
		w = i.v
	}
	p, ok := w.(gptr)
	if !ok || p.l == nil {
		giveUp("generator: writing to a %T", w)
	}
	if o, ok := p.l.v.(gopq); ok {
		if strings.HasPrefix(o.what, "file ") {
			g.emit[o.what] = g.emit[o.what].cat(s)
			return
		}
		giveUp("generator: writing to %s", o.what)
	}
	g.bufs[p.l] = g.bufs[p.l].cat(s)
}

func (g *ginterp) opaqueMethod(o gopq, name string, args []gv) ([]gv, bool) {
	switch name {
	case "GetUnknown":
		id := strings.TrimPrefix(o.what, "options of ")
		if id == g.path2 {
			return []gv{gopq{what: "unknown options of " + id}}, true
		}
		return []gv{gslice{nil: true}}, true
	case "ProtoReflect":
		return []gv{giface{genDescT, o}}, true
	}
	return nil, false
}

func (g *ginterp) model(fn *ssa.Function, name string, args []gv) ([]gv, bool) {
	one := func(v gv) ([]gv, bool) { return []gv{v}, true }
	str := func(i int) gstr { s, _ := args[i].(gstr); return s }
	if r, ok := g.pure(name, args); ok {
		return r, true
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && (fn.Pkg == nil || !g.p.repo[fn.Pkg.Pkg]) {
		return nil, true
	}
	if fn.Pkg != nil && g.p.repo[fn.Pkg.Pkg] {
		return nil, false
	}
	if out, ok := g.environment(fn, pk, args); ok {
		return out, true
	}
	// descriptor options
	if pk == descPath || strings.HasPrefix(pk, "google.golang.org/protobuf/types/") {
		var o gopq
		switch x := args[0].(type) {
		case gopq:
			o = x
		case gptr:
			if x.l != nil {
				o, _ = x.l.v.(gopq)
				if st, ok := x.l.v.(gstruct); ok {
					for _, f := range st.f {
						if "Get"+f.name == fn.Name() {
							return one(f.v)
						}
					}
				}
			}
		}
		id := strings.TrimPrefix(strings.TrimPrefix(o.what, "options of "), "proto of ")
		switch fn.Name() {
		case "GetOptions":
			return one(gopq{what: "options of " + id})
		case "ProtoReflect":
			return one(giface{genDescT, o})
		}
		if strings.HasPrefix(fn.Name(), "Get") && fn.Signature.Results().Len() == 1 {
			if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if id == g.path2 {
					return one(gbool{atom: fn.Name() + " of " + id})
				}
				return one(gb(false))
			}
		}
		giveUp("generator: %s", name)
	}
	switch name {
	case "(*" + protogenPath + ".GeneratedFile).P":
		var out gstr
		for _, l := range args[1].(gslice).e {
			i, ok := l.v.(giface)
			if ok && i.t != nil && isGoIdent(i.t) {
				out = out.cat(g.qualified(args[0], i.v.(gstruct)))
				continue
			}
			out = out.cat(g.render(l.v))
		}
		g.write(args[0], out.cat(lit("\n")))
		return nil, true
	case "(*" + protogenPath + ".GeneratedFile).Write":
		return nil, false
	case "(*" + protogenPath + ".GeneratedFile).Annotate":
		return nil, true
	case "(*" + protogenPath + ".GeneratedFile).Skip", "(*" + protogenPath + ".GeneratedFile).Unskip":
		g.skipped[g.fileID(args[0])] = strings.HasSuffix(name, ".Skip")
		return nil, true
	case "(*" + protogenPath + ".GeneratedFile).Import":
		if s, ok := str(1).isLit(); ok {
			id := g.fileID(args[0])
			g.imported[id] = append(g.imported[id], s)
		}
		return nil, true
	case "(*" + protogenPath + ".GeneratedFile).Content":
		return []gv{gopq{what: "content of " + g.fileID(args[0])}, giface{}}, true
	case "go/token.NewFileSet":
		return one(gptr{&gloc{v: gopq{what: "file set"}, name: "file set"}})
	case "go/parser.ParseFile":
		return g.parseContent(args), true
	case "(go/token.Token).String":
		if k, ok := args[0].(gint); ok && k.known {
			return one(lit(token.Token(k.k).String()))
		}
		giveUp("generator: an unknown token")
	case "(*" + protogenPath + ".GeneratedFile).QualifiedGoIdent":
		return one(g.qualified(args[0], args[1].(gstruct)))
	case "(*" + protogenPath + ".Plugin).NewGeneratedFile":
		s, ok := str(1).isLit()
		if !ok {
			s = str(1).text()
		}
		g.files = append(g.files, s)
		id := fmt.Sprintf("file %d %s", len(g.files), s)
		if p, ok := str(2).isLit(); ok {
			g.paths[id] = p
		}
		g.emit[id] = nil
		return one(gptr{&gloc{v: gopq{what: id}, name: id}})
	case "(" + protogenPath + ".Options).Run":
		g.ran++
		if e, ok := g.call(args[1].(gfunc), []gv{g.plugin})[0].(giface); ok && e.t != nil {
			g.errs = append(g.errs, "an error is reported")
		}
		return nil, true
	case "(*" + protogenPath + ".Plugin).Error":
		g.errs = append(g.errs, "an error is reported")
		return nil, true
	case "(" + protogenPath + ".GoImportPath).Ident":
		v := g.zero(g.libType(protogenPath, "GoIdent")).(gstruct)
		for _, f := range v.f {
			switch f.name {
			case "GoName":
				f.v = args[1]
			case "GoImportPath":
				f.v = args[0]
			}
		}
		return one(v)
	case "google.golang.org/protobuf/encoding/protowire.ConsumeTag":
		return []gv{gint{atom: "option number"}, gint{atom: "option type"}, gint{atom: "option key length"}}, true
	case "google.golang.org/protobuf/encoding/protowire.ConsumeVarint":
		return []gv{gint{atom: "option value"}, gint{atom: "option length"}}, true
	case "google.golang.org/protobuf/encoding/protowire.ConsumeFieldValue":
		return one(gint{atom: "option extent"})
	case "google.golang.org/protobuf/encoding/protowire.DecodeBool":
		return one(gbool{atom: "option is true"})
	case "fmt.Sprintf":
		f, ok := str(0).isLit()
		if !ok {
			giveUp("generator: unknown format")
		}
		return one(g.format(f, args[1].(gslice).e))
	case "fmt.Sprint":
		return one(g.sprint(args[0].(gslice).e, false))
	case "fmt.Sprintln":
		return one(g.sprint(args[0].(gslice).e, true))
	case "fmt.Fprintf":
		f, ok := str(1).isLit()
		if !ok {
			giveUp("generator: unknown format")
		}
		if !isStdStream(args[0]) {
			g.write(args[0], g.format(f, args[2].(gslice).e))
		}
		return []gv{gk(0), giface{}}, true
	case "fmt.Fprint", "fmt.Fprintln":
		if !isStdStream(args[0]) {
			g.write(args[0], g.sprint(args[1].(gslice).e, name == "fmt.Fprintln"))
		}
		return []gv{gk(0), giface{}}, true
	case "fmt.Errorf", "errors.New":
		return one(giface{types.Universe.Lookup("error").Type(), gopq{what: "error"}})
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		g.write(args[0], str(1))
		return []gv{gint{atom: "written"}, giface{}}, true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		k := args[1].(gint)
		if !k.known {
			giveUp("generator: an unknown character is written")
		}
		g.write(args[0], lit(string(rune(k.k))))
		if strings.HasSuffix(name, "Rune") {
			return []gv{gk(1), giface{}}, true
		}
		return one(giface{})
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(g.bufs[args[0].(gptr).l])
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		if s, ok := g.bufs[args[0].(gptr).l].isLit(); ok {
			return one(gk(int64(len(s))))
		}
		return one(gint{atom: "len of buffer"})
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil, true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		delete(g.bufs, args[0].(gptr).l)
		return nil, true
	case "strconv.Itoa":
		return one(itoa(args[0].(gint)))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b := args[1].(gint); b.known && b.k == 10 {
			return one(itoa(args[0].(gint)))
		}
		x, y := args[0].(gint), args[1].(gint)
		if x.known && y.known {
			return one(lit(strconv.FormatInt(x.k, int(y.k))))
		}
		return one(atomStr("in_base_" + showGint(y) + "_" + showGint(x)))
	case "strconv.AppendInt":
		giveUp("generator: strconv.AppendInt")
	case "strconv.Quote":
		return one(quoteStr(str(0)))
	case "strconv.FormatBool":
		return one(lit(strconv.FormatBool(g.decide(args[0].(gbool)))))
	case "strings.Join":
		var out gstr
		for i, l := range args[0].(gslice).e {
			if i > 0 {
				out = out.cat(str(1))
			}
			out = out.cat(l.v.(gstr))
		}
		return one(out)
	case "strings.Count":
		if u, ok := str(1).isLit(); ok && len(u) == 1 && !wordChars(u) {
			n := 0
			for _, x := range str(0) {
				if !x.atom {
					n += strings.Count(x.s, u)
				}
			}
			return one(gk(int64(n)))
		}
	case "strings.Repeat":
		var out gstr
		n := args[1].(gint)
		for i := int64(0); n.known && i < n.k; i++ {
			out = out.cat(str(0))
		}
		return one(out)
	case "strings.Replace", "strings.ReplaceAll":
		old, ok1 := str(1).isLit()
		nw, ok2 := str(2).isLit()
		n := -1
		if name == "strings.Replace" {
			k := args[3].(gint)
			if !k.known {
				giveUp("generator: strings.Replace")
			}
			n = int(k.k)
		}
		if _, isL := str(0).isLit(); !isL && n >= 0 || !ok1 || !ok2 || !isL && wordChars(old) {
			giveUp("generator: strings.Replace of %s in %s", str(1).key(), str(0).key())
		}
		var out gstr
		for _, x := range str(0) {
			if !x.atom {
				x.s = strings.Replace(x.s, old, nw, n)
			}
			out = out.cat(gstr{x})
		}
		return one(out)
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		s, ok1 := str(0).isLit()
		u, ok2 := str(1).isLit()
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return one(gb(strings.HasPrefix(s, u)))
			case "strings.HasSuffix":
				return one(gb(strings.HasSuffix(s, u)))
			case "strings.Contains":
				return one(gb(strings.Contains(s, u)))
			}
			return one(gb(strings.EqualFold(s, u)))
		}
		if x := str(0); ok2 && !wordChars(u) {
			// atoms hold letters, digits and underscores only
			switch name {
			case "strings.Contains":
				for _, y := range x {
					if !y.atom && strings.Contains(y.s, u) {
						return one(gb(true))
					}
				}
				if len(u) == 1 {
					return one(gb(false))
				}
			case "strings.HasPrefix":
				if !x[0].atom && len(x[0].s) >= len(u) {
					return one(gb(strings.HasPrefix(x[0].s, u)))
				}
				if x[0].atom {
					return one(gb(false))
				}
			case "strings.HasSuffix":
				l := x[len(x)-1]
				if !l.atom && len(l.s) >= len(u) {
					return one(gb(strings.HasSuffix(l.s, u)))
				}
				if l.atom {
					return one(gb(false))
				}
			}
		}
		return one(gbool{atom: fmt.Sprintf("%s(%s, %s)", name, str(0).key(), str(1).key())})
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft",
		"strings.ToLower", "strings.ToUpper", "strings.Title", "strings.Split", "strings.Fields", "strings.SplitN":
		s, ok := str(0).isLit()
		if !ok {
			x := append(gstr(nil), str(0)...)
			last := &x[len(x)-1]
			if name == "strings.TrimSuffix" {
				if u, ok := str(1).isLit(); ok && (!last.atom && len(last.s) >= len(u)) {
					last.s = strings.TrimSuffix(last.s, u)
					return one(gstr(nil).cat(x))
				} else if ok && last.atom && !wordChars(u) {
					return one(x)
				}
			}
			if strings.HasPrefix(name, "strings.To") || name == "strings.Title" {
				for i := range x {
					switch {
					case x[i].atom:
						x[i].s = strings.TrimPrefix(name, "strings.") + "_" + x[i].s
					case name == "strings.ToLower":
						x[i].s = strings.ToLower(x[i].s)
					case name == "strings.ToUpper":
						x[i].s = strings.ToUpper(x[i].s)
					}
				}
				return one(x)
			}
			var u string
			ok := true
			if len(args) > 1 {
				u, ok = str(1).isLit()
			}
			first := &x[0]
			switch {
			case !ok || name != "strings.TrimSpace" && (u == "" || wordChars(u)):
				if ok && name == "strings.TrimPrefix" && !first.atom && len(first.s) >= len(u) {
					first.s = strings.TrimPrefix(first.s, u)
					return one(gstr(nil).cat(x))
				}
			case name == "strings.TrimPrefix":
				if first.atom {
					return one(x)
				}
				if len(first.s) >= len(u) {
					first.s = strings.TrimPrefix(first.s, u)
					return one(gstr(nil).cat(x))
				}
			case strings.HasPrefix(name, "strings.Trim") && name != "strings.TrimSuffix":
				left, right := name != "strings.TrimRight", name != "strings.TrimLeft"
				set := u
				if name == "strings.TrimSpace" {
					set = " \t\r\n\v\f"
				}
				if left && !first.atom {
					first.s = strings.TrimLeft(first.s, set)
				}
				if right && !last.atom {
					last.s = strings.TrimRight(last.s, set)
				}
				var out gstr
				for _, y := range x {
					if y.s != "" {
						out = out.cat(gstr{y})
					}
				}
				return one(out)
			case name == "strings.Split" && len(u) == 1:
				r := gslice{}
				var cur gstr
				for _, y := range x {
					if y.atom {
						cur = cur.cat(gstr{y})
						continue
					}
					parts := strings.Split(y.s, u)
					cur = cur.cat(lit(parts[0]))
					for _, q := range parts[1:] {
						r.e = append(r.e, &gloc{v: cur})
						cur = lit(q)
					}
				}
				r.e = append(r.e, &gloc{v: cur})
				return one(r)
			}
			giveUp("generator: %s of %s", name, str(0).key())
		}
		switch name {
		case "strings.TrimSpace":
			return one(lit(strings.TrimSpace(s)))
		case "strings.ToLower":
			return one(lit(strings.ToLower(s)))
		case "strings.ToUpper":
			return one(lit(strings.ToUpper(s)))
		case "strings.Title":
			return one(lit(strings.Title(s)))
		}
		var u string
		if len(args) > 1 {
			u, ok = str(1).isLit()
			if !ok {
				giveUp("generator: %s", name)
			}
		}
		list := func(xs []string) ([]gv, bool) {
			r := gslice{}
			for _, x := range xs {
				r.e = append(r.e, &gloc{v: lit(x)})
			}
			return one(r)
		}
		switch name {
		case "strings.TrimSuffix":
			return one(lit(strings.TrimSuffix(s, u)))
		case "strings.TrimPrefix":
			return one(lit(strings.TrimPrefix(s, u)))
		case "strings.Trim":
			return one(lit(strings.Trim(s, u)))
		case "strings.TrimRight":
			return one(lit(strings.TrimRight(s, u)))
		case "strings.TrimLeft":
			return one(lit(strings.TrimLeft(s, u)))
		case "strings.Fields":
			return list(strings.Fields(s))
		case "strings.Split":
			return list(strings.Split(s, u))
		case "strings.SplitN":
			return list(strings.SplitN(s, u, int(args[2].(gint).k)))
		}
	case "unicode/utf8.DecodeRuneInString":
		if s, ok := str(0).isLit(); ok {
			for _, r := range s {
				return []gv{gk(int64(r)), gk(int64(len(string(r))))}, true
			}
			return []gv{gk(0xfffd), gk(0)}, true
		}
		return []gv{gint{atom: "first character of " + str(0).key()}, gint{atom: "its length"}}, true
	case "unicode.IsUpper", "unicode.IsLower", "unicode.IsLetter", "unicode.IsDigit":
		k := args[0].(gint)
		if !k.known {
			if name == "unicode.IsUpper" && strings.HasPrefix(k.atom, "first character of ") {
				return one(gb(true)) // Go names of schema elements are exported
			}
			return one(gbool{atom: name + "(" + k.atom + ")"})
		}
		c := rune(k.k)
		return one(gb(map[string]bool{"unicode.IsUpper": unicode.IsUpper(c), "unicode.IsLower": unicode.IsLower(c), "unicode.IsLetter": unicode.IsLetter(c), "unicode.IsDigit": unicode.IsDigit(c)}[name]))
	case "flag.NewFlagSet", "os.Exit":
		giveUp("generator: %s", name)
	case "sort.Slice", "sort.SliceStable":
		s := args[0].(giface).v.(gslice)
		less := args[1].(gfunc)
		for i := 1; i < len(s.e); i++ {
			for j := i; j > 0; j-- {
				if !g.decide(g.call(less, []gv{gk(int64(j)), gk(int64(j - 1))})[0].(gbool)) {
					break
				}
				a, b := cp(s.e[j].v), cp(s.e[j-1].v)
				s.e[j].v, s.e[j-1].v = b, a
			}
		}
		return nil, true
	}
	if strings.HasPrefix(name, "(*flag.FlagSet).") || strings.HasPrefix(name, "flag.") {
		giveUp("generator: %s", name)
	}
	return nil, false
}

func isStdStream(v gv) bool {
	i, ok := v.(giface)
	if !ok {
		return false
	}
	o, ok := i.v.(gopq)
	return ok && strings.HasPrefix(o.what, "global os.")
}

func wordChars(s string) bool {
	for _, c := range s {
		if c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			return true
		}
	}
	return false
}

// ---- schemas ----

type fieldMaker struct{ next int }

func (k *fieldMaker) fld(name, kind string, card int, presence, proto2 bool) *gField {
	k.next++
	f := &gField{name: name, kind: kind, card: card, presence: presence, proto2: proto2, num: 100000 + k.next}
	switch kind {
	case "enum":
		f.enum = &gEnum{name: "Choice", values: []string{"Choice_A", "Choice_B"}}
	case "message", "group":
		f.msg = &gMsg{name: "Target"}
	}
	return f
}

func (k *fieldMaker) mapOf(name, key, val string, proto2 bool) *gField {
	f := k.fld(name, "message", 3, false, proto2)
	f.key = k.fld("Key", key, 1, proto2, proto2)
	f.val = k.fld("Value", val, 1, proto2, proto2)
	if val == "message" {
		f.val.presence = true
	}
	f.key.num, f.val.num = 1, 2
	f.msg = &gMsg{name: "Entry" + name, mapEntry: true, fields: []*gField{f.key, f.val}}
	return f
}

// complete puts the types fields refer to into the schema.
func (s *gSchema) complete() *gSchema {
	enums, msgs := map[string]*gEnum{}, map[string]*gMsg{}
	var walk func(m *gMsg)
	var fix func(m *gMsg, f *gField)
	fix = func(m *gMsg, f *gField) {
		if f.enum != nil {
			n := f.enum.name
			// the same names in the other package
			if f.ext {
				n = "Ext" + n
			}
			if e := enums[n]; e != nil {
				f.enum = e
			} else {
				f.enum.ext = f.ext
				enums[n] = f.enum
				if !f.ext {
					s.enums = append(s.enums, f.enum)
				}
			}
		}
		if f.msg != nil && !f.msg.mapEntry {
			n := f.msg.name
			if f.ext {
				n = "Ext" + n
			}
			if x := msgs[n]; x != nil {
				f.msg = x
			} else {
				f.msg.ext = f.ext
				msgs[n] = f.msg
				if !f.ext && n == "Target" {
					s.msgs = append(s.msgs, f.msg)
				}
			}
		}
		if f.key != nil {
			f.msg.name = m.name + "_" + f.msg.name
			fix(m, f.val)
			m.nested = append(m.nested, f.msg)
		}
	}
	walk = func(m *gMsg) {
		msgs[m.name] = m
		for _, f := range m.fields {
			fix(m, f)
		}
		for _, n := range m.nested {
			if !n.mapEntry {
				walk(n)
			}
		}
	}
	for _, m := range append([]*gMsg(nil), s.msgs...) {
		walk(m)
	}
	return s
}

// ---- running the generator ----

type genResult struct {
	pkg   *types.Package
	file  *ast.File
	text  string
	info  *types.Info
	fset  *token.FileSet
	conds string
	made  map[string]bool // decisions about unknown conditions
}

func (p *Program) newGen(s *gSchema) (*ginterp, *genBuild) {
	g := &ginterp{p: p, names: map[string]bool{}, made: map[string]bool{}, budget: 3000000, globals: map[*ssa.Global]*gloc{}, inited: map[*ssa.Package]bool{},
		fns: map[*ssa.Function]bool{}, bufs: map[*gloc]gstr{}, emit: map[string]gstr{}, paths: map[string]string{}, skipped: map[string]bool{}, imported: map[string][]string{}, path2: s.vary}
	return g, g.build(s)
}

type genImporter struct {
	p      *Program
	others map[string]*types.Package
}

func (i genImporter) Import(path string) (*types.Package, error) {
	if o := i.others[path]; o != nil {
		return o, nil
	}
	if path == protoPath {
		return i.p.protoPkg.Pkg, nil
	}
	if pk := i.p.all[path]; pk != nil {
		return pk.Types, nil
	}
	return importer.Default().Import(path)
}

// genCheck runs GenerateFile on the schema along every combination of unknown
// conditions and hands each parsed output to f.
func (p *Program) genCheck(r *jobResult, s *gSchema, f func(x *genResult)) {
	if p.genPkg == nil {
		giveUp("package %s not found", genPath)
	}
	fn := p.genPkg.Func("GenerateFile")
	if fn == nil {
		giveUp("function GenerateFile not found")
	}
	fail := func(g *ginterp, rule, format string, a ...interface{}) {
		r.findings = append(r.findings, Finding{Rule: rule, Msg: s.name + ": " + fmt.Sprintf(format, a...) + g.when(), Pos: fn.Pos(), Fn: fn.String(), Where: r.job.name, Props: r.job.props})
	}
	r.paths += p.explore(func() *ginterp { g, _ := p.newGen(s); return g }, 300, func(g *ginterp) {
		b := g.build(s)
		file := b.file(true, "verif")
		plug, set := b.obj("Plugin")
		set("Files", ptrSlice([]gptr{file}))
		set("FilesByPath", gmapp{&gmapv{}})
		g.plugin = plug
		g.initPkg(p.genPkg)
		crashed := ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					if x, ok := e.(gpanic); ok {
						crashed = x.msg
						return
					}
					panic(e)
				}
			}()
			g.call(gfunc{fn: fn}, []gv{plug, file})
		}()
		for x := range g.fns {
			r.fns[x.RelString(nil)] = true
		}
		r.instrs += g.instrs
		r.calls += g.calls
		r.obl++
		if crashed != "" {
			fail(g, "generator-crash", "the generator crashes: %s", crashed)
			return
		}
		if len(g.errs) > 0 {
			fail(g, "generator-error", "%s", g.errs[0])
			return
		}
		if fs := g.outputs(); len(fs) != 1 {
			fail(g, "generator-files", "%d files are generated for one", len(fs))
			return
		}
		var text string
		for id, t := range g.emit {
			if !g.skipped[id] {
				text = t.text()
			}
		}
		x := p.parseGen(g, text, fail)
		if x != nil {
			x.conds = g.when()
			f(x)
		}
	})
}

// genPluginJob: the plugin's main generates each requested file once and
// nothing else, and announces the features it implements.
func (p *Program) genPluginJob(r *jobResult) {
	var fn *ssa.Function
	for _, pk := range p.pkgs {
		if pk.Name != "main" || pk.Imports[protogenPath] == nil {
			continue
		}
		if fn != nil {
			giveUp("several plugin programs")
		}
		fn = p.prog.Package(pk.Types).Func("main")
	}
	if fn == nil {
		giveUp("no plugin program found")
	}
	schema := func(name string) *gSchema {
		k := &fieldMaker{}
		switch name {
		case "enums":
			return (&gSchema{name: name, enums: []*gEnum{{name: "Only", values: []string{"Only_A", "Only_B"}, nums: []int{0, 4}}}}).complete()
		case "empty":
			return (&gSchema{name: name}).complete()
		}
		return (&gSchema{name: name, msgs: []*gMsg{{name: "Message", fields: []*gField{k.fld("A", "int32", 1, false, false), k.mapOf("B", "string", "message", false)}}}}).complete()
	}
	fail := func(g *ginterp, rule, format string, a ...interface{}) {
		r.findings = append(r.findings, Finding{Rule: rule, Msg: "the plugin, asked for four files out of six, one with enums only and one with nothing: " + fmt.Sprintf(format, a...) + g.when(), Pos: fn.Pos(), Fn: fn.String(), Where: r.job.name, Props: []string{"C31"}})
	}
	names := []string{"first", "third", "second", "enums", "empty", "last"}
	r.paths += p.explore(func() *ginterp { g, _ := p.newGen(schema("first")); return g }, 300, func(g *ginterp) {
		var files []gptr
		schemas := map[string]*gSchema{}
		for _, n := range names {
			s := schema(n)
			schemas[n] = s
			b := g.build(s)
			files = append(files, b.file(n != "third" && n != "last", n))
		}
		b := &genBuild{g: g}
		plug, set := b.obj("Plugin")
		set("Files", ptrSlice(files))
		fbp := &gmapv{}
		for i, n := range names {
			fbp.keys = append(fbp.keys, lit(n+".proto"))
			fbp.vals = append(fbp.vals, files[i])
		}
		set("FilesByPath", gmapp{fbp})
		req := g.zero(g.libType("google.golang.org/protobuf/types/pluginpb", "CodeGeneratorRequest")).(gstruct)
		for _, f := range req.f {
			if f.name == "FileToGenerate" {
				f.v = gslice{e: []*gloc{{v: lit("second.proto")}, {v: lit("empty.proto")}, {v: lit("first.proto")}, {v: lit("enums.proto")}}}
			}
		}
		set("Request", gptr{&gloc{v: req, name: "request"}})
		g.plugin = plug
		g.initPkg(fn.Pkg)
		crashed := ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					if x, ok := e.(gpanic); ok {
						crashed = x.msg
						return
					}
					panic(e)
				}
			}()
			g.call(gfunc{fn: fn}, nil)
		}()
		for x := range g.fns {
			r.fns[x.RelString(nil)] = true
		}
		r.instrs += g.instrs
		r.calls += g.calls
		r.obl += 4
		switch {
		case crashed != "":
			fail(g, "generator-crash", "it crashes: %s", crashed)
			return
		case len(g.errs) > 0:
			fail(g, "generator-error", "%s", g.errs[0])
			return
		case g.ran != 1:
			fail(g, "generator-run", "it starts the plugin protocol %d times", g.ran)
			return
		}
		got := g.outputs()
		sort.Strings(got)
		if strings.Join(got, " ") != "empty.pb.go enums.pb.go first.pb.go second.pb.go" {
			fail(g, "generator-files", "it generates %s", strings.Join(got, " "))
			return
		}
		for _, id := range sortedNames(g.emit) {
			if g.skipped[id] {
				continue
			}
			n := "first"
			for _, x := range names {
				if strings.HasSuffix(id, " "+x+".pb.go") {
					n = x
				}
			}
			x := p.parseGen(g, g.emit[id].text(), fail)
			if x == nil {
				return
			}
			r.obl += schemas[n].compare(x, func(f string, a ...interface{}) {
				p.genFail(r, fn, "generated", "", []string{"C24"}, "the plugin, in %s of several files: %s%s", n, fmt.Sprintf(f, a...), g.when())
			})
		}
		for _, f := range plug.l.v.(gstruct).f {
			if f.name == "SupportedFeatures" {
				if k, ok := f.v.(gint); !ok || !k.known || k.k&1 == 0 {
					fail(g, "generator-features", "it does not announce the support of proto3 optional fields, so protoc refuses schemas that have them")
				}
			}
		}
	})
}

func (g *ginterp) when() string {
	var xs []string
	for _, a := range g.order {
		if g.made[a] {
			xs = append(xs, a)
		}
	}
	if len(xs) == 0 {
		return ""
	}
	return " (when " + strings.Join(xs, ", ") + ")"
}

// withImports adds what protogen adds to a generated file: the imports it uses.
func (p *Program) withImports(text string) (string, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "verif.pb.go", text, parser.ImportsOnly)
	if err != nil {
		return "", err
	}
	var imp string
	for _, path := range []string{protoPath, otherPath, thirdPath} {
		base := path[strings.LastIndexByte(path, '/')+1:]
		if regexp.MustCompile(`\b` + base + `\.`).MatchString(text) {
			imp += "import " + base + " \"" + path + "\"\n"
		}
	}
	end := fset.Position(file.Name.End()).Offset
	return text[:end] + "\n" + imp + text[end:], nil
}

func otherPackage() *types.Package {
	other := types.NewPackage(otherPath, "otherpb")
	for _, n := range []string{"Target"} {
		tn := types.NewTypeName(token.NoPos, other, n, nil)
		types.NewNamed(tn, types.NewStruct(nil, nil), nil)
		other.Scope().Insert(tn)
	}
	other.Scope().Insert(types.NewTypeName(token.NoPos, other, "Choice", types.Typ[types.Int32]))
	other.MarkComplete()
	return other
}

func (p *Program) parseGen(g *ginterp, text string, fail func(g *ginterp, rule, f string, a ...interface{})) *genResult {
	return p.parseGenAs(g, text, pbPath, map[string]*types.Package{otherPath: otherPackage()}, fail)
}

func (p *Program) parseGenAs(g *ginterp, text, path string, others map[string]*types.Package, fail func(g *ginterp, rule, f string, a ...interface{})) *genResult {
	full, err := p.withImports(text)
	fset := token.NewFileSet()
	var file *ast.File
	if err == nil {
		file, err = parser.ParseFile(fset, "verif.pb.go", full, parser.ParseComments)
	}
	if err != nil {
		fail(g, "generated-syntax", "the generated file does not parse: %v", err)
		return nil
	}
	conf := types.Config{Importer: genImporter{p, others}, Sizes: sizes, Error: func(err error) {}}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	pkg, err := conf.Check(path, fset, []*ast.File{file}, info)
	if err != nil && !strings.Contains(err.Error(), "imported and not used") {
		fail(g, "generated-types", "the generated code does not compile: %v", err)
		return nil
	}
	return &genResult{pkg: pkg, file: file, text: full, info: info, fset: fset, made: g.made}
}

// ---- the oracle ----

type genField struct {
	v   *types.Var
	tag reflect.StructTag
	i   int
}

func structOf(pkg *types.Package, name string) (*types.Struct, bool) {
	o := pkg.Scope().Lookup(name)
	if o == nil {
		return nil, false
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	return st, ok
}

func (s *gSchema) allMsgs() []*gMsg {
	var out []*gMsg
	var walk func(ms []*gMsg)
	walk = func(ms []*gMsg) {
		for _, m := range ms {
			out = append(out, m)
			walk(m.nested)
		}
	}
	walk(s.msgs)
	return out
}

func (s *gSchema) allEnums() []*gEnum {
	out := append([]*gEnum(nil), s.enums...)
	for _, m := range s.allMsgs() {
		out = append(out, m.enums...)
	}
	return out
}

// compare checks the generated declarations against the schema (C24).
func (s *gSchema) compare(x *genResult, fail func(format string, a ...interface{})) (obl int) {
	for _, m := range s.allMsgs() {
		obl++
		st, ok := structOf(x.pkg, m.name)
		if m.mapEntry {
			if x.pkg.Scope().Lookup(m.name) != nil {
				fail("a type is emitted for map entry %s", m.name)
			}
			continue
		}
		if !ok {
			fail("no struct is emitted for message %s", m.name)
			continue
		}
		byName := map[string]genField{}
		for i := 0; i < st.NumFields(); i++ {
			byName[st.Field(i).Name()] = genField{st.Field(i), reflect.StructTag(st.Tag(i)), i}
		}
		want := map[string]bool{}
		firsts := map[*gOneof]bool{}
		last, lastName := -1, ""
		order := func(g genField, name string) {
			if g.i < last {
				fail("message %s: %s is emitted before %s", m.name, name, lastName)
			}
			last, lastName = g.i, name
		}
		for _, f := range m.fields {
			obl++
			if f.oneof != nil && !f.oneof.synthetic {
				if _, dup := byName[f.name]; dup {
					fail("message %s: member %s of oneof %s is emitted as a field of the message", m.name, f.name, f.oneof.name)
				}
				if firsts[f.oneof] {
					continue
				}
				firsts[f.oneof] = true
				want[f.oneof.name] = true
				g, ok := byName[f.oneof.name]
				if !ok {
					fail("message %s: oneof %s is not emitted", m.name, f.oneof.name)
					continue
				}
				order(g, f.oneof.name)
				it, ok := g.v.Type().Underlying().(*types.Interface)
				if !ok {
					fail("message %s: oneof %s is emitted with type %s", m.name, f.oneof.name, g.v.Type())
					continue
				}
				for _, mem := range f.oneof.fields {
					ws, ok := structOf(x.pkg, m.name+"_"+mem.name)
					if !ok || ws.NumFields() != 1 || ws.Field(0).Name() != mem.name {
						fail("message %s: no wrapper type with one field is emitted for member %s of oneof %s", m.name, mem.name, f.oneof.name)
						continue
					}
					if !types.Implements(types.NewPointer(x.pkg.Scope().Lookup(m.name+"_"+mem.name).Type()), it) {
						fail("message %s: the wrapper of %s does not implement the interface of oneof %s", m.name, mem.name, f.oneof.name)
					}
					s.tagOf(m, mem, reflect.StructTag(ws.Tag(0)), fail)
				}
				continue
			}
			want[f.name] = true
			g, ok := byName[f.name]
			if !ok {
				fail("message %s: no struct field is emitted for %s", m.name, f)
				continue
			}
			order(g, f.name)
			s.tagOf(m, f, g.tag, fail)
			if t := wantType(x.pkg, f); t != nil && !sameGoType2(t, g.v.Type()) {
				fail("message %s: %s is emitted with type %s", m.name, f, g.v.Type())
			}
		}
		for n, g := range byName {
			if !want[n] && n != "_" {
				if _, ok := g.tag.Lookup("protobuf"); ok || g.v.Exported() {
					fail("message %s: struct field %s is emitted, which is no field of the schema", m.name, n)
				}
			}
		}
	}
	return obl
}

// wireWord: what a tag calls the encoding of a schema type.
func wireWord(kind string) string {
	switch kind {
	case "enum":
		return "varint"
	case "message":
		return "bytes"
	case "group":
		return "group"
	}
	return kinds[kind].tag
}

func (s *gSchema) tagOf(m *gMsg, f *gField, tag reflect.StructTag, fail func(format string, a ...interface{})) {
	check := func(key string, f2 *gField) {
		v, ok := tag.Lookup(key)
		if !ok {
			fail("message %s: %s is emitted without a %s tag", m.name, f, key)
			return
		}
		parts := strings.Split(v, ",")
		n := 0
		for _, p := range parts {
			if p == strconv.Itoa(f2.num) {
				n++
			}
		}
		if n != 1 {
			fail("message %s: the %s tag %q of %s does not carry its number", m.name, key, v, f)
		}
		if w := wireWord(f2.kind); !contains(parts, w) {
			fail("message %s: the %s tag %q of %s does not carry its wire type %s", m.name, key, v, f, w)
		}
	}
	check("protobuf", f)
	if f.key != nil {
		check("protobuf_key", f.key)
		check("protobuf_val", f.val)
	} else {
		for _, k := range []string{"protobuf_key", "protobuf_val"} {
			if _, ok := tag.Lookup(k); ok {
				fail("message %s: %s is emitted with a %s tag", m.name, f, k)
			}
		}
	}
}

// wantType: the Go type of one value of the field's schema type.
func wantType(pkg *types.Package, f *gField) types.Type {
	switch f.kind {
	case "message", "group", "enum":
		if f.key != nil {
			k, v := wantType(pkg, f.key), wantType(pkg, f.val)
			if k == nil || v == nil {
				return nil
			}
			return types.NewMap(k, v)
		}
		n := ""
		if f.enum != nil {
			return types.Typ[types.Int32]
		}
		n = f.msg.name
		p := pkg
		if f.ext {
			p = types.NewPackage(otherPath, "missing")
			for _, i := range pkg.Imports() {
				if i.Path() == otherPath {
					p = i
				}
			}
		}
		o := p.Scope().Lookup(n)
		if o == nil && f.ext {
			return types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, p, n, nil), types.NewStruct(nil, nil), nil)) // not imported
		}
		if o == nil {
			return nil
		}
		return types.NewPointer(o.Type())
	case "bytes":
		return types.NewSlice(types.Typ[types.Uint8])
	}
	return types.Typ[kinds[f.kind].basic]
}

// sameGoType2: the emitted type holds values of the wanted one (once, in a
// slice, an Option or behind a pointer; the position is checked with C21).
func sameGoType2(want, got types.Type) bool {
	got = types.Unalias(got)
	if identU(want, got) {
		return true
	}
	switch u := got.(type) {
	case *types.Pointer:
		return identU(want, u.Elem())
	case *types.Slice:
		return identU(want, u.Elem())
	case *types.Named:
		if u.TypeArgs().Len() == 1 {
			return identU(want, u.TypeArgs().At(0))
		}
	}
	return false
}

func identU(a, b types.Type) bool {
	a, b = types.Unalias(a), types.Unalias(b)
	if types.Identical(a, b) {
		return true
	}
	if x, ok := a.(*types.Map); ok {
		y, ok := b.Underlying().(*types.Map)
		return ok && identU(x.Key(), y.Key()) && identU(x.Elem(), y.Elem())
	}
	if _, ok := a.(*types.Basic); ok { // defined types over the basic one
		return types.Identical(a, b.Underlying())
	}
	return false
}

// position in which the runtime sees the emitted type.
func emittedPos(f *gField, t types.Type, want types.Type) (fieldPos, bool) {
	t = types.Unalias(t)
	if f.key != nil {
		return fpMap, true
	}
	switch {
	case identU(want, t):
		return fpPlain, true
	}
	switch u := t.(type) {
	case *types.Pointer:
		return fpPointer, true
	case *types.Slice:
		return fpRepeated, true
	case *types.Named:
		if u.TypeArgs().Len() == 1 && u.Obj().Name() == "Option" {
			return fpOption, true
		}
	}
	return 0, false
}

// ---- jobs ----

var genScalars = []string{"bool", "enum", "int32", "sint32", "uint32", "int64", "sint64", "uint64", "sfixed32", "fixed32", "float", "sfixed64", "fixed64", "double", "string", "bytes"}

// genFields: every schema type in every cardinality and presence discipline.
func genFields() []func(k *fieldMaker) *gField {
	var out []func(k *fieldMaker) *gField
	add := func(f func(k *fieldMaker) *gField) { out = append(out, f) }
	for _, kind := range append(append([]string(nil), genScalars...), "message", "group") {
		kind := kind
		add(func(k *fieldMaker) *gField { return k.fld("Field", kind, 1, true, true) })
		add(func(k *fieldMaker) *gField { return k.fld("Field", kind, 2, true, true) })
		add(func(k *fieldMaker) *gField { return k.fld("Field", kind, 3, false, kind == "group") })
		if kind != "group" && kind != "message" {
			add(func(k *fieldMaker) *gField { return k.fld("Field", kind, 1, false, false) })
		}
		if kind != "group" {
			add(func(k *fieldMaker) *gField { // proto3 optional
				f := k.fld("Field", kind, 1, true, false)
				f.oneof = &gOneof{name: "_Field", synthetic: true, fields: []*gField{f}}
				return f
			})
		}
	}
	for _, kind := range []string{"enum", "message"} {
		for _, card := range []int{1, 3} {
			kind, card := kind, card
			add(func(k *fieldMaker) *gField {
				f := k.fld("Field", kind, card, card == 1, false)
				f.ext = true
				return f
			})
		}
	}
	vals := append(append([]string(nil), genScalars...), "message")
	for i, v := range vals {
		v := v
		key := keyKinds[i%len(keyKinds)]
		key2 := keyKinds[(i+5)%len(keyKinds)]
		add(func(k *fieldMaker) *gField { return k.mapOf("Field", key, v, false) })
		add(func(k *fieldMaker) *gField { return k.mapOf("Field", key2, v, true) })
	}
	for _, key := range keyKinds { // kinds that share a Go type
		for _, v := range vals {
			if kk, kv := kinds[key], kinds[v]; kv != nil && kk.basic == kv.basic && kk.basic != types.Invalid {
				key, v := key, v
				add(func(k *fieldMaker) *gField { return k.mapOf("Field", key, v, key < v) })
			}
		}
	}
	add(func(k *fieldMaker) *gField {
		f := k.mapOf("Field", "string", "enum", false)
		f.val.ext = true
		return f
	})
	return out
}

func (p *Program) genJobs(deep bool) []*job {
	var jobs []*job
	for _, mk := range genFields() {
		mk := mk
		f0 := mk(&fieldMaker{})
		syntax := "proto3"
		if f0.proto2 {
			syntax = "proto2"
		}
		jobs = append(jobs, &job{name: "generate " + syntax + " " + f0.String(), props: []string{"C21", "C24", "C30", "C31", "C32"}, cost: 2, run: func(r *jobResult) { p.genFieldJob(r, mk) }})
	}
	jobs = append(jobs, &job{name: "generate: the plugin program", props: []string{"C31", "C24"}, cost: 1, run: p.genPluginJob})
	jobs = append(jobs, p.gen2Jobs(deep)...)
	for _, sc := range genSchemas() {
		sc := sc
		jobs = append(jobs, &job{name: "generate " + sc().name, props: []string{"C24", "C21", "C29", "C30", "C31", "C32"}, cost: 1, run: func(r *jobResult) {
			p.genSchemaJob(r, sc())
		}})
	}
	return jobs
}

func (p *Program) genFail(r *jobResult, fn *ssa.Function, rule, key string, props []string, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	for _, f := range r.findings {
		if f.Rule == rule && f.Msg == msg {
			return
		}
	}
	r.findings = append(r.findings, Finding{Rule: rule, Msg: msg, Key: key, Pos: fn.Pos(), Fn: fn.String(), Where: r.job.name, Props: props})
}

func (p *Program) genSchemaJob(r *jobResult, s *gSchema) {
	fn := p.genPkg.Func("GenerateFile")
	p.genCheck(r, s, func(x *genResult) {
		p.genCompare(r, fn, s, x, "C24")
		for _, m := range s.allMsgs() {
			st, ok := structOf(x.pkg, m.name)
			if !ok {
				continue
			}
			for _, o := range m.oneofs {
				if o.synthetic {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if _, has := reflect.StructTag(st.Tag(i)).Lookup("protobuf"); st.Field(i).Name() == o.name && !has {
						p.genFail(r, fn, "oneof", "oneof|generator", []string{"C21"}, "the members of a oneof are emitted behind an interface field with a protobuf_oneof tag, which the runtime neither encodes nor decodes")
					}
				}
			}
		}
	})
}

// genFieldJob: one field of a message, with other fields around it.
func (p *Program) genFieldJob(r *jobResult, mk func(k *fieldMaker) *gField) {
	fn := p.genPkg.Func("GenerateFile")
	if fn == nil {
		giveUp("function GenerateFile not found")
	}
	k := &fieldMaker{}
	build := func(notes int) (*gSchema, *gField) {
		k.next = 0
		f := mk(k)
		m := &gMsg{name: "Message", fields: []*gField{k.fld("Before", "sint64", 1, false, f.proto2), f, k.fld("After", "string", 3, false, f.proto2)}}
		if f.ext { // a type of the same name in this package
			m.fields = append(m.fields, k.fld("Near", f.kind, 3, false, f.proto2))
		}
		if f.oneof != nil {
			m.oneofs = append(m.oneofs, f.oneof)
		}
		s := &gSchema{name: "a message with " + f.String(), msgs: []*gMsg{m}, proto2: f.proto2, vary: "Field", notes: notes}
		return s.complete(), f
	}
	type emitted struct{ typ, tag string }
	seen := map[emitted]bool{}
	for notes := 0; notes < 4; notes++ {
		s, f := build(notes)
		p.genCheck(r, s, func(x *genResult) {
			p.genCompare(r, fn, s, x, "C24", "C21")
			st, ok := structOf(x.pkg, "Message")
			if !ok {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != f.name {
					continue
				}
				e := emitted{st.Field(i).Type().String(), st.Tag(i)}
				if seen[e] {
					return
				}
				seen[e] = true
				p.genRuntime(r, fn, s, f, x, st.Field(i).Type(), st.Tag(i))
			}
		})
	}
}

// genRuntime: the runtime, given the emitted type and tags, implements the
// schema's field.
func (p *Program) genRuntime(r *jobResult, fn *ssa.Function, s *gSchema, f *gField, x *genResult, t types.Type, tag string) {
	bad := func(format string, a ...interface{}) {
		p.genFail(r, fn, "emitted", "", []string{"C21"}, "%s: %s", f, fmt.Sprintf(format, a...))
	}
	want := wantType(x.pkg, f)
	if want == nil {
		return
	}
	pos, ok := emittedPos(f, t, want)
	if !ok || !sameGoType2(want, t) {
		bad("the emitted Go type %s does not hold values of the schema type", t)
		return
	}
	list := f.card == 3 && f.key == nil
	if list != (pos == fpRepeated) {
		bad("the emitted Go type %s does not fit the field's cardinality", t)
		return
	}
	// an implicit-presence field must not be able to tell zero from absent, and the reverse
	nilable := f.kind == "bytes" || f.kind == "message" || f.kind == "group"
	if f.key == nil && !list && !nilable && f.presence != (pos == fpOption || pos == fpPointer) {
		bad("the emitted Go type %s %s presence, which the field %s", t, map[bool]string{true: "tracks", false: "has no"}[pos != fpPlain], map[bool]string{true: "has", false: "does not have"}[f.presence])
		return
	}
	kname := func(g *gField) string {
		switch g.kind {
		case "enum":
			return "int32"
		case "group":
			return "message"
		}
		return g.kind
	}
	mk := func() *MsgSpec {
		var fs *FieldSpec
		if f.key != nil {
			fs = mapFld("Field", f.key.kind, kname(f.val), uint64(f.num))
			fs.knum, fs.vnum = 1, 2
		} else {
			fs = fld("Field", kname(f), pos, uint64(f.num))
		}
		fs.rawTag = tag
		return msg1(fs)
	}
	run := func(dec bool) {
		sc := p.newScen(r.job.name)
		sc.extra = []string{"C21"}
		if dec {
			sc.checkDecode(mk())
		} else {
			sc.checkEncode(mk())
		}
		if f.kind == "group" && len(sc.in.findings) > 0 {
			p.genFail(r, fn, "group", "group|generator", []string{"C21"}, "a group field is emitted with the wire type \"group\", which the runtime refuses together with the whole message")
			return
		}
		for i := range sc.in.findings {
			sc.in.findings[i].Msg = fmt.Sprintf("%s, emitted as %s `%s`: %s", f, t, tag, sc.in.findings[i].Msg)
		}
		r.fromScen(sc)
	}
	if p.target == "C24" {
		return
	}
	run(false)
	if f.kind != "group" {
		run(true)
	}
}

// genSchemas: messages with several fields, oneofs, nesting and maps.
func genSchemas() []func() *gSchema {
	var out []func() *gSchema
	for _, proto2 := range []bool{false, true} {
		for _, vary := range []string{"", "A", "B", "C", "Message", "Choice", "Choice_A", "verif", "Deep", "Pick", "P"} {
			for notes := 0; notes < 4; notes++ {
				proto2, vary, notes := proto2, vary, notes
				if vary == "" && notes > 0 || vary == "verif" && notes > 0 {
					continue
				}
				out = append(out, func() *gSchema {
					k := &fieldMaker{}
					f := func(name, kind string, card int) *gField {
						return k.fld(name, kind, card, card == 2 || card == 1 && (proto2 || kind == "message"), proto2)
					}
					a := f("A", "int32", 1)
					b := k.mapOf("B", "string", "sint64", proto2)
					m1 := k.mapOf("B2", "sint32", "enum", proto2)
					// maps that agree in one half of their entry
					m2, m3 := k.mapOf("B3", "string", "message", proto2), k.mapOf("B4", "fixed32", "sint64", proto2)
					c := f("C", "enum", 3)
					o := &gOneof{name: "Pick"}
					o1, o2, o3 := f("P", "sint32", 1), f("Q", "message", 1), f("R", "enum", 1)
					o1.presence, o2.presence, o3.presence = true, true, true
					o1.oneof, o2.oneof, o3.oneof = o, o, o
					o.fields = []*gField{o1, o2, o3}
					d := f("D", "bytes", 1)
					syn := &gOneof{name: "_D", synthetic: true, fields: []*gField{d}}
					msg := &gMsg{name: "Message", fields: []*gField{a, o1, b, o2, c, d, o3, m1, m2, m3}, oneofs: []*gOneof{o}}
					if !proto2 {
						d.oneof, d.presence = syn, true
						msg.oneofs = append(msg.oneofs, syn)
					}
					deeper := &gMsg{name: "Deeper", fields: []*gField{f("X", "string", 1), k.mapOf("Y", "int32", "message", proto2)}}
					deep := &gMsg{name: "Deep", fields: []*gField{f("Z", "double", 3)}, nested: []*gMsg{deeper}, enums: []*gEnum{{name: "Inner", values: []string{"Inner_A"}}}}
					mid := &gMsg{name: "Mid", nested: []*gMsg{deep}}
					msg.nested = append(msg.nested, mid)
					last := &gMsg{name: "Last", fields: []*gField{f("A", "fixed64", 1), f("L", "message", 3)}}
					// two oneofs in one message, one at the end
					two := &gMsg{name: "Two"}
					for _, n := range []string{"First", "Second"} {
						o := &gOneof{name: n}
						for _, x := range []string{"U", "V"} {
							g := f(n+x, "int64", 1)
							g.presence, g.oneof = true, o
							o.fields = append(o.fields, g)
							two.fields = append(two.fields, g)
						}
						two.oneofs = append(two.oneofs, o)
					}
					s := &gSchema{name: fmt.Sprintf("messages of %s with oneofs, maps and nesting, %s varied, comments %d", map[bool]string{true: "proto2", false: "proto3"}[proto2], vary, notes),
						msgs: []*gMsg{msg, last, two}, enums: []*gEnum{{name: "Top", values: []string{"Top_A", "Top_B"}}}, vary: vary, notes: notes, proto2: proto2}
					s.complete()
					// the entry of the first map comes before the other nested messages, the rest after
					for i, n := range msg.nested {
						if n.mapEntry {
							copy(msg.nested[1:i+1], msg.nested[:i])
							msg.nested[0] = n
							break
						}
					}
					return s
				})
			}
		}
	}
	return out
}
