package main

// More of what the generator promises: enums (C29), messages that cannot be
// compared (C30), comments and deprecation marks (C32), oneof accessors (C28)
// and public imports (C33).

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// outputs: the generated files that are not skipped.
func (g *ginterp) outputs() []string {
	var out []string
	for i, n := range g.files {
		if !g.skipped[fmt.Sprintf("file %d %s", i+1, n)] {
			out = append(out, n)
		}
	}
	return out
}

// genCompare compares one emitted file with its schema, property by property.
func (p *Program) genCompare(r *jobResult, fn *ssa.Function, s *gSchema, x *genResult, fields ...string) {
	fail := func(props ...string) func(string, ...interface{}) {
		return func(f string, a ...interface{}) {
			p.genFail(r, fn, "generated", "", props, "%s: %s%s", s.name, fmt.Sprintf(f, a...), x.conds)
		}
	}
	r.obl += s.compare(x, fail(fields...))
	r.obl += s.compareEnums(x, fail("C29"))
	r.obl += s.compareComparable(x, fail("C30"))
	r.obl += s.compareDocs(x, fail("C32"))
	r.obl++
	if !ast.IsGenerated(x.file) {
		fail("C31")("the file is not marked as generated code")
	}
}

// compareEnums: every enum is a name for int32 and every value a constant of
// it with the schema's number (C29).
func (s *gSchema) compareEnums(x *genResult, fail func(format string, a ...interface{})) (obl int) {
	for _, e := range s.allEnums() {
		obl++
		tn, ok := x.pkg.Scope().Lookup(e.name).(*types.TypeName)
		if !ok {
			fail("enum %s is not emitted", e.name)
			continue
		}
		if b, ok := tn.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
			fail("enum %s is emitted as %s", e.name, tn.Type().Underlying())
		}
		for i, v := range e.values {
			obl++
			c, ok := x.pkg.Scope().Lookup(v).(*types.Const)
			if !ok {
				fail("value %s of enum %s is not emitted", v, e.name)
				continue
			}
			if !types.Identical(c.Type(), tn.Type()) {
				fail("value %s is emitted with type %s, not that of its enum %s", v, c.Type(), e.name)
			}
			if n, ok := constant.Int64Val(constant.ToInt(c.Val())); !ok || n != int64(e.num(i)) {
				fail("value %s of enum %s is emitted with number %s instead of %d", v, e.name, c.Val(), e.num(i))
			}
		}
	}
	return obl
}

// compareComparable: no message type can be compared with == (C30).
func (s *gSchema) compareComparable(x *genResult, fail func(format string, a ...interface{})) (obl int) {
	for _, m := range s.allMsgs() {
		if m.mapEntry {
			continue
		}
		if o := x.pkg.Scope().Lookup(m.name); o != nil {
			obl++
			if types.Comparable(o.Type()) {
				fail("messages of type %s can be compared with ==, which compares pointers inside them", m.name)
			}
		}
	}
	return obl
}

// a declaration and the comments on it
type genDecl struct {
	id, what        string
	doc, trail      string
	canNote         bool // carries the leading comment of the schema element id
	canTrail        bool
	canDeprecate    bool
	mustDeprecateID bool
}

// deprecated: a paragraph of the comment says so.
func deprecated(doc string) bool {
	for _, par := range strings.Split(doc, "\n\n") {
		if strings.HasPrefix(strings.TrimSpace(par), "Deprecated:") {
			return true
		}
	}
	return false
}

func (s *gSchema) decls(x *genResult) []genDecl {
	var out []genDecl
	enums, values, msgs, oneofs, wrappers := map[string]bool{}, map[string]bool{}, map[string]*gMsg{}, map[string]bool{}, map[string]string{}
	for _, e := range s.allEnums() {
		enums[e.name] = true
		for _, v := range e.values {
			values[v] = true
		}
	}
	getters := map[string]string{}
	for _, m := range s.allMsgs() {
		msgs[m.name] = m
		for _, f := range m.fields {
			if f.oneof != nil && !f.oneof.synthetic {
				wrappers[m.name+"_"+f.name] = f.name
				getters[m.name+".Get"+f.name] = f.name
				oneofs[m.name+"."+f.oneof.name] = true
			}
		}
	}
	text := func(c *ast.CommentGroup) string {
		if c == nil {
			return ""
		}
		return c.Text()
	}
	fields := func(owner string, st *ast.StructType) {
		for _, f := range st.Fields.List {
			for _, n := range f.Names {
				if n.Name == "_" {
					continue
				}
				one := oneofs[owner+"."+n.Name]
				out = append(out, genDecl{id: n.Name, what: "field " + owner + "." + n.Name, doc: text(f.Doc), trail: text(f.Comment), canNote: true, canTrail: !one, canDeprecate: !one})
			}
		}
	}
	for _, d := range x.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					n = id.Name + "." + n
				}
			}
			out = append(out, genDecl{id: getters[n], what: "method " + n, doc: text(d.Doc), canDeprecate: getters[n] != ""})
		case *ast.GenDecl:
			for i, sp := range d.Specs {
				doc := func(c *ast.CommentGroup) string {
					if i == 0 && !d.Lparen.IsValid() {
						return text(d.Doc) + text(c)
					}
					return text(c)
				}
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					n := sp.Name.Name
					dec := genDecl{id: n, what: "type " + n, doc: doc(sp.Doc), trail: text(sp.Comment)}
					if enums[n] || msgs[n] != nil {
						dec.canNote, dec.canDeprecate = true, true
					} else {
						dec.id = ""
					}
					out = append(out, dec)
					if st, ok := sp.Type.(*ast.StructType); ok {
						fields(n, st)
					}
				case *ast.ValueSpec:
					for _, n := range sp.Names {
						dec := genDecl{id: n.Name, what: "constant " + n.Name, doc: doc(sp.Doc), trail: text(sp.Comment), canNote: values[n.Name], canTrail: values[n.Name], canDeprecate: values[n.Name]}
						out = append(out, dec)
					}
				}
			}
		}
	}
	return out
}

// compareDocs: the comments and deprecation marks of the schema are on the
// declarations they belong to and on no others (C32).
func (s *gSchema) compareDocs(x *genResult, fail func(format string, a ...interface{})) (obl int) {
	asked, dep := false, false
	if v, ok := x.made["GetDeprecated of "+s.vary]; ok && s.vary != "" {
		asked, dep = true, v
	}
	depSeen := false
	for _, d := range s.decls(x) {
		obl++
		mine := s.vary != "" && d.id == s.vary
		has := strings.Contains(d.doc, "note")
		switch {
		case mine && d.canNote && (s.notes == 1 || s.notes == 2) && !has:
			fail("%s lacks the comment of its schema element", d.what)
		case mine && d.canNote && s.notes == 2 && !strings.Contains(d.doc, "second line"):
			fail("%s lacks the second line of the comment of its schema element", d.what)
		case has && !(mine && d.canNote):
			fail("%s carries the comment of %s", d.what, s.vary)
		case strings.Contains(d.trail, "note"):
			fail("%s carries the leading comment of %s as a trailing one", d.what, s.vary)
		}
		has = strings.Contains(d.trail, "tail")
		switch {
		case strings.Contains(d.doc, "tail"):
			fail("%s carries the trailing comment of %s as its documentation", d.what, s.vary)
		case mine && d.canTrail && (s.notes == 1 || s.notes == 3) && !has:
			fail("%s lacks the trailing comment of its schema element", d.what)
		case has && !(mine && d.canTrail):
			fail("%s carries the trailing comment of %s", d.what, s.vary)
		}
		if mine && d.canDeprecate {
			depSeen = true
		}
		want := mine && d.canDeprecate && dep
		if got := deprecated(d.doc); got != want {
			fail("%s is %s", d.what, map[bool]string{true: "marked as deprecated, which its schema element is not", false: "not marked as deprecated, which its schema element is"}[got])
		}
	}
	obl++
	switch {
	case depSeen && !asked:
		fail("whether %s is deprecated is not looked at", s.vary)
	}
	head := x.text
	if i := strings.Index(head, "\npackage "); i >= 0 {
		head = head[:i]
	}
	if s.vary == "verif" && !asked {
		fail("whether the file is deprecated is not looked at")
	}
	if got := strings.Contains(strings.ToLower(head), "deprecated"); got != (s.vary == "verif" && dep) {
		fail("the file %s", map[bool]string{true: "is marked as deprecated, which its schema is not", false: "is not marked as deprecated, which its schema is"}[got])
	}
	return obl
}

// ---- evaluating generated code ----

// genSSA builds the SSA of an emitted file.
func genSSA(x *genResult) *ssa.Package {
	prog := ssa.NewProgram(x.fset, ssa.SanityCheckFunctions)
	seen := map[*types.Package]bool{}
	var deps func(ps []*types.Package)
	deps = func(ps []*types.Package) {
		for _, q := range ps {
			if !seen[q] {
				seen[q] = true
				prog.CreatePackage(q, nil, nil, true)
				deps(q.Imports())
			}
		}
	}
	deps(x.pkg.Imports())
	pk := prog.CreatePackage(x.pkg, []*ast.File{x.file}, x.info, false)
	pk.Build()
	return pk
}

// genOneofJob: the accessors of a oneof return the member that is set (C28).
func (p *Program) genOneofJob(r *jobResult, s *gSchema) {
	fn := p.genPkg.Func("GenerateFile")
	p.genCheck(r, s, func(x *genResult) {
		pk := genSSA(x)
		fail := func(f string, a ...interface{}) {
			p.genFail(r, fn, "accessor", "", []string{"C28"}, "%s: %s%s", s.name, fmt.Sprintf(f, a...), x.conds)
		}
		p.genCompare(r, fn, s, x, "C24")
		for _, m := range s.allMsgs() {
			for _, o := range m.oneofs {
				if !o.synthetic {
					p.oneofAccessors(r, s, m, o, x, pk, fail)
				}
			}
		}
	})
}

func (p *Program) oneofAccessors(r *jobResult, s *gSchema, m *gMsg, o *gOneof, x *genResult, pk *ssa.Package, fail func(f string, a ...interface{})) {
	mt := x.pkg.Scope().Lookup(m.name)
	if mt == nil {
		return // C24
	}
	st, ok := mt.Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	var it types.Type
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == o.name {
			it = st.Field(i).Type()
		}
	}
	if it == nil {
		return
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return
	}
	// exactly the members of this oneof can be assigned
	members := map[string]*gField{}
	for _, f := range o.fields {
		members[m.name+"_"+f.name] = f
	}
	for _, n := range x.pkg.Scope().Names() {
		tn, ok := x.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		r.obl++
		got := types.Implements(types.NewPointer(tn.Type()), iface) || types.Implements(tn.Type(), iface)
		if want := members[n] != nil; got != want {
			fail("message %s: a %s %s be assigned to oneof %s", m.name, n, map[bool]string{true: "can", false: "cannot"}[got], o.name)
		}
	}
	method := func(name string) *ssa.Function {
		sel := types.NewMethodSet(types.NewPointer(mt.Type())).Lookup(x.pkg, name)
		if sel == nil {
			fail("message %s: no accessor %s is emitted", m.name, name)
			return nil
		}
		f := pk.Prog.MethodValue(sel)
		if f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
			fail("message %s: accessor %s has the signature %s", m.name, name, f.Signature)
			return nil
		}
		return f
	}
	// eval runs an accessor on a message whose oneof holds the member (nil: none is set), or on a nil message
	eval := func(name string, f *ssa.Function, nilMsg bool, set *gField, want func(v gv, wrapper gv) string) {
		r.paths += p.explore(func() *ginterp { g, _ := p.newGen(s); return g }, 50, func(g *ginterp) {
			g.genProg = pk.Prog
			r.obl++
			recv := gptr{}
			var value, wrapper gv
			if !nilMsg {
				msg := g.zero(mt.Type()).(gstruct)
				for _, l := range msg.f {
					if l.name == o.name && set != nil {
						wt := x.pkg.Scope().Lookup(m.name + "_" + set.name)
						if wt == nil {
							return
						}
						w, ok := g.zero(wt.Type()).(gstruct)
						if !ok || len(w.f) != 1 {
							return
						}
						value = gopq{what: "the value of " + set.name}
						w.f[0].v = value
						wrapper = giface{types.NewPointer(wt.Type()), gptr{&gloc{v: w, name: wt.Name()}}}
						l.v = wrapper
					}
				}
				recv = gptr{&gloc{v: msg, name: m.name}}
			}
			on := "with no member of " + o.name + " set"
			if nilMsg {
				on = "of a nil message"
			} else if set != nil {
				on = "with member " + set.name + " set"
			}
			var out []gv
			crash := ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						if y, ok := e.(gpanic); ok {
							crash = y.msg
							return
						}
						panic(e)
					}
				}()
				out = g.call(gfunc{fn: f}, []gv{recv})
			}()
			r.instrs += g.instrs
			r.calls += g.calls
			if crash != "" {
				fail("%s.%s() %s crashes: %s", m.name, name, on, crash)
				return
			}
			if w := want(out[0], wrapper); w != "" {
				fail("%s.%s() %s returns %s", m.name, name, on, w)
			}
		})
	}
	type cond struct {
		nilMsg bool
		set    *gField
	}
	conds := []cond{{true, nil}, {false, nil}}
	for _, f := range o.fields {
		conds = append(conds, cond{false, f})
	}
	if f := method("Get" + o.name); f != nil {
		if !types.Identical(f.Signature.Results().At(0).Type(), it) {
			fail("accessor %s.Get%s has the type %s", m.name, o.name, f.Signature.Results().At(0).Type())
		} else {
			for _, c := range conds {
				c := c
				eval("Get"+o.name, f, c.nilMsg, c.set, func(v gv, wrapper gv) string {
					i, ok := v.(giface)
					switch {
					case !ok:
						return "something else"
					case c.set == nil && i.t != nil:
						return "a member"
					case c.set != nil && (i.t == nil || i.v != wrapper.(giface).v):
						return "something other than what is set"
					}
					return ""
				})
			}
		}
	}
	for _, mem := range o.fields {
		mem := mem
		f := method("Get" + mem.name)
		if f == nil {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		if want := wantType(x.pkg, mem); want != nil && !identU(want, rt) {
			fail("accessor %s.Get%s has the type %s", m.name, mem.name, rt)
			continue
		}
		for _, c := range conds {
			c := c
			eval("Get"+mem.name, f, c.nilMsg, c.set, func(v gv, _ gv) string {
				if c.set == mem {
					if o, ok := v.(gopq); ok && o.what == "the value of "+mem.name {
						return ""
					}
					return "something other than its value"
				}
				if o, ok := v.(gopq); ok && strings.HasPrefix(o.what, "the value of ") {
					return "another member's value"
				}
				return wrongDefault(mem, v)
			})
		}
	}
}

// wrongDefault: what is wrong about v as the value of a member that is not set.
func wrongDefault(f *gField, v gv) string {
	switch f.kind {
	case "message", "group":
		if p, ok := v.(gptr); ok && p.l == nil {
			return ""
		}
		return "a non-nil message"
	case "bytes":
		if s, ok := v.(gslice); ok && s.nil {
			return ""
		}
		return "a non-nil slice"
	case "string":
		if s, ok := v.(gstr); ok && len(s) == 0 {
			return ""
		}
		return "a non-empty string"
	case "bool":
		if b, ok := v.(gbool); ok && b.known && !b.v {
			return ""
		}
		return "true"
	case "enum":
		if k, ok := v.(gint); ok && k.known && k.k == int64(f.enum.num(0)) {
			return ""
		}
		return "something other than the enum's first value"
	case "float", "double":
		if o, ok := v.(gopq); ok && o.what == "float 0" {
			return ""
		}
		return "a non-zero number"
	}
	if k, ok := v.(gint); ok && k.known && k.k == 0 {
		return ""
	}
	return "a non-zero number"
}

// ---- public imports ----

// parseContent models parser.ParseFile of a generated file: the syntax tree of
// its text as values of the analysis.
func (g *ginterp) parseContent(args []gv) []gv {
	src, ok := args[2].(giface)
	o, isO := src.v.(gopq)
	if !ok || !isO || !strings.HasPrefix(o.what, "content of ") {
		giveUp("generator: parsing an unknown source")
	}
	id := strings.TrimPrefix(o.what, "content of ")
	errT := types.Universe.Lookup("error").Type()
	text, err := g.p.withImports(g.emit[id].text())
	if err == nil {
		var f *ast.File
		f, err = parser.ParseFile(token.NewFileSet(), "", text, parser.ParseComments|parser.SkipObjectResolution)
		if err == nil {
			return []gv{g.fromGo(reflect.ValueOf(f), map[uintptr]gv{}), giface{}}
		}
	}
	return []gv{gptr{}, giface{errT, gopq{what: "error"}}}
}

func (g *ginterp) goType(t reflect.Type) types.Type {
	if t.Kind() == reflect.Ptr {
		return types.NewPointer(g.goType(t.Elem()))
	}
	return g.libType(t.PkgPath(), t.Name())
}

// fromGo turns a syntax tree into values of the analysis.
func (g *ginterp) fromGo(v reflect.Value, memo map[uintptr]gv) gv {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return gptr{}
		}
		if n := v.Type().Elem().Name(); n == "Object" || n == "Scope" {
			return gptr{}
		}
		if m, ok := memo[v.Pointer()]; ok {
			return m
		}
		l := &gloc{name: v.Type().Elem().Name()}
		memo[v.Pointer()] = gptr{l}
		l.v = g.fromGo(v.Elem(), memo)
		return gptr{l}
	case reflect.Struct:
		s := gstruct{t: g.goType(v.Type())}
		for i := 0; i < v.NumField(); i++ {
			s.f = append(s.f, &gloc{v: g.fromGo(v.Field(i), memo), name: v.Type().Field(i).Name})
		}
		return s
	case reflect.Slice:
		s := gslice{nil: v.IsNil()}
		for i := 0; i < v.Len(); i++ {
			s.e = append(s.e, &gloc{v: g.fromGo(v.Index(i), memo)})
		}
		return s
	case reflect.Interface:
		if v.IsNil() {
			return giface{}
		}
		return giface{g.goType(v.Elem().Type()), g.fromGo(v.Elem(), memo)}
	case reflect.String:
		return lit(v.String())
	case reflect.Bool:
		return gb(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return gk(v.Int())
	case reflect.Map:
		return gmapp{}
	}
	giveUp("generator: a %s in a syntax tree", v.Type())
	panic("unreachable")
}

// importSchema: a file with one of everything that can be exported.
func importSchema(prefix string, proto2 bool) *gSchema {
	k := &fieldMaker{}
	o := &gOneof{name: "Pick"}
	a, b := k.fld("P", "int32", 1, true, proto2), k.fld("Q", "string", 1, true, proto2)
	a.oneof, b.oneof = o, o
	o.fields = []*gField{a, b}
	inner := &gMsg{name: prefix + "Msg_Inner", fields: []*gField{k.fld("X", "bytes", 1, proto2, proto2)}, enums: []*gEnum{{name: prefix + "Msg_Inner_Kind", values: []string{prefix + "Msg_Inner_K0", prefix + "Msg_Inner_K1"}}}}
	m := &gMsg{name: prefix + "Msg", fields: []*gField{k.fld("F", "int64", 1, true, proto2), a, b}, oneofs: []*gOneof{o}, nested: []*gMsg{inner}}
	return &gSchema{name: strings.ToLower(prefix), msgs: []*gMsg{m, {name: prefix + "Empty"}}, proto2: proto2,
		enums: []*gEnum{{name: prefix + "Color", values: []string{prefix + "Color_RED", prefix + "Color_BLUE"}, nums: []int{0, -3}}}}
}

// genImportJob: a public import forwards what the imported file declares, and
// nothing else is forwarded (C33).
func (p *Program) genImportJob(r *jobResult, kind string, proto2 bool) {
	fn := p.genPkg.Func("GenerateFile")
	if fn == nil {
		giveUp("function GenerateFile not found")
	}
	mainSchema := func() *gSchema {
		k := &fieldMaker{}
		f := k.fld("A", "enum", 1, false, proto2)
		f.ext, f.presence = true, proto2
		f.enum = &gEnum{name: "OtherColor", values: []string{"OtherColor_RED"}, nums: []int{0}, ext: true}
		s := &gSchema{name: "main", proto2: proto2, msgs: []*gMsg{{name: "Message", fields: []*gField{k.fld("B", "int32", 1, proto2, proto2)}}}}
		if kind == "public" || kind == "plain" {
			s.msgs[0].fields = append(s.msgs[0].fields, f)
		}
		return s
	}
	r.paths += p.explore(func() *ginterp { g, _ := p.newGen(mainSchema()); return g }, 300, func(g *ginterp) {
		fail := func(g *ginterp, rule, format string, a ...interface{}) {
			p.genFail(r, fn, rule, "", []string{"C33"}, "a file with %s imports: %s%s", kind, fmt.Sprintf(format, a...), g.when())
		}
		other, third := importSchema("Other", !proto2), importSchema("Third", proto2)
		ob, tb := g.build(other), g.build(third)
		ob.path, ob.pkg, ob.plain = otherPath, "otherpb", true
		tb.path, tb.pkg, tb.plain = thirdPath, "thirdpb", true
		switch kind {
		case "same package":
			ob.path, ob.pkg = pbPath, "pb"
		case "transitive":
			ob.imps = []gImport{{&gdesc{what: "file", id: "third", path: "third.proto", f: &gField{}, g: g}, true, false}}
		}
		ms := mainSchema()
		mb := g.build(ms)
		file := func(n string) *gdesc { return &gdesc{what: "file", id: n, path: n + ".proto", f: &gField{}, g: g} }
		switch kind {
		case "plain":
			mb.imps = []gImport{{file("missing"), false, false}, {file("other"), false, false}, {file("third"), false, false}}
		case "weak":
			mb.imps = []gImport{{file("third"), false, true}, {file("other"), false, false}}
		default:
			mb.imps = []gImport{{file("third"), false, false}, {file("other"), true, false}}
		}
		if kind == "public" {
			mb.imps = append([]gImport{{file("missing"), true, false}}, mb.imps...)
		}
		of, tf := ob.file(false, "other"), tb.file(false, "third")
		mf := mb.file(true, "verif")
		plug, set := mb.obj("Plugin")
		set("Files", ptrSlice([]gptr{tf, of, mf}))
		set("FilesByPath", gmapp{&gmapv{keys: []gv{lit("third.proto"), lit("other.proto"), lit("verif.proto")}, vals: []gv{tf, of, mf}}})
		g.plugin = plug
		g.initPkg(p.genPkg)
		crashed := ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					if x, ok := e.(gpanic); ok {
						crashed = x.msg
						return
					}
					panic(e)
				}
			}()
			g.call(gfunc{fn: fn}, []gv{plug, mf})
			// what the imported files declare
			g.call(gfunc{fn: fn}, []gv{plug, tf})
			g.call(gfunc{fn: fn}, []gv{plug, of})
		}()
		for x := range g.fns {
			r.fns[x.RelString(nil)] = true
		}
		r.instrs += g.instrs
		r.calls += g.calls
		r.obl++
		if crashed != "" {
			fail(g, "generator-crash", "the generator crashes: %s", crashed)
			return
		}
		if len(g.errs) > 0 {
			fail(g, "generator-error", "%s", g.errs[0])
			return
		}
		got := g.outputs()
		sort.Strings(got)
		if strings.Join(got, " ") != "other.pb.go third.pb.go verif.pb.go" {
			fail(g, "generator-files", "files are generated that are not asked for (%s, the last two on request)", strings.Join(got, " "))
			return
		}
		texts := map[string]string{}
		ids := map[string]string{}
		for i, n := range g.files {
			id := fmt.Sprintf("file %d %s", i+1, n)
			if !g.skipped[id] {
				texts[n], ids[n] = g.emit[id].text(), id
			}
		}
		pkgs := map[string]*types.Package{}
		tx := p.parseGenAs(g, texts["third.pb.go"], thirdPath, pkgs, fail)
		if tx == nil {
			return
		}
		pkgs[thirdPath] = tx.pkg
		var ox *genResult
		if kind != "same package" {
			if ox = p.parseGenAs(g, texts["other.pb.go"], otherPath, pkgs, fail); ox == nil {
				return
			}
			pkgs[otherPath] = ox.pkg
		}
		x := p.parseGenAs(g, texts["verif.pb.go"], pbPath, pkgs, fail)
		if x == nil {
			return
		}
		for _, i := range []struct {
			path string
			want bool
		}{{thirdPath, kind != "weak"}, {otherPath, kind != "same package"}} {
			r.obl++
			if has := contains(g.imported[ids["verif.pb.go"]], i.path) || strings.Contains(x.text, strconv.Quote(i.path)); i.want && !has {
				fail(g, "generated-import", "package %s of an imported file is not imported", i.path)
			}
		}
		forwards := func(s *gSchema, q *types.Package, want bool) {
			for _, n := range q.Scope().Names() {
				o := q.Scope().Lookup(n)
				if !o.Exported() {
					continue
				}
				if q != tx.pkg && tx.pkg.Scope().Lookup(n) != nil {
					continue // forwarded itself: unspecified
				}
				r.obl++
				mine := x.pkg.Scope().Lookup(n)
				if !want {
					if mine != nil {
						fail(g, "generated-forward", "%s of package %s, whose import is not public, is forwarded", n, q.Path())
					}
					continue
				}
				switch o := o.(type) {
				case *types.TypeName:
					if mt, ok := mine.(*types.TypeName); !ok || !types.Identical(mt.Type(), o.Type()) {
						fail(g, "generated-forward", "type %s of the public import is not forwarded", n)
					}
				case *types.Const:
					mc, ok := mine.(*types.Const)
					if !ok || !types.Identical(mc.Type(), o.Type()) || !constant.Compare(mc.Val(), token.EQL, o.Val()) {
						fail(g, "generated-forward", "constant %s of the public import is not forwarded", n)
					}
				case *types.Var, *types.Func:
					fail(g, "generated-forward", "%s of the public import is no type or constant", n)
				}
			}
		}
		if ox != nil {
			forwards(other, ox.pkg, kind != "plain" && kind != "weak")
		}
		if kind != "transitive" {
			forwards(third, tx.pkg, false)
		}
		r.obl += ms.compare(x, func(f string, a ...interface{}) { fail(g, "generated", f, a...) })
	})
}

// ---- jobs ----

func oneofSchemas() []func() *gSchema {
	var out []func() *gSchema
	for _, proto2 := range []bool{false, true} {
		for _, vary := range []string{"", "Message", "M1"} {
			proto2, vary := proto2, vary
			out = append(out, func() *gSchema {
				k := &fieldMaker{}
				member := func(o *gOneof, name, kind string, ext bool) *gField {
					f := k.fld(name, kind, 1, true, proto2)
					f.oneof, f.ext = o, ext
					o.fields = append(o.fields, f)
					return f
				}
				msg := &gMsg{name: "Message"}
				a, b := &gOneof{name: "Pick"}, &gOneof{name: "Other"}
				for i, kind := range append(append([]string(nil), genScalars...), "message") {
					o := a
					if i%2 == 1 {
						o = b
					}
					msg.fields = append(msg.fields, member(o, fmt.Sprintf("M%d", i), kind, false))
				}
				msg.fields = append(msg.fields, member(a, "ExtE", "enum", true), member(b, "ExtM", "message", true))
				if proto2 {
					first := member(a, "First5", "enum", false)
					first.enum = &gEnum{name: "Five", values: []string{"Five_A", "Five_B", "Five_C"}, nums: []int{5, 0, -3}}
					msg.fields = append(msg.fields, member(b, "Grp", "group", false), first)
				}
				first := member(b, "First0", "enum", false)
				first.enum = &gEnum{name: "Null", values: []string{"Null_A", "Null_B"}, nums: []int{0, 7}}
				msg.fields = append(msg.fields, first)
				msg.fields = append(msg.fields, k.fld("Plain", "int32", 1, false, proto2))
				msg.oneofs = []*gOneof{a, b}
				// the same names in another message, at the end and alone
				one := &gOneof{name: "Pick"}
				last := &gMsg{name: "Last", fields: []*gField{k.fld("S", "string", 3, false, proto2), member(one, "M1", "string", false), member(one, "M2", "bytes", false)}, oneofs: []*gOneof{one}}
				solo := &gOneof{name: "Solo"}
				nested := &gMsg{name: "Last_Inner", fields: []*gField{member(solo, "Only", "message", false)}, oneofs: []*gOneof{solo}}
				last.nested = []*gMsg{nested}
				s := &gSchema{name: fmt.Sprintf("oneofs of every kind in %s, %s varied", map[bool]string{true: "proto2", false: "proto3"}[proto2], vary), msgs: []*gMsg{msg, last}, proto2: proto2, vary: vary}
				return s.complete()
			})
		}
	}
	return out
}

func enumSchemas() []func() *gSchema {
	var out []func() *gSchema
	for _, proto2 := range []bool{false, true} {
		for _, vary := range []string{"", "Color", "Color_B", "Outer_Kind"} {
			for notes := 0; notes < 4; notes++ {
				if vary == "" && notes > 0 {
					continue
				}
				proto2, vary, notes := proto2, vary, notes
				out = append(out, func() *gSchema {
					k := &fieldMaker{}
					deep := &gMsg{name: "Outer_Inner", enums: []*gEnum{{name: "Outer_Inner_Deep", values: []string{"Outer_Inner_D0"}, nums: []int{0}}, {name: "Outer_Inner_Opaque", values: []string{"Outer_Inner_O0", "Outer_Inner_O1", "Outer_Inner_O2"}}}}
					outer := &gMsg{name: "Outer", nested: []*gMsg{deep}, fields: []*gField{k.fld("F", "enum", 1, proto2, proto2)},
						enums: []*gEnum{{name: "Outer_Kind", values: []string{"Outer_K0", "Outer_K1"}}}}
					return (&gSchema{name: fmt.Sprintf("enums in %s, %s varied, comments %d", map[bool]string{true: "proto2", false: "proto3"}[proto2], vary, notes), proto2: proto2, vary: vary, notes: notes, msgs: []*gMsg{outer},
						enums: []*gEnum{{name: "Color", values: []string{"Color_A", "Color_B", "Color_C", "Color_D", "Color_E", "Color_F", "Color_a", "COLOR_A"}, nums: []int{0, 1, 1, -1, 2147483647, -2147483648, 1, 6}}, {name: "One", values: []string{"One_A"}, nums: []int{5}}}}).complete()
				})
			}
		}
	}
	return out
}

// shapeSchemas: messages with one or two fields of every kind, in an order that
// mixes them, so that nothing learnt from one message fits the next.
func shapeSchemas() []func() *gSchema {
	var out []func() *gSchema
	for _, proto2 := range []bool{false, true} {
		for _, turn := range []int{0, 1} {
			proto2, turn := proto2, turn
			out = append(out, func() *gSchema {
				k := &fieldMaker{}
				var plain, odd [][]*gField
				one := func(to *[][]*gField, f ...*gField) { *to = append(*to, f) }
				kinds := append(append([]string(nil), genScalars...), "message")
				if proto2 {
					kinds = append(kinds, "group")
				}
				for _, kind := range kinds {
					card, presence := 1, proto2 || kind == "message"
					to := &plain
					if kind == "bytes" {
						to = &odd
					}
					one(to, k.fld("F", kind, card, presence, proto2))
					if proto2 {
						one(to, k.fld("F", kind, 2, true, proto2))
					} else if kind != "message" {
						one(to, optionalOf(k, "F", kind))
					}
					one(&odd, k.fld("F", kind, 3, false, proto2), k.fld("G", "int32", 1, proto2, proto2))
					one(&odd, k.fld("F", "int32", 1, proto2, proto2), k.fld("G", kind, 3, false, proto2))
					one(&plain, k.fld("F", "int32", 1, proto2, proto2), k.fld("G", "string", 1, proto2, proto2))
				}
				one(&odd, k.mapOf("F", "string", "int32", proto2))
				one(&odd, k.fld("F", "bytes", 1, proto2, proto2), k.fld("G", "bool", 1, proto2, proto2))
				one(&odd, k.fld("F", "bool", 1, proto2, proto2), k.fld("G", "bytes", 1, proto2, proto2))
				one(&odd, k.fld("F", "bool", 1, proto2, proto2), k.mapOf("G", "int32", "bytes", proto2))
				far, farE := k.fld("F", "message", 1, true, proto2), k.fld("F", "enum", 1, proto2, proto2)
				far.ext, farE.ext = true, true
				one(&plain, far)
				one(&plain, farE)
				farO := optionalOf(k, "F", "enum")
				farO.ext = true
				if !proto2 {
					one(&plain, farO)
				}
				one(&plain)
				s := &gSchema{name: fmt.Sprintf("messages of every shape in %s, order %d", map[bool]string{true: "proto2", false: "proto3"}[proto2], turn), proto2: proto2}
				add := func(fs []*gField) {
					m := &gMsg{name: fmt.Sprintf("Shape%d", len(s.msgs)), fields: fs}
					for _, f := range fs {
						if f.oneof != nil {
							m.oneofs = append(m.oneofs, f.oneof)
						}
					}
					s.msgs = append(s.msgs, m)
				}
				for i := 0; i < len(plain) || i < len(odd); i++ {
					if turn == 0 && i < len(plain) {
						add(plain[i])
					}
					if i < len(odd) {
						add(odd[i])
					}
					if turn == 1 && i < len(plain) {
						add(plain[i])
					}
				}
				o := &gOneof{name: "Pick"}
				f := k.fld("F", "int32", 1, true, proto2)
				f.oneof, o.fields = o, []*gField{f}
				s.msgs = append(s.msgs, &gMsg{name: "OnlyOneof", fields: []*gField{f}, oneofs: []*gOneof{o}})
				return s.complete()
			})
		}
	}
	return out
}

// optionalOf: a proto3 optional field.
func optionalOf(k *fieldMaker, name, kind string) *gField {
	f := k.fld(name, kind, 1, true, false)
	f.oneof = &gOneof{name: "_" + name, synthetic: true, fields: []*gField{f}}
	return f
}

func (p *Program) gen2Jobs(deep bool) []*job {
	var jobs []*job
	for _, sc := range oneofSchemas() {
		sc := sc
		jobs = append(jobs, &job{name: "generate " + sc().name, props: []string{"C28", "C24", "C30", "C31", "C32"}, cost: 1, run: func(r *jobResult) { p.genOneofJob(r, sc()) }})
	}
	for _, sc := range enumSchemas() {
		sc := sc
		jobs = append(jobs, &job{name: "generate " + sc().name, props: []string{"C29", "C30", "C31", "C32"}, cost: 1, run: func(r *jobResult) { p.genSchemaJob(r, sc()) }})
	}
	for _, sc := range shapeSchemas() {
		sc := sc
		jobs = append(jobs, &job{name: "generate " + sc().name, props: []string{"C30", "C24", "C31"}, cost: 1, run: func(r *jobResult) { p.genSchemaJob(r, sc()) }})
	}
	for _, how := range []string{"two packages", "one package", "an import", "a public import"} {
		for i, pr := range pureSchemas(how == "one package") {
			pr, how := pr, how
			jobs = append(jobs, &job{name: fmt.Sprintf("generate pair %d of files in every order (%s)", i, how), props: []string{"C34"}, cost: 1, run: func(r *jobResult) { p.genPureJob(r, pr, how) }})
		}
	}
	for _, kind := range []string{"public", "plain", "weak", "same package", "transitive"} {
		for _, proto2 := range []bool{false, true} {
			kind, proto2 := kind, proto2
			jobs = append(jobs, &job{name: fmt.Sprintf("generate a file with %s imports (proto2 %v)", kind, proto2), props: []string{"C33"}, cost: 1, run: func(r *jobResult) { p.genImportJob(r, kind, proto2) }})
		}
	}
	return jobs
}
