package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the generator reads of its surroundings gets names marked with this
// character; they must not be found in what it emits.
const envMark = "\u203b"

var envFuncs = map[string]bool{
	"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.ExpandEnv": true, "os.Hostname": true, "os.Getpid": true, "os.Getppid": true, "os.Getuid": true, "os.Getwd": true,
	"os.Executable": true, "os.UserHomeDir": true, "os.TempDir": true, "os.ReadFile": true, "os.ReadDir": true, "os.Stat": true,
	"runtime.NumCPU": true, "runtime.NumGoroutine": true, "runtime.GOMAXPROCS": true, "os/user.Current": true,
	"time.Now": true, "time.Since": true, "time.Until": true,
}

// environment gives a name to what a library function reads outside the
// request.
func (g *ginterp) environment(fn *ssa.Function, pk string, args []gv) ([]gv, bool) {
	from := envFuncs[pk+"."+fn.Name()] && fn.Signature.Recv() == nil || pk == "math/rand" || pk == "math/rand/v2" || pk == "crypto/rand"
	what := pk + "." + fn.Name()
	if !from && pk == "time" {
		for _, a := range args {
			if o, ok := a.(gopq); ok && strings.Contains(o.what, envMark) {
				from, what = true, o.what+"."+fn.Name()
			}
		}
	}
	if !from {
		return nil, false
	}
	g.asked++
	var out []gv
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		name := fmt.Sprintf("%s%s#%d", envMark, strings.ReplaceAll(what, envMark, ""), g.asked)
		t := res.At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				out = append(out, atomStr(name))
			case u.Info()&types.IsInteger != 0:
				out = append(out, gint{atom: name})
			case u.Info()&types.IsBoolean != 0:
				out = append(out, gbool{atom: name})
			default:
				out = append(out, gopq{what: name})
			}
		case *types.Interface:
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				out = append(out, giface{})
				continue
			}
			out = append(out, gopq{what: name})
		default:
			out = append(out, gopq{what: name})
		}
	}
	return out, true
}

// pureSchemas: pairs of files with the same names in them and different
// contents, as two packages may have.
func pureSchemas(onePackage bool) [][2]func() *gSchema {
	mk := func(name string, a bool, proto2 bool) func() *gSchema {
		sfx := ""
		if onePackage && !a {
			sfx = "2" // their own names
		}
		return func() *gSchema {
			k := &fieldMaker{}
			pick := func(x, y string) string {
				if a {
					return x
				}
				return y
			}
			f := func(name, kind string, card int) *gField {
				return k.fld(name, kind, card, card == 2 || card == 1 && (proto2 || kind == "message"), proto2)
			}
			o := &gOneof{name: "Pick"}
			o1, o2 := f("P", pick("sint32", "string"), 1), f("Q", pick("enum", "message"), 1)
			for _, x := range []*gField{o1, o2} {
				x.presence, x.oneof = true, o
				o.fields = append(o.fields, x)
			}
			ext := func(x *gField) *gField { x.ext = true; return x }
			fields := []*gField{ext(f("S", "message", 1)), ext(f("T", "enum", 3)), f("A", pick("int32", "sint32"), 1), k.mapOf("B", "string", pick("sint64", "int64"), proto2), k.mapOf("C", pick("fixed32", "uint32"), "message", proto2), f("D", pick("enum", "int32"), 3), o1, o2}
			if a {
				fields = append(fields, f("E", "bytes", 1), f("F", "message", 3))
			}
			msg := &gMsg{name: "Message" + sfx, fields: fields, oneofs: []*gOneof{o}}
			in := &gMsg{name: "Inner" + sfx, fields: []*gField{f("X", pick("string", "double"), 1)}, enums: []*gEnum{{name: "Deep" + sfx, values: []string{"Deep" + sfx + "_A", "Deep" + sfx + "_B"}}}}
			msg.nested = append(msg.nested, in)
			plain := &gMsg{name: "Plain" + sfx, fields: []*gField{f("N", pick("int64", "bool"), 1)}}
			s := &gSchema{name: name, msgs: []*gMsg{msg, plain, {name: "Early" + sfx, fields: []*gField{f("Z", pick("bool", "double"), 1)}}}, enums: []*gEnum{{name: "Top" + sfx, values: []string{"Top" + sfx + "_A", "Top" + sfx + "_B", "Top" + sfx + "_C"}[:map[bool]int{true: 3, false: 2}[a]]}}, proto2: proto2}
			return s.complete()
		}
	}
	var out [][2]func() *gSchema
	for _, proto2 := range []bool{false, true} {
		out = append(out, [2]func() *gSchema{mk("one", true, proto2), mk("two", false, proto2)})
	}
	return append(out, [2]func() *gSchema{mk("one", true, false), mk("two", false, true)})
}

// genPureJob: what is generated for a file is determined by that file: not by
// the order in which maps are iterated, the files generated before, how often
// it has been generated, or anything read outside the request.
func (p *Program) genPureJob(r *jobResult, pair [2]func() *gSchema, how string) {
	if p.genPkg == nil {
		giveUp("package %s not found", genPath)
	}
	fn := p.genPkg.Func("GenerateFile")
	if fn == nil {
		giveUp("function GenerateFile not found")
	}
	fail := func(rule, format string, a ...interface{}) {
		r.findings = append(r.findings, Finding{Rule: rule, Msg: fmt.Sprintf(format, a...), Pos: fn.Pos(), Fn: fn.String(), Where: r.job.name, Props: []string{"C34"}})
	}
	texts := map[string]map[string]string{} // file -> text -> the run it comes from
	type run struct {
		what    string
		order   []int
		reverse bool
	}
	runs := []run{
		{"alone", []int{0}, false}, {"alone", []int{1}, false},
		{"with maps iterated in another order", []int{0}, true}, {"with maps iterated in another order", []int{1}, true},
		{"before the other file", []int{0, 1}, false}, {"after the other file", []int{1, 0}, false},
		{"twice", []int{0, 0}, false}, {"twice", []int{1, 1}, false},
		{"with the other file and maps iterated in another order", []int{0, 1}, true},
	}
	for _, w := range runs {
		w := w
		byCond := map[string]string{} // file and conditions -> text
		seen := map[string]map[string]bool{}
		r.paths += p.explore(func() *ginterp {
			g, _ := p.newGen(pair[0]())
			g.reverse, g.ppkg = w.reverse, map[interface{}]string{}
			return g
		}, 300, func(g *ginterp) {
			var files []gptr
			var first *genBuild
			for _, i := range []int{0, 1} {
				s := pair[i]()
				b := g.build(s)
				b.plain = true
				if i == 1 && how != "one package" {
					b.path, b.pkg = pbPath+"/two", "two"
				}
				if i == 1 {
					for _, m := range s.allMsgs() {
						g.ppkg[m] = "two"
					}
					for _, e := range s.allEnums() {
						g.ppkg[e] = "two"
					}
				}
				if i == 1 && (how == "an import" || how == "a public import") {
					b.imps = []gImport{{&gdesc{what: "file", id: "one", path: "one.proto", f: &gField{}, g: g}, how == "a public import", false}}
				}
				if i == 0 {
					first = b
				} else if how != "two packages" {
					// the second file uses what the first declares
					for m, x := range first.msgs {
						b.msgs[m] = x
					}
					for e, x := range first.ens {
						b.ens[e] = x
					}
					one, m := first.s, s.msgs[0]
					plain, used := one.msgs[0], one.msgs[0]
					for _, m := range one.msgs {
						if strings.HasPrefix(m.name, "Plain") {
							plain = m
						}
						if m.name == "Target" {
							used = m // by fields of the first file as well
						}
					}
					entry := &gMsg{name: m.name + "_LEntry", mapEntry: true, fields: []*gField{{name: "key", kind: "string", card: 1, num: 1}, {name: "value", kind: "message", card: 1, num: 2, presence: true, msg: one.msgs[0]}}}
					m.nested = append(m.nested, entry)
					m.fields = append(m.fields,
						&gField{name: "I", kind: "message", card: 1, presence: true, proto2: s.proto2, num: 200001, msg: plain},
						&gField{name: "J", kind: "message", card: 3, proto2: s.proto2, num: 200002, msg: one.msgs[0]},
						&gField{name: "K", kind: "enum", card: 3, proto2: s.proto2, num: 200003, enum: one.enums[0]},
						&gField{name: "U", kind: "message", card: 3, proto2: s.proto2, num: 200005, msg: used},
						&gField{name: "V", kind: "enum", card: 3, proto2: s.proto2, num: 200006, enum: one.enums[len(one.enums)-1]},
						&gField{name: "L", kind: "message", card: 3, proto2: s.proto2, num: 200004, msg: entry, key: entry.fields[0], val: entry.fields[1]})
				}
				files = append(files, b.file(true, s.name))
			}
			plug, set := (&genBuild{g: g}).obj("Plugin")
			set("Files", ptrSlice(files))
			set("FilesByPath", gmapp{&gmapv{keys: []gv{lit("one.proto"), lit("two.proto")}, vals: []gv{files[0], files[1]}}})
			g.plugin = plug
			g.initPkg(p.genPkg)
			crashed := ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						if x, ok := e.(gpanic); ok {
							crashed = x.msg
							return
						}
						panic(e)
					}
				}()
				for _, i := range w.order {
					g.call(gfunc{fn: fn}, []gv{plug, files[i]})
				}
			}()
			for x := range g.fns {
				r.fns[x.RelString(nil)] = true
			}
			r.instrs += g.instrs
			r.calls += g.calls
			if crashed != "" {
				giveUp("the generator crashes: %s", crashed)
			}
			var env, conds []string
			for _, a := range g.order {
				if strings.Contains(a, envMark) {
					env = append(env, a)
				} else {
					conds = append(conds, fmt.Sprintf("%s=%v", a, g.made[a]))
				}
			}
			sort.Strings(conds)
			for id, t := range g.emit {
				if g.skipped[id] {
					continue
				}
				r.obl++
				file := "one"
				if strings.HasSuffix(id, "two.pb.go") {
					file = "two"
				}
				text := t.text()
				if os.Getenv("DBGPURE") != "" {
					fmt.Println("=====", file, w.what, w.order, w.reverse, text)
				}
				for _, x := range t {
					if x.atom && strings.Contains(x.s, envMark) {
						fail("generator-environment", "file %s: the generated code contains what %s returns%s", file, strings.ReplaceAll(x.s, envMark, ""), g.when())
						return
					}
				}
				key := file + " " + strings.Join(conds, " ")
				if old, ok := byCond[key]; ok && old != text {
					why := "which time it is generated"
					if len(env) > 0 {
						why = strings.ReplaceAll(strings.Join(env, ", "), envMark, "")
					}
					fail("generator-environment", "file %s, %s: the generated code depends on %s: %s", file, w.what, why, firstDiff(old, text))
					return
				}
				byCond[key] = text
				if seen[file] == nil {
					seen[file] = map[string]bool{}
				}
				seen[file][text] = true
			}
		})
		if len(r.findings) > 0 {
			return
		}
		for _, file := range sortedNames(seen) {
			if texts[file] == nil {
				texts[file] = map[string]string{}
				for t := range seen[file] {
					texts[file][t] = w.what
				}
				continue
			}
			for _, t := range sortedNames(seen[file]) {
				if _, ok := texts[file][t]; !ok {
					for _, first := range sortedNames(texts[file]) {
						fail("generator-order", "file %s comes out differently %s than %s: %s", file, w.what, texts[file][first], firstDiff(first, t))
						return
					}
				}
			}
		}
	}
}

// firstDiff: the first line in which two texts differ.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "the end", "the end"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d is %q or %q", i+1, p, q)
		}
	}
	return "no difference"
}
