package main

// Layout and pointer-arithmetic rules for unsafe code, decided on the types
// and the SSA of the repository and on the source of the toolchain's runtime
// it links into.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// a slot is one primitive part of a value's memory.
type slot struct {
	off, size int64
	ptr       bool
}

func slotsOf(t types.Type, off int64, out []slot) []slot {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return append(out, slot{off, 8, true})
		case u.Info()&types.IsString != 0:
			return append(out, slot{off, 8, true}, slot{off + 8, 8, false})
		}
		return append(out, slot{off, sizeof(t), false})
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return append(out, slot{off, 8, true})
	case *types.Interface:
		return append(out, slot{off, 8, true}, slot{off + 8, 8, true})
	case *types.Slice:
		return append(out, slot{off, 8, true}, slot{off + 8, 8, false}, slot{off + 16, 8, false})
	case *types.Array:
		n := u.Len()
		if n > 256 {
			n = 256
		}
		for i := int64(0); i < n; i++ {
			out = slotsOf(u.Elem(), off+i*sizeof(u.Elem()), out)
		}
		return out
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		if len(fs) == 0 {
			return out
		}
		offs := sizes.Offsetsof(fs)
		for i, f := range fs {
			out = slotsOf(f.Type(), off+offs[i], out)
		}
	}
	return out
}

func pointersOf(t types.Type) map[int64]bool {
	out := map[int64]bool{}
	for _, s := range slotsOf(t, 0, nil) {
		if s.ptr {
			out[s.off] = true
		}
	}
	return out
}

// viewProblem: memory of type have, accessed as type want.
func viewProblem(have, want types.Type) string {
	if sizeof(want) > sizeof(have) {
		return fmt.Sprintf("%s has %d bytes, %s has only %d", want, sizeof(want), have, sizeof(have))
	}
	hp := pointersOf(have)
	for _, s := range slotsOf(want, 0, nil) {
		if s.ptr && !hp[s.off] {
			return fmt.Sprintf("%s has a pointer at offset %d, where %s has none", want, s.off, have)
		}
	}
	return ""
}

// argProblem: a value of type mine passed where the callee was compiled for
// type theirs (or the reverse for results).
func argProblem(mine, theirs types.Type, depth int) string {
	a, b := slotsOf(mine, 0, nil), slotsOf(theirs, 0, nil)
	if len(a) != len(b) || sizeof(mine) != sizeof(theirs) {
		return fmt.Sprintf("%s and %s have different layouts", mine, theirs)
	}
	for i := range a {
		if a[i] != b[i] {
			if a[i].ptr != b[i].ptr && a[i].off == b[i].off {
				return fmt.Sprintf("at offset %d only one of %s and %s has a pointer", a[i].off, mine, theirs)
			}
			return fmt.Sprintf("%s and %s have different layouts", mine, theirs)
		}
	}
	mp, ok1 := mine.Underlying().(*types.Pointer)
	tp, ok2 := theirs.Underlying().(*types.Pointer)
	if ok1 && ok2 && depth == 0 {
		// the callee uses the memory as its own type
		return objectProblem(mp.Elem(), tp.Elem())
	}
	return ""
}

// objectProblem: an object of type mine that other code uses as type theirs.
func objectProblem(mine, theirs types.Type) string {
	if sizeof(theirs) > sizeof(mine) {
		return fmt.Sprintf("%s has %d bytes, %s needs %d", mine, sizeof(mine), theirs, sizeof(theirs))
	}
	mp := pointersOf(mine)
	for off := range pointersOf(theirs) {
		if !mp[off] {
			return fmt.Sprintf("the pointer %s keeps at offset %d is no pointer in %s, so the collector does not see it", theirs, off, mine)
		}
	}
	tp := pointersOf(theirs)
	for off := range mp {
		if off < sizeof(theirs) && !tp[off] {
			return fmt.Sprintf("%s has a pointer at offset %d, where %s keeps something else", mine, off, theirs)
		}
	}
	return ""
}

func (p *Program) targetSig(target string) (*types.Signature, string) {
	i := strings.LastIndex(target, ".")
	if i < 0 {
		return nil, "malformed link name"
	}
	pk := p.all[target[:i]]
	if pk == nil || pk.Types == nil {
		return nil, "package " + target[:i] + " is not among the dependencies"
	}
	fn, ok := pk.Types.Scope().Lookup(target[i+1:]).(*types.Func)
	if !ok {
		return nil, "no function " + target
	}
	return fn.Type().(*types.Signature), ""
}

// linknameJob: declarations linked to runtime functions agree with them.
func (p *Program) linknameJob(r *jobResult, deep bool) {
	var fns []*ssa.Function
	for fn := range p.linkname {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		target := p.linkname[fn]
		r.fns[fn.RelString(nil)] = true
		sig, why := p.targetSig(target)
		if sig == nil {
			r.undecided = fmt.Sprintf("%s: %s", fn, why)
			continue
		}
		bad := func(format string, a ...interface{}) {
			r.findings = append(r.findings, Finding{Rule: "linkname", Pos: fn.Pos(), Fn: fn.String(), Where: r.job.name, Props: []string{"C23"},
				Msg: fmt.Sprintf("%s is linked to %s: %s", fn.Name(), target, fmt.Sprintf(format, a...))})
		}
		mine := fn.Signature
		if mine.Params().Len() != sig.Params().Len() || mine.Results().Len() != sig.Results().Len() {
			bad("the numbers of parameters or results differ")
			continue
		}
		for i := 0; i < mine.Params().Len(); i++ {
			r.obl++
			if why := argProblem(mine.Params().At(i).Type(), sig.Params().At(i).Type(), 0); why != "" {
				bad("parameter %d: %s", i+1, why)
			}
		}
		for i := 0; i < mine.Results().Len(); i++ {
			r.obl++
			if why := argProblem(mine.Results().At(i).Type(), sig.Results().At(i).Type(), 0); why != "" {
				bad("result %d: %s", i+1, why)
			}
		}
		r.obl++
		if untyped[target] {
			bad("it moves, clears or allocates memory without its type, hiding the pointers in it from the collector")
		}
		if deep && strings.HasSuffix(target, ".mapiterinit") {
			checkOldIterators(p, r, fn, bad)
		}
	}
}

// untyped: runtime functions that work on memory regardless of its pointers.
var untyped = map[string]bool{"runtime.memmove": true, "reflect.memmove": true, "runtime.memclrNoHeapPointers": true, "runtime.mallocgc": true,
	"runtime.persistentalloc": true, "runtime.sysAlloc": true, "runtime.noescape": true, "runtime.rawbyteslice": true, "runtime.rawmem": true}

func oldIterators() []string {
	dirs, _ := filepath.Glob("/opt/veriftools/go1.*")
	var out []string
	for _, d := range dirs {
		f := filepath.Join(d, "src", "runtime", "map.go")
		if _, err := os.Stat(f); err == nil {
			out = append(out, f)
		}
	}
	return out
}

// checkOldIterators compares the map iterator with the one of older
// toolchains, when their source is present (thorough).
func checkOldIterators(p *Program, r *jobResult, fn *ssa.Function, bad func(string, ...interface{})) {
	mine, ok := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	for _, file := range oldIterators() {
		src, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				ts, ok := sp.(*ast.TypeSpec)
				if !ok || ts.Name.Name != "hiter" {
					continue
				}
				st, ok := ts.Type.(*ast.StructType)
				if !ok {
					continue
				}
				var vars []*types.Var
				known := true
				for _, fl := range st.Fields.List {
					var t types.Type
					switch x := fl.Type.(type) {
					case *ast.StarExpr:
						t = types.Typ[types.UnsafePointer]
					case *ast.SelectorExpr:
						t = types.Typ[types.UnsafePointer]
					case *ast.Ident:
						if o, ok := types.Universe.Lookup(x.Name).(*types.TypeName); ok {
							t = o.Type()
						}
					}
					if t == nil {
						known = false
						break
					}
					for _, n := range fl.Names {
						vars = append(vars, types.NewField(token.NoPos, nil, n.Name, t, false))
					}
				}
				if !known || len(vars) == 0 {
					continue
				}
				theirs := types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("runtime", "runtime"), "hiter", nil), types.NewStruct(vars, nil), nil)
				r.obl++
				if why := objectProblem(mine.Elem(), theirs); why != "" {
					bad("with the toolchain at %s, which the module's go directive admits: %s", filepath.Dir(filepath.Dir(filepath.Dir(file))), why)
				}
			}
		}
	}
}

// runtimePkgs: the packages whose code runs in Size, Marshal and Unmarshal.
func (p *Program) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Origin() != nil && p.inRepo(g) {
						add(g)
					}
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		sp := p.prog.Package(pk.Types)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if n, ok := m.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
						continue
					}
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := p.prog.MethodValue(ms.At(i)); f != nil && p.inRepo(f) {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

// viewJob: memory of a known type is only viewed as types that fit it.
func (p *Program) viewJob(r *jobResult) {
	for _, fn := range p.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Convert)
				if !ok || !isUnsafePtr(c.X.Type()) {
					continue
				}
				want, ok := c.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				r.fns[fn.RelString(nil)] = true
				for _, have := range pointees(c.X, 0) {
					if _, tp := have.(*types.TypeParam); tp {
						continue
					}
					r.obl++
					if why := viewProblem(have, want.Elem()); why != "" {
						r.findings = append(r.findings, Finding{Rule: "view", Pos: c.Pos(), Fn: fn.String(), Where: r.job.name, Props: []string{"C23"},
							Msg: fmt.Sprintf("memory of type %s is used as %s: %s", have, want.Elem(), why)})
					}
				}
			}
		}
	}
}

// pointees: the types an unsafe pointer is known to point to.
func pointees(v ssa.Value, depth int) []types.Type {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			switch a := x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				_ = a
				return nil // a part of something larger
			}
			return []types.Type{pt.Elem()}
		}
	case *ssa.ChangeType:
		return pointees(x.X, depth+1)
	case *ssa.Phi:
		var out []types.Type
		for _, e := range x.Edges {
			out = append(out, pointees(e, depth+1)...)
		}
		return out
	}
	return nil
}

// uintptrJob: integers become pointers only in the expression that computed
// them from a pointer.
func (p *Program) uintptrJob(r *jobResult) {
	for _, fn := range p.repoFuncs() {
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				c, ok := ins.(*ssa.Convert)
				if !ok || !isUnsafePtr(c.Type()) || !isUintptr(c.X.Type()) {
					continue
				}
				r.obl++
				r.fns[fn.RelString(nil)] = true
				if why := uintptrProblem(c.X, b, i, 0); why != "" {
					r.findings = append(r.findings, Finding{Rule: "uintptr", Pos: c.Pos(), Fn: fn.String(), Where: r.job.name, Props: []string{"C23"},
						Msg: "an integer is turned into a pointer: " + why})
				}
			}
		}
	}
}

// uintptrProblem: v, used at instruction i of block b.
func uintptrProblem(v ssa.Value, b *ssa.BasicBlock, i, depth int) string {
	at := -1
	if ins, ok := v.(ssa.Instruction); ok && ins.Block() == b {
		for j, x := range b.Instrs {
			if x == ins {
				at = j
			}
		}
	}
	quiet := func() string {
		if at < 0 {
			return "the pointer it was computed from is converted in another branch"
		}
		for j := at + 1; j < i; j++ {
			if ci, ok := b.Instrs[j].(*ssa.Call); ok {
				if _, bi := ci.Call.Value.(*ssa.Builtin); !bi {
					return "a call lies between it and the pointer it was computed from"
				}
			}
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() == constant.Int && constant.Sign(x.Value) == 0 {
			return ""
		}
		return "it is a constant"
	case *ssa.ChangeType:
		return uintptrProblem(x.X, b, i, depth+1)
	case *ssa.Convert:
		if isUnsafePtr(x.X.Type()) {
			return quiet()
		}
		if isUintptr(x.X.Type()) {
			return uintptrProblem(x.X, b, i, depth+1)
		}
		return "it was computed from no pointer"
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.AND, token.AND_NOT:
			why := "it was computed from no pointer"
			for _, y := range []ssa.Value{x.X, x.Y} {
				if !isUintptr(y.Type()) {
					continue
				}
				if _, isC := y.(*ssa.Const); isC {
					continue
				}
				w := uintptrProblem(y, b, i, depth+1)
				if w == "" {
					return ""
				}
				if w != "it was computed from no pointer" {
					why = w
				}
				if x.Op != token.ADD {
					break
				}
			}
			return why
		}
		return "it is the result of " + x.Op.String()
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch originName(f) {
			case "(reflect.Value).Pointer", "(reflect.Value).UnsafeAddr":
				return quiet()
			}
		}
		return "it is the result of a call"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "it was read from memory, where the collector does not see it"
		}
	case *ssa.Phi:
		return "it was kept in a variable across branches"
	case *ssa.Parameter:
		return "it was passed as a parameter"
	case *ssa.FreeVar:
		return "it was captured by a closure"
	}
	return "it was computed from no pointer"
}
