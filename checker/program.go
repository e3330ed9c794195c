package main

// Loading of /repo's current source and what the analysis knows about code
// outside it.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	isViolation   func(f Finding) bool // of the property being checked
	dir           string
	modPath       string
	fset          *token.FileSet
	pkgs          []*packages.Package // packages of the repository
	all           map[string]*packages.Package
	prog          *ssa.Program
	repo          map[*types.Package]bool
	linkname      map[*ssa.Function]string
	rtypeT        types.Type // *reflect.rtype
	opaqueErr     types.Type
	reflectP      *types.Package
	contracts     map[*ssa.Function]func(*Interp, *State, []Val) []Outcome
	verdicts      map[*ssa.Function]*contractVerdict
	contractsDone bool // verdicts is only read from now on
	contractMode  bool // contracts are being verified: do not use them
	protoPkg      *ssa.Package
	genPkg        *ssa.Package
	target        string // the property that is being checked
	instOnce      sync.Once
	insts         map[*ssa.Function][]*ssa.Function
}

const protoPath = "github.com/RomiChan/protobuf/proto"
const genPath = "github.com/RomiChan/protobuf/internal/generator"

func loadProgram(dir string) (*Program, error) {
	p := &Program{dir: dir, repo: map[*types.Package]bool{}, linkname: map[*ssa.Function]string{}, all: map[string]*packages.Package{},
		contracts: map[*ssa.Function]func(*Interp, *State, []Val) []Outcome{}, verdicts: map[*ssa.Function]*contractVerdict{}}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			env = append(env, e)
		}
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(env, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
		Overlay: map[string][]byte{
			filepath.Join(dir, "proto", "zz_verif_instances.go"): []byte(instances()),
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.all[pk.PkgPath] = pk
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-checking /repo failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.fset = prog.Fset
	for _, pk := range pkgs {
		p.pkgs = append(p.pkgs, pk)
		p.repo[pk.Types] = true
	}
	find := func(path string) *ssa.Package {
		if pk := p.all[path]; pk != nil {
			return prog.Package(pk.Types)
		}
		return nil
	}
	p.protoPkg = find(protoPath)
	p.genPkg = find(genPath)
	if p.protoPkg == nil {
		return nil, fmt.Errorf("package %s not found", protoPath)
	}
	rp := p.all["reflect"]
	if rp == nil {
		return nil, fmt.Errorf("package reflect is not among the dependencies")
	}
	p.reflectP = rp.Types
	p.rtypeT = types.NewPointer(rp.Types.Scope().Lookup("rtype").Type())
	vp := types.NewPackage("verif", "verif")
	p.opaqueErr = types.NewNamed(types.NewTypeName(token.NoPos, vp, "opaqueError", nil), types.NewStruct(nil, nil), nil)
	p.opaqueErr = types.NewPointer(p.opaqueErr)
	p.findLinknames()
	return p, nil
}

var optTypes = []string{"bool", "int32", "int64", "uint32", "uint64", "float32", "float64", "string", "[]byte", "int8", "*int32"}

// instances is a file, added for the analysis only, that uses the generic
// functions of package proto so that their instances exist.
func instances() string {
	var b strings.Builder
	b.WriteString("package proto\n\nfunc verifInstances() {\n")
	for _, t := range optTypes {
		fmt.Fprintf(&b, "\t{\n\t\tvar x %s\n\t\t_ = Some[%s](x)\n\t\t_ = None[%s]()\n\t}\n", t, t, t)
	}
	b.WriteString("}\n")
	return b.String()
}

func (p *Program) findLinknames() {
	for _, pk := range p.pkgs {
		sp := p.prog.Package(pk.Types)
		for _, f := range pk.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					fs := strings.Fields(c.Text)
					if len(fs) == 3 && fs[0] == "//go:linkname" {
						if fn := sp.Func(fs[1]); fn != nil && fn.Blocks == nil {
							p.linkname[fn] = fs[2]
						}
					}
				}
			}
		}
	}
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
		if o := fn.Origin(); o != nil {
			fn = o
		}
	}
	if fn.Pkg != nil {
		return p.repo[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.repo[o.Pkg()]
	}
	return false
}

func fnPkgPath(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
		if o := fn.Origin(); o != nil {
			fn = o
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (p *Program) mayInterpret(fn *ssa.Function) bool {
	if p.inRepo(fn) {
		return true
	}
	path := fnPkgPath(fn)
	switch path {
	case "": // synthetic wrappers
		return true
	case "encoding/binary", "errors", "strings", "strconv", "math", "math/bits", "bytes", "slices", "sort", "cmp", "unicode/utf8", "maps", "iter", "io", "sync/atomic",
		"google.golang.org/protobuf/encoding/protowire":
		return true
	case "reflect":
		return fn.Signature.Recv() != nil && (strings.Contains(fn.String(), "StructTag") || fn.String() == "(reflect.StructField).IsExported" || fn.String() == "(reflect.Kind).String")
	}
	return false
}

func (p *Program) trackedPkg(pk *ssa.Package) bool {
	return pk != nil && p.repo[pk.Pkg]
}

func (p *Program) isRType(t types.Type) bool { return t != nil && types.Identical(t, p.rtypeT) }

// model names an analysis model for a method of an external type, if there is one.
func (p *Program) model(t types.Type, name string) string { return "" }

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := p.fset.Position(pos)
	if rel, err := filepath.Rel(p.dir, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		q.Filename = rel
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (p *Program) fileOf(pk *packages.Package, n ast.Node) string { return p.pos(n.Pos()) }

// optionType instantiates proto.Option[t].
func (p *Program) optionType(t types.Type) (types.Type, error) {
	o := p.protoPkg.Pkg.Scope().Lookup("Option")
	if o == nil {
		return nil, fmt.Errorf("type Option not found in package proto")
	}
	return types.Instantiate(types.NewContext(), o.Type(), []types.Type{t}, true)
}
