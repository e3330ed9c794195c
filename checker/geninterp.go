package main

// A partial evaluator over SSA for the code generator: descriptors are
// abstract (names and numbers are opaque atoms, kinds, cardinalities and flags
// come from the scenario), strings are sequences of literals and atoms, and a
// condition on something opaque forks the analysis. What the generator writes
// is collected symbolically.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gv interface{}

type gint struct {
	known bool
	k     int64
	atom  string
}

type gbool struct {
	known bool
	v     bool
	atom  string
}

type gseg struct {
	s    string
	atom bool
}

type gstr []gseg

type giface struct {
	t types.Type
	v gv
}

type gfunc struct {
	fn   *ssa.Function
	bind []gv
}

type gloc struct {
	v    gv
	name string
}

type gptr struct{ l *gloc }

type gstruct struct {
	t types.Type
	f []*gloc
}

type garr struct{ e []*gloc }

type gslice struct {
	e   []*gloc
	nil bool
}

type gmapv struct {
	keys []gv
	vals []gv
}

type gmapp struct{ m *gmapv }

// gopq is something of a library, known only by what it is called.
type gopq struct {
	what string
	n    int
}

type giter struct {
	keys []gv
	vals []gv
	i    int
	str  bool
}

type gpanic struct{ msg string }

type ginterp struct {
	p       *Program
	choices []bool // decisions of this run
	used    int
	made    map[string]bool
	order   []string
	budget  int
	globals map[*ssa.Global]*gloc
	inited  map[*ssa.Package]bool
	fns     map[*ssa.Function]bool
	calls   int
	instrs  int
	bufs    map[*gloc]gstr
	// scenario
	emit     map[string]gstr // generated file -> text
	files    []string
	paths    map[string]string   // file -> import path
	skipped  map[string]bool     // generated files taken back
	imported map[string][]string // generated file -> imports
	genProg  *ssa.Program
	path2    string // the element whose options vary
	plugin   gv
	depth    int
	conds    []string
	posNow   token.Pos
	errs     []string
	ran      int                    // runs of the plugin protocol
	ppkg     map[interface{}]string // the proto package of a *gMsg or *gEnum, if not the usual one
	names    map[string]bool        // known names of schema elements
	reverse  bool                   // maps are iterated backwards
	asked    int                    // values of the environment read
}

func lit(s string) gstr {
	if s == "" {
		return nil
	}
	return gstr{{s, false}}
}

func atomStr(s string) gstr { return gstr{{s, true}} }

func (s gstr) cat(t gstr) gstr {
	out := append(gstr(nil), s...)
	for _, x := range t {
		if n := len(out); n > 0 && !x.atom && !out[n-1].atom {
			out[n-1].s += x.s
			continue
		}
		out = append(out, x)
	}
	return out
}

func (s gstr) isLit() (string, bool) {
	switch len(s) {
	case 0:
		return "", true
	case 1:
		if !s[0].atom {
			return s[0].s, true
		}
	}
	return "", false
}

// text renders atoms as their own (identifier-like) names.
func (s gstr) text() string {
	var b strings.Builder
	for _, x := range s {
		b.WriteString(x.s)
	}
	return b.String()
}

func (s gstr) key() string {
	var b strings.Builder
	for _, x := range s {
		if x.atom {
			b.WriteString("‹" + x.s + "›")
		} else {
			b.WriteString(x.s)
		}
	}
	return b.String()
}

func gk(k int64) gint { return gint{known: true, k: k} }
func gb(v bool) gbool { return gbool{known: true, v: v} }

// decide asks for the truth of a condition; unknown ones fork the analysis.
func (g *ginterp) decide(b gbool) bool {
	if b.known {
		return b.v
	}
	a, neg := b.atom, false
	for strings.HasPrefix(a, "!") {
		a, neg = a[1:], !neg
	}
	v, ok := g.made[a]
	if !ok {
		if g.used < len(g.choices) {
			v = g.choices[g.used]
		} else {
			v = false
			g.choices = append(g.choices, v)
		}
		g.used++
		g.made[a] = v
		g.order = append(g.order, a)
	}
	return v != neg
}

func (g *ginterp) not(b gbool) gbool {
	if b.known {
		return gb(!b.v)
	}
	if strings.HasPrefix(b.atom, "!") {
		return gbool{atom: b.atom[1:]}
	}
	return gbool{atom: "!" + b.atom}
}

func (g *ginterp) zero(t types.Type) gv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return gb(false)
		case u.Info()&types.IsString != 0:
			return gstr(nil)
		case u.Info()&types.IsInteger != 0:
			return gk(0)
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return gopq{what: "zero " + t.String()}
	case *types.Struct:
		s := gstruct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, &gloc{v: g.zero(u.Field(i).Type()), name: u.Field(i).Name()})
		}
		return s
	case *types.Array:
		a := garr{}
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			a.e = append(a.e, &gloc{v: g.zero(u.Elem())})
		}
		return a
	case *types.Slice:
		return gslice{nil: true}
	case *types.Map:
		return gmapp{}
	case *types.Pointer:
		return gptr{}
	case *types.Signature:
		return gfunc{}
	case *types.Interface:
		return giface{}
	}
	return gopq{what: "zero " + t.String()}
}

// cp copies a value (structs and arrays are values).
func cp(v gv) gv {
	switch x := v.(type) {
	case gstruct:
		s := gstruct{t: x.t}
		for _, l := range x.f {
			s.f = append(s.f, &gloc{v: cp(l.v), name: l.name})
		}
		return s
	case garr:
		a := garr{}
		for _, l := range x.e {
			a.e = append(a.e, &gloc{v: cp(l.v)})
		}
		return a
	}
	return v
}

func (g *ginterp) load(l *gloc) gv {
	if l == nil {
		panic(gpanic{"nil pointer dereference"})
	}
	return cp(l.v)
}

func (g *ginterp) store(l *gloc, v gv) {
	if l == nil {
		panic(gpanic{"nil pointer dereference"})
	}
	switch x := v.(type) {
	case gstruct:
		if old, ok := l.v.(gstruct); ok && len(old.f) == len(x.f) {
			for i := range x.f {
				g.store(old.f[i], x.f[i].v)
			}
			return
		}
	case garr:
		if old, ok := l.v.(garr); ok && len(old.e) == len(x.e) {
			for i := range x.e {
				g.store(old.e[i], x.e[i].v)
			}
			return
		}
	}
	l.v = cp(v)
}

// stripCommon takes off what two strings begin and end with.
func stripCommon(x, y gstr) (gstr, gstr) {
	x, y = append(gstr(nil), x...), append(gstr(nil), y...)
	for len(x) > 0 && len(y) > 0 {
		a, b := x[0], y[0]
		if a.atom != b.atom || a.atom && a.s != b.s {
			break
		}
		n := 0
		for n < len(a.s) && n < len(b.s) && a.s[n] == b.s[n] {
			n++
		}
		full := n == len(a.s) || n == len(b.s)
		x[0].s, y[0].s = a.s[n:], b.s[n:]
		if x[0].s == "" {
			x = x[1:]
		}
		if y[0].s == "" {
			y = y[1:]
		}
		if !full || n == 0 {
			break
		}
	}
	for len(x) > 0 && len(y) > 0 {
		a, b := x[len(x)-1], y[len(y)-1]
		if a.atom != b.atom || a.atom && a.s != b.s {
			break
		}
		n := 0
		for n < len(a.s) && n < len(b.s) && a.s[len(a.s)-1-n] == b.s[len(b.s)-1-n] {
			n++
		}
		full := n == len(a.s) || n == len(b.s)
		x[len(x)-1].s, y[len(y)-1].s = a.s[:len(a.s)-n], b.s[:len(b.s)-n]
		if x[len(x)-1].s == "" {
			x = x[:len(x)-1]
		}
		if y[len(y)-1].s == "" {
			y = y[:len(y)-1]
		}
		if !full || n == 0 {
			break
		}
	}
	return x, y
}

func (g *ginterp) eq(a, b gv) gbool {
	switch x := a.(type) {
	case gint:
		y, ok := b.(gint)
		if !ok {
			break
		}
		if x.known && y.known {
			return gb(x.k == y.k)
		}
		if !x.known && !y.known && x.atom == y.atom {
			return gb(true)
		}
		// a number of the schema stands for all that the generator does not single out
		if n, err := strconv.ParseInt(x.atom+y.atom, 10, 64); err == nil && x.known != y.known {
			return gb(n == x.k+y.k)
		}
		return gbool{atom: fmt.Sprintf("%s == %s", showGint(x), showGint(y))}
	case gbool:
		y, ok := b.(gbool)
		if !ok {
			break
		}
		return gb(g.decide(x) == g.decide(y))
	case gstr:
		y, ok := b.(gstr)
		if !ok {
			break
		}
		xs, xl := x.isLit()
		ys, yl := y.isLit()
		switch {
		case xl && yl:
			return gb(xs == ys)
		case x.key() == y.key():
			return gb(true)
		case strings.Contains(x.key()+y.key(), envMark):
			return gbool{atom: x.key() + " == " + y.key()}
		case xl && xs == "" || yl && ys == "":
			return gb(false) // atoms are not empty
		}
		x, y = stripCommon(x, y)
		xs, xl = x.isLit()
		ys, yl = y.isLit()
		switch {
		case xl && yl:
			return gb(xs == ys)
		case xl && xs == "" || yl && ys == "":
			return gb(false)
		case !x[0].atom && !y[0].atom, !x[len(x)-1].atom && !y[len(y)-1].atom:
			return gb(false) // they differ in a known character
		case len(x) == 1 && len(y) == 1 && x[0].atom && y[0].atom:
			return gb(false) // different names
		case len(x) == 1 && len(y) == 1 && (g.names[xs] || g.names[ys]):
			return gb(false) // a name of another file
		}
		return gbool{atom: x.key() + " == " + y.key()}
	case giface:
		y, ok := b.(giface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return gb(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return gb(false)
		}
		return g.eq(x.v, y.v)
	case gptr:
		if y, ok := b.(gptr); ok {
			return gb(x.l == y.l)
		}
	case gfunc:
		if y, ok := b.(gfunc); ok && (x.fn == nil || y.fn == nil) {
			return gb(x.fn == y.fn)
		}
	case gslice:
		if y, ok := b.(gslice); ok && (x.nil || y.nil) {
			return gb(x.nil == y.nil)
		}
	case gmapp:
		if y, ok := b.(gmapp); ok {
			return gb(x.m == y.m)
		}
	case *gdesc:
		if y, ok := b.(*gdesc); ok {
			return gb(x == y)
		}
	case gstruct:
		y, ok := b.(gstruct)
		if !ok || len(x.f) != len(y.f) {
			break
		}
		for i := range x.f {
			if !g.decide(g.eq(x.f[i].v, y.f[i].v)) {
				return gb(false)
			}
		}
		return gb(true)
	case garr:
		y, ok := b.(garr)
		if !ok {
			break
		}
		for i := range x.e {
			if !g.decide(g.eq(x.e[i].v, y.e[i].v)) {
				return gb(false)
			}
		}
		return gb(true)
	case gopq:
		if x.what == "options" { // descriptor options: nil or not
			return gbool{atom: "no options"}
		}
	case nil:
		return gb(b == nil)
	}
	giveUp("generator: comparison of %T and %T", a, b)
	panic("unreachable")
}

func showGint(x gint) string {
	if x.known {
		return strconv.FormatInt(x.k, 10)
	}
	return x.atom
}

type gframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]gv
	bind   []gv
	defers []func()
}

func (g *ginterp) get(fr *gframe, v ssa.Value) gv {
	switch x := v.(type) {
	case *ssa.Const:
		return g.constant(x)
	case *ssa.Function:
		return gfunc{fn: x}
	case *ssa.Global:
		return gptr{g.global(x)}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.bind[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		giveUp("generator: no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (g *ginterp) global(x *ssa.Global) *gloc {
	l := g.globals[x]
	if l == nil {
		l = &gloc{name: x.String()}
		g.globals[x] = l
		t := x.Type().(*types.Pointer).Elem()
		if g.p.repo[x.Pkg.Pkg] {
			l.v = g.zero(t)
			g.initPkg(x.Pkg)
		} else if x.String() == "os.Args" {
			l.v = gslice{e: []*gloc{{v: atomStr("program_name")}}}
		} else {
			l.v = gopq{what: "global " + x.String()}
		}
	}
	return l
}

func (g *ginterp) initPkg(pk *ssa.Package) {
	if g.inited[pk] {
		return
	}
	g.inited[pk] = true
	f := pk.Func("init")
	if f == nil {
		return
	}
	g.run(f, nil, nil)
}

func (g *ginterp) constant(c *ssa.Const) gv {
	if c.Value == nil {
		return g.zero(c.Type())
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return gopq{what: "float " + c.Value.ExactString()}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return gb(constant.BoolVal(c.Value))
	case constant.String:
		return lit(constant.StringVal(c.Value))
	case constant.Int:
		if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return gk(k)
		}
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return gk(int64(u))
		}
	}
	return gopq{what: "constant"}
}

// call runs a function value.
func (g *ginterp) call(f gfunc, args []gv) []gv {
	if f.fn == nil {
		panic(gpanic{"call of a nil function"})
	}
	g.calls++
	if g.genProg != nil && f.fn.Prog == g.genProg {
		return g.run(f.fn, args, f.bind)
	}
	name := originName(f.fn)
	if out, ok := g.model(f.fn, name, args); ok {
		return out
	}
	return g.run(f.fn, args, f.bind)
}

func (g *ginterp) run(fn *ssa.Function, args []gv, bind []gv) []gv {
	if fn.Blocks == nil {
		giveUp("generator: call of %s, whose source is not available", fn)
	}
	g.depth++
	if g.depth > 200 {
		giveUp("generator: recursion too deep in %s", fn)
	}
	defer func() { g.depth-- }()
	if g.p.inRepo(fn) {
		g.fns[fn] = true
	}
	fr := &gframe{fn: fn, env: map[ssa.Value]gv{}, bind: bind}
	for i, prm := range fn.Params {
		fr.env[prm] = args[i]
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var next *ssa.BasicBlock
		// phis are simultaneous
		var phis []gv
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pb := range b.Preds {
				if pb == prev {
					phis = append(phis, g.get(fr, ph.Edges[i]))
					break
				}
			}
		}
		for i, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				fr.env[ph] = phis[i]
				continue
			}
			checkStop()
			g.budget--
			g.instrs++
			if g.budget < 0 {
				giveUp("generator: the analysis of %s takes too long", fn)
			}
			if ins.Pos().IsValid() && g.p.inRepo(fn) {
				g.posNow = ins.Pos()
			}
			switch x := ins.(type) {
			case *ssa.Return:
				var out []gv
				for _, r := range x.Results {
					out = append(out, g.get(fr, r))
				}
				return out
			case *ssa.If:
				i := 1
				if g.decide(g.get(fr, x.Cond).(gbool)) {
					i = 0
				}
				next = b.Succs[i]
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Panic:
				panic(gpanic{"panic in " + fn.String()})
			default:
				g.instr(fr, ins)
			}
		}
		prev, b = b, next
		if b == nil {
			return nil
		}
	}
}

func (g *ginterp) instr(fr *gframe, ins ssa.Instruction) {
	set := func(v ssa.Value, x gv) { fr.env[v] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(x, gptr{&gloc{v: g.zero(x.Type().(*types.Pointer).Elem()), name: x.Comment}})
	case *ssa.BinOp:
		set(x, g.binop(x.Op, g.get(fr, x.X), g.get(fr, x.Y), x.X.Type()))
	case *ssa.UnOp:
		v := g.get(fr, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := v.(gptr)
			if !ok {
				giveUp("generator: load through %T in %s", v, fr.fn)
			}
			set(x, g.load(p.l))
		case token.NOT:
			set(x, g.not(v.(gbool)))
		case token.SUB:
			n := v.(gint)
			if n.known {
				set(x, gk(-n.k))
			} else {
				set(x, gint{atom: "-" + n.atom})
			}
		default:
			giveUp("generator: unary %s in %s", x.Op, fr.fn)
		}
	case *ssa.ChangeInterface:
		set(x, g.get(fr, x.X))
	case *ssa.ChangeType:
		set(x, g.get(fr, x.X))
	case *ssa.Convert:
		set(x, g.convert(g.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		set(x, giface{x.X.Type(), cp(g.get(fr, x.X))})
	case *ssa.MakeClosure:
		f := gfunc{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, g.get(fr, b))
		}
		set(x, f)
	case *ssa.MakeMap:
		set(x, gmapp{&gmapv{}})
	case *ssa.MakeSlice:
		n := g.get(fr, x.Len).(gint)
		if !n.known {
			giveUp("generator: make with an unknown length in %s", fr.fn)
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		s := gslice{}
		for i := int64(0); i < n.k; i++ {
			s.e = append(s.e, &gloc{v: g.zero(el)})
		}
		set(x, s)
	case *ssa.FieldAddr:
		p := g.get(fr, x.X).(gptr)
		if p.l == nil {
			panic(gpanic{"nil pointer dereference"})
		}
		s, ok := p.l.v.(gstruct)
		if !ok {
			giveUp("generator: field of %s in %s", p.l.name, fr.fn)
		}
		set(x, gptr{s.f[x.Field]})
	case *ssa.Field:
		s, ok := g.get(fr, x.X).(gstruct)
		if !ok {
			giveUp("generator: field of an opaque value in %s", fr.fn)
		}
		set(x, cp(s.f[x.Field].v))
	case *ssa.IndexAddr:
		i := g.get(fr, x.Index).(gint)
		if !i.known {
			giveUp("generator: unknown index in %s", fr.fn)
		}
		var e []*gloc
		switch b := g.get(fr, x.X).(type) {
		case gslice:
			e = b.e
		case gptr:
			if a, ok := b.l.v.(garr); ok {
				e = a.e
			} else {
				giveUp("generator: index of %s", b.l.name)
			}
		default:
			giveUp("generator: index of %T in %s", b, fr.fn)
		}
		if i.k < 0 || i.k >= int64(len(e)) {
			panic(gpanic{"index out of range"})
		}
		set(x, gptr{e[i.k]})
	case *ssa.Index:
		i := g.get(fr, x.Index).(gint)
		switch b := g.get(fr, x.X).(type) {
		case garr:
			if i.known && i.k >= 0 && i.k < int64(len(b.e)) {
				set(x, cp(b.e[i.k].v))
				return
			}
		case gstr:
			set(x, g.strIndex(b, i))
			return
		}
		giveUp("generator: index in %s", fr.fn)
	case *ssa.Lookup:
		switch b := g.get(fr, x.X).(type) {
		case gstr:
			set(x, g.strIndex(b, g.get(fr, x.Index).(gint)))
		case gmapp:
			k := g.get(fr, x.Index)
			var v gv
			ok := false
			if b.m != nil {
				for i := range b.m.keys {
					if g.decide(g.eq(b.m.keys[i], k)) {
						v, ok = cp(b.m.vals[i]), true
					}
				}
			}
			if !ok {
				v = g.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				set(x, []gv{v, gb(ok)})
			} else {
				set(x, v)
			}
		default:
			giveUp("generator: lookup in %T in %s", b, fr.fn)
		}
	case *ssa.MapUpdate:
		m, _ := g.get(fr, x.Map).(gmapp)
		if m.m == nil {
			panic(gpanic{"assignment to entry in nil map"})
		}
		k, v := cp(g.get(fr, x.Key)), cp(g.get(fr, x.Value))
		for i := range m.m.keys {
			if g.decide(g.eq(m.m.keys[i], k)) {
				m.m.vals[i] = v
				return
			}
		}
		m.m.keys = append(m.m.keys, k)
		m.m.vals = append(m.m.vals, v)
	case *ssa.Range:
		switch b := g.get(fr, x.X).(type) {
		case gmapp:
			it := &giter{}
			if b.m != nil {
				it.keys = append(it.keys, b.m.keys...)
				it.vals = append(it.vals, b.m.vals...)
			}
			if g.reverse {
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
					it.vals[i], it.vals[j] = it.vals[j], it.vals[i]
				}
			}
			set(x, it)
		case gstr:
			s, ok := b.isLit()
			if !ok {
				giveUp("generator: range over the characters of %s in %s", b.key(), fr.fn)
			}
			it := &giter{str: true}
			for i, r := range s {
				it.keys = append(it.keys, gk(int64(i)))
				it.vals = append(it.vals, gk(int64(r)))
			}
			set(x, it)
		default:
			giveUp("generator: range over %T in %s", b, fr.fn)
		}
	case *ssa.Next:
		it := g.get(fr, x.Iter).(*giter)
		if it.i < len(it.keys) {
			set(x, []gv{gb(true), it.keys[it.i], it.vals[it.i]})
			it.i++
		} else {
			set(x, []gv{gb(false), gk(0), gk(0)})
		}
	case *ssa.Extract:
		set(x, g.get(fr, x.Tuple).([]gv)[x.Index])
	case *ssa.Slice:
		set(x, g.slice(fr, x))
	case *ssa.Store:
		p, ok := g.get(fr, x.Addr).(gptr)
		if !ok {
			giveUp("generator: store in %s", fr.fn)
		}
		g.store(p.l, g.get(fr, x.Val))
	case *ssa.TypeAssert:
		i, ok := g.get(fr, x.X).(giface)
		if !ok {
			giveUp("generator: type assertion on an opaque value in %s", fr.fn)
		}
		good := false
		var v gv = i.v
		if i.t != nil {
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				if _, d := i.v.(*gdesc); d {
					good = true
				} else {
					good = types.Implements(i.t, it)
				}
				v = i
			} else {
				good = types.Identical(i.t, x.AssertedType)
			}
		}
		if !good {
			v = g.zero(x.AssertedType)
		}
		if x.CommaOk {
			set(x, []gv{v, gb(good)})
		} else {
			if !good {
				panic(gpanic{fmt.Sprintf("interface conversion to %s fails", x.AssertedType)})
			}
			set(x, v)
		}
	case *ssa.Call:
		out := g.callCommon(fr, &x.Call)
		switch x.Call.Signature().Results().Len() {
		case 0:
			if len(out) == 1 {
				set(x, out[0])
			}
		case 1:
			set(x, out[0])
		default:
			set(x, out)
		}
	case *ssa.Defer:
		c := x.Call
		f, args := g.prep(fr, &c)
		fr.defers = append(fr.defers, func() { g.invoke(f, args, &c) })
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			fr.defers[i]()
		}
		fr.defers = nil
	default:
		giveUp("generator: %T in %s", ins, fr.fn)
	}
}

func (g *ginterp) strIndex(s gstr, i gint) gv {
	t, ok := s.isLit()
	if ok && i.known {
		if i.k < 0 || i.k >= int64(len(t)) {
			panic(gpanic{"index out of range"})
		}
		return gk(int64(t[i.k]))
	}
	if i.known && len(s) > 0 && !s[0].atom && i.k < int64(len(s[0].s)) {
		return gk(int64(s[0].s[i.k]))
	}
	return gint{atom: fmt.Sprintf("%s[%s]", s.key(), showGint(i))}
}

func (g *ginterp) slice(fr *gframe, x *ssa.Slice) gv {
	idx := func(v ssa.Value, d int64) gint {
		if v == nil {
			return gk(d)
		}
		return g.get(fr, v).(gint)
	}
	switch b := g.get(fr, x.X).(type) {
	case gstr:
		s, ok := b.isLit()
		lo := idx(x.Low, 0)
		if !ok {
			if lo.known && lo.k == 0 && x.High == nil {
				return b
			}
			// a constant prefix may be cut off
			if lo.known && x.High == nil && len(b) > 0 && !b[0].atom && lo.k <= int64(len(b[0].s)) {
				return lit(b[0].s[lo.k:]).cat(b[1:])
			}
			return atomStr(fmt.Sprintf("part_of_%s", b.text()))
		}
		hi := idx(x.High, int64(len(s)))
		if lo.known && hi.known {
			if lo.k < 0 || hi.k < lo.k || hi.k > int64(len(s)) {
				panic(gpanic{"slice out of range"})
			}
			return lit(s[lo.k:hi.k])
		}
	case gslice:
		lo, hi := idx(x.Low, 0), idx(x.High, int64(len(b.e)))
		if lo.known && hi.known {
			if lo.k < 0 || hi.k < lo.k || hi.k > int64(cap(b.e)) {
				panic(gpanic{"slice out of range"})
			}
			r := gslice{e: b.e[lo.k:hi.k], nil: b.nil}
			if x.Max != nil {
				mx := idx(x.Max, 0)
				if !mx.known {
					break
				}
				r.e = b.e[lo.k:hi.k:mx.k]
			}
			return r
		}
	case gptr:
		if b.l != nil {
			if a, ok := b.l.v.(garr); ok {
				lo, hi := idx(x.Low, 0), idx(x.High, int64(len(a.e)))
				if lo.known && hi.known {
					return gslice{e: a.e[lo.k:hi.k]}
				}
			}
		}
	case gopq: // unknown bytes: shorter after each cut
		return gopq{what: b.what, n: b.n + 1}
	}
	giveUp("generator: slice expression in %s", fr.fn)
	panic("unreachable")
}

func (g *ginterp) convert(v gv, from, to types.Type) gv {
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	switch x := v.(type) {
	case gint:
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			if !x.known {
				if sizeof(to) >= sizeof(from) || sizeof(to) >= 4 {
					return x // descriptor numbers are positive and below 2^31
				}
				return gint{atom: fmt.Sprintf("%s(%s)", tb.Name(), x.atom)}
			}
			switch tb.Kind() {
			case types.Int8:
				return gk(int64(int8(x.k)))
			case types.Uint8:
				return gk(int64(uint8(x.k)))
			case types.Int16:
				return gk(int64(int16(x.k)))
			case types.Uint16:
				return gk(int64(uint16(x.k)))
			case types.Int32:
				return gk(int64(int32(x.k)))
			case types.Uint32:
				return gk(int64(uint32(x.k)))
			}
			return x
		}
		if tb != nil && tb.Info()&types.IsString != 0 && x.known {
			return lit(string(rune(x.k)))
		}
	case gstr:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return x
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s, isL := x.isLit()
			r := gslice{}
			if sizeof(sl.Elem()) == 1 {
				r.e = bytesOf(x)
			} else {
				if !isL {
					return gopq{what: "characters of " + x.key()}
				}
				for _, c := range s {
					r.e = append(r.e, &gloc{v: gk(int64(c))})
				}
			}
			return r
		}
	case gslice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			var b []byte
			var rs []rune
			var out gstr
			byteSized := sizeof(from.Underlying().(*types.Slice).Elem()) == 1
			for _, l := range x.e {
				if c, ok := l.v.(gseg); ok && byteSized {
					out = out.cat(lit(string(b))).cat(gstr{c})
					b = nil
					continue
				}
				k, ok := l.v.(gint)
				if !ok || !k.known {
					giveUp("generator: string of unknown characters")
				}
				b = append(b, byte(k.k))
				rs = append(rs, rune(k.k))
			}
			if byteSized {
				return out.cat(lit(string(b)))
			}
			return lit(string(rs))
		}
	case gopq:
		if strings.HasPrefix(x.what, "characters of ") && x.n == 0 && tb != nil && tb.Info()&types.IsString != 0 {
			giveUp("generator: bytes of a name converted back")
		}
		return x
	}
	_ = fb
	giveUp("generator: conversion from %s to %s", from, to)
	panic("unreachable")
}

func (g *ginterp) binop(op token.Token, a, b gv, t types.Type) gv {
	switch op {
	case token.EQL:
		return g.eq(a, b)
	case token.NEQ:
		return g.not(g.eq(a, b))
	}
	switch x := a.(type) {
	case gstr:
		y := b.(gstr)
		if op == token.ADD {
			return x.cat(y)
		}
		xs, ok1 := x.isLit()
		ys, ok2 := y.isLit()
		if !ok1 || !ok2 {
			return gbool{atom: x.key() + " " + op.String() + " " + y.key()}
		}
		switch op {
		case token.LSS:
			return gb(xs < ys)
		case token.LEQ:
			return gb(xs <= ys)
		case token.GTR:
			return gb(xs > ys)
		case token.GEQ:
			return gb(xs >= ys)
		}
	case gint:
		y, ok := b.(gint)
		if !ok {
			break
		}
		cmp := op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ
		if !x.known || !y.known {
			s := fmt.Sprintf("(%s %s %s)", showGint(x), op, showGint(y))
			if cmp {
				if x.atom == y.atom && x.known == y.known {
					return gb(op == token.LEQ || op == token.GEQ)
				}
				switch op { // one form per comparison
				case token.GTR:
					return gbool{atom: fmt.Sprintf("%s < %s", showGint(y), showGint(x))}
				case token.GEQ:
					return gbool{atom: fmt.Sprintf("!%s < %s", showGint(x), showGint(y))}
				case token.LEQ:
					return gbool{atom: fmt.Sprintf("!%s < %s", showGint(y), showGint(x))}
				}
				return gbool{atom: fmt.Sprintf("%s < %s", showGint(x), showGint(y))}
			}
			return gint{atom: s}
		}
		switch op {
		case token.ADD:
			return gk(x.k + y.k)
		case token.SUB:
			return gk(x.k - y.k)
		case token.MUL:
			return gk(x.k * y.k)
		case token.QUO:
			if y.k == 0 {
				panic(gpanic{"division by zero"})
			}
			return gk(x.k / y.k)
		case token.REM:
			if y.k == 0 {
				panic(gpanic{"division by zero"})
			}
			return gk(x.k % y.k)
		case token.AND:
			return gk(x.k & y.k)
		case token.OR:
			return gk(x.k | y.k)
		case token.XOR:
			return gk(x.k ^ y.k)
		case token.AND_NOT:
			return gk(x.k &^ y.k)
		case token.SHL:
			return gk(x.k << uint(y.k))
		case token.SHR:
			return gk(x.k >> uint(y.k))
		case token.LSS:
			return gb(x.k < y.k)
		case token.LEQ:
			return gb(x.k <= y.k)
		case token.GTR:
			return gb(x.k > y.k)
		case token.GEQ:
			return gb(x.k >= y.k)
		}
	}
	giveUp("generator: %T %s %T", a, op, b)
	panic("unreachable")
}

func (g *ginterp) prep(fr *gframe, c *ssa.CallCommon) (gv, []gv) {
	var args []gv
	for _, a := range c.Args {
		args = append(args, g.get(fr, a))
	}
	return g.get(fr, c.Value), args
}

func (g *ginterp) callCommon(fr *gframe, c *ssa.CallCommon) []gv {
	f, args := g.prep(fr, c)
	return g.invoke(f, args, c)
}

func (g *ginterp) invoke(f gv, args []gv, c *ssa.CallCommon) []gv {
	if c.IsInvoke() {
		i, ok := f.(giface)
		if !ok {
			giveUp("generator: method %s of an opaque value", c.Method.Name())
		}
		return g.method(i, c.Method.Name(), args, c.Signature())
	}
	switch x := f.(type) {
	case *ssa.Builtin:
		return g.builtin(x, args, c)
	case gfunc:
		return g.call(x, args)
	}
	giveUp("generator: call of %T", f)
	panic("unreachable")
}

func (g *ginterp) method(i giface, name string, args []gv, sig *types.Signature) []gv {
	if i.t == nil {
		panic(gpanic{"method call on a nil interface"})
	}
	if d, ok := i.v.(*gdesc); ok {
		return d.method(g, name, args)
	}
	if o, ok := i.v.(gopq); ok {
		if out, ok := g.opaqueMethod(o, name, args); ok {
			return out
		}
	}
	prog := g.p.prog
	if g.genProg != nil {
		prog = g.genProg
	}
	fn := prog.LookupMethod(i.t, nil, name)
	if fn == nil {
		var pkg *types.Package
		if n, ok := types.Unalias(i.t).(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
		fn = prog.LookupMethod(i.t, pkg, name)
	}
	if fn == nil {
		giveUp("generator: method %s of %s", name, i.t)
	}
	return g.call(gfunc{fn: fn}, append([]gv{i.v}, args...))
}

func (g *ginterp) builtin(b *ssa.Builtin, args []gv, c *ssa.CallCommon) []gv {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case gslice:
			for _, l := range x.e {
				if c, ok := l.v.(gseg); ok {
					return []gv{gint{atom: "len(bytes with " + c.s + ")"}}
				}
			}
			return []gv{gk(int64(len(x.e)))}
		case garr:
			return []gv{gk(int64(len(x.e)))}
		case gmapp:
			if x.m == nil {
				return []gv{gk(0)}
			}
			return []gv{gk(int64(len(x.m.keys)))}
		case gstr:
			if s, ok := x.isLit(); ok {
				return []gv{gk(int64(len(s)))}
			}
			return []gv{gint{atom: "len(" + x.key() + ")"}}
		case gopq:
			if x.n >= 2 { // unknown fields: at most one record
				return []gv{gk(0)}
			}
			return []gv{gint{atom: "len(" + x.what + ")"}}
		}
	case "append":
		s, ok := args[0].(gslice)
		if !ok {
			break
		}
		switch y := args[1].(type) {
		case gslice:
			out := s.e[:len(s.e):len(s.e)]
			for _, l := range y.e {
				out = append(out, &gloc{v: cp(l.v)})
			}
			return []gv{gslice{e: out, nil: s.nil && len(y.e) == 0}}
		case gstr:
			// a name stands as one element among the bytes
			out := append(s.e[:len(s.e):len(s.e)], bytesOf(y)...)
			return []gv{gslice{e: out, nil: s.nil && len(y) == 0}}
		}
	case "copy":
		d, ok1 := args[0].(gslice)
		s, ok2 := args[1].(gslice)
		if ok1 && ok2 {
			n := min(len(d.e), len(s.e))
			var tmp []gv
			for i := 0; i < n; i++ {
				tmp = append(tmp, cp(s.e[i].v))
			}
			for i := 0; i < n; i++ {
				g.store(d.e[i], tmp[i])
			}
			return []gv{gk(int64(n))}
		}
	case "delete":
		m, _ := args[0].(gmapp)
		if m.m == nil {
			return nil
		}
		for i := range m.m.keys {
			if g.decide(g.eq(m.m.keys[i], args[1])) {
				m.m.keys = append(m.m.keys[:i:i], m.m.keys[i+1:]...)
				m.m.vals = append(m.m.vals[:i:i], m.m.vals[i+1:]...)
				break
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(gpanic{"panic"})
	case "recover":
		return []gv{giface{}}
	case "min", "max":
		r := args[0].(gint)
		for _, a := range args[1:] {
			y := a.(gint)
			if !r.known || !y.known {
				giveUp("generator: %s of unknown values", b.Name())
			}
			if (b.Name() == "min") == (y.k < r.k) {
				r = y
			}
		}
		return []gv{r}
	case "ssa:wrapnilchk":
		return args[:1]
	}
	giveUp("generator: builtin %s of %T", b.Name(), args[0])
	panic("unreachable")
}

// explore runs f once per combination of unknown conditions.
func (p *Program) explore(mk func() *ginterp, limit int, f func(g *ginterp)) (paths int) {
	var script []bool
	for {
		g := mk()
		g.p = p
		g.choices = append([]bool(nil), script...)
		f(g)
		paths++
		if paths > limit {
			giveUp("generator: too many combinations of unknown conditions (%s ...)", strings.Join(g.order[:min(len(g.order), 4)], ", "))
		}
		// next combination
		n := g.used
		script = g.choices[:n]
		for n > 0 && script[n-1] {
			n--
		}
		if n == 0 {
			return paths
		}
		script = append([]bool(nil), script[:n]...)
		script[n-1] = true
	}
}

func sortedNames[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func bytesOf(s gstr) []*gloc {
	var out []*gloc
	for _, x := range s {
		if x.atom {
			out = append(out, &gloc{v: x})
			continue
		}
		for i := 0; i < len(x.s); i++ {
			out = append(out, &gloc{v: gk(int64(x.s[i]))})
		}
	}
	return out
}
