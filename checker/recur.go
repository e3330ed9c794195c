package main

// Recursion over the input (C22): the call graph reachable from Unmarshal is
// built from static callees, with calls through function values resolved to
// every function of the repository of the same signature whose address is
// taken. A cycle that handles input and has no depth guard can be driven as
// deep as the input is long.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (p *Program) callGraph(root *ssa.Function) map[*ssa.Function][]*ssa.Function {
	taken := map[string][]*ssa.Function{}
	seenTaken := map[*ssa.Function]bool{}
	var all []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var collect func(f *ssa.Function)
	collect = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.inRepo(f) {
			return
		}
		seen[f] = true
		all = append(all, f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isCall := i.(ssa.CallInstruction); !isCall || c.Common().Value != g || isArg(c.Common(), g) {
							if !seenTaken[g] {
								seenTaken[g] = true
								k := sigKey(g.Signature)
								taken[k] = append(taken[k], g)
							}
						}
						collect(g)
					}
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		sp := p.prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				collect(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						collect(p.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	g := map[*ssa.Function][]*ssa.Function{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if _, ok := g[f]; ok || f.Blocks == nil {
			return
		}
		g[f] = nil
		add := func(c *ssa.Function) {
			if !p.inRepo(c) {
				return
			}
			for _, x := range g[f] {
				if x == c {
					return
				}
			}
			g[f] = append(g[f], c)
			visit(c)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				switch v := cc.Value.(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				case *ssa.Builtin:
				default:
					if cc.IsInvoke() {
						for h := range seen {
							if h.Signature.Recv() != nil && h.Name() == cc.Method.Name() && types.Implements(h.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
								add(h)
							}
						}
						continue
					}
					for _, h := range taken[sigKey(cc.Signature())] {
						add(h)
					}
				}
				for _, a := range cc.Args { // handed to library code that may call it
					if cl, ok := a.(*ssa.MakeClosure); ok {
						if cal := cc.StaticCallee(); cal != nil && !p.inRepo(cal) {
							add(cl.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
	}
	visit(root)
	return g
}

func isArg(c *ssa.CallCommon, g *ssa.Function) bool {
	for _, a := range c.Args {
		if a == ssa.Value(g) {
			return true
		}
	}
	return false
}

func sigKey(s *types.Signature) string {
	anon := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.TypeString(types.NewSignatureType(nil, nil, nil, anon(s.Params()), anon(s.Results()), s.Variadic()), nil)
}

// sccs lists the strongly connected components that contain a cycle.
func sccs(g map[*ssa.Function][]*ssa.Function) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var nodes []*ssa.Function
	for f := range g {
		nodes = append(nodes, f)
	}
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].String() < nodes[j].String() })
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, c := range g[f] {
			if c == f {
				self = true
			}
			if idx[c] == 0 {
				visit(c)
				low[f] = min(low[f], low[c])
			} else if on[c] {
				low[f] = min(low[f], idx[c])
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				comp = append(comp, x)
				if x == f {
					break
				}
			}
			if len(comp) > 1 || self {
				sort.Slice(comp, func(i, j int) bool { return comp[i].String() < comp[j].String() })
				out = append(out, comp)
			}
		}
	}
	for _, f := range nodes {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return out
}

func holdsBytes(t types.Type, depth int) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Pointer:
		return depth < 2 && holdsBytes(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields() && depth < 2; i++ {
			if holdsBytes(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// guarded: the function compares an integer it receives with a bound, and the
// recursion passes it on changed (a parameter plus or minus a constant, or a
// counter in memory that the component changes).
func guarded(f *ssa.Function, in map[*ssa.Function]bool) bool {
	steps := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		return ok && c.Value != nil && !c.IsNil() && c.Int64() != 0
	}
	compared := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					for _, rr := range *x.Referrers() {
						if _, ok := rr.(*ssa.If); ok {
							return true
						}
					}
				}
			}
		}
		return false
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	for i, prm := range f.Params {
		if !isInt(prm.Type()) {
			continue
		}
		cmp := compared(prm)
		for _, r := range *prm.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && steps(b) && compared(b) {
				cmp = true
			}
		}
		if !cmp {
			continue
		}
		// somewhere in the component the parameter is passed on changed
		for g := range in {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, a := range c.Common().Args {
						if isInt(a.Type()) && steps(a) {
							_ = i
							return true
						}
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || !steps(st.Val) {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if compared(st.Val) {
				return true
			}
			for _, b2 := range f.Blocks {
				for _, i2 := range b2.Instrs {
					if ld, ok := i2.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if fa2, ok := ld.X.(*ssa.FieldAddr); ok && fa2.Field == fa.Field && types.Identical(fa2.X.Type(), fa.X.Type()) && compared(ld) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (p *Program) recursionJob(r *jobResult) {
	root := p.protoPkg.Func("Unmarshal")
	if root == nil {
		r.undecided = "function Unmarshal not found"
		return
	}
	g := p.callGraph(root)
	for f := range g {
		r.fns[f.RelString(nil)] = true
		r.calls += len(g[f])
	}
	if os.Getenv("DBGREC") != "" {
		for f, cs := range g {
			fmt.Println(f, "->", cs)
		}
	}
	for _, comp := range sccs(g) {
		in := map[*ssa.Function]bool{}
		input, prep := false, false
		for _, f := range comp {
			in[f] = true
			for _, prm := range f.Params {
				if holdsBytes(prm.Type(), 0) {
					input = true
				}
				if p.isReflectType(prm.Type()) {
					prep = true
				}
			}
		}
		r.obl++
		if !input || prep {
			continue
		}
		// without the functions that guard the depth, is there still a cycle?
		rest := map[*ssa.Function][]*ssa.Function{}
		for _, f := range comp {
			if guarded(f, in) {
				continue
			}
			for _, c := range g[f] {
				if in[c] && !guarded(c, in) {
					rest[f] = append(rest[f], c)
				}
			}
			if _, ok := rest[f]; !ok {
				rest[f] = nil
			}
		}
		for _, c := range sccs(rest) {
			dyn := false // the cycle goes through the per-field function values
			names := ""
			cin := map[*ssa.Function]bool{}
			for _, f := range c {
				cin[f] = true
				names += f.RelString(p.protoPkg.Pkg) + " "
			}
			for _, f := range c {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if ci, ok := i.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
							if _, bi := ci.Common().Value.(*ssa.Builtin); !bi {
								dyn = true
							}
						}
					}
				}
			}
			key := "recursion|proto.Unmarshal"
			if !dyn {
				key = "recursion|" + c[0].String()
			}
			f := Finding{Rule: "recursion", Key: key, Pos: c[0].Pos(), Fn: c[0].String(), Where: r.job.name, Props: []string{"C22"},
				Msg: "decoding recurses once per nesting level of the input with no limit on the depth (" + names + ")"}
			r.findings = append(r.findings, f)
		}
	}
}

func (p *Program) isReflectType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == p.reflectP && n.Obj().Name() == "Type"
}
