package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callees returns the functions an instruction may call: static callees, closures created in the function and
// function values that are referenced. Interface calls are resolved by method name over the repository's types
// when resolve is set.
func (p *Prog) refsOf(f *ssa.Function) []*ssa.Function {
	if p.refs == nil {
		p.refs = map[*ssa.Function][]*ssa.Function{}
	}
	if r, ok := p.refs[f]; ok {
		return r
	}
	set := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					set[v] = true
				case *ssa.MakeClosure:
					set[v.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for g := range set {
		if inRepo(g) {
			out = append(out, origin(g))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	p.refs[f] = out
	return out
}

func origin(f *ssa.Function) *ssa.Function { return f }

// reach returns every repository function reachable from f through static references (and, when iface is set,
// through interface calls to methods of repository types).
func (p *Prog) reach(from []*ssa.Function, iface bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, g := range p.refsOf(f) {
			walk(g)
		}
		if iface {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
						for _, g := range p.implementers(c.Common().Method) {
							walk(g)
						}
					}
				}
			}
		}
	}
	for _, f := range from {
		walk(f)
	}
	return seen
}

// implementers returns the repository methods an interface method call can reach.
func (p *Prog) implementers(m *types.Func) []*ssa.Function {
	if p.impl == nil {
		p.impl = map[string][]*ssa.Function{}
	}
	k := m.FullName()
	if r, ok := p.impl[k]; ok {
		return r
	}
	var out []*ssa.Function
	recv := m.Type().(*types.Signature).Recv()
	it, _ := recv.Type().Underlying().(*types.Interface)
	if it != nil {
		for _, n := range p.namedTypes() {
			var t types.Type = n
			if !types.Implements(t, it) {
				t = types.NewPointer(n)
				if !types.Implements(t, it) {
					continue
				}
			}
			if f := p.SSA.LookupMethod(t, m.Pkg(), m.Name()); f != nil && inRepo(f) && f.Blocks != nil {
				out = append(out, f)
			}
		}
	}
	p.impl[k] = out
	return out
}

// namedTypes lists the repository's non-interface named types.
func (p *Prog) namedTypes() []*types.Named {
	if p.ntypes != nil {
		return p.ntypes
	}
	var rels []string
	for r := range p.ByRel {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		sc := p.ByRel[r].Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams() != nil {
				continue
			}
			if _, ok := n.Underlying().(*types.Interface); ok {
				continue
			}
			p.ntypes = append(p.ntypes, n)
		}
	}
	return p.ntypes
}

// funcsIn returns the repository functions of the packages (relative paths).
func (p *Prog) funcsIn(pkgs ...string) []*ssa.Function {
	set := map[string]bool{}
	for _, x := range pkgs {
		if p.SPkg[x] == nil {
			failAnchor("package %s not found", x)
		}
		set[x] = true
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if set[relPkgOf(f)] && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

// calls lists call instructions of a function.
func callsIn(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}
