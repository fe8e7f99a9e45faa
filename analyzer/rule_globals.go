package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C10", "other", globalsRule) }

// globalsRule: what package variables refer to is not written once the program runs.
func globalsRule(p *Prog, r *Report) {
	var rels []string
	for rel := range p.ByRel {
		if strings.HasPrefix(rel, "relapse/testsuite") || strings.HasSuffix(rel, "-gen") || strings.HasPrefix(rel, "relapse/bnf") || rel == "gen" || strings.HasPrefix(rel, "gen/") {
			continue
		}
		if pk := p.ByRel[rel]; pk.Name == "main" {
			continue
		}
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	var fs []*ssa.Function
	for _, f := range p.funcsIn(rels...) {
		if pos := p.posOf(f.Pos()); strings.Contains(pos, ".pb.go") || strings.Contains(pos, ".pb.") {
			continue
		}
		fs = append(fs, f)
	}
	r.Count("packages", len(rels))
	o := newOwner(p, fs, func(t types.Type) bool { return true })
	r.Count("functions", len(o.fs))
	for _, rel := range rels {
		for _, m := range p.SPkg[rel].Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				r.Count("package variables", 1)
				_ = g
			}
		}
	}
	scope := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range o.fs {
		scope[f] = true
		for _, g := range p.refsOf(f) {
			callers[g] = append(callers[g], f)
		}
	}
	isInit := func(f *ssa.Function) bool { return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") }
	register := p.Func("relapse/funcs", "Register")
	// registering is for the user, and for what runs before anything else
	for _, f := range callers[register] {
		if !isInit(f) {
			r.Fail(fname(f), p.posOf(f.Pos()), "%s registers a function while the program runs", fname(f))
		}
		r.Count("functions that register", 1)
	}
	var before func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	before = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if isInit(f) || f == register {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Object() != nil && f.Object().Exported() || len(callers[f]) == 0 {
			return false
		}
		for _, c := range callers[f] {
			if !before(c, seen) {
				return false
			}
		}
		return true
	}
	for _, f := range o.fs {
		if before(f, map[*ssa.Function]bool{}) {
			if f.Object() == nil || !f.Object().Exported() || f == register {
				r.Count("functions that run before anything else", 1)
				continue
			}
		}
		seen := map[string]bool{}
		var ws []write
		for _, w := range o.all[f] {
			ws = append(ws, w)
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].key() < ws[j].key() })
		for _, w := range ws {
			r.Count("writes", 1)
			if w.to.kind != 'g' {
				continue
			}
			g, _ := w.to.site.(*ssa.Global)
			name := "a package variable"
			if g != nil {
				name = relPkgOf2(g) + "." + g.Name()
				if w.at.Parent() == f && w.to.path == "" && p.locked(g, o.fs) {
					r.Count("variables with a lock", 1)
					continue
				}
			}
			k := name + w.at.Parent().String()
			if seen[k] {
				continue
			}
			seen[k] = true
			r.Fail(fname(f)+": "+name, p.posOf(w.at.Pos()), "%s writes %s %s", fname(w.at.Parent()), name, pathText(w.to.path))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					elsewhere(p, r, o, f, c)
				}
			}
		}
	}
	r.Expect("packages", 25)
	r.Expect("functions", 1800)
	r.Expect("package variables", 80)
	r.Expect("writes", 10000)
	r.Explain("every write is traced, through the calls, to what is written; none is to a package variable or to what one refers to, except before the program runs, while registering functions, or with a lock held that all uses of the variable hold")
}

// elsewhere: what a package variable refers to is not given to functions outside of the repository that could write it.
func elsewhere(p *Prog, r *Report, o *owner, f *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	g := c.StaticCallee()
	if g == nil || g.Pkg == nil || inRepo(g) {
		return
	}
	for i, a := range c.Args {
		switch u := a.Type().Underlying().(type) {
		case *types.Slice:
		case *types.Map:
		case *types.Pointer:
			switch n := named(u.Elem()); {
			case n == nil:
			case n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync":
				continue
			case n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "regexp":
				continue // does not change
			}
		default:
			continue
		}
		for x := range o.get(f, a) {
			if x.kind != 'g' {
				continue
			}
			r.Count("package variables given to other packages", 1)
			if readsOnly(g, i) {
				continue
			}
			gl, _ := x.site.(*ssa.Global)
			name := "a package variable"
			if gl != nil {
				if !strings.HasPrefix(gl.Pkg.Pkg.Path(), modPath) {
					continue
				}
				name = relPkgOf2(gl) + "." + gl.Name()
			}
			r.Fail(fname(f)+": "+name, p.posOf(in.Pos()), "%s is given to %s, which may write it", name, g.String())
		}
	}
}

// readsOnly: functions elsewhere that do not write what they are given.
func readsOnly(g *ssa.Function, i int) bool {
	switch g.Pkg.Pkg.Path() {
	case "fmt":
		return i > 0 || !strings.HasPrefix(g.Name(), "F")
	case "bytes", "strings", "errors", "reflect", "unicode", "unicode/utf8":
		return g.Signature.Recv() == nil
	}
	return false
}

// locked: all uses of the variable are between Lock and Unlock of a lock, and writes not with the lock of readers.
func (p *Prog) locked(g *ssa.Global, fs []*ssa.Function) bool {
	n := 0
	var mutex ssa.Value
	for _, f := range fs {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					u, ok := in.(*ssa.UnOp)
					if !ok {
						return false
					}
					for _, ref := range *u.Referrers() {
						if _, ok := ref.(*ssa.DebugRef); ok {
							continue
						}
						n++
						w := false
						switch x := ref.(type) {
						case *ssa.MapUpdate:
							w = true
						case *ssa.Lookup:
						case *ssa.Call:
							if !isBuiltin(&x.Call, "len") && !isBuiltin(&x.Call, "delete") {
								return false
							}
							w = isBuiltin(&x.Call, "delete")
						default:
							return false
						}
						m, how := lockBefore(ref)
						if m == nil || how == "RLock" && w || mutex != nil && m != mutex {
							return false
						}
						mutex = m
					}
				}
			}
		}
	}
	return n > 0
}

// lockBefore: the lock that is held on all paths to an instruction.
func lockBefore(in ssa.Instruction) (ssa.Value, string) {
	type res struct {
		m   ssa.Value
		how string
	}
	var out *res
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i >= 0; i-- {
			c, isCall := b.Instrs[i].(*ssa.Call)
			if !isCall {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync" {
				continue
			}
			switch g.Name() {
			case "Lock", "RLock":
				x := res{c.Call.Args[0], g.Name()}
				if out != nil && *out != x {
					ok = false
				}
				out = &x
				return
			case "Unlock", "RUnlock":
				ok = false
				return
			}
		}
		if len(b.Preds) == 0 {
			ok = false
		}
		for _, pr := range b.Preds {
			if !seen[pr] {
				seen[pr] = true
				walk(pr, len(pr.Instrs)-1)
			}
		}
	}
	walk(in.Block(), indexIn(in)-1)
	if !ok || out == nil {
		return nil, ""
	}
	if _, isGlobal := out.m.(*ssa.Global); !isGlobal {
		return nil, ""
	}
	return out.m, out.how
}

func relPkgOf2(g *ssa.Global) string {
	return strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/")
}
