package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C09", "other", sharedRule) }

var sharedPkgs = []string{"relapse", "relapse/ast", "relapse/auto", "relapse/combinator", "relapse/compose", "relapse/funcs",
	"relapse/intern", "relapse/interp", "relapse/mem", "relapse/name", "relapse/sets"}

// sharedRule: what is part of a grammar, of a pattern or of a state is not written after it was handed over.
func sharedRule(p *Prog, r *Report) {
	tree := treeTypes(p.Type("relapse/ast", "Grammar"))
	internPattern := p.Type("relapse/intern", "Pattern")
	imm := func(t types.Type) bool {
		n := named(t)
		if n == nil {
			return false
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return false
		}
		return n.Obj() == internPattern.Obj() || tree[n.Obj()]
	}
	var fs []*ssa.Function
	for _, f := range p.funcsIn(sharedPkgs...) {
		if strings.Contains(p.posOf(f.Pos()), ".pb.go") && !strings.HasPrefix(f.Name(), "Get") {
			continue // encoding and decoding, generated
		}
		fs = append(fs, f)
	}
	o := newOwner(p, fs, imm)
	builders := map[*ssa.Function]bool{}
	for _, t := range []string{"Grammar", "Pattern", "Space"} {
		for f := range formatMethods(p, []*ssa.Function{p.Method("relapse/ast", t, "Format")}) {
			if onlyFrom(f, func(g *ssa.Function) bool {
				return strings.EqualFold(g.Name(), "format") || strings.EqualFold(g.Name(), "formatSpace")
			}) {
				builders[f] = true // formatting changes white space, see C41
			}
		}
	}
	entry := sharedEntries(p, r)
	r.Count("functions", len(o.fs))
	immImm := func(w write) bool {
		last := w.to.path
		if i := strings.LastIndex(last, "|"); i >= 0 {
			last = last[i+1:]
		}
		if i := strings.IndexByte(last, '.'); i > 0 {
			for tn := range tree {
				if strings.HasPrefix(last, "ast."+tn.Name()+".") {
					return true
				}
			}
		}
		return strings.HasPrefix(last, "intern.Pattern.")
	}
	toImm := func(t types.Type) bool {
		if t == nil {
			return false
		}
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && imm(pt.Elem())
	}
	for _, f := range o.fs {
		var ws []write
		for _, w := range o.all[f] {
			ws = append(ws, w)
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].key() < ws[j].key() })
		for _, w := range ws {
			if builders[f] || builders[w.at.Parent()] {
				continue
			}
			about := w.imm || toImm(w.elem) || immImm(w)
			if !about {
				continue
			}
			r.Count("writes", 1)
			bad := ""
			segs := 0
			if w.to.path != "" {
				segs = strings.Count(w.to.path, "|") + 1
			}
			from := w.to.path
			switch {
			case w.to.kind == 'g' && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")):
				// before anything else runs
			case w.to.kind == 'g':
				bad = "a package variable refers to it"
			case w.to.kind == 'x':
			case segs == 0 && (w.to.kind == 'f' || w.to.kind == 'c'):
			case segs == 0 || segs == 1 && w.to.kind == 'p' && (immImm(w) || w.kind != "field") && !(w.kind == "append" && w.back && !immImm(w)):
				// the callers know
				if w.to.kind == 'p' && entry[f] {
					bad = fmt.Sprintf("it is given to %s", fname(f))
				}
			case w.kind == "append" && !immImm(w):
				// a list of something that changes: see appendedTwice
			case w.kind == "field" || w.kind == "append" || w.kind == "elem" || w.kind == "map":
				bad = "it is shared: it was read from " + pathText(from)
			}
			if bad == "" {
				continue
			}
			what := "the elements of a list"
			switch w.kind {
			case "field":
				what = w.own
			case "append":
				what = "the space behind a list"
			case "map":
				what = "a map"
			}
			r.Fail(fname(f)+": "+fname(w.at.Parent()), p.posOf(w.at.Pos()), "%s writes %s, and %s", fname(w.at.Parent()), what, bad)
		}
		r.guard(fname(f), func() { keptThenWritten(p, r, o, f) })
		r.guard(fname(f), func() { appendedTwice(p, r, o, f) })
	}
	r.Expect("functions", 1200)
	r.Expect("writes", 800)
	r.Expect("entry points", 150)
	r.Expect("lists that are kept", 70)
	r.Expect("lists that are appended to", 40)
	r.Explain("every write to a syntax tree, an interned pattern or a list of them is traced, through the calls, to what is written: it was made by the function that writes or by one that gave it away; a list that is kept is not written afterwards; and no list is appended to twice")
}

func pathText(path string) string {
	parts := strings.Split(path, "|")
	for i := range parts {
		if parts[i] == "[]" {
			parts[i] = "an element"
		}
	}
	return strings.Join(parts, ", ")
}

// sharedEntries are functions that users call with what is theirs.
func sharedEntries(p *Prog, r *Report) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.funcsIn(sharedPkgs...) {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if recv := f.Signature.Recv(); recv != nil {
			n := named(recv.Type())
			if n == nil || !n.Obj().Exported() {
				continue
			}
			switch f.Name() {
			case "String", "GoString", "Equal", "Compare", "Hash", "Walk", "Clone", "Validate", "Interpret", "HasComment", "GetComments", "GetAttachedComment", "GetContent", "Eval", "Grammar":
			default:
				continue
			}
		} else {
			rel := relPkgOf(f)
			switch rel {
			case "relapse/ast":
				if !strings.HasPrefix(f.Name(), "New") || f.Name() == "NewAppendSpace" {
					continue
				}
			case "relapse/intern":
				if f.Name() != "Interpret" && f.Name() != "Derive" && f.Name() != "Zip" {
					continue
				}
			case "relapse/sets", "relapse/funcs", "relapse/compose":
				continue
			}
		}
		out[f] = true
		r.Count("entry points", 1)
	}
	return out
}

// keptThenWritten: a list that was stored or given to a function that keeps it is not written afterwards.
func keptThenWritten(p *Prog, r *Report, o *owner, f *ssa.Function) {
	type at struct {
		site ssa.Value
		in   ssa.Instruction
		what string
	}
	var kept, written []at
	isList := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	}
	sites := func(v ssa.Value) []ssa.Value {
		var out []ssa.Value
		for x := range o.get(f, v) {
			if x.kind == 'f' && x.path == "" && x.site != nil {
				out = append(out, x.site)
			}
		}
		return out
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isList(ia.X) {
					for _, s := range sites(ia.X) {
						written = append(written, at{s, in, "an element is written"})
					}
				}
				if isList(in.Val) {
					switch in.Addr.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if o.localOnly(f, in.Addr) {
							break
						}
						for _, s := range sites(in.Val) {
							kept = append(kept, at{s, in, "it is stored"})
						}
					}
				}
			case *ssa.MapUpdate:
				if isList(in.Value) {
					for _, s := range sites(in.Value) {
						kept = append(kept, at{s, in, "it is stored"})
					}
				}
			case ssa.CallInstruction:
				c := in.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" {
						for _, s := range sites(c.Args[0]) {
							written = append(written, at{s, in, "it is copied over"})
						}
					}
					continue
				}
				if i := externWrites(c); i >= 0 && i < len(c.Args) {
					for _, s := range sites(c.Args[i]) {
						written = append(written, at{s, in, "it is sorted"})
					}
				}
				gs, _ := o.callees(f, c)
				args := argsOf(c)
				for _, g := range gs {
					for i, a := range args {
						if !isList(a) {
							continue
						}
						if o.sum[g].keeps[i] != nil || o.inResult(g, i) {
							for _, s := range sites(a) {
								kept = append(kept, at{s, in, "it is given to " + fname(g) + ", which keeps it"})
							}
						}
						for _, w := range o.sum[g].writes {
							if w.to.kind == 'p' && w.to.idx == i && w.to.path == "" && w.kind == "elem" {
								for _, s := range sites(a) {
									written = append(written, at{s, in, "it is given to " + fname(g) + ", which writes it"})
								}
								break
							}
						}
					}
				}
			}
		}
	}
	r.Count("lists that are kept", len(kept))
	for _, k := range kept {
		for _, w := range written {
			if k.site != w.site || k.in == w.in && !inLoopWithout(k.in, k.site) {
				continue
			}
			if k.in == w.in || reachesWithout(k.in, w.in, k.site) {
				r.Fail(fname(f), p.posOf(w.in.Pos()), "a list is written after it was handed over: %s, and then %s", k.what, w.what)
			}
		}
	}
}

// inResult: what the function returns contains the list it was given.
func (o *owner) inResult(g *ssa.Function, i int) bool {
	_ = i
	return false
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// reachesWithout: b may run after a, without the value being made anew in between.
func reachesWithout(a, b ssa.Instruction, site ssa.Value) bool {
	si, _ := site.(ssa.Instruction)
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, from int) bool
	walk = func(bl *ssa.BasicBlock, from int) bool {
		for i := from; i < len(bl.Instrs); i++ {
			if bl.Instrs[i] == b {
				return true
			}
			if si != nil && bl.Instrs[i] == si {
				return false
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block(), indexIn(a)+1)
}

func inLoopWithout(a ssa.Instruction, site ssa.Value) bool { return reachesWithout(a, a, site) }

// appendedTwice: no list is the start of two longer lists, which would share what is behind it.
func appendedTwice(p *Prog, r *Report, o *owner, f *ssa.Function) {
	var apps []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && isBuiltin(&c.Call, "append") && !exactCap(c.Call.Args[0], 0) {
				apps = append(apps, c)
			}
		}
	}
	r.Count("lists that are appended to", len(apps))
	for _, a := range apps {
		for _, b := range apps {
			x, y := a.Call.Args[0], b.Call.Args[0]
			if !sameLoad(x, y) {
				continue
			}
			// the list must be the same one: it is not made anew, nor its place written, in between
			if a == b && x == y {
				if si, ok := x.(ssa.Instruction); ok && !reachesWithoutStore(a, a, si, x) {
					continue
				} else if !ok && !reachesWithout(a, a, nil) {
					continue
				}
			} else if a != b && inField(x) && !goesBack(a, x) && !goesBack(b, y) && reachesWithoutStore(a, nil, nil, x) {
				// in one call or in two
			} else if a == b || !reachesWithoutStore(a, b, nil, x) {
				continue
			} else if x == y {
				if si, ok := x.(ssa.Value); ok && !reachesWithout(a, b, si) {
					continue
				}
			}
			r.Fail(fname(f), p.posOf(b.Pos()), "a list is appended to twice, and both results have the same space behind it")
		}
	}
}

// reachesWithoutStore: b may run after a without at running, or the place that the list was read from being written.
func reachesWithoutStore(a, b ssa.Instruction, at ssa.Instruction, list ssa.Value) bool {
	u, _ := list.(*ssa.UnOp)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, from int) bool
	walk = func(bl *ssa.BasicBlock, from int) bool {
		for i := from; i < len(bl.Instrs); i++ {
			in := bl.Instrs[i]
			if _, ok := in.(*ssa.Return); in == b || b == nil && ok {
				return true
			}
			if at != nil && in == at {
				return false
			}
			if st, ok := in.(*ssa.Store); ok && u != nil && sameAddr(st.Addr, u.X) {
				return false
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block(), indexIn(a)+1)
}

// treeTypes are the types of the parts of a grammar.
func treeTypes(root *types.Named) map[*types.TypeName]bool {
	out := map[*types.TypeName]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Named:
			st, ok := u.Underlying().(*types.Struct)
			if !ok || out[u.Obj()] || u.Obj().Pkg() != root.Obj().Pkg() {
				return
			}
			out[u.Obj()] = true
			for i := 0; i < st.NumFields(); i++ {
				walk(st.Field(i).Type())
			}
		}
	}
	walk(root)
	return out
}

// inField: the list is in a field of something that the function was given.
func inField(list ssa.Value) bool {
	u, ok := list.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	for v := u.X; ; {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Parameter:
			return v != u.X
		default:
			return false
		}
	}
}
