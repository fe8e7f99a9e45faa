package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C30: whether a grammar is recursive. The search is an induction over the patterns: what is kept about visited
// patterns is a map from pattern to a mark, and the marks are read from the code: the mark of a pattern while what
// is below it is searched (open), and the mark afterwards (closed).

func init() { register("C30", "other", ruleRecursion) }

// sameLevel tells, per kind, whether the parts of a node stand at the same level.
var sameLevel = map[string]bool{"Concat": true, "Or": true, "And": true, "ZeroOrMore": true, "Not": true, "Contains": true,
	"Optional": true, "Interleave": true, "Empty": true, "ZAny": true, "LeafNode": true, "TreeNode": false}

func ruleRecursion(p *Prog, r *Report) {
	r.Explain("The function that searches for recursion is followed for every kind of pattern, with the pattern not visited, being searched and searched before. A pattern that is being searched must be recursion, one that was searched must not; for a new one the answer must be whether one of the parts at the same level, or the pattern that is referred to, is recursion, and while those are searched the pattern must be marked as being searched. All names of the grammar must be searched.")
	root := p.Func("relapse/interp", "HasRecursion")
	h := p.recursionSearch(root)
	var vis, refs, pat *ssa.Parameter
	patT := p.Type("relapse/ast", "Pattern")
	isPat := func(t types.Type) bool { m := named(t); return m != nil && m.Obj() == patT.Obj() }
	for _, x := range h.Params {
		m, isMap := x.Type().Underlying().(*types.Map)
		switch {
		case isMap && isPat(m.Key()):
			vis = x
		case isMap && isPat(m.Elem()):
			refs = x
		case isPat(x.Type()):
			pat = x
		}
	}
	if vis == nil || refs == nil || pat == nil || len(h.Params) != 3 {
		failAnchor("%s does not take the visited patterns, the references and a pattern", fname(h))
	}
	pos := func(want *ssa.Parameter) int {
		for i, x := range h.Params {
			if x == want {
				return i
			}
		}
		return -1
	}
	vi, ri, pi := pos(vis), pos(refs), pos(pat)
	vt, rt, pt := mk("alloc", "visited", mk("map", "")), mk("param", "refs"), mk("param", "p")
	entry := mk("mapaddr", "", vt, pt)
	call := func(x *Term) *Term { return mk("call", "recursion", x) }
	kinds := p.astKinds()
	absent := mk("absent", "")
	type outcome struct {
		row  truthRow
		mark *Term
		asks []*Term
	}
	run := func(kind string, before *Term, asking func(mark *Term)) ([]outcome, []simErr) {
		var outs []outcome
		decide := decideAstKind(pt, kind, kinds)
		s := &Sim{P: p, NoHavoc: true, Decide: decide, Maps: true}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee != h {
				return Inline
			}
			if c.Args[vi] != vt || c.Args[ri] != rt {
				st.Fail(c.Instr.Pos(), "the search continues with other visited patterns or references")
				return Event
			}
			mark := st.mem[entry]
			if mark == nil {
				mark = absent
			}
			asking(mark)
			c.Result = call(c.Args[pi])
			return Event
		}
		s.OnEvent = func(st *State, c *Call) {}
		s.OnReturn = func(st *State, rets []*Term, at tokenPos) {
			fs := map[*Term]bool{}
			for k, v := range st.facts {
				fs[k] = v
			}
			mark := st.mem[entry]
			if mark == nil {
				mark = absent
			}
			outs = append(outs, outcome{row: truthRow{fs, st.Resolve(rets[0]), at, st.traceList()}, mark: mark})
		}
		args := make([]*Term, 3)
		args[vi], args[ri], args[pi] = vt, rt, pt
		s.Run(h, args, func(st *State) {
			if before != absent {
				st.mem[entry] = before
			}
		})
		r.Count("abstract states", s.States)
		return outs, s.Errs
	}
	open, closed := map[*Term]bool{}, map[*Term]bool{}
	for _, k := range sortedNames(kinds) {
		k := k
		key := "recursion:" + k
		r.guard(key, func() {
			same, known := sameLevel[k]
			if !known && k != "Reference" {
				r.Fail(key, p.posOf(h.Pos()), "undecided: unknown pattern kind %s", k)
				return
			}
			r.Count("kinds of pattern", 1)
			node := tField(pt, k)
			var atoms []*Term
			if k == "Reference" {
				atoms = []*Term{call(mk("lookup", "", rt, tField(node, "Name")))}
			} else if same {
				for _, c := range p.childFields(kinds[k]) {
					atoms = append(atoms, call(tField(node, c)))
				}
			}
			outs, errs := run(k, absent, func(m *Term) { open[m] = true })
			for _, e := range errs {
				r.FailTrace(key, e.Where, e.Trace, "%s", e.Msg)
			}
			var rows []truthRow
			for _, o := range outs {
				rows = append(rows, o.row)
				if v, ok := evalBool(o.row.Ret, o.row.Facts); !ok || !v {
					closed[o.mark] = true
				}
				if _, known := evalBool(o.row.Ret, nil); !known && o.row.Ret.Op != "call" {
					r.FailTrace(key, p.posOf(o.row.Pos), o.row.Trace, "undecided: returns %s", short(o.row.Ret.String()))
				}
			}
			if len(rows) == 0 {
				r.Fail(key, p.posOf(h.Pos()), "%s has no answer for a %s pattern", fname(h), k)
				return
			}
			any := func(asg map[*Term]bool) bool { return specValue("any", atoms, asg) }
			for _, b := range compareTruth(rows, atoms, any) {
				r.Fail(key, p.posOf(h.Pos()), "recursion through %s: %s", k, b)
			}
			r.Sample("%s: %s is recursive when one of %d parts at the same level is", fname(h), k, len(atoms))
		})
	}
	// the marks
	r.guard("recursion:marks", func() {
		for m := range open {
			if m == absent {
				r.Fail("recursion:unmarked", p.posOf(h.Pos()), "a pattern is not marked while what is below it is searched: a recursive grammar is searched forever")
			}
			if closed[m] {
				r.Fail("recursion:marks-differ", p.posOf(h.Pos()), "a pattern that was searched looks like one that is being searched: using a pattern twice is taken for recursion")
			}
		}
		for _, marks := range []struct {
			set  map[*Term]bool
			want bool
			what string
		}{{open, true, "is being searched"}, {closed, false, "was searched before"}} {
			for m := range marks.set {
				if m == absent {
					continue
				}
				for _, k := range sortedNames(kinds) {
					key := "recursion:again:" + k
					asked := false
					outs, errs := run(k, m, func(*Term) { asked = true })
					for _, e := range errs {
						r.FailTrace(key, e.Where, e.Trace, "%s", e.Msg)
					}
					r.Count("marked patterns", 1)
					if len(outs) == 0 {
						r.Fail(key, p.posOf(h.Pos()), "%s has no answer for a %s pattern that %s", fname(h), k, marks.what)
					}
					for _, o := range outs {
						v, ok := evalBool(o.row.Ret, nil)
						if marks.want && asked {
							r.FailTrace(key, p.posOf(o.row.Pos), o.row.Trace, "a %s pattern that is being searched is searched again: a recursive grammar is searched forever", k)
						} else if !asked && (!ok || v != marks.want) {
							r.FailTrace(key, p.posOf(o.row.Pos), o.row.Trace, "the answer for a %s pattern that %s is %s", k, marks.what, short(o.row.Ret.String()))
						}
						if !marks.want && o.mark != m {
							if open[o.mark] {
								r.FailTrace(key, p.posOf(o.row.Pos), o.row.Trace, "a %s pattern that was searched looks as if it is being searched", k)
							}
						}
					}
				}
			}
		}
	})
	// all names are searched
	for n := 0; n <= 3; n++ {
		n := n
		r.guard("recursion:names", func() {
			s := &Sim{P: p, NoHavoc: true, Maps: true, Unroll: true}
			g := mk("param", "g")
			m := mk("alloc", "references", mk("map", ""))
			var atoms []*Term
			for i := 0; i < n; i++ {
				atoms = append(atoms, call(mk("pattern", string(rune('a'+i)))))
			}
			s.Decide = func(t *Term) (bool, bool) { return t != tEq(g, tNil) && false, t == tEq(g, tNil) }
			s.Classify = func(st *State, c *Call) Action {
				if c.Callee == h {
					if c.Args[ri] != m {
						st.Fail(c.Instr.Pos(), "the search is given other references than those of the grammar")
					}
					if v := c.Args[vi]; !isTrackedMap(v) {
						st.Fail(c.Instr.Pos(), "undecided: which patterns were visited before the search")
					} else {
						for _, k := range st.mapKeys(v) {
							if open[st.mem[mk("mapaddr", "", v, k)]] {
								st.Fail(c.Instr.Pos(), "the search starts with a pattern that is marked as being searched")
							}
						}
					}
					c.Result = call(c.Args[pi])
					return Event
				}
				if c.Callee != nil && fname(c.Callee) == "relapse/ast.NewRefLookup" {
					if c.Args[0] != g {
						st.Fail(c.Instr.Pos(), "the references of another grammar are searched")
					}
					c.Result = m
					return Event
				}
				return Inline
			}
			s.OnEvent = func(st *State, c *Call) {}
			var rows []truthRow
			s.OnReturn = func(st *State, rets []*Term, at tokenPos) {
				fs := map[*Term]bool{}
				for k, v := range st.facts {
					fs[k] = v
				}
				rows = append(rows, truthRow{fs, st.Resolve(rets[0]), at, st.traceList()})
			}
			s.Run(root, []*Term{g}, func(st *State) {
				for i := 0; i < n; i++ {
					k := mk("const", `"`+string(rune('a'+i))+`"`)
					st.mem[mk("mapaddr", "", m, k)] = mk("pattern", string(rune('a'+i)))
				}
			})
			r.Count("abstract states", s.States)
			r.Count("numbers of names", 1)
			for _, e := range s.Errs {
				r.FailTrace("recursion:names", e.Where, e.Trace, "%s", e.Msg)
			}
			any := func(asg map[*Term]bool) bool { return specValue("any", atoms, asg) }
			for _, b := range compareTruth(rows, atoms, any) {
				r.Fail("recursion:names", p.posOf(root.Pos()), "a grammar with %d names: %s", n, b)
			}
		})
	}
	r.Expect("kinds of pattern", 13)
	r.Expect("numbers of names", 4)
	r.Assume("a grammar is a tree of patterns, which may share parts, and every reference has a declaration")
}

// recursionSearch is the function that HasRecursion starts the search with: the first one on the way down that can
// reach itself.
func (p *Prog) recursionSearch(root *ssa.Function) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	var found []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || seen[g] || g.Pkg != root.Pkg {
					continue
				}
				seen[g] = true
				if p.reach(p.calleesOf(g), false)[g] {
					found = append(found, g)
				} else {
					walk(g)
				}
			}
		}
	}
	walk(root)
	if len(found) != 1 {
		failAnchor("%d functions search for recursion", len(found))
	}
	return found[0]
}

func (p *Prog) calleesOf(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}
