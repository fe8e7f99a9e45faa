package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C41", "other", formatRule) }

// formatRule: formatting changes white space and nothing else.
func formatRule(p *Prog, r *Report) {
	spaceT := p.Type("relapse/ast", "Space")
	var entries []*ssa.Function
	for _, t := range []string{"Grammar", "Pattern", "Space"} {
		entries = append(entries, p.Method("relapse/ast", t, "Format"))
	}
	formats := formatMethods(p, entries)
	// what is written
	for f := range formats {
		if f.Blocks == nil {
			continue
		}
		r.Count("functions", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					root, field := storeRoot(in.Addr)
					if _, local := root.(*ssa.Alloc); local {
						continue
					}
					if _, local := root.(*ssa.MakeSlice); local {
						continue
					}
					r.Count("writes", 1)
					if field != nil {
						fa := field
						pt, _ := fa.X.Type().Underlying().(*types.Pointer)
						if pt != nil {
							if n := named(pt.Elem()); n != nil && n.Obj() == spaceT.Obj() {
								continue
							}
						}
						r.Fail(fname(f), p.posOf(in.Pos()), "formatting changes %s", fieldText(fa))
						continue
					}
					r.Fail(fname(f), p.posOf(in.Pos()), "formatting changes what was there before")
				case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
					r.Fail(fname(f), p.posOf(in.(ssa.Instruction).Pos()), "formatting has another effect")
				}
			}
		}
	}
	r.Expect("functions", 25)
	r.Expect("writes", 1)
	// what becomes of the white space
	for _, m := range []string{"format", "Format"} {
		f := p.MethodOpt("relapse/ast", "Space", m)
		if f == nil || !formats[f] {
			continue
		}
		m := m
		r.guard(m, func() { formatSpaces(p, r, f) })
	}
	r.Expect("lists of comments formatted", 80)
	// whatever is parsed can be formatted
	x := newPrinter(p, r)
	for i, pr := range x.g.prods {
		i, pr := i, pr
		r.guard(pr.head, func() { x.formatted(i, pr, formats) })
	}
	r.Expect("parts of a grammar formatted", 100)
	r.Explain("every function that formatting reaches writes only the text of white space; each comment of any list of white space is kept, in its place; and no tree that the actions of the parser make makes it panic")
}

// formatMethods are the functions of the repository that formatting runs.
func formatMethods(p *Prog, entries []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range p.reach(entries, true) {
		if inRepo(f) && relPkgOf(f) == "relapse/ast" && !strings.HasSuffix(f.Name(), "String") {
			out[f] = true
		}
	}
	return out
}

func fieldText(fa *ssa.FieldAddr) string {
	pt, _ := fa.X.Type().Underlying().(*types.Pointer)
	if pt == nil {
		return "a field"
	}
	st, _ := pt.Elem().Underlying().(*types.Struct)
	if st == nil {
		return "a field"
	}
	return typeKey(pt.Elem()) + "." + st.Field(fa.Field).Name()
}

// storeRoot is what an address is an address in, and the last field on the way.
func storeRoot(v ssa.Value) (ssa.Value, *ssa.FieldAddr) {
	var last *ssa.FieldAddr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if last == nil {
				last = x
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v, last
		}
	}
}

type spaceKind struct {
	name string
	pre  string
	post string
}

var spaceKinds = []spaceKind{{"a line comment", "//", "\n"}, {"a block comment", "/*", "*/"}, {"a blank", " ", ""}, {"a new line", "\n", ""}, {"an empty line", "\n \n", ""}}

func formatSpaces(p *Prog, r *Report, f *ssa.Function) {
	most := 3
	if r.Tier == "thorough" {
		most = 4
	}
	var run func(kinds []int)
	run = func(kinds []int) {
		if len(kinds) > 0 || true {
			formatList(p, r, f, kinds)
		}
		if len(kinds) < most {
			for k := range spaceKinds {
				run(append(append([]int{}, kinds...), k))
			}
		}
	}
	run(nil)
}

func formatList(p *Prog, r *Report, f *ssa.Function, kinds []int) {
	r.Count("lists of comments formatted", 1)
	me := sym("space")
	me.Typ = f.Params[0].Type()
	var es []*Term
	var want [][]part
	var names []string
	for i, k := range kinds {
		sk := spaceKinds[k]
		names = append(names, sk.name)
		if sk.post == "" {
			es = append(es, mk("const", fmt.Sprintf("%q", sk.pre)))
			continue
		}
		c := piece(fmt.Sprintf("comment %d", i))
		es = append(es, textTerm([]part{{text: sk.pre}, {child: c}, {text: sk.post}}))
		w := []part{{text: sk.pre}, {child: c}}
		if k == 1 {
			w = append(w, part{text: sk.post})
		}
		want = append(want, w)
	}
	key := strings.Join(names, ", ")
	if key == "" {
		key = "nothing"
	}
	s := &Sim{P: p, Unroll: true, WidenText: true, NoHavoc: true, Decide: decideText}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && inRepo(c.Callee) && c.Callee.Blocks != nil {
			return Inline
		}
		return Pure
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "formatting panics") }
	done := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		done++
		l := st.Resolve(st.Load(tFA(me, "Space"), types.NewSlice(types.Typ[types.String])))
		if l == tNil {
			l = mk("list", "")
		}
		if l.Op != "list" {
			st.Fail(pos, "undecided: the white space becomes %s", clip(full(l)))
			return
		}
		i := 0
		for _, e := range l.Args {
			ps, ok := evalText(e)
			if !ok {
				st.Fail(pos, "undecided: the white space has %s", clip(full(e)))
				return
			}
			if len(ps) == 0 || len(ps) == 1 && ps[0].child == nil && strings.TrimSpace(ps[0].text) == "" {
				continue
			}
			if i >= len(want) || !sameComment(ps, want[i]) {
				st.Fail(pos, "the white space becomes %s", partsText(ps))
				return
			}
			i++
		}
		if i < len(want) {
			st.Fail(pos, "the comment %s is lost", partsText(want[i]))
		}
	}
	args := []*Term{me}
	for _, pm := range f.Params[1:] {
		a := sym("param " + pm.Name())
		a.Typ = pm.Type()
		args = append(args, a)
	}
	s.Run(f, args, func(st *State) {
		st.assume(tEq(me, tNil), false)
		st.mem[tFA(me, "Space")] = mk("list", "", es...)
	})
	r.Sim(key, s)
	if done == 0 && len(s.Errs) == 0 {
		r.Fail(key, p.posOf(f.Pos()), "undecided: what becomes of the white space")
	}
}

// sameComment: the text is a comment and the white space it needs after it.
func sameComment(got, want []part) bool {
	n := len(want)
	if len(got) < n {
		return false
	}
	for i := range want {
		a, b := got[i], want[i]
		if i == n-1 && b.child == nil { // the end of a block comment
			return a.child == nil && len(got) == n && strings.HasPrefix(a.text, b.text) && strings.TrimSpace(a.text[len(b.text):]) == ""
		}
		if a.child != b.child || a.text != b.text {
			return false
		}
	}
	// a line comment needs the end of its line
	return len(got) == n+1 && got[n].child == nil && strings.TrimSpace(got[n].text) == "" && strings.Contains(got[n].text, "\n")
}

// formatted formats what an action makes.
func (x *printer) formatted(i int, pr bnfProd, formats map[*ssa.Function]bool) {
	x.each(i, 2, func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos) {
		var m *ssa.Function
		for _, n := range []string{"format", "Format"} {
			if f := x.p.method(t, n); f != nil && formats[f] && m == nil {
				m = f
			}
		}
		if m == nil {
			return
		}
		if isChild(ret) && untouched(st, ret) {
			return // what makes it is another production
		}
		if pt, ok := t.(*types.Pointer); ok && named(pt.Elem()) != nil && named(pt.Elem()).Obj().Name() == "Space" {
			return // see formatSpaces
		}
		x.r.Count("parts of a grammar formatted", 1)
		s := &Sim{P: x.p, Unroll: true, NoHavoc: true, MaxDepth: 14}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee != nil && formats[c.Callee] && c.Callee.Blocks != nil {
				if c.Callee.Signature.Recv() != nil && len(c.Args) > 0 {
					if isChild(c.Args[0]) && st.Data[c.Args[0].Name] == nil || partOfChild(c.Args[0]) {
						return Pure // formatted on its own
					}
					if pt, ok := c.Args[0].Typ.(*types.Pointer); ok && named(pt.Elem()) != nil && named(pt.Elem()).Obj().Name() == "Space" {
						return Pure
					}
				}
				if recv := c.Callee.Signature.Recv(); recv != nil {
					if pt, ok := recv.Type().(*types.Pointer); ok && named(pt.Elem()) != nil && named(pt.Elem()).Obj().Name() == "Space" {
						return Pure
					}
				}
				return Inline
			}
			if c.Callee != nil && inRepo(c.Callee) && c.Callee.Blocks != nil {
				return Inline
			}
			return Pure
		}
		s.Recursion = func(f *ssa.Function) bool { return formats[f] }
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "formatting panics") }
		s.OnNilDeref = func(st *State, v *Term, at ssa.Instruction) {
			st.Fail(at.Pos(), "formatting reads a part that is not there")
		}
		args := []*Term{ret}
		for _, pm := range m.Params[1:] {
			a := sym("param " + pm.Name())
			a.Typ = pm.Type()
			args = append(args, a)
		}
		s.Run(m, args, func(s2 *State) {
			for a, v := range st.mem {
				s2.mem[a] = v
			}
			for a, v := range st.facts {
				s2.facts[a] = v
			}
			for a, v := range st.Data {
				s2.Data[a] = v
			}
			if isChild(ret) {
				s2.Data[ret.Name] = tBool(true)
			}
		})
		x.r.Sim(key, s)
	})
}

// partOfChild: the term is something in a part that another production made.
func partOfChild(t *Term) bool {
	for t.Op == "field" || t.Op == "deref" || t.Op == "index" || t.Op == "elem" {
		t = t.Args[0]
		if isChild(t) {
			return true
		}
	}
	return false
}
