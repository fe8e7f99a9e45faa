package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C26", "other", astWalkRule) }

// logged appends an event to the log of the path.
func logged(st *State, ev *Term) {
	l := st.Data["log"]
	if l == nil {
		l = mk("list", "")
	}
	st.Data["log"] = mk("list", "", append(append([]*Term{}, l.Args...), ev)...)
}

func logOf(st *State) []*Term {
	if l := st.Data["log"]; l != nil {
		return l.Args
	}
	return nil
}

// elemNamed: the struct type a pointer or a list of pointers leads to.
func elemNamed(t types.Type) (n *types.Named, list bool) {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t, list = s.Elem(), true
	}
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil, list
	}
	return named(p.Elem()), list
}

func astWalkRule(p *Prog, r *Report) {
	r.Explain("Every Walk method of the syntax tree is enumerated path by path for each part absent and present: the node is shown to the visitor first and once, and then each part that is present is walked exactly once with the visitor it returned.")
	walkable := map[*types.TypeName]*ssa.Function{}
	var ts []*types.Named
	for _, n := range p.namedTypes() {
		if rel(n.Obj().Pkg().Path()) != "relapse/ast" {
			continue
		}
		if f := p.methodOf(n, "Walk"); f != nil && len(f.Params) == 2 && f.Blocks != nil {
			walkable[n.Obj()] = f
			ts = append(ts, n)
		}
	}
	// every part of a grammar that can hold another node has to be walkable
	exempt := map[string]string{
		"LeafNode.Expr": "the expression of a leaf condition is not walked (documented)",
	}
	required := map[string]bool{"BuiltIn.Expr": true}
	for _, n := range ts {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		f := walkable[n.Obj()]
		key := "walk:" + fname(f)
		r.Count("Walk methods", 1)
		r.Sample("%s", fname(f))
		r.guard(key, func() { walkMethod(p, r, key, n, st, f, walkable, exempt, required) })
	}
	for _, w := range sortedKeysS(exempt) {
		r.Assume(w + ": " + exempt[w] + ".")
	}
	r.Assume("A builtin always has an operand (BuiltIn.Expr is set by every constructor and by the parser).")
	r.guard("hasnot", func() { hasNotRule(p, r) })
	r.Expect("Walk methods", 24)
	r.Expect("parts walked", 30)
}

func sortedKeysS(m map[string]string) []string {
	mm := map[string]*Term{}
	for k := range m {
		mm[k] = nil
	}
	return sortedKeys(mm)
}

func walkMethod(p *Prog, r *Report, key string, n *types.Named, sct *types.Struct, f *ssa.Function, walkable map[*types.TypeName]*ssa.Function, exempt map[string]string, required map[string]bool) {
	this, v := sym("this"), sym("v")
	v2 := sym("v2")
	var ptrs, lists []string
	for i := 0; i < sct.NumFields(); i++ {
		fl := sct.Field(i)
		c, isList := elemNamed(fl.Type())
		if c == nil || strings.HasPrefix(fl.Name(), "XXX_") {
			continue
		}
		if exempt[n.Obj().Name()+"."+fl.Name()] != "" {
			continue
		}
		if walkable[c.Obj()] == nil {
			// a part without a Walk method must not lead to other parts
			if leads(c, walkable, map[*types.TypeName]bool{}) {
				r.Fail(key, p.posOf(fl.Pos()), "the part %s can not be walked", fl.Name())
			}
			continue
		}
		r.Count("parts walked", 1)
		if isList {
			lists = append(lists, fl.Name())
		} else {
			ptrs = append(ptrs, fl.Name())
		}
	}
	if len(ptrs) > 6 {
		// a union: each kind alone, and none
		for i := -1; i < len(ptrs); i++ {
			walkCase(p, r, key, n, f, this, v, v2, ptrs, lists, func(j int) bool { return j == i }, 2)
		}
		walkCase(p, r, key, n, f, this, v, v2, ptrs, lists, func(j int) bool { return true }, 2)
		return
	}
	for m := 0; m < 1<<len(ptrs); m++ {
		ok := true
		for j, f := range ptrs {
			if m>>j&1 == 0 && required[n.Obj().Name()+"."+f] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for k := 0; k <= 3; k++ {
			if len(lists) == 0 && k > 0 {
				break
			}
			walkCase(p, r, key, n, f, this, v, v2, ptrs, lists, func(j int) bool { return m>>j&1 == 1 }, k)
		}
	}
}

func leads(n *types.Named, walkable map[*types.TypeName]*ssa.Function, seen map[*types.TypeName]bool) bool {
	if seen[n.Obj()] {
		return false
	}
	seen[n.Obj()] = true
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if c, _ := elemNamed(s.Field(i).Type()); c != nil && (walkable[c.Obj()] != nil || leads(c, walkable, seen)) {
			return true
		}
	}
	return false
}

func walkCase(p *Prog, r *Report, key string, n *types.Named, f *ssa.Function, this, v, v2 *Term, ptrs, lists []string, present func(int) bool, k int) {
	facts := map[*Term]bool{tEq(this, tNil): false}
	var want []*Term
	for j, fl := range ptrs {
		facts[tEq(tField(this, fl), tNil)] = !present(j)
		if present(j) {
			want = append(want, tField(this, fl))
		}
	}
	for _, fl := range lists {
		want = append(want, listOf(tField(this, fl), k).Args...)
		for _, e := range listOf(tField(this, fl), k).Args {
			facts[tEq(e, tNil)] = false
		}
	}
	s := &Sim{P: p, NoHavoc: true, Unroll: true, Decide: func(t *Term) (bool, bool) { b, ok := facts[t]; return b, ok }}
	s.Classify = func(st *State, c *Call) Action {
		if c.Method != nil && c.Method.Name() == "Visit" {
			return Event
		}
		if c.Callee != nil && c.Callee.Name() == "Walk" && len(c.Callee.Params) == 2 && c.Callee.Signature.Recv() != nil {
			if strip(c.Args[0]) == this {
				return Inline
			}
			return Event
		}
		if c.Callee != nil && inRepo(c.Callee) {
			return Inline
		}
		return Pure
	}
	s.OnEvent = func(st *State, c *Call) {
		if c.Method != nil {
			if len(logOf(st)) > 0 {
				st.Fail(c.Instr.Pos(), "the visitor is called again")
				return
			}
			if strip(c.Recv) != v || strip(c.Args[0]) != this {
				st.Fail(c.Instr.Pos(), "the visitor is shown %s", short(c.Args[0].String()))
				return
			}
			logged(st, mk("visit", ""))
			c.Result = v2
			return
		}
		if len(logOf(st)) == 0 {
			st.Fail(c.Instr.Pos(), "a part is walked before the node is visited")
			return
		}
		if vs := strip(c.Args[1]); vs != v2 && !(vs.Op == "as" && vs.Args[0] == v2) {
			st.Fail(c.Instr.Pos(), "a part is walked with another visitor: %s", short(c.Args[1].String()))
			return
		}
		logged(st, strip(c.Args[0]))
	}
	n2 := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		n2++
		log := logOf(st)
		if len(log) == 0 {
			st.Fail(pos, "the node is not visited")
			return
		}
		got := map[*Term]int{}
		for _, e := range log[1:] {
			got[e]++
		}
		for _, w := range want {
			r.Count("obligations", 1)
			if got[w] == 0 {
				st.Fail(pos, "%s is not walked", short(w.String()))
				return
			}
			if got[w] > 1 {
				st.Fail(pos, "%s is walked more than once", short(w.String()))
				return
			}
			delete(got, w)
		}
		for e := range got {
			st.Fail(pos, "%s is walked", short(e.String()))
			return
		}
	}
	s.Run(f, []*Term{this, v}, func(st *State) {
		for _, fl := range lists {
			st.mem[tFA(this, fl)] = listOf(tField(this, fl), k)
		}
	})
	r.Sim(key, s)
	if n2 == 0 && len(s.Errs) == 0 {
		r.Fail(key, p.posOf(f.Pos()), "undecided: no path returns")
	}
}

// hasNotRule: HasNot walks the whole grammar with a visitor that remembers a negation of anything but <not>*.
func hasNotRule(p *Prog, r *Report) {
	f := p.FuncOpt("relapse/ast", "HasNot")
	if f == nil {
		return
	}
	g := sym("g")
	var vis *Term
	s := &Sim{P: p, NoHavoc: true, Decide: func(t *Term) (bool, bool) { return false, false }}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && c.Callee.Name() == "Walk" {
			return Event
		}
		return Inline
	}
	s.OnEvent = func(st *State, c *Call) {
		if st.Mon != "" || strip(c.Args[0]) != g {
			st.Fail(c.Instr.Pos(), "the grammar is not walked once")
			return
		}
		st.Mon = "walked"
		vis = strip(c.Args[1])
		// whatever the visitor found
		if vis.Op == "alloc" && vis.Typ != nil {
			for _, fl := range copyFields(vis.Typ) {
				st.mem[tFA(vis, fl.Name())] = sym("found:" + fl.Name())
			}
		}
	}
	flag := ""
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if st.Mon != "walked" {
			st.Fail(pos, "the grammar is not walked")
			return
		}
		if rets[0].Op != "sym" || !strings.HasPrefix(rets[0].Name, "found:") {
			st.Fail(pos, "the answer is %s", short(rets[0].String()))
			return
		}
		flag = strings.TrimPrefix(rets[0].Name, "found:")
	}
	s.Run(f, []*Term{g}, nil)
	r.Sim("hasnot", s)
	if flag == "" || vis == nil || vis.Typ == nil {
		if len(s.Errs) == 0 {
			r.Fail("hasnot", p.posOf(f.Pos()), "undecided: the visitor is not a local variable")
		}
		return
	}
	vn := named(vis.Typ)
	var visit *ssa.Function
	if vn != nil {
		visit = p.methodOf(vn, "Visit")
	}
	if visit == nil {
		r.Fail("hasnot", p.posOf(f.Pos()), "undecided: visitor of unknown type")
		return
	}
	this, node := sym("this"), sym("node")
	for _, isNot := range []bool{true, false} {
		for _, zany := range []bool{true, false} {
			s := &Sim{P: p, NoHavoc: true}
			s.Decide = func(t *Term) (bool, bool) {
				if t.Op == "istype" {
					return isNot, true
				}
				if t.Op == "bin" && t.Name == "==" && (t.Args[0] == tNil || t.Args[1] == tNil) {
					x := t.Args[0]
					if x == tNil {
						x = t.Args[1]
					}
					if x.Op == "field" && x.Name == "ZAny" {
						return !zany, true
					}
					return false, true
				}
				return false, false
			}
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				r.Count("obligations", 1)
				if strip(rets[0]) != this {
					st.Fail(pos, "the walk goes on with another visitor")
					return
				}
				v := st.Load(tFA(this, flag), types.Typ[types.Bool])
				old := tField(this, flag)
				switch {
				case isNot && !zany && !v.isTrue():
					st.Fail(pos, "a negation is not noticed")
				case (!isNot || zany) && v != old:
					st.Fail(pos, "the answer changes at a node that is no negation")
				}
			}
			s.Run(visit, []*Term{this, node}, nil)
			r.Sim("hasnot", s)
		}
	}
}
