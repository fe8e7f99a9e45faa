package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C06", "other", cloneRule) }

// copier checks functions that copy one value into another, or return a copy.
type copier struct {
	p    *Prog
	r    *Report
	done map[string]bool
	work []*ssa.Function
}

// isCopierSig: func(dst, src T) without results, or func(src T) T called Clone.
func isCopierSig(f *ssa.Function) string {
	sig := f.Signature
	if sig.Results().Len() == 0 && len(f.Params) == 2 && types.Identical(f.Params[0].Type(), f.Params[1].Type()) {
		switch f.Params[0].Type().Underlying().(type) {
		case *types.Pointer, *types.Slice:
			return "into"
		}
	}
	if len(f.Params) == 1 && sig.Results().Len() == 1 && types.Identical(f.Params[0].Type(), sig.Results().At(0).Type()) && strings.Contains(f.Name(), "Clone") {
		return "clone"
	}
	return ""
}

func (c *copier) add(f *ssa.Function) {
	if !c.done[fname(f)] {
		c.done[fname(f)] = true
		c.work = append(c.work, f)
	}
}

func copyFields(t types.Type) []*types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		if !strings.HasPrefix(s.Field(i).Name(), "XXX_") {
			out = append(out, s.Field(i))
		}
	}
	return out
}

func canBeNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	}
	return false
}

func scalarType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// freshTerm: memory allocated by the function under analysis.
func freshTerm(t *Term, dst *Term) bool {
	t = strip(t)
	return t.Op == "alloc" && t != dst || t.Op == "makeslice" || t.Op == "append" && t.Args[0].Op == "list"
}

// throughDeref: a field of a whole struct that was read from x is that field of x.
func throughDeref(t *Term) *Term {
	if t.Op == "field" && len(t.Args) == 1 {
		if t.Args[0].Op == "deref" {
			return tField(t.Args[0].Args[0], t.Name)
		}
	}
	return t
}

// isCopy explains why val is not an independent copy of src, "" when it is.
func (c *copier) isCopy(st *State, val, src *Term, t types.Type, depth int) string {
	val = throughDeref(strip(val))
	if depth > 6 {
		return "undecided: nested too deep"
	}
	if val.Op == "clone" && val.Args[0] == src {
		return ""
	}
	if !canBeNil(t) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if val == src {
				return ""
			}
			return fmt.Sprintf("it is %s", short(val.String()))
		case *types.Struct:
			for _, f := range copyFields(t) {
				if s := c.isCopy(st, tField(val, f.Name()), tField(src, f.Name()), f.Type(), depth+1); s != "" {
					return f.Name() + ": " + s
				}
			}
			return ""
		default:
			return fmt.Sprintf("undecided: type %s", u)
		}
	}
	isNil, known := st.IsNil(src)
	if known && isNil {
		if val == tNil || val.Op == "list" && len(val.Args) == 0 {
			return ""
		}
		if n, k := st.IsNil(val); k && n {
			return ""
		}
		return "it is set although the original has none"
	}
	if src.Op == "list" && val == src {
		return "" // built by appending the elements one by one; sharing is seen without taking lists apart
	}
	if src.Op == "list" && len(src.Args) == 0 {
		// nil and an empty list are the same part
		if val == tNil || val.Op == "makeslice" && val.Args[0] == tInt(0) {
			return ""
		}
	}
	if val == tNil {
		if _, ok := t.Underlying().(*types.Slice); ok {
			return "the elements are not copied"
		}
		return "it is missing"
	}
	if val.mentions(src) && !freshTerm(val, nil) {
		return "it is shared with the original"
	}
	if m := st.mem[mk("copied", "", val)]; m != nil {
		if m == src {
			if val.Op == "makeslice" && val.Args[0] != tLen(src) {
				return "the list has a different length"
			}
			return ""
		}
		return fmt.Sprintf("it is a copy of %s", short(m.String()))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if val.Op != "alloc" {
			return fmt.Sprintf("it is %s", short(val.String()))
		}
		if scalarType(u.Elem()) {
			v := st.Load(val, u.Elem())
			if v == mk("deref", "", src) {
				return ""
			}
			return fmt.Sprintf("it points at %s", short(v.String()))
		}
		for _, f := range copyFields(u.Elem()) {
			v := st.Load(tFA(val, f.Name()), f.Type())
			if s := c.isCopy(st, v, tField(src, f.Name()), f.Type(), depth+1); s != "" {
				return f.Name() + ": " + s
			}
		}
		return ""
	case *types.Slice:
		if val.Op == "append" && val.Args[0].Op == "list" && len(val.Args[0].Args) == 0 && val.Args[1] == src && scalarType(u.Elem()) {
			return ""
		}
		if from := st.mem[mk("copyof", "", val)]; from == src && scalarType(u.Elem()) {
			if val.Op == "makeslice" && val.Args[0] != tLen(src) {
				return "the list has a different length"
			}
			return ""
		}
		if val.Op == "makeslice" && src.Op == "list" && scalarType(u.Elem()) {
			if val.Args[0] != tInt(int64(len(src.Args))) {
				return "the list has a different length"
			}
			for i, e := range src.Args {
				v, ok := st.mem[mk("ia", "", val, tInt(int64(i)))]
				if !ok {
					v = zeroOf(u.Elem())
				}
				if v != e {
					return "the elements differ"
				}
			}
			return ""
		}
		if val.Op == "makeslice" {
			return "the elements are not copied"
		}
	}
	return fmt.Sprintf("undecided: it is %s", short(val.String()))
}

func (c *copier) run() {
	for len(c.work) > 0 {
		fn := c.work[0]
		c.work = c.work[1:]
		key := "copy:" + fname(fn)
		c.r.guard(key, func() { c.check(fn, key) })
	}
}

func (c *copier) check(fn *ssa.Function, key string) {
	kind := isCopierSig(fn)
	t := fn.Params[len(fn.Params)-1].Type()
	c.r.Count("copying functions", 1)
	c.r.Sample("%s", fname(fn))
	switch u := t.Underlying().(type) {
	case *types.Map:
		c.checkMap(fn, key, u)
		return
	case *types.Slice:
		c.checkSlice(fn, key, u)
		return
	}
	// each nillable field in turn, with the others all absent and all present
	var nillable []string
	for _, f := range copyFields(t) {
		if canBeNil(f.Type()) {
			nillable = append(nillable, f.Name())
		}
	}
	var cases []map[string]bool // field -> absent
	all := func(v bool) map[string]bool {
		m := map[string]bool{}
		for _, f := range nillable {
			m[f] = v
		}
		return m
	}
	cases = append(cases, all(true), all(false))
	for _, f := range nillable {
		for _, v := range []bool{true, false} {
			m := all(v)
			m[f] = !v
			cases = append(cases, m)
		}
	}
	if kind == "clone" {
		cases = append(cases, nil) // the nil value
	}
	for _, cs := range cases {
		sym, n := c.paths(fn, key, kind, t, cs, -1)
		if len(sym.Errs) > 0 && len(presentLists(t, cs)) > 0 && !definite(sym) {
			// take the lists apart: a loop may copy the elements
			ok := true
			var sims []*Sim
			for k := 0; k <= 3; k++ {
				s, kn := c.paths(fn, key, kind, t, cs, k)
				sims = append(sims, s)
				if len(s.Errs) > 0 || kn == 0 {
					ok = false
				}
			}
			if ok {
				for _, s := range sims {
					c.r.Sim(key, s)
				}
				continue
			}
		}
		c.r.Sim(key, sym)
		if n == 0 && len(sym.Errs) == 0 {
			c.r.Fail(key, c.p.posOf(fn.Pos()), "undecided: no path returns")
		}
	}
}

// definite: some error does not come from a loop that was not taken apart.
func definite(s *Sim) bool {
	for _, e := range s.Errs {
		if !strings.Contains(e.Msg, "not copied") && !strings.Contains(e.Msg, "undecided") {
			return true
		}
	}
	return false
}

// presentLists: the list fields that are present in this case.
func presentLists(t types.Type, absent map[string]bool) []*types.Var {
	var out []*types.Var
	if absent == nil {
		return nil
	}
	for _, f := range copyFields(t) {
		if _, ok := f.Type().Underlying().(*types.Slice); ok && !absent[f.Name()] {
			out = append(out, f)
		}
	}
	return out
}

func (c *copier) paths(fn *ssa.Function, key, kind string, t types.Type, absent map[string]bool, lists int) (*Sim, int) {
	src := sym("src")
	dst := mk("alloc", "dst")
	dst.Typ = t
	facts := map[*Term]bool{tEq(src, tNil): absent == nil}
	for f, v := range absent {
		facts[tEq(tField(src, f), tNil)] = v
	}
	args := []*Term{src}
	if kind == "into" {
		args = []*Term{dst, src}
	}
	s := &Sim{P: c.p, NoHavoc: true, Decide: func(t *Term) (bool, bool) { v, ok := facts[t]; return v, ok }}
	s.Classify = c.classify(fn, kind, dst, src)
	s.OnStore = func(st *State, addr, val *Term, in ssa.Instruction) { c.noWrite(st, addr, src, in) }
	n := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		n++
		if kind == "clone" {
			if why := c.isCopy(st, rets[0], src, t, 0); why != "" {
				st.Fail(pos, "the copy differs: %s", why)
			}
			return
		}
		for _, f := range copyFields(t) {
			c.r.Count("copied fields", 1)
			v := st.Load(tFA(dst, f.Name()), f.Type())
			from := st.Load(tFA(src, f.Name()), f.Type())
			if lists < 0 {
				from = tField(src, f.Name())
			}
			if why := c.isCopy(st, v, from, f.Type(), 0); why != "" {
				st.Fail(pos, "the copy of %s differs: %s", f.Name(), why)
				st.dead = false
			}
		}
	}
	s.Unroll = lists >= 0
	s.Run(fn, args, func(st *State) {
		st.Data["dst"], st.Data["src"] = dst, src
		if lists >= 0 {
			for _, f := range presentLists(t, absent) {
				st.mem[tFA(src, f.Name())] = listOf(tField(src, f.Name()), lists)
			}
		}
	})
	return s, n
}

func (c *copier) noWrite(st *State, addr, src *Term, in ssa.Instruction) {
	r := addr
	for r.Op == "fa" || r.Op == "ia" || r.Op == "mapaddr" || r.Op == "appendaddr" || r.Op == "copyaddr" {
		r = r.Args[0]
	}
	if r.mentions(src) && !freshTerm(r, nil) {
		st.Fail(in.Pos(), "the original is modified")
	}
}

func (c *copier) classify(fn *ssa.Function, kind string, dst, src *Term) func(st *State, cl *Call) Action {
	return func(st *State, cl *Call) Action {
		if cl.Callee == nil || !inRepo(cl.Callee) {
			return Pure
		}
		k := isCopierSig(cl.Callee)
		switch k {
		case "clone":
			if cl.Callee != fn && strip(cl.Args[0]) == src {
				return Inline
			}
			c.add(cl.Callee)
			cl.Result = mk("clone", "", strip(cl.Args[0]))
			return Pure
		case "into":
			d, s := strip(cl.Args[0]), strip(cl.Args[1])
			if !cl.Recurse && kind == "into" && d == dst && s == src {
				return Inline
			}
			if !freshTerm(d, nil) && d.Op != "alloc" {
				st.Fail(cl.Instr.Pos(), "copies into %s, which is not new", short(d.String()))
				return Pure
			}
			if n, ok := st.IsNil(s); ok && n {
				return Pure
			}
			c.add(cl.Callee)
			st.mem[mk("copied", "", d)] = s
			return Pure
		}
		return Inline
	}
}

func (c *copier) checkSlice(fn *ssa.Function, key string, u *types.Slice) {
	if isCopierSig(fn) != "into" {
		c.r.Fail(key, c.p.posOf(fn.Pos()), "undecided: a list is cloned by a function of an unknown form")
		return
	}
	for n := 0; n <= 3; n++ {
		for _, absent := range []bool{false, true} {
			src := listOf(sym("src"), n)
			dst := mk("makeslice", "dst", tInt(int64(n)))
			dst.Typ = fn.Params[0].Type()
			s := &Sim{P: c.p, NoHavoc: true, Unroll: true, Decide: func(t *Term) (bool, bool) {
				for i := 0; i < n; i++ {
					if t == tEq(mk("index", "", sym("src"), tInt(int64(i))), tNil) {
						return absent, true
					}
				}
				return false, false
			}}
			s.Classify = c.classify(fn, "into", dst, src)
			s.OnStore = func(st *State, addr, val *Term, in ssa.Instruction) { c.noWrite(st, addr, sym("src"), in) }
			ret := 0
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				ret++
				for i := 0; i < n; i++ {
					c.r.Count("copied elements", 1)
					a := mk("ia", "", dst, tInt(int64(i)))
					v, ok := st.mem[a]
					if !ok {
						v = zeroOf(u.Elem())
					}
					if why := c.isCopy(st, v, src.Args[i], u.Elem(), 0); why != "" {
						st.Fail(pos, "the copy of an element differs: %s", why)
						st.dead = false
					}
				}
			}
			s.Run(fn, []*Term{dst, src}, func(st *State) { st.Data["dst"] = dst })
			c.r.Sim(key, s)
			if ret == 0 && len(s.Errs) == 0 {
				c.r.Fail(key, c.p.posOf(fn.Pos()), "undecided: no path returns")
			}
		}
	}
}

// checkMap: a loop that stores a copy of every entry under its key in a new map.
func (c *copier) checkMap(fn *ssa.Function, key string, u *types.Map) {
	src := sym("src")
	s := &Sim{P: c.p, NoHavoc: true}
	s.Classify = c.classify(fn, "clone", nil, src)
	turns := 0
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		if cond.Op == "hasnext" {
			if st.Mon == "turn" {
				st.Fail(fn.Pos(), "an entry is not copied")
				return
			}
			if taken {
				turns++
				st.Mon = "turn"
			}
		}
	}
	s.OnStore = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op != "mapaddr" {
			c.noWrite(st, addr, src, in)
			return
		}
		m, k := addr.Args[0], addr.Args[1]
		if m.Op != "alloc" {
			st.Fail(in.Pos(), "the original is modified")
			return
		}
		if k.Op != "rkey" {
			st.Fail(in.Pos(), "an entry is stored under another key: %s", short(k.String()))
			return
		}
		v := strip(val)
		okv := v.Op == "clone" && (v.Args[0] == mk("lookup", "", src, k) || v.Args[0] == mk("rval", "", k.Args...))
		if !okv {
			st.Fail(in.Pos(), "the copy of an entry differs: it is %s", short(v.String()))
			return
		}
		c.r.Count("copied elements", 1)
		st.Mon = "stored"
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if rets[0].Op != "alloc" {
			if n, ok := st.IsNil(src); ok && n && rets[0] == tNil {
				return
			}
			st.Fail(pos, "the result is not a new map")
		}
	}
	s.Run(fn, []*Term{src}, nil)
	c.r.Sim(key, s)
	if turns == 0 {
		c.r.Fail(key, c.p.posOf(fn.Pos()), "undecided: no loop over the entries")
	}
}

func cloneRule(p *Prog, r *Report) {
	r.Explain("Every function that copies grammars is enumerated path by path over the memory it builds: at the end each field of the copy has to be the same value, absent where the original has none, or newly allocated memory filled by a copying function from the same field of the original.")
	c := &copier{p: p, r: r, done: map[string]bool{}}
	for _, n := range p.namedTypes() {
		if rel(n.Obj().Pkg().Path()) != "relapse/ast" {
			continue
		}
		if f := p.methodOf(n, "Clone"); f != nil && isCopierSig(f) == "clone" {
			r.Count("exported clone methods", 1)
			c.add(f)
		}
	}
	r.Expect("exported clone methods", 4)
	c.run()
	r.Expect("copying functions", 20)
	r.Expect("copied fields", 400)
	r.Assume("Fields the protobuf compiler adds (XXX_) hold no part of a grammar.")
}
