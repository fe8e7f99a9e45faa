package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: every evaluator consumes the document as one balanced walk.

var evalPkgs = []string{"relapse/interp", "relapse/intern", "relapse/mem", "relapse/auto"}

func init() { register("C01", "other", ruleWalk) }

// isParserIface: interface types that have the navigation methods of a document parser.
func isNavIface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Next", "IsLeaf", "Up", "Down":
			n++
		}
	}
	return n == 4
}

var navMethods = map[string]bool{"Next": true, "IsLeaf": true, "Up": true, "Down": true}

func invokesNav(f *ssa.Function, names ...string) bool {
	for _, c := range callsIn(f) {
		if c.Common().IsInvoke() && isNavIface(c.Common().Value.Type()) {
			n := c.Common().Method.Name()
			if len(names) == 0 && navMethods[n] {
				return true
			}
			for _, x := range names {
				if x == n {
					return true
				}
			}
		}
	}
	return false
}

type walker struct {
	fn  *ssa.Function
	scc map[*ssa.Function]bool
}

// walkers finds the recursive document walks of the packages: strongly connected components of the call graph
// that move the parser down.
func (p *Prog) walkers(r *Report, pkgs []string) []walker {
	var out []walker
	fs := p.funcsIn(pkgs...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fs {
		m := map[*ssa.Function]bool{}
		for _, g := range p.refsOf(f) {
			for h := range p.reach([]*ssa.Function{g}, false) {
				m[h] = true
			}
		}
		reach[f] = m
	}
	done := map[*ssa.Function]bool{}
	for _, f := range fs {
		if done[f] || !reach[f][f] {
			continue
		}
		scc := map[*ssa.Function]bool{f: true}
		for g := range reach[f] {
			if reach[g] != nil && reach[g][f] {
				scc[g] = true
			}
		}
		for g := range scc {
			done[g] = true
		}
		down := false
		for g := range scc {
			for h := range p.reach([]*ssa.Function{g}, false) {
				if invokesNav(h, "Down") {
					down = true
				}
			}
		}
		if !down {
			continue
		}
		// entry: a member that is referenced from outside of the component, has a parser parameter
		var entries []*ssa.Function
		for g := range scc {
			par := false
			for _, x := range g.Params {
				if isNavIface(x.Type()) {
					par = true
				}
			}
			if !par {
				continue
			}
			ext := len(scc) == 1
			for _, h := range p.Funcs {
				if scc[h] {
					continue
				}
				for _, k := range p.refsOf(h) {
					if k == g {
						ext = true
					}
				}
			}
			if ext {
				entries = append(entries, g)
			}
		}
		if len(entries) == 0 {
			for g := range scc {
				if invokesNav(g, "Next") {
					entries = append(entries, g)
				}
			}
		}
		if len(entries) == 0 {
			failAnchor("no entry for the recursive walk around %s", fname(f))
		}
		sort.Slice(entries, func(i, j int) bool { return entries[i].String() < entries[j].String() })
		for _, e := range entries {
			out = append(out, walker{e, scc})
		}
	}
	return out
}

// escapable predicate: functions returning bool in the evaluator packages that look at patterns, and tables filled from them.
func ruleWalk(p *Prog, r *Report) {
	r.Explain("Property simulation (interprocedural typestate over SSA, loops widened, paths correlated by branch conditions) of every recursive document walk found in the call graph of the evaluator packages, against the parser protocol automaton: Next -> (end | error | element), element -> IsLeaf -> leaf | Down, walk, Up; plus the entry points that start a walk.")
	ws := p.walkers(r, evalPkgs)
	entry := map[*ssa.Function]bool{}
	for _, w := range ws {
		entry[w.fn] = true
	}
	for _, w := range ws {
		w := w
		r.Count("walks", 1)
		r.Sample("walk %s", fname(w.fn))
		key := "walk:" + fname(w.fn)
		r.guard(key, func() { simWalk(p, r, key, w.fn, entry, false) })
	}
	r.Expect("walks", 5)
	// no other code in the evaluator packages moves the parser
	inWalk := map[*ssa.Function]bool{}
	for _, w := range ws {
		for f := range p.reach([]*ssa.Function{w.fn}, false) {
			inWalk[f] = true
		}
	}
	// entry points
	for _, f := range p.funcsIn(evalPkgs...) {
		if inWalk[f] || entry[f] {
			continue
		}
		if invokesNav(f) {
			r.Fail("walk:"+fname(f), p.posOf(f.Pos()), "%s moves the parser outside of the recursive walks", fname(f))
		}
		calls := false
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil && entry[g] {
				calls = true
			}
		}
		if calls {
			f := f
			r.Count("entry points", 1)
			key := "walk:" + fname(f)
			r.guard(key, func() { simWalk(p, r, key, f, entry, true) })
		}
	}
	r.Expect("entry points", 4)
	r.guard("escapable", func() { ruleEscapable(p, r) })
}

// simWalk checks one walk function (or, when top is set, a function that starts a walk).
func simWalk(p *Prog, r *Report, key string, fn *ssa.Function, entry map[*ssa.Function]bool, top bool) {
	var tree *Term
	for _, x := range fn.Params {
		if isNavIface(x.Type()) {
			tree = mk("param", x.Name())
		}
	}
	if tree == nil {
		failAnchor("%s has no parser parameter", fname(fn))
	}
	nav := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for g := range p.reach([]*ssa.Function{f}, false) {
			if invokesNav(g) {
				nav[f] = true
				break
			}
		}
	}
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	errOf := func(c *Call) *Term {
		// the error result of the call
		sig := c.Instr.Common().Signature().Results()
		if c.Result == nil {
			return nil
		}
		if sig.Len() == 1 && isErr(sig.At(0).Type()) {
			return c.Result
		}
		if c.Result.Op == "tuple" && sig.Len() > 0 && isErr(sig.At(sig.Len()-1).Type()) {
			return c.Result.Args[sig.Len()-1]
		}
		return nil
	}
	eof := mk("gval", "io.EOF")
	// settle resolves a pending state with what the path knows
	settle := func(st *State, at tokenPos, what string) {
		switch st.Mon {
		case "next?":
			e := st.Data["err"]
			if n, ok := st.IsNil(e); ok && n {
				st.Mon = "at"
				return
			}
			if v, ok := st.Fact(tEq(e, eof)); ok && v {
				st.Mon = "eof"
				return
			}
			n, nk := st.IsNil(e)
			v, vk := st.Fact(tEq(e, eof))
			if nk && !n && vk && !v {
				st.Mon = "failed"
				return
			}
			if nk && !n {
				st.Mon = "failed?" // may be the end of the level or an error
				return
			}
			st.Mon = "unchecked"
		case "walk?":
			e := st.Data["err"]
			if n, ok := st.IsNil(e); ok {
				if n {
					st.Mon = "walked"
				} else {
					st.Mon = "failed"
				}
				return
			}
			st.Mon = "unchecked"
		case "leaf?":
			l := st.Data["leaf"]
			if v, ok := st.Fact(l); ok {
				if v {
					st.Mon = "leaf"
				} else {
					st.Mon = "branch"
				}
			}
		}
	}
	s := &Sim{P: p, NoHavoc: true}
	usesTree := func(st *State, c *Call) bool {
		for _, a := range c.Args {
			a = st.Resolve(a)
			if strip(a) == tree || a.mentions(tree) {
				return true
			}
		}
		if c.Recv != nil && c.Recv.Op == "closure" && c.Recv.mentions(tree) {
			return true
		}
		return false
	}
	s.Classify = func(st *State, c *Call) Action {
		if c.Method != nil && strip(c.Recv) == tree {
			return Event
		}
		if c.Callee != nil && entry[c.Callee] {
			return Event
		}
		if c.Callee != nil && inRepo(c.Callee) && nav[c.Callee] {
			return Inline
		}
		if c.Callee != nil && c.Callee.Pkg == fn.Pkg && c.Callee.Signature.Recv() == nil && len(c.Callee.Blocks) > 0 && !usesTree(st, c) && isErrWrapper(c.Callee) {
			return Inline
		}
		if usesTree(st, c) {
			return Event
		}
		// helpers that look up an early exit answer
		if c.Callee != nil && c.Callee.Pkg == fn.Pkg && c.NRes == 1 && isBoolOrBools(c.Callee.Signature.Results().At(0).Type()) && !p.escape().fns[c.Callee] {
			return Inline
		}
		return Opaque
	}
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		if exitAllowed(p, st) {
			st.Data["guard"] = tBool(true)
		}
	}
	s.OnEvent = func(st *State, c *Call) {
		in := c.Instr.(*ssa.Call)
		pos := in.Pos()
		settle(st, pos, "")
		c.Result = st.freshRes(in, c)
		if c.Method != nil && strip(c.Recv) == tree && navMethods[c.Method.Name()] {
			m := c.Method.Name()
			switch m {
			case "Next":
				switch st.Mon {
				case "start", "leaf", "up":
				case "at", "leaf?", "branch":
					st.Fail(pos, "Next is called while the current element is not known to be a leaf and has not been descended into")
					return
				default:
					st.Fail(pos, "Next is called in protocol state %q", st.Mon)
					return
				}
				st.Mon = "next?"
				delete(st.Data, "guard")
				delete(st.Data, "leaf")
				delete(st.Data, "readerr")
				st.Data["err"] = c.Result
			case "IsLeaf":
				switch st.Mon {
				case "at", "leaf", "branch", "leaf?":
				default:
					st.Fail(pos, "IsLeaf is called in protocol state %q", st.Mon)
					return
				}
				if st.Mon == "at" || st.Mon == "leaf?" {
					st.Mon = "leaf?"
					st.Data["leaf"] = c.Result
				} else {
					c.Result = tBool(st.Mon == "leaf")
				}
			case "Down":
				if st.Mon != "branch" {
					st.Fail(pos, "Down is called in protocol state %q: the element must be known not to be a leaf", st.Mon)
					return
				}
				st.Mon = "down"
			case "Up":
				if st.Mon != "walked" {
					st.Fail(pos, "Up is called in protocol state %q: the children must have been walked without error", st.Mon)
					return
				}
				st.Mon = "up"
			}
			return
		}
		if c.Callee != nil && entry[c.Callee] {
			passes := false
			for _, a := range c.Args {
				if strip(a) == tree {
					passes = true
				}
			}
			if !passes {
				st.Fail(pos, "the recursive walk is not given the parser of this walk")
				return
			}
			if top {
				if st.Mon != "start" {
					st.Fail(pos, "a second walk is started in state %q", st.Mon)
					return
				}
			} else if st.Mon != "down" {
				st.Fail(pos, "the children are walked in protocol state %q: the parser must just have moved Down", st.Mon)
				return
			}
			st.Mon = "walk?"
			e := errOf(c)
			if e == nil {
				st.Fail(pos, "undecided: the walk has no error result")
				return
			}
			st.Data["err"] = e
			return
		}
		// anything else that is given the parser reads the label of the current element
		switch st.Mon {
		case "at", "leaf?", "leaf", "branch":
		default:
			st.Fail(pos, "the element's label is read in protocol state %q", st.Mon)
			return
		}
		if e := errOf(c); e != nil {
			st.Data["readerr"] = e
		}
	}
	retErr := func(st *State, rets []*Term) *Term {
		sig := fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			if isErr(sig.At(i).Type()) {
				return rets[i]
			}
		}
		return nil
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		settle(st, pos, "")
		e := retErr(st, rets)
		if e == nil {
			st.Fail(pos, "undecided: %s has no error result", fname(fn))
			return
		}
		e = st.Resolve(e)
		isNil, nk := st.IsNil(e)
		if re := st.Data["readerr"]; re != nil {
			if n, ok := st.IsNil(re); ok && !n {
				if !e.mentions(re) {
					st.Fail(pos, "an error of evaluating the label is not returned")
				}
				return
			} else if !ok && !e.mentions(re) && !(nk && !isNil) {
				st.Fail(pos, "an error of evaluating the label is not looked at before returning")
				return
			}
		}
		switch st.Mon {
		case "failed", "failed?":
			pe := st.Data["err"]
			if st.Mon == "failed?" {
				st.Fail(pos, "returns without telling the end of the level from an error of the parser")
				return
			}
			if !e.mentions(pe) {
				st.Fail(pos, "an error of the parser or of the walk of the children is not returned")
			}
		case "unchecked":
			pe := st.Data["err"]
			if top && e.mentions(pe) {
				return
			}
			st.Fail(pos, "returns without looking at the error of the parser")
		case "eof":
			if e.mentions(st.Data["err"]) && !(nk && isNil) {
				st.Fail(pos, "the end of a level is returned as an error")
			}
		case "start", "leaf", "up":
			// early exit
			if nk && !isNil || top {
				if top && st.Mon == "start" && !(nk && !isNil) {
					st.Fail(pos, "a verdict is returned without walking the document")
				}
				return
			}
			if !nk && e.Op != "nil" && !strings.HasPrefix(e.Op, "const") {
				return // may be an error
			}
			if st.Data["guard"] == nil && !exitAllowed(p, st) {
				st.Fail(pos, "the walk of a level ends before its end, and not because no pattern can change any more")
			}
		case "walked":
			if top {
				return
			}
			fallthrough
		default:
			if nk && !isNil {
				return // an error of something else
			}
			if !nk && e.any(func(t *Term) bool { return t.Op == "res" }) {
				return
			}
			st.Fail(pos, "returns without error in protocol state %q", st.Mon)
		}
	}
	s.Run(fn, nil, func(st *State) { st.Mon = "start" })
	r.Sim(key, s)
}

// isErrWrapper: small helpers that only test or wrap errors.
func isErrWrapper(f *ssa.Function) bool {
	for _, x := range f.Params {
		if types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
			return true
		}
	}
	return false
}

// exitAllowed: the path is guarded by a negative answer of an early exit predicate or of a table of its answers.
func exitAllowed(p *Prog, st *State) bool {
	e := p.escape()
	for f, v := range st.facts {
		if v {
			continue
		}
		t := f
		switch t.Op {
		case "res":
			if t.Fn != nil && e.fns[t.Fn] {
				return true
			}
		case "field":
			if fieldIn(e.fields, t.Name) {
				return true
			}
		case "index":
			if t.Args[0].Op == "field" && fieldIn(e.fields, t.Args[0].Name) {
				return true
			}
		}
	}
	return false
}

func fieldIn(m map[string]bool, name string) bool {
	for k := range m {
		if strings.HasSuffix(k, "."+name) {
			return true
		}
	}
	return false
}
