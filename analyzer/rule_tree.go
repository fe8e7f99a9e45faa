package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C32", "other", treeRule) }

// condTruth evaluates a boolean combination of conditions under an assignment of its atoms.
func condTruth(t *Term, asg map[*Term]bool) bool {
	t = strip(t)
	if t.Op == "call" {
		switch {
		case strings.HasSuffix(t.Name, "relapse/funcs.And") && len(t.Args) == 2:
			return condTruth(t.Args[0], asg) && condTruth(t.Args[1], asg)
		case strings.HasSuffix(t.Name, "relapse/funcs.Or") && len(t.Args) == 2:
			return condTruth(t.Args[0], asg) || condTruth(t.Args[1], asg)
		case strings.HasSuffix(t.Name, "relapse/funcs.Not") && len(t.Args) == 1:
			return !condTruth(t.Args[0], asg)
		case strings.HasSuffix(t.Name, "relapse/funcs.BoolConst") && len(t.Args) == 1:
			return t.Args[0].isTrue()
		}
	}
	return asg[t]
}

// condAtoms adds the atoms of a combination of conditions; false when some part is not understood.
func condAtoms(t *Term, known map[*Term]bool, conds []*Term) bool {
	t = strip(t)
	if t.Op == "call" {
		switch {
		case strings.HasSuffix(t.Name, "relapse/funcs.And"), strings.HasSuffix(t.Name, "relapse/funcs.Or"), strings.HasSuffix(t.Name, "relapse/funcs.Not"):
			for _, a := range t.Args {
				if !condAtoms(a, known, conds) {
					return false
				}
			}
			return true
		case strings.HasSuffix(t.Name, "relapse/funcs.BoolConst"):
			return t.Args[0].isConst()
		}
	}
	for _, c := range conds {
		if c == t {
			return true
		}
	}
	return false
}

// treeCheck judges one path: part i of the answer is the accepting pattern of condition i exactly when the
// condition holds. It enumerates the truth values of the (at most three) conditions that agree with what the
// path has learned.
type treeCheck struct {
	conds, thn, els []*Term
	label           *Term
}

func (c *treeCheck) consistent(st *State, asg map[*Term]bool) (bool, string) {
	for f, v := range st.facts {
		switch {
		case f.Op == "call" && strings.HasSuffix(f.Name, "relapse/funcs.IsFalse"):
			if !condAtoms(f.Args[0], nil, c.conds) {
				return false, f.String()
			}
			if v && condTruth(f.Args[0], asg) {
				return false, ""
			}
		case f.Op == "call" && strings.HasSuffix(f.Name, "relapse/funcs.IsTrue"):
			if !condAtoms(f.Args[0], nil, c.conds) {
				return false, f.String()
			}
			if v && !condTruth(f.Args[0], asg) {
				return false, ""
			}
		case f.Op == "call" && strings.HasSuffix(f.Name, "relapse/funcs.Equal"):
			if !condAtoms(f.Args[0], nil, c.conds) || !condAtoms(f.Args[1], nil, c.conds) {
				return false, f.String()
			}
			if v && condTruth(f.Args[0], asg) != condTruth(f.Args[1], asg) {
				return false, ""
			}
		case f.Op == "evalb" && f.Args[1] == c.label:
			if !condAtoms(f.Args[0], nil, c.conds) {
				return false, f.String()
			}
			if v != condTruth(f.Args[0], asg) {
				return false, ""
			}
		}
	}
	return true, ""
}

// judge returns a complaint, or "".
func (c *treeCheck) judge(st *State, got []*Term) string {
	if len(got) != len(c.conds) {
		return "the number of answers differs from the number of conditions"
	}
	for m := 0; m < 1<<len(c.conds); m++ {
		asg := map[*Term]bool{}
		for i, t := range c.conds {
			asg[t] = m>>i&1 == 1
		}
		ok, un := c.consistent(st, asg)
		if un != "" {
			return "undecided: the meaning of " + short(un)
		}
		if !ok {
			continue
		}
		for i := range c.conds {
			w := c.els[i]
			if asg[c.conds[i]] {
				w = c.thn[i]
			}
			g := strip(got[i])
			if g == w {
				continue
			}
			// equal patterns are interchangeable
			same := false
			for f, v := range st.facts {
				if v && f.Op == "call" && strings.HasSuffix(f.Name, ".Equal") && len(f.Args) == 2 && (f.Args[0] == g && f.Args[1] == w || f.Args[0] == w && f.Args[1] == g) {
					same = true
				}
			}
			if !same {
				holds := "does not hold"
				if asg[c.conds[i]] {
					holds = "holds"
				}
				return "a condition that " + holds + " is answered with " + short(g.String())
			}
		}
	}
	return ""
}

// globalInit finds what a package level variable is initialised with, as a term.
func (p *Prog) globalInit(name string) *Term {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	for rp, sp := range p.SPkg {
		if name != rp+"."+name[i+1:] && !strings.HasSuffix(name[:i], rp) {
			continue
		}
		g, ok := sp.Members[name[i+1:]].(*ssa.Global)
		if !ok {
			continue
		}
		// it must not be assigned anywhere else
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g && f.Name() != "init" {
						return nil
					}
				}
			}
		}
		for _, b := range sp.Func("init").Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				v := stripConv(st.Val)
				if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
					var args []*Term
					for _, a := range c.Call.Args {
						k, ok := a.(*ssa.Const)
						if !ok {
							return nil
						}
						args = append(args, constTerm(k))
					}
					return mk("call", fname(c.Call.StaticCallee()), args...)
				}
			}
		}
	}
	return nil
}

// treeSim prepares a simulation of code that builds or evaluates trees of conditions.
func treeSim(p *Prog, ck *treeCheck, idx func(st *State, c *Call) bool) *Sim {
	s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 40, MaxState: 300000, Recursion: func(*ssa.Function) bool { return true }}
	conds := map[*Term]bool{}
	for _, c := range ck.conds {
		conds[tEq(c, tNil)] = true
	}
	s.Decide = func(t *Term) (bool, bool) {
		if conds[t] {
			return false, true
		}
		if t.Op == "bin" && t.Name == "==" {
			for i := 0; i < 2; i++ {
				if x := t.Args[i]; t.Args[1-i] == tNil && (x.Op == "composed" || x.Op == "call") {
					return false, true
				}
			}
		}
		return false, false
	}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil {
			switch {
			case relPkgOf(c.Callee) == "relapse/compose" && c.Callee.Name() == "NewBoolFunc":
				f := c.Args[0]
				if f.Op == "gval" {
					if g := p.globalInit(f.Name); g != nil {
						f = g
					}
				}
				c.Result = mk("tuple", "", mk("composed", "", strip(f)), tNil)
				return Pure
			case relPkgOf(c.Callee) == "relapse/funcs":
				args := make([]*Term, len(c.Args))
				for i, a := range c.Args {
					a = strip(st.Resolve(a))
					if a.Op == "gval" {
						if g := p.globalInit(a.Name); g != nil {
							a = g
						}
					}
					args[i] = a
				}
				r := mk("call", fname(c.Callee), args...)
				if strings.HasSuffix(r.Name, ".IsTrue") || strings.HasSuffix(r.Name, ".IsFalse") {
					if a := args[0]; a.Op == "call" && strings.HasSuffix(a.Name, ".BoolConst") {
						r = tBool(a.Args[0].isTrue() == strings.HasSuffix(r.Name, ".IsTrue"))
					}
				}
				c.Result = r
				return Pure
			case c.Callee.Name() == "Equal" && c.Callee.Signature.Recv() != nil && relPkgOf(c.Callee) == "relapse/ast":
				return Pure
			case idx != nil && idx(st, c):
				return Event
			}
			return Inline
		}
		if c.Method != nil && c.Method.Name() == "Eval" {
			f := throughAs(c.Recv)
			if f.Op != "composed" {
				st.Fail(c.Instr.Pos(), "%s is evaluated", short(f.String()))
				return Pure
			}
			if strip(c.Args[0]) != ck.label {
				st.Fail(c.Instr.Pos(), "a condition is evaluated on %s", short(c.Args[0].String()))
				return Pure
			}
			c.Result = mk("tuple", "", mk("evalb", "", f.Args[0], ck.label), mk("everr", "", f.Args[0], ck.label))
			return Pure
		}
		return Pure
	}
	return s
}

func goodErr(st *State, err *Term) (failed, ok bool) {
	for f, v := range st.facts {
		if f.Op == "bin" && f.Name == "==" && !v {
			for i := 0; i < 2; i++ {
				if f.Args[i].Op == "everr" && f.Args[1-i] == tNil {
					failed = true
					if err == f.Args[i] {
						return true, true
					}
				}
			}
		}
	}
	if failed {
		return true, false
	}
	return false, true
}

func treeRule(p *Prog, r *Report) {
	r.Explain("The code that combines the conditions of a state into one decision tree is enumerated path by path together with the evaluation of the tree. What a path has learned (a condition was evaluated, two conditions are equal, a conjunction can not hold) has to imply each answer it gives, for every truth value of the conditions that agrees with it. Memoized trees are evaluated twice in a row with unrelated values.")
	r.guard("mem", func() { treeMem(p, r) })
	r.guard("auto", func() { treeAuto(p, r) })
	r.Expect("decision paths", 300)
	r.Assume("And, Or, Not, IsTrue, IsFalse and Equal of conditions mean what they say (C08, C17); sets and zipping are taken as given (C07, C28).")
}

func newTreeCheck(list *Term, cond, thn, els string, label *Term) *treeCheck {
	ck := &treeCheck{label: label}
	for _, e := range list.Args {
		ck.conds = append(ck.conds, tField(e, cond))
		ck.thn = append(ck.thn, tField(e, thn))
		ck.els = append(ck.els, tField(e, els))
	}
	return ck
}

// ifFields names the fields of an if expression by type: the condition, and the two patterns in order.
func ifFields(t types.Type) (cond, thn, els string) {
	n := named2(t)
	if n == nil {
		return
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.IsInterface(f.Type()) {
			cond = f.Name()
			continue
		}
		l := strings.ToLower(f.Name())
		if strings.HasPrefix(l, "th") {
			thn = f.Name()
		} else if strings.HasPrefix(l, "el") {
			els = f.Name()
		}
	}
	return
}

func treeMem(p *Prog, r *Report) {
	ifT := p.Type("relapse/intern", "IfExpr")
	cond, thn, els := ifFields(types.NewPointer(ifT))
	if cond == "" || thn == "" || els == "" {
		failAnchor("fields of intern.IfExpr")
	}
	// the builder takes the conditions, the evaluator takes the tree and a value
	var build, eval *ssa.Function
	for _, f := range p.funcsIn("relapse/mem") {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		ps := f.Signature.Params()
		if f.Signature.Recv() == nil && ps.Len() == 1 && f.Signature.Results().Len() == 1 {
			if sl, ok := ps.At(0).Type().(*types.Slice); ok && types.Identical(sl.Elem(), types.NewPointer(ifT)) {
				build = f
			}
		}
	}
	if build == nil {
		failAnchor("builder of condition trees in relapse/mem")
	}
	tt := build.Signature.Results().At(0).Type()
	for _, f := range p.funcsIn("relapse/mem") {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Results().Len() != 3 {
			continue
		}
		for _, a := range f.Params {
			if types.Identical(a.Type(), tt) {
				eval = f
			}
		}
	}
	if eval == nil {
		failAnchor("evaluation of condition trees in relapse/mem")
	}
	add := p.Method("relapse/intern", "SetOfPatterns", "Add")
	get := p.Method("relapse/intern", "SetOfPatterns", "Get")
	maxN := 3
	for n := 0; n <= maxN; n++ {
		list := listOf(sym("ifs"), n)
		l1, l2 := sym("label1"), sym("label2")
		ck := newTreeCheck(list, cond, thn, els, l1)
		s := treeSim(p, ck, nil)
		built := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			built++
			evals := 2
			if n == maxN && r.Tier != "thorough" {
				evals = 1
			}
			treeMemEval(p, r, eval, add, get, st, rets[0], list, cond, thn, els, []*Term{l1, l2}[:evals])
		}
		s.Run(build, []*Term{list}, nil)
		r.Sim("mem:"+fname(build), s)
		if built == 0 && len(s.Errs) == 0 {
			r.Fail("mem:"+fname(build), p.posOf(build.Pos()), "undecided: no path returns")
		}
	}
}

func treeMemEval(p *Prog, r *Report, eval, add, get *ssa.Function, from *State, root, list *Term, cond, thn, els string, labels []*Term) {
	ck := newTreeCheck(list, cond, thn, els, labels[0])
	key := "mem:" + fname(eval)
	s := treeSim(p, ck, func(st *State, c *Call) bool {
		switch c.Callee {
		case add:
			c.Result = mk("state", "", st.snapshot(c.Args[1]))
			return true
		case get:
			c.Result = mk("entry", "", strip(c.Args[1]))
			return true
		}
		return false
	})
	n := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		n++
		r.Count("decision paths", 1)
		if failed, ok := goodErr(st, rets[2]); failed {
			if !ok {
				st.Fail(pos, "the error of a condition is lost")
			}
			return
		}
		if rets[2] != tNil {
			if nn, k := st.IsNil(rets[2]); !k || !nn {
				st.Fail(pos, "an error without a reason: %s", short(rets[2].String()))
				return
			}
		}
		ok := rets[0].Op == "field" && rets[0].Name == "IndexOfZippedPatterns" && rets[1].Op == "field" && rets[1].Name == "IndexOfZippedIndexes" && rets[0].Args[0] == rets[1].Args[0]
		if !ok || rets[0].Args[0].Op != "entry" {
			st.Fail(pos, "the answer is %s, %s and not the zipped patterns and indexes of a state", short(rets[0].String()), short(rets[1].String()))
			return
		}
		state := strip(rets[0].Args[0].Args[0])
		if state.Op != "state" {
			st.Fail(pos, "the state is %s and not that of the answers", short(state.String()))
			return
		}
		if state.Args[0].Op != "list" {
			st.Fail(pos, "undecided: the answers are %s", short(state.Args[0].String()))
			return
		}
		if why := ck.judge(st, state.Args[0].Args); why != "" {
			st.Fail(pos, "%s", why)
			return
		}
		if len(labels) > 1 {
			treeMemEval(p, r, eval, add, get, st, root, list, cond, thn, els, labels[1:])
		}
	}
	args := make([]*Term, len(eval.Params))
	for i, a := range eval.Params {
		if n := named2(a.Type()); n != nil && types.IsInterface(a.Type()) {
			args[i] = labels[0]
		} else if n != nil && n.Obj().Name() == "Mem" {
			args[i] = sym("mem")
		} else {
			args[i] = root
		}
	}
	s.Run(eval, args, func(st *State) {
		for a, v := range from.mem {
			st.mem[a] = v
		}
		for f, v := range from.facts {
			st.facts[f] = v
		}
		st.nfresh = from.nfresh + 1000
		st.Data["root"] = root
	})
	r.Sim(key, s)
	if n == 0 && len(s.Errs) == 0 {
		r.Fail(key, p.posOf(eval.Pos()), "undecided: no path returns")
	}
}

func treeAuto(p *Prog, r *Report) {
	var build, tree, eval *ssa.Function
	var elem types.Type
	fs := p.funcsIn("relapse/auto")
	for _, f := range fs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil {
			continue
		}
		ps := f.Signature.Params()
		if ps.Len() != 1 || f.Signature.Results().Len() != 1 {
			continue
		}
		if sl, ok := ps.At(0).Type().(*types.Slice); ok {
			if c, t, e := ifFields(sl.Elem()); c != "" && t != "" && e != "" && named2(f.Signature.Results().At(0).Type()) != nil {
				build, elem = f, sl.Elem()
			}
		}
	}
	if build == nil {
		failAnchor("builder of condition trees in relapse/auto")
	}
	cond, thn, els := ifFields(elem)
	tt := build.Signature.Results().At(0).Type()
	for _, f := range fs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Results().Len() != 2 {
			continue
		}
		for i, a := range f.Params {
			if i > 0 && types.Identical(a.Type(), tt) {
				tree = f
			}
		}
	}
	if tree == nil {
		failAnchor("translation of condition trees in relapse/auto")
	}
	ct := tree.Signature.Results().At(0).Type()
	for _, f := range fs {
		if f.Parent() == nil && f.Synthetic == "" && f.Signature.Results().Len() == 3 && len(f.Params) == 2 && types.Identical(f.Params[0].Type(), ct) {
			eval = f
		}
	}
	if eval == nil {
		failAnchor("evaluation of condition trees in relapse/auto")
	}
	label := sym("label1")
	for n := 0; n <= 3; n++ {
		list := listOf(sym("ifs"), n)
		ck := newTreeCheck(list, cond, thn, els, label)
		present := map[*Term]bool{}
		for i := range ck.conds {
			present[tEq(ck.els[i], tNil)] = false
			present[tEq(ck.thn[i], tNil)] = false
		}
		withPresent := func(s *Sim) {
			d := s.Decide
			s.Decide = func(t *Term) (bool, bool) {
				if v, ok := present[t]; ok {
					return v, true
				}
				return d(t)
			}
		}
		s := treeSim(p, ck, nil)
		withPresent(s)
		parent := sym("parent")
		nb := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			nb++
			root := rets[0]
			s2 := treeSim(p, ck, func(st *State, c *Call) bool {
				if c.Callee == nil {
					return false
				}
				if c.Callee.Name() == "Zip" && relPkgOf(c.Callee) == "relapse/sets" {
					l := st.snapshot(c.Args[0])
					c.Result = mk("tuple", "", mk("zipped", "", l), mk("zipper", "", l))
					return true
				}
				if c.Callee.Name() == "Add" && relPkgOf(c.Callee) == "relapse/sets" {
					c.Result = mk("idx", named2(c.Callee.Params[0].Type()).Obj().Name(), st.Resolve(c.Args[1]))
					return true
				}
				return false
			})
			withPresent(s2)
			s2.OnReturn = func(st2 *State, rets []*Term, pos tokenPos) {
				if rets[1] != tNil {
					if nn, k := st2.IsNil(rets[1]); !k || !nn {
						return
					}
				}
				croot := rets[0]
				s3 := treeSim(p, ck, nil)
				withPresent(s3)
				n3 := 0
				s3.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					n3++
					r.Count("decision paths", 1)
					if failed, ok := goodErr(st, rets[2]); failed {
						if !ok {
							st.Fail(pos, "the error of a condition is lost")
						}
						return
					}
					child, stack := strip(rets[0]), strip(rets[1])
					if child.Op != "idx" || child.Args[0].Op != "zipped" || child.Name != "Patterns" {
						st.Fail(pos, "the child state is %s", short(child.String()))
						return
					}
					answers := child.Args[0].Args[0]
					if stack.Op != "idx" || stack.Name != "Pairs" || !stack.mentions(parent) || !stack.mentions(mk("idx", "Ints", mk("zipper", "", answers))) {
						st.Fail(pos, "the stack element is %s and not the parent with the zipped indexes", short(stack.String()))
						return
					}
					if a := stack.Args[0]; tField(a, "First") != parent || tField(a, "Second") != mk("idx", "Ints", mk("zipper", "", answers)) {
						st.Fail(pos, "the stack element is %s and not the parent with the zipped indexes", short(stack.String()))
						return
					}
					if answers.Op != "list" {
						st.Fail(pos, "undecided: the answers are %s", short(answers.String()))
						return
					}
					if why := ck.judge(st, answers.Args); why != "" {
						st.Fail(pos, "%s", why)
					}
				}
				s3.Run(eval, []*Term{croot, label}, carry(st2, croot))
				r.Sim("auto:"+fname(eval), s3)
				if n3 == 0 && len(s3.Errs) == 0 {
					r.Fail("auto:"+fname(eval), p.posOf(eval.Pos()), "undecided: no path returns")
				}
			}
			args := make([]*Term, len(tree.Params))
			for i, a := range tree.Params {
				switch {
				case types.Identical(a.Type(), tt):
					args[i] = root
				case isIntType(a.Type()):
					args[i] = parent
				default:
					args[i] = sym("compiler")
				}
			}
			s2.Run(tree, args, carry(st, root))
			r.Sim("auto:"+fname(tree), s2)
		}
		s.Run(build, []*Term{list}, nil)
		r.Sim("auto:"+fname(build), s)
		if nb == 0 && len(s.Errs) == 0 {
			r.Fail("auto:"+fname(build), p.posOf(build.Pos()), "undecided: no path returns")
		}
	}
}

// carry continues with the memory and the knowledge of another path.
func carry(from *State, root *Term) func(*State) {
	return func(st *State) {
		for a, v := range from.mem {
			st.mem[a] = v
		}
		for f, v := range from.facts {
			st.facts[f] = v
		}
		st.nfresh = from.nfresh + 1000
		st.Data["root"] = root
	}
}
