package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C29", "other", bindRule) }

// reflectModel gives the calls into package reflect their meaning on trees of conditions: fields and elements
// hold interfaces, their dynamic values are pointers to structs.
func reflectModel(st *State, c *Call, n int) bool {
	name := ""
	var recv *Term
	args := c.Args
	if c.Callee != nil && c.Callee.Pkg != nil && c.Callee.Pkg.Pkg.Path() == "reflect" {
		name = c.Callee.Name()
		if c.Callee.Signature.Recv() != nil {
			recv, args = strip(c.Args[0]), c.Args[1:]
		}
	} else if c.Method != nil && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "reflect" {
		name, recv = c.Method.Name(), strip(c.Recv)
	} else {
		return false
	}
	switch name {
	case "ValueOf":
		x := strip(args[0])
		if x.Op == "rint" {
			v := x.Args[0]
			if v.Op == "rfield" || v.Op == "rindex" {
				c.Result = mk("relem", "", v)
			} else {
				c.Result = v
			}
		} else {
			c.Result = mk("rv", "", x)
		}
	case "TypeOf":
		x := strip(args[0])
		if x.Op == "rint" {
			v := x.Args[0]
			if v.Op == "rfield" || v.Op == "rindex" {
				v = mk("relem", "", v)
			}
			c.Result = mk("rtype", "", v)
		} else {
			c.Result = mk("rtype", "", mk("rv", "", x))
		}
	case "Elem":
		if recv.Op == "rtype" {
			c.Result = mk("rtype", "", mk("relem", "", recv.Args[0]))
		} else {
			c.Result = mk("relem", "", recv)
		}
	case "Indirect":
		c.Result = mk("relem", "", strip(args[0]))
	case "NumField", "Len":
		c.Result = tInt(int64(n))
	case "Field":
		if recv.Op == "rtype" {
			return false
		}
		c.Result = mk("rfield", "", recv, args[0])
	case "Index":
		c.Result = mk("rindex", "", recv, args[0])
	case "Interface":
		c.Result = mk("rint", "", recv)
	case "Type":
		c.Result = mk("rtype", "", recv)
	case "MethodByName":
		a := ""
		if args[0].Op == "const" {
			a = args[0].Name
		}
		c.Result = mk("tuple", "", mk("method", a, recv), mk("has", a, recv))
	case "Implements":
		c.Result = mk("impl", "", recv, args[0])
	default:
		return false
	}
	return true
}

// flatten lists the parts of an appended list.
func flatten(t *Term) []*Term {
	t = strip(t)
	switch t.Op {
	case "append":
		return append(flatten(t.Args[0]), flatten(t.Args[1])...)
	case "list":
		return t.Args
	}
	if t == tNil {
		return nil
	}
	return []*Term{mk("all", "", t)}
}

// sameBag compares two collections of terms.
func sameBag(got, want []*Term) (missing, extra *Term) {
	m := map[*Term]int{}
	for _, t := range want {
		m[t]++
	}
	for _, t := range got {
		if m[t] == 0 {
			return nil, t
		}
		m[t]--
	}
	for _, t := range want {
		if m[t] > 0 {
			return t, nil
		}
	}
	return nil, nil
}

func bindRule(p *Prog, r *Report) {
	r.Explain("Variables and the user's context are bound by walking a condition with reflection. The rule checks the binding functions path by path (every operand is searched, every implementer found gets the value before evaluation), the types of all kinds of condition (no operand sits where the walk cannot reach it), the variables themselves, and the functions that carry a context to every condition of a grammar.")
	impl := p.Func("relapse/compose", "FuncImplements")
	r.guard("search", func() { searchRule(p, r, impl) })
	r.guard("typetokens", func() { typeTokens(p, r) })
	r.guard("eval", func() { bindEval(p, r, impl) })
	r.guard("fields", func() { bindFields(p, r) })
	r.guard("vars", func() { bindVars(p, r) })
	r.guard("intern", func() { bindIntern(p, r) })
	r.guard("auto", func() { bindAuto(p, r) })
	r.Expect("kinds of condition", 90)
	r.Expect("variables", 6)
	r.Expect("binding functions", 8)
	r.Assume("Functions registered by users keep their operands in fields like the ones of this package do.")
	r.Assume("Operands are never nil interfaces (guaranteed by the constructors, which call methods on them).")
}

func searchRule(p *Prog, r *Report, fn *ssa.Function) {
	key := "search:" + fname(fn)
	r.Count("binding functions", 1)
	x, typ := sym("x"), sym("typ")
	for n := 0; n <= 2; n++ {
		s := &Sim{P: p, NoHavoc: true, Unroll: true}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee == fn {
				if strip(c.Args[1]) != typ {
					st.Fail(c.Instr.Pos(), "an operand is searched for another type")
				}
				c.Result = mk("search", "", strip(c.Args[0]))
				return Event
			}
			if reflectModel(st, c, n) {
				return Pure
			}
			if c.Callee != nil && inRepo(c.Callee) {
				return Inline
			}
			return Pure
		}
		ret := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			ret++
			r.Count("obligations", 1)
			var want []*Term
			e := mk("relem", "", mk("rv", "", x))
			for k := 0; k < n; k++ {
				f := mk("rfield", "", e, tInt(int64(k)))
				has, ok := false, false
				for t, v := range st.facts {
					if t.Op == "has" && t.Name == "\"Eval\"" && t.Args[0] == mk("rtype", "", f) {
						has, ok = v, true
					}
				}
				if !ok {
					st.Fail(pos, "not every field is looked at")
					return
				}
				if !has {
					continue
				}
				list, lok := false, false
				for t, v := range st.facts {
					if t.Op == "impl" && t.Args[0] == mk("rtype", "", mk("relem", "", f)) && t.Args[1].Op == "gval" && strings.HasSuffix(t.Args[1].Name, "listOfTyp") {
						list, lok = v, true
					}
				}
				if !lok {
					st.Fail(pos, "undecided: whether an operand is a list is not asked")
					return
				}
				if !list {
					want = append(want, mk("all", "", mk("search", "", mk("rint", "", f))))
					continue
				}
				l := mk("rfield", "", mk("relem", "", mk("relem", "", f)), tInt(0))
				for j := 0; j < n; j++ {
					want = append(want, mk("all", "", mk("search", "", mk("rint", "", mk("rindex", "", l, tInt(int64(j)))))))
				}
			}
			self, ok := false, false
			for t, v := range st.facts {
				if t.Op == "impl" && t.Args[0] == mk("rtype", "", mk("rv", "", x)) && t.Args[1] == typ {
					self, ok = v, true
				}
			}
			if !ok {
				st.Fail(pos, "the function itself is not looked at")
				return
			}
			if self {
				want = append(want, x)
			}
			missing, extra := sameBag(flatten(rets[0]), want)
			if missing != nil {
				st.Fail(pos, "not found: %s", short(missing.String()))
			} else if extra != nil {
				st.Fail(pos, "found %s, which is no operand or was found already", short(extra.String()))
			}
		}
		s.Run(fn, []*Term{x, typ}, nil)
		r.Sim(key, s)
		if ret == 0 && len(s.Errs) == 0 {
			r.Fail(key, p.posOf(fn.Pos()), "undecided: no path returns")
		}
	}
}

// typeTokens: the reflect.Type variables stand for the interfaces of package funcs they are named after.
func typeTokens(p *Prog, r *Report) {
	want := map[string]string{"setterTyp": "Setter", "listOfTyp": "ListOf", "setContextTyp": "SetContext"}
	sp := p.SPkg["relapse/compose"]
	if sp == nil {
		failAnchor("package relapse/compose")
	}
	init := sp.Func("init")
	seen := map[string]string{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok || want[g.Name()] == "" {
				continue
			}
			var find func(v ssa.Value, d int)
			find = func(v ssa.Value, d int) {
				if d > 6 {
					return
				}
				switch v := v.(type) {
				case *ssa.Const:
					if pt, ok := v.Type().(*types.Pointer); ok {
						if n := named(pt.Elem()); n != nil {
							seen[g.Name()] = n.Obj().Name()
						}
					}
				case *ssa.MakeInterface:
					find(v.X, d+1)
				case *ssa.Call:
					if v.Call.IsInvoke() {
						find(v.Call.Value, d+1)
					}
					for _, a := range v.Call.Args {
						find(a, d+1)
					}
				}
			}
			find(st.Val, 0)
		}
	}
	for g, w := range want {
		r.Count("obligations", 1)
		if seen[g] != w {
			r.Fail("typetoken:"+g, p.posOf(init.Pos()), "it stands for %q and not for funcs.%s", seen[g], w)
		}
	}
}

// bindEval: NewBoolFunc collects the variables, Eval sets all of them and then evaluates, SetContext sets the
// context of all functions that take one.
func bindEval(p *Prog, r *Report, impl *ssa.Function) {
	f, ctx, val := sym("f"), sym("context"), sym("val")
	for n := 0; n <= 2; n++ {
		found := listOf(sym("found"), n)
		classify := func(s *Sim, token string) {
			s.Classify = func(st *State, c *Call) Action {
				if c.Callee == impl {
					if strip(c.Args[0]) != f {
						st.Fail(c.Instr.Pos(), "another function is searched: %s", short(c.Args[0].String()))
					}
					if !strings.HasSuffix(c.Args[1].Name, token) {
						st.Fail(c.Instr.Pos(), "searched for %s", short(c.Args[1].String()))
					}
					c.Result = found
					return Event
				}
				if c.Method != nil {
					return Event
				}
				return Inline
			}
		}
		// SetContext
		if fn := p.Func("relapse/compose", "SetContext"); n == 0 || true {
			r.Count("binding functions", 1)
			s := &Sim{P: p, NoHavoc: true, Unroll: true}
			classify(s, "setContextTyp")
			s.OnEvent = func(st *State, c *Call) {
				if c.Method == nil {
					return
				}
				if c.Method.Name() != "SetContext" || strip(c.Args[0]) != ctx {
					st.Fail(c.Instr.Pos(), "%s is called with %s", c.Method.Name(), short(c.Args[0].String()))
					return
				}
				logged(st, throughAs(c.Recv))
			}
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				r.Count("obligations", 1)
				if missing, extra := sameBag(logOf(st), found.Args); missing != nil {
					st.Fail(pos, "the context of a function is not set")
				} else if extra != nil {
					st.Fail(pos, "the context is set on %s", short(extra.String()))
				}
			}
			s.Run(fn, []*Term{f, ctx}, nil)
			r.Sim("setcontext", s)
		}
		// NewBoolFunc followed by Eval
		fn := p.Func("relapse/compose", "NewBoolFunc")
		r.Count("binding functions", 1)
		s := &Sim{P: p, NoHavoc: true, Unroll: true}
		classify(s, "setterTyp")
		ret := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			ret++
			if rets[1] != tNil {
				return
			}
			b := rets[0]
			if b.Op != "iface" || b.Typ == nil {
				st.Fail(pos, "undecided: the result is %s", short(b.String()))
				return
			}
			ev := p.SSA.LookupMethod(b.Typ, nil, "Eval")
			if ev == nil || ev.Blocks == nil {
				st.Fail(pos, "undecided: no Eval method")
				return
			}
			obj := strip(b)
			mem := copyTT(st.mem)
			s2 := &Sim{P: p, NoHavoc: true, Unroll: true}
			s2.Classify = func(st *State, c *Call) Action {
				if c.Method != nil {
					return Event
				}
				return Inline
			}
			s2.OnEvent = func(st *State, c *Call) {
				switch c.Method.Name() {
				case "SetValue":
					if strip(c.Args[0]) != val {
						st.Fail(c.Instr.Pos(), "a variable is set to %s", short(c.Args[0].String()))
						return
					}
					if st.Mon != "" {
						st.Fail(c.Instr.Pos(), "a variable is set after the evaluation")
						return
					}
					logged(st, throughAs(c.Recv))
				case "Eval":
					if st.Mon != "" || throughAs(c.Recv) != f {
						st.Fail(c.Instr.Pos(), "%s is evaluated", short(c.Recv.String()))
						return
					}
					st.Mon = "evaluated"
					if missing, extra := sameBag(logOf(st), found.Args); missing != nil {
						st.Fail(c.Instr.Pos(), "a variable is not set before the evaluation")
					} else if extra != nil {
						st.Fail(c.Instr.Pos(), "set on %s", short(extra.String()))
					}
					c.Result = mk("tuple", "", sym("result"), sym("err"))
				}
			}
			s2.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				r.Count("obligations", 1)
				errNil, known := st.IsNil(sym("err"))
				okErr := rets[1] == sym("err") || known && errNil && rets[1] == tNil
				okRes := rets[0] == sym("result") || known && !errNil
				if v, ok := st.Fact(sym("result")); ok && (v && rets[0].isTrue() || !v && rets[0].isFalse()) {
					okRes = true
				}
				if st.Mon != "evaluated" || !okErr || !okRes {
					st.Fail(pos, "the result is %s, %s and not that of the function", short(rets[0].String()), short(rets[1].String()))
				}
			}
			s2.Run(ev, []*Term{obj, val}, func(st2 *State) {
				st2.mem = mem
				st2.Data["obj"] = obj
			})
			r.Sim("eval", s2)
		}
		s.Run(fn, []*Term{f}, func(st *State) {})
		r.Sim("newboolfunc", s)
		if ret == 0 && len(s.Errs) == 0 {
			r.Fail("newboolfunc", p.posOf(fn.Pos()), "undecided: no path returns")
		}
	}
}

// throughAs drops type assertions.
func throughAs(t *Term) *Term {
	t = strip(t)
	for t.Op == "as" || t.Op == "extract" && t.Args[0].Op == "as" {
		t = strip(t.Args[0])
	}
	return t
}

// bindFields: every operand of a condition sits in a field whose static type has an Eval method, or in the
// first field of a list.
func bindFields(p *Prog, r *Report) {
	comparable := p.Type("relapse/funcs", "Comparable").Underlying().(*types.Interface)
	listOfT := p.Type("relapse/funcs", "ListOf").Underlying().(*types.Interface)
	isFunc := func(t types.Type) bool { return types.Implements(t, comparable) }
	hasEval := func(t types.Type) bool {
		o, _, _ := types.LookupFieldOrMethod(t, false, p.Type("relapse/funcs", "Comparable").Obj().Pkg(), "Eval")
		_, ok := o.(*types.Func)
		return ok
	}
	var holds func(t types.Type, d int) bool
	holds = func(t types.Type, d int) bool {
		if d > 4 {
			return false
		}
		if isFunc(t) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return holds(u.Elem(), d+1)
		case *types.Array:
			return holds(u.Elem(), d+1)
		case *types.Map:
			return holds(u.Key(), d+1) || holds(u.Elem(), d+1)
		case *types.Pointer:
			return isFunc(t) || d < 2 && relOf(u.Elem()) == "relapse/funcs" && holds(u.Elem(), d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if holds(u.Field(i).Type(), d+1) {
					return true
				}
			}
		case *types.Interface:
			return isFunc(t)
		}
		return false
	}
	for _, n := range p.funcNodes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		r.Count("kinds of condition", 1)
		isList := types.Implements(types.NewPointer(n), listOfT)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isList && i == 0 {
				sl, ok := f.Type().Underlying().(*types.Slice)
				if !ok || !isFunc(sl.Elem()) {
					r.Fail("field:"+n.Obj().Name()+"."+f.Name(), p.posOf(f.Pos()), "the first field of a list does not hold its elements")
				}
				r.Count("operands", 1)
				continue
			}
			if !holds(f.Type(), 0) {
				continue
			}
			r.Count("operands", 1)
			if isList || !hasEval(f.Type()) {
				r.Fail("field:"+n.Obj().Name()+"."+f.Name(), p.posOf(f.Pos()), "variables in this operand are not found: %s", f.Type())
			}
		}
	}
	r.Expect("operands", 120)
}

func relOf(t types.Type) string {
	if n := named(t); n != nil && n.Obj().Pkg() != nil {
		return rel(n.Obj().Pkg().Path())
	}
	return ""
}

// bindVars: a variable evaluates to the value that was set last, read by the method of its type.
func bindVars(p *Prog, r *Report) {
	setter := p.Type("relapse/funcs", "Setter").Underlying().(*types.Interface)
	for _, n := range p.funcNodes() {
		if !types.Implements(types.NewPointer(n), setter) {
			continue
		}
		r.Count("variables", 1)
		key := "var:" + n.Obj().Name()
		r.guard(key, func() {
			set, eval := p.methodOf(n, "SetValue"), p.methodOf(n, "Eval")
			this, v := sym("this"), sym("v")
			field := ""
			s := &Sim{P: p, NoHavoc: true}
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				here := ""
				for a, x := range st.mem {
					if a.Op == "fa" && a.Args[0] == this && strip(x) == v {
						here = a.Name
					}
				}
				if here == "" {
					st.Fail(pos, "the value is not kept")
					return
				}
				field = here
			}
			s.Run(set, []*Term{this, v}, func(st *State) { st.Data["this"] = this })
			r.Sim(key, s)
			if field == "" {
				return
			}
			// Eval
			want := map[string]string{"float64": "Double", "int64": "Int", "uint64": "Uint", "bool": "Bool", "string": "String", "[]byte": "Bytes", "[]uint8": "Bytes"}[eval.Signature.Results().At(0).Type().String()]
			if want == "" {
				r.Fail(key, p.posOf(eval.Pos()), "undecided: evaluates to %s", eval.Signature.Results().At(0).Type())
				return
			}
			for _, unset := range []bool{false, true} {
				s := &Sim{P: p, NoHavoc: true, Decide: func(t *Term) (bool, bool) {
					if t == tEq(tField(this, field), tNil) {
						return unset, true
					}
					return false, false
				}}
				val, err := sym("value"), sym("err")
				s.Classify = func(st *State, c *Call) Action {
					if c.Method != nil {
						if strip(c.Recv) != tField(this, field) || c.Method.Name() != want {
							st.Fail(c.Instr.Pos(), "%s of %s is asked", c.Method.Name(), short(c.Recv.String()))
						}
						if unset {
							st.Fail(c.Instr.Pos(), "a variable without a value is read")
						}
						c.Result = mk("tuple", "", val, err)
						return Event
					}
					return Inline
				}
				ret := 0
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					ret++
					r.Count("obligations", 1)
					if unset {
						if n, k := st.IsNil(rets[1]); !k || n {
							st.Fail(pos, "a variable without a value evaluates without an error")
						}
						return
					}
					isNil, known := st.IsNil(err)
					if known && !isNil {
						if rets[1] != err {
							st.Fail(pos, "the error is lost")
						}
						return
					}
					ok := rets[0] == val
					if v, k := st.Fact(val); k && (v && rets[0].isTrue() || !v && rets[0].isFalse()) {
						ok = true
					}
					if !ok || !(rets[1] == err || known && rets[1] == tNil) {
						st.Fail(pos, "it evaluates to %s, %s", short(rets[0].String()), short(rets[1].String()))
					}
				}
				s.Run(eval, []*Term{this}, nil)
				r.Sim(key, s)
				if ret == 0 && len(s.Errs) == 0 {
					r.Fail(key, p.posOf(eval.Pos()), "undecided: no path returns")
				}
			}
		})
	}
}

// bindIntern: the context reaches every condition of the grammar, now and when conditions are built later.
func bindIntern(p *Prog, r *Report) {
	setc := p.Func("relapse/compose", "SetContext")
	set := p.Method("relapse/intern", "construct", "SetContext")
	c0, ctx := sym("c"), sym("context")
	// SetContext visits every declaration with some function on patterns
	var visit *ssa.Function
	s := &Sim{P: p, NoHavoc: true}
	isPat := func(t types.Type) bool {
		n := named2(t)
		return n != nil && n.Obj().Name() == "Pattern" && relOf2(n) == "relapse/intern"
	}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && inRepo(c.Callee) {
			for _, a := range c.Callee.Params {
				if isPat(a.Type()) {
					return Event
				}
			}
		}
		return Inline
	}
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		if cond.Op == "hasnext" {
			if st.Mon == "turn" {
				st.Fail(set.Pos(), "a declaration is left out")
			}
			if taken {
				st.Mon = "turn"
			} else {
				st.Mon = "end"
			}
		}
	}
	patIdx := -1
	s.OnEvent = func(st *State, c *Call) {
		for i, a := range c.Callee.Params {
			if isPat(a.Type()) {
				t := strip(c.Args[i])
				refs := tField(c0, "refs")
				if !(t.Op == "rval" && t.mentions(refs) || t.Op == "lookup" && t.Args[0] == refs && t.Args[1].Op == "rkey") {
					st.Fail(c.Instr.Pos(), "the context is set on %s", short(t.String()))
					return
				}
				visit, patIdx = c.Callee, i
				if v := st.Load(tFA(c0, "context"), ctx.Typ); v != ctx && !hasArg(c, ctx) {
					st.Fail(c.Instr.Pos(), "the context is not kept before it is used")
					return
				}
			}
		}
		st.Mon = "visited"
	}
	ends := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if st.Mon != "end" {
			st.Fail(pos, "not every declaration is visited")
			return
		}
		ends++
		if v := st.Load(tFA(c0, "context"), ctx.Typ); v != ctx {
			st.Fail(pos, "the context is not kept for conditions built later")
		}
	}
	s.Run(set, []*Term{c0, ctx}, func(st *State) { st.Data["c"] = c0 })
	r.Count("binding functions", 1)
	r.Sim("intern:SetContext", s)
	if visit == nil || ends == 0 {
		if len(s.Errs) == 0 {
			r.Fail("intern:SetContext", p.posOf(set.Pos()), "undecided: no loop over the declarations")
		}
		return
	}
	// every kind of pattern
	kinds := p.internKinds()
	r.Count("binding functions", 1)
	for _, k := range sortedKeys(kinds) {
		for n := 1; n <= 3; n++ {
			if n > 1 && (k == "Node" || k == "ZeroOrMore" || k == "Not" || k == "Contains" || k == "Optional") {
				break
			}
			var want []*Term
			pt := sym("p")
			kids := listOf(tField(pt, "Patterns"), n)
			switch k {
			case "Empty", "ZAny", "Reference":
				kids = mk("list", "")
			case "Node":
				want = append(want, mk("ctx", "", tField(pt, "Func")))
			}
			want = append(want, kids.Args...)
			s := &Sim{P: p, NoHavoc: true, Unroll: true}
			s.Decide = func(t *Term) (bool, bool) {
				if t == tEq(tField(pt, "Func"), tNil) {
					return k != "Node", true // only element patterns have a condition
				}
				return false, false
			}
			s.Classify = func(st *State, c *Call) Action {
				if c.Callee == setc || c.Callee == visit && c.Recurse {
					return Event
				}
				return Inline
			}
			s.OnEvent = func(st *State, c *Call) {
				if c.Callee == visit {
					logged(st, strip(c.Args[patIdx]))
					return
				}
				if a := strip(c.Args[1]); a != tField(c0, "context") && a != ctx {
					st.Fail(c.Instr.Pos(), "the context is %s", short(a.String()))
					return
				}
				logged(st, mk("ctx", "", strip(c.Args[0])))
			}
			ret := 0
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				ret++
				r.Count("obligations", len(want)+1)
				got := map[*Term]bool{}
				for _, e := range logOf(st) {
					got[e] = true
				}
				for _, w := range want {
					if !got[w] {
						st.Fail(pos, "%s: the context does not reach %s", k, short(w.String()))
						return
					}
				}
			}
			args := make([]*Term, len(visit.Params))
			for i, a := range visit.Params {
				switch {
				case i == patIdx:
					args[i] = pt
				case named2(a.Type()) != nil && named2(a.Type()).Obj().Name() == "construct":
					args[i] = c0
				case named2(a.Type()) != nil && named2(a.Type()).Obj().Name() == "Context":
					args[i] = ctx
				}
			}
			s.Run(visit, args, func(st *State) {
				st.mem[tFA(pt, "Type")] = kinds[k]
				st.mem[tFA(pt, "Patterns")] = kids
				st.Data["p"] = pt
			})
			r.Sim("intern:"+fname(visit)+":"+k, s)
			if ret == 0 && len(s.Errs) == 0 {
				r.Fail("intern:"+fname(visit)+":"+k, p.posOf(visit.Pos()), "undecided: no path returns")
			}
		}
	}
	// conditions built later: every element pattern that is built with a condition has its context set
	pn := p.Type("relapse/intern", "Pattern")
	sites := 0
	for _, a := range p.allocators(pn) {
		for _, al := range a.allocs {
			f := al.fields["Func"]
			if f == nil {
				continue
			}
			if c, ok := f.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			sites++
			key := "intern:" + fname(a.fn) + ":build"
			r.guard(key, func() {
				c0 := sym("c")
				s := &Sim{P: p, NoHavoc: true}
				s.Decide = func(t *Term) (bool, bool) {
					if t == tEq(tField(c0, "context"), tNil) {
						return false, true
					}
					return false, false
				}
				s.Classify = func(st *State, c *Call) Action {
					if c.Callee == setc {
						return Event
					}
					if c.Callee != nil && inRepo(c.Callee) && relPkgOf(c.Callee) == "relapse/intern" && len(c.Callee.Blocks) < 4 {
						return Inline
					}
					return Pure
				}
				s.OnEvent = func(st *State, c *Call) {
					if strip(c.Args[1]) == tField(c0, "context") {
						logged(st, strip(c.Args[0]))
					}
				}
				s.OnStore = func(st *State, addr, val *Term, in ssa.Instruction) {
					if addr.Op == "fa" && addr.Name == "Func" && val != tNil {
						r.Count("obligations", 1)
						for _, e := range logOf(st) {
							if e == strip(val) {
								return
							}
						}
						st.Data["pending"] = strip(val)
					}
				}
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					if pd := st.Data["pending"]; pd != nil {
						for _, e := range logOf(st) {
							if e == pd {
								return
							}
						}
						st.Fail(pos, "a condition is built without the context: %s", short(pd.String()))
					}
				}
				var args []*Term
				if a.fn.Signature.Recv() != nil {
					args = []*Term{c0}
				}
				s.Run(a.fn, args, nil)
				r.Sim(key, s)
			})
		}
	}
	r.Count("binding functions", sites)
	if sites == 0 {
		r.Fail("intern:build", "-", "undecided: no function builds a pattern with a condition")
	}
	// the memoizing evaluator hands its context on
	if m := p.MethodOpt("relapse/mem", "Mem", "SetContext"); m != nil {
		r.Count("binding functions", 1)
		s := &Sim{P: p, NoHavoc: true}
		s.Classify = func(st *State, c *Call) Action {
			if c.Method != nil && c.Method.Name() == "SetContext" {
				return Event
			}
			return Inline
		}
		s.OnEvent = func(st *State, c *Call) {
			if strip(c.Recv) == tField(sym("m"), "construct") && strip(c.Args[0]) == ctx {
				st.Mon = "set"
			}
		}
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			if st.Mon != "set" {
				st.Fail(pos, "the context is not handed to the constructor of patterns")
			}
		}
		s.Run(m, []*Term{sym("m"), ctx}, nil)
		r.Sim("mem:SetContext", s)
	}
}

func hasArg(c *Call, t *Term) bool {
	for _, a := range c.Args {
		if strip(a) == t {
			return true
		}
	}
	return false
}

func named2(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return named(t)
}

func relOf2(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return rel(n.Obj().Pkg().Path())
}

// bindAuto: the compiler composes every leaf condition, and a condition composed later gets the context.
func bindAuto(p *Prog, r *Report) {
	setc := p.Func("relapse/compose", "SetContext")
	newBool := p.Func("relapse/compose", "NewBool")
	n := 0
	for _, f := range p.funcsIn("relapse/auto") {
		calls := false
		for _, ci := range callsIn(f) {
			if ci.Common().StaticCallee() == newBool {
				calls = true
			}
		}
		if !calls {
			continue
		}
		n++
		r.Count("binding functions", 1)
		key := "auto:" + fname(f)
		r.guard(key, func() {
			_ = setc
			this := sym("this")
			s := &Sim{P: p, NoHavoc: true}
			s.Classify = func(st *State, c *Call) Action {
				if c.Callee == newBool {
					return Event
				}
				return Pure
			}
			s.OnEvent = func(st *State, c *Call) {
				st.Data["expr"], st.Data["f"], st.Data["err"] = strip(c.Args[0]), sym("composed"), sym("err")
				c.Result = mk("tuple", "", sym("composed"), sym("err"))
			}
			s.OnStore = func(st *State, addr, val *Term, in ssa.Instruction) {
				if addr.Op == "mapaddr" && strip(val) == sym("composed") {
					r.Count("obligations", 1)
					if strip(addr.Args[1]) != st.Data["expr"] {
						st.Fail(in.Pos(), "a condition is filed under another expression")
					}
					st.Mon = "filed"
				}
			}
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				if st.Data["f"] == nil {
					return
				}
				if n, k := st.IsNil(sym("err")); k && !n {
					return // the failure is judged by C12
				}
				if st.Mon != "filed" {
					st.Fail(pos, "a composed condition is not filed")
				}
			}
			s.Run(f, []*Term{this}, nil)
			r.Sim(key, s)
		})
	}
	if n == 0 {
		r.Fail("auto", "-", "undecided: no function composes conditions")
	}
}
