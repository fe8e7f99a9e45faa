package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "other", composeRule)
}

// composer simulates the composition of expressions into functions.
type composer struct {
	p        *Prog
	r        *Report
	b        *builder
	et       types.Type // *ast.Expr
	typeOf   map[string]int64
	newValue *ssa.Function
	which    *ssa.Function
	convert  *ssa.Function
	getMaker *ssa.Function
}

// kinds: the name in the syntax tree and of the functions, and the types
var composeKinds = []string{"Double", "Int", "Uint", "Bool", "String", "Bytes"}

func newComposer(p *Prog, r *Report) *composer {
	c := &composer{p: p, r: r, b: newBuilder(p, r), typeOf: map[string]int64{}}
	c.et = types.NewPointer(p.Type("relapse/ast", "Expr"))
	for v, n := range c.b.types {
		var k int64
		fmt.Sscan(v, &k)
		c.typeOf[n] = k
	}
	c.newValue = p.Func("relapse/compose", "newValue")
	c.which = p.Func("relapse/compose", "Which")
	c.convert = p.Func("relapse/compose", "ConvertBuiltInIntoFunction")
	c.getMaker = p.Func("relapse/funcs", "GetMaker")
	return c
}

func child(i int) *Term { return sym(fmt.Sprintf("%s%d", xsym, i)) }

func valueOf(x *Term) *Term   { return mk("value", "", x) }
func typOf(x *Term) *Term     { return mk("typeof", "", x) }
func failsWith(t *Term) *Term { return mk("fails", "", t) }

func (c *composer) sim(top *Term) *Sim {
	s := &Sim{P: c.p, Unroll: true, NoHavoc: true, MaxDepth: 12}
	s.Recursion = func(f *ssa.Function) bool { return true }
	s.Decide = func(t *Term) (bool, bool) {
		// the types of expressions are known, and what is composed is not nil
		if t.Op == "bin" && t.Name == "<" {
			if t.Args[0] == tInt(0) && t.Args[1].Op == "typeof" {
				return true, true
			}
			if t.Args[1] == tInt(1) && t.Args[0].Op == "typeof" {
				return false, true
			}
		}
		if t == tEq(tNil, t) {
			return false, false
		}
		if t.Op == "bin" && t.Name == "==" {
			for i := 0; i < 2; i++ {
				if t.Args[i] == tNil && (t.Args[1-i].Op == "value" || t.Args[1-i].Op == "made") {
					return false, true
				}
			}
		}
		return false, false
	}
	s.Classify = func(st *State, k *Call) Action {
		if k.Callee == nil {
			return Pure
		}
		pair := func(v *Term) Action {
			k.Result = mk("tuple", "", v, failsWith(v))
			return Pure
		}
		switch {
		case k.Callee == c.newValue && len(k.Args) == 1 && isChild(k.Args[0]) && k.Args[0] != top:
			return pair(valueOf(k.Args[0]))
		case k.Callee == c.which && len(k.Args) == 1 && isChild(k.Args[0]) && k.Args[0] != top:
			return pair(typOf(k.Args[0]))
		case k.Callee == c.getMaker:
			ts := st.snapshot(k.Args[1])
			if ts == tNil {
				ts = mk("list", "")
			}
			return pair(mk("maker", "", k.Args[0], ts))
		case k.Callee.Signature.Recv() != nil && isKind(k.Callee.Signature.Recv().Type(), "Maker") && strings.HasPrefix(k.Callee.Name(), "New"):
			vs := st.snapshot(k.Args[1])
			if vs == tNil {
				vs = mk("list", "")
			}
			var es []*Term
			for _, v := range vs.Args {
				es = append(es, c.bare(v))
			}
			return pair(mk("made", k.Callee.Name(), k.Args[0], mk("list", "", es...)))
		case relPkgOf(k.Callee) == "relapse/funcs":
			return Pure
		case k.Callee.Name() == "String" && inRepo(k.Callee):
			return Pure
		case k.Name() == "(*relapse/ast.Expr).Clone":
			k.Result = mk("copy", "", k.Args[0])
			return Pure
		}
		if inRepo(k.Callee) && k.Callee.Blocks != nil {
			return Inline
		}
		return Pure
	}
	return s
}

// bare takes the wrapping off of a value.
func (c *composer) bare(v *Term) *Term {
	for v.Op == "iface" || v.Op == "as" || v.Op == "conv" {
		v = v.Args[0]
	}
	return v
}

// an expression to compose
type exprShape struct {
	name  string
	set   func(st *State, e *Term)
	typ   string // "" when it depends on the function
	wants func(st *State, v *Term) string
}

func (c *composer) shapes() []exprShape {
	var out []exprShape
	exprFields := []string{"Terminal", "List", "Function", "BuiltIn"}
	only := func(st *State, obj *Term, names []string, keep string) *Term {
		for _, n := range names {
			if n != keep {
				st.mem[tFA(obj, n)] = tNil
			}
		}
		k := tField(obj, keep)
		st.mem[tFA(obj, keep)] = k
		st.assume(tEq(k, tNil), false)
		return k
	}
	term := []string{"DoubleValue", "IntValue", "UintValue", "BoolValue", "StringValue", "BytesValue", "Variable"}
	call := func(f string, args ...*Term) string { return mk("call", "relapse/funcs."+f, args...).String() }
	same := func(want string) func(*State, *Term) string {
		return func(st *State, v *Term) string {
			if v.String() != want {
				return want
			}
			return ""
		}
	}
	for _, k := range composeKinds {
		k := k
		u := strings.ToUpper(k)
		out = append(out, exprShape{name: "a variable of type " + k, typ: "SINGLE_" + u, set: func(st *State, e *Term) {
			v := only(st, only(st, e, exprFields, "Terminal"), term, "Variable")
			st.mem[tFA(v, "Type")] = tInt(c.typeOf["SINGLE_"+u])
		}, wants: same(call(k + "Var"))})
		out = append(out, exprShape{name: "a constant of type " + k, typ: "SINGLE_" + u, set: func(st *State, e *Term) {
			v := only(st, only(st, e, exprFields, "Terminal"), term, k+"Value")
			if k == "Bytes" {
				return
			}
			st.mem[v] = sym("the value")
		}, wants: func(st *State, v *Term) string {
			w := sym("the value")
			if k == "Bytes" {
				w = tField(tField(sym(xsym+"top"), "Terminal"), "BytesValue")
			}
			return same(call(k+"Const", w))(st, v)
		}})
		for n := 0; n <= 3; n++ {
			n := n
			out = append(out, exprShape{name: fmt.Sprintf("a list of %d of type %s", n, k), typ: "LIST_" + u, set: func(st *State, e *Term) {
				l := only(st, e, exprFields, "List")
				st.mem[tFA(l, "Type")] = tInt(c.typeOf["LIST_"+u])
				st.mem[tFA(l, "Elems")] = c.children(st, n)
			}, wants: func(st *State, v *Term) string {
				f := "NewListOf" + k
				ok := v.Op == "call" && v.Name == "relapse/funcs."+f && len(v.Args) == 1
				if ok {
					l := st.snapshot(v.Args[0])
					ok = l.Op == "list" && len(l.Args) == n || n == 0 && l == tNil
					for i := range l.Args {
						ok = ok && c.bare(l.Args[i]) == valueOf(child(i))
					}
				}
				if !ok {
					return fmt.Sprintf("%s of its %d elements", f, n)
				}
				return ""
			}})
		}
	}
	for n := 0; n <= 3; n++ {
		n := n
		out = append(out, exprShape{name: fmt.Sprintf("a function of %d", n), set: func(st *State, e *Term) {
			f := only(st, e, exprFields, "Function")
			st.mem[tFA(f, "Name")] = sym("the name")
			st.mem[tFA(f, "Params")] = c.children(st, n)
		}, wants: func(st *State, v *Term) string {
			var ts, vs []*Term
			for i := 0; i < n; i++ {
				ts = append(ts, typOf(child(i)))
				vs = append(vs, valueOf(child(i)))
			}
			m := mk("maker", "", sym("the name"), mk("list", "", ts...))
			for t, name := range c.b.types {
				var k int64
				fmt.Sscan(t, &k)
				if eq, ok := st.Fact(tEq(tField(m, "Out"), tInt(k))); ok && eq {
					want := mk("made", c.maker(name), m, mk("list", "", vs...))
					if v != want {
						return want.String()
					}
					return ""
				}
			}
			return "something of the type the function returns"
		}})
	}
	return out
}

func (c *composer) maker(typ string) string {
	for _, k := range composeKinds {
		if typ == "SINGLE_"+strings.ToUpper(k) {
			return "New" + k
		}
	}
	if typ == "LIST_BYTES" {
		return "NewListOfBytes"
	}
	for _, k := range composeKinds {
		if typ == "LIST_"+strings.ToUpper(k) {
			return "New" + k + "s"
		}
	}
	return "?"
}

func (c *composer) children(st *State, n int) *Term {
	var es []*Term
	for i := 0; i < n; i++ {
		x := child(i)
		st.assume(tEq(x, tNil), false)
		es = append(es, x)
	}
	return mk("list", "", es...)
}

// an error of a part is known
func (c *composer) failed(st *State) bool {
	for f, v := range st.facts {
		if f.Op == "bin" && f.Name == "==" && !v {
			for i := 0; i < 2; i++ {
				if f.Args[i] == tNil && f.Args[1-i].Op == "fails" {
					return true
				}
			}
		}
		if f.Op == "istype" && !v {
			return true
		}
	}
	return false
}

// evaluates simulates what makes a function of an expression.
func (c *composer) evaluates(fn *ssa.Function, sh exprShape, only string) {
	top := sym(xsym + "top")
	top.Typ = c.et
	what := fname(fn) + " of " + sh.name
	s := c.sim(top)
	s.OnPanic = func(st *State, pos tokenPos) {
		if sh.typ == "" {
			// a function returns something of one of the types
			none := 0
			for _, t := range c.typeOf {
				for f, v := range st.facts {
					if !v && f.Op == "bin" && f.Name == "==" && (f.Args[0] == tInt(t) || f.Args[1] == tInt(t)) {
						none++
						break
					}
				}
			}
			if none >= 2*len(composeKinds) {
				return
			}
		}
		st.Fail(pos, "it panics")
	}
	done := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		done++
		c.r.Count("compositions", 1)
		v, err := c.bare(rets[0]), rets[1]
		if err.Op == "iface" {
			err = c.bare(err)
		}
		nl, known := st.IsNil(err)
		if !known {
			if err.Op != "fails" || err.Args[0] != v {
				st.Fail(pos, "undecided: whether it fails")
				return
			}
			nl = true
		}
		wrong := only != "" && sh.typ != "" && sh.typ != only
		if only != "" && sh.typ == "" {
			// a function: its type is what the path says
			is := false
			for f, val := range st.facts {
				if val && f.Op == "bin" && f.Name == "==" && (f.Args[0] == tInt(c.typeOf[only]) || f.Args[1] == tInt(c.typeOf[only])) {
					is = true
				}
			}
			wrong = !is
		}
		if !nl {
			if !wrong && !c.failed(st) {
				st.Fail(pos, "an expression whose parts are correct is refused")
			}
			return
		}
		if wrong {
			st.Fail(pos, "an expression of another type than %s is accepted", only)
			return
		}
		if c.failed(st) && err.Op != "fails" {
			st.Fail(pos, "it goes on after an error")
			return
		}
		if w := sh.wants(st, v); w != "" {
			st.Fail(pos, "it composes %s and not %s", clip(v.String()), clip(w))
		}
	}
	s.Run(fn, []*Term{top}, func(st *State) {
		st.assume(tEq(top, tNil), false)
		sh.set(st, top)
	})
	c.r.Sim(what, s)
	if done == 0 && len(s.Errs) == 0 {
		c.r.Fail(what, c.p.posOf(fn.Pos()), "it never returns")
	}
}

func composeRule(p *Prog, r *Report) {
	c := newComposer(p, r)
	for _, sh := range c.shapes() {
		sh := sh
		r.guard("newValue of "+sh.name, func() { c.evaluates(c.newValue, sh, "") })
		r.guard("NewBool of "+sh.name, func() { c.evaluates(p.Func("relapse/compose", "NewBool"), sh, "SINGLE_BOOL") })
		if sh.typ != "" {
			r.guard("Which of "+sh.name, func() { c.typed(sh) })
		}
	}
	for _, o := range operators {
		o := o
		r.guard("operator "+o.symbol, func() { c.operator(o.symbol, o.fn) })
	}
	r.guard("types", func() { c.typesOfLists() })
	r.guard("makers", func() { c.makers() })
	r.guard("registered functions", func() { c.lookup() })
	r.guard("(*relapse/funcs.Maker).New", func() { c.make() })
	r.Expect("compositions", 150)
	r.Expect("types of expressions", 30)
	r.Expect("operators", 11)
	r.Expect("types of lists", 12)
	r.Expect("makers", 12)
	r.Expect("functions looked up", 60)
	r.Expect("functions made", 4)
	r.Explain("the composition of every kind of expression (variables and constants of every type, lists and functions of up to three unknown parts) is simulated; the parts are composed by the same function, by induction")
}

// typed: the type of an expression
func (c *composer) typed(sh exprShape) {
	top := sym(xsym + "top")
	top.Typ = c.et
	s := c.sim(top)
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		c.r.Count("types of expressions", 1)
		k, ok := intOf(rets[0])
		if nl, known := st.IsNil(rets[1]); !known || !nl {
			st.Fail(pos, "the type of %s is not known", sh.name)
		} else if !ok || k != c.typeOf[sh.typ] {
			st.Fail(pos, "the type of %s is %s and not %s", sh.name, rets[0], sh.typ)
		}
	}
	s.Run(c.which, []*Term{top}, func(st *State) {
		st.assume(tEq(top, tNil), false)
		sh.set(st, top)
	})
	c.r.Sim("Which of "+sh.name, s)
}

// operator: what an operator abbreviates
func (c *composer) operator(symbol, fn string) {
	r := c.r
	r.Count("operators", 1)
	top := sym(xsym + "top")
	top.Typ = c.et
	kw := sym("the symbol")
	right := sym("operand")
	right.Typ = c.et
	s := c.sim(top)
	base := s.Classify
	single := func(t *Term) *Term { return mk("single", "", t) }
	s.Classify = func(st *State, k *Call) Action {
		switch {
		case k.Callee == c.which:
			a := k.Args[0]
			if a != right && a != mk("copy", "", right) {
				st.Fail(k.Instr.Pos(), "the type of something else than the operand decides the type of the variable")
			}
			t := typOf(right)
			k.Result = mk("tuple", "", t, failsWith(t))
			return Pure
		case k.Name() == "relapse/types.IsList":
			k.Result = mk("islist", "", k.Args[0])
			return Pure
		case k.Name() == "relapse/types.ListToSingle":
			k.Result = single(k.Args[0])
			return Pure
		}
		return base(st, k)
	}
	n := 0
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		nl, known := st.IsNil(rets[1])
		if !known {
			st.Fail(pos, "undecided: whether it fails")
			return
		}
		if !nl {
			if !c.failed(st) {
				st.Fail(pos, "%s of a correct operand is refused", symbol)
			}
			return
		}
		n++
		t := typOf(right)
		typ := t
		if l, ok := st.Fact(mk("islist", "", t)); !ok {
			typ = nil
		} else if l {
			typ = single(t)
		}
		va := func(t string) string { return "Expr{Terminal:Terminal{Variable:Variable{Type:" + t + "}}}" }
		var want []string
		e := func(ps ...string) { want = append(want, "Expr{Function:"+fun(fmt.Sprintf("%q", fn), ps...)+"}") }
		switch fn {
		case "regex":
			e(right.String(), va("SINGLE_STRING"))
		case "type":
			e(right.String())
		default:
			if typ == nil {
				st.Fail(pos, "undecided: whether the operand is a list")
				return
			}
			e(va(typ.String()), right.String())
		}
		got := c.b.tree(st, rets[0], c.et, "")
		ok := false
		for _, w := range want {
			// a copy of the operand is as good
			ok = ok || got == w || strings.Replace(got, mk("copy", "", right).String(), right.String(), -1) == w
		}
		if !ok {
			st.Fail(pos, "%s becomes %s and not %s", symbol, clip(got), clip(strings.Join(want, " or ")))
		}
	}
	s.Run(c.convert, []*Term{top}, func(st *State) {
		st.assume(tEq(top, tNil), false)
		bi := tField(top, "BuiltIn")
		st.assume(tEq(bi, tNil), false)
		st.mem[tFA(bi, "Symbol")] = kw
		st.mem[tFA(bi, "Expr")] = right
		st.assume(tEq(kw, tNil), false)
		st.assume(tEq(right, tNil), false)
		st.mem[tFA(kw, "Value")] = mk("const", fmt.Sprintf("%q", symbol))
	})
	r.Sim("operator "+symbol, s)
	if n == 0 && len(s.Errs) == 0 {
		r.Fail("operator "+symbol, "", "it never becomes a function")
	}
}

// typesOfLists: the types of elements and of lists of them
func (c *composer) typesOfLists() {
	isList, toSingle := c.p.Func("relapse/types", "IsList"), c.p.Func("relapse/types", "ListToSingle")
	for _, k := range composeKinds {
		u := strings.ToUpper(k)
		for _, t := range []string{"SINGLE_" + u, "LIST_" + u} {
			t := t
			list := strings.HasPrefix(t, "LIST")
			c.r.Count("types of lists", 1)
			run := func(fn *ssa.Function, f func(st *State, v *Term, pos tokenPos)) {
				s := &Sim{P: c.p, Unroll: true, NoHavoc: true}
				n := 0
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) { n++; f(st, rets[0], pos) }
				s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
				s.Run(fn, []*Term{tInt(c.typeOf[t])}, nil)
				c.r.Sim(fname(fn)+" of "+t, s)
				if n == 0 && len(s.Errs) == 0 {
					c.r.Fail(fname(fn)+" of "+t, c.p.posOf(fn.Pos()), "it never returns")
				}
			}
			run(isList, func(st *State, v *Term, pos tokenPos) {
				if b, ok := st.Fact(v); !ok || b != list {
					st.Fail(pos, "whether %s is a list: %s", t, v)
				}
			})
			if list {
				run(toSingle, func(st *State, v *Term, pos tokenPos) {
					if k, ok := intOf(v); !ok || k != c.typeOf["SINGLE_"+u] {
						st.Fail(pos, "the elements of %s are %s", t, c.b.tree(st, v, toSingle.Signature.Results().At(0).Type(), ""))
					}
				})
			}
		}
	}
}

// makers: a maker that makes a function returns what its constructor made, or its error
func (c *composer) makers() {
	mt := types.NewPointer(c.p.Type("relapse/funcs", "Maker"))
	newFn := c.p.method(mt, "New")
	for _, t := range []string{"SINGLE_", "LIST_"} {
		for _, k := range composeKinds {
			name := c.maker(t + strings.ToUpper(k))
			fn := c.p.method(mt, name)
			if fn == nil {
				failAnchor("no Maker.%s", name)
			}
			c.r.Count("makers", 1)
			c.r.guard(fname(fn), func() {
				s := &Sim{P: c.p, Unroll: true, NoHavoc: true}
				made := sym("made")
				s.Classify = func(st *State, x *Call) Action {
					if x.Callee == newFn && newFn != nil {
						if c.bare(x.Args[0]) != sym("maker") || x.Args[1] != sym("values") {
							st.Fail(x.Instr.Pos(), "it makes something of other values")
						}
						x.Result = mk("tuple", "", made, failsWith(made))
						return Pure
					}
					if x.Callee != nil && inRepo(x.Callee) && x.Callee.Blocks != nil {
						return Inline
					}
					return Pure
				}
				ok := 0
				s.OnPanic = func(st *State, pos tokenPos) {
					if _, known := st.IsNil(failsWith(made)); !known {
						st.Fail(pos, "it panics before anything is made")
					}
				}
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					e := rets[1]
					nl, known := st.IsNil(e)
					bad, knownBad := st.IsNil(failsWith(made))
					switch {
					case knownBad && !bad:
						if known && nl || !known {
							st.Fail(pos, "the error of the constructor is lost")
						}
					case known && !nl:
						isType := true
						for f, v := range st.facts {
							if f.Op == "istype" && !v {
								isType = false
							}
						}
						if isType {
							st.Fail(pos, "what was made is refused")
						}
					default:
						ok++
						if c.bare(rets[0]) != made {
							st.Fail(pos, "it returns %s and not what was made", clip(rets[0].String()))
						}
						if !known && e != failsWith(made) {
							st.Fail(pos, "undecided: whether it fails")
						}
					}
				}
				s.Run(fn, []*Term{sym("maker"), sym("values")}, nil)
				c.r.Sim(fname(fn), s)
				if ok == 0 && len(s.Errs) == 0 {
					c.r.Fail(fname(fn), c.p.posOf(fn.Pos()), "it never makes anything")
				}
			})
		}
	}
}

// lookup: the function that is found has the name and the types that are asked for
func (c *composer) lookup() {
	fn := c.p.methodOf(c.p.Type("relapse/funcs", "Factory"), "getMaker")
	if fn == nil {
		failAnchor("no Factory.getMaker")
	}
	for _, lens := range [][]int{{}, {0}, {1}, {2}, {1, 1}, {2, 1}, {1, 2}, {2, 2}, {1, 1, 1}} {
		for n := 0; n <= 2; n++ {
			n, lens := n, lens
			what := fmt.Sprintf("a function of %d among those of %v", n, lens)
			s := &Sim{P: c.p, Unroll: true, NoHavoc: true, Maps: true}
			s.Classify = func(st *State, k *Call) Action {
				if k.Callee != nil && relPkgOf(k.Callee) == "relapse/funcs" && k.NRes == 1 && types.Identical(k.Callee.Signature.Results().At(0).Type(), types.Universe.Lookup("error").Type()) {
					k.Result = mk("new", "error")
					return Pure
				}
				if k.Callee != nil && inRepo(k.Callee) && k.Callee.Blocks != nil {
					return Inline
				}
				return Pure
			}
			m := mk("alloc", "registered", mk("map", ""))
			name := sym("the name")
			var ins, funs []*Term
			for i := 0; i < n; i++ {
				ins = append(ins, sym(fmt.Sprintf("in.%d", i)))
			}
			for i := range lens {
				funs = append(funs, sym(fmt.Sprintf("maker.%d", i)))
			}
			in := func(i, k int) *Term { return sym(fmt.Sprintf("maker.%d.in.%d", i, k)) }
			s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
			s.OnBounds = func(st *State, pos tokenPos, what string) { st.Fail(pos, "it reads the types %s", what) }
			// whether the types of maker i are the ones that are asked for: 1 yes, 0 no, -1 not known
			match := func(st *State, i int) int {
				if lens[i] != n {
					return 0
				}
				out := 1
				for k := 0; k < n; k++ {
					eq, ok := st.Fact(tEq(in(i, k), ins[k]))
					if ok && !eq {
						return 0
					}
					if !ok {
						out = -1
					}
				}
				return out
			}
			done := 0
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				done++
				c.r.Count("functions looked up", 1)
				for i, f := range funs {
					if rets[0] != f {
						continue
					}
					if nl, known := st.IsNil(rets[1]); !known || !nl {
						st.Fail(pos, "an error is returned with a function")
					}
					if eq, ok := st.Fact(tEq(name, sym("registered name"))); !ok || !eq {
						st.Fail(pos, "a function of another name is returned")
					}
					if match(st, i) != 1 {
						st.Fail(pos, "a function of other types is returned")
					}
					return
				}
				if nl, known := st.IsNil(rets[1]); !known || nl {
					st.Fail(pos, "neither a function nor an error is returned: %s", clip(rets[0].String()))
					return
				}
				if eq, ok := st.Fact(tEq(name, sym("registered name"))); ok && !eq {
					return
				}
				for i := range funs {
					if match(st, i) != 0 {
						st.Fail(pos, "a function with those types is not found")
					}
				}
			}
			s.Run(fn, []*Term{m, name, mk("list", "", ins...)}, func(st *State) {
				st.mem[mk("mapaddr", "", m, sym("registered name"))] = mk("list", "", funs...)
				for i, f := range funs {
					st.assume(tEq(f, tNil), false)
					var ts []*Term
					for k := 0; k < lens[i]; k++ {
						ts = append(ts, in(i, k))
					}
					st.mem[tFA(f, "In")] = mk("list", "", ts...)
				}
			})
			c.r.Sim(what, s)
			if done == 0 && len(s.Errs) == 0 {
				c.r.Fail(what, c.p.posOf(fn.Pos()), "it never returns")
			}
		}
	}
}

// make: the constructor is called with the values, in their order
// passes tells whether element i of a slice of reflect.Values is want; a struct
// that was copied into a slice field by field is want if all its fields are.
func (c *composer) passes(st *State, l *Term, i int, want *Term) bool {
	if l.Op == "list" {
		v := st.Resolve(l.Args[i])
		if v.Op != "new" || len(v.Args) == 0 {
			return v == want
		}
		for _, kv := range v.Args {
			if kv.Args[0] != tField(want, kv.Name) {
				return false
			}
		}
		return true
	}
	cell := mk("ia", "", l, tInt(int64(i)))
	if v, ok := st.mem[cell]; ok {
		return v == want
	}
	fields := 0
	for a, v := range st.mem {
		if a.Op == "fa" && a.Args[0] == cell {
			if v != tField(want, a.Name) {
				return false
			}
			fields++
		}
	}
	return fields > 0
}

func (c *composer) make() {
	fn := c.p.method(types.NewPointer(c.p.Type("relapse/funcs", "Maker")), "New")
	if fn == nil {
		failAnchor("no Maker.New")
	}
	for n := 0; n <= 3; n++ {
		n := n
		what := fmt.Sprintf("%s of %d values", fname(fn), n)
		s := &Sim{P: c.p, Unroll: true, NoHavoc: true}
		me := sym("maker")
		res := sym("results")
		calls := 0
		s.Classify = func(st *State, k *Call) Action {
			switch k.Name() {
			case "(reflect.Value).Call":
				calls++
				if k.Args[0] != mk("call", "reflect.ValueOf", tField(me, "newfnc")) {
					st.Fail(k.Instr.Pos(), "something else than the constructor is called: %s", clip(k.Args[0].String()))
				}
				l := k.Args[1]
				nn, sized := intOf(st.Resolve(tLen(l)))
				ok := l == tNil && n == 0 || sized && nn == int64(n)
				for i := 0; ok && i < n; i++ {
					ok = c.passes(st, l, i, mk("call", "reflect.ValueOf", child(i)))
				}
				if !ok {
					st.Fail(k.Instr.Pos(), "the constructor is not called with the %d values, in order: %s", n, clip(l.String()))
				}
				k.Result = res
				return Pure
			}
			if k.Callee != nil && inRepo(k.Callee) && k.Callee.Blocks != nil {
				return Inline
			}
			return Pure
		}
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			c.r.Count("functions made", 1)
			want := mk("call", "(reflect.Value).Interface", tIndex(res, tInt(0)))
			if rets[0] != want {
				st.Fail(pos, "it returns %s and not the first result", clip(rets[0].String()))
			}
			two, known := st.Fact(tEq(tLen(res), tInt(2)))
			failed, knownErr := st.Fact(mk("call", "(reflect.Value).IsNil", tIndex(res, tInt(1))))
			e := c.bare(rets[1])
			nl, knownNil := st.IsNil(e)
			switch {
			case known && two && knownErr && !failed:
				if knownNil && nl {
					st.Fail(pos, "the error of the constructor is lost")
				}
			case known && !two, knownErr && failed:
				if !knownNil || !nl {
					st.Fail(pos, "it fails without an error of the constructor")
				}
			default:
				st.Fail(pos, "undecided: whether the constructor failed")
			}
		}
		var vs []*Term
		for i := 0; i < n; i++ {
			vs = append(vs, child(i))
		}
		s.Run(fn, []*Term{me, mk("list", "", vs...)}, nil)
		c.r.Sim(what, s)
		if calls == 0 && len(s.Errs) == 0 {
			c.r.Fail(what, c.p.posOf(fn.Pos()), "the constructor is never called")
		}
	}
}
