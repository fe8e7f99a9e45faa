package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C17", "other", logicRule) }

// bexp is a condition: what a user wrote, before the constructors simplify it.
type bexp struct {
	op    string // and or not, var const true false, x (an opaque condition), y (an opaque operand), or the name of a comparison
	kind  string // of the operands of a comparison, of a variable or a constant
	c     int    // which constant, which opaque condition
	kids  []*bexp
	meant string
}

func (e *bexp) String() string {
	switch e.op {
	case "var":
		return "$" + e.kind
	case "const":
		return fmt.Sprintf("c%d", e.c)
	case "x":
		return fmt.Sprintf("x%d", e.c)
	case "y":
		return "y"
	}
	var ks []string
	for _, k := range e.kids {
		ks = append(ks, k.String())
	}
	if len(ks) == 0 {
		return e.op
	}
	return e.op + "(" + strings.Join(ks, ", ") + ")"
}

// bval is the value a condition is evaluated on: its kind, which of the constants it is, and whether the
// opaque conditions hold (0 no, 1 yes, 2 they fail).
type bval struct {
	kind string
	c    int
	x    [2]int
	y    int // which constant the opaque operand is
}

// opaqueOperand is the number of the opaque operand.
const opaqueOperand = 7

func (v *bval) String() string {
	return fmt.Sprintf("a value of kind %s equal to c%d (x0, x1: %v, y: c%d)", v.kind, v.c, v.x, v.y)
}

// holds is what a condition means.
func (e *bexp) holds(v *bval) bool {
	switch e.op {
	case "true", "false":
		return e.op == "true"
	case "x":
		return v.x[e.c] == 1
	case "and":
		return e.kids[0].holds(v) && e.kids[1].holds(v)
	case "or":
		return e.kids[0].holds(v) || e.kids[1].holds(v)
	case "not":
		return !e.kids[0].holds(v)
	}
	n := make([]int, 2)
	for i, k := range e.kids {
		if k.op == "const" {
			n[i] = k.c
			continue
		}
		if k.op == "y" {
			n[i] = v.y
			continue
		}
		if k.kind != v.kind {
			return false
		}
		n[i] = v.c
	}
	switch e.op {
	case "eq":
		return n[0] == n[1]
	case "ne":
		return n[0] != n[1]
	case "lt":
		return n[0] < n[1]
	case "ge":
		return n[0] >= n[1]
	}
	panic(e.op)
}

type logic struct {
	p       *Prog
	r       *Report
	ctors   map[string]*ssa.Function
	vars    map[string]*types.Named // by kind
	consts  map[string]*types.Named
	boolc   *ssa.Function // BoolConst
	sims    int
	failing map[string]bool
}

// constOfKind is constant number c of a kind.
func constOfKind(kind string, c int) *Term {
	switch kind {
	case "string":
		return mk("const", fmt.Sprintf("%q", fmt.Sprint(c)))
	case "bool":
		return tBool(c%2 == 1)
	case "[]byte":
		return mk("list", "", tInt(int64(c)))
	}
	return tInt(int64(c))
}

func (l *logic) sim(v *bval) *Sim {
	s := &Sim{P: l.p, NoHavoc: true, Unroll: true, MaxDepth: 20, MaxState: 4000, Recursion: func(*ssa.Function) bool { return true }}
	s.Decide = func(t *Term) (bool, bool) {
		if t.Op == "istype" && opIndex(t.Args[0]) >= 0 {
			return false, true
		}
		// fingerprints of different things differ
		if t.Op == "bin" && t.Name == "==" && t.Args[0].Op == "fingerprint" && t.Args[1].Op == "fingerprint" {
			return t.Args[0] == t.Args[1], true
		}
		if t.Op == "bin" && t.Name == "<=" {
			a, ok1 := intOf(t.Args[0])
			b, ok2 := intOf(t.Args[1])
			return a <= b, ok1 && ok2
		}
		if t.Op == "call" && t.Name == "bytes.Equal" && t.Args[0].Op == "list" && t.Args[1].Op == "list" {
			return t.Args[0] == t.Args[1], true
		}
		return false, false
	}
	s.Classify = func(st *State, c *Call) Action {
		recv := c.Recv
		name := ""
		args := c.Args
		if c.Method != nil {
			name = c.Method.Name()
		} else if c.Callee != nil && c.Callee.Signature.Recv() != nil && relPkgOf(c.Callee) == "relapse/funcs" && len(c.Args) > 0 {
			name, recv, args = c.Callee.Name(), c.Args[0], c.Args[1:]
		}
		switch name {
		case "Hash":
			c.Result = mk("fingerprint", "", st.Resolve(strip(recv)))
			return Pure
		case "Compare":
			if st.Resolve(strip(recv)) == st.Resolve(strip(args[0])) {
				c.Result = tInt(0)
			} else {
				c.Result = tInt(1)
			}
			return Pure
		case "HasVariable":
			if i := opIndex(recv); i >= 0 {
				c.Result = tBool(true)
				return Pure
			}
		case "Eval":
			if i := opIndex(recv); i == opaqueOperand && v != nil {
				rs := c.Method.Type().(*types.Signature).Results()
				c.Result = mk("tuple", "", constOfKind(types.TypeString(rs.At(0).Type(), nil), v.y), tNil)
				return Pure
			} else if i >= 0 {
				if v == nil {
					// an opaque condition has a variable
					st.Fail(c.Instr.Pos(), "a condition is evaluated before there is a value")
					return Pure
				}
				switch v.x[i] {
				case 0, 1:
					c.Result = mk("tuple", "", tBool(v.x[i] == 1), tNil)
				default:
					c.Result = mk("tuple", "", tBool(false), ferr(i))
				}
				return Pure
			}
			o := strip(recv)
			if o.Op == "sym" && strings.HasPrefix(o.Name, "var:") {
				k := strings.TrimPrefix(o.Name, "var:")
				if v == nil || v.kind != k {
					z := tNil
					if k == "string" || k == "bool" || !strings.HasPrefix(k, "[") {
						z = constOfKind(k, 0)
					}
					c.Result = mk("tuple", "", z, ferr(9))
				} else {
					c.Result = mk("tuple", "", constOfKind(k, v.c), tNil)
				}
				return Pure
			}
			return Inline
		}
		if c.Callee == nil {
			return Pure
		}
		if relPkgOf(c.Callee) == "relapse/funcs" {
			if rs := c.Callee.Signature.Results(); rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Uint64]) {
				if c.Callee.Signature.Recv() == nil {
					var as []*Term
					for _, a := range c.Args {
						as = append(as, st.Resolve(a))
					}
					c.Result = mk("fingerprint", fname(c.Callee), as...)
				}
				return Pure
			}
			return Inline
		}
		switch c.Callee.String() {
		case "bytes.Compare":
			if a, b := c.Args[0], c.Args[1]; a.Op == "list" && b.Op == "list" && len(a.Args) == 1 && len(b.Args) == 1 {
				x, _ := intOf(a.Args[0])
				y, _ := intOf(b.Args[0])
				switch {
				case x < y:
					c.Result = tInt(-1)
				case x > y:
					c.Result = tInt(1)
				default:
					c.Result = tInt(0)
				}
			}
		case "bytes.Equal":
			if a, b := c.Args[0], c.Args[1]; a.Op == "list" && b.Op == "list" {
				c.Result = tBool(a == b)
			}
		}
		return Pure
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
	return s
}

// build constructs a condition the way compose does, operands first, and hands on what comes out.
func (l *logic) build(e *bexp, in func(*State), keep []*Term, k func(t *Term, in func(*State), st *State, pos tokenPos)) {
	zero := func(n *types.Named, o *Term, set map[string]*Term) func(*State) {
		return func(st *State) {
			if in != nil {
				in(st)
			}
			u := n.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				v := zeroOf(f.Type())
				if x, ok := set[f.Name()]; ok {
					v = x
				}
				st.mem[tFA(o, f.Name())] = v
			}
		}
	}
	box := func(n *types.Named, o *Term) *Term {
		pt := types.NewPointer(n)
		t := mk("iface", typeKey(pt), o)
		t.Typ = pt
		return t
	}
	switch e.op {
	case "x":
		k(fop(e.c), in, nil, 0)
		return
	case "y":
		k(fop(opaqueOperand), in, nil, 0)
		return
	case "var":
		n := l.vars[e.kind]
		o := sym("var:" + e.kind)
		k(box(n, o), zero(n, o, nil), nil, 0)
		return
	case "const":
		n := l.consts[e.kind]
		o := sym(fmt.Sprintf("const:%s:%d", e.kind, e.c))
		set := map[string]*Term{}
		u := n.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if types.TypeString(f.Type(), nil) == e.kind {
				if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 || set["v"] == nil && f.Name() != "hash" {
					set[f.Name()] = constOfKind(e.kind, e.c)
				}
			}
		}
		k(box(n, o), zero(n, o, set), nil, 0)
		return
	}
	var ctor *ssa.Function
	var lits []*Term
	switch e.op {
	case "true", "false":
		ctor, lits = l.boolc, []*Term{tBool(e.op == "true")}
	case "and", "or", "not":
		ctor = l.ctors[e.op+"(bool"+strings.Repeat(",bool", len(e.kids)-1)+")"]
	default:
		ctor = l.ctors[e.op+"("+e.kind+","+e.kind+")"]
	}
	if ctor == nil {
		l.r.Fail("relapse/funcs", "-", "undecided: the constructor of %s", e)
		return
	}
	var next func(i int, args []*Term, in func(*State))
	next = func(i int, args []*Term, in func(*State)) {
		if i < len(e.kids) {
			l.build(e.kids[i], in, append(append([]*Term{}, keep...), args...), func(t *Term, in2 func(*State), st *State, pos tokenPos) {
				next(i+1, append(append([]*Term{}, args...), t), in2)
			})
			return
		}
		s := l.sim(nil)
		l.sims++
		n := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			n++
			k(rets[0], carry(st, rets[0]), st, pos)
		}
		s.Run(ctor, args, func(st *State) {
			if in != nil {
				in(st)
			}
			// what was built earlier is still in use
			for i, t := range keep {
				st.Data[fmt.Sprintf("keep:%d", i)] = t
			}
		})
		l.r.Sim(fname(ctor)+" making "+e.meant, s)
		if n == 0 && len(s.Errs) == 0 {
			l.r.Fail(fname(ctor), l.p.posOf(ctor.Pos()), "undecided: what %s is", e)
		}
	}
	next(0, lits, in)
}

// check builds a condition and compares it with its meaning on every value.
func (l *logic) check(e *bexp, vals []*bval) {
	l.r.Count("conditions", 1)
	var ctor string
	if f := l.ctors[e.op+"(bool"+strings.Repeat(",bool", len(e.kids)-1)+")"]; f != nil {
		ctor = fname(f)
	}
	l.build(e, nil, nil, func(obj *Term, in func(*State), st *State, pos tokenPos) {
		for _, v := range vals {
			want := e.holds(v)
			fail := func(got string) {
				l.r.Fail(ctor, l.p.posOf(pos), "%s is made into a condition that %s for %s", e, got, v)
			}
			if l.failing[ctor] {
				return
			}
			if i := opIndex(obj); i >= 0 {
				if (v.x[i] == 1) != want {
					l.failing[ctor] = true
					fail("is x alone: wrong")
				}
				continue
			}
			if obj.Op != "iface" || obj.Typ == nil {
				fail("is not understood")
				return
			}
			ev := l.p.method(obj.Typ, "Eval")
			if ev == nil || ev.Blocks == nil {
				fail("is not understood")
				return
			}
			s := l.sim(v)
			l.sims++
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				isNil, ok := st.IsNil(rets[1])
				b := rets[0]
				if d, ok := s.Decide(b); ok {
					b = tBool(d)
				} else if !b.isConst() {
					if f, ok := st.Fact(b); ok {
						b = tBool(f)
					}
				}
				l.r.Count("evaluations", 1)
				switch {
				case !ok || isNil && !b.isTrue() && !b.isFalse():
					fail("is not decided: " + short(b.String()))
				case (isNil && b.isTrue()) != want:
					l.failing[ctor] = true
					if want {
						fail("does not hold")
					} else {
						fail("holds")
					}
				}
			}
			s.Run(ev, []*Term{obj.Args[0]}, in)
			l.r.Sim(fname(ev), s)
		}
	})
}

func logicRule(p *Prog, r *Report) {
	l := &logic{p: p, r: r, ctors: map[string]*ssa.Function{}, vars: map[string]*types.Named{}, consts: map[string]*types.Named{}, failing: map[string]bool{}}
	for _, g := range registrations(p, r) {
		l.ctors[g.name+"("+strings.Join(opKinds(g.ctor), ",")+")"] = g.ctor
	}
	for _, n := range funcTypes(p, "relapse/funcs") {
		pt := types.NewPointer(n)
		if p.method(pt, "SetValue") != nil {
			l.vars[funcKind(pt)] = n
		}
		if p.method(pt, "IsConst") != nil {
			l.consts[funcKind(pt)] = n
		}
	}
	l.boolc = p.Func("relapse/funcs", "BoolConst")
	kinds := []string{"string", "int64", "uint64", "float64", "bool", "[]byte"}
	x := func(i int) *bexp { return &bexp{op: "x", c: i} }
	not := func(e *bexp) *bexp { return &bexp{op: "not", kids: []*bexp{e}, meant: "not"} }
	bin := func(op string, a, b *bexp) *bexp { return &bexp{op: op, kids: []*bexp{a, b}, meant: op} }
	var tested [][]*bexp
	for _, k := range kinds {
		var cmps []*bexp
		v := &bexp{op: "var", kind: k}
		for _, op := range []string{"eq", "ne", "lt", "ge"} {
			if l.ctors[op+"("+k+","+k+")"] == nil {
				continue
			}
			for c := 0; c < 2; c++ {
				cn := &bexp{op: "const", kind: k, c: c}
				cmps = append(cmps, &bexp{op: op, kind: k, kids: []*bexp{v, cn}, meant: op})
				if op == "eq" || op == "ne" || r.Tier == "thorough" {
					cmps = append(cmps, &bexp{op: op, kind: k, kids: []*bexp{cn, v}, meant: op})
				}
			}
			cmps = append(cmps, &bexp{op: op, kind: k, kids: []*bexp{v, v}, meant: op})
			if op == "eq" || op == "ne" || r.Tier == "thorough" {
				c0 := &bexp{op: "const", kind: k}
				y := &bexp{op: "y", kind: k}
				for _, ks := range [][]*bexp{{y, c0}, {c0, y}, {v, y}} {
					cmps = append(cmps, &bexp{op: op, kind: k, kids: ks, meant: op})
				}
			}
		}
		tested = append(tested, cmps)
	}
	// valsOf is the values that tell conditions apart in which there are so many opaque ones and, or not, an opaque operand.
	valsOf := func(k string, xs, ys int) []*bval {
		var out []*bval
		add := func(kind string, n int) {
			for c := 0; c < n; c++ {
				for m := 0; m < 9; m++ {
					a, b := m%3, m/3
					if xs < 2 && b > 0 || xs < 1 && a > 0 {
						continue
					}
					for y := 0; y < ys; y++ {
						out = append(out, &bval{kind: kind, c: c, x: [2]int{a, b}, y: y})
					}
				}
			}
		}
		n := 3
		if k == "bool" {
			n = 2
		}
		add(k, n)
		add("another", 1)
		return out
	}
	vals := func(k string, xs int) []*bval { return valsOf(k, xs%10, 1+xs/10) }
	// how many opaque conditions are in it, and whether an opaque operand is
	var xs func(e *bexp) int
	xs = func(e *bexp) int {
		n := 0
		if e.op == "x" {
			n = e.c + 1
		} else if e.op == "y" {
			n = 10
		}
		for _, k := range e.kids {
			m := xs(k)
			n = max(n/10, m/10)*10 + max(n%10, m%10)
		}
		return n
	}
	tt, ff := &bexp{op: "true", meant: "true"}, &bexp{op: "false", meant: "false"}
	deep := func(es []*bexp, k string, nest bool) {
		for i, a := range es {
			l.check(not(a), vals(k, xs(a)))
			l.check(not(not(a)), vals(k, xs(a)))
			for j, b := range es {
				for _, op := range []string{"and", "or"} {
					e := bin(op, a, b)
					l.check(e, vals(k, xs(e)))
					if nest && (i+j)%3 == 0 || r.Tier == "thorough" {
						l.check(not(e), vals(k, xs(e)))
						l.check(bin("and", a, not(b)), vals(k, xs(e)))
						l.check(bin("or", not(a), b), vals(k, xs(e)))
						l.check(bin(op, bin("and", a, b), a), vals(k, xs(e)))
						l.check(bin(op, not(bin("or", a, b)), b), vals(k, xs(e)))
					}
				}
			}
		}
	}
	opaque := []*bexp{x(0), x(1), not(x(0)), not(x(1)), tt, ff, bin("and", x(0), x(1)), bin("or", x(0), x(1)), bin("or", x(1), not(x(0)))}
	deep(opaque, "string", true)
	for i, cs := range tested {
		deep(append(append([]*bexp{}, cs...), x(0), tt, ff), kinds[i], true)
		r.Count("kinds", 1)
	}
	// comparisons of different kinds do not meet
	var mixed []*bexp
	for _, cs := range tested {
		mixed = append(mixed, cs[0], cs[1], cs[len(cs)/2])
	}
	for _, a := range mixed {
		for _, b := range mixed {
			if a.kind == b.kind {
				continue
			}
			for _, op := range []string{"and", "or"} {
				l.check(bin(op, a, b), append(vals(a.kind, 0), vals(b.kind, 0)...))
			}
		}
	}
	l.constness(tt, ff, opaque)
	l.simpleEqual(tested)
	r.Count("enumerations", l.sims)
	r.Expect("kinds", 6)
	r.Expect("conditions", 1800)
	r.Expect("evaluations", 15000)
	r.Expect("answers about constants", 8)
	r.Explain("the constructors And, Or and Not are followed for every pair of comparisons of a variable with a constant, opaque conditions and constants; what they make is followed through Eval for a value equal to either constant, to neither and of another kind, and must hold exactly when the condition written holds")
	r.Assume("Compare is 0 and Hash agrees exactly for equal conditions (C08)")
}

// constness: IsTrue and IsFalse say of a condition only what it is.
func (l *logic) constness(tt, ff *bexp, opaque []*bexp) {
	for _, name := range []string{"IsTrue", "IsFalse"} {
		f := l.p.Func("relapse/funcs", name)
		for _, e := range append([]*bexp{tt, ff}, opaque...) {
			e := e
			l.build(e, nil, nil, func(obj *Term, in func(*State), st *State, pos tokenPos) {
				s := l.sim(nil)
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					l.r.Count("answers about constants", 1)
					want := e.op == "true" && name == "IsTrue" || e.op == "false" && name == "IsFalse"
					if !rets[0].isTrue() && !rets[0].isFalse() {
						st.Fail(pos, "undecided: what %s says of %s", name, e)
					} else if rets[0].isTrue() != want {
						st.Fail(pos, "%s says %s of %s", name, rets[0], e)
					}
				}
				s.Run(f, []*Term{obj}, in)
				l.r.Sim(fname(f), s)
			})
		}
	}
}

// simpleEqual: IsSimpleEqual may be true only of an equality of a variable with a constant.
func (l *logic) simpleEqual(tested [][]*bexp) {
	f := l.p.FuncOpt("relapse/funcs", "IsSimpleEqual")
	if f == nil {
		return
	}
	for _, cs := range tested {
		for _, e := range cs {
			e := e
			l.build(e, nil, nil, func(obj *Term, in func(*State), st *State, pos tokenPos) {
				s := l.sim(nil)
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					l.r.Count("answers about equalities", 1)
					ops := e.kids[0].op + " " + e.kids[1].op
					ok := e.op == "eq" && (ops == "var const" || ops == "const var")
					if !rets[0].isFalse() && !ok {
						st.Fail(pos, "IsSimpleEqual says %s of %s", rets[0], e)
					}
				}
				s.Run(f, []*Term{obj}, in)
				l.r.Sim(fname(f), s)
			})
		}
	}
}
