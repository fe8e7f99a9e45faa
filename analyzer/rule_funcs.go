package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "other", funcsRule)
	register("C13", "other", foldRule)
	register("C16", "other", listFuncsRule)
}

// A registration makes a constructor available to grammars under a name.
type registration struct {
	name string
	ctor *ssa.Function
}

// registrations reads the calls of relapse/funcs.Register that the initialisers of the package make.
func registrations(p *Prog, r *Report) []registration {
	reg := p.Func("relapse/funcs", "Register")
	var out []registration
	seen := map[string]bool{}
	for _, f := range p.funcsIn("relapse/funcs") {
		if f == reg || f.Parent() != nil || !strings.HasPrefix(f.Name(), "init") || f.Signature.Params().Len() > 0 {
			continue
		}
		calls := false
		for g := range p.reach([]*ssa.Function{f}, false) {
			for _, c := range callsIn(g) {
				calls = calls || c.Common().StaticCallee() == reg
			}
		}
		if !calls || f.Name() == "init" {
			continue
		}
		s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 10, MaxState: 20000}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee == reg {
				return Event
			}
			if c.Callee != nil && relPkgOf(c.Callee) == "relapse/funcs" {
				return Inline
			}
			return Pure
		}
		s.OnEvent = func(st *State, c *Call) {
			n, fn := st.Resolve(c.Args[0]), strip(st.Resolve(c.Args[1]))
			if n.Op != "const" || fn.Op != "func" && fn.Op != "closure" || fn.Fn == nil {
				st.Fail(c.Instr.Pos(), "undecided: what is registered: %s as %s", short(fn.String()), short(n.String()))
				return
			}
			k := n.Name + fname(fn.Fn)
			if !seen[k] {
				seen[k] = true
				out = append(out, registration{strings.Trim(n.Name, `"`), fn.Fn})
			}
		}
		s.Run(f, nil, nil)
		r.Sim(fname(f), s)
	}
	return out
}

// kindOf is the kind of value a function evaluates to: the type of the first result of Eval.
func funcKind(t types.Type) string {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		if m.Name() != "Eval" {
			continue
		}
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 2 {
			return types.TypeString(sig.Results().At(0).Type(), nil)
		}
	}
	return ""
}

// fenv is what the operands of a function are taken to be: whether they have a variable, whether their
// evaluation fails, and what it returns.
type fenv struct {
	hv, er []bool
	val    []*Term
}

func fop(i int) *Term  { return sym(fmt.Sprintf("operand:%d", i)) }
func ferr(i int) *Term { return mk("iface", "error", sym(fmt.Sprintf("error:%d", i))) }
func fval(i int) *Term { return sym(fmt.Sprintf("value:%d", i)) }

func opIndex(t *Term) int {
	t = strip(throughAs(t))
	if t.Op == "sym" && strings.HasPrefix(t.Name, "operand:") {
		i := 0
		fmt.Sscanf(t.Name, "operand:%d", &i)
		return i
	}
	return -1
}

// An outcome is what comes of constructing a function and evaluating it.
type outcome struct {
	ctorErr bool
	val     *Term
	err     *Term
	hasVar  *Term
	st      *State
	pos     tokenPos
}

func funcsSim(p *Prog, env *fenv, stale bool) *Sim {
	s := &Sim{P: p, NoHavoc: true, Unroll: true, Maps: true, MaxDepth: 12, MaxState: 4000}
	s.Decide = func(t *Term) (bool, bool) {
		if t.Op == "istype" && opIndex(t.Args[0]) >= 0 {
			return false, true
		}
		return false, false
	}
	s.Classify = func(st *State, c *Call) Action {
		if c.Method != nil {
			i := opIndex(c.Recv)
			if i < 0 || i >= len(env.hv) {
				return Pure
			}
			switch c.Method.Name() {
			case "Eval":
				v, e := env.val[i], tNil
				switch {
				case stale && env.hv[i]:
					v = sym(fmt.Sprintf("stale:%d", i))
				case env.er[i]:
					v, e = sym(fmt.Sprintf("garbage:%d", i)), ferr(i)
				}
				c.Result = mk("tuple", "", v, e)
			case "HasVariable":
				c.Result = tBool(env.hv[i])
			case "Compare":
				// different operands differ; equal ones are the business of C17
				if j := opIndex(c.Args[0]); j == i {
					c.Result = tInt(0)
				} else {
					c.Result = tInt(1)
				}
			case "Hash":
				c.Result = tInt(int64(1000 + i))
			}
			return Pure
		}
		if c.Callee == nil {
			return Pure
		}
		if relPkgOf(c.Callee) == "relapse/funcs" {
			if rs := c.Callee.Signature.Results(); rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Uint64]) && len(c.Callee.Params) > 0 {
				return Pure
			}
			return Inline
		}
		return Pure
	}
	return s
}

// observe constructs a function and evaluates it.
func observe(p *Prog, r *Report, ctor *ssa.Function, args []*Term, env *fenv, setup func(*State), f func(o *outcome)) {
	s := funcsSim(p, env, true)
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics while it is constructed") }
	done := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		done++
		if len(rets) == 2 {
			if n, known := st.IsNil(rets[1]); !known {
				st.Fail(pos, "undecided: whether construction fails")
				return
			} else if !n {
				f(&outcome{ctorErr: true, st: st, pos: pos})
				return
			}
		}
		evaluate(p, r, rets[0], env, st, pos, f)
	}
	s.Run(ctor, args, setup)
	r.Sim(fname(ctor), s)
	if done == 0 && len(s.Errs) == 0 {
		r.Fail(fname(ctor), p.posOf(ctor.Pos()), "undecided: what is constructed")
	}
}

// evaluate evaluates a constructed function.
func evaluate(p *Prog, r *Report, obj *Term, env *fenv, st *State, pos tokenPos, f func(o *outcome)) {
	if i := opIndex(obj); i >= 0 {
		if env.er[i] {
			f(&outcome{val: sym("garbage"), err: ferr(i), hasVar: tBool(env.hv[i]), st: st, pos: pos})
		} else {
			f(&outcome{val: env.val[i], err: tNil, hasVar: tBool(env.hv[i]), st: st, pos: pos})
		}
		return
	}
	if obj.Op != "iface" || obj.Typ == nil {
		st.Fail(pos, "undecided: what is constructed: %s", short(st.Resolve(obj).String()))
		return
	}
	meth := func(name string) *ssa.Function {
		return p.method(obj.Typ, name)
	}
	ev, hv := meth("Eval"), meth("HasVariable")
	if ev == nil || hv == nil || ev.Blocks == nil || hv.Blocks == nil {
		st.Fail(pos, "undecided: the methods of %s", obj.Name)
		return
	}
	var has *Term
	s := funcsSim(p, env, false)
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		v := st.Resolve(rets[0])
		if has != nil && has != v {
			st.Fail(pos, "undecided: whether it has a variable")
		}
		has = v
	}
	s.Run(hv, []*Term{obj.Args[0]}, carry(st, obj.Args[0]))
	r.Sim(fname(hv), s)
	s = funcsSim(p, env, false)
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		f(&outcome{val: st.Resolve(rets[0]), err: rets[1], hasVar: has, st: st, pos: pos})
	}
	s.Run(ev, []*Term{obj.Args[0]}, carry(st, obj.Args[0]))
	r.Sim(fname(ev), s)
}

// fspec is what a function should return: a value (one of several ways to write it) or an error.
type fspec struct {
	vals    []*Term
	errs    []int // the error of one of these operands
	anyErr  bool
	ctorErr bool
	// both: the value together with the error of the operand
}

// valueFuncs gives, for functions of values, what they return for the values of their operands.
// It says nothing about functions it does not know.
func valueFuncs(name string, in []string, v []*Term) []*Term {
	call := func(f string, args ...*Term) *Term { return mk("call", f, args...) }
	cmp := func() (lt, gt, eq *Term) {
		switch in[0] {
		case "[]byte":
			c := call("bytes.Compare", v[0], v[1])
			return tLt(c, tInt(0)), tLt(tInt(0), c), tEq(c, tInt(0))
		}
		return tLt(v[0], v[1]), tLt(v[1], v[0]), tEq(v[0], v[1])
	}
	switch name {
	case "eq", "ne", "lt", "gt", "le", "ge":
		if len(in) != 2 || in[0] != in[1] {
			return nil
		}
		lt, gt, eq := cmp()
		var out []*Term
		switch name {
		case "eq":
			out = []*Term{eq}
			if in[0] == "[]byte" {
				out = append(out, call("bytes.Equal", v[0], v[1]), call("bytes.Equal", v[1], v[0]), tEq(mk("conv", "string", v[0]), mk("conv", "string", v[1])), tEq(call("bytes.Compare", v[1], v[0]), tInt(0)))
			}
		case "ne":
			for _, t := range valueFuncs("eq", in, v) {
				out = append(out, tNot(t))
			}
		case "lt":
			out = []*Term{lt}
		case "gt":
			out = []*Term{gt}
		case "le":
			out = []*Term{tNot(gt)}
			if in[0] == "float64" {
				out = []*Term{mk("bin", "<=", v[0], v[1])}
			}
		case "ge":
			out = []*Term{tNot(lt)}
			if in[0] == "float64" {
				out = []*Term{mk("bin", "<=", v[1], v[0])}
			}
		}
		if in[0] == "[]byte" && name != "eq" && name != "ne" {
			// what Compare returns is -1, 0 or 1
			negative := func(c *Term) []*Term {
				return []*Term{tLt(c, tInt(0)), tNot(tLt(tInt(-1), c)), tEq(c, tInt(-1))}
			}
			positive := func(c *Term) []*Term {
				return []*Term{tLt(tInt(0), c), tNot(tLt(c, tInt(1))), tEq(c, tInt(1))}
			}
			c, back := call("bytes.Compare", v[0], v[1]), call("bytes.Compare", v[1], v[0])
			less := append(negative(c), positive(back)...)
			if name == "gt" || name == "le" {
				less = append(positive(c), negative(back)...)
			}
			for _, t := range less {
				if name == "le" || name == "ge" {
					t = tNot(t)
				}
				out = append(out, t)
			}
		}
		return out
	case "and":
		return []*Term{tBool(v[0].isTrue() && v[1].isTrue())}
	case "or":
		return []*Term{tBool(v[0].isTrue() || v[1].isTrue())}
	case "not":
		return []*Term{tNot(v[0])}
	case "type":
		return []*Term{tBool(true)}
	case "print":
		return []*Term{v[0]}
	case "length":
		return []*Term{tLen(v[0]), mk("conv", "int64", tLen(v[0]))}
	case "toLower":
		return []*Term{call("strings.ToLower", v[0])}
	case "toUpper":
		return []*Term{call("strings.ToUpper", v[0])}
	case "hasPrefix":
		return []*Term{call("strings.HasPrefix", v[0], v[1])}
	case "hasSuffix":
		return []*Term{call("strings.HasSuffix", v[0], v[1])}
	case "eqFold":
		return []*Term{call("strings.EqualFold", v[0], v[1]), call("strings.EqualFold", v[1], v[0])}
	case "contains":
		if in[1] == "string" {
			return []*Term{call("strings.Contains", v[0], v[1]), tNot(tLt(call("strings.Index", v[0], v[1]), tInt(0)))}
		}
		if v[1].Op == "list" {
			in := false
			for _, e := range v[1].Args {
				in = in || e == v[0]
			}
			return []*Term{tBool(in)}
		}
	case "regex":
		return []*Term{call("(*regexp.Regexp).MatchString", mk("extract", "0", call("regexp.Compile", v[0])), v[1])}
	case "now":
		return []*Term{call("(time.Time).UnixNano", call("time.Now"))}
	}
	return nil
}

// listFuncs gives what elem and range return, nil for an error.
func listFuncs(name string, v []*Term) (val *Term, isErr bool) {
	l := v[0].Args
	n := int64(len(l))
	at := func(t *Term) int64 {
		i, _ := intOf(t)
		if i < 0 && n > 0 {
			i = (i%n + n) % n
		}
		return i
	}
	if n == 0 {
		return nil, true
	}
	i := at(v[1])
	if name == "elem" {
		if i >= n {
			return nil, true
		}
		return l[i], false
	}
	j := at(v[2])
	if i > n || j > n || i > j {
		return nil, true
	}
	return mk("list", "", l[i:j]...), false
}

// swallows says what a function returns when an operand fails: "false" or "true" for an answer, "" when it
// returns the error.
func failing(name string, er []bool, v []*Term) (val *Term, errs []int) {
	for i, e := range er {
		if e {
			errs = append(errs, i)
		}
	}
	switch name {
	case "eq", "ne", "lt", "gt", "le", "ge", "type":
		return tBool(false), nil
	case "not":
		return tBool(true), nil
	case "and":
		if !er[0] && v[0].isFalse() {
			return tBool(false), nil
		}
		if er[0] {
			errs = []int{0}
		}
	case "or":
		if !er[0] && v[0].isTrue() {
			return tBool(true), nil
		}
		if !er[1] {
			return v[1], nil
		}
		errs = []int{1}
	}
	return nil, errs
}

// documented are the functions of the language with the kinds of their operands.
var documented = func() map[string][]string {
	scalars := []string{"float64", "int64", "uint64", "bool", "string", "[]byte"}
	lists := []string{"[]float64", "[]int64", "[]uint64", "[]bool", "[]string", "[][]byte"}
	m := map[string][]string{
		"and": {"bool,bool"}, "or": {"bool,bool"}, "not": {"bool"}, "now": {""},
		"contains":  {"int64,[]int64", "uint64,[]uint64", "string,[]string", "string,string"},
		"eqFold":    {"string,string"},
		"hasPrefix": {"string,string"}, "hasSuffix": {"string,string"}, "regex": {"string,string"},
		"toLower": {"string"}, "toUpper": {"string"},
		"length": append([]string{"string", "[]byte"}, lists...),
		"print":  append(append([]string{}, scalars...), lists...),
		"type":   scalars,
	}
	for _, k := range scalars {
		m["eq"] = append(m["eq"], k+","+k)
		m["ne"] = append(m["ne"], k+","+k)
		if k == "bool" || k == "string" {
			continue
		}
		for _, n := range []string{"lt", "le", "gt", "ge"} {
			m[n] = append(m[n], k+","+k)
		}
	}
	for _, k := range lists {
		m["elem"] = append(m["elem"], k+",int64")
		m["range"] = append(m["range"], k+",int64,int64")
	}
	return m
}()

func opKinds(f *ssa.Function) []string {
	var in []string
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		k := funcKind(ps.At(i).Type())
		if k == "" {
			return nil
		}
		in = append(in, k)
	}
	return in
}

func isListFunc(name string) bool { return name == "elem" || name == "range" }

// valueCases are the values the operands are given.
func valueCases(name string, in []string, thorough bool) [][]*Term {
	list := func(n int) *Term {
		es := make([]*Term, n)
		for i := range es {
			es[i] = sym(fmt.Sprintf("element:%d", i))
		}
		return mk("list", "", es...)
	}
	base := make([]*Term, len(in))
	for i := range base {
		base[i] = fval(i)
	}
	with := func(vs ...*Term) []*Term { return append([]*Term{}, vs...) }
	switch name {
	case "and", "or":
		var out [][]*Term
		for m := 0; m < 4; m++ {
			out = append(out, with(tBool(m&1 == 1), tBool(m&2 == 2)))
		}
		return out
	case "not":
		return [][]*Term{with(tBool(true)), with(tBool(false))}
	case "contains":
		if strings.HasPrefix(in[1], "[]") {
			c := func(i int) *Term {
				if in[0] == "string" {
					return mk("const", fmt.Sprintf("%q", fmt.Sprint(i)))
				}
				return tInt(int64(i))
			}
			var out [][]*Term
			for n := 0; n <= 3; n++ {
				var es []*Term
				for i := 0; i < n; i++ {
					es = append(es, c(i*2))
				}
				for x := 0; x < 5; x++ {
					out = append(out, with(c(x), mk("list", "", es...)))
				}
			}
			return out
		}
	case "length":
		if strings.HasPrefix(in[0], "[]") {
			return [][]*Term{base, with(list(0)), with(list(2))}
		}
	case "elem", "range":
		lens, lim := int64(3), int64(4)
		if thorough {
			lens, lim = 4, 6
		}
		var out [][]*Term
		for n := int64(0); n <= lens; n++ {
			for i := -lim - n; i <= n+2; i++ {
				if name == "elem" {
					out = append(out, with(list(int(n)), tInt(i)))
					continue
				}
				for j := -n - 2; j <= n+1; j++ {
					if i >= -n-2 && i <= n+1 {
						out = append(out, with(list(int(n)), tInt(i), tInt(j)))
					}
				}
			}
		}
		return out
	}
	return [][]*Term{base}
}

// is reports whether a result is one of the terms, or is known to be equal to it on this path.
func (o *outcome) is(alts []*Term) bool {
	v := o.val
	for v.Op == "conv" && len(alts) > 0 && v != alts[0] && (v.Args[0].Op == "len" || v.Args[0].isConst()) {
		v = v.Args[0]
	}
	for _, a := range alts {
		if v == a || a.Op == "list" && len(a.Args) == 0 && v == tNil {
			return true
		}
		if v.isTrue() || v.isFalse() {
			if b, ok := o.st.Fact(a); ok && b == v.isTrue() {
				return true
			}
		}
	}
	return false
}

func bools(n, m int) []bool {
	out := make([]bool, n)
	for i := range out {
		out[i] = m>>uint(i)&1 == 1
	}
	return out
}

// checkFunc compares one registered function with what its name says.
func checkFunc(p *Prog, r *Report, g registration, fold bool) bool {
	in := opKinds(g.ctor)
	if in == nil && g.ctor.Signature.Params().Len() > 0 {
		r.Fail(fname(g.ctor), p.posOf(g.ctor.Pos()), "undecided: an operand of %s is no function", g.name)
		return false
	}
	known := false
	for _, d := range documented[g.name] {
		known = known || d == strings.Join(in, ",")
	}
	n := len(in)
	args := make([]*Term, n)
	for i := range args {
		args[i] = fop(i)
	}
	if !known && !fold {
		return false
	}
	vals := valueCases(g.name, in, r.Tier == "thorough")
	if !known {
		vals = valueCases("", in, false)
	}
	for ci, v := range vals {
		for h := 0; h < 1<<uint(n); h++ {
			for e := 0; e < 1<<uint(n); e++ {
				if ci > 3 && e > 0 || isListFunc(g.name) && ci > 3 && h != 0 && h != 1<<uint(n)-1 {
					continue
				}
				if fold && isListFunc(g.name) && ci > 20 {
					continue
				}
				env := &fenv{hv: bools(n, h), er: bools(n, e), val: v}
				if e > 0 && isListFunc(g.name) {
					// the other operands take values for which nothing else fails
					env.val = []*Term{mk("list", "", sym("element:0"), sym("element:1"), sym("element:2")), tInt(1), tInt(2)}[:n]
				}
				observe(p, r, g.ctor, args, env, nil, func(o *outcome) {
					checkOutcome(p, r, g, in, env, o, fold, known)
				})
				r.Count("cases", 1)
			}
		}
	}
	return known
}

func checkOutcome(p *Prog, r *Report, g registration, in []string, env *fenv, o *outcome, fold, known bool) {
	anyErr, anyVar := false, false
	for i := range env.er {
		anyErr = anyErr || env.er[i]
		anyVar = anyVar || env.hv[i]
	}
	// operands that must be constant
	mustConst := -1
	if known && g.name == "regex" {
		mustConst = 0
	}
	if known && g.name == "contains" && strings.HasPrefix(in[1], "[]") {
		mustConst = 1
	}
	what := func() string {
		s := g.name + "(" + strings.Join(in, ", ") + ")"
		for i := range env.er {
			if env.er[i] {
				s += fmt.Sprintf(", operand %d failing", i+1)
			} else if env.val[i].Op == "const" || env.val[i].Op == "list" {
				s += fmt.Sprintf(", operand %d being %s", i+1, env.val[i])
			}
		}
		return s
	}
	if o.ctorErr {
		if fold {
			return
		}
		if mustConst >= 0 && (env.hv[mustConst] || env.er[mustConst] || g.name == "regex") {
			return
		}
		o.st.Fail(o.pos, "%s is refused", what())
		return
	}
	if fold {
		stale := func(t *Term) bool {
			return t.any(func(x *Term) bool { return x.Op == "sym" && strings.HasPrefix(x.Name, "stale:") })
		}
		// the facts of the path are about what was evaluated during construction as well
		for t := range o.st.facts {
			if stale(t) {
				o.st.Fail(o.pos, "%s depends on the value a variable had when it was constructed: %s", what(), short(t.String()))
				return
			}
		}
		if stale(o.val) || stale(o.st.Resolve(o.err)) {
			o.st.Fail(o.pos, "%s returns the value a variable had when it was constructed", what())
			return
		}
		switch {
		case o.hasVar == nil || !o.hasVar.isConst():
			o.st.Fail(o.pos, "undecided: whether %s has a variable", what())
		case o.hasVar.isFalse() && anyVar:
			o.st.Fail(o.pos, "%s denies that it has a variable, but an operand has one", what())
		}
		return
	}
	if mustConst >= 0 && env.hv[mustConst] {
		o.st.Fail(o.pos, "%s accepts a list or expression that is not constant", what())
		return
	}
	if mustConst >= 0 && env.er[mustConst] {
		o.st.Fail(o.pos, "%s ignores the error of its constant operand", what())
		return
	}
	isNil, ok := o.st.IsNil(o.err)
	if !ok {
		// the error of the operand of a path that did not look at it
		o.st.Fail(o.pos, "undecided: whether %s fails", what())
		return
	}
	if anyErr {
		val, errs := failing(g.name, env.er, env.val)
		if val != nil {
			if !isNil {
				o.st.Fail(o.pos, "%s fails instead of returning %s", what(), val)
			} else if !o.is([]*Term{val}) {
				o.st.Fail(o.pos, "%s returns %s instead of %s", what(), short(o.val.String()), val)
			}
			return
		}
		if isNil {
			o.st.Fail(o.pos, "%s loses the error: it returns %s", what(), short(o.val.String()))
			return
		}
		e := o.st.Resolve(o.err)
		for _, i := range errs {
			if e == ferr(i) {
				return
			}
		}
		// a wrapped error is fine too
		for _, i := range errs {
			if e.mentions(ferr(i)) {
				return
			}
		}
		if len(errs) > 0 && g.name != "and" && g.name != "or" {
			return
		}
		o.st.Fail(o.pos, "%s returns another error: %s", what(), short(e.String()))
		return
	}
	if isListFunc(g.name) {
		want, isErr := listFuncs(g.name, env.val)
		switch {
		case isErr && isNil:
			o.st.Fail(o.pos, "%s returns %s instead of an error", what(), short(o.val.String()))
		case !isErr && !isNil:
			o.st.Fail(o.pos, "%s fails instead of returning %s", what(), want)
		case !isErr && !o.is([]*Term{want}):
			o.st.Fail(o.pos, "%s returns %s instead of %s", what(), short(o.val.String()), want)
		}
		return
	}
	if !isNil {
		o.st.Fail(o.pos, "%s fails although its operands do not", what())
		return
	}
	want := valueFuncs(g.name, in, env.val)
	if len(want) == 0 {
		o.st.Fail(o.pos, "undecided: what %s should be", what())
		return
	}
	if !o.is(want) {
		o.st.Fail(o.pos, "%s returns %s instead of %s", what(), short(o.val.String()), short(want[0].String()))
	}
}

func funcsRule(p *Prog, r *Report) {
	regs := registrations(p, r)
	have := map[string]bool{}
	for _, g := range regs {
		have[g.name+"("+strings.Join(opKinds(g.ctor), ",")+")"] = true
		if isListFunc(g.name) || g.name == "length" {
			continue
		}
		if checkFunc(p, r, g, false) {
			r.Count("functions", 1)
			r.Sample("%s", fmt.Sprintf("%s: %s", g.name, fname(g.ctor)))
		}
	}
	reg := p.Func("relapse/funcs", "Register")
	for n, ds := range documented {
		for _, d := range ds {
			if !have[n+"("+d+")"] {
				r.Fail("function "+n+"("+d+")", p.posOf(reg.Pos()), "%s is not registered for operands of these kinds", n)
			}
		}
	}
	varsCheck(p, r)
	r.Expect("functions", 55)
	r.Expect("variables", 6)
	r.Expect("cases", 300)
	r.Assume("the functions of packages strings, bytes, regexp and time do what they are documented to do")
	r.Explain("every registered constructor of a condition function is followed with operands that have or have not a variable and that fail or return a value, then the method Eval of what it makes; each path is compared with what the name of the function says; the variables are followed from SetValue to Eval")
}

func listFuncsRule(p *Prog, r *Report) {
	for _, g := range registrations(p, r) {
		if !isListFunc(g.name) && g.name != "length" {
			continue
		}
		if checkFunc(p, r, g, false) {
			r.Count("functions", 1)
			r.Sample("%s", fmt.Sprintf("%s: %s", g.name, fname(g.ctor)))
		}
	}
	listCtors(p, r, false)
	r.Expect("functions", 20)
	r.Expect("cases", 900)
	r.Expect("lists", 6)
	r.Explain("elem, range and length of every kind of list, and the list literals, are followed for every relation of the indexes to the length (negative, inside, at the end, beyond)")
}

// accessors are the methods of a parser's value that a variable of a kind reads.
var accessors = map[string]string{"float64": "Double", "int64": "Int", "uint64": "Uint", "bool": "Bool", "string": "String", "[]byte": "Bytes"}

// funcTypes are the types of the package that implement a condition function.
func funcTypes(p *Prog, pkgs ...string) []*types.Named {
	var out []*types.Named
	for _, n := range p.namedTypes() {
		if n.Obj().Pkg() == nil {
			continue
		}
		in := false
		for _, k := range pkgs {
			in = in || relOf(n) == k
		}
		if !in || types.IsInterface(n) {
			continue
		}
		pt := types.NewPointer(n)
		if funcKind(pt) != "" && p.method(pt, "HasVariable") != nil {
			out = append(out, n)
		}
	}
	return out
}

// varsCheck follows a value from SetValue to Eval of every variable.
func varsCheck(p *Prog, r *Report) {
	for _, n := range funcTypes(p, "relapse/funcs") {
		pt := types.NewPointer(n)
		var set, ev *ssa.Function
		for i := 0; i < types.NewMethodSet(pt).Len(); i++ {
			if types.NewMethodSet(pt).At(i).Obj().Name() == "SetValue" {
				set = p.method(pt, "SetValue")
			}
		}
		if set == nil {
			continue
		}
		ev = p.method(pt, "Eval")
		r.Count("variables", 1)
		r.Sample("%s", n.Obj().Name())
		acc := accessors[funcKind(pt)]
		// nothing set, set once, set twice
		for sets := 0; sets <= 2; sets++ {
			for _, fails := range []bool{false, true} {
				obj := mk("param", "this")
				asked := ""
				cls := func(st *State, c *Call) Action {
					if c.Method != nil && strings.HasPrefix(strip(throughAs(c.Recv)).Name, "datum:") {
						want := fmt.Sprintf("datum:%d", sets)
						if strip(throughAs(c.Recv)).Name != want {
							st.Fail(c.Instr.Pos(), "reads a value that was set earlier")
						}
						asked = c.Method.Name()
						e := tNil
						if fails {
							e = ferr(0)
						}
						c.Result = mk("tuple", "", sym("read:"+c.Method.Name()), e)
						return Pure
					}
					if c.Callee != nil && relPkgOf(c.Callee) == "relapse/funcs" {
						return Inline
					}
					return Pure
				}
				var last *State
				setup := func(st *State) {
					for i := 0; i < n.Underlying().(*types.Struct).NumFields(); i++ {
						f := n.Underlying().(*types.Struct).Field(i)
						st.mem[tFA(obj, f.Name())] = zeroOf(f.Type())
					}
				}
				for k := 1; k <= sets; k++ {
					s := &Sim{P: p, NoHavoc: true, Unroll: true, Classify: cls}
					s.OnReturn = func(st *State, rets []*Term, pos tokenPos) { last = st }
					var v = mk("iface", "datum", sym(fmt.Sprintf("datum:%d", k)))
					s.Run(set, []*Term{obj, v}, setup)
					r.Sim(fname(set), s)
					if last == nil {
						r.Fail(fname(set), p.posOf(set.Pos()), "undecided: what is set")
						return
					}
					setup = carry(last, obj)
				}
				s := &Sim{P: p, NoHavoc: true, Unroll: true, Classify: cls}
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					isNil, ok := st.IsNil(rets[1])
					r.Count("readings", 1)
					switch {
					case !ok:
						st.Fail(pos, "undecided: whether it fails")
					case sets == 0 || fails:
						if isNil {
							st.Fail(pos, "returns a value without having one")
						}
					case !isNil:
						st.Fail(pos, "fails although the value is of its kind")
					case st.Resolve(rets[0]) != sym("read:"+acc):
						st.Fail(pos, "returns %s, not what %s of the value returns", short(st.Resolve(rets[0]).String()), acc)
					}
				}
				s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
				s.OnNilDeref = func(st *State, x *Term, at ssa.Instruction) { st.Fail(at.Pos(), "reads a value that is not set") }
				s.Run(ev, []*Term{obj}, setup)
				r.Sim(fname(ev), s)
				if sets > 0 && asked != acc && len(s.Errs) == 0 {
					r.Fail(fname(ev), p.posOf(ev.Pos()), "a variable of kind %s asks its value for %q", funcKind(pt), asked)
				}
			}
		}
	}
}

// listCtors checks the constructors of list literals.
func listCtors(p *Prog, r *Report, fold bool) {
	for _, f := range p.funcsIn("relapse/funcs") {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
			continue
		}
		sl, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
		if !ok || !types.IsInterface(sl.Elem()) {
			continue
		}
		k := funcKind(sl.Elem())
		if k == "" || funcKind(f.Signature.Results().At(0).Type()) != "[]"+k {
			continue
		}
		r.Count("lists", 1)
		r.Sample("%s", fname(f))
		max := 2
		if r.Tier == "thorough" {
			max = 3
		}
		for n := 0; n <= max; n++ {
			var ops, vals []*Term
			for i := 0; i < n; i++ {
				ops = append(ops, fop(i))
				vals = append(vals, fval(i))
			}
			g := registration{"[]" + k + "{}", f}
			for h := 0; h < 1<<uint(n); h++ {
				for e := 0; e < 1<<uint(n); e++ {
					env := &fenv{hv: bools(n, h), er: bools(n, e), val: vals}
					r.Count("cases", 1)
					observe(p, r, f, []*Term{mk("list", "", ops...)}, env, nil, func(o *outcome) {
						if fold {
							checkOutcome(p, r, g, make([]string, n), env, o, true, false)
							return
						}
						isNil, ok := o.st.IsNil(o.err)
						switch {
						case !ok || o.ctorErr:
							o.st.Fail(o.pos, "undecided: whether the list fails")
						case e == 0 && !isNil:
							o.st.Fail(o.pos, "a list of %d fails although its elements do not", n)
						case e == 0 && !o.is([]*Term{mk("list", "", vals...)}) && o.st.snapshot(o.val) != mk("list", "", vals...):
							o.st.Fail(o.pos, "a list of %d is %s", n, short(o.val.String()))
						case e != 0 && isNil:
							o.st.Fail(o.pos, "a list loses the error of an element")
						}
					})
				}
			}
		}
	}
}

// impure says why evaluating a function may return something else another time.
func impure(p *Prog, ev *ssa.Function, n *types.Named) string {
	pure := map[string]bool{"strings": true, "bytes": true, "regexp": true, "math": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "sort": true}
	mut := mutableFields(p, n)
	var fs []*ssa.Function
	for f := range p.reach([]*ssa.Function{ev}, false) {
		fs = append(fs, f)
	}
	why := ""
	for _, f := range fs {
		if !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					callee := c.Common().StaticCallee()
					if callee != nil && callee.Pkg != nil && !inRepo(callee) && !pure[callee.Pkg.Pkg.Path()] && !strings.HasPrefix(callee.Name(), "Sprint") && callee.String() != "fmt.Errorf" {
						why = "calls " + callee.String()
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && (f == ev || f.Signature.Recv() != nil && named2(f.Signature.Recv().Type()) == n) {
					st := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if nt, ok := st.(*types.Named); ok && nt == n && mut[nt.Underlying().(*types.Struct).Field(fa.Field).Name()] {
						why = "reads " + nt.Underlying().(*types.Struct).Field(fa.Field).Name() + ", which changes"
					}
				}
			}
		}
	}
	return why
}

// mutableFields are the fields of a type that are stored to other than in a fresh object.
func mutableFields(p *Prog, n *types.Named) map[string]bool {
	out := map[string]bool{}
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for _, f := range p.funcsIn(relOf(n)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				if nt, ok := pt.Elem().(*types.Named); !ok || nt != n {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					out[u.Field(fa.Field).Name()] = true
				}
			}
		}
	}
	return out
}

// foldRule: conditions are evaluated ahead of time only when they depend on no variable.
func foldRule(p *Prog, r *Report) {
	for _, g := range registrations(p, r) {
		checkFunc(p, r, g, true)
		r.Count("functions", 1)
	}
	listCtors(p, r, true)
	for _, n := range funcTypes(p, "relapse/funcs", "relapse/compose", "relapse/combinator") {
		pt := types.NewPointer(n)
		ev, hv := p.method(pt, "Eval"), p.method(pt, "HasVariable")
		if ev == nil || hv == nil || ev.Blocks == nil || hv.Blocks == nil {
			continue
		}
		r.Count("kinds of functions", 1)
		why := impure(p, ev, n)
		if why == "" {
			continue
		}
		r.Count("impure functions", 1)
		r.Sample("%s", n.Obj().Name()+" "+why)
		s := &Sim{P: p, NoHavoc: true}
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			if !rets[0].isTrue() {
				st.Fail(pos, "%s may deny that it has a variable, but %s %s", n.Obj().Name(), fname(ev), why)
			}
		}
		s.Run(hv, nil, nil)
		r.Sim(fname(hv), s)
	}
	r.Expect("functions", 75)
	r.Expect("lists", 6)
	r.Expect("kinds of functions", 90)
	r.Expect("impure functions", 19)
	r.Expect("cases", 1000)
	r.Explain("every constructor is followed with operands of which some have a variable; what is constructed must say so and must not depend on the values operands with a variable had at construction; a function whose evaluation prints, reads the clock or reads a field that changes always says it has a variable")
}

// method is a method of a type, nil when there is none.
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}
