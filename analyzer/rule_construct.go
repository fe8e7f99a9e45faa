package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", "other", constructRule)
	register("C31", "other", refsRule)
}

// builder simulates the functions that construct grammars and says what they built.
type builder struct {
	p     *Prog
	r     *Report
	x     *printer
	types map[string]string // value of a types.Type constant: its name
	given bool              // the keywords of an expression that was given are checked
}

func newBuilder(p *Prog, r *Report) *builder {
	b := &builder{p: p, r: r, x: &printer{p: p, r: r}, types: map[string]string{}}
	tt := p.Type("relapse/types", "Type")
	sc := tt.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), tt) {
			b.types[c.Val().ExactString()] = n
		}
	}
	return b
}

// the spelling of the keyword that a field holds, whatever it is part of
var keywordOf = map[string]string{
	"OpenParen": "(", "CloseParen": ")", "OpenBracket": "[", "CloseBracket": "]", "OpenCurly": "{", "CloseCurly": "}",
	"Comma": ",", "Pipe": "|", "Ampersand": "&", "SemiColon": ";", "Star": "*", "Dot": ".", "At": "@", "Exclamation": "!",
	"QuestionMark": "?", "Colon": ":", "Underscore": "_", "RightArrow": "->", "Eq": "=", "Hash": "#", "Empty": "<empty>",
}

func (b *builder) sim() *Sim {
	s := &Sim{P: b.p, Unroll: true, NoHavoc: true, MaxDepth: 16}
	s.Recursion = func(f *ssa.Function) bool { return true }
	s.Classify = func(st *State, c *Call) Action {
		switch c.Name() {
		case "(*relapse/ast.Expr).Clone":
			// a copy: C03 decides that it is one
			c.Result = mk("copy", "", c.Args[0])
			return Pure
		case "relapse/parser.ParseExpr", "(*relapse/ast.Expr).String":
			return Event
		}
		if c.Callee != nil && inRepo(c.Callee) && c.Callee.Blocks != nil {
			return Inline
		}
		if c.Callee != nil && c.Callee.Pkg != nil && strings.HasSuffix(c.Callee.Pkg.Pkg.Path(), "protobuf/proto") && len(c.Args) == 1 && c.NRes == 1 {
			if pt, ok := c.Callee.Signature.Results().At(0).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), c.Callee.Signature.Params().At(0).Type()) {
				// proto.Int64 and the like
				a := mk("alloc", "boxed"+st.fresh())
				st.mem[a] = st.Resolve(c.Args[0])
				c.Result = a
				return Pure
			}
		}
		return Pure
	}
	return s
}

func (b *builder) changed(st *State, v *Term) bool {
	for a := range st.mem {
		if rootOf(a) == v {
			return true
		}
	}
	return false
}

// tree writes what was built, without keywords and spaces. at is the field it is in.
func (b *builder) tree(st *State, v *Term, t types.Type, at string) string {

	if v == tNil {
		return "nil"
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		if nl, known := st.IsNil(v); known && nl {
			return "nil"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		s, ok := u.Elem().Underlying().(*types.Struct)
		if !ok {
			if v.Op == "alloc" {
				return "&" + b.tree(st, st.Load(v, u.Elem()), u.Elem(), at)
			}
			return v.String()
		}
		if v.Op != "alloc" {
			if b.changed(st, v) {
				return v.String() + " changed"
			}
			return v.String()
		}
		n := named(u.Elem())
		if n == nil {
			return v.String()
		}
		if n.Obj().Name() == "Keyword" {
			k, ok := strOf(st.Load(tFA(v, "Value"), types.Typ[types.String]))
			if !ok {
				return "a keyword that is not known"
			}
			return fmt.Sprintf("%q", k)
		}
		var out []string
		from, same := (*Term)(nil), true
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			x := st.Load(tFA(v, f.Name()), f.Type())
			if isKind(f.Type(), "Keyword") && keywordOf[f.Name()] != "" {
				if x != tNil && x.Op == "alloc" {
					if got := b.tree(st, x, f.Type(), f.Name()); got != fmt.Sprintf("%q", keywordOf[f.Name()]) {
						out = append(out, f.Name()+" spelled "+got)
					}
				}
				continue
			}
			if isKind(f.Type(), "Space") {
				continue
			}
			if x.Op == "field" && x.Name == f.Name() && (from == nil || from == x.Args[0]) {
				from = x.Args[0]
			} else {
				same = false
			}
			k := b.tree(st, x, f.Type(), f.Name())
			if k == "nil" || k == `""` {
				continue
			}
			out = append(out, f.Name()+":"+k)
		}
		if same && from != nil {
			// a copy, but for keywords
			for from.Op == "deref" || from.Op == "copy" {
				from = from.Args[0]
			}
			return from.String()
		}
		return n.Obj().Name() + "{" + strings.Join(out, " ") + "}"
	case *types.Slice:
		l := st.snapshot(v)
		if l.Op == "list" {
			var out []string
			for _, e := range l.Args {
				out = append(out, b.tree(st, e, u.Elem(), at))
			}
			return "[" + strings.Join(out, " ") + "]"
		}
		return v.String()
	}
	if n := named(t); n != nil && n.Obj().Name() == "Type" {
		if i, ok := intOf(v); ok {
			return b.types[fmt.Sprint(i)]
		}
	}
	for v.Op == "conv" && isIntType(t) {
		v = v.Args[0]
	}
	return v.String()
}

func isKind(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		if n := named(p.Elem()); n != nil {
			return n.Obj().Name() == name
		}
	}
	return false
}

// what a constructor should build; %0 is argument 0
type built struct {
	fn   string
	tree func(n int) string // n is the length of the sequence that is given
	text func(n int) []string
	min  int  // length of the sequence
	bare bool // an expression without an arrow
	kids int  // which argument is a list of expressions that end up in a list: their commas are checked
}

func one(s string) func(int) string { return func(int) string { return s } }

func texts(s ...string) func(int) []string { return func(int) []string { return s } }

// elems are the elements of the sequence in argument i.
func elemNames(i, n int) []string {
	var out []string
	for k := 0; k < n; k++ {
		out = append(out, fmt.Sprintf("%%%d.%d", i, k))
	}
	return out
}

// nested makes f(e0, f(e1, f(e2, e3)))
func nestedIn(wrap, kind, left, right string, es []string) string {
	if len(es) == 0 {
		return "nil"
	}
	if len(es) == 1 {
		return es[0]
	}
	return wrap + "{" + kind + ":" + kind + "{" + left + ":" + es[0] + " " + right + ":" + nestedIn(wrap, kind, left, right, es[1:]) + "}}"
}

func pat(kind, inner string) string { return "Pattern{" + kind + ":" + kind + "{" + inner + "}}" }

func nary(kind, open, sep, cl string) built {
	return built{tree: func(n int) string {
		return nestedIn("Pattern", kind, "LeftPattern", "RightPattern", elemNames(0, n))
	}, text: naryText(open, sep, cl)}
}

// all in one pair of brackets, or every two in their own
func naryText(open, sep, cl string) func(n int) []string {
	return func(n int) []string {
		if n == 0 {
			return nil
		}
		es := elemNames(0, n)
		if n == 1 {
			return []string{es[0]}
		}
		out := es[n-1]
		for i := n - 2; i >= 0; i-- {
			out = open + es[i] + sep + out + cl
		}
		return []string{open + strings.Join(es, sep) + cl, out}
	}
}

func astBuilds() []built {
	var out []built
	add := func(fn string, b built) { b.fn = fn; out = append(out, b) }
	add("NewEmpty", built{tree: one(`Pattern{Empty:Empty{}}`), text: texts("<empty>")})
	add("NewTreeNode", built{tree: one(pat("TreeNode", "Name:%0 Pattern:%1")), text: texts("%0:%1", "%0%1")})
	add("NewContains", built{tree: one(pat("Contains", "Pattern:%0")), text: texts(".%0")})
	add("NewLeafNode", built{tree: one(pat("LeafNode", "Expr:%0")), text: texts("%0")})
	add("NewConcat", nary("Concat", "[", ",", "]"))
	add("NewOr", nary("Or", "(", "|", ")"))
	add("NewAnd", nary("And", "(", "&", ")"))
	add("NewInterleave", nary("Interleave", "{", ";", "}"))
	add("NewNameChoice", built{tree: func(n int) string { return nestedIn("NameExpr", "NameChoice", "Left", "Right", elemNames(0, n)) }, text: naryText("(", "|", ")")})
	add("NewZeroOrMore", built{tree: one(pat("ZeroOrMore", "Pattern:%0")), text: texts("(%0)*")})
	add("NewOptional", built{tree: one(pat("Optional", "Pattern:%0")), text: texts("(%0)?")})
	add("NewNot", built{tree: one(pat("Not", "Pattern:%0")), text: texts("!(%0)")})
	add("NewReference", built{tree: one(pat("Reference", "Name:%0")), text: texts("@%0")})
	add("NewZAny", built{tree: one(pat("ZAny", "")), text: texts("*")})
	add("NewPatternDecl", built{tree: one("PatternDecl{Name:%0 Pattern:%1}"), text: texts("#%0=%1")})
	add("NewFunction", built{tree: func(n int) string { return "Expr{Function:" + fun("%0", elemNames(1, n)...) + "}" }, kids: 1})
	add("NewNestedFunction", built{tree: func(n int) string { return "Expr{Function:" + fun("%0", elemNames(1, n)...) + "}" }, bare: true, kids: 1})
	add("NewVar", built{tree: one("Expr{Terminal:Terminal{Variable:Variable{Type:%0}}}")})
	add("NewTrue", built{tree: one(`Expr{Terminal:Terminal{Literal:"true" BoolValue:&true}}`)})
	add("NewFalse", built{tree: one(`Expr{Terminal:Terminal{Literal:"false" BoolValue:&false}}`)})
	for _, t := range []string{"Double", "Int", "Uint", "Bool", "String", "Bytes"} {
		u := strings.ToUpper(t)
		box := "&%0"
		if t == "Bytes" {
			box = "%0"
		}
		add("New"+t+"Var", built{tree: one("Expr{Terminal:Terminal{Variable:Variable{Type:SINGLE_" + u + "}}}")})
		if t != "Bool" {
			add("New"+t+"Const", built{tree: one("Expr{Terminal:Terminal{" + t + "Value:" + box + "}}")})
		}
		add("New"+t+"List", built{tree: func(n int) string {
			return "Expr{List:List{Type:LIST_" + u + list(" Elems", elemNames(0, n)) + "}}"
		}, kids: 0})
		add("New"+t+"Name", built{tree: one("NameExpr{Name:Name{" + t + "Value:" + box + "}}")})
	}
	add("NewList", built{tree: func(n int) string {
		return "Expr{List:List{Type:%0" + list(" Elems", elemNames(1, n)) + "}}"
	}, kids: 1})
	add("NewAnyName", built{tree: one("NameExpr{AnyName:AnyName{}}"), text: texts("_")})
	add("NewAnyNameExcept", built{tree: one("NameExpr{AnyNameExcept:AnyNameExcept{Except:%0}}"), text: texts("!(%0)")})
	for _, o := range operators {
		add(o.ctor, built{tree: one(fmt.Sprintf("Expr{BuiltIn:BuiltIn{Symbol:%q Expr:%%0}}", o.symbol)), text: texts(o.symbol + "%0")})
	}
	return out
}

func list(field string, es []string) string {
	if len(es) == 0 {
		return field + ":[]"
	}
	return field + ":[" + strings.Join(es, " ") + "]"
}

func fun(name string, params ...string) string {
	return "Function{Name:" + name + list(" Params", params) + "}"
}

// operators: the symbol, the function it abbreviates and its constructor.
var operators = []struct{ symbol, fn, ctor string }{
	{"==", "eq", "NewEqual"}, {"!=", "ne", "NewNotEqual"}, {"<", "lt", "NewLessThan"}, {">", "gt", "NewGreaterThan"},
	{"<=", "le", "NewLessEqual"}, {">=", "ge", "NewGreaterEqual"}, {"~=", "regex", "NewRegex"}, {"*=", "contains", "NewHasElem"},
	{"^=", "hasPrefix", "NewHasPrefix"}, {"$=", "hasSuffix", "NewHasSuffix"}, {"::", "type", "NewType"},
}

func combinatorBuilds() []built {
	var out []built
	add := func(fn string, b built) { b.fn = fn; out = append(out, b) }
	cat := func(kind string, i int) func(n int) string {
		return func(n int) string {
			return nestedIn("Pattern", kind, "LeftPattern", "RightPattern", append([]string{fmt.Sprintf("%%%d", i)}, elemNames(i+1, n)...))
		}
	}
	in := func(name string, i int) func(n int) string {
		return func(n int) string { return pat("TreeNode", "Name:"+name+" Pattern:"+cat("Concat", i)(n)) }
	}
	under := func(f func(n int) string) func(n int) string {
		return func(n int) string { return pat("Contains", "Pattern:"+f(n)) }
	}
	str := func(s string) string { return "NameExpr{Name:Name{StringValue:&" + s + "}}" }
	any := "NameExpr{AnyName:AnyName{}}"
	add("Any", built{tree: one(pat("ZAny", ""))})
	add("InPath", built{tree: under(in(str("%0"), 1))})
	add("InAnyPath", built{tree: under(in(any, 0))})
	add("In", built{tree: in(str("%0"), 1)})
	add("Elem", built{tree: in("NameExpr{Name:Name{IntValue:&%0}}", 1)})
	add("InAny", built{tree: in(any, 0)})
	add("InAnyExcept", built{tree: in("NameExpr{AnyNameExcept:AnyNameExcept{Except:"+str("%0")+"}}", 1)})
	add("InAnyOf", built{min: 2, tree: func(n int) string {
		var es []string
		for _, e := range elemNames(0, n) {
			es = append(es, str(e))
		}
		return in(nestedIn("NameExpr", "NameChoice", "Left", "Right", es), 1)(n)
	}})
	add("None", built{tree: one(pat("Not", "Pattern:"+pat("ZAny", "")))})
	add("Eval", built{tree: one(pat("Reference", "Name:%0"))})
	add("InOrder", built{tree: cat("Concat", 0)})
	add("InAnyOrder", built{tree: cat("Interleave", 0)})
	all := func(kind string) func(n int) string {
		return func(n int) string { return nestedIn("Pattern", kind, "LeftPattern", "RightPattern", elemNames(0, n)) }
	}
	add("AllOf", built{tree: all("And")})
	add("AnyOf", built{tree: all("Or")})
	add("OppositeOf", built{tree: one(pat("Not", "Pattern:%0"))})
	add("Many", built{tree: one(pat("ZeroOrMore", "Pattern:%0"))})
	add("Maybe", built{tree: one(pat("Optional", "Pattern:%0"))})
	for _, f := range [][2]string{{"Eq", "eq"}, {"And", "and"}, {"Contains", "contains"}, {"Or", "or"}, {"LT", "lt"}, {"LE", "le"}, {"GT", "gt"},
		{"GE", "ge"}, {"Regex", "regex"}, {"EqualFold", "eqFold"}, {"HasPrefix", "hasPrefix"}, {"HasSuffix", "hasSuffix"}} {
		add(f[0], built{tree: one("Expr{Function:" + fun(fmt.Sprintf("%q", f[1]), "%0", "%1") + "}"), kids: -1})
	}
	for _, f := range [][2]string{{"Length", "length"}, {"Not", "not"}, {"Type", "type"}} {
		add(f[0], built{tree: one("Expr{Function:" + fun(fmt.Sprintf("%q", f[1]), "%0") + "}"), kids: -1})
	}
	for _, t := range []string{"Double", "Int", "Uint", "Bool", "String", "Bytes"} {
		u := strings.ToUpper(t)
		box := "&"
		if t == "Bytes" {
			box = ""
		}
		c := func(v string) string {
			if t == "Bool" {
				return fmt.Sprintf(`Expr{Terminal:Terminal{Literal:"%s" BoolValue:&%s}}`, v, v)
			}
			return "Expr{Terminal:Terminal{" + t + "Value:" + box + v + "}}"
		}
		add(t+"Var", built{tree: one("Expr{Terminal:Terminal{Variable:Variable{Type:SINGLE_" + u + "}}}")})
		add(t+"Const", built{tree: one(c("%0"))})
		nm := t + "sConst"
		if t == "Bytes" {
			nm = "ListOfBytesConst"
		}
		add(nm, built{tree: func(n int) string {
			var es []string
			for _, e := range elemNames(0, n) {
				es = append(es, c(e))
			}
			return "Expr{List:List{Type:LIST_" + u + list(" Elems", es) + "}}"
		}, kids: -1})
	}
	return out
}

func constructRule(p *Prog, r *Report) {
	b := newBuilder(p, r)
	for _, w := range []struct {
		pkg string
		all []built
	}{{"relapse/ast", astBuilds()}, {"relapse/combinator", combinatorBuilds()}} {
		for _, e := range w.all {
			w, e := w, e
			r.guard(w.pkg+"."+e.fn, func() { b.constructor(w.pkg, e) })
		}
	}
	r.guard("operators", func() { b.operators() })
	r.guard("combinator.Value", func() { b.value() })
	r.Expect("constructors", 95)
	r.Expect("trees built", 200)
	r.Expect("texts of what was built", 40)
	r.Expect("arrows", 60)
	r.Expect("commas", 600)
	r.Expect("operators", 11)
	r.Expect("expressions of Value", 12)
	r.Explain("every constructor and combinator is simulated on sequences of 0 to 4 unknown elements: the tree that is built is the one it is named for, with what was given in its place and order, keywords spelled as the grammar spells them, and (for patterns) printing as documented")
}

// arg makes argument i; n elements when it is a sequence
func (b *builder) arg(i int, t types.Type, n int) *Term {
	name := fmt.Sprintf("%s%d", xsym, i)
	if sl, ok := t.Underlying().(*types.Slice); ok && !isByte(sl.Elem()) {
		var es []*Term
		for k := 0; k < n; k++ {
			e := sym(fmt.Sprintf("%s.%d", name, k))
			e.Typ = sl.Elem()
			es = append(es, e)
		}
		return mk("list", "", es...)
	}
	a := sym(name)
	a.Typ = t
	return a
}

func isByte(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Kind() == types.Uint8
}

func (b *builder) constructor(pkg string, e built) {
	fn := b.p.Func(pkg, e.fn)
	b.r.Count("constructors", 1)
	key := pkg + "." + e.fn
	seqs := false
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if sl, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice); ok && !isByte(sl.Elem()) {
			seqs = true
		}
	}
	max := e.min
	if seqs {
		max = 4
	}
	for n := e.min; n <= max; n++ {
		want := e.tree(n)
		var args []*Term
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			args = append(args, b.arg(i, fn.Signature.Params().At(i).Type(), n))
		}
		want = strings.Replace(want, "%", xsym, -1)
		what := key
		if seqs {
			what = fmt.Sprintf("%s of %d", key, n)
		}
		s := b.sim()
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
		rt := fn.Signature.Results().At(0).Type()
		done := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			done++
			b.r.Count("trees built", 1)
			got := strings.Replace(b.tree(st, rets[0], rt, ""), "sym:", "", -1)
			if !b.same(st, got, want) {
				st.Fail(pos, "it builds %s and not %s", clip(got), clip(want))
				return
			}
			if e.kids != 0 || strings.HasSuffix(e.fn, "List") {
				b.commas(st, rets[0], rt, pos)
			}
			if isKind(rt, "Expr") && (pkg == "relapse/combinator" || strings.HasSuffix(e.fn, "Function")) {
				// a function that is nested has no arrow; what is put in a leaf has
				b.r.Count("arrows", 1)
				nl, known := st.IsNil(st.Load(tFA(rets[0], "RightArrow"), fieldType(rt, "RightArrow")))
				if !known || nl != e.bare {
					st.Fail(pos, "whether there is an arrow in front of the expression: it should be %v", !e.bare)
				}
			}
			if e.text != nil && !(n == 0 && seqs) {
				b.text(what, st, rets[0], rt, e.text(n))
			}
		}
		s.Run(fn, args, func(st *State) {
			for _, a := range args {
				if a.Op == "list" {
					for _, x := range a.Args {
						b.notNil(st, x)
					}
					continue
				}
				b.notNil(st, a)
			}
		})
		b.r.Sim(what, s)
		if done == 0 && len(s.Errs) == 0 {
			b.r.Fail(what, b.p.posOf(fn.Pos()), "it builds nothing")
		}
	}
}

func (b *builder) notNil(st *State, x *Term) {
	if x.Typ == nil {
		return
	}
	if _, ok := x.Typ.Underlying().(*types.Pointer); ok {
		st.assume(tEq(x, tNil), false)
	}
}

// same compares trees; a boolean that the path knows is that value.
func (b *builder) same(st *State, got, want string) bool {
	if got == want {
		return true
	}
	for i := 0; i < 5; i++ {
		for _, n := range []string{fmt.Sprintf("%s%d", xsym, 0), fmt.Sprintf("%s0.%d", xsym, i)} {
			a := sym(n)
			if k, ok := st.Fact(a); ok {
				want = strings.Replace(want, `"`+n+`"`, fmt.Sprintf("%q", fmt.Sprint(k)), -1)
				want = strings.Replace(want, "&"+n+"}", "&"+fmt.Sprint(k)+"}", -1)
				got = strings.Replace(got, "&"+n+"}", "&"+fmt.Sprint(k)+"}", -1)
			}
		}
	}
	return got == want
}

// commas checks that the expressions of a list have commas between them, and no arrows.
func (b *builder) commas(st *State, v *Term, t types.Type, pos tokenPos) {
	lf := tNil
	var lt types.Type
	for _, f := range []struct{ kind, elems string }{{"Function", "Params"}, {"List", "Elems"}} {
		kt := fieldType(t, f.kind)
		k := st.Load(tFA(v, f.kind), kt)
		if k == tNil {
			continue
		}
		lt = fieldType(kt, f.elems)
		lf = st.snapshot(st.Load(tFA(k, f.elems), lt))
	}
	if lf.Op != "list" {
		if lf != tNil {
			st.Fail(pos, "undecided: the expressions of the list")
		}
		return
	}
	et := lt.Underlying().(*types.Slice).Elem()
	kw := fieldType(et, "Comma")
	for i, e := range lf.Args {

		c := st.Load(tFA(e, "Comma"), kw)
		nl, known := st.IsNil(c)
		if i == 0 && !(known && nl) {
			st.Fail(pos, "there is a comma in front of the first expression")
		}
		if i > 0 && !(known && !nl) {
			st.Fail(pos, "there is no comma in front of expression %d", i)
		}
		a := st.Load(tFA(e, "RightArrow"), kw)
		if nl, known := st.IsNil(a); !known || !nl {
			st.Fail(pos, "there is an arrow in front of expression %d", i)
		}
		b.r.Count("commas", 1)
	}
}

// text checks what was built prints as.
func (b *builder) text(what string, st *State, v *Term, t types.Type, want []string) {

	mem, facts, data := st.mem, st.facts, st.Data
	b.x.print(what, v, t, func(s2 *State) {
		for a, v := range mem {
			s2.mem[a] = v
		}
		for a, v := range facts {
			s2.facts[a] = v
		}
		for a, v := range data {
			s2.Data[a] = v
		}
	}, func(s2 *State, ps []part, pos tokenPos) {
		b.r.Count("texts of what was built", 1)
		got := ""
		for _, q := range ps {
			if q.child != nil {
				got += "%" + strings.TrimPrefix(strings.TrimPrefix(q.child.String(), "sym:"), xsym)
				continue
			}
			if !blank(q.text) {
				got += strings.TrimSpace(q.text)
			}
		}
		for _, w := range want {
			if w == got {
				return
			}
		}
		s2.Fail(pos, "it prints as %s and not as %s", got, strings.Join(want, " or "))
	})
}

// operators: the symbols and functions correspond, one to one.
func (b *builder) operators() {
	p, r := b.p, b.r
	name, ctor := p.Func("relapse/ast", "BuiltInFunctionName"), p.Func("relapse/ast", "FunctionNameToBuiltIn")
	ask := func(fn *ssa.Function, arg string, f func(st *State, v *Term, pos tokenPos)) {
		s := b.sim()
		n := 0
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) { n++; f(st, st.Resolve(rets[0]), pos) }
		s.Run(fn, []*Term{mk("const", fmt.Sprintf("%q", arg))}, nil)
		r.Sim(fname(fn)+" of "+arg, s)
		if n == 0 && len(s.Errs) == 0 {
			r.Fail(fname(fn)+" of "+arg, p.posOf(fn.Pos()), "it never returns")
		}
	}
	for _, o := range operators {
		o := o
		r.Count("operators", 1)
		ask(name, o.symbol, func(st *State, v *Term, pos tokenPos) {
			if s, ok := strOf(v); !ok || s != o.fn {
				st.Fail(pos, "the symbol %s is for %s and not %s", o.symbol, v, o.fn)
			}
		})
		ask(ctor, o.fn, func(st *State, v *Term, pos tokenPos) {
			want := p.Func("relapse/ast", o.ctor)
			if v.Fn != want {
				st.Fail(pos, "the constructor for %s is %s and not %s", o.fn, v, fname(want))
			}
		})
	}
	for _, o := range []string{"", "=", "eqFold"} {
		o := o
		ask(name, o, func(st *State, v *Term, pos tokenPos) {
			if s, ok := strOf(v); !ok || s != "" {
				st.Fail(pos, "%q is not a symbol, and is for %s", o, v)
			}
		})
		ask(ctor, o, func(st *State, v *Term, pos tokenPos) {
			if v != tNil {
				st.Fail(pos, "%q has no built in, and has %s", o, v)
			}
		})
	}
}

// value: the expression that combinator.Value makes a leaf of is the one it was given, or the built in it is the same as.
func (b *builder) value() {
	p, r := b.p, b.r
	fn := p.Func("relapse/combinator", "Value")
	et := types.NewPointer(p.Type("relapse/ast", "Expr"))
	for n := 0; n <= 3; n++ {
		n := n
		e := sym(xsym + "0")
		e.Typ = et
		s := b.sim()
		base := s.Classify
		s.Classify = func(st *State, c *Call) Action {
			switch c.Name() {
			case "(*relapse/ast.Expr).String":
				b.expression(st, c.Args[0], et, e, n, c.Instr.Pos())
				c.Result = mk("text", "")
				return Pure
			case "relapse/parser.ParseExpr":
				if st.Resolve(c.Args[0]).Op != "text" {
					st.Fail(c.Instr.Pos(), "undecided: the text that is parsed")
				}
				x := sym("parsed")
				x.Typ = et
				st.Data["parsed"] = tBool(true)
				c.Result = mk("tuple", "", x, sym("error"))
				return Pure
			}
			return base(st, c)
		}
		s.OnPanic = func(st *State, pos tokenPos) {
			if st.Data["parsed"] == nil {
				st.Fail(pos, "it panics before the text is parsed")
			}
		}
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			got := b.tree(st, rets[0], fn.Signature.Results().At(0).Type(), "")
			if want := pat("LeafNode", "Expr:"+sym("parsed").String()); got != want {
				st.Fail(pos, "it builds %s and not %s", clip(got), want)
			}
			if nl, known := st.IsNil(sym("error")); !known || !nl {
				st.Fail(pos, "a text that does not parse is not refused")
			}
		}
		s.Run(fn, []*Term{e}, func(st *State) {
			st.assume(tEq(e, tNil), false)
			f := tField(e, "Function")
			if n > 0 {
				st.assume(tEq(f, tNil), false)
				var es []*Term
				for k := 0; k < n; k++ {
					x := sym(fmt.Sprintf("%s0.%d", xsym, k))
					x.Typ = et
					es = append(es, x)
					st.assume(tEq(x, tNil), false)
				}
				st.mem[tFA(f, "Params")] = mk("list", "", es...)
			} else {
				st.assume(tEq(f, tNil), true)
			}
		})
		r.Sim(fmt.Sprintf("combinator.Value of a function of %d", n), s)
	}
}

func (b *builder) expression(st *State, v *Term, et types.Type, given *Term, n int, pos tokenPos) {
	b.r.Count("expressions of Value", 1)
	if v == given {
		return
	}
	got := b.tree(st, v, et, "")
	if n != 2 {
		st.Fail(pos, "a function of %d operands becomes %s", n, clip(got))
		return
	}
	f := tField(given, "Function")
	known := func(t *Term) bool {
		nl, ok := st.IsNil(t)
		return ok && !nl
	}
	for _, o := range operators {
		for k := 0; k < 2; k++ {
			x := sym(fmt.Sprintf("%s0.%d", xsym, k))
			for _, w := range []*Term{x, mk("copy", "", x)} {
				if got != fmt.Sprintf("Expr{BuiltIn:BuiltIn{Symbol:%q Expr:%s}}", o.symbol, w) && got != fmt.Sprintf("Expr{BuiltIn:BuiltIn{Symbol:%q Expr:%s changed}}", o.symbol, mk("copy", "", x)) {
					continue
				}
				if eq, ok := st.Fact(tEq(tField(f, "Name"), mk("const", fmt.Sprintf("%q", o.fn)))); !ok || !eq {
					st.Fail(pos, "another function than %s becomes %s", o.fn, o.symbol)
					return
				}
				other := sym(fmt.Sprintf("%s0.%d", xsym, 1-k))
				if !known(tField(tField(other, "Terminal"), "Variable")) {
					st.Fail(pos, "%s drops an operand that is not known to be a variable", o.symbol)
					return
				}
				right := k == 0 // the variable is on the right
				ok := !right
				switch o.fn {
				case "regex":
					ok = right
				case "eq", "ne":
					ok = true
				}
				if !ok {
					st.Fail(pos, "the operands of %s are swapped", o.fn)
				}
				return
			}
		}
	}
	st.Fail(pos, "the expression is not what was given, but %s", clip(got))
}

// refsRule: a grammar and its references say the same.
func refsRule(p *Prog, r *Report) {
	b := newBuilder(p, r)
	names := []string{"mainly", "b", "A"}
	pt := types.NewPointer(p.Type("relapse/ast", "Pattern"))
	str := func(s string) *Term { return mk("const", fmt.Sprintf("%q", s)) }
	pattern := func(n string) *Term {
		x := sym(xsym + n)
		x.Typ = pt
		return x
	}
	sim := func() *Sim {
		s := b.sim()
		s.Maps = true
		base := s.Classify
		s.Classify = func(st *State, c *Call) Action {
			n := c.Name()
			if n == "sort.Strings" || n == "slices.Sort" || n == "sort.Sort" || n == "sort.Stable" {
				a := c.Args[0]
				for a.Op == "iface" || a.Op == "conv" {
					a = a.Args[0]
				}
				l := st.snapshot(a)
				var ss []string
				ok := l.Op == "list" || l == tNil
				for _, x := range l.Args {
					t, k := strOf(x)
					ok = ok && k
					ss = append(ss, t)
				}
				if !ok {
					st.Fail(c.Instr.Pos(), "undecided: what is sorted")
					return Pure
				}
				sort.Strings(ss)
				for i, t := range ss {
					st.mem[mk("ia", "", a, tInt(int64(i)))] = str(t)
				}
				return Pure
			}
			return base(st, c)
		}
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
		return s
	}
	// the declarations of a grammar become references
	fn := p.Func("relapse/ast", "NewRefLookup")
	for n := 0; n <= len(names); n++ {
		for _, top := range []bool{false, true} {
			g := sym(xsym + "g")
			want := map[string]string{}
			s := sim()
			what := fmt.Sprintf("references of a grammar with %d declarations", n)
			if top {
				what += " and a main pattern"
				want["main"] = pattern("main").String()
			}
			for _, k := range names[:n] {
				want[k] = pattern(k).String()
			}
			done := 0
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				done++
				r.Count("reference lookups", 1)
				m := rets[0]
				if !isTrackedMap(m) {
					if m == tNil && len(want) == 0 {
						return
					}
					st.Fail(pos, "undecided: the map that is returned")
					return
				}
				got := map[string]string{}
				for _, k := range st.mapKeys(m) {
					t, ok := strOf(k)
					if !ok {
						st.Fail(pos, "undecided: the name %s", k)
						return
					}
					got[t] = b.tree(st, st.mem[mk("mapaddr", "", m, k)], pt, "")
				}
				for k, v := range want {
					if got[k] != v {
						st.Fail(pos, "the pattern of %s is %q and not %s", k, got[k], v)
					}
				}
				for k := range got {
					if _, ok := want[k]; !ok {
						st.Fail(pos, "there is a pattern for %s, which has none", k)
					}
				}
			}
			n, top := n, top
			s.Run(fn, []*Term{g}, func(st *State) {
				st.assume(tEq(g, tNil), false)
				var ds []*Term
				for _, k := range names[:n] {
					d := sym("decl:" + k)
					ds = append(ds, d)
					st.assume(tEq(d, tNil), false)
					st.assume(tEq(pattern(k), tNil), false)
					st.mem[tFA(d, "Name")] = str(k)
					st.mem[tFA(d, "Pattern")] = pattern(k)
				}
				st.mem[tFA(g, "PatternDecls")] = mk("list", "", ds...)
				st.mem[tFA(g, "TopPattern")] = tNil
				if top {
					st.mem[tFA(g, "TopPattern")] = pattern("main")
					st.assume(tEq(pattern("main"), tNil), false)
				}
			})
			r.Sim(what, s)
			if done == 0 && len(s.Errs) == 0 {
				r.Fail(what, p.posOf(fn.Pos()), "it never returns")
			}
		}
	}
	// references become the declarations of a grammar, whichever way the map is visited
	fn = p.Func("relapse/ast", "NewGrammar")
	gt := fn.Signature.Results().At(0).Type()
	all := []string{"main", "mainly", "b", "A"}
	for set := 0; set < 1<<len(all); set++ {
		var have []string
		top, decls := "", []string{}
		for i, k := range all {
			if set&(1<<i) == 0 {
				continue
			}
			have = append(have, k)
			if k == "main" {
				top = "TopPattern:" + pattern(k).String()
			} else {
				decls = append(decls, k)
			}
		}
		sort.Strings(decls)
		var ds []string
		text := ""
		if top != "" {
			text = "%main"
		}
		for _, k := range decls {
			ds = append(ds, fmt.Sprintf("PatternDecl{Name:%q Pattern:%s}", k, pattern(k)))
			text += "#" + k + "=%" + k
		}
		want := "Grammar{" + strings.TrimSpace(top+list(" PatternDecls", ds)) + "}"
		what := "grammar of {" + strings.Join(have, " ") + "}"
		s := sim()
		m := mk("alloc", "references", mk("map", ""))
		done := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			done++
			r.Count("grammars of references", 1)
			got := b.tree(st, rets[0], gt, "")
			if len(ds) == 0 {
				got = strings.Replace(got, "Grammar{}", "Grammar{PatternDecls:[]}", 1)
				if top != "" && !strings.Contains(got, "PatternDecls") {
					got = strings.Replace(got, "}", " PatternDecls:[]}", 1)
				}
			}
			if got != want {
				st.Fail(pos, "it builds %s and not %s", clip(got), clip(want))
				return
			}
			if len(have) > 0 {
				b.text(what, st, rets[0], gt, []string{text})
			}
		}
		s.Run(fn, []*Term{m}, func(st *State) {
			for _, k := range have {
				st.mem[mk("mapaddr", "", m, str(k))] = pattern(k)
				st.assume(tEq(pattern(k), tNil), false)
			}
		})
		r.Sim(what, s)
		if done == 0 && len(s.Errs) == 0 {
			r.Fail(what, p.posOf(fn.Pos()), "it never returns")
		}
	}
	r.Expect("reference lookups", 8)
	r.Expect("grammars of references", 16)
	r.Explain("NewRefLookup and NewGrammar are simulated on grammars and maps of up to three declarations with and without a main pattern, the map visited in every order")
}
