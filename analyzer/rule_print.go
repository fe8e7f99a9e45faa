package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "other", printRule)
	register("C23", "other", literalRule)
}

// printer simulates the actions of the parser and what they make is printed as.
type printer struct {
	p       *Prog
	r       *Report
	g       *bnf
	d       *dfa
	tab     []prodEntry
	typ     map[string]types.Type      // what the actions of a symbol make
	shape   map[string]map[string]bool // of terminals: the fields that may be set
	value   map[string]string          // of keywords: their spelling
	first   map[string]map[string]bool
	last    map[string]map[string]bool
	tok     map[string]bool
	refused func(key string, vs []variant, st *State, pos tokenPos)
	names   map[int]bool // the states the names of functions end in
	quick   bool         // the texts of the children are not needed
}

func blankState(s *Sim) *State {
	return &State{sim: s, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, hav: map[*Term]*Term{}, Data: map[string]*Term{}}
}

// part of a text
type part struct {
	text  string // constant
	child *Term  // or the text of something
}

func (a part) String() string {
	if a.child != nil {
		return "<" + a.child.String() + ">"
	}
	return strconv.Quote(a.text)
}

func partsText(ps []part) string {
	var out []string
	for _, x := range ps {
		out = append(out, x.String())
	}
	return strings.Join(out, " ")
}

const xsym = "X:"

func isChild(t *Term) bool { return t.Op == "sym" && strings.HasPrefix(t.Name, xsym) }

// textParts are the parts of a text.
func (x *printer) textParts(t *Term) ([]part, bool) {
	t = stripText(t)
	if s, ok := strOf(t); ok {
		if s == "" {
			return nil, true
		}
		return []part{{text: s}}, true
	}
	switch {
	case t.Op == "text":
		return []part{{child: t.Args[0]}}, true
	case t.Op == "bin" && t.Name == "+":
		var out []part
		for _, a := range t.Args {
			ps, ok := x.textParts(a)
			if !ok {
				return nil, false
			}
			out = append(out, ps...)
		}
		return out, true
	case t.Op == "field" && t.Name == "Lit" && isChild(tokenOf(t.Args[0])):
		return []part{{child: tokenOf(t.Args[0])}}, true
	case t.Op == "call" && t.Name == "strconv.FormatBool" && isChild(t.Args[0]):
		return []part{{child: t.Args[0]}}, true
	case t.Op == "call" && t.Name == "strings.Join" && t.Args[0] == tNil:
		return nil, true
	case t.Op == "call" && t.Name == "strings.Join" && t.Args[0].Op == "list":
		sep, ok := x.textParts(t.Args[1])
		if !ok {
			return nil, false
		}
		var out []part
		for i, a := range t.Args[0].Args {
			if i > 0 {
				out = append(out, sep...)
			}
			ps, ok := x.textParts(a)
			if !ok {
				return nil, false
			}
			out = append(out, ps...)
		}
		return out, true
	case t.Op == "call" || isChild(t) || t.Op == "field" || t.Op == "index" || t.Op == "deref" || t.Op == "extract":
		// the text of a value, whatever it is
		return []part{{child: t}}, true
	}
	return nil, false
}

func tokenOf(t *Term) *Term {
	for t.Op == "as" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// derefs reads what the helpers of protocol buffers point at.
func derefs(t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = derefs(a)
	}
	if t.Op == "deref" {
		a := args[0]
		if a.Op == "call" && strings.HasPrefix(a.Name, "github.com/gogo/protobuf/proto.") && len(a.Args) == 1 {
			return a.Args[0]
		}
		if a.Op == "ptr" {
			return a.Args[0]
		}
	}
	n := mk(t.Op, t.Name, args...)
	if n.Typ == nil {
		n.Typ = t.Typ
	}
	return n
}

func (x *printer) sim() *Sim {
	s := &Sim{P: x.p, Unroll: true, NoHavoc: true, MaxDepth: 28}
	s.Recursion = func(f *ssa.Function) bool { return relPkgOf(f) == "relapse/ast" }
	s.Decide = decideText
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && inRepo(c.Callee) && c.Callee.Blocks != nil {
			if c.Callee.Name() == "String" && len(c.Args) == 1 && isChild(c.Args[0]) && st.Data[c.Args[0].Name] == nil {
				c.Result = mk("text", "", c.Args[0])
				return Pure
			}
			if len(c.Args) == 1 && isChild(c.Args[0]) && c.NRes == 1 && c.Callee.Signature.Recv() == nil &&
				types.Identical(c.Callee.Signature.Results().At(0).Type(), types.Typ[types.String]) {
				if n := named(c.Args[0].Typ); n != nil {
					c.Result = mk("text", "", c.Args[0]) // a type of a list
					return Pure
				}
			}
			return Inline
		}
		if textBuffer(st, c) {
			return Pure
		}
		if c.Name() == "strings.Split" && len(c.Args) == 2 {
			ps, ok := evalText(derefs(st.Resolve(c.Args[0])))
			sep, ok2 := strOf(st.Resolve(c.Args[1]))
			if ok && ok2 && sep != "" {
				var es []*Term
				var cur []part
				for _, p := range ps {
					if p.child != nil {
						cur = append(cur, p)
						continue
					}
					for i, t := range strings.Split(p.text, sep) {
						if i > 0 {
							es = append(es, textTerm(cur))
							cur = nil
						}
						cur = append(cur, part{text: t})
					}
				}
				c.Result = mk("list", "", append(es, textTerm(cur))...)
			}
		}
		return Pure
	}
	return s
}

// textBuffer models texts that are put together with a buffer or a format.
func textBuffer(st *State, c *Call) bool {
	n := c.Name()
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		if !strings.HasPrefix(n, t) || len(c.Args) == 0 {
			continue
		}
		key := "buffer " + c.Args[0].String()
		old := st.Data[key]
		if old == nil {
			old = mk("const", `""`)
		}
		add := func(x *Term) {
			if s, ok := strOf(old); ok && s == "" {
				st.Data[key] = x
				return
			}
			st.Data[key] = mk("bin", "+", old, x)
		}
		switch strings.TrimPrefix(n, t) {
		case "WriteString", "Write":
			add(st.Resolve(c.Args[1]))
		case "WriteByte", "WriteRune":
			v, ok := intOf(noConv(st.Resolve(c.Args[1])))
			if !ok {
				return false
			}
			add(mk("const", strconv.Quote(string(rune(v)))))
		case "String", "Bytes":
			c.Result = old
			return true
		case "Grow":
		default:
			return false
		}
		if c.NRes == 2 {
			c.Result = mk("tuple", "", tLen(st.Resolve(c.Args[1])), tNil)
		} else if c.NRes == 1 {
			c.Result = tNil
		}
		return true
	}
	if n == "fmt.Sprintf" && len(c.Args) == 2 {
		l := st.Resolve(c.Args[1])
		f, ok := strOf(st.Resolve(c.Args[0]))
		if !ok || l.Op != "list" {
			return false
		}
		var ps []part
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' || i+1 == len(f) {
				ps = append(ps, part{text: f[i : i+1]})
				continue
			}
			i++
			if f[i] == '%' {
				ps = append(ps, part{text: "%"})
				continue
			}
			if f[i] != 's' && f[i] != 'v' || k >= len(l.Args) {
				return false
			}
			a := l.Args[k]
			k++
			if a.Op != "iface" || a.Typ == nil || !types.Identical(a.Typ, types.Typ[types.String]) {
				return false
			}
			ps = append(ps, part{child: a.Args[0]})
		}
		if k != len(l.Args) {
			return false
		}
		c.Result = textTerm(ps)
		return true
	}
	return false
}

// A variant of a child: what it looks like, and its text.
type variant struct {
	name  string
	val   *Term           // the attribute
	mem   map[*Term]*Term // what is known of its fields
	nn    []*Term         // what is not nil
	open  []string        // children whose String is looked into
	parts []part          // the text
	shape string
}

// literalShapes are what literals look like; ? is a sequence of digits, letters, signs and dots, or the element of a
// bytes literal.
var literalShapes = map[string][][]string{
	"int_lit":         {{"?"}, {"int(", "?", ")"}},
	"uint_cast_lit":   {{"uint(", "?", ")"}},
	"double_cast_lit": {{"double(", "?", ")"}},
	"bytes_cast_lit":  {{"[]byte{", "}"}, {"[]byte{", " ", "}"}, {"[]byte{", "?", "}"}, {"[]byte{", "?", ",", "?", "}"}, {"[]byte{ ", "?", "\t", ",", " ", "?", "\n", "}"}, {"[]byte{", "?", ",", "?", ",", "?", "}"}},
}

func (x *printer) ptrTo(typ, name string) types.Type {
	return types.NewPointer(x.p.Type("relapse/ast", typ))
}

var exprKinds = []string{"Terminal", "List", "Function", "BuiltIn"}

// child makes the variants of symbol i of a production.
func (x *printer) child(i int, s bnfSym, n int) []variant {
	name := fmt.Sprintf("%s%d", xsym, i)
	me := sym(name)
	if x.g.terminal(s) {
		pt := types.NewPointer(x.p.Type("relapse/token", "Token"))
		me.Typ = pt
		v := mk("iface", typeKey(pt), me)
		v.Typ = pt
		if !s.lit && len(literalShapes[s.name]) > 0 {
			var out []variant
			for _, sh := range literalShapes[s.name] {
				var ps []part
				for k, c := range sh {
					if c == "?" {
						ps = append(ps, part{child: piece(fmt.Sprintf("%s.%d", name, k))})
					} else {
						ps = append(ps, part{text: c})
					}
				}
				out = append(out, variant{name: s.name, val: v, nn: []*Term{me}, parts: ps,
					shape: " like " + strings.Replace(strings.Join(sh, ""), "?", "_", -1),
					mem:   map[*Term]*Term{tFA(me, "Lit"): mk("conv", "[]byte", textTerm(ps))}})
			}
			return out
		}
		out := variant{name: s.name, val: v, nn: []*Term{me}, parts: []part{{child: me}}}
		if s.lit {
			out.parts = []part{{text: s.name}}
			out.mem = map[*Term]*Term{tFA(me, "Lit"): mk("conv", "[]byte", mk("const", strconv.Quote(s.name)))}
		}
		return []variant{out}
	}
	t := x.typ[s.name]
	if t == nil {
		return nil
	}
	me.Typ = t
	wrap := func(v *Term) *Term {
		w := mk("iface", typeKey(t), v)
		w.Typ = t
		return w
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		var out []variant
		for k := 1; k <= n; k++ {
			v := variant{name: fmt.Sprintf("%d %s", k, s.name)}
			var es []*Term
			for j := 0; j < k; j++ {
				e := sym(fmt.Sprintf("%s.%d", name, j))
				e.Typ = sl.Elem()
				es = append(es, e)
				v.nn = append(v.nn, e)
				v.parts = append(v.parts, part{child: e})
			}
			l := mk("list", "", es...)
			v.val = wrap(l)
			out = append(out, v)
		}
		return out
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return []variant{{name: s.name, val: wrap(me), parts: []part{{child: me}}}}
	}
	base := func() variant {
		return variant{name: s.name, val: wrap(me), nn: []*Term{me}, mem: map[*Term]*Term{}, parts: []part{{child: me}}}
	}
	nt := named(t.(*types.Pointer).Elem())
	if nt == nil {
		return []variant{base()}
	}
	st, _ := nt.Underlying().(*types.Struct)
	switch nt.Obj().Name() {
	case "Keyword":
		v := base()
		if w := x.value[s.name]; w != "" {
			v.mem[tFA(me, "Value")] = mk("const", strconv.Quote(w))
		}
		return []variant{v}
	case "Space":
		var out []variant
		for k := 1; k <= n; k++ {
			v := base()
			v.open = []string{name}
			v.parts = nil
			var es []*Term
			for j := 0; j < k; j++ {
				e := sym(fmt.Sprintf("%s.%d", name, j))
				es = append(es, e)
				v.parts = append(v.parts, part{child: e})
			}
			v.mem[tFA(me, "Space")] = mk("list", "", es...)
			out = append(out, v)
		}
		return out
	case "Expr", "Terminal":
		var kinds []string
		if nt.Obj().Name() == "Expr" {
			kinds = exprKinds
			if x.shape[s.name] != nil {
				kinds = kinds[:0:0]
				for k := range x.shape[s.name] {
					kinds = append(kinds, k)
				}
			}
		} else {
			for k := range x.shape[s.name] {
				kinds = append(kinds, k)
			}
		}
		sort.Strings(kinds)
		var out []variant
		for _, k := range kinds {
			v := base()
			v.name = s.name + " with " + k
			v.open = []string{name}
			for f := 0; f < st.NumFields(); f++ {
				fl := st.Field(f)
				switch fl.Type().Underlying().(type) {
				case *types.Pointer, *types.Slice:
				default:
					continue
				}
				val := tNil
				if fl.Name() == k {
					val = sym(name + "." + k)
					val.Typ = fl.Type()
					v.nn = append(v.nn, val)
				}
				v.mem[tFA(me, fl.Name())] = val
			}
			if v.mem[tFA(me, k)] == nil {
				failAnchor("relapse/ast.%s has no field %s", nt.Obj().Name(), k)
			}
			if !x.quick {
				v.parts = x.printed(s.name+" "+k, me, t, v)
			}
			out = append(out, v)
		}
		return out
	}
	return []variant{base()}
}

// set prepares the state for a choice of children.
func setVariants(vs []variant) func(*State) {
	return func(st *State) {
		for _, v := range vs {
			for a, t := range v.mem {
				st.mem[a] = t
			}
			for _, t := range v.nn {
				st.assume(tEq(t, tNil), false)
			}
			for _, o := range v.open {
				st.Data[o] = tBool(true)
			}
		}
	}
}

// printed is the text of a child before anything is done to it.
func (x *printer) printed(key string, me *Term, t types.Type, v variant) []part {
	var out []part
	n := 0
	x.print(key, me, t, func(st *State) { setVariants([]variant{v})(st) }, func(st *State, ps []part, pos tokenPos) {
		n++
		if n > 1 && partsText(ps) != partsText(out) {
			st.Fail(pos, "undecided: the text of %s", key)
		}
		out = ps
	})
	return out
}

// print simulates String and what the text consists of.
func (x *printer) print(key string, obj *Term, t types.Type, setup func(*State), f func(st *State, ps []part, pos tokenPos)) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if obj.Op != "list" {
			x.r.Fail(key, "", "undecided: the elements of the list that is made")
			return
		}
		// one after the other; what is not known to the action prints as it does
		var each func(i int, acc []part)
		each = func(i int, acc []part) {
			if i == len(obj.Args) {
				st := blankState(x.sim())
				f(st, acc, 0)
				for _, e := range st.sim.Errs {
					x.r.Fail(key, e.Where, "%s", e.Msg)
				}
				return
			}
			x.print(key, obj.Args[i], u.Elem(), setup, func(st *State, ps []part, pos tokenPos) {
				each(i+1, append(append([]part{}, acc...), ps...))
			})
		}
		each(0, nil)
		return
	}
	if isChild(obj) {
		// something the action does not look into
		st := blankState(x.sim())
		setup(st)
		if untouched(st, obj) {
			f(st, []part{{child: obj}}, 0)
			for _, e := range st.sim.Errs {
				x.r.Fail(key, e.Where, "%s", e.Msg)
			}
			return
		}
	}
	m := x.p.method(t, "String")
	arg := obj
	if m == nil || !inRepo(m) || m.Blocks == nil || relPkgOf(m) != "relapse/ast" {
		// the type of a list, or a boolean
		m = nil
		if n := named(t); n != nil && n.Obj().Name() == "Type" {
			m = x.p.Func("relapse/ast", "listTypeToString")
		} else if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			st := blankState(x.sim())
			if obj.isTrue() || obj.isFalse() {
				f(st, []part{{text: obj.Name}}, 0)
			} else {
				f(st, []part{{child: obj}}, 0)
			}
			for _, e := range st.sim.Errs {
				x.r.Fail(key, e.Where, "%s", e.Msg)
			}
			return
		}
		if m == nil {
			x.r.Fail(key, "", "undecided: how %s is printed", t)
			return
		}
	}
	s := x.sim()
	n := 0
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "printing panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		n++
		ps, ok := x.textParts(derefs(st.Resolve(rets[0])))
		if !ok {
			st.Fail(pos, "undecided: the text %s", clip(full(derefs(st.Resolve(rets[0])))))
			return
		}
		f(st, ps, pos)
	}
	s.Run(m, []*Term{arg}, func(st *State) {
		if isChild(obj) {
			st.Data[obj.Name] = tBool(true) // this one is looked into
		}
		setup(st)
	})
	x.r.Sim(key, s)
	if n == 0 && len(s.Errs) == 0 {
		x.r.Fail(key, x.p.posOf(m.Pos()), "undecided: the text that is printed")
	}
}

func untouched(st *State, obj *Term) bool {
	if st.Data[obj.Name] != nil {
		return false
	}
	for a := range st.mem {
		if rootOf(a) == obj {
			return false
		}
	}
	return true
}

// each runs an action for every choice of children.
func (x *printer) each(i int, n int, f func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos)) {
	pr := x.g.prods[i]
	var alts [][]variant
	for k, s := range pr.body {
		vs := x.child(k, s, n)
		if len(vs) == 0 {
			return
		}
		alts = append(alts, vs)
	}
	var choose func(k int, vs []variant)
	choose = func(k int, vs []variant) {
		if k < len(alts) {
			for _, v := range alts[k] {
				choose(k+1, append(append([]variant{}, vs...), v))
			}
			return
		}
		key := fmt.Sprintf("%s : %s", pr.head, bodyText(pr.body))
		for _, v := range vs {
			key += v.shape
			if len(v.open) > 0 && v.name != "Space" && !strings.Contains(v.name, "Space") {
				key += " (" + v.name + ")"
			}
		}
		s := x.sim()
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "the action panics") }
		done := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			if len(rets) == 2 {
				nl, known := st.IsNil(rets[1])
				if !known {
					st.Fail(pos, "undecided: whether the action fails")
					return
				}
				if !nl {
					// the text is rejected
					if x.refused != nil {
						x.refused(key, vs, st, pos)
					}
					return
				}
			}
			done++
			ret := rets[0]
			if ret.Op != "iface" || ret.Typ == nil {
				st.Fail(pos, "undecided: the type of what the action makes")
				return
			}
			f(key, vs, st, ret.Args[0], ret.Typ, pos)
		}
		var xs []*Term
		for _, v := range vs {
			xs = append(xs, v.val)
		}
		s.Run(x.tab[i+1].reduce, []*Term{mk("list", "", xs...)}, setVariants(vs))
		x.r.Sim(key, s)
		if done == 0 && len(s.Errs) == 0 {
			x.r.Fail(key, x.p.posOf(x.tab[i+1].pos), "the action never succeeds")
		}
	}
	choose(0, nil)
}

func newPrinter(p *Prog, r *Report) *printer {
	x := &printer{p: p, r: r, g: loadBNF(p), tab: productions(p), typ: map[string]types.Type{}, shape: map[string]map[string]bool{}, value: map[string]string{}}
	x.d = x.g.dfa()
	if len(x.tab) != len(x.g.prods)+1 {
		failAnchor("the parser has %d productions and the grammar %d", len(x.tab)-1, len(x.g.prods))
	}
	x.tok = map[string]bool{}
	for _, t := range x.g.tokens() {
		x.tok[t] = true
	}
	// what the symbols start and end with
	x.first, x.last = map[string]map[string]bool{}, map[string]map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, pr := range x.g.prods {
			for _, m := range []struct {
				of map[string]map[string]bool
				s  bnfSym
			}{{x.first, pr.body[0]}, {x.last, pr.body[len(pr.body)-1]}} {
				if m.of[pr.head] == nil {
					m.of[pr.head] = map[string]bool{}
				}
				add := func(t string) {
					if !m.of[pr.head][t] {
						m.of[pr.head][t], ch = true, true
					}
				}
				if x.g.terminal(m.s) {
					add(m.s.name)
				} else {
					for t := range m.of[m.s.name] {
						add(t)
					}
				}
			}
		}
	}
	// the types of what is made, from the tokens up; a quiet printer: the shapes are found first
	quiet := newReport(p, r.ID, r.Tier)
	keep := x.r
	x.r = quiet
	x.quick = true
	for round := 0; round < 40; round++ {
		before := fmt.Sprint(len(x.typ), x.shape, x.value)
		for i, pr := range x.g.prods {
			if t := x.typ[pr.head]; round > 12 && t != nil && !strings.Contains(t.String(), "Terminal") && !strings.Contains(t.String(), "Expr") {
				continue
			}
			x.each(i, 1, func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos) {
				if o := x.typ[pr.head]; o != nil && !types.Identical(o, t) {
					keep.Fail(key, p.posOf(x.tab[i+1].pos), "the action makes a %s, and another of %s a %s", typeKey(t), pr.head, typeKey(o))
					return
				}
				x.typ[pr.head] = t
				pt, ok := t.(*types.Pointer)
				if !ok {
					return
				}
				n := named(pt.Elem())
				if n == nil {
					return
				}
				switch n.Obj().Name() {
				case "Terminal", "Expr":
					u := n.Underlying().(*types.Struct)
					if x.shape[pr.head] == nil {
						x.shape[pr.head] = map[string]bool{}
					}
					for f := 0; f < u.NumFields(); f++ {
						nm := u.Field(f).Name()
						if nm == "Before" || nm == "RightArrow" || nm == "Comma" {
							continue
						}
						switch u.Field(f).Type().Underlying().(type) {
						case *types.Pointer, *types.Slice:
						default:
							continue
						}
						if v := st.Load(tFA(ret, nm), u.Field(f).Type()); v != tNil {
							x.shape[pr.head][nm] = true
						}
					}
				case "Keyword":
					v := st.Load(tFA(ret, "Value"), types.Typ[types.String])
					s, ok := strOf(v)
					if !ok {
						s = ""
					}
					if o, had := x.value[pr.head]; had && o != s {
						s = ""
					}
					x.value[pr.head] = s
				}
			})
		}
		if fmt.Sprint(len(x.typ), x.shape, x.value) == before {
			break
		}
	}
	x.r, x.quick = keep, false
	for _, pr := range x.g.prods {
		if x.typ[pr.head] == nil {
			failAnchor("undecided: what the actions of %s make", pr.head)
		}
	}
	return x
}

// printRule: what an action makes prints as what it was made from.
func printRule(p *Prog, r *Report) {
	x := newPrinter(p, r)
	n := 2
	if r.Tier == "thorough" {
		n = 4
	}
	for i, pr := range x.g.prods {
		i, pr := i, pr
		r.guard(pr.head, func() { x.production(i, pr, n) })
	}
	r.Expect("actions printed", 160)
	r.Expect("texts compared", 200)
	r.Expect("pairs of tokens that touch", 1000)
	r.Expect("pairs of tokens that must not touch", 4)
	r.Expect("literal texts matched with the lexical rules", 6)
	r.Explain("the action of every production of the grammar is simulated and what it makes is printed: the text has to consist of the texts of its symbols, in order")
}

func (x *printer) production(i int, pr bnfProd, n int) {
	x.r.Count("actions printed", 1)
	unsafe := x.unsafePairs(pr)
	x.each(i, n, func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos) {
		mem, facts, data := st.mem, st.facts, st.Data
		if isChild(ret) && data[ret.Name] == nil {
			// one of the symbols, as it is
			changed := false
			for a, v := range mem {
				if rootOf(a) == ret {
					ch := true
					for _, w := range vs {
						ch = ch && w.mem[a] != v
					}
					changed = changed || ch
				}
			}
			if !changed {
				s2 := blankState(x.sim())
				x.r.Count("texts compared", 1)
				x.compare(key, pr, vs, s2, []part{{child: ret}}, pos, unsafe)
				for _, e := range s2.sim.Errs {
					x.r.FailTrace(key, e.Where, e.Trace, "%s", e.Msg)
				}
				return
			}
		}
		ret0 := ret
		if l := st.snapshot(ret); ret.Op != "alloc" {
			ret0 = l
		}
		x.print(key, ret0, t, func(s2 *State) {
			for a, v := range mem {
				s2.mem[a] = v
			}
			for a, v := range facts {
				s2.facts[a] = v
			}
			for a, v := range data {
				s2.Data[a] = v
			}
		}, func(s2 *State, ps []part, pos tokenPos) {
			x.r.Count("texts compared", 1)
			x.compare(key, pr, vs, s2, ps, pos, unsafe)
		})
	})
}

type unsafePair struct {
	at    int // between symbol at and the next
	chars []rune
	why   string
}

// unsafePairs are the places in a production where two tokens that touch would be read as other tokens.
func (x *printer) unsafePairs(pr bnfProd) []unsafePair {
	var out []unsafePair
	set := func(m map[string]map[string]bool, s bnfSym) map[string]bool {
		if x.g.terminal(s) {
			return map[string]bool{s.name: true}
		}
		return m[s.name]
	}
	for k := 0; k+1 < len(pr.body); k++ {
		u := unsafePair{at: k}
		for a := range set(x.last, pr.body[k]) {
			for b := range set(x.first, pr.body[k+1]) {
				if a == "space" && b == "space" {
					continue // still space
				}
				x.r.Count("pairs of tokens that touch", 1)
				for _, c := range x.d.starts(b) {
					for _, q := range x.d.ends(a) {
						if a == "id" && x.named(pr) && !x.nameEnds(q) {
							continue // no function has such a name
						}
						if x.d.next[q][c] >= 0 {
							u.chars = append(u.chars, x.d.bounds[c])
							u.why = fmt.Sprintf("%s followed by %s", a, b)
						}
					}
				}
			}
		}
		if len(u.chars) > 0 {
			x.r.Count("pairs of tokens that must not touch", 1)
			out = append(out, u)
		}
	}
	return out
}

// named: the identifier in a production is the name of a function.
func (x *printer) named(pr bnfProd) bool {
	pt, ok := x.typ[pr.head].(*types.Pointer)
	if !ok {
		return false
	}
	n := named(pt.Elem())
	return n != nil && n.Obj().Name() == "Function"
}

// nameEnds: the name of a function ends in a state of the lexer.
func (x *printer) nameEnds(q int) bool {
	if x.names == nil {
		x.names = map[int]bool{}
		for _, g := range registrations(x.p, x.r) {
			s := 0
			for _, c := range g.name {
				s = x.d.step(s, c)
			}
			x.names[s] = true
		}
	}
	return x.names[q]
}

func blank(s string) bool { return strings.Trim(s, " \n\t\r") == "" }

func samePart(a, b part) bool {
	if a.child != nil || b.child != nil {
		return a.child == b.child
	}
	return a.text == b.text
}

// compare checks a printed text against the texts of the symbols.
func (x *printer) compare(key string, pr bnfProd, vs []variant, st *State, ps []part, pos tokenPos, unsafe []unsafePair) {
	// the texts of the symbols, with where a symbol ends
	type slot struct {
		part
		sym int
	}
	var want []slot
	for k, v := range vs {
		for _, w := range v.parts {
			want = append(want, slot{w, k})
		}
	}
	text := func() string {
		var out []part
		for _, w := range want {
			out = append(out, w.part)
		}
		return partsText(out)
	}
	if len(vs) == 1 && len(ps) == 1 && x.sameName(st, ps[0], vs[0].parts[0]) {
		return
	}
	if len(vs) == 1 && x.literal(key, pr, vs[0], st, ps, pos) {
		return
	}
	spaced := map[int]bool{}
	i := 0
	for _, p := range ps {
		if i < len(want) && samePart(p, want[i].part) {
			i++
			continue
		}
		// constants may have been split or joined
		if p.child == nil && blank(p.text) && i > 0 && i < len(want) && want[i-1].sym != want[i].sym {
			spaced[want[i-1].sym] = true
			continue
		}
		if i < len(want) && x.sameName(st, p, want[i].part) {
			i++
			continue
		}
		st.Fail(pos, "what the action makes of %s prints as %s", text(), partsText(ps))
		return
	}
	if i < len(want) {
		st.Fail(pos, "what the action makes of %s prints as %s", text(), partsText(ps))
		return
	}
	for _, u := range unsafe {
		if spaced[u.at] {
			continue
		}
		var next []part
		for _, w := range want {
			if w.sym == u.at+1 {
				next = append(next, w.part)
			}
		}
		for _, c := range u.chars {
			if len(next) > 0 && next[0].child == nil && len(next[0].text) > 0 && []rune(next[0].text)[0] != c && x.d.class([]rune(next[0].text)[0]) != x.d.class(c) {
				continue
			}
			// a text of a shorter list of characters was tested for
			ok := false
			for f, v := range st.facts {
				if v || f.Op != "call" || f.Name != "strings.HasPrefix" || len(f.Args) != 2 {
					continue
				}
				s, isConst := strOf(f.Args[1])
				if !isConst || len([]rune(s)) != 1 || []rune(s)[0] != c {
					continue
				}
				if ps, okp := x.textParts(derefs(st.Resolve(f.Args[0]))); okp && partsText(ps) == partsText(next) {
					ok = true
				}
			}
			if !ok {
				st.Fail(pos, "%s are read as other tokens when they touch, and nothing keeps them apart: %s", u.why, text())
				return
			}
		}
	}
}

// sameName: the name of a field may be printed as an identifier or quoted, as long as it reads as the same name.
func (x *printer) sameName(st *State, got, want part) bool {
	if got.child == nil || want.child == nil {
		return false
	}
	// the name that is read
	name := func(t *Term, printed bool) (*Term, bool) {
		if f, v := x.formatOf(t); f == "strconv.Quote" {
			return stripText(v), true
		}
		if isChild(t) && !printed {
			return tFieldOf(t, "Lit"), true
		}
		t = stripText(t)
		if !printed {
			return nil, false
		}
		if tokenText(t) != nil {
			return t, true // an identifier
		}
		// printed as it is: it has to be an identifier
		id := false
		for f, v := range st.facts {
			if v && f.Op == "call" && len(f.Args) == 2 && strings.HasSuffix(f.Name, "regexp.Regexp).MatchString") && stripText(derefs(st.Resolve(f.Args[1]))) == t && x.idPattern(f.Args[0]) {
				id = true
			}
		}
		for _, w := range x.words() {
			if v, ok := st.Fact(tEq(t, mk("const", strconv.Quote(w)))); !ok || v {
				id = false
			}
		}
		return t, id
	}
	a, ok1 := name(got.child, true)
	b, ok2 := name(want.child, false)
	return ok1 && ok2 && a == b
}

func tFieldOf(t *Term, f string) *Term { return stripText(tField(t, f)) }

// words are the identifiers that are tokens of their own.
func (x *printer) words() []string {
	var out []string
	for t := range x.tok {
		if t != "" && idLike(t) && x.isLit(t) {
			out = append(out, t)
		}
	}
	sort.Strings(out)
	return out
}

func idLike(s string) bool {
	for i, c := range s {
		if !(c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || i > 0 && '0' <= c && c <= '9') {
			return false
		}
	}
	return s != ""
}

// idPattern: what the expression matches is an identifier, or one of the words.
func (x *printer) idPattern(t *Term) bool {
	for t.Op == "deref" {
		t = t.Args[0]
	}
	if t.Op != "gval" {
		return false
	}
	i := strings.LastIndex(t.Name, ".")
	pat, ok := x.p.regexOf(t.Name[:i], t.Name[i+1:])
	if !ok {
		return false
	}
	words := map[string]bool{"id": true}
	for _, w := range x.words() {
		words[w] = true
	}
	text, err := regexWithin(pat, x.d, func(tok string) bool { return words[tok] })
	if err != nil {
		x.r.Fail(t.Name, "", "%v", err)
		return false
	}
	if text != "" {
		x.r.Fail(t.Name, "", "the pattern %s matches %q, which is not an identifier", pat, text)
		return false
	}
	x.r.Count("patterns of identifiers", 1)
	return true
}

// ---- literals

// formats are the texts the standard library prints values as.
var formats = map[string]string{
	"strconv.FormatInt/10":     `'0' | ['-'] '1'-'9' {'0'-'9'}`,
	"strconv.FormatUint/10":    `'0' | '1'-'9' {'0'-'9'}`,
	"strconv.FormatFloat/f/-1": `['-'] ( '0' | '1'-'9' {'0'-'9'} ) ['.' '0'-'9' {'0'-'9'}]`,
	"bytes/%#v":                `'[' ']' 'b' 'y' 't' 'e' '{' [ hex { ',' ' ' hex } ] '}'`,
	"strconv.Quote":            `'"' { plain | '\\' ( 'a' | 'b' | 'f' | 'n' | 'r' | 't' | 'v' | '\\' | '"' ) | '\\' 'x' h h | '\\' 'u' h h h h | '\\' 'U' h h h h h h h h } '"'`,
	"identifier":               `idstart { idchar }`,
}

func (x *printer) formatNode(src string) *lexNode {
	toks, err := bnfScan([]byte(src))
	if err != nil {
		panic(err)
	}
	b := &bnfParser{toks: toks}
	return b.alt()
}

var formatRules = map[string]*lexNode{
	"h":       {op: "alt", kids: []*lexNode{{op: "char", lo: '0', hi: '9'}, {op: "char", lo: 'a', hi: 'f'}}},
	"plain":   {op: "alt", kids: []*lexNode{{op: "char", lo: ' ', hi: '!'}, {op: "char", lo: '#', hi: '['}, {op: "char", lo: ']', hi: '~'}, {op: "char", lo: 0xa0, hi: 0x10ffff}}},
	"idstart": {op: "alt", kids: []*lexNode{{op: "char", lo: 'a', hi: 'z'}, {op: "char", lo: 'A', hi: 'Z'}, {op: "char", lo: '_', hi: '_'}}},
	"idchar":  {op: "alt", kids: []*lexNode{{op: "char", lo: 'a', hi: 'z'}, {op: "char", lo: 'A', hi: 'Z'}, {op: "char", lo: '_', hi: '_'}, {op: "char", lo: '0', hi: '9'}}},
}

// isToken checks that all texts of a format are a token, and returns one that is not.
func (x *printer) isToken(n *lexNode, tok string) (string, bool) {
	g := &bnf{lex: map[string]*lexNode{}}
	for k, v := range formatRules {
		g.lex[k] = v
	}
	g.lex["hex"] = x.formatNode(`'0' 'x' h [h]`)
	a := &nfa{accept: map[int]int{}}
	s0 := a.state()
	end := a.build(g, n, s0, 0)
	type pair struct{ s, q int }
	seen := map[pair]string{{s0, 0}: ""}
	work := []pair{{s0, 0}}
	push := func(y pair, text string) {
		if _, ok := seen[y]; !ok {
			seen[y] = text
			work = append(work, y)
		}
	}
	bounds := map[rune]bool{}
	for _, b := range x.d.bounds {
		bounds[b] = true
	}
	for _, es := range a.edges {
		for _, e := range es {
			bounds[e.lo] = true
		}
	}
	var bs []rune
	for b := range bounds {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	for len(work) > 0 {
		y := work[0]
		work = work[1:]
		if y.s == end && (y.q < 0 || x.d.accept[y.q] != tok) {
			return seen[y], false
		}
		for _, e := range a.eps[y.s] {
			push(pair{e, y.q}, seen[y])
		}
		for _, e := range a.edges[y.s] {
			for _, b := range bs {
				if e.lo <= b && b <= e.hi {
					push(pair{e.to, x.d.step(y.q, b)}, seen[y]+string(b))
				}
			}
		}
	}
	return "", true
}

// formatOf is the format of a printed value, and the value.
func (x *printer) formatOf(t *Term) (format string, val *Term) {
	if t.Op != "call" {
		return "", nil
	}
	switch t.Name {
	case "strconv.FormatInt", "strconv.FormatUint":
		if n, ok := intOf(t.Args[1]); ok && n == 10 {
			return t.Name + "/10", t.Args[0]
		}
	case "strconv.Itoa":
		return "strconv.FormatInt/10", t.Args[0]
	case "strconv.FormatFloat":
		f, ok1 := intOf(t.Args[1])
		n, ok2 := intOf(t.Args[2])
		bits, ok3 := intOf(t.Args[3])
		if ok1 && ok2 && ok3 && f == 'f' && n == -1 && bits == 64 {
			return "strconv.FormatFloat/f/-1", t.Args[0]
		}
	case "strconv.Quote":
		return "strconv.Quote", t.Args[0]
	case "strconv.FormatBool":
		return "bool", t.Args[0]
	case "fmt.Sprintf":
		if s, ok := strOf(t.Args[0]); ok && s == "%#v" && len(t.Args) == 2 && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1 {
			v := t.Args[1].Args[0]
			if v.Op == "iface" && v.Typ != nil {
				if sl, ok := v.Typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Uint8]) {
					return "bytes/%#v", v.Args[0]
				}
			}
		}
	}
	return "", nil
}

// literal checks the text of a value that was read from a token: the same kind of token, of the same value.
func (x *printer) literal(key string, pr bnfProd, v variant, st *State, ps []part, pos tokenPos) bool {
	if len(pr.body) != 1 || !x.g.terminal(pr.body[0]) || pr.body[0].lit {
		return false
	}
	tok := pr.body[0].name
	val, n, ok := x.format(tok, ps)
	if !ok {
		return false
	}
	if n != "" {
		st.Fail(pos, "a %s prints as %s, which is not a %s: %s", tok, partsText(ps), tok, n)
		return true
	}
	if val == nil {
		// the only text of such a token
		return tok != "id" && tok != "space" && tok != "string_lit" && literalShapes[tok] == nil
	}
	if why := readsAs(tok, v, val); why != "" {
		st.Fail(pos, "a %s prints as %s, which has another value: %s", tok, partsText(ps), why)
	}
	return true
}

// readsAs checks that a value is the one a token stands for.
func readsAs(tok string, v variant, val *Term) string {
	val = derefs(val)
	bare := func(t *Term) string {
		ps, ok := evalText(t)
		if !ok {
			return "undecided: the text " + clip(full(t)) + " is converted"
		}
		var want []part
		for _, p := range v.parts {
			if p.child != nil {
				want = append(want, p)
			}
		}
		if partsText(ps) != partsText(want) {
			return partsText(ps) + " is converted, and not " + partsText(want)
		}
		return ""
	}
	call := val
	if call.Op == "extract" && call.Name == "0" {
		call = call.Args[0]
	}
	number := func(name string, nums ...int64) string {
		if call.Op != "call" || call.Name != name || len(call.Args) != len(nums)+1 {
			return "it is " + clip(full(val)) + ", and not what " + name + " returns"
		}
		for i, n := range nums {
			if m, ok := intOf(call.Args[i+1]); !ok || m != n {
				return fmt.Sprintf("%s is called with %s where it has to be %d", name, clip(full(call.Args[i+1])), n)
			}
		}
		return bare(call.Args[0])
	}
	switch tok {
	case "int_lit":
		return number("strconv.ParseInt", 0, 64)
	case "uint_cast_lit":
		return number("strconv.ParseUint", 0, 64)
	case "double_cast_lit":
		return number("strconv.ParseFloat", 64)
	case "string_lit":
		if call.Op == "call" && call.Name == "strconv.Unquote" && len(call.Args) == 1 && len(v.parts) == 1 && tokenText(call.Args[0]) == v.parts[0].child {
			return ""
		}
		return "it is " + clip(full(val)) + ", and not the text without its quotes"
	case "id":
		if len(v.parts) == 1 && tokenText(val) == v.parts[0].child {
			return ""
		}
		return "it is " + clip(full(val)) + ", and not the text of the token"
	case "bytes_cast_lit":
		return bytesRead(v, val)
	}
	return "undecided: the value of a " + tok
}

// tokenText is the token of which a term is the text.
func tokenText(t *Term) *Term {
	t = stripText(t)
	if t.Op == "field" && t.Name == "Lit" {
		return tokenOf(t.Args[0])
	}
	return nil
}

// bytesRead checks the elements of a bytes literal: a number of eight bits or a character.
func bytesRead(v variant, val *Term) string {
	var want []*Term
	for _, p := range v.parts {
		if p.child != nil {
			want = append(want, p.child)
		}
	}
	l := val
	for l.Op == "conv" {
		l = l.Args[0]
	}
	if l.Op != "list" {
		if (l.Op == "nil" || l == tNil) && len(want) == 0 {
			return ""
		}
		return "undecided: the elements of " + clip(full(val))
	}
	if len(l.Args) != len(want) {
		return fmt.Sprintf("it has %d elements and not %d", len(l.Args), len(want))
	}
	for i, e := range l.Args {
		e = noConv(e)
		if e.Op != "extract" || e.Name != "0" || e.Args[0].Op != "call" {
			return fmt.Sprintf("undecided: element %d is %s", i, clip(full(e)))
		}
		c := e.Args[0]
		from := func(t *Term) bool {
			ps, ok := evalText(t)
			return ok && len(ps) == 1 && ps[0].child == want[i]
		}
		switch c.Name {
		case "strconv.ParseUint":
			base, _ := intOf(c.Args[1])
			bits, _ := intOf(c.Args[2])
			if !from(c.Args[0]) || base != 0 || bits != 8 {
				return fmt.Sprintf("element %d is %s", i, clip(full(e)))
			}
		case "strconv.UnquoteChar":
			q, _ := intOf(c.Args[1])
			t := stripText(c.Args[0])
			if q != '\'' || t.Op != "slice" || !from(t.Args[0]) || t.Args[1] != tInt(1) || t.Args[2].Op != "end" {
				return fmt.Sprintf("element %d is %s", i, clip(full(e)))
			}
		default:
			return fmt.Sprintf("element %d is %s", i, clip(full(e)))
		}
	}
	return ""
}

// format matches a printed value with the token it has to be; bad is a text that is not that token.
func (x *printer) format(tok string, ps []part) (val *Term, bad string, ok bool) {
	node := &lexNode{op: "seq"}
	for _, p := range ps {
		if p.child == nil {
			for _, c := range p.text {
				node.kids = append(node.kids, &lexNode{op: "char", lo: c, hi: c})
			}
			continue
		}
		f, v := x.formatOf(p.child)
		if f == "" || val != nil || formats[f] == "" {
			return nil, "", false
		}
		val = v
		node.kids = append(node.kids, x.formatNode(formats[f]))
	}
	if len(node.kids) == 0 {
		return nil, "", false
	}
	x.r.Count("literal texts matched with the lexical rules", 1)
	if text, ok := x.isToken(node, tok); !ok {
		return val, strconv.Quote(text), true
	}
	return val, "", true
}

// valueFields are the fields of a value, and the tokens that set them.
var valueFields = map[string]string{
	"DoubleValue": "double_cast_lit", "IntValue": "int_lit", "UintValue": "uint_cast_lit", "StringValue": "string_lit", "BytesValue": "bytes_cast_lit", "BoolValue": "Bool",
}

var variableTypes = map[string]string{
	"double_var": "SINGLE_DOUBLE", "int_var": "SINGLE_INT", "uint_var": "SINGLE_UINT", "string_var": "SINGLE_STRING", "bytes_var": "SINGLE_BYTES", "bool_var": "SINGLE_BOOL",
	"[]double": "LIST_DOUBLE", "[]int": "LIST_INT", "[]uint": "LIST_UINT", "[]string": "LIST_STRING", "[][]byte": "LIST_BYTES", "[]bool": "LIST_BOOL",
}

// literalRule: literals have the value they stand for.
func literalRule(p *Prog, r *Report) {
	x := newPrinter(p, r)
	typeConst := func(name string) *Term {
		return p.constOf("relapse/types", name)
	}
	for i, pr := range x.g.prods {
		i, pr := i, pr
		terminal := len(pr.body) == 1 && x.g.terminal(pr.body[0])
		last := pr.body[len(pr.body)-1].name
		r.guard(pr.head, func() {
			switch {
			case terminal && pr.head == "Bool":
				r.Count("words", 1)
				x.each(i, 1, func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos) {
					if ret != tBool(last == "true") {
						st.Fail(pos, "%s is %s", last, ret)
					}
				})
			case terminal && variableTypes[last] != "":
				r.Count("words", 1)
				want := typeConst(variableTypes[last])
				x.each(i, 1, func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos) {
					got := noConv(ret)
					if _, isPtr := t.(*types.Pointer); isPtr {
						x.only(st, ret, t, "Variable", pos, last)
						v := st.Load(tFA(ret, "Variable"), fieldType(t, "Variable"))
						got = noConv(st.Resolve(st.Load(tFA(v, "Type"), p.Type("relapse/types", "Type"))))
					}
					if got != want {
						st.Fail(pos, "the type of %s is %s and not %s", last, got, variableTypes[last])
					}
				})
			case terminal && (pr.head == "Literal" || last == "id") || len(pr.body) == 1 && pr.body[0].name == "Bool":
				r.Count("literals", 1)
				x.literalValue(i, pr)
			case pr.head == "Name":
				r.Count("names", 1)
				x.nameValue(i, pr)
			}
		})
	}
	r.Expect("words", 14)
	r.Expect("literals", 7)
	r.Expect("names", 3)
	r.Expect("values read", 14)
	r.Expect("literals refused", 7)
	r.Explain("the actions that make terminals and names are simulated; the value has to be what the literal stands for, and an error when it has none")
}

// only checks that a terminal or name has the one value.
func (x *printer) only(st *State, ret *Term, t types.Type, field string, pos tokenPos, what string) {
	u := named(t.(*types.Pointer).Elem()).Underlying().(*types.Struct)
	for f := 0; f < u.NumFields(); f++ {
		nm := u.Field(f).Name()
		if valueFields[nm] == "" && nm != "Variable" {
			continue
		}
		nl, known := st.IsNil(st.Load(tFA(ret, nm), u.Field(f).Type()))
		if nm == field && (!known || nl) {
			st.Fail(pos, "%s has no %s", what, field)
		}
		if nm != field && (!known || !nl) {
			st.Fail(pos, "%s has a %s", what, nm)
		}
	}
}

func fieldType(t types.Type, name string) types.Type {
	u := named(t.(*types.Pointer).Elem()).Underlying().(*types.Struct)
	for f := 0; f < u.NumFields(); f++ {
		if u.Field(f).Name() == name {
			return u.Field(f).Type()
		}
	}
	failAnchor("%s has no field %s", t, name)
	return nil
}

// pointed is the value of a field, or what it points at.
func pointed(st *State, obj *Term, t types.Type, name string) *Term {
	ft := fieldType(t, name)
	v := st.Load(tFA(obj, name), ft)
	if pt, ok := ft.Underlying().(*types.Pointer); ok {
		return st.Load(v, pt.Elem())
	}
	return v
}

// nameOf finds the name in what an action made.
func (x *printer) nameOf(st *State, ret *Term, t types.Type) (*Term, types.Type) {
	n := named(t.(*types.Pointer).Elem())
	if n == nil || n.Obj().Name() != "NameExpr" {
		return ret, t
	}
	return st.Load(tFA(ret, "Name"), x.ptrTo("Name", "")), x.ptrTo("Name", "")
}

func (x *printer) literalValue(i int, pr bnfProd) {
	tok := pr.body[len(pr.body)-1].name
	field := ""
	for f, t := range valueFields {
		if t == tok {
			field = f
		}
	}
	if tok == "id" {
		field = "StringValue"
	}
	if field == "" {
		return
	}
	x.refused = func(key string, vs []variant, st *State, pos tokenPos) {
		for f, v := range st.facts {
			// something that was read is not well formed
			if !v && f.Op == "bin" && f.Name == "==" && (f.Args[0] == tNil || f.Args[1] == tNil) {
				e := f.Args[0]
				if e == tNil {
					e = f.Args[1]
				}
				if (e.Op == "extract") && e.Args[0].Op == "call" && strings.HasPrefix(e.Args[0].Name, "strconv.") {
					x.r.Count("literals refused", 1)
					return
				}
			}
			// or it is not a character of eight bits
			if tok == "bytes_cast_lit" && f.Op == "bin" {
				for _, a := range f.Args {
					if a = noConv(a); a.Op == "extract" && a.Args[0].Op == "call" && a.Args[0].Name == "strconv.UnquoteChar" {
						x.r.Count("literals refused", 1)
						return
					}
				}
			}
		}
		st.Fail(pos, "a %s that stands for a value is refused", tok)
	}
	defer func() { x.refused = nil }()
	x.each(i, 1, func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos) {
		obj, ot := x.nameOf(st, ret, t)
		x.only(st, obj, ot, field, pos, "what is made of a "+tok)
		val := derefs(st.Resolve(pointed(st, obj, ot, field)))
		x.r.Count("values read", 1)
		v := vs[len(vs)-1]
		if tok == "Bool" {
			if !isChild(val) {
				st.Fail(pos, "the value of a boolean is %s", clip(full(val)))
			}
			return
		}
		if why := readsAs(tok, v, val); why != "" {
			st.Fail(pos, "the value of a %s: %s", tok, why)
		}
		// what makes it not a literal has to be known not to be the case
		if why := x.checkedErrors(st, val); why != "" {
			st.Fail(pos, "the value of a %s: %s", tok, why)
		}
	})
}

// checkedErrors: a value that may come with an error is used only where there is none.
func (x *printer) checkedErrors(st *State, val *Term) string {
	why := ""
	val.any(func(t *Term) bool {
		if t.Op == "extract" && t.Name == "0" && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Name, "strconv.") {
			n := "1"
			if strings.HasSuffix(t.Args[0].Name, "UnquoteChar") {
				n = "3"
			}
			ok := false
			for f, v := range st.facts {
				if v && f.Op == "bin" && f.Name == "==" && (f.Args[0] == tNil || f.Args[1] == tNil) {
					e := f.Args[0]
					if e == tNil {
						e = f.Args[1]
					}
					if e.Op == "extract" && e.Name == n && derefs(st.Resolve(e.Args[0])) == t.Args[0] {
						ok = true
					}
				}
			}
			if !ok {
				why = "the error of " + t.Args[0].Name + " is not looked at"
			}
			if n == "3" {
				// one character of eight bits and nothing after it
				small, whole := false, false
				for f, v := range st.facts {
					f := derefs(st.Resolve(f))
					if f.Op != "bin" {
						continue
					}
					for k, a := range f.Args {
						b := f.Args[1-k]
						a = noConv(a)
						if a == t {
							c, isInt := intOf(noConv(b))
							switch {
							case isInt && f.Name == "<" && k == 0 && v && c <= 256, isInt && f.Name == "<" && k == 1 && !v && c <= 255, isInt && f.Name == "<=" && k == 0 && v && c <= 255:
								small = true
							}
						}
						if a.Op == "extract" && a.Name == "2" && a.Args[0] == t.Args[0] {
							if s, isStr := strOf(b); isStr && s == "'" && v && f.Name == "==" {
								whole = true
							}
						}
						if a.Op == "len" && a.Args[0].Op == "extract" && a.Args[0].Name == "2" && a.Args[0].Args[0] == t.Args[0] {
							if c, isInt := intOf(b); isInt && c == 1 && v && f.Name == "==" {
								whole = true
							}
						}
					}
				}
				if !small {
					why = "a character may have more than eight bits"
				} else if !whole {
					why = "there may be more than one character"
				}
			}
		}
		return false
	})
	return why
}

// nameValue: a name has the value of its literal.
func (x *printer) nameValue(i int, pr bnfProd) {
	last := pr.body[len(pr.body)-1].name
	x.each(i, 1, func(key string, vs []variant, st *State, ret *Term, t types.Type, pos tokenPos) {
		obj, ot := x.nameOf(st, ret, t)
		if last == "id" {
			x.only(st, obj, ot, "StringValue", pos, "a name")
			val := derefs(st.Resolve(pointed(st, obj, ot, "StringValue")))
			x.r.Count("values read", 1)
			if why := readsAs("id", vs[len(vs)-1], val); why != "" {
				st.Fail(pos, "the name: %s", why)
			}
			return
		}
		lit := vs[len(vs)-1]
		me := tokenOf(lit.val)
		for f := range valueFields {
			if v := lit.mem[tFA(me, f)]; v != nil && v != tNil {
				x.only(st, obj, ot, f, pos, "a name")
				got := st.Load(tFA(obj, f), fieldType(ot, f))
				x.r.Count("values read", 1)
				if got != v && derefs(st.Resolve(pointed(st, obj, ot, f))) != derefs(st.Resolve(pointed(st, me, me.Typ, f))) {
					st.Fail(pos, "the name has another %s than its literal", f)
				}
			}
		}
	})
}

func (x *printer) isLit(s string) bool {
	for _, l := range x.g.lits {
		if l == s {
			return true
		}
	}
	return false
}
