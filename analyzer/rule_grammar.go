package main

import (
	"bytes"
	"compress/gzip"
	"encoding/gob"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "other", grammarRule)
}

// an entry of the table of productions of the generated parser
type prodEntry struct {
	id      string
	ntType  int64
	index   int64
	symbols int64
	reduce  *ssa.Function
	pos     token.Pos
}

// globalLit is the composite literal a package level variable is initialised with.
func globalLit(pk *packages.Package, name string) *ast.CompositeLit {
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range vs.Names {
					if n.Name == name && i < len(vs.Values) {
						if cl, ok := ast.Unparen(vs.Values[i]).(*ast.CompositeLit); ok {
							return cl
						}
					}
				}
			}
		}
	}
	return nil
}

func constInt(pk *packages.Package, e ast.Expr) (int64, bool) {
	if tv, ok := pk.TypesInfo.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
		return constant.Int64Val(tv.Value)
	}
	return 0, false
}

func constStr(pk *packages.Package, e ast.Expr) (string, bool) {
	if tv, ok := pk.TypesInfo.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value), true
	}
	return "", false
}

// funcOf is the function of a function literal or the named function an expression refers to.
func funcOf(p *Prog, pk *packages.Package, e ast.Expr) *ssa.Function {
	switch e := ast.Unparen(e).(type) {
	case *ast.FuncLit:
		for _, f := range p.Funcs {
			if f.Syntax() == ast.Node(e) {
				return f
			}
		}
	case *ast.Ident:
		if o, ok := pk.TypesInfo.Uses[e].(*types.Func); ok {
			return p.SSA.FuncValue(o)
		}
	}
	return nil
}

// elems are the elements of an array literal by index.
func elems(pk *packages.Package, cl *ast.CompositeLit) map[int64]ast.Expr {
	out := map[int64]ast.Expr{}
	i := int64(0)
	for _, e := range cl.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			if n, ok := constInt(pk, kv.Key); ok {
				i = n
			}
			e = kv.Value
		}
		out[i] = e
		i++
	}
	return out
}

// fieldsOf are the fields of a struct literal.
func fieldsOf(pk *packages.Package, e ast.Expr) map[string]ast.Expr {
	cl, ok := ast.Unparen(e).(*ast.CompositeLit)
	if !ok {
		return nil
	}
	out := map[string]ast.Expr{}
	st, _ := pk.TypesInfo.TypeOf(cl).Underlying().(*types.Struct)
	for i, x := range cl.Elts {
		if kv, ok := x.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok {
				out[id.Name] = kv.Value
			}
		} else if st != nil && i < st.NumFields() {
			out[st.Field(i).Name()] = x
		}
	}
	return out
}

// productions reads the table of productions of the generated parser.
func productions(p *Prog) []prodEntry {
	pk := p.ByRel["relapse/parser"]
	if pk == nil {
		failAnchor("no package relapse/parser")
	}
	cl := globalLit(pk, "productionsTable")
	if cl == nil {
		failAnchor("no table of productions (relapse/parser.productionsTable)")
	}
	es := elems(pk, cl)
	out := make([]prodEntry, len(es))
	for i := range out {
		e, ok := es[int64(i)]
		if !ok {
			failAnchor("the table of productions has no entry %d", i)
		}
		fs := fieldsOf(pk, e)
		if fs == nil {
			failAnchor("entry %d of the table of productions is not a literal", i)
		}
		x := prodEntry{pos: e.Pos()}
		if fs["Id"] != nil {
			x.id, _ = constStr(pk, fs["Id"])
		}
		for n, d := range map[string]*int64{"NTType": &x.ntType, "Index": &x.index, "NumSymbols": &x.symbols} {
			if fs[n] != nil {
				v, ok := constInt(pk, fs[n])
				if !ok {
					failAnchor("%s of entry %d of the table of productions is not a constant", n, i)
				}
				*d = v
			}
		}
		if fs["ReduceFunc"] != nil {
			x.reduce = funcOf(p, pk, fs["ReduceFunc"])
		}
		if x.reduce == nil {
			failAnchor("the action of entry %d of the table of productions is not a function", i)
		}
		out[i] = x
	}
	return out
}

var actionArg = regexp.MustCompile(`\$(\d+)`)

// actionOverlay declares a function for every action of the grammar.
func (g *bnf) actionOverlay(dir string) map[string][]byte {
	var b bytes.Buffer
	b.WriteString("package parser\n\nimport (\n\t\"github.com/gogo/protobuf/proto\"\n\t. \"github.com/katydid/katydid/relapse/ast\"\n\t\"github.com/katydid/katydid/relapse/types\"\n)\n\nvar _ = proto.String\nvar _ = types.SINGLE_INT\nvar _ *Pattern\n\n")
	for i, pr := range g.prods {
		act := pr.action
		if act == "" {
			act = "$0, nil"
		}
		fmt.Fprintf(&b, "func kdAction_%d(X []Attrib) (Attrib, error) {\n\treturn %s\n}\n\n", i+1, actionArg.ReplaceAllString(act, "X[$1]"))
	}
	return map[string][]byte{filepath.Join(dir, "relapse", "parser", "zz_kd_actions.go"): b.Bytes()}
}

// grammarRule: the generated parser is the parser of the grammar.
func grammarRule(p *Prog, r *Report) {
	g := loadBNF(p)
	r.Count("productions of the grammar", len(g.prods))
	r.Expect("productions of the grammar", 150)
	r.guard("productions", func() { productionRule(p, r, g) })
	r.guard("lexer", func() { lexerRule(p, r, g) })
	r.guard("tables", func() { tablesRule(p, r, g) })
	r.guard("actions", func() { actionsRule(p, r, g) })
}

func productionRule(p *Prog, r *Report, g *bnf) {
	tab := productions(p)
	if len(tab) != len(g.prods)+1 {
		r.Fail("productions", p.posOf(tab[0].pos), "the parser has %d productions and the grammar %d", len(tab)-1, len(g.prods))
	}
	nt := map[string]int64{}
	byNT := map[int64]string{}
	for i, e := range tab {
		if e.index != int64(i) {
			r.Fail("productions", p.posOf(e.pos), "entry %d of the table of productions says it is entry %d", i, e.index)
		}
		if n, ok := nt[e.id]; ok && n != e.ntType {
			r.Fail("productions", p.posOf(e.pos), "%s has more than one number", e.id)
		}
		if n, ok := byNT[e.ntType]; ok && n != e.id {
			r.Fail("productions", p.posOf(e.pos), "%s and %s have the same number", e.id, n)
		}
		nt[e.id], byNT[e.ntType] = e.ntType, e.id
		if i == 0 || i > len(g.prods) {
			continue
		}
		pr := g.prods[i-1]
		if e.id != pr.head || e.symbols != int64(len(pr.body)) {
			r.Fail("productions", p.posOf(e.pos), "production %d is %s of %d symbols, in the grammar (%s) it is %s of %d symbols", i, e.id, e.symbols, pr.pos, pr.head, len(pr.body))
		}
		r.Count("entries of the table of productions compared", 1)
	}
	r.Expect("entries of the table of productions compared", 150)
}

type actionPath struct {
	facts map[*Term]bool
	sig   string
}

// runAction collects what an action does on every path through it.
func runAction(p *Prog, r *Report, f *ssa.Function, n int, key string) []actionPath {
	s := &Sim{P: p, Unroll: true, NoHavoc: true}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && inRepo(c.Callee) && c.Callee.Blocks != nil && !hasLoop(c.Callee) {
			return Inline
		}
		return Pure
	}
	var out []actionPath
	add := func(st *State, what string) {
		var ext []string
		for a, v := range st.mem {
			if rootOf(a).Op != "alloc" && rootOf(a).Op != "glob" {
				ext = append(ext, st.Resolve(a).String()+" = "+st.Resolve(v).String())
			}
		}
		sort.Strings(ext)
		fs := map[*Term]bool{}
		for k, v := range st.facts {
			fs[k] = v
		}
		out = append(out, actionPath{fs, what + " " + strings.Join(ext, "; ")})
	}
	s.OnPanic = func(st *State, pos tokenPos) { add(st, "panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		var b strings.Builder
		for _, x := range rets {
			b.WriteString(full(canonTerm(st.Resolve(x))))
			b.WriteString(" ")
		}
		add(st, b.String())
	}
	var xs []*Term
	for i := 0; i < n; i++ {
		xs = append(xs, sym(fmt.Sprintf("X:%d", i)))
	}
	s.Run(f, []*Term{mk("list", "", xs...)}, nil)
	r.Sim(key, s)
	return out
}

// full writes a term without shortening it.
func full(t *Term) string {
	if len(t.Args) == 0 {
		return t.Op + ":" + t.Name
	}
	var b strings.Builder
	b.WriteString(t.Op + ":" + t.Name + "(")
	for i, a := range t.Args {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(full(a))
	}
	b.WriteString(")")
	return b.String()
}

// actionsRule compares the actions of the parser with those of the grammar.
func actionsRule(p *Prog, r *Report, g *bnf) {
	q, err := loadWith(g.actionOverlay(p.Dir))
	if err != nil {
		r.Fail("actions", "relapse/bnf/all.bnf", "undecided: the actions of the grammar do not compile: %v", err)
		return
	}
	tab := productions(q)
	for i, pr := range g.prods {
		if i+1 >= len(tab) {
			break
		}
		want := q.FuncOpt("relapse/parser", fmt.Sprintf("kdAction_%d", i+1))
		if want == nil {
			r.Fail("actions", pr.pos, "undecided: no function for the action")
			continue
		}
		key := fmt.Sprintf("%s : %s", pr.head, bodyText(pr.body))
		got := tab[i+1].reduce
		a := runAction(q, r, got, len(pr.body), key)
		b := runAction(q, r, want, len(pr.body), key)
		if len(a) == 0 || len(b) == 0 {
			r.Fail(key, p.posOf(tab[i+1].pos), "undecided: what the action does")
			continue
		}
		r.Count("actions compared with the grammar", 1)
		bad := ""
		for _, x := range a {
			met := 0
			for _, y := range b {
				if !compatible(x.facts, y.facts) {
					continue
				}
				met++
				if x.sig != y.sig && bad == "" {
					bad = fmt.Sprintf("the action gives %s, and in the grammar (%s) %s", clip(x.sig), pr.pos, clip(y.sig))
				}
			}
			if met == 0 && bad == "" {
				bad = "undecided: no path of the action of the grammar goes with a path of the action of the parser"
			}
		}
		if bad != "" {
			r.Fail(key, p.posOf(tab[i+1].pos), "%s", bad)
		}
	}
	r.Expect("actions compared with the grammar", 150)
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func compatible(a, b map[*Term]bool) bool {
	for k, v := range a {
		if w, ok := b[k]; ok && v != w {
			return false
		}
	}
	return true
}

func bodyText(b []bnfSym) string {
	var out []string
	for _, s := range b {
		if s.lit {
			out = append(out, `"`+s.name+`"`)
		} else {
			out = append(out, s.name)
		}
	}
	return strings.Join(out, " ")
}

// tokenTypes reads the numbers of the tokens.
func tokenTypes(p *Prog, r *Report) map[string]int64 {
	pk := p.ByRel["relapse/token"]
	if pk == nil {
		failAnchor("no package relapse/token")
	}
	cl := globalLit(pk, "TokMap")
	if cl == nil {
		failAnchor("no table of tokens (relapse/token.TokMap)")
	}
	fs := fieldsOf(pk, cl)
	tm, ok1 := fs["typeMap"].(*ast.CompositeLit)
	im, ok2 := fs["idMap"].(*ast.CompositeLit)
	if !ok1 || !ok2 {
		failAnchor("the table of tokens is not a literal")
	}
	out := map[string]int64{}
	for i, e := range elems(pk, tm) {
		if s, ok := constStr(pk, e); ok {
			out[s] = i
		}
	}
	n := 0
	for _, e := range im.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			continue
		}
		k, _ := constStr(pk, kv.Key)
		v, ok := constInt(pk, kv.Value)
		if w, has := out[k]; !ok || !has || w != v {
			r.Fail("tokens", p.posOf(kv.Pos()), "the number of token %q is not that of its name", k)
		}
		n++
	}
	if n != len(out) {
		r.Fail("tokens", p.posOf(cl.Pos()), "the names and the numbers of the tokens are not the same tokens")
	}
	return out
}

// runeCase is a path through a function of the lexer: the runes it is taken for, and the next state.
type runeCase struct {
	facts map[*Term]bool
	next  int64
}

// evalRune is the value of a term over the rune.
func evalRune(t *Term, r int64) (int64, bool) {
	if t.Op == "param" || t.Op == "sym" {
		return r, true
	}
	if n, ok := intOf(t); ok {
		return n, true
	}
	b2i := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	switch {
	case t.isTrue():
		return 1, true
	case t.isFalse():
		return 0, true
	case t.Op == "conv":
		return evalRune(t.Args[0], r)
	case t.Op == "un" && t.Name == "!":
		x, ok := evalRune(t.Args[0], r)
		return 1 - x, ok
	case t.Op == "bin" && len(t.Args) == 2:
		x, ok1 := evalRune(t.Args[0], r)
		y, ok2 := evalRune(t.Args[1], r)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.Name {
		case "==":
			return b2i(x == y)
		case "<":
			return b2i(x < y)
		case "<=":
			return b2i(x <= y)
		case "+":
			return x + y, true
		case "-":
			return x - y, true
		}
	}
	return 0, false
}

func (c *runeCase) takes(r int64) (bool, bool) {
	for t, v := range c.facts {
		x, ok := evalRune(t, r)
		if !ok {
			return false, false
		}
		if (x != 0) != v {
			return false, true
		}
	}
	return true, true
}

// lexerRule: the automaton of the lexer is that of the lexical rules.
func lexerRule(p *Prog, r *Report, g *bnf) {
	toks := tokenTypes(p, r)
	for _, t := range g.tokens() {
		if _, ok := toks[t]; !ok {
			r.Fail("tokens", "relapse/token", "the lexer has no token %q", t)
		}
	}
	pk := p.ByRel["relapse/lexer"]
	if pk == nil {
		failAnchor("no package relapse/lexer")
	}
	tl, al := globalLit(pk, "TransTab"), globalLit(pk, "ActTab")
	if tl == nil || al == nil {
		failAnchor("no tables of the lexer (relapse/lexer.TransTab, ActTab)")
	}
	accept := map[int64]int64{}
	for i, e := range elems(pk, al) {
		fs := fieldsOf(pk, e)
		if fs == nil {
			failAnchor("entry %d of the actions of the lexer is not a literal", i)
		}
		if fs["Accept"] != nil {
			n, ok := constInt(pk, fs["Accept"])
			if !ok {
				failAnchor("entry %d of the actions of the lexer is not a constant", i)
			}
			accept[i] = n
		}
		if fs["Ignore"] != nil {
			if s, ok := constStr(pk, fs["Ignore"]); !ok || s != "" {
				r.Fail("lexer", p.posOf(e.Pos()), "state %d of the lexer ignores what it read", i)
			}
		}
	}
	cases := map[int64][]runeCase{}
	bounds := map[rune]bool{}
	fpos := map[int64]tokenPos{}
	for i, e := range elems(pk, tl) {
		f := funcOf(p, pk, e)
		if f == nil {
			failAnchor("entry %d of the transitions of the lexer is not a function", i)
		}
		fpos[i] = f.Pos()
		s := &Sim{P: p}
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			n, ok := intOf(rets[0])
			if !ok {
				st.Fail(pos, "undecided: the next state of the lexer")
				return
			}
			c := runeCase{facts: map[*Term]bool{}, next: n}
			for k, v := range st.facts {
				c.facts[k] = v
				k.any(func(u *Term) bool {
					if n, ok := intOf(u); ok && n >= 0 {
						bounds[rune(n)], bounds[rune(n)+1] = true, true
					}
					return false
				})
			}
			cases[i] = append(cases[i], c)
		}
		s.Run(f, nil, nil)
		r.Sim(fmt.Sprintf("lexer state %d", i), s)
		r.Count("states of the lexer", 1)
	}
	r.Expect("states of the lexer", 200)
	var extra []rune
	for b := range bounds {
		extra = append(extra, b)
	}
	d := g.dfa(extra...)
	step := func(q int64, ru rune) (int64, bool) {
		for i := range cases[q] {
			t, ok := cases[q][i].takes(int64(ru))
			if !ok {
				return 0, false
			}
			if t {
				return cases[q][i].next, true
			}
		}
		return 0, false
	}
	type pair struct {
		q int64
		d int
	}
	seen := map[pair]string{{0, 0}: ""}
	work := []pair{{0, 0}}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		text := seen[x]
		want := int64(0)
		if a := d.accept[x.d]; a != "" {
			want = toks[a]
		}
		if accept[x.q] != want {
			r.Fail("lexer", p.posOf(al.Pos()), "the lexer takes %q for token %d, and in the grammar it is token %d (%s)", text, accept[x.q], want, d.accept[x.d])
			continue
		}
		r.Count("pairs of states of the lexer and of the lexical rules", 1)
		for c, lo := range d.bounds {
			to := d.next[x.d][c]
			q, ok := step(x.q, lo)
			if !ok {
				r.Fail("lexer", p.posOf(fpos[x.q]), "undecided: the state after %q", text+string(lo))
				continue
			}
			r.Count("transitions of the lexer compared", 1)
			if (to < 0) != (q < 0) {
				can := "ends the token"
				if q >= 0 {
					can = "goes on"
				}
				r.Fail("lexer", p.posOf(fpos[x.q]), "after %q the lexer %s at %q, other than the lexical rules of the grammar", text, can, string(lo))
				continue
			}
			if to < 0 {
				continue
			}
			y := pair{q, to}
			if _, ok := seen[y]; !ok && len(seen) < 20000 {
				seen[y] = text + string(lo)
				work = append(work, y)
			}
		}
	}
	r.Expect("pairs of states of the lexer and of the lexical rules", 200)
}

// blob is the data that a table of the generated parser is unpacked from.
func blob(p *Prog, pk *packages.Package, file string) []byte {
	for _, f := range pk.Syntax {
		if filepath.Base(p.SSA.Fset.Position(f.Pos()).Filename) != file {
			continue
		}
		var out []byte
		ast.Inspect(f, func(n ast.Node) bool {
			cl, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			if sl, ok := pk.TypesInfo.TypeOf(cl).Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Uint8]) && len(cl.Elts) > len(out) {
				out = make([]byte, len(cl.Elts))
				for i, e := range cl.Elts {
					n, _ := constInt(pk, e)
					out[i] = byte(n)
				}
				return false
			}
			return true
		})
		return out
	}
	return nil
}

func unpack(data []byte, to interface{}) error {
	z, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return err
	}
	return gob.NewDecoder(z).Decode(to)
}

type lrItem struct{ prod, dot, look int }

// tablesRule: the tables of the parser are the tables of the grammar.
func tablesRule(p *Prog, r *Report, g *bnf) {
	pk := p.ByRel["relapse/parser"]
	toks := tokenTypes(p, r)
	var acts []struct {
		CanRecover bool
		Actions    []struct {
			Index  int
			Action int
			Amount int
		}
	}
	var gotos [][]int
	if err := unpack(blob(p, pk, "actiontable.go"), &acts); err != nil {
		failAnchor("the actions of the parser: %v", err)
	}
	if err := unpack(blob(p, pk, "gototable.go"), &gotos); err != nil {
		failAnchor("the successors of the parser: %v", err)
	}
	nt := map[string]int64{}
	for _, e := range productions(p) {
		nt[e.id] = e.ntType
	}
	// symbols: terminals are negative
	heads := map[string][]int{}
	type prod struct {
		head int64
		body []int64
	}
	symOf := func(s bnfSym) int64 {
		if g.terminal(s) {
			n, ok := toks[s.name]
			if !ok {
				failAnchor("no token %q", s.name)
			}
			return -n - 1
		}
		return nt[s.name]
	}
	prods := []prod{{nt["S'"], []int64{nt[g.prods[0].head]}}}
	for _, pr := range g.prods {
		x := prod{head: nt[pr.head]}
		if len(pr.body) == 0 {
			failAnchor("%s: an empty production", pr.pos)
		}
		for _, s := range pr.body {
			x.body = append(x.body, symOf(s))
		}
		prods = append(prods, x)
	}
	byHead := map[int64][]int{}
	for i, x := range prods {
		byHead[x.head] = append(byHead[x.head], i)
	}
	_ = heads
	// no production is empty, so what a symbol starts with is what the first symbol starts with
	first := map[int64]map[int]bool{}
	for ch := true; ch; {
		ch = false
		for _, x := range prods {
			if first[x.head] == nil {
				first[x.head] = map[int]bool{}
			}
			add := func(t int) {
				if !first[x.head][t] {
					first[x.head][t], ch = true, true
				}
			}
			if s := x.body[0]; s < 0 {
				add(int(-s - 1))
			} else {
				for t := range first[s] {
					add(t)
				}
			}
		}
	}
	firstOf := func(s int64) map[int]bool {
		if s < 0 {
			return map[int]bool{int(-s - 1): true}
		}
		return first[s]
	}
	closure := func(items map[lrItem]bool) []lrItem {
		var work, out []lrItem
		for it := range items {
			work = append(work, it)
		}
		for len(work) > 0 {
			it := work[len(work)-1]
			work = work[:len(work)-1]
			out = append(out, it)
			b := prods[it.prod].body
			if it.dot >= len(b) || b[it.dot] < 0 {
				continue
			}
			looks := map[int]bool{it.look: true}
			if it.dot+1 < len(b) {
				looks = firstOf(b[it.dot+1])
			}
			for _, q := range byHead[b[it.dot]] {
				for l := range looks {
					n := lrItem{q, 0, l}
					if !items[n] {
						items[n] = true
						work = append(work, n)
					}
				}
			}
		}
		sort.Slice(out, func(i, j int) bool {
			a, b := out[i], out[j]
			if a.prod != b.prod {
				return a.prod < b.prod
			}
			if a.dot != b.dot {
				return a.dot < b.dot
			}
			return a.look < b.look
		})
		return out
	}
	eof := int(toks["$"])
	ids := map[string]int{}
	var sets [][]lrItem
	add := func(kernel map[lrItem]bool) int {
		var ks []lrItem
		for k := range kernel {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		k := fmt.Sprint(ks)
		if i, ok := ids[k]; ok {
			return i
		}
		if len(sets) > 6000 {
			failAnchor("the grammar has too many states")
		}
		ids[k] = len(sets)
		sets = append(sets, closure(kernel))
		return len(sets) - 1
	}
	add(map[lrItem]bool{{0, 0, eof}: true})
	type pair struct{ tab, set int }
	seen := map[pair]bool{{0, 0}: true}
	work := []pair{{0, 0}}
	conflicts := 0
	name := func(t int) string {
		for n, i := range toks {
			if int(i) == t {
				return n
			}
		}
		return fmt.Sprint(t)
	}
	show := func(set []lrItem) string {
		for _, it := range set {
			if it.dot > 0 && it.prod > 0 {
				pr := g.prods[it.prod-1]
				return fmt.Sprintf("%s : %s . %s", pr.head, bodyText(pr.body[:it.dot]), bodyText(pr.body[it.dot:]))
			}
		}
		return "the start"
	}
	for len(work) > 0 && len(seen) < 20000 {
		x := work[0]
		work = work[1:]
		if x.tab >= len(acts) || x.tab >= len(gotos) || x.tab < 0 {
			r.Fail("tables", "relapse/parser/actiontable.go", "the parser has no state %d", x.tab)
			continue
		}
		r.Count("states of the parser", 1)
		if acts[x.tab].CanRecover {
			r.Fail("tables", "relapse/parser/actiontable.go", "the parser goes on after an error")
		}
		have := map[int][2]int{}
		for _, a := range acts[x.tab].Actions {
			have[a.Index] = [2]int{a.Action, a.Amount}
		}
		shift := map[int64]map[lrItem]bool{}
		reduce := map[int]int{}
		for _, it := range sets[x.set] {
			b := prods[it.prod].body
			if it.dot < len(b) {
				s := b[it.dot]
				if shift[s] == nil {
					shift[s] = map[lrItem]bool{}
				}
				shift[s][lrItem{it.prod, it.dot + 1, it.look}] = true
				continue
			}
			if o, ok := reduce[it.look]; ok && o != it.prod {
				conflicts++
				if o < it.prod {
					continue
				}
			}
			reduce[it.look] = it.prod
		}
		where := show(sets[x.set])
		n := 0
		for s, kernel := range shift {
			to := add(kernel)
			var y pair
			if s < 0 {
				t := int(-s - 1)
				if _, ok := reduce[t]; ok {
					conflicts++
					delete(reduce, t)
				}
				a, ok := have[t]
				n++
				if !ok || a[0] != 2 {
					r.Fail("tables", "relapse/parser/actiontable.go", "the parser does not read on at %q after %s", name(t), where)
					continue
				}
				y = pair{a[1], to}
			} else {
				if s >= int64(len(gotos[x.tab])) {
					r.Fail("tables", "relapse/parser/gototable.go", "the parser has no successor of a state at %s", where)
					continue
				}
				y = pair{gotos[x.tab][s], to}
			}
			r.Count("successors of the parser compared", 1)
			if !seen[y] {
				seen[y] = true
				work = append(work, y)
			}
		}
		for t, q := range reduce {
			a, ok := have[t]
			n++
			want := [2]int{1, q}
			if q == 0 {
				want = [2]int{0, 0}
			}
			if !ok || a[0] != want[0] || a[0] == 1 && a[1] != want[1] {
				r.Fail("tables", "relapse/parser/actiontable.go", "the parser does not reduce by production %d at %q after %s", q, name(t), where)
			}
			r.Count("reductions of the parser compared", 1)
		}
		if len(have) != n {
			r.Fail("tables", "relapse/parser/actiontable.go", "the parser has %d actions after %s and the grammar %d", len(have), where, n)
		}
	}
	r.Count("conflicts of the grammar, decided as the generator does", conflicts)
	r.Expect("states of the parser", 1000)
	r.Expect("successors of the parser compared", 1000)
	r.Expect("reductions of the parser compared", 1000)
}
