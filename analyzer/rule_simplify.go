package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: every rewrite of a pattern that an evaluator or the simplifier makes preserves what the pattern accepts.

func init() { register("C05", "other", ruleSimplify) }

// factReader reads terms as patterns under what is known on a path.
type factReader struct {
	p             *Prog
	facts         map[*Term]bool
	kinds         map[string]*types.Struct // ast kinds
	ik            map[string]*Term         // interned kinds
	specs         map[string]string        // call name -> operator, "id" for a function that returns an equal pattern
	patAt         map[string][]int         // call name -> the arguments that are patterns or lists of them
	eq            map[*Term]*Term
	base          *exprReader
	depth         int
	falses, trues map[*Term]bool
	asked         []*Term // the patterns whose kind the path asked for
	conflicts     [][]*Term
}

// unite reads the equalities of a path: patterns, conditions and names that were found equal.
func (x *factReader) unite() {
	x.eq = map[*Term]*Term{}
	var fs, fs2 []*Term
	for f, v := range x.facts {
		if v {
			fs = append(fs, f)
		}
		fs2 = append(fs2, f)
	}
	sort.Slice(fs, func(i, j int) bool {
		a, b := len(fs[i].String()), len(fs[j].String())
		if a != b {
			return a < b // wholes before their parts
		}
		return fs[i].id < fs[j].id
	})
	sort.Slice(fs2, func(i, j int) bool { return fs2[i].id < fs2[j].id })
	for _, f := range append(fs, fs...) {
		if f.Op == "call" && len(f.Args) == 2 && (f.Name == "invoke:Equal" || strings.HasSuffix(f.Name, ".Equal") || strings.HasSuffix(f.Name, ").Equal")) {
			x.join(f.Args[0], f.Args[1])
		}
	}
	ask := map[*Term]bool{}
	for _, f := range fs2 {
		if f.Op != "bin" || f.Name != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if a := f.Args[i]; a.Op == "field" && (a.Name == "Type" || x.kinds[a.Name] != nil) && !ask[a.Args[0]] {
				ask[a.Args[0]] = true
				x.asked = append(x.asked, a.Args[0])
			}
		}
	}
	// what the path found out about the simplified form of a part, it found out about the part
	seen := map[*Term]bool{}
	for _, f := range fs2 {
		f.any(func(t *Term) bool {
			if seen[t] {
				return false
			}
			seen[t] = true
			c := t
			if t.Op == "extract" && t.Name == "0" {
				c = t.Args[0]
			}
			if c.Op == "call" && x.specs[c.Name] == "id" {
				if idx := x.patAt[c.Name]; len(idx) == 1 && idx[0] < len(c.Args) {
					a := strip(c.Args[idx[0]])
					if x.kindOf1(a) == "" {
						x.join(t, a)
					}
				}
			}
			return false
		})
	}
}

func (x *factReader) join(p, q *Term) {
	a, b := x.rep(p), x.rep(q)
	if a == b {
		return
	}
	compound := func(t *Term) bool {
		return t.Op == "call" && (t.Name == "relapse/funcs.Or" || t.Name == "relapse/funcs.And")
	}
	if compound(b) && !compound(a) || compound(a) == compound(b) && a.id > b.id {
		a, b = b, a
	}
	x.eq[b] = a
}

func (x *factReader) rep(t *Term) *Term {
	t = strip(t)
	for n := 0; n < 50; n++ {
		if u, ok := x.eq[t]; ok {
			t = u
			continue
		}
		if t.Op == "field" {
			if a := x.rep(t.Args[0]); a != t.Args[0] {
				t = tField(a, t.Name)
				continue
			}
		}
		if t.Op == "index" {
			if a := x.rep(t.Args[0]); a != t.Args[0] {
				t = tIndex(a, t.Args[1])
				continue
			}
		}
		break
	}
	return t
}

// class is the equality class of a term, as far as the path asked for kinds.
func (x *factReader) class(t *Term) []*Term {
	r := x.rep(t)
	out := []*Term{r}
	for _, k := range x.asked {
		if x.rep(k) == r && k != r {
			out = append(out, k)
		}
	}
	return out
}

// kindOf is what the path knows about the kind of a pattern term.
func (x *factReader) kindOf(t *Term) string {
	for _, c := range x.class(t) {
		if k := x.kindOf1(c); k != "" {
			return k
		}
	}
	return ""
}

func (x *factReader) kindOf1(c *Term) string {
	for k := range x.kinds {
		if v, ok := x.facts[tEq(tField(c, k), tNil)]; ok && !v {
			return k
		}
	}
	ty := tField(c, "Type")
	for k, kc := range x.ik {
		if ty == kc {
			return k
		}
		if v, ok := x.facts[tEq(ty, kc)]; ok && v {
			return k
		}
	}
	return ""
}

func (x *factReader) kindTerm(t *Term) *Term {
	for _, c := range x.class(t) {
		for k := range x.kinds {
			if v, ok := x.facts[tEq(tField(c, k), tNil)]; ok && !v {
				return c
			}
		}
		for _, kc := range x.ik {
			if v, ok := x.facts[tEq(tField(c, "Type"), kc)]; ok && v {
				return c
			}
		}
	}
	return t
}

func (x *factReader) isAst(t *Term) bool {
	c := x.kindTerm(t)
	for k := range x.kinds {
		if v, ok := x.facts[tEq(tField(c, k), tNil)]; ok && !v {
			return true
		}
	}
	return false
}

func (x *factReader) read(t *Term) (*PE, error) {
	t = strip(t)
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 30 {
		return nil, fmt.Errorf("pattern too deep")
	}
	switch t.Op {
	case "sym":
		switch t.Name {
		case "$zany":
			return pe("ZAny"), nil
		case "$empty":
			return pe("Empty"), nil
		case "$notzany":
			return pe("None"), nil
		}
	case "gval":
		return x.base.read(t)
	case "new":
		if t.Name == "relapse/ast.Pattern" {
			return x.readNewAst(t)
		}
		if t.Name == "relapse/intern.Pattern" {
			return x.readNewIntern(t)
		}
	case "call", "extract":
		c := t
		if t.Op == "extract" && t.Name == "0" {
			c = t.Args[0]
		}
		if op, ok := x.specs[c.Name]; ok && c.Op == "call" && !(op == "id" && x.kindOf(t) != "") {
			e, err := x.readCall(op, c)
			if err != nil {
				return nil, err
			}
			return e, nil
		}
	}
	switch t.Op {
	case "param", "sym", "field", "index", "lookup", "deref", "call", "extract":
	default:
		return nil, fmt.Errorf("%s is not understood as a pattern", short(t.String()))
	}
	k := x.kindOf(t)
	if k == "" {
		return peVar(x.rep(t)), nil
	}
	c := x.kindTerm(t)
	if x.isAst(t) {
		return x.expandAst(tField(c, k), k)
	}
	kid := func(i int64) (*PE, error) { return x.read(tIndex(tField(c, "Patterns"), tInt(i))) }
	switch k {
	case "Empty", "ZAny":
		return pe(k), nil
	case "Not", "ZeroOrMore", "Contains", "Optional":
		e, err := kid(0)
		if err != nil {
			return nil, err
		}
		return pe(k, e), nil
	case "Node":
		e, err := kid(0)
		if err != nil {
			return nil, err
		}
		return x.node(tField(c, "Func"), e), nil
	}
	return peVar(x.rep(t)), nil
}

func (x *factReader) readCall(op string, c *Term) (*PE, error) {
	idx := x.patAt[c.Name]
	if op == "id" {
		if len(idx) != 1 || idx[0] >= len(c.Args) {
			return nil, fmt.Errorf("%s: no pattern argument", short(c.String()))
		}
		return x.read(c.Args[idx[0]])
	}
	if op == "Node" {
		e, err := x.read(c.Args[idx[1]])
		if err != nil {
			return nil, err
		}
		return x.node(c.Args[idx[0]], e), nil
	}
	if op == "None" || op == "ZAny" || op == "Empty" {
		return pe(op), nil
	}
	var ks []*PE
	for _, i := range idx {
		es, err := x.readList(c.Args[i], op)
		if err != nil {
			return nil, err
		}
		ks = append(ks, es...)
	}
	return pe(op, ks...), nil
}

// readList reads a list of patterns that are joined by the operator.
func (x *factReader) readList(t *Term, op string) ([]*PE, error) {
	t = strip(t)
	switch t.Op {
	case "nil":
		return nil, nil
	case "list":
		var out []*PE
		for _, a := range t.Args {
			e, err := x.read(a)
			if err != nil {
				return nil, err
			}
			out = append(out, e)
		}
		return out, nil
	case "append":
		a, err := x.readList(t.Args[0], op)
		if err != nil {
			return nil, err
		}
		b, err := x.readList(t.Args[1], op)
		if err != nil {
			return nil, err
		}
		return append(a, b...), nil
	case "field":
		if t.Name == "Patterns" {
			if k := x.kindOf(t.Args[0]); k == op {
				return []*PE{peVar(x.rep(t.Args[0]))}, nil
			}
			return nil, fmt.Errorf("the parts of %s are used in a %s", short(t.Args[0].String()), op)
		}
	}
	e, err := x.read(t)
	if err != nil {
		return nil, err
	}
	return []*PE{e}, nil
}

func (x *factReader) expandAst(node *Term, kind string) (*PE, error) {
	get := func(n string) (*PE, error) { return x.read(tField(node, n)) }
	switch kind {
	case "Empty", "ZAny":
		return pe(kind), nil
	case "Concat", "Or", "And", "Interleave":
		l, err := get("LeftPattern")
		if err != nil {
			return nil, err
		}
		r, err := get("RightPattern")
		if err != nil {
			return nil, err
		}
		return pe(kind, l, r), nil
	case "Not", "ZeroOrMore", "Contains", "Optional":
		c, err := get("Pattern")
		if err != nil {
			return nil, err
		}
		return pe(kind, c), nil
	case "Reference":
		name := tField(node, "Name")
		if x := x.declared(name); x != nil {
			return x.t, x.err
		}
		return &PE{Op: "Ref", Atom: name}, nil
	case "TreeNode":
		c, err := get("Pattern")
		if err != nil {
			return nil, err
		}
		return x.node(tField(node, "Name"), c), nil
	case "LeafNode":
		return x.node(tField(node, "Expr"), pe("Empty")), nil
	}
	return nil, fmt.Errorf("unknown kind %s", kind)
}

type readPE struct {
	t   *PE
	err error
}

// declared reads a reference to the declaration of a step of a loop over the declarations, when that declaration
// was found equal to a pattern: it stands for that pattern.
func (x *factReader) declared(name *Term) *readPE {
	if name.Op != "rkey" || len(name.Args) == 0 {
		return nil
	}
	for ft, fv := range x.facts {
		if !fv || ft.Op != "call" || !strings.HasSuffix(ft.Name, "ast.Pattern).Equal") || len(ft.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := ft.Args[i], ft.Args[1-i]
			if a.Op == "rval" && len(a.Args) == len(name.Args) && a.Args[0] == name.Args[0] && a.Args[len(a.Args)-1] == name.Args[len(a.Args)-1] {
				e, err := x.read(b)
				return &readPE{e, err}
			}
		}
	}
	return nil
}

func (x *factReader) readNewAst(t *Term) (*PE, error) {
	var kind string
	var node *Term
	for _, kv := range t.Args {
		if kv.Args[0] == tNil {
			continue
		}
		if kind != "" {
			return nil, fmt.Errorf("a pattern is built with two kinds, %s and %s", kind, kv.Name)
		}
		kind, node = kv.Name, kv.Args[0]
	}
	if kind == "" {
		return nil, fmt.Errorf("a pattern is built without a kind")
	}
	return x.expandAst(node, kind)
}

func newField(t *Term, name string) *Term {
	for _, kv := range t.Args {
		if kv.Name == name {
			return kv.Args[0]
		}
	}
	return nil
}

func (x *factReader) readNewIntern(t *Term) (*PE, error) {
	kind := ""
	for k, c := range x.ik {
		if newField(t, "Type") == c {
			kind = k
		}
	}
	ps := newField(t, "Patterns")
	switch kind {
	case "Empty", "ZAny":
		return pe(kind), nil
	case "Reference":
		return &PE{Op: "Ref", Atom: newField(t, "Ref")}, nil
	case "":
		return nil, fmt.Errorf("a pattern of unknown kind is built")
	}
	if ps == nil {
		return nil, fmt.Errorf("a %s pattern is built without parts", kind)
	}
	if kind == "Or" || kind == "And" || kind == "Concat" || kind == "Interleave" {
		ks, err := x.readList(ps, kind)
		if err != nil {
			return nil, err
		}
		return pe(kind, ks...), nil
	}
	if ps.Op != "list" || len(ps.Args) != 1 {
		return nil, fmt.Errorf("a %s pattern is built with the parts %s", kind, short(ps.String()))
	}
	e, err := x.read(ps.Args[0])
	if err != nil {
		return nil, err
	}
	if kind == "Node" {
		return x.node(newField(t, "Func"), e), nil
	}
	return pe(kind, e), nil
}

// node builds the pattern of one element, with its condition taken apart.
func (x *factReader) node(cond *Term, kid *PE) *PE {
	cond = x.cond(cond)
	switch {
	case cond.Op == "cond" && (cond.Name == "or" || cond.Name == "and"):
		op := "Or"
		if cond.Name == "and" {
			op = "And"
		}
		return pe(op, x.node(cond.Args[0], kid), x.node(cond.Args[1], kid))
	case cond.Op == "cond" && cond.Name == "false":
		return pe("None")
	}
	return &PE{Op: "Node", Atom: cond, Kids: []*PE{kid}}
}

// cond normalises the condition of an element, under what the path found out about it.
func (x *factReader) cond(t *Term) *Term {
	c := x.rawCond(t)
	if x.falses == nil {
		x.falses = map[*Term]bool{}
		for _, fs := range x.falseSets() {
			if len(fs) == 1 {
				x.falses[fs[0]] = true
			} else {
				x.conflicts = append(x.conflicts, fs)
			}
		}
		x.trues = map[*Term]bool{}
		for f, v := range x.facts {
			if v && f.Op == "call" && len(f.Args) == 1 && f.Name == "relapse/funcs.IsTrue" {
				x.trues[x.rawCond(f.Args[0])] = true
			}
		}
	}
	return x.decideCond(c)
}

func (x *factReader) decideCond(c *Term) *Term {
	switch {
	case x.falses[c]:
		return mk("cond", "false")
	case x.trues[c]:
		return mk("cond", "true")
	case c.Op == "cond" && len(c.Args) == 2:
		return mk("cond", c.Name, x.decideCond(c.Args[0]), x.decideCond(c.Args[1]))
	}
	return c
}

// rawCond reads the condition of an element.
func (x *factReader) rawCond(t *Term) *Term {
	t = strip(t)
	if t.Op == "extract" && t.Name == "0" {
		t = t.Args[0]
	}
	t = x.rep(t)
	switch t.Op {
	case "call":
		n := t.Name
		switch {
		case n == "relapse/funcs.Or" && len(t.Args) == 2:
			return mk("cond", "or", x.rawCond(t.Args[0]), x.rawCond(t.Args[1]))
		case n == "relapse/funcs.And" && len(t.Args) == 2:
			return mk("cond", "and", x.rawCond(t.Args[0]), x.rawCond(t.Args[1]))
		case n == "relapse/parser.ParseExpr" && len(t.Args) == 1:
			return x.rawCond(t.Args[0])
		case n == "relapse/funcs.Sprint" && len(t.Args) == 1:
			return x.rawCond(t.Args[0])
		case n == "relapse/compose.NewBool" && len(t.Args) == 1, n == "relapse/compose.ConvertBuiltInIntoFunction" && len(t.Args) == 1, n == "relapse/name.NameToFunc" && len(t.Args) == 1:
			return x.rawCond(t.Args[0])
		case n == "relapse/ast.NewFunction":
			if len(t.Args) == 2 && t.Args[1].Op == "list" && len(t.Args[1].Args) == 2 {
				if nm := strings.Trim(t.Args[0].Name, "\""); nm == "or" || nm == "and" {
					return mk("cond", nm, x.rawCond(t.Args[1].Args[0]), x.rawCond(t.Args[1].Args[1]))
				}
			}
		case n == "relapse/ast.NewAnyName":
			return mk("cond", "true")
		}
	case "new":
		if t.Name == "relapse/ast.NameExpr" {
			if v := newField(t, "AnyName"); v != nil && v != tNil {
				return mk("cond", "true")
			}
		}
	}
	return t
}

// falseSets are the sets of conditions that the path found to be never true together.
func (x *factReader) falseSets() [][]*Term {
	var out [][]*Term
	for f, v := range x.facts {
		if v && f.Op == "call" && len(f.Args) == 1 && f.Name == "relapse/funcs.IsFalse" {
			out = append(out, dnf(x.rawCond(f.Args[0]))...)
		}
	}
	return out
}

func dnf(t *Term) [][]*Term {
	if t.Op == "cond" && t.Name == "or" {
		return append(dnf(t.Args[0]), dnf(t.Args[1])...)
	}
	if t.Op == "cond" && t.Name == "and" {
		var out [][]*Term
		for _, a := range dnf(t.Args[0]) {
			for _, b := range dnf(t.Args[1]) {
				out = append(out, append(append([]*Term{}, a...), b...))
			}
		}
		return out
	}
	return [][]*Term{{t}}
}

// condBase strips the conversions between the forms of a condition.
func (x *factReader) condBase(t *Term) *Term {
	for {
		t = strip(t)
		if t.Op == "extract" && t.Name == "0" {
			t = t.Args[0]
			continue
		}
		if t.Op == "call" && len(t.Args) == 1 {
			switch t.Name {
			case "relapse/parser.ParseExpr", "relapse/funcs.Sprint", "relapse/compose.NewBool", "relapse/compose.ConvertBuiltInIntoFunction", "relapse/name.NameToFunc":
				t = t.Args[0]
				continue
			}
		}
		return x.rep(t)
	}
}

// simplifyPath compares the pattern a path returns with the pattern it was asked for.
type simplifyCtx struct {
	p        *Prog
	r        *Report
	key      string
	isRecord func(f *Term) bool
	specs    map[string]string
	patAt    map[string][]int
}

func (c *simplifyCtx) compare(st *State, ret *Term, pos tokenPos, want func(x *factReader) (*PE, error), fail func(format string, a ...interface{})) {
	x := &factReader{p: c.p, facts: st.facts, kinds: c.p.astKinds(), ik: c.p.internKinds(), specs: c.specs, patAt: c.patAt, base: &exprReader{p: c.p}}
	x.unite()
	// contradictory equalities
	for _, k := range x.asked {
		seen := ""
		for _, m := range x.class(k) {
			for kd := range x.kinds {
				if v, ok := st.facts[tEq(tField(m, kd), tNil)]; ok && !v {
					if seen != "" && seen != kd {
						return
					}
					seen = kd
				}
			}
			for kd, kc := range x.ik {
				if v, ok := st.facts[tEq(tField(m, "Type"), kc)]; ok && v {
					if seen != "" && seen != kd {
						return
					}
					seen = kd
				}
			}
		}
	}
	got, err := x.read(st.Resolve(ret))
	if err != nil {
		fail("undecided: %v", err)
		return
	}
	w, err := want(x)
	if err != nil {
		fail("undecided: %v", err)
		return
	}
	env := newNullEnv()
	env.eqs = map[string]*PE{}
	env.atomEq = true
	env.conflicts = x.conflicts
	for f, v := range st.facts {
		if v && c.isRecord != nil && c.isRecord(f) {
			env.record = true
		}
		if v && f.Op == "call" && f.Name == "relapse/funcs.IsSimpleEqual" {
			env.simple(x.cond(f.Args[0]))
		}
		if f.Op == "bin" && f.Name == "==" && !v {
			for i := 0; i < 2; i++ {
				a, b := f.Args[i], f.Args[1-i]
				if b == tNil && a.Op == "field" && a.Name == "Name" {
					env.simple(x.cond(a.Args[0])) // a plain name
				}
			}
		}
		if f.Op == "call" && strings.HasSuffix(f.Name, ".Nullable") || f.Op == "field" && f.Name == "nullable" {
			a := f.Args[len(f.Args)-1]
			e, err := x.read(st.Resolve(a))
			if err != nil {
				continue
			}
			env.cons = append(env.cons, nullCons{e, v})
		}
	}
	// what the path knows about the results of other constructions
	for f, v := range st.facts {
		if !v || f.Op != "bin" || f.Name != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			a := f.Args[i]
			if a.Op != "field" || a.Name != "Type" {
				continue
			}
			b := a.Args[0]
			cc := b
			if b.Op == "extract" {
				cc = b.Args[0]
			}
			if _, ok := c.specs[cc.Name]; !ok || cc.Op != "call" {
				continue
			}
			e, err := x.read(b)
			if err != nil {
				continue
			}
			var to *PE
			switch x.kindOf(b) {
			case "Empty", "ZAny":
				to = pe(x.kindOf(b))
			case "Not":
				if x.kindOf(tIndex(tField(b, "Patterns"), tInt(0))) == "ZAny" {
					to = pe("None")
				}
			}
			if to != nil {
				env.pend = append(env.pend, [2]*PE{e, to})
			}
		}
	}
	c.r.Count("rewrites", 1)
	if ok, why := peEqualEnv(got, w, env); !ok {
		fail("%s", why)
	}
}

type nullCons struct {
	e *PE
	v bool
}

// equate notes that two patterns accept the same; false if they cannot.
func (n *nullEnv) equate(a, to *PE) bool {
	if a.String() == to.String() {
		return true
	}
	v, ok := n.null(a)
	w, _ := n.null(to)
	if ok && v != w {
		return false
	}
	n.eqs[a.String()] = to
	if a.Op == "Or" && to.Op == "None" || a.Op == "And" && to.Op == "ZAny" {
		for _, k := range a.Kids {
			if !n.equate(k, to) {
				return false
			}
		}
	}
	if a.Op == "Not" {
		switch to.Op {
		case "None":
			return n.equate(a.Kids[0], pe("ZAny"))
		case "ZAny":
			return n.equate(a.Kids[0], pe("None"))
		}
	}
	return true
}

// peEqualEnv is peEqual with constraints and equations.
func peEqualEnv(a, b *PE, env *nullEnv) (bool, string) {
	n := newNullEnv()
	for k, v := range env.known {
		n.known[k] = v
	}
	n.record, n.simpleAtoms, n.cons, n.atomEq, n.conflicts = env.record, env.simpleAtoms, env.cons, env.atomEq, env.conflicts
	n.eqs = map[string]*PE{}
	for _, q := range env.pend {
		if !n.equate(n.norm(q[0]), q[1]) {
			return true, "" // infeasible
		}
	}
	n.pend = env.pend
	x, y := n.norm(a), n.norm(b)
	if x.String() == y.String() {
		return true, ""
	}
	for _, c := range env.cons {
		if v, ok := n.null(n.norm(c.e)); ok && v != c.v {
			return true, "" // infeasible
		}
	}
	for _, k := range sortedPE(n.need) {
		for _, v := range []bool{false, true} {
			m := &nullEnv{known: map[string]bool{k: v}, need: map[string]*PE{}, record: env.record, simpleAtoms: env.simpleAtoms, cons: env.cons, pend: env.pend, atomEq: env.atomEq, conflicts: env.conflicts}
			for q, w := range env.known {
				m.known[q] = w
			}
			if ok, why := peEqualEnv(a, b, m); !ok {
				return false, why
			}
		}
		return true, ""
	}
	var ks []string
	for k, v := range env.known {
		ks = append(ks, fmt.Sprintf("nullable(%s)=%v", k, v))
	}
	sort.Strings(ks)
	why := fmt.Sprintf("%s is not %s", x, y)
	if len(ks) > 0 {
		why += " when " + strings.Join(ks, ", ")
	}
	return false, why
}

func sortedPE(m map[string]*PE) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// reverseSort models a sort as the one permutation that is worst for an order that matters.
func reverseSort(st *State, c *Call) bool {
	if c.Callee == nil || len(c.Args) == 0 {
		return false
	}
	pk := c.Callee.Pkg
	if pk == nil {
		if o := c.Callee.Origin(); o != nil {
			pk = o.Pkg
		}
	}
	if pk == nil || pk.Pkg.Path() != "sort" && pk.Pkg.Path() != "slices" || !strings.Contains(c.Callee.Name(), "S") {
		return false
	}
	switch {
	case strings.HasPrefix(c.Callee.Name(), "Sort"), strings.HasPrefix(c.Callee.Name(), "Slice"), strings.HasPrefix(c.Callee.Name(), "Stable"):
	default:
		return false
	}
	rev := func(l *Term) {
		s := st.snapshot(l)
		if s.Op != "list" {
			return
		}
		n := len(s.Args)
		for i := 0; i < n; i++ {
			st.mem[mk("ia", "", l, tInt(int64(i)))] = s.Args[n-1-i]
		}
	}
	t := strip(c.Args[0])
	if t.Op == "alloc" && t.Typ != nil {
		if pt, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if u, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if _, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
						rev(st.Load(tFA(t, u.Field(i).Name()), u.Field(i).Type()))
					}
				}
				return true
			}
		}
	}
	rev(t)
	return true
}

// refFinders are the functions that replace a pattern by a reference to an equal declaration.
func (p *Prog) refFinders(r *Report, pkg string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.funcsIn(pkg) {
		if f.Parent() != nil || f.Signature.Results().Len() == 0 || isPatternPtr(f.Signature.Results().At(0).Type()) == "" {
			continue
		}
		n := 0
		for _, a := range f.Params {
			if isPatternPtr(a.Type()) != "" {
				n++
			}
		}
		if n != 1 {
			continue
		}
		eq, mp, rec := false, false, false
		eq0, mp0 := false, false
		visited := map[*ssa.Function]bool{}
		var scan func(g *ssa.Function, d int)
		scan = func(g *ssa.Function, d int) {
			if visited[g] || g.Blocks == nil {
				return
			}
			visited[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Lookup:
						if _, ok := in.X.Type().Underlying().(*types.Map); ok {
							mp = true
							mp0 = mp0 || d == 0
						}
					case *ssa.Range:
						mp = true
						mp0 = mp0 || d == 0
					case *ssa.Call:
						h := in.Call.StaticCallee()
						if h == nil {
							continue
						}
						if h == f {
							rec = rec || d == 0
						}
						if h.Name() == "Equal" && h.Signature.Recv() != nil && isPatternPtr(h.Signature.Recv().Type()) != "" {
							eq = true
							eq0 = eq0 || d == 0
						} else if d < 2 && relPkgOf(h) == pkg && !strings.HasPrefix(h.Name(), "New") {
							scan(h, d+1)
						}
					}
				}
			}
		}
		scan(f, 0)
		if !eq || !mp || rec {
			continue
		}
		key := "reference:" + fname(f)
		if !eq0 || !mp0 {
			// perhaps through helpers
			tr := newReport(p, r.ID, r.Tier)
			tr.guard(key, func() { p.refLemma(tr, key, f) })
			if len(tr.findings) > 0 {
				continue
			}
		}
		r.Sample("%s replaces patterns by references", fname(f))
		out[f] = true
		r.guard(key, func() { p.refLemma(r, key, f) })
	}
	return out
}

// refLemma: the function returns its pattern, or a reference to a declaration that is equal to it.
func (p *Prog) refLemma(r *Report, key string, f *ssa.Function) {
	var pt *Term
	args := make([]*Term, len(f.Params))
	for i, a := range f.Params {
		args[i] = mk("param", a.Name())
		args[i].Typ = a.Type()
		if isPatternPtr(a.Type()) != "" {
			pt = args[i]
		}
	}
	s := &Sim{P: p, NoHavoc: true}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == nil || c.Callee.Name() == "Equal" || strings.HasPrefix(c.Callee.Name(), "New") || relPkgOf(c.Callee) != relPkgOf(f) {
			return Pure
		}
		return Inline
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		v := st.Resolve(rets[0])
		if v == pt || v == tNil {
			r.Count("reference lookups", 1)
			return
		}
		c := v
		if c.Op == "extract" && c.Name == "0" {
			c = c.Args[0]
		}
		if c.Op == "call" && strings.HasSuffix(c.Name, "NewReference") {
			name := c.Args[len(c.Args)-1]
			for ft, fv := range st.facts {
				if !fv || ft.Op != "call" || !strings.HasSuffix(ft.Name, ".Equal") || len(ft.Args) != 2 {
					continue
				}
				a, b := ft.Args[0], ft.Args[1]
				if b != pt {
					a, b = b, a
				}
				if b != pt {
					continue
				}
				// the declaration of that name, or the value beside the key of the same step of a map loop
				if a.Op == "lookup" && a.Args[1] == name {
					r.Count("reference lookups", 1)
					return
				}
				if a.Op == "rval" && name.Op == "rkey" && len(a.Args) == len(name.Args) && a.Args[0] == name.Args[0] && a.Args[len(a.Args)-1] == name.Args[len(a.Args)-1] {
					r.Count("reference lookups", 1)
					return
				}
			}
		}
		st.Fail(pos, "%s replaces a pattern by %s, which is no reference to a declaration found equal to it", fname(f), short(v.String()))
	}
	s.Run(f, args, nil)
	r.Sim(key, s)
}

func ruleSimplify(p *Prog, r *Report) {
	r.Explain("Every function that builds a pattern from patterns (the simplifier of the syntax tree, the constructors of interned patterns, and the translation into interned patterns) is enumerated path by path. What each path returns is compared with the pattern it stands for, under everything the path has established, modulo a sound equational theory of patterns. Lists are enumerated for 1 to 3 parts; a sort is modelled by reversing the list.")
	r.Assume("sort.Sort permutes; parsing what an expression prints gives an equal expression; a compiled condition means what its expression means; recursive calls are taken to be right on smaller patterns")
	r.guard("intern", func() { simplifyIntern(p, r) })
	r.guard("interp", func() { simplifyInterp(p, r) })
	r.Expect("reference lookups", 2)
	r.Expect("simplifying functions", 17)
	r.Expect("rewrites", 150)
}

func patternParams(f *ssa.Function) (idx []int, lists []int) {
	for i, a := range f.Params {
		if isPatternPtr(a.Type()) != "" {
			idx = append(idx, i)
		} else if patternElem(a.Type()) != "" {
			lists = append(lists, i)
		}
	}
	return
}

// simplifyIntern checks the constructors of interned patterns.
func simplifyIntern(p *Prog, r *Report) {
	const pkg = "relapse/intern"
	finders := p.refFinders(r, pkg)
	specs := map[string]string{}
	patAt := map[string][]int{}
	pure := map[string]bool{}
	type ctor struct {
		f  *ssa.Function
		op string
	}
	var ctors []ctor
	var translate *ssa.Function
	for _, f := range p.funcsIn(pkg) {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Signature.Results().Len() == 0 || isPatternPtr(f.Signature.Results().At(0).Type()) != pkg {
			continue
		}
		if strings.Contains(f.Synthetic, "wrapper") || strings.Contains(f.Synthetic, "bound") {
			continue
		}
		op := ""
		switch f.Name() {
		case "NewConcat", "NewOr", "NewAnd", "NewInterleave", "NewNot", "NewZeroOrMore", "NewContains", "NewOptional", "NewZAny", "NewEmpty", "NewNode":
			op = strings.TrimPrefix(f.Name(), "New")
		case "NewNotZAny":
			op = "None"
		case "MergeOr", "MergeAnd":
			op = strings.TrimPrefix(f.Name(), "Merge")
		case "NewPattern":
			translate = f
			continue
		default:
			continue
		}
		var at []int
		for i, a := range f.Params {
			if i == 0 {
				continue
			}
			if isPatternPtr(a.Type()) != "" || patternElem(a.Type()) != "" || op == "Node" {
				at = append(at, i)
			}
		}
		ctors = append(ctors, ctor{f, op})
		for _, nm := range []string{fname(f), "invoke:" + f.Name(), fname(f) + "$bound"} {
			specs[nm] = op
			patAt[nm] = at
		}
		if op == "Or" || op == "And" || op == "Concat" || op == "Interleave" {
			pure[fname(f)] = true
		}
	}
	sort.Slice(ctors, func(i, j int) bool { return ctors[i].f.Name() < ctors[j].f.Name() })
	kinds := p.internKinds()
	record := boolFields(p, pkg)
	globals := func(st *State) {
		for _, g := range []string{"zany", "empty", "notzany"} {
			_ = g
		}
		internGlobals(p, st)
	}
	classify := func(self *ssa.Function) func(st *State, c *Call) Action {
		return func(st *State, c *Call) Action {
			if reverseSort(st, c) {
				return Pure
			}
			if c.Callee == nil {
				return Pure
			}
			if finders[c.Callee] {
				for i, a := range c.Callee.Params {
					if isPatternPtr(a.Type()) != "" {
						t := c.Args[i]
						if c.NRes > 1 {
							c.Result = mk("tuple", "", t, tNil)
						} else {
							c.Result = t
						}
					}
				}
				return Event
			}
			nm := fname(c.Callee)
			if c.Callee.Name() == "SetHash" || c.Callee.Name() == "SetContext" {
				return Opaque
			}
			if c.Callee.Name() == "Equal" && c.Callee.Signature.Recv() != nil {
				return Pure
			}
			if pure[nm] && c.Callee != self || c.Callee == self {
				return Pure
			}
			if relPkgOf(c.Callee) == pkg {
				if c.Callee == translate {
					return Pure
				}
				return Inline
			}
			if relPkgOf(c.Callee) == "relapse/ast" && c.Callee.Signature.Params().Len() == 0 && strings.HasPrefix(c.Callee.Name(), "Get") {
				return Inline
			}
			return Pure
		}
	}
	for _, ct := range ctors {
		ct := ct
		r.Count("simplifying functions", 1)
		r.Sample("%s is %s", fname(ct.f), ct.op)
		lo, hi := 1, 1
		_, lists := patternParams(ct.f)
		if len(lists) > 0 {
			hi = 3
		}
		for n := lo; n <= hi; n++ {
			n := n
			key := "construct:" + fname(ct.f)
			r.guard(key, func() {
				cx := &simplifyCtx{p: p, r: r, key: key, specs: specs, patAt: patAt, isRecord: record}
				args := make([]*Term, len(ct.f.Params))
				for i, a := range ct.f.Params {
					args[i] = mk("param", a.Name())
					args[i].Typ = a.Type()
					if patternElem(a.Type()) != "" {
						var es []*Term
						for j := 0; j < n; j++ {
							es = append(es, sym(fmt.Sprintf("part%d", j)))
						}
						args[i] = mk("list", "", es...)
					}
				}
				s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 12, MaxState: 400000}
				s.Classify = classify(ct.f)
				s.OnBranch = killKinds(p)
				rets := 0
				s.OnReturn = func(st *State, rs []*Term, pos tokenPos) {
					if len(rs) > 1 && !okError(st, rs[1]) {
						return
					}
					rets++
					cx.compare(st, rs[0], pos, func(x *factReader) (*PE, error) {
						if ct.op == "Node" {
							e, err := x.read(args[2])
							if err != nil {
								return nil, err
							}
							return x.node(args[1], e), nil
						}
						var ks []*PE
						for _, i := range patAt[fname(ct.f)] {
							es, err := x.readList(args[i], ct.op)
							if err != nil {
								return nil, err
							}
							ks = append(ks, es...)
						}
						return pe(ct.op, ks...), nil
					}, func(f string, a ...interface{}) {
						st.Fail(pos, "%s does not build the %s it is asked for: %s", fname(ct.f), ct.op, fmt.Sprintf(f, a...))
					})
				}
				s.Run(ct.f, args, globals)
				r.Sim(key, s)
				if rets == 0 {
					r.Fail(key, p.posOf(ct.f.Pos()), "undecided: no path of %s returns a pattern", fname(ct.f))
				}
			})
		}
	}
	_ = kinds
	if translate == nil {
		failAnchor("no translation into interned patterns")
	}
	// the translation, kind by kind
	for _, nm := range []string{fname(translate), "invoke:" + translate.Name(), fname(translate) + "$bound"} {
		specs[nm] = "id"
		patAt[nm] = []int{1}
	}
	for _, ct := range ctors {
		pure[fname(ct.f)] = true
	}
	for _, k := range sortedNames(p.astKinds()) {
		k := k
		key := "translate:" + k
		r.guard(key, func() { astToPattern(p, r, key, translate, k, specs, patAt, classify(translate), globals, record) })
	}
}

func okError(st *State, e *Term) bool {
	if e == tNil {
		return true
	}
	nl, ok := st.IsNil(e)
	if ok {
		return nl
	}
	return true // passed on together with its result
}

// boolFields recognises facts about a boolean field of a struct of the package: the record option.
func boolFields(p *Prog, pkg string) func(f *Term) bool {
	names := map[string]bool{}
	for _, n := range p.namedTypes() {
		if n.Obj().Pkg() == nil || rel(n.Obj().Pkg().Path()) != pkg {
			continue
		}
		if u, ok := n.Underlying().(*types.Struct); ok && n.Obj().Name() != "Pattern" {
			for i := 0; i < u.NumFields(); i++ {
				if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					names[u.Field(i).Name()] = true
				}
			}
		}
	}
	return func(f *Term) bool { return f.Op == "field" && names[f.Name] && f.Args[0].Op == "param" }
}

// internGlobals gives the shared patterns their known contents.
func internGlobals(p *Prog, st *State) {
	ik := p.internKinds()
	rd := &exprReader{p: p}
	_ = rd
	sp := p.SPkg["relapse/intern"]
	for name, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok || isPatternPtr(g.Type().Underlying().(*types.Pointer).Elem()) == "" {
			continue
		}
		gt := mk("glob", "relapse/intern."+name)
		v := p.globalValue("relapse/intern." + name)
		if v == nil || v.Op != "new" {
			continue
		}
		kind := ""
		for k, c := range ik {
			if newField(v, "Type") == c {
				kind = k
			}
		}
		var s *Term
		switch kind {
		case "ZAny":
			s = sym("$zany")
		case "Empty":
			s = sym("$empty")
		case "Not":
			ps := newField(v, "Patterns")
			if ps != nil && ps.Op == "list" && len(ps.Args) == 1 && ps.Args[0].Op == "new" && newField(ps.Args[0], "Type") == ik["ZAny"] {
				s = sym("$notzany")
				st.mem[tFA(s, "Patterns")] = mk("list", "", sym("$zany"))
			}
		}
		if s == nil {
			continue
		}
		st.mem[gt] = s
		st.mem[tFA(s, "Type")] = ik[kind]
		st.mem[tFA(s, "nullable")] = tBool(kind != "Not")
		if kind == "Not" {
			z := sym("$zany")
			st.mem[tFA(z, "Type")] = ik["ZAny"]
			st.mem[tFA(z, "nullable")] = tBool(true)
		}
		st.assume(tEq(s, tNil), false)
	}
}

// globalValue is what a package level variable is initialised with.
func (p *Prog) globalValue(name string) *Term {
	if p.globVals == nil {
		p.globVals = map[string]*Term{}
	}
	if v, ok := p.globVals[name]; ok {
		return v
	}
	p.globVals[name] = nil
	i := strings.LastIndex(name, ".")
	sp := p.SPkg[name[:i]]
	if sp == nil || sp.Func("init") == nil {
		return nil
	}
	s := &Sim{P: p, NoHavoc: true, MaxState: 3000}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && strings.HasPrefix(c.Callee.Name(), "init") {
			return Opaque
		}
		return Inline
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if v, ok := st.mem[mk("glob", name)]; ok {
			p.globVals[name] = st.Resolve(v)
		}
	}
	s.Run(sp.Func("init"), nil, nil)
	return p.globVals[name]
}

// killKinds ends paths on which a syntax tree pattern has two kinds.
func killKinds(p *Prog) func(st *State, cond *Term, taken bool) {
	kinds := p.astKinds()
	return func(st *State, cond *Term, taken bool) {
		c, v := cond, taken
		if c.Op == "un" && c.Name == "!" {
			c, v = c.Args[0], !v
		}
		if v || c.Op != "bin" || c.Name != "==" {
			return
		}
		for i := 0; i < 2; i++ {
			a := c.Args[i]
			if c.Args[1-i] != tNil || a.Op != "field" || kinds[a.Name] == nil {
				continue
			}
			for k := range kinds {
				if k == a.Name {
					continue
				}
				q := tEq(tField(a.Args[0], k), tNil)
				if w, ok := st.facts[q]; ok && !w {
					st.Kill()
					return
				}
				// the other kinds are out
				st.facts[q] = true
			}
		}
	}
}

// astToPattern checks a function on one syntax tree pattern, for one kind: what it returns stands for its argument.
func astToPattern(p *Prog, r *Report, key string, fn *ssa.Function, kind string, specs map[string]string, patAt map[string][]int, classify func(st *State, c *Call) Action, setup func(st *State), record func(*Term) bool) {
	r.Count("kinds translated", 1)
	args := make([]*Term, len(fn.Params))
	var pt *Term
	for i, a := range fn.Params {
		args[i] = mk("param", a.Name())
		args[i].Typ = a.Type()
		if isPatternPtr(a.Type()) == "relapse/ast" {
			pt = args[i]
		}
	}
	kinds := p.astKinds()
	cx := &simplifyCtx{p: p, r: r, key: key, specs: specs, patAt: patAt, isRecord: record}
	s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 14, MaxState: 400000}
	s.Classify = func(st *State, c *Call) Action {
		// a list of parts: deeper levels are left as they are
		if c.Callee != nil && c.Recurse && c.Callee.Signature.Results().Len() == 1 && patternElem(c.Callee.Signature.Results().At(0).Type()) != "" {
			for i, a := range c.Callee.Params {
				if isPatternPtr(a.Type()) != "" {
					c.Result = mk("list", "", c.Args[i])
					return Event
				}
			}
		}
		return classify(st, c)
	}
	s.Decide = astDecide(p, pt, kind)
	s.OnBranch = killKinds(p)
	rets := 0
	s.OnReturn = func(st *State, rs []*Term, pos tokenPos) {
		if len(rs) > 1 && !okError(st, rs[1]) {
			return
		}
		st.facts[tEq(tField(pt, kind), tNil)] = false
		rets++
		cx.compare(st, rs[0], pos, func(x *factReader) (*PE, error) { return x.read(pt) }, func(f string, a ...interface{}) {
			st.Fail(pos, "%s changes what a %s pattern accepts: %s", fname(fn), kind, fmt.Sprintf(f, a...))
		})
	}
	s.Run(fn, args, func(st *State) {
		if setup != nil {
			setup(st)
		}
	})
	_ = kinds
	r.Sim(key, s)
	if rets == 0 {
		r.Fail(key, p.posOf(fn.Pos()), "undecided: no path of %s returns a pattern for a %s pattern", fname(fn), kind)
	}
}

// astDecide: the pattern is of the kind, and children of any node are set.
func astDecide(p *Prog, pt *Term, kind string) func(*Term) (bool, bool) {
	kinds := p.astKinds()
	var base func(*Term) (bool, bool)
	if pt != nil {
		base = decideAstKind(pt, kind, kinds)
	}
	ptrField := map[string]map[string]bool{}
	for k, s := range kinds {
		ptrField[k] = map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
				ptrField[k][s.Field(i).Name()] = true
			}
		}
	}
	return func(t *Term) (bool, bool) {
		if base != nil {
			if v, ok := base(t); ok {
				return v, ok
			}
		}
		if t.Op == "bin" && t.Name == "==" {
			for i := 0; i < 2; i++ {
				a := t.Args[i]
				if t.Args[1-i] != tNil {
					continue
				}
				if a.Op == "field" && a.Args[0].Op == "field" && ptrField[a.Args[0].Name] != nil && ptrField[a.Args[0].Name][a.Name] {
					return false, true
				}
				if a.Op == "param" && a.Typ != nil && isPatternPtr(a.Typ) != "" {
					return false, true
				}
			}
		}
		return false, false
	}
}

// simplifyInterp checks the simplifier of the syntax tree.
func simplifyInterp(p *Prog, r *Report) {
	const pkg = "relapse/interp"
	entry := p.simplifierEntry(pkg)
	finders := p.refFinders(r, pkg)
	nullable := p.nullableAst()
	specs := map[string]string{}
	patAt := map[string][]int{}
	reachable := p.reach([]*ssa.Function{entry}, false)
	var walkers, helpers []*ssa.Function
	for _, f := range p.funcsIn(pkg) {
		if !reachable[f] || f.Parent() != nil || f.Signature.Results().Len() == 0 || isPatternPtr(f.Signature.Results().At(0).Type()) == "" || finders[f] {
			continue
		}
		ps, _ := patternParams(f)
		if len(ps) == 1 && (p.selfRecursive(f) || f == entry) {
			walkers = append(walkers, f)
		}
		if len(ps) == 2 && p.selfRecursive(f) {
			helpers = append(helpers, f)
		}
	}
	sort.Slice(walkers, func(i, j int) bool { return walkers[i].String() < walkers[j].String() })
	sort.Slice(helpers, func(i, j int) bool { return helpers[i].String() < helpers[j].String() })
	if len(walkers) == 0 {
		failAnchor("no recursive simplifier")
	}
	for _, w := range walkers {
		ps, _ := patternParams(w)
		specs[fname(w)] = "id"
		patAt[fname(w)] = ps
	}
	classify := func(self *ssa.Function) func(st *State, c *Call) Action {
		return func(st *State, c *Call) Action {
			if reverseSort(st, c) {
				return Pure
			}
			if c.Callee == nil {
				return Pure
			}
			if c.Recurse && c.Callee.Signature.Results().Len() == 1 && patternElem(c.Callee.Signature.Results().At(0).Type()) != "" {
				np, nl := 0, 0
				at := -1
				for i, a := range c.Callee.Params {
					if isPatternPtr(a.Type()) != "" {
						np++
						at = i
					} else if patternElem(a.Type()) != "" {
						nl++
					}
				}
				if np == 1 && nl == 0 {
					c.Result = mk("list", "", c.Args[at])
					return Event
				}
				return Inline
			}
			if finders[c.Callee] {
				for i, a := range c.Callee.Params {
					if isPatternPtr(a.Type()) != "" {
						c.Result = c.Args[i]
					}
				}
				return Event
			}
			if c.Callee == nullable || c.Callee == self {
				return Pure
			}
			if _, ok := specs[fname(c.Callee)]; ok {
				return Pure
			}
			switch relPkgOf(c.Callee) {
			case pkg:
				return Inline
			case "relapse/ast":
				switch c.Callee.Name() {
				case "Equal", "Hash", "Compare", "NewFunction", "String", "GoString", "NewRefLookup", "NewGrammar":
					return Pure
				}
				return Inline
			}
			return Pure
		}
	}
	mkSim := func(self *ssa.Function) *Sim {
		s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 16, MaxState: 400000}
		s.Classify = classify(self)
		s.Decide = astDecide(p, nil, "")
		kk := killKinds(p)
		s.OnBranch = func(st *State, cond *Term, taken bool) {
			kk(st, cond, taken)
			// lists of at most three parts
			n := 0
			for f, v := range st.facts {
				if v || f.Op != "bin" || f.Name != "==" {
					continue
				}
				for i := 0; i < 2; i++ {
					if a := f.Args[i]; f.Args[1-i] == tNil && a.Op == "field" && (a.Name == "Or" || a.Name == "And" || a.Name == "Concat" || a.Name == "Interleave") {
						n++
					}
				}
			}
			if n > 1 {
				st.Kill()
			}
		}
		s.Recursion = func(f *ssa.Function) bool {
			_, ls := patternParams(f)
			return relPkgOf(f) == "relapse/ast" || len(ls) > 0
		}
		return s
	}
	fieldRecord := boolFields(p, pkg)
	// what the recursive two pattern helpers mean
	for _, h := range helpers {
		h := h
		key := "simplify:" + fname(h)
		r.Count("simplifying functions", 1)
		r.guard(key, func() {
			boolParams := map[*Term]bool{}
			args := make([]*Term, len(h.Params))
			var pts []*Term
			for i, a := range h.Params {
				args[i] = mk("param", a.Name())
				args[i].Typ = a.Type()
				if isPatternPtr(a.Type()) != "" {
					pts = append(pts, args[i])
				}
				if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					boolParams[args[i]] = true
				}
			}
			ps, _ := patternParams(h)
			type ret struct {
				st  *State
				t   *Term
				pos tokenPos
			}
			var rets []ret
			s := mkSim(h)
			s.OnReturn = func(st *State, rs []*Term, pos tokenPos) { rets = append(rets, ret{st.clone(), rs[0], pos}) }
			s.Run(h, args, nil)
			r.Sim(key, s)
			type bad struct {
				msg string
				rt  ret
			}
			best := ""
			var bestBad []bad
			for _, op := range []string{"And", "Or", "Concat", "Interleave"} {
				specs[fname(h)] = op
				patAt[fname(h)] = ps
				cx := &simplifyCtx{p: p, r: r, key: key, specs: specs, patAt: patAt, isRecord: func(f *Term) bool { return boolParams[f] || fieldRecord(f) }}
				before := r.counts["rewrites"]
				var bads []bad
				for _, rt := range rets {
					rt := rt
					if best != "" && len(bads) > len(bestBad) {
						break
					}
					cx.compare(rt.st, rt.t, rt.pos, func(x *factReader) (*PE, error) {
						a, err := x.read(pts[0])
						if err != nil {
							return nil, err
						}
						b, err := x.read(pts[1])
						if err != nil {
							return nil, err
						}
						return pe(op, a, b), nil
					}, func(f string, a ...interface{}) { bads = append(bads, bad{fmt.Sprintf(f, a...), rt}) })
				}
				r.counts["rewrites"] = before
				if best == "" || len(bads) < len(bestBad) {
					best, bestBad = op, bads
				}
			}
			specs[fname(h)] = best
			r.counts["rewrites"] += len(rets)
			r.Sample("%s is %s", fname(h), best)
			if len(rets) == 0 {
				r.Fail(key, p.posOf(h.Pos()), "undecided: no path of %s returns", fname(h))
			}
			for _, b := range bestBad {
				r.FailTrace(key, p.posOf(b.rt.pos), b.rt.st.traceList(), "%s does not build the %s of its patterns: %s", fname(h), best, b.msg)
			}
		})
	}
	for _, w := range walkers {
		w := w
		r.Count("simplifying functions", 1)
		for _, k := range sortedNames(p.astKinds()) {
			k := k
			key := "simplify:" + fname(w) + ":" + k
			r.guard(key, func() {
				cl := classify(w)
				var errs []string
				astToPattern(p, r, key, w, k, specs, patAt, func(st *State, c *Call) Action {
					// the record option is passed on, not invented
					if c.Callee != nil && specs[fname(c.Callee)] != "" && specs[fname(c.Callee)] != "id" {
						for i, a := range c.Callee.Params {
							if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && i < len(c.Args) {
								if !c.Args[i].isFalse() && !fieldRecord(c.Args[i]) {
									errs = append(errs, fmt.Sprintf("%s is told to simplify for records by %s", fname(c.Callee), short(c.Args[i].String())))
								}
							}
						}
					}
					return cl(st, c)
				}, nil, fieldRecord)
				for _, e := range errs {
					r.Fail(key, p.posOf(w.Pos()), "%s", e)
				}
			})
		}
	}
}

func (p *Prog) simplifierEntry(pkg string) *ssa.Function {
	for _, n := range p.namedTypes() {
		if n.Obj().Pkg() == nil || rel(n.Obj().Pkg().Path()) != pkg {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if f := p.methodOf(n, "Simplify"); f != nil {
			return f
		}
	}
	failAnchor("no simplifier in %s", pkg)
	return nil
}
