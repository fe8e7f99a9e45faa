package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: whether the empty sequence of elements is accepted is computed the same way, and as the algebra says, by
// every implementation.

func init() { register("C02", "other", ruleNullable) }

// nullSpec: what nullability of each kind is, over the nullability of its children.
//
//	const T/F; all/any of the children; not of the child; child; ref
var nullSpec = map[string]string{
	"Empty": "T", "ZAny": "T", "ZeroOrMore": "T", "Optional": "T",
	"TreeNode": "F", "LeafNode": "F", "Node": "F",
	"Concat": "all", "And": "all", "Interleave": "all", "Or": "any",
	"Not": "not", "Contains": "child", "Reference": "ref",
}

func ruleNullable(p *Prog, r *Report) {
	r.Explain("For every pattern kind declared by the syntax tree, all paths of the tree walking nullability function are enumerated with the kind fixed, and the resulting truth table over the nullability of the children is compared with the algebra's definition. For the interned representation every construction of a pattern record is found and the value stored in its nullability field is compared with the definition for the kind stored beside it (all/any over exactly the stored children is decided by summarising the loop).")
	ruleNullableAst(p, r)
	ruleNullableIntern(p, r)
	ruleNullRefs(p, r)
	r.Expect("tree kinds", 13)
	r.Expect("interned constructions", 12)
	r.Expect("nullability readers", 2)
}

// nullableFuncs: functions from a table of references and an ast pattern to bool.
func (p *Prog) nullableAst() *ssa.Function { return p.Func("relapse/interp", "Nullable") }

func ruleNullableAst(p *Prog, r *Report) {
	fn := p.nullableAst()
	if len(fn.Params) != 2 {
		failAnchor("%s does not take a table and a pattern", fname(fn))
	}
	refs, pt := mk("param", fn.Params[0].Name()), mk("param", fn.Params[1].Name())
	kinds := p.astKinds()
	for _, k := range sortedNames(kinds) {
		k := k
		key := "nullable:" + fname(fn) + ":" + k
		r.guard(key, func() {
			spec, ok := nullSpec[k]
			if !ok {
				r.Fail(key, p.posOf(fn.Pos()), "undecided: unknown pattern kind %s", k)
				return
			}
			r.Count("tree kinds", 1)
			r.Sample("%s: %s is %s", fname(fn), k, spec)
			rows, errs, n := collectTruth(p, fn, nil, decideAstKind(pt, k, kinds), nil)
			r.Count("abstract states", n)
			for _, e := range errs {
				r.FailTrace(key, e.Where, e.Trace, "%s", e.Msg)
			}
			node := tField(pt, k)
			call := func(x *Term) *Term { return mk("call", fname(fn), refs, x) }
			var atoms []*Term
			for _, c := range p.childFields(kinds[k]) {
				atoms = append(atoms, call(tField(node, c)))
			}
			if spec == "ref" {
				atoms = []*Term{call(mk("lookup", "", refs, tField(node, "Name")))}
			}
			if spec == "T" || spec == "F" {
				atoms = nil
			}
			if len(rows) == 0 {
				r.Fail(key, p.posOf(fn.Pos()), "%s has no answer for a %s pattern", fname(fn), k)
				return
			}
			for _, b := range compareTruth(rows, atoms, func(asg map[*Term]bool) bool { return specValue(spec, atoms, asg) }) {
				r.Fail(key, p.posOf(rows[0].Pos), "nullability of %s: %s", k, b)
			}
		})
	}
}

func specValue(spec string, atoms []*Term, asg map[*Term]bool) bool {
	switch spec {
	case "T":
		return true
	case "F":
		return false
	case "all":
		for _, a := range atoms {
			if !asg[a] {
				return false
			}
		}
		return true
	case "any":
		for _, a := range atoms {
			if asg[a] {
				return true
			}
		}
		return false
	case "not":
		return !asg[atoms[0]]
	case "child", "ref":
		return asg[atoms[0]]
	}
	return false
}

// quantOf summarises a call of a boolean function over a list of interned patterns: all/any of field nullable.
func (p *Prog) quantOf(fn *ssa.Function) (string, string) {
	if len(fn.Params) != 1 {
		return "", "it does not take one list"
	}
	return p.quantArgs(fn, nil, mk("param", fn.Params[0].Name()))
}

func (p *Prog) quantArgs(fn *ssa.Function, args []*Term, seq *Term) (string, string) {
	cl := func(st *State, e *Term) string {
		if v, ok := st.Fact(tField(e, "nullable")); ok {
			if v {
				return "T"
			}
			return "F"
		}
		return ""
	}
	res := simEach(p, fn, args, seq, cl, nil)
	return res.quantifier(0)
}

func ruleNullableIntern(p *Prog, r *Report) {
	pat := p.Type("relapse/intern", "Pattern")
	kinds := p.internKinds()
	kindOf := map[*Term]string{}
	for k, t := range kinds {
		kindOf[t] = k
		if _, ok := nullSpec[k]; !ok {
			r.Fail("nullable:intern:"+k, "-", "undecided: unknown interned pattern kind %s", k)
		}
	}
	seenKind := map[string]bool{}
	// every allocation of an interned pattern
	for _, f := range p.Funcs {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				if n := named(al.Type()); n == nil || n.Obj() != pat.Obj() {
					continue
				}
				if _, ok := al.Type().(*types.Pointer).Elem().(*types.Named); !ok {
					continue
				}
				stores := allocStores(al)
				if len(stores["Type"]) == 0 {
					if isCopyBuffer(al) {
						continue
					}
					r.Fail("nullable:"+fname(f), p.posOf(al.Pos()), "undecided: an interned pattern is built without a kind in %s", fname(f))
					continue
				}
				for _, tv := range stores["Type"] {
					c, ok := tv.(*ssa.Const)
					k := ""
					if ok {
						k = kindOf[constTerm(c)]
					}
					if k == "" {
						r.Fail("nullable:"+fname(f), p.posOf(al.Pos()), "undecided: the kind of an interned pattern built in %s is not a constant", fname(f))
						continue
					}
					seenKind[k] = true
					key := "nullable:" + fname(f) + ":" + k
					r.Count("interned constructions", 1)
					r.Sample("%s builds %s: nullable is %s", fname(f), k, nullSpec[k])
					checkInternNullable(p, r, key, f, al, k, stores)
				}
			}
		}
	}
	for k := range kinds {
		if !seenKind[k] {
			r.Fail("nullable:intern:"+k, "-", "undecided: no construction of the interned kind %s was found", k)
		}
	}
	// the fields are not written after construction
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := named(fa.X.Type())
				if n == nil || n.Obj() != pat.Obj() {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				nm := n.Underlying().(*types.Struct).Field(fa.Field).Name()
				if nm == "nullable" || nm == "Type" || nm == "Patterns" {
					r.Fail("nullable:"+fname(f), p.posOf(s.Pos()), "%s changes field %s of an interned pattern after it was built", fname(f), nm)
				}
			}
		}
	}
	// readers of the field answer for the pattern asked about
	for _, f := range p.funcsIn("relapse/intern") {
		sig := f.Signature
		if sig.Recv() == nil || sig.Results().Len() != 1 || named(sig.Recv().Type()) == nil || named(sig.Recv().Type()).Obj() != pat.Obj() || sig.Params().Len() != 0 {
			continue
		}
		if f.Name() != "Nullable" {
			continue
		}
		rows, errs, _ := collectTruth(p, f, nil, nil, nil)
		for _, e := range errs {
			r.Fail("nullable:"+fname(f), e.Where, "%s", e.Msg)
		}
		r.Count("nullability readers", 1)
		atom := tField(mk("param", f.Params[0].Name()), "nullable")
		for _, b := range compareTruth(rows, []*Term{atom}, func(a map[*Term]bool) bool { return a[atom] }) {
			r.Fail("nullable:"+fname(f), p.posOf(f.Pos()), "%s %s", fname(f), b)
		}
	}
	r.guard("nullable:vectors", func() { ruleNullVectors(p, r) })
}

// allocStores lists the values stored in the fields of a freshly allocated struct.
func allocStores(al *ssa.Alloc) map[string][]ssa.Value {
	out := map[string][]ssa.Value{}
	u, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
				n := u.Field(fa.Field).Name()
				out[n] = append(out[n], s.Val)
			}
		}
	}
	return out
}

// isCopyBuffer: a local that only receives whole-struct copies (for example of *p, to print it).
func isCopyBuffer(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == al {
				return true
			}
		}
	}
	return false
}

func checkInternNullable(p *Prog, r *Report, key string, f *ssa.Function, al *ssa.Alloc, k string, stores map[string][]ssa.Value) {
	spec := nullSpec[k]
	pos := p.posOf(al.Pos())
	vals := stores["nullable"]
	constIs := func(v ssa.Value, want string) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.ExactString() == want
	}
	one := func() ssa.Value {
		if len(vals) == 1 {
			return vals[0]
		}
		return nil
	}
	v := one()
	var ps ssa.Value
	if x := stores["Patterns"]; len(x) == 1 {
		ps = x[0]
	}
	switch spec {
	case "T":
		if v == nil || !constIs(v, "true") {
			r.Fail(key, pos, "a %s pattern must be nullable", k)
		}
	case "F":
		if v != nil && !constIs(v, "false") || len(vals) > 1 {
			r.Fail(key, pos, "a %s pattern must not be nullable", k)
		}
	case "all", "any":
		if v == nil || ps == nil {
			r.Fail(key, pos, "undecided: the nullability of a %s pattern is not a function of its children", k)
			return
		}
		got, why := p.quantValue(v, ps)
		if got == "" {
			r.Fail(key, pos, "undecided: the nullability of a %s pattern: %s", k, why)
		} else if got != spec {
			r.Fail(key, pos, "a %s pattern is nullable when %s of its children are: it must be %s", k, got, spec)
		}
	case "not", "child":
		// children [c], value (not) c.nullable
		child := singleElem(ps)
		if child == nil {
			r.Fail(key, pos, "undecided: the child of a %s pattern", k)
			return
		}
		// notzany: constants
		if v == nil || isConstBool(v) {
			// the child is a known package level pattern
			want := spec == "not"
			cn, ok := constNullable(p, child)
			if !ok {
				r.Fail(key, pos, "undecided: a %s pattern is built with a constant nullability", k)
				return
			}
			if want {
				cn = !cn
			}
			got := v != nil && constIs(v, "true")
			if got != cn {
				r.Fail(key, pos, "a %s pattern has the wrong constant nullability", k)
			}
			return
		}
		neg := false
		for {
			if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "!" {
				neg = !neg
				v = u.X
				continue
			}
			break
		}
		base, fld := loadField(v)
		if fld == "" {
			if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Nullable" && len(c.Call.Args) == 1 {
				base, fld = c.Call.Args[0], "nullable"
			}
		}
		if fld != "nullable" || base != child {
			r.Fail(key, pos, "the nullability of a %s pattern is not that of its child", k)
			return
		}
		if neg != (spec == "not") {
			r.Fail(key, pos, "the nullability of a %s pattern is inverted", k)
		}
	case "ref":
		// the answer of the table of references for the name stored in Ref
		ex, ok := v.(*ssa.Extract)
		var lk *ssa.Lookup
		if ok && ex.Index == 0 {
			lk, _ = ex.Tuple.(*ssa.Lookup)
		} else if l, ok := v.(*ssa.Lookup); ok {
			lk = l
		}
		if lk == nil {
			r.Fail(key, pos, "undecided: the nullability of a reference does not come from the table of references")
			return
		}
		if rv := stores["Ref"]; len(rv) != 1 || rv[0] != lk.Index {
			r.Fail(key, pos, "the nullability of a reference is looked up under another name than the one stored")
		}
		if _, fld := loadField(lk.X); fld == "" {
			r.Fail(key, pos, "undecided: the nullability of a reference does not come from the table of references")
		}
	}
}

func isConstBool(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

func loadField(v ssa.Value) (ssa.Value, string) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return nil, ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, ""
	}
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return fa.X, st.Field(fa.Field).Name()
}

// singleElem: the element of a one element slice literal.
func singleElem(v ssa.Value) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() != 1 {
		return nil
	}
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if s, ok := r2.(*ssa.Store); ok {
					return s.Val
				}
			}
		}
	}
	return nil
}

// constNullable: the nullability of a package level pattern, read from its only initialisation.
func constNullable(p *Prog, v ssa.Value) (bool, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false, false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false, false
	}
	init := g.Pkg.Func("init")
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if al, ok := s.Val.(*ssa.Alloc); ok {
					for _, x := range allocStores(al)["nullable"] {
						if c, ok := x.(*ssa.Const); ok {
							return c.Value.ExactString() == "true", true
						}
					}
					return false, true
				}
			}
		}
	}
	return false, false
}

// quantValue decides what boolean over the nullability of the elements of ps the value is.
func (p *Prog) quantValue(v ssa.Value, ps ssa.Value) (string, string) {
	neg := false
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "!" {
			neg = !neg
			v = u.X
			continue
		}
		break
	}
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return "", "it is not computed by a function of the children"
	}
	g := c.Call.StaticCallee()
	var args []*Term
	var seq *Term
	for i, a := range c.Call.Args {
		if a == ps {
			seq = mk("param", g.Params[i].Name())
			args = append(args, seq)
			continue
		}
		switch a := a.(type) {
		case *ssa.Function:
			t := mk("func", fname(a))
			t.Fn = a
			args = append(args, t)
		case *ssa.MakeClosure:
			if len(a.Bindings) > 0 {
				args = append(args, nil)
				continue
			}
			t := mk("func", fname(a.Fn.(*ssa.Function)))
			t.Fn = a.Fn.(*ssa.Function)
			args = append(args, t)
		default:
			args = append(args, nil)
		}
	}
	if seq == nil {
		return "", "it is not computed of the children that are stored"
	}
	q, why := p.quantArgs(g, args, seq)
	if q == "" {
		return "", fname(g) + ": " + why
	}
	if neg {
		return "not " + q, ""
	}
	return q, ""
}

// ruleNullRefs: the table of the nullability of references holds the answer of the nullability function for the
// same name.
func ruleNullRefs(p *Prog, r *Report) {
	fn := p.nullableAst()
	n := 0
	for _, f := range p.funcsIn("relapse/intern") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt := mu.Map.Type().Underlying().(*types.Map)
				if e, ok := mt.Elem().Underlying().(*types.Basic); !ok || e.Info()&types.IsBoolean == 0 {
					continue
				}
				if e, ok := mt.Key().Underlying().(*types.Basic); !ok || e.Info()&types.IsString == 0 {
					continue
				}
				n++
				r.Count("nullability readers", 1)
				key := "nullable:" + fname(f) + ":refs"
				c, ok := mu.Value.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != fn {
					r.Fail(key, p.posOf(mu.Pos()), "the table of the nullability of references is filled with something else than the nullability of the referenced pattern")
					continue
				}
				// key and pattern come from the same iteration, or the pattern is looked up under the key
				same := false
				pv := c.Call.Args[1]
				if k, ok := mu.Key.(*ssa.Extract); ok {
					if v, ok := pv.(*ssa.Extract); ok && v.Tuple == k.Tuple && k.Index == 1 && v.Index == 2 {
						nx := k.Tuple.(*ssa.Next)
						if rg, ok := nx.Iter.(*ssa.Range); ok && rg.X == c.Call.Args[0] {
							same = true
						}
					}
				}
				if lk, ok := pv.(*ssa.Lookup); ok && lk.Index == mu.Key && lk.X == c.Call.Args[0] {
					same = true
				}
				if !same {
					r.Fail(key, p.posOf(mu.Pos()), "undecided: the name and the pattern of an entry of the table of nullability are not those of one reference")
				}
			}
		}
	}
	if n == 0 {
		r.Fail("nullable:refs", "-", "undecided: no table of the nullability of references was found")
	}
}

// ruleNullVectors: functions that turn a list of patterns into the vector of their nullability keep the positions.
func ruleNullVectors(p *Prog, r *Report) {
	for _, f := range p.funcsIn(evalPkgs...) {
		if f.Parent() != nil {
			continue
		}
		var seq *Term
		for _, x := range f.Params {
			if patternElem(x.Type()) != "" {
				seq = mk("param", x.Name())
			}
		}
		if seq == nil || f.Signature.Results().Len() != 1 {
			continue
		}
		rt := typeKey(f.Signature.Results().At(0).Type())
		if rt != "[]bool" && !strings.HasSuffix(rt, "sets.Bits") {
			continue
		}
		f := f
		key := "nullable:" + fname(f)
		r.guard(key, func() {
			r.Count("nullability vectors", 1)
			r.Sample("nullability vector %s", fname(f))
			nstores := 0
			s := &Sim{P: p, NoHavoc: true}
			null := p.nullableAst()
			isNull := func(v *Term, i *Term) bool {
				e := tIndex(seq, i)
				if v == tField(e, "nullable") {
					return true
				}
				return v.Op == "call" && v.Name == fname(null) && len(v.Args) == 2 && v.Args[1] == e
			}
			s.Classify = func(st *State, c *Call) Action {
				if c.Callee == null {
					return Pure
				}
				if c.Callee != nil && c.Callee.Signature.Recv() != nil && relPkgOf(c.Callee) == "relapse/sets" {
					return Event
				}
				if c.Callee != nil && relPkgOf(c.Callee) == "relapse/sets" {
					return Opaque
				}
				return Inline
			}
			check := func(st *State, i, v *Term, pos tokenPos) {
				nstores++
				// the index may be given as an int conversion
				if i.Op == "conv" {
					i = i.Args[0]
				}
				if !isNull(v, i) {
					st.Fail(pos, "position %s gets %s instead of the nullability of the pattern at that position", i, short(v.String()))
				}
			}
			s.OnEvent = func(st *State, c *Call) {
				if c.Callee.Name() == "Set" && len(c.Args) == 3 {
					check(st, c.Args[1], st.Resolve(c.Args[2]), c.Instr.Pos())
				}
				c.Result = st.freshRes(c.Instr.(*ssa.Call), c)
			}
			s.OnStore = func(st *State, addr, v *Term, in ssa.Instruction) {
				if addr.Op == "ia" && addr.Args[0].Op == "makeslice" {
					check(st, addr.Args[1], st.Resolve(v), in.Pos())
				}
				if addr.Op == "appendaddr" && v.Op == "list" && len(v.Args) == 1 {
					nstores++
					if x := v.Args[0]; !(x.any(func(t *Term) bool {
						return t.Op == "field" && t.Name == "nullable" || t.Op == "call" && t.Name == fname(null)
					})) {
						st.Fail(in.Pos(), "a vector of nullability gets %s", short(x.String()))
					}
				}
			}
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {}
			s.Run(f, nil, nil)
			r.Sim(key, s)
			if nstores == 0 {
				r.Fail(key, p.posOf(f.Pos()), "undecided: %s stores no nullability", fname(f))
			}
		})
	}
	r.Expect("nullability vectors", 3)
}
