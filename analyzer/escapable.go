package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Escape predicates: functions over a list of patterns that answer false only when no pattern can change any more
// (every one is the any-pattern or its negation).

func patternElem(t types.Type) string {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	n := named(sl.Elem())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Name() != "Pattern" {
		return ""
	}
	return rel(n.Obj().Pkg().Path())
}

func (st *State) factNonNil(t *Term) bool {
	n, ok := st.IsNil(t)
	return ok && !n
}

func inertElem(p *Prog, kind string) func(st *State, e *Term) string {
	zany := sym("none")
	not := sym("none")
	if kind == "relapse/intern" {
		zany = p.constOf("relapse/intern", "ZAny")
		not = p.constOf("relapse/intern", "Not")
	}
	return func(st *State, e *Term) string {
		if kind == "relapse/ast" {
			if st.factNonNil(tField(e, "ZAny")) {
				return "inert"
			}
			if st.factNonNil(tField(tField(tField(e, "Not"), "Pattern"), "ZAny")) {
				return "inert"
			}
			return ""
		}
		ty := tField(e, "Type")
		if v, ok := st.Fact(tEq(ty, zany)); ok && v {
			return "inert"
		}
		if v, ok := st.Fact(tEq(ty, not)); ok && v {
			in := tField(tIndex(tField(e, "Patterns"), tInt(0)), "Type")
			if v, ok := st.Fact(tEq(in, zany)); ok && v {
				return "inert"
			}
		}
		return ""
	}
}

func (p *Prog) constOf(pkg, name string) *Term {
	pk := p.ByRel[pkg]
	if pk == nil {
		failAnchor("package %s not found", pkg)
	}
	c, ok := pk.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		failAnchor("constant %s.%s not found", pkg, name)
	}
	return mk("const", c.Val().ExactString())
}

type escInfo struct {
	fns    map[*ssa.Function]bool
	fields map[string]bool // type.field
	bad    map[*ssa.Function]string
}

func fieldKey(t types.Type, name string) string {
	n := named(t)
	if n == nil || n.Obj().Pkg() == nil {
		return "?." + name
	}
	return rel(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + name
}

func isBoolOrBools(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsBoolean != 0
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Info()&types.IsBoolean != 0
		}
	}
	return false
}

func (p *Prog) escape() *escInfo {
	if p.esc != nil {
		return p.esc
	}
	e := &escInfo{fns: map[*ssa.Function]bool{}, fields: map[string]bool{}, bad: map[*ssa.Function]string{}}
	p.esc = e
	for _, f := range p.funcsIn(evalPkgs...) {
		sig := f.Signature
		if sig.Results().Len() != 1 || len(f.Params) != 1 || f.Parent() != nil {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			continue
		}
		k := patternElem(f.Params[0].Type())
		if k == "" {
			continue
		}
		seq := mk("param", f.Params[0].Name())
		res := simEach(p, f, nil, seq, inertElem(p, k), nil)
		ok := len(res.Errs) == 0 && res.Loops
		why := "it does not loop over the patterns"
		canFalse := false
		for _, o := range res.Out {
			v := o.Rets[0]
			if v.isTrue() {
				continue
			}
			canFalse = true
			if !o.Exhausted || len(o.Seen) > 1 || len(o.Seen) == 1 && !o.Seen["inert"] {
				ok = false
				why = "it can answer false although a pattern is neither the any-pattern nor its negation"
			}
		}
		if ok && canFalse {
			e.fns[f] = true
		} else {
			e.bad[f] = why
		}
	}
	// tables of answers: every store is an answer
	type store struct {
		key string
		val ssa.Value
	}
	var stores []store
	for _, f := range p.funcsIn(evalPkgs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isBoolOrBools(s.Val.Type()) {
					continue
				}
				u := fa.X.Type().Underlying().(*types.Pointer).Elem()
				k := fieldKey(u, u.Underlying().(*types.Struct).Field(fa.Field).Name())
				stores = append(stores, store{k, s.Val})
				e.fields[k] = true
			}
		}
	}
	var answer func(v ssa.Value, d int) bool
	answer = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value == nil || v.Value.ExactString() == "true"
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return answer(v.Call.Args[0], d+1) && answer(v.Call.Args[1], d+1)
			}
			if g := v.Call.StaticCallee(); g != nil {
				if e.fns[g] {
					return true
				}
				// a function that only returns answers
				if g.Blocks == nil || !inRepo(g) || g.Signature.Results().Len() != 1 {
					return false
				}
				n := 0
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						n++
						if !answer(r.Results[0], d+1) {
							return false
						}
					}
				}
				return n > 0
			}
			return false
		case *ssa.Slice:
			if al, ok := v.X.(*ssa.Alloc); ok {
				// the elements stored into the backing array
				n := 0
				for _, ref := range *al.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if s, ok := r2.(*ssa.Store); ok {
								n++
								if !answer(s.Val, d+1) {
									return false
								}
							}
						}
					}
				}
				at := al.Type().Underlying().(*types.Pointer).Elem().Underlying()
				if a, ok := at.(*types.Array); ok && int(a.Len()) != n {
					return a.Len() == 0
				}
				return true
			}
			return answer(v.X, d+1)
		case *ssa.MakeSlice:
			return false
		case *ssa.Phi:
			for _, x := range v.Edges {
				if x != v && !answer(x, d+1) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				u := a.X.Type().Underlying().(*types.Pointer).Elem()
				return e.fields[fieldKey(u, u.Underlying().(*types.Struct).Field(a.Field).Name())]
			case *ssa.IndexAddr:
				return answer(a.X, d+1)
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, s := range stores {
			if e.fields[s.key] && !answer(s.val, 0) {
				delete(e.fields, s.key)
				changed = true
			}
		}
	}
	// a field that only ever holds constants is no table of answers
	has := map[string]bool{}
	for _, s := range stores {
		if _, ok := s.val.(*ssa.Const); !ok {
			has[s.key] = true
		}
	}
	for k := range e.fields {
		if !has[k] {
			delete(e.fields, k)
		}
	}
	return e
}

func ruleEscapable(p *Prog, r *Report) {
	e := p.escape()
	for f := range e.fns {
		r.Count("early exit predicates", 1)
		r.Sample("early exit predicate %s", fname(f))
	}
	for k := range e.fields {
		r.Count("early exit tables", 1)
		r.Sample("early exit table %s", k)
	}
}

func init() {
	debugs["escape"] = func(p *Prog) {
		e := p.escape()
		for f, w := range e.bad {
			println("bad", fname(f), w)
			k := patternElem(f.Params[0].Type())
			res := simEach(p, f, nil, mk("param", f.Params[0].Name()), inertElem(p, k), nil)
			for _, x := range res.Errs {
				println("  err", x.Msg)
			}
			for _, o := range res.Out {
				print("   ", o.Rets[0].String(), o.Exhausted)
				for _, t := range o.St.traceList() {
					println("       ", t)
				}
				for k := range o.Seen {
					print(" ", k)
				}
				println()
			}
		}
		for k := range e.fields {
			println("field", k)
		}
	}
}
