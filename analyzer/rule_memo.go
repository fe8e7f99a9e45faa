package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C07", "other", memoRule) }

// memoRule: what is looked up in a cache depends only on the key.
func memoRule(p *Prog, r *Report) {
	r.Explain("Every function that fills or reads a cache of an evaluator is followed path by path through short histories of calls with equal and different keys, starting from what its constructor builds. The provenance of the result (which patterns, which bits, which indexes it was derived from) has to be the one the same key has when it is asked first. Sets are followed through histories of additions: an index stands for equal values only, equal values have one index, and what was added before stays.")
	r.guard("mem", func() { memoType(p, r, "relapse/mem", "Mem") })
	r.guard("auto", func() { memoType(p, r, "relapse/auto", "compiler") })
	r.guard("sets", func() { memoSets(p, r) })
	r.guard("states", func() { memoStates(p, r) })
	r.Expect("histories", 300)
	r.Expect("caching functions", 7)
	r.Expect("sets", 4)
	r.Assume("Deriving, zipping, hashing and comparing have no effect on caches and return the same for the same arguments (C03, C04, C08, C28).")
}

// memoRoots finds the functions of a package that take the caching object and otherwise only integers.
func memoRoots(p *Prog, pkg string, n *types.Named) (roots []*ssa.Function) {
	pt := types.NewPointer(n)
	isCand := func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Params) < 2 || f.Signature.Results().Len() == 0 {
			return false
		}
		if !types.Identical(f.Params[0].Type(), pt) {
			return false
		}
		for _, a := range f.Params[1:] {
			if !isIntType(a.Type()) {
				return false
			}
		}
		return f.Signature.Results().At(0).Type().String() != "error"
	}
	cands := map[*ssa.Function]bool{}
	for _, f := range p.funcsIn(pkg) {
		if isCand(f) {
			cands[f] = true
		}
	}
	for _, f := range p.funcsIn(pkg) {
		if cands[f] {
			continue
		}
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil && cands[g] && f.Parent() == nil {
				dup := false
				for _, x := range roots {
					dup = dup || x == g
				}
				if !dup {
					roots = append(roots, g)
				}
			}
		}
	}
	return roots
}

// memoSim follows only functions that work on the caching object; everything else is a value of its arguments.
func memoSim(p *Prog, pkg string, n *types.Named, obj *Term) *Sim {
	pt := types.NewPointer(n)
	s := &Sim{P: p, NoHavoc: true, Unroll: true, Maps: true, MaxDepth: 30, MaxState: 60000}
	s.Classify = func(st *State, c *Call) Action {
		pure := func() Action {
			as := c.Args
			if c.Method != nil {
				as = append([]*Term{c.Recv}, as...)
			}
			rs := make([]*Term, len(as))
			for i, a := range as {
				busy := map[*Term]bool{}
				if obj != nil {
					busy[obj] = true
				}
				rs[i] = st.resolve(a, busy, 0)
				if obj != nil && a != obj && rootOf(strip(a)) == obj {
					rs[i] = strip(a)
				}
			}
			t := mk("call", c.Name(), rs...)
			if c.NRes > 1 {
				xs := make([]*Term, c.NRes)
				for i := range xs {
					xs[i] = mk("extract", fmt.Sprint(i), t)
				}
				t = mk("tuple", "", xs...)
			}
			c.Result = t
			return Pure
		}
		if c.Callee == nil || relPkgOf(c.Callee) != pkg {
			return pure()
		}
		if c.Callee.Parent() != nil || isCondition(c.Callee) {
			return Inline
		}
		has := false
		for _, a := range c.Callee.Params {
			if types.Identical(a.Type(), pt) {
				has = true
			} else if !isIntType(a.Type()) {
				if b, ok := a.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
					return pure()
				}
			}
		}
		if has {
			return Inline
		}
		return pure()
	}
	return s
}

// isCondition: a function that only gives a condition a name.
func isCondition(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || f.Signature.Results().Len() != 1 {
		return false
	}
	if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for _, c := range callsIn(f) {
		if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
			return false
		}
	}
	return true
}

func memoType(p *Prog, r *Report, pkg, typ string) {
	n := p.Type(pkg, typ)
	pt := types.NewPointer(n)
	var ctor *ssa.Function
	for _, f := range p.funcsIn(pkg) {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || !types.Identical(f.Signature.Results().At(0).Type(), pt) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(a.Type(), pt) {
					ctor = f
				}
			}
		}
	}
	if ctor == nil {
		failAnchor("constructor of %s.%s", pkg, typ)
	}
	roots := memoRoots(p, pkg, n)
	if len(roots) == 0 {
		failAnchor("caching functions of %s.%s", pkg, typ)
	}
	s := memoSim(p, pkg, n, nil)
	args := make([]*Term, len(ctor.Params))
	for i, a := range ctor.Params {
		args[i] = sym(a.Name())
	}
	made := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if len(rets) > 1 && rets[1] != tNil {
			return
		}
		if rets[0].Op != "alloc" || made > 3 {
			return
		}
		made++
		for _, f := range roots {
			if made == 1 {
				r.Count("caching functions", 1)
			}
			memoHistories(p, r, pkg, n, f, rets[0], st, made == 1)
		}
	}
	s.Run(ctor, args, nil)
	r.Sim(pkg+":"+fname(ctor), s)
	if made == 0 {
		r.Fail(pkg+":"+fname(ctor), p.posOf(ctor.Pos()), "undecided: no path makes a %s", typ)
	}
}

func memoHistories(p *Prog, r *Report, pkg string, n *types.Named, f *ssa.Function, obj *Term, from *State, full bool) {
	key := pkg + ":" + fname(f)
	nk := len(f.Params) - 1
	dom := []int64{0, 1}
	if nk == 1 {
		dom = []int64{0, 1, 2, 5}
	} else if nk == 2 {
		dom = []int64{0, 1, 3}
	}
	var keys [][]int64
	var gen func(k []int64)
	gen = func(k []int64) {
		if len(k) == nk {
			keys = append(keys, append([]int64{}, k...))
			return
		}
		for _, d := range dom {
			gen(append(k, d))
		}
	}
	gen(nil)
	errs := map[string]bool{}
	fail := func(pos tokenPos, trace []string, msg string) {
		if !errs[msg] {
			errs[msg] = true
			r.FailTrace(key, p.posOf(pos), trace, "%s", msg)
		}
	}
	// run calls f with a key in a state
	run := func(from *State, k []int64, ret func(st *State, rets []*Term, pos tokenPos)) {
		s := memoSim(p, pkg, n, obj)
		got := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			got++
			rs := make([]*Term, len(rets))
			for i, t := range rets {
				rs[i] = st.resolve(t, map[*Term]bool{obj: true}, 0)
			}
			ret(st, rs, pos)
		}
		s.OnPanic = nil
		args := []*Term{obj}
		for _, x := range k {
			args = append(args, tInt(x))
		}
		s.Run(f, args, carry(from, obj))
		r.Sim(key, s)
		if got == 0 && len(s.Errs) == 0 {
			fail(f.Pos(), nil, fmt.Sprintf("undecided: no path returns for the key %v", k))
		}
	}
	first := map[string][][]*Term{}
	for _, k := range keys {
		k := k
		ks := fmt.Sprint(k)
		run(from, k, func(st *State, rets []*Term, pos tokenPos) {
			first[ks] = append(first[ks], rets)
			r.Count("histories", 1)
		})
		if full {
			r.Sample("%s%v = %s", fname(f), k, short(fmt.Sprint(first[ks])))
		}
	}
	in := func(rets []*Term, set [][]*Term) bool {
		for _, x := range set {
			same := true
			for i := range x {
				same = same && x[i] == rets[i]
			}
			if same {
				return true
			}
		}
		return false
	}
	// two different keys have different answers, when the first is asked
	for i, a := range keys {
		for _, b := range keys[i+1:] {
			for _, x := range first[fmt.Sprint(a)] {
				if !isErrRet(x) && in(x, first[fmt.Sprint(b)]) && !constRet(x) {
					fail(f.Pos(), nil, fmt.Sprintf("the answer for %v does not tell it from %v: %s", a, b, short(x[0].String())))
				}
			}
		}
	}
	depth := 2
	if r.Tier == "thorough" {
		depth = 3
	}
	var follow func(from *State, hist string, d int)
	follow = func(from *State, hist string, d int) {
		for _, k := range keys {
			k := k
			run(from, k, func(st *State, rets []*Term, pos tokenPos) {
				h := hist + fmt.Sprint(k)
				if d > 1 {
					r.Count("histories", 1)
					if !in(rets, first[fmt.Sprint(k)]) {
						fail(pos, st.traceList(), fmt.Sprintf("after %s, %v is answered with %s", hist, k, short(fmt.Sprint(rets))))
					}
				}
				if d < depth {
					follow(st, h, d+1)
				}
			})
			if len(errs) > 4 {
				return
			}
		}
	}
	if full {
		follow(from, "", 1)
	}
}

func isErrRet(rets []*Term) bool {
	return len(rets) > 1 && rets[len(rets)-1] != tNil
}

func constRet(rets []*Term) bool {
	for _, t := range rets {
		if !t.isConst() && t != tNil {
			return false
		}
	}
	return true
}

// ---- sets ----

// memoSets: the sets of package sets give equal values one index, and never change what they hold.
func memoSets(p *Prog, r *Report) {
	for _, n := range p.namedTypes() {
		if n.Obj().Pkg() == nil || rel(n.Obj().Pkg().Path()) != "relapse/sets" {
			continue
		}
		sl, ok := n.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		add := p.MethodOpt("relapse/sets", n.Obj().Name(), "Add")
		if add == nil || len(add.Params) != 2 || !types.Identical(add.Params[1].Type(), sl.Elem()) {
			continue
		}
		r.Count("sets", 1)
		memoSet(p, r, n, sl.Elem(), add)
	}
}

// setValue makes a symbolic element of a set with parts of known shape.
func setValue(t types.Type, name string, shape int) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return listOf(sym(name), shape)
	case *types.Struct:
		var kvs []*Term
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			var v *Term
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				_ = sl
				v = listOf(mk("field", f.Name(), sym(name)), shape/2)
			} else if f.Name() == "size" {
				v = tInt(int64(10 + shape))
			} else {
				v = mk("field", f.Name(), sym(name))
			}
			kvs = append(kvs, mk("kv", f.Name(), v))
		}
		return mk("new", typeKey(t), kvs...)
	}
	return nil
}

// leaves lists the parts of a value that decide whether it equals another of the same shape.
func leaves(t *Term) []*Term {
	switch t.Op {
	case "list":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, leaves(a)...)
		}
		return append(r, tInt(int64(len(t.Args))))
	case "new":
		var r []*Term
		for _, kv := range t.Args {
			r = append(r, leaves(kv.Args[0])...)
		}
		return r
	}
	return []*Term{t}
}

// knownEqual tells what a path knows about the equality of two values.
func knownEqual(st *State, a, b *Term) (eq, known bool) {
	if v, ok := st.Fact(tEq(a, b)); ok {
		return v, true
	}
	la, lb := leaves(a), leaves(b)
	if len(la) != len(lb) {
		return false, true
	}
	eq, known = true, true
	for i := range la {
		if la[i] == lb[i] {
			continue
		}
		v, ok := st.Fact(tEq(la[i], lb[i]))
		if !ok {
			for f, fv := range st.facts {
				if f.Op == "call" && strings.HasSuffix(f.Name, ".Equal") && len(f.Args) == 2 && (f.Args[0] == la[i] && f.Args[1] == lb[i] || f.Args[0] == lb[i] && f.Args[1] == la[i]) {
					v, ok = fv, true
				}
			}
		}
		if !ok {
			eq, known = false, false
			continue
		}
		if !v {
			return false, true
		}
	}
	return eq, known
}

func memoSet(p *Prog, r *Report, n *types.Named, elem types.Type, add *ssa.Function) {
	key := fname(add)
	shapes := []int{0, 1, 2}
	maxAdds := 3
	type run struct{ vals []*Term }
	obj := sym("set:" + n.Obj().Name())
	var follow func(from *State, held []*Term, d int)
	follow = func(from *State, held []*Term, d int) {
		for _, sh := range shapes {
			val := setValue(elem, fmt.Sprintf("v%d", d), sh)
			if val == nil {
				r.Fail(key, p.posOf(add.Pos()), "undecided: elements of type %s", elem)
				return
			}
			s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 30, MaxState: 100000}
			s.Classify = func(st *State, c *Call) Action {
				if c.Callee != nil && relPkgOf(c.Callee) == "relapse/sets" {
					return Inline
				}
				return Pure
			}
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				r.Count("histories", 1)
				now := st.snapshot(st.Load(obj, n))
				if now.Op != "list" {
					st.Fail(pos, "undecided: the set is %s", short(now.String()))
					return
				}
				idx, ok := intOf(rets[0])
				if !ok || idx < 0 || int(idx) >= len(now.Args) {
					st.Fail(pos, "the index is %s, the set has %d elements", short(rets[0].String()), len(now.Args))
					return
				}
				for i, h := range held {
					if i >= len(now.Args) || st.Resolve(now.Args[i]) != h {
						st.Fail(pos, "what was added before is changed")
						return
					}
				}
				at := st.Resolve(now.Args[idx])
				if int(idx) < len(held) {
					if eq, known := knownEqual(st, at, val); !eq || !known {
						st.Fail(pos, "the index of %s is returned for %s, which is not known to be equal", short(at.String()), short(val.String()))
					}
				} else {
					if at != val {
						st.Fail(pos, "%s is added in place of %s", short(at.String()), short(val.String()))
					}
					if len(now.Args) != len(held)+1 {
						st.Fail(pos, "%d elements are added", len(now.Args)-len(held))
					}
					for _, h := range held {
						if eq, known := knownEqual(st, h, val); eq || !known {
							st.Fail(pos, "%s is added again, it may equal %s", short(val.String()), short(h.String()))
						}
					}
				}
				if d+1 < maxAdds {
					follow(st, append(append([]*Term{}, held...), now.Args[len(held):]...), d+1)
				}
			}
			s.Run(add, []*Term{obj, val}, func(st *State) {
				if from == nil {
					st.StoreTo(obj, mk("list", ""), n)
				} else {
					carry(from, obj)(st)
				}
				st.Data["val"] = val
				for i, h := range held {
					st.Data[fmt.Sprint("held", i)] = h
				}
			})
			r.Sim(key, s)
		}
	}
	follow(nil, nil, 0)
}

// memoStates: the states of the memoizing evaluator. Every entry describes its own patterns.
func memoStates(p *Prog, r *Report) {
	add := p.Method("relapse/intern", "SetOfPatterns", "Add")
	get := p.Method("relapse/intern", "SetOfPatterns", "Get")
	n := p.Type("relapse/intern", "SetOfPatterns")
	pat := types.NewPointer(p.Type("relapse/intern", "Pattern"))
	lt := types.NewSlice(pat)
	pt := types.NewPointer(n)
	var ctor *ssa.Function
	for _, f := range p.funcsIn("relapse/intern") {
		if f.Parent() == nil && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), pt) {
			ctor = f
		}
	}
	if ctor == nil {
		failAnchor("constructor of intern.SetOfPatterns")
	}
	key := "states:" + fname(add)
	zipped := func(ps *Term) (pats, idxs *Term) {
		if ps.Op == "field" && ps.Name == "Patterns" && ps.Args[0].Op == "zip" {
			return ps, mk("field", "Indexes", mk("zip", "", ps))
		}
		z := mk("zip", "", ps)
		return mk("field", "Patterns", z), mk("field", "Indexes", z)
	}
	hashOf := func(ps *Term) *Term { return mk("hashof", "", ps) }
	eqOf := func(a, b *Term) *Term {
		if a.id > b.id {
			a, b = b, a
		}
		return mk("eqlist", "", a, b)
	}
	isList := func(t types.Type) bool { return types.Identical(t, lt) }
	newSim := func() *Sim {
		s := &Sim{P: p, NoHavoc: true, Unroll: true, Maps: true, MaxDepth: 30, MaxState: 60000, Recursion: func(*ssa.Function) bool { return true }}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee == nil || relPkgOf(c.Callee) != "relapse/intern" {
				return Pure
			}
			sg := c.Callee.Signature
			switch {
			case sg.Recv() == nil && sg.Params().Len() == 1 && isList(sg.Params().At(0).Type()) && sg.Results().Len() == 1:
				a := st.Resolve(c.Args[0])
				switch rt := sg.Results().At(0).Type(); {
				case rt.String() == "uint64":
					c.Result = hashOf(a)
				case rt.String() == "bool":
					c.Result = mk("escapable", c.Name(), a)
				case named2(rt) != nil && named2(rt).Obj().Name() == "ZippedPatterns":
					ps, is := zipped(a)
					c.Result = mk("new", "zipped", mk("kv", "Patterns", ps), mk("kv", "Indexes", is))
				case named2(rt) != nil && named2(rt).Obj().Name() == "Bits":
					c.Result = mk("bits", "", a)
				}
				return Pure
			case sg.Params().Len() == 2 && isList(sg.Params().At(0).Type()) && isList(sg.Params().At(1).Type()) && sg.Results().Len() == 1 && sg.Results().At(0).Type().String() == "bool":
				c.Result = eqOf(st.Resolve(c.Args[0]), st.Resolve(c.Args[1]))
				return Pure
			}
			if sg.Recv() != nil && types.Identical(sg.Recv().Type(), pat) {
				return Pure
			}
			return Inline
		}
		s.OnBranch = func(st *State, c *Term, taken bool) {
			// the same list equals itself, and equal lists have equal hashes
			if c.Op == "eqlist" {
				if c.Args[0] == c.Args[1] && !taken {
					st.Kill()
				}
				if v, ok := st.Fact(tEq(hashOf(c.Args[0]), hashOf(c.Args[1]))); ok && !v && taken {
					st.Kill()
				}
			}
		}
		return s
	}
	// entry checks what the state at index i says about itself.
	var check func(st *State, obj *Term, list *Term, pos tokenPos)
	fld := func(st *State, e *Term, name string, t types.Type) *Term { return st.Load(tFA(e, name), t) }
	ent := p.Type("relapse/intern", "Patterns").Underlying().(*types.Struct)
	ft := map[string]types.Type{}
	for i := 0; i < ent.NumFields(); i++ {
		ft[ent.Field(i).Name()] = ent.Field(i).Type()
	}
	for _, f := range []string{"Patterns", "Index", "Escapable", "Accept", "NullIndex", "IndexOfZippedPatterns", "IndexOfZippedIndexes"} {
		if ft[f] == nil {
			failAnchor("field %s of intern.Patterns", f)
		}
	}
	addedTo := func(t *Term, field string, obj, val *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Name, ".Add") && len(t.Args) == 2 && t.Args[1] == val
	}
	check = func(st *State, obj, list *Term, pos tokenPos) {
		for i, e := range list.Args {
			r.Count("entries of states", 1)
			ps := st.Resolve(fld(st, e, "Patterns", ft["Patterns"]))
			if x := fld(st, e, "Index", ft["Index"]); x != tInt(int64(i)) {
				st.Fail(pos, "Index of the entry at %d is %s", i, short(x.String()))
			}
			if x := st.Resolve(fld(st, e, "NullIndex", ft["NullIndex"])); !addedTo(x, "", obj, mk("bits", "", ps)) {
				st.Fail(pos, "NullIndex of an entry is %s and not that of its patterns", short(x.String()))
			}
			if x := fld(st, e, "Escapable", ft["Escapable"]); x.Op != "escapable" || x.Args[0] != ps {
				st.Fail(pos, "Escapable of an entry is %s and not that of its patterns", short(x.String()))
			}
			one, known := st.Fact(tEq(tLen(ps), tInt(1)))
			acc := st.Resolve(fld(st, e, "Accept", ft["Accept"]))
			okAcc := acc.isFalse() && known && !one
			if known && one {
				nl := tField(tIndex(ps, tInt(0)), "nullable")
				isNl := func(t *Term) bool {
					return t == nl || t.Op == "call" && strings.HasSuffix(t.Name, ".Nullable") && len(t.Args) == 1 && t.Args[0] == tIndex(ps, tInt(0))
				}
				okAcc = isNl(acc)
				for f, v := range st.facts {
					if isNl(f) && (v && acc.isTrue() || !v && acc.isFalse()) {
						okAcc = true
					}
				}
			}
			if v, ok := st.Fact(tField(tIndex(ps, tInt(0)), "nullable")); ok && !v && acc.isFalse() {
				okAcc = true
			}
			if !okAcc {
				st.Fail(pos, "Accept of an entry with patterns %s is %s", short(ps.String()), short(acc.String()))
			}
			zp, zi := zipped(ps)
			j, ok := intOf(fld(st, e, "IndexOfZippedPatterns", ft["IndexOfZippedPatterns"]))
			if !ok || j < 0 || int(j) >= len(list.Args) {
				st.Fail(pos, "IndexOfZippedPatterns of an entry is not an index of a state")
			} else {
				at := st.Resolve(fld(st, list.Args[j], "Patterns", ft["Patterns"]))
				if v, ok := st.Fact(eqOf(at, zp)); at != zp && !(ok && v) {
					st.Fail(pos, "IndexOfZippedPatterns of %s is the state of %s", short(ps.String()), short(at.String()))
				}
			}
			if x := st.Resolve(fld(st, e, "IndexOfZippedIndexes", ft["IndexOfZippedIndexes"])); !addedTo(x, "", obj, zi) {
				st.Fail(pos, "IndexOfZippedIndexes of an entry is %s", short(x.String()))
			}
		}
	}
	maxAdds := 2
	shapes := []int{0, 1, 2}
	var follow func(from *State, obj *Term, held []*Term, d int)
	follow = func(from *State, obj *Term, held []*Term, d int) {
		for _, sh := range shapes {
			val := listOf(sym(fmt.Sprintf("ps%d", d)), sh)
			s := newSim()
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				r.Count("histories", 1)
				list := st.snapshot(st.Load(tFA(obj, "List"), types.NewSlice(types.NewPointer(p.Type("relapse/intern", "Patterns")))))
				if list.Op != "list" {
					st.Fail(pos, "undecided: the states are %s", short(list.String()))
					return
				}
				idx, ok := intOf(rets[0])
				if !ok || idx < 0 || int(idx) >= len(list.Args) {
					st.Fail(pos, "the index is %s, there are %d states", short(rets[0].String()), len(list.Args))
					return
				}
				pats := make([]*Term, len(list.Args))
				for i, e := range list.Args {
					pats[i] = st.Resolve(fld(st, e, "Patterns", ft["Patterns"]))
				}
				for i, h := range held {
					if i >= len(pats) || pats[i] != h {
						st.Fail(pos, "the state at index %d is changed", i)
						return
					}
				}
				if at := pats[idx]; at != val {
					if v, ok := st.Fact(eqOf(at, val)); !ok || !v {
						st.Fail(pos, "the state of %s is returned for %s, which is not known to be equal", short(at.String()), short(val.String()))
						return
					}
				}
				for i := range pats {
					for j := i + 1; j < len(pats); j++ {
						eq, known := st.Fact(eqOf(pats[i], pats[j]))
						if st.differ(hashOf(pats[i]), hashOf(pats[j])) {
							eq, known = false, true
						}
						if eq || !known {
							st.Fail(pos, "two states may stand for the same patterns: %s and %s", short(pats[i].String()), short(pats[j].String()))
							return
						}
					}
				}
				check(st, obj, list, pos)
				if d+1 < maxAdds {
					follow(st, obj, pats, d+1)
				}
			}
			s.Run(add, []*Term{obj, val}, func(st *State) {
				carry(from, obj)(st)
				st.Data["val"] = val
				for i, h := range held {
					st.Data[fmt.Sprint("held", i)] = h
				}
			})
			r.Sim(key, s)
		}
	}
	s := newSim()
	made := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		made++
		follow(st, rets[0], nil, 0)
		// Get reads the entry
		list := listOf(sym("entries"), 2)
		for i := 0; i < 2; i++ {
			i := i
			s := newSim()
			s.OnReturn = func(st *State, rs []*Term, pos tokenPos) {
				if rs[0] != list.Args[i] {
					st.Fail(pos, "state %d is %s", i, short(rs[0].String()))
				}
			}
			s.Run(get, []*Term{rets[0], tInt(int64(i))}, func(n *State) {
				carry(st, rets[0])(n)
				n.mem[tFA(rets[0], "List")] = list
			})
			r.Sim("states:"+fname(get), s)
		}
	}
	s.Run(ctor, nil, nil)
	r.Sim("states:"+fname(ctor), s)
	if made == 0 {
		r.Fail("states:"+fname(ctor), p.posOf(ctor.Pos()), "undecided: nothing is constructed")
	}
}

// differ: two values are known to differ, through any chain of known equalities.
func (st *State) differ(a, b *Term) bool {
	same := func(x *Term) map[*Term]bool {
		c := map[*Term]bool{x: true}
		for ch := true; ch; {
			ch = false
			for f, v := range st.facts {
				if v && f.Op == "bin" && f.Name == "==" && c[f.Args[0]] != c[f.Args[1]] {
					c[f.Args[0]], c[f.Args[1]] = true, true
					ch = true
				}
			}
		}
		return c
	}
	ca, cb := same(a), same(b)
	for f, v := range st.facts {
		if !v && f.Op == "bin" && f.Name == "==" && (ca[f.Args[0]] && cb[f.Args[1]] || ca[f.Args[1]] && cb[f.Args[0]]) {
			return true
		}
	}
	return false
}
