package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C34", "other", threadRule) }

// threadRule: the loop of every evaluator derives the patterns it has by each element and nothing else.
func threadRule(p *Prog, r *Report) {
	r.Explain("The recursive walk of every evaluator is followed path by path for up to two elements. Each element has to be answered with the conditions of the current patterns, the answers (for an element with children: what is left of the answers after its children) have to be what the remainder is taken with, and the remainder has to be what the evaluator continues with and finally returns. The entry points have to start with the main pattern and return whether what is returned for it is nullable. What the caches compute for a return is read from the provenance of their results.")
	for _, w := range p.walkers(r, evalPkgs) {
		w := w
		r.guard(fname(w.fn), func() { threadWalk(p, r, w) })
	}
	r.guard("memRoles", func() { memReturnContent(p, r) })
	r.guard("autoRoles", func() { autoReturnContent(p, r) })
	r.guard("contents", func() { threadContents(p, r) })
	r.guard("entries", func() { threadEntries(p, r) })
	r.guard("simps", func() { simpsContent(p, r) })
	r.Expect("walks", 5)
	r.Expect("paths of walks", 20)
	r.Expect("entry points", 4)
	r.Expect("caches", 2)
	r.Assume("The call and return passes, zipping and nullability mean what C02, C03, C04, C28 and C32 establish; the discipline of Down and Up is C01.")
}

func isPatternList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := named2(sl.Elem())
	return n != nil && n.Obj().Name() == "Pattern"
}

func isValueIface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Double", "Int", "Uint", "Bool", "String", "Bytes":
			n++
		}
	}
	return n == 6
}

// normChild: zipping, deriving and unzipping is deriving.
func normChild(t *Term) *Term {
	if t.Op == "unzip" {
		ps, is := t.Args[0], t.Args[1]
		if is.Op == "zi" {
			x := is.Args[0]
			if ps == mk("zp", "", x) {
				return x
			}
			if ps.Op == "sub" && ps.Args[0] == mk("zp", "", x) {
				return subOf(ps.Name, x)
			}
		}
	}
	return t
}

// subOf is what is left of patterns after the children of an element.
func subOf(n string, x *Term) *Term {
	if x.Op != "list" {
		return mk("sub", n, x)
	}
	es := make([]*Term, len(x.Args))
	for i := range es {
		es[i] = mk("sub", fmt.Sprint(n, ".", i), x)
	}
	return mk("list", "", es...)
}

func threadWalk(p *Prog, r *Report, w walker) {
	pkg := relPkgOf(w.fn)
	key := fname(w.fn)
	r.Count("walks", 1)
	ifT := p.TypeOpt("relapse/intern", "IfExpr")
	if a := p.TypeOpt("relapse/auto", "Auto"); a != nil && pkg == "relapse/auto" {
		// what stops the walk early is whether anything can still change
		for f := range w.scc {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || named2(fa.X.Type()) != a || a.Underlying().(*types.Struct).Field(fa.Field).Type().String() != "[]bool" {
						continue
					}
					name := a.Underlying().(*types.Struct).Field(fa.Field).Name()
					r.Count("tables that stop a walk", 1)
					if k := autoField(p, name); k != "escapable" {
						r.Fail(key, p.posOf(fa.Pos()), "the walk looks at the table %s, which holds %q", name, k)
					}
				}
			}
		}
	}
	for nIfs := 0; nIfs <= 2; nIfs++ {
		nIfs := nIfs
		if pkg != "relapse/intern" && nIfs > 0 {
			break
		}
		s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 30, MaxState: 100000}
		args := make([]*Term, len(w.fn.Params))
		curParam := -1
		for i, a := range w.fn.Params {
			args[i] = sym(a.Name())
			if isPatternList(a.Type()) || isIntType(a.Type()) {
				curParam = i
			}
		}
		if curParam < 0 {
			r.Fail(key, p.posOf(w.fn.Pos()), "undecided: which parameter holds the patterns")
			return
		}
		start := args[curParam]
		num := func(st *State) int { n, _ := intOf(st.Data["n"]); return int(n) }
		leafT := func(n int) *Term { return mk("leaf", fmt.Sprint(n)) }
		callsT := func(st *State, n int) *Term {
			if pkg == "relapse/intern" {
				l := listOf(sym(fmt.Sprintf("ifs%d", n)), nIfs)
				es := make([]*Term, nIfs)
				for i := range es {
					es[i] = mk("ans", "", l.Args[i])
				}
				return mk("list", "", es...)
			}
			return mk("calls", fmt.Sprint(n))
		}
		// what is to be used for the children of the last element
		wantChild := func(st *State, pos tokenPos) *Term {
			n := num(st)
			x := callsT(st, n)
			leaf, ok := st.Fact(leafT(n))
			if !ok {
				st.Fail(pos, "undecided: whether the element has children")
				return x
			}
			zipped := pkg == "relapse/mem" || pkg == "relapse/auto"
			if zipped {
				if leaf {
					return mk("zp", "", x)
				}
				return mk("sub", fmt.Sprint(n), mk("zp", "", x))
			}
			if leaf {
				return x
			}
			return subOf(fmt.Sprint(n), x)
		}
		// finish: the element before has been accounted for
		settle := func(st *State, pos tokenPos) {
			n := num(st)
			if n == 0 || st.Data["done"] == tInt(int64(n)) {
				return
			}
			isNil, known := st.Fact(tEq(mk("nexterr", fmt.Sprint(n)), tNil))
			if known && !isNil {
				return
			}
			if st.Data["asked"] != tInt(int64(n)) {
				st.Fail(pos, "an element is skipped")
				return
			}
			if pkg == "relapse/auto" {
				x := callsT(st, n)
				st.Data["cur"] = mk("autoret", "", mk("zi", "", x), wantChild(st, pos))
				st.Data["done"] = tInt(int64(n))
				return
			}
			st.Fail(pos, "nothing remains after an element")
		}
		// auto keeps everything in tables: a state is looked up with the stack element and the nullability
		canon := func(st *State, t *Term) *Term {
			if pkg == "relapse/auto" && t.Op == "lookup" && t.Args[0].Op == "index" && t.Args[1].Op == "index" && t.Args[0].Args[0].Op == "field" && t.Args[1].Args[0].Op == "field" {
				return mk("autoret", "", t.Args[0].Args[1], t.Args[1].Args[1])
			}
			return t
		}
		ask := func(st *State, c *Call, cur *Term) *Term {
			n := num(st)
			if n == 0 {
				st.Fail(c.Instr.Pos(), "conditions are asked before there is an element")
			}
			if v, ok := st.Fact(tEq(mk("nexterr", fmt.Sprint(n)), tNil)); !ok || !v {
				st.Fail(c.Instr.Pos(), "conditions are asked without an element")
			}
			if st.Data["done"] == tInt(int64(n)) {
				st.Fail(c.Instr.Pos(), "an element is used twice")
			}
			if want := st.Data["cur"]; canon(st, cur) != want {
				st.Fail(c.Instr.Pos(), "the conditions are those of %s and not of what remains, %s", short(cur.String()), short(want.String()))
			}
			st.Data["asked"] = tInt(int64(n))
			return callsT(st, n)
		}
		rest := func(st *State, c *Call, cur, child, zi *Term, unpack func(*Term) *Term) {
			n := num(st)
			pos := c.Instr.Pos()
			if st.Data["asked"] != tInt(int64(n)) {
				st.Fail(pos, "a remainder is taken without asking the conditions of an element")
			}
			if st.Data["done"] == tInt(int64(n)) {
				st.Fail(pos, "a second remainder is taken of one element")
			}
			if cur != st.Data["cur"] {
				st.Fail(pos, "the remainder is taken of %s and not of %s", short(cur.String()), short(st.Data["cur"].String()))
			}
			if want := wantChild(st, pos); unpack(child) != want {
				st.Fail(pos, "the remainder is taken with %s and not with the nullability of %s", short(child.String()), short(want.String()))
			}
			if zi != nil && zi != mk("zi", "", callsT(st, n)) {
				st.Fail(pos, "the remainder is taken with the indexes %s", short(zi.String()))
			}
			st.Data["done"] = tInt(int64(n))
			st.Data["cur"] = mk("rest", fmt.Sprint(n))
		}
		withErr := func(t *Term, what string, st *State) *Term {
			return mk("tuple", "", t, mk("derr", what+st.Data["n"].Name))
		}
		s.Classify = func(st *State, c *Call) Action {
			if c.Method != nil && isNavIface(c.Instr.Common().Value.Type()) {
				switch c.Method.Name() {
				case "Next":
					settle(st, c.Instr.Pos())
					n := num(st) + 1
					if n > 3 {
						st.Kill()
						return Pure
					}
					st.Data["n"] = tInt(int64(n))
					c.Result = mk("nexterr", fmt.Sprint(n))
				case "IsLeaf":
					c.Result = leafT(num(st))
				}
				return Pure
			}
			if c.Callee == nil {
				return Pure
			}
			if c.Callee == w.fn {
				n := num(st)
				x := normChild(st.Resolve(c.Args[curParam]))
				if want := callsT(st, n); x != want && x != mk("zp", "", want) {
					st.Fail(c.Instr.Pos(), "the children are validated against %s", short(x.String()))
				}
				if st.Data["asked"] != tInt(int64(n)) {
					st.Fail(c.Instr.Pos(), "the children are validated before the conditions of the element are asked")
				}
				got := mk("sub", fmt.Sprint(n), x)
				if x.Op == "list" {
					got = subOf(fmt.Sprint(n), x)
				}
				c.Result = withErr(got, "sub", st)
				return Pure
			}
			rp := relPkgOf(c.Callee)
			sg := c.Callee.Signature
			var pts []types.Type
			var lists, ints []int
			value := -1
			for i, a := range c.Callee.Params {
				pts = append(pts, a.Type())
				if isPatternList(a.Type()) {
					lists = append(lists, i)
				}
				if isIntType(a.Type()) {
					ints = append(ints, i)
				}
				if isValueIface(a.Type()) && !isNavIface(a.Type()) {
					value = i
				}
			}
			_ = pts
			res := sg.Results()
			resIs := func(i int, f func(types.Type) bool) bool { return i < res.Len() && f(res.At(i).Type()) }
			isErr := func(t types.Type) bool { return t.String() == "error" }
			isBool := func(t types.Type) bool { return t.String() == "bool" }
			if value >= 0 && strip(c.Args[value]) != sym(treeParam(w.fn)) {
				st.Fail(c.Instr.Pos(), "conditions are evaluated on %s", short(c.Args[value].String()))
			}
			switch {
			case rp == "relapse/sets" && c.Callee.Name() == "Zip":
				x := st.Resolve(c.Args[0])
				c.Result = mk("tuple", "", mk("zp", "", x), mk("zi", "", x))
				return Pure
			case rp == "relapse/sets" && c.Callee.Name() == "Unzip":
				c.Result = normChild(mk("unzip", "", st.Resolve(c.Args[0]), st.Resolve(c.Args[1])))
				return Pure
			case rp == "relapse/intern" && c.Callee.Name() == "Zip" && sg.Recv() == nil:
				x := st.Resolve(c.Args[0])
				o := mk("alloc", "zip"+st.fresh())
				o.Typ = res.At(0).Type()
				st.mem[tFA(o, "Patterns")] = mk("zp", "", x)
				st.mem[tFA(o, "Indexes")] = mk("zi", "", x)
				c.Result = o
				return Pure
			case rp == "relapse/intern" && c.Callee.Name() == "Unzip":
				o := c.Args[0]
				ps, is := st.mem[tFA(o, "Patterns")], st.mem[tFA(o, "Indexes")]
				if ps == nil || is == nil {
					st.Fail(c.Instr.Pos(), "undecided: what is unzipped")
					return Pure
				}
				c.Result = normChild(mk("unzip", "", st.Resolve(ps), st.Resolve(is)))
				return Pure
			case len(lists) == 1 && res.Len() == 1 && resIs(0, isBool):
				return Pure
			}
			switch pkg {
			case "relapse/interp":
				switch {
				case value >= 0 && len(lists) == 1 && res.Len() == 2 && resIs(1, isErr):
					c.Result = withErr(ask(st, c, st.Resolve(c.Args[lists[0]])), "calls", st)
					return Pure
				case len(lists) == 2 && res.Len() == 1 && value < 0:
					rest(st, c, st.Resolve(c.Args[lists[0]]), st.Resolve(c.Args[lists[1]]), nil, normChild)
					c.Result = st.Data["cur"]
					return Pure
				case len(lists) == 1 && res.Len() == 1 && isPatternList(res.At(0).Type()) && value < 0:
					c.Result = st.Resolve(c.Args[lists[0]])
					return Pure
				}
			case "relapse/intern":
				switch {
				case c.Callee.Name() == "DeriveCalls":
					ask(st, c, st.Resolve(c.Args[lists[0]]))
					c.Result = listOf(sym(fmt.Sprintf("ifs%d", num(st))), nIfs)
					return Pure
				case value >= 0 && len(c.Callee.Params) == 2 && named2(c.Callee.Params[0].Type()) == ifT && res.Len() == 2:
					c.Result = mk("tuple", "", mk("ans", "", strip(c.Args[0])), mk("derr", "ans"+st.Data["n"].Name+short(c.Args[0].String())))
					return Pure
				case c.Callee.Name() == "DeriveReturns":
					x := st.Resolve(c.Args[2])
					rest(st, c, st.Resolve(c.Args[lists[0]]), x, nil, func(t *Term) *Term {
						if t.Op == "nulls" {
							return normChild(t.Args[0])
						}
						// written out per element
						if t.Op == "list" {
							es := make([]*Term, len(t.Args))
							for i, e := range t.Args {
								es[i] = e
								if e.Op == "field" && e.Name == "nullable" {
									es[i] = e.Args[0]
								}
							}
							return mk("list", "", es...)
						}
						return t
					})
					c.Result = mk("tuple", "", st.Data["cur"], mk("derr", "rest"+st.Data["n"].Name))
					return Pure
				case len(lists) == 1 && res.Len() == 1 && res.At(0).Type().String() == "[]bool":
					c.Result = mk("nulls", "", st.Resolve(c.Args[lists[0]]))
					return Pure
				}
			case "relapse/mem":
				switch {
				case rp == "relapse/intern" && c.Callee.Name() == "Get":
					c.Result = mk("entry", "", strip(c.Args[1]))
					return Pure
				case rp == pkg && value < 0 && len(ints) == 1 && len(c.Callee.Params) == 2 && res.Len() == 2:
					c.Result = withErr(mk("iftree", "", ask(st, c, strip(c.Args[ints[0]]))), "call", st)
					return Pure
				case rp == pkg && value >= 0 && res.Len() == 3:
					x := callsT(st, num(st))
					if !hasArg(c, mk("iftree", "", x)) {
						st.Fail(c.Instr.Pos(), "the conditions that are evaluated are not those of the current state")
					}
					c.Result = mk("tuple", "", mk("zp", "", x), mk("zi", "", x), mk("derr", "eval"+st.Data["n"].Name))
					return Pure
				case rp == pkg && value < 0 && len(ints) == 3 && res.Len() == 2:
					ro := memRoles(p, c.Callee)
					rest(st, c, strip(c.Args[ro[0]]), strip(c.Args[ro[2]]), strip(c.Args[ro[1]]), func(t *Term) *Term {
						if t.Op == "field" && t.Name == "NullIndex" && t.Args[0].Op == "entry" {
							return t.Args[0].Args[0]
						}
						return t
					})
					c.Result = withErr(st.Data["cur"], "ret", st)
					return Pure
				}
			case "relapse/auto":
				if sg.Recv() != nil && value < 0 && len(c.Callee.Params) >= 2 && len(c.Callee.Params) == len(ints)+1 {
					// the caches of the compiler
					switch {
					case len(ints) == 1 && res.Len() == 1 && resIs(0, isBool):
						return Pure
					case len(ints) == 1 && res.Len() == 2 && resIs(1, isErr):
						c.Result = withErr(tIndex(mk("field", "calls", c.Args[0]), strip(c.Args[1])), "tree", st)
						return Pure
					case len(ints) == 1 && res.Len() == 1 && resIs(0, isIntType):
						c.Result = tIndex(mk("field", "nullables", c.Args[0]), strip(c.Args[1]))
						return Pure
					case len(ints) == 2 && res.Len() == 1 && resIs(0, isIntType):
						ni := strip(c.Args[2])
						if ni.Op != "index" || ni.Args[0].Op != "field" {
							st.Fail(c.Instr.Pos(), "undecided: the remainder is taken with %s", short(ni.String()))
							return Pure
						}
						c.Result = mk("autoret", "", strip(c.Args[1]), ni.Args[1])
						return Pure
					}
				}
				if value >= 0 && res.Len() == 3 {
					tr := strip(c.Args[0])
					if tr.Op != "index" || tr.Args[0].Op != "field" {
						st.Fail(c.Instr.Pos(), "undecided: the conditions that are evaluated are %s", short(tr.String()))
						return Pure
					}
					x := ask(st, c, tr.Args[1])
					c.Result = mk("tuple", "", mk("zp", "", x), mk("zi", "", x), mk("derr", "eval"+st.Data["n"].Name))
					return Pure
				}
			}
			if rp == pkg {
				return Inline
			}
			return Pure
		}
		n := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			n++
			r.Count("paths of walks", 1)
			last := rets[len(rets)-1]
			// an error that happened is returned
			for f, v := range st.facts {
				if f.Op != "bin" || f.Name != "==" || v {
					continue
				}
				for i := 0; i < 2; i++ {
					e := f.Args[i]
					if f.Args[1-i] != tNil || e.Op != "derr" && e.Op != "nexterr" {
						continue
					}
					if e.Op == "nexterr" {
						if eof, ok := st.Fact(tEq(e, mk("gval", "io.EOF"))); ok && eof {
							continue
						}
					}
					if last != e {
						st.Fail(pos, "the error %s is not returned", short(e.String()))
					}
					return
				}
			}
			if last != tNil {
				if nn, k := st.IsNil(last); !k || !nn {
					return
				}
			}
			settle(st, pos)
			if got := canon(st, st.Resolve(rets[0])); got != st.Data["cur"] {
				st.Fail(pos, "what is returned is %s and not what remains, %s", short(got.String()), short(st.Data["cur"].String()))
			}
		}
		s.Run(w.fn, args, func(st *State) {
			st.Data["n"] = tInt(0)
			st.Data["asked"] = tInt(-1)
			st.Data["done"] = tInt(-1)
			st.Data["cur"] = start
			for i := 1; i <= 3; i++ {
				// what was learned about the elements stays known
				st.Data["e"+fmt.Sprint(i)] = mk("nexterr", fmt.Sprint(i))
				st.Data["l"+fmt.Sprint(i)] = leafT(i)
			}
		})
		r.Sim(key, s)
		if n == 0 && len(s.Errs) == 0 {
			r.Fail(key, p.posOf(w.fn.Pos()), "undecided: no path returns")
		}
	}
}

func treeParam(f *ssa.Function) string {
	for _, a := range f.Params {
		if isNavIface(a.Type()) {
			return a.Name()
		}
	}
	return ""
}

// memRoles tells which parameters of the function that returns from a child are the state, the zip indexes and
// the nullability, from what its result is derived from.
func memRoles(p *Prog, f *ssa.Function) [3]int {
	ro, why := memReturn(p, f)
	if why != "" {
		return [3]int{1, 2, 3}
	}
	return ro
}

func memReturn(p *Prog, f *ssa.Function) (ro [3]int, why string) {
	n := p.Type("relapse/mem", "Mem")
	obj := sym("mem")
	s := memoSim(p, "relapse/mem", n, obj)
	ro = [3]int{-1, -1, -1}
	found := false
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if isErrRet(rets) {
			return
		}
		t := st.resolve(rets[0], map[*Term]bool{obj: true}, 0)
		if t.Op != "call" || !strings.HasSuffix(t.Name, ".Add") || len(t.Args) != 2 {
			why = "the result is " + short(t.String()) + " and not the state of a remainder"
			return
		}
		d := t.Args[1]
		if d.Op == "extract" && d.Name == "0" {
			d = d.Args[0]
		}
		if d.Op != "call" || !strings.HasSuffix(d.Name, ".DeriveReturns") || len(d.Args) != 3 {
			why = "the result is the state of " + short(d.String()) + " and not of a remainder"
			return
		}
		ps, bits := d.Args[1], d.Args[2]
		ok := ps.Op == "field" && ps.Name == "Patterns" && ps.Args[0].Op == "call" && strings.HasSuffix(ps.Args[0].Name, ".Get") &&
			bits.Op == "call" && strings.HasSuffix(bits.Name, ".UnzipBits") && bits.Args[0].Op == "index" && bits.Args[1].Op == "index" &&
			bits.Args[0].Args[0].Op == "field" && bits.Args[0].Args[0].Name == "SetOfBits" && bits.Args[1].Args[0].Op == "field" && bits.Args[1].Args[0].Name == "SetOfZipIndexes"
		if !ok {
			why = "the remainder is of " + short(ps.String()) + " with " + short(bits.String())
			return
		}
		for i, k := range []*Term{ps.Args[0].Args[1], bits.Args[1].Args[1], bits.Args[0].Args[1]} {
			if v, ok := intOf(k); ok && v < 3 {
				ro[i] = int(v) + 1
			}
		}
		found = true
	}
	s.Run(f, []*Term{obj, tInt(0), tInt(1), tInt(2)}, func(st *State) {
		for _, fd := range structFields(n) {
			if _, ok := fd.Type().Underlying().(*types.Slice); ok {
				st.mem[tFA(obj, fd.Name())] = mk("list", "")
			}
		}
	})
	if why == "" && len(s.Errs) > 0 {
		why = s.Errs[0].Msg
	}
	if why == "" && (!found || ro[0] < 0 || ro[1] < 0 || ro[2] < 0 || ro[0] == ro[1] || ro[1] == ro[2] || ro[0] == ro[2]) {
		why = "undecided: what the state after a child is derived from"
	}
	return ro, why
}

func structFields(n *types.Named) (r []*types.Var) {
	if s, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			r = append(r, s.Field(i))
		}
	}
	return r
}

func memReturnContent(p *Prog, r *Report) {
	for _, f := range memoRoots(p, "relapse/mem", p.Type("relapse/mem", "Mem")) {
		if len(f.Params) != 4 {
			continue
		}
		r.Count("caches", 1)
		if _, why := memReturn(p, f); why != "" {
			r.Fail(fname(f), p.posOf(f.Pos()), "%s", why)
		}
	}
}

func autoReturnContent(p *Prog, r *Report) {
	n := p.Type("relapse/auto", "compiler")
	obj := sym("compiler")
	for _, f := range memoRoots(p, "relapse/auto", n) {
		if len(f.Params) != 3 {
			continue
		}
		r.Count("caches", 1)
		key := fname(f)
		s := memoSim(p, "relapse/auto", n, obj)
		got := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			got++
			t := st.resolve(rets[0], map[*Term]bool{obj: true}, 0)
			if t.Op != "call" || !strings.HasSuffix(t.Name, ".Add") || len(t.Args) != 2 {
				st.Fail(pos, "the result is %s and not the state of a remainder", short(t.String()))
				return
			}
			d := t.Args[1]
			for d.Op == "call" && strings.Contains(strings.ToLower(d.Name), "simpl") {
				d = d.Args[len(d.Args)-1]
			}
			if d.Op != "call" || relPkgOfName(d.Name) != "relapse/auto" || len(d.Args) != 3 {
				st.Fail(pos, "the result is the state of %s and not of a remainder", short(d.String()))
				return
			}
			ps, bits := d.Args[1], d.Args[2]
			// patterns[stackElms[k0].First], UnzipBits(nullables[k1], zis[stackElms[k0].Second])
			pairOf := func(t *Term, part string) *Term {
				if t.Op == "index" && t.Args[1].Op == "field" && t.Args[1].Name == part && t.Args[1].Args[0].Op == "index" {
					return t.Args[1].Args[0].Args[1]
				}
				return nil
			}
			if bits.Op != "call" || !strings.HasSuffix(bits.Name, ".UnzipBits") || bits.Args[0].Op != "index" || bits.Args[0].Args[1] != tInt(1) {
				st.Fail(pos, "the remainder is taken with %s", short(bits.String()))
				return
			}
			if pairOf(ps, "First") != tInt(0) || pairOf(bits.Args[1], "Second") != tInt(0) {
				st.Fail(pos, "the remainder is of %s with the indexes %s", short(ps.String()), short(bits.Args[1].String()))
			}
		}
		s.Run(f, []*Term{obj, tInt(0), tInt(1)}, func(st *State) {
			for _, fd := range structFields(n) {
				if sl, ok := fd.Type().Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Map); ok {
						st.mem[tFA(obj, fd.Name())] = mk("list", "")
					}
				}
			}
		})
		r.Sim(key, s)
		if got == 0 && len(s.Errs) == 0 {
			r.Fail(key, p.posOf(f.Pos()), "undecided: no path returns")
		}
	}
}

func relPkgOfName(name string) string {
	name = strings.TrimPrefix(name, "(*")
	name = strings.TrimPrefix(name, "(")
	if i := strings.LastIndex(name, "/"); i >= 0 {
		if j := strings.Index(name[i:], "."); j >= 0 {
			return name[:i+j]
		}
	}
	return name
}

// simpsContent: the function that simplifies all patterns of interp keeps their number and order.
func simpsContent(p *Prog, r *Report) {
	for _, pkg := range []string{"relapse/interp", "relapse/auto"} {
		for _, f := range p.funcsIn(pkg) {
			if f.Parent() != nil || f.Synthetic != "" || f.Signature.Results().Len() != 1 || !isPatternList(f.Signature.Results().At(0).Type()) {
				continue
			}
			li, other := -1, false
			for i, a := range f.Params {
				if isPatternList(a.Type()) {
					if li >= 0 {
						other = true
					}
					li = i
				} else if isValueIface(a.Type()) || isNavIface(a.Type()) || strings.Contains(a.Type().String(), "[]") {
					other = true
				}
			}
			if li < 0 || other {
				continue
			}
			simpl := false
			for _, c := range callsIn(f) {
				if c.Common().IsInvoke() && c.Common().Method.Name() == "Simplify" {
					simpl = true
				}
			}
			if !simpl {
				continue
			}
			r.Count("simplified lists", 1)
			for n := 0; n <= 2; n++ {
				list := listOf(sym("patterns"), n)
				s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 10, MaxState: 2000}
				s.Classify = func(st *State, c *Call) Action {
					if c.Method != nil && c.Method.Name() == "Simplify" {
						c.Result = mk("simplified", "", strip(c.Args[0]))
					}
					return Pure
				}
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					l := st.snapshot(rets[0])
					ok := l.Op == "list" && len(l.Args) == n
					for i := 0; ok && i < n; i++ {
						x := l.Args[i]
						ok = x == mk("simplified", "", list.Args[i]) || x == list.Args[i]
					}
					if !ok {
						st.Fail(pos, "simplifying %d patterns returns %s", n, short(l.String()))
					}
				}
				args := make([]*Term, len(f.Params))
				for i, a := range f.Params {
					args[i] = sym(a.Name())
				}
				args[li] = list
				s.Run(f, args, nil)
				r.Sim(fname(f), s)
			}
		}
	}
	r.Expect("simplified lists", 2)
}

// threadEntries: what an entry point returns.
func threadEntries(p *Prog, r *Report) {
	for _, w := range p.walkers(r, evalPkgs) {
		w := w
		for _, f := range p.funcsIn(evalPkgs...) {
			if w.scc[f] || f.Parent() != nil {
				continue
			}
			calls := false
			for _, c := range callsIn(f) {
				if c.Common().StaticCallee() == w.fn {
					calls = true
				}
			}
			if !calls {
				continue
			}
			r.Count("entry points", 1)
			threadEntry(p, r, w, f)
		}
	}
}

func threadEntry(p *Prog, r *Report, w walker, f *ssa.Function) {
	key := fname(f)
	pkg := relPkgOf(f)
	s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 10, MaxState: 20000}
	args := make([]*Term, len(f.Params))
	for i, a := range f.Params {
		args[i] = sym(a.Name())
	}
	cur := -1
	for i, a := range w.fn.Params {
		if isPatternList(a.Type()) || isIntType(a.Type()) {
			cur = i
		}
	}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == w.fn {
			a := st.Resolve(c.Args[cur])
			ok := false
			switch pkg {
			case "relapse/interp":
				ok = a.Op == "list" && len(a.Args) == 1 && a.Args[0].Op == "lookup" && strings.Contains(a.Args[0].Args[1].Name, "main")
			case "relapse/intern":
				ok = a.Op == "list" && len(a.Args) == 1 && a.Args[0].Op == "extract" && a.Args[0].Args[0].Op == "call" && strings.HasSuffix(a.Args[0].Args[0].Name, "AddGrammar")
			default:
				ok = a.Op == "field" && a.Name == "start"
			}
			if !ok {
				st.Fail(c.Instr.Pos(), "the evaluation starts with %s", short(a.String()))
			}
			c.Result = mk("tuple", "", mk("finals", ""), mk("derr", ""))
			return Pure
		}
		return Pure
	}
	n := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if v, ok := st.Fact(tEq(mk("derr", ""), tNil)); ok && !v {
			if rets[1] != mk("derr", "") {
				st.Fail(pos, "the error of the evaluation is not returned")
			}
			return
		}
		if rets[1] != tNil {
			if v, k := st.IsNil(rets[1]); !k || !v {
				return
			}
		}
		n++
		got := st.Resolve(rets[0])
		if got.isConst() {
			// decided by a branch on the answer
			for fa, v := range st.facts {
				if v == got.isTrue() && fa.mentions(mk("finals", "")) {
					got = fa
				}
			}
		}
		fin := mk("finals", "")
		first := tIndex(fin, tInt(0))
		ok := false
		switch pkg {
		case "relapse/interp":
			ok = got.Op == "call" && strings.HasSuffix(got.Name, ".Nullable") && got.Args[len(got.Args)-1] == first
		case "relapse/intern":
			ok = got == tField(first, "nullable") || got.Op == "call" && strings.HasSuffix(got.Name, ".Nullable") && got.Args[0] == first
		case "relapse/mem":
			ok = got.Op == "field" && got.Name == "Accept" && got.Args[0].Op == "call" && strings.HasSuffix(got.Args[0].Name, ".Get") && got.Args[0].Args[1] == fin
		case "relapse/auto":
			ok = got.Op == "index" && got.Args[0].Op == "field" && autoField(p, got.Args[0].Name) == "accept" && got.Args[1] == fin
		}
		if !ok {
			st.Fail(pos, "the verdict is %s and not whether what remains is nullable", short(got.String()))
		}
	}
	s.Run(f, args, nil)
	r.Sim(key, s)
	if n == 0 && len(s.Errs) == 0 {
		r.Fail(key, p.posOf(f.Pos()), "undecided: no path returns a verdict")
	}
}

// statePatterns tells whether a term is the patterns of the numbered state.
func statePatterns(t *Term, k int64) bool {
	if t.Op == "field" && t.Name == "Patterns" && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Name, ".Get") {
		return t.Args[0].Args[1] == tInt(k)
	}
	return t.Op == "index" && t.Args[1] == tInt(k)
}

func callOf(t *Term, pkg string, n int) bool {
	return t.Op == "call" && strings.Contains(t.Name, pkg+".") && (n < 0 || len(t.Args) == n)
}

// contentKind tells what a caching function with one key answers for the key 1.
func contentKind(st *State, t *Term) string {
	last := func(t *Term) *Term { return t.Args[len(t.Args)-1] }
	switch {
	case t.isConst():
		return "const"
	case callOf(t, "relapse/interp", 2) && strings.HasSuffix(t.Name, ".Nullable") && t.Args[1].Op == "index" && t.Args[1].Args[1] == tInt(0) && statePatterns(t.Args[1].Args[0], 1):
		return "accept"
	case callOf(t, "relapse/auto", 1) && statePatterns(t.Args[0], 1):
		return "escapable"
	case callOf(t, "relapse/sets", 2) && strings.HasSuffix(t.Name, ".Add") && callOf(t.Args[1], "relapse/auto", 2) && statePatterns(last(t.Args[1]), 1):
		return "nullable:" + t.Args[1].Name
	case t.Op == "extract" && callOf(t.Args[0], "relapse/auto.compiler)", 3) && t.Args[0].Args[1] == tInt(1):
		x := t.Args[0].Args[2]
		if callOf(x, "relapse/auto", 1) && callOf(x.Args[0], "relapse/auto", 3) && statePatterns(last(x.Args[0]), 1) {
			return "tree"
		}
	case callOf(t, "relapse/mem", 1) && callOf(t.Args[0], "relapse/intern", 2) && strings.HasSuffix(t.Args[0].Name, ".DeriveCalls") && statePatterns(last(t.Args[0]), 1):
		return "tree"
	}
	return ""
}

// threadContents: what is cached for a state is computed from the patterns of that state, and the first state is the main pattern.
func threadContents(p *Prog, r *Report) {
	for _, pt := range [][2]string{{"relapse/mem", "Mem"}, {"relapse/auto", "compiler"}} {
		pkg, n := pt[0], p.Type(pt[0], pt[1])
		var ctor *ssa.Function
		for _, f := range p.funcsIn(pkg) {
			if f.Parent() == nil && f.Signature.Recv() == nil && f.Signature.Results().Len() == 2 && types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(n)) && len(f.Params) == 2 {
				ctor = f
			}
		}
		if ctor == nil {
			failAnchor("constructor of %s.%s", pkg, pt[1])
		}
		s := memoSim(p, pkg, n, nil)
		args := make([]*Term, len(ctor.Params))
		for i, a := range ctor.Params {
			args[i] = sym(a.Name())
		}
		made := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			if isErrRet(rets) || rets[0].Op != "alloc" {
				return
			}
			made++
			r.Count("constructed evaluators", 1)
			start := st.Resolve(st.Load(tFA(rets[0], "start"), types.Typ[types.Int]))
			ok := start.Op == "call" && strings.HasSuffix(start.Name, ".Add") && len(start.Args) == 2 && start.Args[1].Op == "list" && len(start.Args[1].Args) == 1
			if ok {
				m := start.Args[1].Args[0]
				if pkg == "relapse/mem" {
					ok = m.Op == "extract" && m.Name == "0" && strings.HasSuffix(m.Args[0].Name, "AddGrammar") && m.Args[0].Args[len(m.Args[0].Args)-1] == args[0]
				} else {
					ok = m.Op == "lookup" && strings.Contains(m.Args[1].Name, "main") && m.Args[0].mentions(args[0])
				}
			}
			if !ok {
				st.Fail(pos, "the evaluation starts with %s", short(start.String()))
			}
			for _, f := range memoRoots(p, pkg, n) {
				if len(f.Params) != 2 {
					continue
				}
				s2 := memoSim(p, pkg, n, rets[0])
				got := 0
				s2.OnReturn = func(st *State, rs []*Term, pos tokenPos) {
					if isErrRet(rs) {
						return
					}
					got++
					t := st.resolve(rs[0], map[*Term]bool{rets[0]: true}, 0)
					k := contentKind(st, t)
					switch {
					case k == "":
						st.Fail(pos, "what is cached for the state 1 is %s", short(t.String()))
					case k == "const":
						// only a single pattern accepts
						ok := false
						for fa, v := range st.facts {
							if fa.Op == "bin" && fa.Name == "==" && !v && (fa.Args[0] == tInt(1) || fa.Args[1] == tInt(1)) {
								x := fa.Args[0]
								if x == tInt(1) {
									x = fa.Args[1]
								}
								ok = ok || x.Op == "len" && statePatterns(x.Args[0], 1)
							}
							if fa.Op == "bin" && fa.Name == "<" {
								ok = ok || fa.mentions(tInt(1)) && fa.any(func(x *Term) bool { return x.Op == "len" && statePatterns(x.Args[0], 1) })
							}
						}
						if !ok || t.isTrue() {
							st.Fail(pos, "what is cached for the state 1 is %s", short(t.String()))
						}
					case strings.HasPrefix(k, "nullable:"):
						for _, g := range p.funcsIn(pkg) {
							if strings.HasSuffix(k, fname(g)) {
								threadNulls(p, r, g)
							}
						}
					}
					r.Count("cached contents", 1)
				}
				s2.Run(f, []*Term{rets[0], tInt(1)}, carry(st, rets[0]))
				r.Sim(fname(f), s2)
				if got == 0 && len(s2.Errs) == 0 {
					r.Fail(fname(f), p.posOf(f.Pos()), "undecided: no path returns")
				}
			}
		}
		s.Run(ctor, args, nil)
		r.Sim(fname(ctor), s)
		if made == 0 {
			r.Fail(fname(ctor), p.posOf(ctor.Pos()), "undecided: no path makes a %s", pt[1])
		}
	}
	r.Expect("constructed evaluators", 3)
	r.Expect("cached contents", 12)
	r.Expect("nullability vectors", 3)
}

// threadNulls: the bits of a list of patterns are the nullability of each.
func threadNulls(p *Prog, r *Report, f *ssa.Function) {
	for n := 0; n <= 2; n++ {
		args := make([]*Term, len(f.Params))
		var list *Term
		for i, a := range f.Params {
			args[i] = sym(a.Name())
			if isPatternList(a.Type()) {
				args[i] = listOf(sym(a.Name()), n)
				list = args[i]
			}
		}
		if list == nil {
			r.Fail(fname(f), p.posOf(f.Pos()), "undecided: no list of patterns")
			return
		}
		s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 20, MaxState: 5000}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee != nil && relPkgOf(c.Callee) == "relapse/sets" {
				switch {
				case c.Callee.Name() == "NewBits":
					st.Data["size"] = c.Args[0]
					return Pure
				case c.Callee.Name() == "Set" && len(c.Args) == 3:
					st.Data["bit"+c.Args[1].Name] = st.Resolve(c.Args[2])
					return Pure
				}
				return Pure
			}
			if c.Callee != nil && inRepo(c.Callee) && c.Callee.Blocks != nil {
				// a part of the work: it has the list, or the bits
				sig := c.Callee.Signature
				for _, tup := range []*types.Tuple{sig.Params(), sig.Results()} {
					for i := 0; i < tup.Len(); i++ {
						nm := named2(tup.At(i).Type())
						if isPatternList(tup.At(i).Type()) || nm != nil && nm.Obj().Name() == "Bits" {
							return Inline
						}
					}
				}
			}
			return Pure
		}
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			r.Count("nullability vectors", 1)
			ok := st.Data["size"] == tInt(int64(n))
			for i, e := range list.Args {
				b := st.Data["bit"+fmt.Sprint(i)]
				if b != nil && b.isConst() {
					for fa, v := range st.facts {
						if fa.Op == "call" && strings.HasSuffix(fa.Name, ".Nullable") && fa.Args[len(fa.Args)-1] == e && v == b.isTrue() {
							b = fa
						}
					}
				}
				if b == nil {
					for fa, v := range st.facts {
						if fa.Op == "call" && strings.HasSuffix(fa.Name, ".Nullable") && fa.Args[len(fa.Args)-1] == e && !v {
							b = fa
						}
					}
				}
				ok = ok && b != nil && b.Op == "call" && strings.HasSuffix(b.Name, ".Nullable") && b.Args[len(b.Args)-1] == e
			}
			if !ok {
				st.Fail(pos, "the bits of %d patterns are not the nullability of each", n)
			}
		}
		s.Run(f, args, nil)
		r.Sim(fname(f), s)
	}
}

// autoField tells what a table of the automaton holds: the kind of the cache of the compiler it is taken from.
func autoField(p *Prog, field string) string {
	n := p.Type("relapse/auto", "compiler")
	a := p.Type("relapse/auto", "Auto")
	obj := sym("compiler")
	from := map[string]bool{}
	for _, f := range p.funcsIn("relapse/auto") {
		if f.Parent() != nil || f.Signature.Results().Len() != 2 || !types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(a)) {
			continue
		}
		s := memoSim(p, "relapse/auto", n, obj)
		inner := s.Classify
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee != nil && relPkgOf(c.Callee) == "relapse/auto" && c.Callee.Signature.Results().Len() > 0 {
				if types.Identical(c.Callee.Signature.Results().At(0).Type(), types.NewPointer(n)) {
					c.Result = mk("tuple", "", obj, tNil)
					return Pure
				}
				if types.Identical(c.Callee.Signature.Results().At(0).Type(), types.NewPointer(a)) {
					return Inline
				}
				return Pure
			}
			return inner(st, c)
		}
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			if isErrRet(rets) && rets[1] != tNil {
				if v, k := st.IsNil(rets[1]); !k || !v {
					return
				}
			}
			v := st.Load(tFA(rets[0], field), types.Typ[types.Int])
			if v.Op == "field" && v.Args[0] == obj {
				from[v.Name] = true
			} else {
				from["?"] = true
			}
		}
		args := make([]*Term, len(f.Params))
		for i, x := range f.Params {
			args[i] = sym(x.Name())
		}
		s.Run(f, args, nil)
		if len(s.Errs) > 0 {
			return "?" + s.Errs[0].Msg
		}
	}
	if len(from) != 1 {
		return "?"
	}
	res := ""
	for _, f := range memoRoots(p, "relapse/auto", n) {
		if len(f.Params) != 2 {
			continue
		}
		// which table answers
		cell := ""
		s := memoSim(p, "relapse/auto", n, obj)
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			if rets[0].Op == "cell" {
				cell = rets[0].Name
			}
		}
		s.Run(f, []*Term{obj, tInt(0)}, func(st *State) {
			for _, fd := range structFields(n) {
				if _, ok := fd.Type().Underlying().(*types.Slice); ok {
					st.mem[tFA(obj, fd.Name())] = mk("list", "", mk("cell", fd.Name()))
				}
			}
		})
		if !from[cell] {
			continue
		}
		// what it computes
		s = memoSim(p, "relapse/auto", n, obj)
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			if isErrRet(rets) {
				return
			}
			k := contentKind(st, st.resolve(rets[0], map[*Term]bool{obj: true}, 0))
			if k != "const" {
				res = k
			}
		}
		s.Run(f, []*Term{obj, tInt(1)}, func(st *State) {
			for _, fd := range structFields(n) {
				if _, ok := fd.Type().Underlying().(*types.Slice); ok && fd.Type().String() != "" && types.Unalias(fd.Type()) == fd.Type().Underlying() {
					st.mem[tFA(obj, fd.Name())] = mk("list", "")
				}
			}
		})
	}
	return res
}
