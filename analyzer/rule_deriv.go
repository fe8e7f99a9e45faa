package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: the call pass and the return pass of the derivative walk the leaves of a pattern in the same order.
// C04: the residual pattern of the return pass is the derivative of the pattern.

func init() {
	register("C03", "other", func(p *Prog, r *Report) { ruleDeriv(p, r, true) })
	register("C04", "other", func(p *Prog, r *Report) { ruleDeriv(p, r, false) })
}

type derivImpl struct {
	pkg       string
	kind      string // relapse/ast or relapse/intern
	call, ret *ssa.Function
}

func isPatternPtr(t types.Type) string {
	if _, ok := types.Unalias(t).(*types.Pointer); !ok {
		return ""
	}
	n := named(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Name() != "Pattern" {
		return ""
	}
	return rel(n.Obj().Pkg().Path())
}

func (p *Prog) selfRecursive(f *ssa.Function) bool {
	for _, g := range p.refsOf(f) {
		if p.reach([]*ssa.Function{g}, false)[f] {
			return true
		}
	}
	return false
}

func (p *Prog) derivImpls() []derivImpl {
	var out []derivImpl
	for _, pkg := range evalPkgs {
		im := derivImpl{pkg: pkg}
		fs := p.funcsIn(pkg)
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			if f.Parent() != nil {
				continue
			}
			k := ""
			npat := 0
			var rest types.Type
			for _, x := range f.Params {
				if q := isPatternPtr(x.Type()); q != "" {
					k = q
					npat++
				} else if _, ok := x.Type().Underlying().(*types.Slice); ok {
					rest = x.Type()
				}
			}
			if npat != 1 || len(f.Params) < 2 || !p.selfRecursive(f) {
				continue
			}
			res := f.Signature.Results()
			if res.Len() >= 2 && rest != nil && isPatternPtr(res.At(0).Type()) == k && types.Identical(res.At(1).Type(), rest) {
				if im.ret == nil {
					im.ret, im.kind = f, k
				}
				continue
			}
			if res.Len() >= 1 && rest == nil {
				if _, ok := res.At(0).Type().Underlying().(*types.Slice); ok && im.call == nil {
					im.call = f
				}
			}
		}
		if im.call == nil && im.ret == nil {
			continue
		}
		if im.call == nil || im.ret == nil {
			failAnchor("package %s has only one pass of the derivative", pkg)
		}
		out = append(out, im)
	}
	return out
}

// derivPath is what one pass does on one path.
type derivPath struct {
	known map[string]bool // nullability assumptions
	slot  map[bool]bool   // what the path assumed of the slot it consumes
	seq   []*PE           // patterns recursed into, in order; nil for a slot
	expr  *PE
	items []*Term // slots of the call pass
	conds map[*Term]bool
	pos   tokenPos
	trace []string
}

func ruleDeriv(p *Prog, r *Report, order bool) {
	ims := p.derivImpls()
	if order {
		r.Explain("Both passes of the derivative are enumerated path by path for every pattern kind (child lists of interned patterns: every length 1 to 3); the sequence of leaf conditions the call pass emits, which child it recurses into and in which order, is compared with the sequence the return pass consumes under the same nullability assumptions. Slots are checked to pair each condition with its own accepting and rejecting pattern.")
	} else {
		r.Explain("The return pass is enumerated path by path for every pattern kind (child lists of interned patterns: every length 1 to 3); the pattern it builds is compared, modulo language preserving rewriting and under every nullability assumption, with the unfolded definition of the derivative.")
	}
	for _, im := range ims {
		im := im
		r.Count("derivative implementations", 1)
		r.Sample("%s and %s", fname(im.call), fname(im.ret))
		if im.kind == "relapse/ast" {
			kinds := p.astKinds()
			for _, k := range sortedNames(kinds) {
				k := k
				r.guard("deriv:"+im.pkg+":"+k, func() { p.derivKind(r, im, k, 0, order) })
			}
		} else {
			var ks []string
			for k := range p.internKinds() {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				switch k {
				case "Concat", "Or", "And", "Interleave":
					for n := 1; n <= 3; n++ {
						r.guard("deriv:"+im.pkg+":"+k, func() { p.derivKind(r, im, k, n, order) })
					}
				default:
					r.guard("deriv:"+im.pkg+":"+k, func() { p.derivKind(r, im, k, 1, order) })
				}
			}
		}
	}
	r.Expect("derivative implementations", 3)
	r.Expect("kinds of pattern", 38)
	if order {
		for _, im := range ims {
			im := im
			r.guard("lists:"+im.pkg, func() { p.derivLists(r, im) })
		}
		r.guard("ifexpr", func() { ruleIfExprs(p, r) })
		r.Expect("list passes", 6)
	}
}

// specExpr is the meaning of the pattern parameter for a kind.
func (p *Prog) specExpr(im derivImpl, pt *Term, kind string, n int, refs *Term) *PE {
	if im.kind == "relapse/ast" {
		node := tField(pt, kind)
		switch kind {
		case "Empty", "ZAny":
			return pe(kind)
		case "Concat", "Or", "And", "Interleave":
			return pe(kind, peVar(tField(node, "LeftPattern")), peVar(tField(node, "RightPattern")))
		case "Not", "ZeroOrMore", "Contains", "Optional":
			return pe(kind, peVar(tField(node, "Pattern")))
		case "Reference":
			return peVar(mk("lookup", "", refs, tField(node, "Name")))
		case "TreeNode":
			return &PE{Op: "Node", Atom: tField(node, "Name"), Kids: []*PE{peVar(tField(node, "Pattern"))}}
		case "LeafNode":
			return &PE{Op: "Node", Atom: tField(node, "Expr"), Kids: []*PE{pe("Empty")}}
		}
		return nil
	}
	var ks []*PE
	for i := 0; i < n; i++ {
		ks = append(ks, peVar(sym(fmt.Sprintf("child%d", i))))
	}
	switch kind {
	case "Empty", "ZAny":
		return pe(kind)
	case "Concat", "Or", "And", "Interleave", "Not", "ZeroOrMore", "Contains", "Optional":
		return pe(kind, ks...)
	case "Reference":
		return peVar(mk("call", "invoke:Deref", refs, tField(pt, "Ref")))
	case "Node":
		return &PE{Op: "Node", Atom: tField(pt, "Func"), Kids: ks}
	}
	return nil
}

func (p *Prog) derivKind(r *Report, im derivImpl, kind string, n int, order bool) {
	key := "deriv:" + im.pkg + ":" + kind
	rets, spec := p.derivPass(r, key, im, im.ret, kind, n, true)
	r.Count("kinds of pattern", 1)
	if len(rets) == 0 {
		r.Fail(key, p.posOf(im.ret.Pos()), "%s has no result for a %s pattern", fname(im.ret), kind)
		return
	}
	if !order {
		for _, rp := range rets {
			r.Count("paths", 1)
			if spec.Op == "Node" {
				want := pe("None")
				if rp.slot[true] {
					want = pe("Empty")
				} else if !rp.slot[false] {
					r.FailTrace(key, p.posOf(rp.pos), rp.trace, "the residual of a %s pattern does not depend on the result of its children", kind)
					continue
				}
				if ok, why := peEqual(rp.expr, want, rp.known); !ok {
					r.FailTrace(key, p.posOf(rp.pos), rp.trace, "residual of a %s pattern whose children are nullable=%v: %s", kind, rp.slot[true], why)
				}
				continue
			}
			want := &PE{Op: "D", Kids: []*PE{spec}}
			if spec.Op != "Var" {
				want = pe2D(spec)
			}
			if ok, why := peEqual(rp.expr, want, rp.known); !ok {
				r.FailTrace(key, p.posOf(rp.pos), rp.trace, "residual of a %s pattern: %s", kind, why)
			}
		}
		return
	}
	calls, _ := p.derivPass(r, key, im, im.call, kind, n, false)
	if len(calls) == 0 {
		r.Fail(key, p.posOf(im.call.Pos()), "%s has no result for a %s pattern", fname(im.call), kind)
		return
	}
	for _, cp := range calls {
		for _, rp := range rets {
			known := map[string]bool{}
			conflict := false
			for k, v := range cp.known {
				known[k] = v
			}
			for k, v := range rp.known {
				if w, ok := known[k]; ok && w != v {
					conflict = true
				}
				known[k] = v
			}
			if conflict {
				continue
			}
			r.Count("path pairs", 1)
			if ok, why := seqEqual(cp.seq, rp.seq, known); !ok {
				r.FailTrace(key, p.posOf(rp.pos), append(append([]string{"call pass:"}, cp.trace...), append([]string{"return pass:"}, rp.trace...)...), "%s pattern: %s", kind, why)
				return
			}
		}
		// slots of a node
		if spec.Op == "Node" {
			p.checkSlot(r, key, im, kind, spec, cp)
		}
	}
}

// pe2D is the derivative of a pattern, unfolded by the definition.
func pe2D(e *PE) *PE { return &PE{Op: "D", Kids: []*PE{e}} }

func seqEqual(a, b []*PE, known map[string]bool) (bool, string) {
	env := newNullEnv()
	for k, v := range known {
		env.known[k] = v
	}
	flat := func(xs []*PE) ([]string, bool) {
		out := []string{}
		for _, x := range xs {
			if x == nil {
				out = append(out, "slot")
				continue
			}
			s, ok := env.slots(x)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	}
	x, ok1 := flat(a)
	y, ok2 := flat(b)
	if ok1 && ok2 {
		if strings.Join(x, ";") == strings.Join(y, ";") {
			return true, ""
		}
		why := fmt.Sprintf("the call pass visits [%s], the return pass visits [%s]", strings.Join(x, "; "), strings.Join(y, "; "))
		var ks []string
		for k, v := range known {
			ks = append(ks, fmt.Sprintf("nullable(%s)=%v", k, v))
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			why += " when " + strings.Join(ks, ", ")
		}
		return false, why
	}
	for k := range env.need {
		for _, v := range []bool{false, true} {
			kn := map[string]bool{}
			for q, w := range known {
				kn[q] = w
			}
			kn[k] = v
			if ok, why := seqEqual(a, b, kn); !ok {
				return false, why
			}
		}
		return true, ""
	}
	return false, "undecided"
}

// derivPass enumerates one pass for one kind.
func (p *Prog) derivPass(r *Report, key string, im derivImpl, fn *ssa.Function, kind string, n int, isRet bool) ([]derivPath, *PE) {
	var pt, refs, rest, label *Term
	var args []*Term
	patIdx := -1
	for i, x := range fn.Params {
		t := mk("param", x.Name())
		t.Typ = x.Type()
		args = append(args, t)
		if isPatternPtr(x.Type()) != "" {
			pt = t
			patIdx = i
		} else if _, ok := x.Type().Underlying().(*types.Slice); ok {
			rest = t
		} else if i == 0 {
			refs = t
		} else {
			label = t
		}
	}
	restIdx := -1
	for i, x := range fn.Params {
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			restIdx = i
		}
	}
	_ = label
	null := p.nullableAst()
	s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 14}
	s.Recursion = func(f *ssa.Function) bool { return relPkgOf(f) == "relapse/ast" }
	// the interned pattern, with children of known number
	spec := p.specExpr(im, pt, kind, n, refs)
	if spec == nil {
		failAnchor("unknown pattern kind %s", kind)
	}
	var setup func(st *State)
	if im.kind == "relapse/ast" {
		s.Decide = decideAstKind(pt, kind, p.astKinds())
	} else {
		kinds := p.internKinds()
		ty := tField(pt, "Type")
		childs := []*Term{}
		for i := 0; i < n; i++ {
			childs = append(childs, sym(fmt.Sprintf("child%d", i)))
		}
		setup = func(st *State) {
			st.mem[tFA(pt, "Type")] = kinds[kind]
			if len(spec.Kids) > 0 || kind == "Node" {
				st.mem[tFA(pt, "Patterns")] = mk("list", "", childs...)
			}
		}
		_ = ty
	}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == fn && patIdx < len(c.Args) && c.Args[patIdx] == pt {
			r.Fail(key, p.posOf(c.Instr.Pos()), "%s calls itself on the same %s pattern and never ends", fname(fn), kind)
		}
		switch {
		case c.Callee == fn || c.Callee == null:
			return Pure
		case c.Callee == nil:
			return Pure
		case relPkgOf(c.Callee) == "relapse/ast" || relPkgOf(c.Callee) == im.pkg:
			return Inline
		case !inRepo(c.Callee):
			return Opaque
		}
		return Pure
	}
	var out []derivPath
	rd := &exprReader{p: p}
	selfCall := func(t *Term) *Term { // the call a result is from
		if t.Op == "extract" && t.Args[0].Op == "call" && t.Args[0].Name == fname(fn) {
			return t.Args[0]
		}
		if t.Op == "call" && t.Name == fname(fn) {
			return t
		}
		return nil
	}
	rd.deriv = func(t *Term) *PE {
		if t == pt {
			return spec
		}
		if t.Op == "extract" && t.Name == "0" {
			if c := selfCall(t); c != nil {
				e, err := rd.read(c.Args[patIdx])
				if err != nil {
					return nil
				}
				return pe2D(e)
			}
		}
		if im.kind == "relapse/intern" && t.Op == "call" && t.Name == "invoke:Deref" {
			return peVar(t)
		}
		return nil
	}
	isErr := func(i int) bool {
		return types.Identical(fn.Signature.Results().At(i).Type(), types.Universe.Lookup("error").Type())
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		last := len(rets) - 1
		if isErr(last) {
			if nl, ok := st.IsNil(rets[last]); ok && !nl {
				return
			} else if !ok {
				// the error of a constructor is passed on together with its result
				_ = nl
			}
		}
		path := derivPath{known: map[string]bool{}, slot: map[bool]bool{}, conds: map[*Term]bool{}, pos: pos, trace: st.traceList()}
		env := newNullEnv()
		for f, v := range st.facts {
			switch {
			case f.Op == "call" && f.Name == fname(null):
				x := f.Args[1]
				if rest != nil && x == tIndex(rest, tInt(0)) {
					path.slot[v] = true
					continue
				}
				e, err := rd.read(st.Resolve(x))
				if err != nil {
					continue
				}
				e = env.norm(e)
				if w, ok := env.null(e); ok {
					if w != v {
						return // infeasible
					}
					continue
				}
				path.known[e.String()] = v
			case f.Op == "field" && f.Name == "nullable":
				e, err := rd.read(f.Args[0])
				if err == nil {
					path.known[e.String()] = v
				}
			case rest != nil && f == tIndex(rest, tInt(0)):
				path.slot[v] = true
			default:
				path.conds[f] = v
			}
		}
		if isRet {
			e, err := rd.read(st.Resolve(rets[0]))
			if err != nil {
				st.Fail(pos, "undecided: the residual of a %s pattern: %v", kind, err)
				return
			}
			path.expr = e
			// the chain of rests
			var chain []*PE
			inChain := map[*Term]bool{}
			cur := st.Resolve(rets[1])
			for i := 0; cur != rest; i++ {
				if i > 20 {
					st.Fail(pos, "undecided: the rest of a %s pattern", kind)
					return
				}
				if cur.Op == "extract" && cur.Name == "1" {
					if c := selfCall(cur); c != nil {
						x, err := rd.read(c.Args[patIdx])
						if err != nil {
							st.Fail(pos, "undecided: %v", err)
							return
						}
						chain = append(chain, x)
						inChain[c] = true
						cur = c.Args[restIdx]
						continue
					}
				}
				if cur.Op == "slice" && cur.Args[2].Op == "end" {
					if k, ok := intOf(cur.Args[1]); ok && k > 0 {
						for ; k > 0; k-- {
							chain = append(chain, nil)
						}
						cur = cur.Args[0]
						continue
					}
				}
				st.Fail(pos, "the rest returned for a %s pattern is %s: it is not what the return pass left of the results it was given", kind, short(cur.String()))
				return
			}
			for i, j := 0, len(chain)-1; i < j; i, j = i+1, j-1 {
				chain[i], chain[j] = chain[j], chain[i]
			}
			path.seq = chain
			// every derivative that is used was threaded
			bad := false
			rets0 := st.Resolve(rets[0])
			rets0.any(func(t *Term) bool {
				if t.Op == "call" && t.Name == fname(fn) && !inChain[t] {
					bad = true
				}
				return false
			})
			if bad {
				st.Fail(pos, "a derivative used for a %s pattern reads results that are not consumed in order", kind)
				return
			}
		} else {
			seq, items, err := parseSlots(st.Resolve(rets[0]), selfCall, patIdx, rd)
			if err != nil {
				st.Fail(pos, "undecided: the calls of a %s pattern: %v", kind, err)
				return
			}
			path.seq, path.items = seq, items
		}
		out = append(out, path)
	}
	s.Run(fn, args, setup)
	r.Sim(key, s)
	return out, spec
}

func parseSlots(t *Term, selfCall func(*Term) *Term, patIdx int, rd *exprReader) ([]*PE, []*Term, error) {
	switch t.Op {
	case "nil":
		return nil, nil, nil
	case "list":
		var seq []*PE
		for range t.Args {
			seq = append(seq, nil)
		}
		return seq, t.Args, nil
	case "append":
		a, x, err := parseSlots(t.Args[0], selfCall, patIdx, rd)
		if err != nil {
			return nil, nil, err
		}
		b, y, err := parseSlots(t.Args[1], selfCall, patIdx, rd)
		if err != nil {
			return nil, nil, err
		}
		return append(append([]*PE{}, a...), b...), append(append([]*Term{}, x...), y...), nil
	case "call", "extract":
		if c := selfCall(t); c != nil && (t.Op == "call" || t.Name == "0") {
			e, err := rd.read(c.Args[patIdx])
			if err != nil {
				return nil, nil, err
			}
			return []*PE{e}, nil, nil
		}
	}
	return nil, nil, fmt.Errorf("%s is not understood as a list of calls", short(t.String()))
}

// checkSlot: the condition of the slot is that of the node, and its outcomes are the node's children or nothing.
func (p *Prog) checkSlot(r *Report, key string, im derivImpl, kind string, spec *PE, cp derivPath) {
	pos := p.posOf(cp.pos)
	if len(cp.items) != 1 {
		r.Fail(key, pos, "a %s pattern asks for %d conditions instead of one", kind, len(cp.items))
		return
	}
	r.Count("slots", 1)
	it := strip(cp.items[0])
	rd := &exprReader{p: p}
	child := spec.Kids[0]
	check := func(t *Term, want *PE, what string) {
		e, err := rd.read(t)
		if err != nil {
			r.Fail(key, pos, "undecided: %v", err)
			return
		}
		if ok, why := peEqual(e, want, nil); !ok {
			r.Fail(key, pos, "the children of a %s pattern when its condition %s: %s", kind, what, why)
		}
	}
	if it.Op == "new" && it.Name != "relapse/ast.Pattern" {
		// a record of condition and outcomes
		var cond, thn, els *Term
		for _, kv := range it.Args {
			switch strings.ToLower(kv.Name) {
			case "cond":
				cond = kv.Args[0]
			case "then", "thn":
				thn = kv.Args[0]
			case "els", "else":
				els = kv.Args[0]
			}
		}
		if cond == nil || thn == nil || els == nil {
			r.Fail(key, pos, "undecided: the slot of a %s pattern has no condition and outcomes", kind)
			return
		}
		if !cond.mentions(spec.Atom) {
			r.Fail(key, pos, "the condition of a %s pattern is not its own: %s", kind, short(cond.String()))
		}
		check(thn, child, "holds")
		check(els, pe("None"), "does not hold")
		return
	}
	// evaluated at once
	decided := false
	for c, v := range cp.conds {
		if c.mentions(spec.Atom) && c.any(func(t *Term) bool { return t.Op == "call" && t.Name == "invoke:Eval" }) && !(c.Op == "bin") {
			decided = true
			if v {
				check(it, child, "holds")
			} else {
				check(it, pe("None"), "does not hold")
			}
		}
	}
	if !decided {
		r.Fail(key, pos, "the children of a %s pattern do not depend on its condition", kind)
	}
}

// derivLists: the list versions of the passes handle every pattern once, in order, threading the rest.
func (p *Prog) derivLists(r *Report, im derivImpl) {
	for _, f := range p.funcsIn(im.pkg) {
		if f.Parent() != nil || f == im.call || f == im.ret {
			continue
		}
		direct := func(g *ssa.Function) bool {
			for _, c := range callsIn(f) {
				if c.Common().StaticCallee() == g {
					return true
				}
			}
			return false
		}
		var seqP *ssa.Parameter
		for _, x := range f.Params {
			if patternElem(x.Type()) == im.kind && seqP == nil {
				seqP = x
			}
		}
		if seqP == nil {
			continue
		}
		for _, target := range []*ssa.Function{im.call, im.ret} {
			if !direct(target) || p.reach(p.refsOf(target), false)[f] {
				continue
			}
			f, target := f, target
			key := "lists:" + fname(f)
			r.guard(key, func() { p.derivList(r, key, im, f, target, seqP) })
		}
	}
}

func (p *Prog) derivList(r *Report, key string, im derivImpl, f, target *ssa.Function, seqP *ssa.Parameter) {
	r.Count("list passes", 1)
	r.Sample("list pass %s", fname(f))
	patIdx, restIdx := -1, -1
	for i, x := range target.Params {
		if isPatternPtr(x.Type()) != "" {
			patIdx = i
		} else if _, ok := x.Type().Underlying().(*types.Slice); ok {
			restIdx = i
		}
	}
	for n := 1; n <= 3; n++ {
		s := &Sim{P: p, NoHavoc: true, Unroll: true}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee == target {
				return Pure
			}
			if c.Callee == nil || !inRepo(c.Callee) {
				return Pure
			}
			if relPkgOf(c.Callee) == im.pkg && !p.reach([]*ssa.Function{c.Callee}, false)[target] {
				return Pure
			}
			return Inline
		}
		var args []*Term
		var rest *Term
		var elems []*Term
		for i := 0; i < n; i++ {
			elems = append(elems, sym(fmt.Sprintf("pattern%d", i)))
		}
		for _, x := range f.Params {
			if x == seqP {
				args = append(args, mk("list", "", elems...))
			} else {
				t := mk("param", x.Name())
				t.Typ = x.Type()
				args = append(args, t)
				if _, ok := x.Type().Underlying().(*types.Slice); ok {
					rest = t
				}
			}
		}
		done := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			last := len(rets) - 1
			if types.Identical(f.Signature.Results().At(last).Type(), types.Universe.Lookup("error").Type()) {
				if nl, ok := st.IsNil(rets[last]); !ok || !nl {
					return
				}
			}
			done++
			res := st.Resolve(rets[0])
			isCall := func(t *Term) *Term {
				t = strip(t)
				if t.Op == "extract" && t.Name == "0" {
					t = t.Args[0]
				}
				if t.Op == "call" && t.Name == fname(target) {
					return t
				}
				return nil
			}
			if restIdx >= 0 {
				if res.Op != "list" || len(res.Args) != n {
					st.Fail(pos, "%s returns %s for %d patterns", fname(f), short(res.String()), n)
					return
				}
				cur := rest
				for i, e := range res.Args {
					c := isCall(e)
					if c == nil || c.Args[patIdx] != elems[i] {
						st.Fail(pos, "result %d of %s is not the residual of pattern %d: %s", i, fname(f), i, short(e.String()))
						return
					}
					if c.Args[restIdx] != cur {
						st.Fail(pos, "pattern %d of %s does not read the results left by the patterns before it", i, fname(f))
						return
					}
					cur = mk("extract", "1", c)
				}
				return
			}
			// concatenation in order
			var parts []*Term
			var flat func(t *Term)
			flat = func(t *Term) {
				switch t.Op {
				case "append":
					flat(t.Args[0])
					flat(t.Args[1])
				case "nil":
				case "list":
					for _, x := range t.Args {
						parts = append(parts, x)
					}
				default:
					parts = append(parts, t)
				}
			}
			flat(res)
			if len(parts) != n {
				st.Fail(pos, "%s returns %s for %d patterns", fname(f), short(res.String()), n)
				return
			}
			for i, e := range parts {
				var c *Term
				e.any(func(t *Term) bool {
					if x := isCall(t); x != nil {
						c = x
					}
					return c != nil
				})
				if c == nil || c.Args[patIdx] != elems[i] {
					st.Fail(pos, "part %d of the calls of %s is not that of pattern %d: %s", i, fname(f), i, short(e.String()))
					return
				}
			}
		}
		s.Run(f, args, nil)
		r.Sim(key, s)
		if done == 0 && len(s.Errs) == 0 {
			r.Fail(key, p.posOf(f.Pos()), "undecided: %s never returns a result", fname(f))
		}
	}
}

// ruleIfExprs: evaluating a slot picks the accepting pattern exactly when the condition holds.
func ruleIfExprs(p *Prog, r *Report) {
	for _, pkg := range evalPkgs {
		for _, f := range p.funcsIn(pkg) {
			recv := f.Signature.Recv()
			if recv == nil || f.Signature.Results().Len() != 2 || isPatternPtr(f.Signature.Results().At(0).Type()) == "" {
				continue
			}
			n := named(recv.Type())
			if n == nil {
				continue
			}
			us, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var cond, thn, els string
			for i := 0; i < us.NumFields(); i++ {
				switch strings.ToLower(us.Field(i).Name()) {
				case "cond":
					cond = us.Field(i).Name()
				case "then", "thn":
					thn = us.Field(i).Name()
				case "els", "else":
					els = us.Field(i).Name()
				}
			}
			if cond == "" || thn == "" || els == "" {
				continue
			}
			f := f
			key := "ifexpr:" + fname(f)
			r.Count("slot evaluators", 1)
			r.guard(key, func() {
				self := mk("param", f.Params[0].Name())
				s := &Sim{P: p, NoHavoc: true}
				s.Classify = func(st *State, c *Call) Action {
					if c.Callee != nil && relPkgOf(c.Callee) == relPkgOf(f) {
						return Inline
					}
					return Pure
				}
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					if nl, ok := st.IsNil(rets[1]); ok && !nl {
						return
					}
					c, v, found := evalFact(st, tField(self, cond))
					_ = c
					switch {
					case found && v && rets[0] == tField(self, thn):
					case found && !v && rets[0] == tField(self, els):
					case !found && rets[0] == tField(self, thn) && isNilFact(st, tField(self, els)):
					default:
						st.Fail(pos, "%s returns %s when its condition is %v", fname(f), rets[0], v)
					}
				}
				s.Run(f, nil, nil)
				r.Sim(key, s)
			})
		}
	}
	r.Expect("slot evaluators", 1)
}

func isNilFact(st *State, t *Term) bool {
	n, ok := st.IsNil(t)
	return ok && n
}

// evalFact finds the assumed outcome of evaluating a condition.
func evalFact(st *State, cond *Term) (*Term, bool, bool) {
	for f, v := range st.facts {
		if f.Op == "extract" && f.Name == "0" && f.mentions(cond) && f.Args[0].Op == "call" && f.Args[0].Name == "invoke:Eval" {
			return f, v, true
		}
	}
	return nil, false, false
}
