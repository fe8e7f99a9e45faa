package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C12", "other", errorsRule) }

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (p *Prog) libPkgs() []string {
	var rels []string
	for rel := range p.ByRel {
		if strings.HasPrefix(rel, "relapse/testsuite") || strings.HasSuffix(rel, "-gen") || strings.HasPrefix(rel, "relapse/bnf") || rel == "gen" || strings.HasPrefix(rel, "gen/") {
			continue
		}
		if p.ByRel[rel].Name == "main" {
			continue
		}
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	return rels
}

// errorsRule: an error is checked, and what is done when there is one ends in an error.
func errorsRule(p *Prog, r *Report) {
	for _, f := range p.funcsIn(p.libPkgs()...) {
		if pos := p.posOf(f.Pos()); strings.Contains(pos, ".pb.") || relPkgOf(f) == "parser/yaml" {
			continue
		}
		r.Count("functions", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				res := c.Call.Signature().Results()
				for i := 0; i < res.Len(); i++ {
					if !isErr(res.At(i).Type()) {
						continue
					}
					r.Count("calls", 1)
					oneError(p, r, f, c, i)
				}
			}
		}
	}
	r.Expect("functions", 1500)
	r.Expect("calls", 800)
	r.Expect("checks", 180)
	r.Explain("every call that returns an error: the error is looked at, and every path on which there is one and it is not a known one, such as the end, ends in returning an error")
}

// oneError: the error of a call is looked at, and it ends in an error.
func oneError(p *Prog, r *Report, f *ssa.Function, c *ssa.Call, i int) {
	var v ssa.Value = c
	if c.Call.Signature().Results().Len() > 1 {
		v = nil
		for _, ref := range *c.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
				v = e
			}
		}
	}
	if neverFails(p, &c.Call) {
		r.Count("calls that cannot fail", 1)
		return
	}
	name := "a function"
	if g := c.Call.StaticCallee(); g != nil {
		name = fname(g)
	} else if c.Call.IsInvoke() {
		name = c.Call.Method.Name()
	}
	used := false
	if v != nil {
		for _, ref := range *v.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); !ok {
				used = true
			}
		}
	}
	if !used && fallsBack(f, &c.Call) == "errors the decoder repeats" {
		return
	}
	if !used {
		r.Fail(fname(f)+": "+name, p.posOf(c.Pos()), "the error of %s is ignored", name)
		return
	}
	if res := c.Call.Signature().Results(); res.Len() == 2 && i == 1 && relPkgOf(f) != "relapse/funcs" {
		usedAnyway(p, r, f, c, name, v)
	}
	if why := fallsBack(f, &c.Call); why != "" {
		r.Count(why, 1)
		return
	}
	seen := map[ssa.Value]bool{}
	looked := false
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Phi:
				follow(x)
			case *ssa.Return, *ssa.Store, *ssa.Panic:
				looked = true
			case *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.MapUpdate, *ssa.Send:
				looked = true
			case *ssa.Call:
				if x.Call.Signature().Results().Len() > 0 && !strings.HasPrefix(x.Call.String(), "fmt.") {
					looked = true
				}
			case *ssa.BinOp:
				looked = true
				k, ok := x.Y.(*ssa.Const)
				if !ok || k.Value != nil || x.Op != token.NEQ && x.Op != token.EQL {
					continue
				}
				for _, ref := range *x.Referrers() {
					if iff, ok := ref.(*ssa.If); ok {
						i := 0
						if x.Op == token.EQL {
							i = 1
						}
						tgt := iff.Block().Succs[i]
						lost(p, r, f, c, name, v, iff.Block(), tgt, nil)
					}
				}
			}
		}
	}
	follow(v)
	for _, ref := range *v.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Block() == c.Block() {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldRead(p, fa) {
				return
			}
		}
	}
	if looked {
		// from the call on, supposing that there is an error
		for _, s := range c.Block().Succs {
			if i := errorBranch(c.Block(), seen); i >= 0 && c.Block().Succs[i] != s {
				continue
			}
			if i := sentinelBranch(c.Block(), v); i >= 0 && c.Block().Succs[i] == s {
				continue
			}
			lost(p, r, f, c, name, v, c.Block(), s, seen)
		}
	}
	if !looked {
		r.Fail(fname(f)+": "+name, p.posOf(c.Pos()), "the error of %s is neither looked at nor returned", name)
	}
}

type blockEdge struct{ from, to *ssa.BasicBlock }

// takenFrom lists where a block goes when it is reached from another one: a condition that was put together before,
// as in a := x && y; if a, is known on the way from where a part of it decided.
func takenFrom(prev, b *ssa.BasicBlock) []*ssa.BasicBlock {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return b.Succs
	}
	c, not := iff.Cond, false
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, not = u.X, !not
	}
	ph, ok := c.(*ssa.Phi)
	if !ok || ph.Block() != b {
		return b.Succs
	}
	for i, pr := range b.Preds {
		if pr != prev {
			continue
		}
		if k, ok := ph.Edges[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) != not {
				return b.Succs[:1]
			}
			return b.Succs[1:]
		}
	}
	return b.Succs
}

// usedAnyway: the value of a call is used although there is an error.
func usedAnyway(p *Prog, r *Report, f *ssa.Function, c *ssa.Call, name string, v ssa.Value) {
	users := map[*ssa.BasicBlock]bool{}
	for _, ref := range *c.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, ref := range *e.Referrers() {
			switch ref.(type) {
			case *ssa.DebugRef, *ssa.Phi, *ssa.Return, *ssa.Store:
			default:
				users[ref.Block()] = true
			}
		}
	}
	if len(users) == 0 {
		return
	}
	r.Count("values with an error", 1)
	alias := map[ssa.Value]bool{v: true}
	seen := map[blockEdge]bool{}
	var walk func(prev, b *ssa.BasicBlock)
	bad := false
	walk = func(prev, b *ssa.BasicBlock) {
		if seen[blockEdge{prev, b}] || b == c.Block() {
			return
		}
		seen[blockEdge{prev, b}] = true
		if users[b] {
			bad = true
		}
		for _, s := range takenFrom(prev, b) {
			walk(b, s)
		}
	}
	for _, ref := range *v.Referrers() {
		cmp, ok := ref.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, ref := range *cmp.Referrers() {
			iff, ok := ref.(*ssa.If)
			if !ok {
				continue
			}
			if i := errorBranch(iff.Block(), alias); i >= 0 {
				walk(iff.Block(), iff.Block().Succs[i])
			}
		}
	}
	if bad {
		r.Fail(fname(f)+": "+name, p.posOf(c.Pos()), "what %s returns is used although there is an error", name)
	}
}

// lost: with an error, the function may still return without one.
func lost(p *Prog, r *Report, f *ssa.Function, c *ssa.Call, name string, v ssa.Value, from, b *ssa.BasicBlock, aliases map[ssa.Value]bool) {
	r.Count("checks", 1)
	n := f.Signature.Results().Len()
	ei := -1
	for i := 0; i < n; i++ {
		if isErr(f.Signature.Results().At(i).Type()) {
			ei = i
		}
	}
	seen := map[blockEdge]bool{}
	var walk func(prev, b *ssa.BasicBlock)
	bad, panics := false, false
	walk = func(prev, b *ssa.BasicBlock) {
		if seen[blockEdge{prev, b}] || bad {
			return
		}
		seen[blockEdge{prev, b}] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store: // kept for later
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v && fieldRead(p, fa) {
					r.Count("errors kept for later", 1)
					return
				}
			case *ssa.Call:
				if keeps(p, &x.Call, v) {
					r.Count("errors kept for later", 1)
					return
				}
			case *ssa.Panic:
				if ei >= 0 && aliases == nil {
					panics = true
				}
				return
			}
			if ret, ok := in.(*ssa.Return); ok {
				if ei < 0 {
					bad = true
					return
				}
				e := ret.Results[ei]
				if ph, ok := e.(*ssa.Phi); ok && ph.Block() == b {
					for i, pr := range b.Preds {
						if pr == prev {
							e = ph.Edges[i]
						}
					}
				}
				if k, ok := e.(*ssa.Const); ok && k.Value == nil {
					bad = true
				}
				if e != v && (nilAt(e, b, true) || anotherCall(e, v) && !nilAt(e, b, false)) {
					bad = true
				}
			}
		}
		e := errorBranch(b, aliases)
		taken := takenFrom(prev, b)
		for i, s := range b.Succs {
			if len(taken) == 1 && taken[0] != s {
				continue
			}
			if isCheck(b, v) || e >= 0 && i != e {
				continue
			}
			known := i == sentinelBranch(b, v) // it is an error that says something
			for a := range aliases {
				known = known || i == sentinelBranch(b, a)
			}
			if known {
				continue
			}
			walk(b, s)
		}
	}
	walk(from, b)
	if bad {
		r.Fail(fname(f)+": "+name, p.posOf(c.Pos()), "the error of %s may be lost", name)
	}
	if panics {
		r.Fail(fname(f)+": "+name, p.posOf(c.Pos()), "the error of %s ends in a panic, in a function that returns an error", name)
	}
}

// keeps: a function that is given an error always keeps it in a field that is read.
func keeps(p *Prog, c *ssa.CallCommon, v ssa.Value) bool {
	g := c.StaticCallee()
	if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
		return false
	}
	for i, a := range c.Args {
		if a != v || i >= len(g.Params) {
			continue
		}
		for _, in := range g.Blocks[0].Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Val == g.Params[i] {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldRead(p, fa) {
					return true
				}
			}
		}
	}
	return false
}

// anotherCall: the error is of a call that has nothing to do with the first error, and may be nil.
func anotherCall(e, v ssa.Value) bool {
	if x, ok := e.(*ssa.Extract); ok {
		e = x.Tuple
	}
	c, ok := e.(*ssa.Call)
	if !ok || c == v {
		return false
	}
	if x, ok := v.(*ssa.Extract); ok && x.Tuple == c {
		return false
	}
	for _, a := range c.Call.Args {
		if a == v {
			return false
		}
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return true
	}
	if g.Pkg != nil && (g.Pkg.Pkg.Path() == "fmt" || g.Pkg.Pkg.Path() == "errors") {
		return false
	}
	if !inRepo(g) || g.Blocks == nil {
		return true
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, x := range ret.Results {
					if _, ok := x.(*ssa.MakeInterface); !ok && isErr(x.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// nilAt: another error is known to be nil where it is returned, or not to be.
func nilAt(e ssa.Value, b *ssa.BasicBlock, isNil bool) bool {
	if e.Referrers() == nil {
		return false
	}
	for _, ref := range *e.Referrers() {
		x, ok := ref.(*ssa.BinOp)
		if !ok || x.X != e || x.Op != token.NEQ && x.Op != token.EQL {
			continue
		}
		if k, ok := x.Y.(*ssa.Const); !ok || k.Value != nil {
			continue
		}
		for _, ref := range *x.Referrers() {
			iff, ok := ref.(*ssa.If)
			if !ok {
				continue
			}
			i := 1
			if (x.Op == token.EQL) == isNil {
				i = 0
			}
			if t := iff.Block().Succs[i]; len(t.Preds) == 1 && t.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// errorBranch: the branch on which there is an error.
func errorBranch(b *ssa.BasicBlock, vs map[ssa.Value]bool) int {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	kind, same := errTest(iff.Cond, func(x ssa.Value) bool { return vs[x] }, 0)
	switch {
	case kind != "nil":
		return -1
	case same:
		return 1
	}
	return 0
}

// errTest: a condition compares an error with nil, or with the end, also through functions that only do that. same
// tells whether the condition is true when they are the same.
func errTest(c ssa.Value, is func(ssa.Value) bool, depth int) (kind string, same bool) {
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			kind, same = errTest(c.X, is, depth)
			return kind, !same
		}
	case *ssa.BinOp:
		if c.Op != token.NEQ && c.Op != token.EQL {
			return "", false
		}
		other := c.Y
		if !is(c.X) {
			if !is(c.Y) {
				return "", false
			}
			other = c.X
		}
		switch o := other.(type) {
		case *ssa.Const:
			if o.Value == nil {
				return "nil", c.Op == token.EQL
			}
		case *ssa.UnOp:
			if g, ok := o.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
				return "eof", c.Op == token.EQL
			}
		}
	case *ssa.Call:
		g := c.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) != 1 || depth > 3 {
			return "", false
		}
		ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return "", false
		}
		for i, a := range c.Call.Args {
			if is(a) && i < len(g.Params) {
				p := g.Params[i]
				return errTest(ret.Results[0], func(x ssa.Value) bool { return x == p }, depth+1)
			}
		}
	}
	return "", false
}

// sentinelBranch: the branch on which the error is one that is known.
func sentinelBranch(b *ssa.BasicBlock, v ssa.Value) int {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	kind, same := errTest(iff.Cond, func(x ssa.Value) bool { return x == v }, 0)
	switch {
	case kind != "eof":
		return -1
	case same:
		return 0
	}
	return 1
}

// isCheck: the branch is decided by a function that looks at the error, like errors.Is.
func isCheck(b *ssa.BasicBlock, v ssa.Value) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.Call)
	if kind, _ := errTest(iff.Cond, func(x ssa.Value) bool { return x == v }, 0); !ok || kind != "" {
		return false
	}
	for _, a := range c.Call.Args {
		if a == v {
			return true
		}
	}
	return false
}

// neverFails: functions whose error is always nil, or tells nothing about the input.
func neverFails(p *Prog, c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil {
		return c.IsInvoke() && (c.Method.Pkg() != nil && (c.Method.Pkg().Path() == "hash" || c.Method.Name() == "WriteByte" || c.Method.Name() == "WriteString"))
	}
	if g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "fmt":
		return strings.HasPrefix(g.Name(), "Fprint") || strings.HasPrefix(g.Name(), "Print")
	case "bytes", "strings":
		return g.Signature.Recv() != nil && strings.HasPrefix(g.Name(), "Write")
	}
	if !inRepo(g) || g.Blocks == nil {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, v := range ret.Results {
					if !isErr(v.Type()) {
						continue
					}
					if k, ok := v.(*ssa.Const); !ok || k.Value != nil {
						return false
					}
				}
			}
		}
	}
	return true
}

// fallsBack tells why an error need not end in an error.
func fallsBack(f *ssa.Function, c *ssa.CallCommon) string {
	name, pkg, recv := "", "", false
	if g := c.StaticCallee(); g != nil {
		name, recv = g.Name(), g.Signature.Recv() != nil
		if g.Pkg != nil {
			pkg = g.Pkg.Pkg.Path()
		}
	} else if c.IsInvoke() {
		name, recv = c.Method.Name(), true
	}
	errs := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		errs = errs || isErr(f.Signature.Results().At(i).Type())
	}
	rel := relPkgOf(f)
	is := func(name string) bool {
		return onlyFrom(f, func(g *ssa.Function) bool { return g.Name() == name })
	}
	switch {
	case recv && (name == "Int" || name == "Uint" || name == "Double" || name == "Bool" || name == "String" || name == "Bytes") && rel != "relapse/funcs":
		return "questions for the kind of a value" // C20
	case recv && name == "Eval" && rel == "relapse/funcs":
		return "operands of conditions" // C16, C17
	case pkg == "strconv":
		return "conversions of texts" // C20, C23, C38
	case !errs && is("String"):
		return "texts for people"
	case !errs && rel == "relapse/interp" && strings.HasPrefix(pkg, modPath+"/relapse/"):
		return "conditions the simplifier keeps as they are" // what is evaluated later gives the error
	case !errs && rel == "parser/xml" && is("Up") && name == "Skip":
		return "errors the decoder repeats" // C39
	case !errs && rel == "parser/xml" && strings.HasSuffix(name, "FieldInfo"):
		return "reflection of the xml decoder"
	}
	return ""
}

// fieldRead: a field that an error is kept in is read somewhere.
func fieldRead(p *Prog, fa *ssa.FieldAddr) bool {
	seg := segOf(fa)
	for _, f := range p.funcsIn(relPkgOf(fa.Parent())) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && relPkgOf(f) == relPkgOf(fa.Parent()) {
					if x, ok := u.X.(*ssa.FieldAddr); ok && segOf(x) == seg {
						return true
					}
				}
			}
		}
	}
	return false
}
