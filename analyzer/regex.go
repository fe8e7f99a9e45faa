package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp/syntax"
	"sort"
	"strconv"
)

// regexOf is the pattern of a package variable that is set to regexp.MustCompile of a constant, once.
func (p *Prog) regexOf(pkg, name string) (string, bool) {
	for rel, pk := range p.ByRel {
		if pk.PkgPath != pkg && rel != pkg {
			continue
		}
		pat, n := "", 0
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.ValueSpec:
					for i, nm := range x.Names {
						if o := pk.TypesInfo.Defs[nm]; nm.Name != name || o == nil || o.Parent() != pk.Types.Scope() || i >= len(x.Values) {
							continue
						}
						c, ok := x.Values[i].(*ast.CallExpr)
						if !ok || len(c.Args) != 1 {
							continue
						}
						fn, _ := pk.TypesInfo.Uses[funIdent(c.Fun)].(*types.Func)
						tv := pk.TypesInfo.Types[c.Args[0]]
						if fn == nil || fn.FullName() != "regexp.MustCompile" || tv.Value == nil {
							continue
						}
						if s, err := strconv.Unquote(tv.Value.ExactString()); err == nil {
							pat, n = s, n+1
						}
					}
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						if id, ok := ast.Unparen(l).(*ast.Ident); ok && id.Name == name {
							if o := pk.TypesInfo.Uses[id]; o != nil && o.Parent() == pk.Types.Scope() {
								n += 2
							}
						}
					}
				}
				return true
			})
		}
		return pat, n == 1
	}
	return "", false
}

func funIdent(e ast.Expr) *ast.Ident {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return e
	case *ast.SelectorExpr:
		return e.Sel
	}
	return nil
}

// regexWithin checks that every text that matches a pattern is one that an automaton accepts, and returns one that is not.
func regexWithin(pat string, d *dfa, accept func(string) bool) (string, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return "", err
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return "", err
	}
	bounds := map[rune]bool{0: true}
	for _, b := range d.bounds {
		bounds[b] = true
	}
	for _, in := range prog.Inst {
		for i := 0; i+1 < len(in.Rune); i += 2 {
			bounds[in.Rune[i]], bounds[in.Rune[i+1]+1] = true, true
		}
		if len(in.Rune) == 1 {
			bounds[in.Rune[0]], bounds[in.Rune[0]+1] = true, true
		}
	}
	var bs []rune
	for b := range bounds {
		if b <= 0x10ffff {
			bs = append(bs, b)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	closure := func(from []uint32, flags syntax.EmptyOp) map[uint32]bool {
		out := map[uint32]bool{}
		var visit func(pc uint32)
		visit = func(pc uint32) {
			if out[pc] {
				return
			}
			out[pc] = true
			in := prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				visit(in.Out)
				visit(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				visit(in.Out)
			case syntax.InstEmptyWidth:
				if e := syntax.EmptyOp(in.Arg); e&^flags == 0 {
					visit(in.Out)
				}
			}
		}
		for _, pc := range from {
			visit(pc)
		}
		return out
	}
	for _, in := range prog.Inst {
		if in.Op == syntax.InstEmptyWidth {
			if e := syntax.EmptyOp(in.Arg); e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
				return "", fmt.Errorf("undecided: the pattern %s", pat)
			}
		}
	}
	type state struct {
		pcs     []uint32 // before the closure
		matched bool
		first   bool
		q       int
		text    string
	}
	key := func(s state) string { return fmt.Sprint(s.pcs, s.matched, s.first, s.q) }
	work := []state{{pcs: []uint32{uint32(prog.Start)}, first: true}}
	seen := map[string]bool{key(work[0]): true}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if len(seen) > 20000 {
			return "", fmt.Errorf("undecided: the pattern %s", pat)
		}
		var begin syntax.EmptyOp
		if s.first {
			begin = syntax.EmptyBeginText
		}
		end := closure(s.pcs, begin|syntax.EmptyEndText)
		ok := s.matched
		for pc := range end {
			ok = ok || prog.Inst[pc].Op == syntax.InstMatch
		}
		if ok && !(s.q >= 0 && accept(d.accept[s.q])) {
			return s.text, nil
		}
		here := closure(s.pcs, begin)
		m := s.matched
		for pc := range here {
			m = m || prog.Inst[pc].Op == syntax.InstMatch
		}
		for _, b := range bs {
			set := map[uint32]bool{uint32(prog.Start): true} // a match may start later
			for pc := range here {
				if in := prog.Inst[pc]; (in.Op == syntax.InstRune || in.Op == syntax.InstRune1 || in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL) && in.MatchRune(b) {
					set[in.Out] = true
				}
			}
			n := state{matched: m, q: d.step(s.q, b), text: s.text + string(b)}
			for pc := range set {
				n.pcs = append(n.pcs, pc)
			}
			sort.Slice(n.pcs, func(i, j int) bool { return n.pcs[i] < n.pcs[j] })
			if !m && len(n.pcs) == 1 && len(closure(n.pcs, syntax.EmptyEndText)) == len(closure(n.pcs, 0)) && deadStart(prog, closure(n.pcs, syntax.EmptyEndText)) {
				continue
			}
			if k := key(n); !seen[k] {
				seen[k] = true
				work = append(work, n)
			}
		}
	}
	return "", nil
}

// deadStart: nothing can be matched from here.
func deadStart(prog *syntax.Prog, set map[uint32]bool) bool {
	for pc := range set {
		switch prog.Inst[pc].Op {
		case syntax.InstMatch, syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			return false
		}
	}
	return true
}
