package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The pattern algebra: the kinds of ast.Pattern (one-of pointers) and of intern.Pattern (type tags).

type kindSpec struct {
	Name     string
	Children []string // child patterns, as fields of the ast node
}

// astKinds reads the kinds from the declaration of ast.Pattern: the pointer fields.
func (p *Prog) astKinds() map[string]*types.Struct {
	n := p.Type("relapse/ast", "Pattern")
	st := n.Underlying().(*types.Struct)
	out := map[string]*types.Struct{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		m := named(f.Type())
		if m == nil || m.Obj().Pkg() != n.Obj().Pkg() {
			continue
		}
		if s, ok := m.Underlying().(*types.Struct); ok {
			out[f.Name()] = s
		}
	}
	return out
}

func sortedNames(m map[string]*types.Struct) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// childFields lists the sub-patterns of an ast node.
func (p *Prog) childFields(s *types.Struct) []string {
	pat := p.Type("relapse/ast", "Pattern")
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if m := named(s.Field(i).Type()); m != nil && m.Obj() == pat.Obj() {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

// internKinds reads the constants of intern.PatternType.
func (p *Prog) internKinds() map[string]*Term {
	t := p.Type("relapse/intern", "PatternType")
	out := map[string]*Term{}
	sc := p.ByRel["relapse/intern"].Types.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), t) {
			out[n] = mk("const", c.Val().ExactString())
		}
	}
	return out
}

// decideAstKind assumes that the pattern term is of the kind: that field is set and no other.
func decideAstKind(pt *Term, kind string, kinds map[string]*types.Struct) func(*Term) (bool, bool) {
	m := map[*Term]bool{}
	for k := range kinds {
		m[tEq(tField(pt, k), tNil)] = k != kind
	}
	m[tEq(pt, tNil)] = false
	// the children of a well-formed node are set
	if s := kinds[kind]; s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
				m[tEq(tField(tField(pt, kind), s.Field(i).Name()), tNil)] = false
			}
		}
	}
	return func(t *Term) (bool, bool) {
		v, ok := m[t]
		return v, ok
	}
}

// truth is a row of what a boolean function returns on a path.
type truthRow struct {
	Facts map[*Term]bool
	Ret   *Term
	Pos   tokenPos
	Trace []string
}

// evalBool evaluates a boolean term under an assignment of atoms.
func evalBool(t *Term, asg map[*Term]bool) (val, ok bool) {
	switch {
	case t.isTrue():
		return true, true
	case t.isFalse():
		return false, true
	}
	if v, ok := asg[t]; ok {
		return v, true
	}
	if t.Op == "un" && t.Name == "!" {
		v, ok := evalBool(t.Args[0], asg)
		return !v, ok
	}
	if t.Op == "bin" && (t.Name == "==" || t.Name == "!=") {
		a, ok1 := evalBool(t.Args[0], asg)
		b, ok2 := evalBool(t.Args[1], asg)
		if ok1 && ok2 {
			return (a == b) == (t.Name == "=="), true
		}
	}
	return false, false
}

// compareTruth checks that the rows compute want over the atoms, for every assignment of the atoms. Conditions
// that are no function of the atoms make the row undecided.
func compareTruth(rows []truthRow, atoms []*Term, want func(asg map[*Term]bool) bool) (bad []string) {
	n := len(atoms)
	for mask := 0; mask < 1<<n; mask++ {
		asg := map[*Term]bool{}
		for i, a := range atoms {
			asg[a] = mask&(1<<i) != 0
		}
		w := want(asg)
		reached := false
		for _, row := range rows {
			feas := true
			for f, v := range row.Facts {
				if x, ok := evalBool(f, asg); ok && x != v {
					feas = false
				}
			}
			if !feas {
				continue
			}
			reached = true
			x, ok := evalBool(row.Ret, asg)
			if !ok {
				bad = append(bad, fmt.Sprintf("undecided: returns %s", short(row.Ret.String())))
			} else if x != w {
				bad = append(bad, fmt.Sprintf("gives %v where %v is required (%s)", x, w, renderAsg(atoms, asg)))
			}
		}
		if !reached {
			bad = append(bad, fmt.Sprintf("no path returns an answer for %s", renderAsg(atoms, asg)))
		}
	}
	return dedup(bad)
}

func renderAsg(atoms []*Term, asg map[*Term]bool) string {
	if len(atoms) == 0 {
		return "always"
	}
	var ss []string
	for _, a := range atoms {
		ss = append(ss, fmt.Sprintf("%s=%v", short(a.String()), asg[a]))
	}
	return strings.Join(ss, ", ")
}

func dedup(ss []string) []string {
	m := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	return out
}

// collectTruth runs a boolean function, treating recursion as an atom.
func collectTruth(p *Prog, fn *ssa.Function, args []*Term, decide func(*Term) (bool, bool), pure func(c *Call) bool) ([]truthRow, []simErr, int) {
	var rows []truthRow
	s := &Sim{P: p, NoHavoc: true, Decide: decide}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && (c.Callee == fn || pure != nil && pure(c)) {
			return Pure
		}
		return Inline
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		fs := map[*Term]bool{}
		for k, v := range st.facts {
			fs[k] = v
		}
		rows = append(rows, truthRow{fs, st.Resolve(rets[0]), pos, st.traceList()})
	}
	s.Run(fn, args, nil)
	return rows, s.Errs, s.States
}
