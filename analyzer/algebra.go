package main

import (
	"fmt"
	"sort"
	"strings"
)

// PE is a pattern expression: what a term that builds or names a pattern means.
type PE struct {
	Op   string // None Empty ZAny Concat Or And Interleave ZeroOrMore Not Node Ref Var D
	Kids []*PE
	Atom *Term // Var, Ref (the name), Node (the construct), D (the rest it was given)
	s    string
}

func pe(op string, kids ...*PE) *PE { return &PE{Op: op, Kids: kids} }
func peVar(t *Term) *PE             { return &PE{Op: "Var", Atom: t} }

func (e *PE) String() string {
	if e.s != "" {
		return e.s
	}
	ks := make([]string, len(e.Kids))
	for i, k := range e.Kids {
		ks[i] = k.String()
	}
	j := strings.Join(ks, ", ")
	switch e.Op {
	case "Var":
		e.s = e.Atom.String()
	case "Node", "Ref":
		e.s = e.Op + "<" + e.Atom.String() + ">(" + j + ")"
	case "D":
		e.s = "deriv(" + j + ")"
	default:
		e.s = e.Op
		if len(ks) > 0 {
			e.s += "(" + j + ")"
		}
	}
	return e.s
}

// nullEnv answers whether a pattern accepts the empty sequence, from assumptions on atoms.
type nullEnv struct {
	known map[string]bool // rendered Var / D / Ref
	need  map[string]*PE  // atoms that were asked for and are not known
	// constraints and equations of a path
	record      bool
	simpleAtoms map[string]bool
	conflicts   [][]*Term // conditions that are never true together
	cons        []nullCons
	pend        [][2]*PE
	eqs         map[string]*PE
	atomEq      bool
}

func (n *nullEnv) simple(t *Term) {
	if n.simpleAtoms == nil {
		n.simpleAtoms = map[string]bool{}
	}
	n.simpleAtoms[t.String()] = true
}

func newNullEnv() *nullEnv { return &nullEnv{known: map[string]bool{}, need: map[string]*PE{}} }

func (n *nullEnv) null(e *PE) (bool, bool) {
	switch e.Op {
	case "Empty", "ZAny", "ZeroOrMore":
		return true, true
	case "None", "Node":
		return false, true
	case "Concat", "And", "Interleave":
		unk := false
		for _, k := range e.Kids {
			v, ok := n.null(k)
			if !ok {
				unk = true
			} else if !v {
				return false, true
			}
		}
		return !unk, !unk
	case "Or":
		unk := false
		for _, k := range e.Kids {
			v, ok := n.null(k)
			if !ok {
				unk = true
			} else if v {
				return true, true
			}
		}
		return false, !unk
	case "Not":
		v, ok := n.null(e.Kids[0])
		return !v, ok
	}
	k := e.String()
	v, ok := n.known[k]
	if !ok {
		n.need[k] = e
	}
	return v, ok
}

// norm rewrites a pattern with language preserving equations only: two patterns with the same normal form accept
// the same documents.
func (n *nullEnv) norm(e *PE) *PE {
	x := n.norm1(e)
	if n.eqs != nil {
		if to, ok := n.eqs[x.String()]; ok {
			return to
		}
	}
	return x
}

func (n *nullEnv) norm1(e *PE) *PE {
	ks := make([]*PE, len(e.Kids))
	for i, k := range e.Kids {
		ks[i] = n.norm(k)
	}
	switch e.Op {
	case "Optional":
		return n.norm(pe("Or", ks[0], pe("Empty")))
	case "Contains":
		return n.norm(pe("Concat", pe("ZAny"), ks[0], pe("ZAny")))
	case "Not":
		switch ks[0].Op {
		case "ZAny":
			return pe("None")
		case "None":
			return pe("ZAny")
		case "Not":
			return ks[0].Kids[0]
		case "Or", "And":
			op := "And"
			if ks[0].Op == "And" {
				op = "Or"
			}
			var out []*PE
			for _, k := range ks[0].Kids {
				out = append(out, pe("Not", k))
			}
			return n.norm(pe(op, out...))
		}
		return pe("Not", ks[0])
	case "ZeroOrMore":
		switch ks[0].Op {
		case "ZeroOrMore", "ZAny", "Empty":
			return ks[0]
		case "None":
			return pe("Empty")
		case "Or":
			var out []*PE
			for _, k := range ks[0].Kids {
				if k.Op != "Empty" {
					out = append(out, k)
				}
			}
			if len(out) < len(ks[0].Kids) {
				return n.norm(pe("ZeroOrMore", wrap("Or", "None", out)))
			}
		}
		return pe("ZeroOrMore", ks[0])
	case "Concat":
		var out []*PE
		for _, k := range ks {
			switch k.Op {
			case "None":
				return k
			case "Empty":
			case "Concat":
				out = append(out, k.Kids...)
			default:
				out = append(out, k)
			}
		}
		// any any = any
		var o2 []*PE
		for _, k := range out {
			if k.Op == "ZAny" && len(o2) > 0 && o2[len(o2)-1].Op == "ZAny" {
				continue
			}
			o2 = append(o2, k)
		}
		// beside any, a part that accepts the empty sequence adds nothing
		for again := true; again; {
			again = false
			for i, k := range o2 {
				if k.Op == "ZAny" || !((i > 0 && o2[i-1].Op == "ZAny") || (i+1 < len(o2) && o2[i+1].Op == "ZAny")) {
					continue
				}
				if v, ok := n.null(k); !ok || !v {
					continue
				}
				o3 := append(append([]*PE{}, o2[:i]...), o2[i+1:]...)
				o2 = nil
				for _, x := range o3 {
					if x.Op == "ZAny" && len(o2) > 0 && o2[len(o2)-1].Op == "ZAny" {
						continue
					}
					o2 = append(o2, x)
				}
				again = true
				break
			}
		}
		return wrap("Concat", "Empty", o2)
	case "Interleave":
		var out []*PE
		zany := 0
		for _, k := range ks {
			switch k.Op {
			case "None":
				return k
			case "Empty":
			case "Interleave":
				for _, x := range k.Kids {
					if x.Op == "ZAny" {
						if zany > 0 {
							continue
						}
						zany++
					}
					out = append(out, x)
				}
			case "ZAny":
				// {*; *} is *
				if zany == 0 {
					out = append(out, k)
				}
				zany++
			default:
				out = append(out, k)
			}
		}
		if zany > 0 {
			var o2 []*PE
			for _, k := range out {
				if k.Op != "ZAny" {
					if v, ok := n.null(k); ok && v {
						continue
					}
				}
				o2 = append(o2, k)
			}
			out = o2
		}
		sortPE(out)
		return wrap("Interleave", "Empty", out)
	case "Or":
		var out []*PE
		for _, k := range ks {
			switch k.Op {
			case "ZAny":
				return k
			case "None":
			case "Or":
				out = append(out, k.Kids...)
			default:
				out = append(out, k)
			}
		}
		out = setPE(n.merge("Or", out))
		// an empty beside something nullable adds nothing
		var o2 []*PE
		for i, k := range out {
			if k.Op == "Empty" {
				drop := false
				for j, o := range out {
					if i != j {
						if v, ok := n.null(o); ok && v {
							drop = true
						}
					}
				}
				if drop {
					continue
				}
			}
			o2 = append(o2, k)
		}
		return wrap("Or", "None", o2)
	case "And":
		var out []*PE
		for _, k := range ks {
			switch k.Op {
			case "None":
				return k
			case "ZAny":
			case "And":
				out = append(out, k.Kids...)
			default:
				out = append(out, k)
			}
		}
		for _, cs := range n.conflicts {
			all := true
			for _, c := range cs {
				has := false
				for _, k := range out {
					has = has || k.Op == "Node" && k.Atom == c
				}
				all = all && has
			}
			if all {
				return pe("None")
			}
		}
		out = setPE(n.merge("And", out))
		for _, k := range out {
			if k.Op == "None" {
				return k
			}
			if k.Op == "Empty" {
				all, known := true, true
				for _, o := range out {
					v, ok := n.null(o)
					if !ok {
						known = false
					} else if !v {
						all = false
					}
				}
				if !all {
					return pe("None")
				}
				if known {
					return pe("Empty")
				}
			}
		}
		return wrap("And", "ZAny", out)
	case "D":
		return n.normD(e, ks[0])
	case "Node":
		if len(ks) == 1 && ks[0].Op == "None" {
			return pe("None")
		}
		return &PE{Op: "Node", Atom: e.Atom, Kids: ks}
	}
	if len(ks) == 0 {
		return e
	}
	return &PE{Op: e.Op, Kids: ks, Atom: e.Atom}
}

// merge joins elements with the same condition, and searches.
func (n *nullEnv) merge(op string, ks []*PE) []*PE {
	if !n.atomEq {
		return ks
	}
	isContains := func(k *PE) bool {
		return k.Op == "Concat" && len(k.Kids) == 3 && k.Kids[0].Op == "ZAny" && k.Kids[2].Op == "ZAny"
	}
	for i := 0; i < len(ks); i++ {
		for j := i + 1; j < len(ks); j++ {
			a, b := ks[i], ks[j]
			var m *PE
			switch {
			case a.Op == "Node" && b.Op == "Node" && a.Atom == b.Atom:
				m = n.norm(&PE{Op: "Node", Atom: a.Atom, Kids: []*PE{pe(op, a.Kids[0], b.Kids[0])}})
			case op == "Or" && isContains(a) && isContains(b):
				m = n.norm(pe("Concat", pe("ZAny"), pe("Or", a.Kids[1], b.Kids[1]), pe("ZAny")))
			case op == "And" && n.record && isContains(a) && isContains(b) && a.Kids[1].Op == "Node" && b.Kids[1].Op == "Node" && a.Kids[1].Atom == b.Kids[1].Atom && n.simpleAtoms[a.Kids[1].Atom.String()]:
				m = n.norm(pe("Concat", pe("ZAny"), pe("And", a.Kids[1], b.Kids[1]), pe("ZAny")))
			}
			if m == nil {
				continue
			}
			out := append([]*PE{}, ks[:i]...)
			out = append(out, ks[i+1:j]...)
			out = append(out, ks[j+1:]...)
			if m.Op == op {
				out = append(out, m.Kids...)
			} else if op == "Or" && m.Op == "None" || op == "And" && m.Op == "ZAny" {
			} else {
				out = append(out, m)
			}
			return n.merge(op, out)
		}
	}
	return ks
}

// normD unfolds the derivative of a composite pattern.
func (n *nullEnv) normD(e *PE, k *PE) *PE {
	d := func(x *PE) *PE { return &PE{Op: "D", Kids: []*PE{x}} }
	switch k.Op {
	case "None", "Empty":
		return pe("None")
	case "ZAny":
		return k
	case "Or", "And":
		out := make([]*PE, len(k.Kids))
		for i, x := range k.Kids {
			out[i] = d(x)
		}
		return n.norm(pe(k.Op, out...))
	case "Not":
		return n.norm(pe("Not", d(k.Kids[0])))
	case "ZeroOrMore":
		return n.norm(pe("Concat", d(k.Kids[0]), k))
	case "Concat":
		l, rest := k.Kids[0], pe("Concat", k.Kids[1:]...)
		first := pe("Concat", d(l), rest)
		v, ok := n.null(l)
		if !ok {
			return &PE{Op: "D", Kids: []*PE{k}}
		}
		if !v {
			return n.norm(first)
		}
		return n.norm(pe("Or", first, d(rest)))
	case "Interleave":
		var out []*PE
		for i := range k.Kids {
			var xs []*PE
			for j, x := range k.Kids {
				if i == j {
					xs = append(xs, d(x))
				} else {
					xs = append(xs, x)
				}
			}
			out = append(out, pe("Interleave", xs...))
		}
		return n.norm(pe("Or", out...))
	}
	return &PE{Op: "D", Kids: []*PE{k}}
}

func wrap(op, unit string, ks []*PE) *PE {
	if len(ks) == 0 {
		return pe(unit)
	}
	if len(ks) == 1 {
		return ks[0]
	}
	return pe(op, ks...)
}

func sortPE(ks []*PE) {
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
}

func setPE(ks []*PE) []*PE {
	sortPE(ks)
	var out []*PE
	for i, k := range ks {
		if i > 0 && k.String() == ks[i-1].String() {
			continue
		}
		out = append(out, k)
	}
	return out
}

// slots is the sequence of leaf conditions the derivative of a pattern asks for: "slot" for a node, the pattern
// itself for a variable.
func (n *nullEnv) slots(e *PE) ([]string, bool) {
	switch e.Op {
	case "None", "Empty", "ZAny":
		return nil, true
	case "Concat":
		var out []string
		for _, k := range e.Kids {
			s, ok := n.slots(k)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
			v, ok := n.null(k)
			if !ok {
				return nil, false
			}
			if !v {
				break
			}
		}
		return out, true
	case "Or", "And", "Interleave", "Not", "ZeroOrMore", "Optional":
		var out []string
		for _, k := range e.Kids {
			s, ok := n.slots(k)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case "Contains":
		return n.slots(e.Kids[0])
	case "Node":
		return []string{"slot"}, true
	}
	return []string{e.String()}, true
}

// peEqual compares two patterns under every assignment to the nullability of the atoms that matter.
func peEqual(a, b *PE, known map[string]bool) (bool, string) {
	env := newNullEnv()
	for k, v := range known {
		env.known[k] = v
	}
	x, y := env.norm(a), env.norm(b)
	if x.String() == y.String() {
		return true, ""
	}
	for k := range env.need {
		for _, v := range []bool{false, true} {
			kn := map[string]bool{}
			for q, w := range known {
				kn[q] = w
			}
			kn[k] = v
			if ok, why := peEqual(a, b, kn); !ok {
				return false, why
			}
		}
		return true, ""
	}
	var ks []string
	for k, v := range known {
		ks = append(ks, fmt.Sprintf("nullable(%s)=%v", k, v))
	}
	sort.Strings(ks)
	why := fmt.Sprintf("%s is not %s", x, y)
	if len(ks) > 0 {
		why += " when " + strings.Join(ks, ", ")
	}
	return false, why
}

// exprOf reads a term as a pattern.
type exprReader struct {
	p       *Prog
	kinds   map[string]bool
	deriv   func(t *Term) *PE // reads special terms first
	globals map[string]*PE
	busy    map[string]bool
}

func (x *exprReader) read(t *Term) (*PE, error) {
	t = strip(t)
	if x.deriv != nil {
		if e := x.deriv(t); e != nil {
			return e, nil
		}
	}
	switch t.Op {
	case "param", "sym", "field", "index", "lookup", "deref":
		return peVar(t), nil
	case "gval":
		if e := x.global(t.Name); e != nil {
			return e, nil
		}
		return peVar(t), nil
	case "new":
		if t.Name == "relapse/ast.Pattern" || t.Name == "relapse/intern.Pattern" {
			return x.readNew(t)
		}
	case "call":
		if i := strings.LastIndex(t.Name, "New"); i >= 0 {
			k := t.Name[i+3:]
			args := t.Args
			if strings.HasPrefix(t.Name, "invoke:") {
				args = args[1:]
			}
			switch k {
			case "NotZAny":
				return pe("None"), nil
			case "ZAny", "Empty":
				return pe(k), nil
			case "Concat", "Or", "And", "Interleave":
				if len(args) == 1 && args[0].Op == "list" {
					ks := []*PE{}
					for _, a := range args[0].Args {
						e, err := x.read(a)
						if err != nil {
							return nil, err
						}
						ks = append(ks, e)
					}
					return pe(k, ks...), nil
				}
			case "Not", "ZeroOrMore", "Contains", "Optional":
				if len(args) == 1 {
					e, err := x.read(args[0])
					if err != nil {
						return nil, err
					}
					return pe(k, e), nil
				}
			}
		}
	case "extract":
		if t.Name == "0" {
			return x.read(t.Args[0])
		}
	}
	return nil, fmt.Errorf("%s is not understood as a pattern", short(t.String()))
}

func (x *exprReader) readNew(t *Term) (*PE, error) {
	if t.Name == "relapse/intern.Pattern" {
		return nil, fmt.Errorf("an interned pattern is built directly")
	}
	var kind string
	var node *Term
	for _, kv := range t.Args {
		if kv.Args[0] == tNil {
			continue
		}
		if kind != "" {
			return nil, fmt.Errorf("a pattern is built with two kinds, %s and %s", kind, kv.Name)
		}
		kind, node = kv.Name, kv.Args[0]
	}
	if kind == "" {
		return nil, fmt.Errorf("a pattern is built without a kind")
	}
	get := func(n string) (*PE, error) { return x.read(tField(node, n)) }
	switch kind {
	case "Empty", "ZAny":
		return pe(kind), nil
	case "Concat", "Or", "And", "Interleave":
		l, err := get("LeftPattern")
		if err != nil {
			return nil, err
		}
		r, err := get("RightPattern")
		if err != nil {
			return nil, err
		}
		return pe(kind, l, r), nil
	case "Not", "ZeroOrMore", "Contains", "Optional":
		c, err := get("Pattern")
		if err != nil {
			return nil, err
		}
		return pe(kind, c), nil
	case "Reference":
		return &PE{Op: "Ref", Atom: tField(node, "Name")}, nil
	case "TreeNode":
		c, err := get("Pattern")
		if err != nil {
			return nil, err
		}
		return &PE{Op: "Node", Atom: tField(node, "Name"), Kids: []*PE{c}}, nil
	case "LeafNode":
		return &PE{Op: "Node", Atom: tField(node, "Expr"), Kids: []*PE{pe("Empty")}}, nil
	}
	return nil, fmt.Errorf("unknown kind %s", kind)
}

// global reads the pattern a package level variable is initialised with.
func (x *exprReader) global(name string) *PE {
	if x.globals == nil {
		x.globals = map[string]*PE{}
	}
	if e, ok := x.globals[name]; ok {
		return e
	}
	x.globals[name] = nil
	i := strings.LastIndex(name, ".")
	sp := x.p.SPkg[name[:i]]
	if sp == nil || sp.Func("init") == nil {
		return nil
	}
	var val *Term
	n := 0
	s := &Sim{P: x.p, NoHavoc: true, MaxState: 3000}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && c.Callee.Name() == "init" {
			return Opaque
		}
		if c.Callee != nil && strings.HasPrefix(c.Callee.Name(), "init#") {
			return Opaque
		}
		return Inline
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if v, ok := st.mem[mk("glob", name)]; ok {
			val = st.Resolve(v)
			n++
		}
	}
	s.Run(sp.Func("init"), nil, nil)
	if n == 0 || val == nil {
		return nil
	}
	e, err := x.read(val)
	if err != nil {
		return nil
	}
	x.globals[name] = e
	return e
}
