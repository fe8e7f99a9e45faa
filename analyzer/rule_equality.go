package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C08", "other", equalityRule) }

// The two arguments of a comparison are the symbols a and b; a condition that relates a part of a to the same
// part of b is read as a fact about that part.
var symA, symB, symBox = sym("·a"), sym("·b"), sym("·")

func substSym(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, x := range t.Args {
		args[i] = substSym(x, from, to)
		if args[i] != x {
			ch = true
		}
	}
	if !ch {
		return t
	}
	// a type assertion or interface conversion of the whole does not change which object it is
	n := mk(t.Op, t.Name, args...)
	if n.Typ == nil {
		n.Typ = t.Typ
	}
	return n
}

// norm drops conversions between interface and concrete type.
func dropConv(t *Term) *Term {
	switch t.Op {
	case "iface", "as":
		return dropConv(t.Args[0])
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, x := range t.Args {
		args[i] = dropConv(x)
		if args[i] != x {
			ch = true
		}
	}
	if !ch {
		return t
	}
	if t.Op == "field" {
		return tField(args[0], t.Name)
	}
	return mk(t.Op, t.Name, args...)
}

// side tells which argument a term is about, and the part.
func side(t *Term) (part *Term, which int) {
	t = dropConv(t)
	a, b := t.mentions(symA), t.mentions(symB)
	switch {
	case a && !b:
		return substSym(t, symA, symBox), 0
	case b && !a:
		return substSym(t, symB, symBox), 1
	}
	return nil, -1
}

// relation masks
const (
	relLT = 1
	relEQ = 2
	relGT = 4
)

func flip(m int) int {
	r := m & relEQ
	if m&relLT != 0 {
		r |= relGT
	}
	if m&relGT != 0 {
		r |= relLT
	}
	return r
}

// cmpFact is what a row knows about a part.
type cmpFact struct {
	part *Term
	mask int
	// pairs of boolean values (a,b) that are possible, for conditions and nil tests
	pairs int // bit 2*a+b
	nilp  bool
	seq   int
}

type cmpRow struct {
	facts map[string]*cmpFact
	order []string
	raw   []string
	other bool // the dynamic types differ
	ret   *Term
	trace []string
	pos   tokenPos
}

func (r *cmpRow) fact(key string, part *Term) *cmpFact {
	f := r.facts[key]
	if f == nil {
		f = &cmpFact{part: part, mask: 7, pairs: 15, seq: len(r.order)}
		r.facts[key] = f
		r.order = append(r.order, key)
	}
	return f
}

func (r *cmpRow) clone() *cmpRow {
	n := *r
	n.facts = map[string]*cmpFact{}
	for k, v := range r.facts {
		c := *v
		n.facts[k] = &c
	}
	n.order = append([]string{}, r.order...)
	return &n
}

func pairsMask(p int) int {
	m := 0
	for a := 0; a < 2; a++ {
		for b := 0; b < 2; b++ {
			if p&(1<<(2*a+b)) != 0 {
				switch {
				case a < b:
					m |= relLT
				case a == b:
					m |= relEQ
				default:
					m |= relGT
				}
			}
		}
	}
	return m
}

func maskPairs(m int) int {
	p := 0
	for a := 0; a < 2; a++ {
		for b := 0; b < 2; b++ {
			var r int
			switch {
			case a < b:
				r = relLT
			case a == b:
				r = relEQ
			default:
				r = relGT
			}
			if m&r != 0 {
				p |= 1 << (2*a + b)
			}
		}
	}
	return p
}

func (f *cmpFact) narrow(mask, pairs int) {
	f.mask &= mask
	f.pairs &= pairs & maskPairs(f.mask)
	if pairs != 15 {
		f.mask &= pairsMask(f.pairs)
	}
}

func unaryPairs(which int, v bool) int {
	p := 0
	for a := 0; a < 2; a++ {
		for b := 0; b < 2; b++ {
			x := a
			if which == 1 {
				x = b
			}
			if (x == 1) == v {
				p |= 1 << (2*a + b)
			}
		}
	}
	return p
}

// cmpCall recognises the atom of a comparison of two parts: the call term, and how a comparer of the parts is
// used: "cmp" (int) or "eq" (bool).
type cmpAtoms struct {
	kind map[string]string // call name -> cmp or eq
}

// read adds a condition to the row; false when it is infeasible.
func (at *cmpAtoms) read(r *cmpRow, c *Term, v bool) bool {
	c = dropConv(c)
	for c.Op == "un" && c.Name == "!" {
		c, v = c.Args[0], !v
	}
	if c.isTrue() {
		return v
	}
	if c.isFalse() {
		return !v
	}
	two := func(x, y *Term, mask int) bool {
		px, sx := side(x)
		py, sy := side(y)
		if sx < 0 || sy < 0 || sx == sy || px != py {
			return false
		}
		if sx == 1 {
			mask = flip(mask)
		}
		f := r.fact(px.String(), px)
		f.narrow(mask, 15)
		return true
	}
	switch {
	case c.Op == "istype":
		if !v {
			r.other = true
		}
		return true
	case c.Op == "bin" && (c.Name == "==" || c.Name == "<" || c.Name == "<="):
		x, y := c.Args[0], c.Args[1]
		var mask int
		switch c.Name {
		case "==":
			mask = relEQ
		case "<":
			mask = relLT
		default:
			mask = relLT | relEQ
		}
		if !v {
			mask = 7 &^ mask
		}
		// a nil test
		if c.Name == "==" && (x == tNil || y == tNil) {
			o := x
			if o == tNil {
				o = y
			}
			if p, s := side(o); s >= 0 {
				f := r.fact("nil "+p.String(), p)
				f.nilp = true
				f.narrow(7, unaryPairs(s, !v)) // the value of "is present"
				return f.pairs != 0
			}
			return true
		}
		// the result of a comparison against a number
		for i := 0; i < 2; i++ {
			call, k := c.Args[i], c.Args[1-i]
			n, ok := intOf(k)
			if !ok || call.Op != "call" || at.kind[call.Name] != "cmp" || len(call.Args) < 2 {
				continue
			}
			m := mask
			if i == 1 {
				m = flip(m) // k ? call
			}
			// the results are -1, 0 and 1
			res := 0
			for _, d := range []struct{ v, r int }{{-1, relLT}, {0, relEQ}, {1, relGT}} {
				var rr int
				switch {
				case int64(d.v) < n:
					rr = relLT
				case int64(d.v) == n:
					rr = relEQ
				default:
					rr = relGT
				}
				if m&rr != 0 {
					res |= d.r
				}
			}
			if two(call.Args[0], call.Args[1], res) {
				return at.feasible(r)
			}
		}
		if two(x, y, mask) {
			return at.feasible(r)
		}
	case c.Op == "call" && at.kind[c.Name] == "eq" && len(c.Args) >= 2:
		mask := relEQ
		if !v {
			mask = relLT | relGT
		}
		if two(c.Args[0], c.Args[1], mask) {
			return at.feasible(r)
		}
	default:
		if p, s := side(c); s >= 0 {
			f := r.fact(p.String(), p)
			f.narrow(7, unaryPairs(s, v))
			return f.pairs != 0
		}
	}
	r.raw = append(r.raw, fmt.Sprintf("%s is %v", short(c.String()), v))
	return true
}

func (at *cmpAtoms) feasible(r *cmpRow) bool {
	for _, f := range r.facts {
		if f.mask == 0 || f.pairs == 0 {
			return false
		}
	}
	return true
}

// comparer analyses the functions that compare two values of the same type.
type comparer struct {
	p      *Prog
	r      *Report
	exempt map[string]bool // Type.Field: not part of the value
	done   map[string]bool
	work   []*ssa.Function
	orders map[string]map[string]bool
}

func isCompareSig(f *ssa.Function) (kind string, t types.Type) {
	if len(f.Params) != 2 || f.Signature.Results().Len() != 1 {
		return "", nil
	}
	// any other function of two values is a part of the comparison that calls it
	name, named := strings.ToLower(f.Name()), false
	for _, n := range []string{"equal", "compare", "less", "cmp"} {
		named = named || strings.Contains(name, n)
	}
	if !named {
		return "", nil
	}
	a, b := f.Params[0].Type(), f.Params[1].Type()
	b0, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok {
		return "", nil
	}
	if !types.Identical(a, b) {
		// a method of an implementation compared with any value of the interface
		it, ok := b.Underlying().(*types.Interface)
		if !ok || !types.Implements(a, it) {
			return "", nil
		}
	}
	switch {
	case b0.Info()&types.IsBoolean != 0:
		return "eq", a
	case b0.Kind() == types.Int:
		return "cmp", a
	}
	return "", nil
}

// fieldType gives the type of a part of a value of type t.
func partType(part *Term, t types.Type) types.Type {
	if part == symBox {
		return t
	}
	switch part.Op {
	case "field":
		x := partType(part.Args[0], t)
		if x == nil {
			return nil
		}
		if p, ok := x.Underlying().(*types.Pointer); ok {
			x = p.Elem()
		}
		if s, ok := x.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == part.Name {
					return s.Field(i).Type()
				}
			}
		}
	case "deref":
		x := partType(part.Args[0], t)
		if x == nil {
			return nil
		}
		if p, ok := x.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	case "index":
		x := partType(part.Args[0], t)
		if x == nil {
			return nil
		}
		if s, ok := x.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	case "conv":
		return partType(part.Args[0], t)
	case "len":
		return types.Typ[types.Int]
	}
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// equalPart tells whether the row establishes that the part is equal on both sides.
func (c *comparer) equalPart(row *cmpRow, part *Term, t types.Type, na, nb int) bool {
	if f := row.facts[part.String()]; f != nil && f.mask == relEQ {
		return true
	}
	if f := row.facts["nil "+part.String()]; f != nil && f.pairs == 1 { // both absent
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			d := mk("deref", "", part)
			f := row.facts[d.String()]
			n := row.facts["nil "+part.String()]
			return f != nil && f.mask == relEQ && (n == nil || n.pairs&^(1|8) == 0)
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); ok && part != symBox {
			// both are there, and everything in them is the same
			n := row.facts["nil "+part.String()]
			if n == nil || n.pairs&^(1|8) != 0 {
				return false
			}
			return c.equalFields(row, part, u.Elem(), na, nb)
		}
	case *types.Struct:
		return part != symBox && c.equalFields(row, part, t, na, nb)
	case *types.Slice:
		if isByteSlice(t) {
			return false
		}
		if na != nb || na < 0 {
			return false
		}
		for i := 0; i < na; i++ {
			if !c.equalPart(row, mk("index", "", part, tInt(int64(i))), u.Elem(), na, nb) {
				return false
			}
		}
		return true
	}
	return false
}

// equalFields tells whether the row establishes that everything in a part is equal on both sides.
func (c *comparer) equalFields(row *cmpRow, part *Term, t types.Type, na, nb int) bool {
	s := t.Underlying().(*types.Struct)
	names := c.required(t)
	for _, name := range names {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name && !c.equalPart(row, tField(part, name), s.Field(i).Type(), na, nb) {
				return false
			}
		}
	}
	return len(names) > 0
}

func (c *comparer) required(t types.Type) []string {
	x := t
	if p, ok := x.Underlying().(*types.Pointer); ok {
		x = p.Elem()
	}
	s, ok := x.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	nm := ""
	if n := named(t); n != nil {
		nm = n.Obj().Name()
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !c.isValueField(nm, f) {
			continue
		}
		out = append(out, f.Name())
	}
	return out
}

func (c *comparer) isValueField(typ string, f *types.Var) bool {
	return f.Exported() && !strings.HasPrefix(f.Name(), "XXX_") && !c.exempt[typ+"."+f.Name()]
}

func sliceParts(t types.Type) []string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if !isByteSlice(s) {
			return []string{""}
		}
		return nil
	}
	x := t
	if p, ok := x.Underlying().(*types.Pointer); ok {
		x = p.Elem()
	}
	s, ok := x.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && !isByteSlice(s.Field(i).Type()) && !strings.HasPrefix(s.Field(i).Name(), "XXX_") {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func listOf(base *Term, n int) *Term {
	es := make([]*Term, n)
	for i := range es {
		es[i] = mk("index", "", base, tInt(int64(i)))
	}
	return mk("list", "", es...)
}

// rows enumerates the paths of a comparison.
func (c *comparer) rows(fn *ssa.Function, t types.Type, na, nb int) ([]*cmpRow, *Sim, *cmpAtoms) {
	// na < 0: lists are not taken apart
	at := &cmpAtoms{kind: map[string]string{}}
	s := &Sim{P: c.p, NoHavoc: true, Unroll: true}
	a, b := symA, symB
	if _, ok := fn.Params[1].Type().Underlying().(*types.Interface); ok {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Interface); !ok {
			b = symB
		}
	}
	sp := sliceParts(t)
	if na < 0 {
		sp = nil
	}
	if len(sp) == 1 && sp[0] == "" {
		a, b = listOf(symA, na), listOf(symB, nb)
	}
	onlyRoots := func(args []*Term) bool {
		for _, x := range args {
			x = dropConv(x)
			if x != symA && x != symB && x != a && x != b {
				return false
			}
		}
		return true
	}
	s.Classify = func(st *State, cl *Call) Action {
		args := cl.Args
		nm := cl.Name()
		if cl.Method != nil {
			args = append([]*Term{cl.Recv}, args...)
		}
		// the hash of a value
		if isHashCall(cl) {
			cl.Result = mk("hash", "", dropConv(args[0]))
			return Pure
		}
		if isStringCall(cl) {
			cl.Result = mk("text", "", dropConv(args[0]))
			return Pure
		}
		if cl.Callee != nil && !inRepo(cl.Callee) {
			switch cl.Callee.String() {
			case "bytes.Compare", "strings.Compare":
				at.kind[nm] = "cmp"
			case "bytes.Equal":
				at.kind[nm] = "eq"
			}
			return Pure
		}
		if len(args) == 2 {
			k := ""
			switch {
			case cl.Callee != nil:
				k, _ = isCompareSig(cl.Callee)
			case cl.Method != nil:
				sig := cl.Method.Type().(*types.Signature)
				if sig.Results().Len() == 1 {
					if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok {
						switch {
						case b.Kind() == types.Int && cl.Method.Name() == "Compare":
							k = "cmp"
						case b.Info()&types.IsBoolean != 0 && cl.Method.Name() == "Equal":
							k = "eq"
						}
					}
				}
			}
			if k != "" && (cl.Method != nil || !onlyRoots(args) || cl.Recurse) {
				px, sx := side(args[0])
				py, sy := side(args[1])
				if sx >= 0 && sy >= 0 && sx != sy && px == py {
					at.kind[nm] = k
					if cl.Callee != nil && !cl.Recurse {
						c.add(cl.Callee)
					}
					return Pure
				}
			}
		}
		if cl.Method != nil {
			return Pure
		}
		return Inline
	}
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		old := st.Data["seq"]
		if old == nil {
			old = mk("list", "")
		}
		st.Data["seq"] = mk("list", "", append(append([]*Term{}, old.Args...), mk("kv", fmt.Sprint(taken), cond))...)
	}
	var out []*cmpRow
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		row := &cmpRow{facts: map[string]*cmpFact{}, ret: st.Resolve(rets[0]), trace: st.traceList(), pos: pos}
		if seq := st.Data["seq"]; seq != nil {
			for _, kv := range seq.Args {
				if !at.read(row, kv.Args[0], kv.Name == "true") {
					return
				}
			}
		}
		out = append(out, row)
	}
	s.Run(fn, []*Term{a, b}, func(st *State) {
		for _, f := range sp {
			if f == "" {
				continue
			}
			st.mem[mk("fa", f, symA)] = listOf(tField(symA, f), na)
			st.mem[mk("fa", f, symB)] = listOf(tField(symB, f), nb)
			// the other side may be seen through a type assertion
			tb := mk("as", typeKey(t), symB)
			st.mem[mk("fa", f, tb)] = listOf(tField(symB, f), nb)
		}
	})
	return out, s, at
}

func isHashCall(c *Call) bool {
	switch {
	case c.Callee != nil:
		return c.Callee.Name() == "Hash" && c.Callee.Signature.Recv() != nil && len(c.Args) == 1 && c.NRes == 1
	case c.Method != nil:
		return c.Method.Name() == "Hash" && len(c.Args) == 0
	}
	return false
}

func isStringCall(c *Call) bool {
	switch {
	case c.Callee != nil:
		return c.Callee.Name() == "String" && c.Callee.Signature.Recv() != nil && len(c.Args) == 1
	case c.Method != nil:
		return c.Method.Name() == "String" && len(c.Args) == 0
	}
	return false
}

func (c *comparer) add(fn *ssa.Function) {
	if c.done[fname(fn)] {
		return
	}
	c.done[fname(fn)] = true
	c.work = append(c.work, fn)
}

func (c *comparer) run() {
	for len(c.work) > 0 {
		fn := c.work[0]
		c.work = c.work[1:]
		key := "compare:" + fname(fn)
		c.r.guard(key, func() { c.check(fn, key) })
	}
}

func (c *comparer) check(fn *ssa.Function, key string) {
	kind, t := isCompareSig(fn)
	if kind == "" {
		c.r.Fail(key, c.p.posOf(fn.Pos()), "undecided: not a comparison of two values of one type")
		return
	}
	c.r.Count("comparison functions", 1)
	c.r.Sample("%s (%s)", fname(fn), kind)
	lens := [][2]int{{-1, -1}}
	if len(sliceParts(t)) > 0 && c.loops(fn, t) {
		lens = [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {0, 1}, {1, 0}, {1, 2}, {2, 1}}
	}
	orient := map[string]int{} // part -> +1/-1
	before := map[string]map[string]bool{}
	lenSign := map[bool]int{} // a shorter?
	for _, l := range lens {
		na, nb := l[0], l[1]
		rows, s, at := c.rows(fn, t, na, nb)
		c.r.Sim(key, s)
		if len(rows) == 0 {
			c.r.Fail(key, c.p.posOf(fn.Pos()), "undecided: no path returns")
			return
		}
		c.r.Count("comparison paths", len(rows))
		for _, row0 := range rows {
			// a result that is itself a comparison is split
			type outc struct {
				row *cmpRow
				res int // -1, 0, 1 for cmp; 0 equal, 1 unequal for eq
			}
			var outs []outc
			fail := func(row *cmpRow, format string, args ...interface{}) {
				c.r.FailTrace(key, c.p.posOf(row0.pos), row0.trace, format, args...)
			}
			ret := dropConv(row0.ret)
			switch kind {
			case "eq":
				for _, v := range []bool{true, false} {
					n := row0.clone()
					if !at.read(n, ret, v) {
						continue
					}
					if len(n.raw) > len(row0.raw) {
						fail(n, "undecided: the result is %s", short(ret.String()))
						continue
					}
					res := 0
					if !v {
						res = 1
					}
					outs = append(outs, outc{n, res})
				}
			case "cmp":
				sgn := 1
				x := ret
				if x.Op == "un" && x.Name == "-" {
					sgn, x = -1, x.Args[0]
				}
				if n, ok := intOf(x); ok {
					r := 0
					if n*int64(sgn) < 0 {
						r = -1
					} else if n*int64(sgn) > 0 {
						r = 1
					}
					outs = append(outs, outc{row0, r})
				} else if x.Op == "call" && at.kind[x.Name] == "cmp" {
					for _, d := range []int{-1, 0, 1} {
						n := row0.clone()
						if !at.read(n, tEq(x, tInt(int64(d))), true) {
							continue
						}
						outs = append(outs, outc{n, d * sgn})
					}
				} else {
					fail(row0, "undecided: the result is %s", short(ret.String()))
				}
			}
			for _, o := range outs {
				row := o.row
				if !at.feasible(row) {
					continue
				}
				if row.other {
					// values of different types: what makes them different is their type
					if kind == "eq" && o.res == 0 {
						fail(row, "values of different types are taken as equal")
					}
					continue
				}
				unequal := c.unequalParts(row, t)
				if na != nb {
					unequal = append(unequal, "length")
				}
				if o.res == 0 {
					if len(unequal) > 0 {
						fail(row, "values that differ in %s are taken as equal", strings.Join(unequal, ", "))
						continue
					}
					for _, part := range c.missing(fn, row, t, na, nb) {
						fail(row, "values are taken as equal without comparing %s", part)
					}
					continue
				}
				if len(unequal) == 0 {
					fail(row, "values are taken as different without a difference being found (%s)", short(c.known(row)))
					continue
				}
				if kind != "cmp" {
					continue
				}
				if len(unequal) > 1 {
					continue
				}
				x := unequal[0]
				if x == "length" {
					sg := o.res
					if na > nb {
						sg = -sg
					}
					if old, ok := lenSign[true]; ok && old != sg {
						fail(row, "a shorter list is both smaller and bigger")
					}
					lenSign[true] = sg
					continue
				}
				f := row.facts[x]
				var sg int
				switch f.mask {
				case relLT:
					sg = -o.res
				case relGT:
					sg = o.res
				default:
					fail(row, "the order does not depend on which of the two has the bigger %s", partName(f))
					continue
				}
				if old, ok := orient[x]; ok && old != sg {
					fail(row, "swapping the values does not swap the result of comparing %s", partName(f))
				}
				orient[x] = sg
				for _, k := range row.order {
					if k == x || row.facts[k].mask != relEQ || row.facts[k].seq > f.seq {
						continue
					}
					// both present, or both equal so far
					if before[k] == nil {
						before[k] = map[string]bool{}
					}
					before[k][x] = true
					if before[x][k] {
						fail(row, "the parts are not compared in one fixed order: %s and %s", x, k)
					}
				}
			}
		}
	}
}

// loops tells whether the function itself goes through a list.
func (c *comparer) loops(fn *ssa.Function, t types.Type) bool {
	_, s, _ := c.rows(fn, t, -1, -1)
	for _, e := range s.Errs {
		if strings.Contains(e.Msg, "not bounded by a list") {
			return true
		}
	}
	return false
}

func partName(f *cmpFact) string {
	if f.nilp {
		return "presence of " + f.part.String()
	}
	return f.part.String()
}

func (c *comparer) known(row *cmpRow) string {
	var ss []string
	for _, k := range row.order {
		ss = append(ss, fmt.Sprintf("%s:%d", k, row.facts[k].mask))
	}
	ss = append(ss, row.raw...)
	return strings.Join(ss, ", ")
}

// unequalParts lists the parts that are known to differ.
func (c *comparer) unequalParts(row *cmpRow, t types.Type) []string {
	var out []string
	for _, k := range row.order {
		f := row.facts[k]
		if f.mask&relEQ != 0 {
			continue
		}
		if !f.nilp {
			// different pointers may point at equal values
			if pt := partType(f.part, t); pt != nil && f.pairs == 15 {
				_ = pt
			}
		}
		out = append(out, k)
	}
	return out
}

func (c *comparer) missing(fn *ssa.Function, row *cmpRow, t types.Type, na, nb int) []string {
	if c.equalPart(row, symBox, t, na, nb) {
		return nil
	}
	x := t
	ptr := false
	if p, ok := x.Underlying().(*types.Pointer); ok {
		x = p.Elem()
		ptr = true
	}
	switch u := x.Underlying().(type) {
	case *types.Struct:
		var out []string
		for _, f := range c.operands(fn, t) {
			var ft types.Type
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					ft = u.Field(i).Type()
				}
			}
			if ft == nil || !c.equalPart(row, tField(symBox, f), ft, na, nb) {
				out = append(out, f)
			}
		}
		return out
	case *types.Basic:
		if ptr {
			return []string{"the values pointed at"}
		}
	case *types.Interface:
		if f := row.facts[symBox.String()]; f != nil && f.mask == relEQ {
			return nil
		}
	}
	return []string{"all of it"}
}

// operands lists the fields that make up the value.
func (c *comparer) operands(fn *ssa.Function, t types.Type) []string {
	if n := named(t); n != nil && rel(n.Obj().Pkg().Path()) == "relapse/funcs" {
		fs, _ := c.nodeFields(n)
		return fs
	}
	return c.required(t)
}

// nodeFields reads the constructors of a function node: the fields that are enough to know its arguments.
func (c *comparer) nodeFields(n *types.Named) (fields []string, bad []string) {
	for _, ctor := range c.p.allocators(n) {
		for _, al := range ctor.allocs {
			byParam := map[string][]string{}
			for f, v := range al.fields {
				ps := paramLeaves(v)
				if len(ps) == 1 {
					for p := range ps {
						byParam[p] = append(byParam[p], f)
					}
				}
			}
			var names []string
			for p := range byParam {
				names = append(names, p)
			}
			sort.Strings(names)
			for _, p := range names {
				fs := byParam[p]
				sort.Strings(fs)
				// any of them will do: prefer the one that is the argument itself, then basic values
				best := ""
				for _, f := range fs {
					if f == "hash" || f == "hasVariable" {
						continue
					}
					v := al.fields[f]
					if _, ok := stripConv(v).(*ssa.Parameter); ok {
						best = f
						break
					}
					if _, ok := v.Type().Underlying().(*types.Basic); ok && best == "" {
						best = f
					}
				}
				if best != "" {
					fields = append(fields, best)
				}
			}
		}
	}
	return dedup(fields), bad
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// allocSite is one construction of a struct, with what its fields are set to.
type allocSite struct {
	alloc  *ssa.Alloc
	fields map[string]ssa.Value
	multi  map[string]bool
}

type allocator struct {
	fn     *ssa.Function
	allocs []*allocSite
}

// allocators lists the functions that build values of the type.
func (p *Prog) allocators(n *types.Named) []*allocator {
	var out []*allocator
	for _, f := range p.Funcs {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if sp := p.SPkg[rel(n.Obj().Pkg().Path())]; sp == nil || f.Pkg != sp && (f.Parent() == nil || f.Parent().Pkg != sp) {
			continue
		}
		var a *allocator
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				pt := al.Type().Underlying().(*types.Pointer)
				m, ok := pt.Elem().(*types.Named)
				if !ok || m.Obj() != n.Obj() {
					continue
				}
				if a == nil {
					a = &allocator{fn: f}
					out = append(out, a)
				}
				s := &allocSite{alloc: al, fields: map[string]ssa.Value{}, multi: map[string]bool{}}
				for _, ref := range *al.Referrers() {
					if fa, ok := ref.(*ssa.FieldAddr); ok {
						nm := pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
								if _, dup := s.fields[nm]; dup {
									s.multi[nm] = true
								}
								s.fields[nm] = st.Val
							}
						}
					}
				}
				a.allocs = append(a.allocs, s)
			}
		}
	}
	return out
}

// paramLeaves lists the parameters a value is computed from.
func paramLeaves(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			out[x.Name()] = true
			return
		case *ssa.Alloc:
			// an array built for a variadic call
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.IndexAddr:
					for _, r2 := range *y.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
							walk(st.Val)
						}
					}
				case *ssa.Store:
					if y.Addr == x {
						walk(y.Val)
					}
				case *ssa.FieldAddr:
					for _, r2 := range *y.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
							walk(st.Val)
						}
					}
				}
			}
			return
		case *ssa.MakeMap:
			for _, ref := range *x.Referrers() {
				if mu, ok := ref.(*ssa.MapUpdate); ok {
					walk(mu.Key)
					walk(mu.Value)
				}
			}
			return
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				walk(*op)
			}
		}
	}
	walk(v)
	return out
}

func equalityRule(p *Prog, r *Report) {
	r.Explain("Every function that compares two grammars, patterns, interned patterns or conditions is enumerated path by path; each path is read as a set of facts relating a part of the one value with the same part of the other. A path that answers 'equal' has to compare every part of the value, a path that answers 'different' has to have found a difference, and an ordering has to be the lexicographic order of the parts in one fixed sequence (so that swapping the values swaps the answer). A hash may only read what equality compares.")
	c := &comparer{p: p, r: r, exempt: map[string]bool{"Terminal.Literal": true}, done: map[string]bool{}}

	// grammars
	n := 0
	for _, nt := range p.namedTypes() {
		if rel(nt.Obj().Pkg().Path()) != "relapse/ast" {
			continue
		}
		for _, m := range []string{"Equal", "Compare"} {
			if f := p.methodOf(nt, m); f != nil {
				if k, _ := isCompareSig(f); k != "" {
					c.add(f)
					n++
				}
			}
		}
	}
	r.Count("exported comparisons of grammars", n)
	r.Expect("exported comparisons of grammars", 6)
	// interned patterns
	c.add(p.Method("relapse/intern", "Pattern", "Equal"))
	// lists of patterns
	for _, f := range p.funcsIn("relapse/intern", "relapse/mem", "relapse/auto", "relapse/sets") {
		if k, t := isCompareSig(f); k == "eq" && f.Signature.Recv() == nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				if m := named(s.Elem()); m != nil && m.Obj().Name() == "Pattern" {
					c.add(f)
					r.Count("comparisons of lists of patterns", 1)
				}
			}
		}
	}
	r.Expect("comparisons of lists of patterns", 3)
	// conditions
	c.add(p.Func("relapse/funcs", "Equal"))
	for _, nt := range p.funcNodes() {
		f := p.methodOf(nt, "Compare")
		if f == nil {
			r.Fail("compare:"+nt.Obj().Name(), "-", "undecided: no Compare method")
			continue
		}
		r.Count("kinds of condition", 1)
		c.add(f)
		c.checkNode(nt)
	}
	r.Expect("kinds of condition", 60)
	c.run()
	r.Expect("comparison functions", 150)
	c.hashes()
	r.Assume("Two conditions of different Go types never print the same text, and two different values of one type differ in one of the listed parts.")
	r.Assume("Terminal.Literal is the spelling of a value and no part of the value; absent and empty lists are the same.")
}

// funcNodes lists the implementations of conditions and expressions.
func (p *Prog) funcNodes() []*types.Named {
	it := p.Type("relapse/funcs", "Comparable").Underlying().(*types.Interface)
	var out []*types.Named
	for _, n := range p.namedTypes() {
		if rel(n.Obj().Pkg().Path()) != "relapse/funcs" {
			continue
		}
		if types.Implements(types.NewPointer(n), it) {
			out = append(out, n)
		}
	}
	return out
}

// checkNode checks how a node is built: what is compared determines the arguments, and the hash is computed
// from the arguments only, in one way.
func (c *comparer) checkNode(n *types.Named) {
	key := "node:" + n.Obj().Name()
	as := c.p.allocators(n)
	if len(as) == 0 {
		c.r.Fail(key, "-", "undecided: no constructor found")
		return
	}
	fields, _ := c.nodeFields(n)
	hashTerms := map[string]bool{}
	for _, a := range as {
		for _, al := range a.allocs {
			c.r.Count("constructions of conditions", 1)
			// every parameter is kept
			used := map[string]bool{}
			for _, f := range fields {
				if v := al.fields[f]; v != nil {
					ps := paramLeaves(v)
					if len(ps) == 1 {
						for p := range ps {
							used[p] = true
						}
					}
				}
			}
			for _, p := range a.fn.Params {
				if !used[p.Name()] {
					c.r.Fail(key, c.p.posOf(a.fn.Pos()), "%s does not keep its argument number %d where comparing two of them can see it", fname(a.fn), paramIndex(a.fn, p.Name()))
				}
			}
			h := al.fields["hash"]
			if h == nil {
				if hasField(n, "hash") {
					c.r.Fail(key, c.p.posOf(al.alloc.Pos()), "%s builds a condition without its hash", fname(a.fn))
				}
				continue
			}
			leaves, bad := pureLeaves(h)
			if bad != "" {
				c.r.Fail(key, c.p.posOf(h.Pos()), "the hash set by %s depends on %s", fname(a.fn), bad)
			}
			hashTerms[leaves] = true
		}
	}
	if len(hashTerms) > 1 {
		c.r.Fail(key, c.p.posOf(as[0].fn.Pos()), "equal conditions may hash differently: the hash is computed in %d ways", len(hashTerms))
	}
}

func paramIndex(f *ssa.Function, name string) int {
	for i, p := range f.Params {
		if p.Name() == name {
			return i + 1
		}
	}
	return 0
}

func hasField(n *types.Named, name string) bool {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// pureLeaves renders how a value is computed from parameters and constants; bad names anything else it reads.
func pureLeaves(v ssa.Value) (desc, bad string) {
	seen := map[ssa.Value]string{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if s, ok := seen[v]; ok {
			return s
		}
		seen[v] = "…"
		s := ""
		switch x := v.(type) {
		case *ssa.Parameter:
			s = fmt.Sprintf("p%d", paramIndex(x.Parent(), x.Name()))
		case *ssa.Const:
			s = x.Value.String()
		case *ssa.Function:
			s = fname(x)
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if y, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *y.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
							s += "," + walk(st.Val)
						}
					}
				}
			}
		case *ssa.Call:
			com := x.Common()
			switch {
			case com.IsInvoke():
				s = com.Method.Name() + "(" + walk(com.Value)
				if com.Method.Name() != "Hash" && com.Method.Name() != "Eval" {
					bad = "a call of " + com.Method.Name()
				}
			case com.StaticCallee() != nil:
				cal := com.StaticCallee()
				s = fname(cal) + "("
				if !inRepo(cal) && cal.Pkg != nil && cal.Pkg.Pkg.Path() != "math" && cal.Pkg.Pkg.Path() != "strings" {
					bad = "a call of " + cal.String()
				}
			default:
				bad = "a dynamic call"
			}
			for _, a := range com.Args {
				s += "," + walk(a)
			}
			s += ")"
		case *ssa.Global:
			bad = "the variable " + x.Name()
		case ssa.Instruction:
			s = fmt.Sprintf("%T", x)
			if b, ok := v.(*ssa.BinOp); ok {
				s = b.Op.String()
			}
			s += "("
			for _, op := range x.Operands(nil) {
				if *op != nil {
					s += "," + walk(*op)
				}
			}
			s += ")"
		default:
			bad = fmt.Sprintf("%T", v)
		}
		seen[v] = s
		return s
	}
	desc = walk(v)
	return desc, bad
}

// hashes checks that the hash functions read nothing that equality does not compare.
func (c *comparer) hashes() {
	p, r := c.p, c.r
	check := func(root *ssa.Function, pkg string, allowed func(typ string, f *types.Var) bool, min int) {
		key := "hash:" + fname(root)
		n := 0
		fns := p.reach([]*ssa.Function{root}, false)
		var list []*ssa.Function
		for f := range fns {
			list = append(list, f)
		}
		sort.Slice(list, func(i, j int) bool { return fname(list[i]) < fname(list[j]) })
		for _, f := range list {
			if relPkgOf(f) != pkg || f.Blocks == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						if onlyStored(x) {
							continue
						}
						nt := named(x.X.Type())
						if nt == nil || rel(nt.Obj().Pkg().Path()) != pkg {
							continue
						}
						fv := nt.Underlying().(*types.Struct).Field(x.Field)
						n++
						if !allowed(nt.Obj().Name(), fv) {
							r.Fail(key, p.posOf(x.Pos()), "the hash depends on %s.%s, which equality ignores: equal values may hash differently", nt.Obj().Name(), fv.Name())
						}
					case ssa.CallInstruction:
						if cal := x.Common().StaticCallee(); cal != nil && !inRepo(cal) && cal.Pkg != nil {
							switch cal.Pkg.Pkg.Path() {
							case "math", "strings", "bytes", "unicode/utf8":
							default:
								r.Fail(key, p.posOf(x.Pos()), "undecided: the hash calls %s", cal.String())
							}
						}
					}
				}
			}
		}
		r.Count("fields read by hash functions", n)
		if n < min {
			r.Fail(key, p.posOf(root.Pos()), "undecided: %d fields read by the hash, at least %d expected", n, min)
		}
	}
	check(p.Method("relapse/ast", "Pattern", "Hash"), "relapse/ast", c.isValueField, 30)
	set := p.FuncOpt("relapse/intern", "Pattern.SetHash")
	if set == nil {
		set = p.MethodOpt("relapse/intern", "Pattern", "SetHash")
	}
	if set == nil {
		failAnchor("intern.Pattern.SetHash not found")
	}
	check(set, "relapse/intern", func(typ string, f *types.Var) bool {
		return c.isValueField(typ, f) || typ == "Pattern" && f.Name() == "hash"
	}, 4)
}

func onlyStored(x *ssa.FieldAddr) bool {
	for _, r := range *x.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != x {
			return false
		}
	}
	return true
}
