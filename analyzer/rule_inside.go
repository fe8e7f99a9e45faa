package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: the protobuf parser reads only inside the document. Between calls the position and the length of the current
// value lie inside the buffer of the level; every method is followed from such a state, every part of a buffer that
// it reads is an obligation, and so is the state that it leaves. Obligations are sums that must not be negative,
// derived from what the branches of the path decided.

func init() { register("C27", "other", insideRule) }

type inside struct {
	x *parserImpl
	r *Report
}

func insideRule(p *Prog, r *Report) {
	r.Explain("Every method of the protobuf parser is followed from any state in which the current value lies inside the buffer. Every index and every part of a buffer that is read must lie inside of it, on every path, by what the branches have decided; after every success and at the end of a level the current value must lie inside the buffer again.")
	x := parsers(p, "parser/proto")[0]
	x.need("buf", "offset", "length", "isRepeated", "inRepeated", "isPacked")
	b := &inside{x: x, r: r}
	protoVarint(p, r)
	skippers := map[*ssa.Function]bool{}
	for _, name := range []string{"Next", "Down", "Up", "Init", "Reset", "Value", "IsLeaf", "Double", "Int", "Uint", "Bool", "String", "Bytes"} {
		name := name
		r.guard("inside:"+name, func() { b.method(name, x.fn(name), skippers) })
	}
	for g := range skippers {
		r.Count("functions that skip", 1)
		x.skipsAll(r, g)
	}
	r.Expect("methods", 13)
	r.Expect("parts of buffers", 20)
	r.Expect("states that are left", 10)
	r.Assume("a caller goes down only into a value that Next gave it, goes up only after that, and does not use the parser after an error other than the end")
}

func isByteList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e, ok := s.Elem().Underlying().(*types.Basic)
	return ok && e.Kind() == types.Uint8
}

func (b *inside) method(name string, f *ssa.Function, skippers map[*ssa.Function]bool) {
	x, p, r := b.x, b.x.p, b.r
	s := x.sim()
	base := s.Classify
	down := x.fn("Down")
	skipped := sym("skipped")
	st0 := tFA(self, x.state)
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == f && c.Recurse {
			b.valid(st, c.Instr.Pos(), "it goes on")
			st.Data["again"] = tNil
			c.Result = sym("next")
			return Pure
		}
		if c.Callee != nil && c.Callee != f && x.takesParser(c.Callee) && f != down {
			for _, cc := range callsIn(c.Callee) {
				if cc.Common().StaticCallee() == down {
					skippers[c.Callee] = true
					b.valid(st, c.Instr.Pos(), "it skips")
					st.mem[tFA(st0, "offset")] = skipped
					c.Result = sym("error of skipping")
					return Pure
				}
			}
		}
		return base(st, c)
	}
	s.OnPart = func(st *State, l, lo, hi *Term, at ssa.Instruction) {
		var size int64
		switch v := at.(type) {
		case *ssa.IndexAddr:
			if !isByteList(v.X.Type()) {
				return
			}
			size = readSize(p, v)
		case *ssa.Slice:
			if !isByteList(v.Type()) || !isByteList(v.X.Type()) {
				return
			}
		}
		if b.impossible(st) {
			return
		}
		r.Count("parts of buffers", 1)
		if l.Op == "slice" || l.Op == "field" || l.Op == "call" {
			r.Sample("%s reads %s of %s", fname(at.Parent()), short(canonTerm(mk("range", "", lo, hi)).String()), short(l.String()))
		}
		end := b.lin(st, tLen(l))
		from, to := b.lin(st, lo), end
		if hi.Op != "end" {
			to = b.lin(st, hi)
		}
		to.c += size
		if size > 0 {
			to.c-- // hi is one after lo
		}
		if !b.provable(st, from) {
			st.Fail(at.Pos(), "reads from %s, which may be before the start of %s", short(lo.String()), short(l.String()))
		} else if !b.provable(st, to.minus(from)) {
			st.Fail(at.Pos(), "reads from %s up to %s, which may be before", short(lo.String()), short(hi.String()))
		} else if !b.provable(st, end.minus(to)) {
			st.Fail(at.Pos(), "reads up to %s, which may be after the end of %s", renderLin(to), short(l.String()))
		}
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if n := len(rets); n > 0 && isErr(f.Signature.Results().At(n-1).Type()) && name == "Next" || name == "Init" || name == "Reset" {
			isNil, ok := st.IsNil(rets[n-1])
			if ok && !isNil && !isEOF(rets[n-1]) || st.Data["again"] != nil {
				return
			}
		}
		if b.impossible(st) {
			return
		}
		r.Count("states that are left", 1)
		b.valid(st, pos, "it returns")
		b.marks(st, pos, f == down)
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
	s.Run(f, []*Term{self}, nil)
	r.Count("methods", 1)
	r.Sim("inside:"+name, s)
}

// readSize is how many bytes are read at an address: more than one when it is taken for another type.
func readSize(p *Prog, v *ssa.IndexAddr) int64 {
	sizes := types.SizesFor("gc", "amd64")
	size := int64(1)
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			if c, ok := ref.(*ssa.Convert); ok {
				if pt, ok := c.Type().Underlying().(*types.Pointer); ok {
					if n := sizes.Sizeof(pt.Elem()); n > size {
						size = n
					}
				}
				follow(c)
			}
		}
	}
	follow(v)
	return size
}

// valid: the current value lies inside the buffer.
func (b *inside) valid(st *State, pos tokenPos, when string) {
	x := b.x
	off, ln, buf := x.now(st, "offset"), x.now(st, "length"), x.now(st, "buf")
	o, l := b.lin(st, off), b.lin(st, ln)
	n := b.lin(st, tLen(buf))
	switch {
	case !b.provable(st, o):
		st.Fail(pos, "the position is %s when %s, which may be negative", renderLin(o), when)
	case !b.provable(st, l):
		st.Fail(pos, "the length of the value is %s when %s, which may be negative", renderLin(l), when)
	case !b.provable(st, n.minus(o).minus(l)):
		st.Fail(pos, "the value at %s of length %s may end after the end of the buffer when %s", short(off.String()), short(ln.String()), when)
	}
}

// marks: a list of single elements has no buffer of its own, so that going up can continue after it.
func (b *inside) marks(st *State, pos tokenPos, down bool) {
	x := b.x
	now := func(name string) (v, known, same bool) {
		t := x.now(st, name)
		if t == x.field(name) {
			v, known = b.was(st, name)
			return v, known, true
		}
		for _, k := range []string{"isRepeated", "inRepeated", "isPacked"} {
			if t == x.field(k) {
				v, known = b.was(st, k)
				return v, known, false
			}
		}
		v, known = b.known(st, t)
		return v, known, false
	}
	if x.now(st, "buf").Op == "field" && x.now(st, "buf").Args[0].Op == "index" {
		return // a state that was left before
	}
	pv, pk, same := now("isPacked")
	for _, k := range []string{"isRepeated", "inRepeated"} {
		v, known, unchanged := now(k)
		if !(pk && !pv || known && !v || same && unchanged) {
			st.Fail(pos, "a field may be taken for a list of single elements (%s) and for a packed one", k)
		}
	}
	rep, repKnown, repSame := now("isRepeated")
	in, inKnown, inSame := now("inRepeated")
	if (!inKnown || in) && x.now(st, "buf") != x.field("buf") {
		st.Fail(pos, "the elements of a list are in another buffer than the list")
	}
	if down && (!inKnown || in) && !b.provable(st, b.minusLength(st, x.field("length"))) {
		st.Fail(pos, "the elements of a list are left with the length of another value")
	}
	if !(repKnown && !rep || inKnown && in || repSame && inSame && x.now(st, "length") == x.field("length")) && !b.provable(st, b.minusLength(st, x.now(st, "length"))) {
		st.Fail(pos, "a list of single elements has a length of its own")
	}
}

func (b *inside) minusLength(st *State, t *Term) lin {
	return lin{m: map[*Term]int64{}}.minus(b.lin(st, t))
}

func (b *inside) minusLengthWith(st *State, t *Term, small map[*Term]bool) lin {
	return lin{m: map[*Term]int64{}}.minus(b.linWith(st, t, small))
}

func renderLin(l lin) string {
	var ss []string
	for t, k := range l.m {
		if k == 1 {
			ss = append(ss, short(t.String()))
		} else {
			ss = append(ss, fmt.Sprintf("%d*%s", k, short(t.String())))
		}
	}
	sort.Strings(ss)
	if l.c != 0 || len(ss) == 0 {
		ss = append(ss, fmt.Sprint(l.c))
	}
	return strings.Join(ss, " + ")
}

// lin is a term as a sum. Conversions between signed and unsigned numbers are only read as what they convert when
// the number is known to be in both.
func (b *inside) lin(st *State, t *Term) lin { return b.linWith(st, t, b.small(st)) }

func (b *inside) linWith(st *State, t *Term, small map[*Term]bool) lin {
	l := lin{m: map[*Term]int64{}}
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		if n, ok := intOf(t); ok {
			l.c += k * n
			return
		}
		switch t.Op {
		case "bin":
			switch t.Name {
			case "+":
				add(t.Args[0], k)
				add(t.Args[1], k)
				return
			case "-":
				add(t.Args[0], k)
				add(t.Args[1], -k)
				return
			}
		case "sum":
			for _, a := range t.Args {
				if a.Op == "times" {
					var n int64
					fmt.Sscan(a.Name, &n)
					add(a.Args[0], k*n)
				} else {
					add(a, k)
				}
			}
			return
		case "conv":
			switch t.Name {
			case "int", "int64":
				if small[t.Args[0]] || !b.unsigned(t.Args[0]) {
					add(t.Args[0], k)
					return
				}
			case "uint64", "uint":
				if b.unsigned(t.Args[0]) || derive(b.linWith(st, t.Args[0], small), b.always(st, b.linWith(st, t.Args[0], small), small), 4) {
					add(t.Args[0], k)
					return
				}
			}
		case "len":
			if x := t.Args[0]; x.Op == "slice" {
				if x.Args[2].Op == "end" {
					add(tLen(x.Args[0]), k)
				} else {
					add(x.Args[2], k)
				}
				add(x.Args[1], -k)
				return
			}
		}
		if l.m[t] += k; l.m[t] == 0 {
			delete(l.m, t)
		}
	}
	add(canonTerm(t), 1)
	return l
}

// unsigned: the number that reading a number of a variable length gives.
func (b *inside) unsigned(t *Term) bool {
	return t.Op == "extract" && t.Name == "0" && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Name, ".uvarint") ||
		t.Op == "conv" && strings.HasPrefix(t.Name, "uint") || t.Op == "bin" && (t.Name == "&" || t.Name == ">>") && b.unsigned(t.Args[0])
}

// comparisons goes through what the path knows.
func (b *inside) comparisons(st *State, f func(c *Term, v bool)) {
	see := func(c *Term, v bool) { f(canonTerm(c), v) }
	for c, v := range st.facts {
		see(c, v)
	}
	learned(st, see)
}

// known says what is known of a boolean.
func (b *inside) known(st *State, t *Term) (val, ok bool) {
	t = canonTerm(t)
	if t.isTrue() || t.isFalse() {
		return t.isTrue(), true
	}
	b.comparisons(st, func(c *Term, v bool) {
		if c == t {
			val, ok = v, true
		}
	})
	return
}

// impossible: the state that the method is called in is a packed list and one of single elements.
func (b *inside) impossible(st *State) bool {
	p, ok := b.known(st, b.x.field("isPacked"))
	for _, k := range []string{"isRepeated", "inRepeated"} {
		if v, ok2 := b.known(st, b.x.field(k)); ok && p && ok2 && v {
			return true
		}
	}
	return false
}

// was is what is known of a mark in the state that a method is called in.
func (b *inside) was(st *State, name string) (bool, bool) {
	if v, ok := b.known(st, b.x.field(name)); ok {
		return v, ok
	}
	others := []string{"isPacked"}
	if name == "isPacked" {
		others = []string{"isRepeated", "inRepeated"}
	}
	for _, k := range others {
		if v, ok := b.known(st, b.x.field(k)); ok && v {
			return false, true
		}
	}
	return false, false
}

// small are the unsigned numbers that are at most a number that is an int.
func (b *inside) small(st *State) map[*Term]bool {
	out := map[*Term]bool{}
	b.comparisons(st, func(c *Term, v bool) {
		if c.Op != "bin" || c.Name != "<" {
			return
		}
		low, high := c.Args[0], c.Args[1]
		if !v {
			low, high = high, low
		}
		if !b.unsigned(low) {
			return
		}
		if n, ok := intOf(high); ok && n >= 0 {
			out[low] = true
		} else if high.Op == "conv" && strings.HasPrefix(high.Name, "uint") && !b.unsigned(high.Args[0]) {
			l := b.linWith(st, high.Args[0], nil)
			if derive(l, b.always(st, l, nil), 4) {
				out[low] = true
			}
		}
	})
	return out
}

// always is what holds for the parts of a sum on every path: the invariant of the states of the parser, and that
// reading a number takes bytes of what it is given.
func (b *inside) always(st *State, l lin, small map[*Term]bool) []lin {
	var out []lin
	seen := map[*Term]bool{}
	var see func(l lin)
	see = func(l lin) {
		for t := range l.m {
			if seen[t] {
				continue
			}
			seen[t] = true
			var base *Term
			switch {
			case t.Op == "field" && (t.Name == "offset" || t.Name == "length"):
				base = t.Args[0]
			case t.Op == "len" && t.Args[0].Op == "field" && t.Args[0].Name == "buf":
				base = t.Args[0].Args[0]
			case t.Op == "sym" && t.Name == "skipped":
				g := b.linWith(st, tLen(b.x.field("buf")), small).minus(b.linWith(st, t, small))
				out = append(out, g)
				see(g)
			case t.Op == "extract" && t.Name == "1" && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Name, ".uvarint"):
				g := b.linWith(st, tLen(t.Args[0].Args[0]), small).minus(b.linWith(st, t, small))
				out = append(out, g)
				see(g)
			}
			if base != nil {
				g := b.linWith(st, tLen(tField(base, "buf")), small).minus(b.linWith(st, tField(base, "offset"), small)).minus(b.linWith(st, tField(base, "length"), small))
				out = append(out, g)
				see(g)
				in, ok := b.was(st, "inRepeated")
				rep, ok2 := b.was(st, "isRepeated")
				if base == b.x.field("buf").Args[0] && ok && !in && ok2 && rep || base.Op == "index" && ok && in {
					// a list of single elements has no length of its own
					out = append(out, b.minusLengthWith(st, tField(base, "length"), small))
				}
				if base.Op == "index" {
					if ok && in {
						// the elements of a list are in the buffer of the list
						g := lin{m: map[*Term]int64{tLen(tField(base, "buf")): 1, tLen(b.x.field("buf")): -1}}
						h := lin{m: map[*Term]int64{tLen(tField(base, "buf")): -1, tLen(b.x.field("buf")): 1}}
						out = append(out, g, h)
						see(g)
					}
				}
			}
		}
	}
	see(l)
	return out
}

// provable: what is known implies that a sum is not negative.
func (b *inside) provable(st *State, l lin) bool {
	small := b.small(st)
	facts := b.always(st, l, small)
	b.comparisons(st, func(c *Term, v bool) {
		if c.Op != "bin" || c.Name != "<" && c.Name != "==" || len(c.Args) != 2 || c.Args[0] == tNil || c.Args[1] == tNil {
			return
		}
		p, q := b.linWith(st, c.Args[0], small), b.linWith(st, c.Args[1], small)
		switch {
		case c.Name == "==" && v:
			facts = append(facts, p.minus(q), q.minus(p))
		case c.Name == "<" && v:
			g := q.minus(p)
			g.c--
			facts = append(facts, g)
		case c.Name == "<":
			facts = append(facts, p.minus(q))
		}
	})
	for _, f := range facts[:len(facts):len(facts)] {
		facts = append(facts, b.always(st, f, small)...)
	}
	return derive(l, facts, 5)
}

// derive: a sum is a sum of known sums and of terms that are not negative.
func derive(l lin, facts []lin, depth int) bool {
	if l.c >= 0 {
		neg := false
		for t, k := range l.m {
			if k < 0 || !notNegative(t) {
				neg = true
			}
		}
		if !neg {
			return true
		}
	}
	if depth == 0 {
		return false
	}
	// a part that has to be explained
	var need *Term
	for t, k := range l.m {
		if (k < 0 || !notNegative(t)) && (need == nil || t.id < need.id) {
			need = t
		}
	}
	for _, g := range facts {
		if need == nil && g.c >= 0 || need != nil && g.m[need]*l.m[need] <= 0 {
			continue
		}
		if derive(l.minus(g), facts, depth-1) {
			return true
		}
	}
	return false
}

func notNegative(t *Term) bool {
	switch t.Op {
	case "len", "cap":
		return true
	case "field":
		return t.Name == "offset" || t.Name == "length"
	case "sym":
		return t.Name == "skipped"
	case "extract":
		return t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Name, ".uvarint")
	case "conv":
		return strings.HasPrefix(t.Name, "uint")
	}
	return false
}
