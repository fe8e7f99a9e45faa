package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isEOF(t *Term) bool { return t.Op == "gval" && t.Name == "io.EOF" }

// methodName is the last part of the name of what is called.
func methodName(t *Term) string {
	if t.Op != "call" {
		return ""
	}
	return t.Name[strings.LastIndexAny(t.Name, ".:")+1:]
}

// factOf is what a path has decided about a condition, written in one form.
func factOf(st *State, match func(c *Term) bool) (v, ok bool) {
	learned(st, func(c *Term, taken bool) {
		if match(canonTerm(c)) {
			v, ok = taken, true
		}
	})
	return
}

// equalTo is what a path has decided about a term being an integer.
func equalTo(st *State, t *Term, n int64) (v, ok bool) {
	t = canonTerm(t)
	learned(st, func(c *Term, taken bool) {
		c = canonTerm(c)
		if c.Op != "bin" || c.Name != "==" {
			return
		}
		for i := 0; i < 2; i++ {
			k, isC := intOf(c.Args[1-i])
			if !isC || !sameCall(c.Args[i], t) && c.Args[i] != t {
				continue
			}
			switch {
			case k == n:
				v, ok = taken, true
			case taken:
				v, ok = false, true
			}
		}
	})
	return
}

// lengthOf is how many bytes a value of a wire type takes: those before it and its own.
func lengthOf(st *State, wire, rest *Term, pkg string) (prefix, l *Term, ok bool) {
	v := mk("call", pkg+".uvarint", rest)
	for _, w := range []int64{0, 1, 2, 5} {
		if is, known := equalTo(st, wire, w); !is || !known {
			continue
		}
		switch w {
		case 0:
			return tInt(0), mk("extract", "1", v), true
		case 1:
			return tInt(0), tInt(8), true
		case 2:
			return mk("extract", "1", v), mk("conv", "int", mk("extract", "0", v)), true
		case 5:
			return tInt(0), tInt(4), true
		}
	}
	return nil, nil, false
}

func (x *parserImpl) protoNext(r *Report) {
	x.need("buf", "offset", "length", "field", "fieldsMap", "isLeaf", "isRepeated", "inRepeated", "indexRepeated", "isPacked", "inPacked")
	f, downs := x.fn("Next"), x.fn("Down")
	buf := x.field("buf")
	rest := func(at *Term) *Term { return canonTerm(mk("slice", "", buf, at, mk("end", ""))) }
	s := x.sim()
	base := s.Classify
	skipped := sym("skipped")
	skippers := map[*ssa.Function]bool{}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == f && c.Recurse {
			st.Data["again"] = mk("pair", "", x.now(st, "offset"), x.now(st, "length"))
			c.Result = sym("next")
			return Pure
		}
		if c.Callee != nil && c.Callee != f && c.Callee.Signature.Recv() != nil && named2(c.Callee.Signature.Recv().Type()) == x.n {
			for _, cc := range callsIn(c.Callee) {
				if cc.Common().StaticCallee() == downs {
					skippers[c.Callee] = true
					st.Data["skipped"] = mk("pair", "", x.now(st, "offset"), x.now(st, "length"))
					st.mem[tFA(tFA(self, x.state), "offset")] = skipped
					c.Result = sym("error of skipping")
					return Pure
				}
			}
		}
		return base(st, c)
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		err := rets[0]
		isNil, ok := st.IsNil(err)
		again := st.Data["again"] != nil
		if !isEOF(err) && !again && !(ok && isNil) {
			return
		}
		r.Count("paths of Next", 1)
		for _, k := range []string{"buf", "parent", "fieldsMap"} {
			if x.now(st, k) != x.field(k) {
				st.Fail(pos, "Next changes %s", k)
			}
		}
		rep, ok1 := isKnown(st, x.field("isRepeated"))
		inRep, ok2 := isKnown(st, x.field("inRepeated"))
		if !ok1 {
			st.Fail(pos, "does not ask whether a repeated field is to be skipped")
			return
		}
		o := plus(x.field("offset"), x.field("length"))
		if rep && !ok2 {
			st.Fail(pos, "does not ask whether it is in a repeated field")
			return
		}
		if rep && !inRep {
			if st.Data["skipped"] == nil {
				st.Fail(pos, "a repeated field is not skipped")
				return
			}
			if st.Data["skipped"] != mk("pair", "", x.field("offset"), x.field("length")) {
				st.Fail(pos, "a repeated field is skipped from somewhere else")
			}
			if e, ok := st.IsNil(sym("error of skipping")); !ok || !e {
				st.Fail(pos, "the error of skipping a repeated field is lost")
			}
			o = skipped
		} else if st.Data["skipped"] != nil {
			st.Fail(pos, "skips something that is not a repeated field")
			return
		}
		more, okMore := factOf(st, func(c *Term) bool { return c == canonTerm(tLt(o, tLen(buf))) })
		if !okMore {
			st.Fail(pos, "does not ask whether the end of the buffer is reached")
			return
		}
		if !more {
			end, ok := factOf(st, func(c *Term) bool { return c == canonTerm(tEq(o, tLen(buf))) })
			if !isEOF(err) || !ok || !end {
				st.Fail(pos, "Next at or behind the end of the buffer returns %s", short(err.String()))
			} else if x.now(st, "length") != tInt(0) || x.now(st, "offset") != o {
				st.Fail(pos, "at the end of the buffer the position is not the end")
			}
			return
		}
		if !ok2 {
			st.Fail(pos, "does not ask whether it is in a repeated field")
			return
		}
		v := mk("call", x.pkg+".uvarint", rest(o))
		key, n := mk("extract", "0", v), mk("extract", "1", v)
		wire := mk("conv", "int", mk("bin", "&", key, tInt(7)))
		at := func(prefixAt, wire *Term) bool {
			prefix, l, ok := lengthOf(st, wire, rest(prefixAt), x.pkg)
			if !ok {
				st.Fail(pos, "undecided: how long a value is")
				return false
			}
			off, ln := x.now(st, "offset"), x.now(st, "length")
			if again {
				off, ln = st.Data["again"].Args[0], st.Data["again"].Args[1]
			}
			if off != canonTerm(plus(prefixAt, prefix)) || ln != canonTerm(l) {
				st.Fail(pos, "a value is at %s with length %s, not at %s with length %s", short(off.String()), short(ln.String()), short(canonTerm(plus(prefixAt, prefix)).String()), short(l.String()))
				return false
			}
			return true
		}
		index := func() {
			if got := x.now(st, "indexRepeated"); got != plus(x.field("indexRepeated"), tInt(1)) {
				st.Fail(pos, "the index of an element is %s", short(got.String()))
			}
		}
		if inRep {
			num := mk("conv", "int32", mk("bin", ">>", key, tInt(3)))
			same, ok := factOf(st, func(c *Term) bool {
				if c.Op != "bin" || c.Name != "==" {
					return false
				}
				for i := 0; i < 2; i++ {
					if c.Args[i] == canonTerm(num) && methodName(c.Args[1-i]) == "GetNumber" && c.Args[1-i].Args[0] == x.field("field") {
						return true
					}
				}
				return false
			})
			switch {
			case !ok:
				st.Fail(pos, "does not ask whether the next value belongs to the repeated field")
			case same && (isEOF(err) || again):
				st.Fail(pos, "the next value of a repeated field is passed over")
			case same:
				if at(plus(o, n), wire) {
					index()
				}
			case !isEOF(err):
				st.Fail(pos, "a value of another field is taken for one of the repeated field")
			case x.now(st, "offset") != o || x.now(st, "length") != tInt(0):
				st.Fail(pos, "at the end of a repeated field the position is not that of the next field")
			}
			return
		}
		if isEOF(err) {
			st.Fail(pos, "Next stops before the end of the buffer")
			return
		}
		packed, ok := isKnown(st, x.field("inPacked"))
		if !ok {
			st.Fail(pos, "does not ask whether it is in a packed field")
			return
		}
		if packed {
			w := (*Term)(nil)
			learned(st, func(c *Term, taken bool) {
				c = canonTerm(c)
				if c.Op == "bin" && c.Name == "==" {
					for i := 0; i < 2; i++ {
						if methodName(c.Args[i]) == "WireType" && c.Args[i].Args[0] == x.field("field") {
							w = c.Args[i]
						}
					}
				}
			})
			if w == nil {
				st.Fail(pos, "the wire type of a packed element is not that of the field")
				return
			}
			if at(o, w) {
				index()
			}
			return
		}
		field := mk("lookup", "", x.field("fieldsMap"), key)
		found, ok := factOf(st, func(c *Term) bool { return c == canonTerm(mk("haskey", "", x.field("fieldsMap"), key)) })
		if !ok {
			st.Fail(pos, "does not look the key up among the fields")
			return
		}
		if !found {
			if !again || rets[0] != sym("next") {
				st.Fail(pos, "an unknown field is not skipped")
				return
			}
			at(plus(o, n), wire)
			return
		}
		if again {
			st.Fail(pos, "a known field is skipped")
			return
		}
		if got := x.now(st, "field"); got != canonTerm(field) {
			st.Fail(pos, "the field is %s", short(got.String()))
			return
		}
		is := func(name string) (bool, bool) {
			return factOf(st, func(c *Term) bool { return methodName(c) == name && c.Args[0] == canonTerm(field) })
		}
		repeated, ok := is("IsRepeated")
		if !ok {
			st.Fail(pos, "does not ask whether the field is repeated")
			return
		}
		pk := false
		if repeated {
			scalar, ok1 := is("IsScalar")
			two, ok2 := equalTo(st, wire, 2)
			if !(ok1 && !scalar) && !(ok2 && !two) && !(ok1 && ok2) {
				st.Fail(pos, "does not ask whether the field is packed")
				return
			}
			pk = ok1 && ok2 && scalar && two
		}
		if got := x.now(st, "isPacked"); got != tBool(pk) {
			if b, ok := known2(st, got); !ok || b != pk {
				st.Fail(pos, "isPacked is %s for a field that is packed: %v", short(got.String()), pk)
			}
		}
		if repeated && !pk {
			if x.now(st, "isRepeated") != tBool(true) || x.now(st, "offset") != o || x.now(st, "length") != tInt(0) {
				st.Fail(pos, "a repeated field does not start at its first element")
			}
			return
		}
		if got := x.now(st, "isRepeated"); got != tBool(false) && !(got == x.field("isRepeated") && !rep) {
			st.Fail(pos, "a field that is not repeated is taken to be")
		}
		at(plus(o, n), wire)
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
	s.Run(f, []*Term{self}, func(st *State) {
		st.mem[tFA(tFA(self, x.state), "isLeaf")] = tBool(false)
	})
	r.Sim(fname(f), s)
	// skipping goes through all elements
	for g := range skippers {
		x.skipsAll(r, g)
	}
}

// skipsAll: a function that skips a part of the document reads it to its end.
func (x *parserImpl) skipsAll(r *Report, g *ssa.Function) {
	s := x.sim()
	base := s.Classify
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && c.Callee.Signature.Recv() != nil && named2(c.Callee.Signature.Recv().Type()) == x.n {
			switch c.Callee.Name() {
			case "Down":
				st.Mon += "d"
			case "Up":
				st.Mon += "u"
			case "Next":
				if st.Mon != "d" {
					st.Fail(c.Instr.Pos(), "Next is called before going down")
				}
			}
			return Opaque
		}
		return base(st, c)
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if n, ok := st.IsNil(rets[0]); ok && n {
			eof := false
			learned(st, func(c *Term, taken bool) {
				if c.Op == "bin" && c.Name == "==" && taken && (isEOF(c.Args[0]) || isEOF(c.Args[1])) {
					eof = true
				}
			})
			if !eof || st.Mon != "du" {
				st.Fail(pos, "returns before everything is skipped (%s)", st.Mon)
			}
		} else if !ok {
			st.Fail(pos, "undecided: whether skipping fails")
		}
	}
	s.Run(g, []*Term{self}, nil)
	r.Sim(fname(g), s)
	r.Count("functions that skip", 1)
}

// storedFields are the fields that methods of a parser change.
func (x *parserImpl) storedFields(from []*ssa.Function) map[string]ssa.Instruction {
	out := map[string]ssa.Instruction{}
	for f := range x.p.reach(from, false) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				path := ""
				a := st.Addr
				for {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					u := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					path = "." + u.Field(fa.Field).Name() + path
					a = fa.X
					if named2(a.Type()) == x.n {
						out[path[1:]] = in
						break
					}
				}
			}
		}
	}
	return out
}

// initRule: Init and Reset leave nothing of an earlier walk behind.
func initRule(p *Prog, r *Report) {
	for _, x := range parsers(p, "parser/json", "parser/yaml", "parser/proto", "parser/reflect", "parser/xml") {
		x := x
		r.Count("parsers", 1)
		r.Sample("%s", x.n.String())
		r.guard(x.pkg+" Init", func() { x.init(r) })
		if p.method(x.ptr, "Reset") != nil {
			r.guard(x.pkg+" Reset", func() { x.reset(r) })
		}
	}
	r.Expect("parsers", 5)
	r.Expect("fields after Init", 60)
	r.Expect("documents for Reset", 8)
	r.Explain("Init is followed for a parser in any state: every field that some method changes has to have a value afterwards that does not depend on what it was, and the stack has to be empty. Reset, at the top and further down, has to call Init with the document that is kept, which no method but Init, Down and Up replaces.")
}

func (x *parserImpl) init(r *Report) {
	f := x.fn("Init")
	var all []*ssa.Function
	for _, n := range []string{"Next", "IsLeaf", "Up", "Down", "Init", "Double", "Int", "Uint", "Bool", "String", "Bytes"} {
		all = append(all, x.fn(n))
	}
	changed := map[string]bool{}
	for k := range x.storedFields(all) {
		changed[strings.Split(k, ".")[0]] = true
	}
	// stale finds something the parser was before
	var stale func(t *Term) *Term
	stale = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if t.Op == "field" || t.Op == "fa" {
			top := t
			for (top.Args[0].Op == "field" || top.Args[0].Op == "fa") && top.Args[0] != self {
				top = top.Args[0]
			}
			if top.Args[0] == self && t.Op == "field" {
				if changed[top.Name] {
					return t
				}
				return nil
			}
		}
		if t.Op == "sym" && strings.HasPrefix(t.Name, "saved:") {
			return t
		}
		for _, a := range t.Args {
			if b := stale(a); b != nil {
				return b
			}
		}
		return nil
	}
	s := x.sim()
	if x.pkg == "parser/json" || x.pkg == "parser/yaml" {
		x.scanners(s, map[*ssa.Function]bool{})
	}
	n := 0
	arg := sym("document")
	x.doc = arg
	defer func() { x.doc = nil }()
	u := x.n.Underlying().(*types.Struct)
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if sig := f.Signature.Results(); sig.Len() == 1 && sig.At(0).Type().String() == "error" {
			isNil, ok := st.IsNil(rets[0])
			if !ok || !isNil {
				return
			}
		}
		n++
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			a := tFA(self, fd.Name())
			if fd.Name() == x.stack {
				r.Count("fields after Init", 1)
				got := canonTerm(st.Load(a, fd.Type()))
				if !(got.Op == "list" && len(got.Args) == 0) && got != tNil {
					st.Fail(pos, "after Init the stack is %s", short(got.String()))
				}
				continue
			}
			if !changed[fd.Name()] {
				continue
			}
			check := func(name string, v *Term) {
				r.Count("fields after Init", 1)
				if b := stale(canonTerm(v)); b != nil {
					st.Fail(pos, "after Init %s is still what it was", name)
				}
			}
			if su, ok := fd.Type().Underlying().(*types.Struct); ok && fd.Name() == x.state {
				for j := 0; j < su.NumFields(); j++ {
					check(su.Field(j).Name(), st.Load(tFA(a, su.Field(j).Name()), su.Field(j).Type()))
				}
			} else {
				check(fd.Name(), st.Load(a, fd.Type()))
			}
		}
		learned(st, func(c *Term, taken bool) {
			if b := stale(canonTerm(c)); b != nil {
				st.Fail(pos, "Init depends on what %s was", short(b.String()))
			}
		})
		if x.pkg == "parser/json" {
			x.jsonRoot(st, pos, arg)
		}
		if x.pkg == "parser/yaml" && isBool(st, x.now(st, "inArray"), true) {
			x.want(st, pos, "at the root array", map[string]*Term{"offset": tInt(0), "isLeaf": tBool(false), "firstArrayValue": tBool(true), "arrayIndex": tInt(0)})
		}
	}
	s.Run(f, []*Term{self, arg}, func(st *State) {
		if x.stack != "" {
			st.mem[tFA(self, x.stack)] = savedStates(2)
		}
	})
	r.Sim(fname(f), s)
	if n == 0 && len(s.Errs) == 0 {
		r.Fail(fname(f), x.p.posOf(f.Pos()), "undecided: no path of Init succeeds")
	}
}

// jsonRoot checks where a json parser starts.
func (x *parserImpl) jsonRoot(st *State, pos tokenPos, doc *Term) {
	at := mk("call", x.pkg+".skipSpace", doc)
	obj, ok1 := x.byteAt(st, at, '{')
	arr, ok2 := x.byteAt(st, at, '[')
	if !ok1 || !ok2 {
		st.Fail(pos, "Init does not ask what the document starts with")
		return
	}
	tt, ff := tBool(true), tBool(false)
	switch {
	case obj:
		x.want(st, pos, "at the root object", map[string]*Term{"buf": doc, "offset": at, "isLeaf": ff, "inArray": ff, "firstObjectValue": tt})
	case arr:
		b := x.now(st, "buf")
		if b.Op != "slice" || b.Args[0] != doc || b.Args[1] != at {
			st.Fail(pos, "the root array is %s", short(b.String()))
			return
		}
		x.jsonExtent(st, pos, at, b.Args[2])
		x.want(st, pos, "at the root array", map[string]*Term{"offset": tInt(0), "isLeaf": ff, "inArray": tt, "firstArrayValue": tt, "arrayIndex": tInt(0)})
	default:
		x.want(st, pos, "at a root that is a leaf", map[string]*Term{"buf": doc, "startValueOffset": at, "isLeaf": tt, "firstObjectValue": tt})
		x.jsonExtent(st, pos, at, x.now(st, "endValueOffset"))
	}
}

func (x *parserImpl) reset(r *Report) {
	f, in := x.fn("Reset"), x.fn("Init")
	kept := map[string]bool{}
	for depth := 0; depth <= 2; depth++ {
		if x.stack == "" && depth > 0 {
			break
		}
		depth := depth
		s := x.sim()
		base := s.Classify
		res := sym("result of Init")
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee == in {
				if st.Data["doc"] != nil {
					st.Fail(c.Instr.Pos(), "Init is called twice")
				}
				st.Data["doc"] = canonTerm(c.Args[1])
				c.Result = res
				return Pure
			}
			return base(st, c)
		}
		n := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			n++
			r.Count("documents for Reset", 1)
			doc := st.Data["doc"]
			if doc == nil {
				st.Fail(pos, "Reset does not start over")
				return
			}
			if rets[0] != res {
				if isNil, ok := st.IsNil(res); !ok || !isNil || rets[0] != tNil {
					st.Fail(pos, "Reset loses the error of Init")
				}
			}
			name := doc.Name
			var want *Term
			switch {
			case doc.Op != "field":
			case depth > 0:
				want = tField(sym("saved:0"), name)
			case x.state != "" && x.hasField(name):
				want = x.field(name)
			default:
				want = tField(self, name)
			}
			if doc != want {
				st.Fail(pos, "%d levels down Reset starts with %s", depth, short(doc.String()))
			}
			kept[name] = true
		}
		s.Run(f, []*Term{self}, func(st *State) {
			if x.stack != "" {
				st.mem[tFA(self, x.stack)] = savedStates(depth)
			}
		})
		r.Sim(fname(f), s)
		if n == 0 && len(s.Errs) == 0 {
			r.Fail(fname(f), x.p.posOf(f.Pos()), "undecided: no path of Reset returns")
		}
	}
	if len(kept) != 1 {
		r.Fail(fname(f), x.p.posOf(f.Pos()), "undecided: which field keeps the document")
	}
	// nothing else replaces the document
	skip := map[*ssa.Function]bool{}
	for _, n := range []string{"Up", "Down", "Init", "Reset"} {
		skip[x.fn(n)] = true
	}
	var others []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || skip[f] {
			return
		}
		seen[f] = true
		others = append(others, f)
		for _, g := range x.p.refsOf(f) {
			walk(g)
		}
	}
	for _, n := range []string{"Next", "IsLeaf", "Double", "Int", "Uint", "Bool", "String", "Bytes"} {
		walk(x.fn(n))
	}
	for _, f := range others {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				u := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				t := named2(fa.X.Type())
				name := u.Field(fa.Field).Name()
				if t == x.n && (kept[name] || name == x.state) || x.sType != nil && t != nil && types.Identical(t, x.sType) && kept[name] {
					r.Fail(fname(f), x.p.posOf(st.Pos()), "%s replaces the document that Reset goes back to", f.Name())
				}
			}
		}
		r.Count("functions that keep the document", 1)
	}
}

// accessorRule: an accessor yields a value only where there is one of its kind.
func accessorRule(p *Prog, r *Report) {
	for _, x := range parsers(p, "parser/json", "parser/yaml", "parser/reflect", "parser/xml") {
		x := x
		r.Count("parsers", 1)
		for _, name := range []string{"Double", "Int", "Uint", "Bool", "String", "Bytes"} {
			name := name
			r.guard(x.pkg+" "+name, func() {
				f := x.fn(name)
				s := x.sim()
				n := 0
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					n++
					r.Count("outcomes", 1)
					v, err := canonTerm(rets[0]), canonTerm(rets[1])
					isNil, ok := st.IsNil(rets[1])
					if !ok {
						// the error of a call that may be nil
						isNil = true
					}
					msg := ""
					switch x.pkg {
					case "parser/json", "parser/yaml":
						msg = x.textValue(st, name, v, err, isNil, ok)
					case "parser/reflect":
						msg = x.reflectValue(st, name, v, isNil)
					case "parser/xml":
						msg = x.xmlValue(st, name, v, err, isNil, ok)
					}
					if msg != "" {
						st.Fail(pos, "%s", msg)
					}
				}
				s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
				s.Run(f, []*Term{self}, nil)
				r.Sim(fname(f), s)
				if n == 0 && len(s.Errs) == 0 {
					r.Fail(fname(f), p.posOf(f.Pos()), "undecided: %s returns nothing", name)
				}
				r.Count("accessors", 1)
			})
		}
	}
	r.Expect("parsers", 4)
	r.Expect("accessors", 24)
	r.Expect("outcomes", 60)
	r.Explain("Every path of every accessor of the json, yaml, xml and reflect parsers is followed. Where the current position is a value (a leaf) of the kind, the accessor has to return that value; a name only where there is a name, an index only in a list; and an error everywhere else.")
	r.Assume("strconv parses numbers, reflect reads fields; unquoting is C38.")
}

// parsed is the call that reads a value from text.
func parsed(fn string, args ...*Term) (*Term, *Term) {
	c := mk("call", "strconv."+fn, args...)
	return canonTerm(mk("extract", "0", c)), canonTerm(mk("extract", "1", c))
}

func textOf(b *Term) *Term { return canonTerm(mk("conv", "string", b)) }

func (x *parserImpl) textValue(st *State, name string, v, err *Term, isNil, sure bool) string {
	leaf, ok := isKnown(st, x.field("isLeaf"))
	val := mk("slice", "", x.field("buf"), x.field("startValueOffset"), x.field("endValueOffset"))
	text := textOf(val)
	fails := sure && !isNil
	if name == "Bytes" {
		if !fails {
			return "there are no bytes in text"
		}
		return ""
	}
	if !ok {
		return "does not ask whether it is at a leaf"
	}
	arr, okArr := isKnown(st, x.field("inArray"))
	if !leaf {
		switch name {
		case "Int", "String":
			if !okArr {
				return "does not ask whether it is in an array"
			}
			if arr && name == "Int" {
				if err != tNil || v != canonTerm(mk("conv", "int64", x.field("arrayIndex"))) && v != x.field("arrayIndex") {
					return "the index of an element is " + short(v.String())
				}
				return ""
			}
			if !arr && name == "String" {
				if err != tNil || v != x.field("name") {
					return "the name of a field is " + short(v.String())
				}
				return ""
			}
		}
		if !fails {
			return fmt.Sprintf("there is a value (%s) where there is none of this kind", short(v.String()))
		}
		return ""
	}
	pair := func(fn string, args ...*Term) string {
		a, b := parsed(fn, args...)
		if e, ok := known2(st, canonTerm(tEq(b, tNil))); ok && !e && fails {
			return ""
		}
		if v != a && v != canonTerm(mk("conv", "uint64", a)) && v != canonTerm(mk("conv", "int64", a)) || err != b && !(err == tNil && isNilIn(st, b)) {
			return fmt.Sprintf("the value is %s, %s", short(v.String()), short(err.String()))
		}
		return ""
	}
	switch name {
	case "Double":
		return pair("ParseFloat", text, tInt(64))
	case "Uint":
		return pair("ParseUint", text, tInt(10), tInt(64))
	case "Int":
		_, e := parsed("ParseInt", text, tInt(10), tInt(64))
		fl, fe := parsed("ParseFloat", text, tInt(64))
		asInt := canonTerm(mk("conv", "int64", fl))
		if v == asInt {
			exact, ok := factOf(st, func(c *Term) bool { return c == canonTerm(tEq(mk("conv", "float64", asInt), fl)) })
			if !ok || !exact || !isNilIn(st, fe) || isNilIn(st, e) || err != tNil {
				return "a number that is no integer is one"
			}
			return ""
		}
		if exact, ok := factOf(st, func(c *Term) bool { return c == canonTerm(tEq(mk("conv", "float64", asInt), fl)) }); ok && exact {
			return "a number that is an integer is none"
		}
		if !isNilIn(st, e) {
			if _, ok := factOf(st, func(c *Term) bool { return c == canonTerm(tEq(fe, tNil)) }); !ok {
				return "a number that ParseInt does not read may be an integer"
			}
		}
		return pair("ParseInt", text, tInt(10), tInt(64))
	case "Bool":
		asked := 0
		for _, b := range []bool{true, false} {
			is, ok := factOf(st, func(c *Term) bool {
				return c == canonTerm(tEq(text, mk("const", fmt.Sprintf("%q", fmt.Sprint(b)))))
			})
			if ok && is {
				if v != tBool(b) || err != tNil {
					return fmt.Sprintf("%v is %s, %s", b, short(v.String()), short(err.String()))
				}
				return ""
			}
			if ok {
				asked++
			}
		}
		if asked < 2 {
			return "does not ask whether the value is true or false"
		}
		if !fails {
			return "something else is " + short(v.String())
		}
		return ""
	case "String":
		if x.pkg == "parser/yaml" {
			trim := canonTerm(mk("call", "strings.TrimSpace", text))
			empty := false
			learned(st, func(c *Term, taken bool) {
				c = canonTerm(c)
				if c == canonTerm(tEq(tLen(trim), tInt(0))) || c == canonTerm(tEq(trim, mk("const", `""`))) {
					empty = taken
				}
			})
			if empty != fails || !empty && (v != trim || err != tNil) {
				return "the string is " + short(v.String())
			}
			return ""
		}
		q := mk("call", x.pkg+".unquote", val)
		quoted, ok := false, false
		learned(st, func(c *Term, taken bool) {
			c = canonTerm(c)
			if c.Op == "bin" && c.Name == "==" {
				for i := 0; i < 2; i++ {
					if n, isC := intOf(c.Args[1-i]); isC && n == '"' && (c.Args[i] == canonTerm(tIndex(val, tInt(0))) || c.Args[i] == canonTerm(tIndex(x.field("buf"), x.field("startValueOffset")))) {
						quoted, ok = taken, true
					}
				}
			}
		})
		if !ok {
			return "does not ask whether the value is a string"
		}
		if !quoted {
			if !fails {
				return "something else is the string " + short(v.String())
			}
			return ""
		}
		good, ok := known2(st, mk("extract", "1", q))
		if !ok {
			return "does not ask whether the string could be unquoted"
		}
		if good == fails || good && (v != canonTerm(mk("extract", "0", q)) || err != tNil) {
			return "the string is " + short(v.String())
		}
		return ""
	}
	return "undecided"
}

// isNilIn: an error is known to be nil on this path.
func isNilIn(st *State, e *Term) bool {
	b, ok := known2(st, tEq(e, tNil))
	return ok && b
}

func (x *parserImpl) reflectValue(st *State, name string, v *Term, isNil bool) string {
	kinds := x.reflectKinds()
	leaf, okLeaf := isKnown(st, x.field("isLeaf"))
	arr, okArr := isKnown(st, x.field("isArray"))
	if name == "Int" && okArr && arr && !(okLeaf && leaf) {
		if !isNil || v != canonTerm(mk("conv", "int64", plus(x.field("field"), tInt(-1)))) && v != plus(mk("conv", "int64", x.field("field")), tInt(-1)) {
			return "the index of an element is " + short(v.String())
		}
		return ""
	}
	if !okLeaf {
		return "does not ask whether it is at a leaf"
	}
	if !leaf {
		if name == "String" {
			if !isNil || v != tField(x.field("typ"), "Name") {
				return "the name of a field is " + short(v.String())
			}
			return ""
		}
		if name == "Int" && !okArr {
			return "does not ask whether it is in a list"
		}
		if isNil {
			return fmt.Sprintf("there is a value (%s) where there is none of this kind", short(v.String()))
		}
		return ""
	}
	// the value, with a pointer taken away
	val := x.field("value")
	target := val
	ptr, ok := equalTo(st, mk("call", "(reflect.Value).Kind", val), kinds["Ptr"])
	if !ok {
		return "does not ask whether the value is a pointer"
	}
	if ptr {
		target = mk("call", "(reflect.Value).Elem", val)
	}
	want := map[string][]string{"Double": {"Float64", "Float32"}, "Int": {"Int64", "Int32"}, "Uint": {"Uint64", "Uint32"}, "Bool": {"Bool"}, "String": {"String"}, "Bytes": {"Slice"}}[name]
	may := map[string][]string{"Int": {"Int", "Int8", "Int16"}, "Uint": {"Uint", "Uint8", "Uint16", "Uintptr"}, "Bytes": {"Array"}}[name]
	method := map[string]string{"Double": "Float"}[name]
	if method == "" {
		method = name
	}
	got := ""
	none := true
	for k, n := range kinds {
		is, ok := equalTo(st, mk("call", "(reflect.Value).Kind", target), n)
		if ok && is {
			got = k
		}
		for _, w := range want {
			if w == k && !ok {
				none = false
			}
		}
	}
	has := func(l []string) bool {
		for _, k := range l {
			if k == got {
				return true
			}
		}
		return false
	}
	switch {
	case has(want):
		if !isNil || !sameCall(v, canonTerm(mk("call", "(reflect.Value)."+method, target))) {
			return fmt.Sprintf("a value of kind %s is %s", got, short(v.String()))
		}
	case has(may):
		if isNil && !sameCall(v, canonTerm(mk("call", "(reflect.Value)."+method, target))) {
			return fmt.Sprintf("a value of kind %s is %s", got, short(v.String()))
		}
	case isNil:
		return fmt.Sprintf("a value of kind %q has the value %s", got, short(v.String()))
	case got == "" && !none:
		return "fails without asking for all kinds"
	}
	return ""
}

func (x *parserImpl) xmlValue(st *State, name string, v, err *Term, isNil, sure bool) string {
	get := func(n string) *Term { return tField(self, n) }
	fails := sure && !isNil
	tok := get("tok")
	noTok, okTok := factOf(st, func(c *Term) bool { return c == tEq(tok, tNil) })
	kind := ""
	kinds := map[string]bool{}
	learned(st, func(c *Term, taken bool) {
		if c.Op == "istype" && c.Args[0] == tok {
			k := c.Name[strings.LastIndex(c.Name, ".")+1:]
			if taken {
				kind = k
			}
			kinds[k] = taken
		}
	})
	attrAt := tIndex(get("attrs"), get("attrIndex"))
	inAttr, okAttr := isKnown(st, get("attrValue"))
	chars := canonTerm(mk("conv", "string", mk("as", "parser/xml.CharData", tok)))
	isChars := func(t *Term) bool {
		// the text of the token, whatever conversions are between
		for t.Op == "conv" {
			t = t.Args[0]
		}
		return t.Op == "as" && t.Args[0] == tok && strings.HasSuffix(t.Name, "CharData")
	}
	_ = chars
	attrVal := tField(attrAt, "Value")
	switch name {
	case "Bytes":
		if kind == "CharData" {
			if !isNil || !isChars(v) {
				return "the bytes of a text are " + short(v.String())
			}
			return ""
		}
		if !fails {
			return "there are bytes where there is no text"
		}
		return ""
	case "String":
		less, okLess := factOf(st, func(c *Term) bool { return c == canonTerm(tLt(get("attrIndex"), tLen(get("attrs")))) })
		prefixed := func(prefix string, t *Term) bool {
			return err == tNil && sameCall(v, plusText(get(prefix), t))
		}
		switch {
		case okTok && noTok && okLess && less:
			if !okAttr {
				return "does not ask whether it is at the value of an attribute"
			}
			if inAttr && !prefixed("textPrefix", attrVal) || !inAttr && !prefixed("attrPrefix", tField(tField(attrAt, "Name"), "Local")) {
				return "an attribute is " + short(v.String())
			}
		case kind == "StartElement":
			if err != tNil || v.Op != "bin" && v.Op != "sum" || !mentionsField(v, "elemPrefix") || !mentionsField(v, "Local") {
				return "the name of an element is " + short(v.String())
			}
		case kind == "CharData":
			ok := err == tNil && mentionsField(v, "textPrefix")
			has := false
			v.any(func(t *Term) bool {
				if isChars(t) {
					has = true
				}
				return false
			})
			if !ok || !has {
				return "a text is " + short(v.String())
			}
		case !fails:
			return "there is a string where there is none"
		}
		return ""
	}
	// numbers and booleans are read from the text
	var want *Term
	switch {
	case okTok && noTok && okAttr && inAttr:
		want = attrVal
	case kind == "CharData":
	case okTok && noTok && !okAttr:
		return "does not ask whether it is at the value of an attribute"
	case !kinds["CharData"] && len(kinds) > 0 || okTok && noTok:
		want = mk("const", `""`)
	default:
		return "does not ask where it is"
	}
	fn := map[string]string{"Double": "ParseFloat", "Int": "ParseInt", "Uint": "ParseUint", "Bool": "ParseBool"}[name]
	src := v
	for src.Op == "conv" {
		src = src.Args[0]
	}
	if src.Op != "extract" || src.Name != "0" || src.Args[0].Op != "call" || src.Args[0].Name != "strconv."+fn || err != canonTerm(mk("extract", "1", src.Args[0])) && !(err == tNil && isNilIn(st, mk("extract", "1", src.Args[0]))) {
		return fmt.Sprintf("the value is %s, %s", short(v.String()), short(err.String()))
	}
	args := src.Args[0].Args
	txt := args[0]
	if methodName(txt) == "TrimSpace" {
		txt = txt.Args[0]
	}
	if want != nil && txt != canonTerm(want) || want == nil && !isChars(txt) {
		return "the value is read from " + short(txt.String())
	}
	nums := map[string][]*Term{"Double": {tInt(64)}, "Int": {tInt(10), tInt(64)}, "Uint": {tInt(10), tInt(64)}}[name]
	for i, n := range nums {
		if i+1 >= len(args) || args[i+1] != n {
			return "the value is read with " + short(src.String())
		}
	}
	return ""
}

func plusText(a, b *Term) *Term { return canonTerm(mk("bin", "+", a, b)) }

func mentionsField(t *Term, name string) bool {
	found := false
	t.any(func(t *Term) bool {
		if t.Op == "field" && t.Name == name {
			found = true
		}
		return false
	})
	return found
}

var _ = sort.Strings
