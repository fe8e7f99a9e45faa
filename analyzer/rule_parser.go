package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "other", positionRule)
	register("C19", "other", initRule)
	register("C20", "other", accessorRule)
}

// parserImpl is one of the parsers of the repository.
type parserImpl struct {
	pkg   string
	n     *types.Named
	ptr   types.Type
	p     *Prog
	state string // the field that is saved when going down, and the stack it is saved on
	stack string
	sType types.Type
	doc   *Term // the bytes that are read, when they are not those of the state
}

func (x *parserImpl) buffer() *Term {
	if x.doc != nil {
		return x.doc
	}
	return x.field("buf")
}

func (x *parserImpl) fn(name string) *ssa.Function {
	f := x.p.method(x.ptr, name)
	if f == nil || f.Blocks == nil {
		failAnchor("%s has no method %s", x.n, name)
	}
	return f
}

// parsers finds the type of each package that implements the parser interface.
func parsers(p *Prog, pkgs ...string) []*parserImpl {
	it := p.Type("parser", "Interface").Underlying().(*types.Interface)
	var out []*parserImpl
	for _, pkg := range pkgs {
		var found *parserImpl
		for _, n := range p.namedTypes() {
			if rel(n.Obj().Pkg().Path()) != pkg {
				continue
			}
			u, ok := n.Underlying().(*types.Struct)
			if !ok || !types.Implements(types.NewPointer(n), it) {
				continue
			}
			if found != nil {
				failAnchor("%s has more than one parser", pkg)
			}
			found = &parserImpl{pkg: pkg, n: n, ptr: types.NewPointer(n), p: p}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if sl, ok := f.Type().(*types.Slice); ok {
					for j := 0; j < u.NumFields(); j++ {
						if types.Identical(u.Field(j).Type(), sl.Elem()) {
							found.stack, found.state, found.sType = f.Name(), u.Field(j).Name(), sl.Elem()
						}
					}
				}
			}
		}
		if found == nil {
			failAnchor("%s has no parser", pkg)
		}
		out = append(out, found)
	}
	return out
}

var self = sym("parser")

// canonTerm folds a struct that was taken apart back together, and sums into one form.
func canonTerm(t *Term) *Term {
	if t == nil || len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = canonTerm(a)
	}
	switch t.Op {
	case "field":
		return tField(args[0], t.Name)
	case "bin":
		if t.Name == "+" || t.Name == "-" {
			return sumTerm(mk("bin", t.Name, args...))
		}
		switch t.Name {
		case "&", "|", "^", "*", "==":
			if args[0].id > args[1].id {
				args[0], args[1] = args[1], args[0]
			}
		}
	case "new":
		var whole *Term
		for i, kv := range args {
			v := kv.Args[0]
			if v.Op != "field" || v.Name != kv.Name || i > 0 && v.Args[0] != whole {
				whole = nil
				break
			}
			whole = v.Args[0]
		}
		if whole != nil {
			return whole
		}
	case "slice":
		// the whole of something
		if n, ok := intOf(args[1]); ok && n == 0 && (args[2].Op == "end" || args[2] == tLen(args[0])) {
			return args[0]
		}
		if args[2] == tLen(args[0]) {
			args[2] = mk("end", "")
		}
	}
	n := mk(t.Op, t.Name, args...)
	if n.Typ == nil {
		n.Typ = t.Typ
	}
	return n
}

// sumTerm writes a sum as the sorted list of what is added.
func sumTerm(t *Term) *Term {
	count := map[*Term]int{}
	c := int64(0)
	var add func(t *Term, sign int)
	add = func(t *Term, sign int) {
		if n, ok := intOf(t); ok {
			c += int64(sign) * n
			return
		}
		switch {
		case t.Op == "bin" && t.Name == "+":
			add(t.Args[0], sign)
			add(t.Args[1], sign)
		case t.Op == "bin" && t.Name == "-":
			add(t.Args[0], sign)
			add(t.Args[1], -sign)
		case t.Op == "sum":
			for _, a := range t.Args {
				if a.Op == "times" {
					k, _ := strconv.Atoi(a.Name)
					count[a.Args[0]] += sign * k
				} else {
					add(a, sign)
				}
			}
		default:
			count[t] += sign
		}
	}
	add(t, 1)
	var ks []*Term
	for k, n := range count {
		if n != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 0 {
		return tInt(c)
	}
	if len(ks) == 1 && count[ks[0]] == 1 && c == 0 {
		return ks[0]
	}
	var args []*Term
	for _, k := range ks {
		if count[k] == 1 {
			args = append(args, k)
		} else {
			args = append(args, mk("times", strconv.Itoa(count[k]), k))
		}
	}
	if c != 0 {
		args = append(args, tInt(c))
	}
	return mk("sum", "", args...)
}

func plus(ts ...*Term) *Term {
	s := tInt(0)
	for _, t := range ts {
		s = sumTerm(mk("bin", "+", s, t))
	}
	return s
}

// hasLoop reports whether a function has a loop.
func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if isLoopHeader(b) {
			return true
		}
	}
	return false
}

// sim follows a method: the functions of the package that loop over bytes and have no receiver are opaque.
func (x *parserImpl) sim() *Sim {
	s := &Sim{P: x.p, NoHavoc: true, MaxDepth: 30, MaxState: 40000}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == nil {
			return Pure
		}
		if strings.HasPrefix(relPkgOf(c.Callee), x.pkg) && inRepo(c.Callee) {
			if isUvarint(c.Callee) {
				c.Result = mk("call", x.pkg+".uvarint", c.Args...)
				return Pure
			}
			if !x.takesParser(c.Callee) {
				for g := range x.p.reach([]*ssa.Function{c.Callee}, false) {
					if relPkgOf(g) == x.pkg && hasLoop(g) && (g == c.Callee || x.pkg != "parser/proto") {
						return Pure
					}
				}
			}
			return Inline
		}
		if cl := c.Callee.String(); cl == "fmt.Errorf" || cl == "errors.New" {
			return Opaque
		}
		return Pure
	}
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		st.Data["branch:"+cond.String()+fmt.Sprint(taken)] = mk("branch", fmt.Sprint(taken), cond)
	}
	return s
}

// takesParser: a method of the parser, or a function that is given one.
func (x *parserImpl) takesParser(f *ssa.Function) bool {
	if f.Signature.Recv() != nil {
		return true
	}
	for _, p := range f.Params {
		if named2(p.Type()) == x.n {
			return true
		}
	}
	return false
}

// scanners are the methods that loop over the bytes of the document.
func (x *parserImpl) scanners(s *Sim, found map[*ssa.Function]bool) {
	base := s.Classify
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == nil || c.Callee.Signature.Recv() == nil || named2(c.Callee.Signature.Recv().Type()) != x.n || len(c.Args) != 1 || c.Callee.Object() == nil || c.Callee.Object().Exported() {
			return base(st, c)
		}
		loops := hasLoop(c.Callee)
		at := x.now(st, "offset")
		if x.pkg == "parser/yaml" {
			at = x.all(st)
			for g := range x.p.reach([]*ssa.Function{c.Callee}, false) {
				loops = loops || hasLoop(g) && relPkgOf(g) == x.pkg
			}
		}
		if !loops {
			return base(st, c)
		}
		found[c.Callee] = true
		var ks []string
		for k := range x.storedFields([]*ssa.Function{c.Callee}) {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			a := self
			for _, part := range strings.Split(k, ".") {
				a = tFA(a, part)
			}
			v := mk("scanned", c.Callee.Name()+"."+a.Name, at)
			if a.Name == "startValueOffset" && x.pkg != "parser/yaml" {
				v = at // see scanner
			}
			if a.Name == "offset" && x.pkg != "parser/yaml" {
				v = mk("scanned", c.Callee.Name()+".endValueOffset", at)
			}
			st.mem[a] = v
		}
		c.Result = mk("scanned", c.Callee.Name(), at)
		return Opaque
	}
}

// scanner checks a method that loops over the bytes of the document: it leaves the part that it read.
func (x *parserImpl) scanner(r *Report, f *ssa.Function) {
	s := x.sim()
	n := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if len(rets) != 1 {
			st.Fail(pos, "undecided: what %s returns", f.Name())
			return
		}
		if isNil, ok := st.IsNil(rets[0]); ok && !isNil {
			return
		}
		n++
		r.Count("paths of scanners", 1)
		if got := x.now(st, "startValueOffset"); got != x.field("offset") {
			st.Fail(pos, "what is read starts at %s", short(got.String()))
		}
		if end, off := x.now(st, "endValueOffset"), x.now(st, "offset"); end != off {
			st.Fail(pos, "what is read ends at %s and not at %s", short(end.String()), short(off.String()))
		}
	}
	s.Run(f, []*Term{self}, nil)
	r.Sim(fname(f), s)
	for k, in := range x.storedFields([]*ssa.Function{f}) {
		if k != x.state+".offset" && k != x.state+".startValueOffset" && k != x.state+".endValueOffset" {
			r.Fail(fname(f), x.p.posOf(in.Pos()), "undecided: %s changes %s", f.Name(), k)
		}
	}
	if n == 0 && len(s.Errs) == 0 {
		r.Fail(fname(f), x.p.posOf(f.Pos()), "undecided: no path of %s succeeds", f.Name())
	}
}

// learned goes through what the branches of a path have decided.
func learned(st *State, f func(cond *Term, taken bool)) {
	var ks []string
	for k := range st.Data {
		if strings.HasPrefix(k, "branch:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := st.Data[k]
		c, taken := t.Args[0], t.Name == "true"
		for c.Op == "un" && c.Name == "!" {
			c, taken = c.Args[0], !taken
		}
		f(c, taken)
	}
}

// known says whether a boolean of the parser is set on this path.
func isKnown(st *State, t *Term) (bool, bool) {
	v, ok := st.Fact(t)
	if ok {
		return v, true
	}
	learned(st, func(c *Term, taken bool) {
		if c == t {
			v, ok = taken, true
		}
	})
	return v, ok
}

// isBool: a boolean has a value on this path.
func isBool(st *State, t *Term, want bool) bool {
	if t == tBool(want) {
		return true
	}
	v, ok := isKnown(st, t)
	return ok && v == want
}

// field is what a field of the saved state was at the start.
func (x *parserImpl) field(name string) *Term {
	return tField(tField(self, x.state), name)
}

func (x *parserImpl) hasField(name string) bool {
	u := x.sType.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (x *parserImpl) need(names ...string) {
	for _, n := range names {
		if !x.hasField(n) {
			failAnchor("the state of %s has no field %s", x.pkg, n)
		}
	}
}

func (x *parserImpl) now(st *State, name string) *Term {
	u := x.sType.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return canonTerm(st.Load(tFA(tFA(self, x.state), name), u.Field(i).Type()))
		}
	}
	return tNil
}

func (x *parserImpl) all(st *State) *Term {
	return canonTerm(st.Load(tFA(self, x.state), x.sType))
}

func (x *parserImpl) withStack(n int) func(*State) {
	return func(st *State) {
		st.mem[tFA(self, x.stack)] = savedStates(n)
	}
}

func savedStates(n int) *Term {
	var es []*Term
	for i := 0; i < n; i++ {
		es = append(es, sym(fmt.Sprintf("saved:%d", i)))
	}
	return mk("list", "", es...)
}

// sharesBuffer: after going down the child reads on in the same bytes as its parent.
const repeatedField = "inRepeated"

// positionRule: going down and up again leads back, and Next moves from one part to the next.
func positionRule(p *Prog, r *Report) {
	for _, x := range parsers(p, "parser/json", "parser/yaml", "parser/proto", "parser/reflect") {
		x := x
		r.Count("parsers", 1)
		r.Sample("%s", x.n.String())
		if x.stack == "" {
			r.Fail(x.pkg, "-", "undecided: %s has no stack of states", x.n)
			continue
		}
		r.guard(x.pkg+" Up", func() { x.up(r) })
		r.guard(x.pkg+" Down", func() { x.down(r) })
		r.guard(x.pkg+" stack", func() { x.stackUse(r) })
		switch x.pkg {
		case "parser/json":
			r.guard(x.pkg+" Next", func() { x.jsonNext(r) })
		case "parser/reflect":
			r.guard(x.pkg+" Next", func() { x.reflectNext(r) })
		case "parser/proto":
			r.guard(x.pkg+" Next", func() { x.protoNext(r) })
		}
		r.guard(x.pkg+" leaf", func() { x.leafNext(r) })
	}
	r.Expect("parsers", 4)
	r.Expect("paths of Up", 5)
	r.Expect("paths of Down", 20)
	r.Expect("paths of Next", 60)
	r.Explain("Down and Up are followed for a parser with any state: what Down saves has to be the state before it, and Up has to bring the saved state back (a repeated protocol buffer field, whose elements are read from the bytes of its parent, moves the parent past what was read). The child has to start at the beginning of the current value and nowhere else. Next has to read one member or element after another and to stop at the end.")
	r.Assume("The walk goes up as often as it goes down (C01); scanning of single json tokens is C38.")
}

func (x *parserImpl) up(r *Report) {
	f := x.fn("Up")
	for n := 1; n <= 3; n++ {
		n := n
		s := x.sim()
		paths := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			paths++
			r.Count("paths of Up", 1)
			if got := canonTerm(st.snapshot(st.Load(tFA(self, x.stack), nil0))); got != savedStates(n-1) {
				st.Fail(pos, "after going up the stack of %d is %s", n, short(got.String()))
				return
			}
			saved := sym(fmt.Sprintf("saved:%d", n-1))
			u := x.sType.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				name := u.Field(i).Name()
				got, want := x.now(st, name), tField(saved, name)
				if x.pkg == "parser/proto" && name == "offset" {
					rep, ok := isKnown(st, x.field(repeatedField))
					if !ok {
						st.Fail(pos, "undecided: whether a repeated field is left")
						return
					}
					if rep {
						want = plus(x.field("offset"), x.field("length"))
					}
				}
				if got != want {
					st.Fail(pos, "going up does not bring %s back: it is %s", name, short(got.String()))
				}
			}
		}
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "going up panics") }
		s.Run(f, []*Term{self}, x.withStack(n))
		r.Sim(fname(f), s)
		if paths == 0 && len(s.Errs) == 0 {
			r.Fail(fname(f), x.p.posOf(f.Pos()), "undecided: no path goes up")
		}
	}
}

var nil0 = types.Typ[types.Int]

// want checks fields of the state at the end of a path.
func (x *parserImpl) want(st *State, pos tokenPos, what string, fields map[string]*Term) {
	var ns []string
	for n := range fields {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		x.need(n)
		if got, w := x.now(st, n), canonTerm(fields[n]); got != w && !(w.isTrue() && isBool(st, got, true)) && !(w.isFalse() && isBool(st, got, false)) {
			st.Fail(pos, "%s: %s is %s, not %s", what, n, short(got.String()), short(w.String()))
		}
	}
}

func (x *parserImpl) down(r *Report) {
	f := x.fn("Down")
	for n := 0; n <= 2; n++ {
		n := n
		s := x.sim()
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			r.Count("paths of Down", 1)
			want := append(append([]*Term{}, savedStates(n).Args...), tField(self, x.state))
			if got := canonTerm(st.snapshot(st.Load(tFA(self, x.stack), nil0))); got != mk("list", "", want...) {
				st.Fail(pos, "going down saves %s, not the state it was in", short(got.String()))
				return
			}
			x.child(st, pos)
		}
		s.Run(f, []*Term{self}, x.withStack(n))
		r.Sim(fname(f), s)
	}
}

// child checks what a parser is at after it went down.
func (x *parserImpl) child(st *State, pos tokenPos) {
	flag := func(name string) bool {
		x.need(name)
		v, ok := isKnown(st, x.field(name))
		if !ok {
			// not asked: the path is for both
			st.Data["open:"+name] = tBool(true)
		}
		return v && ok
	}
	asked := func(names ...string) bool {
		for _, n := range names {
			if _, ok := isKnown(st, x.field(n)); !ok {
				st.Fail(pos, "goes down without asking for %s", n)
				return false
			}
		}
		return true
	}
	tt, ff, zero := tBool(true), tBool(false), tInt(0)
	switch x.pkg {
	case "parser/json", "parser/yaml":
		part := mk("slice", "", x.field("buf"), x.field("startValueOffset"), x.field("endValueOffset"))
		switch {
		case flag("isValueObject"):
			x.want(st, pos, "going into an object", map[string]*Term{"buf": part, "offset": zero, "isLeaf": ff, "inArray": ff, "firstObjectValue": tt, "firstArrayValue": x.either(st, "firstArrayValue")})
		case flag("isValueArray"):
			x.want(st, pos, "going into an array", map[string]*Term{"buf": part, "offset": zero, "isLeaf": ff, "inArray": tt, "firstArrayValue": tt, "arrayIndex": zero})
		default:
			if !asked("isValueObject", "isValueArray") {
				return
			}
			x.want(st, pos, "going to a leaf", map[string]*Term{"buf": x.field("buf"), "startValueOffset": x.field("startValueOffset"), "endValueOffset": x.field("endValueOffset"), "isLeaf": tt, "firstObjectValue": tt})
		}
	case "parser/proto":
		part := mk("slice", "", x.field("buf"), x.field("offset"), plus(x.field("offset"), x.field("length")))
		rep, inRep := flag("isRepeated"), flag("inRepeated")
		var isMsg *Term
		msg := false
		learned(st, func(c *Term, taken bool) {
			if c.Op == "call" && strings.HasSuffix(c.Name, ".IsMessage") {
				isMsg, msg = c, taken
			}
		})
		same := map[string]*Term{"buf": x.field("buf"), "offset": x.field("offset"), "field": x.field("field"), "isLeaf": x.field("isLeaf"), "hadLeaf": x.field("hadLeaf")}
		set := func(kv ...interface{}) map[string]*Term {
			for i := 0; i < len(kv); i += 2 {
				same[kv[i].(string)] = kv[i+1].(*Term)
			}
			return same
		}
		off := map[string]*Term{"inRepeated": ff, "isRepeated": ff, "isPacked": ff, "inPacked": ff}
		switch {
		case rep && !inRep:
			if !asked("isRepeated", "inRepeated") {
				return
			}
			x.want(st, pos, "going into a repeated field", set("inRepeated", tt, "indexRepeated", zero, "length", zero, "isRepeated", x.either(st, "isRepeated")))
		case isMsg != nil && msg:
			if isMsg.Args[0] != x.field("field") {
				st.Fail(pos, "asks whether %s is a message", short(isMsg.Args[0].String()))
				return
			}
			// the descriptor of the message is that of the field
			parent, fields := x.now(st, "parent"), x.now(st, "fieldsMap")
			if parent.Op != "call" || parent.Name != "invoke:LookupMessage" && !strings.HasSuffix(parent.Name, ".LookupMessage") || parent.Args[len(parent.Args)-1] != x.field("field") {
				st.Fail(pos, "the message of a field is %s", short(parent.String()))
			}
			if fields.Op != "call" || fields.Name != "invoke:LookupFields" && !strings.HasSuffix(fields.Name, ".LookupFields") || fields.Args[len(fields.Args)-1] != parent {
				st.Fail(pos, "the fields of a message are %s", short(fields.String()))
			}
			x.want(st, pos, "going into a message", set("buf", part, "offset", zero, "length", zero, "field", x.now(st, "field"), "inRepeated", ff, "isRepeated", ff, "isPacked", ff, "inPacked", ff))
		case flag("isPacked") && !flag("inPacked"):
			if isMsg == nil && !asked("isRepeated") {
				return
			}
			x.want(st, pos, "going into a packed field", set("buf", part, "offset", zero, "length", zero, "inPacked", tt, "indexRepeated", zero))
		default:
			if !asked("isPacked") || isMsg == nil {
				st.Fail(pos, "goes to a leaf without asking what the field is")
				return
			}
			for k, v := range off {
				same[k] = v
			}
			x.want(st, pos, "going to a leaf", set("isLeaf", tt, "length", x.field("length")))
		}
	case "parser/reflect":
		var from *Term
		if arr, ok := isKnown(st, x.field("isArray")); !ok {
			st.Fail(pos, "goes down without asking whether it is in a list")
			return
		} else if arr {
			from = mk("call", "(reflect.Value).Index", x.field("parent"), plus(x.field("field"), tInt(-1)))
		} else {
			from = x.field("value")
		}
		x.newState(st, pos, from)
	}
}

// either accepts whatever a field is.
func (x *parserImpl) either(st *State, name string) *Term { return x.now(st, name) }

// reflectCall recognises a call of a method of reflect.Value or reflect.Type.
func reflectCall(t *Term, name string) (*Term, bool) {
	if t.Op == "call" && (strings.HasSuffix(t.Name, ")."+name) || t.Name == "invoke:"+name || strings.HasSuffix(t.Name, "."+name)) && len(t.Args) > 0 {
		return t.Args[0], true
	}
	return nil, false
}

// callName compares calls regardless of how the callee is named.
func sameCall(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op || len(a.Args) != len(b.Args) {
		return false
	}
	if a.Op == "call" {
		m := func(s string) string { return s[strings.LastIndexAny(s, ".:")+1:] }
		if m(a.Name) != m(b.Name) {
			return false
		}
	} else if a.Name != b.Name {
		return false
	}
	for i := range a.Args {
		if !sameCall(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return len(a.Args) > 0
}

// kinds of reflect, by name
func (x *parserImpl) reflectKinds() map[string]int64 {
	out := map[string]int64{}
	for _, f := range x.p.funcsIn(x.pkg) {
		for _, im := range f.Pkg.Pkg.Imports() {
			if im.Path() != "reflect" {
				continue
			}
			for _, n := range im.Scope().Names() {
				if c, ok := im.Scope().Lookup(n).(*types.Const); ok && c.Type().String() == "reflect.Kind" {
					i, _ := strconv.ParseInt(c.Val().ExactString(), 10, 64)
					out[n] = i
				}
			}
			return out
		}
	}
	return out
}

// newState checks the state a reflect parser starts a value with.
func (x *parserImpl) newState(st *State, pos tokenPos, from *Term) {
	from = canonTerm(from)
	kinds := x.reflectKinds()
	kindOf := func(v *Term, k string) (bool, bool) {
		res, ok := false, false
		learned(st, func(c *Term, taken bool) {
			if c.Op != "bin" || c.Name != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				n, isC := intOf(c.Args[1-i])
				if x, isK := reflectCall(canonTerm(c.Args[i]), "Kind"); isK && isC && sameCall(x, v) {
					switch {
					case n == kinds[k]:
						res, ok = taken, true
					case taken:
						res, ok = false, true
					}
				}
			}
		})
		return res, ok
	}
	target := from
	if ptr, ok := kindOf(from, "Ptr"); !ok {
		st.Fail(pos, "does not ask whether a value is a pointer")
		return
	} else if ptr {
		target = mk("call", "(reflect.Value).Elem", from)
	}
	tt, ff, zero := tBool(true), tBool(false), tInt(0)
	eq := func(name string, want *Term) {
		if got := x.now(st, name); !sameCall(got, canonTerm(want)) {
			st.Fail(pos, "going into a value: %s is %s, not %s", name, short(got.String()), short(want.String()))
		}
	}
	x.need("parent", "value", "field", "maxField", "isLeaf", "isArray")
	eq("field", zero)
	if s, ok := kindOf(target, "Struct"); ok && s {
		eq("parent", target)
		eq("maxField", mk("call", "(reflect.Value).NumField", target))
		eq("isLeaf", ff)
		eq("isArray", ff)
		return
	} else if !ok {
		st.Fail(pos, "does not ask whether a value is a struct")
		return
	}
	if s, ok := kindOf(target, "Slice"); ok && s {
		elem := mk("call", "Kind", mk("call", "Elem", mk("call", "Type", target)))
		bytes, known := false, false
		learned(st, func(c *Term, taken bool) {
			if c.Op == "bin" && c.Name == "==" {
				for i := 0; i < 2; i++ {
					if n, ok := intOf(c.Args[1-i]); ok && n == kinds["Uint8"] && sameCall(canonTerm(c.Args[i]), elem) {
						bytes, known = taken, true
					}
				}
			}
		})
		if !known {
			st.Fail(pos, "does not ask whether a slice is bytes")
			return
		}
		if !bytes {
			eq("parent", target)
			eq("maxField", mk("call", "(reflect.Value).Len", target))
			eq("isLeaf", ff)
			eq("isArray", tt)
			return
		}
	} else if !ok {
		st.Fail(pos, "does not ask whether a value is a slice")
		return
	}
	eq("isLeaf", tt)
	eq("isArray", ff)
	eq("maxField", tInt(1))
	if got := x.now(st, "value"); !sameCall(got, from) && !sameCall(got, target) {
		st.Fail(pos, "the value of a leaf is %s", short(got.String()))
	}
}

// stackUse: only going up, going down and starting over change the stack.
func (x *parserImpl) stackUse(r *Report) {
	allowed := map[*ssa.Function]bool{}
	for _, n := range []string{"Up", "Down", "Init", "Reset"} {
		if x.p.method(x.ptr, n) == nil {
			continue
		}
		for f := range x.p.reach([]*ssa.Function{x.fn(n)}, false) {
			allowed[f] = true
		}
	}
	others := []*ssa.Function{}
	for _, n := range []string{"Next", "IsLeaf", "Double", "Int", "Uint", "Bool", "String", "Bytes"} {
		others = append(others, x.fn(n))
	}
	ups, downs := x.fn("Up"), x.fn("Down")
	for f := range x.p.reach(others, false) {
		if onlyFrom(f, func(g *ssa.Function) bool { return g == ups || g == downs }) {
			continue
		}
		nUp, nDown := 0, 0
		for _, c := range callsIn(f) {
			switch c.Common().StaticCallee() {
			case ups:
				nUp++
			case downs:
				nDown++
			}
		}
		r.Count("functions that may use the stack", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && named2(fa.X.Type()) == x.n && x.n.Underlying().(*types.Struct).Field(fa.Field).Name() == x.stack {
					r.Fail(fname(f), x.p.posOf(st.Pos()), "%s changes the stack", f.Name())
				}
			}
		}
		if nUp+nDown == 0 {
			continue
		}
		x.balanced(r, f)
	}
}

// balanced: a method that goes down goes up again unless it returns an error.
func (x *parserImpl) balanced(r *Report, f *ssa.Function) {
	s := x.sim()
	base := s.Classify
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && c.Callee.Signature.Recv() != nil && named2(c.Callee.Signature.Recv().Type()) == x.n {
			switch c.Callee.Name() {
			case "Up":
				st.Mon = strings.TrimPrefix(st.Mon, "d")
				return Opaque
			case "Down":
				st.Mon += "d"
				if len(st.Mon) > 4 {
					st.Fail(c.Instr.Pos(), "goes down without going up")
					st.Kill()
				}
				return Opaque
			}
			return Opaque
		}
		return base(st, c)
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		isNil := true
		if len(rets) > 0 {
			last := rets[len(rets)-1]
			n, ok := st.IsNil(last)
			isNil = !ok || n
			if last.Op == "gval" && last.Name == "io.EOF" {
				isNil = true
			}
		}
		if st.Mon != "" && isNil {
			st.Fail(pos, "%s returns further down than it started", f.Name())
		}
	}
	s.Run(f, []*Term{self}, nil)
	r.Sim(fname(f), s)
}

// leafNext: a leaf is at its value after the first Next, the second is the end.
func (x *parserImpl) leafNext(r *Report) {
	flagName, first := "firstObjectValue", true
	switch x.pkg {
	case "parser/proto":
		flagName, first = "hadLeaf", false
	case "parser/reflect":
		return
	}
	f := x.fn("Next")
	x.need(flagName, "isLeaf")
	for _, again := range []bool{false, true} {
		again := again
		s := x.sim()
		n := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			n++
			r.Count("paths of Next", 1)
			eof := rets[0].Op == "gval" && rets[0].Name == "io.EOF"
			if again != eof || !again && rets[0] != tNil {
				st.Fail(pos, "Next at a leaf returns %s (again: %v)", short(rets[0].String()), again)
			}
			if got := x.now(st, flagName); !again && got != tBool(!first) || again && got != tBool(!first) {
				st.Fail(pos, "Next at a leaf does not remember that it was called")
			}
			for _, k := range []string{"buf", "startValueOffset", "endValueOffset", "offset", "length", "field", "isLeaf"} {
				if x.hasField(k) && x.now(st, k) != x.field(k) && !(k == "isLeaf" && x.now(st, k) == tBool(true)) {
					st.Fail(pos, "Next at a leaf changes %s", k)
				}
			}
		}
		s.Run(f, []*Term{self}, func(st *State) {
			st.mem[tFA(tFA(self, x.state), "isLeaf")] = tBool(true)
			st.mem[tFA(tFA(self, x.state), flagName)] = tBool(first != again)
		})
		r.Sim(fname(f), s)
		if n == 0 && len(s.Errs) == 0 {
			r.Fail(fname(f), x.p.posOf(f.Pos()), "undecided: Next at a leaf")
		}
	}
}

// byteAt says whether the byte of the buffer at a position is known to be c, or known not to be.
func (x *parserImpl) byteAt(st *State, at *Term, ch byte) (is, known bool) {
	buf := x.buffer()
	learned(st, func(c *Term, taken bool) {
		if c.Op != "bin" || len(c.Args) != 2 {
			return
		}
		isAt := func(t *Term) bool {
			t = canonTerm(t)
			if t.Op == "conv" {
				t = t.Args[0]
			}
			if t.Op != "index" {
				return false
			}
			b, i := t.Args[0], t.Args[1]
			if b.Op == "slice" {
				b, i = b.Args[0], plus(b.Args[1], i)
			}
			return b == buf && canonTerm(i) == at
		}
		a, okA := intOf(c.Args[0])
		b, okB := intOf(c.Args[1])
		var holds bool
		switch {
		case okB && isAt(c.Args[0]):
			holds = c.Name == "==" && int64(ch) == b || c.Name == "<" && int64(ch) < b
		case okA && isAt(c.Args[1]):
			holds = c.Name == "==" && int64(ch) == a || c.Name == "<" && a < int64(ch)
		default:
			return
		}
		if c.Name != "==" && c.Name != "<" {
			return
		}
		switch {
		case holds != taken:
			is, known = false, true
		case c.Name == "==" && taken && !known:
			is, known = true, true
		}
	})
	return is, known
}

// jsonNext checks how the parser gets from one member to the next.
func (x *parserImpl) jsonNext(r *Report) {
	x.need("buf", "offset", "name", "startValueOffset", "endValueOffset", "inArray", "firstObjectValue", "firstArrayValue", "isValueObject", "isValueArray", "isLeaf", "arrayIndex")
	f := x.fn("Next")
	buf := x.field("buf")
	skip := func(at *Term) *Term {
		return plus(at, mk("call", x.pkg+".skipSpace", canonTerm(mk("slice", "", buf, at, mk("end", "")))))
	}
	s := x.sim()
	found := map[*ssa.Function]bool{}
	x.scanners(s, found)
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		err := rets[0]
		isNil, ok := st.IsNil(err)
		eof := err.Op == "gval" && err.Name == "io.EOF"
		if !ok {
			// the error of something that was called
			isNil = false
		}
		if x.now(st, "buf") != buf {
			st.Fail(pos, "Next changes the bytes that are read")
		}
		failed := !isNil && !eof
		if failed && err.Op == "gval" && err.Name == "io.ErrShortBuffer" {
			return
		}
		r.Count("paths of Next", 1)
		arr, ok := isKnown(st, x.field("inArray"))
		if !ok {
			st.Fail(pos, "does not ask whether it is in an array")
			return
		}
		open, close, flag, other := byte('{'), byte('}'), "firstObjectValue", "firstArrayValue"
		if arr {
			open, close, flag, other = '[', ']', other, flag
		}
		_ = other
		first, ok := isKnown(st, x.field(flag))
		if !ok {
			st.Fail(pos, "does not ask whether it is at the first value")
			return
		}
		at := skip(x.field("offset"))
		want, name := open, "the opening bracket"
		if !first {
			want, name = ',', "a comma"
		}
		if failed {
			// where the end may be, it is asked for before giving up
			end := at
			if b, ok := x.byteAt(st, at, want); ok && b {
				end = skip(plus(at, tInt(1)))
			} else if first {
				return
			}
			if in, ok := factOf(st, func(c *Term) bool { return c == canonTerm(tLt(end, tLen(buf))) }); ok && !in {
				return
			}
			// the first byte of what is left
			if in, ok := factOf(st, func(c *Term) bool {
				return c == canonTerm(tLt(tInt(0), tLen(mk("slice", "", buf, end, mk("end", "")))))
			}); ok && !in {
				return
			}
			if b, ok := x.byteAt(st, end, close); (!ok || b) && (first || end == at) {
				st.Fail(pos, "fails without asking for the closing bracket")
			}
			return
		}
		if eof {
			if b, ok := x.byteAt(st, at, close); ok && b && !first {
				return
			}
			if b, ok := x.byteAt(st, at, want); ok && b {
				if b, ok := x.byteAt(st, skip(plus(at, tInt(1))), close); ok && b {
					return
				}
			}
			st.Fail(pos, "the end is not at a closing bracket")
			return
		}
		if got := x.now(st, flag); !isBool(st, got, false) {
			st.Fail(pos, "the next value is taken for the first again")
		}
		if b, ok := x.byteAt(st, at, want); !ok || !b {
			st.Fail(pos, "a value is read without %s before it", name)
			return
		}
		at = skip(plus(at, tInt(1)))
		if arr {
			idx := x.field("arrayIndex")
			if !first {
				idx = plus(idx, tInt(1))
			}
			if got := x.now(st, "arrayIndex"); got != idx {
				st.Fail(pos, "the index of an element is %s", short(got.String()))
			}
		} else {
			n := mk("extract", "0", mk("call", x.pkg+".scanString", canonTerm(mk("slice", "", buf, at, mk("end", "")))))
			q := mk("call", x.pkg+".unquote", mk("slice", "", buf, at, plus(at, n)))
			if got := x.now(st, "name"); got != canonTerm(mk("extract", "0", q)) {
				st.Fail(pos, "the name of a field is %s", short(got.String()))
				return
			}
			if v, ok := known2(st, mk("extract", "1", q)); !ok || !v {
				st.Fail(pos, "the name of a field is used although it can not be unquoted")
			}
			at = skip(plus(at, n))
			if b, ok := x.byteAt(st, at, ':'); !ok || !b {
				st.Fail(pos, "a value is read without a colon before it")
				return
			}
			at = skip(plus(at, tInt(1)))
		}
		start, end := x.now(st, "startValueOffset"), x.now(st, "endValueOffset")
		if start != at {
			st.Fail(pos, "a value starts at %s", short(start.String()))
			return
		}
		if off := x.now(st, "offset"); off != end && off != skip(end) {
			st.Fail(pos, "reading does not go on behind the value but at %s", short(off.String()))
		}
		for _, k := range []struct {
			flag string
			c    byte
		}{{"isValueObject", '{'}, {"isValueArray", '['}} {
			b, ok := x.byteAt(st, at, k.c)
			got := x.now(st, k.flag)
			if !ok {
				st.Fail(pos, "undecided: whether a value starts with %q", k.c)
			} else if !isBool(st, got, b) {
				st.Fail(pos, "%s is %s for a value that starts with %q: %v", k.flag, short(got.String()), k.c, b)
			}
		}
		x.jsonExtent(st, pos, at, end)
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
	s.Run(f, []*Term{self}, func(st *State) {
		st.mem[tFA(tFA(self, x.state), "isLeaf")] = tBool(false)
	})
	r.Sim(fname(f), s)
	for g := range found {
		x.scanner(r, g)
	}
}

// known2 is known, comparing in one form.
func known2(st *State, t *Term) (v, ok bool) {
	t = canonTerm(t)
	learned(st, func(c *Term, taken bool) {
		if canonTerm(c) == t {
			v, ok = taken, true
		}
	})
	return
}

// jsonExtent checks where a value ends.
func (x *parserImpl) jsonExtent(st *State, pos tokenPos, at, end *Term) {
	buf := x.buffer()
	rest := canonTerm(mk("slice", "", buf, at, mk("end", "")))
	is := func(c byte) bool {
		b, ok := x.byteAt(st, at, c)
		return b && ok
	}
	var want []*Term
	switch {
	case is('"'):
		want = []*Term{plus(at, mk("extract", "0", mk("call", x.pkg+".scanString", rest)))}
	case is('{'), is('['):
		// the function that finds the matching bracket
		ok := false
		d := sumTerm(mk("bin", "-", end, plus(at, tInt(1))))
		if d.Op == "extract" && d.Name == "0" && d.Args[0].Op == "call" && len(d.Args[0].Args) > 0 && d.Args[0].Args[0] == rest {
			ok = true
			cs := []int64{'{', '}'}
			if is('[') {
				cs = []int64{'[', ']'}
			}
			args := d.Args[0].Args[1:]
			for i, a := range args {
				if n, isC := intOf(a); !isC || i >= 2 || n != cs[i] {
					ok = false
				}
			}
			neg := false
			learned(st, func(c *Term, taken bool) {
				c = canonTerm(c)
				if c.Op == "bin" && c.Name == "<" && c.Args[0] == d && c.Args[1] == tInt(0) && !taken {
					neg = true
				}
			})
			if !neg {
				st.Fail(pos, "does not ask whether the bracket is ever closed")
			}
		}
		if !ok {
			st.Fail(pos, "undecided: where a value with brackets ends: %s", short(d.String()))
		}
		return
	case is('t'), is('n'):
		want = []*Term{plus(at, tInt(4))}
	case is('f'):
		want = []*Term{plus(at, tInt(5))}
	default:
		return // a number, see the scanner
	}
	for _, w := range want {
		if end == w {
			return
		}
		// what is scanned is never longer than what there is
		if less, ok := factOf(st, func(c *Term) bool { return c == canonTerm(tLt(w, tLen(buf))) }); ok && !less && end == tLen(buf) {
			return
		}
	}
	st.Fail(pos, "a value ends at %s", short(end.String()))
}

// reflectNext checks how the parser gets from one field to the next.
func (x *parserImpl) reflectNext(r *Report) {
	f := x.fn("Next")
	x.need("parent", "typ", "value", "field", "maxField", "isLeaf", "isArray")
	kinds := x.reflectKinds()
	s := x.sim()
	base := s.Classify
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == f {
			st.Data["again"] = x.now(st, "field")
			c.Result = sym("next")
			return Pure
		}
		return base(st, c)
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		r.Count("paths of Next", 1)
		i, max := x.field("field"), x.field("maxField")
		more, ok := isKnown(st, tLt(i, max))
		if !ok {
			st.Fail(pos, "does not ask whether there are more fields")
			return
		}
		eof := rets[0].Op == "gval" && rets[0].Name == "io.EOF"
		if eof == more {
			st.Fail(pos, "Next returns %s although there being more is %v", short(rets[0].String()), more)
			return
		}
		if eof {
			return
		}
		if got := x.now(st, "field"); got != plus(i, tInt(1)) {
			st.Fail(pos, "Next goes from field i to %s", short(got.String()))
			return
		}
		leaf, ok1 := isKnown(st, x.field("isLeaf"))
		arr, ok2 := isKnown(st, x.field("isArray"))
		plain := ok1 && leaf || ok2 && arr
		again := st.Data["again"] != nil
		val := canonTerm(mk("call", "(reflect.Value).Field", x.field("parent"), i))
		if plain {
			if again || rets[0] != tNil || x.now(st, "value") != x.field("value") {
				st.Fail(pos, "Next in a list or at a leaf looks for a field")
			}
			return
		}
		if !ok1 || !ok2 {
			st.Fail(pos, "does not ask whether it is at a field")
			return
		}
		if got := x.now(st, "value"); !sameCall(got, val) {
			st.Fail(pos, "the value of field i is %s", short(got.String()))
		}
		if got, want := x.now(st, "typ"), mk("call", "Field", mk("call", "Type", x.field("parent")), i); !sameCall(got, want) {
			st.Fail(pos, "the type of field i is %s", short(got.String()))
		}
		// nil pointers and slices are skipped
		null, nullable, not := false, false, map[int64]bool{}
		learned(st, func(c *Term, taken bool) {
			c = canonTerm(c)
			if v, ok := reflectCall(c, "IsNil"); ok && sameCall(v, val) {
				null = taken
			}
			if c.Op == "bin" && c.Name == "==" {
				for j := 0; j < 2; j++ {
					if v, ok := reflectCall(c.Args[j], "Kind"); ok && sameCall(v, val) {
						if n, ok := intOf(c.Args[1-j]); ok && taken && (n == kinds["Ptr"] || n == kinds["Slice"]) {
							nullable = true
						} else if ok && !taken {
							not[n] = true
						}
					}
				}
			}
		})
		switch {
		case null && !again:
			st.Fail(pos, "a nil field is not skipped")
		case !null && again:
			st.Fail(pos, "a field that is not nil is skipped")
		case again && rets[0] != sym("next"):
			st.Fail(pos, "the field after a nil field is not asked for")
		case again && st.Data["again"] != plus(i, tInt(1)):
			st.Fail(pos, "after a nil field Next goes on with %s", short(st.Data["again"].String()))
		case !null && !nullable && !(not[kinds["Ptr"]] && not[kinds["Slice"]]):
			st.Fail(pos, "does not ask whether a field is nil")
		}
	}
	s.Run(f, []*Term{self}, nil)
	r.Sim(fname(f), s)
}
