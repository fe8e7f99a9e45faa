package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", "other", transcodeRule) }

// transcoder simulates encoders that walk a document with a parser: the nodes of
// one level of the document are unknown, as is what the deeper levels are encoded as.
type transcoder struct {
	p    *Prog
	r    *Report
	n    int  // nodes of a level
	peek bool // it may be asked whether what is below is a leaf before going on
}

var leafKinds = []string{"Int", "Uint", "Double", "Bool", "String", "Bytes"}

func (t *transcoder) at(what string, i int) *Term { return sym(fmt.Sprintf("%s%d", what, i)) }

// node is the number of times Next was called before the last time.
func node(st *State) int {
	n, _ := intOf(st.Data["node"])
	return int(n)
}

func (t *transcoder) yes(st *State, x *Term) bool { v, ok := st.Fact(x); return ok && v }

// ok and bad tell whether an error is known to be nil, or not to be.
func (t *transcoder) ok(st *State, e *Term) bool  { n, k := st.IsNil(e); return k && n }
func (t *transcoder) bad(st *State, e *Term) bool { n, k := st.IsNil(e); return k && !n }

// ended tells whether Next number i is known to have found the end.
func (t *transcoder) ended(st *State, i int) bool {
	return i == t.n || t.yes(st, tEq(t.at("next", i), mk("gval", "io.EOF")))
}

// broken tells whether Next number i is known to have failed.
func (t *transcoder) broken(st *State, i int) bool {
	if i == t.n || !t.bad(st, t.at("next", i)) {
		return false
	}
	v, ok := st.Fact(tEq(t.at("next", i), mk("gval", "io.EOF")))
	return ok && !v
}

// impossible paths found the end without an error.
func (t *transcoder) impossible(st *State) bool {
	for i := 0; i < t.n; i++ {
		if t.yes(st, tEq(t.at("next", i), mk("gval", "io.EOF"))) && t.ok(st, t.at("next", i)) {
			return true
		}
	}
	return false
}

// parser is what a call of the parser does; it must be one balanced walk.
func (t *transcoder) parser(st *State, k *Call, m string) bool {
	i := node(st)
	pos := k.Instr.Pos()
	switch m {
	case "Next":
		switch st.Mon {
		case "new":
			st.Data["node"] = tInt(0)
		case "node":
			if !t.ok(st, t.at("next", i)) {
				st.Fail(pos, "it goes on after the parser failed or ended")
				return true
			}
			if i == t.n {
				st.Fail(pos, "it goes on after the end")
				return true
			}
			st.Data["node"] = tInt(int64(i + 1))
		default:
			st.Fail(pos, "it goes to the next node at the wrong place (%s)", st.Mon)
			return true
		}
		st.Mon = "node"
		if i = node(st); i == t.n {
			k.Result = mk("gval", "io.EOF")
		} else {
			k.Result = t.at("next", i)
		}
	case "IsLeaf":
		k.Result = t.at("leaf", i)
		if t.peek && st.Mon == "down" {
			k.Result = t.at("inleaf", i)
			return true
		}
		if st.Mon != "node" {
			st.Fail(pos, "it asks for a leaf at the wrong place (%s)", st.Mon)
		}
	case "Down":
		if leaf, known := st.Fact(t.at("leaf", i)); st.Mon != "node" || !t.ok(st, t.at("next", i)) || !known || leaf {
			st.Fail(pos, "it goes down where there is nothing below")
		}
		st.Mon = "down"
	case "Up":
		if t.peek && st.Mon == "down" && t.yes(st, t.at("inleaf", i)) {
		} else if st.Mon != "encoded" || !t.ok(st, t.at("suberr", i)) {
			st.Fail(pos, "it goes up at the wrong place (%s)", st.Mon)
		}
		st.Mon = "node"
	default:
		for _, kind := range leafKinds {
			if kind == m {
				if st.Mon != "node" || !t.ok(st, t.at("next", i)) {
					st.Fail(pos, "it reads a value at the wrong place (%s)", st.Mon)
				}
				k.Result = mk("tuple", "", t.at(kind, i), t.at(kind+"err", i))
				return true
			}
		}
		return false
	}
	return true
}

// reads tells whether a value of the kind is what the node is to be written as:
// no kind that says more was, or could have been, read.
func (t *transcoder) reads(st *State, i int, kind string) string {
	if kind != "" && !t.ok(st, t.at(kind+"err", i)) {
		return "a value is written that could not be read"
	}
	for _, k := range leafKinds {
		if k == kind {
			break
		}
		if k == "Int" && kind == "Uint" {
			continue
		}
		if !t.bad(st, t.at(k+"err", i)) {
			if kind == "" {
				return "nothing is written for a value that could be read as " + k
			}
			return fmt.Sprintf("a value that could be read as %s is written as %s", k, kind)
		}
	}
	return ""
}

// failed tells whether something the path asked for failed.
func (t *transcoder) failed(st *State, names bool) bool {
	for i := 0; i <= node(st) && i < t.n; i++ {
		if t.broken(st, i) || t.bad(st, t.at("suberr", i)) || names && t.bad(st, t.at("Stringerr", i)) {
			return true
		}
		for j := 0; j < 2; j++ {
			if t.bad(st, t.at("tokerr", 2*i+j)) {
				return true
			}
		}
	}
	return false
}

// encoder is the first function that Encode reaches that can reach itself and
// is given the parser.
func (t *transcoder) encoder(pkg string, results int) *ssa.Function {
	callees := func(f *ssa.Function) []*ssa.Function {
		var cs []*ssa.Function
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil && inRepo(g) && g.Blocks != nil {
				cs = append(cs, g)
			}
		}
		return cs
	}
	reaches := func(f *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		todo := callees(f)
		for len(todo) > 0 {
			g := todo[0]
			todo = todo[1:]
			if g == f {
				return true
			}
			if !seen[g] {
				seen[g] = true
				todo = append(todo, callees(g)...)
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	todo := []*ssa.Function{t.p.Func(pkg, "Encode")}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if reaches(f) && f.Signature.Results().Len() == results && t.parserParam(f) >= 0 {
			return f
		}
		todo = append(todo, callees(f)...)
	}
	failAnchor("no recursive encoder in %s", pkg)
	return nil
}

func (t *transcoder) parserParam(f *ssa.Function) int {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if nm := named2(f.Signature.Params().At(i).Type()); nm != nil && nm.Obj().Name() == "Interface" && strings.HasSuffix(nm.Obj().Pkg().Path(), "/parser") {
			return i
		}
	}
	return -1
}

func (t *transcoder) args(f *ssa.Function) []*Term {
	var as []*Term
	for i := range f.Params {
		if i == t.parserParam(f) {
			as = append(as, sym("p"))
		} else {
			as = append(as, sym(f.Params[i].Name()))
		}
	}
	return as
}

// narrows are the types that cannot hold every number of a document.
var narrows = map[string]bool{"int8": true, "int16": true, "int32": true, "uint8": true, "byte": true, "rune": true, "uint16": true, "uint32": true, "float32": true, "int": true, "uint": true, "int64": true, "uint64": true, "float64": true}

func unbox(v *Term) *Term {
	for v != nil && (v.Op == "iface" || v.Op == "as" || v.Op == "conv") && len(v.Args) == 1 {
		if v.Op == "conv" && narrows[v.Name] {
			break
		}
		v = v.Args[0]
	}
	return v
}

// base64Of is the value that is written as base64, if it is.
func base64Of(v *Term) *Term {
	if v.Op == "call" && v.Name == "(*encoding/base64.Encoding).EncodeToString" && len(v.Args) == 2 && v.Args[0] == mk("gval", "encoding/base64.StdEncoding") {
		return unbox(v.Args[1])
	}
	return nil
}

func (t *transcoder) json() {
	f := t.encoder("encode/json", 2)
	what := fname(f)
	s := &Sim{P: t.p, Unroll: true, NoHavoc: true, Maps: true}
	s.Classify = func(st *State, k *Call) Action {
		if k.Method != nil && k.Recv == sym("p") {
			if !t.parser(st, k, k.Method.Name()) {
				st.Fail(k.Instr.Pos(), "undecided: it asks the parser for %s", k.Method.Name())
			}
			return Pure
		}
		if k.Callee == f {
			i := node(st)
			if st.Mon != "down" || k.Args[t.parserParam(f)] != sym("p") {
				st.Fail(k.Instr.Pos(), "it encodes what is below at the wrong place (%s)", st.Mon)
			}
			st.Mon = "encoded"
			k.Result = mk("tuple", "", t.at("sub", i), t.at("suberr", i))
			return Pure
		}
		if k.Callee != nil && inRepo(k.Callee) && k.Callee.Blocks != nil {
			return Inline
		}
		return Pure
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if t.impossible(st) {
			return
		}
		t.r.Count("paths of the json encoder", 1)
		nl, known := st.IsNil(rets[1])
		if !known {
			st.Fail(pos, "undecided: whether it fails")
			return
		}
		if !nl {
			if !t.failed(st, true) {
				st.Fail(pos, "a document that can be read is an error")
			}
			return
		}
		for i := 0; i <= node(st); i++ {
			if i < t.n && (t.broken(st, i) || t.bad(st, t.at("suberr", i))) {
				st.Fail(pos, "the parser failed and the encoder does not")
				return
			}
		}
		i := node(st)
		v := unbox(rets[0])
		if !t.ended(st, i) {
			leaf, known := st.Fact(t.at("leaf", i))
			if !known || !leaf {
				st.Fail(pos, "it stops before the end of the document")
				return
			}
			if i > 0 {
				return // a value among fields: not json
			}
			kind := ""
			for _, k := range leafKinds {
				if v == t.at(k, i) || k == "Bytes" && base64Of(v) == t.at(k, i) {
					kind = k
				}
			}
			if kind == "" && v != tNil {
				st.Fail(pos, "a value is written as %s", clip(v.String()))
				return
			}
			t.r.Count("kinds of values", 1)
			if m := t.reads(st, i, kind); m != "" {
				st.Fail(pos, "%s", m)
			}
			return
		}
		var names, elems []int
		for j := 0; j < i; j++ {
			switch {
			case t.ok(st, t.at("Interr", j)):
				elems = append(elems, j)
			case t.ok(st, t.at("Stringerr", j)) && t.bad(st, t.at("Interr", j)):
				names = append(names, j)
			default:
				st.Fail(pos, "undecided: whether node %d is a field or an element", j)
				return
			}
		}
		switch {
		case len(names) > 0 && len(elems) > 0:
		case len(names) > 0:
			t.r.Count("objects", 1)
			if !isTrackedMap(v) {
				st.Fail(pos, "the fields are written as %s", clip(v.String()))
				return
			}
			entries := map[*Term]*Term{}
			for _, k := range st.mapKeys(v) {
				entries[k] = st.mem[mk("mapaddr", "", v, k)]
			}
			left := len(entries)
			// names that are known to be equal, also through another one
			class := map[int]int{}
			for _, j := range names {
				class[j] = j
			}
			for range names {
				for _, j := range names {
					for _, j2 := range names {
						if t.yes(st, tEq(t.at("String", j), t.at("String", j2))) && class[j2] < class[j] {
							class[j] = class[j2]
						}
					}
				}
			}
			for _, j := range names {
				var same []*Term
				for _, j2 := range names {
					if class[j] == class[j2] {
						same = append(same, t.at("sub", j2))
					}
				}
				found := false
				for k, val := range entries {
					of := false
					for _, j2 := range names {
						of = of || class[j] == class[j2] && k == t.at("String", j2)
					}
					if of {
						for _, w := range same {
							found = found || unbox(val) == w
						}
						if same[0] == t.at("sub", j) {
							left--
						}
					}
				}
				if !found {
					st.Fail(pos, "the value of field %d of %d is not written under its name", j, i)
				}
			}
			if left != 0 {
				st.Fail(pos, "there are fields that the document does not have")
			}
		case len(elems) > 0:
			t.r.Count("lists", 1)
			l := st.snapshot(v)
			ok := l.Op == "list" && len(l.Args) == len(elems)
			for j := range elems {
				ok = ok && unbox(l.Args[j]) == t.at("sub", elems[j])
			}
			if !ok {
				st.Fail(pos, "the %d elements are written as %s", len(elems), clip(l.String()))
			}
		}
	}
	s.Run(f, t.args(f), func(st *State) { st.Mon = "new"; st.Data["node"] = tInt(0) })
	t.r.Sim(what, s)
	t.top("encode/json", f, func(name string) int {
		if name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent" {
			return 0
		}
		return -1
	})
}

// top: the exported function encodes the document and gives the text of that.
func (t *transcoder) top(pkg string, f *ssa.Function, writes func(name string) int) {
	fn := t.p.Func(pkg, "Encode")
	s := &Sim{P: t.p, Unroll: true, NoHavoc: true}
	text, textErr := sym("text"), sym("texterr")
	s.Classify = func(st *State, k *Call) Action {
		if k.Callee == f {
			if st.Mon != "" || k.Args[t.parserParam(f)] != sym("p") {
				st.Fail(k.Instr.Pos(), "it does not encode the document once")
			}
			st.Mon = "encoded"
			k.Result = mk("tuple", "", sym("document"), sym("docerr"))
			return Pure
		}
		if k.Callee == nil {
			return Pure
		}
		if i := writes(fname(k.Callee)); i >= 0 {
			if unbox(k.Args[i]) != sym("document") || !t.ok(st, sym("docerr")) {
				st.Fail(k.Instr.Pos(), "something else than the document is written")
			}
			st.Mon = "written"
			k.Result = mk("tuple", "", text, textErr)
			return Pure
		}
		if inRepo(k.Callee) && k.Callee.Blocks != nil {
			return Inline
		}
		return Pure
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		e := rets[1]
		nl, known := st.IsNil(e)
		switch {
		case t.bad(st, sym("docerr")):
			if !known || nl {
				st.Fail(pos, "the error of the encoder is lost")
			}
		case st.Mon != "written":
			st.Fail(pos, "nothing is written")
		case e == textErr && rets[0] == text:
		case known && nl && t.ok(st, textErr) && rets[0] == text:
		case known && !nl && t.bad(st, textErr):
		default:
			st.Fail(pos, "what was written is not what is returned")
		}
	}
	s.Run(fn, t.args(fn), nil)
	t.r.Sim(fname(fn), s)
}

func (t *transcoder) xml() {
	f := t.encoder("encode/xml", 1)
	what := fname(f)
	s := &Sim{P: t.p, Unroll: true, NoHavoc: true}
	s.Classify = func(st *State, k *Call) Action {
		pos := k.Instr.Pos()
		if k.Method != nil && k.Recv == sym("p") {
			if !t.parser(st, k, k.Method.Name()) {
				st.Fail(pos, "undecided: it asks the parser for %s", k.Method.Name())
			}
			return Pure
		}
		if k.Callee == f {
			i := node(st)
			if st.Mon != "down" {
				st.Fail(pos, "it encodes what is below at the wrong place (%s)", st.Mon)
			}
			st.Mon = "encoded"
			st.Data["out"] = tAppend(st.Data["out"], mk("list", "", t.at("sub", i)))
			k.Result = t.at("suberr", i)
			return Pure
		}
		if k.Callee != nil && fname(k.Callee) == "(*encoding/xml.Encoder).EncodeToken" {
			n := 0
			for _, x := range st.Data["out"].Args {
				if x.Op == "tok" {
					n++
				}
			}
			tok := k.Args[1]
			k.Result = t.at("tokerr", n)
			name := ""
			if tok.Op == "iface" && tok.Typ != nil {
				name = typeKey(tok.Typ)
			}
			st.Data["out"] = tAppend(st.Data["out"], mk("list", "", mk("tok", name, st.Resolve(unbox(tok)), tInt(int64(node(st))), k.Result)))
			return Pure
		}
		if k.Callee != nil && inRepo(k.Callee) && k.Callee.Blocks != nil {
			return Inline
		}
		return Pure
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if t.impossible(st) {
			return
		}
		t.r.Count("paths of the xml encoder", 1)
		nl, known := st.IsNil(rets[0])
		if !known {
			st.Fail(pos, "undecided: whether it fails")
			return
		}
		out := st.Data["out"].Args
		fails := false
		for _, x := range out {
			fails = fails || x.Op == "tok" && t.bad(st, x.Args[2])
		}
		for i := 0; i <= node(st) && i < t.n; i++ {
			fails = fails || t.broken(st, i) || t.bad(st, t.at("suberr", i))
		}
		if fails == nl {
			st.Fail(pos, "an error is lost, or a document that can be read is an error")
			return
		}
		if !nl {
			return
		}
		i := node(st)
		if !t.ended(st, i) {
			st.Fail(pos, "it stops before the end of the document")
			return
		}
		next := func() *Term {
			if len(out) == 0 {
				return mk("none", "")
			}
			x := out[0]
			out = out[1:]
			return x
		}
		for j := 0; j < i; j++ {
			leaf, known := st.Fact(t.at("leaf", j))
			if !known {
				st.Fail(pos, "undecided: whether node %d is a leaf", j)
				return
			}
			x := next()
			if leaf {
				t.r.Count("leaves", 1)
				if x.Op != "tok" || !strings.HasSuffix(x.Name, "CharData") {
					st.Fail(pos, "a leaf is not written as text")
					return
				}
				if m := t.text(st, j, unbox(x.Args[0])); m != "" {
					st.Fail(pos, "leaf %d: %s", j, m)
					return
				}
				continue
			}
			t.r.Count("elements", 1)
			sub, end := next(), next()
			if x.Op != "tok" || !strings.HasSuffix(x.Name, "StartElement") || sub != t.at("sub", j) || end.Op != "tok" || !strings.HasSuffix(end.Name, "EndElement") {
				st.Fail(pos, "an element is not written as its start, what is in it and its end")
				return
			}
			for _, y := range []*Term{x, end} {
				if m := t.text(st, j, t.local(y.Args[0])); m != "" {
					st.Fail(pos, "the name of element %d: %s", j, m)
					return
				}
			}
		}
		if len(out) > 0 {
			st.Fail(pos, "more is written than there is in the document")
		}
	}
	s.Run(f, t.args(f), func(st *State) {
		st.Mon = "new"
		st.Data["node"] = tInt(0)
		st.Data["out"] = mk("list", "")
	})
	t.r.Sim(what, s)
	t.topXML(f)
}

// topXML: the exported function encodes the document with an encoder, flushes it,
// and gives what was written to its buffer.
func (t *transcoder) topXML(f *ssa.Function) {
	fn := t.p.Func("encode/xml", "Encode")
	s := &Sim{P: t.p, Unroll: true, NoHavoc: true}
	var enc *Term
	s.Classify = func(st *State, k *Call) Action {
		pos := k.Instr.Pos()
		if k.Callee == nil {
			return Pure
		}
		switch fname(k.Callee) {
		case "(*encoding/xml.Encoder).Flush":
			if st.Mon != "encoded" || k.Args[0] != enc {
				st.Fail(pos, "the encoder is flushed at the wrong place (%s)", st.Mon)
			}
			st.Mon = "flushed"
			k.Result = sym("flusherr")
			return Pure
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
			if st.Mon != "flushed" || !t.ok(st, sym("flusherr")) {
				st.Fail(pos, "what was written is read before it is flushed")
			}
			return Pure
		}
		if k.Callee == f {
			if st.Mon != "" {
				st.Fail(pos, "it does not encode the document once")
			}
			for i, a := range k.Args {
				if i != t.parserParam(f) {
					enc = a
				} else if a != sym("p") {
					st.Fail(pos, "something else than the document is encoded")
				}
			}
			st.Mon = "encoded"
			k.Result = sym("docerr")
			return Pure
		}
		if inRepo(k.Callee) && k.Callee.Blocks != nil {
			return Inline
		}
		return Pure
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		t.r.Count("paths of encoding", 1)
		nl, known := st.IsNil(rets[1])
		fails := t.bad(st, sym("docerr")) || st.Mon == "flushed" && t.bad(st, sym("flusherr"))
		switch {
		case !known || nl == fails:
			st.Fail(pos, "an error of the encoder is lost, or there is one without cause")
		case !nl:
		case st.Mon != "flushed" || !t.ok(st, sym("docerr")):
			st.Fail(pos, "the encoder is not flushed")
		default:
			b := unbox(rets[0])
			if b.Op != "call" || b.Name != "(*bytes.Buffer).Bytes" && b.Name != "(*bytes.Buffer).String" || len(b.Args) != 1 || enc == nil || enc.Op != "call" || len(enc.Args) != 1 || unbox(enc.Args[0]) != b.Args[0] {
				st.Fail(pos, "what is returned is not what was written: %s", clip(b.String()))
			}
		}
	}
	s.Run(fn, t.args(fn), nil)
	t.r.Sim(fname(fn), s)
}

// local is the local part of the name of an element.
func (t *transcoder) local(x *Term) *Term {
	for _, n := range []string{"Name", "Local"} {
		if x.Op == "new" {
			for _, kv := range x.Args {
				if kv.Name == n {
					x = kv.Args[0]
					break
				}
			}
		} else {
			x = tField(x, n)
		}
	}
	return unbox(x)
}

// text compares a text with the value of a node.
func (t *transcoder) text(st *State, i int, x *Term) string {
	kind := ""
	arg := func(name string, rest ...int64) *Term {
		if x.Op != "call" || x.Name != name || len(x.Args) != len(rest)+1 {
			return nil
		}
		for j, w := range rest {
			if v, ok := intOf(x.Args[j+1]); !ok || v != w && w >= 0 {
				return nil
			}
		}
		return unbox(x.Args[0])
	}
	float := x.Op == "call" && x.Name == "strconv.FormatFloat" && len(x.Args) == 4
	if float {
		verb, ok1 := intOf(x.Args[1])
		prec, ok2 := intOf(x.Args[2])
		bits, ok3 := intOf(x.Args[3])
		float = ok1 && ok2 && ok3 && strings.ContainsRune("eEfgG", rune(verb)) && prec == -1 && bits == 64
	}
	for _, k := range leafKinds {
		v := t.at(k, i)
		is := false
		switch k {
		case "Int":
			is = arg("strconv.FormatInt", 10) == v
		case "Uint":
			is = arg("strconv.FormatUint", 10) == v
		case "Double":
			is = float && unbox(x.Args[0]) == v
		case "Bool":
			is = arg("strconv.FormatBool") == v
		case "String":
			is = x == v
		case "Bytes":
			is = base64Of(x) == v
		}
		if is {
			kind = k
		}
	}
	if kind == "" && x != tNil && x != sym("\"\"") && !isEmptyText(x) {
		return "it is written as " + clip(x.String())
	}
	t.r.Count("texts", 1)
	return t.reads(st, i, kind)
}

func isEmptyText(x *Term) bool {
	return x == zeroOf(types.Typ[types.String]) || x.Op == "const" && x.Name == `""`
}

func transcodeRule(p *Prog, r *Report) {
	t := &transcoder{p: p, r: r, n: 2}
	t.xml()
	t.reflect()
	t.n = 3
	t.json()
	r.Expect("paths of the json encoder", 20)
	r.Expect("objects", 3)
	r.Expect("lists", 2)
	r.Expect("kinds of values", 7)
	r.Expect("elements", 100)
	r.Expect("leaves", 100)
	r.Expect("texts", 300)
	r.Expect("paths of encoding", 3)
}
