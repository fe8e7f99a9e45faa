package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The encoder of Go structures.

const (
	kindPtr    = 22
	kindSlice  = 23
	kindStruct = 25
)

func rtype(v *Term) *Term {
	if v.Op == "call" {
		switch v.Name {
		case "reflect.Zero", "reflect.MakeSlice":
			return v.Args[0]
		case "reflect.Append":
			return rtype(v.Args[0])
		case "reflect.New":
			return mk("tptr", "", v.Args[0])
		case "(reflect.Value).Elem":
			return telem(rtype(v.Args[0]))
		case "(reflect.Value).Addr":
			return mk("tptr", "", rtype(v.Args[0]))
		}
	}
	return mk("rtype", "", v)
}

func telem(t *Term) *Term {
	if t.Op == "tptr" {
		return t.Args[0]
	}
	return mk("telem", "", t)
}

func tkind(t *Term) *Term {
	if t.Op == "tptr" {
		return tInt(kindPtr)
	}
	return mk("tkind", "", t)
}

// isOfKind tells whether a type is known to be, or not to be, of a kind.
func (t *transcoder) isOfKind(st *State, typ *Term, kind int64) (bool, bool) {
	k := tkind(typ)
	if n, ok := intOf(k); ok {
		return n == kind, true
	}
	for _, other := range []int64{kindPtr, kindSlice, kindStruct} {
		if v, ok := st.Fact(tEq(k, tInt(other))); ok && v {
			return other == kind, true
		} else if ok && other == kind {
			return false, true
		}
	}
	return false, false
}

func (t *transcoder) reflectCalls(st *State, k *Call) bool {
	if k.Method != nil && k.Method.Pkg() != nil && k.Method.Pkg().Path() == "reflect" {
		switch k.Method.Name() {
		case "Kind":
			k.Result = tkind(k.Recv)
		case "Elem":
			k.Result = telem(k.Recv)
		default:
			k.Result = mk("call", "Type."+k.Method.Name(), append([]*Term{k.Recv}, k.Args...)...)
		}
		return true
	}
	if k.Callee == nil {
		return false
	}
	switch fname(k.Callee) {
	case "(reflect.Value).Kind":
		k.Result = tkind(rtype(k.Args[0]))
	case "(reflect.Value).Type":
		k.Result = rtype(k.Args[0])
	case "reflect.TypeOf":
		k.Result = mk("rtype", "", mk("call", "reflect.ValueOf", k.Args[0]))
	case "reflect.Append":
		k.Result = mk("call", "reflect.Append", k.Args[0], mk("list", "", t.elems(st, k.Args[1])...))
	case "reflect.Indirect":
		if ptr, known := t.isOfKind(st, rtype(k.Args[0]), kindPtr); known && !ptr {
			k.Result = k.Args[0]
		} else if known {
			k.Result = mk("call", "(reflect.Value).Elem", k.Args[0])
		} else {
			st.Fail(k.Instr.Pos(), "undecided: whether a value is a pointer")
		}
	default:
		return false
	}
	return true
}

// elems are the reflected values of a list; a value that was copied field by field is put together again.
func (t *transcoder) elems(st *State, l *Term) []*Term {
	l = st.snapshot(l)
	if l.Op != "list" {
		return []*Term{l}
	}
	var es []*Term
	for _, e := range l.Args {
		e = st.Resolve(e)
		if e.Op == "new" && len(e.Args) > 0 && e.Args[0].Args[0].Op == "field" {
			whole := e.Args[0].Args[0].Args[0]
			for _, kv := range e.Args {
				if kv.Args[0] != tField(whole, kv.Name) {
					whole = e
				}
			}
			e = whole
		}
		es = append(es, e)
	}
	return es
}

func (t *transcoder) reflect() {
	es := t.encoder("encode/reflect", 1)
	var nl, nv *ssa.Function
	for _, f := range t.p.funcsIn("encode/reflect") {
		if f.Signature.Results().Len() != 2 || t.parserParam(f) < 0 {
			continue
		}
		list := false
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil && (fname(g) == "reflect.Append" || fname(g) == "reflect.MakeSlice") {
				list = true
			}
		}
		if list {
			nl = f
		} else {
			nv = f
		}
	}
	if nl == nil || nv == nil {
		failAnchor("no function that decodes a list, or a value, in encode/reflect")
	}
	t.peek = true
	for _, f := range []*ssa.Function{es, nl, nv} {
		t.reflected(f, es, nl, nv)
	}
	t.peek = false
}

func (t *transcoder) reflected(f, es, nl, nv *ssa.Function) {
	what := fname(f)
	s := &Sim{P: t.p, Unroll: true, NoHavoc: true}
	out := func(st *State, x *Term) {
		st.Data["out"] = tAppend(st.Data["out"], mk("list", "", mk("did", "", tInt(int64(node(st))), x)))
	}
	s.Classify = func(st *State, k *Call) Action {
		pos := k.Instr.Pos()
		if k.Method != nil && k.Recv == sym("p") {
			if !t.parser(st, k, k.Method.Name()) {
				st.Fail(pos, "undecided: it asks the parser for %s", k.Method.Name())
			}
			return Pure
		}
		if t.reflectCalls(st, k) {
			return Pure
		}
		i := node(st)
		switch {
		case k.Callee == nil:
			return Pure
		case k.Callee == es || k.Callee == nl || k.Callee == nv:
			if leaf, known := st.Fact(t.at("inleaf", i)); st.Mon != "down" || k.Callee == es && known && leaf {
				st.Fail(pos, "it encodes what is below at the wrong place (%s)", st.Mon)
			}
			st.Mon = "encoded"
			if k.Callee == es {
				k.Result = t.at("suberr", i)
				out(st, mk("sub", "", t.other(k)))
				return Pure
			}
			op := "list of"
			if k.Callee == nv {
				op = "value of"
			}
			k.Result = mk("tuple", "", mk(op, "", tInt(int64(i)), t.other(k)), t.at("suberr", i))
			return Pure
		case fname(k.Callee) == "(reflect.Value).Set":
			out(st, mk("set", "", k.Args[0], k.Args[1]))
			return Pure
		case inRepo(k.Callee) && k.Callee.Blocks != nil:
			return Inline
		case strings.HasPrefix(fname(k.Callee), "(reflect.Value).Set"):
			st.Fail(pos, "undecided: %s", fname(k.Callee))
		}
		return Pure
	}
	v := sym("into")
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "it panics") }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if t.impossible(st) {
			return
		}
		t.r.Count("paths of the encoder of structures", 1)
		e := rets[len(rets)-1]
		nl2, known := st.IsNil(e)
		if !known {
			st.Fail(pos, "undecided: whether it fails")
			return
		}
		i := node(st)
		if !nl2 {
			if m := t.cause(st, f, es, nv, v); m != "" {
				st.Fail(pos, "%s", m)
			}
			return
		}
		for j := 0; j <= i && j < t.n; j++ {
			if t.broken(st, j) || t.bad(st, t.at("suberr", j)) {
				st.Fail(pos, "an error is lost")
				return
			}
		}
		if f == nv {
			t.value(st, pos, v, rets[0])
			return
		}
		if !t.ended(st, i) {
			st.Fail(pos, "it stops before the end of the document")
			return
		}
		if f == es {
			t.structure(st, pos, v)
			return
		}
		t.list(st, pos, v, rets[0])
	}
	var args []*Term
	for i := range f.Params {
		if i == t.parserParam(f) {
			args = append(args, sym("p"))
		} else {
			args = append(args, v)
		}
	}
	s.Run(f, args, func(st *State) {
		st.Mon = "new"
		st.Data["node"] = tInt(0)
		st.Data["out"] = mk("list", "")
	})
	t.r.Sim(what, s)
}

// other is the argument that is not the parser.
func (t *transcoder) other(k *Call) *Term {
	for i, a := range k.Args {
		if i != t.parserParam(k.Callee) {
			return a
		}
	}
	return tNil
}

// cause says what is wrong with failing.
func (t *transcoder) cause(st *State, f, es, nv *ssa.Function, v *Term) string {
	i := node(st)
	if i < t.n && (t.broken(st, i) || t.bad(st, t.at("suberr", i))) {
		return ""
	}
	leaf, known := st.Fact(t.at("leaf", i))
	switch {
	case f == nv:
		if known && !leaf {
			return ""
		}
		for _, k := range leafKinds {
			for a, val := range st.facts {
				if !val && a.Op == "call" && a.Name == "Type.AssignableTo" && a.Args[1] == v && a.any(func(y *Term) bool { return y == t.at(k, 0) }) {
					return ""
				}
			}
		}
	case known && leaf:
		return ""
	case f == es:
		if t.bad(st, t.at("Stringerr", i)) {
			return ""
		}
		typ := rtype(v)
		if ptr, ok := t.isOfKind(st, typ, kindPtr); ok && ptr {
			typ = telem(typ)
		}
		if is, ok := t.isOfKind(st, typ, kindStruct); ok && !is && st.Mon == "new" {
			return ""
		}
	default:
		if t.bad(st, t.at("Interr", i)) {
			return ""
		}
	}
	return "a document that fits is an error"
}

// value: the value of a leaf, if the type can hold it; nothing is the zero value.
func (t *transcoder) value(st *State, pos tokenPos, typ, got *Term) {
	zero := mk("call", "reflect.Zero", typ)
	if t.ended(st, 0) && !t.ok(st, t.at("next", 0)) {
		if got != zero {
			st.Fail(pos, "no value is decoded as %s and not the zero value of the type, which cannot be set", clip(got.String()))
		}
		return
	}
	if leaf, known := st.Fact(t.at("leaf", 0)); !known || !leaf {
		st.Fail(pos, "something else than a leaf is decoded as a value")
		return
	}
	kind := ""
	if got != zero {
		for _, k := range leafKinds {
			if got.Op == "call" && got.Name == "reflect.ValueOf" && unbox(got.Args[0]) == t.at(k, 0) {
				kind = k
			}
		}
		if kind == "" {
			st.Fail(pos, "a value is decoded as %s", clip(got.String()))
			return
		}
		if !t.yes(st, mk("call", "Type.AssignableTo", rtype(got), typ)) {
			st.Fail(pos, "a value is set on a field of another type, which panics")
			return
		}
	}
	t.r.Count("values", 1)
	if m := t.reads(st, 0, kind); m != "" {
		st.Fail(pos, "%s", strings.Replace(m, "written", "decoded", -1))
	}
}

// kindOf tells what a field or element is decoded as: "struct", "*struct", "slice", "value"; "" is undecided.
func (t *transcoder) kindOf(st *State, typ *Term) string {
	ptr, k1 := t.isOfKind(st, typ, kindPtr)
	if k1 && ptr {
		s, k := t.isOfKind(st, telem(typ), kindStruct)
		switch {
		case !k:
			return ""
		case s:
			return "*struct"
		}
		return "value"
	}
	s, k2 := t.isOfKind(st, typ, kindStruct)
	if k2 && s {
		return "struct"
	}
	l, k3 := t.isOfKind(st, typ, kindSlice)
	if k3 && l {
		return "slice"
	}
	if k1 && k2 && k3 {
		return "value"
	}
	return ""
}

// structure: every node is what its field is set to.
func (t *transcoder) structure(st *State, pos tokenPos, v *Term) {
	base := v
	if ptr, known := t.isOfKind(st, rtype(v), kindPtr); !known {
		st.Fail(pos, "undecided: whether it is given a pointer")
		return
	} else if ptr {
		base = mk("call", "(reflect.Value).Elem", v)
	}
	if is, known := t.isOfKind(st, rtype(base), kindStruct); !known || !is {
		st.Fail(pos, "something else than a structure is taken for one")
		return
	}
	for j := 0; j < node(st); j++ {
		var did []string
		for _, x := range st.Data["out"].Args {
			if n, _ := intOf(x.Args[0]); int(n) == j {
				did = append(did, x.Args[1].String())
			}
		}
		field := mk("call", "(reflect.Value).FieldByName", base, t.at("String", j))
		can, known := st.Fact(mk("call", "(reflect.Value).CanSet", field))
		if valid, k := st.Fact(mk("call", "(reflect.Value).IsValid", field)); k && !valid {
			can, known = false, true
		}
		if !known {
			st.Fail(pos, "a field is set that may not exist or cannot be set, which panics")
			return
		}
		var want []string
		if can {
			T := rtype(field)
			kind := t.kindOf(st, T)
			switch kind {
			case "":
				st.Fail(pos, "undecided: the kind of a field; values of kinds that are not told apart would panic")
				return
			case "struct", "*struct":
				in, known := st.Fact(t.at("inleaf", j))
				if known && in {
					break
				}
				if kind == "*struct" {
					want = append(want, mk("set", "", field, mk("call", "reflect.New", telem(T))).String())
				}
				want = append(want, mk("sub", "", field).String())
			case "slice":
				want = append(want, mk("set", "", field, mk("list of", "", tInt(int64(j)), T)).String())
			case "value":
				want = append(want, mk("set", "", field, mk("value of", "", tInt(int64(j)), T)).String())
			}
			t.r.Count("fields that are set", 1)
		}
		if fmt.Sprint(did) != fmt.Sprint(want) {
			st.Fail(pos, "node %d of %d: it does %s and not %s", j, node(st), clip(fmt.Sprint(did)), clip(fmt.Sprint(want)))
			return
		}
	}
}

// list: every node is one element, in order.
func (t *transcoder) list(st *State, pos tokenPos, typ, got *Term) {
	n := node(st)
	var elems []*Term
	l := got
	for l.Op == "call" && l.Name == "reflect.Append" {
		elems = append(append([]*Term{}, l.Args[1].Args...), elems...)
		l = l.Args[0]
	}
	if z, ok := intOf(tIndexOr(l, 1)); !(l.Op == "call" && l.Name == "reflect.MakeSlice" && l.Args[0] == typ && ok && z == 0) && l != mk("call", "reflect.Zero", typ) {
		st.Fail(pos, "a list starts as %s", clip(l.String()))
		return
	}
	if len(elems) != n {
		st.Fail(pos, "%d elements are decoded as %d", n, len(elems))
		return
	}
	T := telem(typ)
	for j, e := range elems {
		var did []string
		for _, x := range st.Data["out"].Args {
			if k, _ := intOf(x.Args[0]); int(k) == j {
				did = append(did, x.Args[1].String())
			}
		}
		var want *Term
		var does []string
		kind := t.kindOf(st, T)
		switch kind {
		case "":
			st.Fail(pos, "undecided: the kind of an element; values of kinds that are not told apart would panic")
			return
		case "struct", "*struct":
			if in, known := st.Fact(t.at("inleaf", j)); known && in {
				want = mk("call", "reflect.Zero", T)
				break
			}
			of := T
			if kind == "*struct" {
				of = telem(T)
			}
			fresh := mk("call", "reflect.New", of)
			elem := mk("call", "(reflect.Value).Elem", fresh)
			want = elem
			if kind == "*struct" {
				want = mk("call", "(reflect.Value).Addr", elem)
				if e == fresh {
					want = fresh
				}
			}
			does = append(does, mk("sub", "", elem).String())
			if len(did) == 1 && kind == "*struct" && did[0] == mk("sub", "", fresh).String() {
				does[0] = did[0]
			}
		case "slice":
			want = mk("list of", "", tInt(int64(j)), T)
		case "value":
			want = mk("value of", "", tInt(int64(j)), T)
		}
		t.r.Count("elements of lists", 1)
		if e != want || fmt.Sprint(did) != fmt.Sprint(does) {
			st.Fail(pos, "element %d of %d is decoded as %s and not %s", j, n, clip(e.String()), clip(want.String()))
			return
		}
	}
}

func tIndexOr(x *Term, i int) *Term {
	if i < len(x.Args) {
		return x.Args[i]
	}
	return tNil
}
