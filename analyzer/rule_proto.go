package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "other", protoValueRule)
}

// bitset is the exclusive or of bits of what is decoded (by number, up to 128 of them) and of a constant.
type bitset [3]uint64

func (b bitset) xor(c bitset) bitset { return bitset{b[0] ^ c[0], b[1] ^ c[1], b[2] ^ c[2]} }

func (b bitset) isConst() bool { return b[0] == 0 && b[1] == 0 }

var bitZero, bitOne = bitset{}, bitset{0, 0, 1}

func sourceBit(i int) bitset {
	if i < 64 {
		return bitset{1 << uint(i)}
	}
	return bitset{0, 1 << uint(i-64)}
}

// word is an integer whose bits are known as such sums.
type word struct {
	bits   []bitset
	signed bool
}

func (w word) at(i int) bitset {
	if i < len(w.bits) {
		return w.bits[i]
	}
	if w.signed {
		return w.bits[len(w.bits)-1]
	}
	return bitset{}
}

func (w word) resize(n int, signed bool) word {
	out := word{signed: signed}
	for i := 0; i < n; i++ {
		out.bits = append(out.bits, w.at(i))
	}
	return out
}

func (w word) equal(v word) bool {
	if len(w.bits) != len(v.bits) {
		return false
	}
	for i := range w.bits {
		if w.bits[i] != v.bits[i] {
			return false
		}
	}
	return true
}

var intBits = map[string]struct {
	n      int
	signed bool
}{"int": {64, true}, "int8": {8, true}, "int16": {16, true}, "int32": {32, true}, "int64": {64, true}, "uint": {64, false}, "uint8": {8, false}, "byte": {8, false}, "uint16": {16, false}, "uint32": {32, false}, "uint64": {64, false}, "uintptr": {64, false}}

func source(n int, signed bool) word {
	w := word{signed: signed}
	for i := 0; i < n; i++ {
		w.bits = append(w.bits, sourceBit(i))
	}
	return w
}

// wordOf finds the bits of a term.
func wordOf(t *Term, src func(t *Term) (word, bool)) (word, bool) {
	if w, ok := src(t); ok {
		return w, true
	}
	number := func(n int64, like word) word {
		w := word{signed: like.signed}
		for i := range like.bits {
			w.bits = append(w.bits, bitset{0, 0, uint64(n>>uint(i)) & 1})
		}
		return w
	}
	switch t.Op {
	case "conv":
		to, ok := intBits[t.Name]
		if !ok {
			return word{}, false
		}
		w, ok := wordOf(t.Args[0], src)
		if !ok {
			return word{}, false
		}
		return w.resize(to.n, to.signed), true
	case "un":
		w, ok := wordOf(t.Args[0], src)
		if !ok {
			return word{}, false
		}
		switch t.Name {
		case "^":
			out := word{signed: w.signed}
			for _, b := range w.bits {
				out.bits = append(out.bits, b.xor(bitOne))
			}
			return out, true
		case "-":
			return negWord(w)
		}
	case "bin":
		if t.Name == "<<" || t.Name == ">>" {
			w, ok := wordOf(t.Args[0], src)
			k := t.Args[1]
			for k.Op == "conv" {
				k = k.Args[0]
			}
			n, isC := intOf(k)
			if !ok || !isC {
				return word{}, false
			}
			out := word{signed: w.signed}
			for i := range w.bits {
				if t.Name == ">>" {
					if i+int(n) >= len(w.bits) && !w.signed {
						out.bits = append(out.bits, bitZero)
					} else {
						out.bits = append(out.bits, w.at(i+int(n)))
					}
				} else if i < int(n) {
					out.bits = append(out.bits, bitZero)
				} else {
					out.bits = append(out.bits, w.bits[i-int(n)])
				}
			}
			return out, true
		}
		a, okA := wordOf(t.Args[0], src)
		b, okB := wordOf(t.Args[1], src)
		if n, ok := intOf(t.Args[0]); ok && !okA && okB {
			a, okA = number(n, b), true
		}
		if n, ok := intOf(t.Args[1]); ok && !okB && okA {
			b, okB = number(n, a), true
		}
		if !okA || !okB || len(a.bits) != len(b.bits) {
			return word{}, false
		}
		out := word{signed: a.signed}
		switch t.Name {
		case "-":
			for _, x := range a.bits {
				if x != bitZero {
					return word{}, false
				}
			}
			return negWord(b)
		case "*":
			// times minus one
			for i, c := range [2]word{a, b} {
				all := true
				for _, x := range c.bits {
					all = all && x == bitOne
				}
				if all {
					return negWord([2]word{b, a}[i])
				}
			}
			return word{}, false
		}
		for i := range a.bits {
			x, y, op := a.bits[i], b.bits[i], t.Name
			switch op {
			case "^":
				out.bits = append(out.bits, x.xor(y))
			case "&", "|", "+", "&^":
				if op == "&^" {
					if !y.isConst() {
						return word{}, false
					}
					y, op = y.xor(bitOne), "&"
				}
				if x.isConst() {
					x, y = y, x
				}
				switch {
				case op == "&" && y == bitZero, op == "&" && x == bitZero:
					out.bits = append(out.bits, bitZero)
				case op == "&" && y == bitOne, op != "&" && y == bitZero:
					out.bits = append(out.bits, x)
				case op != "&" && x == bitZero:
					out.bits = append(out.bits, y)
				case op == "|" && y == bitOne:
					out.bits = append(out.bits, y)
				case x == y && op != "+":
					out.bits = append(out.bits, x)
				default:
					return word{}, false
				}
			}
		}
		if len(out.bits) == 0 {
			return word{}, false
		}
		return out, true
	}
	return word{}, false
}

// negWord negates a number that is 0 or 1.
func negWord(w word) (word, bool) {
	for _, b := range w.bits[1:] {
		if b != bitZero {
			return word{}, false
		}
	}
	out := word{signed: w.signed}
	for range w.bits {
		out.bits = append(out.bits, w.bits[0])
	}
	return out, true
}

// protoKind says how a value of a type of field is written.
type protoKind struct {
	wire   string // varint, fixed, bytes
	bits   int    // of the value, or of what is fixed
	signed bool
	zigzag bool
	float  bool
}

// want is the value of an accessor.
func (k protoKind) want() word {
	src := source(64, false)
	if k.wire == "fixed" {
		src = source(k.bits, false)
	}
	v := src.resize(k.bits, k.signed)
	if k.zigzag {
		out := word{signed: true}
		for i := 0; i < k.bits; i++ {
			b := sourceBit(0)
			if i+1 < k.bits {
				b = b.xor(v.bits[i+1])
			}
			out.bits = append(out.bits, b)
		}
		v = out
	}
	return v.resize(64, k.signed)
}

var protoKinds = map[string]map[string]protoKind{
	"Double": {"DOUBLE": {wire: "fixed", bits: 64, float: true}, "FLOAT": {wire: "fixed", bits: 32, float: true}},
	"Int": {
		"INT64": {wire: "varint", bits: 64, signed: true}, "INT32": {wire: "varint", bits: 32, signed: true}, "ENUM": {wire: "varint", bits: 32, signed: true},
		"SINT64": {wire: "varint", bits: 64, signed: true, zigzag: true}, "SINT32": {wire: "varint", bits: 32, signed: true, zigzag: true},
		"SFIXED64": {wire: "fixed", bits: 64, signed: true}, "SFIXED32": {wire: "fixed", bits: 32, signed: true},
	},
	"Uint": {
		"UINT64": {wire: "varint", bits: 64}, "UINT32": {wire: "varint", bits: 32},
		"FIXED64": {wire: "fixed", bits: 64}, "FIXED32": {wire: "fixed", bits: 32},
	},
	"Bool":   {"BOOL": {wire: "bool"}},
	"String": {"STRING": {wire: "bytes"}},
	"Bytes":  {"BYTES": {wire: "bytes"}},
}

// protoValueRule: every type of field is decoded as it is encoded, by the accessor for it and by no other.
func protoValueRule(p *Prog, r *Report) {
	x := parsers(p, "parser/proto")[0]
	x.need("buf", "offset", "length", "field", "isLeaf", "inRepeated", "inPacked", "indexRepeated")
	enum := map[int64]string{}
	var scope *types.Scope
	for _, f := range []string{"field"} {
		u := x.sType.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				if n := named2(u.Field(i).Type()); n != nil {
					scope = n.Obj().Pkg().Scope()
				}
			}
		}
	}
	if scope == nil {
		failAnchor("the descriptor of a field is not found")
	}
	for _, n := range scope.Names() {
		if c, ok := scope.Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "FieldDescriptorProto_TYPE_") {
			v, _ := constant.Int64Val(c.Val())
			enum[v] = strings.TrimPrefix(n, "FieldDescriptorProto_TYPE_")
		}
	}
	if len(enum) < 18 {
		failAnchor("%d types of fields are found", len(enum))
	}
	var names []string
	for n := range protoKinds {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		name := name
		r.guard("parser/proto "+name, func() { x.protoValue(r, name, enum) })
	}
	r.guard("parser/proto keys", func() { protoKeys(p, r) })
	r.guard("parser/proto varint", func() { protoVarint(p, r) })
	r.Expect("types of fields decoded", 16)
	r.Expect("outcomes", 45)
	r.Expect("keys of fields", 3)
	r.Expect("paths of reading numbers", 60)
	r.Explain("Each accessor of the protocol buffer parser is followed from an arbitrary state. For every type of field the value has to be, bit by bit, the one the encoding defines (bits are traced through conversions, shifts, masks and exclusive or), decoded from exactly the bytes of the field, and bytes that are too short or no number have to give an error; every other type gives an error. Where the parser is not at a leaf only the name, number or index is available.")
	r.Assume("encoding/binary decodes what its documentation says; the machine is little endian, as the parser assumes.")
}

func (x *parserImpl) protoValue(r *Report, name string, enum map[int64]string) {
	f := x.fn(name)
	s := x.sim()
	kinds := protoKinds[name]
	val := canonTerm(mk("slice", "", x.field("buf"), x.field("offset"), plus(x.field("offset"), x.field("length"))))
	typ := func(c *Term) bool {
		return methodName(c) == "GetType" && c.Args[0] == x.field("field") || c.Op == "deref" && mentionsField(c, "Type")
	}
	decoded := map[string]bool{}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		r.Count("outcomes", 1)
		v := rets[0]
		isNil, sure := st.IsNil(rets[1])
		fails := sure && !isNil
		if !sure && !(rets[1].Op == "extract" && rets[1].Args[0].Op == "call") {
			st.Fail(pos, "undecided: whether %s fails", name)
			return
		}
		leaf, ok := isKnown(st, x.field("isLeaf"))
		if !ok {
			if !fails {
				st.Fail(pos, "does not ask whether it is at a leaf")
			}
			return
		}
		if !leaf {
			rep, ok1 := isKnown(st, x.field("inRepeated"))
			pack, ok2 := isKnown(st, x.field("inPacked"))
			elem := ok1 && rep || ok2 && pack
			names, okN := isKnown(st, tField(self, "fieldNames"))
			none := !elem && ok1 && ok2
			switch name {
			case "Int":
				if elem && (fails || canonTerm(v) != canonTerm(mk("conv", "int64", plus(x.field("indexRepeated"), tInt(-1)))) && canonTerm(v) != plus(mk("conv", "int64", x.field("indexRepeated")), tInt(-1)) && canonTerm(v) != plus(x.field("indexRepeated"), tInt(-1))) {
					st.Fail(pos, "the index of an element is %s", short(v.String()))
				} else if !elem && (!none || !fails) {
					st.Fail(pos, "does not ask whether it is in a list")
				}
				return
			case "String":
				if !fails && (elem || !none) {
					st.Fail(pos, "an element of a list has a name")
				} else if !fails && (!okN || !names || methodName(v) != "GetName" || v.Args[0] != x.field("field")) {
					st.Fail(pos, "the name of a field is %s", short(v.String()))
				} else if fails && !elem && !(okN && !names) {
					st.Fail(pos, "a field has no name")
				}
				return
			case "Uint":
				if okN && !names {
					if src := noConv(v); !fails && (methodName(src) != "GetNumber" || src.Args[0] != x.field("field")) {
						st.Fail(pos, "the number of a field is %s", short(v.String()))
					}
					return
				}
			}
			if !fails {
				st.Fail(pos, "there is a value (%s) where there is none of this kind", short(v.String()))
			}
			return
		}
		// which type of field it is
		got, not := "", map[string]bool{}
		learned(st, func(c *Term, taken bool) {
			if c.Op != "bin" || c.Name != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				n, isC := intOf(c.Args[1-i])
				if !isC || !typ(noConv(c.Args[i])) {
					continue
				}
				if taken {
					got = enum[n]
				} else {
					not[enum[n]] = true
				}
			}
		})
		k, mine := kinds[got]
		if !mine {
			if !fails {
				st.Fail(pos, "a field of type %q has the value %s", got, short(v.String()))
				return
			}
			if got == "" {
				for t := range kinds {
					if !not[t] {
						st.Fail(pos, "fails without asking whether the field is a %s", t)
					}
				}
			}
			return
		}
		good, why := protoDecoded(st, k, v, val, fails)
		if !good {
			st.Fail(pos, "a field of type %s: %s", got, why)
			return
		}
		if !fails {
			decoded[got] = true
		}
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
	s.Run(f, []*Term{self}, nil)
	r.Sim(fname(f), s)
	var ts []string
	for t := range kinds {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		if decoded[t] {
			r.Count("types of fields decoded", 1)
		} else if len(s.Errs) == 0 {
			r.Fail(fname(f), x.p.posOf(f.Pos()), "%s has no value for a field of type %s", name, t)
		}
	}
}

func noConv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// firstByte: a pointer that was made of the address of the first byte of a value.
func firstByte(t, val *Term) bool {
	t = canonTerm(noConv(t))
	if t.Op != "ia" && t.Op != "index" {
		return false
	}
	at := plus(t.Args[1], tInt(0))
	return t.Args[0] == val && at == tInt(0) || t.Args[0] == val.Args[0] && at == canonTerm(val.Args[1])
}

// protoDecoded says whether a value is decoded as its type demands.
func protoDecoded(st *State, k protoKind, v, val *Term, fails bool) (bool, string) {
	size := tLen(val)
	switch k.wire {
	case "bytes":
		if fails {
			return false, "it has no value"
		}
		// strings may share the bytes
		if b := noConv(v); canonTerm(b) == val {
			return true, ""
		}
		if sharesBytes(st, v, val) {
			return true, ""
		}
		return false, "its value is " + short(v.String())
	case "varint", "bool":
		// the number of bytes that were read
		isN := func(t *Term) (*Term, bool) {
			t = noConv(t)
			if t.Op == "extract" && t.Args[0].Op == "call" && len(t.Args[0].Args) == 1 && canonTerm(t.Args[0].Args[0]) == val && (t.Args[0].Name == "encoding/binary.Uvarint" || t.Args[0].Name == "parser/proto.uvarint") {
				return t, true
			}
			return nil, false
		}
		bad, known := false, false
		learned(st, func(c *Term, taken bool) {
			for i, a := range c.Args {
				n, ok := isN(a)
				if !ok {
					continue
				}
				switch {
				case n.Name == "1" && strings.HasPrefix(n.Args[0].Name, "encoding") && c.Name == "<":
					k, isC := intOf(c.Args[1-i])
					if isC && i == 0 && k == 1 { // n < 1
						bad, known = taken, true
					} else if isC && i == 1 && k == 0 { // 0 < n
						bad, known = !taken, true
					}
				case n.Name == "2" && c.Name == "==" && c.Args[1-i] == tNil:
					bad, known = !taken, true
				}
			}
		})
		if !known {
			return false, "does not ask whether a number could be read"
		}
		if bad != fails {
			return false, fmt.Sprintf("fails: %v, although the bytes are no number: %v", fails, bad)
		}
		if fails {
			return true, ""
		}
		src := func(t *Term) (word, bool) {
			if n, ok := isN(t); ok && t == n && n.Name == "0" {
				return source(64, false), true
			}
			return word{}, false
		}
		if k.wire == "bool" {
			c, neg := v, false
			for c.Op == "un" && c.Name == "!" {
				c, neg = c.Args[0], !neg
			}
			if c.Op == "bin" {
				for i := range c.Args {
					w, ok := wordOf(c.Args[i], src)
					if n, isC := intOf(c.Args[1-i]); ok && isC && n == 0 && w.equal(source(64, false)) {
						if c.Name == "==" && neg || c.Name == "<" && i == 1 && !neg {
							return true, ""
						}
					}
				}
			}
			if c.isConst() {
				// decided on the path
				if is, ok := equalToRaw(st, func(t *Term) bool { w, ok := wordOf(t, src); return ok && w.equal(source(64, false)) }); ok && c == tBool(!is) {
					return true, ""
				}
			}
			return false, "its value is " + short(v.String())
		}
		w, ok := wordOf(v, src)
		if !ok {
			return false, "undecided: its value is " + short(v.String())
		}
		if w = w.resize(64, w.signed); !w.equal(k.want()) {
			return false, "its value is " + short(v.String())
		}
		return true, ""
	case "fixed":
		bytes := int64(k.bits / 8)
		short_, known := false, false
		learned(st, func(c *Term, taken bool) {
			c = canonTerm(c)
			if c.Op != "bin" {
				return
			}
			for i := range c.Args {
				n, isC := intOf(c.Args[1-i])
				if !isC || !lengthTerm(c.Args[i], val, size) {
					continue
				}
				switch {
				case c.Name == "<" && i == 0 && n == bytes: // len < n
					short_, known = taken, true
				case c.Name == "<" && i == 1 && n == bytes-1:
					short_, known = !taken, true
				case c.Name == "==" && n == bytes:
					short_, known = !taken, true
				}
			}
		})
		if k.float && !fails {
			// the wire type of a field is that of its type, so a value of the other length is of the other type
			if is, ok := equalTo(st, size, 12-bytes); ok && is {
				return true, ""
			}
		}
		if !known {
			return false, fmt.Sprintf("does not ask whether there are %d bytes", bytes)
		}
		if short_ != fails {
			return false, fmt.Sprintf("fails: %v, although there are too few bytes: %v", fails, short_)
		}
		if fails {
			return true, ""
		}
		if k.float {
			t := v
			if k.bits == 32 {
				if t.Op != "conv" || t.Name != "float64" {
					return false, "its value is " + short(v.String())
				}
				t = t.Args[0]
			}
			if b, ok := loaded(t, val); ok && b == fmt.Sprintf("float%d", k.bits) {
				return true, ""
			}
			if t.Op == "call" && t.Name == fmt.Sprintf("math.Float%dfrombits", k.bits) {
				w, ok := wordOf(t.Args[0], fixedSource(val))
				if ok && w.equal(source(k.bits, false)) {
					return true, ""
				}
			}
			return false, "its value is " + short(v.String())
		}
		w, ok := wordOf(v, fixedSource(val))
		if !ok {
			return false, "undecided: its value is " + short(v.String())
		}
		if w = w.resize(64, w.signed); !w.equal(k.want()) {
			return false, "its value is " + short(v.String())
		}
		return true, ""
	}
	return false, "undecided"
}

func lengthTerm(t, val, size *Term) bool {
	return t == canonTerm(size) || t == canonTerm(tLen(val))
}

// equalToRaw is whether a term that matches is known to be zero.
func equalToRaw(st *State, match func(t *Term) bool) (v, ok bool) {
	learned(st, func(c *Term, taken bool) {
		if c.Op == "bin" && c.Name == "==" {
			for i := range c.Args {
				if n, isC := intOf(c.Args[1-i]); isC && n == 0 && match(c.Args[i]) {
					v, ok = taken, true
				}
			}
		}
	})
	return
}

// loaded is the type that is read at the first byte of a value.
func loaded(t, val *Term) (string, bool) {
	if t.Op != "deref" && t.Op != "load" {
		return "", false
	}
	c := t.Args[0]
	if c.Op != "conv" || !firstByte(c, val) {
		return "", false
	}
	return strings.TrimPrefix(c.Name, "*"), true
}

func fixedSource(val *Term) func(t *Term) (word, bool) {
	return func(t *Term) (word, bool) {
		if n, ok := loaded(t, val); ok {
			if k, ok := intBits[n]; ok {
				return source(k.n, k.signed), true
			}
		}
		if t.Op == "call" && strings.HasPrefix(t.Name, "(encoding/binary.littleEndian).Uint") && canonTerm(t.Args[len(t.Args)-1]) == val {
			if k, ok := intBits[strings.ToLower(methodName(t))]; ok {
				return source(k.n, false), true
			}
		}
		return word{}, false
	}
}

// sharesBytes: a string that is made of the pointer and the length of a value.
func sharesBytes(st *State, v, val *Term) bool {
	if v.Op != "deref" && v.Op != "load" {
		return false
	}
	hdr := noConv(v.Args[0])
	if hdr.Op != "alloc" {
		return false
	}
	for _, part := range []string{"Data", "Len"} {
		t := st.mem[tFA(hdr, part)]
		if t == nil {
			return false
		}
		if part == "Len" && canonTerm(t) == canonTerm(tLen(val)) {
			continue
		}
		var base *Term
		t.any(func(u *Term) bool {
			if u.Op == "alloc" {
				base = u
			}
			return false
		})
		if (t.Op != "field" || t.Name != part) && !(t.Op == "deref" && t.Args[0].Op == "fa" && t.Args[0].Name == part) || base == nil || st.mem[base] == nil || canonTerm(st.mem[base]) != val {
			return false
		}
	}
	return true
}

// protoKeys: the key of a field is its number and the wire type of its type, and that of packed lists where they are possible.
func protoKeys(p *Prog, r *Report) {
	var fs []*ssa.Function
	for _, g := range p.funcsIn("parser/proto") {
		sig := g.Signature
		if sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 && sig.Results().At(0).Type().String() == "[]uint64" {
			fs = append(fs, g)
		}
	}
	f := outermost(fs, "makes the keys of a field")
	field := sym("field")
	src := func(t *Term) (word, bool) {
		if t.Op == "call" && len(t.Args) == 1 && t.Args[0] == field {
			switch methodName(t) {
			case "GetNumber":
				return source(32, true), true
			case "WireType":
				w := word{signed: true}
				for i := 0; i < 64; i++ {
					if i < 3 {
						w.bits = append(w.bits, sourceBit(40+i))
					} else {
						w.bits = append(w.bits, bitZero)
					}
				}
				return w, true
			}
		}
		return word{}, false
	}
	key := func(wire [3]bitset) word {
		w := word{}
		for i := 0; i < 64; i++ {
			switch {
			case i < 3:
				w.bits = append(w.bits, wire[i])
			case i < 32:
				w.bits = append(w.bits, sourceBit(i-3))
			default:
				w.bits = append(w.bits, bitZero)
			}
		}
		return w
	}
	normal, packed := key([3]bitset{sourceBit(40), sourceBit(41), sourceBit(42)}), key([3]bitset{bitZero, bitOne, bitZero})
	s := &Sim{P: p, NoHavoc: true}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && inRepo(c.Callee) {
			return Inline
		}
		return Pure
	}
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		st.Data["branch:"+cond.String()+fmt.Sprint(taken)] = mk("branch", fmt.Sprint(taken), cond)
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		l := st.snapshot(rets[0])
		if l.Op != "list" {
			st.Fail(pos, "undecided: the keys are %s", short(l.String()))
			return
		}
		is := func(name string) (bool, bool) {
			return factOf(st, func(c *Term) bool { return methodName(c) == name && c.Args[0] == field })
		}
		rep, ok1 := is("IsRepeated")
		sc, ok2 := is("IsScalar")
		want := []word{normal}
		switch {
		case ok1 && ok2 && rep && sc:
			want = append(want, packed)
		case ok1 && !rep, ok2 && !sc:
		default:
			st.Fail(pos, "does not ask whether a list may be packed")
			return
		}
		r.Count("keys of fields", len(l.Args))
		for _, w := range want {
			found := false
			for _, t := range l.Args {
				got, ok := wordOf(t, src)
				if !ok {
					st.Fail(pos, "undecided: a key is %s", short(t.String()))
					return
				}
				found = found || got.resize(64, false).equal(w)
			}
			if !found {
				st.Fail(pos, "a key of a field is missing: %s", short(l.String()))
			}
		}
		if len(l.Args) != len(want) {
			st.Fail(pos, "a field has %d keys instead of %d", len(l.Args), len(want))
		}
	}
	s.Run(f, []*Term{field}, nil)
	r.Sim(fname(f), s)
}

// isUvarint tells whether a function reads a number of a variable length.
func isUvarint(f *ssa.Function) bool {
	sig := f.Signature
	return sig.Recv() == nil && relPkgOf(f) == "parser/proto" && sig.Params().Len() == 1 && sig.Results().Len() == 3 &&
		sig.Params().At(0).Type().String() == "[]byte" && sig.Results().At(0).Type().String() == "uint64" && sig.Results().At(1).Type().String() == "int"
}

func uvarintOf(p *Prog) *ssa.Function {
	var fs []*ssa.Function
	for _, f := range p.funcsIn("parser/proto") {
		if isUvarint(f) {
			fs = append(fs, f)
		}
	}
	return outermost(fs, "reads numbers of a variable length")
}

// outermost is the one of some functions that none of the others calls.
func outermost(fs []*ssa.Function, what string) *ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range fs {
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != f && g != nil {
				called[g] = true
			}
		}
	}
	var found *ssa.Function
	for _, f := range fs {
		if called[f] {
			continue
		}
		if found != nil {
			failAnchor("more than one function %s", what)
		}
		found = f
	}
	if found == nil {
		failAnchor("no function %s", what)
	}
	return found
}

// protoVarint: the function that reads numbers of a variable length.
func protoVarint(p *Prog, r *Report) {
	f := uvarintOf(p)
	for n := 0; n <= 11; n++ {
		n := n
		var bs []*Term
		for i := 0; i < n; i++ {
			bs = append(bs, sym(fmt.Sprintf("byte:%d", i)))
		}
		s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxState: 60000}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee != nil && inRepo(c.Callee) {
				for _, t := range c.Args {
					if len(c.Args) == 1 && t.Op == "list" && c.Callee.Signature.Results().Len() == 1 && c.Callee.Signature.Results().At(0).Type().String() == "error" {
						c.Result = mk("call", "errors.New", t)
						return Pure
					}
				}
				return Inline
			}
			return Pure
		}
		s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			r.Count("paths of reading numbers", 1)
			isNil, ok := st.IsNil(rets[2])
			if !ok {
				st.Fail(pos, "undecided: whether a number is read")
				return
			}
			last := -1
			for i := 0; i < n && i <= 9; i++ {
				end, ok := st.Fact(tLt(bs[i], tInt(0x80)))
				if !ok {
					if isNil {
						st.Fail(pos, "does not ask where the number ends")
					}
					break
				}
				if end {
					last = i
					break
				}
			}
			good := last >= 0
			if last == 9 {
				more, ok := st.Fact(tLt(tInt(1), bs[9]))
				if !ok {
					st.Fail(pos, "does not ask whether a number of ten bytes is too large")
					return
				}
				good = !more
			}
			if good != isNil {
				st.Fail(pos, "%d bytes give a number: %v, with the last one at %d", n, isNil, last)
				return
			}
			if !good {
				return
			}
			if rets[1] != tInt(int64(last+1)) {
				st.Fail(pos, "a number of %d bytes is said to have %s", last+1, short(rets[1].String()))
			}
			got, ok := wordOf(rets[0], func(t *Term) (word, bool) {
				for i, b := range bs {
					if t != b {
						continue
					}
					w := word{}
					for j := 0; j < 8; j++ {
						bit := sourceBit(8*i + j)
						if i == last && (j == 7 || last == 9 && j > 0) {
							bit = bitZero // known on this path
						}
						w.bits = append(w.bits, bit)
					}
					return w, true
				}
				return word{}, false
			})
			want := word{}
			for j := 0; j < 64; j++ {
				if j/7 <= last {
					want.bits = append(want.bits, sourceBit(8*(j/7)+j%7))
				} else {
					want.bits = append(want.bits, bitZero)
				}
			}
			if !ok {
				st.Fail(pos, "undecided: a number is %s", short(rets[0].String()))
			} else if !got.resize(64, false).equal(want) {
				st.Fail(pos, "a number of %d bytes is %s", last+1, short(rets[0].String()))
			}
		}
		s.Run(f, []*Term{mk("list", "", bs...)}, nil)
		r.Sim(fname(f), s)
	}
}
