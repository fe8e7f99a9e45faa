package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C22", "other", encodeProtoRule) }

// lin is a sum of terms.
type lin struct {
	c int64
	m map[*Term]int64
}

func linear(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		if n, ok := intOf(t); ok {
			l.c += k * n
			return
		}
		if t.Op == "bin" && len(t.Args) == 2 {
			switch t.Name {
			case "+":
				add(t.Args[0], k)
				add(t.Args[1], k)
				return
			case "-":
				add(t.Args[0], k)
				add(t.Args[1], -k)
				return
			case "*":
				for i := 0; i < 2; i++ {
					if n, ok := intOf(t.Args[i]); ok {
						add(t.Args[1-i], k*n)
						return
					}
				}
			}
		}
		if t.Op == "conv" && (t.Name == "int" || t.Name == "int64") {
			add(t.Args[0], k)
			return
		}
		l.m[t] += k
		if l.m[t] == 0 {
			delete(l.m, t)
		}
	}
	add(t, 1)
	return l
}

func (l lin) minus(o lin) lin {
	out := lin{c: l.c - o.c, m: map[*Term]int64{}}
	for t, k := range l.m {
		out.m[t] = k
	}
	for t, k := range o.m {
		if out.m[t] -= k; out.m[t] == 0 {
			delete(out.m, t)
		}
	}
	return out
}

// number: the sum is a number.
func (l lin) number() (int64, bool) { return l.c, len(l.m) == 0 }

// nonNeg: no part of the sum is negative, given that no term is.
func (l lin) nonNeg() bool {
	if l.c < 0 {
		return false
	}
	for _, k := range l.m {
		if k < 0 {
			return false
		}
	}
	return true
}

// fits: what is known implies off + n <= len(buf), given off <= len(orig).
func fits(st *State, buf, orig *Term, off, n lin) bool {
	size := linear(tLen(buf))
	if buf.Op == "makeslice" {
		size = linear(buf.Args[0])
	}
	want := size.minus(off).minus(n)
	ok := func(l lin) bool {
		if l.nonNeg() {
			return true
		}
		// len(orig) is off and something
		if k := l.m[tLen(orig)]; k > 0 {
			d := sym("something")
			m := lin{c: l.c + k*off.c, m: map[*Term]int64{}}
			for t, c := range l.m {
				if t != tLen(orig) {
					m.m[t] += c
				}
			}
			for t, c := range off.m {
				m.m[t] += k * c
			}
			m.m[d] += k
			for t, c := range m.m {
				if c == 0 {
					delete(m.m, t)
				}
			}
			return m.nonNeg()
		}
		return false
	}
	if ok(want) {
		return true
	}
	for f, v := range st.facts {
		if f.Op != "bin" || f.Name != "<" {
			continue
		}
		a, b := linear(f.Args[0]), linear(f.Args[1])
		g := a.minus(b)
		if v {
			g = b.minus(a)
			g.c--
		}
		if ok(want.minus(g)) {
			return true
		}
	}
	return false
}

// zeroFrom: a condition says whether the bits of x from one on are all zero.
func zeroFrom(f *Term, src func(t *Term) (word, bool)) (from int, whenTrue, ok bool) {
	if f.Op != "bin" || len(f.Args) != 2 {
		return 0, false, false
	}
	var w *Term
	j := 0
	pow := func(n int64) int {
		for i := 0; i < 62; i++ {
			if n == 1<<uint(i) {
				return i
			}
		}
		return -1
	}
	a, b := f.Args[0], f.Args[1]
	switch f.Name {
	case "<":
		if n, isC := intOf(b); isC && pow(n) >= 0 {
			w, j, whenTrue = a, pow(n), true
		} else if n, isC := intOf(a); isC && pow(n+1) >= 0 {
			w, j, whenTrue = b, pow(n+1), false
		}
	case "==":
		if n, isC := intOf(b); isC && n == 0 {
			w, whenTrue = a, true
		} else if n, isC := intOf(a); isC && n == 0 {
			w, whenTrue = b, true
		}
	}
	if w == nil {
		return 0, false, false
	}
	bits, good := wordOf(w, src)
	if !good || bits.signed {
		return 0, false, false
	}
	from = -1
	for ; j < len(bits.bits); j++ {
		bit := bits.bits[j]
		if bit == bitZero {
			continue
		}
		k := -1
		for i := 0; i < 64; i++ {
			if bit == sourceBit(i) {
				k = i
			}
		}
		if k < 0 {
			return 0, false, false
		}
		if from < 0 {
			from = k
		} else if bit != sourceBit(from+1) && k <= from {
			return 0, false, false
		}
	}
	if from < 0 {
		from = 64
	}
	return from, whenTrue, true
}

// bufWriter finds out what a function that writes something behind what is in a buffer writes.
func bufWriter(p *Prog, r *Report, f *ssa.Function) (string, *Sim) {
	buf, off, x := sym("buf"), sym("off"), sym("x")
	xt := f.Signature.Params().At(2).Type().Underlying()
	width := 64
	cand := map[string]bool{}
	switch t := xt.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.Uint64:
			cand["varint"], cand["fixed64"] = true, true
		case t.Kind() == types.Uint32:
			cand["fixed32"] = true
			width = 32
		case t.Info()&types.IsString != 0:
			cand["bytes"] = true
		}
	case *types.Slice:
		cand["bytes"] = true
	}
	if len(cand) == 0 {
		return "", nil
	}
	src := func(t *Term) (word, bool) {
		if t == x {
			return source(width, false), true
		}
		return word{}, false
	}
	s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxTurns: 12, MaxState: 20000}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && inRepo(c.Callee) {
			return Inline
		}
		if c.Callee != nil && c.Callee.Pkg != nil && c.Callee.Pkg.Pkg.Path() == "encoding/binary" && strings.Contains(fname(c.Callee), "ittleEndian") && strings.HasPrefix(c.Callee.Name(), "PutUint") {
			n := map[string]int64{"PutUint64": 8, "PutUint32": 4}[c.Callee.Name()]
			v := c.Args[len(c.Args)-1]
			for i := int64(0); i < n; i++ {
				a := mk("ia", "", c.Args[len(c.Args)-2], tInt(i))
				s.OnStore(st, a, v, nil)
				st.mem[a] = mk("conv", "uint8", mk("bin", ">>", v, tInt(8*i)))
			}
		}
		return Pure
	}
	s.Decide = func(t *Term) (bool, bool) {
		if k, whenTrue, ok := zeroFrom(t, src); ok && k >= width {
			return whenTrue, true
		}
		return false, false
	}
	s.OnStore = func(st *State, addr, val *Term, _ ssa.Instruction) {
		base := rootOf(addr)
		if addr.Op == "copyaddr" {
			if d := addr.Args[0]; d.Op == "makeslice" && (val == buf || val.Op == "slice" && val.Args[0] == buf && val.Args[2] == off) {
				if st.Data["wrote"] != nil {
					st.Fail(f.Pos(), "copies over what is written")
				}
				return
			}
		}
		if base.Op != "alloc" {
			st.Data["wrote"] = tBool(true)
		}
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics") }
	paths := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		paths++
		res := rets[0]
		if res != buf {
			from := st.mem[mk("copyof", "", res)]
			if res.Op != "makeslice" || from == nil || !(from == buf || from.Op == "slice" && from.Args[0] == buf && from.Args[2] == off) {
				st.Fail(pos, "the buffer becomes %s", short(res.String()))
				return
			}
		}
		n := linear(rets[1]).minus(linear(off))
		// what is written
		bytes := map[int64]*Term{}
		var copied, copyRes *Term
		for a, v := range st.mem {
			switch a.Op {
			case "ia":
				base, lo := a.Args[0], linear(a.Args[1])
				for base.Op == "slice" {
					lo2 := linear(base.Args[1])
					for t, k := range lo2.m {
						if lo.m[t] += k; lo.m[t] == 0 {
							delete(lo.m, t)
						}
					}
					lo.c += lo2.c
					base = base.Args[0]
				}
				if base != res {
					if base == buf {
						st.Fail(pos, "writes to a buffer that is left behind")
						return
					}
					continue
				}
				i, ok := lo.minus(linear(off)).number()
				if !ok || i < 0 {
					st.Fail(pos, "writes at %s", short(a.Args[1].String()))
					return
				}
				bytes[i] = v
			case "copyof":
				if d := a.Args[0]; d.Op == "slice" && d.Args[0] == res {
					if k, ok := linear(d.Args[1]).minus(linear(off)).number(); !ok || k != 0 || copied != nil {
						st.Fail(pos, "copies to %s", short(d.String()))
						return
					}
					copied = v
				} else if d != res {
					st.Fail(pos, "copies to %s", short(d.String()))
					return
				}
			}
		}
		for t := range n.m {
			if t.Op == "res" && strings.HasPrefix(t.Name, "copy@") {
				copyRes = t
			}
		}
		num, isNum := n.number()
		good := func(kind string) bool {
			switch kind {
			case "bytes":
				want := linear(tLen(x))
				d := n.minus(want)
				if copyRes != nil {
					d = n.minus(linear(copyRes))
				}
				k, ok := d.number()
				if copied != nil {
					copied = unconv(copied)
				}
				return ok && k == 0 && copied == x && len(bytes) == 0 && fits(st, res, buf, linear(off), want)
			case "fixed64", "fixed32":
				if copied != nil || !isNum || num != int64(width/8) || int64(len(bytes)) != num || !fits(st, res, buf, linear(off), n) {
					return false
				}
				for i := int64(0); i < num; i++ {
					w, ok := wordOf(bytes[i], src)
					if !ok {
						return false
					}
					want := word{}
					for j := 0; j < 8; j++ {
						want.bits = append(want.bits, sourceBit(int(8*i)+j))
					}
					if !w.resize(8, false).equal(want) {
						return false
					}
				}
				return true
			case "varint":
				if copied != nil || !isNum || num < 1 || num > 10 || int64(len(bytes)) != num || !fits(st, res, buf, linear(off), n) {
					return false
				}
				zero, notZero := 64, -1
				for fct, v := range st.facts {
					k, whenTrue, ok := zeroFrom(fct, src)
					if !ok {
						continue
					}
					if v == whenTrue {
						zero = min(zero, k)
					} else {
						notZero = max(notZero, k)
					}
				}
				if zero > 7*int(num) || num > 1 && notZero < 7*int(num-1) {
					return false
				}
				for i := int64(0); i < num; i++ {
					w, ok := wordOf(bytes[i], func(t *Term) (word, bool) {
						w, ok := src(t)
						for j := range w.bits {
							if j >= zero {
								w.bits[j] = bitZero
							}
						}
						return w, ok
					})
					if !ok {
						return false
					}
					want := word{}
					for j := 0; j < 7; j++ {
						if k := int(7*i) + j; k < zero {
							want.bits = append(want.bits, sourceBit(k))
						} else {
							want.bits = append(want.bits, bitZero)
						}
					}
					if i < num-1 {
						want.bits = append(want.bits, bitOne)
					} else {
						want.bits = append(want.bits, bitZero)
					}
					if !w.resize(8, false).equal(want) {
						return false
					}
				}
				return true
			}
			return false
		}
		for k := range cand {
			if !good(k) {
				delete(cand, k)
			}
		}
	}
	s.Run(f, []*Term{buf, off, x}, nil)
	if s.abort || len(s.Errs) > 0 || paths == 0 || len(cand) != 1 {
		return "", s
	}
	for k := range cand {
		r.Count("paths of writing", paths)
		return k, s
	}
	return "", s
}

type protoEnc struct {
	p       *Prog
	r       *Report
	writers map[*ssa.Function]string
	iface   *types.Interface // what encodes a field
	msg     *types.Named     // what encodes the fields of a message
}

func sameParams(f *ssa.Function, n int) bool {
	sig := f.Signature
	if sig.Recv() != nil || sig.Params().Len() != n || sig.Results().Len() != 2 {
		return false
	}
	isBuf := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), types.Typ[types.Byte])
	}
	isInt := func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int]) }
	return isBuf(sig.Params().At(0).Type()) && isInt(sig.Params().At(1).Type()) && isBuf(sig.Results().At(0).Type()) && isInt(sig.Results().At(1).Type())
}

func encodeProtoRule(p *Prog, r *Report) {
	const pkg = "encode/proto"
	e := &protoEnc{p: p, r: r, writers: map[*ssa.Function]string{}}
	for _, f := range p.funcsIn(pkg) {
		if sameParams(f, 3) && f.Blocks != nil {
			if k, s := bufWriter(p, r, f); k != "" {
				e.writers[f] = k
				r.Count("writers", 1)
				r.Sample("%s writes a %s", fname(f), k)
			} else if s != nil {
				for _, er := range s.Errs {
					r.Sample("%s: %s", fname(f), er.Msg)
				}
			}
		}
	}
	// the encoder of a message has a map of the encoders of its fields
	for _, n := range p.namedTypes() {
		if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/"+pkg {
			continue
		}
		u, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			m, ok := u.Field(i).Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			if it, ok := m.Elem().Underlying().(*types.Interface); ok && it.NumMethods() == 1 {
				e.iface, e.msg = it, n
			}
		}
	}
	if e.iface == nil {
		failAnchor("the encoder of messages is not found")
	}
	// what makes the encoder of a field
	isFieldDesc := func(t types.Type) bool {
		n := named2(t)
		return n != nil && n.Obj().Name() == "FieldDescriptorProto"
	}
	var makers []*ssa.Function
	for _, f := range p.funcsIn(pkg) {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || f.Blocks == nil {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		if _, ok := rt.Underlying().(*types.Interface); !ok || !types.Identical(rt.Underlying(), e.iface) {
			continue
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isFieldDesc(f.Signature.Params().At(i).Type()) {
				makers = append(makers, f)
				break
			}
		}
	}
	var tops []*ssa.Function
	for _, f := range makers {
		for _, g := range p.funcsIn(pkg) {
			if !reachesMsg(p, e, g) {
				continue
			}
			for _, c := range callsIn(g) {
				if c.Common().StaticCallee() == f {
					tops = append(tops, f)
				}
			}
		}
	}
	if len(tops) != 1 {
		failAnchor("%d functions make the encoder of a field", len(tops))
	}
	maker := tops[0]
	scope := types.NewScope(nil, 0, 0, "")
	for i := 0; i < maker.Signature.Params().Len(); i++ {
		if t := maker.Signature.Params().At(i).Type(); isFieldDesc(t) {
			scope = named2(t).Obj().Pkg().Scope()
		}
	}
	for _, n := range scope.Names() {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "FieldDescriptorProto_TYPE_") {
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		name := strings.TrimPrefix(n, "FieldDescriptorProto_TYPE_")
		if name == "GROUP" {
			continue
		}
		for _, rep := range []bool{false, true} {
			rep := rep
			r.guard("encode/proto "+name, func() { e.field(maker, name, v, rep) })
		}
	}
	r.guard("encode/proto message", func() { e.loop(p.methodOf(e.msg, e.iface.Method(0).Name()), true, nil) })
	r.guard("encode/proto fields of a message", func() { e.newMsg(maker) })
	r.guard("encode/proto Encode", func() { e.top() })
	r.Expect("writers", 4)
	r.Expect("paths of writing", 20)
	r.Expect("types of fields encoded", 17)
	r.Expect("types of repeated fields encoded", 17)
	r.Expect("paths of encoding fields", 80)
	r.Expect("paths of encoding lists of fields", 10)
	r.Explain("Every function that writes behind what is in a buffer is followed for a value with symbolic bits: the bytes it writes are, bit by bit, those of the encoding, they fit, and what was in the buffer is kept. The encoder that is made for each type of field, singular and repeated, is followed on an arbitrary document: it writes the key of the field and the value as that type is encoded, once, and nothing if there is no value. The loops over the fields of a message and the elements of a list have as invariant that the buffer is what the fields so far were encoded to.")
	r.Assume("GetKey of the descriptor is the key of a field, of at most five bytes, with the wire type of its type.")
}

// reachesMsg: a function makes the encoder of a message.
func reachesMsg(p *Prog, e *protoEnc, f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if n := named2(f.Signature.Results().At(i).Type()); n != nil && n == e.msg {
			return true
		}
	}
	return false
}

// parserCall: a method of the parser.
func parserCall(c *Call) string {
	if c.Method == nil {
		return ""
	}
	switch n := c.Method.Name(); n {
	case "Next", "Down", "Up", "IsLeaf", "Double", "Int", "Uint", "Bool", "String", "Bytes":
		return n
	}
	return ""
}

// sameBuf: a buffer has what another one has in it.
func sameBuf(st *State, t, cur *Term) bool {
	for i := 0; i < 5 && t != nil; i++ {
		if t == cur {
			return true
		}
		if t.Op != "makeslice" {
			return false
		}
		t = st.mem[mk("copyof", "", t)]
	}
	return false
}

// field: the encoder made for a type of field.
func (e *protoEnc) field(maker *ssa.Function, name string, typ int64, repeated bool) {
	fd := sym("field")
	what := "a field of type " + name
	if repeated {
		what = "a repeated field of type " + name
	}
	s := &Sim{P: e.p, NoHavoc: true, MaxDepth: 12, Unroll: true}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == nil {
			return Pure
		}
		if len(c.Args) > 0 && c.Args[0] == fd && !inRepo(c.Callee) {
			switch c.Callee.Name() {
			case "GetType":
				c.Result = tInt(typ)
			case "IsRepeated":
				c.Result = tBool(repeated)
			case "GetLabel":
				l := int64(1)
				if repeated {
					l = 3
				}
				c.Result = tInt(l)
			}
			return Pure
		}
		if reachesMsg(e.p, e, c.Callee) || !inRepo(c.Callee) {
			return Pure
		}
		return Inline
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "%s: panics", what) }
	var args []*Term
	for i := 0; i < maker.Signature.Params().Len(); i++ {
		if n := named2(maker.Signature.Params().At(i).Type()); n != nil && n.Obj().Name() == "FieldDescriptorProto" {
			args = append(args, fd)
		} else {
			args = append(args, sym(maker.Params[i].Name()))
		}
	}
	type made struct {
		t   *Term
		mem map[*Term]*Term
		pos tokenPos
	}
	var out []made
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		out = append(out, made{rets[0], copyTT(st.mem), pos})
	}
	s.Run(maker, args, nil)
	e.r.Sim(fname(maker)+" "+what, s)
	if len(s.Errs) > 0 || s.abort {
		return
	}
	if len(out) != 1 || out[0].t.Op != "iface" || out[0].t.Typ == nil {
		e.r.Fail(fname(maker)+" "+what, e.p.posOf(maker.Pos()), "undecided: which encoder is made for %s", what)
		return
	}
	m := out[0]
	enc := e.iface.Method(0).Name()
	if repeated {
		// the encoder of the elements
		f := e.p.method(m.t.Typ, enc)
		if f == nil || !hasLoop(f) {
			e.r.Fail(fname(maker)+" "+what, e.p.posOf(maker.Pos()), "%s is encoded as a singular one", what)
			return
		}
		var elem *Term
		for a, v := range m.mem {
			if a.Op == "fa" && a.Args[0] == m.t.Args[0] && v.Op == "iface" && v.Typ != nil {
				elem = v
			}
		}
		if elem == nil {
			e.r.Fail(fname(maker)+" "+what, e.p.posOf(maker.Pos()), "undecided: what encodes the elements of %s", what)
			return
		}
		e.loop(f, false, func(st *State) *Term {
			for k, v := range m.mem {
				st.mem[k] = v
			}
			return m.t.Args[0]
		}, elem)
		m.t = elem
	}
	f := e.p.method(m.t.Typ, enc)
	if f == nil {
		e.r.Fail(fname(maker)+" "+what, e.p.posOf(maker.Pos()), "undecided: how %s is encoded", what)
		return
	}
	if e.single(f, name, what, fd, m.t.Args[0], m.mem) {
		if repeated {
			e.r.Count("types of repeated fields encoded", 1)
		} else {
			e.r.Count("types of fields encoded", 1)
		}
	}
}

// kinds of values: the accessor, and how it is written.
var protoWrites = map[string][2]string{
	"DOUBLE": {"Double", "fixed64"}, "FLOAT": {"Double", "fixed32"},
	"INT64": {"Int", "varint"}, "INT32": {"Int", "varint"}, "ENUM": {"Int", "varint"},
	"UINT64": {"Uint", "varint"}, "UINT32": {"Uint", "varint"},
	"FIXED64": {"Uint", "fixed64"}, "FIXED32": {"Uint", "fixed32"},
	"SFIXED64": {"Int", "fixed64"}, "SFIXED32": {"Int", "fixed32"},
	"SINT64": {"Int", "varint"}, "SINT32": {"Int", "varint"},
	"BOOL": {"Bool", "varint"}, "STRING": {"String", "bytes"}, "BYTES": {"Bytes", "bytes"}, "MESSAGE": {"", "message"},
}

func (e *protoEnc) single(f *ssa.Function, name, what string, fd, recv *Term, mem map[*Term]*Term) bool {
	buf, off := sym("buf"), sym("off")
	next, leaf := sym("next"), sym("leaf")
	s := &Sim{P: e.p, NoHavoc: true, MaxDepth: 12}
	s.Classify = func(st *State, c *Call) Action {
		if parserCall(c) != "" {
			return Event
		}
		if c.Callee != nil {
			if e.writers[c.Callee] != "" || e.isMsgEncode(c.Callee) {
				return Event
			}
			if inRepo(c.Callee) {
				return Inline
			}
		}
		return Pure
	}
	mbuf, moff, merr := sym("mbuf"), sym("moff"), sym("merr")
	s.OnEvent = func(st *State, c *Call) {
		pos := c.Instr.Pos()
		switch m := parserCall(c); m {
		case "":
		case "Next":
			if st.Data["next"] != nil {
				st.Fail(pos, "%s: more than one value is read", what)
			}
			st.Data["next"] = next
			c.Result = next
			return
		case "IsLeaf":
			c.Result = leaf
			return
		case "Down", "Up":
			st.Fail(pos, "%s: goes %s", what, strings.ToLower(m))
			return
		default:
			st.Data["asked:"+m] = tBool(true)
			c.Result = mk("tuple", "", sym("val:"+m), sym("err:"+m))
			return
		}
		cur, curOff := st.Data["buf"], st.Data["off"]
		if e.isMsgEncode(c.Callee) {
			b, o := c.Args[1], linear(c.Args[2])
			if st.Data["msg"] != nil || len(st.Data["out"].Args) > 0 {
				st.Fail(pos, "%s: a message is encoded more than once, or too late", what)
				return
			}
			if n, ok := o.number(); !(ok && n == 0 && b == tNil) {
				d, ok := o.minus(linear(curOff)).number()
				if !ok || d < 15 {
					st.Fail(pos, "%s: a message is encoded at %s, over its own key and length", what, short(c.Args[2].String()))
					return
				}
				if !sameBuf(st, b, cur) {
					st.Fail(pos, "undecided: %s: a message is encoded into %s", what, short(b.String()))
					return
				}
				if !fits(st, b, buf, linear(curOff), lin{c: d, m: map[*Term]int64{}}) {
					st.Fail(pos, "%s: a message is encoded behind the end of the buffer", what)
					return
				}
			}
			v, ofField := c.Args[0], false
			if v.Op == "call" {
				for _, a := range v.Args {
					ofField = ofField || methodName(a) == "LookupMessage" && a.Args[len(a.Args)-1] == fd
				}
			}
			if !ofField {
				st.Fail(pos, "%s: which message is encoded: %s", what, short(v.String()))
				return
			}
			st.Data["msg"] = c.Args[2]
			c.Result = mk("tuple", "", mbuf, moff, merr)
			return
		}
		if !sameBuf(st, c.Args[0], cur) || c.Args[1] != curOff {
			st.Fail(pos, "%s: writes at %s of %s", what, short(c.Args[1].String()), short(c.Args[0].String()))
			return
		}
		out := st.Data["out"]
		out = mk("list", "", append(append([]*Term{}, out.Args...), mk("w", e.writers[c.Callee], st.Resolve(c.Args[2])))...)
		st.Data["out"] = out
		n := fmt.Sprint(len(out.Args))
		st.Data["buf"], st.Data["off"] = sym("buf"+n), sym("off"+n)
		c.Result = mk("tuple", "", st.Data["buf"], st.Data["off"])
	}
	wrote := false
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "%s: panics", what) }
	s.OnStore = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op == "copyaddr" && addr.Args[0].Op == "makeslice" {
			return
		}
		if rootOf(addr).Op != "alloc" {
			st.Fail(in.Pos(), "undecided: %s: writes to %s", what, short(addr.String()))
		}
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		e.r.Count("paths of encoding fields", 1)
		isNil, ok := st.IsNil(rets[2])
		if !ok {
			st.Fail(pos, "undecided: %s: whether it fails", what)
			return
		}
		if !isNil {
			return
		}
		if !sameBuf(st, rets[0], st.Data["buf"]) || rets[1] != st.Data["off"] {
			st.Fail(pos, "%s: what was written is not what is returned", what)
			return
		}
		out := st.Data["out"].Args
		if name == "MESSAGE" {
			if n, ok := st.IsNil(merr); st.Data["msg"] == nil || !ok || !n {
				st.Fail(pos, "%s: its fields are not encoded, or with an error", what)
				return
			}
			start := linear(st.Data["msg"])
			size := linear(moff).minus(start)
			if len(out) != 3 {
				st.Fail(pos, "%s: has %d parts", what, len(out))
				return
			}
			if !e.isKey(out[0], fd) {
				st.Fail(pos, "%s: starts with %s", what, short(out[0].String()))
				return
			}
			l := linear(unconv(out[1].Args[0]))
			if d, ok := l.minus(size).number(); out[1].Name != "varint" || !ok || d != 0 {
				st.Fail(pos, "%s: the length is %s", what, short(out[1].String()))
				return
			}
			c := out[2].Args[0]
			good := out[2].Name == "bytes" && c.Op == "slice" && c.Args[0] == mbuf
			if good {
				a, ok1 := linear(c.Args[1]).minus(start).number()
				b, ok2 := linear(c.Args[2]).minus(linear(moff)).number()
				good = ok1 && ok2 && a == 0 && b == 0
			}
			if !good {
				st.Fail(pos, "%s: the fields are %s", what, short(c.String()))
				return
			}
			wrote = true
			return
		}
		if st.Data["next"] == nil {
			st.Fail(pos, "%s: no value is read", what)
			return
		}
		if n, ok := st.IsNil(next); !ok || !n {
			if len(out) > 0 {
				st.Fail(pos, "%s: is written without a value", what)
			}
			return
		}
		lf, ok := st.Fact(leaf)
		if !ok && len(out) == 0 || ok && !lf {
			if len(out) > 0 || !ok {
				st.Fail(pos, "%s: is written without a value, or not with one", what)
			}
			return
		}
		how := protoWrites[name]
		acc := how[0]
		if n, ok := st.IsNil(sym("err:" + acc)); !ok || !n {
			st.Fail(pos, "%s: is not read by %s", what, acc)
			return
		}
		parts := 2
		if how[1] == "bytes" {
			parts = 3
		}
		if len(out) != parts {
			st.Fail(pos, "%s: has %d parts", what, len(out))
			return
		}
		if !e.isKey(out[0], fd) {
			st.Fail(pos, "%s: starts with %s", what, short(out[0].String()))
			return
		}
		val := sym("val:" + acc)
		if why := e.value(st, name, how[1], out[1:], val); why != "" {
			st.Fail(pos, "%s: %s", what, why)
			return
		}
		wrote = true
	}
	s.Run(f, []*Term{recv, buf, off, sym("p")}, func(st *State) {
		for k, v := range mem {
			st.mem[k] = v
		}
		st.Data["buf"], st.Data["off"], st.Data["out"] = buf, off, mk("list", "")
	})
	e.r.Sim(fname(f)+" "+what, s)
	if !wrote && len(s.Errs) == 0 {
		e.r.Fail(fname(f)+" "+what, e.p.posOf(f.Pos()), "%s is never written", what)
		return false
	}
	return wrote
}

// unconv: a value without the conversions that keep all of it.
func unconv(t *Term) *Term {
	for t.Op == "conv" {
		switch t.Name {
		case "int", "int64", "uint", "uint64", "[]uint8", "[]byte", "string":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

func (e *protoEnc) isKey(w, fd *Term) bool {
	return w.Name == "bytes" && methodName(w.Args[0]) == "GetKey" && w.Args[0].Args[0] == fd
}

// value: what is written is the value.
func (e *protoEnc) value(st *State, name, how string, out []*Term, val *Term) string {
	if how == "bytes" {
		l := unconv(out[0].Args[0])
		if out[0].Name != "varint" || l.Op != "len" || unconv(l.Args[0]) != val {
			return "the length is " + short(out[0].String())
		}
		if out[1].Name != "bytes" || unconv(out[1].Args[0]) != val {
			return "the value is " + short(out[1].String())
		}
		return ""
	}
	w := out[0]
	if w.Name != how {
		return "is written as a " + w.Name
	}
	x := w.Args[0]
	bad := "the value is " + short(x.String())
	switch name {
	case "DOUBLE":
		if methodName(x) != "Float64bits" || x.Args[0] != val {
			return bad
		}
		return ""
	case "FLOAT":
		if methodName(x) != "Float32bits" || x.Args[0] != mk("conv", "float32", val) {
			return bad
		}
		return ""
	case "BOOL":
		n, isC := intOf(unconv(x))
		v, ok := st.Fact(val)
		if !isC || !ok || (n == 1) != v || n != 0 && n != 1 {
			return bad
		}
		return ""
	}
	signed := protoWrites[name][0] == "Int"
	got, ok := wordOf(x, func(t *Term) (word, bool) {
		if t == val {
			return source(64, signed), true
		}
		return word{}, false
	})
	if !ok {
		return "undecided: " + bad
	}
	n := 64
	if how == "fixed32" {
		n = 32
	}
	want := word{}
	switch name {
	case "SINT32", "SINT64":
		bits := map[string]int{"SINT32": 32, "SINT64": 64}[name]
		for i := 0; i < 64; i++ {
			switch {
			case i >= bits:
				want.bits = append(want.bits, bitZero)
			case i == 0:
				want.bits = append(want.bits, sourceBit(bits-1))
			default:
				want.bits = append(want.bits, sourceBit(i-1).xor(sourceBit(bits-1)))
			}
		}
	case "UINT32", "INT32", "ENUM": // what does not fit is the concern of the accessor
		want = source(64, false)
		if name == "UINT32" && got.resize(n, false).equal(source(32, false).resize(n, false)) {
			return ""
		}
		if name != "UINT32" && got.resize(n, false).equal(source(32, true).resize(64, false)) {
			return ""
		}
	default:
		want = source(n, false)
	}
	if !got.resize(n, false).equal(want.resize(n, false)) {
		return bad
	}
	return ""
}

func (e *protoEnc) isMsgEncode(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil || f.Name() != e.iface.Method(0).Name() {
		return false
	}
	n := named2(f.Signature.Recv().Type())
	return n != nil && n == e.msg
}

// loop: a message is what its fields are encoded to, one after the other, and a list what its elements are.
func (e *protoEnc) loop(f *ssa.Function, fields bool, setup func(st *State) *Term, elem ...*Term) {
	if f == nil {
		failAnchor("how a message is encoded is not found")
	}
	buf, off, recv := sym("buf"), sym("off"), sym("this")
	next := sym("next")
	what := "a list"
	acc := "Int"
	if fields {
		what, acc = "a message", "String"
	}
	val, verr := sym("val:"+acc), sym("err:"+acc)
	ebuf, eoff, eerr := sym("ebuf"), sym("eoff"), sym("eerr")
	enc := e.iface.Method(0).Name()
	s := &Sim{P: e.p, NoHavoc: true, MaxDepth: 12}
	s.Classify = func(st *State, c *Call) Action {
		if parserCall(c) != "" || c.Method != nil && c.Method.Name() == enc {
			return Event
		}
		if c.Callee != nil {
			if e.writers[c.Callee] != "" || c.Callee.Signature.Recv() != nil && c.Callee.Name() == enc {
				return Event
			}
			if inRepo(c.Callee) {
				return Inline
			}
		}
		return Pure
	}
	isNil := func(st *State, t *Term) bool { v, ok := st.IsNil(t); return ok && v }
	s.OnWiden = func(st *State, ph *ssa.Phi, old, nw, w *Term) {
		for _, k := range []string{"buf", "off"} {
			if st.Data[k] == nw {
				st.Data[k] = w
			}
		}
	}
	encoded := false
	s.OnEvent = func(st *State, c *Call) {
		pos := c.Instr.Pos()
		switch m := parserCall(c); m {
		case "":
		case "Next":
			ok := st.Mon == "top"
			if st.Mon == "named" && fields {
				// a field that is not known
				for t, v := range st.facts {
					if t.Op == "haskey" && t.Args[1] == val && !v {
						ok = true
					}
				}
			}
			if !ok {
				st.Fail(pos, "%s: goes on in the middle of a field (%s)", what, st.Mon)
				return
			}
			for _, t := range []*Term{next, val, verr, eerr} {
				st.killFacts(t)
			}
			st.Mon = "next"
			c.Result = next
			return
		case acc:
			if st.Mon != "next" || !isNil(st, next) {
				st.Fail(pos, "%s: asks for the name at the wrong place (%s)", what, st.Mon)
				return
			}
			st.Mon = "named"
			c.Result = mk("tuple", "", val, verr)
			return
		case "Down":
			if st.Mon != "named" || !isNil(st, verr) {
				st.Fail(pos, "%s: goes down at the wrong place (%s)", what, st.Mon)
				return
			}
			st.Mon = "down"
			return
		case "Up":
			if st.Mon != "encoded" || !isNil(st, eerr) {
				st.Fail(pos, "%s: goes up at the wrong place (%s)", what, st.Mon)
				return
			}
			st.Mon = "top"
			return
		case "IsLeaf":
			return
		default:
			st.Fail(pos, "undecided: %s: asks for %s", what, m)
			return
		}
		if c.Callee != nil && e.writers[c.Callee] != "" {
			st.Fail(pos, "%s: writes between its fields", what)
			return
		}
		args := c.Args
		who := c.Recv
		if c.Callee != nil {
			who, args = c.Args[0], c.Args[1:]
		}
		if st.Mon != "down" {
			st.Fail(pos, "%s: encodes at the wrong place (%s)", what, st.Mon)
			return
		}
		if args[0] != st.Data["buf"] || args[1] != st.Data["off"] {
			st.Fail(pos, "%s: encodes at %s of %s", what, short(args[1].String()), short(args[0].String()))
			return
		}
		if fields {
			if who.Op != "lookup" || who.Args[1] != val || who.Args[0].Op != "field" || who.Args[0].Args[0] != recv {
				st.Fail(pos, "%s: a field is encoded by %s", what, short(who.String()))
				return
			}
		} else if w := strip(who); w != elem[0] && w != elem[0].Args[0] {
			st.Fail(pos, "%s: an element is encoded by %s", what, short(who.String()))
			return
		}
		encoded = true
		st.killFacts(eerr)
		st.killFacts(ebuf)
		st.killFacts(eoff)
		st.Mon = "encoded"
		st.Data["buf"], st.Data["off"] = ebuf, eoff
		c.Result = mk("tuple", "", ebuf, eoff, eerr)
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "%s: panics", what) }
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		e.r.Count("paths of encoding lists of fields", 1)
		n, ok := st.IsNil(rets[2])
		if !ok {
			st.Fail(pos, "undecided: %s: whether it fails", what)
			return
		}
		if !n {
			return
		}
		eof, ok := st.Fact(tEq(next, mk("gval", "io.EOF")))
		if st.Mon != "next" || !ok || !eof {
			st.Fail(pos, "%s: ends before the end", what)
			return
		}
		if rets[0] != st.Data["buf"] || rets[1] != st.Data["off"] {
			st.Fail(pos, "%s: what was written is not what is returned", what)
		}
	}
	var self *Term
	args := []*Term{recv, buf, off, sym("p")}
	if setup != nil {
		tmp := &State{mem: map[*Term]*Term{}}
		self = setup(tmp)
		args[0] = self
	}
	s.Run(f, args, func(st *State) {
		if setup != nil {
			setup(st)
		}
		st.Mon = "top"
		st.Data["buf"], st.Data["off"] = buf, off
	})
	e.r.Sim(fname(f), s)
	if !encoded && len(s.Errs) == 0 {
		e.r.Fail(fname(f), e.p.posOf(f.Pos()), "%s: nothing is encoded", what)
	}
}

// newMsg: the encoder of a message has one for each of its fields.
func (e *protoEnc) newMsg(maker *ssa.Function) {
	n := 0
	for _, f := range e.p.funcsIn("encode/proto") {
		calls := false
		for _, c := range callsIn(f) {
			calls = calls || c.Common().StaticCallee() == maker
		}
		if !calls || !reachesMsg(e.p, e, f) {
			continue
		}
		n++
		f := f
		md := sym("message")
		var args []*Term
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if nm := named2(f.Signature.Params().At(i).Type()); nm != nil && nm.Obj().Name() == "DescriptorProto" {
				args = append(args, md)
			} else {
				args = append(args, sym(f.Params[i].Name()))
			}
		}
		seq := (*Term)(nil)
		// the list of fields is what GetField returns
		probe := &Sim{P: e.p, NoHavoc: true}
		probe.Classify = func(st *State, c *Call) Action {
			if c.Callee != nil && c.Callee.Name() == "GetField" && len(c.Args) == 1 && c.Args[0] == md {
				seq = mk("call", c.Name(), md)
			}
			if c.Callee != nil && (c.Callee == maker || !inRepo(c.Callee)) {
				return Pure
			}
			return Inline
		}
		probe.Run(f, args, nil)
		if seq == nil {
			seq = tField(md, "Field")
		}
		res := simEach(e.p, f, args, seq, func(st *State, el *Term) string {
			for a, v := range st.mem {
				if a.Op != "mapaddr" {
					continue
				}
				k := a.Args[1]
				if methodName(k) == "GetName" && k.Args[0] == el && v.Op == "call" && v.any(func(t *Term) bool { return t == el }) {
					return "kept"
				}
			}
			return ""
		}, func(s *Sim) {
			s.Classify = func(st *State, c *Call) Action {
				if c.Callee != nil && (c.Callee == maker || !inRepo(c.Callee)) {
					return Pure
				}
				if c.Callee == nil {
					return Pure
				}
				return Inline
			}
		})
		for _, er := range res.Errs {
			e.r.Fail(fname(f), er.Where, "%s", er.Msg)
		}
		all := false
		for _, o := range res.Out {
			e.r.Count("paths of making encoders of messages", 1)
			if o.Rets[0].Op == "lookup" && o.Rets[0].Args[1] == md {
				continue // made before
			}
			if x := o.Rets[0]; x.Op == "extract" && x.Args[0].Op == "lookup" {
				continue
			}
			for c := range o.Seen {
				if c != "kept" {
					e.r.Fail(fname(f), e.p.posOf(o.Pos), "a field of a message has no encoder of its own under its name")
				}
			}
			if !o.Exhausted {
				e.r.Fail(fname(f), e.p.posOf(o.Pos), "some fields of a message have no encoder")
			}
			all = all || o.Exhausted && o.Seen["kept"]
		}
		if !all {
			e.r.Fail(fname(f), e.p.posOf(f.Pos()), "the fields of a message have no encoders")
		}
	}
	if n != 1 {
		failAnchor("%d functions make the encoder of a message", n)
	}
}

// top: what is returned is what was encoded.
func (e *protoEnc) top() {
	n := 0
	for _, f := range e.p.funcsIn("encode/proto") {
		if f.Signature.Recv() == nil || f.Name() != "Encode" || f.Blocks == nil {
			continue
		}
		n++
		f := f
		buf, mbuf, moff, merr := sym("buf"), sym("mbuf"), sym("moff"), sym("merr")
		s := &Sim{P: e.p, NoHavoc: true}
		s.Classify = func(st *State, c *Call) Action {
			if c.Callee != nil && e.isMsgEncode(c.Callee) {
				return Event
			}
			if c.Callee != nil && inRepo(c.Callee) {
				return Inline
			}
			return Pure
		}
		s.OnEvent = func(st *State, c *Call) {
			if k, ok := intOf(c.Args[2]); c.Args[1] != buf && c.Args[1] != tNil || !ok || k != 0 {
				st.Fail(c.Instr.Pos(), "starts at %s of %s", short(c.Args[2].String()), short(c.Args[1].String()))
				return
			}
			c.Result = mk("tuple", "", mbuf, moff, merr)
		}
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			e.r.Count("paths of Encode", 1)
			isNil, ok := st.IsNil(rets[1])
			if !ok {
				st.Fail(pos, "undecided: whether it fails")
				return
			}
			if !isNil {
				return
			}
			if v, ok := st.IsNil(merr); !ok || !v {
				st.Fail(pos, "an error is lost")
				return
			}
			x := rets[0]
			if x.Op != "slice" || x.Args[0] != mbuf || x.Args[2] != moff {
				st.Fail(pos, "returns %s", short(x.String()))
				return
			}
			if k, ok := intOf(x.Args[1]); !ok || k != 0 {
				st.Fail(pos, "returns %s", short(x.String()))
			}
		}
		s.Run(f, []*Term{sym("this"), buf, sym("p")}, nil)
		e.r.Sim(fname(f), s)
	}
	if n == 0 {
		failAnchor("Encode is not found")
	}
	// and the message is the one that was asked for
	g := e.p.Func("encode/proto", "NewEncoder")
	s := &Sim{P: e.p, NoHavoc: true}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == nil || !inRepo(c.Callee) || relPkgOf(c.Callee) != "encode/proto" || reachesMsg(e.p, e, c.Callee) {
			return Pure
		}
		return Inline
	}
	made := false
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if isNil, ok := st.IsNil(rets[1]); !ok {
			st.Fail(pos, "undecided: whether it fails")
		} else if isNil {
			x, good := strip(rets[0]), false
			if x.Op == "iface" {
				x = x.Args[0]
			}
			for a, v := range st.mem {
				if a.Op == "fa" && a.Args[0] == x && v.Op == "call" {
					for _, y := range v.Args {
						good = good || methodName(y) == "GetRoot" && methodName(noExtract(y.Args[0])) == "NewDescriptorMap" && len(noExtract(y.Args[0]).Args) == 3 && noExtract(y.Args[0]).Args[0] == sym("pkg") && noExtract(y.Args[0]).Args[1] == sym("msg") && noExtract(y.Args[0]).Args[2] == sym("desc")
					}
				}
			}
			if !good {
				st.Fail(pos, "the encoder is not made for the message")
			}
			made = true
		}
	}
	s.Run(g, []*Term{sym("desc"), sym("pkg"), sym("msg")}, nil)
	e.r.Sim(fname(g), s)
	if !made && len(s.Errs) == 0 {
		e.r.Fail(fname(g), e.p.posOf(g.Pos()), "no encoder is made")
	}
}

func noExtract(t *Term) *Term {
	for t.Op == "extract" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}
