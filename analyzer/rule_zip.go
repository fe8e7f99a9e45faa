package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C28", "other", zipRule) }

// zipRule: zipping a list of patterns and unzipping what became of it puts every pattern back in its place.
func zipRule(p *Prog, r *Report) {
	r.Explain("Zip is followed for lists of 0 to 3 (thorough: 4) patterns, every combination of patterns that accept everything, nothing, or something else, every way they can be equal or share a hash, and every order a sort can leave them in. What Unzip puts in place i has to be equal to the pattern that was there, and what UnzipBits puts there has to be the bit of a pattern equal to it. The bits themselves are followed by bit position.")
	r.guard("sets.Zip", func() { zipCheck(p, r, "relapse/sets", "relapse/ast") })
	r.guard("intern.Zip", func() { zipCheck(p, r, "relapse/intern", "relapse/intern") })
	r.guard("swap", func() { swapCheck(p, r) })
	r.guard("bits", func() { bitsCheck(p, r) })
	r.Expect("zips", 2)
	r.Expect("lists zipped", 600)
	r.Expect("sorters", 2)
	r.Expect("bit histories", 1000)
	r.Expect("counting steps", 6)
	r.Assume("sort.Sort only calls Swap; equality and hash of patterns agree (C08).")
}

// permSort models a sort: the elements are left in the given order.
func permSort(st *State, c *Call, perm []int) bool {
	if c.Callee == nil || len(c.Args) == 0 {
		return false
	}
	pk := c.Callee.Pkg
	if pk == nil {
		if o := c.Callee.Origin(); o != nil {
			pk = o.Pkg
		}
	}
	if pk == nil || pk.Pkg.Path() != "sort" && pk.Pkg.Path() != "slices" {
		return false
	}
	n := c.Callee.Name()
	if !strings.HasPrefix(n, "Sort") && !strings.HasPrefix(n, "Slice") && !strings.HasPrefix(n, "Stable") {
		return false
	}
	move := func(l *Term) {
		s := st.snapshot(l)
		if s.Op != "list" {
			st.Fail(c.Instr.Pos(), "undecided: what is sorted is %s", short(l.String()))
			return
		}
		var order []int
		for _, k := range perm {
			if k < len(s.Args) {
				order = append(order, k)
			}
		}
		for i, k := range order {
			st.mem[mk("ia", "", l, tInt(int64(i)))] = s.Args[k]
		}
	}
	t := strip(c.Args[0])
	if t.Op == "alloc" && t.Typ != nil {
		if pt, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if u, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if _, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
						move(st.Load(tFA(t, u.Field(i).Name()), u.Field(i).Type()))
					}
				}
				return true
			}
		}
	}
	if t.Op == "new" {
		for _, kv := range t.Args {
			if s := st.snapshot(kv.Args[0]); s.Op == "list" {
				move(kv.Args[0])
			}
		}
		return true
	}
	move(t)
	return true
}

// zipElem is one pattern of a list: its kind, the class of patterns it equals, and its hash.
type zipElem struct {
	kind  byte // 'z' accepts everything, 'n' nothing, 'o' other
	class int
	hash  int
}

func zipLists(n int) (out [][]zipElem) {
	var gen func(l []zipElem, classes, hashes int, hashOf map[int]int)
	gen = func(l []zipElem, classes, hashes int, hashOf map[int]int) {
		if len(l) == n {
			out = append(out, append([]zipElem{}, l...))
			return
		}
		for _, k := range []byte("zn") {
			gen(append(l, zipElem{k, -1, 100 + int(k)}), classes, hashes, hashOf)
		}
		for c := 0; c <= classes; c++ {
			if c < classes {
				gen(append(l, zipElem{'o', c, hashOf[c]}), classes, hashes, hashOf)
				continue
			}
			for h := 0; h <= hashes; h++ {
				hashOf[c] = h
				nh := hashes
				if h == hashes {
					nh++
				}
				gen(append(l, zipElem{'o', c, h}), classes+1, nh, hashOf)
			}
			delete(hashOf, c)
		}
	}
	gen(nil, 0, 0, map[int]int{})
	return out
}

func permsOf(n int) (out [][]int) {
	var gen func(l []int, used int)
	gen = func(l []int, used int) {
		if len(l) == n {
			out = append(out, append([]int{}, l...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				gen(append(l, i), used|1<<uint(i))
			}
		}
	}
	gen(nil, 0)
	return out
}

// ignoreLists evaluates the initialisation of a package: what its variables hold.
func initState(p *Prog, pkg string) *State {
	var res *State
	f := p.SPkg[pkg].Func("init")
	if f == nil {
		return nil
	}
	s := &Sim{P: p, NoHavoc: true, Unroll: true, Maps: true, MaxDepth: 10, MaxState: 20000}
	s.Decide = func(t *Term) (bool, bool) {
		if t.Op == "gval" && strings.HasSuffix(t.Name, "init$guard") {
			return false, true
		}
		return false, false
	}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && c.Callee.Name() != "init" && inRepo(c.Callee) && c.Callee.Signature.Recv() == nil && (strings.HasPrefix(c.Callee.Name(), "new") || strings.HasPrefix(c.Callee.Name(), "New")) {
			return Inline
		}
		return Pure
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) { res = st.clone() }
	s.Run(f, nil, nil)
	return res
}

// kindOfPattern tells whether a built pattern accepts everything ('z') or nothing ('n').
func kindOfPattern(p *Prog, st *State, t *Term) byte {
	v := st.Resolve(t)
	get := func(v *Term, f string) *Term {
		if v == nil || v.Op != "new" {
			return nil
		}
		for _, kv := range v.Args {
			if kv.Name == f {
				return kv.Args[0]
			}
		}
		return nil
	}
	set := func(x *Term) bool { return x != nil && x != tNil && !x.isConst() }
	if x := get(v, "ZAny"); set(x) {
		return 'z'
	}
	if x := get(get(v, "Not"), "Pattern"); set(get(x, "ZAny")) {
		return 'n'
	}
	if ty := get(v, "Type"); ty != nil {
		if ty == p.constOf("relapse/intern", "ZAny") {
			return 'z'
		}
		if ps := get(v, "Patterns"); ty == p.constOf("relapse/intern", "Not") && ps != nil && ps.Op == "list" && len(ps.Args) == 1 && get(ps.Args[0], "Type") == p.constOf("relapse/intern", "ZAny") {
			return 'n'
		}
	}
	return 'o'
}

func zipCheck(p *Prog, r *Report, pkg, patPkg string) {
	pat := p.Type(patPkg, "Pattern")
	pt := types.NewPointer(pat)
	lt := types.NewSlice(pt)
	// Zip takes a list of patterns; Unzip returns one from what Zip returns
	var zip, unzip, unzipBits *ssa.Function
	for _, f := range p.funcsIn(pkg) {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		switch f.Name() {
		case "Zip":
			if len(f.Params) == 1 && types.Identical(f.Params[0].Type(), lt) {
				zip = f
			}
		case "Unzip":
			unzip = f
		}
	}
	for _, f := range p.funcsIn("relapse/sets") {
		if f.Name() == "UnzipBits" && f.Parent() == nil {
			unzipBits = f
		}
	}
	if zip == nil || unzip == nil || unzipBits == nil {
		failAnchor("Zip, Unzip and UnzipBits in %s", pkg)
	}
	r.Count("zips", 1)
	// the variables that stand for the patterns that are left out
	globs := map[*Term]*Term{}
	for _, ip := range []string{pkg, "relapse/sets"} {
		st := initState(p, ip)
		if st == nil {
			r.Fail("init:"+ip, p.posOf(zip.Pos()), "undecided: what the variables of the package hold")
			return
		}
		for a, v := range st.mem {
			if a.Op != "glob" {
				continue
			}
			l := st.Resolve(v)
			if l.Op == "alloc" && l.Typ != nil {
				l = st.Resolve(st.snapshot(l))
			}
			if l.Op != "list" {
				continue
			}
			es := make([]*Term, len(l.Args))
			for i, e := range l.Args {
				es[i] = e
				raw := e
				if k := kindOfPattern(p, st, raw); k != 'o' {
					es[i] = mk("pat", string(k))
				}
			}
			globs[a] = mk("list", "", es...)
		}
	}
	setGlobs := func(st *State) {
		for a, v := range globs {
			st.mem[a] = v
		}
	}
	max := 3
	if r.Tier == "thorough" {
		max = 4
	}
	errs := map[string]bool{}
	for n := 0; n <= max; n++ {
		for _, l := range zipLists(n) {
			for _, perm := range permsOf(n) {
				if len(errs) > 3 {
					return
				}
				zipOne(p, r, zip, unzip, unzipBits, patPkg, l, perm, setGlobs, errs)
			}
		}
	}
}

func describeZip(l []zipElem) string {
	var ss []string
	for _, e := range l {
		switch e.kind {
		case 'z':
			ss = append(ss, "*")
		case 'n':
			ss = append(ss, "!*")
		default:
			ss = append(ss, fmt.Sprintf("%c(hash %d)", 'A'+e.class, e.hash))
		}
	}
	return strings.Join(ss, ", ")
}

func zipOne(p *Prog, r *Report, zip, unzip, unzipBits *ssa.Function, patPkg string, l []zipElem, perm []int, setGlobs func(*State), errs map[string]bool) {
	r.Count("lists zipped", 1)
	n := len(l)
	elems := make([]*Term, n)
	info := map[*Term]zipElem{}
	for i, e := range l {
		elems[i] = sym(fmt.Sprintf("p%d", i))
		info[elems[i]] = e
	}
	for _, k := range "zn" {
		info[mk("pat", string(k))] = zipElem{kind: byte(k), class: -1, hash: 100 + int(k)}
	}
	given := mk("list", "", elems...)
	list := given
	if n > 0 {
		list = mk("makeslice", "given", tInt(int64(n)))
		list.Typ = types.NewSlice(types.NewPointer(p.Type(patPkg, "Pattern")))
	}
	equal := func(a, b *Term) (bool, bool) {
		x, ok1 := info[a]
		y, ok2 := info[b]
		if !ok1 || !ok2 {
			return false, false
		}
		return x.kind == y.kind && x.class == y.class, true
	}
	zany, notT := sym("none"), sym("none")
	if patPkg == "relapse/intern" {
		zany, notT = p.constOf(patPkg, "ZAny"), p.constOf(patPkg, "Not")
	}
	setup := func(st *State) {
		setGlobs(st)
		st.Data["given"] = list
		for a, e := range info {
			st.Data["elem:"+a.String()] = a
			if patPkg == "relapse/intern" {
				st.mem[tFA(a, "hash")] = tInt(int64(e.hash))
				in := sym("in:" + a.String())
				st.Data["in:"+a.String()] = in
				switch e.kind {
				case 'z':
					st.mem[tFA(a, "Type")] = zany
				case 'n':
					st.mem[tFA(a, "Type")] = notT
					st.mem[tFA(a, "Patterns")] = mk("list", "", in)
					st.mem[tFA(in, "Type")] = zany
				default:
					st.mem[tFA(a, "Type")] = mk("otherType", a.String())
				}
				continue
			}
			in := sym("in:" + a.String())
			st.Data["in:"+a.String()] = in
			switch e.kind {
			case 'z':
				st.assume(tEq(tField(a, "ZAny"), tNil), false)
			case 'n':
				st.assume(tEq(tField(a, "ZAny"), tNil), true)
				st.assume(tEq(tField(a, "Not"), tNil), false)
				st.assume(tEq(tField(tField(tField(a, "Not"), "Pattern"), "ZAny"), tNil), false)
			default:
				st.assume(tEq(tField(a, "ZAny"), tNil), true)
				st.assume(tEq(tField(tField(tField(a, "Not"), "Pattern"), "ZAny"), tNil), true)
			}
		}
	}
	newSim := func() *Sim {
		s := &Sim{P: p, NoHavoc: true, Unroll: true, Maps: true, MaxDepth: 20, MaxState: 20000}
		s.Decide = func(t *Term) (bool, bool) {
			if t.Op == "bin" && t.Name == "==" {
				for i := 0; i < 2; i++ {
					x, c := t.Args[i], t.Args[1-i]
					if x.Op == "otherType" && c.Op == "const" {
						// a pattern that is a negation of something else, or another kind
						return false, true
					}
				}
			}
			return false, false
		}
		s.Classify = func(st *State, c *Call) Action {
			if permSort(st, c, perm) {
				return Pure
			}
			if c.Callee == nil {
				return Pure
			}
			rp := relPkgOf(c.Callee)
			switch {
			case c.Callee.Name() == "Equal" && rp == patPkg && len(c.Args) == 2:
				if v, ok := equal(strip(c.Args[0]), strip(c.Args[1])); ok {
					c.Result = tBool(v)
				}
				return Pure
			case c.Callee.Name() == "Hash" && rp == patPkg && len(c.Args) == 1:
				if e, ok := info[strip(c.Args[0])]; ok {
					c.Result = tInt(int64(e.hash))
				}
				return Pure
			case c.Callee.Name() == "Get" && rp == "relapse/sets" && len(c.Args) == 2:
				c.Result = mk("bitof", "", c.Args[1])
				return Pure
			}
			if rp == "relapse/sets" || rp == "relapse/intern" {
				return Inline
			}
			return Pure
		}
		return s
	}
	fail := func(pos tokenPos, trace []string, key, msg string) {
		if !errs[msg] {
			errs[msg] = true
			r.FailTrace(key, p.posOf(pos), trace, "%s", msg)
		}
	}
	what := describeZip(l)
	s := newSim()
	got := 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		got++
		if st.snapshot(list) != given {
			fail(pos, nil, fname(zip), fmt.Sprintf("zipping [%s] changes the list it is given", what))
			return
		}
		var ps, is *Term
		uargs := rets
		if len(rets) == 2 {
			ps, is = st.snapshot(rets[0]), st.snapshot(rets[1])
		} else {
			ps = st.snapshot(st.Load(tFA(rets[0], "Patterns"), nil2(p, zip, "Patterns")))
			is = st.snapshot(st.Load(tFA(rets[0], "Indexes"), nil2(p, zip, "Indexes")))
		}
		if is.Op != "list" || ps.Op != "list" && ps != tNil {
			fail(pos, nil, fname(zip), fmt.Sprintf("undecided: zipping [%s] gives %s and %s", what, short(ps.String()), short(is.String())))
			return
		}
		if ps == tNil {
			ps = mk("list", "")
		}
		// unzipping gives the patterns back
		s2 := newSim()
		done := 0
		s2.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			done++
			res := st.snapshot(rets[0])
			ok := res.Op == "list" && len(res.Args) == n
			for i := 0; ok && i < n; i++ {
				v, k := equal(st.Resolve(res.Args[i]), elems[i])
				ok = v && k
			}
			if !ok {
				fail(pos, nil, fname(zip), fmt.Sprintf("zipping [%s] and unzipping gives %s (zipped %s with %s, order after sorting %v)", what, res, ps, is, perm))
			}
		}
		s2.Run(unzip, uargs, func(st2 *State) {
			for a, v := range st.mem {
				st2.mem[a] = v
			}
			setup(st2)
			for i, a := range uargs {
				st2.Data[fmt.Sprint("arg", i)] = a
			}
		})
		for _, e := range s2.Errs {
			fail(unzip.Pos(), nil, fname(unzip), e.Msg)
		}
		if done == 0 && len(s2.Errs) == 0 {
			fail(unzip.Pos(), nil, fname(unzip), fmt.Sprintf("unzipping what zipping [%s] gives fails", what))
		}
		// and the bits
		s3 := newSim()
		done = 0
		s3.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			done++
			res := st.snapshot(rets[0])
			ok := res.Op == "list" && len(res.Args) == n
			for i := 0; ok && i < n; i++ {
				b := res.Args[i]
				switch l[i].kind {
				case 'z':
					ok = b.isTrue()
				case 'n':
					ok = b.isFalse()
				default:
					ok = false
					if b.Op == "bitof" {
						if k, isN := intOf(b.Args[0]); isN && k >= 0 && int(k) < len(ps.Args) {
							v, kn := equal(st.Resolve(ps.Args[k]), elems[i])
							ok = v && kn
						}
					}
				}
			}
			if !ok {
				fail(pos, nil, fname(unzipBits), fmt.Sprintf("the bits of [%s] are unzipped to %s (zipped %s with %s)", what, res, ps, is))
			}
		}
		s3.Run(unzipBits, []*Term{sym("bits"), is}, setup)
		for _, e := range s3.Errs {
			fail(unzipBits.Pos(), nil, fname(unzipBits), e.Msg)
		}
		if done == 0 && len(s3.Errs) == 0 {
			fail(unzipBits.Pos(), nil, fname(unzipBits), fmt.Sprintf("unzipping the bits of [%s] fails", what))
		}
	}
	s.Run(zip, []*Term{list}, func(st *State) {
		setup(st)
		for i, e := range elems {
			st.mem[mk("ia", "", list, tInt(int64(i)))] = e
		}
	})
	for _, e := range s.Errs {
		fail(zip.Pos(), nil, fname(zip), e.Msg)
	}
	if got == 0 && len(s.Errs) == 0 {
		fail(zip.Pos(), nil, fname(zip), fmt.Sprintf("zipping [%s] does not return (order after sorting %v)", what, perm))
	}
}

// nil2 is the type of a field of what a function returns.
func nil2(p *Prog, f *ssa.Function, field string) types.Type {
	n := named2(f.Signature.Results().At(0).Type())
	for _, fd := range structFields(n) {
		if fd.Name() == field {
			return fd.Type()
		}
	}
	failAnchor("field %s of what %s returns", field, fname(f))
	return nil
}

// swapCheck: what is sorted is permuted as a whole.
func swapCheck(p *Prog, r *Report) {
	for _, f := range p.funcsIn("relapse/sets", "relapse/intern", "relapse/interp") {
		if f.Name() != "Swap" || f.Signature.Recv() == nil || len(f.Params) != 3 || f.Synthetic != "" {
			continue
		}
		r.Count("sorters", 1)
		t := f.Params[0].Type()
		obj := sym("sorted")
		var lists []*Term
		s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 5, MaxState: 1000}
		recv := obj
		var fields []*types.Var
		if n := named2(t); n != nil {
			if _, ok := n.Underlying().(*types.Slice); ok {
				recv = listOf(sym("l"), 4)
				lists = append(lists, recv)
			} else {
				for _, fd := range structFields(n) {
					if _, ok := fd.Type().Underlying().(*types.Slice); ok {
						fields = append(fields, fd)
						lists = append(lists, listOf(sym("l:"+fd.Name()), 4))
					}
				}
			}
		}
		got := 0
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			got++
			for _, l := range lists {
				now := st.snapshot(l)
				for k, e := range l.Args {
					want := e
					if k == 1 {
						want = l.Args[2]
					} else if k == 2 {
						want = l.Args[1]
					}
					if now.Args[k] != want {
						st.Fail(pos, "swapping 1 and 2 leaves %s", now)
						return
					}
				}
			}
		}
		s.Run(f, []*Term{recv, tInt(1), tInt(2)}, func(st *State) {
			for i, fd := range fields {
				st.mem[tFA(recv, fd.Name())] = lists[i]
			}
		})
		r.Sim(fname(f), s)
		if got == 0 && len(s.Errs) == 0 || len(lists) == 0 {
			r.Fail(fname(f), p.posOf(f.Pos()), "undecided: what is swapped")
		}
	}
}

// bitOf is the value of bit j of a word, as the parity of bits of atoms.
func bitOf(t *Term, j int64) (atoms []*Term, one, ok bool) {
	if v, isC := intOf(t); isC {
		return nil, j < 63 && v>>uint(j)&1 == 1, v >= 0
	}
	switch t.Op {
	case "conv":
		return bitOf(t.Args[0], j)
	case "bin":
		a, b := t.Args[0], t.Args[1]
		switch t.Name {
		case "^":
			x, o1, ok1 := bitOf(a, j)
			y, o2, ok2 := bitOf(b, j)
			return append(append([]*Term{}, x...), y...), o1 != o2, ok1 && ok2
		case "<<":
			if k, isC := intOf(stripConvT(b)); isC {
				if j < k {
					return nil, false, true
				}
				return bitOf(a, j-k)
			}
		case ">>":
			if k, isC := intOf(stripConvT(b)); isC {
				if j+k >= 64 {
					return nil, false, true
				}
				return bitOf(a, j+k)
			}
		case "&", "|", "&^":
			x, o1, ok1 := bitOf(a, j)
			y, o2, ok2 := bitOf(b, j)
			if !ok1 || !ok2 {
				return nil, false, false
			}
			if t.Name == "&^" {
				if len(y) > 0 && (len(x) > 0 || o1) {
					return nil, false, false
				}
				if len(x) == 0 && !o1 || len(y) == 0 && o2 {
					return nil, false, true
				}
				return x, o1, true
			}
			// the neutral and the absorbing bit
			neutral := t.Name == "&"
			for i := 0; i < 2; i++ {
				if len(x) == 0 {
					if o1 == neutral {
						return y, o2, true
					}
					return nil, o1, true
				}
				x, o1, y, o2 = y, o2, x, o1
			}
		}
		return nil, false, false
	}
	return []*Term{mk("bit", fmt.Sprint(j), t)}, false, true
}

func stripConvT(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// oneBit reads a comparison of a word of which one bit at most can be set.
func oneBit(t *Term) (x *Term, want bool, ok bool) {
	neg := false
	for t.Op == "un" && t.Name == "!" {
		t, neg = t.Args[0], !neg
	}
	if t.Op != "bin" || t.Name != "==" {
		return nil, false, false
	}
	for i := 0; i < 2; i++ {
		c, isC := intOf(t.Args[i])
		w := stripConvT(t.Args[1-i])
		if !isC || c < 0 || w.Op != "bin" && w.Op != "sym" {
			continue
		}
		at := int64(-1)
		for j := int64(0); j < 64; j++ {
			atoms, one, ok := bitOf(w, j)
			if !ok || at >= 0 && (len(atoms) > 0 || one) {
				return nil, false, false
			}
			if len(atoms) > 0 || one {
				at = j
			}
		}
		if at < 0 {
			at = 0
		}
		if c != 0 && (at > 62 || c != 1<<uint(at)) {
			return nil, false, false
		}
		return mk("bin", ">>", w, tInt(at)), (c != 0) != neg, true
	}
	return nil, false, false
}

func bitsSim(p *Prog) *Sim {
	s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 10, MaxState: 5000}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee != nil && relPkgOf(c.Callee) == "relapse/sets" {
			return Inline
		}
		return Pure
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics for an index in range") }
	s.OnBranch = func(st *State, c *Term, v bool) {
		for c.Op == "un" && c.Name == "!" {
			c, v = c.Args[0], !v
		}
		w, want, ok := oneBit(c)
		if !ok {
			return
		}
		atoms, one, ok := bitOf(w, 0)
		if !ok {
			return
		}
		odd := one
		var open []*Term
		count := map[*Term]int{}
		for _, a := range atoms {
			count[a]++
		}
		for a, n := range count {
			if n%2 == 0 {
				continue
			}
			if k, known := st.Data["known:"+a.String()]; known {
				odd = odd != k.isTrue()
			} else {
				open = append(open, a)
			}
		}
		val := v == want
		if len(open) == 0 {
			if odd != val {
				st.Kill()
			}
			return
		}
		if len(open) == 1 {
			st.Data["known:"+open[0].String()] = tBool(val != odd)
		}
	}
	return s
}

// valueOfBit is what a path knows of a boolean that reads a bit.
func valueOfBit(st *State, t *Term) (atom *Term, val, known bool) {
	neg := false
	for t.Op == "un" && t.Name == "!" {
		t, neg = t.Args[0], !neg
	}
	if t.isConst() {
		return nil, t.isTrue() != neg, true
	}
	w, want, ok := oneBit(t)
	if !ok {
		return nil, false, false
	}
	atoms, one, ok := bitOf(w, 0)
	if !ok {
		return nil, false, false
	}
	count := map[*Term]int{}
	for _, a := range atoms {
		count[a]++
	}
	odd := one
	var open []*Term
	for a, n := range count {
		if n%2 == 0 {
			continue
		}
		if k, known := st.Data["known:"+a.String()]; known {
			odd = odd != k.isTrue()
		} else {
			open = append(open, a)
		}
	}
	if len(open) == 0 {
		return nil, (odd == want) != neg, true
	}
	if len(open) == 1 && !odd && want != neg {
		return open[0], false, true
	}
	return nil, false, false
}

func bitsCheck(p *Prog, r *Report) {
	bt := p.Type("relapse/sets", "Bits")
	newB := p.Func("relapse/sets", "NewBits")
	get := p.methodOf(bt, "Get")
	set := p.methodOf(bt, "Set")
	inc := p.methodOf(bt, "Inc")
	sizes := []int64{1, 2, 63, 64, 65, 127, 128, 129, 192, 193, 256, 257, 321, 400}
	for _, size := range sizes {
		// what NewBits makes: no bit is set
		s := bitsSim(p)
		var zero *Term
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			zero = st.Resolve(rets[0])
		}
		s.Run(newB, []*Term{tInt(size)}, nil)
		r.Sim(fname(newB), s)
		if zero == nil || zero.Op != "new" {
			r.Fail(fname(newB), p.posOf(newB.Pos()), "undecided: what NewBits(%d) makes", size)
			return
		}
		// the same with arbitrary bits
		words := int64(0)
		shape := func(st *State, addr *Term) {
			words = 0
			for _, kv := range zero.Args {
				v := kv.Args[0]
				switch {
				case v.Op == "list":
					es := make([]*Term, len(v.Args))
					for i := range es {
						es[i] = sym(fmt.Sprintf("w:%s%d", kv.Name, i))
						st.Data[es[i].String()] = es[i]
						words++
					}
					st.mem[tFA(addr, kv.Name)] = mk("list", "", es...)
				case v == tInt(size):
					st.mem[tFA(addr, kv.Name)] = v
				case v == tInt(0):
					w := sym("w:" + kv.Name)
					st.Data[w.String()] = w
					st.mem[tFA(addr, kv.Name)] = w
					words++
				case v == tNil:
					st.mem[tFA(addr, kv.Name)] = v
				default:
					st.mem[tFA(addr, kv.Name)] = v
				}
			}
			st.Data["addr"] = addr
		}
		idx := map[int64]bool{}
		for i := int64(0); i < size; i++ {
			if size <= 65 || i%7 == 0 || i%64 < 2 || i%64 == 63 || i == size-1 {
				idx[i] = true
			}
		}
		atomOf := map[int64]*Term{}
		seen := map[*Term]int64{}
		readBit := func(st *State, addr *Term, i int64, ret func(st *State, t *Term)) {
			s := bitsSim(p)
			n := 0
			s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
				n++
				ret(st, rets[0])
			}
			s.Run(get, []*Term{st.Load(addr, bt), tInt(i)}, func(st2 *State) {
				if st != nil {
					for k, v := range st.Data {
						st2.Data[k] = v
					}
					for a, v := range st.mem {
						st2.mem[a] = v
					}
				}
			})
			r.Sim(fname(get), s)
			if n == 0 && len(s.Errs) == 0 {
				r.Fail(fname(get), p.posOf(get.Pos()), "no path reads the bit %d of %d", i, size)
			}
		}
		addr := mk("alloc", "bits")
		addr.Typ = types.NewPointer(bt)
		// every index has its own bit
		bad := false
		for i := int64(0); i < size && !bad; i++ {
			if !idx[i] {
				continue
			}
			st := newState(bitsSim(p))
			shape(st, addr)
			readBit(st, addr, i, func(st *State, t *Term) {
				r.Count("bit histories", 1)
				a, _, known := valueOfBit(st, t)
				if !known || a == nil {
					r.Fail(fname(get), p.posOf(get.Pos()), "undecided: which bit is read for %d of %d: %s", i, size, short(t.String()))
					bad = true
					return
				}
				if k, dup := seen[a]; dup {
					r.Fail(fname(get), p.posOf(get.Pos()), "the same bit is read for %d and %d of %d", k, i, size)
					bad = true
				}
				seen[a] = i
				atomOf[i] = a
			})
		}
		// a bit that was set is read, the others stay
		for i := int64(0); i < size && !bad; i++ {
			if !idx[i] {
				continue
			}
			for _, b := range []bool{false, true} {
				b := b
				s := bitsSim(p)
				n := 0
				s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
					n++
					for _, j := range []int64{0, i - 65, i - 64, i - 1, i, i + 1, i + 64, i + 65, size - 1} {
						if j < 0 || j >= size || atomOf[j] == nil {
							continue
						}
						readBit(st, addr, j, func(st *State, t *Term) {
							r.Count("bit histories", 1)
							a, v, known := valueOfBit(st, t)
							switch {
							case !known:
								r.Fail(fname(set), p.posOf(set.Pos()), "undecided: the bit %d of %d after setting %d is %s", j, size, i, short(t.String()))
								bad = true
							case i == j && (a != nil || v != b):
								r.Fail(fname(set), p.posOf(set.Pos()), "the bit %d of %d is not what it was set to", j, size)
								bad = true
							case i != j && a != atomOf[j]:
								r.Fail(fname(set), p.posOf(set.Pos()), "setting the bit %d of %d changes the bit %d", i, size, j)
								bad = true
							}
						})
					}
				}
				s.Run(set, []*Term{addr, tInt(i), tBool(b)}, func(st *State) { shape(st, addr) })
				r.Sim(fname(set), s)
				if n == 0 && len(s.Errs) == 0 {
					r.Fail(fname(set), p.posOf(set.Pos()), "no path sets the bit %d of %d", i, size)
				}
			}
		}
		// counting: the first word that is not full is increased, the words before it are cleared
		wordsOf := func(st *State, v *Term) (ws []*Term, sz *Term) {
			if v.Op != "new" {
				return nil, nil
			}
			for _, kv := range v.Args {
				x := st.snapshot(kv.Args[0])
				switch {
				case x.Op == "list":
					ws = append(ws, x.Args...)
				case kv.Name == "size" || x == tInt(size) && size > 2:
					sz = x
				case x == tNil:
				default:
					ws = append(ws, x)
				}
			}
			return
		}
		var before []*Term
		s = bitsSim(p)
		s.OnPanic = func(st *State, pos tokenPos) { st.Kill() }
		n := 0
		var arg *Term
		pre := newState(s)
		shape(pre, addr)
		arg = pre.Load(addr, bt)
		before, _ = wordsOf(pre, arg)
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			n++
			r.Count("counting steps", 1)
			res := rets[0]
			if res.Op != "new" {
				res = st.Resolve(res)
			}
			after, sz := wordsOf(st, res)
			if sz != tInt(size) || len(after) != len(before) {
				st.Fail(pos, "counting %d bits gives %s", size, short(res.String()))
				return
			}
			full := func(w *Term) bool {
				for f, v := range st.facts {
					if f.Op == "bin" && f.Name == "<" && !v && f.Args[0] == w && f.Args[1].Op == "const" {
						return true
					}
					if f.Op == "bin" && f.Name == "==" && v && (f.Args[0] == w || f.Args[1] == w) {
						return true
					}
				}
				return false
			}
			k := 0
			for k < len(before) && full(before[k]) {
				k++
			}
			if k == len(before) {
				return
			}
			for i := range before {
				want := before[i]
				if i < k {
					want = tInt(0)
				} else if i == k {
					want = tBin(token.ADD, before[i], tInt(1), true)
				}
				if after[i] != want {
					st.Fail(pos, "counting %d bits: word %d becomes %s", size, i, short(after[i].String()))
					return
				}
			}
		}
		s.Run(inc, []*Term{arg}, func(st *State) {
			for k, v := range pre.Data {
				st.Data[k] = v
			}
		})
		r.Sim(fname(inc), s)
		if n == 0 && len(s.Errs) == 0 {
			r.Fail(fname(inc), p.posOf(inc.Pos()), "no path counts %d bits", size)
		}
	}
}

func newState(s *Sim) *State {
	return &State{sim: s, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, hav: map[*Term]*Term{}, Data: map[string]*Term{}}
}
