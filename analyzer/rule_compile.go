package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C35", "other", compileRule) }

// compileRule: compilation of the automaton fills every table for everything an evaluation can look up.
func compileRule(p *Prog, r *Report) {
	r.Explain("The compilation of the automaton is followed path by path on abstract state spaces (states appear while others are compiled, trees of conditions with one and two leaves, children of 0 to 3 patterns). When it ends without an error, every state has had each of its tables filled, and every leaf of every tree has had the remainder computed for every nullability of its child.")
	c := p.Type("relapse/auto", "compiler")
	a := p.Type("relapse/auto", "Auto")
	var top *ssa.Function
	for _, f := range p.funcsIn("relapse/auto") {
		if f.Parent() != nil || f.Signature.Results().Len() != 2 || !types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(a)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && types.Identical(al.Type(), types.NewPointer(a)) {
					top = f
				}
			}
		}
	}
	if top == nil {
		failAnchor("the function that makes an automaton")
	}
	r.guard(fname(top), func() { compileSpaces(p, r, c, a, top) })
	for _, fd := range structFields(a) {
		sl, ok := fd.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if _, ok := sl.Elem().Underlying().(*types.Map); ok {
			continue
		}
		r.Count("tables", 1)
		if k := autoField(p, fd.Name()); k == "" || k[0] == '?' {
			r.Fail("table:"+fd.Name(), p.posOf(fd.Pos()), "nothing that the compilation asks fills the table %s", fd.Name())
		}
	}
	r.Expect("tables", 4)
	r.Expect("state spaces", 4)
	r.Expect("compilations", 4)
	r.Expect("entries required", 60)
	r.Assume("What is put into the tables is what C07 and C34 establish; sets number their elements (C07); bits count and hold what they are given (C28).")
}

type compLeaf struct{ child, stack int64 }

type compSpace struct {
	name    string
	sizes   []int        // patterns of each state
	trees   [][]compLeaf // leaves of the tree of conditions of each state
	onTree  []int        // how many states there are after the tree of a state is made
	onRet   map[int64]int
	refused bool // has to be an error
}

func (sp compSpace) bound() int { return len(sp.sizes) }

func compileSpaces(p *Prog, r *Report, ct, at *types.Named, top *ssa.Function) {
	spaces := []compSpace{
		{name: "one state", sizes: []int{1}, trees: [][]compLeaf{{{0, 5}}}, onTree: []int{1}},
		{name: "states from trees", sizes: []int{1, 2, 0}, trees: [][]compLeaf{{{1, 0}, {2, 1}}, {{2, 2}}, {{2, 3}}}, onTree: []int{3, 3, 3}},
		{name: "states from remainders", sizes: []int{1, 2, 3, 1}, trees: [][]compLeaf{{{0, 0}, {1, 1}, {0, 2}}, {{2, 3}, {1, 4}}, {{2, 5}}, {{0, 6}, {2, 7}}}, onTree: []int{2, 2, 3, 3}, onRet: map[int64]int{1: 3, 5: 4}},
		{name: "a chain", sizes: []int{1, 1, 1, 1, 2}, trees: [][]compLeaf{{{1, 0}}, {{2, 1}}, {{3, 2}}, {{4, 3}}, {{4, 4}}}, onTree: []int{2, 3, 4, 5, 5}},
		{name: "no children to distinguish", sizes: []int{0, 0}, trees: [][]compLeaf{{{1, 0}}, {{1, 1}}}, onTree: []int{2, 2}},
		{name: "a later larger state", sizes: []int{3, 0, 2}, trees: [][]compLeaf{{{1, 3}, {0, 1}}, {{1, 0}}, {{0, 2}, {2, 4}}}, onTree: []int{2, 2, 3}, onRet: map[int64]int{0: 3}},
	}
	if r.Tier == "thorough" {
		spaces = append(spaces, compSpace{name: "four patterns", sizes: []int{4, 5}, trees: [][]compLeaf{{{0, 0}, {1, 1}}, {{1, 2}}}, onTree: []int{2, 2}})
	}
	node := p.Type("relapse/auto", "callNode")
	child, stack, why := leafFields(p, node)
	if why != "" {
		r.Fail(fname(top), p.posOf(top.Pos()), "undecided: %s", why)
		return
	}
	for _, sp := range spaces {
		compileSpace(p, r, ct, at, top, node, child, stack, sp)
	}
	big := compSpace{name: "too many patterns", sizes: []int{1, 70}, trees: [][]compLeaf{{{1, 0}}, {{0, 1}}}, onTree: []int{2, 2}, refused: true}
	compileSpace(p, r, ct, at, top, node, child, stack, big)
}

// leafFields finds the fields of a leaf: what is evaluated next, and what the remainder is looked up with.
func leafFields(p *Prog, node *types.Named) (child, stack, why string) {
	for _, f := range p.funcsIn("relapse/auto") {
		if f.Parent() != nil || f.Signature.Recv() == nil || named2(f.Signature.Recv().Type()) != node || f.Signature.Results().Len() != 3 {
			continue
		}
		s := &Sim{P: p, NoHavoc: true, Unroll: true, MaxDepth: 5, MaxState: 2000}
		s.Classify = func(st *State, c *Call) Action { return Pure }
		obj := sym("node")
		s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
			a, b := st.Resolve(rets[0]), st.Resolve(rets[1])
			if a.Op == "field" && b.Op == "field" && a.Args[0] == obj && b.Args[0] == obj {
				child, stack = a.Name, b.Name
			}
		}
		s.Run(f, []*Term{obj, sym("label")}, nil)
	}
	if child == "" || child == stack {
		why = "what a leaf of a tree of conditions holds"
	}
	return
}

func unbits(t *Term) *Term {
	if t == nil || t.Op == "bits" {
		return t
	}
	if t.Op == "new" {
		var x *Term
		for _, kv := range t.Args {
			f := kv.Args[0]
			if f.Op != "field" || f.Name != kv.Name || x != nil && f.Args[0] != x {
				return nil
			}
			x = f.Args[0]
		}
		if x != nil && x.Op == "bits" {
			return x
		}
	}
	return nil
}

func compileSpace(p *Prog, r *Report, ct, at *types.Named, top *ssa.Function, node *types.Named, child, stack string, sp compSpace) {
	r.Count("state spaces", 1)
	key := fname(top)
	obj := sym("compiler")
	bitsT := p.Type("relapse/sets", "Bits")
	roots := map[*ssa.Function]bool{}
	for _, f := range memoRoots(p, "relapse/auto", ct) {
		roots[f] = true
	}
	st0 := tFA(obj, "patterns")
	nodeT := types.NewPointer(node)
	var setList func(st *State, n int)
	states := make([]*Term, sp.bound())
	for i := range states {
		states[i] = listOf(sym(fmt.Sprintf("state%d", i)), sp.sizes[i])
	}
	setList = func(st *State, n int) {
		cur := st.mem[st0]
		if cur != nil && len(cur.Args) >= n {
			return
		}
		st.mem[st0] = mk("list", "", states[:n]...)
	}
	var tree func(st *State, k int, ls []compLeaf, name string) *Term
	tree = func(st *State, k int, ls []compLeaf, name string) *Term {
		o := mk("alloc", "tree:"+name)
		o.Typ = nodeT
		st.Data["tree:"+name] = o
		var subs []*Term
		if len(ls) > 1 {
			subs = []*Term{tree(st, k, ls[:1], name+"t"), tree(st, k, ls[1:], name+"e")}
		}
		i := 0
		for _, fd := range structFields(node) {
			ad := tFA(o, fd.Name())
			switch {
			case fd.Name() == child && len(ls) == 1:
				st.mem[ad] = tInt(ls[0].child)
			case fd.Name() == stack && len(ls) == 1:
				st.mem[ad] = tInt(ls[0].stack)
			case types.Identical(fd.Type(), nodeT):
				st.mem[ad] = tNil
				if len(ls) > 1 && i < 2 {
					st.mem[ad] = subs[i]
					i++
				}
			case isIntType(fd.Type()):
				st.mem[ad] = tInt(0)
			default:
				st.mem[ad] = tNil
				if len(ls) > 1 {
					c := sym("cond:" + name)
					st.mem[ad] = c
					st.Data["cond:"+name] = c
					st.assume(tEq(c, tNil), false)
				}
			}
		}
		return o
	}
	s := &Sim{P: p, NoHavoc: true, Unroll: true, Maps: true, Recursion: func(*ssa.Function) bool { return true }, MaxDepth: 60, MaxState: 60000}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == nil {
			return Pure
		}
		pos := c.Instr.Pos()
		rp := relPkgOf(c.Callee)
		res := c.Callee.Signature.Results()
		if rp == "relapse/sets" {
			recv := c.Callee.Signature.Recv()
			switch {
			case recv == nil && c.Callee.Name() == "NewBits":
				n, ok := intOf(c.Args[0])
				if !ok || n < 0 || n > 1000 {
					st.Fail(pos, "undecided: bits of %s", short(c.Args[0].String()))
					return Pure
				}
				c.Result = mk("bits", strings.Repeat("0", int(n)))
				return Pure
			case recv != nil && named2(recv.Type()) == bitsT:
				_, ptr := recv.Type().(*types.Pointer)
				b := c.Args[0]
				if ptr {
					b = st.Load(c.Args[0], bitsT)
				}
				b = unbits(st.snapshot(b))
				if b == nil {
					st.Fail(pos, "undecided: which bits %s is called on", c.Callee.Name())
					return Pure
				}
				v := []byte(b.Name)
				switch c.Callee.Name() {
				case "Get":
					i, ok := intOf(c.Args[1])
					if !ok || i < 0 || int(i) >= len(v) {
						st.Fail(pos, "undecided: the bit %s", short(c.Args[1].String()))
						return Pure
					}
					c.Result = tBool(v[i] == '1')
				case "Set":
					i, ok := intOf(c.Args[1])
					x := c.Args[2]
					if !ok || i < 0 || int(i) >= len(v) || !x.isConst() {
						st.Fail(pos, "undecided: the bit %s", short(c.Args[1].String()))
						return Pure
					}
					v[i] = '0'
					if x.isTrue() {
						v[i] = '1'
					}
					st.StoreTo(c.Args[0], mk("bits", string(v)), bitsT)
				case "Inc":
					i := 0
					for i < len(v) && v[i] == '1' {
						v[i] = '0'
						i++
					}
					if i == len(v) {
						st.Fail(pos, "the bits are counted beyond their number")
						return Pure
					}
					v[i] = '1'
					c.Result = mk("bits", string(v))
				case "Equal":
					o := unbits(st.snapshot(c.Args[1]))
					if o == nil {
						st.Fail(pos, "undecided: which bits are compared")
						return Pure
					}
					c.Result = tBool(o == b)
				default:
					st.Fail(pos, "undecided: %s of bits", c.Callee.Name())
				}
				return Pure
			case c.Callee.Name() == "Add" && len(c.Args) == 2:
				if b := unbits(st.snapshot(c.Args[1])); b != nil {
					c.Result = mk("bidx", b.Name)
				}
				return Pure
			}
			return Pure
		}
		if rp != "relapse/auto" {
			return Pure
		}
		if roots[c.Callee] {
			k, ok := intOf(c.Args[1])
			if !ok {
				st.Fail(pos, "undecided: %s is asked for %s", fname(c.Callee), short(c.Args[1].String()))
				return Pure
			}
			if len(c.Args) == 2 {
				if k < 0 || int(k) >= len(st.mem[st0].Args) {
					st.Fail(pos, "%s is asked for the state %d of %d", fname(c.Callee), k, len(st.mem[st0].Args))
					return Pure
				}
				st.Data[fmt.Sprint("did:", fname(c.Callee), ":", k)] = tInt(1)
				if types.Identical(res.At(0).Type(), nodeT) {
					setList(st, sp.onTree[k])
					c.Result = mk("tuple", "", tree(st, int(k), sp.trees[k], fmt.Sprint(k)), mk("derr", fmt.Sprint(k)))
				}
				return Pure
			}
			b := c.Args[2]
			if b.Op != "bidx" {
				st.Fail(pos, "undecided: the remainder is asked for %s", short(b.String()))
				return Pure
			}
			st.Data[fmt.Sprint("ret:", k, ":", b.Name)] = tInt(1)
			if n, ok := sp.onRet[k]; ok {
				setList(st, n)
			}
			return Pure
		}
		if res.Len() > 0 && types.Identical(res.At(0).Type(), types.NewPointer(ct)) {
			c.Result = mk("tuple", "", obj, tNil)
			return Pure
		}
		return Inline
	}
	oks, errs := 0, 0
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		if rets[1] != tNil {
			if v, k := st.IsNil(rets[1]); !k || !v {
				errs++
				if !sp.refused && rets[1].Op != "derr" {
					st.Fail(pos, "the state space %q is refused with %s", sp.name, short(rets[1].String()))
				}
				return
			}
		}
		oks++
		r.Count("compilations", 1)
		l := st.mem[st0]
		for k := range l.Args {
			for f := range roots {
				if len(f.Params) == 2 {
					r.Count("entries required", 1)
					if st.Data[fmt.Sprint("did:", fname(f), ":", k)] == nil {
						st.Fail(pos, "in the state space %q, %s is not computed for the state %d", sp.name, fname(f), k)
						return
					}
				}
			}
			for _, lf := range sp.trees[k] {
				n := sp.sizes[lf.child]
				if n > 8 {
					st.Fail(pos, "a child of %d patterns is compiled", n)
					return
				}
				for v := 0; v < 1<<uint(n); v++ {
					b := make([]byte, n)
					for i := range b {
						b[i] = '0' + byte(v>>uint(i)&1)
					}
					r.Count("entries required", 1)
					if st.Data[fmt.Sprint("ret:", lf.stack, ":", string(b))] == nil {
						st.Fail(pos, "in the state space %q, the remainder of the state %d is not computed for the nullability %q of its child %d", sp.name, k, b, lf.child)
						return
					}
				}
			}
		}
	}
	args := make([]*Term, len(top.Params))
	for i, a := range top.Params {
		args[i] = sym(a.Name())
	}
	s.Run(top, args, func(st *State) {
		st.Data["obj"] = obj
		setList(st, 1)
	})
	r.Sim(key+":"+sp.name, s)
	if oks+errs == 0 && len(s.Errs) == 0 {
		r.Fail(key, p.posOf(top.Pos()), "undecided: no path ends for the state space %q", sp.name)
	}
	if !sp.refused && oks == 0 && len(s.Errs) == 0 {
		r.Fail(key, p.posOf(top.Pos()), "no path compiles the state space %q", sp.name)
	}
}
