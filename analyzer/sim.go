package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Sim is an interprocedural, branch-correlated dataflow analysis in the style of property simulation (ESP,
// Das et al. 2002): the state at a program point is a finite abstraction (value-numbered terms of the live
// variables, known branch outcomes, and the state of a monitor automaton); loops are widened at their heads.
// Nothing is executed and no constraint solver is involved.
type Sim struct {
	P *Prog
	// Classify says what a call is. Default: inline repository functions, the rest is opaque.
	Classify func(st *State, c *Call) Action
	// OnEvent is called for calls classified as Event.
	OnEvent func(st *State, c *Call)
	// OnBranch is called for every feasible branch that is not decided by what is known.
	OnBranch func(st *State, cond *Term, taken bool)
	// OnStore is called for every store.
	OnStore func(st *State, addr, val *Term, instr ssa.Instruction)
	// Decide resolves branch conditions by assumption.
	Decide func(t *Term) (val, ok bool)
	// OnReturn is called when the analysed function returns.
	OnReturn func(st *State, rets []*Term, pos tokenPos)
	// OnPanic is called when a path ends in an explicit panic.
	OnPanic func(st *State, pos tokenPos)
	// OnNilDeref is called when a path accesses a field of a nil pointer.
	OnNilDeref func(st *State, x *Term, at ssa.Instruction)
	// OnBounds is called when a path reads outside a list of known length, which panics.
	OnBounds func(st *State, pos tokenPos, what string)
	// OnPart is called when a path reads a part of a list, from lo up to hi (the op "end" is the end of the list).
	OnPart func(st *State, x, lo, hi *Term, at ssa.Instruction)
	// OnWiden is called when a loop variable changes around a loop.
	OnWiden func(st *State, ph *ssa.Phi, old, new, widened *Term)
	// Havoc: opaque calls forget what is known about memory reachable from pointer arguments.
	NoHavoc bool
	// Unroll: loops are not widened; for functions whose loops are bounded by lists of known length.
	Unroll bool
	// WidenText: except for loops over the characters of a text.
	WidenText bool
	// Maps: maps made by the analysed code are tracked, and looking up a key splits on which entry it equals.
	Maps bool
	// Recursion allows inlining a function that is already on the stack.
	Recursion func(fn *ssa.Function) bool
	MaxState  int
	MaxDepth  int
	MaxTurns  int // of a loop that is unrolled
	// results
	States int
	Errs   []simErr
	seen   map[string]bool
	errSet map[string]bool
	abort  bool
}

type simErr struct {
	Msg   string
	Where string
	Trace []string
}

type Action int

const (
	Inline Action = iota
	Opaque
	Event
	Pure
)

type Call struct {
	Callee  *ssa.Function // nil for interface calls and unknown function values
	Method  *types.Func   // interface method
	Builtin string
	Recv    *Term // interface receiver, or unknown function value
	Args    []*Term
	Instr   ssa.CallInstruction
	Result  *Term // may be set by Classify/OnEvent
	Depth   int
	Recurse bool
	NRes    int
}

func (c *Call) Name() string {
	if c.Callee != nil {
		return fname(c.Callee)
	}
	if c.Method != nil {
		return "invoke:" + c.Method.Name()
	}
	return "dynamic"
}

type traceNode struct {
	msg  string
	prev *traceNode
	n    int
}

type frame struct {
	fn    *ssa.Function
	id    string
	block *ssa.BasicBlock
	pc    int
	env   map[ssa.Value]*Term
	call  ssa.CallInstruction // in the caller
	hdr   map[*ssa.BasicBlock]hdrSnap
}

type hdrSnap struct {
	mem  map[*Term]*Term
	phis map[ssa.Value]*Term
	n    int // turns, when loops are unrolled
}

type State struct {
	sim    *Sim
	frames []*frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	hav    map[*Term]*Term
	Mon    string
	Data   map[string]*Term // monitor registers, part of the state
	trace  *traceNode
	nfresh int
	dead   bool
}

// fresh numbers the objects created along a path, when loops are unrolled.
func (st *State) fresh() string {
	st.nfresh++
	return "#" + strconv.Itoa(st.nfresh)
}

func (s *Sim) iter(st *State) string {
	if !s.Unroll {
		return ""
	}
	return st.fresh()
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{sim: st.sim, Mon: st.Mon, trace: st.trace, nfresh: st.nfresh}
	n.frames = make([]*frame, len(st.frames))
	for i, f := range st.frames {
		nf := &frame{fn: f.fn, id: f.id, block: f.block, pc: f.pc, call: f.call}
		nf.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.hdr = make(map[*ssa.BasicBlock]hdrSnap, len(f.hdr))
		for k, v := range f.hdr {
			nf.hdr[k] = v
		}
		n.frames[i] = nf
	}
	n.mem = copyTT(st.mem)
	n.hav = copyTT(st.hav)
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.Data = make(map[string]*Term, len(st.Data))
	for k, v := range st.Data {
		n.Data[k] = v
	}
	return n
}

func copyTT(m map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (st *State) note(format string, a ...interface{}) {
	n := 0
	if st.trace != nil {
		n = st.trace.n
	}
	st.trace = &traceNode{msg: fmt.Sprintf(format, a...), prev: st.trace, n: n + 1}
}

func (st *State) traceList() []string {
	var out []string
	for t := st.trace; t != nil; t = t.prev {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 40 {
		out = append(out[:20:20], append([]string{"..."}, out[len(out)-19:]...)...)
	}
	return out
}

// Fail records a violation on this path and stops following it.
func (st *State) Fail(where tokenPos, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	st.dead = true
	s := st.sim
	pos := s.P.posOf(where)
	if s.errSet[msg] {
		return
	}
	s.errSet[msg] = true
	s.Errs = append(s.Errs, simErr{Msg: msg, Where: pos, Trace: st.traceList()})
}

// Kill silently stops following this path (infeasible by assumption).
func (st *State) Kill() { st.dead = true }

// Fact tells what is known about a condition.
func (st *State) Fact(t *Term) (bool, bool) {
	switch {
	case t.isTrue():
		return true, true
	case t.isFalse():
		return false, true
	}
	if t.Op == "un" && t.Name == "!" {
		v, ok := st.Fact(t.Args[0])
		return !v, ok
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	if st.sim.Decide != nil {
		if v, ok := st.sim.Decide(t); ok {
			return v, true
		}
	}
	if v, ok := st.byRange(t); ok {
		return v, true
	}
	if t.Op == "bin" && t.Name == "==" {
		for i := 0; i < 2; i++ {
			x, c := t.Args[i], t.Args[1-i]
			if x.Op == "gval" && c == tNil && (st.sim.P.errVars()[x.Name] || stdErrors[x.Name]) {
				return false, true
			}
			if c.Op == "const" || c == tNil || c.Op == "gval" {
				for f, v := range st.facts {
					if v && f.Op == "bin" && f.Name == "==" {
						var o *Term
						if f.Args[0] == x {
							o = f.Args[1]
						} else if f.Args[1] == x {
							o = f.Args[0]
						}
						if o == nil || o == c {
							continue
						}
						if o.Op == "const" && c.Op == "const" {
							return false, true
						}
						// error sentinels are non-nil and distinct
						if c == tNil && (o.Op == "gval" || o.Op == "const") || o == tNil && (c.Op == "gval" || c.Op == "const") {
							return false, true
						}
					}
				}
			}
		}
	}
	return false, false
}

// byRange decides a comparison with a number from others of the same term.
func (st *State) byRange(t *Term) (v, ok bool) {
	if t.Op != "bin" || len(t.Args) != 2 || t.Name != "==" && t.Name != "<" {
		return false, false
	}
	x, c, left := t.Args[0], t.Args[1], false
	n, isC := intOf(c)
	if !isC {
		x, c, left = c, x, true
		if n, isC = intOf(c); !isC {
			return false, false
		}
	}
	const inf = 1 << 62
	lo, hi := int64(-inf), int64(inf)
	differs := false
	for f, holds := range st.facts {
		if f.Op != "bin" || len(f.Args) != 2 || f.Name != "==" && f.Name != "<" || f.Args[0] != x && f.Args[1] != x {
			continue
		}
		other, xLeft := f.Args[1], true
		if f.Args[1] == x {
			other, xLeft = f.Args[0], false
		}
		k, ok := intOf(other)
		if !ok {
			continue
		}
		switch {
		case f.Name == "==" && holds:
			lo, hi = max(lo, k), min(hi, k)
		case f.Name == "==":
			differs = differs || k == n
		case xLeft == holds && holds: // x < k
			hi = min(hi, k-1)
		case xLeft: // !(x < k)
			lo = max(lo, k)
		case holds: // k < x
			lo = max(lo, k+1)
		default: // !(k < x)
			hi = min(hi, k)
		}
	}
	switch {
	case t.Name == "==":
		if lo > n || hi < n || differs {
			return false, true
		}
		return true, lo == n && hi == n
	case left: // n < x
		return lo > n, lo > n || hi <= n
	default: // x < n
		return hi < n, hi < n || lo >= n
	}
}

func (st *State) assume(t *Term, v bool) {
	if t.Op == "un" && t.Name == "!" {
		st.assume(t.Args[0], !v)
		return
	}
	if t.isConst() {
		return
	}
	st.facts[t] = v
}

// NonNil: is the term known to be (non-)nil here.
func (st *State) IsNil(t *Term) (isNil, known bool) {
	if t == tNil {
		return true, true
	}
	if definitelyNonNil(t) {
		return false, true
	}
	if t.Op == "gval" {
		return false, true // package level error sentinels
	}
	return st.Fact(tEq(t, tNil))
}

func rootOf(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return a
}

func hasPrefix(a, p *Term) bool {
	for {
		if a == p {
			return true
		}
		if a.Op != "fa" && a.Op != "ia" {
			return false
		}
		a = a.Args[0]
	}
}

func tFA(base *Term, name string) *Term {
	base = strip(base)
	return mk("fa", name, base)
}

func (st *State) initial(addr *Term) *Term {
	if h, ok := st.hav[rootOf(addr)]; ok {
		return mk("hload", "", addr, h)
	}
	switch addr.Op {
	case "fa":
		b := addr.Args[0]
		if b.Op == "fa" || b.Op == "ia" {
			return tField(st.initial(b), addr.Name)
		}
		return tField(b, addr.Name)
	case "ia":
		b := addr.Args[0]
		if b.Op == "fa" {
			return tIndex(st.initial(b), addr.Args[1])
		}
		return tIndex(b, addr.Args[1])
	case "glob":
		return mk("gval", addr.Name)
	}
	return mk("deref", "", addr)
}

// Load reads an address of the given type.
func (st *State) Load(addr *Term, typ types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	root := rootOf(addr)
	if u, ok := typ.Underlying().(*types.Struct); ok {
		touched := root.Op == "alloc"
		if !touched {
			for a := range st.mem {
				if a != addr && hasPrefix(a, addr) {
					touched = true
					break
				}
			}
		}
		if touched {
			// the whole struct may have been stored as an opaque value
			kvs := []*Term{}
			for i := 0; i < u.NumFields(); i++ {
				kvs = append(kvs, mk("kv", u.Field(i).Name(), st.Load(tFA(addr, u.Field(i).Name()), u.Field(i).Type())))
			}
			return mk("new", typeKey(typ), kvs...)
		}
		return st.initialUnder(addr)
	}
	if u, ok := typ.Underlying().(*types.Array); ok && root.Op == "alloc" {
		if u.Len() <= 64 {
			es := []*Term{}
			for i := int64(0); i < u.Len(); i++ {
				es = append(es, st.Load(mk("ia", "", addr, tInt(i)), u.Elem()))
			}
			return mk("list", "", es...)
		}
	}
	// a field of a struct that was stored as an opaque whole
	for p := addr; p.Op == "fa"; p = p.Args[0] {
		if v, ok := st.mem[p.Args[0]]; ok {
			return tField(v, p.Name)
		}
	}
	if root.Op == "alloc" || root.Op == "makeslice" {
		if _, ok := st.hav[root]; !ok {
			return zeroOf(typ)
		}
	}
	return st.initial(addr)
}

func (st *State) initialUnder(addr *Term) *Term {
	for p := addr; p.Op == "fa"; p = p.Args[0] {
		if v, ok := st.mem[p.Args[0]]; ok && p == addr {
			return tField(v, p.Name)
		}
	}
	return st.initial(addr)
}

func (st *State) StoreTo(addr, val *Term, typ types.Type) {
	if u, ok := typ.Underlying().(*types.Struct); ok {
		for a := range st.mem {
			if a != addr && hasPrefix(a, addr) {
				delete(st.mem, a)
			}
		}
		delete(st.mem, addr)
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			st.StoreTo(tFA(addr, n), tField(val, n), u.Field(i).Type())
		}
		return
	}
	st.mem[addr] = val
	// a store through one pointer may hit the same field of another object that is not a fresh local one
	if addr.Op == "fa" && rootOf(addr).Op != "alloc" {
		for a := range st.mem {
			if a != addr && a.Op == "fa" && a.Name == addr.Name && rootOf(a).Op != "alloc" && rootOf(a) != rootOf(addr) {
				st.mem[a] = mk("maybe", "", a, val)
			}
		}
	}
}

// Resolve replaces pointers to freshly built objects by their contents.
func (st *State) Resolve(t *Term) *Term { return st.resolve(t, map[*Term]bool{}, 0) }

func (st *State) resolve(t *Term, busy map[*Term]bool, d int) *Term {
	if t == nil || d > 20 || busy[t] {
		return t
	}
	switch t.Op {
	case "const", "nil", "param", "sym", "func", "gval", "glob":
		return t
	}
	if t.Op == "makeslice" {
		if n, ok := intOf(t.Args[0]); ok && n >= 0 && n <= 64 && t.Typ != nil {
			es := make([]*Term, n)
			for i := range es {
				es[i] = st.resolve(st.Load(mk("ia", "", t, tInt(int64(i))), t.Typ.Underlying().(*types.Slice).Elem()), busy, d+1)
			}
			return mk("list", "", es...)
		}
	}
	if t.Op == "list" && st.sim.Unroll {
		es := make([]*Term, len(t.Args))
		for i := range es {
			e := t.Args[i]
			if v, ok := st.mem[mk("ia", "", t, tInt(int64(i)))]; ok {
				e = v
			}
			es[i] = st.resolve(e, busy, d+1)
		}
		return mk("list", "", es...)
	}
	if t.Op == "alloc" && t.Typ != nil {
		if _, hav := st.hav[t]; hav {
			return t
		}
		busy[t] = true
		defer delete(busy, t)
		pt, ok := t.Typ.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
			v := st.Load(t, pt.Elem())
			if v.Op == "new" {
				args := make([]*Term, len(v.Args))
				for i, a := range v.Args {
					args[i] = st.resolve(a, busy, d+1)
				}
				return mk("new", v.Name, args...)
			}
			return v
		}
		v := st.Load(t, pt.Elem())
		return mk("ptr", "", st.resolve(v, busy, d+1))
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = st.resolve(a, busy, d+1)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "field":
		return tField(args[0], t.Name)
	case "index":
		return tIndex(args[0], args[1])
	}
	n := mk(t.Op, t.Name, args...)
	if n.Typ == nil {
		n.Typ = t.Typ
	}
	if n.Fn == nil {
		n.Fn = t.Fn
	}
	return n
}

// Run analyses fn with the given argument terms; nil arguments become parameters.
func (s *Sim) Run(fn *ssa.Function, args []*Term, setup func(*State)) {
	if s.MaxState == 0 {
		s.MaxState = 60000
	}
	if s.MaxDepth == 0 {
		s.MaxDepth = 10
	}
	if s.errSet == nil {
		s.errSet = map[string]bool{}
	}
	s.seen = map[string]bool{}
	if fn.Blocks == nil {
		failAnchor("no body for %s", fname(fn))
	}
	st := &State{sim: s, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, hav: map[*Term]*Term{}, Data: map[string]*Term{}}
	f := &frame{fn: fn, id: "", block: fn.Blocks[0], env: map[ssa.Value]*Term{}, hdr: map[*ssa.BasicBlock]hdrSnap{}}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			f.env[p] = args[i]
		} else {
			t := mk("param", p.Name())
			t.Typ = p.Type()
			f.env[p] = t
		}
	}
	for _, fv := range fn.FreeVars {
		f.env[fv] = sym("freevar:" + fv.Name())
	}
	st.frames = []*frame{f}
	if setup != nil {
		setup(st)
	}
	work := []*State{st}
	s.abort = false
	start := time.Now()
	for len(work) > 0 {
		if s.abort {
			return
		}
		if s.States%1000 == 0 && time.Since(start) > 200*time.Second {
			s.Errs = append(s.Errs, simErr{Msg: fmt.Sprintf("undecided: the enumeration of %s takes too long", fname(fn)), Where: s.P.posOf(fn.Pos())})
			return
		}
		st := work[len(work)-1]
		work = work[:len(work)-1]
		out := s.step(st)
		for _, n := range out {
			if n.dead || len(n.frames) == 0 {
				continue
			}
			k := s.key(n)
			if s.seen[k] {
				continue
			}
			s.seen[k] = true
			s.States++
			if os.Getenv("KD_TRACE") != "" && s.States%2000 == 0 {
				fmt.Fprintln(os.Stderr, s.States, len(work), n.top().fn.String(), n.top().block.Index, len(n.facts), len(n.mem), len(n.frames))
			}
			if len(s.seen) > s.MaxState {
				s.Errs = append(s.Errs, simErr{Msg: fmt.Sprintf("undecided: more than %d abstract states in %s", s.MaxState, fname(fn)), Where: s.P.posOf(fn.Pos())})
				return
			}
			work = append(work, n)
		}
	}
}

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
	// after[call] = values live after the instruction
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (p *Prog) liveness(fn *ssa.Function) *liveness {
	if p.live == nil {
		p.live = map[*ssa.Function]*liveness{}
	}
	if l, ok := p.live[fn]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.out[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					cur[v] = true
				}
				// phi uses are evaluated on the edge
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
						for _, in := range s.Instrs {
							if ph, ok := in.(*ssa.Phi); ok {
								if track(ph.Edges[pi]) {
									cur[ph.Edges[pi]] = true
								}
							} else {
								break
							}
						}
					}
				}
			}
			for v := range cur {
				if !l.out[b][v] {
					l.out[b][v] = true
					changed = true
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			// phis are live-in: they were assigned on the edge
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					used := false
					if rs := ph.Referrers(); rs != nil && len(*rs) > 0 {
						used = true
					}
					if used {
						cur[ph] = true
					}
				}
			}
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[fn] = l
	return l
}

func atomic(t *Term) bool {
	return t.Op == "res" || t.Op == "phi" || t.Op == "memphi" || t.Op == "hload"
}

// key prunes what is dead and renders the state.
func (s *Sim) key(st *State) string {
	liveTerms := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || liveTerms[t] {
			return
		}
		liveTerms[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	var b strings.Builder
	for i, f := range st.frames {
		lv := s.P.liveness(f.fn)
		live := lv.in[f.block]
		if i < len(st.frames)-1 || f.pc > 0 {
			// in the middle of a block: keep what is live out, plus what the rest of the block uses
			live = map[ssa.Value]bool{}
			for v := range lv.out[f.block] {
				live[v] = true
			}
			for k := f.pc; k < len(f.block.Instrs); k++ {
				for _, op := range f.block.Instrs[k].Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
		}
		names := []string{}
		for v, t := range f.env {
			if !live[v] {
				delete(f.env, v)
				continue
			}
			mark(t)
			names = append(names, v.Name()+"="+strconv.Itoa(t.id))
		}
		sort.Strings(names)
		fmt.Fprintf(&b, "%s@%s:%d:%d{%s}", f.id, f.fn.Name(), f.block.Index, f.pc, strings.Join(names, ","))
	}
	// registers of the monitor
	ks := make([]string, 0)
	for k, t := range st.Data {
		if t == nil {
			continue
		}
		mark(t)
		ks = append(ks, k+"="+strconv.Itoa(t.id))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	// memory: drop unreachable local objects
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			r := rootOf(a)
			if r.Op == "alloc" && !liveTerms[r] {
				continue
			}
			if !liveTerms[v] || !liveTerms[a] {
				mark(v)
				mark(a)
				changed = true
			}
		}
	}
	ms := []string{}
	for a, v := range st.mem {
		r := rootOf(a)
		if r.Op == "alloc" && !liveTerms[r] {
			delete(st.mem, a)
			continue
		}
		ms = append(ms, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ms)
	b.WriteString("|" + strings.Join(ms, ","))
	hs := []string{}
	for a, v := range st.hav {
		hs = append(hs, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(hs)
	b.WriteString("|" + strings.Join(hs, ","))
	fs := []string{}
	for t, v := range st.facts {
		deadAtom := t.any(func(x *Term) bool { return atomic(x) && !liveTerms[x] })
		if deadAtom {
			delete(st.facts, t)
			continue
		}
		fs = append(fs, strconv.Itoa(t.id)+"="+strconv.FormatBool(v))
	}
	sort.Strings(fs)
	b.WriteString("|" + strings.Join(fs, ","))
	b.WriteString("|" + st.Mon)
	return b.String()
}

func (st *State) val(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		t := mk("func", fname(v))
		t.Fn = v
		return t
	case *ssa.Global:
		t := mk("glob", rel(v.Pkg.Pkg.Path())+"."+v.Name())
		t.Typ = v.Type()
		return t
	case *ssa.Builtin:
		return mk("func", "builtin:"+v.Name())
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	t := sym("undef:" + v.Name())
	return t
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (st *State) killFacts(atom *Term) {
	for f := range st.facts {
		if f.mentions(atom) {
			delete(st.facts, f)
		}
	}
}

// enter moves the top frame along an edge.
func (st *State) enter(pred, succ *ssa.BasicBlock) {
	f := st.top()
	pi := -1
	for i, p := range succ.Preds {
		if p == pred {
			pi = i
			break
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = st.val(ph.Edges[pi])
	}
	if isLoopHeader(succ) && st.sim.unrolls(succ) {
		n := 0
		if succ.Dominates(pred) {
			n = f.hdr[succ].n + 1
		}
		f.hdr[succ] = hdrSnap{n: n}
		most := st.sim.MaxTurns
		if most == 0 {
			most = 12
		}
		if n > most {
			st.Fail(f.fn.Pos(), "undecided: a loop in %s is not bounded by a list of known length", fname(f.fn))
			st.sim.abort = true
		}
	}
	if isLoopHeader(succ) && !st.sim.unrolls(succ) {
		back := succ.Dominates(pred)
		snap, have := f.hdr[succ]
		if back && have {
			for ph, v := range vals {
				old := snap.phis[ph]
				if old != v {
					w := mk("phi", f.id+"/"+f.fn.Name()+"."+ph.Name())
					w.Typ = ph.Type()
					if st.sim.OnWiden != nil {
						st.sim.OnWiden(st, ph, old, v, w)
					}
					st.killFacts(w)
					vals[ph] = w
				}
			}
			for a, v := range st.mem {
				if old, ok := snap.mem[a]; ok && old == v {
					continue
				} else if !ok && rootOf(a).Op == "alloc" && !allocIn(snap.mem, rootOf(a)) {
					continue // object allocated in the loop
				}
				w := mk("memphi", f.id+"/"+f.fn.Name()+"."+strconv.Itoa(succ.Index), a)
				st.killFacts(w)
				st.mem[a] = w
			}
		}
		ns := hdrSnap{mem: copyTT(st.mem), phis: map[ssa.Value]*Term{}}
		for ph, v := range vals {
			ns.phis[ph] = v
		}
		f.hdr[succ] = ns
	}
	for ph, v := range vals {
		f.env[ph] = v
	}
	f.block = succ
	f.pc = 0
	for f.pc < len(succ.Instrs) {
		if _, ok := succ.Instrs[f.pc].(*ssa.Phi); !ok {
			break
		}
		f.pc++
	}
}

func (s *Sim) unrolls(header *ssa.BasicBlock) bool {
	if s.Unroll && s.WidenText {
		for _, in := range header.Instrs {
			if n, ok := in.(*ssa.Next); ok && n.IsString {
				return false
			}
		}
	}
	return s.Unroll
}

func allocIn(mem map[*Term]*Term, root *Term) bool {
	for a := range mem {
		if rootOf(a) == root {
			return true
		}
	}
	return false
}

// step runs a state to the next block boundary, call or return and yields the successors.
func (s *Sim) step(st *State) []*State {
	for {
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			return nil
		}
		in := f.block.Instrs[f.pc]
		f.pc++
		switch in := in.(type) {
		case *ssa.If:
			c := st.val(in.Cond)
			if v, ok := st.Fact(c); ok {
				b := f.block
				t := b.Succs[1]
				if v {
					t = b.Succs[0]
				}
				st.enter(b, t)
				return []*State{st}
			}
			var out []*State
			b := f.block
			for i := 0; i < 2; i++ {
				n := st.clone()
				taken := i == 0
				n.assume(c, taken)
				if s.OnBranch != nil {
					s.OnBranch(n, c, taken)
				}
				if n.dead {
					continue
				}
				n.note("%s: %s is %v", s.P.posOf(condPos(in)), short(c.String()), taken)
				n.enter(b, b.Succs[i])
				out = append(out, n)
			}
			return out
		case *ssa.Jump:
			st.enter(f.block, f.block.Succs[0])
			return []*State{st}
		case *ssa.Return:
			rets := make([]*Term, len(in.Results))
			for i, r := range in.Results {
				rets[i] = st.val(r)
			}
			if len(st.frames) == 1 {
				if s.OnReturn != nil {
					s.OnReturn(st, rets, in.Pos())
				}
				return nil
			}
			call := f.call
			st.frames = st.frames[:len(st.frames)-1]
			if v := call.Value(); v != nil {
				switch len(rets) {
				case 0:
				case 1:
					st.top().env[v] = rets[0]
				default:
					st.top().env[v] = mk("tuple", "", rets...)
				}
			}
			return []*State{st}
		case *ssa.Panic:
			if s.OnPanic != nil {
				s.OnPanic(st, in.Pos())
			}
			return nil
		case *ssa.Store:
			addr, v := st.val(in.Addr), st.val(in.Val)
			if s.OnStore != nil {
				s.OnStore(st, addr, v, in)
				if st.dead {
					return nil
				}
			}
			st.StoreTo(addr, v, in.Val.Type())
		case *ssa.MapUpdate:
			if s.OnStore != nil {
				s.OnStore(st, mk("mapaddr", "", st.val(in.Map), st.val(in.Key)), st.val(in.Value), in)
			}
			m, key := st.val(in.Map), st.val(in.Key)
			if s.Maps && m == tNil {
				st.Fail(in.Pos(), "an entry is added to a nil map")
				return nil
			}
			if s.Maps && isTrackedMap(m) {
				_, exact := st.mem[mk("mapaddr", "", m, key)]
				var open []*Term
				for _, k := range st.mapKeys(m) {
					if exact {
						break
					}
					if eq, ok := st.Fact(tEq(k, key)); !ok {
						open = append(open, k)
					} else if eq {
						key, open = k, nil
						break
					}
				}
				if len(open) > 0 {
					// split on which entry is written; the update is taken again when it is known
					var out []*State
					for i := 0; i <= len(open); i++ {
						n := st.clone()
						for j, k := range open {
							if !n.dead {
								n.assume(tEq(k, key), j == i)
							}
						}
						if !n.dead {
							n.top().pc--
							out = append(out, n)
						}
					}
					return out
				}
			}
			st.mem[mk("mapaddr", "", m, key)] = st.val(in.Value)
		case *ssa.Call:
			out, done := s.call(st, in)
			if done {
				return out
			}
			if st.dead {
				return nil
			}
		case *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Select, *ssa.Send:
			switch in.(type) {
			case *ssa.RunDefers:
			default:
				st.Fail(in.Pos(), "undecided: %T in %s", in, fname(f.fn))
				return nil
			}
		case *ssa.DebugRef:
		case *ssa.Lookup:
			if out, ok := s.lookup(st, in); ok {
				return out
			}
			f.env[in] = s.value(st, in)
		case *ssa.Next:
			if out, ok := s.next(st, in); ok {
				return out
			}
			f.env[in] = s.value(st, in)
		case ssa.Value:
			f.env[in] = s.value(st, in)
			if st.dead {
				return nil
			}
		}
	}
}

func short(s string) string {
	if len(s) > 160 {
		return s[:157] + "..."
	}
	return s
}

func condPos(in *ssa.If) tokenPos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	if i, ok := in.Cond.(ssa.Instruction); ok {
		for _, op := range i.Operands(nil) {
			if *op != nil && (*op).Pos().IsValid() {
				return (*op).Pos()
			}
		}
	}
	return in.Block().Parent().Pos()
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (s *Sim) value(st *State, v ssa.Value) *Term {
	f := st.top()
	switch v := v.(type) {
	case *ssa.Alloc:
		nm := f.id + "/" + f.fn.Name() + "." + v.Name()
		if s.Unroll {
			nm += st.fresh()
		}
		t := mk("alloc", nm)
		t.Typ = v.Type()
		for a := range st.mem {
			if rootOf(a) == t {
				delete(st.mem, a)
			}
		}
		delete(st.hav, t)
		return t
	case *ssa.FieldAddr:
		u := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		x := strip(st.val(v.X))
		if n, ok := st.IsNil(x); ok && n {
			// the access panics: this path ends here
			st.dead = true
			if s.OnNilDeref != nil {
				s.OnNilDeref(st, x, v)
			}
			return tNil
		} else if !ok {
			st.assume(tEq(x, tNil), false)
		}
		return tFA(x, u.Field(v.Field).Name())
	case *ssa.Field:
		u := v.X.Type().Underlying().(*types.Struct)
		return tField(st.val(v.X), u.Field(v.Field).Name())
	case *ssa.IndexAddr:
		if s.OnBounds != nil {
			if n, ok := knownLen(st.val(v.X)); ok {
				if i, isC := intOf(st.val(v.Index)); isC && (i < 0 || i >= n) {
					s.OnBounds(st, v.Pos(), fmt.Sprintf("position %d of %d", i, n))
					st.dead = true
				}
			}
		}
		if s.OnPart != nil {
			i := st.val(v.Index)
			s.OnPart(st, st.val(v.X), i, tBin(token.ADD, i, tInt(1), true), v)
		}
		return mk("ia", "", st.val(v.X), st.val(v.Index))
	case *ssa.Index:
		return tIndex(st.val(v.X), st.val(v.Index))
	case *ssa.Lookup:
		m, k := st.val(v.X), st.val(v.Index)
		if _, ok := v.X.Type().Underlying().(*types.Map); !ok {
			return tIndex(m, k)
		}
		var val *Term
		if e, ok := st.mem[mk("mapaddr", "", m, k)]; ok {
			val = e
			if v.CommaOk {
				return mk("tuple", "", val, tBool(true))
			}
			return val
		}
		val = mk("lookup", "", m, k)
		if v.CommaOk {
			return mk("tuple", "", val, mk("haskey", "", m, k))
		}
		return val
	case *ssa.UnOp:
		x := st.val(v.X)
		switch v.Op {
		case token.MUL:
			t := st.Load(x, v.Type())
			return t
		case token.NOT:
			return tNot(x)
		case token.SUB:
			if i, ok := intOf(x); ok {
				return tInt(-i)
			}
			return mk("un", "-", x)
		case token.XOR:
			return mk("un", "^", x)
		}
		return mk("un", v.Op.String(), x)
	case *ssa.BinOp:
		return tBin(v.Op, st.val(v.X), st.val(v.Y), isIntType(v.X.Type()))
	case *ssa.ChangeType:
		return st.val(v.X)
	case *ssa.ChangeInterface:
		return st.val(v.X)
	case *ssa.Convert:
		x := st.val(v.X)
		if x.Op == "const" && isIntType(v.Type()) && isIntType(v.X.Type()) {
			return x
		}
		if types.Identical(v.X.Type().Underlying(), v.Type().Underlying()) {
			return x
		}
		return mk("conv", typeKey(v.Type().Underlying()), x)
	case *ssa.MakeInterface:
		x := st.val(v.X)
		if c, ok := v.X.(*ssa.Const); ok && c.Value == nil {
			x = tNil
		}
		t := mk("iface", typeKey(v.X.Type()), x)
		t.Typ = v.X.Type()
		return t
	case *ssa.TypeAssert:
		x := st.val(v.X)
		k := typeKey(v.AssertedType)
		var as, is *Term
		if x.Op == "iface" {
			if _, isI := v.AssertedType.Underlying().(*types.Interface); !isI {
				if x.Name == k {
					as, is = x.Args[0], tBool(true)
				} else {
					as, is = zeroOf(v.AssertedType), tBool(false)
				}
			} else if it := v.AssertedType.Underlying().(*types.Interface); x.Typ != nil {
				if types.Implements(x.Typ, it) {
					as, is = x, tBool(true)
				} else if v.CommaOk {
					as, is = tNil, tBool(false)
				}
			}
		}
		if as == nil {
			if x == tNil {
				as, is = zeroOf(v.AssertedType), tBool(false)
			} else {
				as, is = mk("as", k, x), mk("istype", k, x)
				as.Typ = v.AssertedType
			}
		}
		if v.CommaOk {
			return mk("tuple", "", as, is)
		}
		if is.isFalse() {
			if s.OnPanic != nil {
				s.OnPanic(st, v.Pos())
			}
			st.dead = true
		}
		return as
	case *ssa.Extract:
		t := st.val(v.Tuple)
		if t.Op == "tuple" && v.Index < len(t.Args) {
			return t.Args[v.Index]
		}
		return mk("extract", strconv.Itoa(v.Index), t)
	case *ssa.Slice:
		x := st.val(v.X)
		// slicing a local array: take a snapshot of its elements
		if x.Op == "alloc" && v.Max == nil {
			if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() <= 64 {
					lo, hi, ok1, ok2 := int64(0), at.Len(), true, true
					if v.Low != nil {
						lo, ok1 = intOf(st.val(v.Low))
					}
					if v.High != nil {
						hi, ok2 = intOf(st.val(v.High))
					}
					if ok1 && ok2 && lo >= 0 && lo <= hi && hi <= at.Len() {
						l := st.Load(x, pt.Elem())
						if l.Op == "list" && int64(len(l.Args)) == at.Len() {
							return mk("list", "", l.Args[lo:hi]...)
						}
						if lo == 0 && hi == at.Len() {
							return l
						}
						if lo == hi {
							return mk("list", "")
						}
					}
				}
			}
		}
		lo, hi := tInt(0), mk("end", "")
		if v.Low != nil {
			lo = st.val(v.Low)
		}
		if v.High != nil {
			hi = st.val(v.High)
		}
		if s.OnBounds != nil {
			if n, ok := knownLen(x); ok {
				l, h, ok1, ok2 := int64(0), n, true, true
				if v.Low != nil {
					l, ok1 = intOf(lo)
				}
				if v.High != nil {
					h, ok2 = intOf(hi)
				}
				if ok1 && ok2 && (l < 0 || h < l || h > n) {
					s.OnBounds(st, v.Pos(), fmt.Sprintf("from %d to %d of %d", l, h, n))
					st.dead = true
				}
			}
		}
		if s.OnPart != nil {
			s.OnPart(st, x, lo, hi, v)
		}
		if s.Unroll && (x.Op == "list" || x.Op == "makeslice") {
			x = st.snapshot(x)
		}
		if x == tNil {
			if h, ok := intOf(hi); (v.High == nil || ok && h == 0) && lo == tInt(0) {
				return tNil
			}
		}
		if x.Op == "list" {
			l, ok1 := intOf(lo)
			h := int64(len(x.Args))
			ok2 := true
			if v.High != nil {
				h, ok2 = intOf(hi)
			}
			if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(x.Args) {
				return mk("list", "", x.Args[l:h]...)
			}
		}
		if l, ok := intOf(lo); ok && l == 0 && v.High == nil {
			return x
		}
		if x.Op == "slice" && v.High == nil && x.Args[2].Op == "end" {
			// x[a:][b:] = x[a+b:]
			return mk("slice", "", x.Args[0], tBin(token.ADD, x.Args[1], lo, true), hi)
		}
		return mk("slice", "", x, lo, hi)
	case *ssa.MakeSlice:
		nm := f.id + "/" + f.fn.Name() + "." + v.Name()
		if s.Unroll {
			nm += st.fresh()
		}
		t := mk("makeslice", nm, st.val(v.Len))
		t.Typ = v.Type()
		for a := range st.mem {
			if rootOf(a) == t {
				delete(st.mem, a)
			}
		}
		if n, ok := intOf(t.Args[0]); ok && n == 0 {
			return mk("list", "")
		}
		return t
	case *ssa.MakeMap:
		if s.Maps {
			return mk("alloc", f.id+"/"+f.fn.Name()+"."+v.Name()+st.fresh(), mk("map", ""))
		}
		return mk("alloc", f.id+"/"+f.fn.Name()+"."+v.Name())
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		bs := make([]*Term, len(v.Bindings))
		for i, b := range v.Bindings {
			bs[i] = st.val(b)
		}
		t := mk("closure", fname(fn), bs...)
		t.Fn = fn
		return t
	case *ssa.Range:
		m := st.val(v.X)
		if s.Maps && isTrackedMap(m) {
			// the entries that are still to come, in any order
			it := mk("range", st.fresh(), m)
			st.mem[it] = mk("list", "", st.mapKeys(m)...)
			return it
		}
		return mk("range", "", m)
	case *ssa.Next:
		it := st.val(v.Iter)
		r := mk("res", f.id+"/"+f.fn.Name()+"."+v.Name())
		st.killFacts(r)
		if v.IsString {
			return mk("tuple", "", mk("hasnext", "", r), mk("rkey", "", r), mk("rval", "", r))
		}
		_ = it
		return mk("tuple", "", mk("hasnext", "", r), mk("rkey", "", r, it), mk("rval", "", r, it))
	case *ssa.SliceToArrayPointer, *ssa.MakeChan, *ssa.MultiConvert:
		return mk("res", f.id+"/"+f.fn.Name()+"."+v.Name())
	}
	return mk("res", f.id+"/"+f.fn.Name()+"."+v.Name())
}

func isTrackedMap(t *Term) bool {
	return t.Op == "alloc" && len(t.Args) == 1 && t.Args[0].Op == "map"
}

// lookup splits on which entry of a tracked map the key equals.
func (s *Sim) lookup(st *State, v *ssa.Lookup) ([]*State, bool) {
	if !s.Maps {
		return nil, false
	}
	m, k := st.val(v.X), st.val(v.Index)
	mt, isMap := v.X.Type().Underlying().(*types.Map)
	if !isMap || !isTrackedMap(m) && m != tNil {
		return nil, false
	}
	set := func(st *State, val *Term, has bool) {
		if v.CommaOk {
			val = mk("tuple", "", val, tBool(has))
		}
		st.top().env[v] = val
	}
	var open []*Term
	for a, e := range st.mem {
		if a.Op != "mapaddr" || a.Args[0] != m {
			continue
		}
		if a.Args[1] == k {
			set(st, e, true)
			return []*State{st}, true
		}
		if eq, ok := st.Fact(tEq(a.Args[1], k)); ok && eq {
			// the keys of a map are different
			for b := range st.mem {
				if b.Op == "mapaddr" && b.Args[0] == m && b != a {
					st.assume(tEq(b.Args[1], k), false)
				}
			}
			set(st, e, true)
			return []*State{st}, true
		} else if !ok {
			open = append(open, a)
		}
	}
	if len(open) == 0 {
		set(st, zeroOf(mt.Elem()), false)
		return []*State{st}, true
	}
	sort.Slice(open, func(i, j int) bool { return open[i].id < open[j].id })
	var out []*State
	for i := 0; i <= len(open); i++ {
		n := st.clone()
		for j, a := range open {
			if n.dead {
				break
			}
			c := tEq(a.Args[1], k)
			n.assume(c, j == i)
			if s.OnBranch != nil {
				s.OnBranch(n, c, j == i)
			}
		}
		if n.dead {
			continue
		}
		if i < len(open) {
			n.note("%s: the key is %s", s.P.posOf(v.Pos()), short(open[i].Args[1].String()))
		}
		if i < len(open) {
			set(n, st.mem[open[i]], true)
		} else {
			set(n, zeroOf(mt.Elem()), false)
		}
		out = append(out, n)
	}
	return out, true
}

func (st *State) mapKeys(m *Term) []*Term {
	var ks []*Term
	for a := range st.mem {
		if a.Op == "mapaddr" && a.Args[0] == m {
			ks = append(ks, a.Args[1])
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// next splits on which entry of a tracked map comes next.
func (s *Sim) next(st *State, v *ssa.Next) ([]*State, bool) {
	it := st.val(v.Iter)
	if v.IsString || it.Op != "range" || it.Name == "" {
		return nil, false
	}
	m := it.Args[0]
	left := st.mem[it]
	var todo []*Term
	for _, k := range left.Args {
		if _, ok := st.mem[mk("mapaddr", "", m, k)]; ok {
			todo = append(todo, k)
		}
	}
	var out []*State
	for i, k := range todo {
		n := st.clone()
		rest := append(append([]*Term{}, todo[:i]...), todo[i+1:]...)
		n.mem[it] = mk("list", "", rest...)
		n.note("%s: the next entry is %s", s.P.posOf(v.Pos()), short(k.String()))
		n.top().env[v] = mk("tuple", "", tBool(true), k, n.mem[mk("mapaddr", "", m, k)])
		out = append(out, n)
	}
	if len(todo) == 0 {
		delete(st.mem, it)
		st.top().env[v] = mk("tuple", "", tBool(false), tNil, tNil)
		out = append(out, st)
	}
	return out, true
}

// snapshot reads the current elements of a slice of known length.
func (st *State) snapshot(x *Term) *Term {
	n := int64(-1)
	if x.Op == "list" {
		n = int64(len(x.Args))
	} else if x.Op == "makeslice" {
		if k, ok := intOf(x.Args[0]); ok && k <= 64 {
			n = k
		}
	}
	if n < 0 {
		return x
	}
	es := make([]*Term, n)
	for i := range es {
		a := mk("ia", "", x, tInt(int64(i)))
		if v, ok := st.mem[a]; ok {
			es[i] = v
		} else if x.Op == "list" {
			es[i] = x.Args[i]
		} else if x.Typ != nil {
			es[i] = zeroOf(x.Typ.Underlying().(*types.Slice).Elem())
		} else {
			return x
		}
	}
	return mk("list", "", es...)
}

func (s *Sim) call(st *State, in *ssa.Call) ([]*State, bool) {
	f := st.top()
	com := in.Common()
	c := &Call{Instr: in, Depth: len(st.frames)}
	for _, a := range com.Args {
		c.Args = append(c.Args, st.val(a))
	}
	c.NRes = com.Signature().Results().Len()
	var free []*Term
	if com.IsInvoke() {
		c.Recv = st.val(com.Value)
		c.Method = com.Method
		// a known dynamic type resolves the call
		if c.Recv.Op == "iface" && c.Recv.Typ != nil {
			if callee := s.P.SSA.LookupMethod(c.Recv.Typ, com.Method.Pkg(), com.Method.Name()); callee != nil && inRepo(callee) && callee.Blocks != nil {
				c.Callee = callee
				c.Args = append([]*Term{c.Recv.Args[0]}, c.Args...)
				c.Method = nil
			}
		}
	} else if b, ok := com.Value.(*ssa.Builtin); ok {
		c.Builtin = b.Name()
		f.env[in] = s.builtin(st, in, c)
		return nil, false
	} else if callee := com.StaticCallee(); callee != nil {
		c.Callee = callee
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, st.val(b))
			}
		}
	} else {
		fv := st.val(com.Value)
		c.Recv = fv
		if (fv.Op == "closure" || fv.Op == "func") && fv.Fn != nil {
			c.Callee = fv.Fn
			free = fv.Args
		}
	}
	if c.Callee != nil {
		for _, fr := range st.frames {
			if fr.fn == c.Callee {
				c.Recurse = true
			}
		}
	}
	act := Inline
	if s.Classify != nil {
		act = s.Classify(st, c)
		if st.dead {
			return nil, true
		}
	}
	if act == Inline {
		if c.Callee == nil || c.Callee.Blocks == nil || !inRepo(c.Callee) || c.Recurse && (s.Recursion == nil || !s.Recursion(c.Callee)) || len(st.frames) >= s.MaxDepth {
			act = Opaque
		}
	}
	if act == Inline {
		nf := &frame{fn: c.Callee, id: f.id + "/" + strconv.Itoa(f.block.Index) + "." + strconv.Itoa(f.pc) + s.iter(st), block: c.Callee.Blocks[0], env: map[ssa.Value]*Term{}, call: in, hdr: map[*ssa.BasicBlock]hdrSnap{}}
		for i, p := range c.Callee.Params {
			if i < len(c.Args) {
				nf.env[p] = c.Args[i]
			}
		}
		for i, fv := range c.Callee.FreeVars {
			if i < len(free) {
				nf.env[fv] = free[i]
			}
		}
		st.frames = append(st.frames, nf)
		return []*State{st}, true
	}
	if act == Event {
		if s.OnEvent != nil {
			s.OnEvent(st, c)
		}
		if st.dead {
			return nil, true
		}
	}
	if c.Result != nil {
		f.env[in] = c.Result
		return nil, false
	}
	if act == Pure {
		args := c.Args
		if c.Method != nil {
			args = append([]*Term{c.Recv}, args...)
		}
		ras := make([]*Term, len(args))
		for i, a := range args {
			ras[i] = st.Resolve(a)
		}
		t := mk("call", c.Name(), ras...)
		if c.NRes > 1 {
			xs := []*Term{}
			for i := 0; i < c.NRes; i++ {
				xs = append(xs, mk("extract", strconv.Itoa(i), t))
			}
			t = mk("tuple", "", xs...)
		}
		f.env[in] = t
		return nil, false
	}
	if !s.NoHavoc {
		for _, a := range c.Args {
			s.havoc(st, a, in)
		}
		if c.Method != nil {
			s.havoc(st, c.Recv, in)
		}
	}
	f.env[in] = st.freshRes(in, c)
	return nil, false
}

func (st *State) freshRes(in *ssa.Call, c *Call) *Term {
	f := st.top()
	n := ""
	if c.Callee != nil {
		n = c.Callee.Name()
	} else if c.Method != nil {
		n = c.Method.Name()
	}
	r := mk("res", n+"@"+f.id+"/"+f.fn.Name()+"."+in.Name()+st.sim.iter(st))
	r.Typ = in.Type()
	r.Fn = c.Callee
	st.killFacts(r)
	if c.NRes > 1 {
		xs := []*Term{}
		for i := 0; i < c.NRes; i++ {
			xs = append(xs, mk("extract", strconv.Itoa(i), r))
		}
		return mk("tuple", "", xs...)
	}
	// well known constructors of errors never return nil
	if c.Callee != nil {
		switch c.Callee.String() {
		case "fmt.Errorf", "errors.New":
			return mk("call", c.Callee.String(), r)
		}
	}
	return r
}

func (s *Sim) havoc(st *State, a *Term, in *ssa.Call) {
	a = strip(a)
	switch a.Op {
	case "alloc", "param", "fa", "ia", "glob", "phi", "memphi", "makeslice":
	default:
		return
	}
	r := rootOf(a)
	touched := false
	for m := range st.mem {
		if hasPrefix(m, a) || rootOf(m) == a {
			touched = true
			delete(st.mem, m)
		}
	}
	if touched || r.Op != "alloc" {
		w := mk("res", "havoc@"+st.top().id+"/"+st.top().fn.Name()+"."+in.Name())
		st.killFacts(w)
		if a == r {
			st.hav[r] = w
		} else if touched {
			st.hav[r] = w
		}
	}
}

func (s *Sim) builtin(st *State, in *ssa.Call, c *Call) *Term {
	switch c.Builtin {
	case "len":
		if s.Maps && isTrackedMap(c.Args[0]) {
			return tInt(int64(len(st.mapKeys(c.Args[0]))))
		}
		return tLen(c.Args[0])
	case "cap":
		return mk("cap", "", c.Args[0])
	case "append":
		if s.OnStore != nil {
			s.OnStore(st, mk("appendaddr", "", c.Args[0]), c.Args[1], in)
		}
		if s.Unroll {
			more := c.Args[1]
			if sl, ok := in.Call.Args[1].(*ssa.Slice); ok {
				if a, ok := sl.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
					return tAppend(st.snapshot(c.Args[0]), more)
				}
			}
			return tAppend(st.snapshot(c.Args[0]), st.snapshot(more))
		}
		return tAppend(c.Args[0], c.Args[1])
	case "copy":
		if s.OnStore != nil {
			s.OnStore(st, mk("copyaddr", "", c.Args[0]), c.Args[1], in)
		}
		if s.Unroll {
			src, dst := st.snapshot(c.Args[1]), st.snapshot(c.Args[0])
			if src.Op == "list" && dst.Op == "list" {
				n := len(src.Args)
				if len(dst.Args) < n {
					n = len(dst.Args)
				}
				for i := 0; i < n; i++ {
					st.mem[mk("ia", "", c.Args[0], tInt(int64(i)))] = src.Args[i]
				}
				return tInt(int64(n))
			}
		}
		st.mem[mk("copyof", "", c.Args[0])] = c.Args[1]
		return mk("res", "copy@"+st.top().id+"/"+st.top().fn.Name()+"."+in.Name())
	case "delete":
		if s.Maps && isTrackedMap(c.Args[0]) {
			for a := range st.mem {
				if a.Op != "mapaddr" || a.Args[0] != c.Args[0] {
					continue
				}
				if eq, ok := st.Fact(tEq(a.Args[1], c.Args[1])); !ok {
					st.Fail(in.Pos(), "undecided: which entry is deleted")
				} else if eq {
					delete(st.mem, a)
				}
			}
		}
		return tNil
	case "ssa:wrapnilchk":
		return c.Args[0]
	}
	return mk("res", c.Builtin+"@"+st.top().id+"/"+st.top().fn.Name()+"."+in.Name())
}

// knownLen is the length of a list whose elements are known.
func knownLen(x *Term) (int64, bool) {
	switch x.Op {
	case "list":
		return int64(len(x.Args)), true
	case "makeslice":
		return intOf(x.Args[0])
	}
	return 0, false
}
