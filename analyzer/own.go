package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The analysis of ownership: for each value of a function, where the memory it refers to comes from; for each
// function, which memory of its parameters it writes, keeps and returns.

// reg is a place memory comes from: what was allocated here (f) or in a function that was called (c), what a parameter
// (p), a captured variable (v) or a global variable (g) refers to, or unknown (x); and the fields and elements that were
// followed from there.
type reg struct {
	kind byte
	site ssa.Value
	idx  int
	path string
}

type regs map[reg]bool

func (a regs) add(b regs) bool {
	n := len(a)
	for r := range b {
		a[r] = true
	}
	return len(a) > n
}

func (a regs) has(f func(reg) bool) bool {
	for r := range a {
		if f(r) {
			return true
		}
	}
	return false
}

// write is a write to memory that a function does itself or through a function it calls.
type write struct {
	to   reg
	kind string // field, elem, append, map
	own  string // the field: package.Type.Field
	imm  bool   // the field is of a type that is not to change
	elem types.Type
	at   ssa.Instruction // where it is written
	back bool            // append: the result goes where the list came from
}

func (w write) key() string {
	return fmt.Sprint(w.to, w.kind, w.own, w.imm, w.back, w.at.Parent().String(), w.at.Pos(), w.elem)
}

type summary struct {
	results []regs
	writes  map[string]write // to p and v only
	keeps   map[int]ssa.Instruction
}

type owner struct {
	p      *Prog
	scope  map[*ssa.Function]bool
	fs     []*ssa.Function
	sum    map[*ssa.Function]*summary
	vals   map[*ssa.Function]map[ssa.Value]regs
	conts  map[*ssa.Function]map[ssa.Value]map[string]regs // contents of what is allocated
	calls  map[*ssa.Function]map[ssa.CallInstruction][]*ssa.Function
	passed map[*ssa.Parameter]map[*ssa.Function]bool // functions passed for a parameter
	imm    func(t types.Type) bool
	all    map[*ssa.Function]map[string]write // every write, own and translated, judged
}

func newOwner(p *Prog, fs []*ssa.Function, imm func(t types.Type) bool) *owner {
	o := &owner{p: p, scope: map[*ssa.Function]bool{}, sum: map[*ssa.Function]*summary{}, vals: map[*ssa.Function]map[ssa.Value]regs{},
		conts: map[*ssa.Function]map[ssa.Value]map[string]regs{}, passed: map[*ssa.Parameter]map[*ssa.Function]bool{}, imm: imm, all: map[*ssa.Function]map[string]write{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if o.scope[f] || f.Blocks == nil || !inRepo(f) {
			return
		}
		o.scope[f] = true
		o.fs = append(o.fs, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
		for _, g := range p.refsOf(f) {
			if g.Synthetic != "" {
				add(g)
			}
		}
	}
	for _, f := range fs {
		add(f)
	}
	sort.Slice(o.fs, func(i, j int) bool { return o.fs[i].String() < o.fs[j].String() })
	for _, f := range o.fs {
		s := &summary{writes: map[string]write{}, keeps: map[int]ssa.Instruction{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s.results = append(s.results, regs{})
		}
		o.sum[f] = s
		o.vals[f] = map[ssa.Value]regs{}
		o.conts[f] = map[ssa.Value]map[string]regs{}
		o.all[f] = map[string]write{}
	}
	for round := 0; ; round++ {
		changed := false
		for _, f := range o.fs {
			if o.analyse(f) {
				changed = true
			}
		}
		if !changed {
			break
		}
		if round > 60 {
			failAnchor("the analysis of ownership does not settle")
		}
	}
	return o
}

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Tuple:
		return true
	case *types.Array:
		return refLike(u.Elem())
	}
	return false
}

func segOf(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer)
	st, _ := pt.Elem().Underlying().(*types.Struct)
	return typeName(pt.Elem()) + "." + st.Field(fa.Field).Name()
}

func typeName(t types.Type) string {
	if n := named(t); n != nil {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return "struct"
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if parts := strings.Split(a, "|"); len(parts) >= 2 {
		return "...|" + b
	}
	return a + "|" + b
}

// load is what is found in memory.
func (o *owner) load(f *ssa.Function, in regs, seg string) regs {
	out := regs{}
	for r := range in {
		switch {
		case r.kind == 'f' && r.path == "":
			if m := o.conts[f][r.site]; m != nil {
				out.add(m[seg])
			}
		default:
			r.path = joinPath(r.path, seg)
			out[r] = true
		}
	}
	return out
}

// put adds to the contents of what is allocated here.
func (o *owner) put(f *ssa.Function, in regs, seg string, v regs) bool {
	ch := false
	for r := range in {
		if r.kind == 'f' && r.path == "" {
			m := o.conts[f][r.site]
			if m == nil {
				m = map[string]regs{}
				o.conts[f][r.site] = m
			}
			if m[seg] == nil {
				m[seg] = regs{}
			}
			if m[seg].add(v) {
				ch = true
			}
		}
	}
	return ch
}

// isCell: a variable that holds a reference.
func isCell(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch pt.Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func (o *owner) get(f *ssa.Function, v ssa.Value) regs {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	case *ssa.Global:
		return regs{reg{kind: 'g', site: v}: true}
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == v {
				return regs{reg{kind: 'p', idx: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == v {
				return regs{reg{kind: 'v', idx: i}: true}
			}
		}
	}
	return o.vals[f][v]
}

// callees of a call, in the scope; known tells that there are no others.
func (o *owner) callees(f *ssa.Function, c *ssa.CallCommon) (out []*ssa.Function, known bool) {
	if c.IsInvoke() {
		for _, g := range o.p.implementers(c.Method) {
			if o.scope[g] {
				out = append(out, g)
			}
		}
		return out, len(out) > 0
	}
	known = true
	var from func(v ssa.Value, depth int)
	from = func(v ssa.Value, depth int) {
		switch v := v.(type) {
		case *ssa.Function:
			if o.scope[v] {
				out = append(out, v)
			} else {
				known = false
			}
		case *ssa.MakeClosure:
			from(v.Fn, depth)
		case *ssa.Parameter:
			for g := range o.passed[v] {
				out = append(out, g)
			}
			known = known && len(o.passed[v]) > 0
		case *ssa.Phi:
			if depth < 4 {
				for _, e := range v.Edges {
					from(e, depth+1)
				}
			}
		case *ssa.ChangeType:
			from(v.X, depth)
		default:
			known = false
		}
	}
	from(c.Value, 0)
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out, known
}

func argsOf(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// exactCap: nothing fits behind the list, so that appending to it copies it.
func exactCap(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		if x.Max != nil {
			return x.High != nil && sameVal(x.High, x.Max)
		}
		if _, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			return true
		}
	case *ssa.MakeSlice:
		return sameVal(x.Len, x.Cap)
	case *ssa.ChangeType:
		return exactCap(x.X, depth)
	case *ssa.Phi:
		if depth > 3 {
			return false
		}
		for _, e := range x.Edges {
			if !exactCap(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if ok1 && ok2 {
		return x.Value == y.Value || x.Value != nil && y.Value != nil && x.Value.String() == y.Value.String()
	}
	// len of the same value
	c, ok1 := a.(*ssa.Call)
	d, ok2 := b.(*ssa.Call)
	if ok1 && ok2 && len(c.Call.Args) == 1 && len(d.Call.Args) == 1 {
		f, ok1 := c.Call.Value.(*ssa.Builtin)
		g, ok2 := d.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && f.Name() == "len" && g.Name() == "len" && sameLoad(c.Call.Args[0], d.Call.Args[0])
	}
	return false
}

// sameLoad: the same value, or the same field of the same object.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if x.X == y.X {
			return true
		}
		fa, ok1 := x.X.(*ssa.FieldAddr)
		fb, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.Field == fb.Field && sameLoad(fa.X, fb.X)
	}
	return false
}

func isBuiltin(c *ssa.CallCommon, name string) bool {
	b, ok := c.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

// sorts: functions outside of the repository that write to the list they are given.
func externWrites(c *ssa.CallCommon) int {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil || inRepo(f) {
		return -1
	}
	switch f.Pkg.Pkg.Path() {
	case "sort":
		switch f.Name() {
		case "Sort", "Stable", "Slice", "SliceStable", "Strings", "Ints", "Float64s":
			return 0
		}
	case "slices":
		switch f.Name() {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Compact", "CompactFunc", "Delete", "DeleteFunc", "Insert", "Replace":
			return 0
		}
	}
	return -1
}

func (o *owner) analyse(f *ssa.Function) bool {
	changed := false
	vals := o.vals[f]
	set := func(v ssa.Value, r regs) {
		if vals[v] == nil {
			vals[v] = regs{}
		}
		if vals[v].add(r) {
			changed = true
		}
	}
	put := func(in regs, seg string, v regs) {
		if o.put(f, in, seg, v) {
			changed = true
		}
	}
	s := o.sum[f]
	for again := true; again; {
		before := changed
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if !isCell(in.Type()) {
						set(in, regs{reg{kind: 'f', site: in}: true})
					}
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
					v := in.(ssa.Value)
					set(v, regs{reg{kind: 'f', site: v}: true})
				case *ssa.MakeClosure:
					// what it captures
					all := regs{}
					for _, x := range in.Bindings {
						all.add(o.get(f, x))
					}
					set(in, regs{reg{kind: 'f', site: in}: true})
				case *ssa.Phi:
					for _, e := range in.Edges {
						set(in, o.get(f, e))
					}
				case *ssa.ChangeType:
					set(in, o.get(f, in.X))
				case *ssa.ChangeInterface:
					set(in, o.get(f, in.X))
				case *ssa.MakeInterface:
					set(in, o.get(f, in.X))
				case *ssa.TypeAssert:
					set(in, o.get(f, in.X))
				case *ssa.Convert:
					if refLike(in.Type()) {
						set(in, regs{reg{kind: 'f', site: in}: true})
					}
				case *ssa.Slice:
					set(in, o.get(f, in.X))
				case *ssa.FieldAddr:
					set(in, o.get(f, in.X)) // the address stands for what it is in
				case *ssa.IndexAddr:
					set(in, o.get(f, in.X))
				case *ssa.Field:
					if refLike(in.Type()) {
						set(in, o.get(f, in.X))
					}
				case *ssa.Index:
					if refLike(in.Type()) {
						set(in, o.load(f, o.get(f, in.X), "[]"))
					}
				case *ssa.Lookup:
					if refLike(in.Type()) {
						set(in, o.load(f, o.get(f, in.X), "[]"))
					}
				case *ssa.Range:
					set(in, o.get(f, in.X))
				case *ssa.Next:
					if !in.IsString {
						set(in, o.load(f, o.get(f, in.Iter), "[]"))
					}
				case *ssa.Extract:
					if c, ok := in.Tuple.(*ssa.Call); ok {
						set(in, o.result(f, c, in.Index))
					} else if refLike(in.Type()) {
						set(in, o.get(f, in.Tuple))
					}
				case *ssa.UnOp:
					if in.Op == token.MUL && refLike(in.Type()) {
						if st := storedBefore(in); st != nil {
							set(in, o.get(f, st.Val))
							break
						}
						switch a := in.X.(type) {
						case *ssa.FieldAddr:
							set(in, o.load(f, o.get(f, a.X), segOf(a)))
						case *ssa.IndexAddr:
							set(in, o.load(f, o.get(f, a.X), "[]"))
						default: // a variable, or a whole struct
							set(in, o.get(f, in.X))
						}
					}
				case *ssa.Store:
					if !refLike(in.Val.Type()) {
						break
					}
					v := o.get(f, in.Val)
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						put(o.get(f, a.X), segOf(a), v)
					case *ssa.IndexAddr:
						put(o.get(f, a.X), "[]", v)
					default:
						if isCell(in.Addr.Type()) {
							if _, ok := in.Addr.(*ssa.Alloc); ok {
								set(in.Addr, v)
							}
						} else { // a whole struct
							for r := range o.get(f, in.Addr) {
								if r.kind == 'f' && r.path == "" {
									for x := range v {
										if x.kind == 'f' && x.path == "" {
											for seg, c := range o.conts[f][x.site] {
												put(regs{r: true}, seg, c)
											}
										}
									}
								}
							}
						}
					}
				case *ssa.MapUpdate:
					put(o.get(f, in.Map), "[]", o.get(f, in.Value))
				case *ssa.Call:
					if _, ok := in.Type().(*types.Tuple); !ok && refLike(in.Type()) {
						set(in, o.result(f, in, 0))
					}
					if isBuiltin(&in.Call, "append") && len(in.Call.Args) == 2 {
						put(regs{reg{kind: 'f', site: in}: true}, "[]", o.load(f, o.get(f, in.Call.Args[1]), "[]"))
						put(o.get(f, in.Call.Args[0]), "[]", o.load(f, o.get(f, in.Call.Args[1]), "[]"))
						if exactCap(in.Call.Args[0], 0) {
							put(regs{reg{kind: 'f', site: in}: true}, "[]", o.load(f, o.get(f, in.Call.Args[0]), "[]"))
						}
					}
					if isBuiltin(&in.Call, "copy") {
						put(o.get(f, in.Call.Args[0]), "[]", o.load(f, o.get(f, in.Call.Args[1]), "[]"))
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					o.passing(f, c.Common(), &changed)
				}
			}
		}
		again = changed
		changed = changed || before
	}
	// summaries
	n := 0
	for _, x := range s.results {
		n += len(x)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for i, v := range ret.Results {
					if !refLike(v.Type()) {
						continue
					}
					for r := range o.get(f, v) {
						if r.kind == 'f' || r.kind == 'c' && r.path == "" {
							r = reg{kind: 'c'}
						} else if r.kind == 'c' {
							r = reg{kind: 'c', path: r.path}
						}
						s.results[i][r] = true
					}
				}
			}
		}
	}
	for _, x := range s.results {
		n -= len(x)
	}
	if n != 0 {
		changed = true
	}
	if o.effects(f) {
		changed = true
	}
	return changed
}

// passing records the functions that are passed to functions.
func (o *owner) passing(f *ssa.Function, c *ssa.CallCommon, changed *bool) {
	gs, _ := o.callees(f, c)
	args := argsOf(c)
	for _, g := range gs {
		for i, a := range args {
			if i >= len(g.Params) {
				break
			}
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			var fns []*ssa.Function
			switch a := a.(type) {
			case *ssa.Function:
				fns = append(fns, a)
			case *ssa.MakeClosure:
				fns = append(fns, a.Fn.(*ssa.Function))
			case *ssa.Parameter:
				for h := range o.passed[a] {
					fns = append(fns, h)
				}
			}
			for _, h := range fns {
				if !o.scope[h] {
					continue
				}
				m := o.passed[g.Params[i]]
				if m == nil {
					m = map[*ssa.Function]bool{}
					o.passed[g.Params[i]] = m
				}
				if !m[h] {
					m[h] = true
					*changed = true
				}
			}
		}
	}
}

// result is what a call returns.
func (o *owner) result(f *ssa.Function, c *ssa.Call, i int) regs {
	out := regs{}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out[reg{kind: 'f', site: c}] = true
			if !exactCap(c.Call.Args[0], 0) {
				out.add(o.get(f, c.Call.Args[0]))
			}
		}
		return out
	}
	gs, known := o.callees(f, &c.Call)
	args := argsOf(&c.Call)
	for _, g := range gs {
		if i >= len(o.sum[g].results) {
			continue
		}
		for r := range o.sum[g].results[i] {
			switch r.kind {
			case 'c':
				out[reg{kind: 'c', site: c, path: r.path}] = true
			case 'p':
				if r.idx < len(args) {
					out.add(o.follow(f, o.get(f, args[r.idx]), r.path))
				}
			case 'v':
				out[reg{kind: 'x', path: r.path}] = true
			default:
				out[r] = true
			}
		}
	}
	if !known {
		if g := c.Call.StaticCallee(); g != nil && !o.scope[g] && g.Signature.Recv() == nil {
			out[reg{kind: 'c', site: c}] = true // functions elsewhere return what they make
		} else {
			out[reg{kind: 'x'}] = true
		}
	}
	return out
}

// follow follows a path.
func (o *owner) follow(f *ssa.Function, in regs, path string) regs {
	if path == "" {
		return in
	}
	for _, seg := range strings.Split(path, "|") {
		in = o.load(f, in, seg)
	}
	return in
}

// effects are the writes of a function, and what it keeps.
func (o *owner) effects(f *ssa.Function) bool {
	s := o.sum[f]
	n := len(s.writes) + len(s.keeps) + len(o.all[f])
	add := func(to regs, w write) {
		for r := range to {
			w.to = r
			o.all[f][w.key()] = w
			if r.kind == 'p' || r.kind == 'v' {
				s.writes[w.key()] = w
			}
		}
	}
	keep := func(v ssa.Value, at ssa.Instruction) {
		for r := range o.get(f, v) {
			if r.kind == 'p' && r.path == "" {
				if s.keeps[r.idx] == nil {
					s.keeps[r.idx] = at
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					pt := a.X.Type().Underlying().(*types.Pointer)
					add(o.get(f, a.X), write{kind: "field", own: segOf(a), imm: o.imm(pt.Elem()), at: in})
				case *ssa.IndexAddr:
					add(o.get(f, a.X), write{kind: "elem", elem: elemType(a.X.Type()), at: in})
				case *ssa.Global:
					add(o.get(f, a), write{kind: "variable", at: in})
				case *ssa.Alloc, *ssa.FreeVar:
					if !isCell(in.Addr.Type()) {
						if al, ok := in.Addr.(*ssa.Alloc); !ok || al == nil {
							add(o.get(f, in.Addr), write{kind: "field", own: typeName(in.Val.Type()), imm: o.imm(in.Val.Type()), at: in})
						}
					}
				default:
					// through a pointer
					add(o.get(f, in.Addr), write{kind: "field", own: typeName(in.Val.Type()), imm: o.imm(in.Val.Type()), at: in})
				}
				if _, cell := in.Addr.(*ssa.Alloc); !cell && refLike(in.Val.Type()) && !o.localOnly(f, in.Addr) {
					keep(in.Val, in)
				}
			case *ssa.MapUpdate:
				add(o.get(f, in.Map), write{kind: "map", at: in})
				keep(in.Value, in)
			case ssa.CallInstruction:
				c := in.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						if !exactCap(c.Args[0], 0) {
							v := in.(ssa.Value)
							add(o.get(f, c.Args[0]), write{kind: "append", elem: elemType(c.Args[0].Type()), at: in, back: goesBack(v, c.Args[0])})
						}
						if len(c.Args) == 2 {
							for r := range o.load(f, o.get(f, c.Args[1]), "[]") {
								if r.kind == 'p' && r.path == "" && s.keeps[r.idx] == nil {
									s.keeps[r.idx] = in
								}
							}
						}
					case "copy":
						add(o.get(f, c.Args[0]), write{kind: "elem", elem: elemType(c.Args[0].Type()), at: in})
					case "delete", "clear":
						add(o.get(f, c.Args[0]), write{kind: "map", at: in})
					}
					continue
				}
				if i := externWrites(c); i >= 0 && i < len(c.Args) {
					a := c.Args[i]
					t := a.Type()
					if mi, ok := a.(*ssa.MakeInterface); ok {
						t = mi.X.Type()
					}
					add(o.get(f, a), write{kind: "elem", elem: elemType(t), at: in})
				}
				gs, _ := o.callees(f, c)
				args := argsOf(c)
				for _, g := range gs {
					for _, w := range o.sum[g].writes {
						if w.to.kind == 'p' && w.to.idx < len(args) {
							add(o.follow(f, o.get(f, args[w.to.idx]), w.to.path), w)
						}
					}
					for i := range o.sum[g].keeps {
						if i < len(args) {
							keep(args[i], in)
						}
					}
				}
			case *ssa.MakeClosure:
				g := in.Fn.(*ssa.Function)
				if s2 := o.sum[g]; s2 != nil {
					for _, w := range s2.writes {
						if w.to.kind == 'v' && w.to.idx < len(in.Bindings) {
							add(o.follow(f, o.get(f, in.Bindings[w.to.idx]), w.to.path), w)
						}
					}
				}
			}
		}
	}
	return len(s.writes)+len(s.keeps)+len(o.all[f]) != n
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

// goesBack: the list that append returns replaces the one it was given.
func goesBack(v ssa.Value, base ssa.Value) bool {
	u, ok := base.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	for _, ref := range *v.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Val == v && sameAddr(st.Addr, u.X) {
			return true
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && sameLoad(x.X, y.X)
	}
	ix, ok1 := a.(*ssa.IndexAddr)
	iy, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && sameLoad(ix.X, iy.X) && sameVal(ix.Index, iy.Index)
}

// storedBefore: the store in the same block that wrote what is read, if nothing in between could have changed it.
func storedBefore(u *ssa.UnOp) *ssa.Store {
	switch u.X.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
	default:
		return nil
	}
	b := u.Block()
	for i := indexIn(u) - 1; i >= 0; i-- {
		switch in := b.Instrs[i].(type) {
		case *ssa.Store:
			if sameAddr(in.Addr, u.X) {
				return in
			}
			if types.Identical(in.Addr.Type(), u.X.Type()) {
				return nil
			}
		case ssa.CallInstruction:
			if _, ok := in.Common().Value.(*ssa.Builtin); !ok {
				return nil
			}
		case *ssa.MapUpdate:
			return nil
		}
	}
	return nil
}

// leaks: what is allocated here is returned, stored in something that is not local, or given to a function that keeps it.
func (o *owner) leaks(f *ssa.Function, site ssa.Value) bool {
	return o.leaksFrom(f, site, map[ssa.Value]bool{})
}

func (o *owner) leaksFrom(f *ssa.Function, site ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[site] {
		return false
	}
	seen[site] = true
	is := func(v ssa.Value) bool {
		return o.get(f, v)[reg{kind: 'f', site: site}]
	}
	stored := func(base ssa.Value) bool {
		for r := range o.get(f, base) {
			if r.kind != 'f' || r.site != nil && o.leaksFrom(f, r.site, seen) {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				for _, v := range in.Results {
					if is(v) {
						return true
					}
				}
			case *ssa.Store:
				if !is(in.Val) {
					break
				}
				if _, ok := in.Addr.(*ssa.Alloc); ok && isCell(in.Addr.Type()) {
					break
				}
				if _, ok := in.Addr.(*ssa.Global); ok || stored(in.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if is(in.Value) && stored(in.Map) {
					return true
				}
			case *ssa.MakeClosure:
				for _, x := range in.Bindings {
					if is(x) {
						return true
					}
				}
			case *ssa.Send:
				if is(in.X) {
					return true
				}
			case ssa.CallInstruction:
				c := in.Common()
				if isBuiltin(c, "append") && len(c.Args) == 2 {
					if o.load(f, o.get(f, c.Args[1]), "[]")[reg{kind: 'f', site: site}] && stored(in.Value()) {
						return true
					}
					continue
				}
				gs, _ := o.callees(f, c)
				args := argsOf(c)
				for _, g := range gs {
					for i := range o.sum[g].keeps {
						if i < len(args) && is(args[i]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// localOnly: all that the value refers to is local, and stays so.
func (o *owner) localOnly(f *ssa.Function, v ssa.Value) bool {
	rs := o.get(f, v)
	for r := range rs {
		if r.kind != 'f' || r.path != "" || r.site == nil || o.leaks(f, r.site) {
			return false
		}
	}
	return len(rs) > 0
}
