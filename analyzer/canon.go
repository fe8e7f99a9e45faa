package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Some rules find what they are about by an unexported name: the field of a state, a helper of a package.
// What such a thing is called is no behaviour.  names.json records the unexported names of the tree that the rules
// were written for, with what tells them apart other than the name.  When one of them is gone, and something new
// of the same kind is like it, the new thing is given the old name before anything is analysed, by renaming it
// consistently wherever it is used.  Renaming preserves what a program does, so a wrong guess can not hide anything:
// the program that is analysed does what the program in the repository does.

//go:embed names.json
var namesJSON []byte

type nmField struct {
	Name, Type string
}

type nmType struct {
	Kind    string
	File    string
	Rank    int
	Fields  []nmField
	Methods []string
}

type nmFunc struct {
	Recv, Name, Sig, File string
	Rank                  int
	Bag                   map[string]int
}

type nmVar struct {
	Kind, Type, File string
	Rank             int
	Bag              map[string]int
}

type nmPkg struct {
	Types map[string]*nmType
	Funcs map[string]*nmFunc // by receiver and name
	Vars  map[string]*nmVar
}

// looseType prints a type without the unexported names of the repository.
func looseType(t types.Type) string {
	var sb strings.Builder
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			o := t.Obj()
			if o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), modPath) && !o.Exported() {
				sb.WriteString("_")
				return
			}
			sb.WriteString(types.TypeString(t, nil))
		case *types.Pointer:
			sb.WriteString("*")
			walk(t.Elem())
		case *types.Slice:
			sb.WriteString("[]")
			walk(t.Elem())
		case *types.Array:
			fmt.Fprintf(&sb, "[%d]", t.Len())
			walk(t.Elem())
		case *types.Map:
			sb.WriteString("map[")
			walk(t.Key())
			sb.WriteString("]")
			walk(t.Elem())
		case *types.Signature:
			sb.WriteString("func(")
			for i := 0; i < t.Params().Len(); i++ {
				walk(t.Params().At(i).Type())
				sb.WriteString(",")
			}
			sb.WriteString(")(")
			for i := 0; i < t.Results().Len(); i++ {
				walk(t.Results().At(i).Type())
				sb.WriteString(",")
			}
			sb.WriteString(")")
		case *types.Struct:
			if seen[t] {
				return
			}
			seen[t] = true
			sb.WriteString("struct{")
			for i := 0; i < t.NumFields(); i++ {
				walk(t.Field(i).Type())
				sb.WriteString(";")
			}
			sb.WriteString("}")
		default:
			sb.WriteString(types.TypeString(t, nil))
		}
	}
	walk(t)
	return sb.String()
}

func bagOf(n ast.Node, info *types.Info) map[string]int {
	bag := map[string]int{}
	if n == nil || reflect.ValueOf(n).IsNil() {
		return bag
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case nil:
		case *ast.Ident:
			o := info.Uses[y]
			switch {
			case o == nil:
			case o.Exported() || o.Pkg() == nil:
				bag[o.Name()]++
			case o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), modPath):
				bag["_"+strings.TrimPrefix(reflect.TypeOf(o).String(), "*types.")]++
			default:
				bag[o.Name()]++
			}
		case *ast.BasicLit:
			bag[y.Value]++
		case *ast.BinaryExpr:
			bag[y.Op.String()]++
		default:
			bag[strings.TrimPrefix(reflect.TypeOf(x).String(), "*ast.")]++
		}
		return true
	})
	return bag
}

func likeBag(a, b map[string]int) float64 {
	if len(a) == 0 && len(b) == 0 {
		return 1
	}
	var dot, na, nb float64
	for k, x := range a {
		dot += float64(x) * float64(b[k])
		na += float64(x) * float64(x)
	}
	for _, x := range b {
		nb += float64(x) * float64(x)
	}
	if na == 0 || nb == 0 {
		return 0
	}
	return dot / math.Sqrt(na*nb)
}

// likeName is how much of two names is the same, between 0 and 1.
func likeName(a, b string) float64 {
	a, b = strings.ToLower(a), strings.ToLower(b)
	if a == b {
		return 1
	}
	row := make([]int, len(b)+1)
	for i := range a {
		prev := 0
		for j := range b {
			cur := row[j+1]
			if a[i] == b[j] {
				row[j+1] = prev + 1
			} else if row[j] > row[j+1] {
				row[j+1] = row[j]
			}
			prev = cur
		}
	}
	return 2 * float64(row[len(b)]) / float64(len(a)+len(b))
}

type nmObjs struct {
	nmPkg
	tobj map[string]types.Object
	fobj map[string]map[string]types.Object // fields of structs
	gobj map[string]types.Object            // functions
	vobj map[string]types.Object
}

func namesOf(pk *packages.Package) *nmObjs {
	q := &nmObjs{nmPkg: nmPkg{map[string]*nmType{}, map[string]*nmFunc{}, map[string]*nmVar{}},
		tobj: map[string]types.Object{}, fobj: map[string]map[string]types.Object{}, gobj: map[string]types.Object{}, vobj: map[string]types.Object{}}
	rank := 0
	for _, f := range pk.Syntax {
		file := filepath.Base(pk.Fset.Position(f.Pos()).Filename)
		for _, d := range f.Decls {
			rank++
			switch d := d.(type) {
			case *ast.FuncDecl:
				o, _ := pk.TypesInfo.Defs[d.Name].(*types.Func)
				if o == nil || d.Name.Name == "init" || d.Name.Name == "_" || d.Name.Name == "main" {
					continue
				}
				sig := o.Type().(*types.Signature)
				recv := ""
				if sig.Recv() != nil {
					if n := named(sig.Recv().Type()); n != nil {
						recv = n.Obj().Name()
						if t := q.Types[recv]; t != nil {
							_ = t
						}
					}
				}
				if o.Exported() {
					continue
				}
				key := recv + "." + o.Name()
				q.Funcs[key] = &nmFunc{Recv: recv, Name: o.Name(), Sig: looseType(sig), File: file, Rank: rank, Bag: bagOf(d.Body, pk.TypesInfo)}
				q.gobj[key] = o
			case *ast.GenDecl:
				for _, s := range d.Specs {
					rank++
					switch s := s.(type) {
					case *ast.TypeSpec:
						o, _ := pk.TypesInfo.Defs[s.Name].(*types.TypeName)
						if o == nil || o.Name() == "_" {
							continue
						}
						t := &nmType{File: file, Rank: rank, Kind: strings.TrimPrefix(reflect.TypeOf(o.Type().Underlying()).String(), "*types.")}
						switch u := o.Type().Underlying().(type) {
						case *types.Struct:
							q.fobj[o.Name()] = map[string]types.Object{}
							for i := 0; i < u.NumFields(); i++ {
								v := u.Field(i)
								name := v.Name()
								if v.Embedded() {
									name = "embedded"
								} else {
									q.fobj[o.Name()][name] = v
								}
								t.Fields = append(t.Fields, nmField{name, looseType(v.Type())})
							}
						case *types.Interface:
							for i := 0; i < u.NumExplicitMethods(); i++ {
								m := u.ExplicitMethod(i)
								t.Methods = append(t.Methods, m.Name())
								if !m.Exported() {
									key := o.Name() + "." + m.Name()
									q.Funcs[key] = &nmFunc{Recv: o.Name(), Name: m.Name(), Sig: looseType(m.Type()), File: file, Rank: rank}
									q.gobj[key] = m
								}
							}
						default:
							t.Kind += " " + looseType(u)
						}
						if n, ok := o.Type().(*types.Named); ok {
							for i := 0; i < n.NumMethods(); i++ {
								t.Methods = append(t.Methods, n.Method(i).Name())
							}
						}
						sort.Strings(t.Methods)
						if !o.Exported() && len(t.Fields) == 0 {
							// nothing else tells types apart that are made of one
						}
						q.Types[o.Name()] = t
						q.tobj[o.Name()] = o
					case *ast.ValueSpec:
						for i, id := range s.Names {
							o := pk.TypesInfo.Defs[id]
							if o == nil || id.Name == "_" || o.Exported() {
								continue
							}
							v := &nmVar{Kind: strings.TrimPrefix(reflect.TypeOf(o).String(), "*types."), Type: looseType(o.Type()), File: file, Rank: rank, Bag: map[string]int{}}
							if i < len(s.Values) {
								v.Bag = bagOf(s.Values[i], pk.TypesInfo)
							}
							q.Vars[id.Name] = v
							q.vobj[id.Name] = o
						}
					}
				}
			}
		}
	}
	return q
}

type pairing struct {
	old, cur string
	score    float64
}

// pairUp takes the best pairs first; every name is taken once.
func pairUp(ps []pairing, least float64) map[string]string {
	sort.SliceStable(ps, func(i, j int) bool {
		if ps[i].score != ps[j].score {
			return ps[i].score > ps[j].score
		}
		if ps[i].old != ps[j].old {
			return ps[i].old < ps[j].old
		}
		return ps[i].cur < ps[j].cur
	})
	out, taken := map[string]string{}, map[string]bool{}
	for _, p := range ps {
		if p.score < least || taken["o"+p.old] || taken["c"+p.cur] {
			continue
		}
		taken["o"+p.old], taken["c"+p.cur] = true, true
		out[p.cur] = p.old
	}
	return out
}

func near(a, b int) float64 { return 1 / (1 + math.Abs(float64(a-b))/10) }

func sameShare(a, b []string) float64 {
	if len(a)+len(b) == 0 {
		return 1
	}
	n := 0
	left := map[string]int{}
	for _, x := range a {
		left[x]++
	}
	for _, x := range b {
		if left[x] > 0 {
			left[x]--
			n++
		}
	}
	return 2 * float64(n) / float64(len(a)+len(b))
}

func unexported(s string) bool { return !token.IsExported(s) }

// oldNames gives the objects of a package that have the name they had before under another name.
func oldNames(old *nmPkg, q *nmObjs) map[types.Object]string {
	out := map[types.Object]string{}
	// types
	var ps []pairing
	for on, ot := range old.Types {
		if q.Types[on] != nil || !unexported(on) {
			continue
		}
		for cn, ct := range q.Types {
			if old.Types[cn] != nil || ot.Kind != ct.Kind || !unexported(cn) {
				continue
			}
			var of, cf, oft, cft []string
			for _, f := range ot.Fields {
				of, oft = append(of, f.Name), append(oft, f.Type)
			}
			for _, f := range ct.Fields {
				cf, cft = append(cf, f.Name), append(cft, f.Type)
			}
			score := sameShare(of, cf) + 2*sameShare(oft, cft) + 2*sameShare(ot.Methods, ct.Methods) + likeName(on, cn) + near(ot.Rank, ct.Rank)
			if ot.File == ct.File {
				score++
			}
			ps = append(ps, pairing{on, cn, score})
		}
	}
	tmap := pairUp(ps, 4) // current to old
	back := func(t string) string {
		if o, ok := tmap[t]; ok {
			return o
		}
		return t
	}
	for cn, on := range tmap {
		out[q.tobj[cn]] = on
	}
	// fields
	for cn, ct := range q.Types {
		ot := old.Types[back(cn)]
		if ot == nil || len(ct.Fields) == 0 {
			continue
		}
		has := func(l []nmField, n string) bool {
			for _, f := range l {
				if f.Name == n {
					return true
				}
			}
			return false
		}
		var ps []pairing
		for i, of := range ot.Fields {
			if has(ct.Fields, of.Name) || !unexported(of.Name) {
				continue
			}
			for j, cf := range ct.Fields {
				if has(ot.Fields, cf.Name) || !unexported(cf.Name) {
					continue
				}
				if of.Type != cf.Type {
					continue
				}
				ps = append(ps, pairing{of.Name, cf.Name, likeName(of.Name, cf.Name) + 2/(1+math.Abs(float64(i-j)))})
			}
		}
		for c, o := range pairUp(ps, 0) {
			out[q.fobj[cn][c]] = o
		}
	}
	// functions
	ps = nil
	have := map[string]bool{}
	for _, f := range q.Funcs {
		have[back(f.Recv)+"."+f.Name] = true
	}
	for ok, of := range old.Funcs {
		if have[of.Recv+"."+of.Name] {
			continue
		}
		for ck, cf := range q.Funcs {
			if back(cf.Recv) != of.Recv || old.Funcs[of.Recv+"."+cf.Name] != nil {
				continue
			}
			score := 4*likeBag(of.Bag, cf.Bag) + likeName(of.Name, cf.Name) + near(of.Rank, cf.Rank)
			if of.Sig == cf.Sig {
				score += 2
			}
			if of.File == cf.File {
				score += 0.5
			}
			ps = append(ps, pairing{ok, ck, score})
		}
	}
	for c, o := range pairUp(ps, 4.5) {
		out[q.gobj[c]] = old.Funcs[o].Name
	}
	// variables and constants
	ps = nil
	for on, ov := range old.Vars {
		if q.Vars[on] != nil {
			continue
		}
		for cn, cv := range q.Vars {
			if old.Vars[cn] != nil || ov.Kind != cv.Kind || ov.Type != cv.Type {
				continue
			}
			score := 2*likeBag(ov.Bag, cv.Bag) + likeName(on, cn) + near(ov.Rank, cv.Rank)
			if ov.File == cv.File {
				score += 0.5
			}
			ps = append(ps, pairing{on, cn, score})
		}
	}
	for c, o := range pairUp(ps, 1.5) {
		out[q.vobj[c]] = o
	}
	return out
}

// canonical gives the files of the packages with their old names, or nothing when no name changed.
func canonical(pkgs []*packages.Package, overlay map[string][]byte) (map[string][]byte, []string) {
	inv := map[string]*nmPkg{}
	if err := json.Unmarshal(namesJSON, &inv); err != nil {
		return nil, nil
	}
	out := map[string][]byte{}
	var said []string
	for _, pk := range pkgs {
		old := inv[rel(pk.PkgPath)]
		if old == nil {
			continue
		}
		q := namesOf(pk)
		m := oldNames(old, q)
		if len(m) == 0 {
			continue
		}
		// the field of an embedded type is called after the type
		for n := range q.tobj {
			if st, ok := q.tobj[n].Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if v := st.Field(i); v.Embedded() {
						if t := named(v.Type()); t != nil {
							if o, ok := m[t.Obj()]; ok {
								m[v] = o
							}
						}
					}
				}
			}
		}
		type edit struct {
			off  int
			from int
			to   string
		}
		edits := map[string][]edit{}
		type use struct {
			id *ast.Ident
			o  types.Object
		}
		var uses []use
		for id, o := range pk.TypesInfo.Defs {
			if o != nil {
				uses = append(uses, use{id, o})
			}
		}
		for id, o := range pk.TypesInfo.Uses {
			uses = append(uses, use{id, o})
		}
		// a name that something else has where it is used can not be given back
		for _, u := range uses {
			to, ok := m[u.o]
			if !ok || u.o.Parent() != pk.Types.Scope() {
				continue
			}
			if s := pk.Types.Scope().Innermost(u.id.Pos()); s != nil {
				if _, o := s.LookupParent(to, u.id.Pos()); o != nil && o.Parent() != types.Universe {
					delete(m, u.o)
				}
			}
		}
		for _, u := range uses {
			to, ok := m[u.o]
			if !ok {
				continue
			}
			pos := pk.Fset.PositionFor(u.id.Pos(), false)
			edits[pos.Filename] = append(edits[pos.Filename], edit{pos.Offset, len(u.id.Name), to})
		}
		for o, n := range m {
			said = append(said, fmt.Sprintf("%s: %s is %s", rel(pk.PkgPath), o.Name(), n))
		}
		for file, es := range edits {
			text, ok := overlay[file]
			if !ok {
				var err error
				if text, err = os.ReadFile(file); err != nil {
					return nil, nil
				}
			}
			sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
			var b []byte
			at := 0
			for _, e := range es {
				if e.off < at {
					continue
				}
				b = append(b, text[at:e.off]...)
				b = append(b, e.to...)
				at = e.off + e.from
			}
			out[file] = append(b, text[at:]...)
		}
	}
	sort.Strings(said)
	return out, said
}

// writeNames prints the names of the tree as it is.
func writeNames(pkgs []*packages.Package) {
	inv := map[string]*nmPkg{}
	for _, pk := range pkgs {
		inv[rel(pk.PkgPath)] = &namesOf(pk).nmPkg
	}
	b, _ := json.Marshal(inv)
	os.Stdout.Write(append(b, '\n'))
}
