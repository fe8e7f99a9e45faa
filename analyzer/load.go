package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/katydid/katydid"

// Prog is the type-checked program and its SSA form, rebuilt from the repository's current source on every run.
type Prog struct {
	sentinels map[string]bool
	globVals  map[string]*Term
	Dir       string
	Pkgs      []*packages.Package
	ByRel     map[string]*packages.Package // path relative to the module
	SSA       *ssa.Program
	SPkg      map[string]*ssa.Package
	Funcs     []*ssa.Function // every function with a body that is written in the repository
	live      map[*ssa.Function]*liveness
	refs      map[*ssa.Function][]*ssa.Function
	impl      map[string][]*ssa.Function
	ntypes    []*types.Named
	esc       *escInfo
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load() (*Prog, error) { return loadWith(nil) }

// loadWith loads the repository with files laid over it.
func loadWith(overlay map[string][]byte) (*Prog, error) {
	pkgs, err := loadPackages(overlay)
	if err != nil {
		return nil, err
	}
	if files, said := canonical(pkgs, overlay); len(files) > 0 {
		for f, b := range overlay {
			if files[f] == nil {
				files[f] = b
			}
		}
		if again, err := loadPackages(files); err == nil {
			pkgs = again
			if os.Getenv("KD_NAMES") != "" {
				fmt.Println(strings.Join(said, "\n"))
			}
		} else if os.Getenv("KD_NAMES") != "" {
			fmt.Println("names kept:", err)
		}
	}
	return build(pkgs)
}

func loadPackages(overlay map[string][]byte) ([]*packages.Package, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
	}
	if _, err := os.Stat(filepath.Join(dir, "go.mod")); err != nil {
		return nil, fmt.Errorf("no go.mod in %s", dir)
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
	}
	return pkgs, nil
}

func build(pkgs []*packages.Package) (*Prog, error) {
	p := &Prog{Dir: repoDir(), Pkgs: pkgs, ByRel: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	theProg = p
	for _, pk := range pkgs {
		p.ByRel[rel(pk.PkgPath)] = pk
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		p.SPkg[rel(sp.Pkg.Path())] = sp
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && inRepo(f) {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func rel(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	// wrappers and thunks
	if r := f.Signature.Recv(); r != nil {
		if n := named(r.Type()); n != nil && n.Obj().Pkg() != nil {
			return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
		}
	}
	return false
}

func named(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func relPkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return rel(f.Pkg.Pkg.Path())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return rel(f.Object().Pkg().Path())
	}
	return ""
}

// anchorError marks an anchor that the rules need and the program no longer has.
type anchorError struct{ msg string }

func (e anchorError) Error() string { return e.msg }

func failAnchor(format string, a ...interface{}) { panic(anchorError{fmt.Sprintf(format, a...)}) }

// Func returns the package level function, and panics with an anchorError when it is not there.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.SPkg[pkg]
	if sp == nil {
		failAnchor("package %s not found", pkg)
	}
	f := sp.Func(name)
	if f == nil {
		failAnchor("function %s.%s not found", pkg, name)
	}
	return f
}

func (p *Prog) FuncOpt(pkg, name string) *ssa.Function {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Type returns the named type.
func (p *Prog) Type(pkg, name string) *types.Named {
	n := p.TypeOpt(pkg, name)
	if n == nil {
		failAnchor("type %s.%s not found", pkg, name)
	}
	return n
}

func (p *Prog) TypeOpt(pkg, name string) *types.Named {
	pk := p.ByRel[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method returns the method of the (pointer to the) named type.
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	f := p.MethodOpt(pkg, typ, name)
	if f == nil {
		failAnchor("method %s.%s.%s not found", pkg, typ, name)
	}
	return f
}

func (p *Prog) MethodOpt(pkg, typ, name string) *ssa.Function {
	n := p.TypeOpt(pkg, typ)
	if n == nil {
		return nil
	}
	return p.methodOf(n, name)
}

func (p *Prog) methodOf(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) pos(n interface{ Pos() tokenPos }) string {
	return p.posOf(n.Pos())
}

func (p *Prog) posOf(ps tokenPos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.SSA.Fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// errVars lists the package variables that hold an error that is made at initialisation and never replaced.
func (p *Prog) errVars() map[string]bool {
	if p.sentinels != nil {
		return p.sentinels
	}
	p.sentinels = map[string]bool{}
	stored := map[*ssa.Global]int{}
	scan := func(f *ssa.Function, visit func(g *ssa.Global, v ssa.Value)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Type().(*types.Pointer).Elem().String() == "error" {
						visit(g, s.Val)
					}
				}
			}
		}
	}
	made := map[*ssa.Global]bool{}
	for _, sp := range p.SPkg {
		if f := sp.Func("init"); f != nil {
			scan(f, func(g *ssa.Global, v ssa.Value) {
				c, ok := v.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().Pkg == nil {
					return
				}
				if n := c.Common().StaticCallee().Pkg.Pkg.Path(); n == "errors" || n == "fmt" {
					made[g] = true
				}
			})
		}
	}
	for _, f := range p.Funcs {
		if f.Name() != "init" || f.Synthetic == "" {
			scan(f, func(g *ssa.Global, v ssa.Value) { stored[g]++ })
		}
	}
	for g := range made {
		if stored[g] == 0 {
			p.sentinels[rel(g.Pkg.Pkg.Path())+"."+g.Name()] = true
		}
	}
	return p.sentinels
}

// stdErrors are errors of the standard library, which are never nil.
var stdErrors = map[string]bool{"io.EOF": true, "io.ErrShortBuffer": true, "io.ErrUnexpectedEOF": true, "strconv.ErrRange": true, "strconv.ErrSyntax": true}
