package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

const (
	tokADD = token.ADD
	tokSUB = token.SUB
)

// Term is a hash-consed value-graph node (global value numbering): two SSA values with the same Term
// compute the same value from the same inputs.
type Term struct {
	Op   string // const nil param sym field fa ia index call res bin un new list append slice len istype as iface conv closure func glob gval lookup tuple phi alloc
	Name string
	Args []*Term
	Typ  types.Type // informative; not part of identity
	Fn   *ssa.Function
	id   int
	str  string
}

type termTable struct {
	m map[string]*Term
}

var terms = &termTable{m: map[string]*Term{}}

func mk(op, name string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := terms.m[k]; ok {
		return t
	}
	t := &Term{Op: op, Name: name, Args: args, id: len(terms.m)}
	terms.m[k] = t
	return t
}

func sym(name string) *Term { return mk("sym", name) }

func tBool(b bool) *Term {
	if b {
		return mk("const", "true")
	}
	return mk("const", "false")
}

func tInt(i int64) *Term { return mk("const", strconv.FormatInt(i, 10)) }

var tNil = mk("nil", "")

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) isTrue() bool  { return t.Op == "const" && t.Name == "true" }
func (t *Term) isFalse() bool { return t.Op == "const" && t.Name == "false" }

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.str != "" {
		return t.str
	}
	s := t.render(0)
	t.str = s
	return s
}

func (t *Term) render(d int) string {
	if d > 14 {
		return "…"
	}
	as := make([]string, len(t.Args))
	for i, a := range t.Args {
		as[i] = a.render(d + 1)
	}
	j := strings.Join(as, ", ")
	switch t.Op {
	case "const", "sym", "param", "glob", "gval", "func":
		return t.Name
	case "nil":
		return "nil"
	case "field":
		return as[0] + "." + t.Name
	case "fa":
		return "&" + as[0] + "." + t.Name
	case "index":
		return as[0] + "[" + as[1] + "]"
	case "ia":
		return "&" + as[0] + "[" + as[1] + "]"
	case "bin":
		return "(" + as[0] + " " + t.Name + " " + as[1] + ")"
	case "un":
		return t.Name + as[0]
	case "new":
		return t.Name + "{" + j + "}"
	case "list":
		return "[" + j + "]"
	case "kv":
		return t.Name + ":" + j
	case "iface":
		return as[0]
	case "res", "phi", "alloc":
		return t.Op + "<" + t.Name + ">"
	case "call":
		return t.Name + "(" + j + ")"
	}
	return t.Op + ":" + t.Name + "(" + j + ")"
}

// mentions reports whether s occurs in t.
func (t *Term) mentions(s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if a.id >= 0 && a.mentions(s) {
			return true
		}
	}
	return false
}

func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.any(f) {
			return true
		}
	}
	return false
}

func strip(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func tNot(t *Term) *Term {
	if t.isTrue() {
		return tBool(false)
	}
	if t.isFalse() {
		return tBool(true)
	}
	if t.Op == "un" && t.Name == "!" {
		return t.Args[0]
	}
	return mk("un", "!", t)
}

func definitelyNonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "new", "fa", "ia", "closure", "func", "glob", "list":
		return true
	case "iface":
		return true
	case "const":
		return true
	case "call":
		if strings.HasPrefix(t.Name, "github.com/gogo/protobuf/proto.") {
			switch strings.TrimPrefix(t.Name, "github.com/gogo/protobuf/proto.") {
			case "Bool", "Int32", "Int64", "Uint32", "Uint64", "Float32", "Float64", "String":
				return true // the address of a copy
			}
		}
		return strings.HasSuffix(t.Name, "fmt.Errorf") || strings.HasSuffix(t.Name, "errors.New")
	}
	return false
}

// rawNil: iface holding a typed value is non-nil even if the value is nil; the engine never builds iface(nil).
func tEq(a, b *Term) *Term {
	if a == b && a.Op != "phi" {
		return tBool(true)
	}
	if a.Op == "const" && b.Op == "const" {
		return tBool(a.Name == b.Name)
	}
	if a == tNil && definitelyNonNil(b) || b == tNil && definitelyNonNil(a) {
		return tBool(false)
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	if a.isFalse() {
		return tNot(b)
	}
	if b.isFalse() {
		return tNot(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("bin", "==", a, b)
}

func tLt(a, b *Term) *Term {
	if a == b {
		return tBool(false)
	}
	if x, ok := intOf(a); ok {
		if y, ok := intOf(b); ok {
			return tBool(x < y)
		}
	}
	return mk("bin", "<", a, b)
}

func intOf(t *Term) (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	i, err := strconv.ParseInt(t.Name, 10, 64)
	return i, err == nil
}

func tBin(op token.Token, a, b *Term, isInt bool) *Term {
	switch op {
	case token.EQL:
		return tEq(a, b)
	case token.NEQ:
		return tNot(tEq(a, b))
	case token.LSS:
		return tLt(a, b)
	case token.GTR:
		return tLt(b, a)
	case token.GEQ:
		if isInt {
			return tNot(tLt(a, b))
		}
		return mk("bin", "<=", b, a)
	case token.LEQ:
		if isInt {
			return tNot(tLt(b, a))
		}
		return mk("bin", "<=", a, b)
	}
	if x, ok := intOf(a); ok && isInt {
		if y, ok := intOf(b); ok {
			switch op {
			case token.ADD:
				return tInt(x + y)
			case token.SUB:
				return tInt(x - y)
			case token.MUL:
				return tInt(x * y)
			case token.QUO:
				if y > 0 {
					return tInt(x / y)
				}
			case token.REM:
				if y > 0 {
					return tInt(x % y)
				}
			case token.AND:
				if x >= 0 && y >= 0 {
					return tInt(x & y)
				}
			case token.OR:
				if x >= 0 && y >= 0 {
					return tInt(x | y)
				}
			case token.XOR:
				if x >= 0 && y >= 0 {
					return tInt(x ^ y)
				}
			case token.SHL:
				if x >= 0 && y >= 0 && y < 62 && x < 1<<(62-uint(y)) {
					return tInt(x << uint(y))
				}
			case token.SHR:
				if x >= 0 && y >= 0 && y < 64 {
					return tInt(x >> uint(y))
				}
			}
		}
	}
	// x+0, x-0
	if isInt {
		if y, ok := intOf(b); ok && y == 0 && (op == token.ADD || op == token.SUB) {
			return a
		}
		if x, ok := intOf(a); ok && x == 0 && op == token.ADD {
			return b
		}
	}
	switch op {
	case token.ADD:
		if isInt && a.id > b.id {
			a, b = b, a
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if isInt && a.id > b.id {
			a, b = b, a
		}
	}
	return mk("bin", op.String(), a, b)
}

func tField(x *Term, name string) *Term {
	x = strip(x)
	if x.Op == "new" {
		for _, kv := range x.Args {
			if kv.Op == "kv" && kv.Name == name {
				return kv.Args[0]
			}
		}
	}
	return mk("field", name, x)
}

func tIndex(x, i *Term) *Term {
	if x.Op == "list" {
		if n, ok := intOf(i); ok && n >= 0 && int(n) < len(x.Args) {
			return x.Args[n]
		}
	}
	if x.Op == "slice" && len(x.Args) == 3 {
		// x[lo:hi][i] = x[lo+i]
		if lo, ok := intOf(x.Args[1]); ok {
			if n, ok := intOf(i); ok {
				return tIndex(x.Args[0], tInt(lo+n))
			}
		}
	}
	return mk("index", "", x, i)
}

func tLen(x *Term) *Term {
	if x.Op == "list" {
		return tInt(int64(len(x.Args)))
	}
	if x == tNil {
		return tInt(0)
	}
	if x.Op == "makeslice" {
		return x.Args[0]
	}
	return mk("len", "", x)
}

func tAppend(a, b *Term) *Term {
	if a == tNil {
		a = mk("list", "")
	}
	if b == tNil {
		b = mk("list", "")
	}
	if a.Op == "list" && b.Op == "list" {
		return mk("list", "", append(append([]*Term{}, a.Args...), b.Args...)...)
	}
	if b.Op == "list" && len(b.Args) == 0 {
		return a
	}
	if a.Op == "append" && b.Op == "list" && a.Args[1].Op == "list" {
		return mk("append", "", a.Args[0], tAppend(a.Args[1], b))
	}
	return mk("append", "", a, b)
}

func sortedKeys(m map[string]*Term) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return rel(p.Path()) })
	return s
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		// nil or zero value of an aggregate
		switch u := c.Type().Underlying().(type) {
		case *types.Struct:
			return zeroStruct(c.Type(), u)
		case *types.Array:
			return mk("zero", typeKey(c.Type()))
		}
		return tNil
	}
	return mk("const", c.Value.ExactString())
}

func zeroStruct(t types.Type, u *types.Struct) *Term {
	kvs := []*Term{}
	for i := 0; i < u.NumFields(); i++ {
		kvs = append(kvs, mk("kv", u.Field(i).Name(), zeroOf(u.Field(i).Type())))
	}
	return mk("new", typeKey(t), kvs...)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsString != 0:
			return mk("const", `""`)
		case u.Info()&types.IsNumeric != 0:
			return tInt(0)
		}
		return tNil
	case *types.Struct:
		return zeroStruct(t, u)
	case *types.Array:
		return mk("zero", typeKey(t))
	}
	return tNil
}

var _ = fmt.Sprintf
