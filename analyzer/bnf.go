package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The grammar of the language, as written in relapse/bnf/all.bnf.
type bnf struct {
	lexNames []string // in order
	lex      map[string]*lexNode
	prods    []bnfProd // the productions, without the one for the start symbol
	lits     []string  // spelled tokens, in order of appearance
	isNT     map[string]bool
}

type bnfProd struct {
	head   string
	body   []bnfSym
	action string // without << and >>
	pos    string
}

type bnfSym struct {
	name string
	lit  bool // a token that is spelled in the grammar
}

type lexNode struct {
	op     string // char, dot, seq, alt, opt, rep, ref
	lo, hi rune
	name   string
	kids   []*lexNode
}

type bnfTok struct {
	kind string // id, char, str, action, or the punctuation itself
	text string
	line int
}

func bnfScan(src []byte) ([]bnfTok, error) {
	var out []bnfTok
	line := 1
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case bytes.HasPrefix(src[i:], []byte("//")):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case bytes.HasPrefix(src[i:], []byte("/*")):
			j := bytes.Index(src[i:], []byte("*/"))
			if j < 0 {
				return nil, fmt.Errorf("line %d: comment without end", line)
			}
			line += bytes.Count(src[i:i+j], []byte("\n"))
			i += j + 2
		case bytes.HasPrefix(src[i:], []byte("<<")):
			j := bytes.Index(src[i:], []byte(">>"))
			if j < 0 {
				return nil, fmt.Errorf("line %d: action without end", line)
			}
			out = append(out, bnfTok{"action", strings.TrimSpace(string(src[i+2 : i+j])), line})
			line += bytes.Count(src[i:i+j], []byte("\n"))
			i += j + 2
		case c == '"':
			j := bytes.IndexByte(src[i+1:], '"')
			if j < 0 {
				return nil, fmt.Errorf("line %d: text without end", line)
			}
			out = append(out, bnfTok{"str", string(src[i+1 : i+1+j]), line})
			i += j + 2
		case c == '\'':
			j := i + 1
			var r rune
			if src[j] == '\\' {
				switch src[j+1] {
				case 'n':
					r = '\n'
				case 't':
					r = '\t'
				case 'r':
					r = '\r'
				default:
					r = rune(src[j+1])
				}
				j += 2
			} else {
				var n int
				r, n = utf8.DecodeRune(src[j:])
				j += n
			}
			if src[j] != '\'' {
				return nil, fmt.Errorf("line %d: character without end", line)
			}
			out = append(out, bnfTok{"char", string(r), line})
			i = j + 1
		case c == '_' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '\'' || unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			out = append(out, bnfTok{"id", string(src[i:j]), line})
			i = j
		case strings.IndexByte(":;|()[]{}.-", c) >= 0:
			out = append(out, bnfTok{string(c), string(c), line})
			i++
		default:
			return nil, fmt.Errorf("line %d: character %q", line, c)
		}
	}
	return out, nil
}

type bnfParser struct {
	toks []bnfTok
	i    int
}

func (b *bnfParser) peek() bnfTok {
	if b.i < len(b.toks) {
		return b.toks[b.i]
	}
	return bnfTok{}
}

func (b *bnfParser) next() bnfTok {
	t := b.peek()
	b.i++
	return t
}

func (b *bnfParser) want(kind string) bnfTok {
	t := b.next()
	if t.kind != kind {
		failAnchor("relapse/bnf/all.bnf:%d: found %q where %q is expected", t.line, t.text, kind)
	}
	return t
}

func (b *bnfParser) alt(end ...string) *lexNode {
	n := &lexNode{op: "alt"}
	for {
		n.kids = append(n.kids, b.seq())
		if b.peek().kind != "|" {
			break
		}
		b.next()
	}
	if len(n.kids) == 1 {
		return n.kids[0]
	}
	return n
}

func (b *bnfParser) seq() *lexNode {
	n := &lexNode{op: "seq"}
	for {
		t := b.peek()
		switch t.kind {
		case "char":
			b.next()
			lo := []rune(t.text)[0]
			hi := lo
			if b.peek().kind == "-" {
				b.next()
				hi = []rune(b.want("char").text)[0]
			}
			n.kids = append(n.kids, &lexNode{op: "char", lo: lo, hi: hi})
		case ".":
			b.next()
			n.kids = append(n.kids, &lexNode{op: "dot"})
		case "id":
			b.next()
			n.kids = append(n.kids, &lexNode{op: "ref", name: t.text})
		case "(", "[", "{":
			b.next()
			k := b.alt()
			b.want(map[string]string{"(": ")", "[": "]", "{": "}"}[t.kind])
			switch t.kind {
			case "[":
				k = &lexNode{op: "opt", kids: []*lexNode{k}}
			case "{":
				k = &lexNode{op: "rep", kids: []*lexNode{k}}
			}
			n.kids = append(n.kids, k)
		default:
			if len(n.kids) == 0 {
				failAnchor("relapse/bnf/all.bnf:%d: found %q in a lexical rule", t.line, t.text)
			}
			if len(n.kids) == 1 {
				return n.kids[0]
			}
			return n
		}
	}
}

// loadBNF reads the grammar of the language.
func loadBNF(p *Prog) *bnf {
	file := filepath.Join(p.Dir, "relapse", "bnf", "all.bnf")
	src, err := os.ReadFile(file)
	if err != nil {
		failAnchor("%v", err)
	}
	toks, err := bnfScan(src)
	if err != nil {
		failAnchor("relapse/bnf/all.bnf: %v", err)
	}
	b := &bnfParser{toks: toks}
	g := &bnf{lex: map[string]*lexNode{}, isNT: map[string]bool{}}
	seenLit := map[string]bool{}
	for b.i < len(b.toks) {
		if b.peek().kind == "action" { // the file header
			b.next()
			continue
		}
		head := b.want("id")
		b.want(":")
		if !unicode.IsUpper(rune(head.text[0])) {
			g.lexNames = append(g.lexNames, head.text)
			g.lex[head.text] = b.alt()
			b.want(";")
			continue
		}
		g.isNT[head.text] = true
		for {
			pr := bnfProd{head: head.text, pos: fmt.Sprintf("relapse/bnf/all.bnf:%d", b.peek().line)}
			for b.peek().kind == "id" || b.peek().kind == "str" {
				t := b.next()
				pr.body = append(pr.body, bnfSym{t.text, t.kind == "str"})
				if t.kind == "str" && !seenLit[t.text] {
					seenLit[t.text] = true
					g.lits = append(g.lits, t.text)
				}
			}
			if b.peek().kind == "action" {
				pr.action = b.next().text
			}
			g.prods = append(g.prods, pr)
			if t := b.next(); t.kind == ";" {
				break
			} else if t.kind != "|" {
				failAnchor("relapse/bnf/all.bnf:%d: found %q after a production", t.line, t.text)
			}
		}
	}
	if len(g.prods) == 0 {
		failAnchor("relapse/bnf/all.bnf has no productions")
	}
	return g
}

// terminal reports whether the symbol is a token.
func (g *bnf) terminal(s bnfSym) bool { return s.lit || !g.isNT[s.name] }

// tokens are the names of the tokens: the spelled ones and the lexical rules that are not helpers.
func (g *bnf) tokens() []string {
	out := append([]string{}, g.lits...)
	for _, n := range g.lexNames {
		if n[0] != '_' {
			out = append(out, n)
		}
	}
	return out
}

// ---- the lexical rules as a deterministic automaton

type nfaEdge struct {
	dot    bool
	lo, hi rune
	to     int
}

type nfa struct {
	eps    [][]int
	edges  [][]nfaEdge
	accept map[int]int // state to priority of token
}

func (n *nfa) state() int {
	n.eps = append(n.eps, nil)
	n.edges = append(n.edges, nil)
	return len(n.eps) - 1
}

func (n *nfa) build(g *bnf, x *lexNode, from int, depth int) int {
	if depth > 60 {
		failAnchor("the lexical rules of relapse/bnf/all.bnf refer to themselves")
	}
	switch x.op {
	case "char":
		to := n.state()
		n.edges[from] = append(n.edges[from], nfaEdge{lo: x.lo, hi: x.hi, to: to})
		return to
	case "dot":
		to := n.state()
		n.edges[from] = append(n.edges[from], nfaEdge{dot: true, to: to})
		return to
	case "seq":
		for _, k := range x.kids {
			from = n.build(g, k, from, depth+1)
		}
		return from
	case "alt":
		to := n.state()
		for _, k := range x.kids {
			e := n.build(g, k, from, depth+1)
			n.eps[e] = append(n.eps[e], to)
		}
		return to
	case "opt":
		to := n.state()
		e := n.build(g, x.kids[0], from, depth+1)
		n.eps[e] = append(n.eps[e], to)
		n.eps[from] = append(n.eps[from], to)
		return to
	case "rep":
		loop, to := n.state(), n.state()
		n.eps[from] = append(n.eps[from], loop)
		e := n.build(g, x.kids[0], loop, depth+1)
		n.eps[e] = append(n.eps[e], loop)
		n.eps[loop] = append(n.eps[loop], to)
		return to
	case "ref":
		d := g.lex[x.name]
		if d == nil {
			failAnchor("relapse/bnf/all.bnf has no lexical rule %s", x.name)
		}
		// a rule that is used in a branch of an alternative starts at a state of its own
		s := n.state()
		n.eps[from] = append(n.eps[from], s)
		return n.build(g, d, s, depth+1)
	}
	panic(x.op)
}

// dfa of all tokens; state 0 is the start, -1 is dead
type dfa struct {
	bounds []rune  // the runes are split into [bounds[i], bounds[i+1])
	next   [][]int // state, class
	accept []string
}

func (d *dfa) class(r rune) int {
	return sort.Search(len(d.bounds), func(i int) bool { return d.bounds[i] > r }) - 1
}

func (d *dfa) step(q int, r rune) int {
	if q < 0 {
		return -1
	}
	return d.next[q][d.class(r)]
}

// dfa makes the automaton; what is not matched by a range is matched by the dot, as the generator has it,
// and a spelled token wins from a lexical rule.
func (g *bnf) dfa(extra ...rune) *dfa {
	n := &nfa{accept: map[int]int{}}
	start := n.state()
	toks := g.tokens()
	for i, t := range toks {
		s := n.state()
		n.eps[start] = append(n.eps[start], s)
		var e int
		if i < len(g.lits) {
			x := &lexNode{op: "seq"}
			for _, r := range t {
				x.kids = append(x.kids, &lexNode{op: "char", lo: r, hi: r})
			}
			e = n.build(g, x, s, 0)
		} else {
			e = n.build(g, g.lex[t], s, 0)
		}
		if _, dup := n.accept[e]; dup {
			failAnchor("two tokens end in the same state")
		}
		n.accept[e] = i
	}
	bs := map[rune]bool{0: true}
	for _, r := range extra {
		bs[r] = true
	}
	for _, es := range n.edges {
		for _, e := range es {
			if !e.dot {
				bs[e.lo], bs[e.hi+1] = true, true
			}
		}
	}
	d := &dfa{}
	for r := range bs {
		if r >= 0 {
			d.bounds = append(d.bounds, r)
		}
	}
	sort.Slice(d.bounds, func(i, j int) bool { return d.bounds[i] < d.bounds[j] })
	closure := func(set map[int]bool) []int {
		var work, out []int
		for s := range set {
			work = append(work, s)
		}
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			for _, e := range n.eps[s] {
				if !set[e] {
					set[e] = true
					work = append(work, e)
				}
			}
		}
		for s := range set {
			out = append(out, s)
		}
		sort.Ints(out)
		return out
	}
	ids := map[string]int{}
	var sets [][]int
	add := func(set []int) int {
		k := fmt.Sprint(set)
		if i, ok := ids[k]; ok {
			return i
		}
		ids[k] = len(sets)
		sets = append(sets, set)
		best := -1
		for _, s := range set {
			if a, ok := n.accept[s]; ok && (best < 0 || a < best) {
				best = a
			}
		}
		name := ""
		if best >= 0 {
			name = toks[best]
		}
		d.accept = append(d.accept, name)
		return len(sets) - 1
	}
	add(closure(map[int]bool{start: true}))
	for q := 0; q < len(sets); q++ {
		row := make([]int, len(d.bounds))
		for c, r := range d.bounds {
			to, dots := map[int]bool{}, map[int]bool{}
			for _, s := range sets[q] {
				for _, e := range n.edges[s] {
					if e.dot {
						dots[e.to] = true
					} else if e.lo <= r && r <= e.hi {
						to[e.to] = true
					}
				}
			}
			if len(to) == 0 {
				to = dots
			}
			if len(to) == 0 {
				row[c] = -1
			} else {
				row[c] = add(closure(to))
			}
		}
		d.next = append(d.next, row)
	}
	return d
}

// lexemeEnds are the states in which a token ends.
func (d *dfa) ends(tok string) []int {
	var out []int
	for q, a := range d.accept {
		if a == tok {
			out = append(out, q)
		}
	}
	return out
}

// starts are the classes of runes that a token starts with.
func (d *dfa) starts(tok string) []int {
	// the states from which the token can still be reached
	can := map[int]bool{}
	for _, q := range d.ends(tok) {
		can[q] = true
	}
	for ch := true; ch; {
		ch = false
		for q, row := range d.next {
			if can[q] {
				continue
			}
			for _, to := range row {
				if to >= 0 && can[to] {
					can[q], ch = true, true
					break
				}
			}
		}
	}
	var out []int
	for c, to := range d.next[0] {
		if to >= 0 && can[to] {
			out = append(out, c)
		}
	}
	return out
}
