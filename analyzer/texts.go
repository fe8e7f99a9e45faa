package main

import (
	"strconv"
	"strings"
)

// Texts of a known shape: constants and pieces of which only the characters they consist of are known.

const pieceMark = ".text"

func piece(name string) *Term { return sym(name + pieceMark) }

func isPiece(t *Term) bool { return t.Op == "sym" && strings.HasSuffix(t.Name, pieceMark) }

func textTerm(ps []part) *Term {
	var t *Term
	for _, p := range ps {
		x := p.child
		if x == nil {
			x = mk("const", strconv.Quote(p.text))
		}
		if t == nil {
			t = x
		} else {
			t = mk("bin", "+", t, x)
		}
	}
	if t == nil {
		return mk("const", `""`)
	}
	return t
}

func normParts(ps []part) []part {
	var out []part
	for _, p := range ps {
		if p.child == nil && p.text == "" {
			continue
		}
		if p.child == nil && len(out) > 0 && out[len(out)-1].child == nil {
			out[len(out)-1].text += p.text
			continue
		}
		out = append(out, p)
	}
	return out
}

// place is a position in a text: so many bytes after the start, or before the end.
type place struct {
	n   int
	end bool
}

// evalText is the shape of a text: pieces and constants. Pieces consist of at least one character; of letters, digits,
// signs and dots, or, for elements, of anything but braces and without space around them.
func evalText(t *Term) ([]part, bool) {
	t = stripText(t)
	if s, ok := strOf(t); ok {
		return normParts([]part{{text: s}}), true
	}
	if isPiece(t) {
		return []part{{child: t}}, true
	}
	switch {
	case t.Op == "bin" && t.Name == "+":
		var out []part
		for _, a := range t.Args {
			ps, ok := evalText(a)
			if !ok {
				return nil, false
			}
			out = append(out, ps...)
		}
		return normParts(out), true
	case t.Op == "slice":
		ps, ok := evalText(t.Args[0])
		if !ok {
			return nil, false
		}
		lo, ok := evalPlace(t.Args[1])
		if !ok || lo.end {
			return nil, false
		}
		hi := place{0, true}
		if len(t.Args) > 2 && t.Args[2].Op != "end" {
			if hi, ok = evalPlace(t.Args[2]); !ok {
				return nil, false
			}
		}
		return cutParts(ps, lo, hi)
	case t.Op == "call":
		var as [][]part
		for i, a := range t.Args {
			if t.Name == "strings.Replace" && i == 3 {
				break
			}
			ps, ok := evalText(a)
			if !ok {
				return nil, false
			}
			as = append(as, ps)
		}
		konst := func(i int) (string, bool) {
			if i >= len(as) {
				return "", false
			}
			if len(as[i]) == 0 {
				return "", true
			}
			return as[i][0].text, len(as[i]) == 1 && as[i][0].child == nil
		}
		switch t.Name {
		case "strings.Replace", "strings.ReplaceAll":
			old, ok1 := konst(1)
			new, ok2 := konst(2)
			n := int64(-1)
			if t.Name == "strings.Replace" {
				n, _ = intOf(t.Args[3])
			}
			if !ok1 || !ok2 || old == "" {
				return nil, false
			}
			if !strings.ContainsAny(old, "lnoty") {
				return nil, false // may be part of a piece
			}
			var out []part
			for _, p := range as[0] {
				if p.child != nil && anyText(p.child) {
					return nil, false
				}
				if p.child == nil {
					c := strings.Count(p.text, old)
					if n >= 0 && int64(c) > n {
						return nil, false
					}
					p.text = strings.Replace(p.text, old, new, -1)
					if n >= 0 {
						n -= int64(c)
					}
				}
				out = append(out, p)
			}
			return normParts(out), true
		case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
			c, ok := konst(1)
			ps := as[0]
			if !ok || len(ps) == 0 {
				return ps, ok
			}
			out := append([]part{}, ps...)
			if t.Name != "strings.TrimSuffix" && t.Name != "strings.TrimRight" {
				if out[0].child != nil || t.Name != "strings.TrimPrefix" && strings.Trim(out[0].text, c) == "" && len(out) > 1 {
					if !notAtEdge(c, t.Name == "strings.TrimPrefix", out[:min(2, len(out))]) {
						return nil, false
					}
				}
				if out[0].child != nil {
					return out, true
				}
				if t.Name == "strings.TrimPrefix" {
					if len(out[0].text) < len(c) && len(out) > 1 {
						return nil, false
					}
					out[0].text = strings.TrimPrefix(out[0].text, c)
				} else {
					out[0].text = strings.TrimLeft(out[0].text, c)
				}
			}
			last := len(out) - 1
			if t.Name != "strings.TrimPrefix" && t.Name != "strings.TrimLeft" {
				if out[last].child != nil || t.Name != "strings.TrimSuffix" && strings.Trim(out[last].text, c) == "" && len(out) > 1 {
					if !notAtEdge(c, t.Name == "strings.TrimSuffix", out[max(0, last-1):]) {
						return nil, false
					}
				}
				if out[last].child != nil {
					return normParts(out), true
				}
				if t.Name == "strings.TrimSuffix" {
					if len(out[last].text) < len(c) && len(out) > 1 {
						return nil, false
					}
					out[last].text = strings.TrimSuffix(out[last].text, c)
				} else {
					out[last].text = strings.TrimRight(out[last].text, c)
				}
			}
			return normParts(out), true
		case "strings.TrimSpace":
			out := append([]part{}, as[0]...)
			if len(out) > 0 && out[0].child == nil {
				out[0].text = strings.TrimLeft(out[0].text, " \t\r\n")
			}
			if n := len(out) - 1; n >= 0 && out[n].child == nil {
				out[n].text = strings.TrimRight(out[n].text, " \t\r\n")
			}
			return normParts(out), true
		}
	}
	return nil, false
}

// notAtEdge: what is trimmed is not part of the unknown text at the edge.
func notAtEdge(c string, whole bool, ps []part) bool {
	if !whole && strings.Trim(c, " \t\r\n") == "" {
		return true // white space around a text is not part of it
	}
	for _, p := range ps {
		if p.child != nil && anyText(p.child) {
			return false
		}
	}
	if whole {
		return strings.ContainsAny(c, notInPiece)
	}
	return strings.Trim(c, notInPiece) == ""
}

// notInPiece are characters that the unknown part of a literal does not have.
const notInPiece = "lnoty(){}[] "

// anyText: the unknown text may have any character.
func anyText(t *Term) bool { return strings.Contains(t.Name, "comment ") }

func cutParts(ps []part, lo, hi place) ([]part, bool) {
	out := append([]part{}, ps...)
	if hi.end {
		for hi.n > 0 {
			if len(out) == 0 || out[len(out)-1].child != nil || len(out[len(out)-1].text) < hi.n {
				return nil, false
			}
			l := &out[len(out)-1]
			l.text = l.text[:len(l.text)-hi.n]
			hi.n = 0
		}
	} else {
		if len(out) == 0 || out[0].child != nil || len(out[0].text) < hi.n {
			return nil, hi.n == 0
		}
		out = []part{{text: out[0].text[:hi.n]}}
	}
	if lo.n > 0 {
		if len(out) == 0 || out[0].child != nil || len(out[0].text) < lo.n {
			return nil, false
		}
		out[0].text = out[0].text[lo.n:]
	}
	return normParts(out), true
}

func evalPlace(t *Term) (place, bool) {
	if n, ok := intOf(t); ok {
		return place{int(n), false}, n >= 0
	}
	switch {
	case t.Op == "len":
		ps, ok := evalText(t.Args[0])
		if !ok {
			return place{}, false
		}
		if len(ps) == 0 {
			return place{0, false}, true
		}
		if len(ps) == 1 && ps[0].child == nil {
			return place{len(ps[0].text), false}, true
		}
		return place{0, true}, true
	case t.Op == "bin" && (t.Name == "+" || t.Name == "-"):
		a, ok1 := evalPlace(t.Args[0])
		k, ok2 := intOf(t.Args[1])
		if t.Name == "+" && !ok2 {
			a, ok1 = evalPlace(t.Args[1])
			k, ok2 = intOf(t.Args[0])
		}
		if !ok1 || !ok2 {
			return place{}, false
		}
		if (t.Name == "-") != a.end {
			k = -k
		}
		a.n += int(k)
		return a, a.n >= 0
	case t.Op == "call" && (t.Name == "strings.Index" || t.Name == "strings.LastIndex" || t.Name == "strings.IndexByte" || t.Name == "strings.LastIndexByte"):
		ps, ok := evalText(t.Args[0])
		c, ok2 := strOf(t.Args[1])
		if n, ok3 := intOf(t.Args[1]); !ok2 && ok3 && n < 128 {
			c, ok2 = string(rune(n)), true
		}
		if !ok || !ok2 || len(ps) == 0 {
			return place{}, false
		}
		if strings.HasPrefix(t.Name, "strings.Index") {
			if ps[0].child != nil || !strings.Contains(ps[0].text, c) {
				return place{}, false
			}
			return place{strings.Index(ps[0].text, c), false}, true
		}
		l := ps[len(ps)-1]
		if l.child != nil || !strings.Contains(l.text, c) {
			return place{}, false
		}
		i := strings.LastIndex(l.text, c)
		if len(ps) == 1 {
			return place{i, false}, true
		}
		return place{len(l.text) - i, true}, true
	}
	return place{}, false
}

// decideText decides conditions about texts of a known shape.
func decideText(t *Term) (bool, bool) {
	if t.Op == "call" && (t.Name == "strings.HasPrefix" || t.Name == "strings.HasSuffix") {
		ps, ok := evalText(t.Args[0])
		c, ok2 := strOf(t.Args[1])
		if !ok || !ok2 {
			return false, false
		}
		if len(ps) == 0 {
			return c == "", true
		}
		p, f := ps[0], strings.HasPrefix
		if t.Name == "strings.HasSuffix" {
			p, f = ps[len(ps)-1], strings.HasSuffix
		}
		if p.child != nil {
			if !anyText(p.child) && strings.ContainsAny(c, "lnoty(){}") {
				return false, true
			}
			return false, false
		}
		if f(p.text, c) {
			return true, true
		}
		if len(p.text) >= len(c) || len(ps) == 1 {
			return false, true
		}
		return false, false
	}
	if t.Op != "bin" || len(t.Args) != 2 {
		return false, false
	}
	num := func(t *Term) (int, bool) { // a number, as far as it is known
		t = noConv(t)
		if n, ok := intOf(t); ok {
			return int(n), true
		}
		if t.Op == "index" {
			ps, ok := evalText(t.Args[0])
			i, ok2 := evalPlace(t.Args[1])
			if !ok || !ok2 || len(ps) == 0 {
				return 0, false
			}
			p, k := ps[0], i.n
			if i.end {
				p = ps[len(ps)-1]
				k = len(p.text) - i.n
			}
			if p.child != nil || k < 0 || k >= len(p.text) {
				return 0, false
			}
			return int(p.text[k]), true
		}
		return 0, false
	}
	a, b := t.Args[0], t.Args[1]
	x, ok1 := num(a)
	y, ok2 := num(b)
	if ok1 && ok2 {
		switch t.Name {
		case "==":
			return x == y, true
		case "<":
			return x < y, true
		case "<=":
			return x <= y, true
		}
		return false, false
	}
	// a piece does not start with a bracket
	if t.Name == "==" {
		for _, m := range [][2]*Term{{a, b}, {b, a}} {
			n, ok := intOf(m[1])
			i := noConv(m[0])
			if !ok {
				continue
			}
			if i.Op == "index" {
				if ps, ok := evalText(i.Args[0]); ok && len(ps) > 0 && (n == '(' || n == ')' || n == '{' || n == '}') {
					k, ok := evalPlace(i.Args[1])
					if ok && k == (place{0, false}) && ps[0].child != nil || ok && k == (place{1, true}) && ps[len(ps)-1].child != nil {
						return false, true
					}
				}
			}
			if i.Op == "len" && n == 0 {
				if ps, ok := evalText(i.Args[0]); ok {
					return len(ps) == 0, true
				}
			}
		}
	}
	// lengths
	for _, m := range []struct {
		l, c *Term
		lt   bool
	}{{a, b, false}, {b, a, true}} {
		n, ok := intOf(m.c)
		l := noConv(m.l)
		if !ok || l.Op != "len" || t.Name != "<" && t.Name != "==" {
			continue
		}
		ps, ok := evalText(l.Args[0])
		if !ok {
			continue
		}
		min := 0
		exact := true
		for _, p := range ps {
			if p.child != nil {
				min++
				exact = false
			} else {
				min += len(p.text)
			}
		}
		switch {
		case t.Name == "==" && exact:
			return min == int(n), true
		case t.Name == "==" && int(n) < min:
			return false, true
		case t.Name == "<" && m.lt && int(n) < min: // n < len
			return true, true
		case t.Name == "<" && !m.lt && int(n) <= min: // len < n
			return false, true
		case t.Name == "<" && exact && m.lt:
			return int(n) < min, true
		case t.Name == "<" && exact:
			return min < int(n), true
		}
	}
	return false, false
}
