package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "other", jsonTokenRule)
}

// byteSet is a set of values of a byte.
type byteSet [4]uint64

func (b byteSet) has(c byte) bool { return b[c>>6]>>(c&63)&1 == 1 }
func (b *byteSet) drop(c byte)    { b[c>>6] &^= 1 << (c & 63) }
func (b byteSet) empty() bool     { return b == byteSet{} }
func (b byteSet) only() (byte, bool) {
	n, v := 0, byte(0)
	for c := 0; c < 256; c++ {
		if b.has(byte(c)) {
			n++
			v = byte(c)
		}
	}
	return v, n == 1
}

var anyByte = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func byteSym(i int) *Term { return sym("byte:" + strconv.Itoa(i)) }

func isByteSym(t *Term) (int, bool) {
	if t.Op == "sym" && strings.HasPrefix(t.Name, "byte:") {
		n, err := strconv.Atoi(t.Name[5:])
		return n, err == nil
	}
	return 0, false
}

// evalByte is the value of a term when the only byte in it has a value.
func evalByte(t *Term, at int, v byte) (int64, bool) {
	if i, ok := isByteSym(t); ok {
		return int64(v), i == at
	}
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	if n, ok := intOf(t); ok {
		return n, true
	}
	switch {
	case t.isTrue():
		return 1, true
	case t.isFalse():
		return 0, true
	case t.Op == "conv":
		x, ok := evalByte(t.Args[0], at, v)
		if !ok {
			return 0, false
		}
		switch t.Name {
		case "uint8", "byte":
			return x & 255, true
		case "int8":
			return int64(int8(x)), true
		case "uint16":
			return x & 65535, true
		case "int", "int64", "uint", "uint64", "int32", "rune", "uint32", "int16":
			return x, x >= 0
		}
	case t.Op == "un":
		x, ok := evalByte(t.Args[0], at, v)
		if t.Name == "!" {
			return 1 - x, ok
		}
	case t.Op == "bin" && len(t.Args) == 2:
		x, ok1 := evalByte(t.Args[0], at, v)
		y, ok2 := evalByte(t.Args[1], at, v)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.Name {
		case "==":
			return b2i(x == y), true
		case "<":
			return b2i(x < y), true
		case "+":
			return x + y, x+y < 256
		case "-":
			return (x - y) & 255, true // bytes
		case "|":
			return x | y, true
		case "&":
			return x & y, true
		case "^":
			return x ^ y, true
		}
	case t.Op == "index" && t.Args[0].Op == "list":
		x, ok := evalByte(t.Args[1], at, v)
		if ok && x >= 0 && int(x) < len(t.Args[0].Args) {
			return evalByte(t.Args[0].Args[x], at, v)
		}
	}
	return 0, false
}

// bytesIn are the bytes a term mentions.
func bytesIn(t *Term) []int {
	found := map[int]bool{}
	t.any(func(u *Term) bool {
		if i, ok := isByteSym(u); ok {
			found[i] = true
		}
		return false
	})
	var out []int
	for i := range found {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

// asBytes are the bytes of a text.
func asBytes(t *Term) ([]*Term, bool) {
	switch {
	case t == tNil:
		return nil, true
	case t.Op == "list":
		return t.Args, true
	case t.Op == "conv":
		return asBytes(t.Args[0])
	case t.Op == "const":
		if s, ok := strOf(t); ok {
			var out []*Term
			for i := 0; i < len(s); i++ {
				out = append(out, tInt(int64(s[i])))
			}
			return out, true
		}
	}
	return nil, false
}

func strOf(t *Term) (string, bool) {
	if t.Op != "const" || !strings.HasPrefix(t.Name, "\"") {
		return "", false
	}
	s, err := strconv.Unquote(t.Name)
	return s, err == nil
}

// word2 is a text that the bytes from some place on are not.
type notWord struct {
	at   int
	word []*Term
}

// textCompare recognises a comparison of two texts.
func textCompare(t *Term) (a, b []*Term, ok bool) {
	if t.Op == "call" && len(t.Args) == 2 && (strings.HasSuffix(t.Name, "bytes.Equal")) || t.Op == "bin" && t.Name == "==" {
		a, ok1 := asBytes(t.Args[0])
		b, ok2 := asBytes(t.Args[1])
		return a, b, ok1 && ok2
	}
	return nil, nil, false
}

// jsonBytes runs one of the parser's methods on a document some of whose bytes are not known.
type jsonBytes struct {
	x    *parserImpl
	doc  []*Term
	sets []byteSet
}

// pattern makes a document: ? is any byte, ~ any byte of ASCII.
func (j *jsonBytes) pattern(prefix string, n int, suffix string, ascii bool) {
	j.doc, j.sets = nil, nil
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			j.doc = append(j.doc, tInt(int64(s[i])))
			var b byteSet
			b[s[i]>>6] |= 1 << (s[i] & 63)
			j.sets = append(j.sets, b)
		}
	}
	add(prefix)
	for i := 0; i < n; i++ {
		j.doc = append(j.doc, byteSym(len(j.doc)))
		b := anyByte
		if ascii {
			b[2], b[3] = 0, 0
		}
		j.sets = append(j.sets, b)
	}
	add(suffix)
}

// know finds what each byte may be on a path.
func (j *jsonBytes) know(st *State) (sets []byteSet, not []notWord, feasible bool) {
	sets = append(sets, j.sets...)
	for f, holds := range st.facts {
		at := bytesIn(f)
		if len(at) == 1 && at[0] < len(sets) {
			i := at[0]
			for c := 0; c < 256; c++ {
				if !sets[i].has(byte(c)) {
					continue
				}
				if v, ok := evalByte(f, i, byte(c)); ok && (v != 0) != holds {
					sets[i].drop(byte(c))
				}
			}
		}
	}
	for f, holds := range st.facts {
		a, b, ok := textCompare(f)
		if !ok {
			continue
		}
		if len(a) != len(b) {
			if holds {
				return nil, nil, false
			}
			continue
		}
		if len(a) == 0 {
			if !holds {
				return nil, nil, false
			}
			continue
		}
		first := -1
		for k := range a {
			x, y := a[k], b[k]
			i, ok := isByteSym(x)
			if !ok {
				x, y = y, x
				i, ok = isByteSym(x)
			}
			n, isC := intOf(y)
			if ok && isC && first < 0 {
				first = i - k
			}
			if holds && ok && isC {
				for c := 0; c < 256; c++ {
					if int64(c) != n {
						sets[i].drop(byte(c))
					}
				}
			}
		}
		if !holds {
			w := notWord{at: first}
			for k := range a {
				if _, ok := isByteSym(a[k]); ok || intConst(b[k]) {
					w.word = append(w.word, b[k])
				} else {
					w.word = append(w.word, a[k])
				}
			}
			if first >= 0 {
				not = append(not, w)
			}
		}
	}
	for _, b := range sets {
		if b.empty() {
			return nil, nil, false
		}
	}
	return sets, not, true
}

func intConst(t *Term) bool {
	_, ok := intOf(t)
	return ok
}

// byteClasses are representatives of bytes that the grammar of json treats alike.
var byteClasses = func() (out [][]byte) {
	groups := map[string]int{}
	for c := 0; c < 256; c++ {
		k := ""
		switch b := byte(c); {
		case b >= 0x80:
			k = "high"
		case b == ' ' || b == '\n' || b == '\r' || b == '\t':
			k = "space"
			if b != ' ' {
				k = "control space"
			}
		case b < 0x20:
			k = "control"
		case b >= '1' && b <= '9':
			k = "digit"
		case strings.IndexByte("acdABCDF", b) >= 0:
			k = "hex"
		case strings.IndexByte("\"\\/bfnrtuels{}[],:.+-eE0", b) >= 0:
			k = string(rune(b))
		default:
			k = "other"
		}
		if _, ok := groups[k]; !ok {
			groups[k] = len(out)
			out = append(out, nil)
		}
		out[groups[k]] = append(out[groups[k]], byte(c))
	}
	return out
}()

// jspec is a state of the grammar of json while it reads a member, an element or a value.
type jspec struct {
	phase        string
	stack        string // open brackets
	name0, name1 int    // the bytes of the name
	value        int    // where the value starts
	kind         string
	after        bool // after a comma
	not          uint // words that still match
}

func (s jspec) with(phase string) jspec { s.phase = phase; return s }

const (
	jErr = "error"
	jEOF = "eof"
	jAny = "any"
)

func (s jspec) ok(end int) string {
	return fmt.Sprintf("ok %s %d %d %d %d", s.kind, s.value, end, s.name0, s.name1)
}

func isJSpace(b byte) bool { return b == ' ' || b == '\n' || b == '\r' || b == '\t' }

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

// inString steps through a string; closed says that b ends it.
func inString(phase string, b byte) (next string, closed, bad bool) {
	switch phase {
	case "str":
		switch {
		case b == '"':
			return "", true, false
		case b == '\\':
			return "esc", false, false
		case b < 0x20:
			return "", false, true
		}
		return "str", false, false
	case "esc":
		if b == 'u' {
			return "u4", false, false
		}
		return "str", false, strings.IndexByte("bfnrt\\/\"", b) < 0
	case "u4", "u3", "u2", "u1":
		if !isHex(b) {
			return "", false, true
		}
		if phase == "u1" {
			return "str", false, false
		}
		return "u" + string(rune(phase[1]-1)), false, false
	}
	return "", false, true
}

// step reads the byte at i. A result ends the reading.
func (s jspec) step(i int, b byte) (jspec, string) {
	if s.phase == "number" {
		s.phase = "int"
	}
	head, rest := s.phase, ""
	if k := strings.IndexByte(s.phase, ' '); k >= 0 {
		head, rest = s.phase[:k], s.phase[k+1:]
	}
	switch head {
	case "object":
		if isJSpace(b) {
			return s, ""
		}
		if b == '{' {
			return s.with("members"), ""
		}
		return s, jErr
	case "array":
		if isJSpace(b) {
			return s, ""
		}
		if b == '[' {
			return s.with("elements"), ""
		}
		return s, jErr
	case "morespace", "nextmember":
		switch {
		case isJSpace(b):
			return s, ""
		case b == ',':
			s.after = true
			return s.with("members"), ""
		case b == '}':
			return s, jEOF
		}
		return s, jErr
	case "nextelement":
		switch {
		case isJSpace(b):
			return s, ""
		case b == ',':
			s.after = true
			return s.with("elements"), ""
		case b == ']':
			return s, jEOF
		}
		return s, jErr
	case "members":
		switch {
		case isJSpace(b):
			return s, ""
		case b == '"':
			s.name0 = i
			return s.with("name str"), ""
		case b == '}':
			if s.after {
				return s, jAny
			}
			return s, jEOF
		}
		return s, jErr
	case "name":
		n, closed, bad := inString(rest, b)
		switch {
		case bad:
			return s, jErr
		case closed:
			s.name1 = i + 1
			return s.with("colon"), ""
		}
		return s.with("name " + n), ""
	case "colon":
		switch {
		case isJSpace(b):
			return s, ""
		case b == ':':
			return s.with("value"), ""
		}
		return s, jErr
	case "elements":
		if b == ']' {
			if s.after {
				return s, jAny
			}
			return s, jEOF
		}
		fallthrough
	case "value", "root":
		if isJSpace(b) {
			return s, ""
		}
		s.value = i
		switch {
		case b == '"':
			s.kind = "string"
			return s.with("string str"), ""
		case b == '{' && head == "root":
			s.kind = "object"
			return s, s.ok(i)
		case b == '{':
			s.kind, s.stack = "object", "{"
			return s.with("nested"), ""
		case b == '[':
			s.kind, s.stack = "array", "["
			return s.with("nested"), ""
		case b == '-':
			s.kind = "leaf"
			return s.with("minus"), ""
		case b == '0':
			s.kind = "leaf"
			return s.with("zero"), ""
		case b >= '1' && b <= '9':
			s.kind = "leaf"
			return s.with("digits"), ""
		case b == 't':
			s.kind = "leaf"
			return s.with("word rue"), ""
		case b == 'f':
			s.kind = "leaf"
			return s.with("word alse"), ""
		case b == 'n':
			s.kind = "leaf"
			return s.with("word ull"), ""
		}
		return s, jErr
	case "string":
		n, closed, bad := inString(rest, b)
		switch {
		case bad:
			return s, jErr
		case closed:
			s.kind = "leaf"
			return s, s.ok(i + 1)
		}
		return s.with("string " + n), ""
	case "word":
		if b != rest[0] {
			return s, jErr
		}
		if len(rest) == 1 {
			return s, s.ok(i + 1)
		}
		return s.with("word " + rest[1:]), ""
	case "nested":
		if rest != "" {
			n, closed, bad := inString(rest, b)
			switch {
			case bad:
				return s, jAny
			case closed:
				return s.with("nested"), ""
			}
			return s.with("nested " + n), ""
		}
		switch b {
		case '"':
			return s.with("nested str"), ""
		case '{', '[':
			s.stack += string(rune(b))
		case '}', ']':
			open := byte('{')
			if b == ']' {
				open = '['
			}
			if s.stack[len(s.stack)-1] != open {
				return s, jAny
			}
			s.stack = s.stack[:len(s.stack)-1]
			if s.stack == "" {
				return s, s.ok(i + 1)
			}
		}
		return s, ""
	case "minus":
		switch {
		case b == '0':
			return s.with("zero"), ""
		case b >= '1' && b <= '9':
			return s.with("digits"), ""
		}
		return s, jAny
	case "zero", "digits":
		switch {
		case head == "digits" && b >= '0' && b <= '9':
			return s, ""
		case b == '.':
			return s.with("point"), ""
		case b == 'e' || b == 'E':
			return s.with("exp"), ""
		}
		return s, s.ok(i)
	case "point", "frac":
		switch {
		case b >= '0' && b <= '9':
			return s.with("frac"), ""
		case head == "point":
			return s, jAny
		case b == 'e' || b == 'E':
			return s.with("exp"), ""
		}
		return s, s.ok(i)
	case "exp", "expsign", "expdigits":
		switch {
		case b >= '0' && b <= '9':
			return s.with("expdigits"), ""
		case head == "exp" && (b == '+' || b == '-'):
			return s.with("expsign"), ""
		case head == "expdigits":
			return s, s.ok(i)
		}
		return s, jAny
	}
	panic("phase " + s.phase)
}

// end is the result when there are no more bytes.
func (s jspec) end(n int) string {
	switch s.phase {
	case "zero", "digits", "frac", "expdigits":
		return s.ok(n)
	case "minus", "point", "exp", "expsign":
		return jAny
	}
	return jErr
}

// outcomes are the results of every document with bytes of the given sets.
func (s jspec) outcomes(from int, sets []byteSet, not []notWord) map[string]bool {
	out := map[string]bool{}
	cur := map[jspec]bool{s: true}
	for i := from; i < len(sets) && len(cur) > 0; i++ {
		next := map[jspec]bool{}
		for q := range cur {
			for _, cl := range byteClasses {
				some := false
				var rep byte
				for _, c := range cl {
					if sets[i].has(c) {
						some, rep = true, c
						break
					}
				}
				if !some {
					continue
				}
				q2 := q
				dead := false
				for k, w := range not {
					if i < w.at || i >= w.at+len(w.word) {
						continue
					}
					if i == w.at {
						q2.not |= 1 << uint(k)
					}
					if n, ok := intOf(w.word[i-w.at]); !ok || n != int64(rep) {
						q2.not &^= 1 << uint(k)
					}
					if i == w.at+len(w.word)-1 {
						if q2.not>>uint(k)&1 == 1 {
							dead = true
						}
						q2.not &^= 1 << uint(k)
					}
				}
				if dead {
					continue
				}
				q3, res := q2.step(i, rep)
				if res != "" {
					// a word that is excluded may still be complete further on
					if q2.not != 0 && strings.HasPrefix(res, "ok") {
						out[jAny] = true
					}
					out[res] = true
				} else {
					next[q3] = true
				}
			}
		}
		cur = next
	}
	for q := range cur {
		out[q.end(len(sets))] = true
	}
	return out
}

// foldStd folds calls of functions of the standard library on constants and models those of unicode.
func (j *jsonBytes) foldStd(st *State, c *Call) bool {
	consts := func(t *Term) ([]byte, bool) {
		ts, ok := asBytes(st.snapshot(t))
		if !ok {
			return nil, false
		}
		var out []byte
		for _, e := range ts {
			n, ok := intOf(e)
			if !ok {
				if i, isB := isByteSym(e); isB {
					if sets, _, feas := j.know(st); feas && i < len(sets) {
						if b, one := sets[i].only(); one {
							n, ok = int64(b), true
						}
					}
				}
			}
			if !ok {
				return nil, false
			}
			out = append(out, byte(n))
		}
		return out, true
	}
	tuple := func(ts ...*Term) { c.Result = mk("tuple", "", ts...) }
	switch c.Callee.String() {
	case "bytes.HasPrefix", "strings.HasPrefix":
		a, ok1 := asBytes(c.Args[0])
		b, ok2 := asBytes(c.Args[1])
		if !ok1 || !ok2 {
			return false
		}
		if len(a) < len(b) {
			c.Result = tBool(false)
		} else {
			c.Result = mk("call", "bytes.Equal", mk("list", "", a[:len(b)]...), mk("list", "", b...))
		}
		return true
	case "strconv.ParseUint":
		base, ok1 := intOf(c.Args[1])
		bits, ok2 := intOf(c.Args[2])
		if bs, ok := consts(c.Args[0]); ok && ok1 && ok2 {
			n, err := strconv.ParseUint(string(bs), int(base), int(bits))
			if err != nil {
				tuple(tInt(0), mk("call", "errors.New", c.Args[0]))
			} else {
				tuple(tInt(int64(n)), tNil)
			}
			return true
		}
		ts, ok := asBytes(c.Args[0])
		if !ok || !ok1 || !ok2 || base != 16 || bits < 16 || len(ts) != 4 {
			return false
		}
		sets, _, feas := j.know(st)
		if !feas {
			st.Kill()
			return true
		}
		all, none := true, false
		for _, t := range ts {
			i, isB := isByteSym(t)
			if n, isC := intOf(t); isC {
				if !isHex(byte(n)) {
					all, none = false, true
				}
				continue
			}
			if !isB {
				return false
			}
			no := true
			for ch := 0; ch < 256; ch++ {
				if sets[i].has(byte(ch)) {
					if isHex(byte(ch)) {
						no = false
					} else {
						all = false
					}
				}
			}
			none = none || no
		}
		h := mk("hex", "", ts...)
		if none {
			tuple(tInt(0), mk("call", "errors.New", h))
		} else if all {
			tuple(h, tNil)
		} else {
			tuple(h, mk("res", "hexError", h))
		}
		return true
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		if bs, ok := consts(c.Args[0]); ok {
			r, n := utf8.DecodeRune(bs)
			tuple(tInt(int64(r)), tInt(int64(n)))
			return true
		}
		// enough constants to know
		ts, ok := asBytes(st.snapshot(c.Args[0]))
		if !ok || len(ts) == 0 {
			return false
		}
		var bs []byte
		for _, t := range ts {
			n, ok := intOf(t)
			if !ok {
				break
			}
			bs = append(bs, byte(n))
		}
		if len(bs) > 0 && utf8.FullRune(bs) {
			r, n := utf8.DecodeRune(bs)
			tuple(tInt(int64(r)), tInt(int64(n)))
			return true
		}
		if i, isB := isByteSym(ts[0]); isB {
			if sets, _, feas := j.know(st); feas && sets[i][0] == 0 && sets[i][1] == 0 {
				// taken to be no part of a character
				tuple(tInt(utf8.RuneError), tInt(1))
				return true
			}
		}
		return false
	case "unicode/utf8.EncodeRune":
		sl, ok := c.Instr.Common().Args[0].(*ssa.Slice)
		if !ok {
			return false
		}
		base := st.val(sl.X)
		lo := int64(0)
		if sl.Low != nil {
			if lo, ok = intOf(st.val(sl.Low)); !ok {
				return false
			}
		}
		r := noConv(c.Args[1])
		var enc []*Term
		if n, ok := intOf(r); ok {
			for _, b := range []byte(string(rune(n))) {
				enc = append(enc, tInt(int64(b)))
			}
		} else {
			enc = append(enc, mk("utf8", "", r))
		}
		size, known := int64(0), false
		if base.Op == "makeslice" {
			size, known = intOf(base.Args[0])
		} else if base.Op == "list" {
			size, known = int64(len(base.Args)), true
		}
		if !known {
			return false
		}
		if lo+int64(len(enc)) > size {
			st.Fail(c.Instr.Pos(), "panics: no room for a character")
			return true
		}
		for k, e := range enc {
			st.mem[mk("ia", "", base, tInt(lo+int64(k)))] = e
		}
		c.Result = tInt(int64(len(enc)))
		return true
	case "unicode/utf8.RuneLen":
		if n, ok := intOf(c.Args[0]); ok {
			c.Result = tInt(int64(utf8.RuneLen(rune(n))))
			return true
		}
	case "unicode/utf16.IsSurrogate":
		if n, ok := intOf(c.Args[0]); ok {
			c.Result = tBool(utf16.IsSurrogate(rune(n)))
			return true
		}
		c.Result = mk("call", "surrogate", noConv(c.Args[0]))
		return true
	case "unicode/utf16.DecodeRune":
		a, ok1 := intOf(c.Args[0])
		b, ok2 := intOf(c.Args[1])
		if ok1 && ok2 {
			c.Result = tInt(int64(utf16.DecodeRune(rune(a), rune(b))))
			return true
		}
		c.Result = mk("call", "pair", noConv(c.Args[0]), noConv(c.Args[1]))
		return true
	}
	return false
}

func (j *jsonBytes) sim() *Sim {
	s := &Sim{P: j.x.p, NoHavoc: true, Unroll: true, MaxState: 400000, MaxDepth: 40, MaxTurns: 40}
	s.Classify = func(st *State, c *Call) Action {
		if c.Callee == nil {
			return Pure
		}
		if j.foldStd(st, c) {
			return Pure
		}
		if inRepo(c.Callee) {
			sig := c.Callee.Signature
			if sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) && sig.Recv() == nil && onlyErrors(c.Callee) {
				c.Result = mk("call", "errors.New", tNil)
				return Pure
			}
			return Inline
		}
		switch c.Callee.String() {
		case "fmt.Errorf", "errors.New":
			c.Result = mk("call", "errors.New", tNil)
		}
		return Pure
	}
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		if len(bytesIn(cond)) > 0 {
			if _, _, ok := j.know(st); !ok {
				st.Kill()
			}
		}
	}
	s.Decide = func(t *Term) (bool, bool) {
		a, b, ok := textCompare(t)
		if !ok || t.Op != "call" && (!isText(t.Args[0]) || !isText(t.Args[1])) {
			return false, false
		}
		if len(a) != len(b) {
			return false, true
		}
		same := true
		for k := range a {
			if intConst(a[k]) && intConst(b[k]) && a[k] != b[k] {
				return false, true
			}
			same = same && a[k] == b[k]
		}
		return same, same
	}
	s.OnBounds = func(st *State, pos tokenPos, what string) {
		if _, _, ok := j.know(st); ok {
			st.Fail(pos, "panics for %s: %s", j.example(st), what)
		}
	}
	s.OnPanic = func(st *State, pos tokenPos) { st.Fail(pos, "panics for %s", j.example(st)) }
	return s
}

func isText(t *Term) bool {
	if _, ok := strOf(t); ok {
		return true
	}
	return t.Op == "conv" && t.Name == "string"
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

// onlyErrors: a function that does nothing but make an error.
func onlyErrors(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok {
			cl := c.Call.StaticCallee()
			if cl != nil && (cl.String() == "fmt.Errorf" || cl.String() == "errors.New") {
				return true
			}
		}
	}
	return false
}

// example is a document of the path.
func (j *jsonBytes) example(st *State) string {
	sets, _, ok := j.know(st)
	if !ok {
		return "?"
	}
	var out []byte
	for _, b := range sets {
		pick := byte(0)
		for _, c := range []byte("x \"0") {
			if b.has(c) {
				pick = c
				break
			}
		}
		if pick == 0 {
			for c := 255; c >= 0; c-- {
				if b.has(byte(c)) {
					pick = byte(c)
				}
			}
		}
		out = append(out, pick)
	}
	return strconv.Quote(string(out))
}

// jsonTokenRule: the scanner reads the tokens that the grammar of json defines.
func jsonTokenRule(p *Prog, r *Report) {
	x := parsers(p, "parser/json")[0]
	x.need("buf", "offset", "name", "startValueOffset", "endValueOffset", "inArray", "firstObjectValue", "firstArrayValue", "isValueObject", "isValueArray", "isLeaf")
	thorough := 0
	if r.Tier == "thorough" {
		thorough = 1
	}
	next, initF := x.fn("Next"), x.fn("Init")
	type doc struct {
		prefix, suffix string
		n              int
		from           int // where reading starts
		phase          string
	}
	var docs []doc
	upto := func(n int, prefix, suffix, phase string) {
		for k := 0; k <= n+thorough; k++ {
			docs = append(docs, doc{prefix: prefix, suffix: suffix, n: k, phase: phase})
		}
	}
	upto(4, `{"":`, ``, "object")
	upto(4, ``, ``, "object")
	upto(4, `{ `, ``, "object")
	upto(4, ``, ``, "nextmember")
	upto(4, ` ,`, ``, "nextmember")
	upto(4, `[`, ``, "array")
	upto(3, ``, ``, "array")
	upto(4, ``, ``, "nextelement")
	upto(4, ` ,`, ``, "nextelement")
	upto(5, `{"":"`, ``, "object")
	upto(5, `{"":"\u`, ``, "object")
	upto(4, `{"`, `":1`, "object")
	upto(4, `{"":1`, ``, "object")
	upto(4, `{"":-0`, ``, "object")
	upto(3, `{"":1.5e`, ``, "object")
	upto(4, `{"":[`, ``, "object")
	upto(4, `{"":{`, ``, "object")
	upto(3, `{"":["\`, ``, "object")
	upto(2, `{"":[{"a":"]"},`, ``, "object")
	upto(2, `{"":{"]":[{}],`, ``, "object")
	upto(2, `{"":tru`, ``, "object")
	upto(2, `{"":fals`, ``, "object")
	upto(2, `{"":nul`, ``, "object")
	upto(1, `{"\u12`, `":1`, "object")
	upto(4, ``, ``, "root")
	upto(3, "\n", ``, "root")
	upto(3, `"\u0`, ``, "root")
	for _, d := range docs {
		d := d
		j := &jsonBytes{x: x}
		ascii := strings.HasSuffix(d.suffix, ":1")
		j.pattern(d.prefix, d.n, d.suffix, ascii)
		began := time.Now()
		j.check(r, next, initF, d.phase)
		if os.Getenv("KD_TIME") != "" {
			fmt.Fprintf(os.Stderr, "%q+%d+%q %s: %s\n", d.prefix, d.n, d.suffix, d.phase, time.Since(began))
		}
	}
	// names and the characters in them
	names := []string{`a`, `é`, `aé`, `é\n`, `\né`, `日本`, `\ud83d\ude00`, `a\ud83d\ude00b`, `\ud83dx`, `\ude00`, `\ud83d\u0041`, `\ud83d\ud83d\ude00`, `\u00e9`, `\uFFFF`, `\u0000`, `\"`, `\\`, `\/`, `\b\f\n\r\t`, `\\u0041`, `\u0041\u0042`, "\xff", "a\xc3", "\xc3(", `\n` + "\xff\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", `😀`, `\t😀`, `\u00e9é`, ``}
	atoms := []string{`a`, `é`, `\n`, `\u0041`, `\ud83d\ude00`, `\ud83d`, `\ude00`, "\xff", `😀`}
	for _, a := range atoms {
		for _, b := range atoms {
			for _, c := range atoms {
				names = append(names, a+b+c)
			}
			names = append(names, a+b)
		}
	}
	for _, nm := range names {
		j := &jsonBytes{x: x}
		j.pattern(`{"`+nm+`":1`, 0, "", false)
		j.check(r, next, initF, "object")
	}
	r.Expect("documents", 100)
	r.Expect("paths", 2000)
	r.Expect("names decoded", 100)
	r.Explain("Next and Init of the json parser are followed over documents whose bytes are not known, up to a given number of them. What a path asks about each byte gives the set of values the byte may have; the grammar of json, written down as an automaton, is then run over these sets, and every result it gives has to be what the path returned: the same error, end, or extent and kind of value, and the same text for a name.")
	r.Assume("A number that is not well formed, a value with brackets of different kinds that do not match, and a comma before the closing bracket may be read in any way or be an error. An unknown character above U+007F that is written with an escape is taken to be encoded by the standard library. Bytes from 0x80 that are not known are taken not to form characters; known ones are decoded as the standard library does.")
}

func (j *jsonBytes) check(r *Report, next, initF *ssa.Function, phase string) {
	x := j.x
	r.Count("documents", 1)
	s := j.sim()
	buf := mk("list", "", j.doc...)
	start := jspec{phase: phase, name0: -1, name1: -1, value: -1}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		sets, not, ok := j.know(st)
		if !ok {
			return
		}
		r.Count("paths", 1)
		err := rets[len(rets)-1]
		isNil, known := st.IsNil(err)
		eof := isEOF(err)
		if !known {
			st.Fail(pos, "undecided: what is returned for %s", j.example(st))
			return
		}
		outs := start.outcomes(0, sets, not)
		for o := range outs {
			switch {
			case o == jAny:
			case o == jErr:
				if isNil || eof {
					st.Fail(pos, "%s is no error (%s)", j.example(st), phase)
				}
			case o == jEOF:
				if !eof {
					st.Fail(pos, "%s is not the end (%s)", j.example(st), phase)
				}
			default:
				if !isNil || eof {
					st.Fail(pos, "%s is an error (%s)", j.example(st), phase)
					return
				}
				j.result(st, r, pos, o, sets, phase)
			}
			if st.dead {
				return
			}
		}
	}
	setup := func(st *State) {
		set := func(name string, v *Term) { st.mem[tFA(tFA(self, x.state), name)] = v }
		set("isLeaf", tBool(false))
		set("buf", buf)
		set("offset", tInt(0))
		set("startValueOffset", tInt(0))
		set("endValueOffset", tInt(0))
		set("name", mk("sym", "earlier name"))
		set("inArray", tBool(phase == "array" || phase == "nextelement"))
		set("firstObjectValue", tBool(phase == "object"))
		set("firstArrayValue", tBool(phase == "array"))
	}
	if phase == "root" {
		s.Run(initF, []*Term{self, buf}, func(st *State) { st.mem[tFA(self, x.stack)] = mk("list", "") })
		r.Sim(fname(initF), s)
	} else {
		s.Run(next, []*Term{self}, setup)
		r.Sim(fname(next), s)
	}
}

// result compares the state of the parser with what the grammar found.
func (j *jsonBytes) result(st *State, r *Report, pos tokenPos, o string, sets []byteSet, phase string) {
	x := j.x
	var kind string
	var v0, v1, n0, n1 int
	fmt.Sscanf(o, "ok %s %d %d %d %d", &kind, &v0, &v1, &n0, &n1)
	bad := func(what string, got *Term) {
		st.Fail(pos, "after %s %s is %s (%s)", j.example(st), what, short(got.String()), phase)
	}
	is := func(name string, want *Term) bool {
		if got := x.now(st, name); got != want {
			bad(name, got)
			return false
		}
		return true
	}
	if phase == "root" {
		switch kind {
		case "object":
			is("offset", tInt(int64(v0)))
		case "array":
			got := x.now(st, "buf")
			if got != mk("list", "", j.doc[v0:v1]...) {
				bad("the array", got)
			}
		default:
			_ = is("startValueOffset", tInt(int64(v0))) && is("endValueOffset", tInt(int64(v1))) && is("isLeaf", tBool(true))
		}
		return
	}
	if !is("startValueOffset", tInt(int64(v0))) || !is("endValueOffset", tInt(int64(v1))) || !is("isValueObject", tBool(kind == "object")) || !is("isValueArray", tBool(kind == "array")) {
		return
	}
	off, ok := intOf(x.now(st, "offset"))
	if !ok || off < int64(v1) || off > int64(len(sets)) {
		bad("offset", x.now(st, "offset"))
		return
	}
	for i := v1; i < int(off); i++ {
		for c := 0; c < 256; c++ {
			if sets[i].has(byte(c)) && !isJSpace(byte(c)) {
				bad("offset", x.now(st, "offset"))
				return
			}
		}
	}
	if n0 >= 0 {
		j.name(st, r, pos, n0+1, n1-1, sets)
	}
}

// name compares the name with the text of the bytes from n0 to n1.
func (j *jsonBytes) name(st *State, r *Report, pos tokenPos, n0, n1 int, sets []byteSet) {
	r.Count("names decoded", 1)
	t := j.x.now(st, "name")
	got, ok := asBytes(st.snapshot(stripText(t)))
	bad := func(why string) {
		st.Fail(pos, "the name of %s is %s%s", j.example(st), short(t.String()), why)
	}
	if !ok {
		bad("")
		return
	}
	// known bytes: the standard library's reading of the name
	var lit []byte
	for i := n0; i < n1; i++ {
		b, one := sets[i].only()
		if !one {
			lit = nil
			break
		}
		lit = append(lit, b)
	}
	if lit != nil || n0 == n1 {
		var want string
		if err := json.Unmarshal([]byte(`"`+string(lit)+`"`), &want); err != nil {
			return
		}
		w := []byte(want)
		if len(w) != len(got) {
			bad(fmt.Sprintf(" and not %q", want))
			return
		}
		for i := range w {
			if !j.isByte(got[i], w[i], sets) {
				bad(fmt.Sprintf(" and not %q", want))
				return
			}
		}
		return
	}
	k := 0
	take := func() *Term {
		if k >= len(got) {
			return nil
		}
		k++
		return got[k-1]
	}
	for i := n0; i < n1; {
		if b, one := sets[i].only(); !one || b != '\\' {
			if sets[i].has('\\') {
				bad(": it is not known whether there is an escape")
				return
			}
			g := take()
			if g == nil {
				bad(": it is too short")
				return
			}
			if sets[i][0] == 0 && sets[i][1] == 0 && !one {
				if g != tInt(0xEF) || take() != tInt(0xBF) || take() != tInt(0xBD) {
					bad(fmt.Sprintf(": byte %d, no part of a character, is %s", i, short(g.String())))
					return
				}
				i++
				continue
			}
			if g != j.doc[i] && !(one && j.isByte(g, b, sets)) {
				bad(fmt.Sprintf(": byte %d is %s", i, short(g.String())))
				return
			}
			i++
			continue
		}
		i++
		if sets[i].has('u') {
			if _, one := sets[i].only(); !one {
				bad(": it is not known which escape it is")
				return
			}
			g := take()
			h := mk("hex", "", j.doc[i+1:i+5]...)
			sur, known := st.Fact(mk("call", "surrogate", h))
			switch {
			case g == nil:
				bad(": it is too short")
				return
			case !known:
				bad(": it is not known whether it is half of a pair")
				return
			case !sur && g == mk("utf8", "", h):
			case sur:
				// no second half follows in these documents: the replacement character
				want := []byte("\uFFFD")
				good := g == tInt(int64(want[0])) && take() == tInt(int64(want[1])) && take() == tInt(int64(want[2]))
				if !good {
					if pair, ok := st.Fact(tEq(mk("call", "pair", h, tInt(-1)), tInt(0xFFFD))); ok && !pair {
						st.Kill() // half a pair does not decode to anything
						return
					}
					bad(": half of a pair is not the replacement character")
					return
				}
			default:
				bad(fmt.Sprintf(": an escape is %s", short(g.String())))
				return
			}
			i += 5
			continue
		}
		esc := map[byte]byte{'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', '/': '/', '"': '"'}
		g := take()
		if g == nil {
			bad(": it is too short")
			return
		}
		for c := 0; c < 256; c++ {
			if !sets[i].has(byte(c)) {
				continue
			}
			want, ok := esc[byte(c)]
			if !ok {
				bad(": an escape that does not exist")
				return
			}
			same := g == j.doc[i] && want == byte(c)
			if !same && !j.isByte(g, want, sets) {
				bad(fmt.Sprintf(": escape %q is %s", rune(c), short(g.String())))
				return
			}
		}
		i++
	}
	if k != len(got) {
		bad(": it is too long")
	}
}

func stripText(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// isByte: a term has the value of a byte.
func (j *jsonBytes) isByte(t *Term, b byte, sets []byteSet) bool {
	if n, ok := intOf(noConv(t)); ok {
		return n == int64(b)
	}
	if i, ok := isByteSym(t); ok {
		v, one := sets[i].only()
		return one && v == b
	}
	return false
}
