From db43e883f3c86144e9a43463c0694eba1fb51874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 01/34] fix: keep duplicate patterns when simplifying an
 interleave

{a; a} asks for two fields, but the simplifier removed one of the two.
---
 relapse/interp/order.go    | 18 ++++++++++++------
 relapse/interp/simplify.go |  4 +++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index d105e8f..428f274 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -49,12 +49,8 @@ func (ps *sortable) Less(i, j int) bool {
 	return ps.list[i].GetTreeNode() == nil
 }
 
-// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
-func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
-	if len(ps) == 0 || len(ps) == 1 {
-		return ps
-	}
-
+// ordered creates a stable order, while taking into account treenodes, and returns the hashes that were used for sorting.
+func ordered(ps []*ast.Pattern) []uint64 {
 	hashes := make([]uint64, len(ps))
 	for i, p := range ps {
 		if p.GetTreeNode() == nil {
@@ -66,6 +62,16 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 
 	sortable := &sortable{hashes, ps}
 	sort.Sort(sortable)
+	return hashes
+}
+
+// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
+func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
+	if len(ps) == 0 || len(ps) == 1 {
+		return ps
+	}
+
+	hashes := ordered(ps)
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index f8eede6..cd8d98c 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -380,7 +380,9 @@ func simplifyInterleave(refs ast.RefLookup, p1, p2 *ast.Pattern) *ast.Pattern {
 	}
 	left := getInterleaves(p1)
 	right := getInterleaves(p2)
-	list := orderedSet(append(left, right...))
+	list := append(left, right...)
+	// duplicates are kept, since each pattern needs to match its own part of the input.
+	ordered(list)
 	var p *ast.Pattern = list[0]
 	for i := range list {
 		if i == 0 {
-- 
2.43.0


From 44462e9192ff8038e079a5827063fe760b731c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 02/34] fix: set the context of conditions inside a repetition

---
 relapse/intern/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/intern/context.go b/relapse/intern/context.go
index 7238cec..83c2451 100644
--- a/relapse/intern/context.go
+++ b/relapse/intern/context.go
@@ -46,7 +46,7 @@ func (c *construct) setContext(p *Pattern) {
 			c.setContext(pp)
 		}
 	case ZeroOrMore:
-		return
+		c.setContext(p.Patterns[0])
 	case Reference:
 		return
 	case Not:
-- 
2.43.0


From 39df1d074547d2905faf631b3ffb621ea719ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 03/34] fix: no conditions lead to no patterns, not to the
 start of the grammar

---
 relapse/mem/ifs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/mem/ifs.go b/relapse/mem/ifs.go
index 62d184b..cff503a 100644
--- a/relapse/mem/ifs.go
+++ b/relapse/mem/ifs.go
@@ -29,7 +29,7 @@ type ifExprs struct {
 }
 
 func newIfExprs(ifs []*intern.IfExpr) *ifExprs {
-	return &ifExprs{&ifNode{prev: funcs.BoolConst(true), ifs: ifs}}
+	return &ifExprs{&ifNode{prev: funcs.BoolConst(true), ifs: ifs, ps: []*intern.Pattern{}}}
 }
 
 type ifNode struct {
-- 
2.43.0


From 6a70ce8b135aab4a88f84d1089cd409a4b7b67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 04/34] fix: a condition implied by another holds where the
 other does, not where it does not

---
 relapse/auto/ifs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/auto/ifs.go b/relapse/auto/ifs.go
index 66225e1..bc3c854 100644
--- a/relapse/auto/ifs.go
+++ b/relapse/auto/ifs.go
@@ -113,8 +113,8 @@ func (this *ifExprs) addIfExpr(cond funcs.Bool, then, els *ast.Pattern) {
 	}
 	// remove impossible (always false) else condition
 	if funcs.IsFalse(funcs.And(this.cond, funcs.Not(cond))) {
-		this.then.addIfExpr(cond, then, els)
-		this.els.addReturn(then)
+		this.then.addReturn(then)
+		this.els.addIfExpr(cond, then, els)
 		return
 	}
 	this.then.addIfExpr(cond, then, els)
-- 
2.43.0


From 993c0154630b1817f2c5c4cae9c24a048915bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 05/34] fix: negative indexes of elem and range count from the
 end instead of panicking

---
 relapse/funcs/elem.gen.go       | 24 ++++++++++++-----
 relapse/funcs/funcs-gen/main.go | 12 ++++++---
 relapse/funcs/range.gen.go      | 48 ++++++++++++++++++++++++---------
 3 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/relapse/funcs/elem.gen.go b/relapse/funcs/elem.gen.go
index f6f8bb7..4a58179 100644
--- a/relapse/funcs/elem.gen.go
+++ b/relapse/funcs/elem.gen.go
@@ -26,7 +26,9 @@ func (this *elemDoubles) Eval() (float64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -100,7 +102,9 @@ func (this *elemInts) Eval() (int64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -174,7 +178,9 @@ func (this *elemUints) Eval() (uint64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -248,7 +254,9 @@ func (this *elemBools) Eval() (bool, error) {
 		return false, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return false, NewRangeCheckErr(index, len(list))
@@ -322,7 +330,9 @@ func (this *elemStrings) Eval() (string, error) {
 		return "", NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return "", NewRangeCheckErr(index, len(list))
@@ -396,7 +406,9 @@ func (this *elemListOfBytes) Eval() ([]byte, error) {
 		return nil, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return nil, NewRangeCheckErr(index, len(list))
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 22dcdf1..bd002f3 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -438,7 +438,9 @@ func (this *elem{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
@@ -526,7 +528,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -537,7 +541,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
diff --git a/relapse/funcs/range.gen.go b/relapse/funcs/range.gen.go
index a38d2c7..6ba7a5b 100644
--- a/relapse/funcs/range.gen.go
+++ b/relapse/funcs/range.gen.go
@@ -27,7 +27,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -38,7 +40,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -120,7 +124,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -131,7 +137,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -213,7 +221,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -224,7 +234,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -306,7 +318,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -317,7 +331,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -399,7 +415,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -410,7 +428,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -492,7 +512,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -503,7 +525,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
-- 
2.43.0


From 7a158e18c907f65db71aba5cad2d0f4b192b2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 06/34] fix: not of an equality holds for values of other
 kinds, as not of any other condition does

---
 relapse/funcs/logic.go | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/relapse/funcs/logic.go b/relapse/funcs/logic.go
index f2cdfde..1261d7d 100644
--- a/relapse/funcs/logic.go
+++ b/relapse/funcs/logic.go
@@ -30,32 +30,6 @@ func Not(v1 Bool) Bool {
 	if vv, ok := v1.(*or); ok {
 		return And(Not(vv.V1), Not(vv.V2))
 	}
-	switch vv := v1.(type) {
-	case *boolEq:
-		return BoolNe(vv.V1, vv.V2)
-	case *bytesEq:
-		return BytesNe(vv.V1, vv.V2)
-	case *doubleEq:
-		return DoubleNe(vv.V1, vv.V2)
-	case *intEq:
-		return IntNe(vv.V1, vv.V2)
-	case *stringEq:
-		return StringNe(vv.V1, vv.V2)
-	case *uintEq:
-		return UintNe(vv.V1, vv.V2)
-	case *boolNe:
-		return BoolEq(vv.V1, vv.V2)
-	case *bytesNe:
-		return BytesEq(vv.V1, vv.V2)
-	case *doubleNe:
-		return DoubleEq(vv.V1, vv.V2)
-	case *intNe:
-		return IntEq(vv.V1, vv.V2)
-	case *stringNe:
-		return StringEq(vv.V1, vv.V2)
-	case *uintNe:
-		return UintEq(vv.V1, vv.V2)
-	}
 	return TrimBool(&not{
 		V1:          v1,
 		hash:        hashWithId(23, v1),
-- 
2.43.0


From 541be8f7a1b48207eb05fa2db9dae377967fb060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 07/34] fix: truncated json is an error instead of a panic

---
 parser/json/json.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index d4eb643..6f45236 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -32,13 +32,13 @@ func errInString(buf []byte) error {
 }
 
 func isString(buf []byte) bool {
-	return buf[0] == '"'
+	return len(buf) > 0 && buf[0] == '"'
 }
 
 func scanString(buf []byte) (int, error) {
 	escaped := false
 	udigits := -1
-	if buf[0] != '"' {
+	if !isString(buf) {
 		return 0, errInString(buf)
 	}
 	for i, c := range buf[1:] {
@@ -75,7 +75,7 @@ func scanString(buf []byte) (int, error) {
 			return 0, errInString(buf)
 		}
 	}
-	panic("unreachable")
+	return 0, io.ErrShortBuffer
 }
 
 func isNumber(c byte) bool {
@@ -95,12 +95,20 @@ func skipSpace(buf []byte) int {
 	return len(buf)
 }
 
+// at returns whether the next byte is c, it is not when there are no more bytes.
+func (s *jsonParser) at(c byte) bool {
+	return s.offset < len(s.buf) && s.buf[s.offset] == c
+}
+
 func (s *jsonParser) expected(expected string) error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	return fmt.Errorf("katydid/json/parser: expected '%s' at offset %d, but got '%c'", expected, s.offset, s.buf[s.offset])
 }
 
 func (s *jsonParser) scanOpenObject() error {
-	if s.buf[s.offset] == '{' {
+	if s.at('{') {
 		s.offset++
 	} else {
 		return s.expected("{")
@@ -109,7 +117,7 @@ func (s *jsonParser) scanOpenObject() error {
 }
 
 func (s *jsonParser) scanOpenArray() error {
-	if s.buf[s.offset] == '[' {
+	if s.at('[') {
 		s.offset++
 	} else {
 		return s.expected("[")
@@ -317,6 +325,9 @@ func (s *jsonParser) scanNumber() error {
 }
 
 func (s *jsonParser) scanValue() error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	c := s.buf[s.offset]
 	if isNumber(c) {
 		return s.scanNumber()
@@ -339,7 +350,7 @@ func (s *jsonParser) scanValue() error {
 }
 
 func (s *jsonParser) scanColon() error {
-	if s.buf[s.offset] != ':' {
+	if !s.at(':') {
 		return s.expected(":")
 	}
 	s.offset++
@@ -347,21 +358,21 @@ func (s *jsonParser) scanColon() error {
 }
 
 func (s *jsonParser) scanCloseObject() error {
-	if s.buf[s.offset] == '}' {
+	if s.at('}') {
 		return io.EOF
 	}
 	return s.expected("}")
 }
 
 func (s *jsonParser) scanCloseArray() error {
-	if s.buf[s.offset] == ']' {
+	if s.at(']') {
 		return io.EOF
 	}
 	return s.expected("]")
 }
 
 func (s *jsonParser) scanComma() error {
-	if s.buf[s.offset] != ',' {
+	if !s.at(',') {
 		return s.expected(",")
 	}
 	s.offset++
@@ -375,7 +386,7 @@ func (s *jsonParser) nextValueInArray() error {
 		}
 		s.firstArrayValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.at(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -383,7 +394,7 @@ func (s *jsonParser) nextValueInArray() error {
 			return s.scanCloseArray()
 		}
 	}
-	if s.buf[s.offset] == ']' {
+	if s.at(']') {
 		return s.scanCloseArray()
 	}
 	return s.scanValue()
@@ -396,7 +407,7 @@ func (s *jsonParser) nextValueInObject() error {
 		}
 		s.firstObjectValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.at(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -552,9 +563,9 @@ func (s *jsonParser) Init(buf []byte) error {
 	if err := s.skipSpace(); err != nil {
 		return err
 	}
-	if s.buf[s.offset] == '{' {
+	if s.at('{') {
 		//do nothing
-	} else if s.buf[s.offset] == '[' {
+	} else if s.at('[') {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
-- 
2.43.0


From 29ec52a93c6b2dbecab59b7797939dcfc22a5217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 08/34] fix: scan unicode escapes in json strings

---
 parser/json/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/json/json.go b/parser/json/json.go
index 6f45236..b52e50e 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -48,6 +48,7 @@ func scanString(buf []byte) (int, error) {
 				escaped = false
 				continue
 			case 'u':
+				escaped = false
 				udigits = 0
 				continue
 			}
-- 
2.43.0


From 905556175b038a24d8d4644bff5aaa0cd8af7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 09/34] fix: brackets inside json strings do not open or close
 arrays and objects

---
 parser/json/json.go | 50 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index b52e50e..8746609 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -205,22 +205,36 @@ func (s *jsonParser) scanNull() error {
 	return s.skipSpace()
 }
 
-func (s *jsonParser) scanArray() error {
+// scanNested returns the index of the bracket that closes the one buf starts with, or -1 if it is never closed.
+// Brackets inside strings do not count.
+func scanNested(buf []byte, open, close byte) (int, error) {
 	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '[' {
+	for i := 0; i < len(buf); i++ {
+		switch buf[i] {
+		case '"':
+			n, err := scanString(buf[i:])
+			if err != nil {
+				return 0, err
+			}
+			i += n - 1
+		case open:
 			count++
-		}
-		if c == ']' {
+		case close:
 			count--
 		}
 		if count == 0 {
-			index = i
-			break
+			return i, nil
 		}
 	}
-	if count != 0 {
+	return -1, nil
+}
+
+func (s *jsonParser) scanArray() error {
+	index, err := scanNested(s.buf[s.offset:], '[', ']')
+	if err != nil {
+		return err
+	}
+	if index < 0 {
 		return s.expected("]")
 	}
 	s.startValueOffset = s.offset
@@ -231,21 +245,11 @@ func (s *jsonParser) scanArray() error {
 }
 
 func (s *jsonParser) scanObject() error {
-	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '{' {
-			count++
-		}
-		if c == '}' {
-			count--
-		}
-		if count == 0 {
-			index = i
-			break
-		}
+	index, err := scanNested(s.buf[s.offset:], '{', '}')
+	if err != nil {
+		return err
 	}
-	if count != 0 {
+	if index < 0 {
 		return s.expected("}")
 	}
 	s.startValueOffset = s.offset
-- 
2.43.0


From c09222c82722fedff38a078357c4078dface886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 10/34] fix: attributes that were not visited are not siblings
 of their xml element

---
 parser/xml/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index e731336..3ee12b4 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -243,6 +243,11 @@ func (p *xmlParser) Up() {
 			panic(err)
 		}
 	}
+	if p.tok == nil {
+		// the attributes that were not visited belong to the element that was left.
+		p.attrs = nil
+		p.attrIndex = 0
+	}
 }
 
 func (p *xmlParser) Down() {
-- 
2.43.0


From 1262955207dd9d05c3782850d41529bc5881d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 11/34] fix: malformed xml is an error instead of a panic when
 an element is left

---
 parser/xml/parser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 3ee12b4..23ef7fc 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -238,11 +238,8 @@ func (p *xmlParser) Up() {
 		p.attrIndex = 0
 		return
 	}
-	if err := p.dec.Skip(); err != nil {
-		if err != io.EOF {
-			panic(err)
-		}
-	}
+	// an error is not lost: the decoder returns it again when Next asks for the next token.
+	p.dec.Skip()
 	if p.tok == nil {
 		// the attributes that were not visited belong to the element that was left.
 		p.attrs = nil
-- 
2.43.0


From 7ca20ea20146f4d68dd42d3f1040f993b7697d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 12/34] fix: initialising the xml and reflect parsers forgets a
 walk that was not finished

---
 parser/reflect/reflect.go | 1 +
 parser/xml/parser.go      | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index ea52340..54b85ce 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -83,6 +83,7 @@ func NewReflectParser() ReflectParser {
 
 func (s *reflectParser) Init(value reflect.Value) ReflectParser {
 	s.state = newState(value)
+	s.stack = s.stack[:0]
 	return s
 }
 
diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 23ef7fc..162cbf1 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -86,6 +86,11 @@ func (p *xmlParser) Init(buf []byte) error {
 	buf = procInstPattern.ReplaceAll(buf, []byte{})
 	buf = bytes.TrimSpace(buf)
 	p.buf = buf
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
+	p.attrValue = false
+	p.attrFirst = false
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
 	return nil
-- 
2.43.0


From d1a833065efb0ac924920322560f3028d840e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 13/34] fix: decode negative values of sint32 fields

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 8866993..6f54fe2 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -465,7 +465,7 @@ func (s *protoParser) decodeSint32() (int32, error) {
 	if n <= 0 {
 		return 0, fmt.Errorf("decodeVarint n = %d", n)
 	}
-	return int32((uint32(v) >> 1) ^ uint32(((v&1)<<31)>>31)), nil
+	return int32((uint32(v) >> 1) ^ uint32((int32(v&1)<<31)>>31)), nil
 }
 
 func (s *protoParser) decodeSint64() (int64, error) {
-- 
2.43.0


From cbcc4a82a5dad7787de86c7c5c14228a97dda172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 14/34] fix: a protocol buffer value longer than what is left
 of the buffer is an error instead of a panic

---
 parser/proto/proto.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 6f54fe2..ac887c4 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -71,11 +71,23 @@ func length(wireType int, buf []byte) (prefix int, l int, err error) {
 		_, n2, err := uvarint(buf)
 		return 0, n2, err
 	case 1:
+		if len(buf) < 8 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 8, nil
 	case 2:
 		l, n2, err := uvarint(buf)
-		return n2, int(l), err
+		if err != nil {
+			return 0, 0, err
+		}
+		if l > uint64(len(buf)-n2) {
+			return 0, 0, io.ErrShortBuffer
+		}
+		return n2, int(l), nil
 	case 5:
+		if len(buf) < 4 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 4, nil
 	}
 	return 0, 0, errUnknownWireType
-- 
2.43.0


From 238dfb77f97d0b59095c07aab0abbd9be8a82f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 15/34] fix: reflect parser panicked when asked for the bytes
 of an int8 or uint8 field

---
 parser/reflect/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index 54b85ce..05bfae9 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -176,7 +176,7 @@ func (s *reflectParser) Bytes() ([]byte, error) {
 	if s.isLeaf {
 		value := s.getValue()
 		switch value.Kind() {
-		case reflect.Slice, reflect.Uint8, reflect.Int8:
+		case reflect.Slice:
 			return value.Bytes(), nil
 		}
 	}
-- 
2.43.0


From 7a38cd36fa438fa175b167e1d0c9d75219c1791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 16/34] fix: an element of a packed protocol buffer list has an
 index and no name, like that of any other list

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index ac887c4..a1a9a8b 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -382,7 +382,7 @@ func (s *protoParser) Bool() (bool, error) {
 
 func (s *protoParser) String() (string, error) {
 	if !s.isLeaf {
-		if s.fieldNames && !s.inRepeated {
+		if s.fieldNames && !s.inRepeated && !s.inPacked {
 			return s.field.GetName(), nil
 		}
 		return "", parser.ErrNotString
-- 
2.43.0


From 4f3b6c1f7d835f2889e9673e17cf863a9629633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 17/34] fix: combinator.Value keeps the order of the operands:
 lt(3, $int) became < 3

---
 relapse/combinator/funcs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/relapse/combinator/funcs.go b/relapse/combinator/funcs.go
index 7e85d2b..fa208fa 100644
--- a/relapse/combinator/funcs.go
+++ b/relapse/combinator/funcs.go
@@ -27,12 +27,15 @@ func Value(expr *ast.Expr) *ast.Pattern {
 		if constructor != nil {
 			p1 := expr.Function.Params[0]
 			p2 := expr.Function.Params[1]
-			if p1.Terminal != nil && p1.Terminal.Variable != nil &&
+			// the builtin has the variable on the left, except for regex which has it on the right
+			name := expr.Function.Name
+			if name != "regex" && p1.Terminal != nil && p1.Terminal.Variable != nil &&
 				p2.Terminal != nil && p2.Terminal.Variable == nil {
 				p := p2.Clone()
 				p.Comma = nil
 				expr = constructor(p)
-			} else if p2.Terminal != nil && p2.Terminal.Variable != nil &&
+			} else if (name == "regex" || name == "eq" || name == "ne") &&
+				p2.Terminal != nil && p2.Terminal.Variable != nil &&
 				p1.Terminal != nil && p1.Terminal.Variable == nil {
 				p := p1.Clone()
 				p.Comma = nil
-- 
2.43.0


From 8bd61e2fa1d368bcfa0ea245dc4c31cce1ac44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 18/34] fix: a number in a grammar that does not fit is a parse
 error and not a panic, and hexadecimal and octal are read as such

---
 relapse/ast/util.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 3dcc395..9ac8f83 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -110,7 +110,11 @@ func ToString(s1 string) string {
 
 //NewIntTerminal is a parser utility function that parses the int value out of the input string and returns a Terminal of type int.
 func NewIntTerminal(slit string) (*Terminal, error) {
-	return &Terminal{IntValue: ToInt64(Strip(slit, "int")), Literal: slit}, nil
+	i, err := strconv.ParseInt(string(Strip(slit, "int")), 0, 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{IntValue: &i, Literal: slit}, nil
 }
 
 //ToInt64 is a parser utility function that returns a pointer to a parsed an int64 or panics.
@@ -124,7 +128,11 @@ func ToInt64(tok []byte) *int64 {
 
 //NewUintTerminal is a parser utility function that parses the uint value out of the input string and returns a Terminal of type uint.
 func NewUintTerminal(slit string) (*Terminal, error) {
-	return &Terminal{UintValue: ToUint64(Strip(slit, "uint")), Literal: slit}, nil
+	u, err := strconv.ParseUint(string(Strip(slit, "uint")), 0, 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{UintValue: &u, Literal: slit}, nil
 }
 
 //ToUint64 is a parser utility function that returns a pointer to a parsed an uint64 or panics.
@@ -138,7 +146,11 @@ func ToUint64(tok []byte) *uint64 {
 
 //NewDoubleTerminal is a parser utility function that parses the double value out of the input string and returns a Terminal of type double.
 func NewDoubleTerminal(slit string) (*Terminal, error) {
-	return &Terminal{DoubleValue: ToFloat64(Strip(slit, "double")), Literal: slit}, nil
+	f, err := strconv.ParseFloat(string(Strip(slit, "double")), 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{DoubleValue: &f, Literal: slit}, nil
 }
 
 //ToFloat64 is a parser utility function that returns a pointer to a parsed an float64 or panics.
-- 
2.43.0


From fe9566d636932b32c71dc03898e79221eec207f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 19/34] fix: an escaped character in a bytes literal is the
 character and not the backslash, and octal 377 is 255

---
 relapse/ast/util.go | 57 +++++++--------------------------------------
 1 file changed, 9 insertions(+), 48 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 9ac8f83..cf43f42 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -21,7 +21,6 @@ import (
 	"github.com/katydid/katydid/relapse/types"
 	"strconv"
 	"strings"
-	"unicode/utf8"
 )
 
 //NewKeyword is a parser utility function that returns a Keyword given a space and a token.
@@ -188,63 +187,25 @@ func parseBytes(s string) ([]byte, error) {
 	return data, nil
 }
 
-func hexToByte(c byte) byte {
-	if 'a' <= c && c <= 'f' {
-		return c - 'a' + 10
-	}
-	if 'A' <= c && c <= 'F' {
-		return c - 'A' + 10
-	}
-	return c - '0'
-}
-
-func hexesToByte(a byte, b byte) byte {
-	aa, bb := hexToByte(a), hexToByte(b)
-	return byte(aa*16 + bb)
-}
-
 func parseByte(s string) (byte, error) {
 	if s[0] == '\'' {
-		r, _ := utf8.DecodeRune([]byte(s)[1:])
+		r, _, tail, err := strconv.UnquoteChar(s[1:], '\'')
+		if err != nil {
+			return 0, err
+		}
+		if tail != "'" {
+			return 0, fmt.Errorf("not a character %v", s)
+		}
 		if r <= 255 {
 			return byte(r), nil
 		}
 		return 0, fmt.Errorf("rune too large %v", r)
-	} else if s[0] == '0' {
-		if len(s) == 1 {
-			return 0, nil
-		}
-		if s[1] == 'x' || s[1] == 'X' {
-			if len(s) == 4 {
-				return hexesToByte(s[2], s[3]), nil
-			} else if len(s) == 3 {
-				return hexToByte(s[2]), nil
-			}
-			return 0, fmt.Errorf("not a hex digit %v", s)
-		} else {
-			switch len(s) {
-			case 4:
-				o := (int(s[1]-'0') * 64) + (int(s[2]-'0') * 8) + int(s[3]-'0')
-				if o >= 255 {
-					return 0, fmt.Errorf("octal too large %d", o)
-				}
-				return byte(o), nil
-			case 3:
-				return byte((s[1]-'0')*8 + (s[2] - '0')), nil
-			case 2:
-				return byte(s[1] - '0'), nil
-			}
-			return 0, nil
-		}
 	}
-	i, err := strconv.Atoi(s)
+	i, err := strconv.ParseUint(s, 0, 8)
 	if err != nil {
 		return 0, err
 	}
-	if i >= 0 && i <= 255 {
-		return byte(i), nil
-	}
-	return 0, fmt.Errorf("int too large %d", i)
+	return byte(i), nil
 }
 
 //NewSDTName is a parser utility function that returns a NameExpr given a white space and a terminal value expression.
-- 
2.43.0


From ea72f2073e4e1bfb95d82484eaef3341fad13052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 20/34] fix: a double prints as a double literal: double(1.5)
 became 1.5, which does not parse

---
 relapse/ast/string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 03d3d40..93b3a1a 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -166,7 +166,7 @@ func isId(s string) bool {
 //String returns the relapse string representation of the Name instance.
 func (this *Name) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
@@ -251,7 +251,7 @@ func (this *BuiltIn) String() string {
 //String returns the relapse string representation of the Terminal instance.
 func (this *Terminal) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
-- 
2.43.0


From 9176905817a9bfa636939a66022402eda7c08304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 21/34] fix: the names "_", "true" and "false" print with
 quotes, without them they are any name and booleans

---
 relapse/ast/string.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 93b3a1a..dc38fc7 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -160,6 +160,11 @@ func (this *NameExpr) String() string {
 var idRegexp = regexp.MustCompile("^[a-zA-Z_][_a-zA-Z0-9]*$")
 
 func isId(s string) bool {
+	switch s {
+	case "_", "true", "false":
+		// these are tokens of their own
+		return false
+	}
 	return idRegexp.MatchString(s)
 }
 
-- 
2.43.0


From 978b1b33132a3a895803de6378e95d889d6059a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 22/34] fix: a builtin operator prints with the comma or arrow
 in front of it

---
 relapse/ast/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index dc38fc7..ee686c0 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -140,7 +140,7 @@ func (this *Expr) String() string {
 	if this.Function != nil {
 		return space + this.GetFunction().String()
 	}
-	return this.BuiltIn.String()
+	return space + this.BuiltIn.String()
 }
 
 //String returns the relapse string representation of the NameExpr instance.
-- 
2.43.0


From 685f54fc0e1174308f8c6171325d0177b44282f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 23/34] fix: a type operator after the colon of a tree node
 prints with a space: a: :: f became a::: f, which does not parse

---
 relapse/ast/string.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index ee686c0..cdbde33 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -57,8 +57,12 @@ func (this *Empty) String() string {
 
 //String returns the relapse string representation of the TreeNode instance.
 func (this *TreeNode) String() string {
-	return this.Name.String() + this.Colon.String() +
-		this.Pattern.String()
+	pattern := this.Pattern.String()
+	if this.Colon != nil && strings.HasPrefix(pattern, ":") {
+		// without a space a colon followed by the type operator, ::, is the type operator followed by a colon
+		pattern = " " + pattern
+	}
+	return this.Name.String() + this.Colon.String() + pattern
 }
 
 //String returns the relapse string representation of the Contains instance.
-- 
2.43.0


From c63a5caf88641b2a9c199e9996c18a7abdb8d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 24/34] fix: printing keeps tokens apart that read differently
 when they touch: #a=== 5 and <elem(..) do not parse

---
 relapse/ast/string.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index cdbde33..aba675d 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -38,8 +38,13 @@ func (this *Grammar) String() string {
 
 //String returns the relapse string representation of the PatternDecl instance.
 func (this *PatternDecl) String() string {
+	pattern := this.Pattern.String()
+	if strings.HasPrefix(pattern, "=") {
+		// without a space = followed by == is == followed by =
+		pattern = " " + pattern
+	}
 	return this.Hash.String() + this.Before.String() + this.Name +
-		this.Eq.String() + this.Pattern.String()
+		this.Eq.String() + pattern
 }
 
 //String returns the relapse string representation of the Pattern instance.
@@ -254,7 +259,14 @@ func (this *Function) String() string {
 
 //String returns the relapse string representation of the BuiltIn instance.
 func (this *BuiltIn) String() string {
-	return this.Symbol.String() + this.Expr.String()
+	expr := this.Expr.String()
+	switch symbol := this.Symbol.GetValue(); {
+	case (symbol == "<" || symbol == ">") && strings.HasPrefix(expr, "="),
+		symbol == "<" && strings.HasPrefix(expr, "e"):
+		// without a space < followed by == is <= followed by = and <e is the start of <empty>
+		expr = " " + expr
+	}
+	return this.Symbol.String() + expr
 }
 
 //String returns the relapse string representation of the Terminal instance.
-- 
2.43.0


From bc988e9e94b324228ad87ac535d903dcb89c73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 25/34] fix: a string literal that cannot be unquoted is an
 error, and not a string that includes its quotes

---
 relapse/ast/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index cf43f42..1db11da 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -95,7 +95,11 @@ func NewBoolTerminal(v interface{}) *Terminal {
 //NewStringTerminal is a parser utility function that returns a Terminal of type string given a string literal.
 //The input string is also unquoted.
 func NewStringTerminal(slit string) (*Terminal, error) {
-	return &Terminal{StringValue: proto.String(ToString(slit)), Literal: slit}, nil
+	s, err := strconv.Unquote(slit)
+	if err != nil {
+		return nil, fmt.Errorf("not a string %s: %v", slit, err)
+	}
+	return &Terminal{StringValue: proto.String(s), Literal: slit}, nil
 }
 
 //ToString unquotes a quoted string or returns the original string.
-- 
2.43.0


From 28780622e48e76fd57369390227a9d0aef8ac966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 26/34] fix: merging patterns appends to a copy of the
 alternatives, and not to the space behind those of a pattern that is in use

---
 relapse/intern/construct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ce7f68e..98d7871 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -359,7 +359,7 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewOr(append(left, right...))
+	return c.NewOr(append(append([]*Pattern{}, left...), right...))
 }
 
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
@@ -500,7 +500,7 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewAnd(append(left, right...))
+	return c.NewAnd(append(append([]*Pattern{}, left...), right...))
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
-- 
2.43.0


From f07e0d2fabe36ad5a824a6f0c9f974aa66554b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 27/34] fix: NewFunction, NewNestedFunction and NewList add
 commas to copies of the given expressions, which are also part of something
 else

---
 relapse/ast/new.go | 47 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index b63b6fa..32c3d4f 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -361,20 +361,33 @@ func newInterleave(patterns []*Pattern) *Pattern {
 	}
 }
 
+//commaSeparated returns copies of the expressions, that have commas between them and no arrows.
+//The given expressions might also be part of another expression and are not modified.
+func commaSeparated(exprs []*Expr) []*Expr {
+	if len(exprs) == 0 {
+		return exprs
+	}
+	separated := make([]*Expr, len(exprs))
+	for i := range exprs {
+		e := *exprs[i]
+		e.RightArrow = nil
+		if i == 0 {
+			e.Comma = nil
+		} else if e.Comma == nil {
+			e.Comma = newComma()
+		}
+		separated[i] = &e
+	}
+	return separated
+}
+
 //NewFunction returns a function expression given a name and a list of parameters.
 //  ->name(param1, param2, ...)
 //This function should be the top level function and not a nested function.
 //If the parameters don't have populated Comma fields, this function will add them.
 //If a parameter has a populared RightArrow field, the contents of the RightArrow field is thrown away.
 func NewFunction(name string, params ...*Expr) *Expr {
-	for i, p := range params {
-		p.RightArrow = nil
-		if i == 0 {
-			p.Comma = nil
-		} else if p.Comma == nil {
-			p.Comma = newComma()
-		}
-	}
+	params = commaSeparated(params)
 	return &Expr{
 		RightArrow: newRightArrow(),
 		Function: &Function{
@@ -391,14 +404,7 @@ func NewFunction(name string, params ...*Expr) *Expr {
 //If the parameters don't have populated Comma fields, this function will add them.
 //If a parameter has a populared RightArrow field, the contents of the RightArrow field is thrown away.
 func NewNestedFunction(name string, params ...*Expr) *Expr {
-	for i, p := range params {
-		p.RightArrow = nil
-		if i == 0 {
-			p.Comma = nil
-		} else if p.Comma == nil {
-			p.Comma = newComma()
-		}
-	}
+	params = commaSeparated(params)
 	return &Expr{Function: &Function{
 		Name:       name,
 		OpenParen:  newOpenParen(),
@@ -525,14 +531,7 @@ func NewBytesConst(buf []byte) *Expr {
 //NewList returns a typed list of expressions.
 //  []typ{elems}
 func NewList(typ types.Type, elems ...*Expr) *Expr {
-	for i, e := range elems {
-		e.RightArrow = nil
-		if i == 0 {
-			e.Comma = nil
-		} else if e.Comma == nil {
-			e.Comma = newComma()
-		}
-	}
+	elems = commaSeparated(elems)
 	return &Expr{
 		List: &List{
 			Type:       typ,
-- 
2.43.0


From b9cac7e792fa3906327b3933b4d211654916aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 28/34] fix: encode/proto: return errors of the parser instead
 of dropping the field

---
 encode/proto/proto.go | 65 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 18f293d..d9c15a9 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -266,7 +266,10 @@ type doubleField struct {
 
 func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -290,7 +293,10 @@ type floatField struct {
 
 func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -314,7 +320,10 @@ type intField struct {
 
 func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -338,7 +347,10 @@ type uintField struct {
 
 func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -362,7 +374,10 @@ type fixed64UintField struct {
 
 func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -386,7 +401,10 @@ type fixed32UintField struct {
 
 func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -410,7 +428,10 @@ type boolField struct {
 
 func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -438,7 +459,10 @@ type stringField struct {
 
 func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -464,7 +488,10 @@ type bytesField struct {
 
 func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -489,7 +516,10 @@ type fixed64IntField struct {
 
 func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -513,7 +543,10 @@ type fixed32IntField struct {
 
 func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -537,7 +570,10 @@ type sint32Field struct {
 
 func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -561,7 +597,10 @@ type sint64Field struct {
 
 func (this *sint64Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
-- 
2.43.0


From 1cad409416a6e1f62ad00e52a3af466c465f0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 29/34] fix: encode/proto: grow the buffer before encoding a
 nested message past its end

---
 encode/proto/proto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index d9c15a9..8c8c698 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -196,6 +196,7 @@ type msgField struct {
 }
 
 func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
+	buf = checkSize(buf, offset, 20)
 	msginitoff := offset + 20
 	msgbuf, msgfinaloff, err := this.msg.encode(buf, msginitoff, p)
 	if err != nil {
-- 
2.43.0


From 76b9fca11a8f7d766909eb95b7d158c1a2689a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 30/34] fix: encode/proto: recursive message types no longer
 recurse forever in NewEncoder

---
 encode/proto/proto.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 8c8c698..87f46a7 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -42,7 +42,7 @@ func NewEncoder(desc *descriptor.FileDescriptorSet, pkgName, msgName string) (En
 	if err != nil {
 		return nil, err
 	}
-	return &encoder{msg: newMsg(descMap, descMap.GetRoot())}, nil
+	return &encoder{msg: newMsg(descMap, descMap.GetRoot(), make(map[*descriptor.DescriptorProto]*msg))}, nil
 }
 
 type encoder struct {
@@ -67,23 +67,27 @@ type fieldEncoder interface {
 	encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error)
 }
 
-func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
-	msg := &msg{make(map[string]fieldEncoder)}
+func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto, msgs map[*descriptor.DescriptorProto]*msg) *msg {
+	if m, ok := msgs[protomsg]; ok {
+		return m
+	}
+	m := &msg{make(map[string]fieldEncoder)}
+	msgs[protomsg] = m
 	for _, f := range protomsg.GetField() {
-		fieldEnc := newFieldEncoder(desc, f)
-		msg.fieldEncoders[f.GetName()] = fieldEnc
+		fieldEnc := newFieldEncoder(desc, f, msgs)
+		m.fieldEncoders[f.GetName()] = fieldEnc
 	}
-	return msg
+	return m
 }
 
-func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto, msgs map[*descriptor.DescriptorProto]*msg) fieldEncoder {
 	if f.IsRepeated() {
-		return newRepeatedField(desc, f)
+		return newRepeatedField(desc, f, msgs)
 	}
-	return newSingleField(desc, f)
+	return newSingleField(desc, f, msgs)
 }
 
-func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto, msgs map[*descriptor.DescriptorProto]*msg) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
 		return newDoubleField(f)
@@ -104,7 +108,7 @@ func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto
 	case descriptor.FieldDescriptorProto_TYPE_STRING:
 		return newStringField(f)
 	case descriptor.FieldDescriptorProto_TYPE_MESSAGE:
-		return newMsgField(desc, f, desc.LookupMessage(f))
+		return newMsgField(desc, f, desc.LookupMessage(f), msgs)
 	case descriptor.FieldDescriptorProto_TYPE_BYTES:
 		return newBytesField(f)
 	case descriptor.FieldDescriptorProto_TYPE_UINT32:
@@ -154,10 +158,10 @@ type repeatedField struct {
 	fieldEnc fieldEncoder
 }
 
-func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
+func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto, msgs map[*descriptor.DescriptorProto]*msg) *repeatedField {
 	return &repeatedField{
 		key:      f.GetKey(),
-		fieldEnc: newSingleField(desc, f),
+		fieldEnc: newSingleField(desc, f, msgs),
 	}
 }
 
@@ -183,10 +187,10 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 	}
 }
 
-func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
+func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, protomsg *descriptor.DescriptorProto, msgs map[*descriptor.DescriptorProto]*msg) *msgField {
 	return &msgField{
 		key: field.GetKey(),
-		msg: newMsg(desc, msg),
+		msg: newMsg(desc, protomsg, msgs),
 	}
 }
 
-- 
2.43.0


From f38555cca31c7fcd604c4ac19bc6482b4a6ea0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 31/34] fix: encode/reflect: return errors of the parser
 instead of panicking

---
 encode/reflect/reflect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 4703e2c..8a015ca 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -44,7 +44,7 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 			if err == io.EOF {
 				return nil
 			} else {
-				panic(err)
+				return err
 			}
 		}
 		if p.IsLeaf() {
@@ -106,7 +106,7 @@ func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 			if err == io.EOF {
 				return list, nil
 			} else {
-				panic(err)
+				return reflect.ValueOf(nil), err
 			}
 		}
 		if p.IsLeaf() {
@@ -161,7 +161,7 @@ func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 		if err == io.EOF {
 			return reflect.ValueOf(nil), nil
 		} else {
-			panic(err)
+			return reflect.ValueOf(nil), err
 		}
 	}
 	if !p.IsLeaf() {
-- 
2.43.0


From fe15d09cecdf1fb995e28500a48179b9c0324277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 32/34] fix: NewHasSuffix builds the $= built in and not *=

---
 relapse/ast/keywords.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/keywords.go b/relapse/ast/keywords.go
index 0cd3c2a..ac76cdc 100644
--- a/relapse/ast/keywords.go
+++ b/relapse/ast/keywords.go
@@ -82,7 +82,7 @@ func newCaretEqual() *Keyword {
 
 func newDollarEqual() *Keyword {
 	return &Keyword{
-		Value: "*=",
+		Value: "$=",
 	}
 }
 
-- 
2.43.0


From 57fd1d6412a755baa5503b2ad582c1b46a61ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 33/34] fix: the reflect encoder returns an error for a value
 that does not fit

A null, or a value of another type than its field or element, made
reflect.Value.Set panic, as did fields that cannot be set and pointers to
anything but a structure.  null is now the zero value, what cannot be set is
skipped and the rest is an error.
---
 encode/reflect/reflect.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 8a015ca..6e2b24f 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -59,13 +59,13 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 			strct = v.Elem()
 		}
 		field := strct.FieldByName(name)
-		if !field.IsValid() {
+		if !field.CanSet() {
 			continue //skip field
 		}
 		fieldKind := field.Kind()
 		fieldIsPtr := false
 		fieldType := field.Type()
-		if fieldKind == reflect.Ptr {
+		if fieldKind == reflect.Ptr && fieldType.Elem().Kind() == reflect.Struct {
 			fieldIsPtr = true
 			fieldKind = field.Type().Elem().Kind()
 			fieldType = field.Type().Elem()
@@ -119,7 +119,7 @@ func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 		elemType := typ.Elem()
 		elemKind := elemType.Kind()
 		elemIsPtr := false
-		if elemKind == reflect.Ptr {
+		if elemKind == reflect.Ptr && elemType.Elem().Kind() == reflect.Struct {
 			elemIsPtr = true
 			elemType = typ.Elem().Elem()
 			elemKind = elemType.Kind()
@@ -159,7 +159,7 @@ func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 	if err := p.Next(); err != nil {
 		if err == io.EOF {
-			return reflect.ValueOf(nil), nil
+			return reflect.Zero(typ), nil
 		} else {
 			return reflect.ValueOf(nil), err
 		}
@@ -168,22 +168,29 @@ func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 		return reflect.ValueOf(nil), fmt.Errorf("expected leaf")
 	}
 	if value, err := p.Int(); err == nil {
-		return reflect.ValueOf(value), nil
+		return assignable(reflect.ValueOf(value), typ)
 	}
 	if value, err := p.Uint(); err == nil {
-		return reflect.ValueOf(value), nil
+		return assignable(reflect.ValueOf(value), typ)
 	}
 	if value, err := p.Double(); err == nil {
-		return reflect.ValueOf(value), nil
+		return assignable(reflect.ValueOf(value), typ)
 	}
 	if value, err := p.Bool(); err == nil {
-		return reflect.ValueOf(value), nil
+		return assignable(reflect.ValueOf(value), typ)
 	}
 	if value, err := p.String(); err == nil {
-		return reflect.ValueOf(value), nil
+		return assignable(reflect.ValueOf(value), typ)
 	}
 	if value, err := p.Bytes(); err == nil {
-		return reflect.ValueOf(value), nil
+		return assignable(reflect.ValueOf(value), typ)
 	}
-	return reflect.ValueOf(nil), nil
+	return reflect.Zero(typ), nil
+}
+
+func assignable(v reflect.Value, typ reflect.Type) (reflect.Value, error) {
+	if !v.Type().AssignableTo(typ) {
+		return reflect.ValueOf(nil), fmt.Errorf("expected a %v, but got a %v", typ, v.Type())
+	}
+	return v, nil
 }
-- 
2.43.0


From 97e3c76537951c48bf8c8d61198f623971e2e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 34/34] fix: HasRecursion is true only for recursion

A pattern that is used twice, like a in #main = [@a, @a], is not inside itself.
---
 relapse/interp/recursion.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/relapse/interp/recursion.go b/relapse/interp/recursion.go
index ea1672d..e98139d 100644
--- a/relapse/interp/recursion.go
+++ b/relapse/interp/recursion.go
@@ -40,10 +40,16 @@ func HasRecursion(g *ast.Grammar) bool {
 }
 
 func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
-	if _, ok := visited[p]; ok {
-		return true
+	if inside, ok := visited[p]; ok {
+		return inside
 	}
 	visited[p] = true
+	recursion := hasRecursionInside(visited, refs, p)
+	visited[p] = false
+	return recursion
+}
+
+func hasRecursionInside(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
 	typ := p.GetValue()
 	switch v := typ.(type) {
 	case *ast.Empty:
-- 
2.43.0

