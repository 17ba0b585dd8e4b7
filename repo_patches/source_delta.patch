From 781fefaef35026062730ffd192d33975e91ce14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 01/22] fix: a loop without candidates must not run its body

A filter or nested step over an empty container or a scalar read a zero value
from the closed channel and treated it as a null candidate, so $[?(true)] on
[] yielded [null].
---
 mach/run.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..3256e81 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,14 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	js, more := <-values
+	if !more {
+		// no candidates at all
+		vm.popInput()
+		vm.branch(epc)
+		return
+	}
+	vm.dot = js
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From 97575ccdf5aa3dff8440d27c448bfc424bd577cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 02/22] fix: a slice of a non-array must keep the values
 already selected

valsByKey returned nil rather than the accumulated values, so a slice met by
an object or scalar discarded everything selected before it.
---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 3256e81..6bca040 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -724,7 +724,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From 271f677a70cf4203d29183036047482795a34814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 03/22] fix: a large slice stride must not overflow the index

$[1::9223372036854775807] wrapped the index round to a negative value and
panicked.
---
 mach/run.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 6bca040..41458f0 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -559,6 +559,13 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	stride := int64(1)
 	if slice.Stride != nil {
 		stride = cvi(slice.Stride)
+		// at most one step beyond the array, so that adding the stride to an index cannot overflow
+		switch {
+		case stride > l:
+			stride = l + 1
+		case stride < -l:
+			stride = -l - 1
+		}
 	}
 	start := int64(0)
 	end := int64(l)
-- 
2.43.0


From 7f9b374d198fc19b9eefe396ede64cd221088910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 04/22] fix: let producers finish when a run-time error ends
 evaluation

The producer of an active loop stayed blocked sending the next candidate,
leaking a goroutine and the document for each failing evaluation.
---
 mach/run.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 41458f0..13e0e45 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,14 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drain consumes what remains of any active inputs, allowing their producers to finish.
+func (m *machine) drain() {
+	for _, c := range m.values {
+		for range c {
+		}
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +133,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drain()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From afd71212a406a45e6e8a0d870def7c3523e7537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 05/22] fix: objects with different member names are not equal

A member missing from the right operand was taken to be null, so
{"x":null} == {"y":5} was true (and == was not symmetric).
---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..e3b42a9 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -247,7 +247,8 @@ func eqVal(a, b JSON) bool {
 				return false
 			}
 			for k, v := range a {
-				if !eqVal(v, b[k]) {
+				vb, ok := b[k]
+				if !ok || !eqVal(v, vb) {
 					return false
 				}
 			}
-- 
2.43.0


From d9c329ad0a06837168a6ab272c9420175c169c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 06/22] fix: compare an integer with a string holding a real as
 reals

The string was converted to an integer, giving zero if it was not one, so
0 == "42.5" was true and 42 == "42.0" was false.
---
 mach/json.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index e3b42a9..4bbddd2 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -132,9 +132,19 @@ func badNum(s string, fp bool) bool {
 	return false
 }
 
+// fpText returns true if v is a string holding a number that needs floating-point.
+func fpText(v JSON) bool {
+	s, ok := v.(string)
+	if !ok || s == "" {
+		return false
+	}
+	_, err := strconv.ParseInt(s, 10, 64)
+	return err != nil
+}
+
 // eqNum returns true if numeric values a and b are equal
 func eqNum(a, b JSON) bool {
-	if isFloat(a) || isFloat(b) {
+	if isFloat(a) || isFloat(b) || fpText(a) || fpText(b) {
 		var zero float64
 		va := cvf(a)
 		vb := cvf(b)
-- 
2.43.0


From 5d6ebcc20c32f40d0b50552e29e3de7bbc3281fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 07/22] fix: compare an array with a primitive value through
 its string form

The reduced cases converted a lone element directly, so ["abc"] == 0,
[{}] == 0 and [0.5] == false were true, and [null] == "" and
[1000000] == "1000000" were false, unlike JavaScript.
---
 mach/json.go | 82 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 4bbddd2..0f798db 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -88,30 +88,60 @@ func IsStructure(j JSON) bool {
 	}
 }
 
-// eqArrayS returns true if array a as a string equals b.
-// This represents Array.prototype.toString, reduced to the cases that can be true.
-func eqArrayS(a []JSON, b string) bool {
-	switch len(a) {
-	case 0:
-		return b == ""
-	case 1:
-		return cvs(a[0]) == b
-	default:
-		return false
+// eqArrayP returns true if array a equals the primitive value b, using a's string form as JS does,
+// except that an array of several elements equals no primitive,
+// and an array of one boolean is compared as that boolean if b is also boolean.
+func eqArrayP(a []JSON, b JSON) bool {
+	if len(a) == 1 {
+		va, ok1 := a[0].(bool)
+		vb, ok2 := b.(bool)
+		if ok1 && ok2 {
+			return va == vb
+		}
 	}
+	s, ok := arrayText(a)
+	return ok && eqVal(s, b)
 }
 
-// eqArrayN returns true if array a as a string converted to a Number equals b.
-// This represents Array.prototype.toString, reduced to the cases that can be true.
-func eqArrayN(a []JSON, b JSON) bool {
-	switch len(a) {
-	case 0:
-		return eqNum(b, 0.0)
-	case 1:
-		return eqNum(a[0], b)
+// arrayText returns the result of Array.prototype.toString and true if a has at most one element (to any depth).
+func arrayText(a []JSON) (string, bool) {
+	if len(a) == 0 {
+		return "", true
+	}
+	if len(a) > 1 {
+		return "", false
+	}
+	switch v := a[0].(type) {
+	case nil, error:
+		return "", true // null and undefined are empty
+	case []JSON:
+		return arrayText(v)
+	case float64:
+		return floatText(v), true
 	default:
-		return false
+		return cvs(v), true
+	}
+}
+
+// floatText returns the result of Number.prototype.toString.
+func floatText(f float64) string {
+	switch {
+	case math.IsNaN(f):
+		return "NaN"
+	case math.IsInf(f, 1):
+		return "Infinity"
+	case math.IsInf(f, -1):
+		return "-Infinity"
+	case f == 0:
+		return "0" // including -0
+	}
+	if abs := math.Abs(f); abs >= 1e-6 && abs < 1e21 {
+		return strconv.FormatFloat(f, 'f', -1, 64)
 	}
+	s := strconv.FormatFloat(f, 'e', -1, 64)
+	// the exponent has no leading zero in JS
+	s = strings.Replace(s, "e-0", "e-", 1)
+	return strings.Replace(s, "e+0", "e+", 1)
 }
 
 // badNum returns true if the string s would result in NaN in JS, where fp requires floating-point.
@@ -196,31 +226,29 @@ func eqVal(a, b JSON) bool {
 		case Object<<8 | Boolean:
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
-			b := cvi(b)
-			return ok && (b == 0 && len(a) == 0 || len(a) == 1 && cvi(a[0]) == b)
+			return ok && eqArrayP(a, b)
 		case Boolean<<8 | Object:
 			// 11.9.3(7) [ToNumber(a) == b]
 			b, ok := b.([]JSON)
-			a := cvi(a)
-			return ok && (a == 0 && len(b) == 0 || len(b) == 1 && cvi(b[0]) == a)
+			return ok && eqArrayP(b, a)
 		case String<<8 | Object, Object<<8 | String:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
 			if a, ok := a.([]JSON); ok {
-				return eqArrayS(a, cvs(b))
+				return eqArrayP(a, b)
 			}
 			if b, ok := b.([]JSON); ok {
-				return eqArrayS(b, cvs(a))
+				return eqArrayP(b, a)
 			}
 			return false
 		case Number<<8 | Object, Object<<8 | Number:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
 			if a, ok := a.([]JSON); ok {
-				return eqArrayN(a, b)
+				return eqArrayP(a, b)
 			}
 			if b, ok := b.([]JSON); ok {
-				return eqArrayN(b, a)
+				return eqArrayP(b, a)
 			}
 			return false
 		default:
-- 
2.43.0


From 98075d6e71ff5542ab5515e423a5bf2c873c76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 08/22] fix: indexing an array by a value that is not a number
 yields nothing

Any such index was converted to zero, so @['name'] or @[null] picked the first
element of an array.
---
 mach/run.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 13e0e45..638663d 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"math"
 	"regexp"
+	"strconv"
 	"unicode/utf8"
 
 	"github.com/forsyth/jsonpath/paths"
@@ -299,7 +300,11 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			}
 			switch val := val.(type) {
 			case []JSON:
-				sel := cvi(index) // can be only int, or convertible
+				sel, ok := arrayIndex(index) // can be only int, or convertible
+				if !ok {
+					vm.push(nothing)
+					break
+				}
 				l := int64(len(val))
 				if sel < 0 {
 					// index from end: not JavaScript but path/filter convention
@@ -695,6 +700,15 @@ func relation(a, b JSON, intf func(int64, int64) bool, floatf func(float64, floa
 	return intf(cvi(a), cvi(b))
 }
 
+// arrayIndex returns the value of index as an integer and true, or false if it is not convertible.
+func arrayIndex(index JSON) (int64, bool) {
+	if s, ok := index.(string); ok {
+		n, err := strconv.ParseInt(s, 10, 64)
+		return n, err == nil
+	}
+	return cvi(index), isArith(index)
+}
+
 // slicing returns the slice of src.
 func slicing(src []JSON, slice *paths.Slice) []JSON {
 	start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From ac4e326fd52f8ab300ddf8c3b551e73dfd855e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 09/22] fix: a number computed from the document can index an
 array

Numbers in the document are floating-point, so $.a[($.i)] selected nothing.
---
 mach/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach/run.go b/mach/run.go
index 638663d..e198be1 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -774,8 +774,8 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	}
 	switch src := src.(type) {
 	case []JSON:
-		if isInt(key) {
-			// [integer]
+		if isInt(key) || isFloat(key) {
+			// [integer], or a number from the document as the result of [(expr)]
 			v, ok := valByKey(src, key, negIndex)
 			if ok {
 				vals = append(vals, v)
-- 
2.43.0


From 1f8a6be6af5b4b058e839d2ee185d9899a2c6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 10/22] fix: a surrogate after an unpaired one can start its
 own pair

'\ud800\ud83d\ude00' did not denote the text that JSON gives it.
---
 paths/lex.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paths/lex.go b/paths/lex.go
index aebc49f..89badc0 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -193,8 +193,9 @@ func (l *lexer) lexString(cq int) (string, error) {
 						// consume surrogate and its pair
 						continue
 					}
-					// invalid surrogate pair: already produced ReplacementChar
-				} else if utf16.IsSurrogate(rv) {
+					// invalid surrogate pair: already produced ReplacementChar, now rv stands alone
+				}
+				if utf16.IsSurrogate(rv) {
 					surr = rv
 					continue
 				}
-- 
2.43.0


From 54b9023542a444a97f6d1894df1dc36364734535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 11/22] fix: an escaped quote at the end of the text does not
 close a string

At end of file there is no character to put back, so the escaped quote was
read again, as the closing quote.
---
 paths/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paths/lex.go b/paths/lex.go
index 89badc0..81f2e90 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -201,7 +201,9 @@ func (l *lexer) lexString(cq int) (string, error) {
 				}
 				s.WriteRune(rv)
 			}
-			r.unget()
+			if c != eof {
+				r.unget()
+			}
 			if surr != 0 {
 				// surrogate prefix without successor
 				s.WriteRune(unicode.ReplacementChar)
-- 
2.43.0


From 0af8ec60cb8fc3a2f840a2b947df270e8e46ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 12/22] fix: reject a program too large for its branches

Beyond 4M orders the branch targets and operand counts no longer fit an order,
and evaluation panicked.
---
 mach/coder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mach/coder.go b/mach/coder.go
index 327e308..c2d5441 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -8,7 +8,8 @@ import (
 )
 
 var (
-	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooManyVals   = errors.New("program has too many values")
+	ErrTooManyOrders = errors.New("program is too large")
 )
 
 // builder is the state when building a program
@@ -49,6 +50,10 @@ func Compile(path paths.Path) (*Program, error) {
 			}
 		}
 	}
+	if !isSmallInt(int64(prog.size())) {
+		// pc values and operand counts would not fit an order
+		return nil, ErrTooManyOrders
+	}
 	return prog, nil
 }
 
-- 
2.43.0


From 68503b4ea29876930e4cdb3c4d5ac6cd0d9f5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 13/22] fix: the average of an empty array is null

It was NaN, which is not a JSON value; prod, min and max already yield null.
---
 mach/fns.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..3adb7de 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -52,6 +52,9 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if a, ok := args[0].([]JSON); ok {
+				if len(a) == 0 {
+					return nil
+				}
 				var sum float64
 				for _, v := range a {
 					if !isArith(v) {
-- 
2.43.0


From 457ad10f02a2f4b7ba27456a20edb7c5d6597ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 14/22] fix: keys yields the member names in a definite order

They came in map iteration order, so keys(@)[0] == 'a' varied from one
evaluation to the next.
---
 mach/fns.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mach/fns.go b/mach/fns.go
index 3adb7de..ae7bdaa 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -3,6 +3,7 @@ package mach
 import (
 	"math"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -130,8 +131,13 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if obj, ok := args[0].(map[string]JSON); ok {
-				keys := make([]JSON, 0, len(obj))
-				for k, _ := range obj {
+				names := make([]string, 0, len(obj))
+				for k := range obj {
+					names = append(names, k)
+				}
+				sort.Strings(names)
+				keys := make([]JSON, 0, len(names))
+				for _, k := range names {
 					keys = append(keys, k)
 				}
 				return keys
-- 
2.43.0


From fd7d15d37cd6b4702ffcfa7435226543446d4fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 15/22] fix: jpath reports failure to write its output

The error from the final flush was ignored, and the exit status was zero.
---
 cmd/jpath/jpath.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..18ee37e 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -24,7 +24,6 @@ func main() {
 		os.Exit(2)
 	}
 	stdout = bufio.NewWriter(os.Stdout)
-	defer stdout.Flush()
 	jexp := flag.Arg(0)
 	jpath, err := jsonpath.Compile(jexp)
 	if err != nil {
@@ -57,6 +56,10 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	err = stdout.Flush()
+	if err != nil {
+		errorf("%s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0


From 66a4b30ecf4b26a8edc8375fe2e8b4dc5786767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 16/22] fix: jpath -l accepts lines of any length

The scanner's default limit made it fail on lines over 64 KB.
---
 cmd/jpath/jpath.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 18ee37e..5e6e89f 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -7,6 +7,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 
@@ -99,6 +100,7 @@ func readValues(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error
 func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
 	input.Split(bufio.ScanLines)
+	input.Buffer(nil, math.MaxInt) // lines can have any length
 	for lno := 1; input.Scan(); lno++ {
 		var root interface{}
 		err := json.Unmarshal(input.Bytes(), &root)
-- 
2.43.0


From 0a0ea7dc8ac5f52bf925fa7ebda6775d05b71500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 17/22] fix: an escaped backslash does not escape the end of a
 regular expression

/\\\\/ was taken as an unclosed pattern: the second backslash of the pair was
read as escaping the slash.
---
 paths/lexexpr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paths/lexexpr.go b/paths/lexexpr.go
index e3b9f44..6f80b3c 100644
--- a/paths/lexexpr.go
+++ b/paths/lexexpr.go
@@ -74,6 +74,10 @@ func (l *lexer) lexRegexp(ec int) lexeme {
 		case c == '\\' && r.look() == ec:
 			r.get()
 			c = ec
+		case c == '\\' && r.look() != eof:
+			// the next character is part of this escape sequence
+			s.WriteByte(byte(c))
+			c = r.get()
 		}
 		s.WriteByte(byte(c))
 	}
-- 
2.43.0


From 95928bb4f878d6a9edeeb25795471039c24e0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 18/22] fix: reject expressions nested too deeply instead of
 exhausting the stack

A few megabytes of "(", "[" or "-" overflowed the parser's stack, which Go
cannot recover from.
---
 paths/parseexpr.go |  5 +++++
 paths/parser.go    | 16 +++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/paths/parseexpr.go b/paths/parseexpr.go
index 4e49af8..7a7e955 100644
--- a/paths/parseexpr.go
+++ b/paths/parseexpr.go
@@ -103,6 +103,11 @@ func (p *parser) unary(op Op) (Expr, error) {
 
 // primary ::= primary1 ("(" e-list ")" | "[" e "]" | "." identifier)*
 func (p *parser) primary() (Expr, error) {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, ErrTooDeep
+	}
 	e, err := p.primary1()
 	if err != nil {
 		return nil, err
diff --git a/paths/parser.go b/paths/parser.go
index 56baec5..a501461 100644
--- a/paths/parser.go
+++ b/paths/parser.go
@@ -1,17 +1,27 @@
 package paths
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+)
+
+// maxDepth limits the nesting of expressions (as encoding/json limits the nesting of values),
+// since exhausting the stack would be fatal.
+const maxDepth = 10000
+
+var ErrTooDeep = errors.New("expression nested too deeply")
 
 // parser represents the state of the path and/or expression parser
 // (all of which is currently in the lexer), and provides a scope for the
 // parsing methods.
 type parser struct {
-	*lexer // source of tokens
+	*lexer     // source of tokens
+	depth  int // current nesting of expressions
 }
 
 // newParser initialises and returns a parser.
 func newParser(s string) *parser {
-	return &parser{newLexer(&rd{s: s})}
+	return &parser{lexer: newLexer(&rd{s: s})}
 }
 
 func (p *parser) expect(lex func() lexeme, nt token) error {
-- 
2.43.0


From 6dc817f70fdbcdf333b0d2bcafce245d33d50bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 19/22] fix: max of strings is the greatest

---
 mach/fns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/fns.go b/mach/fns.go
index ae7bdaa..cef294d 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -359,7 +359,7 @@ func minString(index int, min, el string) string {
 }
 
 func maxString(index int, max, el string) string {
-	if index == 0 || el < max {
+	if index == 0 || el > max {
 		return el
 	}
 	return max
-- 
2.43.0


From 93a29fdd11de54704d18144acdd784f352e9cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 20/22] fix: slice bounds given by expressions were ignored

The coder put the slice in the program without code for those of its
bounds that are expressions, so $[(1+0):] acted as $[0:].
---
 mach/coder.go | 19 +++++++++++++++++++
 mach/run.go   | 22 +++++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/mach/coder.go b/mach/coder.go
index c2d5441..905755a 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -112,9 +112,28 @@ func (b *builder) codeVal(op paths.Op, val paths.Val) error {
 	if !op.HasVal() || val == nil {
 		return b.codeOp(op, nil)
 	}
+	if slice, ok := val.(*paths.Slice); ok {
+		err := b.codeBounds(slice)
+		if err != nil {
+			return err
+		}
+	}
 	return b.codeOp(op, val)
 }
 
+// codeBounds generates code for those bounds of a slice that are expressions, for use by paths.OpBounds.
+func (b *builder) codeBounds(slice *paths.Slice) error {
+	for _, bound := range []paths.Val{slice.Start, slice.End, slice.Stride} {
+		if expr, ok := bound.(paths.Expr); ok {
+			err := b.codeExpr(expr)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (b *builder) codeExpr(expr paths.Expr) error {
 	if expr == nil {
 		panic("unexpected nil expr")
diff --git a/mach/run.go b/mach/run.go
index e198be1..0ea2a87 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -98,6 +98,24 @@ func (m *machine) drain() {
 	}
 }
 
+// bounds returns a slice with any bounds that are expressions replaced by their values from the stack,
+// or nothing if one isn't a number.
+func (m *machine) bounds(slice *paths.Slice) JSON {
+	vals := *slice
+	ok := true
+	for _, bound := range []*paths.Val{&vals.Stride, &vals.End, &vals.Start} {
+		if _, isExpr := (*bound).(paths.Expr); isExpr {
+			v := m.pop()
+			ok = ok && isArith(v)
+			*bound = paths.IntVal(cvi(v))
+		}
+	}
+	if !ok {
+		return nothing
+	}
+	return &vals
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -158,8 +176,10 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			}
 		case paths.OpNull:
 			vm.push(nil)
-		case paths.OpReal, paths.OpRE, paths.OpBounds, paths.OpString:
+		case paths.OpReal, paths.OpRE, paths.OpString:
 			vm.push(p.value(ord.index()).(paths.Valuer).Value())
+		case paths.OpBounds:
+			vm.push(vm.bounds(p.value(ord.index()).(*paths.Slice)))
 		case paths.OpID:
 			vm.push(p.value(ord.index()))
 		case paths.OpExp:
-- 
2.43.0


From 8530a9d31a5e1a2b11509e3b76d348bd43022064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:57 +0000
Subject: [PATCH 21/22] fix: numbers of type json.Number were not treated as
 numbers by operators and functions

---
 mach/fns.go  |  2 +-
 mach/json.go | 28 +++++++++++++++++++++-------
 mach/run.go  |  1 +
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/mach/fns.go b/mach/fns.go
index cef294d..546451c 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -327,7 +327,7 @@ func minMaxArray(a []JSON, arithf func(int, float64, float64) float64, stringf f
 	if len(a) == 0 {
 		return nil
 	}
-	switch a[0].(type) {
+	switch plain(a[0]).(type) {
 	case int, int64, float64:
 		return arithArrayOp(a, arithf)
 	case string:
diff --git a/mach/json.go b/mach/json.go
index 0f798db..b32bf37 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -34,8 +34,12 @@ func isInt(v JSON) bool {
 
 // isFloat returns true if v is a floating-point value.
 func isFloat(v JSON) bool {
-	_, ok := v.(float64)
-	return ok
+	switch v.(type) {
+	case float64, json.Number:
+		return true
+	default:
+		return false
+	}
 }
 
 // isSlice returns true if v represents slice parameters.
@@ -44,10 +48,20 @@ func isSlice(v JSON) bool {
 	return ok
 }
 
+// plain returns v, replacing a json.Number (from a document decoded with UseNumber) by its value.
+func plain(v JSON) JSON {
+	if n, ok := v.(json.Number); ok {
+		if f, err := n.Float64(); err == nil {
+			return f
+		}
+	}
+	return v
+}
+
 // isArith returns true if v is an arithmetic type in the JS sense.
 func isArith(v JSON) bool {
 	switch v.(type) {
-	case int, int64, float64:
+	case int, int64, float64, json.Number:
 		return true
 	case bool:
 		return true // surprise!
@@ -59,7 +73,7 @@ func isArith(v JSON) bool {
 // isSimple returns true if the v is "simple" (isn't a JSON object or array).
 func isSimple(v JSON) bool {
 	switch v.(type) {
-	case bool, int, int64, float64, string:
+	case bool, int, int64, float64, json.Number, string:
 		return true
 	default:
 		return false
@@ -116,8 +130,8 @@ func arrayText(a []JSON) (string, bool) {
 		return "", true // null and undefined are empty
 	case []JSON:
 		return arrayText(v)
-	case float64:
-		return floatText(v), true
+	case float64, json.Number:
+		return floatText(cvf(v)), true
 	default:
 		return cvs(v), true
 	}
@@ -449,7 +463,7 @@ func typeOf(v JSON) jsType {
 		return Undefined
 	case nil:
 		return Null
-	case int, int64, float64:
+	case int, int64, float64, json.Number:
 		return Number
 	case string:
 		return String
diff --git a/mach/run.go b/mach/run.go
index 0ea2a87..439bbbd 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -37,6 +37,7 @@ type machine struct {
 }
 
 func (m *machine) push(val JSON) {
+	val = plain(val)
 	if m.sp >= len(m.stack) {
 		m.stack = append(m.stack, val)
 		m.sp = len(m.stack)
-- 
2.43.0


From 5b860c79588311e3b7a8d26e6feeaeb4269692de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:08 +0000
Subject: [PATCH 22/22] fix: chains of operators of any length are compiled
 without recursion

Each operator of a left-leaning chain cost a level of recursion in mach.Compile,
so an expression of eight million operands (16 MB) exhausted the goroutine stack,
which ends the process, before the program could be refused as too large.
---
 mach/coder.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mach/coder.go b/mach/coder.go
index 905755a..c853476 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -141,14 +141,29 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 	if expr.IsLeaf() {
 		return b.codeLeaf(expr)
 	}
+	// a chain of operators leans left and can be long, so go down its left side without recursion
 	t := expr.(*paths.Inner)
-	for _, k := range t.Kids {
-		err := b.codeExpr(k)
+	chain := []*paths.Inner{t}
+	for len(t.Kids) > 0 && !t.Kids[0].IsLeaf() {
+		t = t.Kids[0].(*paths.Inner)
+		chain = append(chain, t)
+	}
+	if len(t.Kids) > 0 {
+		err := b.codeLeaf(t.Kids[0])
 		if err != nil {
 			return err
 		}
 	}
-	b.prog.asm(mkSmall(t.Op, len(t.Kids)))
+	for i := len(chain) - 1; i >= 0; i-- {
+		t = chain[i]
+		for j := 1; j < len(t.Kids); j++ {
+			err := b.codeExpr(t.Kids[j])
+			if err != nil {
+				return err
+			}
+		}
+		b.prog.asm(mkSmall(t.Op, len(t.Kids)))
+	}
 	return nil
 }
 
-- 
2.43.0

