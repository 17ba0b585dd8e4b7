package main

import (
	"math"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"
)

// Generators of documents, paths and expressions. They are directed by the document and
// by the values the prefix of a path selects, so that most steps meet something.

type Gen struct {
	R *rand.Rand
	// document
	names  []string
	uniq   bool
	unum   int
	budget int
	// expressions
	root    V
	ats     []V // sample candidates for @; empty: @ is not available
	errP    float64
	missP   float64
	wildP   float64 // chance that an operand's kind is ignored
	noRegex bool
	noCalls bool
}

func (g *Gen) p(x float64) bool   { return g.R.Float64() < x }
func (g *Gen) n(k int) int        { return g.R.IntN(k) }
func pick[T any](g *Gen, l []T) T { return l[g.R.IntN(len(l))] }

var plainNames = []string{"a", "b", "c", "d", "e", "key", "id"}
var oddNames = []string{"length", "0", "1", "-1", "2", "10", "é", "日本", "a-b", "x y", "", "'", "\"", "\\", "in", "true", "null", "a.b", "$", "@", "*", "😀", "keys", "\n", "A", "aa", "_x", "/", "007", "1.5", ":", "a,b", "4194303", "4194304", "-4194304", "-4194305", "8388607", "8388608", "-0",
	"nin", "false", "sum", "max", "undefined", "__proto__", "constructor", "e", "E", "NaN", "Infinity", "$ref", "@id", "-", "a.", "..", "[0]", "(1)", "?(@)", "\x00", "\x7f", "\ufeff", "e\u0301", " a", "a ", "Length", "1e3", "0x1", "+1",
	"kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"}

func (g *Gen) setNames() {
	g.names = nil
	k := 3 + g.n(4)
	for i := 0; i < k; i++ {
		if g.p(0.2) {
			g.names = append(g.names, pick(g, oddNames))
		} else {
			g.names = append(g.names, pick(g, plainNames))
		}
	}
}

var numPool = []float64{0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 42, 100, -1, -2, -3, -5, 0.5, 1.5, 2.5, -0.5, 0.25, 42.5, 1e3, 1e6,
	1000000, 1 << 22, 1<<22 - 1, -(1 << 22), 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1 << 52, 1e-7, 1e21, 1.5e300, 0.1, 123456789.125, math.Copysign(0, -1)}

var strPool = []string{"", "a", "b", "abc", "ab", "ABC", "abcabc", "0", "1", "2", "-1", "42", "42.0", "42.5", "1e3", "0.5", "00", "true", "false", "null",
	"é", "éa", "日本", "日本語", "😀", "a😀b", "\uffff", "key", "id", "x y", "a/b", "a\\b", "'", "\"", "length", "a,b", "1,2", "hello world", "foo", "bar", "[object Object]", ".", "*", "a.b", "\t", "z"}

func (g *Gen) num() float64 {
	if g.uniq {
		g.unum++
		return float64(g.unum + 1000)
	}
	if g.p(0.5) {
		return float64(g.n(9) - 3)
	}
	return pick(g, numPool)
}

func (g *Gen) strv() string {
	if g.uniq {
		g.unum++
		return "s" + strconv.Itoa(g.unum)
	}
	if g.p(0.05) {
		var sb strings.Builder
		for k := g.n(12); k >= 0; k-- {
			switch g.n(5) {
			case 0:
				sb.WriteRune(rune(0x20 + g.n(0x5f)))
			case 1:
				sb.WriteRune(rune(0xa0 + g.n(0x500)))
			case 2:
				sb.WriteRune(rune(0x4e00 + g.n(0x1000)))
			case 3:
				sb.WriteRune(rune(0x1f300 + g.n(0x200)))
			default:
				sb.WriteByte("abc/\\ .*"[g.n(8)])
			}
		}
		return sb.String()
	}
	return pick(g, strPool)
}

func (g *Gen) scalar() V {
	switch g.n(12) {
	case 0:
		return nil
	case 1:
		return g.p(0.5)
	case 2, 3, 4, 5:
		return g.strv()
	default:
		return g.num()
	}
}

// value makes a document of at most the given depth, spending g.budget.
func (g *Gen) value(depth int) V {
	g.budget--
	if depth <= 0 || g.budget <= 0 || g.p(0.35) {
		return g.scalar()
	}
	k := g.fanout()
	if g.p(0.5) {
		a := make([]V, 0, k)
		for i := 0; i < k; i++ {
			a = append(a, g.value(depth-1))
		}
		return a
	}
	o := map[string]V{}
	for i := 0; i < k; i++ {
		o[g.name(i)] = g.value(depth - 1)
	}
	return o
}

func (g *Gen) fanout() int {
	switch x := g.n(100); {
	case x < 12:
		return 0
	case x < 30:
		return 1
	case x < 85:
		return 2 + g.n(4)
	case x < 97:
		return 6 + g.n(8)
	case x < 99:
		return 14 + g.n(40)
	}
	if g.budget > 500 {
		return 100 + g.n(200)
	}
	return 10
}

func (g *Gen) name(i int) string {
	if g.p(0.75) || len(g.names) > 0 && i < 3 {
		return pick(g, g.names)
	}
	if g.p(0.5) {
		return pick(g, plainNames)
	}
	return "n" + strconv.Itoa(g.n(100))
}

// doc makes a document: usually small, sometimes wide or deep.
func (g *Gen) doc() V {
	g.setNames()
	switch x := g.n(100); {
	case x < 70:
		g.budget = 40
		return g.container(4)
	case x < 90:
		g.budget = 120
		return g.container(6)
	case x < 94:
		g.budget = 600
		return g.container(5)
	case x < 96: // deep
		d := 20 + g.n(150)
		var v V = g.scalar()
		for i := 0; i < d; i++ {
			g.budget = 3
			if g.p(0.5) {
				a := []V{v}
				if g.p(0.3) {
					a = append(a, g.value(1))
				}
				if g.p(0.2) {
					a = append([]V{g.value(1)}, a...)
				}
				v = a
			} else {
				o := map[string]V{pick(g, g.names): v}
				if g.p(0.3) {
					o[pick(g, plainNames)+"'"] = g.value(1)
				}
				v = o
			}
		}
		return v
	case x < 98: // list of records
		k := 1 + g.n(60)
		a := make([]V, k)
		for i := range a {
			g.budget = 8
			o := map[string]V{}
			for _, n := range g.names {
				if g.p(0.75) {
					o[n] = g.value(1)
				}
			}
			a[i] = o
		}
		return a
	case x < 99:
		return g.scalar()
	}
	g.budget = 5
	return g.container(2)
}

func (g *Gen) container(depth int) V {
	for {
		b := g.budget
		v := g.value(depth)
		if isContainer(v) && (count(v) > 2 || g.p(0.1)) {
			return v
		}
		g.budget = b
	}
}

func count(v V) int {
	n := 1
	switch v := v.(type) {
	case []V:
		for _, x := range v {
			n += count(x)
		}
	case map[string]V:
		for _, x := range v {
			n += count(x)
		}
	}
	return n
}

func depthOf(v V) int {
	d := 0
	switch v := v.(type) {
	case []V:
		for _, x := range v {
			if k := depthOf(x) + 1; k > d {
				d = k
			}
		}
	case map[string]V:
		for _, x := range v {
			if k := depthOf(x) + 1; k > d {
				d = k
			}
		}
	}
	return d
}

// clone copies a document.
func clone(v V) V {
	switch v := v.(type) {
	case []V:
		a := make([]V, len(v))
		for i, x := range v {
			a[i] = clone(x)
		}
		return a
	case map[string]V:
		o := make(map[string]V, len(v))
		for k, x := range v {
			o[k] = clone(x)
		}
		return o
	}
	return v
}

var pathIdent = regexp.MustCompile(`^[A-Za-z_\x80-\x{10ffff}][A-Za-z_0-9\-\x80-\x{10ffff}]*$`)
var exprIdent = regexp.MustCompile(`^[A-Za-z_\x80-\x{10ffff}][A-Za-z_0-9\x80-\x{10ffff}]*$`)

// anyOf picks a random descendant-or-self of v, at most max levels down, giving the path to it.
type hop struct {
	name string
	idx  int
	arr  bool
	n    int // length of the array
}

func (g *Gen) descend(v V, max int) (V, []hop) {
	var hops []hop
	for i := 0; i < max; i++ {
		switch x := v.(type) {
		case []V:
			if len(x) == 0 {
				return v, hops
			}
			k := g.n(len(x))
			hops = append(hops, hop{arr: true, idx: k, n: len(x)})
			v = x[k]
		case map[string]V:
			if len(x) == 0 {
				return v, hops
			}
			k := pick(g, sortedKeys(x))
			hops = append(hops, hop{name: k})
			v = x[k]
		default:
			return v, hops
		}
		if g.p(0.25) {
			break
		}
	}
	return v, hops
}

// ref writes a reference in an expression.
func (g *Gen) ref(base *Expr, hops []hop) *Expr {
	e := base
	for _, h := range hops {
		if h.arr {
			i := int64(h.idx)
			if g.p(0.25) {
				i -= int64(h.n)
			}
			e = xIdx(e, xInt(i))
			continue
		}
		if h.name != "length" && exprIdent.MatchString(h.name) && g.p(0.8) {
			e = xDot(e, h.name)
		} else {
			e = xIdx(e, xStr(h.name))
		}
	}
	return e
}

type kind int

const (
	kNum kind = iota
	kStr
	kBool
	kArr
	kObj
	kNull
	kAny
)

func kindOf(v V) kind {
	switch v.(type) {
	case nil:
		return kNull
	case bool:
		return kBool
	case float64, int64:
		return kNum
	case string:
		return kStr
	case []V:
		return kArr
	}
	return kObj
}

// operand is a reference into @ or $, preferably to a value of the kind wanted.
func (g *Gen) operand(k kind) *Expr {
	var best *Expr
	for try := 0; try < 6; try++ {
		base := xRoot()
		v := g.root
		if len(g.ats) > 0 && g.p(0.8) {
			base = xAt()
			v = pick(g, g.ats)
		}
		max := 3
		if g.p(0.15) {
			max = 0
		}
		x, hops := g.descend(v, max)
		best = g.ref(base, hops)
		if k == kAny || kindOf(x) == k {
			break
		}
	}
	if g.p(g.missP) {
		switch g.n(4) {
		case 0:
			best = xDot(best, pick(g, []string{"zz", "missing", "length2", "q"}))
		case 1:
			best = xIdx(best, xInt(int64(g.n(200)-100)))
		case 2:
			best = xIdx(best, xStr(g.anyName()))
		default:
			best = xDot(best, g.identName())
		}
	}
	return best
}

func (g *Gen) anyName() string {
	if len(g.names) > 0 && g.p(0.6) {
		return pick(g, g.names)
	}
	if g.p(0.5) {
		return pick(g, plainNames)
	}
	return pick(g, oddNames)
}

func (g *Gen) identName() string {
	for i := 0; i < 5; i++ {
		if n := g.anyName(); exprIdent.MatchString(n) {
			return n
		}
	}
	return "a"
}

func (g *Gen) hasOperands() bool { return len(g.ats) > 0 || isContainer(g.root) }

var intPool = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 42, 50, 99, 100, 255, 256, 1000, 65535, 65536, 1<<22 - 1, 1 << 22, 1<<22 + 1,
	1<<23 - 1, 1 << 23, 1<<23 + 1, 1 << 24, 1<<31 - 1, 1 << 31, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 62, math.MaxInt64, math.MaxInt64 - 1}

func (g *Gen) intLit() *Expr {
	if g.p(0.75) {
		return &Expr{K: EInt, I: int64(g.n(10))}
	}
	e := &Expr{K: EInt, I: pick(g, intPool)}
	if g.p(0.1) {
		e.Spell = strings.Repeat("0", 1+g.n(3)) + strconv.FormatInt(e.I, 10)
	}
	return e
}

var realSpell = []string{"1.", "0.5", "2.50", "1.e2", "1.5e1", "0.25", "3.0", "10.0", "0.0", "1.25e-1", "42.5", "100.0e-2", "7.", "1.5", "2.0", "1.0e+3", "0.1", "00.5"}

func (g *Gen) realLit() *Expr {
	if g.p(0.6) {
		s := pick(g, realSpell)
		f, _ := strconv.ParseFloat(s, 64)
		return &Expr{K: EReal, F: f, Spell: s}
	}
	f := math.Abs(pick(g, numPool))
	return xReal(f)
}

// expr makes an expression that usually yields the kind wanted.
func (g *Gen) expr(k kind, d int) *Expr {
	if k == kAny || g.p(g.wildP) {
		k = pick(g, []kind{kNum, kNum, kStr, kBool, kBool, kArr, kObj, kNull})
	}
	if d <= 0 {
		return g.atom(k)
	}
	switch k {
	case kNum:
		switch x := g.n(20); {
		case x < 5:
			return g.atom(k)
		case x < 14:
			a, b := kNum, kNum
			if g.p(0.06) {
				a = kBool
			}
			if g.p(0.06) {
				b = kBool
			}
			return xBin(pick(g, []string{"+", "-", "*", "/", "%", "+", "-"}), g.expr(a, d-1), g.expr(b, d-1))
		case x < 15:
			return xNeg(g.expr(kNum, d-1))
		case x < 16:
			return xDot(g.expr(pick(g, []kind{kArr, kStr, kObj}), d-1), "length")
		default:
			if g.noCalls {
				return g.atom(k)
			}
			switch g.n(7) {
			case 0:
				return xCall(pick(g, []string{"abs", "ceil", "floor"}), g.expr(kNum, d-1))
			case 1:
				return xCall("length", g.expr(pick(g, []kind{kArr, kStr, kObj, kAny}), d-1))
			case 2:
				return xCall("to_number", g.expr(pick(g, []kind{kStr, kNum}), d-1))
			case 3:
				return xCall(pick(g, []string{"min", "max"}), g.exprs(kNum, 2+g.n(3), d-1)...)
			default:
				return xCall(pick(g, []string{"min", "max", "sum", "avg", "prod"}), g.numArr(d-1))
			}
		}
	case kStr:
		if g.p(0.8) {
			return g.atom(k)
		}
		if !g.noCalls && g.p(0.5) {
			return xCall(pick(g, []string{"min", "max"}), g.exprs(kStr, 2+g.n(3), d-1)...)
		}
		return xBin(pick(g, []string{"||", "&&"}), g.expr(kStr, d-1), g.expr(kStr, d-1))
	case kBool:
		switch x := g.n(24); {
		case x < 3:
			return g.atom(k)
		case x < 8:
			s := pick(g, []kind{kNum, kNum, kStr})
			t := s
			if g.p(0.15) {
				t = kAny
			}
			return xBin(pick(g, []string{"<", "<=", ">", ">="}), g.expr(s, d-1), g.expr(t, d-1))
		case x < 12:
			s := pick(g, []kind{kNum, kStr, kAny, kBool})
			t := s
			if g.p(0.3) {
				t = kAny
			}
			return xBin(pick(g, []string{"==", "!="}), g.expr(s, d-1), g.expr(t, d-1))
		case x < 16:
			s := pick(g, []kind{kBool, kBool, kAny})
			return xBin(pick(g, []string{"&&", "||"}), g.expr(s, d-1), g.expr(s, d-1))
		case x < 18:
			return xNot(g.expr(pick(g, []kind{kBool, kAny}), d-1))
		case x < 20:
			rhs := g.litArr(d - 1)
			if g.p(g.errP) {
				rhs = g.expr(kAny, d-1)
			} else if g.p(0.3) && g.errP > 0 {
				rhs = g.operand(kArr)
			}
			return xBin(pick(g, []string{"in", "nin"}), g.expr(kAny, d-1), rhs)
		case x < 22:
			if g.noRegex {
				return g.atom(k)
			}
			return g.match(d)
		default:
			if g.noCalls {
				return g.atom(k)
			}
			switch g.n(3) {
			case 0:
				return xCall("contains", g.expr(kStr, d-1), g.expr(kStr, d-1))
			case 1:
				return xCall("contains", g.expr(kArr, d-1), g.expr(kAny, d-1))
			}
			return xCall(pick(g, []string{"starts_with", "ends_with"}), g.expr(kStr, d-1), g.expr(kStr, d-1))
		}
	case kArr:
		switch x := g.n(10); {
		case x < 5:
			return g.atom(k)
		case x < 8 || g.noCalls:
			return g.litArr(d - 1)
		case x < 9:
			return xCall("keys", g.expr(kObj, d-1))
		default:
			return xCall("tokenize", g.expr(kStr, d-1), xStr(pick(g, []string{",", " ", "a", "[ab]+", "\\.", "", "b*"})))
		}
	}
	return g.atom(k)
}

func (g *Gen) exprs(k kind, n, d int) []*Expr {
	l := make([]*Expr, n)
	for i := range l {
		l[i] = g.expr(k, d)
	}
	return l
}

func (g *Gen) litArr(d int) *Expr {
	n := g.n(5)
	if g.p(0.02) {
		n = 20 + g.n(100)
		d = 0
	}
	return xArr(g.exprs(pick(g, []kind{kNum, kStr, kAny, kAny}), n, d-1)...)
}

func (g *Gen) numArr(d int) *Expr {
	if g.p(0.3) && g.hasOperands() {
		return g.operand(kArr)
	}
	return xArr(g.exprs(kNum, g.n(5), d-1)...)
}

var patPool = []string{"a", "^a", "b$", "^abc$", "[a-c]+", ".", "", "^$", "a|b", "\\d+", "^\\d+$", "日", "é", "(?i)ABC", "a/b", "\\.", "\\\\", "o w", "^.{3}$", "x*", "[^a]", "(a)(b)?c", "/", "\\\\/", "foo|bar", "\\w+\\s\\w+", "^😀$", "[/]", "\\x61", "\\pL"}

// match makes an application of ~. Its left operand is a string for at least one candidate;
// others may make it fail, in which case the whole evaluation does. Without errP it is guarded
// by construction: a literal, or the string chosen from a literal array.
func (g *Gen) match(d int) *Expr {
	op := pick(g, []string{"~", "=~"})
	var l *Expr
	if g.p(g.errP) || g.errP > 0 && g.p(0.4) {
		l = g.operand(kStr)
	} else if g.p(0.5) {
		l = xStr(g.strv())
	} else {
		// [ 's', 't' ][ index ]
		l = xIdx(xArr(xStr(g.strv()), xStr(g.strv()), xStr(g.strv())), g.expr(kNum, 0))
	}
	var r *Expr
	switch {
	case g.p(g.errP):
		r = g.expr(kAny, d-1)
	case g.p(0.6):
		r = xRe(pick(g, patPool))
	default:
		r = xStr(pick(g, patPool))
	}
	return xBin(op, l, r)
}

// nonFinite are expressions for NaN and the infinities.
var nonFinite = []*Expr{
	xBin("*", xStr("x"), xInt(1)),
	xBin("*", xReal(1e308), xInt(10)),
	xNeg(xBin("*", xReal(1e308), xInt(10))),
	xBin("-", xBin("*", xReal(1e308), xInt(10)), xBin("*", xReal(1e308), xInt(10))),
}

func (g *Gen) atom(k kind) *Expr {
	if k == kNum && g.p(0.02) {
		return pick(g, nonFinite)
	}
	if g.hasOperands() && g.p(0.55) || k == kObj && g.hasOperands() {
		return g.operand(k)
	}
	switch k {
	case kNum:
		if g.p(0.75) {
			e := g.intLit()
			if g.p(0.15) {
				return xNeg(e)
			}
			return e
		}
		return g.realLit()
	case kStr:
		return xStr(g.strv())
	case kBool:
		return xBool(g.p(0.5))
	case kArr:
		n := g.n(4)
		l := make([]*Expr, n)
		for i := range l {
			l[i] = g.atom(pick(g, []kind{kNum, kStr, kBool, kNull, kNum}))
		}
		return xArr(l...)
	case kObj:
		return xNull()
	}
	return xNull()
}

// PathOpts directs path generation.
type PathOpts struct {
	Steps     int
	Nest      float64 // chance of ..
	Filter    float64
	Wild      float64
	Slice     float64
	Union     float64
	ExprStep  float64
	Miss      float64 // chance that a step is chosen blindly
	FilterGen func(g *Gen, cands []V) *Expr
	ExprGen   func(g *Gen, cur []V, nested bool) *Expr
	MaxRes    int
}

// path makes a path for doc, following what each prefix selects.
func (g *Gen) path(doc V, o PathOpts) Path {
	var p Path
	m := &Model{root: doc, budget: 1 << 18}
	cur := leaf(doc)
	max := o.MaxRes
	if max == 0 {
		max = 3000
	}
	for i := 0; i < o.Steps; i++ {
		vals := cur.list()
		s := g.step(vals, o)
		var next *Sel
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					switch x.(type) {
					case skip, evalErr:
						ok = false
						return
					}
					panic(x)
				}
			}()
			next = m.step(cur, s)
			return true
		}()
		if !ok {
			// keep a failing or unspecified step only as the last
			p = append(p, s)
			return p
		}
		if next.N > max {
			continue
		}
		if next.N == 0 && g.p(0.7) && i < o.Steps-1 {
			continue // try another
		}
		p = append(p, s)
		cur = next
	}
	return p
}

// containersIn lists containers of the subtrees, up to a limit.
func containersIn(vals []V, limit int) []V {
	var l []V
	var rec func(v V)
	rec = func(v V) {
		if len(l) >= limit {
			return
		}
		switch x := v.(type) {
		case []V:
			l = append(l, v)
			for _, e := range x {
				rec(e)
			}
		case map[string]V:
			l = append(l, v)
			for _, k := range sortedKeys(x) {
				rec(x[k])
			}
		}
	}
	for _, v := range vals {
		rec(v)
	}
	return l
}

func (g *Gen) step(vals []V, o PathOpts) *Step {
	nested := g.p(o.Nest)
	targets := vals
	if nested {
		targets = containersIn(vals, 200)
	}
	var t V
	if len(targets) > 0 && !g.p(o.Miss) {
		t = pick(g, targets)
		for k := 0; k < 4 && !isContainer(t); k++ {
			t = pick(g, targets)
		}
	} else {
		t = pick(g, []V{nil, []V{1.0, 2.0, 3.0}, map[string]V{g.anyName(): nil}})
	}
	s := &Step{Nest: nested}
	x := g.R.Float64()
	switch {
	case x < o.Filter:
		s.K = SFilter
		var cands []V
		if nested {
			cands = targets
		} else {
			for _, v := range vals {
				children(v).each(func(c V) { cands = append(cands, c) })
			}
		}
		s.E = o.FilterGen(g, cands)
		return s
	case x < o.Filter+o.Wild:
		s.K = SWild
		s.Brack = g.p(0.5)
		return s
	case x < o.Filter+o.Wild+o.Slice:
		s.K = SElems
		s.L = []Elem{g.slice(t)}
		return s
	case x < o.Filter+o.Wild+o.Slice+o.Union:
		s.K = SElems
		n := 2 + g.n(3)
		if g.p(0.03) {
			n = 10 + g.n(60)
		}
		for i := 0; i < n; i++ {
			if len(targets) > 0 && g.p(0.3) {
				t = pick(g, targets)
			}
			s.L = append(s.L, g.elem(t, o.Slice > 0))
		}
		return s
	case x < o.Filter+o.Wild+o.Slice+o.Union+o.ExprStep:
		s.K = SExpr
		s.Brack = g.p(0.7)
		s.E = o.ExprGen(g, targets, nested)
		return s
	}
	// one name or index
	switch v := t.(type) {
	case []V:
		i := int64(0)
		if len(v) > 0 {
			i = int64(g.n(len(v)))
		}
		if g.p(0.12) {
			i = int64(g.n(12) - 6)
		}
		if g.p(0.3) {
			i -= int64(len(v))
		}
		if g.p(0.3) && i >= 0 || g.p(0.05) {
			s.K = SInt
			s.I = i
			return s
		}
		s.K = SElems
		s.L = []Elem{lInt(i)}
		return s
	case map[string]V:
		n := g.anyName()
		if len(v) > 0 && !g.p(0.1) {
			n = pick(g, sortedKeys(v))
		}
		if canonInt.MatchString(n) && g.p(0.7) {
			i, _ := strconv.ParseInt(n, 10, 64)
			if g.p(0.5) {
				s.K = SInt
				s.I = i
				return s
			}
			s.K = SElems
			s.L = []Elem{lInt(i)}
			return s
		}
		if pathIdent.MatchString(n) && g.p(0.6) {
			s.K = SName
			s.S = n
			return s
		}
		s.K = SElems
		if pathIdent.MatchString(n) && g.p(0.4) {
			s.L = []Elem{{K: LName, S: n}}
		} else {
			s.L = []Elem{lStr(n)}
		}
		return s
	}
	if g.p(0.5) {
		s.K = SName
		s.S = g.identName()
		return s
	}
	s.K = SInt
	s.I = int64(g.n(5))
	return s
}

var canonInt = regexp.MustCompile(`^(0|-?[1-9][0-9]{0,15})$`)

func (g *Gen) elem(t V, slices bool) Elem {
	if slices && g.p(0.2) {
		return g.slice(t)
	}
	switch v := t.(type) {
	case []V:
		i := int64(g.n(len(v) + 1))
		if g.p(0.4) {
			i = -i
		}
		return lInt(i)
	case map[string]V:
		n := g.anyName()
		if len(v) > 0 && !g.p(0.15) {
			n = pick(g, sortedKeys(v))
		}
		if canonInt.MatchString(n) && g.p(0.5) {
			i, _ := strconv.ParseInt(n, 10, 64)
			return lInt(i)
		}
		if pathIdent.MatchString(n) && g.p(0.3) {
			return Elem{K: LName, S: n}
		}
		return lStr(n)
	}
	if g.p(0.5) {
		return lStr(g.anyName())
	}
	return lInt(int64(g.n(6) - 3))
}

var bigBounds = []int64{math.MaxInt64, math.MaxInt64 - 1, -(math.MaxInt64 - 1), 1 << 62, -(1 << 62), 1 << 32, -(1 << 32), 1 << 31, 1<<22 - 1, 1 << 22, -(1 << 22), -(1<<22 + 1), 1<<63 - 3, 1000, -1000}

func (g *Gen) bound(n int) Bound {
	if g.p(0.25) {
		return Bound{}
	}
	if g.p(0.1) {
		return Bound{Set: true, I: pick(g, bigBounds)}
	}
	return Bound{Set: true, I: int64(g.n(2*n+5) - n - 2)}
}

// computed gives a bound by an expression for the same integer.
func (g *Gen) computed(b *Bound) {
	if !b.Set || b.E != nil || b.I > 1<<50 || b.I < -(1<<50) {
		return
	}
	lit := func(i int64) *Expr {
		if i < 0 {
			return xNeg(xInt(-i))
		}
		return xInt(i)
	}
	k := int64(1 + g.n(9))
	switch g.n(7) {
	case 0:
		b.E = lit(b.I)
	case 1:
		b.E = xBin("-", lit(b.I+k), xInt(k))
	case 2:
		b.E = xBin("+", xInt(k), lit(b.I-k))
	case 3:
		b.E = xBin("/", lit(b.I*k), xInt(k))
	case 4:
		b.E = xIdx(xArr(xInt(k), lit(b.I)), xInt(1))
	case 5:
		b.E = xBin("||", xInt(0), lit(b.I))
	case 6:
		b.E = xReal(math.Abs(float64(b.I)) + float64(g.n(4))/4)
		if b.I < 0 {
			b.E = xNeg(b.E)
		}
	}
}

func (g *Gen) slice(t V) Elem {
	n := 4
	if a, ok := t.([]V); ok {
		n = len(a)
	}
	e := Elem{K: LSlice}
	e.B[0] = g.bound(n)
	e.B[1] = g.bound(n)
	if g.p(0.5) {
		e.B[2] = g.bound(3)
	}
	if g.p(0.15) {
		g.computed(&e.B[g.n(3)])
	}
	e.Colons2 = g.p(0.2)
	return e
}

func (g *Gen) layout() *Layout {
	switch g.n(4) {
	case 0, 1:
		return &Layout{R: g.R, AltEsc: g.p(0.3)}
	case 2:
		return &Layout{R: g.R, WS: 0.15, Paren: 0.05, AltEsc: true}
	}
	return &Layout{R: g.R, WS: 0.5 * g.R.Float64(), Paren: 0.1 * g.R.Float64()}
}
