package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/forsyth/jsonpath/paths"
)

// Random syntax trees, without regard to meaning, and their comparison with parsed ones.

var identPieces = []string{"a", "b", "Z", "_", "x1", "length", "keys", "in", "nin", "true", "null", "e", "e1", "é", "日", "😀", "\x80", "\xff", "0", "9", "max", "inn", "n", "i"}

func (g *Gen) ident(dash bool) string {
	if g.p(0.3) {
		return pick(g, []string{"a", "b", "length", "in", "nin", "true", "false", "null", "e", "E", "e5", "_", "é", "x", "foo", "min"})
	}
	for {
		s := ""
		for k := 1 + g.n(3); k > 0; k-- {
			s += pick(g, identPieces)
			if dash && g.p(0.2) {
				s += "-"
			}
		}
		if g.p(0.01) {
			s += strings.Repeat("n", 300+g.n(3000))
		}
		if !dig(s[0]) {
			return s
		}
	}
}

func isOpWord(s string) bool {
	return s == "in" || s == "nin"
}

func isKeyword(s string) bool {
	return s == "true" || s == "false" || s == "null"
}

var strBits = []string{"a", "b", " ", "'", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x00", "\x1f", "é", "日", "😀", "\u2028", "]", "[", "(", ")", "$", "@", ",", ":", "?", "*", "\x7f", "n", "u0041", "\x80", "\ufffd", "0", "..", "\uffff", "\U0010ffff"}

func (g *Gen) synStr() string {
	if g.p(0.2) {
		return pick(g, []string{"true", "false", "null", "in", "nin", "length", "$", "@", "*", "0", "-1", "1.5", "1:2", "?(1)", "a", "keys", "abs", "..", "undefined", "NaN", "[]", "/a/"})
	}
	s := ""
	for k := g.n(5); k > 0; k-- {
		s += pick(g, strBits)
	}
	if g.p(0.01) {
		s += strings.Repeat(pick(g, strBits), 500)
	}
	return s
}

func (g *Gen) synInt() int64 {
	switch g.n(4) {
	case 0:
		return g.edgeAbs()
	case 1:
		return int64(g.R.Uint64() >> 1 >> g.n(63))
	}
	return int64(g.n(12))
}

func (g *Gen) edgeAbs() int64 {
	return pick(g, edgeInts)
}

func (g *Gen) intSpell(i int64) string {
	if g.p(0.15) {
		return strings.Repeat("0", 1+g.n(3)) + strconv.FormatInt(i, 10)
	}
	return ""
}

var reBits = []string{"a", "b", ".", "\\.", "\\d", "[a-z]", "[^/]", "x*", "\\\\", "(a|b)", "^", "$", "\\/", "\\w+", "é", "日", "'", "\"", " ", "\\pL", "\\x41", "(?i)k", "]", ",", "@", "\\[", "\\]", "{2}", "\\Q.\\E", "\\'", "\\\"", "\n", "#"}

// reSpell makes the text of a valid regular expression between its slashes.
func (g *Gen) reSpell() (text, pattern string) {
	for {
		s := ""
		for k := g.n(5); k > 0; k-- {
			s += pick(g, reBits)
		}
		p, n, ok := reBody(s + "/")
		if !ok || n != len(s)+1 {
			continue
		}
		if v, _ := recogniseExpr("/" + s + "/"); v == vAccept {
			return s, p
		}
	}
}

func (g *Gen) realSp() *Expr {
	s := strconv.FormatUint(g.R.Uint64()>>g.n(64), 10)
	if g.p(0.5) {
		s = strconv.Itoa(g.n(20))
	}
	if len(s) > 15 && g.p(0.5) {
		s = s[:15]
	}
	s += "."
	if g.p(0.8) {
		for k := g.n(6); k > 0; k-- {
			s += strconv.Itoa(g.n(10))
		}
	}
	if g.p(0.01) {
		s += strings.Repeat(strconv.Itoa(g.n(10)), 400)
	}
	if g.p(0.3) {
		s += "e" + pick(g, []string{"", "+", "-"}) + pick(g, []string{"0", "1", "5", "007", "20", "280"})
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return &Expr{K: EReal, F: 1.5, Spell: "1.5"}
	}
	return &Expr{K: EReal, F: f, Spell: s}
}

func (g *Gen) synExpr(d int) *Expr {
	e := g.synExpr1(d)
	if g.p(0.06) {
		e.Parens = 1 + g.n(3)
	}
	return e
}

func (g *Gen) synList(d int) []*Expr {
	n := g.n(4)
	if g.p(0.01) {
		n = 40 + g.n(300)
		d = 0
	}
	l := make([]*Expr, n)
	for i := range l {
		l[i] = g.synExpr(d)
	}
	return l
}

func (g *Gen) synExpr1(d int) *Expr {
	if d <= 0 || g.p(0.15) {
		switch g.n(12) {
		case 0:
			i := g.synInt()
			return &Expr{K: EInt, I: i, Spell: ""}
		case 1:
			i := g.synInt()
			e := &Expr{K: EInt, I: i}
			e.Spell = g.intSpell(i)
			return e
		case 2:
			return g.realSp()
		case 3, 4:
			return xStr(g.synStr())
		case 5:
			t, p := g.reSpell()
			return &Expr{K: ERe, S: p, Spell: "/" + t + "/"}
		case 6:
			return pick(g, []*Expr{{K: ETrue}, {K: EFalse}, {K: ENull}}).clone()
		case 7, 8:
			return xAt()
		case 9:
			return xRoot()
		default:
			for {
				if n := g.ident(false); !isOpWord(n) && !isKeyword(n) {
					return &Expr{K: EName, S: n}
				}
			}
		}
	}
	d--
	switch g.n(12) {
	case 0:
		return xArr(g.synList(d)...)
	case 1:
		for {
			if n := g.ident(false); !isOpWord(n) && !isKeyword(n) {
				e := xCall(n, g.synList(d)...)
				if g.p(0.1) {
					e.Callee = 1 + g.n(2)
				}
				return e
			}
		}
	case 2:
		return xIdx(g.synExpr(d), g.synExpr(d))
	case 3, 4:
		return xDot(g.synExpr(d), g.ident(false))
	case 5:
		return xNeg(g.synExpr(d))
	case 6:
		return xNot(g.synExpr(d))
	}
	return xBin(pick(g, allBinOps), g.synExpr(d), g.synExpr(d))
}

func (g *Gen) synSigned() int64 {
	i := g.synInt()
	if g.p(0.4) && i < 1<<63-1 {
		return -i
	}
	return i
}

func (g *Gen) synBound(d int) Bound {
	switch g.n(6) {
	case 0, 1:
		return Bound{}
	case 2:
		return Bound{Set: true, E: g.synExpr(d)}
	}
	return Bound{Set: true, I: g.synSigned()}
}

func (g *Gen) synElem(d int) Elem {
	switch g.n(4) {
	case 0:
		return lInt(g.synSigned())
	case 1:
		return lStr(g.synStr())
	case 2:
		return Elem{K: LName, S: g.ident(true)}
	}
	return Elem{K: LSlice, B: [3]Bound{g.synBound(d), g.synBound(d), g.synBound(d)}, Colons2: g.p(0.3)}
}

func (g *Gen) synStep(d int) *Step {
	s := &Step{Nest: g.p(0.3), Brack: g.p(0.5)}
	switch g.n(7) {
	case 0:
		s.K = SWild
	case 1:
		s.K = SName
		s.Brack = false
		s.S = g.ident(true)
	case 2:
		s.K = SInt
		s.Brack = false
		s.I = g.synSigned()
	case 3:
		s.K = SExpr
		s.E = g.synExpr(d)
	case 4:
		s.K = SFilter
		s.E = g.synExpr(d)
	default:
		s.K = SElems
		n := 1
		if g.p(0.5) {
			n = 2 + g.n(4)
			if g.p(0.02) {
				n = 50 + g.n(600)
			}
		}
		for ; n > 0; n-- {
			s.L = append(s.L, g.synElem(d-1))
		}
	}
	return s
}

func (g *Gen) synPath() Path {
	var p Path
	n := g.n(5)
	if g.p(0.01) {
		n = 30 + g.n(300)
	}
	for ; n > 0; n-- {
		p = append(p, g.synStep(1+g.n(4)))
	}
	return p
}

func (g *Gen) synLayout() *Layout {
	l := &Layout{R: g.R, AltEsc: g.p(0.5)}
	switch g.n(5) {
	case 0:
	case 1:
		l.WS = 0.9
	case 2:
		l.WS, l.Paren = 0.1, 0.15
	case 3:
		l.WS = 0.3
		l.Full = true
	default:
		l.WS = 0.3 * g.R.Float64()
	}
	return l
}

// comparison with the trees of the code under test

var opFor = map[string]paths.Op{
	"||": paths.OpOr, "&&": paths.OpAnd, "==": paths.OpEQ, "!=": paths.OpNE, "<": paths.OpLT, "<=": paths.OpLE, ">": paths.OpGT, ">=": paths.OpGE,
	"~": paths.OpMatch, "=~": paths.OpMatch, "in": paths.OpIn, "nin": paths.OpNin, "+": paths.OpAdd, "-": paths.OpSub, "*": paths.OpMul, "/": paths.OpDiv, "%": paths.OpMod,
}

// diffExpr explains how the parsed tree x differs from e, or returns "".
func diffExpr(x paths.Expr, e *Expr) string {
	if x == nil {
		return "missing tree for " + cut(e.Text(nil), 200)
	}
	bad := func() string {
		return fmt.Sprintf("parsed as %s (operator %#v) instead of %s", cut(fmt.Sprint(x), 300), x.Opcode(), cut(e.Text(nil), 300))
	}
	inner := func(op paths.Op, kids ...*Expr) string {
		n, ok := x.(*paths.Inner)
		if !ok || n.Op != op || len(n.Kids) != len(kids) {
			return bad()
		}
		for i, k := range kids {
			if d := diffExpr(n.Kids[i], k); d != "" {
				return d
			}
		}
		return ""
	}
	ok := false
	switch e.K {
	case EInt:
		l, is := x.(*paths.IntLeaf)
		ok = is && l.Op == paths.OpInt && l.Val == e.I
	case EReal:
		l, is := x.(*paths.FloatLeaf)
		ok = is && l.Op == paths.OpReal && l.Val == e.F
	case EStr:
		l, is := x.(*paths.StringLeaf)
		ok = is && l.Op == paths.OpString && l.Val == e.S
	case ERe:
		l, is := x.(*paths.RegexpLeaf)
		ok = is && l.Op == paths.OpRE && l.Pattern == e.S && l.Prog != nil && l.Prog.String() == e.S
	case ETrue, EFalse:
		l, is := x.(*paths.BoolLeaf)
		ok = is && l.Op == paths.OpBool && l.Val == (e.K == ETrue)
	case ENull:
		ok = x.Opcode() == paths.OpNull
	case EAt:
		ok = x.Opcode() == paths.OpCurrent
	case ERoot:
		ok = x.Opcode() == paths.OpRoot
	case EName:
		l, is := x.(*paths.NameLeaf)
		ok = is && l.Op == paths.OpID && l.Name == e.S
	case EArr:
		return inner(paths.OpArray, e.Kids...)
	case ECall:
		return inner(paths.OpCall, append([]*Expr{{K: EName, S: e.S}}, e.Kids...)...)
	case EIdx:
		return inner(paths.OpIndex, e.Kids...)
	case EDot:
		return inner(paths.OpDot, e.Kids[0], &Expr{K: EName, S: e.S})
	case ENeg:
		return inner(paths.OpNeg, e.Kids...)
	case ENot:
		return inner(paths.OpNot, e.Kids...)
	case EBin:
		return inner(opFor[e.S], e.Kids...)
	}
	if !ok {
		return bad()
	}
	return ""
}

func diffBound(v paths.Val, b Bound) string {
	if !b.Set {
		if v != nil {
			return fmt.Sprintf("slice bound %s that was not written", v)
		}
		return ""
	}
	if b.E != nil {
		x, ok := v.(paths.Expr)
		if !ok {
			return fmt.Sprintf("slice bound %#v instead of an expression", v)
		}
		return diffExpr(x, b.E)
	}
	if v != paths.IntVal(b.I) {
		return fmt.Sprintf("slice bound %#v instead of %d", v, b.I)
	}
	return ""
}

func diffElem(v paths.Val, l *Elem) string {
	ok := false
	switch l.K {
	case LInt:
		ok = v == paths.IntVal(l.I)
	case LStr:
		ok = v == paths.StringVal(l.S)
	case LName:
		ok = v == paths.NameVal(l.S)
	case LSlice:
		s, is := v.(*paths.Slice)
		if !is {
			break
		}
		ok = true
		for i, b := range []paths.Val{s.Start, s.End, s.Stride} {
			if d := diffBound(b, l.B[i]); d != "" {
				return d
			}
		}
	}
	if !ok {
		return fmt.Sprintf("element %#v instead of %+v", v, *l)
	}
	return ""
}

func diffStep(x *paths.Step, s *Step) string {
	if x == nil {
		return "nil step"
	}
	var op, nop paths.Op
	n := 1
	switch s.K {
	case SWild:
		op, nop, n = paths.OpWild, paths.OpNestWild, 0
	case SName, SInt:
		op, nop = paths.OpMember, paths.OpNestMember
	case SExpr:
		op, nop = paths.OpMember, paths.OpNestMember
		if s.Brack {
			op, nop = paths.OpSelect, paths.OpNestSelect
		}
	case SFilter:
		op, nop = paths.OpFilter, paths.OpNestFilter
	case SElems:
		op, nop, n = paths.OpSelect, paths.OpNestSelect, len(s.L)
		if n > 1 {
			op, nop = paths.OpUnion, paths.OpNestUnion
		}
	}
	if s.Nest {
		op = nop
	}
	if x.Op != op || len(x.Args) != n {
		return fmt.Sprintf("step %#v with %d arguments instead of %#v with %d", x.Op, len(x.Args), op, n)
	}
	switch s.K {
	case SName:
		if x.Args[0] != paths.NameVal(s.S) {
			return fmt.Sprintf("name %#v instead of %q", x.Args[0], s.S)
		}
	case SInt:
		if x.Args[0] != paths.IntVal(s.I) {
			return fmt.Sprintf("integer %#v instead of %d", x.Args[0], s.I)
		}
	case SExpr, SFilter:
		e, ok := x.Args[0].(paths.Expr)
		if !ok {
			return fmt.Sprintf("argument %#v instead of an expression", x.Args[0])
		}
		return diffExpr(e, s.E)
	case SElems:
		for i := range s.L {
			if d := diffElem(x.Args[i], &s.L[i]); d != "" {
				return fmt.Sprintf("element %d: %s", i, d)
			}
		}
	}
	return ""
}

func diffPath(x paths.Path, p Path) string {
	if len(x) != len(p) {
		return fmt.Sprintf("%d steps instead of %d", len(x), len(p))
	}
	for i := range p {
		if d := diffStep(x[i], p[i]); d != "" {
			return fmt.Sprintf("step %d: %s", i, d)
		}
	}
	return ""
}

// rough splits a text into token-like pieces, for mutation.
func rough(s string) []string {
	var l []string
	for i := 0; i < len(s); {
		a := i
		c := s[i]
		switch {
		case c == '\'' || c == '"':
			i++
			for i < len(s) && s[i] != c {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			i++
			if i > len(s) {
				i = len(s)
			}
		case letter(c):
			for i < len(s) && (letter(s[i]) || dig(s[i])) {
				i++
			}
		case dig(c):
			for i < len(s) && dig(s[i]) {
				i++
			}
		default:
			i++
			if i < len(s) {
				switch s[a : i+1] {
				case "..", "?(", "==", "!=", "<=", ">=", "&&", "||", "=~":
					i++
				}
			}
		}
		l = append(l, s[a:i])
	}
	return l
}

var extraToks = []string{"$", "@", ".", "..", "*", "[", "]", "(", ")", "?(", "?", ",", ":", "-", "+", "!", "!=", "=", "==", "===", "=~", "~", "<", ">", "<=", ">=", "&", "&&", "|", "||", "/", "%", "in", "nin", "a", "b", "true", "null", "0", "1", "1.", "1.5", "1e5", ".5", "1.e", "'a'", "\"b\"", "'", "\"", "\\", "/a/", "/(/", "//", "[]", "()", "[*]", "[1]", "f()", "f(1)", "(f)", " ", "\t", "\v", "\u00a0", "\u3000", "\x00", "\x01", "\x7f", ";", "#", "{", "}", "^", "`", "9223372036854775807", "9223372036854775808", "-9223372036854775806", "99999999999999999999", "1.0e400", "1.0e308", "0x10", "1_0", "'\\x'", "'\\u12'", "\"\\'\"", "'\\\"'", "'\n'", "::", "1:2", ":1:", "(1):", "&", "|", "e", "E5", "...", "--", "- 1", "+1", "?(@)", "length", "@.a", ".a", "..a", "..[", "='"}

func (g *Gen) mutate(s string, other string) string {
	for k := 1 + g.n(2); k > 0; k-- {
		switch g.n(12) {
		case 0: // drop a byte
			if len(s) > 0 {
				i := g.n(len(s))
				s = s[:i] + s[i+1:]
			}
		case 1: // double a byte
			if len(s) > 0 {
				i := g.n(len(s))
				s = s[:i+1] + s[i:]
			}
		case 2: // change a byte
			if len(s) > 0 {
				i := g.n(len(s))
				c := byte(g.n(256))
				if g.p(0.7) {
					c = byte(0x20 + g.n(0x60))
				}
				s = s[:i] + string([]byte{c}) + s[i+1:]
			}
		case 3: // insert a token anywhere
			i := g.n(len(s) + 1)
			s = s[:i] + pick(g, extraToks) + s[i:]
		case 4, 5, 6, 7: // token-wise
			t := rough(s)
			if len(t) == 0 {
				break
			}
			i := g.n(len(t))
			switch g.n(5) {
			case 0:
				t[i] = ""
			case 1:
				t[i] += t[i]
			case 2:
				t[i] = pick(g, extraToks)
			case 3:
				j := g.n(len(t))
				t[i], t[j] = t[j], t[i]
			default:
				if i+1 < len(t) {
					t[i], t[i+1] = t[i+1], t[i]
				}
			}
			s = strings.Join(t, "")
		case 8: // cut short
			if len(s) > 0 {
				s = s[:g.n(len(s))]
			}
		case 9: // splice
			if len(s) > 0 && len(other) > 0 {
				s = s[:g.n(len(s))] + other[g.n(len(other)):]
			}
		case 10: // white space anywhere
			i := g.n(len(s) + 1)
			s = s[:i] + pick(g, wsRunes) + s[i:]
		default: // trailing
			s += pick(g, extraToks)
		}
		if len(s) > 4000 {
			s = s[:4000]
		}
	}
	return s
}

var _ = utf8.RuneLen
