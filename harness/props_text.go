package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"
)

// C02

// grammar compares Compile's and ParsePath's verdict on a text with the recogniser's.
func (c *Ctx) grammar(text string) verdict {
	v, why := recognisePath(text)
	if v == vUnspecified {
		c.Count("texts not settled: "+why, 1)
		return v
	}
	p, err := c.compile(text)
	if (err == nil) != (v == vAccept) {
		c.Violate("the grammar says %s, but Compile(%q) gave %s", v, cut(text, 3000), errText(err))
	}
	_, perr := paths.ParsePath(text)
	if (perr == nil) != (v == vAccept) {
		c.Violate("the grammar says %s, but ParsePath(%q) gave %s", v, cut(text, 3000), errText(perr))
	}
	if p != nil && p.String() != text {
		c.Violate("the path compiled from %q reports %q", cut(text, 1000), cut(p.String(), 1000))
	}
	c.Count("texts to "+v.String(), 1)
	c.Eval(hash64(text), true)
	return v
}

// C24

var causes = map[error]string{
	paths.ErrUnclosedString: "unclosed strings", paths.ErrBadEscape: "bad escapes", paths.ErrShortEscape: "short escapes",
	paths.ErrCtrlChar: "control characters", paths.ErrBadReal: "bad reals", paths.ErrUnclosedRE: "unclosed regular expressions", paths.ErrTooDeep: "too deep",
}

// identified judges the error given for a text that fails at a bad literal.
func (c *Ctx) identified(call, text string, err, cause error) {
	if err == nil {
		c.Violate("%s(%q) gave no error, but must report: %v", call, cut(text, 3000), cause)
	}
	if !errors.Is(err, cause) {
		c.Violate("%s(%q) gave the error %q, which is not the documented error for what is wrong there: %v", call, cut(text, 3000), err, cause)
	}
	for e := range causes {
		if e != cause && errors.Is(err, e) {
			c.Violate("%s(%q) gave the error %q, which is both %v and %v", call, cut(text, 3000), err, cause, e)
		}
	}
}

func (c *Ctx) cause(text string) {
	v, _, cause := recogniseCause(text, (*recogniser).path)
	if v != vReject || cause == nil {
		return
	}
	_, err := c.compile(text)
	c.identified("Compile", text, err, cause)
	_, err = paths.ParsePath(text)
	c.identified("ParsePath", text, err, cause)
	c.Count(causes[cause], 1)
	c.Eval(hash64(text), true)
}

func (c *Ctx) causeExpr(text string) {
	v, _, cause := recogniseCause(text, func(r *recogniser) { r.expr() })
	if v != vReject || cause == nil {
		return
	}
	_, err := paths.ParseScriptExpression(text)
	c.identified("ParseScriptExpression", text, err, cause)
	c.Count(causes[cause]+", in an expression", 1)
	c.Eval(hash64("e", text), true)
}

// spoil makes a literal of the text bad, or adds a bad one.
func (g *Gen) spoil(s string) string {
	ins := pick(g, []string{"\\q", "\\'", "\\\"", "\\u", "\\u1", "\\u12g4", "\\ud83d\\u", "\x01", "\n", "\x1f", "\x00", "'", "\"", "/", "\\", "1.e", "1.5e+", ".5e", "'a", "\"a\\", "'\\u00", "/a", "/a\\", "/a\\/", "'\x02'", "'\\x41'", "1.0e-"})
	if g.p(0.3) {
		// cut it off
		return s[:g.n(len(s)+1)]
	}
	// near a quote, slash or digit
	var at []int
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("'\"/0123456789(,[", s[i]) >= 0 {
			at = append(at, i)
		}
	}
	j := g.n(len(s) + 1)
	if len(at) > 0 && g.p(0.8) {
		j = min(len(s), pick(g, at)+g.n(3))
	}
	k := j
	if g.p(0.4) {
		k = min(len(s), j+1)
	}
	return s[:j] + ins + s[k:]
}

func runCauses(c *Ctx, i int) {
	g := newGen(c)
	text := g.synPath().Text(g.synLayout())
	etext := g.synExpr(1 + g.n(5)).Text(g.synLayout())
	if len(text) < 3000 {
		for k := 0; k < 12; k++ {
			c.cause(g.spoil(text))
		}
	}
	if len(etext) < 3000 {
		for k := 0; k < 12; k++ {
			m := g.spoil(etext)
			c.causeExpr(m)
			c.cause(pick(g, []string{"$[?(", "$.a[(", "$..[(1+", "$[0:(", "$.a.(", "$['x',("}) + m)
		}
	}
	c.Sample(cut(text, 200))
}

// runCausesAll: every bad literal in every kind of place, after prefixes of every kind.
func runCausesAll(c *Ctx, i int) {
	strs := []string{"'", "'a", "'a\\", "'\\u", "'\\u12", "'\\ud83d\\u", "'\\q'", "'\\\"'", "'a\\u12g'", "'\\u 123'", "'\x01'", "'a\n'", "'a\tb'", "'é\x1f'", "'\\n\x00'", "'\\ud83d\\q'", "'\\ud83d\\u12'", "'\\\\\\", "'\\x41'", "'\\U00000041'", "'\\0'", "'\\a'", "'\\\n'"}
	var others []string
	for _, s := range []string{"/", "/a", "/a\\", "/a\\/", "/[/]\\", "/(a|b)"} {
		others = append(others, s)
	}
	reals := []string{"1.e", "1.5e", "1.5e+", "1.0e-", "0.e+ 1", "123.456e x", "1.5ee", "1.e.5"}
	in := []string{"$[?(", "$[?(@.a==", "$[?(1 + ", "$[?((", "$[?(!", "$[?(- ", "$[?(@[", "$[?([1,", "$[?(f(", "$[?(f(1,", "$[?(@.a && ", "$[?(@.a in [", "$[?('x' ~ ", "$[(", "$.a.(", "$..[?(", "$..[(", "$[1,(", "$[(1):(", "$[:(", "$[::(", "$.a['b'][*][1:2][?(@)].c[?(", "$[?(@)][?(1 * (2 + ", "$[?(\n\n"}
	for _, dq := range []bool{false, true} {
		for _, s := range strs {
			if dq {
				s = strings.NewReplacer("'", "\"", "\"", "'").Replace(s)
			}
			for _, p := range []string{"$[", "$[ ", "$['a',", "$[1:2,", "$..[", "$.a[*][", "$[(1),", "$[*]['x'][1]["} {
				c.cause(p + s)
				c.cause(p + s + "]")
			}
			for _, p := range in {
				c.cause(p + s)
				c.cause(p + s + ")]")
				c.causeExpr(strings.TrimPrefix(p, "$[?(") + s)
			}
		}
	}
	for _, s := range append(others, reals...) {
		for _, p := range in {
			c.cause(p + s)
			c.cause(p + s + ")]")
			c.causeExpr(strings.TrimPrefix(p, "$[?(") + s)
		}
	}
	// nesting
	for _, n := range []int{9990, 10000, 10001, 10010, 11000, 20001, 100000} {
		for _, t := range [][3]string{{"(", "1", ")"}, {"[", "1", "]"}, {"-", "1", ""}, {"!", "1", ""}, {"f(", "1", ")"}, {"@[", "1", "]"}, {"1+(", "1", ")"}, {"!-(", "1", ")"}} {
			e := strings.Repeat(t[0], n) + t[1] + strings.Repeat(t[2], n)
			for _, p := range []string{"$[?(", "$.a[("} {
				text := p + e + ")]"
				if _, err := c.compile(text); err != nil {
					c.identified("Compile", text, err, paths.ErrTooDeep)
					c.Count("too deep", 1)
					c.Eval(hash64(text), true)
				}
			}
			if _, err := paths.ParseScriptExpression(e); err != nil {
				c.identified("ParseScriptExpression", e, err, paths.ErrTooDeep)
			}
		}
	}
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return fmt.Sprintf("the error %q", err)
}

// grammarExpr does the same for a script expression on its own.
func (c *Ctx) grammarExpr(text string) verdict {
	v, why := recogniseExpr(text)
	if v == vUnspecified {
		c.Count("texts not settled: "+why, 1)
		return v
	}
	_, err := paths.ParseScriptExpression(text)
	if (err == nil) != (v == vAccept) {
		c.Violate("the grammar says %s, but ParseScriptExpression(%q) gave %s", v, cut(text, 3000), errText(err))
	}
	c.Count("expressions to "+v.String(), 1)
	c.Eval(hash64("e", text), true)
	return v
}

func runDerived(c *Ctx, i int) {
	g := newGen(c)
	p := g.synPath()
	text := p.Text(g.synLayout())
	if v := c.grammar(text); v == vReject {
		bug("recogniser rejects derived text %q", text)
	}
	c.Sample(text)
	e := g.synExpr(1 + g.n(5))
	etext := e.Text(g.synLayout())
	if v := c.grammarExpr(etext); v == vReject {
		bug("recogniser rejects derived expression %q", etext)
	}
	if len(text) < 2000 {
		for k := 0; k < 14; k++ {
			c.grammar(g.mutate(text, etext))
		}
	}
	if len(etext) < 2000 {
		for k := 0; k < 7; k++ {
			m := g.mutate(etext, text)
			c.grammarExpr(m)
			c.grammar("$[?(" + m + ")]")
		}
	}
	if i%20 == 0 {
		for k := 0; k <= len(text) && k < 600; k++ {
			c.grammar(text[:k])
		}
		for k := 0; k <= len(etext) && k < 300; k++ {
			c.grammarExpr(etext[:k])
			c.grammar("$.a[(" + etext[:k] + ")]")
		}
	}
}

var pathAlpha = []string{".", "*", "[", "]", "a", "1", "-", ":", ",", "'", "(", ")", "?", "@", " ", "$"}
var exprAlpha = []string{"1", ".", "e", "f", "(", ")", "[", "]", ",", "+", "-", "!", "=", "<", "~", "/", "'", "\\", "@", " in ", "&", "|", "$"}

// runSmallTexts: every text of up to n symbols over a small alphabet, split by its first two symbols.
func runSmallTexts(alpha []string, quick, thorough int, wrap func(c *Ctx, s string)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		n := quick
		if c.Tier == "thorough" {
			n = thorough
		}
		a, b := i/len(alpha), i%len(alpha)
		if b == 0 {
			wrap(c, alpha[a])
		}
		var rec func(s string, left int)
		rec = func(s string, left int) {
			wrap(c, s)
			if left == 0 {
				return
			}
			for _, x := range alpha {
				rec(s+x, left-1)
			}
		}
		rec(alpha[a]+alpha[b], n-2)
	}
}

// runLiterals: every byte after a backslash and inside strings; numbers round their limits; regular expressions.
func runLiterals(c *Ctx, i int) {
	g := newGen(c)
	both := func(lit string) {
		c.grammar("$[" + lit + "]")
		c.grammar("$[?(" + lit + ")]")
		c.grammar("$[?(@.a==" + lit + ")]")
		c.grammarExpr(lit)
	}
	if i < 256 {
		b := string([]byte{byte(i)})
		for _, q := range []string{"'", "\""} {
			both(q + b + q)
			both(q + "\\" + b + q)
			both(q + "x\\" + b + "y" + q)
			both(q + "\\\\" + b + q)
			both(q + "\\u" + b + "123" + q)
			both(q + "\\u123" + b + q)
			both(q + "\\u12" + b + "4'" + q)
			both(q + "\\ud83d\\u" + b + "e00" + q)
			both(q + "\\" + b)
			both(q + "é" + b + q)
		}
		both(b)
		both("a" + b)
		both("a" + b + "b")
		both("1" + b)
		both("1" + b + "2")
		both("1.5" + b)
		both("1.5e" + b)
		both("1.5e" + b + "1")
		both("@.a" + b)
		both("/a" + b + "b/")
		both("/a\\" + b + "b/")
		both("/" + b + "/")
		both("/\\" + b + "/")
		both("/a/" + b)
		both("/[" + b + "]/")
		c.grammar("$" + b)
		c.grammar("$" + b + "a")
		c.grammar("$." + b)
		c.grammar("$." + b + "a")
		c.grammar("$.a" + b)
		c.grammar("$.a" + b + "b")
		c.grammar("$.." + b + "[1]")
		c.grammar("$." + b + ".a")
		c.grammar(b + "$.a")
		c.grammar("$[1" + b + "2]")
		c.grammar("$[1" + b + "]")
		c.grammar("$[" + b + "1]")
		c.grammar("$[1:" + b + "2]")
		c.grammar("$[1" + b + ":2]")
		c.grammar("$[1:2" + b + ":3]")
		c.grammar("$[?" + b + "(1)]")
		c.grammar("$[?(1)" + b + "]")
		c.grammar("$[(1)" + b + "]")
		c.grammar("$[*" + b + "]")
		c.grammar("$[?(@.a" + b + "1)]")
		c.grammar("$[?(@.a" + b + b + "1)]")
		c.grammar("$[?(@.a=" + b + "1)]")
		c.grammar("$[?(@.a " + b + "= 1)]")
		return
	}
	// numbers
	d := pick(g, []string{"9223372036854775807", "9223372036854775806", "9223372036854775808", "9223372036854775809", "9223372036854775799", "18446744073709551615", "18446744073709551616", "10000000000000000000", "1000000000000000000", "4194303", "4194304", "0", "00", "000000000000000000000000001", "9999999999999999999", "99999999999999999999999999"})
	if g.p(0.3) {
		d = strconv.FormatUint(g.R.Uint64(), 10)
	}
	if g.p(0.1) {
		d += strconv.Itoa(g.n(10))
	}
	if g.p(0.1) {
		d = "0" + d
	}
	for _, t := range []string{"$[%s]", "$[-%s]", "$[- %s]", "$.%s", "$.-%s", "$..%s", "$[%s:]", "$[:%s]", "$[::%s]", "$[::-%s]", "$[-%s:-%s]", "$[1,%s]", "$[--%s]", "$[+%s]", "$[%s.]", "$[%s.0]", "$[?(%s)]", "$[?(-%s)]", "$[?(--%s)]", "$[?(+%s)]", "$[?(%s.0)]", "$[?(%s.)]", "$[?(%s.5e1)]", "$[(%s)]", "$[(%s)+1]", "$[?(@.a == %s)]", "$[?(.%s)]", "$[?(%se1)]"} {
		c.grammar(strings.ReplaceAll(t, "%s", d))
	}
	// reals
	e := strconv.Itoa(g.n(400))
	for _, t := range []string{"1.%s", "1.e%s", "1.e-%s", "1.e+%s", "1.0e%s", "9.99e%s", "0.0e%s", "1.e%s%s", "1.e", "1.e+", "1.5e", "1.5e-", "1e%s", ".5e%s", "1.5.%s", "1..%s", "1.5e1.%s", "1.5e%s5", "%s.%s.a", "%s.5.a", "0.0000000e+%s", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "1.0e-400"} {
		x := strings.ReplaceAll(t, "%s", e)
		c.grammarExpr(x)
		c.grammarExpr(x + "+1")
		c.grammar("$[?(@.a < " + x + ")]")
	}
	// regular expressions, possibly broken
	s, _ := g.reSpell()
	for k := 0; k < 6; k++ {
		x := s
		if g.p(0.7) {
			j := g.n(len(s) + 1)
			x = s[:j] + pick(g, []string{"/", "\\", "(", ")", "[", "]", "*", "+", "?", "{", "}", "|", "\\/", "\\\\", "\\\\\\/", "(?", "(?P<n>", "\\C", "\\8", "\\pX", "**", "a{1001}", "[b-a]", "[[:alpha:]]", "\n"}) + s[j:]
		}
		c.grammarExpr("/" + x + "/")
		c.grammarExpr("@.a ~ /" + x + "/ && @.b")
		c.grammar("$[?(@=~/" + x + "/)]")
		c.grammar("$[?(@=~/" + x + "/)]..b['/']")
	}
}

// runLongTexts: large and deep but valid texts, and the same spoiled near the end.
func runLongTexts(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{100, 500, 1000, 3000, 9000})
	var text string
	switch i % 10 {
	case 0:
		text = "$[?(" + strings.Repeat("(", n) + "@" + strings.Repeat(")", n) + ")]"
	case 1:
		text = "$[(" + strings.Repeat("[", n) + "1" + strings.Repeat("]", n) + ")]"
	case 2:
		text = "$[?(" + strings.Repeat(pick(g, []string{"-", "!", "- !", "!-"}), n/2) + "@)]"
	case 3:
		text = "$[?(" + strings.Repeat("f(", n) + "1" + strings.Repeat(")", n) + ")]"
	case 4:
		text = "$[?(" + strings.Repeat("@[", n) + "1" + strings.Repeat("]", n) + ")]"
	case 5:
		text = "$" + strings.Repeat(pick(g, []string{".a", "..a", "[1]", "['a']", "[1:2]", "[?(@.a)]", "[*]", "..[1,2]", ".*", "[(1)]"}), n)
	case 6:
		text = "$[" + strings.Repeat(pick(g, []string{"1,", "'a',", "a,", ":,", "1:2:3,", "(1):,"}), n) + "0]"
	case 7:
		text = "$[?(@" + strings.Repeat(pick(g, []string{".a", "[1]", "['x']"}), n) + ")]"
	case 8:
		text = "$[?(@" + strings.Repeat(pick(g, []string{"+1", "&&2", " in @", "/3", "<4", "||f(1)", "==''", "~/a/"}), n) + ")]"
	default:
		text = "$[?([" + strings.Repeat("1,", n) + "2])]"
		if g.p(0.5) {
			text = "$[?(f(" + strings.Repeat("'a',", n) + "2))]"
		}
	}
	if v := c.grammar(text); v == vReject {
		bug("recogniser rejects %q", cut(text, 300))
	}
	c.Max("longest text", len(text))
	for k := 0; k < 4; k++ {
		j := g.n(len(text))
		if g.p(0.5) {
			j = len(text) - 1 - g.n(6)
		}
		switch g.n(3) {
		case 0:
			c.grammar(text[:j] + text[j+1:])
		case 1:
			c.grammar(text[:j] + pick(g, extraToks) + text[j:])
		default:
			c.grammar(text[:j])
		}
	}
}

// C22

func (c *Ctx) parsesTo(text string, p Path) {
	c.Now("ParsePath " + cut(text, 2000))
	x, err := paths.ParsePath(text)
	if err != nil {
		c.Violate("ParsePath(%q) failed: %v", cut(text, 3000), err)
	}
	if d := diffPath(x, p); d != "" {
		c.Violate("ParsePath(%q): %s", cut(text, 3000), d)
	}
}

func (c *Ctx) exprParsesTo(text string, e *Expr) {
	c.Now("ParseScriptExpression " + cut(text, 2000))
	x, err := paths.ParseScriptExpression(text)
	if err != nil {
		c.Violate("ParseScriptExpression(%q) failed: %v", cut(text, 3000), err)
	}
	if d := diffExpr(x, e); d != "" {
		c.Violate("ParseScriptExpression(%q): %s", cut(text, 3000), d)
	}
}

func runTrees(c *Ctx, i int) {
	g := newGen(c)
	p := g.synPath()
	size := 0
	for k := 0; k < 4; k++ {
		lay := g.synLayout()
		if k == 0 {
			lay = &Layout{}
		}
		text := p.Text(lay)
		c.parsesTo(text, p)
		if k == 1 {
			c.parsesTo(text, p) // again
		}
		c.Eval(hash64(text), len(p) > 0)
		c.Sample(text)
		size += len(p)
	}
	c.Count("steps compared", size)
	e := g.synExpr(2 + g.n(5))
	for k := 0; k < 4; k++ {
		lay := g.synLayout()
		if k == 0 {
			lay = &Layout{}
		}
		text := e.Text(lay)
		c.exprParsesTo(text, e)
		c.Eval(hash64("e", text), true)
	}
	c.Count("expression nodes compared", 4*e.size())
}

// runOpTrees: every sequence of operators with every unary and suffix, in flat form.
func runOpTrees(c *Ctx, i int) {
	g := newGen(c)
	ops := []string{allBinOps[i%15], allBinOps[i/15%15], allBinOps[i/225%15]}
	for k := 0; k < 3; k++ {
		s := opSeq{ops: ops}
		for j := 0; j < 4; j++ {
			s.operands = append(s.operands, g.synExpr(pick(g, []int{0, 0, 0, 1, 1, 2})))
			if o := s.operands[j]; o.K == EBin {
				o.Parens++
			}
		}
		e := s.build()
		for _, lay := range []*Layout{{}, {Full: true}, {R: c.R, WS: 0.3}} {
			text := e.Text(lay)
			c.exprParsesTo(text, e)
			p := Path{sFilter(e)}
			if k == 1 {
				p = Path{{K: SExpr, E: e}}
			} else if k == 2 {
				p = Path{{K: SElems, L: []Elem{lInt(1), {K: LSlice, B: [3]Bound{{Set: true, E: e}, {}, {Set: true, E: e}}}}}}
			}
			c.parsesTo(p.Text(lay), p)
			c.Eval(hash64("o", text), true)
		}
	}
}

// runSameTrees: chains of one operator, of every length.
func runSameTrees(c *Ctx, i int) {
	g := newGen(c)
	op := allBinOps[i%15]
	n := 2 + i/15%300
	var l []*Expr
	for k := 0; k <= n; k++ {
		o := g.synExpr(pick(g, []int{0, 0, 0, 0, 1}))
		if o.K == EBin {
			o.Parens++
		}
		l = append(l, o)
	}
	left, right := l[0], l[n]
	for k := 1; k <= n; k++ {
		left = xBin(op, left, l[k])
		right = xBin(op, l[n-k], right)
	}
	for k, e := range []*Expr{left, right, xNot(left), xBin(pick(g, allBinOps), left, right)} {
		text := e.Text(&Layout{})
		c.exprParsesTo(text, e)
		c.Eval(hash64("m", text), true)
		if k < 2 {
			p := Path{sFilter(e)}
			c.parsesTo(p.Text(&Layout{R: c.R, WS: 0.05}), p)
		}
	}
	c.Max("longest chain of one operator", n)
}

func runLongTrees(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{100, 600, 2000, 5000})
	var p Path
	switch i % 5 {
	case 0:
		for k := 0; k < n; k++ {
			p = append(p, g.synStep(1))
		}
	case 1:
		s := &Step{K: SElems, Nest: g.p(0.5)}
		for k := 0; k < n; k++ {
			s.L = append(s.L, g.synElem(1))
		}
		p = Path{s}
	case 2:
		// chains of all operators, of one, and of one from the right
		e := g.synExpr(1)
		op := pick(g, allBinOps)
		how := g.n(3)
		if how == 2 {
			n = min(n, 600)
		}
		for k := 0; k < n; k++ {
			if how == 0 {
				op = pick(g, allBinOps)
			}
			if how == 2 {
				e = xBin(op, g.synExpr(0), e)
			} else {
				e = xBin(op, e, g.synExpr(0))
			}
		}
		p = Path{sFilter(e)}
	case 3:
		e := g.synExpr(1)
		for k := 0; k < n; k++ {
			switch g.n(6) {
			case 0:
				e = xNeg(e)
			case 1:
				e = xNot(e)
			case 2:
				e = xDot(e, g.ident(false))
			case 3:
				e = xIdx(e, g.synExpr(0))
			case 4:
				e = xArr(g.synExpr(0), e)
			default:
				e = xCall("f", e)
			}
		}
		p = Path{sExpr(e)}
	default:
		var l []*Expr
		for k := 0; k < n; k++ {
			l = append(l, g.synExpr(1))
		}
		p = Path{sFilter(xCall("f", l...)), sExpr(xArr(l...))}
	}
	text := p.Text(&Layout{R: c.R, WS: 0.05})
	if v, _ := recognisePath(text); v != vAccept {
		c.Count("unspecified or too large, dropped", 1)
		return
	}
	c.parsesTo(text, p)
	c.Eval(hash64(text), true)
	c.Max("longest text", len(text))
}

// C13

// jsonString decodes the body of a string literal as JSON would.
func jsonString(body string, q byte) (string, bool) {
	if q == '\'' {
		// make it a double-quoted string
		var sb strings.Builder
		for i := 0; i < len(body); i++ {
			switch {
			case body[i] == '\\' && i+1 < len(body) && body[i+1] == '\'':
				sb.WriteByte('\'')
				i++
			case body[i] == '\\' && i+1 < len(body):
				sb.WriteString(body[i : i+2])
				i++
			case body[i] == '"':
				sb.WriteString(`\"`)
			default:
				sb.WriteByte(body[i])
			}
		}
		body = sb.String()
	}
	var s string
	err := json.Unmarshal([]byte(`"`+body+`"`), &s)
	return s, err == nil
}

var escBits = []string{`\n`, `\t`, `\r`, `\b`, `\f`, `\/`, `\\`, `\u0041`, `\u00e9`, `\u65e5`, `\ud83d\ude00`, `\uD83D\uDE00`, `\ud83d`, `\ude00`, `\udbff\udfff`, `\ud800\udc00`, `\ud800`, `\udfff`, `\uffff`, `\u0000`, `\u001f`, `\ufeff`, `\uFFFD`, `\u2028`, `\ud83d\n`, `\ud83dx`, `\ud83d\u0041`, "a", "b", "é", "日本", "😀", "n", "u0041", " ", "/", "\u007f", "\ufffd", "x"}

// pickName observes which member or members a selector picks out of a document with decoys.
func (c *Ctx) denotes(sel string, want string, decoys []string) {
	doc := map[string]V{}
	for _, d := range decoys {
		doc[d] = "decoy " + d
	}
	doc[want] = "target"
	c.expect("$"+sel, doc, "target")
}

// expect evaluates text on doc and wants exactly the given values in order.
func (c *Ctx) expect(text string, doc V, want ...V) {
	p := c.mustCompile(text)
	got, err := c.eval(p, text, doc)
	if err != nil {
		c.Violate("path %s\non %s\nfailed: %v", cut(text, 2000), show(doc), err)
	}
	in := newInterner()
	if a, b := in.ids(got), in.ids(want); !sameSeq(a, b) {
		c.Violate("path %s\non %s\ngave (%d) %s\nbut must give (%d) %s", cut(text, 2000), show(doc), len(got), show(got), len(want), show(want))
	}
	c.note(text, doc, true)
}

func sameSeq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runStringLits(c *Ctx, i int) {
	g := newGen(c)
	for k := 0; k < 8; k++ {
		q := pick(g, []byte{'\'', '"'})
		body := ""
		for j := g.n(6); j >= 0; j-- {
			switch g.n(12) {
			case 0:
				body += `\` + string(q)
			case 1:
				if q == '\'' {
					body += `"`
				} else {
					body += `'`
				}
			case 2:
				body += fmt.Sprintf(`\u%04x`, g.n(0x10000))
			case 3:
				body += fmt.Sprintf(`\u%04X`, 0xd800+g.n(0x800))
			default:
				body += pick(g, escBits)
			}
		}
		if g.p(0.01) {
			body += strings.Repeat(pick(g, escBits), 2000)
		}
		want, ok := jsonString(body, q)
		if !ok {
			bug("literal %q is not JSON", body)
		}
		lit := string(q) + body + string(q)
		decoys := []string{body, want + "\ufffd", want + "x", strings.ToUpper(want), "", strings.ReplaceAll(want, "\ufffd", "")}
		var ds []string
		for _, d := range decoys {
			if d != want {
				ds = append(ds, d)
			}
		}
		c.denotes("["+lit+"]", want, ds)
		c.denotes("["+lit+",'nosuch']", want, ds)
		c.denotes("[("+lit+")]", want, ds)
		c.expect("$[?(@.v=="+lit+")].i", []V{map[string]V{"v": want + "y", "i": 0.0}, map[string]V{"v": want, "i": 1.0}, map[string]V{"v": "y" + want, "i": 2.0}}, 1.0)
		c.expect("$[?(["+lit+"].length==1 && "+lit+".length=="+strconv.Itoa(len([]rune(want)))+")]", []V{1.0}, 1.0)
	}
}

func runNames(c *Ctx, i int) {
	g := newGen(c)
	n := g.ident(true)
	ds := []string{}
	for _, d := range []string{n + "-", "-" + n, strings.ToUpper(n), strings.ToLower(n), n + "a", strings.TrimRight(n, "-"), strings.ToValidUTF8(n, "\ufffd"), strings.ToValidUTF8(n, "")} {
		if d != n {
			ds = append(ds, d)
		}
	}
	c.denotes("."+n, n, ds)
	c.denotes("["+n+"]", n, ds)
	c.denotes("[ "+n+" ,'no such name']", n, ds)
	c.denotes("\n.\t"+n+" ", n, ds)
	o := map[string]V{n: "target"}
	for _, d := range ds {
		o[d] = "decoy"
	}
	c.expect("$.x.."+n, map[string]V{"x": o}, "target")
	c.expect("$.x..["+n+"]", map[string]V{"x": o}, "target")
	if !strings.Contains(n, "-") && n != "length" {
		c.expect("$[?(@."+n+"=='target')]['"+ds[0]+"']", []V{o, map[string]V{n: "other"}}, "decoy")
		c.expect("$[(@."+n+" || $."+n+")]", map[string]V{n: "target", "target": 7.0}, 7.0)
	}
}

func runIntLits(c *Ctx, i int) {
	g := newGen(c)
	for k := 0; k < 8; k++ {
		var n int64
		switch g.n(5) {
		case 0:
			n = g.edgeAbs()
		case 1:
			n = int64(1)<<g.n(63) + int64(g.n(5)-2)
		case 2:
			n = int64(g.R.Uint64() >> 1 >> g.n(63))
		case 3:
			n = pick(g, []int64{1 << 22, 1 << 23, 1 << 24, 1 << 21}) + int64(g.n(7)-3)
		default:
			n = int64(g.n(2000))
		}
		if n < 0 {
			n = 0
		}
		if n > math.MaxInt64-3 {
			n = math.MaxInt64 - 3
		}
		neg := g.p(0.4)
		m := n
		if neg {
			m = -n
		}
		want := strconv.FormatInt(m, 10)
		sp := strconv.FormatInt(n, 10)
		if g.p(0.1) {
			sp = strings.Repeat("0", 1+g.n(4)) + sp
		}
		ps := sp
		if neg {
			ps = pick(g, []string{"-", "- ", "-\t"}) + sp
		}
		doc := map[string]V{}
		for _, d := range []int64{m + 1, m - 1, -m, m ^ 1<<22, m ^ 1<<23, m ^ 1<<31, m ^ 1<<32, int64(int32(m)), m & (1<<23 - 1), m<<9>>9 + 0} {
			if d != m {
				doc[strconv.FormatInt(d, 10)] = "decoy"
			}
		}
		doc[want] = "target"
		c.expect("$["+ps+"]", doc, "target")
		c.expect("$."+ps, doc, "target")
		c.expect("$[ 'a', "+ps+" ]", doc, "target")
		if !strings.HasPrefix(ps, "-") || g.p(0.5) {
			c.expect("$[("+ps+")]", doc, "target")
			c.expect("$.("+ps+")", doc, "target")
		}
		// arithmetic is exact in 64 bits
		c.expect("$[?("+ps+" - "+strconv.FormatInt(n/2, 10)+" == ["+strconv.FormatInt(m-n/2, 10)+"])]", []V{}, []V{}...)
		a := int64(g.R.Uint64()>>2) >> g.n(60)
		if !neg && n > a || neg && -n < a && a-m > 0 {
			d := m - a
			if d > 0 {
				c.expect("$[?("+ps+" - "+strconv.FormatInt(a, 10)+" == "+strconv.FormatInt(d, 10)+")]", []V{3.0}, 3.0)
				c.expect("$[?("+ps+" - "+strconv.FormatInt(a, 10)+" == "+strconv.FormatInt(d-1, 10)+")]", []V{3.0})
			}
		}
		c.expect("$[?("+ps+" in ['x',"+strconv.FormatInt(n+1, 10)+"])]", []V{3.0})
		c.expect("$[?("+ps+" in ['x',("+ps+")])]", []V{3.0}, 3.0)
		c.expect("$[?("+ps+" < "+strconv.FormatInt(n+1, 10)+")]", []V{3.0}, 3.0)
	}
}

func runRealLits(c *Ctx, i int) {
	g := newGen(c)
	for k := 0; k < 8; k++ {
		var e *Expr
		if g.p(0.4) {
			e = g.realSp()
		} else {
			f := math.Abs(math.Float64frombits(g.R.Uint64()))
			if g.p(0.7) {
				f = g.R.Float64() * math.Pow(10, float64(g.n(30)-10))
			}
			if math.IsInf(f, 0) || math.IsNaN(f) {
				continue
			}
			e = &Expr{K: EReal, F: f}
			if g.p(0.3) {
				// a long spelling near the middle of two doubles
				s := strconv.FormatFloat(f, 'f', 60, 64)
				if len(s) < 200 {
					e.Spell = s
					e.F, _ = strconv.ParseFloat(s, 64)
				}
			}
		}
		f := e.F
		var cands, want []V
		for j, x := range []float64{f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), f * 10, -f, f + 1} {
			if math.IsInf(x, 0) {
				continue
			}
			o := map[string]V{"v": x, "i": float64(j)}
			cands = append(cands, o)
			if x == f {
				want = append(want, float64(j))
			}
		}
		lit := e.Text(nil)
		c.expect("$[?(@.v=="+lit+")].i", cands, want...)
		c.expect("$[?("+lit+" in [@.v])].i", cands, want...)
		var less []V
		for _, o := range cands {
			if o.(map[string]V)["v"].(float64) > f {
				less = append(less, o.(map[string]V)["i"])
			}
		}
		c.expect("$[?(@.v>"+lit+")].i", cands, less...)
	}
}

// runNear: several constants in one path that are nearly the same.
func runNear(c *Ctx, i int) {
	g := newGen(c)
	n := 2 + g.n(6)
	var vals []V
	var lits []string
	add := func(v V, lit string) {
		vals = append(vals, v)
		lits = append(lits, lit)
	}
	switch g.n(3) {
	case 0:
		// reals a few places apart
		f := (1 + g.R.Float64()) * math.Pow(10, float64(g.n(30)-12))
		if g.p(0.3) {
			f = float64(g.n(1000))
		}
		step := pick(g, []float64{1e-16, 1e-15, 1e-13, 1e-11, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 0.01, 0.5})
		for k := 0; k < n; k++ {
			x := f * (1 + float64(g.n(2*n))*step)
			s := (&Expr{K: EReal, F: x}).Text(nil)
			add(x, s)
		}
	case 1:
		// integers sharing their low or high bits
		b := int64(g.R.Uint64() >> (1 + g.n(60)))
		for k := 0; k < n; k++ {
			x := b
			switch g.n(4) {
			case 0:
				x ^= 1 << g.n(53)
			case 1:
				x += int64(g.n(5) - 2)
			case 2:
				x ^= pick(g, []int64{1 << 22, 1 << 23, 1 << 31, 1 << 32, 1 << 8, 1 << 16, 1 << 52})
			}
			x &= 1<<53 - 1 // as the document's numbers can hold
			add(float64(x), strconv.FormatInt(x, 10))
		}
	default:
		// strings differing in case, length, one byte, an escape
		s := g.strv()
		for k := 0; k < n; k++ {
			x := g.kinString(s)
			if !utf8.ValidString(x) {
				x = s
			}
			add(x, quoteStr(x, pick(g, []byte{'\'', '"'}), g.layout(), false))
		}
	}
	all := make([]V, len(vals))
	for k, v := range vals {
		all[k] = map[string]V{"v": v, "i": float64(k)}
	}
	in := newInterner()
	sel := func(want func(j int) bool) (w []V) {
		for j := range vals {
			if want(j) {
				w = append(w, float64(j))
			}
		}
		return
	}
	arr := "[" + strings.Join(lits, ",") + "]"
	for k := range vals {
		is := strconv.Itoa(k)
		c.expect("$[?("+arr+"["+is+"]==@.v)].i", all, sel(func(j int) bool { return in.id(vals[j]) == in.id(vals[k]) })...)
	}
	c.expect("$[?(@.v in "+arr+")].i", all, sel(func(j int) bool { return true })...)
	ors, ands := "", ""
	skip := g.n(n)
	for k := range vals {
		if k == skip {
			continue
		}
		if ors != "" {
			ors += " || "
			ands += " && "
		}
		ors += "@.v == " + lits[k]
		ands += "@.v != " + lits[k]
	}
	one := func(j int) bool {
		for k := range vals {
			if k != skip && in.id(vals[j]) == in.id(vals[k]) {
				return true
			}
		}
		return false
	}
	c.expect("$[?("+ors+")].i", all, sel(one)...)
	c.expect("$[?("+ands+")].i", all, sel(func(j int) bool { return !one(j) })...)
}

// runMillion: as many constants as the tables take, of which the first, the last and some between are asked for.
func runMillion(c *Ctx, i int) {
	n := []int{1<<20 + 1000, 1<<21 + 1000, 1 << 21, 1<<22 - 1000, 3 << 20, 1<<16 + 3}[i]
	var sb strings.Builder
	sb.WriteString("$[")
	for k := 0; k < n; k++ {
		if k > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString("'k")
		sb.WriteString(strconv.Itoa(k))
		sb.WriteByte('\'')
	}
	sb.WriteByte(']')
	text := sb.String()
	g := newGen(c)
	c.Now(fmt.Sprintf("a union of %d different strings", n))
	prog, err := jsonpath.Compile(text)
	if err != nil {
		c.Count("long paths refused", 1)
		c.Eval(hash64("million", strconv.Itoa(n)), true)
		return
	}
	for r := 0; r < 6; r++ {
		doc := map[string]V{}
		marks := []int{0, 1, n - 1, n - 2}
		for j := 0; j < 6; j++ {
			marks = append(marks, g.n(n))
		}
		for b := 8; b < 23; b++ {
			for d := -1; d <= 1; d++ {
				if k := 1<<b + d; k < n && g.p(0.3) {
					marks = append(marks, k)
				}
			}
		}
		sort.Ints(marks)
		var want []V
		for j, k := range marks {
			if j == 0 || k != marks[j-1] {
				doc["k"+strconv.Itoa(k)] = float64(k)
				want = append(want, float64(k))
			}
		}
		got, err := prog.Eval(doc)
		if err != nil || canon(V(got)) != canon(V(want)) {
			c.Violate("a union of the strings 'k0' to 'k%d' on an object with some of those members selects %s (%v), not %s", n-1, show(V(got)), err, show(V(want)))
		}
		c.Eval(hash64("million", strconv.Itoa(n), strconv.Itoa(r)), true)
		c.Count("largest constants read back", len(want))
	}
	c.Max("most constants in a path", n)
}

// runManyConsts: paths with many constants, every one of which shows in the result.
func runManyConsts(c *Ctx, i int) {
	g := newGen(c)
	sizes := []int{3, 10, 50, 127, 128, 129, 255, 256, 257, 400, 1000, 3000}
	if i%8 == 0 {
		sizes = []int{10000, 32768, 33000, 65535, 65536, 66000, 70000}
		if c.Tier == "thorough" {
			sizes = append(sizes, 150000, 300000)
		}
	}
	n := pick(g, sizes)
	switch g.n(5) {
	case 4:
		// a union of names, strings and integers that could be mistaken for each other
		s := &Step{K: SElems}
		doc := map[string]V{}
		var want []V
		for k := 0; k < n; k++ {
			v := g.n(n)
			var name string
			switch g.n(5) {
			case 0:
				s.L = append(s.L, lInt(int64(v)))
				name = strconv.Itoa(v)
			case 1:
				s.L = append(s.L, lStr(strconv.Itoa(v)))
				name = strconv.Itoa(v)
			case 2:
				name = "n" + strconv.Itoa(v)
				s.L = append(s.L, Elem{K: LName, S: name})
			case 3:
				name = "n" + strconv.Itoa(v)
				s.L = append(s.L, lStr(name))
			default:
				x := int64(v) + 4194300
				if g.p(0.3) {
					x = -x
				}
				s.L = append(s.L, lInt(x))
				name = strconv.FormatInt(x, 10)
			}
			doc[name] = "value of " + name
			want = append(want, doc[name])
		}
		c.expect(Path{s}.Text(&Layout{R: g.R}), doc, want...)
	case 0:
		// steps: a long chain of names down a document; each level has decoys
		if n > 5000 {
			n = 5000
		}
		var p Path
		var names []string
		for k := 0; k < n; k++ {
			name := "n" + strconv.Itoa(g.n(n))
			names = append(names, name)
			if g.p(0.5) {
				p = append(p, sName(name))
			} else {
				p = append(p, sElems(lStr(name)))
			}
		}
		var doc V = "bottom"
		for k := n - 1; k >= 0; k-- {
			doc = map[string]V{names[k]: doc, "n" + strconv.Itoa(n): "decoy", names[g.n(n)] + "x": "decoy"}
		}
		c.expect(p.Text(&Layout{R: g.R}), doc, "bottom")
	default:
		// an array of constants, each compared in kind and value with the document's
		var lits []*Expr
		var pats []*Expr
		var cands []V
		for k := 0; k < n; k++ {
			var e *Expr
			var v V
			x := g.n(n)
			if g.p(0.5) {
				x = k
			}
			switch g.n(6) {
			case 0:
				e, v = xInt(int64(x)), float64(x)
			case 1:
				e, v = &Expr{K: EReal, F: float64(x), Spell: strconv.Itoa(x) + ".0"}, float64(x)
			case 2:
				e, v = xStr(strconv.Itoa(x)), strconv.Itoa(x)
			case 3:
				e, v = xInt(int64(x)+4194300), float64(x)+4194300
			case 4:
				e, v = xStr("s"+strconv.Itoa(x)), "s"+strconv.Itoa(x)
			default:
				e, v = &Expr{K: EReal, F: float64(x) + 0.5, Spell: strconv.Itoa(x) + ".5"}, float64(x)+0.5
			}
			lits = append(lits, e)
			kind := "num"
			if _, ok := v.(string); ok {
				kind = "str"
			}
			isInt := 0.0
			if e.K == EInt {
				isInt = 1
			}
			cands = append(cands, map[string]V{"i": float64(k), "v": v, "k": kind, "int": isInt})
			if len(pats) < 300 && g.p(0.3) {
				pats = append(pats, xRe("^p"+strconv.Itoa(x)+"$"))
			}
		}
		// sample candidates when there are many
		pickd := cands
		if n > 300 {
			pickd = nil
			for k := 0; k < 120; k++ {
				pickd = append(pickd, cands[g.n(n)])
			}
			pickd = append(pickd, cands[0], cands[n-1])
		}
		arr := xArr(lits...)
		el := xIdx(arr, xDot(xAt(), "i"))
		var e *Expr
		want := pickd
		switch g.n(4) {
		case 0:
			e = xBin("==", el, atV)
		case 1:
			// integers divide as integers
			want = nil
			for _, cd := range pickd {
				o := cd.(map[string]V)
				if o["k"] == "num" {
					want = append(want, cd)
				}
			}
			e = xBin("==", xBin("-", el, atV), xInt(0))
		case 2:
			// wrong value
			want = nil
			e = xBin("!=", el, atV)
		default:
			// integer or not: (2x+1)/2 == x exactly when x is an integer literal
			want = nil
			for _, cd := range pickd {
				if cd.(map[string]V)["int"] == 1.0 {
					want = append(want, cd)
				}
			}
			e = xBin("==", xBin("/", xBin("+", xBin("*", el, xInt(2)), xInt(1)), xInt(2)), el)
		}
		if len(pickd) > 12 && n > 3000 {
			// evaluating the array for each candidate is slow
			keep := map[int]bool{}
			for len(keep) < 12 {
				keep[g.n(len(pickd))] = true
			}
			var a, b []V
			for k := range pickd {
				if keep[k] {
					a = append(a, pickd[k])
				}
			}
			for _, w := range want {
				for _, x := range a {
					if w.(map[string]V)["i"] == x.(map[string]V)["i"] {
						b = append(b, w)
						break
					}
				}
			}
			// duplicates in the sample appear once per occurrence in both
			pickd, want = a, dedupe(b, a)
		}
		c.expect(Path{sFilter(e)}.Text(&Layout{R: g.R}), pickd, want...)
		if len(pats) > 0 && n <= 3000 {
			var subj, hit []V
			for k := 0; k < 20; k++ {
				j := g.n(len(pats))
				o := map[string]V{"j": float64(j), "s": strings.Trim(pats[j].S, "^$"), "k": float64(k)}
				subj = append(subj, o)
				hit = append(hit, o)
				o = map[string]V{"j": float64(j), "s": strings.Trim(pats[j].S, "^$") + "0", "k": float64(k)}
				subj = append(subj, o)
			}
			e := xBin("~", xDot(xAt(), "s"), xIdx(xArr(pats...), xDot(xAt(), "j")))
			c.expect(Path{sFilter(e)}.Text(&Layout{R: g.R}), subj, hit...)
		}
		c.Max("most constants in a path", n)
	}
}

// dedupe returns the members of a (in order) whose identity "i" is in b.
func dedupe(b, a []V) []V {
	in := map[V]bool{}
	for _, x := range b {
		in[x.(map[string]V)["i"]] = true
	}
	var r []V
	for _, x := range a {
		if in[x.(map[string]V)["i"]] {
			r = append(r, x)
		}
	}
	return r
}

// runLookalikes: constants of different kinds with the same spelling in one path.
func runLookalikes(c *Ctx, i int) {
	g := newGen(c)
	type form struct {
		text string
		v    V
		kind string
	}
	base := pick(g, []string{"1", "10", "4194304", "0", "5000000000", "42"})
	num, _ := strconv.ParseFloat(base, 64)
	forms := []form{
		{base, num, "int"}, {base + ".0", num, "real"}, {"'" + base + "'", base, "str"}, {base + ".", num, "real"}, {"\"" + base + "\"", base, "str"}, {"'" + base + ".0'", base + ".0", "str"}, {"0" + base, num, "int"},
	}
	var ts []string
	var ks []form
	for k := 2 + g.n(8); k > 0; k-- {
		f := pick(g, forms)
		ts = append(ts, f.text)
		ks = append(ks, f)
	}
	arr := "[" + strings.Join(ts, ",") + "]"
	for k, f := range ks {
		is := strconv.Itoa(k)
		length := []V{}
		if f.kind == "str" {
			length = []V{1.0}
			c.expect("$[?("+arr+"["+is+"].length=="+strconv.Itoa(len(f.v.(string)))+")]", []V{1.0}, 1.0)
		}
		c.expect("$[?("+arr+"["+is+"].length)]", []V{1.0}, length...)
		half := []V{}
		if f.kind == "int" {
			half = []V{1.0}
		}
		x := arr + "[" + is + "]"
		c.expect("$[?(("+x+"*2+1)/2=="+x+")]", []V{1.0}, half...)
	}
	// strings and patterns of the same text, in one path
	for k := 0; k < 3; k++ {
		sp, pat := g.reSpell()
		if g.p(0.3) {
			pat = pick(g, []string{"a.b", "b*", "1", "10.", "^a", "x|y", "", "a", "len.th", "a[0]", "true", "null"})
			sp = pat
		}
		re := regexp.MustCompile(pat)
		q := quoteStr(pat, '\'', &Layout{}, false)
		var l []V
		for j := 0; j < 6; j++ {
			s := g.subject(pat)
			if j == 0 {
				s = pat
			}
			o := map[string]V{"s": s}
			if g.p(0.5) {
				o[pat] = s
			}
			l = append(l, o)
		}
		both := func(f func(o map[string]V) bool) (w []V) {
			for _, o := range l {
				if f(o.(map[string]V)) {
					w = append(w, o)
				}
			}
			return
		}
		c.expect("$[?(@.s ~ /"+sp+"/ && @.s != "+q+")]", l, both(func(o map[string]V) bool { return re.MatchString(o["s"].(string)) && o["s"] != pat })...)
		c.expect("$[?(@.s == "+q+" || @.s ~ /"+sp+"/)]", l, both(func(o map[string]V) bool { return re.MatchString(o["s"].(string)) || o["s"] == pat })...)
		c.expect("$[?(@["+q+"] == "+q+" || !(@.s ~ /"+sp+"/))]", l, both(func(o map[string]V) bool { return o[pat] == pat || !re.MatchString(o["s"].(string)) })...)
		n := strconv.Itoa(utf8.RuneCountInString(pat))
		c.expect("$[?(@.s ~ /"+sp+"/ && "+q+".length == "+n+")]", l, both(func(o map[string]V) bool { return re.MatchString(o["s"].(string)) })...)
		c.expect("$["+q+"]", map[string]V{pat: 1.0}, 1.0)
		c.expect("$["+q+"][?(@.s ~ /"+sp+"/)].s", map[string]V{pat: l}, func() (w []V) {
			for _, o := range both(func(o map[string]V) bool { return re.MatchString(o["s"].(string)) }) {
				w = append(w, o.(map[string]V)["s"])
			}
			return
		}()...)
	}
	// a name, a string, an integer, a pattern and a real spelled alike, all in one path
	nm := pick(g, []string{"a", "b1", "x"})
	doc := map[string]V{"a": nm, nm: []V{map[string]V{nm: nm, "s": nm + base}, map[string]V{nm: base, "s": base}, map[string]V{nm: num, "s": "zz"}}}
	arrv := doc[nm].([]V)
	c.expect("$."+nm+"[?(@."+nm+"=='"+nm+"' && @.s ~ /"+nm+"/)]", doc, arrv[0])
	c.expect("$['"+nm+"'][?(@['"+nm+"']=='"+base+"' && !(@.s ~ /"+nm+"/) && @.s ~ /"+base+"/)]", doc, arrv[1])
	c.expect("$."+nm+"[?(@."+nm+" in ["+base+"."+"] && !(@.s ~ '"+base+"'))]", doc, arrv[2])
	c.expect("$["+nm+",'"+nm+"'][?(@.s ~ /"+base+"/ && @.s ~ '"+nm+"')].s", doc, nm+base, nm+base)
}

// C12

func runRegex(c *Ctx, i int) {
	g := newGen(c)
	spell, pat := g.reSpell()
	re := regexp.MustCompile(pat)
	var subj []V
	for k := 0; k < 10; k++ {
		s := g.subject(pat)
		o := map[string]V{"s": s, "p": pat, "i": float64(k), "m": re.MatchString(s)}
		subj = append(subj, o)
	}
	var want []V
	for _, o := range subj {
		if o.(map[string]V)["m"].(bool) {
			want = append(want, o)
		}
	}
	op := pick(g, []string{"~", "=~", " ~ ", " =~ "})
	c.expect("$[?(@.s"+op+"/"+spell+"/)]", subj, want...)
	c.expect("$[?(@.s"+op+"@.p)]", subj, want...)
	c.expect("$[?(!(@.s"+op+"/"+spell+"/) == !@.m)]", subj, subj...)
	lit := quoteStr(pat, '\'', &Layout{}, false)
	c.expect("$[?(@.s"+op+lit+")]", subj, want...)
	s := subj[0].(map[string]V)["s"].(string)
	sl := quoteStr(s, '"', &Layout{}, false)
	if subj[0].(map[string]V)["m"].(bool) {
		c.expect("$[?("+sl+op+"/"+spell+"/)]", []V{1.0}, 1.0)
	} else {
		c.expect("$[?("+sl+op+"/"+spell+"/)]", []V{1.0})
	}
	c.Count("matches judged", 3*len(subj)+2)
}

func (g *Gen) subject(pat string) string {
	bits := []string{"a", "b", "x", "/", "\\", ".", "k", "K", "é", "日", "'", "\"", " ", "\n", "1", "A", "]", "[", ",", "@", "#", "d", "Q", "E", "\x80", "{2}", "aa"}
	s := ""
	for k := g.n(6); k > 0; k-- {
		s += pick(g, bits)
	}
	if g.p(0.3) {
		// something like the pattern itself
		s += strings.NewReplacer("\\d", "7", "\\.", ".", "\\/", "/", "[a-z]", "q", "\\w+", "wz", "x*", "xx", "(a|b)", "b", "\\\\", "\\", "^", "", "$", "", "\\x41", "A", "\\pL", "é", "(?i)", "", "[^/]", "c").Replace(pat)
	}
	if g.p(0.01) {
		s = strings.Repeat("ab/", 3000) + s
	}
	return s
}

// runRegexMany: many patterns in one path and one evaluation, literal and dynamic, repeatedly.
func runRegexMany(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{2, 3, 5, 17, 40, 130, 300})
	var cands []V
	var pats []string
	var spells []string
	for k := 0; k < n; k++ {
		sp, p := g.reSpell()
		if g.p(0.3) {
			p = "^" + strconv.Itoa(g.n(n)) + "$"
			sp = p
		}
		pats = append(pats, p)
		spells = append(spells, sp)
	}
	m := n + 5
	if m > 60 {
		m = 60
	}
	for k := 0; k < m; k++ {
		j := g.n(n)
		s := g.subject(pats[j])
		if g.p(0.3) {
			s = strconv.Itoa(g.n(n))
		}
		if k > 0 && g.p(0.3) {
			s = cands[k-1].(map[string]V)["s"].(string) // same subject, another pattern
		}
		cands = append(cands, map[string]V{"s": s, "p": pats[j], "j": float64(j), "i": float64(k), "m": regexp.MustCompile(pats[j]).MatchString(s)})
	}
	var want []V
	for _, o := range cands {
		if o.(map[string]V)["m"].(bool) {
			want = append(want, o)
		}
	}
	for r := 0; r < 2; r++ {
		c.expect("$[?(@.s =~ @.p)]", cands, want...)
	}
	c.expect("$[?((@.s ~ @.p) == @.m)]", cands, cands...)
	if n <= 130 {
		arr := "[/" + strings.Join(spells, "/,/") + "/]"
		c.expect("$[?(@.s =~ "+arr+"[@.j])]", cands, want...)
		c.expect("$[?(@.s =~ "+arr+"[@.j])][?(@)]", map[string]V{"q": cands}, []V{}...)
		c.expect("$[?((@.s =~ "+arr+"[@.j]) == (@.s ~ @.p))].i", cands, func() (l []V) {
			for _, o := range cands {
				l = append(l, o.(map[string]V)["i"])
			}
			return
		}()...)
	}
	// alternating literals in one expression
	a, b := g.n(n), g.n(n)
	ra, rb := regexp.MustCompile(pats[a]), regexp.MustCompile(pats[b])
	want = nil
	for _, o := range cands {
		s := o.(map[string]V)["s"].(string)
		if ra.MatchString(s) && !rb.MatchString(s) || !ra.MatchString(s) && rb.MatchString(s) {
			want = append(want, o)
		}
	}
	c.expect("$[?((@.s ~ /"+spells[a]+"/) != (@.s ~ /"+spells[b]+"/))]", cands, want...)
	c.Count("matches judged", 5*len(cands))
}

// runRegexLong: families of long patterns that differ only here or there (at one end, in the
// middle, in case), and subjects that differ likewise.
func runRegexLong(c *Ctx, i int) {
	g := newGen(c)
	word := func() string {
		if g.p(0.3) {
			return pick(g, []string{"Alpha", "beta", "GAMMA", "d.lta", "eps+", "z[aeiou]ta", "é+té", "日本?", "(one|two)", "\\d{2}", "x{0,3}"})
		}
		w := ""
		for k := 1 + g.n(8); k > 0; k-- {
			w += string(rune(pick(g, []int{'a', 'A'}) + g.n(26)))
		}
		return w
	}
	var bits []string
	sep := pick(g, []string{"", "", "_", " ", "|"})
	target := pick(g, []int{10, 17, 31, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 250, 255, 256, 257, 500, 1000, 1024, 2000})
	for n := 0; n < target; {
		w := word()
		bits = append(bits, w)
		n += len(w) + len(sep)
	}
	flip := func(s string) string {
		// change the case of one letter, or of all
		if g.p(0.3) {
			return strings.ToUpper(s)
		}
		b := []byte(s)
		for t := 0; t < 20; t++ {
			j := g.n(len(b) + 1)
			if j < len(b) && (b[j]|32) >= 'a' && (b[j]|32) <= 'z' && (j == 0 || b[j-1] != '\\') {
				b[j] ^= 32
				return string(b)
			}
		}
		return s
	}
	variant := func(l []string) []string {
		l = append([]string{}, l...)
		j := pick(g, []int{0, len(l) - 1, g.n(len(l)), g.n(len(l))})
		switch g.n(6) {
		case 0:
			l[j] = word()
		case 1:
			l[j] = flip(l[j])
		case 2:
			if len(l) > 1 {
				l = append(l[:j], l[j+1:]...)
			}
		case 3:
			l = append(l, word())
		case 4:
			l = append([]string{word()}, l...)
		default:
			k := g.n(len(l))
			l[j], l[k] = l[k], l[j]
		}
		return l
	}
	plain := strings.NewReplacer("d.lta", "delta", "eps+", "epsss", "z[aeiou]ta", "zota", "é+té", "éété", "日本?", "日", "(one|two)", "two", "\\d{2}", "42", "x{0,3}", "x")
	var pats []string
	var subj []string
	var res []*regexp.Regexp
	for k := 0; k < 6; k++ {
		l := bits
		if k > 0 {
			l = variant(bits)
		}
		p := strings.Join(l, sep)
		if g.p(0.3) {
			p = "^" + p
		}
		if g.p(0.3) {
			p += "$"
		}
		if g.p(0.05) {
			p = "(?i)" + p
		}
		re, err := regexp.Compile(p)
		if err != nil {
			continue
		}
		pats = append(pats, p)
		res = append(res, re)
		s := plain.Replace(strings.Join(l, sep))
		if sep == "|" {
			s = plain.Replace(pick(g, l))
		}
		subj = append(subj, s, flip(s))
		if len(s) > 1 {
			subj = append(subj, s[:len(s)-1], "x"+s)
		}
	}
	var cands []V
	for j, p := range pats {
		for _, s := range subj {
			if g.p(0.6) {
				cands = append(cands, map[string]V{"s": s, "p": p, "j": float64(j), "m": res[j].MatchString(s)})
			}
		}
	}
	g.R.Shuffle(len(cands), func(a, b int) { cands[a], cands[b] = cands[b], cands[a] })
	matching := func(f func(o map[string]V) bool) (l []V) {
		for _, o := range cands {
			if f(o.(map[string]V)) {
				l = append(l, o)
			}
		}
		return
	}
	yes := 0
	c.expect("$[?(@.s ~ @.p)]", cands, matching(func(o map[string]V) bool {
		if o["m"].(bool) {
			yes++
		}
		return o["m"].(bool)
	})...)
	c.expect("$[?((@.s =~ @.p) == @.m)]", cands, cands...)
	for j, p := range pats {
		want := matching(func(o map[string]V) bool { return res[j].MatchString(o["s"].(string)) })
		if g.p(0.5) {
			c.expect("$[?(@.s ~ /"+p+"/)]", cands, want...)
		} else {
			c.expect("$[?(@.s ~ "+quoteStr(p, '\'', &Layout{}, false)+")]", cands, want...)
		}
		if g.p(0.3) {
			// the literal pattern and the document's in one path
			c.expect("$[?((@.s ~ /"+p+"/) && @.m == (@.s ~ @.p))]", cands, want...)
		}
	}
	c.Count("matches judged", 2*len(cands)+len(pats)*len(cands))
	c.Count("matches that hold", yes)
	c.Max("longest pattern", target)
}

// runRegexFold: case-insensitive patterns and classes, with characters that fold to others of another
// length or have no single other case, and marks, spaces and ends of line of many kinds.
func runRegexFold(c *Ctx, i int) {
	g := newGen(c)
	chars := []string{"k", "K", "\u212a", "s", "S", "\u017f", "i", "I", "\u0130", "\u0131", "ß", "\u1e9e", "ss", "SS", "Σ", "σ", "ς", "é", "É", "e\u0301", "å", "Å", "\u212b", "a\u030a", "ǆ", "ǅ", "Ǆ", "µ", "μ", "Ω", "\u2126", "ﬁ", "fi", "FI", "\u1c80", "в", "В", "\U00010400", "\U00010428", "a", "A", "z", "Z", "_", "1", "\u0661", "\uff11", " ", "\u00a0", "\u2028", "\u0085", "\n", "\r", "\t", "\v", "\ufffd", "\xff", "\x00", "\u200d", "日", "😀"}
	word := func() string {
		s := ""
		for k := 1 + g.n(4); k > 0; k-- {
			s += pick(g, chars)
		}
		return s
	}
	var pats []string
	var res []*regexp.Regexp
	for len(pats) < 6 {
		w := word()
		var p string
		switch g.n(8) {
		case 0:
			p = regexp.QuoteMeta(w)
		case 1, 2:
			p = "(?i)" + regexp.QuoteMeta(w)
		case 3:
			p = "(?i)^" + regexp.QuoteMeta(w) + "$"
		case 4:
			p = "(?i)[" + regexp.QuoteMeta(w) + "]+"
		case 5:
			p = "^[^" + regexp.QuoteMeta(w) + "]$"
		case 6:
			p = pick(g, []string{"(?i:" + regexp.QuoteMeta(w) + ")" + regexp.QuoteMeta(word()), "(?s).$", "^.$", "(?m)^" + regexp.QuoteMeta(w) + "$", "\\w+$", "^\\W", "\\bk", "\\s$", "^\\S+$", "\\d", "[[:alpha:]]", "\\pL", "^\\p{Lu}", "\\P{L}", "[[:^ascii:]]", "(?i)[a-z]$", "(?i)[^a-z]$", "[\u0080-\uffff]", "\\x{212A}", "(?i)\\x{212A}", "(?i)\\x{17f}", "\\pN", "(?U)s+", "\\B", "\\z", "\\A.\\z", "^..$", "^.{3}$"})
		default:
			p = "(?i)" + regexp.QuoteMeta(w) + "|" + regexp.QuoteMeta(word())
		}
		re, err := regexp.Compile(p)
		if err != nil {
			continue
		}
		pats = append(pats, p)
		res = append(res, re)
	}
	var cands []V
	add := func(s string) {
		for j, p := range pats {
			cands = append(cands, map[string]V{"s": s, "p": p, "j": float64(j), "m": res[j].MatchString(s)})
		}
	}
	for k := 0; k < 6; k++ {
		s := word()
		add(s)
		add(pick(g, []func(string) string{strings.ToUpper, strings.ToLower, strings.ToTitle, func(s string) string { return s + pick(g, chars) }})(s))
	}
	for _, s := range chars {
		if g.p(0.2) {
			add(s)
		}
	}
	for _, p := range pats {
		// the pattern's own words
		add(strings.NewReplacer("(?i)", "", "^", "", "$", "", "\\", "").Replace(p))
	}
	sel := func(f func(o map[string]V) bool) (l []V) {
		for _, o := range cands {
			if f(o.(map[string]V)) {
				l = append(l, o)
			}
		}
		return
	}
	c.expect("$[?(@.s ~ @.p)]", cands, sel(func(o map[string]V) bool { return o["m"].(bool) })...)
	for j, p := range pats {
		want := sel(func(o map[string]V) bool { return res[j].MatchString(o["s"].(string)) })
		if utf8.ValidString(p) && !strings.ContainsAny(p, "\n\r\x00") {
			c.expect("$[?(@.s ~ /"+strings.ReplaceAll(p, "/", "\\/")+"/)]", cands, want...)
		}
		c.expect("$[?(@.s =~ "+quoteStr(p, '"', &Layout{}, false)+")]", cands, want...)
	}
	c.Count("matches judged", (2*len(pats)+1)*len(cands))
}

// runRegexFar: long subjects, which match or not because of one place in them, near the
// beginning, near the end or in between.
func runRegexFar(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{100, 255, 256, 1000, 1024, 4095, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 70000, 100000, 131073})
	if g.p(0.1) {
		n = pick(g, []int{1 << 20, 1<<20 + 1, 2000000})
	}
	n += g.n(3)
	fill := pick(g, []string{"a", "ab", "x", "é", "a b ", "日", "-1", "\n"})
	body := strings.Repeat(fill, n/len(fill)+1)
	key := pick(g, []string{"KEY", "Q", "kéy", "7", "/"})
	var subj []string
	for k := 0; k < 5; k++ {
		at := pick(g, []int{0, len(body), len(body) - len(fill), len(body) / 2, g.n(len(body))})
		at -= at % len(fill)
		subj = append(subj, body[:at]+key+body[at:])
	}
	subj = append(subj, body, key, body+body, strings.Repeat(fill, 3)+key)
	pats := []string{key, key + "$", "^" + key, "^(" + fill + ")*$", "^(" + fill + ")*" + key + "$", "(?i)" + strings.ToLower(key), key + "(" + fill + ")*$", "[^" + fill + "]", key + fill, fill + key, "(?s)^.*" + key + ".*$", "(?m)^" + key, "\\b" + key}
	var cands []V
	for k, s := range subj {
		cands = append(cands, map[string]V{"s": s, "i": float64(k)})
	}
	rounds := 4
	if n > 200000 {
		rounds = 1
	}
	for k := 0; k < rounds; k++ {
		p := pick(g, pats)
		re := regexp.MustCompile(p)
		var want []V
		for k, s := range subj {
			if re.MatchString(s) {
				want = append(want, float64(k))
			}
		}
		c.expect("$.l[?(@.s "+pick(g, []string{"~", "=~"})+" $.p)].i", map[string]V{"l": cands, "p": p}, want...)
		c.expect("$[?(@.s ~ /"+strings.NewReplacer("/", "\\/", "\n", "\\n").Replace(p)+"/)].i", cands, want...)
		c.Count("matches judged", 2*len(subj))
		c.Count("matches that hold", 2*len(want))
	}
	c.Max("longest subject", 2*len(body))
}

// C01

// total runs the whole life of a text, watching only for totality and the form of the outcomes.
func (c *Ctx) total(text string, docs []V) {
	c.Now("total " + cut(text, 4000))
	p, err := jsonpath.Compile(text)
	if (p == nil) == (err == nil) {
		c.Violate("Compile(%q) returned %v and error %v", cut(text, 1000), p != nil, err)
	}
	if err != nil && err.Error() == "" {
		c.Violate("Compile(%q) returned an error without text", cut(text, 1000))
	}
	c.Now("MustCompile " + cut(text, 4000))
	if d := mustOutcome(text); (d == "") != (err == nil) || d == returnedNil {
		c.Violate("Compile(%q) gave %s but MustCompile %s", cut(text, 1000), errText(err), d)
	}
	c.Now("ParsePath " + cut(text, 4000))
	pp, perr := paths.ParsePath(text)
	if perr != nil && (pp != nil || perr.Error() == "") {
		c.Violate("ParsePath(%q) returned %v and %v", cut(text, 1000), pp, perr)
	}
	if perr != nil && err == nil {
		c.Violate("ParsePath(%q) gave %v but Compile accepts it", cut(text, 1000), perr)
	}
	c.Now("ParseScriptExpression " + cut(text, 4000))
	x, xerr := paths.ParseScriptExpression(text)
	if (x == nil) == (xerr == nil) || xerr != nil && xerr.Error() == "" {
		c.Violate("ParseScriptExpression(%q) returned %v and %v", cut(text, 1000), x, xerr)
	}
	if err != nil {
		c.Count("texts rejected", 1)
		return
	}
	if p.String() != text {
		c.Violate("the path compiled from %q reports %q", cut(text, 1000), cut(p.String(), 1000))
	}
	c.Count("texts compiled", 1)
	for _, d := range docs {
		r, err := c.eval(p, text, d)
		if err != nil {
			if err.Error() == "" {
				c.Violate("Eval of %q on %s returned an error without text", cut(text, 1000), show(d))
			}
			c.Count("evaluations failed", 1)
		} else {
			c.Count("evaluations completed", 1)
			c.Max("most results of one evaluation", len(r))
		}
	}
}

const returnedNil = "returned nil"

// mustOutcome calls MustCompile and describes a panic.
func mustOutcome(text string) (d string) {
	defer func() {
		if x := recover(); x != nil {
			d = fmt.Sprint("panicked: ", cut(fmt.Sprint(x), 300))
		}
	}()
	if jsonpath.MustCompile(text) == nil {
		return returnedNil
	}
	return ""
}

// decodeNumber decodes with json.Number, as a decoder with UseNumber does.
func decodeNumber(v V) V {
	b, err := json.Marshal(v)
	if err != nil {
		return v
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var x V
	if d.Decode(&x) != nil {
		return v
	}
	return x
}

func runTotalSyn(c *Ctx, i int) {
	g := newGen(c)
	doc := g.doc()
	docs := []V{doc, decodeNumber(doc), g.scalar(), nil}
	if i%4 == 0 {
		docs = append(docs, json.Number("12345678901234567890"), []V{json.Number("1e400"), json.Number("0"), json.Number("-1"), map[string]V{"a": json.Number("1.5")}})
	}
	p := g.tamePath()
	text := p.Text(g.synLayout())
	c.total(text, docs)
	c.Eval(hash64(text, show(doc)), true)
	c.Sample(text)
	for k := 0; k < 5; k++ {
		m := g.mutate(text, "$[?(@.a)]")
		if strings.Count(m, "..") <= 3 && strings.Count(m, "*") < 8 {
			c.total(m, docs[:2])
			c.Eval(hash64(m, show(doc)), true)
		}
	}
}

// tamePath is a syntactic path whose number of results stays small.
func (g *Gen) tamePath() Path {
	for {
		p := g.synPath()
		nests := 0
		for _, s := range p {
			if s.Nest {
				nests++
			}
			if s.K == SElems && len(s.L) > 3 {
				nests++
			}
		}
		if nests <= 2 {
			return p
		}
	}
}

// runTotalSem: meaningful paths and expressions over operands of every kind, so that evaluation goes deep.
func runTotalSem(c *Ctx, i int) {
	g := newGen(c)
	doc := map[string]V{"x": candidates(pool), "l": []V{1.0, "a", nil, []V{}, map[string]V{}, true}, "o": map[string]V{"a": 1.0}, "n": 7.0, "s": "text"}
	g.root, g.ats = doc, doc["x"].([]V)
	g.errP = 0.1
	g.wildP = 0.5
	docs := []V{doc}
	if i%3 == 0 {
		docs = append(docs, decodeNumber(doc))
	}
	e := g.expr(pick(g, []kind{kNum, kStr, kArr, kObj, kAny, kBool}), 1+g.n(4))
	for _, p := range []Path{{sName("x"), sFilter(e)}, {nest(sFilter(e))}, {sName("l"), sExpr(e)}, {sName("o"), {K: SExpr, E: e}}, {nest(sExpr(e))}, {sElems(Elem{K: LSlice, B: [3]Bound{{Set: true, E: e}, {}, {Set: true, E: e}}})}} {
		text := p.Text(g.layout())
		c.total(text, docs)
		c.Eval(hash64(text), true)
	}
}

// runTotalPairs: every function and operator on every pair of values of a hostile pool, including json.Number.
func runTotalPairs(c *Ctx, i int) {
	vals := append([]V{}, pool[1:]...)
	for _, s := range []string{"0", "1", "-1", "1.5", "1e400", "12345678901234567890", "-0", "1e-400", "9007199254740993"} {
		vals = append(vals, json.Number(s))
	}
	vals = append(vals, []V{json.Number("1")}, []V{json.Number("1"), json.Number("2")}, map[string]V{"a": json.Number("1")}, math.Inf(1), math.NaN(), 9.3e18, -9.3e18, 1e308)
	a := vals[i%len(vals)]
	doc := map[string]V{"a": a, "x": candidates(vals)}
	var es []string
	for _, op := range allBinOps {
		es = append(es, "$.a "+op+" @.v", "@.v "+op+" $.a")
	}
	es = append(es, "$.a[@.v]", "@.v[$.a]", "-@.v", "!@.v", "@.v.length", "$.a[0]", "@.v.a", "[@.v,$.a]", "[@.v][$.a]", "-$.a[@.v].length")
	for _, f := range append([]string{"nosuch", "length2"}, fnNames...) {
		es = append(es, f+"()", f+"(@.v)", f+"(@.v,$.a)", f+"($.a,@.v,@.v)", f+"([@.v,$.a])", f+"([])")
	}
	for _, e := range es {
		for _, t := range []string{"$.x[?(" + e + ")]", "$.x[?((" + e + ") == $.a)]", "$.x..[(" + e + ")]", "$.x..(" + e + ")"} {
			c.Now("eval " + t)
			p := c.mustCompile(t)
			// one candidate at a time, so that an error does not hide the rest
			for _, cd := range doc["x"].([]V) {
				d := map[string]V{"a": a, "x": []V{cd}}
				c.eval(p, t, d)
			}
			c.Eval(hash64(t, show(a), strconv.Itoa(i)), true)
			c.Count("evaluations completed or failed", len(vals))
		}
	}
}

const byteAlpha = "$@.*[]()?,:-'\"\\/a1 =!<>&|~+%u{}\n"

// runRandomBytes: texts of random bytes and random tokens.
func runRandomBytes(c *Ctx, i int) {
	g := newGen(c)
	doc := map[string]V{"a": []V{1.0, "b", map[string]V{"a": nil}}, "b": "x"}
	for k := 0; k < 10; k++ {
		var s string
		n := g.n(20)
		switch g.n(3) {
		case 0:
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(g.n(256))
			}
			s = string(b)
		case 1:
			for j := 0; j < n; j++ {
				s += pick(g, extraToks)
			}
		default:
			b := make([]byte, n)
			for j := range b {
				b[j] = byteAlpha[g.n(len(byteAlpha))]
			}
			s = string(b)
		}
		if g.p(0.7) {
			s = "$" + s
		} else if g.p(0.5) {
			s = "$[?(" + s + ")]"
		}
		if strings.Count(s, "..") > 6 {
			continue
		}
		c.total(s, []V{doc})
		c.Eval(hash64(s), true)
	}
}

// huge texts, up to 4 MiB
func hugeText(k, size int) string {
	rep := func(pre, unit, post string) string {
		n := (size - len(pre) - len(post)) / len(unit)
		return pre + strings.Repeat(unit, n) + post
	}
	nestd := func(pre, open, mid, shut, post string) string {
		n := (size - len(pre) - len(post) - len(mid)) / (len(open) + len(shut))
		return pre + strings.Repeat(open, n) + mid + strings.Repeat(shut, n) + post
	}
	switch k {
	case 0:
		return rep("$", ".a", "")
	case 1:
		return rep("$", "..a", "")
	case 2:
		return rep("$", "[1]", "")
	case 3:
		return rep("$", "[?(@)]", "")
	case 4:
		return rep("$", "..[1,2]", "")
	case 5:
		return rep("$[", "1,", "1]")
	case 6:
		return rep("$[", "'a',", "1]")
	case 7:
		return nestd("$[?(", "(", "1", ")", ")]")
	case 8:
		return nestd("$[?(", "[", "1", "]", ")]")
	case 9:
		return rep("$[?(", "-", "1)]")
	case 10:
		return rep("$[?(", "!", "1)]")
	case 11:
		return rep("$[?(1", "+1", ")]")
	case 12:
		return rep("$[?(@", ".a", ")]")
	case 13:
		return rep("$[?(@", "[0]", ")]")
	case 14:
		return nestd("$[?(", "f(", "1", ")", ")]")
	case 15:
		return nestd("$[?(", "@[", "1", "]", ")]")
	case 16:
		return rep("$['", "x", "']")
	case 17:
		return rep("$.", "x", "")
	case 18:
		return rep("$[?(@ ~ /", "x", "/)]")
	case 19:
		return rep("$[", "9", "]")
	case 20:
		return rep("$[?(1.", "9", ")]")
	case 21:
		return rep("$", " ", "")
	case 22:
		return rep("$[?(", "(", "")
	case 23:
		return rep("$[?(", "[", "")
	case 24:
		return rep("$['", "\\u0041", "']")
	case 25:
		return rep("", "\x00", "")
	case 26:
		return rep("$[?(1", "&&1", ")]")
	case 27:
		return rep("$[?(f(", "1,", "1))]")
	case 28:
		return rep("$[?([", "1,", "1])]")
	case 29:
		return rep("$", "[1:2:3]", "")
	case 30:
		return rep("$[", "1:2,", "1]")
	case 31:
		return rep("$[", "(1):,", "1]")
	case 32:
		return rep("$", "[(1)]", "")
	case 33:
		return rep("$", "..[?(1)]", "")
	case 34:
		return rep("$", "..*", "")
	case 35:
		return nestd("$[?(", "-(", "1", ")", ")]")
	case 36:
		return rep("$[?(@ ~ /", "(", "/)]")
	case 37:
		return nestd("$[?(@ ~ /", "(", "x", ")", "/)]")
	case 38:
		return rep("$['", "\\ud83d", "']")
	case 39:
		return rep("$[?(1", " in [1]", ")]")
	case 40:
		return nestd("$[?(", "1+(", "1", ")", ")]")
	case 41:
		return rep("$[?(", "[", "]")
	case 42:
		return rep("$[?(", "a(", "")
	case 43:
		return rep("$[?(", "@.", "")
	case 44:
		return nestd("$[?(", "!(1==", "1", ")", ")]")
	case 45:
		return rep("$[?(@ ~ /", "a?", "/)]")
	case 46:
		return rep("$[?(", "1<", "1)]")
	case 47:
		return rep("$", ".*", "")
	}
	return ""
}

const nHuge = 48

var hugeSizes = []int{4 << 20, 3<<20 + 150000, 1 << 20, 600000, 100000, 20010}

func runHuge(c *Ctx, i int) {
	k := i % nHuge
	size := hugeSizes[i/nHuge]
	text := hugeText(k, size)
	docs := []V{[]V{}, map[string]V{"a": nil}, 1.0, []V{[]V{1.0}, "a"}}
	if k == 33 || k == 34 || k == 4 || k == 1 {
		docs = []V{[]V{}, 1.0, map[string]V{"a": nil}}
	}
	c.total(text, docs)
	c.Eval(hash64(text), true)
	c.Max("longest text", len(text))
}

// vastShapes are the shapes of hugeText given at 20 MiB: chains first, whose trees lean to one side.
var vastShapes = []int{11, 12, 26, 46, 13, 39, 0, 5, 28, 1, 2, 3, 4, 6, 7, 8, 9, 10, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 27, 29, 30, 31, 32, 33, 34, 35, 40, 41, 44, 47}

// runVast: texts of 20 MiB, compiled and parsed but not evaluated.
func runVast(c *Ctx, i int) {
	text := hugeText(vastShapes[i], 20<<20)
	c.Now("Compile " + cut(text, 300))
	p, err := jsonpath.Compile(text)
	if (p == nil) == (err == nil) || err != nil && err.Error() == "" {
		c.Violate("Compile(%q) returned %v and error %v", cut(text, 300), p != nil, err)
	}
	if p != nil && p.String() != text {
		c.Violate("String of %q differs from it", cut(text, 300))
	}
	accepted := p != nil
	p = nil
	debug.FreeOSMemory()
	c.Now("ParsePath " + cut(text, 300))
	pp, perr := paths.ParsePath(text)
	if perr != nil && (pp != nil || perr.Error() == "") || perr != nil && accepted {
		c.Violate("ParsePath(%q) returned %v and %v, accepted by Compile: %v", cut(text, 300), pp != nil, perr, accepted)
	}
	pp = nil
	debug.FreeOSMemory()
	c.Eval(hash64(text), true)
	c.Max("longest text", len(text))
}

// deep documents
func runDeepDocs(c *Ctx, i int) {
	g := newGen(c)
	depth := pick(g, []int{1000, 5000, 9999})
	var doc V = 1.0
	for k := 0; k < depth; k++ {
		if k%2 == 0 && i%2 == 0 {
			doc = map[string]V{"a": doc}
		} else {
			doc = []V{doc}
		}
	}
	b, err := json.Marshal(doc)
	if err == nil {
		var again V
		if json.Unmarshal(b, &again) == nil {
			doc = again
		}
	}
	for _, t := range []string{"$..*", "$..a", "$..[0]", "$..[?(@)]", "$[?(@==$[0])]", "$..[?(@ == $)]", "$[?(@==@)]", "$..[0,'a']", "$..[?(@[0])]", "$..[0]..[0]", "$[?(@ in [@,$])]", "$[?([$]==[$])]", "$[?(@ == 1)]", "$[?(@ != 'x')]", "$[?(contains([$],$))]", "$..[-1:]"} {
		if strings.Count(t, "..") > 1 && depth > 2000 {
			continue
		}
		if strings.Contains(t, "..[?(@ == $)]") && depth > 6000 {
			continue
		}
		c.total(t, []V{doc})
		c.Eval(hash64(t, strconv.Itoa(depth), strconv.Itoa(i%2)), true)
	}
	c.Max("deepest document", depth)
}

func init() {
	register(&Prop{ID: "C24",
		Rule: "every kind of bad literal in every kind of place of a path and of an expression, and nesting beyond the limit; then random derived texts with a literal spoiled at random or cut off, where an independent recogniser finds the first fault to be a bad literal; every text judged is non-trivial",
		Phases: []Phase{
			{Name: "places", Fixed: true, N: fixedN(1, 1), Run: runCausesAll},
			{Name: "spoiled", N: fixedN(10000, 300000), Run: runCauses},
			{Name: "scale", N: fixedN(50, 1500), Run: runScaleCause},
		}})
	register(&Prop{ID: "C01", Quick: 1,
		Rule: "derived, mutated and random texts, texts to 4 MiB of 48 shapes (deep, long and truncated), chains and lists of 20 MiB, all operators and functions on all pairs of a hostile value pool (json.Number, non-finite numbers), deep documents; each compiled, evaluated, parsed and given to MustCompile in a watched process (panic, fatal error, deadlock, CPU and memory limits); distinct by text and document",
		Phases: []Phase{
			{Name: "huge", Fixed: true, Solo: false, N: func(tier string) int {
				if tier == "thorough" {
					return nHuge * len(hugeSizes)
				}
				return nHuge * 2
			}, Run: func(c *Ctx, i int) {
				if c.Tier != "thorough" {
					// the largest size, and a moderate one
					if i >= nHuge {
						i += nHuge * 3
					}
				}
				runHuge(c, i)
			}},
			{Name: "vast", Fixed: true, N: fixedN(6, len(vastShapes)), Run: runVast},
			{Name: "deepdocs", Fixed: true, N: fixedN(4, 24), Run: runDeepDocs},
			{Name: "pairs", Fixed: true, N: func(string) int { return len(pool) - 1 + 9 + 8 }, Run: runTotalPairs},
			{Name: "syntactic", N: fixedN(20000, 500000), Run: runTotalSyn},
			{Name: "semantic", N: fixedN(6000, 150000), Run: runTotalSem},
			{Name: "bytes", N: fixedN(20000, 500000), Run: runRandomBytes},
		}})
	register(&Prop{ID: "C02",
		Rule: "texts derived from the grammar, their mutations (bytes, tokens, splices, truncation, white space) and prefixes; every text of up to 4 symbols over path and expression alphabets; every byte in and around every kind of literal; number limits; long and deep texts; Compile, ParsePath and ParseScriptExpression compared with an independent recogniser; every settled text is non-trivial",
		Phases: []Phase{
			{Name: "derived", N: fixedN(20000, 600000), Run: runDerived},
			{Name: "paths", Fixed: true, N: func(string) int { return len(pathAlpha) * len(pathAlpha) }, Run: runSmallTexts(pathAlpha, 4, 5, func(c *Ctx, s string) { c.grammar("$" + s) })},
			{Name: "brackets", Fixed: true, N: func(string) int { return len(pathAlpha) * len(pathAlpha) }, Run: runSmallTexts(pathAlpha, 4, 5, func(c *Ctx, s string) { c.grammar("$[" + s + "]") })},
			{Name: "exprs", Fixed: true, N: func(string) int { return len(exprAlpha) * len(exprAlpha) }, Run: runSmallTexts(exprAlpha, 4, 5, func(c *Ctx, s string) { c.grammarExpr(s) })},
			{Name: "odd characters", Fixed: true, N: fixedN(len(oddRunes), len(oddRunes)), Run: runOddTexts},
			{Name: "literals", N: fixedN(2000, 20000), Run: runLiterals},
			{Name: "long", N: fixedN(300, 3000), Run: runLongTexts},
			{Name: "scale", N: fixedN(24, 600), Run: runScaleTexts},
		}})
	register(&Prop{ID: "C12", Quick: 2,
		Rule: "random regular expressions spelled between slashes, as string literals and as document values, against random subjects; up to 300 patterns in one evaluation or path; families of patterns to 2,000 bytes and of subjects differing at one place or in case; case-insensitive patterns and characters whose case folds unusually; subjects to 2 MB decided at any place; compared with Go's regexp on the pattern unescaped independently; every evaluation is non-trivial",
		Phases: []Phase{
			{Name: "single", N: fixedN(20000, 500000), Run: runRegex},
			{Name: "many", N: fixedN(2500, 50000), Run: runRegexMany},
			{Name: "long", N: fixedN(1200, 30000), Run: runRegexLong},
			{Name: "folding", N: fixedN(4000, 80000), Run: runRegexFold},
			{Name: "far", N: fixedN(120, 2400), Run: runRegexFar},
			{Name: "scale", N: fixedN(40, 800), Run: runScaleRe},
		}})
	register(&Prop{ID: "C13",
		Rule: "string literals of random escapes (decoded by encoding/json for comparison), names of random bytes, integers round every power of two, real literals near the middle of two doubles, paths with up to 70,000 constants, and constants of different kinds spelled alike; each read back by selecting among decoys; every evaluation is non-trivial",
		Phases: []Phase{
			{Name: "strings", N: fixedN(8000, 200000), Run: runStringLits},
			{Name: "names", N: fixedN(6000, 120000), Run: runNames},
			{Name: "ints", N: fixedN(3000, 80000), Run: runIntLits},
			{Name: "reals", N: fixedN(4000, 100000), Run: runRealLits},
			{Name: "near", N: fixedN(5000, 100000), Run: runNear},
			{Name: "lookalikes", N: fixedN(3000, 60000), Run: runLookalikes},
			{Name: "many", N: fixedN(320, 4000), Run: runManyConsts},
			{Name: "long names", N: fixedN(600, 20000), Run: runKinNames},
			{Name: "odd characters", Fixed: true, N: fixedN(len(oddRunes), len(oddRunes)), Run: runOddNames},
			{Name: "million", Fixed: true, N: fixedN(2, 6), Run: runMillion},
			{Name: "scale", N: fixedN(40, 1200), Run: runScaleLits},
		}})
	register(&Prop{ID: "C22",
		Rule: "random syntax trees of paths and script expressions, all triples of binary operators, long and deep trees; each written in several layouts and parsed, and the parsed steps and trees compared with the tree written; distinct by text",
		Phases: []Phase{
			{Name: "trees", N: fixedN(20000, 500000), Run: runTrees},
			{Name: "operators", N: fixedN(15*15*15, 15*15*15*6), Run: runOpTrees},
			{Name: "long", N: fixedN(200, 2000), Run: runLongTrees},
			{Name: "same", N: fixedN(15*300, 15*300*8), Run: runSameTrees},
			{Name: "scale", N: fixedN(5, 100), Run: runScaleTrees},
		}})
}
