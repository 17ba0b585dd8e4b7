package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// Long strings that are nearly the same, and chains of arithmetic that are sensitive to rounding.

var kinSizes = []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 65535, 65536, 65537}

// kin makes n strings that differ little: in one byte somewhere, in length by one, or not at all.
func (g *Gen) kin(n int) []string {
	size := pick(g, kinSizes)
	if size > 5000 && g.p(0.8) {
		size = pick(g, kinSizes[:30])
	}
	alpha := pick(g, []string{"a", "ab", "abc", "aA", "0123456789", "é😀a", "a ", "/\\'\"", "xyz.[]*"})
	letters := []rune(alpha)
	base := make([]rune, size)
	for i := range base {
		base[i] = pick(g, letters)
	}
	l := make([]string, n)
	for k := range l {
		s := append([]rune(nil), base...)
		switch g.n(8) {
		case 0: // the same
		case 1:
			s = s[:size-1]
		case 2:
			s = append(s, pick(g, letters))
		default:
			j := pick(g, []int{0, 1, size / 2, size - 1, size - 2, g.n(size), g.n(size)})
			s[j] = pick(g, []rune{'a', 'b', 'B', 'z', '0', 'é', 'É', '😀', ' ', 0x7f, 0xfffd, 0xffff, 0x10000})
		}
		l[k] = string(s)
	}
	return l
}

func strVals(l []string) []V {
	r := make([]V, len(l))
	for i := range l {
		r[i] = l[i]
	}
	return r
}

func (g *Gen) kinExpr(p *prober, s string) *Expr {
	if g.p(0.5) {
		return xStr(s)
	}
	p.root["t"] = s
	return xDot(xRoot(), "t")
}

// C09
func runKinOrder(c *Ctx, i int) {
	g := newGen(c)
	l := g.kin(8)
	p := newProber(c, g, candidates(strVals(l)), map[string]V{})
	T := g.kinExpr(p, pick(g, l))
	for _, op := range []string{"<", "<=", ">", ">="} {
		p.filter(xBin(op, atV, T))
	}
}

var roundPool = []float64{0.1, 0.2, 0.3, 0.7, 1e16, 1<<53 - 1, 1 << 53, 1<<53 + 2, -(1<<53 + 2), 1e308, -1e308, 5e-324, 1e-308, 3, 7, -2, 0.5, 1.0 / 3, 1e22, 1e21, 123456789.125, 4503599627370497.5, 0, 1, 1.0000000000000002, 0.9999999999999999, 49, 1e-7}

// chains of arithmetic on doubles, where any other grouping, order or kind of arithmetic rounds differently
func runArithChains(c *Ctx, i int) {
	g := newGen(c)
	var cands []V
	for k := 0; k < 5; k++ {
		cands = append(cands, map[string]V{"i": float64(k), "v": pick(g, roundPool), "w": pick(g, roundPool), "b": g.p(0.5)})
	}
	p := newProber(c, g, cands, map[string]V{})
	konst := func() *Expr {
		if g.p(0.6) {
			return xInt(int64(1 + g.n(10)))
		}
		if g.p(0.2) {
			return xInt(pick(g, []int64{1 << 53, 1<<53 - 1, 1 << 31, 1 << 22, 49, 1000003}))
		}
		return xReal(pick(g, []float64{0.1, 0.5, 1.5, 3, 0.7, 1e16, 2, 10, 0.2}))
	}
	operand := func() *Expr {
		switch g.n(8) {
		case 0, 1:
			return xDot(xAt(), "v")
		case 2:
			return xDot(xAt(), "w")
		case 3:
			return xDot(xAt(), "b")
		}
		return konst()
	}
	ops := []string{"+", "-", "*", "/", "%"}
	op := pick(g, ops)
	next := func() string {
		if g.p(0.5) {
			return op
		}
		return pick(g, ops)
	}
	e := xDot(xAt(), "v")
	if g.p(0.3) {
		e = operand()
	}
	for k := 1 + g.n(4); k > 0; k-- {
		switch {
		case g.p(0.7):
			e = xBin(next(), e, konst())
		case g.p(0.5):
			e = xBin(next(), operand(), e)
		default:
			e = xBin(next(), e, xBin(next(), operand(), operand()))
		}
	}
	vs, ok, _ := p.values(e)
	p.filter(e)
	for k, v := range vs {
		if !ok[k] {
			continue
		}
		f, isF := v.(float64)
		switch {
		case isF && (math.IsNaN(f) || math.IsInf(f, 0)), v == nil, isNothing(v):
			p.filter(p.wrap(e))
			continue
		case isF && k < 3:
			// the neighbours tell a rounding
			p.filter(xBin("==", e, p.number(math.Nextafter(f, math.Inf(1)), "u")))
			p.filter(xBin("<", e, p.number(math.Nextafter(f, math.Inf(1)), "u")))
			p.filter(xBin(">", e, p.number(math.Nextafter(f, math.Inf(-1)), "u")))
		}
		if x := literal(v); x != nil {
			p.filter(xBin("==", e, x))
		}
		p.probe(e, 1)
	}
}

// number writes a double as a literal, or puts it in the document.
func (p *prober) number(f float64, name string) *Expr {
	if x := literal(f); x != nil && p.g.p(0.5) {
		return x
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return xReal(1)
	}
	p.root[name] = f
	return xDot(xRoot(), name)
}

// C08: equality of long strings, names, and long lists of them
func runKinEq(c *Ctx, i int) {
	g := newGen(c)
	l := g.kin(8)
	mk := func(s string) V {
		switch i % 5 {
		case 1:
			return []V{s}
		case 2:
			return map[string]V{s: 1.0, "k": 2.0}
		case 3:
			return map[string]V{"k": []V{s, s}}
		case 4:
			return []V{pick(g, l[:2]), s, 1.0}
		}
		return s
	}
	var cv []V
	for _, s := range l {
		cv = append(cv, mk(s))
	}
	p := newProber(c, g, candidates(cv), map[string]V{"t": mk(pick(g, l)), "l": []V{"no", mk(l[0]), mk(l[1]), mk(l[2])}})
	T := xDot(xRoot(), "t")
	if i%5 == 0 && g.p(0.6) {
		T = g.kinExpr(p, pick(g, l))
	}
	p.filter(xBin("==", atV, T))
	p.filter(xBin("!=", T, atV))
	p.filter(xBin("in", atV, xDot(xRoot(), "l")))
	p.filter(xBin("nin", atV, xArr(T)))
	p.filter(xBin("==", atV, atV))
}

// C08: long lists and large objects that differ at one place
func runKinLists(c *Ctx, i int) {
	g := newGen(c)
	size := pick(g, []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 3000})
	obj := g.p(0.4)
	elem := pick(g, []func(k int) V{
		func(k int) V { return float64(k) }, func(k int) V { return 1.0 }, func(k int) V { return "s" + strconv.Itoa(k) },
		func(k int) V { return k%2 == 0 }, func(k int) V { return nil }, func(k int) V { return []V{float64(k)} },
		func(k int) V { return map[string]V{"a": float64(k)} }, func(k int) V { return pick(g, pool[1:]) },
	})
	base := make([]V, size)
	for k := range base {
		base[k] = elem(k)
	}
	var cv []V
	for n := 0; n < 6; n++ {
		l := clone(base).([]V)
		j := pick(g, []int{0, size - 1, size / 2, g.n(size), g.n(size)})
		switch g.n(5) {
		case 0:
		case 1:
			l = l[:size-1]
		case 2:
			l = append(l, elem(size))
		case 3:
			l[j] = g.near(l[j])
		default:
			l[j] = pick(g, pool[1:])
		}
		var v V = l
		if obj {
			o := map[string]V{}
			for k, x := range l {
				o["m"+strconv.Itoa(k)] = x
			}
			if g.p(0.3) {
				x := o["m"+strconv.Itoa(j)]
				delete(o, "m"+strconv.Itoa(j))
				o["M"+strconv.Itoa(j)] = x
			}
			v = o
		}
		cv = append(cv, v)
	}
	p := newProber(c, g, candidates(cv), map[string]V{"t": clone(cv[0]), "l": []V{1.0, clone(cv[1]), "x"}})
	T := xDot(xRoot(), "t")
	p.filter(xBin("==", atV, T))
	p.filter(xBin("!=", T, atV))
	p.filter(xBin("in", atV, xDot(xRoot(), "l")))
}

// C11: string functions on long strings that differ little
func runKinFn(c *Ctx, i int) {
	g := newGen(c)
	l := g.kin(6)
	if len(l[0]) > 20000 && g.p(0.7) {
		l = g.kin(6)
	}
	var cv []V
	switch i % 4 {
	case 0:
		// each of them within others
		t := pick(g, l)
		r := []rune(t)
		a := pick(g, []int{0, 0, 1, len(r) / 2, g.n(len(r) + 1)})
		b := a + pick(g, []int{len(r) - a, len(r) - a, (len(r) - a) / 2, g.n(len(r) - a + 1)})
		t = string(r[a:b])
		p := newProber(c, g, candidates(strVals(l)), nil)
		p.same = true
		T := g.kinExpr(p, t)
		for _, fn := range []string{"contains", "starts_with", "ends_with"} {
			p.filter(xCall(fn, atV, T))
		}
		p.probe(xCall("length", atV), 1)
		return
	case 1:
		for k := 0; k < 5; k++ {
			m := append([]string(nil), l...)
			g.R.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
			cv = append(cv, strVals(m[:1+g.n(len(m))]))
		}
		p := newProber(c, g, candidates(cv), nil)
		p.same = true
		T := g.kinExpr(p, pick(g, l))
		p.filter(xBin("==", xCall("max", atV), T))
		p.filter(xBin("==", xCall("min", atV), T))
		p.filter(xCall("contains", atV, T))
		var lits []*Expr
		for _, s := range l[:2+g.n(4)] {
			lits = append(lits, xStr(s))
		}
		p.filter(xBin("==", xCall(pick(g, []string{"max", "min"}), lits...), T))
	case 2:
		for k := 0; k < 5; k++ {
			o := map[string]V{}
			for _, s := range l {
				if g.p(0.7) {
					o[s] = 1.0
				}
			}
			cv = append(cv, o)
		}
		p := newProber(c, g, candidates(cv), nil)
		p.same = true
		s := append([]string(nil), l...)
		sort.Strings(s)
		p.filter(xBin("==", xIdx(xCall("keys", atV), xInt(0)), g.kinExpr(p, s[0])))
		p.filter(xBin("==", xIdx(xCall("keys", atV), xNeg(xInt(1))), g.kinExpr(p, s[len(s)-1])))
		p.probe(xCall("keys", atV), 2)
	default:
		// split at a separator that also nearly occurs
		sep := l[0]
		if len(sep) > 300 {
			sep = string([]rune(sep)[:40])
		}
		for k := 0; k < 5; k++ {
			var parts []string
			for j := g.n(5); j >= 0; j-- {
				parts = append(parts, pick(g, []string{"", "p", "qq", l[1], l[2]}))
			}
			cv = append(cv, strings.Join(parts, sep))
		}
		p := newProber(c, g, candidates(cv), nil)
		p.same = true
		quoted := sep
		for _, ch := range `\.[]*+?(){}|^$` {
			quoted = strings.ReplaceAll(quoted, string(ch), "\\"+string(ch))
		}
		p.probe(xCall("length", xCall("tokenize", atV, g.kinExpr(p, quoted))), 1)
		p.probe(xCall("tokenize", atV, xStr(quoted)), 1)
	}
}

// C03, C13, C21: names and computed keys that are long and nearly the same
func runKinNames(c *Ctx, i int) {
	g := newGen(c)
	l := g.kin(6)
	obj := map[string]V{}
	for k, s := range l {
		obj[s] = "member " + strconv.Itoa(k)
	}
	if g.p(0.5) {
		delete(obj, pick(g, l))
	}
	doc := map[string]V{"o": obj, "k": strVals(l)}
	get := func(s string) []V {
		if v, ok := obj[s]; ok {
			return []V{v}
		}
		return nil
	}
	lay := &Layout{R: g.R}
	var all []V
	u := &Step{K: SElems}
	for _, s := range l {
		u.L = append(u.L, lStr(s))
		all = append(all, get(s)...)
	}
	c.expect(Path{sName("o"), u}.Text(lay), doc, all...)
	for k, s := range l[:3] {
		c.expect(Path{sName("o"), sElems(lStr(s))}.Text(lay), doc, get(s)...)
		c.expect(Path{sName("o"), sExpr(xStr(s))}.Text(lay), doc, get(s)...)
		c.expect(Path{sName("o"), sExpr(xIdx(xDot(xRoot(), "k"), xInt(int64(k))))}.Text(lay), doc, get(s)...)
		var has []V
		if v, ok := obj[s]; ok {
			has = []V{v}
		}
		c.expect(Path{nest(sElems(lStr(s)))}.Text(lay), doc, has...)
		var f []V
		if len(has) > 0 {
			f = []V{V(obj)}
		}
		c.expect(Path{sFilter(xBin("==", xIdx(xAt(), xStr(s)), xStr("member "+strconv.Itoa(lastOf(l, s)))))}.Text(lay), doc, f...)
	}
}

func lastOf(l []string, s string) int {
	k := -1
	for i := range l {
		if l[i] == s {
			k = i
		}
	}
	return k
}
