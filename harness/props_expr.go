package main

import (
	"math"
	"strconv"
	"strings"
)

// Expressions are observed through filters: for an expression e, predicates built on it
// decide whether each of several candidates is kept. The wrapper predicates compare a
// context of e (its value, its length, its integer halves, ...) with the value the model
// computes for one of the candidates, so a wrong value or kind shows as a wrong choice.

type prober struct {
	c     *Ctx
	g     *Gen
	cands []V // candidates, each an object
	root  map[string]V
	mode  int
	same  bool // also check that the document is unchanged
}

func newProber(c *Ctx, g *Gen, cands []V, root map[string]V) *prober {
	if root == nil {
		root = map[string]V{}
	}
	root["x"] = cands
	return &prober{c: c, g: g, cands: cands, root: root, mode: mBag}
}

// with evaluates e for each candidate; ok[i] tells if the value is specified.
func (p *prober) values(e *Expr) (vals []V, ok []bool, errs int) {
	for _, at := range p.cands {
		v, err, sk := EvalExpr(e, at, p.root)
		if err != "" {
			errs++
		}
		ok = append(ok, err == "" && sk == "")
		vals = append(vals, v)
	}
	return
}

// literal writes a value as a literal expression, if there is one.
func literal(v V) *Expr {
	switch v := v.(type) {
	case nil:
		return xNull()
	case bool:
		return xBool(v)
	case int64:
		if v == math.MinInt64 {
			return nil
		}
		return xInt(v)
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) || math.Signbit(v) && v == 0 {
			return nil
		}
		return xReal(v)
	case string:
		return xStr(v)
	case []V:
		if len(v) > 2000 {
			return nil
		}
		k := make([]*Expr, len(v))
		for i, x := range v {
			if k[i] = literal(x); k[i] == nil {
				return nil
			}
		}
		return xArr(k...)
	}
	return nil
}

// docValue is the value a document can hold for v, if any.
func docValue(v V) (V, bool) {
	switch v := v.(type) {
	case nothingT, *reV:
		return nil, false
	case int64:
		if v > maxExact || v < -maxExact {
			return nil, false
		}
		return float64(v), true
	case float64:
		return v, !math.IsNaN(v) && !math.IsInf(v, 0)
	case []V:
		a := make([]V, len(v))
		for i, x := range v {
			y, ok := docValue(x)
			if !ok {
				return nil, false
			}
			a[i] = y
		}
		return a, true
	}
	return v, true
}

func contexts(e *Expr) []*Expr {
	return []*Expr{
		e, e, e, e,
		xBin("/", xBin("+", xBin("*", e, xInt(2)), xInt(1)), xInt(2)),
		xDot(e, "length"),
		xBin("+", e, xInt(0)),
		xArr(e),
		xNot(e),
		xIdx(e, xInt(0)),
		xIdx(e, xInt(-1)),
		xNeg(e),
		xBin("||", e, xStr("none")),
		xBin("&&", e, xStr("some")),
		xBin("<", e, xStr("\U0010ffff")),
		xBin("<", e, xInt(1<<62)),
		xBin("in", e, xArr(xNull())),
	}
}

// fits copies d for use in the document, unless it is large.
func fits(d V) (V, bool) {
	if isContainer(d) {
		if sizeUpTo(d, 4000) >= 4000 {
			return nil, false
		}
		return clone(d), true
	}
	return d, true
}

// sizeUpTo counts the values in d, giving up at limit.
func sizeUpTo(d V, limit int) int {
	n := 1
	switch d := d.(type) {
	case []V:
		for _, x := range d {
			if n >= limit {
				break
			}
			n += sizeUpTo(x, limit-n)
		}
	case map[string]V:
		for _, x := range d {
			if n >= limit {
				break
			}
			n += sizeUpTo(x, limit-n)
		}
	}
	return n
}

// probe checks e in n random ways (as well as its own truth) and returns how many were decided.
func (p *prober) probe(e *Expr, n int) int {
	done := p.filter(e)
	for k := 0; k < n; k++ {
		w := pick(p.g, contexts(e))
		done += p.filter(p.wrap(w))
	}
	return done
}

// wrap makes a predicate telling the value of w at one of the candidates from others.
func (p *prober) wrap(w *Expr) *Expr {
	vals, ok, _ := p.values(w)
	var known []V
	for i := range vals {
		if ok[i] {
			known = append(known, vals[i])
		}
	}
	if len(known) == 0 {
		return w
	}
	v := pick(p.g, known)
	var k *Expr
	d, isDoc := docValue(v)
	if isDoc {
		d, isDoc = fits(d)
	}
	if isDoc && p.g.p(0.4) {
		p.root["k"] = d
		k = xDot(xRoot(), "k")
	} else {
		k = literal(v)
	}
	if k == nil && isDoc {
		p.root["k"] = d
		k = xDot(xRoot(), "k")
	}
	if k == nil {
		if isNothing(v) {
			switch p.g.n(3) {
			case 0:
				return xBin("==", w, xNull())
			case 1:
				return xBin("in", w, xArr(xNull(), xBool(false), xInt(0)))
			}
			return xBin("||", w, xBool(true))
		}
		return w
	}
	switch p.g.n(12) {
	case 0, 1, 2:
		return xBin("==", w, k)
	case 3:
		return xBin("==", k, w)
	case 4:
		return xBin("!=", w, k)
	case 5:
		return xBin("in", w, xArr(k))
	case 6:
		return xBin("nin", w, xArr(k))
	case 7:
		return xBin("<", w, k)
	case 8:
		return xBin("<=", w, k)
	case 9:
		return xBin(">", w, k)
	case 10:
		return xBin("==", xArr(w), xArr(k))
	}
	return xBin(">=", w, k)
}

// filter checks $.x[?(e)] over the candidates for which e is specified.
func (p *prober) filter(e *Expr) int {
	return p.filterText(e, nil)
}

func (p *prober) filterText(e *Expr, lay *Layout) int {
	var keep []V
	for _, at := range p.cands {
		_, err, sk := EvalExpr(e, at, p.root)
		if sk != "" || err != "" && p.mode&mErr == 0 {
			continue
		}
		keep = append(keep, at)
	}
	if len(keep) == 0 {
		p.c.Count("unspecified, dropped", 1)
		return 0
	}
	root := map[string]V{}
	for k, v := range p.root {
		root[k] = v
	}
	root["x"] = keep
	path := Path{sName("x"), sFilter(e)}
	if lay == nil {
		lay = p.g.layout()
	}
	text := path.Text(lay)
	var before string
	if p.same {
		before = canon(root)
	}
	out := p.c.checkText(path, text, root, p.mode)
	if p.same {
		if after := canon(root); after != before {
			p.c.Violate("evaluating %s changed the document from %s to %s", cut(text, 1000), cut(before, 1000), cut(after, 1000))
		}
	}
	if !out.decided(p.mode) {
		return 0
	}
	p.c.note(text, root, true)
	p.c.Count("expression values judged", len(keep))
	if out.Err == "" {
		p.c.Count("candidates kept", out.Sel.N)
	} else {
		p.c.Count("required failures observed", 1)
	}
	return 1
}

// candidates wraps values as {"v": value, "i": index}.
func candidates(vals []V) []V {
	l := make([]V, len(vals))
	for i, v := range vals {
		o := map[string]V{"i": float64(i)}
		if !isNothing(v) {
			o["v"] = v
		}
		l[i] = o
	}
	return l
}

var atV = xDot(xAt(), "v")

// value pool for pairwise checks
func poolValues() []V {
	deep := V("x")
	for i := 0; i < 5; i++ {
		deep = []V{deep}
	}
	return []V{
		nothing, nil, true, false,
		0.0, math.Copysign(0, -1), 1.0, -1.0, 2.0, 0.5, 1.5, 42.0, -42.0, 42.5, 1e21, 1e-7, 123456789012.0, 4194304.0, 9007199254740992.0, 1e300, 0.1, 3.0, 10.0, -0.5, 100.0,
		"", "0", "1", "-1", "2", "42", "42.0", "42.5", "0.5", "1.5", "1e21", "1e-7", "true", "false", "null", "a", "b", "ab", "abc", "A", " ", "x", "é", "日本", "😀", "[object Object]", "undefined", "-", "1a", "a1", "00", "1.0", "+1", "1.", ".5", "1e3", "1000", "\u00e9", "e\u0301", "\uffff", "a,b", "123456789012",
		[]V{}, []V{nil}, []V{true}, []V{false}, []V{0.0}, []V{1.0}, []V{"1"}, []V{""}, []V{"a"}, []V{"true"}, []V{42.0}, []V{"42"}, []V{[]V{}}, []V{[]V{1.0}}, []V{map[string]V{}}, []V{1.0, 2.0}, []V{"1", "2"}, []V{2.0, 1.0}, []V{1.0, 2.0, 3.0}, []V{nil, nil}, []V{"a", "b"}, []V{[]V{1.0}, []V{2.0}}, []V{true, false}, []V{1.0, 0.0}, []V{0.5}, []V{1e21}, []V{42.5}, deep,
		map[string]V{}, map[string]V{"a": 1.0}, map[string]V{"a": "1"}, map[string]V{"a": true}, map[string]V{"b": 1.0}, map[string]V{"a": nil}, map[string]V{"a": 1.0, "b": 2.0}, map[string]V{"a": 1.0, "c": 2.0}, map[string]V{"b": 1.0, "a": 2.0}, map[string]V{"a": map[string]V{"b": []V{1.0}}}, map[string]V{"a": map[string]V{"b": []V{"1"}}}, map[string]V{"a": map[string]V{"b": []V{2.0}}}, map[string]V{"": 0.0}, map[string]V{"length": 1.0}, map[string]V{"a": []V{}}, map[string]V{"a": ""}, map[string]V{"0": "a"}, map[string]V{"b": nil}, map[string]V{"a": nil, "b": 1.0},
	}
}

var pool = poolValues()

// litPool are literal expressions, including integers (which no document holds).
var litPool = func() []*Expr {
	l := []*Expr{}
	for _, v := range pool {
		if isNothing(v) {
			l = append(l, xDot(xRoot(), "nosuch"))
			continue
		}
		if e := literal(v); e != nil {
			l = append(l, e)
		}
	}
	for _, n := range []int64{0, 1, -1, 2, 3, 7, 10, 42, -42, 100, 1 << 22, 1<<22 - 1, -(1 << 22), -(1<<22 + 1), 1 << 31, 1 << 52, 123456789012} {
		l = append(l, xInt(n))
	}
	// numbers no document holds: NaN and the infinities
	l = append(l, nonFinite...)
	return append(l, xArr(xInt(1)), xArr(xInt(42)), xArr(xInt(1), xInt(2)), xArr(xDot(xRoot(), "nosuch")))
}()

// jumble makes a structured value and a second one equal to it or differing slightly.
func (g *Gen) jumble() (V, V) {
	g.budget = 12
	if g.p(0.1) {
		g.budget = 200
	}
	g.setNames()
	a := g.value(4)
	if g.p(0.7) {
		for k := 0; k < 5 && !isContainer(a); k++ {
			a = g.value(4)
		}
	}
	return a, g.near(a)
}

// near copies v with zero, one or two small changes somewhere inside.
func (g *Gen) near(v V) V {
	v = clone(v)
	for k := g.n(3); k > 0; k-- {
		v = g.tweak(v)
	}
	return v
}

func (g *Gen) tweak(v V) V {
	switch x := v.(type) {
	case []V:
		if len(x) > 0 && g.p(0.75) {
			i := g.n(len(x))
			if g.p(0.3) {
				i = len(x) - 1
			}
			x[i] = g.tweak(x[i])
			return x
		}
		switch g.n(4) {
		case 0:
			return append(x, g.scalar())
		case 1:
			if len(x) > 0 {
				return x[:len(x)-1]
			}
		case 2:
			if len(x) > 1 {
				i, j := g.n(len(x)), g.n(len(x))
				x[i], x[j] = x[j], x[i]
				return x
			}
		}
		if len(x) == 1 {
			return x[0]
		}
		return x
	case map[string]V:
		if len(x) > 0 && g.p(0.75) {
			k := pick(g, sortedKeys(x))
			x[k] = g.tweak(x[k])
			return x
		}
		if len(x) > 0 && g.p(0.6) {
			// rename a member
			k := pick(g, sortedKeys(x))
			w := x[k]
			delete(x, k)
			if g.p(0.7) {
				x[g.anyName()] = w
			}
			return x
		}
		x[g.anyName()] = g.scalar()
		return x
	case float64:
		switch g.n(6) {
		case 0:
			return strconv.FormatFloat(x, 'f', -1, 64)
		case 1:
			return x + 1
		case 2:
			if x == 1 || x == 0 {
				return x == 1
			}
			return -x
		case 3:
			return []V{x}
		case 4:
			return nil
		}
		return x
	case string:
		switch g.n(5) {
		case 0:
			return x + "a"
		case 1:
			if f, err := strconv.ParseFloat(x, 64); err == nil && !math.IsInf(f, 0) && !math.IsNaN(f) {
				return f
			}
			return strings.ToUpper(x)
		case 2:
			return []V{x}
		case 3:
			return ""
		}
		return x
	case bool:
		switch g.n(4) {
		case 0:
			return !x
		case 1:
			return map[bool]float64{true: 1, false: 0}[x]
		case 2:
			return strconv.FormatBool(x)
		}
		return x
	case nil:
		return pick(g, []V{nil, false, 0.0, "", "null", []V{}, []V{nil}})
	}
	return v
}

// C08

func runEqPairs(c *Ctx, i int) {
	// i: one pool value (as document value or literal) against all others
	g := newGen(c)
	form := i / (len(pool) + len(litPool))
	k := i % (len(pool) + len(litPool))
	root := map[string]V{}
	var a *Expr
	if k < len(pool) {
		a = xDot(xRoot(), "k")
		if !isNothing(pool[k]) {
			root["k"] = pool[k]
		}
	} else {
		a = litPool[k-len(pool)]
	}
	p := newProber(c, g, candidates(pool), root)
	lay := &Layout{}
	var es []*Expr
	switch form {
	case 0:
		es = []*Expr{xBin("==", a, atV), xBin("==", atV, a), xBin("!=", a, atV), xBin("!=", atV, a),
			xBin("in", a, xArr(atV)), xBin("nin", a, xArr(atV)), xBin("in", atV, xArr(xStr("zz"), a)), xBin("nin", atV, xArr(a, xInt(77))),
			xBin("==", xArr(a), xArr(atV)), xBin("==", xArr(xInt(5), a), xArr(xInt(5), atV)), xBin("==", xArr(a), atV), xBin("==", atV, xArr(a)), xBin("==", xArr(atV), a)}
		for _, e := range es {
			p.filterText(e, lay)
		}
	case 1:
		// literal against literal
		for _, b := range litPool {
			q := newProber(c, g, candidates([]V{1.0}), root)
			q.filterText(xBin("==", a, b), lay)
			q.filterText(xBin("!=", b, a), lay)
		}
	}
}

func runEqNested(c *Ctx, i int) {
	g := newGen(c)
	n := 1 + g.n(6)
	var cands []V
	for k := 0; k < n; k++ {
		a, b := g.jumble()
		if g.p(0.1) {
			// long or deep
			switch g.n(3) {
			case 0:
				l := make([]V, pick(g, []int{10, 65, 300, 1100}))
				for j := range l {
					l[j] = float64(j)
				}
				a, b = l, clone(l)
				if g.p(0.6) {
					b = g.tweak(b)
				}
				if g.p(0.3) {
					bl := clone(l).([]V)
					bl[len(bl)-1] = pick(g, []V{strconv.Itoa(len(bl) - 1), "no", nil})
					b = bl
				}
			case 1:
				o := map[string]V{}
				for j := pick(g, []int{9, 20, 70, 300}); j > 0; j-- {
					o["m"+strconv.Itoa(j)] = float64(j)
				}
				a, b = o, clone(o)
				if g.p(0.7) {
					b = g.tweak(b)
				}
			default:
				d := pick(g, []int{10, 40, 150, 700})
				a = g.deepDoc(d)
				b = clone(a)
				if g.p(0.5) {
					// change the innermost value
					cur := b
				down:
					for {
						switch x := cur.(type) {
						case []V:
							for j := range x {
								if isContainer(x[j]) {
									cur = x[j]
									continue down
								}
							}
							x[0] = "changed"
						case map[string]V:
							if isContainer(x["a"]) {
								cur = x["a"]
								continue down
							}
							x["a"] = "changed"
						}
						break
					}
				}
			}
		}
		cands = append(cands, map[string]V{"a": a, "b": b, "i": float64(k), "l": []V{g.near(a), g.scalar(), b, g.near(b)}})
	}
	p := newProber(c, g, cands, map[string]V{"q": []V{1.0, "1", nil, []V{1.0}}})
	A, B, L := xDot(xAt(), "a"), xDot(xAt(), "b"), xDot(xAt(), "l")
	for _, e := range []*Expr{xBin("==", A, B), xBin("==", B, A), xBin("!=", A, B), xBin("in", A, L), xBin("nin", B, L), xBin("==", xArr(A, B), xArr(B, A)), xBin("==", L, xArr(A, xNull(), B, A)), xBin("in", xIdx(A, xInt(0)), B), xBin("==", A, A)} {
		if e.S == "in" && e.Kids[0].K == EIdx && g.p(0.9) {
			continue
		}
		p.filter(e)
	}
}

func runIn(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{0, 1, 2, 3, 5, 8, 20, 100, 1000})
	l := make([]V, n)
	for k := range l {
		if g.p(0.5) || n > 20 {
			l[k] = "filler" + strconv.Itoa(k)
		} else {
			l[k] = pick(g, pool[1:])
		}
	}
	var cv []V
	for k := 0; k < 12; k++ {
		if n > 0 && g.p(0.4) {
			cv = append(cv, g.near(pick(g, l)))
		} else {
			cv = append(cv, pick(g, pool))
		}
	}
	if n > 0 && g.p(0.5) {
		l[pick(g, []int{0, n - 1, n / 2})] = pick(g, pool[1:])
	}
	p := newProber(c, g, candidates(cv), map[string]V{"l": l})
	op := pick(g, []string{"in", "nin"})
	p.filter(xBin(op, atV, xDot(xRoot(), "l")))
	if e := literal(l); e != nil {
		p.filter(xBin(op, atV, e))
	}
	p.filter(xBin(op, g.atom(kNum), xDot(xRoot(), "l")))
}

// C09

var arithOps = []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">="}

func runArithPairs(c *Ctx, i int) {
	g := newGen(c)
	k := i % (len(pool) + len(litPool))
	op := arithOps[i/(len(pool)+len(litPool))]
	root := map[string]V{}
	var a *Expr
	if k < len(pool) {
		a = xDot(xRoot(), "a")
		if !isNothing(pool[k]) {
			root["a"] = pool[k]
		}
	} else {
		a = litPool[k-len(pool)]
	}
	p := newProber(c, g, candidates(pool), root)
	p.probe(xBin(op, a, atV), 3)
	p.probe(xBin(op, atV, a), 3)
	if op == "-" {
		p.probe(xNeg(a), 2)
		p.probe(xNeg(atV), 2)
	}
	// literals on both sides
	q := newProber(c, g, candidates([]V{1.0}), root)
	for n := 0; n < 6; n++ {
		q.probe(xBin(op, a, pick(g, litPool)), 2)
	}
}

var edgeInts = []int64{0, 1, 2, 3, 7, 10, 255, 256, 1<<16 - 1, 1 << 16, 1<<22 - 1, 1 << 22, 1<<22 + 1, 1<<23 - 1, 1 << 23, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<52 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 - 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}

func (g *Gen) edgeInt() int64 {
	var n int64
	if g.p(0.5) {
		n = pick(g, edgeInts)
	} else {
		n = int64(g.n(20))
	}
	if g.p(0.4) {
		n = -n
	}
	return n
}

func runArithInts(c *Ctx, i int) {
	g := newGen(c)
	op := pick(g, arithOps)
	var cv []V
	for k := 0; k < 6; k++ {
		cv = append(cv, float64(g.edgeInt()))
	}
	p := newProber(c, g, candidates(cv), nil)
	e := xBin(op, xInt(g.edgeInt()), xInt(g.edgeInt()))
	if g.p(0.3) {
		e = xBin(pick(g, arithOps[:5]), e, xInt(g.edgeInt()))
	}
	p.probe(e, 4)
	p.probe(xBin(op, xInt(g.edgeInt()), atV), 3)
	p.probe(xBin(op, atV, xInt(g.edgeInt())), 3)
}

func runStrings(c *Ctx, i int) {
	g := newGen(c)
	var cv []V
	s := g.strv()
	for k := 0; k < 10; k++ {
		t := g.strv()
		switch g.n(6) {
		case 0:
			t = s + t
		case 1:
			t = s
		case 2:
			r := []rune(s)
			if len(r) > 0 {
				j := g.n(len(r))
				r[j] = pick(g, []rune{'a', 'Z', 'é', 0xffff, 0x10000, 0x1f600, 0xe000, 0xfffd, 0x7f, '0'})
				t = string(r)
			}
		case 3:
			r := []rune(s)
			t = string(r[:g.n(len(r)+1)])
		case 4:
			t = strings.Repeat(s, 1+g.n(100))
		}
		cv = append(cv, t)
	}
	p := newProber(c, g, candidates(cv), map[string]V{"s": s})
	for _, op := range []string{"<", "<=", ">", ">="} {
		p.filter(xBin(op, xStr(s), atV))
		p.filter(xBin(op, atV, xDot(xRoot(), "s")))
	}
}

func runArithRandom(c *Ctx, i int) {
	g := newGen(c)
	cands := g.records(6)
	p := newProber(c, g, cands, map[string]V{"n": 3.0, "s": "text", "l": []V{1.0, 2.0}})
	g.root, g.ats = p.root, cands
	g.noRegex, g.noCalls = true, true
	e := xBin(pick(g, arithOps), g.expr(kNum, 2), g.expr(kNum, 2))
	if g.p(0.2) {
		e = xNeg(e)
		if vals, ok, _ := p.values(e); len(vals) == 0 || !ok[0] {
			return
		}
	}
	p.probe(e, 4)
}

// records makes n objects with similar members.
func (g *Gen) records(n int) []V {
	g.setNames()
	l := make([]V, n)
	for i := range l {
		g.budget = 12
		o := map[string]V{}
		for _, k := range g.names {
			if g.p(0.8) {
				o[k] = g.value(2)
			}
		}
		if g.p(0.3) {
			l[i] = g.value(2)
			continue
		}
		l[i] = o
	}
	return l
}

// C10

func runSelectAll(c *Ctx, i int) {
	// every pool value by every kind of key
	g := newGen(c)
	p := newProber(c, g, candidates(pool), map[string]V{"nil": nil, "o": map[string]V{"a": 1.0}})
	keys := []*Expr{xInt(0), xInt(1), xInt(-1), xInt(-2), xInt(2), xInt(5), xInt(-9), xInt(math.MaxInt64), xInt(-math.MaxInt64), xInt(1 << 32), xInt(-(1 << 32)), xReal(0), xReal(1), xNeg(xReal(1)), xStr("a"), xStr("b"), xStr("0"), xStr(""), xStr("length"), xStr("nosuch"), xDot(xRoot(), "nosuch"), xNull(), xArr(), xDot(xRoot(), "o"), xDot(atV, "length"), xBin("-", xDot(atV, "length"), xInt(1)), xNeg(xDot(atV, "length"))}
	names := []string{"a", "b", "length", "nosuch", "x", "c"}
	var e *Expr
	if i < len(keys) {
		e = xIdx(atV, keys[i])
	} else {
		e = xDot(atV, names[i-len(keys)])
	}
	for k := 0; k < 12; k++ {
		p.probe(e, 4)
		p.probe(xDot(e, "a"), 2)
		p.probe(xIdx(e, xInt(0)), 2)
		p.probe(xDot(e, "length"), 2)
	}
}

const nSelectAll = 27 + 6

func runLogicPairs(c *Ctx, i int) {
	g := newGen(c)
	k := i % (len(pool) + len(litPool))
	root := map[string]V{}
	var a *Expr
	if k < len(pool) {
		a = xDot(xRoot(), "a")
		if !isNothing(pool[k]) {
			root["a"] = pool[k]
		}
	} else {
		a = litPool[k-len(pool)]
	}
	p := newProber(c, g, candidates(pool), root)
	for _, op := range []string{"||", "&&"} {
		p.probe(xBin(op, a, atV), 4)
		p.probe(xBin(op, atV, a), 4)
		p.probe(xBin(op, xBin(op, a, atV), xStr("t")), 2)
	}
	p.probe(xNot(a), 1)
	p.probe(xNot(atV), 1)
	p.probe(xNot(xNot(atV)), 1)
	p.probe(a, 3)
	p.probe(atV, 3)
}

func runMissing(c *Ctx, i int) {
	g := newGen(c)
	g.missP = 0.45
	cands := g.records(6)
	p := newProber(c, g, cands, map[string]V{"n": 3.0, "s": "text", "l": []V{1.0, []V{2.0}}})
	g.root, g.ats = p.root, cands
	g.noRegex = true
	p.probe(g.expr(kAny, 3), 3)
	p.probe(xBin(pick(g, []string{"||", "&&"}), g.expr(kAny, 2), g.expr(kAny, 2)), 2)
	// chains of selections from what may be absent
	e := g.operand(kAny)
	for k := 1 + g.n(5); k > 0; k-- {
		if g.p(0.5) {
			e = xDot(e, pick(g, []string{g.identName(), "length", "a"}))
		} else {
			e = xIdx(e, pick(g, []*Expr{xInt(int64(g.n(5) - 2)), xStr(g.anyName())}))
		}
	}
	p.probe(e, 3)
}

func runLengths(c *Ctx, i int) {
	g := newGen(c)
	var cv []V
	for k := 0; k < 8; k++ {
		n := pick(g, []int{0, 1, 2, 3, 10, 127, 128, 255, 256, 257, 1000, 4096, 5000})
		switch g.n(3) {
		case 0:
			a := make([]V, n)
			for j := range a {
				a[j] = float64(j)
			}
			cv = append(cv, a)
		case 1:
			o := map[string]V{}
			for j := 0; j < n; j++ {
				o["k"+strconv.Itoa(j)] = float64(j)
			}
			cv = append(cv, o)
		default:
			cv = append(cv, strings.Repeat(pick(g, []string{"a", "é", "日", "😀", "aé", "e\u0301", "\x00", "\ufffd", "a日😀"}), n))
		}
	}
	p := newProber(c, g, candidates(cv), nil)
	p.probe(xDot(atV, "length"), 6)
	p.probe(xIdx(atV, xInt(pick(g, []int64{0, -1, 1, 127, 128, 254, 255, 256, 257, 999, 1000, -1000, -256, -257, 4095, 4096, 4999}))), 4)
	p.probe(xIdx(atV, xBin("-", xDot(atV, "length"), xInt(1))), 2)
	p.probe(xDot(atV, pick(g, []string{"k0", "k5", "k255", "k999"})), 2)
}

// runShortCircuit probes && and || with a failing operand that is not chosen (known finding K2).
func runShortCircuit(c *Ctx, i int) {
	for _, t := range []struct {
		key  string
		e    *Expr
		keep bool
	}{
		{"K2-and-match", xBin("&&", xBool(false), xBin("=~", xInt(1), xRe("x"))), false},
		{"K2-or-match", xBin("||", xBool(true), xBin("=~", xInt(1), xRe("x"))), true},
		{"K2-and-in", xBin("&&", xNull(), xBin("in", xInt(1), xInt(2))), false},
		{"K2-or-call", xBin("||", xInt(1), xCall("nosuch")), true},
	} {
		doc := []V{"a"}
		text := Path{sFilter(t.e)}.Text(nil)
		p := c.mustCompile(text)
		got, err := c.eval(p, text, doc)
		if err != nil {
			c.Finding(t.key)
		} else if (len(got) == 1) != t.keep {
			c.Violate("%s on %s gave %s", text, show(doc), show(got))
		}
		c.Eval(hash64(text), true)
	}
}

// runUnchosen: && and || with operands that fail, chosen or not: the outcome must be that specified or as K2 says.
func runUnchosen(c *Ctx, i int) {
	g := newGen(c)
	f := &errForms[i%len(errForms)]
	n := 1 + g.n(4)
	x := make([]V, n)
	for k := range x {
		o := clone(pick(g, f.good)).(map[string]V)
		if g.p(0.4) {
			o = clone(pick(g, f.bad)).(map[string]V)
		}
		o["i"] = pick(g, []V{0.0, 1.0, 2.0, true, false, nil, "", "s", []V{}})
		if g.p(0.2) {
			delete(o, "i")
		}
		x[k] = o
	}
	doc := map[string]V{"x": x}
	guard := func() *Expr {
		e := xDot(xAt(), "i")
		switch g.n(4) {
		case 0:
			return xBin(pick(g, []string{"==", "<", "!="}), e, xInt(int64(g.n(3))))
		case 1:
			return xNot(e)
		}
		return e
	}
	for k := 0; k < 4; k++ {
		e := xBin(pick(g, []string{"&&", "||"}), guard(), f.e)
		if g.p(0.2) {
			e.Kids[0], e.Kids[1] = e.Kids[1], e.Kids[0]
		}
		if g.p(0.4) {
			e = xBin(pick(g, []string{"&&", "||"}), guard(), e)
		}
		if g.p(0.2) {
			e = xNot(e)
		}
		p := Path{sName("x"), sFilter(e)}
		if g.p(0.3) {
			p = Path{nest(sFilter(e))}
		}
		text := p.Text(g.layout())
		if c.checkKnown(p, text, doc, mBag|mErr) {
			c.note(text, doc, true)
		}
	}
}

// C11

func runFnPool(c *Ctx, i int) {
	g := newGen(c)
	fn := fnNames[i%len(fnNames)]
	p := newProber(c, g, candidates(pool), map[string]V{"o": map[string]V{"b": 1.0, "a": 2.0, "c": 0.0}})
	p.same = true
	n := arity[fn]
	switch n {
	case 1:
		p.probe(xCall(fn, atV), 12)
		for _, l := range litPool {
			q := newProber(c, g, candidates([]V{1.0}), nil)
			q.probe(xCall(fn, l), 1)
		}
	case 2:
		for _, l := range litPool {
			p.probe(xCall(fn, atV, l), 1)
			p.probe(xCall(fn, l, atV), 1)
		}
	default:
		p.probe(xCall(fn), 2)
		p.probe(xCall(fn, atV), 12)
		for k := 0; k < 60; k++ {
			m := 2 + g.n(4)
			args := make([]*Expr, m)
			for j := range args {
				args[j] = pick(g, litPool)
				if g.p(0.3) {
					args[j] = atV
				}
			}
			p.probe(xCall(fn, args...), 1)
		}
	}
}

// numList makes a list of numbers (or strings), perhaps with one stranger.
func (g *Gen) homList() []V {
	n := pick(g, []int{0, 1, 2, 3, 4, 6, 10, 40, 300})
	l := make([]V, n)
	strs := g.p(0.3)
	scale, sign := 1.0, 0.0
	if g.p(0.4) {
		scale = math.Pow(10, float64(g.n(36)-6))
		sign = pick(g, []float64{-1, -1, 1, 0})
	}
	for k := range l {
		switch {
		case strs:
			l[k] = g.strv()
		case scale != 1:
			f := (1 + g.R.Float64()*pick(g, []float64{1e-6, 1, 100})) * scale
			if sign == 0 && g.p(0.5) || sign < 0 {
				f = -f
			}
			l[k] = f
		case g.p(0.7):
			l[k] = float64(g.n(100) - 50)
		default:
			l[k] = pick(g, numPool)
		}
	}
	if n > 0 && g.p(0.2) {
		l[pick(g, []int{0, n - 1, n / 2})] = pick(g, []V{nil, "x", 1.0, []V{}, map[string]V{}, "3"})
	}
	return l
}

func runFnLists(c *Ctx, i int) {
	g := newGen(c)
	var cv []V
	for k := 0; k < 6; k++ {
		cv = append(cv, g.homList())
	}
	p := newProber(c, g, candidates(cv), map[string]V{"w": "x"})
	p.same = true
	fn := pick(g, []string{"min", "max", "sum", "avg", "prod", "length", "contains", "keys"})
	var e *Expr
	switch fn {
	case "contains":
		e = xCall(fn, atV, pick(g, []*Expr{xStr("x"), xInt(int64(g.n(20))), xReal(2.5), xNull(), xDot(xRoot(), "w"), xIdx(atV, xInt(-1)), xIdx(atV, xInt(2)), xArr()}))
	default:
		e = xCall(fn, atV)
	}
	p.probe(e, 4)
	// the same through literals and argument lists
	l := g.homList()
	if len(l) > 30 {
		l = l[:30]
	}
	lits := make([]*Expr, len(l))
	for k := range l {
		lits[k] = literal(l[k])
		if lits[k] == nil {
			return
		}
		if f, ok := l[k].(float64); ok && f == math.Trunc(f) && math.Abs(f) < 1e15 && g.p(0.6) {
			lits[k] = xInt(int64(f))
		}
	}
	p.probe(xCall(pick(g, []string{"min", "max", "sum", "avg", "prod", "length"}), xArr(lits...)), 2)
	p.probe(xCall(pick(g, []string{"min", "max"}), lits...), 2)
	if len(lits) > 0 {
		// the same array again after use
		p.probe(xBin("==", xCall(fn, pick(g, []*Expr{atV, xArr(lits...)}), xInt(1)), xInt(1)), 0)
	}
}

func runFnStrings(c *Ctx, i int) {
	g := newGen(c)
	var cv []V
	for k := 0; k < 8; k++ {
		s := g.strv()
		for j := g.n(3); j > 0; j-- {
			s += pick(g, []string{"a", "b", ",", " ", "é", "😀", "ab", s})
			if len(s) > 5000 {
				break
			}
		}
		cv = append(cv, s)
	}
	t := g.strv()
	if g.p(0.6) {
		r := []rune(cv[0].(string))
		if len(r) > 0 {
			a := g.n(len(r))
			b := a + g.n(len(r)-a+1)
			switch g.n(3) {
			case 0:
				a = 0
			case 1:
				b = len(r)
			}
			t = string(r[a:b])
		}
	}
	p := newProber(c, g, candidates(cv), map[string]V{"t": t})
	p.same = true
	T := pick(g, []*Expr{xStr(t), xDot(xRoot(), "t")})
	fn := pick(g, []string{"contains", "starts_with", "ends_with", "tokenize", "to_number", "length"})
	switch fn {
	case "to_number", "length":
		p.probe(xCall(fn, atV), 4)
		p.probe(xCall(fn, xStr(pick(g, []string{"1", "1.5", "-2", "1e3", "abc", "0", "1.75e5", "12345678901", "+5", ".5", "5.", "1.5x", "--1", "00012", "1e-3"}))), 4)
	case "tokenize":
		pat := pick(g, patPool)
		p.probe(xCall(fn, atV, xStr(pat)), 4)
		p.probe(xIdx(xCall(fn, atV, xStr(pat)), xInt(int64(g.n(4)-2))), 3)
		p.probe(xCall("length", xCall(fn, atV, pick(g, []*Expr{xStr(pat), T}))), 2)
	default:
		p.probe(xCall(fn, atV, T), 2)
		p.probe(xCall(fn, T, atV), 1)
	}
}

func runFnNumbers(c *Ctx, i int) {
	g := newGen(c)
	var cv []V
	for k := 0; k < 10; k++ {
		f := pick(g, []float64{0.5, -0.5, 1.5, -1.5, 2.5, 1e15 + 0.5, -1e15 - 0.5, 0.49999999999999994, 1 << 53, 1e300, -1e-300, 0.999999999, -0.000001, 3, -3, 123456.789})
		if g.p(0.5) {
			f = (g.R.Float64() - 0.5) * math.Pow(10, float64(g.n(18)))
		}
		cv = append(cv, f)
	}
	p := newProber(c, g, candidates(cv), nil)
	fn := pick(g, []string{"abs", "ceil", "floor", "to_number"})
	p.probe(xCall(fn, atV), 4)
	p.probe(xCall(fn, xNeg(atV)), 2)
	p.probe(xCall(fn, xInt(g.edgeInt())), 3)
	p.probe(xCall(fn, xBin(pick(g, arithOps[:5]), atV, xInt(int64(1+g.n(9))))), 2)
}

func runFnKeys(c *Ctx, i int) {
	g := newGen(c)
	var cv []V
	for k := 0; k < 5; k++ {
		o := map[string]V{}
		for j := pick(g, []int{0, 1, 2, 3, 8, 9, 40, 300}); j > 0; j-- {
			n := g.strv() + strconv.Itoa(g.n(50))
			if g.p(0.3) {
				n = pick(g, oddNames)
			}
			o[n] = g.scalar()
		}
		cv = append(cv, o)
	}
	p := newProber(c, g, candidates(cv), map[string]V{"o": cv[0]})
	p.same = true
	p.probe(xCall("keys", atV), 3)
	p.probe(xCall("length", xCall("keys", atV)), 1)
	p.probe(xIdx(xCall("keys", atV), xInt(int64(g.n(5)-2))), 2)
	p.probe(xCall("contains", xCall("keys", atV), xStr(g.anyName())), 1)
	p.probe(xBin("==", xCall("keys", atV), xCall("keys", xDot(xRoot(), "o"))), 1)
}

func runFnNested(c *Ctx, i int) {
	g := newGen(c)
	cands := g.records(5)
	p := newProber(c, g, cands, map[string]V{"n": 3.0, "s": "text", "l": []V{1.0, 2.0, 7.5}, "o": map[string]V{"b": 1.0, "a": "x"}})
	p.same = true
	g.root, g.ats = p.root, cands
	fn := pick(g, fnNames)
	n := arity[fn]
	if n < 0 {
		n = g.n(5)
	}
	args := make([]*Expr, n)
	for k := range args {
		args[k] = g.expr(pick(g, []kind{kNum, kStr, kArr, kObj, kAny}), 2)
	}
	p.probe(xCall(fn, args...), 3)
}

// C07

type opSeq struct {
	operands []*Expr
	ops      []string
}

// build groups a flat sequence by the documented levels, left to right.
func (s opSeq) build() *Expr {
	if len(s.ops) == 0 {
		return s.operands[0]
	}
	// the last operator of the loosest level present splits the sequence
	best := 0
	for i, o := range s.ops {
		if prec[o] <= prec[s.ops[best]] {
			best = i
		}
	}
	l := opSeq{s.operands[:best+1], s.ops[:best]}
	r := opSeq{s.operands[best+1:], s.ops[best+1:]}
	return xBin(s.ops[best], l.build(), r.build())
}

// other groups the sequence in some other way: splitting at operator k.
func (s opSeq) other(g *Gen) *Expr {
	if len(s.ops) == 0 {
		return s.operands[0]
	}
	k := g.n(len(s.ops))
	l := opSeq{s.operands[:k+1], s.ops[:k]}
	r := opSeq{s.operands[k+1:], s.ops[k+1:]}
	return xBin(s.ops[k], l.other(g), r.other(g))
}

func (g *Gen) precOperand(op string, right bool) *Expr {
	if right && (op == "in" || op == "nin") {
		return pick(g, []*Expr{xArr(xInt(1), xInt(2), xBool(true)), xArr(xInt(0), xBool(false), xNull()), xArr(xInt(3), xStr("a")), xDot(xAt(), "l")})
	}
	if op == "~" || op == "=~" {
		if right {
			return pick(g, []*Expr{xRe("a"), xRe("b"), xStr("^a"), xDot(xAt(), "s")})
		}
		return pick(g, []*Expr{xStr("a"), xStr("b"), xDot(xAt(), "s")})
	}
	switch g.n(14) {
	case 0:
		return xDot(xAt(), "n")
	case 1:
		return xDot(xAt(), "m")
	case 2:
		return xBool(g.p(0.5))
	case 3:
		return pick(g, []*Expr{xStr("a"), xStr("1"), xStr("")})
	case 4:
		return xNull()
	case 5:
		return xReal(pick(g, []float64{0.5, 1.5, 2, 4}))
	case 6:
		return xNeg(pick(g, []*Expr{xInt(1), xDot(xAt(), "n"), xInt(3), xIdx(xDot(xAt(), "l"), xInt(0))}))
	case 7:
		return xNot(pick(g, []*Expr{xInt(0), xDot(xAt(), "n"), xBool(true), xDot(xAt(), "zz")}))
	case 8:
		return pick(g, []*Expr{xDot(xDot(xAt(), "l"), "length"), xIdx(xDot(xAt(), "l"), xInt(1)), xCall("abs", xNeg(xInt(2))), xNeg(xNeg(xInt(2))), xNot(xNot(xInt(2))), xNot(xNeg(xInt(0))), xCall("max", xInt(1), xBin("-", xInt(5), xInt(2)))})
	}
	return xInt(int64(pick(g, []int{0, 1, 2, 3, 4, 5, 7, 8, 9})))
}

func precCands() []V {
	return []V{
		map[string]V{"i": 0.0, "n": 2.0, "m": 3.0, "s": "a", "l": []V{1.0, 2.0, 3.0}},
		map[string]V{"i": 1.0, "n": 0.0, "m": -1.0, "s": "ab", "l": []V{0.0, true}},
		map[string]V{"i": 2.0, "n": 7.5, "m": 2.0, "s": "b", "l": []V{7.5, nil, "b"}},
	}
}

func runPrec(nOps int) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		g := newGen(c)
		k := i
		ops := make([]string, nOps)
		for j := range ops {
			if nOps <= 3 {
				ops[j] = allBinOps[k%len(allBinOps)]
				k /= len(allBinOps)
			} else {
				ops[j] = pick(g, allBinOps)
			}
		}
		p := newProber(c, g, precCands(), map[string]V{"n": 1.0})
		p.mode = mBag | mErr
		found := 0
		for try := 0; try < 40 && found < 3; try++ {
			operands := make([]*Expr, nOps+1)
			for j := range operands {
				op, right := "", false
				if j < nOps {
					op = ops[j]
				}
				if j > 0 && (j == nOps || g.p(0.5)) {
					op, right = ops[j-1], true
				}
				if j > 0 && (ops[j-1] == "in" || ops[j-1] == "nin") {
					op, right = ops[j-1], true
				}
				operands[j] = g.precOperand(op, right)
			}
			s := opSeq{operands, ops}
			e := s.build()
			vals, ok, errs := p.values(e)
			good := 0
			for j := range ok {
				if ok[j] {
					good++
				}
			}
			if good == 0 && (errs == 0 || try < 30) {
				continue
			}
			// prefer operands that tell other groupings apart
			tells := false
			for a := 0; a < 6 && !tells; a++ {
				ov, ook, _ := p.values(s.other(g))
				for j := range ok {
					if ok[j] && (!ook[j] || !sameValue(ov[j], vals[j])) {
						tells = true
					}
				}
			}
			if !tells && try < 25 && nOps > 1 {
				continue
			}
			if tells {
				c.Count("operand sets that tell groupings apart", 1)
			}
			found++
			plain := &Layout{}
			p.precCheck(e, plain)
			w := p.wrap(e)
			p.precCheck(w, plain)
			p.filterText(p.wrap(p.place(e)), plain)
			p.filterText(p.place(w), plain)
		}
	}
}

// place puts e where an expression may stand, in an expression with the value of e or one that depends on it.
func (p *prober) place(e *Expr) *Expr {
	g := p.g
	pad := func(n int) []*Expr {
		l := make([]*Expr, n)
		for k := range l {
			l[k] = pick(g, []*Expr{xInt(int64(k)), xStr("p"), xNull(), xBin("-", xInt(9), xInt(int64(k))), xNeg(xInt(2)), xBin("==", xInt(1), xInt(2)), xArr(xInt(1)), xDot(xAt(), "n")})
		}
		return l
	}
	n := pick(g, []int{0, 0, 1, 2, 3, 4, 7, 8, 15})
	l := append(append(pad(n), e), pad(g.n(4))...)
	switch g.n(6) {
	case 0, 1:
		return xIdx(xArr(l...), xInt(int64(n)))
	case 2:
		return xIdx(xArr(xInt(10), xInt(20), xStr("c"), xInt(40), xNull(), xInt(60)), e)
	case 3:
		return xCall("contains", xArr(pad(g.n(5))...), e)
	case 4:
		return xCall(pick(g, []string{"max", "min"}), append([]*Expr{xInt(0), xInt(int64(g.n(4)))}, append(make([]*Expr, 0, 1), e)...)...)
	}
	return xIdx(xIdx(xArr(xArr(l...)), xInt(0)), xInt(int64(n)))
}

func sameValue(a, b V) bool {
	in := newInterner()
	if x, ok := a.(int64); ok {
		y, ok := b.(int64)
		return ok && x == y
	}
	if isNothing(a) || isNothing(b) {
		return isNothing(a) && isNothing(b)
	}
	return in.id(a) == in.id(b)
}

// precCheck observes e written minimally, fully parenthesised, and laid out at random.
func (p *prober) precCheck(e *Expr, plain *Layout) {
	p.filterText(e, plain)
	p.filterText(e, &Layout{Full: true})
	p.filterText(e, &Layout{R: p.g.R, WS: 0.4})
	p.filterText(e, &Layout{R: p.g.R, WS: 0.2, Paren: 0.25})
}

func runPrecRandom(c *Ctx, i int) {
	g := newGen(c)
	cands := g.records(5)
	p := newProber(c, g, cands, map[string]V{"n": 3.0, "s": "text", "l": []V{1.0, 2.0}})
	p.mode = mBag | mErr
	g.root, g.ats = p.root, cands
	g.errP = 0.02
	e := g.expr(kAny, 3+g.n(3))
	p.precCheck(e, &Layout{})
	p.precCheck(p.wrap(e), &Layout{})
}

// runChains: long chains of one level, and deep nesting.
func runChains(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{5, 10, 31, 64, 100, 300, 1000})
	lv := pick(g, levels)
	if lv[0] == "<" {
		lv = []string{"<", "<=", ">", ">="}
	}
	p := newProber(c, g, precCands(), nil)
	p.mode = mBag | mErr
	var e *Expr
	switch i % 4 {
	case 0:
		// one level, left-deep
		e = g.precOperand("", false)
		for k := 0; k < n; k++ {
			e = xBin(pick(g, lv), e, pick(g, []*Expr{xInt(1), xInt(2), xInt(3), xReal(1.5), xDot(xAt(), "n"), xBool(true), xNull()}))
		}
	case 1:
		// right-deep: every right operand needs its parentheses
		e = g.precOperand("", false)
		for k := 0; k < n; k++ {
			e = xBin(pick(g, []string{"+", "-", "-", "-"}), xInt(int64(g.n(5))), e)
		}
	case 2:
		// mixed long sequence
		s := opSeq{operands: []*Expr{g.precOperand("", false)}}
		for k := 0; k < n; k++ {
			s.ops = append(s.ops, pick(g, []string{"+", "-", "*", "<", "==", "&&", "||", "-", "+", "%", "/"}))
			s.operands = append(s.operands, pick(g, []*Expr{xInt(1), xInt(2), xInt(3), xReal(2.5), xDot(xAt(), "n"), xDot(xAt(), "m"), xBool(true)}))
		}
		e = s.build()
	default:
		// unary towers
		e = pick(g, []*Expr{xDot(xAt(), "n"), xInt(3), xIdx(xDot(xAt(), "l"), xInt(0))})
		for k := 0; k < n; k++ {
			if g.p(0.5) && k < n-1 {
				e = xNeg(e)
			} else {
				e = xNeg(xNeg(e))
			}
		}
		e = xBin("-", xInt(10), e)
	}
	p.filterText(e, &Layout{})
	p.filterText(e, &Layout{Full: true})
	p.filterText(p.wrap(e), &Layout{R: g.R, WS: 0.1})
}

// runSame: long chains of one operator, with operands chosen so that grouping otherwise than
// from the left gives another value.
func runSame(c *Ctx, i int) {
	g := newGen(c)
	ns := []int{126, 127, 128, 129, 150, 199, 200, 201, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 700, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000}
	op := allBinOps[i%len(allBinOps)]
	k := i / len(allBinOps)
	n := 2 + k%(124+len(ns))
	if n >= 126 {
		n = ns[n-126]
	}
	p := newProber(c, g, precCands(), nil)
	p.mode = mBag | mErr
	var l []*Expr
	for j := 0; j <= n; j++ {
		var e *Expr
		switch op {
		case "+":
			// numbers, then strings: 1+2+'a' is '3a'
			e = pick(g, []*Expr{xInt(1), xInt(2), xDot(xAt(), "n")})
			if j > n/3+g.n(5) && g.p(0.05) {
				e = xStr(pick(g, []string{"a", "b"}))
			}
		case "-":
			e = pick(g, []*Expr{xInt(1), xInt(2), xInt(int64(g.n(100))), xDot(xAt(), "n"), xReal(0.5)})
		case "*":
			e = pick(g, []*Expr{xInt(1), xInt(1), xNeg(xInt(1)), xReal(1.5), xReal(0.75), xDot(xAt(), "m")})
		case "/":
			e = pick(g, []*Expr{xReal(1.5), xReal(0.5), xReal(2.0), xReal(1.25), xReal(0.8)})
			if j == 0 {
				e = xReal(1000.5)
			}
		case "%":
			e = xInt(int64(1 + g.n(7) + (n-j)%50))
			if j == 0 {
				e = xInt(1000003)
			}
		case "&&", "||":
			// the last of the values that decides
			e = pick(g, []*Expr{xDot(xAt(), "n"), xInt(int64(1 + g.n(9))), xStr("x"), xDot(xAt(), "s")})
			if op == "||" && !g.p(0.05) {
				e = pick(g, []*Expr{xInt(0), xBool(false), xNull(), xDot(xAt(), "none"), xStr("")})
			}
		case "==", "!=":
			e = pick(g, []*Expr{xBool(true), xBool(false), xInt(1), xBool(false), xEq01(g)})
		case "in", "nin":
			e = xArr(xBool(true), xInt(1))
			if g.p(0.5) {
				e = xArr(xBool(false))
			}
		case "~", "=~":
			e = pick(g, []*Expr{xStr("a"), xStr("true"), xStr("t"), xStr("f|a")})
		default:
			e = pick(g, []*Expr{xInt(0), xInt(1), xInt(-0), xBool(true), xBool(false), xReal(0.5)})
		}
		l = append(l, e)
	}
	e := l[0]
	for j := 1; j <= n; j++ {
		e = xBin(op, e, l[j])
	}
	c.Max("longest chain of one operator", n)
	p.filterText(e, &Layout{})
	p.filterText(e, &Layout{R: g.R, WS: 0.05})
	p.filterText(p.wrap(e), &Layout{})
	if n < 400 {
		p.filterText(p.wrap(e), &Layout{Full: true})
	}
	// the same operands, grouped from the right
	e = l[n]
	for j := n - 1; j >= 0; j-- {
		e = xBin(op, l[j], e)
	}
	p.filterText(e, &Layout{})
	p.filterText(p.wrap(e), &Layout{})
	// a run of the operator within others
	e = l[0]
	for j := 1; j <= n; j++ {
		o := op
		if j == n/2 {
			o = pick(g, []string{"+", "-", "*", "&&", "||", "=="})
		}
		e = xBin(o, e, l[j])
	}
	p.filterText(p.wrap(e), &Layout{})
}

func xEq01(g *Gen) *Expr { return xBin("==", xDot(xAt(), "n"), xInt(int64(g.n(3)))) }

func init() {
	np := len(pool) + len(litPool)
	register(&Prop{ID: "C07",
		Rule: "every sequence of two and of three binary operators (15 operators) with operands chosen so that other groupings give other values, longer random sequences, unary and postfix operands, chains to 1000 operators, chains of one operator of every length from 2 to 125 and others to 3000; each written minimally, fully parenthesised and with random white space and parentheses, and compared with a reference evaluation of the documented grouping; every decided filter evaluation is non-trivial",
		Phases: []Phase{
			{Name: "pairs", N: fixedN(15*15*4, 15*15*40), Run: runPrec(2)},
			{Name: "triples", N: fixedN(15*15*15, 15*15*15*12), Run: runPrec(3)},
			{Name: "longer", N: fixedN(1500, 40000), Run: func(c *Ctx, i int) { runPrec(4+i%4)(c, i) }},
			{Name: "random", N: fixedN(6000, 200000), Run: runPrecRandom},
			{Name: "chains", N: fixedN(400, 4000), Run: runChains},
			{Name: "same", N: fixedN(15*153, 15*153*12), Run: runSame},
			{Name: "scale", N: fixedN(32, 1000), Run: runScaleChain},
		}})
	register(&Prop{ID: "C08",
		Rule: "all pairs of a pool of values of every kind (as document values and literals, both ways round, ==, !=, in, nin, inside arrays), nested values against copies with small changes, long and deep structures, long lists; compared with a reference JavaScript equality; every decided filter evaluation is non-trivial",
		Phases: []Phase{
			{Name: "pairs", Fixed: true, N: fixedN(2*np, 2*np), Run: runEqPairs},
			{Name: "nested", N: fixedN(8000, 250000), Run: runEqNested},
			{Name: "in", N: fixedN(6000, 150000), Run: runIn},
			{Name: "long strings", N: fixedN(1000, 30000), Run: runKinEq},
			{Name: "long lists", N: fixedN(1000, 30000), Run: runKinLists},
			{Name: "scale", N: fixedN(40, 1200), Run: runScaleEq},
		}})
	register(&Prop{ID: "C09",
		Rule: "all nine operators on all pairs of a pool of values of every kind (document values, integer and real literals), integer boundaries, string order, random nested arithmetic; values read back through comparison, membership, integer-division and length contexts; every decided filter evaluation is non-trivial",
		Phases: []Phase{
			{Name: "pairs", N: fixedN(len(arithOps)*np, 4*len(arithOps)*np), Run: func(c *Ctx, i int) { runArithPairs(c, i%(len(arithOps)*(len(pool)+len(litPool)))) }},
			{Name: "ints", N: fixedN(8000, 200000), Run: runArithInts},
			{Name: "strings", N: fixedN(4000, 80000), Run: runStrings},
			{Name: "long strings", N: fixedN(1000, 30000), Run: runKinOrder},
			{Name: "rounding", N: fixedN(3000, 80000), Run: runArithChains},
			{Name: "random", N: fixedN(10000, 300000), Run: runArithRandom},
		}})
	register(&Prop{ID: "C10",
		Rule: "every pool value selected from by every kind of key and name, all pairs under || && !, chains of selections from absent values, lengths of large and multi-byte values; every decided filter evaluation is non-trivial",
		Phases: []Phase{
			{Name: "select", N: fixedN(nSelectAll*2, nSelectAll*40), Run: func(c *Ctx, i int) { runSelectAll(c, i%nSelectAll) }},
			{Name: "logic", N: fixedN(np, 10*np), Run: runLogicPairs},
			{Name: "missing", N: fixedN(8000, 250000), Run: runMissing},
			{Name: "lengths", N: fixedN(800, 8000), Run: runLengths},
			{Name: "unchosen", N: fixedN(4000, 80000), Run: runUnchosen},
			{Name: "shortcircuit", Fixed: true, N: fixedN(1, 1), Run: runShortCircuit},
			{Name: "scale", N: fixedN(20, 600), Run: runScaleFn},
		}})
	register(&Prop{ID: "C11",
		Rule: "each of the 15 functions on every pool value in every argument position (document values and literals), lists of numbers and strings of many sizes, substrings, patterns, rounding boundaries, objects of many sizes; results read back through several contexts, and the document compared before and after; every decided filter evaluation is non-trivial",
		Phases: []Phase{
			{Name: "pool", N: fixedN(len(fnNames)*2, len(fnNames)*20), Run: runFnPool},
			{Name: "lists", N: fixedN(6000, 120000), Run: runFnLists},
			{Name: "strings", N: fixedN(5000, 120000), Run: runFnStrings},
			{Name: "numbers", N: fixedN(4000, 80000), Run: runFnNumbers},
			{Name: "keys", N: fixedN(1500, 20000), Run: runFnKeys},
			{Name: "long strings", N: fixedN(1000, 30000), Run: runKinFn},
			{Name: "nested", N: fixedN(6000, 150000), Run: runFnNested},
			{Name: "scale", N: fixedN(50, 1500), Run: runScaleFn},
		}})
}
