package main

import (
	"fmt"
	"math"
	"strconv"
)

func newGen(c *Ctx) *Gen {
	return &Gen{R: c.R, missP: 0.1, wildP: 0.08}
}

// sampleOf picks up to n of the values.
func (g *Gen) sampleOf(l []V, n int) []V {
	if len(l) <= n {
		return l
	}
	r := make([]V, n)
	for i := range r {
		r[i] = pick(g, l)
	}
	return r
}

// filterOver returns a filter generator of the given depth over doc.
func filterOver(doc V, depth int) func(g *Gen, cands []V) *Expr {
	return func(g *Gen, cands []V) *Expr {
		g.root = doc
		g.ats = g.sampleOf(cands, 8)
		e := g.expr(pick(g, []kind{kBool, kBool, kBool, kAny}), 1+g.n(depth))
		g.ats = nil
		return e
	}
}

// keyOver returns a generator of expressions computing a key or index. @ is used only after "..".
func keyOver(doc V) func(g *Gen, cur []V, nested bool) *Expr {
	return func(g *Gen, cur []V, nested bool) *Expr {
		g.root = doc
		g.ats = nil
		var t V
		if len(cur) > 0 {
			t = pick(g, cur)
		}
		if nested {
			g.ats = g.sampleOf(cur, 6)
		}
		return g.keyExpr(t, nested)
	}
}

// keyExpr makes an expression for a key of v, or thereabouts.
func (g *Gen) keyExpr(v V, at bool) *Expr {
	var want V = int64(0)
	switch v := v.(type) {
	case []V:
		i := int64(g.n(len(v) + 1))
		if g.p(0.3) {
			i = -i
		}
		want = i
		if at && g.p(0.3) {
			// relative to the end
			return xBin("-", xDot(xAt(), "length"), xInt(int64(1+g.n(3))))
		}
	case map[string]V:
		if len(v) > 0 && !g.p(0.1) {
			want = pick(g, sortedKeys(v))
		} else {
			want = g.anyName()
		}
		if canonInt.MatchString(want.(string)) && g.p(0.6) {
			i, _ := strconv.ParseInt(want.(string), 10, 64)
			want = i
		}
	default:
		if g.p(0.5) {
			want = g.anyName()
		}
	}
	if g.p(0.08) {
		return g.expr(pick(g, []kind{kNum, kStr}), 2)
	}
	return g.spell(want, 2)
}

// spell makes an expression whose value is v (int64 or string).
func (g *Gen) spell(v V, d int) *Expr {
	switch v := v.(type) {
	case int64:
		if d <= 0 {
			return xInt(v)
		}
		switch g.n(11) {
		case 0, 1:
			return xInt(v)
		case 2:
			k := int64(g.n(7) - 3)
			return xBin("+", g.spell(v-k, d-1), xInt(k))
		case 3:
			k := int64(g.n(7) - 3)
			return xBin("-", g.spell(v+k, d-1), xInt(k))
		case 4:
			return xNeg(g.spell(-v, d-1))
		case 5:
			return xReal(float64(v) + map[bool]float64{true: 0.25, false: -0.25}[v >= 0])
		case 6:
			return xReal(float64(v))
		case 7:
			return xIdx(xArr(xInt(9), g.spell(v, d-1), xStr("a")), xInt(1))
		case 8:
			return xBin("||", pick(g, []*Expr{xNull(), xBool(false), xStr(""), xDot(xRoot(), "nosuch")}), g.spell(v, d-1))
		case 9:
			return xCall("floor", g.spell(v, d-1))
		default:
			// from the document, if it holds the number
			if e := g.find(func(x V) bool { f, ok := x.(float64); return ok && f == float64(v) }); e != nil {
				return e
			}
			return xBin("*", g.spell(v, d-1), xInt(1))
		}
	case string:
		if d <= 0 {
			return xStr(v)
		}
		switch g.n(7) {
		case 0, 1:
			return xStr(v)
		case 2:
			return xIdx(xArr(xStr("q"), g.spell(v, d-1)), xInt(int64(1-2*g.n(2))))
		case 3:
			return xBin("||", pick(g, []*Expr{xNull(), xBool(false), xStr(""), xDot(xRoot(), "nosuch")}), g.spell(v, d-1))
		case 4:
			return xBin("&&", pick(g, []*Expr{xInt(1), xBool(true), xStr("x"), xArr()}), g.spell(v, d-1))
		case 5:
			return xCall("min", g.spell(v, d-1), xStr(v+"z"))
		default:
			if e := g.find(func(x V) bool { s, ok := x.(string); return ok && s == v }); e != nil {
				return e
			}
			return xStr(v)
		}
	}
	panic("spell")
}

// find looks in the document (or a sample @) for a value, returning a reference to one.
func (g *Gen) find(f func(V) bool) *Expr {
	type hit struct {
		v    V
		hops []hop
	}
	var hits []hit
	var rec func(v V, hops []hop, d int)
	rec = func(v V, hops []hop, d int) {
		if len(hits) > 20 || d == 0 {
			return
		}
		if f(v) {
			hits = append(hits, hit{v, append([]hop(nil), hops...)})
		}
		switch v := v.(type) {
		case []V:
			for i, x := range v {
				rec(x, append(hops, hop{arr: true, idx: i, n: len(v)}), d-1)
			}
		case map[string]V:
			for _, k := range sortedKeys(v) {
				rec(v[k], append(hops, hop{name: k}), d-1)
			}
		}
	}
	rec(g.root, nil, 5)
	if len(hits) == 0 {
		return nil
	}
	return g.ref(xRoot(), pick(g, hits).hops)
}

// wideDoc makes a document with one large container in it.
func (g *Gen) wideDoc(n int) V {
	g.setNames()
	elem := func(i int) V {
		switch g.n(6) {
		case 0:
			return []V{float64(i), "s" + strconv.Itoa(i)}
		case 1:
			return map[string]V{"a": float64(i), "id": float64(i % 7)}
		case 2:
			return "s" + strconv.Itoa(i)
		}
		return float64(i)
	}
	var v V
	if g.p(0.5) {
		a := make([]V, n)
		for i := range a {
			a[i] = elem(i)
		}
		v = a
	} else {
		o := map[string]V{}
		for i := 0; i < n; i++ {
			o["k"+strconv.Itoa(i)] = elem(i)
		}
		v = o
	}
	switch g.n(3) {
	case 0:
		return map[string]V{"a": v, "b": g.scalar()}
	case 1:
		return []V{g.scalar(), v, map[string]V{"a": 1.0}}
	}
	return v
}

// deepDoc nests containers to the given depth, giving each a few scalars.
func (g *Gen) deepDoc(d int) V {
	var v V = "bottom"
	for i := 0; i < d; i++ {
		if g.p(0.5) {
			a := []V{v}
			if g.p(0.2) {
				a = append(a, float64(i))
			}
			if g.p(0.2) {
				a = append([]V{float64(-i)}, a...)
			}
			v = a
		} else {
			o := map[string]V{"a": v}
			if g.p(0.3) {
				o["b"] = float64(i)
			}
			v = o
		}
	}
	return v
}

func runSteps(mode int, uniq bool, o PathOpts) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		g := newGen(c)
		g.uniq = uniq
		doc := g.doc()
		opt := o
		opt.Steps = 1 + g.n(o.Steps)
		opt.FilterGen = filterOver(doc, 2)
		opt.ExprGen = keyOver(doc)
		for k := 0; k < 4; k++ {
			p := g.path(doc, opt)
			lay := g.layout()
			lay.R = c.R
			text := p.Text(lay)
			out := c.checkText(p, text, doc, mode)
			if out.decided(mode) && out.Err == "" {
				c.note(text, doc, out.Sel.N > 0 && len(p) > 0)
				c.Count("results compared", out.Sel.N)
			}
		}
	}
}

func runBig(mode int) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		g := newGen(c)
		g.uniq = mode&mOrder != 0
		var doc V
		if i%3 == 2 {
			doc = g.deepDoc(pick(g, []int{60, 130, 300, 700, 1100, 1500}))
		} else {
			doc = g.wideDoc(pick(g, []int{60, 130, 257, 300, 513, 1030, 2100, 4100}))
		}
		opt := PathOpts{Steps: 1 + g.n(3), Nest: 0.35, Wild: 0.4, Union: 0.3, Slice: 0.1, Filter: 0.05, Miss: 0.02, MaxRes: 20000}
		opt.FilterGen = filterOver(doc, 1)
		opt.ExprGen = keyOver(doc)
		p := g.path(doc, opt)
		if g.p(0.25) {
			// a long union
			s := &Step{K: SElems, Nest: g.p(0.3)}
			conts := containersIn([]V{doc}, 50)
			for k := pick(g, []int{17, 65, 129, 260, 600, 1500}); k > 0; k-- {
				s.L = append(s.L, g.elem(pick(g, conts), true))
			}
			p = Path{s}
			if g.p(0.4) {
				p = Path{sWild(), s}
			}
		}
		lay := &Layout{R: c.R}
		text := p.Text(lay)
		out := c.checkText(p, text, doc, mode)
		if out.decided(mode) && out.Err == "" {
			c.note(text, doc, out.Sel.N > 0)
			c.Count("results compared", out.Sel.N)
		}
	}
}

// runLong follows paths of many steps down a deep document.
func runLong(mode int) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		g := newGen(c)
		doc := g.deepDoc(pick(g, []int{10, 40, 100, 400, 1000}))
		var p Path
		v := doc
		for {
			done := false
			switch x := v.(type) {
			case []V:
				k := -1
				for j, e := range x {
					if isContainer(e) || e == "bottom" {
						k = j
					}
				}
				if k < 0 {
					done = true
					break
				}
				n := int64(k)
				switch g.n(4) {
				case 0:
					p = append(p, &Step{K: SInt, I: n})
				case 1:
					p = append(p, sElems(lInt(n-int64(len(x)))))
				case 2:
					p = append(p, sElems(Elem{K: LSlice, B: [3]Bound{{Set: true, I: n}, {Set: true, I: n + 1}}}))
				default:
					p = append(p, sElems(lInt(n)))
				}
				v = x[k]
			case map[string]V:
				if g.p(0.5) {
					p = append(p, sName("a"))
				} else {
					p = append(p, sElems(lStr("a")))
				}
				v = x["a"]
			default:
				done = true
			}
			if done {
				break
			}
		}
		if g.p(0.3) && len(p) > 0 {
			p = p[:1+g.n(len(p))]
		}
		text := p.Text(&Layout{R: c.R})
		out := c.checkText(p, text, doc, mode)
		if out.decided(mode) {
			c.note(text, doc, true)
			c.Max("most steps in a path", len(p))
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: "random, wide, deep and long documents; paths of 1..7 steps (to 1000 in the long phase) directed at what the prefix selects; bag of results compared with a reference evaluator; non-trivial: at least one result expected; distinct by path text and document",
		Phases: []Phase{
			{Name: "random", N: fixedN(40000, 1200000), Run: runSteps(mBag, false, PathOpts{Steps: 5, Nest: 0.22, Wild: 0.2, Union: 0.2, Slice: 0.05, Filter: 0.04, ExprStep: 0.03, Miss: 0.08})},
			{Name: "misses", N: fixedN(6000, 150000), Run: runSteps(mBag, false, PathOpts{Steps: 3, Nest: 0.3, Wild: 0.25, Union: 0.35, Slice: 0.05, Miss: 0.5})},
			{Name: "long", N: fixedN(400, 4000), Run: runLong(mBag)},
			{Name: "big", N: fixedN(800, 10000), Run: runBig(mBag)},
			{Name: "stages", N: fixedN(6000, 200000), Run: runStages},
			{Name: "scale", N: fixedN(2*nSelects, 40*nSelects), Run: runScaleSelect},
		},
	})
	register(&Prop{
		ID:   "C04",
		Rule: "documents whose scalars are all different, so that every result's origin shows; the result list is matched against the set of orders the reference evaluator allows (sequences, and parts in any order); non-trivial: at least two results expected",
		Phases: []Phase{
			{Name: "random", N: fixedN(30000, 900000), Run: runOrder(PathOpts{Steps: 5, Nest: 0.3, Wild: 0.3, Union: 0.2, Slice: 0.15, Filter: 0.08, ExprStep: 0.03, Miss: 0.03})},
			{Name: "nested", N: fixedN(10000, 300000), Run: runOrder(PathOpts{Steps: 3, Nest: 0.6, Wild: 0.4, Union: 0.2, Slice: 0.15, Filter: 0.1, ExprStep: 0.05, Miss: 0.02})},
			{Name: "big", N: fixedN(800, 10000), Run: runBig(mBag | mOrder)},
			{Name: "scale", N: fixedN(2*nSelects, 40*nSelects), Run: runScaleSelect},
		},
	})
	register(&Prop{
		ID:   "C05",
		Rule: "every slice with start, end in {absent, -9..9} and stride in {absent, -5..5} over every array length 0..7, alone, in unions, after .. and over mixed values; then huge and boundary bounds over arrays up to 3000 elements, and arrays up to 200,000 elements with bounds near their ends and near powers of two; compared with Python's slice rule; non-trivial: at least one element selected, or a bound out of range",
		Phases: []Phase{
			{Name: "small", Fixed: true, N: fixedN(8*20, 8*20), Run: runSliceSmall},
			{Name: "bounds", N: fixedN(30000, 600000), Run: runSliceBounds},
			{Name: "lengths", N: fixedN(44*3, 44*40), Run: runSliceLong},
			{Name: "mixed", N: fixedN(12000, 400000), Run: runSteps(mBag, true, PathOpts{Steps: 4, Nest: 0.3, Wild: 0.25, Union: 0.25, Slice: 0.45, Miss: 0.15})},
			{Name: "order", N: fixedN(6000, 200000), Run: runOrder(PathOpts{Steps: 3, Nest: 0.2, Wild: 0.25, Union: 0.2, Slice: 0.5, Miss: 0.05})},
			{Name: "computed", N: fixedN(4000, 80000), Run: runBoundExprs},
		},
	})
	register(&Prop{
		ID:   "C06",
		Rule: "paths with one to four filters (plain and after ..) over random, wide and empty candidates; expressions over @ and $ of depth 1..4, including always-failing ones where there are no candidates; bag of results compared with a reference evaluator; non-trivial: some candidate kept and some dropped, or a filter met no candidates",
		Phases: []Phase{
			{Name: "random", N: fixedN(40000, 1000000), Run: runFilters},
			{Name: "constants", N: fixedN(6000, 60000), Run: runConstFilters},
			{Name: "empty", N: fixedN(10000, 100000), Run: runEmptyFilters},
			{Name: "partition", N: fixedN(5000, 150000), Run: runPartition},
			{Name: "big", N: fixedN(500, 6000), Run: runBigFilters},
			{Name: "slow", Fixed: true, N: fixedN(8, 12), Run: runSlow},
			{Name: "scale", N: fixedN(2*nSelects, 40*nSelects), Run: runScaleSelect},
		},
	})
}

func runOrder(o PathOpts) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		g := newGen(c)
		g.uniq = true
		doc := g.doc()
		opt := o
		opt.Steps = 1 + g.n(o.Steps)
		opt.FilterGen = filterOver(doc, 2)
		opt.ExprGen = keyOver(doc)
		for k := 0; k < 4; k++ {
			p := g.path(doc, opt)
			text := p.Text(&Layout{R: c.R})
			out := c.checkText(p, text, doc, mBag|mOrder)
			if out.decided(mBag) {
				c.note(text, doc, out.Sel.N > 1)
				c.Count("results ordered", out.Sel.N)
			}
		}
	}
}

func runSliceSmall(c *Ctx, i int) {
	n := i % 8
	start := Bound{}
	if s := i / 8; s > 0 {
		start = Bound{Set: true, I: int64(s - 10)}
	}
	arr := make([]V, n)
	for k := range arr {
		arr[k] = float64(k)
	}
	mixed := []V{"scalar", arr, map[string]V{"0": "zero", "a": arr}, nil, 5.0, []V{}, []V{"x", "y"}}
	for e := 0; e < 20; e++ {
		end := Bound{}
		if e > 0 {
			end = Bound{Set: true, I: int64(e - 10)}
		}
		for s := 0; s < 12; s++ {
			stride := Bound{}
			if s > 0 {
				stride = Bound{Set: true, I: int64(s - 6)}
			}
			el := Elem{K: LSlice, B: [3]Bound{start, end, stride}, Colons2: s%2 == 0}
			sel := sElems(el)
			c.one(Path{sel}, arr, mBag|mOrder)
			c.one(Path{sWild(), sel}, mixed, mBag|mOrder)
			c.one(Path{sElems(lInt(0), el, lInt(-1))}, arr, mBag|mOrder)
			c.one(Path{sWild(), sElems(el, el, lStr("a"))}, mixed, mBag|mOrder)
			c.one(Path{nest(sel)}, mixed, mBag)
			c.one(Path{sWild(), nest(sElems(lInt(0), el))}, mixed, mBag)
		}
	}
}

// one checks one path canonically written.
func (c *Ctx) one(p Path, doc V, mode int) *Outcome {
	text := p.Text(nil)
	out := c.checkText(p, text, doc, mode)
	if out.decided(mode) {
		c.note(text, doc, out.Err != "" || out.Sel.N > 0)
	}
	return out
}

var edgeBounds = func() []int64 {
	l := []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 2, -(math.MaxInt64 - 1), -(math.MaxInt64 - 2)}
	for _, s := range []uint{7, 8, 15, 16, 21, 22, 23, 24, 31, 32, 33, 52, 53, 61, 62} {
		for d := int64(-1); d <= 1; d++ {
			l = append(l, 1<<s+d, -(1<<s)+d)
		}
	}
	return l
}()

func runSliceBounds(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{0, 1, 2, 3, 5, 10, 100, 257, 1000, 3000})
	if g.p(0.6) {
		n = g.n(12)
	}
	arr := make([]V, n)
	for k := range arr {
		arr[k] = float64(k)
	}
	b := func(stride bool) Bound {
		switch x := g.n(10); {
		case x < 2:
			return Bound{}
		case x < 5:
			return Bound{Set: true, I: pick(g, edgeBounds)}
		case x < 7:
			if stride {
				return Bound{Set: true, I: int64(g.n(7) - 3)}
			}
			return Bound{Set: true, I: int64(pick(g, []int{n, n - 1, n + 1, -n, -n - 1, -n + 1, 0, -1, 1}))}
		}
		return Bound{Set: true, I: int64(g.n(2*n+9) - n - 4)}
	}
	el := Elem{K: LSlice, B: [3]Bound{b(false), b(false), b(true)}}
	var doc V = arr
	p := Path{sElems(el)}
	switch g.n(6) {
	case 0:
		p = Path{sElems(lInt(pick(g, edgeBounds)), el, lInt(0))}
	case 1:
		doc = []V{arr, "s", map[string]V{"q": arr}}
		p = Path{nest(sElems(el))}
	case 2:
		doc = []V{arr, 1.0, arr[:n/2], map[string]V{"1": 2.0}}
		p = Path{sWild(), sElems(el)}
	case 3:
		doc = []V{arr, 1.0, arr[:n/2], map[string]V{"1": 2.0}}
		p = Path{sWild(), sElems(el, lInt(1), Elem{K: LSlice, B: [3]Bound{b(false), b(false), b(true)}})}
	}
	text := p.Text(g.layout())
	out := c.checkText(p, text, doc, mBag|mOrder)
	if out.decided(mBag) {
		c.note(text, doc, true)
	}
}

// runSliceLong: long arrays, of lengths around powers of two and others, with bounds near the ends, near the
// middle and near such lengths.
func runSliceLong(c *Ctx, i int) {
	g := newGen(c)
	sizes := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 10000, 16385, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 100000, 131073, 200000}
	n := sizes[i%len(sizes)] + g.n(3)
	arr := make([]V, n)
	for k := range arr {
		arr[k] = float64(k)
	}
	near := func() int64 {
		x := pick(g, []int{0, n, n / 2, n - 1, g.n(n), g.n(n), pick(g, sizes), 1 << g.n(18)})
		x += g.n(7) - 3
		if g.p(0.4) {
			x = -x
		}
		return int64(x)
	}
	for k := 0; k < 12; k++ {
		var e Elem
		e.K = LSlice
		if g.p(0.75) {
			e.B[0] = Bound{Set: true, I: near()}
		}
		if g.p(0.75) {
			e.B[1] = Bound{Set: true, I: near()}
		}
		if g.p(0.6) {
			e.B[2] = Bound{Set: true, I: pick(g, []int64{1, -1, 2, -2, 3, 7, -7, 100, -100, near(), near(), 0})}
		}
		if g.p(0.1) {
			e.B[g.n(3)] = Bound{Set: true, E: literal(near())}
		}
		p := Path{sElems(e)}
		if g.p(0.1) {
			p = Path{sElems(lInt(near()), e, lInt(near()))}
		}
		text := p.Text(g.layout())
		out := c.checkText(p, text, arr, mBag|mOrder)
		if out.decided(mBag) {
			c.Eval(hash64(text, strconv.Itoa(n)), true)
			c.Count("results compared", out.Sel.N)
		}
	}
	c.Max("longest array", n)
}

// runBoundExprs: slices with bounds given by expressions; where @ appears outside .. what they select must be
// what is specified or what K1 says.
func runBoundExprs(c *Ctx, i int) {
	g := newGen(c)
	n := g.n(9)
	arr := make([]V, n)
	for k := range arr {
		arr[k] = float64(k)
	}
	doc := map[string]V{"a": arr, "i": float64(g.n(5)), "o": map[string]V{"a": arr, "b": arr[:n/2]}}
	b := func() Bound {
		switch g.n(4) {
		case 0:
			return Bound{}
		case 1:
			return Bound{Set: true, I: int64(g.n(2*n+5) - n - 2)}
		}
		return Bound{Set: true, E: pick(g, []*Expr{xInt(int64(g.n(n + 2))), xNeg(xInt(int64(g.n(n + 2)))), xBin("+", xInt(1), xInt(0)), xDot(xRoot(), "i"), xReal(1.5),
			xBin("-", xDot(xAt(), "length"), xInt(1)), xBin("-", xDot(xDot(xRoot(), "a"), "length"), xInt(2)), xBin("*", xInt(2), xInt(-1)), xDot(xRoot(), "none"),
			xBin("||", xDot(xAt(), "none"), xInt(int64(g.n(n+2)))), xIdx(xDot(xRoot(), "a"), xInt(int64(g.n(n+3)-1))), xBin("%", xDot(xDot(xRoot(), "a"), "length"), xInt(int64(g.n(3))))})}
	}
	for k := 0; k < 6; k++ {
		l := []Elem{{K: LSlice, B: [3]Bound{b(), b(), b()}}}
		if g.p(0.3) {
			l = append(l, pick(g, []Elem{lInt(1), lStr("b"), {K: LSlice, B: [3]Bound{b(), b(), b()}}}))
		}
		s := sElems(l...)
		p := pick(g, []Path{{sName("a"), s}, {sName("o"), sWild(), s}, {nest(s)}})
		text := p.Text(g.layout())
		if c.checkKnown(p, text, doc, mBag|mOrder) {
			c.note(text, doc, true)
		}
	}
}

func runFilters(c *Ctx, i int) {
	g := newGen(c)
	g.missP = 0.15
	doc := g.doc()
	opt := PathOpts{Steps: 1 + g.n(5), Nest: 0.25, Filter: 0.5, Wild: 0.15, Union: 0.1, Slice: 0.04, ExprStep: 0.02, Miss: 0.03,
		FilterGen: filterOver(doc, 3), ExprGen: keyOver(doc)}
	for k := 0; k < 3; k++ {
		p := g.path(doc, opt)
		if !hasFilter(p) {
			continue
		}
		text := p.Text(g.layout())
		out := c.checkText(p, text, doc, mBag)
		if out.decided(mBag) {
			c.note(text, doc, out.M.kept > 0 && out.M.kept < out.M.cands)
			c.Count("candidates judged", out.M.cands)
			c.Count("candidates kept", out.M.kept)
		}
	}
}

func hasFilter(p Path) bool {
	for _, s := range p {
		if s.K == SFilter {
			return true
		}
	}
	return false
}

// runConstFilters: filters whose expression is a constant or @ itself or $: every kind of
// candidate is judged by its own truth.
func runConstFilters(c *Ctx, i int) {
	g := newGen(c)
	doc := g.doc()
	consts := []*Expr{xAt(), xAt(), xAt(), xNot(xAt()), xBool(true), xBool(false), xNull(), xInt(0), xInt(1), xStr(""), xStr("x"), xArr(), xRoot(), xReal(0),
		xBin("==", xAt(), xRoot()), xDot(xAt(), "length"), xBin("&&", xAt(), xDot(xAt(), "length")), xBin("==", xDot(xAt(), "length"), xDot(xRoot(), "length")), xIdx(xAt(), xInt(0)), xIdx(xAt(), xInt(-1))}
	p := g.path(doc, PathOpts{Steps: g.n(3), Nest: 0.2, Wild: 0.4})
	for k := 1 + g.n(3); k > 0; k-- {
		s := sFilter(pick(g, consts))
		s.Nest = g.p(0.3)
		p = append(p, s)
		if g.p(0.3) {
			p = append(p, sWild())
		}
	}
	text := p.Text(g.layout())
	out := c.checkText(p, text, doc, mBag)
	if out.decided(mBag) {
		c.note(text, doc, out.M.cands > 0)
		c.Count("candidates judged", out.M.cands)
		c.Count("candidates kept", out.M.kept)
	}
}

var failing = []*Expr{
	xCall("nosuch", xAt()), xCall("abs"), xCall("length", xInt(1), xInt(2)),
	xBin("~", xInt(1), xRe("a")), xBin("=~", xStr("a"), xStr("(")), xBin("in", xInt(1), xInt(2)), xBin("nin", xStr("x"), xStr("x")),
	xBin("~", xStr("a"), xInt(5)), xNot(xCall("nosuch")), xBin("==", xCall("f", xAt()), xInt(1)),
}

func runEmptyFilters(c *Ctx, i int) {
	g := newGen(c)
	// a document in which the prefix reaches only empty containers, scalars, or nothing
	holes := []V{[]V{}, map[string]V{}, "str", 5.0, nil, true, false, ""}
	var prefixes []Path
	doc := map[string]V{"e": []V{}, "o": map[string]V{}, "s": "text", "n": 7.0, "z": nil, "t": true,
		"l": []V{pick(g, holes), pick(g, holes), pick(g, holes)}, "full": []V{1.0, "a", []V{2.0}}}
	root := V(doc)
	prefixes = []Path{{sName("e")}, {sName("o")}, {sName("s")}, {sName("n")}, {sName("z")}, {sName("t")}, {sName("nosuch")}, {sName("l"), sWild()},
		{sName("full"), sElems(lInt(9))}, {sName("full"), sFilter(xBool(false))}, {sName("full"), nest(sName("q"))}, {sElems(lStr("e"), lStr("o"), lStr("s"))}, {}}
	p := append(Path(nil), pick(g, prefixes)...)
	if len(p) == 0 {
		root = pick(g, holes)
	}
	if g.p(0.2) {
		p = append(p, sFilter(pick(g, failing)))
	}
	g.root = root
	var e *Expr
	switch g.n(3) {
	case 0:
		e = pick(g, failing)
	case 1:
		e = pick(g, []*Expr{xBool(true), xInt(1), xNot(xAt()), xBin("==", xAt(), xNull()), xAt(), xRoot(), xNot(xBool(false)), xNot(xDot(xAt(), "a"))})
	default:
		g.errP = 0.3
		e = g.expr(kAny, 2)
	}
	s := sFilter(e)
	nestedFirst := g.p(0.25)
	s.Nest = nestedFirst
	p = append(p, s)
	for k := g.n(3); k > 0; k-- {
		switch g.n(4) {
		case 0:
			p = append(p, sFilter(pick(g, failing)))
		case 1:
			p = append(p, sWild())
		case 2:
			p = append(p, nest(sName("a")))
		default:
			p = append(p, sFilter(xBool(true)))
		}
	}
	text := p.Text(g.layout())
	out := c.checkText(p, text, root, mBag)
	if out.decided(mBag) {
		c.note(text, root, out.M.cands == 0)
		if out.M.cands == 0 {
			c.Count("filters that met no candidate", 1)
		}
	}
}

func runBigFilters(c *Ctx, i int) {
	g := newGen(c)
	var doc V
	if g.p(0.3) {
		doc = g.deepDoc(pick(g, []int{50, 200, 600}))
	} else {
		doc = g.wideDoc(pick(g, []int{100, 256, 300, 1030, 3000}))
	}
	opt := PathOpts{Steps: 1 + g.n(3), Nest: 0.4, Filter: 0.6, Wild: 0.3, FilterGen: filterOver(doc, 2), ExprGen: keyOver(doc), MaxRes: 20000}
	p := g.path(doc, opt)
	text := p.Text(&Layout{R: c.R})
	out := c.checkText(p, text, doc, mBag)
	if out.decided(mBag) {
		c.note(text, doc, out.M.kept > 0 && out.M.kept < out.M.cands)
		c.Count("candidates judged", out.M.cands)
		c.Count("candidates kept", out.M.kept)
		c.Max("most candidates of one evaluation", out.M.cands)
	}
}

var _ = fmt.Sprint
