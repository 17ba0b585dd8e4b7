package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"
)

// Properties of evaluations as events: C14 to C18, and computed keys, C21.

// item is one path of a workload.
type item struct {
	path Path
	text string
}

// someCall applies a function to operands drawn from the document or the candidates.
func (g *Gen) someCall() *Expr {
	fn := pick(g, fnNames)
	n := arity[fn]
	if n < 0 {
		n = 1 + g.n(3)
	}
	if g.p(0.05) {
		n++
	}
	l := make([]*Expr, n)
	for i := range l {
		if g.p(0.8) && g.hasOperands() {
			l[i] = g.operand(pick(g, []kind{kArr, kArr, kStr, kNum, kAny}))
		} else {
			l[i] = g.expr(kAny, 1)
		}
	}
	if g.p(0.03) {
		fn = pick(g, []string{"nosuch", "len", "Abs", "size"})
	}
	return xCall(fn, l...)
}

// dynMatch matches operands against patterns that may come from the document too.
func (g *Gen) dynMatch() *Expr {
	l := g.operand(kStr)
	if g.p(0.3) {
		l = xStr(g.strv())
	}
	r := g.operand(kStr)
	if g.p(0.4) {
		r = xStr(pick(g, patPool))
	} else if g.p(0.3) {
		r = xRe(pick(g, patPool))
	}
	return xBin(pick(g, []string{"~", "=~"}), l, r)
}

// workFilter makes filters that use every part of the evaluator.
func workFilter(doc V) func(g *Gen, cands []V) *Expr {
	return func(g *Gen, cands []V) *Expr {
		g.root = doc
		g.ats = g.sampleOf(cands, 8)
		defer func() { g.ats = nil }()
		switch g.n(10) {
		case 0, 1:
			return xBin(pick(g, allBinOps), g.someCall(), g.expr(kAny, 1))
		case 2:
			return g.someCall()
		case 3, 4:
			return g.dynMatch()
		case 5:
			return xBin(pick(g, []string{"in", "nin"}), g.operand(kAny), pick(g, []*Expr{g.operand(kArr), g.litArr(1)}))
		case 6:
			return xBin(pick(g, []string{"==", "!="}), g.operand(kAny), pick(g, []*Expr{g.operand(kAny), g.litArr(1)}))
		}
		return g.expr(pick(g, []kind{kBool, kBool, kAny}), 1+g.n(3))
	}
}

func (g *Gen) work(doc V) item {
	g.errP = pick(g, []float64{0, 0, 0.2})
	g.missP = 0.1
	o := PathOpts{Steps: 1 + g.n(5), Nest: 0.3, Filter: 0.45, Wild: 0.15, Union: 0.12, Slice: 0.06, ExprStep: 0.06, Miss: 0.05, MaxRes: 1500,
		FilterGen: workFilter(doc), ExprGen: keyOver(doc)}
	p := g.path(doc, o)
	for len(p) == 0 && !g.p(0.1) {
		p = g.path(doc, o)
	}
	return item{p, p.Text(g.layout())}
}

// tweakPath changes one constant of a copy of p.
func (g *Gen) tweakPath(p Path) Path {
	q := make(Path, len(p))
	var spots []func()
	expr := func(e *Expr) {
		e.walk(func(x *Expr) {
			switch x.K {
			case EInt:
				spots = append(spots, func() { x.I = x.I ^ 1; x.Spell = "" })
			case EStr:
				spots = append(spots, func() { x.S = g.kinString(x.S) })
			case EBin:
				spots = append(spots, func() {
					for _, l := range levels[:5] {
						if i := indexOf(l, x.S); i >= 0 && x.S != "~" && x.S != "=~" {
							for {
								y := pick(g, l)
								if y != "~" && y != "=~" {
									x.S = y
									return
								}
							}
						}
					}
				})
			}
		})
	}
	for i, s := range p {
		c := *s
		c.L = append([]Elem(nil), s.L...)
		if s.E != nil {
			c.E = s.E.clone()
			expr(c.E)
		}
		q[i] = &c
		switch c.K {
		case SName:
			spots = append(spots, func() { c.S = g.identName(); q[i].S = c.S })
		case SInt:
			spots = append(spots, func() { q[i].I ^= 1 })
		case SElems:
			for k := range c.L {
				l := &c.L[k]
				switch l.K {
				case LInt:
					spots = append(spots, func() { l.I ^= 1 })
				case LStr:
					spots = append(spots, func() { l.S = g.anyName() })
				case LSlice:
					spots = append(spots, func() {
						b := &l.B[g.n(3)]
						if b.Set && b.E == nil {
							b.I ^= 1
						}
					})
				}
			}
		}
	}
	if len(spots) > 0 {
		spots[g.n(len(spots))]()
	}
	return q
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// outcome is a comparable summary of an evaluation: failed, or the sorted canonical results.
func outcome(r []V, err error) string {
	if err != nil {
		return "failed"
	}
	in := make([]string, len(r))
	for i, v := range r {
		in[i] = canon(v)
	}
	sort.Strings(in)
	return strconv.Itoa(len(r)) + " " + strings.Join(in, "\x00")
}

// ------------------------------------------------------------------ C14

type concCall struct {
	kind   int // 0 eval shared, 1 compile and eval, 2 compile only, 3 String
	path   int
	doc    int
	naps   int
	res    []V
	err    error
	str    string
	t0, t1 int64
}

func runConcurrent(c *Ctx, i int) {
	g := newGen(c)
	procs := pick(g, []int{1, 2, 4, 8, 8, 8})
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	nd := 1 + g.n(3)
	docs := make([]V, nd)
	for k := range docs {
		switch g.n(5) {
		case 0:
			docs[k] = g.wideDoc(40)
		case 1:
			docs[k] = []V(g.records(12))
		default:
			docs[k] = g.doc()
		}
	}
	var items []item
	var shared []*jsonpath.JSONPath
	np := 1 + g.n(5)
	for len(items) < np {
		it := g.work(pick(g, docs))
		out := Evaluate(it.path, docs[0], 1<<14)
		if out.Skip == "evaluation budget" || out.Skip == "too many results" {
			continue
		}
		items = append(items, it)
		if g.p(0.3) {
			q := g.tweakPath(it.path)
			items = append(items, item{q, q.Text(nil)})
		}
	}
	pristine := clone([]V(docs))
	for _, it := range items {
		shared = append(shared, c.mustCompile(it.text))
	}
	badTexts := []string{"$.", "$[?(", "$[?(@ ~ /(/)]", "$['", "$[1,]", "$..", "x"}
	ng := pick(g, []int{2, 3, 4, 8, 16})
	per := 3 + g.n(8)
	calls := make([][]concCall, ng)
	for k := range calls {
		calls[k] = make([]concCall, per)
		for j := range calls[k] {
			cc := &calls[k][j]
			cc.path, cc.doc = g.n(len(items)), g.n(nd)
			if i%3 == 0 {
				cc.path = 0 // everyone on one path
			}
			cc.kind = pick(g, []int{0, 0, 0, 0, 0, 0, 1, 1, 2, 3})
			if g.p(0.2) {
				cc.naps = g.n(4)
			}
		}
	}
	c.Now(fmt.Sprintf("concurrent evaluation of %q", texts(items)))
	start := make(chan struct{})
	var wg sync.WaitGroup
	epoch := time.Now()
	for k := 0; k < ng; k++ {
		wg.Add(1)
		go func(l []concCall) {
			defer wg.Done()
			<-start
			for j := range l {
				cc := &l[j]
				for n := 0; n < cc.naps; n++ {
					runtime.Gosched()
				}
				cc.t0 = int64(time.Since(epoch))
				switch cc.kind {
				case 0:
					cc.res, cc.err = shared[cc.path].Eval(docs[cc.doc])
				case 1:
					p, err := jsonpath.Compile(items[cc.path].text)
					if err == nil {
						cc.res, cc.err = p.Eval(docs[cc.doc])
						cc.str = p.String()
					} else {
						cc.str = "failed: " + err.Error()
					}
				case 2:
					if p, err := jsonpath.Compile(badTexts[(cc.path+j)%len(badTexts)]); err == nil {
						cc.str = "accepted " + p.String()
					}
				case 3:
					cc.str = shared[cc.path].String()
				}
				cc.t1 = int64(time.Since(epoch))
				if cc.kind < 2 && cc.err == nil && j%2 == 0 {
					// the list is the caller's own
					keep := append([]V(nil), cc.res...)
					r := append(cc.res, "mine")
					for x := range r {
						r[x] = "overwritten"
					}
					cc.res = keep
					if cc.res == nil {
						cc.res = []V{}
					}
				}
			}
		}(calls[k])
	}
	close(start)
	wg.Wait()
	if canon(docs) != canon(pristine) {
		c.Violate("documents changed by concurrent evaluation of %q: %s, were %s", texts(items), show(docs), show(pristine))
	}
	// the same calls one at a time, on untouched copies
	type pd struct{ p, d int }
	want := map[pd]string{}
	for k := range calls {
		for j := range calls[k] {
			cc := &calls[k][j]
			text := items[cc.path].text
			switch {
			case cc.kind == 2 && cc.str != "":
				c.Violate("concurrently, an invalid path was %s", cc.str)
			case cc.kind == 2:
				continue
			case cc.kind == 3 && cc.str != text, cc.kind == 1 && cc.str != text:
				c.Violate("concurrently, compiling %q gave %q", text, cc.str)
			}
			if cc.kind > 1 {
				continue
			}
			key := pd{cc.path, cc.doc}
			w, ok := want[key]
			if !ok {
				doc := pristine.([]V)[cc.doc]
				w = outcome(c.eval(c.mustCompile(text), text, doc))
				want[key] = w
				if out := Evaluate(items[cc.path].path, doc, modelBudget); out.Skip == "" && !out.M.atUsed {
					m := "failed"
					if out.Err == "" {
						m = outcome(out.Sel.list(), nil)
					}
					if m != w {
						c.Violate("after concurrent use, path %s on %s gave %s, not %s", cut(text, 1000), show(doc), cut(w, 1000), cut(m, 1000))
					}
				}
			}
			if got := outcome(cc.res, cc.err); got != w {
				c.Violate("path %s on %s gave concurrently %s (error %v), but alone %s", cut(text, 1000), show(docs[cc.doc]), cut(got, 1000), cc.err, cut(w, 1000))
			}
			if (cc.res == nil) == (cc.err == nil) {
				c.Violate("concurrently, path %s returned list %v and error %v", cut(text, 1000), cc.res, cc.err)
			}
			if cc.err != nil {
				c.Count("concurrent calls failed", 1)
			}
			c.Count("concurrent calls compared", 1)
		}
	}
	// what was observed: overlapping calls, and the order of starts and ends
	type ev struct {
		t    int64
		k    int
		open bool
	}
	var evs []ev
	for k := range calls {
		for _, cc := range calls[k] {
			evs = append(evs, ev{cc.t0, k, true}, ev{cc.t1, k, false})
		}
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].t < evs[b].t })
	open, most, overlaps := 0, 0, 0
	var sb strings.Builder
	for _, e := range evs {
		if e.open {
			overlaps += open
			open++
			most = max(most, open)
		} else {
			open--
		}
		sb.WriteByte(byte('A' + e.k))
		if e.open {
			sb.WriteByte('+')
		}
	}
	c.Count("pairs of overlapping calls", overlaps)
	c.Max("most calls in progress at once", most)
	c.Eval(hash64(strings.Join(texts(items), "\n"), sb.String()), most > 1)
	if most > 1 {
		c.Sample(fmt.Sprintf("%d goroutines on %q, schedule %s", ng, cut(items[0].text, 100), cut(sb.String(), 200)))
	}
}

func texts(l []item) []string {
	r := make([]string, len(l))
	for i, x := range l {
		r[i] = x.text
	}
	return r
}

// ------------------------------------------------------------------ C15

const sentinel = "\x00spare"

// spare copies a document, giving every array unused capacity filled with a sentinel.
func spare(v V, arrays *[][]V) V {
	switch v := v.(type) {
	case []V:
		a := make([]V, len(v)+3)
		for i, x := range v {
			a[i] = spare(x, arrays)
		}
		for i := len(v); i < len(a); i++ {
			a[i] = sentinel
		}
		*arrays = append(*arrays, a)
		return a[:len(v)]
	case map[string]V:
		o := make(map[string]V, len(v))
		for k, x := range v {
			o[k] = spare(x, arrays)
		}
		return o
	}
	return v
}

func (c *Ctx) spareOK(arrays [][]V, what string) {
	for _, a := range arrays {
		for _, x := range a[len(a)-3:] {
			if s, ok := x.(string); !ok || s != sentinel {
				c.Violate("%s wrote beyond the end of an array of the document: %s", what, show(x))
			}
		}
	}
}

// subValues collects the identities by content of all values in a document.
func subValues(in *interner, v V, set map[int]bool) {
	set[in.id(v)] = true
	switch v := v.(type) {
	case []V:
		for _, x := range v {
			subValues(in, x, set)
		}
	case map[string]V:
		for _, x := range v {
			subValues(in, x, set)
		}
	}
}

type kept struct {
	list []V // as returned
	want []V // its expected content
	id   string
}

func runFresh(c *Ctx, i int) {
	g := newGen(c)
	var docs, orig []V
	var arrays [][]V
	for k := 0; k < 1+g.n(2); k++ {
		d := g.doc()
		switch i % 4 {
		case 1:
			d = g.records(8)
		case 2:
			d = map[string]V{"l": []V(g.homList()), "m": []V(g.homList()), "o": g.doc(), "s": []V{g.strv(), g.strv(), g.strv()}}
		}
		orig = append(orig, clone(d))
		docs = append(docs, spare(d, &arrays))
	}
	var snaps []string
	var sets []map[int]bool
	in := newInterner()
	for k := range docs {
		snaps = append(snaps, canon(docs[k]))
		s := map[int]bool{}
		subValues(in, orig[k], s)
		sets = append(sets, s)
	}
	var items []item
	var progs []*jsonpath.JSONPath
	for k := 0; k < 3; k++ {
		it := g.work(orig[g.n(len(orig))])
		items = append(items, it)
		progs = append(progs, c.mustCompile(it.text))
	}
	for _, t := range []string{"$", "$.*", "$[*]", "$..*", "$[:]", "$[0:]", "$[::-1]", "$..[?(@)]", "$[?(1)]"} {
		if g.p(0.25) {
			items = append(items, item{nil, t})
			progs = append(progs, c.mustCompile(t))
		}
	}
	var lists []*kept
	expected := map[string]string{}
	writes := 0
	for n := 0; n < 12; n++ {
		x, d := g.n(len(items)), g.n(len(docs))
		text := items[x].text
		r, err := c.eval(progs[x], text, docs[d])
		if got := canon(docs[d]); got != snaps[d] {
			c.Violate("evaluating %s changed the document from %s to %s", cut(text, 1000), cut(snaps[d], 1200), cut(got, 1200))
		}
		c.spareOK(arrays, "evaluating "+cut(text, 1000))
		key := fmt.Sprint(x, "/", d)
		o := outcome(r, err)
		if was, ok := expected[key]; ok && was != o {
			c.Violate("evaluating %s again on %s (after writes to earlier result lists) gave %s, before it gave %s", cut(text, 1000), show(docs[d]), cut(o, 1000), cut(was, 1000))
		}
		expected[key] = o
		if err != nil {
			c.Count("failing evaluations", 1)
			continue
		}
		for _, v := range r {
			if !sets[d][newInternerLike(in).id(v)] {
				c.Violate("evaluating %s on %s gave %s, which does not occur in the document", cut(text, 1000), show(docs[d]), show(v))
			}
		}
		lists = append(lists, &kept{r, append([]V(nil), r...), fmt.Sprintf("result %d, of %s", n, cut(text, 300))})
		c.Count("result lists retained", 1)
		// write to some list, through its whole capacity
		if g.p(0.6) {
			l := pick(g, lists)
			mark := fmt.Sprintf("mark %d", n)
			switch g.n(3) {
			case 0: // replace elements
				for k := range l.list {
					l.list[k] = mark
					l.want[k] = mark
				}
			case 1: // append, keeping the longer list
				l.list = append(l.list, mark, mark)
				l.want = append(append([]V(nil), l.want...), mark, mark)
			case 2: // use all the capacity
				l.list = l.list[:cap(l.list)]
				for len(l.want) < len(l.list) {
					l.want = append(l.want, mark)
				}
				for k := range l.list {
					l.list[k] = mark
					l.want[k] = mark
				}
			}
			writes++
			c.spareOK(arrays, "writing to "+l.id)
			for k := range docs {
				if got := canon(docs[k]); got != snaps[k] {
					c.Violate("writing to %s changed the document from %s to %s", l.id, cut(snaps[k], 1200), cut(got, 1200))
				}
			}
		}
		for _, l := range lists {
			if len(l.list) != len(l.want) {
				bug("lengths")
			}
			for k := range l.list {
				if !sameIdentity(l.list[k], l.want[k]) {
					c.Violate("%s: element %d changed from %s to %s", l.id, k, show(l.want[k]), show(l.list[k]))
				}
			}
		}
	}
	c.Count("caller writes to result lists", writes)
	c.Eval(hash64(strings.Join(texts(items), "\n"), snaps[0], strconv.Itoa(i)), len(lists) > 1 && writes > 0)
	c.Sample(fmt.Sprintf("%d result lists, %d writes, over %q", len(lists), writes, cut(items[0].text, 120)))
}

// newInternerLike shares the numbering but not the pointer cache, which writes could make stale.
func newInternerLike(in *interner) *interner {
	return &interner{ptr: map[ptrKey]int{}, str: in.str}
}

// sameIdentity compares two values for identity of containers and equality of scalars.
func sameIdentity(a, b V) bool {
	switch x := a.(type) {
	case []V:
		y, ok := b.([]V)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case map[string]V:
		y, ok := b.(map[string]V)
		return ok && reflect.ValueOf(x).Pointer() == reflect.ValueOf(y).Pointer()
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

// every function over arrays and objects of the document, and every operator
func runFreshFns(c *Ctx, i int) {
	g := newGen(c)
	var lists []V
	for k := 0; k < 6; k++ {
		lists = append(lists, []V(g.homList()))
	}
	lists = append(lists, g.strv(), g.num(), map[string]V{"c": 3.0, "a": 1.0, "b": []V{2.0, 1.0}}, []V{[]V{3.0, 1.0}, []V{2.0}})
	var arrays [][]V
	doc := spare(map[string]V{"x": lists, "y": lists[0]}, &arrays)
	snap := canon(doc)
	var es []*Expr
	a, b := xAt(), xDot(xRoot(), "y")
	for _, fn := range fnNames {
		switch arity[fn] {
		case 2:
			es = append(es, xCall(fn, a, b), xCall(fn, b, a), xCall(fn, a, xStr("a")), xCall(fn, a, xInt(1)))
		case 1:
			es = append(es, xCall(fn, a), xCall(fn, b))
		default:
			es = append(es, xCall(fn, a), xCall(fn, b), xCall(fn, a, b), xCall(fn, xIdx(b, xInt(0)), xIdx(a, xInt(0))))
		}
	}
	for _, op := range allBinOps {
		if op == "~" || op == "=~" || op == "in" || op == "nin" {
			continue
		}
		es = append(es, xBin(op, a, b), xBin(op, xArr(a, b), xArr(b, a)))
	}
	es = append(es, xBin("in", a, b), xBin("nin", xInt(1), xArr(a, b)), xIdx(a, xInt(0)), xIdx(xArr(a, b), xInt(0)))
	for _, e := range es {
		for _, p := range []Path{{sName("x"), sFilter(e)}, {sName("x"), sFilter(xBin("||", e, xBool(true)))}} {
			text := p.Text(nil)
			prog := c.mustCompile(text)
			for k := 0; k < 2; k++ {
				r, err := c.eval(prog, text, doc)
				if got := canon(doc); got != snap {
					c.Violate("evaluating %s changed the document from %s to %s", text, cut(snap, 1200), cut(got, 1200))
				}
				c.spareOK(arrays, "evaluating "+text)
				if err == nil {
					for j := range r {
						r[j] = "overwritten"
					}
					_ = append(r, "appended")
				}
			}
			if got := canon(doc); got != snap {
				c.Violate("writing to the result of %s changed the document from %s to %s", text, cut(snap, 1200), cut(got, 1200))
			}
			c.spareOK(arrays, "appending to the result of "+text)
			c.Eval(hash64(text, snap), true)
		}
	}
}

// ------------------------------------------------------------------ C16

// settle waits for the number of goroutines to come down to base, reporting those left after a long time.
func (c *Ctx) settle(base int, what string) {
	for t := 0; runtime.NumGoroutine() > base; t++ {
		if t < 50 {
			runtime.Gosched()
			continue
		}
		time.Sleep(time.Millisecond)
		if t > 20000 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if strings.Count(string(buf), "forsyth/jsonpath") == 0 {
				bug("goroutines of the harness remain:\n%s", buf)
			}
			c.Violate("%d goroutines remain after %s\n%s", runtime.NumGoroutine()-base, what, cut(string(buf), 2500))
		}
	}
	c.Count("times the goroutine count returned to its baseline", 1)
}

// failing expressions: true for the candidate whose member i is k
func failAt(g *Gen, k int) *Expr {
	at := xBin("==", xDot(xAt(), "i"), xInt(int64(k)))
	sel := func(bad, good *Expr) *Expr { // bad for candidate k
		return xBin("||", xBin("&&", at, bad), good)
	}
	switch g.n(5) {
	case 0:
		return xBin("=~", xStr("a"), sel(xStr("("), xStr("b")))
	case 1:
		return xBin("in", xInt(1), sel(xInt(7), xArr(xInt(1))))
	case 2:
		return xBin("~", sel(xInt(3), xStr("a")), xRe("a"))
	case 3:
		return xBin("nin", xInt(1), sel(xStr("a"), xArr(xInt(1))))
	}
	return xBin("~", xDot(xAt(), "s"), sel(xStr("[z-a]"), xDot(xAt(), "s")))
}

func runLeak(c *Ctx, i int) {
	g := newGen(c)
	n := 1 + g.n(12)
	if g.p(0.1) {
		n = 500
	}
	mk := func(n int) []V {
		l := make([]V, n)
		for k := range l {
			l[k] = map[string]V{"i": float64(k), "s": "a", "y": []V{map[string]V{"i": float64(k), "s": "b"}, map[string]V{"i": float64(-k - 1), "s": "c"}}}
		}
		return l
	}
	doc := map[string]V{"x": mk(n), "z": map[string]V{"i": -1.0, "s": "x", "q": mk(2)}}
	k := g.n(n + 2)
	f := sFilter(failAt(g, k))
	ok := sFilter(xBin(">=", xDot(xAt(), "i"), xInt(0)))
	ps := []Path{
		{sName("x"), f}, {nest(f)}, {sName("x"), ok, sName("y"), f}, {sName("x"), nest(f)},
		{sName("x"), ok, sWild(), f}, {nest(ok), nest(f)}, {nest(sWild()), f}, {nest(sName("y")), ok, f},
		{sName("x"), ok}, {nest(ok)}, {nest(sWild())}, {nest(sName("y")), nest(sElems(lInt(0)))},
		{sName("x"), sFilter(xCall("nosuch"))}, {nest(sFilter(xCall("abs")))},
		{nest(sExpr(xBin("=~", xStr("a"), xBin("||", xDot(xAt(), "s"), xStr("(")))))},
		{nest(sElems(lInt(0), lStr("s")))}, {sFilter(xInt(1))}, {sName("nosuch"), f}, {nest(sName("nosuch")), nest(f)},
		{nest(sElems(Elem{K: LSlice, B: [3]Bound{{}, {Set: true, E: xBin("+", xCall("length", xDot(xAt(), "s")), xBin("=~", xStr("a"), xBin("||", xDot(xAt(), "s"), xStr("("))))}, {}}}))},
	}
	p := ps[i%len(ps)]
	text := p.Text(nil)
	prog := c.mustCompile(text)
	c.settle(1, "earlier cases")
	base := runtime.NumGoroutine()
	fails, oks := 0, 0
	reps := 40
	if n > 100 {
		reps = 4
	}
	for r := 0; r < reps; r++ {
		if _, err := c.eval(prog, text, doc); err != nil {
			fails++
		} else {
			oks++
		}
	}
	c.settle(base, fmt.Sprintf("%d evaluations (%d failing) of %s on %d candidates, failing at %d", reps, fails, text, n, k))
	c.Count("evaluations watched", reps)
	c.Count("failing evaluations watched", fails)
	c.Eval(hash64(text, strconv.Itoa(n)), true)
	c.Sample(fmt.Sprintf("%s on %d candidates: %d failing, %d not", text, n, fails, oks))
}

func runLeakRandom(c *Ctx, i int) {
	g := newGen(c)
	doc := g.doc()
	if i%3 == 0 {
		doc = g.records(10)
	}
	c.settle(1, "earlier cases")
	for k := 0; k < 4; k++ {
		it := g.work(doc)
		prog := c.mustCompile(it.text)
		fails := 0
		for r := 0; r < 3; r++ {
			if _, err := c.eval(prog, it.text, doc); err != nil {
				fails++
			}
		}
		c.settle(1, "evaluations of "+cut(it.text, 1000)+" on "+show(doc))
		c.Count("evaluations watched", 3)
		c.Count("failing evaluations watched", fails)
		c.note(it.text, doc, fails > 0 || hasFilter(it.path) || strings.Contains(it.text, ".."))
	}
}

// documents are not kept alive by finished evaluations
func runRetain(c *Ctx, i int) {
	g := newGen(c)
	texts := []string{"$.x[?(@.i >= 0)]", "$..[?(@.i == 3)]", "$..*", "$.x[?('a' =~ ((@.i == 3 && '(') || 'a'))]", "$.x[?(nosuch(@))]", "$..[?(1 in ((@.i == 2 && 4) || [1]))]"}
	text := texts[i%len(texts)]
	prog := c.mustCompile(text)
	const docs = 400
	dead := make(chan struct{}, docs)
	fails := 0
	for k := 0; k < docs; k++ {
		l := make([]V, 5+g.n(30))
		for j := range l {
			l[j] = map[string]V{"i": float64(j), "pad": make([]V, 20)}
		}
		doc := map[string]V{"x": l}
		big := &struct{ a, b [64]byte }{}
		l[0].(map[string]V)["note"] = big // an unknown kind of value, to be collected with the document
		runtime.AddCleanup(big, func(int) { dead <- struct{}{} }, 0)
		if _, err := prog.Eval(doc); err != nil {
			fails++
		}
	}
	got := 0
	for t := 0; t < 200 && got < docs*3/4; t++ {
		runtime.GC()
		for more := true; more; {
			select {
			case <-dead:
				got++
			default:
				more = false
			}
		}
		if got < docs*3/4 {
			time.Sleep(5 * time.Millisecond)
		}
	}
	if got < docs/2 {
		c.Violate("after %d evaluations of %s (%d failing) on different documents, %d documents are still in memory", docs, text, fails, docs-got)
	}
	runtime.KeepAlive(prog)
	c.Count("documents seen collected after evaluation", got)
	c.settle(2, "evaluations of "+text) // the runtime's cleanup goroutine may remain
	c.Eval(hash64(text), true)
}

// ------------------------------------------------------------------ C17

// mutate changes some container of the document in place, as a caller might.
func (g *Gen) mutateDoc(doc V) bool {
	conts := containersIn([]V{doc}, 60)
	if len(conts) == 0 {
		return false
	}
	g.budget = 6
	switch v := pick(g, conts).(type) {
	case []V:
		if len(v) == 0 {
			return false
		}
		switch g.n(3) {
		case 0:
			v[g.n(len(v))] = g.value(1)
		case 1:
			a, b := g.n(len(v)), g.n(len(v))
			v[a], v[b] = v[b], v[a]
		default:
			v[g.n(len(v))] = g.scalar()
		}
	case map[string]V:
		ks := sortedKeys(v)
		switch {
		case len(ks) > 0 && g.p(0.3):
			delete(v, pick(g, ks))
		case len(ks) > 0 && g.p(0.6):
			v[pick(g, ks)] = g.value(1)
		default:
			v[g.anyName()] = g.value(1)
		}
	}
	return true
}

// kinString is a string that differs a little from s.
func (g *Gen) kinString(s string) string {
	j := g.n(len(s) + 1)
	for j < len(s) && !utf8.RuneStart(s[j]) {
		j++
	}
	switch g.n(7) {
	case 0:
		if len(s) > 0 {
			return strings.ToValidUTF8(s[:len(s)-1]+"q", "q")
		}
		return "q"
	case 1:
		return s[:j] + " " + s[j:]
	case 2:
		if t := strings.ReplaceAll(s, " ", ""); t != s {
			return t
		}
		return s[:j] + "  " + s[j:]
	case 3:
		if t := strings.ToUpper(s); t != s {
			return t
		}
		return strings.ToLower(s) + "A"
	case 4:
		return s[:j] + pick(g, []string{"'", "\"", "\\", ",", ".", "[", "]", "\t", "0", "é"}) + s[j:]
	case 5:
		return s + s
	}
	return s + pick(g, []string{" ", "x", "0", "."})
}

// runKin: families of path texts that differ slightly, compiled in turn, all kept, evaluated in any order.
func runKin(c *Ctx, i int) {
	g := newGen(c)
	base := pick(g, []string{"a b", "Key", "x", "a", "", "10", "a.b", "it's", "k k k", "é"})
	names := []string{base}
	for k := 0; k < 7; k++ {
		n := g.kinString(pick(g, names))
		if indexOf(names, n) < 0 && utf8.ValidString(n) {
			names = append(names, n)
		}
	}
	obj := map[string]V{}
	var l []V
	for k, n := range names {
		obj[n] = []V{float64(k), n}
		l = append(l, map[string]V{"v": n, "i": float64(k), n: true})
	}
	doc := map[string]V{"o": obj, "l": l}
	shape := g.n(7)
	make1 := func(n string) Path {
		switch shape {
		case 0:
			return Path{sName("o"), sElems(lStr(n))}
		case 1:
			return Path{sName("l"), sFilter(xBin("==", xDot(xAt(), "v"), xStr(n)))}
		case 2:
			return Path{sName("o"), sElems(lStr(n), lStr(pick(g, names)))}
		case 3:
			return Path{nest(sElems(lStr(n)))}
		case 4:
			return Path{sName("l"), sFilter(xBin("in", xDot(xAt(), "v"), xArr(xStr(n), xStr("zz"))))}
		case 5:
			return Path{sName("l"), sFilter(xIdx(xAt(), xStr(n))), sName("i")}
		}
		return Path{sName("o"), sExpr(xStr(n)), sElems(lInt(int64(g.n(2))))}
	}
	type member struct {
		text string
		want string
		p    *jsonpath.JSONPath
	}
	var ms []*member
	for k := 0; k < 2*len(names); k++ {
		p := make1(pick(g, names))
		if g.p(0.2) {
			p = g.tweakPath(p)
		}
		var lay *Layout
		if g.p(0.5) {
			lay = g.layout()
		}
		out := Evaluate(p, doc, modelBudget)
		if out.Skip != "" || out.Err != "" {
			continue
		}
		t := p.Text(lay)
		ms = append(ms, &member{t, outcome(out.Sel.list(), nil), c.mustCompile(t)})
	}
	if len(ms) == 0 {
		return
	}
	n := 0
	for k := 0; k < 3*len(ms); k++ {
		m := pick(g, ms)
		p := m.p
		if g.p(0.3) {
			p = c.mustCompile(m.text)
		}
		r, err := c.eval(p, m.text, doc)
		n++
		if got := outcome(r, err); got != m.want {
			var ts []string
			for _, x := range ms {
				ts = append(ts, x.text)
			}
			c.Violate("path %s on %s gave %s (error %v) but must give %s; compiled before, in order:\n%s", m.text, show(doc), cut(got, 800), err, cut(m.want, 800), strings.Join(ts, "\n"))
		}
	}
	c.Count("evaluations in families of kindred paths", n)
	c.Count("evaluations judged by the reference evaluator", n)
	c.Eval(hash64(ms[0].text, canon(doc)), len(ms) > 3)
}

// runFailHist: one compiled path evaluated on documents that make it fail and on others, in any order.
func runFailHist(c *Ctx, i int) {
	g := newGen(c)
	f := &errForms[i%len(errForms)]
	var docs []V
	for k := 0; k < 3+g.n(5); k++ {
		n := 1 + g.n(4)
		x := make([]V, n)
		for j := range x {
			x[j] = clone(pick(g, f.good))
		}
		if g.p(0.5) {
			x[g.n(n)] = clone(pick(g, f.bad))
		}
		for j := range x {
			o := x[j].(map[string]V)
			o["i"], o["k"], o["sel"] = float64(g.n(n)), "k", pick(g, []V{"x", "y", "sel"})
		}
		docs = append(docs, map[string]V{"x": x, "y": map[string]V{"k": x}, "none": []V{}, "sel": pick(g, []V{"x", "y", 0.0})})
	}
	ps := []Path{{sName("x"), sFilter(f.e)}, {nest(sFilter(f.e))}, {sName("x"), nest(sExpr(f.e))}, {sName("y"), sWild(), sFilter(f.e), sWild()}, {sName("x"), sFilter(xNot(f.e))}}
	// steps in which a value left over from another evaluation would show
	atK := xDot(xAt(), "k")
	rest := []Path{
		{sName("y"), sExpr(atK)}, {sExpr(xDot(xAt(), "sel"))}, {sName("x"), sExpr(xDot(xAt(), "i"))}, {sName("x"), {K: SExpr, E: xDot(xAt(), "i")}},
		{sName("x"), sExpr(xBin("||", xDot(xAt(), "i"), xInt(0)))}, {sName("y"), sExpr(xBin("||", atK, xStr("k")))}, {sExpr(xBin("||", xDot(xAt(), "sel"), xStr("sel")))},
		{sName("x"), sExpr(xBin("-", xDot(xAt(), "length"), xInt(1)))}, {sName("x"), sExpr(xIdx(xAt(), xInt(0)))},
		{sName("none"), sFilter(f.e)}, {sName("x"), sWild(), sName("i")}, {sName("sel")},
	}
	type actor struct {
		Path
		text string
		p    *jsonpath.JSONPath
	}
	var as []actor
	for k := 0; k < 2+g.n(3); k++ {
		p := pick(g, ps)
		if k > 0 && g.p(0.5) {
			p = pick(g, rest)
		}
		t := p.Text(g.layout())
		as = append(as, actor{p, t, c.mustCompile(t)})
	}
	var log []string
	seen := map[[2]int]string{}
	fails, oks := 0, 0
	for k := 0; k < 14; k++ {
		ai, d := g.n(len(as)), g.n(len(docs))
		a := as[ai]
		log = append(log, fmt.Sprintf("evaluate %s on %s", a.text, cut(show(docs[d]), 200)))
		r, err := c.eval(a.p, a.text, docs[d])
		got := outcome(r, err)
		if was, ok := seen[[2]int{ai, d}]; ok && was != got {
			c.Violate("path %s on %s gave %s (error %v) but gave %s before; history:\n%s", a.text, show(docs[d]), cut(got, 800), err, cut(was, 800), strings.Join(log, "\n"))
		}
		seen[[2]int{ai, d}] = got
		outs := EvaluateKnown(a.Path, docs[d], modelBudget)
		if outs[0].Skip != "" {
			continue
		}
		ok := false
		var want string
		for i := len(outs) - 1; i >= 0; i-- {
			want = "failed"
			if outs[i].Err == "" {
				want = outcome(outs[i].Sel.list(), nil)
			}
			ok = ok || want == got
		}
		if outs[0].Err == "" {
			oks++
		} else {
			fails++
		}
		if !ok {
			c.Violate("path %s on %s gave %s (error %v) but must give %s; history:\n%s", a.text, show(docs[d]), cut(got, 800), err, cut(want, 800), strings.Join(log, "\n"))
		}
	}
	c.Count("failing evaluations in histories", fails)
	c.Count("evaluations judged by the reference evaluator", fails+oks)
	c.Eval(hash64(strings.Join(log, "\n")), fails > 0 && oks > 0)
}

// layered evaluates by way of the sub-packages.
func layered(text string, doc V) ([]V, error, string) {
	path, err := paths.ParsePath(text)
	if err != nil {
		return nil, nil, "ParsePath: " + err.Error()
	}
	prog, err := mach.Compile(path)
	if err != nil {
		return nil, nil, "mach.Compile: " + err.Error()
	}
	again, err := mach.Compile(path)
	if err != nil {
		return nil, nil, "mach.Compile again: " + err.Error()
	}
	r, err := prog.Run(doc)
	r2, err2 := again.Run(doc)
	if outcome(r, err) != outcome(r2, err2) {
		return nil, nil, "the same parsed path compiled twice gave different results"
	}
	return r, err, ""
}

func runHistory(c *Ctx, i int) {
	g := newGen(c)
	var docs []V
	for k := 0; k < 1+g.n(3); k++ {
		if g.p(0.3) {
			docs = append(docs, V(g.records(6)))
		} else {
			docs = append(docs, g.doc())
		}
	}
	type actor struct {
		item
		p *jsonpath.JSONPath
	}
	var actors []*actor
	add := func(p Path) {
		t := p.Text(g.layout())
		actors = append(actors, &actor{item{p, t}, nil})
	}
	for k := 0; k < 2+g.n(3); k++ {
		it := g.work(pick(g, docs))
		add(it.path)
		if g.p(0.4) {
			add(g.tweakPath(it.path))
		}
	}
	known := map[string]string{}
	var log []string
	bad := []string{"$[", "$.a b", "$[?(@.x =~ /(/)]", "", "$..", "$['a"}
	evals, changes, decided, failed := 0, 0, 0, 0
	steps := 25
	for n := 0; n < steps; n++ {
		switch x := g.n(10); {
		case x < 2:
			d := g.n(len(docs))
			if g.mutateDoc(docs[d]) {
				changes++
				log = append(log, fmt.Sprintf("change document %d", d))
			}
		case x == 2:
			t := pick(g, bad)
			c.compile(t)
			log = append(log, fmt.Sprintf("compile %q", t))
		default:
			a := pick(g, actors)
			d := g.n(len(docs))
			doc := docs[d]
			how := g.n(5)
			var r []V
			var err error
			switch how {
			case 0: // fresh
				r, err = c.eval(c.mustCompile(a.text), a.text, doc)
			case 1: // an equal copy
				if a.p == nil {
					a.p = c.mustCompile(a.text)
				}
				r, err = c.eval(a.p, a.text, clone(doc))
			case 2:
				var why string
				c.Now("layered " + a.text)
				r, err, why = layered(a.text, doc)
				if why != "" {
					c.Violate("path %s: %s", a.text, why)
				}
			default: // reused
				if a.p == nil {
					a.p = c.mustCompile(a.text)
				}
				r, err = c.eval(a.p, a.text, doc)
			}
			evals++
			if err != nil {
				failed++
			}
			log = append(log, fmt.Sprintf("evaluate (%s) %s on document %d", []string{"fresh", "copy", "layered", "reused", "reused"}[how], a.text, d))
			content := canon(doc)
			got := outcome(r, err)
			key := a.text + "\x00" + content
			hist := func() string {
				l := log
				if len(l) > 12 {
					l = l[len(l)-12:]
				}
				return strings.Join(l, "\n")
			}
			if w, ok := known[key]; ok && w != got {
				c.Violate("path %s on %s gave %s, before it gave %s; history:\n%s", a.text, show(doc), cut(got, 800), cut(w, 800), hist())
			}
			known[key] = got
			out := Evaluate(a.path, doc, 1<<16)
			if out.Skip == "" && !out.M.atUsed {
				want := "failed"
				if out.Err == "" {
					want = outcome(out.Sel.list(), nil)
				}
				decided++
				if got != want {
					c.Violate("path %s on %s gave %s (error %v) but must give %s; history:\n%s", a.text, show(doc), cut(got, 800), err, cut(want, 800), hist())
				}
			}
		}
	}
	c.Count("evaluations in histories", evals)
	c.Count("document changes in histories", changes)
	c.Count("failing evaluations in histories", failed)
	c.Count("evaluations judged by the reference evaluator", decided)
	c.Eval(hash64(strings.Join(log, "\n"), canon(docs)), evals > 5)
	if i%16 == 0 {
		c.Sample(strings.Join(log[:min(6, len(log))], "; "))
	}
}

// runRepeat: many repetitions of one evaluation, where map order could show, each must give the same bag.
func runRepeat(c *Ctx, i int) {
	g := newGen(c)
	o := map[string]V{}
	g.setNames()
	for k := 3 + g.n(12); k > 0; k-- {
		g.budget = 8
		o[pick(g, plainNames)+strconv.Itoa(k)] = g.value(3)
	}
	doc := map[string]V{"o": o, "l": []V{clone(o), o}}
	var es []*Expr
	ko := xCall("keys", xDot(xRoot(), "o"))
	es = append(es, xBin("==", xIdx(ko, xInt(0)), xStr(sortedKeys(o)[0])), xBin("==", ko, xCall("keys", xAt())), xBin("<", xIdx(ko, xInt(0)), xIdx(ko, xInt(1))),
		xBin("==", xAt(), xDot(xRoot(), "o")), xBin("in", xAt(), xDot(xRoot(), "l")), xBin("==", xIdx(xCall("keys", xAt()), xInt(-1)), xIdx(ko, xInt(-1))))
	for _, e := range es {
		for _, p := range []Path{{sName("l"), sFilter(e)}, {nest(sFilter(e))}, {sName("o"), sExpr(xIdx(ko, xInt(int64(g.n(3)))))}} {
			out := Evaluate(p, doc, modelBudget)
			if out.Skip != "" {
				continue
			}
			text := p.Text(nil)
			prog := c.mustCompile(text)
			var first string
			for k := 0; k < 12; k++ {
				if k%4 == 3 {
					prog = c.mustCompile(text)
				}
				var d V = doc
				if k%3 == 2 {
					d = clone(doc)
				}
				got := outcome(c.eval(prog, text, d))
				if k == 0 {
					first = got
				} else if got != first {
					c.Violate("path %s on %s gave %s and, later, %s", text, show(doc), cut(first, 800), cut(got, 800))
				}
			}
			c.note(text, doc, true)
		}
	}
}

// kinOf returns values alike: of the same kind and length, with the same beginning or end, or equal when
// written some way, so that results remembered under too small a key would show.
func (g *Gen) kinOf(n int) []V {
	words := []string{"alpha", "Beta9", "12.50", "x-y-z", "a,b,c", "日本語", "é", " ", "7", "abcabcabc", "the quick brown fox", "2024-01-02T03:04:05", "k=v;k=w", "0000000001"}
	s := ""
	for k := 1 + g.n(4); k > 0; k-- {
		s += pick(g, words)
	}
	if g.p(0.1) {
		s = strings.Repeat(s, 1+g.n(100))
	}
	swap := func(s string) string {
		r := []rune(s)
		j := pick(g, []int{0, len(r) - 1, g.n(len(r)), g.n(len(r))})
		r[j] = pick(g, []rune{'a', 'b', 'A', '0', '1', '9', '.', '-', 'z', ' '})
		return string(r)
	}
	l := make([]V, 0, n)
	switch g.n(6) {
	case 0, 1:
		l = append(l, s)
		for len(l) < n {
			l = append(l, swap(pick(g, l).(string)))
		}
	case 2:
		// numbers that agree in part
		x := float64(g.n(2000) - 1000)
		if g.p(0.5) {
			x += pick(g, []float64{0.25, 0.5, 0.75, 1e9, 1 << 32, 1e-9})
		}
		for len(l) < n {
			l = append(l, pick(g, []float64{x, -x, x + 1, x + 0.5, x + 256, x + 65536, x + 1<<32, x * 10, x / 10}))
		}
	case 3:
		// arrays of numbers or strings
		var a []V
		str := g.p(0.5)
		for k := 1 + g.n(12); k > 0; k-- {
			if str {
				a = append(a, V(pick(g, words)))
			} else {
				a = append(a, V(float64(g.n(50))))
			}
		}
		l = append(l, a)
		for len(l) < n {
			b := append([]V{}, pick(g, l).([]V)...)
			j := g.n(len(b))
			if str {
				b[j] = swap(pick(g, words))
			} else {
				b[j] = float64(g.n(100))
			}
			if g.p(0.2) {
				k := g.n(len(b))
				b[j], b[k] = b[k], b[j]
			}
			l = append(l, b)
		}
	case 4:
		for len(l) < n {
			m := map[string]V{}
			for _, k := range []string{"a", "b", "c", "d"} {
				if g.p(0.6) {
					m[k] = float64(g.n(3))
				}
			}
			l = append(l, m)
		}
	default:
		// spelled alike
		x := float64(g.n(30))
		t := strconv.Itoa(int(x))
		all := []V{x, t, t + ".0", " " + t, []V{x}, []V{t}, "[" + t + "]", nil, "null", true, "true", 1.0, "1", "", []V{}, map[string]V{}, "{}", "map[]", "[]", false, 0.0, "0", t + "e0"}
		for len(l) < n {
			l = append(l, pick(g, all))
		}
	}
	return l
}

// runVary: one function or operator, called over and over in a few paths taking turns, with arguments that
// differ a little from those of the calls before, changed in place between evaluations too.
func runVary(c *Ctx, i int) {
	g := newGen(c)
	xs, ys := g.kinOf(4), g.kinOf(4)
	if g.p(0.4) {
		ys = xs
	}
	var str bool
	if x, ok := xs[0].(string); ok && x != "" && g.p(0.5) {
		// patterns and parts of the string
		str = true
		ys = nil
		for k := 0; k < 4; k++ {
			r := []rune(x)
			a := g.n(len(r))
			b := a + 1 + g.n(min(3, len(r)-a))
			ys = append(ys, pick(g, []V{string(r[a:b]), string(r[:b]), string(r[a:]), "[a-z]", "[0-9]", "[A-Z]", "[a-c]", "[^ab]", "\\d+", "\\w+", "\\s+", ".", "^a", "$"}))
		}
	}
	x, y := xDot(xAt(), "x"), xDot(xAt(), "y")
	lit := func(v V, e *Expr) *Expr {
		if g.p(0.3) {
			if l := literal(v); l != nil {
				return l
			}
		}
		return e
	}
	mk := func() *Expr {
		a, b := lit(pick(g, xs), x), lit(pick(g, ys), y)
		if str && g.p(0.5) {
			return pick(g, []*Expr{xCall("tokenize", a, b), xBin("~", a, b), xBin("=~", a, b), xCall("contains", a, b), xCall("starts_with", a, b), xCall("ends_with", a, b)})
		}
		if g.p(0.5) {
			fn := fnNames[(i+g.n(2))%len(fnNames)]
			switch arity[fn] {
			case 1:
				return xCall(fn, a)
			case 2:
				return xCall(fn, a, b)
			}
			return xCall(fn, a, b)
		}
		switch g.n(8) {
		case 0:
			return xIdx(a, xInt(int64(g.n(6)-2)))
		case 1:
			return xDot(a, "length")
		case 2:
			return xBin(pick(g, []string{"==", "!=", "<", "<=", ">", ">="}), a, b)
		case 3:
			return xBin("in", a, xArr(b, a))
		case 4:
			return xBin("in", b, a)
		}
		return xBin(pick(g, []string{"+", "-", "*", "/", "%", "<", "=="}), a, b)
	}
	var es []*Expr
	for k := 0; k < 3; k++ {
		es = append(es, mk())
	}
	n := 4 + g.n(12)
	cands := make([]V, n)
	for k := range cands {
		cands[k] = map[string]V{"i": float64(k), "x": clone(pick(g, xs)), "y": clone(pick(g, ys))}
	}
	var progs []*jsonpath.JSONPath
	var paths []Path
	var texts []string
	root := V(map[string]V{"x": cands})
	for k, e := range es {
		// r is the value for this candidate, or for another
		p := Path{sName("x"), sFilter(xBin("==", e, xDot(xAt(), "r"+strconv.Itoa(k)))), sName("i")}
		if g.p(0.2) {
			p = Path{sName("x"), sFilter(xBin("==", xDot(xAt(), "r"+strconv.Itoa(k)), e)), sName("i")}
		}
		paths = append(paths, p)
		texts = append(texts, p.Text(nil))
		progs = append(progs, c.mustCompile(texts[k]))
	}
	fill := func() {
		for k, e := range es {
			r := "r" + strconv.Itoa(k)
			for _, at := range cands {
				src := at
				if g.p(0.15) {
					src = pick(g, cands)
				}
				o := at.(map[string]V)
				v, err, sk := EvalExpr(e, src, root)
				if d, ok := docValue(v); err == "" && sk == "" && ok {
					o[r] = clone(d)
				} else {
					o[r] = "none"
				}
			}
		}
	}
	fill()
	judged := 0
	for turn := 0; turn < 8; turn++ {
		k := g.n(len(es))
		out := Evaluate(paths[k], root, modelBudget)
		if out.Skip == "" && !out.M.atUsed {
			in := newInterner()
			var want []int
			if out.Err == "" {
				want = in.ids(out.Sel.list())
				judged += len(want)
			}
			c.compare(progs[k], texts[k], root, &out, in, want, mBag|mErr)
			c.Eval(hash64(texts[k], show(root), strconv.Itoa(turn)), len(want) > 0)
		}
		if g.p(0.3) {
			// change the arguments, in place
			o := pick(g, cands).(map[string]V)
			switch v := o["x"].(type) {
			case []V:
				if len(v) > 0 {
					v[g.n(len(v))] = pick(g, []V{1.0, 2.0, "a", "zz", 99.0})
				}
			case map[string]V:
				v[pick(g, []string{"a", "b", "e"})] = float64(g.n(9))
			default:
				o["x"] = clone(pick(g, xs))
			}
			fill()
		}
		if g.p(0.2) {
			g.R.Shuffle(n, func(a, b int) { cands[a], cands[b] = cands[b], cands[a] })
		}
	}
	c.Count("candidates kept", judged)
}

// ------------------------------------------------------------------ C18

type errForm struct {
	name string
	e    *Expr
	good []map[string]V
	bad  []map[string]V
}

var errForms = func() []errForm {
	v, w := xDot(xAt(), "v"), xDot(xAt(), "w")
	o := func(kv ...V) map[string]V {
		m := map[string]V{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	notStr := []V{nil, true, false, 1.0, []V{}, []V{"a"}, map[string]V{}, map[string]V{"a": "a"}}
	notArr := []V{nil, true, false, 0.0, 1.0, "", "abc", map[string]V{}, map[string]V{"0": 1.0}}
	badRe := []string{"(", ")", "[", "*", "a**", "[z-a]", "\\", "(?P<", "a{2,1}", "\\8", "(?!a)"}
	var fs []errForm
	for _, op := range []string{"~", "=~"} {
		f := errForm{op, xBin(op, v, w), []map[string]V{o("v", "abc", "w", "b"), o("v", "abc", "w", "x"), o("v", "", "w", ""), o(), o("v", "a"), o("w", "a"), o("v", 1.0), o("w", 1.0), o("w", "(")}, nil}
		for _, x := range notStr {
			f.bad = append(f.bad, o("v", x, "w", "a"), o("v", "a", "w", x), o("v", x, "w", x))
		}
		for _, x := range badRe {
			f.bad = append(f.bad, o("v", "abc", "w", x))
		}
		fs = append(fs, f)
		f = errForm{op + " literal", xBin(op, v, xRe("b")), []map[string]V{o("v", "abc"), o("v", ""), o(), o("w", 1.0)}, nil}
		for _, x := range notStr {
			f.bad = append(f.bad, o("v", x))
		}
		fs = append(fs, f)
		f = errForm{op + " from literal", xBin(op, xStr("abc"), v), []map[string]V{o("v", "b"), o("v", "x"), o(), o("v", "^a.c$")}, nil}
		for _, x := range notStr {
			f.bad = append(f.bad, o("v", x))
		}
		for _, x := range badRe {
			f.bad = append(f.bad, o("v", x))
		}
		fs = append(fs, f)
	}
	for _, op := range []string{"in", "nin"} {
		f := errForm{op, xBin(op, v, w), []map[string]V{o("v", 1.0, "w", []V{1.0}), o("v", nil, "w", []V{}), o("v", "a", "w", []V{"b", nil}), o(), o("v", 1.0), o("w", []V{}), o("w", 1.0), o("w", nil)}, nil}
		for _, x := range notArr {
			f.bad = append(f.bad, o("v", 1.0, "w", x), o("v", nil, "w", x), o("v", []V{}, "w", x))
		}
		fs = append(fs, f)
		f = errForm{op + " literal", xBin(op, xInt(1), v), []map[string]V{o("v", []V{1.0}), o("v", []V{}), o()}, nil}
		for _, x := range notArr {
			f.bad = append(f.bad, o("v", x))
		}
		fs = append(fs, f)
	}
	return fs
}()

// runFailAt puts one bad candidate, or none, at each position of a list.
func runFailAt(c *Ctx, i int) {
	g := newGen(c)
	f := &errForms[i%len(errForms)]
	n := 1 + g.n(9)
	if g.p(0.05) {
		n = 300
	}
	x := make([]V, n)
	for k := range x {
		o := clone(pick(g, f.good)).(map[string]V)
		o["i"] = float64(k)
		x[k] = o
	}
	at := g.n(n)
	badOne := pick(g, f.bad)
	withBad := g.p(0.7)
	if withBad {
		o := clone(badOne).(map[string]V)
		o["i"] = float64(at)
		x[at] = o
	}
	var cont V = x
	if g.p(0.3) {
		m := map[string]V{}
		for k, v := range x {
			m["k"+strconv.Itoa(k)] = v
		}
		cont = m
	}
	doc := map[string]V{"x": cont, "y": []V{cont, cont}, "q": []V{}}
	e := f.e
	switch g.n(7) {
	case 0:
		e = xNot(e)
	case 1:
		e = xBin("==", e, xBool(g.p(0.5)))
	case 2:
		e = xIdx(xArr(xInt(1), e), xInt(1))
	case 3:
		e = xBin(pick(g, []string{"||", "&&"}), e, xBool(g.p(0.5)))
	case 4:
		e = xCall("length", xArr(e))
	case 5:
		e = xBin(pick(g, []string{"<", "+", "==", "in"}), e, xArr(xInt(1)))
	}
	guard := func(op string, k int) *Step {
		return sFilter(xBin(op, xDot(xAt(), "i"), xInt(int64(k))))
	}
	ps := []Path{
		{sName("x"), sFilter(e)},
		{nest(sFilter(e))},
		{sName("y"), sWild(), sFilter(e)},
		{sName("x"), sFilter(e), sName("i")},
		{sName("x"), sFilter(e), sName("nosuch"), nest(sWild())},
		{sName("x"), guard("!=", at), nest(sFilter(e))},
		{sName("x"), guard("==", at), nest(sFilter(e))},
		{sName("x"), guard(">=", 0), nest(sExpr(e))},
		{sName("q"), sFilter(e)},
		{sName("y"), nest(sFilter(e))},
		{sElems(lStr("q"), lStr("x")), sFilter(e)},
	}
	p := pick(g, ps)
	text := p.Text(g.layout())
	out := c.checkText(p, text, doc, mBag|mErr)
	if !out.decided(mErr) {
		return
	}
	c.note(text, doc, out.Err != "" || out.M.cands > 0)
	if out.Err != "" {
		c.Count("evaluations that failed as they must", 1)
		c.Max("latest failing candidate", at)
	} else {
		c.Count("evaluations that succeeded as they must", 1)
	}
}

// runFailStatic: unknown functions, wrong argument counts and constant bad operands, under every shape of path.
func runFailStatic(c *Ctx, i int) {
	g := newGen(c)
	var es []*Expr
	fn := fnNames[i%len(fnNames)]
	for n := 0; n < 6; n++ {
		args := make([]*Expr, n)
		for k := range args {
			args[k] = pick(g, []*Expr{xInt(1), xStr("a"), xArr(xInt(1)), xAt(), xDot(xAt(), "nosuch"), xNull()})
			// an argument that fails in a call that would fail anyway adds nothing
		}
		es = append(es, xCall(fn, args...))
	}
	for _, u := range []string{fn + "x", "x" + fn, strings.ToUpper(fn), fn[:len(fn)-1], "nosuch", "é", "_", "length_"} {
		if _, ok := arity[u]; !ok {
			es = append(es, xCall(u), xCall(u, xInt(1)), xCall(u, xDot(xAt(), "nosuch")))
		}
	}
	es = append(es, xBin("~", xInt(1), xRe("a")), xBin("=~", xStr("a"), xStr("(")), xBin("=~", xStr("a"), xInt(1)), xBin("in", xInt(1), xInt(1)), xBin("nin", xStr("a"), xStr("abc")),
		xBin("in", xDot(xAt(), "nosuch"), xInt(1)), xBin("~", xDot(xAt(), "nosuch"), xInt(1)), xBin("~", xInt(1), xDot(xAt(), "nosuch")), xBin("in", xInt(1), xDot(xAt(), "nosuch")))
	doc := map[string]V{"x": []V{1.0, "a"}, "o": map[string]V{"a": 1.0}, "e": []V{}, "s": "str", "eo": map[string]V{}}
	for _, e := range es {
		for _, p := range []Path{
			{sName("x"), sFilter(e)}, {sName("e"), sFilter(e)}, {sName("eo"), sFilter(e)}, {sName("s"), sFilter(e)}, {sName("nosuch"), sFilter(e)}, {sName("o"), sFilter(e)},
			{nest(sFilter(e))}, {sName("s"), nest(sFilter(e))}, {sName("nosuch"), nest(sFilter(e))}, {sName("e"), nest(sFilter(e))},
			{sName("x"), sExpr(e)}, {sName("x"), nest(sExpr(e))}, {sName("s"), nest(sExpr(e))},
			{sName("x"), sFilter(xBool(false)), sFilter(e)}, {nest(sName("nosuch")), nest(sExpr(e))},
			{sName("x"), sFilter(xBin("==", e, xInt(1)))},
			{sName("x"), sElems(Elem{K: LSlice, B: [3]Bound{{Set: true, E: e}, {}, {}}}, lInt(0))}, {nest(sElems(Elem{K: LSlice, B: [3]Bound{{}, {Set: true, E: e}, {}}}))},
		} {
			text := p.Text(g.layout())
			out := c.checkText(p, text, doc, mBag|mErr)
			if !out.decided(mErr) {
				continue
			}
			c.note(text, doc, true)
			if out.Err != "" {
				c.Count("evaluations that failed as they must", 1)
			} else {
				c.Count("evaluations that succeeded as they must", 1)
			}
		}
	}
}

func runFailRandom(c *Ctx, i int) {
	g := newGen(c)
	doc := g.doc()
	if i%2 == 0 {
		doc = g.records(8)
	}
	for k := 0; k < 4; k++ {
		it := g.work(doc)
		out := c.checkText(it.path, it.text, doc, mBag|mErr)
		if !out.decided(mErr) {
			continue
		}
		c.note(it.text, doc, out.Err != "" || out.M.cands > 0)
		if out.Err != "" {
			c.Count("evaluations that failed as they must", 1)
		} else {
			c.Count("evaluations that succeeded as they must", 1)
		}
	}
}

// ------------------------------------------------------------------ C21

// runKeys: computed keys and indexes against arrays and objects made to distinguish them.
func runKeys(c *Ctx, i int) {
	g := newGen(c)
	n := g.n(8)
	arr := make([]V, n)
	for k := range arr {
		arr[k] = fmt.Sprint("e", k)
	}
	obj := map[string]V{}
	for k := -n - 1; k <= n+1; k++ {
		if g.p(0.7) {
			obj[strconv.Itoa(k)] = fmt.Sprint("m", k)
		}
	}
	for _, nm := range []string{"a", "", "length", "x y", "1.5", "-0", "00", "é", "'", "key", "null", "true"} {
		if g.p(0.6) {
			obj[nm] = "n" + nm
		}
	}
	keys := []V{}
	for k := 0; k < 6; k++ {
		switch g.n(4) {
		case 0:
			keys = append(keys, float64(g.n(2*n+5)-n-2))
		case 1:
			keys = append(keys, float64(g.n(4*n+9)-2*n-4)/2)
		case 2:
			keys = append(keys, pick(g, append(sortedKeys(obj), "nosuch", "1")))
		default:
			keys = append(keys, pick(g, []V{1e6, 4194304.0, -4194305.0, 8388608.0, 2147483648.0, -2147483649.0, 4503599627370496.0}))
		}
	}
	sel := map[string]V{"list": keys, "rec": map[string]V{"k": keys[0]}}
	t := []V{arr, obj, "text", nil, 5.0, []V{}, map[string]V{}}
	doc := map[string]V{"t": t, "arr": arr, "obj": obj, "sel": sel}
	g.root = doc
	list := xDot(xDot(xRoot(), "sel"), "list")
	for k := 0; k < 10; k++ {
		var e *Expr
		switch g.n(6) {
		case 0, 1:
			e = xIdx(list, xInt(int64(g.n(len(keys)+1)-1)))
		case 2:
			e = xDot(xDot(xDot(xRoot(), "sel"), "rec"), "k")
		case 3:
			e = g.spell(pick(g, []V{int64(g.n(2*n+5) - n - 2), pick(g, append(sortedKeys(obj), "nosuch"))}), 3)
		case 4:
			e = xBin(pick(g, []string{"+", "-", "*", "/", "%"}), xIdx(list, xInt(int64(g.n(len(keys))))), pick(g, []*Expr{xInt(1), xReal(0.5), xInt(2), xDot(xDot(xRoot(), "arr"), "length"), xInt(0)}))
		default:
			e = pick(g, []*Expr{xDot(xRoot(), "nosuch"), xIdx(list, xInt(99)), xNeg(xDot(xRoot(), "nosuch")), xDot(xDot(xRoot(), "arr"), "length"), xBin("-", xDot(xDot(xRoot(), "arr"), "length"), xInt(1)), xNeg(xDot(xDot(xRoot(), "arr"), "length")), xBin("/", xInt(1), xInt(0)), xCall("length", xDot(xRoot(), "obj")), xIdx(xCall("keys", xDot(xRoot(), "obj")), xInt(0)), xStr("length"), xReal(0.9), xReal(-0.9), xReal(-1.9), xNeg(xReal(0.5))})
		}
		dotted := g.p(0.4)
		s := &Step{K: SExpr, E: e, Brack: !dotted}
		for _, p := range []Path{{sName("arr"), s}, {sName("obj"), s}, {sName("t"), sWild(), s}, {nest(s)}, {sName("t"), nest(s)}, {sName("t"), s, s}, {sName("nosuch"), s}} {
			text := p.Text(g.layout())
			out := c.checkText(p, text, doc, mBag|mOrder)
			if !out.decided(mBag) || out.Err != "" {
				continue
			}
			c.note(text, doc, true)
			c.Count("results selected by computed keys", out.Sel.N)
			if out.Sel.N > 0 {
				c.Count("computed keys that selected something", 1)
			}
		}
	}
}

// runKeysSame: [(e)] selects as the constant e evaluates to would.
func runKeysSame(c *Ctx, i int) {
	g := newGen(c)
	doc := g.doc()
	for k := 0; k < 4; k++ {
		pre := g.path(doc, PathOpts{Steps: g.n(3), Nest: 0.2, Wild: 0.4, Union: 0.2, Slice: 0.1, MaxRes: 300})
		out := Evaluate(pre, doc, 1<<16)
		if out.Skip != "" || out.Err != "" {
			continue
		}
		cur := out.Sel.list()
		var t V
		if len(cur) > 0 {
			t = pick(g, cur)
		}
		g.root, g.ats = doc, nil
		e := g.keyExpr(t, false)
		v, err, skipped := EvalExpr(e, nil, doc)
		if err != "" || skipped != "" {
			continue
		}
		brack := g.p(0.6)
		nested := g.p(0.3)
		s := &Step{K: SExpr, E: e, Brack: brack, Nest: nested}
		var same *Step
		switch v := v.(type) {
		case string:
			same = sElems(lStr(v))
		case int64:
			if v <= math.MinInt64+1 {
				continue // not accepted as a literal in a path
			}
			same = &Step{K: SInt, I: v}
			if brack {
				same = sElems(lInt(v))
			}
		case float64:
			if math.Abs(v) > 1<<53 || math.IsNaN(v) {
				continue
			}
			same = &Step{K: SInt, I: int64(v)}
			if brack {
				same = sElems(lInt(int64(v)))
			}
		case nothingT:
		default:
			continue
		}
		text := append(append(Path{}, pre...), s).Text(g.layout())
		r, rerr := c.eval(c.mustCompile(text), text, doc)
		got := outcome(r, rerr)
		want := outcome(nil, nil)
		ctext := "(nothing)"
		if same != nil {
			same.Nest = nested
			ctext = append(append(Path{}, pre...), same).Text(nil)
			r, rerr = c.eval(c.mustCompile(ctext), ctext, doc)
			want = outcome(r, rerr)
		}
		if got != want {
			c.Violate("on %s the path %s gave %s, but %s (the value of the expression) gave %s", show(doc), text, cut(got, 800), ctext, cut(want, 800))
		}
		c.note(text, doc, true)
	}
}

// runAtSteps: expressions using @ in steps that are not after "..", which K1 is about: what they select must be
// what is specified or what K1 says, whatever filters and other steps come before.
func runAtSteps(c *Ctx, i int) {
	g := newGen(c)
	doc := g.doc()
	opt := PathOpts{Steps: 1 + g.n(3), Nest: 0.25, Filter: 0.5, Wild: 0.25, Union: 0.1, Slice: 0.1, MaxRes: 200, FilterGen: filterOver(doc, 2), ExprGen: keyOver(doc)}
	for k := 0; k < 4; k++ {
		pre := g.path(doc, opt)
		out := Evaluate(pre, doc, 1<<16)
		if out.Skip != "" || out.Err != "" || out.Sel.N == 0 {
			continue
		}
		cur := out.Sel.list()
		g.root, g.ats = doc, g.sampleOf(cur, 6)
		var e *Expr
		switch g.n(3) {
		case 0:
			// a key or index held by one of the values themselves
			e = pick(g, []*Expr{xDot(xAt(), "k"), xIdx(xAt(), xInt(0)), xIdx(xAt(), xInt(-1)), xAt(), xBin("-", xDot(xAt(), "length"), xInt(1)), xCall("length", xAt())})
			if ks := namesOf(cur); len(ks) > 0 && g.p(0.6) {
				e = xIdx(xAt(), xStr(pick(g, ks)))
			}
		case 1:
			e = xBin("||", g.keyExpr(pick(g, cur), true), g.keyExpr(pick(g, cur), false))
		default:
			e = g.keyExpr(pick(g, cur), true)
		}
		g.ats = nil
		p := append(append(Path{}, pre...), &Step{K: SExpr, E: e, Brack: g.p(0.7)})
		if g.p(0.3) {
			p = append(p, sWild())
		}
		text := p.Text(g.layout())
		if c.checkKnown(p, text, doc, mBag|mOrder) {
			c.note(text, doc, e.has(EAt))
		}
	}
}

// namesOf lists member names of the objects in vals.
func namesOf(vals []V) []string {
	var l []string
	for _, v := range vals {
		if o, ok := v.(map[string]V); ok && len(l) < 100 {
			l = append(l, sortedKeys(o)...)
		}
	}
	return l
}

// runAtFinding probes the listed finding K1.
func runAtFinding(c *Ctx, i int) {
	doc := map[string]V{"a": []V{1.0, 2.0, 3.0}, "o": map[string]V{"k": "v", "v": 7.0}}
	for _, t := range []struct {
		key  string
		p    Path
		want V
	}{
		{"K1-last", Path{sName("a"), sExpr(xBin("-", xDot(xAt(), "length"), xInt(1)))}, 3.0},
		{"K1-member", Path{sName("o"), sExpr(xDot(xAt(), "k"))}, 7.0},
		{"K1-dot", Path{sName("a"), {K: SExpr, E: xIdx(xAt(), xInt(0))}}, 2.0},
	} {
		text := t.p.Text(nil)
		r, err := c.eval(c.mustCompile(text), text, doc)
		switch {
		case err == nil && len(r) == 1 && r[0] == t.want:
			c.Count("as specified", 1)
		case err == nil && len(r) == 0:
			c.Finding(t.key)
		default:
			c.Violate("path %s on %s gave %s, %v", text, show(doc), show(r), err)
		}
		c.Eval(hash64(text), true)
	}
}

func init() {
	register(&Prop{ID: "C14", Race: true, Workers: 4,
		Rule: "goroutines evaluate shared and fresh compiled paths on shared documents, compile texts and overwrite their own result lists, under the race detector, with 1 to 8 processors and random yields; every result compared with the same call made alone and with the reference evaluator; non-trivial: at least two calls overlapped in time; distinct by paths and observed order of starts and ends",
		Phases: []Phase{
			{Name: "concurrent", N: fixedN(1600, 40000), Run: runConcurrent},
			{Name: "crowd", N: fixedN(60, 1500), Run: runCrowd},
			{Name: "scale", N: fixedN(40, 1200), Run: runConcScale},
		}})
	register(&Prop{ID: "C15",
		Rule: "sequences of evaluations on documents whose arrays have sentinels in their spare capacity, with caller writes through the whole capacity of result lists; documents, sentinels and all retained lists compared after every step; non-trivial: at least two lists retained and one written",
		Phases: []Phase{
			{Name: "histories", N: fixedN(9000, 250000), Run: runFresh},
			{Name: "functions", N: fixedN(240, 6000), Run: runFreshFns},
			{Name: "scale", N: fixedN(30, 1000), Run: runScaleFresh},
		}})
	register(&Prop{ID: "C16",
		Rule: "evaluations that end, or fail at a chosen candidate, in 20 shapes of path and in random paths, repeated, and evaluations and compilations at sizes to 100,000, after which the goroutine count must return to its baseline and the documents must be collectable; non-trivial: the path iterates or fails",
		Phases: []Phase{
			{Name: "failing", N: fixedN(19*160, 19*3000), Run: runLeak},
			{Name: "random", N: fixedN(6000, 150000), Run: runLeakRandom},
			{Name: "retention", N: fixedN(24, 240), Run: runRetain},
			{Name: "scale", N: fixedN(14, 700), Run: runLeakScale},
		}})
	register(&Prop{ID: "C17",
		Rule: "random histories of compilations, evaluations (fresh, reused, on equal copies, through the sub-packages; failing ones included) and changes of the documents in place; families of path texts differing in one character, a space or case, compiled together; one compiled path on documents that fail it and others, alternately; each function and operator called on arguments alike in kind, length, beginning or end, by paths taking turns; every result compared with the first for that text and content and with the reference evaluator; non-trivial: more than five evaluations in the history",
		Phases: []Phase{
			{Name: "histories", N: fixedN(6000, 160000), Run: runHistory},
			{Name: "kin", N: fixedN(5000, 100000), Run: runKin},
			{Name: "failures", N: fixedN(5000, 100000), Run: runFailHist},
			{Name: "scale", N: fixedN(40, 1600), Run: runSameScale},
			{Name: "repeats", N: fixedN(800, 16000), Run: runRepeat},
			{Name: "calls", N: fixedN(12000, 240000), Run: runVary},
			{Name: "many evaluations", Fixed: true, N: fixedN(len(manyForms), len(manyForms)), Run: runManyEvals},
			{Name: "many programs", Fixed: true, N: fixedN(4, 4), Run: runManyPrograms},
		}})
	register(&Prop{ID: "C18",
		Rule: "one bad candidate (or none) at every position under ten forms of ~, =~, in and nin and several shapes of path; every function with 0 to 5 arguments, unknown names and constant bad operands under 18 shapes of path; random paths; failure or success and the results compared with the reference evaluator; non-trivial: something failed or candidates were judged",
		Phases: []Phase{
			{Name: "positions", N: fixedN(40000, 900000), Run: runFailAt},
			{Name: "static", N: fixedN(15*4, 15*80), Run: runFailStatic},
			{Name: "many arguments", Fixed: true, N: fixedN(2*len(fnNames), 8*len(fnNames)), Run: runManyArgs},
			{Name: "random", N: fixedN(9000, 200000), Run: runFailRandom},
			{Name: "scale", N: fixedN(40, 1200), Run: runScaleFail},
		}})
	register(&Prop{ID: "C21",
		Rule: "keys and indexes computed from constants, operators, functions and the document, applied by [(e)], .(e) and after .. to arrays and objects whose elements and members tell keys apart; compared with the reference evaluator and with the constant the expression evaluates to; distinct by path and document",
		Phases: []Phase{
			{Name: "keys", N: fixedN(3000, 80000), Run: runKeys},
			{Name: "constants", N: fixedN(10000, 250000), Run: runKeysSame},
			{Name: "paths", N: fixedN(8000, 200000), Run: runSteps(mBag, false, PathOpts{Steps: 4, Nest: 0.35, Wild: 0.15, Union: 0.05, Filter: 0.05, ExprStep: 0.6, Miss: 0.05})},
			{Name: "at", N: fixedN(6000, 120000), Run: runAtSteps},
			{Name: "long keys", N: fixedN(600, 20000), Run: runKinNames},
			{Name: "findings", Fixed: true, N: fixedN(1, 1), Run: runAtFinding},
		}})
}
