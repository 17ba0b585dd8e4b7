package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"
)

// C23: the cost of compiling and of evaluating.

// cost measures the processor time and the memory allocated by f.
func cost(f func()) (time.Duration, uint64) {
	var a, b runtime.MemStats
	var ra, rb syscall.Rusage
	runtime.GC()
	runtime.ReadMemStats(&a)
	syscall.Getrusage(syscall.RUSAGE_SELF, &ra)
	f()
	syscall.Getrusage(syscall.RUSAGE_SELF, &rb)
	runtime.ReadMemStats(&b)
	t := func(r *syscall.Rusage) time.Duration { return time.Duration(r.Utime.Nano() + r.Stime.Nano()) }
	return t(&rb) - t(&ra), b.TotalAlloc - a.TotalAlloc
}

const (
	costGrow   = 32 // the larger case's size, in times the smaller's
	costSlackT = 6  // how far beyond proportion is tolerated: caches and collections have their effects
	costSlackB = 3
	costFloorT = 4 * time.Millisecond // costs below these are taken to be these
	costFloorB = 256 << 10
)

type costCase struct {
	what string
	make func(n int) func() // makes the work of size n, ready to be measured
	n    int                // least size of the smaller case
	most int                // and its greatest
}

// growth measures the smaller and the larger case; excess 1 would be quadratic growth, and 0 growth in proportion.
func (c *Ctx) growth(k costCase) {
	c.Now("cost of " + k.what)
	small := k.make(k.n)
	for r := 0; r < 6; r++ {
		// large enough to measure
		if t, _ := cost(small); t >= costFloorT || k.n*2 > k.most {
			break
		}
		k.n *= 2
		small = k.make(k.n)
	}
	large := k.make(k.n * costGrow)
	var why string
	for try := 0; try < 4; try++ {
		t1, b1 := time.Duration(0), uint64(0)
		for r := 0; r < 2; r++ {
			t, b := cost(small)
			t1, b1 = max(t1, t), max(b1, b)
		}
		t2, b2 := cost(large)
		t1, b1 = max(t1, costFloorT), max(b1, costFloorB)
		rt, rb := float64(t2)/float64(t1), float64(b2)/float64(b1)
		c.Max("largest growth of time, percent of proportion", int(100*rt/costGrow))
		c.Max("largest growth of allocation, percent of proportion", int(100*rb/costGrow))
		c.Max("longest measurement, ms", int(t2/time.Millisecond))
		c.Count("measurements", 3)
		why = ""
		if rt > costGrow*costSlackT {
			why = fmt.Sprintf("%s: with %d times the size (%d for %d) the processor time grew %.0f times, from %v to %v", k.what, costGrow, k.n*costGrow, k.n, rt, t1, t2)
		} else if rb > costGrow*costSlackB {
			why = fmt.Sprintf("%s: with %d times the size (%d for %d) the memory allocated grew %.0f times, from %d to %d bytes", k.what, costGrow, k.n*costGrow, k.n, rb, b1, b2)
		}
		if why == "" {
			break
		}
	}
	if why != "" {
		c.Violate("%s", why)
	}
	c.Eval(hash64(k.what), true)
	c.Sample(k.what)
}

// compiling returns a case that compiles texts (accepted or not).
func compiling(what string, n int, text func(n int) string) costCase {
	most := 1 << 17 / (1 + len(text(1000))/1000)
	if n <= 500 {
		most = n // nesting has a limit
	}
	return costCase{"compiling " + what, func(n int) func() {
		s := text(n)
		return func() {
			jsonpath.Compile(s)
			paths.ParsePath(s)
		}
	}, n, most}
}

func rep(s string) func(n int) string {
	return func(n int) string { return strings.Repeat(s, n) }
}

// numbered repeats a text with a number in it.
func numbered(f, sep string) func(n int) string {
	return func(n int) string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString(sep)
			}
			sb.WriteString(strings.ReplaceAll(f, "#", strconv.Itoa(i)))
		}
		return sb.String()
	}
}

func around(a string, f func(n int) string, b string) func(n int) string {
	return func(n int) string { return a + f(n) + b }
}

func nested(a, mid, b string) func(n int) string {
	return func(n int) string { return strings.Repeat(a, n) + mid + strings.Repeat(b, n) }
}

var compileCosts = func() []costCase {
	var l []costCase
	add := func(what string, n int, f func(n int) string) { l = append(l, compiling(what, n, f)) }
	add("many member steps", 4000, around("$", rep(".abc"), ""))
	add("many different member steps", 4000, around("$", numbered(".a#", ""), ""))
	add("many index steps", 4000, around("$", rep("[7]"), ""))
	add("many large index steps", 4000, around("$", numbered("[9999#]", ""), ""))
	add("many wildcards", 4000, around("$", rep(".*[*]"), ""))
	add("many descents", 4000, around("$", rep("..a..*"), ""))
	add("many slices", 3000, around("$", numbered("[#:9#:2]", ""), ""))
	add("many filters", 2000, around("$", numbered("[?(@.a > #)]", ""), ""))
	add("many expression steps", 2000, around("$", numbered("[(@.length-#)]", ""), ""))
	add("a union of integers", 4000, around("$[", numbered("#", ","), "]"))
	add("a union of strings", 4000, around("$[", numbered("'a#'", ","), "]"))
	add("a union of one string many times", 4000, around("$[", rep("'a',"), "'a']"))
	add("a union of slices", 3000, around("$[", numbered("#:", ","), "]"))
	add("a union of expressions", 3000, around("$[", numbered("(#+1)", ","), "]"))
	add("a long name", 100000, around("$.", rep("a"), ""))
	add("a long string", 100000, around("$['", rep("a"), "']"))
	add("a long string of escapes", 50000, around("$['", rep("\\u00e9\\n"), "']"))
	add("a long string of surrogate pairs", 20000, around("$['", rep("\\ud83d\\ude00"), "']"))
	add("a long string of unpaired surrogates", 30000, around("$['", rep("\\ud83d"), "']"))
	add("a long string of backslashes", 50000, around("$['", rep("\\\\"), "']"))
	add("a long regular expression", 10000, around("$[?(@ ~ /", rep("ab"), "/)]"))
	add("a long regular expression of slashes", 10000, around("$[?(@ ~ /", rep("\\/"), "/)]"))
	add("very many regular expressions", 2500, around("$[?(0 in [0", numbered(", @ ~ /a#/", ""), "])]"))
	add("many regular expressions", 280, around("$[?(", numbered("@ ~ /a#/", "||"), ")]"))
	add("white space", 100000, around("$", rep(" "), ".a"))
	add("lines", 100000, around("$[?(", rep("\n"), "1)]"))
	add("white space at the end", 100000, around("$.a", rep(" \t"), ""))
	add("a long integer", 100000, around("$[", rep("0"), "1]"))
	add("a long real", 20000, around("$[?(1.", rep("3"), " > 1)]"))
	for _, op := range allBinOps {
		r := "1"
		if op == "in" || op == "nin" {
			r = "[1]"
		}
		add("a chain of "+op, 5000, around("$[?(1", rep(" "+op+" "+r), ")]"))
		add("a filter of operands of "+op+" in parentheses", 140, around("$[?(", nested("(1 "+op+" ", "1", ")"), ")]"))
	}
	add("a chain of alternating operators", 3000, around("$[?(1", rep(" + 1 * 2 < 3 && 4 == 5 || 6"), ")]"))
	add("different integers", 4000, around("$[?(1", numbered(" + 10#", ""), ")]"))
	add("different large integers", 4000, around("$[?(1", numbered(" + 1000000000#", ""), ")]"))
	add("different reals", 4000, around("$[?(1", numbered(" + 1#.5", ""), ")]"))
	add("different strings", 4000, around("$[?(1", numbered(" + 's#'", ""), ")]"))
	add("different names", 4000, around("$[?(1", numbered(" + @.n#", ""), ")]"))
	add("parentheses", 280, around("$[?(", nested("(", "1", ")"), ")]"))
	add("nested arrays", 280, around("$[?(@ == ", nested("[", "1", "]"), ")]"))
	add("nested indexes", 280, around("$[?(", nested("@[", "1", "]"), ")]"))
	add("nested calls", 280, around("$[?(", nested("abs(", "1", ")"), ")]"))
	add("minus signs", 280, around("$[?(", rep("- "), "1)]"))
	add("exclamation marks", 280, around("$[?(", rep("!"), "1)]"))
	add("an array of integers", 4000, around("$[?(@ in [", numbered("#", ","), "])]"))
	add("arguments", 4000, around("$[?(max(", numbered("#", ","), "))]"))
	add("members of members", 4000, around("$[?(@", rep(".a"), ")]"))
	add("indexes of indexes", 4000, around("$[?(@", rep("[0]"), ")]"))
	// rejected
	add("a path with a fault at its end", 4000, around("$", numbered(".a#", ""), "!"))
	add("an unclosed string", 100000, around("$['", rep("a"), ""))
	add("an unclosed regular expression", 100000, around("$[?(@ ~ /", rep("a"), ""))
	add("unclosed parentheses", 280, around("$[?(", rep("("), ""))
	add("unclosed brackets", 280, around("$[?(", rep("["), ""))
	add("too many parentheses", 20000, around("$[?(", rep("("), ""))
	add("too many minus signs", 20000, around("$[?(", rep("-"), "1)]"))
	add("open brackets", 20000, around("$", rep("["), ""))
	add("dots", 50000, around("$", rep("."), ""))
	add("a union not closed", 4000, around("$[", rep("1,"), ""))
	add("a chain with a fault at its end", 4000, around("$[?(1", rep(" + 1"), "+)]"))
	return l
}()

// evaluating returns a case that evaluates a path on a document of size n.
func evaluating(path string, what string, n int, doc func(n int) V) costCase {
	most := n * 4
	if strings.Contains(what, "deep") {
		most = n
	}
	return costCase{"evaluating " + cut(path, 300) + " on " + what, func(n int) func() {
		p := jsonpath.MustCompile(path)
		d := doc(n)
		return func() { p.Eval(d) }
	}, n, most}
}

// evaluatingLong returns a case whose path grows.
func evaluatingLong(what string, n int, text func(n int) string, doc func(n int) V) costCase {
	most := n * 4
	if n <= 2000 || strings.Contains(what, "pattern") {
		most = n
	}
	return costCase{"evaluating " + what, func(n int) func() {
		p := jsonpath.MustCompile(text(n))
		d := doc(n)
		return func() { p.Eval(d) }
	}, n, most}
}

func listOf(f func(i int) V) func(n int) V {
	return func(n int) V {
		l := make([]V, n)
		for i := range l {
			l[i] = f(i)
		}
		return l
	}
}

func objectOf(f func(i int) V) func(n int) V {
	return func(n int) V {
		m := make(map[string]V, n)
		for i := 0; i < n; i++ {
			m["m"+strconv.Itoa(i)] = f(i)
		}
		return m
	}
}

func deepOf(f func(v V) V) func(n int) V {
	return func(n int) V {
		v := V(1.0)
		for i := 0; i < n; i++ {
			v = f(v)
		}
		return v
	}
}

func num(i int) V  { return float64(i) }
func word(i int) V { return "w" + strconv.Itoa(i) }
func rec(i int) V {
	return map[string]V{"n": float64(i), "s": "w" + strconv.Itoa(i), "l": []V{float64(i), 1.0}, "o": map[string]V{"n": 1.0}}
}
func in1(f func(n int) V) func(n int) V {
	return func(n int) V { return []V{f(n)} }
}

var evalCosts = func() []costCase {
	var l []costCase
	nums, words, recs := listOf(num), listOf(word), listOf(rec)
	onums, orecs := objectOf(num), objectOf(rec)
	add := func(path, what string, n int, doc func(n int) V) { l = append(l, evaluating(path, what, n, doc)) }
	for _, p := range []string{"$[*]", "$[:]", "$[::-1]", "$[1::3]", "$[0,1:,'a']", "$..*", "$..[0]", "$..[*]", "$[?(@ > 5)]", "$[?(@ < 0)]", "$..[?(@ > 5)]", "$[?(@)][?(@)]", "$[*][*]", "$[?(@ in [1,2,3])]", "$[?(@ == 'x')]", "$[?(@ ~ 'x' || 1)]", "$[(1+1)]", "$..[(1+1)]", "$[-1]"} {
		if !strings.Contains(p, "~") {
			add(p, "an array of numbers", 10000, nums)
		}
		add(p, "an array of strings", 5000, words)
		if !strings.Contains(p, "~") {
			add(p, "an object of numbers", 5000, onums)
			add(p, "an array of records", 1000, recs)
			add(p, "an object of records", 1000, orecs)
			add(p, "an array of empty arrays", 5000, listOf(func(int) V { return []V{} }))
			add(p, "a deep array", 2000, deepOf(func(v V) V { return []V{v} }))
			add(p, "a deep object", 2000, deepOf(func(v V) V { return map[string]V{"a": v} }))
			add(p, "a deep array with a number at each level", 2000, deepOf(func(v V) V { return []V{v, 1.0} }))
		}
	}
	for _, p := range []string{"$[*].n", "$[*].l[0]", "$..n", "$..l", "$..['n','s']", "$[*]['n','s']", "$[?(@.n > 3)].s", "$[?(@.s ~ /5/)]", "$[?(@.s ~ 'w[0-9]5')]", "$[?(@.l.length == 2 && @.o.n == 1)]", "$[?(sum(@.l) > 10)]", "$[?(keys(@)[0] == 'l')]", "$[?(@.l == [1,1])]", "$..[?(@.n == 7)]", "$[*].l[?(@ == 1)]", "$[*].l[(@.length-1)]", "$[?(contains(@.s, '9'))].n", "$[?(tokenize(@.s, '5').length == 2)]", "$[*].o.*", "$[?(@.missing)]", "$[?(@.n == 3 || @.n == 4)]", "$[?(@.s + 'x' == 'w1x')]"} {
		add(p, "an array of records", 1500, recs)
		add(p, "an object of records", 1500, orecs)
	}
	for _, f := range fnNames {
		args := "@"
		if arity[f] == 2 {
			args = "@, 'w4'"
		}
		p := "$[?(" + f + "(" + args + "))]"
		add(p, "a list of one array of numbers", 20000, in1(nums))
		add(p, "a list of one array of strings", 10000, in1(words))
		add(p, "a list of one object", 4000, in1(onums))
		add(p, "a list of one long string", 100000, in1(func(n int) V { return strings.Repeat("aw4é", n) }))
		add(p, "an array of numbers", 5000, nums)
		add(p, "an array of strings", 5000, words)
	}
	pair := func(f func(n int) V) func(n int) V {
		return func(n int) V { return []V{map[string]V{"a": f(n), "b": f(n)}} }
	}
	for _, p := range []string{"$[?(@.a == @.b)]", "$[?(@.a != @.b)]", "$[?(@.a in [1,2,@.b])]", "$[?(1 in @.a)]", "$[?('x' in @.a)]", "$[?(@.a < @.b)]", "$[?([@.a] == [@.b])]", "$[?(@.a.length)]", "$[?(@.a[0])]", "$[?(@.a[-1])]", "$[?(@.a + @.b)]", "$[?(@.a || @.b)]", "$[?(!@.a)]", "$[?(@.a['zz'])]", "$[?(contains(@.a, @.b))]"} {
		add(p, "two equal arrays of numbers", 20000, pair(nums))
		add(p, "two equal arrays of strings", 10000, pair(words))
		add(p, "two equal objects", 5000, pair(onums))
		add(p, "two equal arrays of records", 2000, pair(recs))
		add(p, "two equal deep arrays", 2000, pair(deepOf(func(v V) V { return []V{v} })))
		add(p, "two equal deep objects", 2000, pair(deepOf(func(v V) V { return map[string]V{"a": v} })))
		if !strings.Contains(p, "contains") {
			add(p, "two equal long strings", 100000, pair(func(n int) V { return strings.Repeat("é", n) }))
		}
	}
	long := func(what string, n int, text func(n int) string, doc func(n int) V) {
		l = append(l, evaluatingLong(what, n, text, doc))
	}
	fixed := func(v V) func(n int) V { return func(int) V { return v } }
	ten := fixed(nums(10))
	long("many steps down a deep document", 2000, around("$", rep(".a"), ""), deepOf(func(v V) V { return map[string]V{"a": v} }))
	long("many index steps down a deep document", 2000, around("$", rep("[0]"), ""), deepOf(func(v V) V { return []V{v} }))
	long("many wildcards down a deep document", 2000, around("$", rep("[*]"), ""), deepOf(func(v V) V { return []V{v} }))
	long("many filters", 1000, around("$", rep("[?(@)]"), ""), deepOf(func(v V) V { return []V{v} }))
	long("a union of many indexes", 4000, around("$[", numbered("#", ","), "]"), nums)
	long("a union of many names", 4000, around("$[", numbered("'m#'", ","), "]"), onums)
	long("a union of many slices", 2000, around("$[", numbered("#:1", ","), "]"), ten)
	long("a filter with many operands of ||", 2000, around("$[?(", numbered("@ == 1000#", "||"), ")]"), ten)
	long("a filter with many operands of &&", 2000, around("$[?(", numbered("@ != 1000#", "&&"), ")]"), ten)
	long("a filter with many operands of +", 2000, around("$[?(0 < ", numbered("10#", "+"), ")]"), ten)
	long("a filter with a long list", 4000, around("$[?(@ in [", numbered("10#", ","), "])]"), ten)
	long("a filter with many arguments", 4000, around("$[?(max(", numbered("10#", ","), ") > @)]"), ten)
	long("a filter with deep parentheses", 280, around("$[?(", nested("(1+", "@", ")"), ")]"), ten)
	long("a filter with nested arrays", 280, around("$[?(", nested("[", "@", "]"), ")]"), ten)
	long("a filter with nested calls", 280, around("$[?(", nested("abs(", "@", ")"), ")]"), ten)
	long("a filter with a long string", 100000, around("$[?(@ == '", rep("x"), "')]"), fixed(words(10)))
	long("a filter with a long pattern", 4000, around("$[?(@ ~ /", rep("x"), "/)]"), fixed(words(10)))
	return l
}()

var bareRoot = regexp.MustCompile(`\$(?:[^.\[]|$)`)

func runCompileCosts(c *Ctx, i int) { c.growth(compileCosts[i]) }
func runEvalCosts(c *Ctx, i int)    { c.growth(evalCosts[i]) }

// runRandomCosts: a random part of a path or expression, repeated.
func runRandomCosts(c *Ctx, i int) {
	g := newGen(c)
	var k costCase
	switch i % 5 {
	case 0:
		p := Path{g.synStep(2), g.synStep(1)}
		u := p.Text(g.layout())[1:]
		if len(u) > 400 {
			return
		}
		k = compiling("repeatedly "+u, 20000/len(u)+1, around("$", rep(u), ""))
	case 1:
		u := g.synElem(2)
		t := (Path{sElems(u, u)}).Text(g.layout())
		t = strings.TrimSpace(t[1:])
		if len(t) > 400 || t[0] != '[' {
			return
		}
		t = t[1:len(t)-1] + ","
		k = compiling("a union of "+t, 20000/len(t)+1, around("$[", rep(t), "0]"))
	case 2:
		op := pick(g, allBinOps)
		t := " " + op + " (" + g.synExpr(2).Text(g.layout()) + ")"
		if len(t) > 400 {
			return
		}
		k = compiling("a chain of"+t, 20000/len(t)+1, around("$[?(1", rep(t), ")]"))
	default:
		// a random filter or step on many alike candidates
		cands := g.records(6)
		root := map[string]V{"n": 3.0, "s": "text", "l": []V{1.0, 2.0}}
		g.root, g.ats = root, cands
		g.errP = 0
		e := g.expr(kAny, 1+g.n(4))
		t := e.Text(g.layout())
		if bareRoot.MatchString(t) {
			return
		}
		path := "$.zzbig[?(" + t + ")]"
		if g.p(0.2) {
			path = "$.zzbig[*][?(" + t + ")]"
		} else if g.p(0.2) {
			path = "$.zzbig..[?(" + t + ")]"
		}
		if _, err := jsonpath.Compile(path); err != nil {
			return
		}
		k = costCase{"evaluating " + path + " on copies of " + show(cands), func(n int) func() {
			p := jsonpath.MustCompile(path)
			d := map[string]V{"n": 3.0, "s": "text", "l": []V{1.0, 2.0}}
			l := make([]V, n)
			for i := range l {
				l[i] = clone(cands[i%len(cands)])
			}
			d["zzbig"] = l
			return func() { p.Eval(d) }
		}, 400, 1600}
	}
	c.growth(k)
}

func init() {
	register(&Prop{ID: "C23", Quick: 1, Workers: 6,
		Rule: "families of texts and documents of each shape, at a size and at 32 times that size; the processor time spent and the memory allocated by compiling or evaluating may grow at most six and three times, respectively, beyond proportion (in the least of four attempts); every measurement is non-trivial; distinct by family",
		Phases: []Phase{
			{Name: "compile", Fixed: true, N: fixedN(len(compileCosts), len(compileCosts)), Run: runCompileCosts},
			{Name: "eval", Fixed: true, N: fixedN(len(evalCosts), len(evalCosts)), Run: runEvalCosts},
			{Name: "random", N: fixedN(300, 6000), Run: runRandomCosts},
		}})
}
