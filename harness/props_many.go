package main

import (
	"fmt"
	"runtime"
	"strconv"
	"sync"

	"github.com/forsyth/jsonpath"
)

// Very many evaluations of one program, very many programs, very many evaluations at once.

var manyForms = []string{
	"$.a", "$.a[1]", "$.a[-1]", "$.a[0,2]", "$.a[1:]", "$.a[::-1]", "$.*.x", "$..x", "$..[?(@.x==1)]", "$.o[?(@.x>=1)].x", "$.o[?(@.s =~ /b/)].s",
	"$.o[?(@.s ~ $.p)].s", "$.o[(1)].s", "$.a[(\"length\")]", "$.o[?(@.x in [1,3])].x", "$.o[?(@.bad in 1)]", "$.o[?(nofn(@))]", "$.o[?(@.s ~ '(')]", "$.o[?(tokenize(@.s,'b').length == 2)].s",
	"$.o[?(keys(@)[0] == 's')].x", "$.o[?(max(@.x,2) == 2 && !@.y)].x", "$.q", "$.a[(1+1):]", "$.o[?(@.x/@.y)].s",
}

func manyDocs() []V {
	return []V{
		map[string]V{"a": []V{1.0, 2.0, 3.0}, "p": "b", "o": []V{map[string]V{"x": 1.0, "s": "abc"}, map[string]V{"x": 3.0, "s": "xyz"}}},
		map[string]V{"a": []V{4.0, []V{2.0}}, "p": "y", "o": []V{map[string]V{"x": 3.0, "s": "abc"}, map[string]V{"x": 1.0, "s": "xyz"}, map[string]V{"x": 1.0, "s": "q", "y": 2.0}}},
		map[string]V{"a": []V{"p", []V{}}, "p": "^x", "o": []V{map[string]V{"x": 2.0, "s": "xbz", "y": 1.0}}},
		map[string]V{"a": []V{}, "o": []V{}},
		[]V{1.0, map[string]V{"x": "y"}},
	}
}

// runManyEvals: one program evaluated more often than a small counter can count; every answer is the first one.
func runManyEvals(c *Ctx, i int) {
	text := manyForms[i%len(manyForms)]
	prog := c.mustCompile(text)
	docs := manyDocs()
	want := make([]string, len(docs))
	for k := range docs {
		want[k] = outcome(c.eval(prog, text, docs[k]))
		if again := outcome(c.eval(c.mustCompile(text), text, docs[k])); again != want[k] {
			c.Violate("path %s on %s gave %s and, compiled again, %s", text, show(docs[k]), want[k], again)
		}
	}
	n := 70000
	if c.Tier == "thorough" {
		n = 1 << 20
	}
	for r := 0; r < n; r++ {
		k := 0
		if r%16 == 15 {
			k = r / 16 % len(docs)
		}
		res, err := prog.Eval(docs[k])
		if got := outcome(res, err); got != want[k] {
			c.Violate("evaluation %d of path %s on %s gave %s (%v), the first %s", r, text, show(docs[k]), cut(got, 500), err, cut(want[k], 500))
		}
	}
	c.Count("evaluations of one program repeated", n)
	c.Max("most evaluations of one program", n)
	c.Eval(hash64("many", text), true)
}

// runManyPrograms: more programs than a small counter or table can hold, kept, and each evaluated at once and much later.
func runManyPrograms(c *Ctx, i int) {
	n := 70000
	if c.Tier == "thorough" {
		n = 300000
	}
	doc := map[string]V{"a": []V{1.0, 2.0, 3.0}, "o": map[string]V{}}
	o := doc["o"].(map[string]V)
	for k := 0; k < 50; k++ {
		o["k"+strconv.Itoa(k*n/50)] = float64(k)
	}
	text := func(k int) (string, string) {
		name := "k" + strconv.Itoa(k)
		want := "0 "
		if v, ok := o[name]; ok {
			want = outcome([]V{v}, nil)
		}
		switch i % 4 {
		case 0:
			return "$.o." + name, want
		case 1:
			return "$['o']['" + name + "']", want
		case 2:
			if v, ok := o[name]; ok {
				return "$.o[?('" + name + "' == 'k" + strconv.Itoa(k) + "' && @ == " + strconv.Itoa(int(v.(float64))) + ")]", want
			}
			return "$.o[?('x" + name + "' == '" + name + "')]", want
		}
		if k%7 == 0 {
			return "$.o[?(x" + strconv.Itoa(k) + "(@))]", "failed"
		}
		return "$.a[?(@ =~ /^" + name + "/ || @ == " + strconv.Itoa(k) + ")]", "failed"
	}
	keep := make([]*jsonpath.JSONPath, n)
	c.Now("many programs")
	check := func(k int, p *jsonpath.JSONPath, when string) {
		t, want := text(k)
		res, err := p.Eval(doc)
		if got := outcome(res, err); got != want {
			c.Violate("program %d of %d, %s, %s gave %s (%v), not %s", k, n, t, when, cut(got, 300), err, want)
		}
		if p.String() != t {
			c.Violate("program %d of %d, %s, %s calls itself %q", k, n, t, when, p.String())
		}
	}
	for k := range keep {
		t, _ := text(k)
		p, err := jsonpath.Compile(t)
		if err != nil {
			c.Violate("Compile(%q), the text number %d: %v", t, k, err)
		}
		keep[k] = p
		check(k, p, "at once")
	}
	for k, p := range keep {
		check(k, p, "after all the others")
	}
	c.Max("most programs alive", n)
	c.Eval(hash64("programs", strconv.Itoa(i)), true)
}

// runCrowd: far more goroutines than processors, all in the middle of an evaluation or a compilation.
func runCrowd(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{65, 129, 200, 257, 300, 513, 700, 1025, 1300})
	docs := manyDocs()
	big := []V{}
	for k := 0; k < 40; k++ {
		big = append(big, map[string]V{"x": float64(k % 5), "s": "s" + strconv.Itoa(k), "o": []V{float64(k)}})
	}
	docs = append(docs, map[string]V{"a": big, "o": big, "p": "7$"})
	forms := append([]string{}, manyForms...)
	g.R.Shuffle(len(forms), func(a, b int) { forms[a], forms[b] = forms[b], forms[a] })
	forms = forms[:1+g.n(6)]
	if g.p(0.3) {
		forms = []string{pick(g, []string{"$..[?(@.x==1)]", "$.o[?(@.x>=1)].x", "$.o[?(@.s ~ $.p)].s", "$..[?(@.x)]..[?(@)]"})}
	}
	shared := make([]*jsonpath.JSONPath, len(forms))
	for k, t := range forms {
		shared[k] = c.mustCompile(t)
	}
	type res struct {
		p, d int
		out  string
	}
	got := make([][]res, n)
	plan := make([][]res, n)
	for k := range plan {
		for j := 0; j < 3; j++ {
			r := res{p: g.n(len(forms)), d: g.n(len(docs))}
			if g.p(0.5) {
				r.d = len(docs) - 1
			}
			plan[k] = append(plan[k], r)
		}
	}
	compile := g.p(0.3)
	c.Now(fmt.Sprintf("%d goroutines evaluating %q", n, forms))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for _, r := range plan[k] {
				p := shared[r.p]
				if compile {
					var err error
					if p, err = jsonpath.Compile(forms[r.p]); err != nil {
						got[k] = append(got[k], res{r.p, r.d, "not compiled: " + err.Error()})
						continue
					}
				}
				l, err := p.Eval(docs[r.d])
				got[k] = append(got[k], res{r.p, r.d, outcome(l, err)})
				runtime.Gosched()
			}
		}(k)
	}
	close(start)
	wg.Wait()
	want := map[[2]int]string{}
	for k := range got {
		for _, r := range got[k] {
			key := [2]int{r.p, r.d}
			w, ok := want[key]
			if !ok {
				w = outcome(c.eval(c.mustCompile(forms[r.p]), forms[r.p], docs[r.d]))
				want[key] = w
			}
			if r.out != w {
				c.Violate("with %d goroutines, path %s on %s gave %s, but alone %s", n, forms[r.p], cut(show(docs[r.d]), 1000), cut(r.out, 500), cut(w, 500))
			}
			c.Count("crowded calls compared", 1)
		}
	}
	c.Max("most goroutines evaluating", n)
	c.Eval(hash64("crowd", strconv.Itoa(n), fmt.Sprint(forms), strconv.Itoa(i)), true)
}
