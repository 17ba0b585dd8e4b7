package main

import (
	"encoding/json"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
)

// spelled returns a copy of a document whose numbers are json.Number, as a decoder with UseNumber yields them,
// each in one of the spellings JSON has for it.
func spelled(r *rand.Rand, v V, n *int) V {
	switch v := v.(type) {
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return v
		}
		*n++
		s := spelling(r, v)
		if x, err := strconv.ParseFloat(s, 64); err != nil || x != v || math.Signbit(x) != math.Signbit(v) {
			bug("%s for %v", s, v)
		}
		return json.Number(s)
	case []V:
		l := make([]V, len(v))
		for i := range v {
			l[i] = spelled(r, v[i], n)
		}
		return l
	case map[string]V:
		o := make(map[string]V, len(v))
		for _, k := range sortedKeys(v) {
			o[k] = spelled(r, v[k], n)
		}
		return o
	}
	return v
}

func spelling(r *rand.Rand, f float64) string {
	a := math.Abs(f)
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if a != 0 && a < 1e-6 || a >= 1e21 {
		if r.IntN(2) == 0 {
			s = strings.ToUpper(s)
		}
		return s
	}
	s = strconv.FormatFloat(f, 'f', -1, 64)
	switch r.IntN(8) {
	case 0:
		if !strings.Contains(s, ".") {
			s += "."
		}
		return s + strings.Repeat("0", 1+r.IntN(3))
	case 1:
		return s + []string{"e0", "E0", "e+0", "E-0", "e+00"}[r.IntN(5)]
	case 2:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 3:
		if !strings.Contains(s, ".") && a != 0 && a < 1e12 {
			return s + "0e-1"
		}
	case 4:
		if strings.HasSuffix(s, "00") {
			return strings.TrimSuffix(s, "00") + "E2"
		}
	}
	return s
}

// unspelled is the reverse of spelled for results; a number that is no json.Number didn't come from the document.
func (c *Ctx) unspelled(v V, text string, doc V) V {
	switch v := v.(type) {
	case json.Number:
		f, err := v.Float64()
		if err != nil {
			c.Violate("path %s on %s gave the number %q", cut(text, 1000), show(doc), string(v))
		}
		return f
	case float64:
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			c.Violate("path %s on %s gave a number %v that is not the document's", cut(text, 1000), show(doc), v)
		}
	case []V:
		l := make([]V, len(v))
		for i := range v {
			l[i] = c.unspelled(v[i], text, doc)
		}
		return l
	case map[string]V:
		o := make(map[string]V, len(v))
		for k, x := range v {
			o[k] = c.unspelled(x, text, doc)
		}
		return o
	}
	return v
}

// numbers makes a run give its documents with json.Number.
func numbers(run func(c *Ctx, i int)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		c.numbers = rand.New(rand.NewPCG(uint64(i), c.Seed))
		run(c, i)
	}
}

func init() {
	np := len(pool) + len(litPool)
	register(&Prop{ID: "C25",
		Rule:  "the workloads of C03, C04, C06 and C08 to C11, C18 and C21 on documents in which each number is a json.Number in one of its spellings; results compared with the reference evaluator after reading the numbers back, and each must be a json.Number of the document; non-trivial as in those",
		Quick: 2,
		Phases: []Phase{
			{Name: "paths", N: fixedN(6000, 200000), Run: numbers(runSteps(mBag, true, PathOpts{Steps: 4, Nest: 0.25, Wild: 0.2, Union: 0.15, Slice: 0.15, Filter: 0.3, ExprStep: 0.2, Miss: 0.05}))},
			{Name: "order", N: fixedN(3000, 100000), Run: numbers(runOrder(PathOpts{Steps: 4, Nest: 0.3, Wild: 0.3, Union: 0.2, Slice: 0.15, Filter: 0.2, ExprStep: 0.1, Miss: 0.03}))},
			{Name: "filters", N: fixedN(8000, 250000), Run: numbers(runFilters)},
			{Name: "scale", N: fixedN(60, 2000), Run: numbers(runNumbersScale)},
			{Name: "equality", Fixed: true, N: fixedN(2*np, 2*np), Run: numbers(runEqPairs)},
			{Name: "nested equality", N: fixedN(2000, 60000), Run: numbers(runEqNested)},
			{Name: "in", N: fixedN(1500, 40000), Run: numbers(runIn)},
			{Name: "operators", N: fixedN(len(arithOps)*np, 2*len(arithOps)*np), Run: numbers(func(c *Ctx, i int) { runArithPairs(c, i%(len(arithOps)*(len(pool)+len(litPool)))) })},
			{Name: "integers", N: fixedN(1500, 40000), Run: numbers(runArithInts)},
			{Name: "arithmetic", N: fixedN(2500, 80000), Run: numbers(runArithRandom)},
			{Name: "rounding", N: fixedN(1000, 30000), Run: numbers(runArithChains)},
			{Name: "selection", N: fixedN(nSelectAll, nSelectAll*10), Run: numbers(func(c *Ctx, i int) { runSelectAll(c, i%nSelectAll) })},
			{Name: "logic", N: fixedN(np, 4*np), Run: numbers(runLogicPairs)},
			{Name: "missing", N: fixedN(1500, 40000), Run: numbers(runMissing)},
			{Name: "functions", N: fixedN(len(fnNames)*2, len(fnNames)*10), Run: numbers(runFnPool)},
			{Name: "lists", N: fixedN(2000, 50000), Run: numbers(runFnLists)},
			{Name: "numeric functions", N: fixedN(1500, 40000), Run: numbers(runFnNumbers)},
			{Name: "keys", N: fixedN(1000, 30000), Run: numbers(runKeys)},
			{Name: "bounds", N: fixedN(1000, 30000), Run: numbers(runBoundExprs)},
			{Name: "failures", N: fixedN(2000, 60000), Run: numbers(runFailRandom)},
		}})
}
