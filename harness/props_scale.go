package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"
)

// Large documents and texts, whose answers follow from how they were made, so that any size can be judged directly.

var scaleSizes = []int{1000, 2047, 2048, 3000, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 20000, 20001, 32767, 32768, 32769, 40000, 50000, 50001, 65535, 65536, 65537, 70000, 100000, 100001, 131071, 131072, 131073, 150000}
var scaleDepths = []int{500, 999, 1000, 1001, 1024, 2000, 2049, 3000, 4000, 4095, 4096, 4097, 5000, 5001, 6000, 8000, 8192, 8193, 9000, 9900, 9980}

func (g *Gen) scale() int { return pick(g, scaleSizes) + g.n(3) - 1 }
func (g *Gen) depth() int { return pick(g, scaleDepths) + g.n(3) - 1 }

// lists evaluates text and wants exactly the values given, which are scalars or compared by identity of their first member.
func (c *Ctx) lists(text, on string, doc V, want []V, ordered bool) {
	c.Now("eval " + cut(text, 1000) + " on " + on)
	prog, err := c.compile(text)
	if err != nil {
		c.Violate("Compile(%q): %v", cut(text, 1000), err)
	}
	got, err := prog.Eval(doc)
	if err != nil {
		c.Violate("path %s on %s failed: %v", cut(text, 1000), on, err)
	}
	if !ordered {
		got = append([]V(nil), got...)
		want = append([]V(nil), want...)
		for _, l := range [][]V{got, want} {
			k := make([]string, len(l))
			for i := range l {
				k[i] = scaleKey(l[i])
			}
			sort.Sort(&byKey{k, l})
		}
	}
	if len(got) != len(want) {
		c.Violate("path %s on %s gave %d values, not %d", cut(text, 1000), on, len(got), len(want))
	}
	for i := range got {
		if a, b := scaleKey(got[i]), scaleKey(want[i]); a != b {
			c.Violate("path %s on %s: value %d of %d is %s, not %s", cut(text, 1000), on, i, len(got), cut(a, 200), cut(b, 200))
		}
	}
	c.Count("results judged", len(got))
	c.Max("most results of one evaluation", len(got))
	c.Eval(hash64("scale", text, on), true)
	c.Sample(cut(text, 100) + " on " + on)
}

type byKey struct {
	k []string
	l []V
}

func (b *byKey) Len() int           { return len(b.k) }
func (b *byKey) Less(i, j int) bool { return b.k[i] < b.k[j] }
func (b *byKey) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.l[i], b.l[j] = b.l[j], b.l[i]
}

// scaleKey describes a value without going far into it.
func scaleKey(v V) string {
	switch v := v.(type) {
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case string:
		return strconv.Quote(v)
	case []V:
		s := "[" + strconv.Itoa(len(v))
		if len(v) > 0 && !isContainer(v[0]) {
			s += " " + scaleKey(v[0])
		}
		return s
	case map[string]V:
		s := "{" + strconv.Itoa(len(v))
		if x, ok := v["x"]; ok && !isContainer(x) {
			s += " " + scaleKey(x)
		}
		return s
	}
	return fmt.Sprint(v)
}

func upto(n int) []V {
	l := make([]V, n)
	for i := range l {
		l[i] = float64(i)
	}
	return l
}

func members(n int) map[string]V {
	o := make(map[string]V, n)
	for i := 0; i < n; i++ {
		o["k"+strconv.Itoa(i)] = float64(i)
	}
	return o
}

func xs(n int) []V {
	l := make([]V, n)
	for i := range l {
		l[i] = map[string]V{"x": float64(i)}
	}
	return l
}

// nested wraps v in d arrays and objects; steps lead back to it.
func (g *Gen) nestedIn(v V, d int) (V, string) {
	var steps []string
	how := g.n(3)
	for i := 0; i < d; i++ {
		if how == 0 || how == 2 && i%2 == 0 {
			v = []V{v}
			steps = append(steps, pick(g, []string{"[0]", "[-1]", "[*]", "[0:1]", "[::-1]"}))
		} else {
			v = map[string]V{"n": v}
			steps = append(steps, pick(g, []string{".n", "['n']", ".*", "[n]"}))
		}
	}
	for i, j := 0, len(steps)-1; i < j; i, j = i+1, j-1 {
		steps[i], steps[j] = steps[j], steps[i]
	}
	return v, strings.Join(steps, "")
}

const nSelects = 24

// runScaleSelect: selections from large documents. With ordered, only those whose whole order is determined.
func runScaleSelect(c *Ctx, i int) {
	g := newGen(c)
	n := g.scale()
	on := func(s string) string { return fmt.Sprintf("%s of size %d", s, n) }
	m := g.n(n)
	geq := func(l []V, k int) []V {
		var w []V
		for _, v := range l {
			if v.(float64) >= float64(k) {
				w = append(w, v)
			}
		}
		return w
	}
	k := i % nSelects
	switch k {
	case 0:
		c.lists(pick(g, []string{"$.*", "$[*]", "$[:]", "$[0:]", "$..*"}), on("an array"), upto(n), upto(n), true)
	case 1:
		c.lists(pick(g, []string{"$.*.x", "$[*]['x']", "$..x", "$[:].x", "$[?(@)].x", "$..[?(@.x >= 0)].x", "$..['x','y']"}), on("an array of objects"), xs(n), upto(n), true)
	case 2:
		l := make([]V, n/2)
		var w []V
		for j := range l {
			l[j] = []V{float64(2 * j), float64(2*j + 1)}
			w = append(w, float64(2*j), float64(2*j+1))
		}
		c.lists(pick(g, []string{"$.*.*", "$[*][0,1]", "$[*][:]", "$[*][?(@ >= 0)]", "$[?(@.length == 2)].*"}), on("an array of pairs"), l, w, true)
		if len(l) == 0 {
			return
		}
		j := g.n(len(l))
		c.lists("$.*[1]["+strconv.Itoa(j)+"]", on("an array of pairs"), l, nil, true)
		c.lists("$["+strconv.Itoa(j)+"][1]", on("an array of pairs"), l, []V{float64(2*j + 1)}, true)
	case 3:
		c.lists(fmt.Sprintf("$[?(@ >= %d)]", m), on("an array"), upto(n), geq(upto(n), m), true)
	case 4:
		c.lists(fmt.Sprintf("$..[?(@.x >= %d)].x", m), on("an array of objects"), xs(n), geq(upto(n), m), true)
	case 5, 6:
		// a union of many elements
		var sb strings.Builder
		var w []V
		for j := 0; j < n; j++ {
			r := g.n(n)
			if j > 0 {
				sb.WriteString(",")
			}
			if k == 5 {
				if r%3 == 0 {
					fmt.Fprintf(&sb, "%d", r-n)
				} else {
					fmt.Fprintf(&sb, "%d", r)
				}
			} else {
				fmt.Fprintf(&sb, "'k%d'", r)
			}
			w = append(w, float64(r))
		}
		pre := pick(g, []string{"$[", "$.d[", "$..["})
		var d V = upto(n)
		if k == 6 {
			d = members(n)
		}
		if pre == "$.d[" {
			d = map[string]V{"d": d}
		}
		c.lists(pre+sb.String()+"]", on("a flat container, by a union as large"), d, w, true)
	case 7:
		o := members(n)
		c.lists(pick(g, []string{"$.*", "$..*", "$[*]"}), on("an object"), o, upto(n), false)
		c.lists(fmt.Sprintf("$.k%d", m), on("an object"), o, []V{float64(m)}, true)
		c.lists(fmt.Sprintf("$..['k%d']", m), on("an object"), o, []V{float64(m)}, true)
		c.lists(fmt.Sprintf("$.k%d", n), on("an object"), o, nil, true)
	case 8:
		c.lists(fmt.Sprintf("$[?(@ >= %d)]", m), on("an object"), members(n), geq(upto(n), m), false)
	case 9, 10, 11:
		d := g.depth()
		on := fmt.Sprintf("%d levels", d)
		v, steps := g.nestedIn(map[string]V{"x": 7.0, "y": []V{1.0, 2.0}}, d)
		switch k {
		case 9:
			c.lists(pick(g, []string{"$..x", "$..['x']", "$..[?(@.x == 7)].x", "$..[?(@.y)]..x", "$..[x]"}), on, v, []V{7.0}, true)
		case 10:
			c.lists("$"+steps+".x", on, v, []V{7.0}, true)
		case 11:
			c.lists("$"+steps+"..y[1:]", on, v, []V{2.0}, true)
		}
	case 12:
		d := g.depth()
		// every level has a number too
		var v V = []V{-1.0}
		var w []V
		for j := 0; j < d; j++ {
			v = []V{float64(j), v}
		}
		for j := d - 1; j >= 0; j-- {
			w = append(w, float64(j))
		}
		c.lists(pick(g, []string{"$..[0]", "$..[:1]", "$..[0,2]"}), fmt.Sprintf("%d levels", d), v, append(w, -1.0), true)
		c.lists("$..[?(@[0] >= 1)][0]", fmt.Sprintf("%d levels", d), v, geq(w, 1), true)
	case 13:
		w := upto(n)
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			w[a], w[b] = w[b], w[a]
		}
		c.lists(pick(g, []string{"$[::-1]", "$[-1::-1]", fmt.Sprintf("$[%d::-1]", n+5)}), on("an array"), upto(n), w, true)
	case 14:
		var w []V
		for j := 0; j < n; j += 2 {
			w = append(w, float64(j))
		}
		c.lists(pick(g, []string{"$[::2]", "$[?(@ % 2 == 0)]"}), on("an array"), upto(n), w, true)
	case 15:
		l := make([]V, n)
		for j := range l {
			l[j] = []V{float64(j), []V{}}
		}
		c.lists(pick(g, []string{"$.*[0]", "$[*][0]", "$.*[?(@ >= 0)]"}), on("an array of arrays"), l, func() []V {
			return upto(n)
		}(), true)
	case 16:
		// the same step many times on what no longer has anything
		c.lists("$"+strings.Repeat(pick(g, []string{".x", "[0]", "..x", "[?(@.x)]", "[1:]", "[*]", "['a','b']", "[(1)]"}), n), "a small document", []V{[]V{map[string]V{"y": 1.0}}}, nil, true)
	case 17:
		l := []V{}
		var w []V
		for j := 0; j < n; j++ {
			if g.p(0.5) {
				l = append(l, nil)
			} else {
				l = append(l, "s"+strconv.Itoa(j))
			}
			w = append(w, l[j])
		}
		c.lists(pick(g, []string{"$.*", "$[:]", "$..*", "$[?(1)]", "$[?(@ || !@)]"}), on("an array of strings and nulls"), l, w, true)
	case 18:
		l := upto(n)
		w := []V{l[m], l[n-1], l[0], l[n-1]}
		c.lists(fmt.Sprintf("$[%d,-1,%d,%d]", m, -n, n-1), on("an array"), l, w, true)
		c.lists(fmt.Sprintf("$[%d,%d]", n, -n-1), on("an array"), l, nil, true)
		c.lists(fmt.Sprintf("$[(%d)]", m), on("an array"), l, []V{l[m]}, true)
		c.lists(fmt.Sprintf("$[?($[%d] == @)]", m), on("an array"), l, []V{l[m]}, true)
		c.lists(fmt.Sprintf("$[%d:%d]", max(0, m-2), m+1), on("an array"), l, l[max(0, m-2):m+1], true)
	case 19:
		// filters over what a descent or a filter left
		d := map[string]V{"a": xs(n), "b": 1.0}
		c.lists(fmt.Sprintf("$.a[?(@.x >= %d)]..[?(@.x >= %d)].x", m/2, m), on("an array of objects"), d, geq(upto(n), max(m, m/2)), true)
		c.lists(fmt.Sprintf("$..a[?(@.x >= %d)].x", m), on("an array of objects"), d, geq(upto(n), m), true)
	case 20:
		var sb strings.Builder
		var w []V
		for j := 0; j < n; j++ {
			fmt.Fprintf(&sb, "%d:%d,", j, j+1)
			w = append(w, float64(j))
		}
		sb.WriteString("0:0")
		c.lists("$["+sb.String()+"]", on("an array, by a union of slices as large"), upto(n), w, true)
	case 21:
		// one expression as large as the document
		n := min(n, 60000)
		e := "(" + strings.Repeat("1+", n-1) + "0)"
		c.lists("$["+e+"]", on("an array, by a sum as long"), map[string]V{"l": upto(n)}, nil, true)
		c.lists(pick(g, []string{"$.l[", "$.*["})+e+"]", on("an array, by a sum as long"), map[string]V{"l": upto(n)}, []V{float64(n - 1)}, true)
	case 22:
		// long chains of members inside an expression
		d := min(n, g.depth())
		v, _ := g.nestedIn(7.0, 0)
		for j := 0; j < d; j++ {
			v = map[string]V{"n": v}
		}
		c.lists("$[?(@"+strings.Repeat(".n", d)+" == 7)].ok", fmt.Sprintf("%d levels", d), []V{map[string]V{"ok": 1.0, "n": v.(map[string]V)["n"]}, map[string]V{"ok": 2.0}}, []V{1.0}, true)
	case 23:
		c.lists(fmt.Sprintf("$[?(@.x in $.l)].x"), on("nothing"), map[string]V{"l": upto(n)}, nil, true)
		c.lists("$.q[?(@.x in $.l)].x", on("a list looked in"), map[string]V{"l": upto(n), "q": []V{map[string]V{"x": float64(n - 1)}, map[string]V{"x": float64(n)}, map[string]V{"x": 0.0}, map[string]V{"x": -1.0}, map[string]V{"x": float64(m)}}}, []V{float64(n - 1), 0.0, float64(m)}, true)
	}
}

// runScaleFail: one bad candidate, or none, among very many.
func runScaleFail(c *Ctx, i int) {
	g := newGen(c)
	n := g.scale()
	bad := -1
	if g.p(0.75) {
		bad = pick(g, []int{0, n - 1, n - 1, n / 2, g.n(n), g.n(n)})
	}
	form := i % 8
	e := []string{"@.s ~ 'a'", "@.s =~ /a/", "@.s =~ @.p", "1 in @.l", "1 nin @.l", "@.s ~ $.p", "@.s ~ @.p && 1 in @.l", "!(@.s =~ @.p) || 1 nin @.l"}[form]
	l := make([]V, n)
	o := map[string]V{}
	asMap := g.p(0.2)
	for k := range l {
		m := map[string]V{"s": "a", "p": "a", "l": []V{1.0}, "x": float64(k)}
		if k == bad {
			switch form {
			case 0, 1, 5:
				m["s"] = pick(g, []V{1.0, nil, []V{}, true})
			case 2, 6, 7:
				m["p"] = pick(g, []V{"(", "[", 1.0, nil})
			default:
				m["l"] = pick(g, []V{"1", 1.0, map[string]V{}, nil})
			}
		}
		l[k] = m
		if asMap {
			o[strconv.Itoa(k)] = m
		}
	}
	var d V = l
	if asMap {
		d = o
	}
	text := pick(g, []string{"$.a[?(", "$..[?(", "$.a[?(@.s || 1)][0:0][?(", "$.a..[?("}) + e + ")]"
	if strings.Contains(text, "[0:0]") {
		text = "$.a[*].q[?(" + e + ")]"
		for k := range l {
			l[k] = map[string]V{"q": []V{l[k]}}
			if asMap {
				o[strconv.Itoa(k)] = l[k]
			}
		}
	}
	doc := map[string]V{"a": d, "p": "a"}
	c.Now("eval " + text)
	got, err := c.mustCompile(text).Eval(doc)
	on := fmt.Sprintf("%d candidates, the bad one at %d", n, bad)
	if (err != nil) != (bad >= 0) {
		c.Violate("path %s on %s gave %d results and error %v", text, on, len(got), err)
	}
	if err != nil && got != nil {
		c.Violate("path %s on %s gave %d results and error %v", text, on, len(got), err)
	}
	want := n
	switch {
	case form == 4:
		want = 0
	case form == 7:
		// only those with no subject: the document and the list, where they are candidates, and each l
		want = 0
		if strings.HasPrefix(text, "$..[") {
			want = n + 2
		} else if strings.HasPrefix(text, "$.a..[") {
			want = n + 1
		}
	}
	if err == nil && len(got) != want {
		c.Violate("path %s on %s gave %d results, not %d", text, on, len(got), want)
	}
	if err != nil {
		c.Count("evaluations that failed as they must", 1)
	} else {
		c.Count("evaluations that succeeded as they must", 1)
	}
	c.Max("most candidates of one evaluation", n)
	c.Eval(hash64(text, on), true)
	if i%2 == 0 {
		// and nothing is left behind
		c.settle(1, "evaluating "+text+" on "+on)
	}
}

// runScaleFresh: large result lists belong to their callers.
func runScaleFresh(c *Ctx, i int) {
	g := newGen(c)
	type held struct {
		text string
		l    []V
		from float64
	}
	var hold []held
	texts := []string{"$.*", "$[*].x", "$..x", "$[?(@.x >= 0)].x", "$[:]", "$[::-1].x", "$..[?(@.x >= 0)].x", "$[0:].x"}
	progs := map[string]*jsonpath.JSONPath{}
	check := func(h held, when string) {
		for j, v := range h.l {
			if m, ok := v.(map[string]V); ok {
				v = m["x"]
			}
			x, ok := v.(float64)
			if !ok || x < h.from || x >= h.from+float64(len(h.l)) {
				c.Violate("%s, value %d of the %d that %s gave has become %s", when, j, len(h.l), h.text, cut(show(v), 100))
			}
		}
	}
	for r := 0; r < 6; r++ {
		n := min(g.scale(), 40000)
		from := float64(r * 1000000)
		l := make([]V, n, n+3)
		for j := range l {
			l[j] = map[string]V{"x": from + float64(j)}
		}
		text := pick(g, texts)
		if progs[text] == nil || g.p(0.2) {
			progs[text] = c.mustCompile(text)
		}
		got, err := c.eval(progs[text], text, l)
		if err != nil || len(got) != n {
			c.Violate("path %s on an array of %d objects gave %d values, error %v", text, n, len(got), err)
		}
		h := held{text, got, from}
		check(h, "at once")
		for _, o := range hold {
			check(o, "after another evaluation, of "+text)
		}
		if g.p(0.4) {
			all := got[:cap(got)]
			for j := range all {
				all[j] = "overwritten"
			}
		} else {
			hold = append(hold, h)
		}
		for j, v := range l[:cap(l)] {
			if j >= n && v != nil || j < n && v.(map[string]V)["x"] != from+float64(j) {
				c.Violate("the document of %d objects given to %s was changed at %d", n, text, j)
			}
		}
		if g.p(0.3) {
			runtime.GC()
		}
	}
	c.Count("large result lists watched", len(hold))
	c.Eval(hash64("fresh", strconv.Itoa(i)), true)
}

// runScaleTexts: very long texts, right, and wrong in one place.
func runScaleTexts(c *Ctx, i int) {
	g := newGen(c)
	size := pick(g, []int{65535, 65536, 65537, 100000, 131072, 262144, 300000, 524288, 1 << 20, 1<<20 + 1, 1500000, 1 << 21})
	if i%16 == 0 {
		size = 1<<22 - 40
	}
	unit := func(l ...string) string {
		u := pick(g, l)
		return strings.Repeat(u, size/len(u))
	}
	var text string
	switch i % 12 {
	case 0:
		text = "$['" + unit("a", "é", "\\n", "\\u00e9", "\"", "]") + "']"
	case 1:
		text = "$." + unit("a", "é", "a-1")
	case 2:
		text = "$[?(@ =~ /" + unit("a", "\\/", "[a]", "é") + "/)]"
	case 3:
		text = "$" + unit(" ", "\n", "\t \r\n") + ".a"
		text = pick(g, []string{text, "$[" + unit(" ", "\n") + "1" + unit(" ") + "]", "$[?(@" + unit(" ", "\n") + ")]"})
	case 4:
		text = "$[" + strings.Repeat("0", size) + "1]"
	case 5:
		text = "$[?(@ > 0." + unit("0", "1", "9") + ")]"
	case 6:
		text = "$" + unit(".a", "..a", "[1]", "['a']", "[1:2]", "[?(@.a)]", "[*]", "..[1,2]", ".*", "[(1)]", "[a]", "..*")
	case 7:
		text = "$[" + unit("1,", "'a',", "a,", ":,", "1:2:3,") + "0]"
	case 8:
		text = "$[?(@" + unit(".a", "[1]", "['x']", "[@.a]") + ")]"
	case 9:
		text = "$[?(@" + unit("+1", "&&2", " in @", "/3", "<4", "||f(1)", "==''", " nin [1]", "- 1", ">=1.5") + ")]"
	case 10:
		text = "$[?([" + unit("1,", "'a',", "null,", "@.a,") + "2])]"
	default:
		text = "$[?(f(" + unit("'a',", "1,", "[],", "@,") + "2))]"
	}
	if v := c.grammar(text); v == vReject {
		bug("recogniser rejects %q", cut(text, 300))
	}
	c.Max("longest text", len(text))
	for k := 0; k < 2; k++ {
		j := len(text) - 1 - g.n(3)
		if g.p(0.4) {
			j = g.n(len(text))
		}
		switch g.n(4) {
		case 0:
			c.grammar(text[:j] + text[j+1:])
		case 1:
			c.grammar(text[:j] + pick(g, extraToks) + text[j:])
		case 2:
			c.grammar(text[:j])
		default:
			c.grammar(text + pick(g, []string{"!", "]", "'", " x", "[", ".", "$", ")", "\x00"}))
		}
	}
}

// runScaleCause: a malformed literal far into a text.
func runScaleCause(c *Ctx, i int) {
	g := newGen(c)
	size := pick(g, []int{3000, 4096, 10000, 32768, 65536, 100000, 300000, 1 << 20, 1500000})
	unit := func(l ...string) string {
		u := pick(g, l)
		return strings.Repeat(u, size/len(u))
	}
	pre := pick(g, []string{"$" + unit(".a", "[1]", "['a']", "[?(@.a)]", "..b"), "$" + unit(" ", "\n"), "$['" + unit("a", "é") + "']", "$[" + unit("1,", "'a',") + "2][1]"})
	strLit := pick(g, []string{"'", "'a", "'a\\", "'\\u12", "'\\q'", "'\\u12g'", "'a\n'", "'\x01'"})
	switch i % 5 {
	case 0:
		c.cause(pre + "[" + strLit)
		c.cause(pre + "[" + strLit + "]")
	case 1:
		c.cause(pre + "[?(@ == " + pick(g, []string{strLit, "/a", "1.e", "1.5e+"}))
	case 2:
		// the literal itself is long
		long := unit("a", "é", "\\n", "\\u00e9")
		c.cause("$['" + long)
		c.cause("$['" + long + "\\q']")
		c.cause("$['" + long + "\\u12']")
		c.cause("$['" + long + "\x02']")
	case 3:
		c.cause("$[?(@ =~ /" + unit("a", "é", "\\/", "[a]"))
		c.cause("$[?(@ > 1." + unit("0", "1") + "e)]")
	case 4:
		e := "1" + unit("+1", "||@.a", "==2", "*(3)")
		c.causeExpr(e + " + " + pick(g, []string{strLit, "/a", "1.e", "1.5e+ 1"}))
		c.causeExpr("f(" + unit("1,", "'a',", "@.b,") + pick(g, []string{strLit, "/a", "1.e", "1.5e+ 1"}))
	}
}

// runScaleEq: large and deep values that are equal, or differ at one place.
func runScaleEq(c *Ctx, i int) {
	g := newGen(c)
	var a, b V
	var on string
	same := g.p(0.4)
	switch i % 4 {
	case 0, 1:
		d := g.depth()
		on = fmt.Sprintf("values of %d levels", d)
		x, y := pick(g, [][2]V{{1.0, 2.0}, {"a", "b"}, {map[string]V{}, map[string]V{"a": 1.0}}, {[]V{1.0, 2.0}, []V{1.0}}})[0], V(nil)
		a = x
		b = clone(x)
		if !same {
			y = pick(g, []V{3.0, "c", map[string]V{"z": 1.0}, []V{1.0, 3.0}})
			b = y
		}
		at := -1
		if !same && g.p(0.5) {
			// somewhere on the way instead
			at = g.n(d)
			b = clone(x)
		}
		how := g.n(3)
		for k := 0; k < d; k++ {
			if how == 0 || how == 2 && k%2 == 0 {
				a, b = []V{a, 5.0}, []V{b, 5.0}
				if k == at {
					b.([]V)[1] = 6.0
				}
			} else {
				a, b = map[string]V{"n": a, "v": 5.0}, map[string]V{"n": b, "v": 5.0}
				if k == at {
					b.(map[string]V)["v"] = 6.0
				}
			}
		}
	case 2:
		n := g.scale()
		on = fmt.Sprintf("arrays of %d", n)
		x, y := upto(n), upto(n)
		if !same {
			y[pick(g, []int{0, n - 1, n - 1, n / 2, g.n(n)})] = "other"
		}
		a, b = x, y
	case 3:
		n := g.scale()
		on = fmt.Sprintf("objects of %d", n)
		x, y := members(n), members(n)
		if !same {
			k := "k" + strconv.Itoa(pick(g, []int{0, n - 1, n - 1, n / 2, g.n(n)}))
			if g.p(0.5) {
				y[k] = "other"
			} else {
				delete(y, k)
				y["K"] = 1.0
			}
		}
		a, b = x, y
	}
	want := func(yes bool) []V {
		if yes {
			return []V{1.0}
		}
		return nil
	}
	what := on + fmt.Sprintf(", equal: %v", same)
	doc := []V{map[string]V{"a": a, "b": b, "x": 1.0}}
	c.lists("$[?(@.a == @.b)].x", what, doc, want(same), true)
	c.lists("$[?(@.b == @.a)].x", what, doc, want(same), true)
	c.lists("$[?(@.a != @.b)].x", what, doc, want(!same), true)
	c.lists("$[?(@.a in [1, @.b])].x", what, doc, want(same), true)
	c.lists("$[?(contains([@.a], @.b))].x", what, doc, want(same), true)
}

// runScaleFn: functions of large arguments.
func runScaleFn(c *Ctx, i int) {
	g := newGen(c)
	n := g.scale()
	yes := func(e string, args map[string]V) {
		args["ok"] = 1.0
		c.lists("$[?("+e+")].ok", fmt.Sprintf("size %d", n), []V{args, map[string]V{"ok": 2.0}}, []V{1.0}, true)
	}
	m := pick(g, []int{0, 1, n - 1, n - 1, n / 2, g.n(n)})
	switch i % 10 {
	case 0:
		o := members(n)
		names := sortedKeys(o)
		yes(fmt.Sprintf("keys(@.o)[%d] == '%s' && keys(@.o)[0] == '%s' && keys(@.o)[-1] == '%s' && keys(@.o).length == %d", m, names[m], names[0], names[n-1], n), map[string]V{"o": o})
	case 1:
		l := make([]V, n)
		s := 0.0
		for k := range l {
			l[k] = float64(g.n(1000))
			s += l[k].(float64)
		}
		yes(fmt.Sprintf("sum(@.l) == %v && avg(@.l) * %d - %v < 0.1 && %v - avg(@.l) * %d < 0.1", int64(s), n, int64(s), int64(s), n), map[string]V{"l": l})
	case 2:
		l := upto(n)
		l[m] = 1e9
		yes(fmt.Sprintf("max(@.l) == 1000000000 && max(@.l) == @.l[%d]", m), map[string]V{"l": l})
		l = upto(n)
		l[m] = -5.0
		yes(fmt.Sprintf("min(@.l) == -5 && @.l[%d] == min(@.l)", m), map[string]V{"l": l})
	case 3:
		l := make([]V, n)
		for k := range l {
			l[k] = "s" + strconv.Itoa(k%977)
		}
		l[m] = "zz"
		yes("max(@.l) == 'zz'", map[string]V{"l": l})
		l[m] = "a"
		yes("min(@.l) == 'a'", map[string]V{"l": l})
		yes("contains(@.l, 'a') && !contains(@.l, 'b') && 'a' in @.l && 'b' nin @.l", map[string]V{"l": l})
	case 4:
		l := make([]V, n)
		odd := 0
		for k := range l {
			l[k] = 1.0
			if g.p(0.5) {
				l[k] = -1.0
				odd++
			}
		}
		yes(fmt.Sprintf("prod(@.l) == %d", 1-2*(odd%2)), map[string]V{"l": l})
	case 5:
		yes(fmt.Sprintf("length(@.l) == %d && length(@.o) == %d && length(@.s) == %d && @.l.length == %d && @.o.length == %d && @.s.length == %d", n, n, n, n, n, n),
			map[string]V{"l": upto(n), "o": members(n), "s": strings.Repeat(pick(g, []string{"a", "é", "😀"}), n)})
	case 6:
		p := make([]string, n)
		for k := range p {
			p[k] = "p" + strconv.Itoa(k)
		}
		sep := pick(g, []string{",", ", ", ";"})
		yes(fmt.Sprintf("tokenize(@.s, ', |,|;').length == %d && tokenize(@.s, ', |,|;')[%d] == 'p%d' && tokenize(@.s, ', |,|;')[-1] == 'p%d'", n, m, m, n-1), map[string]V{"s": strings.Join(p, sep)})
	case 7:
		s := strings.Repeat("ab", n)
		yes("starts_with(@.s, @.t) && ends_with(@.u, @.s) && contains(@.u, @.s) && !starts_with(@.t, @.s) && !ends_with(@.s, @.t)", map[string]V{"s": s, "t": s[:len(s)-1], "u": "x" + s})
		j := g.n(len(s))
		v := s[:j] + "c" + s[j+1:]
		yes("!starts_with(@.v, @.s) && !ends_with(@.s, @.v) && !contains(@.v, @.s) && contains(@.v, 'c') && !contains(@.s, 'c')", map[string]V{"s": s, "v": v})
	case 8:
		n := min(n, 70000)
		var sb strings.Builder
		for k := 0; k < n; k++ {
			if k > 0 {
				sb.WriteByte(',')
			}
			if k == m {
				sb.WriteString("@.x")
			} else {
				sb.WriteString(strconv.Itoa(k % 1000))
			}
		}
		if m < n {
			yes("max("+sb.String()+") == 5000", map[string]V{"x": 5000.0})
			yes("5000 in ["+sb.String()+"]", map[string]V{"x": 5000.0})
		}
		yes("@.y && ["+sb.String()+"].length == "+strconv.Itoa(n), map[string]V{"x": 5000.0, "y": 1.0})
	case 9:
		// all numbers but one
		l := upto(n)
		l[m] = pick(g, []V{"1", nil, []V{}, map[string]V{}})
		fn := pick(g, []string{"sum", "avg", "prod", "max", "min"})
		if _, ok := l[m].(string); ok && m == 0 && n == 1 && (fn == "max" || fn == "min") {
			return
		}
		yes("@.l && !("+fn+"(@.l) > -1) && !("+fn+"(@.l) <= 0)", map[string]V{"l": l})
	}
}

// runScaleLits: very long literals and names.
func runScaleLits(c *Ctx, i int) {
	g := newGen(c)
	n := g.scale() * pick(g, []int{1, 1, 1, 8})
	switch i % 5 {
	case 0:
		s := strings.Repeat(pick(g, []string{"a", "é", "😀", "ab "}), n)
		j := len(s) - 1
		for s[j]&0xc0 == 0x80 {
			j--
		}
		d := s[:j]
		c.lists("$['"+s+"']", fmt.Sprintf("a name of %d bytes", len(s)), map[string]V{s: 1.0, d: 2.0, s + "a": 3.0}, []V{1.0}, true)
		c.lists("$[?(@ == '"+s+"')].length", "strings", []V{d, s + "a"}, nil, true)
		c.lists("$[?(@.s == '"+s+"')].x", fmt.Sprintf("strings of %d bytes", len(s)), []V{map[string]V{"s": d, "x": 1.0}, map[string]V{"s": s, "x": 2.0}, map[string]V{"s": s + "a", "x": 3.0}}, []V{2.0}, true)
	case 1:
		s := strings.Repeat("a", n)
		c.lists("$."+s, fmt.Sprintf("a name of %d bytes", n), map[string]V{s: 1.0, s[:n-1]: 2.0, s + "a": 3.0}, []V{1.0}, true)
		c.lists("$[?(@."+s+" == 1)]."+s+"b", fmt.Sprintf("a name of %d bytes", n), []V{map[string]V{s: 1.0, s + "b": 5.0}, map[string]V{s[:n-1]: 1.0, s + "b": 6.0}}, []V{5.0}, true)
	case 2:
		t, s := "", ""
		switch g.n(3) {
		case 0:
			t, s = strings.Repeat("\\u00e9", n), strings.Repeat("é", n)
		case 1:
			t, s = strings.Repeat("\\ud83d\\ude00", n), strings.Repeat("😀", n)
		case 2:
			t, s = strings.Repeat("\\n\\'x", n), strings.Repeat("\n'x", n)
		}
		c.lists("$['"+t+"']", fmt.Sprintf("%d escapes", n), map[string]V{s: 1.0, s[:len(s)-1]: 2.0, s + "x": 3.0}, []V{1.0}, true)
	case 3:
		z := strings.Repeat("0", n)
		c.lists("$["+z+"1]", fmt.Sprintf("%d zeros", n), []V{5.0, 6.0}, []V{6.0}, true)
		c.lists("$[?(@ == "+z+"7)]", fmt.Sprintf("%d zeros", n), []V{0.0, 7.0, 70.0}, []V{7.0}, true)
	case 4:
		z := strings.Repeat("0", n)
		c.lists("$[?(@ == 1."+z+"1)]", fmt.Sprintf("%d zeros", n), []V{1.0, 1.0000000000000002, 1.1}, []V{1.0}, true)
		c.lists("$[?(@ == 1.00000000000000011102230246251565404236316680908203125"+z+"1)]", fmt.Sprintf("%d zeros", n), []V{1.0, 1.0000000000000002}, []V{1.0000000000000002}, true)
	}
}

// runScaleRe: long patterns.
func runScaleRe(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{1000, 2049, 4096, 5000, 8193, 10000, 20000, 32769, 50000, 65537}) + g.n(3)
	body := make([]byte, n)
	for k := range body {
		body[k] = byte('a' + g.n(26))
	}
	pat := string(body)
	on := fmt.Sprintf("a pattern of %d bytes", n)
	j := pick(g, []int{0, n - 1, n - 1, n / 2, g.n(n)})
	other := []byte(pat)
	other[j] = '_'
	if i%2 == 1 {
		pat = strings.Repeat("x|", n/2) + "q" + strconv.Itoa(n)
		if g.p(0.5) {
			pat = "(?:" + pat + ")$"
		}
		body, other = []byte("q"+strconv.Itoa(n)), []byte("q_")
	}
	if _, err := regexp.Compile(pat); err != nil {
		return
	}
	l := []V{string(other), string(body), "x" + string(body)[1:]}
	var want []V
	re := regexp.MustCompile(pat)
	for _, v := range l {
		if re.MatchString(v.(string)) {
			want = append(want, v)
		}
	}
	c.lists("$[?(@ =~ /"+pat+"/)]", on, l, want, true)
	c.lists("$[?(@ =~ '"+pat+"')]", on, l, want, true)
	c.lists("$.l[?(@ ~ $.p)]", on, map[string]V{"l": l, "p": pat}, want, true)
}

// runScaleChain: long chains of operators, whose value is known.
func runScaleChain(c *Ctx, i int) {
	g := newGen(c)
	n := min(g.scale(), 70001)
	on := fmt.Sprintf("a chain of %d", n)
	yes := func(e string) { c.lists("$[?("+e+")]", on, []V{1.0}, []V{1.0}, true) }
	switch i % 8 {
	case 0:
		yes("1" + strings.Repeat("+1", n) + " == " + strconv.Itoa(n+1))
	case 1:
		yes("1" + strings.Repeat("-1", n) + " == " + strconv.Itoa(1-n))
	case 2:
		yes("0" + strings.Repeat(" || 0", n) + " || 1")
		yes("!(0" + strings.Repeat(" || 0", n) + ")")
	case 3:
		yes("1" + strings.Repeat(" && 2", n))
		j := g.n(n)
		yes("!(1" + strings.Repeat(" && 2", j) + " && 0" + strings.Repeat(" && 3", n-j) + ")")
	case 4:
		yes(strings.Repeat("2*3/6*", n/4) + "7 == 7")
		yes(strings.Repeat("5-1*", n/8)[:0] + "8" + strings.Repeat("/2*2", n/2) + " == 8")
	case 5:
		// 1 - 2 + 1 - 2 ..., with products inside
		yes("0" + strings.Repeat(" - 2*3 + 12/2", n/4) + " == 0")
	case 6:
		yes("1" + strings.Repeat(" == 1", n)) // true == 1
		yes("(2" + strings.Repeat(" < 3", n) + ")")
	case 7:
		e := "0"
		for k := 0; k < 60; k++ {
			e += strings.Repeat(" || @.a && 1", n/200) + " || 0 && 1"
		}
		yes(e + " || 3 > 2 && !0")
	}
}

// runScaleTrees: the parse of a very long text.
func runScaleTrees(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{9999, 10001, 16385, 32769, 50000, 65537, 100000})
	path, err := paths.ParsePath("$" + strings.Repeat(".a[1]", n/2))
	if err != nil || len(path) != n/2*2 {
		c.Violate("a path of %d steps is parsed as one of %d, error %v", n/2*2, len(path), err)
	}
	path, err = paths.ParsePath("$[" + strings.Repeat("1,", n) + "2]")
	if err != nil || len(path) != 1 || len(path[0].Args) != n+1 {
		c.Violate("a union of %d elements is parsed as something else (%v)", n+1, err)
	}
	e, err := paths.ParseScriptExpression("f(" + strings.Repeat("1,", n) + "2)")
	if err != nil {
		c.Violate("a call with %d arguments: %v", n+1, err)
	}
	if in, ok := e.(*paths.Inner); !ok || len(in.Kids) != n+2 {
		c.Violate("a call with %d arguments is parsed as something else", n+1)
	}
	e, err = paths.ParseScriptExpression("0" + strings.Repeat("-1", n))
	if err != nil {
		c.Violate("a chain of %d operators: %v", n, err)
	}
	for k := 0; k < n; k++ {
		in, ok := e.(*paths.Inner)
		if !ok || len(in.Kids) != 2 {
			c.Violate("a chain of %d subtractions is parsed as one nested %d deep", n, k)
		}
		if r, ok := in.Kids[1].(*paths.IntLeaf); !ok || r.Val != 1 {
			c.Violate("a chain of %d subtractions does not group from the left at %d", n, k)
		}
		e = in.Kids[0]
	}
	c.Max("longest chain", n)
	c.Eval(hash64("trees", strconv.Itoa(n), strconv.Itoa(i)), true)
}

// runScaleCli: very many values in one run of jpath, and a fault at the end, or not.
func runScaleCli(fault bool) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		g := newGen(c)
		n := pick(g, []int{3000, 4096, 10000, 32768, 65535, 65536, 65537, 100000, 131073})
		byLine := i%2 == 0
		var in bytes.Buffer
		sep := "\n"
		if !byLine {
			sep = pick(g, []string{"\n", " ", "\n\n\t"})
		}
		for k := 0; k < n; k++ {
			fmt.Fprintf(&in, `{"a":[%d,"s"]}%s`, k, sep)
		}
		path := pick(g, []string{"$.a[0]", "$.a[?(@.length != 1 && @ ~ 's' || 1)][9]", "$..a[0]"})
		if strings.Contains(path, "~") {
			path = "$.a[?(@ != 's')]"
		}
		if fault {
			switch g.n(3) {
			case 0:
				in.WriteString("{\n")
			case 1:
				in.WriteString(`{"a":]}`)
			case 2:
				path = "$.a[?(@ in $.b || 1)]"
				path = "$.a[?(!(@ in $.b) && @ != 's')]" // nothing in nothing has no value
				in.WriteString(`{"a":[1],"b":2}`)
			}
			in.WriteString(sep)
		}
		var args []string
		if byLine {
			args = append(args, "-l")
		}
		args = append(args, path)
		run := cliRun{limit: -1}
		if g.p(0.5) {
			dir := scratch()
			defer os.RemoveAll(dir)
			name := filepath.Join(dir, "many.json")
			if err := os.WriteFile(name, in.Bytes(), 0o666); err != nil {
				bug("%v", err)
			}
			args = append(args, name)
		} else {
			run.stdin = in.Bytes()
		}
		run.args = args
		r := c.jpath(run)
		what := fmt.Sprintf("jpath %q on %d values", args, n)
		if fault {
			c.failedRun(what, r)
		} else if r.code != 0 || r.sig || len(r.stderr) != 0 {
			c.Violate("%s exited with status %d: %s", what, r.code, cut(string(r.stderr), 500))
		}
		dec := json.NewDecoder(bytes.NewReader(r.stdout))
		k := 0
		for dec.More() {
			var l []float64
			if err := dec.Decode(&l); err != nil {
				c.Violate("%s: output %d: %v", what, k, err)
			}
			if len(l) != 1 || l[0] != float64(k) || k >= n {
				c.Violate("%s: output %d is %v", what, k, l)
			}
			k++
		}
		if k != n {
			c.Violate("%s wrote %d lists, not %d", what, k, n)
		}
		c.Count("results checked", k)
		c.Max("most values in one run", n)
		c.Eval(hash64("vast", what, strconv.Itoa(i)), true)
	}
}

// runLeakScale: nothing is left behind by evaluations and compilations of any size.
func runLeakScale(c *Ctx, i int) {
	g := newGen(c)
	n := pick(g, []int{900, 1001, 1025, 2000, 4097, 5000, 10001, 20000, 65537, 100001})
	objects := func(n int) []V {
		l := make([]V, n)
		for k := range l {
			l[k] = map[string]V{"i": float64(k), "s": "a"}
		}
		return l
	}
	members := func(n int) map[string]V {
		m := make(map[string]V, n)
		for k := 0; k < n; k++ {
			m["k"+strconv.Itoa(k)] = map[string]V{"i": float64(k), "s": "a"}
		}
		return m
	}
	unit := pick(g, []string{"a", "ab", "é", "1,", "a b"})
	long := strings.Repeat(unit, n/len(unit)+1)
	var texts []string
	var doc V
	where := pick(g, []int{0, 1, n / 2, n - 1, n + 5})
	fail := fmt.Sprintf("'a' =~ ((@.i == %d && '(') || 'a')", where)
	c.settle(1, "earlier cases")
	switch i % 7 {
	case 0:
		doc = map[string]V{"x": objects(n)}
		texts = []string{"$.x[?(@.i >= 0)]", "$.x[?(" + fail + ")]", "$..[?(@.i > 5)]", "$..[?(" + fail + ")]", "$.x[?(@.i >= 0)].s", "$.x[?(@.i >= 0)][?(@)]", "$..i", "$..*", "$..[0,'i']"}
	case 1:
		doc = map[string]V{"x": members(n)}
		texts = []string{"$.x[?(@.i >= 0)]", "$.x[?(" + fail + ")]", "$..[?(@.i > 5)]", "$..[?(" + fail + ")]", "$.x.*[?(@)]", "$..i", "$..*"}
	case 2:
		doc = []V{objects(n), members(n / 2)}
		texts = []string{"$.*.*", "$[0][::2]", "$[0][::-3].i", "$.*[1,2,0:5]", "$[0][(1)]", "$..[-1]", "$..[(1)]", "$..[::2]", "$[*][*][?(@ == 'a')]"}
	case 3:
		// functions and operators on large values
		nums := make([]V, n)
		for k := range nums {
			nums[k] = float64(k)
		}
		doc = []V{map[string]V{"l": nums, "m": append([]V{}, nums...), "o": members(n), "q": members(n), "s": long, "t": long + "x", "r": strings.Repeat(long[:10], n/20+1)}}
		for _, fn := range fnNames {
			a := pick(g, []string{"@.l", "@.o", "@.s"})
			b := pick(g, []string{"@.m", "@.s", "@.t", "'a'", "','", "3"})
			switch arity[fn] {
			case 1:
				texts = append(texts, "$[?("+fn+"(@.l) || 1)]", "$[?("+fn+"(@.o) || 1)]", "$[?("+fn+"(@.s) || 1)]")
			case 2:
				texts = append(texts, "$[?("+fn+"("+a+", "+b+") || 1)]", "$[?("+fn+"(@.s, 'a') || 1)]", "$[?("+fn+"(@.l, 'a') || 1)]")
			default:
				texts = append(texts, "$[?("+fn+"(@.l) || 1)]", "$[?("+fn+"(@.s, @.t) || 1)]")
			}
		}
		for _, op := range []string{"==", "!=", "<", "<=", "+"} {
			texts = append(texts, "$[?((@.l "+op+" @.m) || 1)]", "$[?((@.s "+op+" @.t) || 1)]", "$[?((@.o "+op+" @.q) || 1)]")
		}
		texts = append(texts, "$[?(@.s in @.l)]", "$[?(7 nin @.l)]", "$[?(@.l in [@.m])]")
	case 4:
		// long subjects and patterns
		doc = []V{long, long + "x", "x" + long, long[:len(long)/2], strings.Repeat("b", n)}
		texts = []string{"$[?(@ =~ /a/)]", "$[?(@ =~ /x$/)]", "$[?(@ ~ 'x')]", "$[?(@ =~ '^x')]", "$[?(@ =~ '(')]", "$[?(@ =~ /(a|b)*c/)]", "$[?(tokenize(@, 'a'))]", "$[?(tokenize(@, ''))]"}
	case 5:
		// compilations, of which some fail
		for _, s := range []string{"$" + strings.Repeat(".a", n), "$[" + strings.Repeat("1,", n) + "2]", "$[?(1" + strings.Repeat("+1", n) + ")]", "$['" + long + "']", "$[?(@ =~ /" + strings.Repeat("a", n) + "/)]"} {
			for _, t := range []string{s, s + "]", s[:len(s)-1], s[:g.n(len(s))]} {
				if _, err := jsonpath.Compile(t); err != nil {
					c.Count("compilations that failed", 1)
				}
				c.Count("compilations watched", 1)
				c.settle(1, "compiling "+cut(t, 60))
			}
		}
		c.Eval(hash64("leak", strconv.Itoa(n), unit), true)
		return
	default:
		depth := n % 9000
		doc = 1.0
		for k := 0; k < depth; k++ {
			if k%3 == 0 {
				doc = map[string]V{"a": doc, "i": float64(k)}
			} else {
				doc = []V{doc}
			}
		}
		texts = []string{"$..a", "$..[?(@.i)]", "$..[0]", "$..[?(" + fail + ")]", "$..*"}
	}
	for _, text := range texts {
		prog := c.mustCompile(text)
		for r := 0; r < 3; r++ {
			c.Count("evaluations watched", 1)
			if _, err := c.eval(prog, text, doc); err != nil {
				c.Count("failing evaluations watched", 1)
			}
		}
		c.settle(1, fmt.Sprintf("evaluating %s at size %d", text, n))
		c.Eval(hash64(text, strconv.Itoa(n), unit), true)
	}
	c.Max("largest size", n)
}

// scaleDoc returns a large document, and a source of paths for it.
func scaleDoc(g *Gen) (int, V, func() string) {
	n := pick(g, []int{300, 1001, 1500, 2049, 4097, 5000, 10001, 20000})
	rec := make([]V, n)
	nums := make([]V, n)
	obj := make(map[string]V, n)
	for k := range rec {
		rec[k] = map[string]V{"i": float64(k), "s": "s" + strconv.Itoa(k%7), "l": []V{float64(k), "x"}}
		nums[k] = float64(k)
		obj["k"+strconv.Itoa(k)] = float64(k)
	}
	long := strings.Repeat("ab,", n)
	doc := map[string]V{"r": rec, "n": nums, "o": obj, "s": long, "one": []V{map[string]V{"l": nums, "o": obj, "s": long}}}
	return n, doc, func() string {
		a, b := g.n(n), g.n(n)
		return pick(g, []string{
			fmt.Sprintf("$.r[?(@.i >= %d)].s", a), fmt.Sprintf("$.n[?(@ < %d)]", a), fmt.Sprintf("$.n[%d:%d]", min(a, b), max(a, b)), "$.n[::-1]", "$.r.*.s", "$.r[*].l[0]",
			"$..l[1]", "$.r..i", "$..[?(@.i)].i", "$.r[0:][1:].i", "$.n[0,1,2,1:5,::2]", fmt.Sprintf("$.r[?(@.i == %d || 'a' =~ 'b')].l", a), fmt.Sprintf("$.r[?('a' =~ ((@.i == %d && '(') || 'a'))].i", a),
			fmt.Sprintf("$.one[?(sum(@.l) == %d)].l", n*(n-1)/2), fmt.Sprintf("$.one[?(avg(@.l) == %d.0 / 2 && max(@.l) == %d && min(@.l) == 0)].l[7]", n-1, n-1), "$.one[?(max(@.l) == min(@.l))]", fmt.Sprintf("$.one[?(%d in @.l)].l[0]", a), "$.one[?(length(keys(@.o)) > 5)].l[1]", fmt.Sprintf("$.one[?(@.o['k%d'] == %d)].l[1]", a, a),
			"$.one[?(length(tokenize(@.s, ',')) > 3)].l[2]", "$.one[?(@.s =~ /a(b|,)*$/)].l[3]", "$.one[?(@.l == $.n)].l[4]", "$.one[?(@.o == $.o)].l[5]", "$.one[?(contains(@.l, 'x'))]", "$.one[?(ends_with(@.s, ','))].l[6]",
		})
	}
}

// said is an outcome, in order unless the order is that of an object's members.
func said(text string, r []V, err error) string {
	if err != nil || strings.Contains(text, "$..") {
		return outcome(r, err)
	}
	return canon(r)
}

// runSameScale: the answers for a large document are the same each time, whatever the number of processors and the
// collector do meanwhile.
func runSameScale(c *Ctx, i int) {
	g := newGen(c)
	n, doc, text := scaleDoc(g)
	texts := []string{text(), text(), text()}
	first := map[string]string{}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	for k := 0; k < 12; k++ {
		t := texts[g.n(len(texts))]
		runtime.GOMAXPROCS(pick(g, []int{1, 2, 4, 8}))
		if g.p(0.2) {
			runtime.GC()
		}
		prog := c.mustCompile(t)
		r, err := c.eval(prog, t, doc)
		got := said(t, r, err)
		if want, ok := first[t]; ok && got != want {
			c.Violate("path %s at size %d gave %s, and then %s (error %v)", t, n, cut(want, 600), cut(got, 600), err)
		}
		first[t] = got
		if err == nil && g.p(0.3) {
			for x := range r {
				r[x] = nil
			}
		}
	}
	c.Max("largest document", n)
	c.Eval(hash64("same", fmt.Sprint(texts), strconv.Itoa(n)), true)
}

// runNumbersScale: large documents give the same answers with numbers of either type.
func runNumbersScale(c *Ctx, i int) {
	g := newGen(c)
	n, doc, text := scaleDoc(g)
	for k := 0; k < 4; k++ {
		t := text()
		prog := c.mustCompile(t)
		got, gerr := c.eval(prog, t, doc)
		want, err := prog.Eval(doc)
		if a, b := said(t, got, gerr), said(t, want, err); a != b {
			c.Violate("path %s at size %d gave %s (error %v), but %s with numbers as float64", t, n, cut(a, 600), gerr, cut(b, 600))
		}
		c.Eval(hash64("numbers", t, strconv.Itoa(n)), true)
	}
}

// runConcScale: a few goroutines evaluating shared paths on one large document.
func runConcScale(c *Ctx, i int) {
	g := newGen(c)
	n, doc, text := scaleDoc(g)
	texts := make([]string, 1+g.n(3))
	progs := make([]*jsonpath.JSONPath, len(texts))
	for k := range texts {
		texts[k] = text()
		progs[k] = c.mustCompile(texts[k])
	}
	before := canon(doc)
	const ng = 4
	type answer struct {
		p   int
		res []V
		err error
	}
	answers := make([][]answer, ng)
	c.Now(fmt.Sprintf("concurrent evaluation of %q at size %d", texts, n))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < ng; k++ {
		l := make([]answer, 3)
		for j := range l {
			l[j].p = g.n(len(texts))
		}
		answers[k] = l
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := range l {
				l[j].res, l[j].err = progs[l[j].p].Eval(doc)
				if l[j].err == nil && j == 1 {
					keep := append([]V{}, l[j].res...)
					for x := range l[j].res {
						l[j].res[x] = "overwritten"
					}
					l[j].res = keep
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if canon(doc) != before {
		c.Violate("a document of size %d was changed by concurrent evaluation of %q", n, texts)
	}
	alone := map[int]string{}
	for k := range answers {
		for _, a := range answers[k] {
			want, ok := alone[a.p]
			if !ok {
				r, err := c.eval(c.mustCompile(texts[a.p]), texts[a.p], doc)
				want = said(texts[a.p], r, err)
				alone[a.p] = want
			}
			if got := said(texts[a.p], a.res, a.err); got != want {
				c.Violate("path %s at size %d gave concurrently %s (error %v), but alone %s", texts[a.p], n, cut(got, 600), a.err, cut(want, 600))
			}
			c.Count("large concurrent evaluations compared", 1)
		}
	}
	c.Max("largest document of a concurrent evaluation", n)
	c.Eval(hash64("concscale", fmt.Sprint(texts), strconv.Itoa(n)), true)
}
