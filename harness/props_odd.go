package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Odd characters, odd counts and slow candidates.

// characters that something might take for a space, a punctuation mark, a letter of another spelling, or nothing at all
var oddRunes = []string{
	"\u00a0", "\ufeff", "\u200b", "\u200c", "\u200d", "\u2028", "\u2029", "\u0085", "\u3000", "\u2003", "\u00ad", "\u2060", "\u180e", "\u202e", "\u1680",
	"\u0301", "\u00e9", "e\u0301", "\u212b", "\u00c5", "\u00df", "\u0130", "\u0131", "\u017f", "\u03c2", "\ufb01", "\u00b2", "\u0661", "\uff11", "\uff41", "\u2126",
	"\uff04", "\uff0e", "\uff3b", "\uff3d", "\u2024", "\u2026", "\u2013", "\u2212", "\u2018", "\u2019", "\u201c", "\u201d", "\uff08", "\uff09", "\uff20", "\u00d7", "\u2260", "\u2264", "\u00ac",
	"\u0080", "\u009f", "\ufffd", "\ufffe", "\uffff", "\U0001f600", "\U0010ffff", "\U000e0001", "\xff", "\x80", "\xc2", "\xed\xa0\x80", "\xc0\x80", "\x7f",
}

var oddTexts = []string{
	"$", "$.a", "$.a.b", "$['a']", "$[\"a\"]", "$[0]", "$[-1]", "$[1:2:3]", "$[0,'a',b]", "$.*", "$..a", "$..*", "$..[0]", "$[?(@.a)]", "$[?(@.a == 'x')]", "$[?(@ =~ /a/)]", "$[(@.length-1)]",
	"$[?(max(@.a,1) >= 1.5e3)]", "$[?(!@.a && @.b || 1 in [1,2])]", "$[?(@['a'] != null)]", "$[?(@.a nin [true])]", "$.a[1:(2)]",
}

// runOddTexts: an odd character at every place of a text, between the characters and instead of each.
func runOddTexts(c *Ctx, i int) {
	r := oddRunes[i]
	for _, t := range oddTexts {
		for k := 0; k <= len(t); k++ {
			c.grammar(t[:k] + r + t[k:])
			if k < len(t) {
				c.grammar(t[:k] + r + t[k+1:])
			}
		}
		c.grammar(r + r + t)
	}
	c.Count("odd characters tried", 1)
}

// runOddNames: names and strings with an odd character.
func runOddNames(c *Ctx, i int) {
	r := oddRunes[i]
	names := []string{"a" + r, "a" + r + "b", "x" + r + r, r + "a", r}
	if r == "\x7f" {
		names = nil // not a letter
	}
	spoil := func(n string) []string {
		var ds []string
		for _, d := range []string{
			strings.ReplaceAll(n, r, ""), strings.ReplaceAll(n, r, " "), strings.ReplaceAll(n, r, r+r), strings.ReplaceAll(n, r, "\ufffd"), strings.ToUpper(n), strings.ToLower(n), strings.ToTitle(n),
			strings.TrimSpace(n), strings.ToValidUTF8(n, "\ufffd"), strings.ToValidUTF8(n, ""), strings.ReplaceAll(n, "\u00e9", "e\u0301"), strings.ReplaceAll(n, "e\u0301", "\u00e9"),
			strings.ReplaceAll(n, "\u0301", ""), strings.ReplaceAll(n, "\u212b", "\u00c5"), strings.ReplaceAll(n, "\u00c5", "A\u030a"), strings.ReplaceAll(n, "\u2126", "\u03a9"), strings.ReplaceAll(n, "\u00df", "ss"),
			strings.ReplaceAll(n, "\uff11", "1"), strings.ReplaceAll(n, "\u0661", "1"), strings.ReplaceAll(n, "\ufb01", "fi"), strings.ReplaceAll(n, "\u017f", "s"), strings.ReplaceAll(n, "\xc0\x80", "\x00"), n + r, n[:len(n)-1],
		} {
			if d != n {
				ds = append(ds, d)
			}
		}
		return ds
	}
	for _, n := range names {
		ds := spoil(n)
		c.denotes("."+n, n, ds)
		c.denotes("["+n+"]", n, ds)
		o := map[string]V{n: "target"}
		for _, d := range ds {
			o[d] = "decoy"
		}
		c.expect("$.x.."+n, map[string]V{"x": o}, "target")
		c.expect("$[?(@."+n+"=='target')].ok", []V{map[string]V{n: "target", "ok": 1.0}, map[string]V{n: "other", ds[0]: "target", "ok": 2.0}}, 1.0)
		c.expect("$[?(keys(@)[0] == '"+n+"')].*", []V{map[string]V{n: 1.0}, map[string]V{ds[0]: 2.0}}, 1.0)
	}
	for _, s := range []string{"a" + r, r, "a" + r + "b", r + " a", "1" + r} {
		if !validText(s) {
			continue // not text
		}
		ds := spoil(s)
		for _, q := range []string{"'", "\""} {
			c.denotes("["+q+s+q+"]", s, ds)
			var l []V
			for _, d := range ds {
				if d != s {
					l = append(l, d)
				}
			}
			c.expect("$[?(@ == "+q+s+q+")]", append(append([]V{}, l...), V(s)), s)
			c.expect("$[?(@ in ["+q+s+q+"])]", append([]V{s}, l...), s)
		}
	}
	c.Count("odd characters tried", 1)
}

func validText(s string) bool { return strings.ToValidUTF8(s, "") == s }

// runManyArgs: calls with far too many arguments.
func runManyArgs(c *Ctx, i int) {
	g := newGen(c)
	fn := fnNames[i%len(fnNames)]
	na := arity[fn]
	for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 514, 1024, 1025, 32768, 32769, 65535, 65536, 65537, 65538} {
		if n > 2000 && i >= len(fnNames) {
			continue
		}
		args := make([]*Expr, n)
		for k := range args {
			args[k] = xInt(1)
		}
		if na > 1 {
			args[0], args[1] = xStr("ab"), xStr("a")
		}
		if g.p(0.3) {
			args[0] = xAt()
		}
		p := Path{sFilter(xCall(fn, args...))}
		text := p.Text(nil)
		doc := []V{1.0, []V{}, "ab", map[string]V{"a": 1.0}}
		out := c.checkText(p, text, doc, mBag|mErr)
		if out.decided(mErr) {
			c.note(text, doc, true)
			if out.Err != "" {
				c.Count("evaluations that failed as they must", 1)
			}
		}
	}
}

// runSlow: candidates that each take long to decide.
func runSlow(c *Ctx, i int) {
	target := []time.Duration{400 * time.Millisecond, 1300 * time.Millisecond, 6 * time.Second}[i/4%3]
	re := regexp.MustCompile("(a|b|ab)*a.*[xy]z$")
	s := strings.Repeat("ab", 1<<16)
	for {
		t0 := time.Now()
		re.MatchString(s)
		if time.Since(t0) >= target || len(s) > 1<<28 {
			break
		}
		s += s
	}
	// every candidate is decided slowly; half of them are kept
	e := "(" + "@.s" + " =~ /(a|b|ab)*a.*[xy]z$/ || @.k % 2 == 0)"
	var l []V
	o := map[string]V{}
	var want []V
	for k := 0; k < 4; k++ {
		m := map[string]V{"s": s, "k": float64(k)}
		l = append(l, m)
		o["m"+strconv.Itoa(k)] = m
		if k%2 == 0 {
			want = append(want, float64(k))
		}
	}
	var text string
	var doc V
	switch i % 4 {
	case 0:
		text, doc = "$[?"+e+"].k", l
	case 1:
		text, doc = "$.a[?"+e+"].k", map[string]V{"a": o}
	case 2:
		text, doc = "$..[?"+e+"].k", l
	case 3:
		text, doc = "$.a..[?"+e+"].k", map[string]V{"a": o}
	}
	c.Now("slowly decided candidates: " + text)
	t0 := time.Now()
	got, err := c.mustCompile(text).Eval(doc)
	if err != nil {
		// the containers have no s, so =~ has no value there, and nothing fails
		c.Violate("path %s failed: %v", text, err)
	}
	if outcome(got, nil) != outcome(want, nil) {
		c.Violate("path %s, each candidate taking about %v to decide, gave %s, not %s", text, target, cut(show(V(got)), 500), show(V(want)))
	}
	c.Max("longest evaluation, ms", int(time.Since(t0)/time.Millisecond))
	c.Eval(hash64("slow", strconv.Itoa(i)), true)
	c.Sample(fmt.Sprintf("%s with strings of %d bytes", text, len(s)))
}
