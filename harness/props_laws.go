package main

// Laws that relate evaluations of the code to each other, judged without the reference evaluator.

// usesIn reports whether the expression uses $ or @.
func usesIn(e *Expr, k EK) bool {
	if e == nil {
		return false
	}
	if e.K == k {
		return true
	}
	for _, x := range e.Kids {
		if usesIn(x, k) {
			return true
		}
	}
	return false
}

// separable reports whether p may be applied to each of a prefix's results on its own: it has no $,
// nor @ where a listed finding says it has no value.
func separable(p Path) bool {
	for _, s := range p {
		if usesIn(s.E, ERoot) || s.K == SExpr && usesIn(s.E, EAt) {
			return false
		}
		for _, e := range s.L {
			for _, b := range e.B {
				if b.E != nil {
					return false
				}
			}
		}
	}
	return true
}

// runStages: a path's results are those of its later steps on each result of its earlier ones.
func runStages(c *Ctx, i int) {
	g := newGen(c)
	g.missP = 0.1
	doc := g.doc()
	opt := PathOpts{Steps: 2 + g.n(4), Nest: 0.25, Wild: 0.25, Union: 0.2, Slice: 0.2, Filter: 0.3, ExprStep: 0.1, Miss: 0.03, FilterGen: filterOver(doc, 2), ExprGen: keyOver(doc)}
	for k := 0; k < 3; k++ {
		p := g.path(doc, opt)
		if len(p) < 2 {
			continue
		}
		cutAt := 1 + g.n(len(p)-1)
		if !separable(p[cutAt:]) {
			continue
		}
		all, pre, post := p.Text(g.layout()), p[:cutAt].Text(g.layout()), p[cutAt:].Text(g.layout())
		got, err := c.eval(c.mustCompile(all), all, doc)
		mid, merr := c.eval(c.mustCompile(pre), pre, doc)
		if merr != nil || len(mid) > 400 {
			continue
		}
		prog := c.mustCompile(post)
		var want []V
		var werr error
		for _, v := range mid {
			r, err := c.eval(prog, post, v)
			if err != nil {
				werr = err
				break
			}
			want = append(want, r...)
		}
		if len(mid) == 0 && err == nil && len(got) == 0 {
			continue
		}
		if len(mid) == 0 {
			// what fails whatever it is applied to
			c.Count("nothing to apply the later steps to", 1)
			continue
		}
		if (err != nil) != (werr != nil) {
			c.Violate("path %s on %s: error %v; its steps %s on each of the %d results of %s: error %v", cut(all, 1000), show(doc), err, cut(post, 500), len(mid), cut(pre, 500), werr)
		}
		if err == nil {
			in := newInterner()
			if !sameBag(in.ids(got), in.ids(want)) {
				c.Violate("path %s on %s gave (%d) %s, but its steps %s on each of the %d results of %s gave (%d) %s", cut(all, 1000), show(doc), len(got), show(got), cut(post, 500), len(mid), cut(pre, 500), len(want), show(want))
			}
			c.Count("results compared", len(got))
		}
		c.note(all, doc, len(want) > 0)
	}
}

// runPartition: each candidate is kept by exactly one of ?(e) and ?(!(e)).
func runPartition(c *Ctx, i int) {
	g := newGen(c)
	g.missP = 0.15
	doc := g.doc()
	pre := g.path(doc, PathOpts{Steps: g.n(3), Nest: 0.2, Wild: 0.3, Union: 0.1, Miss: 0.02})
	prog := c.mustCompile(pre.Text(nil))
	cur, err := c.eval(prog, pre.Text(nil), doc)
	if err != nil {
		c.Violate("path %s failed: %v", pre.Text(nil), err)
	}
	var cands []V
	for _, v := range cur {
		cands = append(cands, kids(v)...)
	}
	if len(cands) == 0 || len(cands) > 2000 {
		return
	}
	for k := 0; k < 3; k++ {
		e := filterOver(doc, 3)(g, cands)
		var parts []V
		n := [2]int{}
		var errs [2]error
		texts := [2]string{}
		for j, e := range []*Expr{e, xNot(e)} {
			p := append(append(Path(nil), pre...), sFilter(e))
			texts[j] = p.Text(g.layout())
			r, err := c.eval(c.mustCompile(texts[j]), texts[j], doc)
			errs[j], n[j] = err, len(r)
			parts = append(parts, r...)
		}
		if (errs[0] != nil) != (errs[1] != nil) {
			c.Violate("on %s: %s: error %v; %s: error %v", show(doc), texts[0], errs[0], texts[1], errs[1])
		}
		if errs[0] != nil {
			c.Count("failed both ways", 1)
			continue
		}
		in := newInterner()
		if !sameBag(in.ids(parts), in.ids(cands)) {
			c.Violate("on %s: %s keeps %d and %s keeps %d, together not the %d candidates: %s", show(doc), texts[0], n[0], texts[1], n[1], len(cands), show(parts))
		}
		c.Count("candidates partitioned", len(cands))
		c.note(texts[0], doc, n[0] > 0 && n[1] > 0)
	}
}

// kids gives the elements or members of a value.
func kids(v V) []V {
	switch v := v.(type) {
	case []V:
		return v
	case map[string]V:
		var l []V
		for _, k := range sortedKeys(v) {
			l = append(l, v[k])
		}
		return l
	}
	return nil
}
