package main

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The reference evaluator: a direct, naive reading of the property statements over the
// harness's own trees. Where the statements leave a case open it panics with skip, and
// the case is discarded (and counted).

type V = interface{} // nil, bool, int64, float64, string, []V, map[string]V, nothing, *reV

type nothingT struct{}

var nothing = nothingT{}

type reV struct{ re *regexp.Regexp }

type skip struct{ why string }

func skipf(f string, a ...interface{}) { panic(skip{fmt.Sprintf(f, a...)}) }

type evalErr struct{ why string }

func fail(f string, a ...interface{}) { panic(evalErr{fmt.Sprintf(f, a...)}) }

func isNothing(v V) bool { _, ok := v.(nothingT); return ok }

// Sel is a selection with its required order: a sequence, or a set of parts to be taken in any order.
type Sel struct {
	Leaf bool
	Val  V
	Perm bool
	Kids []*Sel
	N    int // number of leaves
}

func leaf(v V) *Sel { return &Sel{Leaf: true, Val: v, N: 1} }

func group(perm bool, kids []*Sel) *Sel {
	n := 0
	for _, k := range kids {
		n += k.N
	}
	return &Sel{Perm: perm, Kids: kids, N: n}
}

func (s *Sel) each(f func(V)) {
	if s.Leaf {
		f(s.Val)
		return
	}
	for _, k := range s.Kids {
		k.each(f)
	}
}

func (s *Sel) list() []V {
	l := make([]V, 0, s.N)
	s.each(func(v V) { l = append(l, v) })
	return l
}

// bind replaces every leaf by a selection obtained from its value.
func (s *Sel) bind(f func(V) *Sel) *Sel {
	if s.Leaf {
		return f(s.Val)
	}
	kids := make([]*Sel, 0, len(s.Kids))
	for _, k := range s.Kids {
		if r := k.bind(f); r.N > 0 {
			kids = append(kids, r)
		}
	}
	return group(s.Perm, kids)
}

var none = group(false, nil)

type Model struct {
	root   V
	budget int // evaluation steps left
	cands  int // filter candidates judged
	kept   int
	atUsed bool

	// The listed known findings. With open set the cases they are about are decided both ways:
	// asis says which of them to decide as the code is known to behave, hit notes which arose.
	open      bool
	asis, hit int
}

const (
	kAt     = 1 << iota // K1: @ is null in an expression step that is not after ..
	kChoose             // K2: the operand of && or || not chosen is evaluated
)

// known notes that finding k matters to the case, and returns true if it is to be decided as the code does.
func (m *Model) known(k int) bool {
	m.hit |= k
	return m.asis&k != 0
}

// EvaluateKnown gives the outcomes allowed for p on doc: that specified, then those
// that differ from it exactly as the known findings do. It gives one skipped outcome if any is open.
func EvaluateKnown(p Path, doc V, budget int) []Outcome {
	outs := []Outcome{}
	hit := 0
	for asis := 0; asis <= kAt|kChoose; asis++ {
		if asis&^hit != 0 {
			continue
		}
		out := evaluate(p, doc, &Model{root: doc, budget: budget, open: true, asis: asis})
		if out.Skip != "" {
			return []Outcome{out}
		}
		if out.M.hit&^hit != 0 && asis != 0 {
			return []Outcome{{Skip: "findings entangled", M: out.M}}
		}
		hit |= out.M.hit
		outs = append(outs, out)
	}
	return outs
}

const maxResults = 200000

func (m *Model) tick() {
	m.budget--
	if m.budget < 0 {
		skipf("evaluation budget")
	}
}

type Outcome struct {
	Sel  *Sel
	Err  string // non-empty: evaluation must fail
	Skip string // non-empty: unspecified
	M    *Model
}

// Evaluate applies a path to a document.
func Evaluate(p Path, doc V, budget int) Outcome {
	return evaluate(p, doc, &Model{root: doc, budget: budget})
}

func evaluate(p Path, doc V, m *Model) (out Outcome) {
	out.M = m
	defer func() {
		switch x := recover().(type) {
		case nil:
		case skip:
			out = Outcome{Skip: x.why, M: m}
		case evalErr:
			out = Outcome{Err: x.why, M: m}
		default:
			panic(x)
		}
	}()
	cur := leaf(doc)
	for _, s := range p {
		cur = m.step(cur, s)
		if cur.N > maxResults {
			skipf("too many results")
		}
	}
	out.Sel = cur
	return out
}

// EvalExpr evaluates an expression with the given @ and $.
func EvalExpr(e *Expr, at, root V) (v V, err string, skipped string) {
	m := &Model{root: root, budget: 1 << 20}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case skip:
			skipped = x.why
		case evalErr:
			err = x.why
		default:
			panic(x)
		}
	}()
	return m.expr(e, at), "", ""
}

func isContainer(v V) bool {
	switch v.(type) {
	case []V, map[string]V:
		return true
	}
	return false
}

// children gives the elements of an array in order, or the members of an object in any order.
func children(v V) *Sel {
	switch v := v.(type) {
	case []V:
		k := make([]*Sel, len(v))
		for i := range v {
			k[i] = leaf(v[i])
		}
		return group(false, k)
	case map[string]V:
		k := make([]*Sel, 0, len(v))
		for _, n := range sortedKeys(v) {
			k = append(k, leaf(v[n]))
		}
		return group(true, k)
	}
	return none
}

func sortedKeys(m map[string]V) []string {
	k := make([]string, 0, len(m))
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// subtree applies f to a container, then to the containers inside it.
func (m *Model) subtree(v V, f func(V) *Sel) *Sel {
	if !isContainer(v) {
		return none
	}
	m.tick()
	parts := []*Sel{f(v)}
	inner := children(v).bind(func(c V) *Sel { return m.subtree(c, f) })
	return group(false, append(parts, inner))
}

func (m *Model) step(cur *Sel, s *Step) *Sel {
	if s.Nest {
		var f func(V) *Sel
		if s.K == SFilter {
			f = func(v V) *Sel { return m.judge(s.E, v) }
		} else {
			f = func(v V) *Sel { return m.selectOne(v, s) }
		}
		return cur.bind(func(v V) *Sel { return m.subtree(v, f) })
	}
	if s.K == SFilter {
		return cur.bind(func(v V) *Sel {
			return children(v).bind(func(c V) *Sel { return m.judge(s.E, c) })
		})
	}
	exprs := s.exprs()
	for _, e := range exprs {
		if e.has(EAt) {
			m.atUsed = true // known finding K1: callers avoid this, or use EvaluateKnown
			if m.open && m.known(kAt) {
				return m.once(cur, s)
			}
		}
	}
	if cur.N == 0 && len(exprs) > 0 {
		// whether the expression is evaluated at all is not observable, unless it fails
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(evalErr); ok {
						skipf("failing expression applied to nothing")
					}
					panic(x)
				}
			}()
			for _, e := range exprs {
				m.expr(e, nil)
			}
		}()
	}
	return cur.bind(func(v V) *Sel { return m.selectOne(v, s) })
}

// once applies a step with expressions as K1 says: they are evaluated once, with @ null.
func (m *Model) once(cur *Sel, s *Step) *Sel {
	if s.K == SExpr {
		k := m.expr(s.E, nil)
		return cur.bind(func(v V) *Sel { m.tick(); return m.byValue(v, k, s.Brack) })
	}
	for _, e := range s.exprs() {
		m.expr(e, nil) // may fail
	}
	return cur.bind(func(v V) *Sel { return m.selectAt(v, s, nil) })
}

// exprs gives the expressions in a step, in order.
func (s *Step) exprs() []*Expr {
	var l []*Expr
	if s.E != nil {
		l = append(l, s.E)
	}
	for i := range s.L {
		if s.L[i].K == LSlice {
			for _, b := range s.L[i].B {
				if b.E != nil {
					l = append(l, b.E)
				}
			}
		}
	}
	return l
}

func (m *Model) judge(e *Expr, c V) *Sel {
	m.tick()
	m.cands++
	if truthy(m.expr(e, c)) {
		m.kept++
		return leaf(c)
	}
	return none
}

// selectOne applies a step other than a filter to one value.
func (m *Model) selectOne(v V, s *Step) *Sel {
	return m.selectAt(v, s, v)
}

// selectAt is selectOne with another value for @.
func (m *Model) selectAt(v V, s *Step, at V) *Sel {
	m.tick()
	switch s.K {
	case SWild:
		return children(v)
	case SName:
		return byName(v, s.S)
	case SInt:
		return byInt(v, s.I, false)
	case SExpr:
		return m.byValue(v, m.expr(s.E, at), s.Brack)
	case SElems:
		kids := make([]*Sel, 0, len(s.L))
		for i := range s.L {
			l := &s.L[i]
			switch l.K {
			case LInt:
				kids = append(kids, byInt(v, l.I, true))
			case LStr, LName:
				kids = append(kids, byName(v, l.S))
			case LSlice:
				kids = append(kids, m.bySlice(v, l, at))
			}
		}
		return group(false, kids)
	}
	panic("selectOne")
}

func byName(v V, n string) *Sel {
	if o, ok := v.(map[string]V); ok {
		if x, ok := o[n]; ok {
			return leaf(x)
		}
	}
	return none
}

func byInt(v V, i int64, fromEnd bool) *Sel {
	switch v := v.(type) {
	case map[string]V:
		return byName(v, strconv.FormatInt(i, 10))
	case []V:
		if i < 0 && fromEnd {
			i += int64(len(v))
		}
		if i >= 0 && i < int64(len(v)) {
			return leaf(v[i])
		}
	}
	return none
}

func truncFloat(f float64) int64 {
	if math.IsNaN(f) || f >= 1<<62 || f <= -(1<<62) {
		skipf("number out of integer range as index")
	}
	return int64(f)
}

func (m *Model) byValue(v V, k V, fromEnd bool) *Sel {
	switch k := k.(type) {
	case nothingT:
		return none
	case string:
		return byName(v, k)
	case int64:
		return byInt(v, k, fromEnd)
	case float64:
		return byInt(v, truncFloat(k), fromEnd)
	}
	if isContainer(v) {
		skipf("key of kind %T", k)
	}
	return none
}

// bySlice is Python's rule, computed on unbounded integers in effect: indexes are generated
// one at a time and stop as soon as they leave the array.
func (m *Model) bySlice(v V, l *Elem, at V) *Sel {
	bounds := l.B
	void := false
	for i := range bounds {
		b := &bounds[i]
		if b.E == nil {
			continue
		}
		switch x := m.expr(b.E, at).(type) {
		case int64:
			b.I = x
		case float64:
			b.I = truncFloat(x)
		case nothingT:
			void = true
		default:
			skipf("slice bound of kind %T", x)
		}
	}
	if void {
		return none
	}
	a, ok := v.([]V)
	if !ok {
		return none
	}
	kids := []*Sel{}
	for _, i := range pySlice(len(a), bounds) {
		kids = append(kids, leaf(a[i]))
	}
	return group(false, kids)
}

func pySlice(n int, b [3]Bound) []int {
	stride := int64(1)
	if b[2].Set {
		stride = b[2].I
	}
	if stride == 0 {
		return nil
	}
	N := int64(n)
	lo, hi := int64(0), N // clamping range
	if stride < 0 {
		lo, hi = -1, N-1
	}
	clamp := func(x int64) int64 {
		if x < 0 {
			x += N // cannot overflow: x >= minInt, N >= 0
		}
		if x < lo {
			x = lo
		}
		if x > hi {
			x = hi
		}
		return x
	}
	start, end := lo, hi
	if stride < 0 {
		start, end = hi, lo
	}
	if b[0].Set {
		start = clamp(b[0].I)
	}
	if b[1].Set {
		end = clamp(b[1].I)
	}
	var out []int
	for i := start; ; {
		if stride > 0 && i >= end || stride < 0 && i <= end {
			return out
		}
		out = append(out, int(i))
		// stop rather than overflow
		if stride > 0 && stride > end-i || stride < 0 && stride < end-i {
			return out
		}
		i += stride
	}
}

func truthy(v V) bool {
	switch v := v.(type) {
	case nil, nothingT:
		return false
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return v != 0 && !math.IsNaN(v)
	case string:
		return v != ""
	case *reV:
		skipf("truth of a regular expression")
	}
	return true
}

func isNum(v V) bool {
	switch v.(type) {
	case int64, float64:
		return true
	}
	return false
}

func toF(v V) float64 {
	switch v := v.(type) {
	case bool:
		if v {
			return 1
		}
		return 0
	case int64:
		return float64(v)
	case float64:
		return v
	}
	panic("toF")
}

func toI(v V) int64 {
	switch v := v.(type) {
	case bool:
		if v {
			return 1
		}
		return 0
	case int64:
		return v
	}
	panic("toI")
}

// tryExpr evaluates e, turning a failure into ok == false.
func (m *Model) tryExpr(e *Expr, at V) (v V, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(evalErr); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return m.expr(e, at), true
}

func (m *Model) expr(e *Expr, at V) V {
	m.tick()
	switch e.K {
	case EInt:
		return e.I
	case EReal:
		return e.F
	case EStr:
		return e.S
	case ERe:
		re, err := regexp.Compile(e.S)
		if err != nil {
			panic("model: bad pattern " + e.S)
		}
		return &reV{re}
	case ETrue:
		return true
	case EFalse:
		return false
	case ENull:
		return nil
	case EAt:
		return at
	case ERoot:
		return m.root
	case EName:
		skipf("bare identifier")
	case EArr:
		a := make([]V, len(e.Kids))
		for i, k := range e.Kids {
			a[i] = m.expr(k, at)
		}
		return a
	case ECall:
		a := make([]V, len(e.Kids))
		for i, k := range e.Kids {
			a[i] = m.expr(k, at)
		}
		return callFn(e.S, a)
	case EDot:
		return dot(m.expr(e.Kids[0], at), e.S)
	case EIdx:
		a := m.expr(e.Kids[0], at)
		return index(a, m.expr(e.Kids[1], at))
	case ENeg:
		switch v := m.expr(e.Kids[0], at).(type) {
		case nothingT:
			return nothing
		case int64:
			return -v
		case float64:
			return -v
		case bool:
			return -toI(v)
		case string:
			if n, err := strconv.ParseInt(v, 10, 64); err == nil && len(v) < 16 && strconv.FormatInt(n, 10) == v {
				return -n
			}
			skipf("unary minus of a string")
		default:
			skipf("unary minus of %T", v)
		}
	case ENot:
		return !truthy(m.expr(e.Kids[0], at))
	case EBin:
		return m.binary(e, at)
	}
	panic("model: expr kind")
}

func (m *Model) binary(e *Expr, at V) V {
	a := m.expr(e.Kids[0], at)
	if e.S == "&&" || e.S == "||" {
		chooseB := truthy(a) == (e.S == "&&")
		b, ok := m.tryExpr(e.Kids[1], at)
		if chooseB {
			if !ok {
				fail("right operand of %s", e.S)
			}
			return b
		}
		if !ok {
			if !m.open {
				skipf("failing operand not chosen") // known finding K2
			}
			if m.known(kChoose) {
				fail("operand of %s not chosen", e.S)
			}
		}
		return a
	}
	b := m.expr(e.Kids[1], at)
	switch e.S {
	case "==":
		return jsEq(a, b)
	case "!=":
		return !jsEq(a, b)
	case "<", "<=", ">", ">=":
		return relate(e.S, a, b)
	case "+", "-", "*", "/", "%":
		return arith(e.S, a, b)
	case "~", "=~":
		if isNothing(a) || isNothing(b) {
			return nothing
		}
		var re *regexp.Regexp
		switch b := b.(type) {
		case *reV:
			re = b.re
		case string:
			r, err := regexp.Compile(b)
			if err != nil {
				fail("bad pattern")
			}
			re = r
		default:
			fail("right operand of ~")
		}
		s, ok := a.(string)
		if !ok {
			fail("left operand of ~")
		}
		return re.MatchString(s)
	case "in", "nin":
		if isNothing(a) || isNothing(b) {
			return nothing
		}
		l, ok := b.([]V)
		if !ok {
			fail("right operand of in")
		}
		return contains(l, a) == (e.S == "in")
	}
	panic("model: operator " + e.S)
}

func contains(l []V, a V) bool {
	found := false
	for _, x := range l {
		if jsEq(x, a) {
			found = true // no early exit: an unspecified comparison must be noticed
		}
	}
	return found
}

func dot(v V, n string) V {
	if isNothing(v) {
		return nothing
	}
	if n == "length" {
		switch v := v.(type) {
		case []V:
			return int64(len(v))
		case map[string]V:
			return int64(len(v))
		case string:
			return int64(utf8.RuneCountInString(v))
		}
		return nothing
	}
	if o, ok := v.(map[string]V); ok {
		if x, ok := o[n]; ok {
			return x
		}
	}
	return nothing
}

var numericText = regexp.MustCompile(`^[+-]?[0-9]+$`)

func index(v, k V) V {
	if isNothing(v) || isNothing(k) {
		return nothing
	}
	switch v := v.(type) {
	case []V:
		var i int64
		switch k := k.(type) {
		case int64:
			i = k
		case float64:
			i = truncFloat(k)
			if float64(i) != k {
				skipf("fractional index")
			}
		case string:
			if numericText.MatchString(k) {
				skipf("numeric string as index")
			}
			return nothing
		case bool:
			skipf("boolean index")
		case *reV:
			skipf("pattern as index")
		default:
			return nothing
		}
		if i < 0 {
			i += int64(len(v))
		}
		if i >= 0 && i < int64(len(v)) {
			return v[i]
		}
		return nothing
	case map[string]V:
		var n string
		switch k := k.(type) {
		case string:
			n = k
		case int64:
			n = strconv.FormatInt(k, 10)
		case float64:
			i := truncFloat(k)
			if float64(i) != k {
				skipf("fractional key")
			}
			n = strconv.FormatInt(i, 10)
		default:
			skipf("object indexed by %T", k)
		}
		if x, ok := v[n]; ok {
			return x
		}
		return nothing
	case *reV:
		skipf("index of pattern")
	}
	return nothing
}

func relate(op string, a, b V) V {
	if isNothing(a) || isNothing(b) {
		return nothing
	}
	simple := func(v V) bool {
		switch v.(type) {
		case bool, int64, float64, string:
			return true
		}
		return false
	}
	if !simple(a) || !simple(b) {
		return false
	}
	s, sok := a.(string)
	t, tok := b.(string)
	if sok != tok {
		return false
	}
	var c int // -1, 0, 1; 2 unordered
	if sok {
		c = cmpRunes(s, t)
	} else {
		_, af := a.(float64)
		_, bf := b.(float64)
		if af || bf {
			x, y := toF(a), toF(b)
			switch {
			case x < y:
				c = -1
			case x > y:
				c = 1
			case x == y:
				c = 0
			default:
				c = 2
			}
		} else {
			x, y := toI(a), toI(b)
			switch {
			case x < y:
				c = -1
			case x > y:
				c = 1
			}
		}
	}
	if c == 2 {
		return false
	}
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	default:
		return c >= 0
	}
}

func cmpRunes(s, t string) int {
	a, b := []rune(s), []rune(t)
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func arith(op string, a, b V) V {
	if isNothing(a) || isNothing(b) {
		return nothing
	}
	ok := func(v V) bool {
		switch v.(type) {
		case bool, int64, float64:
			return true
		}
		return false
	}
	if !ok(a) || !ok(b) {
		return nothing
	}
	_, af := a.(float64)
	_, bf := b.(float64)
	if af || bf {
		x, y := toF(a), toF(b)
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			if y == 0 {
				return nothing
			}
			return x / y
		default:
			if y == 0 {
				return nothing
			}
			return math.Mod(x, y)
		}
	}
	x, y := toI(a), toI(b)
	over := func() V { skipf("integer overflow"); return nil }
	switch op {
	case "+":
		r := x + y
		if (x > 0 && y > 0 && r <= 0) || (x < 0 && y < 0 && r >= 0) {
			return over()
		}
		return r
	case "-":
		r := x - y
		if (x >= 0 && y < 0 && r < 0) || (x < 0 && y > 0 && r > 0) {
			return over()
		}
		return r
	case "*":
		if x == 0 || y == 0 {
			return int64(0)
		}
		r := x * y
		if r/y != x || (x == -1 && y == math.MinInt64) || (y == -1 && x == math.MinInt64) {
			return over()
		}
		return r
	case "/":
		if y == 0 {
			return nothing
		}
		if x == math.MinInt64 && y == -1 {
			return over()
		}
		return x / y
	default:
		if y == 0 {
			return nothing
		}
		if y == -1 {
			return int64(0)
		}
		return x % y
	}
}

var decimalText = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

const maxExact = 1 << 53

// strNum is the number a string spells: (value, true), or (0, false) for NaN.
func strNum(s string) (float64, bool) {
	if s == "" {
		return 0, true
	}
	if decimalText.MatchString(s) {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			skipf("number text out of range")
		}
		if math.Abs(f) > maxExact && numericText.MatchString(s) {
			skipf("large integer text")
		}
		return f, true
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		skipf("unusual number text %q", s)
	}
	l := strings.ToLower(s)
	if strings.TrimSpace(s) != s || strings.HasPrefix(l, "0x") || strings.HasPrefix(l, "0b") || strings.HasPrefix(l, "0o") ||
		strings.Contains(l, "inf") || strings.Contains(l, "nan") {
		skipf("unusual number text %q", s)
	}
	return 0, false
}

func jsEq(a, b V) bool {
	if _, ok := a.(*reV); ok {
		skipf("equality of patterns")
	}
	if _, ok := b.(*reV); ok {
		skipf("equality of patterns")
	}
	if a == nil || b == nil || isNothing(a) || isNothing(b) {
		return (a == nil || isNothing(a)) && (b == nil || isNothing(b))
	}
	aa, aArr := a.([]V)
	ba, bArr := b.([]V)
	ao, aObj := a.(map[string]V)
	bo, bObj := b.(map[string]V)
	switch {
	case aArr && bArr:
		if len(aa) != len(ba) {
			return false
		}
		eq := true
		for i := range aa {
			if !jsEq(aa[i], ba[i]) {
				eq = false
			}
		}
		return eq
	case aObj && bObj:
		if len(ao) != len(bo) {
			return false
		}
		eq := true
		for k, x := range ao {
			y, ok := bo[k]
			if !ok || !jsEq(x, y) {
				eq = false
			}
		}
		return eq
	case aObj || bObj:
		return false
	case aArr:
		return eqArrPrim(aa, b)
	case bArr:
		return eqArrPrim(ba, a)
	}
	// both primitive and not null
	s, sok := a.(string)
	t, tok := b.(string)
	if sok && tok {
		return s == t
	}
	if sok || tok {
		str, other := s, b
		if tok {
			str, other = t, a
		}
		n, ok := strNum(str)
		if !ok {
			return false
		}
		if i, isInt := other.(int64); isInt && (i > maxExact || i < -maxExact) {
			skipf("large integer against text")
		}
		return n == toF(other)
	}
	x, xi := a.(int64)
	y, yi := b.(int64)
	if xi && yi {
		return x == y
	}
	return toF(a) == toF(b)
}

func eqArrPrim(a []V, p V) bool {
	if len(a) > 1 {
		return false
	}
	if len(a) == 1 {
		x, ok1 := a[0].(bool)
		y, ok2 := p.(bool)
		if ok1 && ok2 {
			return x == y
		}
	}
	return jsEq(arrText(a), p)
}

// arrText is the string form of an array of at most one element.
func arrText(a []V) string {
	if len(a) == 0 {
		return ""
	}
	switch v := a[0].(type) {
	case nil, nothingT:
		return ""
	case []V:
		if len(v) > 1 {
			skipf("string form of a nested longer array")
		}
		return arrText(v)
	case map[string]V:
		return "[object Object]"
	case bool:
		return strconv.FormatBool(v)
	case string:
		return v
	case int64:
		if v > maxExact || v < -maxExact {
			skipf("string form of a large integer")
		}
		return strconv.FormatInt(v, 10)
	case float64:
		return jsNumText(v)
	}
	skipf("string form of %T", a[0])
	return ""
}

// jsNumText follows ECMA-262 7.1.12.1.
func jsNumText(f float64) string {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		skipf("string form of NaN or infinity")
	}
	if f == 0 {
		return "0"
	}
	if f < 0 {
		return "-" + jsNumText(-f)
	}
	e := strconv.FormatFloat(f, 'e', -1, 64) // d.ddde±xx
	mant, ex, _ := strings.Cut(e, "e")
	digits := strings.Replace(mant, ".", "", 1)
	x, _ := strconv.Atoi(ex)
	n := x + 1
	k := len(digits)
	switch {
	case k <= n && n <= 21:
		return digits + strings.Repeat("0", n-k)
	case 0 < n && n <= 21:
		return digits[:n] + "." + digits[n:]
	case -6 < n && n <= 0:
		return "0." + strings.Repeat("0", -n) + digits
	}
	sign := "+"
	if n-1 < 0 {
		sign = "-"
	}
	exp := strconv.Itoa(int(math.Abs(float64(n - 1))))
	if k == 1 {
		return digits + "e" + sign + exp
	}
	return digits[:1] + "." + digits[1:] + "e" + sign + exp
}

var arity = map[string]int{
	"abs": 1, "avg": 1, "ceil": 1, "contains": 2, "ends_with": 2, "floor": 1, "keys": 1, "length": 1,
	"max": -1, "min": -1, "prod": 1, "starts_with": 2, "sum": 1, "to_number": 1, "tokenize": 2,
}

var fnNames = func() []string {
	var l []string
	for n := range arity {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}()

func callFn(id string, args []V) V {
	n, ok := arity[id]
	if !ok {
		fail("unknown function %s", id)
	}
	if n >= 0 && n != len(args) {
		fail("wrong number of arguments for %s", id)
	}
	for _, a := range args {
		if _, ok := a.(*reV); ok {
			skipf("pattern as argument")
		}
	}
	switch id {
	case "abs":
		switch v := args[0].(type) {
		case int64:
			if v < 0 {
				return -v
			}
			return v
		case float64:
			return math.Abs(v)
		}
	case "ceil":
		switch v := args[0].(type) {
		case int64:
			return v
		case float64:
			return math.Ceil(v)
		}
	case "floor":
		switch v := args[0].(type) {
		case int64:
			return v
		case float64:
			return math.Floor(v)
		}
	case "to_number":
		switch v := args[0].(type) {
		case int64, float64:
			return v
		case string:
			if v == "" {
				skipf("to_number of the empty string")
			}
			f, ok := strNum(v)
			if ok {
				return f
			}
		}
	case "length":
		switch v := args[0].(type) {
		case []V:
			return int64(len(v))
		case map[string]V:
			return int64(len(v))
		case string:
			return int64(utf8.RuneCountInString(v))
		}
		return nil
	case "keys":
		if o, ok := args[0].(map[string]V); ok {
			l := []V{}
			for _, k := range sortedKeys(o) {
				l = append(l, k)
			}
			return l
		}
	case "contains":
		switch v := args[0].(type) {
		case string:
			if s, ok := args[1].(string); ok {
				return strings.Contains(v, s)
			}
		case []V:
			return contains(v, args[1])
		}
	case "starts_with", "ends_with":
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		if ok1 && ok2 {
			if id == "starts_with" {
				return len(a) >= len(b) && a[:len(b)] == b
			}
			return len(a) >= len(b) && a[len(a)-len(b):] == b
		}
	case "tokenize":
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		if ok1 && ok2 {
			re, err := regexp.Compile(b)
			if err != nil {
				return nothing
			}
			l := []V{}
			for _, s := range re.Split(a, -1) {
				l = append(l, s)
			}
			return l
		}
	case "sum", "avg", "prod":
		a, ok := args[0].([]V)
		if !ok {
			return nothing
		}
		if len(a) == 0 {
			if id == "sum" {
				return float64(0)
			}
			return nil
		}
		sum, prod := 0.0, 1.0
		bools := false
		for _, x := range a {
			if _, ok := x.(bool); ok {
				bools = true
				continue
			}
			if !isNum(x) {
				return nothing
			}
			sum += toF(x)
			prod *= toF(x)
		}
		if bools {
			skipf("booleans in %s", id)
		}
		switch id {
		case "sum":
			return sum
		case "avg":
			return sum / float64(len(a))
		}
		return prod
	case "min", "max":
		a := args
		if len(args) == 0 {
			return nil
		}
		if len(args) == 1 {
			l, ok := args[0].([]V)
			if !ok {
				return nothing
			}
			if len(l) == 0 {
				return nil
			}
			a = l
		}
		nums, strs, bools := 0, 0, 0
		for _, x := range a {
			switch x.(type) {
			case int64, float64:
				nums++
			case string:
				strs++
			case bool:
				bools++
			}
		}
		if nums == len(a) {
			r := toF(a[0])
			for _, x := range a[1:] {
				f := toF(x)
				if id == "min" && f < r || id == "max" && f > r {
					r = f
				}
			}
			return r
		}
		if strs == len(a) {
			r := a[0].(string)
			for _, x := range a[1:] {
				c := cmpRunes(x.(string), r)
				if id == "min" && c < 0 || id == "max" && c > 0 {
					r = x.(string)
				}
			}
			return r
		}
		if bools > 0 && strs == 0 && nums+bools == len(a) {
			skipf("booleans in %s", id)
		}
	}
	return nothing
}

// canon is a canonical encoding of a value, for comparing bags.
func canon(v V) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("!%#v", v)
	}
	return string(b)
}
