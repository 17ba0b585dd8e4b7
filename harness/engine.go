package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/forsyth/jsonpath"
)

// Observing evaluations of the code under test and judging them against the model.

// interner numbers values by content, so that equal values get equal numbers.
type interner struct {
	ptr map[ptrKey]int
	str map[string]int
	all []V // the containers numbered by address, kept so that no other can take that address
}

type ptrKey struct {
	p uintptr
	n int
}

func newInterner() *interner {
	return &interner{ptr: map[ptrKey]int{}, str: map[string]int{}}
}

func (in *interner) key(s string) int {
	if i, ok := in.str[s]; ok {
		return i
	}
	i := len(in.str) + 1
	in.str[s] = i
	return i
}

func (in *interner) id(v V) int {
	switch v := v.(type) {
	case nil:
		return in.key("n")
	case bool:
		return in.key("b" + strconv.FormatBool(v))
	case float64:
		return in.key("f" + strconv.FormatUint(math.Float64bits(v), 16))
	case string:
		return in.key("s" + v)
	case []V:
		var pk ptrKey
		if len(v) > 0 {
			pk = ptrKey{reflect.ValueOf(v).Pointer(), len(v)}
			if i, ok := in.ptr[pk]; ok {
				return i
			}
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for _, x := range v {
			sb.WriteString(strconv.Itoa(in.id(x)))
			sb.WriteByte(',')
		}
		i := in.key(sb.String())
		if len(v) > 0 {
			in.ptr[pk] = i
			in.all = append(in.all, v)
		}
		return i
	case map[string]V:
		pk := ptrKey{reflect.ValueOf(v).Pointer(), -1}
		if v != nil {
			if i, ok := in.ptr[pk]; ok {
				return i
			}
		}
		var sb strings.Builder
		sb.WriteByte('{')
		for _, k := range sortedKeys(v) {
			sb.WriteString(strconv.Quote(k))
			sb.WriteByte(':')
			sb.WriteString(strconv.Itoa(in.id(v[k])))
			sb.WriteByte(',')
		}
		i := in.key(sb.String())
		if v != nil {
			in.ptr[pk] = i
			in.all = append(in.all, v)
		}
		return i
	default:
		return in.key(fmt.Sprintf("?%T:%v", v, v))
	}
}

func (in *interner) ids(l []V) []int {
	r := make([]int, len(l))
	for i, v := range l {
		r[i] = in.id(v)
	}
	return r
}

func sameBag(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]int(nil), a...)
	y := append([]int(nil), b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func mix(i int) uint64 {
	x := uint64(i)*0x9E3779B97F4A7C15 + 0x7F4A7C159E3779B9
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

// order matching: is the list a linearization of the selection?

type onode struct {
	leaf bool
	id   int
	perm bool
	kids []*onode
	n    int
	sum  uint64
}

func (in *interner) onode(s *Sel) *onode {
	if s.Leaf {
		i := in.id(s.Val)
		return &onode{leaf: true, id: i, n: 1, sum: mix(i)}
	}
	o := &onode{perm: s.Perm, n: s.N}
	for _, k := range s.Kids {
		if k.N == 0 {
			continue
		}
		c := in.onode(k)
		o.kids = append(o.kids, c)
		o.sum += c.sum
	}
	if len(o.kids) < 2 {
		o.perm = false
	}
	return o
}

type matcher struct {
	got   []int
	pre   []uint64
	steps int
}

const matchCap = 400000

// match says whether got[at:at+o.n] is a linearization of o. It sets steps over matchCap on giving up.
func (m *matcher) match(o *onode, at int) bool {
	m.steps++
	if m.steps > matchCap {
		return false
	}
	if at+o.n > len(m.got) || m.pre[at+o.n]-m.pre[at] != o.sum {
		return false
	}
	if o.leaf {
		return m.got[at] == o.id
	}
	if !o.perm {
		for _, k := range o.kids {
			if !m.match(k, at) {
				return false
			}
			at += k.n
		}
		return true
	}
	used := make([]bool, len(o.kids))
	return m.perm(o, used, len(o.kids), at)
}

func (m *matcher) perm(o *onode, used []bool, left, at int) bool {
	if left == 0 {
		return true
	}
	for i, k := range o.kids {
		if used[i] {
			continue
		}
		if !m.match(k, at) {
			if m.steps > matchCap {
				return false
			}
			continue
		}
		used[i] = true
		if m.perm(o, used, left-1, at+k.n) {
			return true
		}
		used[i] = false
		if m.steps > matchCap {
			return false
		}
	}
	return false
}

// orderOK returns (verdict, decided).
func (in *interner) orderOK(s *Sel, got []int) (bool, bool) {
	if s.N != len(got) {
		return false, true
	}
	m := &matcher{got: got, pre: make([]uint64, len(got)+1)}
	for i, g := range got {
		m.pre[i+1] = m.pre[i] + mix(g)
	}
	ok := m.match(in.onode(s), 0)
	if m.steps > matchCap {
		return false, false
	}
	return ok, true
}

func show(v V) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	s := string(b)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

func cut(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s...(%d bytes)", s[:n], len(s))
	}
	return s
}

// Got is one observed evaluation.
type Got struct {
	Text string
	P    *jsonpath.JSONPath
	CErr error
	Res  []V
	EErr error
}

// compile compiles, requiring the outcome to be of the documented form.
func (c *Ctx) compile(text string) (*jsonpath.JSONPath, error) {
	c.Now("compile " + cut(text, 2000))
	p, err := jsonpath.Compile(text)
	if err == nil && p == nil {
		c.Violate("Compile(%q) returned neither a path nor an error", cut(text, 1000))
	}
	if err != nil && p != nil {
		c.Violate("Compile(%q) returned both a path and an error: %v", cut(text, 1000), err)
	}
	return p, err
}

// eval evaluates, requiring the outcome to be of the documented form.
func (c *Ctx) eval(p *jsonpath.JSONPath, text string, doc V) ([]V, error) {
	c.Now("eval " + cut(text, 2000))
	if c.numbers != nil {
		n := 0
		doc = spelled(c.numbers, doc, &n)
		c.Count("numbers given as json.Number", n)
	}
	r, err := p.Eval(doc)
	if err != nil && r != nil {
		c.Violate("Eval of %q on %s returned %d results and the error %v", cut(text, 1000), show(doc), len(r), err)
	}
	if err == nil && r == nil {
		c.Violate("Eval of %q on %s returned a nil list and no error", cut(text, 1000), show(doc))
	}
	if c.numbers != nil && r != nil {
		r = c.unspelled(r, text, doc).([]V)
	}
	return r, err
}

// mustCompile compiles a text known to be valid.
func (c *Ctx) mustCompile(text string) *jsonpath.JSONPath {
	p, err := c.compile(text)
	if err != nil {
		c.Violate("Compile(%q) failed: %v", cut(text, 3000), err)
	}
	return p
}

const (
	mBag   = 1 << iota // compare the bag of results
	mOrder             // and their order
	mErr               // require an error when the model does
)

const modelBudget = 1 << 20

// check evaluates p on doc by the model and by the code under test and compares.
// It reports whether the case was decided.
func (c *Ctx) check(p Path, doc V, lay *Layout, mode int) *Outcome {
	return c.checkText(p, p.Text(lay), doc, mode)
}

func (c *Ctx) checkText(p Path, text string, doc V, mode int) *Outcome {
	out := Evaluate(p, doc, modelBudget)
	if out.Skip != "" {
		c.Count("unspecified or too large, dropped", 1)
		return &out
	}
	if out.M.atUsed {
		c.Count("unspecified or too large, dropped", 1)
		out.Skip = "K1"
		return &out
	}
	in := newInterner()
	var want []int
	if out.Err == "" {
		want = in.ids(out.Sel.list())
	} else if mode&mErr == 0 {
		c.Count("failing evaluations, judged elsewhere", 1)
		return &out
	}
	prog := c.mustCompile(text)
	c.compare(prog, text, doc, &out, in, want, mode)
	return &out
}

// compare evaluates prog on doc and judges the outcome.
func (c *Ctx) compare(prog *jsonpath.JSONPath, text string, doc V, out *Outcome, in *interner, want []int, mode int) {
	got, err := c.eval(prog, text, doc)
	if msg := c.differs(got, err, text, doc, out, in, want, mode); msg != "" {
		c.Violate("%s", msg)
	}
}

// differs says how the result of an evaluation differs from the outcome required, or gives "".
func (c *Ctx) differs(got []V, err error, text string, doc V, out *Outcome, in *interner, want []int, mode int) string {
	if out.Err != "" {
		if err == nil {
			return fmt.Sprintf("path %s\non %s\nmust fail (%s) but gave %s", cut(text, 2000), show(doc), out.Err, show(got))
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("path %s\non %s\nfailed (%v) but must give %s", cut(text, 2000), show(doc), err, show(out.Sel.list()))
	}
	ids := in.ids(got)
	if !sameBag(ids, want) {
		return fmt.Sprintf("path %s\non %s\ngave (%d) %s\nbut must give (%d) %s", cut(text, 2000), show(doc), len(got), show(got), len(want), show(out.Sel.list()))
	}
	if mode&mOrder != 0 {
		ok, decided := in.orderOK(out.Sel, ids)
		if !decided {
			c.Count("order search given up", 1)
		} else if !ok {
			return fmt.Sprintf("path %s\non %s\ngave the results in an order not allowed: %s\n(one allowed order: %s)", cut(text, 2000), show(doc), show(got), show(out.Sel.list()))
		}
	}
	c.Max("most results of one evaluation", len(got))
	return ""
}

// checkKnown is checkText for cases touched by the listed known findings: the result must be that specified,
// or differ from it exactly as those findings say. It reports whether the case was decided.
func (c *Ctx) checkKnown(p Path, text string, doc V, mode int) bool {
	outs := EvaluateKnown(p, doc, modelBudget)
	if outs[0].Skip != "" {
		c.Count("unspecified or too large, dropped", 1)
		return false
	}
	got, err := c.eval(c.mustCompile(text), text, doc)
	first := ""
	for i := range outs {
		out := &outs[i]
		in := newInterner()
		var want []int
		if out.Err == "" {
			want = in.ids(out.Sel.list())
		}
		msg := c.differs(got, err, text, doc, out, in, want, mode)
		if msg == "" {
			if i == 0 {
				c.Count("results as specified", 1)
			} else {
				c.Count("results as the known findings say, and not as specified", 1)
			}
			return true
		}
		if i == 0 {
			first = msg
		}
	}
	c.Violate("%s\n(nor is this what a known finding would explain)", first)
	return false
}

// decided reports whether the outcome was compared.
func (o *Outcome) decided(mode int) bool {
	return o.Skip == "" && (o.Err == "" || mode&mErr != 0)
}

// note counts a decided case.
func (c *Ctx) note(text string, doc V, nontrivial bool) {
	d := show(doc)
	c.Eval(hash64(text, d, strconv.Itoa(len(d))), nontrivial)
	if nontrivial {
		c.Sample(cut(text, 200) + "  on  " + cut(d, 150))
	}
}
