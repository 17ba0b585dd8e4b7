package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode/utf16"
)

// The harness's own abstract syntax for paths and script expressions. Generators
// build these trees, the renderer turns them into text for the code under test, and
// the reference evaluator interprets them directly, so that no parser is shared.

type EK int

const (
	EInt EK = iota
	EReal
	EStr
	ERe
	ETrue
	EFalse
	ENull
	EAt
	ERoot
	EName // bare identifier as an operand (grammar checks only)
	EArr
	ECall // S = name, Kids = args
	EIdx  // Kids[0][Kids[1]]
	EDot  // Kids[0].S
	ENeg
	ENot
	EBin // S = operator
)

type Expr struct {
	K      EK
	I      int64
	F      float64
	Spell  string // spelling of a real (or integer) literal, if chosen
	S      string
	Kids   []*Expr
	Parens int  // redundant parentheses written round this expression
	Callee int  // redundant parentheses round a call's name
	Raw    bool // EStr: S is to be written without escapes where possible
}

type EK2 = EK

type StepKind int

const (
	SWild   StepKind = iota // .* or [*]
	SName                   // .name
	SInt                    // .5
	SExpr                   // .(e) or [(e)]
	SFilter                 // [?(e)]
	SElems                  // [elem, ...]
)

type ElemKind int

const (
	LInt ElemKind = iota
	LStr
	LName
	LSlice
)

// Bound is a slice bound: absent, integer, or expression.
type Bound struct {
	Set bool
	I   int64
	E   *Expr
}

type Elem struct {
	K       ElemKind
	I       int64
	S       string
	B       [3]Bound // LSlice: start, end, stride
	Colons2 bool     // second colon written although there's no stride
}

type Step struct {
	Nest  bool
	Brack bool // written in brackets (SWild, SExpr)
	K     StepKind
	S     string
	I     int64
	E     *Expr
	L     []Elem
}

type Path []*Step

// binary operator levels, loosest first, as documented
var levels = [][]string{
	{"||"},
	{"&&"},
	{"==", "!="},
	{"<", "<=", ">", ">=", "~", "=~", "in", "nin"},
	{"+", "-"},
	{"*", "/", "%"},
}

var prec = map[string]int{}
var allBinOps []string

func init() {
	for i, l := range levels {
		for _, o := range l {
			prec[o] = i
			allBinOps = append(allBinOps, o)
		}
	}
}

const (
	precUnary   = 6
	precPrimary = 7
)

// Layout decides how a tree is written.
type Layout struct {
	R      *rand.Rand // nil: canonical
	WS     float64    // probability of white space between tokens
	Paren  float64    // probability of redundant parentheses
	Full   bool       // parenthesise every binary and unary operand
	AltEsc bool       // spell string characters in varied ways
}

var wsRunes = []string{" ", " ", " ", "\t", "\n", "\r", "\f", "\v", "  ", " \n\t"}

type writer struct {
	sb  strings.Builder
	lay *Layout
}

func isIdentByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || c >= '0' && c <= '9'
}

// tok writes a token, with optional white space before it.
func (w *writer) tok(s string) {
	if w.lay.R != nil && w.lay.WS > 0 && w.lay.R.Float64() < w.lay.WS {
		w.sb.WriteString(wsRunes[w.lay.R.IntN(len(wsRunes))])
	}
	w.sb.WriteString(s)
}

// word writes an identifier-like or numeric token in an expression, separated from a
// preceding one if they would otherwise run together.
func (w *writer) word(s string) {
	cur := w.sb.String()
	if n := len(cur); n > 0 && len(s) > 0 {
		p := cur[n-1]
		if isIdentByte(p) && isIdentByte(s[0]) || p == '.' && isIdentByte(s[0]) && w.realTail(cur) || p == '-' && isIdentByte(s[0]) && false {
			w.sb.WriteByte(' ')
			w.sb.WriteString(s)
			return
		}
	}
	w.tok(s)
}

// realTail reports whether the text ends in a real literal with an empty fraction ("1.").
func (w *writer) realTail(s string) bool {
	n := len(s)
	return n >= 2 && s[n-1] == '.' && s[n-2] >= '0' && s[n-2] <= '9'
}

func quoteStr(s string, q byte, lay *Layout, raw bool) string {
	var sb strings.Builder
	sb.WriteByte(q)
	r := lay.R
	alt := lay.AltEsc && r != nil && !raw
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			i++
			switch {
			case c == q || c == '\\':
				if alt && r.IntN(6) == 0 {
					fmt.Fprintf(&sb, `\u%04x`, c)
				} else {
					sb.WriteByte('\\')
					sb.WriteByte(c)
				}
			case c < 0x20:
				short := map[byte]string{'\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]
				if short != "" && !(alt && r.IntN(3) == 0) {
					sb.WriteString(short)
				} else if alt && r.IntN(2) == 0 {
					fmt.Fprintf(&sb, `\u%04X`, c)
				} else {
					fmt.Fprintf(&sb, `\u%04x`, c)
				}
			case c == '/' && alt && r.IntN(2) == 0:
				sb.WriteString(`\/`)
			case alt && r.IntN(20) == 0:
				fmt.Fprintf(&sb, `\u%04x`, c)
			default:
				sb.WriteByte(c)
			}
			continue
		}
		var ru rune
		var n int
		for j, x := range s[i:] {
			if j == 0 {
				ru = x
				continue
			}
			n = j
			break
		}
		if n == 0 {
			n = len(s) - i
		}
		if alt && r.IntN(3) == 0 && ru != 0xFFFD {
			if ru >= 0x10000 {
				a, b := utf16.EncodeRune(ru)
				fmt.Fprintf(&sb, `\u%04x\u%04X`, a, b)
			} else {
				fmt.Fprintf(&sb, `\u%04x`, ru)
			}
		} else {
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	sb.WriteByte(q)
	return sb.String()
}

func (w *writer) str(s string, raw bool) {
	q := byte('\'')
	if w.lay.R != nil && w.lay.R.IntN(2) == 0 {
		q = '"'
	}
	w.tok(quoteStr(s, q, w.lay, raw))
}

// reText spells a pattern between slashes: \/ for each slash not already part of an escape.
func reText(p string) string {
	var sb strings.Builder
	sb.WriteByte('/')
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '\\' && i+1 < len(p):
			i++
			sb.WriteByte(c)
			sb.WriteByte(p[i])
		case c == '/':
			sb.WriteString(`\/`)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('/')
	return sb.String()
}

func realText(e *Expr) string {
	if e.Spell != "" {
		return e.Spell
	}
	s := strconv.FormatFloat(e.F, 'f', -1, 64)
	if len(s) > 25 {
		s = strconv.FormatFloat(e.F, 'e', -1, 64)
		if !strings.Contains(s, ".") {
			s = strings.Replace(s, "e", ".e", 1)
		}
		return s
	}
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

// expr writes e where an operand of at least precedence min is required.
func (w *writer) expr(e *Expr, min int) {
	n := e.Parens
	if w.lay.R != nil && w.lay.Paren > 0 {
		for w.lay.R.Float64() < w.lay.Paren {
			n++
		}
	}
	p := precPrimary
	switch e.K {
	case EBin:
		p = prec[e.S]
	case ENeg, ENot:
		p = precUnary
	}
	if n == 0 && p < min {
		n = 1
	}
	if w.lay.Full && n == 0 && min >= 0 && (e.K == EBin || e.K == ENeg || e.K == ENot) {
		n = 1
	}
	for i := 0; i < n; i++ {
		w.tok("(")
	}
	w.expr1(e)
	for i := 0; i < n; i++ {
		w.tok(")")
	}
}

func (w *writer) exprList(l []*Expr) {
	for i, k := range l {
		if i > 0 {
			w.tok(",")
		}
		w.expr(k, -1)
	}
}

func (w *writer) expr1(e *Expr) {
	switch e.K {
	case EInt:
		if e.Spell != "" {
			w.word(e.Spell)
		} else {
			w.word(strconv.FormatInt(e.I, 10))
		}
	case EReal:
		w.word(realText(e))
	case EStr:
		w.str(e.S, e.Raw)
	case ERe:
		if e.Spell != "" {
			w.tok(e.Spell)
		} else {
			w.tok(reText(e.S))
		}
	case ETrue:
		w.word("true")
	case EFalse:
		w.word("false")
	case ENull:
		w.word("null")
	case EAt:
		w.tok("@")
	case ERoot:
		w.tok("$")
	case EName:
		w.word(e.S)
	case EArr:
		w.tok("[")
		w.exprList(e.Kids)
		w.tok("]")
	case ECall:
		for i := 0; i < e.Callee; i++ {
			w.tok("(")
		}
		w.word(e.S)
		for i := 0; i < e.Callee; i++ {
			w.tok(")")
		}
		w.tok("(")
		w.exprList(e.Kids)
		w.tok(")")
	case EIdx:
		w.expr(e.Kids[0], precPrimary)
		w.tok("[")
		w.expr(e.Kids[1], -1)
		w.tok("]")
	case EDot:
		k := e.Kids[0]
		w.expr(k, precPrimary)
		if k.K == EInt && k.Parens == 0 {
			// "1 .a": keep the integer from swallowing the dot
			s := w.sb.String()
			if c := s[len(s)-1]; c >= '0' && c <= '9' {
				w.sb.WriteByte(' ')
			}
		}
		w.tok(".")
		w.tok(e.S)
	case ENeg:
		w.tok("-")
		w.expr(e.Kids[0], precUnary)
	case ENot:
		w.tok("!")
		w.expr(e.Kids[0], precUnary)
	case EBin:
		p := prec[e.S]
		w.expr(e.Kids[0], p)
		switch e.S {
		case "in", "nin":
			w.word(e.S)
			// a following word is separated by word()
		case "/":
			w.tok(e.S)
		default:
			w.tok(e.S)
		}
		w.expr(e.Kids[1], p+1)
	default:
		panic("expr1")
	}
}

func signed(w *writer, i int64) {
	if i < 0 {
		w.tok("-")
		w.tok(strconv.FormatUint(uint64(-i), 10))
		return
	}
	w.tok(strconv.FormatInt(i, 10))
}

func (w *writer) bound(b Bound) {
	if !b.Set {
		return
	}
	if b.E != nil {
		w.tok("(")
		w.expr(b.E, -1)
		w.tok(")")
		return
	}
	signed(w, b.I)
}

func (w *writer) elem(l *Elem) {
	switch l.K {
	case LInt:
		signed(w, l.I)
	case LStr:
		w.str(l.S, false)
	case LName:
		w.tok(l.S)
	case LSlice:
		w.bound(l.B[0])
		w.tok(":")
		w.bound(l.B[1])
		if l.B[2].Set || l.Colons2 {
			w.tok(":")
			w.bound(l.B[2])
		}
	}
}

func (w *writer) step(s *Step) {
	if s.Nest {
		w.tok("..")
	}
	brack := s.Brack || s.K == SFilter || s.K == SElems
	if !brack {
		if !s.Nest {
			w.tok(".")
		}
		switch s.K {
		case SWild:
			w.tok("*")
		case SName:
			w.tok(s.S)
		case SInt:
			signed(w, s.I)
		case SExpr:
			w.tok("(")
			w.expr(s.E, -1)
			w.tok(")")
		}
		return
	}
	w.tok("[")
	switch s.K {
	case SWild:
		w.tok("*")
	case SExpr:
		w.tok("(")
		w.expr(s.E, -1)
		w.tok(")")
	case SFilter:
		w.tok("?(")
		w.expr(s.E, -1)
		w.tok(")")
	case SElems:
		for i := range s.L {
			if i > 0 {
				w.tok(",")
			}
			w.elem(&s.L[i])
		}
	}
	w.tok("]")
}

func (p Path) Text(lay *Layout) string {
	if lay == nil {
		lay = &Layout{}
	}
	w := &writer{lay: lay}
	w.tok("$")
	for _, s := range p {
		w.step(s)
	}
	if lay.R != nil && lay.WS > 0 {
		w.tok("")
	}
	return w.sb.String()
}

func (e *Expr) Text(lay *Layout) string {
	if lay == nil {
		lay = &Layout{}
	}
	w := &writer{lay: lay}
	w.expr(e, -1)
	if lay.R != nil && lay.WS > 0 {
		w.tok("")
	}
	return w.sb.String()
}

// constructors

func xInt(i int64) *Expr {
	if i < 0 {
		return &Expr{K: ENeg, Kids: []*Expr{{K: EInt, I: -i}}}
	}
	return &Expr{K: EInt, I: i}
}
func xReal(f float64) *Expr {
	if f < 0 {
		return &Expr{K: ENeg, Kids: []*Expr{{K: EReal, F: -f}}}
	}
	return &Expr{K: EReal, F: f}
}
func xStr(s string) *Expr { return &Expr{K: EStr, S: s} }
func xRe(s string) *Expr  { return &Expr{K: ERe, S: s} }
func xAt() *Expr          { return &Expr{K: EAt} }
func xRoot() *Expr        { return &Expr{K: ERoot} }
func xNull() *Expr        { return &Expr{K: ENull} }
func xBool(b bool) *Expr {
	if b {
		return &Expr{K: ETrue}
	}
	return &Expr{K: EFalse}
}
func xArr(k ...*Expr) *Expr            { return &Expr{K: EArr, Kids: k} }
func xCall(f string, k ...*Expr) *Expr { return &Expr{K: ECall, S: f, Kids: k} }
func xIdx(a, b *Expr) *Expr            { return &Expr{K: EIdx, Kids: []*Expr{a, b}} }
func xDot(a *Expr, s string) *Expr     { return &Expr{K: EDot, S: s, Kids: []*Expr{a}} }
func xNeg(a *Expr) *Expr               { return &Expr{K: ENeg, Kids: []*Expr{a}} }
func xNot(a *Expr) *Expr               { return &Expr{K: ENot, Kids: []*Expr{a}} }
func xBin(o string, a, b *Expr) *Expr  { return &Expr{K: EBin, S: o, Kids: []*Expr{a, b}} }

func sName(s string) *Step   { return &Step{K: SName, S: s} }
func sElems(l ...Elem) *Step { return &Step{K: SElems, L: l} }
func sFilter(e *Expr) *Step  { return &Step{K: SFilter, E: e} }
func sExpr(e *Expr) *Step    { return &Step{K: SExpr, E: e, Brack: true} }
func sWild() *Step           { return &Step{K: SWild} }
func lInt(i int64) Elem      { return Elem{K: LInt, I: i} }
func lStr(s string) Elem     { return Elem{K: LStr, S: s} }
func nest(s *Step) *Step     { c := *s; c.Nest = true; return &c }

func (e *Expr) clone() *Expr {
	if e == nil {
		return nil
	}
	c := *e
	c.Kids = make([]*Expr, len(e.Kids))
	for i, k := range e.Kids {
		c.Kids[i] = k.clone()
	}
	return &c
}

// walk visits every node of e.
func (e *Expr) walk(f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, k := range e.Kids {
		k.walk(f)
	}
}

func (e *Expr) has(k EK) bool {
	found := false
	e.walk(func(x *Expr) {
		if x.K == k {
			found = true
		}
	})
	return found
}

func (e *Expr) size() int {
	n := 0
	e.walk(func(*Expr) { n++ })
	return n
}
