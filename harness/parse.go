package main

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/forsyth/jsonpath/paths"
)

// A recogniser of the documented grammar, written as a scannerless recursive descent
// over the text, independently of the code under test. It gives one of three verdicts:
// derivable, not derivable, or not settled by the documentation.

type verdict int

const (
	vReject verdict = iota
	vAccept
	vUnspecified
)

func (v verdict) String() string {
	return [...]string{"reject", "accept", "unspecified"}[v]
}

type recogniser struct {
	s     string
	i     int
	depth int
	max   int
	unsp  string // why the text is not settled
	cause error  // what is wrong with the literal at which reading failed, if it failed at one
}

type syntaxError struct{}

func (r *recogniser) fail()                { panic(syntaxError{}) }
func (r *recogniser) bad(err error)        { r.cause = err; r.fail() }
func (r *recogniser) unspecified(w string) { r.unsp = w }

func recognise(s string, f func(r *recogniser)) (v verdict, why string) {
	v, why, _ = recogniseCause(s, f)
	return
}

// recogniseCause also tells what is wrong with the literal at which a derivation first fails.
func recogniseCause(s string, f func(r *recogniser)) (v verdict, why string, cause error) {
	r := &recogniser{s: s}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(syntaxError); !ok {
				panic(x)
			}
			v, cause = vReject, r.cause
		}
		if r.max >= 10000 {
			v, why = vUnspecified, "very deep"
		} else if r.unsp != "" {
			v, why = vUnspecified, r.unsp
		}
	}()
	f(r)
	r.ws()
	if r.i < len(r.s) {
		r.fail()
	}
	return vAccept, "", nil
}

func recognisePath(s string) (verdict, string) { return recognise(s, (*recogniser).path) }
func recogniseExpr(s string) (verdict, string) {
	return recognise(s, func(r *recogniser) { r.expr() })
}

func (r *recogniser) ws() {
	for r.i < len(r.s) && strings.IndexByte(" \t\n\r\f\v", r.s[r.i]) >= 0 {
		r.i++
	}
}

// at reports whether the text continues with t, immediately.
func (r *recogniser) at(t string) bool { return strings.HasPrefix(r.s[r.i:], t) }

// next skips space and reports the next byte, or 0 at the end (a NUL byte is in no token).
func (r *recogniser) next() byte {
	r.ws()
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

// accept consumes t after any space, if it is there.
func (r *recogniser) accept(t string) bool {
	r.ws()
	if r.at(t) {
		r.i += len(t)
		return true
	}
	return false
}

func (r *recogniser) need(t string) {
	if !r.accept(t) {
		r.fail()
	}
}

func dig(c byte) bool { return c >= '0' && c <= '9' }
func letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
}

func (r *recogniser) digits() string {
	a := r.i
	for r.i < len(r.s) && dig(r.s[r.i]) {
		r.i++
	}
	return r.s[a:r.i]
}

func (r *recogniser) word(dash bool) string {
	a := r.i
	for r.i < len(r.s) && (letter(r.s[r.i]) || dig(r.s[r.i]) || dash && r.s[r.i] == '-') {
		r.i++
	}
	return r.s[a:r.i]
}

func (r *recogniser) path() {
	r.need("$")
	for {
		switch {
		case r.next() == 0 && r.i >= len(r.s):
			return
		case r.accept(".."):
			if r.accept("[") {
				r.subscript()
			} else {
				r.member()
			}
		case r.accept("."):
			r.member()
		case r.accept("["):
			r.subscript()
		default:
			r.fail()
		}
	}
}

func (r *recogniser) member() {
	switch c := r.next(); {
	case c == '*':
		r.i++
	case c == '(':
		r.i++
		r.expr()
		r.need(")")
	case letter(c):
		r.word(true)
	default:
		r.signed()
	}
}

// signed reads a signed integer, requiring one.
func (r *recogniser) signed() {
	neg := r.accept("-")
	if !dig(r.next()) {
		r.fail()
	}
	d := r.digits()
	_, err := strconv.ParseInt(d, 10, 64)
	if neg {
		if t := strings.TrimLeft(d, "0"); t == "9223372036854775807" || t == "9223372036854775808" {
			r.unspecified("least integers")
			return
		}
	}
	if err != nil {
		r.fail()
	}
}

func (r *recogniser) subscript() {
	n, alone := 0, false
	for {
		n++
		switch c := r.next(); {
		case c == '*':
			r.i++
			alone = true
		case c == '?':
			r.i++
			if !r.at("(") {
				r.fail()
			}
			r.i++
			r.expr()
			r.need(")")
			alone = true
		case c == '(':
			r.i++
			r.expr()
			r.need(")")
			if r.accept(":") {
				r.slice()
			} else {
				alone = true
			}
		case c == ':':
			r.i++
			r.slice()
		case c == '\'' || c == '"':
			r.str()
		case letter(c):
			r.word(true)
		default:
			r.signed()
			if r.accept(":") {
				r.slice()
			}
		}
		if !r.accept(",") {
			break
		}
	}
	if alone && n > 1 {
		r.fail()
	}
	r.need("]")
}

// slice reads what follows the first colon: end? (":" stride?)?
func (r *recogniser) slice() {
	r.bound()
	if r.accept(":") {
		r.bound()
	}
}

func (r *recogniser) bound() {
	switch c := r.next(); {
	case c == '(':
		r.i++
		r.expr()
		r.need(")")
	case c == '-' || dig(c):
		r.signed()
	}
}

func (r *recogniser) str() {
	q := r.s[r.i]
	r.i++
	for {
		if r.i >= len(r.s) {
			r.bad(paths.ErrUnclosedString)
		}
		c := r.s[r.i]
		r.i++
		switch {
		case c == q:
			return
		case c < 0x20:
			r.bad(paths.ErrCtrlChar)
		case c == '\\':
			if r.i >= len(r.s) {
				r.bad(paths.ErrUnclosedString)
			}
			e := r.s[r.i]
			r.i++
			switch {
			case e == q || strings.IndexByte(`\/bfnrt`, e) >= 0:
			case e == 'u':
				for k := 0; k < 4; k++ {
					if r.i >= len(r.s) {
						r.bad(paths.ErrUnclosedString)
					}
					if strings.IndexByte("0123456789abcdefABCDEF", r.s[r.i]) < 0 {
						r.bad(paths.ErrShortEscape)
					}
					r.i++
				}
			default:
				r.bad(paths.ErrBadEscape)
			}
		}
	}
}

// expr reads an expression and tells if it was just a name, perhaps in parentheses.
func (r *recogniser) expr() nameKind {
	name := r.operand()
	for r.binop() {
		name = notName
		r.operand()
	}
	return name
}

func (r *recogniser) binop() bool {
	switch c := r.next(); {
	case c == '+' || c == '-' || c == '*' || c == '/' || c == '%' || c == '~':
		r.i++
		return true
	case c == '<' || c == '>':
		r.i++
		if r.at("=") {
			r.i++
		}
		return true
	case r.at("==") || r.at("=~") || r.at("!=") || r.at("&&") || r.at("||"):
		r.i += 2
		return true
	case c == '=' || c == '&' || c == '|':
		r.fail() // no such token
	case letter(c):
		a := r.i
		switch r.word(false) {
		case "in", "nin":
			return true
		}
		r.i = a
	}
	return false
}

func (r *recogniser) push() {
	r.depth++
	if r.depth > r.max {
		r.max = r.depth
	}
	if r.depth > 20000 {
		r.fail() // already unspecified
	}
}

// operand reads unary operators and a primary with its suffixes.
func (r *recogniser) operand() nameKind {
	r.push()
	d := r.depth
	defer func() { r.depth = d - 1 }()
	for {
		c := r.next()
		if c == '!' && r.at("!=") {
			r.fail()
		}
		if c != '-' && c != '!' {
			break
		}
		r.i++
		r.push()
	}
	unary := r.depth > d
	name := r.primary()
	for {
		switch r.next() {
		case '(':
			switch name {
			case callable:
			case keyword:
				r.unspecified("call of a keyword")
			default:
				r.fail()
			}
			r.i++
			if !r.accept(")") {
				r.exprs()
				r.need(")")
			}
			name = notName
		case '[':
			r.i++
			r.expr()
			r.need("]")
			name = notName
		case '.':
			r.i++
			if !letter(r.next()) {
				r.fail()
			}
			r.word(false)
			name = notName
		default:
			if unary {
				return notName
			}
			return name
		}
	}
}

func (r *recogniser) exprs() {
	for {
		r.expr()
		if !r.accept(",") {
			return
		}
	}
}

type nameKind int

const (
	notName nameKind = iota
	callable
	keyword
)

func (r *recogniser) primary() nameKind {
	switch c := r.next(); {
	case c == '@' || c == '$':
		r.i++
	case c == '\'' || c == '"':
		r.str()
	case c == '[':
		r.i++
		if !r.accept("]") {
			r.exprs()
			r.need("]")
		}
	case c == '(':
		r.i++
		n := r.expr()
		r.need(")")
		return n
	case c == '/':
		r.i++
		r.re()
	case dig(c):
		r.number()
	case letter(c):
		w := r.word(false)
		if w == "in" || w == "nin" {
			r.unspecified("operator name as operand")
		}
		return classify(w)
	default:
		r.fail()
	}
	return notName
}

func classify(w string) nameKind {
	switch w {
	case "true", "false", "null":
		return keyword
	}
	return callable
}

func (r *recogniser) number() {
	a := r.i
	r.digits()
	if !r.at(".") {
		if _, err := strconv.ParseInt(r.s[a:r.i], 10, 64); err != nil {
			r.fail()
		}
		return
	}
	r.i++
	r.digits()
	if r.at("e") || r.at("E") {
		if r.at("E") {
			r.unspecified("exponent E")
		}
		r.i++
		if r.at("+") || r.at("-") {
			r.i++
		}
		if r.digits() == "" {
			r.bad(paths.ErrBadReal)
		}
	}
	if _, err := strconv.ParseFloat(r.s[a:r.i], 64); err != nil {
		r.fail()
	}
}

// re reads a regular expression after its first slash.
func (r *recogniser) re() {
	p, n, ok := reBody(r.s[r.i:])
	if !ok {
		r.bad(paths.ErrUnclosedRE)
	}
	r.i += n
	if _, err := regexp.Compile(p); err != nil {
		r.fail()
	}
}

// reBody reads a regular expression up to its closing slash, returning the pattern it denotes.
func reBody(s string) (string, int, bool) {
	var sb strings.Builder
	for i := 0; i < len(s); {
		switch {
		case s[i] == '/':
			return sb.String(), i + 1, true
		case strings.HasPrefix(s[i:], `\/`):
			sb.WriteByte('/')
			i += 2
		case s[i] == '\\' && i+1 < len(s):
			sb.WriteString(s[i : i+2])
			i += 2
		default:
			sb.WriteByte(s[i])
			i++
		}
	}
	return "", 0, false
}
