package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/forsyth/jsonpath"
)

// C19 and C20: the built jpath command as a process.

func jpathBin() string { return filepath.Join(os.Getenv("VERIF_BIN"), "jpath") }

var cliSerial int

// scratch makes a new directory for one run.
func scratch() string {
	cliSerial++
	d := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("cli-%d-%d", os.Getpid(), cliSerial))
	if err := os.MkdirAll(d, 0o777); err != nil {
		bug("%v", err)
	}
	return d
}

type cliRun struct {
	args    []string
	stdin   []byte   // through a pipe, in pieces
	pieces  []int    // lengths of the pieces; the rest follows
	in      *os.File // instead of stdin
	out     *os.File // instead of a pipe
	limit   int64    // largest output file, if positive or zero with out; -1: none
	maxOpen int      // most files open at once, if positive
}

type cliResult struct {
	code   int
	sig    bool
	stdout []byte
	stderr []byte
}

const cliLimit = 100 * time.Second

func (c *Ctx) jpath(r cliRun) cliResult {
	c.Now(fmt.Sprintf("jpath %q", r.args))
	var cmd *exec.Cmd
	if r.out != nil && r.limit >= 0 {
		self, _ := os.Executable()
		cmd = exec.Command(self, append([]string{"limited", "size", strconv.FormatInt(r.limit, 10), jpathBin()}, r.args...)...)
	} else if r.maxOpen > 0 {
		self, _ := os.Executable()
		cmd = exec.Command(self, append([]string{"limited", "open", strconv.Itoa(r.maxOpen), jpathBin()}, r.args...)...)
		cmd.Env = append(os.Environ(), "GOGC=off")
	} else {
		cmd = exec.Command(jpathBin(), r.args...)
	}
	cmd.Dir = os.Getenv("VERIF_SCRATCH")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stderr = &se
	if r.out != nil {
		cmd.Stdout = r.out
	} else {
		cmd.Stdout = &so
	}
	var w io.WriteCloser
	if r.in != nil {
		cmd.Stdin = r.in
	} else {
		var err error
		if w, err = cmd.StdinPipe(); err != nil {
			bug("%v", err)
		}
	}
	if err := cmd.Start(); err != nil {
		bug("cannot start jpath: %v", err)
	}
	if w != nil {
		go func() {
			b := r.stdin
			for _, n := range r.pieces {
				if n > len(b) {
					break
				}
				if _, err := w.Write(b[:n]); err != nil {
					break
				}
				b = b[n:]
				runtime.Gosched()
			}
			w.Write(b)
			w.Close()
		}()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(cliLimit):
		cmd.Process.Kill()
		<-done
		c.Violate("jpath %q did not finish", r.args)
	}
	st := cmd.ProcessState.Sys().(syscall.WaitStatus)
	c.Count("runs of jpath", 1)
	return cliResult{code: st.ExitStatus(), sig: st.Signaled(), stdout: so.Bytes(), stderr: se.Bytes()}
}

// limitedMain runs a command with a limit on the number of files it has open, or on the size of files
// it writes, writes beyond which fail with an error rather than a signal.
func limitedMain(args []string) int {
	n, _ := strconv.ParseUint(args[1], 10, 64)
	res := syscall.RLIMIT_FSIZE
	if args[0] == "open" {
		res = syscall.RLIMIT_NOFILE
	}
	args = args[1:]
	runtime.LockOSThread()
	set := uint64(1) << (uint(syscall.SIGXFSZ) - 1)
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGPROCMASK, 0, uintptr(unsafe.Pointer(&set)), 0, 8, 0, 0); e != 0 {
		fmt.Fprintln(os.Stderr, e)
		return 99
	}
	if err := syscall.Setrlimit(res, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 99
	}
	fmt.Fprintln(os.Stderr, syscall.Exec(args[1], args[1:], os.Environ()))
	return 99
}

// stream text

type stream struct {
	texts []string // JSON texts
	vals  []V      // as decoded
	exp   [][]V    // expected results
}

// jsonText writes v with random layout, without newlines if oneLine.
func (g *Gen) jsonText(v V, oneLine bool) string {
	ws := func() string {
		if g.p(0.75) {
			return ""
		}
		if oneLine {
			return pick(g, []string{" ", "\t", "  "})
		}
		return pick(g, []string{" ", "\t", "\n", "\r\n", "\n\n", "  "})
	}
	if g.p(0.3) {
		ws = func() string { return "" }
	}
	var sb strings.Builder
	var rec func(v V)
	rec = func(v V) {
		switch v := v.(type) {
		case []V:
			sb.WriteString("[" + ws())
			for i, x := range v {
				if i > 0 {
					sb.WriteString("," + ws())
				}
				rec(x)
				sb.WriteString(ws())
			}
			sb.WriteString("]")
		case map[string]V:
			sb.WriteString("{" + ws())
			for i, k := range sortedKeys(v) {
				if i > 0 {
					sb.WriteString("," + ws())
				}
				b, _ := json.Marshal(k)
				sb.Write(b)
				sb.WriteString(ws() + ":" + ws())
				rec(v[k])
				sb.WriteString(ws())
			}
			sb.WriteString("}")
		case float64:
			b, _ := json.Marshal(v)
			s := string(b)
			if !strings.ContainsAny(s, ".eE") && g.p(0.1) {
				s += pick(g, []string{".0", "e0", "E+0", ".00e-0"})
			}
			sb.WriteString(s)
		default:
			b, _ := json.Marshal(v)
			sb.Write(b)
		}
	}
	rec(v)
	return sb.String()
}

// big makes a value whose text crosses the sizes of likely buffers.
func (g *Gen) bigValue() V {
	n := pick(g, []int{4090, 4096, 5000, 32768, 65530, 65536, 65537, 70000, 131072, 200000})
	n += g.n(5) - 2
	switch g.n(3) {
	case 0:
		return []V{strings.Repeat("x", n), 1.0}
	case 1:
		l := make([]V, n/8)
		for i := range l {
			l[i] = float64(1000 + i)
		}
		return map[string]V{"a": l, "b": "end"}
	}
	return map[string]V{"a": []V{strings.Repeat("é", n/2), "b"}, "b": strings.Repeat("\n", 10)}
}

// kinText changes one digit or letter of a JSON text, if it stays valid.
func (g *Gen) kinText(t string) string {
	for try := 0; try < 20; try++ {
		b := []byte(t)
		j := g.n(len(b))
		switch {
		case b[j] >= '0' && b[j] <= '9':
			b[j] = byte('0' + g.n(10))
		case b[j] >= 'a' && b[j] <= 'z':
			b[j] = byte('a' + g.n(26))
		default:
			continue
		}
		var v V
		if json.Unmarshal(b, &v) == nil {
			return string(b)
		}
	}
	return t
}

func (g *Gen) cliValue(i int) V {
	switch x := g.n(40); {
	case x < 1:
		return g.bigValue()
	case x < 6:
		return g.scalar()
	case x < 20:
		return map[string]V{"a": []V{float64(i), "a" + strconv.Itoa(i), nil}, "b": map[string]V{"c": float64(i)}, "n": float64(i)}
	case x < 22:
		return pick(g, []V{[]V{}, map[string]V{}, "", 0.0, nil})
	}
	g.budget = 25
	return g.container(3)
}

var cliPaths = []string{"$", "$.a", "$.*", "$..*", "$.a[0]", "$.n", "$..c", "$[?(@)]", "$.a[?(@ == 'b')]", "$.a[-1:]", "$.nosuch", "$[0,'a','a']", "$..[0]", "$.a[::-1]", "$.b.c", "$..[?(@.c >= 3)]", "$['a','n']", "$.a..*", " $ . a ", "$[?(@ < 5 || @ =~ '<>&')]", "$.a[?(@.length > 1)]"}

// expect computes what evaluating the path gives for each text.
func (c *Ctx) results(p *jsonpath.JSONPath, path string, texts []string) (vals []V, exp [][]V, failed int) {
	failed = -1
	for i, t := range texts {
		var v V
		if err := json.Unmarshal([]byte(t), &v); err != nil {
			bug("bad JSON from the generator: %v: %s", err, cut(t, 200))
		}
		vals = append(vals, v)
		r, err := c.eval(p, path, v)
		if err != nil {
			return vals, exp, i
		}
		exp = append(exp, r)
	}
	return
}

// join lays values out as one stream, returning the text.
func (g *Gen) join(texts []string, byLine bool, tail bool) string {
	var sb strings.Builder
	sep := func() string {
		if byLine {
			return pick(g, []string{"\n", "\n", "\n", "\r\n"})
		}
		return pick(g, []string{"\n", " ", "\n\n", "\t", "\r\n", "  \n ", ""})
	}
	lead := func() string {
		if g.p(0.85) {
			return ""
		}
		if byLine {
			return pick(g, []string{" ", "\t", "   "})
		}
		return pick(g, []string{" ", "\n", "\t\n"})
	}
	for i, t := range texts {
		sb.WriteString(lead())
		sb.WriteString(t)
		if i == len(texts)-1 && !tail {
			break
		}
		s := sep()
		if s == "" {
			// values may touch only where they delimit themselves
			last := t[len(t)-1]
			if i < len(texts)-1 && (strings.IndexByte("]}\"", last) < 0 || strings.IndexByte("[{\"", texts[i+1][0]) < 0) {
				s = " "
			}
		}
		if byLine && g.p(0.1) {
			s = " " + s
		}
		sb.WriteString(s)
	}
	if len(texts) == 0 && !byLine && tail {
		sb.WriteString(pick(g, []string{"", "\n", "  \n"}))
	}
	return sb.String()
}

// outputs judges the standard output: one list for each expectation, in order, and nothing else.
func (c *Ctx) outputs(what string, out []byte, exp [][]V, byLine bool) {
	if byLine {
		if n := bytes.Count(out, []byte("\n")); n != len(exp) || len(out) > 0 && out[len(out)-1] != '\n' {
			c.Violate("%s wrote %d complete lines for %d input lines with results: %s", what, n, len(exp), cut(string(out), 1500))
		}
		for i, line := range bytes.Split(bytes.TrimSuffix(out, []byte("\n")), []byte("\n")) {
			if i < len(exp) {
				c.oneOutput(what, i, line, exp[i])
			}
		}
		return
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	n := 0
	for {
		var raw json.RawMessage
		err := dec.Decode(&raw)
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Violate("%s wrote something that is not JSON after %d results (%v): %s", what, n, err, cut(string(out), 1500))
		}
		if n >= len(exp) {
			c.Violate("%s wrote more than the expected %d results: %s", what, len(exp), cut(string(out), 1500))
		}
		c.oneOutput(what, n, raw, exp[n])
		n++
	}
	if n != len(exp) {
		c.Violate("%s wrote %d results, not %d: %s", what, n, len(exp), cut(string(out), 1500))
	}
}

func (c *Ctx) oneOutput(what string, i int, raw []byte, exp []V) {
	var v V
	if err := json.Unmarshal(raw, &v); err != nil {
		c.Violate("%s: result %d is not JSON (%v): %s", what, i+1, err, cut(string(raw), 500))
	}
	l, ok := v.([]V)
	if !ok {
		c.Violate("%s: result %d is not a list: %s", what, i+1, cut(string(raw), 500))
	}
	in := newInterner()
	if !sameBag(in.ids(l), in.ids(roundTrip(exp))) {
		c.Violate("%s: result %d is %s, not %s", what, i+1, cut(string(raw), 1000), show(exp))
	}
	c.Count("result lists compared", 1)
}

// roundTrip is the list as JSON can carry it.
func roundTrip(l []V) []V {
	b, err := json.Marshal(l)
	if err != nil {
		bug("%v", err)
	}
	var r []V
	if err := json.Unmarshal(b, &r); err != nil {
		bug("%v", err)
	}
	return r
}

// cliPath chooses a path for some values.
func (g *Gen) cliPath(vals []V) string {
	if g.p(0.6) || len(vals) == 0 {
		return pick(g, cliPaths)
	}
	doc := pick(g, vals)
	for {
		p := g.path(doc, PathOpts{Steps: 1 + g.n(3), Nest: 0.2, Filter: 0.25, Wild: 0.2, Union: 0.15, Slice: 0.1, ExprStep: 0.05, MaxRes: 500, FilterGen: filterOver(doc, 2), ExprGen: keyOver(doc)})
		t := p.Text(g.layout())
		if !strings.Contains(t, "\x00") {
			return t
		}
	}
}

func (g *Gen) pieces(n int) []int {
	if g.p(0.5) {
		return nil
	}
	var l []int
	for k := g.n(12); k > 0; k-- {
		l = append(l, 1+g.n(n/3+1))
	}
	return l
}

// runCli: streams in every layout, by line and not, from standard input and files.
func runCli(c *Ctx, i int) {
	g := newGen(c)
	g.setNames()
	g.errP = 0
	byLine := g.p(0.5)
	n := g.n(8)
	if g.p(0.05) {
		n = 100 + g.n(300)
	}
	var raw []V
	var texts []string
	for k := 0; k < n; k++ {
		v := g.cliValue(k)
		raw = append(raw, v)
		texts = append(texts, g.jsonText(v, byLine))
	}
	if n > 1 && g.p(0.3) {
		// values whose texts are the same, or differ in one digit or letter
		k := g.n(n - 1)
		if len(texts[k]) < 40 {
			texts[k] = g.jsonText([]V{g.cliValue(1), "pad", float64(g.n(1 << 30)), raw[k], "padding"}, byLine)
			if g.p(0.6) {
				texts[k] = `{"a":` + texts[k] + `,"n":` + strconv.Itoa(g.n(1<<30)) + `}`
			}
		}
		for j := k + 1; j < n && g.p(0.8); j++ {
			texts[j] = g.kinText(texts[pick(g, []int{k, j - 1})])
		}
		c.Count("streams with nearly equal values", 1)
	}
	if len(texts) > 0 && g.p(0.04) {
		texts[g.n(len(texts))] = `"` + strings.Repeat("long ", pick(g, []int{13107, 13200, 60000, 240000})) + `"`
	}
	path := g.cliPath(raw)
	p, err := c.compile(path)
	if err != nil {
		return
	}
	_, exp, failed := c.results(p, path, texts)
	if failed >= 0 {
		return // judged by C20
	}
	var args []string
	if byLine {
		args = append(args, "-l")
	}
	args = append(args, path)
	dir := scratch()
	defer os.RemoveAll(dir)
	run := cliRun{limit: -1}
	what := ""
	files := 0
	var names []string
	var spans [][2]int
	if g.p(0.4) {
		// several files
		at := 0
		for at < len(texts) || files == 0 || g.p(0.2) {
			k := min(len(texts)-at, g.n(4))
			s := g.join(texts[at:at+k], byLine, g.p(0.7))
			at += k
			name := filepath.Join(dir, fmt.Sprintf("f%d.json", files))
			if g.p(0.1) {
				name = filepath.Join(dir, fmt.Sprintf("odd name %d", files))
			}
			os.WriteFile(name, []byte(s), 0o666)
			args = append(args, name)
			names = append(names, name)
			spans = append(spans, [2]int{at - k, at})
			files++
		}
		if g.p(0.3) {
			// the same files again, named twice or more
			args = args[:len(args)-files]
			var again [][]V
			var texts2 []string
			for j := 1 + g.n(6); j > 0; j-- {
				f := g.n(len(names))
				for r := 1 + g.n(3); r > 0; r-- {
					args = append(args, names[f])
					again = append(again, exp[spans[f][0]:spans[f][1]]...)
					texts2 = append(texts2, texts[spans[f][0]:spans[f][1]]...)
				}
			}
			exp, texts = again, texts2
			c.Count("runs naming a file more than once", 1)
		}
		run.stdin = []byte("not for reading")
	} else {
		s := g.join(texts, byLine, g.p(0.7))
		if g.p(0.3) {
			name := filepath.Join(dir, "in")
			os.WriteFile(name, []byte(s), 0o666)
			f, err := os.Open(name)
			if err != nil {
				bug("%v", err)
			}
			defer f.Close()
			run.in = f
		} else {
			run.stdin = []byte(s)
			run.pieces = g.pieces(len(s))
		}
	}
	run.args = args
	r := c.jpath(run)
	what = fmt.Sprintf("jpath %q on %s", args, cut(strings.Join(texts, " "), 1500))
	if r.code != 0 || r.sig {
		c.Violate("%s exited with status %d: %s", what, r.code, cut(string(r.stderr), 500))
	}
	c.outputs(what, r.stdout, exp, byLine)
	if byLine {
		c.Count("runs by line", 1)
	}
	if files > 0 {
		c.Count("runs on files", 1)
	}
	c.Max("most values in a run", n)
	nonempty := 0
	for _, e := range exp {
		if len(e) > 0 {
			nonempty++
		}
	}
	c.Eval(hash64(strings.Join(args, " "), strings.Join(texts, " ")), nonempty > 0)
	c.Sample(fmt.Sprintf("jpath %q on %d values in %d files", args[:min(len(args), 3)], n, files))
}

// runCliSizes: values whose text ends just round the sizes of buffers.
func runCliSizes(c *Ctx, i int) {
	sizes := []int{4096, 8192, 65536, 131072, 1 << 20}
	size := sizes[i%len(sizes)]
	byLine := i/len(sizes)%2 == 0
	for d := -3; d <= 3; d++ {
		s := `["` + strings.Repeat("y", size+d-5) + `"]` // with its newline, size+d bytes
		texts := []string{`[0]`, s, `[1]`, s, `[2]`}
		path := "$[0]"
		p := c.mustCompile(path)
		_, exp, _ := c.results(p, path, texts)
		var args []string
		if byLine {
			args = append(args, "-l")
		}
		args = append(args, path)
		in := strings.Join(texts, "\n") + "\n"
		if d%2 == 0 {
			in = strings.Join(texts, "\r\n")
		}
		r := c.jpath(cliRun{args: args, stdin: []byte(in), limit: -1})
		what := fmt.Sprintf("jpath %q on values of %d bytes", args, len(s))
		if r.code != 0 {
			c.Violate("%s exited with status %d: %s", what, r.code, cut(string(r.stderr), 500))
		}
		c.outputs(what, r.stdout, exp, byLine)
		c.Eval(hash64(strconv.Itoa(size+d), strconv.FormatBool(byLine)), true)
	}
}

// runCliMany: many more files than may be open at once.
func runCliMany(c *Ctx, i int) {
	g := newGen(c)
	byLine := i%2 == 0
	dir := scratch()
	defer os.RemoveAll(dir)
	n := pick(g, []int{80, 150, 300})
	var args, texts []string
	if byLine {
		args = append(args, "-l")
	}
	path := pick(g, []string{"$[0]", "$[*]", "$[?(@ > 1)]"})
	args = append(args, path)
	for k := 0; k < n; k++ {
		var here []string
		for j := g.n(3); j >= 0; j-- {
			here = append(here, fmt.Sprintf("[%d,%d]", k, j))
		}
		if g.p(0.05) {
			here = nil // an empty file
		}
		name := filepath.Join(dir, fmt.Sprintf("f%d.json", k))
		if err := os.WriteFile(name, []byte(g.join(here, byLine, true)), 0o666); err != nil {
			bug("%v", err)
		}
		args = append(args, name)
		texts = append(texts, here...)
	}
	p := c.mustCompile(path)
	_, exp, _ := c.results(p, path, texts)
	r := c.jpath(cliRun{args: args, limit: -1, maxOpen: 64})
	if r.code == 99 {
		bug("%s", r.stderr)
	}
	what := fmt.Sprintf("jpath %q on %d files, when at most 64 may be open at once,", path, n)
	if r.code != 0 || r.sig {
		c.Violate("%s exited with status %d: %s", what, r.code, cut(string(r.stderr), 500))
	}
	c.outputs(what, r.stdout, exp, byLine)
	c.Eval(hash64("many", strconv.Itoa(i)), true)
	c.Max("most files in a run", n)
}

// C20

var badJSON = []string{"x", "]", "}", ",", "{", "[", "[1,", "[1,]", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "{\"a\":1,}", "{a:1}", "\"abc", "\"a\\", "\"\\u12", "\"\\x\"", "'a'", "tru", "truth", "nul", "+1", "-", "1.", ".5", "1e", "1e999", "-1e400", "NaN", "[1 2]", "{\"a\" 1}", "\"\x01\"", "\x00", "[\"a\nb\"]", "//", "\xff", "[1}", "{]", "[[[[", strings.Repeat("[", 20000), "1e99999", "[1e999]", "undefined",
	"#", "# comment", "#1", ";1", "// [1]", "/* */ 1", "\ufeff1", "-- 1", "%1", "=1", "<1>", "`1`", "\v1", "\f", "\u00a01", "data: 1", "--", "...", "Infinity", "True", "None", "[1,,2]", "[,1]", "{,}", "{\"a\":}", "{\"a\":1 \"b\":2}", "{1:2}", "{null:1}"}

type fault struct {
	kind   string
	text   string // what follows the good values on the stream
	inFile bool
}

func runCliFaults(c *Ctx, i int) {
	g := newGen(c)
	g.setNames()
	byLine := g.p(0.4)
	n := g.n(6)
	var texts []string
	var raw []V
	for k := 0; k < n; k++ {
		v := g.cliValue(k)
		raw = append(raw, v)
		texts = append(texts, g.jsonText(v, byLine))
	}
	after := []string{}
	for k := g.n(3); k > 0; k-- {
		after = append(after, g.jsonText(g.cliValue(100+k), byLine))
	}
	path := g.cliPath(raw)
	if g.p(0.5) {
		path = pick(g, cliPaths)
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "a.json")
	var args []string
	if byLine {
		args = append(args, "-l")
	}
	run := cliRun{limit: -1}
	kind := pick(g, []string{"json", "json", "truncated", "truncated", "missing", "missing", "directory", "eval", "eval", "eval", "path", "stdin"})
	var in string
	useFiles := false
	switch kind {
	case "json":
		b := pick(g, badJSON)
		if byLine && strings.Contains(b, "\n") {
			b = "[1,"
		}
		if byLine && g.p(0.2) {
			b = pick(g, []string{"1 2", "[] []", "{}{}", "[1] x", "\"a\" ]", "# 1", "1 # one", "1;", "1,", "[1]]", "[1],", "{\"a\":1}}", "01", "-01", "0x10", "1_000", "\"a\"\"", "1 1", "null null", "{} # x", "1\v", "[1]\f"})
		}
		in = g.join(texts, byLine, true) + "\n" + b
		if byLine {
			in = strings.Join(append(append([]string{}, texts...), b), "\n")
		}
		if g.p(0.7) {
			in += "\n" + strings.Join(after, "\n") + "\n"
		}
	case "truncated":
		t := g.jsonText(g.cliValue(99), byLine)
		if len(t) > 3000 && g.p(0.8) {
			t = `{"a":[1,2.5e3,"x\u00e9\n",true,false,null,{"b":{}}],"c":"d"}`
		}
		k := 1 + g.n(len(t))
		t = t[:k]
		if json.Valid([]byte(t)) || strings.TrimSpace(t) == "" {
			t = "[" + t
		}
		in = strings.Join(append(append([]string{}, texts...), t), "\n")
		if g.p(0.3) {
			in += pick(g, []string{"\n", " ", "\n\n"})
			if byLine {
				in = strings.TrimRight(in, "\n ")
			}
		}
	case "missing", "directory":
		useFiles = true
	case "eval":
		f := &errForms[g.n(len(errForms))]
		e := f.e
		if byLine {
			e = xBin("==", e, xBool(true))
		}
		path = Path{sName("x"), sFilter(e)}.Text(g.layout())
		mk := func(bad bool) string {
			l := []V{}
			for k := 1 + g.n(3); k > 0; k-- {
				l = append(l, clone(pick(g, f.good)))
			}
			if bad {
				l[g.n(len(l))] = clone(pick(g, f.bad))
			}
			return g.jsonText(map[string]V{"x": l}, byLine)
		}
		for k := range texts {
			texts[k] = mk(false)
		}
		l := append(append([]string{}, texts...), mk(true))
		for range after {
			l = append(l, mk(g.p(0.3)))
		}
		in = g.join(l, byLine, g.p(0.6))
	case "path":
		for try := 0; ; try++ {
			path = g.mutate(g.synPath().Text(g.synLayout()), "$[?(@.a)]")
			if v, _ := recognisePath(path); v == vReject && !strings.Contains(path, "\x00") && !strings.HasPrefix(path, "-") {
				break
			}
			if try > 200 {
				path = "$["
				break
			}
		}
		in = strings.Join(append([]string{"[1]"}, texts...), "\n")
		useFiles = g.p(0.3)
	case "stdin":
		f, err := os.Open(dir)
		if err != nil {
			bug("%v", err)
		}
		defer f.Close()
		run.in = f
		texts = nil
	}
	args = append(args, path)
	p, err := c.compile(path)
	if (err != nil) != (kind == "path") {
		if kind == "path" {
			return // judged by C02
		}
		c.Violate("Compile(%q): %v", path, err)
	}
	var exp [][]V
	if kind != "path" {
		var failed int
		_, exp, failed = c.results(p, path, texts)
		if failed >= 0 {
			// an evaluation fails even earlier
			exp = exp[:failed]
			kind = "eval"
		}
	}
	if useFiles {
		at := 0
		for k := 0; at < len(texts); k++ {
			m := min(len(texts)-at, 1+g.n(3))
			f := filepath.Join(dir, fmt.Sprintf("f%d", k))
			os.WriteFile(f, []byte(g.join(texts[at:at+m], byLine, g.p(0.7))), 0o666)
			args = append(args, f)
			at += m
		}
		bad := filepath.Join(dir, "nosuchfile")
		if kind == "directory" {
			bad = dir
		} else if g.p(0.2) {
			bad = filepath.Join(name, "below")
			os.WriteFile(name, []byte("[]"), 0o666)
		}
		args = append(args, bad)
		if g.p(0.5) {
			f := filepath.Join(dir, "after")
			os.WriteFile(f, []byte(strings.Join(append(after, "[1]"), "\n")), 0o666)
			args = append(args, f)
		}
	} else if kind != "stdin" {
		if g.p(0.4) {
			os.WriteFile(name, []byte(in), 0o666)
			args = append(args, name)
			if g.p(0.4) {
				f := filepath.Join(dir, "after")
				os.WriteFile(f, []byte("[1,2]\n"), 0o666)
				args = append(args, f)
			}
		} else {
			run.stdin = []byte(in)
			run.pieces = g.pieces(len(in))
		}
	}
	run.args = args
	r := c.jpath(run)
	what := fmt.Sprintf("jpath %q (fault: %s) on %s", args, kind, cut(in, 1500))
	c.failedRun(what, r)
	c.outputs(what, r.stdout, exp, byLine)
	c.Count("faults: "+kind, 1)
	c.Eval(hash64(strings.Join(args[:min(len(args), 2)], " "), in, kind, strings.Join(texts, " ")), true)
	c.Sample(fmt.Sprintf("%s after %d values: jpath %q", kind, len(exp), cut(path, 100)))
}

func (c *Ctx) failedRun(what string, r cliResult) {
	if r.code == 0 && !r.sig {
		c.Violate("%s exited with status 0; standard error: %s; standard output: %s", what, cut(string(r.stderr), 500), cut(string(r.stdout), 1000))
	}
	if len(bytes.TrimSpace(r.stderr)) == 0 {
		c.Violate("%s wrote no message on standard error", what)
	}
	if r.sig || bytes.Contains(r.stderr, []byte("goroutine 1 [")) {
		c.Violate("%s crashed: %s", what, cut(string(r.stderr), 1500))
	}
}

// runCliUsage: no path, or an option that does not exist.
func runCliUsage(c *Ctx, i int) {
	args := [][]string{{}, {"-l"}, {"--"}, {"-l", "--"}, {"-l=false"}, {"-q", "$"}, {"-l", "-quiet", "$"}, {"-l=maybe", "$"}}[i%8]
	in := []string{"", "1\n", "{\"a\":1}\n[2]\n"}[i/8%3]
	r := c.jpath(cliRun{args: args, stdin: []byte(in), limit: -1})
	what := fmt.Sprintf("jpath %q", args)
	c.failedRun(what, r)
	if len(r.stdout) != 0 {
		c.Violate("%s wrote on standard output: %s", what, cut(string(r.stdout), 500))
	}
	c.Count("faults: usage", 1)
	c.Eval(hash64(strings.Join(args, " "), in), true)
}

// runCliTruncate: one document cut at every byte.
func runCliTruncate(c *Ctx, i int) {
	g := newGen(c)
	byLine := i%2 == 0
	t := `{"a":[1,-2.5e+3,"x\u00e9\n\"é",true,false,null,{"b":{}}],"c":""}`
	k := i / 2 % (len(t) - 1)
	texts := []string{`{"c":1}`, `{"c":[2]}`}
	in := strings.Join(texts, "\n") + "\n" + t[:k+1]
	var args []string
	if byLine {
		args = append(args, "-l")
	}
	args = append(args, "$.c")
	p := c.mustCompile("$.c")
	_, exp, _ := c.results(p, "$.c", texts)
	r := c.jpath(cliRun{args: args, stdin: []byte(in), pieces: g.pieces(len(in)), limit: -1})
	what := fmt.Sprintf("jpath %q on %q", args, in)
	c.failedRun(what, r)
	c.outputs(what, r.stdout, exp, byLine)
	c.Count("faults: cut at each byte", 1)
	c.Eval(hash64(in, strconv.FormatBool(byLine)), true)
}

// runCliOutput: output that cannot be written, from some byte on.
func runCliOutput(c *Ctx, i int) {
	g := newGen(c)
	byLine := g.p(0.5)
	n := pick(g, []int{1, 1, 2, 3, 10, 100, 1500, 4000})
	var texts []string
	for k := 0; k < n; k++ {
		texts = append(texts, fmt.Sprintf(`{"n":%d,"a":[%d,"v%d"]}`, k, k, k))
	}
	tail := pick(g, []string{"", "", "\n[1,"}) // a second fault sometimes
	path := pick(g, []string{"$.n", "$.a[*]", "$.a", "$.nosuch"})
	p := c.mustCompile(path)
	_, exp, _ := c.results(p, path, texts)
	var full bytes.Buffer
	enc := json.NewEncoder(&full)
	if !byLine {
		enc.SetIndent("", "\t")
	}
	for _, e := range exp {
		enc.Encode(e)
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	var args []string
	if byLine {
		args = append(args, "-l")
	}
	args = append(args, path)
	run := cliRun{args: args, stdin: []byte(strings.Join(texts, "\n") + tail), limit: -1}
	kind := pick(g, []string{"full", "readonly", "limit", "limit", "limit"})
	if full.Len() == 0 {
		return
	}
	outName := filepath.Join(dir, "out")
	var err error
	switch kind {
	case "full":
		run.out, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "readonly":
		os.WriteFile(outName, nil, 0o666)
		run.out, err = os.Open(outName)
	case "limit":
		run.out, err = os.Create(outName)
		// the output would be at least as long as its most compact form
		run.limit = int64(g.n(compactLen(exp)))
		if g.p(0.3) {
			run.limit = int64(max(0, compactLen(exp)-1-g.n(4)))
		}
	}
	if err != nil {
		bug("%v", err)
	}
	defer run.out.Close()
	r := c.jpath(run)
	if r.code == 99 {
		bug("%s", r.stderr)
	}
	what := fmt.Sprintf("jpath %q on %d values with output failing (%s at byte %d)", args, n, kind, run.limit)
	c.failedRun(what, r)
	if kind == "limit" {
		b, err := os.ReadFile(outName)
		if err != nil {
			bug("%v", err)
		}
		c.prefix(what, b, exp, byLine)
		c.Count("bytes written before the failure", len(b))
	}
	c.Count("faults: output "+kind, 1)
	c.Eval(hash64(what, path), true)
}

func compactLen(exp [][]V) int {
	n := 0
	for _, e := range exp {
		b, _ := json.Marshal(e)
		n += len(b)
	}
	return n
}

// prefix checks that the output is the beginning of the expected results.
func (c *Ctx) prefix(what string, out []byte, exp [][]V, byLine bool) {
	dec := json.NewDecoder(bytes.NewReader(out))
	n := 0
	for {
		var raw json.RawMessage
		if dec.Decode(&raw) != nil {
			break
		}
		if n >= len(exp) {
			c.Violate("%s wrote more than the expected %d results: %s", what, len(exp), cut(string(out), 1000))
		}
		c.oneOutput(what, n, raw, exp[n])
		n++
	}
	rest := bytes.TrimSpace(out[dec.InputOffset():])
	if len(rest) > 0 && (n >= len(exp) || rest[0] != '[') {
		c.Violate("%s wrote %s after %d results", what, cut(string(rest), 500), n)
	}
}

func init() {
	register(&Prop{ID: "C19",
		Rule: "streams of 0 to 400 JSON values in random layouts, by line and not, through pipes in pieces, files as standard input and named files, with lines to 1.2 MB, and many more files than may be open at once; the built command's output parsed and compared, list by list, with Eval of each value; non-trivial: some list is not empty",
		Phases: []Phase{
			{Name: "streams", N: fixedN(6000, 100000), Run: runCli},
			{Name: "sizes", Fixed: true, N: fixedN(10, 10), Run: runCliSizes},
			{Name: "many", N: fixedN(24, 240), Run: runCliMany},
			{Name: "scale", N: fixedN(8, 100), Run: runScaleCli(false)},
		}})
	register(&Prop{ID: "C20",
		Rule: "runs of the built command with one fault: bad or truncated JSON at any position, missing or unreadable files at any position, failing evaluations, invalid paths, output refused from any byte on; exit status, standard error and the results written before the fault judged; every run is non-trivial",
		Phases: []Phase{
			{Name: "faults", N: fixedN(6000, 100000), Run: runCliFaults},
			{Name: "cuts", Fixed: true, N: fixedN(128, 128), Run: runCliTruncate},
			{Name: "usage", Fixed: true, N: fixedN(24, 24), Run: runCliUsage},
			{Name: "output", N: fixedN(1500, 30000), Run: runCliOutput},
			{Name: "scale", N: fixedN(8, 100), Run: runScaleCli(true)},
		}})
}
