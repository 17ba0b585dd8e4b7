package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Phase is a fixed list of cases, identified by index.
type Phase struct {
	Name  string
	N     func(tier string) int
	Run   func(c *Ctx, i int)
	Solo  bool // run by a single worker, with a larger memory allowance
	Fixed bool // does not depend on the seed
}

// Prop is the check of one property.
type Prop struct {
	ID          string
	Rule        string
	Level       string
	Assumptions []string
	Phases      []Phase
	Race        bool // wants the race-detector build
	Workers     int  // 0: default
	Floor       int  // least acceptable number of distinct non-trivial cases per 1000 evaluations
	Exhaustive  func(tier string) bool
	Quick       int // how often a quick run repeats each phase's quick number of cases; 0: quickTimes
}

const quickTimes = 4

// count is the number of cases of ph.
func (p *Prop) count(ph *Phase, tier string) int {
	n := ph.N(tier)
	if tier != "thorough" && !ph.Fixed {
		k := p.Quick
		if k == 0 {
			k = quickTimes
		}
		n = max(n, min(n*k, ph.N("thorough")))
	}
	return n
}

func fixedN(quick, thorough int) func(string) int {
	return func(tier string) int {
		if tier == "thorough" {
			return thorough
		}
		return quick
	}
}

// Ctx is the context of one case.
type Ctx struct {
	R       *rand.Rand
	Tier    string
	Seed    uint64
	Prop    *Prop
	Phase   *Phase
	PhaseNo int
	Index   int
	w       *worker
	numbers *rand.Rand // not nil: documents are given with json.Number, spelled by it
}

type violation struct{ msg string }

// Violate reports a violation of the property and ends the case.
func (c *Ctx) Violate(f string, a ...interface{}) {
	if c.numbers != nil {
		f += " (the document's numbers being of type json.Number)"
	}
	panic(violation{fmt.Sprintf(f, a...)})
}

// Finding reports a violation that is exactly a listed known finding.
func (c *Ctx) Finding(key string) {
	c.w.findings[key]++
}

// Eval counts an evaluation; hash identifies the case, nontrivial says if it counts as such.
func (c *Ctx) Eval(hash uint64, nontrivial bool) {
	c.w.evals++
	if nontrivial {
		c.w.distinct[hash] = struct{}{}
	}
}

// Count adds to a named counter.
func (c *Ctx) Count(name string, n int) {
	c.w.counts[name] += int64(n)
}

// Max records the maximum of a named measure.
func (c *Ctx) Max(name string, n int) {
	if int64(n) > c.w.maxes[name] {
		c.w.maxes[name] = int64(n)
	}
}

// Sample offers a case to be shown in the evidence.
func (c *Ctx) Sample(s string) {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.w.nsample++
	if len(c.w.samples) < 3 {
		c.w.samples = append(c.w.samples, s)
	} else if c.w.nsample&(c.w.nsample-1) == 0 { // powers of two
		c.w.samples[c.w.nsample%3] = s
	}
}

// Now records what is being done, for the report if the process dies.
func (c *Ctx) Now(s string) {
	m := c.w.mmap
	if m == nil {
		return
	}
	b := m[16:]
	if len(s) > len(b) {
		s = s[:len(b)]
	}
	copy(b, s)
	binary.LittleEndian.PutUint32(m[8:], uint32(len(s)))
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// worker state

type worker struct {
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	maxes    map[string]int64
	findings map[string]int64
	samples  []string
	nsample  int
	mmap     []byte
}

type report struct {
	Evals     int64
	Counts    map[string]int64
	Maxes     map[string]int64
	Findings  map[string]int64
	Samples   []string
	Violation string
	Case      string // phase:index
	Now       string
	Done      bool
}

func newWorker() *worker {
	return &worker{distinct: map[uint64]struct{}{}, counts: map[string]int64{}, maxes: map[string]int64{}, findings: map[string]int64{}}
}

func caseRand(prop, phase string, seed uint64, i int) *rand.Rand {
	return rand.New(rand.NewPCG(hash64(prop, phase, strconv.FormatUint(seed, 10)), uint64(i)*0x9E3779B97F4A7C15+1))
}

// runCase runs one case, returning a violation message or "".
func (w *worker) runCase(p *Prop, pn int, i int, seed uint64, tier string) (msg string) {
	ph := &p.Phases[pn]
	s := seed
	if ph.Fixed {
		s = 0
	}
	c := &Ctx{R: caseRand(p.ID, ph.Name, s, i), Tier: tier, Seed: seed, Prop: p, Phase: ph, PhaseNo: pn, Index: i, w: w}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case violation:
			msg = x.msg
		case harnessBug:
			panic(x)
		default:
			st := string(debug.Stack())
			if !strings.Contains(st, "forsyth/jsonpath") {
				panic(x)
			}
			msg = fmt.Sprintf("panic: %v\n%s", x, st)
		}
	}()
	ph.Run(c, i)
	return ""
}

type harnessBug struct{ msg string }

func bug(f string, a ...interface{}) { panic(harnessBug{fmt.Sprintf(f, a...)}) }

// workerMain runs a worker's share of the cases.
// args: prop tier seed shard nshards dir
func workerMain(args []string) {
	p := props[args[0]]
	tier := args[1]
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	shard, _ := strconv.Atoi(args[3])
	nsh, _ := strconv.Atoi(args[4])
	dir := args[5]
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(1500 << 20)
	w := newWorker()
	f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("now.%d", shard)), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
	if err == nil {
		f.Truncate(1 << 16)
		w.mmap, _ = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	rep := report{Counts: w.counts, Maxes: w.maxes, Findings: w.findings}
	serial := uint64(0)
	global := 0
loop:
	for pn := range p.Phases {
		ph := &p.Phases[pn]
		n := p.count(ph, tier)
		for i := 0; i < n; i++ {
			mine := global%nsh == shard
			if ph.Solo {
				mine = shard == 0
			}
			global++
			if !mine {
				continue
			}
			if w.mmap != nil {
				serial++
				binary.LittleEndian.PutUint32(w.mmap[12:], uint32(pn)<<28|uint32(i))
				binary.LittleEndian.PutUint32(w.mmap[8:], 0)
				binary.LittleEndian.PutUint64(w.mmap[0:], serial)
			}
			msg := w.runCase(p, pn, i, seed, tier)
			if msg != "" {
				rep.Violation = msg
				rep.Case = fmt.Sprintf("%s:%d", ph.Name, i)
				break loop
			}
		}
	}
	rep.Evals = w.evals
	rep.Samples = w.samples
	rep.Done = true
	// distinct hashes
	hf, err := os.Create(filepath.Join(dir, fmt.Sprintf("hashes.%d", shard)))
	if err == nil {
		bw := bufio.NewWriter(hf)
		var b [8]byte
		for h := range w.distinct {
			binary.LittleEndian.PutUint64(b[:], h)
			bw.Write(b[:])
		}
		bw.Flush()
		hf.Close()
	}
	b, _ := json.Marshal(rep)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("report.%d.tmp", shard)), b, 0o666)
	os.Rename(filepath.Join(dir, fmt.Sprintf("report.%d.tmp", shard)), filepath.Join(dir, fmt.Sprintf("report.%d", shard)))
	os.Exit(0)
}

// procCPU returns the CPU seconds used and the resident bytes of a process.
func procCPU(pid int) (float64, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	i := bytes.LastIndexByte(b, ')')
	fs := strings.Fields(string(b[i+1:]))
	if len(fs) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseFloat(fs[11], 64)
	s, _ := strconv.ParseFloat(fs[12], 64)
	rss, _ := strconv.ParseInt(fs[21], 10, 64)
	return (u + s) / 100, rss * int64(os.Getpagesize())
}

// anyRunning reports whether any thread of the process is runnable or in the kernel on its own account.
func anyRunning(pid int) bool {
	ts, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return true
	}
	for _, t := range ts {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, t.Name()))
		if err != nil {
			continue
		}
		if i := bytes.LastIndexByte(b, ')'); i >= 0 && i+2 < len(b) && (b[i+2] == 'R' || b[i+2] == 'D') {
			return true
		}
	}
	return false
}

const (
	idleLimit = 150 * time.Second // all threads asleep with nothing to wake them
	hangCPU   = 90.0              // CPU seconds on one case
	rssLimit  = 4 << 30           // per worker
	soloRSS   = 8 << 30
)

type childResult struct {
	peakRSS int64   // largest resident size seen, MB
	peakCPU float64 // most CPU seconds seen on one case
	rep     *report
	crash   string // description if the worker died
	caseID  string
	now     string
	incon   string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// superviseWorker runs one worker to its end.
func superviseWorker(p *Prop, tier string, seed uint64, shard, nsh int, dir string, deadline time.Time) (res childResult) {
	var peakRSS int64
	var peakCPU float64
	defer func() { res.peakRSS, res.peakCPU = peakRSS>>20, peakCPU }()
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", p.ID, tier, strconv.FormatUint(seed, 10), strconv.Itoa(shard), strconv.Itoa(nsh), dir)
	errf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", shard)))
	cmd.Stderr = errf
	cmd.Stdout = errf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS="+strconv.Itoa(workerProcs(p)))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return childResult{incon: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var lastSerial uint64
	var cpuAt, cpuLast float64
	idleSince := time.Now()
	readNow := func() (uint64, int, int, string) {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("now.%d", shard)))
		if err != nil || len(b) < 16 {
			return 0, 0, 0, ""
		}
		serial := binary.LittleEndian.Uint64(b)
		n := int(binary.LittleEndian.Uint32(b[8:]))
		id := binary.LittleEndian.Uint32(b[12:])
		if 16+n > len(b) {
			n = 0
		}
		return serial, int(id >> 28), int(id & (1<<28 - 1)), string(b[16 : 16+n])
	}
	caseOf := func() (string, string) {
		_, pn, i, now := readNow()
		if pn >= len(p.Phases) {
			pn = 0
		}
		return fmt.Sprintf("%s:%d", p.Phases[pn].Name, i), now
	}
	tick := time.NewTicker(150 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			errf.Close()
			if err == nil {
				b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("report.%d", shard)))
				rep := &report{}
				if rerr == nil && json.Unmarshal(b, rep) == nil && rep.Done {
					return childResult{rep: rep, caseID: rep.Case}
				}
				return childResult{incon: "worker left no report"}
			}
			text := tailHead(filepath.Join(dir, fmt.Sprintf("stderr.%d", shard)), 3000)
			id, now := caseOf()
			full, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", shard)))
			if bytes.Contains(full, []byte("harnessBug")) || !bytes.Contains(full, []byte("github.com/forsyth/jsonpath")) {
				return childResult{incon: fmt.Sprintf("worker failed on %s (%s): %v\n%s", id, now, err, text)}
			}
			return childResult{crash: fmt.Sprintf("process died: %v\n%s", err, text), caseID: id, now: now}
		case <-tick.C:
			cpu, rss := procCPU(cmd.Process.Pid)
			serial, pn, _, _ := readNow()
			if serial != lastSerial {
				lastSerial, cpuAt = serial, cpu
				idleSince = time.Now()
			}
			if cpu > cpuLast+0.05 || anyRunning(cmd.Process.Pid) {
				cpuLast = cpu
				idleSince = time.Now()
			}
			peakRSS, peakCPU = max(peakRSS, rss), max(peakCPU, cpu-cpuAt)
			limit := int64(rssLimit)
			if pn < len(p.Phases) && p.Phases[pn].Solo {
				limit = soloRSS
			}
			kill := ""
			if cpu-cpuAt > hangCPU {
				kill = fmt.Sprintf("no progress in %.0f CPU seconds", cpu-cpuAt)
			} else if time.Since(idleSince) > idleLimit {
				kill = "blocked: no thread has run and no progress was made for a long time"
			} else if rss > limit {
				kill = fmt.Sprintf("memory use of %d MB", rss>>20)
			}
			if kill != "" {
				id, now := caseOf()
				cmd.Process.Kill()
				<-done
				errf.Close()
				return childResult{crash: kill, caseID: id, now: now}
			}
			if time.Now().After(deadline) {
				id, now := caseOf()
				cmd.Process.Kill()
				<-done
				errf.Close()
				return childResult{incon: fmt.Sprintf("watchdog expired during %s (%s)", id, now)}
			}
		}
	}
}

func workerProcs(p *Prop) int {
	if p.Race {
		return 8
	}
	return 2
}

func tailHead(file string, n int) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	if len(b) > n {
		return string(b[:n/2]) + "\n...\n" + string(b[len(b)-n/2:])
	}
	return string(b)
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Phase    string `json:"phase"`
	Index    int    `json:"index"`
	Message  string `json:"message"`
	Doing    string `json:"doing,omitempty"`
	How      string `json:"how"`
}

func writeReplay(p *Prop, tier string, seed uint64, caseID, msg, now string) string {
	ph, idx := caseID, 0
	if i := strings.LastIndexByte(caseID, ':'); i >= 0 {
		ph = caseID[:i]
		idx, _ = strconv.Atoi(caseID[i+1:])
	}
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o777)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-s%d.json", p.ID, ph, idx, seed))
	b, _ := json.MarshalIndent(replayFile{p.ID, tier, seed, ph, idx, msg, now, "run: /verif/check.sh replay " + name}, "", " ")
	os.WriteFile(name, append(b, '\n'), 0o666)
	return name
}

// checkMain runs a property's check.
func checkMain(id string) int {
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	start := time.Now()
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	deadline := start.Add(limit)
	nsh := runtime.NumCPU()
	if nsh > 8 {
		nsh = 8
	}
	if p.Workers > 0 {
		nsh = p.Workers
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "vp-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(dir)
	os.Setenv("VERIF_SCRATCH", dir)
	res := make([]childResult, nsh)
	ch := make(chan int)
	for s := 0; s < nsh; s++ {
		go func(s int) {
			res[s] = superviseWorker(p, tier, seed, s, nsh, dir, deadline)
			ch <- s
		}(s)
	}
	for s := 0; s < nsh; s++ {
		<-ch
	}
	tot := report{Counts: map[string]int64{}, Maxes: map[string]int64{}, Findings: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	viol := 0
	incon := ""
	peakRSS, peakCPU := int64(0), 0.0
	for s, r := range res {
		peakRSS, peakCPU = max(peakRSS, r.peakRSS), max(peakCPU, r.peakCPU)
		if r.incon != "" {
			incon = r.incon
		}
		msg, now := r.crash, r.now
		if r.rep != nil {
			tot.Evals += r.rep.Evals
			for k, v := range r.rep.Counts {
				tot.Counts[k] += v
			}
			for k, v := range r.rep.Findings {
				tot.Findings[k] += v
			}
			for k, v := range r.rep.Maxes {
				if v > tot.Maxes[k] {
					tot.Maxes[k] = v
				}
			}
			tot.Samples = append(tot.Samples, r.rep.Samples...)
			msg = r.rep.Violation
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", s))); err == nil {
				for ; len(b) >= 8; b = b[8:] {
					distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
				}
			}
		}
		if msg != "" {
			viol++
			file := writeReplay(p, tier, seed, r.caseID, msg, now)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			m := msg
			if now != "" {
				m += "\nwhile: " + now
			}
			if len(m) > 3000 {
				m = m[:3000] + "..."
			}
			fmt.Printf("  case %s: %s\n", r.caseID, strings.ReplaceAll(printable(m), "\n", "\n  "))
		}
	}
	if len(tot.Samples) > 8 {
		tot.Samples = tot.Samples[:8]
	}
	listed := knownFindings()
	keys := []string{}
	for k := range tot.Findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		found := false
		for _, f := range listed {
			if f.Property == p.ID && f.Key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, f.Key, f.What)
				found = true
			}
		}
		if !found {
			viol++
			file := writeReplay(p, tier, seed, "finding:0", "unlisted finding "+k, "")
			fmt.Printf("VIOLATION property=%s replay=%s\n  unlisted finding %s\n", p.ID, file, k)
		}
	}
	cov := map[string]interface{}{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             tot.Samples,
		"workers":             nsh,
		"watchdog":            map[string]interface{}{"peak_rss_mb": peakRSS, "most_cpu_s_in_one_case": peakCPU},
	}
	ph := map[string]int{}
	for _, f := range p.Phases {
		ph[f.Name] = p.count(&f, tier)
	}
	cov["cases_per_phase"] = ph
	if len(tot.Counts) > 0 {
		cov["observed"] = tot.Counts
	}
	if len(tot.Maxes) > 0 {
		cov["maxima"] = tot.Maxes
	}
	if len(keys) > 0 {
		cov["known_findings_seen"] = keys
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o777)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0o666); err != nil {
		fmt.Println(err)
		incon = err.Error()
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", p.ID, tier, seed, tot.Evals, len(distinct), viol, time.Since(start).Seconds())
	switch {
	case viol > 0:
		return 1
	case incon != "":
		fmt.Println("INCONCLUSIVE:", incon)
		return 3
	case p.Floor > 0 && int64(len(distinct))*1000 < tot.Evals*int64(p.Floor) || len(distinct) == 0:
		fmt.Println("INCONCLUSIVE: too few non-trivial cases observed")
		return 3
	}
	return 0
}

// printable returns s as text that can be shown on any terminal or log.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r != '\n' && r != '\t' && (r < 0x20 || r == 0x7f) {
			return '?'
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
}

// replayMain re-runs one recorded case.
func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 3
	}
	p := props[r.Property]
	dir, _ := os.MkdirTemp("", "vp-replay-")
	defer os.RemoveAll(dir)
	os.Setenv("VERIF_SCRATCH", dir)
	for pn := range p.Phases {
		if p.Phases[pn].Name == r.Phase {
			w := newWorker()
			msg := w.runCase(p, pn, r.Index, r.Seed, r.Tier)
			if msg != "" {
				fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", p.ID, file, printable(msg))
				return 1
			}
			fmt.Println("the case passes")
			return 0
		}
	}
	fmt.Println("no such phase", r.Phase)
	return 3
}

type knownFinding struct{ Property, Key, What string }

// knownFindings reads the committed list: lines "finding: property=<id> key=<key> <what>".
func knownFindings() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var l []knownFinding
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(line, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			l = append(l, knownFinding{f[1][9:], f[2][4:], f[3]})
		}
	}
	return l
}
