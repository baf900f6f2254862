// Command pv runs the monitors of one property against the code of /repo it is
// linked with. See /verif/DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A Property has a list of cases, which is fixed by tier and seed.
type Property struct {
	ID    string
	Level string
	Rule  string
	// Workers is how many cases run at once (1 for cases which set globals).
	Workers int
	Cases   func(p Plan) []Case
	// Finish, if set, judges what was observed over all cases.
	Finish      func(*Recorder)
	Assumptions []string
}

type Plan struct {
	Thorough bool
	Seed     int64
}

// Pick returns q in the quick tier and t in the thorough one.
func (p Plan) Pick(q, t int) int {
	if p.Thorough {
		return t
	}
	return q
}

type Case struct {
	Name string
	Run  func(*Ctx)
	// Serial cases run alone, after the others.
	Serial bool
}

// Ctx is what a case reports to.
type Ctx struct {
	R    *rand.Rand
	Name string
	rec  *Recorder
	plan Plan
	lite bool // few of the variants of a case
}

type Recorder struct {
	mu         sync.Mutex
	evals      int
	distinct   map[uint64]struct{}
	observed   map[string]int
	samples    []string
	sampled    map[string]int
	violations []violation
	skips      []string
	known      map[string]string
	knownHit   map[string]bool
}

type violation struct {
	Case, What, Detail string
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// Eval counts an evaluation of the oracle.
func (c *Ctx) Eval() {
	c.rec.mu.Lock()
	c.rec.evals++
	c.rec.mu.Unlock()
}

func (c *Ctx) EvalN(n int) {
	c.rec.mu.Lock()
	c.rec.evals += n
	c.rec.mu.Unlock()
}

// Distinct counts an evaluation that is non-trivial by the rule of the property, once per key.
func (c *Ctx) Distinct(format string, args ...interface{}) {
	k := hash64(fmt.Sprintf(format, args...))
	c.rec.mu.Lock()
	c.rec.distinct[k] = struct{}{}
	c.rec.mu.Unlock()
}

// Saw counts something observed.
func (c *Ctx) Saw(what string, n int) {
	c.rec.mu.Lock()
	c.rec.observed[what] += n
	c.rec.mu.Unlock()
}

func (c *Ctx) Sample(format string, args ...interface{}) {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	fam := strings.SplitN(c.Name, "/", 2)[0]
	if c.rec.sampled[fam] >= 2 || len(c.rec.samples) >= 24 {
		return
	}
	c.rec.sampled[fam]++
	c.rec.samples = append(c.rec.samples, c.Name+": "+fmt.Sprintf(format, args...))
}

// Fail reports a violation.
func (c *Ctx) Fail(format string, args ...interface{}) {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	if len(c.rec.violations) < 50 {
		c.rec.violations = append(c.rec.violations, violation{Case: c.Name, What: fmt.Sprintf(format, args...)})
	}
}

func (c *Ctx) Check(ok bool, format string, args ...interface{}) bool {
	c.Eval()
	if !ok {
		c.Fail(format, args...)
	}
	return ok
}

// Skip notes that a monitor could not be applied to this tree (inconclusive).
func (c *Ctx) Skip(format string, args ...interface{}) {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	c.rec.skips = append(c.rec.skips, c.Name+": "+fmt.Sprintf(format, args...))
}

// KnownOrFail reports a violation unless it is listed under the key.
func (c *Ctx) KnownOrFail(key, format string, args ...interface{}) {
	c.rec.mu.Lock()
	_, ok := c.rec.known[key]
	if ok {
		c.rec.knownHit[key] = true
	}
	c.rec.mu.Unlock()
	if !ok {
		c.Fail(format, args...)
	}
}

func (c *Ctx) failed() bool {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	return len(c.rec.violations) > 0
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

var (
	verifDir = flag.String("verif", "/verif", "")
	repoDir  = flag.String("repo", "/repo", "")
	only     = flag.String("only", "", "run only the cases whose name has this prefix")
	child    = flag.Bool("child", false, "")
	list     = flag.Bool("list", false, "")
	verbose  = flag.Bool("v", false, "")
	probe    = flag.String("probe", "", "internal: run one probe in this process")
)

func main() {
	flag.Parse()
	if *probe != "" {
		os.Exit(runProbe(*probe, flag.Args()))
	}
	id := flag.Arg(0)
	p := properties[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	plan := Plan{Thorough: os.Getenv("VERIF_TIER") == "thorough", Seed: 1}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			n = int64(hash64(s) >> 1)
		}
		plan.Seed = n
	}
	if *list {
		for _, c := range p.Cases(plan) {
			fmt.Println(c.Name)
		}
		return
	}
	if !*child {
		os.Exit(supervise(id, plan))
	}
	os.Exit(run(p, plan))
}

func tier(plan Plan) string {
	if plan.Thorough {
		return "thorough"
	}
	return "quick"
}

// supervise runs the property in a child process, so that a crash of the code
// under test (a panic in one of its goroutines, say) is a verdict too.
func supervise(id string, plan Plan) int {
	start := time.Now()
	args := []string{"-child", "-verif", *verifDir, "-repo", *repoDir}
	if *only != "" {
		args = append(args, "-only", *only)
	}
	if *verbose {
		args = append(args, "-v")
	}
	args = append(args, id)
	cmd := exec.Command(os.Args[0], args...)
	var stdout, stderr bytes.Buffer
	cmd.Stdout = io.MultiWriter(os.Stdout, &stdout)
	cmd.Stderr = io.MultiWriter(os.Stderr, &stderr)
	raceLog := ""
	cmd.Env = os.Environ()
	if raceEnabled {
		wd, _ := os.Getwd()
		raceLog = filepath.Join(wd, "race")
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog)
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	limit := 840 * time.Second
	if plan.Thorough {
		limit = 6 * time.Hour
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	select {
	case <-done:
	case <-time.After(limit):
		hung = true
		cmd.Process.Kill()
		<-done
	}
	code := cmd.ProcessState.ExitCode()
	races := 0
	if raceLog != "" {
		var text []byte
		files, _ := filepath.Glob(raceLog + ".*")
		for _, f := range files {
			b, _ := os.ReadFile(f)
			text = append(text, b...)
		}
		// Only races in which the code under test takes part count.
		blocks := strings.Split(string(text), "WARNING: DATA RACE")
		for _, b := range blocks[1:] {
			if raceInCode(b) {
				races++
				if races == 1 {
					path := writeReplay(id, plan, violation{Case: "race detector", What: "data race", Detail: b})
					fmt.Printf("data race:%s\nVIOLATION property=%s replay=%s\n", printable(clip(b, 3000)), id, path)
				}
			}
		}
		noteRaces(id, races, len(blocks)-1)
	}
	if races > 0 {
		return 1
	}
	if (code == 0 || code == 1) && !hung {
		return code
	}
	text := stderr.String()
	what := ""
	switch {
	case hung:
		what = "an operation did not terminate"
	case strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:"):
		what = "the process crashed"
	}
	if what == "" {
		return 2
	}
	path := writeReplay(id, plan, violation{Case: lastCase(stdout.String() + text), What: what, Detail: tail(text, 6000)})
	writeEvidence(properties[id], plan, newRecorder(), time.Since(start).Seconds(), 1, what)
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", printable(what), id, path)
	return 1
}

var frameRE = regexp.MustCompile(`(?m)^\s+(pol|pol/[\w/]+)\.`)

func raceInCode(block string) bool {
	// a frame of the code under test: "  pol/bp.VerifyRange()" etc.
	return frameRE.MatchString(block)
}

// noteRaces adds the verdict of the race detector to the evidence file.
func noteRaces(id string, races, blocks int) {
	p := filepath.Join(*verifDir, "evidence", id+".json")
	b, err := os.ReadFile(p)
	if err != nil {
		return
	}
	var ev map[string]interface{}
	if json.Unmarshal(b, &ev) != nil {
		return
	}
	cov := ev["coverage"].(map[string]interface{})
	cov["race_reports"] = blocks
	cov["race_reports_in_code_under_test"] = races
	if races > 0 {
		ev["violations"] = races
	}
	b, _ = json.MarshalIndent(ev, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func lastCase(s string) string {
	i := strings.LastIndex(s, "CASE ")
	if i < 0 {
		return "?"
	}
	return strings.SplitN(s[i+5:], "\n", 2)[0]
}

func newRecorder() *Recorder {
	return &Recorder{
		distinct: map[uint64]struct{}{}, observed: map[string]int{}, sampled: map[string]int{},
		known: map[string]string{}, knownHit: map[string]bool{},
	}
}

// knownFindings reads the committed list: finding: property=<id> key=<key> <text>
func knownFindings(id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*verifDir, "known_findings.txt"))
	if err != nil {
		return res
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == id {
			res[m[2]] = m[3]
		}
	}
	return res
}

// quickBudget is when quick runs stop starting cases.
const quickBudget = 500 * time.Second

func run(p *Property, plan Plan) int {
	start := time.Now()
	rec := newRecorder()
	rec.known = knownFindings(p.ID)
	cases := p.Cases(plan)
	if *only != "" {
		var sel []Case
		for _, c := range cases {
			if strings.HasPrefix(c.Name, *only) {
				sel = append(sel, c)
			}
		}
		cases = sel
	}
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	ran, late := 0, 0
	runAll := func(workers int, serial bool) {
		queue := make(chan Case)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c := range queue {
					runCase(p, plan, rec, c)
				}
			}()
		}
		for _, c := range cases {
			if c.Serial != serial {
				continue
			}
			rec.mu.Lock()
			stop := len(rec.violations) > 0
			rec.mu.Unlock()
			if stop {
				break
			}
			// slow machines see less of it
			if !plan.Thorough && time.Since(start) > quickBudget {
				late++
				continue
			}
			ran++
			queue <- c
		}
		close(queue)
		wg.Wait()
	}
	runAll(workers, false)
	runAll(1, true)
	if p.Finish != nil && *only == "" && len(rec.violations) == 0 {
		p.Finish(rec)
	}
	rec.observed["cases_run"] = ran
	if late > 0 {
		rec.observed["cases_left_out_for_lack_of_time"] = late
		fmt.Printf("%d cases left out for lack of time\n", late)
	}
	writeEvidence(p, plan, rec, time.Since(start).Seconds(), len(rec.violations), "")
	for k := range rec.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, rec.known[k])
	}
	for _, s := range rec.skips {
		fmt.Println("inconclusive:", s)
	}
	if len(rec.violations) == 0 {
		fmt.Printf("%s: held on %d evaluations (%d distinct), %d cases, %.1fs\n", p.ID, rec.evals, len(rec.distinct), ran, time.Since(start).Seconds())
		return 0
	}
	for i, v := range rec.violations {
		if i >= 5 {
			break
		}
		path := writeReplay(p.ID, plan, v)
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Case, printable(clip(v.What, 1000)), p.ID, path)
	}
	return 1
}

func runCase(p *Property, plan Plan, rec *Recorder, c Case) {
	ctx := &Ctx{Name: c.Name, rec: rec, plan: plan}
	ctx.R = rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%d/%s/%s", plan.Seed, p.ID, c.Name)) >> 1)))
	if *verbose {
		fmt.Println("CASE", c.Name)
	}
	t := time.Now()
	defer func() {
		if *verbose {
			fmt.Printf("DONE %s %.2fs\n", c.Name, time.Since(t).Seconds())
		}
		if r := recover(); r != nil {
			if s, ok := r.(skipCase); ok {
				ctx.Skip("%s", string(s))
				return
			}
			rec.mu.Lock()
			rec.violations = append(rec.violations, violation{Case: c.Name, What: fmt.Sprintf("panic: %v", r), Detail: string(debug.Stack())})
			rec.mu.Unlock()
		}
	}()
	c.Run(ctx)
}

// skipCase, when panicked with, ends a case as inconclusive.
type skipCase string

func writeReplay(id string, plan Plan, v violation) string {
	dir := filepath.Join(*verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", id, hash64(v.Case+v.What)&0xffffffff))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": id, "seed": plan.Seed, "tier": tier(plan), "case": v.Case, "what": v.What, "detail": v.Detail,
		"replay": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s -only '%s'", plan.Seed, tier(plan), id, v.Case),
	}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func writeEvidence(p *Property, plan Plan, rec *Recorder, wall float64, violations int, note string) {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	sort.Strings(rec.samples)
	cov := map[string]interface{}{
		"evaluations":         rec.evals,
		"distinct_nontrivial": len(rec.distinct),
		"rule":                p.Rule,
		"samples":             append([]string{}, rec.samples...),
		"observed":            rec.observed,
	}
	if len(rec.skips) > 0 {
		cov["inconclusive"] = rec.skips
	}
	if note != "" {
		cov["note"] = note
	}
	if *only != "" {
		cov["only"] = *only
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier(plan), "seed": plan.Seed, "level": level,
		"coverage": cov, "wall_s": wall, "violations": violations,
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(*verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// printable replaces what is not text.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' || r >= ' ' && r != 0x7f && r != 0xfffd {
			return r
		}
		return '?'
	}, s)
}
