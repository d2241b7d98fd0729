package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one decided instance of a rule.
type Oblig struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Where     string `json:"where,omitempty"`
	Detail    string `json:"detail,omitempty"`
}

func (o *Oblig) key() string { return o.Rule + " | " + o.Construct }

// Report collects what one check decided.
type Report struct {
	id     string
	w      *World
	start  time.Time
	obs    []*Oblig
	funcs  map[string]bool
	instr  int
	calls  int
	loops  int
	merged map[string]*Oblig
	mode   subMode
	quiet  bool
}

// Analyses of one check are independent of each other: they are shared out to
// several processes, and what each of them decided is put together again.
type subMode struct {
	dry   bool   // only count the analyses
	n     int    // analyses met so far
	claim string // directory in which analyses are claimed
	inner int    // nesting depth
}

// mine: this process is the one that does the analysis.
func (r *Report) mine() bool {
	if r.mode.inner > 0 {
		return true
	}
	r.mode.n++
	if r.mode.dry {
		return false
	}
	if r.mode.claim == "" {
		return true
	}
	f, err := os.OpenFile(filepath.Join(r.mode.claim, fmt.Sprint("sub", r.mode.n)), os.O_CREATE|os.O_EXCL, 0o600)
	if err != nil {
		return false
	}
	f.Close()
	return true
}

type partial struct {
	Obs   []*Oblig
	Funcs []string
	Instr int
	Calls int
	Loops int
}

func (r *Report) write(path string) error {
	p := partial{Obs: r.obs, Instr: r.instr, Calls: r.calls, Loops: r.loops}
	for f := range r.funcs {
		p.Funcs = append(p.Funcs, f)
	}
	b, err := json.Marshal(p)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o600)
}

func (r *Report) read(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var p partial
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	for _, o := range p.Obs {
		r.add(o.Rule, o.Construct, o.OK, o.Where, o.Detail)
	}
	for _, f := range p.Funcs {
		r.funcs[f] = true
	}
	r.instr, r.calls, r.loops = r.instr+p.Instr, r.calls+p.Calls, r.loops+p.Loops
	return nil
}

func newReport(id string) *Report {
	return &Report{id: id, start: time.Now(), funcs: map[string]bool{}, merged: map[string]*Oblig{}}
}

// perform runs the check; an internal error is an undecided property.
func (r *Report) perform(c *Check) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("EGTS_TRACE") != "" {
				panic(x)
			}
			r.add("analysis", "completes", false, "", fmt.Sprint("internal error: ", x))
		}
	}()
	c.run(r)
}

const maxProcs = 8

// performAll shares the analyses of the check out to several processes.
func (r *Report) performAll(c *Check, repo string) {
	dry := newReport(r.id)
	dry.w, dry.mode.dry = r.w, true
	dry.perform(c)
	n := min(dry.mode.n, maxProcs)
	dir, err := os.MkdirTemp("", "egtsverif")
	exe, err2 := os.Executable()
	if n < 2 || err != nil || err2 != nil {
		r.perform(c)
		return
	}
	defer os.RemoveAll(dir)
	r.mode.claim = dir
	var wait []func()
	for i := 1; i < n; i++ {
		out := filepath.Join(dir, fmt.Sprint("part", i))
		cmd := exec.Command(exe, "part", r.id, dir, out)
		cmd.Stderr = os.Stderr
		cmd.Env = append(os.Environ(), "REPO_DIR="+repo)
		if err := cmd.Start(); err != nil {
			continue // the others do its share
		}
		wait = append(wait, func() {
			err := cmd.Wait()
			if err == nil {
				err = r.read(out)
			}
			if err != nil {
				r.add("analysis", "completes", false, "", "a part of the analysis did not finish: "+err.Error())
			}
		})
	}
	r.perform(c)
	for _, f := range wait {
		f()
	}
	sort.SliceStable(r.obs, func(i, j int) bool { return r.obs[i].key() < r.obs[j].key() })
}

// runPart does the analyses this process manages to claim.
func runPart(id, repo, dir, out string) int {
	c := checks[id]
	r := newReport(id)
	w, err := loadWorld(repo)
	if c == nil || err != nil {
		return 2
	}
	r.w, r.mode.claim = w, dir
	r.perform(c)
	if err := r.write(out); err != nil {
		return 2
	}
	return 0
}

func (r *Report) add(rule, construct string, ok bool, where, detail string) {
	if r.quiet {
		return
	}
	k := rule + " | " + construct
	if o := r.merged[k]; o != nil {
		if o.OK && !ok {
			o.OK, o.Where, o.Detail = false, where, detail
		}
		return
	}
	o := &Oblig{rule, construct, ok, where, detail}
	if ok {
		o.Detail = ""
	}
	r.merged[k] = o
	r.obs = append(r.obs, o)
}

// use records what an analysis covered.
func (r *Report) use(an *Analysis) {
	for f := range an.funcs {
		r.funcs[short(f.String())] = true
	}
	r.instr += an.nInstr
	r.calls += an.calls
	r.loops += len(an.loops)
}

// sub runs one analysis with a fresh engine; an analysis that cannot be
// completed leaves the obligation undecided, which is reported.
func (r *Report) sub(rule, construct string, f func() *Analysis) bool {
	if !r.mine() {
		return true
	}
	r.mode.inner++
	defer func() { r.mode.inner-- }()
	reset()
	r.w.resetMemo()
	var an *Analysis
	curAnalysis = nil
	msg := try(func() { an = f() })
	symHook = nil
	if an != nil {
		r.use(an)
	}
	if msg != "" {
		where := ""
		if curAnalysis != nil {
			r.use(curAnalysis)
			for i := len(curAnalysis.stack) - 1; i >= 0; i-- {
				where += " in " + short(curAnalysis.stack[i].String())
			}
		}
		r.add(rule, construct, false, strings.TrimSpace(where), "undecided: "+msg)
		return false
	}
	return true
}

var curAnalysis *Analysis

func start(w *World) *Analysis {
	curAnalysis = newAnalysis(w)
	return curAnalysis
}

type Check struct {
	id    string
	rule  string
	level string
	min   int // obligations confirmed by hand on the tree the check was written for
	run   func(r *Report)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func knownFindings(dir, id string) map[string]bool {
	out := map[string]bool{}
	f, err := os.Open(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		p := "known: property=" + id + " "
		if strings.HasPrefix(l, p) {
			out[strings.TrimSpace(strings.SplitN(strings.TrimPrefix(l, p), " ## ", 2)[0])] = true
		}
	}
	return out
}

func runCheck(id, repo, verif string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	r := newReport(id)
	w, err := loadWorld(repo)
	if err != nil {
		r.add("load", "type-checked program", false, repo, err.Error())
	} else {
		r.w = w
		r.performAll(c, repo)
		if len(r.obs) < c.min {
			r.add("coverage", "number of obligations", false, "", fmt.Sprintf("only %d obligations were generated, at least %d are expected", len(r.obs), c.min))
		}
	}
	return finish(r, c, verif)
}

func finish(r *Report, c *Check, verif string) int {
	known := knownFindings(verif, r.id)
	ok, nKnown := 0, 0
	var bad []*Oblig
	for _, o := range r.obs {
		switch {
		case o.OK:
			ok++
		case known[o.key()]:
			nKnown++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, o.key())
		default:
			bad = append(bad, o)
		}
	}
	var fs []string
	for f := range r.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	var samples []interface{}
	step := max(1, len(r.obs)/12)
	for i := 0; i < len(r.obs); i += step {
		samples = append(samples, r.obs[i])
	}
	tier := env("VERIF_TIER", "quick")
	var seed int
	fmt.Sscan(env("VERIF_SEED", "1"), &seed)
	cov := map[string]interface{}{
		"obligations":              len(r.obs),
		"discharged":               ok,
		"explanation":              c.rule,
		"rule":                     c.rule,
		"samples":                  samples,
		"functions_analysed":       fs,
		"instructions_interpreted": r.instr,
		"calls_resolved":           r.calls,
		"loops_summarised":         r.loops,
		"known_findings":           nKnown,
		"trusted_base":             []string{"go/packages, go/types and go/ssa of golang.org/x/tools v0.52.0", "models of the standard library in analyzer/models.go", "layout tables in analyzer/spec_*.go"},
		"checker_cmd":              "./check.sh " + r.id,
	}
	if len(bad) > 0 {
		cov["violated"] = bad
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": tier, "seed": seed, "level": c.level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(bad),
		"assumptions": []string{"float arithmetic is treated as exact rational arithmetic", "int is 64 bits wide", "no allocation fails; the race detector's memory model is not consulted"},
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, r.id+".json")
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d instructions, %.1fs\n", r.id, len(r.obs), ok, len(fs), r.instr, time.Since(r.start).Seconds())
	for i, o := range bad {
		if i >= 20 {
			fmt.Printf("  ... %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  violated: %s at %s: %s\n", o.key(), o.Where, o.Detail)
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
		return 1
	}
	return 0
}

// fnPos names a function and where it is.
func (r *Report) fnPos(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return short(fn.String()) + " (" + r.w.posStr(fn.Pos()) + ")"
}
