package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A Finding is a violated obligation. Its key names rule and construct, not
// the line.
type Finding struct {
	Rule   string `json:"rule"`
	Where  string `json:"where"`
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

type Report struct {
	id       string
	prog     *Program
	findings map[string]Finding
	counts   map[string]int
	samples  []string
	fns      map[string]bool
	rules    []string
	excluded []string
}

func newReport(id string, p *Program) *Report {
	return &Report{id: id, prog: p, findings: map[string]Finding{}, counts: map[string]int{}, fns: map[string]bool{}}
}

func (r *Report) fail(rule, construct, where, format string, args ...interface{}) {
	k := rule + "@" + construct
	if _, ok := r.findings[k]; ok {
		return
	}
	r.findings[k] = Finding{Rule: rule, Where: where, Key: k, Detail: fmt.Sprintf(format, args...)}
}

func (r *Report) count(what string, n int) { r.counts[what] += n }

// need fails the check if fewer than min instances of what were analysed.
func (r *Report) need(what string, min int) {
	if len(r.findings) == 0 && r.counts[what] < min && !r.isPart() {
		r.fail("coverage", what, "-", "only %d instances of %q analysed, at least %d expected", r.counts[what], what, min)
	}
}

func (r *Report) sample(format string, args ...interface{}) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(format, args...))
	}
}

func (r *Report) rule(s string) { r.rules = append(r.rules, s) }

// engineStats adds an engine's statistics and turns what it could not decide
// into findings.
func (r *Report) engineStats(e *Engine) {
	r.count("abstract_steps", e.steps)
	r.count("abstract_states_at_joins", e.arrivals)
	r.count("states_merged", e.dups)
	r.count("widenings", e.widened)
	for fn := range e.fnsSeen {
		r.fns[fn.String()] = true
	}
	for what, pos := range e.undecided {
		r.fail("undecided", what, posString(r.prog, pos), "the analysis could not decide: %s", what)
	}
}

// partEnv selects one part of a check that runs in several processes.
const partEnv = "VERIF_PART"

func (r *Report) isPart() bool { return os.Getenv(partEnv) != "" }

type partResult struct {
	Findings map[string]Finding
	Counts   map[string]int
	Fns      []string
	Samples  []string
}

// parts runs f for 0..n-1, each in its own process, and merges the reports.
func (r *Report) parts(n int, f func(i int)) {
	if s := os.Getenv(partEnv); s != "" {
		i, err := strconv.Atoi(s)
		if err != nil || i >= n {
			panic("bad part")
		}
		f(i)
		return
	}
	if n == 1 || os.Getenv("VERIF_SERIAL") != "" {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	outs := make([][]byte, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	slots := make(chan bool, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			c := exec.Command(exe, r.id)
			c.Env = append(os.Environ(), fmt.Sprintf("%s=%d", partEnv, i))
			c.Stderr = os.Stderr
			outs[i], errs[i] = c.Output()
		}(i)
	}
	wg.Wait()
	for i := range outs {
		var p partResult
		s := string(outs[i])
		k := strings.LastIndex(s, "\nPART ")
		if k < 0 {
			r.fail("internal", "part", "-", "part %d of the analysis gave no answer: %v", i, errs[i])
			continue
		}
		if debugLevel != "" {
			fmt.Print(s[:k+1])
		}
		if err := json.Unmarshal([]byte(s[k+6:]), &p); err != nil {
			r.fail("internal", "part", "-", "part %d of the analysis gave no answer: %v", i, err)
			continue
		}
		for k, f := range p.Findings {
			if _, ok := r.findings[k]; !ok {
				r.findings[k] = f
			}
		}
		for k, v := range p.Counts {
			r.counts[k] += v
		}
		for _, f := range p.Fns {
			r.fns[f] = true
		}
		for _, s := range p.Samples {
			r.sample("%s", s)
		}
	}
}

func (r *Report) finishPart() int {
	p := partResult{Findings: r.findings, Counts: r.counts, Samples: r.samples}
	for f := range r.fns {
		p.Fns = append(p.Fns, f)
	}
	b, _ := json.Marshal(p)
	fmt.Printf("\nPART %s\n", b)
	return 0
}

func (r *Report) finish(verif, tier string, start time.Time) int {
	if r.isPart() {
		return r.finishPart()
	}
	known := readKnown(filepath.Join(verif, "known_findings.txt"), r.id)
	var keys []string
	for k := range r.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var viol []Finding
	for _, k := range keys {
		if d, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, d)
			continue
		}
		viol = append(viol, r.findings[k])
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	expl := "Static analysis of the current source. Rules: " + strings.Join(r.rules, " | ")
	if len(r.excluded) > 0 {
		expl += " Not covered: " + strings.Join(r.excluded, " | ")
	}
	cov := map[string]interface{}{"explanation": expl, "functions_analysed": len(fns)}
	for k, v := range r.counts {
		cov[k] = v
	}
	if len(fns) > 60 {
		fns = fns[:60]
	}
	cov["functions"] = fns
	if len(r.samples) > 0 {
		cov["samples"] = r.samples
	}
	vs := []interface{}{}
	for _, f := range viol {
		vs = append(vs, f)
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": tier, "seed": 1, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if len(viol) > 0 {
		cov["findings"] = vs
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0777)
	b, _ := json.MarshalIndent(ev, "", "  ")
	path := filepath.Join(dir, r.id+".json")
	if err := os.WriteFile(path, append(b, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, f := range viol {
		fmt.Printf("%s: [%s] %s\n    %s\n", f.Where, f.Rule, f.Key, f.Detail)
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
		return 1
	}
	fmt.Printf("ok %s: %d functions analysed, %v\n", r.id, len(r.fns), r.counts)
	return 0
}

// readKnown reads the known findings of one property: lines of the form
// "known: property=<id> key=<key> <what fails>".
func readKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		k, d, _ := strings.Cut(l, " ")
		out[k] = d
	}
	return out
}
