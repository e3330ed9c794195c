package main

// Checks: which analyses decide which property, and how their results are
// reported.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A job is one analysis; its findings name the properties they break.
type job struct {
	name  string
	props []string // properties the job contributes to; the first owns it and reports it when it is undecided
	cost  int      // rough seconds, for scheduling
	run   func(r *jobResult)
}

type jobResult struct {
	p         *Program
	job       *job
	findings  []Finding
	undecided string
	obl       int // obligations compared
	paths     int
	loops     int
	instrs    int
	calls     int
	fns       map[string]bool
	notes     []string
	wall      time.Duration
	skipped   bool
}

func (r *jobResult) fromScen(s *Scen) {
	r.obl += s.obl
	r.paths += s.paths
	r.loops += s.in.stats.loops
	r.instrs += s.in.stats.instrs
	r.calls += s.in.stats.calls
	for f := range s.in.fnsSeen {
		if s.p.inRepo(f) {
			r.fns[f.RelString(nil)] = true
		}
	}
	r.obl += s.in.races()
	r.findings = append(r.findings, s.in.findings...)
	if s.undecided != "" && r.undecided == "" {
		r.undecided = s.undecided
	}
}

func (r *jobResult) add(rule string, pos string, fn string, props []string, f string, a ...interface{}) {
	r.findings = append(r.findings, Finding{Rule: rule, Msg: fmt.Sprintf(f, a...), PosStr: pos, Fn: fn, Where: r.job.name, Props: props})
}

var propIDs = func() []string {
	var out []string
	for i := 1; i <= 34; i++ {
		out = append(out, fmt.Sprintf("C%02d", i))
	}
	return out
}()

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

type known struct {
	prop string
	key  string // what identifies the finding
	text string
}

// knownFindings reads /verif/known_findings.txt: lines
// "known: property=<id> key=<rule|construct> <what fails>". "fixed:" lines
// record repairs and suppress nothing.
func knownFindings(file string) []known {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		w := strings.Fields(l)
		if len(w) < 4 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(w[1], "property="), strings.TrimPrefix(w[2], "key="), strings.Join(w[3:], " ")})
	}
	return out
}

func runCheck(dir, id, tier string) int {
	t0 := time.Now()
	base := os.Getenv("VERIF_HOME")
	if base == "" {
		base = "/verif"
	}
	report := filepath.Join(base, "report", id+".txt")
	os.MkdirAll(filepath.Dir(report), 0o755)
	os.MkdirAll(filepath.Join(base, "evidence"), 0o755)
	var lines []string
	violations, undecided := 0, 0
	emit := func(f string, a ...interface{}) { lines = append(lines, fmt.Sprintf(f, a...)) }

	var results []*jobResult
	var knownHit []string
	p, err := loadProgram(dir)
	if err != nil {
		violations++
		emit("rule load: %v", err)
	} else {
		p.target = id
		jobs := p.jobsFor(id, tier)
		kn := knownFindings(filepath.Join(base, "known_findings.txt"))
		p.isViolation = func(f Finding) bool {
			for _, x := range kn {
				if x.prop == id && f.Key != "" && x.key == f.Key {
					return false
				}
			}
			return contains(f.Props, id)
		}
		results = runJobs(p, jobs, 780*time.Second-time.Since(t0))
		if len(jobs) == 0 {
			violations++
			emit("no analysis is registered for %s", id)
		}
		seen := map[string]bool{}
		for _, r := range results {
			for _, f := range r.findings {
				if !contains(f.Props, id) {
					continue
				}
				pos := f.PosStr
				if pos == "" {
					pos = p.pos(f.Pos)
				}
				k := f.Rule + "|" + pos + "|" + f.Msg
				if seen[k] {
					continue
				}
				seen[k] = true
				suppressed := false
				for _, x := range kn {
					if x.prop == id && f.Key != "" && x.key == f.Key {
						suppressed = true
						if !contains(knownHit, x.text) {
							knownHit = append(knownHit, x.text)
						}
					}
				}
				if suppressed {
					continue
				}
				violations++
				emit("rule %s: %s: %s\n    function %s\n    analysed: %s", f.Rule, pos, f.Msg, f.Fn, f.Where)
			}
			if r.undecided != "" && r.job.props[0] != id {
				// reported by the property that owns the analysis
				undecided++
				continue
			}
			if r.undecided != "" {
				k := "undecided|" + r.undecided
				violations++
				if !seen[k] {
					seen[k] = true
					emit("rule decidable: the analysis cannot establish the property: %s\n    analysed: %s", r.undecided, r.job.name)
				}
			}
		}
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(base, id, tier, results, violations, wall, p)
	if undecided > 0 {
		fmt.Printf("UNDECIDED property=%s: %d of %d analyses could not be completed; the checks that own them report it\n", id, undecided, len(results))
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if violations > 0 {
		text := fmt.Sprintf("property %s: %d violation(s) found by static analysis of %s\n\n%s\n", id, violations, dir, strings.Join(lines, "\n"))
		os.WriteFile(report, []byte(text), 0o644)
		for i, l := range lines {
			if i == 10 {
				fmt.Printf("  ... %d more in %s\n", len(lines)-i, report)
				break
			}
			if len(l) > 1500 {
				l = l[:1500] + "..."
			}
			fmt.Println(l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
		return 1
	}
	os.Remove(report)
	n, ob, pa := 0, 0, 0
	for _, r := range results {
		n++
		ob += r.obl
		pa += r.paths
	}
	fmt.Printf("property %s holds: %d analyses, %d paths, %d obligations, %.1fs\n", id, n, pa, ob, wall)
	return 0
}

// stopWhy is the reason to give up all analyses, if not empty.
var stopWhy atomic.Value

func checkStop() {
	if why, _ := stopWhy.Load().(string); why != "" {
		giveUp("%s", why)
	}
}

func runJobs(p *Program, jobs []*job, limit time.Duration) []*jobResult {
	start := time.Now()
	deadline := start.Add(limit)
	var found atomic.Bool // a violation that is not a known finding
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(4 << 30) // a soft limit: collect more often rather than grow
	// the shared function summaries first, so that the map is only read afterwards
	p.prepareContracts()
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].cost > jobs[j].cost })
	results := make([]*jobResult, len(jobs))
	for i := range results {
		results[i] = &jobResult{p: p, job: jobs[i], fns: map[string]bool{}}
	}
	next := make(chan int)
	var wg sync.WaitGroup
	stopWhy.Store("")
	done := make(chan bool)
	defer close(done)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			if time.Now().After(deadline) {
				stopWhy.Store("the time limit was reached")
			}
			if found.Load() && time.Since(start) > 90*time.Second {
				stopWhy.Store("stopped: the property is known to be violated")
			}
		}
	}()
	workers := runtime.NumCPU()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				r := results[i]
				t := time.Now()
				if why := stopWhy.Load().(string); why != "" {
					r.undecided = why
					continue
				}
				func() {
					defer func() {
						if e := recover(); e != nil {
							r.undecided = fmt.Sprintf("internal error: %v\n%s", e, debug.Stack())
							if os.Getenv("CHKDEBUG") == "" && len(r.undecided) > 3000 {
								r.undecided = r.undecided[:3000]
							}
						}
					}()
					if msg := guard(func() { r.job.run(r) }); msg != "" && r.undecided == "" {
						r.undecided = msg
					}
				}()
				for _, f := range r.findings {
					if p.isViolation != nil && p.isViolation(f) {
						found.Store(true)
					}
				}
				r.wall = time.Since(t)
				if os.Getenv("CHKTIME") != "" {
					fmt.Fprintf(os.Stderr, "%8.2fs %s obl=%d findings=%d %.100s\n", r.wall.Seconds(), r.job.name, r.obl, len(r.findings), r.undecided)
				}
			}
		}()
	}
	for i := range jobs {
		next <- i
	}
	close(next)
	wg.Wait()
	return results
}

func writeEvidence(base, id, tier string, results []*jobResult, violations int, wall float64, p *Program) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	fns := map[string]bool{}
	var names []string
	ob, pa, lo, ins, calls, und := 0, 0, 0, 0, 0, 0
	var slow []string
	for _, r := range results {
		for f := range r.fns {
			fns[f] = true
		}
		names = append(names, r.job.name)
		ob += r.obl
		pa += r.paths
		lo += r.loops
		ins += r.instrs
		calls += r.calls
		if r.undecided != "" {
			und++
		}
		slow = append(slow, r.notes...)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	sort.Strings(names)
	if slow == nil {
		slow = []string{}
	}
	if len(names) > 400 {
		names = append(names[:400:400], fmt.Sprintf("... and %d more", len(names)-400))
	}
	info := propInfo[id]
	cov := map[string]interface{}{
		"explanation":               info.rule,
		"analyses":                  len(results),
		"analysis_names":            names,
		"undecided_analyses":        und,
		"paths":                     pa,
		"obligations_compared":      ob,
		"loops_summarised":          lo,
		"ssa_instructions":          ins,
		"calls_followed":            calls,
		"repository_functions":      fl,
		"repository_function_count": len(fl),
		"notes":                     slow,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": info.assume,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(base, "evidence", id+".json"), append(data, '\n'), 0o644)
}

// prepareContracts verifies every function summary before the parallel phase.
func (p *Program) prepareContracts() {
	var fns []*ssa.Function
	for _, pk := range p.pkgs {
		sp := p.prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && f.Blocks != nil && contractShape(f) != ckNone {
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	in := newInterp(p)
	for _, f := range fns {
		in.contractFor(f)
	}
	p.contractsDone = true
}

var longBits = regexp.MustCompile(`[0-9.|!^]{20,}`)

// brief shortens bit-vector names in messages.
func brief(s string) string {
	return longBits.ReplaceAllStringFunc(s, func(x string) string {
		h := fnv.New32a()
		h.Write([]byte(x))
		return fmt.Sprintf("~%03x", h.Sum32()&0xfff)
	})
}
