package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report collects what a check looked at and what it found.
type Report struct {
	P        *Prog
	ID       string
	Tier     string
	counts   map[string]int
	samples  []string
	findings []finding
	fset     map[string]bool
	assume   []string
	explain  []string
}

type finding struct {
	Key   string // identifies the construct, independent of line numbers
	Where string
	Msg   string
	Trace []string
}

func newReport(p *Prog, id, tier string) *Report {
	return &Report{P: p, ID: id, Tier: tier, counts: map[string]int{}, fset: map[string]bool{}}
}

// Count adds to the number of obligations of the kind that were analysed.
func (r *Report) Count(kind string, n int) { r.counts[kind] += n }

// Sample records an analysed construct, for the evidence.
func (r *Report) Sample(format string, a ...interface{}) {
	if len(r.samples) < 60 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}

func (r *Report) Assume(s string)  { r.assume = append(r.assume, s) }
func (r *Report) Explain(s string) { r.explain = append(r.explain, s) }

// Fail reports a violation.
func (r *Report) Fail(key, where, format string, a ...interface{}) {
	r.FailTrace(key, where, nil, format, a...)
}

func (r *Report) FailTrace(key, where string, trace []string, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	k := key + "\x00" + m
	if r.fset[k] {
		return
	}
	r.fset[k] = true
	r.findings = append(r.findings, finding{Key: key, Where: where, Msg: m, Trace: trace})
}

// Expect fails when fewer instances than the number confirmed by reading were found: a rule that no longer
// sees its subject decides nothing.
func (r *Report) Expect(kind string, min int) {
	if r.counts[kind] < min {
		r.Fail("coverage:"+kind, "-", "undecided: %d %s analysed, at least %d were expected", r.counts[kind], kind, min)
	}
}

// Sim copies the errors of a simulation.
func (r *Report) Sim(key string, s *Sim) {
	for _, e := range s.Errs {
		r.FailTrace(key, e.Where, e.Trace, "%s", e.Msg)
	}
	r.Count("abstract states", s.States)
}

// guard turns missing anchors and analyser panics into findings.
func (r *Report) guard(key string, f func()) {
	t0 := time.Now()
	defer func() {
		if d := time.Since(t0); os.Getenv("KD_TIME") != "" && d > 100*time.Millisecond {
			fmt.Fprintf(os.Stderr, "%8.2fs %s\n", d.Seconds(), key)
		}
		if x := recover(); x != nil {
			if a, ok := x.(anchorError); ok {
				r.Fail(key, "-", "undecided: anchor missing: %s", a.msg)
				return
			}
			if os.Getenv("KD_PANIC") != "" {
				panic(x)
			}
			r.Fail(key, "-", "undecided: analyser failure: %v", x)
		}
	}()
	f()
}

type known struct {
	Property string
	Key      string
	What     string
}

// loadKnown reads known-findings.txt: lines "known: property=<id> key=<key> :: <what>".
func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		head, what := l, ""
		if i := strings.Index(l, " :: "); i >= 0 {
			head, what = l[:i], l[i+4:]
		}
		k := known{What: what}
		if strings.HasPrefix(head, "property=") {
			head = strings.TrimPrefix(head, "property=")
			if i := strings.Index(head, " key="); i >= 0 {
				k.Property, k.Key = head[:i], strings.TrimSpace(head[i+5:])
				out = append(out, k)
			}
		}
	}
	return out
}

// finish prints the result, writes the evidence file and returns the exit code.
func (r *Report) finish(verif string, start time.Time, level string) int {
	ks := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var viol []finding
	usedKnown := []string{}
	hit := map[string]bool{}
	for _, f := range r.findings {
		matched := false
		for _, k := range ks {
			if k.Property == r.ID && k.Key == f.Key+" @ "+f.Msg {
				matched = true
				if !hit[k.Key] {
					hit[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k.What)
					usedKnown = append(usedKnown, k.What)
				}
			}
		}
		if !matched {
			viol = append(viol, f)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Key < viol[j].Key })
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join(verif, "evidence", r.ID+".violations.txt")
	if len(viol) > 0 {
		var b strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", f.Key, f.Where, f.Msg)
			for _, t := range f.Trace {
				fmt.Fprintf(&b, "    | %s\n", t)
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
	} else {
		os.Remove(replay)
	}
	cov := map[string]interface{}{}
	for k, n := range r.counts {
		cov[k] = n
	}
	ex := strings.Join(r.explain, " ")
	if ex == "" {
		ex = "static analysis of the typed SSA form of the repository's current source"
	}
	cov["explanation"] = ex
	cov["functions_loaded"] = len(r.P.Funcs)
	cov["packages_loaded"] = len(r.P.Pkgs)
	if len(r.samples) > 0 {
		cov["analysed"] = r.samples
	}
	if len(usedKnown) > 0 {
		cov["known_findings"] = usedKnown
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property":   r.ID,
		"tier":       r.Tier,
		"seed":       seed,
		"level":      level,
		"coverage":   cov,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viol),
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	bs, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.ID+".json"), append(bs, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		return 1
	}
	keys := []string{}
	for k := range r.counts {
		keys = append(keys, fmt.Sprintf("%s=%d", k, r.counts[k]))
	}
	sort.Strings(keys)
	fmt.Printf("OK property=%s %s\n", r.ID, strings.Join(keys, " "))
	return 0
}
