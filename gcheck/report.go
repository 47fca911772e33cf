package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation, keyed by rule and construct.
type Finding struct {
	Rule, Construct, Pos, Msg string
}

// Report collects what a check looked at and what it found.
type Report struct {
	id       string
	P        *Prog
	findings []Finding
	seen     map[string]bool
	rules    map[string]string
	counts   map[string]int
	need     map[string]int
	funcs    map[string]bool
	samples  []string
	notes    []string
	paths    int
}

func newReport(P *Prog, id string) *Report {
	return &Report{id: id, P: P, seen: map[string]bool{}, rules: map[string]string{}, counts: map[string]int{}, need: map[string]int{}, funcs: map[string]bool{}}
}

// rule declares a rule with its meaning and the least number of instances it must have.
func (r *Report) rule(name, text string, min int) {
	r.rules[name] = text
	r.need[name] = min
}

func (r *Report) ok(rule, construct string) {
	r.counts[rule]++
	if len(r.samples) < 40 {
		s := rule + ": " + construct
		for _, x := range r.samples {
			if x == s {
				return
			}
		}
		r.samples = append(r.samples, s)
	}
}

func (r *Report) bad(rule, construct, pos, format string, a ...interface{}) {
	r.counts[rule]++
	k := rule + "|" + construct
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.findings = append(r.findings, Finding{rule, construct, pos, fmt.Sprintf(format, a...)})
}

func (r *Report) check(cond bool, rule, construct, pos, format string, a ...interface{}) bool {
	if cond {
		r.ok(rule, construct)
	} else {
		r.bad(rule, construct, pos, format, a...)
	}
	return cond
}

type knownEntry struct{ prop, rule, construct, text string }

// known findings: "known: property=ID rule=R construct=C -- what fails"
func loadKnown(file string) ([]knownEntry, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var l []knownEntry
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		e := knownEntry{}
		rest := strings.TrimPrefix(line, "known: ")
		if i := strings.Index(rest, " -- "); i >= 0 {
			e.text = rest[i+4:]
			rest = rest[:i]
		}
		for _, f := range strings.Fields(rest) {
			kv := strings.SplitN(f, "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch kv[0] {
			case "property":
				e.prop = kv[1]
			case "rule":
				e.rule = kv[1]
			case "construct":
				e.construct = kv[1]
			}
		}
		l = append(l, e)
	}
	return l, nil
}

// finish writes the evidence, prints the verdict and returns the exit status.
func (r *Report) finish(verif, tier string, seed int, start time.Time, technique string) int {
	for n, min := range r.need {
		if r.counts[n] < min {
			r.bad("instances", n, "-", "rule %s matched %d instances, at least %d were confirmed by hand: what it looks for is gone or has a shape it does not know", n, r.counts[n], min)
		}
	}
	known, err := loadKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Println("cannot read known findings:", err)
	}
	sort.SliceStable(r.findings, func(i, j int) bool {
		if r.findings[i].Rule != r.findings[j].Rule {
			return r.findings[i].Rule < r.findings[j].Rule
		}
		return r.findings[i].Construct < r.findings[j].Construct
	})
	var open []Finding
	nk := 0
	for _, f := range r.findings {
		k := false
		for _, e := range known {
			if e.prop == r.id && e.rule == f.Rule && e.construct == strings.ReplaceAll(f.Construct, " ", "_") {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", r.id, e.text, f.Pos, f.Msg)
				k = true
				nk++
				break
			}
		}
		if !k {
			open = append(open, f)
		}
	}
	total := 0
	var rl []string
	for n := range r.rules {
		rl = append(rl, n)
	}
	sort.Strings(rl)
	inst := map[string]interface{}{}
	var expl []string
	for _, n := range rl {
		total += r.counts[n]
		inst[n] = map[string]interface{}{"rule": r.rules[n], "instances": r.counts[n], "confirmed_minimum": r.need[n]}
		expl = append(expl, fmt.Sprintf("%s (%d instances)", r.rules[n], r.counts[n]))
	}
	var fl []string
	for f := range r.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"explanation":         technique + ". Decided on the type-checked SSA of every non-test package of /repo, loaded on this run. Rules: " + strings.Join(expl, "; "),
		"packages":            len(r.P.Pkgs),
		"functions_in_repo":   len(r.P.Funcs),
		"functions_analysed":  fl,
		"paths":               r.paths,
		"obligations":         total,
		"discharged":          total - len(r.findings),
		"rules":               inst,
		"samples":             r.samples,
		"known_findings_seen": nk,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{
			"the Go type checker and go/ssa represent the program faithfully; no unsafe, cgo or reflection in the analysed packages",
			"library functions behave as documented",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(open),
	}
	if len(open) > 0 {
		var ol []map[string]string
		for _, f := range open {
			ol = append(ol, map[string]string{"rule": f.Rule, "construct": f.Construct, "position": f.Pos, "what": f.Msg})
		}
		cov["open_findings"] = ol
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	ef := filepath.Join(dir, r.id+".json")
	if err := os.WriteFile(ef, append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d packages, %d functions, %d functions analysed, %d paths, %d obligations, %d open, %d known\n",
		r.id, len(r.P.Pkgs), len(r.P.Funcs), len(fl), r.paths, total, len(open), nk)
	for _, f := range open {
		fmt.Printf("  %s: [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
	}
	if len(open) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, "evidence/"+r.id+".json")
		return 1
	}
	return 0
}
