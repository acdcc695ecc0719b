package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one construct of the source that breaks a rule.
type Violation struct {
	Where string // file:line
	Func  string
	Rule  string
	What  string
	Path  string
}

func (v Violation) sig() string { return v.Func + " | " + v.Rule + " | " + v.What }

// Report collects what a check analysed and found.
type Report struct {
	prop        string
	tier        string
	rule        string
	obligations int
	discharged  int
	counts      map[string]int
	samples     []string
	assumptions []string
	viols       []Violation
	seen        map[string]bool
	oblSeen     map[string]bool
}

func (r *Report) count(k string, n int) { r.counts[k] += n }

func (r *Report) violate(where, fn, rule, what, path string) {
	v := Violation{where, fn, rule, what, path}
	k := where + v.sig()
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.viols = append(r.viols, v)
}

// obligation records one instance of the rule (once per key) and its result.
func (r *Report) obligation(key string, ok bool) {
	if !r.oblSeen[key] {
		r.oblSeen[key] = true
		r.obligations++
		if ok {
			r.discharged++
		}
		if len(r.samples) < 12 {
			r.samples = append(r.samples, key)
		}
	}
}

// need reports a rule without any instance: then nothing has been decided.
func (r *Report) need(what string, n int) {
	r.counts[what] = n
	if n == 0 {
		r.violate("-", "-", "anchor", "nothing to analyse: no "+what+" found in the current source", "")
	}
}

type check struct {
	id   string
	rule string
	run  func(P *Prog, eff *Effects, r *Report)
}

var checks = map[string]check{}

func register(id, rule string, run func(P *Prog, eff *Effects, r *Report)) {
	checks[id] = check{id, rule, run}
}

// finish adds the statistics of an interpreter run.
func (x *Exec) finish(r *Report) {
	r.count("functions_interpreted", len(x.entered))
	r.count("instructions_covered", len(x.visited))
	r.count("abstract_steps", x.steps)
	r.count("contexts", len(x.ctxs))
	for _, m := range x.incomplete {
		r.violate("-", "-", "incomplete", "analysis incomplete: "+m, "")
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "output directory")
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	debugF := flag.String("debug", "", "debug: dump SSA of a function")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	start := time.Now()
	P, err := load(*repo)
	var eff *Effects
	if err == nil {
		eff = newEffects(P)
	}
	if *debugF != "" {
		for _, f := range P.fns {
			if strings.Contains(fname(f), *debugF) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	rc := 0
	for _, id := range ids {
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		if runCheck(P, eff, err, id, *verif, *tier, t0) {
			rc = 1
		}
	}
	os.Exit(rc)
}

func runCheck(P *Prog, eff *Effects, lerr error, id, verif, tier string, start time.Time) (bad bool) {
	c, ok := checks[id]
	r := &Report{prop: id, tier: tier, counts: map[string]int{}, seen: map[string]bool{}, oblSeen: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.violate("-", "-", "internal", fmt.Sprintf("analysis failed: %v", e), string(debug.Stack()))
			}
		}()
		switch {
		case lerr != nil:
			r.violate("-", "-", "load", "the repository cannot be loaded: "+lerr.Error(), "")
		case !ok:
			r.violate("-", "-", "internal", "unknown property", "")
		default:
			r.rule = c.rule
			r.counts["module_functions"] = len(P.fns)
			c.run(P, eff, r)
			if r.obligations == 0 && len(r.viols) == 0 {
				r.violate("-", "-", "anchor", "no obligation was generated", "")
			}
		}
	}()
	known := knownFindings(verif, id)
	var viols []Violation
	for _, v := range r.viols {
		hit := ""
		for _, k := range known {
			if strings.Contains(v.sig(), k) {
				hit = k
			}
		}
		if hit != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v.sig())
			continue
		}
		viols = append(viols, v)
	}
	writeReport(r, viols, verif, tier, start)
	if len(viols) > 0 {
		for _, v := range viols {
			fmt.Printf("%s: %s: [%s] %s\n", v.Where, v.Func, v.Rule, v.What)
		}
		fmt.Printf("VIOLATION property=%s replay=evidence/%s.report.txt\n", id, id)
		return true
	}
	fmt.Printf("ok property=%s obligations=%d discharged=%d wall=%.1fs\n", id, r.obligations, r.discharged, time.Since(start).Seconds())
	return false
}

// knownFindings reads lines "known: property=<id> match=<text>".
func knownFindings(verif, id string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var res []string
	for _, l := range strings.Split(string(b), "\n") {
		if p := "known: property=" + id + " match="; strings.HasPrefix(l, p) {
			res = append(res, strings.TrimSpace(l[len(p):]))
		}
	}
	return res
}

func writeReport(r *Report, viols []Violation, verif, tier string, start time.Time) {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\nrule: %s\nobligations %d, discharged %d\n", r.prop, r.rule, r.obligations, r.discharged)
	var ks []string
	for k := range r.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s: %d\n", k, r.counts[k])
	}
	for _, s := range r.samples {
		fmt.Fprintf(&b, "sample obligation: %s\n", s)
	}
	for _, v := range viols {
		fmt.Fprintf(&b, "\nVIOLATION at %s in %s\n  rule: %s\n  %s\n", v.Where, v.Func, v.Rule, v.What)
		if v.Path != "" {
			fmt.Fprintf(&b, "  path: %s\n", v.Path)
		}
	}
	os.WriteFile(filepath.Join(dir, r.prop+".report.txt"), []byte(b.String()), 0o644)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation": "Static analysis of the type-checked SSA form of the current source. Rule: " + r.rule +
			" Counts are measured on this run; obligations are instances of the rule found in the source, discharged those shown to hold.",
		"obligations": r.obligations,
		"discharged":  r.discharged,
		"rule":        r.rule,
		"samples":     r.samples,
	}
	for _, k := range ks {
		cov[k] = r.counts[k]
	}
	ev := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if r.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.prop+".json"), append(j, '\n'), 0o644)
}
