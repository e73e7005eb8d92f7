package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation.
type Finding struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Fn    string `json:"function"`
	Msg   string `json:"message"`
	Path  string `json:"path,omitempty"`
}

// key identifies a finding independently of line numbers.
func (f Finding) key() string { return f.Rule + "@" + f.Fn }

// Result is what a check decided.
type Result struct {
	Obligations int
	Discharged  int
	Samples     []string
	Findings    []Finding
	Counts      map[string]int
	Rule        string   // the rule applied
	Assume      []string // what is taken on trust
	Undecided   []string
	Units       map[string]bool // functions analysed
	seen        map[string]bool
}

func newResult(rule string) *Result {
	return &Result{Counts: map[string]int{}, Rule: rule, Units: map[string]bool{}, seen: map[string]bool{}}
}

// ob records one obligation.
func (r *Result) ob(rule, where, fn, what string, ok bool, why, path string) {
	r.Obligations++
	r.Counts[rule]++
	if fn != "" {
		r.Units[fn] = true
	}
	if ok {
		r.Discharged++
		if r.Counts[rule] <= 3 {
			r.Samples = append(r.Samples, fmt.Sprintf("%s %s in %s: %s -- holds", rule, where, fn, what))
		}
		return
	}
	f := Finding{Rule: rule, Where: where, Fn: fn, Msg: what + ": " + why, Path: path}
	k := f.Rule + f.Where + f.Msg
	if !r.seen[k] {
		r.seen[k] = true
		r.Findings = append(r.Findings, f)
	}
}

func (r *Result) undecided(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if !r.seen["u"+s] {
		r.seen["u"+s] = true
		r.Undecided = append(r.Undecided, s)
	}
}

// floor fails the check when it found fewer instances than exist.
func (r *Result) floor(what string, n, min int) {
	if n < min {
		r.undecided("only %d %s found, at least %d expected: the rule no longer sees its subject", n, what, min)
	}
}

func (r *Result) merge(o *Result, tag string) {
	r.Obligations += o.Obligations
	r.Discharged += o.Discharged
	for k, v := range o.Counts {
		r.Counts[k+tag] += v
	}
	for k := range o.Units {
		r.Units[k] = true
	}
	if len(r.Samples) < 24 {
		r.Samples = append(r.Samples, o.Samples...)
	}
	for _, f := range o.Findings {
		k := f.Rule + f.Where + f.Msg
		if !r.seen[k] {
			r.seen[k] = true
			r.Findings = append(r.Findings, f)
		}
	}
	for _, u := range o.Undecided {
		r.undecided("%s", u)
	}
}

// Check decides one property.
type Check struct {
	ID    string
	Level string // "proof" or "other"
	Rule  string
	Trust []string
	Expl  string
	Archs []string
	Run   func(p *Program, r *Result)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

var commonTrust = []string{
	"the Go type checker and the go/ssa construction of golang.org/x/tools v0.52.0 translate the source faithfully",
	"the abstract transfer functions and library models of this checker (verif/checker/*.go)",
}

func main() {
	id := flag.String("id", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif", "directory for evidence and known findings")
	dump := flag.Bool("v", false, "print every obligation that failed and notes")
	flag.Parse()
	if *id == "list" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	c := checks[*id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	archs := c.Archs
	if archs == nil {
		archs = []string{"amd64"}
		if tier == "thorough" {
			archs = []string{"amd64", "386"}
		}
	} else if tier == "thorough" {
		archs = append(append([]string{}, archs...), "arm64", "arm")
	}
	res := newResult(c.Rule)
	nfun := 0
	for _, a := range archs {
		func() {
			defer func() {
				if x := recover(); x != nil {
					res.undecided("checker panic on %s: %v\n%s", a, x, debug.Stack())
				}
			}()
			p, err := loadProgram(*repo, a)
			if err != nil {
				res.undecided("cannot load the program for %s: %v", a, err)
				return
			}
			nfun = len(p.Funcs)
			r := newResult(c.Rule)
			c.Run(p, r)
			tag := ""
			if len(archs) > 1 {
				tag = "/" + a
			}
			res.merge(r, tag)
		}()
	}
	known := knownFindings(filepath.Join(*out, "known_findings.txt"), c.ID)
	var bad []Finding
	for _, f := range res.Findings {
		if w, ok := known[f.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, w, f.Where)
			continue
		}
		bad = append(bad, f)
	}
	for _, u := range res.Undecided {
		bad = append(bad, Finding{Rule: "undecided", Fn: "-", Where: "-", Msg: u})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var units []string
	for u := range res.Units {
		units = append(units, u)
	}
	sort.Strings(units)
	cov := map[string]interface{}{
		"rule":                 c.Rule,
		"obligations":          res.Obligations,
		"discharged":           res.Discharged,
		"checker_cmd":          "bash /verif/run.sh " + c.ID,
		"trusted_base":         append(append([]string{}, c.Trust...), commonTrust...),
		"obligations_by_rule":  res.Counts,
		"functions_in_program": nfun,
		"functions_analysed":   units,
		"targets":              archs,
		"samples":              res.Samples,
		"explanation":          c.Expl,
		"findings":             bad,
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "assumptions": append([]string{}, c.Trust...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*out, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*out, "evidence", c.ID+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, targets %v, %.1fs\n", c.ID, res.Obligations, res.Discharged, len(units), archs, time.Since(t0).Seconds())
	if *dump {
		var ks []string
		for k := range res.Counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-30s %d\n", k, res.Counts[k])
		}
	}
	if len(bad) == 0 {
		return
	}
	rp := filepath.Join(*out, "evidence", c.ID+".violation.txt")
	var b strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&b, "%s: [%s] %s: %s\n", f.Where, f.Rule, f.Fn, f.Msg)
		if f.Path != "" {
			fmt.Fprintf(&b, "    path: %s\n", f.Path)
		}
	}
	fmt.Print(b.String())
	os.WriteFile(rp, []byte(b.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	os.Exit(1)
}

// knownFindings reads "known: property=<id> key=<key> <what>" lines.
func knownFindings(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		k, w, _ := strings.Cut(rest, " ")
		m[k] = w
	}
	return m
}
