// Command graphverif decides the properties of /verif/properties.jsonl that can be decided from
// the source of rossmerr/graphblas alone. It type-checks /repo's current tree, builds its SSA form
// and runs the analyses registered for the property; it never runs the code of /repo.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obligation is one instance of a rule, keyed by the rule and the construct it applies to.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Status    string `json:"status"` // ok, violated, undecided
	Detail    string `json:"detail,omitempty"`
	Pos       string `json:"pos,omitempty"`
}

func (o Obligation) key() string { return o.Rule + "|" + o.Construct }

// Report collects the obligations of one check.
type Report struct {
	Prog    *Program
	Obs     []Obligation
	Counts  map[string]int
	Notes   []string
	Trusted []string
	Assume  []string
	Tier    string
	jobs    []job
	after   func() // once the jobs are done
}

func (r *Report) add(status, rule, construct, pos, format string, args ...any) {
	r.Obs = append(r.Obs, Obligation{Rule: rule, Construct: construct, Status: status, Pos: pos, Detail: fmt.Sprintf(format, args...)})
}
func (r *Report) OK(rule, construct, pos, format string, args ...any) {
	r.add("ok", rule, construct, pos, format, args...)
}
func (r *Report) Bad(rule, construct, pos, format string, args ...any) {
	r.add("violated", rule, construct, pos, format, args...)
}
func (r *Report) Undecided(rule, construct, pos, format string, args ...any) {
	r.add("undecided", rule, construct, pos, format, args...)
}
func (r *Report) Count(name string, n int) { r.Counts[name] += n }

// Check is the analysis of one property.
type Check struct {
	ID     string
	Level  string
	Rules  string // the rules applied, for the evidence
	MinObs int    // fewer instances than this means that the rules no longer find what they are about
	Run    func(r *Report)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	property := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "", "quick or thorough (default: $VERIF_TIER or quick)")
	repo := flag.String("repo", "/repo", "the tree to analyse")
	verif := flag.String("verif", "/verif", "where KNOWN_FINDINGS.txt is and evidence/ is written")
	all := flag.Bool("all", false, "run every check (development only)")
	verbose := flag.Bool("v", false, "print every obligation")
	dump := flag.String("dump", "", "print the SSA form of the functions whose name contains this")
	try := flag.String("try", "", "analyse the kernels whose name contains this (development only)")
	flag.StringVar(&debugKernels, "debug", "", "print loop summaries of the kernels whose name contains this (development only)")
	isWorker := flag.Bool("worker", false, "run jobs of the check on request (internal)")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *isWorker {
		r := &Report{Counts: map[string]int{}, Tier: *tier}
		prog, err := loadProgram(*repo)
		if err != nil {
			os.Exit(3)
		}
		r.Prog = prog
		checks[*property].Run(r)
		work(r)
		return
	}
	if strings.HasPrefix(*try, "sort:") {
		trySorting(*repo, strings.TrimPrefix(*try, "sort:"), debugKernels != "")
		return
	}
	if strings.HasPrefix(*try, "storage:") {
		tryStorage(*repo, strings.TrimPrefix(*try, "storage:"))
		return
	}
	if *try != "" {
		tryKernels(*repo, *try)
		return
	}
	if *dump != "" {
		dumpSSA(*repo, *dump)
		return
	}
	var ids []string
	if *all {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*property, ",")
	}
	code := 0
	for _, id := range ids {
		if !runCheck(id, *tier, *repo, *verif, *verbose) {
			code = 1
		}
	}
	os.Exit(code)
}

func runCheck(id, tier, repo, verif string, verbose bool) (ok bool) {
	start := time.Now()
	c := checks[id]
	if c == nil {
		fmt.Printf("unknown property %q\n", id)
		fmt.Printf("VIOLATION property=%s replay=none\n", id)
		return false
	}
	r := &Report{Counts: map[string]int{}, Tier: tier}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Undecided("analysis", "the analysis itself", "", "the analysis failed: %v\n%s", e, debug.Stack())
			}
		}()
		prog, err := loadProgram(repo)
		if err != nil {
			r.Undecided("load", "type check", "", "%v", err)
			return
		}
		r.Prog = prog
		c.Run(r)
		r.runJobs(id, repo)
		if r.after != nil {
			r.after()
		}
		if n := len(r.Obs); n < c.MinObs {
			r.Undecided("coverage", "instances", "", "the rules apply to %d constructs, fewer than the %d confirmed by hand", n, c.MinObs)
		}
	}()

	known := readKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"), id)
	// one obligation can be checked in several configurations: the worst status counts
	merged := map[string]*Obligation{}
	var order []string
	rank := map[string]int{"ok": 0, "undecided": 1, "violated": 2}
	total := len(r.Obs)
	for i := range r.Obs {
		o := r.Obs[i]
		m := merged[o.key()]
		if m == nil {
			merged[o.key()] = &o
			order = append(order, o.key())
		} else if rank[o.Status] > rank[m.Status] {
			*m = o
		}
	}
	sort.Strings(order)
	var bad []*Obligation
	var findings []string
	discharged := 0
	for _, k := range order {
		o := merged[k]
		if verbose {
			fmt.Printf("%-9s %s | %s | %s | %s\n", o.Status, o.Rule, o.Construct, o.Pos, o.Detail)
		}
		if o.Status == "ok" {
			discharged++
			continue
		}
		if text, ok := known[k]; ok && o.Status == "violated" {
			findings = append(findings, text)
			continue
		}
		bad = append(bad, o)
	}
	for _, f := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	report := filepath.Join(verif, "evidence", id+".report.txt")
	var b strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&b, "%s: %s\n  rule: %s\n  instance: %s\n  at: %s\n  %s\n", id, o.Status, o.Rule, o.Construct, o.Pos, o.Detail)
	}
	os.WriteFile(report, []byte(b.String()), 0o644)
	if len(bad) > 0 {
		for i, o := range bad {
			if i == 12 {
				fmt.Printf("  ... and %d more, see %s\n", len(bad)-i, report)
				break
			}
			d := o.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("%s: [%s] %s: %s: %s\n", o.Pos, o.Status, o.Rule, o.Construct, d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	}
	writeEvidence(c, r, verif, tier, start, order, merged, total, discharged, len(bad), findings)
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d (%.1fs)\n", id, len(order), discharged, len(findings), time.Since(start).Seconds())
	}
	return len(bad) == 0
}

func writeEvidence(c *Check, r *Report, verif, tier string, start time.Time, order []string, merged map[string]*Obligation, total, discharged, violations int, findings []string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rules := map[string]int{}
	for _, k := range order {
		rules[merged[k].Rule]++
	}
	var inst []string
	for _, k := range order {
		o := merged[k]
		s := o.Status + ": " + o.Rule + ": " + o.Construct
		if o.Pos != "" {
			s += " (" + o.Pos + ")"
		}
		inst = append(inst, s)
		if len(inst) == 400 {
			inst = append(inst, fmt.Sprintf("... and %d more", len(order)-400))
			break
		}
	}
	cov := map[string]any{
		"obligations":        len(order),
		"discharged":         discharged,
		"instances_examined": total,
		"rules":              rules,
		"instances":          inst,
		"explanation":        c.Rules,
		"checker_cmd":        "bin/graphverif -property " + c.ID,
		"trusted_base":       append([]string{"go/types and x/tools/go/ssa v0.52.0", "the analyses in /verif/analyzer"}, r.Trusted...),
	}
	for k, v := range r.Counts {
		cov[k] = v
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	if len(findings) > 0 {
		cov["known_findings"] = findings
	}
	if r.Prog != nil {
		cov["packages_analysed"] = r.Prog.PkgNames
		cov["functions_in_scope"] = r.Prog.NumFuncs
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": append([]string{"rings: elements are compared as values of a commutative ring, without rounding, overflow or NaN", "the standard library behaves as documented"}, r.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}

// readKnown reads the lines "known: property=<id> key=<rule>|<construct> :: <text>".
func readKnown(path, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, text, ok := strings.Cut(rest, " :: ")
		if ok {
			out[key] = text
		}
	}
	return out
}
