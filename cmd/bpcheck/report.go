package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one reported construct.
type Violation struct {
	Key   string   `json:"key"`  // rule|function|construct: stable across line moves
	Rule  string   `json:"rule"` // the rule that is broken
	Where string   `json:"where"`
	Msg   string   `json:"msg"`
	Path  []string `json:"path,omitempty"`
}

// Run collects what one property check did.
type Run struct {
	ID     string
	Tier   string
	P      *Prog
	viol   map[string]*Violation
	obl    map[string]map[string]bool // rule -> distinct obligations decided
	counts map[string]int
	notes  map[string][]string
	rules  []string
	fns    map[string]bool
	fail   []string
}

func newRun(id, tier string, p *Prog) *Run {
	return &Run{ID: id, Tier: tier, P: p, viol: map[string]*Violation{}, obl: map[string]map[string]bool{}, counts: map[string]int{}, notes: map[string][]string{}, fns: map[string]bool{}}
}

// Rule documents a rule in the evidence.
func (r *Run) Rule(s string) { r.rules = append(r.rules, s) }

// Oblige records that an obligation of a rule was examined.
func (r *Run) Oblige(rule, instance string) {
	if r.obl[rule] == nil {
		r.obl[rule] = map[string]bool{}
	}
	r.obl[rule][instance] = true
}

// Violate reports a construct.
func (r *Run) Violate(rule, key, where, msg string, path []string) {
	k := rule + "|" + key
	if _, ok := r.viol[k]; ok {
		return
	}
	r.viol[k] = &Violation{Key: k, Rule: rule, Where: where, Msg: msg, Path: path}
}

func (r *Run) Count(k string, n int) { r.counts[k] += n }
func (r *Run) Note(k, v string) {
	for _, x := range r.notes[k] {
		if x == v {
			return
		}
	}
	r.notes[k] = append(r.notes[k], v)
}

// Need fails the check when a rule applies nowhere, or nearly so: n instances
// were confirmed by hand, and code that shares a helper has fewer of them, but
// a rule that lost more than half of what it is about no longer decides it.
func (r *Run) Need(rule string, n int) {
	if got := len(r.obl[rule]); got < (n+1)/2 {
		r.Violate("instance-count", rule, "-", fmt.Sprintf("rule %q found %d instances in the source, %d were confirmed by hand; the construct it protects is gone or no longer recognised", rule, got, n), nil)
	}
}

// Anchor resolves a function that a rule is anchored on.
func (r *Run) Anchor(names ...string) *ssa.Function {
	for _, n := range names {
		if f := r.P.fn(n); f != nil {
			return f
		}
	}
	r.Violate("anchor", names[0], "-", "the function "+names[0]+" this rule is anchored on is not in the source", nil)
	return nil
}

// absorb records what a simulation explored.
func (r *Run) absorb(m *Sim, what string) {
	r.Count("abstract_states", m.States)
	r.Count("complete_paths", m.Paths)
	r.Count("call_sites", len(m.CallSites))
	for f := range m.Inlined {
		r.fns[fnName(f)] = true
	}
	for u := range m.Unresolved {
		r.Note("unresolved_dynamic_calls", u)
	}
	if m.Exceeded {
		r.Violate("budget", what, "-", fmt.Sprintf("the analysis of %s did not reach a fixpoint within %d abstract states", what, m.Budget), nil)
	}
}

type known struct {
	prop, key, msg string
}

// loadKnown reads /verif/KNOWN_FINDINGS: lines
//
//	finding: property=<id> key=<violation key> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown() (out []known) {
	f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		head, msg, _ := strings.Cut(l, " :: ")
		pr, key, _ := strings.Cut(head, " key=")
		out = append(out, known{strings.TrimPrefix(pr, "property="), key, msg})
	}
	return
}

func verifDir() string {
	if d := os.Getenv("BPCHECK_VERIF"); d != "" {
		return d
	}
	if e, err := os.Executable(); err == nil {
		d := filepath.Dir(filepath.Dir(e))
		if _, err := os.Stat(filepath.Join(d, "MANIFEST.json")); err == nil {
			return d
		}
	}
	return "/verif"
}

func evidenceDir() string {
	if d := os.Getenv("BPCHECK_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "evidence")
}

// finish writes the evidence and returns the exit code.
func (r *Run) finish(start time.Time, level, explanation string) int {
	kn := loadKnown()
	var keys []string
	for k := range r.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var live []*Violation
	var knownHit []string
	for _, k := range keys {
		matched := false
		for _, x := range kn {
			if x.prop == r.ID && x.key == k {
				matched = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.ID, x.msg)
				knownHit = append(knownHit, line)
				fmt.Println(line)
			}
		}
		if !matched {
			live = append(live, r.viol[k])
		}
	}
	cov := map[string]any{"explanation": explanation, "rules": r.rules}
	total := 0
	ob := map[string]any{}
	for rule, in := range r.obl {
		total += len(in)
		l := sortedKeys(in)
		n := len(l)
		if len(l) > 60 {
			l = append(l[:60], fmt.Sprintf("… %d more", n-60))
		}
		ob[rule] = map[string]any{"count": n, "instances": l}
	}
	cov["obligations"] = ob
	cov["obligations_total"] = total
	for k, v := range r.counts {
		cov[k] = v
	}
	for k, v := range r.notes {
		sort.Strings(v)
		cov[k] = v
	}
	cov["functions_analysed"] = len(r.fns)
	cov["functions"] = sortedKeys(r.fns)
	if r.P != nil {
		cov["module_functions"] = len(r.P.Funcs)
		cov["packages"] = len(r.P.Pkgs)
	}
	cov["violations"] = len(live)
	cov["known_findings"] = knownHit
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": r.ID, "tier": r.Tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(start).Seconds()}
	dir := evidenceDir()
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
	}
	rp := filepath.Join(dir, r.ID+".violations.json")
	os.Remove(rp)
	fmt.Printf("%s: %d obligations over %d rules, %d functions, %d abstract states, %d complete paths, %.1fs\n", r.ID, total, len(r.obl), len(r.fns), r.counts["abstract_states"], r.counts["complete_paths"], time.Since(start).Seconds())
	if len(live) == 0 {
		return 0
	}
	vb, _ := json.MarshalIndent(live, "", " ")
	os.WriteFile(rp, append(vb, '\n'), 0o644)
	for _, v := range live {
		fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Where, v.Msg)
		for _, s := range v.Path {
			fmt.Printf("      %s\n", s)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return 1
}

// guard runs f; a crash of the analyser is a violation of the check (it never
// passes silently).
func (r *Run) guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			lines := strings.Split(st, "\n")
			if len(lines) > 24 {
				lines = lines[:24]
			}
			r.Violate("analyser-failure", fmt.Sprint(e), "-", fmt.Sprintf("the analysis crashed: %v", e), lines)
		}
	}()
	f()
}

func posLess(a, b token.Pos) bool { return a < b }
