package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Run is one run of the check of a property.
type Run struct {
	id, tier string
	repo     string
	home     string
	viol     []Viol
	seen     map[string]bool
	counts   map[string]int
	samples  []string
	rule     string
	assume   []string
	prog     *Program
	in       *Interp
}

// Viol is a broken obligation. The key names the rule and the construct.
type Viol struct{ key, msg string }

func (r *Run) fail(key, format string, a ...interface{}) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.viol = append(r.viol, Viol{key, fmt.Sprintf(format, a...)})
}

func (r *Run) count(name string, n int) { r.counts[name] += n }

func (r *Run) sample(format string, a ...interface{}) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}

// floor makes the check fail when less was analysed than was confirmed by hand.
func (r *Run) floor(name string, min int) {
	if r.counts[name] < min {
		r.fail("coverage:"+name, "only %d %s were found, at least %d are expected: the rule no longer sees what it has to decide", r.counts[name], name, min)
	}
}

func (r *Run) program() *Program {
	if r.prog == nil {
		r.prog = load(r.repo, nil, "./soql/...")
		r.counts["packages analysed"] = len(r.prog.Repo)
		n := 0
		for _, sp := range r.prog.Repo {
			for _, m := range sp.Members {
				_ = m
				n++
			}
		}
		r.counts["package members loaded"] = n
	}
	return r.prog
}

func (r *Run) interp() *Interp {
	if r.in == nil {
		r.in = newInterp(r.program())
		r.in.initAll()
	}
	return r.in
}

type check struct {
	title string
	rule  string
	run   func(r *Run)
}

var checks = map[string]*check{}

func register(id, rule string, f func(r *Run)) { checks[id] = &check{rule: rule, run: f} }

func main() {
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "check" {
		os.Exit(runChecks(args[1:]))
	}
	if len(args) > 1 && args[0] == "shape" {
		debugShape(args[1])
		return
	}
	if len(args) > 2 && args[0] == "deriv" {
		debugDeriv(args[1], args[2])
		return
	}
	if len(args) > 3 && args[0] == "flow" {
		debugFlow(args[1], args[2], args[3])
		return
	}
	fmt.Fprintln(os.Stderr, "usage: verif check [-repo DIR] [-home DIR] [-tier quick|thorough] ID...")
	os.Exit(2)
}

func runChecks(args []string) int {
	repo, home := "/repo", "/verif"
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var ids []string
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-repo":
			i++
			repo = args[i]
		case "-home":
			i++
			home = args[i]
		case "-tier":
			i++
			tier = args[i]
		case "all":
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		default:
			ids = append(ids, args[i])
		}
	}
	defer profile()()
	debug.SetGCPercent(400)
	rc := 0
	for _, id := range ids {
		if n := runCheck(repo, home, tier, id); n > rc {
			rc = n
		}
	}
	return rc
}

func runCheck(repo, home, tier, id string) int {
	c := checks[id]
	r := &Run{id: id, tier: tier, repo: repo, home: home, seen: map[string]bool{}, counts: map[string]int{}}
	start := time.Now()
	if c == nil {
		r.fail("no such check", "there is no check %s", id)
	} else {
		r.rule = c.rule
		done := make(chan bool)
		viol := &Run{seen: map[string]bool{}}
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(undecided); ok {
						viol.fail("undecided: "+u.msg, "the check cannot decide the property on this source: %s", u.msg)
						if os.Getenv("VERIF_DEBUG") != "" {
							debug.PrintStack()
						}
						return
					}
					viol.fail("internal", "the analysis stopped: %v", e)
					fmt.Println(string(debug.Stack()))
				}
			}()
			c.run(r)
		}()
		limit := 700 * time.Second
		if tier == "thorough" {
			limit = 4 * time.Hour
		}
		deadline := time.After(limit)
		tick := time.NewTicker(time.Second)
	wait:
		for {
			stop := ""
			select {
			case <-done:
				r.viol = append(r.viol, viol.viol...)
				break wait
			case <-deadline:
				stop = "it takes too long"
			case <-tick.C:
				var ms runtime.MemStats
				if runtime.ReadMemStats(&ms); ms.HeapAlloc > 24<<30 {
					stop = "it takes too much memory"
				}
			}
			if stop != "" {
				fmt.Printf("VIOLATION property=%s replay=%s the check cannot decide the property on this source: %s\n", id, filepath.Join(home, "run.sh"), stop)
				os.Exit(1)
			}
		}
	}
	known := readFindings(filepath.Join(home, "known_findings.txt"), id)
	var open []Viol
	for _, v := range r.viol {
		if d, ok := known[v.key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, d)
			continue
		}
		open = append(open, v)
	}
	wall := time.Since(start).Seconds()
	r.writeEvidence(len(open), wall)
	if len(open) == 0 {
		fmt.Printf("ok property=%s tier=%s %s (%.1fs)\n", id, tier, r.countText(), wall)
		return 0
	}
	rp := filepath.Join(home, "evidence", id+".violations.txt")
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "[%s]\n%s\n\n", v.key, v.msg)
	}
	fmt.Fprintf(&sb, "rule: %s\nrepeat with: %s/run.sh %s %s\n", r.rule, home, id, tier)
	_ = os.MkdirAll(filepath.Dir(rp), 0o755)
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	for _, v := range open {
		fmt.Printf("VIOLATION property=%s replay=%s %s\n", id, rp, strings.ReplaceAll(v.msg, "\n", " | "))
	}
	return 1
}

func (r *Run) countText() string {
	var s []string
	for _, k := range sortedKeys(r.counts) {
		s = append(s, fmt.Sprintf("%s=%d", k, r.counts[k]))
	}
	return strings.Join(s, ", ")
}

func (r *Run) writeEvidence(nviol int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": r.rule,
		"analysed":    r.counts,
	}
	if len(r.samples) > 0 {
		cov["samples"] = r.samples
	}
	var vs []string
	for _, v := range r.viol {
		vs = append(vs, v.key+": "+v.msg)
	}
	if len(vs) > 0 {
		cov["findings"] = vs
	}
	assume := append([]string{
		"the Go type checker and the SSA builder of golang.org/x/tools represent the source faithfully",
		"the parser combinators of github.com/shellyln/takenoco and the Go standard library behave as modelled in /verif/tool",
	}, r.assume...)
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": nviol, "assumptions": assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(r.home, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
}

// readFindings reads "finding: property=<id> key=[<key>] <text>" lines.
func readFindings(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, ln := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(ln, "finding: property="+id+" key=[")
		if !ok {
			continue
		}
		if i := strings.Index(rest, "] "); i > 0 {
			m[rest[:i]] = rest[i+2:]
		}
	}
	return m
}
