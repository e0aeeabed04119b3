package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Key string // rule and construct, without line numbers
	Msg string
	Pos string
}

type Report struct {
	prop     string
	findings []Finding
	counts   map[string]int
	samples  []string
	rules    []string
	fns      map[string]bool
	minimum  map[string]int
	assume   []string
}

func newReport(prop string) *Report {
	return &Report{prop: prop, counts: map[string]int{}, fns: map[string]bool{}, minimum: map[string]int{}}
}

func (r *Report) rule(s string) { r.rules = append(r.rules, s) }

func (r *Report) visit(x *X) {
	for f := range x.visited {
		r.fns[f.String()] = true
	}
}

func (r *Report) bad(key, pos, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	for _, f := range r.findings {
		if f.Key == key {
			return
		}
	}
	r.findings = append(r.findings, Finding{key, msg, pos})
}

func (r *Report) ok(kind string) { r.counts[kind]++ }

func (r *Report) sample(format string, args ...any) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(format, args...))
	}
}

// undecided: whatever the evaluator could not model counts against the property.
func (r *Report) undecided(x *X, what string) {
	for _, u := range x.undecided {
		r.bad("undecided:"+what+":"+u, "", "%s: cannot be decided: %s", what, u)
	}
	x.undecided = nil
}

func (r *Report) need(kind string, n int) { r.minimum[kind] = n }

type knownFinding struct{ prop, key, what string }

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<key> :: <what>
		rest := strings.TrimPrefix(l, "known: ")
		head, what, _ := strings.Cut(rest, " :: ")
		var k knownFinding
		k.what = what
		head = strings.TrimPrefix(head, "property=")
		id, key, ok := strings.Cut(head, " key=")
		if !ok {
			continue
		}
		k.prop, k.key = id, key
		r = append(r, k)
	}
	return r
}

func (r *Report) finish(verif, repo, tier string, start time.Time) int {
	for k, n := range r.minimum {
		if r.counts[k] < n {
			r.bad("coverage:"+k, "", "only %d instances of %q were analysed, at least %d are expected", r.counts[k], k, n)
		}
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var fresh, old []Finding
	for _, f := range r.findings {
		hit := false
		for _, k := range known {
			if k.prop == r.prop && k.key == f.Key {
				hit = true
			}
		}
		if hit {
			old = append(old, f)
		} else {
			fresh = append(fresh, f)
		}
	}
	var names []string
	for f := range r.fns {
		names = append(names, f)
	}
	sort.Strings(names)
	cov := map[string]any{
		"explanation":        "static analysis of the type-checked SSA form of /repo's working tree; every count below was measured on this run",
		"rules":              r.rules,
		"functions_analysed": len(names),
		"functions":          clip(names, 60),
		"samples":            r.samples,
		"known_findings":     len(old),
	}
	for k, v := range r.counts {
		cov[k] = v
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	evd := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": r.assume,
	}
	if r.assume == nil {
		evd["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(evd, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
	for _, f := range old {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.prop, f.Msg, f.Pos)
	}
	var cs []string
	for k, v := range r.counts {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf("%s: %d functions, %s\n", r.prop, len(names), strings.Join(cs, " "))
	if len(fresh) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.prop+".violations.txt")
	var sb strings.Builder
	for _, f := range fresh {
		fmt.Fprintf(&sb, "%s: %s [%s]\n", f.Pos, f.Msg, f.Key)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range fresh {
		if i >= 20 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		fmt.Printf("%s: %s [%s]\n", f.Pos, f.Msg, f.Key)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}

func clip(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string{}, s[:n]...), fmt.Sprintf("... %d more", len(s)-n))
	}
	return s
}

var _ *ssa.Function
