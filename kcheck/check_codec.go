package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The wire specification: per message the fields in order.

type SpecField struct {
	Path string `json:"path"`
	Kind string `json:"kind"`
	Vers string `json:"versions"` // "0-8" or "0-2,5-8"
}

type SpecMsg struct {
	Name   string      `json:"name"`
	ApiKey int         `json:"apiKey"` // -1: not an api message
	Min    int64       `json:"min"`
	Max    int64       `json:"max"`
	Fields []SpecField `json:"fields"`
}

func loadSpec(verif string) ([]SpecMsg, error) {
	b, err := os.ReadFile(filepath.Join(verif, "spec", "messages.json"))
	if err != nil {
		return nil, err
	}
	var r []SpecMsg
	err = json.Unmarshal(b, &r)
	return r, err
}

func inRanges(s string, v int64) bool {
	for _, r := range strings.Split(s, ",") {
		a, b, ok := strings.Cut(r, "-")
		lo, _ := strconv.ParseInt(a, 10, 64)
		hi := lo
		if ok {
			hi, _ = strconv.ParseInt(b, 10, 64)
		}
		if v >= lo && v <= hi {
			return true
		}
	}
	return false
}

// layoutAt gives the flattened layout of one version.
func (m *SpecMsg) layoutAt(v int64) []string {
	var r []string
	var open []string
	closeTo := func(path string) {
		for len(open) > 0 && !strings.HasPrefix(path, open[len(open)-1]+"[]") {
			r = append(r, "End "+open[len(open)-1])
			open = open[:len(open)-1]
		}
	}
	for _, f := range m.Fields {
		if !inRanges(f.Vers, v) {
			continue
		}
		closeTo(f.Path)
		r = append(r, f.Kind+" "+f.Path)
		if f.Kind == "Array" {
			open = append(open, f.Path)
		}
	}
	closeTo("\x00")
	return r
}

var msgComment = regexp.MustCompile(`(?m)^// (\w+); (?:ApiKey: (\d+), )?Versions: (\d+)(?:-(\d+)|(\+))?`)

// genSpec writes the specification the tree implements, for review.
func genSpec(p *Prog, verif string) error {
	b, err := os.ReadFile(filepath.Join(p.dir, "message", "messages.gen.go"))
	if err != nil {
		return err
	}
	type rng struct {
		key      int
		min, max int64
	}
	ranges := map[string]rng{}
	for _, m := range msgComment.FindAllStringSubmatch(string(b), -1) {
		r := rng{key: -1}
		if m[2] != "" {
			r.key, _ = strconv.Atoi(m[2])
		}
		r.min, _ = strconv.ParseInt(m[3], 10, 64)
		r.max = r.min
		if m[4] != "" {
			r.max, _ = strconv.ParseInt(m[4], 10, 64)
		}
		ranges[m[1]] = r
	}
	types := p.codecTypes()
	rep := newReport("gen")
	var out []SpecMsg
	for _, c := range sortedTypes(types) {
		if !c.root {
			continue
		}
		r, ok := ranges[c.name]
		if !ok {
			return fmt.Errorf("no version range for %s", c.name)
		}
		m := SpecMsg{Name: c.name, ApiKey: r.key, Min: r.min, Max: r.max}
		// merge the per-version layouts
		var all [][]Item
		for v := r.min; v <= r.max; v++ {
			l, err := p.encodeLayout(c, v, rep)
			if err != nil {
				return fmt.Errorf("%s v%d: %v", c.name, v, err)
			}
			all = append(all, l)
		}
		m.Fields = mergeFields(all, r.min)
		out = append(out, m)
	}
	os.MkdirAll(filepath.Join(verif, "spec"), 0o755)
	f, err := os.Create(filepath.Join(verif, "spec", "messages.json"))
	if err != nil {
		return err
	}
	defer f.Close()
	fmt.Fprintln(f, "[")
	for i, m := range out {
		fs := m.Fields
		fmt.Fprintf(f, " {\"name\": %q, \"apiKey\": %d, \"min\": %d, \"max\": %d, \"fields\": [\n", m.Name, m.ApiKey, m.Min, m.Max)
		for j, x := range fs {
			c := ","
			if j == len(fs)-1 {
				c = ""
			}
			fmt.Fprintf(f, "  {\"path\": %q, \"kind\": %q, \"versions\": %q}%s\n", x.Path, x.Kind, x.Vers, c)
		}
		c := ","
		if i == len(out)-1 {
			c = ""
		}
		fmt.Fprintf(f, " ]}%s\n", c)
	}
	fmt.Fprintln(f, "]")
	return nil
}

func mergeFields(all [][]Item, min int64) []SpecField {
	type ent struct {
		f    SpecField
		vers map[int64]bool
	}
	var order []*ent
	find := func(path, kind string) int {
		for i, e := range order {
			if e.f.Path == path && e.f.Kind == kind {
				return i
			}
		}
		return -1
	}
	var flat func(items []Item) []SpecField
	flat = func(items []Item) []SpecField {
		var r []SpecField
		for _, it := range items {
			r = append(r, SpecField{Path: it.Path, Kind: it.Kind})
			r = append(r, flat(it.Sub)...)
		}
		return r
	}
	for vi, l := range all {
		at := 0
		for _, f := range flat(l) {
			i := find(f.Path, f.Kind)
			if i < 0 {
				e := &ent{f, map[int64]bool{}}
				order = append(order[:at:at], append([]*ent{e}, order[at:]...)...)
				i = at
			}
			order[i].vers[min+int64(vi)] = true
			at = i + 1
		}
	}
	var r []SpecField
	for _, e := range order {
		e.f.Vers = rangesOf(e.vers, min, min+int64(len(all))-1)
		r = append(r, e.f)
	}
	return r
}

func rangesOf(m map[int64]bool, lo, hi int64) string {
	var parts []string
	for v := lo; v <= hi; v++ {
		if !m[v] {
			continue
		}
		s := v
		for v < hi && m[v+1] {
			v++
		}
		parts = append(parts, fmt.Sprintf("%d-%d", s, v))
	}
	return strings.Join(parts, ",")
}

// codecRun does the work common to C01, C02, C03 and C05.
type codecRun struct {
	p     *Prog
	rep   *Report
	spec  []SpecMsg
	types map[string]*codecType
	dc    *decodeCtx
}

func newCodecRun(p *Prog, rep *Report, verif string) *codecRun {
	spec, err := loadSpec(verif)
	if err != nil {
		rep.bad("spec", "", "cannot read the specification: %v", err)
	}
	r := &codecRun{p: p, rep: rep, spec: spec, types: p.codecTypes()}
	r.dc = &decodeCtx{p: p, types: r.types, memo: map[string]*decResult{}, rep: rep}
	known := map[string]bool{}
	for _, m := range spec {
		known[m.Name] = true
	}
	for _, c := range sortedTypes(r.types) {
		if c.root && !known[c.name] {
			// a helper type of the package; only of interest if complete
			if c.size != nil && c.encode != nil && c.decode != nil {
				rep.bad("spec:"+c.name, p.pos(c.encode.Pos()), "message type %s is not in the specification", c.name)
			}
		}
	}
	return r
}

func errPos(err error) string {
	if c, ok := err.(*codecErr); ok {
		return c.pos
	}
	return ""
}

func (r *codecRun) each(f func(m *SpecMsg, c *codecType, v int64)) {
	for i := range r.spec {
		m := &r.spec[i]
		c := r.types[m.Name]
		if c == nil || c.size == nil || c.encode == nil || c.decode == nil {
			r.rep.bad("missing:"+m.Name, "", "message %s has no Size, Encode and Decode methods", m.Name)
			continue
		}
		for v := m.Min; v <= m.Max; v++ {
			f(m, c, v)
		}
	}
}

func diffLayout(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("at element %d: %s where %s is expected", i, x, y)
		}
	}
	return "equal"
}

func same(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }

func (r *codecRun) sizes() {
	p, rep := r.p, r.rep
	rep.rule("Size(v) = number of bytes of the sequence of Put calls that Encode(v) makes, as linear terms over field lengths (sums over arrays stay symbolic), for every message and version of the specification")
	r.each(func(m *SpecMsg, c *codecType, v int64) {
		l, err := p.encodeLayout(c, v, rep)
		if err != nil {
			rep.bad("size:"+c.name, errPos(err), "%s v%d: %v", c.name, v, err)
			return
		}
		s, err := p.sizeTerm(c, v, rep)
		if err != nil {
			rep.bad("size:"+c.name, errPos(err), "%s v%d: %v", c.name, v, err)
			return
		}
		w, err := sizeOfLayout(l, namedSym("t", c.typ), c.typ, 0)
		if err != nil {
			rep.bad("size:"+c.name, p.pos(c.size.Pos()), "%s v%d: %v", c.name, v, err)
			return
		}
		rep.ok("message_versions")
		if s != w {
			rep.bad("size:"+c.name, p.pos(c.size.Pos()), "%s v%d: Size is %s but %s bytes are encoded", c.name, v, s, w)
			return
		}
		rep.sample("%s v%d: %s", c.name, v, s)
	})
	rep.need("message_versions", 360)
}

func (r *codecRun) roundTrip() {
	p, rep := r.p, r.rep
	rep.rule("Decode(v) reads the same sequence of primitives into the same fields as Encode(v) writes from, array lengths and loop counts included, for every message and version")
	r.each(func(m *SpecMsg, c *codecType, v int64) {
		l, err := p.encodeLayout(c, v, rep)
		if err != nil {
			rep.bad("roundtrip:"+c.name, errPos(err), "encoding %s v%d: %v", c.name, v, err)
			return
		}
		d, err := r.dc.layout(c, v)
		if err != nil {
			rep.bad("roundtrip:"+c.name, errPos(err), "decoding %s v%d: %v", c.name, v, err)
			return
		}
		rep.ok("message_versions")
		rep.counts["wire_elements"] += len(flatten(l))
		if a, b := flatten(d), flatten(l); !same(a, b) {
			rep.bad("roundtrip:"+c.name, p.pos(c.decode.Pos()), "%s v%d: decoder and encoder disagree %s", c.name, v, diffLayout(a, b))
		}
	})
	rep.need("message_versions", 360)
}

func (r *codecRun) layout() {
	p, rep := r.p, r.rep
	rep.rule("the sequence of primitives that Encode(v) writes and Decode(v) reads equals the specified fields of that version, in order")
	r.each(func(m *SpecMsg, c *codecType, v int64) {
		want := m.layoutAt(v)
		if l, err := p.encodeLayout(c, v, rep); err != nil {
			rep.bad("layout:"+c.name+":encode", errPos(err), "encoding %s v%d: %v", c.name, v, err)
		} else if a := flatten(l); !sameFold(a, want) {
			rep.bad("layout:"+c.name+":encode", p.pos(c.encode.Pos()), "%s v%d encodes %s", c.name, v, diffLayout(a, want))
		}
		if l, err := r.dc.layout(c, v); err != nil {
			rep.bad("layout:"+c.name+":decode", errPos(err), "decoding %s v%d: %v", c.name, v, err)
		} else if a := flatten(l); !sameFold(a, want) {
			rep.bad("layout:"+c.name+":decode", p.pos(c.decode.Pos()), "%s v%d decodes %s", c.name, v, diffLayout(a, want))
		}
		rep.ok("message_versions")
		rep.counts["wire_elements"] += len(want)
	})
	rep.need("message_versions", 360)
}

func (r *codecRun) errors() {
	rep := r.rep
	rep.rule("on every path through Decode(v): the error of each step is examined before the next step; a failed step is the last one and makes Decode return a non-nil error")
	r.dc.errs = rep
	r.each(func(m *SpecMsg, c *codecType, v int64) {
		if _, err := r.dc.layout(c, v); err != nil {
			// a layout that cannot be derived is C02's and C03's concern, unless
			// the paths themselves could not be followed
			if strings.Contains(err.Error(), "can panic") {
				rep.bad("decode-panic:"+c.name, errPos(err), "%s v%d: %v", c.name, v, err)
			}
		}
		rep.ok("message_versions")
	})
	rep.need("message_versions", 360)
	rep.need("error_checks", 300)
}

var _ *ssa.Function

// field names are compared without regard to case: exporting a field is not a
// change of the wire format.
func sameFold(a, b []string) bool {
	return strings.EqualFold(strings.Join(a, "\n"), strings.Join(b, "\n"))
}
