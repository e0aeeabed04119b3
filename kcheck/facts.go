package main

import (
	"go/constant"
	"go/types"
	"math"
	"math/bits"
)

// Facts is the relational part of an abstract state: a conjunction of linear
// inequalities and disequalities over integer terms and of truth values of
// other boolean terms.  It is persistent (a linked list).
type Facts struct {
	parent *Facts
	ge     *Lin  // *ge >= 0
	ne     *Lin  // *ne != 0
	b      *Term // b is bv
	bv     bool
	depth  int
	dead   bool
}

var rootFacts = &Facts{}

func (f *Facts) push(n Facts) *Facts {
	n.parent = f
	n.depth = f.depth + 1
	n.dead = f.dead
	return &n
}

// since returns the facts added after base, oldest first.
func (f *Facts) since(base *Facts) []*Facts {
	var r []*Facts
	for x := f; x != nil && x != base; x = x.parent {
		r = append(r, x)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (f *Facts) truth(t *Term) (bool, bool) {
	for x := f; x != nil; x = x.parent {
		if x.b == t {
			return x.bv, true
		}
	}
	return false, false
}

// assume returns f with the boolean term t taken to be true.
func (f *Facts) assume(t *Term) *Facts {
	if v, ok := t.boolVal(); ok {
		if v {
			return f
		}
		r := f.push(Facts{})
		r.dead = true
		return r
	}
	switch f.decide(t) {
	case 1:
		return f
	case -1:
		r := f.push(Facts{})
		r.dead = true
		return r
	}
	return f.assumeRaw(t)
}

func (f *Facts) assumeRaw(t *Term) *Facts {
	switch t.op {
	case OGE0:
		l := linOf(t.args[0])
		return f.push(Facts{ge: &l})
	case OEQ0:
		l := linOf(t.args[0])
		m := l.scale(-1)
		return f.push(Facts{ge: &l}).push(Facts{ge: &m})
	case ONot:
		a := t.args[0]
		if a.op == OEQ0 {
			l := linOf(a.args[0])
			return f.push(Facts{ne: &l})
		}
		return f.push(Facts{b: a, bv: false})
	}
	return f.push(Facts{b: t, bv: true})
}

// decide: 1 entailed, -1 refuted, 0 unknown
func (f *Facts) decide(t *Term) int {
	if v, ok := t.boolVal(); ok {
		if v {
			return 1
		}
		return -1
	}
	switch t.op {
	case OGE0:
		l := linOf(t.args[0])
		if f.entailsGE(l) {
			return 1
		}
		if f.entailsGE(l.scale(-1).addc(-1)) {
			return -1
		}
		return 0
	case OEQ0:
		l := linOf(t.args[0])
		if f.entailsGE(l) && f.entailsGE(l.scale(-1)) {
			return 1
		}
		if f.entailsNE(l) {
			return -1
		}
		return 0
	case ONot:
		return -f.decide(t.args[0])
	case OEq:
		if v, ok := f.truth(t); ok {
			if v {
				return 1
			}
			return -1
		}
		// equality with nil through a known equality
		a, b := f.resolve(t.args[0]), f.resolve(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			e := mkEq(a, b)
			if e != t {
				return f.decide(e)
			}
		}
		return 0
	}
	if v, ok := f.truth(t); ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// resolve replaces a term by the constant it is known to equal.
func (f *Facts) resolve(t *Term) *Term {
	if t == nil || t.op == OConst {
		return t
	}
	if isBool(t.typ) {
		switch f.decide(t) {
		case 1:
			return mkBool(true)
		case -1:
			return mkBool(false)
		}
		return t
	}
	for x := f; x != nil; x = x.parent {
		if x.b != nil && x.bv && x.b.op == OEq {
			if x.b.args[0] == t && x.b.args[1].op == OConst {
				return x.b.args[1]
			}
			if x.b.args[1] == t && x.b.args[0].op == OConst {
				return x.b.args[0]
			}
		}
	}
	return t
}

// resolveInt returns the constant an integer term is known to equal.
func (f *Facts) constOf(t *Term) (int64, bool) {
	if n, ok := t.intVal(); ok {
		return n, true
	}
	l := linOf(t)
	for x := f; x != nil; x = x.parent {
		if x.ge == nil || len(x.ge.m) == 0 {
			continue
		}
		// candidate: x.ge = +-(l' - c) where l' is l's variable part
		for _, s := range []int64{1, -1} {
			d := l.sub(x.ge.scale(s))
			if len(d.m) == 0 {
				c := d.c
				if f.entailsGE(l.addc(-c)) && f.entailsGE(l.scale(-1).addc(c)) {
					return c, true
				}
			}
		}
	}
	return 0, false
}

func (f *Facts) eq(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return f.decide(mkEq(a, b)) == 1
}
func (f *Facts) neq(a, b *Term) bool { return f.decide(mkEq(a, b)) == -1 }
func (f *Facts) le(a, b *Term) bool  { return f.entailsGE(linOf(b).sub(linOf(a))) }
func (f *Facts) lt(a, b *Term) bool  { return f.entailsGE(linOf(b).sub(linOf(a)).addc(-1)) }

func (f *Facts) entailsNE(l Lin) bool {
	if len(l.m) == 0 {
		return l.c != 0
	}
	if f.entailsGE(l.addc(-1)) || f.entailsGE(l.scale(-1).addc(-1)) {
		return true
	}
	for x := f; x != nil; x = x.parent {
		if x.ne != nil {
			d := x.ne.sub(l)
			e := x.ne.add(l)
			if zeroBy(f, d) || zeroBy(f, e) {
				return true
			}
		}
	}
	return false
}

func zeroBy(f *Facts, l Lin) bool {
	if len(l.m) == 0 {
		return l.c == 0
	}
	return f.entailsGE(l) && f.entailsGE(l.scale(-1))
}

const maxLen = int64(1) << 47

// atomRange gives the bounds an atom has by its type or form.
func atomRange(a *Term) (lo, hi int64, hasLo, hasHi bool) {
	switch a.op {
	case OLen, OCap:
		return 0, maxLen, true, true
	case OByte:
		return 0, 255, true, true
	case OVarLen:
		return 1, 10, true, true
	}
	if a.op == OPure && a.s == "hdrcount" {
		return 0, maxLen, true, true
	}
	if a.typ == nil {
		return
	}
	l, h, ok := intRange(a.typ)
	if !ok {
		return
	}
	b := a.typ.Underlying().(*types.Basic)
	if b.Info()&types.IsUntyped != 0 {
		return
	}
	if v, ok := constant.Int64Val(l); ok {
		lo, hasLo = v, true
	}
	if v, ok := constant.Int64Val(h); ok {
		hi, hasHi = v, true
	}
	return
}

var fmCount int

// entailsGE: f implies l >= 0, by refuting l <= -1 with Fourier-Motzkin
// elimination over the facts connected to l.
func (f *Facts) entailsGE(l Lin) bool {
	if len(l.m) == 0 {
		return l.c >= 0
	}
	if f.dead {
		return true
	}
	// quick: single atom with type range
	neg := l.scale(-1).addc(-1)
	return f.infeasible(neg)
}

func (f *Facts) infeasible(goal Lin) bool {
	fmCount++
	atoms := map[*Term]bool{}
	for _, m := range goal.m {
		atoms[m.atom] = true
	}
	var all []Lin
	var nes []Lin
	for x := f; x != nil; x = x.parent {
		if x.ge != nil {
			all = append(all, *x.ge)
		}
		if x.ne != nil {
			nes = append(nes, *x.ne)
		}
	}
	used := make([]bool, len(all))
	sys := []Lin{goal}
	for changed := true; changed; {
		changed = false
		for i, g := range all {
			if used[i] {
				continue
			}
			for _, m := range g.m {
				if atoms[m.atom] {
					used[i] = true
					changed = true
					for _, m2 := range g.m {
						atoms[m2.atom] = true
					}
					sys = append(sys, g)
					break
				}
			}
		}
	}
	for a := range atoms {
		lo, hi, hl, hh := atomRange(a)
		if hl && lo != math.MinInt64 {
			sys = append(sys, Lin{c: -lo, m: []Mono{{1, a}}})
		}
		if hh && hi != math.MaxInt64 {
			sys = append(sys, Lin{c: hi, m: []Mono{{-1, a}}})
		} else if hh {
			sys = append(sys, Lin{c: hi, m: []Mono{{-1, a}}})
		}
		if hl && lo == math.MinInt64 {
			// -2^63 cannot be negated; a + (2^63-1) + 1 >= 0
			sys = append(sys, Lin{c: math.MaxInt64, m: []Mono{{1, a}}})
		}
	}
	// disequalities at a boundary: g >= 0 and g != 0 give g-1 >= 0
	for pass := 0; pass < 2; pass++ {
		for _, ne := range nes {
			for i, g := range sys {
				if i == 0 && pass == 0 {
					// goal too
				}
				for _, s := range []int64{1, -1} {
					d := g.sub(ne.scale(s))
					if len(d.m) == 0 && d.c == 0 {
						sys[i] = g.addc(-1)
					}
				}
			}
		}
	}
	return fmInfeasible(sys)
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c <= 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > math.MaxInt64 {
		return 0, false
	}
	r := int64(lo)
	if (a < 0) != (b < 0) {
		r = -r
	}
	return r, true
}

func combine(a Lin, ka int64, b Lin, kb int64) (Lin, bool) {
	sc := func(l Lin, k int64) (Lin, bool) {
		c, ok := mulOv(l.c, k)
		if !ok {
			return Lin{}, false
		}
		r := Lin{c: c, m: make([]Mono, len(l.m))}
		for i, m := range l.m {
			v, ok := mulOv(m.coef, k)
			if !ok {
				return Lin{}, false
			}
			r.m[i] = Mono{v, m.atom}
		}
		return r, true
	}
	x, ok := sc(a, ka)
	if !ok {
		return Lin{}, false
	}
	y, ok := sc(b, kb)
	if !ok {
		return Lin{}, false
	}
	if _, ok := addOv(x.c, y.c); !ok {
		return Lin{}, false
	}
	return x.add(y), true
}

func fmInfeasible(sys []Lin) bool {
	for round := 0; round < 40; round++ {
		// constants
		var live []Lin
		seen := map[string]bool{}
		for _, l := range sys {
			l = l.tighten()
			if len(l.m) == 0 {
				if l.c < 0 {
					return true
				}
				continue
			}
			k := linKey(l)
			if seen[k] {
				continue
			}
			seen[k] = true
			live = append(live, l)
		}
		sys = live
		if len(sys) == 0 {
			return false
		}
		// choose the atom with the smallest product of positive and negative occurrences
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, l := range sys {
			for _, m := range l.m {
				if m.coef > 0 {
					pos[m.atom]++
				} else {
					neg[m.atom]++
				}
			}
		}
		var best *Term
		bc := math.MaxInt
		for _, l := range sys {
			for _, m := range l.m {
				c := pos[m.atom]*neg[m.atom] - pos[m.atom] - neg[m.atom]
				if c < bc || (c == bc && best != nil && m.atom.id < best.id) {
					bc, best = c, m.atom
				}
			}
		}
		var rest, ps, ns []Lin
		for _, l := range sys {
			c := int64(0)
			for _, m := range l.m {
				if m.atom == best {
					c = m.coef
				}
			}
			switch {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				rest = append(rest, l)
			}
		}
		for _, p := range ps {
			var cp int64
			for _, m := range p.m {
				if m.atom == best {
					cp = m.coef
				}
			}
			for _, n := range ns {
				var cn int64
				for _, m := range n.m {
					if m.atom == best {
						cn = -m.coef
					}
				}
				if r, ok := combine(p, cn, n, cp); ok {
					rest = append(rest, r)
				}
			}
		}
		if len(rest) > 600 {
			return false
		}
		sys = rest
	}
	return false
}

func linKey(l Lin) string {
	b := make([]byte, 0, 16+len(l.m)*12)
	b = appendInt(b, l.c)
	for _, m := range l.m {
		b = append(b, '|')
		b = appendInt(b, m.coef)
		b = append(b, '*')
		b = appendInt(b, int64(m.atom.id))
	}
	return string(b)
}

func appendInt(b []byte, n int64) []byte {
	if n < 0 {
		b = append(b, '-')
		if n == math.MinInt64 {
			return append(b, "min"...)
		}
		n = -n
	}
	if n >= 10 {
		b = appendInt(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

// substFacts rebuilds the facts with terms replaced.
func (f *Facts) subst(m map[*Term]*Term) *Facts {
	var list []*Facts
	for x := f; x != nil; x = x.parent {
		list = append(list, x)
	}
	r := rootFacts
	memo := map[*Term]*Term{}
	for i := len(list) - 1; i >= 0; i-- {
		x := list[i]
		switch {
		case x.ge != nil:
			t := substM(x.ge.term(), m, memo)
			l := linOf(t)
			if len(l.m) == 0 {
				if l.c < 0 {
					r = r.push(Facts{})
					r.dead = true
				}
				continue
			}
			r = r.push(Facts{ge: &l})
		case x.ne != nil:
			t := substM(x.ne.term(), m, memo)
			l := linOf(t)
			if len(l.m) == 0 {
				if l.c == 0 {
					r = r.push(Facts{})
					r.dead = true
				}
				continue
			}
			r = r.push(Facts{ne: &l})
		case x.b != nil:
			t := substM(x.b, m, memo)
			if v, ok := t.boolVal(); ok {
				if v != x.bv {
					r = r.push(Facts{})
					r.dead = true
				}
				continue
			}
			r = r.push(Facts{b: t, bv: x.bv})
		case x.dead:
			r = r.push(Facts{})
			r.dead = true
		}
	}
	return r
}

func (f *Facts) strings(base *Facts) []string {
	var r []string
	for _, x := range f.since(base) {
		switch {
		case x.ge != nil:
			r = append(r, x.ge.term().String()+" >= 0")
		case x.ne != nil:
			r = append(r, x.ne.term().String()+" != 0")
		case x.b != nil && x.bv:
			r = append(r, x.b.String())
		case x.b != nil:
			r = append(r, "!("+x.b.String()+")")
		}
	}
	return r
}
