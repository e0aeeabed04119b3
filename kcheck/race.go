package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// access to memory that more than one goroutine can reach
type access struct {
	loc    *Term
	part   string // "", "contents"
	write  bool
	atomic bool
	held   lockset
	e      *entry
	pos    token.Pos
}

func (a access) what() string {
	if a.part != "" {
		return a.part + " of " + a.loc.String()
	}
	return a.loc.String()
}

// sharing is C13.
func (c *connRun) sharing() {
	p, rep, w := c.p, c.rep, c.w
	var accs []access
	order := map[[2]*Term]token.Pos{}
	shared := func(t *Term) bool {
		r := rootOf(t)
		return r == w.c || (r.op == OAlloc || r.op == OMakeSlice || r.op == OMakeMap) && r.n <= w.mark || r.op == OGlobal
	}
	for _, e := range w.entries {
		add := func(loc *Term, part string, write, atomic bool, held lockset, pos token.Pos) {
			rep.ok("accesses")
			accs = append(accs, access{loc, part, write, atomic, held.clone(), e, pos})
		}
		do := w.entry("Do")
		for _, o := range e.live() {
			k := &walker{w: w, order: order}
			k.bad = func(key string, pos token.Pos, format string, args ...any) {
				rep.bad(key+":"+e.name, p.pos(pos), e.name+": "+format, args...)
			}
			k.visit = func(v *Ev, held lockset, depth int) {
				switch v.kind {
				case "load":
					add(v.args[0], "", false, false, held, v.pos)
				case "store":
					if shared(v.args[0]) {
						add(v.args[0], "", true, false, held, v.pos)
					}
				case "atomic":
					if shared(v.args[0]) {
						add(v.args[0], "", v.name != "load", true, held, v.pos)
					}
				case "mapget", "maplen", "next":
					if shared(v.args[0]) || v.args[0].op == OSym {
						add(c.mapKey(v.args[0]), "contents", false, false, held, v.pos)
					}
				case "mapset", "mapdel":
					if shared(v.args[0]) || v.args[0].op == OSym {
						add(c.mapKey(v.args[0]), "contents", true, false, held, v.pos)
					}
				case "copy":
					if shared(v.args[0]) {
						add(rootOf(v.args[0]), "contents", true, false, held, v.pos)
					}
				case "call":
					switch {
					case v.fn == w.ci.encFlush || v.dyn != nil && v.dyn == do.encode:
						add(v.args[0], "state", true, false, held, v.pos)
					case w.isRing(v, w.ci.readN) || w.isRaw(v, "Read"):
						if b := v.args[1]; shared(b) {
							add(rootOf(b), "contents", true, false, held, v.pos)
						}
					case w.isRing(v, w.ci.writeN):
						if b := v.args[1]; shared(b) {
							add(rootOf(b), "contents", false, false, held, v.pos)
						}
					case v.dyn != nil || v.fn != nil && !w.ci.p.inRepo(v.fn):
						if op, _ := lockOp(v); op != "" || v.fn != nil && v.fn.Package() != nil && v.fn.Package().Pkg.Path() == "sync" {
							break
						}
						for _, a := range v.args {
							if a != nil && a.typ != nil && (a.op == OAlloc || a.op == OMakeSlice || a.op == OSlice || a.op == OFieldAddr) && shared(a) && isRef(a.typ) {
								add(rootOf(a), "contents", true, false, held, v.pos)
							}
						}
					}
				case "go":
					rep.bad("go:"+e.name, p.pos(v.pos), "%s starts a goroutine", e.name)
				}
				if len(held) > 0 && c.waits(v) {
					for _, m := range sortedTerms(map[*Term]bool(held)) {
						rep.bad("lock:wait:"+e.name, p.pos(v.pos), "%s waits while holding %s", e.name, m)
					}
				}
				if op, _ := lockOp(v); op == "lock" || op == "rlock" {
					rep.ok("lock_operations")
				}
			}
			end := k.walk(o.st.events(), lockset{}, 0)
			if !o.stop {
				for _, m := range sortedTerms(map[*Term]bool(end)) {
					rep.bad("lock:leak:"+e.name, p.pos(o.pos), "%s returns while holding %s", e.name, m)
				}
			}
		}
	}
	// construction is over when the first goroutine starts
	if len(w.gos) > 0 {
		first := w.gos[0]
		for h := w.st.heap; h != nil && h != first.st.heap; h = h.parent {
			k := h.key
			if k.op == OElems {
				k = k.args[0]
			}
			if rootOf(k) == w.c {
				rep.bad("construct:late", p.pos(first.pos), "%s is set after the first goroutine was started", k)
			}
		}
	}
	overlap := func(a, b *Term) bool {
		if a == b {
			return true
		}
		for q := a; q.op == OFieldAddr || q.op == OIndexAddr; q = q.args[0] {
			if q.args[0] == b {
				return true
			}
		}
		for q := b; q.op == OFieldAddr || q.op == OIndexAddr; q = q.args[0] {
			if q.args[0] == a {
				return true
			}
		}
		return false
	}
	for i, a := range accs {
		for _, b := range accs[i:] {
			if !a.write && !b.write || a.atomic && b.atomic || a.part != b.part || !overlap(a.loc, b.loc) {
				continue
			}
			if a.e == b.e && !a.e.multi {
				continue
			}
			rep.ok("conflicting_pairs")
			common := false
			for m, ex := range a.held {
				if bx, ok := b.held[m]; ok && (ex || bx || !a.write && !b.write) {
					// shared locks protect readers only against writers
					if (ex || !a.write) && (bx || !b.write) {
						common = true
					}
				}
			}
			if !common {
				x, y := a, b
				if !x.write {
					x, y = y, x
				}
				rep.bad("race:"+x.what()+":"+x.e.name+":"+y.e.name, p.pos(x.pos), "%s: %s writes it while %s uses it at %s without a common lock", x.what(), x.e.name, y.e.name, p.pos(y.pos))
			}
		}
	}
	// lock order
	for k := range order {
		seen := map[*Term]bool{}
		work := []*Term{k[1]}
		for len(work) > 0 {
			t := work[0]
			work = work[1:]
			if seen[t] {
				continue
			}
			seen[t] = true
			for q := range order {
				if q[0] == t {
					work = append(work, q[1])
				}
			}
		}
		if seen[k[0]] {
			rep.bad("lock:order", p.pos(order[k]), "%s and %s are taken in different orders", k[0], k[1])
		}
	}
	c.strays()
	rep.need("lock_operations", 3)
	rep.need("accesses", 10)
}

// mapKey: a map reached through a mutable field is identified by the field.
func (c *connRun) mapKey(t *Term) *Term {
	if e, ok := t.info.(*Ev); ok && e.kind == "load" {
		return e.args[0]
	}
	return t
}

// waits: operations during which no lock may be held.
func (c *connRun) waits(v *Ev) bool {
	w := c.w
	if v.kind == "send" && c.replySend(v) {
		return false
	}
	return blocking(w, v)
}

// strays: functions that reach into a connection without being part of the analysis.
func (c *connRun) strays() {
	p, rep, w := c.p, c.rep, c.w
	seen := map[*ssa.Function]bool{}
	for f := range w.connX.visited {
		seen[f] = true
	}
	for _, e := range w.entries {
		for f := range e.x.visited {
			seen[f] = true
		}
	}
	for _, fn := range p.allFuncs() {
		if seen[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var x ssa.Value
				switch in := in.(type) {
				case *ssa.FieldAddr:
					x = in.X
				case *ssa.Field:
					x = in.X
				case *ssa.UnOp:
					if in.Op == token.MUL && types.Identical(in.Type(), w.ci.typ) {
						rep.bad("stray:copy:"+fn.String(), p.pos(in.Pos()), "%s copies a connection", fn)
					}
					continue
				default:
					continue
				}
				t := x.Type()
				if pt := pointee(t); pt != nil {
					t = pt
				}
				if types.Identical(t, w.ci.typ) {
					rep.bad("stray:"+fn.String(), p.pos(in.Pos()), "%s reaches into a connection from outside", fn)
				}
			}
		}
	}
}

func connCheck(f func(c *connRun)) func(p *Prog, rep *Report, verif string) {
	return func(p *Prog, rep *Report, verif string) {
		for _, c := range p.connRuns(rep) {
			f(c)
		}
	}
}

func init() {
	checks["C09"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("Do registers its own decode function and a new reply channel under a unique id before encoding, removes nothing else, and the receiver looks up the correlation id of each frame, removes it, and sends the outcome of exactly that decode function on exactly that reply channel, once; unknown ids are ignored")
		connCheck(func(c *connRun) { c.routing() })(p, rep, verif)
	}
	checks["C10"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("in Do one lock is held from calling encode until Flush has returned; nothing else writes")
		connCheck(func(c *connRun) { c.atomicity() })(p, rep, verif)
	}
	checks["C11"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("every wait in Do watches a channel that every way out of the receiver closes; failing reads, closed rings, malformed frames and Close end the receiver; the receiver never blocks on a reply")
		connCheck(func(c *connRun) { c.waiting() })(p, rep, verif)
		b, err := p.brokerInfo()
		if err != nil {
			rep.bad("api:info", "", "%v", err)
			return
		}
		b.produceAcks(rep)
	}
	checks["C12"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("least fixpoint of wakeups: what each goroutine's exit closes wakes the others; from each exit and from Close everything must end, and Close waits for all of them")
		connCheck(func(c *connRun) { c.teardown() })(p, rep, verif)
	}
	checks["C13"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("lockset analysis of every access to memory reachable by more than one goroutine; lock balance, no double locking, no cyclic lock order, no waiting with a lock held")
		connCheck(func(c *connRun) { c.sharing() })(p, rep, verif)
	}
	checks["C14"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("inequalities on the announced size entail every allocation, read and index; a round reads size then payload; the decoder handed over sees exactly that payload after the header")
		connCheck(func(c *connRun) { c.frames14() })(p, rep, verif)
	}
	for _, k := range []string{"C05", "C06"} {
		k, base := k, checks[k]
		which := map[string]string{"C05": "reply", "C06": "send"}[k]
		checks[k] = func(p *Prog, rep *Report, verif string) {
			base(p, rep, verif)
			rep.rule("on every path of Do the outcome of writing and decoding is what Do returns")
			connCheck(func(c *connRun) { c.results(which) })(p, rep, verif)
		}
	}
}
