package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Closing (C32): no channel is closed twice or used for sending after it was
// closed, and no counter of a WaitGroup drops below zero, however often and
// whenever connections, brokers and rings are closed.

// onceGuard: what makes sure that the step happens only once in the life of the
// object, or nil.
func (e *entry) onceGuard(evs []*Ev, i int, held map[*Ev]lockset, sets map[*Term]bool) *Term {
	v := evs[i]
	if v.once != nil {
		return v.once
	}
	f := v.st.facts
	for j := i - 1; j >= 0; j-- {
		q := evs[j]
		// a flag that is swapped, and never swapped back
		if q.kind == "atomic" && len(q.args) == 3 && q.res != nil && q.res.op != OTuple {
			old, o1 := q.args[1].intVal()
			nw, o2 := q.args[2].intVal()
			if o1 && o2 && old != nw && isBool(q.res.typ) && f.decide(q.res) == 1 && !sets[q.args[0]] {
				return q.args[0]
			}
		}
		// found open and closed in one critical section
		if q.kind == "select" && !q.block && q.chosen < 0 && v.kind == "chanclose" && !releasedBetween(evs[j:i+1], held) {
			for _, k := range q.cases {
				if !k.send && k.ch == v.args[0] {
					for mu, excl := range held[q] {
						if excl && held[v][mu] {
							return mu
						}
					}
				}
			}
		}
		// a flag found unset and set in one critical section
		if q.kind == "load" && q.res != nil && isBool(q.res.typ) && !sets[q.args[0]] {
			set := f.decide(q.res) == -1
			marked := false
			for k := j + 1; k < len(evs); k++ {
				s := evs[k]
				if s.kind == "store" && s.args[0] == q.args[0] {
					if b, ok := s.args[1].boolVal(); ok && b && commonLock(held[q], held[s]) && !releasedBetween(evs[j:k+1], held) {
						marked = true
					}
				}
			}
			if set && marked {
				return q.args[0]
			}
		}
	}
	return nil
}

func commonLock(a, b lockset) bool {
	for k, v := range a {
		if v && b[k] {
			return true
		}
	}
	return false
}

func releasedBetween(evs []*Ev, held map[*Ev]lockset) bool {
	for _, e := range evs {
		if op, _ := lockOp(e); op == "unlock" {
			return true
		}
	}
	return false
}

// unsetters: flags that are also given another value than the one that marks them.
func (c *connRun) unsetters() map[*Term]bool {
	r := map[*Term]bool{}
	for _, e := range c.w.entries {
		e.each(func(evs []*Ev, loop bool) {
			for _, v := range evs {
				switch {
				case v.kind == "store":
					if b, ok := v.args[1].boolVal(); !ok || !b {
						r[v.args[0]] = true
					}
				case v.kind == "atomic" && len(v.args) == 2:
					r[v.args[0]] = true // stored or added to
				}
			}
		})
	}
	// a flag swapped in more than one way
	type swap struct{ o, n int64 }
	seen := map[*Term]swap{}
	for _, e := range c.w.entries {
		e.each(func(evs []*Ev, loop bool) {
			for _, v := range evs {
				if v.kind != "atomic" || len(v.args) != 3 {
					continue
				}
				o, ok1 := v.args[1].intVal()
				n, ok2 := v.args[2].intVal()
				s := swap{o, n}
				if old, ok := seen[v.args[0]]; !ok1 || !ok2 || ok && old != s {
					r[v.args[0]] = true
				}
				seen[v.args[0]] = s
			}
		})
	}
	return r
}

// each visits every path: those that go around a loop, and those that leave.
func (e *entry) each(f func(evs []*Ev, loop bool)) {
	seen := map[*LoopInfo]bool{}
	var loops func(evs []*Ev)
	loops = func(evs []*Ev) {
		for _, v := range evs {
			if v.kind == "loop" && !seen[v.loop] {
				seen[v.loop] = true
				for _, b := range v.loop.backs {
					if !b.st.facts.dead {
						f(b.st.events(), true)
						loops(b.st.events())
					}
				}
			}
		}
	}
	for _, o := range e.live() {
		f(o.st.events(), false)
		loops(o.st.events())
	}
}

type closeSite struct {
	e     *entry
	guard *Term
	pos   string
}

func (c *connRun) closedOnce() {
	p, rep, w := c.p, c.rep, c.w
	sets := c.unsetters()
	shared := map[*Term][]closeSite{}
	type sendSite struct {
		e   *entry
		pos string
	}
	sends := map[*Term][]sendSite{}
	replyClosed := ""
	local := func(ch *Term) bool { return ch.op == OMakeChan && ch.n > w.mark }
	for _, e := range w.entries {
		rep.ok("activities")
		e.each(func(evs []*Ev, loop bool) {
			rep.ok("paths")
			held := c.heldAt(evs)
			count := map[*Term]int{}
			made := map[*Term]bool{}
			for _, v := range evs {
				for _, a := range v.args {
					if a != nil && local(a) {
						made[a] = true
					}
				}
			}
			for i, v := range evs {
				var out []*Term
				switch {
				case v.kind == "send":
					out = []*Term{v.args[0]}
				case v.kind == "select":
					for _, k := range v.cases {
						if k.send {
							out = append(out, k.ch)
						}
					}
				}
				for _, ch := range out {
					rep.ok("sends")
					if count[ch] > 0 {
						rep.bad("close:send:"+e.name, p.pos(v.pos), "%s sends on a channel it has closed, which panics", e.name)
					}
					sends[ch] = append(sends[ch], sendSite{e, p.pos(v.pos)})
				}
				pos := p.pos(v.pos)
				switch {
				case v.kind == "chanclose":
					ch := v.args[0]
					rep.ok("closes")
					count[ch]++
					if count[ch] > 1 {
						rep.bad("close:again:"+e.name, pos, "%s closes a channel twice on one path, which panics", e.name)
					}
					switch {
					case c.replySendCh(ch):
						if !c.receiverTakes() {
							rep.bad("close:reply", pos, "%s closes the reply channel of a call that a later frame may be for, too", e.name)
						}
						if e != c.rc {
							rep.bad("close:reply:other", pos, "%s closes the reply channel of a call, and %s may still send on it", e.name, c.rc.name)
						}
					case local(ch):
						if e.name == "Do" && registered(evs, ch) {
							replyClosed = pos
						}
					default:
						g := e.onceGuard(evs, i, held, sets)
						switch {
						case g != nil && rootOf(g) != w.c && rootOf(g).op != OGlobal && !(rootOf(g).op == OAlloc && rootOf(g).n <= w.mark):
							rep.bad("close:guard:"+e.name, pos, "%s guards closing a channel of the connection with something that is new in every call", e.name)
						case g != nil && rootOf(g).op == OGlobal:
							rep.bad("close:guard:"+e.name, pos, "%s guards closing a channel of the connection with something all connections share", e.name)
						case g == nil && e.multi:
							rep.bad("close:multi:"+e.name, pos, "%s closes a channel of the connection; the second call panics", e.name)
						case g == nil && loop:
							rep.bad("close:loop:"+e.name, pos, "%s closes a channel in every round of a loop, which panics", e.name)
						}
						shared[ch] = append(shared[ch], closeSite{e, g, pos})
					}
				case v.kind == "call" && v.name == "(*sync.WaitGroup).Done":
					rep.ok("counters")
					if e.multi {
						rep.bad("wg:multi:"+e.name, pos, "%s counts a WaitGroup of the connection down; too many calls panic", e.name)
					} else if loop {
						rep.bad("wg:loop:"+e.name, pos, "%s counts a WaitGroup down in every round of a loop", e.name)
					}
				}
			}
		})
	}
	for ch, cs := range shared {
		rep.ok("channels_closed")
		for _, s := range cs[1:] {
			a := cs[0]
			if s.e != a.e && (s.guard == nil || s.guard != a.guard) || s.e == a.e && s.guard != a.guard {
				rep.bad("close:both:"+a.e.name+":"+s.e.name, s.pos, "%s and %s (%s) both close a channel of the connection; the second one panics", s.e.name, a.e.name, a.pos)
			}
		}
		for _, s := range sends[ch] {
			for _, k := range cs {
				if s.e != k.e || k.e.multi {
					rep.bad("close:sender:"+s.e.name, s.pos, "%s sends on a channel of the connection that %s closes at %s, which panics if it is closed by then", s.e.name, k.e.name, k.pos)
				}
			}
		}
	}
	if replyClosed != "" {
		for ch, ss := range sends {
			if c.replySendCh(ch) {
				rep.bad("close:reply:do", replyClosed, "Do closes its reply channel, and %s may still send on it at %s", ss[0].e.name, ss[0].pos)
			}
		}
	}
	c.cleared()
	rep.need("activities", 4)
}

// cleared: a reference of the connection that another call or Close may be using
// is set to nil, without a lock that both hold. (Where both hold one, a use of
// the missing reference is C31's concern.)
func (c *connRun) cleared() {
	p, rep, w := c.p, c.rep, c.w
	type use struct {
		loc  *Term
		nils bool
		held lockset
		e    *entry
		pos  token.Pos
	}
	var uses []use
	for _, e := range w.entries {
		for _, o := range e.live() {
			k := &walker{w: w, order: map[[2]*Term]token.Pos{}}
			k.bad = func(string, token.Pos, string, ...any) {}
			k.visit = func(v *Ev, held lockset, depth int) {
				switch {
				case v.kind == "load" && rootOf(v.args[0]) == w.c:
					uses = append(uses, use{v.args[0], false, held.clone(), e, v.pos})
				case v.kind == "store" && rootOf(v.args[0]) == w.c && v.args[1].isNil():
					uses = append(uses, use{v.args[0], true, held.clone(), e, v.pos})
				}
			}
			k.walk(o.st.events(), lockset{}, 0)
		}
	}
	for _, a := range uses {
		if !a.nils {
			continue
		}
		rep.ok("cleared_references")
		for _, b := range uses {
			if b.loc == a.loc && !b.nils && (a.e != b.e || a.e.multi) && !commonLock(a.held, b.held) {
				rep.bad("close:cleared:"+a.e.name, p.pos(a.pos), "%s clears %s, which %s may still need at %s", a.e.name, a.loc, b.e.name, p.pos(b.pos))
				break
			}
		}
	}
}

// registered: the channel is stored where other goroutines find it.
func registered(evs []*Ev, ch *Term) bool {
	for _, v := range evs {
		if v.kind == "mapset" && len(v.args) > 2 && contains(v.args[2], func(t *Term) bool { return t == ch }) {
			return true
		}
	}
	return false
}

// ringCloses: Close of the ring, which the two goroutines and Close of the
// connection all call.
func ringCloses(p *Prog, rep *Report) {
	ri, err := p.ringInfo()
	if err != nil {
		rep.bad("ring", "", "%v", err)
		return
	}
	silent := newReport("")
	for _, r := range ri.runs(silent) {
		// channels that any operation of the ring closes or sends on
		closed := map[*Term]string{}
		sent := map[*Term]string{}
		cleared := map[*Term]*Ev{}
		used := map[*Term]string{}
		x := newX(p)
		x.allocs = r.mark
		x.watch = func(a *Term) bool { return rootOf(a) == r.r }
		st := r.st
		st.trace = nil
		scan := func(name string, outs []CallOut) {
			e := &entry{name: name, outs: outs, multi: true}
			e.each(func(evs []*Ev, loop bool) {
				rep.ok("ring_paths")
				for i, v := range evs {
					switch {
					case v.kind == "chanclose":
						rep.ok("closes")
						if g := e.onceGuard(evs, i, nil, nil); g == nil || rootOf(g) != r.r {
							rep.bad("ring:close:"+name, p.pos(v.pos), "%s closes a channel of the ring, which is closed more than once", name)
						}
						if old, ok := closed[v.args[0]]; ok && old != name {
							rep.bad("ring:both", p.pos(v.pos), "%s and %s both close a channel of the ring", name, old)
						}
						closed[v.args[0]] = name
					case v.kind == "store" && rootOf(v.args[0]) == r.r && v.args[1].isNil():
						cleared[v.args[0]] = v
					case v.kind == "load" && rootOf(v.args[0]) == r.r:
						used[v.args[0]] = name
					case v.kind == "send":
						sent[v.args[0]] = p.pos(v.pos)
					case v.kind == "select":
						for _, k := range v.cases {
							if k.send {
								sent[k.ch] = p.pos(v.pos)
							}
						}
					}
				}
			})
		}
		scan("ring.Close", x.Run(ri.cl, []*Term{r.r}, nil, st, nil, 0))
		rep.undecided(x, "ring.Close")
		rep.visit(x)
		for _, d := range r.sides {
			scan("ring."+d.name, d.outs)
			rep.visit(d.x)
		}
		for loc, v := range cleared {
			by, ok := used[loc]
			if !ok {
				by = ri.usesField(loc)
			}
			if by == "" && fieldUsed(ri.cl, loc) {
				by = "another Close"
			}
			if by != "" {
				rep.bad("ring:cleared", p.pos(v.pos), "the ring clears %s, which %s may still need", loc, by)
			}
		}
		for ch, by := range closed {
			if pos, ok := sent[ch]; ok {
				rep.bad("ring:send", pos, "the ring sends on a channel that %s closes, which panics after that", by)
			}
		}
	}
	rep.need("ring_paths", 3)
}

// fieldUsed: fn reads the field.
func fieldUsed(fn *ssa.Function, loc *Term) bool {
	if loc.op != OFieldAddr {
		return false
	}
	t := pointee(loc.args[0].typ)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || int64(fa.Field) != loc.n || t == nil || pointee(fa.X.Type()) == nil || !types.Identical(pointee(fa.X.Type()), t) {
				continue
			}
			for _, u := range *fa.Referrers() {
				if _, ok := u.(*ssa.UnOp); ok {
					return true
				}
			}
		}
	}
	return false
}

// brokerCloses: Broker.Close leaves the broker as it is, so that it can be
// called again.
func brokerCloses(p *Prog, rep *Report) {
	fn := p.method(kafkaPkg, "Broker", "Close")
	connClose := p.method(kafkaPkg, "Conn", "Close")
	if fn == nil || connClose == nil {
		rep.bad("broker:close", "", "Broker.Close or Conn.Close not found")
		return
	}
	x := newX(p)
	b := namedSym("b", fn.Params[0].Type())
	b.nonnil = true
	x.atomic = func(f2 *ssa.Function) bool { return f2 == connClose }
	outs := x.Run(fn, []*Term{b}, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	rep.undecided(x, "Broker.Close")
	e := &entry{name: "Broker.Close", outs: outs, multi: true}
	for _, o := range e.live() {
		rep.ok("broker_close_paths")
		if o.panic || o.stop {
			rep.bad("broker:panic", p.pos(o.pos), "Broker.Close can panic or block")
		}
	}
	e.each(func(evs []*Ev, loop bool) {
		for i, v := range evs {
			switch {
			case v.kind == "chanclose" && e.onceGuard(evs, i, nil, nil) == nil:
				rep.bad("broker:chan", p.pos(v.pos), "Broker.Close closes a channel; the second call panics")
			case v.kind == "store" && rootOf(v.args[0]) == b && v.args[1].isNil():
				rep.bad("broker:nil", p.pos(v.pos), "Broker.Close clears a reference of the broker, which the next call, or one that is under way, needs")
			}
		}
	})
	rep.need("broker_close_paths", 1)
}

func checkCloses(p *Prog, rep *Report, verif string) {
	rep.rule("every channel of a connection is closed on at most one path position of one goroutine that is started once per connection, or under a sync.Once or a flag checked and set atomically; nothing sends on a channel that another activity closes, or after closing it; WaitGroup counters only go down once per goroutine")
	rep.rule("the ring's and the broker's Close can be repeated: no unguarded channel close, no reference cleared")
	connCheck(func(c *connRun) { c.closedOnce() })(p, rep, verif)
	ringCloses(p, rep)
	brokerCloses(p, rep)
}

func init() { checks["C32"] = checkCloses }
