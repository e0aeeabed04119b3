package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rstate is the state of the automaton replaying one side of the ring.
type rstate struct {
	cur       *Term // next slot, possibly equal to the capacity (meaning 0)
	q         *Term // bytes transferred
	S         *Term // value of the other side's cursor loaded last
	pend      *Term // byte taken from the ring and not yet handed out
	fresh     bool  // S was loaded after the last wait
	dirty     bool  // bytes transferred since the last publication
	owed      bool  // bytes transferred or published since the last wakeup
	stop      bool  // woken by Close, nothing transferred since
	evid      bool  // the ring is known to be closed
	loadAfter bool  // S was loaded after that was known
	closeCase bool
}

type rviol struct {
	prop, key string
	pos       token.Pos
	msg       string
}

type rwalk struct {
	r     *ringRun
	d, o  *ringSide
	waitC map[*Term]bool // channels this side waits on
	tellC map[*Term]bool // channels the other side waits on
	memo  map[string]rloop
	vs    []rviol
	count map[string]int
}

type rloop struct {
	s  rstate
	vs []rviol
}

func (k *rwalk) bad(prop, key string, pos token.Pos, format string, as ...any) {
	k.vs = append(k.vs, rviol{prop, key + ":" + k.d.name, pos, k.d.name + " " + fmt.Sprintf(format, as...)})
}

// isCur: v is the slot cur stands for.
func (k *rwalk) isCur(f *Facts, v, cur *Term) bool {
	if f.lt(cur, k.r.size) {
		return f.eq(v, cur)
	}
	if f.eq(cur, k.r.size) {
		return f.eq(v, mkInt(0))
	}
	return v.op == OBin && v.s == "%" && f.eq(v.args[0], cur) && f.eq(v.args[1], k.r.size)
}

func (k *rwalk) canon(f *Facts, cur *Term) *Term {
	if f.lt(cur, k.r.size) {
		return cur
	}
	if f.eq(cur, k.r.size) {
		return mkInt(0)
	}
	return nil
}

// next: the slot after cur.
func (k *rwalk) next(f *Facts, cur *Term) *Term {
	c := k.canon(f, cur)
	if c == nil {
		return nil
	}
	return k.canon(f, mkAddC(c, 1))
}

// room: cnt (nil: one) slots from cur may be transferred.
func (k *rwalk) room(f *Facts, s rstate, cnt *Term) bool {
	if s.S == nil {
		return false
	}
	c := k.canon(f, s.cur)
	if c == nil {
		return false
	}
	if cnt == nil {
		if k.d.writer {
			if n := k.canon(f, mkAddC(c, 1)); n != nil && f.neq(n, s.S) {
				return true
			}
			return f.neq(k.rem(c), s.S)
		}
		return f.neq(c, s.S)
	}
	end := mkAdd(c, cnt)
	if k.d.writer {
		if f.lt(c, s.S) {
			return f.lt(end, s.S)
		}
		return f.le(s.S, c) && (f.lt(end, k.r.size) || f.le(end, k.r.size) && f.lt(mkInt(0), s.S))
	}
	if f.lt(c, s.S) {
		return f.le(end, s.S)
	}
	return f.lt(s.S, c) && f.le(end, k.r.size)
}

// full: there is provably nothing to transfer.
func (k *rwalk) full(f *Facts, s rstate) bool {
	if s.S == nil {
		return false
	}
	if !k.d.writer {
		return k.isCur(f, s.S, s.cur)
	}
	c := k.canon(f, s.cur)
	return c != nil && (k.isCur(f, s.S, mkAddC(c, 1)) || f.eq(k.rem(c), s.S))
}

// rem: (c + 1) % size
func (k *rwalk) rem(c *Term) *Term {
	return mk(OBin, s32, "%", 0, mkAddC(c, 1), k.r.size)
}

var s32 = types.Typ[types.Int32]

// source: v is byte q of the caller's buffer.
func (k *rwalk) source(f *Facts, v, q *Term) bool {
	if v.op != OIndex {
		return false
	}
	b, i := v.args[0], v.args[1]
	for b.op == OSlice {
		i = mkAdd(b.args[1], i)
		b = b.args[0]
	}
	return b == k.d.buf && f.eq(i, q)
}

func (k *rwalk) target(f *Facts, a, q *Term) (mine, ok bool) {
	if a.op != OIndexAddr {
		return false, false
	}
	b, i := a.args[0], a.args[1]
	for b.op == OSlice {
		i = mkAdd(b.args[1], i)
		b = b.args[0]
	}
	return b == k.d.buf, b == k.d.buf && f.eq(i, q)
}

func (k *rwalk) moved(s *rstate, n *Term, f *Facts) {
	c := k.canon(f, s.cur)
	if c == nil {
		c = s.cur
	}
	s.cur = mkAdd(c, n)
	s.dirty, s.owed, s.stop = true, true, false
}

// run replays evs; feasible is false if the path cannot be taken.
func (k *rwalk) run(evs []*Ev, s rstate, f *Facts, depth int) (_ rstate, feasible bool) {
	d, r := k.d, k.r
	var m map[*Term]*Term
	arg := func(e *Ev, i int) *Term {
		if m == nil {
			return e.args[i]
		}
		return subst(e.args[i], m)
	}
	for _, e := range evs {
		switch e.kind {
		case "loop":
			var post map[*Term]*Term
			s, post = k.loop(e, s, f, depth)
			if post != nil {
				if m == nil {
					m = map[*Term]*Term{}
				}
				for a, b := range post {
					m[a] = b
				}
				s.cur, s.q = subst(s.cur, post), subst(s.q, post)
				if s.S != nil {
					s.S = subst(s.S, post)
				}
			}
		case "atomic":
			a := arg(e, 0)
			switch {
			case e.name == "load" && a == d.other:
				k.count["cursor_loads"]++
				s.S, s.fresh = e.res, true
				if s.evid {
					s.loadAfter = true
				}
			case e.name == "load":
			case a == d.own && e.name == "store":
				k.count["publications"]++
				if v := arg(e, 1); !k.isCur(f, v, s.cur) {
					if s.dirty {
						k.bad("C15", "publish", e.pos, "publishes position %s, but bytes were transferred up to %s only", v, s.cur)
					} else {
						k.bad("C15", "publish", e.pos, "moves its position to %s without transferring bytes", v)
					}
				}
				if s.pend != nil {
					k.bad("C15", "publish:early", e.pos, "gives a slot back before its byte was handed out")
				}
				s.dirty = false
			case a == d.other:
				k.bad("C15", "publish:other", e.pos, "changes the position of the other side")
			case a == d.own:
				k.bad("C15", "publish:op", e.pos, "changes its position with an operation that is not analysed")
			}
		case "store":
			a := arg(e, 0)
			if a == d.own || a == d.other {
				k.bad("C15", "race:store", e.pos, "stores a position without atomic operations")
				continue
			}
			if i := r.slot(a); i != nil {
				if !d.writer {
					k.bad("C15", "slot:reader", e.pos, "writes into the ring although it is the reader")
					continue
				}
				k.count["transfers"]++
				if !k.isCur(f, i, s.cur) {
					k.bad("C15", "slot", e.pos, "stores into slot %s while %s is the next one", i, s.cur)
				}
				if !k.room(f, s, nil) {
					k.bad("C15", "room", e.pos, "may overwrite a byte that was not read yet (slot %s, reader at %v)", i, s.S)
				}
				if !k.source(f, arg(e, 1), s.q) {
					k.bad("C15", "byte", e.pos, "stores %s instead of byte %s of its argument", arg(e, 1), s.q)
				}
				if !f.lt(s.q, d.n) {
					k.bad("C15", "many", e.pos, "may write more than n bytes")
				}
				k.moved(&s, mkInt(1), f)
				s.q = mkAddC(s.q, 1)
				continue
			}
			if mine, ok := k.target(f, a, s.q); mine && !d.writer {
				if !ok {
					k.bad("C15", "byte:place", e.pos, "hands out a byte at %s instead of position %s", a, s.q)
				}
				if s.pend == nil || arg(e, 1) != s.pend {
					k.bad("C15", "byte", e.pos, "hands out %s instead of the next byte of the ring", arg(e, 1))
				}
				if !f.lt(s.q, d.n) {
					k.bad("C15", "many", e.pos, "may read more than n bytes")
				}
				s.pend = nil
				s.q = mkAddC(s.q, 1)
			} else if mine {
				k.bad("C15", "source:changed", e.pos, "changes the bytes to be written")
			}
		case "load":
			a := arg(e, 0)
			if a == d.other {
				k.bad("C15", "race:load", e.pos, "loads the other side's position without an atomic operation")
			}
			if i := r.slot(a); i != nil && !d.writer {
				k.count["transfers"]++
				if s.pend != nil {
					k.bad("C15", "lost", e.pos, "takes another byte before handing out the one before")
				}
				if !k.isCur(f, i, s.cur) {
					k.bad("C15", "slot", e.pos, "loads slot %s while %s is the next one", i, s.cur)
				}
				if !k.room(f, s, nil) {
					k.bad("C15", "room", e.pos, "may read a byte that was not written yet (slot %s, writer at %v)", i, s.S)
				}
				s.pend = e.res
				k.moved(&s, mkInt(1), f)
			}
		case "copy":
			dst, src := arg(e, 0), arg(e, 1)
			db, dlo := bufBase(dst)
			sb, slo := bufBase(src)
			n := e.res
			if m != nil {
				n = subst(n, m)
			}
			ring, rlo, user, ulo := db, dlo, sb, slo
			if !d.writer {
				ring, rlo, user, ulo = sb, slo, db, dlo
			}
			if ring != r.data && db != r.data && db != d.buf {
				continue
			}
			k.count["transfers"]++
			if ring != r.data || user != d.buf {
				k.bad("C15", "copy", e.pos, "copies %s to %s, which is not between its argument and the ring", src, dst)
				continue
			}
			if !k.isCur(f, rlo, s.cur) {
				k.bad("C15", "slot", e.pos, "transfers from slot %s while %s is the next one", rlo, s.cur)
			}
			if !f.eq(ulo, s.q) {
				k.bad("C15", "byte", e.pos, "transfers byte %s of its argument instead of %s", ulo, s.q)
			}
			if !k.room(f, s, n) {
				k.bad("C15", "room", e.pos, "may transfer more bytes than the other side allows")
			}
			if !f.le(mkAdd(s.q, n), d.n) {
				k.bad("C15", "many", e.pos, "may transfer more than n bytes")
			}
			k.moved(&s, n, f)
			s.q = mkAdd(s.q, n)
		case "select", "recv", "send":
			var ok bool
			if s, ok = k.channel(e, s, f); !ok {
				return s, false
			}
		case "call":
			if c := r.ri.isErrCtx(e); c != nil && r.ctxs[c] {
				switch f.decide(mkEq(errOf(e), termNil)) {
				case 1:
					if s.evid {
						return s, false
					}
				case -1:
					s.evid, s.loadAfter = true, false
				}
				continue
			}
			if e.name == "(*sync.WaitGroup).Wait" || e.name == "(*sync.Cond).Wait" || e.name == "(*sync.Mutex).Lock" || e.name == "time.Sleep" {
				k.bad("C16", "wait:other", e.pos, "waits with %s, which is not analysed", e.name)
			}
		}
	}
	return s, true
}

func (k *rwalk) channel(e *Ev, s rstate, f *Facts) (rstate, bool) {
	r := k.r
	cases := e.cases
	chosen := e.chosen
	block := e.block
	if e.kind != "select" {
		cases = []SelCase{{send: e.kind == "send", ch: e.args[0]}}
		chosen, block = 0, true
	}
	wait, done, tell := false, false, false
	for _, c := range cases {
		switch {
		case !c.send && r.done[c.ch]:
			done = true
		case !c.send && k.waitC[c.ch]:
			wait = true
		case c.send && k.tellC[c.ch]:
			tell = true
			if n, ok := c.ch.args[0].intVal(); c.ch.op != OMakeChan || !ok || n < 1 {
				k.bad("C16", "tell:lost", e.pos, "a wakeup is lost if the other side is not waiting yet")
			}
		case !c.send && k.tellC[c.ch]:
			k.bad("C16", "tell:taken", e.pos, "takes away a wakeup meant for the other side")
		}
	}
	if tell {
		if block {
			k.bad("C16", "tell:blocks", e.pos, "can get stuck waking the other side")
		}
		k.count["wakeups"]++
		if !s.dirty {
			s.owed = false
		}
	}
	if block && !tell {
		k.count["waits"]++
		switch {
		case !done && wait:
			k.bad("C16", "wait:close", e.pos, "keeps waiting when the ring is closed")
		case !wait && !(done && len(cases) > 0):
			k.bad("C16", "wait:unknown", e.pos, "waits for something that is not a wakeup")
		case !wait:
			k.bad("C16", "wait:forever", e.pos, "waits for Close only")
		}
		if s.dirty {
			k.bad("C16", "wait:unpublished", e.pos, "waits before publishing the bytes it transferred")
		}
		if s.owed {
			k.bad("C16", "wait:silent", e.pos, "waits without having woken the other side about the bytes it transferred")
		}
		if !s.fresh {
			k.bad("C16", "wait:stale", e.pos, "waits again without looking at the other side's position after the last wakeup")
		}
		if !k.full(f, s) {
			k.bad("C16", "wait:needless", e.pos, "may wait although it could go on")
		}
		if s.stop {
			k.bad("C16", "wait:again", e.pos, "waits again after the ring was closed")
		}
		s.fresh = false
	}
	if chosen >= 0 {
		c := cases[chosen]
		if !c.send && r.done[c.ch] {
			s.stop, s.evid, s.loadAfter = true, true, false
		}
		if !c.send && k.waitC[c.ch] {
			s.fresh = false
		}
	} else if done && s.evid {
		return s, false // the default case is not taken once the ring is closed
	}
	return s, true
}

type rguess struct {
	v   *LVar
	off int64
	inv bool
}

func (k *rwalk) guesses(li *LoopInfo, t *Term, f *Facts) []rguess {
	var r []rguess
	if t == nil {
		return []rguess{{}}
	}
	for _, v := range li.vars {
		if !isInt(v.typ) || v.entry == nil {
			continue
		}
		if df := linOf(t).sub(linOf(v.entry)); len(df.m) == 0 {
			r = append(r, rguess{v: v, off: df.c})
		} else if f.eq(t, v.entry) {
			r = append(r, rguess{v: v})
		}
	}
	return append(r, rguess{inv: true})
}

func (g rguess) at(li *LoopInfo, t *Term) *Term {
	switch {
	case g.inv:
		return t
	case g.v != nil:
		return mkAddC(g.v.value(li.K), g.off)
	}
	return nil
}

// loop replays a loop: the state at its head, and the terms that change when
// it is left after a known number of rounds.
func (k *rwalk) loop(e *Ev, s rstate, f *Facts, depth int) (rstate, map[*Term]*Term) {
	li := e.loop
	var post map[*Term]*Term
	if e.complete && li.trip != nil {
		N := li.trip
		if !f.entailsGE(linOf(N)) && f.lt(N, mkInt(0)) {
			N = mkInt(0)
		}
		post = map[*Term]*Term{li.K: N}
		for _, v := range li.vars {
			if v.mode == VAccum {
				post[v.sym] = mkAdd(v.entry, mkSum(N, li.K, v.f))
			}
		}
	}
	str := func(t *Term) string {
		if t == nil {
			return "-"
		}
		return fmt.Sprint(t.id)
	}
	key := fmt.Sprintf("%p %s %s %s %s %v%v%v%v%v%v", li.K, str(s.cur), str(s.q), str(s.S), str(s.pend), s.fresh, s.dirty, s.owed, s.stop, s.evid, s.loadAfter)
	if m, ok := k.memo[key]; ok {
		k.vs = append(k.vs, m.vs...)
		return m.s, post
	}
	ef := li.entry.facts
	if c := k.canon(ef, s.cur); c != nil {
		s.cur = c
	}
	saved := k.vs
	var best *rloop
	if s.pend != nil {
		k.bad("C15", "loop:pending", e.pos, "enters a loop with a byte not handed out")
	}
	Sg := k.guesses(li, s.S, ef)
	if s.S != nil {
		Sg = append(Sg, rguess{})
	}
search:
	for _, cg := range k.guesses(li, s.cur, ef) {
		for _, qg := range k.guesses(li, s.q, ef) {
			for _, sg := range Sg {
				k.vs = nil
				h := k.tryLoop(e, s, cg, qg, sg, depth)
				if best == nil || len(k.vs) < len(best.vs) {
					best = &rloop{h, k.vs}
				}
				if len(k.vs) == 0 {
					break search
				}
			}
		}
	}
	k.memo[key] = *best
	k.vs = append(saved, best.vs...)
	return best.s, post
}

func (k *rwalk) tryLoop(e *Ev, s rstate, cg, qg, sg rguess, depth int) rstate {
	li := e.loop
	h := s
	h.cur, h.q, h.S = cg.at(li, s.cur), qg.at(li, s.q), sg.at(li, s.S)
	for pass := 0; pass < 8; pass++ {
		n := len(k.vs)
		j := h
		for i, b := range li.backs {
			f := b.st.facts
			if f.dead {
				continue
			}
			x, ok := k.run(b.st.events(), h, f, depth+1)
			if !ok {
				continue
			}
			k.count["loop_rounds"]++
			follow := func(g rguess, old, now *Term, what string) {
				var want *Term
				switch {
				case g.inv:
					want = old
				case g.v != nil:
					want = mkAddC(li.nexts[g.v][i], g.off)
				default:
					return
				}
				ok := false
				if what == "position" {
					ok = k.isCur(f, want, now)
				} else {
					ok = now != nil && f.eq(want, now)
				}
				if !ok {
					k.bad("C15", "loop:"+what, e.pos, "cannot be followed around the loop: its %s should be %v but is %v", what, now, want)
				}
			}
			follow(cg, s.cur, x.cur, "position")
			follow(qg, s.q, x.q, "count")
			if sg.inv || sg.v != nil {
				follow(sg, s.S, x.S, "limit")
			}
			if x.pend != nil {
				k.bad("C15", "loop:pending", e.pos, "goes around the loop without handing out a byte it took")
			}
			j.fresh = j.fresh && x.fresh
			j.evid = j.evid && x.evid
			j.loadAfter = j.loadAfter && x.loadAfter
			j.dirty = j.dirty || x.dirty
			j.owed = j.owed || x.owed
			// with something to transfer there is no waiting before a transfer
			j.stop = j.stop || x.stop && !k.room(f, x, nil)
		}
		if j == h {
			break
		}
		h = j
		k.vs = k.vs[:n]
	}
	return h
}

// ringCheck decides C15 and C16.
func ringCheck(prop string, p *Prog, rep *Report) {
	ri, err := p.ringInfo()
	if err != nil {
		rep.bad("ring:info", "", "%v", err)
		return
	}
	for _, r := range ri.runs(rep) {
		for i, d := range r.sides {
			k := &rwalk{r: r, d: d, o: r.sides[1-i], memo: map[string]rloop{}, count: map[string]int{}}
			k.waitC, k.tellC = map[*Term]bool{}, map[*Term]bool{}
			for c := range d.waits {
				if !r.done[c] {
					k.waitC[c] = true
				}
			}
			for c := range k.o.waits {
				if !r.done[c] {
					k.tellC[c] = true
					if k.waitC[c] && prop == "C16" {
						rep.bad("wait:shared", p.pos(d.fn.Pos()), "reader and writer wait for the same wakeups")
					}
				}
			}
			k.all()
			for _, v := range k.vs {
				if v.prop == prop {
					rep.bad(v.key, p.pos(v.pos), "%s", v.msg)
				}
			}
			for c, n := range k.count {
				rep.counts[c] += n
			}
			if prop == "C15" {
				for _, q := range d.probs {
					rep.bad(q.Key, q.Pos, "%s", q.Msg)
				}
				k.races(rep)
			}
		}
		if prop == "C15" {
			r.strays()
		}
	}
	if prop == "C15" {
		rep.need("transfers", 2)
		rep.need("publications", 2)
	} else {
		rep.need("waits", 2)
		rep.need("wakeups", 2)
	}
}

func (k *rwalk) all() {
	d := k.d
	for _, o := range d.outs {
		f := o.st.facts
		if f.dead {
			continue
		}
		s := rstate{cur: d.cur0, q: mkInt(0)}
		s, ok := k.run(o.st.events(), s, f, 0)
		if !ok {
			continue
		}
		k.count["paths"]++
		if o.panic {
			k.bad("C15", "panic", o.pos, "can panic")
			continue
		}
		if o.stop {
			k.bad("C16", "stuck", o.pos, "can block forever")
			continue
		}
		if o.ret == nil || !isErrorType(o.ret.typ) && !o.ret.isNil() {
			k.bad("C16", "result", o.pos, "does not report whether it succeeded")
			continue
		}
		switch f.decide(mkEq(o.ret, termNil)) {
		case 1:
			if !f.le(d.n, s.q) {
				k.bad("C15", "few", o.pos, "may report success after %s of n bytes", s.q)
			}
			if s.pend != nil {
				k.bad("C15", "lost", o.pos, "returns without handing out a byte it took")
			}
			if s.dirty {
				k.bad("C16", "end:unpublished", o.pos, "returns without publishing the bytes it transferred")
			} else if s.owed {
				k.bad("C16", "end:silent", o.pos, "returns without waking the other side about the bytes it transferred")
			}
		case -1:
			if !s.evid {
				k.bad("C16", "end:error", o.pos, "reports an error although the ring may be open")
			} else if !d.writer && !(s.loadAfter && s.S != nil && k.isCur(f, s.S, s.cur)) {
				k.bad("C16", "end:early", o.pos, "gives up although bytes written before the ring was closed may be left")
			}
		default:
			k.bad("C16", "result", o.pos, "may report success or failure regardless of what happened")
		}
	}
}

// races: plain accesses to what the other side writes.
func (k *rwalk) races(rep *Report) {
	d, o, p := k.d, k.o, k.r.ri.p
	for a := range d.pStores {
		if o.aLoads[a] || o.pLoads[a] || o.aStores[a] || o.pStores[a] {
			rep.bad("race:"+locName(a), p.pos(d.fn.Pos()), "%s stores %s without synchronisation while %s uses it", d.name, a, o.name)
		}
	}
	for a := range d.aStores {
		if o.pLoads[a] || o.pStores[a] {
			rep.bad("race:"+locName(a), p.pos(o.fn.Pos()), "%s uses %s without an atomic operation while %s changes it", o.name, a, d.name)
		}
	}
	for a := range d.aStores {
		if d.pStores[a] {
			rep.bad("race:"+locName(a), p.pos(d.fn.Pos()), "%s stores %s both atomically and plainly", d.name, a)
		}
	}
}

// strays: nothing else changes a ring.
func (r *ringRun) strays() {
	p := r.ri.p
	for _, fn := range p.allFuncs() {
		if fn.Package() == nil || fn.Package().Pkg.Path() != ringPkg || r.rep.fns[fn.String()] || fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isRingField(fa, r) {
					continue
				}
				for _, u := range *fa.Referrers() {
					if _, ok := u.(*ssa.UnOp); ok {
						if t := pointee(fa.Type()); t != nil && !isByteSlice(t) {
							continue
						}
					}
					if _, ok := u.(*ssa.DebugRef); ok {
						continue
					}
					if c, ok := u.(*ssa.Call); ok {
						if s := c.Call.StaticCallee(); s != nil && s.Package() != nil && s.Package().Pkg.Path() == "sync/atomic" && len(s.Name()) > 4 && s.Name()[:4] == "Load" {
							continue
						}
					}
					r.rep.bad("stray:"+fn.Name(), p.pos(in.Pos()), "%s reaches into a ring although it is neither reader nor writer", fn.Name())
				}
			}
		}
	}
}

func isRingField(fa *ssa.FieldAddr, r *ringRun) bool {
	t := pointee(fa.X.Type())
	return t != nil && types.Identical(t, r.ri.typ)
}

func init() {
	checks["C15"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("automaton over every trace of WriteN and ReadN, loops by induction: each byte goes to or comes from the next slot, in order, only after the other side's position allows it, and positions are published only up to what was transferred; positions are only touched atomically")
		ringCheck("C15", p, rep)
		rep.rule("every connection has one goroutine that writes exactly what it received and one that reads")
		connCheck(func(c *connRun) { c.forwarding() })(p, rep, verif)
	}
	checks["C16"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("latch discipline on every trace of WriteN and ReadN: transferred bytes are published, then announced, before waiting or returning; a wakeup is never lost, waiting is decided on a position loaded after the last wakeup, Close ends every wait, and the reader gives up only when the ring is empty after being closed")
		ringCheck("C16", p, rep)
	}
}
