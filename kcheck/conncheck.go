package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rules about the connection (C09 to C14 and what C05, C06 and C15 say about it).

// legitSize: a broker may answer with frames of this size (fetch.max.bytes is
// 50 MiB by default); absurdSize: nothing legitimate is that large.
const (
	legitSize  = 52428800 + 4096
	absurdSize = 1 << 30
)

type delivery struct {
	m          *Term // the map of outstanding requests
	decI, repI int   // fields of its values: decode function, reply channel
}

type connRun struct {
	w        *world
	rep      *Report
	p        *Prog
	rd, rc   *entry // reader and receiver goroutine
	d        delivery
	doneM    map[*Term]bool // channels closed when the receiver ends
	exit     map[*entry]effects
	loopErrs map[*entry]bool
}

type effects struct {
	raw, ring bool
	chans     map[*Term]bool
	wg        map[*Term]bool
}

// projection of a map value: the value's field t reads
func projIdx(t, mv *Term) int {
	if t.op != OField || len(t.args) == 0 {
		return -1
	}
	b := t.args[0]
	if b == mv || b.op == ODeref && len(b.args) > 0 && b.args[0] == mv {
		return int(t.n)
	}
	return -1
}

// regField reads field i of a registered value.
func regField(st *State, v *Term, i int) *Term {
	t := v.typ
	if pt := pointee(t); pt != nil {
		s := structOf(pt)
		if s == nil || i >= s.NumFields() {
			return nil
		}
		ft := s.Field(i).Type()
		return st.load(mkFieldAddr(v, i, types.NewPointer(ft)), ft)
	}
	s := structOf(t)
	if s == nil || i >= s.NumFields() {
		return nil
	}
	return mkField(v, i, s.Field(i).Type())
}

// beOf: t is the big endian int32 at offset off of the bytes ReadN event e delivered.
func beOf(t *Term, e *Ev, off int64) bool {
	for t.op == OConv && isInt(t.typ) && intWidth(t.typ) == 32 {
		t = t.args[0]
	}
	if t.op != ORdBE || t.n != 4 || t.s != "" {
		return false
	}
	n, ok := t.args[1].intVal()
	return ok && n == off && t.args[0].op == OSym && t.args[0].info == e
}

// sizeOf: t is the announced size: a signed 32 bit big endian integer.
func sizeOf(t *Term, e *Ev) bool {
	return t.op == OConv && isInt(t.typ) && signed(t.typ) && intWidth(t.typ) == 32 && beOf(t, e, 0)
}

func (p *Prog) connRuns(rep *Report) []*connRun {
	ci, err := p.connInfo()
	if err != nil {
		rep.bad("conn:info", "", "%v", err)
		return nil
	}
	ci.decoderKeepsBuffer(rep)
	var r []*connRun
	for _, w := range ci.worlds(rep) {
		c := &connRun{w: w, rep: rep, p: p, exit: map[*entry]effects{}, loopErrs: map[*entry]bool{}}
		c.rd, c.rc = w.roles(rep)
		if c.rd == nil {
			continue
		}
		for _, e := range w.entries {
			if e.goEv != nil {
				c.exit[e] = c.exitEffects(e)
			}
		}
		c.doneM = c.exit[c.rc].chans
		c.findDelivery()
		rep.ok("connect_paths")
		r = append(r, c)
	}
	return r
}

// findDelivery identifies the table of outstanding requests from what the
// receiver looks up, calls and answers.
func (c *connRun) findDelivery() {
	c.d = delivery{decI: -1, repI: -1}
	for _, r := range c.rc.rounds() {
		gets := map[*Term]*Ev{}
		for _, e := range r.evs {
			switch {
			case e.kind == "mapget":
				v := e.res
				if v.op == OTuple {
					v = v.args[0]
				}
				gets[v] = e
			case e.kind == "call" && e.dyn != nil:
				for v, g := range gets {
					if i := projIdx(e.dyn, v); i >= 0 {
						c.d.decI = i
						c.d.m = g.args[0]
					}
				}
			case e.kind == "send":
				for v := range gets {
					if i := projIdx(e.args[0], v); i >= 0 {
						c.d.repI = i
						c.d.m = gets[v].args[0]
					}
				}
			case e.kind == "select":
				for _, k := range e.cases {
					for v := range gets {
						if i := projIdx(k.ch, v); k.send && i >= 0 {
							c.d.repI = i
							c.d.m = gets[v].args[0]
						}
					}
				}
			}
		}
	}
}

// delivers: findDelivery found the way of a response to its call.
func (c *connRun) delivers() bool {
	if c.d.m == nil || c.d.decI < 0 || c.d.repI < 0 {
		c.rep.bad("deliver:none", c.p.pos(c.rc.fn.Pos()), "%s never looks up a request, decodes its response and hands over the result", c.rc.name)
		return false
	}
	return true
}

func blocking(w *world, e *Ev) bool {
	switch e.kind {
	case "recv", "send":
		return true
	case "select":
		return e.block
	case "call":
		if w.isRing(e, w.ci.readN) || w.isRing(e, w.ci.writeN) || w.isRaw(e, "Read") {
			return true
		}
		return e.name == "(*sync.WaitGroup).Wait" || e.name == "(*sync.Cond).Wait" || e.name == "time.Sleep"
	}
	return false
}

// exitEffects: what happens on every way out of a goroutine.
func (c *connRun) exitEffects(e *entry) effects {
	var all effects
	first := true
	for _, o := range e.live() {
		if o.panic {
			c.rep.bad("exit:panic", c.p.pos(o.pos), "%s can panic", e.name)
			continue
		}
		if o.stop {
			c.rep.bad("exit:stuck", c.p.pos(o.pos), "%s can block forever", e.name)
			continue
		}
		cur := effects{chans: map[*Term]bool{}, wg: map[*Term]bool{}}
		evs := o.st.events()
		last := -1
		for i, v := range evs {
			if v.kind == "loop" || blocking(c.w, v) {
				last = i
			}
		}
		for i, v := range evs {
			if i <= last {
				continue
			}
			c.effect(v, &cur)
		}
		if first {
			all, first = cur, false
			continue
		}
		all.raw = all.raw && cur.raw
		all.ring = all.ring && cur.ring
		for k := range all.chans {
			if !cur.chans[k] {
				delete(all.chans, k)
			}
		}
		for k := range all.wg {
			if !cur.wg[k] {
				delete(all.wg, k)
			}
		}
	}
	if all.chans == nil {
		all.chans, all.wg = map[*Term]bool{}, map[*Term]bool{}
	}
	return all
}

func ctxDone(ctx *Term) *Term {
	return mk(OPure, types.NewChan(types.RecvOnly, types.NewStruct(nil, nil)), "ctx.Done", 0, ctx)
}

func (c *connRun) effect(v *Ev, cur *effects) {
	w := c.w
	switch {
	case v.kind == "chanclose":
		cur.chans[v.args[0]] = true
	case w.isRing(v, w.ci.ringClose):
		cur.ring = true
	case w.isRaw(v, "Close"):
		cur.raw = true
	case v.kind == "call" && v.name == "(*sync.WaitGroup).Done":
		cur.wg[v.args[0]] = true
	case v.kind == "call" && v.dyn != nil:
		// a cancel function
		if e, ok := v.dyn.info.(*Ev); ok && e.name == "context.WithCancel" && e.res.op == OTuple && e.res.args[1] == v.dyn {
			cur.chans[ctxDone(e.res.args[0])] = true
		}
	}
}

// endsOnError: no way round the loops of e continues after op failed.
func (c *connRun) endsOnError(e *entry, op func(*Ev) bool) bool {
	for _, r := range e.rounds() {
		if !r.back {
			continue
		}
		for _, v := range r.evs {
			if op(v) {
				er := errOf(v)
				if er == nil || r.st.facts.decide(mkEq(er, termNil)) != 1 {
					return false
				}
			}
		}
	}
	return true
}

// closure: everything that happens once the events in t have happened.
func (c *connRun) closure(t effects) (effects, map[*entry]bool) {
	w := c.w
	r := effects{raw: t.raw, ring: t.ring, chans: map[*Term]bool{}, wg: map[*Term]bool{}}
	for k := range t.chans {
		r.chans[k] = true
	}
	gone := map[*entry]bool{}
	isRead := func(v *Ev) bool { return w.isRaw(v, "Read") }
	isReadN := func(v *Ev) bool { return w.isRing(v, w.ci.readN) }
	isWriteN := func(v *Ev) bool { return w.isRing(v, w.ci.writeN) }
	for changed := true; changed; {
		changed = false
		for _, e := range w.entries {
			if e.goEv == nil || gone[e] {
				continue
			}
			ends := true
			if e.has(isRead) {
				ends = ends && r.raw && c.endsOnError(e, isRead)
			}
			if e.has(isReadN) {
				ends = ends && r.ring && c.endsOnError(e, isReadN)
			}
			if e.has(isWriteN) {
				// the receiver makes room until it ends; then the ring must be closed
				ends = ends && (r.ring || c.exit[c.rc].ring) && c.endsOnError(e, isWriteN)
			}
			for _, q := range e.rounds() {
				for _, v := range q.evs {
					if !blocking(w, v) || isRead(v) || isReadN(v) || isWriteN(v) {
						continue
					}
					if v.kind == "send" && c.replySend(v) {
						continue
					}
					ok := false
					if v.kind == "recv" {
						ok = r.chans[v.args[0]]
					}
					if v.kind == "select" {
						for i, k := range v.cases {
							if !k.send && r.chans[k.ch] {
								ok = true
								// choosing it must not lead around
								if q.back && v.chosen == i {
									ends = false
								}
							}
							if k.send && c.d.m != nil && c.replySendCh(k.ch) {
								ok = true
							}
						}
					}
					ends = ends && ok
				}
			}
			if ends {
				gone[e] = true
				changed = true
				x := c.exit[e]
				r.raw, r.ring = r.raw || x.raw, r.ring || x.ring
				for k := range x.chans {
					r.chans[k] = true
				}
			}
		}
	}
	return r, gone
}

// replySend: a send that cannot block, see reply channels in C11.
func (c *connRun) replySend(v *Ev) bool { return c.replySendCh(v.args[0]) }

func (c *connRun) replySendCh(ch *Term) bool {
	if ch.op == OField && len(ch.args) > 0 {
		b := ch.args[0]
		if b.op == ODeref {
			b = b.args[0]
		}
		if e, ok := b.info.(*Ev); ok && e.kind == "mapget" && e.args[0] == c.d.m {
			return int(ch.n) == c.d.repI
		}
	}
	return false
}

// held gives the locks held at each event of a straight path.
func (c *connRun) heldAt(evs []*Ev) map[*Ev]lockset {
	r := map[*Ev]lockset{}
	k := &walker{w: c.w, visit: func(e *Ev, held lockset, depth int) {
		if _, ok := r[e]; !ok {
			r[e] = held.clone()
		}
	}}
	k.walk(evs, lockset{}, 0)
	return r
}

// doPath is one way through Do.
type doPath struct {
	o      CallOut
	evs    []*Ev
	held   map[*Ev]lockset
	enc    []int // calls of the encode function
	flush  []int
	reg    int
	reply  *Term
	got    []*Ev // receipt of the reply
	gotV   *Term
	waits  []int
	inLoop bool
}

func (c *connRun) doPaths() []*doPath {
	e := c.w.entry("Do")
	var r []*doPath
	for _, o := range e.live() {
		pos := c.p.pos(o.pos)
		if o.panic || o.stop {
			c.rep.bad("do:panic", pos, "Do can panic or block forever")
			continue
		}
		c.rep.ok("do_paths")
		d := &doPath{o: o, evs: o.st.events(), reg: -1}
		d.held = c.heldAt(d.evs)
		for i, v := range d.evs {
			switch {
			case v.kind == "call" && v.dyn == e.encode:
				d.enc = append(d.enc, i)
			case v.kind == "call" && v.fn == c.w.ci.encFlush:
				d.flush = append(d.flush, i)
			case blocking(c.w, v):
				d.waits = append(d.waits, i)
			case v.kind == "loop":
				if hasEv([]*Ev{v}, func(q *Ev) bool {
					return q.kind == "call" && (q.dyn == e.encode || q.fn == c.w.ci.encFlush) || q.kind == "mapset" || q.kind == "mapdel"
				}) {
					d.inLoop = true
				}
			}
		}
		if len(d.enc) > 0 && c.d.m != nil {
			id := d.evs[d.enc[0]].args[1]
			for i, v := range d.evs {
				if v.kind == "mapset" && v.args[0] == c.d.m && v.args[1] == id && i < d.enc[0] {
					d.reg = i
					st := v.st
					d.reply = regField(&st, v.args[2], c.d.repI)
				}
			}
		}
		for _, v := range d.evs {
			switch {
			case v.kind == "recv" && v.args[0] == d.reply:
				d.got, d.gotV = append(d.got, v), v.res
			case v.kind == "select" && v.chosen >= 0 && !v.cases[v.chosen].send && v.cases[v.chosen].ch == d.reply:
				d.got, d.gotV = append(d.got, v), v.res
			}
		}
		r = append(r, d)
	}
	if len(r) == 0 {
		c.rep.bad("do:none", "", "no way through Do")
	}
	return r
}

// unsent: writing the request failed on this path.
func (d *doPath) unsent() bool {
	for _, i := range d.flush {
		if er := errOf(d.evs[i]); er != nil && d.o.st.facts.decide(mkEq(er, termNil)) == -1 {
			return true
		}
	}
	return false
}

// alreadyTaken: at event i the entry was known to be gone from the table.
func (c *connRun) alreadyTaken(d *doPath, id *Term, i int) bool {
	for j, v := range d.evs[:i] {
		if j > d.reg && v.kind == "mapget" && v.args[0] == c.d.m && v.args[1] == id && v.res.op == OTuple && d.o.st.facts.decide(v.res.args[1]) == -1 {
			return true
		}
	}
	return false
}

// freshID: id is a value no other call of Do gets.
func (c *connRun) freshID(d *doPath, id *Term) bool {
	small := func(t *Term) bool {
		n, ok := t.intVal()
		return ok && n != 0 && n > -1024 && n < 1024
	}
	for i, e := range d.evs {
		if e.kind == "atomic" && e.name == "add" && e.res != nil {
			if l := linOf(id).sub(linOf(e.res)); len(l.m) == 0 && small(e.args[1]) && rootOf(e.args[0]) == c.w.c {
				return c.onlyCounter(e.args[0], true)
			}
		}
		if e.kind == "store" && rootOf(e.args[0]) == c.w.c && len(d.held[e]) > 0 {
			// counter updated under a lock
			for j := i - 1; j >= 0; j-- {
				q := d.evs[j]
				if op, _ := lockOp(q); op == "unlock" {
					break
				}
				if q.kind == "load" && q.args[0] == e.args[0] && q.res != nil {
					dl := linOf(e.args[1]).sub(linOf(q.res))
					il := linOf(id).sub(linOf(q.res))
					if len(dl.m) == 0 && len(il.m) == 0 && small(mkInt(dl.c)) {
						return c.onlyCounter(e.args[0], false)
					}
				}
			}
		}
	}
	return false
}

// onlyCounter: the location is only ever advanced.
func (c *connRun) onlyCounter(loc *Term, atomic bool) bool {
	ok := true
	for _, e := range c.w.entries {
		check := func(v *Ev, held lockset, depth int) {
			if len(v.args) == 0 || v.args[0] != loc {
				return
			}
			switch {
			case v.kind == "atomic" && (v.name == "store" || v.name == "cas"):
				ok = false
			case v.kind == "store" && (atomic || e.fn != c.w.ci.do):
				ok = false
			}
		}
		for _, o := range e.live() {
			(&walker{w: c.w, visit: check}).walk(o.st.events(), lockset{}, 0)
		}
	}
	return ok
}

func (c *connRun) routing() {
	p, rep, w := c.p, c.rep, c.w
	if !c.delivers() {
		return
	}
	do := w.entry("Do")
	// sending side
	for _, d := range c.doPaths() {
		pos := p.pos(d.o.pos)
		if d.inLoop {
			rep.bad("do:loop", pos, "Do registers or sends in a loop")
			continue
		}
		if len(d.enc) == 0 {
			continue
		}
		if len(d.enc) != 1 {
			rep.bad("do:twice", pos, "Do encodes its request %d times", len(d.enc))
			continue
		}
		enc := d.evs[d.enc[0]]
		id := enc.args[1]
		if d.reg < 0 {
			rep.bad("do:register", p.pos(enc.pos), "the request may be sent before it is registered under its id")
			continue
		}
		rep.ok("registrations")
		reg := d.evs[d.reg]
		st := reg.st
		if v := regField(&st, reg.args[2], c.d.decI); v != do.decode {
			rep.bad("do:decode", p.pos(reg.pos), "the request is registered with the decode function %v instead of its own", v)
		}
		if d.reply == nil || d.reply.op != OMakeChan || d.reply.n <= w.mark {
			rep.bad("do:reply", p.pos(reg.pos), "the request is registered with the reply channel %v, which is not made for it alone", d.reply)
		}
		if !c.freshID(d, id) {
			rep.bad("do:id", p.pos(enc.pos), "request id %s is not unique", id)
		}
		end := len(d.evs)
		if n := len(d.waits); n > 0 {
			end = d.waits[n-1]
		}
		for i, v := range d.evs {
			if v.kind == "mapdel" && v.args[0] == c.d.m {
				if v.args[1] != id {
					rep.bad("do:delete", p.pos(v.pos), "Do removes request %s, which is not its own", v.args[1])
				} else if i > d.reg && i < end && len(d.waits) > 0 && !(d.unsent() && c.alreadyTaken(d, id, i)) {
					rep.bad("do:early", p.pos(v.pos), "Do removes its request before the response has arrived")
				}
			}
			if v.kind == "mapset" && v.args[0] == c.d.m && i != d.reg {
				rep.bad("do:reregister", p.pos(v.pos), "Do registers something else")
			}
		}
		// the result
		for _, v := range d.evs {
			for _, k := range append([]SelCase{}, v.cases...) {
				if v.kind == "select" && !k.send && k.ch.typ != nil && types.Identical(elemType(k.ch.typ), types.Universe.Lookup("error").Type()) && k.ch != d.reply {
					rep.bad("do:reply", p.pos(v.pos), "Do waits for a reply on a channel that is not its own")
				}
			}
		}
		if len(d.got) > 1 {
			rep.bad("do:twice", pos, "Do takes two replies")
		}
	}
	// other writers of the table
	for _, e := range w.entries {
		if e == c.rc || e == do {
			continue
		}
		for _, o := range e.live() {
			(&walker{w: w, visit: func(v *Ev, held lockset, depth int) {
				if (v.kind == "mapset" || v.kind == "mapdel") && v.args[0] == c.d.m && e.goEv != nil {
					rep.bad("table:"+e.name, p.pos(v.pos), "%s changes the table of outstanding requests", e.name)
				}
				if v.kind == "mapset" && v.args[0] == c.d.m {
					rep.bad("table:"+e.name, p.pos(v.pos), "%s registers a request", e.name)
				}
			}}).walk(o.st.events(), lockset{}, 0)
		}
	}
	// receiving side
	for _, r := range c.rc.rounds() {
		c.deliver(r)
	}
	for _, e := range w.entries {
		if e.goEv == nil || e == c.rc {
			for _, o := range e.live() {
				for _, v := range o.st.events() {
					if v.kind == "go" {
						rep.bad("go:"+e.name, p.pos(v.pos), "%s starts a goroutine", e.name)
					}
				}
			}
		}
	}
	rep.need("registrations", 2)
	rep.need("deliveries", 1)
}

// deliver checks one round of the receiver.
func (c *connRun) deliver(r round) {
	p, rep, w := c.p, c.rep, c.w
	var reads []*Ev
	type get struct {
		e     *Ev
		v, ok *Term
	}
	var gets []get
	var calls []*Ev
	sent := 0
	removed := map[*Term]bool{}
	for _, e := range r.evs {
		if e.kind == "mapdel" && e.args[0] == c.d.m {
			removed[e.args[1]] = true
		}
	}
	for _, e := range r.evs {
		switch {
		case w.isRing(e, w.ci.readN):
			reads = append(reads, e)
		case e.kind == "go":
			rep.bad("deliver:go", p.pos(e.pos), "%s starts a goroutine", c.rc.name)
		case e.kind == "mapset" && e.args[0] == c.d.m:
			rep.bad("deliver:set", p.pos(e.pos), "%s registers a request", c.rc.name)
		case e.kind == "mapdel" && e.args[0] == c.d.m:
			if len(reads) == 0 || !beOf(e.args[1], reads[len(reads)-1], 0) {
				rep.bad("deliver:delete", p.pos(e.pos), "%s removes request %s, which is not the one the response is for", c.rc.name, e.args[1])
			}
		case e.kind == "mapget" && e.args[0] == c.d.m:
			g := get{e: e, v: e.res}
			if e.res.op == OTuple {
				g.v, g.ok = e.res.args[0], e.res.args[1]
			}
			if len(reads) == 0 || !beOf(e.args[1], reads[len(reads)-1], 0) {
				rep.bad("deliver:key", p.pos(e.pos), "%s looks up request %s instead of the correlation id of the frame", c.rc.name, e.args[1])
			}
			gets = append(gets, g)
		case e.kind == "call" && e.dyn != nil:
			if ev, ok := e.dyn.info.(*Ev); ok && ev.name == "context.WithCancel" {
				continue
			}
			known := false
			for _, g := range gets {
				if projIdx(e.dyn, g.v) != c.d.decI {
					continue
				}
				known = true
				f := e.st.facts
				if f.decide(mkEq(e.dyn, termNil)) != -1 {
					rep.bad("deliver:nil", p.pos(e.pos), "%s may call a decode function that is not there", c.rc.name)
				}
				if r.back && !removed[g.e.args[1]] {
					rep.bad("deliver:again", p.pos(e.pos), "the request stays registered after its response, so it can be answered twice")
				}
			}
			if !known {
				rep.bad("deliver:call", p.pos(e.pos), "%s calls %s, which is not the decode function of the request", c.rc.name, e.dyn)
				continue
			}
			rep.ok("deliveries")
			calls = append(calls, e)
		case e.kind == "send", e.kind == "select" && e.chosen >= 0 && e.cases[e.chosen].send:
			ch, v := (*Term)(nil), (*Term)(nil)
			if e.kind == "send" {
				ch, v = e.args[0], e.args[1]
			} else {
				ch, v = e.cases[e.chosen].ch, e.cases[e.chosen].val
			}
			good := false
			for _, g := range gets {
				if projIdx(ch, g.v) == c.d.repI {
					for _, k := range calls {
						if projIdx(k.dyn, g.v) == c.d.decI && sameError(e.st.facts, v, k.res) {
							good = true
						}
					}
				}
			}
			if !good {
				rep.bad("deliver:reply", p.pos(e.pos), "%s sends %s on %s, which is not the outcome of decoding the response of that request", c.rc.name, v, ch)
			}
			sent++
		}
	}
	pos := p.pos(r.pos)
	if !r.back {
		if len(gets) > 0 && c.givesUp(r, reads) {
			rep.bad("deliver:ends", pos, "%s ends after looking up whom a response is for, and every other call with it", c.rc.name)
		}
		return
	}
	rep.ok("receiver_rounds")
	if len(calls) > 1 || sent > 1 {
		rep.bad("deliver:twice", pos, "a response is delivered more than once")
	}
	if len(calls) != sent {
		rep.bad("deliver:lost", pos, "the outcome of decoding a response is not handed over")
	}
	if len(gets) == 0 {
		rep.bad("deliver:dropped", pos, "%s can go on to the next frame without looking up whom this one is for", c.rc.name)
		return
	}
	if len(calls) == 0 {
		ok := false
		f := r.st.facts
		for _, g := range gets {
			if g.ok != nil && f.decide(g.ok) == -1 {
				ok = true
			}
			if pointee(g.v.typ) != nil && f.decide(mkEq(g.v, termNil)) == 1 {
				ok = true
			}
			s := structOf(g.v.typ)
			if s == nil {
				s = structOf(pointee(g.v.typ))
			}
			if s != nil && c.d.decI < s.NumFields() {
				st := r.st
				if t := regField(&st, g.v, c.d.decI); t != nil && f.decide(mkEq(t, termNil)) == 1 {
					ok = true
				}
				if t := regField(&st, g.v, c.d.repI); t != nil && f.decide(mkEq(t, termNil)) == 1 {
					ok = true
				}
			}
		}
		if !ok {
			rep.bad("deliver:dropped", pos, "%s can drop the response of a registered request", c.rc.name)
		}
	}
}

// undelivered: decode functions of requests whose outcome the receiver does not
// hand over in the same round.
func (c *connRun) undelivered(r round) []*Ev {
	var gets []*Term
	for _, e := range r.evs {
		if e.kind == "mapget" && e.args[0] == c.d.m {
			v := e.res
			if v.op == OTuple {
				v = v.args[0]
			}
			gets = append(gets, v)
		}
	}
	var lost []*Ev
	for _, k := range r.evs {
		if k.kind != "call" || k.dyn == nil {
			continue
		}
		mine, good := false, false
		for _, g := range gets {
			if projIdx(k.dyn, g) != c.d.decI {
				continue
			}
			mine = true
			for _, e := range r.evs {
				ch, v := (*Term)(nil), (*Term)(nil)
				if e.kind == "send" {
					ch, v = e.args[0], e.args[1]
				} else if e.kind == "select" && e.chosen >= 0 && e.cases[e.chosen].send {
					ch, v = e.cases[e.chosen].ch, e.cases[e.chosen].val
				}
				if ch != nil && projIdx(ch, g) == c.d.repI && sameError(e.st.facts, v, k.res) {
					good = true
				}
			}
		}
		if mine && !good {
			lost = append(lost, k)
		}
	}
	return lost
}

// sameError: a is b, or nil exactly when b is.
func sameError(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	x, y := f.decide(mkEq(a, termNil)), f.decide(mkEq(b, termNil))
	return x != 0 && x == y
}

// results is what C05 and C06 say about Do.
func (c *connRun) results(which string) {
	p, rep := c.p, c.rep
	do := c.w.entry("Do")
	if which == "reply" && !c.delivers() {
		return
	}
	for _, d := range c.doPaths() {
		pos := p.pos(d.o.pos)
		f := d.o.st.facts
		ret := d.o.ret
		if len(d.enc) == 0 {
			if f.decide(mkEq(ret, termNil)) != -1 {
				rep.bad("do:nothing", pos, "Do may report success without sending anything")
			}
			continue
		}
		if which == "send" {
			rep.ok("sends")
			if len(d.flush) == 0 || d.flush[len(d.flush)-1] < d.enc[0] {
				rep.bad("do:flush", pos, "Do returns without flushing its request")
				continue
			}
			for _, i := range d.flush {
				er := errOf(d.evs[i])
				switch f.decide(mkEq(er, termNil)) {
				case 0:
					rep.bad("do:ignored", p.pos(d.evs[i].pos), "the error of writing the request is not looked at")
				case -1:
					if f.decide(mkEq(f.resolve(ret), termNil)) != -1 && ret != er {
						rep.bad("do:error", pos, "Do may report success although writing the request failed")
					}
				}
			}
			continue
		}
		rep.ok("replies")
		failed := d.unsent()
		if failed && f.decide(mkEq(f.resolve(ret), termNil)) == -1 {
			continue // C06
		}
		if len(d.got) > 0 {
			if !sameError(f, ret, d.gotV) && !sameError(f, f.resolve(ret), d.gotV) {
				rep.bad("do:outcome", pos, "Do returns %s instead of the outcome of decoding the response", ret)
			}
			continue
		}
		if f.decide(mkEq(do.decode, termNil)) == 1 || failed {
			continue
		}
		if f.decide(mkEq(ret, termNil)) != -1 {
			rep.bad("do:success", pos, "Do may report success without a response")
		}
	}
	if which == "reply" {
		for _, r := range c.rc.rounds() {
			for _, k := range c.undelivered(r) {
				rep.bad("do:withheld", p.pos(k.pos), "%s decodes a response without handing its outcome to the call that waits for it", c.rc.name)
			}
		}
	}
	rep.need(map[string]string{"send": "sends", "reply": "replies"}[which], 3)
}

// atomicity is C10.
func (c *connRun) atomicity() {
	p, rep, w := c.p, c.rep, c.w
	var mu *Term
	for _, d := range c.doPaths() {
		pos := p.pos(d.o.pos)
		if d.inLoop {
			rep.bad("do:loop", pos, "Do sends in a loop")
			continue
		}
		for _, i := range d.flush {
			if len(d.enc) == 0 || i < d.enc[0] {
				rep.bad("write:flush", p.pos(d.evs[i].pos), "Do flushes without having encoded its request")
			}
		}
		if len(d.enc) == 0 {
			continue
		}
		rep.ok("writes")
		i := d.enc[0]
		enc := d.evs[i]
		if len(d.enc) > 1 {
			rep.bad("write:twice", pos, "Do encodes its request more than once")
		}
		if enc.args[0] != w.encoder {
			rep.bad("write:encoder", p.pos(enc.pos), "the request is encoded to %s, not to the encoder of the connection", enc.args[0])
		}
		if len(d.flush) == 0 {
			rep.bad("write:unflushed", pos, "Do returns without flushing its request")
			continue
		}
		j := d.flush[0]
		if d.evs[j].args[0] != w.encoder {
			rep.bad("write:encoder", p.pos(d.evs[j].pos), "flushes another encoder")
		}
		// one lock held from before encode until after flush
		var held *Term
		for _, m := range sortedTerms(map[*Term]bool(d.held[enc])) {
			if !d.held[enc][m] {
				continue // shared
			}
			kept := true
			for k := i; k <= j && k < len(d.evs); k++ {
				if op, q := lockOp(d.evs[k]); op == "unlock" && q == m {
					kept = false
				}
			}
			if kept && (rootOf(m) == w.c || rootOf(m).op == OGlobal || rootOf(m).op == OAlloc && rootOf(m).n <= w.mark) {
				if held == nil || m == mu {
					held = m
				}
			}
		}
		if held == nil {
			rep.bad("write:lock", p.pos(enc.pos), "no lock is held from encoding the request until it is flushed")
			continue
		}
		if mu == nil {
			mu = held
		}
		if mu != held {
			rep.bad("write:lock", p.pos(enc.pos), "different locks guard writing")
		}
		for _, k := range d.waits {
			if k > i && k < j {
				rep.bad("write:wait", p.pos(d.evs[k].pos), "Do waits before its request is flushed")
			}
		}
	}
	for _, e := range w.entries {
		for _, o := range e.live() {
			(&walker{w: w, visit: func(v *Ev, held lockset, depth int) {
				if w.isRaw(v, "Write") {
					rep.bad("write:other", p.pos(v.pos), "%s writes to the socket past the encoder", e.name)
				}
				if e.fn != w.ci.do && v.kind == "call" && v.fn == w.ci.encFlush {
					rep.bad("write:other", p.pos(v.pos), "%s flushes the encoder", e.name)
				}
				for _, a := range v.args {
					if a == w.encoder && v.fn != w.ci.encFlush && v.dyn != w.entry("Do").encode && v.kind != "load" {
						rep.bad("write:other", p.pos(v.pos), "%s uses the encoder of the connection", e.name)
					}
				}
			}}).walk(o.st.events(), lockset{}, 0)
		}
	}
	// what the encoder writes to
	ev, _ := w.encoder.info.(*Ev)
	if ev == nil || !c.writesTo(ev.args[0]) {
		rep.bad("write:target", p.pos(w.ci.connect.Pos()), "the encoder of the connection does not write to its socket")
	}
	for _, v := range w.st.events() {
		if w.isRaw(v, "Write") {
			rep.bad("write:connect", p.pos(v.pos), "Connect writes to the socket")
		}
	}
	rep.need("writes", 3)
}

func (c *connRun) writesTo(t *Term) bool {
	if t.op == OIface {
		t = t.args[0]
	}
	if t == c.w.raw {
		return true
	}
	if e, ok := t.info.(*Ev); ok && e.name == "bufio.NewWriter" {
		a := e.args[0]
		return a == c.w.raw || a.op == OIface && (a.args[0] == c.w.raw || c.w.raw.op == OIface && a.args[0] == c.w.raw.args[0])
	}
	return false
}

// waiting is C11.
func (c *connRun) waiting() {
	p, rep, w := c.p, c.rep, c.w
	do := w.entry("Do")
	for _, d := range c.doPaths() {
		pos := p.pos(d.o.pos)
		f := d.o.st.facts
		noReply := f.decide(mkEq(do.decode, termNil)) == 1
		cut := false // waiting ended because the receiver is gone
		for _, i := range d.waits {
			v := d.evs[i]
			rep.ok("waits")
			if f.decide(mkEq(do.decode, termNil)) != -1 {
				rep.bad("wait:none", p.pos(v.pos), "Do waits although it may be that no response is expected")
			}
			if v.kind != "select" {
				rep.bad("wait:forever", p.pos(v.pos), "Do waits without watching whether the connection is gone")
				continue
			}
			watch := false
			for j, k := range v.cases {
				if !k.send && c.doneM[k.ch] {
					watch = true
					if v.chosen == j {
						cut = true
					}
				} else if k.send || k.ch != d.reply {
					if v.chosen == j {
						rep.bad("wait:other", p.pos(v.pos), "Do stops waiting for %s, although its response may still arrive", k.ch)
					}
				}
			}
			if !watch {
				rep.bad("wait:forever", p.pos(v.pos), "Do waits without a case for the end of the receiver")
			}
		}
		for _, v := range d.evs {
			if v.kind == "loop" && hasEv([]*Ev{v}, func(q *Ev) bool { return blocking(w, q) }) {
				rep.bad("wait:loop", p.pos(v.pos), "Do waits in a loop")
			}
		}
		if cut && len(d.got) == 0 && !d.unsent() {
			// a last look at the reply
			look := false
			n := d.waits[len(d.waits)-1]
			for i, v := range d.evs {
				if i > n && v.kind == "select" && !v.block {
					for _, k := range v.cases {
						look = look || !k.send && k.ch == d.reply
					}
				}
			}
			if !look {
				rep.bad("wait:race", pos, "Do gives up without checking whether its response arrived just before the receiver ended")
			}
		}
		if len(d.enc) > 0 && d.reg >= 0 && !noReply && len(d.waits) == 0 {
			failed := false
			for _, i := range d.flush {
				failed = failed || f.decide(mkEq(errOf(d.evs[i]), termNil)) == -1
			}
			if !failed {
				rep.bad("wait:not", pos, "Do does not wait for its response")
			}
		}
		if d.reply != nil && d.reply.op == OMakeChan {
			if n, ok := d.reply.args[0].intVal(); !ok || n < 1 {
				rep.bad("wait:unbuffered", pos, "the reply channel has no room, so the receiver can get stuck when nobody waits any more")
			}
		}
	}
	for _, r := range c.rc.rounds() {
		for _, v := range r.evs {
			if !blocking(w, v) || w.isRing(v, w.ci.readN) {
				continue
			}
			if v.kind == "send" && c.replySend(v) {
				continue
			}
			if v.kind == "select" {
				continue // see closure
			}
			rep.bad("receiver:stuck", p.pos(v.pos), "%s can get stuck here", c.rc.name)
		}
	}
	if len(c.doneM) == 0 {
		rep.bad("receiver:end", p.pos(c.rc.fn.Pos()), "not every way out of %s tells waiting calls that it has ended", c.rc.name)
	}
	// a failing socket or a malformed frame ends the receiver
	_, gone := c.closure(c.exit[c.rd])
	if !gone[c.rc] {
		rep.bad("receiver:reader", p.pos(c.rd.fn.Pos()), "the end of %s does not end %s", c.rd.name, c.rc.name)
	}
	if !c.endsOnError(c.rd, func(v *Ev) bool { return w.isRaw(v, "Read") }) {
		rep.bad("reader:error", p.pos(c.rd.fn.Pos()), "%s goes on after reading from the socket failed", c.rd.name)
	}
	if !c.endsOnError(c.rc, func(v *Ev) bool { return w.isRing(v, w.ci.readN) }) {
		rep.bad("receiver:error", p.pos(c.rc.fn.Pos()), "%s goes on after the ring was closed", c.rc.name)
	}
	for _, r := range c.rc.rounds() {
		if r.back && !hasEv(r.evs, func(v *Ev) bool { return v.kind == "mapget" }) {
			rep.bad("receiver:malformed", p.pos(r.pos), "%s goes on after a malformed frame, and the call it was for waits forever", c.rc.name)
		}
	}
	for _, r := range c.rd.rounds() {
		var pend *Ev
		for _, e := range r.evs {
			if w.isRaw(e, "Read") {
				pend = e
			} else if w.isRing(e, w.ci.writeN) {
				pend = nil
			}
		}
		if pend != nil && !r.st.facts.le(pend.res.args[0], mkInt(0)) {
			rep.bad("reader:dropped", p.pos(r.pos), "%s can drop a response it received together with an error", c.rd.name)
		}
	}
	// a request stuck in writing ends when the socket is closed
	if !c.exit[c.rc].raw {
		t, _ := c.closure(c.exit[c.rc])
		if !t.raw {
			rep.bad("receiver:socket", p.pos(c.rc.fn.Pos()), "the socket stays open when %s ends, so later calls can block writing", c.rc.name)
		}
	}
	c.closing(true)
	rep.need("waits", 2)
}

// closing is C12; with waitersOnly only what C11 needs: Close ends the receiver.
func (c *connRun) closing(waitersOnly bool) {
	p, rep, w := c.p, c.rep, c.w
	cl := w.entry("Close")
	for _, o := range cl.live() {
		pos := p.pos(o.pos)
		rep.ok("close_paths")
		if o.panic || o.stop {
			rep.bad("close:panic", pos, "Close can panic or block forever")
			continue
		}
		cur := effects{chans: map[*Term]bool{}, wg: map[*Term]bool{}}
		waited := map[*Term]bool{}
		evs := o.st.events()
		for i, v := range evs {
			if v.kind == "chanclose" && !waitersOnly && cl.onceGuard(evs, i, c.heldAt(evs), c.unsetters()) == nil {
				rep.bad("close:twice", p.pos(v.pos), "Close closes a channel; calling it twice panics")
			}
			if v.kind == "go" {
				rep.bad("close:go", p.pos(v.pos), "Close starts a goroutine")
			}
			if v.kind == "loop" && hasEv([]*Ev{v}, func(q *Ev) bool { return blocking(w, q) }) {
				rep.bad("close:loop", p.pos(v.pos), "Close waits in a loop")
			}
			if blocking(w, v) {
				all, gone := c.closure(cur)
				ok := false
				switch {
				case v.kind == "recv":
					ok = all.chans[v.args[0]]
					waited[v.args[0]] = true
				case v.kind == "select" && v.block:
					for i, k := range v.cases {
						if !k.send && all.chans[k.ch] {
							ok = true
							if v.chosen == i {
								waited[k.ch] = true
							}
						}
					}
				case v.kind == "call" && v.name == "(*sync.WaitGroup).Wait":
					ok = true
					for _, e := range w.entries {
						if e.goEv != nil && !gone[e] {
							ok = false
						}
					}
					ok = ok && c.wgCounts(v.args[0])
					waited[v.args[0]] = true
				}
				if !ok {
					rep.bad("close:stuck", p.pos(v.pos), "Close waits for something that nothing it did before brings about")
				}
			}
			c.effect(v, &cur)
		}
		all, gone := c.closure(cur)
		if !all.raw {
			rep.bad("close:socket", pos, "Close may leave the socket open")
		}
		if !gone[c.rc] {
			rep.bad("close:receiver", pos, "Close does not end %s", c.rc.name)
		}
		if waitersOnly {
			continue
		}
		for _, e := range w.entries {
			if e.goEv == nil {
				continue
			}
			rep.ok("goroutines_joined")
			if !gone[e] {
				rep.bad("close:leak", pos, "Close does not end %s", e.name)
			}
			joined := false
			for ch := range waited {
				joined = joined || c.exit[e].chans[ch] || c.exit[e].wg[ch]
			}
			if !joined {
				rep.bad("close:wait", pos, "Close does not wait for %s to end", e.name)
			}
		}
	}
}

// wgCounts: the wait group was raised by the number of goroutines that lower it.
func (c *connRun) wgCounts(wg *Term) bool {
	total := int64(0)
	for _, v := range c.w.st.events() {
		if v.kind == "call" && v.name == "(*sync.WaitGroup).Add" && v.args[0] == wg {
			n, ok := v.args[1].intVal()
			if !ok {
				return false
			}
			total += n
		}
	}
	n := int64(0)
	for _, e := range c.w.entries {
		if e.goEv != nil && c.exit[e].wg[wg] {
			n++
		}
	}
	return n == total
}

func (c *connRun) teardown() {
	p, rep, w := c.p, c.rep, c.w
	c.closing(false)
	for _, e := range w.entries {
		if e.goEv == nil {
			continue
		}
		rep.ok("goroutines")
		all, gone := c.closure(c.exit[e])
		if !all.raw {
			rep.bad("end:socket:"+e.name, p.pos(e.fn.Pos()), "the socket may stay open when %s ends", e.name)
		}
		for _, q := range w.entries {
			if q.goEv != nil && q != e && !gone[q] {
				rep.bad("end:other:"+e.name, p.pos(e.fn.Pos()), "%s may go on when %s ends", q.name, e.name)
			}
		}
		// started once, effects not in a loop
		for _, r := range e.rounds() {
			if r.back {
				for _, v := range r.evs {
					if v.kind == "chanclose" && !c.replySendCh(v.args[0]) && !(v.args[0].op == OMakeChan && v.args[0].n > w.mark) {
						rep.bad("end:loop", p.pos(v.pos), "%s closes a channel in its loop", e.name)
					}
				}
			}
		}
		for _, o := range e.live() {
			seen := map[*Term]bool{}
			evs := o.st.events()
			last := -1
			for i, v := range evs {
				if v.kind == "loop" || blocking(w, v) {
					last = i
				}
			}
			for i, v := range evs {
				if v.kind == "chanclose" {
					if seen[v.args[0]] {
						rep.bad("end:twice", p.pos(v.pos), "%s closes a channel twice", e.name)
					}
					seen[v.args[0]] = true
					if i < last {
						rep.bad("end:early", p.pos(v.pos), "%s reports its end before it has ended", e.name)
					}
				}
			}
		}
	}
	// no channel is closed by two goroutines
	for _, a := range w.entries {
		for _, b := range w.entries {
			if a.goEv != nil && b.goEv != nil && a != b {
				for ch := range c.exit[a].chans {
					if c.exit[b].chans[ch] && ch.op == OMakeChan {
						rep.bad("end:both", p.pos(a.fn.Pos()), "%s and %s close the same channel", a.name, b.name)
					}
				}
			}
		}
	}
	for _, e := range w.entries {
		if e.has(func(v *Ev) bool { return v.kind == "go" }) {
			rep.bad("go:"+e.name, p.pos(e.fn.Pos()), "%s starts a goroutine that Close does not wait for", e.name)
		}
	}
	for _, g := range w.gos {
		_ = g
	}
	rep.need("goroutines", 2)
	rep.need("close_paths", 1)
}

// frames14 is C14.
func (c *connRun) frames14() {
	p, rep, w := c.p, c.rep, c.w
	for _, pr := range c.rc.probs {
		rep.bad(pr.Key, pr.Pos, "%s", pr.Msg)
	}
	for i := 0; i < c.rc.checks; i++ {
		rep.ok("memory_obligations")
	}
	for _, m := range c.rc.made {
		rep.ok("allocations")
		f := m.st.facts
		if n, ok := m.n.intVal(); ok && n >= 0 && n <= absurdSize {
			continue
		}
		if !f.entailsGE(linOf(m.n)) {
			rep.bad("frame:negative", p.pos(m.pos), "makes room for %s bytes, which may be negative", m.n)
		} else if !f.entailsGE(linOf(m.n).scale(-1).addc(absurdSize)) {
			rep.bad("frame:absurd", p.pos(m.pos), "makes room for %s bytes without any limit", m.n)
		}
	}
	for _, r := range c.rc.rounds() {
		pos := p.pos(r.pos)
		var reads []*Ev
		for _, e := range r.evs {
			switch {
			case w.isRing(e, w.ci.readN):
				rep.ok("ring_reads")
				f := e.st.facts
				n := e.args[2]
				if !f.entailsGE(linOf(n)) || !f.le(n, mkLen(e.args[1])) {
					rep.bad("frame:room", p.pos(e.pos), "%s bytes are read into %s, which may be too small", n, e.args[1])
				}
				switch len(reads) {
				case 0:
					if k, ok := f.constOf(n); !ok || k != 4 {
						rep.bad("frame:header", p.pos(e.pos), "a frame does not start with reading a size of 4 bytes")
					}
				case 1:
					if !sizeOf(n, reads[0]) {
						rep.bad("frame:size", p.pos(e.pos), "%s bytes are read instead of the announced size", n)
					}
				default:
					rep.bad("frame:extra", p.pos(e.pos), "more than size and payload of a frame is read")
				}
				reads = append(reads, e)
			case e.kind == "mapget" && len(reads) > 1:
				if !e.st.facts.le(mkInt(4), reads[1].args[2]) {
					rep.bad("frame:short", p.pos(e.pos), "the correlation id may lie beyond the end of the frame")
				}
			case e.kind == "call" && e.dyn != nil && len(e.args) == 1 && e.args[0].typ != nil && types.Identical(e.args[0].typ, types.NewPointer(c.w.ci.dec.typ)):
				rep.ok("decoder_handovers")
				if len(reads) != 2 {
					rep.bad("frame:unread", p.pos(e.pos), "decodes before the frame was received")
					continue
				}
				st := e.st
				dec := e.args[0]
				raw, n, off := w.ci.dec.get(&st, dec, w.ci.dec.rawF), w.ci.dec.get(&st, dec, w.ci.dec.lenF), w.ci.dec.get(&st, dec, w.ci.dec.offF)
				base, lo := bufBase(raw)
				into, at := bufBase(reads[1].args[1])
				cont := st.regionContents(base)
				switch {
				case base != into || lo != at || cont == nil || cont.info != reads[1]:
					rep.bad("frame:other", p.pos(e.pos), "the decoder does not see the frame that was received")
				case !sizeOf(n, reads[0]):
					rep.bad("frame:length", p.pos(e.pos), "the decoder is given %s bytes instead of the frame's size", n)
				default:
					if k, ok := off.intVal(); !ok || k != 4 {
						rep.bad("frame:start", p.pos(e.pos), "the decoder starts at %s instead of after the response header", off)
					}
					if !st.facts.le(mkAdd(lo, n), mkLen(base)) {
						rep.bad("frame:room", p.pos(e.pos), "the decoder's buffer is smaller than the frame")
					}
				}
			}
		}
		for _, e := range r.evs {
			if e.kind == "loop" && hasEv([]*Ev{e}, func(q *Ev) bool { return w.isRing(q, w.ci.readN) || q.kind == "mapget" }) && !r.back {
				rep.bad("frame:nested", p.pos(e.pos), "frames are received in nested loops, which cannot be followed")
			}
		}
		if r.back {
			rep.ok("receiver_rounds")
			if len(reads) != 2 {
				rep.bad("frame:partial", pos, "%s goes on to the next frame without having received this one completely", c.rc.name)
			}
			continue
		}
		if len(reads) == 1 {
			f := r.st.facts
			er := errOf(reads[0])
			if f.decide(mkEq(er, termNil)) == -1 {
				continue
			}
			told := false
			for _, e := range r.evs {
				if e.kind == "select" && e.chosen >= 0 || e.name == "ctx.Err" {
					told = true
				}
			}
			st := State{}
			_ = st
			size := c.sizeTerm(r, reads[0])
			if size == nil {
				if !told {
					rep.bad("frame:refused", pos, "%s ends before looking at the size of the frame", c.rc.name)
				}
				continue
			}
			small := f.le(size, mkInt(3))
			big := f.entailsGE(linOf(size).addc(-legitSize))
			if !small && !big && !told {
				rep.bad("frame:refused", pos, "%s gives up on a frame whose size is legitimate", c.rc.name)
			}
		}
		if len(reads) == 2 {
			if c.givesUp(r, reads) {
				rep.bad("frame:dropped", pos, "%s ends although a complete frame was received", c.rc.name)
			}
		}
	}
	rep.need("ring_reads", 2)
	rep.need("decoder_handovers", 1)
}

// givesUp: the receiver ends although a complete frame was received and nobody
// told it to.
func (c *connRun) givesUp(r round, reads []*Ev) bool {
	f := r.st.facts
	if len(reads) != 2 || f.decide(mkEq(errOf(reads[1]), termNil)) == -1 || f.le(reads[1].args[2], mkInt(3)) {
		return false
	}
	return !hasEv(r.evs, func(v *Ev) bool { return v.kind == "select" && v.chosen >= 0 || v.name == "ctx.Err" })
}

// sizeTerm finds the announced size among the facts of a path.
func (c *connRun) sizeTerm(r round, e *Ev) *Term {
	for x := r.st.facts; x != nil; x = x.parent {
		if x.ge == nil {
			continue
		}
		for _, m := range x.ge.m {
			if sizeOf(m.atom, e) {
				return m.atom
			}
		}
	}
	return nil
}

// forwarding: the reader hands on every byte it receives, in order (C15).
func (c *connRun) forwarding() {
	p, rep, w := c.p, c.rep, c.w
	for _, r := range c.rd.rounds() {
		var pend *Ev
		for _, e := range r.evs {
			switch {
			case w.isRaw(e, "Read"):
				if pend != nil {
					rep.bad("forward:lost", p.pos(e.pos), "%s reads again before the bytes read last are in the ring", c.rd.name)
				}
				pend = e
			case w.isRing(e, w.ci.writeN):
				rep.ok("ring_writes")
				if pend == nil {
					rep.bad("forward:twice", p.pos(e.pos), "%s writes bytes to the ring it did not just receive", c.rd.name)
					continue
				}
				n := pend.res.args[0]
				b, lo := bufBase(e.args[1])
				rb, rlo := bufBase(pend.args[1])
				st := e.st
				cont := st.regionContents(b)
				if b != rb || lo != rlo || cont == nil || cont.info != pend {
					rep.bad("forward:other", p.pos(e.pos), "%s writes other bytes to the ring than it received", c.rd.name)
				}
				if !e.st.facts.eq(e.args[2], n) {
					rep.bad("forward:count", p.pos(e.pos), "%s writes %s bytes to the ring but received %s", c.rd.name, e.args[2], n)
				}
				if !e.st.facts.le(e.args[2], mkLen(e.args[1])) {
					rep.bad("forward:room", p.pos(e.pos), "%s writes more bytes than its buffer has", c.rd.name)
				}
				pend = nil
			}
		}
		if pend != nil && !r.st.facts.le(pend.res.args[0], mkInt(0)) {
			rep.bad("forward:dropped", p.pos(r.pos), "%s can drop bytes it received", c.rd.name)
		}
	}
	for _, e := range w.entries {
		if e != c.rd && e.has(func(v *Ev) bool { return w.isRing(v, w.ci.writeN) }) {
			rep.bad("forward:writer", p.pos(e.fn.Pos()), "%s writes to the ring, too", e.name)
		}
		if e != c.rc && e.has(func(v *Ev) bool { return w.isRing(v, w.ci.readN) }) {
			rep.bad("forward:reader", p.pos(e.fn.Pos()), "%s reads from the ring, too", e.name)
		}
		if e.has(func(v *Ev) bool {
			return v.kind == "call" && v.fn != nil && v.fn.Package() != nil && v.fn.Package().Pkg.Path() == ringPkg && v.fn != w.ci.readN && v.fn != w.ci.writeN && v.fn != w.ci.ringClose
		}) {
			rep.bad("forward:op", p.pos(e.fn.Pos()), "%s uses an operation of the ring that is not analysed", e.name)
		}
	}
	rep.need("ring_writes", 1)
}

var _ token.Pos
var _ *ssa.Function
