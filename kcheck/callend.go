package main

// What a call leaves behind in the connection when it ends (C27), and who may
// still write to its response then (C28).

// chosenRecv: the channel a wait received from on this path.
func chosenRecv(v *Ev) *Term {
	switch {
	case v.kind == "recv":
		return v.args[0]
	case v.kind == "select" && v.chosen >= 0 && !v.cases[v.chosen].send:
		return v.cases[v.chosen].ch
	}
	return nil
}

// leftovers: whatever Do adds to the connection is gone again when it returns.
func (c *connRun) leftovers() {
	if !c.delivers() {
		return
	}
	for _, d := range c.doPaths() {
		c.rep.ok("ways out of Do")
		if d.inLoop {
			c.rep.bad("left:loop", c.p.pos(d.o.pos), "Do changes the table of outstanding requests in a loop, which cannot be followed")
			continue
		}
		for i, v := range d.evs {
			switch {
			case v.kind == "go":
				c.rep.bad("left:go", c.p.pos(v.pos), "Do starts a goroutine that may outlive the call")
			case v.kind == "store" && rootOf(v.args[0]) == c.w.c && (v.args[1].op == OAppend || v.args[1].op == OAppendS):
				c.rep.bad("left:append", c.p.pos(v.pos), "Do adds to a list of the connection")
			case v.kind == "mapset" && c.ofConn(v.args[0]):
				c.rep.ok("entries followed")
				gone := false
				for j, q := range d.evs {
					if j > i && q.kind == "mapdel" && q.args[0] == v.args[0] && q.args[1] == v.args[1] {
						gone = true
					}
					if j > i && d.missing(q, v.args[0], v.args[1]) {
						gone = true // nobody puts it back
					}
				}
				// whoever hands over the reply has removed the entry
				if j := index(d.evs, firstOf(d.got)); i == d.reg && v.args[0] == c.d.m && len(d.got) > 0 && j > i && c.receiverRemoves() {
					gone = true
				}
				if !gone {
					c.rep.bad("left:entry", c.p.pos(d.o.pos), "Do returns with the entry it added at %s still in the connection's table", c.p.pos(v.pos))
				}
			}
		}
	}
	c.rep.need("ways out of Do", 2)
	c.rep.need("entries followed", 1)
}

// missing: v found that the table has no such entry.
func (d *doPath) missing(v *Ev, m, id *Term) bool {
	return v.kind == "mapget" && v.args[0] == m && v.args[1] == id && v.res.op == OTuple && len(d.held[v]) > 0 && d.o.st.facts.decide(v.res.args[1]) == -1
}

func firstOf(evs []*Ev) *Ev {
	if len(evs) == 0 {
		return nil
	}
	return evs[0]
}

func index(evs []*Ev, e *Ev) int {
	for i, v := range evs {
		if v == e {
			return i
		}
	}
	return -1
}

// ofConn: m is a map that outlives the call
func (c *connRun) ofConn(m *Term) bool {
	return m == c.d.m || !(m.op == OMakeMap && m.n > c.w.mark)
}

// receiverRemoves: on every way the receiver answers a request it has removed the entry before.
func (c *connRun) receiverRemoves() bool {
	for _, r := range c.rc.rounds() {
		for i, v := range r.evs {
			if v.kind != "send" && v.kind != "select" {
				continue
			}
			answers := v.kind == "send" && c.replySend(v)
			for _, k := range v.cases {
				if k.send && c.replySendCh(k.ch) {
					answers = true
				}
			}
			if !answers {
				continue
			}
			ok := false
			for _, q := range r.evs[:i] {
				if q.kind == "mapdel" && q.args[0] == c.d.m {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// receiverTakes: the receiver removes every entry whose decode function it
// calls in the critical section in which it looked it up.
func (c *connRun) receiverTakes() bool {
	for _, r := range c.rc.rounds() {
		taken := map[*Term]bool{} // what was looked up and removed
		var open []*Ev
		for _, v := range r.evs {
			switch op, _ := lockOp(v); {
			case op == "unlock" || op == "runlock":
				open = nil
			case v.kind == "mapget" && v.args[0] == c.d.m:
				open = append(open, v)
			case v.kind == "mapdel" && v.args[0] == c.d.m:
				for _, g := range open {
					if g.args[1] == v.args[1] {
						taken[g.res] = true
						if g.res.op == OTuple {
							taken[g.res.args[0]] = true
						}
					}
				}
			case v.kind == "call" && v.dyn != nil:
				if ev, ok := v.dyn.info.(*Ev); ok && ev.name == "context.WithCancel" {
					continue
				}
				ok := false
				for g := range taken {
					if projIdx(v.dyn, g) == c.d.decI {
						ok = true
					}
				}
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

// released: when Do returns, the receiver is done with the call's decode
// function, which writes the response, and cannot get at it any more.
func (c *connRun) released() {
	if !c.delivers() {
		return
	}
	dec := c.w.entry("Do").decode
	for _, d := range c.doPaths() {
		if d.reg < 0 {
			continue
		}
		c.rep.ok("ways out of Do")
		if d.o.st.facts.decide(mkEq(dec, termNil)) == 1 {
			continue // nothing to decode into
		}
		ok := len(d.got) > 0
		for _, v := range d.evs[d.reg:] {
			if ch := chosenRecv(v); ch != nil && c.doneM[ch] {
				ok = true // the receiver has ended
			}
		}
		if !ok && c.takenBack(d) {
			ok = true
		}
		if ok {
			c.rep.ok("responses released")
			continue
		}
		c.rep.bad("released", c.p.pos(d.o.pos), "Do returns while %s may still be decoding into the response of the call: it neither has the reply, nor has it ended, nor was the entry taken back before it was looked up", c.rc.name)
	}
	c.rep.need("responses released", 1)
}

// takenBack: Do found its own entry in the table and removed it in one critical
// section, so the receiver, which takes entries out under the same lock, does
// not have it.
func (c *connRun) takenBack(d *doPath) bool {
	id := d.evs[d.enc[0]].args[1]
	for i, v := range d.evs {
		if i <= d.reg || v.kind != "mapget" || v.args[0] != c.d.m || v.args[1] != id || len(d.held[v]) == 0 {
			continue
		}
		if v.res.op != OTuple || d.o.st.facts.decide(v.res.args[1]) != 1 {
			continue
		}
		for _, q := range d.evs[i:] {
			if op, _ := lockOp(q); op == "unlock" || op == "runlock" {
				break
			}
			if q.kind == "mapdel" && q.args[0] == c.d.m && q.args[1] == id {
				return c.receiverTakes()
			}
		}
	}
	return false
}

func init() {
	checks["C27"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("on every way out of Do each entry it put into a map of the connection was deleted after that, or its reply was received, which the receiver sends only after removing it; no goroutine is started and no list of the connection grows")
		connCheck(func(c *connRun) { c.leftovers() })(p, rep, verif)
	}
	checks["C28"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("on every way out of Do with a decode function the reply was received, or a channel the receiver closes when it ends was, or the entry was found and removed in one critical section")
		connCheck(func(c *connRun) { c.released() })(p, rep, verif)
	}
}
