package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Failures keep their cause (C30): an error that is returned because a step
// failed is the error of that step, or wraps it.

// carried: t and everything it wraps.
func carried(f *Facts, t *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		for _, u := range []*Term{t, unwrap(t), f.resolve(t), unwrap(f.resolve(t))} {
			if u == nil || seen[u] {
				continue
			}
			seen[u] = true
			r = append(r, u)
			if e, ok := u.info.(*Ev); ok && e.res == u {
				for _, w := range e.wraps {
					visit(w)
				}
			}
		}
	}
	visit(t)
	return r
}

func carries(f *Facts, t, cause *Term) bool {
	for _, u := range carried(f, t) {
		if u == cause || u == f.resolve(cause) || u == unwrap(cause) {
			return true
		}
		// lists of errors joined together
		if (u.op == OAppLoop || u.op == OAppend) && containsTerm(u, cause) {
			return true
		}
	}
	return false
}

// aStep: a call that can fail, as opposed to one that makes an error or cleans up.
func aStep(e *Ev) bool {
	if e.kind != "call" || errOf(e) == nil {
		return false
	}
	switch e.name {
	case "errors.New", "fmt.Errorf", "errors.Join", "errors.Unwrap":
		return false
	}
	return !strings.HasSuffix(e.name, ").Close") && !strings.HasSuffix(e.name, ".Close")
}

// failedStep: the step that the path failed at, if the last one did. In a loop
// that ended because of failing rounds, loop is set instead.
func failedStep(evs []*Ev, f *Facts, step func(*Ev) bool) (e, loop *Ev) {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if e.kind == "loop" {
			for _, b := range e.loop.backs {
				if b.st.facts.dead {
					continue
				}
				if s, _ := failedStep(b.st.events(), b.st.facts, step); s != nil {
					return nil, e
				}
			}
			for _, b := range e.loop.backs {
				for _, v := range b.st.events() {
					if step(v) {
						return nil, nil
					}
				}
			}
		}
		if step(e) {
			if f.decide(mkEq(errOf(e), termNil)) == -1 {
				return e, nil
			}
			return nil, nil
		}
	}
	return nil, nil
}

// causePath checks one way out.
func causePath(rep *Report, key, what, pos string, evs []*Ev, f *Facts, ret *Term, step func(*Ev) bool) {
	if f.dead || ret == nil || f.decide(mkEq(f.resolve(ret), termNil)) == 1 {
		return
	}
	e, loop := failedStep(evs, f, step)
	switch {
	case e != nil:
		rep.ok("failing_paths")
		if !carries(f, ret, errOf(e)) {
			rep.bad(key+":"+stepName(e), pos, "%s: %s fails, but the error returned neither is nor wraps its error", what, stepName(e))
		}
	case loop != nil:
		rep.ok("failing_paths")
		for i, b := range loop.loop.backs {
			if b.st.facts.dead {
				continue
			}
			s, _ := failedStep(b.st.events(), b.st.facts, step)
			if s == nil || carries(f, ret, errOf(s)) {
				continue
			}
			ok := false
			for _, lv := range loop.loop.vars {
				n := loop.loop.nexts[lv]
				if i >= len(n) || !carries(f, ret, lv.sym) {
					continue
				}
				ok = ok || carries(b.st.facts, n[i], errOf(s))
			}
			if !ok {
				rep.bad(key+":"+stepName(s), pos, "%s: gives up after rounds in which %s failed, but the error returned neither is nor wraps its error", what, stepName(s))
			}
		}
	}
}

func stepName(e *Ev) string {
	if e.fn != nil {
		return e.fn.Name()
	}
	return e.name[strings.LastIndexByte(e.name, '.')+1:]
}

// causes of the connection
func (c *connRun) causes() {
	p, rep := c.p, c.rep
	if !c.delivers() {
		return
	}
	for _, d := range c.doPaths() {
		f, pos := d.o.st.facts, p.pos(d.o.pos)
		ret := d.o.ret
		if len(d.got) > 0 && !d.unsent() {
			rep.ok("replies")
			if f.decide(mkEq(d.gotV, termNil)) != 1 && !carries(f, ret, d.gotV) {
				rep.bad("do:reply", pos, "Do: the error returned neither is nor wraps the one from decoding the response")
			}
			continue
		}
		if len(d.enc) == 0 {
			continue
		}
		for _, i := range d.flush {
			er := errOf(d.evs[i])
			if f.decide(mkEq(er, termNil)) == -1 {
				rep.ok("failed_writes")
				if !carries(f, ret, er) {
					rep.bad("do:write", pos, "Do: writing the request fails, but the error returned neither is nor wraps that error")
				}
			}
		}
	}
	rep.need("replies", 1)
	rep.need("failed_writes", 1)
	for _, r := range c.rc.rounds() {
		f := r.st.facts
		var last *Ev
		for _, e := range r.evs {
			if e.kind == "call" && e.dyn != nil && errOf(e) != nil {
				if ev, ok := e.dyn.info.(*Ev); !ok || ev.name != "context.WithCancel" {
					last = e
				}
			}
			var vals []*Term
			if e.kind == "send" && c.replySend(e) {
				vals = append(vals, e.args[1])
			}
			if e.kind == "select" && e.chosen >= 0 && e.cases[e.chosen].send && c.replySendCh(e.cases[e.chosen].ch) {
				vals = append(vals, e.cases[e.chosen].val)
			}
			for _, v := range vals {
				if last == nil {
					continue
				}
				rep.ok("deliveries")
				if f.decide(mkEq(errOf(last), termNil)) != 1 && !carries(f, v, errOf(last)) {
					rep.bad("deliver:cause", p.pos(e.pos), "%s hands over %s instead of the error of decoding the response", c.rc.name, v)
				}
			}
		}
	}
	rep.need("deliveries", 1)
}

func checkCauses(p *Prog, rep *Report, verif string) {
	rep.rule("on every way out with an error after a failed step, the value returned is that step's error or was made from it with %%w or errors.Join; for loops, every round that fails leaves its error in the variable returned")
	rep.rule("a decoder primitive that finds too few bytes returns io.ErrShortBuffer or a wrap of it; IsInsufficientDataError is errors.Is with io.ErrShortBuffer")
	// messages
	r := newCodecRun(p, rep, verif)
	r.dc.errs, r.dc.causes = rep, true
	r.each(func(m *SpecMsg, c *codecType, v int64) {
		r.dc.layout(c, v)
		rep.ok("message_versions")
	})
	rep.need("message_versions", 360)
	rep.need("failing_paths", 300)
	decoderPrims(p, rep, "cause-get", "cause")
	insufficient(p, rep)

	// connecting
	ci, err := p.connInfo()
	if err != nil {
		rep.bad("conn", "", "%v", err)
		return
	}
	d := ci.runDial(rep)
	for _, o := range d.outs {
		if o.panic || o.stop || o.ret == nil || o.ret.op != OTuple {
			continue
		}
		rep.ok("connect_paths")
		causePath(rep, "connect", "Connect", p.pos(o.pos), o.st.events(), o.st.facts, o.ret.args[1], aStep)
	}
	b, err := p.brokerInfo()
	if err != nil {
		rep.bad("broker", "", "%v", err)
		return
	}
	nb := b.runNewBroker()
	rep.visit(nb.x)
	for _, o := range nb.outs {
		if o.panic || o.stop || o.ret == nil || o.ret.op != OTuple {
			continue
		}
		rep.ok("newbroker_paths")
		causePath(rep, "newbroker", "NewBroker", p.pos(o.pos), o.st.events(), o.st.facts, o.ret.args[1], aStep)
	}
	// requests
	for _, m := range b.apiMethods() {
		r := b.runApi(m)
		rep.visit(r.x)
		rep.ok("api_methods")
		for _, o := range r.outs {
			f := o.st.facts
			if o.panic || o.stop || f.dead || o.ret == nil || o.ret.op != OTuple {
				continue
			}
			pos, er := p.pos(o.pos), o.ret.args[1]
			done := false
			for _, e := range callsOf(o.st.events(), b.do) {
				if d := r.dos[e]; d != nil && d.failed != nil && f.decide(mkEq(d.failed, termNil)) == -1 {
					done = true
					rep.ok("failing_paths")
					if !carries(f, er, d.failed) {
						rep.bad("api:"+m.name, pos, "%s: the request fails, but the error returned neither is nor wraps the error of the connection", m.name)
					}
				}
			}
			if !done {
				causePath(rep, "api:"+m.name, m.name, pos, o.st.events(), f, er, func(e *Ev) bool { return aStep(e) && e.fn != b.do })
			}
		}
	}
	rep.need("api_methods", 40)
	// lookups
	li, err := p.lookupInfo()
	if err != nil {
		rep.bad("lookup", "", "%v", err)
		return
	}
	for _, l := range li.lookups(rep) {
		rep.ok("lookups")
		for _, o := range l.outs {
			f := o.st.facts
			if o.panic || o.stop || f.dead || o.ret == nil {
				continue
			}
			er := o.ret
			if er.op == OTuple {
				if len(er.args) == 0 {
					continue
				}
				er = er.args[len(er.args)-1]
			}
			if !isErrorType(er.typ) && er != termNil {
				continue
			}
			causePath(rep, "lookup:"+l.fn.Name(), l.fn.Name(), p.pos(o.pos), o.st.events(), f, er, aStep)
		}
	}
	rep.need("lookups", 4)
	connCheck(func(c *connRun) { c.causes() })(p, rep, verif)
}

// isShort: t is io.ErrShortBuffer
func isShort(t *Term) bool {
	t = unwrap(t)
	return t != nil && strings.HasSuffix(t.String(), "ErrShortBuffer")
}

// insufficient checks IsInsufficientDataError.
func insufficient(p *Prog, rep *Report) {
	fn := p.fun(msgPkg, "IsInsufficientDataError")
	if fn == nil {
		rep.bad("short:func", "", "IsInsufficientDataError not found")
		return
	}
	x := newX(p)
	a := namedSym("err", fn.Params[0].Type())
	outs := x.Run(fn, []*Term{a}, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	rep.undecided(x, fn.Name())
	for _, o := range outs {
		f := o.st.facts
		if f.dead {
			continue
		}
		pos := p.pos(o.pos)
		if o.panic || o.stop {
			rep.bad("short:panic", pos, "IsInsufficientDataError can panic or block")
			continue
		}
		rep.ok("classifications")
		ok := false
		for _, t := range x.pures {
			if t.s == "errors.Is" && f.resolve(t.args[0]) == f.resolve(a) && isShort(t.args[1]) {
				ok = ok || o.ret == t || f.decide(o.ret) != 0 && f.decide(o.ret) == f.decide(t)
			}
		}
		switch {
		case ok:
		case f.decide(mkEq(a, termNil)) == 1 && f.decide(o.ret) == -1:
		case f.decide(o.ret) == 1 && identical(f, a):
		default:
			rep.bad("short:is", pos, "IsInsufficientDataError is not whether the error is or wraps io.ErrShortBuffer")
		}
	}
	rep.need("classifications", 1)
}

// identical: the path has found the error to be io.ErrShortBuffer itself.
func identical(f *Facts, a *Term) bool { return isShort(f.resolve(a)) }

var _ *ssa.Function

func init() { checks["C30"] = checkCauses }
