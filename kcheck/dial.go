package main

import (
	"fmt"
	"go/types"
	"strings"
)

// How connections are made (C20, C23): Connect is evaluated with the option
// functions unknown; the options themselves are evaluated separately.

type dialRun struct {
	ci     *connInfo
	p      *Prog
	x      *X
	addr   *Term
	opts   *Term
	outs   []CallOut
	cfgT   types.Type
	dialF  int
	tlsF   int
	option types.Type
}

func (ci *connInfo) runDial(rep *Report) *dialRun {
	p := ci.p
	d := &dialRun{ci: ci, p: p, x: ci.newX(), option: namedType(p, kafkaPkg, "Option")}
	var args []*Term
	for _, q := range ci.connect.Params {
		args = append(args, namedSym(q.Name(), q.Type()))
	}
	d.addr, d.opts = args[0], args[1]
	if d.option != nil {
		if s, ok := d.option.Underlying().(*types.Signature); ok && s.Params().Len() == 1 {
			d.cfgT = pointee(s.Params().At(0).Type())
		}
	}
	d.dialF, d.tlsF = -1, -1
	if structOf(d.cfgT) != nil {
		d.dialF = fieldIndex(d.cfgT, func(v *types.Var) bool { return v.Type().String() == "*net.Dialer" })
		d.tlsF = fieldIndex(d.cfgT, func(v *types.Var) bool { return v.Type().String() == "*crypto/tls.Config" })
	}
	d.outs = d.x.Run(ci.connect, args, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(d.x)
	rep.undecided(d.x, "Connect")
	return d
}

func isDialEv(e *Ev) bool {
	if e.kind != "call" || e.fn != nil && e.fn.Package() != nil && e.fn.Package().Pkg.Path() == kafkaPkg {
		return false
	}
	var ts []types.Type
	if e.res != nil && e.res.op == OTuple {
		for _, a := range e.res.args {
			ts = append(ts, a.typ)
		}
	} else if e.res != nil {
		ts = append(ts, e.res.typ)
	}
	for _, t := range ts {
		if t == nil {
			continue
		}
		switch t.String() {
		case "net.Conn", "*crypto/tls.Conn", "*net.TCPConn":
			return true
		}
	}
	return false
}

func dialResult(e *Ev) *Term {
	if e.res.op == OTuple {
		return e.res.args[0]
	}
	return e.res
}

func unwrap(t *Term) *Term {
	for t != nil && (t.op == OIface || t.op == OConv) {
		t = t.args[0]
	}
	return t
}

func (d *dialRun) leaks(rep *Report) {
	p := d.p
	for _, o := range d.outs {
		f := o.st.facts
		if f.dead || o.panic || o.stop || o.ret == nil || o.ret.op != OTuple {
			continue
		}
		evs := o.st.events()
		er := f.decide(mkEq(f.resolve(o.ret.args[1]), termNil))
		rep.ok("connect_paths")
		for i, e := range evs {
			if e.kind == "go" && er == -1 {
				rep.bad("leak:connect:go", p.pos(e.pos), "Connect fails and leaves a goroutine running")
			}
			if e.kind == "loop" && hasEv([]*Ev{e}, isDialEv) {
				rep.bad("leak:connect:loop", p.pos(e.pos), "Connect makes connections in a loop")
			}
			if !isDialEv(e) || errOf(e) == nil {
				continue
			}
			rep.ok("connections")
			switch f.decide(mkEq(errOf(e), termNil)) {
			case -1:
				continue
			case 0:
				rep.bad("leak:connect:unchecked", p.pos(e.pos), "Connect does not examine whether the connection was made")
				continue
			}
			raw := dialResult(e)
			closed := false
			for _, v := range evs[i:] {
				if v.kind != "call" {
					continue
				}
				nm := v.name
				if v.fn != nil {
					nm = v.fn.Name()
				}
				if (nm == "Close" || hasSuffix(nm, ").Close")) && (len(v.args) > 0 && unwrap(v.args[0]) == raw || v.dyn != nil && unwrap(v.dyn) == raw) {
					closed = true
				}
			}
			st := o.st
			handed := false
			c := f.resolve(o.ret.args[0])
			if er == 1 && structOf(pointee(c.typ)) != nil {
				s := structOf(pointee(c.typ))
				for j := 0; j < s.NumFields(); j++ {
					ft := s.Field(j).Type()
					if ft.String() == "net.Conn" && unwrap(st.load(mkFieldAddr(c, j, types.NewPointer(ft)), ft)) == raw {
						handed = true
					}
				}
			}
			switch {
			case handed && closed:
				rep.bad("leak:connect:closed", p.pos(e.pos), "Connect returns a connection whose socket it has closed")
			case !handed && !closed:
				rep.bad("leak:connect:open", p.pos(o.pos), "Connect neither closes nor keeps the socket opened at %s", p.pos(e.pos))
			}
		}
	}
	rep.need("connect_paths", 2)
}

func hasSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

// options checks the option constructors; it tells whether no option leaves the
// dialer nil when it was not nil before.
func (d *dialRun) options(rep *Report) bool {
	p := d.p
	keeps := true
	for _, fn := range p.allFuncs() {
		if fn.Package() == nil || fn.Package().Pkg.Path() != kafkaPkg || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 1 || !types.Identical(rs.At(0).Type(), d.option) {
			continue
		}
		n := fn.Name()
		rep.ok("options")
		x := newX(p)
		var args []*Term
		var dialer, tls *Term
		for _, q := range fn.Params {
			a := namedSym(n+"."+q.Name(), q.Type())
			args = append(args, a)
			switch q.Type().String() {
			case "*net.Dialer":
				dialer = a
			case "*crypto/tls.Config":
				tls = a
			}
		}
		outs := x.Run(fn, args, nil, State{facts: rootFacts}, nil, 0)
		for _, o := range outs {
			if o.st.facts.dead {
				continue
			}
			if o.panic || o.stop || o.ret == nil || o.ret.op != OFunc && o.ret.op != OClosure {
				rep.bad("option:"+n+":shape", p.pos(o.pos), "%s does not return an option function that can be examined", n)
				continue
			}
			c := namedSym("cfg", types.NewPointer(d.cfgT))
			c.nonnil = true
			st := o.st
			st.trace = nil
			s := structOf(d.cfgT)
			load := func(st *State, i int) *Term {
				ft := s.Field(i).Type()
				return st.facts.resolve(st.load(mkFieldAddr(c, i, types.NewPointer(ft)), ft))
			}
			before := st
			for _, r := range x.callTerm(&Frame{fn: fn}, st, o.ret, []*Term{c}, fn.Pos()) {
				g := r.st.facts
				if g.dead {
					continue
				}
				pos := p.pos(r.pos)
				if r.panic || r.stop {
					rep.bad("option:"+n+":panic", pos, "the option of %s can panic or block", n)
					continue
				}
				rep.ok("option_paths")
				rst := r.st
				for i := 0; i < s.NumFields(); i++ {
					was, is := load(&before, i), load(&rst, i)
					switch i {
					case d.tlsF:
						if tls != nil {
							if !sameTLS(g, is, tls) && !g.eqRef(is, tls) {
								rep.bad("option:"+n+":tls", pos, "%s sets the TLS configuration to %s instead of its argument", n, is)
							}
						} else if is != was {
							rep.bad("option:"+n+":tls", pos, "%s changes the TLS configuration", n)
						}
					case d.dialF:
						switch {
						case dialer == nil:
							if is != was {
								rep.bad("option:"+n+":dialer", pos, "%s changes the dialer", n)
							}
						case g.decide(mkEq(dialer, termNil)) == 1:
							if !is.knownNonNil() && g.decide(mkEq(is, termNil)) != -1 {
								keeps = false
							} else if is != was && !d.plainDialer(&rst, is) {
								rep.bad("option:"+n+":default", pos, "%s with a nil dialer uses %s instead of a default dialer", n, is)
							}
						default:
							if is != dialer && !g.eqRef(is, dialer) {
								rep.bad("option:"+n+":dialer", pos, "%s sets the dialer to %s instead of its argument", n, is)
							}
							if g.decide(mkEq(is, termNil)) != -1 {
								keeps = false
							}
						}
					default:
						if is != was && (dialer != nil || tls != nil) {
							rep.bad("option:"+n+":other", pos, "%s changes %s", n, s.Field(i).Name())
						}
					}
				}
				// nothing else is changed
				for h := rst.heap; h != nil && h != before.heap; h = h.parent {
					rt := rootOf(h.key)
					if rt != c && rt.op != OAlloc {
						rep.bad("option:"+n+":writes", pos, "%s changes %s", n, h.key)
					}
				}
			}
		}
		rep.visit(x)
		rep.undecided(x, n)
	}
	return keeps
}

const tlsClone = "(*crypto/tls.Config).Clone"

// cloneOf: what t is a clone of.
func cloneOf(t *Term) *Term {
	if e, ok := t.info.(*Ev); ok && e.name == tlsClone {
		return e.args[0]
	}
	return nil
}

// sameTLS: conf is the configuration tls, or a clone of it.
func sameTLS(f *Facts, conf, tls *Term) bool {
	for {
		conf = f.resolve(conf)
		if conf == f.resolve(tls) {
			return true
		}
		if conf = cloneOf(conf); conf == nil {
			return false
		}
	}
}

// untouched: the path changes neither the TLS configuration, a clone of it, nor the dialer given.
func (d *dialRun) untouched(rep *Report, o CallOut, tls, dialer *Term) {
	f := o.st.facts
	for _, e := range o.st.events() {
		if len(e.args) == 0 {
			continue
		}
		r := f.resolve(rootOf(e.args[0]))
		ours := sameTLS(f, r, tls) || r == f.resolve(dialer)
		switch {
		case !ours:
		case e.kind == "store":
			rep.bad("tls:changed", d.p.pos(e.pos), "the path to the connection changes the configuration given (%s)", e.args[0])
		case e.kind == "call" && strings.HasPrefix(e.name, "(*crypto/tls.Config).") && e.name != tlsClone:
			rep.bad("tls:changed", d.p.pos(e.pos), "%s is called on the configuration given", e.name)
		}
	}
}

func (f *Facts) eqRef(a, b *Term) bool { return f.decide(mkEq(a, b)) == 1 }

// plainDialer: a dialer created here without settings that prevent dialing.
func (d *dialRun) plainDialer(st *State, t *Term) bool {
	return t.op == OAlloc || t.op == OGlobal || freshRoot(t)
}

func checkTLS(p *Prog, rep *Report) {
	rep.rule("every call that makes a connection is either plain TCP on a path that entails tlsConfig == nil, or TLS with exactly the configured tlsConfig on a path that entails it is not nil; both use the configured dialer, network tcp and Connect's address")
	rep.rule("the configuration used is the result of applying every option once, in order, to a configuration with a usable dialer and no TLS; each option stores exactly its argument; a nil dialer never reaches the call")
	rep.rule("no other code of the library makes network connections")
	ci, err := p.connInfo()
	if err != nil {
		rep.bad("conn", "", "%v", err)
		return
	}
	d := ci.runDial(rep)
	if d.cfgT == nil || d.dialF < 0 || d.tlsF < 0 {
		rep.bad("tls:config", "", "Option is not a function of a configuration with one dialer and one TLS configuration")
		return
	}
	keeps := d.options(rep)
	rep.need("options", 2)
	for _, o := range d.outs {
		if o.st.facts.dead {
			continue
		}
		if o.panic || o.stop {
			rep.bad("tls:panic", p.pos(o.pos), "Connect can panic or block")
			continue
		}
		d.path(rep, o, keeps)
	}
	rep.need("plain_dials", 1)
	rep.need("tls_dials", 1)
	li, err := p.lookupInfo()
	if err != nil {
		rep.bad("lookup", "", "%v", err)
		return
	}
	for _, fn := range p.allFuncs() {
		for _, c := range dialSites(p, li, fn) {
			if !isNetDial(c.Common()) {
				continue
			}
			rep.ok("dial_sites")
			if !d.x.visited[fn] {
				rep.bad("tls:site:"+fn.String(), p.pos(c.Pos()), "%s makes a network connection outside the paths examined", fn)
			}
		}
	}
	rep.need("dial_sites", 2)
	nbPassesOptions(p, rep)
}

func nbPassesOptions(p *Prog, rep *Report) {
	b, err := p.brokerInfo()
	if err != nil {
		rep.bad("broker", "", "%v", err)
		return
	}
	r := b.runNewBroker()
	rep.visit(r.x)
	for _, o := range r.outs {
		if o.st.facts.dead {
			continue
		}
		for _, e := range callsOf(o.st.events(), b.connect) {
			rep.ok("connects")
			if o.st.facts.resolve(e.args[1]) != r.opts {
				rep.bad("tls:newbroker", p.pos(e.pos), "NewBroker connects with %s instead of its options", e.args[1])
			}
		}
	}
	rep.need("connects", 1)
}

// path checks the connections made on one path of Connect.
func (d *dialRun) path(rep *Report, o CallOut, keeps bool) {
	p, f := d.p, o.st.facts
	// the loop that applies the options
	var apply *Ev
	var cfg *Term
	for _, e := range o.st.events() {
		if e.kind == "loop" {
			if a, why := d.applies(e); a != nil {
				if apply != nil {
					rep.bad("tls:options:twice", p.pos(e.pos), "the options are applied twice")
				}
				apply, cfg = e, a
			} else if why != "" {
				rep.bad("tls:options:loop", p.pos(e.pos), "%s", why)
			}
			continue
		}
		if !isDialEv(e) {
			if e.kind == "call" && e.dyn != nil && containsTerm(e.dyn, d.opts) {
				rep.bad("tls:options:extra", p.pos(e.pos), "an option is applied outside the loop over all options")
			}
			continue
		}
		pos := p.pos(e.pos)
		if apply == nil {
			rep.bad("tls:options:none", pos, "connects before the options were applied")
			continue
		}
		if !apply.complete || !f.eq(apply.loop.trip, mkLen(d.opts)) {
			rep.bad("tls:options:some", pos, "connects before all options were applied")
		}
		// values of the configuration fields when the loop is left
		s := structOf(d.cfgT)
		val := func(i int) (v, entry *Term) {
			at := mkFieldAddr(cfg, i, types.NewPointer(s.Field(i).Type()))
			for _, lv := range apply.loop.vars {
				if lv.loc == at {
					return lv.sym, lv.entry
				}
			}
			st := apply.st
			t := st.load(at, s.Field(i).Type())
			return t, t
		}
		dialer, dentry := val(d.dialF)
		tls, tentry := val(d.tlsF)
		st0 := apply.st
		if tentry == nil || !f.resolve(tentry).isNil() {
			rep.bad("tls:initial", pos, "a TLS configuration is in use before any option was applied")
		}
		if dentry == nil || !d.plainDialer(&st0, dentry) && !dentry.isNil() {
			rep.bad("tls:dialer:initial", pos, "the initial dialer is %s", dentry)
		}
		network, addr, who, conf := d.parts(e)
		if network == nil || who == nil {
			rep.bad("tls:form:"+e.name, pos, "cannot tell how %s connects", e.name)
			continue
		}
		if !f.eqRef(network, mkStr("tcp")) && network != mkStr("tcp") {
			rep.bad("tls:network", pos, "connects over %s", network)
		}
		if f.resolve(addr) != d.addr {
			rep.bad("tls:address", pos, "connects to %s instead of the address given", addr)
		}
		who = f.resolve(who)
		d.untouched(rep, o, tls, dialer)
		hasTLS := f.decide(mkEq(tls, termNil))
		usable := f.decide(mkEq(dialer, termNil)) == -1 || keeps && !dentry.isNil() && (dentry.op == OAlloc || dentry.knownNonNil())
		switch {
		case who == f.resolve(dialer):
			if !usable {
				rep.bad("tls:dialer:nil", pos, "may connect with a nil dialer")
			}
		case d.plainDialer(&o.st, who) && f.decide(mkEq(dialer, termNil)) == 1:
		default:
			rep.bad("tls:dialer", pos, "connects with dialer %s instead of the configured one", who)
		}
		if conf == nil {
			rep.ok("plain_dials")
			if hasTLS != 1 {
				rep.bad("tls:plain", pos, "connects in plain text although a TLS configuration may have been given")
			}
			continue
		}
		rep.ok("tls_dials")
		if !sameTLS(f, conf, tls) {
			rep.bad("tls:conf", pos, "connects with TLS configuration %s instead of the one given", conf)
		}
		if hasTLS != -1 {
			rep.bad("tls:always", pos, "connects through TLS although no configuration may have been given")
		}
	}
	// the connection uses what was dialed
	if o.ret == nil || o.ret.op != OTuple || f.decide(mkEq(o.ret.args[1], termNil)) == -1 {
		return
	}
	rep.ok("connections")
	c := f.resolve(o.ret.args[0])
	cs := structOf(pointee(c.typ))
	if cs == nil {
		return
	}
	st := o.st
	for j := 0; j < cs.NumFields(); j++ {
		ft := cs.Field(j).Type()
		if ft.String() != "net.Conn" {
			continue
		}
		raw := unwrap(st.load(mkFieldAddr(c, j, types.NewPointer(ft)), ft))
		ok := false
		for _, e := range o.st.events() {
			ok = ok || isDialEv(e) && dialResult(e) == raw && errOf(e) != nil && f.decide(mkEq(errOf(e), termNil)) == 1
		}
		if !ok {
			rep.bad("tls:socket", p.pos(o.pos), "the connection returned uses %s, which is not a connection that was made", raw)
		}
	}
}

// applies: loop e applies every option in order to one configuration, which is returned.
func (d *dialRun) applies(e *Ev) (*Term, string) {
	var cfg *Term
	L := e.loop
	for _, b := range L.backs {
		if b.st.facts.dead {
			continue
		}
		n := 0
		for _, v := range b.st.events() {
			if v.kind != "call" || v.dyn == nil || !containsTerm(v.dyn, d.opts) {
				if v.kind == "loop" && hasEv([]*Ev{v}, func(w *Ev) bool { return w.dyn != nil && containsTerm(w.dyn, d.opts) }) {
					return nil, "options are applied in a nested loop"
				}
				continue
			}
			n++
			if n > 1 {
				return nil, "an option may be applied more than once"
			}
			if !isIndexOf(b.st.facts, v.dyn, d.opts, L.K) {
				return nil, fmt.Sprintf("%s is applied out of order", v.dyn)
			}
			if len(v.args) != 1 || v.args[0].op != OAlloc || cfg != nil && cfg != v.args[0] {
				return nil, "the options are applied to different configurations"
			}
			cfg = v.args[0]
			// each option sees what the one before left
			s := structOf(d.cfgT)
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				at := mkFieldAddr(cfg, i, types.NewPointer(ft))
				before, after := v.st, b.st
				hdr := L.header
				if before.facts.resolve(before.load(at, ft)) != before.facts.resolve(hdr.load(at, ft)) {
					return nil, "the configuration is changed between options"
				}
				if t := after.load(at, ft); t.op != OField || t.args[0].op != OSym || !strings.HasPrefix(t.args[0].s, "mod") {
					return nil, "the configuration is changed after an option was applied"
				}
			}
		}
		if n == 0 {
			// nothing to apply when the option is nil
			o := mkIndex(d.opts, L.K, d.option)
			if hasEv([]*Ev{e}, func(w *Ev) bool { return w.dyn != nil && containsTerm(w.dyn, d.opts) }) && b.st.facts.decide(mkEq(o, termNil)) != 1 {
				return nil, "an option may be skipped"
			}
		}
	}
	return cfg, ""
}

// parts of a call that connects: network, address, dialer and TLS configuration.
func (d *dialRun) parts(e *Ev) (network, addr, dialer, conf *Term) {
	st := e.st
	sub := func(p *Term, name string) *Term {
		s := structOf(pointee(p.typ))
		if s == nil {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return st.load(mkFieldAddr(p, i, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
			}
		}
		return nil
	}
	switch e.name {
	case "(*net.Dialer).Dial":
		return e.args[1], e.args[2], e.args[0], nil
	case "(*net.Dialer).DialContext":
		return e.args[2], e.args[3], e.args[0], nil
	case "crypto/tls.DialWithDialer":
		return e.args[1], e.args[2], e.args[0], e.args[3]
	case "(*crypto/tls.Dialer).Dial":
		return e.args[1], e.args[2], sub(e.args[0], "NetDialer"), sub(e.args[0], "Config")
	case "(*crypto/tls.Dialer).DialContext":
		return e.args[2], e.args[3], sub(e.args[0], "NetDialer"), sub(e.args[0], "Config")
	}
	return nil, nil, nil, nil
}

func init() {
	checks["C23"] = func(p *Prog, rep *Report, verif string) { checkTLS(p, rep) }
}
