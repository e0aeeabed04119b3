package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Every api method of Broker: what its encode and decode functions do.

type apiMethod struct {
	fn        *ssa.Function
	name      string
	key       int
	req, resp *codecType
}

func (b *brokerInfo) apiMethods() []apiMethod {
	cts := b.p.codecTypes()
	byType := func(t types.Type) *codecType {
		n, ok := t.(*types.Named)
		if !ok {
			return nil
		}
		c := cts[n.Obj().Name()]
		if c == nil || !types.Identical(c.typ, t) {
			return nil
		}
		return c
	}
	var r []apiMethod
	for _, fn := range b.p.methodsOf(kafkaPkg, "Broker") {
		if !fn.Object().Exported() || len(fn.Params) != 2 || fn.Signature.Results().Len() != 2 {
			continue
		}
		rq, rs := byType(fn.Params[1].Type()), byType(fn.Signature.Results().At(0).Type())
		if rq == nil || rs == nil {
			continue
		}
		m := apiMethod{fn: fn, name: fn.Name(), key: -1, req: rq, resp: rs}
		for k, n := range apiNames {
			if n == m.name {
				m.key = k
			}
		}
		r = append(r, m)
	}
	return r
}

// emission of an encode function, flattened
type emission struct {
	kind string // Int16, ..., or Encode
	val  *Term
	typ  *codecType
	ver  *Term
	pos  token.Pos
}

type doCall struct {
	ev     *Ev
	enc    []encPath
	dec    []CallOut
	nilDec bool
	cid    *Term
	encT   *Term
	decErr *Term
	failed *Term // error of the connection
}

type encPath struct {
	els []emission
	err error
	st  State
	pos token.Pos
}

type apiRun struct {
	m    apiMethod
	x    *X
	br   *Term
	req  *Term
	outs []CallOut
	dos  map[*Ev]*doCall
	st0  State
}

func (b *brokerInfo) runApi(m apiMethod) *apiRun {
	p := b.p
	x := newX(p)
	dc := &decodeCtx{p: p, types: p.codecTypes(), memo: map[string]*decResult{}}
	r := &apiRun{m: m, x: x, dos: map[*Ev]*doCall{}}
	codecOf := func(fn *ssa.Function) (*codecType, string) {
		if fn.Signature.Recv() == nil {
			return nil, ""
		}
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok {
			return nil, ""
		}
		c := dc.types[n.Obj().Name()]
		if c == nil {
			return nil, ""
		}
		switch fn {
		case c.size:
			return c, "Size"
		case c.encode:
			return c, "Encode"
		case c.decode:
			return c, "Decode"
		}
		return nil, ""
	}
	x.atomic = func(fn *ssa.Function) bool {
		if fn == b.do || encPrim(fn) != "" || decPrim(fn) != "" {
			return true
		}
		_, k := codecOf(fn)
		return k != ""
	}
	x.onAtomic = func(x *X, st State, fr *Frame, fn *ssa.Function, args []*Term, ev *Ev) []CallOut {
		if fn == b.do {
			return b.runDo(r, codecOf, x, st, fr, args, ev)
		}
		c, k := codecOf(fn)
		switch k {
		case "Size":
			if _, ok := args[1].intVal(); ok {
				return x.Run(fn, args, nil, st, fr, ev.pos)
			}
			ev.res = mk(OPure, types.Typ[types.Int32], "Size:"+c.name, 0, args[0], args[1])
			return []CallOut{{st: st, ret: ev.res}}
		case "Decode":
			v := freshSym("decoded."+c.name, c.typ)
			v.info = ev
			e := freshSym(c.name+".err", types.Universe.Lookup("error").Type())
			e.info = ev
			ev.res = mk(OTuple, nil, "", 0, v, e)
			st.store(args[0], v, c.typ)
			return []CallOut{{st: st, ret: e}}
		}
		return nil
	}
	r.br = namedSym("b", m.fn.Params[0].Type())
	r.br.nonnil = true
	r.req = namedSym("req", m.req.typ)
	r.st0 = State{facts: rootFacts}
	r.outs = x.Run(m.fn, []*Term{r.br, r.req}, nil, r.st0, nil, 0)
	return r
}

// runDo plays the part of Conn.Do: it lets the encode function write, and then
// either hands over the result of the decode function or fails.
func (b *brokerInfo) runDo(r *apiRun, codecOf func(*ssa.Function) (*codecType, string), x *X, st State, fr *Frame, args []*Term, ev *Ev) []CallOut {
	errT := types.Universe.Lookup("error").Type()
	d := &doCall{ev: ev}
	r.dos[ev] = d
	d.encT = freshSym("e", b.do.Params[1].Type().Underlying().(*types.Signature).Params().At(0).Type())
	d.encT.nonnil = true
	d.cid = freshSym("correlationID", types.Typ[types.Int32])
	st1 := st
	st1.trace = nil
	for _, o := range x.callTerm(fr, st1, st.facts.resolve(args[1]), []*Term{d.encT, d.cid}, ev.pos) {
		ep := encPath{st: o.st, pos: ev.pos}
		if o.panic || o.stop {
			ep.err = cerr(b.p.pos(ev.pos), "encoding can panic or block")
		} else {
			ep.els, ep.err = b.emissions(codecOf, o.st.events(), d.encT)
		}
		d.enc = append(d.enc, ep)
	}
	var outs []CallOut
	// the connection fails
	d.failed = freshSym("Do.err", errT)
	d.failed.info = ev
	bad := st
	bad.facts = bad.facts.assumeRaw(mkNot(mkEq(d.failed, termNil)))
	outs = append(outs, CallOut{st: bad, ret: d.failed})
	dec := st.facts.resolve(args[2])
	if st.facts.decide(mkEq(dec, termNil)) == 1 {
		d.nilDec = true
		outs = append(outs, CallOut{st: st, ret: termNil})
		return outs
	}
	dt := freshSym("d", b.do.Params[2].Type().Underlying().(*types.Signature).Params().At(0).Type())
	dt.nonnil = true
	for _, o := range x.callTerm(fr, st, dec, []*Term{dt}, ev.pos) {
		if o.panic || o.stop {
			outs = append(outs, o)
			continue
		}
		outs = append(outs, o)
	}
	return outs
}

func (b *brokerInfo) emissions(codecOf func(*ssa.Function) (*codecType, string), evs []*Ev, enc *Term) ([]emission, error) {
	var r []emission
	for _, e := range evs {
		switch e.kind {
		case "call":
			if k := encPrim(e.fn); k != "" {
				if e.args[0] != enc {
					return nil, cerr(b.p.pos(e.pos), "writes to another encoder")
				}
				em := emission{kind: k, pos: e.pos}
				if len(e.args) > 1 {
					em.val = e.args[1]
				}
				r = append(r, em)
				continue
			}
			c, k := codecOf(e.fn)
			if k == "Encode" {
				if e.args[1] != enc {
					return nil, cerr(b.p.pos(e.pos), "writes to another encoder")
				}
				if v, ok := e.args[2].intVal(); ok {
					// a fixed version: flatten
					items, err := b.p.encodeLayout(c, v, newReport(""))
					if err != nil {
						return nil, err
					}
					flat := true
					var sub []emission
					for _, it := range items {
						if it.Kind == "Array" || strings.HasPrefix(it.Path, "=") {
							flat = false
							break
						}
						t, err := termOfPath(it.Path, e.args[0], c.typ)
						if err != nil {
							flat = false
							break
						}
						sub = append(sub, emission{kind: it.Kind, val: t, pos: e.pos})
					}
					if flat && len(items) > 0 {
						r = append(r, sub...)
						continue
					}
				}
				r = append(r, emission{kind: "Encode", typ: c, val: e.args[0], ver: e.args[2], pos: e.pos})
			}
		case "loop":
			if hasEnc(codecOf, e) {
				return nil, cerr(b.p.pos(e.pos), "writes in a loop")
			}
		case "write":
			return nil, cerr(b.p.pos(e.pos), "writes past the encoder")
		}
	}
	return r, nil
}

func hasEnc(codecOf func(*ssa.Function) (*codecType, string), e *Ev) bool {
	for _, b := range e.loop.backs {
		for _, x := range b.st.events() {
			if x.kind == "call" && x.fn != nil {
				if encPrim(x.fn) != "" {
					return true
				}
				if _, k := codecOf(x.fn); k == "Encode" {
					return true
				}
			}
			if x.kind == "loop" && hasEnc(codecOf, x) {
				return true
			}
		}
	}
	return false
}

func (e emission) String() string {
	if e.kind == "Encode" {
		return fmt.Sprintf("%s at version %s", e.typ.name, e.ver)
	}
	return fmt.Sprintf("%s %v", e.kind, e.val)
}

func (e emission) size(st *State) *Term {
	switch e.kind {
	case "Bool", "Int8":
		return mkInt(1)
	case "Int16":
		return mkInt(2)
	case "Int32":
		return mkInt(4)
	case "Int64":
		return mkInt(8)
	case "String":
		return mkAddC(mkLen(e.val), 2)
	case "Encode":
		return mk(OPure, types.Typ[types.Int32], "Size:"+e.typ.name, 0, e.val, e.ver)
	}
	return nil
}

// frames is the part of C01 about requests: the length prefix of each frame.
func (b *brokerInfo) frames(rep *Report) {
	p := b.p
	rep.rule("every api method writes a 32-bit length first, and it equals the sum of the sizes of everything written after it")
	for _, m := range b.apiMethods() {
		r := b.runApi(m)
		rep.visit(r.x)
		rep.undecided(r.x, m.name)
		for _, d := range r.dos {
			for _, ep := range d.enc {
				rep.ok("request_frames")
				key := "frame:" + m.name
				if ep.err != nil {
					rep.bad(key, errPos(ep.err), "%s: %v", m.name, ep.err)
					continue
				}
				if len(ep.els) == 0 || ep.els[0].kind != "Int32" {
					rep.bad(key, p.pos(ep.pos), "%s: the request does not start with a length", m.name)
					continue
				}
				total := mkInt(0)
				for _, e := range ep.els[1:] {
					s := e.size(&ep.st)
					if s == nil {
						rep.bad(key, p.pos(e.pos), "%s: size of %s is not known", m.name, e)
						s = mkInt(0)
					}
					total = mkAdd(total, s)
				}
				got := canonSize(ep.els[0].val)
				if got != canonSize(total) && !ep.st.facts.eq(got, canonSize(total)) {
					rep.bad(key, p.pos(ep.els[0].pos), "%s: the length prefix is %s but %s bytes follow", m.name, got, canonSize(total))
				}
			}
		}
	}
	rep.need("request_frames", 48)
}

// calls is C18 (and, with acks, the part of C11 about produce).
func (b *brokerInfo) calls(rep *Report, verif string) {
	p := b.p
	spec, err := loadSpec(verif)
	if err != nil {
		rep.bad("spec", "", "%v", err)
		return
	}
	rep.rule("every api method hands Conn.Do an encode function that writes length, api key, negotiated version, correlation id, client id and the request at that version, and a decode function that decodes its response type at that version; it returns that response and exactly the error of Do")
	slots := b.negotiation(newReport(""), spec, "x")
	seen := map[int]bool{}
	taken := map[int]int{}
	for k, s := range slots {
		taken[s] = k
	}
	vs := structOf(b.verT)
	for _, m := range b.apiMethods() {
		key := "api:" + m.name
		if m.key < 0 {
			rep.bad(key+":name", p.pos(m.fn.Pos()), "%s is not a Kafka api", m.name)
			continue
		}
		seen[m.key] = true
		rep.ok("api_methods")
		if m.req.name != m.name+"Request" || m.resp.name != m.name+"Response" {
			rep.bad(key+":types", p.pos(m.fn.Pos()), "%s takes %s and returns %s", m.name, m.req.name, m.resp.name)
		}
		r := b.runApi(m)
		rep.visit(r.x)
		rep.undecided(r.x, m.name)
		st0 := r.st0
		verS := b.field(&st0, r.br, b.verF)
		cfg := b.field(&st0, r.br, b.cfgF)
		cid := mkField(cfg, b.idF, types.Typ[types.String])
		goodVer := func(t *Term) bool {
			if s, ok := slots[m.key]; ok {
				return t == mkField(verS, s, vs.Field(s).Type())
			}
			if z, ok := t.intVal(); ok {
				return z == 0
			}
			for i := 0; i < vs.NumFields(); i++ {
				if _, used := taken[i]; !used && t == mkField(verS, i, vs.Field(i).Type()) {
					return true
				}
			}
			return false
		}
		for _, d := range r.dos {
			if d.ev.args[0] != b.field(&st0, r.br, b.connF) {
				rep.bad(key+":conn", p.pos(d.ev.pos), "%s uses a connection other than the broker's", m.name)
			}
			for _, ep := range d.enc {
				rep.ok("encode_paths")
				if ep.err != nil {
					rep.bad(key+":encode", errPos(ep.err), "%s: %v", m.name, ep.err)
					continue
				}
				var ks []string
				for _, e := range ep.els {
					ks = append(ks, e.kind)
				}
				body := "Encode"
				els := ep.els
				if strings.Join(ks, " ") != "Int32 Int16 Int16 Int32 String "+body {
					rep.bad(key+":header", p.pos(ep.pos), "%s writes %v instead of length, request header and request", m.name, els)
					continue
				}
				f := ep.st.facts
				if n, ok := f.constOf(els[1].val); !ok || n != int64(m.key) {
					rep.bad(key+":key", p.pos(els[1].pos), "%s sends api key %s instead of %d", m.name, els[1].val, m.key)
				}
				if !goodVer(els[2].val) {
					rep.bad(key+":version", p.pos(els[2].pos), "%s announces version %s instead of the one negotiated for it", m.name, els[2].val)
				}
				if els[3].val != d.cid {
					rep.bad(key+":id", p.pos(els[3].pos), "%s sends correlation id %s instead of the one it was given", m.name, els[3].val)
				}
				if els[4].val != cid {
					rep.bad(key+":client", p.pos(els[4].pos), "%s sends client id %s instead of the configured one", m.name, els[4].val)
				}
				empty := structOf(m.req.typ) != nil && structOf(m.req.typ).NumFields() == 0
				if els[5].typ.typ != m.req.typ || els[5].val != r.req && !empty {
					rep.bad(key+":request", p.pos(els[5].pos), "%s encodes %s (%s) instead of its request", m.name, els[5].val, els[5].typ.name)
				}
				if !goodVer(els[5].ver) {
					rep.bad(key+":version", p.pos(els[5].pos), "%s encodes its request at version %s instead of the negotiated one", m.name, els[5].ver)
				}
			}
		}
		some := false
		for _, o := range r.outs {
			pos := p.pos(o.pos)
			if o.panic || o.stop {
				rep.bad(key+":panic", pos, "%s can panic or block", m.name)
				continue
			}
			f := o.st.facts
			if f.dead {
				continue
			}
			rep.ok("api_paths")
			dos := callsOf(o.st.events(), b.do)
			if len(dos) != 1 || r.dos[dos[0]] == nil {
				rep.bad(key+":do", pos, "%s does not make exactly one request", m.name)
				continue
			}
			d := r.dos[dos[0]]
			er := f.resolve(o.ret.args[1])
			if d.failed != nil && f.decide(mkEq(d.failed, termNil)) == -1 {
				if f.decide(mkEq(er, termNil)) != -1 {
					rep.bad(key+":error", pos, "%s may report success although the request failed", m.name)
				}
				continue
			}
			if d.nilDec {
				if f.decide(mkEq(er, termNil)) != 1 {
					rep.bad(key+":error", pos, "%s reports an error although the request succeeded", m.name)
				}
				if m.name != "Produce" || !b.acks0(f, r.req, true) {
					rep.bad(key+":nodecode", pos, "%s does not wait for its response", m.name)
				}
				continue
			}
			var decs []*Ev
			for _, e := range o.st.events() {
				if e.kind == "call" && e.fn != nil && e.fn.Name() == "Decode" && e.res != nil && e.res.op == OTuple && len(e.res.args) == 2 && e.res.args[0].typ != nil {
					decs = append(decs, e)
				}
			}
			if len(decs) != 1 {
				rep.bad(key+":decode", pos, "%s decodes %d values from its response", m.name, len(decs))
				continue
			}
			e := decs[0]
			if e.fn != m.resp.decode {
				rep.bad(key+":response", p.pos(e.pos), "%s decodes %s instead of %s", m.name, e.res.args[0].typ, m.resp.name)
			}
			if !goodVer(e.args[2]) {
				rep.bad(key+":version", p.pos(e.pos), "%s decodes its response at version %s instead of the negotiated one", m.name, e.args[2])
			}
			derr := e.res.args[1]
			if er != derr && f.decide(mkEq(er, termNil)) != f.decide(mkEq(derr, termNil)) || er != derr && f.decide(mkEq(er, termNil)) == 0 {
				rep.bad(key+":error", pos, "the error of %s (%s) is not that of decoding its response", m.name, er)
			}
			if f.decide(mkEq(derr, termNil)) != -1 {
				if o.ret.args[0] != e.res.args[0] {
					rep.bad(key+":return", pos, "%s returns %s instead of the response it decoded", m.name, o.ret.args[0])
				} else {
					some = true
				}
			}
		}
		if !some {
			rep.bad(key+":return", p.pos(m.fn.Pos()), "%s never returns a decoded response", m.name)
		}
	}
	for k, n := range apiNames {
		if !seen[k] {
			rep.bad("api:"+n+":missing", "", "there is no api method %s", n)
		}
	}
	rep.need("api_methods", 48)
}

// acks0: f entails that the request's acks is 0 (want) or not 0.
func (b *brokerInfo) acks0(f *Facts, req *Term, want bool) bool {
	s := structOf(req.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Acks" {
			t := mkField(req, i, s.Field(i).Type())
			if want {
				return f.eq(t, mkInt(0))
			}
			return f.entailsNE(linOf(t))
		}
	}
	return false
}

// produceAcks is the part of C11 about requests without response.
func (b *brokerInfo) produceAcks(rep *Report) {
	rep.rule("Produce passes no decode function exactly when acks is 0")
	for _, m := range b.apiMethods() {
		if m.name != "Produce" {
			continue
		}
		r := b.runApi(m)
		rep.undecided(r.x, m.name)
		for _, d := range r.dos {
			rep.ok("produce_paths")
			f := d.ev.st.facts
			if !d.nilDec && !b.acks0(f, r.req, false) {
				rep.bad("acks:wait", b.p.pos(d.ev.pos), "Produce waits for a response although acks may be 0")
			}
		}
		rep.need("produce_paths", 2)
	}
}

func init() {
	checks["C01"] = func(p *Prog, rep *Report, verif string) {
		codecC01(p, rep, verif)
		b, err := p.brokerInfo()
		if err != nil {
			rep.bad("frame:info", "", "%v", err)
			return
		}
		b.frames(rep)
		checkRecordBatchSizes(p, rep)
	}
	checks["C18"] = func(p *Prog, rep *Report, verif string) {
		b, err := p.brokerInfo()
		if err != nil {
			rep.bad("api:info", "", "%v", err)
			return
		}
		b.calls(rep, verif)
	}
}
