package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The connection: Connect is evaluated, then every goroutine it starts, Do,
// Close and the remaining methods of Conn are evaluated on the connection it
// built.  Fields of the connection that are written after its construction are
// unknown at every load; all other fields keep the value Connect gave them.
// Ring operations, Encoder.Flush and the functions passed to Do are events.

const ringPkg = modPath + "/ring"

type connInfo struct {
	p                         *Prog
	typ                       types.Type
	connect, do, close        *ssa.Function
	readN, writeN, ringClose  *ssa.Function
	ringNew, newEnc, encFlush *ssa.Function
	dec                       *decInfo
}

type entry struct {
	name   string
	fn     *ssa.Function
	outs   []CallOut
	x      *X
	multi  bool // many instances may run at the same time
	goEv   *Ev
	encode *Term
	decode *Term
	made   []makeObl
	probs  []Finding // memory safety obligations that failed
	checks int
}

type makeObl struct {
	st  State
	n   *Term
	pos token.Pos
}

type world struct {
	ci      *connInfo
	c       *Term
	st      State // when Connect returns
	raw     *Term
	ring    *Term
	encoder *Term
	gos     []*Ev
	entries []*entry
	mut     map[*Term]bool
	mark    int64
	path    int
	connX   *X
}

func (p *Prog) connInfo() (*connInfo, error) {
	ci := &connInfo{p: p, typ: namedType(p, kafkaPkg, "Conn")}
	if ci.typ == nil {
		return nil, fmt.Errorf("type Conn not found")
	}
	for _, q := range []struct {
		to             **ssa.Function
		pkg, typ, name string
	}{
		{&ci.connect, kafkaPkg, "", "Connect"}, {&ci.do, kafkaPkg, "Conn", "Do"}, {&ci.close, kafkaPkg, "Conn", "Close"},
		{&ci.ringNew, ringPkg, "", "New"}, {&ci.readN, ringPkg, "Buffer", "ReadN"}, {&ci.writeN, ringPkg, "Buffer", "WriteN"}, {&ci.ringClose, ringPkg, "Buffer", "Close"},
		{&ci.newEnc, msgPkg, "", "NewEncoder"}, {&ci.encFlush, msgPkg, "Encoder", "Flush"},
	} {
		if q.typ == "" {
			*q.to = p.fun(q.pkg, q.name)
		} else {
			*q.to = p.method(q.pkg, q.typ, q.name)
		}
		if *q.to == nil {
			return nil, fmt.Errorf("function %s %s not found", q.typ, q.name)
		}
	}
	var err error
	ci.dec, err = p.decoderInfo()
	return ci, err
}

func (ci *connInfo) newX() *X {
	x := newX(ci.p)
	x.atomic = func(fn *ssa.Function) bool {
		switch fn {
		case ci.ringNew, ci.readN, ci.writeN, ci.ringClose, ci.newEnc, ci.encFlush:
			return true
		}
		// other operations of the ring are opaque, too
		return fn.Signature.Recv() != nil && fn.Package() != nil && fn.Package().Pkg.Path() == ringPkg
	}
	// a decode function moves the decoder but leaves its buffer (see decoderKeepsBuffer)
	x.onHavoc = func(st *State, a *Term) bool {
		if a.typ == nil || pointee(a.typ) == nil || !types.Identical(pointee(a.typ), ci.dec.typ) {
			return false
		}
		for _, f := range []int{ci.dec.offF, ci.dec.lenF} {
			ci.dec.set(st, a, f, freshSym("moved", types.Typ[types.Int]))
		}
		return true
	}
	x.onAtomic = func(x *X, st State, fr *Frame, fn *ssa.Function, args []*Term, ev *Ev) []CallOut {
		switch fn {
		case ci.ringNew, ci.newEnc:
			t := freshSym(fn.Name(), fn.Signature.Results().At(0).Type())
			t.nonnil = true
			t.info = ev
			ev.res = t
			return []CallOut{{st: st, ret: t}}
		case ci.readN:
			base := args[1]
			if base.op == OSlice {
				base = base.args[0]
			}
			d := freshSym("frame", args[1].typ)
			d.info = ev
			st.setRegion(base, d)
			ev.res = x.results(ev, fn.Signature.Results(), "ReadN")
			return []CallOut{{st: st, ret: ev.res}}
		}
		return nil
	}
	return x
}

// worlds evaluates everything; one world per successful path of Connect.
func (ci *connInfo) worlds(rep *Report) []*world {
	p := ci.p
	x := ci.newX()
	var args []*Term
	for _, q := range ci.connect.Params {
		args = append(args, namedSym(q.Name(), q.Type()))
	}
	outs := x.Run(ci.connect, args, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	rep.undecided(x, "Connect")
	var ws []*world
	for _, o := range outs {
		if o.panic || o.stop || o.st.facts.dead {
			if !o.st.facts.dead {
				rep.bad("connect:panic", p.pos(o.pos), "Connect can panic or block")
			}
			continue
		}
		f := o.st.facts
		if o.ret.op != OTuple || len(o.ret.args) != 2 {
			rep.bad("connect:result", p.pos(o.pos), "Connect does not return a connection and an error")
			continue
		}
		if f.decide(mkEq(o.ret.args[1], termNil)) == -1 {
			continue
		}
		c := f.resolve(o.ret.args[0])
		if c.op != OAlloc {
			rep.bad("connect:new", p.pos(o.pos), "Connect returns %s instead of a new connection", c)
			continue
		}
		w := &world{ci: ci, c: c, st: o.st, mut: map[*Term]bool{}, mark: x.allocs, path: len(ws), connX: x}
		for _, e := range o.st.events() {
			switch {
			case e.kind == "go":
				w.gos = append(w.gos, e)
			case e.kind == "call" && e.fn == ci.ringNew:
				if w.ring != nil {
					rep.bad("connect:rings", p.pos(e.pos), "a connection has more than one ring buffer")
				}
				w.ring = e.res
			case e.kind == "call" && e.fn == ci.newEnc:
				w.encoder = e.res
			}
		}
		// the socket: the network connection that was obtained
		s := structOf(ci.typ)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Type().String() == "net.Conn" {
				w.raw = w.field(i)
			}
		}
		if w.ring == nil || w.encoder == nil || w.raw == nil || len(w.gos) == 0 {
			rep.bad("connect:parts", p.pos(o.pos), "cannot identify socket, ring, encoder and goroutines of the connection Connect returns")
			continue
		}
		ws = append(ws, w)
	}
	for _, w := range ws {
		for pass := 0; pass < 5; pass++ {
			n := len(w.mut)
			w.runAll(rep)
			if len(w.mut) == n {
				break
			}
		}
		for _, e := range w.entries {
			rep.visit(e.x)
			rep.undecided(e.x, e.name)
		}
	}
	if len(ws) == 0 {
		rep.bad("connect:none", p.pos(ci.connect.Pos()), "no successful path through Connect")
	}
	return ws
}

func (w *world) field(i int) *Term {
	ft := structOf(w.ci.typ).Field(i).Type()
	return w.st.load(mkFieldAddr(w.c, i, types.NewPointer(ft)), ft)
}

func (w *world) runAll(rep *Report) {
	ci := w.ci
	w.entries = nil
	add := func(e *entry, args, binds []*Term) {
		x := ci.newX()
		e.x = x
		x.allocs = w.mark
		x.watch = func(a *Term) bool {
			r := rootOf(a)
			return r == w.c || (r.op == OAlloc || r.op == OMakeSlice) && r.n <= w.mark || r.op == OGlobal
		}
		x.mutable = func(a *Term) bool { return w.mut[a] || rootOf(a).op == OGlobal && w.mut[rootOf(a)] }
		x.onStore = func(st *State, fr *Frame, pos token.Pos, addr, val *Term) {
			if x.watch(addr) {
				w.mut[addr] = true
			}
		}
		oblige := func(st *State, pos token.Pos, ok bool, format string, as ...any) {
			e.checks++
			if !ok {
				e.probs = append(e.probs, Finding{Key: "safe:" + e.name, Pos: ci.p.pos(pos), Msg: e.name + ": " + fmt.Sprintf(format, as...)})
			}
		}
		x.onIndex = func(st *State, fr *Frame, pos token.Pos, base, idx, length *Term) {
			f := st.facts
			oblige(st, pos, f.entailsGE(linOf(idx)) && f.lt(idx, length), "index %s may be out of range of %s", idx, base)
		}
		x.onSlice = func(st *State, fr *Frame, pos token.Pos, base, lo, hi, max *Term) {
			f := st.facts
			if lo == nil {
				lo = mkInt(0)
			}
			if hi == nil {
				hi = mkLen(base)
			}
			oblige(st, pos, f.entailsGE(linOf(lo)) && f.le(lo, hi) && f.le(hi, mkLen(base)), "slice %s[%s:%s] may be out of range", base, lo, hi)
		}
		x.onMake = func(st *State, fr *Frame, pos token.Pos, n *Term, typ types.Type) {
			e.made = append(e.made, makeObl{*st, n, pos})
		}
		st := w.st
		st.trace = nil
		e.outs = x.Run(e.fn, args, binds, st, nil, 0)
		w.entries = append(w.entries, e)
	}
	seen := map[*ssa.Function]bool{}
	for i, g := range w.gos {
		if g.fn == nil {
			rep.bad("go:dynamic", ci.p.pos(g.pos), "cannot tell what the goroutine started here runs")
			continue
		}
		add(&entry{name: fmt.Sprintf("goroutine %d (%s)", i+1, shortFn(g.fn)), fn: g.fn, goEv: g}, g.args, g.binds)
	}
	e := &entry{name: "Do", fn: ci.do, multi: true}
	e.encode = namedSym("encode", ci.do.Params[1].Type())
	e.encode.nonnil = true
	e.decode = namedSym("decode", ci.do.Params[2].Type())
	add(e, []*Term{w.c, e.encode, e.decode}, nil)
	add(&entry{name: "Close", fn: ci.close, multi: true}, []*Term{w.c}, nil)
	for _, e := range w.entries {
		for f := range e.x.visited {
			seen[f] = true
		}
	}
	for f := range w.connX.visited {
		seen[f] = true
	}
	// whatever else can be called on a connection
	for _, fn := range ci.p.methodsOf(kafkaPkg, "Conn") {
		if seen[fn] {
			continue
		}
		args := []*Term{w.c}
		for _, q := range fn.Params[1:] {
			args = append(args, namedSym(fn.Name()+"."+q.Name(), q.Type()))
		}
		add(&entry{name: fn.Name(), fn: fn, multi: true}, args, nil)
	}
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// isRaw: e calls the given method of the socket.
func (w *world) isRaw(e *Ev, method string) bool {
	if e.kind != "call" && e.kind != "write" || len(e.args) == 0 {
		return false
	}
	a := e.args[0]
	raw := w.raw
	if a != raw && !(raw.op == OIface && a == raw.args[0]) {
		return false
	}
	return strings.HasSuffix(e.name, ")."+method) || e.kind == "write" && method == "Write"
}

func (w *world) isRing(e *Ev, fn *ssa.Function) bool {
	return e.kind == "call" && e.fn == fn && len(e.args) > 0 && e.args[0] == w.ring
}

// lockset during a walk
type lockset map[*Term]bool // true: exclusive

func (l lockset) clone() lockset {
	r := lockset{}
	for k, v := range l {
		r[k] = v
	}
	return r
}

type walker struct {
	w     *world
	visit func(e *Ev, held lockset, inLoop int)
	bad   func(key string, pos token.Pos, format string, args ...any)
	order map[[2]*Term]token.Pos
}

func lockOp(e *Ev) (op string, mu *Term) {
	if e.kind != "call" || len(e.args) == 0 {
		return "", nil
	}
	switch e.name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock", e.args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "unlock", e.args[0]
	case "(*sync.RWMutex).RLock":
		return "rlock", e.args[0]
	case "(*sync.RWMutex).RUnlock":
		return "runlock", e.args[0]
	case "(sync.Locker).Lock", "(sync.Locker).Unlock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return "?", e.args[0]
	}
	return "", nil
}

// walk follows a trace, entering loop bodies, and keeps track of locks.
func (k *walker) walk(evs []*Ev, held lockset, depth int) lockset {
	for _, e := range evs {
		if e.kind == "loop" {
			for _, b := range e.loop.backs {
				end := k.walk(b.st.events(), held.clone(), depth+1)
				if !sameLocks(end, held) && k.bad != nil {
					k.bad("lock:loop", e.pos, "a lock taken or released in the loop is not given back before its next round")
				}
			}
			continue
		}
		op, mu := lockOp(e)
		switch op {
		case "?":
			if k.bad != nil {
				k.bad("lock:unknown", e.pos, "locking that cannot be followed")
			}
		case "lock", "rlock":
			if _, ok := held[mu]; ok && k.bad != nil {
				k.bad("lock:twice", e.pos, "%s is taken while already held", mu)
			}
			if k.order != nil {
				for h := range held {
					if _, ok := k.order[[2]*Term{h, mu}]; !ok {
						k.order[[2]*Term{h, mu}] = e.pos
					}
				}
			}
			held[mu] = op == "lock"
		case "unlock", "runlock":
			if v, ok := held[mu]; (!ok || v != (op == "unlock")) && k.bad != nil {
				k.bad("lock:free", e.pos, "%s is released without being held", mu)
			}
			delete(held, mu)
		}
		if k.visit != nil {
			k.visit(e, held, depth)
		}
	}
	return held
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// decoderKeepsBuffer: no function changes the buffer of an existing decoder.
func (ci *connInfo) decoderKeepsBuffer(rep *Report) {
	for _, fn := range ci.p.allFuncs() {
		if fn.Name() == "NewDecoder" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := s.Addr.(type) {
				case *ssa.FieldAddr:
					if a.Field == ci.dec.rawF && types.Identical(pointee(a.X.Type()), ci.dec.typ) {
						if _, fresh := a.X.(*ssa.Alloc); !fresh {
							rep.bad("decoder:buffer", ci.p.pos(s.Pos()), "%s replaces the buffer of a decoder", fn)
						}
					}
				default:
					if types.Identical(s.Val.Type(), ci.dec.typ) {
						rep.bad("decoder:buffer", ci.p.pos(s.Pos()), "%s replaces a decoder", fn)
					}
				}
			}
		}
	}
}

// paths of an entry that can happen
func (e *entry) live() []CallOut {
	var r []CallOut
	for _, o := range e.outs {
		if !o.st.facts.dead {
			r = append(r, o)
		}
	}
	return r
}

// rounds lists, for a goroutine, each way through one round of its loops: paths
// that go around (back) and the last, incomplete round of paths that leave.
type round struct {
	evs  []*Ev
	st   State
	back bool
	pos  token.Pos
}

func (e *entry) rounds() []round {
	var r []round
	seen := map[*LoopInfo]bool{}
	var inLoops func(evs []*Ev)
	inLoops = func(evs []*Ev) {
		for _, v := range evs {
			if v.kind == "loop" && !seen[v.loop] {
				seen[v.loop] = true
				for _, b := range v.loop.backs {
					if b.st.facts.dead {
						continue
					}
					r = append(r, round{evs: b.st.events(), st: b.st, back: true, pos: v.pos})
					inLoops(b.st.events())
				}
			}
		}
	}
	for _, o := range e.live() {
		evs := o.st.events()
		inLoops(evs)
		last := -1
		for i, v := range evs {
			if v.kind == "loop" {
				last = i
			}
		}
		r = append(r, round{evs: evs[last+1:], st: o.st, pos: o.pos})
	}
	return r
}

func hasEv(evs []*Ev, f func(*Ev) bool) bool {
	for _, e := range evs {
		if f(e) {
			return true
		}
		if e.kind == "loop" {
			for _, b := range e.loop.backs {
				if hasEv(b.st.events(), f) {
					return true
				}
			}
		}
	}
	return false
}

func (e *entry) has(f func(*Ev) bool) bool {
	for _, o := range e.outs {
		if hasEv(o.st.events(), f) {
			return true
		}
	}
	return false
}

// role: the goroutines that take bytes from the socket and from the ring.
func (w *world) roles(rep *Report) (reader, receiver *entry) {
	for _, e := range w.entries {
		rd := e.has(func(v *Ev) bool { return w.isRaw(v, "Read") })
		rc := e.has(func(v *Ev) bool { return w.isRing(v, w.ci.readN) })
		if rd {
			if reader != nil || e.goEv == nil || rc {
				rep.bad("role:reader", w.ci.p.pos(e.fn.Pos()), "%s reads from the socket, which is not the job of it alone", e.name)
			}
			reader = e
		}
		if rc {
			if receiver != nil || e.goEv == nil {
				rep.bad("role:receiver", w.ci.p.pos(e.fn.Pos()), "%s reads from the ring, which is not the job of it alone", e.name)
			}
			receiver = e
		}
	}
	if reader == nil || receiver == nil {
		rep.bad("role:missing", w.ci.p.pos(w.ci.connect.Pos()), "no goroutine reads from the socket, or none from the ring")
		return nil, nil
	}
	return
}

func (w *world) entry(name string) *entry {
	for _, e := range w.entries {
		if e.name == name {
			return e
		}
	}
	return nil
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func dumpConn(p *Prog) {
	ci, err := p.connInfo()
	if err != nil {
		fmt.Println(err)
		return
	}
	rep := newReport("")
	for _, w := range ci.worlds(rep) {
		fmt.Println("WORLD raw", w.raw, "ring", w.ring, "enc", w.encoder, "mut", len(w.mut))
		for _, e := range w.entries {
			fmt.Println("== ", e.name, "outs", len(e.outs), "undecided", e.x.undecided, "probs", e.probs)
			for _, o := range e.outs {
				fmt.Println("  -- out panic", o.panic, "stop", o.stop, "ret", o.ret)
				dumpEvents(os.Stdout, p, o.st.events(), "    ")
			}
		}
	}
	for _, f := range rep.findings {
		fmt.Println("FINDING", f)
	}
}
