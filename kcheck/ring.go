package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// The ring buffer (C15, C16).  New is evaluated for a symbolic capacity, then
// WriteN and ReadN on the object it builds, each starting from arbitrary
// cursors within bounds.  Every trace is replayed by an automaton that knows
// how many bytes were transferred, which slot is next, which value of the other
// side's cursor was loaded last, and what was published and announced.  Loops
// are handled by guessing which loop variable carries each of those and
// checking the guess by induction.

type ringInfo struct {
	p                     *Prog
	typ                   types.Type
	newF, write, read, cl *ssa.Function
}

type ringRun struct {
	nth    int // of the paths of New
	ri     *ringInfo
	rep    *Report
	st     State
	r      *Term // the ring
	size   *Term
	data   *Term // its bytes
	mark   int64
	sides  [2]*ringSide // writer, reader
	closer *Term        // done channel closed by Close
	ctxs   map[*Term]bool
	done   map[*Term]bool // channels closed by Close
}

type ringSide struct {
	writer  bool
	name    string
	fn      *ssa.Function
	x       *X
	outs    []CallOut
	buf, n  *Term
	cur0    *Term
	aStores map[*Term]bool // atomically stored
	pStores map[*Term]bool // plainly stored
	aLoads  map[*Term]bool
	pLoads  map[*Term]bool
	waits   map[*Term]bool // channels waited on
	probs   []Finding
	own     *Term // own cursor
	other   *Term
}

func (p *Prog) ringInfo() (*ringInfo, error) {
	ri := &ringInfo{p: p, typ: namedType(p, ringPkg, "Buffer"), newF: p.fun(ringPkg, "New"), write: p.method(ringPkg, "Buffer", "WriteN"), read: p.method(ringPkg, "Buffer", "ReadN"), cl: p.method(ringPkg, "Buffer", "Close")}
	if ri.typ == nil || ri.newF == nil || ri.write == nil || ri.read == nil || ri.cl == nil {
		return nil, fmt.Errorf("ring.Buffer or one of New, WriteN, ReadN, Close not found")
	}
	return ri, nil
}

func (ri *ringInfo) isErrCtx(e *Ev) *Term {
	if e.kind == "call" && e.name == "ctx.Err" && len(e.args) > 0 {
		return e.args[0]
	}
	return nil
}

// runs: one per path of New.
func (ri *ringInfo) runs(rep *Report) []*ringRun {
	p := ri.p
	x := newX(p)
	size := namedSym("size", types.Typ[types.Int])
	f := rootFacts.assume(mkGE0(linOf(size).addc(-2))).assume(mkGE0(linOf(mkInt(1<<31 - 1)).sub(linOf(size))))
	outs := x.Run(ri.newF, []*Term{size}, nil, State{facts: f}, nil, 0)
	rep.visit(x)
	rep.undecided(x, "New")
	var rs []*ringRun
	for _, o := range outs {
		if o.st.facts.dead {
			continue
		}
		if o.panic || o.stop {
			rep.bad("new:panic", p.pos(o.pos), "New can panic or block for a capacity of at least 2")
			continue
		}
		if o.ret.op != OAlloc {
			rep.bad("new:result", p.pos(o.pos), "New returns %s instead of a new ring", o.ret)
			continue
		}
		r := &ringRun{ri: ri, rep: rep, st: o.st, r: o.ret, size: size, mark: x.allocs, done: map[*Term]bool{}, ctxs: map[*Term]bool{}}
		s := structOf(ri.typ)
		for i := 0; i < s.NumFields(); i++ {
			if ft := s.Field(i).Type(); isByteSlice(ft) {
				r.data = o.st.load(mkFieldAddr(r.r, i, types.NewPointer(ft)), ft)
			}
		}
		if r.data == nil || r.data.op != OMakeSlice {
			rep.bad("new:data", p.pos(o.pos), "New does not give the ring memory of its own")
			continue
		}
		if !o.st.facts.eq(mkLen(r.data), size) {
			rep.bad("new:size", p.pos(o.pos), "New makes a ring of %s bytes instead of %s", mkLen(r.data), size)
			continue
		}
		rep.ok("ring_constructions")
		r.nth = len(rs)
		if r.evalAll() {
			rs = append(rs, r)
		}
	}
	if len(rs) == 0 {
		rep.bad("new:none", p.pos(ri.newF.Pos()), "no path of New builds a ring that can be analysed")
	}
	return rs
}

func (r *ringRun) shared(a *Term) bool {
	q := rootOf(a)
	return (q.op == OAlloc || q.op == OMakeSlice) && q.n <= r.mark || q.op == OGlobal
}

func (r *ringRun) slot(a *Term) *Term {
	if a.op == OIndexAddr && a.args[0] == r.data {
		return a.args[1]
	}
	if a.op == OIndexAddr && a.args[0].op == OSlice && a.args[0].args[0] == r.data {
		return mkAdd(a.args[0].args[1], a.args[1])
	}
	return nil
}

func (r *ringRun) evalAll() bool {
	mk := func(writer bool, fn *ssa.Function) *ringSide {
		d := &ringSide{writer: writer, name: fn.Name(), fn: fn, aStores: map[*Term]bool{}, pStores: map[*Term]bool{}, aLoads: map[*Term]bool{}, pLoads: map[*Term]bool{}, waits: map[*Term]bool{}}
		d.buf = namedSym(fn.Name()+".data", fn.Params[1].Type())
		d.n = namedSym(fn.Name()+".n", fn.Params[2].Type())
		return d
	}
	if len(r.ri.write.Params) != 3 || len(r.ri.read.Params) != 3 {
		r.rep.bad("ring:params", "", "WriteN and ReadN do not take a buffer and a count")
		return false
	}
	r.sides = [2]*ringSide{mk(true, r.ri.write), mk(false, r.ri.read)}
	for pass := 0; pass < 3; pass++ {
		for i, d := range r.sides {
			r.eval(d, r.sides[1-i])
		}
	}
	for i, d := range r.sides {
		o := r.sides[1-i]
		r.rep.visit(d.x)
		r.rep.undecided(d.x, d.name)
		for a := range d.aStores {
			if o.aLoads[a] && !o.aStores[a] {
				if d.own != nil {
					r.rep.bad("cursor:many:"+d.name, r.ri.p.pos(d.fn.Pos()), "%s publishes more than one value", d.name)
				}
				d.own = a
				o.other = a
			}
		}
	}
	for i, d := range r.sides {
		if d.own == nil {
			r.rep.bad("cursor:none:"+d.name, r.ri.p.pos(d.fn.Pos()), "%s does not publish its position with an atomic store that %s loads atomically", d.name, r.sides[1-i].name)
			return false
		}
		if v := r.st.load(d.own, types.Typ[types.Int]); v != zeroTerm(pointee(d.own.typ)) && v.op != OZero {
			if n, ok := v.intVal(); !ok || n != 0 {
				r.rep.bad("new:cursor", r.ri.p.pos(r.ri.newF.Pos()), "a new ring does not start empty at position 0")
			}
		}
	}
	r.closing()
	return true
}

func (r *ringRun) eval(d, o *ringSide) {
	x := newX(r.ri.p)
	d.x = x
	d.probs = nil
	if h := r.ri.p.hz; h != nil {
		h.restart(fmt.Sprintf("ring.%s.%d", d.name, r.nth)) // only the last pass knows what the other side does
	}
	x.allocs = r.mark
	x.overflow = true
	x.watch = func(a *Term) bool { return r.shared(a) }
	x.mutable = func(a *Term) bool {
		return r.slot(a) != nil || o.aStores[a] || o.pStores[a] || a.op == OGlobal && (o.pStores[a] || d.pStores[a])
	}
	x.own = func(a *Term) bool { return !o.aStores[a] && !o.pStores[a] && r.shared(a) }
	x.onAtomic = func(x *X, st State, fr *Frame, fn *ssa.Function, args []*Term, ev *Ev) []CallOut {
		if ev.kind == "atomic" && ev.name == "load" {
			// a cursor is within the ring
			st.facts = st.facts.assume(mkGE0(linOf(ev.res))).assume(mkGE0(linOf(r.size).sub(linOf(ev.res)).addc(-1)))
			return []CallOut{{st: st, ret: ev.res}}
		}
		return nil
	}
	oblige := func(pos token.Pos, ok bool, format string, as ...any) {
		if !ok {
			d.probs = append(d.probs, Finding{Key: "safe:" + d.name, Pos: r.ri.p.pos(pos), Msg: d.name + ": " + fmt.Sprintf(format, as...)})
		}
	}
	x.onIndex = func(st *State, fr *Frame, pos token.Pos, base, idx, length *Term) {
		f := st.facts
		oblige(pos, f.entailsGE(linOf(idx)) && f.lt(idx, length), "index %s may be out of range of %s", idx, base)
	}
	x.onSlice = func(st *State, fr *Frame, pos token.Pos, base, lo, hi, max *Term) {
		f := st.facts
		if lo == nil {
			lo = mkInt(0)
		}
		if hi == nil {
			hi = mkLen(base)
		}
		oblige(pos, f.entailsGE(linOf(lo)) && f.le(lo, hi) && f.le(hi, mkLen(base)), "slice %s[%s:%s] may be out of range", base, lo, hi)
	}
	st := r.st
	st.trace = nil
	inRange := func(v *Term) {
		st.facts = st.facts.assume(mkGE0(linOf(v))).assume(mkGE0(linOf(r.size).sub(linOf(v)).addc(-1)))
	}
	for a := range d.aStores {
		if x.own(a) && pointee(a.typ) != nil && isInt(pointee(a.typ)) {
			v := namedSym("cursor."+locName(a), pointee(a.typ))
			inRange(v)
			st.put(a, v)
			d.cur0 = v
		}
	}
	// the caller's buffer holds n bytes
	st.facts = st.facts.assume(mkGE0(linOf(mkLen(d.buf)).sub(linOf(d.n)))).assume(mkGE0(linOf(d.n)))
	d.outs = x.Run(d.fn, []*Term{r.r, d.buf, d.n}, nil, st, nil, 0)
	var scan func(evs []*Ev)
	seen := map[*LoopInfo]bool{}
	scan = func(evs []*Ev) {
		for _, e := range evs {
			switch e.kind {
			case "atomic":
				if e.name == "load" {
					d.aLoads[e.args[0]] = true
				} else {
					d.aStores[e.args[0]] = true
				}
			case "store":
				if r.slot(e.args[0]) == nil && r.shared(e.args[0]) {
					d.pStores[e.args[0]] = true
				}
			case "load":
				if r.slot(e.args[0]) == nil {
					d.pLoads[e.args[0]] = true
				}
			case "select":
				if e.block {
					for _, c := range e.cases {
						if !c.send {
							d.waits[c.ch] = true
						}
					}
				}
			case "recv":
				d.waits[e.args[0]] = true
			case "loop":
				if !seen[e.loop] {
					seen[e.loop] = true
					for _, b := range e.loop.backs {
						scan(b.st.events())
					}
				}
			}
		}
	}
	for _, o := range d.outs {
		scan(o.st.events())
	}
}

// closing: what Close brings about on every path.
func (r *ringRun) closing() {
	p := r.ri.p
	x := newX(p)
	x.allocs = r.mark
	x.watch = func(a *Term) bool { return r.shared(a) }
	st := r.st
	st.trace = nil
	outs := x.Run(r.ri.cl, []*Term{r.r}, nil, st, nil, 0)
	r.rep.visit(x)
	r.rep.undecided(x, "Close")
	first := true
	for _, o := range outs {
		if o.st.facts.dead {
			continue
		}
		if o.panic || o.stop {
			r.rep.bad("close:panic", p.pos(o.pos), "Close can panic or block")
			continue
		}
		done, ctxs := map[*Term]bool{}, map[*Term]bool{}
		locks := hasEv(o.st.events(), func(v *Ev) bool { op, _ := lockOp(v); return op != "" })
		for _, v := range o.st.events() {
			switch {
			case (v.kind == "store" || v.kind == "atomic" && v.name != "load") && rootOf(v.args[0]) == r.r && !locks:
				if by := r.ri.usesField(v.args[0]); by != "" {
					r.rep.bad("close:store", p.pos(v.pos), "Close changes %s, which %s uses at the same time", v.args[0], by)
				}
			case v.kind == "chanclose":
				done[v.args[0]] = true
			case v.kind == "call" && v.dyn != nil:
				if e, ok := v.dyn.info.(*Ev); ok && e.name == "context.WithCancel" && e.res.op == OTuple && e.res.args[1] == v.dyn {
					done[ctxDone(e.res.args[0])] = true
					ctxs[e.res.args[0]] = true
				}
			case blockingEv(v):
				r.rep.bad("close:blocks", p.pos(v.pos), "Close can block")
			}
		}
		if first {
			r.done, r.ctxs, first = done, ctxs, false
			continue
		}
		for k := range r.done {
			if !done[k] {
				delete(r.done, k)
			}
		}
		for k := range r.ctxs {
			if !ctxs[k] {
				delete(r.ctxs, k)
			}
		}
	}
}

// usesField: the reader or the writer that reaches for the field of the ring.
func (ri *ringInfo) usesField(loc *Term) string {
	if loc.op != OFieldAddr {
		return ""
	}
	t := pointee(loc.args[0].typ)
	if t == nil {
		return ""
	}
	seen := map[*ssa.Function]bool{}
	var find func(fn *ssa.Function) bool
	find = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] || fn.Package() == nil || fn.Package().Pkg.Path() != ringPkg {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if q := pointee(in.X.Type()); q != nil && types.Identical(q, t) && int64(in.Field) == loc.n {
						return true
					}
				case *ssa.MakeClosure:
					if find(in.Fn.(*ssa.Function)) {
						return true
					}
				case ssa.CallInstruction:
					if find(in.Common().StaticCallee()) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range []*ssa.Function{ri.write, ri.read} {
		if find(fn) {
			return fn.Name()
		}
	}
	return ""
}

func blockingEv(e *Ev) bool {
	return e.kind == "recv" || e.kind == "send" || e.kind == "select" && e.block
}

func dumpRing(p *Prog) {
	ri, err := p.ringInfo()
	if err != nil {
		fmt.Println(err)
		return
	}
	rep := newReport("")
	for _, r := range ri.runs(rep) {
		fmt.Println("RING", r.r, "data", r.data, "done", r.done, "ctxs", r.ctxs)
		for _, d := range r.sides {
			fmt.Println("==", d.name, "own", d.own, "other", d.other, "undecided", d.x.undecided, "probs", d.probs, "waits", d.waits)
			dumpOuts(os.Stdout, p, d.outs)
		}
	}
	for _, f := range rep.findings {
		fmt.Println("FINDING", f)
	}
}
