package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run-time panics (C31): every operation that can panic carries an obligation,
// discharged by the facts of the path that leads to it.

type hazards struct {
	p        *Prog
	rep      *Report
	in       string // what is being examined
	seen     map[*ssa.Function]bool
	built    map[*ssa.Function][]CallOut
	calledBy map[*ssa.Function][]*ssa.Function
	ref      map[string]bool // objects whose references are never nil (see established)
}

func (h *hazards) bad(pos token.Pos, key, format string, as ...any) {
	h.rep.bad("panic:"+h.in+":"+key+":"+h.p.pos(pos), h.p.pos(pos), h.in+": "+format, as...)
}

// restart: what is examined from here on replaces an earlier examination.
func (h *hazards) restart(what string) {
	h.in = what
	var fs []Finding
	for _, f := range h.rep.findings {
		if !strings.HasPrefix(f.Key, "panic:"+what+":") {
			fs = append(fs, f)
		}
	}
	h.rep.findings = fs
}

func (x *X) obIndex(st *State, fr *Frame, pos token.Pos, base, idx, length *Term) {
	if x.quiet > 0 {
		return
	}
	if x.onIndex != nil {
		x.onIndex(st, fr, pos, base, idx, length)
	}
	if h := x.p.hz; h != nil {
		h.rep.ok("accesses")
		if f := st.facts; !f.entailsGE(linOf(idx)) || !f.lt(idx, length) {
			h.bad(pos, "index", "index %s may be out of range of %s", idx, base)
		}
	}
}

func (x *X) obSlice(st *State, fr *Frame, pos token.Pos, base, lo, hi, max *Term) {
	if x.quiet > 0 {
		return
	}
	if x.onSlice != nil {
		x.onSlice(st, fr, pos, base, lo, hi, max)
	}
	if h := x.p.hz; h != nil {
		h.rep.ok("slices")
		if lo == nil {
			lo = mkInt(0)
		}
		top := mkLen(base)
		if max != nil {
			top = max
		}
		if hi == nil {
			hi = mkLen(base)
		}
		f := st.facts
		if !f.entailsGE(linOf(lo)) || !f.le(lo, hi) || !f.le(hi, top) || max != nil && !f.le(max, mkLen(base)) {
			h.bad(pos, "slice", "slice %s[%s:%s] may be out of range", base, lo, hi)
		}
	}
}

func (x *X) obMake(st *State, fr *Frame, pos token.Pos, n *Term, typ types.Type) {
	if x.quiet > 0 {
		return
	}
	if x.onMake != nil {
		x.onMake(st, fr, pos, n, typ)
	}
	if h := x.p.hz; h != nil {
		h.rep.ok("allocations")
		if !st.facts.entailsGE(linOf(n)) {
			h.bad(pos, "make", "makes %s elements, which may be negative", n)
		}
	}
}

// nonNil: t is not nil on this path.
func (h *hazards) nonNil(st *State, t *Term) bool {
	f := st.facts
	t = f.resolve(t)
	if t.knownNonNil() || f.decide(mkEq(t, termNil)) == -1 {
		return true
	}
	switch t.op {
	case OSlice:
		return h.nonNil(st, t.args[0])
	case OPure:
		if strings.HasPrefix(t.s, "assert:") {
			return true // the assertion succeeded, which nil does not
		}
		return t.nonnil
	case OField:
		if t.nonnil {
			return true
		}
	case OSym:
		if e, ok := t.info.(*Ev); ok && t.typ != nil && h.inMaps(t.typ) && found(f, e) {
			return true
		}
		// what a library call returns besides a nil error
		if e, ok := t.info.(*Ev); ok && e.kind == "call" && e.res != nil && e.res.op == OTuple && e.res.args[0] == t && !h.p.inRepo(e.fn) {
			if er := errOf(e); er != nil && f.decide(mkEq(er, termNil)) == 1 {
				return true
			}
		}
	}
	if _, ok := t.typ.(*types.Signature); ok || t.typ != nil && isFunc(t.typ) {
		// functions handed in by the caller
		if r := valueRoot(t); r != t && r.op == OSym && r.info == nil {
			return true
		}
	}
	return h.owned(f, t)
}

// owned: t is a reference kept in an object of the library, which never holds
// nil there.
func (h *hazards) owned(f *Facts, t *Term) bool {
	var s types.Type
	i := 0
	switch {
	case t.op == ODeref && t.args[0].op == OFieldAddr:
		s, i = pointee(t.args[0].args[0].typ), int(t.args[0].n)
	case t.op == OSym && t.at != nil && t.at.op == OFieldAddr:
		s, i = pointee(t.at.args[0].typ), int(t.at.n)
	case t.op == OField:
		if e, ok := t.args[0].info.(*Ev); ok && t.args[0].op == OSym && e.kind == "mapget" && !found(f, e) {
			return false // perhaps the zero value
		}
		s, i = t.args[0].typ, int(t.n)
	}
	n, ok := s.(*types.Named)
	if !ok {
		return false
	}
	st := structOf(s)
	return st != nil && h.ref[n.Obj().Name()+"."+st.Field(i).Name()]
}

// found: the lookup or iteration e yielded an element.
func found(f *Facts, e *Ev) bool {
	if e.res == nil || e.res.op != OTuple {
		return false
	}
	for _, a := range e.res.args {
		if a != nil && a.op == OSym && strings.HasPrefix(a.s, "ok#") && f.decide(a) == 1 {
			return true
		}
	}
	return false
}

// inMaps: references of type t are only put into maps, or read from them, when
// they are not nil.
func (h *hazards) inMaps(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
	default:
		return false
	}
	n := 0
	for _, fn := range h.p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(m.Value.Type(), t) {
					continue
				}
				switch m.Value.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
					n++
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

func isFunc(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

// valueRoot: the object that t is a part of.
func valueRoot(t *Term) *Term {
	for {
		switch t.op {
		case ODeref, OFieldAddr, OIndexAddr, OElems, OSlice, OField, OIndex:
			t = t.args[0]
		default:
			return t
		}
	}
}

// established finds the fields that hold a reference from the moment an object
// is made: every place that makes one stores something other than nil, and so
// does everyone else who stores there.
func (h *hazards) established() {
	type fld struct {
		t *types.Named
		i int
	}
	made := map[*types.Named][]*ssa.Alloc{}
	stored := map[fld][]*ssa.Store{}
	copied := map[*ssa.Alloc]bool{}
	named := func(t types.Type) *types.Named {
		n, _ := t.(*types.Named)
		if n == nil || n.Obj().Pkg() == nil || structOf(n) == nil {
			return nil
		}
		return n
	}
	for _, fn := range h.p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if n := named(pointee(in.Type())); n != nil {
						made[n] = append(made[n], in)
					}
				case *ssa.Store:
					if a, ok := in.Addr.(*ssa.Alloc); ok {
						if _, c := in.Val.(*ssa.Const); !c {
							copied[a] = true // from another one
						}
					}
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if n := named(pointee(fa.X.Type())); n != nil {
							stored[fld{n, fa.Field}] = append(stored[fld{n, fa.Field}], in)
						}
					}
				}
			}
		}
	}
	for n, as := range made {
		s := structOf(n)
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
			default:
				continue
			}
			ok := true
			set := map[*ssa.Alloc]bool{}
			for _, st := range stored[fld{n, i}] {
				switch v := st.Val.(type) {
				case *ssa.Const:
					ok = false
				case *ssa.UnOp, *ssa.FreeVar:
					if _, isLoad := v.(*ssa.UnOp); (!isLoad || st.Parent().Parent() != nil) && h.handed(st.Parent(), n, i) {
						ok = false
					}
				case *ssa.Phi:
					for _, e := range v.Edges {
						if _, c := e.(*ssa.Const); c {
							ok = false
						}
					}
				}
				if a, isA := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); isA {
					set[a] = true
				}
			}
			for _, a := range as {
				ok = ok && (set[a] || copied[a] || h.setUp(a, i) || h.whole(a, n, i))
			}
			if ok {
				h.rep.ok("references_established")
				h.ref[n.Obj().Name()+"."+s.Field(i).Name()] = true
			}
		}
	}
}

// setUp: the object is handed to a function that stores a reference in the
// field before anything else can look at it.
func (h *hazards) setUp(a *ssa.Alloc, field int) bool {
	for _, r := range *a.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || !h.p.inRepo(c.Call.StaticCallee()) {
			continue
		}
		g := c.Call.StaticCallee()
		for k, v := range c.Call.Args {
			if v == ssa.Value(a) && setsField(g, k, field) {
				return true
			}
		}
	}
	return false
}

// whole: by the time an object made here is handed to a goroutine or out of the
// library, the field is set.
func (h *hazards) whole(a *ssa.Alloc, n *types.Named, field int) bool {
	if h.built == nil {
		h.built = map[*ssa.Function][]CallOut{}
		h.calledBy = map[*ssa.Function][]*ssa.Function{}
		for _, fn := range h.p.allFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
						g := c.Common().StaticCallee()
						h.calledBy[g] = append(h.calledBy[g], rootFn(fn))
					}
				}
			}
		}
	}
	roots, seen := []*ssa.Function{}, map[*ssa.Function]bool{}
	var up func(fn *ssa.Function)
	up = func(fn *ssa.Function) {
		if fn = rootFn(fn); seen[fn] {
			return
		}
		seen[fn] = true
		if o := fn.Object(); o != nil && o.Exported() || len(h.calledBy[fn]) == 0 {
			roots = append(roots, fn)
			return
		}
		for _, g := range h.calledBy[fn] {
			up(g)
		}
	}
	up(a.Parent())
	some := false
	for _, fn := range roots {
		outs, ok := h.built[fn]
		if !ok {
			x := newX(h.p)
			var args []*Term
			for i, q := range fn.Params {
				args = append(args, namedSym(fmt.Sprintf("given%d", i), q.Type()))
			}
			outs = x.Run(fn, args, nil, State{facts: rootFacts}, nil, 0)
			if len(x.undecided) > 0 {
				outs = nil
			}
			h.built[fn] = outs
		}
		if outs == nil {
			return false
		}
		for _, o := range outs {
			if o.panic || o.stop || o.st.facts.dead {
				continue
			}
			good := true
			see := func(st State, ts ...*Term) {
				for _, t := range ts {
					if t == nil {
						continue
					}
					contains(t, func(y *Term) bool {
						if y.op != OAlloc || pointee(y.typ) == nil || !types.Identical(pointee(y.typ), n) {
							return false
						}
						some = true
						ft := structOf(n).Field(field).Type()
						good = good && h.nonNil(&st, st.load(mkFieldAddr(y, field, types.NewPointer(ft)), ft))
						return false
					})
				}
			}
			see(o.st, o.ret)
			hasEv(o.st.events(), func(e *Ev) bool {
				if e.kind == "go" || e.kind == "call" || e.kind == "send" {
					see(e.st, append(append([]*Term{e.dyn}, e.args...), e.binds...)...)
				}
				return false
			})
			if !good {
				return false
			}
		}
	}
	return some
}

// setsField: a store to the field comes before every way out and every call of
// an unknown function.
func setsField(g *ssa.Function, k int, field int) bool {
	if k >= len(g.Params) {
		return false
	}
	for _, sb := range g.Blocks {
		for si, in := range sb.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(g.Params[k]) || fa.Field != field {
				continue
			}
			first := true
			for _, b := range g.Blocks {
				for i, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Return:
					case ssa.CallInstruction:
						if _, b := in.Common().Value.(*ssa.Builtin); b || in.Common().StaticCallee() != nil {
							continue
						}
					default:
						continue
					}
					first = first && (b == sb && i > si || b != sb && sb.Dominates(b))
				}
			}
			if first {
				return true
			}
		}
	}
	return false
}

func (h *hazards) deref(x *X, st *State, pos token.Pos, t *Term) {
	h.rep.ok("dereferences")
	if !h.nonNil(st, t) {
		h.bad(pos, "nil", "%s may be nil where it is dereferenced", t)
	}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (h *hazards) instr(x *X, fr *Frame, st *State, in ssa.Instruction) {
	h.seen[in.Parent()] = true
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			h.deref(x, st, in.Pos(), x.val(fr, in.X))
		}
	case *ssa.Store:
		h.deref(x, st, in.Pos(), x.val(fr, in.Addr))
	case *ssa.FieldAddr:
		h.deref(x, st, in.Pos(), x.val(fr, in.X))
	case *ssa.IndexAddr:
		if isPtr(in.X.Type()) {
			h.deref(x, st, in.Pos(), x.val(fr, in.X))
		}
	case *ssa.Slice:
		if isPtr(in.X.Type()) {
			h.deref(x, st, in.Pos(), x.val(fr, in.X))
		}
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			if isInt(in.Type()) {
				h.rep.ok("divisions")
				y := x.val(fr, in.Y)
				f := st.facts
				if n, ok := y.intVal(); ok && n != 0 {
					return
				}
				if !f.entailsGE(linOf(y).addc(-1)) && !f.entailsGE(linOf(y).scale(-1).addc(-1)) && f.decide(mkEQ0(linOf(y))) != -1 {
					h.bad(in.Pos(), "zero", "divides by %s, which may be zero", y)
				}
			}
		case token.SHL, token.SHR:
			if isInt(in.Y.Type()) && signed(in.Y.Type()) {
				h.rep.ok("shifts")
				if y := x.val(fr, in.Y); !st.facts.entailsGE(linOf(y)) {
					h.bad(in.Pos(), "shift", "shifts by %s, which may be negative", y)
				}
			}
		}
	case *ssa.MapUpdate:
		h.rep.ok("map_writes")
		if m := x.val(fr, in.Map); !h.nonNil(st, m) {
			h.bad(in.Pos(), "map", "writes to map %s, which may be nil", m)
		}
	case *ssa.SliceToArrayPointer:
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !st.facts.le(mkInt(n), mkLen(x.val(fr, in.X))) {
			h.bad(in.Pos(), "array", "converts a slice that may be shorter than %d to an array", n)
		}
	}
}

func (h *hazards) assertion(x *X, fr *Frame, st *State, in *ssa.TypeAssert) {
	h.rep.ok("assertions")
	v := st.facts.resolve(x.val(fr, in.X))
	if v.op == OIface {
		if i, ok := in.AssertedType.Underlying().(*types.Interface); ok && types.Implements(v.typ, i) || types.Identical(v.typ, in.AssertedType) {
			return
		}
	}
	is := mk(OPure, types.Typ[types.Bool], "is:"+types.TypeString(in.AssertedType, nil), 0, v)
	if st.facts.decide(is) != 1 {
		h.bad(in.Pos(), "assert", "asserts that %s is %s", v, in.AssertedType)
	}
}

func (h *hazards) callee(x *X, st *State, c Callee, pos token.Pos) {
	switch {
	case c.builtin == "close":
		h.rep.ok("closes")
		if !h.nonNil(st, c.args[0]) {
			h.bad(pos, "close", "closes %s, which may be nil", c.args[0])
		}
	case c.recv != nil:
		h.rep.ok("interface_calls")
		if !h.nonNil(st, c.recv) {
			h.bad(pos, "invoke", "calls %s on %s, which may be nil", c.method.Name(), c.recv)
		}
	case c.fn != nil:
		// methods that are not followed into need their receiver
		r := c.fn.Signature.Recv()
		if r == nil || !isPtr(r.Type()) || len(c.args) == 0 || h.p.inRepo(c.fn) && !(x.atomic != nil && x.atomic(c.fn)) || takesNil(c.fn) {
			return
		}
		h.rep.ok("receivers")
		if !h.nonNil(st, c.args[0]) {
			h.bad(pos, "receiver", "calls %s on %s, which may be nil", c.fn.Name(), c.args[0])
		}
	case c.dyn != nil:
		h.rep.ok("function_values")
		if !h.nonNil(st, c.dyn) {
			h.bad(pos, "call", "calls %s, which may be nil", c.dyn)
		}
	}
}

// takesNil: a method that its documentation or its code allows to be called on nil.
func takesNil(fn *ssa.Function) bool {
	if fn.String() == "(*crypto/tls.Config).Clone" {
		return true
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	return comparesNil(fn.Params[0])
}

func comparesNil(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		if b, ok := u.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, y := range []ssa.Value{b.X, b.Y} {
				if c, ok := y.(*ssa.Const); ok && c.Value == nil {
					return true
				}
			}
		}
	}
	return false
}

// handed: fn, a closure, may put nil into the field because of what its maker
// was given.
func (h *hazards) handed(fn *ssa.Function, t *types.Named, field int) bool {
	maker := fn.Parent()
	if maker == nil || maker.Parent() != nil || maker.Signature.Recv() != nil {
		return true
	}
	x := newX(h.p)
	var args []*Term
	for i, q := range maker.Params {
		args = append(args, namedSym(fmt.Sprintf("given%d", i), q.Type()))
	}
	bad, ran := false, false
	for _, o := range x.Run(maker, args, nil, State{facts: rootFacts}, nil, 0) {
		if o.panic || o.stop || o.st.facts.dead {
			continue
		}
		c := o.st.facts.resolve(o.ret)
		if c.op != OClosure || c.fn != fn {
			return true
		}
		ran = true
		var at []*Term
		nilFirst := false
		x.onStore = func(st *State, fr *Frame, pos token.Pos, a, v *Term) {
			if a.op == OFieldAddr && int(a.n) == field && pointee(a.args[0].typ) != nil && types.Identical(pointee(a.args[0].typ), t) && !st.facts.dead {
				at = append(at, a)
				nilFirst = nilFirst || !h.nonNil(st, v)
			}
		}
		var as []*Term
		for i, q := range fn.Params {
			a := namedSym(fmt.Sprintf("on%d", i), q.Type())
			a.nonnil = true
			as = append(as, a)
		}
		n := o.st.trace
		for _, q := range x.Run(fn, as, c.args, o.st, nil, 0) {
			if q.st.facts.dead {
				continue
			}
			// nil may be stored in passing, while nobody else looks
			for t := q.st.trace; nilFirst && t != nil && t != n; t = t.prev {
				if t.ev != nil && t.ev.kind != "store" && t.ev.kind != "load" {
					bad = true
				}
			}
			for _, a := range at {
				ft := pointee(a.typ)
				bad = bad || !h.nonNil(&q.st, q.st.load(a, ft))
			}
		}
	}
	return bad || !ran || len(x.undecided) > 0
}

func checkPanics(p *Prog, rep *Report, verif string) {
	rep.rule("obligations at every instruction that can panic, discharged by the facts of each path: dereferences and calls on values known not to be nil, indexes and slices in range, divisors not zero, sizes not negative, single-value type assertions known to hold, maps and closed channels made, no reachable panic")
	rep.rule("a reference kept in an object of the library is not nil if every place that makes such an object stores one and nothing else is ever stored there")
	rep.assume = append(rep.assume, "callers pass functions, writers and Options that are not nil; decoding is C04, the room for frames C14, sizes up to the protocol's limits C06")
	rep.need("message_versions", 300)
	rep.need("dereferences", 300)
	rep.need("interface_calls", 3)
	h := &hazards{p: p, rep: rep, ref: map[string]bool{}, seen: map[*ssa.Function]bool{}}
	h.established()
	p.hz = h
	defer func() { p.hz = nil }()
	at := func(what string, f func()) {
		h.in = what
		f()
	}
	silent := newReport("C31")
	// messages
	r := newCodecRun(p, silent, verif)
	r.each(func(m *SpecMsg, c *codecType, v int64) {
		at(m.Name, func() {
			p.sizeTerm(c, v, silent)
			p.encodeLayout(c, v, silent)
			r.dc.layout(c, v)
		})
		rep.ok("message_versions")
	})
	at("Encoder", func() { encoderSticky(p, silent) })
	at("RecordBatch", func() { checkRecordBatch(p, silent) })
	// connections and lookups
	ci, err := p.connInfo()
	if err == nil {
		at("Connect", func() { ci.runDial(silent) })
		at("connection", func() { connCheck(func(c *connRun) {})(p, silent, verif) })
	}
	b, err := p.brokerInfo()
	if err == nil {
		at("NewBroker", func() { b.runNewBroker() })
		for _, m := range b.apiMethods() {
			at("Broker."+m.name, func() { b.runApi(m) })
		}
	}
	if li, err := p.lookupInfo(); err == nil {
		at("Client", func() { li.lookups(silent) })
	}
	if ri, err := p.ringInfo(); err == nil {
		at("ring", func() { ri.runs(silent) })
	}
	// whatever has not been reached so far, on its own
	for _, fn := range p.allFuncs() {
		if h.seen[fn] || fn.Blocks == nil || len(fn.FreeVars) > 0 || decoderOnly(fn) {
			continue
		}
		at(fn.Name(), func() {
			x := newX(p)
			var args []*Term
			for i, q := range fn.Params {
				t := namedSym(fmt.Sprintf("p%d", i), q.Type())
				switch q.Type().Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Signature:
					t.nonnil = true
				}
				args = append(args, t)
			}
			x.Run(fn, args, nil, State{facts: rootFacts}, nil, 0)
			silent.visit(x)
			rep.ok("other_functions")
		})
	}
	for _, f := range silent.findings {
		if strings.HasPrefix(f.Key, "undecided:") {
			rep.bad(f.Key, f.Pos, "%s", f.Msg)
		}
	}
	for f := range silent.fns {
		rep.fns[f] = true
	}
	if os.Getenv("KC_MISSING") != "" {
		for _, fn := range p.allFuncs() {
			if !h.seen[fn] {
				println("not examined:", fn.String())
			}
		}
	}
}

// decoderOnly: decodes, which C04 examines for every input.
func decoderOnly(fn *ssa.Function) bool {
	if fn.Name() == "Decode" {
		return true
	}
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := pointee(r.Type()).(*types.Named); ok && n.Obj().Name() == "Decoder" {
			return true
		}
	}
	return false
}

func init() { checks["C31"] = checkPanics }
