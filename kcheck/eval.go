package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X evaluates functions abstractly: values are terms (a global value
// numbering), control flow is partitioned by path, loops are summarised at
// their header by a fixpoint over the loop-carried variables, calls to
// functions of the repository are analysed in the context of the call.
type X struct {
	pures     []*Term // results of pure library calls met
	p         *Prog
	atomic    func(fn *ssa.Function) bool
	onAtomic  func(x *X, st State, fr *Frame, fn *ssa.Function, args []*Term, ev *Ev) []CallOut
	onInvoke  func(x *X, st State, fr *Frame, recv *Term, m *types.Func, args []*Term, pos token.Pos) ([]CallOut, bool)
	onIndex   func(st *State, fr *Frame, pos token.Pos, base, idx, length *Term)
	onSlice   func(st *State, fr *Frame, pos token.Pos, base, lo, hi, max *Term)
	onMake    func(st *State, fr *Frame, pos token.Pos, n *Term, typ types.Type)
	onConv    func(st *State, fr *Frame, pos token.Pos, v *Term, to types.Type)
	onLoad    func(x *X, st *State, fr *Frame, pos token.Pos, addr *Term, typ types.Type) *Term
	onStore   func(st *State, fr *Frame, pos token.Pos, addr, val *Term)
	onRead    func(st *State, fr *Frame, pos token.Pos, s *Term) // all bytes of slice s are read
	watch     func(addr *Term) bool                              // loads and stores here are events
	onHavoc   func(st *State, p *Term) bool
	mutable   func(addr *Term) bool // other goroutines may write here
	own       func(addr *Term) bool // only written by the code evaluated
	writeOK   bool                  // writes to the stream succeed
	overflow  bool                  // model wrap-around of signed arithmetic
	once      *Term                 // the sync.Once whose function is being followed
	quiet     int
	steps     int
	maxSteps  int
	allocs    int64
	undecided []string
	visited   map[*ssa.Function]bool
	loopDepth int
}

func newX(p *Prog) *X {
	return &X{p: p, maxSteps: 4000000, visited: map[*ssa.Function]bool{}}
}

type Defer struct {
	parent *Defer
	callee Callee
	pos    token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers *Defer
	caller *Frame
	depth  int
	pos    token.Pos // call position
}

func (fr *Frame) clone() *Frame {
	g := *fr
	g.env = make(map[ssa.Value]*Term, len(fr.env)+8)
	for k, v := range fr.env {
		g.env[k] = v
	}
	return &g
}

func (fr *Frame) stack() []string {
	var r []string
	for f := fr; f != nil; f = f.caller {
		r = append(r, f.fn.String())
	}
	return r
}

type OutKind int

const (
	OutRet OutKind = iota
	OutBack
	OutExit
	OutPanic
	OutStop // path abandoned (blocks forever, budget)
)

type Out struct {
	kind OutKind
	st   State
	fr   *Frame
	ret  *Term // OutRet: value or tuple
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	pos  token.Pos
}

type CallOut struct {
	st    State
	ret   *Term
	panic bool
	stop  bool
	pos   token.Pos
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (x *X) fail(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for _, u := range x.undecided {
		if u == s {
			return
		}
	}
	x.undecided = append(x.undecided, s)
}

// Run evaluates fn on args from st.
func (x *X) Run(fn *ssa.Function, args []*Term, bindings []*Term, st State, caller *Frame, pos token.Pos) []CallOut {
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, caller: caller, pos: pos}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 40 {
		x.fail("call depth exceeded at %s", fn)
		return nil
	}
	for f := caller; f != nil; f = f.caller {
		if f.fn == fn {
			n := 0
			for g := caller; g != nil; g = g.caller {
				if g.fn == fn {
					n++
				}
			}
			if n > 3 {
				x.fail("recursion in %s", fn)
				return nil
			}
		}
	}
	x.visited[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[fv] = bindings[i]
		}
	}
	if len(fn.Blocks) == 0 {
		x.fail("no body for %s", fn)
		return nil
	}
	outs := x.enter(fr, nil, fn.Blocks[0], st, nil)
	var r []CallOut
	for _, o := range outs {
		switch o.kind {
		case OutRet:
			r = append(r, CallOut{st: o.st, ret: o.ret, pos: o.pos})
		case OutPanic:
			r = append(r, CallOut{st: o.st, panic: true, pos: o.pos})
		case OutStop:
			r = append(r, CallOut{st: o.st, stop: true, pos: o.pos})
		}
	}
	return r
}

// loops of a function

type loopInfoS struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfoS{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfoS {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*loopInfoS{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := r[s]
				if li == nil {
					li = &loopInfoS{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[c] {
						continue
					}
					li.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	loopCache[fn] = r
	return r
}

// enter transfers control from block `from` to block `to`.
func (x *X) enter(fr *Frame, from, to *ssa.BasicBlock, st State, lc *loopCtx) []Out {
	if st.facts.dead {
		return nil
	}
	if lc != nil {
		if to == lc.header && from != nil {
			return []Out{{kind: OutBack, st: st, fr: fr, from: from, to: to}}
		}
		if !lc.blocks[to] {
			return []Out{{kind: OutExit, st: st, fr: fr, from: from, to: to}}
		}
	}
	if li := loopsOf(fr.fn)[to]; li != nil {
		outs, done := x.varintLoop(fr, from, li, st)
		if !done {
			outs, done = x.unroll(fr, from, li, st)
		}
		if !done {
			outs = x.ssaLoop(fr, from, li, st)
		}
		var r []Out
		for _, o := range outs {
			if o.kind == OutExit {
				r = append(r, x.enter(o.fr, o.from, o.to, o.st, lc)...)
			} else {
				r = append(r, o)
			}
		}
		return r
	}
	// phis
	fr = x.setPhis(fr, from, to)
	return x.block(fr, to, nphis(to), st, lc)
}

func nphis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	return n
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (x *X) setPhis(fr *Frame, from, to *ssa.BasicBlock) *Frame {
	n := nphis(to)
	if n == 0 {
		return fr
	}
	k := predIndex(from, to)
	vals := make([]*Term, n)
	for i := 0; i < n; i++ {
		vals[i] = x.val(fr, to.Instrs[i].(*ssa.Phi).Edges[k])
	}
	for i := 0; i < n; i++ {
		fr.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	return fr
}

// val evaluates an SSA operand.
func (x *X) val(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Global:
		return intern("glob|"+v.String(), func() *Term {
			return &Term{op: OGlobal, s: v.String(), typ: v.Type(), info: v}
		})
	case *ssa.Builtin:
		return intern("builtin|"+v.Name(), func() *Term { return &Term{op: OSym, s: v.Name(), nonnil: true} })
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	x.fail("value %s of %s not available", v.Name(), fr.fn)
	t := freshSym("undef", v.Type())
	fr.env[v] = t
	return t
}

func (x *X) block(fr *Frame, b *ssa.BasicBlock, idx int, st State, lc *loopCtx) []Out {
	for i := idx; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps {
			x.fail("analysis budget exceeded in %s", fr.fn)
			return []Out{{kind: OutStop, st: st, fr: fr}}
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.If:
			c := x.val(fr, in.Cond)
			switch st.facts.decide(c) {
			case 1:
				return x.enter(fr, b, b.Succs[0], st, lc)
			case -1:
				return x.enter(fr, b, b.Succs[1], st, lc)
			}
			s1, s2 := st, st
			s1.facts = st.facts.assumeRaw(c)
			s2.facts = st.facts.assumeRaw(mkNot(c))
			r := x.enter(fr.clone(), b, b.Succs[0], s1, lc)
			return append(r, x.enter(fr, b, b.Succs[1], s2, lc)...)
		case *ssa.Jump:
			return x.enter(fr, b, b.Succs[0], st, lc)
		case *ssa.Return:
			var t *Term
			switch len(in.Results) {
			case 0:
				t = mk(OTuple, nil, "", 0)
			case 1:
				t = x.val(fr, in.Results[0])
			default:
				var as []*Term
				for _, v := range in.Results {
					as = append(as, x.val(fr, v))
				}
				t = mk(OTuple, nil, "", 0, as...)
			}
			return []Out{{kind: OutRet, st: st, fr: fr, ret: t, pos: in.Pos()}}
		case *ssa.Panic:
			if h := x.p.hz; h != nil && x.quiet == 0 && !st.facts.dead {
				h.bad(in.Pos(), "panic", "panics")
			}
			return []Out{{kind: OutPanic, st: st, fr: fr, pos: in.Pos()}}
		case *ssa.RunDefers:
			outs := x.runDefers(fr, st)
			if len(outs) == 1 && !outs[0].panic && !outs[0].stop {
				st = outs[0].st
				fr.defers = nil
				continue
			}
			var r []Out
			for k, o := range outs {
				if o.panic || o.stop {
					kd := OutPanic
					if o.stop {
						kd = OutStop
					}
					r = append(r, Out{kind: kd, st: o.st, fr: fr, pos: in.Pos()})
					continue
				}
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.defers = nil
				r = append(r, x.block(f2, b, i+1, o.st, lc)...)
			}
			return r
		case *ssa.Defer:
			cal := x.prepare(fr, &st, &in.Call)
			if h := x.p.hz; h != nil && x.quiet == 0 && !st.facts.dead {
				h.callee(x, &st, cal, in.Pos())
			}
			fr.defers = &Defer{fr.defers, cal, in.Pos()}
			x.emit(&st, fr, &Ev{kind: "defer", name: cal.name(), fn: cal.fn, args: cal.args, pos: in.Pos(), dyn: cal.dyn})
			continue
		case *ssa.Call:
			cal := x.prepare(fr, &st, &in.Call)
			outs := x.call(fr, st, cal, in.Pos(), in.Type())
			if len(outs) == 1 && !outs[0].panic && !outs[0].stop {
				st = outs[0].st
				fr.env[in] = outs[0].ret
				if st.facts.dead {
					return nil
				}
				continue
			}
			var r []Out
			for k, o := range outs {
				if o.st.facts.dead {
					continue
				}
				if o.panic || o.stop {
					kd := OutPanic
					if o.stop {
						kd = OutStop
					}
					r = append(r, Out{kind: kd, st: o.st, fr: fr, pos: o.pos})
					continue
				}
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.env[in] = o.ret
				r = append(r, x.block(f2, b, i+1, o.st, lc)...)
			}
			return r
		case *ssa.Select:
			return x.selectInstr(fr, b, i, in, st, lc)
		case *ssa.TypeAssert:
			if h := x.p.hz; h != nil && x.quiet == 0 && !in.CommaOk {
				h.assertion(x, fr, &st, in)
			}
			alts := x.typeAssert(fr, in, st)
			if len(alts) == 1 {
				st = alts[0].st
				fr.env[in] = alts[0].ret
				continue
			}
			var r []Out
			for k, o := range alts {
				f2 := fr
				if k < len(alts)-1 {
					f2 = fr.clone()
				}
				f2.env[in] = o.ret
				r = append(r, x.block(f2, b, i+1, o.st, lc)...)
			}
			return r
		case *ssa.Lookup:
			alts := x.lookup(fr, in, st)
			if alts == nil {
				x.instr(fr, in, &st)
				continue
			}
			var r []Out
			for k, o := range alts {
				f2 := fr
				if k < len(alts)-1 {
					f2 = fr.clone()
				}
				f2.env[in] = o.ret
				r = append(r, x.block(f2, b, i+1, o.st, lc)...)
			}
			return r
		default:
			x.instr(fr, in, &st)
			if st.facts.dead {
				return nil
			}
		}
	}
	return nil
}

func (x *X) emit(st *State, fr *Frame, e *Ev) {
	e.st = *st
	e.in = fr.fn
	e.once = x.once
	e.stack = fr.stack()
	st.emit(e)
}

func (x *X) runDefers(fr *Frame, st State) []CallOut {
	if fr.defers == nil {
		return []CallOut{{st: st}}
	}
	d := fr.defers
	states := []CallOut{{st: st}}
	for ; d != nil; d = d.parent {
		var next []CallOut
		for _, s := range states {
			if s.panic || s.stop {
				next = append(next, s)
				continue
			}
			next = append(next, x.call(fr, s.st, d.callee, d.pos, nil)...)
		}
		states = next
	}
	return states
}

func (x *X) selectInstr(fr *Frame, b *ssa.BasicBlock, i int, in *ssa.Select, st State, lc *loopCtx) []Out {
	var cases []SelCase
	for _, s := range in.States {
		c := SelCase{send: s.Dir == types.SendOnly, ch: x.val(fr, s.Chan)}
		if s.Send != nil {
			c.val = x.val(fr, s.Send)
		}
		cases = append(cases, c)
	}
	var r []Out
	n := len(cases)
	first := 0
	if !in.Blocking {
		first = -1
	}
	if n == 0 && in.Blocking {
		return []Out{{kind: OutStop, st: st, fr: fr, pos: in.Pos()}}
	}
	for k := first; k < n; k++ {
		s2 := st
		f2 := fr.clone()
		ev := &Ev{kind: "select", cases: cases, chosen: k, block: in.Blocking, pos: in.Pos()}
		x.emit(&s2, f2, ev)
		// tuple: index, recvOk, recv values...
		tt := in.Type().(*types.Tuple)
		as := []*Term{mkInt(int64(k)), freshSym("recvok", types.Typ[types.Bool])}
		ri := 0
		for j, s := range in.States {
			if s.Dir == types.RecvOnly {
				typ := tt.At(2 + ri).Type()
				if j == k {
					v := freshSym("recv", typ)
					v.info = ev
					ev.res = v
					as = append(as, v)
				} else {
					as = append(as, zeroTerm(typ))
				}
				ri++
			}
		}
		f2.env[in] = mk(OTuple, nil, "", 0, as...)
		r = append(r, x.block(f2, b, i+1, s2, lc)...)
	}
	return r
}

func (x *X) typeAssert(fr *Frame, in *ssa.TypeAssert, st State) []CallOut {
	v := st.facts.resolve(x.val(fr, in.X))
	okT := func(val *Term, ok bool) *Term {
		if in.CommaOk {
			return mk(OTuple, nil, "", 0, val, mkBool(ok))
		}
		return val
	}
	iface, isI := in.AssertedType.Underlying().(*types.Interface)
	if v.op == OIface {
		var ok bool
		if isI {
			ok = types.Implements(v.typ, iface)
		} else {
			ok = types.Identical(v.typ, in.AssertedType)
		}
		if ok {
			if isI {
				return []CallOut{{st: st, ret: okT(v, true)}}
			}
			return []CallOut{{st: st, ret: okT(v.args[0], true)}}
		}
		if in.CommaOk {
			return []CallOut{{st: st, ret: okT(zeroTerm(in.AssertedType), false)}}
		}
		return nil
	}
	if v.isNil() {
		if in.CommaOk {
			return []CallOut{{st: st, ret: okT(zeroTerm(in.AssertedType), false)}}
		}
		return nil
	}
	res := mk(OPure, in.AssertedType, "assert:"+types.TypeString(in.AssertedType, nil), 0, v)
	is := mk(OPure, types.Typ[types.Bool], "is:"+types.TypeString(in.AssertedType, nil), 0, v)
	if !in.CommaOk {
		return []CallOut{{st: st, ret: res}}
	}
	switch st.facts.decide(is) {
	case 1:
		return []CallOut{{st: st, ret: okT(res, true)}}
	case -1:
		return []CallOut{{st: st, ret: okT(zeroTerm(in.AssertedType), false)}}
	}
	s1, s2 := st, st
	s1.facts = st.facts.assumeRaw(is)
	s1.facts = s1.facts.assume(mkNot(mkEq(v, termNil)))
	s2.facts = st.facts.assumeRaw(mkNot(is))
	return []CallOut{{st: s1, ret: okT(res, true)}, {st: s2, ret: okT(zeroTerm(in.AssertedType), false)}}
}

func (x *X) alloc(typ types.Type, name string) *Term {
	x.allocs++
	n := x.allocs
	return intern(fmt.Sprintf("alloc|%d|%s|%s", n, name, typ), func() *Term {
		return &Term{op: OAlloc, typ: types.NewPointer(typ), n: n, s: name}
	})
}

func (x *X) makeSlice(typ types.Type, n *Term) *Term {
	x.allocs++
	return mk(OMakeSlice, typ, "", x.allocs, n)
}

// convInt models conversion of v to integer type to.
func (x *X) convInt(st *State, v *Term, to types.Type) *Term {
	if n, ok := v.intVal(); ok {
		return mkInt(wrapConst(n, to))
	}
	lo, hi, ok := intRange(to)
	if !ok {
		return mk(OConv, to, "", 0, v)
	}
	l := linOf(v)
	// fits?
	okLo, okHi := false, false
	if n, ok := constant.Int64Val(lo); ok {
		if n == -1<<63 {
			okLo = true
		} else {
			okLo = st.facts.entailsGE(l.addc(-n))
		}
	}
	if n, ok := constant.Int64Val(hi); ok {
		okHi = st.facts.entailsGE(l.scale(-1).addc(n))
		if !okHi && n == 1<<63-1 {
			okHi = signed(v.typ) || v.op == OLin
		}
	} else {
		okHi = true // uint64
	}
	if okLo && okHi {
		return v
	}
	return mk(OConv, to, "", 0, v)
}

func signed(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func intWidth(t types.Type) int {
	if t == nil {
		return 64
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func wrapConst(n int64, to types.Type) int64 {
	b, ok := to.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

// mkByte: byte k (0 = least significant) of integer v.
func mkByte(v *Term, k int64) *Term {
	for {
		if v.op == OConv && isInt(v.typ) && int64(intWidth(v.typ)) >= 8*(k+1) {
			v = v.args[0]
			continue
		}
		if v.op == OBin && v.s == ">>" {
			if n, ok := v.args[1].intVal(); ok && n%8 == 0 && n >= 0 {
				v, k = v.args[0], k+n/8
				continue
			}
		}
		break
	}
	if n, ok := v.intVal(); ok {
		return mkInt(int64(byte(n >> uint(8*k))))
	}
	if v.op == OByte && k == 0 {
		return v
	}
	return mk(OByte, types.Typ[types.Uint8], "", k, v)
}

func (x *X) binop(st *State, in *ssa.BinOp, a, b *Term) *Term {
	typ := in.Type()
	opTyp := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt(opTyp) {
			la, lb := linOf(a), linOf(b)
			switch in.Op {
			case token.EQL:
				return mkEQ0(la.sub(lb))
			case token.NEQ:
				return mkNot(mkEQ0(la.sub(lb)))
			case token.LSS:
				return mkGE0(lb.sub(la).addc(-1))
			case token.LEQ:
				return mkGE0(lb.sub(la))
			case token.GTR:
				return mkGE0(la.sub(lb).addc(-1))
			case token.GEQ:
				return mkGE0(la.sub(lb))
			}
		}
		// s == "" and len(s) == 0 agree
		if isString(opTyp) && (in.Op == token.EQL || in.Op == token.NEQ) {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if p[1].op == OConst && p[1].cv != nil && constant.StringVal(p[1].cv) == "" {
					t := mkEQ0(linOf(mkLen(p[0])))
					if in.Op == token.NEQ {
						t = mkNot(t)
					}
					return t
				}
			}
		}
		return mkCmp(in.Op, a, b)
	}
	if isInt(typ) {
		var r *Term
		switch in.Op {
		case token.ADD:
			r = mkAdd(a, b)
		case token.SUB:
			r = mkSub(a, b)
		case token.MUL:
			r = mkMul(a, b)
		}
		if r != nil {
			if n, ok := r.intVal(); ok {
				return mkInt(wrapConst(n, typ))
			}
			if x.overflow {
				return x.convInt2(st, r, typ)
			}
			return r
		}
		na, oka := a.intVal()
		nb, okb := b.intVal()
		if oka && okb {
			ca, cb := constant.MakeInt64(na), constant.MakeInt64(nb)
			switch in.Op {
			case token.QUO:
				if nb != 0 {
					return mkInt(na / nb)
				}
			case token.REM:
				if nb != 0 {
					return mkInt(na % nb)
				}
			case token.AND, token.OR, token.XOR, token.AND_NOT:
				v, _ := constant.Int64Val(constant.BinaryOp(ca, in.Op, cb))
				return mkInt(v)
			case token.SHL:
				if nb < 63 {
					return mkInt(wrapConst(na<<uint(nb), typ))
				}
			case token.SHR:
				if nb < 64 && nb >= 0 {
					return mkInt(na >> uint(nb))
				}
			}
		}
		if in.Op == token.REM {
			f := st.facts
			if f.entailsGE(linOf(a)) && f.lt(a, b) {
				return a
			}
			if f.eq(a, b) && f.lt(mkInt(0), b) {
				return mkInt(0)
			}
			t := mk(OBin, typ, "%", 0, a, b)
			if f.entailsGE(linOf(a)) && f.lt(mkInt(0), b) {
				st.facts = f.assume(mkGE0(linOf(t))).assume(mkGE0(linOf(b).sub(linOf(t)).addc(-1)))
			}
			return t
		}
		if in.Op == token.SHL && okb && nb < 62 {
			if !x.overflow {
				if t := mkShiftedByte(a, nb, typ); t != nil {
					return t
				}
			}
		}
		if in.Op == token.OR || in.Op == token.ADD {
			if oka && na == 0 {
				return b
			}
			if okb && nb == 0 {
				return a
			}
			if t := joinBytes(a, b, typ); t != nil {
				return t
			}
		}
		return mk(OBin, typ, in.Op.String(), 0, a, b)
	}
	if isString(typ) && in.Op == token.ADD {
		return mk(OPure, typ, "concat", 0, a, b)
	}
	if isBool(typ) {
		return mk(OBin, typ, in.Op.String(), 0, a, b)
	}
	if a.op == OConst && b.op == OConst && a.cv != nil && b.cv != nil {
		return mkConst(constant.BinaryOp(a.cv, in.Op, b.cv), typ)
	}
	return mk(OBin, typ, in.Op.String(), 0, a, b)
}

// bytes assembled with shifts: OBin "<<" byte n, and "|" of those.
func mkShiftedByte(a *Term, n int64, typ types.Type) *Term {
	if c, ok := a.intVal(); ok && c == 0 {
		return mkInt(0)
	}
	return mk(OBin, typ, "<<", n, a)
}

// joinBytes recognises big endian assembly of adjacent bytes.
func joinBytes(a, b *Term, typ types.Type) *Term {
	type part struct {
		sh int64
		v  *Term
	}
	var parts []part
	// the bytes t consists of; none may be cut off by the width of a step
	var collect func(t *Term) []part
	collect = func(t *Term) []part {
		var r []part
		switch {
		case t.op == OIndex && intWidth(t.typ) == 8:
			return []part{{0, t}}
		case t.op == OConv && isInt(t.typ):
			r = collect(t.args[0])
		case t.op == OBin && t.s == "<<" && len(t.args) == 1:
			for _, p := range collect(t.args[0]) {
				r = append(r, part{p.sh + t.n, p.v})
			}
		case t.op == OPure && t.s == "joined":
			for _, c := range t.args {
				q := collect(c)
				if q == nil {
					return nil
				}
				r = append(r, q...)
			}
		}
		for _, p := range r {
			if p.sh+8 > int64(intWidth(t.typ)) {
				return nil
			}
		}
		return r
	}
	pa, pb := collect(a), collect(b)
	if pa == nil || pb == nil {
		return nil
	}
	parts = append(append(parts, pa...), pb...)
	sort.Slice(parts, func(i, j int) bool { return parts[i].sh > parts[j].sh })
	n := len(parts)
	ok := parts[0].sh == int64(8*(n-1)) && (n == 2 || n == 4 || n == 8) && intWidth(typ) == 8*n
	for i := 0; ok && i < n; i++ {
		p := parts[i]
		if p.sh != int64(8*(n-1-i)) || p.v.args[0] != parts[0].v.args[0] {
			ok = false
			break
		}
		d := linOf(p.v.args[1]).sub(linOf(parts[0].v.args[1]))
		if len(d.m) != 0 || d.c != int64(i) {
			ok = false
		}
	}
	if ok {
		u := map[int]types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n]
		rd := mk(ORdBE, u, "", int64(n), parts[0].v.args[0], parts[0].v.args[1])
		if signed(typ) {
			return mk(OConv, typ, "", 0, rd)
		}
		return rd
	}
	return mk(OPure, typ, "joined", 0, a, b)
}

// convInt2 gives the value of signed arithmetic whose mathematical result is
// v: v itself if it is known to be representable.
func (x *X) convInt2(st *State, v *Term, to types.Type) *Term {
	if intWidth(to) != 64 || !signed(to) {
		return x.convInt(st, v, to)
	}
	l := linOf(v)
	f := st.facts
	hi := f.entailsGE(l.scale(-1).addc(1 << 61))
	lo := f.entailsGE(l.addc(1 << 61))
	if hi && lo {
		return v
	}
	// between two representable values
	seen := map[*Term]bool{}
	try := func(a *Term) {
		if seen[a] || hi && lo || !isInt(a.typ) || intWidth(a.typ) == 64 && !signed(a.typ) {
			return
		}
		seen[a] = true
		la := linOf(a)
		hi = hi || f.entailsGE(la.sub(l))
		lo = lo || f.entailsGE(l.sub(la))
	}
	for _, m := range l.m {
		try(m.atom)
	}
	for y := f; y != nil; y = y.parent {
		if y.ge != nil {
			for _, m := range y.ge.m {
				try(m.atom)
			}
		}
	}
	if hi && lo {
		return v
	}
	return mk(OConv, to, "wrap", 0, v)
}

func (x *X) convert(fr *Frame, in *ssa.Convert, st *State, v *Term) *Term {
	from, to := in.X.Type(), in.Type()
	switch {
	case isInt(from) && isInt(to):
		if x.onConv != nil && x.quiet == 0 {
			x.onConv(st, fr, in.Pos(), v, to)
		}
		if intWidth(to) == 8 {
			// byte extraction
			if v.op == OBin && v.s == ">>" || v.op == OBin && v.s == "&" {
				w := v
				if w.s == "&" {
					if n, ok := w.args[1].intVal(); ok && n == 255 {
						w = w.args[0]
					}
				}
				if w.op == OBin && w.s == ">>" || w != v {
					return mkByte(w, 0)
				}
			}
		}
		return x.convInt(st, v, to)
	case isString(to) && isByteSlice(from):
		if x.onRead != nil && x.quiet == 0 {
			x.onRead(st, fr, in.Pos(), v)
		}
		if v.isNil() {
			return mkStr("")
		}
		return mk(OConv, to, "bytes", 0, x.snapshot(st, v))
	case isByteSlice(to) && isString(from):
		s := x.makeSlice(to, mkLen(v))
		st.setRegion(s, mk(OCopyOf, nil, "", 0, v))
		return s
	}
	if v.op == OConst && v.cv != nil {
		if isInt(to) {
			iv := constant.ToInt(v.cv)
			if iv.Kind() == constant.Int {
				return mkConst(iv, to)
			}
		}
		return mkConst(v.cv, to)
	}
	return mk(OConv, to, "", 0, v)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && intWidth(s.Elem()) == 8 && isInt(s.Elem())
}

// snapshot gives a term for the current contents of byte slice v.
func (x *X) snapshot(st *State, v *Term) *Term {
	base, lo := v, mkInt(0)
	if v.op == OSlice {
		base, lo = v.args[0], v.args[1]
	}
	if c := st.regionContents(base); c != nil {
		if c.op == OCopyOf {
			l := mkLen(v)
			return mkSlice(c.args[0], lo, mkAdd(lo, l), v.typ)
		}
		return mk(OSlice, v.typ, "content", 0, c, lo, mkAdd(lo, mkLen(v)))
	}
	return v
}

func (x *X) instr(fr *Frame, in ssa.Instruction, st *State) {
	if h := x.p.hz; h != nil && x.quiet == 0 {
		h.instr(x, fr, st, in)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[in] = x.alloc(in.Type().Underlying().(*types.Pointer).Elem(), in.Comment)
	case *ssa.BinOp:
		fr.env[in] = x.binop(st, in, x.val(fr, in.X), x.val(fr, in.Y))
	case *ssa.UnOp:
		v := x.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			fr.env[in] = x.loadAt(fr, st, v, in.Type(), in.Pos())
		case token.NOT:
			fr.env[in] = mkNot(v)
		case token.SUB:
			if isInt(in.Type()) {
				fr.env[in] = linOf(v).scale(-1).term()
			} else {
				fr.env[in] = mk(OUn, in.Type(), "-", 0, v)
			}
		case token.ARROW:
			ev := &Ev{kind: "recv", args: []*Term{v}, pos: in.Pos()}
			x.emit(st, fr, ev)
			et := elemType(in.X.Type())
			r := freshSym("recv", et)
			r.info = ev
			ev.res = r
			if in.CommaOk {
				fr.env[in] = mk(OTuple, nil, "", 0, r, freshSym("recvok", types.Typ[types.Bool]))
			} else {
				fr.env[in] = r
			}
		default:
			fr.env[in] = mk(OUn, in.Type(), in.Op.String(), 0, v)
		}
	case *ssa.ChangeType:
		v := x.val(fr, in.X)
		fr.env[in] = v
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, in.X)
	case *ssa.MakeInterface:
		v := x.val(fr, in.X)
		fr.env[in] = mk(OIface, in.X.Type(), "", 0, v)
	case *ssa.Convert:
		fr.env[in] = x.convert(fr, in, st, x.val(fr, in.X))
	case *ssa.MultiConvert:
		fr.env[in] = freshSym("conv", in.Type())
	case *ssa.Extract:
		t := x.val(fr, in.Tuple)
		if t.op == OTuple {
			fr.env[in] = t.args[in.Index]
		} else {
			fr.env[in] = mk(OField, in.Type(), "extract", int64(in.Index), t)
		}
	case *ssa.FieldAddr:
		fr.env[in] = mkFieldAddr(x.val(fr, in.X), in.Field, in.Type())
	case *ssa.Field:
		fr.env[in] = mkField(x.val(fr, in.X), in.Field, in.Type())
	case *ssa.IndexAddr:
		b, i := x.val(fr, in.X), x.val(fr, in.Index)
		x.obIndex(st, fr, in.Pos(), b, i, mkLen(b))
		fr.env[in] = mkIndexAddr(b, i, in.Type())
	case *ssa.Index:
		b, i := x.val(fr, in.X), x.val(fr, in.Index)
		x.obIndex(st, fr, in.Pos(), b, i, mkLen(b))
		fr.env[in] = mkIndex(b, i, in.Type())
	case *ssa.Slice:
		b := x.val(fr, in.X)
		var lo, hi, max *Term
		if in.Low != nil {
			lo = x.val(fr, in.Low)
		}
		if in.High != nil {
			hi = x.val(fr, in.High)
		}
		if in.Max != nil {
			max = x.val(fr, in.Max)
		}
		x.obSlice(st, fr, in.Pos(), b, lo, hi, max)
		fr.env[in] = mkSlice(b, lo, hi, in.Type())
	case *ssa.MakeSlice:
		n := x.val(fr, in.Len)
		x.obMake(st, fr, in.Pos(), n, in.Type())
		if c := x.val(fr, in.Cap); c != n {
			x.obMake(st, fr, in.Pos(), c, in.Type())
		}
		fr.env[in] = x.makeSlice(in.Type(), n)
	case *ssa.MakeChan:
		x.allocs++
		fr.env[in] = mk(OMakeChan, in.Type(), "", x.allocs, x.val(fr, in.Size))
	case *ssa.MakeMap:
		x.allocs++
		fr.env[in] = mk(OMakeMap, in.Type(), "", x.allocs)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		fr.env[in] = mkClosure(in.Fn.(*ssa.Function), bs)
	case *ssa.Store:
		x.storeAt(fr, st, x.val(fr, in.Addr), x.val(fr, in.Val), in.Val.Type(), in.Pos())
	case *ssa.MapUpdate:
		x.emit(st, fr, &Ev{kind: "mapset", args: []*Term{x.val(fr, in.Map), x.val(fr, in.Key), x.val(fr, in.Value)}, pos: in.Pos()})
	case *ssa.Lookup:
		b, k := x.val(fr, in.X), x.val(fr, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			x.obIndex(st, fr, in.Pos(), b, k, mkLen(b))
			fr.env[in] = mkIndex(b, k, in.Type())
			return
		}
		ev := &Ev{kind: "mapget", args: []*Term{b, k}, pos: in.Pos()}
		x.emit(st, fr, ev)
		vt := in.Type()
		if in.CommaOk {
			vt = vt.(*types.Tuple).At(0).Type()
		}
		v := freshSym("mapval", vt)
		v.info = ev
		ev.res = v
		if in.CommaOk {
			ok := freshSym("ok", types.Typ[types.Bool])
			ok.info = ev
			ev.res = mk(OTuple, nil, "", 0, v, ok)
			fr.env[in] = ev.res
		} else {
			fr.env[in] = v
		}
	case *ssa.Range:
		fr.env[in] = mk(OPure, nil, "iter", int64(x.nextID()), x.val(fr, in.X))
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		it := x.val(fr, in.Iter)
		var as []*Term
		ev := &Ev{kind: "next", args: []*Term{it.args[0]}, pos: in.Pos()}
		x.emit(st, fr, ev)
		for i := 0; i < 3; i++ {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				as = append(as, termNil)
				continue
			}
			v := freshSym([]string{"ok", "key", "value"}[i], t)
			v.info = ev
			as = append(as, v)
		}
		ev.res = mk(OTuple, nil, "", 0, as...)
		fr.env[in] = ev.res
	case *ssa.Send:
		x.emit(st, fr, &Ev{kind: "send", args: []*Term{x.val(fr, in.Chan), x.val(fr, in.X)}, pos: in.Pos()})
	case *ssa.Go:
		cal := x.prepare(fr, st, &in.Call)
		if h := x.p.hz; h != nil && x.quiet == 0 {
			h.callee(x, st, cal, in.Pos())
		}
		x.emit(st, fr, &Ev{kind: "go", name: cal.name(), fn: cal.fn, args: cal.args, binds: cal.binds, dyn: cal.dyn, pos: in.Pos()})
	case *ssa.SliceToArrayPointer:
		fr.env[in] = freshSym("arrptr", in.Type())
	default:
		x.fail("%s: instruction %T not modelled", fr.fn, in)
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = freshSym("unmodelled", v.Type())
		}
	}
}

func (x *X) nextID() int64 { x.allocs++; return x.allocs }

func (x *X) loadAt(fr *Frame, st *State, p *Term, typ types.Type, pos token.Pos) *Term {
	if x.watch != nil && x.watch(p) {
		ev := &Ev{kind: "load", args: []*Term{p}, pos: pos}
		prev := x.unchanged(st, p)
		x.emit(st, fr, ev)
		if x.mutable != nil && x.mutable(p) {
			if prev != nil {
				ev.res = prev
				return prev
			}
			v := freshSym(locName(p), typ)
			v.info = ev
			ev.res = v
			return v
		}
		if p.op != OGlobal {
			ev.res = st.load(p, typ)
			return ev.res
		}
	}
	if x.onLoad != nil {
		if v := x.onLoad(x, st, fr, pos, p, typ); v != nil {
			return v
		}
	}
	if p.op == OGlobal {
		for h := st.heap; h != nil; h = h.parent {
			if h.key == p {
				return h.val
			}
		}
		return x.p.globalValue(p.info.(*ssa.Global), typ)
	}
	return st.load(p, typ)
}

// unchanged: the value of a location that others may write, if it was accessed
// since a lock was taken that is still held. Nobody else writes it then, or the
// location is not guarded by one lock, which is a finding of its own (C13).
func (x *X) unchanged(st *State, p *Term) *Term {
	if x.mutable == nil || !x.mutable(p) {
		return nil
	}
	var v *Term
	for n := st.trace; n != nil && n.ev != nil; n = n.prev {
		e := n.ev
		switch op, _ := lockOp(e); {
		case op == "lock" || op == "rlock":
			return v
		case op != "" || e.kind == "loop" || e.kind == "atomic":
			return nil
		case v != nil:
		case e.kind == "store" && e.args[0] == p:
			v = e.args[1]
		case e.kind == "load" && e.args[0] == p:
			v = e.res
		}
	}
	return nil
}

func (x *X) storeAt(fr *Frame, st *State, p, v *Term, typ types.Type, pos token.Pos) {
	if x.onStore != nil && x.quiet == 0 {
		x.onStore(st, fr, pos, p, v)
	}
	if !freshRoot(p) || x.watch != nil && x.watch(p) {
		x.emit(st, fr, &Ev{kind: "store", args: []*Term{p, v}, pos: pos})
	}
	if st.closeVarint(p, v) {
		return
	}
	st.store(p, v, typ)
}

// ---- globals ----

type globalInfo struct {
	val   *Term
	multi bool
}

func (p *Prog) globalValue(g *ssa.Global, typ types.Type) *Term {
	if p.glob == nil {
		p.glob = map[*ssa.Global]*globalInfo{}
		for _, fn := range p.allFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					gg, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					gi := p.glob[gg]
					if gi != nil || fn.Name() != "init" {
						p.glob[gg] = &globalInfo{multi: true}
						continue
					}
					gi = &globalInfo{}
					switch v := s.Val.(type) {
					case *ssa.Const:
						if v.Value == nil {
							gi.val = zeroTerm(v.Type())
						} else {
							gi.val = mkConst(v.Value, v.Type())
						}
					case *ssa.Call:
						if c := v.Call.StaticCallee(); c != nil && (c.String() == "errors.New" || c.String() == "fmt.Errorf") {
							t := namedSym(gg.Name(), typeOfGlobal(gg))
							t.nonnil = true
							gi.val = t
						}
					case *ssa.Alloc:
						t := namedSym(gg.Name(), typeOfGlobal(gg))
						t.nonnil = true
						gi.val = t
					}
					p.glob[gg] = gi
				}
			}
		}
	}
	if gi := p.glob[g]; gi != nil && !gi.multi && gi.val != nil {
		return gi.val
	}
	t := namedSym(g.Pkg.Pkg.Name()+"."+g.Name(), typ)
	if p.glob[g] == nil && isErrorType(typ) && !p.isRepoPkg(g.Pkg) {
		t.nonnil = true // sentinel errors of the standard library
	}
	return t
}

func typeOfGlobal(g *ssa.Global) types.Type { return pointee(g.Type()) }

func (p *Prog) isRepoPkg(k *ssa.Package) bool {
	for _, x := range p.pkgs {
		if x == k {
			return true
		}
	}
	return false
}

func (p *Prog) allFuncs() []*ssa.Function {
	var names []string
	for n := range p.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	var r []*ssa.Function
	for _, n := range names {
		r = append(r, p.funcs[n])
	}
	return r
}

// ---- calls ----

type Callee struct {
	fn      *ssa.Function
	binds   []*Term
	builtin string
	recv    *Term // invoke
	method  *types.Func
	dyn     *Term
	args    []*Term
	argT    []types.Type
	common  *ssa.CallCommon
}

func (c Callee) name() string {
	switch {
	case c.fn != nil:
		return c.fn.String()
	case c.builtin != "":
		return c.builtin
	case c.method != nil:
		return c.method.FullName()
	case c.dyn != nil:
		return "dynamic"
	}
	return "?"
}

func (x *X) prepare(fr *Frame, st *State, c *ssa.CallCommon) Callee {
	var r Callee
	r.common = c
	for _, a := range c.Args {
		r.args = append(r.args, x.val(fr, a))
		r.argT = append(r.argT, a.Type())
	}
	if c.IsInvoke() {
		r.recv = st.facts.resolve(x.val(fr, c.Value))
		r.method = c.Method
		if r.recv.op == OIface {
			if m := x.p.ssa.LookupMethod(r.recv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				r.fn = m
				r.args = append([]*Term{r.recv.args[0]}, r.args...)
				r.argT = append([]types.Type{r.recv.typ}, r.argT...)
				r.method = nil
				r.recv = nil
			}
		}
		return r
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r.builtin = b.Name()
		return r
	}
	if f := c.StaticCallee(); f != nil {
		r.fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				r.binds = append(r.binds, x.val(fr, b))
			}
		}
		return r
	}
	v := x.val(fr, c.Value)
	if v.op == OFunc || v.op == OClosure {
		r.fn = v.fn
		r.binds = v.args
		return r
	}
	r.dyn = v
	return r
}

// callTerm calls a function value.
func (x *X) callTerm(fr *Frame, st State, f *Term, args []*Term, pos token.Pos) []CallOut {
	if f.op == OFunc || f.op == OClosure {
		return x.call(fr, st, Callee{fn: f.fn, binds: f.args, args: args}, pos, nil)
	}
	return x.call(fr, st, Callee{dyn: f, args: args}, pos, nil)
}

func (x *X) call(fr *Frame, st State, c Callee, pos token.Pos, typ types.Type) []CallOut {
	if h := x.p.hz; h != nil && x.quiet == 0 {
		h.callee(x, &st, c, pos)
	}
	if c.builtin != "" {
		return x.builtin(fr, st, c, pos, typ)
	}
	if c.fn != nil {
		if x.atomic != nil && x.atomic(c.fn) {
			ev := &Ev{kind: "call", name: c.fn.String(), fn: c.fn, args: c.args, pos: pos}
			x.emit(&st, fr, ev)
			if x.onAtomic != nil {
				if r := x.onAtomic(x, st, fr, c.fn, c.args, ev); r != nil {
					return r
				}
			}
			ev.res = x.results(ev, c.fn.Signature.Results(), shortName(c.fn))
			return []CallOut{{st: st, ret: ev.res}}
		}
		if m, ok := models[c.fn.String()]; ok {
			if r := m(x, fr, st, c, pos); r != nil {
				return r
			}
		}
		if x.p.inRepo(c.fn) && len(c.fn.Blocks) > 0 {
			return x.Run(c.fn, c.args, c.binds, st, fr, pos)
		}
		if c.fn.Synthetic != "" && len(c.fn.Blocks) > 0 && c.fn.Pkg == nil {
			return x.Run(c.fn, c.args, c.binds, st, fr, pos)
		}
		return x.external(fr, st, c, c.fn.String(), c.fn.Signature, pos)
	}
	if c.method != nil {
		if x.onInvoke != nil {
			if r, ok := x.onInvoke(x, st, fr, c.recv, c.method, c.args, pos); ok {
				return r
			}
		}
		c2 := c
		c2.args = append([]*Term{c.recv}, c.args...)
		if m, ok := models[c.method.FullName()]; ok {
			if r := m(x, fr, st, c2, pos); r != nil {
				return r
			}
		}
		return x.external(fr, st, c2, c.method.FullName(), c.method.Type().(*types.Signature), pos)
	}
	// dynamic
	ev := &Ev{kind: "call", name: "dynamic", args: c.args, dyn: c.dyn, pos: pos}
	x.emit(&st, fr, ev)
	var sig *types.Signature
	if c.common != nil {
		sig = c.common.Signature()
	} else if c.dyn.typ != nil {
		sig, _ = c.dyn.typ.Underlying().(*types.Signature)
	}
	if sig != nil {
		ev.res = x.results(ev, sig.Results(), "dyn")
	}
	x.havoc(fr, &st, c, ev)
	return []CallOut{{st: st, ret: ev.res}}
}

func shortName(f *ssa.Function) string { return f.Name() }

func (x *X) results(ev *Ev, rs *types.Tuple, name string) *Term {
	if rs.Len() == 0 {
		return mk(OTuple, nil, "", 0)
	}
	var as []*Term
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		nm := name
		if isErrorType(t) {
			nm += ".err"
		}
		v := freshSym(nm, t)
		v.info = ev
		as = append(as, v)
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk(OTuple, nil, "", 0, as...)
}

// havoc forgets memory an unknown callee may write through its arguments.
func (x *X) havoc(fr *Frame, st *State, c Callee, ev *Ev) {
	for i, a := range c.args {
		if a == nil {
			continue
		}
		var t types.Type
		if i < len(c.argT) {
			t = c.argT[i]
		}
		if t == nil {
			t = a.typ
		}
		if t == nil {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			base := a
			if a.op == OSlice {
				base = a.args[0]
			}
			if a.isNil() {
				continue
			}
			s := freshSym("data", t)
			s.info = ev
			st.setRegion(base, s)
		case *types.Pointer:
			if x.onHavoc != nil && x.onHavoc(st, a) {
				continue
			}
			if a.op == OAlloc || a.op == OFieldAddr {
				s := freshSym("mod", u.Elem())
				s.info = ev
				st.store(a, s, u.Elem())
			}
		}
	}
}

func (x *X) external(fr *Frame, st State, c Callee, name string, sig *types.Signature, pos token.Pos) []CallOut {
	ev := &Ev{kind: "call", name: name, fn: c.fn, args: c.args, pos: pos}
	x.emit(&st, fr, ev)
	short := name
	if i := strings.LastIndex(short, "."); i >= 0 {
		short = short[i+1:]
	}
	ev.res = x.results(ev, sig.Results(), short)
	for _, a := range c.args {
		x.escapingFunc(fr, st, a, name, pos)
	}
	if !readOnly(name) {
		x.havoc(fr, &st, c, ev)
	}
	return []CallOut{{st: st, ret: ev.res}}
}

// escapingFunc: a function handed to code that is not analysed may be called any
// number of times; that is only harmless if a call has no effect.
func (x *X) escapingFunc(fr *Frame, st State, f *Term, name string, pos token.Pos) {
	if f == nil {
		return
	}
	if f.op == OIface && len(f.args) == 1 {
		f = f.args[0]
	}
	if f.op != OFunc && f.op != OClosure || f.fn == nil || len(f.fn.Blocks) == 0 || name == "time.AfterFunc" {
		return
	}
	ps := f.fn.Params
	var args []*Term
	for _, p := range ps {
		args = append(args, freshSym(p.Name(), p.Type()))
	}
	mark := x.allocs
	und := len(x.undecided)
	x.quiet++
	outs := x.Run(f.fn, args, f.args, State{facts: st.facts, heap: st.heap}, fr, pos)
	x.quiet--
	bad := len(x.undecided) > und
	x.undecided = x.undecided[:und]
	for _, o := range outs {
		bad = bad || o.panic || o.stop || len(o.st.events()) > 0
		for h := o.st.heap; h != nil && h != st.heap; h = h.parent {
			k := h.key
			if k.op == OElems {
				k = k.args[0]
			}
			if rt := rootOf(k); rt.op != OAlloc && rt.op != OMakeSlice || rt.n <= mark {
				bad = true
			}
		}
	}
	if bad {
		x.fail("%s hands a function with effects to %s", fr.fn, name)
	}
}

func readOnly(name string) bool {
	for _, p := range []string{"fmt.", "strconv.", "strings.", "errors.", "log.", "net.Join", "(io.Writer)", "io.WriteString", "(*bufio.Writer)", "(net.Conn).Write", "bufio.New", "context.", "(context.", "(time.", "time.", "crypto/tls.Dial", "(*net.Dialer)", "sort.Search", "math.", "(*sync.", "(net.Conn).Close", "(net.Conn).Set", "(error)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *X) builtin(fr *Frame, st State, c Callee, pos token.Pos, typ types.Type) []CallOut {
	one := func(t *Term) []CallOut { return []CallOut{{st: st, ret: t}} }
	switch c.builtin {
	case "len":
		if _, ok := c.argT[0].Underlying().(*types.Map); ok {
			x.emit(&st, fr, &Ev{kind: "maplen", args: []*Term{c.args[0]}, pos: pos})
			return one(freshSym("maplen", types.Typ[types.Int]))
		}
		if _, ok := c.argT[0].Underlying().(*types.Chan); ok {
			return one(freshSym("chanlen", types.Typ[types.Int]))
		}
		return one(mkLen(c.args[0]))
	case "cap":
		if c.args[0].op == OMakeSlice {
			return one(mkLen(c.args[0]))
		}
		return one(mk(OCap, types.Typ[types.Int], "", 0, c.args[0]))
	case "append":
		a, b := c.args[0], c.args[1]
		at := c.argT[0]
		if b.isNil() {
			return one(a)
		}
		if x.onRead != nil && x.quiet == 0 {
			x.onRead(&st, fr, pos, b)
		}
		base, lo := b, mkInt(0)
		if b.op == OSlice {
			base, lo = b.args[0], b.args[1]
		}
		x.overwritten(&st, a)
		if n, ok := mkLen(b).intVal(); ok && n <= 16 && base.op == OAlloc {
			args := []*Term{a}
			et := elemType(at)
			for i := int64(0); i < n; i++ {
				args = append(args, st.load(mkIndexAddr(base, mkAddC(lo, i), types.NewPointer(et)), et))
			}
			return one(mk(OAppend, at, "", 0, args...))
		}
		return one(mk(OAppendS, at, "", x.nextID(), a, x.snapshot(&st, b)))
	case "copy":
		dst, src := c.args[0], c.args[1]
		ev := &Ev{kind: "copy", args: []*Term{dst, src}, pos: pos}
		if x.onRead != nil && x.quiet == 0 {
			x.onRead(&st, fr, pos, src)
		}
		x.emit(&st, fr, ev)
		base, lo := dst, mkInt(0)
		if dst.op == OSlice {
			base, lo = dst.args[0], dst.args[1]
		}
		n := freshSym("copied", types.Typ[types.Int])
		n.info = ev
		ld, ls := mkLen(dst), mkLen(src)
		f := st.facts
		if f.le(ld, ls) {
			n = ld
		} else if f.le(ls, ld) {
			n = ls
		} else {
			f = f.assume(mkGE0(linOf(n))).assume(mkGE0(linOf(ld).sub(linOf(n)))).assume(mkGE0(linOf(ls).sub(linOf(n))))
			st.facts = f
		}
		if z, ok := lo.intVal(); ok && z == 0 && n == mkLen(base) {
			st.setRegion(base, mk(OCopyOf, nil, "", 0, x.snapshot(&st, src)))
		} else {
			s := freshSym("copied-data", dst.typ)
			s.info = ev
			st.setRegion(base, s)
		}
		ev.res = n
		return one(n)
	case "delete":
		x.emit(&st, fr, &Ev{kind: "mapdel", args: c.args, pos: pos})
		return one(mk(OTuple, nil, "", 0))
	case "close":
		x.emit(&st, fr, &Ev{kind: "chanclose", args: c.args, pos: pos})
		return one(mk(OTuple, nil, "", 0))
	case "panic":
		return []CallOut{{st: st, panic: true, pos: pos}}
	case "print", "println":
		return one(mk(OTuple, nil, "", 0))
	case "recover":
		return one(termNil)
	case "min", "max":
		if len(c.args) == 2 && isInt(typ) {
			a, b := c.args[0], c.args[1]
			s1, s2 := st, st
			s1.facts = st.facts.assume(mkGE0(linOf(b).sub(linOf(a))))          // a <= b
			s2.facts = st.facts.assume(mkGE0(linOf(a).sub(linOf(b)).addc(-1))) // a > b
			if c.builtin == "max" {
				a, b = b, a
			}
			var r []CallOut
			if !s1.facts.dead {
				r = append(r, CallOut{st: s1, ret: a})
			}
			if !s2.facts.dead {
				r = append(r, CallOut{st: s2, ret: b})
			}
			return r
		}
	case "ssa:wrapnilchk":
		return one(c.args[0])
	}
	x.fail("builtin %s not modelled", c.builtin)
	return one(freshSym(c.builtin, typ))
}
