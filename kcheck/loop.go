package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop summaries.  A loop-carried variable (a phi of the header or a heap
// location written by the body) is either invariant, an induction variable
// (entry + step*K, where K counts completed iterations), an accumulator
// (entry + sum of f(k)), a list built by append, or opaque.  Opaque variables
// are constrained by those candidate facts that hold on entry and are preserved
// by every path of the body back to the header (Houdini).

type VarMode int

const (
	VOpaque VarMode = iota
	VInv
	VInduct
	VAccum
	VAppend
	VSame // always equal to another variable
)

type LVar struct {
	phi    *ssa.Phi
	loc    *Term
	typ    types.Type
	entry  *Term
	sym    *Term
	mode   VarMode
	locked bool
	step   int64
	f      *Term   // accumulator summand
	elems  []*Term // appended values
	same   *LVar
}

// link: field f of the object v points to always holds the value of w.
type link struct {
	v, w *LVar
	f    int
	ft   types.Type
	dead bool
}

func (v *LVar) value(K *Term) *Term {
	switch v.mode {
	case VInv:
		return v.entry
	case VInduct:
		return linOf(v.entry).add(linOf(K).scale(v.step)).term()
	case VSame:
		return v.same.value(K)
	}
	return v.sym
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	}
	return false
}

type LoopInfo struct {
	K       *Term
	trip    *Term // number of iterations when left through its condition, nil if unknown
	vars    []*LVar
	backs   []Out // one per path of the body; st.trace holds the body's events
	exits   []Out
	header  State
	entry   State
	fn      *ssa.Function
	pos     token.Pos
	hoCall  *Term // for callbacks invoked by an unknown iterator
	regions []*Term
	// values carried around the loop, for each back path
	nexts map[*LVar][]*Term
}

type cand struct {
	t    *Term // boolean term over the variables' symbols
	dead bool
}

type loopBody struct {
	onBack func(Out)
	fn     *ssa.Function
	pos    token.Pos
	phis   []*ssa.Phi
	entryV []*Term
	// run executes one iteration from the header; next gives the phi values on a back edge
	run    func(vals []*Term, st State) []Out
	next   func(o Out, i int) *Term
	blocks map[*ssa.BasicBlock]bool
	trip   *Term // known trip count (callbacks)
	k      *Term // iteration counter, set before run
}

func (x *X) ssaLoop(fr *Frame, from *ssa.BasicBlock, li *loopInfoS, st State) []Out {
	h := li.header
	n := nphis(h)
	lb := &loopBody{fn: fr.fn, blocks: li.blocks}
	k := predIndex(from, h)
	for i := 0; i < n; i++ {
		ph := h.Instrs[i].(*ssa.Phi)
		lb.phis = append(lb.phis, ph)
		lb.entryV = append(lb.entryV, x.val(fr, ph.Edges[k]))
	}
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			lb.pos = in.Pos()
			break
		}
	}
	if !lb.pos.IsValid() {
	scan:
		for _, b := range fr.fn.Blocks {
			if li.blocks[b] {
				for _, in := range b.Instrs {
					if in.Pos().IsValid() {
						lb.pos = in.Pos()
						break scan
					}
				}
			}
		}
	}
	lc := &loopCtx{header: h, blocks: li.blocks}
	entryDefers := fr.defers
	rot := x.rotatable(h, li)
	lb.run = func(vals []*Term, st State) []Out {
		f := fr.clone()
		for i, p := range lb.phis {
			f.env[p] = vals[i]
		}
		outs := x.block(f, h, n, st, lc)
		if rot == nil {
			return outs
		}
		var r []Out
		for _, o := range outs {
			if o.kind != OutBack {
				r = append(r, o)
				continue
			}
			r = append(r, x.lastRound(lb, o, h, rot)...)
		}
		return r
	}
	lb.next = func(o Out, i int) *Term {
		return x.val(o.fr, lb.phis[i].Edges[predIndex(o.from, h)])
	}
	lb.onBack = func(o Out) {
		if o.fr.defers != entryDefers && !o.st.facts.dead {
			x.fail("%s: defer inside a loop that continues", fr.fn)
		}
	}
	outs := x.summarise(lb, st)
	var r []Out
	for _, o := range outs {
		if o.kind != OutBack {
			r = append(r, o)
		}
	}
	return r
}

const maxUnroll = 8

// unroll runs a loop that counts up to a small constant round by round.
func (x *X) unroll(fr *Frame, from *ssa.BasicBlock, li *loopInfoS, st State) ([]Out, bool) {
	h := li.header
	c, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !li.blocks[h.Succs[0]] || li.blocks[h.Succs[1]] {
		return nil, false
	}
	cmp, ok := c.Cond.(*ssa.BinOp)
	if !ok || (cmp.Op != token.LSS && cmp.Op != token.LEQ && cmp.Op != token.NEQ) || !isInt(cmp.X.Type()) {
		return nil, false
	}
	// the counter and what it starts from
	count := cmp.X
	off := int64(0)
	plus := func(v ssa.Value) (ssa.Value, int64, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, 0, false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return nil, 0, false
		}
		return b.X, k.Int64(), true
	}
	if b, k, ok := plus(count); ok {
		count, off = b, k
	}
	ph, ok := count.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return nil, false
	}
	step := int64(0)
	for i, p := range h.Preds {
		if !li.blocks[p] {
			continue
		}
		b, k, ok := plus(ph.Edges[i])
		if !ok || b != ssa.Value(ph) || k < 1 || step != 0 && step != k {
			return nil, false
		}
		step = k
	}
	f := st.facts
	n0, ok := f.constOf(x.val(fr, ph.Edges[predIndex(from, h)]))
	if !ok {
		return nil, false
	}
	var lim *Term
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		lim = x.val(fr, y)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && y.Block() == h {
			if a, ok := fr.env[y.Call.Args[0]]; ok {
				lim = mkLen(a)
			}
		} else {
			lim = fr.env[y]
		}
	default:
		lim = fr.env[cmp.Y]
	}
	if lim == nil {
		return nil, false
	}
	n1, ok := f.constOf(lim)
	if !ok || step == 0 || (n1-n0-off)/step > maxUnroll {
		return nil, false
	}
	lc := &loopCtx{header: h, blocks: li.blocks}
	np := nphis(h)
	var r []Out
	type at struct {
		fr   *Frame
		from *ssa.BasicBlock
		st   State
	}
	todo := []at{{fr.clone(), from, st}}
	for round := int64(0); len(todo) > 0; round++ {
		if round > maxUnroll+1 {
			return nil, false
		}
		var next []at
		for _, a := range todo {
			for _, o := range x.block(x.setPhis(a.fr, a.from, h), h, np, a.st, lc) {
				if o.kind != OutBack {
					r = append(r, o)
				} else if !o.st.facts.dead {
					next = append(next, at{o.fr.clone(), o.from, o.st})
				}
			}
		}
		todo = next
	}
	return r, true
}

// rotatable: the loop goes on while a flag, an error or the like is as tested at
// its head, possibly after other conditions. A round after which the test fails
// is the last one, and is treated like one left by a break. The result is the
// blocks up to that test.
func (x *X) rotatable(h *ssa.BasicBlock, li *loopInfoS) []*ssa.BasicBlock {
	var chain []*ssa.BasicBlock
	for b := h; len(chain) < 4; {
		c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || li.blocks[b.Succs[0]] == li.blocks[b.Succs[1]] || b != h && (len(b.Preds) != 1 || nphis(b) > 0) {
			return nil
		}
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.FieldAddr, *ssa.BinOp:
			case *ssa.UnOp:
				if in.Op != token.NOT && in.Op != token.MUL && in.Op != token.SUB {
					return nil
				}
			case *ssa.Call:
				q, ok := in.Call.Value.(*ssa.Builtin)
				if !ok || q.Name() != "len" {
					return nil
				}
				switch in.Call.Args[0].Type().Underlying().(type) {
				case *types.Slice, *types.Basic:
				default:
					return nil
				}
			default:
				return nil
			}
		}
		chain = append(chain, b)
		v := c.Cond
		for {
			n, ok := v.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			v = n.X
		}
		switch v := v.(type) {
		case *ssa.Phi, *ssa.UnOp:
			return chain
		case *ssa.BinOp:
			if (v.Op == token.EQL || v.Op == token.NEQ) && !isInt(v.X.Type()) {
				return chain
			}
		}
		if b = b.Succs[0]; !li.blocks[b] {
			b = chain[len(chain)-1].Succs[1]
		}
	}
	return nil
}

// lastRound splits the end of a round by whether there is another one.
func (x *X) lastRound(lb *loopBody, o Out, h *ssa.BasicBlock, chain []*ssa.BasicBlock) []Out {
	f := o.fr.clone()
	st := o.st
	var next []*Term
	for i := range lb.phis {
		next = append(next, lb.next(o, i))
	}
	for i, p := range lb.phis {
		f.env[p] = next[i]
	}
	conds := make([]*Term, len(chain)) // what keeps the loop going
	outTo := make([]*ssa.BasicBlock, len(chain))
	x.quiet++
	for k, b := range chain {
		for _, in := range b.Instrs[nphis(b) : len(b.Instrs)-1] {
			if c, ok := in.(*ssa.Call); ok {
				f.env[c] = mkLen(x.val(f, c.Call.Args[0]))
				continue
			}
			x.instr(f, in, &st)
		}
		conds[k], outTo[k] = x.val(f, b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond), b.Succs[1]
		if !lb.blocks[b.Succs[0]] {
			conds[k], outTo[k] = mkNot(conds[k]), b.Succs[0]
		}
	}
	x.quiet--
	last := len(chain) - 1
	q := conds[last]
	var r []Out
	if b := o; o.st.facts.decide(q) != -1 {
		b.st.facts = b.st.facts.assume(q)
		if !b.st.facts.dead {
			r = append(r, b)
		}
	}
	if o.st.facts.decide(q) != 1 {
		st.facts = st.facts.assume(mkNot(q))
		for k := range chain {
			e := st
			if k < last {
				e.facts = st.facts.assume(mkNot(conds[k]))
				st.facts = st.facts.assume(conds[k])
			}
			if !e.facts.dead {
				r = append(r, Out{kind: OutExit, st: e, fr: f.clone(), from: chain[k], to: outTo[k]})
			}
		}
	}
	return r
}

func symNo(t *Term) int {
	if i := strings.LastIndexByte(t.s, '#'); i >= 0 {
		n, _ := strconv.Atoi(t.s[i+1:])
		return n
	}
	return 0
}

// bornAfter: t mentions a symbol or object created after the marks.
func bornAfter(t *Term, symMark int, allocMark int64) bool {
	return contains(t, func(y *Term) bool {
		switch y.op {
		case OSym:
			return symNo(y) > symMark
		case OAlloc, OMakeSlice, OMakeChan, OMakeMap, OAppendS:
			return y.n > allocMark
		}
		return false
	})
}

func (x *X) summarise(lb *loopBody, entry State) []Out {
	symMark, allocMark := symSeq, x.allocs
	K := freshSym("k", types.Typ[types.Int])
	lb.k = K
	var vars []*LVar
	for i, p := range lb.phis {
		vars = append(vars, &LVar{phi: p, typ: p.Type(), entry: lb.entryV[i], sym: freshSym(phiName(p), p.Type())})
	}
	nphi := len(vars)
	type region struct{ base, sym *Term }
	var regions []region
	var links []*link
	var cands []*cand
	candKeys := map[*Term]bool{}
	addCand := func(t *Term) {
		if t.op == OConst || candKeys[t] {
			return
		}
		candKeys[t] = true
		cands = append(cands, &cand{t: t})
	}
	seeded := map[*LVar]bool{}
	onEntry := func(t *Term) *Term {
		m := map[*Term]*Term{K: mkInt(0)}
		for _, v := range vars {
			m[v.sym] = v.entry
		}
		return subst(t, m)
	}
	seed := func(v *LVar) {
		if seeded[v] {
			return
		}
		seeded[v] = true
		e := v.entry
		if isInt(v.typ) {
			// facts about the entry value, carried over
			if e.op != OConst && e.op != OLin {
				for f := entry.facts; f != nil; f = f.parent {
					if f.ge != nil {
						for _, m := range f.ge.m {
							if m.atom == e {
								addCand(mkGE0(linOf(subst(f.ge.term(), map[*Term]*Term{e: v.sym}))))
							}
						}
					}
				}
			}
			if e.op == OLin {
				// entry <= a for values a known on entry
				n := 0
				for f := entry.facts; f != nil && n < 12; f = f.parent {
					if f.ge == nil {
						continue
					}
					for _, m := range f.ge.m {
						c := mkGE0(linOf(m.atom).sub(linOf(v.sym)))
						if isInt(m.atom.typ) && !candKeys[c] {
							addCand(c)
							n++
						}
					}
				}
			}
			addCand(mkGE0(linOf(v.sym).sub(linOf(e))))
			addCand(mkGE0(linOf(e).sub(linOf(v.sym))))
			addCand(mkGE0(linOf(v.sym)))
			return
		}
		if isBool(v.typ) {
			if b, ok := entry.facts.resolve(e).boolVal(); ok {
				if b {
					addCand(v.sym)
				} else {
					addCand(mkNot(v.sym))
				}
			}
			return
		}
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			addCand(mkGE0(linOf(mkLen(v.sym)).sub(linOf(mkLen(e)))))
			grown := linOf(mkLen(v.sym)).sub(linOf(mkLen(e))).sub(linOf(K)) // one element each round
			addCand(mkGE0(grown))
			addCand(mkGE0(grown.scale(-1)))
		}
		switch v.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
			q := mkEq(v.sym, termNil)
			switch entry.facts.decide(mkEq(e, termNil)) {
			case 1:
				addCand(q)
			case -1:
				addCand(mkNot(q))
			}
		}
	}
	mkHeader := func() State {
		st := entry
		st.trace = nil
		st.facts = st.facts.assumeRaw(mkGE0(linOf(K)))
		for _, v := range vars {
			if v.loc != nil {
				st.put(v.loc, v.value(K))
			}
		}
		for _, r := range regions {
			st.setRegion(r.base, r.sym)
		}
		for _, l := range links {
			if !l.dead && l.v.mode == VOpaque {
				st.put(mkFieldAddr(l.v.sym, l.f, types.NewPointer(l.ft)), l.w.value(K))
			}
		}
		m := map[*Term]*Term{}
		for _, v := range vars {
			if v.mode != VOpaque {
				m[v.sym] = v.value(K)
			}
		}
		for _, c := range cands {
			if !c.dead {
				st.facts = st.facts.assume(subst(c.t, m))
			}
		}
		return st
	}
	vals := func() []*Term {
		r := make([]*Term, nphi)
		for i := 0; i < nphi; i++ {
			r[i] = vars[i].value(K)
		}
		return r
	}
	nextOf := func(o Out, v *LVar, i int) *Term {
		if v.phi != nil {
			return lb.next(o, i)
		}
		return o.st.load(v.loc, v.typ)
	}
	twin := func(v *LVar) {
		if !isRef(v.typ) || v.entry.op == OConst {
			return
		}
		for _, w := range vars {
			if w != v && w.mode == VOpaque && w.entry == v.entry && types.Identical(w.typ, v.typ) {
				v.mode, v.same = VSame, w
				return
			}
		}
	}
	for _, v := range vars {
		twin(v)
	}
	relate := func(v, w *LVar) {
		s := structOf(pointee(v.typ))
		if s == nil || v == w {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if !isRef(ft) || !types.Identical(w.typ, ft) {
				continue
			}
			for _, l := range links {
				if l.v == v && l.f == i {
					ft = nil
				}
			}
			if ft == nil {
				continue
			}
			if e := entry.load(mkFieldAddr(v.entry, i, types.NewPointer(ft)), ft); w.entry == e && e.op != OConst {
				links = append(links, &link{v: v, w: w, f: i, ft: ft})
			}
		}
	}
	for _, v := range vars {
		for _, w := range vars {
			relate(v, w)
		}
	}
	// bound: T such that the fact is K >= T, where K may be given as the
	// length of a slice that grows by one element each round
	bound := func(hdr State, f *Facts, m Mono) (Lin, bool) {
		if m.coef != 1 {
			return Lin{}, false
		}
		T := linOf(m.atom).sub(*f.ge)
		if m.atom == K {
			return T, !bornAfter(T.term(), symMark, allocMark)
		}
		for _, v := range vars {
			if m.atom.op != OLen || m.atom.args[0] != v.sym || v.mode != VOpaque {
				continue
			}
			T = T.sub(linOf(mkLen(v.entry)))
			return T, !bornAfter(T.term(), symMark, allocMark) && hdr.facts.eq(mkLen(v.sym), linOf(mkLen(v.entry)).add(linOf(K)).term())
		}
		return Lin{}, false
	}
	x.loopDepth++
	defer func() { x.loopDepth-- }()
	var outs []Out
	var hdr State
	for _, v := range vars {
		seed(v)
	}
	for _, c := range cands {
		if entry.facts.decide(onEntry(c.t)) != 1 {
			c.dead = true
		}
	}
	stable := false
	for pass := 0; pass < 24; pass++ {
		x.quiet++
		hdr = mkHeader()
		outs = lb.run(vals(), hdr)
		x.quiet--
		changed := false
		for _, o := range outs {
			if o.kind != OutBack {
				continue
			}
			// locations written by the body
			seen := map[*Term]bool{}
			for h := o.st.heap; h != nil && h != hdr.heap; h = h.parent {
				k := h.key
				if seen[k] {
					continue
				}
				seen[k] = true
				if k.op == OElems {
					b := k.args[0]
					if bornAfter(b, symMark, allocMark) {
						continue
					}
					k = nil
					has := false
					for _, r := range regions {
						has = has || r.base == b
					}
					if !has {
						regions = append(regions, region{b, freshSym("contents", b.typ)})
						changed = true
					}
					continue
				}
				if rt := rootOf(k); bornAfter(rt, symMark, allocMark) {
					if rt.op == OAlloc || rt.op == OMakeSlice {
						continue // local to the iteration
					}
					if rt.op == OSym {
						continue // memory reached through a value obtained in this iteration
					}
				}
				if bornAfter(k, symMark, allocMark) {
					// an element selected by a loop-varying index
					q := k
					for q.op == OFieldAddr {
						q = q.args[0]
					}
					if q.op == OIndexAddr && !bornAfter(q.args[0], symMark, allocMark) {
						has := false
						for _, r := range regions {
							has = has || r.base == q.args[0]
						}
						if !has {
							regions = append(regions, region{q.args[0], freshSym("contents", q.args[0].typ)})
							changed = true
						}
					}
					continue
				}
				known := false
				for _, v := range vars {
					known = known || v.loc == k
				}
				if known {
					continue
				}
				typ := h.val.typ
				if t := pointee(k.typ); t != nil {
					typ = t
				}
				e := entry.load(k, typ)
				if o.st.load(k, typ) == e {
					continue
				}
				v := &LVar{loc: k, typ: typ, entry: e, sym: freshSym(locName(k), typ)}
				v.sym.at = k
				twin(v)
				for _, w := range vars {
					relate(v, w)
					relate(w, v)
				}
				vars = append(vars, v)
				n0 := len(cands)
				seed(v)
				for _, c := range cands[n0:] {
					if entry.facts.decide(onEntry(c.t)) != 1 {
						c.dead = true
					}
				}
				changed = true
			}
		}
		if changed {
			continue
		}
		// classification
		for i, v := range vars {
			var nx []*Term
			for _, o := range outs {
				if o.kind == OutBack {
					nx = append(nx, o.st.facts.resolve(nextOf(o, v, i)))
				}
			}
			if len(nx) == 0 {
				continue
			}
			switch v.mode {
			case VOpaque:
				if v.locked {
					continue
				}
				inv, ind := true, isInt(v.typ)
				var step int64
				for j, t := range nx {
					if t != v.sym && t != v.entry {
						inv = false
					}
					d := linOf(t).sub(linOf(v.sym))
					if len(d.m) != 0 || (j > 0 && d.c != step) {
						ind = false
					}
					step = d.c
				}
				if inv {
					v.mode = VInv
					changed = true
				} else if ind && step != 0 {
					v.mode, v.step = VInduct, step
					changed = true
				}
			case VSame:
				var mx []*Term
				for j, w := range vars {
					if w != v.same {
						continue
					}
					for _, o := range outs {
						if o.kind == OutBack {
							mx = append(mx, o.st.facts.resolve(nextOf(o, w, j)))
						}
					}
				}
				for j, t := range nx {
					if t != mx[j] {
						v.mode, v.same, changed = VOpaque, nil, true
						break
					}
				}
			case VInv:
				for _, t := range nx {
					if t != v.entry {
						v.mode, v.locked, changed = VOpaque, true, true
					}
				}
			case VInduct:
				for _, t := range nx {
					d := linOf(t).sub(linOf(v.value(K)))
					if len(d.m) != 0 || d.c != v.step {
						v.mode, v.locked, changed = VOpaque, true, true
					}
				}
			}
		}
		if changed {
			continue
		}
		// candidate facts: preserved?
		for _, o := range outs {
			if o.kind == OutExit {
				// K != T exits give the candidate K <= T
				for _, f := range o.st.facts.since(hdr.facts) {
					if f.ge == nil {
						continue
					}
					for _, m := range f.ge.m {
						if T, ok := bound(hdr, f, m); ok {
							c := mkGE0(T.sub(linOf(K)))
							if !candKeys[c] && c.op != OConst {
								addCand(c)
								if entry.facts.decide(onEntry(c)) != 1 {
									cands[len(cands)-1].dead = true
								} else {
									changed = true
								}
							}
						}
					}
				}
			}
		}
		if changed {
			continue
		}
		for _, o := range outs {
			if o.kind != OutBack {
				continue
			}
			m := map[*Term]*Term{K: mkAddC(K, 1)}
			for i, v := range vars {
				if v.mode == VOpaque {
					m[v.sym] = nextOf(o, v, i)
				} else {
					m[v.sym] = subst(v.value(K), map[*Term]*Term{K: mkAddC(K, 1)})
				}
			}
			for _, l := range links {
				if l.dead || l.v.mode != VOpaque {
					continue
				}
				var nv, nw *Term
				for i, v := range vars {
					if v == l.v {
						nv = nextOf(o, v, i)
					}
					if v == l.w {
						nw = nextOf(o, v, i)
					}
				}
				if o.st.load(mkFieldAddr(nv, l.f, types.NewPointer(l.ft)), l.ft) != nw {
					l.dead, changed = true, true
				}
			}
			for _, c := range cands {
				if c.dead {
					continue
				}
				if o.st.facts.decide(subst(c.t, m)) != 1 {
					c.dead = true
					changed = true
				}
			}
		}
		if !changed {
			stable = true
			break
		}
	}
	if !stable {
		x.fail("%s: no loop summary at %s", lb.fn, x.p.pos(lb.pos))
	}
	// final, recorded pass
	hdr = mkHeader()
	outs = lb.run(vals(), hdr)
	info := &LoopInfo{K: K, vars: vars, header: hdr, entry: entry, fn: lb.fn, pos: lb.pos, nexts: map[*LVar][]*Term{}}
	for _, r := range regions {
		info.regions = append(info.regions, r.base)
	}
	var backs, exits []Out
	for _, o := range outs {
		switch o.kind {
		case OutBack:
			backs = append(backs, o)
			if lb.onBack != nil {
				lb.onBack(o)
			}
		case OutExit:
			exits = append(exits, o)
		}
	}
	info.backs, info.exits = backs, exits
	for i, v := range vars {
		for _, o := range backs {
			info.nexts[v] = append(info.nexts[v], o.st.facts.resolve(nextOf(o, v, i)))
		}
	}
	// trip count
	var trip *Term
	if lb.trip != nil {
		trip = lb.trip
	} else if len(exits) > 0 {
	search:
		for _, e := range exits {
			for _, f := range e.st.facts.since(hdr.facts) {
				if f.ge == nil {
					continue
				}
				for _, m := range f.ge.m {
					if T, ok := bound(hdr, f, m); ok {
						for _, o := range backs {
							ok = ok && o.st.facts.entailsGE(T.sub(linOf(K)).addc(-1))
						}
						if ok {
							trip = T.term()
							break search
						}
					}
				}
			}
		}
	}
	info.trip = trip
	// accumulators and lists
	opaque := map[*Term]bool{}
	for _, v := range vars {
		if v.mode == VOpaque {
			opaque[v.sym] = true
		}
	}
	for _, v := range vars {
		if v.mode != VOpaque {
			continue
		}
		nx := info.nexts[v]
		if len(nx) == 0 {
			continue
		}
		clean := func(t *Term) bool {
			return !contains(t, func(y *Term) bool { return opaque[y] })
		}
		if isInt(v.typ) {
			fs := make([]*Term, len(nx))
			ok := true
			for i, t := range nx {
				fs[i] = linOf(t).sub(linOf(v.sym)).term()
				ok = ok && clean(fs[i])
			}
			if ok {
				if f := caseOf(fs, backs, hdr.facts, clean); f != nil {
					v.mode, v.f = VAccum, f
				}
			}
			continue
		}
		if nx[0].op == OAppend && nx[0].args[0] == v.sym {
			ok := true
			for _, a := range nx[0].args[1:] {
				ok = ok && clean(a)
			}
			for _, t := range nx[1:] {
				ok = ok && t == nx[0]
			}
			if ok {
				v.mode, v.elems = VAppend, nx[0].args[1:]
			}
		}
	}
	// what every round leaves behind, though it need not hold on entry
	var after []*Term
	for i, v := range vars {
		if v.mode != VOpaque || isInt(v.typ) || len(backs) == 0 {
			continue
		}
		q := v.sym
		if !isBool(v.typ) {
			if !isRef(v.typ) && !types.IsInterface(v.typ) {
				continue
			}
			q = mkEq(v.sym, termNil)
		}
		if hdr.facts.decide(q) != 0 {
			continue
		}
		d := 0
		for j, o := range backs {
			e := o.st.facts.decide(subst(q, map[*Term]*Term{v.sym: nextOf(o, v, i)}))
			if j > 0 && e != d {
				e = 0
			}
			if d = e; d == 0 {
				break
			}
		}
		switch d {
		case 1:
			after = append(after, q)
		case -1:
			after = append(after, mkNot(q))
		}
	}
	ev := &Ev{kind: "loop", loop: info, pos: lb.pos, in: lb.fn, st: entry}
	// element writes
	regionVal := func(base *Term, N *Term) *Term {
		if len(backs) == 0 {
			return nil
		}
		var g, v *Term
		for _, o := range backs {
			var gs []*Term
			for h := o.st.heap; h != nil && h != hdr.heap; h = h.parent {
				q := h.key
				for q.op == OFieldAddr {
					q = q.args[0]
				}
				if q.op == OIndexAddr && q.args[0] == base {
					dup := false
					for _, y := range gs {
						dup = dup || y == q.args[1]
					}
					if !dup {
						gs = append(gs, q.args[1])
					}
				} else if h.key.op == OElems && h.key.args[0] == base {
					return nil
				}
			}
			if len(gs) != 1 {
				return nil
			}
			et := elemType(base.typ)
			val := o.st.load(mkIndexAddr(base, gs[0], types.NewPointer(et)), et)
			if g == nil {
				g, v = gs[0], val
			} else if g != gs[0] || v != val {
				return nil
			}
		}
		return mk(OMapLoop, nil, "", 0, N, K, g, v)
	}
	var res []Out
	for _, o := range outs {
		switch o.kind {
		case OutBack:
			continue
		case OutExit:
			if o.st.facts.dead {
				continue
			}
			type alt struct {
				facts *Facts
				N     *Term
			}
			alts := []alt{{o.st.facts, K}}
			complete := trip != nil && (lb.trip != nil || o.st.facts.entailsGE(linOf(K).sub(linOf(trip))))
			if complete {
				alts = nil
				pos := o.st.facts.assume(mkGE0(linOf(trip)))
				neg := o.st.facts.assume(mkGE0(linOf(trip).scale(-1).addc(-1)))
				if len(after) > 0 {
					pos = o.st.facts.assume(mkGE0(linOf(trip).addc(-1)))
					for _, q := range after {
						pos = pos.assume(q)
					}
					neg = o.st.facts.assume(mkGE0(linOf(trip).scale(-1)))
				}
				if !pos.dead {
					alts = append(alts, alt{pos, trip})
				}
				if !neg.dead {
					alts = append(alts, alt{neg, mkInt(0)})
				}
			}
			for ai, a := range alts {
				m := map[*Term]*Term{}
				if a.N != K {
					m[K] = a.N
				}
				for _, v := range vars {
					if v.mode == VOpaque && len(after) > 0 && a.N.op == OConst && a.N.n == 0 {
						m[v.sym] = v.entry // never entered
					}
					switch v.mode {
					case VAccum:
						m[v.sym] = mkAdd(v.entry, mkSum(a.N, K, v.f))
					case VAppend:
						m[v.sym] = mk(OAppLoop, v.typ, "", 0, append([]*Term{v.entry, a.N, K}, v.elems...)...)
					}
				}
				for _, r := range regions {
					if c := regionVal(r.base, a.N); c != nil {
						m[r.sym] = c
					}
				}
				o2 := o
				o2.fr = o.fr
				if o.fr != nil {
					if ai < len(alts)-1 || len(m) > 0 {
						o2.fr = o.fr.clone()
					}
				}
				o2.st.facts = a.facts
				if len(m) > 0 {
					memo := map[*Term]*Term{}
					if o2.fr != nil {
						for k, t := range o2.fr.env {
							o2.fr.env[k] = substM(t, m, memo)
						}
					}
					// heap nodes added since loop entry
					var nodes []*HNode
					for h := o2.st.heap; h != nil && h != entry.heap; h = h.parent {
						nodes = append(nodes, h)
					}
					hp := entry.heap
					// objects of a representative iteration stay described
					for _, b := range backs {
						var bn []*HNode
						for h := b.st.heap; h != nil && h != hdr.heap; h = h.parent {
							if rt := rootOf(h.key); (rt.op == OAlloc || rt.op == OMakeSlice) && rt.n > allocMark {
								bn = append(bn, h)
							}
						}
						for i := len(bn) - 1; i >= 0; i-- {
							hp = &HNode{hp, bn[i].key, bn[i].val}
						}
					}
					for i := len(nodes) - 1; i >= 0; i-- {
						hp = &HNode{hp, substM(nodes[i].key, m, memo), substM(nodes[i].val, m, memo)}
					}
					o2.st.heap = hp
					o2.st.facts = a.facts.substSince(entry.facts, m)
				}
				ev2 := *ev
				ev2.complete = complete
				o2.st.trace = spliceTrace(entry.trace, &ev2, o.st.trace)
				if o2.st.facts.dead {
					continue
				}
				res = append(res, o2)
			}
		default:
			o.st.trace = spliceTrace(entry.trace, ev, o.st.trace)
			res = append(res, o)
		}
	}
	return res
}

func (f *Facts) substSince(base *Facts, m map[*Term]*Term) *Facts {
	r := base
	memo := map[*Term]*Term{}
	for _, x := range f.since(base) {
		switch {
		case x.ge != nil:
			l := linOf(substM(x.ge.term(), m, memo))
			if len(l.m) == 0 {
				if l.c < 0 {
					r = r.push(Facts{})
					r.dead = true
				}
				continue
			}
			r = r.push(Facts{ge: &l})
		case x.ne != nil:
			l := linOf(substM(x.ne.term(), m, memo))
			if len(l.m) == 0 {
				if l.c == 0 {
					r = r.push(Facts{})
					r.dead = true
				}
				continue
			}
			r = r.push(Facts{ne: &l})
		case x.b != nil:
			t := substM(x.b, m, memo)
			if v, ok := t.boolVal(); ok {
				if v != x.bv {
					r = r.push(Facts{})
					r.dead = true
				}
				continue
			}
			if x.bv {
				r = r.assumeRaw(t)
			} else {
				r = r.assumeRaw(mkNot(t))
			}
		case x.dead:
			r = r.push(Facts{})
			r.dead = true
		}
	}
	return r
}

// caseOf gives the summand of an accumulator whose rounds fall into at most two
// kinds told apart by a condition.
func caseOf(fs []*Term, backs []Out, base *Facts, clean func(*Term) bool) *Term {
	other := -1
	for i, f := range fs {
		if f != fs[0] {
			if other >= 0 && f != fs[other] {
				return nil
			}
			other = i
		}
	}
	if other < 0 {
		return fs[0]
	}
	for _, n := range backs[0].st.facts.since(base) {
		var c *Term
		switch {
		case n.b != nil && n.bv:
			c = n.b
		case n.b != nil:
			c = mkNot(n.b)
		case n.ge != nil:
			c = mkGE0(*n.ge)
		default:
			continue
		}
		if !clean(c) {
			continue
		}
		ok := true
		for i, f := range fs {
			want := 1
			if f != fs[0] {
				want = -1
			}
			ok = ok && backs[i].st.facts.decide(c) == want
		}
		if ok {
			return mkCase(c, fs[0], fs[other])
		}
	}
	return nil
}

// mkSum: sum of f over N iterations; a summand independent of the counter is N*f.
func mkSum(N, K, f *Term) *Term {
	l := linOf(f)
	total := Lin{}
	for _, m := range l.m {
		if containsTerm(m.atom, K) || bodyBound(m.atom) {
			total = total.add(Lin{m: []Mono{{m.coef, mk(OSum, types.Typ[types.Int], "", 0, N, K, m.atom)}}})
		} else {
			total = total.add(linOf(mkMul(N, m.atom)).scale(m.coef))
		}
	}
	if l.c != 0 {
		total = total.add(linOf(N).scale(l.c))
	}
	return total.term()
}

// bodyBound: a value obtained anew in every iteration.
func bodyBound(t *Term) bool {
	return contains(t, func(y *Term) bool { return y.op == OSym && y.info != nil })
}

func spliceTrace(pre *TNode, ev *Ev, suf *TNode) *TNode {
	st := State{trace: pre}
	st.emit(ev)
	for _, e := range (State{trace: suf}).events() {
		st.emit(e)
	}
	return st.trace
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func locName(t *Term) string {
	s := t.String()
	if len(s) > 40 {
		s = s[:40]
	}
	return strings.ReplaceAll(strings.TrimPrefix(s, "&"), "#", "~")
}

var _ = constant.MakeInt64
