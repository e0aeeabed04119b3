package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type decInfo struct {
	p                *Prog
	typ              types.Type
	rawF, lenF, offF int
	methods          []*ssa.Function
}

// decoderInfo identifies the buffer, the declared length and the position of
// Decoder: the buffer by its type, the other two by what NewDecoder stores.
func (p *Prog) decoderInfo() (*decInfo, error) {
	d := &decInfo{p: p, typ: namedType(p, msgPkg, "Decoder")}
	if d.typ == nil {
		return nil, fmt.Errorf("type message.Decoder not found")
	}
	d.rawF = fieldIndex(d.typ, func(v *types.Var) bool { return isByteSlice(v.Type()) })
	if d.rawF < 0 {
		return nil, fmt.Errorf("message.Decoder has no single buffer")
	}
	fn := p.fun(msgPkg, "NewDecoder")
	if fn == nil {
		return nil, fmt.Errorf("NewDecoder not found")
	}
	x := newX(p)
	raw, n := namedSym("raw", fn.Params[0].Type()), namedSym("n", fn.Params[1].Type())
	outs := x.Run(fn, []*Term{raw, n}, nil, State{facts: rootFacts}, nil, 0)
	if len(outs) != 1 || outs[0].panic || outs[0].stop {
		return nil, fmt.Errorf("NewDecoder does not simply return a decoder")
	}
	st := outs[0].st
	v := st.load(outs[0].ret, d.typ)
	d.lenF, d.offF = -1, -1
	s := structOf(d.typ)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fv := mkField(v, i, ft)
		switch {
		case i == d.rawF:
			if fv != raw {
				return nil, fmt.Errorf("NewDecoder does not keep the buffer it is given")
			}
		case isInt(ft) && fv == n:
			d.lenF = i
		case isInt(ft):
			if z, ok := fv.intVal(); ok && z == 0 {
				d.offF = i
			}
		}
	}
	if d.lenF < 0 || d.offF < 0 {
		return nil, fmt.Errorf("NewDecoder does not start at position 0 of a message of the given length")
	}
	d.methods = p.methodsOf(msgPkg, "Decoder")
	return d, nil
}

func (d *decInfo) get(st *State, dec *Term, f int) *Term {
	ft := structOf(d.typ).Field(f).Type()
	return st.load(mkFieldAddr(dec, f, types.NewPointer(ft)), ft)
}

func (d *decInfo) set(st *State, dec *Term, f int, v *Term) {
	ft := structOf(d.typ).Field(f).Type()
	st.store(mkFieldAddr(dec, f, types.NewPointer(ft)), v, ft)
}

// start gives a state in which dec satisfies 0 <= offset <= length <= len(raw).
func (d *decInfo) start(dec *Term) State {
	st := State{facts: rootFacts}
	raw, n, off := d.get(&st, dec, d.rawF), d.get(&st, dec, d.lenF), d.get(&st, dec, d.offF)
	f := st.facts
	f = f.assume(mkGE0(linOf(off)))
	f = f.assume(mkGE0(linOf(n).sub(linOf(off))))
	f = f.assume(mkGE0(linOf(mkLen(raw)).sub(linOf(n))))
	st.facts = f
	return st
}

// guard installs the memory safety obligations of C04 on x.
func (d *decInfo) guard(x *X, dec *Term, name string, rep *Report) {
	p := d.p
	raw := func(st *State) *Term { return d.get(st, dec, d.rawF) }
	key := "decode-safe:" + name
	x.onIndex = func(st *State, fr *Frame, pos token.Pos, base, idx, length *Term) {
		rep.ok("accesses")
		f := st.facts
		if !f.entailsGE(linOf(idx)) || !f.lt(idx, length) {
			rep.bad(key+":index", p.pos(pos), "%s: index %s may be out of range of %s", name, idx, base)
			return
		}
		b, lo := bufBase(base)
		if b == raw(st) && !f.lt(mkAdd(lo, idx), d.get(st, dec, d.lenF)) {
			rep.bad(key+":beyond", p.pos(pos), "%s: may read beyond the declared end of the message", name)
		}
	}
	x.onSlice = func(st *State, fr *Frame, pos token.Pos, base, lo, hi, max *Term) {
		rep.ok("slices")
		f := st.facts
		if hi == nil {
			hi = mkLen(base)
		}
		if lo == nil {
			lo = mkInt(0)
		}
		if !f.entailsGE(linOf(lo)) || !f.le(lo, hi) || !f.le(hi, mkLen(base)) {
			rep.bad(key+":slice", p.pos(pos), "%s: slice %s[%s:%s] may be out of range", name, base, lo, hi)
		}
	}
	x.onRead = func(st *State, fr *Frame, pos token.Pos, s *Term) {
		b, lo := bufBase(s)
		if b != raw(st) {
			return
		}
		rep.ok("bulk_reads")
		if !st.facts.le(mkAdd(lo, mkLen(s)), d.get(st, dec, d.lenF)) {
			rep.bad(key+":beyond", p.pos(pos), "%s: may read beyond the declared end of the message", name)
		}
	}
	x.onMake = func(st *State, fr *Frame, pos token.Pos, n *Term, typ types.Type) {
		rep.ok("allocations")
		f := st.facts
		if c, ok := n.intVal(); ok && c >= 0 && c <= 64 {
			return
		}
		if !f.entailsGE(linOf(n)) {
			rep.bad(key+":negative", p.pos(pos), "%s: allocates %s elements, which may be negative", name, n)
			return
		}
		left := mkSub(d.get(st, dec, d.lenF), d.get(st, dec, d.offF))
		// room for bytes already taken is fine too
		st0 := State{facts: rootFacts}
		left0 := mkSub(d.get(&st0, dec, d.lenF), d.get(&st0, dec, d.offF))
		if !f.le(n, left) && !f.le(n, left0) {
			rep.bad(key+":alloc", p.pos(pos), "%s: allocates %s elements, which may exceed the bytes left in the message", name, n)
		}
	}
}

// after checks that the decoder invariant holds after a path, and that the
// position did not move backwards.
func (d *decInfo) after(rep *Report, name string, dec *Term, start, end *State, pos string) {
	f := end.facts
	key := "decode-safe:" + name
	o0, o1 := d.get(start, dec, d.offF), d.get(end, dec, d.offF)
	n0, n1 := d.get(start, dec, d.lenF), d.get(end, dec, d.lenF)
	rep.ok("paths")
	if d.get(start, dec, d.rawF) != d.get(end, dec, d.rawF) || !f.eq(n0, n1) {
		rep.bad(key+":message", pos, "%s: replaces the message being decoded", name)
	}
	if !f.le(o0, o1) {
		rep.bad(key+":backwards", pos, "%s: the position may move backwards", name)
	}
	if !f.le(o1, n1) {
		rep.bad(key+":past", pos, "%s: the position may move beyond the end of the message", name)
	}
}

func (d *decInfo) newDec() *Term {
	dec := namedSym("d", types.NewPointer(d.typ))
	dec.nonnil = true
	return dec
}

// summary replaces a call of a primitive or nested Decode by what is known
// about it: it fails, or it succeeds and consumes bytes of the message.
func (d *decInfo) summary(x *X, st State, kind string, dec *Term, ev *Ev, rs *types.Tuple, minBytes int64) []CallOut {
	off, n := d.get(&st, dec, d.offF), d.get(&st, dec, d.lenF)
	intT := types.Typ[types.Int]
	move := func(s *State, lo int64) {
		o := freshSym("pos", intT)
		s.facts = s.facts.assumeRaw(mkGE0(linOf(o).sub(linOf(off)).addc(-lo))).assumeRaw(mkGE0(linOf(n).sub(linOf(o))))
		d.set(s, dec, d.offF, o)
	}
	ev.res = x.results(ev, rs, kind)
	var er *Term
	if t := ev.res; t.op == OTuple {
		er = t.args[len(t.args)-1]
	} else {
		er = t
	}
	good, bad := st, st
	good.facts = good.facts.assumeRaw(mkEq(er, termNil))
	bad.facts = bad.facts.assumeRaw(mkNot(mkEq(er, termNil)))
	move(&bad, 0)
	switch kind {
	case "Bool", "Int8":
		d.step(&good, dec, 1)
	case "Int16":
		d.step(&good, dec, 2)
	case "Int32":
		d.step(&good, dec, 4)
	case "Int64":
		d.step(&good, dec, 8)
	case "ArrayLength":
		d.step(&good, dec, 4)
		v := ev.res.args[0]
		good.facts = good.facts.assumeRaw(mkGE0(linOf(v).addc(1)))
		good.facts = good.facts.assumeRaw(mkGE0(linOf(n).sub(linOf(d.get(&good, dec, d.offF))).sub(linOf(v))))
	default:
		move(&good, minBytes)
	}
	var r []CallOut
	for _, s := range []State{good, bad} {
		if !s.facts.dead {
			r = append(r, CallOut{st: s, ret: ev.res})
		}
	}
	return r
}

func (d *decInfo) step(st *State, dec *Term, k int64) {
	off, n := d.get(st, dec, d.offF), d.get(st, dec, d.lenF)
	o := mkAddC(off, k)
	st.facts = st.facts.assume(mkGE0(linOf(n).sub(linOf(o))))
	d.set(st, dec, d.offF, o)
}

// isArrayPrim: primitives analysed in terms of other primitives.
func isArrayPrim(kind string) bool {
	return kind == "Int32Array" || kind == "Int64Array" || kind == "StringArray"
}

type primRun struct {
	fn   *ssa.Function
	x    *X
	dec  *Term
	st0  State
	args []*Term
	outs []CallOut
}

func (d *decInfo) run(fn *ssa.Function, forkPrims bool, types_ map[string]*codecType, setup func(*X, *Term)) *primRun {
	x := newX(d.p)
	x.overflow = true
	dec := d.newDec()
	r := &primRun{fn: fn, x: x, dec: dec, st0: d.start(dec)}
	if setup != nil {
		setup(x, dec)
	}
	if forkPrims {
		x.atomic = func(g *ssa.Function) bool {
			if g == fn {
				return false
			}
			k := decPrim(g)
			return k != "" && !(isArrayPrim(k) && isArrayPrim(decPrim(fn)))
		}
		x.onAtomic = func(x *X, st State, fr *Frame, g *ssa.Function, args []*Term, ev *Ev) []CallOut {
			return d.summary(x, st, decPrim(g), args[0], ev, g.Signature.Results(), 0)
		}
	}
	r.args = []*Term{dec}
	for i, q := range fn.Params[1:] {
		r.args = append(r.args, namedSym(fmt.Sprintf("a%d", i), q.Type()))
	}
	r.outs = x.Run(fn, r.args, nil, r.st0, nil, 0)
	return r
}

// decoderSafe is C04.
func decoderSafe(p *Prog, rep *Report, verif string) {
	d, err := p.decoderInfo()
	if err != nil {
		rep.bad("decode-safe:decoder", "", "%v", err)
		return
	}
	rep.rule("from any state with 0 <= offset <= length <= len(raw), every path through every Decoder method and every Decode method: indexes and slices are in range and below the declared length, allocations are non-negative and at most the bytes left, no panic, and the invariant holds again with an offset that is not smaller; signed arithmetic may wrap around")
	for _, fn := range d.methods {
		kind := decPrim(fn)
		if fn.Name() == "Reset" || d.helper(fn) {
			continue
		}
		r := d.run(fn, isArrayPrim(kind), nil, func(x *X, dec *Term) { d.guard(x, dec, fn.Name(), rep) })
		rep.visit(r.x)
		rep.undecided(r.x, fn.Name())
		rep.ok("decoder_methods")
		for _, o := range r.outs {
			if o.panic {
				rep.bad("decode-safe:"+fn.Name()+":panic", p.pos(o.pos), "%s can panic", fn.Name())
				continue
			}
			if o.stop || o.st.facts.dead {
				continue
			}
			end := o.st
			d.after(rep, fn.Name(), r.dec, &r.st0, &end, p.pos(o.pos))
			if kind == "ArrayLength" {
				// what callers rely on
				f := end.facts
				v := f.resolve(o.ret.args[0])
				er := f.resolve(o.ret.args[1])
				if f.decide(mkEq(er, termNil)) != -1 {
					left := mkSub(d.get(&end, r.dec, d.lenF), d.get(&end, r.dec, d.offF))
					if !f.entailsGE(linOf(v).addc(1)) || !f.le(v, left) {
						rep.bad("decode-safe:ArrayLength:bound", p.pos(o.pos), "ArrayLength may return %s, which is not bounded by the bytes left in the message", v)
					}
				}
			}
		}
	}
	rep.need("decoder_methods", 16)
	// messages
	spec, err := loadSpec(verif)
	if err != nil {
		rep.bad("spec", "", "%v", err)
	}
	cts := p.codecTypes()
	dc := &decodeCtx{p: p, types: cts, memo: map[string]*decResult{}, rep: rep}
	vers := typeVersions(spec, cts)
	for _, c := range sortedTypes(cts) {
		if c.decode == nil {
			continue
		}
		vs := vers[c.name]
		if len(vs) == 0 {
			vs = []int64{0}
		}
		for _, v := range vs {
			x := newX(p)
			x.overflow = true
			dec := d.newDec()
			d.guard(x, dec, c.name, rep)
			x.atomic = func(g *ssa.Function) bool { return decPrim(g) != "" || dc.nested(g) != nil }
			x.onAtomic = func(x *X, st State, fr *Frame, g *ssa.Function, args []*Term, ev *Ev) []CallOut {
				if k := decPrim(g); k != "" {
					if k == "Discard" {
						return nil
					}
					return d.summary(x, st, k, args[0], ev, g.Signature.Results(), 0)
				}
				n := dc.nested(g)
				st.store(args[0], freshSym("decoded."+n.name, n.typ), n.typ)
				return d.summary(x, st, n.name, args[1], ev, g.Signature.Results(), 0)
			}
			st0 := d.start(dec)
			recv := x.alloc(c.typ, "t")
			outs := x.Run(c.decode, []*Term{recv, dec, mkInt(v)}, nil, st0, nil, 0)
			rep.visit(x)
			rep.undecided(x, c.name)
			rep.ok("decode_methods_x_versions")
			for _, o := range outs {
				if o.panic {
					rep.bad("decode-safe:"+c.name+":panic", p.pos(o.pos), "decoding %s can panic", c.name)
					continue
				}
				if o.stop || o.st.facts.dead {
					continue
				}
				end := o.st
				d.after(rep, c.name, dec, &st0, &end, p.pos(o.pos))
			}
		}
	}
	rep.need("decode_methods_x_versions", 800)
}

// typeVersions gives, for every codec type, the versions of the messages it
// occurs in.
func typeVersions(spec []SpecMsg, cts map[string]*codecType) map[string][]int64 {
	m := map[string]map[int64]bool{}
	var add func(t types.Type, vs []int64)
	add = func(t types.Type, vs []int64) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem(), vs)
			return
		case *types.Slice:
			add(u.Elem(), vs)
			return
		}
		n, ok := t.(*types.Named)
		if !ok {
			return
		}
		c := cts[n.Obj().Name()]
		if c == nil || c.typ != n {
			return
		}
		if m[c.name] == nil {
			m[c.name] = map[int64]bool{}
		}
		fresh := false
		for _, v := range vs {
			if !m[c.name][v] {
				m[c.name][v], fresh = true, true
			}
		}
		if !fresh {
			return
		}
		s := structOf(n)
		for i := 0; i < s.NumFields(); i++ {
			add(s.Field(i).Type(), vs)
		}
	}
	for _, sm := range spec {
		if c := cts[sm.Name]; c != nil {
			var vs []int64
			for v := sm.Min; v <= sm.Max; v++ {
				vs = append(vs, v)
			}
			add(c.typ, vs)
		}
	}
	r := map[string][]int64{}
	for k, s := range m {
		for v := int64(0); v < 64; v++ {
			if s[v] {
				r[k] = append(r[k], v)
			}
		}
	}
	return r
}
