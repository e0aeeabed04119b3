package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Decoder primitives against a reference: every path is split by the cases of
// the reference, and in every case still possible the path must do what the
// reference does.

type getCase struct {
	name   string
	class  string  // "short" (must fail), "value" (must succeed), "odd" (must succeed, layout only), "free"
	assume []*Term // condition
	size   *Term   // bytes consumed on success
	ok     func(st *State, v *Term) bool
	want   string
}

func (d *decInfo) cases(x *X, kind string, st0 *State, dec *Term, args []*Term) []getCase {
	raw, L, o := d.get(st0, dec, d.rawF), d.get(st0, dec, d.lenF), d.get(st0, dec, d.offF)
	rem := mkSub(L, o)
	lt := func(a, b *Term) *Term { return mkGE0(linOf(b).sub(linOf(a)).addc(-1)) }
	le := func(a, b *Term) *Term { return mkGE0(linOf(b).sub(linOf(a))) }
	eqc := func(a *Term, n int64) *Term { return mkEQ0(linOf(a).addc(-n)) }
	u := func(n int) types.Type {
		return map[int]types.Type{1: types.Typ[types.Uint8], 2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n]
	}
	s := func(n int) types.Type {
		return map[int]types.Type{1: types.Typ[types.Int8], 2: types.Typ[types.Int16], 4: types.Typ[types.Int32], 8: types.Typ[types.Int64]}[n]
	}
	rd := func(n int) *Term {
		if n == 1 {
			return mk(OConv, s(1), "", 0, mkIndex(raw, o, u(1)))
		}
		return mk(OConv, s(n), "", 0, mk(ORdBE, u(n), "", int64(n), raw, o))
	}
	sameInt := func(want *Term) func(st *State, v *Term) bool {
		return func(st *State, v *Term) bool { return v == want || st.facts.eq(v, want) }
	}
	fixed := func(n int) []getCase {
		k := mkInt(int64(n))
		return []getCase{
			{name: "too few bytes", class: "short", assume: []*Term{lt(rem, k)}},
			{name: "enough bytes", class: "value", assume: []*Term{le(k, rem)}, size: k, ok: sameInt(rd(n)), want: rd(n).String()},
		}
	}
	empty := func(st *State, v *Term) bool { return emptyTerm(v, st.facts) }
	isNil := func(st *State, v *Term) bool { return st.facts.decide(mkEq(v, termNil)) == 1 }
	str := func(lo, n *Term) func(st *State, v *Term) bool {
		return func(st *State, v *Term) bool {
			if emptyTerm(v, st.facts) {
				return st.facts.eq(n, mkInt(0))
			}
			if v.op != OConv || v.s != "bytes" {
				return false
			}
			return sameBytes(x, st, v.args[0], raw, lo, n)
		}
	}
	byt := func(lo, n *Term) func(st *State, v *Term) bool {
		return func(st *State, v *Term) bool {
			if emptyTerm(v, st.facts) {
				return st.facts.eq(n, mkInt(0))
			}
			return sameBytes(x, st, x.snapshot(st, v), raw, lo, n)
		}
	}
	// length prefixed data; n is the length, hdr the bytes of the prefix
	prefixed := func(n, hdr *Term, pre []*Term, null func(st *State, v *Term) bool, nullClass string, val func(lo, n *Term) func(*State, *Term) bool) []getCase {
		rest := mkSub(rem, hdr)
		with := func(ts ...*Term) []*Term { return append(append([]*Term{}, pre...), ts...) }
		return []getCase{
			{name: "length below -1", class: "short", assume: with(lt(n, mkInt(-1)))},
			{name: "length beyond the end", class: "short", assume: with(lt(rest, n), le(mkInt(0), n))},
			{name: "null", class: nullClass, assume: with(eqc(n, -1)), size: hdr, ok: null, want: "null"},
			{name: "present", class: "value", assume: with(le(mkInt(0), n), le(n, rest)), size: mkAdd(hdr, n), ok: val(mkAdd(o, hdr), n), want: "the bytes announced"},
		}
	}
	short := func(n int64) getCase {
		return getCase{name: "too few bytes", class: "short", assume: []*Term{lt(rem, mkInt(n))}}
	}
	have := func(n int64) []*Term { return []*Term{le(mkInt(n), rem)} }
	vn := mk(ORdVarN, types.Typ[types.Int], "", 0, raw, o, rem)
	vv := mk(ORdVar, types.Typ[types.Int64], "", 0, raw, o, rem)
	vshort := []getCase{
		{name: "incomplete varint", class: "short", assume: []*Term{eqc(vn, 0)}},
		{name: "oversized varint", class: "short", assume: []*Term{lt(vn, mkInt(0))}},
	}
	vok := []*Term{lt(mkInt(0), vn)}
	switch kind {
	case "Int8":
		return fixed(1)
	case "Int16":
		return fixed(2)
	case "Int32":
		return fixed(4)
	case "Int64":
		return fixed(8)
	case "Bool":
		b := mkIndex(raw, o, u(1))
		isB := func(w int) func(st *State, v *Term) bool {
			return func(st *State, v *Term) bool { return st.facts.decide(v) == w }
		}
		return []getCase{short(1),
			{name: "byte 0", class: "value", assume: append(have(1), eqc(b, 0)), size: mkInt(1), ok: isB(-1), want: "false"},
			{name: "byte 1", class: "value", assume: append(have(1), eqc(b, 1)), size: mkInt(1), ok: isB(1), want: "true"},
			{name: "byte above 1", class: "odd", assume: append(have(1), lt(mkInt(1), b)), size: mkInt(1), ok: isB(1), want: "true"},
		}
	case "String":
		return append([]getCase{short(2)}, prefixed(rd(2), mkInt(2), have(2), empty, "odd", str)...)
	case "NullableString":
		ps := func(lo, n *Term) func(st *State, v *Term) bool {
			f := str(lo, n)
			return func(st *State, v *Term) bool {
				if v.op != OAlloc {
					return false
				}
				return f(st, st.load(v, types.Typ[types.String]))
			}
		}
		return append([]getCase{short(2)}, prefixed(rd(2), mkInt(2), have(2), isNil, "value", ps)...)
	case "Bytes":
		return append([]getCase{short(4)}, prefixed(rd(4), mkInt(4), have(4), empty, "value", byt)...)
	case "VarInt":
		return append(vshort, getCase{name: "varint", class: "value", assume: vok, size: vn, ok: sameInt(vv), want: "the varint"})
	case "VarBytes":
		return append(vshort, prefixed(vv, vn, vok, empty, "value", byt)...)
	case "VarString":
		return append(vshort, prefixed(vv, vn, vok, empty, "free", str)...)
	case "ArrayLength":
		n := rd(4)
		return []getCase{short(4),
			{name: "length below -1", class: "short", assume: append(have(4), lt(n, mkInt(-1)))},
			{name: "more elements than bytes", class: "free", assume: append(have(4), lt(mkSub(rem, mkInt(4)), n), le(mkInt(0), n))},
			{name: "length", class: "value", assume: append(have(4), le(mkInt(-1), n), le(n, mkSub(rem, mkInt(4)))), size: mkInt(4), ok: sameInt(n), want: n.String()},
		}
	case "Discard":
		n := args[1]
		return []getCase{
			{name: "negative", class: "short", assume: []*Term{lt(n, mkInt(0))}},
			{name: "too few bytes", class: "short", assume: []*Term{lt(rem, n)}},
			{name: "enough bytes", class: "value", assume: []*Term{le(mkInt(0), n), le(n, rem)}, size: n},
		}
	}
	return nil
}

// sameBytes: t denotes raw[lo:lo+n].
func sameBytes(x *X, st *State, t, raw, lo, n *Term) bool {
	for {
		if t.op == OAppendS && emptyTerm(t.args[0], st.facts) {
			t = t.args[1]
			continue
		}
		if t.op == OSlice && t.s == "" && t.args[0].op == OAppendS {
			if z, ok := t.args[1].intVal(); ok && z == 0 && t.args[2] == mkLen(t.args[0]) {
				t = t.args[0]
				continue
			}
		}
		break
	}
	b, l := bufBase(t)
	f := st.facts
	return b == raw && t.s == "" && (f.eq(l, lo) && f.eq(mkLen(t), n))
}

// decoderPrims checks the primitives of Decoder. which: "value", "layout" or
// "error".
func decoderPrims(p *Prog, rep *Report, tag, which string) {
	d, err := p.decoderInfo()
	if err != nil {
		rep.bad(tag+":decoder", "", "%v", err)
		return
	}
	rep.rule("every Decoder primitive, for every length, position and content of the buffer, does what the reference does: the cases of the reference partition each path")
	for _, fn := range d.methods {
		kind := decPrim(fn)
		if kind == "" {
			continue
		}
		rep.ok("decoder_primitives")
		if isArrayPrim(kind) {
			d.arrayPrim(rep, fn, kind, tag, which)
			continue
		}
		r := d.runv(fn)
		rep.visit(r.x)
		rep.undecided(r.x, fn.Name())
		cs := d.cases(r.x, kind, &r.st0, r.dec, r.args)
		for _, o := range r.outs {
			if o.panic {
				rep.bad(tag+":"+kind+":panic", p.pos(o.pos), "%s can panic", kind)
				continue
			}
			if o.stop || o.st.facts.dead {
				continue
			}
			d.getPath(rep, fn, kind, tag, which, cs, r, o)
		}
	}
	rep.need("decoder_primitives", 16)
}

func (d *decInfo) runv(fn *ssa.Function) *primRun {
	x := newX(d.p)
	dec := d.newDec()
	r := &primRun{fn: fn, x: x, dec: dec, st0: d.start(dec)}
	r.args = []*Term{dec}
	for i, q := range fn.Params[1:] {
		r.args = append(r.args, namedSym(fmt.Sprintf("a%d", i), q.Type()))
	}
	r.outs = x.Run(fn, r.args, nil, r.st0, nil, 0)
	return r
}

func (d *decInfo) getPath(rep *Report, fn *ssa.Function, kind, tag, which string, cs []getCase, r *primRun, o CallOut) {
	p := d.p
	pos := p.pos(o.pos)
	for _, c := range cs {
		if which == "cause" {
			d.shortCause(rep, kind, tag, c, o)
			continue
		}
		if c.class == "short" && which != "error" || c.class == "odd" && which != "layout" || c.class == "free" {
			continue
		}
		if c.class == "value" && which == "error" {
			continue
		}
		st := o.st
		for _, a := range c.assume {
			st.facts = st.facts.assume(a)
		}
		if st.facts.dead {
			continue
		}
		rep.ok("decoder_cases")
		var v, er *Term
		if o.ret.op == OTuple {
			v, er = st.facts.resolve(o.ret.args[0]), st.facts.resolve(o.ret.args[1])
			if isInt(o.ret.args[0].typ) {
				v = o.ret.args[0]
			}
		} else {
			er = st.facts.resolve(o.ret)
		}
		isNil := st.facts.decide(mkEq(er, termNil))
		key := tag + ":" + kind + ":" + c.name
		if c.class == "short" {
			if isNil != -1 {
				rep.bad(key, pos, "%s (%s): success may be reported", kind, c.name)
			}
			continue
		}
		if isNil != 1 {
			rep.bad(key, pos, "%s (%s): an error may be reported for well-formed data", kind, c.name)
			continue
		}
		o0, o1 := d.get(&r.st0, r.dec, d.offF), d.get(&st, r.dec, d.offF)
		if !st.facts.eq(o1, mkAdd(o0, c.size)) {
			rep.bad(key, pos, "%s (%s): the position becomes %s instead of %s", kind, c.name, o1, mkAdd(o0, c.size))
		}
		if c.ok != nil && !c.ok(&st, v) {
			rep.bad(key, pos, "%s (%s): returns %s instead of %s", kind, c.name, v, c.want)
		}
	}
}

// shortCause: where bytes are missing the error says so.
func (d *decInfo) shortCause(rep *Report, kind, tag string, c getCase, o CallOut) {
	switch c.name {
	case "too few bytes", "length beyond the end", "incomplete varint", "more elements than bytes":
	default:
		return
	}
	f := o.st.facts
	for _, a := range c.assume {
		f = f.assume(a)
	}
	if f.dead {
		return
	}
	er := o.ret
	if er.op == OTuple {
		er = er.args[1]
	}
	if f.decide(mkEq(f.resolve(er), termNil)) != -1 {
		return // C05
	}
	rep.ok("short_cases")
	for _, t := range carried(f, er) {
		if isShort(t) {
			return
		}
	}
	rep.bad(tag+":"+kind+":"+c.name, d.p.pos(o.pos), "%s (%s): the error is %s, which IsInsufficientDataError does not recognise", kind, c.name, f.resolve(er))
}

// arrayPrim: an array length followed by that many elements, each stored at its
// index.
func (d *decInfo) arrayPrim(rep *Report, fn *ssa.Function, kind, tag, which string) {
	p := d.p
	elem := kind[:len(kind)-len("Array")]
	dc := &decodeCtx{p: p, types: p.codecTypes(), memo: map[string]*decResult{}, rep: rep}
	x := dc.newX()
	x.atomic = func(g *ssa.Function) bool { k := decPrim(g); return g != fn && k != "" && !isArrayPrim(k) }
	dec := d.newDec()
	outs := x.Run(fn, []*Term{dec}, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	rep.undecided(x, fn.Name())
	key := tag + ":" + kind
	c := &codecType{name: kind}
	some := false
	for _, o := range outs {
		pos := p.pos(o.pos)
		if o.panic || o.stop {
			rep.bad(key+":panic", pos, "%s can panic or block", kind)
			continue
		}
		f := o.st.facts
		if which == "error" || which == "cause" {
			dc.errs, dc.causes = rep, which == "cause"
			dc.checkErrs(c, o.st.events(), f, f.resolve(o.ret.args[1]), true, pos)
			continue
		}
		if f.decide(mkEq(f.resolve(o.ret.args[1]), termNil)) == -1 {
			if why := dc.spuriousError(o.st.events(), f); why != "" {
				rep.bad(key+":spurious", pos, "%s: %s", kind, why)
			}
			continue
		}
		m := map[*Term]string{}
		st := o.st
		dc.destinations(&st, o.ret.args[0], fn.Signature.Results().At(0).Type(), "result", m, 0)
		missing := 0
		items, err := dc.walk(o.st.events(), o.st, m, dec, nil, &missing)
		if err != nil {
			rep.bad(key+":elements", errPos(err), "%s: %v", kind, err)
			continue
		}
		if missing > 0 && len(items) == 1 {
			if !emptyTerm(o.ret.args[0], f) {
				rep.bad(key+":null", pos, "%s: a null or empty array is returned as %s", kind, o.ret.args[0])
			}
			continue
		}
		if len(items) != 1 || items[0].Kind != "Array" || items[0].Path != "result" || len(items[0].Sub) != 1 || items[0].Sub[0].Kind != elem || items[0].Sub[0].Path != "result[]" {
			rep.bad(key+":elements", pos, "%s decodes %s", kind, brief(flatten(items)))
			continue
		}
		some = true
	}
	if which != "error" && which != "cause" && !some {
		rep.bad(key+":elements", p.pos(fn.Pos()), "%s never returns elements", kind)
	}
}

// spuriousError says why an error outcome is not justified by a failing step
// or an impossible array length.
func (dc *decodeCtx) spuriousError(evs []*Ev, f *Facts) string {
	var last *Ev
	ok := false
	var scan func(evs []*Ev)
	scan = func(evs []*Ev) {
		for _, e := range evs {
			if !dc.isDecodeEv(e) {
				continue
			}
			last = e
			if er := errOf(e); er != nil && f.decide(mkEq(er, termNil)) == -1 {
				ok = true
			}
			if k := decPrim(e.fn); k == "ArrayLength" || k == "Int32" {
				if v := resultVal(e); v != nil && f.entailsGE(linOf(v).scale(-1).addc(-2)) {
					ok = true
				}
			}
		}
	}
	scan(evs)
	if ok {
		return ""
	}
	if last == nil {
		return "an error is reported although nothing failed to decode"
	}
	return fmt.Sprintf("an error is reported although %s and everything before it were decoded", last.fn.Name())
}
