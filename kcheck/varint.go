package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Variable-length integers written out by hand: zig-zag by shifts, and loops that
// take seven bits per round. They mean what binary.PutVarint and PutUvarint mean.

// widened strips conversions to 64 bits.
func widened(t *Term) *Term {
	for t.op == OConv && is64(t.typ) && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Uint64 || b.Kind() == types.Int || b.Kind() == types.Uint)
}

// unzigzag gives v if u is the zig-zag form of v.
func unzigzag(f *Facts, u *Term) *Term {
	doubled := func(t *Term) *Term {
		t = widened(t)
		if t.op == OBin && t.s == "<<" && t.typ != nil && is64(t.typ) {
			n := t.n
			if len(t.args) == 2 {
				n, _ = t.args[1].intVal()
			}
			if n == 1 {
				return widened(t.args[0])
			}
		}
		return nil
	}
	t := widened(u)
	if n, ok := t.intVal(); ok && n >= 0 {
		if n%2 == 0 {
			return mkInt(n / 2)
		}
		return mkInt(-(n / 2) - 1)
	}
	if t.op == OBin && t.s == "^" && len(t.args) == 2 {
		for i := 0; i < 2; i++ {
			v := doubled(t.args[i])
			s := widened(t.args[1-i])
			if v == nil {
				continue
			}
			if n, ok := s.intVal(); ok && n == 0 && f.entailsGE(linOf(v)) {
				return v
			}
			if s.op != OBin || s.s != ">>" || len(s.args) != 2 || s.typ == nil || !signed(s.typ) || !is64(s.typ) || widened(s.args[0]) != v {
				continue
			}
			if a := s.args[0]; a.op == OConv && !signed(a.typ) {
				continue // no sign to shift in
			}
			if n, ok := s.args[1].intVal(); ok && n == 63 {
				return v
			}
		}
		return nil
	}
	if v := doubled(t); v != nil && f.entailsGE(linOf(v)) {
		return v
	}
	if t.op == OUn && t.s == "^" {
		if v := doubled(t.args[0]); v != nil && f.entailsGE(linOf(v).scale(-1).addc(-1)) {
			return v
		}
	}
	return nil
}

// varOf: the number that is encoded when the groups of u are written.
func varOf(f *Facts, u *Term) (*Term, string) {
	if v := unzigzag(f, u); v != nil {
		return v, ""
	}
	return u, "unsigned"
}

// varintLoop recognises a loop that goes on while u has more than seven bits,
// takes seven off it each round, and may count the rounds and store the groups.
func (x *X) varintLoop(fr *Frame, from *ssa.BasicBlock, li *loopInfoS, st State) ([]Out, bool) {
	h := li.header
	c, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	cmp, ok := c.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	k, ok := cmp.Y.(*ssa.Const)
	if !ok || k.Value == nil {
		return nil, false
	}
	u, ok := cmp.X.(*ssa.Phi)
	if !ok || u.Block() != h || signed(u.Type()) || !is64(u.Type()) {
		return nil, false
	}
	more := -1
	switch n := k.Int64(); {
	case cmp.Op == token.GEQ && n == 0x80 || cmp.Op == token.GTR && n == 0x7f:
		more = 0
	case cmp.Op == token.LSS && n == 0x80 || cmp.Op == token.LEQ && n == 0x7f:
		more = 1
	}
	if more < 0 || !li.blocks[h.Succs[more]] || li.blocks[h.Succs[1-more]] {
		return nil, false
	}
	// one way around
	var back *ssa.BasicBlock
	in := map[*ssa.BasicBlock]bool{h: true}
	for b := h.Succs[more]; b != h; b = b.Succs[0] {
		if in[b] || !li.blocks[b] || len(b.Succs) != 1 || nphis(b) > 0 {
			return nil, false
		}
		in[b], back = true, b
	}
	if len(in) != len(li.blocks) || back == nil {
		return nil, false
	}
	isPlus := func(v ssa.Value, op token.Token, a ssa.Value, n int64) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == op && b.X == a && isIntConst(b.Y, n)
	}
	pi, pb := predIndex(from, h), predIndex(back, h)
	var counters []*ssa.Phi
	for i := 0; i < nphis(h); i++ {
		ph := h.Instrs[i].(*ssa.Phi)
		switch {
		case ph == u && isPlus(ph.Edges[pb], token.SHR, u, 7):
		case ph != u && isInt(ph.Type()) && isPlus(ph.Edges[pb], token.ADD, ph, 1):
			counters = append(counters, ph)
		default:
			return nil, false
		}
	}
	// a group: the low bits of u with the top bit set
	group := func(v ssa.Value) bool {
		conv := func(v ssa.Value) bool {
			for {
				c, ok := v.(*ssa.Convert)
				if !ok {
					break
				}
				v = c.X
			}
			if b, ok := v.(*ssa.BinOp); ok && b.Op == token.AND && isIntConst(b.Y, 0x7f) {
				v = b.X
				if c, ok := v.(*ssa.Convert); ok {
					v = c.X
				}
			}
			return v == ssa.Value(u)
		}
		for {
			c, ok := v.(*ssa.Convert)
			if !ok {
				break
			}
			v = c.X
		}
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.OR && (conv(b.X) && isIntConst(b.Y, 0x80) || conv(b.Y) && isIntConst(b.X, 0x80))
	}
	var store *ssa.Store
	var addr *ssa.IndexAddr
	for b := range in {
		for _, q := range b.Instrs {
			switch q := q.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.If, *ssa.Jump, *ssa.DebugRef:
			case *ssa.Store:
				if store != nil || !group(q.Val) {
					return nil, false
				}
				store = q
				if addr, ok = q.Addr.(*ssa.IndexAddr); !ok {
					return nil, false
				}
			default:
				return nil, false
			}
		}
	}
	u0 := x.val(fr, u.Edges[pi])
	v, kind := varOf(st.facts, u0)
	length := mk(OVarLen, types.Typ[types.Int], kind, 0, v)
	f := fr.clone()
	last := freshSym("lastgroup", u.Type())
	st.facts = st.facts.assumeRaw(mkGE0(linOf(last))).assumeRaw(mkGE0(linOf(last).scale(-1).addc(0x7f)))
	for _, ph := range counters {
		f.env[ph] = mkAddC(mkAdd(x.val(fr, ph.Edges[pi]), length), -1)
	}
	if store != nil {
		ph, ok := addr.Index.(*ssa.Phi)
		if !ok || ph.Block() != h || ph == u {
			return nil, false
		}
		z, ok := x.val(fr, ph.Edges[pi]).intVal()
		if !ok || z != 0 {
			return nil, false
		}
		var s *Term
		switch a := addr.X.(type) {
		case *ssa.FieldAddr:
			if b, ok := a.X.(ssa.Instruction); ok && in[b.Block()] {
				return nil, false
			}
			s = mkFieldAddr(x.val(fr, a.X), a.Field, a.Type())
		default:
			if b, ok := a.(ssa.Instruction); ok && in[b.Block()] {
				return nil, false
			}
			s = x.val(fr, a)
		}
		base, off := bufBase(s)
		if z, ok := off.intVal(); !ok || z != 0 {
			return nil, false
		}
		if arr, ok := pointerToArray(addr.X.Type()); ok {
			if arr.Len() < 9 {
				return nil, false
			}
		} else {
			x.obIndex(&st, fr, store.Pos(), s, mkInt(8), mkLen(s))
		}
		st.setRegion(base, mk(OVarEnc, nil, "open "+kind, 0, v, last))
	}
	f.env[u] = last
	return []Out{{kind: OutExit, st: st, fr: f, from: h, to: h.Succs[1-more]}}, true
}

func pointerToArray(t types.Type) (*types.Array, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return a, ok
}

// closeVarint: the store of the last group completes the encoding.
func (st *State) closeVarint(p, v *Term) bool {
	if p.op != OIndexAddr {
		return false
	}
	c := st.regionContents(p.args[0])
	if c == nil || c.op != OVarEnc || len(c.args) != 2 || stripConv(v) != c.args[1] {
		return false
	}
	kind := c.s[len("open "):]
	if p.args[1] != mkAddC(mk(OVarLen, types.Typ[types.Int], kind, 0, c.args[0]), -1) {
		return false
	}
	st.setRegion(p.args[0], mk(OVarEnc, nil, kind, 0, c.args[0]))
	return true
}
