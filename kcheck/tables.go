package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A lookup table: a map filled with constant keys where it is made, and only
// looked up afterwards. What a lookup in it gives is known case by case.
type mapTable struct {
	keys []*ssa.Const
	vals []ssa.Value
	init bool // of a package-level variable; filled by the initializer
}

const maxTable = 96

func (p *Prog) tableOf(v ssa.Value) *mapTable {
	if t, ok := p.tables[v]; ok {
		return t
	}
	if p.tables == nil {
		p.tables = map[ssa.Value]*mapTable{}
	}
	p.tables[v] = nil
	var t *mapTable
	switch v := v.(type) {
	case *ssa.MakeMap:
		t = p.filled(v, nil)
	case *ssa.Global:
		t = p.globalTable(v)
	}
	p.tables[v] = t
	return t
}

// filled gives the contents of a map that is not handed anywhere, except to g.
func (p *Prog) filled(m *ssa.MakeMap, g *ssa.Global) *mapTable {
	t := &mapTable{init: g != nil}
	seen := map[string]bool{}
	var sets, gets []ssa.Instruction
	for _, in := range *m.Referrers() {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.MapUpdate:
			k, ok := in.Key.(*ssa.Const)
			if !ok || in.Map != ssa.Value(m) || k.Value == nil || seen[k.Value.ExactString()] || in.Value == ssa.Value(m) {
				return nil
			}
			seen[k.Value.ExactString()] = true
			t.keys, t.vals = append(t.keys, k), append(t.vals, in.Value)
			sets = append(sets, in)
		case *ssa.Lookup:
			gets = append(gets, in)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		case *ssa.Range:
		case *ssa.Store:
			if g == nil || in.Addr != ssa.Value(g) {
				return nil
			}
		default:
			return nil
		}
	}
	loops := loopsOf(m.Parent())
	for _, s := range sets {
		for _, l := range loops {
			if l.blocks[s.Block()] {
				return nil
			}
		}
		for _, q := range gets {
			if !instrBefore(s, q) {
				return nil
			}
		}
	}
	if len(t.keys) == 0 || len(t.keys) > maxTable {
		return nil
	}
	return t
}

func instrBefore(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func (p *Prog) globalTable(g *ssa.Global) *mapTable {
	if g.Pkg == nil || !p.isRepoPkg(g.Pkg) || token.IsExported(g.Name()) {
		return nil
	}
	var m *ssa.MakeMap
	for _, fn := range p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.DebugRef:
					case *ssa.Store:
						mm, ok := in.Val.(*ssa.MakeMap)
						if !ok || m != nil || fn.Name() != "init" || in.Addr != ssa.Value(g) {
							return nil
						}
						m = mm
					case *ssa.UnOp:
						for _, r := range *in.Referrers() {
							switch r := r.(type) {
							case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
							case *ssa.Call:
								if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
									return nil
								}
							default:
								return nil
							}
						}
					default:
						return nil
					}
				}
			}
		}
	}
	if m == nil {
		return nil
	}
	t := p.filled(m, g)
	if t != nil {
		for _, v := range t.vals {
			if constTerm(v) == nil {
				return nil
			}
		}
	}
	return t
}

// constTerm evaluates a value of a package initializer.
func constTerm(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.ChangeType:
		return constTerm(v.X)
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.Alloc)
		s, isS := pointee(v.X.Type()).Underlying().(*types.Struct)
		if v.Op != token.MUL || !ok || !isS {
			return nil
		}
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = zeroTerm(s.Field(i).Type())
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if r != v {
					return nil
				}
			case *ssa.FieldAddr:
				set := false
				for _, w := range *r.Referrers() {
					if _, ok := w.(*ssa.DebugRef); ok {
						continue
					}
					st, ok := w.(*ssa.Store)
					if !ok || set || st.Addr != ssa.Value(r) || !instrBefore(st, v) {
						return nil
					}
					set = true
					if fs[r.Field] = constTerm(st.Val); fs[r.Field] == nil {
						return nil
					}
				}
			default:
				return nil
			}
		}
		return mkStruct(pointee(v.X.Type()), fs)
	}
	return nil
}

// lookup gives the cases of a lookup in a table, or nil.
func (x *X) lookup(fr *Frame, in *ssa.Lookup, st State) []CallOut {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	var src ssa.Value = in.X
	if u, ok := src.(*ssa.UnOp); ok && u.Op == token.MUL {
		src = u.X
	}
	t := x.p.tableOf(src)
	if t == nil || t.init && in.Parent().Name() == "init" {
		return nil
	}
	k := x.val(fr, in.Index)
	res := func(v *Term, ok bool) *Term {
		if in.CommaOk {
			return mk(OTuple, nil, "", 0, v, mkBool(ok))
		}
		return v
	}
	var r []CallOut
	none := st
	for i, c := range t.keys {
		eq := mkEq(k, mkConst(c.Value, c.Type()))
		d := st.facts.decide(eq)
		if d == -1 {
			continue
		}
		v := constTerm(t.vals[i])
		if !t.init {
			v = x.val(fr, t.vals[i])
		}
		if d == 1 {
			return []CallOut{{st: st, ret: res(v, true)}}
		}
		s := st
		s.facts = s.facts.assumeRaw(eq)
		if !s.facts.dead {
			r = append(r, CallOut{st: s, ret: res(v, true)})
		}
		none.facts = none.facts.assumeRaw(mkNot(eq))
	}
	if !none.facts.dead {
		r = append(r, CallOut{st: none, ret: res(zeroTerm(mt.Elem()), false)})
	}
	return r
}
