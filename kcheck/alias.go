package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// shares reports whether memory reachable from v (of type typ) is reachable
// from a term for which root holds.
func shares(st *State, v *Term, typ types.Type, root func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term, d int) bool
	walk = func(t *Term, d int) bool {
		if t == nil || seen[t] || d > 40 {
			return false
		}
		seen[t] = true
		if root(t) {
			return true
		}
		if t.typ != nil && (isInt(t.typ) || isBool(t.typ)) {
			return false
		}
		switch t.op {
		case OConst, OZero, OFunc, OLen, OCap, OCopyOf, ORdBE, ORdVar, ORdVarN, OByte, OVarLen, OVarEnc:
			return false
		case OSym:
			return false
		case OConv:
			if t.s == "bytes" {
				return false
			}
		case OPure:
			if isString(t.typ) {
				return false
			}
		case OAlloc:
			if pt := pointee(t.typ); pt != nil {
				return walk(st.load(t, pt), d+1)
			}
			return false
		case OMakeSlice:
			if et := elemType(t.typ); et != nil && scalar(et) {
				return false
			}
			return walk(st.regionContents(t), d+1)
		case OAppendS:
			// the base keeps its memory; the appended elements are copied
			if walk(t.args[0], d+1) {
				return true
			}
			if et := elemType(t.typ); et != nil && scalar(et) {
				return false
			}
			return walk(t.args[1], d+1)
		}
		for _, c := range t.children() {
			if walk(c, d+1) {
				return true
			}
		}
		return false
	}
	return walk(v, 0)
}

func scalar(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0 && u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalar(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return scalar(u.Elem())
	}
	return false
}

// noAlias is C08.
func noAlias(p *Prog, rep *Report) {
	d, err := p.decoderInfo()
	if err != nil {
		rep.bad("alias:decoder", "", "%v", err)
		return
	}
	rep.rule("no value a Decoder method returns is backed by memory reachable from the decoder or a global; strings and byte arrays are copies")
	root := func(dec *Term) func(*Term) bool {
		return func(t *Term) bool {
			if t.op == OGlobal {
				return !isErrorType(pointee(t.typ))
			}
			return t == dec
		}
	}
	for _, fn := range d.methods {
		if fn.Signature.Results().Len() == 0 || d.helper(fn) {
			continue
		}
		kind := decPrim(fn)
		x := newX(p)
		dec := d.newDec()
		st0 := d.start(dec)
		if isArrayPrim(kind) {
			x.atomic = func(g *ssa.Function) bool { k := decPrim(g); return g != fn && k != "" && !isArrayPrim(k) }
		}
		args := []*Term{dec}
		for _, q := range fn.Params[1:] {
			args = append(args, namedSym(q.Name(), q.Type()))
		}
		outs := x.Run(fn, args, nil, st0, nil, 0)
		rep.visit(x)
		rep.undecided(x, fn.Name())
		rep.ok("decoder_methods")
		for _, o := range outs {
			if o.panic || o.stop {
				continue
			}
			rep.ok("returned_values")
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				v := o.ret
				if rs.Len() > 1 {
					v = o.ret.args[i]
				}
				if scalar(rs.At(i).Type()) || isErrorType(rs.At(i).Type()) {
					continue
				}
				st := o.st
				if shares(&st, v, rs.At(i).Type(), root(dec)) {
					rep.bad("alias:"+fn.Name(), p.pos(o.pos), "%s returns %s, which shares memory with the decoder's buffer", fn.Name(), v)
				}
			}
		}
	}
	rep.need("decoder_methods", 16)
	// nobody else looks into the buffer
	rep.rule("no function outside Decoder's own methods touches the buffer of a Decoder")
	own := map[*ssa.Function]bool{}
	for _, m := range d.methods {
		own[m] = true
	}
	if c := p.fun(msgPkg, "NewDecoder"); c != nil {
		own[c] = true
	}
	for _, fn := range p.allFuncs() {
		if !p.inRepo(fn) {
			continue
		}
		rep.ok("functions_scanned")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var idx int
				var pos token.Pos
				switch v := in.(type) {
				case *ssa.FieldAddr:
					if !types.Identical(pointee(v.X.Type()), d.typ) {
						continue
					}
					idx, pos = v.Field, v.Pos()
				case *ssa.Field:
					if !types.Identical(v.X.Type(), d.typ) {
						continue
					}
					idx, pos = v.Field, v.Pos()
				default:
					continue
				}
				rep.ok("decoder_field_accesses")
				if idx == d.rawF && !own[rootFn(fn)] && !helperOf(p, fn, own) {
					rep.bad("alias:access:"+fn.String(), p.pos(pos), "%s accesses the decoder's buffer directly", fn)
				}
			}
		}
	}
	rep.need("functions_scanned", 500)
	// values decoded by messages come from primitives only
	rep.rule("message Decode methods store only values returned by primitives, or copies")
	spec, err := loadSpec(verifDir)
	if err != nil {
		rep.bad("spec", "", "%v", err)
		return
	}
	cts := p.codecTypes()
	dc := &decodeCtx{p: p, types: cts, memo: map[string]*decResult{}, rep: rep}
	vers := typeVersions(spec, cts)
	for _, c := range sortedTypes(cts) {
		if c.decode == nil {
			continue
		}
		for _, v := range vers[c.name] {
			x := dc.newX()
			recv := x.alloc(c.typ, "t")
			dec := d.newDec()
			outs := x.Run(c.decode, []*Term{recv, dec, mkInt(v)}, nil, State{facts: rootFacts}, nil, 0)
			rep.ok("decode_methods_x_versions")
			rep.visit(x)
			rep.undecided(x, c.name)
			for _, o := range outs {
				if o.panic || o.stop {
					continue
				}
				st := o.st
				if shares(&st, st.load(recv, c.typ), c.typ, root(dec)) {
					rep.bad("alias:"+c.name, p.pos(o.pos), "decoded %s shares memory with the decoder or a global", c.name)
				}
			}
		}
	}
	rep.need("decode_methods_x_versions", 800)
}

// helper: an unexported method only the decoder itself uses; it is analysed as
// part of the methods that call it.
func (d *decInfo) helper(fn *ssa.Function) bool {
	own := map[*ssa.Function]bool{}
	for _, m := range d.methods {
		own[m] = true
	}
	return helperOf(d.p, fn, own)
}

// helperOf: an unexported function called only by the given ones.
func helperOf(p *Prog, fn *ssa.Function, own map[*ssa.Function]bool) bool {
	if fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	calls := 0
	for _, g := range p.allFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) {
						calls++
						if !own[rootFn(g)] {
							return false
						}
					}
				}
			}
		}
	}
	return calls > 0
}
