package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Effects (C29): an inclusion-based points-to analysis of the whole repository.
// Memory that callers own or share (arguments, Clients, Brokers) is one abstract
// object that points to itself; every allocation site is one object.  No write
// may reach the former, nor anything a package-level variable leads to.

type obKind int

const (
	obSite    obKind = iota // allocation site in the repository
	obGlobal                // package-level variable
	obForeign               // whatever callers pass in or share
	obOwn                   // inside of Conn, Encoder and ring.Buffer: C13, C15
	obDec                   // inside of a Decoder and the bytes it reads
	obDest                  // the message a Decode method fills in
	obFunc                  // function or closure
	obExt                   // made by code outside the repository
)

type pobj struct {
	kind    obKind
	typ     types.Type // of what it holds; nil: anything
	fn      *ssa.Function
	content oset
	name    string
	reach   map[string]bool // types of the memory a foreign object consists of; "" for any
}

// sees: memory of one of the object's types can be behind a value of type t.
func (o *pobj) sees(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Tuple, *types.Array, *types.Interface:
		return true
	default:
		return o.reach[""] || o.reach[u.String()]
	}
}

// reachable lists the types of values found in memory behind a value of type t.
func reachable(t types.Type, r map[string]bool) {
	u := t.Underlying()
	if u == nil || r[u.String()] {
		return
	}
	r[u.String()] = true
	switch u := u.(type) {
	case *types.Pointer:
		reachable(u.Elem(), r)
	case *types.Slice:
		reachable(u.Elem(), r)
		reachable(types.NewPointer(u.Elem()), r)
	case *types.Array:
		reachable(u.Elem(), r)
		reachable(types.NewPointer(u.Elem()), r)
		reachable(types.NewSlice(u.Elem()), r)
	case *types.Map:
		reachable(u.Key(), r)
		reachable(u.Elem(), r)
	case *types.Chan:
		reachable(u.Elem(), r)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			reachable(u.Field(i).Type(), r)
			reachable(types.NewPointer(u.Field(i).Type()), r)
		}
	case *types.Interface:
		r[""] = true
	}
}

// foreignOf is the memory behind an argument of type t.
func (e *effects29) foreignOf(t types.Type) *pobj {
	o := e.byType[t.String()]
	if o == nil {
		o = &pobj{kind: obForeign, name: "caller's memory", content: oset{}, reach: map[string]bool{}}
		reachable(t, o.reach)
		o.content[o] = true
		e.byType[t.String()] = o
	}
	return o
}

type oset map[*pobj]bool

type effects29 struct {
	p       *Prog
	rep     *Report
	fns     []*ssa.Function
	val     map[ssa.Value]oset
	ret     map[*ssa.Function]oset
	site    map[ssa.Instruction]*pobj
	fobj    map[*ssa.Function]*pobj
	gobj    map[*ssa.Global]*pobj
	taken   []*ssa.Function // functions used as values
	byType  map[string]*pobj
	own     *pobj
	dec     *pobj
	dest    *pobj
	inits   map[*ssa.Function]bool
	changed bool
	writes  int
	report  bool
	impl    map[string][]*ssa.Function
	ext     map[ssa.Instruction]oset
}

func hasPtr(t types.Type) bool { return hasPtrD(t, 0) }

func hasPtrD(t types.Type, d int) bool {
	if t == nil || d > 12 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtrD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtrD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtrD(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// adapt: what object o is when seen through a value of type t.
func (e *effects29) adapt(o *pobj, t types.Type) *pobj {
	if t == nil {
		return o
	}
	if pt := pointee(t); pt != nil {
		if n, ok := pt.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && (o.kind == obForeign || o.kind == obOwn || o.kind == obDec || o.kind == obDest) {
			switch n.Obj().Name() {
			case "Conn", "Encoder", "Buffer":
				return e.own
			case "Decoder":
				return e.dec
			}
		}
	}
	if o.reach != nil && !o.sees(t) {
		return nil
	}
	if isErrorType(t) && o.kind != obExt && o.kind != obSite && o.kind != obGlobal {
		return nil // errors are never changed
	}
	var what types.Type
	switch o.kind {
	case obFunc:
		switch t.Underlying().(type) {
		case *types.Signature, *types.Interface, *types.Struct, *types.Tuple, *types.Array:
			return o
		}
		return nil
	case obSite, obGlobal, obExt:
		what = o.typ
	default:
		return o
	}
	if what != nil && !compatible(what, t, o.kind) {
		return nil
	}
	return o
}

// within: memory of type s has a part of type t.
func within(s, t types.Type, d int) bool {
	if types.Identical(s.Underlying(), t.Underlying()) {
		return true
	}
	if d > 8 {
		return true
	}
	switch u := s.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if within(u.Field(i).Type(), t, d+1) {
				return true
			}
		}
	case *types.Array:
		return within(u.Elem(), t, d+1)
	}
	return false
}

// compatible: an object of type s (the variable, the slice, the map, or the
// result of an outside call) can be behind a value of type t.
func compatible(s, t types.Type, k obKind) bool {
	if k == obExt {
		if types.IsInterface(s) {
			// some type the repository does not know
			if types.IsInterface(t) {
				return true
			}
			if pt := pointee(t); pt != nil {
				n, ok := pt.(*types.Named)
				return !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
			}
			_, st := t.Underlying().(*types.Struct)
			_, tu := t.(*types.Tuple)
			return st || tu
		}
		if pt := pointee(s); pt != nil {
			return compatible(pt, t, obSite)
		}
		if _, ok := s.Underlying().(*types.Slice); ok {
			return compatible(elems(s), t, obSite)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return hasArray(s, u.Elem(), 0) // s[:] of a part
	case *types.Map, *types.Chan, *types.Signature:
		return types.Identical(s.Underlying(), u) || isChan(s) && isChan(u)
	case *types.Pointer:
		switch v := s.Underlying().(type) {
		case *types.Map, *types.Chan, *types.Signature:
			return types.Identical(v, u.Elem().Underlying())
		}
		return within(s, u.Elem(), 0)
	case *types.Interface:
		if u.Empty() || isChan(s) {
			return true
		}
		return types.Implements(s, u) || types.Implements(types.NewPointer(s), u)
	}
	return true
}

// elems is the type of the memory behind a slice.
func elems(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return types.NewArray(s.Elem(), 1)
	}
	return t
}

func hasArray(s, elem types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := s.Underlying().(type) {
	case *types.Array:
		return types.Identical(u.Elem().Underlying(), elem.Underlying()) || hasArray(u.Elem(), elem, d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasArray(u.Field(i).Type(), elem, d+1) {
				return true
			}
		}
	}
	return false
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (e *effects29) add(dst oset, t types.Type, src oset) {
	for o := range src {
		o = e.adapt(o, t)
		if o != nil && !dst[o] {
			dst[o] = true
			e.changed = true
		}
	}
}

func (e *effects29) get(v ssa.Value) oset {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Function:
		return oset{e.funcObj(v): true}
	case *ssa.Global:
		return oset{e.globalObj(v): true}
	case *ssa.Builtin:
		return nil
	}
	s := e.val[v]
	if s == nil {
		s = oset{}
		e.val[v] = s
	}
	return s
}

func (e *effects29) set(v ssa.Value, src oset) {
	if v == nil || !hasPtr(v.Type()) {
		return
	}
	e.add(e.get(v), v.Type(), src)
}

func (e *effects29) funcObj(f *ssa.Function) *pobj {
	o := e.fobj[f]
	if o == nil {
		o = &pobj{kind: obFunc, fn: f, content: oset{}, name: f.String()}
		e.fobj[f] = o
		e.taken = append(e.taken, f)
		e.changed = true
	}
	return o
}

func (e *effects29) globalObj(g *ssa.Global) *pobj {
	o := e.gobj[g]
	if o == nil {
		o = &pobj{kind: obGlobal, typ: pointee(g.Type()), content: oset{}, name: g.Name()}
		e.gobj[g] = o
	}
	return o
}

func (e *effects29) siteObj(in ssa.Instruction, k obKind, t types.Type) oset {
	o := e.site[in]
	if o == nil {
		o = &pobj{kind: k, typ: t, content: oset{}, name: e.p.pos(in.Pos())}
		e.site[in] = o
	}
	return oset{o: true}
}

// extObj: what a call outside the repository returns, one object per result.
func (e *effects29) extObj(in ssa.Instruction, t types.Type) oset {
	tu, ok := t.(*types.Tuple)
	if !ok {
		return e.siteObj(in, obExt, t)
	}
	if r := e.ext[in]; r != nil {
		return r
	}
	r := oset{}
	for i := 0; i < tu.Len(); i++ {
		if hasPtr(tu.At(i).Type()) {
			r[&pobj{kind: obExt, typ: tu.At(i).Type(), content: oset{}, name: e.p.pos(in.Pos())}] = true
		}
	}
	e.ext[in] = r
	return r
}

func (e *effects29) contents(s oset) oset {
	r := oset{}
	for o := range s {
		for c := range o.content {
			r[c] = true
		}
	}
	return r
}

func (e *effects29) put(s oset, v oset) {
	for o := range s {
		e.add(o.content, nil, v)
	}
}

// write is called for every instruction that changes the memory s leads to.
func (e *effects29) write(fn *ssa.Function, pos token.Pos, addr ssa.Value, s oset, what string) {
	if !e.report {
		return
	}
	e.writes++
	for o := range s {
		switch o.kind {
		case obForeign:
			e.rep.bad("writes:"+fn.String(), e.p.pos(pos), "%s %s memory of its caller: a Client, Broker or argument must stay as it was", shortFn(fn), what)
		case obDec:
			if fa, ok := addr.(*ssa.FieldAddr); ok {
				if n, ok := pointee(fa.X.Type()).(*types.Named); ok && n.Obj().Name() == "Decoder" {
					continue
				}
			}
			e.rep.bad("writes:"+fn.String(), e.p.pos(pos), "%s %s the bytes it decodes", shortFn(fn), what)
		case obGlobal:
			if !e.inits[fn] {
				e.rep.bad("global:"+o.name+":"+fn.String(), e.p.pos(pos), "%s %s the package-level variable %s, which all connections share", shortFn(fn), what, o.name)
			}
		case obSite, obFunc, obExt:
			if !e.inits[fn] && e.fromGlobal()[o] {
				e.rep.bad("global:"+fn.String(), e.p.pos(pos), "%s %s memory that a package-level variable leads to", shortFn(fn), what)
			}
		}
	}
}

var fromGlobalMemo map[*effects29]oset = map[*effects29]oset{}

// fromGlobal: everything package-level variables lead to.
func (e *effects29) fromGlobal() oset {
	if r, ok := fromGlobalMemo[e]; ok {
		return r
	}
	r := oset{}
	var visit func(o *pobj)
	visit = func(o *pobj) {
		for c := range o.content {
			if !r[c] {
				r[c] = true
				visit(c)
			}
		}
	}
	for _, g := range e.gobj {
		visit(g)
	}
	fromGlobalMemo[e] = r
	return r
}

// calls that only read what they are given, by package
var readers = map[string]bool{"strings": true, "strconv": true, "fmt": true, "errors": true, "net": true, "crypto/tls": true, "context": true, "time": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true, "bytes": true, "log": true, "encoding/binary": true, "encoding/hex": true, "sync": true, "sync/atomic": true, "bufio": true, "io": true, "hash/crc32": true, "os": true, "runtime": true, "runtime/debug": true, "reflect": true, "maps": true, "cmp": true}

// writers: index of the argument that is written, by name prefix.
func mutator(name string) (int, bool) {
	switch {
	case strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "sort.Search") && !strings.Contains(name, "AreSorted") && !strings.Contains(name, "IsSorted"):
		return 0, true
	case strings.HasPrefix(name, "slices."):
		for _, p := range []string{"Sort", "Reverse", "Delete", "Compact", "Insert", "Replace"} {
			if strings.HasPrefix(name, "slices."+p) {
				return 0, true
			}
		}
		return -1, false
	case strings.HasPrefix(name, "maps.Copy") || strings.HasPrefix(name, "maps.Delete") || strings.HasPrefix(name, "maps.Insert"):
		return 0, true
	case strings.Contains(name, "encoding/binary.") && strings.Contains(name, "Put"):
		if strings.HasPrefix(name, "(") {
			return 1, true
		}
		return 0, true
	case strings.Contains(name, "encoding/binary.") && strings.Contains(name, "Append"):
		if strings.HasPrefix(name, "(") {
			return 1, true
		}
		return 0, true
	case strings.HasPrefix(name, "strconv.Append") || strings.HasPrefix(name, "fmt.Append"):
		return 0, true
	case strings.HasPrefix(name, "(*crypto/tls.Config).Set"), strings.HasPrefix(name, "(*net.Dialer).Set"):
		return 0, true
	case name == "io.ReadFull" || name == "io.ReadAtLeast" || strings.HasSuffix(name, ").Read"):
		return 1, true
	}
	return -1, false
}

func (e *effects29) external(fn *ssa.Function, in ssa.CallInstruction, name, pkg string, args []ssa.Value, res ssa.Value) {
	if i, ok := mutator(name); ok && i < len(args) {
		e.write(fn, in.Pos(), nil, e.get(args[i]), "lets "+name+" change")
	} else if !readers[pkg] && !strings.HasPrefix(name, "slices.") {
		for _, a := range args {
			for o := range e.get(a) {
				if o.kind == obForeign && e.report {
					e.rep.bad("undecided:"+name, e.p.pos(in.Pos()), "%s passes its caller's memory to %s, of which nothing is known", shortFn(fn), name)
				}
			}
		}
	}
	if res == nil {
		return
	}
	made := e.extObj(in, res.Type())
	e.set(res, made)
	copies := name == tlsClone
	for _, p := range []string{"slices.Clone", "slices.Concat", "bytes.Clone", "maps.Clone", "bytes.Join", "bytes.Repeat", "strings."} {
		copies = copies || strings.HasPrefix(name, p)
	}
	for _, a := range args {
		if copies {
			break
		}
		if types.Identical(a.Type(), res.Type()) {
			e.set(res, e.get(a))
		}
		if tu, ok := res.Type().(*types.Tuple); ok {
			for i := 0; i < tu.Len(); i++ {
				if types.Identical(tu.At(i).Type(), a.Type()) {
					e.set(res, e.get(a))
				}
			}
		}
	}
	// keep what is passed in reachable from what comes back (wrappers)
	for o := range made {
		for _, a := range args {
			e.add(o.content, nil, e.get(a))
		}
	}
}

func (e *effects29) bind(callee *ssa.Function, args []oset, res ssa.Value) {
	for i, q := range callee.Params {
		if i < len(args) {
			e.set(q, args[i])
		}
	}
	if res != nil {
		e.set(res, e.ret[callee])
	}
}

func (e *effects29) call(fn *ssa.Function, in ssa.CallInstruction) {
	com := in.Common()
	res, _ := in.(ssa.Value)
	if _, ok := in.(*ssa.Call); !ok {
		res = nil
	}
	var sets []oset
	for _, a := range com.Args {
		sets = append(sets, e.get(a))
	}
	known := func(f *ssa.Function) bool { return len(f.Blocks) > 0 && e.in(f) }
	if com.IsInvoke() {
		hit := false
		recv := e.get(com.Value)
		for _, f := range e.implementers(com.Value.Type(), com.Method) {
			hit = true
			e.bind(f, append([]oset{recv}, sets...), res)
		}
		if hit {
			return
		}
		pkg := ""
		if com.Method.Pkg() != nil {
			pkg = com.Method.Pkg().Path()
		}
		e.external(fn, in, "("+com.Value.Type().String()+")."+com.Method.Name(), pkg, append([]ssa.Value{com.Value}, com.Args...), res)
		return
	}
	switch f := com.Value.(type) {
	case *ssa.Builtin:
		e.builtin(fn, in, f.Name(), com.Args, res)
		return
	case *ssa.Function:
		if known(f) {
			e.bind(f, sets, res)
			return
		}
		pkg := ""
		if f.Package() != nil {
			pkg = f.Package().Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			pkg = f.Object().Pkg().Path()
		}
		e.external(fn, in, f.String(), pkg, com.Args, res)
		return
	}
	for o := range e.get(com.Value) {
		switch {
		case o.kind == obFunc && known(o.fn):
			e.bind(o.fn, sets, res)
		case o.kind == obFunc:
			if res != nil {
				e.set(res, e.extObj(in, res.Type()))
			}
		case o.kind == obForeign || o.kind == obOwn || o.kind == obGlobal:
			// any function of the repository that is used as a value
			for _, g := range e.taken {
				if known(g) && types.Identical(g.Signature, com.Signature()) && g.Signature.Recv() == nil {
					e.bind(g, sets, res)
				}
			}
		}
	}
}

func (e *effects29) builtin(fn *ssa.Function, in ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	switch name {
	case "append":
		a := e.get(args[0])
		s := e.siteObj(in, obSite, elems(args[0].Type()))
		for _, v := range args {
			e.put(s, e.contents(e.get(v)))
			e.put(a, e.contents(e.get(v)))
		}
		if !noRoom(args[0]) {
			e.write(fn, in.Pos(), nil, a, "appends in place to")
		}
		if res != nil {
			e.set(res, a)
			e.set(res, s)
		}
	case "copy":
		e.put(e.get(args[0]), e.contents(e.get(args[1])))
		e.write(fn, in.Pos(), nil, e.get(args[0]), "copies into")
	case "delete", "clear":
		e.write(fn, in.Pos(), nil, e.get(args[0]), "removes from")
	default:
		if res != nil {
			for _, a := range args {
				e.set(res, e.get(a))
			}
		}
	}
}

// noRoom: v is s[i:j:j], to which nothing can be appended in place
func noRoom(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && sameSSA(s.Max, s.High)
}

func sameSSA(a, b ssa.Value) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 {
		return ca.Value != nil && cb.Value != nil && ca.Value.ExactString() == cb.Value.ExactString()
	}
	la, ok1 := a.(*ssa.Call)
	lb, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		fa, ok1 := la.Call.Value.(*ssa.Builtin)
		fb, ok2 := lb.Call.Value.(*ssa.Builtin)
		if ok1 && ok2 && fa.Name() == "len" && fb.Name() == "len" {
			return sameLoad(la.Call.Args[0], lb.Call.Args[0])
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return x.X == y.X || ok1 && ok2 && f.Field == g.Field && (f.X == g.X || sameLoad(f.X, g.X))
}

func (e *effects29) in(f *ssa.Function) bool { return e.val != nil && e.ret[f] != nil }

func (e *effects29) implementers(t types.Type, m *types.Func) []*ssa.Function {
	key := t.String() + "." + m.Name()
	if r, ok := e.impl[key]; ok {
		return r
	}
	var r []*ssa.Function
	iface, _ := t.Underlying().(*types.Interface)
	for _, k := range e.p.pkgs {
		var names []string
		for n := range k.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			mt, ok := k.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(mt.Type()) {
				continue
			}
			for _, tt := range []types.Type{mt.Type(), types.NewPointer(mt.Type())} {
				if iface == nil || !types.Implements(tt, iface) {
					continue
				}
				if sel := e.p.ssa.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name()); sel != nil {
					if f := e.p.ssa.MethodValue(sel); f != nil && e.in(f) {
						r = append(r, f)
					}
				}
			}
		}
	}
	e.impl[key] = r
	return r
}

func (e *effects29) instr(fn *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		e.set(in, e.siteObj(in, obSite, pointee(in.Type())))
	case *ssa.MakeSlice:
		e.set(in, e.siteObj(in, obSite, elems(in.Type())))
	case *ssa.MakeMap:
		e.set(in, e.siteObj(in, obSite, in.Type()))
	case *ssa.MakeChan:
		e.set(in, e.siteObj(in, obSite, in.Type()))
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		e.set(in, oset{e.funcObj(f): true})
		for i, b := range in.Bindings {
			e.set(f.FreeVars[i], e.get(b))
		}
	case *ssa.FieldAddr:
		e.set(in, e.get(in.X))
	case *ssa.IndexAddr:
		e.set(in, e.get(in.X))
	case *ssa.Slice:
		e.set(in, e.get(in.X))
	case *ssa.UnOp:
		if in.Op == token.MUL || in.Op == token.ARROW {
			e.set(in, e.contents(e.get(in.X)))
		}
	case *ssa.Store:
		if hasPtr(in.Val.Type()) {
			e.put(e.get(in.Addr), e.get(in.Val))
		}
		e.write(fn, in.Pos(), in.Addr, e.get(in.Addr), "changes")
	case *ssa.MapUpdate:
		m := e.get(in.Map)
		e.put(m, e.get(in.Key))
		e.put(m, e.get(in.Value))
		e.write(fn, in.Pos(), nil, m, "changes a map in")
	case *ssa.Lookup:
		e.set(in, e.contents(e.get(in.X)))
	case *ssa.Range:
		e.set(in, e.get(in.X))
	case *ssa.Next:
		e.set(in, e.contents(e.get(in.Iter)))
	case *ssa.Send:
		e.put(e.get(in.Chan), e.get(in.X))
	case *ssa.Select:
		for _, s := range in.States {
			if s.Send != nil {
				e.put(e.get(s.Chan), e.get(s.Send))
			} else {
				e.set(in, e.contents(e.get(s.Chan)))
			}
		}
	case *ssa.Phi:
		for _, v := range in.Edges {
			e.set(in, e.get(v))
		}
	case *ssa.ChangeType:
		e.set(in, e.get(in.X))
	case *ssa.ChangeInterface:
		e.set(in, e.get(in.X))
	case *ssa.MakeInterface:
		e.set(in, e.get(in.X))
	case *ssa.TypeAssert:
		e.set(in, e.get(in.X))
	case *ssa.Extract:
		e.set(in, e.get(in.Tuple))
	case *ssa.Field:
		e.set(in, e.get(in.X))
	case *ssa.Index:
		e.set(in, e.get(in.X))
	case *ssa.SliceToArrayPointer:
		e.set(in, e.get(in.X))
	case *ssa.Convert:
		if !hasPtr(in.X.Type()) {
			e.set(in, e.siteObj(in, obSite, elems(in.Type())))
		} else {
			e.set(in, e.get(in.X))
		}
	case *ssa.MultiConvert:
		e.set(in, e.get(in.X))
	case *ssa.Return:
		for _, v := range in.Results {
			if hasPtr(v.Type()) {
				e.add(e.ret[fn], nil, e.get(v))
			}
		}
	case ssa.CallInstruction:
		e.call(fn, in)
	}
}

// sharedMemory is C29.
func sharedMemory(p *Prog, rep *Report) {
	e := &effects29{p: p, rep: rep, val: map[ssa.Value]oset{}, ret: map[*ssa.Function]oset{}, site: map[ssa.Instruction]*pobj{}, fobj: map[*ssa.Function]*pobj{}, gobj: map[*ssa.Global]*pobj{}, inits: map[*ssa.Function]bool{}, impl: map[string][]*ssa.Function{}, ext: map[ssa.Instruction]oset{}, byType: map[string]*pobj{}}
	self := func(k obKind, name string) *pobj {
		o := &pobj{kind: k, name: name, content: oset{}}
		o.content[o] = true
		return o
	}
	e.own, e.dec, e.dest = self(obOwn, "connection"), self(obDec, "decoder"), self(obDest, "destination")
	// every function, including the wrappers the compiler adds
	all := map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(p.ssa) {
		all[f] = true
	}
	for _, f := range p.allFuncs() {
		all[f] = true
	}
	for f := range all {
		if len(f.Blocks) == 0 {
			continue
		}
		if p.inRepo(f) || f.Synthetic != "" && f.Object() != nil && f.Object().Pkg() != nil && strings.HasPrefix(f.Object().Pkg().Path(), modPath) {
			e.fns = append(e.fns, f)
			e.ret[f] = oset{}
			if f.Synthetic == "package initializer" || f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "init#") {
				e.inits[f] = true
			}
		}
	}
	sort.Slice(e.fns, func(i, j int) bool { return e.fns[i].String() < e.fns[j].String() })
	for _, f := range e.fns {
		e.entry(f)
	}
	for pass := 0; ; pass++ {
		e.changed = false
		for _, f := range e.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					e.instr(f, in)
				}
			}
		}
		if !e.changed {
			break
		}
		if pass > 200 {
			rep.bad("undecided:fixpoint", "", "the points-to analysis does not converge")
			return
		}
	}
	e.report = true
	for _, f := range e.fns {
		rep.fns[f.String()] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				e.instr(f, in)
			}
		}
	}
	rep.counts["writes_checked"] = e.writes
	rep.counts["package_level_variables"] = len(e.gobj)
	rep.need("writes_checked", 200)
	rep.need("entry_points", 300)
}

// entry gives the parameters of exported functions what their callers own.
func (e *effects29) entry(f *ssa.Function) {
	if f.Synthetic != "" || f.Parent() != nil || !token.IsExported(f.Name()) || f.Package() == nil {
		return
	}
	path := f.Package().Pkg.Path()
	if path == ringPkg {
		return // its arguments are buffers to fill, see C15
	}
	e.rep.ok("entry_points")
	for i, q := range f.Params {
		if !hasPtr(q.Type()) {
			continue
		}
		o := e.adapt(e.foreignOf(q.Type()), q.Type())
		if i == 0 && f.Signature.Recv() != nil && f.Name() == "Decode" && pointee(q.Type()) != nil {
			o = e.dest
		}
		if o != nil {
			e.set(q, oset{o: true})
		}
	}
}

func init() {
	checks["C29"] = func(p *Prog, rep *Report, verif string) {
		rep.rule("whole-repository points-to analysis: no store, map update, append in place, copy or library call changes memory reachable from an argument, a Client, a Broker or a package-level variable (outside of initialisation); exempt are the inside of connections (C13), of the ring (C15) and of encoders, the position of a decoder, and the message a Decode method fills in")
		sharedMemory(p, rep)
	}
}
