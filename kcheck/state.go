package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// HNode is one assignment in a persistent abstract heap.
type HNode struct {
	parent *HNode
	key    *Term // address, or OElems(base) for the contents of a region
	val    *Term
}

// Ev is one event of a trace.
type Ev struct {
	complete bool   // loop: left because its condition failed, after trip iterations
	kind     string // call, go, send, recv, select, mapget, mapset, mapdel, chanclose, store, loop, defer
	name     string
	fn       *ssa.Function
	args     []*Term
	res      *Term
	pos      token.Pos
	in       *ssa.Function // function whose body contains the event
	st       State         // state just before the event
	loop     *LoopInfo
	cases    []SelCase
	chosen   int
	block    bool // select without default
	typ      types.Type
	dyn      *Term // called function value, for dynamic calls
	binds    []*Term
	stack    []string
	once     *Term   // the sync.Once it happens under
	wraps    []*Term // errors the resulting error wraps
}

type SelCase struct {
	send bool
	ch   *Term
	val  *Term
}

type TNode struct {
	prev *TNode
	ev   *Ev
	n    int
}

// State is an abstract state; all parts are persistent, so copying is cheap.
type State struct {
	heap  *HNode
	facts *Facts
	trace *TNode
}

func (st State) events() []*Ev {
	n := 0
	if st.trace != nil {
		n = st.trace.n
	}
	r := make([]*Ev, n)
	for t := st.trace; t != nil; t = t.prev {
		n--
		r[n] = t.ev
	}
	return r
}

func (st *State) emit(e *Ev) {
	n := 0
	if st.trace != nil {
		n = st.trace.n
	}
	st.trace = &TNode{st.trace, e, n + 1}
}

func (st *State) put(key, val *Term) { st.heap = &HNode{st.heap, key, val} }

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// store writes v (of type typ) at p, field by field.
func (st *State) store(p, v *Term, typ types.Type) {
	if s := structOf(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			st.store(mkFieldAddr(p, i, types.NewPointer(ft)), mkField(v, i, ft), ft)
		}
		return
	}
	st.put(p, v)
}

func rootOf(p *Term) *Term {
	for {
		switch p.op {
		case OFieldAddr, OIndexAddr, OElems, OSlice:
			p = p.args[0]
		default:
			return p
		}
	}
}

func freshRoot(p *Term) bool {
	r := rootOf(p)
	return r.op == OAlloc || r.op == OMakeSlice
}

func mkStruct(typ types.Type, args []*Term) *Term {
	s := structOf(typ)
	if len(args) > 0 {
		allZero, same := true, true
		var base *Term
		for i, a := range args {
			if a != zeroTerm(s.Field(i).Type()) {
				allZero = false
			}
			if a.op == OField && int(a.n) == i && a.args[0].typ != nil && types.Identical(a.args[0].typ, typ) && (base == nil || base == a.args[0]) {
				base = a.args[0]
			} else {
				same = false
			}
		}
		if allZero {
			return mk(OZero, typ, "", 0)
		}
		if same {
			return base
		}
	} else {
		return mk(OZero, typ, "", 0)
	}
	return mk(OStruct, typ, "", 0, args...)
}

// load reads the value of type typ at p.
func (st *State) load(p *Term, typ types.Type) *Term {
	if s := structOf(typ); s != nil {
		args := make([]*Term, s.NumFields())
		for i := range args {
			ft := s.Field(i).Type()
			args[i] = st.load(mkFieldAddr(p, i, types.NewPointer(ft)), ft)
		}
		return mkStruct(typ, args)
	}
	// innermost index step of the address, if any
	var ix *Term
	for q := p; ; q = q.args[0] {
		if q.op == OIndexAddr {
			ix = q
			break
		}
		if q.op != OFieldAddr {
			break
		}
	}
	for h := st.heap; h != nil; h = h.parent {
		if h.key == p {
			return h.val
		}
		if ix == nil {
			continue
		}
		if h.key.op == OElems && h.key.args[0] == ix.args[0] {
			return project(contentAt(h.val, ix.args[1], pointee(ix.typ), st.facts), ix, p, typ)
		}
		// another element of the same region
		for q := h.key; ; q = q.args[0] {
			if q.op == OIndexAddr {
				if q.args[0] == ix.args[0] && q != ix && sameShape(h.key, q, p, ix) && !st.facts.neq(q.args[1], ix.args[1]) {
					if st.facts.eq(q.args[1], ix.args[1]) {
						return h.val
					}
					return freshSym("maybe", typ)
				}
				break
			}
			if q.op != OFieldAddr {
				break
			}
		}
	}
	return initial(p, typ)
}

// sameShape: the field path from q to k equals the one from iy to p.
func sameShape(k, q, p, iy *Term) bool {
	for k != q && p != iy {
		if k.op != p.op || k.n != p.n {
			return false
		}
		k, p = k.args[0], p.args[0]
	}
	return k == q && p == iy
}

func project(v, ix, p *Term, typ types.Type) *Term {
	if ix == p {
		return v
	}
	b := project(v, ix, p.args[0], pointee(p.args[0].typ))
	return mkField(b, int(p.n), typ)
}

// contentAt: element i of region contents c.
func contentAt(c, i *Term, et types.Type, f *Facts) *Term {
	switch c.op {
	case OCopyOf:
		return mkIndex(c.args[0], i, et)
	case OMapLoop:
		if c.args[2] == c.args[1] { // index is the counter
			return subst(c.args[3], map[*Term]*Term{c.args[1]: i})
		}
	case OZero:
		return zeroTerm(et)
	}
	return mkIndex(c, i, et)
}

func initial(p *Term, typ types.Type) *Term {
	switch p.op {
	case OFieldAddr:
		if freshRoot(p) {
			return zeroTerm(typ)
		}
		return mkField(initialBase(p.args[0]), int(p.n), typ)
	case OIndexAddr:
		b := p.args[0]
		if b.op == OMakeSlice || b.op == OAlloc || (freshRoot(b) && b.typ != nil && isPointer(b.typ)) {
			return zeroTerm(typ)
		}
		if b.typ != nil && isPointer(b.typ) { // pointer to array
			return mkIndex(initialBase(b), p.args[1], typ)
		}
		return mkIndex(b, p.args[1], typ)
	case OAlloc, OMakeSlice:
		return zeroTerm(typ)
	}
	return mkDeref(p, typ)
}

func initialBase(p *Term) *Term {
	pt := pointee(p.typ)
	switch p.op {
	case OFieldAddr:
		return mkField(initialBase(p.args[0]), int(p.n), pt)
	case OIndexAddr:
		return initial(p, pt)
	}
	return mkDeref(p, pt)
}

// regionContents describes the current contents of slice value s as a term, or
// nil when only individual elements are known.
func (st *State) regionContents(base *Term) *Term {
	for h := st.heap; h != nil; h = h.parent {
		if h.key.op == OElems && h.key.args[0] == base {
			return h.val
		}
		if r := h.key; r.op == OIndexAddr && r.args[0] == base {
			return nil
		}
	}
	return nil
}

func (st *State) setRegion(base, c *Term) {
	st.put(mk(OElems, nil, "", 0, base), c)
}

// ---- program ----

type Prog struct {
	ssa    *ssa.Program
	pkgs   []*ssa.Package
	fset   *token.FileSet
	funcs  map[string]*ssa.Function // by String()
	dir    string
	glob   map[*ssa.Global]*globalInfo
	tables map[ssa.Value]*mapTable
	hz     *hazards // run-time panics are looked for
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	if pk == nil {
		// synthetic wrapper: bound methods, thunks
		return fn.Synthetic != "" && len(fn.Blocks) > 0 && p.wrapsRepo(fn)
	}
	for _, x := range p.pkgs {
		if x == pk {
			return true
		}
	}
	return false
}

func (p *Prog) wrapsRepo(fn *ssa.Function) bool {
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		for _, x := range p.pkgs {
			if x.Pkg == o.Pkg() {
				return true
			}
		}
	}
	return false
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if len(f) > len(p.dir) && f[:len(p.dir)] == p.dir {
		f = f[len(p.dir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
