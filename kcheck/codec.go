package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const msgPkg = modPath + "/message"

// A codec type has Size, Encode and Decode methods.
type codecType struct {
	name                 string
	typ                  *types.Named
	size, encode, decode *ssa.Function
	root                 bool
}

func (p *Prog) codecTypes() map[string]*codecType {
	r := map[string]*codecType{}
	k := p.pkg(msgPkg)
	if k == nil {
		return r
	}
	for name, m := range k.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok || structOf(n) == nil {
			continue
		}
		c := &codecType{name: name, typ: n, size: p.method(msgPkg, name, "Size"), encode: p.method(msgPkg, name, "Encode"), decode: p.method(msgPkg, name, "Decode"), root: true}
		if c.size == nil && c.encode == nil && c.decode == nil {
			continue
		}
		r[name] = c
	}
	// nested types
	for _, c := range r {
		s := structOf(c.typ)
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			if sl, ok := t.Underlying().(*types.Slice); ok {
				t = sl.Elem()
			}
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				if x := r[n.Obj().Name()]; x != nil && n.Obj().Pkg() == k.Pkg {
					x.root = false
				}
			}
		}
	}
	return r
}

// Item is one element of a wire layout: a primitive at a path, or an array.
type Item struct {
	Kind string // Int32, String, ..., Array
	Path string
	Sub  []Item
}

func flatten(items []Item) []string {
	var r []string
	for _, it := range items {
		r = append(r, it.Kind+" "+it.Path)
		if it.Kind == "Array" {
			r = append(r, flatten(it.Sub)...)
			r = append(r, "End "+it.Path)
		}
	}
	return r
}

func isMethodOf(fn *ssa.Function, pkg, typ string) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == typ && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

var encPrims = map[string]string{
	"PutArrayLength": "ArrayLength", "PutBool": "Bool", "PutBytes": "Bytes", "PutInt8": "Int8", "PutInt16": "Int16", "PutInt32": "Int32",
	"PutInt64": "Int64", "PutInt32Array": "Int32Array", "PutInt64Array": "Int64Array", "PutString": "String", "PutStringArray": "StringArray",
	"PutNullableString": "NullableString", "PutVarInt": "VarInt", "PutVarBytes": "VarBytes", "PutVarString": "VarString",
}
var decPrims = map[string]string{
	"ArrayLength": "ArrayLength", "Bool": "Bool", "Bytes": "Bytes", "Int8": "Int8", "Int16": "Int16", "Int32": "Int32", "Int64": "Int64",
	"Int32Array": "Int32Array", "Int64Array": "Int64Array", "String": "String", "StringArray": "StringArray", "NullableString": "NullableString",
	"VarInt": "VarInt", "VarBytes": "VarBytes", "VarString": "VarString", "Discard": "Discard",
}

func encPrim(fn *ssa.Function) string {
	if isMethodOf(fn, msgPkg, "Encoder") {
		return encPrims[fn.Name()]
	}
	return ""
}
func decPrim(fn *ssa.Function) string {
	if isMethodOf(fn, msgPkg, "Decoder") {
		return decPrims[fn.Name()]
	}
	return ""
}

// pathOf renders a value term rooted at the receiver as a field path; each
// index must be the counter of the corresponding enclosing loop.
func pathOf(t, root *Term, loops []*LoopInfo) (string, bool) {
	t = stripConv(t)
	if t == root {
		return "", true
	}
	switch t.op {
	case OField:
		b, ok := pathOf(t.args[0], root, loops)
		if !ok {
			return "", false
		}
		s := structOf(t.args[0].typ)
		if s == nil {
			return "", false
		}
		nm := s.Field(int(t.n)).Name()
		if b == "" {
			return nm, true
		}
		return b + "." + nm, true
	case OIndex:
		b, ok := pathOf(t.args[0], root, loops)
		if !ok {
			return "", false
		}
		depth := strings.Count(b, "[]")
		if depth < len(loops) && t.args[1] == loops[depth].K {
			return b + "[]", true
		}
		return "", false
	}
	return "", false
}

func stripConv(t *Term) *Term {
	for t.op == OConv && isInt(t.typ) && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

type codecErr struct {
	msg string
	pos string
}

func (e *codecErr) Error() string { return e.msg }

func cerr(pos string, format string, args ...any) error {
	return &codecErr{fmt.Sprintf(format, args...), pos}
}

// encodeLayout evaluates fn(recv, e, version) and returns the sequence of
// primitives it emits.
func (p *Prog) encodeLayout(c *codecType, version int64, rep *Report) ([]Item, error) {
	x := newX(p)
	x.atomic = func(fn *ssa.Function) bool { return encPrim(fn) != "" }
	recv := namedSym("t", c.typ)
	e := namedSym("e", c.encode.Params[1].Type())
	e.nonnil = true
	outs := x.Run(c.encode, []*Term{recv, e, mkInt(version)}, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	if len(x.undecided) > 0 {
		return nil, cerr(p.pos(c.encode.Pos()), "%s", strings.Join(x.undecided, "; "))
	}
	var res []Item
	for i, o := range outs {
		if o.panic || o.stop {
			return nil, cerr(p.pos(o.pos), "encoding can panic or block")
		}
		its, err := p.encItems(o.st.events(), recv, e, nil)
		if err != nil {
			return nil, err
		}
		if i == 0 {
			res = its
			continue
		}
		if !sameLayout(res, its) {
			return nil, cerr(p.pos(c.encode.Pos()), "the fields encoded depend on something other than the version: %s versus %s", brief(flatten(res)), brief(flatten(its)))
		}
	}
	if len(outs) == 0 {
		return nil, cerr(p.pos(c.encode.Pos()), "encoding never returns")
	}
	return res, nil
}

func brief(s []string) string {
	t := strings.Join(s, ", ")
	if len(t) > 300 {
		t = t[:300] + "..."
	}
	return t
}

func sameLayout(a, b []Item) bool {
	return strings.Join(flatten(a), "\n") == strings.Join(flatten(b), "\n")
}

func (p *Prog) encItems(evs []*Ev, recv, enc *Term, loops []*LoopInfo) ([]Item, error) {
	var items []Item
	for _, ev := range evs {
		switch ev.kind {
		case "call":
			k := encPrim(ev.fn)
			if k == "" {
				continue
			}
			if ev.args[0] != enc {
				return nil, cerr(p.pos(ev.pos), "%s on another encoder", ev.fn.Name())
			}
			v := stripConv(ev.args[1])
			if k == "ArrayLength" || k == "Int32" {
				if v.op == OLen {
					path, ok := pathOf(v.args[0], recv, loops)
					if !ok {
						return nil, cerr(p.pos(ev.pos), "array length %s is not the length of a field", v)
					}
					items = append(items, Item{Kind: "Array", Path: path})
					continue
				}
				if k == "ArrayLength" {
					return nil, cerr(p.pos(ev.pos), "array length %s is not the length of a field", v)
				}
			}
			if k == "NullableString" {
				if v.op == OAlloc || v.op == OFieldAddr { // pointer to a field or a copy of it
					v = ev.st.load(v, types.Typ[types.String])
				}
			}
			if ev.args[1].op == OConv && intWidth(ev.args[1].typ) < intWidth(v.typ) {
				return nil, cerr(p.pos(ev.pos), "%s of %s loses bits", ev.fn.Name(), v)
			}
			path, ok := pathOf(v, recv, loops)
			if !ok {
				path = "=" + v.String() // a constant or computed value
			}
			items = append(items, Item{Kind: k, Path: path})
		case "loop":
			li := ev.loop
			if len(li.backs) == 0 {
				continue
			}
			var body []Item
			for i, b := range li.backs {
				bi, err := p.encItems(b.st.events(), recv, enc, append(append([]*LoopInfo{}, loops...), li))
				if err != nil {
					return nil, err
				}
				if i > 0 && !sameLayout(body, bi) {
					return nil, cerr(p.pos(ev.pos), "the elements encoded by this loop differ in form")
				}
				body = bi
			}
			if len(body) == 0 {
				continue
			}
			if len(items) == 0 || items[len(items)-1].Kind != "Array" || items[len(items)-1].Sub != nil {
				return nil, cerr(p.pos(ev.pos), "elements are encoded without a preceding array length")
			}
			last := &items[len(items)-1]
			if !ev.complete {
				return nil, cerr(p.pos(ev.pos), "the loop over %s can end before all elements are encoded", last.Path)
			}
			if li.trip == nil || li.trip.op != OLen {
				return nil, cerr(p.pos(ev.pos), "number of elements encoded (%v) is not the length of %s", li.trip, last.Path)
			}
			path, ok := pathOf(li.trip.args[0], recv, loops)
			if !ok || path != last.Path {
				return nil, cerr(p.pos(ev.pos), "number of elements encoded is the length of %s, announced is that of %s", li.trip.args[0], last.Path)
			}
			for _, it := range body {
				if !strings.HasPrefix(it.Path, path+"[]") && !strings.HasPrefix(it.Path, "=") {
					return nil, cerr(p.pos(ev.pos), "loop over %s encodes %s", path, it.Path)
				}
			}
			last.Sub = body
		case "select", "send", "recv", "go":
			return nil, cerr(p.pos(ev.pos), "unexpected %s while encoding", ev.kind)
		}
	}
	return items, nil
}

// ---- decode ----

type decResult struct {
	items []Item
	err   error
}

// decodeLayouts: per type (nested Decode calls stay symbolic and are expanded).
type decodeCtx struct {
	causes bool // errs hears about lost causes instead
	p      *Prog
	types  map[string]*codecType
	memo   map[string]*decResult
	rep    *Report
	errs   *Report // error discipline findings (C05)
	evs    int
}

func (dc *decodeCtx) nested(fn *ssa.Function) *codecType {
	if fn == nil || fn.Name() != "Decode" {
		return nil
	}
	for _, c := range dc.types {
		if c.decode == fn {
			return c
		}
	}
	return nil
}

// layout of decoding type c at version, with paths relative to the receiver.
func (dc *decodeCtx) layout(c *codecType, version int64) ([]Item, error) {
	key := fmt.Sprintf("%s@%d", c.name, version)
	if r, ok := dc.memo[key]; ok {
		return r.items, r.err
	}
	dc.memo[key] = &decResult{err: cerr(dc.p.pos(c.decode.Pos()), "recursive message type %s", c.name)}
	items, err := dc.layout1(c, version)
	dc.memo[key] = &decResult{items, err}
	return items, err
}

func (dc *decodeCtx) newX() *X {
	x := newX(dc.p)
	x.atomic = func(fn *ssa.Function) bool { return decPrim(fn) != "" || dc.nested(fn) != nil }
	x.onAtomic = func(x *X, st State, fr *Frame, fn *ssa.Function, args []*Term, ev *Ev) []CallOut {
		if decPrim(fn) == "ArrayLength" {
			// never below -1 (C04)
			ev.res = x.results(ev, fn.Signature.Results(), "ArrayLength")
			n, er := ev.res.args[0], ev.res.args[1]
			good, bad := st, st
			good.facts = good.facts.assume(mkEq(er, termNil)).assume(mkGE0(linOf(n).addc(1)))
			bad.facts = bad.facts.assume(mkNot(mkEq(er, termNil)))
			return []CallOut{{st: good, ret: ev.res}, {st: bad, ret: ev.res}}
		}
		c := dc.nested(fn)
		if c == nil {
			return nil
		}
		r := freshSym("decoded."+c.name, c.typ)
		r.info = ev
		e := freshSym(c.name+".err", types.Universe.Lookup("error").Type())
		e.info = ev
		ev.res = mk(OTuple, nil, "", 0, r, e)
		st.store(args[0], r, c.typ)
		return []CallOut{{st: st, ret: e}}
	}
	return x
}

func (dc *decodeCtx) layout1(c *codecType, version int64) ([]Item, error) {
	p := dc.p
	x := dc.newX()
	recvPtr := x.alloc(c.typ, "t") // a zero value is decoded into
	d := namedSym("d", c.decode.Params[1].Type())
	d.nonnil = true
	outs := x.Run(c.decode, []*Term{recvPtr, d, mkInt(version)}, nil, State{facts: rootFacts}, nil, 0)
	dc.rep.visit(x)
	if dc.errs != nil && dc.errs != dc.rep {
		dc.errs.visit(x)
	}
	if len(x.undecided) > 0 {
		return nil, cerr(p.pos(c.decode.Pos()), "%s", strings.Join(x.undecided, "; "))
	}
	if dc.errs != nil {
		dc.errorDiscipline(c, version, outs)
	}
	var main []Item
	have := false
	type partial struct {
		items []Item
		o     CallOut
	}
	var rest []partial
	for _, o := range outs {
		if o.panic || o.stop {
			return nil, cerr(p.pos(o.pos), "decoding can panic or block")
		}
		ret := o.st.facts.resolve(o.ret)
		if o.st.facts.decide(mkEq(ret, termNil)) == -1 {
			if why := dc.spuriousError(o.st.events(), o.st.facts); why != "" {
				return nil, cerr(p.pos(o.pos), "%s", why)
			}
			continue // error outcome
		}
		items, missing, err := dc.decItems(o, recvPtr, c, d)
		if err != nil {
			return nil, err
		}
		if missing == 0 {
			if have && !sameLayout(main, items) {
				return nil, cerr(p.pos(c.decode.Pos()), "the fields decoded depend on something other than the version: %s versus %s", brief(flatten(main)), brief(flatten(items)))
			}
			main, have = items, true
		} else {
			rest = append(rest, partial{items, o})
		}
	}
	if !have {
		return nil, cerr(p.pos(c.decode.Pos()), "decoding never succeeds")
	}
	// null arrays: the rest of the layout is unchanged
	for _, pt := range rest {
		if !prefixLayout(pt.items, main) {
			return nil, cerr(p.pos(c.decode.Pos()), "after a null array other fields are decoded: %s versus %s", brief(flatten(pt.items)), brief(flatten(main)))
		}
	}
	return main, nil
}

// prefixLayout: a equals b except that arrays of a may be null.
func prefixLayout(a, b []Item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Kind == "NullArray" && b[i].Kind == "Array" {
			continue
		}
		if a[i].Kind != b[i].Kind || a[i].Path != b[i].Path {
			return false
		}
		if a[i].Kind == "Array" && !sameLayout(a[i].Sub, b[i].Sub) {
			return false
		}
	}
	return true
}

// destinations maps values obtained from the decoder to the field they end up in.
func (dc *decodeCtx) destinations(st *State, v *Term, typ types.Type, path string, m map[*Term]string, depth int) {
	if depth > 8 || v == nil {
		return
	}
	if v.op == OSym {
		if v.info != nil {
			if old, ok := m[v]; !ok || len(path) < len(old) {
				m[v] = path
			}
		}
		return
	}
	if s := structOf(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			sub := s.Field(i).Name()
			if path != "" {
				sub = path + "." + sub
			}
			dc.destinations(st, mkField(v, i, ft), ft, sub, m, depth+1)
		}
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		switch v.op {
		case OMakeSlice:
			if n := stripConv(v.args[0]); n.op == OSym && n.info != nil {
				m[n] = path
			}
			if c := st.regionContents(v); c != nil && c.op == OMapLoop && c.args[2] == c.args[1] {
				dc.destinations(st, c.args[3], u.Elem(), path+"[]", m, depth+1)
			}
		case OAppLoop:
			if n, ok := mkLen(v.args[0]).intVal(); ok && n == 0 && len(v.args) == 4 {
				if n := stripConv(v.args[1]); n.op == OSym && n.info != nil {
					m[n] = path
				}
				dc.destinations(st, v.args[3], u.Elem(), path+"[]", m, depth+1)
			}
		case OSlice:
			if n, ok := v.args[1].intVal(); ok && n == 0 {
				if h := v.args[2]; h == mkLen(v.args[0]) {
					dc.destinations(st, v.args[0], typ, path, m, depth+1)
				}
			}
		}
	case *types.Basic:
		// string from a *string
		if v.op == ODeref && v.args[0].op == OSym && v.args[0].info != nil {
			m[v.args[0]] = path
		}
	case *types.Pointer:
		if v.op == OAlloc {
			dc.destinations(st, st.load(v, u.Elem()), u.Elem(), path, m, depth+1)
		}
	}
}

func (dc *decodeCtx) decItems(o CallOut, recvPtr *Term, c *codecType, d *Term) ([]Item, int, error) {
	m := map[*Term]string{}
	st := o.st
	dc.destinations(&st, st.load(recvPtr, c.typ), c.typ, "", m, 0)
	missing := 0
	items, err := dc.walk(o.st.events(), o.st, m, d, nil, &missing)
	return items, missing, err
}

func resultVal(ev *Ev) *Term {
	if ev.res == nil {
		return nil
	}
	if ev.res.op == OTuple {
		if len(ev.res.args) == 0 {
			return nil
		}
		return ev.res.args[0]
	}
	return ev.res
}

func (dc *decodeCtx) walk(evs []*Ev, end State, m map[*Term]string, d *Term, loops []*LoopInfo, missing *int) ([]Item, error) {
	p := dc.p
	var items []Item
	var pendN *Term // length of the last array read
	closePend := func(pos string) error {
		if pendN == nil {
			return nil
		}
		// no loop followed: only right for a null or empty array
		if end.facts.entailsGE(linOf(pendN).scale(-1)) {
			items[len(items)-1].Kind = "NullArray"
			*missing++
			pendN = nil
			return nil
		}
		return cerr(pos, "the elements of an array are not decoded")
	}
	for _, ev := range evs {
		switch ev.kind {
		case "call":
			nt := dc.nested(ev.fn)
			k := decPrim(ev.fn)
			if nt == nil && k == "" {
				continue
			}
			if err := closePend(p.pos(ev.pos)); err != nil {
				return nil, err
			}
			dc.evs++
			v := resultVal(ev)
			if nt != nil {
				if ev.args[1] != d {
					return nil, cerr(p.pos(ev.pos), "decoding from another decoder")
				}
				nv, ok := ev.args[2].intVal()
				if !ok {
					return nil, cerr(p.pos(ev.pos), "version passed to %s is not known", nt.name)
				}
				sub, err := dc.layout(nt, nv)
				if err != nil {
					return nil, err
				}
				path, ok := m[v]
				if !ok {
					return nil, cerr(p.pos(ev.pos), "decoded %s is not stored in the message", nt.name)
				}
				items = append(items, prefixPaths(sub, path)...)
				continue
			}
			if ev.args[0] != d {
				return nil, cerr(p.pos(ev.pos), "decoding from another decoder")
			}
			if k == "ArrayLength" || (k == "Int32" && dc.usedAsLength(ev, evs, v)) {
				path, ok := m[v]
				if !ok {
					path = "?"
				}
				items = append(items, Item{Kind: "Array", Path: path})
				pendN = v
				continue
			}
			path, ok := m[v]
			if !ok {
				return nil, cerr(p.pos(ev.pos), "the result of %s is not stored in the message", k)
			}
			items = append(items, Item{Kind: k, Path: path})
		case "loop":
			li := ev.loop
			has := false
			for _, b := range li.backs {
				for _, e := range b.st.events() {
					if dc.nested(e.fn) != nil || decPrim(e.fn) != "" || e.kind == "loop" {
						has = true
					}
				}
			}
			if !has {
				continue
			}
			if pendN == nil {
				return nil, cerr(p.pos(ev.pos), "elements are decoded without a preceding array length")
			}
			if !ev.complete {
				return nil, cerr(p.pos(ev.pos), "decoding can succeed with fewer elements than announced")
			}
			if li.trip == nil || stripConv(li.trip) != pendN {
				return nil, cerr(p.pos(ev.pos), "number of elements decoded (%v) is not the announced array length", li.trip)
			}
			last := &items[len(items)-1]
			var body []Item
			for i, b := range li.backs {
				bi, err := dc.walk(b.st.events(), b.st, m, d, append(append([]*LoopInfo{}, loops...), li), missing)
				if err != nil {
					return nil, err
				}
				if i > 0 && !sameLayout(body, bi) {
					return nil, cerr(p.pos(ev.pos), "the elements decoded by this loop differ in form")
				}
				body = bi
			}
			if last.Path == "?" {
				return nil, cerr(p.pos(ev.pos), "the decoded array is not stored in the message")
			}
			for _, it := range body {
				if !strings.HasPrefix(it.Path, last.Path+"[]") {
					return nil, cerr(p.pos(ev.pos), "array %s: elements are stored in %s", last.Path, it.Path)
				}
			}
			last.Sub = body
			pendN = nil
		}
	}
	if err := closePend("?"); err != nil {
		return nil, err
	}
	return items, nil
}

// usedAsLength: an Int32 that a later loop uses as its number of iterations.
func (dc *decodeCtx) usedAsLength(ev *Ev, evs []*Ev, v *Term) bool {
	for _, e := range evs {
		if e.kind == "loop" && e.loop.trip != nil && stripConv(e.loop.trip) == v {
			return true
		}
	}
	return false
}

func prefixPaths(items []Item, path string) []Item {
	r := make([]Item, len(items))
	for i, it := range items {
		r[i] = Item{Kind: it.Kind, Path: joinPath(path, it.Path), Sub: prefixPaths(it.Sub, path)}
		if it.Sub == nil {
			r[i].Sub = nil
		}
	}
	return r
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

// errorDiscipline: every error of the decoder is noticed, returned, and nothing
// is decoded after it.
func (dc *decodeCtx) errorDiscipline(c *codecType, version int64, outs []CallOut) {
	for _, o := range outs {
		if o.panic || o.stop {
			continue
		}
		dc.checkErrs(c, o.st.events(), o.st.facts, o.ret, true, dc.p.pos(o.pos))
	}
}

func errOf(ev *Ev) *Term {
	if ev.res == nil {
		return nil
	}
	if ev.res.op == OTuple {
		if n := len(ev.res.args); n > 0 && isErrorType(ev.res.args[n-1].typ) {
			return ev.res.args[n-1]
		}
		return nil
	}
	if isErrorType(ev.res.typ) {
		return ev.res
	}
	return nil
}

func (dc *decodeCtx) isDecodeEv(e *Ev) bool {
	return e.kind == "call" && (decPrim(e.fn) != "" || dc.nested(e.fn) != nil)
}

func (dc *decodeCtx) checkErrs(c *codecType, evs []*Ev, f *Facts, ret *Term, final bool, pos string) {
	r := dc.errs
	if dc.causes {
		causePath(r, "decode:"+c.name, c.name, pos, evs, f, ret, dc.isDecodeEv)
		return
	}
	var seq []*Ev
	for _, e := range evs {
		if e.kind == "loop" {
			for _, b := range e.loop.backs {
				dc.checkErrs(c, b.st.events(), b.st.facts, nil, false, dc.p.pos(e.pos))
			}
		}
		if dc.isDecodeEv(e) {
			seq = append(seq, e)
		}
	}
	for i, e := range seq {
		er := errOf(e)
		if er == nil {
			r.bad(fmt.Sprintf("decode-error:%s:%s:noerr", c.name, e.fn.Name()), dc.p.pos(e.pos), "%s: decoding step %s reports no error", c.name, e.fn.Name())
			continue
		}
		r.ok("error_checks")
		key := fmt.Sprintf("decode-error:%s:%s", c.name, e.fn.Name())
		isNil := f.decide(mkEq(er, termNil))
		switch {
		case isNil == 1:
		case isNil == -1:
			if i != len(seq)-1 {
				r.bad(key+":continue", dc.p.pos(e.pos), "%s: decoding continues after %s failed", c.name, e.fn.Name())
			}
			if !final {
				r.bad(key+":loop", dc.p.pos(e.pos), "%s: the loop goes on after %s failed", c.name, e.fn.Name())
			} else if f.decide(mkEq(f.resolve(ret), termNil)) != -1 {
				r.bad(key+":lost", dc.p.pos(e.pos), "%s: %s fails but decoding may report success", c.name, e.fn.Name())
			}
		default:
			// not examined: only right if it is what is returned, last
			if !(final && i == len(seq)-1 && ret == er) {
				r.bad(key+":unchecked", dc.p.pos(e.pos), "%s: the error of %s is not examined before %s", c.name, e.fn.Name(), map[bool]string{true: "returning", false: "the next element"}[final])
			}
		}
	}
	if final {
		// an error without a failing step is fine only if something else was found malformed
		if f.decide(mkEq(f.resolve(ret), termNil)) == 0 {
			last := (*Term)(nil)
			if len(seq) > 0 {
				last = errOf(seq[len(seq)-1])
			}
			if ret != last {
				r.bad("decode-error:"+c.name+":return", pos, "%s: whether decoding reports an error does not follow from its steps", c.name)
			}
		}
	}
}

// ---- sizes ----

func (p *Prog) sizeTerm(c *codecType, version int64, rep *Report) (*Term, error) {
	x := newX(p)
	recv := namedSym("t", c.typ)
	outs := x.Run(c.size, []*Term{recv, mkInt(version)}, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	if len(x.undecided) > 0 {
		return nil, cerr(p.pos(c.size.Pos()), "%s", strings.Join(x.undecided, "; "))
	}
	var res *Term
	for _, o := range outs {
		if o.panic || o.stop {
			return nil, cerr(p.pos(o.pos), "computing the size can panic or block")
		}
		s := canonSize(o.ret)
		if res == nil {
			res = s
		} else if res != s {
			return nil, cerr(p.pos(c.size.Pos()), "the size depends on something other than version and field lengths: %s versus %s", res, s)
		}
	}
	if res == nil {
		return nil, cerr(p.pos(c.size.Pos()), "no size")
	}
	return res, nil
}

// canonSize removes narrowing conversions and canonicalises sums: order of
// summation does not matter.
func canonSize(t *Term) *Term { return canonSizeD(t, 0) }

func canonSizeD(t *Term, depth int) *Term {
	l := linOf(t)
	r := Lin{c: l.c}
	for _, m := range l.m {
		a := stripConv(m.atom)
		if a != m.atom {
			r = r.add(linOf(canonSizeD(a, depth)).scale(m.coef))
			continue
		}
		if a.op == OSum {
			N, K, f := a.args[0], a.args[1], a.args[2]
			rev := mkSub(mkAddC(N, -1), K)
			// reversed order: every occurrence of K is in N-1-K
			marker := namedSym("κ*", types.Typ[types.Int])
			g := subst(f, map[*Term]*Term{rev: marker})
			if g != f && !containsTerm(g, K) {
				f = subst(g, map[*Term]*Term{marker: K})
			}
			k := namedSym("κ"+strconv.Itoa(depth), types.Typ[types.Int])
			f = subst(f, map[*Term]*Term{K: k})
			f = canonSizeD(f, depth+1)
			r = r.add(linOf(sumOver(canonLen(N), k, f)).scale(m.coef))
			continue
		}
		if a.op == OVarLen {
			a = mk(OVarLen, types.Typ[types.Int], a.s, 0, canonSizeD(a.args[0], depth))
		}
		r = r.add(Lin{m: []Mono{{m.coef, a}}})
	}
	return r.term()
}

func canonLen(t *Term) *Term { return stripConv(t) }

// sumOver distributes a sum over the linear form of its summand.
func sumOver(N, k, f *Term) *Term {
	l := linOf(f)
	total := linOf(N).scale(l.c)
	for _, m := range l.m {
		if containsTerm(m.atom, k) {
			total = total.add(Lin{m: []Mono{{m.coef, mk(OSum, types.Typ[types.Int], "", 0, N, k, m.atom)}}})
		} else {
			total = total.add(linOf(mkMul(N, m.atom)).scale(m.coef))
		}
	}
	return total.term()
}

// sizeOfLayout gives the number of bytes a layout occupies.
func sizeOfLayout(items []Item, root *Term, rootTyp types.Type, depth int) (*Term, error) {
	total := mkInt(0)
	for _, it := range items {
		var v *Term
		if !strings.HasPrefix(it.Path, "=") {
			var err error
			v, err = termOfPath(it.Path, root, rootTyp)
			if err != nil {
				return nil, err
			}
		} else if it.Kind != "Bool" && !strings.HasPrefix(it.Kind, "Int") {
			return nil, fmt.Errorf("size of computed %s %s", it.Kind, it.Path)
		} else if strings.HasSuffix(it.Kind, "Array") {
			return nil, fmt.Errorf("size of computed %s %s", it.Kind, it.Path)
		}
		var s *Term
		switch it.Kind {
		case "Bool", "Int8":
			s = mkInt(1)
		case "Int16":
			s = mkInt(2)
		case "Int32":
			s = mkInt(4)
		case "Int64":
			s = mkInt(8)
		case "String":
			s = mkAddC(mkLen(v), 2)
		case "Bytes":
			s = mkAddC(mkLen(v), 4)
		case "Int32Array":
			s = mkAddC(mkMul(mkInt(4), mkLen(v)), 4)
		case "Int64Array":
			s = mkAddC(mkMul(mkInt(8), mkLen(v)), 4)
		case "StringArray":
			k := namedSym("κ"+strconv.Itoa(depth), types.Typ[types.Int])
			s = mkAddC(sumOver(mkLen(v), k, mkAddC(mkLen(mkIndex(v, k, elemType(v.typ))), 2)), 4)
		case "Array":
			k := namedSym("κ"+strconv.Itoa(depth), types.Typ[types.Int])
			b, err := sizeOfLayout(it.Sub, root, rootTyp, depth+1)
			if err != nil {
				return nil, err
			}
			s = mkAddC(sumOver(mkLen(v), k, b), 4)
		default:
			return nil, fmt.Errorf("no size rule for %s", it.Kind)
		}
		total = mkAdd(total, s)
	}
	return total, nil
}

var pathTok = regexp.MustCompile(`[A-Za-z0-9_]+|\[\]`)

func termOfPath(path string, root *Term, rootTyp types.Type) (*Term, error) {
	t, typ := root, rootTyp
	depth := 0
	for _, tok := range pathTok.FindAllString(path, -1) {
		if tok == "[]" {
			et := elemType(typ)
			if et == nil {
				return nil, fmt.Errorf("bad path %s", path)
			}
			t = mkIndex(t, namedSym("κ"+strconv.Itoa(depth), types.Typ[types.Int]), et)
			typ = et
			depth++
			continue
		}
		s := structOf(typ)
		if s == nil {
			return nil, fmt.Errorf("bad path %s", path)
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == tok {
				t, typ = mkField(t, i, s.Field(i).Type()), s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("no field %s", path)
		}
	}
	return t, nil
}

func sortedTypes(m map[string]*codecType) []*codecType {
	var r []*codecType
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}
