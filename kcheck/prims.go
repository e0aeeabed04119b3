package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Encoder and decoder primitives against a reference description.

func fieldIndex(t types.Type, pred func(*types.Var) bool) int {
	s := structOf(t)
	if s == nil {
		return -1
	}
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			if r >= 0 {
				return -2
			}
			r = i
		}
	}
	return r
}

type encInfo struct {
	p           *Prog
	typ         types.Type // Encoder
	errF, tgtF  int
	methods     []*ssa.Function
	constructor *ssa.Function
}

func namedType(p *Prog, pkg, name string) types.Type {
	k := p.pkg(pkg)
	if k == nil {
		return nil
	}
	t, ok := k.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	return t.Type()
}

// methodsOf lists the methods declared on a type of the repository.
func (p *Prog) methodsOf(pkg, name string) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	t := namedType(p, pkg, name)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.ssa.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			fn := p.ssa.MethodValue(ms.At(i))
			if fn != nil && fn.Synthetic == "" && !seen[fn] && len(fn.Blocks) > 0 {
				seen[fn] = true
				r = append(r, fn)
			}
		}
	}
	return r
}

func (p *Prog) encoderInfo() (*encInfo, error) {
	e := &encInfo{p: p, typ: namedType(p, msgPkg, "Encoder")}
	if e.typ == nil {
		return nil, fmt.Errorf("type message.Encoder not found")
	}
	e.errF = fieldIndex(e.typ, func(v *types.Var) bool { return isErrorType(v.Type()) })
	e.tgtF = fieldIndex(e.typ, func(v *types.Var) bool {
		return types.TypeString(v.Type(), nil) == "io.Writer" || strings.HasSuffix(types.TypeString(v.Type(), nil), "bufio.Writer")
	})
	if e.errF < 0 || e.tgtF < 0 {
		return nil, fmt.Errorf("message.Encoder has no single error and target field")
	}
	e.methods = p.methodsOf(msgPkg, "Encoder")
	return e, nil
}

func (e *encInfo) addr(enc *Term, f int) *Term {
	return mkFieldAddr(enc, f, types.NewPointer(structOf(e.typ).Field(f).Type()))
}
func (e *encInfo) err(st *State, enc *Term) *Term {
	return st.facts.resolve(st.load(e.addr(enc, e.errF), structOf(e.typ).Field(e.errF).Type()))
}

// wEl is one element of an emitted sequence.
type wEl struct {
	k    string // byte, raw, var, loop
	t    *Term
	loop *LoopInfo
	ev   *Ev
	pos  token.Pos
}

func (w wEl) String() string {
	switch w.k {
	case "byte":
		return "byte " + w.t.String()
	case "raw":
		return "contents of " + w.t.String()
	case "var":
		return "varint " + w.t.String()
	}
	return "repeat"
}

func elsString(els []wEl) string {
	var r []string
	for _, e := range els {
		r = append(r, e.String())
	}
	if len(r) == 0 {
		return "nothing"
	}
	return strings.Join(r, ", ")
}

func normByte(t *Term, f *Facts) *Term {
	if t.op == OByte {
		if n, ok := f.constOf(t.args[0]); ok {
			return mkByte(mkInt(n), t.n)
		}
		if r := f.resolve(t.args[0]); r != t.args[0] {
			return mkByte(r, t.n)
		}
		return t
	}
	if n, ok := f.constOf(t); ok {
		return mkInt(n & 255)
	}
	// a value of a one-byte type
	return mkByte(t, 0)
}

func emptyTerm(t *Term, f *Facts) bool {
	if t.isNil() {
		return true
	}
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); ok && f.decide(mkEq(t, termNil)) == 1 {
			return true
		}
	}
	n, ok := f.constOf(mkLen(t))
	return ok && n == 0
}

// emitted translates write events into elements.
func (e *encInfo) emitted(x *X, evs []*Ev, enc *Term, end *State) ([]wEl, error) {
	var els []wEl
	tgtT := structOf(e.typ).Field(e.tgtF).Type()
	for _, ev := range evs {
		switch ev.kind {
		case "write":
			if want := ev.st.load(e.addr(enc, e.tgtF), tgtT); ev.args[0] != want && !(ev.args[0].op == OField && strings.Contains(ev.args[0].String(), want.String())) {
				return nil, cerr(e.p.pos(ev.pos), "writes to %s instead of the target", ev.args[0])
			}
			w, err := bytesWritten(x, e.p, ev)
			if err != nil {
				return nil, err
			}
			els = append(els, w...)
		case "loop":
			has := false
			for _, b := range ev.loop.backs {
				if hasWrite(b.st.events()) {
					has = true
				}
			}
			if has {
				// it may stop between elements once an earlier element failed
				if errN := e.err(end, enc); !ev.complete && !(end.facts.decide(mkEq(errN, termNil)) == -1 && e.err(&ev.loop.header, enc) == errN) {
					return nil, cerr(e.p.pos(ev.pos), "a loop that writes can end early")
				}
				els = append(els, wEl{k: "loop", loop: ev.loop, ev: ev, pos: ev.pos})
			}
		case "call":
			if ev.name != "errors.New" && ev.name != "fmt.Errorf" && !strings.HasPrefix(ev.name, "(error)") {
				return nil, cerr(e.p.pos(ev.pos), "call of %s while encoding", ev.name)
			}
		case "go", "send", "recv", "select":
			return nil, cerr(e.p.pos(ev.pos), "unexpected %s while encoding", ev.kind)
		}
	}
	return els, nil
}

func hasWrite(evs []*Ev) bool {
	for _, e := range evs {
		if e.kind == "write" {
			return true
		}
		if e.kind == "loop" {
			for _, b := range e.loop.backs {
				if hasWrite(b.st.events()) {
					return true
				}
			}
		}
	}
	return false
}

// bytesWritten describes the bytes passed to a write.
func bytesWritten(x *X, p *Prog, ev *Ev) ([]wEl, error) {
	s := ev.args[1]
	st := ev.st
	if isString(s.typ) {
		return []wEl{{k: "raw", t: s, pos: ev.pos}}, nil
	}
	base, lo := bufBase(s)
	if n, ok := st.facts.constOf(mkLen(s)); ok && n <= 32 {
		var r []wEl
		for i := int64(0); i < n; i++ {
			b := st.load(mkIndexAddr(base, mkAddC(lo, i), types.NewPointer(types.Typ[types.Uint8])), types.Typ[types.Uint8])
			r = append(r, wEl{k: "byte", t: b, pos: ev.pos})
		}
		return r, nil
	}
	if c := st.regionContents(base); c != nil && c.op == OVarEnc && c.s == "" {
		if z, ok := lo.intVal(); ok && z == 0 {
			if l := mkLen(s); l.op == OVarLen && l.s == "" && l.args[0] == c.args[0] {
				return []wEl{{k: "var", t: c.args[0], pos: ev.pos}}, nil
			}
		}
		return nil, cerr(p.pos(ev.pos), "writes %s, part of the varint encoding of %s", s, c.args[0])
	}
	return appendParts(x, &st, s, ev.pos), nil
}

func appendParts(x *X, st *State, s *Term, pos token.Pos) []wEl {
	if s.op == OAppendS {
		return append(appendParts(x, st, s.args[0], pos), appendParts(x, st, s.args[1], pos)...)
	}
	if s.op == OAppend {
		r := appendParts(x, st, s.args[0], pos)
		for _, a := range s.args[1:] {
			r = append(r, wEl{k: "byte", t: a, pos: pos})
		}
		return r
	}
	if !isString(s.typ) {
		base, lo := bufBase(s)
		if n, ok := st.facts.constOf(mkLen(s)); ok && n <= 32 {
			var r []wEl
			for i := int64(0); i < n; i++ {
				b := st.load(mkIndexAddr(base, mkAddC(lo, i), types.NewPointer(types.Typ[types.Uint8])), types.Typ[types.Uint8])
				r = append(r, wEl{k: "byte", t: b, pos: pos})
			}
			return r
		}
		s = x.snapshot(st, s)
	}
	return []wEl{{k: "raw", t: s, pos: pos}}
}

func normEls(els []wEl, f *Facts) []wEl {
	var r []wEl
	for _, e := range els {
		switch e.k {
		case "byte":
			e.t = normByte(e.t, f)
		case "raw":
			if emptyTerm(e.t, f) {
				continue
			}
			e.t = f.resolve(e.t)
		case "var":
			if n, ok := f.constOf(e.t); ok {
				e.t = mkInt(n)
			} else {
				e.t = stripConv(e.t)
			}
		case "loop":
			if e.loop.trip != nil {
				if n, ok := f.constOf(e.loop.trip); ok && n == 0 {
					continue
				}
			}
		}
		r = append(r, e)
	}
	return r
}

func beEls(n int64, v *Term) []wEl {
	var r []wEl
	for i := n - 1; i >= 0; i-- {
		r = append(r, wEl{k: "byte", t: mkByte(v, i)})
	}
	return r
}

// expectation of one primitive for value v on a path with facts f
type expect struct {
	alts   [][]wEl
	refuse bool // must be refused
	either bool // may be refused
	elem   string
	over   *Term // array ranged over by the trailing loop
}

const maxInt16, maxInt32 = 1<<15 - 1, 1<<31 - 1

func expected(kind string, v *Term, f *Facts, st *State) expect {
	isNil := func() int { return f.decide(mkEq(v, termNil)) }
	lenAbove := func(t *Term, n int64) int { return f.decide(mkGE0(linOf(mkLen(t)).addc(-n - 1))) }
	str := func(s *Term) expect {
		return expect{alts: [][]wEl{append(beEls(2, mkLen(s)), wEl{k: "raw", t: s})}, refuse: lenAbove(s, maxInt16) == 1, either: lenAbove(s, maxInt16) == 0}
	}
	switch kind {
	case "Bool":
		switch f.decide(v) {
		case 1:
			return expect{alts: [][]wEl{beEls(1, mkInt(1))}}
		case -1:
			return expect{alts: [][]wEl{beEls(1, mkInt(0))}}
		}
		return expect{}
	case "Int8":
		return expect{alts: [][]wEl{beEls(1, v)}}
	case "Int16":
		return expect{alts: [][]wEl{beEls(2, v)}}
	case "Int32":
		return expect{alts: [][]wEl{beEls(4, v)}}
	case "Int64":
		return expect{alts: [][]wEl{beEls(8, v)}}
	case "ArrayLength":
		d := f.decide(mkGE0(linOf(v).addc(-maxInt32 - 1)))
		return expect{alts: [][]wEl{beEls(4, v)}, refuse: d == 1, either: d == 0}
	case "VarInt":
		return expect{alts: [][]wEl{{{k: "var", t: v}}}}
	case "String":
		return str(v)
	case "NullableString":
		if isNil() == 1 {
			return expect{alts: [][]wEl{beEls(2, mkInt(-1))}}
		}
		return str(st.load(v, types.Typ[types.String]))
	case "Bytes":
		r := expect{alts: [][]wEl{append(beEls(4, mkLen(v)), wEl{k: "raw", t: v})}, refuse: lenAbove(v, maxInt32) == 1, either: lenAbove(v, maxInt32) == 0}
		if isNil() == 1 {
			r.alts = append(r.alts, beEls(4, mkInt(-1)), beEls(4, mkInt(0)))
		}
		return r
	case "VarBytes":
		r := expect{alts: [][]wEl{{{k: "var", t: mkLen(v)}, {k: "raw", t: v}}}}
		if isNil() == 1 {
			r.alts = append(r.alts, []wEl{{k: "var", t: mkInt(-1)}}, []wEl{{k: "var", t: mkInt(0)}})
		}
		return r
	case "VarString":
		return expect{alts: [][]wEl{{{k: "var", t: mkLen(v)}, {k: "raw", t: v}}}}
	case "Int32Array", "Int64Array", "StringArray":
		if isNil() == 1 {
			return expect{alts: [][]wEl{beEls(4, mkInt(-1))}}
		}
		if isNil() == 0 {
			return expect{} // null must be told apart from empty
		}
		return expect{alts: [][]wEl{beEls(4, mkLen(v))}, refuse: lenAbove(v, maxInt32) == 1, either: lenAbove(v, maxInt32) == 0, elem: strings.TrimSuffix(kind, "Array"), over: v}
	}
	return expect{}
}

func sameEl(a, b wEl, f *Facts) bool {
	if a.k != b.k {
		return false
	}
	if a.t == b.t {
		return true
	}
	if a.k == "byte" {
		return a.t.op == OByte && b.t.op == OByte && a.t.n == b.t.n && f.eq(stripConv(a.t.args[0]), stripConv(b.t.args[0]))
	}
	if a.k == "var" {
		return f.eq(a.t, b.t)
	}
	return false
}

type putCheck struct {
	e    *encInfo
	x    *X
	enc  *Term
	bad  func(pos string, format string, args ...any)
	ok   func(kind string)
	size bool // only the number of bytes matters (C01)
	pfx  bool // only refusals and length prefixes matter (C07)
}

// path checks one path that is to emit value v as kind.
func (c *putCheck) path(kind string, v *Term, evs []*Ev, start, end *State, pos string) {
	e := c.e
	f := end.facts
	err0, errN := e.err(start, c.enc), e.err(end, c.enc)
	els, err := e.emitted(c.x, evs, c.enc, end)
	if err != nil {
		c.bad(errPos(err), "%s: %v", kind, err)
		return
	}
	c.ok("encoder_paths")
	if f.decide(mkEq(err0, termNil)) == -1 {
		if len(els) > 0 && !c.size && !c.pfx {
			c.bad(pos, "%s: bytes are written although an earlier write failed", kind)
		}
		return
	}
	ex := expected(kind, v, f, end)
	if ex.refuse || ex.either && len(els) == 0 && f.decide(mkEq(errN, termNil)) == -1 {
		if len(els) > 0 {
			c.bad(pos, "%s: a value too long for its length prefix is written as %s", kind, elsString(els))
		} else if f.decide(mkEq(errN, termNil)) != -1 {
			c.bad(pos, "%s: a value too long for its length prefix is dropped without an error", kind)
		}
		if ex.either && !ex.refuse {
			c.bad(pos, "%s: a value that fits its length prefix may be refused", kind)
		}
		return
	}
	if ex.either {
		c.bad(pos, "%s: a value too long for its length prefix is not refused", kind)
		return
	}
	els = normEls(els, f)
	if c.pfx {
		if f.decide(mkEq(errN, termNil)) == -1 && !hasLoop(els) {
			c.bad(pos, "%s: a value that fits its length prefix is refused", kind)
			return
		}
	}
	if len(ex.alts) == 0 {
		if !c.size {
			c.bad(pos, "%s: what is written does not depend on %s as it must", kind, v)
			return
		}
	}
	if c.size {
		if n := len(els); n > 0 && els[n-1].k == "loop" && !els[n-1].ev.complete {
			return // stopped by an earlier failure
		}
		got, ok := c.sizeOf(els, f)
		want := kindSize(kind, v, f, end)
		if !ok || want == nil || !(got == want || f.eq(got, want)) {
			c.bad(pos, "%s: writes %v bytes (%s), its size is %v", kind, got, elsString(els), want)
		}
		return
	}
	for _, alt := range ex.alts {
		w := normEls(alt, f)
		g := els
		if ex.elem != "" && !emptyTerm(ex.over, f) {
			if len(g) == 0 || g[len(g)-1].k != "loop" {
				continue
			}
			l := g[len(g)-1]
			g = g[:len(g)-1]
			if l.ev.complete && (l.loop.trip == nil || !f.eq(l.loop.trip, mkLen(ex.over))) {
				continue
			}
			et := elemType(ex.over.typ)
			for _, b := range l.loop.backs {
				el := mkIndex(ex.over, l.loop.K, et)
				c.path(ex.elem, el, b.st.events(), &l.loop.header, &b.st, c.e.p.pos(l.pos))
			}
		}
		if len(g) != len(w) {
			continue
		}
		m := true
		for i := range g {
			m = m && sameEl(g[i], w[i], f)
		}
		if m {
			if f.decide(mkEq(errN, termNil)) == -1 && !hasLoop(els) {
				c.bad(pos, "%s: reports an error although everything was written", kind)
			}
			return
		}
	}
	if len(ex.alts) > 0 {
		c.bad(pos, "%s of %s: writes %s, expected %s", kind, v, elsString(els), elsString(normEls(ex.alts[0], f)))
	}
}

func hasLoop(els []wEl) bool {
	for _, e := range els {
		if e.k == "loop" {
			return true
		}
	}
	return false
}

func (c *putCheck) sizeOf(els []wEl, f *Facts) (*Term, bool) {
	total := mkInt(0)
	for _, e := range els {
		switch e.k {
		case "byte":
			total = mkAddC(total, 1)
		case "raw":
			total = mkAdd(total, mkLen(e.t))
		case "var":
			total = mkAdd(total, mk(OVarLen, types.Typ[types.Int], "", 0, e.t))
		case "loop":
			if e.loop.trip == nil {
				return nil, false
			}
			var body *Term
			for _, b := range e.loop.backs {
				if b.st.facts.decide(mkEq(c.e.err(&e.loop.header, c.enc), termNil)) == -1 {
					continue
				}
				bs, err := c.e.emitted(c.x, b.st.events(), c.enc, &b.st)
				if err != nil {
					return nil, false
				}
				if len(bs) == 0 && b.st.facts.decide(mkEq(c.e.err(&b.st, c.enc), termNil)) == -1 {
					continue // refused
				}
				s, ok := c.sizeOf(normEls(bs, b.st.facts), b.st.facts)
				if !ok {
					return nil, false
				}
				if body != nil && body != s {
					return nil, false
				}
				body = s
			}
			if body == nil {
				return nil, false
			}
			k := namedSym("κ0", types.Typ[types.Int])
			total = mkAdd(total, sumOver(e.loop.trip, k, subst(body, map[*Term]*Term{e.loop.K: k})))
		}
	}
	return total, true
}

func kindSize(kind string, v *Term, f *Facts, st *State) *Term {
	one := func(n int64) *Term { return mkInt(n) }
	isNil := func() bool { return f.decide(mkEq(v, termNil)) == 1 }
	switch kind {
	case "Bool", "Int8":
		return one(1)
	case "Int16":
		return one(2)
	case "Int32", "ArrayLength":
		return one(4)
	case "Int64":
		return one(8)
	case "VarInt":
		return mk(OVarLen, types.Typ[types.Int], "", 0, v)
	case "String":
		return mkAddC(mkLen(v), 2)
	case "NullableString":
		if isNil() {
			return one(2)
		}
		return mkAddC(mkLen(st.load(v, types.Typ[types.String])), 2)
	case "Bytes":
		if emptyTerm(v, f) {
			return one(4)
		}
		return mkAddC(mkLen(v), 4)
	case "VarBytes", "VarString":
		if emptyTerm(v, f) {
			return one(1)
		}
		return mkAdd(mk(OVarLen, types.Typ[types.Int], "", 0, mkLen(v)), mkLen(v))
	case "Int32Array", "Int64Array":
		if isNil() || emptyTerm(v, f) {
			return one(4)
		}
		w := int64(4)
		if kind == "Int64Array" {
			w = 8
		}
		return mkAddC(mkMul(mkInt(w), mkLen(v)), 4)
	case "StringArray":
		if isNil() || emptyTerm(v, f) {
			return one(4)
		}
		k := namedSym("κ0", types.Typ[types.Int])
		return mkAddC(sumOver(mkLen(v), k, mkAddC(mkLen(mkIndex(v, k, elemType(v.typ))), 2)), 4)
	}
	return nil
}

// encoderPrims runs every Put primitive of the list against its reference.
func encoderPrims(p *Prog, rep *Report, tag string, size, pfx bool) {
	e, err := p.encoderInfo()
	if err != nil {
		rep.bad(tag+":encoder", "", "%v", err)
		return
	}
	for _, name := range sortedKeys(encPrims) {
		kind := encPrims[name]
		fn := p.method(msgPkg, "Encoder", name)
		if fn == nil {
			rep.bad(tag+":"+name, "", "Encoder.%s is missing", name)
			continue
		}
		x := newX(p)
		x.writeOK = true
		enc := namedSym("e", fn.Params[0].Type())
		enc.nonnil = true
		st := State{facts: rootFacts}
		err0 := e.err(&st, enc)
		st.facts = st.facts.assume(mkEq(err0, termNil))
		v := namedSym("v", fn.Params[1].Type())
		outs := x.Run(fn, []*Term{enc, v}, nil, st, nil, 0)
		rep.visit(x)
		rep.undecided(x, name)
		c := &putCheck{e: e, x: x, enc: enc, size: size, pfx: pfx, ok: rep.ok, bad: func(pos, format string, args ...any) {
			rep.bad(tag+":"+name, pos, format, args...)
		}}
		if len(outs) == 0 {
			rep.bad(tag+":"+name, p.pos(fn.Pos()), "%s never returns", name)
		}
		for _, o := range outs {
			if o.panic || o.stop {
				rep.bad(tag+":"+name, p.pos(o.pos), "%s can panic or block", name)
				continue
			}
			if o.st.facts.dead {
				continue
			}
			end := o.st
			c.path(kind, v, o.st.events(), &st, &end, p.pos(fn.Pos()))
		}
		rep.ok("encoder_primitives")
	}
	rep.need("encoder_primitives", len(encPrims))
}

// sticky checks C06 for all methods of Encoder.
func encoderSticky(p *Prog, rep *Report) {
	e, err := p.encoderInfo()
	if err != nil {
		rep.bad("sticky:encoder", "", "%v", err)
		return
	}
	rep.rule("at every write the stored error is known to be nil; after a write its error is stored unless known to be nil; a non-nil stored error is never replaced, and suppresses all writes; Flush returns it")
	own := map[*ssa.Function]bool{}
	for _, m := range e.methods {
		own[m] = true
	}
	for _, fn := range e.methods {
		if helperOf(p, fn, own) {
			continue // part of the methods that call it
		}
		x := newX(p)
		enc := namedSym("e", fn.Params[0].Type())
		enc.nonnil = true
		args := []*Term{enc}
		for i, q := range fn.Params[1:] {
			args = append(args, namedSym(fmt.Sprintf("v%d", i), q.Type()))
		}
		st := State{facts: rootFacts}
		outs := x.Run(fn, args, nil, st, nil, 0)
		rep.visit(x)
		rep.undecided(x, fn.Name())
		rep.ok("encoder_methods")
		for _, o := range outs {
			if o.panic || o.stop {
				rep.bad("sticky:"+fn.Name(), p.pos(o.pos), "%s can panic or block", fn.Name())
				continue
			}
			rep.ok("encoder_paths")
			end := o.st
			e.sticky(rep, fn, enc, o.st.events(), &st, &end)
			if fn.Name() == "Flush" {
				e.flush(rep, fn, enc, &st, o)
			}
		}
	}
	rep.need("encoder_methods", 10)
	// nobody else touches the encoder's state
	et := e.typ
	for _, fn := range p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(pointee(fa.X.Type()), et) || (fa.Field != e.errF && fa.Field != e.tgtF) {
					continue
				}
				rep.ok("encoder_state_writes")
				if isMethodOf(rootFn(fn), msgPkg, "Encoder") || helperOf(p, fn, own) {
					if fa.Field == e.tgtF {
						rep.bad("sticky:target:"+fn.Name(), p.pos(s.Pos()), "%s replaces the target of an encoder", fn)
					}
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok && (fa.Field == e.tgtF || fa.Field == e.errF) {
					continue // constructor
				}
				rep.bad("sticky:state:"+fn.Name(), p.pos(s.Pos()), "%s writes the state of an encoder", fn)
			}
		}
	}
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func (e *encInfo) sticky(rep *Report, fn *ssa.Function, enc *Term, evs []*Ev, start, end *State) {
	p := e.p
	key := "sticky:" + fn.Name()
	err0 := e.err(start, enc)
	var pend *Term // error of the last write
	var last *Ev
	check := func(at *State, pos string) {
		if pend == nil {
			return
		}
		f := at.facts
		if f.decide(mkEq(pend, termNil)) == 1 {
			return
		}
		if cur := e.err(at, enc); cur != f.resolve(pend) {
			rep.bad(key+":lost", pos, "%s: the error of the write at %s is not kept", fn.Name(), p.pos(last.pos))
		}
	}
	for _, ev := range evs {
		switch ev.kind {
		case "write":
			rep.ok("writes")
			check(&ev.st, p.pos(ev.pos))
			if ev.st.facts.decide(mkEq(e.err(&ev.st, enc), termNil)) != 1 {
				rep.bad(key+":write", p.pos(ev.pos), "%s: writes although an earlier write may have failed", fn.Name())
			}
			pend, last = ev.res.args[1], ev
		case "loop":
			check(&ev.st, p.pos(ev.pos))
			wr := false
			for _, b := range ev.loop.backs {
				if hasWrite(b.st.events()) {
					wr = true
				}
				bs := b.st
				e.sticky(rep, fn, enc, b.st.events(), &ev.loop.header, &bs)
			}
			if wr {
				pend = nil // kept by every iteration, as checked
			}
			if !ev.complete && wr {
				// left in the middle: the events of the last, partial iteration follow
			}
		}
	}
	check(end, p.pos(fn.Pos()))
	// the first error stays
	if end.facts.decide(mkEq(err0, termNil)) == -1 {
		if cur := e.err(end, enc); cur != end.facts.resolve(err0) {
			rep.bad(key+":replaced", p.pos(fn.Pos()), "%s: an error stored earlier is replaced by %s", fn.Name(), cur)
		}
	}
	_ = err0
}

func (e *encInfo) flush(rep *Report, fn *ssa.Function, enc *Term, start *State, o CallOut) {
	p := e.p
	f := o.st.facts
	err0 := e.err(start, enc)
	rep.ok("flush_paths")
	var fl *Ev
	for _, ev := range o.st.events() {
		if ev.kind == "call" && (strings.HasSuffix(ev.name, ".Flush") || strings.HasSuffix(ev.name, ").Flush")) {
			fl = ev
		}
	}
	switch f.decide(mkEq(err0, termNil)) {
	case -1:
		if o.ret != err0 && f.resolve(o.ret) != f.resolve(err0) {
			rep.bad("sticky:flush:lost", p.pos(o.pos), "Flush does not return the error of the failed write")
		}
		if fl != nil {
			rep.bad("sticky:flush:flushed", p.pos(fl.pos), "Flush flushes although a write failed")
		}
	case 1:
		if fl != nil {
			if f.decide(mkEq(fl.res, termNil)) != 1 && f.resolve(o.ret) != f.resolve(fl.res) {
				rep.bad("sticky:flush:result", p.pos(o.pos), "Flush drops the error of flushing the target")
			}
		} else if !refutedAssert(f) {
			rep.bad("sticky:flush:skipped", p.pos(o.pos), "Flush may return without flushing a target that can be flushed")
		} else if f.decide(mkEq(o.ret, termNil)) != 1 {
			rep.bad("sticky:flush:spurious", p.pos(o.pos), "Flush may report an error without any failure")
		}
	default:
		rep.bad("sticky:flush:unchecked", p.pos(o.pos), "Flush does not look at the stored error")
	}
}

// refutedAssert: the path depends on a type assertion that failed.
func refutedAssert(f *Facts) bool {
	for x := f; x != nil; x = x.parent {
		if x.b != nil && !x.bv && x.b.op == OPure && strings.HasPrefix(x.b.s, "is:") {
			return true
		}
	}
	return false
}
