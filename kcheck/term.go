package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are immutable, hash-consed symbolic values.  Two program expressions
// that are mapped to the same term have the same value; integer terms are kept
// in linear normal form so that equality is syntactic.

type Op int

const (
	OConst     Op = iota // cv (nil value: s=="nil")
	OZero                // zero value of struct/array type typ
	OSym                 // s: name
	OLin                 // integer: c + sum coef*atom
	OGE0                 // args[0] >= 0
	OEQ0                 // args[0] == 0 (integers)
	OEq                  // args[0] == args[1] (other types)
	ONot                 // !args[0]
	OBin                 // s: operator
	OUn                  // s: operator
	OConv                // typ: target
	OField               // n: index of args[0]
	OIndex               // args[0][args[1]]
	OLen                 //
	OCap                 //
	OSlice               // args: base, lo, hi
	OAlloc               // n: id
	OFieldAddr           // n: index
	OIndexAddr           // args: base, index
	OGlobal              // s: name
	ODeref               // initial contents of pointer args[0]
	OStruct              // args: fields, typ
	OTuple               //
	OIface               // args[0]: value, typ: concrete type
	OFunc                // fn
	OClosure             // fn, args: bindings
	OMakeSlice           // n: id, args[0]: len
	OMakeChan            // n: id, args[0]: cap
	OMakeMap             // n: id
	OAppend              // args: slice, elems...
	OAppendS             // args: slice, slice
	OPure                // s: function, args
	OElems               // pseudo pointer: contents of the region args[0]
	OCopyOf              // region contents: bytes copied from args[0]
	OByte                // n-th least significant byte of args[0]
	ORdBE                // n bytes big endian at args[0](region)+args[1]
	ORdVar               // varint at args[0]+args[1]
	ORdVarN              // length reported by reading a varint at args[0]+args[1]
	OVarLen              // encoded varint length of args[0]
	OVarEnc              // region contents: varint encoding of args[0]
	OSum                 // sum over args[0] iterations of args[1], args[2]: counter symbol
	OMapLoop             // region contents: args[0] trip, args[1] counter, args[2] index, args[3] value
	OAppLoop             // args[0] initial slice, args[1] trip, args[2] counter, args[3..] values
	OBytes               // byte sequence: args
	OTypeOf
	OCase // args[1] if args[0] else args[2]
)

var opNames = map[Op]string{OConst: "const", OZero: "zero", OSym: "sym", OLin: "lin", OGE0: "ge0", OEQ0: "eq0", OEq: "eq", ONot: "not", OBin: "bin", OUn: "un", OConv: "conv", OField: "field", OIndex: "index", OLen: "len", OCap: "cap", OSlice: "slice", OAlloc: "alloc", OFieldAddr: "&field", OIndexAddr: "&index", OGlobal: "global", ODeref: "deref", OStruct: "struct", OTuple: "tuple", OIface: "iface", OFunc: "func", OClosure: "closure", OMakeSlice: "makeslice", OMakeChan: "makechan", OMakeMap: "makemap", OAppend: "append", OAppendS: "append...", OPure: "call", OElems: "elems", OCopyOf: "copyof", OByte: "byte", ORdBE: "rdbe", ORdVar: "rdvar", ORdVarN: "rdvarn", OVarLen: "varlen", OVarEnc: "varenc", OSum: "sum", OMapLoop: "maploop", OAppLoop: "apploop", OBytes: "bytes"}

type Mono struct {
	coef int64
	atom *Term
}

type Term struct {
	id   int
	op   Op
	typ  types.Type
	args []*Term
	s    string
	n    int64
	cv   constant.Value
	fn   *ssa.Function
	mono []Mono // OLin
	// symbols
	nonnil bool
	tags   map[string]bool // provenance
	info   any
	at     *Term // the location a symbol stands for the contents of
}

var (
	interned = map[string]*Term{}
	termSeq  int
	symSeq   int
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := interned[key]; ok {
		return t
	}
	t := mk()
	termSeq++
	t.id = termSeq
	interned[key] = t
	return t
}

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		if a == nil {
			b.WriteString("_,")
			continue
		}
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	return b.String()
}

func mk(op Op, typ types.Type, s string, n int64, args ...*Term) *Term {
	tk := ""
	if op == OConv || op == OIface || op == OZero || op == OStruct || (op == OConst && s == "nil") {
		if op != OConst {
			tk = types.TypeString(typ, nil)
		}
	}
	key := fmt.Sprintf("%d|%s|%d|%s|%s", op, s, n, tk, argKey(args))
	return intern(key, func() *Term { return &Term{op: op, typ: typ, s: s, n: n, args: args} })
}

// fresh symbol
func freshSym(name string, typ types.Type) *Term {
	symSeq++
	nm := fmt.Sprintf("%s#%d", name, symSeq)
	return intern("sym|"+nm, func() *Term { return &Term{op: OSym, s: nm, typ: typ} })
}

// named symbol: same name, same symbol
func namedSym(name string, typ types.Type) *Term {
	tk := ""
	if typ != nil {
		tk = types.TypeString(typ, nil)
	}
	return intern("sym|"+name+"|"+tk, func() *Term { return &Term{op: OSym, s: name, typ: typ} })
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func intRange(t types.Type) (lo, hi constant.Value, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	p := func(s string) constant.Value { return constant.MakeFromLiteral(s, token.INT, 0) }
	neg := func(s string) constant.Value { return constant.UnaryOp(token.SUB, p(s), 0) }
	switch b.Kind() {
	case types.Int8:
		return neg("128"), p("127"), true
	case types.Int16:
		return neg("32768"), p("32767"), true
	case types.Int32:
		return neg("2147483648"), p("2147483647"), true
	case types.Int64, types.Int:
		return neg("9223372036854775808"), p("9223372036854775807"), true
	case types.Uint8:
		return p("0"), p("255"), true
	case types.Uint16:
		return p("0"), p("65535"), true
	case types.Uint32:
		return p("0"), p("4294967295"), true
	case types.Uint64, types.Uint, types.Uintptr:
		return p("0"), p("18446744073709551615"), true
	}
	return nil, nil, false
}

func mkInt(n int64) *Term {
	return intern("int|"+strconv.FormatInt(n, 10), func() *Term {
		return &Term{op: OConst, typ: types.Typ[types.Int], cv: constant.MakeInt64(n)}
	})
}
func mkBool(b bool) *Term {
	return intern(fmt.Sprintf("bool|%v", b), func() *Term {
		return &Term{op: OConst, typ: types.Typ[types.Bool], cv: constant.MakeBool(b)}
	})
}
func mkStr(s string) *Term {
	return intern("str|"+s, func() *Term {
		return &Term{op: OConst, typ: types.Typ[types.String], cv: constant.MakeString(s)}
	})
}

var termNil = intern("nil", func() *Term { return &Term{op: OConst, s: "nil"} })

func mkConst(cv constant.Value, typ types.Type) *Term {
	if cv == nil {
		return zeroTerm(typ)
	}
	switch cv.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(cv))
	case constant.String:
		return mkStr(constant.StringVal(cv))
	case constant.Int, constant.Float:
		if isInt(typ) || cv.Kind() == constant.Int {
			iv := constant.ToInt(cv)
			if n, ok := constant.Int64Val(iv); ok {
				return mkInt(n)
			}
		}
	}
	return intern("const|"+cv.ExactString()+"|"+types.TypeString(typ, nil), func() *Term {
		return &Term{op: OConst, typ: typ, cv: cv}
	})
}

func zeroTerm(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return termNil
		}
		return mk(OZero, typ, "", 0)
	case *types.Struct, *types.Array:
		return mk(OZero, typ, "", 0)
	case *types.Tuple:
		var as []*Term
		for i := 0; i < u.Len(); i++ {
			as = append(as, zeroTerm(u.At(i).Type()))
		}
		return mk(OTuple, typ, "", 0, as...)
	}
	return termNil
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isNil() bool   { return t.op == OConst && t.s == "nil" }
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

// ---- linear forms ----

type Lin struct {
	c int64
	m []Mono // sorted by atom id, no zero coefs
}

func linOf(t *Term) Lin {
	if n, ok := t.intVal(); ok {
		return Lin{c: n}
	}
	if t.op == OLin {
		return Lin{c: t.n, m: t.mono}
	}
	return Lin{m: []Mono{{1, t}}}
}

func (l Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{c: l.c * k, m: make([]Mono, len(l.m))}
	for i, x := range l.m {
		r.m[i] = Mono{x.coef * k, x.atom}
	}
	return r
}

func (l Lin) add(o Lin) Lin {
	r := Lin{c: l.c + o.c}
	i, j := 0, 0
	for i < len(l.m) || j < len(o.m) {
		switch {
		case j >= len(o.m) || (i < len(l.m) && l.m[i].atom.id < o.m[j].atom.id):
			r.m = append(r.m, l.m[i])
			i++
		case i >= len(l.m) || o.m[j].atom.id < l.m[i].atom.id:
			r.m = append(r.m, o.m[j])
			j++
		default:
			if k := l.m[i].coef + o.m[j].coef; k != 0 {
				r.m = append(r.m, Mono{k, l.m[i].atom})
			}
			i++
			j++
		}
	}
	return r
}
func (l Lin) sub(o Lin) Lin    { return l.add(o.scale(-1)) }
func (l Lin) addc(k int64) Lin { return Lin{l.c + k, l.m} }

func (l Lin) term() *Term {
	if len(l.m) == 0 {
		return mkInt(l.c)
	}
	if len(l.m) == 1 && l.m[0].coef == 1 && l.c == 0 {
		return l.m[0].atom
	}
	var b strings.Builder
	fmt.Fprintf(&b, "lin|%d|", l.c)
	for _, x := range l.m {
		fmt.Fprintf(&b, "%d*%d,", x.coef, x.atom.id)
	}
	return intern(b.String(), func() *Term {
		return &Term{op: OLin, typ: types.Typ[types.Int], n: l.c, mono: l.m}
	})
}

func mkAdd(a, b *Term) *Term { return linOf(a).add(linOf(b)).term() }
func mkSub(a, b *Term) *Term { return linOf(a).sub(linOf(b)).term() }
func mkAddC(a *Term, k int64) *Term {
	return linOf(a).addc(k).term()
}
func mkMul(a, b *Term) *Term {
	if n, ok := a.intVal(); ok {
		return linOf(b).scale(n).term()
	}
	if n, ok := b.intVal(); ok {
		return linOf(a).scale(n).term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBin, types.Typ[types.Int], "*", 0, a, b)
}

// ---- booleans ----

func mkNot(a *Term) *Term {
	if b, ok := a.boolVal(); ok {
		return mkBool(!b)
	}
	switch a.op {
	case ONot:
		return a.args[0]
	case OGE0:
		return mkGE0(linOf(a.args[0]).scale(-1).addc(-1))
	}
	return mk(ONot, types.Typ[types.Bool], "", 0, a)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (l Lin) tighten() Lin { // as l >= 0
	var g int64
	for _, x := range l.m {
		g = gcd(g, x.coef)
	}
	if g > 1 {
		r := Lin{c: floorDiv(l.c, g)}
		for _, x := range l.m {
			r.m = append(r.m, Mono{x.coef / g, x.atom})
		}
		return r
	}
	return l
}

func mkGE0(l Lin) *Term {
	l = l.tighten()
	if len(l.m) == 0 {
		return mkBool(l.c >= 0)
	}
	return mk(OGE0, types.Typ[types.Bool], "", 0, l.term())
}

func mkEQ0(l Lin) *Term {
	if len(l.m) == 0 {
		return mkBool(l.c == 0)
	}
	if l.m[0].coef < 0 {
		l = l.scale(-1)
	}
	return mk(OEQ0, types.Typ[types.Bool], "", 0, l.term())
}

// knownNonNil reports values that cannot be nil whatever the path.
func (t *Term) knownNonNil() bool {
	switch t.op {
	case OAlloc, OFunc, OClosure, OMakeSlice, OMakeChan, OMakeMap, OGlobal, OFieldAddr, OIndexAddr, OIface, OStruct, OCopyOf:
		return true
	case OAppend:
		return len(t.args) > 1
	case OSym:
		return t.nonnil
	case ODeref:
		return t.nonnil
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.op == OConst && b.op == OConst {
		if a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
			return mkBool(constant.Compare(a.cv, token.EQL, b.cv))
		}
	}
	if isInt(a.typ) && isInt(b.typ) {
		return mkEQ0(linOf(a).sub(linOf(b)))
	}
	if isBool(a.typ) && isBool(b.typ) {
		if v, ok := a.boolVal(); ok {
			if v {
				return b
			}
			return mkNot(b)
		}
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
	}
	if a.isNil() && b.knownNonNil() || b.isNil() && a.knownNonNil() {
		return mkBool(false)
	}
	if a.op == OAlloc && b.op == OAlloc || a.op == OMakeChan && b.op == OMakeChan {
		return mkBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, types.Typ[types.Bool], "", 0, a, b)
}

func mkCmp(tok token.Token, a, b *Term) *Term {
	switch tok {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	}
	if isInt(a.typ) && isInt(b.typ) {
		la, lb := linOf(a), linOf(b)
		switch tok {
		case token.LSS:
			return mkGE0(lb.sub(la).addc(-1))
		case token.LEQ:
			return mkGE0(lb.sub(la))
		case token.GTR:
			return mkGE0(la.sub(lb).addc(-1))
		case token.GEQ:
			return mkGE0(la.sub(lb))
		}
	}
	if a.op == OConst && b.op == OConst && a.cv != nil && b.cv != nil {
		return mkBool(constant.Compare(a.cv, tok, b.cv))
	}
	return mk(OBin, types.Typ[types.Bool], tok.String(), 0, a, b)
}

// ---- structure ----

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkField(x *Term, i int, typ types.Type) *Term {
	switch x.op {
	case OStruct:
		return x.args[i]
	case OZero:
		return zeroTerm(typ)
	}
	return mk(OField, typ, "", int64(i), x)
}

func mkIndex(x, i *Term, typ types.Type) *Term {
	switch x.op {
	case OZero:
		return zeroTerm(typ)
	case OSlice:
		return mkIndex(x.args[0], mkAdd(x.args[1], i), typ)
	case OAppend:
		if n, ok := mkLen(x.args[0]).intVal(); ok {
			if k, ok := i.intVal(); ok && k >= n && k-n < int64(len(x.args)-1) {
				return x.args[1+k-n]
			}
		}
	case OAppLoop:
		// a list with one element per round
		if n, ok := mkLen(x.args[0]).intVal(); ok && n == 0 && len(x.args) == 4 {
			return subst(x.args[3], map[*Term]*Term{x.args[2]: i})
		}
	}
	return mk(OIndex, typ, "", 0, x, i)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func mkLen(x *Term) *Term {
	switch x.op {
	case OConst:
		if x.isNil() {
			return mkInt(0)
		}
		if x.cv != nil && x.cv.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(x.cv))))
		}
	case OMakeSlice:
		return x.args[0]
	case OSlice:
		return mkSub(x.args[2], x.args[1])
	case OAppend:
		return mkAddC(mkLen(x.args[0]), int64(len(x.args)-1))
	case OAppendS:
		return mkAdd(mkLen(x.args[0]), mkLen(x.args[1]))
	case OConv: // string <-> []byte
		if x.s == "bytes" {
			return mkLen(x.args[0])
		}
	case OAppLoop:
		// one element per iteration
		if len(x.args) == 4 {
			return mkAdd(mkLen(x.args[0]), x.args[1])
		}
	}
	if x.typ != nil {
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len())
			}
		}
	}
	return mk(OLen, types.Typ[types.Int], "", 0, x)
}

// mkSlice slices x (slice, string, or pointer to array).
func mkSlice(x, lo, hi *Term, typ types.Type) *Term {
	if lo == nil {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = mkLen(x)
	}
	if x.op == OSlice {
		return mkSlice(x.args[0], mkAdd(x.args[1], lo), mkAdd(x.args[1], hi), typ)
	}
	if n, ok := lo.intVal(); ok && n == 0 && hi == mkLen(x) && x.op != OAlloc && x.op != OFieldAddr {
		if x.typ == nil || !isPointer(x.typ) {
			return x
		}
	}
	return mk(OSlice, typ, "", 0, x, lo, hi)
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func mkFieldAddr(p *Term, i int, typ types.Type) *Term {
	return mk(OFieldAddr, typ, "", int64(i), p)
}

func mkIndexAddr(x, i *Term, typ types.Type) *Term {
	if x.op == OSlice {
		return mkIndexAddr(x.args[0], mkAdd(x.args[1], i), typ)
	}
	return mk(OIndexAddr, typ, "", 0, x, i)
}

// ---- traversal ----

func (t *Term) children() []*Term {
	if t.op == OLin {
		r := make([]*Term, len(t.mono))
		for i, m := range t.mono {
			r[i] = m.atom
		}
		return r
	}
	return t.args
}

func contains(t *Term, pred func(*Term) bool) bool {
	seen := map[int]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if x == nil || seen[x.id] {
			return false
		}
		seen[x.id] = true
		if pred(x) {
			return true
		}
		for _, c := range x.children() {
			if f(c) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func containsTerm(t, x *Term) bool { return contains(t, func(y *Term) bool { return y == x }) }

// subst replaces terms by others, rebuilding with normalisation.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := t.children()
	if len(ch) == 0 {
		memo[t] = t
		return t
	}
	changed := false
	nc := make([]*Term, len(ch))
	for i, c := range ch {
		nc[i] = substM(c, m, memo)
		if nc[i] != c {
			changed = true
		}
	}
	if !changed {
		memo[t] = t
		return t
	}
	r := rebuild(t, nc)
	memo[t] = r
	return r
}

func rebuild(t *Term, nc []*Term) *Term {
	switch t.op {
	case OLin:
		l := Lin{c: t.n}
		for i, m := range t.mono {
			l = l.add(linOf(nc[i]).scale(m.coef))
		}
		return l.term()
	case OGE0:
		return mkGE0(linOf(nc[0]))
	case OEQ0:
		return mkEQ0(linOf(nc[0]))
	case OEq:
		return mkEq(nc[0], nc[1])
	case ONot:
		return mkNot(nc[0])
	case OField:
		return mkField(nc[0], int(t.n), t.typ)
	case OIndex:
		return mkIndex(nc[0], nc[1], t.typ)
	case OLen:
		return mkLen(nc[0])
	case OSlice:
		return mkSlice(nc[0], nc[1], nc[2], t.typ)
	case OFieldAddr:
		return mkFieldAddr(nc[0], int(t.n), t.typ)
	case OIndexAddr:
		return mkIndexAddr(nc[0], nc[1], t.typ)
	case OBin:
		if t.s == "*" {
			return mkMul(nc[0], nc[1])
		}
	case OClosure, OFunc:
		return mkClosure(t.fn, nc)
	case ODeref:
		return mkDeref(nc[0], t.typ)
	case OCase:
		return mkCase(nc[0], nc[1], nc[2])
	}
	r := mk(t.op, t.typ, t.s, t.n, nc...)
	return r
}

// mkCase: the integer a if c holds, otherwise b.
func mkCase(c, a, b *Term) *Term {
	if v, ok := c.boolVal(); ok {
		if v {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		c, a, b = c.args[0], b, a
	}
	return mk(OCase, types.Typ[types.Int], "", 0, c, a, b)
}

func mkFunc(fn *ssa.Function) *Term {
	return intern(fmt.Sprintf("fn|%p", fn), func() *Term { return &Term{op: OFunc, fn: fn, typ: fn.Signature} })
}
func mkClosure(fn *ssa.Function, b []*Term) *Term {
	return intern(fmt.Sprintf("clo|%p|%s", fn, argKey(b)), func() *Term {
		return &Term{op: OClosure, fn: fn, args: b, typ: fn.Signature}
	})
}

func mkDeref(p *Term, typ types.Type) *Term {
	t := mk(ODeref, typ, "", 0, p)
	return t
}

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 12 {
		return "..."
	}
	j := func(args []*Term) string {
		var s []string
		for _, a := range args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		if t.isNil() {
			return "nil"
		}
		return t.cv.String()
	case OZero:
		return "zero(" + types.TypeString(t.typ, func(p *types.Package) string { return p.Name() }) + ")"
	case OSym, OGlobal:
		return t.s
	case OLin:
		var b strings.Builder
		for i, m := range t.mono {
			switch {
			case m.coef == 1 && i == 0:
			case m.coef == 1:
				b.WriteString(" + ")
			case m.coef == -1 && i == 0:
				b.WriteString("-")
			case m.coef == -1:
				b.WriteString(" - ")
			case i > 0:
				fmt.Fprintf(&b, " + %d*", m.coef)
			default:
				fmt.Fprintf(&b, "%d*", m.coef)
			}
			b.WriteString(m.atom.str(d + 1))
		}
		if t.n > 0 {
			fmt.Fprintf(&b, " + %d", t.n)
		} else if t.n < 0 {
			fmt.Fprintf(&b, " - %d", -t.n)
		}
		return b.String()
	case OGE0:
		return t.args[0].str(d+1) + " >= 0"
	case OEQ0:
		return t.args[0].str(d+1) + " == 0"
	case OEq:
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	case ONot:
		return "!(" + t.args[0].str(d+1) + ")"
	case OField, OFieldAddr:
		name := strconv.FormatInt(t.n, 10)
		bt := t.args[0].typ
		if bt != nil {
			if p, ok := bt.Underlying().(*types.Pointer); ok {
				bt = p.Elem()
			}
			if s := structOf(bt); s != nil && int(t.n) < s.NumFields() {
				name = s.Field(int(t.n)).Name()
			}
		}
		if t.op == OFieldAddr {
			return "&" + strings.TrimPrefix(t.args[0].str(d+1), "&") + "." + name
		}
		return t.args[0].str(d+1) + "." + name
	case OIndex:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OIndexAddr:
		return "&" + t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OLen:
		return "len(" + t.args[0].str(d+1) + ")"
	case OSlice:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + "]"
	case OAlloc:
		return fmt.Sprintf("&%s#%d", t.s, t.n)
	case ODeref:
		s := t.args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OFunc, OClosure:
		return "func " + t.fn.Name()
	case OPure:
		return t.s + "(" + j(t.args) + ")"
	case OBin:
		if len(t.args) == 1 {
			return fmt.Sprintf("(%s %s %d)", t.args[0].str(d+1), t.s, t.n)
		}
		return "(" + t.args[0].str(d+1) + " " + t.s + " " + t.args[1].str(d+1) + ")"
	case OConv:
		return types.TypeString(t.typ, func(p *types.Package) string { return p.Name() }) + "(" + j(t.args) + ")"
	case OIface:
		return t.args[0].str(d + 1)
	}
	return fmt.Sprintf("%s%s{%s}", opNames[t.op], map[bool]string{true: fmt.Sprintf("#%d", t.n), false: ""}[t.n != 0], j(t.args))
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
