package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops end (C33). Every natural loop of the library is judged on its SSA form,
// by the ways around it (simple paths from the header back to the header):
//
//   - a way that waits for the peer, or for another goroutine, is allowed, but
//     not on from a step that has just failed;
//   - any other way has to change something its conditions depend on: a way on
//     which every condition only depends on values and memory that nothing on it
//     changes is taken forever once it is taken;
//   - a loop that dials or asks a broker is bounded by the list it walks or by a
//     counter;
//   - a counter of a narrow type is not compared with a bound that can be the
//     last value of that type, after which it wraps around.

type nloop struct {
	fn     *ssa.Function
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// naturalLoops: back edges go to a dominator; loops with the same header are one.
func naturalLoops(fn *ssa.Function) []*nloop {
	byHead := map[*ssa.BasicBlock]*nloop{}
	var r []*nloop
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHead[h]
			if l == nil {
				l = &nloop{fn: fn, head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				byHead[h] = l
				r = append(r, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				q := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[q] {
					continue
				}
				l.blocks[q] = true
				work = append(work, q.Preds...)
			}
		}
	}
	return r
}

const maxWays = 4000

// ways: the simple paths around the loop; ok is false if there are too many.
func (l *nloop) ways() (r [][]*ssa.BasicBlock, ok bool) {
	ok = true
	on := map[*ssa.BasicBlock]bool{}
	var path []*ssa.BasicBlock
	steps := 0
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		steps++
		if !ok || steps > 50*maxWays {
			ok = false
			return
		}
		on[b] = true
		path = append(path, b)
		for _, s := range b.Succs {
			if s == l.head {
				if len(r) >= maxWays {
					ok = false
					break
				}
				r = append(r, append([]*ssa.BasicBlock{}, path...))
			} else if l.blocks[s] && !on[s] {
				walk(s)
			}
		}
		path = path[:len(path)-1]
		delete(on, b)
	}
	walk(l.head)
	return r, ok
}

type endless struct {
	p     *Prog
	rep   *Report
	waitM map[*ssa.Function]int // 0 unknown, 1 in progress or no, 2 yes
	feet  map[*ssa.Function]*footprint
	dialM map[*ssa.Function]int
	calls map[*ssa.Function][]ssa.CallInstruction
	addrd map[*ssa.Function]bool // used as a value
}

func memo(m map[*ssa.Function]int, fn *ssa.Function, f func() bool) bool {
	if m[fn] == 0 {
		m[fn] = 1
		if f() {
			m[fn] = 2
		}
	}
	return m[fn] == 2
}

// callees: the functions of the library a call may run, and whether these are all.
func (k *endless) callees(c *ssa.CallCommon) ([]*ssa.Function, bool) {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}, true
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok && !c.IsInvoke() {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}, true
	}
	return nil, false
}

// waits: the instruction waits for somebody else.
func (k *endless) waits(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case *ssa.Send:
		return true
	case *ssa.Select:
		return in.Blocking
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Call); !ok {
			return false // go, defer
		}
		c := in.Common()
		if c.IsInvoke() {
			switch c.Method.Name() {
			case "Read", "Write", "ReadFull", "Accept", "Wait":
				return true
			}
			return false
		}
		gs, _ := k.callees(c)
		for _, g := range gs {
			if k.waitsIn(g) {
				return true
			}
		}
	}
	return false
}

func (k *endless) waitsIn(fn *ssa.Function) bool {
	if !k.p.inRepo(fn) || fn.Blocks == nil {
		switch fn.String() {
		case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "io.ReadFull", "io.ReadAtLeast", "(*bufio.Reader).Read", "(*net.TCPConn).Read", "(*bufio.Writer).Flush", "(*bufio.Writer).Write", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteString", "(*crypto/tls.Conn).Read", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.Dial", "crypto/tls.DialWithDialer", "crypto/tls.Dial", "(*crypto/tls.Conn).Handshake":
			return true
		}
		return false
	}
	return memo(k.waitM, fn, func() bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k.waits(in) {
					return true
				}
			}
		}
		return false
	})
}

// dials: the call connects somewhere or performs a request.
func (k *endless) dials(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	if isNetDial(c.Common()) {
		return true
	}
	gs, _ := k.callees(c.Common())
	for _, g := range gs {
		if k.dialsIn(g) {
			return true
		}
	}
	return false
}

func (k *endless) dialsIn(fn *ssa.Function) bool {
	if !k.p.inRepo(fn) {
		return false
	}
	if fn == k.p.method(kafkaPkg, "Conn", "Do") {
		return true
	}
	return memo(k.dialM, fn, func() bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k.dials(in) {
					return true
				}
			}
		}
		return false
	})
}

// footprint is what running something reads and writes, by kind of place.
type footprint struct {
	st, ld map[string]bool
	any    bool // may write anything
	odd    bool // its result may differ from one run to the next
}

func newFootprint() *footprint { return &footprint{st: map[string]bool{}, ld: map[string]bool{}} }

func (f *footprint) add(g *footprint) {
	for a := range g.st {
		f.st[a] = true
	}
	for a := range g.ld {
		f.ld[a] = true
	}
	f.any = f.any || g.any
}

// hits: one of the places read is written.
func (f *footprint) hits(ld map[string]bool) bool {
	if f.any && len(ld) > 0 {
		return true
	}
	for a := range ld {
		if f.st[a] {
			return true
		}
		if strings.HasPrefix(a, "F:") && f.st["P:"+a[2:strings.LastIndex(a, "#")]] {
			return true
		}
		if strings.HasPrefix(a, "P:") {
			for b := range f.st {
				if strings.HasPrefix(b, "F:"+a[2:]+"#") {
					return true
				}
			}
		}
	}
	return false
}

// escapes: the variable is reachable other than by its name in its function.
func escapes(a *ssa.Alloc) bool {
	var esc func(v ssa.Value) bool
	esc = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Val == v {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if esc(u) {
					return true
				}
			case *ssa.IndexAddr:
				if esc(u) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return esc(a)
}

// place names what an address denotes.
func place(a ssa.Value) string {
	root := a
	for {
		switch q := root.(type) {
		case *ssa.FieldAddr:
			root = q.X
			continue
		case *ssa.IndexAddr:
			if _, ok := q.X.Type().Underlying().(*types.Pointer); ok {
				root = q.X
				continue
			}
		}
		break
	}
	if v, ok := root.(*ssa.Alloc); ok && !escapes(v) {
		return fmt.Sprintf("A:%p", v)
	}
	switch q := a.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("F:%s#%d", pointee(q.X.Type()), q.Field)
	case *ssa.IndexAddr:
		return "E:" + q.Type().String()
	case *ssa.Global:
		return "G:" + q.String()
	}
	if t := pointee(a.Type()); t != nil {
		return "P:" + t.String()
	}
	return "?"
}

var harmless = map[string]bool{"errors.New": true, "errors.Is": true, "fmt.Errorf": true, "fmt.Sprintf": true, "fmt.Sprint": true, "strings.EqualFold": true, "bytes.Equal": true, "fmt.Println": true, "fmt.Printf": true, "runtime.Gosched": true, "log.Println": true, "log.Printf": true, "(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true}

// touches: the footprint of one instruction.
func (k *endless) touches(in ssa.Instruction) *footprint {
	f := newFootprint()
	switch in := in.(type) {
	case *ssa.Store:
		f.st[place(in.Addr)] = true
	case *ssa.MapUpdate:
		f.st["M:"+in.Map.Type().String()] = true
	case *ssa.Lookup:
		f.ld["M:"+in.X.Type().String()] = true
	case *ssa.Next, *ssa.Select:
		f.odd = true
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			f.ld[place(in.X)] = true
		case token.ARROW:
			f.odd = true
		}
	case *ssa.Call:
		c := &in.Call
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				if t := elemType(c.Args[0].Type()); t != nil {
					f.st["E:*"+t.String()] = true
				}
			case "delete", "clear":
				f.st["M:"+c.Args[0].Type().String()] = true
			case "len", "cap":
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					f.ld["M:"+c.Args[0].Type().String()] = true
				}
			case "append":
				f.odd = true
				if t := elemType(c.Args[0].Type()); t != nil {
					f.st["E:*"+t.String()] = true
				}
			}
			return f
		}
		if c.IsInvoke() {
			switch {
			case c.Method.Name() == "Error" && isErrorType(c.Value.Type()):
			case c.Value.Type().String() == "context.Context":
			default:
				f.any, f.odd = true, true
			}
			return f
		}
		gs, all := k.callees(c)
		if !all {
			f.any, f.odd = true, true
			return f
		}
		for _, g := range gs {
			if k.p.inRepo(g) && g.Blocks != nil {
				q := k.foot(g)
				f.add(q)
				f.odd = f.odd || q.odd
				continue
			}
			name := g.String()
			switch {
			case harmless[name]:
			case g.Package() != nil && g.Package().Pkg.Path() == "sync/atomic" && len(c.Args) > 0:
				a := place(c.Args[0])
				switch {
				case strings.HasPrefix(g.Name(), "Load"):
					f.ld[a] = true
				case strings.HasPrefix(g.Name(), "Store"):
					f.st[a] = true
				default:
					f.st[a], f.odd = true, true
				}
			default:
				f.any, f.odd = true, true
			}
		}
	}
	return f
}

// foot is the footprint of running a function, except for its own variables.
func (k *endless) foot(fn *ssa.Function) *footprint {
	if f := k.feet[fn]; f != nil {
		return f
	}
	f := newFootprint()
	k.feet[fn] = &footprint{any: true, odd: true} // recursion
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Go, *ssa.Defer:
				f.any = true
			}
			q := k.touches(in)
			f.add(q)
			f.odd = f.odd || q.odd
		}
	}
	for _, m := range []map[string]bool{f.st, f.ld} {
		for a := range m {
			if strings.HasPrefix(a, "A:") {
				delete(m, a)
			}
		}
	}
	k.feet[fn] = f
	return f
}

// way is one path around a loop.
type way struct {
	k      *endless
	l      *nloop
	path   []*ssa.BasicBlock
	pred   map[*ssa.BasicBlock]*ssa.BasicBlock
	foot   *footprint // what the way writes
	stores []*ssa.Store
	memo   map[ssa.Value]int
}

func (k *endless) newWay(l *nloop, path []*ssa.BasicBlock) *way {
	w := &way{k: k, l: l, path: path, pred: map[*ssa.BasicBlock]*ssa.BasicBlock{}, memo: map[ssa.Value]int{}, foot: newFootprint()}
	for i, b := range path {
		if i > 0 {
			w.pred[b] = path[i-1]
		}
	}
	for _, b := range path {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && strings.HasPrefix(place(st.Addr), "A:") {
				w.stores = append(w.stores, st)
				continue
			}
			w.foot.add(k.touches(in))
		}
	}
	return w
}

func edgeOf(phi *ssa.Phi, pred *ssa.BasicBlock) ssa.Value {
	for i, q := range phi.Block().Preds {
		if q == pred {
			return phi.Edges[i]
		}
	}
	return nil
}

// along follows phis on the way.
func (w *way) along(v ssa.Value) ssa.Value {
	for i := 0; i < 100; i++ {
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() == w.l.head || w.pred[phi.Block()] == nil {
			return v
		}
		e := edgeOf(phi, w.pred[phi.Block()])
		if e == nil {
			return v
		}
		v = e
	}
	return v
}

// next: the value of a header phi after the way.
func (w *way) next(phi *ssa.Phi) ssa.Value {
	e := edgeOf(phi, w.path[len(w.path)-1])
	if e == nil {
		return nil
	}
	return w.along(e)
}

// same: the value is the same each time the way is taken in a row.
func (w *way) same(v ssa.Value) bool {
	v = w.along(v)
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if !w.l.blocks[in.Block()] {
		return true
	}
	switch w.memo[v] {
	case 1:
		return true // assumed, while it is being shown
	case 2:
		return false
	}
	w.memo[v] = 1
	r := w.same1(v, in)
	if !r {
		w.memo[v] = 2
	}
	return r
}

func (w *way) same1(v ssa.Value, in ssa.Instruction) bool {
	all := func() bool {
		for _, o := range in.Operands(nil) {
			if *o != nil && !w.same(*o) {
				return false
			}
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() != w.l.head {
			return false
		}
		n := w.next(x)
		if n == ssa.Value(x) {
			return true
		}
		// a constant that is set again each time
		_, ok := n.(*ssa.Const)
		return ok
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return false
		}
		if x.Op == token.MUL {
			a := place(x.X)
			if strings.HasPrefix(a, "A:") {
				for _, st := range w.stores {
					if place(st.Addr) == a && !w.same(st.Val) {
						return false
					}
				}
			} else if w.foot.hits(map[string]bool{a: true}) {
				return false
			}
		}
		return all()
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Extract, *ssa.TypeAssert:
		return all()
	case *ssa.Lookup, *ssa.Call:
		f := w.k.touches(in)
		return !f.odd && !w.foot.hits(f.ld) && all()
	}
	return false
}

// steady: the same on every way, because nothing but a constructor writes it.
func (w *way) steady(v ssa.Value) bool {
	if w.same(v) {
		return true
	}
	switch x := w.along(v).(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return w.steady(x.Call.Args[0])
		}
	case *ssa.BinOp:
		return w.steady(x.X) && w.steady(x.Y)
	case *ssa.Convert:
		return w.steady(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := place(x.X)
			if strings.HasPrefix(a, "F:") || strings.HasPrefix(a, "P:") {
				return !w.k.written(x.X, a)
			}
		}
	}
	return false
}

// written: some function writes such a place of an object it did not create.
func (k *endless) written(addr ssa.Value, a string) bool {
	// a captured variable: only its own function and the closures in it
	if v, ok := addr.(*ssa.Alloc); ok {
		n := 0
		for _, fn := range k.p.allFuncs() {
			for q := fn; q != nil; q = q.Parent() {
				if q != v.Parent() {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && place(st.Addr) == a {
							n++
						}
					}
				}
			}
		}
		return n > 1
	}
	for _, fn := range k.p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || place(st.Addr) != a {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						continue
					}
				}
				return true
			}
		}
	}
	return false
}

// step: how much the header phi changes on the way; ok only for a constant.
func (w *way) step(phi *ssa.Phi) (int64, bool) {
	n := w.next(phi)
	sum := int64(0)
	for i := 0; i < 20 && n != nil; i++ {
		n = w.along(n)
		if n == ssa.Value(phi) {
			return sum, true
		}
		b, ok := n.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		q, exact := constant.Int64Val(c.Value)
		if !exact {
			return 0, false
		}
		switch b.Op {
		case token.ADD:
			sum += q
		case token.SUB:
			sum -= q
		default:
			return 0, false
		}
		n = b.X
	}
	return 0, false
}

// offset: v is the header phi plus a constant.
func (w *way) offset(v ssa.Value) *ssa.Phi {
	for i := 0; i < 20; i++ {
		v = w.along(v)
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == w.l.head {
				return x
			}
			return nil
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				v = x.X
				continue
			}
			return nil
		case *ssa.Convert:
			v = x.X
			continue
		default:
			return nil
		}
	}
	return nil
}

// test is a comparison of a counter that has to hold to go on.
type test struct {
	phi   *ssa.Phi
	op    token.Token // phi op bound
	bound ssa.Value
	pos   token.Pos
}

func (w *way) tests() []test {
	var r []test
	for i, b := range w.path {
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		to := w.l.head
		if i+1 < len(w.path) {
			to = w.path[i+1]
		}
		if b.Succs[0] == b.Succs[1] || w.l.blocks[b.Succs[0]] && w.l.blocks[b.Succs[1]] {
			continue // does not leave the loop
		}
		c, ok := w.along(cond.Cond).(*ssa.BinOp)
		if !ok {
			continue
		}
		op, x, y := c.Op, c.X, c.Y
		if to != b.Succs[0] {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		phi := w.offset(x)
		if phi == nil || w.same(x) {
			if phi = w.offset(y); phi == nil {
				continue
			}
			x, y = y, x
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		r = append(r, test{phi, op, y, cond.Pos()})
		_ = x
	}
	return r
}

// failing: a call on the way whose error the way has seen and goes on from.
func (w *way) failing() *ssa.Call {
	for i, b := range w.path {
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		to := w.l.head
		if i+1 < len(w.path) {
			to = w.path[i+1]
		}
		if b.Succs[0] == b.Succs[1] {
			continue
		}
		var x ssa.Value
		switch c := w.along(cond.Cond).(type) {
		case *ssa.BinOp:
			y := c.Y
			if x = c.X; isNilConst(x) {
				x, y = y, x
			}
			if c.Op != token.NEQ && c.Op != token.EQL || !isNilConst(y) || (c.Op == token.NEQ) != (to == b.Succs[0]) {
				continue
			}
		case *ssa.Extract: // ok of a type assertion
			t, is := c.Tuple.(*ssa.TypeAssert)
			if !is || c.Index != 1 || to != b.Succs[0] {
				continue
			}
			x = t.X
		case *ssa.Call: // errors.Is
			if g := c.Call.StaticCallee(); g == nil || g.String() != "errors.Is" || to != b.Succs[0] {
				continue
			}
			x = c.Call.Args[0]
		default:
			continue
		}
		if !isErrorType(x.Type()) {
			continue
		}
		v := w.along(x)
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == w.l.head {
			v = w.next(phi)
		}
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		if call, ok := v.(*ssa.Call); ok && w.l.blocks[call.Block()] && (w.k.waits(call) || w.k.dials(call)) {
			return call
		}
	}
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// counted: every way walks a map, string or channel, or moves a counter towards
// a bound that stays.
func (k *endless) counted(ws []*way) bool {
	for _, w := range ws {
		ok := false
		for _, b := range w.path {
			for _, in := range b.Instrs {
				if n, is := in.(*ssa.Next); is {
					if r, is := n.Iter.(*ssa.Range); is && !w.l.blocks[r.Block()] {
						ok = true
					}
				}
			}
		}
		for _, t := range w.tests() {
			if s, is := w.step(t.phi); is && s != 0 && w.steady(t.bound) {
				switch t.op {
				case token.LSS, token.LEQ:
					ok = ok || s > 0
				case token.GTR, token.GEQ:
					ok = ok || s < 0
				case token.NEQ:
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// constants: the values a parameter has at every call; nil if unknown.
func (k *endless) constants(v ssa.Value) []int64 {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return []int64{n}
			}
		}
	case *ssa.Convert:
		return k.constants(x.X)
	case *ssa.Phi:
		var r []int64
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok {
				r = append(r, k.constants(c)...)
				continue
			}
			return nil
		}
		return r
	case *ssa.Parameter:
		fn := x.Parent()
		if k.addrd[fn] || len(k.calls[fn]) == 0 || fn.Object() != nil && fn.Object().Exported() {
			return nil
		}
		var r []int64
		for i, q := range fn.Params {
			if q != x {
				continue
			}
			for _, c := range k.calls[fn] {
				n := k.constants(c.Common().Args[i])
				if n == nil {
					return nil
				}
				r = append(r, n...)
			}
		}
		return r
	}
	return nil
}

// extremes of an integer type of at most 32 bits; ok is false for wider types
// unless unsigned.
func extremes(t types.Type) (lo, hi int64, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64, true
	}
	return 0, 0, false
}

// wraps: the bound of the test can be the last value of the counter's type, so
// that the test never fails.
func (k *endless) wraps(w *way, t test) bool {
	lo, hi, ok := extremes(t.phi.Type())
	s, is := w.step(t.phi)
	if !ok || !is || s == 0 {
		return false
	}
	var last int64
	switch {
	case s > 0 && t.op == token.LEQ:
		last = hi
	case s < 0 && t.op == token.GEQ:
		last = lo
	default:
		return false
	}
	if !w.same(t.bound) {
		return false
	}
	if cs := k.constants(t.bound); cs != nil {
		for _, c := range cs {
			if c == last {
				return true
			}
		}
		return false
	}
	if !types.Identical(t.bound.Type().Underlying(), t.phi.Type().Underlying()) {
		return false
	}
	switch x := t.bound.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && lo != 0
	case *ssa.Field, *ssa.Parameter, *ssa.Extract:
		return lo != 0
	}
	return false
}

// settles: a signed value that can be negative is shifted to the right, and the
// way is taken while it is not 0, or while it is negative.
func (w *way) settles() bool {
	found, others := false, false
	for i, b := range w.path {
		c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		to := w.l.head
		if i+1 < len(w.path) {
			to = w.path[i+1]
		}
		cmp, ok := c.Cond.(*ssa.BinOp)
		z, isC := ssa.Value(nil), false
		if ok {
			z, isC = cmp.Y, isIntConst(cmp.Y, 0)
		}
		if z == nil || !isC {
			others = true
			continue
		}
		op := cmp.Op
		if to == b.Succs[1] {
			op = negated(op)
		}
		if op != token.NEQ && op != token.LSS {
			others = true
			continue
		}
		x := w.along(cmp.X)
		if s, ok := x.(*ssa.BinOp); ok && s.Op == token.SHR {
			x = w.along(s.X)
		}
		phi, ok := x.(*ssa.Phi)
		if !ok || phi.Block() != w.l.head || !signed(phi.Type()) {
			others = true
			continue
		}
		s, ok := w.along(w.next(phi)).(*ssa.BinOp)
		if !ok || s.Op != token.SHR || w.along(s.X) != ssa.Value(phi) {
			others = true
			continue
		}
		for k, e := range phi.Edges {
			if !w.l.blocks[phi.Block().Preds[k]] && anySign(e, w.l.fn) {
				found = true
			}
		}
	}
	return found && !others
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	i, ok := constant.Int64Val(c.Value)
	return ok && i == n
}

func negated(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

// anySign: a value made of parameters alone, the sign of which nothing in the
// function looks at.
func anySign(v ssa.Value, fn *ssa.Function) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.BinOp); ok && (c.X == v || c.Y == v) {
					switch c.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ:
						return false
					}
				}
			}
		}
		return signed(x.Type())
	case *ssa.Convert:
		return signed(x.X.Type()) && anySign(x.X, fn)
	case *ssa.BinOp:
		switch x.Op {
		case token.XOR:
			return anySign(x.X, fn) && anySign(x.Y, fn)
		case token.SHL, token.SHR:
			return anySign(x.X, fn)
		}
	}
	return false
}

// bounded: another test on the way ends the loop whatever this one does.
func (k *endless) bounded(w *way, not test) bool {
	for _, t := range w.tests() {
		if t == not {
			continue
		}
		s, is := w.step(t.phi)
		if is && s != 0 && w.same(t.bound) && !k.wraps(w, t) && (s > 0 && (t.op == token.LSS || t.op == token.LEQ) || s < 0 && (t.op == token.GTR || t.op == token.GEQ) || t.op == token.NEQ) {
			return true
		}
	}
	return false
}

func (k *endless) loop(l *nloop) {
	p, rep := k.p, k.rep
	pos := l.head.Instrs[0].Pos()
	for _, b := range append([]*ssa.BasicBlock{l.head}, l.fn.Blocks...) {
		if pos.IsValid() {
			break
		}
		if l.blocks[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					pos = in.Pos()
					break
				}
			}
		}
	}
	rep.ok("loops")
	paths, ok := l.ways()
	if !ok {
		rep.ok("loops_undecided")
		return
	}
	var ws []*way
	for _, q := range paths {
		ws = append(ws, k.newWay(l, q))
	}
	rep.counts["ways_around"] += len(ws)
	counted := k.counted(ws)
	if counted {
		rep.ok("loops_counted")
	}
	key := func(what string) string { return fmt.Sprintf("loop:%s:%s", what, l.fn) }
	for _, w := range ws {
		for _, t := range w.tests() {
			if k.wraps(w, t) && !k.bounded(w, t) {
				rep.bad(key("wraps"), p.pos(pos), "the loop in %s does not end if its bound is the last value of %s: the counter wraps around", l.fn, t.phi.Type())
			}
		}
		if counted {
			continue
		}
		if c := w.failing(); c != nil {
			rep.bad(key("retry"), p.pos(c.Pos()), "%s goes around again, without a bound, after this step failed", l.fn)
			continue
		}
		waits, dials := false, false
		for _, b := range w.path {
			for _, in := range b.Instrs {
				waits = waits || k.waits(in)
				dials = dials || k.dials(in)
			}
		}
		if dials {
			rep.bad(key("dials"), p.pos(pos), "the loop in %s connects or sends requests again and again without a bound", l.fn)
			continue
		}
		if waits {
			rep.ok("ways_waiting")
			continue
		}
		if w.settles() && !counted {
			rep.bad(key("settles"), p.pos(pos), "the loop in %s shifts a signed value until it is 0: a negative one settles at -1 and it never ends", l.fn)
			continue
		}
		stuck := true
		for _, b := range w.path {
			if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !w.same(c.Cond) {
				stuck = false
			}
		}
		if stuck {
			rep.bad(key("stuck"), p.pos(pos), "the loop in %s has a way around that changes nothing its conditions depend on and waits for nothing: it never ends", l.fn)
		}
	}
}

// given: a parameter, also if closures of the function use it.
func given(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var r ssa.Value
	for _, q := range *a.Referrers() {
		if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			if r != nil {
				return v
			}
			r = st.Val
		}
	}
	if r == nil {
		return v
	}
	return r
}

func checkEndless(p *Prog, rep *Report, verif string) {
	rep.rule("every way around every loop waits for the peer or changes what its conditions depend on; nothing is retried without a bound; no counter wraps around at its bound; no function calls itself with the arguments it was given")
	k := &endless{p: p, rep: rep, waitM: map[*ssa.Function]int{}, feet: map[*ssa.Function]*footprint{}, dialM: map[*ssa.Function]int{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, addrd: map[*ssa.Function]bool{}}
	fns := p.allFuncs()
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, isCall := in.(ssa.CallInstruction)
				var g *ssa.Function
				if isCall {
					if g = c.Common().StaticCallee(); g != nil {
						k.calls[g] = append(k.calls[g], c)
					}
				}
				for _, o := range in.Operands(nil) {
					if f, ok := (*o).(*ssa.Function); ok && f != g {
						k.addrd[f] = true
					}
				}
				if g == fn && isCall {
					same := true
					for i, a := range c.Common().Args {
						if i >= len(fn.Params) || given(a) != ssa.Value(fn.Params[i]) {
							same = false
						}
					}
					if same {
						rep.bad("recursion:"+fn.String(), p.pos(in.Pos()), "%s calls itself with the arguments it was given", fn)
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if fn.Synthetic != "" {
			continue
		}
		rep.fns[fn.String()] = true
		for _, l := range naturalLoops(fn) {
			k.loop(l)
		}
	}
	rep.need("loops", 10)
}

func init() { checks["C33"] = checkEndless }
