package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Models of the standard library functions the repository uses (or that a
// reasonable rewrite of it would use).

type model func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut

var models map[string]model

func one(st State, t *Term) []CallOut { return []CallOut{{st: st, ret: t}} }

func unit() *Term { return mk(OTuple, nil, "", 0) }

func pureModel(name string, typ types.Type) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		t := mk(OPure, typ, name, 0, c.args...)
		x.pures = append(x.pures, t)
		return one(st, t)
	}
}

func nonNilErr(name string) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		ev := &Ev{kind: "call", name: name, fn: c.fn, args: c.args, pos: pos}
		x.emit(&st, fr, ev)
		r := freshSym("error", types.Universe.Lookup("error").Type())
		r.nonnil = true
		r.info = ev
		ev.res = r
		if name == "fmt.Errorf" {
			ev.wraps = errorfWraps(&st, c.args)
		}
		return one(st, r)
	}
}

// elements of an argument list whose length is known
func listElems(st *State, s *Term, elem types.Type) ([]*Term, bool) {
	n, ok := mkLen(s).intVal()
	if !ok || n > 64 {
		return nil, false
	}
	base, off := bufBase(s)
	var r []*Term
	for i := int64(0); i < n; i++ {
		r = append(r, st.load(mkIndexAddr(base, mkAddC(off, i), types.NewPointer(elem)), elem))
	}
	return r, true
}

// errorfWraps: the operands of %w in a constant format.
func errorfWraps(st *State, args []*Term) []*Term {
	if len(args) != 2 {
		return nil
	}
	s, ok := args[0].strVal()
	if !ok {
		return nil
	}
	els, ok := listElems(st, args[1], types.NewInterfaceType(nil, nil))
	if !ok {
		return nil
	}
	var r []*Term
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		for i++; i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0; i++ {
		}
		if i >= len(s) || s[i] == '[' || s[i] == '*' {
			return r
		}
		if s[i] == '%' {
			continue
		}
		if s[i] == 'w' && n < len(els) {
			r = append(r, unwrap(els[n]))
		}
		n++
	}
	return r
}

func joinErrs(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
	ev := &Ev{kind: "call", name: "errors.Join", fn: c.fn, args: c.args, pos: pos}
	x.emit(&st, fr, ev)
	errT := types.Universe.Lookup("error").Type()
	r := freshSym("joined", errT)
	r.info = ev
	ev.res = r
	els, ok := listElems(&st, c.args[0], errT)
	if !ok {
		ev.wraps = []*Term{c.args[0]}
		return one(st, r)
	}
	ev.wraps = els
	some, all := false, true
	for _, e := range els {
		switch st.facts.decide(mkEq(e, termNil)) {
		case -1:
			some = true
		case 0:
			all = false
		}
	}
	switch {
	case some:
		r.nonnil = true
	case all:
		return one(st, termNil)
	}
	return one(st, r)
}

// eventModel records the call; results are unknown; memory is untouched.
func eventModel(name string, nonnil bool) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		var sig *types.Signature
		if c.fn != nil {
			sig = c.fn.Signature
		} else {
			sig = c.method.Type().(*types.Signature)
		}
		ev := &Ev{kind: "call", name: name, fn: c.fn, args: c.args, pos: pos}
		x.emit(&st, fr, ev)
		ev.res = x.results(ev, sig.Results(), name)
		if nonnil {
			t := ev.res
			if t.op == OTuple {
				for _, a := range t.args {
					if !isErrorType(a.typ) {
						a.nonnil = true
					}
				}
			} else {
				t.nonnil = true
			}
		}
		return one(st, ev.res)
	}
}

func bufBase(s *Term) (base, off *Term) {
	if s.op == OSlice {
		return s.args[0], s.args[1]
	}
	return s, mkInt(0)
}

func putBE(n int64) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		s, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
		x.obIndex(&st, fr, pos, s, mkInt(n-1), mkLen(s))
		base, off := bufBase(s)
		for i := int64(0); i < n; i++ {
			st.put(mkIndexAddr(base, mkAddC(off, i), types.NewPointer(types.Typ[types.Uint8])), mkByte(v, n-1-i))
		}
		return one(st, unit())
	}
}

// overwritten: appending to a part of a buffer may change the rest of it.
func (x *X) overwritten(st *State, a *Term) {
	for a.op == OAppend || a.op == OAppendS {
		a = a.args[0]
	}
	if a.op == OSlice {
		st.setRegion(a.args[0], freshSym("appended-to", a.typ))
	}
}

func appendBE(n int64) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		s, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
		x.overwritten(&st, s)
		args := []*Term{s}
		for i := n - 1; i >= 0; i-- {
			args = append(args, mkByte(v, i))
		}
		return one(st, mk(OAppend, types.NewSlice(types.Typ[types.Uint8]), "", 0, args...))
	}
}

func putLE(n int64) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		s, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
		base, off := bufBase(s)
		for i := int64(0); i < n; i++ {
			st.put(mkIndexAddr(base, mkAddC(off, i), types.NewPointer(types.Typ[types.Uint8])), mkByte(v, i))
		}
		return one(st, unit())
	}
}

func getBE(n int64, typ types.Type, op string) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		s := c.args[len(c.args)-1]
		x.obIndex(&st, fr, pos, s, mkInt(n-1), mkLen(s))
		base, off := bufBase(s)
		if c := st.regionContents(base); c != nil && c.op == OSym {
			base = c // contents received since the slice was made
		}
		return one(st, mk(ORdBE, typ, op, n, base, off))
	}
}

func init() {
	u8 := types.Typ[types.Uint8]
	_ = u8
	models = map[string]model{
		"errors.New":   nonNilErr("errors.New"),
		"fmt.Errorf":   nonNilErr("fmt.Errorf"),
		"errors.Join":  joinErrs,
		"strconv.Itoa": pureModel("itoa", types.Typ[types.String]),
		"strconv.FormatInt": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			if n, ok := c.args[1].intVal(); ok && n == 10 {
				return one(st, mk(OPure, types.Typ[types.String], "itoa", 0, c.args[0]))
			}
			return nil
		},
		"net.JoinHostPort": pureModel("joinhostport", types.Typ[types.String]),
		"fmt.Sprint": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			// one integer operand
			if n, ok := mkLen(c.args[0]).intVal(); ok && n == 1 {
				v := st.load(mkIndexAddr(sliceBase(c.args[0]), mkInt(0), types.NewPointer(types.NewInterfaceType(nil, nil))), types.NewInterfaceType(nil, nil))
				if v.op == OIface && isInt(v.typ) {
					return one(st, mk(OPure, types.Typ[types.String], "itoa", 0, v.args[0]))
				}
			}
			return nil
		},
		"fmt.Sprintf": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			if c.args[0].op == OConst {
				s := c.args[0].String()
				if n, ok := mkLen(c.args[1]).intVal(); ok && n == 1 && (s == `"%d"` || s == `"%v"`) {
					v := st.load(mkIndexAddr(sliceBase(c.args[1]), mkInt(0), types.NewPointer(types.NewInterfaceType(nil, nil))), types.NewInterfaceType(nil, nil))
					if v.op == OIface && isInt(v.typ) {
						return one(st, mk(OPure, types.Typ[types.String], "itoa", 0, v.args[0]))
					}
				}
			}
			return nil
		},
		"(time.Time).Unix":       pureModel("time.Unix", types.Typ[types.Int64]),
		"(time.Time).UnixNano":   pureModel("time.UnixNano", types.Typ[types.Int64]),
		"(time.Time).UnixMilli":  pureModel("time.UnixMilli", types.Typ[types.Int64]),
		"(time.Time).Nanosecond": pureModel("time.Nanosecond", types.Typ[types.Int]),
		"(time.Time).IsZero":     pureModel("time.IsZero", types.Typ[types.Bool]),
		"(context.Context).Err":  eventModel("ctx.Err", false),
		"(context.Context).Done": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			return one(st, mk(OPure, types.NewChan(types.RecvOnly, types.NewStruct(nil, nil)), "ctx.Done", 0, c.args[0]))
		},
		"context.Background": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			t := namedSym("context.Background", c.fn.Signature.Results().At(0).Type())
			t.nonnil = true
			return one(st, t)
		},
		"context.TODO": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			t := namedSym("context.Background", c.fn.Signature.Results().At(0).Type())
			t.nonnil = true
			return one(st, t)
		},
		"context.WithCancel":  eventModel("context.WithCancel", true),
		"bufio.NewWriter":     eventModel("bufio.NewWriter", true),
		"bufio.NewWriterSize": eventModel("bufio.NewWriter", true),
		"errors.Is":           pureModel("errors.Is", types.Typ[types.Bool]),

		"(encoding/binary.bigEndian).PutUint16":    putBE(2),
		"(encoding/binary.bigEndian).PutUint32":    putBE(4),
		"(encoding/binary.bigEndian).PutUint64":    putBE(8),
		"(encoding/binary.bigEndian).AppendUint16": appendBE(2),
		"(encoding/binary.bigEndian).AppendUint32": appendBE(4),
		"(encoding/binary.bigEndian).AppendUint64": appendBE(8),
		"(encoding/binary.littleEndian).PutUint16": putLE(2),
		"(encoding/binary.littleEndian).PutUint32": putLE(4),
		"(encoding/binary.littleEndian).PutUint64": putLE(8),
		"(encoding/binary.bigEndian).Uint16":       getBE(2, types.Typ[types.Uint16], ""),
		"(encoding/binary.bigEndian).Uint32":       getBE(4, types.Typ[types.Uint32], ""),
		"(encoding/binary.bigEndian).Uint64":       getBE(8, types.Typ[types.Uint64], ""),
		"(encoding/binary.littleEndian).Uint16":    getBE(2, types.Typ[types.Uint16], "le"),
		"(encoding/binary.littleEndian).Uint32":    getBE(4, types.Typ[types.Uint32], "le"),
		"(encoding/binary.littleEndian).Uint64":    getBE(8, types.Typ[types.Uint64], "le"),
		"encoding/binary.PutVarint": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			base, off := bufBase(c.args[0])
			// at most ten bytes are written
			x.obIndex(&st, fr, pos, c.args[0], mkInt(9), mkLen(c.args[0]))
			if z, ok := off.intVal(); ok && z == 0 {
				st.setRegion(base, mk(OVarEnc, nil, "", 0, c.args[1]))
			} else {
				st.setRegion(base, freshSym("varint", nil))
			}
			return one(st, mk(OVarLen, types.Typ[types.Int], "", 0, c.args[1]))
		},
		"encoding/binary.PutUvarint": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			base, off := bufBase(c.args[0])
			v, kind := varOf(st.facts, c.args[1])
			x.obIndex(&st, fr, pos, c.args[0], mkInt(9), mkLen(c.args[0]))
			if z, ok := off.intVal(); ok && z == 0 {
				st.setRegion(base, mk(OVarEnc, nil, kind, 0, v))
			} else {
				st.setRegion(base, freshSym("varint", nil))
			}
			return one(st, mk(OVarLen, types.Typ[types.Int], kind, 0, v))
		},
		"encoding/binary.Varint": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			s := c.args[0]
			if x.onRead != nil && x.quiet == 0 {
				x.onRead(&st, fr, pos, s)
			}
			base, off := bufBase(s)
			v := mk(ORdVar, types.Typ[types.Int64], "", 0, base, off, mkLen(s))
			n := mk(ORdVarN, types.Typ[types.Int], "", 0, base, off, mkLen(s))
			st.facts = st.facts.assumeRaw(mkGE0(linOf(mkLen(s)).sub(linOf(n))))
			st.facts = st.facts.assumeRaw(mkGE0(linOf(n).addc(10)))
			st.facts = st.facts.assumeRaw(mkGE0(linOf(n).scale(-1).addc(10)))
			return one(st, mk(OTuple, nil, "", 0, v, n))
		},
		"encoding/binary.Uvarint": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			s := c.args[0]
			if x.onRead != nil && x.quiet == 0 {
				x.onRead(&st, fr, pos, s)
			}
			base, off := bufBase(s)
			v := mk(ORdVar, types.Typ[types.Uint64], "unsigned", 0, base, off, mkLen(s))
			n := mk(ORdVarN, types.Typ[types.Int], "unsigned", 0, base, off, mkLen(s))
			st.facts = st.facts.assumeRaw(mkGE0(linOf(mkLen(s)).sub(linOf(n))))
			return one(st, mk(OTuple, nil, "", 0, v, n))
		},
		"sync/atomic.LoadInt32":                atomicLoad,
		"sync/atomic.LoadInt64":                atomicLoad,
		"sync/atomic.StoreInt32":               atomicStore,
		"sync/atomic.StoreInt64":               atomicStore,
		"sync/atomic.AddInt32":                 atomicAdd,
		"sync/atomic.AddInt64":                 atomicAdd,
		"sync/atomic.CompareAndSwapInt32":      atomicAdd,
		"sync/atomic.CompareAndSwapInt64":      atomicAdd,
		"sync/atomic.LoadUint32":               atomicLoad,
		"sync/atomic.StoreUint32":              atomicStore,
		"sync/atomic.AddUint32":                atomicAdd,
		"sync/atomic.CompareAndSwapUint32":     atomicAdd,
		"sync/atomic.LoadUint64":               atomicLoad,
		"sync/atomic.StoreUint64":              atomicStore,
		"sync/atomic.AddUint64":                atomicAdd,
		"sync/atomic.CompareAndSwapUint64":     atomicAdd,
		"(*sync/atomic.Int32).CompareAndSwap":  typed(atomicAdd),
		"(*sync/atomic.Int64).CompareAndSwap":  typed(atomicAdd),
		"(*sync/atomic.Uint32).CompareAndSwap": typed(atomicAdd),
		"(*sync/atomic.Uint32).Load":           typed(atomicLoad),
		"(*sync/atomic.Uint32).Store":          typed(atomicStore),
		"(*sync/atomic.Uint32).Add":            typed(atomicAdd),
		"(*sync/atomic.Uint64).CompareAndSwap": typed(atomicAdd),
		"(*sync/atomic.Uint64).Load":           typed(atomicLoad),
		"(*sync/atomic.Uint64).Store":          typed(atomicStore),
		"(*sync/atomic.Uint64).Add":            typed(atomicAdd),
		"(*sync/atomic.Int32).Load":            typed(atomicLoad),
		"(*sync/atomic.Int64).Load":            typed(atomicLoad),
		"(*sync/atomic.Int32).Store":           typed(atomicStore),
		"(*sync/atomic.Int64).Store":           typed(atomicStore),
		"(*sync/atomic.Int32).Add":             typed(atomicAdd),
		"(*sync/atomic.Int64).Add":             typed(atomicAdd),
		"(net.Conn).Read":                      readModel,
		"(*crypto/tls.Conn).Read":              readModel,
		"io.WriteString":                       writeModel("io.Writer.Write"),
		"(io.Writer).Write":                    writeModel("io.Writer.Write"),
		"(*bufio.Writer).Write":                writeModel("io.Writer.Write"),
		"(*bufio.Writer).WriteString":          writeModel("io.Writer.Write"),
		"(io.StringWriter).WriteString":        writeModel("io.Writer.Write"),
		"(*bytes.Buffer).Write":                writeModel("io.Writer.Write"),
		"fmt.Println":                          ignoreCall,
		"fmt.Printf":                           ignoreCall,
		"fmt.Print":                            ignoreCall,
		"fmt.Fprintln":                         ignoreCall,
		"fmt.Fprintf":                          ignoreCall,
		"log.Println":                          ignoreCall,
		"log.Printf":                           ignoreCall,
		"(*sync.Once).Do": func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
			x.emit(&st, fr, &Ev{kind: "call", name: "(*sync.Once).Do", fn: c.fn, args: c.args, pos: pos})
			outer := x.once
			x.once = c.args[0]
			defer func() { x.once = outer }()
			return x.callTerm(fr, st, c.args[1], nil, pos)
		},
	}
}

func sliceBase(s *Term) *Term {
	b, _ := bufBase(s)
	return b
}

func ignoreCall(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
	ev := &Ev{kind: "print", name: c.fn.String(), fn: c.fn, args: c.args, pos: pos}
	x.emit(&st, fr, ev)
	ev.res = x.results(ev, c.fn.Signature.Results(), "print")
	return one(st, ev.res)
}

// typed: the same operation on the integer inside the type
func typed(m model) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		t := pointee(c.args[0].typ)
		if i := fieldIndex(t, func(v *types.Var) bool { return isInt(v.Type()) }); i >= 0 {
			c.args = append([]*Term{mkFieldAddr(c.args[0], i, types.NewPointer(structOf(t).Field(i).Type()))}, c.args[1:]...)
		}
		return m(x, fr, st, c, pos)
	}
}

func atomicLoad(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
	ev := &Ev{kind: "atomic", name: "load", fn: c.fn, args: c.args, pos: pos}
	x.emit(&st, fr, ev)
	if x.own != nil && x.own(c.args[0]) {
		ev.res = st.load(c.args[0], c.fn.Signature.Results().At(0).Type())
		return one(st, ev.res)
	}
	r := freshSym("ld."+locName(c.args[0]), c.fn.Signature.Results().At(0).Type())
	r.info = ev
	ev.res = r
	if x.onAtomic != nil {
		if o := x.onAtomic(x, st, fr, c.fn, c.args, ev); o != nil {
			return o
		}
	}
	return one(st, r)
}

func atomicStore(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
	ev := &Ev{kind: "atomic", name: "store", fn: c.fn, args: c.args, pos: pos}
	x.emit(&st, fr, ev)
	if x.own != nil && x.own(c.args[0]) {
		st.store(c.args[0], c.args[1], c.args[1].typ)
	}
	ev.res = unit()
	return one(st, unit())
}

func atomicName(s string) string {
	if len(s) > 3 && s[:3] == "Com" {
		return "cas"
	}
	return "add"
}

// readModel: Read fills a part of its argument; 0 <= n <= len.
func readModel(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
	name, sig := "", (*types.Signature)(nil)
	if c.fn != nil {
		name, sig = c.fn.String(), c.fn.Signature
	} else {
		name, sig = c.method.FullName(), c.method.Type().(*types.Signature)
	}
	ev := &Ev{kind: "call", name: name, fn: c.fn, args: c.args, pos: pos}
	x.emit(&st, fr, ev)
	ev.res = x.results(ev, sig.Results(), "Read")
	b := c.args[len(c.args)-1]
	n := ev.res.args[0]
	st.facts = st.facts.assume(mkGE0(linOf(n))).assume(mkGE0(linOf(mkLen(b)).sub(linOf(n))))
	base, _ := bufBase(b)
	s := freshSym("received", b.typ)
	s.info = ev
	st.setRegion(base, s)
	return one(st, ev.res)
}

func atomicAdd(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
	ev := &Ev{kind: "atomic", name: atomicName(c.fn.Name()), fn: c.fn, args: c.args, pos: pos}
	x.emit(&st, fr, ev)
	r := freshSym("added", c.fn.Signature.Results().At(0).Type())
	r.info = ev
	ev.res = r
	return one(st, r)
}

// writeModel: write(target, bytes) -> (n, err).  The written bytes are given as
// a term: args[1] is the slice or string, and contents can be read from ev.st.
func writeModel(name string) model {
	return func(x *X, fr *Frame, st State, c Callee, pos token.Pos) []CallOut {
		ev := &Ev{kind: "write", name: name, fn: c.fn, args: c.args, pos: pos}
		x.emit(&st, fr, ev)
		n := freshSym("n", types.Typ[types.Int])
		e := freshSym("write.err", types.Universe.Lookup("error").Type())
		if x.writeOK {
			e = termNil
			n.info = ev
			ev.res = mk(OTuple, nil, "", 0, n, e)
			return one(st, ev.res)
		}
		n.info, e.info = ev, ev
		ev.res = mk(OTuple, nil, "", 0, n, e)
		return one(st, ev.res)
	}
}

var _ = fmt.Sprint
