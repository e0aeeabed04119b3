package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Lookups (C20, C21, C22, C25): every exported method of Client is evaluated
// with NewBroker and the methods of Broker as opaque steps that succeed or fail.

type lookupInfo struct {
	p         *Prog
	typ       types.Type
	newBroker *ssa.Function
	brokerT   types.Type
	bootF     int
	optF      int
}

type lookup struct {
	li    *lookupInfo
	fn    *ssa.Function
	x     *X
	c     *Term
	args  []*Term
	outs  []CallOut
	boot  *Term
	opts  *Term
	probs []Finding
}

func (p *Prog) lookupInfo() (*lookupInfo, error) {
	li := &lookupInfo{p: p, typ: namedType(p, kafkaPkg, "Client"), newBroker: p.fun(kafkaPkg, "NewBroker"), brokerT: namedType(p, kafkaPkg, "Broker")}
	if li.typ == nil || li.newBroker == nil || li.brokerT == nil {
		return nil, fmt.Errorf("Client, Broker or NewBroker not found")
	}
	li.bootF = fieldIndex(li.typ, func(v *types.Var) bool {
		s, ok := v.Type().Underlying().(*types.Slice)
		return ok && isString(s.Elem())
	})
	li.optF = fieldIndex(li.typ, func(v *types.Var) bool {
		s, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		n, ok := s.Elem().(*types.Named)
		return ok && n.Obj().Name() == "Option"
	})
	if li.bootF < 0 || li.optF < 0 {
		return nil, fmt.Errorf("Client has no single list of bootstrap servers and of options")
	}
	return li, nil
}

func (li *lookupInfo) isBrokerMethod(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	t := fn.Signature.Recv().Type()
	if q := pointee(t); q != nil {
		t = q
	}
	return types.Identical(t, li.brokerT)
}

func (li *lookupInfo) newX() *X {
	x := newX(li.p)
	x.atomic = func(fn *ssa.Function) bool {
		return fn == li.newBroker || li.isBrokerMethod(fn) && token.IsExported(fn.Name())
	}
	x.onAtomic = func(x *X, st State, fr *Frame, fn *ssa.Function, args []*Term, ev *Ev) []CallOut {
		if ev.kind != "call" {
			return nil
		}
		ev.res = x.results(ev, fn.Signature.Results(), fn.Name())
		er := errOf(ev)
		if er == nil || fn.Name() == "Close" {
			return []CallOut{{st: st, ret: ev.res}}
		}
		a, b := st, st
		a.facts = st.facts.assume(mkEq(er, termNil))
		if fn == li.newBroker {
			a.facts = a.facts.assume(mkNot(mkEq(ev.res.args[0], termNil)))
		}
		b.facts = st.facts.assume(mkNot(mkEq(er, termNil)))
		if fn == li.newBroker && nothingOnError(fn) {
			b.facts = b.facts.assume(mkEq(ev.res.args[0], termNil))
		}
		return []CallOut{{st: a, ret: ev.res}, {st: b, ret: ev.res}}
	}
	return x
}

// nothingOnError: every return of fn gives either no value or no error.
func nothingOnError(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			if len(r.Results) != 2 {
				return false
			}
			none := false
			for _, v := range r.Results {
				if c, ok := v.(*ssa.Const); ok && c.Value == nil {
					none = true
				}
			}
			if !none {
				return false
			}
		}
	}
	return true
}

func (li *lookupInfo) lookups(rep *Report) []*lookup {
	var r []*lookup
	for _, fn := range li.p.methodsOf(kafkaPkg, "Client") {
		if !token.IsExported(fn.Name()) {
			continue
		}
		l := &lookup{li: li, fn: fn, x: li.newX()}
		for i, q := range fn.Params {
			t := namedSym(fn.Name()+"."+q.Name(), q.Type())
			if i == 0 {
				t.nonnil = true
			}
			l.args = append(l.args, t)
		}
		l.c = l.args[0]
		st := State{facts: rootFacts}
		load := func(f int) *Term {
			ft := structOf(li.typ).Field(f).Type()
			return st.load(mkFieldAddr(l.c, f, types.NewPointer(ft)), ft)
		}
		l.boot, l.opts = load(li.bootF), load(li.optF)
		l.x.onStore = func(st *State, fr *Frame, pos token.Pos, a, v *Term) {
			if rootOf(a) == l.c {
				l.probs = append(l.probs, Finding{"client:" + fn.Name(), fn.Name() + " changes the client it is called on", li.p.pos(pos)})
			}
		}
		l.outs = l.x.Run(fn, l.args, nil, st, nil, 0)
		rep.visit(l.x)
		rep.undecided(l.x, fn.Name())
		r = append(r, l)
	}
	return r
}

func dumpLookups(p *Prog) {
	li, err := p.lookupInfo()
	if err != nil {
		fmt.Println(err)
		return
	}
	rep := newReport("")
	for _, l := range li.lookups(rep) {
		fmt.Println("######", l.fn.Name(), "boot", l.boot, "opts", l.opts)
		dumpOuts(os.Stdout, p, l.outs)
	}
	for _, f := range rep.findings {
		fmt.Println("FINDING", f)
	}
}
