package main

import (
	"fmt"
	"io"
	"strings"
)

func dumpEvents(w io.Writer, p *Prog, evs []*Ev, ind string) {
	for _, e := range evs {
		var as []string
		for _, a := range e.args {
			as = append(as, a.String())
		}
		switch e.kind {
		case "loop":
			fmt.Fprintf(w, "%sloop K=%s trip=%v at %s\n", ind, e.loop.K, e.loop.trip, p.pos(e.pos))
			for _, v := range e.loop.vars {
				fmt.Fprintf(w, "%s  var %s mode=%d entry=%s step=%d f=%v nexts=%v\n", ind, v.sym, v.mode, v.entry, v.step, v.f, e.loop.nexts[v])
			}
			for i, b := range e.loop.backs {
				fmt.Fprintf(w, "%s  back %d  [%s]\n", ind, i, strings.Join(b.st.facts.strings(e.loop.header.facts), "; "))
				dumpEvents(w, p, b.st.events(), ind+"    ")
			}
		case "select":
			var cs []string
			for _, c := range e.cases {
				cs = append(cs, fmt.Sprintf("send=%v %s", c.send, c.ch))
			}
			fmt.Fprintf(w, "%sselect %v chosen=%d block=%v\n", ind, cs, e.chosen, e.block)
		default:
			fmt.Fprintf(w, "%s%s %s(%s) -> %v  %s\n", ind, e.kind, e.name, strings.Join(as, ", "), e.res, p.pos(e.pos))
		}
	}
}

func dumpOuts(w io.Writer, p *Prog, outs []CallOut) {
	for i, o := range outs {
		fmt.Fprintf(w, "== outcome %d ret=%v panic=%v stop=%v facts: %s\n", i, o.ret, o.panic, o.stop, strings.Join(o.st.facts.strings(rootFacts), "; "))
		dumpEvents(w, p, o.st.events(), "  ")
	}
}
