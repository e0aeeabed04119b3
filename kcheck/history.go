package main

// refuted: the facts f of a path with events evs are contradictory, using for
// each search loop on the path that the iteration at which its counter had
// value w went around the loop.
func refuted(f *Facts, evs []*Ev, ws ...*Term) bool {
	if f.dead {
		return true
	}
	for _, e := range evs {
		if e.kind != "loop" {
			continue
		}
		li := e.loop
		if len(li.backs) == 0 || len(li.backs) > 4 {
			continue
		}
		clean := true
		for _, v := range li.vars {
			if v.mode == VOpaque || v.mode == VAccum {
				clean = false
			}
		}
		if !clean {
			continue
		}
		N := li.K
		if e.complete {
			N = li.trip
		}
		for _, v := range li.vars {
			if v.mode != VInduct || (v.step != 1 && v.step != -1) {
				continue
			}
			for _, w := range ws {
				j := linOf(w).sub(linOf(v.entry)).scale(v.step).term()
				if !f.entailsGE(linOf(j)) || !f.lt(j, N) {
					continue
				}
				all := true
				for _, b := range li.backs {
					g := f
					m := map[*Term]*Term{li.K: j}
					for _, x := range b.st.facts.since(li.header.facts) {
						if factMentionsIteration(x, li) {
							continue
						}
						switch {
						case x.ge != nil:
							g = g.assume(mkGE0(linOf(subst(x.ge.term(), m))))
						case x.ne != nil:
							g = g.assume(mkNot(mkEQ0(linOf(subst(x.ne.term(), m)))))
						case x.b != nil:
							t := subst(x.b, m)
							if !x.bv {
								t = mkNot(t)
							}
							g = g.assume(t)
						}
						if g.dead {
							break
						}
					}
					if !g.dead {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// factMentionsIteration: a symbol created inside the iteration (other than the
// counter) belongs to one particular iteration only.
func factMentionsIteration(x *Facts, li *LoopInfo) bool {
	n := symNo(li.K)
	in := func(t *Term) bool {
		return t != nil && contains(t, func(y *Term) bool { return y.op == OSym && y != li.K && symNo(y) > n })
	}
	if x.ge != nil {
		return in(x.ge.term())
	}
	if x.ne != nil {
		return in(x.ne.term())
	}
	return in(x.b)
}
