package main

import "fmt"

// checkFlexible is C19: no version kept for an api uses the flexible format.
func checkFlexible(p *Prog, rep *Report, verif string) {
	b, err := p.brokerInfo()
	if err != nil {
		rep.bad("flexible:info", "", "%v", err)
		return
	}
	rep.rule("on every path through the negotiation, the version stored for an api is provably below the first flexible version of that api (KIP-482 table); apis without a stored version use 0, checked alike; and it is a version the message codecs of this library cover")
	spec, err := loadSpec(verif)
	if err != nil {
		rep.bad("spec", "", "%v", err)
		return
	}
	r := b.runNewBroker()
	rep.visit(r.x)
	rep.undecided(r.x, "NewBroker")
	seen := map[int]bool{}
	for _, o := range r.outs {
		if o.panic || o.stop || o.st.facts.dead || o.st.facts.decide(mkEq(o.st.facts.resolve(o.ret.args[1]), termNil)) == -1 {
			continue
		}
		evs := o.st.events()
		apis := callsOf(evs, b.apiVersions)
		if len(apis) != 1 {
			rep.bad("flexible:apis", p.pos(o.pos), "NewBroker succeeds without one ApiVersions call")
			continue
		}
		_, keys := b.respFields(apis[0].res.args[0])
		st := o.st
		ver := b.field(&st, o.ret.args[0], b.verF)
		vs := structOf(b.verT)
		for _, e := range evs {
			if e.kind != "loop" || e.loop.trip != mkLen(keys) {
				continue
			}
			for bi, back := range e.loop.backs {
				f := back.st.facts
				key, _, _, _ := keyTerms(f, keys)
				if key == nil {
					continue
				}
				for k, name := range apiNames {
					g := f.assume(eqConst(key, int64(k)))
					if g.dead {
						continue
					}
					seen[k] = true
					for i := 0; i < vs.NumFields(); i++ {
						t := mkField(ver, i, vs.Field(i).Type())
						for _, v := range e.loop.vars {
							if v.sym != t || v.mode != VOpaque || bi >= len(e.loop.nexts[v]) || e.loop.nexts[v][bi] == v.sym {
								continue
							}
							rep.ok("stored_versions")
							b.below(rep, spec, g, k, name, e.loop.nexts[v][bi], p.pos(back.pos))
						}
					}
				}
			}
		}
	}
	for k, name := range apiNames {
		rep.ok("default_versions")
		b.below(rep, spec, rootFacts, k, name, mkInt(0), p.pos(b.newBroker.Pos()))
		if !seen[k] {
			rep.bad("flexible:unseen:"+name, "", "%s is never negotiated", name)
		}
	}
	rep.need("stored_versions", 48)
	// the first request, before negotiation, is checked by C17 to use version 0
}

func (b *brokerInfo) below(rep *Report, spec []SpecMsg, f *Facts, k int, name string, v *Term, pos string) {
	if fm, ok := flexMin[name]; ok && !f.entailsGE(linOf(v).scale(-1).addc(fm-1)) {
		rep.bad("flexible:"+name, pos, "%s may use version %s, but versions from %d on use the flexible format, which is not implemented", name, v, fm)
	}
	for _, m := range spec {
		if m.Name == name+"Request" || m.Name == name+"Response" {
			if !f.entailsGE(linOf(v).scale(-1).addc(m.Max)) || !f.entailsGE(linOf(v).addc(-m.Min)) {
				rep.bad(fmt.Sprintf("flexible:%s:codec", name), pos, "%s may use version %s, outside the versions %d to %d of %s", name, v, m.Min, m.Max, m.Name)
			}
		}
	}
}

func init() { checks["C19"] = checkFlexible }
