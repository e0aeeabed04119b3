package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Kafka's api keys.
var apiNames = []string{"Produce", "Fetch", "ListOffset", "Metadata", "LeaderAndIsr", "StopReplica", "UpdateMetadata", "ControlledShutdown",
	"OffsetCommit", "OffsetFetch", "FindCoordinator", "JoinGroup", "Heartbeat", "LeaveGroup", "SyncGroup", "DescribeGroups", "ListGroups",
	"SaslHandshake", "ApiVersions", "CreateTopics", "DeleteTopics", "DeleteRecords", "InitProducerId", "OffsetForLeaderEpoch",
	"AddPartitionsToTxn", "AddOffsetsToTxn", "EndTxn", "WriteTxnMarkers", "TxnOffsetCommit", "DescribeAcls", "CreateAcls", "DeleteAcls",
	"DescribeConfigs", "AlterConfigs", "AlterReplicaLogDirs", "DescribeLogDirs", "SaslAuthenticate", "CreatePartitions",
	"CreateDelegationToken", "RenewDelegationToken", "ExpireDelegationToken", "DescribeDelegationToken", "DeleteGroups", "ElectLeaders",
	"IncrementalAlterConfigs", "AlterPartitionReassignments", "ListPartitionReassignments", "OffsetDelete"}

// first flexible version (KIP-482) of the apis that have one as of Kafka 2.4
var flexMin = map[string]int64{"Metadata": 9, "LeaderAndIsr": 4, "StopReplica": 2, "UpdateMetadata": 6, "ControlledShutdown": 3, "OffsetCommit": 8,
	"OffsetFetch": 6, "FindCoordinator": 3, "JoinGroup": 6, "Heartbeat": 4, "LeaveGroup": 4, "SyncGroup": 4, "DescribeGroups": 5, "ListGroups": 3,
	"ApiVersions": 3, "CreateTopics": 5, "DeleteTopics": 4, "InitProducerId": 2, "CreateDelegationToken": 2, "DeleteGroups": 2, "ElectLeaders": 2,
	"IncrementalAlterConfigs": 1, "AlterPartitionReassignments": 0, "ListPartitionReassignments": 0}

const kafkaPkg = modPath

type brokerInfo struct {
	p                  *Prog
	typ, conn          types.Type // Broker, Conn
	verF, cfgF, connF  int
	verT, cfgT         types.Type
	newBroker, connect *ssa.Function
	do, apiVersions    *ssa.Function
	idF                int // client id in config
}

func (p *Prog) brokerInfo() (*brokerInfo, error) {
	b := &brokerInfo{p: p, typ: namedType(p, kafkaPkg, "Broker"), conn: namedType(p, kafkaPkg, "Conn")}
	if b.typ == nil || b.conn == nil {
		return nil, fmt.Errorf("types Broker and Conn not found")
	}
	b.verF = fieldIndex(b.typ, func(v *types.Var) bool {
		s := structOf(v.Type())
		if s == nil || s.NumFields() < 20 {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if !isInt(s.Field(i).Type()) {
				return false
			}
		}
		return true
	})
	b.connF = fieldIndex(b.typ, func(v *types.Var) bool { return types.Identical(v.Type(), types.NewPointer(b.conn)) })
	b.cfgF = fieldIndex(b.typ, func(v *types.Var) bool {
		n, ok := v.Type().(*types.Named)
		return ok && n.Obj().Name() == "config"
	})
	if b.verF < 0 || b.connF < 0 || b.cfgF < 0 {
		return nil, fmt.Errorf("Broker has no single field for its versions, configuration and connection")
	}
	s := structOf(b.typ)
	b.verT, b.cfgT = s.Field(b.verF).Type(), s.Field(b.cfgF).Type()
	b.idF = fieldIndex(b.cfgT, func(v *types.Var) bool { return isString(v.Type()) })
	b.newBroker, b.connect = p.fun(kafkaPkg, "NewBroker"), p.fun(kafkaPkg, "Connect")
	b.do, b.apiVersions = p.method(kafkaPkg, "Conn", "Do"), p.method(kafkaPkg, "Broker", "ApiVersions")
	if b.newBroker == nil || b.connect == nil || b.do == nil || b.apiVersions == nil || b.idF < 0 {
		return nil, fmt.Errorf("NewBroker, Connect, Conn.Do, Broker.ApiVersions or the client id not found")
	}
	return b, nil
}

func (b *brokerInfo) field(st *State, br *Term, f int) *Term {
	ft := structOf(b.typ).Field(f).Type()
	return st.load(mkFieldAddr(br, f, types.NewPointer(ft)), ft)
}

type nbRun struct {
	x        *X
	addr     *Term
	opts     *Term
	outs     []CallOut
	conn     *Ev
	api      *Ev
	brokerAt State // at the ApiVersions call
}

// runNewBroker analyses NewBroker with Connect, ApiVersions and Close as opaque steps.
func (b *brokerInfo) runNewBroker() *nbRun {
	x := newX(b.p)
	r := &nbRun{x: x, addr: namedSym("addr", types.Typ[types.String]), opts: namedSym("opts", b.newBroker.Params[1].Type())}
	x.atomic = func(fn *ssa.Function) bool {
		return fn == b.connect || fn == b.apiVersions || fn == b.do || fn == b.p.method(kafkaPkg, "Conn", "Close")
	}
	x.onAtomic = func(x *X, st State, fr *Frame, fn *ssa.Function, args []*Term, ev *Ev) []CallOut {
		if fn != b.connect && fn != b.apiVersions {
			return nil
		}
		ev.res = x.results(ev, fn.Signature.Results(), fn.Name())
		er := errOf(ev)
		if er == nil {
			return nil
		}
		good, bad := st, st
		good.facts = good.facts.assumeRaw(mkEq(er, termNil))
		bad.facts = bad.facts.assumeRaw(mkNot(mkEq(er, termNil)))
		if fn == b.connect {
			good.facts = good.facts.assumeRaw(mkNot(mkEq(ev.res.args[0], termNil)))
		}
		return []CallOut{{st: good, ret: ev.res}, {st: bad, ret: ev.res}}
	}
	r.outs = x.Run(b.newBroker, []*Term{r.addr, r.opts}, nil, State{facts: rootFacts}, nil, 0)
	return r
}

func callsOf(evs []*Ev, fn *ssa.Function) []*Ev {
	var r []*Ev
	for _, e := range evs {
		if e.kind == "call" && e.fn == fn {
			r = append(r, e)
		}
		if e.kind == "loop" {
			for _, b := range e.loop.backs {
				r = append(r, callsOf(b.st.events(), fn)...)
			}
		}
	}
	return r
}

// apiRange is what the library implements of an api.
func apiRange(spec []SpecMsg, key int) (lo, hi int64, ok bool) {
	for _, m := range spec {
		if m.ApiKey == key && m.Name == apiNames[key]+"Request" {
			lo, hi, ok = m.Min, m.Max, true
			if f, has := flexMin[apiNames[key]]; has && hi >= f {
				hi = f - 1
			}
			if hi < lo {
				hi = lo // known finding of C19
			}
		}
	}
	return
}

type slotInfo struct {
	field int // of the versions struct
	cap_  int64
}

// negotiation checks version negotiation; it returns the slot of each api.
func (b *brokerInfo) negotiation(rep *Report, spec []SpecMsg, tag string) map[int]int {
	p := b.p
	slots := map[int]int{}
	r := b.runNewBroker()
	rep.visit(r.x)
	rep.undecided(r.x, "NewBroker")
	vs := structOf(b.verT)
	success := 0
	for _, o := range r.outs {
		pos := p.pos(o.pos)
		f := o.st.facts
		if f.dead {
			continue
		}
		if o.panic || o.stop {
			rep.bad(tag+":newbroker:panic", pos, "NewBroker can panic or block")
			continue
		}
		evs := o.st.events()
		rep.ok("newbroker_paths")
		br, er := o.ret.args[0], f.resolve(o.ret.args[1])
		conns, apis := callsOf(evs, b.connect), callsOf(evs, b.apiVersions)
		failed := ""
		for _, e := range append(append([]*Ev{}, conns...), apis...) {
			switch f.decide(mkEq(errOf(e), termNil)) {
			case -1:
				failed = e.fn.Name()
			case 0:
				rep.bad(tag+":newbroker:unchecked", p.pos(e.pos), "NewBroker does not examine the error of %s", e.fn.Name())
			}
		}
		var keys, code *Term
		if len(apis) == 1 {
			resp := apis[0].res.args[0]
			code, keys = b.respFields(resp)
			if keys == nil || code == nil {
				rep.bad(tag+":newbroker:response", pos, "ApiVersionsResponse has no ErrorCode or list of api keys")
				return slots
			}
			if failed == "" && f.entailsNE(linOf(code)) {
				failed = "the broker (error code)"
			}
		}
		isNil := f.decide(mkEq(er, termNil))
		var lev *Ev
		for _, e := range evs {
			if e.kind == "loop" && keys != nil && e.loop.trip == mkLen(keys) {
				if lev != nil {
					rep.bad(tag+":loop:twice", p.pos(e.pos), "the advertised versions are walked twice")
				}
				lev = e
			}
		}
		if isNil == 0 {
			rep.bad(tag+":newbroker:unknown", pos, "whether NewBroker succeeds is not determined by its steps")
			continue
		}
		if isNil == -1 {
			// an error needs a reason
			if failed != "" {
				continue
			}
			if keys == nil {
				rep.bad(tag+":newbroker:spurious", pos, "NewBroker fails although connecting succeeded")
				continue
			}
			b.negotiateError(rep, tag, spec, f, evs, keys, pos)
			continue
		}
		// success
		if failed != "" {
			rep.bad(tag+":newbroker:ignored", pos, "NewBroker succeeds although %s failed", failed)
			continue
		}
		if len(conns) != 1 || len(apis) != 1 {
			rep.bad(tag+":newbroker:steps", pos, "NewBroker succeeds without connecting and asking for the api versions exactly once")
			continue
		}
		if !f.eq(code, mkInt(0)) {
			rep.bad(tag+":newbroker:code", pos, "NewBroker succeeds although the broker may have reported an error code")
		}
		cv := conns[0].res.args[0]
		at := apis[0].st
		abr := apis[0].args[0]
		if at.facts.resolve(b.field(&at, abr, b.connF)) != cv {
			rep.bad(tag+":newbroker:conn", p.pos(apis[0].pos), "the api versions are asked over another connection")
		}
		if z, ok := at.facts.constOf(mkField(b.field(&at, abr, b.verF), b.slotNamed("ApiVersions"), vs.Field(b.slotNamed("ApiVersions")).Type())); !ok || z != 0 {
			rep.bad(tag+":newbroker:first", p.pos(apis[0].pos), "the api versions are asked with a version other than 0")
		}
		st := o.st
		if b.field(&st, br, b.connF) != cv {
			rep.bad(tag+":newbroker:conn", pos, "the broker returned does not use the connection made")
		}
		if lev == nil || !lev.complete {
			rep.bad(tag+":loop:none", pos, "NewBroker succeeds without walking all advertised versions")
			continue
		}
		success++
		ver := b.field(&st, br, b.verF)
		m := map[*LVar]int{}
		for i := 0; i < vs.NumFields(); i++ {
			t := mkField(ver, i, vs.Field(i).Type())
			if z, ok := t.intVal(); ok && z == 0 {
				continue
			}
			var lv *LVar
			for _, v := range lev.loop.vars {
				if v.sym == t && v.mode == VOpaque {
					lv = v
				}
			}
			if lv == nil {
				rep.bad(tag+":slot:"+vs.Field(i).Name(), pos, "the version kept for %s (%s) is not the negotiated one", vs.Field(i).Name(), t)
				continue
			}
			if z, ok := lv.entry.intVal(); !ok || z != 0 {
				rep.bad(tag+":slot:"+vs.Field(i).Name(), pos, "the version kept for %s starts as %s", vs.Field(i).Name(), lv.entry)
			}
			m[lv] = i
		}
		b.negotiateLoop(rep, tag, spec, lev, keys, m, slots)
	}
	if success == 0 {
		rep.bad(tag+":newbroker:never", p.pos(b.newBroker.Pos()), "NewBroker never succeeds")
	}
	rep.need("newbroker_paths", 5)
	return slots
}

func (b *brokerInfo) slotNamed(n string) int {
	i := fieldIndex(b.verT, func(v *types.Var) bool { return v.Name() == n })
	if i < 0 {
		return 0
	}
	return i
}

func (b *brokerInfo) respFields(resp *Term) (code, keys *Term) {
	s := structOf(resp.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "ErrorCode":
			code = mkField(resp, i, s.Field(i).Type())
		case "ApiKeys":
			keys = mkField(resp, i, s.Field(i).Type())
		}
	}
	return
}

// keyTerms finds the element examined on a path and gives its key and range.
func keyTerms(f *Facts, keys *Term) (key, min, max, idx *Term) {
	var el *Term
	for y := f; y != nil && el == nil; y = y.parent {
		scan := func(t *Term) {
			contains(t, func(z *Term) bool {
				if z.op == OIndex && z.args[0] == keys {
					el = z
				}
				return false
			})
		}
		if y.ge != nil {
			scan(y.ge.term())
		}
		if y.ne != nil {
			scan(y.ne.term())
		}
	}
	if el == nil {
		return
	}
	s := structOf(el.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		t := mkField(el, i, s.Field(i).Type())
		switch s.Field(i).Name() {
		case "ApiKey":
			key = t
		case "MinVersion":
			min = t
		case "MaxVersion":
			max = t
		}
	}
	return key, min, max, el.args[1]
}

func eqConst(t *Term, n int64) *Term { return mkEQ0(linOf(t).addc(-n)) }
func geT(a, b *Term) *Term           { return mkGE0(linOf(a).sub(linOf(b))) }

// negotiateError: connecting fails during negotiation only for an api this
// library knows and for which there is no common version.
func (b *brokerInfo) negotiateError(rep *Report, tag string, spec []SpecMsg, f *Facts, evs []*Ev, keys *Term, pos string) {
	key, min, max, _ := keyTerms(f, keys)
	if key == nil || min == nil || max == nil {
		rep.bad(tag+":error:spurious", pos, "NewBroker fails although every step succeeded")
		return
	}
	rep.ok("negotiation_failures")
	for k := 0; k < len(apiNames); k++ {
		g := f.assume(eqConst(key, int64(k)))
		if g.dead {
			continue
		}
		lo, hi, ok := apiRange(spec, k)
		if !ok {
			rep.bad(tag+":spec", pos, "no message for api %s", apiNames[k])
			continue
		}
		// a common version exists: max(lo,min) <= min(hi,max)
		g = g.assume(geT(mkInt(hi), min)).assume(geT(max, mkInt(lo))).assume(geT(max, min))
		if !refuted(g.assume(geT(mkInt(hi), max)), evs, max) || !refuted(g.assume(geT(max, mkInt(hi+1))), evs, mkInt(hi)) {
			rep.bad(fmt.Sprintf("%s:error:%s", tag, apiNames[k]), pos, "negotiating %s may fail although there is a common version (library %d to %d)", apiNames[k], lo, hi)
		}
	}
	g := f.assume(mkGE0(linOf(key).addc(-int64(len(apiNames)))))
	h := f.assume(mkGE0(linOf(key).scale(-1).addc(-1)))
	if !g.dead || !h.dead {
		rep.bad(tag+":error:unknown", pos, "an api unknown to this library can make connecting fail")
	}
}

func (b *brokerInfo) negotiateLoop(rep *Report, tag string, spec []SpecMsg, lev *Ev, keys *Term, m map[*LVar]int, slots map[int]int) {
	p := b.p
	li := lev.loop
	vs := structOf(b.verT)
	pos := p.pos(lev.pos)
	seen := map[int]bool{}
	for bi, back := range li.backs {
		f := back.st.facts
		key, min, max, idx := keyTerms(f, keys)
		if key == nil || min == nil || max == nil {
			rep.bad(tag+":loop:element", pos, "a path through the negotiation ignores an advertised api")
			continue
		}
		if idx != li.K && idx != mkSub(mkAddC(mkLen(keys), -1), li.K) {
			rep.bad(tag+":loop:index", pos, "the negotiation does not visit every advertised api (element %s)", idx)
		}
		type change struct {
			lv  *LVar
			val *Term
		}
		var ch []change
		for lv := range m {
			nx := li.nexts[lv]
			if bi < len(nx) && nx[bi] != lv.sym {
				ch = append(ch, change{lv, nx[bi]})
			}
		}
		g := f.assume(mkGE0(linOf(key).addc(-int64(len(apiNames)))))
		h := f.assume(mkGE0(linOf(key).scale(-1).addc(-1)))
		if (!g.dead || !h.dead) && len(ch) > 0 {
			rep.bad(tag+":loop:unknown", pos, "an api unknown to this library changes the version of %s", vs.Field(m[ch[0].lv]).Name())
		}
		for k := 0; k < len(apiNames); k++ {
			g := f.assume(eqConst(key, int64(k)))
			if g.dead {
				continue
			}
			rep.ok("negotiation_cases")
			seen[k] = true
			name := apiNames[k]
			lo, hi, ok := apiRange(spec, k)
			if !ok {
				rep.bad(tag+":spec", pos, "no message for api %s", name)
				continue
			}
			kk := fmt.Sprintf("%s:%s", tag, name)
			// no common version must not get here
			no := []*Facts{g.assume(geT(min, mkInt(hi+1))), g.assume(geT(mkInt(lo-1), max)), g.assume(geT(min, mkAddC(max, 1)))}
			for _, n := range no {
				if !n.dead {
					rep.bad(kk+":none", pos, "connecting goes on although there is no common version of %s (library %d to %d)", name, lo, hi)
					break
				}
			}
			if len(ch) == 0 && hi == 0 {
				continue // the version is 0 in any case
			}
			if len(ch) != 1 {
				rep.bad(kk+":slots", pos, "negotiating %s sets %d versions instead of one", name, len(ch))
				continue
			}
			c := ch[0]
			if s, ok := slots[k]; ok && s != m[c.lv] {
				rep.bad(kk+":slot", pos, "the version of %s is kept in %s and in %s", name, vs.Field(s).Name(), vs.Field(m[c.lv]).Name())
			}
			slots[k] = m[c.lv]
			ok2 := true
			bev := back.st.events()
			is := func(x *Facts, w *Term) bool {
				return x.dead || refuted(x.assume(geT(w, mkAddC(c.val, 1))), bev, w) && refuted(x.assume(geT(c.val, mkAddC(w, 1))), bev, w)
			}
			if x := g.assume(geT(mkInt(hi), max)).assume(geT(mkInt(hi), min)).assume(geT(max, mkInt(lo))).assume(geT(max, min)); !is(x, max) {
				ok2 = false
			}
			if x := g.assume(geT(max, mkInt(hi+1))).assume(geT(mkInt(hi), min)); !is(x, mkInt(hi)) {
				ok2 = false
			}
			if !ok2 {
				rep.bad(kk+":highest", pos, "the version chosen for %s (%s) is not the highest both sides support (library %d to %d)", name, c.val, lo, hi)
			}
		}
	}
	for k := range apiNames {
		if !seen[k] {
			rep.bad(fmt.Sprintf("%s:%s:ignored", tag, apiNames[k]), pos, "%s is never negotiated", apiNames[k])
		}
	}
	inv := map[int]int{}
	for k := 0; k < len(apiNames); k++ {
		if s, ok := slots[k]; ok {
			if o, dup := inv[s]; dup {
				rep.bad(fmt.Sprintf("%s:%s:shared", tag, apiNames[k]), pos, "%s and %s share one negotiated version", apiNames[o], apiNames[k])
			}
			inv[s] = k
		}
	}
	rep.need("negotiation_cases", 48)
}

func checkNegotiation(p *Prog, rep *Report, verif string) {
	b, err := p.brokerInfo()
	if err != nil {
		rep.bad("negotiate:info", "", "%v", err)
		return
	}
	spec, err := loadSpec(verif)
	if err != nil {
		rep.bad("spec", "", "%v", err)
		return
	}
	rep.rule("NewBroker with the negotiation inlined: for every api key and every advertised range, the slot of that api gets min(broker max, library max); error exactly if that is below either minimum; no other slot changes; every failing step makes NewBroker fail, and nothing else does")
	b.negotiation(rep, spec, "negotiate")
}

func init() { checks["C17"] = checkNegotiation }
