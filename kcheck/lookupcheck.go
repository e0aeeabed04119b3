package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldNamed gives field name of struct term t, nil if there is none.
func fieldNamed(t *Term, name string) *Term {
	s := structOf(t.typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(t, i, s.Field(i).Type())
		}
	}
	return nil
}

// isFieldOf: t is field name of some term, which is returned.
func isFieldOf(t *Term, name string) *Term {
	if t.op != OField {
		return nil
	}
	s := structOf(t.args[0].typ)
	if s == nil || s.Field(int(t.n)).Name() != name {
		return nil
	}
	return t.args[0]
}

// lpath is one way through a lookup.
type lpath struct {
	l        *lookup
	o        CallOut
	f        *Facts
	evs      []*Ev
	pos      string
	ret      *Term // first result
	err      *Term
	errNil   int
	boot     *Ev // bootstrap connection that succeeded
	bootLoop *Ev
	dials    []*Ev // other connections attempted
	api      *Ev
}

func (l *lookup) dialsBoot(e *Ev) bool { return containsTerm(e.args[0], l.boot) }

func (l *lookup) isDial(e *Ev) bool { return e.kind == "call" && e.fn == l.li.newBroker }

func (l *lookup) isApi(e *Ev) bool {
	return e.kind == "call" && e.fn != nil && e.fn.Name() != "Close" && l.li.isBrokerMethod(e.fn) && token.IsExported(e.fn.Name())
}

func (l *lookup) isClose(e *Ev) bool {
	return e.kind == "call" && e.fn != nil && e.fn.Name() == "Close" && l.li.isBrokerMethod(e.fn)
}

// deepEvs lists events including those of loop rounds.
func deepEvs(evs []*Ev, visit func(e *Ev, inLoop *Out)) {
	var walk func(evs []*Ev, in *Out)
	walk = func(evs []*Ev, in *Out) {
		for _, e := range evs {
			visit(e, in)
			if e.kind == "loop" {
				for i := range e.loop.backs {
					b := &e.loop.backs[i]
					if !b.st.facts.dead {
						walk(b.st.events(), b)
					}
				}
			}
		}
	}
	walk(evs, nil)
}

// paths splits a lookup into its ways; what cannot be told apart is reported.
func (l *lookup) paths(rep *Report) []*lpath {
	var r []*lpath
	n := l.fn.Name()
	for _, o := range l.outs {
		if o.st.facts.dead {
			continue
		}
		pos := l.li.p.pos(o.pos)
		if o.panic || o.stop {
			rep.bad("lookup:panic:"+n, pos, "%s can panic or block for ever", n)
			continue
		}
		q := &lpath{l: l, o: o, f: o.st.facts, evs: o.st.events(), pos: pos}
		rs := []*Term{o.ret}
		if o.ret != nil && o.ret.op == OTuple {
			rs = o.ret.args
		}
		if len(rs) == 2 && isErrorType(rs[1].typ) || len(rs) == 2 && rs[1].isNil() {
			q.ret, q.err = q.f.resolve(rs[0]), q.f.resolve(rs[1])
			q.errNil = q.f.decide(mkEq(q.err, termNil))
		}
		r = append(r, q)
		rep.ok("lookup_paths")
		deepEvs(q.evs, func(e *Ev, in *Out) {
			switch e.kind {
			case "go", "select", "send", "recv":
				rep.bad("undecided:lookup:"+n+":"+e.kind, l.li.p.pos(e.pos), "%s: cannot be decided: uses goroutines or channels", n)
			}
		})
	}
	return r
}

// sort out which step is which
func (q *lpath) classify() {
	for _, e := range q.evs {
		switch {
		case e.kind == "loop":
			if hasEv([]*Ev{e}, func(v *Ev) bool { return q.l.isDial(v) && q.l.dialsBoot(v) }) {
				q.bootLoop = e
			}
		case q.l.isDial(e) && q.l.dialsBoot(e):
			q.boot = e
		case q.l.isDial(e):
			q.dials = append(q.dials, e)
		case q.l.isApi(e):
			q.api = e
		}
	}
}

// usesBootstrap: does the method make connections at all?
func (l *lookup) connects() bool {
	for _, o := range l.outs {
		if hasEv(o.st.events(), func(e *Ev) bool { return l.isDial(e) || l.isApi(e) }) {
			return true
		}
	}
	return false
}

// ---- C22 ----

func (q *lpath) bootstrap(rep *Report) {
	l, f := q.l, q.f
	n := l.fn.Name()
	p := l.li.p
	bad := func(key string, e *Ev, format string, args ...any) {
		pos := q.pos
		if e != nil {
			pos = p.pos(e.pos)
		}
		rep.bad("bootstrap:"+n+":"+key, pos, n+": "+format, args...)
	}
	// rounds of loops
	deepEvs(q.evs, func(e *Ev, in *Out) {
		if in != nil && l.isApi(e) {
			bad("again", e, "%s may be asked more than once", e.fn.Name())
		}
		if e.kind != "loop" {
			return
		}
		for _, b := range e.loop.backs {
			if b.st.facts.dead {
				continue
			}
			var ds []*Ev
			for _, v := range b.st.events() {
				if l.isDial(v) {
					ds = append(ds, v)
				}
			}
			if len(ds) == 0 {
				if e == q.bootLoop {
					bad("skip", e, "a bootstrap server can be skipped")
				}
				continue
			}
			if e != q.bootLoop || in != nil {
				bad("loop", e, "connects in a loop other than the one over the bootstrap servers")
				continue
			}
			if len(ds) > 1 {
				bad("repeat", e, "a bootstrap server can be tried more than once")
			}
			v := ds[0]
			rep.ok("bootstrap_rounds")
			if !isIndexOf(b.st.facts, v.args[0], l.boot, e.loop.K) {
				bad("order", v, "connects to %s instead of the next bootstrap server", v.args[0])
			}
			if b.st.facts.decide(mkEq(errOf(v), termNil)) != -1 {
				bad("reached", v, "goes on to the next bootstrap server although this one may have been reached")
			}
		}
	})
	loops, boots, apis := 0, 0, 0
	for _, e := range q.evs {
		switch {
		case e.kind == "loop" && hasEv([]*Ev{e}, func(v *Ev) bool { return l.isDial(v) && l.dialsBoot(v) }):
			loops++
			rep.ok("bootstrap_loops")
			if boots > 0 {
				bad("loop", e, "tries the bootstrap servers again")
			}
		case l.isDial(e):
			if !sameOpts(f, e.args[1], l.opts) {
				bad("opts", e, "connects with %s instead of the options of the client", e.args[1])
			}
			if !l.dialsBoot(e) {
				continue
			}
			boots++
			if q.bootLoop == nil || !isIndexOf(f, e.args[0], l.boot, q.bootLoop.loop.K) {
				bad("order", e, "connects to %s instead of the next bootstrap server", e.args[0])
			}
		case l.isApi(e):
			apis++
		}
	}
	if loops > 1 {
		bad("loop", nil, "tries the bootstrap servers more than once")
	}
	if boots > 1 {
		bad("twice", nil, "connects to bootstrap servers more than once")
	}
	if q.err == nil {
		return
	}
	reached := q.boot != nil && f.decide(mkEq(errOf(q.boot), termNil)) == 1
	if q.boot != nil && !reached && f.decide(mkEq(errOf(q.boot), termNil)) == 0 {
		bad("unchecked", q.boot, "whether the bootstrap server was reached is not examined")
		return
	}
	if !reached {
		rep.ok("unreachable_paths")
		if q.errNil != -1 {
			bad("success", nil, "may report success although no bootstrap server was reached")
		}
		if apis > 0 {
			bad("api", q.api, "asks a broker without having reached a bootstrap server")
		}
		empty := f.entailsGE(linOf(mkLen(l.boot)).scale(-1))
		if !empty && (q.bootLoop == nil || !q.bootLoop.complete || q.bootLoop.loop.trip == nil || !f.eq(q.bootLoop.loop.trip, mkLen(l.boot))) {
			bad("giveup", nil, "can give up before all bootstrap servers were tried")
		}
		return
	}
	rep.ok("reached_paths")
	if apis != 1 {
		bad("once", q.boot, "asks %d times after a bootstrap server was reached, not once", apis)
		return
	}
	if q.api.args[0] != q.boot.res.args[0] {
		bad("other", q.api, "asks a broker other than the one reached")
	}
	closed := false
	for _, e := range q.evs {
		if l.isClose(e) && e.args[0] == q.boot.res.args[0] {
			closed = true
		}
		if e == q.api && closed {
			bad("closed", e, "asks a broker after closing the connection")
		}
	}
	switch f.decide(mkEq(errOf(q.api), termNil)) {
	case -1:
		if q.errNil != -1 {
			bad("ignored", q.api, "the error of %s is not returned", q.api.fn.Name())
		}
	case 0:
		bad("unexamined", q.api, "the error of %s is not examined", q.api.fn.Name())
	}
}

// the result of the lookup, for methods that return what the broker answered
func (q *lpath) answer(rep *Report) {
	l, f := q.l, q.f
	if q.err == nil || q.api == nil || errOf(q.api) == nil || f.decide(mkEq(errOf(q.api), termNil)) != 1 {
		return
	}
	if !types.Identical(q.ret.typ, q.api.fn.Signature.Results().At(0).Type()) {
		return
	}
	n := l.fn.Name()
	rep.ok("answers")
	if q.errNil != 1 {
		rep.bad("answer:"+n+":error", q.pos, "%s may fail although the broker answered", n)
	}
	if !sameValue(f, q.ret, q.api.res.args[0]) {
		rep.bad("answer:"+n+":value", q.pos, "%s returns %s instead of the answer of the broker", n, q.ret)
	}
}

func sameValue(f *Facts, a, b *Term) bool {
	if a == b || f.resolve(a) == f.resolve(b) {
		return true
	}
	if a.op == OStruct {
		s := structOf(a.typ)
		for i := 0; i < s.NumFields(); i++ {
			x, y := a.args[i], mkField(b, i, s.Field(i).Type())
			if x != y && f.resolve(x) != f.resolve(y) && !(isInt(x.typ) && f.eq(x, y)) {
				return false
			}
		}
		return true
	}
	return false
}

// sameOpts: the client's options themselves, or all of them by the same slice.
func sameOpts(f *Facts, a, opts *Term) bool { return f.resolve(a) == opts }

func isIndexOf(f *Facts, t, list, i *Term) bool {
	t = f.resolve(t)
	return t.op == OIndex && t.args[0] == list && f.eq(t.args[1], i)
}

// asks: the topics requested are those given, or include the given topic.
func (q *lpath) asks(rep *Report, topics, topic *Term) {
	if q.api == nil || q.api.fn.Name() != "Metadata" || len(q.api.args) < 2 {
		return
	}
	f, n := q.f, q.l.fn.Name()
	pos := q.l.li.p.pos(q.api.pos)
	st := q.api.st
	list := fieldNamed(q.api.args[1], "Topics")
	if list == nil {
		rep.bad("request:"+n+":topics", pos, "%s: the metadata request has no topics", n)
		return
	}
	list = f.resolve(list)
	rep.ok("metadata_requests")
	var cnt, i, el *Term
	et := elemType(list.typ)
	cnt = mkLen(list)
	switch {
	case list.isNil():
	case list.op == OAppLoop && len(list.args) == 4 && f.eq(mkLen(list.args[0]), mkInt(0)):
		i, el = list.args[2], list.args[3]
	default:
		i = freshSym("i", types.Typ[types.Int])
		el = st.load(mkIndexAddr(sliceBase(list), i, types.NewPointer(et)), et)
	}
	switch {
	case topics != nil:
		ok := f.eq(cnt, mkLen(topics))
		if ok && el != nil && f.decide(mkEQ0(linOf(cnt))) != 1 {
			nm := fieldNamed(el, "Name")
			ok = nm != nil && f.resolve(nm).op == OIndex && f.resolve(nm).args[0] == topics && f.eq(f.resolve(nm).args[1], i)
		}
		if !ok {
			rep.bad("request:"+n+":topics", pos, "%s asks for topics %s instead of the ones given", n, list)
		}
	case topic != nil:
		ok := false
		if n, known := f.constOf(cnt); known && n <= 8 {
			for j := int64(0); j < n && !ok; j++ {
				e := mkIndex(list, mkInt(j), et)
				if list.op != OAppend {
					e = st.load(mkIndexAddr(sliceBase(list), mkInt(j), types.NewPointer(et)), et)
				}
				nm := fieldNamed(e, "Name")
				ok = nm != nil && f.resolve(nm) == topic
			}
		}
		if el != nil && !ok {
			nm := fieldNamed(el, "Name")
			ok = nm != nil && f.entailsGE(linOf(cnt).addc(-1)) && (f.resolve(nm) == topic || f.decide(mkEq(nm, topic)) == 1)
		}
		if !ok {
			rep.bad("request:"+n+":topics", pos, "%s asks for topics %s, which does not include the one it needs", n, list)
		}
	}
}

func (l *lookup) param(pred func(types.Type) bool) *Term {
	var r *Term
	for i, q := range l.fn.Params {
		if i > 0 && pred(q.Type()) {
			if r != nil {
				return nil
			}
			r = l.args[i]
		}
	}
	return r
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func checkBootstrap(p *Prog, rep *Report) {
	rep.rule("the only loop that connects walks Client's bootstrap list from its first element, one attempt per server, and goes round only when that attempt failed")
	rep.rule("a lookup without a reached bootstrap server returns a non-nil error and has completed that loop, or the list is empty")
	rep.rule("after reaching one, exactly one request is sent, on that connection, before it is closed; its error is returned, its answer is returned")
	rep.rule("every connection is made with the option list of the client; NewClient stores its arguments; no method changes the client")
	li, err := p.lookupInfo()
	if err != nil {
		rep.bad("lookup", "", "%v", err)
		return
	}
	for _, l := range li.lookups(rep) {
		for _, f := range l.probs {
			rep.bad(f.Key, f.Pos, "%s", f.Msg)
		}
		if !l.connects() {
			rep.bad("bootstrap:"+l.fn.Name()+":none", p.pos(l.fn.Pos()), "%s never connects", l.fn.Name())
			continue
		}
		rep.ok("lookups")
		for _, q := range l.paths(rep) {
			q.classify()
			q.bootstrap(rep)
			q.answer(rep)
			q.asks(rep, l.param(isStrings), nil)
		}
	}
	li.newClient(rep)
	rep.need("lookups", 4)
	rep.need("bootstrap_rounds", 4)
	rep.need("unreachable_paths", 4)
	rep.need("reached_paths", 8)
	rep.need("answers", 1)
}

// newClient: the constructor keeps its arguments.
func (li *lookupInfo) newClient(rep *Report) {
	fn := li.p.fun(kafkaPkg, "NewClient")
	if fn == nil {
		rep.bad("newclient", "", "NewClient not found")
		return
	}
	x := newX(li.p)
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, namedSym(q.Name(), q.Type()))
	}
	outs := x.Run(fn, args, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	rep.undecided(x, "NewClient")
	for _, o := range outs {
		if o.st.facts.dead {
			continue
		}
		pos := li.p.pos(o.pos)
		if o.panic || o.ret == nil || o.st.facts.decide(mkEq(o.ret, termNil)) != -1 {
			rep.bad("newclient:nil", pos, "NewClient may not return a client")
			continue
		}
		rep.ok("newclient_paths")
		st := o.st
		for i, want := range map[int]*Term{li.bootF: args[0], li.optF: args[1]} {
			fv := structOf(li.typ).Field(i)
			got := st.load(mkFieldAddr(o.ret, i, types.NewPointer(fv.Type())), fv.Type())
			if !sameList(&st, got, want) {
				rep.bad("newclient:"+fv.Name(), pos, "NewClient keeps %s instead of its argument %s", got, want)
			}
		}
	}
	rep.need("newclient_paths", 1)
}

// sameList: the list itself or a copy of it.
func sameList(st *State, got, want *Term) bool {
	got = st.facts.resolve(got)
	switch {
	case got == want:
		return true
	case got.op == OAppendS && got.args[1] == want && st.facts.eq(mkLen(got.args[0]), mkInt(0)):
		return true
	case got.op == OMakeSlice || got.op == OSlice:
		if !st.facts.eq(mkLen(got), mkLen(want)) {
			return false
		}
		c := st.regionContents(sliceBase(got))
		return c != nil && c.op == OCopyOf && c.args[0] == want
	}
	return false
}

// ---- C21 ----

// target describes why a dialed node is the one the lookup is for.
func (q *lpath) named(rep *Report, e *Ev) {
	l, f := q.l, q.f
	n, p := l.fn.Name(), l.li.p
	pos := p.pos(e.pos)
	if !sameOpts(f, e.args[1], l.opts) {
		rep.bad("dial:"+n+":opts", pos, "%s connects with %s instead of the options of the client", n, e.args[1])
	}
	if q.api == nil || errOf(q.api) == nil || f.decide(mkEq(errOf(q.api), termNil)) != 1 {
		rep.bad("dial:"+n+":blind", pos, "%s connects to %s although the cluster was not asked or did not answer", n, e.args[0])
		return
	}
	meta := q.api.res.args[0]
	a := f.resolve(e.args[0])
	var host, port *Term
	if a.op == OPure && a.s == "joinhostport" && len(a.args) == 2 {
		host = f.resolve(a.args[0])
		if b := f.resolve(a.args[1]); b.op == OPure && b.s == "itoa" {
			port = b.args[0]
			for port.op == OConv {
				port = port.args[0]
			}
		}
	}
	if host == nil || port == nil {
		rep.bad("dial:"+n+":address", pos, "%s connects to %s, which is not the host and port of a broker joined", n, a)
		return
	}
	E := isFieldOf(host, "Host")
	if E == nil || isFieldOf(port, "Port") != E {
		rep.bad("dial:"+n+":address", pos, "%s connects to host %s, port %s, not those of one broker", n, host, port)
		return
	}
	rep.ok("named_dials")
	rep.sample("%s connects to %s", n, a)
	switch q.api.fn.Name() {
	case "FindCoordinator":
		q.coordinatorRequest(rep)
		if E != meta {
			rep.bad("dial:"+n+":coordinator", pos, "%s connects to %s instead of the coordinator reported", n, E)
		}
		if c := fieldNamed(meta, "ErrorCode"); c == nil || !f.eq(c, mkInt(0)) {
			rep.bad("dial:"+n+":code", pos, "%s connects although the cluster may have reported an error", n)
		}
	case "Metadata":
		bs := fieldNamed(meta, "Brokers")
		id := fieldNamed(E, "NodeId")
		if bs == nil || E.op != OIndex || E.args[0] != bs || id == nil {
			rep.bad("dial:"+n+":broker", pos, "%s connects to %s, which is not a broker of the cluster", n, E)
			return
		}
		ok := false
		for _, t := range q.targets(f, meta) {
			if f.eq(id, t) {
				ok = true
			}
		}
		if !ok {
			rep.bad("dial:"+n+":node", pos, "%s connects to a broker that may not be the one named", n)
		}
	default:
		rep.bad("dial:"+n+":source", pos, "%s connects to what %s answered", n, q.api.fn.Name())
	}
}

func (q *lpath) coordinatorRequest(rep *Report) {
	l, f := q.l, q.f
	n := l.fn.Name()
	pos := l.li.p.pos(q.api.pos)
	group := l.param(isString)
	if len(q.api.args) < 2 || group == nil {
		rep.bad("request:"+n+":group", pos, "%s: no group to ask for", n)
		return
	}
	key, kt := fieldNamed(q.api.args[1], "Key"), fieldNamed(q.api.args[1], "KeyType")
	if key == nil || f.resolve(key) != group {
		rep.bad("request:"+n+":group", pos, "%s asks for the coordinator of %s instead of the group given", n, key)
	}
	want := int64(0) // groups
	if strings.Contains(n, "Transaction") || strings.Contains(n, "Txn") {
		want = 1
	}
	if kt == nil || !f.eq(kt, mkInt(want)) {
		rep.bad("request:"+n+":type", pos, "%s asks for a coordinator of type %s", n, kt)
	}
	rep.ok("coordinator_requests")
}

// targets lists the node ids the lookup is for, under the facts f.
func (q *lpath) targets(f *Facts, meta *Term) []*Term {
	l := q.l
	topic := l.param(isString)
	part := l.param(func(t types.Type) bool { return isInt(t) })
	if topic == nil && part == nil {
		if strings.Contains(l.fn.Name(), "Controller") {
			if c := fieldNamed(meta, "ControllerId"); c != nil {
				return []*Term{c}
			}
		}
		return nil
	}
	var r []*Term
	for _, P := range q.partitions(f, meta) {
		id := fieldNamed(P, "LeaderId")
		ix := fieldNamed(P, "PartitionIndex")
		if id != nil && ix != nil && part != nil && f.eq(ix, part) {
			r = append(r, id)
		}
	}
	return r
}

// topics and partitions of the answer that the path speaks about
func (q *lpath) topicsOf(f *Facts, meta *Term) []*Term {
	ts := fieldNamed(meta, "Topics")
	topic := q.l.param(isString)
	var r []*Term
	for _, t := range indexTerms(f, ts) {
		if nm := fieldNamed(t, "Name"); nm != nil && topic != nil && (f.decide(mkEq(nm, topic)) == 1 || f.resolve(nm) == topic) {
			r = append(r, t)
		}
	}
	return r
}

func (q *lpath) partitions(f *Facts, meta *Term) []*Term {
	var r []*Term
	for _, t := range q.topicsOf(f, meta) {
		r = append(r, indexTerms(f, fieldNamed(t, "Partitions"))...)
	}
	return r
}

// indexTerms finds the elements of list that the facts mention.
func indexTerms(f *Facts, list *Term) []*Term {
	if list == nil {
		return nil
	}
	seen := map[*Term]bool{}
	var r []*Term
	look := func(t *Term) {
		contains(t, func(y *Term) bool {
			if y.op == OIndex && y.args[0] == list && !seen[y] {
				seen[y] = true
				r = append(r, y)
			}
			return false
		})
	}
	for g := f; g != nil; g = g.parent {
		if g.ge != nil {
			look(g.ge.term())
		}
		if g.ne != nil {
			look(g.ne.term())
		}
		if g.b != nil {
			look(g.b)
		}
	}
	return r
}

// absent: the answer does not name the node the lookup is for.
func (q *lpath) absent(f *Facts, evs []*Ev) bool {
	meta := q.api.res.args[0]
	if q.api.fn.Name() == "FindCoordinator" {
		if c := fieldNamed(meta, "ErrorCode"); c != nil && f.entailsNE(linOf(c)) {
			return true
		}
		if c := fieldNamed(meta, "NodeId"); c != nil && f.entailsGE(linOf(c).scale(-1).addc(-1)) {
			return true
		}
		if c := fieldNamed(meta, "Host"); c != nil && f.decide(mkEq(c, mkStr(""))) == 1 {
			return true
		}
		return false
	}
	bs, ts := fieldNamed(meta, "Brokers"), fieldNamed(meta, "Topics")
	if bs == nil {
		return false
	}
	tg := q.targets(f, meta)
	for _, t := range tg {
		if f.entailsGE(linOf(t).scale(-1).addc(-1)) { // no leader
			return true
		}
	}
	topic := q.l.param(isString)
	part := q.l.param(func(t types.Type) bool { return isInt(t) })
	lists := []*Term{bs}
	if topic != nil {
		lists = append(lists, ts)
	}
	for _, t := range q.topicsOf(f, meta) {
		lists = append(lists, fieldNamed(t, "Partitions"))
		if c := fieldNamed(t, "ErrorCode"); c != nil && f.entailsNE(linOf(c)) {
			return true
		}
	}
	for _, P := range q.partitions(f, meta) {
		if ix, c := fieldNamed(P, "PartitionIndex"), fieldNamed(P, "ErrorCode"); ix != nil && c != nil && f.eq(ix, part) && f.entailsNE(linOf(c)) {
			return true
		}
	}
	for _, s := range lists {
		if f.entailsGE(linOf(mkLen(s)).scale(-1)) {
			return true
		}
	}
	// a complete search that found nothing
	for _, e := range evs {
		if e.kind != "loop" || !e.complete || e.loop.trip == nil {
			continue
		}
		for _, s := range lists {
			if !f.eq(e.loop.trip, mkLen(s)) {
				continue
			}
			// forwards or backwards
			for _, ix := range []*Term{e.loop.K, mkSub(mkAddC(mkLen(s), -1), e.loop.K)} {
				all := true
				for _, b := range e.loop.backs {
					g := b.st.facts
					if g.dead {
						continue
					}
					el := mkIndex(s, ix, elemType(s.typ))
					ok := false
					switch {
					case s == bs:
						for _, t := range tg {
							id := fieldNamed(el, "NodeId")
							ok = ok || g.entailsNE(linOf(id).sub(linOf(t)))
						}
					case s == ts:
						ok = g.decide(mkEq(fieldNamed(el, "Name"), topic)) == -1
					default:
						ok = part != nil && g.entailsNE(linOf(fieldNamed(el, "PartitionIndex")).sub(linOf(part)))
					}
					if !ok && !q.absentIn(b, s == ts) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// absentIn: a round of a search over topics that looked through the partitions of one
func (q *lpath) absentIn(b Out, nested bool) bool {
	return nested && q.absent(b.st.facts, b.st.events())
}

func checkLookups(p *Prog, rep *Report) {
	rep.rule("every connection that is not to a bootstrap server goes to JoinHostPort(E.Host, Itoa(E.Port)) of one element E of the answer")
	rep.rule("E is the coordinator reported without error for the group given, or the broker whose NodeId equals ControllerId, or LeaderId of the partition with the index given of the topic with the name given (entailed by the path)")
	rep.rule("at most one such connection per lookup; its result is the result of the lookup; without one the lookup fails, and only when no bootstrap server was reached, the request failed or a complete search refuted every element")
	li, err := p.lookupInfo()
	if err != nil {
		rep.bad("lookup", "", "%v", err)
		return
	}
	for _, l := range li.lookups(rep) {
		n := l.fn.Name()
		rs := l.fn.Signature.Results()
		if rs.Len() != 2 || pointee(rs.At(0).Type()) == nil || !types.Identical(pointee(rs.At(0).Type()), li.brokerT) {
			continue
		}
		rep.ok("lookups")
		found := 0
		for _, q := range l.paths(rep) {
			q.classify()
			f := q.f
			deepEvs(q.evs, func(e *Ev, in *Out) {
				if in != nil && l.isDial(e) && !l.dialsBoot(e) {
					rep.bad("dial:"+n+":loop", p.pos(e.pos), "%s may connect to several brokers of the cluster", n)
				}
			})
			if len(q.dials) > 1 {
				rep.bad("dial:"+n+":many", p.pos(q.dials[1].pos), "%s connects to more than one broker of the cluster", n)
			}
			for _, e := range q.dials {
				q.named(rep, e)
			}
			q.asks(rep, nil, l.param(isString))
			if q.errNil == 0 {
				rep.bad("result:"+n+":unknown", q.pos, "%s: whether it succeeds is not determined by its steps", n)
				continue
			}
			if len(q.dials) > 0 {
				e := q.dials[len(q.dials)-1]
				switch f.decide(mkEq(errOf(e), termNil)) {
				case 1:
					found++
					if q.errNil != 1 || q.ret != e.res.args[0] {
						rep.bad("result:"+n+":lost", q.pos, "%s does not return the connection it made", n)
					}
				case -1:
					if q.errNil != -1 {
						rep.bad("result:"+n+":ignored", q.pos, "%s hides that connecting failed", n)
					}
				default:
					rep.bad("result:"+n+":unchecked", q.pos, "%s does not tell whether connecting succeeded", n)
				}
				continue
			}
			if q.errNil == 1 {
				rep.bad("result:"+n+":empty", q.pos, "%s may succeed without having connected to the broker asked for", n)
				continue
			}
			if q.api == nil || errOf(q.api) == nil || f.decide(mkEq(errOf(q.api), termNil)) != 1 {
				continue // C22
			}
			rep.ok("refusals")
			if q.api.fn.Name() == "FindCoordinator" {
				q.coordinatorRequest(rep)
			}
			if !q.absent(f, q.evs) {
				rep.bad("result:"+n+":refuses", q.pos, "%s may fail although the cluster names the broker", n)
			}
		}
		if found == 0 {
			rep.bad("result:"+n+":never", p.pos(l.fn.Pos()), "%s never returns a connection", n)
		}
	}
	rep.need("lookups", 3)
	rep.need("named_dials", 3)
	rep.need("refusals", 3)
	rep.need("coordinator_requests", 1)
	rep.need("metadata_requests", 2)
	connectsTo(p, rep)
}

// connectsTo: NewBroker hands address and options to Connect.
func connectsTo(p *Prog, rep *Report) {
	rep.rule("NewBroker passes its address and options to Connect unchanged; Connect dials its address")
	b, err := p.brokerInfo()
	if err != nil {
		rep.bad("broker", "", "%v", err)
		return
	}
	r := b.runNewBroker()
	rep.visit(r.x)
	for _, o := range r.outs {
		if o.st.facts.dead {
			continue
		}
		for _, e := range callsOf(o.st.events(), b.connect) {
			rep.ok("connects")
			if o.st.facts.resolve(e.args[0]) != r.addr {
				rep.bad("connect:address", p.pos(e.pos), "NewBroker connects to %s instead of its address", e.args[0])
			}
			if o.st.facts.resolve(e.args[1]) != r.opts {
				rep.bad("connect:opts", p.pos(e.pos), "NewBroker connects with %s instead of its options", e.args[1])
			}
		}
	}
	rep.need("connects", 1)
}

// ---- C20 ----

func (q *lpath) leaks(rep *Report) {
	l := q.l
	n, p := l.fn.Name(), l.li.p
	check := func(evs []*Ev, f *Facts, final bool, outer []*Ev) {
		for i, e := range evs {
			if !l.isDial(e) {
				continue
			}
			b := e.res.args[0]
			rep.ok("connections")
			switch f.decide(mkEq(errOf(e), termNil)) {
			case -1:
				continue
			case 0:
				rep.bad("leak:"+n+":unchecked", p.pos(e.pos), "%s: whether this connection was made is not examined", n)
				continue
			}
			closed := false
			for _, v := range evs[i:] {
				closed = closed || l.isClose(v) && v.args[0] == b
			}
			handed := final && q.ret == b
			switch {
			case handed && closed:
				rep.bad("leak:"+n+":closed", p.pos(e.pos), "%s returns a connection it has closed", n)
			case handed && q.errNil != 1:
				rep.bad("leak:"+n+":error", p.pos(e.pos), "%s returns an open connection together with an error", n)
			case !handed && !closed:
				rep.bad("leak:"+n+":open", p.pos(e.pos), "%s neither closes nor returns the connection made here", n)
			}
		}
	}
	check(q.evs, q.f, true, nil)
	deepEvs(q.evs, func(e *Ev, in *Out) {
		if e.kind == "loop" {
			for _, b := range e.loop.backs {
				if !b.st.facts.dead {
					check(b.st.events(), b.st.facts, false, q.evs)
				}
			}
		}
	})
}

func checkLeaks(p *Prog, rep *Report) {
	rep.rule("on every path of every exported lookup, a broker NewBroker returned without error is closed, or returned with a nil error and not closed")
	rep.rule("on every path of NewBroker a connection made by Connect is closed, or kept by the broker returned and not closed; on every path of Connect a socket is closed or kept by the connection returned")
	rep.rule("Broker.Close closes the broker's connection; no other code of the library makes connections")
	li, err := p.lookupInfo()
	if err != nil {
		rep.bad("lookup", "", "%v", err)
		return
	}
	seen := map[*ssa.Function]bool{}
	for _, l := range li.lookups(rep) {
		rep.ok("lookups")
		for fn := range l.x.visited {
			seen[fn] = true
		}
		for _, q := range l.paths(rep) {
			q.leaks(rep)
		}
	}
	b, err := p.brokerInfo()
	if err != nil {
		rep.bad("broker", "", "%v", err)
		return
	}
	r := b.runNewBroker()
	rep.visit(r.x)
	rep.undecided(r.x, "NewBroker")
	for fn := range r.x.visited {
		seen[fn] = true
	}
	connClose := p.method(kafkaPkg, "Conn", "Close")
	for _, o := range r.outs {
		f := o.st.facts
		if f.dead || o.panic || o.stop || o.ret == nil || o.ret.op != OTuple {
			continue
		}
		evs := o.st.events()
		er := f.decide(mkEq(f.resolve(o.ret.args[1]), termNil))
		rep.ok("newbroker_paths")
		main := map[*Ev]bool{}
		for _, e := range evs {
			main[e] = true
		}
		for _, e := range callsOf(evs, b.connect) {
			pos := p.pos(e.pos)
			if !main[e] {
				rep.bad("leak:newbroker:loop", pos, "NewBroker connects in a loop")
				continue
			}
			switch f.decide(mkEq(errOf(e), termNil)) {
			case -1:
				continue
			case 0:
				rep.bad("leak:newbroker:unchecked", pos, "NewBroker does not examine whether connecting succeeded")
				continue
			}
			closed := false
			for _, v := range callsOf(evs, connClose) {
				closed = closed || v.args[0] == e.res.args[0] && main[v]
			}
			st := o.st
			handed := er == 1 && o.ret.args[0] != termNil && b.field(&st, f.resolve(o.ret.args[0]), b.connF) == e.res.args[0]
			switch {
			case handed && closed:
				rep.bad("leak:newbroker:closed", pos, "NewBroker returns a broker whose connection it has closed")
			case !handed && !closed:
				rep.bad("leak:newbroker:open", p.pos(o.pos), "NewBroker neither closes nor returns the connection made at %s", pos)
			case er != 1 && !closed:
				rep.bad("leak:newbroker:error", pos, "NewBroker fails and leaves the connection open")
			}
		}
	}
	rep.need("newbroker_paths", 5)
	brokerClose(p, rep, b, connClose)
	ci, err := p.connInfo()
	if err != nil {
		rep.bad("conn", "", "%v", err)
		return
	}
	d := ci.runDial(rep)
	for fn := range d.x.visited {
		seen[fn] = true
	}
	d.leaks(rep)
	// whoever else opens connections
	for _, fn := range p.allFuncs() {
		for _, c := range dialSites(p, li, fn) {
			rep.ok("dial_sites")
			if !seen[fn] {
				rep.bad("leak:site:"+fn.String(), p.pos(c.Pos()), "%s makes a connection outside the paths examined", fn)
			}
		}
	}
	rep.need("dial_sites", 4)
	rep.need("connections", 6)
	rep.need("lookups", 4)
}

func brokerClose(p *Prog, rep *Report, b *brokerInfo, connClose *ssa.Function) {
	fn := p.method(kafkaPkg, "Broker", "Close")
	if fn == nil || connClose == nil {
		rep.bad("broker:close", "", "Broker.Close or Conn.Close not found")
		return
	}
	x := newX(p)
	x.atomic = func(g *ssa.Function) bool { return g == connClose }
	br := namedSym("b", fn.Params[0].Type())
	br.nonnil = true
	st := State{facts: rootFacts}
	conn := b.field(&st, br, b.connF)
	outs := x.Run(fn, []*Term{br}, nil, st, nil, 0)
	rep.visit(x)
	rep.undecided(x, "Broker.Close")
	for _, o := range outs {
		if o.st.facts.dead {
			continue
		}
		n := 0
		for _, e := range callsOf(o.st.events(), connClose) {
			if e.args[0] == conn {
				n++
			}
		}
		rep.ok("broker_close_paths")
		if n == 0 && o.st.facts.decide(mkEq(conn, termNil)) != 1 {
			rep.bad("broker:close", p.pos(fn.Pos()), "Broker.Close may return without closing its connection")
		}
	}
	rep.need("broker_close_paths", 1)
}

// dialSites lists the calls in fn that make connections.
func dialSites(p *Prog, li *lookupInfo, fn *ssa.Function) []ssa.CallInstruction {
	connect := p.fun(kafkaPkg, "Connect")
	var r []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == li.newBroker || g == connect && g != nil || isNetDial(c.Common()) {
				r = append(r, c)
			}
		}
	}
	return r
}

// isNetDial: a call out of the library that yields a network connection.
func isNetDial(c *ssa.CallCommon) bool {
	var pkg *types.Package
	var sig *types.Signature
	if c.IsInvoke() {
		pkg, sig = c.Method.Pkg(), c.Method.Type().(*types.Signature)
	} else if g := c.StaticCallee(); g != nil && g.Object() != nil {
		pkg, sig = g.Object().Pkg(), g.Signature
	} else if g := c.StaticCallee(); g == nil {
		sig = c.Signature()
	}
	if sig == nil || pkg != nil && strings.HasPrefix(pkg.Path(), modPath) {
		return false
	}
	for i := 0; i < sig.Results().Len(); i++ {
		switch sig.Results().At(i).Type().String() {
		case "net.Conn", "*crypto/tls.Conn", "*net.TCPConn":
			return true
		}
	}
	return false
}

// ---- C25 ----

func checkContext(p *Prog, rep *Report) {
	rep.rule("in every exported operation with a context parameter, each step that waits for the network (connecting, a request) receives that context")
	li, err := p.lookupInfo()
	if err != nil {
		rep.bad("lookup", "", "%v", err)
		return
	}
	for _, l := range li.lookups(rep) {
		var ctx *Term
		for i, q := range l.fn.Params {
			if q.Type().String() == "context.Context" {
				ctx = l.args[i]
			}
		}
		if ctx == nil {
			continue
		}
		rep.ok("operations")
		for _, o := range l.outs {
			if o.st.facts.dead {
				continue
			}
			deepEvs(o.st.events(), func(e *Ev, in *Out) {
				if !l.isDial(e) && !l.isApi(e) {
					return
				}
				rep.ok("waits")
				for _, a := range e.args {
					if containsTerm(a, ctx) {
						return
					}
				}
				rep.bad("ctx:"+l.fn.Name()+":"+e.fn.Name(), p.pos(e.pos), "%s waits in %s, which does not know the context: cancelling it has no effect", l.fn.Name(), e.fn.Name())
			})
		}
	}
	rep.need("operations", 4)
}

func init() {
	checks["C20"] = func(p *Prog, rep *Report, verif string) { checkLeaks(p, rep) }
	checks["C21"] = func(p *Prog, rep *Report, verif string) { checkLookups(p, rep) }
	checks["C22"] = func(p *Prog, rep *Report, verif string) { checkBootstrap(p, rep) }
	checks["C25"] = func(p *Prog, rep *Report, verif string) { checkContext(p, rep) }
}
