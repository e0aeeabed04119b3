package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: RecordBatch.Encode emits the record batch format (magic 2) and
// RecordBatch.Size announces exactly the bytes it emits.
//
// Header.Range(f) is modelled as a loop that applies f to hdrcount(h) pairs
// (hkey(h,k), hval(h,k)); every call is taken to visit the same pairs.

func rangeModel(p *Prog, rep *Report) func(x *X, st State, fr *Frame, recv *Term, m *types.Func, args []*Term, pos token.Pos) ([]CallOut, bool) {
	return func(x *X, st State, fr *Frame, recv *Term, m *types.Func, args []*Term, pos token.Pos) ([]CallOut, bool) {
		if m.Name() != "Range" || m.Pkg() == nil || m.Pkg().Path() != modPath || len(args) != 1 {
			return nil, false
		}
		if x.quiet == 0 && st.facts.decide(mkEq(recv, termNil)) != -1 {
			rep.bad("nil-header:"+fr.fn.String(), p.pos(pos), "%s ranges over the headers of a record that may have none (nil)", fr.fn)
		}
		str := types.Typ[types.String]
		trip := mk(OPure, types.Typ[types.Int], "hdrcount", 0, recv)
		lb := &loopBody{fn: fr.fn, pos: pos, trip: trip}
		lb.run = func(_ []*Term, st State) []Out {
			out := []Out{{kind: OutExit, st: State{facts: st.facts.assume(mkGE0(linOf(lb.k).sub(linOf(trip)))), heap: st.heap, trace: st.trace}}}
			in := st
			in.facts = st.facts.assume(mkGE0(linOf(trip).sub(linOf(lb.k)).addc(-1)))
			a := []*Term{mk(OPure, str, "hkey", 0, recv, lb.k), mk(OPure, str, "hval", 0, recv, lb.k)}
			for _, o := range x.callTerm(fr, in, args[0], a, pos) {
				k := OutBack
				if o.panic {
					k = OutPanic
				} else if o.stop {
					k = OutStop
				}
				out = append(out, Out{kind: k, st: o.st, pos: o.pos})
			}
			return out
		}
		lb.next = func(Out, int) *Term { return nil }
		var res []CallOut
		for _, o := range x.summarise(lb, st) {
			switch o.kind {
			case OutExit:
				res = append(res, CallOut{st: o.st, ret: unit(), pos: pos})
			case OutPanic:
				res = append(res, CallOut{st: o.st, panic: true, pos: o.pos})
			case OutStop:
				res = append(res, CallOut{st: o.st, stop: true, pos: o.pos})
			}
		}
		return res, true
	}
}

// rbItem is a primitive emitted by the encoder, or a loop of them.
type rbItem struct {
	kind string
	v    *Term
	pos  string
	ev   *Ev
	loop *LoopInfo
	full bool
	body [][]rbItem // one per back path
}

func (c *rbCheck) items(evs []*Ev) []rbItem {
	var r []rbItem
	for _, ev := range evs {
		switch ev.kind {
		case "call":
			k := encPrim(ev.fn)
			if k == "" {
				continue
			}
			if ev.args[0] != c.enc {
				c.rep.bad("encoder", c.p.pos(ev.pos), "%s on another encoder", ev.fn.Name())
			}
			r = append(r, rbItem{kind: k, v: ev.args[1], pos: c.p.pos(ev.pos), ev: ev})
		case "write":
			c.rep.bad("raw-write", c.p.pos(ev.pos), "bytes are written outside the encoder's primitives")
		case "loop":
			it := rbItem{kind: "loop", loop: ev.loop, pos: c.p.pos(ev.pos), ev: ev, full: ev.complete}
			n := 0
			for _, b := range ev.loop.backs {
				bi := c.items(b.st.events())
				n += len(bi)
				it.body = append(it.body, bi)
			}
			if n > 0 {
				r = append(r, it)
			}
		}
	}
	return r
}

type rbCheck struct {
	p    *Prog
	rep  *Report
	recv *Term
	enc  *Term
	fn   *ssa.Function

	sizes  *Report // where the comparison of sizes reports
	shapes []rbShape
}

// rbShape: the bytes of a batch on one path: head + sum of bytes over the records.
type rbShape struct {
	nilHdr      int // 1: no header, -1: header, 0: either
	head, bytes *Term
	K           *Term
}

// plain drops integer conversions that cannot matter below 2^31 and sums of lengths.
func plain(t *Term) *Term {
	t = stripConv(t)
	switch t.op {
	case OLin:
		r := Lin{c: t.n}
		for _, m := range t.mono {
			r = r.add(linOf(plain(m.atom)).scale(m.coef))
		}
		return r.term()
	case OBin, OPure:
		nc := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			nc[i] = plain(a)
			ch = ch || nc[i] != a
		}
		if ch {
			return rebuild(t, nc)
		}
	}
	return t
}

func narrowed(t *Term) bool {
	for t.op == OConv && isInt(t.typ) && len(t.args) == 1 {
		if isInt(t.args[0].typ) && intWidth(t.typ) < intWidth(t.args[0].typ) {
			return true
		}
		t = t.args[0]
	}
	return false
}

func (c *rbCheck) field(t *Term, names ...string) *Term {
	for _, n := range names {
		s := structOf(t.typ)
		if s == nil {
			return nil
		}
		i := fieldIndex(t.typ, func(v *types.Var) bool { return v.Name() == n })
		if i < 0 {
			return nil
		}
		t = mkField(t, i, s.Field(i).Type())
	}
	return t
}

// bytesOf: number of bytes the items occupy.
func (c *rbCheck) bytesOf(items []rbItem) (*Term, error) {
	total := mkInt(0)
	for _, it := range items {
		if it.kind != "loop" {
			total = mkAdd(total, kindSize(it.kind, it.v, it.ev.st.facts, &it.ev.st))
			continue
		}
		if !it.full || it.loop.trip == nil || len(it.body) != 1 {
			return nil, fmt.Errorf("the loop at %s is not one of a known number of equal rounds", it.pos)
		}
		f, err := c.bytesOf(it.body[0])
		if err != nil {
			return nil, err
		}
		total = mkAdd(total, mkSum(it.loop.trip, it.loop.K, f))
	}
	return total, nil
}

func (c *rbCheck) run(version int64) {
	p, rep := c.p, c.rep
	x := newX(p)
	x.atomic = func(fn *ssa.Function) bool { return encPrim(fn) != "" }
	x.onInvoke = rangeModel(p, rep)
	bt := c.fn.Params[0].Type()
	c.recv = namedSym("r", bt)
	c.enc = namedSym("e", c.fn.Params[1].Type())
	c.enc.nonnil = true
	recv := c.recv
	st := State{facts: rootFacts}
	if _, ok := bt.Underlying().(*types.Pointer); ok {
		recv = mkDeref(c.recv, pointee(bt))
		c.recv.nonnil = true
	}
	recs := c.field(recv, "Records")
	if recs == nil {
		rep.bad("anchor", "", "RecordBatch has no field Records")
		return
	}
	if e, err := p.encoderInfo(); err == nil {
		st.facts = st.facts.assumeRaw(mkEq(e.err(&st, c.enc), termNil))
	}
	outs := x.Run(c.fn, []*Term{c.recv, c.enc, mkInt(version)}, nil, st, nil, 0)
	rep.visit(x)
	rep.undecided(x, "encoding record batches")
	if len(outs) == 0 {
		rep.bad("no-path", p.pos(c.fn.Pos()), "encoding never returns")
	}
	c.shapes = nil
	for _, o := range outs {
		if o.panic || o.stop {
			rep.bad("panic", p.pos(o.pos), "encoding can panic or block")
			continue
		}
		items := c.items(o.st.events())
		c.shape(items, o, recs)
		head := []struct {
			kind, field string
		}{{"Int64", "BaseOffset"}, {"Int32", "BatchLength"}, {"Int32", "PartitionLeaderEpoch"}, {"Int8", "=2"}, {"Int32", "CRC"}, {"Int16", "Attributes"}, {"Int32", "LastOffsetDelta"}, {"Int64", "FirstTimestamp"}, {"Int64", "MaxTimestamp"}, {"Int64", "ProducerId"}, {"Int16", "ProducerEpoch"}, {"Int32", "BaseSequence"}}
		bad := false
		for i, h := range head {
			if i >= len(items) {
				rep.bad("head:"+h.field, p.pos(c.fn.Pos()), "only %d of %d batch header fields are encoded", len(items), len(head)+1)
				bad = true
				break
			}
			it := items[i]
			want := mkInt(2)
			if !strings.HasPrefix(h.field, "=") {
				want = c.field(recv, h.field)
			}
			if it.kind != h.kind || want == nil || plain(it.v) != want || narrowed(it.v) {
				rep.bad("head:"+h.field, it.pos, "batch header position %d: %s %s is encoded, the format has %s %s", i, it.kind, it.v, h.kind, h.field)
				bad = true
				break
			}
			rep.ok("batch header fields")
		}
		if bad {
			continue
		}
		rest := items[len(head):]
		if len(rest) == 0 || (rest[0].kind != "ArrayLength" && rest[0].kind != "Int32") || plain(rest[0].v) != mkLen(recs) {
			rep.bad("count", p.pos(c.fn.Pos()), "the number of records does not follow the batch header")
			continue
		}
		rest = rest[1:]
		if n, ok := o.st.facts.constOf(mkLen(recs)); len(rest) == 0 && ok && n == 0 {
			continue
		}
		if len(rest) != 1 || rest[0].kind != "loop" {
			rep.bad("records", p.pos(c.fn.Pos()), "the records are not encoded by one pass over Records after their count")
			continue
		}
		lp := rest[0]
		if !lp.full || lp.loop.trip == nil || plain(lp.loop.trip) != mkLen(recs) {
			rep.bad("records", lp.pos, "the loop over the records makes %v rounds, not one for each of Records", lp.loop.trip)
			continue
		}
		K := lp.loop.K
		rec := mkIndex(recs, K, elemType(recs.typ))
		hdr := c.field(rec, "Header")
		for bi, body := range lp.body {
			f := lp.loop.backs[bi].st.facts
			if c.record(body, f, recv, rec, hdr, f.decide(mkEq(hdr, termNil)), lp.pos) {
				rep.ok("record paths")
			}
		}
	}
	// announced size
	sz := p.method(modPath, "RecordBatch", "Size")
	if sz == nil {
		rep.bad("anchor:Size", "", "RecordBatch has no Size")
		return
	}
	rep = c.sizes
	if len(c.shapes) == 0 {
		rep.bad("size:none", p.pos(c.fn.Pos()), "the number of bytes encoded for a batch cannot be derived")
		return
	}
	y := newX(p)
	y.onInvoke = rangeModel(p, rep)
	r2 := c.recv
	if _, ok := sz.Params[0].Type().Underlying().(*types.Pointer); ok != (r2 != recv) {
		r2 = namedSym("r", sz.Params[0].Type())
	}
	for _, o := range y.Run(sz, []*Term{r2, mkInt(version)}, nil, State{facts: rootFacts}, nil, 0) {
		if o.panic || o.stop {
			rep.bad("size-panic", p.pos(o.pos), "computing the size can panic or block")
			continue
		}
		for _, b := range c.shapes {
			want := canonSize(mkAdd(b.head, mkSum(mkLen(recs), b.K, b.bytes)))
			if n, ok := o.st.facts.constOf(mkLen(recs)); ok && n == 0 {
				want = canonSize(b.head)
			}
			got := canonSize(c.pick(o.ret, recs, b.nilHdr))
			if o.st.facts.eq(want, got) || want == got {
				rep.ok("sizes compared")
				continue
			}
			what := "records with headers"
			if b.nilHdr == 1 {
				what = "records without headers"
			}
			rep.bad("size:"+what, p.pos(sz.Pos()), "the size announced for a batch of %s is not the number of bytes encoded: %s versus %s", what, trunc(got.String(), 300), trunc(want.String(), 300))
		}
	}
	rep.visit(y)
	rep.undecided(y, "size of record batches")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// pick chooses the branches a size takes when the records have (-1) or have no (1) headers.
func (c *rbCheck) pick(t *Term, recs *Term, nilHdr int) *Term {
	var walk func(t *Term, f *Facts) *Term
	walk = func(t *Term, f *Facts) *Term {
		if t.op == OCase {
			switch f.decide(t.args[0]) {
			case 1:
				return walk(t.args[1], f)
			case -1:
				return walk(t.args[2], f)
			}
		}
		ch := t.children()
		if len(ch) == 0 {
			return t
		}
		g := f
		if t.op == OSum {
			h := c.field(mkIndex(recs, t.args[1], elemType(recs.typ)), "Header")
			switch nilHdr {
			case 1:
				g = f.assume(mkEq(h, termNil))
			case -1:
				g = f.assume(mkNot(mkEq(h, termNil)))
			}
		}
		nc := make([]*Term, len(ch))
		diff := false
		for i, a := range ch {
			nc[i] = walk(a, g)
			diff = diff || nc[i] != a
		}
		if !diff {
			return t
		}
		return rebuild(t, nc)
	}
	return walk(t, rootFacts)
}

// record checks what one round of the record loop emits.
// shape: the bytes of one path, those around the records and those of a record.
func (c *rbCheck) shape(items []rbItem, o CallOut, recs *Term) {
	c.sizes.ok("encoding paths sized")
	head := mkInt(0)
	var lp *rbItem
	for i := range items {
		it := &items[i]
		if it.kind == "loop" && it.full && it.loop.trip != nil && plain(it.loop.trip) == mkLen(recs) && lp == nil {
			lp = it
			continue
		}
		n, err := c.bytesOf(items[i : i+1])
		if err != nil {
			c.sizes.bad("size:shape", it.pos, "the number of bytes encoded cannot be derived: %v", err)
			return
		}
		head = mkAdd(head, n)
	}
	if lp == nil {
		if n, ok := o.st.facts.constOf(mkLen(recs)); !ok || n != 0 {
			c.sizes.bad("size:shape", c.p.pos(o.pos), "the number of bytes encoded cannot be derived: the records are not encoded by one pass")
		}
		return
	}
	K := lp.loop.K
	hdr := c.field(mkIndex(recs, K, elemType(recs.typ)), "Header")
	for bi, body := range lp.body {
		n, err := c.bytesOf(body)
		if err != nil {
			c.sizes.bad("size:shape", lp.pos, "the number of bytes encoded cannot be derived: %v", err)
			continue
		}
		c.shapes = append(c.shapes, rbShape{nilHdr: lp.loop.backs[bi].st.facts.decide(mkEq(hdr, termNil)), head: head, bytes: n, K: K})
	}
}

func (c *rbCheck) record(items []rbItem, f *Facts, recv, rec, hdr *Term, nilHdr int, pos string) bool {
	p, rep := c.p, c.rep
	_ = p
	who := "a record with headers"
	if nilHdr == 1 {
		who = "a record without headers"
	}
	at := func(i int) string {
		if i < len(items) {
			return items[i].pos
		}
		return pos
	}
	show := func(i int) string {
		if i < len(items) {
			if items[i].kind == "loop" {
				return "a loop"
			}
			return items[i].kind + " " + trunc(items[i].v.String(), 120)
		}
		return "nothing"
	}
	ok := true
	expect := func(i int, kind string, match func(v *Term) bool, what string) {
		if i >= len(items) || items[i].kind != kind || narrowed(items[i].v) || !match(plain(items[i].v)) {
			rep.bad("record:"+what, at(i), "%s, position %d: %s is encoded, the format has %s (%s)", who, i, show(i), kind, what)
			ok = false
			return
		}
		rep.ok("record fields")
	}
	is := func(w *Term) func(*Term) bool {
		return func(v *Term) bool { return v == w || f.eq(v, w) }
	}
	ts := c.field(rec, "Timestamp")
	i64 := types.Typ[types.Int64]
	unix := mk(OPure, i64, "time.Unix", 0, ts)
	nano := mk(OPure, types.Typ[types.Int], "time.Nanosecond", 0, ts)
	milli := mk(OPure, i64, "time.UnixMilli", 0, ts)
	first := c.field(recv, "FirstTimestamp")
	expect(1, "Int8", is(mkInt(0)), "attributes")
	expect(2, "VarInt", func(v *Term) bool {
		t := mkAdd(v, first)
		if t == milli {
			return true
		}
		q := linOf(t).sub(linOf(unix).scale(1000)).term()
		return q.op == OBin && q.s == "/" && plain(q.args[0]) == nano && q.args[1] == mkInt(1000000)
	}, "timestamp delta in milliseconds")
	expect(3, "VarInt", is(mkSub(c.field(rec, "Offset"), c.field(recv, "BaseOffset"))), "offset delta")
	expect(4, "VarBytes", is(c.field(rec, "Key")), "key")
	expect(5, "VarBytes", is(c.field(rec, "Value")), "value")
	n := mk(OPure, types.Typ[types.Int], "hdrcount", 0, hdr)
	last := 7
	if nilHdr == 1 {
		expect(6, "VarInt", is(mkInt(0)), "number of headers")
	} else {
		expect(6, "VarInt", is(n), "number of headers")
		none, _ := f.constOf(n)
		if _, known := f.constOf(n); known && none == 0 && len(items) == 7 {
			// no headers on this path
		} else if len(items) < 8 || items[7].kind != "loop" || !items[7].full || items[7].loop.trip == nil || plain(items[7].loop.trip) != n {
			rep.bad("record:headers", at(7), "%s: the headers do not follow their number: %s", who, show(7))
			ok = false
		} else {
			last = 8
			h := items[7]
			for _, b := range h.body {
				k := mk(OPure, types.Typ[types.String], "hkey", 0, hdr, h.loop.K)
				v := mk(OPure, types.Typ[types.String], "hval", 0, hdr, h.loop.K)
				if len(b) != 2 || !strKind(b[0].kind) || !strKind(b[1].kind) || b[0].v != k && !bytesOfStr(b[0].v, k) || b[1].v != v && !bytesOfStr(b[1].v, v) {
					rep.bad("record:header", h.pos, "%s: a header is not encoded as its key and its value", who)
					ok = false
				} else {
					rep.ok("header paths")
				}
			}
		}
	}
	if len(items) > last {
		rep.bad("record:more", at(last), "%s: %s follows the last field of the format", who, show(last))
		ok = false
	}
	if !ok {
		return false
	}
	body, err := c.bytesOf(items[1:])
	if err != nil {
		rep.bad("record:length", at(0), "%s: %v", who, err)
		return false
	}
	if items[0].kind != "VarInt" {
		rep.bad("record:length", at(0), "%s starts with %s, not its length", who, show(0))
		return false
	}
	got, want := canonSize(items[0].v), canonSize(body)
	if got != want && !f.eq(got, want) {
		rep.bad("record:length", at(0), "%s announces the length %s but occupies %s", who, trunc(got.String(), 300), trunc(want.String(), 300))
		return false
	}
	rep.ok("record lengths")
	return true
}

func strKind(k string) bool { return k == "VarString" || k == "VarBytes" }

func bytesOfStr(v, s *Term) bool { return v.op == OConv && v.s == "bytes" && v.args[0] == s }

// checkRecordBatchSizes is the part of C01 about record batches.
func checkRecordBatchSizes(p *Prog, rep *Report) {
	rep.rule("RecordBatch.Size = sum of the bytes of everything RecordBatch.Encode emits, for records with and without headers")
	c := &rbCheck{p: p, rep: newReport(""), sizes: rep, fn: p.method(modPath, "RecordBatch", "Encode")}
	if c.fn == nil {
		rep.bad("anchor:Encode", "", "RecordBatch has no Encode")
		return
	}
	c.run(0)
	for _, f := range c.rep.findings {
		if strings.HasPrefix(f.Key, "undecided:") {
			rep.findings = append(rep.findings, f)
		}
	}
	for f := range c.rep.fns {
		rep.fns[f] = true
	}
	rep.need("sizes compared", 2)
}

func checkRecordBatch(p *Prog, rep *Report) {
	rep.rule("RecordBatch.Encode emits: Int64 BaseOffset, Int32 BatchLength, Int32 PartitionLeaderEpoch, Int8 2, Int32 CRC, Int16 Attributes, Int32 LastOffsetDelta, Int64 FirstTimestamp, Int64 MaxTimestamp, Int64 ProducerId, Int16 ProducerEpoch, Int32 BaseSequence, the record count, one round per record")
	rep.rule("every record: VarInt length = bytes that follow, Int8 0, VarInt timestamp(ms) - FirstTimestamp, VarInt Offset - BaseOffset, VarBytes key, VarBytes value, VarInt number of headers, per header VarString key, VarString value; a nil Header counts 0 headers and is never called")
	rep.rule("RecordBatch.Size = sum of the bytes of everything emitted, for records with and without headers")
	c := &rbCheck{p: p, rep: rep, sizes: rep, fn: p.method(modPath, "RecordBatch", "Encode")}
	if c.fn == nil {
		rep.bad("anchor:Encode", "", "RecordBatch has no Encode")
		return
	}
	for v := int64(0); v <= 8; v++ {
		c.run(v)
		rep.ok("versions")
	}
	c.mapRange()
	rep.sample("%s for versions 0..8, records with and without headers", c.fn)
	rep.assume = append(rep.assume, "Header.Range visits the same pairs every time it is called on an unchanged header", "the bytes of one record stay below 2^31")
	rep.need("batch header fields", 12)
	rep.need("record paths", 2)
	rep.need("sizes compared", 2)
}

// mapRange: MapHeader.Range passes every entry of the map to its callback once.
func (c *rbCheck) mapRange() {
	p, rep := c.p, c.rep
	fn := p.method(modPath, "MapHeader", "Range")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	x := newX(p)
	m := namedSym("m", fn.Params[0].Type())
	cb := namedSym("fn", fn.Params[1].Type())
	cb.nonnil = true
	calls := func(evs []*Ev) (r []*Ev) {
		for _, e := range evs {
			if e.kind == "call" && e.dyn == cb {
				r = append(r, e)
			}
		}
		return
	}
	bad := func(pos token.Pos, format string, args ...any) {
		rep.bad("map-header:"+format, p.pos(pos), format, args...)
	}
	outs := x.Run(fn, []*Term{m, cb}, nil, State{facts: rootFacts}, nil, 0)
	rep.visit(x)
	rep.undecided(x, "MapHeader.Range")
	for _, o := range outs {
		if o.panic || o.stop {
			bad(fn.Pos(), "MapHeader.Range can panic or block")
			continue
		}
		seen := 0
		evs := o.st.events()
		for i, e := range evs {
			if e.kind == "call" && e.dyn == cb {
				seen++
			}
			if e.kind != "loop" {
				continue
			}
			var next *Ev // the entry the loop is left at
			for _, l := range evs[i+1:] {
				if l.kind == "next" && l.args[0] == m {
					next = l
					break
				}
			}
			direct := false
			for _, b := range e.loop.backs {
				seen += len(calls(b.st.events()))
				for _, n := range b.st.events() {
					direct = direct || n.kind == "next" && n.args[0] == m && len(calls(b.st.events())) > 0
				}
			}
			if !direct {
				continue
			}
			rep.ok("map header loops")
			if next != nil && o.st.facts.decide(next.res.args[0]) != -1 {
				bad(e.pos, "MapHeader.Range can stop before the last entry")
			}
			for _, b := range e.loop.backs {
				var nx []*Ev
				for _, n := range b.st.events() {
					if n.kind == "next" && n.args[0] == m {
						nx = append(nx, n)
					}
				}
				cs := calls(b.st.events())
				if len(nx) != 1 || len(cs) != 1 || cs[0].args[0] != nx[0].res.args[1] || cs[0].args[1] != nx[0].res.args[2] && !mapValueOf(b.st.events(), m, cs[0]) {
					bad(e.pos, "MapHeader.Range does not pass every entry to its callback exactly once")
				}
			}
		}
		if seen == 0 && o.st.facts.decide(mkEq(m, termNil)) != 1 {
			if n, ok := o.st.facts.constOf(mkLen(m)); !ok || n != 0 {
				bad(fn.Pos(), "MapHeader.Range does not call its callback")
			}
		}
	}
}

// mapValueOf: the second argument is m[first argument].
func mapValueOf(evs []*Ev, m *Term, call *Ev) bool {
	for _, e := range evs {
		if e.kind == "mapget" && e.args[0] == m && e.args[1] == call.args[0] {
			r := e.res
			if r != nil && r.op == OTuple {
				r = r.args[0]
			}
			if r == call.args[1] {
				return true
			}
		}
	}
	return false
}

func init() {
	checks["C24"] = func(p *Prog, rep *Report, verif string) { checkRecordBatch(p, rep) }
}
