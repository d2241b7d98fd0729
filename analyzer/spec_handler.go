package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what is read from the connection ----

func readOK(e *Event) B {
	return errNil(e.res.alts[0].l.fields[1])
}

// stream is what the reads of one iteration delivered, in order.
func (hr *handlerRun) stream(g B) *Seq {
	var items []Item
	for _, e := range hr.reads {
		n := sliceLen(prune(e.args[0], e.g))
		for _, k := range n.alts {
			x := E.And(e.g, k.g)
			if E.And(g, x) == F {
				continue
			}
			items = append(items, Item{g: E.Restrict(x, g), k: ISub, src: newSrc("read@"+e.key, u8t), off: E.konst(0), n: k.l.lin})
		}
	}
	return mkSeq(items)
}

func le16(a, b *Val) *Val { return leInt([]*Val{a, b}) }

// framing gives version, header length and total length announced by the
// first bytes of a stream.
func framing(q *Seq, g B) (ver, hl, total *Val) {
	at := func(i int64) *Val { return seqIndex(q, E.konst(i), g, u8t) }
	fdl := le16(at(5), at(6))
	hl = at(3)
	empty := eqConst(fdl, 0)
	return at(0), hl, mergeVal(empty, hl, intAdd(hl, intAdd(fdl, vConst(2), 1), 1))
}

func (hr *handlerRun) ours(e *Event) B {
	if e.recv == nil || e.recv.isBool {
		return F
	}
	g := F
	for _, v := range hr.conn {
		if v != nil && !v.isBool && len(v.alts) > 0 && eqUnder(e.g, e.recv, v) {
			g = T
		}
	}
	return g
}

func checkFraming(r *Report) {
	r.sub("framing", "connection handler", func() *Analysis {
		hr := runHandler(r)
		where := r.w.posStr(hr.fn.Pos())
		all := F // some packet is decoded
		ok := T
		for _, e := range hr.reads {
			ok = E.And(ok, E.Imp(e.g, readOK(e)))
			r.add("data is read only by the packet loop, from its own connection", hr.pos(e), len(e.loops) > 0 && e.loops[len(e.loops)-1] == hr.loop && hr.ours(e) == T, hr.pos(e), "bytes are taken from the connection outside of the packet loop, or from elsewhere")
		}
		for _, d := range hr.decs {
			g := d.ev.g
			all = E.Or(all, g)
			q := seqOf(d.ev.st, d.ev.args[1], g)
			c := hr.pos(d.ev)
			if q == nil {
				r.add("the decoder gets exactly the bytes of one packet", c, false, c, "the bytes given to the decoder are unknown")
				continue
			}
			ver, hl, total := framing(q, g)
			r.add("protocol version 1 only", c, never(g, E.Not(eqConst(ver, 1))), c, "a packet is decoded although the stream does not start with version 1")
			r.add("header length of at least the fixed part", c, never(g, E.Not(cmpGE(hl, vConst(11), T))), c, "a packet is decoded although its header length is smaller than 11")
			r.add("header length + data length + checksum", c, E.feasible(g) && eqUnder(g, seqLen(q), total), c, "the decoder gets "+valStr(seqLen(q))+" bytes")
			r.add("the decoder gets exactly the bytes that were read, in order", c, seqEqUnder(g, q, hr.stream(g)), c, "the decoder gets other bytes than those read for the packet")
			r.add("only complete reads are decoded", c, never(g, E.Not(ok)), c, "a packet is decoded after a failed or short read")
			for _, d2 := range hr.decs {
				if d2 != d {
					r.add("every packet is decoded once", c, never(g, d2.ev.g), c, "a packet may be decoded twice")
				}
			}
		}
		r.add("the next packet is read only after this one was decoded", "packet loop", never(hr.loop.back.g, E.Not(all)), where, "the loop goes on although the packet was not handed to the decoder")
		for _, e := range append(append([]*Event(nil), hr.writes...), hr.saves...) {
			r.add("no answer and nothing stored before decoding", short(e.name)+" at "+hr.pos(e), never(e.g, E.Not(all)), hr.pos(e), "happens for bytes that were not decoded")
		}
		for _, e := range hr.saves {
			r.add("saved within the packet loop", hr.pos(e), len(e.loops) > 0, hr.pos(e), "saved outside of the packet loop")
		}
		// a valid stream is decoded: the loop is left only for a reason
		g := E.Diff(ok, all)
		for _, e := range hr.an.events {
			if e.kind == "ext" && strings.Contains(e.name, "Deadline") && e.res != nil {
				g = E.And(g, E.Imp(e.g, errNil(e.res)))
			}
		}
		q := hr.stream(T)
		if len(q.items) > 0 {
			first := cmpGE(seqLen(q), vConst(10), T)
			ver, hl, _ := framing(q, first)
			g = E.And(g, E.Imp(first, E.And(eqConst(ver, 1), cmpGE(hl, vConst(11), T))))
		}
		left := F
		for _, e := range hr.loop.exits {
			left = E.Or(left, e.st.g)
		}
		r.add("valid packets are decoded, whatever their length", "packet loop", len(q.items) > 0 && never(left, g), where, "the connection is left although a valid packet was received completely: "+E.bStr(E.And(left, g)))
		return hr.an
	})
}

// ---- time to live ----

func checkDeadlines(r *Report) {
	r.sub("deadline", "connection handler", func() *Analysis {
		hr := runHandler(r)
		ttl := setting(hr.mk, "time.Duration")
		pos := cmpGE(ttl, vConst(1), T)
		tp := r.w.prog.ImportedPackage("time")
		if tp == nil {
			fail("package time is not used")
		}
		tt := tp.Type("Time").Type()
		prev := -1
		for _, e := range hr.reads {
			c := short(e.name) + " at " + hr.pos(e)
			set, good := F, T
			var nows []*Val
			for _, d := range hr.an.events {
				if d.seq <= prev || d.seq >= e.seq || d.kind != "ext" {
					continue
				}
				if d.name == "time.Now" {
					nows = append(nows, d.res)
				}
				if !strings.HasSuffix(d.name, "net.Conn.SetReadDeadline") && !strings.HasSuffix(d.name, "net.Conn.SetDeadline") {
					continue
				}
				right := F
				for _, n := range nows {
					for _, a := range n.alts {
						for _, t := range ttl.alts {
							if want := mkSym(tt, fmt.Sprintf("add(%d,%d)", a.l.id, t.l.id)); eqUnder(E.And(d.g, pos), d.args[0], want) {
								right = T
							}
						}
					}
				}
				if hr.ours(d) != T {
					right = F
				}
				set = E.Or(set, d.g)
				good = E.And(good, E.Imp(d.g, right))
				r.add("without a deadline nothing is read", c, never(e.g, d.g, E.Not(errNil(d.res))), hr.pos(d), "data is awaited although setting the deadline failed")
			}
			r.add("every wait is limited by the time to live", c, E.feasible(E.And(e.g, pos)) && never(e.g, pos, E.Not(set)), hr.pos(e), "data is awaited without setting a deadline for this wait")
			r.add("the deadline is the time to live from now", c, never(e.g, pos, E.Not(good)), hr.pos(e), "the deadline is not the configured time to live from the start of the wait")
			r.add("a failed or expired wait ends the connection", c, never(hr.loop.back.g, e.g, E.Not(readOK(e))), hr.pos(e), "the packet loop goes on after a failed read")
			prev = e.seq
		}
		for _, e := range hr.an.events {
			if e.kind == "ext" && strings.HasSuffix(e.name, "time.Sleep") {
				r.add("no other waiting", hr.pos(e), false, hr.pos(e), "the handler sleeps")
			}
		}
		return hr.an
	})
}

// ---- answers ----

// answer is a packet written to the connection.
type answer struct {
	w    *Event // the write
	e    *Event // the encoding of what is written
	g    B      // when
	in   *elemLoop
	pkg  *Val
	body *answerBody
}

type answerBody struct {
	typ string
	obj *Val // pointer
	v   *Val // content
}

func egtsStruct(p *ssa.Package, typ string) types.Type { return p.Type(typ).Type() }

// possible drops the alternatives that cannot occur under g.
func possible(v *Val, g B) *Val {
	if v == nil || v.isBool || len(v.alts) < 2 {
		return v
	}
	var alts []Alt
	for _, a := range v.alts {
		if E.feasible(E.And(a.g, g)) {
			alts = append(alts, a)
		}
	}
	if len(alts) == 1 {
		alts[0].g = T
	}
	return mkVal(alts)
}

// bodyOf resolves an interface to the section it holds.
func (hr *handlerRun) bodyOf(st *State, v *Val, g B) *answerBody {
	v = possible(v, g)
	if v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KIface {
		return nil
	}
	l := v.alts[0].l
	pt, ok := l.typ.(*types.Pointer)
	if !ok {
		return nil
	}
	nt, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		return nil
	}
	return &answerBody{nt.Obj().Name(), l.val, st.load(l.val, pt.Elem())}
}

func (hr *handlerRun) field(v *Val, typ, name string) *Val {
	t := egtsStruct(hr.egts, typ)
	x, _ := elemField(v, t, name, T)
	return x
}

// answers resolves every write to the packets it may write.
func (f *folds) answers() ([]*answer, []string) {
	hr := f.hr
	var out []*answer
	var bad []string
	add := func(w, e *Event, g B, in *elemLoop) {
		a := &answer{w: w, e: e, g: g, in: in}
		pt := egtsStruct(hr.egts, "Package")
		a.pkg = e.st.load(e.args[0], pt)
		a.body = hr.bodyOf(e.st, hr.field(a.pkg, "Package", "ServicesFrameData"), e.g)
		out = append(out, a)
	}
	for _, w := range hr.writes {
		left := E.And(w.g, f.asm)
		data := w.args[0]
		for _, e := range hr.encs {
			if len(e.loops) > 0 && e.loops[len(e.loops)-1] != hr.loop {
				continue
			}
			if g := sameData(w.st, data, e, left); g != F {
				add(w, e, g, nil)
				left = E.Diff(left, g)
			}
		}
		if E.feasible(left) {
			// built by a loop over the records
			rl, _, i, hi := f.scalarOf(data, left)
			if rl != nil && i != nil {
				rest := E.And(i.rec.back.g, f.asm)
				for _, e := range hr.encs {
					if len(e.loops) == 0 || e.loops[len(e.loops)-1] != i.rec {
						continue
					}
					if g := sameData(i.rec.back, hi.back, e, rest); g != F {
						add(w, e, left, i)
						rest = E.Diff(rest, g)
					}
				}
				if !E.feasible(rest) || sameContent(i.rec.back, hi.back, i.rec.hd, hi.sym, rest) {
					left = F
				}
			}
		}
		if E.feasible(left) {
			bad = append(bad, hr.pos(w))
		}
	}
	return out, bad
}

// sameContent: the slices have the same elements.
func sameContent(sx *State, x *Val, sy *State, y *Val, g B) bool {
	if eqUnder(g, x, y) {
		return true
	}
	p, q := seqOf(sx, x, g), seqOf(sy, y, g)
	return p != nil && q != nil && seqEqUnder(g, p, q)
}

// sameData is the condition under which x is the result of an encoding.
func sameData(st *State, x *Val, e *Event, g B) B {
	y := e.res.alts[0].l.fields[0]
	g = E.And(g, e.g)
	if !E.feasible(g) {
		return F
	}
	r := F
	for _, a := range x.alts {
		for _, b := range y.alts {
			if c := E.And(g, a.g, b.g); c != F && a.l == b.l && a.l.kind == KSlice {
				r = E.Or(r, c)
			}
		}
	}
	if r == F && sameContent(st, x, st, y, g) {
		return g
	}
	return r
}

func (hr *handlerRun) packetID(d *decodeCall) *Val { return d.fld("PacketIdentifier") }

// setup resolves the answers for the only decode call.
func (hr *handlerRun) setup(r *Report) (*folds, []*answer) {
	if len(hr.decs) != 1 {
		fail("packets are decoded at several places")
	}
	f := hr.folds(hr.decs[0])
	as, bad := f.answers()
	for _, b := range bad {
		r.add("what is written is an encoded packet", b, false, b, "the written bytes are not the result of encoding a packet")
	}
	if len(f.loops) == 0 {
		fail("no loop over all records of the packet")
	}
	return f, as
}

// oneRecord is the only record of a record section.
func (hr *handlerRun) oneRecord(st *State, b *answerBody, g B) *Val {
	if b == nil || b.typ != "ServiceDataSet" {
		return nil
	}
	q := seqOf(st, b.v, g)
	if q == nil || !eqUnder(g, seqLen(q), vConst(1)) {
		return nil
	}
	return seqIndex(q, E.konst(0), g, egtsStruct(hr.egts, "ServiceDataRecord"))
}

// isResponse: the answer is a response packet.
func (a *answer) isResponse() bool { return a.body != nil && a.body.typ == "PtResponse" }

func orAll(gs []B) B {
	r := F
	for _, g := range gs {
		r = E.Or(r, g)
	}
	return r
}

// exactlyOnce: under g exactly one of the guards holds.
func exactlyOnce(g B, gs []B) (string, bool) {
	if !never(g, E.Not(orAll(gs))) {
		return "is not sent: " + E.bStr(E.Diff(g, orAll(gs))), false
	}
	for i := range gs {
		for j := i + 1; j < len(gs); j++ {
			if !never(g, gs[i], gs[j]) {
				return "may be sent twice", false
			}
		}
	}
	return "", true
}

func checkResponses(r *Report) {
	r.sub("responses", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, as := hr.setup(r)
		d := f.dc
		where := r.w.posStr(hr.fn.Pos())
		done := E.And(hr.loop.back.g, f.c, f.asm, d.ev.g)
		var gs []B
		n := 0
		for _, a := range as {
			if !a.isResponse() {
				continue
			}
			gs = append(gs, a.g)
			g := E.And(a.g, f.c, d.app)
			if !E.feasible(g) {
				continue
			}
			n++
			c := hr.pos(a.w)
			r.add("the response names the packet", c, eqUnder(g, hr.field(a.body.v, "PtResponse", "ResponsePacketID"), hr.packetID(d)), c, "the confirmed packet id is "+valStr(hr.field(a.body.v, "PtResponse", "ResponsePacketID")))
			f.confirmations(r, a, g, c)
		}
		exempt := E.And(f.seen[seenResp], E.Not(f.seen[seenPos]), E.Not(f.seen[seenIdent]))
		msg, ok := exactlyOnce(E.And(done, d.app, E.Not(exempt)), gs)
		r.add("exactly one response to every accepted packet", "application packets", n > 0 && ok, where, "the response "+msg)
		r.add("a packet of confirmations only is not answered", "application packets", never(E.And(f.c, d.app, exempt, orAll(gs))), where, "a packet that contains only confirmations is answered")
		r.add("other packets are not answered", "response packets", never(E.And(d.ev.g, d.ok, E.Not(d.app), orAll(gs))), where, "a packet that is no application packet is answered")
		r.add("flags", "carried variables", len(f.flags) > 0, where, "no variable tells what the packet contains")
		return hr.an
	})
}

// confirmations: the record section of a response confirms every record.
func (f *folds) confirmations(r *Report, a *answer, g B, c string) {
	hr := f.hr
	n := sliceLen(f.dc.sdsV)
	some := E.And(g, cmpGE(n, vConst(1), T))
	sdr := hr.bodyOf(a.e.st, hr.field(a.body.v, "PtResponse", "SDR"), some)
	rec := hr.oneRecord(a.e.st, sdr, some)
	if rec == nil {
		r.add("the response has a record section", c, false, c, "no record section with one record is sent for a packet with records: "+valStr(prune(hr.field(a.body.v, "PtResponse", "SDR"), some)))
		return
	}
	r.add("the response has a record section", c, true, c, "")
	list := hr.field(rec, "ServiceDataRecord", "RecordDataSet")
	lf, why := f.listOf(possible(list, some), a.e.st, some, false)
	if lf == nil {
		r.add("every record is confirmed, in order", c, false, c, "the list of confirmations: "+why)
		return
	}
	lg := E.And(lf.g, f.asm)
	one := eqUnder(lg, seqLen(lf.adds), vConst(1))
	r.add("every record is confirmed, in order", c, one, c, "an iteration adds "+valStr(seqLen(lf.adds))+" confirmations")
	if !one {
		return
	}
	el := seqIndex(lf.adds, E.konst(0), lg, lf.elemT)
	b := hr.bodyOf(lf.st, hr.field(el, "RecordData", "SubrecordData"), lg)
	if b == nil || b.typ != "SrResponse" {
		r.add("a confirmation carries the number of its record", c, false, c, "a record is answered by something else than a confirmation")
		return
	}
	r.add("a confirmation carries the number of its record", c, eqUnder(lg, hr.field(b.v, "SrResponse", "ConfirmedRecordNumber"), lf.rl.field("RecordNumber")), c, "the confirmed number is "+valStr(hr.field(b.v, "SrResponse", "ConfirmedRecordNumber")))
	fresh := true
	for _, x := range prune(b.obj, lg).alts {
		if x.l.kind != KPtr || !x.l.obj.localAlloc || lf.rl.rec.init.heap[x.l.obj] != nil {
			fresh = false
		}
	}
	r.add("every confirmation is its own object", c, fresh, c, "the confirmations of several records share one object")
}

// recordStatus is the status in the confirmations of an answer.
func (f *folds) recordStatus(a *answer, g B) (*Val, B) {
	hr := f.hr
	some := E.And(g, cmpGE(sliceLen(f.dc.sdsV), vConst(1), T))
	sdr := hr.bodyOf(a.e.st, hr.field(a.body.v, "PtResponse", "SDR"), some)
	rec := hr.oneRecord(a.e.st, sdr, some)
	if rec == nil {
		return nil, F
	}
	lf, _ := f.listOf(possible(hr.field(rec, "ServiceDataRecord", "RecordDataSet"), some), a.e.st, some, false)
	if lf == nil {
		return nil, F
	}
	lg := E.And(lf.g, f.asm)
	el := seqIndex(lf.adds, E.konst(0), lg, lf.elemT)
	b := hr.bodyOf(lf.st, hr.field(el, "RecordData", "SubrecordData"), lg)
	if b == nil || b.typ != "SrResponse" {
		return nil, F
	}
	return hr.field(b.v, "SrResponse", "RecordStatus"), lg
}

// saveOK: saving succeeded.
func saveOK(e *Event) B { return errNil(e.res) }

func checkStoredFirst(r *Report) {
	r.sub("stored before confirmed", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, as := hr.setup(r)
		d := f.dc
		n := 0
		for _, a := range as {
			if !a.isResponse() {
				continue
			}
			c := hr.pos(a.w)
			g := E.And(a.g, f.c, d.app, f.seen[seenPos])
			if !E.feasible(g) {
				continue
			}
			n++
			before := F
			for _, s := range hr.saves {
				if s.seq < a.w.seq {
					before = E.Or(before, s.g)
				}
			}
			r.add("telemetry is answered only after it was given to the storage", c, never(g, E.Not(before)), c, "a packet with telemetry is answered before it is stored")
			code := hr.field(a.body.v, "PtResponse", "ProcessingResult")
			st, lg := f.recordStatus(a, g)
			if st == nil {
				r.add("record status", c, false, c, "the status of the records is unknown")
				continue
			}
			for _, s := range hr.saves {
				gf := E.And(g, s.g, E.Not(saveOK(s)))
				r.add("a failed store is answered with a failure", c+" packet", E.feasible(gf) && never(gf, E.Not(cmpGE(code, vConst(128), T))), c, "after a failed store the packet is answered with "+valStr(prune(code, gf)))
				lf := E.And(lg, s.g, E.Not(saveOK(s)))
				r.add("a failed store is answered with a failure", c+" records", E.feasible(lf) && never(lf, E.Not(cmpGE(st, vConst(128), T))), c, "after a failed store the records are confirmed with "+valStr(prune(st, lf)))
				gk := E.And(g, s.g, saveOK(s))
				r.add("a successful store is confirmed", c+" packet", never(gk, E.Not(eqConst(code, 0))), c, "after a successful store the packet is answered with "+valStr(prune(code, gk)))
				lk := E.And(lg, s.g, saveOK(s))
				r.add("a successful store is confirmed", c+" records", never(lk, E.Not(eqConst(st, 0))), c, "after a successful store the records are confirmed with "+valStr(prune(st, lk)))
			}
			// without telemetry nothing can fail
			gn := E.And(a.g, f.c, d.app, E.Not(f.seen[seenPos]))
			r.add("a packet without telemetry is confirmed", c+" packet", never(gn, E.Not(eqConst(code, 0))), c, "a packet without telemetry is refused with "+valStr(prune(code, gn)))
		}
		r.add("answers to telemetry", "found", n > 0 && len(hr.saves) > 0, r.w.posStr(hr.fn.Pos()), "no answer to a packet with telemetry was found")
		for _, e := range hr.an.events {
			if e.kind == "go" {
				r.add("stored before the answer, not in the background", hr.pos(e), false, hr.pos(e), "the handler starts a goroutine")
			}
		}
		return hr.an
	})
}

func checkRefused(r *Report) {
	r.sub("refused", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, as := hr.setup(r)
		d := f.dc
		where := r.w.posStr(hr.fn.Pos())
		bad := E.And(d.ev.after.g, E.Not(d.ok))
		var gs []B
		for _, a := range as {
			g := E.And(a.g, E.Not(d.ok))
			if !E.feasible(g) {
				continue
			}
			c := hr.pos(a.w)
			if !a.isResponse() {
				r.add("a refused packet gets a response only", c, false, c, "something else than a response is sent for an undecodable packet")
				continue
			}
			gs = append(gs, a.g)
			r.add("the response names the packet", c, eqUnder(g, hr.field(a.body.v, "PtResponse", "ResponsePacketID"), hr.packetID(d)), c, "the refused packet id is "+valStr(hr.field(a.body.v, "PtResponse", "ResponsePacketID")))
			r.add("the response carries the result code of the decoder", c, eqUnder(g, hr.field(a.body.v, "PtResponse", "ProcessingResult"), d.code), c, "the result is "+valStr(prune(hr.field(a.body.v, "PtResponse", "ProcessingResult"), g)))
			r.add("no record of a refused packet is confirmed", c, never(g, nonNil(hr.field(a.body.v, "PtResponse", "SDR"))), c, "records of an undecodable packet are confirmed")
		}
		msg, ok := exactlyOnce(E.And(hr.loop.back.g, bad, f.asm), gs)
		r.add("exactly one response to an undecodable packet", "packet loop", E.feasible(bad) && ok, where, "the response "+msg)
		for _, s := range hr.saves {
			r.add("nothing of a refused packet is stored", hr.pos(s), never(s.g, E.Not(d.ok)), hr.pos(s), "a record is stored for an undecodable packet")
		}
		left, wf := F, F
		for _, e := range hr.loop.exits {
			left = E.Or(left, e.st.g)
		}
		for _, w := range hr.writes {
			wf = E.Or(wf, E.And(w.g, E.Not(errNil(w.res.alts[0].l.fields[1]))))
		}
		r.add("the session goes on", "after an undecodable packet", never(left, bad, E.Not(wf)), where, "the connection is left after an undecodable packet")
		r.add("the session goes on", "after a decoded packet", never(left, d.ev.after.g, d.ok, E.Not(wf)), where, "the connection is left after a packet was handled")
		return hr.an
	})
}

func checkResultCode(r *Report) {
	r.sub("identification", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, as := hr.setup(r)
		d := f.dc
		where := r.w.posStr(hr.fn.Pos())
		done := E.And(hr.loop.back.g, f.c, f.asm, d.ev.g)
		byWrite := map[*Event]B{}
		resp := F
		for _, a := range as {
			if a.isResponse() {
				continue
			}
			c := hr.pos(a.w)
			byWrite[a.w] = E.Or(byWrite[a.w], a.g)
			ge := E.And(a.e.g, f.asm)
			rec := hr.oneRecord(a.e.st, a.body, ge)
			good := false
			if rec != nil {
				q := seqOf(a.e.st, hr.field(rec, "ServiceDataRecord", "RecordDataSet"), ge)
				if q != nil && eqUnder(ge, seqLen(q), vConst(1)) {
					el := seqIndex(q, E.konst(0), ge, egtsStruct(hr.egts, "RecordData"))
					b := hr.bodyOf(a.e.st, hr.field(el, "RecordData", "SubrecordData"), ge)
					good = b != nil && b.typ == "SrResultCode" && never(ge, E.Not(eqConst(hr.field(b.v, "SrResultCode", "ResultCode"), 0)))
				}
			}
			r.add("one result sub-record with the success code", c, good, c, "the packet sent after the response is no successful authorisation result")
			pid := hr.field(a.pkg, "Package", "PacketIdentifier")
			own := hr.packetID(d)
			next := mapVal(intAdd(own, vConst(1), 1), func(l *Leaf, g B) *Val { return vBits(E.toBits(l.lin, 16)) })
			r.add("the result belongs to the same packet", c, eqUnder(ge, pid, own) || eqUnder(ge, pid, next), c, "the result packet has the id "+valStr(pid))
			before := F
			for _, b := range as {
				if b.isResponse() && b.w.seq < a.w.seq {
					before = E.Or(before, b.g)
				}
			}
			resp = before
			r.add("the result follows the response", c, never(E.And(a.g, f.c), E.Not(before)), c, "the result is sent without a response before it")
		}
		_ = resp
		var gs []B
		for _, w := range hr.writes {
			if g, ok := byWrite[w]; ok {
				gs = append(gs, g)
			}
		}
		msg, ok := exactlyOnce(E.And(done, d.app, f.seen[seenIdent]), gs)
		r.add("identification is answered with one result", "application packets", len(gs) > 0 && ok, where, "the result "+msg)
		r.add("no result without identification", "application packets", never(E.And(f.c, orAll(gs), E.Not(E.And(d.app, f.seen[seenIdent])))), where, "a result is sent for a packet without identification data")
		return hr.an
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
