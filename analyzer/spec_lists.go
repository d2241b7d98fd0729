package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Headers of packets, records and sub-records, as laid out by the standard.

func packageHeader() section {
	return section{"Package", -1, []field{
		u("ProtocolVersion", 1), u("SecurityKeyID", 1),
		flags(flagBits{name: "Prefix", n: 2}, flagBits{name: "Route", n: 1}, flagBits{name: "EncryptionAlg", n: 2}, flagBits{name: "Compression", n: 1}, flagBits{name: "Priority", n: 2}),
		u("HeaderLength", 1), u("HeaderEncoding", 1), u("FrameDataLength", 2), u("PacketIdentifier", 2), u("PacketType", 1),
		opt(u("PeerAddress", 2), "Route"), opt(u("RecipientAddress", 2), "Route"), opt(u("TimeToLive", 1), "Route"),
		u("HeaderCheckSum", 1)}}
}

func recordHeader() section {
	return section{"ServiceDataRecord", -1, []field{
		u("RecordLength", 2), u("RecordNumber", 2),
		flags(flagBits{name: "SourceServiceOnDevice", n: 1}, flagBits{name: "RecipientServiceOnDevice", n: 1}, flagBits{name: "Group", n: 1},
			flagBits{name: "RecordProcessingPriority", n: 2}, flagBits{name: "TimeFieldExists", n: 1}, flagBits{name: "EventIDFieldExists", n: 1}, flagBits{name: "ObjectIDFieldExists", n: 1}),
		opt(u("ObjectIdentifier", 4), "ObjectIDFieldExists"), opt(u("EventIdentifier", 4), "EventIDFieldExists"), opt(u("Time", 4), "TimeFieldExists"),
		u("SourceServiceType", 1), u("RecipientServiceType", 1)}}
}

func subHeader() section {
	return section{"RecordData", -1, []field{u("SubrecordType", 1), u("SubrecordLength", 2)}}
}

// codes of the sub-record types the library implements.
func subCodes() map[string]int {
	m := map[string]int{"StorageRecord": 15}
	for _, s := range sections() {
		m[s.typ] = s.code
	}
	return m
}

const (
	ptResponse = 0
	ptAppdata  = 1
)

func isPtrTo(v *Val, p *ssa.Package, typ string) B {
	t := p.Type(typ)
	if t == nil {
		fail("no type " + typ)
	}
	r := F
	pt := types.NewPointer(t.Type())
	if v.isBool {
		return F
	}
	for _, a := range v.alts {
		switch a.l.kind {
		case KIface:
			if types.Identical(a.l.typ, pt) {
				r = E.Or(r, a.g)
			}
		case KTerm:
			r = E.Or(r, E.And(a.g, tagIs(a.l, pt)))
		}
	}
	return r
}

func eqConst(v *Val, k int64) B { return eqVal(v, vConst(k), &State{g: T}) }

func never(g ...B) bool {
	x := E.And(g...)
	return x == F || !E.feasible(x)
}

// subSeq is the part of q from off with n bytes, for all alternatives of off.
func subSeq(q *Seq, off, n *Val, g B) *Seq { return seqSlice(q, off, n, g, u8t) }

// ---- decoding lists ----

type listDecode struct {
	sr   *sectionRun
	rec  *LoopRec
	in   *Seq // what is left at the start of an iteration
	n    *Val
	left *Val // what is left after the iteration (length)
	adv  *Val // bytes consumed by the iteration
	acc  *hvar
	accQ *Seq
	elem *Val
	et   types.Type
}

// cursors lists the ways to see the remaining input in a loop.
type cursor struct {
	in        *Seq
	n         *Val
	adv, left *Val
	name      string
}

func (sr *sectionRun) cursors(rec *LoopRec) []cursor {
	var out []cursor
	for _, k := range rec.order {
		h := rec.havoc[k]
		if h.sym == nil || h.sym.isBool || len(h.sym.alts) != 1 || h.back == nil || h.init == nil || rec.back == nil {
			continue
		}
		l := h.sym.alts[0].l
		switch l.kind {
		case KInt:
			c, ok := constInt(h.init)
			if !ok {
				continue
			}
			// the loop of a range statement counts from -1
			at := E.addLin(l.lin, 1, E.konst(c), -1)
			n := intAdd(sr.n, vInt(at), -1)
			q := mkSeq(seqSlice1(sr.in, at, n.alts[0].l.lin, rec.hd.g, u8t))
			out = append(out, cursor{q, n, intAdd(h.back, h.sym, -1), intAdd(sr.n, intAdd(h.back, vConst(c), -1), -1), k})
		case KSlice:
			q0 := textOf(rec.init, h.init, rec.init.g)
			if q0 == nil || !seqEqUnder(rec.init.g, q0, sr.in) {
				continue
			}
			q := textOf(rec.hd, h.sym, rec.hd.g)
			n, bn := sliceLen(h.sym), sliceLen(h.back)
			// the new remainder must be a tail of the old one
			adv := intAdd(n, bn, -1)
			qb := textOf(rec.back, h.back, rec.back.g)
			if q == nil || qb == nil || !seqEqUnder(rec.back.g, qb, seqSlice(q, adv, bn, rec.back.g, u8t)) {
				continue
			}
			out = append(out, cursor{q, n, adv, bn, k})
		}
	}
	return out
}

// appended finds the list that grows by one element in each iteration.
func appended(rec *LoopRec, et types.Type) (*hvar, *Seq, *Val) {
	for _, k := range rec.order {
		h := rec.havoc[k]
		if h.sym == nil || h.sym.isBool || h.back == nil || rec.back == nil || len(h.sym.alts) != 1 || h.sym.alts[0].l.kind != KSlice {
			continue
		}
		if h.sym.alts[0].l.obj == nil || !types.Identical(elemOf(h.sym.alts[0].l.obj.typ), et) {
			continue
		}
		g := rec.back.g
		q0, q := textOf(rec.hd, h.sym, rec.hd.g), textOf(rec.back, h.back, g)
		if q0 == nil || q == nil {
			continue
		}
		n := sliceLen(h.sym)
		if !eqUnder(g, sliceLen(h.back), intAdd(n, vConst(1), 1)) {
			continue
		}
		if !seqEqUnder(g, mkSeq(seqSlice1(q, E.konst(0), n.alts[0].l.lin, g, et)), q0) {
			continue
		}
		return h, q0, seqIndex(q, n.alts[0].l.lin, g, et)
	}
	return nil, nil, nil
}

func elemField(elem *Val, et types.Type, name string, g B) (*Val, types.Type) {
	s := et.Underlying().(*types.Struct)
	i := fieldIndex(s, name)
	if i < 0 {
		fail("no field " + name)
	}
	return fieldOf(elem, i, s.Field(i).Type(), g), s.Field(i).Type()
}

// runListDecode analyses a list decoder whose element type is elem.
func runListDecode(r *Report, p *ssa.Package, typ, elem string) (*sectionRun, []*listDecode) {
	sr := runDecode(r, p, typ, func(an *Analysis) { codecBoundary(an, typ) })
	et := p.Type(elem).Type()
	var out []*listDecode
	for _, rec := range sr.an.loops {
		if rec.back == nil {
			continue
		}
		h, q, e := appended(rec, et)
		if h == nil {
			continue
		}
		for _, c := range sr.cursors(rec) {
			out = append(out, &listDecode{sr: sr, rec: rec, in: c.in, n: c.n, left: c.left, adv: c.adv, acc: h, accQ: q, elem: e, et: et})
		}
	}
	return sr, out
}

// element layout of the two list kinds.
type elemSpec struct {
	lr       *layoutReader
	complete B    // all announced bytes are there
	used     *Val // bytes of the element
	data     *Seq // nested part
	has      B    // the nested part is present
	known    B    // its kind is supported
}

func (ld *listDecode) spec(typ string) *elemSpec {
	es := &elemSpec{known: T}
	switch typ {
	case "ServiceDataSet":
		es.lr = decodeLayoutAt(recordHeader(), ld.in)
		off := es.lr.off
		rl := es.lr.valueOf("RecordLength")
		hdr := cmpGE(ld.n, off, T)
		es.has = E.And(hdr, E.Not(cmpGE(off, ld.n, T)))
		end := intAdd(off, rl, 1)
		es.complete = E.And(hdr, E.Or(E.Not(es.has), cmpGE(ld.n, end, T)))
		es.used = mergeOffs(es.has, end, off)
		es.data = subSeq(ld.in, off, rl, E.And(es.complete, es.has))
	case "RecordDataSet":
		es.lr = decodeLayoutAt(subHeader(), ld.in)
		sl := es.lr.valueOf("SubrecordLength")
		end := intAdd(es.lr.off, sl, 1)
		es.complete = E.And(cmpGE(ld.n, es.lr.off, T), cmpGE(ld.n, end, T))
		es.used = end
		es.has = es.complete
		es.data = subSeq(ld.in, es.lr.off, sl, es.complete)
		code := es.lr.valueOf("SubrecordType")
		es.known = E.And(eqConst(code, 20), eqConst(sl, 5))
		for _, c := range subCodes() {
			es.known = E.Or(es.known, eqConst(code, int64(c)))
		}
	}
	return es
}

func decodeLayoutAt(sec section, in *Seq) *layoutReader { return decodeLayout(sec, in) }

func (lr *layoutReader) valueOf(name string) *Val {
	for _, w := range lr.out {
		if w.name == name {
			if len(w.alts) == 1 {
				return w.alts[0].val
			}
		}
	}
	fail("no value for " + name)
	return nil
}

// nestedCalls are the calls of Decode methods of other types.
func nestedCalls(an *Analysis) []*Event {
	var out []*Event
	for _, e := range an.events {
		if e.kind == "call" && strings.HasSuffix(e.name, ").Decode") && e.res != nil {
			out = append(out, e)
		}
	}
	return out
}

func eventTyp(e *Event) string {
	i, j := strings.LastIndex(e.name, "."), 0
	if i < 0 {
		return e.name
	}
	s := e.name[:i]
	j = strings.LastIndex(s, ".")
	return strings.Trim(s[j+1:], "()*")
}

// checkListDecode decides the list decoders. part: "trunc", "fields", "codes", "errors".
func checkListDecode(r *Report, typ, elemTyp, part string) {
	p := r.w.pkg("libs/egts")
	r.sub(part, typ+".Decode", func() *Analysis {
		sr, lds := runListDecode(r, p, typ, elemTyp)
		where := r.w.posStr(sr.fn.Pos())
		if len(lds) == 0 {
			fail("no loop that turns the remaining input into appended " + elemTyp + " elements")
		}
		ld := lds[0]
		for _, c := range lds {
			if eqUnder(E.And(c.rec.back.g), c.adv, c.spec(typ).used) {
				ld = c
				break
			}
		}
		es := ld.spec(typ)
		bg := ld.rec.back.g
		calls := nestedCalls(sr.an)
		nestedOK := T
		run := F
		for _, e := range calls {
			run = E.Or(run, e.g)
			nestedOK = E.And(nestedOK, E.Imp(e.g, errNil(e.res)))
		}
		final := textOf(sr.st, readPath(sr.st.content(sr.recv.alts[0].l.obj), sr.recv.alts[0].l.obj.typ, nil, sr.ok), sr.ok)
		nonEmpty := cmpGE(ld.n, vConst(1), T)
		switch part {
		case "trunc":
			r.add("success only if every field is present", elemTyp, never(bg, E.Not(es.complete)), where, "an element shorter than its fields or its length field is accepted")
			r.add("success only at the end of the data", typ, never(sr.ok, nonEmpty), where, "decoding succeeds although data is left")
			r.add("an element takes exactly its own bytes", elemTyp, eqUnder(bg, ld.adv, es.used), where, "the next element is read after "+valStr(ld.adv)+" bytes instead of "+valStr(es.used))
			r.add("complete data is accepted", elemTyp, never(sr.fail, es.complete, nonEmpty, es.known, nestedOK), where, "complete data is rejected: "+E.bStr(E.And(sr.fail, es.complete, nonEmpty, es.known, nestedOK)))
			r.add("no element is accepted without decoding its data", elemTyp, never(bg, es.has, E.Not(run)), where, "an element is accepted although its data is not decoded")
			r.add("an empty list is accepted", typ, never(sr.fail, E.Not(nonEmpty)), where, "an empty list is rejected")
		case "fields":
			for _, w := range es.lr.out {
				v, _ := elemField(ld.elem, ld.et, w.name, bg)
				ok, d := sameVal(ld.rec.back, v, w, E.And(bg, w.cond))
				r.add("decoded from its own bytes", elemTyp+"."+w.name, ok, where, d)
				if w.cond != T {
					g := E.Diff(bg, w.cond)
					r.add("untouched when its flag is clear", elemTyp+"."+w.name, eqUnder(g, v, zeroVal(structField(ld.et, w.name))), where, "becomes "+valStr(prune(v, g)))
				}
			}
			q0 := textOf(ld.rec.init, ld.acc.init, ld.rec.init.g)
			pre := textOf(sr.pre, readPath(sr.pre.content(sr.recv.alts[0].l.obj), sr.recv.alts[0].l.obj.typ, nil, T), T)
			fresh := q0 != nil && never(ld.rec.init.g, cmpGE(seqLen(q0), vConst(1), T))
			same := final != nil && (seqEqUnder(sr.ok, final, ld.accQ) || fresh && pre != nil && seqEqUnder(sr.ok, final, seqCat(pre, ld.accQ)))
			r.add("the decoded list consists of the elements in order", typ, same, where, "another list is returned")
			r.add("nothing is added before the first element", typ, q0 != nil && pre != nil && (seqEqUnder(ld.rec.init.g, q0, pre) || fresh), where, "the list starts with other elements")
			checkNested(r, ld, es, calls, p, typ, elemTyp, where)
		case "codes":
			checkNested(r, ld, es, calls, p, typ, elemTyp, where)
			r.add("unknown type codes are errors", elemTyp, never(bg, es.complete, E.Not(es.known)), where, "a sub-record of unknown type is accepted: "+E.bStr(E.And(bg, es.complete, E.Not(es.known))))
			r.add("known type codes are accepted", elemTyp, never(sr.fail, es.complete, nonEmpty, es.known, nestedOK), where, "a sub-record of known type is rejected")
		case "errors":
			for _, e := range calls {
				bad := E.Diff(e.g, errNil(e.res))
				r.add("a failed nested section fails the whole", eventTyp(e)+" in "+typ, never(bg, bad) && never(sr.ok, bad), r.w.posStr(e.pos), "decoding goes on after the error")
			}
			r.add("undecodable data is an error", elemTyp, never(bg, E.Not(E.And(es.complete, es.known))), where, "a bad element is accepted")
			r.add("no element is accepted without decoding its data", elemTyp, never(bg, es.has, E.Not(run)), where, "an element is accepted although its data is not decoded")
			if typ == "RecordDataSet" {
				r.add("every sub-record is decoded", elemTyp, len(calls) >= 14, where, fmt.Sprintf("%d section decoders are called", len(calls)))
			}
		}
		return sr.an
	})
}

func structUnder(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func structField(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	return s.Field(fieldIndex(s, name)).Type()
}

// checkNested: the nested part is decoded by the right decoder and stored.
func checkNested(r *Report, ld *listDecode, es *elemSpec, calls []*Event, p *ssa.Package, typ, elemTyp, where string) {
	bg := ld.rec.back.g
	covered := func(g B, tn string, ok func(e *Event, g B) bool) bool {
		// every way to reach the back edge under g runs a matching call
		for _, e := range calls {
			if eventTyp(e) != tn {
				continue
			}
			if gg := E.And(g, e.g); gg != F && E.feasible(gg) && ok(e, gg) {
				g = E.Diff(g, e.g)
			}
		}
		return never(g)
	}
	argOK := func(e *Event, g B) bool {
		q := textOf(e.st, e.args[1], g)
		return q != nil && seqEqUnder(g, q, es.data)
	}
	switch typ {
	case "ServiceDataSet":
		v, _ := elemField(ld.elem, ld.et, "RecordDataSet", bg)
		q := textOf(ld.rec.back, v, E.And(bg, es.has))
		r.add("the record data is decoded from exactly the record's bytes", elemTyp, covered(E.And(bg, es.has), "RecordDataSet", func(e *Event, g B) bool {
			if !argOK(e, g) || q == nil {
				return false
			}
			got := textOf(e.after, e.after.load(e.args[0], p.Type("RecordDataSet").Type()), g)
			return got != nil && seqEqUnder(g, q, got)
		}), where, "the sub-records of a record do not come from its own bytes")
		q0 := textOf(ld.rec.back, v, E.Diff(bg, es.has))
		r.add("a record without data has no sub-records", elemTyp, never(bg, E.Not(es.has)) || q0 != nil && never(bg, E.Not(es.has), cmpGE(seqLen(q0), vConst(1), T)), where, "sub-records appear from nowhere")
	case "RecordDataSet":
		v, _ := elemField(ld.elem, ld.et, "SubrecordData", bg)
		code, sl := es.lr.valueOf("SubrecordType"), es.lr.valueOf("SubrecordLength")
		for tn, c := range subCodes() {
			is := eqConst(code, int64(c))
			if tn == "SrStateData" {
				is = E.Or(is, E.And(eqConst(code, 20), eqConst(sl, 5)))
			}
			g := E.And(bg, is)
			r.add("type code selects the section", fmt.Sprintf("%d:%s", c, tn), E.feasible(g) && never(g, E.Not(isPtrTo(v, p, tn))), where, "code "+fmt.Sprint(c)+" is not decoded as "+tn)
			r.add("the section is decoded from exactly the sub-record's bytes", tn, covered(g, tn, func(e *Event, g B) bool {
				if !argOK(e, g) {
					return false
				}
				for _, a := range v.alts {
					ga := E.And(g, a.g)
					if ga == F || !E.feasible(ga) {
						continue
					}
					if a.l.kind != KIface || !eqUnder(ga, a.l.val, e.args[0]) {
						return false
					}
				}
				return true
			}), where, tn+" does not come from its own bytes")
		}
	}
}
