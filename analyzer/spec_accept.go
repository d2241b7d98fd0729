package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- connections and the listener ----

// closedErr: the error says that the listener was closed.
func closedErr(v *Val) B {
	r := F
	q := vErr("global:net.ErrClosed").alts[0].l
	for _, a := range v.alts {
		if a.l.kind == KTerm {
			r = E.Or(r, E.And(a.g, E.newVar(fmt.Sprintf("errors.Is(%d,%d)", a.l.id, q.id))))
		}
	}
	return r
}

func fieldOfType(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(s.Field(i).Type(), nil) == name {
			return i
		}
	}
	return -1
}

// handsOver: the go statement gives the value to the new goroutine.
func handsOver(e *Event, v *Val) bool {
	_, binds := goTarget(e)
	for _, x := range append(append([]*Val(nil), e.args...), binds...) {
		if x == nil || x.isBool {
			continue
		}
		if eqUnder(e.g, x, v) {
			return true
		}
		for _, a := range x.alts {
			if a.l.kind == KPtr {
				if c := e.st.content(a.l.obj); c != nil && deepHas(c, v, e.g, 0) {
					return true
				}
			}
		}
	}
	return false
}

func deepHas(c, v *Val, g B, d int) bool {
	if c == nil || c.isBool || d > 3 {
		return false
	}
	if eqUnder(g, c, v) {
		return true
	}
	for _, a := range c.alts {
		if a.l.kind == KStruct {
			for _, f := range a.l.fields {
				if deepHas(f, v, g, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func checkReleased(r *Report) {
	r.sub("accept loop", "Server.Run", func() *Analysis {
		an, st, recv, fn, _ := serverRun(r)
		where := r.w.posStr(fn.Pos())
		var acc, listen []*Event
		var gos, lclose []*Event
		for _, e := range an.events {
			switch {
			case e.kind == "go":
				gos = append(gos, e)
			case e.kind == "ext" && strings.HasSuffix(e.name, "net.Listener.Accept"):
				acc = append(acc, e)
			case e.kind == "ext" && strings.HasSuffix(e.name, "net.Listener.Close"):
				lclose = append(lclose, e)
			case e.kind == "ext" && e.name == "net.Listen":
				listen = append(listen, e)
			}
		}
		if len(acc) != 1 || len(acc[0].loops) != 1 || acc[0].loops[0].back == nil {
			fail("connections are not accepted at one place in one loop")
		}
		a := acc[0]
		l := a.loops[0]
		conn := tupleField(a.res, 0, nil)
		ev := tupleField(a.res, 1, nil)
		ok := errNil(ev)
		closed := E.And(E.Not(ok), closedErr(ev))
		var gs []B
		for _, g := range gos {
			c := r.w.posStr(g.pos)
			r.add("only accepted connections are served", c, never(g.g, E.Not(ok)), c, "a handler is started although accepting failed")
			r.add("a handler serves the connection just accepted", c, handsOver(g, conn) && len(g.loops) == 1, c, "the accepted connection is not what is handed to the handler")
			gs = append(gs, g.g)
		}
		done := E.And(l.back.g, ok)
		msg, once := exactlyOnce(done, gs)
		r.add("every accepted connection is served in its own goroutine", "accept loop", E.feasible(done) && once, where, "the handler "+strings.Replace(msg, "sent", "started", 1))
		left := F
		for _, x := range l.exits {
			left = E.Or(left, x.st.g)
		}
		r.add("the server goes on after serving a connection", "accept loop", never(left, ok), where, "the accept loop ends after a connection was accepted")
		r.add("a failed accept does not end the server", "accept loop", E.feasible(E.And(l.back.g, E.Not(ok))) && never(left, E.Not(ok), E.Not(closed)), where, "the accept loop ends after a failed accept although the listener is open")
		r.add("the loop ends when the listener was closed", "accept loop", E.feasible(E.And(left, closed)) && never(l.back.g, closed), where, "the accept loop goes on after the listener was closed")
		for _, e := range an.events {
			if len(e.loops) > 0 && e.kind == "exit" {
				r.add("a failed accept does not end the server", "accept loop", never(e.g), r.w.posStr(e.pos), "ends the process")
			}
		}
		cg := F
		for _, e := range lclose {
			cg = E.Or(cg, e.g)
			if len(e.loops) > 0 {
				r.add("the listener stays open while connections are accepted", "accept loop", never(e.g, l.back.g), r.w.posStr(e.pos), "the listener is closed and used again")
			}
		}
		r.add("the listener is closed when the loop ends", "Server.Run", E.feasible(st.g) && never(st.g, E.Not(cg)), where, "Run returns without closing the listener")
		// Stop must find the listener
		rt := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
		if i := fieldOfType(rt, "net.Listener"); i >= 0 && len(listen) == 1 {
			f := vPtr(recv.alts[0].l.obj, PE{field: i})
			v := a.st.load(f, rt.Underlying().(*types.Struct).Field(i).Type())
			r.add("the listener can be stopped while it accepts", "Server.Run", eqUnder(a.g, v, tupleField(listen[0].res, 0, nil)), where, "the listener is not kept before connections are accepted")
		} else {
			r.add("the listener can be stopped while it accepts", "Server.Run", false, where, "no listener is kept in the server")
		}
		return an
	})
	r.sub("stopping", "Server.Stop", func() *Analysis {
		p := r.w.pkg("cli/receiver/server")
		fn := r.w.method(p, "Server", "Stop")
		if fn == nil {
			fail("no method Server.Stop")
		}
		an := start(r.w)
		st := newState()
		recv := mkSym(fn.Params[0].Type(), "p0")
		rt := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
		i := fieldOfType(rt, "net.Listener")
		if i < 0 {
			fail("no listener is kept in the server")
		}
		st.g = nonNil(recv)
		lv := fieldOf(st.load(recv, rt), i, rt.Underlying().(*types.Struct).Field(i).Type(), st.g)
		res := an.call(fn, []*Val{recv}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		cg := F
		ok := true
		for _, e := range an.events {
			if e.kind == "ext" && strings.HasSuffix(e.name, "net.Listener.Close") {
				cg = E.Or(cg, e.g)
				ok = ok && eqUnder(e.g, e.recv, lv) && eqUnder(E.And(st.g, e.g), res, e.res)
			}
		}
		r.add("stopping closes a listening server", "Server.Stop", E.feasible(cg) && never(st.g, nonNil(lv), E.Not(cg)), where, "a listening server is not stopped")
		r.add("the outcome of closing is reported", "Server.Stop", ok, where, "the error of closing the listener is lost")
		r.add("a server that does not listen can be stopped", "Server.Stop", never(cg, E.Not(nonNil(lv))), where, "closes no listener")
		obligations(r, an)
		return an
	})
	r.sub("connections", "connection handler", func() *Analysis {
		hr := runHandlerFor(r, true) // without storages, too
		where := r.w.posStr(hr.fn.Pos())
		cg := F
		for _, e := range hr.closes {
			if hr.ours(e) != T {
				continue
			}
			cg = E.Or(cg, e.g)
			for i := len(e.loops) - 1; i >= 0; i-- {
				if b := e.loops[i].back; b != nil {
					r.add("a connection stays open while it is served", hr.pos(e), never(e.g, b.g), hr.pos(e), "the connection is closed and used again")
				}
			}
			for _, x := range append(append([]*Event(nil), hr.reads...), hr.writes...) {
				r.add("a connection stays open while it is served", hr.pos(e), x.seq < e.seq || never(e.g, x.g), hr.pos(e), "the connection is closed before it is used")
			}
		}
		r.add("a connection is closed when its handler ends", "connection handler", E.feasible(hr.st.g) && never(hr.st.g, E.Not(cg)), where, "the handler returns without closing the connection: "+E.bStr(E.Diff(hr.st.g, cg)))
		return hr.an
	})
}

// ---- packets built by this program ----

var flagWidth = map[string]map[string]int{
	"Package":             {"Prefix": 2, "Route": 1, "EncryptionAlg": 2, "Compression": 1, "Priority": 2},
	"ServiceDataRecord":   {"SourceServiceOnDevice": 1, "RecipientServiceOnDevice": 1, "Group": 1, "RecordProcessingPriority": 2, "TimeFieldExists": 1, "EventIDFieldExists": 1, "ObjectIDFieldExists": 1},
	"SrPosData":           {"ALTE": 1, "LOHS": 1, "LAHS": 1, "MV": 1, "BB": 1, "CS": 1, "FIX": 1, "VLD": 1},
	"SrLiquidLevelSensor": {"LiquidLevelSensorErrorFlag": 1, "LiquidLevelSensorValueUnit": 2, "RawDataFlag": 1},
}

// builder decides whether packets are well formed.
type builder struct {
	r    *Report
	w    *World
	egts *ssa.Package
	c    string
}

func (b *builder) field(v *Val, typ, name string) *Val {
	x, _ := elemField(v, egtsStruct(b.egts, typ), name, T)
	return x
}

// flags: every flag is a text of binary digits of its width.
func (b *builder) flags(v *Val, typ string, g B) {
	ws := flagWidth[typ]
	for _, n := range sortedKeys(ws) {
		f := prune(b.field(v, typ, n), g)
		ok := E.feasible(g)
		if f.isBool {
			ok = false
		} else {
			for _, a := range f.alts {
				ga := E.And(g, a.g)
				if !E.feasible(ga) {
					continue
				}
				s, isC := constStr(one(a.l))
				if !isC || len(s) != ws[n] || strings.Trim(s, "01") != "" {
					ok = false
				}
			}
		}
		if !ok && !f.isBool && E.feasible(g) {
			// one of the texts of that width
			any := F
			for k := 0; k < 1<<ws[n]; k++ {
				any = E.Or(any, isText(f, fmt.Sprintf("%0*b", ws[n], k)))
			}
			ok = never(g, E.Not(any))
		}
		b.r.add("flags are binary digits of their width", b.c+" "+typ+"."+n, ok, b.c, "is "+valStr(f))
	}
}

func bodyType(egts *ssa.Package, st *State, v *Val, g B) *answerBody {
	hr := &handlerRun{egts: egts}
	return hr.bodyOf(st, v, g)
}

// packet checks one packet handed to Package.Encode.
func (b *builder) packet(e *Event, g B, list func(v *Val, g B) (*Seq, *State, B)) {
	st := e.st
	pkg := st.load(e.args[0], egtsStruct(b.egts, "Package"))
	f := func(n string) *Val { return b.field(pkg, "Package", n) }
	b.r.add("protocol version 1", b.c, E.feasible(g) && never(g, E.Not(eqConst(f("ProtocolVersion"), 1))), b.c, "the protocol version is "+valStr(prune(f("ProtocolVersion"), g)))
	b.flags(pkg, "Package", g)
	route := isText(f("Route"), "1")
	b.r.add("the header length matches the routing flag", b.c, never(g, route, E.Not(eqConst(f("HeaderLength"), 16)), E.Not(eqConst(f("HeaderLength"), 0))) && never(g, E.Not(route), E.Not(eqConst(f("HeaderLength"), 11)), E.Not(eqConst(f("HeaderLength"), 0))), b.c, "the header length is "+valStr(prune(f("HeaderLength"), g)))
	b.r.add("no header or data encoding that is not applied", b.c, never(g, E.Not(E.And(isText(f("EncryptionAlg"), "00"), isText(f("Compression"), "0"), eqConst(f("SecurityKeyID"), 0), eqConst(f("HeaderEncoding"), 0)))), b.c, "the header announces encryption or compression")
	body := bodyType(b.egts, st, f("ServicesFrameData"), g)
	if body == nil {
		b.r.add("the packet type matches the data", b.c, false, b.c, "the data of the packet are unknown: "+valStr(prune(f("ServicesFrameData"), g)))
		return
	}
	want := map[string]int64{"PtResponse": 0, "ServiceDataSet": 1}
	t, ok := want[body.typ]
	b.r.add("the packet type matches the data", b.c, ok && never(g, E.Not(eqConst(f("PacketType"), t))), b.c, "a packet of type "+valStr(prune(f("PacketType"), g))+" carries "+body.typ)
	switch body.typ {
	case "PtResponse":
		sdr := b.field(body.v, "PtResponse", "SDR")
		some := E.And(g, nonNil(sdr))
		if !E.feasible(some) {
			return
		}
		in := bodyType(b.egts, st, sdr, some)
		if in == nil || in.typ != "ServiceDataSet" {
			b.r.add("a response carries service records", b.c, false, b.c, "carries "+valStr(prune(sdr, some)))
			return
		}
		b.r.add("a response carries service records", b.c, never(some, E.Not(nonNil(in.obj))), b.c, "carries an absent record section")
		b.records(st, in.v, E.And(some, nonNil(in.obj)), "SrResponse", list)
	case "ServiceDataSet":
		b.records(st, body.v, g, "", list)
	}
}

func (b *builder) records(st *State, v *Val, g B, only string, list func(v *Val, g B) (*Seq, *State, B)) {
	q := seqOf(st, v, g)
	recs, ok := seqBytes(q)
	if q == nil || !ok {
		b.r.add("the records are known", b.c, false, b.c, "the records of the packet are unknown")
		return
	}
	b.r.add("the packet has a record", b.c, len(recs) > 0, b.c, "no record")
	for i, rec := range recs {
		c := b.c
		b.c = fmt.Sprintf("%s record %d", c, i)
		b.flags(rec, "ServiceDataRecord", g)
		l := b.field(rec, "ServiceDataRecord", "RecordDataSet")
		if q := seqOf(st, l, g); q != nil {
			if subs, ok := seqBytes(q); ok {
				for j, s := range subs {
					b.sub(st, s, g, only, fmt.Sprintf("%s sub-record %d", b.c, j))
				}
				b.c = c
				continue
			}
		}
		q, st2, g2 := list(l, g)
		if q == nil {
			b.r.add("the sub-records are known", b.c, false, b.c, "the sub-records are unknown")
		} else {
			n, ok := constInt(prune(seqLen(q), g2))
			b.r.add("the sub-records are known", b.c, ok, b.c, "the sub-records are unknown")
			for j := int64(0); ok && j < n; j++ {
				b.sub(st2, seqIndex(q, E.konst(j), g2, egtsStruct(b.egts, "RecordData")), g2, only, fmt.Sprintf("%s sub-record %d", b.c, j))
			}
		}
		b.c = c
	}
}

// sub checks one sub-record: its code is that of its section, or 0 for the
// code given by the encoder.
func (b *builder) sub(st *State, v *Val, g B, only, c string) {
	body := bodyType(b.egts, st, b.field(v, "RecordData", "SubrecordData"), g)
	if body == nil {
		b.r.add("the sub-record type matches the sub-record", c, false, c, "the section of the sub-record is unknown")
		return
	}
	if only != "" {
		b.r.add("responses confirm records", c, body.typ == only, c, "a response carries "+body.typ)
	}
	code := b.field(v, "RecordData", "SubrecordType")
	ok := eqConst(code, 0)
	known := false
	for typ, k := range subCodes() {
		if typ == body.typ {
			ok = E.Or(ok, eqConst(code, int64(k)))
			known = true
		}
	}
	b.r.add("the sub-record type matches the sub-record", c, known && never(g, E.Not(ok)), c, "a sub-record of type "+valStr(prune(code, g))+" carries "+body.typ)
	if flagWidth[body.typ] != nil {
		b.flags(body.v, body.typ, g)
	}
}

func checkBuilt(r *Report) {
	r.sub("packets of the receiver", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, _ := hr.setup(r)
		r.add("packets are encoded", "connection handler", len(hr.encs) > 0, "", "no packet is encoded")
		for _, e := range hr.encs {
			if !E.feasible(e.g) {
				continue
			}
			b := &builder{r: r, w: r.w, egts: hr.egts, c: hr.pos(e)}
			b.packet(e, e.g, func(v *Val, g B) (*Seq, *State, B) {
				lf, why := f.listOf(possible(v, g), e.st, g, false)
				if lf == nil {
					r.add("the sub-records are known", b.c, false, b.c, why)
					return nil, nil, F
				}
				return lf.adds, lf.st, E.And(lf.g, f.asm)
			})
		}
		return hr.an
	})
}
