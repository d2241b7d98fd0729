package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The packet generator: what it sends (C52), when it succeeds (C53) and that
// its packet is well formed (C31).

type genRun struct {
	hr     *handlerRun
	an     *Analysis
	fn     *ssa.Function
	st     *State
	flags  map[string]*Event
	encs   []*Event
	decs   []*decodeCall
	writes []*connOp
	reads  []*connOp
	limits []*connOp
	exits  []*Event
	ok     B // status 0
	asm    B // what is known about library calls
}

// connOp is an operation on a connection.
type connOp struct {
	e    *Event
	conn *Val
	args []*Val
}

func runGenerator(r *Report) *genRun {
	p := r.w.pkg("cli/packet-gen")
	x := &genRun{flags: map[string]*Event{}, asm: T}
	x.fn = p.Func("main")
	if x.fn == nil {
		fail("no function main in cli/packet-gen")
	}
	x.an = start(r.w)
	x.hr = &handlerRun{r: r, an: x.an, egts: r.w.pkg("libs/egts"), stor: r.w.pkg("cli/receiver/storage"), decOf: map[*Event]*decodeCall{}}
	x.hr.hookCodec(x.an)
	x.st = newState()
	x.an.call(x.fn, nil, nil, x.st, "")
	x.ok = x.st.g
	for _, e := range x.an.events {
		if !E.feasible(e.g) {
			continue
		}
		op := func(n string) *connOp {
			if strings.HasPrefix(e.name, "invoke ") && strings.HasSuffix(e.name, "net.Conn."+n) {
				return &connOp{e, e.recv, e.args}
			}
			if strings.HasPrefix(e.name, "(*net.") && strings.HasSuffix(e.name, "."+n) && len(e.args) > 0 {
				return &connOp{e, e.args[0], e.args[1:]}
			}
			return nil
		}
		switch e.kind {
		case "flag":
			x.flags[e.name] = e
		case "call":
			if e.name == "Package.Encode" {
				x.encs = append(x.encs, e)
			}
			if d := x.hr.decOf[e]; d != nil {
				x.decs = append(x.decs, d)
			}
		case "read":
			x.reads = append(x.reads, &connOp{e, e.recv, e.args})
		case "exit":
			x.exits = append(x.exits, e)
			z, _ := exitZero(e)
			x.ok = E.Or(x.ok, E.And(e.g, z))
		case "ext":
			if o := op("Write"); o != nil {
				x.writes = append(x.writes, o)
			}
			for _, n := range []string{"SetReadDeadline", "SetDeadline"} {
				if o := op(n); o != nil {
					x.limits = append(x.limits, o)
				}
			}
			if e.name == "io.WriteString" || e.name == "io.Copy" {
				fail("data is sent by " + e.name)
			}
		}
	}
	return x
}

// exitZero: the program ends with status 0; known: the status is one of some
// constants.
func exitZero(e *Event) (zero B, known bool) {
	if e.name != "os.Exit" {
		return F, true
	}
	v := prune(e.args[0], e.g)
	if v.isBool || len(v.alts) == 0 {
		return F, false
	}
	for _, a := range v.alts {
		if _, ok := constInt(one(a.l)); !ok {
			return F, false
		}
	}
	return eqConst(v, 0), true
}

func (x *genRun) flag(n string) *Val {
	e := x.flags[n]
	if e == nil {
		fail("no flag " + n)
	}
	return e.args[0]
}

func fltOf(v *Val) *Flt {
	if v != nil && !v.isBool && len(v.alts) == 1 && v.alts[0].l.kind == KFloat {
		return v.alts[0].l.fl
	}
	fail("a coordinate is no floating point number")
	return nil
}

// above: |f| > k, with the ways to write it related to each other.
func (x *genRun) above(f *Flt, k int64) B {
	c := new(big.Rat).SetInt64(k)
	hi := E.Not(FGE0(fltAdd(fltConst(c), ratOne, f, ratNeg)))
	lo := E.Not(FGE0(fltAdd(f, ratOne, fltConst(c), ratOne)))
	ab := E.Not(FGE0(fltAdd(fltConst(c), ratOne, fltAtom("math.Abs", vFlt(f)), ratNeg)))
	x.asm = E.And(x.asm, E.Iff(ab, E.Or(hi, lo)))
	// a value below -k is negative, one above k is not
	x.asm = E.And(x.asm, E.Imp(lo, E.Not(FGE0(f))), E.Imp(hi, FGE0(f)))
	x.asm = E.And(x.asm, E.Imp(fltInf(f), ab))
	return E.Or(ab, fltNaN(f))
}

func (x *genRun) magnitude(g B, v *Val, f *Flt) bool {
	neg := E.Not(FGE0(f))
	if eqUnder(E.And(g, x.asm), v, vFlt(fltAtom("math.Abs", vFlt(f)))) {
		return true
	}
	minus := vFlt(fltScale(f, ratNeg))
	return eqUnder(E.And(g, x.asm, E.Not(neg)), v, vFlt(f)) && eqUnder(E.And(g, x.asm, neg), v, minus)
}

func sameConn(a, b *Val) bool {
	if a == nil || b == nil || a.isBool || b.isBool || len(a.alts) == 0 {
		return false
	}
	strip := func(l *Leaf) *Leaf {
		for l.kind == KIface && l.val != nil && len(l.val.alts) == 1 {
			l = l.val.alts[0].l
		}
		return l
	}
	for _, p := range a.alts {
		ok := false
		for _, q := range b.alts {
			u, v := strip(p.l), strip(q.l)
			ok = ok || u == v || u.kind == KPtr && v.kind == KPtr && u.obj == v.obj
		}
		if !ok && p.l.kind != KNil {
			return false
		}
	}
	return true
}

// dial finds the call that opened a connection.
func (x *genRun) dial(c *Val) (e *Event, addr, network *Val) {
	for _, d := range x.an.events {
		if d.kind != "ext" || d.res == nil || !sameConn(c, value0(d)) {
			continue
		}
		switch d.name {
		case "net.DialTCP":
			for _, s := range x.an.events {
				if s.kind == "ext" && s.name == "net.ResolveTCPAddr" && eqUnder(d.g, d.args[2], value0(s)) {
					return d, s.args[1], s.args[0]
				}
			}
			return d, nil, d.args[0]
		case "net.Dial", "net.DialTimeout":
			return d, d.args[1], d.args[0]
		case "(*net.Dialer).Dial":
			return d, d.args[2], d.args[1]
		}
	}
	return nil, nil, nil
}

type usage struct {
	name string
	bad  B
}

// unusable lists the command lines that must be refused.
func (x *genRun) unusable() (parse *Event, ts *Val, us []usage) {
	inRange := func(n string, hi int64) {
		v := x.flag(n)
		us = append(us, usage{"-" + n + " out of range", E.Or(E.Not(cmpGE(v, vConst(0), T)), cmpGE(v, vConst(hi+1), T))})
	}
	us = append(us, usage{"no -pid", eqConst(x.flag("pid"), 0)}, usage{"no -oid", eqConst(x.flag("oid"), 0)})
	inRange("pid", 65535)
	inRange("oid", 1<<32-1)
	inRange("liquid", 1<<32-1)
	us = append(us, usage{"-lat out of range", x.above(fltOf(x.flag("lat")), 90)}, usage{"-lon out of range", x.above(fltOf(x.flag("lon")), 180)})
	for _, e := range exts(x.an.events, "time.Parse") {
		l, ok := constStr(prune(e.args[0], e.g))
		if !ok || !strings.HasPrefix(l, "2006-01-02T15:04:05") || !strings.HasSuffix(l, "Z07:00") || !eqUnder(e.g, e.args[1], x.flag("time")) {
			continue
		}
		parse, ts = e, value0(e)
	}
	if parse == nil {
		fail("the time is not read as RFC 3339")
	}
	failed := E.Not(errNil(outcome(parse)))
	empty := isText(x.flag("time"), "")
	x.asm = E.And(x.asm, E.Imp(E.And(parse.g, empty), failed))
	us = append(us, usage{"no -time", empty}, usage{"malformed -time", E.And(parse.g, failed)})
	if l := ts.alts[0].l; l.kind == KTime {
		const start = 1262304000 // 2010-01-01 UTC
		s := vInt(l.sec)
		us = append(us, usage{"-time out of range", E.And(parse.g, E.Not(failed), E.Or(E.Not(cmpGE(s, vConst(start), T)), cmpGE(s, vConst(start+1<<32), T)))})
	}
	return
}

func checkSent(r *Report) {
	r.sub("generator", "main", func() *Analysis {
		x := runGenerator(r)
		where := r.w.posStr(x.fn.Pos())
		// the command line
		defs := map[string]*Val{"pid": vConst(0), "oid": vConst(0), "time": vStr(""), "liquid": vConst(0), "lat": nil, "lon": nil, "server": vStr("localhost:5555"), "timeout": vConst(5)}
		for _, n := range sortedKeys(defs) {
			e := x.flags[n]
			ok := e != nil && e.g == T
			if ok && defs[n] != nil {
				ok = eqUnder(e.g, e.args[1], defs[n])
			} else if ok {
				f := e.args[1]
				ok = len(f.alts) == 1 && f.alts[0].l.kind == KFloat && f.alts[0].l.fl.isConst() && f.alts[0].l.fl.c.Sign() == 0
			}
			w := where
			if e != nil {
				w = r.w.posStr(e.pos)
			}
			r.add("the documented options with their defaults", "-"+n, ok, w, "the option is missing or has another default")
		}
		_, ts, us := x.unusable()
		bad := F
		for _, u := range us {
			bad = E.Or(bad, u.bad)
		}
		if len(x.writes) == 0 {
			r.add("a packet is sent", "main", false, where, "nothing is written to a connection")
			return x.an
		}
		// nothing is sent for unusable values
		for _, u := range us {
			for _, w := range x.writes {
				p := r.w.posStr(w.e.pos)
				r.add("nothing is sent for unusable options", u.name+" at "+p, never(w.e.g, x.asm, u.bad), p, "a packet is sent with "+u.name)
			}
			said := E.feasible(E.And(x.asm, u.bad)) && never(x.ok, x.asm, u.bad)
			r.add("unusable options are refused", u.name, said, where, "the program succeeds with "+u.name)
		}
		x.messages(r)
		// one packet, to the given server
		var gs []B
		sent := F
		able := T
		for _, w := range x.writes {
			p := r.w.posStr(w.e.pos)
			gs = append(gs, w.e.g)
			r.add("the packet is sent once", p, len(w.e.loops) == 0, p, "sending is repeated")
			d, addr, network := x.dial(w.conn)
			r.add("the packet goes to the given server", p, d != nil && addr != nil && eqUnder(d.g, addr, x.flag("server")), p, "the connection is not one to -server")
			if d != nil && network != nil {
				n, ok := constStr(prune(network, d.g))
				r.add("the packet is sent over TCP", p, ok && strings.HasPrefix(n, "tcp"), p, "the network is "+n)
				r.add("a failed connection is not used", p, never(w.e.g, E.Not(errNil(outcome(d)))), p, "the connection is used although it failed")
				able = E.And(able, errNil(outcome(d)))
			}
			same := F
			for _, e := range x.encs {
				q, q0 := asText(w.e.st, w.args[0], w.e.g), asText(w.e.st, tupleField(e.res, 0, nil), E.And(w.e.g, errNil(tupleField(e.res, 1, nil))))
				if q != nil && q0 != nil && seqEqUnder(E.And(w.e.g, e.g), q, q0) {
					same = E.Or(same, E.And(e.g, errNil(tupleField(e.res, 1, nil))))
					x.packet(r, e, E.And(w.e.g, x.asm), ts)
					able = E.And(able, errNil(tupleField(e.res, 1, nil)))
				}
			}
			sent = E.Or(sent, w.e.g)
			if o := outcome(w.e); o != nil {
				r.add("a failed send is reported", p, never(x.ok, w.e.g, E.Not(errNil(o))), p, "the program succeeds although sending failed")
				heard := F
				for _, rd := range x.reads {
					heard = E.Or(heard, rd.e.g)
				}
				r.add("the acknowledgement is awaited after sending", p, never(w.e.g, errNil(o), E.Not(heard)), p, "the packet is sent and nothing is awaited")
			}
			r.add("the encoded packet is sent", p, never(w.e.g, E.Not(same)), p, "what is written is not an encoded packet")
		}
		for _, e := range exts(x.an.events, "net.ResolveTCPAddr") {
			able = E.And(able, errNil(outcome(e)))
		}
		good := E.And(x.asm, E.Not(bad), able)
		msg, once := exactlyOnce(good, gs)
		r.add("usable options send a packet", "main", E.feasible(good) && once, where, "the packet "+msg)
		x.waiting(r)
		return x.an
	})
}

// messages: whenever the program gives up it says so.
func (x *genRun) messages(r *Report) {
	for _, e := range x.exits {
		w := r.w.posStr(e.pos)
		said := F
		if strings.Contains(e.name, "Fatal") || strings.Contains(e.name, "Panic") {
			said = e.g
		}
		for _, l := range x.an.events {
			if l.kind == "log" && l.seq < e.seq && reports(l.name) {
				said = E.Or(said, l.g)
			}
		}
		z, _ := exitZero(e)
		r.add("failures are reported", w, never(e.g, E.Not(z), E.Not(said)), w, "the program ends without a message")
	}
}

// packet compares the packet with the command line.
func (x *genRun) packet(r *Report, e *Event, g B, ts *Val) {
	w := r.w.posStr(e.pos)
	b := &builder{r: r, w: r.w, egts: x.hr.egts, c: w}
	pkg := e.st.load(e.args[0], egtsStruct(x.hr.egts, "Package"))
	is := func(what string, v, want *Val) {
		r.add("the packet carries what was asked for", what+" at "+w, v != nil && eqUnder(g, v, want), w, what+" is "+valStrD(prune(v, g), 4))
	}
	is("-pid", b.field(pkg, "Package", "PacketIdentifier"), x.flag("pid"))
	hdr := func(f string) *Val { return b.field(pkg, "Package", f) }
	r.add("the packet is a data packet of protocol version 1", w, never(g, E.Not(E.And(eqConst(hdr("ProtocolVersion"), 1), eqConst(hdr("PacketType"), 1)))), w, "the version is "+valStr(prune(hdr("ProtocolVersion"), g))+" and the type "+valStr(prune(hdr("PacketType"), g)))
	r.add("the packet is neither encrypted nor compressed", w, never(g, E.Not(E.And(isText(hdr("Prefix"), "00"), isText(hdr("EncryptionAlg"), "00"), isText(hdr("Compression"), "0")))), w, "the header says otherwise")
	body := bodyType(x.hr.egts, e.st, b.field(pkg, "Package", "ServicesFrameData"), g)
	if body == nil || body.typ != "ServiceDataSet" {
		r.add("the packet carries records", w, false, w, "the data of the packet are no records")
		return
	}
	recs, ok := seqBytes(seqOf(e.st, body.v, g))
	r.add("the packet carries one record", w, ok && len(recs) == 1, w, "the number of records is not one")
	if !ok || len(recs) != 1 {
		return
	}
	rec := recs[0]
	is("-oid", b.field(rec, "ServiceDataRecord", "ObjectIdentifier"), x.flag("oid"))
	r.add("the packet carries what was asked for", "presence of -oid at "+w, never(g, E.Not(isText(b.field(rec, "ServiceDataRecord", "ObjectIDFieldExists"), "1"))), w, "the client id is not marked as present")
	q := seqOf(e.st, b.field(rec, "ServiceDataRecord", "RecordDataSet"), g)
	subs, ok := seqBytes(q)
	if q == nil || !ok {
		r.add("the record is known", w, false, w, "the sub-records are unknown")
		return
	}
	pos, liq := 0, 0
	for _, s := range subs {
		in := bodyType(x.hr.egts, e.st, b.field(s, "RecordData", "SubrecordData"), g)
		if in == nil {
			r.add("the record is known", w, false, w, "the section of a sub-record is unknown")
			continue
		}
		f := func(n string) *Val { return b.field(in.v, in.typ, n) }
		srt := b.field(s, "RecordData", "SubrecordType")
		sort := func(code int64) {
			r.add("the packet carries what was asked for", "kind of sub-record "+in.typ+" at "+w, never(g, E.Not(E.Or(eqConst(srt, 0), eqConst(srt, code)))), w, "the "+in.typ+" is sent as a sub-record of type "+valStr(prune(srt, g)))
		}
		switch in.typ {
		case "SrPosData":
			pos++
			sort(16)
			is("-time", secondsOnly(f("NavigationTime")), secondsOnly(ts))
			for _, c := range [][3]string{{"lat", "Latitude", "LAHS"}, {"lon", "Longitude", "LOHS"}} {
				fl := fltOf(x.flag(c[0]))
				neg := E.Not(FGE0(fl))
				r.add("the packet carries what was asked for", "-"+c[0]+" at "+w, x.magnitude(g, f(c[1]), fl), w, c[1]+" is "+valStrD(prune(f(c[1]), g), 4))
				fg := E.And(g, x.asm)
				h := f(c[2])
				zero := E.Not(E.Or(E.Not(FGE0(fl)), E.Not(FGE0(fltScale(fl, ratNeg)))))
				r.add("the packet carries what was asked for", "hemisphere of -"+c[0]+" at "+w, never(fg, neg, E.Not(isText(h, "1"))) && never(fg, E.Not(neg), E.Not(zero), E.Not(isText(h, "0"))), w, "the hemisphere flag is "+valStrD(prune(h, g), 4))
			}
			r.add("the packet carries what was asked for", "validity at "+w, never(g, E.Not(isText(f("VLD"), "1"))), w, "the position is marked as invalid")
		case "SrLiquidLevelSensor":
			liq++
			sort(27)
			is("-liquid", f("LiquidLevelSensorData"), x.flag("liquid"))
			r.add("the packet carries what was asked for", "first sensor at "+w, never(g, E.Not(eqConst(f("LiquidLevelSensorNumber"), 1))), w, "the sensor is "+valStr(prune(f("LiquidLevelSensorNumber"), g)))
			r.add("the packet carries what was asked for", "kind of level at "+w, never(g, E.Not(E.And(isText(f("LiquidLevelSensorValueUnit"), "00"), isText(f("RawDataFlag"), "0")))), w, "the level is not marked as a plain value")
		}
	}
	r.add("the packet carries one position and one level", w, pos == 1 && liq == 1, w, fmt.Sprintf("it carries %d positions and %d levels", pos, liq))
}

// secondsOnly is the time with whole seconds, as far as it is sent.
func secondsOnly(v *Val) *Val {
	return mapVal(v, func(l *Leaf, g B) *Val {
		if l.kind == KTime {
			return vInt(l.sec)
		}
		return one(l)
	})
}

// waiting: the acknowledgement is awaited for the given time.
func (x *genRun) waiting(r *Report) {
	to := x.flag("timeout")
	if len(x.reads) == 0 {
		r.add("the acknowledgement is awaited", "main", false, "", "nothing is read")
	}
	for _, rd := range x.reads {
		w := r.w.posStr(rd.e.pos)
		set, good := F, T
		d, _, _ := x.dial(rd.conn)
		for _, l := range x.limits {
			if l.e.seq > rd.e.seq {
				continue
			}
			right := false
			for _, n := range x.an.events {
				if n.kind != "ext" || n.name != "time.Now" || n.seq > l.e.seq || d != nil && n.seq < d.seq {
					continue
				}
				tl := n.res.alts[0].l
				if tl.kind == KTime && len(to.alts) == 1 && to.alts[0].l.kind == KInt {
					right = right || eqUnder(l.e.g, l.args[0], vTime(E.addLin(tl.sec, 1, to.alts[0].l.lin, 1), tl.nsec, tl.loc))
				}
			}
			if sameConn(l.conn, rd.conn) {
				set = E.Or(set, l.e.g)
				if !right {
					good = E.And(good, E.Not(l.e.g))
				}
			}
		}
		r.add("the acknowledgement is awaited for the given time", w, never(rd.e.g, E.Not(set)) && never(rd.e.g, E.Not(good)), w, "the wait is not limited by -timeout seconds from now")
		same := d != nil
		for _, wr := range x.writes {
			same = same && sameConn(rd.conn, wr.conn)
			r.add("the acknowledgement is awaited after sending", w, wr.e.seq < rd.e.seq && never(rd.e.g, E.Not(wr.e.g)), w, "data is awaited before the packet is sent")
		}
		r.add("the acknowledgement is read from the server", w, same, w, "it is read from another connection")
	}
}

// ---- success ----

// noticed relates the variables of a loop to "an element so far was bad": c
// holds what follows by induction, after tells whether such an element was
// seen in the iterations before.
func noticed(l *LoopRec, bad, asm B, name string) (after, c B) {
	if never(l.back.g, asm, bad) {
		return F, T
	}
	after = E.newVar(name + "@" + l.key)
	return after, induct(l, bad, asm, after)
}

// induct finds the predicates p of the variables of a loop for which
// "p holds iff it held at the start or an element so far was bad" is kept by
// every iteration, and returns their conjunction.
func induct(l *LoopRec, bad, asm, after B) B {
	type cand struct{ init, sym, back B }
	var cs []cand
	add := func(init, sym, back B) {
		if sym > T {
			cs = append(cs, cand{init, sym, back})
		}
	}
	for _, k := range l.order {
		h := l.havoc[k]
		if h.sym == nil || h.back == nil || h.init == nil || h.typ == nil {
			continue
		}
		for _, p := range predicatesOf(h) {
			add(p.f(h.init), p.f(h.sym), p.f(h.back))
		}
		// the first element of a list
		if t, ok := h.typ.Underlying().(*types.Slice); ok {
			first := func(st *State, v *Val) B {
				some := E.And(st.g, cmpGE(sliceLen(v), vConst(1), T))
				q := seqOf(st, v, st.g)
				if q == nil || some == F {
					return F
				}
				return E.And(cmpGE(sliceLen(v), vConst(1), T), nonNil(seqIndex(q, E.konst(0), some, t.Elem())))
			}
			switch t.Elem().Underlying().(type) {
			case *types.Interface, *types.Pointer:
				add(first(l.init, h.init), first(l.hd, h.sym), first(l.back, h.back))
			}
		}
	}
	for {
		c := T
		for _, x := range cs {
			c = E.And(c, E.Iff(x.sym, E.Or(x.init, after)))
		}
		var keep []cand
		for _, x := range cs {
			if never(l.back.g, asm, c, E.Xor(x.back, E.Or(x.init, after, bad))) {
				keep = append(keep, x)
			}
		}
		if len(keep) == len(cs) {
			return c
		}
		cs = keep
	}
}

func checkAcknowledged(r *Report) {
	r.sub("generator", "main", func() *Analysis {
		x := runGenerator(r)
		where := r.w.posStr(x.fn.Pos())
		obligationsBut(r, x.an, func(e *Event) bool { return !strings.Contains(e.name, "Panic") && !strings.Contains(e.name, "Goexit") })
		for _, e := range x.exits {
			_, isC := exitZero(e)
			r.add("the exit status is known", r.w.posStr(e.pos), isC, r.w.posStr(e.pos), "the program ends with a status that is no constant")
		}
		x.messages(r)
		if len(x.decs) != 1 || len(x.reads) == 0 {
			fail("the generator does not decode one answer")
		}
		d := x.decs[0]
		w := r.w.posStr(d.ev.pos)
		S := x.ok
		need := func(what string, c B) {
			r.add("success needs a positive acknowledgement", what, E.feasible(E.And(S, c)) && never(S, E.Not(c)), where, "the program succeeds although "+what+" is not given")
		}
		r.add("success is possible", "main", E.feasible(S), where, "the program never succeeds")
		need("a decoded answer", E.And(d.ev.g, d.ok))
		// the answer decoded is what was received
		got, okRead := F, F
		for _, rd := range x.reads {
			n := tupleField(rd.e.res, 0, nil)
			okRead = E.Or(okRead, E.And(rd.e.g, errNil(tupleField(rd.e.res, 1, nil))))
			g := E.And(d.ev.g, rd.e.g)
			q := asText(d.ev.st, d.ev.args[1], g)
			buf := asText(d.ev.st, rd.args[0], g)
			if q == nil || buf == nil {
				continue
			}
			if seqEqUnder(g, q, seqSlice(buf, vConst(0), n, g, u8)) {
				got = E.Or(got, rd.e.g)
			}
		}
		need("a successful read", okRead)
		r.add("the answer decoded is what was received", w, never(d.ev.g, E.Not(got)), w, "what is decoded is not what was read")
		need("a response packet", E.Not(d.app))
		g := E.And(d.ev.g, d.ok, E.Not(d.app))
		body := bodyType(x.hr.egts, d.ev.after, d.fld("ServicesFrameData"), g)
		if body == nil || body.typ != "PtResponse" {
			fail("the response is unknown")
		}
		b := &builder{r: r, w: r.w, egts: x.hr.egts}
		f := func(n string) *Val { return b.field(body.v, "PtResponse", n) }
		var pid *Val
		for _, e := range x.encs {
			pid = b.field(e.st.load(e.args[0], egtsStruct(x.hr.egts, "Package")), "Package", "PacketIdentifier")
		}
		if len(x.encs) != 1 {
			fail("the generator does not encode one packet")
		}
		id := eqVal(f("ResponsePacketID"), pid, &State{g: d.ev.g})
		need("a response to the own packet", id)
		res := eqConst(f("ProcessingResult"), 0)
		need("a positive result", res)
		// the records
		sdr := prune(f("SDR"), g)
		if sdr.isBool || len(sdr.alts) != 1 || sdr.alts[0].l.kind != KTerm {
			fail("the record section of a response is unknown")
		}
		sl := sdr.alts[0].l
		pt := types.NewPointer(egtsStruct(x.hr.egts, "ServiceDataSet"))
		isSet := tagIs(sl, pt)
		need("a record section", E.And(isSet, E.Not(leafNil(sl))))
		good := E.And(d.ev.g, okRead, d.ok, E.Not(d.app), id, res, isSet, E.Not(leafNil(sl)))
		set := mkSym(pt, assertName(sl, pt))
		good = E.And(good, nonNil(set))
		list := d.ev.after.load(set, pt.Elem())
		recT := egtsStruct(x.hr.egts, "ServiceDataRecord")
		subT := egtsStruct(x.hr.egts, "RecordData")
		rp := types.NewPointer(egtsStruct(x.hr.egts, "SrResponse"))
		decided := false
		for _, o := range elemLoops(x.an.loops, list, recT, nil, F) {
			subsV := b.field(o.elem, "ServiceDataRecord", "RecordDataSet")
			for _, in := range elemLoops(x.an.loops, subsV, subT, o.rec, F) {
				data := b.field(in.elem, "RecordData", "SubrecordData")
				if data == nil || data.isBool || len(data.alts) != 1 || data.alts[0].l.kind != KTerm {
					continue
				}
				dl := data.alts[0].l
				isResp := E.And(tagIs(dl, rp), E.Not(leafNil(dl)))
				ptr := mkSym(rp, assertName(dl, rp))
				status := b.field(in.st.load(ptr, rp.Elem()), "SrResponse", "RecordStatus")
				code := eqConst(b.field(in.elem, "RecordData", "SubrecordType"), 0)
				// the decoder makes exactly the sub-records of code 0 responses (C05)
				asm := E.And(E.Iff(code, isResp), nonNil(ptr))
				moreIn := cmpGE(sliceLen(subsV), intAdd(vInt(in.pos), vConst(1), 1), T)
				moreOut := cmpGE(sliceLen(list), intAdd(vInt(o.pos), vConst(1), 1), T)
				bad := E.And(isResp, E.Not(eqConst(status, 0)), moreIn)
				early := func(l *LoopRec, more B) B {
					e := F
					for _, z := range l.exits {
						e = E.Or(e, E.And(z.st.g, more))
					}
					return e
				}
				if !never(in.rec.back.g, E.Not(moreIn)) || !never(early(in.rec, moreIn), asm, E.Not(bad)) {
					continue
				}
				seenIn, cIn := noticed(in.rec, bad, asm, "a negative confirmation")
				// what an iteration of the outer loop found out
				found := E.Or(seenIn, E.And(bad, asm, in.rec.hd.g))
				if never(in.rec.hd.g, bad, asm) {
					found = seenIn
				}
				c := E.And(asm, cIn)
				if !never(o.rec.back.g, E.Not(moreOut)) || !never(early(o.rec, moreOut), c, E.Not(found)) {
					continue
				}
				// every record is examined
				if !never(o.rec.back.g, c, E.Not(in.rec.init.g), cmpGE(sliceLen(subsV), vConst(1), T)) {
					continue
				}
				seenOut, cOut := noticed(o.rec, found, c, "a negative confirmation of a record")
				c = E.And(c, cOut)
				decided = true
				p := r.w.posStr(loopPos(in.rec))
				r.add("every confirmation is looked at", p, never(S, E.Not(o.rec.init.g), cmpGE(sliceLen(list), vConst(1), T)), p, "the confirmations are not examined")
				r.add("success needs a positive acknowledgement", "positive confirmations at "+p, never(S, c, seenOut) && never(S, c, bad, moreOut) && never(S, c, seenIn, moreOut), p, "the program succeeds although a confirmation is negative")
				for _, e := range x.exits {
					z, _ := exitZero(e)
					q := r.w.posStr(e.pos)
					r.add("a positive acknowledgement is a success", q, never(e.g, E.Not(z), good, c, E.Not(seenOut), E.Not(seenIn), E.Not(bad)), q, "the program fails although the answer is positive")
				}
			}
		}
		r.add("every confirmation is looked at", "main", decided, where, "no loops examine the status of every confirmation of every record")
		return x.an
	})
}

func checkGenPacket(r *Report) {
	r.sub("packets of the generator", "main", func() *Analysis {
		x := runGenerator(r)
		r.add("packets are encoded", "packet generator", len(x.encs) > 0, "", "no packet is encoded")
		for _, e := range x.encs {
			b := &builder{r: r, w: r.w, egts: x.hr.egts, c: r.w.posStr(e.pos)}
			b.packet(e, e.g, func(v *Val, g B) (*Seq, *State, B) { return nil, nil, F })
		}
		return x.an
	})
}

func loopPos(l *LoopRec) token.Pos {
	for b := l.head; b != nil; {
		for _, i := range b.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
		if len(b.Succs) == 0 || b.Succs[0] == l.head {
			break
		}
		b = b.Succs[0]
	}
	return l.fn.Pos()
}
