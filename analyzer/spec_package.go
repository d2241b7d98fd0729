package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- decoding packets ----

// result codes of the standard.
const (
	pcOK         = 0
	pcDecrypt    = 129
	pcHeaderForm = 131
	pcDataForm   = 132
	pcType       = 133
	pcHeaderCRC  = 137
	pcDataCRC    = 138
)

type packageRun struct {
	sr     *sectionRun
	lr     *layoutReader
	code   *Val
	hdr    B // the header is complete
	hl     B // the header length field is right
	hcs    B // the header checksum is right
	data   B // the announced data is there
	hasSum B // the checksum bytes are there (or there is no data)
	sum    B // the data checksum is right
	empty  B
	typ    [2]B
	body   *Seq
	sumVal *Val
	calls  []*Event
	nested B
}

func crcFns(w *World, p *ssa.Package) (a, b string) {
	f8, f16 := p.Func("crc8"), p.Func("crc16")
	if f8 == nil || f16 == nil {
		fail("no functions crc8 and crc16")
	}
	return f8.String(), f16.String()
}

func runPackageDecode(r *Report, p *ssa.Package) *packageRun {
	c8, c16 := crcFns(r.w, p)
	pr := &packageRun{}
	// the checksum of the right range, as the received one xor a difference
	var h8, h16 *Val
	var in *Seq
	var n *Val
	prep := func(seq *Seq) {
		if pr.lr != nil {
			return
		}
		in, n = seq, seqLen(seq)
		pr.lr = decodeLayout(packageHeader(), in)
		off := pr.lr.off
		fdl := pr.lr.valueOf("FrameDataLength")
		pr.hdr = cmpGE(n, off, T)
		end := intAdd(off, fdl, 1)
		pr.data = E.And(pr.hdr, cmpGE(n, end, T))
		pr.empty = eqConst(fdl, 0)
		pr.hasSum = E.And(pr.data, E.Or(pr.empty, cmpGE(n, intAdd(end, vConst(2), 1), T)))
		pr.body = subSeq(in, off, fdl, pr.data)
		g := E.Diff(pr.hasSum, pr.empty)
		pr.sumVal = mergedLE(in, end, 2, g)
		h16 = xorVal(pr.sumVal, varBits("CRC16.differs", 16))
		pr.sum = E.Or(pr.empty, eqVal(pr.sumVal, h16, &State{g: g}))
		pr.hl = eqVal(pr.lr.valueOf("HeaderLength"), off, &State{g: pr.hdr})
		hv := pr.lr.want0("HeaderCheckSum", pr.hdr)
		h8 = xorVal(hv, varBits("CRC8.differs", 8))
		pr.hcs = eqVal(hv, h8, &State{g: pr.hdr})
		pt := pr.lr.valueOf("PacketType")
		pr.typ[ptResponse], pr.typ[ptAppdata] = eqConst(pt, ptResponse), eqConst(pt, ptAppdata)
	}
	fn := r.w.method(p, "Package", "Decode")
	if fn == nil || fn.Signature.Results().Len() != 2 {
		fail("no method Package.Decode([]byte) (uint8, error)")
	}
	pr.sr = runDecode(r, p, "Package", func(an *Analysis) {
		codecBoundary(an, "Package")
		st := newState()
		prep(st.sliceSeq(mkSym(fn.Params[1].Type(), "p1")))
		an.hooks[c8] = func(c *Call) *Val {
			g := c.st.g
			want := seqSlice(in, vConst(0), intAdd(pr.lr.off, vConst(1), -1), E.And(g, pr.hdr), u8t)
			if got := textOf(c.st, c.args[0], g); got != nil && !E.feasible(E.Diff(g, pr.hdr)) && seqEqUnder(g, got, want) {
				return h8
			}
			return vBits(varBits("CRC8@"+c.site(), 8))
		}
		an.hooks[c16] = func(c *Call) *Val {
			g := c.st.g
			if got := textOf(c.st, c.args[0], g); got != nil && !E.feasible(E.Diff(g, pr.data)) && seqEqUnder(g, got, pr.body) {
				return h16
			}
			return vBits(varBits("CRC16@"+c.site(), 16))
		}
	})
	sr := pr.sr
	rt := fn.Signature.Results()
	pr.code = tupleField(sr.ret, 0, rt.At(0).Type())
	ev := tupleField(sr.ret, 1, rt.At(1).Type())
	sr.ok = E.And(sr.st.g, errNil(ev))
	sr.fail = E.Diff(sr.st.g, errNil(ev))
	pr.calls = nestedCalls(sr.an)
	pr.nested = T
	for _, e := range pr.calls {
		pr.nested = E.And(pr.nested, E.Imp(e.g, errNil(e.res)))
	}
	return pr
}

// mergedLE is the little-endian integer at every alternative of a position.
func mergedLE(q *Seq, off *Val, n int, g B) *Val {
	var alts []Alt
	for _, a := range off.alts {
		var bs []*Val
		for i := 0; i < n; i++ {
			bs = append(bs, seqIndex(q, E.addLin(a.l.lin, 1, E.konst(int64(i)), 1), E.And(g, a.g), u8t))
		}
		for _, x := range leInt(bs).alts {
			alts = append(alts, Alt{E.And(a.g, x.g), x.l})
		}
	}
	return mkVal(alts)
}

func xorVal(v *Val, d []B) *Val {
	return mapVal(v, func(l *Leaf, g B) *Val {
		bs := append([]B(nil), E.toBits(l.lin, len(d))...)
		for i := range d {
			bs[i] = E.Xor(bs[i], d[i])
		}
		return vBits(bs)
	})
}

// want0 is the expected value of a field that may lie at several positions.
func (lr *layoutReader) want0(name string, g B) *Val {
	for _, w := range lr.out {
		if w.name != name {
			continue
		}
		var alts []Alt
		for _, a := range w.alts {
			for _, x := range a.val.alts {
				alts = append(alts, Alt{E.And(a.g, x.g), x.l})
			}
		}
		return mkVal(alts)
	}
	fail("no value for " + name)
	return nil
}

func checkPackageDecode(r *Report, part string) {
	p := r.w.pkg("libs/egts")
	r.sub(part, "Package.Decode", func() *Analysis {
		pr := runPackageDecode(r, p)
		sr := pr.sr
		where := r.w.posStr(sr.fn.Pos())
		ok, bad := sr.ok, sr.fail
		valid := E.And(pr.hdr, pr.hl, pr.hcs, pr.data, pr.hasSum, pr.sum, pr.nested, E.Or(pr.typ[0], pr.typ[1]))
		run := E.And(pr.empty, pr.typ[ptAppdata]) // nothing to decode
		for _, e := range pr.calls {
			run = E.Or(run, e.g)
		}
		switch part {
		case "trunc":
			r.add("no packet is accepted without decoding its data part", "Package", never(ok, E.Not(run)), where, "a packet is accepted although its data part is not decoded")
			r.add("success only if every field is present", "Package", never(ok, E.Not(E.And(pr.hdr, pr.data, pr.hasSum))), where, "a packet shorter than its fields, its data or its checksum is accepted")
			r.add("complete and valid data is accepted", "Package", never(bad, valid) && E.feasible(ok), where, "a valid packet is rejected: "+E.bStr(E.And(bad, valid)))
		case "crc":
			r.add("accepted only with a header length equal to the real header size", "Package", never(ok, E.Not(pr.hl)), where, "a wrong header length is accepted")
			r.add("accepted only with a matching header checksum", "Package", never(ok, E.Not(pr.hcs)), where, "a packet is accepted although CRC-8 of its header bytes differs from the received checksum")
			r.add("accepted only with a matching data checksum", "Package", never(ok, E.Not(pr.sum)), where, "a packet is accepted although CRC-16 of its data bytes differs from the received checksum: "+E.bStr(E.Diff(ok, pr.sum)))
		case "codes":
			for _, c := range []struct {
				code  int64
				name  string
				cause B
			}{
				{pcHeaderForm, "131 for an unreadable or inconsistent header", E.Not(E.And(pr.hdr, pr.hl))},
				{pcHeaderCRC, "137 for a header checksum mismatch", E.And(pr.hdr, E.Not(pr.hcs))},
				{pcDataForm, "132 for an incomplete data part", E.And(pr.hdr, E.Not(pr.data))},
				{pcType, "133 for an unsupported packet type", E.And(pr.hdr, E.Not(E.Or(pr.typ[0], pr.typ[1])))},
				{pcDecrypt, "129 for an undecodable data part or a missing checksum", E.Or(E.Not(pr.nested), E.And(pr.data, E.Not(pr.hasSum)))},
				{pcDataCRC, "138 for a data checksum mismatch", E.And(pr.hasSum, E.Not(pr.sum))},
			} {
				is := E.And(sr.st.g, eqConst(pr.code, c.code))
				r.add("code only for its cause", c.name, never(is, E.Not(c.cause)) && E.feasible(is), where, "the code is returned for another cause or never: "+E.bStr(E.Diff(is, c.cause)))
				bad = E.Diff(bad, eqConst(pr.code, c.code))
			}
			r.add("every failure has one of the codes", "Package", never(bad), where, "another code is returned with an error: "+valStr(prune(pr.code, bad)))
			r.add("code 0 exactly without an error", "Package", never(ok, E.Not(eqConst(pr.code, 0))) && never(sr.fail, eqConst(pr.code, 0)), where, "code and error do not agree")
		case "fields":
			for _, w := range pr.lr.out {
				good, d := sr.sameField(w, E.And(ok, pr.hdr, w.cond))
				r.add("decoded from its own bytes", "Package."+w.name, good, where, d)
				if w.cond != T {
					v, _ := sr.field(sr.st, w.name)
					v0, _ := sr.field(sr.pre, w.name)
					r.add("untouched when its flag is clear", "Package."+w.name, eqUnder(E.Diff(ok, w.cond), v, v0), where, "becomes "+valStr(prune(v, E.Diff(ok, w.cond))))
				}
			}
			v, _ := sr.field(sr.st, "ServicesFrameDataCheckSum")
			r.add("decoded from its own bytes", "Package.ServicesFrameDataCheckSum", eqUnder(E.Diff(E.And(ok, pr.hasSum), pr.empty), v, pr.sumVal), where, "is "+valStr(v))
			checkPackageBody(r, pr, p, where)
		case "types":
			checkPackageBody(r, pr, p, where)
			r.add("unsupported packet types are errors", "Package", never(ok, E.Not(E.Or(pr.typ[0], pr.typ[1]))), where, "a packet of unknown type is accepted")
		case "errors":
			r.add("a failed data part fails the packet", "Package", len(pr.calls) > 0 && never(ok, E.Not(pr.nested)), where, "the packet is accepted although its data part is not decodable")
			r.add("no packet is accepted without decoding its data part", "Package", never(ok, E.Not(run)), where, "a packet is accepted although its data part is not decoded")
			r.add("an invalid packet is an error", "Package", never(ok, E.Not(valid)), where, "a packet with a wrong checksum, length or type is accepted")
		case "bounded":
			checkNestedSmaller(r, sr, pr.calls, "Package")
		}
		return sr.an
	})
}

// checkPackageBody: the packet type selects the decoder of the data part.
func checkPackageBody(r *Report, pr *packageRun, p *ssa.Package, where string) {
	sr := pr.sr
	v, _ := sr.field(sr.st, "ServicesFrameData")
	for pt, tn := range []string{ptResponse: "PtResponse", ptAppdata: "ServiceDataSet"} {
		g := E.And(sr.ok, pr.typ[pt])
		r.add("packet type selects the kind of data", fmt.Sprintf("%d:%s", pt, tn), E.feasible(g) && never(g, E.Not(isPtrTo(v, p, tn))), where, "type "+fmt.Sprint(pt)+" is not decoded as "+tn)
		left := g
		if tn == "ServiceDataSet" {
			left = E.Diff(g, pr.empty)
		}
		for _, e := range pr.calls {
			ge := E.And(g, e.g)
			if eventTyp(e) != tn || !E.feasible(ge) {
				continue
			}
			q := textOf(e.st, e.args[1], ge)
			good := q != nil && seqEqUnder(ge, q, pr.body)
			for _, a := range v.alts {
				if ga := E.And(ge, a.g); good && E.feasible(ga) && (a.l.kind != KIface || !eqUnder(ga, a.l.val, e.args[0])) {
					good = false
				}
			}
			if good {
				left = E.Diff(left, e.g)
			}
		}
		r.add("the data part is decoded from exactly its own bytes", tn, never(left), where, "the data part does not come from its own bytes")
	}
}

// checkNestedSmaller: nested decoders get strictly less data than was received.
func checkNestedSmaller(r *Report, sr *sectionRun, calls []*Event, typ string) {
	for _, e := range calls {
		n := sliceLen(prune(e.args[1], e.g))
		less := cmpGE(intAdd(sr.n, vConst(1), -1), n, e.g)
		for _, l := range e.loops {
			for _, rest := range restsOf(l, sr.n) {
				less = E.Or(less, cmpGE(intAdd(sliceLen(rest), vConst(1), -1), n, e.g))
			}
		}
		r.add("nested data is a strictly smaller part of the input", eventTyp(e)+" in "+typ, never(e.g, E.Not(less)), r.w.posStr(e.pos), "the nested decoder gets "+valStr(n)+" bytes")
	}
}

// restsOf are the slices carried by a loop that never hold more than n
// elements: they start with at most n and no iteration makes them longer.
func restsOf(l *LoopRec, n *Val) []*Val {
	var out []*Val
	if l.back == nil {
		return nil
	}
	for _, k := range l.order {
		h := l.havoc[k]
		if h.sym == nil || h.init == nil || h.back == nil || h.typ == nil {
			continue
		}
		if _, ok := h.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		if never(l.init.g, E.Not(cmpGE(n, sliceLen(h.init), l.init.g))) && never(l.back.g, E.Not(cmpGE(sliceLen(h.sym), sliceLen(prune(h.back, l.back.g)), l.back.g))) {
			out = append(out, h.sym)
		}
	}
	return out
}

// ---- packet responses ----

func ptResponseHeader() section {
	return section{"PtResponse", -1, []field{u("ResponsePacketID", 2), u("ProcessingResult", 1)}}
}

func checkPtResponseDecode(r *Report, part string) {
	p := r.w.pkg("libs/egts")
	sec := ptResponseHeader()
	if part == "trunc" || part == "fields" {
		checkSectionDecode(r, sec, part)
	}
	r.sub(part, "PtResponse.Decode", func() *Analysis {
		sr := runDecode(r, p, "PtResponse", func(an *Analysis) { codecBoundary(an, "PtResponse") })
		where := r.w.posStr(sr.fn.Pos())
		lr := decodeLayout(sec, sr.in)
		calls := nestedCalls(sr.an)
		has := cmpGE(sr.n, intAdd(lr.off, vConst(1), 1), T)
		switch part {
		case "fields":
			v, _ := sr.field(sr.st, "SDR")
			v0, _ := sr.field(sr.pre, "SDR")
			g := E.And(sr.ok, has)
			rest := subSeq(sr.in, lr.off, intAdd(sr.n, lr.off, -1), g)
			left := g
			for _, e := range calls {
				ge := E.And(g, e.g)
				if eventTyp(e) != "ServiceDataSet" || !E.feasible(ge) {
					continue
				}
				q := textOf(e.st, e.args[1], ge)
				good := q != nil && seqEqUnder(ge, q, rest)
				for _, a := range v.alts {
					if ga := E.And(ge, a.g); good && E.feasible(ga) && (a.l.kind != KIface || !eqUnder(ga, a.l.val, e.args[0])) {
						good = false
					}
				}
				if good {
					left = E.Diff(left, e.g)
				}
			}
			r.add("the record section is decoded from the remaining bytes", "PtResponse.SDR", E.feasible(g) && never(left), where, "the record section does not come from the bytes after the result")
			r.add("untouched when there is no record section", "PtResponse.SDR", eqUnder(E.Diff(sr.ok, has), v, v0), where, "becomes "+valStr(v))
		case "errors":
			bad, run := F, F
			for _, e := range calls {
				run = E.Or(run, e.g)
				bad = E.Or(bad, E.Diff(e.g, errNil(e.res)))
			}
			r.add("no response is accepted without decoding its record section", "PtResponse", never(sr.ok, has, E.Not(run)), where, "a response is accepted although its record section is not decoded")
			r.add("a failed record section fails the response", "PtResponse", E.feasible(bad) && never(sr.ok, bad), where, "the response is accepted although its record section is not decodable")
		case "bounded":
			checkNestedSmaller(r, sr, calls, "PtResponse")
		}
		return sr.an
	})
}

// ---- encoding packets and responses ----

// bodyModel gives the encoding of nested data: the same bytes for the same
// value, and a length that agrees with them (decided for each section under C08).
type bodyModel struct {
	res  *Val
	evts []*Event
	g    B
	err  B
}

func (bm *bodyModel) hook(an *Analysis, p *ssa.Package) {
	bd := p.Type("BinaryData")
	if bd == nil {
		fail("no type BinaryData")
	}
	name := "invoke " + ifaceName(bd.Type())
	get := func(c *Call) (*Val, *Val) {
		l := c.args[0].alts[0].l
		key := "enc(" + leafStr(l, 6) + ids(l.args) + ")"
		d := symSlice(u8t, key)
		e, _ := symErr(key)
		return d, e
	}
	an.hooks[name+".Encode"] = func(c *Call) *Val {
		d, e := get(c)
		ev := c.an.event(&Event{kind: "ext", name: c.name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: c.args, recv: c.args[0], st: c.st.clone(), key: c.site()})
		ev.res = vTuple([]*Val{d, e})
		bm.evts = append(bm.evts, ev)
		return ev.res
	}
	an.hooks[name+".Length"] = func(c *Call) *Val {
		d, e := get(c)
		n := wrapInt(sliceLen(d), c.resType(), c.st.g)
		return mergeVal(errNil(e), n, vConst(0))
	}
}

func bodyOf(v *Val) (*Seq, *Val, *Val) {
	// the bytes, length and error of the encoding of a nested interface value
	for _, a := range v.alts {
		if a.l.kind == KTerm {
			key := "enc(" + leafStr(a.l, 6) + ids(a.l.args) + ")"
			d := symSlice(u8t, key)
			e, _ := symErr(key)
			return d.alts[0].l.obj.init.alts[0].l.seq, sliceLen(d), e
		}
	}
	fail("nested data is not symbolic")
	return nil, nil, nil
}

func checkPackageEncode(r *Report, part string) {
	p := r.w.pkg("libs/egts")
	r.sub(part, "Package.Encode", func() *Analysis {
		str := structOf(p, "Package")
		hdr := packageHeader()
		arbitrary := part != "layout" && part != "crc"
		en := newEncoder("p0", str, hdr, arbitrary)
		symHook = en.sym
		c8, c16 := crcFns(r.w, p)
		bm := &bodyModel{}
		i := fieldIndex(str, "ServicesFrameData")
		if i < 0 {
			fail("no field ServicesFrameData")
		}
		sf := mkSym(str.Field(i).Type(), "p0.ServicesFrameData")
		has := nonNil(sf)
		body, n, berr := bodyOf(sf)
		n = mergeVal(has, n, vConst(0))
		small := cmpGE(vConst(65535), n, T)
		nonEmpty := cmpGE(n, vConst(1), T)
		// expected header
		route := en.flag["Route"]
		hl := make([]B, 8)
		for k := range hl {
			hl[k] = F
			if 11>>k&1 == 1 && 16>>k&1 == 1 {
				hl[k] = T
			} else if 11>>k&1 == 1 {
				hl[k] = E.Not(route)
			} else if 16>>k&1 == 1 {
				hl[k] = route
			}
		}
		en.replace("HeaderLength", hl)
		en.replace("FrameDataLength", bitsOf(n, 16, small))
		h8, h16 := varBits("CRC8.header", 8), varBits("CRC16.data", 16)
		en.replace("HeaderCheckSum", h8)
		k := en.at["HeaderCheckSum"]
		var head []Item
		head = append(head, en.out[:k]...)
		all := append([]Item(nil), en.out...)
		for _, it := range body.items {
			it.g = E.And(has, nonEmpty)
			all = append(all, it)
		}
		en.out = all
		en.putBits(nonEmpty, h16)
		en.inRng = T
		good := E.And(E.Imp(has, errNil(berr)), small)
		okCRC := map[string]bool{}
		er := runEncode(r, p, "Package", T, func(an *Analysis) {
			codecBoundary(an, "Package")
			bm.hook(an, p)
			an.hooks[c8] = func(c *Call) *Val {
				if !arbitrary {
					g := E.And(c.st.g, good)
					if got := textOf(c.st, c.args[0], g); got != nil && seqEqUnder(g, got, mkSeq(head)) {
						okCRC["8"] = true
						return vBits(h8)
					}
				}
				return vBits(varBits("CRC8@"+c.site(), 8))
			}
			an.hooks[c16] = func(c *Call) *Val {
				if !arbitrary {
					g := E.And(c.st.g, good, has)
					if got := textOf(c.st, c.args[0], g); got != nil && seqEqUnder(g, got, body) {
						okCRC["16"] = true
						return vBits(h16)
					}
				}
				return vBits(varBits("CRC16@"+c.site(), 16))
			}
		})
		where := r.w.posStr(er.fn.Pos())
		switch part {
		case "layout":
			r.add("in-range values are encoded", "Package", never(er.fail, good) && E.feasible(er.ok), where, "encoding fails for values within their ranges")
			ok, d := er.out != nil, "no output"
			if ok {
				ok = seqEqUnder(E.And(er.ok, good), er.out, en.expected())
				d = "writes " + seqStr(er.out, 4) + " instead of " + seqStr(en.expected(), 4)
			}
			r.add("encoded as laid out", "Package", ok, where, d)
		case "crc":
			r.add("the header checksum covers exactly the header bytes before it", "Package", okCRC["8"], where, "CRC-8 is computed over other bytes")
			r.add("the data checksum covers exactly the data part", "Package", okCRC["16"], where, "CRC-16 is computed over other bytes")
			ok := er.out != nil && seqEqUnder(E.And(er.ok, good), er.out, en.expected())
			r.add("the checksums are written behind their ranges", "Package", ok, where, "the encoding is not header, CRC-8, data, CRC-16")
		case "flags":
			r.add("flags that are not binary digits are refused", "Package", never(er.ok, E.Not(en.flagOK)), where, "a malformed flag is encoded without an error")
			r.add("a failed data part fails the packet", "Package", never(er.ok, has, E.Not(errNil(berr))), where, "the packet is encoded although its data part is not")
		case "length":
			r.add("a data part too long for its length field is refused", "Package", never(er.ok, E.Not(small)), where, "the data length wraps")
			good := er.out != nil
			d := "no output"
			if good {
				g := E.And(er.ok, en.flagOK)
				v := leInt([]*Val{seqIndex(er.out, E.konst(5), g, u8t), seqIndex(er.out, E.konst(6), g, u8t)})
				good = sameUint(g, v, n, 16)
				d = "the data length field is " + valStr(v)
				h := seqIndex(er.out, E.konst(3), g, u8t)
				r.add("the header length field is right", "Package", eqUnder(g, h, vBits(hl)), where, "is "+valStr(h))
				total := intAdd(intAdd(vBits(hl), n, 1), mergeVal(nonEmpty, vConst(2), vConst(0)), 1)
				r.add("the encoding consists of the announced parts", "Package", eqUnder(g, seqLen(er.out), total), where, "has "+valStr(seqLen(er.out))+" bytes")
			}
			r.add("the data length field is the length of the data part", "Package", good, where, d)
		case "pure":
			ok, d := unmodifiedBut(er.an, er.st, er.pre, er.st.g, str, "HeaderLength", "FrameDataLength")
			r.add("Encode changes only the derived lengths", "Package", ok, where, "changes "+d)
			ok, d = deterministic(er.an)
			r.add("Encode depends on the packet only", "Package", ok, where, d)
			r.add("the encoding is newly allocated", "Package", freshSlices(er.an, tupleField(er.ret, 0, nil), er.ok), where, "the result shares memory with the packet")
			r.add("repeated encoding does not depend on derived lengths", "Package", er.out != nil && !mentions(er.out, "p0.HeaderLength", "p0.FrameDataLength", "p0.HeaderCheckSum", "p0.ServicesFrameDataCheckSum"), where, "the encoding depends on a derived field")
		}
		return er.an
	})
}

// mentions: the sequence depends on bits of the named symbols.
func mentions(q *Seq, names ...string) bool {
	sup := map[int32]bool{}
	addB := func(b B) {
		for _, v := range E.Support(b) {
			sup[v] = true
		}
	}
	for i := range q.items {
		it := &q.items[i]
		addB(it.g)
		if it.k == IVal {
			for _, b := range bitsOf(it.val, 8, T) {
				addB(b)
			}
		}
	}
	for v := range sup {
		nm := E.varName(v)
		for _, n := range names {
			if strings.HasPrefix(nm, n+".") {
				return true
			}
		}
	}
	return false
}

// unmodifiedBut compares the memory before and after, except for some fields of the receiver.
func unmodifiedBut(an *Analysis, st, pre *State, g B, str *types.Struct, fields ...string) (bool, string) {
	skip := map[string]bool{}
	for _, f := range fields {
		skip[f] = true
	}
	for o, v := range st.heap {
		if o.localAlloc {
			continue
		}
		v0 := pre.content(o)
		s := structUnder(o.typ)
		if s == nil {
			if !eqUnder(g, v, v0) {
				return false, o.name
			}
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if o.name == "p0" && skip[s.Field(i).Name()] {
				continue
			}
			ft := s.Field(i).Type()
			a, b := fieldOf(v, i, ft, g), fieldOf(v0, i, ft, g)
			if !eqUnder(g, a, b) {
				return false, o.name + "." + s.Field(i).Name()
			}
		}
	}
	for _, e := range an.events {
		if (e.kind == "havoc" || e.kind == "store") && e.args != nil && e.args[0] != nil && !e.args[0].isBool {
			for _, x := range e.args[0].alts {
				if (x.l.kind != KPtr && x.l.kind != KSlice) || x.l.obj == nil || x.l.obj.localAlloc || !E.feasible(E.And(e.g, x.g)) {
					continue
				}
				if s := structUnder(x.l.obj.typ); s != nil && x.l.obj.name == "p0" && len(x.l.path) > 0 && x.l.path[0].idx == nil && skip[s.Field(x.l.path[0].field).Name()] {
					continue
				}
				return false, x.l.obj.name
			}
		}
	}
	return true, ""
}

func checkPtResponseEncode(r *Report, part string) {
	p := r.w.pkg("libs/egts")
	r.sub(part, "PtResponse.Encode", func() *Analysis {
		str := structOf(p, "PtResponse")
		en := newEncoder("p0", str, ptResponseHeader(), part != "layout")
		symHook = en.sym
		bm := &bodyModel{}
		i := fieldIndex(str, "SDR")
		if i < 0 {
			fail("no field SDR")
		}
		sf := mkSym(str.Field(i).Type(), "p0.SDR")
		has := nonNil(sf)
		body, _, berr := bodyOf(sf)
		for _, it := range body.items {
			it.g = has
			en.out = append(en.out, it)
		}
		er := runEncode(r, p, "PtResponse", T, func(an *Analysis) { codecBoundary(an, "PtResponse"); bm.hook(an, p) })
		where := r.w.posStr(er.fn.Pos())
		good := E.Imp(has, errNil(berr))
		switch part {
		case "layout":
			r.add("in-range values are encoded", "PtResponse", never(er.fail, good) && E.feasible(er.ok), where, "encoding fails for values within their ranges")
			ok, d := er.out != nil, "no output"
			if ok {
				ok = seqEqUnder(E.And(er.ok, good), er.out, en.expected())
				d = "writes " + seqStr(er.out, 4) + " instead of " + seqStr(en.expected(), 4)
			}
			r.add("encoded as laid out", "PtResponse", ok, where, d)
		case "flags":
			r.add("a failed record section fails the response", "PtResponse", never(er.ok, E.Not(good)), where, "the response is encoded although its record section is not")
		case "length":
			checkLength(r, p, "PtResponse", er, T, where)
		case "pure":
			ok, d := unmodified(er.an, er.st, er.pre, er.st.g)
			r.add("Encode leaves the section unchanged", "PtResponse", ok, where, "changes "+d)
			ok, d = deterministic(er.an)
			r.add("Encode depends on the section only", "PtResponse", ok, where, d)
			r.add("the encoding is newly allocated", "PtResponse", freshSlices(er.an, tupleField(er.ret, 0, nil), er.ok), where, "the result shares memory with the section")
		}
		return er.an
	})
}

// checkLength: Length agrees with the size of the encoding.
func checkLength(r *Report, p *ssa.Package, typ string, er *encodeRun, g B, where string) {
	fn := r.w.method(p, typ, "Length")
	if fn == nil {
		fail("no method Length")
	}
	st := newState()
	n := er.an.call(fn, []*Val{er.recv}, nil, st, "length:")
	if er.out == nil {
		fail("no output")
	}
	want := seqLen(er.out)
	g = E.And(g, er.ok, st.g, cmpGE(vConst(65535), want, T))
	r.add("Length equals the encoded size", typ, sameUint(g, n, want, 16), where, "Length is "+valStr(n)+", the encoding has "+valStr(want)+" bytes")
}

// sameUint: v is the number n, which fits into w bits under g.
func sameUint(g B, v, n *Val, w int) bool {
	return eqUnder(g, v, n) || eqUnder(g, vBits(bitsOf(v, w, g)), vBits(bitsOf(n, w, g)))
}
