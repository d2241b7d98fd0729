package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- encoding lists ----

// listEncode is one loop that appends the encoding of one element per
// iteration to the output.
type listEncode struct {
	er   *encodeRun
	rec  *LoopRec
	acc  *hvar
	accQ *Seq // what has been written before the iteration
	part *Seq // what the iteration adds
	idx  *Val // number of the element
	elem *Val
	en   *encoder
	init *Seq
}

func seqOf(st *State, v *Val, g B) *Seq {
	if v == nil || v.isBool {
		return nil
	}
	return textOf(st, v, g)
}

// splitAfter returns the items of q after the prefix a.
func splitAfter(q, a *Seq, g B) *Seq {
	n := seqLen(a)
	if len(n.alts) != 1 {
		return nil
	}
	d := intAdd(seqLen(q), n, -1)
	pre := seqSlice(q, vConst(0), n, g, u8t)
	if !seqEqUnder(g, pre, a) {
		return nil
	}
	return seqSlice(q, n, d, g, u8t)
}

// runListEncode analyses the encoder of a list and finds its loop.
func runListEncode(r *Report, p *ssa.Package, typ, elem string, sec section, arbitrary bool) (*encodeRun, []*listEncode, map[string]*encoder) {
	str := structOf(p, elem)
	encs := map[string]*encoder{}
	symHook = func(t types.Type, name string) *Val {
		i := strings.LastIndex(name, ".")
		if i < 0 || !strings.HasPrefix(name, "p0[") || !strings.HasSuffix(name[:i], "]") || fieldIndex(str, name[i+1:]) < 0 {
			return nil
		}
		en := encs[name[:i]]
		if en == nil {
			en = newEncoder(name[:i], str, sec, arbitrary)
			encs[name[:i]] = en
		}
		return en.vals[name]
	}
	bm := &bodyModel{}
	er := runEncode(r, p, typ, T, func(an *Analysis) {
		codecBoundary(an, typ)
		if typ == "RecordDataSet" {
			bm.hook(an, p)
		}
	})
	src := textOf(er.pre, er.pre.load(er.recv, er.recv.alts[0].l.obj.typ), T)
	et := p.Type(elem).Type()
	var out []*listEncode
	for _, rec := range er.an.loops {
		if rec.back == nil {
			continue
		}
		g := rec.back.g
		var idxs []*Val
		for _, k := range rec.order {
			h := rec.havoc[k]
			if h.sym == nil || h.sym.isBool || len(h.sym.alts) != 1 || h.sym.alts[0].l.kind != KInt || h.back == nil || h.init == nil {
				continue
			}
			if c, ok := constInt(h.init); ok && eqUnder(g, h.back, intAdd(h.sym, vConst(1), 1)) {
				idxs = append(idxs, intAdd(h.sym, vConst(c), -1))
			}
		}
		for _, k := range rec.order {
			h := rec.havoc[k]
			if h.sym == nil || h.sym.isBool || h.back == nil || h.back.isBool || h.init == nil {
				continue
			}
			if t := h.typ; t != nil {
				if e := elemOf(t); e == nil || !types.Identical(e.Underlying(), u8t) {
					continue
				}
			}
			q0, q1, qi := seqOf(rec.hd, h.sym, rec.hd.g), seqOf(rec.back, h.back, g), seqOf(rec.init, h.init, rec.init.g)
			if q0 == nil || q1 == nil || qi == nil {
				continue
			}
			part := splitAfter(q1, q0, g)
			if part == nil {
				continue
			}
			for _, idx := range idxs {
				e := seqIndex(src, idx.alts[0].l.lin, g, et)
				en := encs["p0["+E.linStr(idx.alts[0].l.lin)+"]"]
				if e == nil || en == nil {
					continue
				}
				out = append(out, &listEncode{er: er, rec: rec, acc: h, accQ: q0, part: part, idx: idx, elem: e, en: en, init: qi})
			}
		}
	}
	return er, out, encs
}

// checkListEncode decides the encoders of record and sub-record lists.
// part: "layout" (C04), "codes" (C05), "length" (C08), "errors" (C09), "pure" (C12).
func checkListEncode(r *Report, typ, elemTyp, part string) {
	p := r.w.pkg("libs/egts")
	sec := recordHeader()
	if typ == "RecordDataSet" {
		sec = subHeader()
	}
	r.sub(part, typ+".Encode", func() *Analysis {
		er, les, _ := runListEncode(r, p, typ, elemTyp, sec, part != "layout")
		where := r.w.posStr(er.fn.Pos())
		if part == "pure" {
			ok, d := unmodified(er.an, er.st, er.pre, er.st.g)
			r.add("Encode leaves the list unchanged", typ, ok, where, "changes "+d)
			ok, d = deterministic(er.an)
			r.add("Encode depends on the list only", typ, ok, where, d)
			r.add("the encoding is newly allocated", typ, freshSlices(er.an, tupleField(er.ret, 0, nil), er.ok), where, "the result shares memory with the list")
			return er.an
		}
		if len(les) == 0 {
			fail("no loop that appends the encoding of each element to the output")
		}
		et := p.Type(elemTyp).Type()
		var le *listEncode
		// the accumulator is the one that is returned
		for _, x := range les {
			if er.out != nil && seqEqUnder(er.ok, er.out, x.accQ) {
				le = x
				break
			}
		}
		if le == nil {
			r.add("the encoding consists of the encoded elements", typ, false, where, "another byte sequence is returned")
			return er.an
		}
		g := le.rec.back.g
		n := seqLen(textOf(er.pre, er.pre.load(er.recv, er.recv.alts[0].l.obj.typ), T))
		more := cmpGE(n, intAdd(le.idx, vConst(1), 1), T)
		// the nested encoding
		var body *Seq
		var blen, berr *Val
		present, known := T, T
		var code *Val
		kinds := map[string]B{}
		nestedRight := true
		switch typ {
		case "RecordDataSet":
			v, _ := elemField(le.elem, et, "SubrecordData", g)
			body, blen, berr = bodyOf(v)
			present = nonNil(v)
			ct, _ := elemField(le.elem, et, "SubrecordType", g)
			zero := eqConst(ct, 0)
			code = ct
			kn := F
			for tn, c := range subCodes() {
				k := isPtrTo(v, p, tn)
				kinds[tn] = E.And(zero, k)
				kn = E.Or(kn, k)
				code = mergeVal(E.And(zero, k), vConst(int64(c)), code)
			}
			known = E.Or(E.Not(zero), kn)
		case "ServiceDataSet":
			v, vt := elemField(le.elem, et, "RecordDataSet", g)
			want := textOf(er.pre, v, T)
			for _, e := range er.an.events {
				if e.kind != "call" || !strings.HasSuffix(e.name, "RecordDataSet).Encode") {
					continue
				}
				got := textOf(e.st, e.st.load(e.args[0], vt), e.g)
				if got == nil || want == nil || !seqEqUnder(e.g, got, want) {
					nestedRight = false
				}
				if !never(g, E.Not(e.g)) {
					continue
				}
				body = textOf(e.st, tupleField(e.res, 0, nil), e.g)
				berr = tupleField(e.res, 1, nil)
			}
			if body == nil {
				fail("no call of RecordDataSet.Encode on every iteration")
			}
			blen = seqLen(body)
		}
		small := cmpGE(vConst(65535), blen, T)
		good := E.And(present, known, errNil(berr), small)
		en := le.en
		lenBits := bitsOf(blen, 16, small)
		if typ == "RecordDataSet" {
			en.replace("SubrecordType", bitsOf(code, 8, T))
			en.replace("SubrecordLength", lenBits)
		} else {
			en.replace("RecordLength", lenBits)
		}
		exp := append([]Item(nil), en.out...)
		exp = append(exp, body.items...)
		gg := E.And(g, good)
		switch part {
		case "layout":
			r.add("in-range values are encoded", elemTyp, never(er.fail, good, more), where, "encoding fails for values within their ranges: "+E.bStr(E.And(er.fail, good, more)))
			r.add("encoded as laid out", elemTyp, E.feasible(gg) && seqEqUnder(gg, le.part, mkSeq(exp)), where, "an element is written as "+seqStr(le.part, 4)+" instead of "+seqStr(mkSeq(exp), 4))
			r.add("every element is encoded, in order", typ, never(er.ok, more), where, "encoding ends before the last element")
			r.add("the nested part is encoded from the element", elemTyp, nestedRight, where, "another record set is encoded")
			r.add("nothing is written before the first element", typ, never(le.rec.init.g, cmpGE(seqLen(le.init), vConst(1), T)), where, "the output does not start empty")
		case "codes":
			if typ != "RecordDataSet" {
				break
			}
			b := seqIndex(le.part, E.konst(0), g, u8t)
			for tn, c := range subCodes() {
				gk := E.And(g, kinds[tn])
				r.add("a section without a code gets its own", fmt.Sprintf("%s:%d", tn, c), E.feasible(gk) && eqUnder(gk, b, vConst(int64(c))), where, tn+" is written with code "+valStr(prune(b, gk)))
			}
			r.add("a given code is kept", elemTyp, eqUnder(E.And(g, en.flagOK), b, code), where, "another code is written: "+valStr(b))
			r.add("sections without a code are refused", elemTyp, never(g, E.Not(known)), where, "a section of unknown type is written")
		case "length":
			r.add("a part too long for its length field is refused", elemTyp, never(g, E.Not(small)), where, "the length wraps")
			off := int64(0)
			if typ == "RecordDataSet" {
				off = 1
			}
			gl := E.And(g, small)
			v := leInt([]*Val{seqIndex(le.part, E.konst(off), gl, u8t), seqIndex(le.part, E.konst(off+1), gl, u8t)})
			r.add("the length field is the length of the part", elemTyp, sameUint(gl, v, blen, 16), where, "is "+valStr(v))
			head := seqLen(mkSeq(en.out))
			gf := E.And(gl, en.flagOK)
			r.add("the announced bytes follow", elemTyp, eqUnder(gf, seqLen(le.part), intAdd(head, blen, 1)), where, "an element has "+valStr(seqLen(le.part))+" bytes")
			checkListLength(r, p, typ, er, where)
		case "errors":
			r.add("a failed nested part fails the whole", elemTyp, never(g, E.Not(errNil(berr))), where, "encoding goes on after the error")
			r.add("a missing nested part is an error", elemTyp, never(g, E.Not(present)), where, "an element without data is written")
			r.add("flags that are not binary digits are refused", elemTyp, never(g, E.Not(en.flagOK)), where, "a malformed flag is encoded without an error")
		}
		return er.an
	})
}

// checkListLength: Length is the size of what Encode returns for the same list.
func checkListLength(r *Report, p *ssa.Package, typ string, er *encodeRun, where string) {
	fn := r.w.method(p, typ, "Length")
	if fn == nil {
		fail("no method Length")
	}
	st := newState()
	enc := symSlice(u8t, "encoding of "+typ)
	e, failed := symErr("encoding of " + typ)
	er.an.hooks[er.fn.String()] = func(c *Call) *Val {
		if !eqUnder(c.st.g, c.args[0], er.recv) {
			return nil
		}
		return vTuple([]*Val{enc, e})
	}
	n := er.an.call(fn, []*Val{er.recv}, nil, st, "length:")
	delete(er.an.hooks, er.fn.String())
	want := sliceLen(enc)
	g := E.And(st.g, E.Not(failed), cmpGE(vConst(65535), want, T))
	r.add("Length equals the encoded size", typ, E.feasible(g) && sameUint(g, n, want, 16), where, "Length is "+valStr(n)+", the encoding has "+valStr(want)+" bytes")
}
