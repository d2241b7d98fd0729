package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loops over the records of a packet and over the sub-records of a record,
// and what they accumulate. A variable that a loop carries is related to the
// elements seen so far by an inductive argument: what it is before the first
// iteration, and what one generic iteration does to it.

// kinds of sub-records the receiver distinguishes.
const (
	seenPos = iota
	seenResp
	seenIdent
	nSeen
)

// elemLoop visits every element of a list in order.
type elemLoop struct {
	rec  *LoopRec
	pos  *Lin // number of the element
	elem *Val
	et   types.Type
	st   *State // state in which the element is read (list header)
}

// elemLoops finds the loops that visit every element of a list once and in
// order: they start at the first one, move on by one, and end only at the end
// (under the assumption g).
func elemLoops(loops []*LoopRec, list *Val, et types.Type, parent *LoopRec, g B) []*elemLoop {
	var out []*elemLoop
	for _, l := range loops {
		if l.back == nil || l.hd == nil || !inside(l, parent) {
			continue
		}
		n := sliceLen(list)
		for _, k := range l.order {
			h := l.havoc[k]
			if h.sym == nil || h.sym.isBool || h.back == nil || h.init == nil || len(h.sym.alts) != 1 || h.sym.alts[0].l.kind != KInt || len(h.path) != 0 {
				continue
			}
			c, ok := constInt(h.init)
			if !ok || !eqUnder(l.back.g, h.back, intAdd(h.sym, vConst(1), 1)) {
				continue
			}
			pos := E.addLin(h.sym.alts[0].l.lin, 1, E.konst(c), -1)
			more := cmpGE(n, intAdd(vInt(pos), vConst(1), 1), T)
			if !never(l.back.g, g, E.Not(more)) {
				continue
			}
			early := F
			for _, e := range l.exits {
				early = E.Or(early, E.And(e.st.g, more))
			}
			if !never(early, g) {
				continue
			}
			q := l.hd.sliceSeqG(list, l.hd.g)
			if q == nil {
				continue
			}
			out = append(out, &elemLoop{rec: l, pos: pos, elem: seqIndex(q, pos, E.And(l.hd.g, more), et), et: et, st: l.hd})
		}
	}
	return out
}

// inside: l is nested in parent (nil: any).
func inside(l, parent *LoopRec) bool {
	if parent == nil {
		return true
	}
	for p := l.parent; p != nil; p = p.parent {
		if p == parent {
			return true
		}
	}
	return false
}

// direct: no list loop between l and parent.
func (el *elemLoop) field(name string) *Val {
	v, _ := elemField(el.elem, el.et, name, T)
	return v
}

type predicate struct {
	name string
	f    func(v *Val) B
}

// predicates by which a carried variable can tell whether something was seen.
func predicatesOf(h *hvar) []predicate {
	t := h.typ.Underlying()
	switch x := t.(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			b := func(v *Val) B {
				if v.isBool {
					return v.b
				}
				return F
			}
			return []predicate{{"", b}, {"!", func(v *Val) B { return E.Not(b(v)) }}}
		case x.Info()&types.IsInteger != 0:
			return []predicate{{"nonzero ", func(v *Val) B { return E.Not(eqConst(v, 0)) }}, {"positive ", func(v *Val) B { return cmpGE(v, vConst(1), T) }}}
		case x.Info()&types.IsString != 0:
			return []predicate{{"nonempty ", func(v *Val) B {
				r := F
				for _, a := range v.alts {
					if a.l.kind == KStr {
						r = E.Or(r, E.And(a.g, cmpGE(seqLen(a.l.seq), vConst(1), T)))
					}
				}
				return r
			}}}
		}
	case *types.Slice:
		return []predicate{{"len ", func(v *Val) B { return cmpGE(sliceLen(v), vConst(1), T) }}}
	case *types.Interface, *types.Pointer:
		return []predicate{{"set ", nonNil}}
	}
	return nil
}

// recordLoop is a loop over the records of a packet with the loops over the
// sub-records of each record.
type recordLoop struct {
	*elemLoop
	subs []*elemLoop
	s    [nSeen]B // the record at hand contains such a sub-record
	c    B        // what the inner loops established at the end of a record
}

// folds collects what the loops over the records of one packet establish.
type folds struct {
	hr    *handlerRun
	dc    *decodeCall
	loops []*recordLoop
	seen  [nSeen]B // the packet contains such a sub-record
	c     B        // relation of the carried variables with seen
	flags []string
	asm   B // no encoding of an answer fails
}

// subKind is the condition that a sub-record is of the given kind.
func subKind(p *ssa.Package, el *elemLoop, kind int) B {
	data := el.field("SubrecordData")
	switch kind {
	case seenPos:
		return isPtrTo(data, p, "SrPosData")
	case seenResp:
		return isPtrTo(data, p, "SrResponse")
	}
	return E.Or(isPtrTo(data, p, "SrTermIdentity"), isPtrTo(data, p, "SrAuthInfo"))
}

// noEncodeFails: every answer could be encoded.
func (hr *handlerRun) noEncodeFails() B {
	g := T
	for _, e := range hr.encs {
		g = E.And(g, errNil(e.res.alts[0].l.fields[1]))
	}
	return g
}

func (hr *handlerRun) folds(dc *decodeCall) *folds {
	p := hr.egts
	f := &folds{hr: hr, dc: dc, c: T, asm: hr.noEncodeFails()}
	for k := range f.seen {
		f.seen[k] = E.newVar(fmt.Sprintf("seen%d@%s", k, dc.ev.key))
	}
	rt := p.Type("ServiceDataRecord").Type()
	st := p.Type("RecordData").Type()
	for _, o := range elemLoops(hr.an.loops, dc.sdsV, rt, hr.loop, f.asm) {
		rl := &recordLoop{elemLoop: o, c: T}
		rds := o.field("RecordDataSet")
		rl.subs = elemLoops(hr.an.loops, rds, st, o.rec, f.asm)
		for k := range rl.s {
			rl.s[k] = E.newVar(fmt.Sprintf("has%d@%s", k, o.rec.key))
		}
		for _, i := range rl.subs {
			f.inner(rl, i)
		}
		f.outer(rl)
		f.grown(rl)
		f.loops = append(f.loops, rl)
	}
	return f
}

// inner relates the variables carried by a loop over sub-records with the
// kinds of sub-records of the record.
func (f *folds) inner(rl *recordLoop, i *elemLoop) {
	l := i.rec
	var is [nSeen]B
	none := T
	for k := range is {
		is[k] = subKind(f.hr.egts, i, k)
		none = E.Diff(none, is[k])
	}
	g := E.And(l.back.g, f.asm)
	for _, key := range l.order {
		h := l.havoc[key]
		for _, p := range predicatesOf(h) {
			sym, back := p.f(h.sym), p.f(h.back)
			if sym == T || sym == F {
				continue
			}
			// never reset, and not set by any other kind
			if !never(g, sym, E.Not(back)) || !never(g, none, E.Not(sym), back) {
				continue
			}
			set, tracked := F, true
			for k := range is {
				switch {
				case never(g, is[k], E.Not(sym), back):
				case never(g, is[k], E.Not(back)):
					set = E.Or(set, rl.s[k])
				default:
					tracked = false
				}
			}
			if !tracked || set == F {
				continue
			}
			rl.c = E.And(rl.c, E.Iff(sym, E.Or(p.f(h.init), set)))
			f.flags = append(f.flags, l.key+":"+p.name+key)
		}
	}
}

// outer relates the variables carried by a loop over records with the kinds of
// sub-records of the packet.
func (f *folds) outer(rl *recordLoop) {
	l := rl.rec
	g := E.And(l.back.g, f.asm, rl.c)
	for _, key := range l.order {
		h := l.havoc[key]
		for _, p := range predicatesOf(h) {
			sym, back := p.f(h.sym), p.f(h.back)
			if sym == T || sym == F || !never(l.init.g, p.f(h.init)) {
				continue
			}
			set, all := F, F
			for k := range rl.s {
				only := T
				for j := range rl.s {
					if j != k {
						only = E.Diff(only, rl.s[j])
					}
				}
				if never(g, only, rl.s[k], E.Not(back)) {
					set, all = E.Or(set, rl.s[k]), E.Or(all, f.seen[k])
				}
			}
			if set == F || !never(g, E.Xor(back, E.Or(sym, set))) {
				continue
			}
			f.c = E.And(f.c, E.Iff(sym, all))
			f.flags = append(f.flags, l.key+":"+p.name+key)
		}
	}
}

// grown relates lists that get something in every iteration with the number of
// records.
func (f *folds) grown(rl *recordLoop) {
	l := rl.rec
	g := E.And(l.back.g, f.asm)
	for _, key := range l.order {
		h := l.havoc[key]
		if h.sym == nil || h.sym.isBool || h.back == nil {
			continue
		}
		if _, ok := h.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		if never(g, E.Not(nonNil(h.back))) {
			f.c = E.And(f.c, E.Imp(cmpGE(vInt(rl.pos), vConst(1), T), nonNil(h.sym)))
		}
	}
}

// listFold is a list built by a loop over records (and its inner loop).
type listFold struct {
	rl    *recordLoop
	h     *hvar // carried by the loop over records
	sub   *elemLoop
	hi    *hvar // carried by the loop over sub-records
	adds  *Seq  // what one iteration appends
	g     B     // when
	st    *State
	elemT types.Type
}

// carried finds the loop variable whose final value is v.
func carried(l *LoopRec, v *Val, g B) *hvar {
	for _, key := range l.order {
		h := l.havoc[key]
		if h.sym != nil && h.sym.isBool == v.isBool && eqUnder(g, v, h.sym) {
			return h
		}
	}
	return nil
}

// listOf explains the final value v (under g) as a list built by a loop over
// the records of the packet: empty before, and every iteration appends.
func (f *folds) listOf(v *Val, st *State, g B, perSub bool) (*listFold, string) {
	why := "it is not built by a loop over the records of the packet"
	for _, rl := range f.loops {
		h := carried(rl.rec, v, g)
		if h == nil && !perSub {
			if lf := f.filled(rl, v, st, g); lf != nil {
				return lf, ""
			}
		}
		if h == nil || len(h.sym.alts) != 1 || h.sym.alts[0].l.kind != KSlice {
			continue
		}
		lf := &listFold{rl: rl, h: h, elemT: elemOf(h.sym.alts[0].l.obj.typ)}
		if !never(rl.rec.init.g, cmpGE(sliceLen(h.init), vConst(1), T)) {
			why = "it is not empty before the first record"
			continue
		}
		if !perSub {
			lf.g, lf.st = rl.rec.back.g, rl.rec.back
			q0, q := seqOf(rl.rec.hd, h.sym, rl.rec.hd.g), seqOf(rl.rec.back, h.back, lf.g)
			if q0 == nil || q == nil {
				why = "its elements are unknown"
				continue
			}
			if lf.adds = splitAfter(q, q0, lf.g); lf.adds == nil {
				why = "earlier elements are changed"
				continue
			}
			return lf, ""
		}
		for _, i := range rl.subs {
			hi := carried(i.rec, h.back, rl.rec.back.g)
			if hi == nil {
				continue
			}
			if !eqUnder(i.rec.init.g, hi.init, h.sym) {
				why = "it does not continue the list of the records before"
				continue
			}
			lf.sub, lf.hi, lf.g, lf.st = i, hi, i.rec.back.g, i.rec.back
			q0, q := seqOf(i.rec.hd, hi.sym, i.rec.hd.g), seqOf(i.rec.back, hi.back, lf.g)
			if q0 == nil || q == nil {
				why = "its elements are unknown"
				continue
			}
			if lf.adds = splitAfter(q, q0, lf.g); lf.adds == nil {
				why = "earlier elements are changed"
				continue
			}
			return lf, ""
		}
	}
	return nil, why
}

// filled explains v as a list of as many elements as there are records, of
// which the iteration for a record sets the one with its number and no other.
func (f *folds) filled(rl *recordLoop, v *Val, st *State, g B) *listFold {
	v = prune(v, g)
	if v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KSlice {
		return nil
	}
	l := v.alts[0].l
	n := sliceLen(f.dc.sdsV)
	if !eqUnder(g, sliceLen(v), n) {
		return nil
	}
	for _, key := range rl.rec.order {
		h := rl.rec.havoc[key]
		if h.obj != l.obj || len(h.path) != 0 || h.sym == nil || h.back == nil || h.sym.isBool {
			continue
		}
		hd, back := rl.rec.hd, rl.rec.back
		q0, q := hd.sliceSeqG(v, hd.g), back.sliceSeqG(v, back.g)
		end := st.sliceSeqG(v, g)
		if q0 == nil || q == nil || end == nil || !eqUnder(hd.g, seqLen(q0), n) || !eqUnder(back.g, seqLen(q), n) || !seqEqUnder(g, end, q0) {
			continue
		}
		bg := back.g
		p := vInt(rl.pos)
		next := intAdd(p, vConst(1), 1)
		rest := intAdd(n, next, -1)
		if !seqEqUnder(bg, seqSlice(q, vConst(0), p, bg, u8t), seqSlice(q0, vConst(0), p, bg, u8t)) ||
			!seqEqUnder(bg, seqSlice(q, next, rest, bg, u8t), seqSlice(q0, next, rest, bg, u8t)) {
			continue
		}
		return &listFold{rl: rl, h: h, adds: seqSlice(q, p, vConst(1), bg, u8t), g: bg, st: back, elemT: elemOf(l.obj.typ)}
	}
	return nil
}

// scalarOf explains the final value v (under g) as a variable carried by a
// loop over the records: its value before, and the steps.
func (f *folds) scalarOf(v *Val, g B) (rl *recordLoop, h *hvar, i *elemLoop, hi *hvar) {
	for _, rl := range f.loops {
		h := carried(rl.rec, v, g)
		if h == nil {
			continue
		}
		for _, i := range rl.subs {
			hi := carried(i.rec, h.back, rl.rec.back.g)
			if hi != nil && eqUnder(i.rec.init.g, hi.init, h.sym) {
				return rl, h, i, hi
			}
		}
		return rl, h, nil, nil
	}
	return nil, nil, nil, nil
}
