package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decoders lists the types of the package with a method Decode([]byte).
func decoders(w *World, p *ssa.Package) []string {
	var out []string
	for _, n := range p.Pkg.Scope().Names() {
		if p.Type(n) == nil {
			continue
		}
		fn := w.method(p, n, "Decode")
		if fn == nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
			continue
		}
		if s, ok := fn.Params[1].Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem().Underlying(), u8t) {
			out = append(out, n)
		}
	}
	return out
}

// functions of the standard library that panic for some arguments.
var panicky = []string{"strings.Repeat", "bytes.Repeat", "regexp.MustCompile", "reflect.", "text/template.Must", "math/big.", "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n"}

// decodeAny analyses a Decode method on an arbitrary receiver and input.
func decodeAny(r *Report, p *ssa.Package, typ string) (an *Analysis, fn *ssa.Function, in *Seq, n *Val, st *State) {
	fn = r.w.method(p, typ, "Decode")
	an = start(r.w)
	codecBoundary(an, typ)
	hookSums(an, p)
	st = newState()
	recv := mkSym(fn.Params[0].Type(), "p0")
	arg := mkSym(fn.Params[1].Type(), "p1")
	in, n = st.sliceSeq(arg), sliceLen(arg)
	an.call(fn, []*Val{recv, arg}, nil, st, "")
	return
}

// checkNoPanic: no operation of the decoder can fail, for any receiver and input.
func checkNoPanic(r *Report, typ string) {
	p := r.w.pkg("libs/egts")
	r.sub("no panic", typ+".Decode", func() *Analysis {
		an, fn, _, _, _ := decodeAny(r, p, typ)
		obligations(r, an)
		r.add("the decoder is total", typ, true, r.w.posStr(fn.Pos()), "")
		for _, e := range an.events {
			switch e.kind {
			case "call":
				if len(e.args) > 0 && strings.HasSuffix(e.name, "Decode") {
					r.add("nested decoders get a receiver", eventTyp(e)+" in "+typ, never(e.g, E.Not(nonNil(e.args[0]))), r.w.posStr(e.pos), "called on nil")
				}
			}
		}
		return an
	})
}

// obligations decides every operation that may panic, met by an analysis.
func obligations(r *Report, an *Analysis) { obligationsBut(r, an, nil) }

// obligationsBut leaves out the ways to end the process that may accepts.
func obligationsBut(r *Report, an *Analysis, may func(*Event) bool) {
	name := func(e *Event) string { return short(e.fn.String()) }
	var safe [][2]string
	for k := range an.safe {
		safe = append(safe, k)
	}
	sort.Slice(safe, func(i, j int) bool { return safe[i][1]+safe[i][0] < safe[j][1]+safe[j][0] })
	for _, k := range safe {
		r.add("cannot fail: "+k[0], short(k[1]), true, r.w.posStr(an.safe[k]), "")
	}
	for _, e := range an.events {
		switch e.kind {
		case "oblig":
			bad := E.Diff(e.g, e.cond)
			r.add("cannot fail: "+e.name, name(e), never(bad), r.w.posStr(e.pos), "possible when "+E.bStr(bad))
		case "exit":
			if may != nil && may(e) {
				continue
			}
			r.add("cannot end the process", name(e), never(e.g), r.w.posStr(e.pos), "calls "+e.name)
		case "ext":
			for _, x := range panicky {
				if strings.HasPrefix(e.name, x) {
					r.add("cannot fail: "+e.name, name(e), never(e.g), r.w.posStr(e.pos), "may panic")
				}
			}
		}
	}
}

// ranked: some quantity strictly falls in each iteration and is bounded below.
func ranked(rec *LoopRec, n *Val) bool {
	if rec.back == nil || never(rec.back.g) {
		return true // no second iteration
	}
	g := rec.back.g
	for _, k := range rec.order {
		h := rec.havoc[k]
		if h.sym == nil || h.back == nil || h.sym.isBool || h.back.isBool || len(h.sym.alts) != 1 {
			continue
		}
		switch h.sym.alts[0].l.kind {
		case KInt:
			ok := true
			for _, a := range h.back.alts {
				if ga := E.And(g, a.g); E.feasible(ga) && a.l.kind != KInt {
					ok = false
				}
			}
			if !ok {
				continue
			}
			if never(g, E.Not(cmpGE(h.back, intAdd(h.sym, vConst(1), 1), g))) {
				for _, lim := range []*Val{n, vConst(70000)} {
					if lim != nil && never(g, E.Not(cmpGE(lim, h.sym, g))) {
						return true
					}
				}
			}
			if never(g, E.Not(cmpGE(intAdd(h.sym, vConst(1), -1), h.back, g))) && never(g, E.Not(cmpGE(h.sym, vConst(0), g))) {
				return true
			}
		case KSlice, KStr, KArr:
			q0, q1 := seqOf(rec.hd, h.sym, rec.hd.g), seqOf(rec.back, h.back, g)
			if q0 == nil || q1 == nil {
				continue
			}
			if never(g, E.Not(cmpGE(intAdd(seqLen(q0), vConst(1), -1), seqLen(q1), g))) {
				return true
			}
		}
	}
	return false
}

// checkBounded: loops make progress, nested data shrinks, allocations are small.
func checkBounded(r *Report, typ string) {
	p := r.w.pkg("libs/egts")
	r.sub("bounded", typ+".Decode", func() *Analysis {
		an, fn, _, n, _ := decodeAny(r, p, typ)
		where := r.w.posStr(fn.Pos())
		r.add("the decoder returns", typ, true, where, "")
		loopsAndAllocs(r, an, typ, n, where)
		checkNestedSmaller(r, &sectionRun{n: n}, nestedCalls(an), typ)
		return an
	})
}

// loopsAndAllocs: every loop makes progress, every allocation is small.
func loopsAndAllocs(r *Report, an *Analysis, typ string, n *Val, where string) {
	for i, rec := range an.loops {
		pos := where
		if rec.fn != nil {
			pos = r.w.posStr(rec.fn.Pos())
		}
		r.add("each iteration makes progress", fmt.Sprintf("%s loop %d of %s", typ, i, short(rec.fn.String())), ranked(rec, n), pos, "no quantity shrinks in each iteration")
	}
	for _, e := range an.events {
		if e.kind != "alloc" {
			continue
		}
		c := e.args[0]
		size := int64(1)
		if e.typ != nil {
			size = max(1, types.SizesFor("gc", "amd64").Sizeof(e.typ))
		}
		// a list may get room for as many elements as the input can hold: a record takes
		// 7 bytes of input and about 20 times as much in memory
		per := intAdd(vConst(0), n, 32)
		big := E.Not(E.Or(cmpGE(vConst(65536/size), c, e.g), cmpGE(per, intAdd(vConst(0), c, size), e.g)))
		r.add("allocations are bounded", typ+" in "+short(e.fn.String()), never(e.g, big), r.w.posStr(e.pos), "allocates "+valStr(c)+" elements")
	}
}

// checkDecodeAlias: a decoder leaves its input alone and keeps no reference to it.
func checkDecodeAlias(r *Report, typ string) {
	p := r.w.pkg("libs/egts")
	r.sub("alias", typ+".Decode", func() *Analysis {
		fn := r.w.method(p, typ, "Decode")
		an := start(r.w)
		codecBoundary(an, typ)
		hookSums(an, p)
		st := newState()
		recv := mkSym(fn.Params[0].Type(), "p0")
		arg := mkSym(fn.Params[1].Type(), "p1")
		in := arg.alts[0].l.obj
		q0 := st.sliceSeq(arg)
		an.call(fn, []*Val{recv, arg}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		ok := untouched(r, an, in, &where)
		if q := st.sliceSeq(arg); !seqEqUnder(st.g, q, q0) {
			ok = false
		}
		r.add("the decoder does not write to its input", typ, ok, where, "the input is changed")
		shared := reaches(st, st.content(recv.alts[0].l.obj), in, st.g, map[*Obj]bool{})
		r.add("decoded values share no memory with the input", typ, !shared, where, "a decoded value refers to the input buffer")
		return an
	})
}

// untouched: nothing is stored into the object.
func untouched(r *Report, an *Analysis, in *Obj, where *string) bool {
	ok := true
	for _, e := range an.events {
		if (e.kind == "havoc" || e.kind == "store") && len(e.args) > 0 && e.args[0] != nil && !e.args[0].isBool {
			for _, a := range e.args[0].alts {
				if a.l.obj == in && E.feasible(E.And(e.g, a.g)) {
					ok = false
					*where = r.w.posStr(e.pos)
				}
			}
		}
	}
	return ok
}

// checkSumsAlias: a checksum function leaves its input alone.
func checkSumsAlias(r *Report, p *ssa.Package) {
	for _, fn := range sums(p) {
		r.sub("alias", fn.Name(), func() *Analysis {
			an, arg, _, _ := sumAny(r, fn)
			where := r.w.posStr(fn.Pos())
			ok := untouched(r, an, arg.alts[0].l.obj, &where)
			r.add("the checksum does not write to its input", fn.Name(), ok, where, "the input is changed")
			return an
		})
	}
}

// checkSumsTotal: a checksum function cannot fail.
func checkSumsTotal(r *Report, p *ssa.Package) {
	for _, fn := range sums(p) {
		r.sub("no panic", fn.Name(), func() *Analysis {
			an, _, _, _ := sumAny(r, fn)
			obligations(r, an)
			r.add("the checksum is total", fn.Name(), true, r.w.posStr(fn.Pos()), "")
			return an
		})
	}
}

// checkSumsBounded: a checksum function ends and allocates little.
func checkSumsBounded(r *Report, p *ssa.Package) {
	for _, fn := range sums(p) {
		r.sub("bounded", fn.Name(), func() *Analysis {
			an, _, n, _ := sumAny(r, fn)
			loopsAndAllocs(r, an, fn.Name(), n, r.w.posStr(fn.Pos()))
			return an
		})
	}
}

// reaches: the value refers to memory of the object.
func reaches(st *State, v *Val, o *Obj, g B, seen map[*Obj]bool) bool {
	if v == nil || v.isBool {
		return false
	}
	for _, a := range v.alts {
		ga := E.And(g, a.g)
		if ga == F {
			continue
		}
		l := a.l
		switch l.kind {
		case KPtr, KSlice:
			if l.obj == o {
				return E.feasible(ga)
			}
			if l.obj == nil || seen[l.obj] {
				continue
			}
			seen[l.obj] = true
			if c, ok := st.heap[l.obj]; ok && reaches(st, c, o, ga, seen) {
				return true
			}
		case KIface:
			if reaches(st, l.val, o, ga, seen) {
				return true
			}
		case KStruct, KTuple:
			for _, f := range l.fields {
				if reaches(st, f, o, ga, seen) {
					return true
				}
			}
		case KArr, KStr:
			for i := range l.seq.items {
				if it := &l.seq.items[i]; it.k == IVal && reaches(st, it.val, o, E.And(ga, it.g), seen) {
					return true
				}
			}
		case KTerm, KFunc:
			for _, f := range l.args {
				if reaches(st, f, o, ga, seen) {
					return true
				}
			}
		}
	}
	return false
}
