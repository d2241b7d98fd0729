package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// failure of the analysis itself (unsupported construct, lost precision
// that makes an obligation undecidable).
type analysisFailure struct{ msg string }

func fail(msg string) { panic(analysisFailure{msg}) }

// State is the abstract state at one program point: the guard under which
// the point is reached, the SSA values and the contents of memory.
type State struct {
	g      B
	env    map[ssa.Value]*Val
	heap   map[*Obj]*Val
	defers []*deferred
	from   *ssa.BasicBlock // edge source, for phis
}

type deferred struct {
	id   string
	g    B
	call *ssa.CallCommon
	pos  ssa.Instruction
	fn   *Val
	args []*Val
}

func (s *State) clone() *State {
	n := &State{g: s.g, env: make(map[ssa.Value]*Val, len(s.env)+8), heap: make(map[*Obj]*Val, len(s.heap)+8), from: s.from}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.defers = append([]*deferred(nil), s.defers...)
	return n
}

func (s *State) content(o *Obj) *Val {
	if v, ok := s.heap[o]; ok {
		return v
	}
	return objInit(o)
}

// ---- merging ----

func mergeStates(ss []*State) *State {
	if len(ss) == 0 {
		return nil
	}
	acc := ss[0]
	for _, s := range ss[1:] {
		acc = merge2(acc, s)
	}
	return acc
}

func merge2(a, b *State) *State {
	g := E.Or(a.g, b.g)
	c := E.Restrict(a.g, g)
	if a.g == F {
		return b
	}
	if b.g == F {
		return a
	}
	out := &State{g: g, env: map[ssa.Value]*Val{}, heap: map[*Obj]*Val{}}
	m := &merger{a, b, out}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			if k.init == nil && k.localAlloc {
				out.heap[k] = v
				continue
			}
			w = objInit(k)
		}
		if v == w {
			out.heap[k] = v
		}
	}
	for k := range b.heap {
		if _, ok := a.heap[k]; !ok && k.localAlloc {
			out.heap[k] = b.heap[k]
		}
	}
	// differing contents: merged after the identical ones are in place
	var diff []*Obj
	seen := map[*Obj]bool{}
	for _, h := range []map[*Obj]*Val{a.heap, b.heap} {
		for k := range h {
			if _, ok := out.heap[k]; !ok && !seen[k] {
				seen[k] = true
				diff = append(diff, k)
			}
		}
	}
	sortObjs(diff)
	for _, k := range diff {
		out.heap[k] = m.val(c, a.content(k), b.content(k))
	}
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			continue
		}
		if v == w {
			out.env[k] = v
		} else {
			out.env[k] = m.val(c, v, w)
		}
	}
	// deferred calls
	out.defers = mergeDefers(a, b)
	return out
}

func mergeDefers(a, b *State) []*deferred {
	var out []*deferred
	i := 0
	for i < len(a.defers) && i < len(b.defers) && a.defers[i] == b.defers[i] {
		out = append(out, a.defers[i])
		i++
	}
	for _, d := range a.defers[i:] {
		e := *d
		e.g = E.And(d.g, a.g)
		out = append(out, &e)
	}
	for _, d := range b.defers[i:] {
		e := *d
		e.g = E.And(d.g, b.g)
		out = append(out, &e)
	}
	return out
}

func sortObjs(os []*Obj) {
	for i := 1; i < len(os); i++ {
		for j := i; j > 0 && os[j].id < os[j-1].id; j-- {
			os[j], os[j-1] = os[j-1], os[j]
		}
	}
}

type merger struct{ a, b, out *State }

// val merges two values like mergeVal, but joins growing slices.
func (m *merger) val(c B, x, y *Val) *Val {
	if x == y || x == nil || y == nil {
		return mergeVal(c, x, y)
	}
	if x.isBool || y.isBool {
		return mergeVal(c, x, y)
	}
	if len(x.alts) == 1 && len(y.alts) == 1 {
		p, q := x.alts[0].l, y.alts[0].l
		if p.kind == q.kind {
			switch p.kind {
			case KStruct, KTuple:
				if len(p.fields) == len(q.fields) {
					fs := make([]*Val, len(p.fields))
					for i := range fs {
						fs[i] = m.val(c, p.fields[i], q.fields[i])
					}
					if p.kind == KStruct {
						return vStruct(fs)
					}
					return vTuple(fs)
				}
			}
		}
	}
	isS := func(v *Val) bool {
		for _, a := range v.alts {
			if a.l.kind != KSlice && a.l.kind != KNil {
				return false
			}
		}
		return true
	}
	if isS(x) && isS(y) {
		return joinSlices(mergeVal(c, x, y), m.out, m.a, m.b)
	}
	return mergeVal(c, x, y)
}

// joinSlices replaces several append results by one object with guarded content.
func joinSlices(v *Val, out *State, srcs ...*State) *Val {
	n := 0
	for _, a := range v.alts {
		if joinable(a.l) {
			n++
		}
	}
	if n < 2 {
		return v
	}
	find := func(o *Obj) *Val {
		for _, s := range srcs {
			if c, ok := s.heap[o]; ok {
				return c
			}
		}
		return objInit(o)
	}
	var alts []Alt
	var seq *Seq
	var gs B = F
	key := "join"
	var typ types.Type
	var nAlts []Alt
	for _, a := range v.alts {
		if !joinable(a.l) {
			alts = append(alts, a)
			continue
		}
		content := find(a.l.obj)
		s := arrSeq(content, T)
		if s == nil {
			return v
		}
		key += fmt.Sprintf("|%d:%d", a.g, a.l.id)
		typ = a.l.obj.typ
		if seq == nil {
			seq = s
		} else {
			seq = mergeSeq(E.Restrict(gs, E.Or(gs, a.g)), seq, s)
		}
		gs = E.Or(gs, a.g)
		for _, x := range a.l.n.alts {
			nAlts = append(nAlts, Alt{E.And(a.g, x.g), x.l})
		}
	}
	o := symObj(key, typ)
	o.app, o.localAlloc = true, true
	out.heap[o] = vArr(seq)
	ln := restrictVal(mkVal(nAlts), gs)
	cp := vInt(E.linAtom(E.atom(fmt.Sprintf("cap(join%d)", o.id), 0, 1<<40)))
	sl := vSlice(o, vConst(0), ln, cp)
	alts = append(alts, Alt{gs, sl.alts[0].l})
	if gs == T || len(alts) == 1 {
		return sl
	}
	return mkVal(alts)
}

func joinable(l *Leaf) bool {
	if l.kind != KSlice || !l.obj.app || len(l.path) != 0 {
		return false
	}
	z, ok := constInt(l.off)
	return ok && z == 0
}

func arrSeq(v *Val, g B) *Seq {
	v = prune(v, g)
	if v == nil || v.isBool {
		return nil
	}
	if len(v.alts) == 1 && v.alts[0].l.kind == KArr {
		return v.alts[0].l.seq
	}
	var seq *Seq
	gs := F
	for _, a := range v.alts {
		if a.l.kind != KArr {
			return nil
		}
		if seq == nil {
			seq = a.l.seq
		} else {
			seq = mergeSeq(E.Restrict(gs, E.Or(gs, a.g)), seq, a.l.seq)
		}
		gs = E.Or(gs, a.g)
	}
	return seq
}

// ---- memory access ----

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// readPath follows a path into a value.
func readPath(v *Val, t types.Type, path []PE, g B) *Val {
	for len(path) > 0 {
		v = prune(v, g)
		pe := path[0]
		path = path[1:]
		if pe.idx != nil {
			et := elemOf(t)
			s := arrSeq(v, g)
			if s == nil {
				fail("element access to a value that is not an array: " + valStr(v))
			}
			v = seqIndex(s, pe.idx, g, et)
			t = et
		} else {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				fail("field access to " + t.String())
			}
			ft := st.Field(pe.field).Type()
			v = fieldOf(v, pe.field, ft, g)
			t = ft
		}
	}
	return v
}

func fieldOf(v *Val, i int, ft types.Type, g B) *Val {
	v = prune(v, g)
	if v.isBool {
		fail("field of a boolean")
	}
	var acc *Val
	gs := F
	for _, a := range v.alts {
		var f *Val
		switch a.l.kind {
		case KStruct:
			f = a.l.fields[i]
		case KTerm, KTime:
			f = mkSym(ft, fmt.Sprintf("%s.%d", leafStr(a.l, 6), i))
		default:
			fail("field of " + leafStr(a.l, 3))
		}
		if acc == nil {
			acc = f
		} else {
			acc = mergeVal(E.Restrict(gs, E.Or(gs, a.g)), acc, f)
		}
		gs = E.Or(gs, a.g)
	}
	return acc
}

func writePath(v *Val, t types.Type, path []PE, nv *Val, g B) *Val {
	if len(path) == 0 {
		return nv
	}
	pe := path[0]
	if pe.idx != nil {
		et := elemOf(t)
		s := arrSeq(v, g)
		if s == nil {
			fail("element store to a value that is not an array")
		}
		if len(path) > 1 {
			nv = writePath(seqIndex(s, pe.idx, g, et), et, path[1:], nv, g)
		}
		return vArr(seqUpdate(s, pe.idx, nv, g, et))
	}
	st := t.Underlying().(*types.Struct)
	var out *Val
	gs := F
	v2 := prune(v, g)
	for _, a := range v2.alts {
		var fs []*Val
		switch a.l.kind {
		case KStruct:
			fs = append([]*Val(nil), a.l.fields...)
		default:
			fs = make([]*Val, st.NumFields())
			for i := range fs {
				fs[i] = fieldOf(one(a.l), i, st.Field(i).Type(), g)
			}
		}
		fs[pe.field] = writePath(fs[pe.field], st.Field(pe.field).Type(), path[1:], nv, g)
		w := vStruct(fs)
		if out == nil {
			out = w
		} else {
			out = mergeVal(E.Restrict(gs, E.Or(gs, a.g)), out, w)
		}
		gs = E.Or(gs, a.g)
	}
	return out
}

func seqUpdate(s *Seq, idx *Lin, nv *Val, g B, elem types.Type) *Seq {
	pre, post, ok := seqSplit(s.items, idx, g)
	if ok {
		_, rest, ok2 := seqSplit(post, E.konst(1), g)
		if ok2 {
			items := append(append([]Item(nil), pre...), Item{g: T, k: IVal, val: nv})
			return mkSeq(append(items, rest...))
		}
	}
	// variable index into a short sequence: every element may change
	if es, ok := seqBytes(s); ok && len(es) <= 64 {
		var items []Item
		for i, e := range es {
			c := E.EqLin(idx, E.konst(int64(i)))
			items = append(items, Item{g: T, k: IVal, val: mergeVal(c, nv, e)})
		}
		return mkSeq(items)
	}
	if r := seqByCase(s, g, func(q *Seq, cg B) *Seq { return seqUpdate(q, idx, nv, cg, elem) }); r != nil {
		return r
	}
	if q := seqFlat(s, g, elem); q != nil && q != s {
		return seqUpdate(q, idx, nv, g, elem)
	}
	n := seqLen(s)
	src := newSrc(fmt.Sprintf("upd(q%d,%s,v%d)", s.id, E.linStr(idx), nv.id), elem)
	if len(n.alts) != 1 {
		fail("store at an unknown position of a sequence of varying length")
	}
	return mkSeq([]Item{{g: T, k: ISub, src: src, off: E.konst(0), n: n.alts[0].l.lin}})
}

// seqByCase splits a sequence whose items are under different guards into the
// cases these guards distinguish (nil if there are none or too many).
func seqByCase(s *Seq, g B, f func(*Seq, B) *Seq) *Seq {
	type part struct {
		g B
		q *Seq
	}
	var parts []part
	var split func(items []Item, g B) bool
	split = func(items []Item, g B) bool {
		out := make([]Item, 0, len(items))
		for i := range items {
			it := items[i]
			switch {
			case it.g == T:
			case E.And(g, it.g) == F:
				continue
			case E.Diff(g, it.g) == F:
				it.g = T
			default:
				return split(items, E.And(g, it.g)) && split(items, E.Diff(g, it.g))
			}
			out = append(out, it)
		}
		if len(parts) > 8 {
			return false
		}
		if E.feasible(g) {
			parts = append(parts, part{g, mkSeq(out)})
		}
		return true
	}
	if !split(s.items, g) || len(parts) < 2 {
		return nil
	}
	r := f(parts[len(parts)-1].q, parts[len(parts)-1].g)
	for i := len(parts) - 2; i >= 0; i-- {
		r = mergeSeq(E.Restrict(parts[i].g, g), f(parts[i].q, parts[i].g), r)
	}
	return r
}

// seqFlat is a sequence with the same short length in all cases, element by
// element (nil if there is no such length).
func seqFlat(s *Seq, g B, elem types.Type) *Seq {
	n, ok := constInt(prune(seqLen(s), g))
	if !ok || n <= 0 || n > 64 {
		return nil
	}
	var items []Item
	for i := int64(0); i < n; i++ {
		items = append(items, Item{g: T, k: IVal, val: prune(seqIndex(s, E.konst(i), g, elem), g)})
	}
	return mkSeq(items)
}

// seqSplice overwrites n elements at off.
func seqSplice(s *Seq, off, n *Lin, items []Item, g B, elem types.Type) *Seq {
	pre, post, ok := seqSplit(s.items, off, g)
	if ok {
		_, rest, ok2 := seqSplit(post, n, g)
		if ok2 {
			out := append(append([]Item(nil), pre...), items...)
			return mkSeq(append(out, rest...))
		}
	}
	ln := seqLen(s)
	if len(ln.alts) == 1 {
		end := E.addLin(off, 1, n, 1)
		l := ln.alts[0].l.lin
		if !E.feasible(E.Diff(g, E.GE0(E.addLin(l, 1, end, -1)))) {
			var out []Item
			if !(off.isConst() && off.c == 0) {
				out = append(out, seqSlice1(s, E.konst(0), off, g, elem)...)
			}
			out = append(out, items...)
			if d := E.addLin(l, 1, end, -1); !(d.isConst() && d.c == 0) {
				out = append(out, seqSlice1(s, end, d, g, elem)...)
			}
			return mkSeq(out)
		}
	}
	if len(ln.alts) != 1 {
		if r := seqByCase(s, g, func(q *Seq, cg B) *Seq { return seqSplice(q, off, n, items, cg, elem) }); r != nil {
			return r
		}
		if q := seqFlat(s, g, elem); q != nil && q != s {
			return seqSplice(q, off, n, items, g, elem)
		}
		fail("copy to an unknown position of a sequence of varying length: " + seqStr(s, 3) + " at " + E.linStr(off) + " n " + E.linStr(n) + " under " + E.bStr(g))
	}
	src := newSrc(fmt.Sprintf("splice(q%d,%s,q%d)", s.id, E.linStr(off), mkSeq(items).id), elem)
	return mkSeq([]Item{{g: T, k: ISub, src: src, off: E.konst(0), n: ln.alts[0].l.lin}})
}

func (s *State) load(p *Val, t types.Type) *Val {
	p = prune(p, s.g)
	var acc *Val
	gs := F
	for _, a := range p.alts {
		if a.l.kind == KNil {
			continue
		}
		var v *Val
		switch a.l.kind {
		case KPtr:
			v = readPath(s.content(a.l.obj), a.l.obj.typ, a.l.path, E.And(s.g, a.g))
		case KTerm:
			v = mkSym(t, "*"+leafStr(a.l, 6))
		default:
			fail("load through " + leafStr(a.l, 3))
		}
		if acc == nil {
			acc = v
		} else {
			m := &merger{s, s, s}
			acc = m.val(E.Restrict(gs, E.Or(gs, a.g)), acc, v)
		}
		gs = E.Or(gs, a.g)
	}
	if acc == nil {
		return mkSym(t, "undef")
	}
	return clearGuard(acc, s.g)
}

func (s *State) store(p, v *Val) {
	p = prune(p, s.g)
	for _, a := range p.alts {
		switch a.l.kind {
		case KNil:
			continue
		case KPtr:
			o := a.l.obj
			old := s.content(o)
			ga := E.And(s.g, a.g)
			if ga == F {
				continue
			}
			nv := writePath(old, o.typ, a.l.path, v, ga)
			c := E.Restrict(a.g, s.g)
			if c != T {
				m := &merger{s, s, s}
				nv = m.val(c, nv, old)
			}
			s.heap[o] = nv
		case KTerm:
			// memory outside of the model
		default:
			fail("store through " + leafStr(a.l, 3))
		}
	}
}

// sliceSeq is the content of a slice value under the current guard.
func (s *State) sliceSeq(v *Val) *Seq { return s.sliceSeqG(v, s.g) }

func (s *State) sliceSeqG(v *Val, g B) *Seq {
	v = prune(v, g)
	if v.isBool {
		fail("slice content of a boolean")
	}
	var seq *Seq
	gs := F
	for _, a := range v.alts {
		var q *Seq
		switch a.l.kind {
		case KNil:
			q = mkSeq(nil)
		case KSlice:
			cont := s.content(a.l.obj)
			t := a.l.obj.typ
			if len(a.l.path) > 0 {
				cont = readPath(cont, t, a.l.path, g)
				t = pathType(t, a.l.path)
			}
			base := arrSeq(cont, E.And(g, a.g))
			if base == nil {
				fail("slice of a value that is not an array: " + valStr(cont))
			}
			q = seqSlice(base, a.l.off, a.l.n, E.And(g, a.g), elemOf(t))
		case KStr:
			q = a.l.seq
		case KTerm:
			et := elemOf(a.l.typ)
			q = arrSeq(objInit(symSlice(et, leafStr(a.l, 6)).alts[0].l.obj), T)
		default:
			fail("slice content of " + leafStr(a.l, 3))
		}
		if seq == nil {
			seq = q
		} else {
			seq = mergeSeq(E.Restrict(gs, E.Or(gs, a.g)), seq, q)
		}
		gs = E.Or(gs, a.g)
	}
	if seq == nil {
		return mkSeq(nil)
	}
	return seq
}

func pathType(t types.Type, path []PE) types.Type {
	for _, p := range path {
		if p.idx != nil {
			t = elemOf(t)
		} else {
			t = t.Underlying().(*types.Struct).Field(p.field).Type()
		}
	}
	return t
}

func sliceLen(v *Val) *Val {
	if v.isBool {
		fail("length of a boolean")
	}
	var alts []Alt
	for _, a := range v.alts {
		switch a.l.kind {
		case KNil:
			alts = append(alts, Alt{a.g, lInt(E.konst(0))})
		case KSlice:
			for _, x := range a.l.n.alts {
				alts = append(alts, Alt{E.And(a.g, x.g), x.l})
			}
		case KStr, KArr:
			for _, x := range seqLen(a.l.seq).alts {
				alts = append(alts, Alt{E.And(a.g, x.g), x.l})
			}
		default:
			alts = append(alts, Alt{a.g, lInt(E.linAtom(E.atom("len("+leafStr(a.l, 6)+")", 0, 1<<31)))})
		}
	}
	return mkVal(alts)
}

func newSliceObj(key string, elem types.Type, seq *Seq, st *State) *Obj {
	o := symObj(key, types.NewSlice(elem))
	o.app, o.localAlloc = true, true
	st.heap[o] = vArr(seq)
	return o
}

func freshSlice(key string, elem types.Type, seq *Seq, st *State) *Val {
	o := newSliceObj(key, elem, seq, st)
	n := restrictVal(seqLen(seq), st.g)
	return vSlice(o, vConst(0), n, intAdd(n, vInt(E.linAtom(E.atom(fmt.Sprintf("room(%d)", o.id), 0, 1<<40))), 1))
}

// symErr is a possibly nil error.
func symErr(name string) (*Val, B) {
	b := E.newVar("fails:" + name)
	return mkVal([]Alt{{b, vErr("err:" + name).alts[0].l}, {E.Not(b), lNil()}}), b
}

func short(s string) string {
	s = strings.ReplaceAll(s, "github.com/ElectroUnion/egts-gate/", "")
	return s
}
