package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an effect, a boundary call or a proof obligation met on the way.
type Event struct {
	kind  string // call, go, store, oblig, exit, alloc
	name  string
	fn    *ssa.Function
	pos   token.Pos
	g     B
	cond  B // obligations: must hold under g
	args  []*Val
	recv  *Val
	res   *Val
	st    *State // memory at the time of the event (before its effects)
	after *State
	loops []*LoopRec
	key   string // identity of the call site in its context
	seq   int
	typ   types.Type
	held  B // stores and loads: a lock of shared memory is held
}

// LoopRec describes one loop analysed by a generic iteration.
type LoopRec struct {
	fn     *ssa.Function
	head   *ssa.BasicBlock
	key    string
	init   *State           // state on entry (phis bound to their initial values)
	hd     *State           // generic iteration: state at the header
	back   *State           // state after one iteration
	havoc  map[string]*hvar // places that change
	order  []string
	parent *LoopRec
	exits  []edge
	evLo   int
	evHi   int
}

type hvar struct {
	key  string
	phi  *ssa.Phi
	obj  *Obj
	path []PE
	typ  types.Type
	init *Val
	sym  *Val
	back *Val
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type Analysis struct {
	w        *World
	boundary func(fn *ssa.Function) bool
	events   []*Event
	loops    []*LoopRec
	stack    []*ssa.Function
	loopCtx  []*LoopRec
	nInstr   int
	funcs    map[*ssa.Function]bool
	calls    int
	hooks    map[string]func(c *Call) *Val
	maxDepth int
	inInit   bool
	// the analysed functions called at the boundary do not write to their input
	keepInput bool
	// interfaces of this type are never nil when their methods are called
	nonNilIface string
	flags       []flagVar
	ranges      []*rangeStep
	// operations that cannot fail because the path condition says so
	safe map[[2]string]token.Pos
	// the connections behind buffered readers
	readers map[*Obj]*Leaf
}

func newAnalysis(w *World) *Analysis {
	return &Analysis{w: w, funcs: map[*ssa.Function]bool{}, hooks: map[string]func(c *Call) *Val{}, safe: map[[2]string]token.Pos{}, readers: map[*Obj]*Leaf{}, maxDepth: 40}
}

type Frame struct {
	an    *Analysis
	fn    *ssa.Function
	ctx   string
	rets  []*State
	loops map[*ssa.BasicBlock]*loopInfo
	// constant exit decisions of the current unrolled iteration, per loop
	decided map[*ssa.BasicBlock]bool
	iter    string
}

type loopInfo struct {
	head    *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := out[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = l
				}
				l.latches = append(l.latches, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return out
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			visit(b.Succs[i])
		}
		out = append(out, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (an *Analysis) event(e *Event) *Event {
	e.seq = len(an.events)
	e.loops = append([]*LoopRec(nil), an.loopCtx...)
	an.events = append(an.events, e)
	return e
}

func (fr *Frame) oblig(st *State, ins ssa.Instruction, name string, cond B) {
	if E.Diff(st.g, cond) == F {
		fr.an.safe[[2]string{name, fr.fn.String()}] = posOf(ins)
		return
	}
	e := fr.an.event(&Event{kind: "oblig", name: name, fn: fr.fn, pos: posOf(ins), g: st.g, cond: cond, key: fr.site(ins)})
	_ = e
	st.g = E.And(st.g, cond)
}

func posOf(ins ssa.Instruction) token.Pos {
	if ins.Pos() != token.NoPos {
		return ins.Pos()
	}
	for _, o := range ins.Operands(nil) {
		if *o != nil && (*o).Pos() != token.NoPos {
			return (*o).Pos()
		}
	}
	return ins.Parent().Pos()
}

func (fr *Frame) site(ins ssa.Instruction) string {
	b := ins.Block()
	idx := 0
	for i, x := range b.Instrs {
		if x == ins {
			idx = i
		}
	}
	return fmt.Sprintf("%s%s/%s.%d.%d", fr.ctx, fr.iter, fr.fn.Name(), b.Index, idx)
}

// call interprets fn; the result is a single value (a tuple for several).
func (an *Analysis) call(fn *ssa.Function, args, binds []*Val, st *State, ctx string) *Val {
	if len(fn.Blocks) == 0 {
		fail("no body for " + fn.String())
	}
	if len(an.stack) > an.maxDepth {
		fail("call depth exceeded at " + fn.String())
	}
	for _, f := range an.stack {
		if f == fn {
			fail("recursive call of " + fn.String())
		}
	}
	an.stack = append(an.stack, fn)
	defer func() { an.stack = an.stack[:len(an.stack)-1] }()
	an.funcs[fn] = true
	fr := &Frame{an: an, fn: fn, ctx: ctx, loops: findLoops(fn), decided: map[*ssa.BasicBlock]bool{}}
	cs := &State{g: st.g, env: map[ssa.Value]*Val{}, heap: st.heap}
	cs = cs.clone()
	for i, p := range fn.Params {
		cs.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		cs.env[p] = binds[i]
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	fr.region(all, fn.Blocks[0], cs)
	m := mergeStates(fr.rets)
	if m == nil {
		st.g = F
		return zeroResult(fn.Signature)
	}
	st.g, st.heap = m.g, m.heap
	return m.env[fn]
}

func zeroResult(sig *types.Signature) *Val {
	switch sig.Results().Len() {
	case 0:
		return vNil()
	case 1:
		return zeroVal(sig.Results().At(0).Type())
	}
	return zeroVal(sig.Results())
}

// region executes the blocks of a region (acyclic except for inner loops and
// edges back to its head).
func (fr *Frame) region(blocks map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, entry *State) (backs, exits []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	done := map[*ssa.BasicBlock]bool{}
	deliver := func(e edge) {
		if e.st.g == F {
			return
		}
		switch {
		case e.to == head:
			backs = append(backs, e)
		case !blocks[e.to]:
			exits = append(exits, e)
		default:
			if done[e.to] {
				fail("irreducible control flow in " + fr.fn.String())
			}
			pending[e.to] = append(pending[e.to], e)
		}
	}
	inner := map[*ssa.BasicBlock]bool{}
	for _, b := range rpo(fr.fn) {
		if !blocks[b] || inner[b] {
			continue
		}
		var st *State
		isHead := b == head
		if isHead {
			st = entry
		} else {
			es := pending[b]
			if len(es) == 0 {
				done[b] = true
				if l := fr.loops[b]; l != nil {
					for x := range l.blocks {
						inner[x] = true
						done[x] = true
					}
				}
				continue
			}
			if l := fr.loops[b]; l != nil {
				for x := range l.blocks {
					inner[x] = true
					done[x] = true
				}
				for _, e := range fr.loop(l, es) {
					deliver(e)
				}
				continue
			}
			st = fr.join(b, es)
		}
		done[b] = true
		if isHead && fr.loops[b] != nil && entry.from == nil && len(backs) == 0 && fr.fn.Blocks[0] == b && !fr.inLoop(b) {
			// entry block that is itself a loop head
			l := fr.loops[b]
			for x := range l.blocks {
				inner[x] = true
				done[x] = true
			}
			for _, e := range fr.loop(l, []edge{{nil, b, st}}) {
				deliver(e)
			}
			continue
		}
		for _, e := range fr.block(b, st) {
			deliver(e)
		}
	}
	return
}

// counts: the condition depends on a loop counter (not on the outcome of a call).
func counts(v ssa.Value, l *loopInfo, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.head {
			return true
		}
		for _, e := range x.Edges {
			if counts(e, l, d+1) {
				return true
			}
		}
	case *ssa.BinOp:
		return counts(x.X, l, d+1) || counts(x.Y, l, d+1)
	case *ssa.Convert:
		return counts(x.X, l, d+1)
	case *ssa.ChangeType:
		return counts(x.X, l, d+1)
	case *ssa.UnOp:
		return x.Op == token.MUL && l.blocks[x.Block()] || counts(x.X, l, d+1)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return true
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return counts(x.Call.Args[0], l, d+1)
		}
	}
	return false
}

func (fr *Frame) inLoop(b *ssa.BasicBlock) bool { return fr.decidedActive(b) }

func (fr *Frame) decidedActive(b *ssa.BasicBlock) bool { _, ok := fr.decided[b]; return ok }

func (fr *Frame) phis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

// join merges the incoming edges of a block, evaluating its phis.
func (fr *Frame) join(b *ssa.BasicBlock, es []edge) *State {
	var ss []*State
	phis := fr.phis(b)
	for i, e := range es {
		s := e.st
		if len(phis) > 0 && e.from != nil {
			if len(es) > 1 || i > 0 || true {
				s = s.clone()
			}
			pi := predIndex(b, e.from)
			vals := make([]*Val, len(phis))
			for k, p := range phis {
				vals[k] = fr.val(s, p.Edges[pi])
			}
			for k, p := range phis {
				s.env[p] = vals[k]
			}
		}
		ss = append(ss, s)
	}
	return mergeStates(ss)
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	fail("edge without predecessor")
	return -1
}

const maxUnroll = 400

func (fr *Frame) loop(l *loopInfo, es []edge) []edge {
	an := fr.an
	entry := fr.join(l.head, es)
	_, had := fr.decided[l.head]
	prev := fr.decided[l.head]
	oldIter := fr.iter
	defer func() {
		if had {
			fr.decided[l.head] = prev
		} else {
			delete(fr.decided, l.head)
		}
		fr.iter = oldIter
	}()
	evMark, loopMark, retMark := len(an.events), len(an.loops), len(fr.rets)
	st := entry.clone()
	var out []edge
	for k := 0; ; k++ {
		fr.decided[l.head] = false
		fr.iter = fmt.Sprintf("%s#%d", oldIter, k)
		backs, exits := fr.region(l.blocks, l.head, st.clone())
		out = append(out, exits...)
		if len(backs) == 0 {
			return out
		}
		if !fr.decided[l.head] || k > maxUnroll {
			break
		}
		st = fr.join(l.head, backs)
		if !E.feasible(st.g) {
			return out
		}
	}
	an.events, an.loops, fr.rets = an.events[:evMark], an.loops[:loopMark], fr.rets[:retMark]
	fr.iter = oldIter
	fr.decided[l.head] = false
	return fr.generic(l, entry)
}

func (fr *Frame) generic(l *loopInfo, entry *State) []edge {
	an := fr.an
	key := fmt.Sprintf("%s%s/%s.%d", fr.ctx, fr.iter, fr.fn.Name(), l.head.Index)
	rec := &LoopRec{fn: fr.fn, head: l.head, key: key, init: entry, havoc: map[string]*hvar{}}
	if n := len(an.loopCtx); n > 0 {
		rec.parent = an.loopCtx[n-1]
	}
	phis := fr.phis(l.head)
	base := map[*Obj]bool{}
	for o := range entry.heap {
		base[o] = true
	}
	var cands []candidate
	var candsInit bool
	evMark, loopMark, retMark := len(an.events), len(an.loops), len(fr.rets)
	an.loopCtx = append(an.loopCtx, rec)
	defer func() { an.loopCtx = an.loopCtx[:len(an.loopCtx)-1] }()
	for round := 0; ; round++ {
		if round > 60 {
			fail("loop analysis does not stabilise in " + fr.fn.String())
		}
		an.events, an.loops, fr.rets = an.events[:evMark], an.loops[:loopMark], fr.rets[:retMark]
		hs := entry.clone()
		for _, k := range rec.order {
			h := rec.havoc[k]
			if h.phi != nil {
				if len(h.path) == 0 {
					hs.env[h.phi] = h.sym
				} else {
					hs.env[h.phi] = writePath(hs.env[h.phi], h.phi.Type(), h.path, h.sym, hs.g)
				}
			} else {
				hs.heap[h.obj] = writePath(hs.content(h.obj), h.obj.typ, h.path, h.sym, hs.g)
			}
		}
		for _, c := range cands {
			hs.g = E.And(hs.g, c.at(hs))
		}
		if hs.g == F {
			fail("contradictory loop invariant in " + fr.fn.String())
		}
		rec.hd = hs.clone()
		backs, exits := fr.region(l.blocks, l.head, hs)
		rec.back, rec.exits = nil, exits
		if len(backs) == 0 {
			break
		}
		bst := fr.join(l.head, backs)
		rec.back = bst
		changed := false
		add := func(phi *ssa.Phi, obj *Obj, path []PE, t types.Type, hv *Val) {
			var k string
			if phi != nil {
				k = phi.Name() + pathKey(path)
			} else {
				k = fmt.Sprintf("o%d%s", obj.id, pathKey(path))
			}
			if _, ok := rec.havoc[k]; ok {
				return
			}
			name := "loop:" + key + ":" + k
			h := &hvar{key: k, phi: phi, obj: obj, path: append([]PE(nil), path...), typ: t, init: hv, sym: mkSymLike(t, name, hv)}
			rec.havoc[k] = h
			rec.order = append(rec.order, k)
			changed = true
		}
		for _, p := range phis {
			fr.diff(rec.hd.env[p], bst.env[p], p.Type(), bst.g, nil, func(path []PE, t types.Type, hv *Val) { add(p, nil, path, t, hv) })
		}
		var objs []*Obj
		for o := range bst.heap {
			if base[o] || !o.localAlloc {
				objs = append(objs, o)
			}
		}
		sortObjs(objs)
		for _, o := range objs {
			if _, ok := rec.hd.heap[o]; !ok && o.localAlloc {
				continue
			}
			hv := rec.hd.content(o)
			fr.diff(hv, bst.heap[o], o.typ, bst.g, nil, func(path []PE, t types.Type, hv *Val) { add(nil, o, path, t, hv) })
		}
		if changed {
			cands, candsInit = nil, false
			continue
		}
		if !candsInit {
			candsInit = true
			cands = fr.candidates(rec, entry)
			if len(cands) > 0 {
				continue
			}
		}
		// check the candidate invariants at the back edge
		var keep []candidate
		for _, c := range cands {
			if E.feasible(E.Diff(bst.g, c.at(bst))) {
				changed = true
			} else {
				keep = append(keep, c)
			}
		}
		if !changed {
			break
		}
		cands = keep
	}
	for _, k := range rec.order {
		h := rec.havoc[k]
		if rec.back != nil {
			h.back = rec.valueAt(h, rec.back)
		}
		h.init = rec.valueAt(h, entry)
	}
	rec.evLo, rec.evHi = evMark, len(an.events)
	an.loops = append(an.loops, rec)
	return rec.exits
}

func (rec *LoopRec) valueAt(h *hvar, st *State) *Val {
	if h.phi != nil {
		return readPath(st.env[h.phi], h.phi.Type(), h.path, st.g)
	}
	return readPath(st.content(h.obj), h.obj.typ, h.path, st.g)
}

// mkSymLike is a symbol for a loop-carried value.
func mkSymLike(t types.Type, name string, hv *Val) *Val {
	if hv != nil && !hv.isBool && t != nil {
		if _, isArr := t.Underlying().(*types.Array); !isArr {
			for _, a := range hv.alts {
				if _, isSl := t.Underlying().(*types.Slice); a.l.kind == KArr && !isSl {
					t = nil
					break
				}
			}
		}
	}
	if t == nil {
		// model component: take the shape of the current value
		for _, a := range hv.alts {
			switch a.l.kind {
			case KInt:
				return vInt(E.linAtom(E.atom(name, 0, 1<<40)))
			case KArr:
				n := E.linAtom(E.atom("len("+name+")", 0, 1<<31))
				return vArr(mkSeq([]Item{{g: T, k: ISub, src: newSrc(name, types.Typ[types.Uint8]), off: E.konst(0), n: n}}))
			case KSlice, KNil:
				return symSlice(types.Typ[types.Uint8], name)
			}
		}
		return vTerm(nil, "sym:"+name)
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		if hv != nil && !hv.isBool && len(hv.alts) == 1 && hv.alts[0].l.kind == KArr {
			// the elements of a slice: their number stays
			if n := seqLen(hv.alts[0].l.seq); len(n.alts) == 1 {
				return vArr(mkSeq([]Item{{g: T, k: ISub, src: newSrc(name, elemOf(t)), off: E.konst(0), n: n.alts[0].l.lin}}))
			}
		}
		return symSlice(elemOf(t), name)
	case *types.Interface:
		if isErrorType(t) {
			v, _ := symErr(name)
			return v
		}
	}
	return mkSym(t, name)
}

// diff reports the parts of a value that an iteration changes.
func (fr *Frame) diff(hv, bv *Val, t types.Type, g B, path []PE, rep func([]PE, types.Type, *Val)) {
	if hv == bv || hv == nil || bv == nil {
		return
	}
	if !hv.isBool && !bv.isBool {
		h, b := prune(hv, g), prune(bv, g)
		if len(h.alts) == 1 && len(b.alts) == 1 && h.alts[0].l.kind == KStruct && b.alts[0].l.kind == KStruct {
			var st *types.Struct
			if t != nil {
				st, _ = t.Underlying().(*types.Struct)
			}
			for i := range h.alts[0].l.fields {
				var ft types.Type
				if st != nil && i < st.NumFields() {
					ft = st.Field(i).Type()
				}
				fr.diff(h.alts[0].l.fields[i], b.alts[0].l.fields[i], ft, g, append(append([]PE(nil), path...), PE{field: i}), rep)
			}
			return
		}
	}
	if eqUnder(g, hv, bv) {
		return
	}
	rep(path, t, hv)
}

type candidate struct {
	name string
	at   func(st *State) B
}

// candidates proposes linear invariants of loop-carried integers.
func (fr *Frame) candidates(rec *LoopRec, entry *State) []candidate {
	var out []candidate
	single := func(v *Val) *Lin {
		if v == nil || v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KInt {
			return nil
		}
		return v.alts[0].l.lin
	}
	ge := func(name string, f func(st *State) (*Val, *Val)) {
		at := func(st *State) B {
			a, b := f(st)
			return cmpGE(a, b, st.g)
		}
		out = append(out, candidate{name, at})
	}
	for _, k := range rec.order {
		h := rec.havoc[k]
		iv := rec.valueAt(h, entry)
		if single(iv) == nil {
			if iv != nil && !iv.isBool {
				// slices: the remaining part never grows beyond the original one
				_ = iv
			}
			continue
		}
		init := single(iv)
		ge(k+">=init", func(st *State) (*Val, *Val) { return rec.valueAt(h, st), vInt(init) })
		ge(k+"<=init", func(st *State) (*Val, *Val) { return vInt(init), rec.valueAt(h, st) })
		// upper bounds met in comparisons of the loop
		for _, bnd := range fr.bounds(rec) {
			b := bnd
			ge(k+"<="+E.linStr(b), func(st *State) (*Val, *Val) { return vInt(b), rec.valueAt(h, st) })
			if init.isConst() && init.c == -1 {
				b1 := E.addLin(b, 1, E.konst(-1), 1)
				ge(k+"<"+E.linStr(b), func(st *State) (*Val, *Val) { return vInt(b1), rec.valueAt(h, st) })
			}
		}
	}
	// consistent at entry?
	var keep []candidate
	for _, c := range out {
		if !E.feasible(E.Diff(entry.g, c.at(entry))) {
			keep = append(keep, c)
		}
	}
	return keep
}

// bounds lists loop-invariant lengths that may bound a cursor.
func (fr *Frame) bounds(rec *LoopRec) []*Lin {
	seen := map[*Lin]bool{}
	var out []*Lin
	addV := func(v *Val) {
		if v == nil || v.isBool || len(v.alts) != 1 {
			return
		}
		l := v.alts[0].l
		var n *Val
		switch l.kind {
		case KSlice:
			n = l.n
		case KStruct:
			for _, f := range l.fields {
				if f != nil && !f.isBool && len(f.alts) == 1 && f.alts[0].l.kind == KSlice {
					n = f.alts[0].l.n
				}
			}
		}
		if n != nil && len(n.alts) == 1 && !n.alts[0].l.lin.isConst() && !seen[n.alts[0].l.lin] {
			seen[n.alts[0].l.lin] = true
			out = append(out, n.alts[0].l.lin)
		}
	}
	var vs []*Val
	for _, v := range rec.hd.env {
		vs = append(vs, v)
	}
	for _, v := range rec.hd.heap {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		addV(v)
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return out
}

func cmpGE(a, b *Val, g B) B {
	r := F
	a, b = prune(a, g), prune(b, g)
	for _, x := range a.alts {
		for _, y := range b.alts {
			if x.l.kind != KInt || y.l.kind != KInt {
				continue
			}
			gg := E.And(x.g, y.g)
			if gg == F {
				continue
			}
			r = E.Or(r, E.And(gg, E.GE0(E.addLin(x.l.lin, 1, y.l.lin, -1))))
		}
	}
	return r
}

var profBDD = os.Getenv("EGTS_PROF") != ""
var lastBDD int

// block executes the instructions of a block.
func (fr *Frame) block(b *ssa.BasicBlock, st *State) []edge {
	for _, ins := range b.Instrs {
		fr.an.nInstr++
		if profBDD {
			if n := len(E.nodes); n > lastBDD+20000 {
				fmt.Fprintf(os.Stderr, "BDD %d -> %d before %s: %s (%s) g support %d\n", lastBDD, n, fr.site(ins), ins, fr.an.w.posStr(posOf(ins)), len(E.Support(st.g)))
				lastBDD = n
			}
		}
		if st.g == F {
			return nil
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := fr.val(st, i.Cond)
			if !c.isBool {
				fail("condition is not a boolean: " + valStr(c))
			}
			gt, gf := E.And(st.g, c.b), E.Diff(st.g, c.b)
			for h := range fr.decided {
				l := fr.loops[h]
				if l.blocks[b] && (!l.blocks[b.Succs[0]] || !l.blocks[b.Succs[1]]) && (gt == F || gf == F) && counts(i.Cond, l, 0) {
					dom := true
					for _, x := range l.latches {
						if !b.Dominates(x) {
							dom = false
						}
					}
					if dom {
						fr.decided[h] = true
					}
				}
			}
			var out []edge
			if gt != F && (gf == F || E.feasible(gt)) {
				s := st
				if gf != F {
					s = st.clone()
				}
				s.g = gt
				out = append(out, edge{b, b.Succs[0], s})
			}
			if gf != F && (gt == F || E.feasible(gf)) {
				s := st.clone()
				s.g = gf
				out = append(out, edge{b, b.Succs[1], s})
			}
			return out
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var r *Val
			if len(i.Results) == 1 {
				r = fr.val(st, i.Results[0])
			} else {
				fs := make([]*Val, len(i.Results))
				for k, x := range i.Results {
					fs[k] = fr.val(st, x)
				}
				r = vTuple(fs)
			}
			st.env = map[ssa.Value]*Val{fr.fn: r}
			fr.rets = append(fr.rets, st)
			return nil
		case *ssa.Panic:
			fr.an.event(&Event{kind: "oblig", name: "panic", fn: fr.fn, pos: posOf(ins), g: st.g, cond: F, key: fr.site(ins)})
			return nil
		default:
			fr.instr(ins, st)
		}
	}
	return nil
}

func (fr *Frame) val(st *State, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return vFunc(x, nil)
	case *ssa.Global:
		return vPtr(fr.an.w.globalObj(x))
	case *ssa.Builtin:
		return vTerm(x.Type(), "builtin:"+x.Name())
	}
	if r, ok := st.env[v]; ok && r != nil {
		return r
	}
	fail(fmt.Sprintf("value %s of %s is not available", v.Name(), fr.fn))
	return nil
}

func constVal(c *ssa.Const) *Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return zeroVal(c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		if constant.BoolVal(c.Value) {
			return vBool(T)
		}
		return vBool(F)
	case b.Info()&types.IsInteger != 0:
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return vConst(n)
		}
		return vTerm(c.Type(), "const:"+c.Value.ExactString())
	case b.Info()&types.IsFloat != 0:
		r := new(big.Rat)
		if f := constant.ToFloat(c.Value); f.Kind() == constant.Float || f.Kind() == constant.Int {
			if _, ok := r.SetString(f.ExactString()); ok {
				return vFlt(fltConst(r))
			}
		}
		f, _ := constant.Float64Val(c.Value)
		r.SetFloat64(f)
		return vFlt(fltConst(r))
	case b.Info()&types.IsString != 0:
		return vStr(constant.StringVal(c.Value))
	}
	return vTerm(c.Type(), "const:"+c.Value.ExactString())
}

func (fr *Frame) symObjAt(ins ssa.Instruction, what string, t types.Type) *Obj {
	o := symObj(what+"@"+fr.site(ins), t)
	o.localAlloc = true
	return o
}

func nonNil(v *Val) B {
	if v.isBool {
		return T
	}
	r := F
	for _, a := range v.alts {
		r = E.Or(r, E.And(a.g, E.Not(leafNil(a.l))))
	}
	return r
}

func leafNil(l *Leaf) B {
	switch l.kind {
	case KNil:
		return T
	case KTerm:
		if l.nonNil {
			return F
		}
		if l.typ != nil {
			if _, ok := l.typ.Underlying().(*types.Interface); ok {
				return tagIs(l, nil)
			}
		}
		return E.newVar("isnil:" + l.op + ids(l.args))
	case KSlice:
		if strings.HasPrefix(l.obj.name, "*") && l.obj.app && !l.obj.localAlloc {
			if z, ok := constInt(l.off); ok && z == 0 {
				v := E.newVar("isnil:" + l.obj.name)
				for _, a := range l.n.alts {
					E.addLemmaOnce("isnil:"+l.obj.name, E.Imp(v, E.GE0(E.scale(a.l.lin, -1))))
				}
				return v
			}
		}
		return F
	}
	return F
}

var lemmaOnce = map[string]bool{}

func (e *Engine) addLemmaOnce(k string, b B) {
	if !lemmaOnce[k] {
		lemmaOnce[k] = true
		e.addLemma(b)
	}
}

// tagIs: the dynamic type of a symbolic interface value (nil type: nil value).
func tagIs(l *Leaf, t types.Type) B {
	id := 0
	if t != nil {
		id = typeID(t)
	}
	r := T
	nm := l.op + ids(l.args)
	for i := 0; i < 9; i++ {
		v := E.newVar(fmt.Sprintf("tag%d(%s)", i, nm))
		if id>>uint(i)&1 == 1 {
			r = E.And(r, v)
		} else {
			r = E.And(r, E.Not(v))
		}
	}
	return r
}

func (fr *Frame) instr(ins ssa.Instruction, st *State) {
	an := fr.an
	set := func(v ssa.Value, x *Val) {
		if x == nil {
			fail("no value for " + v.String())
		}
		st.env[v] = x
	}
	switch i := ins.(type) {
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok && i.Heap && a.Len() > 1024 {
			an.event(&Event{kind: "alloc", name: "make", fn: fr.fn, pos: posOf(i), g: st.g, args: []*Val{vConst(a.Len())}, key: fr.site(i), typ: a.Elem()})
		}
		o := fr.symObjAt(i, "alloc", t)
		st.heap[o] = zeroVal(t)
		set(i, vPtr(o))
	case *ssa.BinOp:
		set(i, fr.binop(i, st))
	case *ssa.UnOp:
		x := fr.val(st, i.X)
		switch i.Op {
		case token.MUL:
			fr.oblig(st, i, "nil dereference", nonNil(x))
			if st.g == F {
				return
			}
			for _, a := range x.alts {
				if o := a.l.obj; a.l.kind == KPtr && o.glob != nil && o.glob.Pkg != nil && an.w.pkgs[o.glob.Pkg.Pkg.Path()] == o.glob.Pkg && !an.inInit && an.w.mutable(o.glob) {
					an.event(&Event{kind: "gload", name: o.glob.Name(), fn: fr.fn, pos: posOf(i), g: E.And(st.g, a.g), args: []*Val{one(a.l)}, st: st, key: fr.site(i), held: lockState(st, true)})
				}
			}
			set(i, st.load(x, i.Type()))
		case token.NOT:
			set(i, vBool(E.Not(x.b)))
		case token.SUB:
			set(i, mapVal(x, func(l *Leaf, g B) *Val {
				switch l.kind {
				case KInt:
					return wrapInt(vInt(E.scale(l.lin, -1)), i.Type(), E.And(st.g, g))
				case KFloat:
					return vFlt(fltScale(l.fl, big.NewRat(-1, 1)))
				}
				return vTerm(i.Type(), "neg", one(l))
			}))
		case token.XOR:
			_, _, w, _ := intRange(i.Type())
			set(i, mapVal(x, func(l *Leaf, g B) *Val {
				bs := E.toBits(l.lin, w)
				for k := range bs {
					bs[k] = E.Not(bs[k])
				}
				return fromBitsT(bs, i.Type())
			}))
		case token.ARROW:
			set(i, mkSym(i.Type(), "recv@"+fr.site(i)))
		default:
			fail("unary operator " + i.Op.String())
		}
	case *ssa.Call:
		c := &Call{fr: fr, an: an, st: st, ins: i, common: &i.Call}
		r := c.do()
		if st.g == F {
			return
		}
		set(i, r)
	case *ssa.ChangeInterface:
		set(i, fr.val(st, i.X))
	case *ssa.ChangeType:
		set(i, fr.val(st, i.X))
	case *ssa.Convert:
		set(i, fr.convert(st, i, fr.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, fr.convert(st, i, fr.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.Defer:
		d := &deferred{id: fr.site(i), g: T, call: &i.Call, pos: i}
		if i.Call.IsInvoke() || i.Call.StaticCallee() == nil {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				d.fn = fr.val(st, i.Call.Value)
			}
		}
		if mc, ok := i.Call.Value.(*ssa.MakeClosure); ok {
			d.fn = fr.val(st, mc)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, fr.val(st, a))
		}
		st.defers = append(st.defers, d)
		an.event(&Event{kind: "defer", name: calleeName(&i.Call), fn: fr.fn, pos: posOf(i), g: st.g, args: d.args, recv: d.fn, key: fr.site(i)})
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			d := ds[k]
			gd := E.And(st.g, d.g)
			if gd == F {
				continue
			}
			if gd == st.g {
				c := &Call{fr: fr, an: an, st: st, ins: d.pos, common: d.call, args: d.args, recvOverride: d.fn, isDefer: true}
				c.do()
				continue
			}
			s2 := st.clone()
			s2.g = gd
			c := &Call{fr: fr, an: an, st: s2, ins: d.pos, common: d.call, args: d.args, recvOverride: d.fn, isDefer: true}
			c.do()
			st.g = E.Diff(st.g, d.g)
			m := merge2(st, s2)
			st.g, st.heap = m.g, m.heap
		}
	case *ssa.Extract:
		t := fr.val(st, i.Tuple)
		set(i, tupleField(t, i.Index, i.Type()))
	case *ssa.Field:
		x := fr.val(st, i.X)
		set(i, fieldOf(x, i.Field, i.Type(), st.g))
	case *ssa.FieldAddr:
		x := fr.val(st, i.X)
		fr.oblig(st, i, "nil dereference", nonNil(x))
		if st.g == F {
			return
		}
		set(i, mapVal(prune(x, st.g), func(l *Leaf, g B) *Val {
			switch l.kind {
			case KPtr:
				return vPtr(l.obj, append(append([]PE(nil), l.path...), PE{field: i.Field})...)
			case KNil:
				return nil
			}
			o := symObj("*"+leafStr(l, 6), i.X.Type().Underlying().(*types.Pointer).Elem())
			return vPtr(o, PE{field: i.Field})
		}))
	case *ssa.Go:
		e := &Event{kind: "go", name: calleeName(&i.Call), fn: fr.fn, pos: posOf(i), g: st.g, st: st.clone(), key: fr.site(i)}
		if !i.Call.IsInvoke() {
			e.recv = fr.val(st, i.Call.Value)
		} else {
			e.recv = fr.val(st, i.Call.Value)
			e.name = "invoke " + i.Call.Method.Name()
		}
		for _, a := range i.Call.Args {
			e.args = append(e.args, fr.val(st, a))
		}
		an.event(e)
	case *ssa.Index:
		x, idx := fr.val(st, i.X), fr.val(st, i.Index)
		fr.bounds1(st, i, idx, sliceLen(x))
		if st.g == F {
			return
		}
		set(i, fr.indexVal(st, x, idx, i.X.Type()))
	case *ssa.IndexAddr:
		x, idx := fr.val(st, i.X), fr.val(st, i.Index)
		if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			fr.oblig(st, i, "nil dereference", nonNil(x))
			fr.bounds1(st, i, idx, vConst(p.Elem().Underlying().(*types.Array).Len()))
		} else {
			fr.bounds1(st, i, idx, sliceLen(prune(x, st.g)))
		}
		if st.g == F {
			return
		}
		set(i, fr.elemAddr(st, x, idx, i.X.Type()))
	case *ssa.Lookup:
		set(i, fr.lookup(st, i))
	case *ssa.MakeChan:
		set(i, vTerm(i.Type(), "chan@"+fr.site(i)))
	case *ssa.MakeClosure:
		var bs []*Val
		for _, b := range i.Bindings {
			bs = append(bs, fr.val(st, b))
		}
		set(i, vFunc(i.Fn.(*ssa.Function), bs))
	case *ssa.MakeInterface:
		x := fr.val(st, i.X)
		set(i, vIface(i.X.Type(), x))
	case *ssa.MakeMap:
		o := fr.symObjAt(i, "map", i.Type())
		st.heap[o] = vTerm(i.Type(), "emptymap")
		set(i, vPtr(o))
	case *ssa.MapUpdate:
		fr.mapUpdate(st, i)
	case *ssa.MakeSlice:
		n, c := fr.val(st, i.Len), fr.val(st, i.Cap)
		fr.oblig(st, i, "make with a negative length", cmpGE(n, vConst(0), st.g))
		if c != n {
			fr.oblig(st, i, "make with a capacity below the length", cmpGE(c, n, st.g))
		}
		if st.g == F {
			return
		}
		elem := elemOf(i.Type())
		an.event(&Event{kind: "alloc", name: "make", fn: fr.fn, pos: posOf(i), g: st.g, args: []*Val{c}, key: fr.site(i), typ: elem})
		o := fr.symObjAt(i, "make", types.NewSlice(elem))
		var seq *Seq
		gs := F
		for _, a := range prune(c, st.g).alts {
			q := mkSeq([]Item{{g: T, k: ISub, src: zeroSrc(elem), off: E.konst(0), n: a.l.lin}})
			if seq == nil {
				seq = q
			} else {
				seq = mergeSeq(E.Restrict(gs, E.Or(gs, a.g)), seq, q)
			}
			gs = E.Or(gs, a.g)
		}
		st.heap[o] = vArr(seq)
		set(i, vSlice(o, vConst(0), n, c))
	case *ssa.Next:
		set(i, fr.next(st, i))
	case *ssa.Range:
		set(i, fr.rangeVal(st, i))
	case *ssa.Select:
		set(i, mkSym(i.Type(), "select@"+fr.site(i)))
	case *ssa.Send:
		an.event(&Event{kind: "send", name: "send", fn: fr.fn, pos: posOf(i), g: st.g, key: fr.site(i)})
	case *ssa.Slice:
		set(i, fr.slice(st, i))
	case *ssa.SliceToArrayPointer:
		x := fr.val(st, i.X)
		set(i, mapVal(x, func(l *Leaf, g B) *Val {
			if l.kind == KSlice {
				if z, ok := constInt(l.off); ok && z == 0 {
					return vPtr(l.obj, l.path...)
				}
			}
			fail("conversion of a slice to an array pointer")
			return nil
		}))
	case *ssa.Store:
		p := fr.val(st, i.Addr)
		fr.oblig(st, i, "nil dereference", nonNil(p))
		if st.g == F {
			return
		}
		v := fr.val(st, i.Val)
		for _, a := range prune(p, st.g).alts {
			if a.l.kind == KPtr && !a.l.obj.localAlloc || a.l.kind == KTerm {
				an.event(&Event{kind: "store", name: "store", fn: fr.fn, pos: posOf(i), g: E.And(st.g, a.g), args: []*Val{one(a.l), v}, key: fr.site(i), held: lockState(st, false)})
			}
		}
		st.store(p, v)
	case *ssa.TypeAssert:
		set(i, fr.typeAssert(st, i))
	default:
		fail(fmt.Sprintf("unsupported instruction %T in %s", ins, fr.fn))
	}
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return "dynamic"
}

func tupleField(t *Val, i int, ft types.Type) *Val {
	var acc *Val
	gs := F
	for _, a := range t.alts {
		var f *Val
		if a.l.kind == KTuple {
			f = a.l.fields[i]
		} else {
			f = mkSym(ft, fmt.Sprintf("%s#%d", leafStr(a.l, 6), i))
		}
		if acc == nil {
			acc = f
		} else {
			acc = mergeVal(E.Restrict(gs, E.Or(gs, a.g)), acc, f)
		}
		gs = E.Or(gs, a.g)
	}
	return acc
}

// mapVal applies f to every leaf; nil results are dropped.
func mapVal(v *Val, f func(l *Leaf, g B) *Val) *Val {
	if v.isBool {
		fail("boolean where another value was expected")
	}
	if len(v.alts) == 1 {
		if r := f(v.alts[0].l, T); r != nil {
			return r
		}
		return vNil()
	}
	var acc *Val
	gs := F
	for _, a := range v.alts {
		r := f(a.l, a.g)
		if r == nil {
			continue
		}
		if acc == nil {
			acc = r
		} else {
			acc = mergeVal(E.Restrict(gs, E.Or(gs, a.g)), acc, r)
		}
		gs = E.Or(gs, a.g)
	}
	if acc == nil {
		return vNil()
	}
	return acc
}

func mapVal2(x, y *Val, g B, f func(a, b *Leaf, g B) *Val) *Val {
	x, y = prune(x, g), prune(y, g)
	var acc *Val
	gs := F
	for _, a := range x.alts {
		for _, b := range y.alts {
			gg := E.And(a.g, b.g)
			if E.And(gg, g) == F {
				continue
			}
			r := f(a.l, b.l, E.And(gg, g))
			if acc == nil {
				acc = r
			} else {
				acc = mergeVal(E.Restrict(gs, E.Or(gs, gg)), acc, r)
			}
			gs = E.Or(gs, gg)
		}
	}
	if acc == nil {
		fail("operation without operands")
	}
	return acc
}

// fromBitsT interprets a bit vector as a value of type t.
func fromBitsT(bs []B, t types.Type) *Val {
	_, _, w, signed := intRange(t)
	if len(bs) > w {
		bs = bs[:w]
	}
	if !signed || len(bs) < w {
		return vBits(bs)
	}
	top := bs[w-1]
	if top == F {
		return vBits(bs[:w-1])
	}
	lo := E.fromBitsU(bs[:w-1])
	if w == 64 {
		neg := E.addLin(lo, 1, E.konst(negInf), 1)
		return mkVal([]Alt{{E.Not(top), lInt(lo)}, {top, lInt(neg)}})
	}
	neg := E.addLin(lo, 1, E.konst(-(1 << (w - 1))), 1)
	if top == T {
		return vInt(neg)
	}
	return mkVal([]Alt{{E.Not(top), lInt(lo)}, {top, lInt(neg)}})
}

// wrapInt reduces an integer result to the range of its type.
func wrapInt(v *Val, t types.Type, g B) *Val {
	lo, hi, w, _ := intRange(t)
	return mapVal(v, func(l *Leaf, ga B) *Val {
		if l.kind != KInt {
			return one(l)
		}
		a, b := E.rangeOf(l.lin)
		if a >= lo && b <= hi || w == 64 {
			return one(l)
		}
		gg := E.And(g, ga)
		under := a < lo && E.feasible(E.Diff(gg, E.GE0(E.addLin(l.lin, 1, E.konst(lo), -1))))
		over := b > hi && E.feasible(E.Diff(gg, E.GE0(E.addLin(E.konst(hi), 1, l.lin, -1))))
		if !under && !over {
			return one(l)
		}
		return fromBitsT(E.toBits(l.lin, w), t)
	})
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (fr *Frame) binop(i *ssa.BinOp, st *State) *Val {
	x, y := fr.val(st, i.X), fr.val(st, i.Y)
	switch i.Op {
	case token.EQL:
		return vBool(eqVal(x, y, st))
	case token.NEQ:
		return vBool(E.Not(eqVal(x, y, st)))
	}
	t := i.X.Type()
	if i.Op == token.QUO || i.Op == token.REM {
		if isInt(t) {
			fr.oblig(st, i, "division by zero", E.Not(eqVal(y, vConst(0), st)))
		}
	}
	return arith(i.Op, x, y, t, i.Type(), st.g)
}

func arith(op token.Token, x, y *Val, t, rt types.Type, g B) *Val {
	switch op {
	case token.LSS:
		return vBool(E.And(E.Not(geVal(x, y, t, g)), ordered(x, y, g)))
	case token.GEQ:
		return vBool(geVal(x, y, t, g))
	case token.GTR:
		return vBool(E.And(E.Not(geVal(y, x, t, g)), ordered(x, y, g)))
	case token.LEQ:
		return vBool(geVal(y, x, t, g))
	}
	if x.isBool || y.isBool {
		switch op {
		case token.AND:
			return vBool(E.And(x.b, y.b))
		case token.OR:
			return vBool(E.Or(x.b, y.b))
		}
		fail("operator " + op.String() + " on booleans")
	}
	if isString(t) {
		return mapVal2(x, y, g, func(a, b *Leaf, g B) *Val {
			return vStrSeq(seqCat(strSeq(a), strSeq(b)))
		})
	}
	if isFloat(t) {
		return mapVal2(x, y, g, func(a, b *Leaf, g B) *Val { return floatOp(op, a, b, t) })
	}
	if op == token.SHL || op == token.SHR {
		y = expandInt(y, g)
	}
	r := mapVal2(x, y, g, func(a, b *Leaf, g B) *Val { return intOp(op, a, b, rt, g) })
	return r
}

func strSeq(l *Leaf) *Seq {
	if l.kind == KStr || l.kind == KArr {
		return l.seq
	}
	return symStr(leafStr(l, 6)).alts[0].l.seq
}

func floatOp(op token.Token, a, b *Leaf, t types.Type) *Val {
	if a.kind == KFloat && b.kind == KFloat {
		switch op {
		case token.ADD:
			return vFlt(fltAdd(a.fl, big.NewRat(1, 1), b.fl, big.NewRat(1, 1)))
		case token.SUB:
			return vFlt(fltAdd(a.fl, big.NewRat(1, 1), b.fl, big.NewRat(-1, 1)))
		case token.MUL:
			if b.fl.isConst() {
				return vFlt(fltScale(a.fl, b.fl.c))
			}
			if a.fl.isConst() {
				return vFlt(fltScale(b.fl, a.fl.c))
			}
		case token.QUO:
			if b.fl.isConst() && b.fl.c.Sign() != 0 {
				return vFlt(fltScale(a.fl, new(big.Rat).Inv(b.fl.c)))
			}
		}
	}
	return vFlt(fltAtom("f"+op.String(), one(a), one(b)))
}

func fltAtom(op string, args ...*Val) *Flt {
	l := E.appAtom(op, negInf, posInf, args...)
	return mkFlt(new(big.Rat), map[*Atom]*big.Rat{l.t[0].a: big.NewRat(1, 1)})
}

func intOp(op token.Token, a, b *Leaf, t types.Type, g B) *Val {
	if a.kind != KInt || b.kind != KInt {
		return vInt(E.appAtom("op"+op.String(), negInf, posInf, one(a), one(b)))
	}
	x, y := a.lin, b.lin
	lo, hi, w, _ := intRange(t)
	switch op {
	case token.ADD:
		return wrapInt(vInt(E.addLin(x, 1, y, 1)), t, g)
	case token.SUB:
		return wrapInt(vInt(E.addLin(x, 1, y, -1)), t, g)
	case token.MUL:
		if y.isConst() {
			return wrapInt(vInt(E.scale(x, y.c)), t, g)
		}
		if x.isConst() {
			return wrapInt(vInt(E.scale(y, x.c)), t, g)
		}
		return vInt(E.appAtom("mul:"+t.String(), lo, hi, one(a), one(b)))
	case token.QUO:
		if y.isConst() && y.c > 0 {
			return vInt(divLin(x, y.c))
		}
		return vInt(E.appAtom("quo:"+t.String(), lo, hi, one(a), one(b)))
	case token.REM:
		if y.isConst() && y.c > 0 {
			if x.isConst() {
				return vConst(x.c % y.c)
			}
			l, _ := E.rangeOf(x)
			if l >= 0 {
				if y.c&(y.c-1) == 0 {
					return vBits(E.toBits(x, log2(y.c)))
				}
				return vInt(E.addLin(x, 1, divLin(x, y.c), -y.c))
			}
		}
		return vInt(E.appAtom("rem:"+t.String(), lo, hi, one(a), one(b)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		p, q := E.toBits(x, w), E.toBits(y, w)
		r := make([]B, w)
		for i := range r {
			switch op {
			case token.AND:
				r[i] = E.And(p[i], q[i])
			case token.OR:
				r[i] = E.Or(p[i], q[i])
			case token.XOR:
				r[i] = E.Xor(p[i], q[i])
			default:
				r[i] = E.Diff(p[i], q[i])
			}
		}
		return fromBitsT(r, t)
	case token.SHL, token.SHR:
		if !y.isConst() {
			return vInt(E.appAtom("sh"+op.String()+t.String(), lo, hi, one(a), one(b)))
		}
		n := int(y.c)
		if n < 0 {
			n = 0
		}
		if op == token.SHL {
			if w == 64 && n < 40 {
				if l, h := E.rangeOf(x); mulSat(l, 1<<n) != negInf && mulSat(h, 1<<n) != posInf {
					return vInt(E.scale(x, 1<<n))
				}
			}
			p := E.toBits(x, w)
			r := make([]B, w)
			for i := n; i < w; i++ {
				r[i] = p[i-n]
			}
			return fromBitsT(r, t)
		}
		if l, _ := E.rangeOf(x); l < 0 {
			return vInt(E.appAtom("shr:"+t.String(), lo, hi, one(a), one(b)))
		}
		p := E.toBits(x, w)
		r := make([]B, w)
		for i := 0; i+n < w; i++ {
			r[i] = p[i+n]
		}
		return vBits(r)
	}
	fail("integer operator " + op.String())
	return nil
}

func divLin(x *Lin, k int64) *Lin {
	if x.isConst() {
		return E.konst(x.c / k)
	}
	lo, hi := E.rangeOf(x)
	if lo >= 0 {
		all := x.c%k == 0
		for _, t := range x.t {
			if t.k%k != 0 {
				all = false
			}
		}
		if all {
			m := map[*Atom]int64{}
			for _, t := range x.t {
				m[t.a] = t.k / k
			}
			return E.normLin(x.c/k, m)
		}
		if k&(k-1) == 0 && hi != posInf {
			n := 0
			for n < 62 && hi >= 1<<n {
				n++
			}
			b := E.toBits(x, n)
			s := log2(k)
			if s >= len(b) {
				return E.konst(0)
			}
			return E.fromBitsU(b[s:])
		}
		if hi != posInf {
			hi /= k
		}
		return E.appAtom(fmt.Sprintf("div%d", k), lo/k, hi, vInt(x))
	}
	return E.appAtom(fmt.Sprintf("quo%d", k), negInf, posInf, vInt(x))
}

func geVal(x, y *Val, t types.Type, g B) B {
	x, y = prune(x, g), prune(y, g)
	r := F
	for _, a := range x.alts {
		for _, b := range y.alts {
			gg := E.And(a.g, b.g)
			if E.And(gg, g) == F {
				continue
			}
			var c B
			switch {
			case a.l.kind == KInt && b.l.kind == KInt:
				c = E.GE0(E.addLin(a.l.lin, 1, b.l.lin, -1))
			case a.l.kind == KFloat && b.l.kind == KFloat:
				c = E.And(FGE0(fltAdd(a.l.fl, big.NewRat(1, 1), b.l.fl, big.NewRat(-1, 1))), E.Not(fltNaN(a.l.fl)), E.Not(fltNaN(b.l.fl)))
			default:
				c = E.newVar(fmt.Sprintf("ge(%d,%d)", a.l.id, b.l.id))
			}
			r = E.Or(r, E.And(gg, c))
		}
	}
	return r
}
