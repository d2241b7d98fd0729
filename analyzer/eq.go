package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- equality as a guard (operator ==) ----

func eqVal(x, y *Val, st *State) B {
	if x == y && ordered(x, y, st.g) == T {
		return T
	}
	if x.isBool && y.isBool {
		return E.Iff(x.b, y.b)
	}
	if x.isBool || y.isBool {
		return F
	}
	r := F
	for _, a := range prune(x, st.g).alts {
		for _, b := range prune(y, st.g).alts {
			gg := E.And(a.g, b.g)
			full := E.And(gg, st.g)
			if full == F {
				continue
			}
			r = E.Or(r, E.And(gg, eqLeaf(a.l, b.l, st, full)))
		}
	}
	return r
}

func eqLeaf(a, b *Leaf, st *State, g B) B {
	if a == b {
		if a.kind == KTerm && strings.HasPrefix(a.op, "nan") {
			return F
		}
		if a.kind == KFloat {
			return E.Not(fltNaN(a.fl))
		}
		return T
	}
	if a.kind == KNil {
		return leafNil(b)
	}
	if b.kind == KNil {
		return leafNil(a)
	}
	if a.kind == b.kind {
		switch a.kind {
		case KInt:
			return E.EqLin(a.lin, b.lin)
		case KFloat:
			d := fltAdd(a.fl, ratOne, b.fl, ratNeg)
			num := E.And(E.Not(fltNaN(a.fl)), E.Not(fltNaN(b.fl)))
			if d.isConst() {
				if d.c.Sign() == 0 {
					return num
				}
				return F
			}
			return E.And(FGE0(d), FGE0(fltScale(d, ratNeg)), num)
		case KStr:
			return strEq(a.seq, b.seq, g)
		case KArr:
			return strEq(a.seq, b.seq, g)
		case KPtr:
			if a.obj != b.obj {
				if a.obj.localAlloc || b.obj.localAlloc || a.obj.glob != nil && b.obj.glob != nil {
					return F
				}
			} else if pathKey(a.path) == pathKey(b.path) {
				return T
			} else if len(a.path) > 0 && len(b.path) > 0 && a.path[0].idx == nil && b.path[0].idx == nil && a.path[0].field != b.path[0].field {
				return F
			}
			return E.newVar(fmt.Sprintf("eqptr(%d,%d)", min(a.id, b.id), max(a.id, b.id)))
		case KIface:
			if !types.Identical(a.typ, b.typ) {
				return F
			}
			return eqVal(a.val, b.val, &State{g: g})
		case KStruct, KTuple:
			r := T
			for i := range a.fields {
				r = E.And(r, eqVal(a.fields[i], b.fields[i], &State{g: g}))
			}
			return r
		case KTime:
			return E.And(E.EqLin(a.sec, b.sec), E.EqLin(a.nsec, b.nsec))
		case KTerm:
			ga, gb := strings.HasPrefix(a.op, "global:"), strings.HasPrefix(b.op, "global:")
			fa, fb := strings.HasPrefix(a.op, "fresh:"), strings.HasPrefix(b.op, "fresh:")
			if (ga || fa) && (gb || fb) {
				return F
			}
		}
	}
	return E.newVar(fmt.Sprintf("eq(%d,%d)", min(a.id, b.id), max(a.id, b.id)))
}

func strEq(a, b *Seq, g B) B {
	if a == b {
		return T
	}
	la, lb := seqLen(a), seqLen(b)
	r := eqVal(la, lb, &State{g: g})
	if E.And(r, g) == F || !E.feasible(E.And(r, g)) {
		return F
	}
	// a side of constant length decides
	if _, ok := constInt(la); !ok {
		a, b, la, lb = b, a, lb, la
	}
	n, ok := constInt(la)
	if !ok || n > 256 {
		return E.newVar(fmt.Sprintf("streq(%d,%d)", min(a.id, b.id), max(a.id, b.id)))
	}
	u8 := types.Typ[types.Uint8]
	for i := int64(0); i < n; i++ {
		gg := E.And(g, r)
		if gg == F {
			return F
		}
		x, y := seqIndex(a, E.konst(i), gg, u8), seqIndex(b, E.konst(i), gg, u8)
		r = E.And(r, eqVal(x, y, &State{g: gg}))
	}
	return r
}

// ---- equality as a decision under a guard ----

type eqCtx struct {
	budget int
	hl     map[*Obj]*Val // contents for pointer comparison (optional)
}

// eqUnder: the two values are surely the same whenever g holds.
func eqUnder(g B, a, b *Val) bool {
	c := &eqCtx{budget: 20000}
	return c.val(g, a, b)
}

func (c *eqCtx) val(g B, a, b *Val) bool {
	if a == b || g == F {
		return true
	}
	c.budget--
	if c.budget < 0 || a == nil || b == nil {
		return false
	}
	if a.isBool && b.isBool {
		return E.And(g, a.b) == E.And(g, b.b) || !E.feasible(E.And(g, E.Xor(a.b, b.b)))
	}
	if a.isBool || b.isBool {
		return false
	}
	for _, x := range a.alts {
		gx := E.And(g, x.g)
		if gx == F {
			continue
		}
		for _, y := range b.alts {
			gg := E.And(gx, y.g)
			if gg == F || x.l == y.l {
				continue
			}
			if c.leafQuick(x.l, y.l) {
				continue
			}
			if !E.feasible(gg) {
				continue
			}
			if !c.leaf(gg, x.l, y.l) {
				return false
			}
		}
	}
	return true
}

func (c *eqCtx) leafQuick(a, b *Leaf) bool { return a == b }

func (c *eqCtx) lin(g B, a, b *Lin) bool {
	if a == b {
		return true
	}
	d := E.addLin(a, 1, b, -1)
	if d.isConst() {
		return d.c == 0 || !E.feasible(g)
	}
	if p, ok := E.asBits(a); ok {
		if q, ok := E.asBits(b); ok {
			for i := 0; i < len(p) || i < len(q); i++ {
				x, y := F, F
				if i < len(p) {
					x = p[i]
				}
				if i < len(q) {
					y = q[i]
				}
				if x == y {
					continue
				}
				if ne := E.And(g, E.Xor(x, y)); ne != F && E.feasible(ne) {
					return false
				}
			}
			return true
		}
	}
	ne := E.Diff(g, E.EqLin(a, b))
	return ne == F || !E.feasible(ne)
}

func (c *eqCtx) leaf(g B, a, b *Leaf) bool {
	if a == b {
		return true
	}
	c.budget--
	if c.budget < 0 {
		return false
	}
	if a.kind != b.kind {
		if a.kind == KNil || b.kind == KNil {
			l := a
			if a.kind == KNil {
				l = b
			}
			// a nil slice and an empty slice differ only for comparisons with nil
			n := E.Diff(g, leafNil(l))
			return n == F || !E.feasible(n)
		}
		return false
	}
	switch a.kind {
	case KInt:
		return c.lin(g, a.lin, b.lin)
	case KFloat:
		if a.fl == b.fl {
			return true
		}
		d := fltAdd(a.fl, ratOne, b.fl, ratNeg)
		return d.isConst() && d.c.Sign() == 0
	case KStr, KArr:
		return c.seq(g, a.seq, b.seq)
	case KPtr:
		return a.obj == b.obj && c.path(g, a.path, b.path)
	case KSlice:
		return a.obj == b.obj && c.path(g, a.path, b.path) && c.val(g, a.off, b.off) && c.val(g, a.n, b.n)
	case KIface:
		return types.Identical(a.typ, b.typ) && c.val(g, a.val, b.val)
	case KStruct, KTuple:
		if len(a.fields) != len(b.fields) {
			return false
		}
		for i := range a.fields {
			if !c.val(g, a.fields[i], b.fields[i]) {
				return false
			}
		}
		return true
	case KTime:
		return c.lin(g, a.sec, b.sec) && c.lin(g, a.nsec, b.nsec)
	case KTerm:
		if a.op != b.op || len(a.args) != len(b.args) {
			return false
		}
		for i := range a.args {
			if !c.val(g, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	case KFunc:
		if a.fn != b.fn || len(a.fields) != len(b.fields) {
			return false
		}
		for i := range a.fields {
			if !c.val(g, a.fields[i], b.fields[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *eqCtx) path(g B, a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].idx == nil) != (b[i].idx == nil) {
			return false
		}
		if a[i].idx != nil {
			if !c.lin(g, a[i].idx, b[i].idx) {
				return false
			}
		} else if a[i].field != b[i].field {
			return false
		}
	}
	return true
}

func (c *eqCtx) seq(g B, a, b *Seq) bool {
	if a == b {
		return true
	}
	return c.items(g, append([]Item(nil), a.items...), append([]Item(nil), b.items...))
}

func (c *eqCtx) items(g B, x, y []Item) bool {
	for {
		c.budget--
		if c.budget < 0 {
			return false
		}
		if !E.feasible(g) {
			return true
		}
		x, y = c.dropAbsent(g, x), c.dropAbsent(g, y)
		if len(x) == 0 && len(y) == 0 {
			return true
		}
		if len(x) == 0 || len(y) == 0 {
			rest := x
			if len(x) == 0 {
				rest = y
			}
			for i := range rest {
				gi := E.And(g, rest[i].g)
				if gi == F {
					continue
				}
				n := itemLen(&rest[i])
				pos := E.And(gi, E.GE0(E.addLin(n, 1, E.konst(-1), 1)))
				if pos != F && E.feasible(pos) {
					return false
				}
			}
			return true
		}
		// presence of the heads
		gx, gy := E.And(g, x[0].g), E.And(g, y[0].g)
		if gx == gy && gx != g {
			// both optional under the same condition
			ln := eqItemLen(&x[0], &y[0])
			if ln {
				if !c.items(gx, []Item{withG(x[0], T)}, []Item{withG(y[0], T)}) {
					return false
				}
				x, y = x[1:], y[1:]
				continue
			}
		}
		if gx != g || gy != g {
			sp := x[0].g
			if gx == g {
				sp = y[0].g
			}
			return c.items(E.And(g, sp), x, y) && c.items(E.Diff(g, sp), x, y)
		}
		a, b := &x[0], &y[0]
		na, nb := itemLen(a), itemLen(b)
		// empty heads
		if !na.isConst() {
			if p := E.And(g, E.GE0(E.addLin(na, 1, E.konst(-1), 1))); p == F || !E.feasible(p) {
				x = x[1:]
				continue
			}
		}
		if !nb.isConst() {
			if p := E.And(g, E.GE0(E.addLin(nb, 1, E.konst(-1), 1))); p == F || !E.feasible(p) {
				y = y[1:]
				continue
			}
		}
		if na != nb && !c.lin(g, na, nb) {
			// decide which is shorter
			ge := E.GE0(E.addLin(na, 1, nb, -1))
			p, q := E.And(g, ge), E.Diff(g, ge)
			fp, fq := p != F && E.feasible(p), q != F && E.feasible(q)
			if fp && fq {
				return c.items(p, x, y) && c.items(q, x, y)
			}
			if fp { // nb is shorter: cut a
				u, v, ok := itemSplit(*a, nb, na)
				if !ok {
					if b.k == ISub && a.k == IConst {
						return false
					}
					return false
				}
				x = append(append(append([]Item(nil), u...), v...), x[1:]...)
				if len(u) == 0 || len(v) == 0 {
					return false
				}
			} else {
				u, v, ok := itemSplit(*b, na, nb)
				if !ok || len(u) == 0 || len(v) == 0 {
					return false
				}
				y = append(append(append([]Item(nil), u...), v...), y[1:]...)
			}
			a, b = &x[0], &y[0]
		}
		if !c.sameItems(g, a, b) {
			return false
		}
		x, y = x[1:], y[1:]
	}
}

func eqItemLen(a, b *Item) bool { return itemLen(a) == itemLen(b) }

func (c *eqCtx) dropAbsent(g B, x []Item) []Item {
	for len(x) > 0 && (E.And(g, x[0].g) == F || !E.feasible(E.And(g, x[0].g))) {
		x = x[1:]
	}
	return x
}

func (c *eqCtx) sameItems(g B, a, b *Item) bool {
	if a.k == ISub && b.k == ISub {
		if a.src == b.src && (a.src.zero || c.lin(g, a.off, b.off)) {
			return true
		}
	}
	if a.k == IConst && b.k == IConst {
		return a.data == b.data
	}
	n := itemLen(a)
	if !n.isConst() {
		n = itemLen(b)
	}
	if !n.isConst() || n.c > 512 {
		return false
	}
	for i := int64(0); i < n.c; i++ {
		if !c.val(g, itemElem(a, E.konst(i)), itemElem(b, E.konst(i))) {
			return false
		}
	}
	return true
}

// seqEqUnder compares two sequences under a guard.
func seqEqUnder(g B, a, b *Seq) bool {
	c := &eqCtx{budget: 60000}
	return c.seq(g, a, b)
}
