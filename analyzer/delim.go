package main

import (
	"go/types"
	"strings"
)

// Searching bytes and texts for a single character.

// oneChar is the character to search for, given as a number or as a text.
func oneChar(v *Val, st *State) (int64, bool) {
	v = prune(v, st.g)
	if n, ok := constInt(v); ok {
		return n & 255, true
	}
	if s, ok := constStr(v); ok && len(s) == 1 {
		return int64(s[0]), true
	}
	if v.isBool {
		return 0, false
	}
	for _, a := range v.alts {
		if a.l.kind != KSlice {
			return 0, false
		}
	}
	bs, ok := seqBytes(st.sliceSeq(v))
	if !ok || len(bs) != 1 {
		return 0, false
	}
	n, ok := constInt(prune(bs[0], st.g))
	return n, ok
}

func charsOf(st *State, l *Leaf, g B) *Seq {
	switch l.kind {
	case KNil:
		return mkSeq(nil)
	case KSlice:
		return st.sliceSeqG(one(l), g)
	}
	return strSeq(l)
}

// underGuard is the sequence as it is when the guard holds.
func underGuard(q *Seq, g B) *Seq {
	var out []Item
	for _, it := range q.items {
		if it.g != T {
			if !E.feasible(E.And(g, it.g)) {
				continue
			}
			if !E.feasible(E.Diff(g, it.g)) {
				it.g = T
			}
		}
		out = append(out, it)
	}
	return mkSeq(out)
}

// indexOf: whether a text contains the character, and where first.
func indexOf(q *Seq, d int64, g B) (B, *Lin, bool) {
	if len(q.items) == 0 {
		return F, E.konst(0), true
	}
	n := prune(seqLen(q), g)
	if len(n.alts) != 1 {
		return F, nil, false
	}
	if bs, ok := seqBytes(q); ok && len(bs) == 1 {
		return E.And(eqConst(bs[0], d), T), E.konst(0), true
	}
	found, pos := delimAt(q, E.konst(0), n.alts[0].l.lin, d)
	return found, pos, true
}

// lacks: no character of the item is d, as it ends where the first d was found.
func lacks(it *Item, d int64) bool {
	switch it.k {
	case IConst:
		return !strings.Contains(it.data, string([]byte{byte(d)}))
	case ISub:
		return delimLen(it, d)
	}
	return false
}

var delimEnds = map[*Atom]delimEnd{}

type delimEnd struct {
	base string
	lo   *Lin
	d    int64
}

func delimLen(it *Item, d int64) bool {
	for _, t := range it.n.t {
		if e, ok := delimEnds[t.a]; ok && e.d == d && t.k == 1 && e.base == baseName(it.src) {
			// n = pos - off, and nothing from lo <= off on is the delimiter
			return E.addLin(E.linAtom(t.a), 1, it.n, -1) == it.off && it.off == e.lo
		}
	}
	return false
}

func delimModels(m map[string]model) {
	index := func(name string) model {
		return func(c *Call, a []*Val) *Val {
			d, ok := oneChar(a[1], c.st)
			if !ok {
				return c.opaque(name, a, nil)
			}
			bad := false
			r := mapVal(prune(a[0], c.st.g), func(l *Leaf, g B) *Val {
				gg := E.And(c.st.g, g)
				found, pos, ok := indexOf(underGuard(charsOf(c.st, l, gg), gg), d, gg)
				if !ok {
					bad = true
					return vConst(-1)
				}
				return mergeVal(found, vInt(pos), vConst(-1))
			})
			if bad {
				return c.opaque(name, a, nil)
			}
			return r
		}
	}
	for _, p := range []string{"bytes.", "strings."} {
		m[p+"IndexByte"] = index(p + "IndexByte")
		m[p+"Index"] = index(p + "Index")
		m[p+"Cut"] = cutModel(p + "Cut")
	}
	trim := func(name string, left, right bool) model {
		return func(c *Call, a []*Val) *Val {
			d, ok := oneChar(a[1], c.st)
			if !ok {
				return c.opaque(name, a, nil)
			}
			bad := false
			r := mapVal(prune(a[0], c.st.g), func(l *Leaf, g B) *Val {
				gg := E.And(c.st.g, g)
				q := trimSeq(underGuard(charsOf(c.st, l, gg), gg), d, left, right)
				if q == nil {
					bad = true
					return one(l)
				}
				return vStrSeq(q)
			})
			if bad {
				return c.opaque(name, a, nil)
			}
			return r
		}
	}
	m["bytes.TrimSuffix"] = func(c *Call, a []*Val) *Val {
		d, ok := oneChar(a[1], c.st)
		x := prune(a[0], c.st.g)
		if !ok || x.isBool {
			return c.opaque("bytes.TrimSuffix", a, nil)
		}
		return mapVal(x, func(l *Leaf, g B) *Val {
			gg := E.And(c.st.g, g)
			if l.kind != KSlice {
				return one(l)
			}
			q := underGuard(charsOf(c.st, l, gg), gg)
			n := seqLen(q)
			has := cmpGE(n, vConst(1), gg)
			if g2 := E.And(gg, has); E.feasible(g2) {
				tail := seqSlice(q, intAdd(n, vConst(1), -1), vConst(1), g2, types.Typ[types.Uint8])
				has = E.And(has, strEq(tail, vStr(string([]byte{byte(d)})).alts[0].l.seq, g2))
			}
			cut := vSliceP(l.obj, l.path, l.off, intAdd(l.n, vConst(1), -1), l.cap)
			return mergeVal(E.Restrict(has, gg), cut, one(l))
		})
	}
	m["strings.TrimRight"] = trim("strings.TrimRight", false, true)
	m["strings.TrimLeft"] = trim("strings.TrimLeft", true, false)
	m["strings.Trim"] = trim("strings.Trim", true, true)
}

func cutModel(name string) model {
	return func(c *Call, a []*Val) *Val {
		d, ok := oneChar(a[1], c.st)
		x := prune(a[0], c.st.g)
		if !ok || x.isBool || len(x.alts) != 1 {
			return c.opaque(name, a, nil)
		}
		l := x.alts[0].l
		q := underGuard(charsOf(c.st, l, c.st.g), c.st.g)
		found, pos, ok := indexOf(q, d, c.st.g)
		if !ok {
			return c.opaque(name, a, nil)
		}
		n := seqLen(q)
		rest := intAdd(n, vInt(E.addLin(pos, 1, E.konst(1), 1)), -1)
		g := E.And(c.st.g, found)
		if l.kind == KSlice {
			before := vSliceP(l.obj, l.path, l.off, vInt(pos), vInt(pos))
			after := vSliceP(l.obj, l.path, intAdd(l.off, vInt(E.addLin(pos, 1, E.konst(1), 1)), 1), rest, intAdd(l.cap, vInt(E.addLin(pos, 1, E.konst(1), 1)), -1))
			return vTuple([]*Val{mergeVal(found, before, x), mergeVal(found, after, vNil()), vBool(found)})
		}
		before := vStrSeq(seqSlice(q, vConst(0), vInt(pos), g, types.Typ[types.Uint8]))
		after := vStrSeq(seqSlice(q, vInt(E.addLin(pos, 1, E.konst(1), 1)), rest, g, types.Typ[types.Uint8]))
		return vTuple([]*Val{mergeVal(found, before, x), mergeVal(found, after, vStr("")), vBool(found)})
	}
}

// trimSeq removes a character from the ends of a text (nil if how often it
// stands there is not known).
func trimSeq(q *Seq, d int64, left, right bool) *Seq {
	items := append([]Item(nil), q.items...)
	for _, it := range items {
		if it.g != T {
			return nil
		}
	}
	ch := string([]byte{byte(d)})
	for right && len(items) > 0 {
		l := &items[len(items)-1]
		if l.k == IConst {
			l.data = strings.TrimRight(l.data, ch)
			if l.data != "" {
				break
			}
			items = items[:len(items)-1]
			continue
		}
		if !lacks(l, d) {
			return nil
		}
		// an empty piece would show the one before it
		for _, it := range items[:len(items)-1] {
			if !lacks(&it, d) {
				return nil
			}
		}
		break
	}
	for left && len(items) > 0 {
		l := &items[0]
		if l.k == IConst {
			l.data = strings.TrimLeft(l.data, ch)
			if l.data != "" {
				break
			}
			items = items[1:]
			continue
		}
		for _, it := range items {
			if !lacks(&it, d) {
				return nil
			}
		}
		break
	}
	return mkSeq(items)
}
