package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var ratOne, ratNeg = big.NewRat(1, 1), big.NewRat(-1, 1)

type model func(c *Call, a []*Val) *Val

var models map[string]model
var invokeModels map[string]func(c *Call, l *Leaf) *Val

type prefixModel struct {
	prefix string
	f      model
}

var prefixModels []prefixModel

func isNamedPtr(t types.Type, pkg, name string) bool {
	p, ok := t.(*types.Pointer)
	return ok && isNamed(p.Elem(), pkg, name)
}

var u8 = types.Typ[types.Uint8]

func errEOF() *Val { return vErr("global:io.EOF") }

func okErr(ok B, g B, e *Val) *Val {
	return mergeVal(E.Restrict(ok, g), vNil(), e)
}

// ---- readers and buffers ----

func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// stream is a view of the unread part of a reader or buffer.
type stream struct {
	ptr  *Val
	kind string // reader, buffer
	src  *Val   // slice
	off  *Val
	tail *Seq
	all  *Seq
	n    *Val // total length
}

func (c *Call) stream(l *Leaf) *stream {
	if l.kind != KPtr {
		fail("stream operation on " + leafStr(l, 3))
	}
	t := pathType(l.obj.typ, l.path)
	v := c.st.load(one(l), t)
	s := &stream{ptr: one(l)}
	st := t.Underlying().(*types.Struct)
	f := func(i int) *Val { return fieldOf(v, i, st.Field(i).Type(), c.st.g) }
	switch {
	case isNamed(t, "bytes", "Reader") || isNamed(t, "strings", "Reader"):
		s.kind = "reader"
		s.src, s.off = f(0), f(1)
		s.all = c.st.sliceSeq(s.src)
		s.n = sliceLen(prune(s.src, c.st.g))
	case isNamed(t, "bytes", "Buffer"):
		s.kind = "buffer"
		s.src, s.off = f(0), f(1)
		s.tail = arrSeq(f(2), c.st.g)
		if s.tail == nil {
			s.tail = mkSeq(nil)
		}
		s.all = seqCat(c.st.sliceSeq(s.src), s.tail)
		s.n = intAdd(sliceLen(prune(s.src, c.st.g)), seqLen(s.tail), 1)
	case isNamed(t, "strings", "Builder"):
		s.kind = "builder"
		s.src, s.off = vNil(), vConst(0)
		s.tail = arrSeq(f(1), c.st.g)
		if s.tail == nil {
			s.tail = mkSeq(nil)
		}
		s.all = s.tail
		s.n = seqLen(s.tail)
	default:
		return nil
	}
	s.off = prune(s.off, c.st.g)
	s.n = prune(s.n, c.st.g)
	return s
}

func (c *Call) setField(s *stream, i int, v *Val) {
	for _, a := range s.ptr.alts {
		if !a.l.obj.localAlloc {
			c.an.event(&Event{kind: "store", name: c.name, fn: c.fr.fn, pos: posOf(c.ins), g: E.And(c.st.g, a.g), args: []*Val{one(a.l)}, key: c.site(), held: lockState(c.st, false)})
		}
		c.st.store(vPtr(a.l.obj, append(append([]PE(nil), a.l.path...), PE{field: i})...), v)
	}
}

func (c *Call) setOff(s *stream, v *Val) { c.setField(s, 1, restrictVal(v, c.st.g)) }

func (c *Call) setTail(s *stream, q *Seq) {
	if s.kind == "builder" {
		c.setField(s, 1, vArr(q))
		return
	}
	c.setField(s, 2, vArr(q))
}

func (s *stream) avail() *Val { return intAdd(s.n, s.off, -1) }

// onPtr runs f for every alternative of the receiver.
func (c *Call) onPtr(p *Val, f func(d *Call, l *Leaf) *Val) *Val {
	c.fr.oblig(c.st, c.ins, "nil dereference", nonNil(p))
	if c.st.g == F {
		return zeroResult(c.sig())
	}
	return c.split(p, func(d *Call, l *Leaf) *Val {
		if l.kind == KTerm {
			return d.opaque(d.name, d.args, nil)
		}
		return f(d, l)
	})
}

func readByte(c *Call, l *Leaf) *Val {
	s := c.stream(l)
	ok := cmpGE(s.avail(), vConst(1), c.st.g)
	g := E.And(c.st.g, ok)
	v := vConst(0)
	off := s.off
	if g != F && E.feasible(g) {
		v = mergeVal(E.Restrict(ok, c.st.g), seqIndexV(s.all, s.off, g, u8), vConst(0))
		off = mergeVal(E.Restrict(ok, c.st.g), intAdd(s.off, vConst(1), 1), s.off)
	} else {
		ok = F
	}
	c.setOff(s, off)
	return vTuple([]*Val{v, okErr(ok, c.st.g, errEOF())})
}

// readFull models io.ReadFull(stream, buf).
func readFull(c *Call, s *stream, buf *Val) *Val {
	st := c.st
	need := sliceLen(prune(buf, st.g))
	av := s.avail()
	ok := cmpGE(av, need, st.g)
	if !E.feasible(E.And(st.g, ok)) {
		ok = F
	} else if !E.feasible(E.Diff(st.g, ok)) {
		ok = T
	}
	okR := E.Restrict(ok, st.g)
	gok := E.And(st.g, ok)
	if gok != F {
		for _, m := range prune(need, gok).alts {
			for _, o := range prune(s.off, gok).alts {
				g := E.And(gok, m.g, o.g)
				if g == F || !E.feasible(g) {
					continue
				}
				items := seqSlice1(s.all, o.l.lin, m.l.lin, g, u8)
				c.writeSlice(buf, items, one(m.l), E.And(ok, m.g, o.g))
			}
		}
	}
	gno := E.Diff(st.g, ok)
	var err *Val = vNil()
	n := need
	off := intAdd(s.off, need, 1)
	if gno != F {
		empty := E.Not(cmpGE(av, vConst(1), gno))
		err = mergeVal(okR, vNil(), mergeVal(E.Restrict(empty, gno), errEOF(), vErr("global:io.ErrUnexpectedEOF")))
		n = mergeVal(okR, need, av)
		off = mergeVal(okR, off, s.n)
		// a partial copy
		if m, isC := constInt(need); isC && m > 0 {
			c.writeSlice(buf, []Item{{g: T, k: ISub, src: newSrc("partial@"+c.site(), u8), off: E.konst(0), n: E.konst(m)}}, need, E.Not(ok))
		}
	}
	c.setOff(s, off)
	return vTuple([]*Val{n, err})
}

// streamOf finds a modelled stream behind an io.Reader / io.Writer value.
func (c *Call) streamOf(l *Leaf) *stream {
	if l.kind != KIface {
		return nil
	}
	if len(l.val.alts) == 1 && l.val.alts[0].l.kind == KPtr {
		pl := l.val.alts[0].l
		t := pathType(pl.obj.typ, pl.path)
		if isNamed(t, "bytes", "Reader") || isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Reader") || isNamed(t, "strings", "Builder") {
			return c.stream(pl)
		}
	}
	return nil
}

func bufWrite(c *Call, s *stream, items []Item) {
	c.setTail(s, mkSeq(append(append([]Item(nil), s.tail.items...), items...)))
}

func intBytes(v *Val, n int, big bool, g B) []Item {
	var items []Item
	bs := bitsOf(v, 8*n, g)
	for i := 0; i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		items = append(items, Item{g: T, k: IVal, val: vBits(bs[8*k : 8*k+8])})
	}
	return items
}

// bitsOf merges the alternatives of an integer into one bit vector.
func bitsOf(v *Val, w int, g B) []B {
	v = prune(v, g)
	out := make([]B, w)
	if len(v.alts) == 1 && v.alts[0].l.kind == KInt {
		return E.toBits(v.alts[0].l.lin, w)
	}
	for _, a := range v.alts {
		if a.l.kind != KInt {
			l := E.appAtom("int", negInf, posInf, one(a.l))
			bs := E.toBits(l, w)
			for i := range out {
				out[i] = E.Or(out[i], E.And(a.g, bs[i]))
			}
			continue
		}
		bs := E.toBits(a.l.lin, w)
		for i := range out {
			out[i] = E.Or(out[i], E.And(a.g, bs[i]))
		}
	}
	return out
}

func isBig(l *Leaf) bool {
	return l.kind == KIface && strings.Contains(types.TypeString(l.typ, nil), "bigEndian")
}

func fixedSize(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return 1
		case types.Uint16, types.Int16:
			return 2
		case types.Uint32, types.Int32:
			return 4
		case types.Uint64, types.Int64:
			return 8
		}
	}
	return 0
}

// dataSize is the size of a value of fixed size in the encoding of
// encoding/binary, or -1.
func dataSize(t types.Type) int {
	if n := fixedSize(t); n > 0 {
		return n
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if n := dataSize(u.Elem()); n > 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		all := 0
		for i := 0; i < u.NumFields(); i++ {
			n := dataSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			all += n
		}
		return all
	}
	return -1
}

// dataVal is the value encoding/binary decodes from the bytes next returns.
func dataVal(t types.Type, old *Val, big bool, g B, next func() *Val) *Val {
	if n := fixedSize(t); n > 0 {
		bs := make([][]B, n)
		for i := range bs {
			k := i
			if big {
				k = n - 1 - i
			}
			bs[k] = bitsOf(next(), 8, g)
		}
		var bits []B
		for _, b := range bs {
			bits = append(bits, b...)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			r := F
			for _, x := range bits {
				r = E.Or(r, x)
			}
			return vBool(r)
		}
		return fromBitsT(bits, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		var items []Item
		for i := 0; i < int(u.Len()); i++ {
			items = append(items, Item{g: T, k: IVal, val: dataVal(u.Elem(), nil, big, g, next)})
		}
		return vArr(mkSeq(items))
	case *types.Struct:
		var fs []*Val
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if v := dataVal(ft, nil, big, g, next); u.Field(i).Name() != "_" {
				fs = append(fs, v)
			} else {
				fs = append(fs, fieldOf(old, i, ft, g))
			}
		}
		return vStruct(fs)
	}
	fail("decoding of " + t.String())
	return nil
}

// dataItems is the encoding of a value by encoding/binary.
func (c *Call) dataItems(t types.Type, v *Val, big bool, g B) ([]Item, bool) {
	if n := fixedSize(t); n > 0 {
		if v.isBool {
			return []Item{{g: T, k: IVal, val: vBits([]B{v.b})}}, true
		}
		return intBytes(v, n, big, g), true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if n := fixedSize(u.Elem()); n == 1 {
			return c.st.sliceSeqG(v, g).items, true
		} else if n > 1 {
			es, ok := seqBytes(c.st.sliceSeqG(v, g))
			if !ok {
				return nil, false
			}
			var out []Item
			for _, e := range es {
				out = append(out, intBytes(e, n, big, g)...)
			}
			return out, true
		}
	case *types.Array:
		s := arrSeq(v, g)
		if s == nil {
			return nil, false
		}
		if n := fixedSize(u.Elem()); n == 1 {
			return s.items, true
		}
	case *types.Pointer:
		return c.dataItems(u.Elem(), c.st.load(v, u.Elem()), big, g)
	case *types.Struct:
		var out []Item
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := dataSize(ft)
			if n < 0 {
				return nil, false
			}
			if u.Field(i).Name() == "_" {
				out = append(out, Item{g: T, k: IConst, data: strings.Repeat("\x00", n)})
				continue
			}
			it, ok := c.dataItems(ft, fieldOf(v, i, ft, g), big, g)
			if !ok {
				return nil, false
			}
			out = append(out, it...)
		}
		return out, true
	}
	return nil, false
}

func endian(name string, n int, big, put, app bool) (string, model) {
	return name, func(c *Call, a []*Val) *Val {
		st := c.st
		b := a[1]
		if app {
			items := intBytes(a[2], n, big, st.g)
			seq := seqCat(st.sliceSeq(b), mkSeq(items))
			return freshSlice("append@"+c.site(), u8, seq, st)
		}
		c.fr.bounds1(st, c.ins, vConst(int64(n-1)), sliceLen(prune(b, st.g)))
		if st.g == F {
			return vConst(0)
		}
		if put {
			c.writeSlice(b, intBytes(a[2], n, big, st.g), vConst(int64(n)), T)
			return vNil()
		}
		seq := st.sliceSeq(b)
		var bits []B
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			bits = append(bits, bitsOf(seqIndex(seq, E.konst(int64(k)), st.g, u8), 8, st.g)...)
		}
		if n == 8 {
			return fromBitsT(bits, types.Typ[types.Uint64])
		}
		return vBits(bits)
	}
}

// errText notes what goes into the text of an error.
func (c *Call) errText(a []*Val) {
	c.an.event(&Event{kind: "errtext", name: c.name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: a, st: c.st.clone(), key: c.site()})
}

func freshErr(c *Call, args ...*Val) *Val { return vErr("fresh:"+c.site(), args...) }

func init() {
	models = map[string]model{}
	for _, w := range []int{16, 32, 64} {
		for _, e := range []string{"little", "big"} {
			for _, op := range []string{"Uint", "PutUint", "AppendUint"} {
				n, m := endian(fmt.Sprintf("(encoding/binary.%sEndian).%s%d", e, op, w), w/8, e == "big", op == "PutUint", op == "AppendUint")
				models[n] = m
			}
		}
	}
	m := models
	m["bytes.NewReader"] = func(c *Call, a []*Val) *Val {
		t := c.resType().Underlying().(*types.Pointer).Elem()
		o := c.fr.symObjAt(c.ins, "reader"+c.st0(), t)
		c.st.heap[o] = vStruct([]*Val{a[0], vConst(0), vConst(-1)})
		return vPtr(o)
	}
	m["strings.NewReader"] = m["bytes.NewReader"]
	m["bytes.NewBuffer"] = func(c *Call, a []*Val) *Val {
		t := c.resType().Underlying().(*types.Pointer).Elem()
		o := c.fr.symObjAt(c.ins, "buffer"+c.st0(), t)
		c.st.heap[o] = vStruct([]*Val{a[0], vConst(0), vArr(mkSeq(nil))})
		return vPtr(o)
	}
	m["bytes.NewBufferString"] = func(c *Call, a []*Val) *Val {
		t := c.resType().Underlying().(*types.Pointer).Elem()
		o := c.fr.symObjAt(c.ins, "buffer"+c.st0(), t)
		c.st.heap[o] = vStruct([]*Val{vNil(), vConst(0), vArr(c.st.sliceSeq(a[0]))})
		return vPtr(o)
	}
	for _, r := range []string{"(*bytes.Reader)", "(*bytes.Buffer)", "(*strings.Reader)"} {
		m[r+".ReadByte"] = func(c *Call, a []*Val) *Val { return c.onPtr(a[0], readByte) }
		m[r+".Len"] = func(c *Call, a []*Val) *Val {
			return c.onPtr(a[0], func(d *Call, l *Leaf) *Val { return restrictVal(d.stream(l).avail(), d.st.g) })
		}
		m[r+".Read"] = func(c *Call, a []*Val) *Val {
			return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
				s := d.stream(l)
				st := d.st
				av := s.avail()
				n := minVal(av, sliceLen(prune(a[1], st.g)), st.g)
				for _, k := range n.alts {
					for _, o := range s.off.alts {
						g := E.And(st.g, k.g, o.g)
						if g == F || !E.feasible(g) || k.l.lin.isConst() && k.l.lin.c == 0 {
							continue
						}
						d.writeSlice(a[1], seqSlice1(s.all, o.l.lin, k.l.lin, g, u8), one(k.l), E.And(k.g, o.g))
					}
				}
				d.setOff(s, intAdd(s.off, n, 1))
				ok := E.Or(cmpGE(av, vConst(1), st.g), E.Not(cmpGE(sliceLen(prune(a[1], st.g)), vConst(1), st.g)))
				return vTuple([]*Val{n, okErr(ok, st.g, errEOF())})
			})
		}
		m[r+".UnreadByte"] = func(c *Call, a []*Val) *Val {
			return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
				s := d.stream(l)
				ok := cmpGE(s.off, vConst(1), d.st.g)
				d.setOff(s, mergeVal(E.Restrict(ok, d.st.g), intAdd(s.off, vConst(1), -1), s.off))
				return okErr(ok, d.st.g, freshErr(d))
			})
		}
	}
	m["(*bytes.Reader).Size"] = func(c *Call, a []*Val) *Val {
		return c.onPtr(a[0], func(d *Call, l *Leaf) *Val { return d.stream(l).n })
	}
	m["(*bytes.Buffer).Next"] = func(c *Call, a []*Val) *Val {
		return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
			s := d.stream(l)
			st := d.st
			d.fr.oblig(st, d.ins, "negative count", cmpGE(a[1], vConst(0), st.g))
			if st.g == F {
				return vNil()
			}
			n := minVal(a[1], s.avail(), st.g)
			r := d.streamSlice(s, s.off, n)
			d.setOff(s, intAdd(s.off, n, 1))
			return r
		})
	}
	m["(*bytes.Buffer).Bytes"] = func(c *Call, a []*Val) *Val {
		return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
			s := d.stream(l)
			return d.streamSlice(s, s.off, restrictVal(s.avail(), d.st.g))
		})
	}
	m["(*bytes.Buffer).String"] = func(c *Call, a []*Val) *Val {
		return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
			s := d.stream(l)
			return vStrSeq(seqSlice(s.all, s.off, restrictVal(s.avail(), d.st.g), d.st.g, u8))
		})
	}
	m["(*strings.Builder).String"] = m["(*bytes.Buffer).String"]
	m["(*bytes.Buffer).Reset"] = func(c *Call, a []*Val) *Val {
		return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
			s := d.stream(l)
			d.setField(s, 0, vNil())
			d.setOff(s, vConst(0))
			d.setTail(s, mkSeq(nil))
			return vNil()
		})
	}
	m["(*bytes.Buffer).Truncate"] = func(c *Call, a []*Val) *Val {
		return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
			s := d.stream(l)
			q := seqSlice(s.all, s.off, a[1], d.st.g, u8)
			d.setField(s, 0, vNil())
			d.setOff(s, vConst(0))
			d.setTail(s, q)
			return vNil()
		})
	}
	m["(*bytes.Buffer).Grow"] = func(c *Call, a []*Val) *Val {
		c.fr.oblig(c.st, c.ins, "negative count", cmpGE(a[1], vConst(0), c.st.g))
		c.an.event(&Event{kind: "alloc", name: "Grow", fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: []*Val{a[1]}, key: c.site(), typ: types.Typ[types.Uint8]})
		return vNil()
	}
	m["(*strings.Builder).Grow"] = m["(*bytes.Buffer).Grow"]
	for _, r := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		m[r+".WriteByte"] = func(c *Call, a []*Val) *Val {
			return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
				bufWrite(d, d.stream(l), []Item{{g: T, k: IVal, val: vBits(bitsOf(a[1], 8, d.st.g))}})
				return vNil()
			})
		}
		m[r+".Write"] = func(c *Call, a []*Val) *Val {
			return c.onPtr(a[0], func(d *Call, l *Leaf) *Val {
				bufWrite(d, d.stream(l), d.st.sliceSeq(a[1]).items)
				return vTuple([]*Val{sliceLen(prune(a[1], d.st.g)), vNil()})
			})
		}
		m[r+".WriteString"] = m[r+".Write"]
		m[r+".Len"] = func(c *Call, a []*Val) *Val {
			return c.onPtr(a[0], func(d *Call, l *Leaf) *Val { return restrictVal(d.stream(l).avail(), d.st.g) })
		}
	}
	for _, delim := range []string{"ReadString", "ReadBytes"} {
		delim := delim
		m["(*bytes.Buffer)."+delim] = func(c *Call, a []*Val) *Val {
			return c.onPtr(a[0], func(d *Call, l *Leaf) *Val { return readDelim(d, l, a[1], delim == "ReadString") })
		}
	}
	m["io.ReadFull"] = func(c *Call, a []*Val) *Val {
		c.fr.oblig(c.st, c.ins, "nil reader", nonNil(a[0]))
		return c.split(a[0], func(d *Call, l *Leaf) *Val {
			if s := d.streamOf(l); s != nil {
				return readFull(d, s, a[1])
			}
			return netRead(d, "io.ReadFull", unbuffered(d, l), a[1])
		})
	}
	m["io.ReadAtLeast"] = func(c *Call, a []*Val) *Val {
		if n := restrictVal(sliceLen(prune(a[1], c.st.g)), c.st.g); n == a[2] || never(c.st.g, E.Not(eqVal(n, a[2], c.st))) {
			return m["io.ReadFull"](c, a[:2])
		}
		return c.opaque("io.ReadAtLeast", a, nil)
	}
	m["bufio.NewReader"] = func(c *Call, a []*Val) *Val {
		x := prune(a[0], c.st.g)
		t := c.sig().Results().At(0).Type().(*types.Pointer).Elem()
		o := c.fr.symObjAt(c.ins, "bufio", t)
		c.st.heap[o] = zeroVal(t)
		// a reader made anew in each iteration loses what the last one has read ahead
		if len(c.an.loopCtx) == 0 && !x.isBool && len(x.alts) == 1 {
			c.an.readers[o] = x.alts[0].l
		}
		return vPtr(o)
	}
	m["bufio.NewReaderSize"] = func(c *Call, a []*Val) *Val { return m["bufio.NewReader"](c, a[:1]) }
	m["(*bufio.Reader).Read"] = func(c *Call, a []*Val) *Val {
		return c.split(a[0], func(d *Call, l *Leaf) *Val { return netRead(d, "Read", unbuffered(d, l), a[1]) })
	}
	for _, n := range []string{"conn", "TCPConn"} {
		m["(*net."+n+").Read"] = func(c *Call, a []*Val) *Val {
			return c.split(a[0], func(d *Call, l *Leaf) *Val { return netRead(d, "Read", l, a[1]) })
		}
	}
	m["io.ReadAll"] = func(c *Call, a []*Val) *Val {
		return c.split(a[0], func(d *Call, l *Leaf) *Val {
			if s := d.streamOf(l); s != nil {
				q := seqSlice(s.all, s.off, s.avail(), d.st.g, u8)
				d.setOff(s, s.n)
				return vTuple([]*Val{freshSlice("readall@"+d.site(), u8, q, d.st), vNil()})
			}
			return d.opaque("io.ReadAll", d.args, nil)
		})
	}
	m["encoding/binary.Write"] = func(c *Call, a []*Val) *Val {
		return c.split(a[0], func(d *Call, l *Leaf) *Val {
			s := d.streamOf(l)
			if s == nil || s.tail == nil {
				return d.opaque("encoding/binary.Write", d.args, nil)
			}
			return d.split(a[2], func(e *Call, dl *Leaf) *Val {
				if dl.kind != KIface {
					return freshErr(e)
				}
				big := false
				if o := prune(a[1], e.st.g); len(o.alts) == 1 {
					big = isBig(o.alts[0].l)
				}
				items, ok := e.dataItems(dl.typ, dl.val, big, e.st.g)
				if !ok {
					return freshErr(e)
				}
				s2 := e.streamOf(l)
				bufWrite(e, s2, items)
				return vNil()
			})
		})
	}
	m["encoding/binary.Read"] = func(c *Call, a []*Val) *Val {
		return c.split(a[0], func(d *Call, l *Leaf) *Val {
			return d.split(a[2], func(e *Call, dl *Leaf) *Val {
				s := e.streamOf(l)
				if s == nil || dl.kind != KIface {
					return e.opaque("encoding/binary.Read", e.args, nil)
				}
				pt, ok := dl.typ.Underlying().(*types.Pointer)
				if !ok {
					if sl, isS := dl.typ.Underlying().(*types.Slice); isS && fixedSize(sl.Elem()) == 1 {
						return tupleField(readFull(e, s, dl.val), 1, nil)
					}
					return e.opaque("encoding/binary.Read", e.args, nil)
				}
				n := dataSize(pt.Elem())
				if n <= 0 {
					return e.opaque("encoding/binary.Read", e.args, nil)
				}
				big := false
				if o := prune(a[1], e.st.g); len(o.alts) == 1 {
					big = isBig(o.alts[0].l)
				}
				av := s.avail()
				okc := cmpGE(av, vConst(int64(n)), e.st.g)
				g := E.And(e.st.g, okc)
				err := okErr(okc, e.st.g, mergeVal(E.Restrict(E.Not(cmpGE(av, vConst(1), e.st.g)), e.st.g), errEOF(), vErr("global:io.ErrUnexpectedEOF")))
				if g == F || !E.feasible(g) {
					e.setOff(s, s.n)
					return err
				}
				old := e.st.load(dl.val, pt.Elem())
				okR := E.Restrict(okc, e.st.g)
				at := 0
				v := dataVal(pt.Elem(), old, big, g, func() *Val {
					at++
					return seqIndexV(s.all, intAdd(s.off, vConst(int64(at-1)), 1), g, u8)
				})
				e.st.store(dl.val, mergeVal(okR, v, old))
				e.setOff(s, mergeVal(okR, intAdd(s.off, vConst(int64(n)), 1), s.n))
				return err
			})
		})
	}
	m["fmt.Sprintf"] = func(c *Call, a []*Val) *Val { return sprintf(c, a) }
	m["fmt.Errorf"] = func(c *Call, a []*Val) *Val {
		var args []*Val
		if es, ok := seqBytes(c.st.sliceSeq(a[1])); ok {
			args = es
		}
		c.errText(a)
		return freshErr(c, args...)
	}
	m["errors.New"] = func(c *Call, a []*Val) *Val {
		c.errText(a)
		return freshErr(c)
	}
	m["errors.Is"] = func(c *Call, a []*Val) *Val {
		x, y := prune(a[0], c.st.g), prune(a[1], c.st.g)
		r := F
		for _, p := range x.alts {
			for _, q := range y.alts {
				gg := E.And(p.g, q.g)
				if E.And(gg, c.st.g) == F {
					continue
				}
				var b B
				switch {
				case p.l == q.l:
					b = T
				case p.l.kind == KNil || q.l.kind == KNil:
					b = F
				case p.l.kind == KTerm && strings.HasPrefix(p.l.op, "global:"):
					b = F
				default:
					b = E.newVar(fmt.Sprintf("errors.Is(%d,%d)", p.l.id, q.l.id))
				}
				r = E.Or(r, E.And(gg, b))
			}
		}
		return vBool(r)
	}
	m["strings.TrimSuffix"] = func(c *Call, a []*Val) *Val {
		suf, ok := constStr(prune(a[1], c.st.g))
		if !ok {
			return c.opaque("strings.TrimSuffix", a, nil)
		}
		return mapVal(prune(a[0], c.st.g), func(l *Leaf, g B) *Val {
			gg := E.And(c.st.g, g)
			s := strSeq(l)
			n := seqLen(s)
			k := int64(len(suf))
			long := cmpGE(n, vConst(k), gg)
			has := F
			if g2 := E.And(gg, long); g2 != F && E.feasible(g2) {
				tail := seqSlice(s, intAdd(n, vConst(k), -1), vConst(k), g2, u8)
				has = E.And(long, strEq(tail, vStr(suf).alts[0].l.seq, g2))
			}
			if !E.feasible(E.Diff(gg, has)) {
				has = T
			}
			if has == F {
				return one(l)
			}
			cut := vStrSeq(seqSlice(s, vConst(0), intAdd(n, vConst(k), -1), E.And(gg, has), u8))
			return mergeVal(E.Restrict(has, gg), cut, one(l))
		})
	}
	m["strconv.ParseUint"] = parseUint
	m["strconv.Atoi"] = func(c *Call, a []*Val) *Val { return parseNum(c, a, "atoi", types.Typ[types.Int]) }
	m["strconv.ParseInt"] = func(c *Call, a []*Val) *Val { return parseNum(c, a, "parseint", types.Typ[types.Int64]) }
	m["bytes.Equal"] = func(c *Call, a []*Val) *Val {
		return vBool(strEq(c.st.sliceSeq(a[0]), c.st.sliceSeq(a[1]), c.st.g))
	}
	m["math.Abs"] = func(c *Call, a []*Val) *Val {
		return mapVal(a[0], func(l *Leaf, g B) *Val {
			if l.kind == KFloat {
				if l.fl.isConst() {
					return vFlt(fltConst(new(big.Rat).Abs(l.fl.c)))
				}
				// |k*x| = |k|*|x| for a single atom
				if l.fl.c.Sign() == 0 && len(l.fl.t) == 1 {
					k := new(big.Rat).Abs(l.fl.t[0].k)
					base := vFlt(fltScale(l.fl, new(big.Rat).Inv(l.fl.t[0].k)))
					if at := l.fl.t[0].a; at.op == "math.Abs" || at.lo >= 0 {
						return vFlt(fltScale(mkFlt(new(big.Rat), map[*Atom]*big.Rat{at: ratOne}), k))
					}
					return vFlt(fltScale(fltAtom("math.Abs", base), k))
				}
			}
			return vFlt(fltAtom("math.Abs", one(l)))
		})
	}
	m["math.IsNaN"] = func(c *Call, a []*Val) *Val {
		r := F
		for _, x := range prune(a[0], c.st.g).alts {
			if x.l.kind != KFloat {
				fail("math.IsNaN of an unknown number")
			}
			r = E.Or(r, E.And(x.g, fltNaN(x.l.fl)))
		}
		return vBool(r)
	}
	m["math.IsInf"] = func(c *Call, a []*Val) *Val {
		r := F
		sign, ok := constInt(prune(a[1], c.st.g))
		for _, x := range prune(a[0], c.st.g).alts {
			if x.l.kind != KFloat || !ok {
				fail("math.IsInf of an unknown number or sign")
			}
			in, ge := fltInf(x.l.fl), FGE0(x.l.fl)
			if sign > 0 {
				in = E.And(in, ge)
			} else if sign < 0 {
				in = E.Diff(in, ge)
			}
			r = E.Or(r, E.And(x.g, in))
		}
		return vBool(r)
	}
	delimModels(m)
	timeModels(m)
	lockModels(m)
	flagModels(m)
	textModels(m)
	exit := func(c *Call, a []*Val) *Val {
		e := c.an.event(&Event{kind: "exit", name: c.name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: a, st: c.st.clone(), key: c.site()})
		_ = e
		c.st.g = F
		return vNil()
	}
	ends := []string{"os.Exit", "runtime.Goexit", "github.com/sirupsen/logrus.Exit"}
	for _, p := range []string{"log.", "(*log.Logger).", "github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus.Logger).", "(*github.com/sirupsen/logrus.Entry)."} {
		for _, n := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln"} {
			ends = append(ends, p+n)
		}
	}
	ends = append(ends, "(*github.com/sirupsen/logrus.Logger).Exit", "(*github.com/sirupsen/logrus.Logger).FatalFn", "(*github.com/sirupsen/logrus.Logger).PanicFn", "github.com/sirupsen/logrus.FatalFn", "github.com/sirupsen/logrus.PanicFn")
	for _, n := range ends {
		m[n] = exit
	}
	quiet := func(c *Call, a []*Val) *Val {
		e := c.an.event(&Event{kind: "log", name: c.name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: a, st: c.st.clone(), key: c.site()})
		r := c.symResult(c.name + "@" + c.site())
		if t := c.resType(); t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				o := c.fr.symObjAt(c.ins, "log", p.Elem())
				o.localAlloc = false
				r = vPtr(o)
			}
		}
		e.res = r
		return r
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln"} {
		n := n
		m[n] = func(c *Call, a []*Val) *Val {
			w := prune(a[0], c.st.g)
			if len(w.alts) == 1 && w.alts[0].l.kind == KIface && (isNamedPtr(w.alts[0].l.typ, "strings", "Builder") || isNamedPtr(w.alts[0].l.typ, "bytes", "Buffer")) {
				return c.onPtr(w.alts[0].l.val, func(d *Call, l *Leaf) *Val {
					var t *Val
					if n == "fmt.Fprintf" {
						t = sprintf(d, a[1:])
					} else {
						t = derivedText(n, a[1:]...)
					}
					bufWrite(d, d.stream(l), guardedText(t, d.st.g).items)
					return vTuple([]*Val{sliceLen(prune(t, d.st.g)), vNil()})
				})
			}
			return quiet(c, a)
		}
	}
	for _, p := range []string{"github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus.", "log.Print", "fmt.Print", "fmt.Fprint"} {
		prefixModels = append(prefixModels, prefixModel{p, quiet})
	}
	invokeModels = map[string]func(c *Call, l *Leaf) *Val{
		"Error": func(c *Call, l *Leaf) *Val {
			if c.common.Method.Pkg() == nil {
				return symStr("errtext(" + fmt.Sprint(l.id) + ")")
			}
			return nil
		},
		"Read": func(c *Call, l *Leaf) *Val {
			if len(c.args) == 1 {
				return netRead(c, "Read", l, c.args[0])
			}
			return nil
		},
	}
}

// st0 distinguishes split states that allocate at one site.
func (c *Call) st0() string { return "" }

// streamSlice is the memory of a range of a stream.
func (d *Call) streamSlice(s *stream, off, n *Val) *Val {
	st := d.st
	if len(s.tail0()) == 0 {
		// alias of the source
		return mapVal(prune(s.src, st.g), func(l *Leaf, g B) *Val {
			switch l.kind {
			case KSlice:
				return vSliceP(l.obj, l.path, prune(intAdd(l.off, off, 1), st.g), prune(n, st.g), prune(intAdd(l.cap, off, -1), st.g))
			case KNil:
				return vNil()
			}
			return one(l)
		})
	}
	q := seqSlice(s.all, off, n, st.g, u8)
	return freshSlice("buf@"+d.site(), u8, q, st)
}

func (s *stream) tail0() []Item {
	if s.tail == nil {
		return nil
	}
	return s.tail.items
}

func baseName(s *Src) string { return fmt.Sprintf("s%d", s.id) }

// delimAt: the position of the next byte d between off and n, and whether
// there is one.
func delimAt(q *Seq, off, n *Lin, d int64) (B, *Lin) {
	base := fmt.Sprintf("q%d", q.id)
	shift := E.konst(0)
	if len(q.items) == 1 && q.items[0].k == ISub && q.items[0].g == T {
		// name the position within the underlying memory
		it := q.items[0]
		base = baseName(it.src)
		shift = it.off
	}
	lo, hi := E.addLin(off, 1, shift, 1), E.addLin(n, 1, shift, 1)
	key := fmt.Sprintf("delim%d(%s,%s,%s)", d, base, E.linStr(lo), E.linStr(hi))
	found := E.newVar("found:" + key)
	atom := E.atom(key, 0, 1<<31)
	pos := E.linAtom(atom)
	delimEnds[atom] = delimEnd{base, lo, d}
	// lo <= pos < hi when found
	if !lemmaOnce[key] {
		lemmaOnce[key] = true
		E.addLemmaWhen(found, E.Imp(found, E.And(E.GE0(E.addLin(pos, 1, lo, -1)), E.GE0(E.addLin(E.addLin(hi, 1, pos, -1), 1, E.konst(-1), 1)))))
	}
	return found, E.addLin(pos, 1, shift, -1)
}

// readDelim models ReadString/ReadBytes: the position of the next delimiter is
// an opaque function of the data and the cursor.
func readDelim(c *Call, l *Leaf, delim *Val, str bool) *Val {
	s := c.stream(l)
	st := c.st
	d, ok := constInt(prune(delim, st.g))
	if !ok || len(s.off.alts) != 1 || len(s.n.alts) != 1 {
		return c.opaque(c.name, c.args, nil)
	}
	off, n := s.off.alts[0].l.lin, s.n.alts[0].l.lin
	found, pos := delimAt(s.all, off, n, d)
	g := E.And(st.g, found)
	end := mergeVal(E.Restrict(found, st.g), vInt(E.addLin(pos, 1, E.konst(1), 1)), vInt(n))
	// text up to the delimiter
	pre := seqSlice1(s.all, off, E.addLin(pos, 1, off, -1), g, u8)
	a := mkSeq(append(append([]Item(nil), pre...), Item{g: T, k: IConst, data: string([]byte{byte(d)})}))
	b := seqSlice(s.all, vInt(off), vInt(E.addLin(n, 1, off, -1)), E.Diff(st.g, found), u8)
	c.setOff(s, end)
	err := okErr(found, st.g, errEOF())
	if str {
		return vTuple([]*Val{mergeVal(E.Restrict(found, st.g), vStrSeq(a), vStrSeq(b)), err})
	}
	return vTuple([]*Val{freshSlice("delim@"+c.site(), u8, mergeSeq(E.Restrict(found, st.g), a, b), st), err})
}

// unbuffered is the reader behind a buffered one.
func unbuffered(c *Call, l *Leaf) *Leaf {
	p := l
	if p.kind == KIface && p.val != nil && len(p.val.alts) == 1 {
		p = p.val.alts[0].l
	}
	if p.kind == KPtr && len(p.path) == 0 {
		if u := c.an.readers[p.obj]; u != nil {
			return u
		}
	}
	return l
}

// netRead: a read from a connection; what arrives is unknown.
func netRead(c *Call, name string, l *Leaf, buf *Val) *Val {
	st := c.st
	site := c.site()
	e := c.an.event(&Event{kind: "read", name: name, fn: c.fr.fn, pos: posOf(c.ins), g: st.g, args: []*Val{buf}, recv: one(l), st: st.clone(), key: site})
	n := sliceLen(prune(buf, st.g))
	src := newSrc("read@"+site, u8)
	for _, k := range n.alts {
		if E.And(st.g, k.g) == F {
			continue
		}
		c.writeSlice(buf, []Item{{g: T, k: ISub, src: src, off: E.konst(0), n: k.l.lin}}, one(k.l), k.g)
	}
	fails := E.newVar("fails:read@" + site)
	eof := E.newVar("eof:read@" + site)
	err := mkVal([]Alt{{E.Not(fails), lNil()}, {E.And(fails, eof), errEOF().alts[0].l}, {E.Diff(fails, eof), vErr("err:read@" + site).alts[0].l}})
	cnt := E.linAtom(E.atom("n:read@"+site, 0, 1<<31))
	var nv *Val
	if name == "io.ReadFull" {
		nv = mergeVal(E.Not(fails), n, vInt(cnt))
	} else {
		nv = vInt(cnt)
	}
	for _, k := range n.alts {
		E.addLemmaOnce(fmt.Sprintf("nread:%s:%d", site, k.l.id), E.Imp(k.g, E.GE0(E.addLin(k.l.lin, 1, cnt, -1))))
	}
	if name != "io.ReadFull" && len(n.alts) == 1 {
		E.addFact(E.addLin(n.alts[0].l.lin, 1, cnt, -1))
	}
	r := vTuple([]*Val{nv, err})
	e.res = r
	return r
}

// ---- numbers and text ----

func bitChar(b B) Item {
	return Item{g: T, k: IVal, val: vInt(E.addLin(E.konst(48), 1, E.fromBitsU([]B{b}), 1))}
}

func sprintf(c *Call, a []*Val) *Val {
	f, ok := constStr(prune(a[0], c.st.g))
	var args []*Val
	okA := false
	if len(a) > 1 {
		args, okA = seqBytes(c.st.sliceSeq(a[1]))
	}
	opaque := func() *Val {
		if okA {
			return derivedText("sprintf", append([]*Val{a[0]}, args...)...)
		}
		return derivedText("sprintf"+opq(okA, c), a...)
	}
	if !ok || !okA {
		return opaque()
	}
	var seq []Item
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			seq = append(seq, Item{g: T, k: IConst, data: f[i : i+1]})
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			seq = append(seq, Item{g: T, k: IConst, data: "%"})
			continue
		}
		zero := false
		for i < len(f) && f[i] == '0' {
			zero = true
			i++
		}
		w := 0
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			w = w*10 + int(f[i]-'0')
			i++
		}
		if i >= len(f) || ai >= len(args) {
			return opaque()
		}
		v := args[ai]
		ai++
		if v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KIface {
			return opaque()
		}
		t, x := v.alts[0].l.typ, v.alts[0].l.val
		switch f[i] {
		case 'b':
			if !isInt(t) {
				return opaque()
			}
			x = prune(x, c.st.g)
			lo, hi := int64(0), int64(0)
			for _, al := range x.alts {
				if al.l.kind != KInt {
					return opaque()
				}
				l, h := E.rangeOf(al.l.lin)
				lo, hi = min(lo, l), max(hi, h)
			}
			lim := int64(1)<<w - 1
			if w > 40 || lo < 0 || w == 0 || !zero {
				return opaque()
			}
			if hi > lim && E.feasible(E.Diff(c.st.g, cmpGE(vConst(lim), x, c.st.g))) {
				return opaque()
			}
			bs := bitsOf(x, w, c.st.g)
			for k := w - 1; k >= 0; k-- {
				seq = append(seq, bitChar(bs[k]))
			}
		case 's', 'v', 'd':
			if isString(t) && types.NewMethodSet(t).Len() == 0 && w == 0 && f[i] != 'd' {
				q := guardedText(x, c.st.g)
				if q == nil {
					return opaque()
				}
				seq = append(seq, q.items...)
				continue
			}
			if k, isC := constInt(x); isC && isInt(t) && w == 0 {
				seq = append(seq, Item{g: T, k: IConst, data: fmt.Sprint(k)})
				continue
			}
			if isInt(t) && w == 0 && f[i] != 's' && x.id != 0 {
				if _, named := t.(*types.Basic); named {
					seq = append(seq, decimalText(c, x).alts[0].l.seq.items...)
					continue
				}
			}
			src := derivedText(fmt.Sprintf("text(%c,%d,%v,%s)", f[i], w, zero, t), x).alts[0].l.seq
			seq = append(seq, src.items...)
		default:
			return opaque()
		}
	}
	return vStrSeq(mkSeq(seq))
}

func opq(ok bool, c *Call) string {
	if ok {
		return ""
	}
	return "@" + c.site()
}

// binDigits reads a text of known length as binary digits: the value bits
// (most significant first) and the condition that all are digits.
func binDigits(s *Seq, g B) (bits []B, valid B, ok bool) {
	valid = T
	es, exact := seqBytes(s)
	if !exact {
		return nil, F, false
	}
	for _, e := range es {
		one := eqVal(e, vConst('1'), &State{g: g})
		zero := eqVal(e, vConst('0'), &State{g: g})
		valid = E.And(valid, E.Or(one, zero))
		bits = append(bits, one)
	}
	return bits, valid, true
}

func parseUint(c *Call, a []*Val) *Val {
	st := c.st
	ev := c.an.event(&Event{kind: "parse", name: "strconv.ParseUint", fn: c.fr.fn, pos: posOf(c.ins), g: st.g, args: a, st: st.clone(), key: c.site()})
	base, ok1 := constInt(prune(a[1], st.g))
	size, ok2 := constInt(prune(a[2], st.g))
	if !ok1 || !ok2 {
		base, size = 0, 64
	}
	if size == 0 {
		size = 64
	}
	hi := int64(posInf)
	if size < 63 {
		hi = 1<<size - 1
	}
	okAll := F
	r := mapVal(prune(a[0], st.g), func(l *Leaf, ga B) *Val {
		g := E.And(st.g, ga)
		s := strSeq(l)
		if base == 2 {
			bits, valid, ok := binDigits(s, g)
			if ok && len(bits) > 0 && len(bits) <= 62 {
				le := make([]B, len(bits))
				for i := range bits {
					le[len(bits)-1-i] = bits[i]
				}
				for i := int(size); i < len(le); i++ {
					valid = E.Diff(valid, le[i])
				}
				if len(le) > int(size) {
					le = le[:size]
				}
				okAll = E.Or(okAll, E.And(ga, valid))
				for i := range le {
					le[i] = E.And(le[i], valid)
				}
				return vBits(le)
			}
			if ok && len(bits) == 0 {
				return vConst(0)
			}
		}
		v := E.newVar(fmt.Sprintf("parses(%d,%d,q%d)", base, size, s.id))
		okAll = E.Or(okAll, E.And(ga, v))
		return vInt(E.linAtom(E.atom(fmt.Sprintf("parsed(%d,%d,q%d)", base, size, s.id), 0, hi)))
	})
	res := vTuple([]*Val{r, okErr(okAll, st.g, freshErr(c))})
	ev.res = res
	return res
}

func parseNum(c *Call, a []*Val, name string, t types.Type) *Val {
	ev := c.an.event(&Event{kind: "parse", name: name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: a, st: c.st.clone(), key: c.site()})
	okAll := F
	r := mapVal(prune(a[0], c.st.g), func(l *Leaf, ga B) *Val {
		if s, ok := constStr(one(l)); ok {
			if v := constant.MakeFromLiteral(strings.TrimSpace(s), 5, 0); v.Kind() == constant.Int && s != "" && strings.TrimLeft(s, "0123456789") == "" {
				if n, ok := constant.Int64Val(v); ok {
					okAll = E.Or(okAll, ga)
					return vConst(n)
				}
			}
		}
		s := strSeq(l)
		v := E.newVar(fmt.Sprintf("parses(%s,q%d,%s)", name, s.id, ids(a[1:])))
		okAll = E.Or(okAll, E.And(ga, v))
		return vInt(E.linAtom(E.atom(fmt.Sprintf("parsed(%s,q%d,%s)", name, s.id, ids(a[1:])), negInf, posInf)))
	})
	res := vTuple([]*Val{r, okErr(okAll, c.st.g, freshErr(c))})
	ev.res = res
	return res
}

// truncFloat converts a float to an integer type.
func truncFloat(l *Leaf, to types.Type, g B) *Val {
	lo, hi, _, _ := intRange(to)
	if l.kind != KFloat {
		return vInt(E.appAtom("trunc:"+to.String(), lo, hi, one(l)))
	}
	f := l.fl
	if f.isConst() {
		q := new(big.Int).Quo(f.c.Num(), f.c.Denom())
		if q.IsInt64() {
			return wrapInt(vConst(q.Int64()), to, g)
		}
	}
	// integer part plus a fraction known to be within [0,1)
	m := map[*Atom]int64{}
	ok := f.c.IsInt() && f.c.Num().IsInt64()
	frac := new(big.Rat)
	for _, t := range f.t {
		if t.k.IsInt() && t.k.Num().IsInt64() && !strings.HasPrefix(t.a.key, "fl(") && t.a.lo != negInf || t.k.IsInt() && (strings.HasPrefix(t.a.key, "sec(") || t.a.bits != nil) {
			m[t.a] = t.k.Num().Int64()
			continue
		}
		if t.k.Sign() > 0 && t.a.lo == 0 && t.a.hi != posInf {
			frac.Add(frac, new(big.Rat).Mul(t.k, new(big.Rat).SetInt64(t.a.hi)))
			continue
		}
		ok = false
	}
	if ok && frac.Cmp(ratOne) < 0 {
		i := E.normLin(f.c.Num().Int64(), m)
		if frac.Sign() == 0 || !E.feasible(E.Diff(g, E.GE0(i))) {
			return wrapInt(vInt(i), to, g)
		}
	}
	return vInt(E.appAtom("trunc:"+to.String(), lo, hi, vFlt(f)))
}

// ---- time ----

func daysFromCivil(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := floorDiv(y, 400)
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func timeModels(m map[string]model) {
	leafTime := func(v *Val, g B) (*Leaf, bool) {
		v = prune(v, g)
		if len(v.alts) == 1 && v.alts[0].l.kind == KTime {
			return v.alts[0].l, true
		}
		return nil, false
	}
	onTime := func(f func(c *Call, t *Leaf, a []*Val) *Val) model {
		return func(c *Call, a []*Val) *Val {
			return mapVal(prune(a[0], c.st.g), func(l *Leaf, g B) *Val {
				if l.kind != KTime {
					return c.symResult(c.name + "(" + ids(a) + ")")
				}
				return f(c, l, a)
			})
		}
	}
	m["time.Date"] = func(c *Call, a []*Val) *Val {
		var k [7]int64
		for i := 0; i < 7; i++ {
			n, ok := constInt(prune(a[i], c.st.g))
			if !ok {
				return c.opaque("time.Date", a, nil)
			}
			k[i] = n
		}
		loc := "loc(" + valStr(a[7]) + ")"
		if strings.Contains(valStr(a[7]), "time.UTC") || strings.Contains(valStr(a[7]), "utcLoc") {
			loc = "UTC"
		}
		y, mo := k[0]+floorDiv(k[1]-1, 12), (k[1]-1)%12+1
		sec := daysFromCivil(y, mo, 1)*86400 + (k[2]-1)*86400 + k[3]*3600 + k[4]*60 + k[5]
		if loc != "UTC" {
			return vTime(E.linAtom(E.atom("sec(local "+fmt.Sprint(k)+loc+")", negInf, posInf)), E.konst(k[6]), loc)
		}
		return vTime(E.konst(sec), E.konst(k[6]), "UTC")
	}
	m["time.Unix"] = func(c *Call, a []*Val) *Val {
		s, n := prune(a[0], c.st.g), prune(a[1], c.st.g)
		if len(s.alts) == 1 && len(n.alts) == 1 {
			if z, ok := constInt(n); ok && z >= 0 && z < 1e9 {
				return vTime(s.alts[0].l.lin, E.konst(z), "Local")
			}
		}
		return c.opaque("time.Unix", a, nil)
	}
	m["time.Now"] = func(c *Call, a []*Val) *Val {
		e := c.an.event(&Event{kind: "ext", name: "time.Now", fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, key: c.site()})
		r := mkSym(c.resType(), "now@"+c.site())
		e.res = r
		return r
	}
	m["(time.Time).UTC"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val { return vTime(t.sec, t.nsec, "UTC") })
	m["(time.Time).Local"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val { return vTime(t.sec, t.nsec, "Local") })
	m["(time.Time).In"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val {
		loc := "loc(" + valStr(a[1]) + ")"
		if strings.Contains(loc, "time.UTC") {
			loc = "UTC"
		}
		return vTime(t.sec, t.nsec, loc)
	})
	m["(time.Time).Unix"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val { return vInt(t.sec) })
	m["(time.Time).Nanosecond"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val { return vInt(t.nsec) })
	m["(time.Time).IsZero"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val {
		return vBool(E.And(E.EqLin(t.sec, E.konst(zeroTimeSec)), E.EqLin(t.nsec, E.konst(0))))
	})
	m["(time.Time).Format"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val {
		return symStr(fmt.Sprintf("format(v%d,%d,%d,%s)", a[1].id, t.sec.id, t.nsec.id, t.loc))
	})
	m["(time.Time).Truncate"] = func(c *Call, a []*Val) *Val { return c.symResult(c.name + "(" + ids(a) + ")") }
	m["(time.Time).Add"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val {
		return mapVal(prune(a[1], c.st.g), func(l *Leaf, g B) *Val {
			if l.kind == KInt {
				if s := exactDiv(l.lin, 1000000000); s != nil {
					return vTime(E.addLin(t.sec, 1, s, 1), t.nsec, t.loc)
				}
			}
			return mkSym(c.resType(), fmt.Sprintf("add(%d,%d)", t.id, l.id))
		})
	})
	m["(time.Time).AddDate"] = func(c *Call, a []*Val) *Val { return mkSym(c.resType(), "adddate("+ids(a)+")") }
	m["(time.Time).Sub"] = onTime(func(c *Call, t *Leaf, a []*Val) *Val {
		return mapVal(prune(a[1], c.st.g), func(u *Leaf, g B) *Val {
			if u.kind != KTime {
				return vInt(E.appAtom("sub", negInf, posInf, one(t), one(u)))
			}
			d := E.addLin(E.addLin(t.sec, 1, u.sec, -1), 1000000000, E.addLin(t.nsec, 1, u.nsec, -1), 1)
			return vInt(d)
		})
	})
	m["time.Since"] = func(c *Call, a []*Val) *Val { return c.symResult("since@" + c.site()) }
	m["(time.Duration).Seconds"] = func(c *Call, a []*Val) *Val {
		return mapVal(prune(a[0], c.st.g), func(l *Leaf, g B) *Val {
			if l.kind == KInt {
				return vFlt(fltScale(fltLin(l.lin), big.NewRat(1, 1000000000)))
			}
			return vFlt(fltAtom("seconds", one(l)))
		})
	}
	cmp := func(f func(x, y *Leaf) B) model {
		return func(c *Call, a []*Val) *Val {
			x, ok1 := leafTime(a[0], c.st.g)
			y, ok2 := leafTime(a[1], c.st.g)
			if !ok1 || !ok2 {
				return vBool(E.newVar(c.name + ids(a)))
			}
			return vBool(f(x, y))
		}
	}
	after := func(x, y *Leaf) B {
		gt := E.GE0(E.addLin(E.addLin(x.sec, 1, y.sec, -1), 1, E.konst(-1), 1))
		ge := E.GE0(E.addLin(x.sec, 1, y.sec, -1))
		ngt := E.GE0(E.addLin(E.addLin(x.nsec, 1, y.nsec, -1), 1, E.konst(-1), 1))
		return E.Or(gt, E.And(ge, ngt))
	}
	m["(time.Time).After"] = cmp(after)
	m["(time.Time).Before"] = cmp(func(x, y *Leaf) B { return after(y, x) })
	m["(time.Time).Equal"] = cmp(func(x, y *Leaf) B { return E.And(E.EqLin(x.sec, y.sec), E.EqLin(x.nsec, y.nsec)) })
}

func exactDiv(l *Lin, k int64) *Lin {
	if l.c%k != 0 {
		return nil
	}
	m := map[*Atom]int64{}
	for _, t := range l.t {
		if t.k%k != 0 {
			return nil
		}
		m[t.a] = t.k / k
	}
	return E.normLin(l.c/k, m)
}

var _ = ssa.BuilderMode(0)
