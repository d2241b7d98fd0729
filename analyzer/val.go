package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. A Val is a set of guarded leaves (mutually exclusive
// guards); booleans are kept as decision diagrams.

type Kind uint8

const (
	KInt Kind = iota
	KFloat
	KStr
	KPtr
	KNil
	KSlice
	KIface
	KStruct
	KArr
	KFunc
	KTuple
	KTerm
	KTime
)

type Alt struct {
	g B
	l *Leaf
}

type Val struct {
	id     int
	isBool bool
	b      B
	alts   []Alt
}

type PE struct { // path element
	field int  // >=0: struct field
	idx   *Lin // otherwise array index
}

type Leaf struct {
	id     int
	kind   Kind
	lin    *Lin
	fl     *Flt
	seq    *Seq
	obj    *Obj
	path   []PE
	off    *Val
	n      *Val
	cap    *Val
	typ    types.Type
	val    *Val
	fields []*Val
	fn     *ssa.Function
	bi     *ssa.Builtin
	op     string
	args   []*Val
	nonNil bool
	sec    *Lin // KTime
	nsec   *Lin
	loc    string
}

type Obj struct {
	id         int
	name       string
	typ        types.Type // content type
	init       *Val       // initial content (lazily for symbolic objects)
	app        bool       // result of an append: never written through other aliases
	inp        bool       // memory of the analysed input
	glob       *ssa.Global
	run        int // creation stamp
	shared     bool
	localAlloc bool // created by the analysed code
}

type Src struct {
	id   int
	name string
	elem types.Type
	zero bool
	mk   func(idx *Lin) *Val
	der  *derived
}

type ItemKind uint8

const (
	IConst ItemKind = iota // constant bytes
	IVal                   // one element
	ISub                   // n elements of src from off
)

type Item struct {
	g    B
	k    ItemKind
	data string
	val  *Val
	src  *Src
	off  *Lin
	n    *Lin
}

type Seq struct {
	id    int
	items []Item
}

type Interner struct {
	leaves map[string]*Leaf
	vals   map[string]*Val
	seqs   map[string]*Seq
	srcs   map[string]*Src
	flts   map[string]*Flt
	nobj   int
	objs   []*Obj
	symObj map[string]*Obj
	types  map[string]int
	tags   []types.Type
}

var N *Interner

func newInterner() *Interner {
	return &Interner{leaves: map[string]*Leaf{}, vals: map[string]*Val{}, seqs: map[string]*Seq{}, srcs: map[string]*Src{},
		flts: map[string]*Flt{}, symObj: map[string]*Obj{}, types: map[string]int{}}
}

func newObj(name string, t types.Type) *Obj {
	N.nobj++
	o := &Obj{id: N.nobj, name: name, typ: t, run: N.nobj}
	N.objs = append(N.objs, o)
	return o
}

func (n *Interner) leaf(key string, mk func() *Leaf) *Leaf {
	if l, ok := n.leaves[key]; ok {
		return l
	}
	l := mk()
	l.id = len(n.leaves)
	n.leaves[key] = l
	return l
}

func one(l *Leaf) *Val { return mkVal([]Alt{{T, l}}) }

func mkVal(alts []Alt) *Val {
	m := map[*Leaf]B{}
	var order []*Leaf
	for _, a := range alts {
		if a.g == F {
			continue
		}
		if g, ok := m[a.l]; ok {
			m[a.l] = E.Or(g, a.g)
		} else {
			m[a.l] = a.g
			order = append(order, a.l)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var sb strings.Builder
	out := make([]Alt, len(order))
	for i, l := range order {
		out[i] = Alt{m[l], l}
		fmt.Fprintf(&sb, "%d:%d,", m[l], l.id)
	}
	k := sb.String()
	if v, ok := N.vals[k]; ok {
		return v
	}
	v := &Val{id: len(N.vals), alts: out}
	N.vals[k] = v
	return v
}

func vBool(b B) *Val {
	k := fmt.Sprint("b", b)
	if v, ok := N.vals[k]; ok {
		return v
	}
	v := &Val{id: len(N.vals), isBool: true, b: b}
	N.vals[k] = v
	return v
}

func lInt(l *Lin) *Leaf {
	return N.leaf(fmt.Sprint("i", l.id), func() *Leaf { return &Leaf{kind: KInt, lin: l} })
}
func vInt(l *Lin) *Val    { return one(lInt(l)) }
func vConst(c int64) *Val { return vInt(E.konst(c)) }
func vBits(bs []B) *Val   { return vInt(E.fromBitsU(bs)) }
func vFlt(f *Flt) *Val {
	return one(N.leaf(fmt.Sprint("f", f.id), func() *Leaf { return &Leaf{kind: KFloat, fl: f} }))
}
func lSeq(k Kind, s *Seq) *Leaf {
	return N.leaf(fmt.Sprint("q", k, s.id), func() *Leaf { return &Leaf{kind: k, seq: s} })
}
func vStrSeq(s *Seq) *Val { return one(lSeq(KStr, s)) }
func vStr(s string) *Val  { return vStrSeq(mkSeq([]Item{{g: T, k: IConst, data: s}})) }
func vArr(s *Seq) *Val    { return one(lSeq(KArr, s)) }

func lNil() *Leaf { return N.leaf("nil", func() *Leaf { return &Leaf{kind: KNil} }) }
func vNil() *Val  { return one(lNil()) }

func pathKey(p []PE) string {
	var sb strings.Builder
	for _, e := range p {
		if e.idx != nil {
			fmt.Fprintf(&sb, "[%d]", e.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", e.field)
		}
	}
	return sb.String()
}

func lPtr(o *Obj, p []PE) *Leaf {
	return N.leaf(fmt.Sprintf("p%d%s", o.id, pathKey(p)), func() *Leaf {
		return &Leaf{kind: KPtr, obj: o, path: append([]PE(nil), p...)}
	})
}
func vPtr(o *Obj, p ...PE) *Val { return one(lPtr(o, p)) }

func vSlice(o *Obj, off, n, c *Val) *Val { return vSliceP(o, nil, off, n, c) }
func vSliceP(o *Obj, p []PE, off, n, c *Val) *Val {
	return one(N.leaf(fmt.Sprintf("s%d%s,%d,%d,%d", o.id, pathKey(p), off.id, n.id, c.id), func() *Leaf {
		return &Leaf{kind: KSlice, obj: o, path: p, off: off, n: n, cap: c}
	}))
}

func vIface(t types.Type, v *Val) *Val {
	return one(N.leaf(fmt.Sprintf("I%d,%d", typeID(t), v.id), func() *Leaf { return &Leaf{kind: KIface, typ: t, val: v} }))
}
func vStruct(fs []*Val) *Val {
	return one(N.leaf("S"+ids(fs), func() *Leaf { return &Leaf{kind: KStruct, fields: append([]*Val(nil), fs...)} }))
}
func vTuple(fs []*Val) *Val {
	return one(N.leaf("T"+ids(fs), func() *Leaf { return &Leaf{kind: KTuple, fields: append([]*Val(nil), fs...)} }))
}
func vFunc(fn *ssa.Function, binds []*Val) *Val {
	return one(N.leaf(fmt.Sprintf("F%p", fn)+ids(binds), func() *Leaf { return &Leaf{kind: KFunc, fn: fn, fields: binds} }))
}
func vTerm(t types.Type, op string, args ...*Val) *Val {
	return one(N.leaf(fmt.Sprintf("t%s|%s", op, ids(args)), func() *Leaf {
		return &Leaf{kind: KTerm, typ: t, op: op, args: args}
	}))
}
func vErr(op string, args ...*Val) *Val {
	return one(N.leaf(fmt.Sprintf("e%s|%s", op, ids(args)), func() *Leaf {
		return &Leaf{kind: KTerm, op: op, args: args, nonNil: true}
	}))
}
func vTime(sec, nsec *Lin, loc string) *Val {
	return one(N.leaf(fmt.Sprintf("tm%d,%d,%s", sec.id, nsec.id, loc), func() *Leaf {
		return &Leaf{kind: KTime, sec: sec, nsec: nsec, loc: loc}
	}))
}

func ids(fs []*Val) string {
	var sb strings.Builder
	for _, f := range fs {
		if f == nil {
			sb.WriteString("_,")
			continue
		}
		fmt.Fprintf(&sb, "%d,", f.id)
	}
	return sb.String()
}

var aliasNames = regexp.MustCompile(`\b(byte|rune|any)\b`)

// typeKey names a type; the predeclared aliases are resolved.
func typeKey(t types.Type) string {
	return aliasNames.ReplaceAllStringFunc(types.TypeString(t, nil), func(s string) string {
		switch s {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
}

func typeID(t types.Type) int {
	k := typeKey(t)
	if i, ok := N.types[k]; ok {
		return i
	}
	i := len(N.types) + 1
	N.types[k] = i
	N.tags = append(N.tags, t)
	return i
}

// ---- floats: linear over the rationals ----

type FT struct {
	a *Atom
	k *big.Rat
}
type Flt struct {
	id int
	c  *big.Rat
	t  []FT
}

func mkFlt(c *big.Rat, m map[*Atom]*big.Rat) *Flt {
	var t []FT
	for a, k := range m {
		if k.Sign() != 0 {
			t = append(t, FT{a, k})
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].a.id < t[j].a.id })
	key := c.RatString()
	for _, x := range t {
		key += fmt.Sprintf(",%s*%d", x.k.RatString(), x.a.id)
	}
	if f, ok := N.flts[key]; ok {
		return f
	}
	f := &Flt{id: len(N.flts), c: c, t: t}
	N.flts[key] = f
	return f
}

func fltLin(l *Lin) *Flt {
	m := map[*Atom]*big.Rat{}
	for _, x := range l.t {
		m[x.a] = new(big.Rat).SetInt64(x.k)
	}
	return mkFlt(new(big.Rat).SetInt64(l.c), m)
}

func fltAdd(a *Flt, ka *big.Rat, b *Flt, kb *big.Rat) *Flt {
	m := map[*Atom]*big.Rat{}
	add := func(f *Flt, k *big.Rat) {
		for _, x := range f.t {
			p := new(big.Rat).Mul(x.k, k)
			if o, ok := m[x.a]; ok {
				p.Add(p, o)
			}
			m[x.a] = p
		}
	}
	add(a, ka)
	add(b, kb)
	c := new(big.Rat).Mul(a.c, ka)
	c.Add(c, new(big.Rat).Mul(b.c, kb))
	return mkFlt(c, m)
}

func fltConst(r *big.Rat) *Flt { return mkFlt(r, nil) }

func fltScale(a *Flt, k *big.Rat) *Flt { return fltAdd(a, k, fltConst(new(big.Rat)), new(big.Rat)) }

func (f *Flt) isConst() bool { return len(f.t) == 0 }

// fltNaN: the number computed from command line options is no number. Other
// numbers of the program come from integers, or from text that cannot say NaN.
func fltNaN(f *Flt) B {
	r := F
	for _, x := range f.t {
		switch {
		case strings.HasPrefix(x.a.key, "fl(flag."):
			r = E.Or(r, E.newVar("nan("+x.a.key+")"))
		case x.a.op == "math.Abs":
			if v := x.a.args[0]; len(v.alts) == 1 && v.alts[0].l.kind == KFloat {
				r = E.Or(r, fltNaN(v.alts[0].l.fl))
			}
		}
	}
	return r
}

// fltInf: the number is infinite.
func fltInf(f *Flt) B {
	if fltNaN(f) == F {
		return F
	}
	return E.Diff(E.newVar("inf("+fltStr(f)+")"), fltNaN(f))
}

// ordered: neither operand of a comparison is NaN.
func ordered(x, y *Val, g B) B {
	r := T
	for _, v := range []*Val{x, y} {
		if v.isBool {
			continue
		}
		for _, a := range prune(v, g).alts {
			if a.l.kind == KFloat {
				r = E.Diff(r, E.And(a.g, fltNaN(a.l.fl)))
			}
		}
	}
	return r
}

// FGE0 is an opaque predicate unless constant.
func FGE0(f *Flt) B {
	if f.isConst() {
		if f.c.Sign() >= 0 {
			return T
		}
		return F
	}
	// scale to leading coefficient +1 / -1
	k := new(big.Rat).Abs(f.t[0].k)
	f = fltScale(f, k.Inv(k))
	// absolute values are not negative
	if len(f.t) == 1 && f.t[0].a.op == "math.Abs" && f.t[0].k.Sign() > 0 && f.c.Sign() >= 0 {
		return T
	}
	if f.t[0].k.Sign() < 0 {
		// f = -X + c >= 0  <=> X <= c ; keep as its own predicate: !(X - c > 0)
		return E.Not(fgt0(fltScale(f, big.NewRat(-1, 1))))
	}
	// X + c >= 0
	return E.newVar(fmt.Sprintf("fge0(%d)%s", f.id, fltStr(f)))
}

func fgt0(f *Flt) B { // leading coefficient positive
	v := E.newVar(fmt.Sprintf("fgt0(%d)%s", f.id, fltStr(f)))
	g := E.newVar(fmt.Sprintf("fge0(%d)%s", f.id, fltStr(f)))
	E.addLemma(E.Imp(v, g))
	return v
}

func fltStr(f *Flt) string {
	s := f.c.RatString()
	for _, x := range f.t {
		n := x.a.key
		if x.a.bits != nil {
			n = E.bitsStr(x.a.bits)
		}
		s += "+" + x.k.RatString() + "*" + n
	}
	return s
}

// ---- sequences ----

func seqItemKey(sb *strings.Builder, it *Item) {
	switch it.k {
	case IConst:
		fmt.Fprintf(sb, "%d c%q;", it.g, it.data)
	case IVal:
		fmt.Fprintf(sb, "%d v%d;", it.g, it.val.id)
	default:
		fmt.Fprintf(sb, "%d s%d,%d,%d;", it.g, it.src.id, it.off.id, it.n.id)
	}
}

func mkSeq(items []Item) *Seq {
	var out []Item
	for _, it := range items {
		if it.g == F {
			continue
		}
		if it.k == IConst && it.data == "" {
			continue
		}
		if it.k == ISub && it.n.isConst() && it.n.c == 0 {
			continue
		}
		if it.k == IVal && !it.val.isBool && len(it.val.alts) == 1 && it.val.alts[0].l.kind == KInt {
			if l := it.val.alts[0].l.lin; l.isConst() && l.c >= 0 && l.c < 256 {
				it = Item{g: it.g, k: IConst, data: string([]byte{byte(l.c)})}
			}
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.g == it.g && p.k == IConst && it.k == IConst {
				p.data += it.data
				continue
			}
			if p.g == it.g && p.k == ISub && it.k == ISub && p.src == it.src && (p.src.zero || E.addLin(p.off, 1, p.n, 1) == it.off) {
				p.n = E.addLin(p.n, 1, it.n, 1)
				continue
			}
		}
		out = append(out, it)
	}
	var sb strings.Builder
	for i := range out {
		seqItemKey(&sb, &out[i])
	}
	k := sb.String()
	if s, ok := N.seqs[k]; ok {
		return s
	}
	s := &Seq{id: len(N.seqs), items: out}
	N.seqs[k] = s
	return s
}

func seqCat(a, b *Seq) *Seq {
	return mkSeq(append(append([]Item(nil), a.items...), b.items...))
}

func seqGuard(s *Seq, g B) []Item {
	var out []Item
	for _, it := range s.items {
		it.g = E.And(it.g, g)
		out = append(out, it)
	}
	return out
}

func itemLen(it *Item) *Lin {
	switch it.k {
	case IConst:
		return E.konst(int64(len(it.data)))
	case IVal:
		return E.konst(1)
	}
	return it.n
}

func seqLen(s *Seq) *Val {
	sum := vConst(0)
	acc := E.konst(0)
	for i := range s.items {
		it := &s.items[i]
		n := itemLen(it)
		if it.g == T {
			acc = E.addLin(acc, 1, n, 1)
		} else {
			sum = intAdd(sum, mkVal([]Alt{{it.g, lInt(n)}, {E.Not(it.g), lInt(E.konst(0))}}), 1)
		}
	}
	return intAdd(sum, vInt(acc), 1)
}

func newSrc(name string, elem types.Type) *Src {
	if s, ok := N.srcs[name]; ok {
		return s
	}
	s := &Src{id: len(N.srcs), name: name, elem: elem}
	N.srcs[name] = s
	return s
}

func zeroSrc(elem types.Type) *Src {
	s := newSrc("zero:"+typeKey(elem), elem)
	s.zero = true
	return s
}

func srcElem(s *Src, idx *Lin) *Val {
	if s.zero {
		return zeroVal(s.elem)
	}
	if s.mk != nil {
		return s.mk(idx)
	}
	return mkSym(s.elem, s.name+"["+E.linStr(idx)+"]")
}

func itemElem(it *Item, rel *Lin) *Val {
	switch it.k {
	case IConst:
		if rel.isConst() && rel.c >= 0 && rel.c < int64(len(it.data)) {
			return vConst(int64(it.data[rel.c]))
		}
		// variable index into constant bytes
		var alts []Alt
		rest := T
		for i := 0; i < len(it.data); i++ {
			g := E.And(rest, E.EqLin(rel, E.konst(int64(i))))
			alts = append(alts, Alt{g, lInt(E.konst(int64(it.data[i])))})
			rest = E.Diff(rest, g)
		}
		alts = append(alts, Alt{rest, lInt(E.konst(0))})
		return muxBits(mkVal(alts))
	case IVal:
		return it.val
	}
	return srcElem(it.src, E.addLin(it.off, 1, rel, 1))
}

// muxBits turns many constant alternatives into one bit vector.
func muxBits(v *Val) *Val {
	if v.isBool || len(v.alts) < 2 {
		return v
	}
	var out []B
	for _, a := range v.alts {
		if a.l.kind != KInt {
			return v
		}
		bs, ok := E.asBits(a.l.lin)
		if !ok || len(bs) > 62 {
			return v
		}
		for len(out) < len(bs) {
			out = append(out, F)
		}
		for i, b := range bs {
			out[i] = E.Or(out[i], E.And(a.g, b))
		}
	}
	return vBits(out)
}

// expandInt turns an integer with a small set of values into constant alternatives.
func expandInt(v *Val, g B) *Val {
	var alts []Alt
	changed := false
	for _, a := range v.alts {
		if a.l.kind != KInt || a.l.lin.isConst() {
			alts = append(alts, a)
			continue
		}
		l := a.l.lin
		sup := map[int32]bool{}
		ok := true
		for _, x := range l.t {
			if x.a.bits == nil {
				ok = false
				break
			}
			for _, b := range x.a.bits {
				for _, s := range E.Support(b) {
					sup[s] = true
				}
			}
		}
		lo, hi := E.rangeOf(l)
		if !ok || hi == posInf || lo == negInf || (len(sup) > 8 && hi-lo > 64) {
			alts = append(alts, a)
			continue
		}
		rest := E.And(a.g, g)
		var add []Alt
		for c := lo; c <= hi && rest != F; c++ {
			gc := E.And(rest, E.EqLin(l, E.konst(c)))
			if gc != F {
				add = append(add, Alt{gc, lInt(E.konst(c))})
				rest = E.Diff(rest, gc)
			}
		}
		if len(add) > 300 {
			alts = append(alts, a)
			continue
		}
		changed = true
		alts = append(alts, add...)
	}
	if !changed {
		return v
	}
	return mkVal(alts)
}

func intAdd(a, b *Val, kb int64) *Val {
	if len(a.alts) == 1 && len(b.alts) == 1 && a.alts[0].l.kind == KInt && b.alts[0].l.kind == KInt {
		return vInt(E.addLin(a.alts[0].l.lin, 1, b.alts[0].l.lin, kb))
	}
	var alts []Alt
	for _, x := range a.alts {
		for _, y := range b.alts {
			if g := E.And(x.g, y.g); g != F {
				if x.l.kind != KInt || y.l.kind != KInt {
					fail("integer addition of non-integers")
				}
				alts = append(alts, Alt{g, lInt(E.addLin(x.l.lin, 1, y.l.lin, kb))})
			}
		}
	}
	return mkVal(alts)
}

func prune(v *Val, g B) *Val {
	if v == nil || v.isBool {
		return v
	}
	v = clearGuard(v, g)
	if len(v.alts) <= 1 {
		return v
	}
	var alts []Alt
	for _, a := range v.alts {
		if E.And(a.g, g) != F {
			alts = append(alts, a)
		}
	}
	if len(alts) == len(v.alts) {
		return v
	}
	if len(alts) == 1 {
		return one(alts[0].l)
	}
	if len(alts) == 0 {
		return v
	}
	return mkVal(alts)
}

// restrictVal simplifies the guards of a value for use under g.
func restrictVal(v *Val, g B) *Val {
	if v == nil || g == T || g == F {
		return v
	}
	if v.isBool {
		return vBool(E.Restrict(v.b, g))
	}
	if len(v.alts) <= 1 {
		return v
	}
	var alts []Alt
	for _, a := range v.alts {
		if E.And(a.g, g) != F {
			alts = append(alts, Alt{E.Restrict(a.g, g), a.l})
		}
	}
	if len(alts) == 1 {
		return one(alts[0].l)
	}
	if len(alts) == 0 {
		return v
	}
	return mkVal(alts)
}

// seqSplit cuts a sequence at position at (under guard g). ok=false when the
// position cannot be related to item boundaries.
func seqSplit(s []Item, at *Lin, g B) (pre, post []Item, ok bool) {
	rel := at
	for i := 0; i < len(s); i++ {
		if rel.isConst() && rel.c == 0 {
			return pre, s[i:], true
		}
		it := s[i]
		gi := E.And(it.g, g)
		if gi == F {
			continue
		}
		if gi != g { // presence undecided: try to resolve by arithmetic
			return nil, nil, false
		}
		n := itemLen(&it)
		d := E.addLin(rel, 1, n, -1) // rel - n
		c := E.GE0(d)
		switch {
		case E.Diff(g, c) == F || !E.feasible(E.Diff(g, c)): // rel >= n
			pre = append(pre, it)
			rel = d
		case E.And(g, c) == F || !E.feasible(E.And(g, c)): // rel < n
			z := E.GE0(E.scale(rel, -1))
			if !E.feasible(E.Diff(g, z)) { // rel <= 0
				return pre, s[i:], true
			}
			a, b, ok := itemSplit(it, rel, n)
			if !ok {
				return nil, nil, false
			}
			return append(pre, a...), append(b, s[i+1:]...), true
		case it.k == ISub && !E.feasible(E.Diff(g, E.GE0(E.scale(d, -1)))) && !E.feasible(E.Diff(g, E.GE0(rel))): // 0 <= rel <= n
			a, b, _ := itemSplit(it, rel, n)
			return append(pre, a...), append(b, s[i+1:]...), true
		default:
			return nil, nil, false
		}
	}
	if rel.isConst() && rel.c == 0 {
		return pre, nil, true
	}
	if !E.feasible(E.Diff(g, E.EqLin(rel, E.konst(0)))) {
		return pre, nil, true
	}
	return nil, nil, false
}

func itemSplit(it Item, rel, n *Lin) (a, b []Item, ok bool) {
	switch it.k {
	case IConst:
		if !rel.isConst() {
			return nil, nil, false
		}
		x, y := it, it
		x.data, y.data = it.data[:rel.c], it.data[rel.c:]
		return []Item{x}, []Item{y}, true
	case ISub:
		x, y := it, it
		x.n = rel
		y.off = E.addLin(it.off, 1, rel, 1)
		if it.src.zero {
			y.off = it.off
		}
		y.n = E.addLin(n, 1, rel, -1)
		return []Item{x}, []Item{y}, true
	}
	return nil, nil, false
}

var opaqueCnt int

// seqSlice returns the n elements from off.
func seqSlice(s *Seq, off, n *Val, g B, elem types.Type) *Seq {
	off, n = prune(off, g), prune(n, g)
	if len(off.alts) == 1 && len(n.alts) == 1 {
		return mkSeq(seqSlice1(s, off.alts[0].l.lin, n.alts[0].l.lin, g, elem))
	}
	// whole sequence?
	if len(off.alts) == 1 && off.alts[0].l.lin.isConst() && off.alts[0].l.lin.c == 0 && seqLen(s) == n {
		return s
	}
	var out []Item
	for _, o := range off.alts {
		for _, m := range n.alts {
			gg := E.And(g, o.g, m.g)
			if gg == F || !E.feasible(gg) {
				continue
			}
			cond := E.Restrict(E.And(o.g, m.g), g)
			for _, it := range seqSlice1(s, o.l.lin, m.l.lin, gg, elem) {
				it.g = E.And(it.g, cond)
				out = append(out, it)
			}
		}
	}
	return mkSeq(factorItems(out))
}

// factorItems merges runs like (g1,x),(g2,x) of adjacent identical first items.
func factorItems(items []Item) []Item { return items }

func seqSlice1(s *Seq, off, n *Lin, g B, elem types.Type) []Item {
	if off.isConst() && off.c == 0 {
		if l := seqLen(s); len(l.alts) == 1 && l.alts[0].l.lin == n {
			return s.items
		}
	}
	_, post, ok := seqSplit(s.items, off, g)
	if ok {
		pre, _, ok2 := seqSplit(post, n, g)
		if ok2 {
			return pre
		}
	}
	// resolve undecided presence by case split on the first undecided guard
	for _, it := range s.items {
		gi := E.And(it.g, g)
		if gi != F && gi != g {
			ga, gb := gi, E.Diff(g, it.g)
			var out []Item
			for _, x := range []B{ga, gb} {
				if !E.feasible(x) {
					continue
				}
				for _, y := range seqSlice1(s, off, n, x, elem) {
					y.g = E.And(y.g, E.Restrict(x, g))
					out = append(out, y)
				}
			}
			return out
		}
	}
	// undecided position: split on the comparison with each boundary
	rel := off
	var bounds []B
	acc := E.konst(0)
	for i := range s.items {
		if E.And(s.items[i].g, g) == F {
			continue
		}
		acc = E.addLin(acc, 1, itemLen(&s.items[i]), 1)
		bounds = append(bounds, E.GE0(E.addLin(rel, 1, acc, -1)), E.GE0(E.addLin(E.addLin(rel, 1, n, 1), 1, acc, -1)))
	}
	for _, c := range bounds {
		a, b := E.And(g, c), E.Diff(g, c)
		if a != F && b != F && E.feasible(a) && E.feasible(b) {
			var out []Item
			for _, x := range []B{a, b} {
				for _, y := range seqSlice1(s, off, n, x, elem) {
					y.g = E.And(y.g, E.Restrict(x, g))
					out = append(out, y)
				}
			}
			return out
		}
	}
	src := newSrc(fmt.Sprintf("slice(q%d,%s)", s.id, E.linStr(off)), elem)
	return []Item{{g: T, k: ISub, src: src, off: E.konst(0), n: n}}
}

// seqIndex returns the element at idx under guard g.
func seqIndex(s *Seq, idx *Lin, g B, elem types.Type) *Val {
	return seqIndexItems(s.items, idx, g, elem, s.id)
}

func seqIndexItems(items []Item, rel *Lin, g B, elem types.Type, sid int) *Val {
	for i := 0; i < len(items); i++ {
		it := &items[i]
		gi := E.And(it.g, g)
		if gi == F {
			continue
		}
		if gi != g {
			a := seqIndexItems(append([]Item{withG(*it, T)}, items[i+1:]...), rel, gi, elem, sid)
			b := seqIndexItems(items[i+1:], rel, E.Diff(g, it.g), elem, sid)
			return mergeVal(it.g, a, b)
		}
		n := itemLen(it)
		d := E.addLin(rel, 1, n, -1)
		c := E.GE0(d)
		ge := E.Diff(g, c) == F || !E.feasible(E.Diff(g, c))
		if ge {
			rel = d
			continue
		}
		lt := E.And(g, c) == F || !E.feasible(E.And(g, c))
		if lt {
			return itemElem(it, rel)
		}
		if it.k == IConst && !rel.isConst() || it.k == IVal || i+1 < len(items) {
			if i+1 == len(items) {
				return itemElem(it, rel)
			}
			a := itemElem(it, rel)
			b := seqIndexItems(items[i+1:], d, E.And(g, c), elem, sid)
			return mergeVal(c, b, a)
		}
		return itemElem(it, rel)
	}
	opaqueCnt++
	return mkSym(elem, fmt.Sprintf("elem(q%d,%s)", sid, E.linStr(rel)))
}

func withG(it Item, g B) Item { it.g = g; return it }

// mergeSeq: a under c, b otherwise.
func mergeSeq(c B, a, b *Seq) *Seq {
	if a == b {
		return a
	}
	x, y := a.items, b.items
	var out []Item
	i := 0
	for i < len(x) && i < len(y) {
		if sameItem(&x[i], &y[i]) {
			out = append(out, x[i])
			i++
			continue
		}
		// same shape, different values: merge the element
		if x[i].g == y[i].g && x[i].k != ISub && y[i].k != ISub && len(x) == len(y) {
			lx, ly := 1, 1
			if x[i].k == IConst {
				lx = len(x[i].data)
			}
			if y[i].k == IConst {
				ly = len(y[i].data)
			}
			if lx == 1 && ly == 1 {
				out = append(out, Item{g: x[i].g, k: IVal, val: mergeVal(c, itemElem(&x[i], E.konst(0)), itemElem(&y[i], E.konst(0)))})
				i++
				continue
			}
		}
		// constant prefix
		if x[i].g == y[i].g && x[i].k == IConst && y[i].k == IConst {
			n := 0
			for n < len(x[i].data) && n < len(y[i].data) && x[i].data[n] == y[i].data[n] {
				n++
			}
			if n > 0 {
				p := x[i]
				p.data = p.data[:n]
				out = append(out, p)
				x = append([]Item(nil), x...)
				y = append([]Item(nil), y...)
				x[i].data = x[i].data[n:]
				y[i].data = y[i].data[n:]
				if x[i].data == "" {
					x = append(x[:i], x[i+1:]...)
					y = append(y[:i:i], y[i:]...)
					// re-align: insert nothing
				}
				if i < len(y) && y[i].k == IConst && y[i].data == "" {
					y = append(y[:i], y[i+1:]...)
				}
				x, y = x[i:], y[i:]
				i = 0
				continue
			}
		}
		break
	}
	x, y = x[i:], y[i:]
	// common suffix
	var suf []Item
	for len(x) > 0 && len(y) > 0 && sameItem(&x[len(x)-1], &y[len(y)-1]) {
		suf = append([]Item{x[len(x)-1]}, suf...)
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	out = append(out, alignItems(c, x, y)...)
	out = append(out, suf...)
	return mkSeq(out)
}

// alignItems joins two item lists; items that occur in both, in the same
// order, are kept once.
func alignItems(c B, x, y []Item) []Item {
	nc := E.Not(c)
	var out []Item
	takeX := func(it Item) { it.g = E.And(it.g, c); out = append(out, it) }
	takeY := func(it Item) { it.g = E.And(it.g, nc); out = append(out, it) }
	n, m := len(x), len(y)
	if n > 0 && m > 0 && n*m <= 4096 {
		eq := func(i, j int) bool {
			a, b := x[i], y[j]
			a.g, b.g = T, T
			return sameItem(&a, &b)
		}
		// longest common subsequence
		w := make([][]int, n+1)
		for i := range w {
			w[i] = make([]int, m+1)
		}
		for i := n - 1; i >= 0; i-- {
			for j := m - 1; j >= 0; j-- {
				switch {
				case eq(i, j):
					w[i][j] = w[i+1][j+1] + 1
				case w[i+1][j] >= w[i][j+1]:
					w[i][j] = w[i+1][j]
				default:
					w[i][j] = w[i][j+1]
				}
			}
		}
		i, j := 0, 0
		for w[i][j] > 0 {
			switch {
			case eq(i, j) && w[i][j] == w[i+1][j+1]+1:
				it := x[i]
				it.g = E.Or(E.And(c, x[i].g), E.And(nc, y[j].g))
				out = append(out, it)
				i++
				j++
			case w[i+1][j] == w[i][j]:
				takeX(x[i])
				i++
			default:
				takeY(y[j])
				j++
			}
		}
		x, y = x[i:], y[j:]
	}
	for _, it := range x {
		takeX(it)
	}
	for _, it := range y {
		takeY(it)
	}
	return out
}

func sameItem(a, b *Item) bool {
	if a.g != b.g || a.k != b.k {
		return false
	}
	switch a.k {
	case IConst:
		return a.data == b.data
	case IVal:
		return a.val == b.val
	}
	return a.src == b.src && a.off == b.off && a.n == b.n
}

// mergeVal: a if c, else b.
func mergeVal(c B, a, b *Val) *Val {
	if a == b || c == T {
		return a
	}
	if c == F || a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.isBool && b.isBool {
		return vBool(E.Ite(c, a.b, b.b))
	}
	if a.isBool || b.isBool {
		fail("merge of a boolean with another value")
	}
	if len(a.alts) == 1 && len(b.alts) == 1 {
		x, y := a.alts[0].l, b.alts[0].l
		if x.kind == y.kind {
			switch x.kind {
			case KStruct, KTuple:
				if len(x.fields) == len(y.fields) {
					fs := make([]*Val, len(x.fields))
					for i := range fs {
						fs[i] = mergeVal(c, x.fields[i], y.fields[i])
					}
					if x.kind == KStruct {
						return vStruct(fs)
					}
					return vTuple(fs)
				}
			case KArr:
				return vArr(mergeSeq(c, x.seq, y.seq))
			case KStr:
				if s := mergeStr(c, x.seq, y.seq); s != nil {
					return vStrSeq(s)
				}
			case KInt:
				if !(x.lin.isConst() && y.lin.isConst()) {
					p, ok1 := E.asBits(x.lin)
					q, ok2 := E.asBits(y.lin)
					if ok1 && ok2 && (x.lin.isConst() || y.lin.isConst() || smallSupport(p, q)) {
						w := max(len(p), len(q))
						r := make([]B, w)
						for i := range r {
							u, v := F, F
							if i < len(p) {
								u = p[i]
							}
							if i < len(q) {
								v = q[i]
							}
							r[i] = E.Ite(c, u, v)
						}
						return vBits(r)
					}
				}
			case KIface:
				if types.Identical(x.typ, y.typ) {
					return vIface(x.typ, mergeVal(c, x.val, y.val))
				}
			case KSlice:
				if x.obj == y.obj && pathKey(x.path) == pathKey(y.path) {
					return vSliceP(x.obj, x.path, mergeVal(c, x.off, y.off), mergeVal(c, x.n, y.n), mergeVal(c, x.cap, y.cap))
				}
			}
		}
	}
	nc := E.Not(c)
	var alts []Alt
	for _, x := range a.alts {
		alts = append(alts, Alt{E.And(c, x.g), x.l})
	}
	for _, x := range b.alts {
		alts = append(alts, Alt{E.And(nc, x.g), x.l})
	}
	v := mkVal(alts)
	if len(v.alts) > 40 && v.alts[0].l.kind == KInt {
		return muxBits(v)
	}
	return v
}

// smallSupport: merging the bits keeps the diagrams small. Values over many
// different inputs stay separate alternatives.
func smallSupport(p, q []B) bool {
	for i := 0; i < len(p) || i < len(q); i++ {
		n := 0
		var a, b []int32
		if i < len(p) {
			a = E.Support(p[i])
		}
		if i < len(q) {
			b = E.Support(q[i])
		}
		n = len(a)
		in := map[int32]bool{}
		for _, v := range a {
			in[v] = true
		}
		for _, v := range b {
			if !in[v] {
				n++
			}
		}
		if n > 8 {
			return false
		}
	}
	return true
}

// mergeStr merges two strings of the same constant length element by element.
func mergeStr(c B, a, b *Seq) *Seq {
	ea, oka := seqBytes(a)
	eb, okb := seqBytes(b)
	if !oka || !okb || len(ea) != len(eb) || len(ea) > 64 {
		return nil
	}
	var out []Item
	for i := range ea {
		out = append(out, Item{g: T, k: IVal, val: mergeVal(c, ea[i], eb[i])})
	}
	return mkSeq(out)
}

// seqBytes lists the elements of a sequence of constant length.
func seqBytes(s *Seq) ([]*Val, bool) {
	var out []*Val
	for i := range s.items {
		it := &s.items[i]
		if it.g != T {
			return nil, false
		}
		n := itemLen(it)
		if !n.isConst() || n.c > 4096 {
			return nil, false
		}
		for j := int64(0); j < n.c; j++ {
			out = append(out, itemElem(it, E.konst(j)))
		}
	}
	return out, true
}

func constStr(v *Val) (string, bool) {
	if v == nil || v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KStr {
		return "", false
	}
	s := v.alts[0].l.seq
	if len(s.items) == 0 {
		return "", true
	}
	if len(s.items) == 1 && s.items[0].k == IConst && s.items[0].g == T {
		return s.items[0].data, true
	}
	return "", false
}

func constInt(v *Val) (int64, bool) {
	if v == nil || v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KInt || !v.alts[0].l.lin.isConst() {
		return 0, false
	}
	return v.alts[0].l.lin.c, true
}

// ---- symbolic and zero values ----

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

const zeroTimeSec = -62135596800

func zeroVal(t types.Type) *Val {
	if isTime(t) {
		return vTime(E.konst(zeroTimeSec), E.konst(0), "UTC")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vBool(F)
		case u.Info()&types.IsInteger != 0:
			return vConst(0)
		case u.Info()&types.IsFloat != 0:
			return vFlt(fltConst(new(big.Rat)))
		case u.Info()&types.IsString != 0:
			return vStr("")
		}
		return vNil()
	case *types.Struct:
		fs := make([]*Val, u.NumFields())
		for i := range fs {
			fs[i] = zeroVal(u.Field(i).Type())
		}
		streamTail(t, fs)
		return vStruct(fs)
	case *types.Array:
		return vArr(mkSeq([]Item{{g: T, k: ISub, src: zeroSrc(u.Elem()), off: E.konst(0), n: E.konst(u.Len())}}))
	case *types.Tuple:
		fs := make([]*Val, u.Len())
		for i := range fs {
			fs[i] = zeroVal(u.At(i).Type())
		}
		return vTuple(fs)
	}
	return vNil()
}

// streamTail: the written part of a buffer is kept in one of its fields.
func streamTail(t types.Type, fs []*Val) {
	if isNamed(t, "bytes", "Buffer") && len(fs) > 2 {
		fs[2] = vArr(mkSeq(nil))
	}
	if isNamed(t, "strings", "Builder") && len(fs) > 1 {
		fs[1] = vArr(mkSeq(nil))
	}
}

func intRange(t types.Type) (lo, hi int64, bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return negInf, posInf, 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, 8, true
	case types.Int16:
		return -32768, 32767, 16, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, 32, true
	case types.Uint8:
		return 0, 255, 8, false
	case types.Uint16:
		return 0, 65535, 16, false
	case types.Uint32:
		return 0, 1<<32 - 1, 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, posInf, 64, false
	}
	return negInf, posInf, 64, true
}

// symHook lets a specification supply values for particular symbols.
var symHook func(t types.Type, name string) *Val

func mkSym(t types.Type, name string) *Val {
	if symHook != nil {
		if v := symHook(t, name); v != nil {
			return v
		}
	}
	if isTime(t) {
		s := E.atom("sec("+name+")", negInf, posInf)
		n := E.atom("nsec("+name+")", 0, 999999999)
		return vTime(E.linAtom(s), E.linAtom(n), "loc("+name+")")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vBool(E.newVar(name))
		case u.Info()&types.IsInteger != 0:
			lo, hi, w, signed := intRange(t)
			if !signed && w <= 32 {
				bits := make([]B, w)
				for i := range bits {
					bits[i] = E.newVar(fmt.Sprintf("%s.%d", name, i))
				}
				return vBits(bits)
			}
			return vInt(E.linAtom(E.atom(name, lo, hi)))
		case u.Info()&types.IsFloat != 0:
			a := E.atom("fl("+name+")", negInf, posInf)
			return vFlt(mkFlt(new(big.Rat), map[*Atom]*big.Rat{a: big.NewRat(1, 1)}))
		case u.Info()&types.IsString != 0:
			return symStr(name)
		}
		return vTerm(t, "sym:"+name)
	case *types.Struct:
		fs := make([]*Val, u.NumFields())
		for i := range fs {
			fs[i] = mkSym(u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return vStruct(fs)
	case *types.Array:
		return vArr(mkSeq([]Item{{g: T, k: ISub, src: newSrc(name, u.Elem()), off: E.konst(0), n: E.konst(u.Len())}}))
	case *types.Slice:
		return symSlice(u.Elem(), name)
	case *types.Pointer:
		return vPtr(symObj(name, u.Elem()))
	case *types.Tuple:
		fs := make([]*Val, u.Len())
		for i := range fs {
			fs[i] = mkSym(u.At(i).Type(), fmt.Sprintf("%s#%d", name, i))
		}
		return vTuple(fs)
	}
	return vTerm(t, "sym:"+name)
}

func symStr(name string) *Val {
	n := E.linAtom(E.atom("len("+name+")", 0, 1<<31))
	return vStrSeq(mkSeq([]Item{{g: T, k: ISub, src: newSrc(name, types.Typ[types.Uint8]), off: E.konst(0), n: n}}))
}

func symSlice(elem types.Type, name string) *Val {
	o := symObj("*"+name, types.NewSlice(elem))
	n := E.linAtom(E.atom("len("+name+")", 0, 1<<31))
	if o.init == nil {
		o.init = vArr(mkSeq([]Item{{g: T, k: ISub, src: newSrc(name, elem), off: E.konst(0), n: n}}))
		o.app = true
	}
	return vSlice(o, vConst(0), vInt(n), vInt(E.addLin(n, 1, E.linAtom(E.atom("room("+name+")", 0, 1<<40)), 1)))
}

func symObj(name string, t types.Type) *Obj {
	if o, ok := N.symObj[name]; ok {
		return o
	}
	o := newObj(name, t)
	N.symObj[name] = o
	return o
}

func objInit(o *Obj) *Val {
	if o.init == nil {
		o.init = mkSym(o.typ, strings.TrimPrefix(o.name, "&"))
	}
	return o.init
}

func isInput(o *Obj) bool { return o.inp }

// valStr renders a value for reports.
func valStr(v *Val) string { return valStrD(v, 3) }

func valStrD(v *Val, d int) string {
	if v == nil {
		return "?"
	}
	if v.isBool {
		return E.bStr(v.b)
	}
	var parts []string
	for i, a := range v.alts {
		if i >= 4 {
			parts = append(parts, "...")
			break
		}
		s := leafStr(a.l, d)
		if a.g != T {
			s = "(" + E.bStr(a.g) + " ? " + s + ")"
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " | ")
}

func leafStr(l *Leaf, d int) string {
	if d == 0 {
		return "…"
	}
	switch l.kind {
	case KInt:
		return E.linStr(l.lin)
	case KFloat:
		return fltStr(l.fl)
	case KStr:
		return "str" + seqStr(l.seq, d-1)
	case KArr:
		return "arr" + seqStr(l.seq, d-1)
	case KPtr:
		return "&" + l.obj.name + pathKey(l.path)
	case KNil:
		return "nil"
	case KSlice:
		return fmt.Sprintf("%s[%s:+%s]", l.obj.name, valStrD(l.off, d-1), valStrD(l.n, d-1))
	case KIface:
		return types.TypeString(l.typ, shortQ) + "(" + valStrD(l.val, d-1) + ")"
	case KStruct, KTuple:
		var p []string
		for _, f := range l.fields {
			p = append(p, valStrD(f, d-1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case KFunc:
		if l.fn != nil {
			return l.fn.String()
		}
		return "func"
	case KTime:
		return fmt.Sprintf("time(%s,%s,%s)", E.linStr(l.sec), E.linStr(l.nsec), l.loc)
	case KTerm:
		var p []string
		for _, f := range l.args {
			p = append(p, valStrD(f, d-1))
		}
		return l.op + "(" + strings.Join(p, ",") + ")"
	}
	return "?"
}

func shortQ(p *types.Package) string { return p.Name() }

func seqStr(s *Seq, d int) string {
	var p []string
	for i := range s.items {
		if i >= 24 {
			p = append(p, "...")
			break
		}
		it := &s.items[i]
		var x string
		switch it.k {
		case IConst:
			x = fmt.Sprintf("%q", it.data)
		case IVal:
			x = valStrD(it.val, max(d, 1))
		default:
			x = fmt.Sprintf("%s[%s:+%s]", it.src.name, E.linStr(it.off), E.linStr(it.n))
		}
		if it.g != T {
			x = "{" + E.bStr(it.g) + "}? " + x
		}
		p = append(p, x)
	}
	return "<" + strings.Join(p, " ") + ">"
}

// clearGuard drops from the bits of an integer the conditions every bit
// shares and that hold under g: (c & b0, c & b1, ...) is (b0, b1, ...) where
// c holds.
func clearGuard(v *Val, g B) *Val {
	if v == nil || v.isBool || g == T || g == F {
		return v
	}
	same := true
	out := make([]Alt, len(v.alts))
	for i, a := range v.alts {
		out[i] = Alt{a.g, clearLeaf(a.l, g)}
		same = same && out[i].l == a.l
	}
	if same {
		return v
	}
	return mkVal(out)
}

func clearLeaf(l *Leaf, g B) *Leaf {
	if l.kind != KInt || l.lin == nil {
		return l
	}
	if n := clearLin(l.lin, g); n != l.lin {
		return lInt(n)
	}
	return l
}

func clearLin(l *Lin, g B) *Lin {
	out := l
	for _, x := range l.t {
		if x.a.bits == nil {
			continue
		}
		bits := append([]B(nil), x.a.bits...)
		changed := false
		for {
			v := sharedGuard(bits, g)
			if v < 0 {
				break
			}
			is := F
			if E.And(g, E.mk(v, F, T)) == g {
				is = T
			}
			for i, b := range bits {
				bits[i] = E.Subst(b, map[int32]B{v: is})
			}
			changed = true
		}
		if changed {
			out = E.addLin(E.addLin(out, 1, E.linAtom(x.a), -x.k), 1, E.fromBitsU(bits), x.k)
		}
	}
	return out
}

// sharedGuard is a variable that all varying bits depend on and that is
// decided under g, or -1.
func sharedGuard(bits []B, g B) int32 {
	var cand []int32
	n := 0
	for _, b := range bits {
		if b <= T {
			continue
		}
		sup := E.Support(b)
		if len(sup) < 2 {
			return -1
		}
		n++
		if n == 1 {
			cand = append(cand, sup...)
			continue
		}
		in := map[int32]bool{}
		for _, v := range sup {
			in[v] = true
		}
		k := cand[:0]
		for _, v := range cand {
			if in[v] {
				k = append(k, v)
			}
		}
		cand = k
	}
	if n < 2 {
		return -1
	}
	for _, v := range cand {
		x := E.mk(v, F, T)
		if d := E.And(g, x); d == g || d == F {
			return v
		}
	}
	return -1
}
