package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- writing side ----

// encoder describes the receiver of an Encode method: the symbols of its
// fields and the bytes the layout assigns to them.
type encoder struct {
	prefix string
	vals   map[string]*Val // supplied symbols, by full name
	out    []Item          // expected encoding
	inRng  B               // the values fit into their fields
	flagOK B               // every flag character is a binary digit
	share  map[string]B    // values that share a byte fit into their bits, by field
	any    bool            // values and flags are arbitrary (flags have one character per bit)
	flag   map[string]B
	at     map[string]int // first item of an integer field
}

func digit(b B) *Val { return bitChar(b).val }

// sym is the hook that supplies the values.
func (en *encoder) sym(t types.Type, name string) *Val { return en.vals[name] }

func varBits(name string, n int) []B {
	out := make([]B, n)
	for i := range out {
		out[i] = E.newVar(fmt.Sprintf("%s.%d", name, i))
	}
	return out
}

func isDigit(c *Val) B {
	b := bitsOf(c, 8, T)
	return E.And(E.Not(b[7]), E.Not(b[6]), b[5], b[4], E.Not(b[3]), E.Not(b[2]), E.Not(b[1]))
}

// uintSym makes an unsigned symbol of type t whose value fits into n bits,
// unless arbitrary values are asked for; fits tells that it does.
func (en *encoder) uintSym(t types.Type, name string, n int) (bs []B, fits B) {
	_, _, w, _ := intRange(t)
	bs = varBits(name, w)
	if !en.any {
		for i := n; i < w; i++ {
			bs[i] = F
		}
	}
	fits = T
	for i := n; i < w; i++ {
		fits = E.And(fits, E.Not(bs[i]))
	}
	en.vals[name] = vBits(bs)
	if n <= len(bs) {
		return bs[:n], fits
	}
	for len(bs) < n {
		bs = append(bs, F)
	}
	return bs, fits
}

func (en *encoder) putBits(g B, bs []B) {
	for i := 0; i < len(bs); i += 8 {
		en.out = append(en.out, Item{g: g, k: IVal, val: vBits(bs[i : i+8])})
	}
}

// replace sets the expected bytes of a derived field.
func (en *encoder) replace(name string, bs []B) {
	for i := 0; i < len(bs); i += 8 {
		it := &en.out[en.at[name]+i/8]
		it.val = vBits(bs[i : i+8])
	}
}

// text makes a text symbol of at most max bytes (no limit if negative).
func (en *encoder) text(name string, max int, slice bool) (*Seq, *Lin) {
	hi := int64(1 << 31)
	if max >= 0 && !en.any {
		hi = int64(max)
	}
	n := E.linAtom(E.atom("len("+name+")", 0, hi))
	if slice {
		v := symSlice(u8t, name)
		en.vals[name] = v
		return v.alts[0].l.obj.init.alts[0].l.seq, n
	}
	q := mkSeq([]Item{{g: T, k: ISub, src: newSrc(name, u8t), off: E.konst(0), n: n}})
	en.vals[name] = vStrSeq(q)
	return q, n
}

func (en *encoder) flagText(name string, n int) (chars []*Val, bits []B) {
	var items []Item
	for i := 0; i < n; i++ {
		var c *Val
		if en.any {
			cb := varBits(fmt.Sprintf("%s[%d]", name, i), 8)
			c = vBits(cb)
			bits = append(bits, cb[0])
			en.flagOK = E.And(en.flagOK, isDigit(c))
		} else {
			b := E.newVar(fmt.Sprintf("%s[%d]", name, i))
			c = digit(b)
			bits = append(bits, b)
		}
		items = append(items, Item{g: T, k: IVal, val: c})
		chars = append(chars, c)
	}
	en.vals[name] = vStrSeq(mkSeq(items))
	return
}

// newEncoder lays out one section.
func newEncoder(prefix string, str *types.Struct, sec section, arbitrary bool) *encoder {
	en := &encoder{prefix: prefix, vals: map[string]*Val{}, inRng: T, flagOK: T, share: map[string]B{}, any: arbitrary, flag: map[string]B{}, at: map[string]int{}}
	ft := func(name string) types.Type {
		i := fieldIndex(str, name)
		if i < 0 {
			fail("no field " + name)
		}
		return str.Field(i).Type()
	}
	fits := func(name string, b B, shared bool) {
		en.inRng = E.And(en.inRng, b)
		if shared {
			en.share[name] = b
		}
	}
	flag := en.flag
	nm := func(f string) string { return prefix + "." + f }
	var dirh B
	for _, f := range sec.fields {
		cond := T
		if f.opt != "" {
			cond = flag[f.opt]
		}
		switch f.kind {
		case kU:
			bs, ok := en.uintSym(ft(f.name), nm(f.name), 8*f.n)
			fits(f.name, E.Imp(cond, ok), false)
			en.at[f.name] = len(en.out)
			en.putBits(cond, bs)
		case kFlags:
			// most significant bit first
			by := make([]B, 8)
			pos := 7
			for _, fb := range f.bits {
				var part []B
				switch {
				case fb.name == "":
					for i := 0; i < fb.n; i++ {
						part = append(part, F)
					}
				case fb.num:
					bs, ok := en.uintSym(ft(fb.name), nm(fb.name), fb.n)
					fits(fb.name, ok, true)
					for i := range bs {
						part = append(part, bs[len(bs)-1-i])
					}
				default:
					_, part = en.flagText(nm(fb.name), fb.n)
					if fb.n == 1 {
						flag[fb.name] = part[0]
						if en.any {
							// a flag announces its field when it is the digit one
							flag[fb.name] = E.And(part[0], isDigit(en.vals[nm(fb.name)].alts[0].l.seq.items[0].val))
						}
					}
				}
				for _, b := range part {
					by[pos] = b
					pos--
				}
			}
			en.putBits(cond, by)
		case kFixed, kBytes:
			q, n := en.text(nm(f.name), f.n, f.kind == kBytes)
			fits(f.name, E.Imp(cond, E.GE0(E.addLin(E.konst(int64(f.n)), 1, n, -1))), false)
			for _, it := range q.items {
				it.g = cond
				en.out = append(en.out, it)
			}
			en.out = append(en.out, Item{g: cond, k: ISub, src: zeroSrc(u8t), off: E.konst(0), n: E.addLin(E.konst(int64(f.n)), 1, n, -1)})
		case kRest, kZStr, kZOpt:
			q, n := en.text(nm(f.name), -1, false)
			g := T
			if f.kind == kZOpt {
				g = E.GE0(E.addLin(n, 1, E.konst(-1), 1))
			}
			for _, it := range q.items {
				it.g = g
				en.out = append(en.out, it)
			}
			if f.kind != kRest {
				en.out = append(en.out, Item{g: g, k: IVal, val: vConst(0)})
			}
		case kTime:
			name := nm(f.name)
			bs := varBits("u32("+name+")", 32)
			nsec := E.linAtom(E.atom("nsec("+name+")", 0, 999999999))
			en.vals[name] = vTime(E.addLin(E.fromBitsU(bs), 1, E.konst(epoch), 1), nsec, "loc("+name+")")
			en.putBits(T, bs)
		case kCoord:
			name := nm(f.name)
			a := E.atom("fl("+name+")", 0, f.scale)
			fl := mkFlt(new(big.Rat), map[*Atom]*big.Rat{a: big.NewRat(1, 1)})
			en.vals[name] = vFlt(fl)
			v := truncFloat(vFlt(fltScale(fl, big.NewRat(0xFFFFFFFF, f.scale))).alts[0].l, types.Typ[types.Uint32], T)
			en.putBits(T, bitsOf(v, 32, T))
		case kSpeed:
			sp := varBits(nm("Speed"), 16)
			if !en.any {
				for i := 11; i < 16; i++ {
					sp[i] = F
				}
			}
			en.vals[nm("Speed")] = vBits(sp)
			ok := E.Not(E.bitsGE(sp, 1639)) // tenths fit into 14 bits
			fits("Speed", ok, true)
			as, ok1 := en.uintSym(ft("AltitudeSign"), nm("AltitudeSign"), 1)
			fits("AltitudeSign", ok1, true)
			dh, ok2 := en.uintSym(ft("DirectionHighestBit"), nm("DirectionHighestBit"), 1)
			fits("DirectionHighestBit", ok2, true)
			dirh = dh[0]
			w := bitsOf(vInt(E.scale(E.fromBitsU(sp[:11]), 10)), 14, ok)
			en.putBits(T, append(append(append([]B(nil), w...), as[0]), dh[0]))
		case kDir:
			d := varBits(nm("Direction"), 8)
			en.vals[nm("Direction")] = vBits(d)
			by := append([]B(nil), d...)
			by[7] = E.Diff(d[7], dirh)
			en.putBits(T, by)
		}
	}
	return en
}

// encodeRun analyses T.Encode (or another method without parameters).
type encodeRun struct {
	an   *Analysis
	fn   *ssa.Function
	st   *State
	pre  *State
	recv *Val
	ret  *Val
	ok   B
	fail B
	out  *Seq
}

func runEncode(r *Report, p *ssa.Package, typ string, g B, hook func(an *Analysis)) *encodeRun {
	fn := r.w.method(p, typ, "Encode")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		fail("no method Encode() ([]byte, error) on " + typ)
	}
	an := start(r.w)
	if hook != nil {
		hook(an)
	}
	st := newState()
	st.g = g
	recv := mkSym(fn.Params[0].Type(), "p0")
	er := &encodeRun{an: an, fn: fn, recv: recv, pre: st.clone()}
	er.ret = an.call(fn, []*Val{recv}, nil, st, "")
	er.st = st
	ev := tupleField(er.ret, 1, fn.Signature.Results().At(1).Type())
	er.ok = E.And(st.g, errNil(ev))
	er.fail = E.Diff(st.g, errNil(ev))
	er.out = textOf(st, tupleField(er.ret, 0, fn.Signature.Results().At(0).Type()), er.ok)
	return er
}

// itemsFrom builds a sequence from guarded items.
func (en *encoder) expected() *Seq { return mkSeq(en.out) }

func unmodified(an *Analysis, st, pre *State, g B) (bool, string) {
	for o, v := range st.heap {
		if o.localAlloc {
			continue
		}
		if v0 := pre.content(o); !eqUnder(g, v, v0) {
			q, q0 := arrSeq(v, g), arrSeq(v0, g)
			if q != nil && q0 != nil && seqEqUnder(g, q, q0) {
				continue
			}
			return false, o.name
		}
	}
	for _, e := range an.events {
		if (e.kind == "havoc" || e.kind == "store") && e.args != nil {
			if a := e.args[0]; a != nil && !a.isBool {
				for _, x := range a.alts {
					if (x.l.kind == KPtr || x.l.kind == KSlice) && x.l.obj != nil && !x.l.obj.localAlloc && E.feasible(E.And(e.g, x.g)) {
						return false, x.l.obj.name + " (passed to " + short(e.name) + ")"
					}
				}
			}
		}
	}
	return true, ""
}

// checkSectionEncode decides one Encode method. part: "layout" (C04),
// "flags" (C09), "range" (C10), "length" (C08) or "pure" (C12).
func checkSectionEncode(r *Report, sec section, part string) {
	p := r.w.pkg("libs/egts")
	arbitrary := part != "layout"
	r.sub(part, sec.typ+".Encode", func() *Analysis {
		str := structOf(p, sec.typ)
		en := newEncoder("p0", str, sec, arbitrary)
		symHook = en.sym
		er := runEncode(r, p, sec.typ, T, func(an *Analysis) { codecBoundary(an, sec.typ) })
		where := r.w.posStr(er.fn.Pos())
		switch part {
		case "layout":
			g := en.inRng
			r.add("in-range values are encoded", sec.typ, !E.feasible(E.And(er.fail, g)) && E.feasible(er.ok), where, "encoding fails for values within their ranges")
			ok, d := er.out != nil, "no output"
			if ok {
				ok = seqEqUnder(E.And(er.ok, g), er.out, en.expected())
				d = "writes " + seqStr(er.out, 4) + " instead of " + seqStr(en.expected(), 4)
			}
			r.add("encoded as laid out", sec.typ, ok, where, d)
		case "flags":
			r.add("flags that are not binary digits are refused", sec.typ, !E.feasible(E.Diff(er.ok, en.flagOK)), where, "a malformed flag is encoded without an error")
			// texts and numbers too long for a fixed field
			r.add("fixed-width texts that are too long are refused", sec.typ, !E.feasible(E.Diff(er.ok, textFits(en, sec))), where, "a text longer than its field is cut without an error")
		case "range":
			for f, fit := range en.share {
				r.add("refused when it does not fit into its bits", sec.typ+"."+f, !E.feasible(E.Diff(E.And(er.ok, en.flagOK), fit)), where, "a value of "+f+" that is too large is written over neighbouring bits")
			}
		case "length":
			fn := r.w.method(p, sec.typ, "Length")
			if fn == nil {
				fail("no method Length")
			}
			st := newState()
			n := er.an.call(fn, []*Val{er.recv}, nil, st, "length:")
			if er.out == nil {
				fail("no output")
			}
			want := seqLen(er.out)
			g := E.And(er.ok, st.g, en.flagOK, cmpGE(vConst(65535), want, T))
			r.add("Length equals the encoded size", sec.typ, eqUnder(g, n, want) || eqUnder(g, n, wrapInt(want, types.Typ[types.Uint16], T)), where, "Length is "+valStr(n)+", the encoding has "+valStr(want)+" bytes")
		case "pure":
			ok, d := unmodified(er.an, er.st, er.pre, er.st.g)
			r.add("Encode leaves the section unchanged", sec.typ, ok, where, "changes "+d)
			ok, d = deterministic(er.an)
			r.add("Encode depends on the section only", sec.typ, ok, where, d)
			r.add("the encoding is newly allocated", sec.typ, freshSlices(er.an, tupleField(er.ret, 0, nil), er.ok), where, "the result shares memory with the section")
		}
		return er.an
	})
}

func textFits(en *encoder, sec section) B {
	ok := T
	for _, f := range sec.fields {
		if f.kind == kFixed || f.kind == kBytes {
			n := E.linAtom(E.atom("len("+en.prefix+"."+f.name+")", 0, 1<<31))
			c := T
			if f.opt != "" {
				v := en.vals[en.prefix+"."+f.opt]
				ch := v.alts[0].l.seq.items[0].val
				c = E.And(bitsOf(ch, 8, T)[0], isDigit(ch))
			}
			ok = E.And(ok, E.Imp(c, E.GE0(E.addLin(E.konst(int64(f.n)), 1, n, -1))))
		}
	}
	return ok
}

// nondet lists sources of values that differ from run to run.
var nondet = []string{"time.Now", "math/rand", "crypto/rand", "os.Getpid", "os.Getenv", "runtime."}

func deterministic(an *Analysis) (bool, string) {
	for _, e := range an.events {
		if e.kind == "ext" {
			for _, p := range nondet {
				if strings.HasPrefix(e.name, p) {
					return false, "calls " + e.name
				}
			}
		}
	}
	for fn := range an.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Select:
					return false, "waits for channels in " + short(fn.String())
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil && an.w.pkgs[g.Pkg.Pkg.Path()] == g.Pkg && an.w.mutable(g) {
						return false, "reads the mutable variable " + g.Name() + " in " + short(fn.String())
					}
				}
			}
		}
	}
	return true, ""
}

// freshSlices reports whether v, under g, is backed only by memory that was
// allocated during the analysis; a value carried by a loop is, if it is before
// the loop and stays so.
func freshSlices(an *Analysis, v *Val, g B) bool {
	carried := map[*Obj]bool{}
	each := func(v *Val, g B, f func(o *Obj)) {
		if v == nil || v.isBool {
			return
		}
		for _, a := range v.alts {
			if a.l.kind == KSlice && !a.l.obj.localAlloc && E.feasible(E.And(g, a.g)) {
				f(a.l.obj)
			}
		}
	}
	type link struct {
		of, to *Obj
		ok     bool
	}
	var links []link
	for _, l := range an.loops {
		for _, k := range l.order {
			h := l.havoc[k]
			each(h.sym, T, func(o *Obj) {
				carried[o] = true
				links = append(links, link{of: o, ok: l.back != nil})
				if l.back == nil {
					return
				}
				each(h.init, l.init.g, func(to *Obj) { links = append(links, link{o, to, true}) })
				each(h.back, l.back.g, func(to *Obj) { links = append(links, link{o, to, true}) })
			})
		}
	}
	for again := true; again; {
		again = false
		for _, l := range links {
			if carried[l.of] && (!l.ok || l.to != nil && !carried[l.to]) {
				carried[l.of] = false
				again = true
			}
		}
	}
	ok := true
	each(v, g, func(o *Obj) { ok = ok && carried[o] })
	return ok
}
