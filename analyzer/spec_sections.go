package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Layout of the sub-records, as given by the EGTS standard (GOST 33472,
// order of the Ministry of Transport N 285). One table serves both directions.

type fkind int

const (
	kU fkind = iota // little-endian unsigned integer of n bytes
	kFlags
	kFixed // text of n bytes
	kBytes // []byte of n bytes
	kRest  // text up to the end
	kZStr  // text up to a zero byte
	kZOpt  // the same, present if bytes are left
	kTime  // seconds since 2010
	kCoord // unsigned 32 bits scaled to scale degrees
	kSpeed // altitude sign, direction bit and speed
	kDir   // low byte of the course
)

type field struct {
	name  string
	kind  fkind
	n     int
	opt   string // flag that announces the field
	bits  []flagBits
	scale int64
}

// flagBits are the bits of a flag byte from the most significant one: text
// flags of n characters, numbers of n bits, or reserved bits (no name).
type flagBits struct {
	name string
	n    int
	num  bool
}

type section struct {
	typ    string
	code   int
	fields []field
}

func u(name string, n int) field     { return field{name: name, kind: kU, n: n} }
func opt(f field, flag string) field { f.opt = flag; return f }
func flags(bits ...flagBits) field   { return field{kind: kFlags, bits: bits} }
func fl(names ...string) (out []flagBits) {
	for _, n := range names {
		out = append(out, flagBits{name: n, n: 1})
	}
	return
}
func rsv(n int) flagBits { return flagBits{n: n} }

func numbered(prefix string, from, to, step int) (out []string) {
	for i := from; ; i += step {
		out = append(out, fmt.Sprintf("%s%d", prefix, i))
		if i == to {
			return
		}
	}
}

func sections() []section {
	var cnt, ads []field
	cnt = append(cnt, flags(fl(numbered("CounterFieldExists", 8, 1, -1)...)...))
	ads = append(ads, flags(fl(numbered("DigitalInputsOctetExists", 8, 1, -1)...)...), u("DigitalOutputs", 1),
		flags(fl(numbered("AnalogSensorFieldExists", 8, 1, -1)...)...))
	for i := 1; i <= 8; i++ {
		cnt = append(cnt, opt(u(fmt.Sprintf("Counter%d", i), 3), fmt.Sprintf("CounterFieldExists%d", i)))
		ads = append(ads, opt(u(fmt.Sprintf("AdditionalDigitalInputsOctet%d", i), 1), fmt.Sprintf("DigitalInputsOctetExists%d", i)))
	}
	for i := 1; i <= 8; i++ {
		ads = append(ads, opt(u(fmt.Sprintf("AnalogSensor%d", i), 3), fmt.Sprintf("AnalogSensorFieldExists%d", i)))
	}
	return []section{
		{"SrPosData", 16, []field{
			{name: "NavigationTime", kind: kTime, n: 4}, {name: "Latitude", kind: kCoord, n: 4, scale: 90}, {name: "Longitude", kind: kCoord, n: 4, scale: 180},
			flags(fl("ALTE", "LOHS", "LAHS", "MV", "BB", "CS", "FIX", "VLD")...),
			{kind: kSpeed, n: 2}, {kind: kDir, n: 1}, u("Odometer", 3), u("DigitalInputs", 1), u("Source", 1), opt(u("Altitude", 3), "ALTE")}},
		{"SrExtPosData", 17, []field{
			flags(append([]flagBits{rsv(3)}, fl("NavigationSystemFieldExists", "SatellitesFieldExists", "PdopFieldExists", "HdopFieldExists", "VdopFieldExists")...)...),
			opt(u("VerticalDilutionOfPrecision", 2), "VdopFieldExists"), opt(u("HorizontalDilutionOfPrecision", 2), "HdopFieldExists"),
			opt(u("PositionDilutionOfPrecision", 2), "PdopFieldExists"), opt(u("Satellites", 1), "SatellitesFieldExists"),
			opt(u("NavigationSystem", 2), "NavigationSystemFieldExists")}},
		{"SrAdSensorsData", 18, ads},
		{"SrCountersData", 19, cnt},
		{"SrStateData", 21, []field{u("State", 1), u("MainPowerSourceVoltage", 1), u("BackUpBatteryVoltage", 1), u("InternalBatteryVoltage", 1),
			flags(append([]flagBits{rsv(5)}, fl("NMS", "IBU", "BBU")...)...)}},
		{"SrAbsAnSensData", 24, []field{u("SensorNumber", 1), u("Value", 3)}},
		{"SrAbsCntrData", 25, []field{u("CounterNumber", 1), u("CounterValue", 3)}},
		{"SrLiquidLevelSensor", 27, []field{
			flags(rsv(1), flagBits{name: "LiquidLevelSensorErrorFlag", n: 1}, flagBits{name: "LiquidLevelSensorValueUnit", n: 2},
				flagBits{name: "RawDataFlag", n: 1}, flagBits{name: "LiquidLevelSensorNumber", n: 3, num: true}),
			u("ModuleAddress", 2), u("LiquidLevelSensorData", 4)}},
		{"SrTermIdentity", 1, []field{u("TerminalIdentifier", 4),
			flags(fl("MNE", "BSE", "NIDE", "SSRA", "LNGCE", "IMSIE", "IMEIE", "HDIDE")...),
			opt(u("HomeDispatcherIdentifier", 2), "HDIDE"),
			{name: "IMEI", kind: kFixed, n: 15, opt: "IMEIE"}, {name: "IMSI", kind: kFixed, n: 16, opt: "IMSIE"},
			{name: "LanguageCode", kind: kFixed, n: 3, opt: "LNGCE"}, {name: "NetworkIdentifier", kind: kBytes, n: 3, opt: "NIDE"},
			opt(u("BufferSize", 2), "BSE"), {name: "MobileNumber", kind: kFixed, n: 15, opt: "MNE"}}},
		{"SrDispatcherIdentity", 5, []field{u("DispatcherType", 1), u("DispatcherID", 4), {name: "Description", kind: kRest}}},
		{"SrAuthInfo", 7, []field{{name: "UserName", kind: kZStr}, {name: "UserPassword", kind: kZStr}, {name: "ServerSequence", kind: kZOpt}}},
		{"SrResultCode", 9, []field{u("ResultCode", 1)}},
		{"SrResponse", 0, []field{u("ConfirmedRecordNumber", 2), u("RecordStatus", 1)}},
	}
}

// epoch is 2010-01-01T00:00:00Z.
const epoch = 1262304000

var u8t = types.Typ[types.Uint8]

// objField finds a field of a named struct type.
func structOf(p *ssa.Package, typ string) *types.Struct {
	if p == nil || p.Type(typ) == nil {
		return nil
	}
	s, _ := p.Type(typ).Type().Underlying().(*types.Struct)
	return s
}

func fieldIndex(s *types.Struct, name string) int {
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// ---- reading side ----

// want is one expected field value: val under cond, unchanged otherwise.
type want struct {
	name string
	cond B
	alts []wantAlt
}

type wantAlt struct {
	g   B
	val *Val
	seq *Seq // texts and byte slices
}

func wantV(name string, cond B, v *Val) want { return want{name, cond, []wantAlt{{cond, v, nil}}} }
func wantS(name string, cond B, q *Seq) want { return want{name, cond, []wantAlt{{cond, nil, q}}} }

type layoutReader struct {
	seq  *Seq
	off  *Val
	flag map[string]B // one-bit flags
	out  []want
}

type taken struct {
	g   B
	off *Lin
	bs  []*Val
}

// has: n bytes are left at off.
func (lr *layoutReader) has(off *Lin, n int) B {
	l := seqLen(lr.seq)
	return cmpGE(l, vInt(E.addLin(off, 1, E.konst(int64(n)), 1)), T)
}

// take reads n bytes when cond holds, for every possible position.
func (lr *layoutReader) take(n int, cond B) []taken {
	var out []taken
	for _, a := range lr.off.alts {
		g := E.And(a.g, cond, lr.has(a.l.lin, n))
		if g == F {
			continue
		}
		t := taken{g: g, off: a.l.lin}
		for i := 0; i < n; i++ {
			t.bs = append(t.bs, seqIndex(lr.seq, E.addLin(a.l.lin, 1, E.konst(int64(i)), 1), g, u8t))
		}
		out = append(out, t)
	}
	lr.skip(n, cond)
	return out
}

func (lr *layoutReader) skip(n int, cond B) {
	lr.off = mergeOffs(cond, intAdd(lr.off, vConst(int64(n)), 1), lr.off)
}

func (lr *layoutReader) want(name string, cond B, ts []taken, f func(bs []*Val) *Val) {
	w := want{name: name, cond: cond}
	for _, t := range ts {
		w.alts = append(w.alts, wantAlt{t.g, f(t.bs), nil})
	}
	lr.out = append(lr.out, w)
}

func (lr *layoutReader) wantSeq(name string, cond B, n int) {
	w := want{name: name, cond: cond}
	for _, a := range lr.off.alts {
		if g := E.And(a.g, cond, lr.has(a.l.lin, n)); g != F {
			w.alts = append(w.alts, wantAlt{g, nil, mkSeq(seqSlice1(lr.seq, a.l.lin, E.konst(int64(n)), g, u8t))})
		}
	}
	lr.skip(n, cond)
	lr.out = append(lr.out, w)
}

func mergeOffs(c B, a, b *Val) *Val {
	var alts []Alt
	for _, x := range a.alts {
		alts = append(alts, Alt{E.And(c, x.g), x.l})
	}
	for _, x := range b.alts {
		alts = append(alts, Alt{E.Diff(x.g, c), x.l})
	}
	return mkVal(alts)
}

// leInt combines bytes into a little-endian integer.
func leInt(bs []*Val) *Val {
	sum := vConst(0)
	for i, b := range bs {
		k := int64(1) << (8 * i)
		sum = intAddK(sum, b, k)
	}
	return normInt(sum)
}

func intAddK(a, b *Val, k int64) *Val {
	var alts []Alt
	for _, x := range a.alts {
		for _, y := range b.alts {
			if g := E.And(x.g, y.g); g != F {
				alts = append(alts, Alt{g, lInt(E.addLin(x.l.lin, 1, y.l.lin, k))})
			}
		}
	}
	return mkVal(alts)
}

// normInt brings integers into bit form where possible.
func normInt(v *Val) *Val {
	return mapVal(v, func(l *Leaf, g B) *Val {
		if bs, ok := E.asBits(l.lin); ok {
			return vBits(bs)
		}
		return one(l)
	})
}

func byteBits(v *Val) []B {
	return bitsOf(v, 8, T)
}

func bitStr(bs []B) *Seq {
	var items []Item
	for _, b := range bs {
		items = append(items, bitChar(b))
	}
	return mkSeq(items)
}

// decodeLayout lists what a complete section must decode to.
func decodeLayout(sec section, in *Seq) *layoutReader {
	lr := &layoutReader{seq: in, off: vConst(0), flag: map[string]B{}}
	var dirh B
	for _, f := range sec.fields {
		cond := T
		if f.opt != "" {
			cond = lr.flag[f.opt]
		}
		switch f.kind {
		case kU:
			lr.want(f.name, cond, lr.take(f.n, cond), leInt)
		case kTime:
			lr.want(f.name, cond, lr.take(f.n, cond), func(bs []*Val) *Val {
				return mapVal(intAdd(leInt(bs), vConst(epoch), 1), func(l *Leaf, g B) *Val { return vTime(l.lin, E.konst(0), "UTC") })
			})
		case kCoord:
			lr.want(f.name, cond, lr.take(f.n, cond), func(bs []*Val) *Val {
				return mapVal(leInt(bs), func(l *Leaf, g B) *Val {
					return vFlt(fltScale(fltLin(l.lin), big.NewRat(f.scale, 0xFFFFFFFF)))
				})
			})
		case kFlags:
			bs := byteBits(lr.take(1, cond)[0].bs[0])
			pos := 7
			for _, fb := range f.bits {
				var part []B
				for i := 0; i < fb.n; i++ {
					part = append(part, bs[pos])
					pos--
				}
				switch {
				case fb.name == "":
				case fb.num:
					le := make([]B, len(part))
					for i := range part {
						le[len(part)-1-i] = part[i]
					}
					lr.out = append(lr.out, wantV(fb.name, cond, vBits(le)))
				default:
					lr.out = append(lr.out, wantS(fb.name, cond, bitStr(part)))
					if fb.n == 1 {
						lr.flag[fb.name] = part[0]
					}
				}
			}
		case kSpeed:
			b := lr.take(2, cond)[0].bs
			w := append(append([]B(nil), byteBits(b[0])...), byteBits(b[1])...)
			dirh = w[15]
			lr.out = append(lr.out, wantV("DirectionHighestBit", cond, vBits(w[15:16])), wantV("AltitudeSign", cond, vBits(w[14:15])),
				wantV("Speed", cond, vInt(divLin(E.fromBitsU(w[:14]), 10))))
		case kDir:
			d := append([]B(nil), byteBits(lr.take(1, cond)[0].bs[0])...)
			d[7] = E.Or(d[7], dirh)
			lr.out = append(lr.out, wantV("Direction", cond, vBits(d)))
		case kFixed, kBytes:
			lr.wantSeq(f.name, cond, f.n)
		}
	}
	return lr
}

// textOf is the content of a string or byte slice value.
func textOf(st *State, v *Val, g B) *Seq {
	if v.isBool {
		return nil
	}
	v = prune(v, g)
	var acc *Seq
	gs := F
	for _, a := range v.alts {
		var q *Seq
		switch a.l.kind {
		case KStr, KArr:
			q = a.l.seq
		case KNil:
			q = mkSeq(nil)
		case KSlice:
			q = st.sliceSeqG(one(a.l), E.And(g, a.g))
		default:
			return nil
		}
		if acc == nil {
			acc = q
		} else {
			acc = mergeSeq(E.Restrict(gs, E.Or(gs, a.g)), acc, q)
		}
		gs = E.Or(gs, a.g)
	}
	return acc
}

// sectionRun analyses T.Decode on an arbitrary receiver and input.
type sectionRun struct {
	an   *Analysis
	fn   *ssa.Function
	st   *State
	recv *Val
	in   *Seq
	n    *Val
	ok   B // returned without error
	fail B
	str  *types.Struct
	pre  *State
	ret  *Val
}

func errNil(v *Val) B {
	r := F
	for _, a := range v.alts {
		r = E.Or(r, E.And(a.g, leafNil(a.l)))
	}
	return r
}

func runDecode(r *Report, p *ssa.Package, typ string, hook func(an *Analysis)) *sectionRun {
	fn := r.w.method(p, typ, "Decode")
	if fn == nil || len(fn.Params) != 2 {
		fail("no method Decode([]byte) error on " + typ)
	}
	an := start(r.w)
	if hook != nil {
		hook(an)
	}
	st := newState()
	recv := mkSym(fn.Params[0].Type(), "p0")
	in := mkSym(fn.Params[1].Type(), "p1")
	sr := &sectionRun{an: an, fn: fn, recv: recv, in: st.sliceSeq(in), n: sliceLen(in), str: structOf(p, typ), pre: st.clone()}
	ret := an.call(fn, []*Val{recv, in}, nil, st, "")
	sr.st, sr.ret = st, ret
	sr.ok = E.And(st.g, errNil(ret))
	sr.fail = E.Diff(st.g, errNil(ret))
	return sr
}

func (sr *sectionRun) field(st *State, name string) (*Val, types.Type) {
	i := fieldIndex(sr.str, name)
	if i < 0 {
		fail("no field " + name)
	}
	o := sr.recv.alts[0].l.obj
	return readPath(st.content(o), o.typ, []PE{{field: i}}, st.g), sr.str.Field(i).Type()
}

// sameField: the field holds the wanted value whenever g holds.
func (sr *sectionRun) sameField(w want, g B) (bool, string) {
	v, _ := sr.field(sr.st, w.name)
	return sameVal(sr.st, v, w, g)
}

func sameVal(st *State, v *Val, w want, g B) (bool, string) {
	for _, a := range w.alts {
		ga := E.And(g, a.g)
		if ga == F {
			continue
		}
		if a.seq != nil {
			q := textOf(st, v, ga)
			if q == nil {
				return false, "value " + valStr(v)
			}
			if !seqEqUnder(ga, q, a.seq) {
				return false, "is " + seqStr(q, 3) + " instead of " + seqStr(a.seq, 3)
			}
			continue
		}
		if !eqUnder(ga, v, a.val) {
			return false, "is " + valStr(restrictVal(prune(v, ga), ga)) + " instead of " + valStr(a.val)
		}
	}
	return true, ""
}

func hasZ(s section) bool {
	for _, f := range s.fields {
		if f.kind == kZStr || f.kind == kRest {
			return true
		}
	}
	return false
}

// checkSectionDecode decides one Decode method. part: "trunc" or "fields".
func checkSectionDecode(r *Report, sec section, part string) {
	p := r.w.pkg("libs/egts")
	r.sub(part, sec.typ+".Decode", func() *Analysis {
		sr := runDecode(r, p, sec.typ, func(an *Analysis) { codecBoundary(an, sec.typ) })
		var lr *layoutReader
		var complete B
		if hasZ(sec) {
			lr, complete = decodeText(sec, sr.in, sr.n)
		} else {
			lr = decodeLayout(sec, sr.in)
			complete = cmpGE(sr.n, lr.off, T)
		}
		nested := T // nested decoders succeed
		for _, e := range sr.an.events {
			if e.kind == "call" && e.res != nil && !e.res.isBool {
				nested = E.And(nested, E.Imp(e.g, errNil(e.res)))
			}
		}
		where := r.w.posStr(sr.fn.Pos())
		if part == "trunc" {
			r.add("success only if every field is present", sec.typ, !E.feasible(E.Diff(sr.ok, complete)), where, "an input shorter than the fields it announces is accepted")
			r.add("complete data is accepted", sec.typ, !E.feasible(E.And(sr.fail, complete, nested)), where, "complete data is rejected: "+E.bStr(E.And(sr.fail, complete, nested)))
			return sr.an
		}
		for _, w := range lr.out {
			g := E.And(sr.ok, complete, w.cond)
			ok, d := sr.sameField(w, g)
			r.add("decoded from its own bytes", sec.typ+"."+w.name, ok, where, d)
			if w.cond != T {
				g := E.Diff(E.And(sr.ok, complete), w.cond)
				v, _ := sr.field(sr.st, w.name)
				v0, _ := sr.field(sr.pre, w.name)
				same := eqUnder(g, v, v0)
				if !same {
					a, b := textOf(sr.st, v, g), textOf(sr.pre, v0, g)
					same = a != nil && b != nil && seqEqUnder(g, a, b)
				}
				r.add("untouched when its flag is clear", sec.typ+"."+w.name, same, where, "becomes "+valStr(prune(v, g)))
			}
		}
		return sr.an
	})
}

// codecBoundary stops at the codec of other types.
func codecBoundary(an *Analysis, typ string) {
	an.keepInput = true
	an.boundary = func(f *ssa.Function) bool {
		if f.Signature.Recv() == nil || f.Pkg == nil {
			return false
		}
		if f.Name() != "Decode" && f.Name() != "Encode" {
			return false
		}
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() != typ && an.w.pkgs[f.Pkg.Pkg.Path()] == f.Pkg
	}
}

// decodeText: sections made of texts.
func decodeText(sec section, in *Seq, n *Val) (*layoutReader, B) {
	lr := &layoutReader{seq: in, off: vConst(0), flag: map[string]B{}}
	complete := T
	nn := n.alts[0].l.lin
	for _, f := range sec.fields {
		switch f.kind {
		case kU:
			lr.want(f.name, T, lr.take(f.n, T), leInt)
			complete = cmpGE(n, lr.off, T)
		case kRest:
			off := lr.off.alts[0].l.lin
			lr.out = append(lr.out, wantS(f.name, complete, mkSeq(seqSlice1(in, off, E.addLin(nn, 1, off, -1), complete, u8t))))
		case kZStr, kZOpt:
			off := lr.off.alts[0].l.lin
			has := E.GE0(E.addLin(E.addLin(nn, 1, off, -1), 1, E.konst(-1), 1))
			found, pos := delimAt(in, off, nn, 0)
			cond := E.And(complete, found)
			if f.kind == kZOpt {
				cond = E.And(complete, has, found)
				complete = E.And(complete, E.Or(E.Not(has), found))
			} else {
				complete = cond
			}
			lr.out = append(lr.out, wantS(f.name, cond, mkSeq(seqSlice1(in, off, E.addLin(pos, 1, off, -1), cond, u8t))))
			lr.off = vInt(E.addLin(pos, 1, E.konst(1), 1))
		}
	}
	return lr, complete
}
