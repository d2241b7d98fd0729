package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the exported record ----

// byTag finds the field of a struct type with the given JSON name.
func byTag(t types.Type, tag string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		fail("not a struct: " + t.String())
	}
	for i := 0; i < s.NumFields(); i++ {
		if strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0] == tag {
			return i
		}
	}
	fail("no field with the JSON name " + tag + " in " + t.String())
	return -1
}

func tagField(v *Val, t types.Type, tag string, g B) *Val {
	i := byTag(t, tag)
	return fieldOf(v, i, t.Underlying().(*types.Struct).Field(i).Type(), g)
}

// subData is the section of a sub-record seen as a pointer to typ.
func (hr *handlerRun) subData(el *elemLoop, st *State, typ string) func(name string) *Val {
	t := egtsStruct(hr.egts, typ)
	data := el.field("SubrecordData")
	if data.isBool || len(data.alts) != 1 {
		fail("the section of a sub-record is not a single value")
	}
	pt := types.NewPointer(t)
	p := mkSym(pt, assertName(data.alts[0].l, pt))
	c := st.load(p, t)
	return func(name string) *Val {
		v, _ := elemField(c, t, name, T)
		return v
	}
}

func isText(v *Val, s string) B { return eqVal(v, vStr(s), &State{g: T}) }

func isZeroVal(v *Val, t types.Type, g B) bool { return eqUnder(g, v, zeroVal(t)) }

// record is the record given to the storage at a save.
func (hr *handlerRun) record(s *Event) (*Val, types.Type) {
	t := hr.stor.Type("NavRecord")
	if t == nil {
		fail("no type NavRecord")
	}
	for _, a := range s.args[1:] {
		v := prune(a, s.g)
		if v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KIface {
			continue
		}
		l := v.alts[0].l
		if types.Identical(l.typ, types.NewPointer(t.Type())) {
			return s.st.load(l.val, t.Type()), t.Type()
		}
		if types.Identical(l.typ, t.Type()) {
			return l.val, t.Type()
		}
	}
	fail("the saved value is no NavRecord")
	return nil, nil
}

// mixSeq is a list of struct elements with guards.
type mixSeq struct{ items []Item }

func (m *mixSeq) add(g B, v *Val) { m.items = append(m.items, Item{g: g, k: IVal, val: v}) }

func (m *mixSeq) seq() *Seq { return mkSeq(m.items) }

// checkList decides that a list of the record has exactly the expected
// elements: want gives what a sub-record of a kind adds.
func (f *folds) checkList(r *Report, s *Event, tag string, want func(lf *listFold, el *elemLoop, t *types.Struct, et types.Type) map[string]*mixSeq) {
	hr := f.hr
	c := tag + " at " + hr.pos(s)
	rec, t := hr.record(s)
	g := E.And(s.g, f.c, f.asm)
	lf, why := f.listOf(possible(tagField(rec, t, tag, s.g), g), s.st, g, true)
	if lf == nil {
		r.add("the list is built from the sub-records of this packet, in order", c, false, hr.pos(s), why)
		return
	}
	r.add("the list is built from the sub-records of this packet, in order", c, true, hr.pos(s), "")
	st, ok := lf.elemT.Underlying().(*types.Struct)
	if !ok {
		fail("elements of " + tag + " are no structs")
	}
	ws := want(lf, lf.sub, st, lf.elemT)
	rest := E.And(lf.g, f.asm)
	data := lf.sub.field("SubrecordData")
	for _, typ := range sortedKeys(ws) {
		is := isPtrTo(data, hr.egts, typ)
		gi := E.And(lf.g, f.asm, is)
		w := ws[typ].seq()
		r.add("every "+typ+" adds exactly its own values", c, E.feasible(gi) && seqEqUnder(gi, lf.adds, w), hr.pos(s), "adds "+seqStr(lf.adds, 3))
		rest = E.Diff(rest, is)
	}
	r.add("nothing else adds to the list", c, seqEqUnder(rest, lf.adds, mkSeq(nil)), hr.pos(s), "other sub-records add "+seqStr(lf.adds, 2))
}

func structBy(t types.Type, m map[string]*Val) *Val {
	st := t.Underlying().(*types.Struct)
	fs := make([]*Val, st.NumFields())
	for i := range fs {
		fs[i] = zeroVal(st.Field(i).Type())
	}
	for tag, v := range m {
		fs[byTag(t, tag)] = v
	}
	return vStruct(fs)
}

const rfc3339 = "2006-01-02T15:04:05Z07:00"

func negated(v *Val) *Val {
	return mapVal(v, func(l *Leaf, g B) *Val {
		if l.kind == KFloat {
			return vFlt(fltAdd(fltConst(ratInt(0)), ratInt(1), l.fl, ratInt(-1)))
		}
		return one(l)
	})
}

func checkPositions(r *Report) {
	r.sub("positions", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, _ := hr.setup(r)
		d := f.dc
		p := hr.egts
		where := r.w.posStr(hr.fn.Pos())
		done := E.And(hr.loop.back.g, f.c, f.asm, d.ev.g)
		var gs []B
		for _, s := range hr.saves {
			gs = append(gs, s.g)
		}
		msg, ok := exactlyOnce(E.And(done, d.app, f.seen[seenPos]), gs)
		r.add("a packet with a position is stored", "application packets", len(gs) > 0 && ok, where, "the record "+strings.Replace(msg, "sent", "stored", 1))
		r.add("a packet without a position is not stored", "application packets", never(E.And(f.c, f.asm, orAll(gs), E.Not(E.And(d.app, f.seen[seenPos])))), where, "a record is stored for a packet without a position")
		for _, s := range hr.saves {
			c := hr.pos(s)
			rec, t := hr.record(s)
			g := E.And(s.g, f.c, f.asm)
			get := func(tag string) *Val { return possible(tagField(rec, t, tag, s.g), g) }
			store := F
			for _, a := range s.args {
				if eqUnder(s.g, a, setting(hr.mk, "*"+hr.stor.Pkg.Path()+".Repository")) {
					store = T
				}
			}
			r.add("stored in the configured storages", c, store == T, c, "saved somewhere else")
			var list *Val
			f.checkList(r, s, "loc_states", func(lf *listFold, el *elemLoop, _ *types.Struct, et types.Type) map[string]*mixSeq {
				list = lf.h.sym
				sub := hr.subData(el, lf.st, "SrPosData")
				lat, lng, tm := sub("Latitude"), sub("Longitude"), sub("NavigationTime")
				m := &mixSeq{}
				m.add(T, structBy(et, map[string]*Val{
					"lat":           mergeVal(isText(sub("LAHS"), "1"), negated(lat), lat),
					"lng":           mergeVal(isText(sub("LOHS"), "1"), negated(lng), lng),
					"speed":         sub("Speed"),
					"navigation_dt": formatted(tm, lf, et),
				}))
				return map[string]*mixSeq{"SrPosData": m}
			})
			f.checkCount(r, s, get("loc_states_count"), list, g)
			f.checkScalar(r, s, "navigation_unix_time", get("navigation_unix_time"), g, zeroOf("0", vConst(0)), map[string]func(sub func(string) *Val) *Val{
				"SrPosData": func(sub func(string) *Val) *Val {
					return mapVal(sub("NavigationTime"), func(l *Leaf, g B) *Val { return vInt(l.sec) })
				}})
			f.checkScalar(r, s, "IMEI", get("IMEI"), g, zeroOf("empty", vStr("")), map[string]func(sub func(string) *Val) *Val{
				"SrTermIdentity": func(sub func(string) *Val) *Val { return sub("IMEI") }})
			f.checkClient(r, s, get("client_id"), g)
			f.checkNumber(r, s, get("packet_id"), g)
			_ = p
		}
		return hr.an
	})
}

// formatted is the navigation time as text: whatever zone the decoded time is
// shown in is fine as long as it is that time.
func formatted(tm *Val, lf *listFold, et types.Type) *Val {
	i := byTag(et, "navigation_dt")
	layout := vStr(rfc3339)
	l := tm.alts[0].l
	var first *Val
	for _, loc := range []string{l.loc, "UTC"} {
		v := symStr(fmt.Sprintf("format(v%d,%d,%d,%s)", layout.id, l.sec.id, l.nsec.id, loc))
		if first == nil {
			first = v
		}
		for _, it := range lf.adds.items {
			if it.k == IVal && it.val != nil && !it.val.isBool && len(it.val.alts) == 1 && it.val.alts[0].l.kind == KStruct && it.val.alts[0].l.fields[i] == v {
				return v
			}
		}
	}
	return first
}

type initVal struct {
	name string
	v    *Val
}

func zeroOf(name string, v *Val) initVal { return initVal{name, v} }

// checkScalar decides that a field of the record is the value of the last
// sub-record of a kind, and what it was initially if there is none.
func (f *folds) checkScalar(r *Report, s *Event, tag string, v *Val, g B, init initVal, steps map[string]func(sub func(string) *Val) *Val) {
	hr := f.hr
	c := tag + " at " + hr.pos(s)
	rl, h, i, hi := f.scalarOf(v, g)
	if rl == nil || i == nil {
		r.add("the value comes from the sub-records of this packet", c, false, hr.pos(s), "it is "+valStr(v))
		return
	}
	r.add("the value comes from the sub-records of this packet", c, true, hr.pos(s), "")
	r.add("unset before the first record", c, eqUnder(rl.rec.init.g, h.init, init.v), hr.pos(s), "it starts as "+valStr(h.init))
	bg := E.And(i.rec.back.g, f.asm)
	data := i.field("SubrecordData")
	rest := bg
	for _, typ := range sortedKeys(steps) {
		is := isPtrTo(data, hr.egts, typ)
		w := steps[typ](hr.subData(i, i.rec.back, typ))
		r.add("every "+typ+" sets its own value", c, E.feasible(E.And(bg, is)) && eqUnder(E.And(bg, is), hi.back, w), hr.pos(s), "it becomes "+valStrD(prune(hi.back, E.And(bg, is)), 2))
		rest = E.Diff(rest, is)
	}
	r.add("nothing else changes it", c, eqUnder(rest, hi.back, hi.sym), hr.pos(s), "other sub-records change it")
}

// checkCount: the number of locations.
func (f *folds) checkCount(r *Report, s *Event, v, list *Val, g B) {
	hr := f.hr
	c := "loc_states_count at " + hr.pos(s)
	// a packet has fewer positions than an int32 can count
	if list != nil && (eqUnder(g, v, sliceLen(list)) || eqUnder(g, v, wrapInt(sliceLen(list), types.Typ[types.Int32], g))) {
		r.add("the count is the number of locations", c, true, hr.pos(s), "")
		return
	}
	rl, h, i, hi := f.scalarOf(v, g)
	if rl == nil || i == nil {
		r.add("the count is the number of locations", c, false, hr.pos(s), "it is "+valStr(v))
		return
	}
	bg := E.And(i.rec.back.g, f.asm)
	is := isPtrTo(i.field("SubrecordData"), hr.egts, "SrPosData")
	ok := eqUnder(rl.rec.init.g, h.init, vConst(0)) && eqUnder(E.And(bg, is), hi.back, wrapInt(intAdd(hi.sym, vConst(1), 1), hi.typ, E.And(bg, is))) && eqUnder(E.Diff(bg, is), hi.back, hi.sym)
	r.add("the count is the number of locations", c, ok, hr.pos(s), "counted otherwise: "+valStrD(hi.back, 2))
}

// checkClient: the client is the object identifier of a record of the packet.
func (f *folds) checkClient(r *Report, s *Event, v *Val, g B) {
	hr := f.hr
	c := "client_id at " + hr.pos(s)
	rl, h, i, hi := f.scalarOf(v, g)
	if rl == nil {
		r.add("the client is the object identifier", c, false, hr.pos(s), "it is "+valStr(v))
		return
	}
	r.add("unset before the first record", c, eqUnder(rl.rec.init.g, h.init, vConst(0)), hr.pos(s), "it starts as "+valStr(h.init))
	oid := rl.field("ObjectIdentifier")
	has := isText(rl.field("ObjectIDFieldExists"), "1")
	back, sym, bg, must := h.back, h.sym, E.And(rl.rec.back.g, f.asm), has
	if i != nil {
		back, sym, bg = hi.back, hi.sym, E.And(i.rec.back.g, f.asm)
		must = E.And(has, isPtrTo(i.field("SubrecordData"), hr.egts, "SrPosData"))
	}
	r.add("the client is the object identifier", c, E.feasible(E.And(bg, must)) && eqUnder(E.And(bg, must), back, oid), hr.pos(s), "with an object identifier it becomes "+valStr(prune(back, bg)))
	other := E.Diff(bg, must)
	simple := true
	for _, c := range []B{E.And(other, has), E.Diff(other, has)} {
		simple = simple && (!E.feasible(c) || eqUnder(c, back, oid) || eqUnder(c, back, sym))
	}
	diff := F
	if !simple {
		diff = E.Diff(other, E.Or(eqVal(back, oid, &State{g: other}), eqVal(back, sym, &State{g: other})))
	}
	r.add("the client is nothing but an object identifier", c, never(diff), hr.pos(s), "it becomes "+valStr(prune(back, diff)))
}

// checkNumber: the packet number is the packet id, or composed from the
// absolute counters 110 (three low bytes) and 111 (high byte) of a record.
func (f *folds) checkNumber(r *Report, s *Event, v *Val, g B) {
	hr := f.hr
	c := "packet_id at " + hr.pos(s)
	rl, h, i, hi := f.scalarOf(v, g)
	if rl == nil || i == nil {
		r.add("the number comes from this packet", c, false, hr.pos(s), "it is "+valStr(v))
		return
	}
	r.add("the number comes from this packet", c, eqUnder(rl.rec.init.g, h.init, hr.packetID(f.dc)), hr.pos(s), "without counters it is "+valStr(h.init))
	bg := E.And(i.rec.back.g, f.asm)
	data := i.field("SubrecordData")
	sub := hr.subData(i, i.rec.back, "SrAbsCntrData")
	is := isPtrTo(data, hr.egts, "SrAbsCntrData")
	no, cv := sub("CounterNumber"), sub("CounterValue")
	lo, hib := E.And(bg, is, eqConst(no, 110)), E.And(bg, is, eqConst(no, 111))
	cb := bitsOf(cv, 32, T)
	rest := E.Diff(E.Diff(bg, lo), hib)
	r.add("nothing else changes the number", c, eqUnder(rest, hi.back, hi.sym), hr.pos(s), "another sub-record changes the number to "+valStr(prune(hi.back, rest)))
	// counters are three bytes wide
	small := T
	for k := 24; k < 32; k++ {
		small = E.Diff(small, cb[k])
	}
	// Every bit of the number is, at a counter, either a bit of that counter
	// or a bit kept of the counter before it in this record.
	l1, h1 := E.And(lo, small), E.And(hib, small)
	nb := bitsOf(hi.back, 32, bg)
	kept := stateBits(i.rec)
	why := ""
	if !E.feasible(l1) || !E.feasible(h1) {
		why = "a counter is not handled"
	}
	for k := 0; k < 32 && why == ""; k++ {
		set, keep, cvb, at := l1, h1, cb[k], "110"
		if k >= 24 {
			set, keep, cvb, at = h1, l1, cb[k-24], "111"
		}
		if !never(set, E.Xor(nb[k], cvb)) {
			why = fmt.Sprint("counter ", at, " does not set bit ", k, " of the number")
			break
		}
		why = fmt.Sprint("bit ", k, " of counter ", at, " is not kept for the other counter")
		for _, x := range kept {
			if never(keep, E.Xor(nb[k], x.sym)) && never(i.rec.init.g, x.init) && never(set, E.Xor(x.back, cvb)) && never(E.Or(keep, rest), E.Xor(x.back, x.sym)) {
				why = ""
				break
			}
		}
	}
	r.add("the number is composed of the counters 110 and 111 of a record", c, why == "", hr.pos(s), why)
}

// stateBit is one bit of a variable carried through a loop.
type stateBit struct{ init, sym, back B }

func stateBits(rec *LoopRec) []stateBit {
	var out []stateBit
	for _, key := range rec.order {
		h := rec.havoc[key]
		if h.sym == nil || h.back == nil || h.init == nil || h.typ == nil {
			continue
		}
		var get func(v *Val) []B
		switch t := h.typ.Underlying().(type) {
		case *types.Array:
			if b, ok := t.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 || t.Len() > 16 {
				continue
			}
			get = func(v *Val) []B {
				q := arrSeq(v, T)
				if q == nil {
					return nil
				}
				var bs []B
				for k := int64(0); k < t.Len(); k++ {
					bs = append(bs, bitsOf(seqIndex(q, E.konst(k), T, u8t), 8, T)...)
				}
				return bs
			}
		case *types.Basic:
			if t.Info()&types.IsInteger == 0 || h.sym.isBool {
				continue
			}
			_, _, w, _ := intRange(t)
			get = func(v *Val) []B { return bitsOf(v, w, T) }
		default:
			continue
		}
		i, s, b := get(h.init), get(h.sym), get(h.back)
		for k := range s {
			if k < len(i) && k < len(b) {
				out = append(out, stateBit{i[k], s[k], b[k]})
			}
		}
	}
	return out
}

func checkSensors(r *Report) {
	r.sub("sensors", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, _ := hr.setup(r)
		for _, s := range hr.saves {
			f.checkList(r, s, "an_sensors", func(lf *listFold, el *elemLoop, _ *types.Struct, et types.Type) map[string]*mixSeq {
				ad := &mixSeq{}
				sub := hr.subData(el, lf.st, "SrAdSensorsData")
				for k := 1; k <= 8; k++ {
					ad.add(isText(sub(fmt.Sprintf("AnalogSensorFieldExists%d", k)), "1"), structBy(et, map[string]*Val{
						"sensor_number": vConst(int64(k)), "value": sub(fmt.Sprintf("AnalogSensor%d", k))}))
				}
				abs := &mixSeq{}
				sub = hr.subData(el, lf.st, "SrAbsAnSensData")
				abs.add(T, structBy(et, map[string]*Val{"sensor_number": sub("SensorNumber"), "value": sub("Value")}))
				return map[string]*mixSeq{"SrAdSensorsData": ad, "SrAbsAnSensData": abs}
			})
			f.checkLiquid(r, s)
		}
		r.add("records", "saved", len(hr.saves) > 0, r.w.posStr(hr.fn.Pos()), "no record is saved")
		return hr.an
	})
}

func (f *folds) checkLiquid(r *Report, s *Event) {
	hr := f.hr
	c := "liquid_sensors at " + hr.pos(s)
	rec, t := hr.record(s)
	g := E.And(s.g, f.c, f.asm)
	lf, why := f.listOf(possible(tagField(rec, t, "liquid_sensors", s.g), g), s.st, g, true)
	r.add("the list is built from the sub-records of this packet, in order", c, lf != nil, hr.pos(s), why)
	if lf == nil {
		return
	}
	is := isPtrTo(lf.sub.field("SubrecordData"), hr.egts, "SrLiquidLevelSensor")
	gi := E.And(lf.g, f.asm, is)
	r.add("nothing else adds to the list", c, seqEqUnder(E.And(lf.g, f.asm, E.Not(is)), lf.adds, mkSeq(nil)), hr.pos(s), "other sub-records add "+seqStr(lf.adds, 2))
	one := E.feasible(gi) && eqUnder(gi, seqLen(lf.adds), vConst(1))
	r.add("every SrLiquidLevelSensor adds one reading", c, one, hr.pos(s), "adds "+valStr(seqLen(lf.adds)))
	if !one {
		return
	}
	el := seqIndex(lf.adds, E.konst(0), gi, lf.elemT)
	sub := hr.subData(lf.sub, lf.st, "SrLiquidLevelSensor")
	get := func(tag string) *Val { return tagField(el, lf.elemT, tag, gi) }
	for tag, name := range map[string]string{"sensor_number": "LiquidLevelSensorNumber", "module_number": "ModuleAddress", "error_flag": "LiquidLevelSensorErrorFlag", "value_unit": "LiquidLevelSensorValueUnit"} {
		r.add("the reading carries its own "+tag, c, eqUnder(gi, get(tag), sub(name)), hr.pos(s), "it is "+valStr(get(tag)))
	}
	data := sub("LiquidLevelSensorData")
	tenth := mapVal(data, func(l *Leaf, g B) *Val { return vFlt(fltScale(fltLin(l.lin), ratFrac(1, 10))) })
	zero := vFlt(fltConst(ratInt(0)))
	for _, u := range []struct {
		unit  string
		mm, l *Val
	}{{"00", data, zero}, {"01", data, zero}, {"10", vConst(0), tenth}} {
		gu := E.And(gi, isText(sub("LiquidLevelSensorValueUnit"), u.unit))
		r.add("the value is given in its unit", c+" unit "+u.unit, E.feasible(gu) && eqUnder(gu, get("value_mm"), u.mm) && eqUnder(gu, get("value_l"), u.l), hr.pos(s), fmt.Sprintf("value_mm %s, value_l %s", valStr(prune(get("value_mm"), gu)), valStr(prune(get("value_l"), gu))))
	}
}

// ---- nothing leaks ----

// carriedNames are the names by which values of earlier packets are known.
func (hr *handlerRun) leaks(g B, vs []*Val, st *State) string {
	w := newWalker(st)
	w.guard(g)
	for _, v := range vs {
		w.val(v, g)
	}
	hr.throughLoops(w)
	pre := "loop:" + hr.loop.key + ":"
	for n := range w.names {
		if strings.Contains(n, pre) {
			return "a value of an earlier packet: " + n
		}
	}
	for o := range w.objs {
		if o.glob != nil && hr.an.w.mutable(o.glob) {
			return "the variable " + o.glob.Name()
		}
	}
	return ""
}

func checkNoLeak(r *Report) {
	r.sub("no leak", "connection handler", func() *Analysis {
		hr := runHandler(r)
		es := append(append(append([]*Event(nil), hr.saves...), hr.encs...), hr.writes...)
		for _, e := range es {
			msg := hr.leaks(e.g, e.args, e.st)
			r.add("depends on this packet and the settings only", short(e.name)+" at "+hr.pos(e), msg == "", hr.pos(e), "uses "+msg)
		}
		for _, d := range hr.decs {
			msg := hr.leaks(d.ev.g, d.ev.args, d.ev.st)
			r.add("every packet is decoded into an empty structure", hr.pos(d.ev), msg == "" && isZeroVal(d.ev.st.load(d.ev.args[0], egtsStruct(hr.egts, "Package")), egtsStruct(hr.egts, "Package"), d.ev.g), hr.pos(d.ev), "the packet is decoded into a used structure "+msg)
		}
		// inputs other than the packet, the settings and the time
		for fn := range hr.an.funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if x, ok := ins.(*ssa.UnOp); ok {
						if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && hr.an.w.pkgs[g.Pkg.Pkg.Path()] == g.Pkg && hr.an.w.mutable(g) {
							r.add("no variable shared with other connections is read", short(fn.String()), false, r.w.posStr(ins.Pos()), "reads "+g.Name())
						}
					}
				}
			}
			r.add("no variable shared with other connections is read", short(fn.String()), true, "", "")
		}
		return hr.an
	})
}

// walker collects the names of everything a value depends on.
type walker struct {
	st    *State
	names map[string]bool
	objs  map[*Obj]bool
	vals  map[*Val]bool
	lins  map[*Lin]bool
	seqs  map[*Seq]bool
	lvs   map[*Leaf]bool
	vars  map[int32]bool
}

func newWalker(st *State) *walker {
	return &walker{st, map[string]bool{}, map[*Obj]bool{}, map[*Val]bool{}, map[*Lin]bool{}, map[*Seq]bool{}, map[*Leaf]bool{}, map[int32]bool{}}
}

func (w *walker) guard(g B) {
	for _, v := range E.Support(g) {
		if w.vars[v] {
			continue
		}
		w.vars[v] = true
		in := E.vars[v]
		w.names[in.name] = true
		if in.lin != nil {
			w.lin(in.lin)
		}
		if in.ge != nil {
			w.lin(in.ge)
		}
	}
}

func (w *walker) lin(l *Lin) {
	if l == nil || w.lins[l] {
		return
	}
	w.lins[l] = true
	for _, t := range l.t {
		w.names[t.a.key] = true
		for _, b := range t.a.bits {
			w.guard(b)
		}
		for _, x := range t.a.args {
			w.val(x, T)
		}
	}
}

func (w *walker) val(v *Val, g B) {
	if v == nil || w.vals[v] {
		return
	}
	w.vals[v] = true
	if v.isBool {
		w.guard(v.b)
		return
	}
	for _, a := range v.alts {
		if E.And(a.g, g) == F {
			continue
		}
		w.guard(a.g)
		w.leaf(a.l)
	}
}

// throughLoops follows the variables of the loops inside of a round back to
// what they start with and what an iteration makes of them.
func (hr *handlerRun) throughLoops(w *walker) {
	done := map[*hvar]bool{}
	for again := true; again; {
		again = false
		for _, l := range hr.an.loops {
			if l == hr.loop || l.back == nil {
				continue
			}
			for _, k := range l.order {
				h := l.havoc[k]
				if done[h] || !w.mentions("loop:"+l.key+":"+k) {
					continue
				}
				done[h], again = true, true
				w.with(l.init).val(h.init, l.init.g)
				w.with(l.back).val(h.back, l.back.g)
			}
		}
	}
}

// mentions tells whether a name or a part of it was met.
func (w *walker) mentions(name string) bool {
	for n := range w.names {
		for i := strings.Index(n, name); i >= 0; {
			j := i + len(name)
			if j == len(n) || !(n[j] >= '0' && n[j] <= '9') {
				return true
			}
			n = n[j:]
			i = strings.Index(n, name)
		}
	}
	return false
}

// with looks at memory in another state.
func (w *walker) with(st *State) *walker {
	x := *w
	x.st = st
	return &x
}

func (w *walker) leaf(l *Leaf) {
	if l == nil || w.lvs[l] {
		return
	}
	w.lvs[l] = true
	if l.op != "" {
		w.names[l.op] = true
	}
	w.lin(l.lin)
	w.lin(l.sec)
	w.lin(l.nsec)
	if l.fl != nil {
		w.names[fltStr(l.fl)] = true
	}
	w.seq(l.seq)
	for _, x := range []*Val{l.off, l.n, l.val} {
		w.val(x, T)
	}
	for _, x := range append(append([]*Val(nil), l.fields...), l.args...) {
		w.val(x, T)
	}
	for _, p := range l.path {
		w.lin(p.idx)
	}
	if o := l.obj; o != nil && !w.objs[o] {
		w.objs[o] = true
		w.names[o.name] = true
		if w.st != nil && w.st.heap[o] != nil {
			w.val(w.st.heap[o], T)
		}
	}
}

func (w *walker) seq(q *Seq) {
	if q == nil || w.seqs[q] {
		return
	}
	w.seqs[q] = true
	for _, it := range q.items {
		w.guard(it.g)
		w.val(it.val, T)
		if it.src != nil {
			w.names[it.src.name] = true
		}
		w.lin(it.off)
		w.lin(it.n)
	}
}

func ratInt(n int64) *big.Rat     { return new(big.Rat).SetInt64(n) }
func ratFrac(a, b int64) *big.Rat { return big.NewRat(a, b) }

// ---- origin of a record, and its serialised form ----

// recordKeys are the keys of the exported record and of its parts.
var recordKeys = map[string][]string{
	"NavRecord":    {"server_id", "IMEI", "client_id", "received_dt", "packet_id", "navigation_unix_time", "an_sensors", "liquid_sensors", "loc_states", "loc_states_count"},
	"LocState":     {"lat", "lng", "speed", "navigation_dt"},
	"LiquidSensor": {"sensor_number", "module_number", "error_flag", "value_unit", "value_mm", "value_l"},
	"AnSensor":     {"sensor_number", "value"},
}

const serverID = "EGTS_GATE0"

func checkOrigin(r *Report) {
	r.sub("origin", "connection handler", func() *Analysis {
		hr := runHandler(r)
		f, _ := hr.setup(r)
		last := 0
		for _, e := range hr.reads {
			if e.seq > last {
				last = e.seq
			}
		}
		for _, s := range hr.saves {
			c := hr.pos(s)
			rec, t := hr.record(s)
			g := E.And(s.g, f.c, f.asm)
			get := func(tag string) *Val { return possible(tagField(rec, t, tag, s.g), g) }
			id := get("server_id")
			r.add("the record names this gateway", "server_id at "+c, eqUnder(g, id, vStr(serverID)), c, "it is "+valStr(id))
			dt := get("received_dt")
			why := "it is no RFC 3339 text of the current time in UTC: " + valStr(dt)
			for _, e := range hr.an.events {
				if e.kind != "ext" || e.name != "time.Now" || e.res == nil || len(e.res.alts) != 1 {
					continue
				}
				l := e.res.alts[0].l
				for _, layout := range []string{rfc3339, "2006-01-02T15:04:05.999999999Z07:00"} {
					if !eqUnder(g, dt, symStr(fmt.Sprintf("format(v%d,%d,%d,UTC)", vStr(layout).id, l.sec.id, l.nsec.id))) {
						continue
					}
					in := false
					for _, lp := range e.loops {
						in = in || lp == hr.loop
					}
					switch {
					case !in:
						why = "the time is taken once for the whole connection"
					case e.seq < last:
						why = "the time is taken before the packet has been read"
					default:
						why = ""
					}
				}
			}
			r.add("the record tells when its packet was received", "received_dt at "+c, why == "", c, why)
		}
		r.add("records", "saved", len(hr.saves) > 0, r.w.posStr(hr.fn.Pos()), "no record is saved")
		return hr.an
	})
	sp := r.w.pkg("cli/receiver/storage")
	r.sub("keys", "NavRecord", func() *Analysis {
		checkKeys(r, sp)
		return nil
	})
	r.sub("serialisation", "NavRecord.ToBytes", func() *Analysis { return checkToBytes(r, sp) })
}

// checkKeys: the struct tags give every field its documented key, always.
func checkKeys(r *Report, sp *ssa.Package) {
	for _, typ := range sortedKeys(recordKeys) {
		tm := sp.Type(typ)
		if tm == nil {
			fail("no type " + typ)
		}
		str, ok := tm.Type().Underlying().(*types.Struct)
		if !ok {
			fail(typ + " is no struct")
		}
		where := r.w.posStr(tm.Pos())
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if r.w.method(sp, typ, m) != nil {
				fail(typ + " brings its own " + m)
			}
		}
		seen := map[string]int{}
		opts := map[string]string{}
		for i := 0; i < str.NumFields(); i++ {
			fl := str.Field(i)
			if fl.Embedded() {
				fail(typ + " embeds another type")
			}
			tag := reflect.StructTag(str.Tag(i)).Get("json")
			if !fl.Exported() || tag == "-" {
				continue
			}
			p := strings.SplitN(tag, ",", 2)
			key := p[0]
			if key == "" {
				key = fl.Name()
			}
			seen[key]++
			if len(p) > 1 {
				opts[key] = p[1]
			}
		}
		for _, k := range recordKeys[typ] {
			c := typ + "." + k
			r.add("the key is present once", c, seen[k] == 1, where, fmt.Sprint(seen[k], " fields have it"))
			r.add("the value is always written as it is", c, opts[k] == "", where, "the option "+opts[k]+" drops or changes it")
		}
	}
}

// checkToBytes: the whole record is serialised, and errors are returned.
func checkToBytes(r *Report, sp *ssa.Package) *Analysis {
	fn := r.w.method(sp, "NavRecord", "ToBytes")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		fail("no method NavRecord.ToBytes() ([]byte, error)")
	}
	an := start(r.w)
	st := newState()
	recv := mkSym(fn.Params[0].Type(), "record")
	pre := st.clone()
	ret := an.call(fn, []*Val{recv}, nil, st, "")
	where := r.w.posStr(fn.Pos())
	bt, et := fn.Signature.Results().At(0).Type(), fn.Signature.Results().At(1).Type()
	out, err := tupleField(ret, 0, bt), tupleField(ret, 1, et)
	ok := E.And(st.g, errNil(err))
	content := func(s *State, v *Val) *Val {
		if !v.isBool && len(v.alts) == 1 && v.alts[0].l.kind == KIface {
			v = v.alts[0].l.val
		}
		if !v.isBool && len(v.alts) == 1 && v.alts[0].l.kind == KPtr {
			return s.load(v, v.alts[0].l.obj.typ)
		}
		return v
	}
	want := content(pre, recv)
	all, n := F, 0
	for _, e := range an.events {
		if e.kind != "ext" || e.name != "encoding/json.Marshal" && e.name != "encoding/json.MarshalIndent" {
			continue
		}
		n++
		all = E.Or(all, e.g)
		r.add("the whole record is serialised", "NavRecord.ToBytes", eqUnder(e.g, content(e.st, e.args[0]), want), r.w.posStr(e.pos), "something else is serialised")
		lout, lerr := tupleField(e.res, 0, bt), tupleField(e.res, 1, et)
		g := E.And(ok, e.g)
		r.add("an error is returned", "NavRecord.ToBytes", !E.feasible(E.And(g, E.Not(errNil(lerr)))), where, "success although the record could not be serialised")
		r.add("the serialised bytes are returned", "NavRecord.ToBytes", seqEqUnder(g, st.sliceSeqG(out, g), e.after.sliceSeqG(lout, g)), where, "other bytes are returned")
	}
	if n == 0 {
		fail("the record is not serialised by encoding/json")
	}
	r.add("every record is serialised", "NavRecord.ToBytes", !E.feasible(E.Diff(ok, all)), where, "success without serialising")
	return an
}

// ---- memory held by a connection ----

const maxPacket = 128 << 10

// checkFootprint decides that what a connection holds does not grow from
// packet to packet and that lengths taken from the stream are bounded.
func checkFootprint(r *Report) {
	r.sub("footprint", "connection handler", func() *Analysis {
		hr := runHandler(r)
		rec := hr.loop
		for _, k := range rec.order {
			h := rec.havoc[k]
			if h.back == nil || h.sym == nil || h.typ == nil || h.back.isBool {
				continue
			}
			c := "what is kept from packet to packet: " + keptName(h)
			msg := hr.grows(rec, k, h)
			r.add("memory does not grow with the number of packets", c, msg == "", r.w.posStr(rec.fn.Pos()), msg)
		}
		r.add("memory does not grow with the number of packets", "connection loop", true, r.w.posStr(rec.fn.Pos()), "")
		for _, e := range hr.an.events {
			in := false
			for _, l := range e.loops {
				in = in || l == rec
			}
			switch {
			case e.kind == "defer" && in && e.fn == rec.fn:
				r.add("nothing is put off to the end of the connection for each packet", short(e.name)+" in "+short(e.fn.String()), !E.feasible(e.g), r.w.posStr(e.pos), "every packet adds a deferred call")
			case e.kind == "alloc" && in:
				size := int64(1)
				if e.typ != nil {
					size = max(1, types.SizesFor("gc", "amd64").Sizeof(e.typ))
				}
				n := prune(e.args[0], e.g)
				big := E.Not(cmpGE(vConst(maxPacket/size), n, e.g))
				ok := never(e.g, big) || countsElements(n)
				r.add("lengths from the stream are bounded before memory is taken for them", "make in "+short(e.fn.String()), ok, r.w.posStr(e.pos), "takes room for "+valStr(n)+" elements")
			}
		}
		return hr.an
	})
}

func keptName(h *hvar) string {
	if h.phi != nil && h.phi.Comment != "" {
		return h.phi.Comment
	}
	if h.obj != nil {
		return h.obj.name
	}
	return h.key
}

// countsElements: a number made of lengths of lists that exist already.
func countsElements(n *Val) bool {
	for _, a := range n.alts {
		if a.l.kind != KInt {
			return false
		}
		if a.l.lin.c > maxPacket {
			return false
		}
		for _, t := range a.l.lin.t {
			if !strings.HasPrefix(t.a.key, "len") || t.k > 16 {
				return false
			}
		}
	}
	return true
}

// grows: the variable is larger after a round than it was before.
func (hr *handlerRun) grows(rec *LoopRec, k string, h *hvar) string {
	g := rec.back.g
	if eqUnder(g, h.back, h.sym) {
		return ""
	}
	own := "loop:" + rec.key + ":" + k
	back := prune(h.back, g)
	w := newWalker(rec.back)
	switch h.typ.Underlying().(type) {
	case *types.Slice:
	case *types.Basic:
		if !isString(h.typ) {
			return ""
		}
	case *types.Map, *types.Pointer, *types.Interface:
		for _, a := range back.alts {
			if a.l.kind == KNil || eqUnder(E.And(g, a.g), one(a.l), h.sym) {
				continue
			}
			w.leaf(a.l)
		}
		hr.throughLoops(w)
		if w.mentions(own) {
			return "it still holds what it held before the packet"
		}
		return ""
	default:
		return ""
	}
	n, before := sliceLen(back), sliceLen(h.sym)
	w.val(n, T)
	hr.throughLoops(w)
	if !w.mentions(own) || never(g, E.Not(cmpGE(before, n, g))) || never(g, E.Not(cmpGE(vConst(maxPacket), n, g))) {
		return ""
	}
	return "its length becomes " + valStr(n)
}
