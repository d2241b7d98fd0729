package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The connection handler. The function started with a go statement by the
// accept loop is analysed for an arbitrary connection; one generic iteration
// of its packet loop stands for every packet. Decoding and encoding of packets
// and saving of records are the boundary of the analysis: what they do is
// decided by C01..C13 and C40, and their results are arbitrary within that.

type decodeCall struct {
	ev   *Event
	ok   B    // decoding succeeded
	code *Val // result code
	pkg  *Val // pointer to the packet
	app  B    // successful application packet
	sds  *Obj // its records
	sdsV *Val // the slice of records
	fld  func(name string) *Val
}

type handlerRun struct {
	an     *Analysis
	fn     *ssa.Function
	mk     *ssa.Function
	conn   []*Val
	st     *State
	start  B // assumptions
	loop   *LoopRec
	decs   []*decodeCall
	decOf  map[*Event]*decodeCall
	reads  []*Event
	writes []*Event
	saves  []*Event
	encs   []*Event
	closes []*Event
	egts   *ssa.Package
	stor   *ssa.Package
	before map[*Obj]*Val // memory that exists before a connection is accepted
	owned  map[*Obj]bool // memory made for this connection by the accept loop
	r      *Report
}

// serverRun analyses Server.Run, for a server made by New from arbitrary
// settings, up to the handlers it starts.
func serverRun(r *Report) (*Analysis, *State, *Val, *ssa.Function, *ssa.Function) {
	return serverRunFor(r, false)
}

// serverRunFor interprets New and Run; any: also for missing storages.
func serverRunFor(r *Report, any bool) (*Analysis, *State, *Val, *ssa.Function, *ssa.Function) {
	p := r.w.pkg("cli/receiver/server")
	fn, mk := r.w.method(p, "Server", "Run"), p.Func("New")
	if fn == nil || len(fn.Params) != 1 || mk == nil {
		fail("no function New or no method Server.Run")
	}
	an := start(r.w)
	st := newState()
	var args []*Val
	for _, q := range mk.Params {
		v := mkSym(q.Type(), "arg."+q.Name())
		if _, ok := q.Type().Underlying().(*types.Pointer); ok && any {
			v = mergeVal(E.newVar("isnil:arg."+q.Name()), vNil(), v)
		}
		args = append(args, v)
	}
	srv := an.call(mk, args, nil, st, "")
	recv := srv
	if _, ok := mk.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
		o := newObj("server", fn.Params[0].Type().Underlying().(*types.Pointer).Elem())
		st.heap[o] = srv
		recv = vPtr(o)
	}
	an.call(fn, []*Val{recv}, nil, st, "")
	return an, st, recv, fn, mk
}

// setting is the value of the first parameter of New with the given type.
func setting(mk *ssa.Function, typ string) *Val {
	for _, q := range mk.Params {
		if types.TypeString(q.Type(), nil) == typ {
			return mkSym(q.Type(), "arg."+q.Name())
		}
	}
	fail("New has no parameter of type " + typ)
	return nil
}

func ifaceNonNil(v *Val, t types.Type) B {
	if v == nil || v.isBool || !types.IsInterface(t) {
		return T
	}
	return nonNil(v)
}

// goTarget resolves the function of a go event.
func goTarget(e *Event) (*ssa.Function, []*Val) {
	if e.recv == nil || e.recv.isBool {
		return nil, nil
	}
	for _, a := range e.recv.alts {
		if a.l.kind == KFunc && a.l.fn != nil {
			return a.l.fn, a.l.fields
		}
	}
	return nil, nil
}

func codecMethod(w *World, f *ssa.Function, p *ssa.Package, names ...string) string {
	if f.Signature.Recv() == nil || f.Pkg != p {
		return ""
	}
	for _, n := range names {
		if f.Name() == n {
			t := f.Signature.Recv().Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if nt, ok := types.Unalias(t).(*types.Named); ok {
				return nt.Obj().Name()
			}
		}
	}
	return ""
}

// hookCodec replaces the packet codec and the storage by their contracts.
func (hr *handlerRun) hookCodec(an *Analysis) {
	p := hr.egts
	an.keepInput = true
	an.boundary = func(f *ssa.Function) bool {
		return codecMethod(an.w, f, p, "Decode", "Encode", "Length") != ""
	}
	if fn := an.w.method(p, "Package", "Decode"); fn != nil {
		an.hooks[fn.String()] = hr.decodeHook
	}
	if fn := an.w.method(p, "Package", "Encode"); fn != nil {
		an.hooks[fn.String()] = hr.encodeHook
	}
	if hr.stor != nil {
		if fn := an.w.method(hr.stor, "Repository", "Save"); fn != nil {
			an.hooks[fn.String()] = func(c *Call) *Val {
				e := c.an.event(&Event{kind: "call", name: "Repository.Save", fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: c.args, st: c.st.clone(), key: c.site()})
				v, _ := symErr("save@" + c.site())
				e.res = v
				return v
			}
		}
	}
}

// decodeHook: a decoded packet has arbitrary contents, the kind of its data
// agrees with its type and the code with the error (C05, C13). A packet whose
// decoding failed has any kind of data or none.
func (hr *handlerRun) decodeHook(c *Call) *Val {
	p := hr.egts
	site := "pkg@" + c.site()
	str := structOf(p, "Package")
	pt := p.Type("Package").Type()
	failed := E.newVar("fails:" + site)
	ok := E.Not(failed)
	dc := &decodeCall{ok: ok}
	bits := varBits("code:"+site, 8)
	some := F
	for i := range bits {
		bits[i] = E.And(failed, bits[i])
		some = E.Or(some, bits[i])
	}
	c.st.g = E.And(c.st.g, E.Imp(failed, some))
	dc.code = vBits(bits)
	var fs []*Val
	var typ *Val
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		switch f.Name() {
		case "PacketType":
			b := varBits(site+".PacketType", 8)
			for k := 1; k < 8; k++ {
				b[k] = E.And(failed, b[k])
			}
			typ = vBits(b)
			fs = append(fs, typ)
		case "ServicesFrameData":
			fs = append(fs, nil)
		default:
			fs = append(fs, mkSym(f.Type(), site+"."+f.Name()))
		}
	}
	dc.app = E.And(ok, eqConst(typ, ptAppdata))
	dc.sds = symObj(site+".records", p.Type("ServiceDataSet").Type())
	dc.sdsV = objInit(dc.sds)
	rsp := symObj(site+".response", p.Type("PtResponse").Type())
	// a packet whose decoding failed may hold anything decoded before
	l1, l2 := E.newVar("left1:"+site), E.newVar("left2:"+site)
	body := mergeVal(E.Or(dc.app, E.And(failed, l1)), vIface(types.NewPointer(p.Type("ServiceDataSet").Type()), vPtr(dc.sds)),
		mergeVal(E.Or(ok, l2), vIface(types.NewPointer(p.Type("PtResponse").Type()), vPtr(rsp)), vNil()))
	fs[fieldIndex(str, "ServicesFrameData")] = body
	content := vStruct(fs)
	e := c.an.event(&Event{kind: "call", name: "Package.Decode", fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: c.args, st: c.st.clone(), key: c.site()})
	c.fr.oblig(c.st, c.ins, "nil dereference", nonNil(c.args[0]))
	if c.st.g == F {
		return c.symResult("x")
	}
	c.st.store(c.args[0], content)
	_ = pt
	err := mergeVal(ok, vNil(), vErr("err:"+site))
	e.res = vTuple([]*Val{dc.code, err})
	e.after = c.st.clone()
	dc.ev = e
	dc.pkg = c.args[0]
	dc.fld = func(name string) *Val {
		i := fieldIndex(str, name)
		if i < 0 {
			fail("no field " + name)
		}
		return fs[i]
	}
	hr.decOf[e] = dc
	return e.res
}

// encodeHook: an encoded packet is an arbitrary sequence of at least 11 bytes,
// and nothing is returned with an error (C04, C09).
func (hr *handlerRun) encodeHook(c *Call) *Val {
	site := "enc@" + c.site()
	e := c.an.event(&Event{kind: "call", name: "Package.Encode", fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: c.args, st: c.st.clone(), key: c.site()})
	c.fr.oblig(c.st, c.ins, "nil dereference", nonNil(c.args[0]))
	n := E.linAtom(E.atom("len("+site+")", 11, 70000))
	src := newSrc(site, u8t)
	d := freshSlice(site, u8t, mkSeq([]Item{{g: T, k: ISub, src: src, off: E.konst(0), n: n}}), c.st)
	v, failed := symErr(site)
	e.res = vTuple([]*Val{mergeVal(failed, vNil(), d), v})
	return e.res
}

// runHandler analyses the connection handler.
func runHandler(r *Report) *handlerRun { return runHandlerFor(r, false) }

func runHandlerFor(r *Report, any bool) *handlerRun {
	hr := &handlerRun{r: r, egts: r.w.pkg("libs/egts"), stor: r.w.pkg("cli/receiver/storage"), decOf: map[*Event]*decodeCall{}}
	an0, _, _, _, mk := serverRunFor(r, any)
	hr.mk = mk
	r.use(an0)
	var ge *Event
	for _, e := range an0.events {
		if e.kind == "go" && E.feasible(e.g) {
			ge = e
		}
	}
	if ge == nil {
		fail("Server.Run starts no handler")
	}
	fn, binds := goTarget(ge)
	if fn == nil || len(fn.Blocks) == 0 {
		fail("the handler started by Server.Run is unknown")
	}
	hr.fn = fn
	an := start(r.w)
	hr.an = an
	hr.hookCodec(an)
	st := &State{g: T, env: map[ssa.Value]*Val{}, heap: ge.st.clone().heap}
	// the connection exists (decided for the accept loop under C30)
	for i, v := range ge.args {
		var t types.Type
		if i < len(fn.Params) {
			t = fn.Params[i].Type()
		}
		if t != nil {
			st.g = E.And(st.g, ifaceNonNil(v, t))
		}
		hr.conn = append(hr.conn, v)
	}
	for i, v := range binds {
		if i < len(fn.FreeVars) {
			t := fn.FreeVars[i].Type()
			st.g = E.And(st.g, ifaceNonNil(v, t))
			if pt, ok := t.Underlying().(*types.Pointer); ok && types.IsInterface(pt.Elem()) {
				st.g = E.And(st.g, ifaceNonNil(st.load(v, pt.Elem()), pt.Elem()))
			}
		}
	}
	hr.start = st.g
	hr.before, hr.owned = map[*Obj]*Val{}, map[*Obj]bool{}
	if len(ge.loops) > 0 {
		hd := ge.loops[0].hd
		for o, v := range st.heap {
			if _, ok := hd.heap[o]; ok {
				hr.before[o] = v
			} else {
				hr.owned[o] = true
			}
		}
	}
	for _, o := range sortedObjs(st.heap) {
		o.localAlloc = false // belongs to the accept loop
	}
	// a connection captured by the handler, in a variable made anew for each one
	for i, v := range binds {
		if i >= len(fn.FreeVars) || v.isBool {
			continue
		}
		pt, ok := fn.FreeVars[i].Type().Underlying().(*types.Pointer)
		if !ok || !types.IsInterface(pt.Elem()) {
			hr.conn = append(hr.conn, v)
			continue
		}
		own := len(v.alts) > 0
		for _, a := range v.alts {
			own = own && a.l.kind == KPtr && hr.owned[a.l.obj]
		}
		if own {
			hr.conn = append(hr.conn, st.load(v, pt.Elem()))
		}
	}
	an.call(fn, ge.args, binds, st, "")
	hr.st = st
	for _, e := range an.events {
		switch {
		case e.kind == "call" && hr.decOf[e] != nil:
			hr.decs = append(hr.decs, hr.decOf[e])
		case e.kind == "call" && e.name == "Repository.Save":
			hr.saves = append(hr.saves, e)
		case e.kind == "call" && e.name == "Package.Encode":
			hr.encs = append(hr.encs, e)
		case e.kind == "read":
			hr.reads = append(hr.reads, e)
		case e.kind == "ext" && strings.HasSuffix(e.name, "net.Conn.Write"):
			hr.writes = append(hr.writes, e)
		case e.kind == "ext" && strings.HasSuffix(e.name, "net.Conn.Close"):
			hr.closes = append(hr.closes, e)
		}
	}
	if len(hr.decs) == 0 {
		fail("the handler decodes no packet")
	}
	for _, d := range hr.decs {
		if len(d.ev.loops) == 0 {
			fail("packets are not decoded in a loop")
		}
		l := d.ev.loops[len(d.ev.loops)-1]
		if hr.loop != nil && hr.loop != l {
			fail("packets are decoded in several loops")
		}
		hr.loop = l
	}
	if hr.loop.back == nil {
		fail("the packet loop is never repeated")
	}
	return hr
}

func sortedObjs(h map[*Obj]*Val) []*Obj {
	var out []*Obj
	for o := range h {
		out = append(out, o)
	}
	sortObjs(out)
	return out
}

func (hr *handlerRun) pos(e *Event) string { return hr.r.w.posStr(e.pos) }

func debugHandler(r *Report) {
	r.sub("dbg", "handler", func() *Analysis {
		hr := runHandler(r)
		fmt.Println("loop", hr.loop.key, "back", len(E.Support(hr.loop.back.g)))
		for _, k := range hr.loop.order {
			h := hr.loop.havoc[k]
			fmt.Println("   ", k, valStr(h.init), "->", valStr(h.back))
		}
		for _, e := range hr.an.events {
			if e.kind == "oblig" && never(e.g, E.Not(e.cond)) {
				continue
			}
			x := ""
			for _, a := range e.args {
				x += " " + valStrD(a, 2)
			}
			if e.kind == "log" {
				continue
			}
			if len(x) > 300 {
				x = x[:300]
			}
			fmt.Println(e.kind, e.name, hr.pos(e), len(e.loops), x)
		}
		for _, l := range hr.an.loops {
			fmt.Println("LOOP", l.key, l.back != nil, len(l.exits))
			for _, k := range l.order {
				h := l.havoc[k]
				x := fmt.Sprintln("   ", k, h.typ, "INIT", valStr(h.init), "BACK", valStr(h.back))
				if len(x) > 900 {
					x = x[:900] + "\n"
				}
				fmt.Print(x)
			}
		}
		fmt.Println("bdd", len(E.nodes))
		return hr.an
	})
}
