package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The storages: saving to all of them (C40), each plugin's Save (C41), each
// plugin's Init (C42), their selection by the configuration (C43) and what
// must not reach a query or destination name (C44).

func param(fn *ssa.Function, k int) *ssa.Parameter {
	if fn == nil || k >= len(fn.Params) {
		fail("a function has not the expected parameters")
	}
	return fn.Params[k]
}

// ---- saving to all storages ----

// saverHook makes every Save of a storage an event with an arbitrary outcome.
func saverHook(an *Analysis, sp *ssa.Package) {
	f := func(c *Call) *Val {
		e := c.an.event(&Event{kind: "call", name: "Saver.Save", fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, recv: c.args[0], args: c.args[1:], st: c.st.clone(), key: c.site()})
		v, _ := symErr("save@" + c.site())
		e.res = v
		return v
	}
	for _, n := range []string{"Saver", "Store"} {
		if t := sp.Type(n); t != nil {
			an.hooks["invoke "+types.TypeString(t.Type(), nil)+".Save"] = f
		}
	}
}

func saverList(sp *ssa.Package) (*types.Struct, int) {
	t := sp.Type("Repository")
	if t == nil || sp.Type("Saver") == nil {
		fail("no types Repository and Saver in cli/receiver/storage")
	}
	s, ok := t.Type().Underlying().(*types.Struct)
	if !ok {
		fail("Repository is no structure")
	}
	for i := 0; i < s.NumFields(); i++ {
		if l, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			if types.Implements(l.Elem(), sp.Type("Saver").Type().Underlying().(*types.Interface)) {
				return s, i
			}
		}
	}
	fail("Repository keeps no list of storages")
	return nil, 0
}

func checkFanOut(r *Report) {
	sp := r.w.pkg("cli/receiver/storage")
	str, li := saverList(sp)
	lt := str.Field(li).Type()
	et := lt.Underlying().(*types.Slice).Elem()
	list := func(st *State, recv *Val) *Val {
		return st.load(vPtr(recv.alts[0].l.obj, PE{field: li}), lt)
	}
	r.sub("saving", "Repository.Save", func() *Analysis {
		an := start(r.w)
		saverHook(an, sp)
		an.nonNilIface = types.TypeString(et, nil)
		fn := r.w.method(sp, "Repository", "Save")
		st := newState()
		recv, rec := vPtr(symObj("repository", sp.Type("Repository").Type())), mkSym(param(fn, 1).Type(), "record")
		before := list(st, recv)
		init := st.clone()
		res := an.call(fn, []*Val{recv, rec}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		var saves []*Event
		for _, e := range an.events {
			if e.name == "Saver.Save" {
				saves = append(saves, e)
			}
		}
		r.add("all storages are offered the record", "Repository.Save", len(saves) > 0, where, "no storage is called")
		els := elemLoops(an.loops, before, et, nil, T)
		fails := F
		for _, el := range els {
			var gs []B
			for _, e := range saves {
				if len(e.loops) == 1 && e.loops[0] == el.rec {
					gs = append(gs, e.g)
				}
			}
			if len(gs) == 0 {
				continue
			}
			msg, once := exactlyOnce(el.rec.back.g, gs)
			r.add("every storage is called once", "Repository.Save", once, where, "a storage "+strings.Replace(msg, "sent", "called", 1))
			// what the loop establishes about failures
			failed := E.newVar("a storage failed@" + el.rec.key)
			fails = E.Or(fails, failed)
			bad := F
			for _, e := range saves {
				bad = E.Or(bad, E.And(e.g, E.Not(errNil(e.res))))
			}
			c := induct(el.rec, bad, T, failed)
			c = E.And(c, E.Imp(failed, cmpGE(sliceLen(before), vConst(1), T)))
			// errors.Join of the collected errors
			for _, e := range an.events {
				if e.kind == "ext" && e.name == "errors.Join" && len(e.loops) == 0 {
					h := carried(el.rec, e.args[0], e.g)
					if h == nil {
						continue
					}
					q0, q := seqOf(el.rec.hd, h.sym, el.rec.hd.g), seqOf(el.rec.back, h.back, el.rec.back.g)
					if q0 == nil || q == nil {
						continue
					}
					adds := splitAfter(q, q0, el.rec.back.g)
					all := adds != nil
					if all {
						for _, it := range adds.items {
							all = all && it.k == IVal && never(el.rec.back.g, it.g, E.Not(nonNil(it.val)))
						}
					}
					if all {
						c = E.And(c, E.Iff(E.Not(errNil(e.res)), cmpGE(sliceLen(h.sym), vConst(1), T)))
					}
				}
			}
			r.add("a failure is reported", "Repository.Save", E.feasible(E.And(st.g, c, failed)) && never(st.g, c, failed, errNil(res)), where, "saving reports success although a storage failed")
			r.add("success is reported only if all succeeded", "Repository.Save", E.feasible(E.And(st.g, c, E.Not(failed), errNil(res))) && never(st.g, c, E.Not(failed), E.Not(errNil(res))), where, "saving reports an error although all storages succeeded")
			for _, e := range saves {
				p := r.w.posStr(e.pos)
				in := len(e.loops) == 1 && e.loops[0] == el.rec
				r.add("storages are called in their order", p, in && eqUnder(e.g, e.recv, el.elem), p, "the storage called is not the next one of the list")
				r.add("every storage gets the same record", p, len(e.args) == 1 && eqUnder(e.g, e.args[0], rec), p, "the record handed on is not the one given")
			}
			// nothing left out: the loop is reached whenever there are storages
			r.add("all storages are offered the record", "Repository.Save loop", never(init.g, cmpGE(sliceLen(before), vConst(1), T), E.Not(el.rec.init.g)), where, "with some storages the loop is not reached")
		}
		if fails == F {
			r.add("every storage is called once", "Repository.Save", false, where, "no loop calls every storage of the list in order")
		}
		return an
	})
	r.sub("adding", "Repository.AddStore", func() *Analysis {
		an := start(r.w)
		fn := r.w.method(sp, "Repository", "AddStore")
		st := newState()
		recv, s := vPtr(symObj("repository", sp.Type("Repository").Type())), mkSym(param(fn, 1).Type(), "storage")
		st.g = nonNil(s)
		before := seqOf(st, list(st, recv), st.g)
		an.call(fn, []*Val{recv, s}, nil, st, "")
		after := seqOf(st, list(st, recv), st.g)
		where := r.w.posStr(fn.Pos())
		ok := before != nil && after != nil && E.feasible(st.g)
		if ok {
			adds := splitAfter(after, before, st.g)
			ok = adds != nil && eqUnder(st.g, seqLen(adds), vConst(1)) && eqUnder(st.g, seqIndex(adds, E.konst(0), st.g, et), s)
		}
		r.add("a storage is added at the end of the list", "Repository.AddStore", ok, where, "afterwards the list is not the list before and the new storage")
		return an
	})
	r.sub("empty", "NewRepository", func() *Analysis {
		an := start(r.w)
		fn := sp.Func("NewRepository")
		if fn == nil {
			fail("no function NewRepository")
		}
		st := newState()
		v := an.call(fn, nil, nil, st, "")
		ok := E.feasible(st.g)
		for _, a := range prune(v, st.g).alts {
			ok = ok && a.l.kind == KPtr && never(st.g, a.g, cmpGE(sliceLen(list(st, one(a.l))), vConst(1), T))
		}
		r.add("a new repository has no storages", "NewRepository", ok, r.w.posStr(fn.Pos()), "it is not empty")
		return an
	})
}

// ---- one plugin ----

type pluginRun struct {
	r       *Report
	name    string // of the package
	nt      *types.Named
	an      *Analysis
	cfg     *Val
	init    []*Event
	initRes *Val
	initSt  *State
	start   B
	ok      B // Init succeeded
	initFn  *ssa.Function
	saveFn  *ssa.Function
	recv    *Val
	msg     *Val
	save    []*Event
	res     *Val
	st      *State
}

// runPlugin analyses Init of a new plugin with arbitrary settings and then
// Save of an arbitrary record.
func runPlugin(r *Report, name string, nt *types.Named) *pluginRun {
	p := &pluginRun{r: r, name: strings.SplitN(name, ".", 2)[0], nt: nt, an: start(r.w)}
	p.initFn, p.saveFn = r.w.methodOf(nt, "Init"), r.w.methodOf(nt, "Save")
	if p.initFn == nil || p.saveFn == nil || len(p.initFn.Params) != 2 || len(p.saveFn.Params) != 2 {
		fail("no methods Init and Save of " + name)
	}
	st := newState()
	o := newObj("connector", nt)
	st.heap[o] = zeroVal(nt)
	p.recv = vPtr(o)
	p.cfg = mkSym(p.initFn.Params[1].Type(), "cfg")
	recv := func(fn *ssa.Function, st *State) *Val {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			return p.recv
		}
		return st.load(p.recv, nt)
	}
	p.initRes = p.an.call(p.initFn, []*Val{recv(p.initFn, st), p.cfg}, nil, st, "")
	p.init = p.an.events
	p.initSt = st.clone()
	p.ok = E.And(st.g, errNil(p.initRes))
	// library constructors that report no error return something
	for _, e := range p.init {
		if e.kind != "ext" {
			continue
		}
		if v := value0(e); v != nil && !v.isBool && len(v.alts) > 0 {
			made := nonNil(v)
			if o := outcome(e); o != nil {
				if o == v {
					continue
				}
				made = E.Or(E.Not(errNil(o)), made)
			}
			p.ok = E.And(p.ok, E.Or(E.Not(e.g), made))
		}
	}
	st.g = p.ok
	p.msg = mkSym(p.saveFn.Params[1].Type(), "record")
	p.res = p.an.call(p.saveFn, []*Val{recv(p.saveFn, st), p.msg}, nil, st, "")
	p.save = p.an.events[len(p.init):]
	p.st = st
	return p
}

func (p *pluginRun) where(e *Event) string { return p.r.w.posStr(e.pos) }

// get is a setting and whether it is present.
func (p *pluginRun) get(k string) (*Val, B) { return mapGet(p.cfg, vStr(k), stringT, p.initSt) }

func (p *pluginRun) val(k string) *Val { v, _ := p.get(k); return v }

func (p *pluginRun) has(ks ...string) B {
	g := T
	for _, k := range ks {
		_, o := p.get(k)
		g = E.And(g, o)
	}
	return g
}

func exts(es []*Event, names ...string) []*Event {
	var out []*Event
	for _, e := range es {
		if e.kind != "ext" {
			continue
		}
		for _, n := range names {
			if e.name == n || strings.HasSuffix(n, "*") && strings.HasPrefix(e.name, n[:len(n)-1]) {
				out = append(out, e)
				break
			}
		}
	}
	return out
}

// outcome is the error a library call returned.
func outcome(e *Event) *Val {
	if e.res == nil || e.res.isBool {
		return nil
	}
	v := e.res
	if len(v.alts) == 1 && v.alts[0].l.kind == KTuple {
		fs := v.alts[0].l.fields
		if len(fs) == 0 {
			return nil
		}
		v = fs[len(fs)-1]
	}
	if v == nil || v.isBool {
		return nil
	}
	for _, a := range v.alts {
		if a.l.kind == KTerm && strings.HasPrefix(a.l.op, "err:") || a.l.kind == KTerm && strings.HasPrefix(a.l.op, "fresh:") {
			return v
		}
	}
	return nil
}

// value0 is the first result of a call.
func value0(e *Event) *Val {
	if e.res != nil && !e.res.isBool && len(e.res.alts) == 1 && e.res.alts[0].l.kind == KTuple {
		return e.res.alts[0].l.fields[0]
	}
	return e.res
}

// flat writes out the texts that library functions compose.
func flat(v *Val, g B) *Seq {
	q := guardedText(v, g)
	if q == nil {
		return nil
	}
	var out []Item
	for _, it := range q.items {
		if it.k == ISub && it.src.der != nil && it.src.der.op == "hostport" {
			h, p := flat(it.src.der.args[0], E.And(g, it.g)), flat(it.src.der.args[1], E.And(g, it.g))
			if h == nil || p == nil {
				return nil
			}
			for _, s := range []*Seq{h, vStr(":").alts[0].l.seq, p} {
				out = append(out, seqGuard(s, it.g)...)
			}
			continue
		}
		out = append(out, it)
	}
	return mkSeq(out)
}

func sameText(g B, v *Val, parts ...*Val) bool {
	var items []Item
	for _, x := range parts {
		q := flat(x, g)
		if q == nil {
			return false
		}
		items = append(items, q.items...)
	}
	q := flat(v, g)
	return q != nil && seqEqUnder(g, q, mkSeq(items))
}

func fieldNamed(v *Val, t types.Type, name string, g B) *Val {
	f, _ := elemField(v, t, name, g)
	return f
}

// clientCalls are the calls of the client library by which a plugin connects.
type connection struct {
	connect *Event
	ready   *Val // what saving must use
	docs    []string
}

func (p *pluginRun) only(es []*Event, what string) *Event {
	var live []*Event
	for _, e := range es {
		if E.feasible(e.g) {
			live = append(live, e)
		}
	}
	if len(live) != 1 {
		fail(fmt.Sprintf("%s is called at %d places", what, len(live)))
	}
	return live[0]
}

func (p *pluginRun) param(what string, e *Event, ok bool, v *Val) {
	d := "another value"
	if v != nil {
		d = valStrD(v, 2)
	}
	p.r.add("each setting is used for its purpose", p.name+": "+what, ok, p.where(e), "the "+what+" is not the configured one: "+d)
}

// parsed is the number that a setting was parsed to.
func (p *pluginRun) parsed(k string, g B) *Val {
	for _, e := range p.init {
		if e.kind == "parse" && (e.name == "atoi" || e.name == "parseint") && sameText(E.And(e.g, g), e.args[0], p.val(k)) {
			return value0(e)
		}
	}
	return nil
}

func pqUnescape(v *Val) *Val {
	in, ps := unescape(v)
	// backslashes before quotes, each exactly once
	if len(ps) == 2 && ps[0] == [2]string{`\`, `\\`} && ps[1] == [2]string{`'`, `\'`} {
		return in
	}
	// a replacer works in one pass: the order does not matter
	if d := asDerivedVal(v); d != nil && len(d.args) == 5 && len(ps) == 2 && ps[1] == [2]string{`\`, `\\`} && ps[0] == [2]string{`'`, `\'`} {
		return in
	}
	return nil
}

func asDerivedVal(v *Val) *derived {
	if v == nil || v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KStr {
		return nil
	}
	return asDerived(v.alts[0].l.seq)
}

// conninfo reads the parameters of a PostgreSQL connection string.
func conninfo(q *Seq, g B) (map[string]*Val, string) {
	out := map[string]*Val{}
	key, state := "", 0 // 0: before or in a key, 1: after =, 2: quoted value, 3: after a value
	var lit string
	var val *Val
	for _, it := range q.items {
		if E.And(it.g, g) == F {
			continue
		}
		if E.Diff(g, it.g) != F && never(E.And(g, it.g)) {
			continue
		}
		if it.k == ISub {
			if state != 2 || val != nil || lit != "" {
				return nil, "a setting is put into it without quotes"
			}
			val = vStrSeq(mkSeq([]Item{it}))
			continue
		}
		if it.k != IConst {
			return nil, "it has unknown parts"
		}
		for _, ch := range it.data {
			switch state {
			case 0, 3:
				switch {
				case ch == ' ' && key == "":
					state = 0
				case ch == '=':
					state = 1
				case ch == ' ':
				default:
					key += string(ch)
					state = 0
				}
			case 1:
				if ch == '\'' {
					state, lit, val = 2, "", nil
				} else if ch != ' ' {
					state, lit, val = 4, string(ch), nil
				}
			case 2:
				if ch == '\'' {
					if val == nil {
						val = vStr(lit)
					}
					out[key] = val
					key, state, lit, val = "", 3, "", nil
				} else if val != nil || ch == '\\' {
					return nil, "a value has unexpected parts"
				} else {
					lit += string(ch)
				}
			case 4:
				if ch == ' ' {
					out[key] = vStr(lit)
					key, state, lit = "", 0, ""
				} else {
					lit += string(ch)
				}
			}
		}
	}
	if state == 4 {
		out[key] = vStr(lit)
		state = 0
		key = ""
	}
	if state == 1 || state == 2 || key != "" {
		return nil, "it is incomplete"
	}
	return out, ""
}

// connections of the plugins: which library call connects, with what.
var connectors = map[string]func(p *pluginRun) *connection{
	"nats": func(p *pluginRun) *connection {
		e := p.only(exts(p.init, "github.com/nats-io/nats.go.Connect"), "nats.Connect")
		g := E.And(e.g, p.has("servers"))
		p.param("address", e, eqUnder(g, e.args[0], p.val("servers")), e.args[0])
		both := p.has("user", "password")
		q := seqOf(e.st, e.args[1], e.g)
		with, without := F, F
		for _, u := range exts(p.init, "github.com/nats-io/nats.go.UserInfo") {
			if !E.feasible(u.g) {
				continue
			}
			p.param("user", u, eqUnder(u.g, u.args[0], p.val("user")), u.args[0])
			p.param("password", u, eqUnder(u.g, u.args[1], p.val("password")), u.args[1])
			if q == nil {
				continue
			}
			for _, it := range q.items {
				if it.k == IVal && eqUnder(E.And(e.g, it.g, u.g), it.val, u.res) {
					with = E.Or(with, E.And(it.g, u.g))
				}
			}
		}
		_ = without
		p.param("credentials", e, q != nil && E.feasible(E.And(e.g, both)) && never(e.g, both, E.Not(with)), nil)
		return &connection{e, value0(e), []string{"servers", "topic"}}
	},
	"nsq": func(p *pluginRun) *connection {
		e := p.only(exts(p.init, "github.com/nsqio/go-nsq.NewProducer"), "nsq.NewProducer")
		p.param("address", e, eqUnder(E.And(e.g, p.has("server")), e.args[0], p.val("server")), e.args[0])
		return &connection{e, value0(e), []string{"server", "topic"}}
	},
	"postgresql": func(p *pluginRun) *connection {
		e := p.only(exts(p.init, "database/sql.Open"), "sql.Open")
		docs := []string{"host", "port", "user", "password", "database", "table", "sslmode"}
		g := E.And(e.g, p.has(docs...))
		d, _ := constStr(prune(e.args[0], e.g))
		p.param("driver", e, d == "postgres", e.args[0])
		q := guardedText(e.args[1], g)
		info, why := map[string]*Val(nil), "it is no text"
		if q != nil {
			info, why = conninfo(q, g)
		}
		p.r.add("every value of the connection string is quoted", p.name, info != nil, p.where(e), "the connection string cannot be read back: "+why)
		for k, name := range map[string]string{"dbname": "database", "host": "host", "port": "port", "user": "user", "password": "password", "sslmode": "sslmode"} {
			if info == nil {
				break
			}
			v := info[k]
			in := pqUnescape(v)
			p.param(name, e, in != nil && sameText(g, in, p.val(name)), v)
			if v == nil {
				p.param(name, e, false, vStr(""))
			}
		}
		for k := range info {
			if !strings.Contains(" dbname host port user password sslmode connect_timeout application_name ", " "+k+" ") {
				p.param("parameter "+k, e, false, info[k])
			}
		}
		pinged := F
		for _, x := range exts(p.init, "(*database/sql.DB).Ping*") {
			if eqUnder(x.g, x.args[0], value0(e)) {
				pinged = E.Or(pinged, E.And(x.g, errNil(outcome(x))))
			}
		}
		p.r.add("success means that the backend was reached", p.name, never(p.ok, E.Not(pinged)), p.where(e), "Init succeeds without asking the server")
		return &connection{e, value0(e), docs}
	},
	"rabbitmq": func(p *pluginRun) *connection {
		e := p.only(exts(p.init, "github.com/streadway/amqp.DialConfig", "github.com/streadway/amqp.Dial*"), "amqp.Dial")
		docs := []string{"host", "port", "user", "password", "exchange"}
		g := E.And(e.g, p.has(docs...))
		ok := false
		for _, end := range []string{"/", "", "/%2F", "/%2f"} {
			ok = ok || sameText(g, e.args[0], vStr("amqp://"), p.val("host"), vStr(":"), p.val("port"), vStr(end))
		}
		p.param("address", e, ok, e.args[0])
		okU, okP := false, false
		if strings.HasSuffix(e.name, ".DialConfig") {
			ct := e.fn.Pkg.Prog.ImportedPackage("github.com/streadway/amqp").Type("Config").Type()
			sasl := fieldNamed(e.args[1], ct, "SASL", e.g)
			pt := e.fn.Pkg.Prog.ImportedPackage("github.com/streadway/amqp").Type("PlainAuth").Type()
			if q := seqOf(e.st, sasl, g); q != nil && eqUnder(g, seqLen(q), vConst(1)) {
				a := prune(seqIndex(q, E.konst(0), g, types.NewPointer(pt)), g)
				if len(a.alts) == 1 && a.alts[0].l.kind == KIface && types.Identical(a.alts[0].l.typ, types.NewPointer(pt)) {
					c := e.st.load(a.alts[0].l.val, pt)
					okU = eqUnder(g, fieldNamed(c, pt, "Username", g), p.val("user"))
					okP = eqUnder(g, fieldNamed(c, pt, "Password", g), p.val("password"))
				}
			}
			vh := prune(fieldNamed(e.args[1], ct, "Vhost", e.g), g)
			s, isC := constStr(vh)
			p.param("virtual host", e, isC && (s == "" || s == "/"), vh)
		}
		p.param("user", e, okU, nil)
		p.param("password", e, okP, nil)
		ch := p.only(exts(p.init, "(*github.com/streadway/amqp.Connection).Channel"), "Connection.Channel")
		p.param("connection of the channel", ch, eqUnder(ch.g, ch.args[0], value0(e)), ch.args[0])
		return &connection{e, value0(ch), docs}
	},
	"redis": func(p *pluginRun) *connection {
		e := p.only(exts(p.init, "github.com/go-redis/redis/v8.NewClient"), "redis.NewClient")
		ot := e.fn.Pkg.Prog.ImportedPackage("github.com/go-redis/redis/v8").Type("Options").Type()
		c := e.st.load(e.args[0], ot)
		f := func(n string) *Val { return fieldNamed(c, ot, n, e.g) }
		p.param("address", e, eqUnder(E.And(e.g, p.has("server")), f("Addr"), p.val("server")), f("Addr"))
		p.param("password", e, eqUnder(e.g, f("Password"), p.val("password")), f("Password"))
		gd := E.And(e.g, p.has("db"))
		db := p.parsed("db", gd)
		p.param("database", e, db != nil && eqUnder(gd, f("DB"), db), f("DB"))
		p.param("default database", e, eqUnder(E.Diff(e.g, p.has("db")), f("DB"), vConst(0)), f("DB"))
		for _, k := range []string{"server", "queue"} {
			p.r.add("a missing setting is refused", p.name+": "+k, never(p.ok, E.Not(p.has(k))), p.where(e), "Init succeeds without "+k)
		}
		return &connection{e, value0(e), []string{"server", "queue", "password", "db"}}
	},
	"tarantool_queue": func(p *pluginRun) *connection {
		e := p.only(exts(p.init, "github.com/tarantool/go-tarantool.Connect"), "tarantool.Connect")
		docs := []string{"host", "port", "user", "password", "max_recons", "timeout", "reconnect", "queue"}
		g := E.And(e.g, p.has(docs...))
		ot := e.fn.Pkg.Prog.ImportedPackage("github.com/tarantool/go-tarantool").Type("Opts").Type()
		f := func(n string) *Val { return fieldNamed(e.args[1], ot, n, e.g) }
		p.param("address", e, sameText(g, e.args[0], p.val("host"), vStr(":"), p.val("port")), e.args[0])
		p.param("user", e, eqUnder(g, f("User"), p.val("user")), f("User"))
		p.param("password", e, eqUnder(g, f("Pass"), p.val("password")), f("Pass"))
		for k, n := range map[string]string{"timeout": "Timeout", "reconnect": "Reconnect"} {
			v := p.parsed(k, g)
			ok := v != nil
			if ok {
				ok = eqUnder(g, f(n), mapVal(v, func(l *Leaf, _ B) *Val { return vInt(E.scale(l.lin, 1000000000)) }))
			}
			p.param(k, e, ok, f(n))
		}
		v := p.parsed("max_recons", g)
		p.param("max_recons", e, v != nil && eqUnder(E.And(g, cmpGE(orZero(v), vConst(0), g)), f("MaxReconnects"), orZero(v)), f("MaxReconnects"))
		q := p.only(exts(p.init, "github.com/tarantool/go-tarantool/queue.New"), "queue.New")
		gq := E.And(q.g, p.has(docs...))
		p.param("queue", q, eqUnder(gq, q.args[1], p.val("queue")), q.args[1])
		ok := false
		for _, a := range prune(q.args[0], q.g).alts {
			ok = a.l.kind == KIface && eqUnder(q.g, a.l.val, value0(e))
		}
		p.param("connection of the queue", q, ok, q.args[0])
		return &connection{e, value0(q), docs}
	},
}

func orZero(v *Val) *Val {
	if v == nil {
		return vConst(0)
	}
	return v
}

// eachPlugin analyses every storage plugin.
func eachPlugin(r *Report, what string, f func(p *pluginRun)) {
	ps := r.w.plugins()
	seen := map[string]bool{}
	for _, n := range sortedKeys(ps) {
		if connectors[strings.SplitN(n, ".", 2)[0]] == nil {
			continue
		}
		name := n
		seen[strings.SplitN(n, ".", 2)[0]] = true
		r.sub(what, name, func() *Analysis {
			p := runPlugin(r, name, ps[name])
			f(p)
			return p.an
		})
	}
	for _, n := range sortedKeys(connectors) {
		if !seen[n] {
			r.add(what, n, false, "", "no such storage plugin")
		}
	}
}

func checkInit(r *Report) {
	eachPlugin(r, "plugin", func(p *pluginRun) {
		where := r.w.posStr(p.initFn.Pos())
		c := connectors[p.name](p)
		isNil := E.Not(nonNil(p.cfg))
		r.add("missing settings are refused", p.name, never(p.ok, isNil), where, "Init succeeds without settings")
		r.add("nothing is connected without settings", p.name, never(c.connect.g, isNil), p.where(c.connect), "connects although there are no settings")
		r.add("Init can succeed", p.name, E.feasible(E.And(p.ok, p.has(c.docs...))), where, "with all settings given Init never succeeds")
		r.add("success means that it connected", p.name, never(p.ok, E.Not(c.connect.g)) && len(c.connect.loops) == 0, p.where(c.connect), "Init succeeds without connecting")
		for _, e := range p.init {
			if e.kind != "ext" && e.kind != "parse" {
				continue
			}
			if o := outcome(e); o != nil {
				r.add("an error on the way is reported", p.name+": "+short(e.name)+" at "+p.where(e), never(p.ok, e.g, E.Not(errNil(o))), p.where(e), "Init succeeds although "+short(e.name)+" failed")
			}
		}
	})
}

// publication is the call that hands a record to a backend.
type publication struct {
	e       *Event
	dest    bool
	why     string
	payload *Val
	recv    *Val
	err     *Val
}

// unwrap is the value inside of an interface.
func unwrap(v *Val, g B) *Val {
	v = prune(v, g)
	if v != nil && !v.isBool && len(v.alts) == 1 && v.alts[0].l.kind == KIface {
		return v.alts[0].l.val
	}
	return v
}

// elem0 is the only element of a variadic argument.
func elem0(e *Event, v *Val) *Val {
	q := seqOf(e.st, v, e.g)
	if q == nil {
		return nil
	}
	es, ok := seqBytes(q)
	if !ok || len(es) != 1 {
		return nil
	}
	return unwrap(es[0], e.g)
}

func sqlWords(q *Seq, g B) []string {
	s := ""
	for _, it := range q.items {
		if never(g, it.g) {
			continue
		}
		switch it.k {
		case IConst:
			s += it.data
		case ISub:
			if it.src.der != nil {
				return nil
			}
			s += "\x01" + it.src.name + "\x01"
		default:
			return nil
		}
	}
	for _, p := range []string{"(", ")", ","} {
		s = strings.ReplaceAll(s, p, " "+p+" ")
	}
	s = strings.TrimSuffix(strings.TrimSpace(s), ";")
	var out []string
	for _, w := range strings.Fields(s) {
		if !strings.Contains(w, "\x01") {
			w = strings.ToLower(w)
		}
		out = append(out, w)
	}
	return out
}

var publishers = map[string]func(p *pluginRun) []*publication{
	"nats": func(p *pluginRun) (out []*publication) {
		for _, e := range exts(p.save, "(*github.com/nats-io/nats.go.Conn).Publish") {
			out = append(out, &publication{e: e, dest: eqUnder(e.g, e.args[1], p.val("topic")), payload: e.args[2], recv: e.args[0], err: outcome(e)})
		}
		return
	},
	"nsq": func(p *pluginRun) (out []*publication) {
		for _, e := range exts(p.save, "(*github.com/nsqio/go-nsq.Producer).Publish") {
			out = append(out, &publication{e: e, dest: eqUnder(e.g, e.args[1], p.val("topic")), payload: e.args[2], recv: e.args[0], err: outcome(e)})
		}
		return
	},
	"postgresql": func(p *pluginRun) (out []*publication) {
		for _, e := range exts(p.save, "(*database/sql.DB).Exec", "(*database/sql.DB).ExecContext") {
			k := 1
			if strings.HasSuffix(e.name, "Context") {
				k = 2
			}
			x := &publication{e: e, recv: e.args[0], err: outcome(e)}
			g := E.And(e.g, p.has("table"))
			if q := guardedText(e.args[k], g); q != nil {
				words := sqlWords(q, g)
				want := strings.Fields("insert into \x01cfg[\"table\"]\x01 ( point ) values ( $1 )")
				x.dest = strings.Join(words, " ") == strings.Join(want, " ")
				x.why = strings.ReplaceAll(strings.Join(words, " "), "\x01", "")
			}
			x.payload = elem0(e, e.args[k+1])
			out = append(out, x)
		}
		return
	},
	"rabbitmq": func(p *pluginRun) (out []*publication) {
		for _, e := range exts(p.save, "(*github.com/streadway/amqp.Channel).Publish") {
			pt := e.fn.Pkg.Prog.ImportedPackage("github.com/streadway/amqp").Type("Publishing").Type()
			out = append(out, &publication{e: e, dest: eqUnder(e.g, e.args[1], p.val("exchange")) && eqUnder(e.g, e.args[2], p.val("key")),
				payload: fieldNamed(e.args[5], pt, "Body", e.g), recv: e.args[0], err: outcome(e)})
		}
		return
	},
	"redis": func(p *pluginRun) (out []*publication) {
		for _, e := range exts(p.save, "(github.com/go-redis/redis/v8.cmdable).Publish", "(*github.com/go-redis/redis/v8.Client).Publish") {
			x := &publication{e: e, dest: eqUnder(e.g, e.args[2], p.val("queue")), payload: unwrap(e.args[3], e.g), recv: e.args[0]}
			for _, o := range p.save {
				if o.kind != "ext" || !strings.HasSuffix(o.name, ").Err") && !strings.HasSuffix(o.name, ").Result") || len(o.args) == 0 {
					continue
				}
				w := newWalker(o.st)
				w.val(o.args[0], o.g)
				if w.names[e.name+"@"+e.key] {
					x.err = outcome(o)
				}
			}
			out = append(out, x)
		}
		return
	},
	"tarantool_queue": func(p *pluginRun) (out []*publication) {
		for _, e := range exts(p.save, "invoke github.com/tarantool/go-tarantool/queue.Queue.Put") {
			out = append(out, &publication{e: e, dest: true, payload: unwrap(e.args[0], e.g), recv: e.recv, err: outcome(e)})
		}
		return
	},
}

func (p *pluginRun) serialised() []*Event {
	var out []*Event
	for _, e := range p.save {
		if e.kind == "ext" && strings.HasPrefix(e.name, "invoke ") && strings.HasSuffix(e.name, ".ToBytes") && eqUnder(e.g, e.recv, p.msg) {
			out = append(out, e)
		}
	}
	return out
}

// asText is the content of a byte slice or string.
func asText(st *State, v *Val, g B) *Seq {
	v = prune(v, g)
	if v == nil || v.isBool || len(v.alts) == 0 {
		return nil
	}
	if v.alts[0].l.kind == KStr {
		return guardedText(v, g)
	}
	return seqOf(st, v, g)
}

func checkSave(r *Report) {
	eachPlugin(r, "plugin", func(p *pluginRun) {
		where := r.w.posStr(p.saveFn.Pos())
		conn := quietly(p, func() *connection { return connectors[p.name](p) })
		ser := p.serialised()
		r.add("the record is serialised", p.name, len(ser) > 0, where, "ToBytes of the record is not called")
		okSer, bad := F, F
		for _, e := range ser {
			okSer = E.Or(okSer, E.And(e.g, errNil(tupleField(e.res, 1, nil))))
			bad = E.Or(bad, E.And(e.g, E.Not(errNil(tupleField(e.res, 1, nil)))))
		}
		pubs := publishers[p.name](p)
		var gs []B
		okPub := F
		for _, x := range pubs {
			if !E.feasible(x.e.g) {
				continue
			}
			c := p.name + " at " + p.where(x.e)
			gs = append(gs, x.e.g)
			r.add("the record goes to the configured destination", c, x.dest, p.where(x.e), "the destination is not the configured one "+x.why)
			same := false
			q := asText(x.e.st, x.payload, x.e.g)
			for _, e := range ser {
				q0 := asText(&State{g: T, heap: map[*Obj]*Val{}}, tupleField(e.res, 0, nil), T)
				same = same || q != nil && q0 != nil && seqEqUnder(x.e.g, q, q0)
			}
			r.add("the backend gets exactly the serialised bytes", c, same, p.where(x.e), "the payload is not what ToBytes returned")
			r.add("the connection made by Init is used", c, p.connected(x, conn), p.where(x.e), "the call does not use the connection that Init made")
			r.add("the outcome of the backend call is looked at", c, x.err != nil, p.where(x.e), "the error of the call is not examined")
			r.add("nothing is sent for a record that cannot be serialised", c, never(x.e.g, E.Not(okSer)), p.where(x.e), "is called without serialised bytes")
			r.add("one call per record", c, len(x.e.loops) == 0, p.where(x.e), "the call is repeated")
			if x.err != nil {
				okPub = E.Or(okPub, E.And(x.e.g, errNil(x.err)))
				bad = E.Or(bad, E.And(x.e.g, E.Not(errNil(x.err))))
			}
		}
		have := E.And(p.ok, nonNil(p.msg), okSer)
		msg, once := exactlyOnce(have, gs)
		r.add("a record is handed to the backend once", p.name, E.feasible(have) && once, where, "the record "+msg)
		done := E.And(p.st.g, errNil(p.res))
		r.add("success only if the backend took the record", p.name, E.feasible(done) && never(done, E.Not(E.And(okSer, okPub))), where, "Save reports success although "+p.which(done, okSer))
		r.add("an error is reported", p.name, never(done, bad), where, "Save reports success although a call failed")
		r.add("a missing record is an error", p.name, never(done, E.Not(nonNil(p.msg))) && never(p.ok, E.Not(nonNil(p.msg)), E.Not(p.st.g)), where, "Save does not report an error without a record")
		r.add("otherwise success is reported", p.name, never(p.st.g, nonNil(p.msg), okSer, okPub, E.Not(bad), E.Not(errNil(p.res))), where, "Save reports an error although the backend took the record")
	})
	checkLogStore(r)
}

func (p *pluginRun) which(done, okSer B) string {
	if never(done, E.Not(okSer)) {
		return "the backend did not take the record"
	}
	return "the record was not serialised"
}

// connected: the call uses what Init connected.
func (p *pluginRun) connected(x *publication, c *connection) bool {
	if c == nil || x.recv == nil || x.recv.isBool {
		return false
	}
	if eqUnder(x.e.g, x.recv, c.ready) {
		return true
	}
	// a part of the client
	w := newWalker(nil)
	for _, a := range prune(c.ready, T).alts {
		if a.l.kind == KPtr {
			for _, b := range prune(x.recv, x.e.g).alts {
				nm := strings.TrimPrefix(b.l.op, "sym:")
				if b.l.kind != KTerm || !strings.HasPrefix(nm, a.l.obj.name+".") {
					return false
				}
			}
			return true
		}
	}
	_ = w
	return false
}

// quietly runs f without recording obligations (they belong to another check).
func quietly(p *pluginRun, f func() *connection) *connection {
	r := p.r
	p.r = &Report{w: r.w, quiet: true}
	defer func() { p.r = r }()
	return f()
}

// checkLogStore decides the fallback that writes records to the log.
func checkLogStore(r *Report) {
	sp := r.w.pkg("cli/receiver/storage")
	r.sub("log storage", "LogConnector.Save", func() *Analysis {
		t, ok := sp.Type("LogConnector").Type().(*types.Named)
		if !ok {
			fail("no type LogConnector")
		}
		an := start(r.w)
		fn := r.w.methodOf(t, "Save")
		st := newState()
		var recv *Val
		if pt, ok := param(fn, 0).Type().Underlying().(*types.Pointer); ok {
			recv = vPtr(symObj("connector", pt.Elem()))
		} else {
			recv = mkSym(fn.Params[0].Type(), "connector")
		}
		msg := mkSym(param(fn, 1).Type(), "record")
		st.g = nonNil(msg)
		g0 := st.g
		res := an.call(fn, []*Val{recv, msg}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		okSer, written := F, F
		var data []*Val
		for _, e := range an.events {
			if e.kind != "ext" {
				continue
			}
			tb := strings.HasPrefix(e.name, "invoke ") && strings.HasSuffix(e.name, ".ToBytes") && eqUnder(e.g, e.recv, msg)
			js := strings.HasPrefix(e.name, "encoding/json.Marshal") && len(e.args) > 0 && eqUnder(e.g, unwrap(e.args[0], e.g), msg)
			if tb || js {
				okSer = E.Or(okSer, E.And(e.g, errNil(tupleField(e.res, 1, nil))))
				data = append(data, tupleField(e.res, 0, nil))
			}
		}
		for _, e := range an.events {
			if e.kind != "log" || !reports(e.name) {
				continue
			}
			// an entry writes also what the calls that made it were given
			w := newWalker(e.st)
			for x := e; x != nil; {
				for _, a := range x.args {
					w.val(a, e.g)
				}
				x = madeBy(an.events, x)
			}
			for _, d := range data {
				w0 := newWalker(nil)
				w0.val(d, T)
				all := len(w0.names) > 0
				for n := range w0.names {
					if !strings.HasPrefix(n, "len(") && !w.names[n] && !w.names["*"+n] && !w.names[strings.TrimPrefix(n, "*")] {
						all = false
					}
				}
				if all {
					written = E.Or(written, e.g)
				}
			}
		}
		done := E.And(st.g, errNil(res))
		r.add("the record is serialised", "LogConnector", len(data) > 0, where, "the record is not serialised")
		r.add("the record is written or an error is returned", "LogConnector", E.feasible(done) && never(done, E.Not(E.And(okSer, written))), where, "Save reports success without writing the serialised record")
		r.add("otherwise success is reported", "LogConnector", never(st.g, okSer, E.Not(errNil(res))) && never(g0, E.Not(st.g)), where, "Save reports an error although the record was written")
		return an
	})
}

// madeBy is the logging call whose result is the receiver of e.
func madeBy(events []*Event, e *Event) *Event {
	if len(e.args) == 0 {
		return nil
	}
	for _, x := range events {
		if x.kind == "log" && x.seq < e.seq && x.res != nil && !x.res.isBool && len(x.res.alts) > 0 && eqUnder(e.g, x.res, e.args[0]) {
			return x
		}
	}
	return nil
}

// ---- selection by the configuration ----

// storage names of the configuration and the packages of their plugins.
var storageNames = []string{"rabbitmq", "postgresql", "nats", "nsq", "tarantool_queue", "redis"}

type selection struct {
	an   *Analysis
	ps   map[string]*types.Named
	fn   *ssa.Function
	st   *State
	recv *Val
	cfg  *Val
	res  *Val
}

// runSelection analyses LoadStorages for an arbitrary configuration; Init of
// the plugins are calls with arbitrary outcome.
func runSelection(r *Report) *selection {
	sp := r.w.pkg("cli/receiver/storage")
	an := start(r.w)
	ps := r.w.plugins()
	for n, nt := range ps {
		fn := r.w.methodOf(nt, "Init")
		if fn == nil {
			continue
		}
		name := strings.SplitN(n, ".", 2)[0]
		an.hooks[fn.String()] = func(c *Call) *Val {
			e := c.an.event(&Event{kind: "call", name: "Init " + name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: c.args, st: c.st.clone(), key: c.site()})
			v, _ := symErr("init " + name + "@" + c.site())
			e.res = v
			return v
		}
	}
	fn := r.w.method(sp, "Repository", "LoadStorages")
	st := newState()
	recv := vPtr(symObj("repository", sp.Type("Repository").Type()))
	cfg := mkSym(param(fn, 1).Type(), "storages")
	res := an.call(fn, []*Val{recv, cfg}, nil, st, "")
	return &selection{an, ps, fn, st, recv, cfg, res}
}

func checkSelection(r *Report) {
	sp := r.w.pkg("cli/receiver/storage")
	str, li := saverList(sp)
	lt := str.Field(li).Type()
	r.sub("selection", "Repository.LoadStorages", func() *Analysis {
		s := runSelection(r)
		an, ps, fn, st, recv, cfg, res := s.an, s.ps, s.fn, s.st, s.recv, s.cfg, s.res
		where := r.w.posStr(fn.Pos())
		empty := E.Not(cmpGE(sliceLen(cfg), vConst(1), T))
		r.add("an empty configuration is an error", "LoadStorages", E.feasible(E.And(st.g, empty)) && never(st.g, empty, errNil(res)), where, "success is reported without any storage")
		// the loop over the sections
		var loop *LoopRec
		for _, e := range an.events {
			if e.kind == "call" && strings.HasPrefix(e.name, "Init ") {
				if len(e.loops) != 1 {
					fail("plugins are not started in one loop over the sections")
				}
				loop = e.loops[0]
			}
		}
		if loop == nil || loop.back == nil {
			fail("no plugin is started in a loop over the sections")
		}
		key, params, more := rangeOf(an, loop)
		if key == nil {
			fail("the loop does not range over the sections")
		}
		body := E.And(loop.hd.g, more)
		list := func(s *State) *Val { return s.load(vPtr(recv.alts[0].l.obj, PE{field: li}), lt) }
		left := F
		for _, x := range loop.exits {
			left = E.Or(left, x.st.g)
		}
		r.add("success means that every section was started", "LoadStorages", E.feasible(E.And(st.g, errNil(res), E.Not(empty), E.Not(more))) && never(st.g, errNil(res), E.Not(empty), E.And(loop.hd.g, more)), where, "success is reported before all sections were started")
		q0 := seqOf(loop.hd, list(loop.hd), loop.hd.g)
		q := seqOf(loop.back, list(loop.back), loop.back.g)
		known := F
		var adds *Seq
		if q0 != nil && q != nil {
			adds = splitAfter(q, q0, loop.back.g)
		}
		r.add("storages are only added", "LoadStorages", adds != nil, where, "storages added before are lost or changed")
		for _, n := range storageNames {
			is := isText(key, n)
			known = E.Or(known, is)
			g := E.And(body, is)
			var gs []B
			var started *Event
			for _, e := range an.events {
				if e.kind != "call" || !strings.HasPrefix(e.name, "Init ") {
					continue
				}
				w := r.w.posStr(e.pos)
				if e.name == "Init "+n {
					if !E.feasible(e.g) {
						continue
					}
					gs = append(gs, e.g)
					started = e
					r.add("a plugin is started for its own section only", n, never(e.g, E.Not(is)), w, "the plugin "+n+" is started for another section")
					r.add("a plugin gets the settings of its section", n, eqUnder(e.g, e.args[1], params), w, "the settings given to "+n+" are not those of the section")
					continue
				}
				r.add("a plugin is started for its own section only", n, never(e.g, is), w, "the plugin "+strings.TrimPrefix(e.name, "Init ")+" is started for the section "+n)
			}
			msg, once := exactlyOnce(g, gs)
			r.add("every section starts its plugin", n, E.feasible(g) && once, where, "the plugin "+n+" "+strings.Replace(msg, "sent", "started", 1))
			if started == nil {
				continue
			}
			w := r.w.posStr(started.pos)
			failed := E.And(started.g, E.Not(errNil(started.res)))
			r.add("a plugin that fails to start is reported", n, E.feasible(failed) && never(st.g, failed, errNil(res)) && never(loop.back.g, failed), w, "loading goes on or succeeds although "+n+" failed")
			ok := E.And(loop.back.g, is)
			good := adds != nil && E.feasible(ok) && eqUnder(ok, seqLen(adds), vConst(1))
			if good {
				v := seqIndex(adds, E.konst(0), ok, lt.Underlying().(*types.Slice).Elem())
				for _, a := range prune(v, ok).alts {
					if never(ok, a.g) {
						continue
					}
					good = good && a.l.kind == KIface && samePlugin(a.l.typ, ps, n) && eqUnder(E.And(ok, a.g), a.l.val, started.args[0])
				}
			}
			r.add("a started plugin is used for saving", n, good, w, "the plugin "+n+" is not added, or another one is")
			// not added when it failed
			for _, x := range loop.exits {
				gx := E.And(x.st.g, failed)
				if !E.feasible(gx) {
					continue
				}
				qx := seqOf(x.st, list(x.st), gx)
				r.add("a plugin that failed to start is not used", n, qx != nil && q0 != nil && seqEqUnder(gx, qx, q0), w, "the plugin "+n+" is added although it failed")
			}
		}
		unk := E.And(body, E.Not(known))
		r.add("an unknown name is an error", "LoadStorages", E.feasible(unk) && never(loop.back.g, unk) && never(st.g, unk, errNil(res)), where, "a section with an unknown name is accepted")
		return an
	})
}

func samePlugin(t types.Type, ps map[string]*types.Named, n string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	return ps[n+"."+nt.Obj().Name()] == nt && nt.Obj().Pkg().Name() == n
}

// rangeOf is the key, the value and the condition of the iteration of a loop
// over a map.
func rangeOf(an *Analysis, l *LoopRec) (key, val *Val, more B) {
	for _, x := range an.ranges {
		if x.loop == l {
			return x.key, x.val, x.more
		}
	}
	return nil, nil, F
}
