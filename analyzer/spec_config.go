package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The configuration (C50) and the start of the receiver (C51).

// settingsKeys are the keys of the configuration file.
var settingsKeys = map[string]string{"host": "string", "port": "string", "conn_ttl": "int", "log_level": "string", "storage": "map[string]map[string]string"}

// settingsFields finds the field for every key.
func settingsFields(r *Report, st *types.Struct, report bool) map[string]int {
	out := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag, ok := reflect.StructTag(st.Tag(i)).Lookup("yaml")
		key := strings.Split(tag, ",")[0]
		if !ok || key == "" {
			key = strings.ToLower(f.Name())
		}
		if key == "-" || !f.Exported() {
			continue
		}
		if _, twice := out[key]; twice && report {
			r.add("every key has one field", key, false, r.w.posStr(f.Pos()), "two fields read the key "+key)
		}
		if report {
			want, known := settingsKeys[key]
			got := types.TypeString(f.Type().Underlying(), nil)
			r.add("a key is read as its kind of value", key, !known || got == want || want == "int" && (strings.HasPrefix(got, "int") || strings.HasPrefix(got, "uint")), r.w.posStr(f.Pos()), "the key "+key+" is read as "+got)
		}
		out[key] = i
	}
	return out
}

type settingsRun struct {
	t  *types.Named
	s  *types.Struct
	f  map[string]int
	sp *ssa.Package
}

func settingsOf(r *Report, report bool) *settingsRun {
	sp := r.w.pkg("cli/receiver/config")
	t := sp.Type("Settings")
	if t == nil {
		fail("no type Settings in cli/receiver/config")
	}
	nt, ok := t.Type().(*types.Named)
	if !ok {
		fail("Settings is no named type")
	}
	s, ok := nt.Underlying().(*types.Struct)
	if !ok {
		fail("Settings is no structure")
	}
	x := &settingsRun{t: nt, s: s, sp: sp, f: settingsFields(r, s, report)}
	for k := range settingsKeys {
		if _, ok := x.f[k]; !ok {
			if !report {
				fail("no field reads the key " + k)
			}
		}
	}
	return x
}

// getter evaluates a method of the settings.
func (x *settingsRun) getter(an *Analysis, name string, st *State, ptr *Val) *Val {
	fn := an.w.methodOf(x.t, name)
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		fail("no method " + name + " of Settings")
	}
	recv := ptr
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
		recv = st.load(ptr, x.t)
	}
	return an.call(fn, []*Val{recv}, nil, st, "")
}

func (x *settingsRun) field(st *State, ptr *Val, key string) *Val {
	i := x.f[key]
	return st.load(vPtr(ptr.alts[0].l.obj, PE{field: i}), x.s.Field(i).Type())
}

var levelNames = [][2]string{{"DEBUG", "DebugLevel"}, {"INFO", "InfoLevel"}, {"WARN", "WarnLevel"}, {"ERROR", "ErrorLevel"}}

func checkSettings(r *Report) {
	r.sub("keys", "Settings", func() *Analysis {
		x := settingsOf(r, true)
		for _, k := range sortedKeys(settingsKeys) {
			_, ok := x.f[k]
			r.add("every documented key is read", k, ok, r.w.posStr(x.t.Obj().Pos()), "no field of Settings reads the key "+k)
		}
		for _, t := range []types.Type{x.t, types.NewPointer(x.t)} {
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				n := ms.At(i).Obj().Name()
				r.add("the keys decide how settings are read", types.TypeString(t, nil)+"."+n, !strings.HasPrefix(n, "Unmarshal"), r.w.posStr(ms.At(i).Obj().Pos()), "Settings are read by the method "+n)
			}
		}
		return nil
	})
	r.sub("meaning", "Settings", func() *Analysis {
		x := settingsOf(r, false)
		an := start(r.w)
		st := newState()
		ptr := vPtr(symObj("settings", x.t))
		f := func(k string) *Val { return x.field(st, ptr, k) }
		addr := x.getter(an, "GetListenAddress", st, ptr)
		r.add("host and port form the listen address", "GetListenAddress", sameText(st.g, addr, f("host"), vStr(":"), f("port")), r.w.posStr(r.w.methodOf(x.t, "GetListenAddress").Pos()), "the address is not host:port: "+valStrD(addr, 4))
		ttl := x.getter(an, "GetEmptyConnTTL", st, ptr)
		want := intAdd(vConst(0), f("conn_ttl"), 1000000000)
		r.add("the time to live is in seconds", "GetEmptyConnTTL", want != nil && eqUnder(st.g, ttl, want), r.w.posStr(r.w.methodOf(x.t, "GetEmptyConnTTL").Pos()), "the duration is not conn_ttl seconds: "+valStrD(ttl, 4))
		lvl := x.getter(an, "GetLogLevel", st, ptr)
		lp := r.w.prog.ImportedPackage("github.com/sirupsen/logrus")
		other := st.g
		where := r.w.posStr(r.w.methodOf(x.t, "GetLogLevel").Pos())
		level := func(n string) *Val {
			if lp != nil {
				if c, ok := lp.Pkg.Scope().Lookup(n).(*types.Const); ok {
					if k, ok := constant.Int64Val(c.Val()); ok {
						return vConst(k)
					}
				}
			}
			fail("the log levels are unknown")
			return nil
		}
		for _, l := range levelNames {
			is := isText(f("log_level"), l[0])
			other = E.And(other, E.Not(is))
			g := E.And(st.g, is)
			r.add("a level name selects its level", l[0], E.feasible(g) && eqUnder(g, lvl, level(l[1])), where, l[0]+" does not select "+l[1])
		}
		r.add("any other level name selects INFO", "GetLogLevel", E.feasible(other) && eqUnder(other, lvl, level("InfoLevel")), where, "another name does not select InfoLevel")
		r.add("the settings are usable", "Settings", E.feasible(st.g) && never(T, E.Not(st.g)), where, "reading a setting does not return")
		return an
	})
	r.sub("reading", "New", func() *Analysis {
		x := settingsOf(r, false)
		an := start(r.w)
		fn := x.sp.Func("New")
		st := newState()
		path := mkSym(param(fn, 0).Type(), "path")
		res := an.call(fn, []*Val{path}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		if res == nil || res.isBool || len(res.alts) != 1 || res.alts[0].l.kind != KTuple || len(res.alts[0].l.fields) != 2 {
			fail("New does not return settings and an error")
		}
		got, err := res.alts[0].l.fields[0], res.alts[0].l.fields[1]
		bad := F
		reads := exts(an.events, "os.ReadFile", "io/ioutil.ReadFile")
		var gs []B
		for _, e := range reads {
			gs = append(gs, e.g)
			w := r.w.posStr(e.pos)
			r.add("the given file is read", w, eqUnder(e.g, e.args[0], path), w, "another file is read")
			bad = E.Or(bad, E.And(e.g, E.Not(errNil(outcome(e)))))
		}
		// or opened and read to its end
		notOpen := F
		opens := exts(an.events, "os.Open")
		for _, e := range opens {
			w := r.w.posStr(e.pos)
			r.add("the given file is read", w, eqUnder(e.g, e.args[0], path), w, "another file is opened")
			notOpen = E.Or(notOpen, E.And(e.g, E.Not(errNil(outcome(e)))))
		}
		bad = E.Or(bad, notOpen)
		for _, e := range exts(an.events, "io.ReadAll", "io/ioutil.ReadAll") {
			w := r.w.posStr(e.pos)
			in := false
			for _, o := range opens {
				in = in || eqUnder(e.g, unwrap(e.args[0], e.g), tupleField(o.res, 0, nil))
			}
			r.add("the given file is read", w, in, w, "something else than the file is read")
			reads = append(reads, e)
			gs = append(gs, E.Or(e.g, notOpen))
			bad = E.Or(bad, E.And(e.g, E.Not(errNil(outcome(e)))))
		}
		msg, once := exactlyOnce(T, gs)
		r.add("the file is read", "New", len(gs) > 0 && once, where, "the file "+strings.Replace(msg, "sent", "read", 1))
		var parses []B
		same := F
		for _, e := range exts(an.events, "gopkg.in/yaml.v2.Unmarshal", "gopkg.in/yaml.v2.UnmarshalStrict") {
			parses = append(parses, e.g)
			w := r.w.posStr(e.pos)
			in := false
			for _, f := range reads {
				q, q0 := asText(e.st, e.args[0], e.g), asText(&State{g: T, heap: map[*Obj]*Val{}}, tupleField(f.res, 0, nil), T)
				in = in || q != nil && q0 != nil && seqEqUnder(e.g, q, q0)
			}
			r.add("the content of the file is parsed", w, in, w, "what is parsed is not what was read")
			bad = E.Or(bad, E.And(e.g, E.Not(errNil(outcome(e)))))
			dst := unwrap(e.args[1], e.g)
			ok := len(dst.alts) == 1 && dst.alts[0].l.kind == KPtr && types.Identical(dst.alts[0].l.obj.typ, x.t) && len(dst.alts[0].l.path) == 0
			r.add("the file is parsed into the settings", w, ok, w, "the destination is not a Settings value")
			if ok && e.after != nil {
				g := E.And(st.g, e.g, errNil(err))
				v := got
				if _, isPtr := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); isPtr {
					v = st.load(got, x.t)
				}
				if eqUnder(g, v, e.after.load(dst, x.t)) {
					same = E.Or(same, e.g)
				}
			}
		}
		msg, once = exactlyOnce(E.And(st.g, errNil(err)), parses)
		r.add("success means that the file was parsed", "New", len(parses) > 0 && once && E.feasible(E.And(st.g, errNil(err))), where, "the file "+strings.Replace(msg, "sent", "parsed", 1))
		r.add("what was parsed is returned", "New", never(st.g, errNil(err), E.Not(same)), where, "the settings returned are not those of the file")
		r.add("an unreadable or malformed file is an error", "New", E.feasible(bad) && never(st.g, errNil(err), bad), where, "New succeeds although reading or parsing failed")
		r.add("otherwise there is no error", "New", never(st.g, E.Not(bad), E.Not(errNil(err))) && never(T, E.Not(st.g)), where, "New fails for a good file")
		return an
	})
	r.sub("sample", "configs/receiver.yaml", func() *Analysis {
		x := settingsOf(r, false)
		keys, err := yamlKeys(filepath.Join(r.w.dir, "configs/receiver.yaml"))
		if err != nil {
			r.add("the sample configuration is readable", "configs/receiver.yaml", false, "configs/receiver.yaml", err.Error())
			return nil
		}
		known := map[string]map[string]bool{}
		for _, k := range keys {
			where := fmt.Sprintf("configs/receiver.yaml:%d", k.line)
			switch len(k.path) {
			case 1:
				_, ok := x.f[k.path[0]]
				r.add("every key of the sample is known", where, ok, where, "the key "+k.path[0]+" is not one of the program's")
			case 2:
				ok := false
				for _, n := range storageNames {
					ok = ok || n == k.path[1]
				}
				r.add("every storage of the sample is known", where, k.path[0] == "storage" && ok, where, "there is no storage "+k.path[1])
			case 3:
				n := k.path[1]
				if known[n] == nil {
					known[n] = r.readKeys(n)
				}
				r.add("every storage key of the sample is known", where, known[n][k.path[2]], where, "the storage "+n+" does not know the key "+k.path[2])
			}
		}
		return nil
	})
}

// readKeys are the settings the plugin looks at.
func (r *Report) readKeys(plugin string) map[string]bool {
	out := map[string]bool{}
	ps := r.w.plugins()
	for _, n := range sortedKeys(ps) {
		if strings.SplitN(n, ".", 2)[0] != plugin {
			continue
		}
		runPlugin(r, n, ps[n])
		for _, v := range E.vars {
			if s := v.name; strings.HasPrefix(s, `has:cfg["`) {
				out[strings.TrimSuffix(strings.TrimPrefix(s, `has:cfg["`), `"]`)] = true
			}
		}
	}
	return out
}

type yamlKey struct {
	path []string
	line int
}

// yamlKeys lists the keys of a file of nested mappings.
func yamlKeys(file string) ([]yamlKey, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	type level struct {
		ind int
		key string
	}
	var stack []level
	var out []yamlKey
	for i, l := range strings.Split(string(b), "\n") {
		s := strings.TrimSpace(l)
		if s == "" || s[0] == '#' || s == "---" {
			continue
		}
		c := strings.Index(s, ":")
		if c < 0 || strings.HasPrefix(s, "-") {
			return nil, fmt.Errorf("line %d is no key of a mapping", i+1)
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		for len(stack) > 0 && stack[len(stack)-1].ind >= ind {
			stack = stack[:len(stack)-1]
		}
		stack = append(stack, level{ind, strings.Trim(s[:c], `"' `)})
		var p []string
		for _, x := range stack {
			p = append(p, x.key)
		}
		out = append(out, yamlKey{p, i + 1})
	}
	return out, nil
}

// ---- the start of the receiver ----

type mainRun struct {
	an    *Analysis
	x     *settingsRun
	fn    *ssa.Function
	st    *State
	cfg   *Val // the settings loaded
	cfgs  []*Event
	news  []*Event
	runs  []*Event
	loads []*Event
	lt    types.Type
	li    int
	repoT types.Type
}

// runMain analyses the main function of the receiver; reading the
// configuration, loading the storages and running the server are events.
func runMain(r *Report) *mainRun {
	m := &mainRun{x: settingsOf(r, false)}
	sp := r.w.pkg("cli/receiver/storage")
	sv := r.w.pkg("cli/receiver/server")
	str, li := saverList(sp)
	m.lt, m.li, m.repoT = str.Field(li).Type(), li, sp.Type("Repository").Type()
	p := r.w.pkg("cli/receiver")
	m.fn = p.Func("main")
	if m.fn == nil {
		fail("no function main in cli/receiver")
	}
	an := start(r.w)
	m.an = an
	st := newState()
	note := func(c *Call, name string) *Event {
		return c.an.event(&Event{kind: "call", name: name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: c.args, st: c.st.clone(), key: c.site()})
	}
	mk := m.x.sp.Func("New")
	param(mk, 0)
	an.hooks[mk.String()] = func(c *Call) *Val {
		e := note(c, "config.New")
		m.cfgs = append(m.cfgs, e)
		v, _ := symErr("config@" + c.site())
		e.res = vTuple([]*Val{mkSym(mk.Signature.Results().At(0).Type(), "settings"), v})
		return e.res
	}
	nw := sv.Func("New")
	if nw == nil {
		fail("no function New in cli/receiver/server")
	}
	an.hooks[nw.String()] = func(c *Call) *Val {
		e := note(c, "server.New")
		m.news = append(m.news, e)
		e.res = mkSym(nw.Signature.Results().At(0).Type(), "server@"+c.site())
		return e.res
	}
	run := r.w.method(sv, "Server", "Run")
	an.hooks[run.String()] = func(c *Call) *Val {
		m.runs = append(m.runs, note(c, "Server.Run"))
		return vNil()
	}
	ld := r.w.method(sp, "Repository", "LoadStorages")
	an.hooks[ld.String()] = func(c *Call) *Val {
		e := note(c, "LoadStorages")
		for _, a := range prune(c.args[0], c.st.g).alts {
			if a.l.kind == KPtr {
				c.st.store(vPtr(a.l.obj, append(append([]PE(nil), a.l.path...), PE{field: m.li})...), mkSym(m.lt, "loaded@"+c.site()))
			}
		}
		m.loads = append(m.loads, e)
		e.after = c.st.clone()
		v, _ := symErr("load@" + c.site())
		e.res = v
		return v
	}
	an.call(m.fn, nil, nil, st, "")
	m.st = st
	return m
}

func (m *mainRun) list(st *State, repo *Val) *Val {
	return mapVal(repo, func(l *Leaf, g B) *Val {
		if l.kind != KPtr {
			return zeroVal(m.lt)
		}
		return st.load(vPtr(l.obj, append(append([]PE(nil), l.path...), PE{field: m.li})...), m.lt)
	})
}

func checkStart(r *Report) {
	r.sub("start", "main", func() *Analysis {
		m := runMain(r)
		an := m.an
		where := r.w.posStr(m.fn.Pos())
		path := symStr("flag.c")
		flag := false
		for _, e := range an.events {
			if e.kind == "flag" && e.name == "c" {
				flag = eqUnder(e.g, e.args[1], vStr(""))
				r.add("without -c there is no configuration file", r.w.posStr(e.pos), flag, r.w.posStr(e.pos), "the default of -c is not empty")
			}
		}
		r.add("the configuration file is named by -c", "main", flag, where, "there is no flag -c")
		r.add("the server is started", "main", len(m.runs) > 0 && len(m.cfgs) > 0, where, "main does not read the configuration and run the server")
		if len(m.runs) == 0 || len(m.cfgs) == 0 {
			return an
		}
		none := isText(path, "")
		bad, read := F, F
		for _, e := range m.cfgs {
			w := r.w.posStr(e.pos)
			r.add("the configuration file is the one given", w, eqUnder(E.And(e.g, E.Not(none)), e.args[0], path), w, "another file is loaded")
			bad = E.Or(bad, E.And(e.g, E.Not(errNil(tupleField(e.res, 1, nil)))))
			read = E.Or(read, E.And(e.g, errNil(tupleField(e.res, 1, nil))))
		}
		good := E.And(E.Not(none), read)
		var gs []B
		for _, e := range m.runs {
			gs = append(gs, e.g)
			w := r.w.posStr(e.pos)
			r.add("nothing runs without a configuration file", w, never(e.g, none), w, "the server runs without a configuration file")
			r.add("nothing runs with an unusable configuration", w, never(e.g, bad) && never(e.g, E.Not(read)), w, "the server runs although the configuration was not loaded")
			r.add("the server runs once", w, len(e.loops) == 0, w, "running is repeated")
		}
		msg, once := exactlyOnce(good, gs)
		r.add("with a good configuration the server runs", "main", E.feasible(good) && once, where, "the server "+strings.Replace(msg, "sent", "run", 1))
		// what the settings mean
		st := newState()
		st.heap = map[*Obj]*Val{}
		mk := m.x.sp.Func("New")
		rt := mk.Signature.Results().At(0).Type()
		sv := mkSym(rt, "settings")
		ptr := sv
		if _, ok := rt.Underlying().(*types.Pointer); !ok {
			o := newObj("settings copy", m.x.t)
			st.heap[o] = sv
			ptr = vPtr(o)
		}
		addr := m.x.getter(an, "GetListenAddress", st, ptr)
		ttl := m.x.getter(an, "GetEmptyConnTTL", st, ptr)
		lvl := m.x.getter(an, "GetLogLevel", st, ptr)
		store := m.x.field(st, ptr, "storage")
		nw := r.w.pkg("cli/receiver/server").Func("New")
		role := func(typ string) int {
			for i, q := range nw.Params {
				if types.TypeString(q.Type(), nil) == typ {
					return i
				}
			}
			fail("New has no parameter of type " + typ)
			return 0
		}
		ai, ti := role("string"), role("time.Duration")
		ri := -1
		for i, q := range nw.Params {
			if pt, ok := q.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.repoT) {
				ri = i
			}
		}
		if ri < 0 {
			fail("New is given no repository")
		}
		for _, e := range m.runs {
			w := r.w.posStr(e.pos)
			made := false
			for _, n := range m.news {
				if !eqUnder(e.g, e.args[0], n.res) && !(len(e.args[0].alts) == 1 && e.args[0].alts[0].l.kind == KPtr && eqUnder(e.g, e.st.load(e.args[0], nw.Signature.Results().At(0).Type()), n.res)) {
					continue
				}
				made = true
				r.add("the server listens on the configured address", w, eqUnder(e.g, n.args[ai], addr), w, "the address is "+valStrD(n.args[ai], 4))
				r.add("the server uses the configured time to live", w, eqUnder(e.g, n.args[ti], ttl), w, "the time to live is "+valStrD(n.args[ti], 4))
				m.storages(r, e, n.args[ri], store)
			}
			r.add("the server run is the one made", w, made, w, "the server was not made by New")
			// log level: the last one set before
			var last *Event
			seen := F
			okLvl := true
			for _, x := range an.events {
				if x.kind == "log" && strings.HasSuffix(x.name, "logrus.SetLevel") && x.seq < e.seq {
					last = x
				}
			}
			if last != nil {
				seen = last.g
				okLvl = eqUnder(E.And(e.g, last.g), last.args[0], lvl)
			}
			r.add("the configured log level is set", w, okLvl && never(e.g, E.Not(seen)), w, "the log level set is not the configured one")
		}
		return an
	})
}

// storages: the repository given to the server holds what was loaded, or
// that and the log storage.
func (m *mainRun) storages(r *Report, run *Event, repo, store *Val) {
	w := r.w.posStr(run.pos)
	var gs []B
	logT := r.w.pkg("cli/receiver/storage").Type("LogConnector").Type()
	for _, l := range m.loads {
		if l.seq > run.seq {
			continue
		}
		gs = append(gs, l.g)
		g := E.And(run.g, l.g)
		r.add("the storages of the server are loaded", w, eqUnder(g, l.args[0], repo), w, "the storages are loaded into another repository")
		r.add("the configured storages are loaded", w, eqUnder(g, l.args[1], store), w, "the storages loaded are not the configured ones")
		q0, q := seqOf(l.after, m.list(l.after, repo), g), seqOf(run.st, m.list(run.st, repo), g)
		ok := E.And(g, errNil(l.res))
		r.add("the loaded storages are used", w, E.feasible(ok) && q0 != nil && q != nil && seqEqUnder(ok, q, q0), w, "after loading them the storages are changed")
		failed := E.And(g, E.Not(errNil(l.res)))
		fell := false
		if q0 != nil && q != nil && E.feasible(failed) {
			if adds := splitAfter(q, q0, failed); adds != nil && eqUnder(failed, seqLen(adds), vConst(1)) {
				v := prune(seqIndex(adds, E.konst(0), failed, m.lt.Underlying().(*types.Slice).Elem()), failed)
				fell = len(v.alts) > 0
				for _, a := range v.alts {
					t := a.l.typ
					if pt, ok := t.(*types.Pointer); ok {
						t = pt.Elem()
					}
					fell = fell && a.l.kind == KIface && types.Identical(t, logT)
				}
			}
		}
		r.add("without storages records go to the log", w, fell, w, "when loading fails the log storage is not added")
		said := F
		for _, e := range m.an.events {
			if e.kind == "log" && e.seq > l.seq && reports(e.name) {
				said = E.Or(said, e.g)
			}
		}
		r.add("a failure to load is reported", w, never(failed, E.Not(said)), w, "the failure is not reported")
	}
	_, once := exactlyOnce(run.g, gs)
	r.add("the storages are loaded once", w, once, w, "the storages are not loaded exactly once before the server runs")
}

// reports: the call writes a message.
func reports(name string) bool {
	n := name[strings.LastIndex(name, ".")+1:]
	for _, p := range []string{"Print", "Info", "Warn", "Error", "Fprint", "Log"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
