package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the code that runs for a connection ----

type part struct {
	name    string
	an      *Analysis
	shared  func(o *Obj) bool // memory that other connections can see
	objects []*Event          // calls that change their receiver
}

// plugins lists the storage types of the repository: implementations of Saver.
func (w *World) plugins() map[string]*types.Named {
	out := map[string]*types.Named{}
	sp := w.pkg("cli/receiver/storage")
	if sp == nil || sp.Type("Saver") == nil {
		fail("no type Saver in cli/receiver/storage")
	}
	saver := sp.Type("Saver").Type().Underlying().(*types.Interface)
	for path, p := range w.pkgs {
		if !strings.HasPrefix(path, modPath+"/cli/receiver") {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			t := p.Type(n)
			if t == nil || types.IsInterface(t.Type()) {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if ok && nt != nil && n != "Repository" && types.Implements(types.NewPointer(nt), saver) {
				out[p.Pkg.Name()+"."+n] = nt
			}
		}
	}
	return out
}

// methodOf is the declared method of a type, without the pointer wrapper.
func (w *World) methodOf(t *types.Named, name string) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		if m := t.Method(i); m.Name() == name {
			return w.prog.FuncValue(m)
		}
	}
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// readyConnector: an initialised storage has all the interfaces and pointers
// it keeps (that Init leaves them ready is decided under C42).
func readyReceiver(st *State, v *Val, t types.Type) B {
	g := nonNil(v)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			c := st.load(v, p.Elem())
			for i := 0; i < s.NumFields(); i++ {
				switch s.Field(i).Type().Underlying().(type) {
				case *types.Interface, *types.Pointer, *types.Map, *types.Chan, *types.Signature:
					g = E.And(g, nonNil(fieldOf(c, i, s.Field(i).Type(), T)))
				}
			}
		}
	}
	return g
}

func rooted(o *Obj) bool {
	if o.localAlloc {
		return false
	}
	return o.glob != nil || o.shared || strings.Contains(o.name, "p0") || strings.Contains(o.name, "global:") || strings.Contains(o.name, "arg.") || strings.HasPrefix(o.name, "content of ")
}

// connectionParts analyses everything that runs while a connection is served
// and hands each piece to f.
func connectionParts(r *Report, f func(p *part)) {
	w := r.w
	plain := func(name string, g func() *part) {
		r.sub("analysis", name, func() *Analysis {
			p := g()
			p.name = name
			f(p)
			return p.an
		})
	}
	one := plain
	codec := func(name string, g func() *part) {
		plain(name, func() *part {
			p := g()
			// the packets being encoded belong to the connection
			p.shared = func(o *Obj) bool { return !o.localAlloc && (o.glob != nil || o.shared) }
			return p
		})
	}
	one("connection handler", func() *part {
		hr := runHandler(r)
		before := map[*Obj]bool{}
		for o := range hr.before {
			before[o] = true
		}
		p := &part{an: hr.an, shared: func(o *Obj) bool { return before[o] || rooted(o) && !hr.owned[o] }}
		for _, d := range hr.decs {
			p.objects = append(p.objects, d.ev)
		}
		p.objects = append(p.objects, hr.encs...)
		return p
	})
	root := func(name string, fn *ssa.Function, pre func(), prep func(an *Analysis, st *State, args []*Val)) {
		if fn == nil || len(fn.Blocks) == 0 {
			r.add("analysis", name, false, "", "no such function")
			return
		}
		one(name, func() *part {
			an := start(w)
			if pre != nil {
				pre()
			}
			st := newState()
			var args []*Val
			for i, q := range fn.Params {
				v := mkSym(q.Type(), "p"+string(rune('0'+i)))
				args = append(args, v)
				st.g = E.And(st.g, ifaceNonNil(v, q.Type()))
				if i == 0 && fn.Signature.Recv() != nil {
					st.g = E.And(st.g, readyReceiver(st, v, q.Type()))
				}
			}
			if prep != nil {
				prep(an, st, args)
			}
			an.call(fn, args, nil, st, "")
			return &part{an: an, shared: rooted}
		})
	}
	sp := w.pkg("cli/receiver/storage")
	root("Repository.Save", w.method(sp, "Repository", "Save"), nil, func(an *Analysis, st *State, args []*Val) {
		an.hooks["invoke "+types.TypeString(sp.Type("Saver").Type(), nil)+".Save"] = func(c *Call) *Val {
			e := c.an.event(&Event{kind: "call", name: "Saver.Save", fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: c.args, st: c.st.clone(), key: c.site()})
			v, _ := symErr("save@" + c.site())
			e.res = v
			return v
		}
		an.nonNilIface = types.TypeString(sp.Type("Saver").Type(), nil)
	})
	ps := w.plugins()
	for _, n := range sortedKeys(ps) {
		root(n+".Save", w.methodOf(ps[n], "Save"), nil, nil)
	}
	root("NavRecord.ToBytes", w.method(sp, "NavRecord", "ToBytes"), nil, nil)
	ep := w.pkg("libs/egts")
	for _, n := range ep.Pkg.Scope().Names() {
		t := ep.Type(n)
		if t == nil || types.IsInterface(t.Type()) {
			continue
		}
		for _, m := range []string{"Encode", "Length"} {
			fn := w.method(ep, n, m)
			if fn == nil || fn.Synthetic != "" || len(fn.Blocks) == 0 {
				continue
			}
			typ := n
			bm := &bodyModel{}
			pre := func() {}
			if n == "Package" {
				pre = func() {
					symHook = newEncoder("p0", structOf(ep, "Package"), packageHeader(), true).sym
				}
			}
			one = codec
			root(n+"."+m, fn, pre, func(an *Analysis, st *State, args []*Val) {
				codecBoundary(an, typ)
				if typ == "Package" {
					bm.hook(an, ep)
					c8, c16 := crcFns(w, ep)
					for name, n := range map[string]int{c8: 8, c16: 16} {
						an.hooks[name] = func(c *Call) *Val { return vBits(varBits(c.name+"@"+c.site(), n)) }
					}
				}
			})
		}
	}
}

// safeShared: packages whose values may be used by several goroutines at once
// (their documentation says so), or that synchronise themselves.
var safeShared = []string{"github.com/sirupsen/logrus", "database/sql", "github.com/streadway/amqp", "github.com/nats-io/nats.go", "github.com/nsqio/go-nsq",
	"github.com/go-redis/redis", "github.com/tarantool/go-tarantool", "sync", "net", "os", "log", "context", "time", "regexp", "reflect", "errors", "encoding/json", "fmt"}

func selfSynchronised(name string) bool {
	n := strings.TrimLeft(strings.TrimPrefix(name, "invoke "), "(*")
	for _, p := range safeShared {
		if n == p || strings.HasPrefix(n, p+".") || strings.HasPrefix(n, p+"/") {
			return !strings.Contains(name, "json.Encoder") && !strings.Contains(name, "json.Decoder")
		}
	}
	return false
}

func checkSharing(r *Report) {
	connectionParts(r, func(p *part) {
		r.add("only memory of its own connection is written", p.name, true, "", "")
		for _, e := range p.objects {
			for _, a := range e.args[0].alts {
				if a.l.kind == KPtr {
					r.add("only memory of its own connection is written", p.name+": "+e.name, !p.shared(a.l.obj) || never(e.g, a.g), r.w.posStr(e.pos), "decodes into or encodes a packet that other connections can see")
				}
			}
		}
		for _, e := range p.an.events {
			where := r.w.posStr(e.pos)
			switch e.kind {
			case "store":
				if len(e.args) == 0 || e.args[0].isBool || strings.HasPrefix(e.name, "sync/atomic.") || strings.HasPrefix(e.name, "(*sync") || selfSynchronised(e.name) {
					continue
				}
				for _, a := range e.args[0].alts {
					o := a.l.obj
					if a.l.kind == KTerm {
						o = nil
					}
					if o != nil && !p.shared(o) {
						continue
					}
					if o == nil && a.l.kind != KTerm {
						continue
					}
					bad := E.Diff(E.And(e.g, a.g), e.held)
					r.add("only memory of its own connection is written", p.name+": "+short(e.fn.String()), never(bad), where, "writes to memory shared with other connections without a lock: "+leafStr(a.l, 4)+" ("+e.name+")")
				}
			case "gload":
				r.add("variables written at run time are read under a lock", p.name+": "+e.name, never(E.Diff(e.g, e.held)), where, "reads the package variable "+e.name+", which is written elsewhere")
			case "ext":
				if e.recv != nil || len(e.args) == 0 || !strings.HasPrefix(e.name, "(*") || e.args[0] == nil || e.args[0].isBool || selfSynchronised(e.name) {
					continue
				}
				for _, a := range e.args[0].alts {
					if a.l.kind == KPtr && p.shared(a.l.obj) {
						bad := E.Diff(E.And(e.g, a.g), lockState(e.st, false))
						r.add("shared objects are used only if they are made for it", p.name+": "+e.name, never(bad), where, "uses a shared object that several goroutines must not use at once")
					}
				}
			case "go":
				r.add("a connection is served by one goroutine", p.name+": "+short(e.fn.String()), false, where, "starts another goroutine with access to the data of the connection")
			}
		}
	})
	{
		ep := r.w.pkg("libs/egts")
		alone := func(what string, run func() *Analysis) {
			r.sub("analysis", what, func() *Analysis {
				an := run()
				r.add("only memory of its own connection is written", what, true, "", "")
				for _, e := range an.events {
					switch e.kind {
					case "store":
						for _, a := range e.args[0].alts {
							if o := a.l.obj; o != nil && (o.glob != nil || o.shared) && !o.localAlloc {
								r.add("only memory of its own connection is written", what+": "+short(e.fn.String()), never(E.Diff(E.And(e.g, a.g), e.held)), r.w.posStr(e.pos), "writes to "+leafStr(a.l, 4))
							}
						}
					case "gload":
						r.add("variables written at run time are read under a lock", what+": "+e.name, never(E.Diff(e.g, e.held)), r.w.posStr(e.pos), "reads the package variable "+e.name+", which is written elsewhere")
					case "ext":
						if len(e.args) > 0 && e.args[0] != nil && !e.args[0].isBool && strings.HasPrefix(e.name, "(*") && !selfSynchronised(e.name) {
							for _, a := range e.args[0].alts {
								if o := a.l.obj; a.l.kind == KPtr && o != nil && (o.glob != nil || o.shared) {
									r.add("shared objects are used only if they are made for it", what+": "+e.name, never(E.Diff(E.And(e.g, a.g), lockState(e.st, false))), r.w.posStr(e.pos), "uses a shared object")
								}
							}
						}
					case "go":
						r.add("a connection is served by one goroutine", what, false, r.w.posStr(e.pos), "starts a goroutine")
					}
				}
				return an
			})
		}
		for _, t := range decoders(r.w, ep) {
			typ := t
			alone(typ+".Decode", func() *Analysis {
				an, _, _, _, _ := decodeAny(r, ep, typ)
				return an
			})
		}
		for _, fn := range sums(ep) {
			fn := fn
			alone(fn.Name(), func() *Analysis {
				an, _, _, _ := sumAny(r, fn)
				return an
			})
		}
	}
	checkHandOver(r)
	checkConfigured(r)
}

// instrPath: b can be executed after a (without passing an instruction that
// stop accepts).
func instrPath(a, b ssa.Instruction, stop func(ssa.Instruction) bool) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, from int) bool
	walk = func(bl *ssa.BasicBlock, from int) bool {
		for _, ins := range bl.Instrs[from:] {
			if stop != nil && stop(ins) {
				return false
			}
			if ins == b {
				return true
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, ins := range a.Block().Instrs {
		if ins == a {
			return walk(a.Block(), i+1)
		}
	}
	return false
}

// checkHandOver: what the accept loop gives to a handler is not changed by
// the accept loop afterwards.
func checkHandOver(r *Report) {
	w := r.w
	rs := w.handlerStarts(r)
	used := map[[2]interface{}]bool{}
	for _, s := range rs {
		for fn := range w.reachable(s.fn) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if fa, ok := ins.(*ssa.FieldAddr); ok {
						used[[2]interface{}{types.TypeString(fa.X.Type(), nil), fa.Field}] = true
					}
				}
			}
		}
	}
	for _, s := range rs {
		g := s.ins
		fn := g.Parent()
		var vals []ssa.Value
		vals = append(vals, g.Call.Args...)
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			vals = append(vals, mc.Bindings...)
		}
		where := w.posStr(g.Pos())
		for _, v := range vals {
			al, ok := v.(*ssa.Alloc)
			if !ok {
				continue
			}
			bad := ""
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al && instrPath(g, st, func(i ssa.Instruction) bool { return i == ssa.Instruction(al) }) {
					bad = w.posStr(st.Pos())
				}
			}
			r.add("what is handed to a connection is not changed afterwards", short(fn.String())+": "+al.Comment, bad == "", where, "the variable is shared with the handler and written at "+bad)
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || !instrPath(g, st, nil) {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if _, local := fa.X.(*ssa.Alloc); !local {
						n++
						r.add("the accept loop changes nothing the handlers use", short(fn.String()), !used[[2]interface{}{types.TypeString(fa.X.Type(), nil), fa.Field}], w.posStr(st.Pos()), "writes a field that connections read")
					}
				}
			}
		}
		r.add("the accept loop changes nothing the handlers use", short(fn.String()), true, where, "")
	}
	r.add("handlers", "started by the server", len(rs) > 0, "", "no handler is started")
}

type handlerStart struct {
	ins *ssa.Go
	fn  *ssa.Function
}

// handlerStarts: the go statements reachable from Server.Run.
func (w *World) handlerStarts(r *Report) []handlerStart {
	p := w.pkg("cli/receiver/server")
	run := w.method(p, "Server", "Run")
	if run == nil {
		return nil
	}
	var out []handlerStart
	for fn := range w.reachable(run) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					if t := calleeOf(&g.Call); t != nil {
						out = append(out, handlerStart{g, t})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ins.Pos() < out[j].ins.Pos() })
	return out
}

func calleeOf(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	return nil
}

// reachable: the repository functions a function may call, including those
// started by go and defer, function values it makes, and for calls through an
// interface every method of that name and type in the repository.
func (w *World) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 && w.inRepo(f) {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, f := range roots {
		push(f)
	}
	for len(todo) > 0 {
		fn := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						push(x)
					case *ssa.MakeClosure:
						push(x.Fn.(*ssa.Function))
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					push(mc.Fn.(*ssa.Function))
				}
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					m := ci.Common().Method
					for f := range w.allFuncs() {
						if f.Name() == m.Name() && f.Signature.Recv() != nil && w.inRepo(f) && types.Implements(f.Signature.Recv().Type(), ci.Common().Value.Type().Underlying().(*types.Interface)) {
							push(f)
						}
					}
				}
			}
		}
	}
	return seen
}

// checkConfigured: the storages are set up before the server runs.
func checkConfigured(r *Report) {
	w := r.w
	p := w.pkg("cli/receiver")
	if p == nil || p.Func("main") == nil {
		r.add("the storages are set up before connections are served", "receiver", false, "", "no function main in cli/receiver")
		return
	}
	run := w.method(w.pkg("cli/receiver/server"), "Server", "Run")
	sp := w.pkg("cli/receiver/storage")
	var writers []*ssa.Function
	for _, n := range []string{"Repository"} {
		t := sp.Type(n)
		if t == nil {
			continue
		}
		for fn := range w.allFuncs() {
			if !w.inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), types.NewPointer(t.Type())) {
							if _, local := fa.X.(*ssa.Alloc); !local {
								writers = append(writers, fn)
							}
						}
					}
				}
			}
		}
	}
	r.add("the storages are set up before connections are served", "writers of the list of storages", len(writers) > 0, "", "nothing fills the list of storages")
	touches := func(ins ssa.Instruction, what map[*ssa.Function]bool) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		var roots []*ssa.Function
		if f := calleeOf(ci.Common()); f != nil {
			roots = append(roots, f)
		}
		for _, op := range ins.Operands(nil) {
			switch x := (*op).(type) {
			case *ssa.Function:
				roots = append(roots, x)
			case *ssa.MakeClosure:
				roots = append(roots, x.Fn.(*ssa.Function))
			}
		}
		for f := range w.reachable(roots...) {
			if what[f] {
				return true
			}
		}
		return false
	}
	runs, writes := map[*ssa.Function]bool{run: true}, map[*ssa.Function]bool{}
	for _, f := range writers {
		writes[f] = true
	}
	n := 0
	for fn := range w.reachable(p.Func("main")) {
		if fn.Pkg != p {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if !touches(ins, runs) || touches(ins, writes) {
					continue
				}
				n++
				bad := ""
				for _, b2 := range fn.Blocks {
					for _, i2 := range b2.Instrs {
						if i2 != ins && touches(i2, writes) && instrPath(ins, i2, nil) {
							bad = w.posStr(i2.Pos())
						}
					}
				}
				r.add("the storages are set up before connections are served", short(fn.String()), bad == "", w.posStr(ins.Pos()), "the list of storages is changed at "+bad+" while connections may be served")
			}
		}
	}
	r.add("the storages are set up before connections are served", "receiver", n > 0, "", "the server is not started by main")
}

// ---- nothing ends the process ----

func checkSurvives(r *Report) {
	connectionParts(r, func(p *part) {
		r.add("cannot end the process", p.name, true, "", "")
		obligations(r, p.an)
	})
}
