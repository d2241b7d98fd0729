package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call is one call being interpreted.
type Call struct {
	fr           *Frame
	an           *Analysis
	st           *State
	ins          ssa.Instruction
	common       *ssa.CallCommon
	args         []*Val
	recvOverride *Val
	isDefer      bool
	fn           *ssa.Function
	name         string
}

func (c *Call) site() string { return c.fr.site(c.ins) }

func (c *Call) sig() *types.Signature { return c.common.Signature() }

func (c *Call) resType() types.Type {
	r := c.sig().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

func (c *Call) do() *Val {
	if c.args == nil {
		c.args = []*Val{}
		for _, a := range c.common.Args {
			c.args = append(c.args, c.fr.val(c.st, a))
		}
	}
	c.an.calls++
	if c.common.IsInvoke() {
		recv := c.recvOverride
		if recv == nil {
			recv = c.fr.val(c.st, c.common.Value)
		}
		return c.invoke(recv)
	}
	switch v := c.common.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(v.Name())
	case *ssa.Function:
		return c.static(v, c.args, nil)
	}
	fv := c.recvOverride
	if fv == nil {
		fv = c.fr.val(c.st, c.common.Value)
	}
	return c.dynamic(fv)
}

func (c *Call) dynamic(fv *Val) *Val {
	c.fr.oblig(c.st, c.ins, "call of a nil function", nonNil(fv))
	if c.st.g == F {
		return zeroResult(c.sig())
	}
	return c.split(fv, func(d *Call, l *Leaf) *Val {
		if l.kind == KFunc && l.fn != nil {
			return d.static(l.fn, d.args, l.fields)
		}
		return d.opaque("dynamic:"+leafStr(l, 3), d.args, one(l))
	})
}

// split runs f once per feasible alternative and merges the outcomes.
func (c *Call) split(v *Val, f func(d *Call, l *Leaf) *Val) *Val {
	v = prune(v, c.st.g)
	var live []Alt
	for _, a := range v.alts {
		if E.And(c.st.g, a.g) != F {
			live = append(live, a)
		}
	}
	if len(live) == 1 {
		return f(c, live[0].l)
	}
	if len(live) == 0 {
		c.st.g = F
		return zeroResult(c.sig())
	}
	key := resKey{}
	_ = key
	var sts []*State
	var rk ssa.Value = c.fr.fn
	save, had := c.st.env[rk]
	for _, a := range live {
		s2 := c.st.clone()
		s2.g = E.And(c.st.g, a.g)
		d := *c
		d.st = s2
		r := f(&d, a.l)
		if s2.g == F {
			continue
		}
		s2.env[rk] = r
		sts = append(sts, s2)
	}
	m := mergeStates(sts)
	if m == nil {
		c.st.g = F
		return zeroResult(c.sig())
	}
	r := m.env[rk]
	c.st.g, c.st.heap, c.st.defers = m.g, m.heap, m.defers
	if had {
		c.st.env[rk] = save
	}
	return r
}

type resKey struct{}

func (c *Call) invoke(recv *Val) *Val {
	m := c.common.Method
	if c.an.nonNilIface != "" && ifaceName(c.common.Value.Type()) == c.an.nonNilIface {
		c.st.g = E.And(c.st.g, nonNil(recv))
	}
	c.fr.oblig(c.st, c.ins, "method call on a nil interface", nonNil(recv))
	if c.st.g == F {
		return zeroResult(c.sig())
	}
	return c.split(recv, func(d *Call, l *Leaf) *Val {
		if l.kind == KIface {
			sel := d.an.w.prog.MethodSets.MethodSet(l.typ).Lookup(m.Pkg(), m.Name())
			if sel != nil {
				if fn := d.an.w.prog.MethodValue(sel); fn != nil {
					return d.static(fn, append([]*Val{l.val}, d.args...), nil)
				}
			}
			return d.opaque(fmt.Sprintf("(%s).%s", l.typ, m.Name()), append([]*Val{l.val}, d.args...), nil)
		}
		name := "invoke " + ifaceName(d.common.Value.Type()) + "." + m.Name()
		d.name = name
		if h, ok := d.an.hooks[name]; ok {
			d.args = append([]*Val{one(l)}, d.args...)
			return h(d)
		}
		if mod, ok := invokeModels[m.Name()]; ok {
			if r := mod(d, l); r != nil {
				return r
			}
		}
		return d.opaque(name, d.args, one(l))
	})
}

func ifaceName(t types.Type) string {
	return types.TypeString(t, nil)
}

func (c *Call) static(fn *ssa.Function, args, binds []*Val) *Val {
	name := fn.String()
	d := *c
	d.fn, d.name, d.args = fn, name, args
	if h, ok := c.an.hooks[name]; ok {
		if r := h(&d); r != nil {
			return r
		}
	}
	if m, ok := models[name]; ok {
		return m(&d, args)
	}
	for _, pm := range prefixModels {
		if strings.HasPrefix(name, pm.prefix) {
			return pm.f(&d, args)
		}
	}
	if isInit(fn) && c.an.inInit && fn.Pkg != c.fr.fn.Pkg {
		return vNil()
	}
	if c.an.boundary != nil && c.an.boundary(fn) {
		return d.opaqueCall(name, args)
	}
	if len(fn.Blocks) > 0 {
		return c.an.call(fn, args, binds, c.st, c.site()+">")
	}
	return d.opaque(name, args, nil)
}

// opaqueCall: a repository function that is analysed elsewhere.
func (c *Call) opaqueCall(name string, args []*Val) *Val {
	c.an.event(&Event{kind: "call", name: name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: args, st: c.st.clone(), key: c.site()})
	e := c.an.events[len(c.an.events)-1]
	if c.an.keepInput {
		// decoders leave their input alone and encoders their receiver (decided
		// for each of them under C12); a packet updates its derived lengths
		var ptrs []*Val
		for i, a := range args {
			if i == 0 && !strings.HasSuffix(name, ").Encode") && !strings.HasSuffix(name, ").Length") || strings.HasSuffix(name, ".Package).Encode") {
				ptrs = append(ptrs, a)
			}
		}
		c.havocArgs(ptrs)
	} else {
		c.havocArgs(args)
	}
	r := c.symResult(name + "@" + c.site())
	e.res = r
	e.after = c.st.clone()
	return r
}

// opaque: a function outside of the repository without a model.
func (c *Call) opaque(name string, args []*Val, recv *Val) *Val {
	e := c.an.event(&Event{kind: "ext", name: name, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: args, recv: recv, st: c.st.clone(), key: c.site()})
	if strings.HasSuffix(name, ".Unmarshal") && len(args) == 2 {
		c.havocArgs(args[1:]) // the data is only read
	} else if !readOnlyCallee(name) {
		c.havocArgs(args)
	}
	key := name + "@" + c.site()
	if pureCallee(name) {
		key = name + "(" + ids(args) + ")"
	}
	r := c.symResult(key)
	switch name {
	case "net.Dial", "net.DialTimeout", "net.DialTCP", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.Listen":
		// documented: a connection or an error
		E.addLemmaOnce("dial:"+key, E.Imp(errNil(tupleField(r, 1, nil)), nonNil(tupleField(r, 0, nil))))
	}
	e.res = r
	e.after = c.st.clone()
	return r
}

func (c *Call) symResult(key string) *Val {
	t := c.resType()
	if t == nil {
		return vNil()
	}
	return symOf(t, key)
}

// symOf is mkSym with possibly-nil errors.
func symOf(t types.Type, key string) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		fs := make([]*Val, tp.Len())
		for i := range fs {
			fs[i] = symOf(tp.At(i).Type(), fmt.Sprintf("%s#%d", key, i))
		}
		return vTuple(fs)
	}
	if isErrorType(t) {
		v, _ := symErr(key)
		return v
	}
	return mkSym(t, key)
}

func pureCallee(name string) bool {
	for _, p := range []string{"math.", "strings.", "strconv.", "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "math/bits.", "unicode", "path.", "path/filepath.", "(time."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func readOnlyCallee(name string) bool {
	if pureCallee(name) || protoReadOnly(name) {
		return true
	}
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "fmt.Sprint", "fmt.Errorf", "fmt.Append", "errors.", "log.", "os.", "encoding/json.Marshal", "bytes.", "(*bytes.Buffer).Len",
		"time.", "net.", "sort.Search"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	for _, p := range []string{"Write", "Publish", "Exec", "Close", "Error", "String", "Len", "RemoteAddr"} {
		if strings.HasSuffix(name, "."+p) {
			return true
		}
	}
	return false
}

// havocArgs forgets the memory that a callee may change.
func (c *Call) havocArgs(args []*Val) {
	for i, a := range args {
		c.havocVal(a, fmt.Sprintf("%s@%s.%d", c.name, c.site(), i), map[*Obj]bool{})
	}
}

func (c *Call) havocVal(v *Val, name string, seen map[*Obj]bool) {
	if v == nil || v.isBool {
		return
	}
	for _, a := range v.alts {
		if E.And(c.st.g, a.g) == F {
			continue
		}
		switch a.l.kind {
		case KPtr:
			o := a.l.obj
			if seen[o] {
				continue
			}
			seen[o] = true
			if o.glob != nil && !c.an.inInit {
				continue
			}
			t := pathType(o.typ, a.l.path)
			nv := mkSym(t, "havoc:"+name)
			if len(a.l.path) == 0 && o.localAlloc {
				c.an.event(&Event{kind: "havoc", name: c.name, fn: c.fr.fn, pos: posOf(c.ins), g: E.And(c.st.g, a.g), args: []*Val{one(a.l)}, key: c.site()})
			} else {
				c.an.event(&Event{kind: "store", name: c.name, fn: c.fr.fn, pos: posOf(c.ins), g: E.And(c.st.g, a.g), args: []*Val{one(a.l), nv}, key: c.site(), held: lockState(c.st, false)})
			}
			c.st.store(one(a.l), mergeVal(E.Restrict(a.g, c.st.g), nv, c.st.load(one(a.l), t)))
		case KSlice:
			o := a.l.obj
			if seen[o] {
				continue
			}
			seen[o] = true
			if _, isB := elemOf(o.typ).Underlying().(*types.Basic); !isB && len(a.l.path) == 0 {
				// varargs of interfaces: forget what they point to
				if es, ok := seqBytes(c.st.sliceSeq(one(a.l))); ok && len(es) < 64 {
					for j, e := range es {
						c.havocVal(e, fmt.Sprintf("%s.%d", name, j), seen)
					}
				}
				continue
			}
			n := a.l.n
			src := newSrc("havoc:"+name, elemOf(pathType(o.typ, a.l.path)))
			if len(n.alts) == 1 {
				c.writeSlice(one(a.l), []Item{{g: T, k: ISub, src: src, off: E.konst(0), n: n.alts[0].l.lin}}, n, a.g)
			}
		case KIface:
			c.havocVal(a.l.val, name, seen)
		}
	}
}

// writeSlice overwrites the first n elements of a slice under the extra condition cond.
func (c *Call) writeSlice(sl *Val, items []Item, n *Val, cond B) {
	st := c.st
	for _, a := range prune(sl, st.g).alts {
		if a.l.kind != KSlice {
			continue
		}
		g := E.And(st.g, a.g, cond)
		if g == F {
			continue
		}
		o := a.l.obj
		if !o.localAlloc {
			c.an.event(&Event{kind: "store", name: "slice", fn: c.fr.fn, pos: posOf(c.ins), g: g, args: []*Val{one(a.l)}, key: c.site(), held: lockState(c.st, false)})
		}
		old := st.content(o)
		inner := old
		t := o.typ
		if len(a.l.path) > 0 {
			inner = readPath(old, o.typ, a.l.path, g)
			t = pathType(o.typ, a.l.path)
		}
		et := elemOf(t)
		base := arrSeq(inner, g)
		if base == nil {
			fail("write to a value that is not an array")
		}
		seq := base
		for _, of := range prune(a.l.off, g).alts {
			for _, m := range prune(n, g).alts {
				gg := E.And(g, of.g, m.g)
				if gg == F {
					continue
				}
				if m.l.lin.isConst() && m.l.lin.c == 0 {
					continue
				}
				ns := seqSplice(base, of.l.lin, m.l.lin, items, gg, et)
				seq = mergeSeq(E.Restrict(E.And(of.g, m.g), g), ns, seq)
			}
		}
		nv := vArr(seq)
		if len(a.l.path) > 0 {
			nv = writePath(old, o.typ, a.l.path, nv, g)
		}
		cc := E.Restrict(E.And(a.g, cond), st.g)
		st.heap[o] = mergeVal(cc, nv, old)
	}
}

func (c *Call) builtin(name string) *Val {
	st, a := c.st, c.args
	switch name {
	case "len":
		return c.lenOf(a[0])
	case "cap":
		var alts []Alt
		for _, x := range prune(a[0], st.g).alts {
			switch x.l.kind {
			case KSlice:
				for _, y := range x.l.cap.alts {
					alts = append(alts, Alt{E.And(x.g, y.g), y.l})
				}
			case KArr:
				for _, y := range seqLen(x.l.seq).alts {
					alts = append(alts, Alt{E.And(x.g, y.g), y.l})
				}
			default:
				alts = append(alts, Alt{x.g, lInt(E.konst(0))})
			}
		}
		return mkVal(alts)
	case "append":
		return c.append(a[0], a[1])
	case "copy":
		src := st.sliceSeq(a[1])
		n := minVal(sliceLen(prune(a[0], st.g)), sliceLen(prune(a[1], st.g)), st.g)
		n = prune(n, st.g)
		for _, m := range n.alts {
			g := E.And(st.g, m.g)
			if g == F || m.l.lin.isConst() && m.l.lin.c == 0 {
				continue
			}
			items := seqSlice(src, vConst(0), one(m.l), g, elemOf(c.common.Args[0].Type())).items
			c.writeSlice(a[0], items, one(m.l), m.g)
		}
		return n
	case "min", "max":
		r := a[0]
		t := c.resType()
		for _, x := range a[1:] {
			ge := geVal(r, x, t, st.g)
			if name == "min" {
				r = mergeVal(ge, x, r)
			} else {
				r = mergeVal(ge, r, x)
			}
		}
		return r
	case "ssa:wrapnilchk":
		c.fr.oblig(st, c.ins, "nil dereference", nonNil(a[0]))
		return a[0]
	case "recover":
		return vNil()
	case "delete":
		for _, x := range prune(a[0], st.g).alts {
			if x.l.kind == KPtr {
				st.store(one(x.l), vTerm(nil, "mapdel", st.load(one(x.l), x.l.obj.typ), a[1]))
				if !x.l.obj.localAlloc {
					c.an.event(&Event{kind: "store", name: "map", fn: c.fr.fn, pos: posOf(c.ins), g: st.g, args: []*Val{one(x.l)}, key: c.site(), held: lockState(c.st, false)})
				}
			}
		}
		return vNil()
	case "print", "println":
		c.an.event(&Event{kind: "log", name: "builtin." + name, fn: c.fr.fn, pos: posOf(c.ins), g: st.g, args: a, st: st.clone(), key: c.site()})
		return vNil()
	case "close", "clear":
		return vNil()
	case "panic":
		c.an.event(&Event{kind: "oblig", name: "panic", fn: c.fr.fn, pos: posOf(c.ins), g: st.g, cond: F, key: c.site()})
		st.g = F
		return vNil()
	}
	fail("builtin " + name)
	return nil
}

func (c *Call) lenOf(v *Val) *Val {
	v = prune(v, c.st.g)
	if v.isBool {
		fail("len of a boolean")
	}
	var alts []Alt
	for _, a := range v.alts {
		switch a.l.kind {
		case KPtr: // pointer to array, or a map
			t := pathType(a.l.obj.typ, a.l.path)
			if at, ok := t.Underlying().(*types.Array); ok {
				alts = append(alts, Alt{a.g, lInt(E.konst(at.Len()))})
				continue
			}
			ct := c.st.load(one(a.l), t)
			alts = append(alts, Alt{a.g, lInt(E.linAtom(E.atom(fmt.Sprintf("maplen(v%d)", ct.id), 0, 1<<31)))})
		default:
			for _, x := range sliceLen(one(a.l)).alts {
				alts = append(alts, Alt{E.And(a.g, x.g), x.l})
			}
		}
	}
	return mkVal(alts)
}

func minVal(a, b *Val, g B) *Val {
	a, b = prune(a, g), prune(b, g)
	var alts []Alt
	for _, x := range a.alts {
		for _, y := range b.alts {
			gg := E.And(x.g, y.g)
			if E.And(gg, g) == F {
				continue
			}
			le := E.GE0(E.addLin(y.l.lin, 1, x.l.lin, -1)) // x <= y
			full := E.And(gg, g)
			if !E.feasible(E.Diff(full, le)) {
				le = T
			} else if !E.feasible(E.Diff(full, E.GE0(E.addLin(x.l.lin, 1, y.l.lin, -1)))) {
				le = F
			}
			alts = append(alts, Alt{E.And(gg, le), x.l}, Alt{E.Diff(gg, le), y.l})
		}
	}
	return mkVal(alts)
}

func (c *Call) append(s, t *Val) *Val {
	st := c.st
	s, t = prune(s, st.g), prune(t, st.g)
	elem := elemOf(c.common.Args[0].Type())
	add := st.sliceSeq(t)
	k := sliceLen(t)
	if n, ok := constInt(k); ok && n == 0 {
		return s
	}
	// in place when the capacity surely suffices
	if len(s.alts) == 1 && s.alts[0].l.kind == KSlice {
		l := s.alts[0].l
		nn := intAdd(l.n, k, 1)
		if cz, ok := constInt(l.cap); (!ok || cz != 0) && !E.feasible(E.Diff(st.g, cmpGE(l.cap, nn, st.g))) {
			rest := vSliceP(l.obj, l.path, intAdd(l.off, l.n, 1), k, intAdd(l.cap, l.n, -1))
			c.writeSlice(rest, add.items, k, T)
			return vSliceP(l.obj, l.path, l.off, restrictVal(nn, st.g), l.cap)
		}
	}
	// memory behind the end of a slice may be written when there is room
	for _, a := range s.alts {
		l := a.l
		if l.kind != KSlice || l.obj == nil || l.obj.localAlloc {
			continue
		}
		if g := E.And(st.g, a.g, cmpGE(l.cap, intAdd(l.n, k, 1), st.g)); E.feasible(g) {
			c.an.event(&Event{kind: "store", name: "append", fn: c.fr.fn, pos: posOf(c.ins), g: g, args: []*Val{one(l)}, key: c.site(), held: lockState(st, false)})
		}
	}
	base := st.sliceSeq(s)
	seq := seqCat(base, add)
	o := symObj("append@"+c.site(), types.NewSlice(elem))
	o.app, o.localAlloc = true, true
	st.heap[o] = vArr(seq)
	n := restrictVal(intAdd(sliceLen(s), k, 1), st.g)
	cp := intAdd(n, vInt(E.linAtom(E.atom(fmt.Sprintf("room(%d)", o.id), 0, 1<<40))), 1)
	c.an.event(&Event{kind: "append", name: "append", fn: c.fr.fn, pos: posOf(c.ins), g: st.g, args: []*Val{s, t}, key: c.site(), typ: elem})
	return vSlice(o, vConst(0), n, cp)
}

// ---- remaining instructions ----

func (fr *Frame) bounds1(st *State, ins ssa.Instruction, idx, n *Val) {
	if st.g == F {
		return
	}
	lo := cmpGE(idx, vConst(0), st.g)
	hi := cmpGE(intAdd(n, vConst(1), -1), idx, st.g)
	fr.oblig(st, ins, "index out of range", E.And(lo, hi))
}

func seqIndexV(s *Seq, idx *Val, g B, elem types.Type) *Val {
	idx = prune(idx, g)
	return mapVal(idx, func(l *Leaf, ga B) *Val {
		gg := E.And(g, ga)
		if gg == F || l.kind != KInt {
			return nil
		}
		return seqIndex(s, l.lin, gg, elem)
	})
}

func (fr *Frame) indexVal(st *State, x, idx *Val, t types.Type) *Val {
	et := elemOf(t)
	return mapValB(prune(x, st.g), func(l *Leaf, g B) *Val {
		gg := E.And(st.g, g)
		switch l.kind {
		case KStr, KArr:
			return seqIndexV(l.seq, idx, gg, et)
		}
		return mkSym(et, fmt.Sprintf("%s[v%d]", leafStr(l, 6), idx.id))
	})
}

// mapValB is mapVal for results that may be booleans.
func mapValB(v *Val, f func(l *Leaf, g B) *Val) *Val { return mapVal(v, f) }

func (fr *Frame) elemAddr(st *State, x, idx *Val, t types.Type) *Val {
	return mapVal(prune(x, st.g), func(l *Leaf, g B) *Val {
		gg := E.And(st.g, g)
		switch l.kind {
		case KPtr:
			return mapVal(prune(idx, gg), func(il *Leaf, _ B) *Val {
				return vPtr(l.obj, append(append([]PE(nil), l.path...), PE{field: -1, idx: il.lin})...)
			})
		case KSlice:
			return mapVal(prune(intAdd(l.off, idx, 1), gg), func(il *Leaf, _ B) *Val {
				return vPtr(l.obj, append(append([]PE(nil), l.path...), PE{field: -1, idx: il.lin})...)
			})
		case KNil:
			return nil
		case KTerm:
			sl := symSlice(elemOf(t), leafStr(l, 6))
			return mapVal(prune(idx, gg), func(il *Leaf, _ B) *Val {
				return vPtr(sl.alts[0].l.obj, PE{field: -1, idx: il.lin})
			})
		}
		fail("element address of " + leafStr(l, 3))
		return nil
	})
}

func (fr *Frame) slice(st *State, i *ssa.Slice) *Val {
	x := fr.val(st, i.X)
	var lo, hi, mx *Val
	lo = vConst(0)
	if i.Low != nil {
		lo = fr.val(st, i.Low)
	}
	if i.High != nil {
		hi = fr.val(st, i.High)
	}
	if i.Max != nil {
		mx = fr.val(st, i.Max)
	}
	// bounds
	cond := F
	x = prune(x, st.g)
	isPtr := false
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		isPtr = true
		fr.oblig(st, i, "nil dereference", nonNil(x))
		_ = p
	}
	if st.g == F {
		return vNil()
	}
	for _, a := range x.alts {
		var n, cp *Val
		switch a.l.kind {
		case KSlice:
			n, cp = a.l.n, a.l.cap
		case KStr:
			n = seqLen(a.l.seq)
			cp = n
		case KNil:
			n, cp = vConst(0), vConst(0)
		case KPtr:
			n = vConst(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			cp = n
		default:
			n = sliceLen(one(a.l))
			cp = n
		}
		g := E.And(st.g, a.g)
		h := hi
		if h == nil {
			h = n
		}
		m := mx
		if m == nil {
			m = cp
		}
		ok := E.And(cmpGE(lo, vConst(0), g), cmpGE(h, lo, g), cmpGE(m, h, g))
		if mx != nil {
			ok = E.And(ok, cmpGE(cp, mx, g))
		}
		cond = E.Or(cond, E.And(a.g, ok))
	}
	_ = isPtr
	fr.oblig(st, i, "slice bounds out of range", cond)
	if st.g == F {
		return vNil()
	}
	return mapVal(prune(x, st.g), func(l *Leaf, g B) *Val {
		gg := E.And(st.g, g)
		switch l.kind {
		case KStr:
			h := hi
			if h == nil {
				h = seqLen(l.seq)
			}
			n := intAdd(h, lo, -1)
			return vStrSeq(seqSlice(l.seq, prune(lo, gg), prune(n, gg), gg, types.Typ[types.Uint8]))
		case KSlice:
			h := hi
			if h == nil {
				h = l.n
			}
			m := mx
			if m == nil {
				m = l.cap
			}
			off := intAdd(l.off, lo, 1)
			if !l.obj.app {
				return vSliceP(l.obj, l.path, prune(off, gg), prune(intAdd(h, lo, -1), gg), prune(intAdd(m, lo, -1), gg))
			}
			return vSliceP(l.obj, l.path, prune(off, gg), prune(intAdd(h, lo, -1), gg), prune(intAdd(m, lo, -1), gg))
		case KPtr:
			n := vConst(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			h := hi
			if h == nil {
				h = n
			}
			m := mx
			if m == nil {
				m = n
			}
			return vSliceP(l.obj, l.path, lo, prune(intAdd(h, lo, -1), gg), prune(intAdd(m, lo, -1), gg))
		case KNil:
			return vNil()
		}
		sl := symSlice(elemOf(i.X.Type()), leafStr(l, 6)).alts[0].l
		h := hi
		if h == nil {
			h = sl.n
		}
		return vSlice(sl.obj, lo, intAdd(h, lo, -1), intAdd(sl.cap, lo, -1))
	})
}

func (fr *Frame) typeAssert(st *State, i *ssa.TypeAssert) *Val {
	x := prune(fr.val(st, i.X), st.g)
	T0 := i.AssertedType
	_, toIface := T0.Underlying().(*types.Interface)
	ok := F
	var acc *Val
	gs := F
	for _, a := range x.alts {
		var c B
		var v *Val
		switch a.l.kind {
		case KNil:
			continue
		case KIface:
			if toIface {
				if types.Implements(a.l.typ, T0.Underlying().(*types.Interface)) {
					c = T
				}
				v = one(a.l)
			} else {
				if types.Identical(a.l.typ, T0) {
					c = T
				}
				v = a.l.val
			}
		case KTerm:
			if toIface {
				src := i.X.Type().Underlying().(*types.Interface)
				if types.Implements(i.X.Type(), T0.Underlying().(*types.Interface)) || types.Identical(src, T0.Underlying()) {
					c = E.Not(leafNil(a.l))
				} else {
					c = E.And(E.Not(leafNil(a.l)), E.newVar(fmt.Sprintf("implements(%s,%s)", a.l.op+ids(a.l.args), T0)))
				}
				v = one(a.l)
			} else {
				if a.l.nonNil && a.l.typ == nil {
					c = E.newVar(fmt.Sprintf("dyntype(%s,%s)", a.l.op+ids(a.l.args), T0))
				} else {
					c = tagIs(a.l, T0)
				}
				v = mkSym(T0, assertName(a.l, T0))
			}
		default:
			fail("type assertion on " + leafStr(a.l, 2))
		}
		if c == F {
			continue
		}
		gc := E.And(a.g, c)
		ok = E.Or(ok, gc)
		if acc == nil {
			acc = v
		} else {
			acc = mergeVal(E.Restrict(gs, E.Or(gs, gc)), acc, v)
		}
		gs = E.Or(gs, gc)
	}
	if !i.CommaOk {
		fr.oblig(st, i, "type assertion fails", ok)
		if st.g == F || acc == nil {
			return zeroVal(T0)
		}
		return acc
	}
	z := zeroVal(T0)
	if acc == nil {
		return vTuple([]*Val{z, vBool(F)})
	}
	return vTuple([]*Val{mergeVal(E.Restrict(ok, st.g), acc, z), vBool(ok)})
}

func assertName(l *Leaf, t types.Type) string {
	return fmt.Sprintf("%s%s.(%s)", l.op, ids(l.args), types.TypeString(t, shortQ))
}

func (fr *Frame) convert(st *State, ins ssa.Instruction, x *Val, from, to types.Type) *Val {
	fi, ti := isInt(from), isInt(to)
	switch {
	case fi && ti:
		return wrapInt(x, to, st.g)
	case fi && isFloat(to):
		return mapVal(x, func(l *Leaf, g B) *Val {
			if l.kind == KInt {
				return vFlt(fltLin(l.lin))
			}
			return vFlt(fltAtom("float", one(l)))
		})
	case isFloat(from) && ti:
		return mapVal(x, func(l *Leaf, g B) *Val { return truncFloat(l, to, E.And(st.g, g)) })
	case isFloat(from) && isFloat(to):
		return x
	case isString(from) && !isString(to) && !ti:
		// string -> []byte
		var seq *Seq
		gs := F
		for _, a := range prune(x, st.g).alts {
			q := strSeq(a.l)
			if seq == nil {
				seq = q
			} else {
				seq = mergeSeq(E.Restrict(gs, E.Or(gs, a.g)), seq, q)
			}
			gs = E.Or(gs, a.g)
		}
		if b, ok := elemOf(to).Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return mkSym(to, "runes@"+fr.site(ins))
		}
		return freshSlice("bytes@"+fr.site(ins), elemOf(to), seq, st)
	case isString(to) && fi:
		return mapVal(x, func(l *Leaf, g B) *Val {
			if l.kind == KInt && l.lin.isConst() {
				return vStr(string(rune(l.lin.c)))
			}
			if l.kind == KInt {
				if !E.feasible(E.Diff(E.And(st.g, g), E.And(E.GE0(l.lin), E.GE0(E.addLin(E.konst(127), 1, l.lin, -1))))) {
					return vStrSeq(mkSeq([]Item{{g: T, k: IVal, val: one(l)}}))
				}
			}
			return symStr(fmt.Sprintf("rune(%d)", l.id))
		})
	case isString(to) && !isString(from):
		return mapVal(prune(x, st.g), func(l *Leaf, g B) *Val {
			if l.kind == KTerm {
				return symStr("str(" + leafStr(l, 6) + ")")
			}
			return vStrSeq(st.sliceSeqG(one(l), E.And(st.g, g)))
		})
	}
	return x
}

func (fr *Frame) lookup(st *State, i *ssa.Lookup) *Val {
	x, idx := fr.val(st, i.X), fr.val(st, i.Index)
	if isString(i.X.Type()) {
		fr.bounds1(st, i, idx, sliceLen(x))
		if st.g == F {
			return vConst(0)
		}
		return fr.indexVal(st, x, idx, i.X.Type())
	}
	et := i.X.Type().Underlying().(*types.Map).Elem()
	var acc *Val
	ok := F
	gs := F
	z := zeroVal(et)
	for _, a := range prune(x, st.g).alts {
		var v *Val
		var o B
		switch a.l.kind {
		case KNil:
			v, o = z, F
		case KPtr:
			c := st.load(one(a.l), a.l.obj.typ)
			v, o = mapGet(c, idx, et, st)
		case KTerm:
			v, o = mapGet(one(a.l), idx, et, st)
		default:
			fail("map lookup in " + leafStr(a.l, 2))
		}
		if acc == nil {
			acc = v
		} else {
			acc = mergeVal(E.Restrict(gs, E.Or(gs, a.g)), acc, v)
		}
		gs = E.Or(gs, a.g)
		ok = E.Or(ok, E.And(a.g, o))
	}
	if i.CommaOk {
		return vTuple([]*Val{acc, vBool(ok)})
	}
	return acc
}

func mapGet(m, k *Val, et types.Type, st *State) (*Val, B) {
	z := zeroVal(et)
	if len(m.alts) != 1 {
		var acc *Val
		gs, ok := F, F
		for _, a := range m.alts {
			v, o := mapGet(one(a.l), k, et, st)
			if acc == nil {
				acc = v
			} else {
				acc = mergeVal(E.Restrict(gs, E.Or(gs, a.g)), acc, v)
			}
			gs = E.Or(gs, a.g)
			ok = E.Or(ok, E.And(a.g, o))
		}
		return acc, ok
	}
	l := m.alts[0].l
	switch l.op {
	case "emptymap":
		return z, F
	case "mapset":
		eq := eqVal(k, l.args[1], st)
		if eq == T {
			return l.args[2], T
		}
		v, o := mapGet(l.args[0], k, et, st)
		return mergeVal(eq, l.args[2], v), E.Or(eq, o)
	case "mapdel":
		eq := eqVal(k, l.args[1], st)
		v, o := mapGet(l.args[0], k, et, st)
		return mergeVal(eq, z, v), E.Diff(o, eq)
	}
	ks := fmt.Sprintf("v%d", k.id)
	if s, ok := constStr(k); ok {
		ks = fmt.Sprintf("%q", s)
	}
	nm := leafStr(l, 6)
	if l.op != "" && strings.HasPrefix(l.op, "sym:") {
		nm = strings.TrimPrefix(l.op, "sym:")
	}
	key := fmt.Sprintf("%s[%s]", nm, ks)
	o := E.newVar("has:" + key)
	return mergeVal(o, mkSym(et, key), z), o
}

func (fr *Frame) mapUpdate(st *State, i *ssa.MapUpdate) {
	m, k, v := fr.val(st, i.Map), fr.val(st, i.Key), fr.val(st, i.Value)
	fr.oblig(st, i, "write to a nil map", nonNil(m))
	if st.g == F {
		return
	}
	for _, a := range prune(m, st.g).alts {
		if a.l.kind != KPtr {
			fr.an.event(&Event{kind: "store", name: "map", fn: fr.fn, pos: posOf(i), g: E.And(st.g, a.g), args: []*Val{one(a.l)}, key: fr.site(i), held: lockState(st, false)})
			continue
		}
		if !a.l.obj.localAlloc {
			fr.an.event(&Event{kind: "store", name: "map", fn: fr.fn, pos: posOf(i), g: E.And(st.g, a.g), args: []*Val{one(a.l)}, key: fr.site(i), held: lockState(st, false)})
		}
		old := st.load(one(a.l), a.l.obj.typ)
		st.store(one(a.l), vTerm(nil, "mapset", old, k, v))
	}
}

func (fr *Frame) rangeVal(st *State, i *ssa.Range) *Val {
	x := fr.val(st, i.X)
	if isString(i.X.Type()) {
		o := fr.symObjAt(i, "range", types.Typ[types.Int])
		st.heap[o] = vConst(0)
		return vTuple([]*Val{x, vPtr(o)})
	}
	return vTuple([]*Val{x, vNil()})
}

func (fr *Frame) next(st *State, i *ssa.Next) *Val {
	it := fr.val(st, i.Iter)
	site := fr.site(i)
	tt := i.Type().(*types.Tuple)
	if i.IsString && len(it.alts) == 1 && it.alts[0].l.kind == KTuple {
		// iterate over bytes when the string surely is ASCII
		f := it.alts[0].l.fields
		pos := st.load(f[1], types.Typ[types.Int])
		n := sliceLen(prune(f[0], st.g))
		ok := E.Not(cmpGE(pos, n, st.g))
		v := vConst(0)
		g := E.And(st.g, ok)
		if g != F {
			v = mapVal(prune(f[0], g), func(l *Leaf, ga B) *Val {
				return seqIndexV(strSeq(l), pos, E.And(g, ga), types.Typ[types.Uint8])
			})
		}
		ascii := g == F || !E.feasible(E.Diff(g, cmpGE(vConst(127), v, g)))
		if ascii {
			st.store(f[1], intAdd(pos, vConst(1), 1))
			return vTuple([]*Val{vBool(ok), pos, v})
		}
		return vTuple([]*Val{vBool(E.newVar("more@" + site)), mkSym(types.Typ[types.Int], "pos@"+site), mkSym(types.Typ[types.Int32], "rune@"+site)})
	}
	fs := []*Val{vBool(E.newVar("more@" + site))}
	for k := 1; k < tt.Len(); k++ {
		if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			fs = append(fs, vNil())
			continue
		}
		fs = append(fs, mkSym(tt.At(k).Type(), fmt.Sprintf("range%d@%s", k, site)))
	}
	if n := len(fr.an.loopCtx); n > 0 && !i.IsString && len(it.alts) == 1 && it.alts[0].l.kind == KTuple {
		x := &rangeStep{loop: fr.an.loopCtx[n-1], over: it.alts[0].l.fields[0], more: fs[0].b, key: fs[1]}
		if len(fs) > 2 {
			x.val = fs[2]
		}
		fr.an.ranges = append(fr.an.ranges, x)
	}
	return vTuple(fs)
}

// rangeStep is one step of a range over a map.
type rangeStep struct {
	loop           *LoopRec
	over, key, val *Val
	more           B
}
