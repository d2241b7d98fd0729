package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where data ends up: content of received packets in queries and destination
// names (C44), credentials in messages (C45).

// taint follows texts through the values of an analysis.
type taint struct {
	an    *Analysis
	bad   func(name string) bool  // the sources
	raw   func(q *Seq) bool       // further sources: texts and byte slices
	okay  func(it Item, g B) bool // items that are no secret after all
	objs  func(l *Leaf, g B) string
	ints  bool                // numbers of the sources count
	calls func(e *Event) bool // calls whose results depend on their arguments
	keys  map[string]bool     // the tainted calls
	errs  map[string]bool     // calls whose errors quote a tainted argument
	seen  map[string]bool
}

type tmode int

const (
	texts   tmode = iota // strings inside of a value, however deep
	printed              // what fmt prints of a value
)

func (t *taint) name(s string) bool {
	if t.bad(s) {
		return true
	}
	for k := range t.keys {
		if strings.Contains(s, k) {
			return true
		}
	}
	return false
}

func (t *taint) number(l *Lin) string {
	if l == nil || !t.ints {
		return ""
	}
	for _, x := range l.t {
		if t.name(x.a.key) {
			return x.a.key
		}
		for _, b := range x.a.bits {
			for _, v := range E.Support(b) {
				if n := E.vars[v].name; t.name(n) {
					return n
				}
			}
		}
		for _, a := range x.a.args {
			if s := t.walk(a, nil, T, printed, 0); s != "" {
				return s
			}
		}
	}
	return ""
}

// content: the elements of a text or slice.
func (t *taint) content(q *Seq, st *State, g B, md tmode, d int) string {
	if q == nil {
		return ""
	}
	if t.raw != nil && t.raw(q) {
		return "received bytes"
	}
	for _, it := range q.items {
		if never(g, it.g) {
			continue
		}
		switch it.k {
		case IVal:
			if !it.val.isBool && len(it.val.alts) > 0 && it.val.alts[0].l.kind == KInt {
				ints := t.ints
				t.ints = true
				for _, a := range it.val.alts {
					if s := t.number(a.l.lin); s != "" {
						t.ints = ints
						return s
					}
				}
				t.ints = ints
				continue
			}
			if s := t.walk(it.val, st, E.And(g, it.g), md, d+1); s != "" {
				return s
			}
		case ISub:
			if it.src.der != nil {
				for _, a := range it.src.der.args {
					if s := t.walk(a, st, E.And(g, it.g), printed, 0); s != "" {
						return s
					}
				}
			}
			if t.name(it.src.name) && !(t.okay != nil && t.okay(it, E.And(g, it.g))) {
				return it.src.name
			}
		}
	}
	return ""
}

// walk returns the name of a source that v holds.
func (t *taint) walk(v *Val, st *State, g B, md tmode, d int) string {
	if v == nil || v.isBool || d > 12 {
		return ""
	}
	key := fmt.Sprintf("%d,%d,%d,%d,%p", v.id, md, d, g, st)
	if t.seen[key] {
		return ""
	}
	t.seen[key] = true
	for _, a := range v.alts {
		if never(g, a.g) {
			continue
		}
		if s := t.leaf(a.l, st, E.And(g, a.g), md, d); s != "" {
			return s
		}
	}
	return ""
}

func (t *taint) leaf(l *Leaf, st *State, g B, md tmode, d int) string {
	sub := func(vs ...*Val) string {
		for _, x := range vs {
			if s := t.walk(x, st, g, md, d+1); s != "" {
				return s
			}
		}
		return ""
	}
	switch l.kind {
	case KInt:
		if md == printed {
			return t.number(l.lin)
		}
	case KStr:
		return t.content(strSeq(l), st, g, md, d)
	case KSlice:
		if st == nil {
			return ""
		}
		_, basic := elemOf(pathType(l.obj.typ, l.path)).Underlying().(*types.Basic)
		if md == texts && basic && !isString(elemOf(pathType(l.obj.typ, l.path))) {
			return ""
		}
		return t.content(st.sliceSeqG(one(l), g), st, g, md, d)
	case KArr:
		return t.content(l.seq, st, g, md, d)
	case KPtr:
		if t.objs != nil && d == 0 && md == printed {
			if s := t.objs(l, g); s != "" {
				return s
			}
		}
		if md == printed && d > 0 || st == nil {
			return ""
		}
		if t.name(l.obj.name) {
			return l.obj.name
		}
		if c := st.content(l.obj); c != nil {
			return sub(c)
		}
	case KIface:
		return t.walk(l.val, st, g, md, d)
	case KStruct, KTuple:
		return sub(l.fields...)
	case KTerm:
		if t.objs != nil && d == 0 && md == printed {
			if s := t.objs(l, g); s != "" {
				return s
			}
		}
		if strings.HasPrefix(l.op, "err:") {
			for k := range t.errs {
				if strings.Contains(l.op, k) {
					return "the error of " + k
				}
			}
			return ""
		}
		if strings.HasPrefix(l.op, "fresh:") {
			return "" // its text is looked at where it is made
		}
		if t.name(strings.TrimPrefix(l.op, "sym:")) {
			return l.op
		}
		return sub(l.args...)
	}
	return ""
}

// any: a source in one of the values.
func (t *taint) any(vs []*Val, st *State, g B, md tmode) string {
	for _, v := range vs {
		if s := t.walk(v, st, g, md, 0); s != "" {
			return s
		}
	}
	return ""
}

// propagate finds the calls whose results carry the sources.
func (t *taint) propagate(events []*Event) {
	t.keys, t.errs = map[string]bool{}, map[string]bool{}
	for {
		n := len(t.keys) + len(t.errs)
		for _, e := range events {
			if e.kind != "ext" && e.kind != "log" {
				continue
			}
			t.seen = map[string]bool{}
			args := e.args
			if e.recv != nil {
				args = append([]*Val{e.recv}, args...)
			}
			if t.calls(e) && t.any(args, e.st, e.g, printed) != "" {
				t.keys[e.name+"@"+e.key] = true
				t.keys[e.name+"("+ids(e.args)+")"] = true
			}
			for _, a := range e.args {
				if a.isBool || len(a.alts) == 0 || a.alts[0].l.kind != KStr {
					continue
				}
				t.seen = map[string]bool{}
				if t.walk(a, e.st, e.g, printed, 0) != "" {
					t.errs[e.name+"@"+e.key] = true
				}
				break
			}
		}
		if len(t.keys)+len(t.errs) == n {
			break
		}
	}
	t.seen = map[string]bool{}
}

func pkgOfName(name string) string {
	s := strings.TrimPrefix(name, "invoke ")
	s = strings.TrimLeft(s, "(*")
	s = strings.TrimSuffix(s, ")")
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	if j < 0 {
		return s
	}
	return s[:i+1+j]
}

func stdlib(name string) bool {
	p := pkgOfName(name)
	return !strings.Contains(strings.SplitN(p, "/", 2)[0], ".") && !strings.HasPrefix(p, "egts")
}

// textFunction: a library function whose result is made of its arguments.
func textFunction(name string) bool {
	if !stdlib(name) {
		return false
	}
	p := pkgOfName(name)
	for _, x := range []string{"fmt", "strings", "strconv", "bytes", "errors", "net/url", "net", "encoding", "encoding/json", "encoding/hex", "encoding/base64", "unicode/utf8", "bufio", "text/template", "html", "path", "regexp", "io", "slices", "maps", "sort", "reflect"} {
		if p == x {
			return !strings.HasSuffix(name, ".Redacted")
		}
	}
	return false
}

// givesText: the first result is a text or a slice.
func givesText(v *Val) bool {
	if v == nil || v.isBool || len(v.alts) == 0 {
		return false
	}
	if l := v.alts[0].l; l.kind == KTuple {
		return len(l.fields) > 0 && givesText(l.fields[0])
	}
	for _, a := range v.alts {
		if a.l.kind == KStr || a.l.kind == KSlice {
			return true
		}
	}
	return false
}

// ---- queries and destinations ----

func checkDestinations(r *Report) {
	eachPlugin(r, "plugin", func(p *pluginRun) {
		where := r.w.posStr(p.saveFn.Pos())
		t := &taint{an: p.an, ints: true, bad: func(n string) bool {
			n = strings.TrimLeft(n, "*")
			return strings.HasPrefix(n, "record") || strings.Contains(n, ".ToBytes@")
		}, calls: func(e *Event) bool { return textFunction(e.name) || givesText(e.res) }}
		t.propagate(p.save)
		pubs := publishers[p.name](p)
		n := 0
		for _, e := range p.save {
			if e.kind != "ext" || !E.feasible(e.g) {
				continue
			}
			if stdlib(e.name) {
				switch pkgOfName(e.name) {
				case "database/sql", "os", "net", "net/http":
				default:
					continue
				}
			}
			if strings.HasPrefix(e.name, "invoke ") && strings.HasSuffix(e.name, ".ToBytes") {
				continue
			}
			n++
			bound := len(e.args)
			if strings.HasPrefix(e.name, "(*database/sql.") {
				bound-- // the values bound to the statement
			}
			if e.recv != nil && !e.recv.isBool && len(e.recv.alts) == 0 {
				continue
			}
			for i, a := range e.args {
				if i >= bound {
					break
				}
				load := false
				for _, x := range pubs {
					if x.e == e && x.payload != nil && (unwrap(a, e.g) == x.payload || !x.payload.isBool && len(x.payload.alts) > 0 && x.payload.alts[0].l.kind == KStr && eqUnder(e.g, unwrap(a, e.g), x.payload)) {
						load = true
					}
				}
				if load {
					continue
				}
				t.seen = map[string]bool{}
				s := t.walk(a, e.st, e.g, texts, 0)
				r.add("only the payload holds the record", fmt.Sprintf("%s: argument %d of %s at %s", p.name, i, short(e.name), p.where(e)), s == "", p.where(e), "the argument is made from the record ("+s+")")
			}
		}
		r.add("the record is handed to a library", p.name, n > 0, where, "no library call in Save")
		// nothing of the record stays in the plugin
		t.seen = map[string]bool{}
		s := t.walk(p.recv, p.st, p.st.g, texts, 0)
		r.add("the plugin keeps no text of a record", p.name, s == "", where, "after Save the plugin holds "+s)
	})
}

// ---- credentials ----

var secretKeys = []string{"pass", "secret", "token", "pwd", "credential"}

func secretKey(k string) bool {
	k = strings.ToLower(k)
	for _, s := range secretKeys {
		if strings.Contains(k, s) {
			return true
		}
	}
	return false
}

// secretName: the name is that of a secret setting, or of a whole section.
func secretName(n string, maps ...string) bool {
	n = strings.TrimLeft(n, "*")
	for _, m := range maps {
		if n == m {
			return true
		}
		for rest := n; ; {
			i := strings.Index(rest, m)
			if i < 0 {
				break
			}
			rest = rest[i+len(m):]
			for strings.HasPrefix(rest, `["`) {
				j := strings.Index(rest, `"]`)
				if j < 0 {
					break
				}
				if secretKey(rest[2:j]) {
					return true
				}
				rest = rest[j+2:]
			}
		}
	}
	return false
}

// messages checks everything that an analysis writes or puts into errors.
func (t *taint) messages(r *Report, events []*Event) {
	for _, e := range events {
		if !E.feasible(e.g) {
			continue
		}
		args := e.args
		switch e.kind {
		case "log", "errtext", "exit":
		case "ext":
			n := e.name
			p := pkgOfName(n)
			if !(p == "log" || p == "log/slog" || strings.HasSuffix(p, "/logrus") || strings.HasSuffix(p, "errors") && p != "errors" || strings.HasPrefix(n, "(*os.File).Write") || n == "errors.Join") {
				continue
			}
		case "panic":
		default:
			continue
		}
		t.seen = map[string]bool{}
		var vs []*Val
		for _, a := range args {
			if !a.isBool && len(a.alts) == 1 && a.alts[0].l.kind == KSlice {
				// the values of a variadic call are printed one by one
				if es, ok := seqBytes(e.st.sliceSeqG(a, e.g)); ok && isAnySlice(a) {
					vs = append(vs, es...)
					continue
				}
			}
			vs = append(vs, a)
		}
		s := t.any(vs, e.st, e.g, printed)
		w := r.w.posStr(e.pos)
		r.add("no secret in a message", short(e.name)+" at "+w, s == "", w, "the message holds "+s)
	}
}

func isAnySlice(a *Val) bool {
	l := a.alts[0].l
	return types.IsInterface(elemOf(pathType(l.obj.typ, l.path)))
}

func rangeSecrets(an *Analysis, over string) map[string]bool {
	out := map[string]bool{}
	for _, x := range an.ranges {
		if x.val == nil || x.over == nil || x.over.isBool {
			continue
		}
		for _, a := range x.over.alts {
			if strings.TrimPrefix(a.l.op, "sym:") != over {
				continue
			}
			w := newWalker(nil)
			w.val(x.val, T)
			for n := range w.names {
				out[n] = true
			}
		}
	}
	return out
}

func checkSecrets(r *Report) {
	text := func(e *Event) bool { return textFunction(e.name) }
	eachPlugin(r, "plugin", func(p *pluginRun) {
		rs := rangeSecrets(p.an, "cfg")
		t := &taint{an: p.an, calls: text, bad: func(n string) bool { return secretName(n, "cfg") || rs[n] }}
		t.propagate(p.an.events)
		t.messages(r, p.an.events)
		r.add("the plugin was analysed", p.name, true, "", "")
	})
	r.sub("selection", "Repository.LoadStorages", func() *Analysis {
		s := runSelection(r)
		sections := map[string]bool{}
		for _, x := range s.an.ranges {
			if x.val != nil {
				w := newWalker(nil)
				w.val(x.val, T)
				for n := range w.names {
					sections[strings.TrimPrefix(n, "sym:")] = true
				}
			}
		}
		t := &taint{an: s.an, calls: text, bad: func(n string) bool {
			if strings.TrimLeft(n, "*") == "storages" || sections[n] {
				return true
			}
			for k := range sections {
				if secretName(n, k) {
					return true
				}
			}
			return secretName(n, "storages")
		}}
		t.propagate(s.an.events)
		t.messages(r, s.an.events)
		r.add("the selection was analysed", "LoadStorages", true, "", "")
		return s.an
	})
	r.sub("configuration", "config.New", func() *Analysis {
		x := settingsOf(r, false)
		an := start(r.w)
		fn := x.sp.Func("New")
		an.call(fn, []*Val{mkSym(param(fn, 0).Type(), "path")}, nil, newState(), "")
		t := &taint{an: an, calls: text, bad: func(n string) bool {
			return strings.Contains(n, "ReadFile@") && !strings.Contains(n, "#1") || strings.Contains(n, "."+x.s.Field(x.f["storage"]).Name()) || strings.Contains(n, "ReadAll@")
		}}
		t.propagate(an.events)
		t.messages(r, an.events)
		r.add("reading was analysed", "config.New", true, "", "")
		return an
	})
	r.sub("start", "main", func() *Analysis {
		m := runMain(r)
		store := m.x.s.Field(m.x.f["storage"]).Name()
		t := &taint{an: m.an, calls: text, bad: func(n string) bool {
			return secretName(n, "settings."+store) || strings.HasPrefix(strings.TrimLeft(n, "*"), "settings."+store)
		}}
		t.propagate(m.an.events)
		t.messages(r, m.an.events)
		r.add("the start was analysed", "main", true, "", "")
		return m.an
	})
	r.sub("handler", "connection handler", func() *Analysis {
		hr := runHandler(r)
		auth := hr.egts.Type("SrAuthInfo")
		if auth == nil {
			fail("no type SrAuthInfo")
		}
		ap := types.NewPointer(auth.Type())
		t := &taint{an: hr.an, calls: text, bad: func(n string) bool {
			return strings.Contains(n, ".("+types.TypeString(ap, nil)+")") || strings.Contains(n, ".(*egts.SrAuthInfo)")
		}}
		t.raw = func(q *Seq) bool {
			for _, it := range q.items {
				if it.k == ISub && strings.HasPrefix(it.src.name, "read@") && !(it.n.isConst() && it.n.c <= 16) {
					return true
				}
			}
			return false
		}
		t.objs = func(l *Leaf, g B) string {
			switch l.kind {
			case KPtr:
				if types.Identical(pathType(l.obj.typ, l.path), auth.Type()) {
					return "authentication data"
				}
			case KTerm:
				if l.typ == nil || !types.IsInterface(l.typ) {
					return ""
				}
				it := l.typ.Underlying().(*types.Interface)
				if it.NumMethods() > 0 && types.Implements(ap, it) && !types.Identical(l.typ, types.Universe.Lookup("error").Type()) && E.feasible(E.And(g, tagIs(l, ap))) {
					return "data that may be authentication data"
				}
			}
			return ""
		}
		t.propagate(hr.an.events)
		t.messages(r, hr.an.events)
		r.add("the handler was analysed", hr.fn.Name(), true, "", "")
		return hr.an
	})
	p := r.w.pkg("libs/egts")
	for _, typ := range []string{"Package", "ServiceDataSet", "RecordDataSet", "SrAuthInfo"} {
		typ := typ
		r.sub("decoder", typ+".Decode", func() *Analysis {
			an, fn, in, _, _ := decodeAny(r, p, typ)
			t := &taint{an: an, calls: text, bad: func(n string) bool { return strings.HasPrefix(strings.TrimLeft(n, "*"), "p1") }}
			if typ == "RecordDataSet" {
				// the data of a sub-record of another type
				t.okay = func(it Item, g B) bool {
					srt := seqIndexV(in, vInt(E.addLin(it.off, 1, E.konst(-3), 1)), g, u8)
					return never(g, eqConst(srt, 7))
				}
			}
			t.propagate(an.events)
			t.messages(r, an.events)
			r.add("the decoder was analysed", typ, true, r.w.posStr(fn.Pos()), "")
			return an
		})
	}
	r.sub("encoder", "SrAuthInfo.Encode", func() *Analysis {
		var fn *ssa.Function = r.w.method(p, "SrAuthInfo", "Encode")
		an := start(r.w)
		codecBoundary(an, "SrAuthInfo")
		an.call(fn, []*Val{mkSym(fn.Params[0].Type(), "p0")}, nil, newState(), "")
		t := &taint{an: an, calls: text, bad: func(n string) bool { return strings.HasPrefix(strings.TrimLeft(n, "*"), "p0") }}
		t.propagate(an.events)
		t.messages(r, an.events)
		r.add("the encoder was analysed", "SrAuthInfo", true, r.w.posStr(fn.Pos()), "")
		return an
	})
}
