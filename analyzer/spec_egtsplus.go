package main

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"fmt"
	"go/constant"
	"go/types"
	"io"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// egtsPlusSchema is a copy of the published message schema of the EGTS+
// section: the reference of C14.
//
//go:embed egtsplus.proto
var egtsPlusSchema string

type protoField struct {
	name, typ, label string
	num              int
}

type protoMessage struct {
	name   string
	fields []protoField
}

type protoValue struct {
	name string
	num  int
}

// readSchema reads the messages and the enumeration of the schema.
func readSchema(text string) (ms []*protoMessage, enum []protoValue) {
	text = regexp.MustCompile(`//.*`).ReplaceAllString(text, "")
	fieldRe := regexp.MustCompile(`^(required|optional|repeated)\s+(\S+)\s+(\w+)\s*=\s*(\d+)\s*;$`)
	valueRe := regexp.MustCompile(`^(\w+)\s*=\s*(\d+)\s*;$`)
	msgRe := regexp.MustCompile(`^message\s+(\w+)$`)
	for _, ln := range strings.Split(text, "\n") {
		ln = strings.TrimSpace(ln)
		if m := msgRe.FindStringSubmatch(ln); m != nil {
			ms = append(ms, &protoMessage{name: m[1]})
		} else if m := fieldRe.FindStringSubmatch(ln); m != nil {
			n, _ := strconv.Atoi(m[4])
			last := ms[len(ms)-1]
			last.fields = append(last.fields, protoField{m[3], strings.TrimPrefix(m[2], "nv."), m[1], n})
		} else if m := valueRe.FindStringSubmatch(ln); m != nil {
			n, _ := strconv.Atoi(m[2])
			enum = append(enum, protoValue{m[1], n})
		}
	}
	return
}

func camel(s string) string {
	out := ""
	for i, p := range strings.Split(s, "_") {
		if p == "" {
			continue
		}
		if i > 0 && p[0] >= '0' && p[0] <= '9' {
			out += "_" + p
			continue
		}
		out += strings.ToUpper(p[:1]) + p[1:]
	}
	return out
}

// scalar kinds: number of the kind in a descriptor, encoding named by a
// struct tag, Go type.
var protoScalars = map[string]struct {
	kind    int
	wire    string
	goKind  types.BasicKind
	isBytes bool
}{
	"float":    {2, "fixed32", types.Float32, false},
	"bool":     {8, "varint", types.Bool, false},
	"bytes":    {12, "bytes", 0, true},
	"uint32":   {13, "varint", types.Uint32, false},
	"fixed32":  {7, "fixed32", types.Uint32, false},
	"sfixed32": {15, "fixed32", types.Int32, false},
	"sint32":   {17, "zigzag32", types.Int32, false},
}

const (
	kindEnum    = 14
	kindMessage = 11
)

// descField is a field as a message descriptor tells it.
type descField struct {
	num, label, kind int
	typ              string
}

// pbFields splits an encoded message into its fields.
func pbFields(b []byte, f func(num int, v uint64, d []byte)) bool {
	uv := func() (uint64, bool) {
		var x uint64
		for i := 0; i < len(b) && i < 10; i++ {
			x |= uint64(b[i]&0x7f) << (7 * uint(i))
			if b[i] < 0x80 {
				b = b[i+1:]
				return x, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		tag, ok := uv()
		if !ok {
			return false
		}
		switch tag & 7 {
		case 0:
			v, ok := uv()
			if !ok {
				return false
			}
			f(int(tag>>3), v, nil)
		case 2:
			n, ok := uv()
			if !ok || n > uint64(len(b)) {
				return false
			}
			f(int(tag>>3), 0, b[:n])
			b = b[n:]
		default:
			return false
		}
	}
	return true
}

// descriptorMessages reads a compressed file descriptor.
func descriptorMessages(gz []byte) ([]map[string]descField, []string, map[string]int, bool) {
	zr, err := gzip.NewReader(bytes.NewReader(gz))
	if err != nil {
		return nil, nil, nil, false
	}
	raw, err := io.ReadAll(zr)
	if err != nil {
		return nil, nil, nil, false
	}
	var ms []map[string]descField
	var names []string
	enum := map[string]int{}
	good := true
	sub := func(b []byte, f func(int, uint64, []byte)) {
		if !pbFields(b, f) {
			good = false
		}
	}
	sub(raw, func(num int, _ uint64, d []byte) {
		if num != 4 {
			return
		}
		m := map[string]descField{}
		name := ""
		sub(d, func(num int, _ uint64, d []byte) {
			switch num {
			case 1:
				name = string(d)
			case 2:
				var f descField
				fname := ""
				sub(d, func(num int, v uint64, d []byte) {
					switch num {
					case 1:
						fname = string(d)
					case 3:
						f.num = int(v)
					case 4:
						f.label = int(v)
					case 5:
						f.kind = int(v)
					case 6:
						f.typ = string(d)
					}
				})
				m[fname] = f
			case 4:
				sub(d, func(num int, _ uint64, d []byte) {
					if num != 2 {
						return
					}
					n, x := "", 0
					sub(d, func(num int, v uint64, d []byte) {
						if num == 1 {
							n = string(d)
						} else if num == 2 {
							x = int(v)
						}
					})
					enum[n] = x
				})
			}
		})
		ms, names = append(ms, m), append(names, name)
	})
	return ms, names, enum, good
}

// constBytes are the bytes of a slice whose content is constant.
func constBytes(st *State, v *Val) ([]byte, bool) {
	es, ok := seqBytes(st.sliceSeq(v))
	if !ok {
		return nil, false
	}
	out := make([]byte, len(es))
	for i, e := range es {
		c, ok := constInt(e)
		if !ok {
			return nil, false
		}
		out[i] = byte(c)
	}
	return out, true
}

// descriptorOf evaluates a method that returns the compressed file descriptor
// and the path of the type in it.
func descriptorOf(r *Report, an *Analysis, fn *ssa.Function) (gz []byte, path []int, ok bool) {
	st := newState()
	var args []*Val
	for _, p := range fn.Params {
		if types.IsInterface(p.Type()) {
			return nil, nil, false
		}
		args = append(args, mkSym(p.Type(), "p0"))
	}
	ret := an.call(fn, args, nil, st, "")
	if len(ret.alts) != 1 || ret.alts[0].l.kind != KTuple || len(ret.alts[0].l.fields) != 2 {
		return nil, nil, false
	}
	fs := ret.alts[0].l.fields
	gz, ok = constBytes(st, fs[0])
	if !ok {
		return nil, nil, false
	}
	es, ok := seqBytes(st.sliceSeq(fs[1]))
	if !ok {
		return nil, nil, false
	}
	for _, e := range es {
		c, ok := constInt(e)
		if !ok {
			return nil, nil, false
		}
		path = append(path, int(c))
	}
	return gz, path, true
}

// checkEgtsPlus decides that the types of the EGTS+ section are those of the
// published schema and that its methods hand the section to the library whole.
func checkEgtsPlus(r *Report) {
	p := r.w.pkg("libs/egts")
	ms, enum := readSchema(egtsPlusSchema)
	isMsg := map[string]bool{}
	for _, m := range ms {
		isMsg[m.name] = true
	}
	for _, m := range ms {
		m := m
		goName := camel(m.name)
		if m.name == "storage_record" {
			goName = "StorageRecord"
		}
		r.sub("message", m.name, func() *Analysis { return checkMessage(r, p, m, goName, isMsg) })
	}
	r.sub("enumeration", "storage_record.reason", func() *Analysis { return checkReasons(r, p, enum) })
	checkEgtsPlusCodec(r, p)
}

func goTypeOf(f protoField, t types.Type, isMsg map[string]bool) bool {
	t = types.Unalias(t)
	if isMsg[f.typ] || f.typ == "reason" {
		s, ok := t.(*types.Slice)
		if f.label != "repeated" {
			return false
		}
		if !ok {
			return false
		}
		e := types.Unalias(s.Elem())
		want := "StorageRecordReason"
		if isMsg[f.typ] {
			pt, ok := e.(*types.Pointer)
			if !ok {
				return false
			}
			e, want = types.Unalias(pt.Elem()), camel(f.typ)
		}
		nt, ok := e.(*types.Named)
		return ok && nt.Obj().Name() == want
	}
	sc := protoScalars[f.typ]
	if sc.isBytes {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := types.Unalias(pt.Elem()).(*types.Basic)
	return ok && b.Kind() == sc.goKind
}

func checkMessage(r *Report, p *ssa.Package, m *protoMessage, goName string, isMsg map[string]bool) *Analysis {
	tm := p.Type(goName)
	if tm == nil {
		fail("no type " + goName)
	}
	nt, ok := types.Unalias(tm.Type()).(*types.Named)
	if !ok {
		fail(goName + " is no struct")
	}
	str, ok := nt.Underlying().(*types.Struct)
	if !ok {
		fail(goName + " is no struct")
	}
	where := r.w.posStr(tm.Pos())
	for _, own := range []string{"Marshal", "Unmarshal", "MarshalTo", "Merge", "XXX_Marshal", "XXX_Unmarshal"} {
		if r.w.method(p, goName, own) != nil {
			fail(goName + " brings its own " + own)
		}
	}
	an := start(r.w)
	labels := map[string]int{"optional": 1, "required": 2, "repeated": 3}
	// what the library reads the layout from: the descriptor, if there is one,
	// with the struct tags telling which field is which number
	var desc map[string]descField
	if fn := r.w.method(p, goName, "Descriptor"); fn != nil {
		gz, path, ok := descriptorOf(r, an, fn)
		if !ok {
			fail("the descriptor of " + goName + " is not constant")
		}
		dm, names, _, ok := descriptorMessages(gz)
		if !ok || len(path) != 1 || path[0] < 0 || path[0] >= len(dm) {
			r.add("the descriptor is the message's", m.name, false, r.w.posStr(fn.Pos()), "the descriptor does not name a message of the schema")
			return an
		}
		r.add("the descriptor is the message's", m.name, names[path[0]] == m.name, r.w.posStr(fn.Pos()), "the descriptor is the one of "+names[path[0]])
		desc = dm[path[0]]
	}
	byNum := map[int][]int{}
	for i := 0; i < str.NumFields(); i++ {
		if tag := tagOf(str.Tag(i), "protobuf"); tag != "" {
			parts := strings.Split(tag, ",")
			for _, x := range parts {
				if n, err := strconv.Atoi(x); err == nil {
					byNum[n] = append(byNum[n], i)
					break
				}
			}
		}
	}
	unknown := false
	for i := 0; i < str.NumFields(); i++ {
		if n := str.Field(i).Name(); n == "XXX_unrecognized" || n == "unknownFields" {
			unknown = true
		}
	}
	checkReset(r, an, p, goName, m.name)
	r.add("fields the schema does not know are kept", m.name, unknown, where, "there is no field that keeps them")
	for _, f := range m.fields {
		c := m.name + "." + f.name
		i := fieldIndex(str, camel(f.name))
		if i < 0 {
			r.add("the field exists", c, false, where, "no field "+camel(f.name))
			continue
		}
		fw := r.w.posStr(str.Field(i).Pos())
		ids := byNum[f.num]
		r.add("the field has the number of the schema", c, len(ids) == 1 && ids[0] == i, fw, fmt.Sprint("not (alone) under number ", f.num))
		r.add("the field has the type of the schema", c, goTypeOf(f, str.Field(i).Type(), isMsg), fw, "the Go type does not hold a "+f.label+" "+f.typ)
		if desc != nil {
			d, ok := desc[f.name]
			kind, typ := protoScalars[f.typ].kind, ""
			if isMsg[f.typ] {
				kind, typ = kindMessage, ".nv."+f.typ
			} else if f.typ == "reason" {
				kind, typ = kindEnum, ".nv.storage_record.reason"
			}
			r.add("the descriptor tells number, kind and label of the schema", c, ok && d.num == f.num && d.kind == kind && d.label == labels[f.label] && d.typ == typ, fw, "the descriptor differs")
		} else {
			parts := strings.Split(tagOf(str.Tag(i), "protobuf"), ",")
			wire := protoScalars[f.typ].wire
			if isMsg[f.typ] {
				wire = "bytes"
			} else if f.typ == "reason" {
				wire = "varint"
			}
			lb := map[string]string{"optional": "opt", "required": "req", "repeated": "rep"}[f.label]
			okTag := len(parts) > 2 && parts[0] == wire && parts[2] == lb
			for _, x := range parts {
				if x == "packed" || x == "proto3" || strings.HasPrefix(x, "def=") {
					okTag = false
				}
			}
			r.add("the tag tells kind and label of the schema", c, okTag, fw, "the tag differs")
		}
		checkGetter(r, an, p, goName, c, str, i)
	}
	return an
}

func tagOf(tag, key string) string {
	return structTag(tag).get(key)
}

type structTag string

func (t structTag) get(key string) string {
	m := regexp.MustCompile(`(?:^|\s)` + key + `:("(?:[^"\\]|\\.)*")`).FindStringSubmatch(string(t))
	if m == nil {
		return ""
	}
	s, err := strconv.Unquote(m[1])
	if err != nil {
		return ""
	}
	return s
}

// checkReset: the library empties a message before it decodes into it; nothing
// of its former content may stay.
func checkReset(r *Report, an *Analysis, p *ssa.Package, goName, c string) {
	fn := r.w.method(p, goName, "Reset")
	if fn == nil || len(fn.Params) != 1 {
		fail("no method Reset of " + goName)
	}
	t := p.Type(goName).Type()
	st := newState()
	o := symObj("used message:"+c, t)
	an.call(fn, []*Val{vPtr(o)}, nil, st, "")
	r.add("decoding starts from an empty message", c, st.g == T && eqUnder(T, st.load(vPtr(o), t), zeroVal(t)), r.w.posStr(fn.Pos()), "Reset keeps values")
}

// checkGetter: the accessor yields the value of its own field, and the zero
// value for an absent field or an absent message; it never panics.
func checkGetter(r *Report, an *Analysis, p *ssa.Package, goName, c string, str *types.Struct, i int) {
	fn := r.w.method(p, goName, "Get"+str.Field(i).Name())
	if fn == nil {
		return
	}
	where := r.w.posStr(fn.Pos())
	if len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		fail("unexpected accessor " + fn.String())
	}
	rt := fn.Signature.Results().At(0).Type()
	ft := str.Field(i).Type()
	pt, isPtr := ft.Underlying().(*types.Pointer)
	if isPtr != !types.Identical(rt, ft) || isPtr && !types.Identical(rt, pt.Elem()) {
		r.add("the accessor yields its field", c, false, where, "the accessor has another type than the field")
		return
	}
	run := func(nilField, nilMsg bool) (*Val, *Val, *State, B) {
		st := newState()
		o := symObj("message:"+c, p.Type(goName).Type())
		recv := vPtr(o)
		want := zeroVal(rt)
		if nilMsg {
			recv = vNil()
		} else {
			if nilField {
				st.store(vPtr(o, PE{field: i}), zeroVal(ft))
			}
			v := st.load(vPtr(o, PE{field: i}), ft)
			if isPtr && !nilField {
				v = st.load(v, rt)
			}
			if !isPtr || !nilField {
				want = v
			}
		}
		n := len(an.events)
		ret := an.call(fn, []*Val{recv}, nil, st, "")
		bad := F
		for _, e := range an.events[n:] {
			if f := E.Diff(e.g, e.cond); e.kind == "oblig" && E.feasible(f) {
				bad = E.Or(bad, f)
			}
		}
		return ret, want, st, bad
	}
	for _, k := range []struct {
		what          string
		nilField, msg bool
	}{{"a present field", false, false}, {"an absent field", true, false}, {"an absent message", true, true}} {
		ret, want, st, bad := run(k.nilField, k.msg)
		if k.nilField && !k.msg && !isPtr {
			// an empty list may be nil or not
			r.add("the accessor yields its field", c, bad == F && !E.feasible(E.Not(cmpGE(vConst(0), sliceLen(ret), st.g))), where, "another value for "+k.what)
			continue
		}
		if k.msg && !isPtr {
			r.add("the accessor yields its field", c, bad == F && !E.feasible(E.Not(cmpGE(vConst(0), sliceLen(ret), st.g))), where, "another value for "+k.what)
			continue
		}
		r.add("the accessor yields its field", c, bad == F && st.g == T && eqUnder(T, ret, want), where, "another value for "+k.what)
	}
}

// checkReasons: constants and name tables of the enumeration.
func checkReasons(r *Report, p *ssa.Package, enum []protoValue) *Analysis {
	an := start(r.w)
	st := newState()
	tm := p.Type("StorageRecordReason")
	if tm == nil {
		fail("no type StorageRecordReason")
	}
	if fn := r.w.method(p, "StorageRecordReason", "EnumDescriptor"); fn != nil {
		gz, path, ok := descriptorOf(r, an, fn)
		if !ok {
			fail("the descriptor of the enumeration is not constant")
		}
		_, names, vals, ok := descriptorMessages(gz)
		good := ok && len(path) == 2 && path[0] >= 0 && path[0] < len(names) && names[path[0]] == "storage_record" && path[1] == 0 && len(vals) == len(enum)
		for _, v := range enum {
			good = good && vals[v.name] == v.num
		}
		r.add("the descriptor is the enumeration's", "storage_record.reason", good, r.w.posStr(fn.Pos()), "the descriptor differs from the schema")
	}
	table := func(name string) *Val {
		g, ok := p.Members[name].(*ssa.Global)
		if !ok {
			return nil
		}
		if r.w.mutable(g) {
			fail("the table " + name + " is changed")
		}
		return st.load(vPtr(r.w.globalObj(g)), g.Type().Underlying().(*types.Pointer).Elem())
	}
	deref := func(m *Val) *Val {
		if m != nil && len(m.alts) == 1 && m.alts[0].l.kind == KPtr {
			return st.load(m, m.alts[0].l.obj.typ)
		}
		return m
	}
	names, values := deref(table("StorageRecordReason_name")), deref(table("StorageRecordReason_value"))
	for _, v := range enum {
		c := "storage_record.reason." + v.name
		k, ok := p.Members["StorageRecord_"+v.name].(*ssa.NamedConst)
		if ok {
			x, exact := constant.Int64Val(k.Value.Value)
			r.add("the constant has the number of the schema", c, exact && x == int64(v.num), r.w.posStr(k.Pos()), "another number")
		} else {
			r.add("the constant has the number of the schema", c, false, r.w.posStr(tm.Pos()), "no such constant")
		}
		if names != nil {
			got, has := mapGet(names, vConst(int64(v.num)), types.Typ[types.String], st)
			s, ok := constStr(got)
			r.add("the number has the name of the schema", c, has == T && ok && s == v.name, r.w.posStr(tm.Pos()), "another name or none")
		}
		if values != nil {
			got, has := mapGet(values, vStr(v.name), types.Typ[types.Int32], st)
			x, ok := constInt(got)
			r.add("the name has the number of the schema", c, has == T && ok && x == int64(v.num), r.w.posStr(tm.Pos()), "another number or none")
		}
	}
	return an
}

// checkEgtsPlusCodec: all bytes go to the library, its result and its error
// come back unchanged, and the length is that of the encoding.
func checkEgtsPlusCodec(r *Report, p *ssa.Package) {
	const typ = "StorageRecord"
	lib := func(name string) bool {
		return strings.HasPrefix(name, "github.com/golang/protobuf/proto.") || strings.HasPrefix(name, "google.golang.org/protobuf/proto.")
	}
	is := func(v *Val, o *Obj) bool {
		if len(v.alts) != 1 {
			return false
		}
		l := v.alts[0].l
		if l.kind == KIface && len(l.val.alts) == 1 {
			l = l.val.alts[0].l
		}
		return l.kind == KPtr && l.obj == o && len(l.path) == 0
	}
	calls := func(an *Analysis, suffix ...string) (out []*Event) {
		for _, e := range an.events {
			if e.kind != "ext" || !lib(e.name) {
				continue
			}
			for _, s := range suffix {
				if strings.HasSuffix(e.name, s) {
					out = append(out, e)
				}
			}
		}
		return
	}
	r.sub("decoding", typ, func() *Analysis {
		sr := runDecode(r, p, typ, nil)
		an, where := sr.an, r.w.posStr(sr.fn.Pos())
		o := sr.recv.alts[0].l.obj
		es := calls(an, "/proto.Unmarshal")
		if len(es) == 0 {
			fail("the section is not decoded by the protocol buffer library")
		}
		all := F
		for _, e := range es {
			r.add("all bytes are decoded into the receiver", typ+".Decode", is(e.args[1], o) && seqEqUnder(e.g, sr.pre.sliceSeq(e.args[0]), sr.in), r.w.posStr(e.pos), "not the whole section, or not into the receiver")
			all = E.Or(all, e.g)
			r.add("an error of the library is returned", typ+".Decode", !E.feasible(E.And(E.And(sr.ok, e.g), E.Not(errNil(e.res)))), where, "success although the library failed")
			if len(es) == 1 {
				r.add("what the library decodes is accepted", typ+".Decode", !E.feasible(E.And(E.And(sr.fail, e.g), errNil(e.res))), where, "an error although the library succeeded")
			}
		}
		r.add("every section is decoded", typ+".Decode", !E.feasible(E.Diff(sr.ok, all)), where, "success without decoding")
		if len(es) == 1 && es[0].after != nil {
			g := E.And(sr.ok, es[0].g)
			r.add("the decoded values stay as they are", typ+".Decode", eqUnder(g, sr.st.content(o), es[0].after.content(o)), where, "the decoded section is changed afterwards")
		}
		return an
	})
	r.sub("encoding", typ, func() *Analysis {
		fn := r.w.method(p, typ, "Encode")
		if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
			fail("no method Encode() ([]byte, error)")
		}
		an := start(r.w)
		st := newState()
		recv := mkSym(fn.Params[0].Type(), "p0")
		o := recv.alts[0].l.obj
		pre := st.clone()
		ret := an.call(fn, []*Val{recv}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		out, err := tupleField(ret, 0, fn.Signature.Results().At(0).Type()), tupleField(ret, 1, fn.Signature.Results().At(1).Type())
		ok := E.And(st.g, errNil(err))
		es := calls(an, "/proto.Marshal")
		if len(es) == 0 {
			fail("the section is not encoded by the protocol buffer library")
		}
		all := F
		for _, e := range es {
			all = E.Or(all, e.g)
			same := is(e.args[0], o) && eqUnder(e.g, e.st.content(o), pre.content(o))
			r.add("the whole section is encoded", typ+".Encode", same, r.w.posStr(e.pos), "not the receiver as it was given")
			lout, lerr := tupleField(e.res, 0, fn.Signature.Results().At(0).Type()), tupleField(e.res, 1, fn.Signature.Results().At(1).Type())
			r.add("an error of the library is returned", typ+".Encode", !E.feasible(E.And(E.And(ok, e.g), E.Not(errNil(lerr)))), where, "success although the library failed")
			if len(es) == 1 {
				r.add("what the library encodes is returned", typ+".Encode", !E.feasible(E.And(E.Diff(st.g, ok), E.And(e.g, errNil(lerr)))), where, "an error although the library succeeded")
			}
			g := E.And(ok, e.g)
			r.add("the bytes of the library are returned", typ+".Encode", seqEqUnder(g, st.sliceSeqG(out, g), e.after.sliceSeqG(lout, g)), where, "other bytes are returned")
		}
		r.add("every section is encoded", typ+".Encode", !E.feasible(E.Diff(ok, all)), where, "success without encoding")
		return an
	})
	r.sub("length", typ, func() *Analysis {
		fn := r.w.method(p, typ, "Length")
		if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			fail("no method Length() uint16")
		}
		an := start(r.w)
		st := newState()
		recv := mkSym(fn.Params[0].Type(), "p0")
		o := recv.alts[0].l.obj
		ret := an.call(fn, []*Val{recv}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		all := F
		for _, e := range calls(an, "/proto.Marshal", "/proto.Size") {
			var n *Val
			g := e.g
			if strings.HasSuffix(e.name, ".Size") {
				n = e.res
			} else {
				g = E.And(g, errNil(tupleField(e.res, 1, types.Universe.Lookup("error").Type())))
				n = sliceLen(tupleField(e.res, 0, types.NewSlice(types.Typ[types.Uint8])))
			}
			r.add("the section itself is measured", typ+".Length", is(e.args[0], o), r.w.posStr(e.pos), "not the receiver")
			all = E.Or(all, g)
			want := wrapInt(n, types.Typ[types.Uint16], g)
			r.add("the length is that of the encoding", typ+".Length", eqUnder(g, ret, want), where, "another number than the length of the encoded section")
			all = E.Or(all, E.Diff(e.g, g))
		}
		r.add("every section is measured", typ+".Length", !E.feasible(E.Diff(st.g, all)), where, "a length without looking at the section")
		return an
	})
}
