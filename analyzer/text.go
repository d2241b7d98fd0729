package main

import (
	"fmt"
	"go/types"
)

// Texts made from other texts by library functions: the result is an unknown
// text that remembers how it was made.

type derived struct {
	op   string
	args []*Val
}

// derivedText is the text op(args).
func derivedText(op string, args ...*Val) *Val {
	v := symStr(op + "(" + ids(args) + ")")
	v.alts[0].l.seq.items[0].src.der = &derived{op, args}
	return v
}

// decimalText is the decimal notation of x.
func decimalText(c *Call, x *Val) *Val {
	if k, ok := constInt(prune(x, c.st.g)); ok {
		return vStr(fmt.Sprint(k))
	}
	if q := digitText(c, x, 9); q != nil {
		return q
	}
	return derivedText("decimal", x)
}

// digitText is the digit of a number from 0 to hi.
func digitText(c *Call, x *Val, hi int64) *Val {
	x = prune(x, c.st.g)
	if x.isBool {
		return nil
	}
	for _, a := range x.alts {
		if a.l.kind != KInt {
			return nil
		}
		if l, h := E.rangeOf(a.l.lin); l < 0 || h > hi {
			return nil
		}
	}
	if hi == 1 || !E.feasible(E.Diff(c.st.g, cmpGE(vConst(1), x, c.st.g))) {
		return vStrSeq(mkSeq([]Item{bitChar(bitsOf(x, 1, c.st.g)[0])}))
	}
	return vStrSeq(mkSeq([]Item{{g: T, k: IVal, val: intAdd(x, vConst('0'), 1)}}))
}

// asDerived recognises a text that was made by a library function.
func asDerived(q *Seq) *derived {
	if q == nil || len(q.items) != 1 {
		return nil
	}
	it := q.items[0]
	if it.k != ISub || it.g != T || it.src.der == nil {
		return nil
	}
	if !it.off.isConst() || it.off.c != 0 {
		return nil
	}
	return it.src.der
}

// guardedText is the text v as one sequence, with the alternatives guarded.
func guardedText(v *Val, g B) *Seq {
	var items []Item
	for _, a := range prune(v, g).alts {
		if a.l.kind != KStr {
			return nil
		}
		if len(v.alts) == 1 {
			return strSeq(a.l)
		}
		items = append(items, seqGuard(strSeq(a.l), a.g)...)
	}
	return mkSeq(items)
}

// unescape undoes the replacements made in a text: the original text and the
// pairs replaced, in the order of application.
func unescape(v *Val) (*Val, [][2]string) {
	if v == nil || v.isBool || len(v.alts) != 1 || v.alts[0].l.kind != KStr {
		return v, nil
	}
	d := asDerived(v.alts[0].l.seq)
	if d == nil || d.op != "replace" {
		return v, nil
	}
	in, ps := unescape(d.args[0])
	for i := 1; i+1 < len(d.args); i += 2 {
		a, ok1 := constStr(d.args[i])
		b, ok2 := constStr(d.args[i+1])
		if !ok1 || !ok2 {
			return v, nil
		}
		ps = append(ps, [2]string{a, b})
	}
	return in, ps
}

func textModels(m map[string]model) {
	m["strings.NewReplacer"] = func(c *Call, a []*Val) *Val {
		es, ok := seqBytes(c.st.sliceSeq(a[0]))
		if !ok || len(es)%2 != 0 {
			return c.opaque("strings.NewReplacer", a, nil)
		}
		return one(N.leaf("replacer|"+ids(es), func() *Leaf {
			return &Leaf{kind: KTerm, typ: c.resType(), op: "replacer", args: es, nonNil: true}
		}))
	}
	m["(*strings.Replacer).Replace"] = func(c *Call, a []*Val) *Val {
		x := prune(a[0], c.st.g)
		if len(x.alts) == 1 && x.alts[0].l.op == "replacer" {
			return derivedText("replace", append([]*Val{a[1]}, x.alts[0].l.args...)...)
		}
		return derivedText("replaced@"+c.site(), a...)
	}
	m["strings.ReplaceAll"] = func(c *Call, a []*Val) *Val { return derivedText("replace", a...) }
	m["strings.Replace"] = func(c *Call, a []*Val) *Val {
		if k, ok := constInt(a[3]); ok && k < 0 {
			return derivedText("replace", a[:3]...)
		}
		return derivedText("strings.Replace", a...)
	}
	m["net.JoinHostPort"] = func(c *Call, a []*Val) *Val { return derivedText("hostport", a...) }
	m["strconv.Itoa"] = func(c *Call, a []*Val) *Val {
		return decimalText(c, a[0])
	}
	for _, n := range []string{"FormatInt", "FormatUint"} {
		n := n
		m["strconv."+n] = func(c *Call, a []*Val) *Val {
			if b, ok := constInt(prune(a[1], c.st.g)); ok && b == 10 {
				return decimalText(c, a[0])
			} else if ok && b == 2 {
				if q := digitText(c, a[0], 1); q != nil {
					return q
				}
			}
			return derivedText("strconv."+n, a...)
		}
	}
	m["strings.Join"] = func(c *Call, a []*Val) *Val {
		es, ok := seqBytes(c.st.sliceSeq(a[0]))
		if !ok {
			return derivedText("strings.Join@"+c.site(), a...)
		}
		var items []Item
		sep := guardedText(a[1], c.st.g)
		for i, e := range es {
			q := guardedText(e, c.st.g)
			if q == nil || sep == nil {
				return derivedText("strings.Join@"+c.site(), a...)
			}
			if i > 0 {
				items = append(items, sep.items...)
			}
			items = append(items, q.items...)
		}
		return vStrSeq(mkSeq(items))
	}
}

var stringT = types.Typ[types.String]
