package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// crcStep is one byte of an unreflected CRC, most significant bit first.
func crcStep(reg, by []B, poly uint32) []B {
	w := len(reg)
	reg = append([]B(nil), reg...)
	for i := 0; i < 8; i++ {
		reg[w-8+i] = E.Xor(reg[w-8+i], by[i])
	}
	for k := 0; k < 8; k++ {
		top := reg[w-1]
		next := make([]B, w)
		for i := range next {
			next[i] = F
			if i > 0 {
				next[i] = reg[i-1]
			}
			if poly>>i&1 == 1 {
				next[i] = E.Xor(next[i], top)
			}
		}
		reg = next
	}
	return reg
}

// checkCRC decides that the function is the CRC of all bytes of its input, by
// induction over the loop that walks the input: the register starts with the
// initial value, each iteration takes the next byte and performs the step of
// the standard on all bits, and the register is returned after the last byte.
func checkCRC(r *Report, name string, w int, init int64, poly uint32) {
	p := r.w.pkg("libs/egts")
	r.sub("crc", name, func() *Analysis {
		fn := p.Func(name)
		if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			fail("no function " + name + "([]byte)")
		}
		an := start(r.w)
		st := newState()
		in := mkSym(fn.Params[0].Type(), "p0")
		sr := &sectionRun{an: an, fn: fn, in: st.sliceSeq(in), n: sliceLen(in), pre: st.clone()}
		ret := an.call(fn, []*Val{in}, nil, st, "")
		where := r.w.posStr(fn.Pos())
		if _, _, bits, signed := intRange(fn.Signature.Results().At(0).Type()); bits != w || signed {
			fail(fmt.Sprint("the result is not an unsigned number of ", w, " bits"))
		}
		found := false
		for _, rec := range an.loops {
			if rec.back == nil {
				continue
			}
			g := rec.back.g
			// the bits of the register among the bits the loop carries
			res := bitsOf(ret, w, st.g)
			kept := stateBits(rec)
			var reg, back, start []B
			for i := range res {
				for _, x := range kept {
					if never(st.g, E.Xor(res[i], x.sym)) {
						reg, back, start = append(reg, x.sym), append(back, x.back), append(start, x.init)
						break
					}
				}
				if len(reg) <= i {
					break
				}
			}
			if len(reg) != w {
				continue
			}
			found = true
			r.add("starts with the initial value", name, eqUnder(rec.init.g, vBits(start), vConst(init)), where, "starts with "+valStr(vBits(start)))
			ok, last, d := false, false, "no walk over the input"
			for _, c := range sr.cursors(rec) {
				if !eqUnder(g, c.adv, vConst(1)) {
					d = "the input is not walked byte by byte"
					continue
				}
				by := bitsOf(seqIndex(c.in, E.konst(0), g, u8t), 8, g)
				want := crcStep(reg, by, poly)
				same := true
				for i := range want {
					if !never(g, E.Xor(want[i], back[i])) {
						same = false
						d = fmt.Sprintf("bit %d differs", i)
					}
				}
				if same {
					ok = true
					last = never(st.g, cmpGE(c.n, vConst(1), T)) && never(g, E.Not(cmpGE(c.n, vConst(1), T)))
				}
			}
			r.add("each byte is one step of the standard CRC", name, ok, where, d)
			r.add("ends exactly after the last byte", name, last, where, "the loop ends at another place")
		}
		r.add("the register after the last byte is the result", name, found, where, "no loop variable is returned")
		return an
	})
}

// sums are the checksum functions of the package.
func sums(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range []string{"crc8", "crc16"} {
		if fn := p.Func(n); fn != nil && len(fn.Params) == 1 && fn.Signature.Results().Len() == 1 {
			out = append(out, fn)
		}
	}
	return out
}

// hookSums takes a checksum as an arbitrary number of its width; the
// functions are analysed on their own.
func hookSums(an *Analysis, p *ssa.Package) {
	for _, fn := range sums(p) {
		_, _, w, _ := intRange(fn.Signature.Results().At(0).Type())
		an.hooks[fn.String()] = func(c *Call) *Val {
			return vBits(varBits("checksum@"+c.site(), w))
		}
	}
}

// sumAny analyses a checksum function on an arbitrary input.
func sumAny(r *Report, fn *ssa.Function) (an *Analysis, arg, n *Val, st *State) {
	an = start(r.w)
	st = newState()
	arg = mkSym(fn.Params[0].Type(), "p0")
	n = sliceLen(arg)
	st.sliceSeq(arg)
	an.call(fn, []*Val{arg}, nil, st, "")
	return
}
