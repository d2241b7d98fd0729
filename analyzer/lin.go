package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Linear integer expressions over atoms, and the theory of linear
// inequalities used to discharge guards.

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

type Atom struct {
	id     int
	key    string
	lo, hi int64
	bits   []B    // non-nil: value is sum of bits[i]<<i
	op     string // opaque application
	args   []*Val
}

type LT struct {
	a *Atom
	k int64
}

type Lin struct {
	c  int64
	t  []LT
	id int
}

type varInfo struct {
	name string
	lin  *Lin // bit of an opaque integer
	bit  int
	ge   *Lin // predicate ge >= 0
	tagN string
}

type Engine struct {
	*BDD
	vars     []varInfo
	varIdx   map[string]int
	atoms    map[string]*Atom
	atomL    []*Atom
	lins     map[string]*Lin
	linL     []*Lin
	facts    []*Lin
	factSet  map[int]bool
	lemmas   []lemma
	lemmaBy  map[int32][]int
	geDirs   map[string][]int32
	feasMemo map[B]bool
	nfacts   int
}

type lemma struct {
	b  B
	vs []int32
}

var E *Engine

func newEngine() *Engine {
	return &Engine{BDD: newBDD(), varIdx: map[string]int{}, atoms: map[string]*Atom{}, lins: map[string]*Lin{},
		factSet: map[int]bool{}, lemmaBy: map[int32][]int{}, geDirs: map[string][]int32{}, feasMemo: map[B]bool{}}
}

func (e *Engine) newVar(name string) B {
	if i, ok := e.varIdx[name]; ok {
		return e.Var(i)
	}
	i := len(e.vars)
	e.vars = append(e.vars, varInfo{name: name})
	e.varIdx[name] = i
	return e.Var(i)
}

func (e *Engine) varName(v int32) string { return e.vars[v].name }

func (e *Engine) atom(key string, lo, hi int64) *Atom {
	if a, ok := e.atoms[key]; ok {
		return a
	}
	a := &Atom{id: len(e.atomL), key: key, lo: lo, hi: hi}
	e.atoms[key] = a
	e.atomL = append(e.atomL, a)
	return a
}

func (e *Engine) appAtom(op string, lo, hi int64, args ...*Val) *Lin {
	key := op + "("
	for i, a := range args {
		if i > 0 {
			key += ","
		}
		key += fmt.Sprint("v", a.id)
	}
	key += ")"
	a := e.atom(key, lo, hi)
	a.op, a.args = op, args
	return e.linAtom(a)
}

func (e *Engine) mkLin(c int64, t []LT) *Lin {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", c)
	for _, x := range t {
		fmt.Fprintf(&sb, ",%d*%d", x.k, x.a.id)
	}
	k := sb.String()
	if l, ok := e.lins[k]; ok {
		return l
	}
	l := &Lin{c: c, t: t, id: len(e.linL)}
	e.lins[k] = l
	e.linL = append(e.linL, l)
	return l
}

func (e *Engine) konst(c int64) *Lin { return e.mkLin(c, nil) }

func (e *Engine) linAtom(a *Atom) *Lin { return e.mkLin(0, []LT{{a, 1}}) }

func (l *Lin) isConst() bool { return len(l.t) == 0 }

func (e *Engine) addLin(a *Lin, ka int64, b *Lin, kb int64) *Lin {
	m := map[*Atom]int64{}
	for _, x := range a.t {
		m[x.a] += mulSat(x.k, ka)
	}
	for _, x := range b.t {
		m[x.a] += mulSat(x.k, kb)
	}
	return e.normLin(addSat(mulSat(a.c, ka), mulSat(b.c, kb)), m)
}

func (e *Engine) scale(a *Lin, k int64) *Lin { return e.addLin(a, k, e.konst(0), 0) }

// normLin merges bit-vector atoms that occupy disjoint bit ranges.
func (e *Engine) normLin(c int64, m map[*Atom]int64) *Lin {
	var t []LT
	var us []LT
	for a, k := range m {
		if k == 0 {
			continue
		}
		if a.bits != nil && k > 0 && k&(k-1) == 0 {
			us = append(us, LT{a, k})
		} else {
			t = append(t, LT{a, k})
		}
	}
	if len(us) > 1 {
		sort.Slice(us, func(i, j int) bool { return us[i].k < us[j].k || us[i].k == us[j].k && us[i].a.id < us[j].a.id })
		var groups []LT
		for _, u := range us {
			sh := log2(u.k)
			done := false
			for gi := range groups {
				g := groups[gi]
				gs := log2(g.k)
				gb := g.a.bits
				ok := true
				w := max(gs+len(gb), sh+len(u.a.bits))
				if w > 62 {
					continue
				}
				comb := make([]B, w)
				for i := range gb {
					comb[gs+i] = gb[i]
				}
				for i, b := range u.a.bits {
					if b == F {
						continue
					}
					if comb[sh+i] != F {
						ok = false
						break
					}
					comb[sh+i] = b
				}
				if ok {
					l := e.fromBitsU(comb)
					// result is k*U
					if len(l.t) == 1 && l.c == 0 {
						groups[gi] = l.t[0]
						done = true
						break
					}
				}
			}
			if !done {
				groups = append(groups, u)
			}
		}
		us = groups
	}
	t = append(t, us...)
	mm := map[*Atom]int64{}
	for _, x := range t {
		mm[x.a] += x.k
	}
	t = t[:0]
	for a, k := range mm {
		if k != 0 {
			t = append(t, LT{a, k})
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].a.id < t[j].a.id })
	return e.mkLin(c, t)
}

func log2(k int64) int {
	n := 0
	for k > 1 {
		k >>= 1
		n++
	}
	return n
}

// fromBitsU is the unsigned value of a bit vector.
func (e *Engine) fromBitsU(bits []B) *Lin {
	var c int64
	rest := make([]B, len(bits))
	n := 0
	for i, b := range bits {
		if b == T {
			if i > 62 {
				// too large for the constant domain: keep opaque
				return e.linAtom(e.bitsAtom(bits))
			}
			c += 1 << i
		} else {
			rest[i] = b
			if b != F {
				n = i + 1
			}
		}
	}
	rest = rest[:n]
	if n == 0 {
		return e.konst(c)
	}
	// exactly the bits of an opaque integer?
	if c == 0 {
		if vi := e.bitVar(rest[0]); vi != nil && vi.lin != nil && vi.bit == 0 {
			l := vi.lin
			lo, hi := e.rangeOf(l)
			ok := lo >= 0 && hi != posInf && (n >= 62 || hi < 1<<n)
			for i := 1; i < n && ok; i++ {
				v := e.bitVar(rest[i])
				ok = v != nil && v.lin == l && v.bit == i
			}
			if ok {
				return l
			}
		}
	}
	sh := 0
	for rest[sh] == F {
		sh++
	}
	a := e.bitsAtom(rest[sh:])
	return e.mkLin(c, []LT{{a, 1 << sh}})
}

func (e *Engine) bitsAtom(bits []B) *Atom {
	key := fmt.Sprint("U", bits)
	if a, ok := e.atoms[key]; ok {
		return a
	}
	hi := int64(posInf)
	if len(bits) < 63 {
		hi = 1<<len(bits) - 1
	}
	a := e.atom(key, 0, hi)
	a.bits = append([]B(nil), bits...)
	return a
}

func (e *Engine) bitVar(b B) *varInfo {
	if b <= T {
		return nil
	}
	n := e.nodes[b]
	if n.lo == F && n.hi == T {
		return &e.vars[n.v]
	}
	return nil
}

func addSat(a, b int64) int64 {
	if a == negInf || b == negInf {
		return negInf
	}
	if a == posInf || b == posInf {
		return posInf
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return posInf
	}
	if a < 0 && b < 0 && s >= 0 {
		return negInf
	}
	return s
}

func mulSat(a, k int64) int64 {
	if a == 0 || k == 0 {
		return 0
	}
	if a == posInf || a == negInf {
		if (a > 0) == (k > 0) {
			return posInf
		}
		return negInf
	}
	p := a * k
	if p/k != a || (a == negInf && k == -1) {
		if (a > 0) == (k > 0) {
			return posInf
		}
		return negInf
	}
	return p
}

func (e *Engine) rangeOf(l *Lin) (int64, int64) {
	lo, hi := l.c, l.c
	for _, x := range l.t {
		if x.k > 0 {
			lo, hi = addSat(lo, mulSat(x.a.lo, x.k)), addSat(hi, mulSat(x.a.hi, x.k))
		} else {
			lo, hi = addSat(lo, mulSat(x.a.hi, x.k)), addSat(hi, mulSat(x.a.lo, x.k))
		}
	}
	return lo, hi
}

// toBits gives the low w bits (two's complement).
func (e *Engine) toBits(l *Lin, w int) []B {
	out := make([]B, w)
	for i := range out {
		if i < 64 && (l.c>>uint(i))&1 == 1 {
			out[i] = T
		}
	}
	if l.isConst() {
		return out
	}
	exact := true
	used := append([]B(nil), out...)
	for _, x := range l.t {
		if x.a.bits == nil || x.k <= 0 || x.k&(x.k-1) != 0 {
			exact = false
			break
		}
		sh := log2(x.k)
		for i, b := range x.a.bits {
			if sh+i < w && b != F {
				if used[sh+i] != F {
					exact = false
				}
				used[sh+i] = b
			}
		}
	}
	if l.c < 0 {
		exact = false
	}
	if exact {
		return used
	}
	// ripple-carry when the support is small
	sup := map[int32]bool{}
	all := true
	for _, x := range l.t {
		if x.a.bits == nil {
			all = false
			break
		}
		for _, b := range x.a.bits {
			for _, v := range e.Support(b) {
				sup[v] = true
			}
		}
	}
	if all && (len(sup) <= 12 || len(l.t) == 1 && len(sup) <= 40) {
		acc := out
		for _, x := range l.t {
			k := x.k
			neg := k < 0
			if neg {
				k = -k
			}
			for j := 0; j < w && j < 63; j++ {
				if k>>uint(j)&1 == 0 {
					continue
				}
				add := make([]B, w)
				for i, b := range x.a.bits {
					if i+j < w {
						add[i+j] = b
					}
				}
				carry := F
				if neg {
					for i := range add {
						add[i] = e.Not(add[i])
					}
					carry = T
				}
				res := make([]B, w)
				for i := 0; i < w; i++ {
					s := e.Xor(acc[i], add[i])
					res[i] = e.Xor(s, carry)
					carry = e.Or(e.And(acc[i], add[i]), e.And(s, carry))
				}
				acc = res
			}
		}
		return acc
	}
	// opaque bits
	lo, hi := e.rangeOf(l)
	for i := 0; i < w; i++ {
		if lo >= 0 && hi != posInf && i < 62 && hi < 1<<i {
			out[i] = F
			continue
		}
		name := fmt.Sprintf("bit%d(L%d)", i, l.id)
		out[i] = e.newVar(name)
		vi := &e.vars[e.varIdx[name]]
		vi.lin, vi.bit = l, i
	}
	return out
}

// bitsGE: unsigned bit vector >= constant
func (e *Engine) bitsGE(bits []B, c int64) B {
	if c <= 0 {
		return T
	}
	if len(bits) < 63 && c >= 1<<len(bits) {
		return F
	}
	r := T // equal so far => >=
	for i := 0; i < len(bits); i++ {
		ci := c>>uint(i)&1 == 1
		if ci {
			r = e.And(bits[i], r)
		} else {
			r = e.Or(bits[i], r)
		}
	}
	return r
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// GE0: l >= 0
func (e *Engine) GE0(l *Lin) B {
	lo, hi := e.rangeOf(l)
	if lo >= 0 {
		return T
	}
	if hi < 0 {
		return F
	}
	if len(l.t) == 1 && l.t[0].a.bits != nil {
		x := l.t[0]
		if x.k > 0 { // U >= ceil(-c/k)
			return e.bitsGE(x.a.bits, -floorDiv(l.c, x.k))
		}
		// U <= floor(c/-k)
		return e.Not(e.bitsGE(x.a.bits, floorDiv(l.c, -x.k)+1))
	}
	// small supports: exact
	if len(l.t) > 1 {
		sup := map[int32]bool{}
		ok := true
		for _, x := range l.t {
			if x.a.bits == nil || x.k > 1<<20 || x.k < -(1<<20) {
				ok = false
				break
			}
			for _, b := range x.a.bits {
				for _, v := range e.Support(b) {
					sup[v] = true
				}
			}
		}
		if ok && len(sup) <= 10 && lo != negInf && hi != posInf {
			bits := e.toBits(l, 48)
			return e.Not(bits[47])
		}
	}
	g := int64(0)
	for _, x := range l.t {
		g = gcd(g, x.k)
	}
	c := floorDiv(l.c, g)
	neg := l.t[0].k < 0
	t := make([]LT, len(l.t))
	for i, x := range l.t {
		t[i] = LT{x.a, x.k / g}
		if neg {
			t[i].k = -t[i].k
		}
	}
	if neg { // D + c >= 0, -D =: P ; -P + c >= 0 <=> !(P - c - 1 >= 0)
		c = -c - 1
	}
	n := e.mkLin(c, t)
	name := fmt.Sprintf("ge0(L%d)", n.id)
	v := e.newVar(name)
	vi := &e.vars[e.varIdx[name]]
	if vi.ge == nil {
		vi.ge = n
		dir := e.mkLin(0, t)
		dk := fmt.Sprint(dir.id)
		idx := int32(e.varIdx[name])
		for _, o := range e.geDirs[dk] {
			oc := e.vars[o].ge.c
			if c < oc { // this is harder: this => other
				e.addLemma(e.Imp(v, e.Var(int(o))))
			} else {
				e.addLemma(e.Imp(e.Var(int(o)), v))
			}
		}
		e.geDirs[dk] = append(e.geDirs[dk], idx)
	}
	if neg {
		return e.Not(v)
	}
	return v
}

func (e *Engine) addLemma(b B) {
	if b == T {
		return
	}
	vs := e.Support(b)
	e.lemmas = append(e.lemmas, lemma{b, vs})
	for _, v := range vs {
		e.lemmaBy[v] = append(e.lemmaBy[v], len(e.lemmas)-1)
	}
}

// addLemmaWhen is a lemma that matters wherever the trigger occurs.
func (e *Engine) addLemmaWhen(trigger, b B) {
	if b == T {
		return
	}
	vs := e.Support(trigger)
	e.lemmas = append(e.lemmas, lemma{b, vs})
	for _, v := range vs {
		e.lemmaBy[v] = append(e.lemmaBy[v], len(e.lemmas)-1)
	}
}

func (e *Engine) EqLin(a, b *Lin) B {
	if a == b {
		return T
	}
	d := e.addLin(a, 1, b, -1)
	if d.isConst() {
		if d.c == 0 {
			return T
		}
		return F
	}
	lo, hi := e.rangeOf(d)
	if lo > 0 || hi < 0 {
		return F
	}
	if len(d.t) == 1 && d.t[0].a.bits != nil {
		x := d.t[0]
		if (-d.c)%x.k != 0 {
			return F
		}
		q := -d.c / x.k
		if q < 0 {
			return F
		}
		r := T
		for i, bb := range x.a.bits {
			if q>>uint(i)&1 == 1 {
				r = e.And(r, bb)
			} else {
				r = e.And(r, e.Not(bb))
			}
		}
		if len(x.a.bits) < 63 && q >= 1<<len(x.a.bits) {
			return F
		}
		return r
	}
	// bitwise when both sides are bit vectors over common variables
	ba, oka := e.asBits(a)
	bb, okb := e.asBits(b)
	if oka && okb {
		n := max(len(ba), len(bb))
		common := false
		sa := map[int32]bool{}
		for _, x := range ba {
			for _, v := range e.Support(x) {
				sa[v] = true
			}
		}
		nb := 0
		seen := map[int32]bool{}
		for _, x := range bb {
			for _, v := range e.Support(x) {
				if sa[v] {
					common = true
				}
				if !seen[v] {
					seen[v] = true
					nb++
				}
			}
		}
		if common || len(sa) <= 4 || nb <= 4 {
			r := T
			for i := n - 1; i >= 0; i-- {
				x, y := F, F
				if i < len(ba) {
					x = ba[i]
				}
				if i < len(bb) {
					y = bb[i]
				}
				r = e.And(r, e.Iff(x, y))
			}
			return r
		}
	}
	return e.And(e.GE0(d), e.GE0(e.scale(d, -1)))
}

// asBits: exact unsigned bit vector, if the expression has one.
func (e *Engine) asBits(l *Lin) ([]B, bool) {
	if l.c < 0 {
		return nil, false
	}
	w := 0
	for 1<<w <= l.c {
		w++
	}
	for _, x := range l.t {
		if x.a.bits == nil || x.k <= 0 || x.k&(x.k-1) != 0 {
			return nil, false
		}
		w = max(w, log2(x.k)+len(x.a.bits))
	}
	out := make([]B, w)
	for i := range out {
		if l.c>>uint(i)&1 == 1 {
			out[i] = T
		}
	}
	for _, x := range l.t {
		sh := log2(x.k)
		for i, b := range x.a.bits {
			if b == F {
				continue
			}
			if out[sh+i] != F {
				return nil, false
			}
			out[sh+i] = b
		}
	}
	return out, true
}

func (e *Engine) addFact(l *Lin) {
	if l.isConst() || e.factSet[l.id] {
		return
	}
	e.factSet[l.id] = true
	e.facts = append(e.facts, l)
	e.feasMemo = map[B]bool{}
}

// ---- feasibility of guards modulo linear arithmetic ----

func (e *Engine) feasible(g B) bool {
	if g == F {
		return false
	}
	if g == T {
		return true
	}
	if r, ok := e.feasMemo[g]; ok {
		return r
	}
	r := e.feas(g)
	e.feasMemo[g] = r
	return r
}

func (e *Engine) applyLemmas(g B) B {
	done := map[int]bool{}
	for {
		if g == F {
			return F
		}
		vs := e.Support(g)
		in := map[int32]bool{}
		for _, v := range vs {
			in[v] = true
		}
		changed := false
		for _, v := range vs {
			for _, li := range e.lemmaBy[v] {
				if done[li] {
					continue
				}
				ok := true
				for _, x := range e.lemmas[li].vs {
					if !in[x] {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				done[li] = true
				ng := e.And(g, e.lemmas[li].b)
				if ng != g {
					g = ng
					changed = true
				}
			}
		}
		if !changed {
			return g
		}
	}
}

func (e *Engine) feas(g B) bool {
	hasGe := false
	for _, v := range e.Support(g) {
		if e.vars[v].ge != nil {
			hasGe = true
			break
		}
	}
	cur := e.applyLemmas(g)
	if cur == F {
		return false
	}
	if !hasGe {
		return true
	}
	for iter := 0; iter < 4000; iter++ {
		cube, ok := e.Cube(cur)
		if !ok {
			return false
		}
		core, bad := e.checkCube(cube)
		if !bad {
			return true
		}
		if len(core) == 0 {
			return false
		}
		cl := F
		for _, l := range core {
			x := e.Var(int(l.v))
			if l.pos {
				x = e.Not(x)
			}
			cl = e.Or(cl, x)
		}
		e.addLemma(cl)
		cur = e.And(cur, cl)
	}
	return true // undecided: treated as feasible (reported)
}

type con struct {
	c int64
	t map[*Atom]int64
}

// checkCube returns an inconsistent subset of the literals, if any.
func (e *Engine) checkCube(cube []lit) ([]lit, bool) {
	asg := map[int32]bool{}
	var ge []lit
	for _, l := range cube {
		asg[l.v] = l.pos
		if e.vars[l.v].ge != nil {
			ge = append(ge, l)
		}
	}
	if len(ge) == 0 {
		return nil, false
	}
	if !e.linInfeasible(ge, asg) {
		return nil, false
	}
	// minimise: first try without the bit facts
	core := append([]lit(nil), ge...)
	useBits := asg
	if e.linInfeasible(core, nil) {
		useBits = nil
	}
	for i := 0; i < len(core); {
		rest := append(append([]lit(nil), core[:i]...), core[i+1:]...)
		if e.linInfeasible(rest, useBits) {
			core = rest
		} else {
			i++
		}
	}
	if useBits != nil {
		// keep only bit literals of atoms that matter
		atoms := e.relevantAtoms(core)
		sup := map[int32]bool{}
		for a := range atoms {
			for _, b := range a.bits {
				for _, v := range e.Support(b) {
					sup[v] = true
				}
			}
		}
		var bl []lit
		for _, l := range cube {
			if e.vars[l.v].ge == nil && sup[l.v] {
				bl = append(bl, l)
			}
		}
		// minimise bit literals greedily
		for i := 0; i < len(bl); {
			m := map[int32]bool{}
			for j, l := range bl {
				if j != i {
					m[l.v] = l.pos
				}
			}
			if e.linInfeasible(core, m) {
				bl = append(bl[:i], bl[i+1:]...)
			} else {
				i++
			}
		}
		core = append(core, bl...)
	}
	return core, true
}

func (e *Engine) relevantAtoms(ls []lit) map[*Atom]bool {
	in := map[*Atom]bool{}
	for _, l := range ls {
		for _, x := range e.vars[l.v].ge.t {
			in[x.a] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.facts {
			hit, all := false, true
			for _, x := range f.t {
				if in[x.a] {
					hit = true
				} else {
					all = false
				}
			}
			if hit && !all {
				for _, x := range f.t {
					in[x.a] = true
				}
				ch = true
			}
		}
	}
	return in
}

func (e *Engine) evalUnder(b B, asg map[int32]bool) (bool, bool) {
	for b > T {
		n := e.nodes[b]
		v, ok := asg[n.v]
		if !ok {
			return false, false
		}
		if v {
			b = n.hi
		} else {
			b = n.lo
		}
	}
	return b == T, true
}

func (e *Engine) linInfeasible(ls []lit, asg map[int32]bool) bool {
	var cs []con
	mkc := func(l *Lin, k, c int64) con {
		m := map[*Atom]int64{}
		for _, x := range l.t {
			m[x.a] = x.k * k
		}
		return con{addSat(mulSat(l.c, k), c), m}
	}
	for _, l := range ls {
		g := e.vars[l.v].ge
		if g == nil {
			continue
		}
		if l.pos {
			cs = append(cs, mkc(g, 1, 0))
		} else {
			cs = append(cs, mkc(g, -1, -1))
		}
	}
	in := e.relevantAtoms(ls)
	for _, f := range e.facts {
		hit := len(f.t) > 0
		for _, x := range f.t {
			if !in[x.a] {
				hit = false
			}
		}
		if hit {
			cs = append(cs, mkc(f, 1, 0))
		}
	}
	for a := range in {
		lo, hi := a.lo, a.hi
		if a.bits != nil && asg != nil {
			lo, hi = 0, 0
			for i, b := range a.bits {
				v, known := e.evalUnder(b, asg)
				if !known {
					hi += 1 << i
				} else if v {
					lo += 1 << i
					hi += 1 << i
				}
			}
		}
		if lo != negInf {
			cs = append(cs, con{-lo, map[*Atom]int64{a: 1}})
		}
		if hi != posInf {
			cs = append(cs, con{hi, map[*Atom]int64{a: -1}})
		}
	}
	return fmInfeasible(cs)
}

// fmInfeasible: Fourier-Motzkin elimination over the rationals, with integer
// tightening of single constraints.
func fmInfeasible(cs []con) bool {
	norm := func(c con) (con, bool) { // false: trivial
		g := int64(0)
		for a, k := range c.t {
			if k == 0 {
				delete(c.t, a)
				continue
			}
			g = gcd(g, k)
		}
		if len(c.t) == 0 {
			return c, c.c < 0
		}
		if g > 1 {
			for a := range c.t {
				c.t[a] /= g
			}
			c.c = floorDiv(c.c, g)
		}
		return c, true
	}
	var work []con
	seen := map[string]int{}
	key := func(c con) string {
		ids := make([]int, 0, len(c.t))
		for a := range c.t {
			ids = append(ids, a.id)
		}
		sort.Ints(ids)
		var sb strings.Builder
		for _, id := range ids {
			fmt.Fprintf(&sb, "%d*%d,", c.t[E.atomL[id]], id)
		}
		return sb.String()
	}
	add := func(c con) bool {
		c, ok := norm(c)
		if !ok {
			return false
		}
		if len(c.t) == 0 {
			return true
		}
		k := key(c)
		if i, ok := seen[k]; ok {
			if c.c < work[i].c {
				work[i].c = c.c
			}
			return false
		}
		seen[k] = len(work)
		work = append(work, c)
		return false
	}
	for _, c := range cs {
		m := map[*Atom]int64{}
		for a, k := range c.t {
			m[a] = k
		}
		if add(con{c.c, m}) {
			return true
		}
	}
	for {
		// choose the atom with the fewest products
		cnt := map[*Atom][2]int{}
		for _, c := range work {
			for a, k := range c.t {
				x := cnt[a]
				if k > 0 {
					x[0]++
				} else {
					x[1]++
				}
				cnt[a] = x
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var best *Atom
		bp := 1 << 30
		for a, x := range cnt {
			p := x[0]*x[1] - x[0] - x[1]
			if p < bp || p == bp && a.id < best.id {
				best, bp = a, p
			}
		}
		old := work
		work = nil
		seen = map[string]int{}
		var pos, neg []con
		for _, c := range old {
			k := c.t[best]
			switch {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				add(c)
			}
		}
		if len(pos)*len(neg) > 2000 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := p.t[best], -n.t[best]
				m := map[*Atom]int64{}
				for a, k := range p.t {
					m[a] = addSat(m[a], mulSat(k, kn))
				}
				for a, k := range n.t {
					m[a] = addSat(m[a], mulSat(k, kp))
				}
				bad := false
				for _, k := range m {
					if k == posInf || k == negInf {
						bad = true
					}
				}
				cc := addSat(mulSat(p.c, kn), mulSat(n.c, kp))
				if bad || cc == posInf || cc == negInf {
					continue
				}
				if add(con{cc, m}) {
					return true
				}
			}
		}
	}
}

func (e *Engine) linStr(l *Lin) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", l.c)
	for _, x := range l.t {
		n := x.a.key
		if x.a.bits != nil {
			n = e.bitsStr(x.a.bits)
		}
		if x.k == 1 {
			fmt.Fprintf(&sb, "+%s", n)
		} else {
			fmt.Fprintf(&sb, "%+d*%s", x.k, n)
		}
	}
	s := sb.String()
	if strings.HasPrefix(s, "0+") {
		s = s[2:]
	}
	return s
}

func (e *Engine) bitsStr(bits []B) string {
	var parts []string
	for i := 0; i < len(bits) && i < 3; i++ {
		parts = append(parts, e.bStr(bits[i]))
	}
	if len(bits) > 3 {
		parts = append(parts, fmt.Sprintf("..%d bits", len(bits)))
	}
	return "bits{" + strings.Join(parts, " ") + "}"
}

// bStr renders one satisfying cube of a guard (for reports).
// cubeLits bounds the literals printed of a condition.
var cubeLits = 12

func (e *Engine) bStr(b B) string {
	if b == T {
		return "true"
	}
	if b == F {
		return "false"
	}
	c, _ := e.Cube(b)
	var parts []string
	for i, l := range c {
		if i >= cubeLits {
			parts = append(parts, "...")
			break
		}
		vi := e.vars[l.v]
		s := vi.name
		if vi.ge != nil {
			s = "[" + e.linStr(vi.ge) + ">=0]"
		} else if vi.lin != nil && !strings.HasPrefix(vi.name, "!") {
			s = fmt.Sprintf("bit%d(%s)", vi.bit, e.linStr(vi.lin))
		}
		if !l.pos {
			s = "!" + s
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, "&")
}
