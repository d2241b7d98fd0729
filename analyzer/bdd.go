package main

// Hash-consed reduced ordered binary decision diagrams. They represent path
// guards and the individual bits of integers; variables are input bits and
// opaque predicates ("atoms").

type B int32

const (
	F B = 0
	T B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type BDD struct {
	nodes  []bnode
	unique map[bnode]B
	ite    map[[3]B]B
	restr  map[[2]B]B
	supp   map[B][]int32
}

const termVar = int32(1) << 30

func newBDD() *BDD {
	b := &BDD{unique: map[bnode]B{}, ite: map[[3]B]B{}, restr: map[[2]B]B{}, supp: map[B][]int32{}}
	b.nodes = append(b.nodes, bnode{termVar, 0, 0}, bnode{termVar, 1, 1})
	return b
}

func (b *BDD) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := bnode{v, lo, hi}
	if r, ok := b.unique[k]; ok {
		return r
	}
	r := B(len(b.nodes))
	if r > 40000000 {
		fail("decision diagram too large")
	}
	b.nodes = append(b.nodes, k)
	b.unique[k] = r
	return r
}

func (b *BDD) Var(v int) B { return b.mk(int32(v), F, T) }

func (b *BDD) Ite(f, g, h B) B {
	switch {
	case f == T:
		return g
	case f == F:
		return h
	case g == h:
		return g
	case g == T && h == F:
		return f
	}
	if f == g {
		g = T
	}
	if f == h {
		h = F
	}
	k := [3]B{f, g, h}
	if r, ok := b.ite[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if x := b.nodes[g].v; x < v {
		v = x
	}
	if x := b.nodes[h].v; x < v {
		v = x
	}
	f0, f1 := b.cof(f, v)
	g0, g1 := b.cof(g, v)
	h0, h1 := b.cof(h, v)
	r := b.mk(v, b.Ite(f0, g0, h0), b.Ite(f1, g1, h1))
	b.ite[k] = r
	return r
}

func (b *BDD) cof(f B, v int32) (B, B) {
	n := &b.nodes[f]
	if n.v == v {
		return n.lo, n.hi
	}
	return f, f
}

func (b *BDD) And(xs ...B) B {
	r := T
	for _, x := range xs {
		r = b.Ite(r, x, F)
		if r == F {
			return F
		}
	}
	return r
}
func (b *BDD) Or(xs ...B) B {
	r := F
	for _, x := range xs {
		r = b.Ite(r, T, x)
		if r == T {
			return T
		}
	}
	return r
}
func (b *BDD) Not(x B) B        { return b.Ite(x, F, T) }
func (b *BDD) Xor(x, y B) B     { return b.Ite(x, b.Not(y), y) }
func (b *BDD) Imp(x, y B) B     { return b.Ite(x, y, T) }
func (b *BDD) Iff(x, y B) B     { return b.Ite(x, y, b.Not(y)) }
func (b *BDD) Diff(x, y B) B    { return b.Ite(y, F, x) }
func (b *BDD) Disj(x, y B) bool { return b.And(x, y) == F }

// Restrict simplifies f using the care set c (Coudert/Madre).
func (b *BDD) Restrict(f, c B) B {
	if c == F {
		return F
	}
	if c == T || f <= T {
		return f
	}
	if f == c {
		return T
	}
	k := [2]B{f, c}
	if r, ok := b.restr[k]; ok {
		return r
	}
	nf, nc := b.nodes[f], b.nodes[c]
	var r B
	switch {
	case nc.v < nf.v:
		r = b.Restrict(f, b.Or(nc.lo, nc.hi))
	case nf.v < nc.v:
		r = b.mk(nf.v, b.Restrict(nf.lo, c), b.Restrict(nf.hi, c))
	default:
		if nc.lo == F {
			r = b.Restrict(nf.hi, nc.hi)
		} else if nc.hi == F {
			r = b.Restrict(nf.lo, nc.lo)
		} else {
			r = b.mk(nf.v, b.Restrict(nf.lo, nc.lo), b.Restrict(nf.hi, nc.hi))
		}
	}
	b.restr[k] = r
	return r
}

func (b *BDD) Support(f B) []int32 {
	if f <= T {
		return nil
	}
	if s, ok := b.supp[f]; ok {
		return s
	}
	seen := map[B]bool{}
	vs := map[int32]bool{}
	var walk func(B)
	walk = func(x B) {
		if x <= T || seen[x] {
			return
		}
		seen[x] = true
		vs[b.nodes[x].v] = true
		walk(b.nodes[x].lo)
		walk(b.nodes[x].hi)
	}
	walk(f)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sortInt32(out)
	b.supp[f] = out
	return out
}

// Subst replaces variables simultaneously.
func (b *BDD) Subst(f B, m map[int32]B) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(x B) B {
		if x <= T {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := b.nodes[x]
		lo, hi := rec(n.lo), rec(n.hi)
		v, ok := m[n.v]
		if !ok {
			v = b.Var(int(n.v))
		}
		r := b.Ite(v, hi, lo)
		memo[x] = r
		return r
	}
	return rec(f)
}

// Exists quantifies the given variables.
func (b *BDD) Exists(f B, vs map[int32]bool) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(x B) B {
		if x <= T {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := b.nodes[x]
		lo, hi := rec(n.lo), rec(n.hi)
		var r B
		if vs[n.v] {
			r = b.Or(lo, hi)
		} else {
			r = b.Ite(b.Var(int(n.v)), hi, lo)
		}
		memo[x] = r
		return r
	}
	return rec(f)
}

type lit struct {
	v   int32
	pos bool
}

// Cube returns one satisfying path (nil, false if none).
func (b *BDD) Cube(f B) ([]lit, bool) {
	if f == F {
		return nil, false
	}
	var out []lit
	for f != T {
		n := b.nodes[f]
		if n.hi != F {
			out = append(out, lit{n.v, true})
			f = n.hi
		} else {
			out = append(out, lit{n.v, false})
			f = n.lo
		}
	}
	return out, true
}

func sortInt32(a []int32) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
