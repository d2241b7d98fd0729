package main

import "go/types"

// Which locks are held is kept in the abstract memory, so it follows paths,
// joins and loops like any other content.

var lockTyp = types.Typ[types.Bool]

func lockObj(write bool) *Obj {
	n := "lock:read"
	if write {
		n = "lock:write"
	}
	o := symObj(n, lockTyp)
	if o.init == nil {
		o.init = vBool(F)
	}
	return o
}

// lockState: a lock on memory shared between goroutines is held.
func lockState(st *State, read bool) B {
	w := st.content(lockObj(true)).b
	if read {
		return E.Or(w, st.content(lockObj(false)).b)
	}
	return w
}

func lockModels(m map[string]model) {
	set := func(write bool, held B) model {
		return func(c *Call, a []*Val) *Val {
			c.fr.oblig(c.st, c.ins, "nil dereference", nonNil(a[0]))
			if c.st.g == F {
				return zeroResult(c.sig())
			}
			o := lockObj(write)
			v := vBool(held)
			if held == T && !sharedLock(c, a[0]) {
				return vNil()
			}
			c.st.heap[o] = v
			return vNil()
		}
	}
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		m[t+"Lock"] = set(true, T)
		m[t+"Unlock"] = set(true, F)
		m[t+"TryLock"] = func(c *Call, a []*Val) *Val {
			got := E.newVar("trylock@" + c.site())
			if sharedLock(c, a[0]) {
				o := lockObj(true)
				c.st.heap[o] = vBool(E.Or(got, c.st.content(o).b))
			}
			return vBool(got)
		}
	}
	m["(*sync.RWMutex).RLock"] = set(false, T)
	m["(*sync.RWMutex).RUnlock"] = set(false, F)
}

// sharedLock: the lock lives in memory that was not allocated by the analysed
// code itself; a lock made anew for every call excludes nobody.
func sharedLock(c *Call, v *Val) bool {
	for _, a := range prune(v, c.st.g).alts {
		if a.l.kind == KPtr && a.l.obj.localAlloc {
			return false
		}
	}
	return true
}
