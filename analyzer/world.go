package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ElectroUnion/egts-gate"

// World is the type-checked program and its SSA form.
type World struct {
	dir     string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by import path
	ppkgs   []*packages.Package
	fset    *token.FileSet
	globs   map[*ssa.Global]*Obj
	inits   map[*ssa.Package]*State
	nFunc   int
	initing *ssa.Package
	mutMemo map[*ssa.Global]bool
}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
			"GOSUMDB=off", "GONOSUMDB=*"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{dir: dir, prog: prog, pkgs: map[string]*ssa.Package{}, ppkgs: ps, fset: prog.Fset, globs: map[*ssa.Global]*Obj{}, inits: map[*ssa.Package]*State{}, mutMemo: map[*ssa.Global]bool{}}
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		w.pkgs[ps[i].PkgPath] = p
	}
	return w, nil
}

// pkg finds a package of the repository by its path below the module.
func (w *World) pkg(rel string) *ssa.Package {
	for path, p := range w.pkgs {
		if path == modPath+"/"+rel || strings.HasSuffix(path, "/"+rel) {
			return p
		}
	}
	return nil
}

func (w *World) inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		_, ok := w.pkgs[fn.Object().Pkg().Path()]
		return ok
	}
	if p == nil {
		return true // synthetic wrapper
	}
	return w.pkgs[p.Pkg.Path()] == p
}

// method finds a method of a named type (pointer receiver set).
func (w *World) method(p *ssa.Package, typ, name string) *ssa.Function {
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (w *World) posStr(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	ps := w.fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, w.dir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// globalObj is the memory of a package-level variable.
func (w *World) globalObj(g *ssa.Global) *Obj {
	if o, ok := w.globs[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := "global:" + g.String()
	o := symObj(name, t)
	o.glob = g
	o.shared = true
	if w.initing != nil && g.Pkg == w.initing {
		return o
	}
	w.globs[g] = o
	if isErrorType(t) && !w.mutable(g) {
		o.init = vErr(name)
		return o
	}
	if g.Pkg != nil && w.pkgs[g.Pkg.Pkg.Path()] == g.Pkg && !w.mutable(g) {
		if st := w.initState(g.Pkg); st != nil {
			if v, ok := st.heap[o]; ok {
				o.init = v
				w.publish(v, st, w.contentReadOnly(g), map[*Obj]bool{})
				return o
			}
			o.init = zeroVal(t)
		}
	}
	return o
}

// publish makes the memory that the initialiser allocated and a variable
// refers to known to the analyses of other functions.
func (w *World) publish(v *Val, st *State, keep bool, seen map[*Obj]bool) {
	if v == nil || v.isBool {
		return
	}
	for _, a := range v.alts {
		l := a.l
		switch l.kind {
		case KPtr, KSlice:
			o := l.obj
			if o == nil || seen[o] || o.glob != nil {
				continue
			}
			seen[o] = true
			c, ok := st.heap[o]
			if !ok {
				continue
			}
			if keep {
				o.init = c
				w.publish(c, st, keep, seen)
			} else {
				o.init = mkSym(o.typ, "content of "+o.name)
			}
			o.localAlloc, o.shared = false, true
		case KIface:
			w.publish(l.val, st, keep, seen)
		case KStruct:
			for _, f := range l.fields {
				w.publish(f, st, keep, seen)
			}
		case KArr:
			if es, ok := seqBytes(l.seq); ok {
				for _, e := range es {
					w.publish(e, st, keep, seen)
				}
			}
		}
	}
}

// contentReadOnly: nothing outside of the initialisers writes through the
// pointer, slice or map held by the variable.
func (w *World) contentReadOnly(g *ssa.Global) bool {
	for fn := range w.allFuncs() {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == g && !readOnlyThrough(ins, g, 0) {
						return false
					}
				}
			}
		}
	}
	return true
}

// readOnlyThrough: like readOnlyUse, for what the value refers to as well.
func readOnlyThrough(ins ssa.Instruction, v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	refs := func(x ssa.Value) bool {
		for _, r := range *x.Referrers() {
			if !readOnlyThrough(r, x, d+1) {
				return false
			}
		}
		return true
	}
	deep := func(x ssa.Value) bool {
		switch x.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			return refs(x)
		}
		return true
	}
	switch i := ins.(type) {
	case *ssa.UnOp:
		return deep(i)
	case *ssa.IndexAddr, *ssa.FieldAddr:
		return refs(i.(ssa.Value))
	case *ssa.Index, *ssa.Field, *ssa.Lookup:
		return deep(i.(ssa.Value))
	case *ssa.Extract:
		return deep(i)
	case *ssa.Slice:
		return refs(i)
	case *ssa.Phi:
		return refs(i)
	case *ssa.DebugRef, *ssa.BinOp, *ssa.If, *ssa.Range:
		return true
	case *ssa.Return:
		// by contract nobody changes a message descriptor
		n := i.Parent().Name()
		return n == "Descriptor" || n == "EnumDescriptor"
	case *ssa.Call:
		if f := i.Call.StaticCallee(); f != nil && protoReadOnly(f.String()) {
			return true
		}
		b, ok := i.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	}
	return false
}

func protoReadOnly(name string) bool {
	for _, p := range []string{"Register", "EnumName", "UnmarshalJSONEnum", "Marshal", "Size"} {
		if strings.HasPrefix(name, "github.com/golang/protobuf/proto."+p) {
			return true
		}
	}
	return false
}

// mutable: some function other than a package initialiser may change it.
func (w *World) mutable(g *ssa.Global) bool {
	if r, ok := w.mutMemo[g]; ok {
		return r
	}
	r := w.isMutable(g)
	w.mutMemo[g] = r
	return r
}

func (w *World) isMutable(g *ssa.Global) bool {
	for fn := range w.allFuncs() {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != g {
						continue
					}
					if !readOnlyUse(ins, g, 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

func readOnlyUse(ins ssa.Instruction, v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch i := ins.(type) {
	case *ssa.UnOp:
		return i.Op == token.MUL
	case *ssa.IndexAddr:
		return i.X == v && readOnlyRefs(i, d)
	case *ssa.FieldAddr:
		return readOnlyRefs(i, d)
	case *ssa.DebugRef:
		return true
	case *ssa.Slice:
		return true
	}
	return false
}

func readOnlyRefs(v ssa.Value, d int) bool {
	for _, r := range *v.Referrers() {
		if !readOnlyUse(r, v, d+1) {
			return false
		}
	}
	return true
}

var allFuncsMemo map[*ssa.Function]bool

func (w *World) allFuncs() map[*ssa.Function]bool {
	if allFuncsMemo == nil {
		allFuncsMemo = map[*ssa.Function]bool{}
		for fn := range ssautil.AllFunctions(w.prog) {
			if len(fn.Blocks) > 0 {
				allFuncsMemo[fn] = true
			}
		}
	}
	return allFuncsMemo
}

// sortedFuncs lists the functions of the repository.
func (w *World) sortedFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range w.allFuncs() {
		if w.inRepo(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// initState evaluates the package initialiser.
func (w *World) initState(p *ssa.Package) (res *State) {
	if st, ok := w.inits[p]; ok {
		return st
	}
	w.inits[p] = nil
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(analysisFailure); !ok {
				panic(r)
			}
			res = nil
		}
	}()
	an := newAnalysis(w)
	an.inInit = true
	st := &State{g: T, env: map[ssa.Value]*Val{}, heap: map[*Obj]*Val{}}
	// all globals of the package start at zero
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			o := symObj("global:"+g.String(), t)
			o.glob, o.shared = g, true
			st.heap[o] = zeroVal(t)
		}
	}
	w.initing = p
	defer func() { w.initing = nil }()
	an.call(fn, nil, nil, st, "init:")
	w.inits[p] = st
	return st
}

// resetMemo forgets values that belong to a previous engine instance.
func (w *World) resetMemo() {
	w.globs = map[*ssa.Global]*Obj{}
	w.inits = map[*ssa.Package]*State{}
}
