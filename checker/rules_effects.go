package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C16", Level: "other", MinObs: 60,
		Explanation: "Points-to and effect analysis of every function that runs while a template is executed (compiled closures, library functions, state providers, and the parser and compiler reached through dynamic templates): captured variables, receivers and globals are shared by all executions, the state and everything an execution creates are private. Each store, map update, append, copy and delete reachable from an execution is traced to the objects it modifies; a shared object may only be modified under its lock, and what is modified under a lock is only read under it. Nothing is written to the process's output.",
		Assumptions: []string{"memory reached through untyped pointers is a variable of the state (decided by C01, C05, C29, C30)", "library functions outside the module modify nothing that is shared", "only code of the module is analysed: values a caller shares between states are the caller's"},
		Run:         runC16})
}

// loc is an abstract memory location: a variable, an object or a part of one.
type loc struct {
	kind  byte // S(hared) P(rivate) G(lobal) A(llocated) F(unction)
	glob  *ssa.Global
	fn    *ssa.Function
	bind  []ptset // of a closure
	typ   types.Type
	subs  map[string]*loc
	cont  ptset
	inh   map[*loc]bool
	name  string
	depth int
}

type ptset map[*loc]bool

func (s ptset) add(o ptset) bool {
	n := len(s)
	for l := range o {
		s[l] = true
	}
	return len(s) != n
}

type fnCtx struct {
	fn     *ssa.Function
	locked bool
}

type siteEffect struct {
	fn         *ssa.Function
	pos        token.Pos
	what       string
	typ, field string
	glob       string
	locked     bool
	read       bool
}

type effects struct {
	c         *Ctx
	stT       types.Type
	shared    *loc
	priv      *loc
	globs     map[*ssa.Global]*loc
	allocs    map[ssa.Value]*loc
	fns       map[*ssa.Function]*loc
	vals      map[ssa.Value]ptset
	results   map[*ssa.Function][]ptset
	reached   map[fnCtx]bool
	order     []fnCtx
	caller    map[*ssa.Function]*ssa.Function
	sites     map[*ssa.Function]map[ssa.Instruction]bool
	sig       map[string][]*ssa.Function
	eff       map[siteEffect]bool
	changed   bool
	recording bool
}

func (c *Ctx) newEffects() *effects {
	a := &effects{c: c, globs: map[*ssa.Global]*loc{}, allocs: map[ssa.Value]*loc{}, fns: map[*ssa.Function]*loc{}, vals: map[ssa.Value]ptset{},
		results: map[*ssa.Function][]ptset{}, reached: map[fnCtx]bool{}, caller: map[*ssa.Function]*ssa.Function{},
		sites: map[*ssa.Function]map[ssa.Instruction]bool{}, sig: map[string][]*ssa.Function{}, eff: map[siteEffect]bool{},
		stT: types.NewPointer(c.P.typ("est", "State"))}
	a.shared = &loc{kind: 'S'}
	a.shared.cont = ptset{a.shared: true}
	a.priv = &loc{kind: 'P'}
	a.priv.cont = ptset{a.priv: true}
	seen := map[*ssa.Function]bool{}
	for _, f := range c.moduleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || g.Blocks == nil || !inModule(fnPkg(g)) || seen[g] {
						continue
					}
					if call, ok := in.(ssa.CallInstruction); ok && i == 0 && call.Common().StaticCallee() == g {
						continue
					}
					seen[g] = true
					k := sigKey(g.Signature)
					a.sig[k] = append(a.sig[k], g)
				}
			}
		}
	}
	return a
}

// moduleFuncs are all functions with a body, wrappers of method values included.
func (c *Ctx) moduleFuncs() []*ssa.Function {
	var r []*ssa.Function
	for f := range c.P.All {
		if f.Blocks != nil && inModule(fnPkg(f)) && !strings.HasSuffix(fnPkg(f), "/bench") {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr)
}

// pointerLike: values of the type refer to memory.
func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		return true
	}
	return true
}

func aggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// ---- locations ----

func (a *effects) global(g *ssa.Global) *loc {
	l := a.globs[g]
	if l == nil {
		l = &loc{kind: 'G', glob: g, cont: ptset{a.shared: true}}
		a.globs[g] = l
	}
	return l
}

func (a *effects) alloc(v ssa.Value, t types.Type) *loc {
	l := a.allocs[v]
	if l == nil {
		l = &loc{kind: 'A', cont: ptset{}, typ: t}
		a.allocs[v] = l
	}
	return l
}

func (a *effects) sub(l *loc, step string) *loc {
	if l.kind != 'A' {
		return l // the parts of a shared, private or global object are like the object
	}
	if l.depth > 6 {
		return l
	}
	s := l.subs[step]
	if s == nil {
		if l.subs == nil {
			l.subs = map[string]*loc{}
		}
		s = &loc{kind: 'A', cont: ptset{}, depth: l.depth + 1}
		l.subs[step] = s
		// a value copied into the object before is copied into its part
		for x := range l.inh {
			a.inherit(s, a.sub(x, step))
		}
	}
	return s
}

// inherit: the value at src is copied to dst.
func (a *effects) inherit(dst, src *loc) {
	if dst == src {
		return
	}
	if dst.inh == nil {
		dst.inh = map[*loc]bool{}
	}
	if !dst.inh[src] {
		dst.inh[src] = true
		a.changed = true
	}
	if dst.cont.add(src.cont) {
		a.changed = true
	}
	if dst.kind == 'A' && src.kind == 'A' {
		var steps []string
		for s := range src.subs {
			steps = append(steps, s)
		}
		sort.Strings(steps)
		for _, s := range steps {
			a.inherit(a.sub(dst, s), src.subs[s])
		}
	}
	if dst.kind == 'A' {
		for step, s := range dst.subs {
			if x := a.sub(src, step); x != s && !s.inh[x] {
				a.inherit(s, x)
			}
		}
	}
}

// load is what a location holds; an aggregate is represented by its location.
func (a *effects) load(l *loc, t types.Type) ptset {
	if aggregate(t) {
		return ptset{l: true}
	}
	for x := range l.inh {
		if l.cont.add(x.cont) {
			a.changed = true
		}
	}
	return l.cont
}

func (a *effects) store(l *loc, v ptset, t types.Type) {
	if aggregate(t) {
		for x := range v {
			a.inherit(l, x)
		}
		return
	}
	if l == a.shared || l == a.priv {
		return
	}
	if l.cont.add(v) {
		a.changed = true
	}
}

// ---- values ----

func (a *effects) set(v ssa.Value, s ptset) {
	m := a.vals[v]
	if m == nil {
		m = ptset{}
		a.vals[v] = m
	}
	if m.add(s) {
		a.changed = true
	}
}

func (a *effects) val(v ssa.Value) ptset {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return ptset{a.global(x): true}
	case *ssa.Function:
		return ptset{a.function(x): true}
	case *ssa.Builtin:
		return nil
	}
	return a.vals[v]
}

func (a *effects) function(f *ssa.Function) *loc {
	l := a.fns[f]
	if l == nil {
		l = &loc{kind: 'F', fn: f, cont: ptset{}}
		a.fns[f] = l
	}
	return l
}

// ---- locks ----

// lockedIn computes the instructions of f that run with a lock held (must, forward).
func (a *effects) lockedIn(f *ssa.Function) map[ssa.Instruction]bool {
	if r, ok := a.sites[f]; ok {
		return r
	}
	r := map[ssa.Instruction]bool{}
	a.sites[f] = r
	in := map[*ssa.BasicBlock]int{} // -1 unknown, 0 not held, 1 held
	for _, b := range f.Blocks {
		in[b] = -1
	}
	if len(f.Blocks) == 0 {
		return r
	}
	in[f.Blocks[0]] = 0
	transfer := func(b *ssa.BasicBlock, h int, rec bool) int {
		for _, i := range b.Instrs {
			if rec && h == 1 {
				r[i] = true
			}
			if c, ok := i.(*ssa.Call); ok {
				switch a.lockEffect(c) {
				case 1:
					h = 1
				case -1:
					h = 0
				}
			}
		}
		return h
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if in[b] < 0 {
				continue
			}
			out := transfer(b, in[b], false)
			for _, s := range b.Succs {
				n := out
				if in[s] >= 0 && in[s] < n {
					n = in[s]
				}
				if in[s] != n {
					in[s] = n
					changed = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if in[b] >= 0 {
			transfer(b, in[b], true)
		}
	}
	return r
}

// lockEffect: 1 when a call leaves a lock held, -1 when it releases one. Functions of the module that only lock or
// unlock count as well.
func (a *effects) lockEffect(c *ssa.Call) int {
	switch lockName(c) {
	case "Lock", "RLock":
		return 1
	case "Unlock", "RUnlock":
		return -1
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !inModule(fnPkg(g)) {
		return 0
	}
	n := 0
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				switch lockName(x) {
				case "Lock", "RLock":
					n = 1
				case "Unlock", "RUnlock":
					n = -1
				}
			case *ssa.Defer:
				switch lockName(x) {
				case "Unlock", "RUnlock":
					return 0
				}
			}
		}
	}
	if n > 0 { // held at the end of the function
		return n
	}
	if n < 0 {
		for i := range a.lockedIn(g) {
			_ = i
			return 0 // locks and unlocks
		}
		return -1
	}
	return 0
}

func lockName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			return cc.Method.Name()
		}
		return ""
	}
	if g := cc.StaticCallee(); g != nil && fnPkg(g) == "sync" {
		return g.Name()
	}
	return ""
}

// ---- transfer ----

func (a *effects) reach(f *ssa.Function, locked bool, from *ssa.Function) {
	k := fnCtx{f, locked}
	if f.Blocks == nil || a.reached[k] {
		return
	}
	a.reached[k] = true
	a.order = append(a.order, k)
	a.changed = true
	if _, ok := a.caller[f]; !ok && from != f {
		a.caller[f] = from
	}
}

func (a *effects) report(in ssa.Instruction, locked bool, addr ptset, what, typ, field string, read bool) {
	if !a.recording {
		return
	}
	for l := range addr {
		switch l.kind {
		case 'S':
			a.eff[siteEffect{in.Parent(), in.Pos(), what, typ, field, "", locked, read}] = true
		case 'G':
			if read && field == "" {
				field = l.glob.Name()
			}
			a.eff[siteEffect{in.Parent(), in.Pos(), what, typ, field, l.glob.Name(), locked, read}] = true
		}
	}
}

func (a *effects) subs(s ptset, step string) ptset {
	r := ptset{}
	for l := range s {
		if l.kind == 'F' {
			continue
		}
		r[a.sub(l, step)] = true
	}
	return r
}

func (a *effects) loads(s ptset, t types.Type) ptset {
	r := ptset{}
	for l := range s {
		r.add(a.load(l, t))
	}
	return r
}

func (a *effects) transfer(k fnCtx) {
	f := k.fn
	heldIn := a.lockedIn(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			locked := k.locked || heldIn[in]
			switch x := in.(type) {
			case *ssa.Alloc:
				a.set(x, ptset{a.alloc(x, x.Type().(*types.Pointer).Elem()): true})
			case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				v := x.(ssa.Value)
				a.set(v, ptset{a.alloc(v, nil): true})
			case *ssa.FieldAddr:
				a.set(x, a.subs(a.val(x.X), "."+faName(x)))
			case *ssa.IndexAddr:
				a.set(x, a.subs(a.val(x.X), "[]"))
			case *ssa.Field:
				a.set(x, a.loads(a.subs(a.val(x.X), "."+structOf(x.X.Type()).Field(x.Field).Name()), x.Type()))
			case *ssa.Index:
				if pointerLike(x.Type()) {
					a.set(x, a.loads(a.subs(a.val(x.X), "[]"), x.Type()))
				}
			case *ssa.Lookup:
				typ, field := container(x.X)
				a.report(in, locked, a.subs(a.val(x.X), "[]"), "read", typ, field, true)
				t := x.Type()
				if tu, ok := t.(*types.Tuple); ok {
					t = tu.At(0).Type()
				}
				if pointerLike(t) {
					a.set(x, a.loads(a.subs(a.val(x.X), "[]"), t))
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					if typ, field := target(x.X); field != "" {
						a.report(in, locked, a.val(x.X), "read", typ, field, true)
					} else if _, ok := x.X.(*ssa.Global); ok {
						a.report(in, locked, a.val(x.X), "read", "", "", true)
					}
					if !pointerLike(x.Type()) {
						break
					}
					if v := lastStored(x); v != nil {
						a.set(x, a.val(v))
					} else {
						a.set(x, a.loads(a.val(x.X), x.Type()))
					}
				case token.ARROW:
					a.set(x, ptset{a.priv: true})
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					a.set(x, a.val(e))
				}
			case *ssa.Slice:
				a.set(x, a.val(x.X))
			case *ssa.TypeAssert:
				a.set(x, a.assertTo(a.val(x.X), x.AssertedType))
			case *ssa.ChangeType:
				a.set(x, a.val(x.X))
			case *ssa.ChangeInterface:
				a.set(x, a.val(x.X))
			case *ssa.MakeInterface:
				if aggregate(x.X.Type()) {
					// boxed copy
					l := a.alloc(x, x.X.Type())
					a.store(l, a.val(x.X), x.X.Type())
					a.set(x, ptset{l: true})
				} else {
					a.set(x, a.val(x.X))
				}
			case *ssa.Convert:
				switch {
				case isUnsafePtr(x.X.Type()) && !isUnsafePtr(x.Type()):
					a.set(x, ptset{a.priv: true}) // a variable of the state
				case pointerLike(x.X.Type()):
					a.set(x, a.val(x.X))
				case pointerLike(x.Type()):
					a.set(x, ptset{a.alloc(x, nil): true})
				}
			case *ssa.Extract:
				switch t := x.Tuple.(type) {
				case *ssa.Next:
					if rg, ok := t.Iter.(*ssa.Range); ok && x.Index > 0 {
						a.set(x, a.loads(a.subs(a.val(rg.X), "[]"), x.Type()))
					}
				case *ssa.Call:
					if pointerLike(x.Type()) {
						for _, r := range a.callResults(t, x.Index) {
							a.set(x, r)
						}
					}
				case *ssa.TypeAssert, *ssa.Lookup:
					if x.Index == 0 {
						a.set(x, a.val(x.Tuple))
					}
				default:
					a.set(x, ptset{a.priv: true})
				}
			case *ssa.Range:
				typ, field := container(x.X)
				a.report(in, locked, a.subs(a.val(x.X), "[]"), "read", typ, field, true)
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				l := a.allocs[x]
				if l == nil {
					l = &loc{kind: 'F', fn: g, cont: ptset{}, bind: make([]ptset, len(x.Bindings))}
					a.allocs[x] = l
				}
				for i, bnd := range x.Bindings {
					if l.bind[i] == nil {
						l.bind[i] = ptset{}
					}
					if l.bind[i].add(a.val(bnd)) {
						a.changed = true
					}
				}
				a.set(x, ptset{l: true})
			case *ssa.Store:
				typ, field := target(x.Addr)
				a.report(in, locked, a.val(x.Addr), "written", typ, field, false)
				if pointerLike(x.Val.Type()) {
					for l := range a.val(x.Addr) {
						a.store(l, a.val(x.Val), x.Val.Type())
					}
				}
			case *ssa.MapUpdate:
				typ, field := container(x.Map)
				el := a.subs(a.val(x.Map), "[]")
				a.report(in, locked, el, "updated", typ, field, false)
				for l := range el {
					if pointerLike(x.Value.Type()) {
						a.store(l, a.val(x.Value), x.Value.Type())
					}
					if pointerLike(x.Key.Type()) {
						a.store(l, a.val(x.Key), x.Key.Type())
					}
				}
			case *ssa.Return:
				rs := a.results[f]
				if rs == nil {
					rs = make([]ptset, len(x.Results))
					a.results[f] = rs
				}
				for i, r := range x.Results {
					if rs[i] == nil {
						rs[i] = ptset{}
					}
					if pointerLike(r.Type()) && rs[i].add(a.val(r)) {
						a.changed = true
					}
				}
			case ssa.CallInstruction:
				a.call(f, x, locked)
			}
		}
	}
}

// assertTo keeps the objects that may have the asserted type.
func (a *effects) assertTo(s ptset, t types.Type) ptset {
	if tu, ok := t.(*types.Tuple); ok {
		t = tu.At(0).Type()
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return s
	}
	r := ptset{}
	for l := range s {
		if l.kind == 'A' && l.typ != nil && !types.Identical(l.typ, pt.Elem()) {
			continue
		}
		r[l] = true
	}
	return r
}

// lastStored: the value stored at the loaded address right before, on every path.
func lastStored(ld *ssa.UnOp) ssa.Value {
	if aggregate(ld.Type()) {
		return nil
	}
	b := ld.Block()
	end := -1
	for i, in := range b.Instrs {
		if in == ld {
			end = i
		}
	}
	for n := 0; n < 20; n++ {
		for i := end - 1; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if sameAddr(x.Addr, ld.X) {
					return x.Val
				}
				if types.Identical(x.Addr.Type(), ld.X.Type()) && !distinctAddr(x.Addr, ld.X) || aggregate(x.Val.Type()) {
					return nil
				}
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
					return nil
				}
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		end = len(b.Instrs)
	}
	return nil
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	fx, ok1 := x.(*ssa.FieldAddr)
	fy, ok2 := y.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.Field == fy.Field && sameAddr(fx.X, fy.X)
}

func distinctAddr(x, y ssa.Value) bool {
	fx, ok1 := x.(*ssa.FieldAddr)
	fy, ok2 := y.(*ssa.FieldAddr)
	return ok1 && ok2 && types.Identical(fx.X.Type(), fy.X.Type()) && fx.Field != fy.Field
}

// target names the field (of a named struct) an address designates.
func target(addr ssa.Value) (typ, field string) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return types.TypeString(x.X.Type().Underlying().(*types.Pointer).Elem(), shortQual), faName(x)
	case *ssa.IndexAddr:
		return container(x.X)
	}
	return "", ""
}

func container(v ssa.Value) (string, string) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return "", g.Name()
		}
		return target(u.X)
	}
	return "", ""
}

func faName(x *ssa.FieldAddr) string {
	return structOf(x.X.Type().Underlying().(*types.Pointer).Elem()).Field(x.Field).Name()
}

func shortQual(p *types.Package) string { return p.Name() }

// ---- calls ----

type callee struct {
	fn   *ssa.Function
	bind []ptset // captured variables, nil: shared
	recv ptset
}

func (a *effects) callees(cc *ssa.CallCommon) (r []callee, external bool) {
	if g := cc.StaticCallee(); g != nil {
		if g.Blocks == nil || !inModule(fnPkg(g)) {
			return nil, true
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if l := a.allocs[mc]; l != nil {
				return []callee{{fn: g, bind: l.bind}}, false
			}
		}
		return []callee{{fn: g}}, false
	}
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil, true
		}
		unknown := false
		byType := map[types.Type]ptset{}
		for l := range a.val(cc.Value) {
			if l.kind == 'A' && l.typ != nil && l.depth == 0 {
				if byType[l.typ] == nil {
					byType[l.typ] = ptset{}
				}
				byType[l.typ][l] = true
			} else {
				unknown = true
			}
		}
		for _, f := range a.c.P.Funcs {
			recv := f.Signature.Recv()
			if recv == nil || f.Name() != cc.Method.Name() || !types.Implements(recv.Type(), it) || strings.HasSuffix(fnPkg(f), "/bench") {
				continue
			}
			el := recv.Type()
			if p, ok := el.Underlying().(*types.Pointer); ok {
				el = p.Elem()
			}
			rs := ptset{}
			for t, ls := range byType {
				if types.Identical(t, el) {
					rs.add(ls)
				}
			}
			if unknown {
				for l := range a.val(cc.Value) {
					if !(l.kind == 'A' && l.typ != nil && l.depth == 0) {
						rs[l] = true
					}
				}
			}
			if len(rs) > 0 {
				r = append(r, callee{fn: f, recv: rs})
			}
		}
		return r, len(r) == 0
	}
	for l := range a.val(cc.Value) {
		switch {
		case l.kind == 'F':
			if l.fn.Blocks != nil && inModule(fnPkg(l.fn)) {
				r = append(r, callee{fn: l.fn, bind: l.bind})
			} else {
				external = true
			}
		case l.kind == 'S' || l.kind == 'G' || l.kind == 'P':
			external = true
			for _, g := range a.sig[sigKey(cc.Signature())] {
				if !a.isRoot(g) {
					r = append(r, callee{fn: g})
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].fn.String() < r[j].fn.String() })
	return r, external
}

func (a *effects) call(f *ssa.Function, call ssa.CallInstruction, locked bool) {
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(call, b.Name(), locked)
		return
	}
	cs, external := a.callees(cc)
	if _, ok := call.(*ssa.Go); ok {
		locked = false
	}
	if d, ok := call.(*ssa.Defer); ok && !locked {
		locked = a.lockedIn(f)[d]
	}
	for _, g := range cs {
		a.reach(g.fn, locked, f)
		args := cc.Args
		ps := g.fn.Params
		if cc.IsInvoke() {
			if len(ps) > 0 {
				a.set(ps[0], g.recv)
				ps = ps[1:]
			}
		}
		for i, p := range ps {
			if i < len(args) && pointerLike(p.Type()) {
				a.set(p, a.val(args[i]))
			}
		}
		for i, fv := range g.fn.FreeVars {
			if g.bind != nil {
				a.set(fv, g.bind[i])
			} else {
				a.set(fv, ptset{a.shared: true})
			}
		}
		if v, ok := call.(*ssa.Call); ok && len(a.results[g.fn]) == 1 {
			a.set(v, a.results[g.fn][0])
		}
	}
	if external {
		// a function passed to a library may be called by it
		for _, x := range cc.Args {
			for l := range a.val(x) {
				if l.kind == 'F' && l.fn.Blocks != nil && inModule(fnPkg(l.fn)) {
					a.reach(l.fn, locked, f)
					for i, fv := range l.fn.FreeVars {
						if l.bind != nil {
							a.set(fv, l.bind[i])
						}
					}
					for _, p := range l.fn.Params {
						if pointerLike(p.Type()) {
							a.set(p, ptset{a.priv: true})
						}
					}
				}
			}
		}
		if v, ok := call.(*ssa.Call); ok && pointerLike(v.Type()) {
			r := ptset{a.priv: true}
			if g := cc.StaticCallee(); g != nil && passesThrough(g) {
				for _, x := range cc.Args {
					if pointerLike(x.Type()) {
						r.add(a.val(x))
					}
				}
			}
			a.set(v, r)
		}
	}
}

// passesThrough: library functions that return (a part of) what they are given.
func passesThrough(g *ssa.Function) bool {
	switch fnPkg(g) {
	case "sort", "slices", "bytes", "reflect":
		return true
	}
	if recv := g.Signature.Recv(); recv != nil {
		if n := namedOf(recv.Type()); n != nil && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "container/list.List", "container/list.Element", "sync.Map", "sync/atomic.Value", "sync/atomic.Pointer":
				return true
			}
		}
	}
	return false
}

func (a *effects) callResults(call *ssa.Call, i int) (r []ptset) {
	if _, ok := call.Call.Value.(*ssa.Builtin); ok {
		return nil
	}
	cs, external := a.callees(call.Common())
	for _, g := range cs {
		if rs := a.results[g.fn]; i < len(rs) {
			r = append(r, rs[i])
		}
	}
	if external {
		s := ptset{a.priv: true}
		if g := call.Call.StaticCallee(); g != nil && passesThrough(g) {
			for _, x := range call.Call.Args {
				if pointerLike(x.Type()) {
					s.add(a.val(x))
				}
			}
		}
		r = append(r, s)
	}
	return
}

func (a *effects) builtin(call ssa.CallInstruction, name string, locked bool) {
	cc := call.Common()
	switch name {
	case "copy", "delete", "clear":
		typ, field := container(cc.Args[0])
		dst := a.subs(a.val(cc.Args[0]), "[]")
		a.report(call, locked, dst, "written", typ, field, false)
		if name == "copy" {
			src := a.subs(a.val(cc.Args[1]), "[]")
			for d := range dst {
				for s := range src {
					if d.kind == 'A' {
						a.inherit(d, s)
					}
				}
			}
		}
	case "append":
		v, ok := call.(*ssa.Call)
		if !ok {
			return
		}
		typ, field := container(cc.Args[0])
		dst := a.subs(a.val(cc.Args[0]), "[]")
		// the spare capacity of a shared array is shared as well
		a.report(call, locked, dst, "appended to", typ, field, false)
		l := a.alloc(v, nil)
		res := ptset{l: true}
		res.add(a.val(cc.Args[0]))
		if len(cc.Args) > 1 {
			el := a.sub(l, "[]")
			for s := range a.subs(a.val(cc.Args[1]), "[]") {
				a.inherit(el, s)
				for d := range dst {
					if d.kind == 'A' {
						a.inherit(d, s)
					}
				}
			}
			for d := range dst {
				a.inherit(el, d)
			}
		}
		a.set(v, res)
	}
}

// isRoot: functions the execution of a template starts at.
func (a *effects) isRoot(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), a.stT) && s.Results().Len() == 1 && isUnsafePtr(s.Results().At(0).Type()) {
		return true // a compute
	}
	if s.Params().Len() == 2 && types.Identical(s.Params().At(1).Type(), a.stT) && s.Results().Len() == 2 && s.Recv() == nil {
		return true // an adapter of a function
	}
	if s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), a.stT) && s.Recv() == nil {
		return true // a state provider
	}
	if s.Recv() != nil && fnPkg(f) == modPath+"/functions" && token.IsExported(f.Name()) && f.Parent() == nil && f.Synthetic == "" {
		n := namedOf(s.Recv().Type())
		return n != nil && n.Obj().Exported() && !plannerSide(f.Name()) && !registrySide[n.Obj().Name()]
	}
	return false
}

// registrySide: types that describe functions to the planner; templates never call their methods.
var registrySide = map[string]bool{"Registry": true, "Entry": true, "FunctionKindMetadata": true, "FunctionNamespaceMetadata": true}

// plannerSide: methods the planner calls while templates are compiled or functions are registered.
func plannerSide(name string) bool {
	switch name {
	case "Kind", "Handler", "ResultType", "DefineNs", "Discover", "DiscoverResultType", "Register":
		return true
	}
	return false
}

func (a *effects) run(roots []*ssa.Function) {
	for _, f := range roots {
		a.reach(f, false, nil)
		for _, fv := range f.FreeVars {
			a.set(fv, ptset{a.shared: true})
		}
		for i, p := range f.Params {
			if !pointerLike(p.Type()) {
				continue
			}
			if types.Identical(p.Type(), a.stT) || i > 0 {
				a.set(p, ptset{a.priv: true}) // the state, and values of the state
			} else {
				a.set(p, ptset{a.shared: true})
			}
		}
	}
	for n := 0; ; n++ {
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			a.transfer(a.order[i])
		}
		if !a.changed {
			break
		}
		if n > 200 {
			undecided("the points-to analysis does not terminate")
		}
	}
	a.recording = true
	for _, k := range a.order {
		a.transfer(k)
	}
}

func (a *effects) path(f *ssa.Function) string {
	s := shortFn(f)
	for n := 0; n < 12; n++ {
		f = a.caller[f]
		if f == nil {
			break
		}
		s = shortFn(f) + " > " + s
	}
	return s
}

func runC16(c *Ctx) {
	a := c.newEffects()
	var roots []*ssa.Function
	for _, f := range c.moduleFuncs() {
		if a.isRoot(f) {
			roots = append(roots, f)
		}
	}
	roots = append(roots, c.P.fn("est", "Execution.Exec"))
	if len(roots) < 60 {
		undecided("only %d functions run while a template is executed", len(roots))
	}
	a.run(roots)
	// fields written under a lock by any execution: they must be read under it as well
	guarded := map[string]bool{}
	bad := map[*ssa.Function][]siteEffect{}
	for e := range a.eff {
		if e.locked && !e.read && e.field != "" {
			guarded[e.typ+"."+e.field] = true
		}
	}
	for e := range a.eff {
		if e.locked || e.read && !guarded[e.typ+"."+e.field] {
			continue
		}
		bad[e.fn] = append(bad[e.fn], e)
	}
	names := map[string]int{}
	done := map[*ssa.Function]bool{}
	for _, k := range a.order {
		f := k.fn
		if done[f] {
			continue
		}
		done[f] = true
		name := shortFn(f)
		names[name]++
		if names[name] > 1 {
			name += " #" + itoa(names[name])
		}
		c.E.Funcs[f] = true
		c.Check("effects", name, c.P.fnPos(f), func() {
			es := bad[f]
			sort.Slice(es, func(i, j int) bool {
				if es[i].pos != es[j].pos {
					return es[i].pos < es[j].pos
				}
				return es[i].glob < es[j].glob
			})
			last := token.NoPos
			for _, e := range es {
				if e.pos == last {
					continue
				}
				last = e.pos
				what := e.typ + "." + e.field
				if e.field == "" {
					what = "memory"
				}
				switch {
				case e.glob != "" && !e.read:
					c.FailAt(c.P.pos(e.pos), "the global %s is %s while templates are executed (%s)", e.glob, e.what, a.path(f))
				case e.read:
					c.FailAt(c.P.pos(e.pos), "%s is read without the lock it is written under (%s)", what, a.path(f))
				default:
					c.FailAt(c.P.pos(e.pos), "%s shared by all executions is %s while templates are executed (%s)", what, e.what, a.path(f))
				}
			}
		})
	}
	c.Check("output", "process output", "module", func() {
		for _, f := range c.moduleFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if bi, ok := call.Common().Value.(*ssa.Builtin); ok && strings.HasPrefix(bi.Name(), "print") {
						c.FailAt(c.P.pos(in.Pos()), "%s writes to the process's output", shortFn(f))
					}
					if g := call.Common().StaticCallee(); g != nil {
						switch fnPkg(g) {
						case "fmt":
							if strings.HasPrefix(g.Name(), "Print") {
								c.FailAt(c.P.pos(in.Pos()), "%s writes to the process's output", shortFn(f))
							}
						case "log":
							c.FailAt(c.P.pos(in.Pos()), "%s writes to the process's log", shortFn(f))
						}
					}
				}
			}
		}
	})
}
