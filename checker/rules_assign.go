package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C05", Level: "other", MinObs: 100,
		Explanation: "For every variable kind, every way the variable is reached (slot or path) and every form of the assigned value, the compiled assignment is analysed: it evaluates the value once and stores exactly it, at the variable's own width, in the variable's slot and nowhere else; a null value leaves the variable unchanged. The compile step converts the value to the variable's type and gives a new variable the type of its first value.",
		Assumptions: []string{"operand evaluation is decided by C04", "xunsafe.Copy copies the given number of bytes"},
		Run:         runC05})
}

type exprForm struct {
	name                   string
	literal, sel, indirect bool
}

var valueForms = []exprForm{{"literal", true, false, false}, {"variable", false, true, false}, {"path", false, true, true}, {"computed", false, false, false}}

// exprWorld builds op.Expression values of every form; Upstream and the AddError sink stay opaque.
type exprWorld struct {
	c     *Ctx
	e     *Eng
	up    *ssa.Function
	exprT types.Type
	selT  types.Type
}

func newExprWorld(c *Ctx, opaque ...*ssa.Function) *exprWorld {
	w := &exprWorld{c: c, up: c.P.fn("est/op", "Upstream"), exprT: types.NewPointer(c.P.typ("est/op", "Expression")), selT: types.NewPointer(c.P.typ("est/op", "Selector"))}
	w.e = c.E.with(Opts{Opaque: opaqueSet(append([]*ssa.Function{w.up, c.P.fn("est", "State.AddError")}, opaque...)...)})
	return w
}

// expr makes an expression of the form; its value pointer after evaluation is found by value().
type builtExpr struct {
	x, sel, lit, newT, unify *Term
	form                     exprForm
}

func (w *exprWorld) expr(s *State, name string, f exprForm, T types.Type, unify bool) *builtExpr {
	b := &builtExpr{form: f, x: symPtr(name, w.exprT, s)}
	set := func(n string, v *Term) { s.heap[fieldAddr(b.x, n)] = v }
	set("LiteralPtr", tNil())
	set("Selector", tNil())
	set("Type", rtype(T))
	set("Unify", tNil())
	b.newT = symT("new:"+name, w.c.P.typ("est", "New"))
	setNil(s, b.newT, false)
	set("New", b.newT)
	if f.literal {
		lp := symPtr("litp:"+name, types.NewPointer(uptr()), s)
		b.lit = symT("lit:"+name, uptr())
		setNil(s, b.lit, false)
		s.heap[lp] = b.lit
		set("LiteralPtr", lp)
	}
	if f.sel {
		b.sel = symPtr("sel:"+name, w.selT, s)
		set("Selector", b.sel)
		s.heap[fieldAddr(b.sel, "Indirect")] = tBool(f.indirect)
		s.heap[fieldAddr(b.sel, "Type")] = rtype(T)
		fld := symPtr("field:"+name, w.c.P.typeOfField("est/op", "Selector", "Field"), s)
		s.heap[fieldAddr(b.sel, "Field")] = fld
		s.heap[fieldAddr(fld, "Offset")] = symT("offset:"+name, types.Typ[types.Uintptr])
		s.heap[fieldAddr(b.sel, "ParentOffset")] = symT("parent:"+name, types.Typ[types.Uintptr])
	}
	if unify {
		b.unify = symT("unify:"+name, nil)
		setNil(s, b.unify, false)
		set("Unify", b.unify)
	}
	return b
}

func (w *exprWorld) slot(s *State, b *builtExpr, name string, state *Term) *Term {
	mem := w.e.load(s, fieldAddr(state, "MemPtr"), uptr())
	return tAdd(tAdd(mem, symT("offset:"+name, types.Typ[types.Uintptr])), symT("parent:"+name, types.Typ[types.Uintptr]))
}

// value locates the value pointer of a built expression in an evaluated state.
// It returns the pointer, the conversion error (nil when none), the number of evaluations and the events that belong to it.
func (w *exprWorld) value(s *State, b *builtExpr, name string, compile, evs []*Event, state *Term) (val, convErr *Term, n int, used map[*Event]bool) {
	used = map[*Event]bool{}
	f := b.form
	switch {
	case f.literal:
		val, n = b.lit, 1
	case f.sel && !f.indirect:
		val, n = w.slot(s, b, name, state), 1
	case f.sel:
		for _, ev := range append(append([]*Event{}, compile...), evs...) {
			if ev.Callee == w.up && ev.Args[0] == b.sel {
				used[ev] = true
				for _, d := range dynCalls(evs, firstOf(ev)) {
					if d.Args[1] == state && !used[d] {
						used[d] = true
						n++
						val = firstOf(d)
					}
				}
			}
		}
	default:
		for _, nw := range dynCalls(compile, b.newT) {
			for _, d := range dynCalls(evs, firstOf(nw)) {
				if d.Args[1] == state && !used[d] {
					used[d] = true
					n++
					val = firstOf(d)
				}
			}
		}
	}
	if b.unify != nil && val != nil {
		us := dynCalls(evs, b.unify)
		if len(us) == 1 && s.value(us[0].Args[1]) == s.value(val) {
			used[us[0]] = true
			val, convErr = firstOf(us[0]), resN(us[0], 1)
		} else if isN, k := s.eval(tEq(val, tNil())); len(us) == 0 && k && isN {
			val = tNil()
		} else {
			n = -1
		}
	}
	return
}

// compiledForms runs an est.New function with its nested compile steps succeeding; compile errors must be passed on.
func (w *exprWorld) compiled(s *State, newT *Term, bs ...*builtExpr) []compiled {
	var res []compiled
	for _, cp := range newClosures(w.e, s, newT, "") {
		var nested *Term
		impossible := false
		for _, b := range bs {
			for _, d := range dynCalls(cp.st.events, b.newT) {
				nn, k := isNonNilErr(cp.st, resN(d, 1))
				if k && nn {
					nested = resN(d, 1)
				} else if !setNil(cp.st, firstOf(d), false) {
					impossible = true // a compile step without error yields a function
				}
			}
		}
		if impossible {
			continue
		}
		if nested != nil {
			if !cp.err {
				w.c.Fail("a compile error of an operand is dropped")
			} else if cp.errTerm != nested {
				w.c.Fail("a compile error of an operand is replaced by %s", cp.errTerm)
			}
			continue
		}
		res = append(res, cp)
	}
	return res
}

func isBenign(ev *Event) bool {
	return ev.Kind == "call" && ev.Callee != nil && (purePkgs[fnPkg(ev.Callee)] && !isOutput(ev.Name))
}

// flat names every integer and pointer load by its size only: assignments copy representations.
func flat(t *Term) *Term {
	return t.subst(func(x *Term) *Term {
		if x.Op == "load" && x.Typ != nil {
			switch u := x.Typ.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					return mk("rawload", itoa(int(stdSizes.Sizeof(u))), nil, x.Args...)
				}
				if u.Kind() == types.UnsafePointer {
					return mk("rawload", "p", nil, x.Args...)
				}
			case *types.Pointer:
				return mk("rawload", "p", nil, x.Args...)
			}
		}
		return nil
	})
}

var stdSizes = types.SizesFor("gc", "amd64")

func runC05(c *Ctx) {
	assignF := c.P.fn("est/stmt/assign", "Assign")
	var ts []types.Type
	for _, k := range append(append([]string{}, numKinds...), "string", "bool") {
		ts = append(ts, basicT(k))
	}
	for _, k := range append(append([]string{}, numKinds...), "string", "bool") {
		ts = append(ts, types.NewPointer(basicT(k)))
	}
	barT := c.P.typ("ast/stmt", "Append") // any struct
	ts = append(ts, barT, types.NewPointer(barT), types.NewSlice(types.Typ[types.Int]), types.NewMap(types.Typ[types.String], types.Typ[types.Int]),
		types.NewInterfaceType(nil, nil), c.P.typOf("fmt", "Stringer"))
	xforms := []exprForm{{"variable", false, true, false}, {"path", false, true, true}}
	for _, T := range ts {
		for _, xf := range xforms {
			if _, isPtr := T.(*types.Pointer); isPtr && !xf.indirect {
				continue // pointer variables are always reached indirectly
			}
			if _, isSl := T.(*types.Slice); isSl && !xf.indirect {
				continue
			}
			for _, yf := range valueForms {
				T, xf, yf := T, xf, yf
				if yf.literal && (structOf(T) != nil || kindClass(T) == "") {
					continue
				}
				name := typeName(T) + " " + xf.name + " = " + yf.name
				c.Check("assignment-effect", name, c.P.fnPos(assignF), func() {
					c.checkAssign(assignF, T, xf, yf, false)
					c.checkAssign(assignF, T, xf, yf, true)
				})
			}
		}
	}
	c.assignCompile()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *Ctx) checkAssign(assignF *ssa.Function, T types.Type, xf, yf exprForm, unify bool) {
	w := newExprWorld(c)
	s := newState()
	x := w.expr(s, "X", xf, T, false)
	y := w.expr(s, "Y", yf, T, unify)
	state := c.state()
	n := 0
	for _, o := range w.e.Call(s, assignF, []*Term{x.x, y.x}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling the assignment can panic")
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(1)); k && nn {
			c.Fail("the assignment is rejected")
			continue
		}
		for _, cp := range w.compiled(o.St, o.R(0), x, y) {
			if cp.err {
				c.Fail("the assignment compiles to an error %s", cp.errTerm)
				continue
			}
			base := cp.st.clone()
			compileEvs := base.events
			base.events = nil
			nst := len(base.stores)
			where := c.P.fnPos(cp.compute.Fn)
			for _, o2 := range w.e.Apply(base, cp.compute, []*Term{state}) {
				n++
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "assigning can panic")
					continue
				}
				st := o2.St
				dst, _, nx, ux := w.value(st, x, "X", compileEvs, st.events, state)
				src, cErr, ny, uy := w.value(st, y, "Y", compileEvs, st.events, state)
				if nx > 1 || ny != 1 {
					c.FailAt(where, "the variable is located %d times and the value evaluated %d times", nx, ny)
					continue
				}
				srcNull := src.Op == "nil"
				if v, k := st.eval(tEq(src, tNil())); k {
					srcNull = v
				} else if !isFresh(src) && src.Op != "lin" && !yf.literal && (unify) {
					// the path does not tell whether the value is null
					srcNull = false
				}
				failed := false
				if cErr != nil {
					if nn, k := isNonNilErr(st, cErr); k && nn {
						failed = true
					}
				}
				if nx == 1 {
					if v, k := st.eval(tEq(dst, tNil())); k && v {
						continue // a variable is always located (C26)
					}
				}
				var copies, others []*Event
				for _, ev := range st.events {
					switch {
					case ux[ev] || uy[ev]:
					case ev.Kind == "call" && strings.HasSuffix(ev.Name, "xunsafe.Copy"):
						copies = append(copies, ev)
					case ev.Callee != nil && fnIsMethod(ev.Callee, modPath+"/est", "AddError") && failed:
					case ev.Kind == "call" && ev.Callee != nil && fnPkg(ev.Callee) == "reflect":
						others = append(others, ev)
					case isBenign(ev):
					default:
						c.FailAt(c.P.pos(ev.Pos), "an assignment also performs %s", shortName(ev.Name))
					}
				}
				if failed {
					continue
				}
				var outside []storeRec
				for _, sr := range st.stores[nst:] {
					r := rootOf(sr.addr)
					if isFresh(r) && cp.st.heap[r] == nil {
						continue
					}
					outside = append(outside, sr)
				}
				if srcNull {
					if len(outside)+len(copies) > 0 {
						c.FailAt(where, "assigning null writes %d times", len(outside)+len(copies))
					}
					continue
				}
				if nx == 0 {
					c.FailAt(where, "the value of a %s is not stored", typeName(T))
					continue
				}
				c.checkAssigned(w.e, cp.st, st, dst, src, T, outside, copies, others, where)
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no compiled form")
	}
}

func (c *Ctx) checkAssigned(e *Eng, before, st *State, dst, src *Term, T types.Type, outside []storeRec, copies, reflects []*Event, where string) {
	size := stdSizes.Sizeof(T)
	dst, src = st.value(dst), st.value(src)
	for _, sr := range outside {
		a := st.value(sr.addr)
		if a != dst && !(a.Op == "fieldaddr" && a.Args[0] == dst) {
			c.FailAt(c.P.pos(sr.pos), "an assignment writes %s, which is not the variable's slot %s", sr.addr, dst)
			return
		}
		if a == dst && sr.typ != nil && stdSizes.Sizeof(sr.typ) != size {
			c.FailAt(c.P.pos(sr.pos), "%d bytes are written to a variable of %d bytes", stdSizes.Sizeof(sr.typ), size)
			return
		}
	}
	if len(copies) > 1 || len(copies) == 1 && len(outside) > 0 {
		c.FailAt(where, "the value is stored more than once")
		return
	}
	if len(copies) == 1 {
		a := copies[0].Args
		if st.value(a[0]) != dst || st.value(a[1]) != src {
			c.FailAt(c.P.pos(copies[0].Pos), "the value is copied from %s to %s", a[1], a[0])
		}
		if n, ok := st.value(a[2]).intVal(); !ok || n != size {
			c.FailAt(c.P.pos(copies[0].Pos), "%s bytes are copied to a variable of %d bytes", a[2], size)
		}
		return
	}
	if len(outside) == 0 {
		if _, isMap := T.Underlying().(*types.Map); isMap {
			for _, ev := range reflects {
				if ev.Callee.Name() == "Set" && strings.Contains(ev.Name, "Value") {
					d, v := ev.Args[0], ev.Args[1]
					if mentions(d, dst) && mentions(d, rtype(T)) && mentions(v, src) && !mentions(v, dst) {
						return
					}
					c.FailAt(c.P.pos(ev.Pos), "the map is set to %s in %s", v, d)
					return
				}
			}
		}
		c.FailAt(where, "the value of a %s is not stored", typeName(T))
		return
	}
	if _, ok := T.Underlying().(*types.Slice); ok && structured(outside, dst) {
		for _, f := range []string{"Data", "Len", "Cap"} {
			ft := types.Type(types.Typ[types.Int])
			if f == "Data" {
				ft = types.Typ[types.Uintptr]
			}
			got := e.load(st, fieldAddr(dst, f), ft)
			want := e.load(before, fieldAddr(src, f), ft)
			if flat(got) != flat(want) {
				c.FailAt(where, "the slice's %s becomes %s", f, got)
			}
		}
		return
	}
	got := e.load(st, dst, T)
	want := e.load(before, src, T)
	if flat(st.value(got)) != flat(st.value(want)) {
		c.FailAt(where, "the variable holds %s instead of %s", got, want)
	}
}

func structured(stores []storeRec, dst *Term) bool {
	for _, s := range stores {
		if s.addr.Op != "fieldaddr" {
			return false
		}
	}
	return true
}

func mentions(t, x *Term) bool {
	found := false
	t.subst(func(y *Term) *Term {
		if y == x {
			found = true
		}
		return nil
	})
	return found
}

// assignCompile decides the compile step of an assignment statement.
func (c *Ctx) assignCompile() {
	f := c.P.fn("", "Planner.computeAssignment")
	asg := c.P.fn("est/stmt/assign", "Assign")
	define := c.P.fn("", "Planner.DefineVariable")
	byName := c.P.fn("", "Planner.selectorByName")
	run := func(xT, yT types.Type, check func(w *planWorld, o Outcome, call *Event, xe, ye *Term)) {
		w := newPlanWorld(c, asg, define, byName)
		s := newState()
		var tx *Term
		if xT == nil {
			tx = tNil()
		} else {
			tx = rtype(xT)
		}
		xn, xe := w.newNested(s, "X", tx)
		var ty *Term = tNil()
		if yT != nil {
			ty = rtype(yT)
		}
		yn, ye := w.newNested(s, "Y", ty)
		sel := symPtr("selX", types.NewPointer(c.P.typ("est/op", "Selector")), s)
		s.heap[fieldAddr(xe, "Selector")] = sel
		s.heap[fieldAddr(sel, "Type")] = tx
		node := symPtr("stmt", types.NewPointer(c.P.typ("ast/stmt", "Statement")), s)
		s.heap[fieldAddr(node, "X")] = xn
		s.heap[fieldAddr(node, "Y")] = yn
		n := 0
		for _, o := range w.e.Call(s, f, []*Term{w.planner, node}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "compiling an assignment can panic")
				continue
			}
			var call *Event
			for _, ev := range o.St.events {
				if ev.Callee == asg {
					call = ev
				}
			}
			n++
			check(w, o, call, xe, ye)
		}
		if n == 0 {
			undecided("no outcome")
		}
	}
	kinds := append(append([]string{}, numKinds...), "string", "bool")
	pairs := [][2]types.Type{}
	for _, a := range kinds {
		for _, b := range kinds {
			if kindClass(basicT(a)) == "float" && kindClass(basicT(b)) == "string" || kindClass(basicT(a)) == "bool" || kindClass(basicT(b)) == "bool" {
				continue
			}
			pairs = append(pairs, [2]types.Type{basicT(a), basicT(b)})
			if c.thorough() {
				pairs = append(pairs, [2]types.Type{basicT(a), types.NewPointer(basicT(b))})
			}
		}
	}
	for _, p := range pairs {
		xT, yT := p[0], p[1]
		c.Check("assignment-conversion", typeName(xT)+" = "+typeName(yT), c.P.fnPos(f), func() {
			seen := false
			run(xT, yT, func(w *planWorld, o Outcome, call *Event, xe, ye *Term) {
				if call == nil {
					c.Fail("assigning a %s to a %s does not compile", yT, xT)
					return
				}
				if call.Args[0] != xe || call.Args[1] != ye {
					c.Fail("the assignment is compiled for %s", call.Args)
					return
				}
				if o.R(0) != firstOf(call) || o.R(1) != resN(call, 1) {
					c.Fail("the compiled assignment is not returned")
				}
				seen = true
				u := w.e.load(o.St, fieldAddr(ye, "Unify"), nil)
				c.strictU8 = true
				c.checkConvFn(w.e, o.St, u, yT, xT, "value")
				c.strictU8 = false
				if g := w.e.load(o.St, fieldAddr(xe, "Unify"), nil); g.Op != "nil" {
					c.Fail("the variable itself is converted by %s", g)
				}
				if g := w.e.load(o.St, fieldAddr(ye, "Type"), nil); g != rtype(xT) {
					c.Fail("the converted value is typed %s instead of %s", g, xT)
				}
			})
			if !seen && c.cur.Status == "ok" {
				undecided("no compiled form")
			}
		})
	}
	c.Check("new-variable", "typed by its first value", c.P.fnPos(f), func() {
		T := types.Typ[types.Float64]
		defined := 0
		run(nil, T, func(w *planWorld, o Outcome, call *Event, xe, ye *Term) {
			var def *Event
			for _, ev := range o.St.events {
				if ev.Callee == define {
					def = ev
				}
			}
			if def == nil {
				c.Fail("assigning to an undefined variable does not define it")
				return
			}
			defined++
			if !mentions(def.Args[2], rtype(T)) {
				c.Fail("the variable is defined as %s instead of the value's type", def.Args[2])
			}
			if nn, k := isNonNilErr(o.St, firstOf(def)); k && nn && o.R(1) != firstOf(def) {
				c.Fail("the error of defining the variable is dropped")
			}
		})
	})
	c.Check("new-variable", "undefined value", c.P.fnPos(f), func() {
		run(nil, nil, func(w *planWorld, o Outcome, call *Event, xe, ye *Term) {
			if nn, k := isNonNilErr(o.St, o.R(1)); !k || !nn {
				c.Fail("assigning an undefined value to an undefined variable compiles")
			}
		})
	})
}
