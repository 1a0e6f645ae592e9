package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// dynCalls lists the calls of a function value.
func dynCalls(evs []*Event, fn *Term) []*Event {
	var r []*Event
	for _, ev := range evs {
		if ev.Kind == "dyn" && len(ev.Args) > 0 && ev.Args[0] == fn {
			r = append(r, ev)
		}
	}
	return r
}

// firstOf is the (first) result of an event.
func firstOf(ev *Event) *Term {
	if ev.Result != nil && ev.Result.Op == "tuple" {
		return ev.Result.Args[0]
	}
	return ev.Result
}

func resN(ev *Event, i int) *Term {
	if ev.Result != nil && ev.Result.Op == "tuple" {
		return ev.Result.Args[i]
	}
	if i == 0 {
		return ev.Result
	}
	return nil
}

func (c *Ctx) state() *Term { return symT("state", types.NewPointer(c.P.typ("est", "State"))) }

func uptr() types.Type { return types.Typ[types.UnsafePointer] }

// setNonNil gives s the knowledge that t is (not) nil.
func setNil(s *State, t *Term, isNil bool) bool { return s.assume(tEq(t, tNil()), isNil) }

func init() {
	register(&Property{ID: "C04", Level: "other", MinObs: 23,
		Explanation: "Every form of expression (literal, variable slot, path, computed) with and without a conversion is turned into an operand; the operand's general and direct accessors are then analysed and the returned cell is compared with the form's value, converted exactly once and never when it is null.",
		Assumptions: []string{"conversion functions are those of the xunsafe converter"},
		Run:         runC04})
}

type operandForm struct {
	name                   string
	literal, sel, indirect bool
	typ                    bool
	unify                  bool
}

func runC04(c *Ctx) {
	opF := c.P.fn("est/op", "Expression.Operand")
	exec := c.P.fn("est/op", "Operand.Exec")
	ptr := c.P.fn("est/op", "Operand.Pointer")
	indF := c.P.fn("est/op", "Operand.IsIndirect")
	up := c.P.fn("est/op", "Upstream")
	addErr := c.P.fn("est", "State.AddError")
	e := c.E.with(Opts{Opaque: opaqueSet(up, addErr)})
	exprT := types.NewPointer(c.P.typ("est/op", "Expression"))
	selT := types.NewPointer(c.P.typ("est/op", "Selector"))
	var forms []operandForm
	for _, u := range []bool{false, true} {
		for _, ty := range []bool{true, false} {
			forms = append(forms,
				operandForm{"literal", true, false, false, ty, u},
				operandForm{"literal selector", true, true, false, ty, u},
				operandForm{"variable", false, true, false, ty, u},
				operandForm{"path", false, true, true, ty, u},
				operandForm{"computed", false, false, false, ty, u})
		}
	}
	for _, f := range forms {
		f := f
		name := f.name
		if f.unify {
			name += ", converted"
		}
		if !f.typ {
			name += ", untyped"
		}
		c.Check("operand-value", name, c.P.fnPos(opF), func() { c.checkOperand(e, f, opF, exec, ptr, indF, up, exprT, selT) })
	}
	c.checkFixed(e, exec)
	// the selector constructor keeps a literal selector a literal
	newExpr := c.P.fn("est/op", "NewExpression")
	for _, lit := range []bool{true, false} {
		lit := lit
		name := "selector without literal"
		if lit {
			name = "selector with literal"
		}
		c.Check("expression-of-selector", name, c.P.fnPos(newExpr), func() {
			s := newState()
			sel := symPtr("sel", selT, s)
			l := symT("lit", uptr())
			if lit {
				setNil(s, l, false)
				s.heap[fieldAddr(sel, "Literal")] = l
			} else {
				s.heap[fieldAddr(sel, "Literal")] = tNil()
			}
			for _, o := range e.Call(s, newExpr, []*Term{sel}, nil) {
				if o.Panic != nil {
					c.Fail("can panic")
					continue
				}
				x := o.R(0)
				if g := e.load(o.St, fieldAddr(x, "Selector"), selT); g != sel {
					c.Fail("the expression's selector is %s", g)
				}
				lp := e.load(o.St, fieldAddr(x, "LiteralPtr"), types.NewPointer(uptr()))
				if !lit {
					if lp.Op != "nil" {
						c.Fail("an expression of a selector without a literal holds the literal %s", lp)
					}
				} else if lp.Op == "nil" || e.load(o.St, lp, uptr()) != l {
					c.Fail("the expression's literal is not the selector's literal")
				}
			}
		})
	}
	// Unifier setter: nil keeps values unconverted
	setU := c.P.fn("est/op", "Operand.SetUnifier")
	c.Check("conversion-setter", "no conversion", c.P.fnPos(setU), func() {
		s := newState()
		x := symPtr("op", types.NewPointer(c.P.typ("est/op", "Operand")), s)
		lp := symPtr("lit", types.NewPointer(uptr()), s)
		v := symT("v", uptr())
		s.heap[lp] = v
		setNil(s, v, false)
		s.heap[fieldAddr(x, "LiteralPtr")] = lp
		s.heap[fieldAddr(x, "Comp")] = tNil()
		for _, o := range e.Call(s, setU, []*Term{x, tNil()}, nil) {
			for _, o2 := range e.Call(o.St, exec, []*Term{x, c.state()}, nil) {
				if o2.Panic != nil || o2.R(0) != v {
					c.Fail("an operand without conversion yields %s instead of its value", o2.R(0))
				}
			}
		}
	})
}

// checkFixed decides operands whose value is fixed, and values held by interfaces.
func (c *Ctx) checkFixed(e *Eng, exec *ssa.Function) {
	asI, asV := c.P.fn("est/op", "Operand.AsInterface"), c.P.fn("est/op", "Operand.AsValue")
	setT := c.P.fn("est/op", "Operand.SetType")
	operand := func(s *State) *Term {
		op := mk("alloc", "operand", c.P.typ("est/op", "Operand"))
		st := structOf(op.Typ)
		for i := 0; i < st.NumFields(); i++ {
			s.heap[fieldAddr(op, st.Field(i).Name())] = zeroOf(st.Field(i).Type())
		}
		return op
	}
	c.Check("operand-value", "fixed value", c.P.fnPos(exec), func() {
		s := newState()
		op := operand(s)
		v := symT("fixed", types.NewInterfaceType(nil, nil))
		setNil(s, v, false)
		s.heap[fieldAddr(op, "Value")] = v
		s.heap[fieldAddr(op, "Sel")] = symPtr("sel", types.NewPointer(c.P.typ("est/op", "Selector")), s)
		for _, o := range e.Call(s.clone(), exec, []*Term{op, c.state()}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "evaluating an operand of a fixed value can panic")
			} else if !mentions(o.R(0), v) {
				c.Fail("an operand of a fixed value yields %s", o.R(0))
			}
		}
		for _, o := range e.Call(s.clone(), asI, []*Term{op, symT("cell", uptr())}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "an operand of a fixed value can panic")
			} else if o.St.value(o.R(0)) != v {
				c.FailAt(c.P.fnPos(asI), "an operand of a fixed value yields %s", o.R(0))
			}
		}
	})
	str := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String])), false)
	for _, methods := range []bool{false, true} {
		methods := methods
		var fs []*types.Func
		name := "empty interface"
		if methods {
			fs, name = append(fs, types.NewFunc(token.NoPos, nil, "String", str)), "interface with methods"
		}
		iface := types.NewInterfaceType(fs, nil).Complete()
		for _, fn := range []*ssa.Function{asI, asV} {
			fn := fn
			c.Check("interface-value", name+" by "+fn.Name(), c.P.fnPos(fn), func() {
				s := newState()
				op := operand(s)
				cell := symT("cell", uptr())
				setNil(s, cell, false)
				n := 0
				for _, o := range e.Call(s, setT, []*Term{op, rtype(iface)}, nil) {
					for _, o1 := range e.Call(o.St, fn, []*Term{op, cell}, nil) {
						if o1.Panic != nil {
							c.FailAt(c.P.pos(o1.Pos), "reading the value of an interface can panic")
							continue
						}
						n++
						r := o1.St.value(o1.R(0))
						if r.Op != "load" { // read by reflection
							if !mentions(r, cell) {
								c.Fail("the value of an interface is %s", r)
							}
							continue
						}
						u, ok := r.Typ.Underlying().(*types.Interface)
						if !ok || rootOf(r.Args[0]) != cell {
							c.Fail("the value of an interface is read as %s", r)
						} else if u.NumMethods() > 0 != methods {
							c.Fail("the value of an %s is read as if it was of type %s", name, r.Typ)
						}
					}
				}
				if n == 0 && c.cur.Status == "ok" {
					undecided("no value was read")
				}
			})
		}
	}
}

func (c *Ctx) checkOperand(e *Eng, f operandForm, opF, exec, ptr, indF, up *ssa.Function, exprT, selT types.Type) {
	s := newState()
	x := symPtr("X", exprT, s)
	set := func(b *Term, n string, v *Term) { s.heap[fieldAddr(b, n)] = v }
	litv, lp := symT("litv", uptr()), symPtr("litp", types.NewPointer(uptr()), s)
	newT := symT("new", c.P.typ("est", "New"))
	unify := symT("unify", nil)
	setNil(s, unify, false)
	setNil(s, newT, false)
	T, selType := rtype(types.Typ[types.Int16]), rtype(types.Typ[types.Int32])
	set(x, "LiteralPtr", tNil())
	set(x, "Selector", tNil())
	set(x, "Type", tNil())
	set(x, "Unify", tNil())
	set(x, "New", newT)
	var sel *Term
	if f.literal {
		set(x, "LiteralPtr", lp)
		s.heap[lp] = litv
	}
	if f.sel {
		sel = symPtr("sel", selT, s)
		set(x, "Selector", sel)
		set(sel, "Indirect", tBool(f.indirect))
		set(sel, "Type", selType)
		set(sel, "Parent", tNil())
	}
	if f.typ {
		set(x, "Type", T)
	}
	if f.unify {
		set(x, "Unify", unify)
	}
	control := symT("control", types.Typ[types.Uint8])
	done := 0
	for _, o := range e.Call(s, opF, []*Term{x, control, tNil()}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "building the operand can panic")
			continue
		}
		news := dynCalls(o.St.events, newT)
		if f.literal || f.sel {
			if len(news) != 0 {
				c.Fail("a %s is compiled as a computed expression", f.name)
				continue
			}
			if nn, k := isNonNilErr(o.St, o.R(1)); !k || nn {
				c.Fail("a %s operand is rejected", f.name)
				continue
			}
		} else {
			if len(news) != 1 || news[0].Args[1] != control {
				c.Fail("a computed expression is compiled %d times", len(news))
				continue
			}
			nErr := resN(news[0], 1)
			if nn, k := isNonNilErr(o.St, nErr); k && nn {
				if o.R(1) != nErr {
					c.Fail("the compile error of a computed operand is dropped")
				}
				continue
			}
			if nn, k := isNonNilErr(o.St, o.R(1)); k && nn {
				c.Fail("a computed operand is rejected without an error")
				continue
			}
			setNil(o.St, firstOf(news[0]), false) // a compile step without error yields a function
		}
		op := o.R(0)
		wantT := selType
		if f.typ {
			wantT = T
		} else if !f.sel {
			wantT = tNil()
		}
		if g := e.load(o.St, fieldAddr(op, "Type"), c.P.typeOfField("est/op", "Operand", "Type")); g != wantT {
			c.Fail("the operand's type is %s instead of %s", g, wantT)
		}
		for _, fn := range []*ssa.Function{exec, ptr} {
			direct := fn == ptr
			if direct && (f.indirect || !f.literal && !f.sel) {
				continue // only defined for direct operands, see the IsIndirect obligation below
			}
			base := o.St.clone()
			base.events = nil
			for _, o2 := range e.Call(base, fn, []*Term{op, c.state()}, nil) {
				done++
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "evaluating a %s can panic", f.name)
					continue
				}
				c.checkOperandValue(e, f, o, o2, fn, x, sel, litv, newT, unify, up)
			}
		}
		for _, o2 := range e.Call(o.St.clone(), indF, []*Term{op}, nil) {
			if o2.Panic != nil {
				c.Fail("IsIndirect can panic")
				continue
			}
			v, k := o2.St.eval(o2.R(0))
			if want := f.indirect || !f.literal && !f.sel; !k || v != want && want {
				c.FailAt(c.P.fnPos(indF), "a %s operand counts as direct", f.name)
			}
		}
	}
	if done == 0 && c.cur.Status == "ok" {
		undecided("no operand built")
	}
}

func (c *Ctx) checkOperandValue(e *Eng, f operandForm, o, o2 Outcome, fn *ssa.Function, x, sel, litv, newT, unify *Term, up *ssa.Function) {
	st := c.state()
	evs := o2.St.events
	var val *Term
	used := map[*Event]bool{}
	switch {
	case f.literal:
		val = litv
	case f.sel && !f.indirect:
		mem := e.load(o2.St, fieldAddr(st, "MemPtr"), uptr())
		fld := e.load(o2.St, fieldAddr(sel, "Field"), c.P.typeOfField("est/op", "Selector", "Field"))
		off := e.load(o2.St, fieldAddr(fld, "Offset"), types.Typ[types.Uintptr])
		par := e.load(o2.St, fieldAddr(sel, "ParentOffset"), types.Typ[types.Uintptr])
		val = tAdd(tAdd(mem, off), par)
	case f.sel:
		all := append(append([]*Event{}, o.St.events...), evs...)
		n := 0
		for _, ev := range all {
			if ev.Callee == up && ev.Args[0] == sel {
				for _, d := range dynCalls(evs, firstOf(ev)) {
					used[d] = true
					n++
					if d.Args[1] != st {
						c.Fail("a path is resolved on another state")
					}
					val = firstOf(d)
				}
				used[ev] = true
			}
		}
		if n != 1 {
			c.Fail("a path operand is resolved %d times per evaluation", n)
			return
		}
	default:
		comp := firstOf(dynCalls(o.St.events, newT)[0])
		ds := dynCalls(evs, comp)
		if len(ds) != 1 || ds[0].Args[1] != st {
			c.Fail("a computed operand is evaluated %d times per evaluation", len(ds))
			return
		}
		used[ds[0]] = true
		val = firstOf(ds[0])
	}
	us := dynCalls(evs, unify)
	want := val
	if len(us) > 1 {
		c.Fail("the value is converted %d times", len(us))
		return
	}
	if len(us) == 1 {
		used[us[0]] = true
		if !f.unify {
			c.Fail("an operand without conversion is converted")
			return
		}
		if o2.St.value(us[0].Args[1]) != o2.St.value(val) {
			c.Fail("the conversion is applied to %s instead of the operand's value", us[0].Args[1])
		}
		if isNil, k := o2.St.eval(tEq(val, tNil())); k && isNil || !k && !f.literal && (!f.sel || f.indirect) {
			c.FailAt(c.P.fnPos(fn), "a null value is converted")
		}
		want = firstOf(us[0])
		convErr := resN(us[0], 1)
		reported := 0
		for _, ev := range evs {
			if ev.Callee != nil && fnIsMethod(ev.Callee, modPath+"/est", "AddError") {
				used[ev] = true
				if ev.Args[0] == st && o2.St.value(ev.Args[1]) == o2.St.value(convErr) {
					reported++
				} else {
					c.FailAt(c.P.pos(ev.Pos), "evaluating a %s operand reports %s", f.name, ev.Args[1])
				}
			}
		}
		nn, k := isNonNilErr(o2.St, convErr)
		switch {
		case !k:
			c.FailAt(c.P.fnPos(fn), "a failing conversion of a %s operand is not reported", f.name)
		case nn:
			if reported != 1 {
				c.FailAt(c.P.fnPos(fn), "a failing conversion of a %s operand is reported %d times", f.name, reported)
			}
			if n, k := o2.St.eval(tEq(o2.R(0), tNil())); !k || n {
				if !isFresh(o2.R(0)) && o2.R(0).Op != "call" {
					c.FailAt(c.P.fnPos(fn), "a %s operand whose conversion fails yields %s", f.name, o2.R(0))
				}
			}
			return
		case reported != 0:
			c.FailAt(c.P.fnPos(fn), "a successful conversion of a %s operand is reported as an error", f.name)
		}
	} else if f.unify {
		if isNil, k := o2.St.eval(tEq(val, tNil())); !k || !isNil {
			c.FailAt(c.P.fnPos(fn), "a value of a %s operand is not converted", f.name)
		}
	}
	if d := o2.St.value(o2.R(0)); d != o2.St.value(want) {
		if isNil, k := o2.St.eval(tEq(val, tNil())); !(k && isNil && d.Op == "nil") {
			c.FailAt(c.P.fnPos(fn), "a %s operand yields %s where %s is required", f.name, o2.R(0), want)
		}
	}
	for _, ev := range evs {
		if !used[ev] && !(ev.Kind == "call" && ev.Callee != nil && purePkgs[fnPkg(ev.Callee)] && !isOutput(ev.Name)) {
			c.FailAt(c.P.pos(ev.Pos), "evaluating a %s operand also performs %s", f.name, shortName(ev.Name))
		}
	}
	for _, sr := range o2.St.stores[len(o.St.stores):] {
		if r := rootOf(sr.addr); !isFresh(r) || o.St.heap[r] != nil {
			c.FailAt(c.P.pos(sr.pos), "evaluating a %s operand writes %s", f.name, sr.addr)
		}
	}
}

// typeOfField returns the declared type of a struct field.
func (p *Prog) typeOfField(pkg, typ, field string) types.Type {
	st := structOf(p.typ(pkg, typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	undecided("field %s.%s.%s not found", pkg, typ, field)
	return nil
}

func fnIsMethod(f *ssa.Function, pkg, name string) bool {
	return f != nil && f.Name() == name && f.Signature.Recv() != nil && fnPkg(f) == pkg
}
