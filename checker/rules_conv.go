package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const convPkg = "github.com/viant/xunsafe/converter"

func isConverter(f *ssa.Function) bool { return fnPkg(f) == convPkg }

func init() {
	register(&Property{ID: "C03", Level: "other", MinObs: 150,
		Explanation: "For every pair of operand kinds, plain and nullable, the compile step of a binary expression is analysed together with the conversion library: the conversion attached to each operand is applied to an arbitrary cell and its result is compared with the value converted to the common type, a null cell staying null; the operator receives the operands in source order and comparisons are typed boolean.",
		Assumptions: []string{"the printed form of a number used as text is the strconv form (not compared digit by digit)"},
		Run:         runC03})
}

func basicT(n string) types.Type { return types.Universe.Lookup(n).Type() }

var numKinds = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

func kindClass(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	b, _ := t.Underlying().(*types.Basic)
	switch {
	case b == nil:
		return ""
	case b.Info()&types.IsInteger != 0:
		return "int"
	case b.Info()&types.IsFloat != 0:
		return "float"
	case b.Info()&types.IsString != 0:
		return "string"
	case b.Info()&types.IsBoolean != 0:
		return "bool"
	}
	return ""
}

// commonType is the type both operands are converted to (nil: not specified).
func commonType(x, y types.Type, cmp bool) types.Type {
	px, xp := x.(*types.Pointer)
	_, yp := y.(*types.Pointer)
	if types.Identical(x, y) && xp && cmp {
		return px.Elem()
	}
	cx, cy := kindClass(x), kindClass(y)
	switch {
	case cx == "string" || cy == "string":
		return types.Typ[types.String]
	case cx == "bool" && cy == "bool":
		return types.Typ[types.Bool]
	case cx == "bool" || cy == "bool":
		return nil
	case cx == "float" || cy == "float":
		return types.Typ[types.Float64]
	}
	_ = yp
	return types.Typ[types.Int]
}

// planWorld is the vocabulary of the compile rules: nested compile steps are opaque.
type planWorld struct {
	c        *Ctx
	e        *Eng
	planner  *Term
	compile  *ssa.Function
	acc      *ssa.Function
	binary   *ssa.Function
	exprT    types.Type
	nested   map[*Term]*Term // syntax node -> compiled expression
	accTypes []*Term
}

func typeTerm(t types.Type) *Term { return rtype(t) }

func newPlanWorld(c *Ctx, extra ...*ssa.Function) *planWorld {
	w := &planWorld{c: c, compile: c.P.fn("", "Planner.compileExpr"), acc: c.P.fn("", "Planner.accumulator"),
		binary: c.P.fn("est/expr", "Binary"), exprT: types.NewPointer(c.P.typ("est/op", "Expression")), nested: map[*Term]*Term{}}
	opq := opaqueSet(append([]*ssa.Function{w.compile, w.acc, w.binary}, extra...)...)
	w.e = c.E.with(Opts{Opaque: func(f *ssa.Function) bool { return opq(f) || fnIsMethod(f, modPath+"/ast/expr", "LeftAssociative") },
		InlineDep: func(f *ssa.Function) bool {
			return isConverter(f) || fnPkg(f) == "github.com/viant/xunsafe" && (f.Name() == "DerefPointer" || f.Name() == "RefPointer")
		},
		Model: w.model})
	w.planner = symT("planner", types.NewPointer(c.P.typ("", "Planner")))
	return w
}

func (w *planWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	if ev.Callee == nil {
		return nil, false
	}
	switch {
	case ev.Callee == w.compile:
		if x, ok := w.nested[ev.Args[1]]; ok {
			ev.Result = mk("tuple", "", nil, x, tNil())
			s.emit(ev)
			return ev.Result, true
		}
	case ev.Callee == w.acc:
		n := s.fresh("acc")
		sel := mk("alloc", "acc#"+itoa(n), c0sel(w.c))
		s.heap[mk("havoc", "", nil, sel)] = tBool(true)
		s.heap[fieldAddr(sel, "Type")] = ev.Args[1]
		ev.Result = sel
		s.emit(ev)
		return sel, true
	case fnIsMethod(ev.Callee, modPath+"/ast/expr", "LeftAssociative"):
		return ev.Args[0], true
	}
	return nil, false
}

func c0sel(c *Ctx) types.Type { return c.P.typ("est/op", "Selector") }

// newNested makes a compiled sub-expression of Go type T for the syntax node.
func (w *planWorld) newNested(s *State, name string, T *Term) (node, x *Term) {
	node = symT("node:"+name, nil)
	x = symPtr("expr:"+name, w.exprT, s)
	s.heap[fieldAddr(x, "Type")] = T
	s.heap[fieldAddr(x, "Unify")] = tNil()
	w.nested[node] = x
	return node, x
}

func runC03(c *Ctx) {
	f := c.P.fn("", "Planner.compileBinary")
	kinds := append(append([]string{}, numKinds...), "string", "bool")
	var ts []types.Type
	for _, k := range kinds {
		ts = append(ts, basicT(k))
	}
	for _, k := range []string{"int", "int8", "uint16", "int64", "float64", "float32", "string", "bool", "uint8", "uint64", "int32", "uint32", "uint", "int16"} {
		ts = append(ts, types.NewPointer(basicT(k)))
	}
	for _, x := range ts {
		for _, y := range ts {
			x, y := x, y
			toks := []string{"=="}
			_, xp := x.(*types.Pointer)
			_, yp := y.(*types.Pointer)
			if !xp && !yp && kindClass(x) != "bool" && kindClass(y) != "bool" {
				toks = append(toks, "+")
			}
			if c.thorough() || c.sampled(x, y) {
				arithmetic := len(toks) > 1
				toks = []string{"==", "!=", "<", "<=", ">", ">="}
				if arithmetic {
					toks = append(toks, "+", "-", "*", "/")
				} else if !xp && !yp && kindClass(x) == "bool" && kindClass(y) == "bool" {
					toks = append(toks, "&&", "||")
				}
			}
			for _, tok := range toks {
				tok := tok
				if commonType(x, y, isCmpTok(tok)) == nil {
					continue
				}
				c.Check("operand-conversion", x.String()+" "+tok+" "+y.String(), c.P.fnPos(f), func() { c.checkConversion(f, x, y, tok) })
			}
		}
	}
	c.Check("library-conversion", "uint8 to int", c.P.fnPos(f), func() {
		c.strictU8 = true
		defer func() { c.strictU8 = false }()
		c.checkConversion(f, basicT("int"), basicT("uint8"), "==")
	})
	for _, undef := range []string{"left", "right"} {
		undef := undef
		c.Check("undefined-operand", undef, c.P.fnPos(f), func() {
			w := newPlanWorld(c)
			s := newState()
			tx, ty := rtype(types.Typ[types.Int]), rtype(types.Typ[types.Int])
			if undef == "left" {
				tx = tNil()
			} else {
				ty = tNil()
			}
			for _, o := range w.compileBinary(s, f, tx, ty, "==") {
				if o.Panic != nil {
					c.Fail("compiling an operator with an undefined operand can panic")
				} else if nn, k := isNonNilErr(o.St, o.R(1)); !k || !nn {
					c.Fail("an operator with an undefined %s operand compiles", undef)
				}
			}
		})
	}
}

func (c *Ctx) sampled(x, y types.Type) bool {
	s := x.String() + y.String()
	return s == "intint" || s == "int8uint64" || s == "float32int" || s == "stringint" || s == "*int*int" || s == "boolbool" || s == "*int8float64" || s == "*stringstring"
}

func (w *planWorld) compileBinary(s *State, f *ssa.Function, tx, ty *Term, tok string) []Outcome {
	xn, _ := w.newNested(s, "X", tx)
	yn, _ := w.newNested(s, "Y", ty)
	node := symPtr("binary", types.NewPointer(w.c.P.typ("ast/expr", "Binary")), s)
	s.heap[fieldAddr(node, "X")] = xn
	s.heap[fieldAddr(node, "Y")] = yn
	s.heap[fieldAddr(node, "Token")] = tStr(tok)
	return w.e.Call(s, f, []*Term{w.planner, node}, nil)
}

func (c *Ctx) checkConversion(f *ssa.Function, x, y types.Type, tok string) {
	w := newPlanWorld(c)
	s := newState()
	cmp := isCmpTok(tok)
	common := commonType(x, y, cmp)
	n := 0
	for _, o := range w.compileBinary(s, f, rtype(x), rtype(y), tok) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling %s %s %s can panic", x, tok, y)
			continue
		}
		var call *Event
		for _, ev := range o.St.events {
			if ev.Callee == w.binary {
				if call != nil {
					c.Fail("the operator is compiled twice")
				}
				call = ev
			}
		}
		if call == nil {
			c.Fail("%s %s %s does not compile", x, tok, y)
			continue
		}
		opErr := resN(call, 1)
		nn, k := isNonNilErr(o.St, opErr)
		if k && nn {
			if o.R(1) != opErr {
				c.Fail("the operator's compile error is dropped")
			}
			continue
		}
		if nn2, k2 := isNonNilErr(o.St, o.R(1)); !k || !k2 || nn2 {
			c.Fail("the result error %s does not follow the operator's error", o.R(1))
			continue
		}
		n++
		if v, ok := call.Args[0].strVal(); !ok || v != tok {
			c.Fail("operator %s is compiled as %s", tok, call.Args[0])
		}
		ops := call.Args[1]
		if ops.Op != "list" || len(ops.Args) < 2 {
			undecided("operands of the operator are %s", ops)
		}
		xe, ye := w.exprOf("X"), w.exprOf("Y")
		if ops.Args[0] != xe || ops.Args[1] != ye {
			c.Fail("the operands are passed as %s", ops)
			continue
		}
		w.checkUnify(o.St, xe, x, common, "left", tok)
		w.checkUnify(o.St, ye, y, common, "right", tok)
		// kind the operator works on
		wantX := common
		_, xp := x.(*types.Pointer)
		_, yp := y.(*types.Pointer)
		if cmp && (xp || yp) {
			wantX = types.NewPointer(common)
		}
		if g := w.e.load(o.St, fieldAddr(xe, "Type"), nil); g != rtype(wantX) {
			c.Fail("the operator is compiled for %s instead of %s", g, wantX)
		}
		resT := common
		if cmp {
			resT = types.Typ[types.Bool]
		}
		res := o.R(0)
		if g := w.e.load(o.St, fieldAddr(res, "Type"), nil); g != rtype(resT) {
			c.Fail("the result type is %s instead of %s", g, resT)
		}
		if len(ops.Args) > 2 {
			z := ops.Args[2]
			if g := w.e.load(o.St, fieldAddr(z, "Type"), nil); g != rtype(resT) {
				c.Fail("the result slot has type %s instead of %s", g, resT)
			}
			zs := w.e.load(o.St, fieldAddr(z, "Selector"), nil)
			if g := w.e.load(o.St, fieldAddr(zs, "Type"), nil); g != rtype(resT) {
				c.Fail("the result slot is allocated with type %s instead of %s", g, resT)
			}
		}
		if g := w.e.load(o.St, fieldAddr(res, "New"), nil); g != firstOf(call) {
			c.Fail("the compiled expression is not the operator's")
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no compiled form")
	}
}

func (w *planWorld) exprOf(name string) *Term {
	return mk("alloc", "in:expr:"+name, w.exprT.(*types.Pointer).Elem())
}

// checkUnify applies the conversion attached to expression x to an arbitrary cell holding a T.
func (w *planWorld) checkUnify(s *State, x *Term, T, common types.Type, side, tok string) {
	u := w.e.load(s, fieldAddr(x, "Unify"), nil)
	w.c.checkConvFn(w.e, s, u, T, common, side+" operand of "+tok)
}

// checkConvFn decides that conversion u maps a cell holding a T to a cell holding its value as a C (null stays null).
func (c *Ctx) checkConvFn(e *Eng, s *State, u *Term, T, C types.Type, what string) {
	_, ptr := T.(*types.Pointer)
	if u.Op == "nil" {
		if ptr || !types.Identical(wideT(T), wideT(C)) {
			c.Fail("the %s (%s) is not converted to %s", what, T, C)
		}
		return
	}
	cell := symT("cell", uptr())
	base := s.clone()
	base.events = nil
	setNil(base, cell, false)
	for _, o := range e.Apply(base, u, []*Term{cell}) {
		if o.Panic != nil {
			c.Fail("converting the %s can panic", what)
			continue
		}
		nn, k := isNonNilErr(o.St, o.R(1))
		if !k {
			// parse failures of text are allowed to be reported
			continue
		}
		elem := T
		src := cell
		if p, ok := T.(*types.Pointer); ok {
			elem = p.Elem()
			src = e.load(o.St, cell, uptr())
			if isNil, k := o.St.eval(tEq(src, tNil())); k && isNil {
				if nn || o.R(0).Op != "nil" {
					c.Fail("a null %s is converted to %s", what, o.R(0))
				}
				continue
			}
		}
		if nn {
			if kindClass(T) != "string" || kindClass(C) == "string" {
				c.Fail("converting the %s from %s to %s fails", what, T, C)
			}
			continue
		}
		val := e.load(o.St, src, elem)
		got := e.load(o.St, o.R(0), C)
		if kindClass(C) == "string" && kindClass(T) != "string" {
			if !isTextOf(wide(got), wide(val)) {
				c.Fail("the %s as text is %s", what, got)
			}
			continue
		}
		if kindClass(T) == "string" && kindClass(C) != "string" {
			if g := got; !isParseOf(wide(g), val) {
				c.Fail("the number of the text %s is %s", what, got)
			}
			continue
		}
		want := e.convert(o.St, val, elem, wideT(C))
		if !c.strictU8 && types.Identical(elem, types.Typ[types.Uint8]) && kindClass(C) == "int" {
			// decided once, by the library-conversion obligation
			if got.Op == "load" && got.Args[0] == src {
				continue
			}
		}
		if d := equalUnder(o.St, wide(got), wide(want), 0); d != "" {
			c.Fail("converting the %s from %s to %s: %s", what, T, C, d)
		}
	}
}

func wideT(t types.Type) types.Type {
	switch b, ok := t.Underlying().(*types.Basic); {
	case ok && b.Kind() == types.Int64:
		return types.Typ[types.Int]
	case ok && b.Kind() == types.Uint64:
		return types.Typ[types.Uint]
	}
	return t
}

// isParseOf: a number parsed from the text, possibly narrowed to the kind.
func isParseOf(got, val *Term) bool {
	if got == nil {
		return false
	}
	if got.Op == "conv" && len(got.Args) == 1 {
		return isParseOf(got.Args[0], val)
	}
	if got.Op == "proj" || got.Op == "tuple" || got.Op == "extract" {
		return isParseOf(got.Args[0], val)
	}
	if strings.HasPrefix(got.Aux, "strconv.") && len(got.Args) > 0 {
		return got.Args[0] == val
	}
	return false
}

// isTextOf: a strconv rendering of the value.
func isTextOf(got, val *Term) bool {
	if got == nil || got.Op != "call" || !strings.HasPrefix(got.Aux, "strconv.") {
		return false
	}
	found := false
	got.subst(func(t *Term) *Term {
		if t == val {
			found = true
		}
		return nil
	})
	return found
}
