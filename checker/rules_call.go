package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C22", Level: "other", MinObs: 4,
		Explanation: "For every function signature the library calls without reflection (all signatures it type-tests for are enumerated from the source) the registered function's adapter is analysed with an arbitrary function and arbitrary operands: it is called once with each operand's own value at its own position, its result is returned unchanged with its static type, and operand lists of another length or of other types are rejected before any call.",
		Assumptions: []string{"an operand yields a cell of its declared type (decided by the operand rules)"},
		Run:         runC22})
}

// signatureTests lists the function types that package est/op tests values for.
func (c *Ctx) signatureTests() []*types.Signature {
	var r []*types.Signature
	for _, f := range c.P.Funcs {
		if fnPkg(f) != modPath+"/est/op" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				sg, ok := ta.AssertedType.(*types.Signature)
				if !ok {
					continue
				}
				dup := false
				for _, x := range r {
					dup = dup || types.Identical(x, sg)
				}
				if !dup {
					r = append(r, sg)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return sigText(r[i]) < sigText(r[j]) })
	return r
}

func sigText(s *types.Signature) string {
	t := "func("
	for i := 0; i < s.Params().Len(); i++ {
		if i > 0 {
			t += ", "
		}
		t += s.Params().At(i).Type().String()
	}
	t += ")"
	for i := 0; i < s.Results().Len(); i++ {
		t += " " + s.Results().At(i).Type().String()
	}
	return t
}

// plainSig is the signature without parameter names.
func plainSig(s *types.Signature) *types.Signature {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic())
}

// callWorld compiles calls of functions: the function found, its operands and the accumulator slot are given.
type callWorld struct {
	c                           *Ctx
	e                           *Eng
	newFn, newSel, exec, execI  *ssa.Function
	find, operands, acc         *ssa.Function
	fn, fnErr, list, lErr, accT *Term
	fsT, opT, typeT, plT, callT types.Type
	detect                      *ssa.Function
	selT                        types.Type
}

func (c *Ctx) newCallWorld() *callWorld {
	w := &callWorld{c: c,
		newFn: c.P.fn("est/op", "Functions.NewFunc"), newSel: c.P.fn("", "Planner.newFuncSelector"),
		exec: c.P.fn("est/op", "Operand.Exec"), execI: c.P.fn("est/op", "Operand.ExecInterface"),
		find: c.P.fn("", "Planner.Func"), operands: c.P.fn("", "Planner.selectorOperands"), acc: c.P.fn("", "Planner.accumulator"),
		detect: c.P.fn("est/op", "Functions.TryDetectResultType"),
		fsT:    types.NewPointer(c.P.typ("est/op", "Functions")), opT: types.NewPointer(c.P.typ("est/op", "Operand")),
		typeT: c.P.typeOfField("est/op", "Operand", "Type"), plT: types.NewPointer(c.P.typ("", "Planner")),
		callT: types.NewPointer(c.P.typ("ast/expr", "Call")), selT: types.NewPointer(c.P.typ("est/op", "Selector")),
	}
	w.e = c.E.with(Opts{Opaque: opaqueSet(w.exec, w.execI, w.find, w.operands, w.acc, w.detect), Model: w.model})
	return w
}

func (w *callWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	if ev.Kind == "call" && evName(ev) == "(reflect.Value).Call" && isCall(ev.Args[0], "reflect.ValueOf") && ev.Args[0].Args[0].Op == "iface" {
		// the results of a function of known type
		if sg, ok := ev.Args[0].Args[0].Typ.(*types.Signature); ok {
			var rs []*Term
			for i := 0; i < sg.Results().Len(); i++ {
				rs = append(rs, symT(fmt.Sprintf("result%d", i), w.c.P.typOf("reflect", "Value")))
			}
			ev.Result = sliceOf(e, s, "results", rs...)
			s.emit(ev)
			return ev.Result, true
		}
	}
	switch ev.Callee {
	case w.find:
		if w.fn == nil {
			return nil, false
		}
		s.emit(ev)
		return mk("tuple", "", nil, w.fn, w.fnErr), true
	case w.operands:
		if w.list == nil {
			return nil, false
		}
		s.emit(ev)
		return mk("tuple", "", nil, w.list, w.lErr), true
	}
	return nil, false
}

// compile is the compilation of a call of fn with the given operands.
func (w *callWorld) compile(s *State, fn, list, prev *Term) []Outcome {
	w.fn, w.fnErr, w.list, w.lErr = fn, tNil(), list, tNil()
	defer func() { w.fn, w.list = nil, nil }()
	str := types.Typ[types.String]
	pl := symPtr("planner", w.plT, s)
	return w.e.Call(s, w.newSel, []*Term{pl, symT("id", str), symT("method", str), symPtr("call", w.callT, s), prev}, nil)
}

func runC22(c *Ctx) {
	w := c.newCallWorld()
	e := w.e
	sigs := c.signatureTests()
	for _, sg := range sigs {
		sg := plainSig(sg)
		c.Check("adapter", sigText(sg), c.P.fnPos(w.newFn), func() {
			s := newState()
			f := symT("fn", sg)
			setNil(s, f, false)
			for _, o := range e.Call(s, w.newFn, []*Term{symPtr("fs", w.fsT, s), symT("name", types.Typ[types.String]), mk("iface", "", sg, f), tNil()}, nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "registering the function can panic")
					continue
				}
				if nn, k := isNonNilErr(o.St, o.R(1)); !k || nn {
					c.Fail("the function is rejected")
					continue
				}
				for k := 0; k <= sg.Params().Len()+1; k++ {
					c.checkAdapter(w, o.St, sg, f, o.R(0), k)
				}
			}
		})
	}
	c.Check("adapter-coverage", "signatures", "", func() {
		if len(sigs) == 0 {
			undecided("no signature test found")
		}
	})
	// anything else is left to the reflective call
	disc := c.P.fn("est/op", "Functions.discover")
	c.Check("adapter", "any other signature", c.P.fnPos(disc), func() {
		s := newState()
		v := symT("fn", types.NewInterfaceType(nil, nil))
		for _, o := range e.Call(s, disc, []*Term{symPtr("fs", w.fsT, s), tNil(), v}, nil) {
			if o.Panic != nil {
				c.Fail("can panic")
				continue
			}
			hit := false
			for _, sg := range sigs {
				if val, k := o.St.eval(mk("typeis", sg.String(), types.Typ[types.Bool], v)); k && val {
					hit = true
				}
			}
			if t, ok := o.St.typ[v]; ok {
				for _, sg := range sigs {
					hit = hit || types.Identical(t, plainSig(sg)) || types.Identical(t, sg)
				}
			}
			if v, k := o.St.eval(o.R(2)); !hit && (!k || v) {
				c.Fail("a function of another signature gets an adapter")
			}
		}
	})
	// functions called through reflection are checked when they are called, not rejected when they are compiled
	c.Check("argument-check", "functions called with reflection", c.P.fnPos(w.newSel), func() {
		s := newState()
		sg := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Uint16])), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Uint16])), false)
		f := symT("fn", sg)
		setNil(s, f, false)
		n := 0
		for _, o := range e.Call(s, w.newFn, []*Term{symPtr("fs", w.fsT, s), symT("name", types.Typ[types.String]), mk("iface", "", sg, f), tNil()}, nil) {
			if nn, k := isNonNilErr(o.St, o.R(1)); o.Panic != nil || !k || nn {
				c.Fail("the function can't be registered")
				continue
			}
			for _, o2 := range w.compile(o.St, o.R(0), sliceOf(e, o.St, "ops", symPtr("a", w.opT, o.St)), tNil()) {
				if nn, k := isNonNilErr(o2.St, o2.R(1)); o2.Panic != nil || !k || nn {
					c.Fail("a call through reflection is rejected")
				}
				n++
			}
		}
		if n == 0 {
			undecided("not compiled")
		}
	})
}

func (c *Ctx) checkAdapter(w *callWorld, base *State, sg *types.Signature, f, fn *Term, k int) {
	n := sg.Params().Len()
	e := w.e
	s := base.clone()
	s.events = nil
	var ops []*Term
	for i := 0; i < k; i++ {
		ops = append(ops, symPtr(fmt.Sprintf("arg%d", i), w.opT, s))
	}
	list := sliceOf(e, s, "ops", ops...)
	compiled := 0
	unfit := func(oc Outcome) bool {
		bad := k != n
		for i := 0; i < n && i < k; i++ {
			want := rtype(sg.Params().At(i).Type())
			got := e.load(oc.St, fieldAddr(ops[i], "Type"), w.typeT)
			if v, kn := oc.St.eval(tEq(got, want)); !kn || !v {
				bad = true
			}
		}
		return bad
	}
	// a call on a value is no exception
	if k > 0 {
		on := s.clone()
		prev := symPtr("receiver", w.selT, on)
		on.heap[fieldAddr(prev, "Type")] = rtype(types.Typ[types.String])
		for _, oc := range w.compile(on, fn, list, prev) {
			if nn, known := isNonNilErr(oc.St, oc.R(1)); oc.Panic == nil && (!known || !nn) && unfit(oc) {
				c.FailAt(c.P.fnPos(w.newSel), "a call on a value is accepted with %d operands that need not have the function's parameter types", k)
			}
		}
	}
	for _, oc := range w.compile(s, fn, list, tNil()) {
		if oc.Panic != nil {
			c.FailAt(c.P.pos(oc.Pos), "compiling a call with %d arguments can panic", k)
			continue
		}
		bad := unfit(oc)
		nn, known := isNonNilErr(oc.St, oc.R(1))
		if !known {
			c.FailAt(c.P.fnPos(w.newSel), "compiling a call with %d arguments has an unclear result", k)
			continue
		}
		if nn {
			if !bad {
				c.FailAt(c.P.fnPos(w.newSel), "arguments of exactly the parameter types are rejected")
			}
			continue
		}
		if bad {
			c.FailAt(c.P.fnPos(w.newSel), "%d arguments that need not have the function's parameter types are accepted", k)
			continue
		}
		compiled++
		sel := oc.R(0)
		res := rtype(sg.Results().At(0).Type())
		if g := e.load(oc.St, fieldAddr(sel, "Type"), w.typeT); oc.St.value(g) != res {
			c.Fail("the call's type is %s instead of the function's result type %s", g, res)
		}
		c.checkAdapterCall(w, oc.St, sg, f, sel, ops, list)
	}
	if k == n && compiled == 0 && c.cur.Status == "ok" {
		c.FailAt(c.P.fnPos(w.newSel), "no argument list is accepted")
	}
}

func (c *Ctx) checkAdapterCall(w *callWorld, base *State, sg *types.Signature, f, sel *Term, ops []*Term, list *Term) {
	e := w.e
	n := len(ops)
	s := base.clone()
	s.events = nil
	fn := e.load(s, fieldAddr(sel, "Func"), types.NewPointer(c.P.typ("est/op", "Func")))
	args := e.load(s, fieldAddr(sel, "Args"), c.P.typeOfField("est/op", "Selector", "Args"))
	if es, ok := e.elems(s, args, w.opT); !ok || !sameTerms(es, ops) {
		c.Fail("the call's arguments are not the compiled operands")
		return
	}
	adapter := e.load(s, fieldAddr(fn, "Function"), c.P.typeOfField("est/op", "Func", "Function"))
	st := c.state()
	for _, o := range e.Apply(s, adapter, []*Term{args, st}) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "calling it with %d arguments can panic", n)
			continue
		}
		calls := dynCalls(o.St.events, f)
		if nn, kn := isNonNilErr(o.St, o.R(1)); !kn || nn {
			c.Fail("a call with the right arguments fails")
			continue
		}
		if len(calls) != 1 {
			c.FailAt(c.P.pos(o.Pos), "the function is called %d times", len(calls))
			continue
		}
		for i := 0; i < n; i++ {
			var evs []*Event
			for _, ev := range o.St.events {
				if ev.Callee == w.exec && ev.Args[0] == ops[i] {
					evs = append(evs, ev)
				}
			}
			if len(evs) != 1 || evs[0].Args[1] != st {
				c.FailAt(c.P.pos(o.Pos), "argument %d is evaluated %d times", i, len(evs))
				return
			}
			want := e.load(o.St, firstOf(evs[0]), sg.Params().At(i).Type())
			if got := calls[0].Args[i+1]; got != want && o.St.value(got) != o.St.value(want) {
				c.FailAt(c.P.pos(calls[0].Pos), "parameter %d receives %s instead of %s", i, got, want)
			}
		}
		want := mk("iface", "", sg.Results().At(0).Type(), firstOf(calls[0]))
		if got := o.R(0); got != want {
			c.FailAt(c.P.pos(o.Pos), "the call yields %s instead of the function's result", got)
		}
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	register(&Property{ID: "C29", Level: "other", MinObs: 35,
		Explanation: "Calls through reflection are analysed for functions of every arity up to the bound, with and without variadic parameters and error results, and for methods of interface values, with arbitrary operands: on every path the function is called at most once with exactly the operands' values in order, only after arity and assignability of every argument were established, and its result, its error or an argument error comes back.",
		Assumptions: []string{"reflect.Value behaves as documented", "an operand's value is decided by the operand rules"},
		Run:         runC29})
}

func tupleOf(ts ...types.Type) *types.Tuple {
	var vs []*types.Var
	for _, t := range ts {
		vs = append(vs, types.NewVar(0, nil, "", t))
	}
	return types.NewTuple(vs...)
}

func runC29(c *Ctx) {
	w := c.newCallWorld()
	errT := types.Universe.Lookup("error").Type()
	u := []types.Type{types.Typ[types.Uint16], types.Typ[types.Int16], types.Typ[types.Uint32], types.Typ[types.Int32], types.Typ[types.Uint64], types.Typ[types.Int64], types.Typ[types.Float32]}
	maxN := 5
	if c.thorough() {
		maxN = 7
	}
	for n := 0; n <= maxN; n++ {
		for _, variadic := range []bool{false, true} {
			ps := append([]types.Type(nil), u[:n]...)
			if variadic {
				if n == 0 {
					continue
				}
				ps[n-1] = types.NewSlice(ps[n-1])
			}
			for _, withErr := range []bool{false, true} {
				if withErr && (n != 1 || variadic) {
					continue
				}
				rs := []types.Type{types.Typ[types.Int16]}
				if withErr {
					rs = append(rs, errT)
				}
				sg := types.NewSignatureType(nil, nil, nil, tupleOf(ps...), tupleOf(rs...), variadic)
				name := sigText(sg)
				if variadic {
					name += " variadic"
				}
				c.Check("reflective-call", name, c.P.fnPos(w.newFn), func() { c.checkReflectCall(w, sg) })
			}
		}
	}
	c.Check("interface-method", "method of an interface value", c.P.fnPos(w.newFn), func() { c.checkIfaceMethod(w) })
	b := types.Typ
	tm := c.P.typOf("time", "Time")
	for _, T := range []types.Type{b[types.Int], b[types.Uint8], b[types.Bool], b[types.String], b[types.Float64], tm, types.NewPointer(tm), types.NewSlice(b[types.Int]),
		types.NewMap(b[types.String], b[types.Int]), types.NewMap(b[types.Int], tm), types.NewInterfaceType(nil, nil), c.P.typOf("fmt", "Stringer")} {
		T := T
		for i, R := range []types.Type{T, types.NewInterfaceType(nil, nil)} {
			R := R
			if types.IsInterface(T) && i > 0 {
				continue
			}
			name := typeName(T)
			if R != T {
				name += ", declared as interface{}"
			}
			c.Check("call-result", name, c.P.fnPos(c.P.fn("est/op", "Func.CallFunc")), func() { c.checkCallResult(w, T, R) })
		}
	}
	for _, n := range []int{0, 1, 2, 3} {
		for _, recv := range []bool{false, true} {
			n, recv := n, recv
			c.Check("call-operands", fmt.Sprintf("%d arguments, receiver %v", n, recv), c.P.fnPos(w.operands), func() { c.checkCallOperands(w, n, recv) })
		}
	}
	c.Check("call-compile", "function and operands", c.P.fnPos(w.newSel), func() { c.checkCallCompile(w) })
}

// operandValue is the event that evaluates an operand to an interface value.
func (w *callWorld) valueEvents(st *State, evs []*Event, op *Term) []*Event {
	var r []*Event
	for _, ev := range evs {
		if (ev.Callee == w.execI || ev.Callee == w.exec) && ev.Args[0] == op {
			r = append(r, ev)
		}
	}
	return r
}

func evName(ev *Event) string {
	n := ev.Name
	for i := 0; i < len(n); i++ {
		if n[i] == '!' {
			return n[:i]
		}
	}
	return n
}

func namedCalls(evs []*Event, name string) []*Event {
	var r []*Event
	for _, ev := range evs {
		if (ev.Kind == "call" || ev.Kind == "invoke") && evName(ev) == name {
			r = append(r, ev)
		}
	}
	return r
}

func (c *Ctx) checkReflectCall(w *callWorld, sg *types.Signature) {
	e := w.e
	s0 := newState()
	f := symT("fn", sg)
	setNil(s0, f, false)
	fv := mk("iface", "", sg, f)
	n := sg.Params().Len()
	calls := map[int]int{}
	for _, o := range e.Call(s0, w.newFn, []*Term{symPtr("fs", w.fsT, s0), symT("name", types.Typ[types.String]), fv, tNil()}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "registering the function can panic")
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(1)); !k || nn {
			c.Fail("the function is rejected")
			continue
		}
		fn := o.R(0)
		if g := e.load(o.St, fieldAddr(fn, "ResultType"), w.typeT); g != rtype(sg.Results().At(0).Type()) {
			c.Fail("the declared result type is %s", g)
		}
		body := e.load(o.St, fieldAddr(fn, "Function"), c.P.typeOfField("est/op", "Func", "Function"))
		hi := n + 1
		if sg.Variadic() {
			hi = n + 2
		}
		for k := 0; k <= hi; k++ {
			s := o.St.clone()
			s.events = nil
			var ops []*Term
			for i := 0; i < k; i++ {
				ops = append(ops, symPtr(fmt.Sprintf("arg%d", i), w.opT, s))
			}
			list := sliceOf(e, s, "ops", ops...)
			kept, nst := keptObjects(s), len(s.stores)
			for _, o2 := range e.Apply(s, body, []*Term{list, c.state()}) {
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "calling it with %d arguments can panic", k)
					continue
				}
				c.checkKept(o2.St, kept, nst, "calling the function")
				if c.reflectOutcome(w, o2, sg, mk("call", "reflect.ValueOf", nil, fv), ops, k) {
					calls[k]++
				}
			}
		}
	}
	for k := 1; k <= n+1; k++ {
		fits := k == n || sg.Variadic() && k >= n-1
		if fits && calls[k] == 0 && c.cur.Status == "ok" {
			c.Fail("it is never called with %d arguments", k)
		}
	}
}

// keptObjects are the objects that exist in a state.
func keptObjects(s *State) map[*Term]bool {
	kept := map[*Term]bool{}
	for a := range s.heap {
		kept[rootOf(a)] = true
	}
	return kept
}

// checkKept fails if an object that existed before was written.
func (c *Ctx) checkKept(s *State, kept map[*Term]bool, from int, what string) {
	for _, sr := range s.stores[from:] {
		if r := rootOf(sr.addr); kept[r] || !isFresh(r) {
			c.FailAt(c.P.pos(sr.pos), "%s writes %s, which other evaluations of the call use", what, sr.addr)
		}
	}
}

// reflectOutcome judges one path of a call through reflection and tells whether the function was called on it.
func (c *Ctx) reflectOutcome(w *callWorld, o Outcome, sg *types.Signature, caller *Term, ops []*Term, k int) bool {
	n := sg.Params().Len()
	required := n
	if sg.Variadic() {
		required--
	}
	evs := allEvents(o.St.events)
	cs := namedCalls(evs, "(reflect.Value).Call")
	nn, known := isNonNilErr(o.St, o.R(1))
	if len(cs) == 0 {
		if !known || !nn {
			c.FailAt(c.P.pos(o.Pos), "%d arguments: the function is not called and no error is reported", k)
			return false
		}
		// a call is refused only for a reason
		reason := k == 0 || k < required || k > n && !sg.Variadic()
		for _, ev := range evs {
			if v, kn := o.St.eval(firstOf(ev)); ev.Kind == "invoke" && isAssignTest(ev) && kn && !v {
				reason = true
			}
		}
		if !reason {
			c.FailAt(c.P.pos(o.Pos), "a call with %d fitting arguments is refused", k)
		}
		return false
	}
	if len(cs) > 1 {
		c.FailAt(c.P.pos(o.Pos), "the function is called %d times", len(cs))
		return true
	}
	cl := cs[0]
	if k < required || k > n && !sg.Variadic() {
		c.FailAt(c.P.pos(cl.Pos), "the function is called with %d arguments", k)
	}
	if !isCallOf(cl.Args[0], caller) {
		c.FailAt(c.P.pos(cl.Pos), "another function is called: %s", cl.Args[0])
	}
	if cl.Args[1].Op != "list" && !(k == 0) {
		c.FailAt(c.P.pos(cl.Pos), "the arguments are %s", cl.Args[1])
		return true
	}
	if len(cl.Args[1].Args) != k {
		c.FailAt(c.P.pos(cl.Pos), "%d of %d arguments are passed", len(cl.Args[1].Args), k)
		return true
	}
	for i := 0; i < k; i++ {
		arg := cl.Args[1].Args[i]
		ve := w.valueEvents(o.St, evs, ops[i])
		if len(ve) != 1 {
			c.FailAt(c.P.pos(cl.Pos), "argument %d is evaluated %d times", i, len(ve))
			return true
		}
		if ve[0].Args[1] != c.state() {
			c.FailAt(c.P.pos(cl.Pos), "argument %d is evaluated on another state", i)
		}
		v := firstOf(ve[0])
		isNil, kn := o.St.eval(tEq(v, tNil()))
		okArg := false
		switch {
		case kn && isNil:
			okArg = isCall(arg, "reflect.Zero") && arg.Args[0] == w.e.load(o.St, fieldAddr(ops[i], "Type"), w.typeT)
		case kn:
			okArg = isCall(arg, "reflect.ValueOf") && o.St.value(arg.Args[0]) == o.St.value(v)
		default:
			c.FailAt(c.P.pos(cl.Pos), "a null argument %d is not told from a value", i)
			continue
		}
		if !okArg {
			c.FailAt(c.P.pos(cl.Pos), "argument %d is %s instead of the operand's value", i, arg)
			continue
		}
		var pt types.Type
		if i < required {
			pt = sg.Params().At(i).Type()
		} else {
			pt = sg.Params().At(n - 1).Type().(*types.Slice).Elem()
		}
		tested := false
		for _, ev := range evs {
			if ev == cl {
				break
			}
			if v, kn := o.St.eval(firstOf(ev)); ev.Kind == "invoke" && isAssignTest(ev) && kn && v && isCall(ev.Args[0], "(reflect.Value).Type") && ev.Args[0].Args[0] == arg && ev.Args[1] == rtype(pt) {
				tested = true
			}
		}
		if !tested {
			c.FailAt(c.P.pos(cl.Pos), "argument %d is passed without being assignable to %s", i, pt)
		}
	}
	c.checkCallResults(w, o, firstOf(cl))
	return true
}

func isAssignTest(ev *Event) bool { return evName(ev) == "invoke reflect.Type.AssignableTo" }

func isCallOf(t, want *Term) bool {
	return t == want || t.Op == "call" && want.Op == "call" && isCall(t, want.Aux) && len(t.Args) == len(want.Args) && sameTerms(t.Args, want.Args)
}

// checkCallResults: the results of a call become the value and error of the expression.
func (c *Ctx) checkCallResults(w *callWorld, o Outcome, res *Term) {
	ln := w.e.lenOf(o.St, res)
	r := o.St.rangeOf(ln)
	nn, known := isNonNilErr(o.St, o.R(1))
	valT := c.P.typOf("reflect", "Value")
	el := func(i int64) *Term { return w.e.load(o.St, indexAddr(res, tInt(i)), valT) }
	iface := func(t *Term, i int64) bool {
		return isCall(t, "(reflect.Value).Interface") && t.Args[0] == el(i)
	}
	switch {
	case r.lo > 2:
		if !known || !nn {
			c.FailAt(c.P.pos(o.Pos), "a call with more than two results is accepted")
		}
	case r.lo == 1 && r.hi == 1:
		if !known || nn || !iface(o.R(0), 0) {
			c.FailAt(c.P.pos(o.Pos), "a call with one result yields (%s, %s)", o.R(0), o.R(1))
		}
	case r.lo == 2 && r.hi == 2:
		var second *Term
		for _, ev := range o.St.events {
			if ev.Kind == "call" && evName(ev) == "(reflect.Value).Interface" && ev.Args[0] == el(1) {
				second = firstOf(ev)
			}
		}
		if second == nil {
			c.FailAt(c.P.pos(o.Pos), "the second result of a call is not looked at")
			return
		}
		isNil, kn := o.St.eval(tEq(second, tNil()))
		switch {
		case !kn:
			c.FailAt(c.P.pos(o.Pos), "the error of a call is not told from its absence")
		case isNil:
			if !known || nn || !iface(o.R(0), 0) {
				c.FailAt(c.P.pos(o.Pos), "a call without error yields (%s, %s)", o.R(0), o.R(1))
			}
		default:
			if !known || !nn {
				c.FailAt(c.P.pos(o.Pos), "the error of a call is dropped")
			} else if !mentions(o.R(1), second) {
				c.FailAt(c.P.pos(o.Pos), "the error of a call becomes %s", o.R(1))
			}
		}
	case r.hi == 0:
		if o.R(0).Op != "nil" || !known || nn {
			c.FailAt(c.P.pos(o.Pos), "a call without result yields %s", o.R(0))
		}
	default:
		c.FailAt(c.P.pos(o.Pos), "the number of results of a call is not tested")
	}
}

// checkIfaceMethod: a method of an interface typed value is looked up on the value and gets the remaining operands.
// nullReceiver says that the receiver is known to be a null interface, or known not to be.
func nullReceiver(s *State, evs []*Event, null bool) bool {
	known := func(name string, val bool) bool {
		for _, ev := range namedCalls(evs, "(reflect.Value)."+name) {
			if v, k := s.eval(ev.Result); k && v == val {
				return true
			}
		}
		return false
	}
	kind := func(val bool) bool {
		for _, ev := range namedCalls(evs, "(reflect.Value).Kind") {
			if v, k := s.eval(tEq0(tSub(ev.Result, tInt(20)))); k && v == val {
				return true
			}
		}
		return false
	}
	if null {
		return known("IsValid", false) || kind(true) && known("IsNil", true)
	}
	return known("IsValid", true) && (kind(false) || known("IsNil", false))
}

func (c *Ctx) checkIfaceMethod(w *callWorld) {
	method := c.P.fn("est/op", "Functions.Method")
	execRV := c.P.fn("est/op", "Operand.ExecReflectValue")
	e := c.E.with(Opts{Opaque: opaqueSet(w.exec, w.execI, execRV)})
	s := newState()
	rT := symT("receiver", c.P.typeOfField("est/op", "Operand", "Type"))
	setNil(s, rT, false)
	s.assume(tEq(e.KindT(rT), tInt(20)), true)
	id := symT("id", types.Typ[types.String])
	called := 0
	for _, o := range e.Call(s, method, []*Term{symPtr("fs", w.fsT, s), rT, id, tNil()}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "resolving a method can panic")
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(1)); !k || nn {
			continue
		}
		ms := namedCalls(o.St.events, "invoke reflect.Type.MethodByName")
		has := false
		for _, ev := range ms {
			if ev.Args[0] != rT {
				continue
			}
			if ev.Args[1] != id {
				c.FailAt(c.P.pos(ev.Pos), "the method %s is looked up", ev.Args[1])
			}
			if v, k := o.St.eval(resN(ev, 1)); k && v {
				has = true
			}
		}
		if !has {
			continue
		}
		fn := o.R(0)
		if g := e.load(o.St, fieldAddr(fn, "ResultType"), w.typeT); g.Op == "nil" {
			c.Fail("a method has no result type")
		}
		body := e.load(o.St, fieldAddr(fn, "Function"), c.P.typeOfField("est/op", "Func", "Function"))
		if body.Op != "closure" && body.Op != "func" {
			continue // resolved before
		}
		for k := 1; k <= 3; k++ {
			s2 := o.St.clone()
			s2.events = nil
			var ops []*Term
			for i := 0; i < k; i++ {
				ops = append(ops, symPtr(fmt.Sprintf("arg%d", i), w.opT, s2))
			}
			for _, o2 := range e.Apply(s2, body, []*Term{sliceOf(e, s2, "ops", ops...), c.state()}) {
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "calling a method with %d operands can panic", k)
					continue
				}
				evs := allEvents(o2.St.events)
				cs := namedCalls(evs, "(reflect.Value).Call")
				if len(cs) == 0 {
					if nn, kn := isNonNilErr(o2.St, o2.R(1)); (!kn || !nn) && !nullReceiver(o2.St, evs, true) {
						c.FailAt(c.P.pos(o2.Pos), "the method is not called and no error is reported")
					} else if (!kn || !nn) && !isNilTerm(o2.St, o2.R(0)) {
						c.FailAt(c.P.pos(o2.Pos), "the method of a null interface yields %s", o2.R(0))
					}
					continue
				}
				called++
				if !nullReceiver(o2.St, evs, false) {
					c.FailAt(c.P.pos(cs[0].Pos), "the method of an interface that may be null is called")
				}
				cl := cs[0]
				if len(cs) > 1 {
					c.FailAt(c.P.pos(cl.Pos), "the method is called %d times", len(cs))
				}
				var owner []*Event
				for _, ev := range evs {
					if ev.Callee == execRV {
						owner = append(owner, ev)
					}
				}
				if len(owner) != 1 || owner[0].Args[0] != ops[0] || owner[0].Args[1] != c.state() {
					c.FailAt(c.P.pos(cl.Pos), "the receiver is not the first operand, evaluated once")
					continue
				}
				m := cl.Args[0]
				nameOK := isCall(m, "(reflect.Value).MethodByName") && m.Args[0] == firstOf(owner[0]) && (m.Args[1] == id || mentions(m.Args[1], id))
				if !nameOK {
					c.FailAt(c.P.pos(cl.Pos), "%s is called instead of the receiver's method", m)
				}
				var args []*Term
				if cl.Args[1].Op == "list" {
					args = cl.Args[1].Args
				}
				if len(args) != k-1 {
					c.FailAt(c.P.pos(cl.Pos), "%d of %d arguments are passed", len(args), k-1)
					continue
				}
				for i, a := range args {
					ve := w.valueEvents(o2.St, evs, ops[i+1])
					if len(ve) != 1 {
						c.FailAt(c.P.pos(cl.Pos), "argument %d is evaluated %d times", i, len(ve))
						continue
					}
					if isCall(a, "reflect.Zero") {
						continue
					}
					if !isCall(a, "reflect.ValueOf") || o2.St.value(a.Args[0]) != o2.St.value(firstOf(ve[0])) {
						c.FailAt(c.P.pos(cl.Pos), "argument %d is %s", i, a)
					}
				}
			}
		}
	}
	if called == 0 && c.cur.Status == "ok" {
		undecided("no method call found")
	}
}

// checkCallResult decides the result of calling a function declared to return R whose selector is of type T.
func (c *Ctx) checkCallResult(w *callWorld, T, R types.Type) {
	callF := c.P.fn("est/op", "Func.CallFunc")
	addErr := c.P.fn("est", "State.AddError")
	set := c.P.fn("est", "SetFieldValue")
	e := c.E.with(Opts{Opaque: opaqueSet(addErr, set)})
	s := newState()
	fn := symPtr("f", types.NewPointer(c.P.typ("est/op", "Func")), s)
	body := symT("body", nil)
	setNil(s, body, false)
	s.heap[fieldAddr(fn, "Function")] = body
	s.heap[fieldAddr(fn, "ResultType")] = rtype(R)
	s.heap[fieldAddr(fn, "XType")] = mk("call", xunsafePkg+".NewType", c.P.typeOfField("est/op", "Func", "XType"), rtype(R))
	acc := symPtr("acc", w.selT, s)
	s.heap[fieldAddr(acc, "Type")] = rtype(T)
	ops := symT("ops", types.NewSlice(w.opT))
	st := c.state()
	for _, o := range e.Call(s, callF, []*Term{fn, acc, ops, st}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "can panic")
			continue
		}
		ds := dynCalls(o.St.events, body)
		if len(ds) != 1 || ds[0].Args[1] != ops || ds[0].Args[2] != st {
			c.FailAt(c.P.pos(o.Pos), "the function is called %d times with its operands", len(ds))
			continue
		}
		val, er := firstOf(ds[0]), resN(ds[0], 1)
		n := 0
		for _, ev := range o.St.events {
			if ev.Callee == addErr {
				n++
				if ev.Args[0] != st || !mentions(o.St.value(ev.Args[1]), er) && o.St.value(ev.Args[1]) != o.St.value(er) {
					c.FailAt(c.P.pos(ev.Pos), "%s is reported instead of the function's error", ev.Args[1])
				}
			}
			if ev.Callee == set && (ev.Args[0] != e.load(o.St, fieldAddr(acc, "Field"), c.P.typeOfField("est/op", "Selector", "Field")) || ev.Args[2] != val || ev.Args[1] != e.load(o.St, fieldAddr(st, "MemPtr"), uptr())) {
				c.FailAt(c.P.pos(ev.Pos), "%s is written to the slot of another value", ev.Args[2])
			}
		}
		nn, k := isNonNilErr(o.St, er)
		if !k {
			c.FailAt(c.P.pos(o.Pos), "the error of the function is not looked at")
		} else if nn && n != 1 || !nn && n != 0 {
			c.FailAt(c.P.pos(o.Pos), "an error (%v) of the function is reported %d times", nn, n)
		}
		isNil, kn := o.St.eval(tEq(val, tNil()))
		res := o.R(0)
		switch {
		case !kn:
			c.FailAt(c.P.pos(o.Pos), "a null result is not told from a value")
		case isNil:
			if res.Op != "nil" {
				c.FailAt(c.P.pos(o.Pos), "a null result becomes %s", res)
			}
		default:
			byAddress := types.IsInterface(T)
			if _, ok := T.Underlying().(*types.Map); ok {
				byAddress = true
			}
			if byAddress && !valueCell(e, o.St, res, val, T) || !byAddress && (!isCall(res, xunsafePkg+".AsPointer") || res.Args[0] != val) {
				c.FailAt(c.P.pos(o.Pos), "the call yields %s instead of the place of the function's result", res)
			}
		}
	}
}

func (c *Ctx) checkCallOperands(w *callWorld, n int, recv bool) {
	compile := c.P.fn("", "Planner.compileExpr")
	operand := c.P.fn("est/op", "Expression.Operand")
	newExpr := c.P.fn("est/op", "NewExpression")
	e := c.E.with(Opts{Opaque: opaqueSet(compile, operand, newExpr)})
	s := newState()
	pl := symPtr("planner", w.plT, s)
	call := symPtr("call", w.callT, s)
	var xs []*Term
	exprT := c.P.typ("ast", "Expression")
	for i := 0; i < n; i++ {
		x := symT(fmt.Sprintf("x%d", i), exprT)
		setNil(s, x, false)
		xs = append(xs, x)
	}
	s.heap[fieldAddr(call, "Args")] = sliceOf(e, s, "xs", xs...)
	prev := tNil()
	if recv {
		prev = symPtr("prev", w.selT, s)
	}
	ok := 0
	for _, o := range e.Call(s, w.operands, []*Term{pl, call, prev}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "can panic")
			continue
		}
		nn, k := isNonNilErr(o.St, o.R(1))
		failed := false
		var ops []*Event
		evs := allEvents(o.St.events)
		src := map[*Term]*Term{} // expression -> source
		for _, ev := range evs {
			switch ev.Callee {
			case compile:
				src[firstOf(ev)] = ev.Args[1]
				if v, kn := isNonNilErr(o.St, resN(ev, 1)); !kn || v {
					failed = true
				}
			case newExpr:
				src[firstOf(ev)] = ev.Args[0]
			case operand:
				ops = append(ops, ev)
				if v, kn := isNonNilErr(o.St, resN(ev, 1)); !kn || v {
					failed = true
				}
			}
		}
		if !k {
			c.FailAt(c.P.pos(o.Pos), "the result is unclear")
			continue
		}
		if nn != failed {
			c.FailAt(c.P.pos(o.Pos), "the operands compile to an error: %v, but one of them failed: %v", nn, failed)
			continue
		}
		if nn {
			continue
		}
		ok++
		want := append([]*Term(nil), xs...)
		if recv {
			want = append([]*Term{prev}, xs...)
		}
		es, kn := e.elems(o.St, o.R(0), w.opT)
		if !kn || len(es) != len(want) {
			c.FailAt(c.P.pos(o.Pos), "%d operands are made of %d arguments", len(es), len(want))
			continue
		}
		for i, x := range es {
			found := false
			for _, ev := range ops {
				if firstOf(ev) == x && src[ev.Args[0]] == want[i] {
					found = true
				}
			}
			if !found {
				c.FailAt(c.P.pos(o.Pos), "operand %d is not made of argument %d", i, i)
			}
		}
	}
	if ok == 0 && c.cur.Status == "ok" {
		c.Fail("no argument list compiles")
	}
}

func (c *Ctx) checkCallCompile(w *callWorld) {
	e := w.e
	s := newState()
	str := types.Typ[types.String]
	pl, call := symPtr("planner", w.plT, s), symPtr("call", w.callT, s)
	id, method := symT("id", str), symT("method", str)
	prev := symT("prev", w.selT)
	resT := c.P.typeOfField("est/op", "Func", "ResultType")
	w.fn, w.list = nil, nil
	ok := 0
	for _, o := range e.Call(s, w.newSel, []*Term{pl, id, method, call, prev}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "can panic")
			continue
		}
		failed := false
		var fn, ops, acc, typ *Term
		for _, ev := range o.St.events {
			switch ev.Callee {
			case w.find:
				fn = firstOf(ev)
				if ev.Args[1] != prev || ev.Args[2] != method || ev.Args[3] != call {
					c.FailAt(c.P.pos(ev.Pos), "another function is looked up: %s", ev.Args[2])
				}
			case w.operands:
				ops = firstOf(ev)
				if ev.Args[1] != call || ev.Args[2] != prev {
					c.FailAt(c.P.pos(ev.Pos), "operands of another call are compiled")
				}
			case w.acc:
				acc = firstOf(ev)
				continue
			case w.detect:
				typ = firstOf(ev)
			default:
				continue
			}
			if v, kn := isNonNilErr(o.St, resN(ev, 1)); !kn || v {
				failed = true
			}
		}
		nn, k := isNonNilErr(o.St, o.R(1))
		if !k {
			c.FailAt(c.P.pos(o.Pos), "the result is unclear")
			continue
		}
		if failed && !nn {
			c.FailAt(c.P.pos(o.Pos), "a call whose function or operands do not compile is accepted")
			continue
		}
		if nn {
			continue
		}
		ok++
		sel := o.R(0)
		get := func(n string) *Term { return e.load(o.St, fieldAddr(sel, n), c.P.typeOfField("est/op", "Selector", n)) }
		if fn == nil || get("Func") != fn {
			c.FailAt(c.P.pos(o.Pos), "the call uses %s instead of the function found", get("Func"))
			continue
		}
		if ops == nil || get("Args") != ops {
			c.FailAt(c.P.pos(o.Pos), "the call uses %s instead of its operands", get("Args"))
		}
		if get("Parent") != prev {
			c.FailAt(c.P.pos(o.Pos), "the call's receiver is %s", get("Parent"))
		}
		if v, kn := o.St.eval(get("Indirect")); !kn || !v {
			c.FailAt(c.P.pos(o.Pos), "a call counts as a plain variable")
		}
		declared := e.load(o.St, fieldAddr(fn, "ResultType"), resT)
		if g := get("Type"); o.St.value(g) != o.St.value(declared) && (typ == nil || g != typ) {
			c.FailAt(c.P.pos(o.Pos), "the call's type is %s instead of its function's result type", g)
		}
		if acc == nil {
			c.FailAt(c.P.pos(o.Pos), "the call has no slot of its own")
		} else if get("Field") != e.load(o.St, fieldAddr(acc, "Field"), c.P.typeOfField("est/op", "Selector", "Field")) {
			c.FailAt(c.P.pos(o.Pos), "the call's slot is not its own")
		}
	}
	if ok == 0 && c.cur.Status == "ok" {
		c.Fail("no call compiles")
	}
}

// valueCell tells whether a place holds an interface's value laid out as a type wants it.
func valueCell(e *Eng, s *State, p, val *Term, T types.Type) bool {
	it, isI := T.Underlying().(*types.Interface)
	if isFresh(rootOf(p)) {
		return isI && it.NumMethods() == 0 && e.load(s, p, nil) == val
	}
	for _, n := range []string{"Pointer", "UnsafePointer"} {
		if !isCall(p, "(reflect.Value)."+n) {
			continue
		}
		cell := p.Args[0]
		if isCall(cell, "reflect.ValueOf") && !isI {
			return isCall(cell.Args[0], "(*"+xunsafePkg+".Type).Ref") && cell.Args[0].Args[1] == val
		}
		if !isCall(cell, "reflect.New") || !sameR(cell.Args[0], T) {
			continue
		}
		for _, ev := range namedCalls(s.events, "(reflect.Value).Set") {
			x := ev.Args[1]
			if isCall(ev.Args[0], "(reflect.Value).Elem") && ev.Args[0].Args[0] == cell && isCall(x, "reflect.ValueOf") && x.Args[0] == val {
				return true
			}
		}
	}
	return false
}
