package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C07", Level: "other", MinObs: 60,
		Explanation: "For every kind of condition and every way it is obtained, the compiled #if and #for are analysed: on each path the branch taken is compared with the truth value of the condition (true, non-zero, non-empty, non-null).",
		Assumptions: []string{"conversion functions are those of the xunsafe converter"},
		Run:         runC07})
	register(&Property{ID: "C08", Level: "other", MinObs: 20,
		Explanation: "Blocks of every length up to 40 (thorough: 150) are compiled from opaque statements and analysed: executing the block runs every statement once, in source order; a failing compile step of any statement fails the block.",
		Run:         runC08})
	register(&Property{ID: "C09", Level: "other", MinObs: 15,
		Explanation: "The compiled #if, #for and #foreach are checked against the automaton of their control flow over all paths, loops being summarised for an arbitrary iteration; #foreach must bind the element at the iteration's index to the whole loop variable before each run of the body, for every index below the length.",
		Run:         runC09})
	register(&Property{ID: "C30", Level: "other", MinObs: 20,
		Explanation: "For every kind of variable the writes performed by State.SetValue (through the field accessors of the unsafe library) are compared with the variable's slot: all of it and nothing else is written; an unknown name is an error without writes.",
		Run:         runC30})
}

// isFieldMethod: accessors of xunsafe.Field that write; they are analysed through.
func isFieldMethod(f *ssa.Function) bool {
	if fnPkg(f) != "github.com/viant/xunsafe" || f.Signature.Recv() == nil {
		return false
	}
	n := namedOf(f.Signature.Recv().Type())
	return n != nil && n.Obj().Name() == "Field" && (strings.HasPrefix(f.Name(), "Set") || f.Name() == "Pointer" || f.Name() == "MustBeAssignable")
}

// xfield makes an accessor of a field of type T.
func (c *Ctx) xfield(s *State, name string, T types.Type) (fld, off *Term) {
	fld = symPtr("field:"+name, c.P.typeOfField("est/op", "Selector", "Field"), s)
	off = symT("offset:"+name, types.Typ[types.Uintptr])
	s.heap[fieldAddr(fld, "Offset")] = off
	s.heap[fieldAddr(fld, "kind")] = tInt(reflectKind(T))
	s.heap[fieldAddr(fld, "Type")] = rtype(T)
	return
}

// checkSlotWrite: exactly the slot dst of type T is written, all of it, with a value that comes from v.
func (c *Ctx) checkSlotWrite(st *State, stores []storeRec, evs []*Event, dst, v *Term, T types.Type, where string) (used map[*Event]bool) {
	used = map[*Event]bool{}
	size := stdSizes.Sizeof(T)
	n := 0
	var parts []string
	fromV := func(x *Term) bool {
		if v == nil || mentions(x, v) || v.Op == "iface" && mentions(x, v.Args[0]) {
			return true
		}
		ok := false
		x.subst(func(y *Term) *Term {
			if y.Op == "alloc" && st.heap[y] != nil && mentions(st.heap[y], v) {
				ok = true
			}
			return nil
		})
		return ok
	}
	for _, sr := range stores {
		if isFresh(rootOf(sr.addr)) && !strings.HasPrefix(rootOf(sr.addr).Aux, "in:") {
			continue
		}
		a := st.value(sr.addr)
		switch {
		case a == dst:
			n++
			if sr.typ == nil || stdSizes.Sizeof(sr.typ) != size {
				c.FailAt(c.P.pos(sr.pos), "%d bytes are written to a variable of %d bytes (%s)", stdSizes.Sizeof(sr.typ), size, typeName(T))
				return
			}
			if !fromV(sr.val) {
				c.FailAt(where, "the stored value is %s instead of %s", sr.val, v)
			}
		case a.Op == "fieldaddr" && a.Args[0] == dst:
			parts = append(parts, a.Aux)
		default:
			c.FailAt(c.P.pos(sr.pos), "%s is written, which is not the variable's slot %s", sr.addr, dst)
			return
		}
	}
	if len(parts) > 0 {
		sort.Strings(parts)
		if strings.Join(parts, ",") != "Cap,Data,Len" {
			c.FailAt(where, "only %s of the slice are written", strings.Join(parts, ","))
		}
		n++
	}
	for _, ev := range evs {
		switch {
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "xunsafe.Copy"):
			used[ev] = true
			n++
			if st.value(ev.Args[0]) != dst {
				c.FailAt(c.P.pos(ev.Pos), "a value is copied to %s", ev.Args[0])
			}
			if k, ok := st.value(ev.Args[2]).intVal(); !ok || k != size {
				c.FailAt(c.P.pos(ev.Pos), "%s bytes are copied to a variable of %d bytes", ev.Args[2], size)
			}
			if !fromV(ev.Args[1]) {
				c.FailAt(c.P.pos(ev.Pos), "the copied value is %s instead of %s", ev.Args[1], v)
			}
		case ev.Callee != nil && fnPkg(ev.Callee) == "reflect" && ev.Callee.Name() == "Set" && len(ev.Args) == 2:
			used[ev] = true
			n++
			if !mentions(ev.Args[0], dst) || !mentions(ev.Args[0], rtype(T)) {
				c.FailAt(c.P.pos(ev.Pos), "a value is set in %s", ev.Args[0])
			}
			isZero := v != nil && mentions(ev.Args[1], rtype(T)) && strings.Contains(ev.Args[1].String(), "reflect.Zero")
			if isZero {
				if isNil, k := st.eval(tEq(v, tNil())); !k || !isNil {
					c.FailAt(c.P.pos(ev.Pos), "the variable is set to zero although the value is not nil")
				}
			} else if !fromV(ev.Args[1]) {
				c.FailAt(c.P.pos(ev.Pos), "the value set is %s", ev.Args[1])
			}
		}
	}
	if n != 1 {
		c.FailAt(where, "a variable of type %s is written %d times", typeName(T), n)
	}
	return
}

func (c *Ctx) varKinds() []types.Type {
	var ts []types.Type
	for _, k := range append(append([]string{}, numKinds...), "string", "bool") {
		ts = append(ts, basicT(k))
	}
	st := c.P.typ("ast/stmt", "ForLoop")
	return append(ts, types.NewPointer(basicT("int")), types.NewPointer(st), st, types.NewSlice(basicT("int")),
		types.NewMap(basicT("string"), basicT("int")), types.NewInterfaceType(nil, nil), c.P.typOf("fmt", "Stringer"), types.NewArray(basicT("int"), 3), types.Typ[types.Complex64], types.Typ[types.Complex128])
}

func runC30(c *Ctx) {
	setV := c.P.fn("est", "State.SetValue")
	acc := c.P.fn("est", "Type.ValueAccessor")
	e := c.E.with(Opts{Opaque: opaqueSet(acc), InlineDep: isFieldMethod})
	name := symT("name", types.Typ[types.String])
	run := func(T types.Type, f func(o Outcome, ok bool, s *State, dst, v *Term)) {
		s := newState()
		state := c.state()
		fld, off := c.xfield(s, "F", T)
		var v *Term
		if types.IsInterface(T) {
			v = symT("v", T)
		} else {
			v = mk("iface", "", T, symT("v", T))
		}
		e := e.with(e.O)
		e.O.Model = func(e *Eng, s *State, ev *Event) (*Term, bool) {
			if strings.HasPrefix(evName(ev), "(reflect.Value).Set") && len(ev.Args) == 2 && isCall(ev.Args[1], "reflect.ValueOf") {
				if isNil, k := s.eval(tEq(ev.Args[1].Args[0], tNil())); !k || isNil {
					c.FailAt(c.P.pos(ev.Pos), "setting a variable to nil panics")
				}
			}
			if ev.Callee == acc && ev.Args[1] == name {
				ok := symT("found", types.Typ[types.Bool])
				ev.Result = mk("tuple", "", nil, fld, ok)
				s.emit(ev)
				return ev.Result, true
			}
			return nil, false
		}
		dst := tAdd(e.load(s, fieldAddr(state, "MemPtr"), uptr()), off)
		n := 0
		for _, o := range e.Call(s, setV, []*Term{state, name, v}, nil) {
			ok, k := o.St.eval(symT("found", types.Typ[types.Bool]))
			if !k {
				c.Fail("setting a variable does not depend on whether it is defined")
				continue
			}
			n++
			f(o, ok, s, dst, v)
		}
		if n == 0 && c.cur.Status == "ok" {
			undecided("no outcome")
		}
	}
	for _, T := range c.varKinds() {
		T := T
		c.Check("set-variable", typeName(T), c.P.fnPos(setV), func() {
			run(T, func(o Outcome, ok bool, s *State, dst, v *Term) {
				if o.Panic != nil {
					if !types.IsInterface(T) {
						c.FailAt(c.P.pos(o.Pos), "setting a variable can panic")
					} else if isNil, k := o.St.eval(tEq(v, tNil())); !k || isNil {
						c.FailAt(c.P.pos(o.Pos), "setting a variable to nil can panic")
					}
					return
				}
				if !ok {
					if nn, k := isNonNilErr(o.St, o.R(0)); !k || !nn {
						c.Fail("setting an undefined variable succeeds")
					}
					for _, sr := range o.St.stores {
						if !isFresh(rootOf(sr.addr)) {
							c.FailAt(c.P.pos(sr.pos), "setting an undefined variable writes %s", sr.addr)
						}
					}
					return
				}
				if nn, k := isNonNilErr(o.St, o.R(0)); !k || nn {
					c.Fail("setting a defined variable fails")
				}
				c.checkSlotWrite(o.St, o.St.stores, o.St.events, dst, v, T, c.P.fnPos(setV))
			})
		})
	}
}

// ---- conditions ----

func runC07(c *Ctx) {
	ifF := c.P.fn("est/stmt", "NewIf")
	forF := c.P.fn("est/stmt", "ForLoop")
	var ts []types.Type
	for _, k := range append(append([]string{}, numKinds...), "string", "bool") {
		ts = append(ts, basicT(k))
	}
	for _, k := range append(append([]string{}, numKinds...), "string", "bool") {
		ts = append(ts, types.NewPointer(basicT(k)))
	}
	st := c.P.typ("ast/stmt", "ForLoop")
	ts = append(ts, types.NewSlice(basicT("int")), types.NewPointer(st))
	forms := []exprForm{{"variable", false, true, false}, {"path", false, true, true}, {"computed", false, false, false}, {"literal", true, false, false}}
	for _, T := range ts {
		for _, f := range forms {
			T, f := T, f
			_, isPtr := T.(*types.Pointer)
			_, isSl := T.(*types.Slice)
			if (isPtr || isSl) && f.name != "path" {
				continue
			}
			c.Check("if-condition", typeName(T)+" "+f.name, c.P.fnPos(ifF), func() { c.checkIfCond(ifF, T, f, true) })
			if f.name != "literal" {
				c.Check("for-condition", typeName(T)+" "+f.name, c.P.fnPos(forF), func() { c.checkForCond(forF, T, f) })
			}
		}
	}
	c.Check("if-condition", "undefined", c.P.fnPos(ifF), func() {
		w := newExprWorld(c)
		s := newState()
		x := w.expr(s, "X", forms[0], basicT("int"), false)
		s.heap[fieldAddr(x.x, "Type")] = tNil()
		s.heap[fieldAddr(x.sel, "Type")] = tNil()
		newT := c.P.typ("est", "New")
		body := symT("new:body", newT)
		setNil(s, body, false)
		for _, o := range w.e.Call(s, ifF, []*Term{x.x, body, tNil()}, nil) {
			for _, cp := range newClosures(w.e, o.St, o.R(0), "") {
				if !cp.err {
					c.Fail("a condition of unknown type compiles")
				}
			}
		}
	})
}

// truth is the condition under which the value at cell val is true, and the facts needed to read it.
// mem is the state the memory is read in, st the one whose facts hold.
func (w *exprWorld) truth(mem, st *State, val *Term, T types.Type) *Term {
	e := w.e
	switch u := T.(type) {
	case *types.Pointer:
		p := e.load(mem, val, uptr())
		notNull := tNot(tEq(p, tNil()))
		if kindClass(u) == "" {
			return notNull
		}
		return tAnd(notNull, w.truth(mem, st, p, u.Elem()))
	case *types.Slice:
		return tLt0(tSub(tInt(0), e.load(mem, fieldAddr(val, "Len"), types.Typ[types.Int])))
	}
	v := e.load(mem, val, T)
	switch kindClass(T) {
	case "bool":
		return v
	case "int":
		// the representation decides: any integer of the same size reads the same zero
		for _, k := range numKinds {
			if O := basicT(k); kindClass(O) == "int" && stdSizes.Sizeof(O) == stdSizes.Sizeof(T) {
				z := tEq0(e.load(mem, val, O))
				if zero, k := st.eval(z); k {
					return tBool(!zero)
				}
			}
		}
		return tNot(tEq0(v))
	case "float":
		return tNot(binop(token.EQL, v, tConst(constFloat0, T), T, types.Typ[types.Bool]))
	case "string":
		if empty, k := st.eval(tEq(v, tStr(""))); k {
			return tBool(!empty)
		}
		return tLt0(tSub(tInt(0), e.lenOf(mem, v)))
	}
	return nil
}

func flowEngine(c *Ctx) *exprWorld {
	w := newExprWorld(c)
	o := w.e.O
	o.InlineDep = isConverter
	o.MaxRec = 3 // the condition's operand evaluates the operand of its expression
	w.e = c.E.with(o)
	return w
}

func (c *Ctx) checkIfCond(ifF *ssa.Function, T types.Type, f exprForm, hasElse bool) {
	w := flowEngine(c)
	s := newState()
	x := w.expr(s, "X", f, T, false)
	newT := c.P.typ("est", "New")
	body, els := symT("new:body", newT), symT("new:else", newT)
	setNil(s, body, false)
	setNil(s, els, false)
	state := c.state()
	n := 0
	for _, o := range w.e.Call(s, ifF, []*Term{x.x, body, els}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling #if can panic")
			continue
		}
		for _, cp := range w.compiled(o.St, o.R(0), x) {
			if nested := nestedErr(cp, body, els); nested != nil {
				if !cp.err || cp.errTerm != nested {
					c.Fail("a compile error of a branch is dropped")
				}
				continue
			}
			if cp.err {
				c.Fail("a %s condition does not compile: %s", typeName(T), cp.errTerm)
				continue
			}
			bodyC, elseC := oneResult(cp.st, body), oneResult(cp.st, els)
			if bodyC == nil || elseC == nil {
				c.Fail("a branch of #if is not compiled exactly once")
				continue
			}
			base := cp.st.clone()
			compileEvs := base.events
			base.events = nil
			nst := len(base.stores)
			where := c.P.fnPos(cp.compute.Fn)
			for _, o2 := range w.e.Apply(base, cp.compute, []*Term{state}) {
				n++
				st := o2.St
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "a condition can panic")
					continue
				}
				val, _, nv, used := w.value(st, x, "X", compileEvs, st.events, state)
				if nv != 1 {
					c.FailAt(where, "the condition is evaluated %d times", nv)
					continue
				}
				if nilV, k := st.eval(tEq(val, tNil())); k && nilV {
					continue
				}
				ran := ""
				for _, ev := range st.events {
					switch {
					case ev.Kind == "dyn" && ev.Args[0] == bodyC && ev.Args[1] == state:
						ran += "body "
					case ev.Kind == "dyn" && ev.Args[0] == elseC && ev.Args[1] == state:
						ran += "else "
					case used[ev], isBenign(ev), ev.Callee != nil && fnIsMethod(ev.Callee, modPath+"/est", "AddError"):
					default:
						c.FailAt(c.P.pos(ev.Pos), "#if also performs %s", shortName(ev.Name))
					}
				}
				for _, sr := range st.stores[nst:] {
					if !isFresh(rootOf(sr.addr)) {
						c.FailAt(c.P.pos(sr.pos), "evaluating a condition writes %s", sr.addr)
					}
				}
				if convFailed(st) {
					continue // reported as a template error (C04)
				}
				ran = strings.TrimSpace(ran)
				if ran != "body" && ran != "else" {
					c.FailAt(where, "one execution of #if runs: %q", ran)
					continue
				}
				if d := equalUnder(st, tBool(ran == "body"), w.truth(base, st, val, T), 0); d != "" {
					c.FailAt(where, "the %s branch is taken on a %s: %s", ran, typeName(T), d)
				}
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no compiled form")
	}
}

// convFailed: on this path a conversion error was reported.
func convFailed(st *State) bool {
	for _, ev := range st.events {
		if ev.Callee != nil && fnIsMethod(ev.Callee, modPath+"/est", "AddError") {
			return true
		}
	}
	return false
}

func oneResult(s *State, newT *Term) *Term {
	ds := dynCalls(s.events, newT)
	if len(ds) != 1 {
		return nil
	}
	r := firstOf(ds[0])
	setNil(s, r, false)
	return r
}

func nestedErr(cp compiled, news ...*Term) *Term {
	for _, n := range news {
		for _, d := range dynCalls(cp.st.events, n) {
			if nn, k := isNonNilErr(cp.st, resN(d, 1)); k && nn {
				return resN(d, 1)
			}
		}
	}
	return nil
}

// checkForCond: a loop whose condition is of type T enters the body exactly when the condition holds.
func (c *Ctx) checkForCond(forF *ssa.Function, T types.Type, f exprForm) {
	w := flowEngine(c)
	s := newState()
	x := w.expr(s, "X", f, T, false)
	newT := c.P.typ("est", "New")
	init, post, block := symT("new:init", newT), symT("new:post", newT), symT("block", c.P.typ("est", "Compute"))
	for _, t := range []*Term{init, post, block} {
		setNil(s, t, false)
	}
	state := c.state()
	n := 0
	for _, o := range w.e.Call(s, forF, []*Term{init, post, x.x, block}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling #for can panic")
			continue
		}
		for _, cp := range w.compiled(o.St, o.R(0), x) {
			if nested := nestedErr(cp, init, post); nested != nil {
				if !cp.err || cp.errTerm != nested {
					c.Fail("a compile error of a part of #for is dropped")
				}
				continue
			}
			if cp.err {
				c.Fail("a %s loop condition does not compile: %s", typeName(T), cp.errTerm)
				continue
			}
			initC, postC := oneResult(cp.st, init), oneResult(cp.st, post)
			if initC == nil || postC == nil {
				c.Fail("a part of #for is not compiled exactly once")
				continue
			}
			base := cp.st.clone()
			compileEvs := base.events
			base.events = nil
			where := c.P.fnPos(cp.compute.Fn)
			for _, o2 := range w.e.Apply(base, cp.compute, []*Term{state}) {
				n++
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "#for can panic")
					continue
				}
				// typestate: start -init-> test -(cond true)-> body -block-> post -post-> test; (cond false) -> done
				step := func(q string, ev *Event, seg []*Event, st *State) []string {
					is := func(fn *Term) bool {
						return ev.Kind == "dyn" && ev.Args[0] == fn && len(ev.Args) > 1 && ev.Args[1] == state
					}
					switch {
					case is(initC):
						if q == "start" {
							return []string{"test"}
						}
						return []string{"the initialiser runs after " + q}
					case is(block):
						switch w.condTruth(st, x, T, compileEvs, seg, state) {
						case 2:
							return nil
						case 1:
							if q == "test" {
								return []string{"post"}
							}
						}
						return []string{"the body runs without its condition"}
					case is(postC):
						if q == "post" {
							return []string{"test"}
						}
						return []string{"the post statement runs after " + q}
					}
					return []string{q}
				}
				end := runAuto(o2.St, o2.St.events, map[string]bool{"start": true}, step)
				for q := range end {
					if q != "test" && q != "done" {
						c.FailAt(where, "control flow of #for: %s", describeQ(q))
					}
				}
				if d := w.condTruth(o2.St, x, T, compileEvs, o2.St.events, state); d == 1 {
					c.FailAt(where, "#for ends although its condition holds")
				} else if d < 0 {
					c.FailAt(where, "#for ends without evaluating its condition")
				}
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no compiled form")
	}
}

func describeQ(q string) string {
	switch q {
	case "start":
		return "the loop ends before its initialiser"
	case "post":
		return "the loop ends without its post statement"
	}
	return q
}

// condTruth: 2 the path is impossible, 1 the last evaluation of the condition in evs is true, 0 false, -1 unknown or not evaluated.
func (w *exprWorld) condTruth(st *State, x *builtExpr, T types.Type, compileEvs, evs []*Event, state *Term) int {
	// the segment after the last loop event belongs to one evaluation
	seg := evs
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "loop" {
			seg = evs[i+1:]
			break
		}
	}
	val, _, n, _ := w.value(st, x, "X", compileEvs, seg, state)
	if n != 1 {
		return -1
	}
	if nilV, k := st.eval(tEq(val, tNil())); k && nilV {
		if kindClass(T) == "bool" || kindClass(T) == "int" {
			return 2 // a value that can't be null is evaluated to its zero value (C26)
		}
		return 0
	}
	t := w.truth(st, st, val, T)
	if equalUnder(st, tBool(true), t, 0) == "" {
		return 1
	}
	if equalUnder(st, tBool(false), t, 0) == "" {
		return 0
	}
	return -1
}

// runAuto runs a typestate automaton over the events of a path; loops are entered with every state their iterations can produce.
func runAuto(st *State, evs []*Event, in map[string]bool, step func(q string, ev *Event, seg []*Event, st *State) []string) map[string]bool {
	cur := in
	for i, ev := range evs {
		next := map[string]bool{}
		if ev.Kind == "loop" {
			seen := map[string]bool{}
			for q := range cur {
				seen[q] = true
			}
			for changed := true; changed; {
				changed = false
				for _, it := range ev.Loop.Iters {
					if !it.Back {
						continue
					}
					for q := range runAuto(it.St, it.Events, seen, step) {
						if !seen[q] {
							seen[q], changed = true, true
						}
					}
				}
			}
			cur = seen
			continue
		}
		for q := range cur {
			for _, n := range step(q, ev, evs[:i+1], st) {
				next[n] = true
			}
		}
		cur = next
	}
	return cur
}

// ---- sequences ----

func runC08(c *Ctx) {
	f := c.P.fn("est/stmt", "NewBlock")
	max := 40
	if c.thorough() {
		max = 150
	}
	newT := c.P.typ("est", "New")
	e := c.E.with(Opts{MaxUnroll: 400})
	state := c.state()
	for n := 0; n <= max; n++ {
		n := n
		c.Check("block", itoa(n)+" statements", c.P.fnPos(f), func() {
			s := newState()
			var news []*Term
			for i := 0; i < n; i++ {
				t := symT("new:"+itoa(i), newT)
				setNil(s, t, false)
				news = append(news, t)
			}
			done := false
			// the statements compile
			okEng := e.with(e.O)
			idx := map[*Term]int{}
			comps := map[*Term]int{}
			for i, t := range news {
				idx[t] = i
			}
			failAt := -1
			okEng.O.Model = func(e *Eng, s *State, ev *Event) (*Term, bool) {
				if ev.Kind != "dyn" {
					return nil, false
				}
				i, ok := idx[ev.Args[0]]
				if !ok {
					return nil, false
				}
				cT := symT("comp:"+itoa(i), c.P.typ("est", "Compute"))
				comps[cT] = i
				if i == failAt {
					er := symT("err:"+itoa(i), types.Universe.Lookup("error").Type())
					setNil(s, er, false)
					ev.Result = mk("tuple", "", nil, tNil(), er)
				} else {
					setNil(s, cT, false)
					ev.Result = mk("tuple", "", nil, cT, tNil())
				}
				s.emit(ev)
				return ev.Result, true
			}
			for _, o := range okEng.Call(s, f, []*Term{sliceOf(e, s, "stmts", news...)}, nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "building a block can panic")
					continue
				}
				for _, cp := range newClosures(okEng, o.St, o.R(0), "") {
					if cp.err {
						c.Fail("a block of %d statements does not compile", n)
						continue
					}
					base := cp.st.clone()
					base.events = nil
					for _, o2 := range okEng.Apply(base, cp.compute, []*Term{state}) {
						done = true
						if o2.Panic != nil {
							c.FailAt(c.P.pos(o2.Pos), "running a block can panic")
							continue
						}
						var order []int
						for _, ev := range o2.St.events {
							if ev.Kind == "dyn" {
								if i, ok := comps[ev.Args[0]]; ok && ev.Args[1] == state {
									order = append(order, i)
									continue
								}
							}
							if !isBenign(ev) {
								c.FailAt(c.P.pos(ev.Pos), "a block also performs %s", shortName(ev.Name))
							}
						}
						good := len(order) == n
						for i, x := range order {
							good = good && x == i
						}
						if !good {
							c.FailAt(c.P.fnPos(cp.compute.Fn), "a block of %d statements runs them in the order %v", n, order)
						}
					}
				}
				// a failing statement fails the block
				for _, k := range []int{0, n / 2, n - 1} {
					if k < 0 || k >= n {
						continue
					}
					failAt = k
					for _, cp := range newClosures(okEng, o.St.clone(), o.R(0), "") {
						if !cp.err || cp.errTerm.Op != "sym" || cp.errTerm.Aux != "err:"+itoa(k) {
							c.Fail("the compile error of statement %d of %d is dropped", k+1, n)
						}
					}
					failAt = -1
				}
			}
			if !done && c.cur.Status == "ok" {
				undecided("no compiled form")
			}
		})
	}
	// source statements become block statements one to one
	cb := c.P.fn("", "Planner.compileBlock")
	cs := c.P.fn("", "Planner.compileStmt")
	nb := f
	for _, n := range []int{0, 1, 2, 3, 7, 18} {
		n := n
		c.Check("block-compile", itoa(n)+" statements", c.P.fnPos(cb), func() {
			s := newState()
			planner := symT("planner", types.NewPointer(c.P.typ("", "Planner")))
			var nodes []*Term
			want := map[*Term]*Term{}
			for i := 0; i < n; i++ {
				nodes = append(nodes, symT("node:"+itoa(i), c.P.typ("ast", "Statement")))
			}
			blk := symPtr("block", types.NewPointer(c.P.typ("ast/stmt", "Block")), s)
			s.heap[fieldAddr(blk, "Stmt")] = sliceOf(c.E, s, "nodes", nodes...)
			e := c.E.with(Opts{Opaque: opaqueSet(cs, nb), MaxUnroll: 200})
			for _, o := range e.Call(s, cb, []*Term{planner, blk}, nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "compiling a block can panic")
					continue
				}
				var failed *Term
				seen := 0
				var nbEv *Event
				for _, ev := range o.St.events {
					switch ev.Callee {
					case cs:
						if seen >= n || ev.Args[1] != nodes[seen] {
							c.FailAt(c.P.pos(ev.Pos), "statement %d is compiled from %s", seen+1, ev.Args[1])
							return
						}
						want[nodes[seen]] = firstOf(ev)
						seen++
						if nn, k := isNonNilErr(o.St, resN(ev, 1)); k && nn {
							failed = resN(ev, 1)
						}
					case nb:
						nbEv = ev
					}
				}
				if failed != nil {
					if o.R(1) != failed {
						c.Fail("the compile error of statement %d is dropped", seen)
					}
					continue
				}
				if seen != n || nbEv == nil || o.R(0) != firstOf(nbEv) {
					c.Fail("%d of %d statements are compiled into the block", seen, n)
					continue
				}
				l := nbEv.Args[0]
				if l.Op == "nil" && n == 0 {
					continue
				}
				if l.Op != "list" || len(l.Args) != n {
					if n == 0 {
						continue
					}
					c.Fail("the block is built from %s", l)
					continue
				}
				for i, a := range l.Args {
					if a != want[nodes[i]] {
						c.Fail("statement %d of the block is %s", i+1, a)
					}
				}
			}
		})
	}
}

// ---- control flow ----

func runC09(c *Ctx) {
	ifF := c.P.fn("est/stmt", "NewIf")
	boolT := basicT("bool")
	comp := exprForm{"computed", false, false, false}
	c.Check("if", "without else", c.P.fnPos(ifF), func() { c.checkIfNoElse(ifF, boolT, comp) })
	c.Check("if", "with else", c.P.fnPos(ifF), func() { c.checkIfCond(ifF, boolT, comp, true) })
	forF := c.P.fn("est/stmt", "ForLoop")
	c.Check("for", "loop", c.P.fnPos(forF), func() { c.checkForCond(forF, boolT, comp) })
	eachF := c.P.fn("est/stmt", "ForEachLoop")
	for _, T := range c.varKinds() {
		T := T
		for _, f := range []exprForm{{"path", false, true, true}, {"literal", true, false, false}} {
			f := f
			c.Check("foreach", typeName(T)+" "+f.name, c.P.fnPos(eachF), func() { c.checkForEach(eachF, T, f) })
		}
	}
	c.flowCompile()
}

func (c *Ctx) checkIfNoElse(ifF *ssa.Function, T types.Type, f exprForm) {
	w := flowEngine(c)
	s := newState()
	x := w.expr(s, "X", f, T, false)
	body := symT("new:body", c.P.typ("est", "New"))
	setNil(s, body, false)
	state := c.state()
	n := 0
	for _, o := range w.e.Call(s, ifF, []*Term{x.x, body, tNil()}, nil) {
		for _, cp := range w.compiled(o.St, o.R(0), x) {
			if nestedErr(cp, body) != nil {
				if !cp.err {
					c.Fail("the compile error of the body is dropped")
				}
				continue
			}
			if cp.err {
				c.Fail("#if without #else does not compile")
				continue
			}
			bodyC := oneResult(cp.st, body)
			base := cp.st.clone()
			compileEvs := base.events
			base.events = nil
			where := c.P.fnPos(cp.compute.Fn)
			for _, o2 := range w.e.Apply(base, cp.compute, []*Term{state}) {
				n++
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "#if can panic")
					continue
				}
				val, _, nv, _ := w.value(o2.St, x, "X", compileEvs, o2.St.events, state)
				if nv != 1 {
					c.FailAt(where, "the condition is evaluated %d times", nv)
					continue
				}
				if nilV, k := o2.St.eval(tEq(val, tNil())); k && nilV {
					continue
				}
				ran := len(dynCalls(o2.St.events, bodyC))
				if ran > 1 {
					c.FailAt(where, "the body runs %d times", ran)
					continue
				}
				if d := equalUnder(o2.St, tBool(ran == 1), w.truth(base, o2.St, val, T), 0); d != "" {
					c.FailAt(where, "the body runs %d times: %s", ran, d)
				}
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no compiled form")
	}
}

func (c *Ctx) checkForEach(f *ssa.Function, T types.Type, form exprForm) {
	w := newExprWorld(c)
	o := w.e.O
	o.InlineDep = isFieldMethod
	w.e = c.E.with(o)
	s := newState()
	x := w.expr(s, "X", form, types.NewSlice(T), false)
	item := w.expr(s, "Item", exprForm{"variable", false, true, false}, T, false)
	s.heap[fieldAddr(item.sel, "ParentOffset")] = tInt(0)
	fld, off := c.xfield(s, "Item", T)
	s.heap[fieldAddr(item.sel, "Field")] = fld
	block := symT("new:block", c.P.typ("est", "New"))
	setNil(s, block, false)
	state := c.state()
	n := 0
	for _, o := range w.e.Call(s, f, []*Term{block, item.x, x.x}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling #foreach can panic")
			continue
		}
		for _, cp := range w.compiled(o.St, o.R(0), x, item) {
			if nested := nestedErr(cp, block); nested != nil {
				if !cp.err || cp.errTerm != nested {
					c.Fail("the compile error of the loop body is dropped")
				}
				continue
			}
			if cp.err {
				c.Fail("#foreach does not compile: %s", cp.errTerm)
				continue
			}
			blockC := oneResult(cp.st, block)
			if blockC == nil {
				c.Fail("the loop body is not compiled exactly once")
				continue
			}
			base := cp.st.clone()
			compileEvs := base.events
			base.events = nil
			nst := len(base.stores)
			where := c.P.fnPos(cp.compute.Fn)
			dst := tAdd(w.e.load(base, fieldAddr(state, "MemPtr"), uptr()), off)
			for _, o2 := range w.e.Apply(base, cp.compute, []*Term{state}) {
				n++
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "#foreach can panic")
					continue
				}
				c.checkForEachPath(w, o2.St, nst, x, compileEvs, state, dst, T, blockC, where)
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no compiled form")
	}
}

func (c *Ctx) checkForEachPath(w *exprWorld, st *State, nst int, x *builtExpr, compileEvs []*Event, state, dst *Term, T types.Type, blockC *Term, where string) {
	// the events before the loop locate the slice; the loop event holds an arbitrary iteration
	var li *LoopInfo
	var before, after []*Event
	for _, ev := range st.events {
		if ev.Kind == "loop" {
			if li != nil {
				c.FailAt(where, "#foreach runs more than one loop")
				return
			}
			li = ev.Loop
			continue
		}
		if li == nil {
			before = append(before, ev)
		} else {
			after = append(after, ev)
		}
	}
	if li == nil {
		if len(dynCalls(st.events, blockC)) > 0 {
			c.FailAt(where, "the body runs outside of a loop")
		}
		// an empty slice needs no loop: its length must be known to be zero
		val, _, nv, _ := w.value(st, x, "X", compileEvs, st.events, state)
		if nv == 1 {
			if zero, k := st.eval(tLt0(tSub(tInt(0), c.lenTerm(w, st, val)))); k && !zero {
				return
			}
		}
		c.FailAt(where, "#foreach does not iterate")
		return
	}
	val, _, nv, _ := w.value(st, x, "X", compileEvs, before, state)
	if nv != 1 {
		c.FailAt(where, "the iterated value is evaluated %d times before the loop", nv)
		return
	}
	if isN, k := st.eval(tEq(val, tNil())); k && isN {
		return // a slice is never null (C26)
	}
	for _, ev := range append(append([]*Event{}, before...), after...) {
		if ev.Kind == "dyn" && ev.Args[0] == blockC {
			c.FailAt(where, "the body also runs outside of the iterations")
		}
	}
	length := c.lenTerm(w, st, val)
	back := 0
	var stepIdx *Term
	for _, it := range li.Iters {
		runs := 0
		pos := -1
		for i, ev := range it.Events {
			if ev.Kind == "dyn" && ev.Args[0] == blockC {
				runs++
				pos = i
				if ev.Args[1] != state {
					c.FailAt(c.P.pos(ev.Pos), "the body runs with %s", ev.Args[1])
				}
			}
			if ev.Kind == "dyn" && ev.Args[0] != blockC {
				c.FailAt(c.P.pos(ev.Pos), "the iterated value is evaluated again inside the loop")
			}
		}
		if !it.Back {
			if runs != 0 {
				// a last iteration that leaves at its end
			}
			continue
		}
		back++
		if runs != 1 {
			c.FailAt(where, "one iteration runs the body %d times", runs)
			continue
		}
		// the element
		var elem *Term
		var idx *Term
		for _, ev := range it.Events[:pos] {
			if ev.Callee != nil && fnPkg(ev.Callee) == "github.com/viant/xunsafe" && (ev.Callee.Name() == "ValueAt" || ev.Callee.Name() == "ValuePointerAt") {
				if elem != nil {
					c.FailAt(where, "an iteration reads more than one element")
				}
				elem = firstOf(ev)
				if it.St.value(ev.Args[1]) != it.St.value(val) {
					c.FailAt(c.P.pos(ev.Pos), "the element is read from %s", ev.Args[1])
				}
				idx = it.St.value(ev.Args[2])
				_, isPtr := T.(*types.Pointer)
				if !isPtr && ev.Callee.Name() == "ValuePointerAt" && structOf(T) == nil {
					c.FailAt(c.P.pos(ev.Pos), "the loop variable is bound to the address of the element")
				}
			}
		}
		if elem == nil {
			c.FailAt(where, "the loop variable is not bound before the body")
			continue
		}
		// the index is the iteration number, from 0 by 1
		i0 := idx.subst(func(t *Term) *Term {
			if t == li.It {
				return tInt(0)
			}
			return nil
		})
		if d, ok := tSub(idx, li.It).intVal(); !ok || d != 0 {
			c.FailAt(where, "iteration i visits element %s (the first one is %s)", idx, i0)
		}
		if in, k := it.St.eval(tLt0(tSub(idx, length))); !k || !in {
			c.FailAt(where, "an iteration is not limited to the length of the slice")
		}
		stepIdx = idx
		if isN, k := it.St.eval(tEq(elem, tNil())); k && isN && !types.IsInterface(T) {
			continue // the element of a typed slice is no nil interface
		}
		used := c.checkSlotWrite(it.St, it.St.stores[min(nst, len(it.St.stores)):], it.Events[:pos], dst, elem, T, where)
		_ = used
	}
	if back == 0 {
		c.FailAt(where, "#foreach does not iterate")
		return
	}
	// leaving the loop means that every index was visited
	if stepIdx != nil {
		for _, it := range li.Iters {
			if it.Back {
				continue
			}
			left := stepIdx
			if len(dynCalls(it.Events, blockC)) > 0 {
				left = tAdd(stepIdx, tInt(1))
			}
			if more, k := it.St.eval(tLt0(tSub(left, length))); !k || more {
				c.FailAt(where, "#foreach can end before the last element")
			}
		}
	}
}

func (c *Ctx) lenTerm(w *exprWorld, st *State, val *Term) *Term {
	return w.e.load(st, fieldAddr(val, "Len"), types.Typ[types.Int])
}

// flowCompile: the syntax tree of each control statement reaches its run-time form part by part.
func (c *Ctx) flowCompile() {
	cs := c.P.fn("", "Planner.compileStmt")
	cb := c.P.fn("", "Planner.compileBlock")
	ce := c.P.fn("", "Planner.compileExpr")
	nc := c.P.fn("", "Planner.newCompute")
	newIf, forL, forE := c.P.fn("est/stmt", "NewIf"), c.P.fn("est/stmt", "ForLoop"), c.P.fn("est/stmt", "ForEachLoop")
	define := c.P.fn("", "Planner.DefineVariable")
	e := c.E.with(Opts{Opaque: opaqueSet(cs, cb, ce, nc, newIf, forL, forE, define)})
	planner := symT("planner", types.NewPointer(c.P.typ("", "Planner")))
	type res struct {
		o    Outcome
		by   map[string]*Event // compiled part -> event
		fin  *Event
		fail *Term
		def  *Event
	}
	run := func(nodeT string, fill func(s *State, node *Term) map[string]*Term, fin *ssa.Function, check func(r res)) {
		s := newState()
		typ := types.NewPointer(c.P.typ("ast/stmt", nodeT))
		node := symPtr("node", typ, s)
		parts := fill(s, node)
		n := 0
		for _, o := range e.Call(s, cs, []*Term{planner, mk("iface", "", typ, node)}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "compiling a statement can panic")
				continue
			}
			n++
			r := res{o: o, by: map[string]*Event{}}
			for _, ev := range o.St.events {
				switch ev.Callee {
				case cs, cb, ce, nc:
					a := ev.Args[1]
					if a.Op == "iface" {
						a = a.Args[0]
					}
					for nm, p := range parts {
						if a == p {
							if r.by[nm] != nil {
								c.FailAt(c.P.pos(ev.Pos), "the %s is compiled twice", nm)
							}
							r.by[nm] = ev
						}
					}
					if nn, k := isNonNilErr(o.St, resN(ev, 1)); k && nn {
						r.fail = resN(ev, 1)
					}
				case define:
					r.def = ev
					if nn, k := isNonNilErr(o.St, firstOf(ev)); k && nn {
						r.fail = firstOf(ev)
					}
				case fin:
					if ev.Callee != nil {
						r.fin = ev
					}
				}
			}
			if r.fail != nil {
				if o.R(1) != r.fail {
					c.Fail("a compile error is dropped")
				}
				continue
			}
			check(r)
		}
		if n == 0 && c.cur.Status == "ok" {
			undecided("no outcome")
		}
	}
	want := func(r res, i int, part string) {
		if r.by[part] == nil {
			c.Fail("the %s is not compiled", part)
			return
		}
		if r.fin.Args[i] != firstOf(r.by[part]) {
			c.Fail("the %s is compiled from %s", part, r.fin.Args[i])
		}
	}
	for _, hasElse := range []bool{true, false} {
		hasElse := hasElse
		name := "#if"
		if hasElse {
			name = "#if with #else"
		}
		c.Check("statement-parts", name, c.P.fnPos(cs), func() {
			run("If", func(s *State, node *Term) map[string]*Term {
				cond := symT("cond", c.P.typ("ast", "Expression"))
				s.heap[fieldAddr(node, "Condition")] = cond
				els := tNil()
				m := map[string]*Term{"condition": cond, "body": fieldAddr(node, "Body")}
				if hasElse {
					els = symPtr("else", types.NewPointer(c.P.typ("ast/stmt", "If")), s)
					m["else"] = els
				}
				s.heap[fieldAddr(node, "Else")] = els
				return m
			}, newIf, func(r res) {
				if r.fin == nil {
					c.Fail("#if is not compiled")
					return
				}
				want(r, 0, "condition")
				want(r, 1, "body")
				if hasElse {
					want(r, 2, "else")
				} else if r.fin.Args[2].Op != "nil" {
					c.Fail("#if without #else compiles to %s", r.fin.Args[2])
				}
			})
		})
	}
	c.Check("statement-parts", "#for", c.P.fnPos(cs), func() {
		run("ForLoop", func(s *State, node *Term) map[string]*Term {
			m := map[string]*Term{"initialiser": symT("init", c.P.typ("ast", "Statement")), "condition": symT("cond", c.P.typ("ast", "Expression")),
				"post statement": symT("post", c.P.typ("ast", "Statement")), "body": fieldAddr(node, "Body")}
			s.heap[fieldAddr(node, "Init")] = m["initialiser"]
			s.heap[fieldAddr(node, "Cond")] = m["condition"]
			s.heap[fieldAddr(node, "Post")] = m["post statement"]
			return m
		}, forL, func(r res) {
			if r.fin == nil {
				c.Fail("#for is not compiled")
				return
			}
			want(r, 0, "initialiser")
			want(r, 1, "post statement")
			want(r, 2, "condition")
			want(r, 3, "body")
			if i, b := indexOf(r.o.St.events, r.by["initialiser"]), indexOf(r.o.St.events, r.by["body"]); i > b {
				c.Fail("the loop variable is not in scope of the body")
			}
			if i, b := indexOf(r.o.St.events, r.by["initialiser"]), indexOf(r.o.St.events, r.by["condition"]); i > b {
				c.Fail("the loop variable is not in scope of the condition")
			}
			if i, b := indexOf(r.o.St.events, r.by["initialiser"]), indexOf(r.o.St.events, r.by["post statement"]); i > b {
				c.Fail("the loop variable is not in scope of the post statement")
			}
		})
	})
	c.Check("statement-parts", "#foreach", c.P.fnPos(cs), func() {
		itemID := symT("itemID", types.Typ[types.String])
		var item *Term
		run("ForEach", func(s *State, node *Term) map[string]*Term {
			item = symPtr("item", types.NewPointer(c.P.typ("ast/expr", "Select")), s)
			s.heap[fieldAddr(item, "ID")] = itemID
			m := map[string]*Term{"set": symT("set", c.P.typ("ast", "Expression")), "item": item, "body": fieldAddr(node, "Body")}
			s.heap[fieldAddr(node, "Set")] = m["set"]
			s.heap[fieldAddr(node, "Item")] = item
			return m
		}, forE, func(r res) {
			if r.fin == nil {
				// not a slice or unknown variable
				return
			}
			want(r, 0, "body")
			want(r, 1, "item")
			want(r, 2, "set")
			if r.def == nil || r.def.Args[1] != itemID {
				c.Fail("the loop variable is not defined")
				return
			}
			if indexOf(r.o.St.events, r.def) > indexOf(r.o.St.events, r.by["body"]) || indexOf(r.o.St.events, r.by["set"]) > indexOf(r.o.St.events, r.def) {
				c.Fail("the loop variable is defined out of order")
			}
			setT := e.load(r.o.St, fieldAddr(firstOf(r.by["set"]), "Type"), c.P.typeOfField("est/op", "Expression", "Type"))
			if !mentions(r.def.Args[2], setT) {
				c.Fail("the loop variable is typed %s", r.def.Args[2])
			}
			// an existing variable of another type must be rejected
			itT := e.load(r.o.St, fieldAddr(firstOf(r.by["item"]), "Type"), c.P.typeOfField("est/op", "Expression", "Type"))
			checked := false
			for _, ev := range r.o.St.events {
				if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, "AssignableTo") {
					if v, k := r.o.St.eval(ev.Result); k && v && ev.Args[1] == itT {
						checked = true
					}
				}
			}
			if !checked {
				c.Fail("the type of the loop variable is not checked against the element type")
			}
		})
	})
}

func indexOf(evs []*Event, ev *Event) int {
	for i, x := range evs {
		if x == ev {
			return i
		}
	}
	return -1
}
