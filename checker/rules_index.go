package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C24", Level: "other", MinObs: 30,
		Explanation: "Compiling an index is interpreted for every kind of value that is indexed: the selector it yields evaluates to an element of the right kind, and everything that cannot be indexed is an error. The compiled index is then interpreted for an arbitrary container, state and index: a list's element is addressed only on paths that proved the index is within the length read from the same list, a map is asked exactly for the prepared key and only if it can hold it, and every absence yields null.",
		Assumptions: []string{"reflect and the xunsafe accessors do what their documentation says", "the value of the index operand is decided by the operand rules (C04), its conversion to the map's keys by C25"},
		Run:         runC24})
}

type indexWorld struct {
	c                                           *Ctx
	e                                           *Eng
	match, compile, operand, exec, asI          *ssa.Function
	slExec, mpExec, ifExec                      *ssa.Function
	keyOf, nrm                                  *ssa.Function
	parent, idxExpr, idxOp, srcOp, unified, xsl *Term
	idxT                                        *Term // type of the index
	parentT                                     types.Type
	conv                                        *Term // conversion of the index to int
	unifyErr                                    *Term
	wrong                                       []string
}

func (c *Ctx) newIndexWorld() *indexWorld {
	w := &indexWorld{c: c,
		match: c.P.fn("", "Planner.matchCall"), compile: c.P.fn("", "Planner.compileExpr"), operand: c.P.fn("est/op", "Expression.Operand"),
		exec: c.P.fn("est/op", "Operand.Exec"), asI: c.P.fn("est/op", "Operand.AsInterface"),
		slExec: c.P.fn("est/op", "Slice.Exec"), mpExec: c.P.fn("est/op", "Map.Exec"), ifExec: c.P.fn("est/op", "Interface.Exec"),
		keyOf: c.P.fn("keys", "ValueOf"), nrm: c.P.fn("keys", "Normalize")}
	w.e = c.E.with(Opts{Opaque: opaqueSet(w.compile, w.operand, w.exec, w.asI, w.keyOf, w.nrm), Model: w.model,
		InlineDep: func(f *ssa.Function) bool { return fnPkg(f) == xunsafePkg && f.Name() == "DerefPointer" }})
	return w
}

func (w *indexWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	ret := func(t *Term) (*Term, bool) {
		ev.Result = t
		s.emit(ev)
		return t, true
	}
	tuple := func(ts ...*Term) (*Term, bool) { return ret(mk("tuple", "", nil, ts...)) }
	switch ev.Callee {
	case w.compile:
		return tuple(w.idxExpr, tNil())
	case w.operand:
		x := ev.Args[0]
		if x == w.idxExpr {
			return tuple(w.idxOp, tNil())
		}
		if e.load(s, fieldAddr(x, "Selector"), nil) == w.parent {
			return tuple(w.srcOp, tNil())
		}
		w.wrong = append(w.wrong, "the operand of "+x.String()+" takes the place of the indexed value or the index")
	}
	switch evName(ev) {
	case xunsafePkg + "/converter.Unify":
		if ev.Args[1] != w.idxT && ev.Args[0] != w.idxT {
			w.wrong = append(w.wrong, "the conversion is not one of the index")
		}
		if T := rtOf(ev.Args[0]); T == nil || !types.Identical(T, types.Typ[types.Int]) {
			w.wrong = append(w.wrong, "the index is not converted to int")
		}
		return tuple(w.unified, w.unifyErr)
	case xunsafePkg + ".NewSlice":
		s.heap[fieldAddr(w.xsl, "Type")] = ev.Args[0]
		return ret(w.xsl)
	}
	return reflectFacts(e, s, ev)
}

// begin is a world with an indexed value of a type.
func (w *indexWorld) begin(T types.Type, conv bool) *State {
	c := w.c
	s := newState()
	pt := func(n string) types.Type { return types.NewPointer(c.P.typ("est/op", n)) }
	set := func(b *Term, n string, v *Term) { s.heap[fieldAddr(b, n)] = v }
	w.wrong = nil
	w.parentT = T
	w.parent = symPtr("parent", pt("Selector"), s)
	w.idxExpr = symPtr("indexExpr", pt("Expression"), s)
	w.idxOp = symPtr("index", pt("Operand"), s)
	w.srcOp = symPtr("indexed", pt("Operand"), s)
	w.unified = symPtr("unified", types.NewPointer(c.P.typOf(xunsafePkg+"/converter", "Unified")), s)
	w.xsl = symPtr("xslice", types.NewPointer(c.P.typOf(xunsafePkg, "Slice")), s)
	w.idxT = symT("indexType", c.P.typOf("reflect", "Type"))
	setNil(s, w.idxT, false)
	w.unifyErr = tNil()
	w.conv = tNil()
	if conv {
		w.conv = symT("toInt", nil)
		setNil(s, w.conv, false)
	}
	set(w.parent, "Type", rtype(T))
	set(w.parent, "Func", tNil())
	set(w.idxOp, "Type", w.idxT)
	set(w.idxExpr, "Type", w.idxT)
	set(w.srcOp, "Type", rtype(T))
	it, isI := T.Underlying().(*types.Interface)
	set(w.srcOp, "NamedIFace", tBool(isI && it.NumMethods() > 0))
	set(w.unified, "Y", w.conv)
	return s
}

// selector compiles the index of a value of type T; nil results are errors.
func (w *indexWorld) compiled(s *State) []Outcome {
	si := symPtr("node", types.NewPointer(w.c.P.typ("ast/expr", "SliceIndex")), s)
	inner := symT("X", w.c.P.typ("ast", "Expression"))
	setNil(s, inner, false)
	s.heap[fieldAddr(si, "X")] = inner
	s.heap[fieldAddr(si, "Y")] = symT("rest", w.c.P.typ("ast", "Expression"))
	planner := symPtr("planner", w.match.Params[0].Type(), s)
	s.heap[fieldAddr(planner, "Control")] = symPtr("control", w.c.P.typeOfField("", "Planner", "Control"), s)
	return w.e.Call(s, w.match, []*Term{planner, mk("iface", "", types.NewPointer(w.c.P.typ("ast/expr", "SliceIndex")), si), w.parent, symT("id", types.Typ[types.String])}, nil)
}

func (w *indexWorld) failed(o Outcome) bool {
	nn, k := isNonNilErr(o.St, o.R(2))
	if !k {
		undecided("unclear whether compiling fails: %v", o.R(2))
	}
	return nn
}

func runC24(c *Ctx) {
	w := c.newIndexWorld()
	b := types.Typ
	anyT := types.Type(types.NewInterfaceType(nil, nil))
	named := c.P.typOf("time", "Time")
	elems := []types.Type{b[types.Int], b[types.String], b[types.Bool], b[types.Float64], b[types.Uint8], named, types.NewPointer(named), types.NewPointer(b[types.Int]),
		anyT, c.P.typOf("fmt", "Stringer"), types.NewSlice(b[types.String]), types.NewMap(b[types.String], b[types.Int]),
		types.NewPointer(anyT), types.NewPointer(types.NewMap(b[types.String], b[types.Int])), types.NewPointer(types.NewSlice(b[types.Int]))}
	pos := c.P.fnPos(w.match)
	for _, E := range elems {
		E := E
		L := types.NewSlice(E)
		for _, T := range []types.Type{L, types.NewPointer(L)} {
			T := T
			c.Check("list", "index of "+typeName(T), c.P.fnPos(w.slExec), func() {
				for _, conv := range []bool{false, true} {
					w.list(T, L, conv)
				}
			})
		}
		M := types.NewMap(b[types.String], E)
		c.Check("map", "index of "+typeName(M), c.P.fnPos(w.mpExec), func() { w.mapIndex(M) })
	}
	c.Check("interface", "index of an interface value", c.P.fnPos(w.ifExec), func() {
		for _, conv := range []bool{false, true} {
			w.iface(anyT, conv)
			w.iface(c.P.typOf("fmt", "Stringer"), conv)
		}
	})
	for _, T := range []types.Type{b[types.Int], b[types.String], b[types.Bool], named, types.NewPointer(named), b[types.Float64]} {
		T := T
		c.Check("rejected", "index of "+typeName(T), pos, func() {
			for _, o := range w.compiled(w.begin(T, true)) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "compiling the index of a value of type %v panics", T)
				} else if !w.failed(o) {
					c.FailAt(pos, "an index of a value of type %v compiles", T)
				}
			}
		})
	}
	for _, T := range []types.Type{types.NewSlice(b[types.Int]), types.NewMap(b[types.String], b[types.Int]), anyT} {
		T := T
		c.Check("rejected", "index of undefined type in "+typeName(T), pos, func() {
			s := w.begin(T, true)
			s.heap[fieldAddr(w.idxOp, "Type")] = tNil()
			for _, o := range w.compiled(s) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "compiling an index of undefined type panics")
				} else if !w.failed(o) {
					c.FailAt(pos, "an index of undefined type compiles")
				}
			}
		})
		if _, ok := T.(*types.Map); ok {
			continue
		}
		c.Check("rejected", "index that is no integer in "+typeName(T), pos, func() {
			s := w.begin(T, true)
			w.unifyErr = symT("unifyError", types.Universe.Lookup("error").Type())
			setNil(s, w.unifyErr, false)
			for _, o := range w.compiled(s) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "compiling an index that is no integer panics")
				} else if !w.failed(o) {
					c.FailAt(pos, "an index that cannot be converted to int compiles")
				}
			}
		})
	}
}

// each compiles the index and goes on with the selector.
func (w *indexWorld) each(T, elem types.Type, conv bool, part string, f func(s *State, x *Term)) {
	c := w.c
	n := 0
	for _, o := range w.compiled(w.begin(T, conv)) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling the index panics")
			continue
		}
		for _, m := range w.wrong {
			c.Fail("%s", m)
		}
		if w.failed(o) {
			c.Fail("an index of a value of type %v is rejected", T)
			continue
		}
		sel := o.R(0)
		if v := o.St.value(o.R(1)); v != symT("rest", w.c.P.typ("ast", "Expression")) {
			c.Fail("what follows the index is %v", v)
		}
		get := func(f string) *Term {
			return w.e.load(o.St, fieldAddr(sel, f), w.c.P.typeOfField("est/op", "Selector", f))
		}
		if g := get("Type"); !sameR(g, elem) {
			c.Fail("the element of a %v has the type %v", T, g)
		}
		if get("Parent") != w.parent {
			c.Fail("the element is not looked up in the indexed value")
		}
		if v, k := o.St.eval(get("Indirect")); !k || !v {
			c.Fail("the element is read from a fixed place")
		}
		for _, p := range []string{"Slice", "Map", "InterfaceExec", "Func", "Literal"} {
			if p != part && !isNilTerm(o.St, get(p)) {
				c.Fail("the index of a %v is looked up in the wrong way (%s)", T, p)
			}
		}
		x := get(part)
		if isNilTerm(o.St, x) {
			c.Fail("the index of a %v is not looked up as %s", T, part)
			continue
		}
		n++
		st := o.St
		st.events = nil
		f(st, x)
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("nothing compiles")
	}
}

func isNilTerm(s *State, t *Term) bool {
	v, k := s.eval(tEq(t, tNil()))
	return k && v
}

// index finds what a path read as index: the index and whether it is null.
func (w *indexWorld) index(o Outcome, state *Term) (idx *Term, null, ok bool) {
	var ev *Event
	for _, x := range o.St.events {
		if x.Callee == w.exec && x.Args[0] == w.idxOp && x.Args[1] == state {
			ev = x
		}
	}
	if ev == nil {
		return nil, false, false
	}
	p := ev.Result
	isNull := func(p *Term) bool { v, k := o.St.eval(tEq(p, tNil())); return k && v }
	if isNull(p) {
		return nil, true, true
	}
	if w.conv != tNil() {
		calls := dynCalls(o.St.events, w.conv)
		if len(calls) == 0 || calls[0].Args[1] != p && calls[0].Args[0] != p {
			return nil, false, false
		}
		if nn, k := isNonNilErr(o.St, resN(calls[0], 1)); k && nn {
			return nil, true, true
		}
		p = resN(calls[0], 0)
		if isNull(p) {
			return nil, true, true
		}
	}
	if v, k := o.St.eval(tEq(p, tNil())); !k || v {
		return nil, false, false
	}
	return w.e.load(o.St, p, types.Typ[types.Int]), false, true
}

// within checks that a path reads an element within the length, or panics outside of it.
func (w *indexWorld) within(o Outcome, idx, n *Term, panics bool) {
	c := w.c
	neg, k1 := o.St.eval(tLt0(idx))
	below, k2 := o.St.eval(tLt0(tSub(idx, n)))
	if panics {
		if k1 && neg || k2 && !below {
			return
		}
		c.FailAt(c.P.pos(o.Pos), "an index that may be within the list panics [%s]", o.St.factStrings(0))
		return
	}
	if !k1 || neg || !k2 || !below {
		c.FailAt(c.P.pos(o.Pos), "an element is read at an index that may be out of range [%s]", o.St.factStrings(0))
	}
}

func (w *indexWorld) list(T, L types.Type, conv bool) {
	c := w.c
	elem := L.(*types.Slice).Elem()
	w.each(T, elem, conv, "Slice", func(s *State, x *Term) {
		list := symT("list", uptr())
		setNil(s, list, false)
		state := c.state()
		if g := w.e.load(s, fieldAddr(w.xsl, "Type"), nil); !sameR(g, L) {
			c.Fail("the elements are addressed as those of %v", g)
		}
		found := 0
		for _, o := range w.e.Call(s, w.slExec, []*Term{x, list, state}, nil) {
			idx, null, ok := w.index(o, state)
			if !ok {
				c.FailAt(c.P.pos(o.Pos), "a path does not read the index")
				continue
			}
			if null {
				if o.Panic != nil || !isNilTerm(o.St, o.R(0)) {
					c.FailAt(c.P.pos(o.Pos), "a null index of a list yields %v", o.R(0))
				}
				continue
			}
			n := w.accessor("Len", o.St, w.xsl, list)
			w.within(o, idx, n, o.Panic != nil)
			if o.Panic != nil {
				continue
			}
			want := w.accessor("PointerAt", o.St, w.xsl, list, w.e.convert(o.St, idx, types.Typ[types.Int], types.Typ[types.Uintptr]))
			if _, isP := elem.Underlying().(*types.Pointer); isP {
				want = w.e.load(o.St, want, uptr())
			}
			if o.R(0) != want {
				c.FailAt(c.P.pos(o.Pos), "the element is %v instead of %v", o.R(0), want)
			}
			found++
		}
		if found == 0 && c.cur.Status == "ok" {
			c.Fail("no element is ever found")
		}
	})
}

// accessor is what a method of xunsafe.Slice returns.
func (w *indexWorld) accessor(name string, s *State, args ...*Term) *Term {
	T := types.NewPointer(w.c.P.typOf(xunsafePkg, "Slice"))
	m := types.NewMethodSet(T).Lookup(nil, name)
	if m == nil {
		undecided("no method %s of xunsafe.Slice", name)
	}
	outs := w.e.Call(s.clone(), w.match.Prog.MethodValue(m), args, nil)
	if len(outs) != 1 || outs[0].Panic != nil {
		undecided("xunsafe.Slice.%s has several outcomes", name)
	}
	return outs[0].R(0)
}

// entry checks the entry of a map a path yields.
func (w *indexWorld) entry(o Outcome, aMap []*Term, elem types.Type, knownMap bool, state *Term) bool {
	c := w.c
	if o.Panic != nil {
		c.FailAt(c.P.pos(o.Pos), "looking up a key panics")
		return false
	}
	res := o.R(0)
	is := func(t *Term, val bool) bool { v, k := o.St.eval(t); return k && v == val }
	null := isNilTerm(o.St, res)
	for _, m := range aMap {
		if is(tEq(m, tNil()), true) {
			if !null {
				c.FailAt(c.P.pos(o.Pos), "an index of a null map yields %v", res)
			}
			return false
		}
	}
	mv := func(t *Term) bool { return isCall(t, "reflect.ValueOf") && oneOf(t.Args[0], aMap) }
	for _, ev := range o.St.events {
		if evName(ev) == "(reflect.Value).Kind" && mv(ev.Args[0]) {
			if is(tEq0(tSub(ev.Result, tInt(21))), false) {
				if !null {
					c.FailAt(c.P.pos(o.Pos), "an index of a value that is no map yields %v", res)
				}
				return false
			}
			knownMap = knownMap || is(tEq0(tSub(ev.Result, tInt(21))), true)
		}
	}
	if !knownMap {
		c.FailAt(c.P.pos(o.Pos), "a path does not establish that the value is a map [%s]", o.St.factStrings(0))
		return false
	}
	var key, norm, val, ip *Event
	for _, ev := range o.St.events {
		switch {
		case ev.Callee == w.keyOf:
			key = ev
		case ev.Callee == w.nrm:
			norm = ev
		case ev.Callee == w.asI && ev.Args[0] == w.idxOp:
			ip = ev
		}
	}
	for _, ev := range namedCalls(o.St.events, "(reflect.Value).MapIndex") {
		val = ev
	}
	if key == nil || norm == nil || ip == nil {

		c.FailAt(c.P.pos(o.Pos), "a path does not prepare the key")
		return false
	}
	mt := key.Args[0]
	if !(mt.Op == "call" && mt.Aux != "" && len(mt.Args) > 0 && isCall(mt.Args[0], "(reflect.Value).Type") && mv(mt.Args[0].Args[0])) {
		c.FailAt(c.P.pos(o.Pos), "the key is prepared for %v", mt)
	}
	okPtr := false
	for _, ev := range o.St.events {
		if ev.Callee == w.exec && ev.Args[0] == w.idxOp && ev.Args[1] == state && ev.Result == ip.Args[1] {
			okPtr = true
		}
	}
	if !okPtr || norm.Args[0] != ip.Result || key.Args[1] != norm.Result {
		c.FailAt(c.P.pos(o.Pos), "the key looked up is not the normalized index")
	}
	if is(resN(key, 1), false) {
		if !null {
			c.FailAt(c.P.pos(o.Pos), "a key that the map cannot hold yields %v", res)
		}
		return false
	}
	if !is(resN(key, 1), true) || val == nil {
		c.FailAt(c.P.pos(o.Pos), "a path does not look up the key but yields %v [%s]", res, o.St.factStrings(0))
		return false
	}
	if !mv(val.Args[0]) || val.Args[1] != resN(key, 0) {
		c.FailAt(c.P.pos(o.Pos), "the entry is %v", val.Result)
	}
	valid := mk("none", "", nil)
	for _, ev := range namedCalls(o.St.events, "(reflect.Value).IsValid") {
		if ev.Args[0] == val.Result {
			valid = ev.Result
		}
	}
	if is(valid, false) {
		if !null {
			c.FailAt(c.P.pos(o.Pos), "a missing entry yields %v", res)
		}
		return false
	}
	if !is(valid, true) {
		c.FailAt(c.P.pos(o.Pos), "a path does not ask whether there is an entry")
		return false
	}
	iface := func(t *Term) bool { return isCall(t, "(reflect.Value).Interface") && t.Args[0] == val.Result }
	switch elem.Underlying().(type) {
	case *types.Interface:
		if !w.cell(o.St, res, val.Result, elem) {
			c.FailAt(c.P.pos(o.Pos), "an interface entry is read at %v", res)
		}
	case *types.Map:
		ok := isCall(res, xunsafePkg+".AsPointer") && res.Args[0].Op == "iface" && isCall(res.Args[0].Args[0], "(reflect.Value).Pointer") && res.Args[0].Args[0].Args[0] == val.Result
		ok = ok || isFresh(rootOf(res)) && isCall(w.e.load(o.St, res, nil), "(reflect.Value).Pointer")
		if !ok {
			c.FailAt(c.P.pos(o.Pos), "an entry that is a map is read at %v", res)
		}
	default:
		if !isCall(res, xunsafePkg+".AsPointer") || !iface(res.Args[0]) {
			c.FailAt(c.P.pos(o.Pos), "an entry is read at %v", res)
		}
	}
	return true
}

// cell tells whether a place holds a reflected value laid out as an interface type wants it.
func (w *indexWorld) cell(s *State, p, val *Term, T types.Type) bool {
	iface := func(t *Term) bool { return isCall(t, "(reflect.Value).Interface") && t.Args[0] == val }
	if isFresh(rootOf(p)) {
		return T.Underlying().(*types.Interface).NumMethods() == 0 && iface(w.e.load(s, p, nil))
	}
	for _, n := range []string{"Pointer", "UnsafePointer"} {
		if !isCall(p, "(reflect.Value)."+n) || !isCall(p.Args[0], "reflect.New") || !sameR(p.Args[0].Args[0], T) {
			continue
		}
		for _, ev := range namedCalls(s.events, "(reflect.Value).Set") {
			x := ev.Args[1]
			if isCall(ev.Args[0], "(reflect.Value).Elem") && ev.Args[0].Args[0] == p.Args[0] && (x == val || isCall(x, "reflect.ValueOf") && iface(x.Args[0])) {
				return true
			}
		}
	}
	return false
}

func (w *indexWorld) mapIndex(M *types.Map) {
	c := w.c
	w.each(M, M.Elem(), true, "Map", func(s *State, x *Term) {
		m := symT("map", uptr())
		setNil(s, m, false)
		state := c.state()
		found := 0
		for _, o := range w.e.Call(s, w.mpExec, []*Term{x, m, state}, nil) {
			aMap := w.source(o, m)
			if len(aMap) == 0 {
				c.FailAt(c.P.pos(o.Pos), "a path does not read the map")
				continue
			}
			if w.entry(o, aMap, M.Elem(), true, state) {
				found++
			}
		}
		if found == 0 && c.cur.Status == "ok" {
			c.Fail("no entry is ever found")
		}
	})
}

// source lists the values a path read as the indexed one.
func (w *indexWorld) source(o Outcome, ptr *Term) []*Term {
	var r []*Term
	for _, ev := range o.St.events {
		if ev.Callee == w.asI && ev.Args[0] == w.srcOp && ev.Args[1] == ptr {
			r = append(r, ev.Result)
		}
	}
	return r
}

func oneOf(t *Term, ts []*Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func (w *indexWorld) iface(T types.Type, conv bool) {
	c := w.c
	anyT := types.Type(types.NewInterfaceType(nil, nil))
	plain := types.Identical(T, anyT) // laid out as interface{}
	w.each(T, anyT, conv, "InterfaceExec", func(s *State, x *Term) {
		p := symT("value", uptr())
		setNil(s, p, false)
		state := c.state()
		found := map[string]int{}
		for _, o := range w.e.Call(s, w.ifExec, []*Term{x, p, state}, nil) {
			var kind, v *Term
			for _, ev := range o.St.events {
				if evName(ev) == "(reflect.Value).Kind" && kind == nil && isCall(ev.Args[0], "reflect.ValueOf") {
					kind, v = ev.Result, ev.Args[0]
				}
			}
			if kind == nil || !oneOf(v.Args[0], w.source(o, p)) && (plain == false || v.Args[0] != w.e.load(o.St, p, T)) {
				c.FailAt(c.P.pos(o.Pos), "a path does not ask what the value is")
				continue
			}
			is := func(k int64, val bool) bool {
				b, known := o.St.eval(tEq0(tSub(kind, tInt(k))))
				return known && b == val
			}
			switch {
			case is(21, true):
				aMap := w.source(o, p)
				if len(aMap) == 0 {
					c.FailAt(c.P.pos(o.Pos), "a path does not read the map")
					continue
				}
				if w.entry(o, aMap, anyT, true, state) {
					found["map"]++
				}
			case is(23, true) || is(17, true):
				idx, null, ok := w.index(o, state)
				if !ok {
					c.FailAt(c.P.pos(o.Pos), "a path does not read the index")
					continue
				}
				if null {
					if o.Panic != nil || !isNilTerm(o.St, o.R(0)) {
						c.FailAt(c.P.pos(o.Pos), "a null index of a list yields %v", o.R(0))
					}
					continue
				}
				ls := namedCalls(o.St.events, "(reflect.Value).Len")
				if len(ls) == 0 || ls[0].Args[0] != v {

					c.FailAt(c.P.pos(o.Pos), "an index is used without reading the length of the list")
					continue
				}
				w.within(o, idx, ls[0].Result, o.Panic != nil)
				if o.Panic != nil {
					continue
				}
				r := o.R(0)
				at := mk("none", "", nil)
				for _, ev := range namedCalls(o.St.events, "(reflect.Value).Index") {
					at = ev.Result
				}
				if at.Op == "none" || !w.cell(o.St, r, at, anyT) || at.Args[0] != v || at.Args[1] != idx {
					c.FailAt(c.P.pos(o.Pos), "the element is read at %v", r)
				}
				found["list"]++
			case is(21, false) && is(23, false) && is(17, false):
				if o.Panic != nil || !isNilTerm(o.St, o.R(0)) {
					c.FailAt(c.P.pos(o.Pos), "an index of a value that is no list or map yields %v", o.R(0))
				}
			default:
				c.FailAt(c.P.pos(o.Pos), "a path does not tell lists and maps apart")
			}
		}
		if len(found) != 2 && c.cur.Status == "ok" {
			c.Fail("no entry or element is ever found")
		}
	})
}
