package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C26", Level: "other", MinObs: 60,
		Explanation: "The evaluation of a compiled path is interpreted for every chain of links (a variable, a namespace of functions, fields, elements of lists, maps and interface values, function and method calls) up to a length, with arbitrary values in between: on every path through it each link is evaluated at most once and in order, on exactly what the link before it yielded and at the level of indirection it expects; the receiver of a call is the value before it and the other arguments are the call's own; nothing of the compiled template is written, and a null on the way yields a fresh zero value. The compilation of written paths with calls is interpreted as well: every call of the path is of the function its own name was looked up for, on the type before it, with its own arguments in order.",
		Assumptions: []string{"what one call or index does is decided by C22, C24 and C29", "chains longer than the bound behave like the shorter ones"},
		Run:         runC26})
}

// link kinds
const (
	lkVar = iota // also a field
	lkNS         // a namespace of functions
	lkFunc
	lkSlice
	lkMap
	lkIface
)

var linkName = []string{"field", "namespace", "call", "element", "entry", "interface element"}

type link struct {
	kind int
	T    types.Type // of its value
}

type chainWorld struct {
	c                                       *Ctx
	e                                       *Eng
	up, call, slExec, mpExec, ifExec        *ssa.Function
	asI, asV                                *ssa.Function
	selT, fldT, opT                         types.Type
	sels, funcs, parts, fields, args, extra []*Term
}

func runC26(c *Ctx) {
	c.callPaths()
	w := &chainWorld{c: c, up: c.P.fn("est/op", "Upstream"), call: c.P.fn("est/op", "Func.CallFunc"), slExec: c.P.fn("est/op", "Slice.Exec"), mpExec: c.P.fn("est/op", "Map.Exec"), ifExec: c.P.fn("est/op", "Interface.Exec"),
		asI: c.P.fn("est/op", "Operand.AsInterface"), asV: c.P.fn("est/op", "Operand.AsValue"),
		selT: types.NewPointer(c.P.typ("est/op", "Selector")), fldT: types.NewPointer(c.P.typOf(xunsafePkg, "Field")), opT: types.NewPointer(c.P.typ("est/op", "Operand"))}
	w.e = c.E.with(Opts{Opaque: opaqueSet(w.call, w.slExec, w.mpExec, w.ifExec, w.asI, w.asV), MaxUnroll: 12, Model: w.model,
		InlineDep: func(f *ssa.Function) bool {
			return isConverter(f) || fnPkg(f) == xunsafePkg && (f.Name() == "ValuePointer" || f.Name() == "Pointer" || f.Name() == "DerefPointer" || f.Name() == "RefPointer")
		}})
	b := types.Typ
	anyT := types.Type(types.NewInterfaceType(nil, nil))
	st := types.Type(c.P.typ("ast/stmt", "Append"))
	p := types.Type(types.NewPointer(st))
	stringer := c.P.typOf("fmt", "Stringer")
	ints, ptrs := types.NewSlice(b[types.Int]), types.NewSlice(p)
	mInt, mPtr := types.NewMap(b[types.String], b[types.Int]), types.NewMap(b[types.String], p)
	// what can follow a value, by its type
	next := func(T types.Type, last int) []link {
		var r []link
		calls := func() {
			for _, R := range []types.Type{b[types.Int], st, p, ptrs, mPtr, mInt, stringer} {
				r = append(r, link{lkFunc, R})
			}
		}
		switch u := T.Underlying().(type) {
		case *types.Slice:
			r = append(r, link{lkSlice, u.Elem()})
		case *types.Map:
			r = append(r, link{lkMap, u.Elem()})
		case *types.Interface:
			if u.NumMethods() == 0 {
				r = append(r, link{lkIface, anyT})
			}
		case *types.Pointer, *types.Struct:
			if last != lkFunc {
				for _, F := range []types.Type{b[types.Int], b[types.String], st, p, ptrs, mPtr, stringer} {
					r = append(r, link{lkVar, F})
				}
			}
		}
		calls()
		return r
	}
	_ = ints
	depth := 3
	if c.thorough() {
		depth = 4
	}
	groups := map[string][][]link{}
	var names []string
	add := func(ch []link) {
		var n []string
		for _, l := range ch {
			n = append(n, linkName[l.kind])
		}
		k := strings.Join(n, ", ") + " of type " + typeName(ch[len(ch)-1].T)
		if groups[k] == nil {
			names = append(names, k)
		}
		groups[k] = append(groups[k], append([]link(nil), ch...))
	}
	var grow func(ch []link)
	grow = func(ch []link) {
		last := ch[len(ch)-1]
		if last.kind != lkNS {
			add(ch)
		}
		if len(ch) == depth {
			return
		}
		for _, n := range next(last.T, last.kind) {
			if last.kind == lkNS && n.kind != lkFunc {
				continue
			}
			grow(append(append([]link(nil), ch...), n))
		}
	}
	for _, T := range []types.Type{b[types.Int], st, p, ptrs, ints, mPtr, mInt, anyT, stringer} {
		grow([]link{{lkVar, T}})
	}
	grow([]link{{lkNS, st}})
	for _, T := range []types.Type{b[types.Int], p, ptrs, mPtr, anyT} {
		grow([]link{{lkFunc, T}})
	}
	for _, k := range names {
		k := k
		c.Check("chain", k, c.P.fnPos(w.up), func() {
			for _, ch := range groups[k] {
				for _, deref := range []bool{false, true} {
					w.chain(ch, deref)
				}
			}
		})
	}
}

// model keeps what links and conversions do abstract.
func (w *chainWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	switch ev.Callee {
	case w.call, w.slExec, w.mpExec, w.ifExec, w.asI, w.asV:
	default:
		return nil, false
	}
	n := 0
	for _, x := range s.events {
		if x.Callee == ev.Callee {
			n++
		}
	}
	s.emit(ev)
	return mk("call", fmt.Sprintf("%v!%d", ev.Callee, n), ev.Callee.Signature.Results().At(0).Type(), ev.Args...), true
}

func isMapT(T types.Type) bool { _, ok := T.Underlying().(*types.Map); return ok }
func isPtrT(T types.Type) bool { _, ok := T.Underlying().(*types.Pointer); return ok }

func (w *chainWorld) chain(ch []link, deref bool) {
	c := w.c
	s := newState()
	set := func(b *Term, n string, v *Term) { s.heap[fieldAddr(b, n)] = v }
	w.sels, w.funcs, w.parts, w.fields, w.args, w.extra = nil, nil, nil, nil, nil, nil
	parent := tNil()
	var argSlices []*Term
	for i, l := range ch {
		sel := symPtr(fmt.Sprintf("sel%d", i), w.selT, s)
		set(sel, "Type", rtype(l.T))
		set(sel, "Parent", parent)
		set(sel, "Indirect", tBool(true))
		for _, p := range []string{"Func", "Slice", "Map", "InterfaceExec", "Literal", "Cycle", "Field"} {
			set(sel, p, tNil())
		}
		var part, fld, arg, extra *Term
		obj := func(field, typ string) *Term {
			x := symPtr(fmt.Sprintf("%s%d", strings.ToLower(typ), i), types.NewPointer(c.P.typ("est/op", typ)), s)
			set(sel, field, x)
			return x
		}
		field := func() {
			fld = symPtr(fmt.Sprintf("field%d", i), w.fldT, s)
			set(sel, "Field", fld)
			set(fld, "Type", rtype(l.T))
			set(fld, "kind", tInt(reflectKind(rtype(l.T).Typ)))
			s.heap[fieldAddr(fld, "kind")] = s.value(w.e.KindT(rtype(l.T)))
		}
		switch l.kind {
		case lkVar:
			field()
		case lkNS:
			part = symT("namespace", uptr())
			setNil(s, part, false)
			set(sel, "Literal", part)
		case lkFunc:
			part = obj("Func", "Func")
			field()
			arg = symPtr(fmt.Sprintf("receiver%d", i), w.opT, s)
			extra = symPtr(fmt.Sprintf("arg%d", i), w.opT, s)
			set(arg, "Value", tNil())
			argSlice := sliceOf(w.e, s, fmt.Sprintf("args%d", i), arg, extra)
			argSlices = append(argSlices, argSlice)
			set(sel, "Args", argSlice)
		case lkSlice:
			part = obj("Slice", "Slice")
		case lkMap:
			part = obj("Map", "Map")
		case lkIface:
			part = obj("InterfaceExec", "Interface")
		}
		w.sels, w.parts, w.fields, w.args, w.extra = append(w.sels, sel), append(w.parts, part), append(w.fields, fld), append(w.args, arg), append(w.extra, extra)
		parent = sel
	}
	last := w.sels[len(ch)-1]
	name := w.text(ch)
	for _, o := range w.e.Call(s, w.up, []*Term{last, tBool(deref), tBool(false)}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling %s panics", name)
			continue
		}
		state := c.state()
		base := o.St
		mem := symT("mem", uptr())
		setNil(base, mem, false)
		base.heap[fieldAddr(state, "MemPtr")] = mem
		base.events = nil
		nst := len(base.stores)
		n := 0
		for _, o2 := range w.e.Apply(base, o.R(0), []*Term{state}) {
			n++
			if o2.Panic != nil {
				c.FailAt(c.P.pos(o2.Pos), "evaluating %s panics", name)
				continue
			}
			for _, sr := range o2.St.stores[nst:] {
				shared := !isFresh(rootOf(sr.addr))
				for _, a := range argSlices {
					shared = shared || mentions(sr.addr, a) || rootOf(sr.addr) == rootOf(a)
				}
				if shared {
					c.FailAt(c.P.pos(sr.pos), "evaluating %s writes %s", name, sr.addr)
				}
			}
			w.check(o2, ch, mem, state, name)
		}
		if n == 0 {
			undecided("%s is never evaluated", name)
		}
	}
}

func (w *chainWorld) text(ch []link) string {
	var r []string
	for _, l := range ch {
		r = append(r, linkName[l.kind]+" "+typeName(l.T))
	}
	return strings.Join(r, " → ")
}

// level is how a place leads to a value.
const (
	lvAddr   = iota // the address of the value
	lvDirect        // the pointer value itself
)

// check follows the chain along one path.
func (w *chainWorld) check(o Outcome, ch []link, mem, state *Term, name string) {
	c := w.c
	s := o.St
	var calls []*Event
	vals := map[*Term]*Event{}
	for _, ev := range s.events {
		switch ev.Callee {
		case w.call, w.slExec, w.mpExec, w.ifExec:
			calls = append(calls, ev)
		case w.asI, w.asV:
			vals[ev.Result] = ev
		}
	}
	at := c.P.fnPos(w.up)
	zero := func() bool {
		for _, ev := range s.events {
			if ev.Kind == "call" && evName(ev) == "reflect.New" && sameR(ev.Args[0], ch[len(ch)-1].T) && mentions(o.R(0), ev.Result) {
				return true
			}
		}
		return false
	}
	// leads tells whether a place leads to the value that p leads to at level lv
	leads := func(got *Term, wantLv int, p *Term, lv int) bool {
		switch {
		case lv == wantLv:
			return got == p
		case wantLv == lvDirect:
			return got == w.e.load(s, p, uptr())
		default: // boxed
			return isFresh(rootOf(got)) && w.e.load(s, got, uptr()) == p
		}
	}
	isNull := func(p *Term) bool { v, k := s.eval(tEq(p, tNil())); return k && v }
	p, lv := mem, lvAddr // of the value before the link
	var pT types.Type    // nil at the start
	k := 0
	nullOK := false
	for i, l := range ch {
		if i > 0 || l.kind == lkFunc {
			// a null before this link ends the evaluation
			direct := p
			if lv == lvAddr && pT != nil && isPtrT(pT) {
				direct = w.e.load(s, p, uptr())
			}
			nullOK = isNull(p) || pT != nil && isPtrT(pT) && isNull(direct)
			if nullOK && k == len(calls) && zero() {
				return
			}
			if isNull(p) && !(l.kind == lkFunc && isPtrT(pT)) {
				c.FailAt(at, "%s: a null before the %s does not yield a zero value but %v", name, linkName[l.kind], o.R(0))
				return
			}
		}
		take := func(f *ssa.Function) *Event {
			if k >= len(calls) || calls[k].Callee != f || calls[k].Args[0] != w.parts[i] {
				return nil
			}
			k++
			return calls[k-1]
		}
		switch l.kind {
		case lkVar:
			b := p
			if i > 0 && isPtrT(pT) {
				if lv == lvAddr {
					b = w.e.load(s, p, uptr())
				}
			}
			p = tAdd(w.e.load(s, fieldAddr(w.fields[i], "Offset"), types.Typ[types.Uintptr]), b)
			lv = lvAddr
		case lkNS:
			p, lv = w.parts[i], lvAddr
		case lkSlice, lkMap, lkIface:
			f := map[int]*ssa.Function{lkSlice: w.slExec, lkMap: w.mpExec, lkIface: w.ifExec}[l.kind]
			ev := take(f)
			if ev == nil {
				c.FailAt(at, "%s: the %s is not looked up exactly once in its turn", name, linkName[l.kind])
				return
			}
			if !leads(ev.Args[1], lvAddr, p, lv) || ev.Args[2] != state {
				c.FailAt(c.P.pos(ev.Pos), "%s: the %s is looked up in %v", name, linkName[l.kind], ev.Args[1])
				return
			}
			p, lv = ev.Result, lvAddr
			if isPtrT(l.T) {
				lv = lvDirect
			}
		case lkFunc:
			ev := take(w.call)
			if ev == nil {
				c.FailAt(at, "%s: the function is not called exactly once in its turn", name)
				return
			}
			if ev.Args[1] != w.sels[i] || ev.Args[3] != state {
				c.FailAt(c.P.pos(ev.Pos), "%s: the call is evaluated for %v in the state %v", name, ev.Args[1], ev.Args[3])
			}
			elem := ev.Args[2]
			if elem.Op != "list" {
				undecided("arguments %v", elem)
			}
			a := func(j int64) *Term { return elem.Args[j] }
			if len(elem.Args) != 2 {
				c.FailAt(c.P.pos(ev.Pos), "%s: the function is called with %d arguments", name, len(elem.Args))
				return
			}
			if a(1) != w.extra[i] {
				c.FailAt(c.P.pos(ev.Pos), "%s: the argument of the call is %v", name, a(1))
			}
			if i == 0 {
				if a(0) != w.args[i] {
					c.FailAt(c.P.pos(ev.Pos), "%s: the first argument of the call is %v", name, a(0))
				}
			} else {
				w.receiver(s, ev, a(0), i, pT, p, lv, leads, name)
			}
			p, lv = ev.Result, lvAddr
			if isPtrT(l.T) {
				lv = lvDirect
			}
		}
		pT = l.T
	}
	if k != len(calls) {
		c.FailAt(at, "%s: something is evaluated more than once", name)
	}
	r := o.R(0)
	if isNull(p) && zero() {
		return
	}
	if lv == lvAddr && isNull(p) && isNull(r) && ch[len(ch)-1].kind != lkVar {
		c.FailAt(at, "%s yields no place although its last link yields none", name)
		return
	}
	if lv == lvDirect && isNull(p) && isFresh(rootOf(r)) {
		return
	}
	if !leads(r, lvAddr, p, lv) {
		c.FailAt(at, "%s yields %v instead of the place of its last value %v [%s]", name, r, p, s.factStrings(0))
	}
}

// receiver checks the first operand of a call on the value before it.
func (w *chainWorld) receiver(s *State, ev *Event, r *Term, i int, pT types.Type, p *Term, lv int, leads func(*Term, int, *Term, int) bool, name string) {
	c := w.c
	in := s
	at := c.P.pos(ev.Pos)
	get := func(b *Term, f string) *Term {
		return w.e.load(in, fieldAddr(b, f), c.P.typeOfField("est/op", "Operand", f))
	}
	if r == w.args[i] {
		c.FailAt(at, "%s: the receiver is evaluated again instead of being passed on", name)
		return
	}
	st := structOf(c.P.typ("est/op", "Operand"))
	for j := 0; j < st.NumFields(); j++ {
		f := st.Field(j).Name()
		if f == "Value" || f == "Comp" {
			continue
		}
		if in.value(get(r, f)) != in.value(get(w.args[i], f)) {
			c.FailAt(at, "%s: the %s of the receiver's operand is %v", name, f, get(r, f))
		}
	}
	val := get(r, "Value")
	place, plv, ok := w.readFrom(s, val, i, pT)
	if val == tNil() {
		plv = lvAddr // only evaluated
	} else if !ok {
		c.FailAt(at, "%s: the receiver is %v", name, val)
		return
	} else if !leads(place, plv, p, lv) {
		c.FailAt(at, "%s: the receiver is read at %v (%v) at the wrong level instead of %v", name, place, w.e.load(s, place, uptr()), p)
	}
	comp := get(r, "Comp")
	_, iface := pT.Underlying().(*types.Interface)
	if v, k := in.eval(tEq(val, tNil())); k && v || !k && iface {
		// a null interface is evaluated at its place
		if in.value(comp) == tNil() || isNilTerm(in, comp) {
			c.FailAt(at, "%s: a null receiver is evaluated again", name)
			return
		}
		for _, o := range w.e.Apply(in.clone(), comp, []*Term{c.state()}) {
			if o.Panic != nil || !leads(o.R(0), plv, p, lv) {
				c.FailAt(at, "%s: a null receiver is read at %v", name, o.R(0))
			}
		}
		return
	}
	if in.value(comp) != tNil() && !isNilTerm(in, comp) {
		c.FailAt(at, "%s: the receiver is evaluated again", name)
	}
}

// readFrom says from which place and at which level a value was read.
func (w *chainWorld) readFrom(s *State, val *Term, i int, pT types.Type) (*Term, int, bool) {
	for _, ev := range s.events {
		if (ev.Callee == w.asI || ev.Callee == w.asV) && ev.Result == val && (sameOperand(w, s, ev.Args[0], w.args[i])) {
			lv := lvAddr
			if ev.Callee == w.asV && (isPtrT(pT) || isMapT(pT)) {
				lv = lvDirect
			}
			return ev.Args[1], lv, true
		}
	}
	return nil, 0, false
}

// sameOperand: a copy of the operand reads values the same way.
func sameOperand(w *chainWorld, s *State, got, want *Term) bool {
	if got == want {
		return true
	}
	for _, f := range []string{"Type", "XType", "NamedIFace", "LiteralPtr"} {
		T := w.c.P.typeOfField("est/op", "Operand", f)
		if s.value(w.e.load(s, fieldAddr(got, f), T)) != s.value(w.e.load(s, fieldAddr(want, f), T)) {
			return false
		}
	}
	return true
}
