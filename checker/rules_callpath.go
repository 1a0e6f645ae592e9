package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pstep is one link of a path with calls, as written in a template.
type pstep struct {
	kind int // lkVar: a field, lkSlice: an index, lkFunc: a call
	name string
	args int
	T    types.Type // of its value; of a call: declared by the function
	told types.Type // the type a function that declares none tells
}

func (p pstep) text() string {
	switch p.kind {
	case lkVar:
		return "." + p.name
	case lkSlice:
		return "[i]"
	}
	t := ""
	for i := 0; i < p.args; i++ {
		if i > 0 {
			t += ", "
		}
		t += string(rune('a' + i))
	}
	return "." + p.name + "(" + t + ")"
}

func (p pstep) final() types.Type {
	if p.told != nil {
		return p.told
	}
	return p.T
}

// callPathWorld compiles paths with calls; what a name stands for and the types told are given.
type callPathWorld struct {
	*shapeWorld
	method, detect, acc, noFn *ssa.Function
	u                         *types.Named
	byName                    map[string]pstep
	ns                        map[string]bool // namespaces of functions
	reject                    func(recv *Term) bool
	calls                     map[int]*Term // the node of each call
	nodes                     map[int][]*Term
	pl                        map[types.Type]*Term
	defined                   map[types.Type][]Outcome
}

func (c *Ctx) newCallPathWorld() *callPathWorld {
	w := &callPathWorld{pl: map[types.Type]*Term{}, defined: map[types.Type][]Outcome{}, shapeWorld: c.newShapeWorld(), method: c.P.fn("est/op", "Functions.Method"),
		detect: c.P.fn("est/op", "Functions.TryDetectResultType"), acc: c.P.fn("", "Planner.accumulator")}
	inner := w.shapeWorld.model
	w.opts.Opaque = opaqueSet(w.compile, w.funcSel, w.slExec, w.mpExec, w.method, w.detect, w.acc)
	w.opts.Model = func(e *Eng, s *State, ev *Event) (*Term, bool) { return w.modelCalls(inner, e, s, ev) }
	w.e = c.E.with(w.opts)
	pkg := types.NewPackage("callpath", "callpath")
	mk := func(name string, fs ...*types.Var) *types.Named {
		return types.NewNamed(types.NewTypeName(0, pkg, name, nil), types.NewStruct(fs, nil), nil)
	}
	fld := func(n string, t types.Type) *types.Var { return types.NewField(0, pkg, n, t, false) }
	in := mk("Inner", fld("Pad", types.Typ[types.Int64]), fld("N", types.Typ[types.Int]))
	w.u = mk("U", fld("Pad", types.Typ[types.Int64]), fld("F", in), fld("P", types.NewPointer(in)), fld("Items", types.NewSlice(types.NewPointer(in))), fld("N", types.Typ[types.Int]))
	return w
}

func (w *callPathWorld) modelCalls(inner func(*Eng, *State, *Event) (*Term, bool), e *Eng, s *State, ev *Event) (*Term, bool) {
	c := w.c
	tuple := func(ts ...*Term) (*Term, bool) {
		ev.Result = mk("tuple", "", nil, ts...)
		s.emit(ev)
		return ev.Result, true
	}
	switch ev.Callee {
	case w.method:
		recv, name := ev.Args[1], ev.Args[2]
		n, ok := name.strVal()
		if !ok {
			undecided("a function named %v is looked up", name)
		}
		st, known := w.byName[n]
		if !known || w.reject != nil && w.reject(s.value(recv)) {
			return tuple(tNil(), mk("iface", "", types.Typ[types.Int], tStr("not found")))
		}
		f := symPtr("function "+n, types.NewPointer(c.P.typ("est/op", "Func")), s)
		s.heap[fieldAddr(f, "ResultType")] = rtype(st.T)
		// a function called through reflection: its operands are looked at when it is called
		fs := structOf(c.P.typ("est/op", "Func"))
		for i := 0; i < fs.NumFields(); i++ {
			if _, ok := fs.Field(i).Type().Underlying().(*types.Interface); ok && fs.Field(i).Name() != "ResultType" {
				s.heap[fieldAddr(f, fs.Field(i).Name())] = tNil()
			}
		}
		return tuple(f, tNil())
	case w.detect:
		n, ok := ev.Args[2].strVal()
		if !ok {
			undecided("the type of a function named %v is asked for", ev.Args[2])
		}
		if st := w.byName[n]; st.told != nil {
			return tuple(rtype(st.told), tNil())
		}
		return tuple(tNil(), tNil())
	case w.acc:
		a := symPtr(fmt.Sprintf("accumulator%d", len(s.events)), types.NewPointer(c.P.typ("est/op", "Selector")), s)
		fld := symPtr(fmt.Sprintf("accField%d", len(s.events)), types.NewPointer(w.fldT), s)
		s.heap[fieldAddr(a, "Field")] = fld
		s.heap[fieldAddr(fld, "Anonymous")] = tBool(false)
		s.heap[fieldAddr(fld, "Type")] = ev.Args[1]
		if t := rtOf(s.value(ev.Args[1])); t != nil {
			s.heap[fieldAddr(fld, "kind")] = tInt(reflectKind(t))
		}
		ev.Result = a
		s.emit(ev)
		return a, true
	case w.funcSel:
		n, _ := ev.Args[1].strVal()
		if !w.ns[n] {
			return tuple(tNil(), tBool(false))
		}
		lit := symPtr("namespace", types.NewPointer(c.P.typ("est/op", "Selector")), s)
		for _, p := range []string{"Func", "Slice", "Map", "InterfaceExec", "Cycle", "Parent", "Field"} {
			s.heap[fieldAddr(lit, p)] = tNil()
		}
		s.heap[fieldAddr(lit, "ID")] = ev.Args[1]
		s.heap[fieldAddr(lit, "Type")] = rtype(w.u)
		s.heap[fieldAddr(lit, "Indirect")] = tBool(false)
		return tuple(lit, tBool(true))
	case w.compile:
		node := s.value(ev.Args[1])
		x := symPtr("expression of "+node.String(), types.NewPointer(c.P.typ("est/op", "Expression")), s)
		s.heap[fieldAddr(x, "Type")] = rtype(types.Typ[types.Int])
		s.heap[fieldAddr(x, "LiteralPtr")] = symPtr("value of "+node.String(), types.NewPointer(uptr()), s)
		s.heap[fieldAddr(x, "Unify")] = tNil()
		s.heap[fieldAddr(x, "Selector")] = tNil()
		return tuple(x, tNil())
	}
	return inner(e, s, ev)
}

// parsed is the parsed form of a path; the first step of kind lkFunc is a call on nothing.
func (w *callPathWorld) parsed(s *State, root string, steps []pstep) *Term {
	c := w.c
	selT, idxT, callT := c.P.typ("ast/expr", "Select"), c.P.typ("ast/expr", "SliceIndex"), c.P.typ("ast/expr", "Call")
	exprT := c.P.typ("ast", "Expression")
	w.calls, w.nodes = map[int]*Term{}, map[int][]*Term{}
	next := tNil()
	selectNode := func(i int, name string) {
		n := mk("alloc", fmt.Sprintf("cpSelect%d", i), selT)
		s.heap[fieldAddr(n, "ID")] = tStr(name)
		s.heap[fieldAddr(n, "FullName")] = tStr("$" + name)
		s.heap[fieldAddr(n, "X")] = next
		next = mk("iface", "", types.NewPointer(selT), n)
	}
	for i := len(steps) - 1; i >= 0; i-- {
		switch st := steps[i]; st.kind {
		case lkVar:
			selectNode(i, st.name)
		case lkSlice:
			n := mk("alloc", fmt.Sprintf("cpIndex%d", i), idxT)
			x := symT(fmt.Sprintf("index%d", i), exprT)
			setNil(s, x, false)
			s.heap[fieldAddr(n, "X")] = x
			s.heap[fieldAddr(n, "Y")] = next
			next = mk("iface", "", types.NewPointer(idxT), n)
		case lkFunc:
			n := mk("alloc", fmt.Sprintf("cpCall%d", i), callT)
			var as []*Term
			for j := 0; j < st.args; j++ {
				a := symT(fmt.Sprintf("argument%d.%d", i, j), exprT)
				setNil(s, a, false)
				as = append(as, a)
			}
			s.heap[fieldAddr(n, "Args")] = sliceOf(w.e, s, fmt.Sprintf("cpArgs%d", i), as...)
			s.heap[fieldAddr(n, "X")] = next
			w.calls[i], w.nodes[i] = n, as
			next = mk("iface", "", types.NewPointer(callT), n)
			selectNode(i, st.name)
		}
	}
	if root != "" {
		selectNode(-1, root)
	}
	return next.Args[0]
}

// callPaths decides which functions, receivers and arguments the calls of a compiled path have.
func (c *Ctx) callPaths() {
	rule := "path-of-calls"
	ints := types.Type(types.Typ[types.Int])
	anyT := types.Type(types.NewInterfaceType(nil, nil))
	w0 := c.newCallPathWorld()
	u := w0.u
	inner := u.Underlying().(*types.Struct).Field(1).Type()
	pin := types.Type(types.NewPointer(inner))
	results := []pstep{{T: ints}, {T: pin}, {T: types.NewSlice(pin)}, {T: types.NewMap(types.Typ[types.String], pin)}, {T: anyT}, {T: anyT, told: types.NewSlice(ints)}, {T: types.NewPointer(u)}}
	const depth = 3
	type chain struct {
		root  string
		steps []pstep
	}
	groups := map[string][]chain{}
	var order []string
	add := func(root string, steps []pstep, label string) {
		has := false
		for _, s := range steps {
			has = has || s.kind == lkFunc
		}
		if !has {
			return
		}
		if groups[label] == nil {
			order = append(order, label)
		}
		groups[label] = append(groups[label], chain{root, append([]pstep(nil), steps...)})
	}
	callsOf := func(i int) []pstep {
		var r []pstep
		for k, b := range results {
			for n := 0; n <= 3; n++ {
				if (k > 0 || i > 0 && i < 9) && n != (k+i)%4 {
					continue
				}
				if i == 1 && k > 5 || i == 2 && k != 0 && k != 2 {
					continue
				}
				b := b
				b.kind, b.name, b.args = lkFunc, fmt.Sprintf("M%d", i), n
				r = append(r, b)
			}
		}
		return r
	}
	var grow func(root string, steps []pstep, T types.Type, called bool, label string)
	grow = func(root string, steps []pstep, T types.Type, called bool, label string) {
		add(root, steps, label)
		if len(steps) == depth {
			return
		}
		to := func(st pstep, calledNow bool, what string) {
			grow(root, append(append([]pstep(nil), steps...), st), st.final(), called || calledNow, label+what)
		}
		// another call
		for _, st := range callsOf(len(steps)) {
			to(st, true, " › call")
		}
		d := T
		if p, ok := d.Underlying().(*types.Pointer); ok {
			d = p.Elem()
		}
		switch x := d.Underlying().(type) {
		case *types.Struct:
			if called { // fields of a call's result don't compile
				return
			}
			for i := 1; i < x.NumFields(); i++ {
				to(pstep{kind: lkVar, name: x.Field(i).Name(), T: x.Field(i).Type()}, false, " › field")
			}
		case *types.Slice:
			if !isPtrT(T) {
				to(pstep{kind: lkSlice, T: x.Elem()}, false, " › element")
			}
		case *types.Map:
			to(pstep{kind: lkSlice, T: x.Elem()}, false, " › entry")
		}
	}
	grow("u", nil, u, false, "variable")
	grow("u", nil, types.NewPointer(u), false, "pointer variable")
	for _, st := range callsOf(9) {
		st.name = "f"
		grow("", []pstep{st}, st.final(), true, "function")
	}
	for _, st := range callsOf(9) {
		st.name = "g"
		grow("lib", []pstep{st}, st.final(), true, "namespace › call")
	}
	for _, label := range order {
		label := label
		c.Check(rule, label, c.P.fnPos(w0.selExpr), func() {
			w := c.newCallPathWorld()
			w.u = u
			n := 0
			for _, ch := range groups[label] {
				var vt types.Type = u
				if label[0] == 'p' {
					vt = types.NewPointer(u)
				}
				n += w.checkCallPath(vt, ch.root, ch.steps)
			}
			if n == 0 && c.cur.Status == "ok" {
				c.Fail("no such path compiles")
			}
		})
	}
}

func (w *callPathWorld) checkCallPath(vt types.Type, root string, steps []pstep) int {
	c := w.c
	txt := "$" + root
	for _, st := range steps {
		txt += st.text()
	}
	if root == "" {
		txt = "$" + txt[2:]
	}
	w.byName, w.ns, w.reject = map[string]pstep{}, map[string]bool{"lib": true}, nil
	for _, st := range steps {
		if st.kind == lkFunc {
			w.byName[st.name] = st
		}
	}
	compile := func(f func(o Outcome)) {
		var pl *Term
		var outs []Outcome
		if root == "u" {
			if w.pl[vt] == nil {
				w.pl[vt], w.defined[vt] = w.define(vt, "u", "", false)
			}
			pl, outs = w.pl[vt], w.defined[vt]
		} else {
			pl, outs = w.planner()
		}
		for _, o := range outs {
			if root == "u" {
				if nn, k := isNonNilErr(o.St, o.R(0)); o.Panic != nil || !k || nn {
					c.Fail("the variable can't be defined")
					continue
				}
			}
			s := o.St.clone()
			s.events = nil
			node := w.parsed(s, root, steps)
			for _, o2 := range w.e.Call(s, w.selExpr, []*Term{pl, node}, nil) {
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "compiling %s can panic", txt)
					continue
				}
				f(o2)
			}
		}
	}
	n := 0
	compile(func(o Outcome) {
		nn, k := isNonNilErr(o.St, o.R(1))
		if !k {
			undecided("compiling %s has an unclear result", txt)
		}
		if nn {
			return
		}
		n++
		w.checkCallLinks(o, vt, root, steps, txt)
	})
	if n == 0 {
		c.Fail("%s does not compile", txt)
	}
	// a method nobody knows is an error, also when a function of that name exists
	last := steps[len(steps)-1]
	if last.kind == lkFunc && (root != "" || len(steps) > 1) {
		want := w.before(vt, root, steps, len(steps)-1)
		w.reject = func(recv *Term) bool { return sameR(recv, want) }
		compile(func(o Outcome) {
			if nn, k := isNonNilErr(o.St, o.R(1)); !k || !nn {
				c.Fail("%s compiles although %s has no function %s", txt, typeName(want), last.name)
			}
		})
		w.reject = nil
	}
	return n
}

// before is the type of the value a link is applied to.
func (w *callPathWorld) before(vt types.Type, root string, steps []pstep, i int) types.Type {
	switch {
	case i > 0:
		return steps[i-1].final()
	case root == "lib":
		return w.u
	}
	return vt
}

func (w *callPathWorld) checkCallLinks(o Outcome, vt types.Type, root string, steps []pstep, txt string) {
	c, e, s := w.c, w.e, o.St
	selPtr := types.NewPointer(c.P.typ("est/op", "Selector"))
	get := func(b *Term, f string) *Term {
		return s.value(e.load(s, fieldAddr(b, f), c.P.typeOfField("est/op", "Selector", f)))
	}
	x := s.value(e.load(s, fieldAddr(o.R(0), "Selector"), selPtr))
	if g := s.value(e.load(s, fieldAddr(o.R(0), "Type"), c.P.typeOfField("est/op", "Expression", "Type"))); !sameR(g, steps[len(steps)-1].final()) {
		c.Fail("%s has the type %s instead of %s", txt, g, typeName(steps[len(steps)-1].final()))
		return
	}
	for i := len(steps) - 1; i >= 0; i-- {
		st := steps[i]
		if x == nil || x == tNil() {
			c.Fail("%s loses the link %s", txt, st.text())
			return
		}
		if g := get(x, "Type"); !sameR(g, st.final()) {
			c.Fail("%s: the link %s has the type %s", txt, st.text(), g)
			return
		}
		if st.kind == lkFunc {
			onNothing := i == 0 && root == ""
			fn := get(x, "Func")
			var asked *Event
			for _, ev := range s.events {
				if ev.Callee != w.method {
					continue
				}
				if n, _ := ev.Args[2].strVal(); n != st.name || resN(ev, 0) != fn {
					continue
				}
				recv := s.value(ev.Args[1])
				right := onNothing && (recv == tNil() || isNilTerm(s, recv))
				if !onNothing {
					right = sameR(recv, w.before(vt, root, steps, i))
				}
				if !right {
					c.FailAt(c.P.pos(ev.Pos), "%s: the function %s is looked up for %v", txt, st.name, recv)
					return
				}
				if s.value(ev.Args[3]) == w.calls[i] {
					asked = ev
				}
			}
			if asked == nil {
				c.Fail("%s: the link %s does not call the function its name was looked up for", txt, st.text())
				return
			}
			args := e.load(s, fieldAddr(x, "Args"), c.P.typeOfField("est/op", "Selector", "Args"))
			es, ok := e.elems(s, args, w.opT)
			if !ok {
				undecided("%s: operands %v", txt, args)
			}
			want := len(w.nodes[i])
			off := 0
			if !onNothing {
				off = 1
			}
			if len(es) != want+off {
				c.Fail("%s: the call %s has %d operands", txt, st.name, len(es))
				return
			}
			opGet := func(b *Term, f string) *Term {
				return s.value(e.load(s, fieldAddr(b, f), c.P.typeOfField("est/op", "Operand", f)))
			}
			if off == 1 && !sameR(opGet(es[0], "Type"), w.before(vt, root, steps, i)) {
				c.Fail("%s: the receiver of %s has the type %v", txt, st.name, opGet(es[0], "Type"))
			}
			for j, nd := range w.nodes[i] {
				if g := opGet(es[j+off], "LiteralPtr"); g != symPtr("value of "+nd.String(), types.NewPointer(uptr()), s) {
					c.Fail("%s: argument %d of %s is %v", txt, j+1, st.name, g)
				}
			}
			if g := get(x, "Field"); g == tNil() || isNilTerm(s, g) {
				c.Fail("%s: the call %s has no place for its result", txt, st.name)
			}
		} else if f := get(x, "Func"); f != tNil() {
			c.Fail("%s: the link %s calls %v", txt, st.text(), f)
			return
		}
		x = get(x, "Parent")
	}
	if root == "" && x != tNil() && !isNilTerm(s, x) {
		c.Fail("%s: the call is made on %v", txt, x)
	}
	if root != "" {
		if x == tNil() {
			c.Fail("%s loses its first link", txt)
			return
		}
		if g := get(x, "Func"); g != tNil() {
			c.Fail("%s: the variable is a call", txt)
		}
		if id, ok := get(x, "ID").strVal(); ok && id != root {
			c.Fail("%s starts from %s", txt, id)
		}
	}
}
