package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C33", Level: "other", MinObs: 400,
		Explanation: "The scope type is interpreted from its constructor on, for every history of three (thorough: four) additions of variables, unnamed slots, embedded values and pointers, and derived copies: after each, every slot must be the field at its own position of a layout that keeps all earlier fields, be found by its own name only, and a copy and its origin must not change each other. Embedding a value into a state of such a type must write exactly the slot of its own type or report an error.",
		Assumptions: []string{"reflect.StructOf lays fields out in the order given, a field's offset depends only on the types up to it", "names other than the sampled ones behave like them"},
		Run:         runC33})
}

// layoutWorld interprets histories of a scope type.
type layoutWorld struct {
	*shapeWorld
	newType, addField, addTag, embed, accessor, accessors, holder, snapshot, reserve, embedVal *ssa.Function
	made                                                                                       map[types.Type]bool
	offs                                                                                       map[string]*Term
	ops                                                                                        []layOp
	typeT                                                                                      types.Type
}

// layOp is a step of a history.
type layOp struct {
	text  string
	name  string // "" if it is chosen by the type
	T     types.Type
	embed bool
	kind  string // add, copy, reserve
}

type laySlot struct {
	name  *Term
	T     types.Type
	embed bool
}

func (w *layoutWorld) offsetOf(fields []*types.Var) *Term {
	if len(fields) == 1 {
		return tInt(0)
	}
	key := ""
	for _, f := range fields {
		key += typKey(f.Type()) + ";"
	}
	if w.offs[key] == nil {
		w.offs[key] = symT(fmt.Sprintf("offset#%d", len(w.offs)+1), types.Typ[types.Uintptr])
	}
	return w.offs[key]
}

func (w *layoutWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	one := func(t *Term) (*Term, bool) {
		ev.Result = t
		s.emit(ev)
		return t, true
	}
	switch name := evName(ev); name {
	case "reflect.StructOf":
		l := ev.Args[0]
		if l.Op != "list" && l != tNil() {
			undecided("the fields of the layout are %v", l)
		}
		var vars []*types.Var
		var tags []string
		names := map[string]bool{}
		st := structOf(w.sfT)
		if l.Op == "list" {
			for _, f := range l.Args {
				f = s.value(f)
				if f.Op != "struct" {
					undecided("a field of the layout is %v", f)
				}
				var n, pkg, tag string
				var T types.Type
				var emb, ok bool
				known := true
				for i, a := range f.Args {
					a = s.value(a)
					switch st.Field(i).Name() {
					case "Name":
						n, ok = a.strVal()
						known = known && ok
					case "PkgPath":
						pkg, ok = a.strVal()
						known = known && ok
					case "Tag":
						tag, ok = a.strVal()
						known = known && ok
					case "Type":
						T = rtOf(a)
						known = known && T != nil
					case "Anonymous":
						emb, ok = s.eval(a)
						known = known && ok
					}
				}
				if !known {
					undecided("a field of the layout is %v", f)
				}
				switch {
				case n == "" || names[n]:
					undecided("making the layout panics: a field named %q is there already", n)
				case !token.IsExported(n) && pkg == "":
					undecided("making the layout panics: the field %s is not exported and has no package", n)
				case emb && pkg != "":
					undecided("making the layout panics: the embedded field %s is not exported", n)
				}
				names[n] = true
				vars = append(vars, types.NewField(token.NoPos, w.pkg, n, T, emb))
				tags = append(tags, tag)
			}
		}
		T := types.NewStruct(vars, tags)
		w.made[T] = true
		return one(rtype(T))
	case "invoke reflect.Type.Field":
		st, _ := rtOf(ev.Args[0]).(*types.Struct)
		i, ok := s.value(ev.Args[1]).intVal()
		if st != nil && ok && int(i) < st.NumFields() && i >= 0 {
			var vars []*types.Var
			for j := 0; j <= int(i); j++ {
				vars = append(vars, st.Field(j))
			}
			f := st.Field(int(i))
			sf := w.structField(f.Name(), f.Type(), st.Tag(int(i)), w.offsetOf(vars), f.Embedded())
			args := append([]*Term(nil), sf.Args...)
			for j := range args {
				switch structOf(w.sfT).Field(j).Name() {
				case "PkgPath":
					if !f.Exported() {
						args[j] = tStr("scope")
					}
				case "Index":
					args[j] = sliceOf(e, s, "index", tInt(i))
				}
			}
			return one(mk("struct", "", w.sfT, args...))
		}
		if st != nil && ok {
			w.c.FailAt(w.c.P.pos(ev.Pos), "field %d of a layout of %d fields is read", i, st.NumFields())
			undecided("a missing field is read")
		}
	case "strings.LastIndex", "strings.LastIndexByte", "strings.Index", "strings.IndexByte":
		a, ok := ev.Args[0].strVal()
		b, ok2 := ev.Args[1].strVal()
		if k, isB := ev.Args[1].intVal(); isB {
			b, ok2 = string(rune(k)), true
		}
		if ok && ok2 {
			if strings.Contains(name, "Last") {
				return one(tInt(int64(strings.LastIndex(a, b))))
			}
			return one(tInt(int64(strings.Index(a, b))))
		}
	case "strconv.Itoa":
		if i, ok := s.value(ev.Args[0]).intVal(); ok {
			return one(tStr(fmt.Sprint(i)))
		}
	case "strconv.FormatInt":
		if i, ok := s.value(ev.Args[0]).intVal(); ok {
			return one(tStr(fmt.Sprint(i)))
		}
	case "fmt.Sprint", "fmt.Sprintf":
		undecided("a name is made by %s", name)
	case "invoke reflect.Type.String", "invoke reflect.Type.Name":
		T := rtOf(ev.Args[0])
		if T == nil {
			return nil, false
		}
		if strings.HasSuffix(name, "String") {
			return one(tStr(types.TypeString(T, func(p *types.Package) string { return p.Name() })))
		}
		n, _ := T.(*types.Named)
		if n == nil {
			if b, isB := T.(*types.Basic); isB {
				return one(tStr(b.Name()))
			}
			return one(tStr(""))
		}
		return one(tStr(n.Obj().Name()))
	}
	return w.shapeWorld.model(e, s, ev)
}

func runC33(c *Ctx) {
	fn := func(n string) *ssa.Function { return c.P.fn("est", n) }
	w := &layoutWorld{shapeWorld: c.newShapeWorld(), newType: fn("NewType"), addField: fn("Type.AddField"), addTag: fn("Type.AddFieldWithTag"), embed: fn("Type.EmbedType"),
		accessor: fn("Type.ValueAccessor"), accessors: fn("Type.ValueAccessors"), holder: fn("Type.AnonymousHolder"), snapshot: fn("Type.Snapshot"),
		reserve: fn("Type.ReserveNewName"), embedVal: fn("State.EmbedValue"), made: map[types.Type]bool{}, offs: map[string]*Term{}, typeT: types.NewPointer(c.P.typ("est", "Type"))}
	w.e = c.E.with(Opts{Model: w.model, MaxUnroll: 40, Appends: true, InlineDep: func(f *ssa.Function) bool { return isFieldMethod(f) }})
	named := func(path, n string, T types.Type) types.Type {
		pkg := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
		return types.NewNamed(types.NewTypeName(token.NoPos, pkg, n, nil), T, nil)
	}
	intT, strT := types.Typ[types.Int], types.Typ[types.String]
	fields := func(ts ...types.Type) *types.Struct {
		var vs []*types.Var
		for i, T := range ts {
			vs = append(vs, types.NewField(token.NoPos, w.pkg, fmt.Sprintf("F%d", i), T, false))
		}
		return types.NewStruct(vs, nil)
	}
	item1, item2 := named("lay/shop", "Item", fields(intT)), named("lay2/shop", "Item", fields(strT, strT))
	cart := named("lay/shop", "Cart", fields(strT, intT))
	plain1, plain2 := fields(item1), fields(item2) // unnamed, of the same text
	w.ops = []layOp{
		{text: "variable A", name: "A", T: intT, kind: "add"},
		{text: "variable b", name: "b", T: strT, kind: "add"},
		{text: "variable Zoo", name: "Zoo", T: types.NewPointer(intT), kind: "add"},
		{text: "variable _x", name: "_x", T: types.NewSlice(intT), kind: "add"},
		{text: "slot", T: types.Typ[types.Float64], kind: "add"},
		{text: "slot of a reserved name", T: types.Typ[types.Bool], kind: "reserve"},
		{text: "embedded item", name: "Item", T: item1, embed: true, kind: "add"},
		{text: "embedded pointer", name: "Cart", T: types.NewPointer(cart), embed: true, kind: "add"},
		{text: "embedded unnamed type", T: plain1, embed: true, kind: "add"},
		{text: "embedded unnamed type of the same text", T: plain2, embed: true, kind: "add"},
		{text: "copy", kind: "copy"},
	}
	depth := 3
	if c.thorough() {
		depth = 4
	}
	var chain func(ops []layOp, left int)
	chain = func(ops []layOp, left int) {
		if len(ops) > 0 {
			var n []string
			for _, o := range ops {
				n = append(n, o.text)
			}
			c.Check("layout", strings.Join(n, ", then "), c.P.fnPos(w.addField), func() { w.history(ops, nil, nil) })
		}
		if left == 0 {
			return
		}
		for _, o := range w.ops {
			if clash(ops, o) {
				continue
			}
			chain(append(append([]layOp(nil), ops...), o), left-1)
		}
	}
	chain(nil, depth)
	// a copy and its origin grow in turns
	for _, one := range w.ops {
		for _, two := range w.ops {
			if one.kind == "copy" || two.kind == "copy" {
				continue
			}
			for n, start := range [][]layOp{{w.ops[0]}, {w.ops[0], w.ops[4], w.ops[7]}} {
				if clash(start, one) || clash(start, two) || n > 0 && one.text != w.ops[1].text && two.text != w.ops[1].text && !c.thorough() {
					continue
				}
				var n []string
				ops := append(append([]layOp(nil), start...), layOp{text: "copy", kind: "copy"}, one, layOp{text: "back to the origin", kind: "back"}, two)
				for _, o := range ops {
					n = append(n, o.text)
				}
				c.Check("layout", strings.Join(n, ", then "), c.P.fnPos(w.addField), func() { w.history(ops, nil, nil) })
			}
		}
	}
	// embedding values
	emb := map[string]layOp{}
	for _, o := range w.ops {
		emb[o.text] = o
	}
	items, stock, count := named("lay/shop", "Items", types.NewSlice(intT)), named("lay/shop", "Stock", types.NewMap(strT, intT)), named("lay/shop", "Count", types.Typ[types.Int16])
	other := func(n string, T types.Type) layOp {
		return layOp{text: "embedded " + n, name: n, T: T, embed: true, kind: "add"}
	}
	all := []layOp{other("Items", items), other("Stock", stock), other("Count", count), emb["variable A"], emb["embedded item"], emb["embedded unnamed type"], emb["copy"], emb["embedded pointer"], emb["slot"], emb["embedded unnamed type of the same text"], emb["variable b"]}
	for _, x := range []struct {
		text string
		v    types.Type
		slot types.Type
	}{{"value", item1, item1}, {"pointer to a value", types.NewPointer(item1), item1}, {"value of an embedded pointer", cart, types.NewPointer(cart)},
		{"embedded pointer", types.NewPointer(cart), types.NewPointer(cart)}, {"unnamed value", plain1, plain1}, {"unnamed value of the same text", plain2, plain2},
		{"value of a list type", items, items}, {"value of a map type", stock, stock}, {"value of a number type", count, count},
		{"value of another type of the same name", item2, nil}, {"pointer to another type of the same name", types.NewPointer(item2), nil},
		{"value of a type not embedded", named("lay/shop", "Shelf", fields(intT)), nil}, {"unnamed value not embedded", fields(intT), nil}} {
		x := x
		c.Check("embed", x.text, c.P.fnPos(w.embedVal), func() { w.history(all, x.v, x.slot) })
	}
}

// clash: the addition was made already.
func clash(ops []layOp, o layOp) bool {
	for _, p := range ops {
		if p.text == o.text && o.name != "" || o.embed && p.text == o.text {
			return true
		}
	}
	return false
}

// grown: two lists that are still in use were made by adding to the same list, one may have overwritten the end of the other.
func (w *layoutWorld) grown(s *State) {
	made := map[*Term]bool{}
	by := map[*Term]*Event{}
	var used map[*Term]bool
	for _, ev := range s.events {
		if ev.Kind != "append" {
			continue
		}
		base := ev.Args[0]
		if first := by[base]; first != nil && made[base] {
			if used == nil {
				used = map[*Term]bool{}
				for _, v := range s.heap {
					used[v] = true
				}
			}
			if used[first.Result] && used[ev.Result] {
				w.c.FailAt(w.c.P.pos(ev.Pos), "two scopes add to the same list, the addition of one may replace that of the other")
			}
		}
		by[base] = ev
		made[ev.Result] = true
	}
}

func (w *layoutWorld) history(ops []layOp, v, slot types.Type) {
	c := w.c
	w.e.steps = 0
	w.offs = map[string]*Term{}
	type scope struct {
		t     *Term
		slots []laySlot
	}
	type run struct {
		s      *State
		cur    scope
		origin []scope
	}
	var runs []run
	for _, o := range w.e.Call(newState(), w.newType, nil, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "making a scope panics")
			return
		}
		runs = append(runs, run{s: o.St, cur: scope{t: o.R(0)}})
	}
	for _, op := range ops {
		var next []run
		for _, r := range runs {
			switch op.kind {
			case "back":
				last := len(r.origin) - 1
				next = append(next, run{r.s, r.origin[last], append(append([]scope(nil), r.origin[:last]...), r.cur)})
				continue
			case "copy":
				for _, o := range w.e.Call(r.s, w.snapshot, []*Term{r.cur.t}, nil) {
					if o.Panic != nil {
						c.FailAt(c.P.pos(o.Pos), "copying a scope panics")
						return
					}
					if o.R(0) == r.cur.t {
						c.FailAt(c.P.fnPos(w.snapshot), "the copy of a scope is the scope itself")
						return
					}
					next = append(next, run{o.St, scope{o.R(0), r.cur.slots}, append(append([]scope(nil), r.origin...), r.cur)})
				}
				continue
			case "reserve":
				for _, q := range w.e.Call(r.s, w.reserve, []*Term{r.cur.t}, nil) {
					if q.Panic != nil {
						c.FailAt(c.P.pos(q.Pos), "reserving a name panics")
						return
					}
					n := q.St.value(q.R(0))
					for _, o := range w.e.Call(q.St, w.addTag, []*Term{r.cur.t, n, n, tStr(""), rtype(op.T)}, nil) {
						if !w.added(o, op, n) {
							return
						}
						next = append(next, run{o.St, scope{r.cur.t, append(append([]laySlot(nil), r.cur.slots...), laySlot{n, op.T, false})}, r.origin})
					}
				}
				continue
			}
			f, args := w.addField, []*Term{r.cur.t, tStr(op.name), tStr(op.name), rtype(op.T)}
			if op.embed {
				f, args = w.embed, []*Term{r.cur.t, rtype(op.T)}
			}
			for _, o := range w.e.Call(r.s, f, args, nil) {
				if !w.added(o, op, tStr(op.name)) {
					return
				}
				n := o.St.value(w.part(o.R(0), "Name"))
				next = append(next, run{o.St, scope{r.cur.t, append(append([]laySlot(nil), r.cur.slots...), laySlot{n, op.T, op.embed})}, r.origin})
			}
		}
		runs = next
	}
	if len(runs) == 0 {
		undecided("the history has no outcome")
	}
	for _, r := range runs {
		if v != nil {
			w.embedInto(r.s, r.cur.t, r.cur.slots, v, slot)
			continue
		}
		w.grown(r.s)
		w.check(r.s, r.cur.t, r.cur.slots, "")
		for _, o := range r.origin {
			w.check(r.s, o.t, o.slots, " of the other scope")
		}
	}
}

func (w *layoutWorld) part(sf *Term, name string) *Term {
	if sf.Op != "struct" {
		undecided("a field is described as %v", sf)
	}
	st := structOf(w.sfT)
	for i := range sf.Args {
		if st.Field(i).Name() == name {
			return sf.Args[i]
		}
	}
	return nil
}

// added checks the description an addition returns.
func (w *layoutWorld) added(o Outcome, op layOp, name *Term) bool {
	c := w.c
	if o.Panic != nil {
		c.FailAt(c.P.pos(o.Pos), "adding a %s panics", op.text)
		return false
	}
	sf := o.St.value(o.R(0))
	n, ok := o.St.value(w.part(sf, "Name")).strVal()
	if !ok || n == "" {
		c.FailAt(c.P.fnPos(w.addField), "the name of the %s is %v", op.text, w.part(sf, "Name"))
		return false
	}
	if want, _ := name.strVal(); want != "" && n != want {
		c.FailAt(c.P.fnPos(w.addField), "the %s is called %s", op.text, n)
	}
	if !sameR(o.St.value(w.part(sf, "Type")), op.T) {
		c.FailAt(c.P.fnPos(w.addField), "the type of the %s is %v", op.text, w.part(sf, "Type"))
	}
	if emb, ok := o.St.eval(w.part(sf, "Anonymous")); !ok || emb != op.embed {
		c.FailAt(c.P.fnPos(w.addField), "the %s is embedded: %v", op.text, w.part(sf, "Anonymous"))
	}
	return true
}

func (w *layoutWorld) check(s *State, t *Term, slots []laySlot, of string) {
	c := w.c
	vars := make([]*types.Var, len(slots))
	for i, x := range slots {
		n, _ := x.name.strVal()
		vars[i] = types.NewField(token.NoPos, w.pkg, n, x.T, x.embed)
	}
	T := rtOf(s.value(w.e.load(s, fieldAddr(t, "Type"), c.P.typeOfField("est/op", "Operand", "Type"))))
	st, _ := T.(*types.Struct)
	if st == nil || st.NumFields() != len(slots) {
		c.FailAt(c.P.fnPos(w.addField), "the layout%s is %v", of, T)
		return
	}
	for i := range slots {
		if !types.Identical(st.Field(i).Type(), vars[i].Type()) || st.Field(i).Name() != vars[i].Name() {
			c.FailAt(c.P.fnPos(w.addField), "field %d of the layout%s is %s instead of %s", i, of, st.Field(i).Name(), vars[i].Name())
		}
	}
	same := func(s *State, f *Term, i int) bool {
		off := s.value(w.e.load(s, fieldAddr(f, "Offset"), types.Typ[types.Uintptr]))
		return off == w.offsetOf(vars[:i+1]) && sameR(s.value(w.e.load(s, fieldAddr(f, "Type"), c.P.typeOfField("est/op", "Operand", "Type"))), slots[i].T)
	}
	for i, x := range slots {
		for _, o := range w.e.Call(s.clone(), w.accessor, []*Term{t, x.name}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "looking up %v%s panics", x.name, of)
				continue
			}
			if ok, k := o.St.eval(o.R(1)); !ok || !k {
				if !strings.HasPrefix(x.name.String(), `"_velty`) { // no name of a template
					c.FailAt(c.P.fnPos(w.accessor), "%v%s is not found", x.name, of)
				}
				continue
			}
			if !same(o.St, o.R(0), i) {
				c.FailAt(c.P.fnPos(w.accessor), "%v%s is found at another place", x.name, of)
			}
		}
		if x.embed {
			if n, isN := x.T.(*types.Struct); isN {
				for _, o := range w.e.Call(s.clone(), w.holder, []*Term{t, rtype(n)}, nil) {
					if o.Panic != nil {
						c.FailAt(c.P.pos(o.Pos), "looking up an unnamed type%s panics", of)
					} else if ok, k := o.St.eval(o.R(1)); !ok || !k || o.St.value(o.R(0)) != x.name {
						c.FailAt(c.P.fnPos(w.holder), "the unnamed type%s is held by %v instead of %v", of, o.R(0), x.name)
					}
				}
			}
		}
	}
	for _, op := range w.ops {
		n, isN := op.T.(*types.Struct)
		if !isN || !op.embed {
			continue
		}
		here := false
		for _, x := range slots {
			here = here || x.embed && types.Identical(x.T, n)
		}
		if here {
			continue
		}
		for _, o := range w.e.Call(s.clone(), w.holder, []*Term{t, rtype(n)}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "looking up an unnamed type%s panics", of)
			} else if ok, k := o.St.eval(o.R(1)); !k || ok {
				c.FailAt(c.P.fnPos(w.holder), "an unnamed type that is not embedded%s is held by %v", of, o.R(0))
			}
		}
	}
	for _, name := range []string{"A", "b", "Zoo", "_x", "Item", "Cart", "Other", ""} {
		known := false
		for _, x := range slots {
			known = known || x.name == tStr(name)
		}
		if known || name == "" {
			continue
		}
		for _, o := range w.e.Call(s.clone(), w.accessor, []*Term{t, tStr(name)}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "looking up an unknown name%s panics", of)
			} else if ok, k := o.St.eval(o.R(1)); ok || !k {
				c.FailAt(c.P.fnPos(w.accessor), "%s%s is found although there is none", name, of)
			}
		}
	}
	for _, o := range w.e.Call(s.clone(), w.accessors, []*Term{t}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "listing the slots%s panics", of)
			continue
		}
		n, ok := o.St.value(w.e.lenOf(o.St, o.R(0))).intVal()
		if !ok || int(n) != len(slots) {
			c.FailAt(c.P.fnPos(w.accessors), "%v slots%s are listed instead of %d", w.e.lenOf(o.St, o.R(0)), of, len(slots))
			continue
		}
		for i := range slots {
			f := o.St.value(w.e.elemAt(o.St, o.R(0), i, types.NewPointer(w.fldT)))
			if !same(o.St, f, i) {
				c.FailAt(c.P.fnPos(w.accessors), "slot %d%s is listed at another place", i, of)
			}
		}
	}
}

// embedInto embeds a value of type v, which belongs into the slot of type want.
func (w *layoutWorld) embedInto(s *State, t *Term, slots []laySlot, v, want types.Type) {
	c := w.c
	state := symPtr("state", types.NewPointer(c.P.typ("est", "State")), s)
	s.heap[fieldAddr(state, "StateType")] = t
	mem := symT("memory", uptr())
	s.heap[fieldAddr(state, "MemPtr")] = mem
	val := mk("iface", "", v, symT("v", v))
	if _, isPtr := v.(*types.Pointer); isPtr {
		p := symPtr("v", v, s)
		val = mk("iface", "", v, p)
	}
	from := len(s.stores)
	evFrom := len(s.events)
	n := 0
	for _, o := range w.e.Call(s, w.embedVal, []*Term{state, val}, nil) {
		n++
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "embedding the value panics")
			continue
		}
		isErr, known := isNonNilErr(o.St, o.R(0))
		if !known {
			undecided("whether the value is embedded")
		}
		if isErr != (want == nil) {
			c.FailAt(c.P.fnPos(w.embedVal), "embedding the value %s", map[bool]string{true: "fails", false: "succeeds"}[isErr])
			continue
		}
		if isErr {
			for _, sr := range o.St.stores[from:] {
				if !isFresh(rootOf(sr.addr)) {
					c.FailAt(c.P.pos(sr.pos), "%s is written although the value is not embedded", sr.addr)
				}
			}
			continue
		}
		var vars []*types.Var
		var dst *Term
		for _, x := range slots {
			vars = append(vars, types.NewField(token.NoPos, w.pkg, "F", x.T, x.embed))
			if x.embed && types.Identical(x.T, want) {
				dst = tAdd(mem, w.offsetOf(vars))
			}
		}
		c.checkSlotWrite(o.St, o.St.stores[from:], o.St.events[evFrom:], dst, val, want, c.P.fnPos(w.embedVal))
	}
	if n == 0 {
		undecided("embedding has no outcome")
	}
}
