package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C32", Level: "other", MinObs: 40,
		Explanation: "The planner's type walk and path resolution are interpreted abstractly over every shape of nested holders (named, embedded, by value, by pointer, in slices and maps) up to the depth bound, with symbolic field offsets: the address each compiled path evaluates to is compared with the sum of offsets and dereferences of the field the template names, and null holders yield a fresh zero value. The field tag rules are interpreted over the documented tag forms.",
		Assumptions: []string{"reflect describes types and offsets as documented", "struct types nest at most as deep as the bound"},
		Run:         runC32})
}

const xunsafePkg = "github.com/viant/xunsafe"

// shapeWorld interprets the planner over concrete type shapes with symbolic offsets.
type shapeWorld struct {
	c       *Ctx
	e       *Eng
	n       int
	pkg     *types.Package
	fldT    types.Type // xunsafe.Field
	sfT     types.Type // reflect.StructField
	add     *ssa.Function
	sel     *ssa.Function
	selExpr *ssa.Function
	operand *ssa.Function
	exec    *ssa.Function
	compile *ssa.Function
	funcSel *ssa.Function
	opT     types.Type
	slExec  *ssa.Function
	mpExec  *ssa.Function
	idx     *Term // the operand of every index
	opts    Opts
	ids     map[*types.Struct]int
}

func (c *Ctx) newShapeWorld() *shapeWorld {
	w := &shapeWorld{c: c, pkg: types.NewPackage("shape", "shape"),
		fldT: c.P.typOf(xunsafePkg, "Field"), sfT: c.P.typOf("reflect", "StructField"),
		add: c.P.fn("", "Planner.addSelectors"), selExpr: c.P.fn("", "Planner.selectorExpr"),
		operand: c.P.fn("est/op", "Expression.Operand"), exec: c.P.fn("est/op", "Operand.Exec"),
		compile: c.P.fn("", "Planner.compileExpr"), funcSel: c.P.fn("est/op", "Functions.FuncSelector"),
		slExec: c.P.fn("est/op", "Slice.Exec"), mpExec: c.P.fn("est/op", "Map.Exec"),
		opT: types.NewPointer(c.P.typ("est/op", "Operand")),
	}
	w.opts = Opts{Opaque: opaqueSet(w.compile, w.funcSel, w.slExec, w.mpExec), Model: w.model, MaxRec: 12, MaxUnroll: 40,
		InlineDep: func(f *ssa.Function) bool {
			return isConverter(f) || fnPkg(f) == xunsafePkg && (f.Name() == "ValuePointer" || f.Name() == "Pointer" || f.Name() == "DerefPointer" || f.Name() == "RefPointer")
		}}
	w.e = c.E.with(w.opts)
	return w
}

func (w *shapeWorld) offset(st *types.Struct, i int) *Term {
	if w.ids == nil {
		w.ids = map[*types.Struct]int{}
	}
	if _, ok := w.ids[st]; !ok {
		w.ids[st] = len(w.ids)
	}
	return symT(fmt.Sprintf("offset(%d.%s)", w.ids[st], st.Field(i).Name()), types.Typ[types.Uintptr])
}

// structField is the reflect.StructField of a field.
func (w *shapeWorld) structField(name string, t types.Type, tag string, off *Term, anonymous bool) *Term {
	st := structOf(w.sfT)
	args := make([]*Term, st.NumFields())
	for i := range args {
		switch st.Field(i).Name() {
		case "Name":
			args[i] = tStr(name)
		case "Type":
			args[i] = rtype(t)
		case "Tag":
			args[i] = tStr(tag)
		case "Offset":
			args[i] = off
		case "Anonymous":
			args[i] = tBool(anonymous)
		default:
			args[i] = zeroOf(st.Field(i).Type())
		}
	}
	return mk("struct", "", w.sfT, args...)
}

func (w *shapeWorld) fieldOf(st *types.Struct, i int) *Term {
	f := st.Field(i)
	return w.structField(f.Name(), f.Type(), st.Tag(i), w.offset(st, i), f.Embedded())
}

// newField is the accessor xunsafe makes of a struct field.
func (w *shapeWorld) newField(s *State, sf *Term) *Term {
	st := structOf(w.sfT)
	w.n++
	f := mk("alloc", fmt.Sprintf("field%d", w.n), w.fldT)
	for i, a := range sf.Args {
		switch n := st.Field(i).Name(); n {
		case "Name", "Type", "Tag", "Offset", "Anonymous":
			s.heap[fieldAddr(f, n)] = a
			if n == "Type" {
				s.heap[fieldAddr(f, "kind")] = tInt(reflectKind(a.Typ))
			}
		}
	}
	return f
}

func structBelow(t types.Type) *types.Struct {
	for {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return u
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
}

func (w *shapeWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	name := evName(ev)
	tuple := func(ts ...*Term) (*Term, bool) {
		ev.Result = mk("tuple", "", nil, ts...)
		s.emit(ev)
		return ev.Result, true
	}
	one := func(t *Term) (*Term, bool) {
		ev.Result = t
		s.emit(ev)
		return t, true
	}
	if ev.Kind == "invoke" && len(ev.Args) > 0 {
		t := rtOf(ev.Args[0])
		if t == nil {
			return nil, false
		}
		switch name {
		case "invoke reflect.Type.NumField", "invoke reflect.Type.Field", "invoke reflect.Type.FieldByName":
			if _, ok := t.Underlying().(*types.Struct); !ok {
				w.c.FailAt(w.c.P.pos(ev.Pos), "%s panics for the type %s", name, t)
				switch name {
				case "invoke reflect.Type.NumField":
					return one(tInt(0))
				case "invoke reflect.Type.FieldByName":
					return tuple(zeroOf(w.sfT), tBool(false))
				}
				return one(zeroOf(w.sfT))
			}
		case "invoke reflect.Type.Elem":
			w.c.FailAt(w.c.P.pos(ev.Pos), "%s panics for the type %s", name, t)
			return one(rtype(types.Typ[types.Int]))
		}
		switch name {
		case "invoke reflect.Type.NumField":
			if st, ok := t.Underlying().(*types.Struct); ok {
				return one(tInt(int64(st.NumFields())))
			}
		case "invoke reflect.Type.Field":
			st, ok := t.Underlying().(*types.Struct)
			i, k := ev.Args[1].intVal()
			if ok && k && int(i) < st.NumFields() {
				return one(w.fieldOf(st, int(i)))
			}
		case "invoke reflect.Type.MethodByName":
			if n, ok := ev.Args[1].strVal(); ok {
				found := types.NewMethodSet(t).Lookup(w.pkg, n) != nil
				return tuple(mk("call", "rtype.MethodByName", w.c.P.typOf("reflect", "Method"), ev.Args...), tBool(found))
			}
		case "invoke reflect.Type.FieldByName":
			if n, ok := ev.Args[1].strVal(); ok {
				if st, i := findField(t, n); st != nil {
					return tuple(w.fieldOf(st, i), tBool(true))
				}
				return tuple(zeroOf(w.sfT), tBool(false))
			}
		}
		return nil, false
	}
	switch name {
	case xunsafePkg + ".NewField":
		if ev.Args[0].Op == "struct" {
			return one(w.newField(s, ev.Args[0]))
		}
	case xunsafePkg + ".FieldByName":
		if t := rtOf(ev.Args[0]); t != nil {
			if n, ok := ev.Args[1].strVal(); ok && structBelow(t) != nil {
				if st, i := findField(structBelow(t), n); st != nil {
					return one(w.newField(s, w.fieldOf(st, i)))
				}
				return one(tNil())
			}
			if structBelow(t) == nil {
				w.c.FailAt(w.c.P.pos(ev.Pos), "looking up a field panics for the type %s", t)
				return one(tNil())
			}
		}
	case xunsafePkg + ".NewType", xunsafePkg + ".NewSlice":
		return nil, false
	case "(reflect.StructTag).Get":
		tag, ok := ev.Args[0].strVal()
		key, ok2 := ev.Args[1].strVal()
		if ok && ok2 {
			return one(tStr(reflect.StructTag(tag).Get(key)))
		}
	case "strings.TrimSpace", "strings.ToLower":
		if a, ok := ev.Args[0].strVal(); ok {
			if name == "strings.ToLower" {
				return one(tStr(strings.ToLower(a)))
			}
			return one(tStr(strings.TrimSpace(a)))
		}
	case "strings.Split":
		a, ok := ev.Args[0].strVal()
		b, ok2 := ev.Args[1].strVal()
		if ok && ok2 {
			var ts []*Term
			for _, x := range strings.Split(a, b) {
				ts = append(ts, tStr(x))
			}
			w.n++
			return one(sliceOf(e, s, fmt.Sprintf("split%d", w.n), ts...))
		}
	}
	switch ev.Callee {
	case w.funcSel:
		return tuple(tNil(), tBool(false))
	case w.compile:
		// every index is an integer expression
		x := symPtr("index", types.NewPointer(w.c.P.typ("est/op", "Expression")), s)
		s.heap[fieldAddr(x, "Type")] = rtype(types.Typ[types.Int])
		s.heap[fieldAddr(x, "LiteralPtr")] = symPtr("indexp", types.NewPointer(uptr()), s)
		s.heap[fieldAddr(x, "Unify")] = tNil()
		s.heap[fieldAddr(x, "Selector")] = tNil()
		return tuple(x, tNil())
	}
	return nil, false
}

// findField follows Go's promotion rules.
func findField(t types.Type, name string) (*types.Struct, int) {
	type level struct{ st *types.Struct }
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, 0
	}
	cur := []*types.Struct{st}
	for depth := 0; depth < 8 && len(cur) > 0; depth++ {
		var next []*types.Struct
		for _, s := range cur {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Name() == name {
					return s, i
				}
				if f.Embedded() {
					if u := structBelow(f.Type()); u != nil {
						next = append(next, u)
					}
				}
			}
		}
		cur = next
	}
	return nil, 0
}

// holder kinds of a nested struct
const (
	hValue = iota
	hPtr
	hEmbed
	hEmbedPtr
	hSlice
	hMap
	hSlicePtr
	hMapPtr
	hPtrSlice
	hCount
)

var holderName = []string{"value", "pointer", "embedded", "embedded pointer", "slice", "map", "slice of pointers", "map of pointers", "pointer to slice"}

func (w *shapeWorld) named(base string, st *types.Struct) *types.Named {
	w.n++
	return types.NewNamed(types.NewTypeName(token.NoPos, w.pkg, fmt.Sprintf("%s%d", base, w.n), nil), st, nil)
}

// shape is a struct type whose levels nest by the given holder kinds.
type shape struct {
	typ   types.Type
	st    *types.Struct
	kinds []int
	sub   *shape
	subI  int // index of the holder field
	leafI int
	name  string // the holder field's name
}

func (w *shapeWorld) build(kinds []int, level int) *shape {
	sh := &shape{kinds: kinds}
	var fs []*types.Var
	fld := func(name string, t types.Type, emb bool) {
		fs = append(fs, types.NewField(token.NoPos, w.pkg, name, t, emb))
	}
	fld(fmt.Sprintf("Pad%d", level), types.Typ[types.Int64], false)
	if len(kinds) > 0 {
		sh.sub = w.build(kinds[1:], level+1)
		sh.subI = len(fs)
		sh.name = fmt.Sprintf("F%d", level)
		t := sh.sub.typ
		switch kinds[0] {
		case hValue:
			fld(sh.name, t, false)
		case hPtr:
			fld(sh.name, types.NewPointer(t), false)
		case hEmbed:
			sh.name = t.(*types.Named).Obj().Name()
			fld(sh.name, t, true)
		case hEmbedPtr:
			sh.name = t.(*types.Named).Obj().Name()
			fld(sh.name, types.NewPointer(t), true)
		case hSlice:
			fld(sh.name, types.NewSlice(t), false)
		case hSlicePtr:
			fld(sh.name, types.NewSlice(types.NewPointer(t)), false)
		case hMap:
			fld(sh.name, types.NewMap(types.Typ[types.String], t), false)
		case hMapPtr:
			fld(sh.name, types.NewMap(types.Typ[types.String], types.NewPointer(t)), false)
		case hPtrSlice:
			fld(sh.name, types.NewPointer(types.NewSlice(t)), false)
		}
	}
	sh.leafI = len(fs)
	fld(fmt.Sprintf("Leaf%d", level), types.Typ[types.Int32], false)
	fld(fmt.Sprintf("Ref%d", level), types.NewPointer(types.Typ[types.Int16]), false)
	sh.st = types.NewStruct(fs, nil)
	sh.typ = w.named("T", sh.st)
	return sh
}

// step is one part of a template path.
type step struct {
	name  string // "" is an index
	field *types.Struct
	i     int
	deref bool // the holder is a pointer
	kind  int
	emb   bool // not written in the template
	elem  types.Type
}

// pathType is the type of the value at the end of a path.
func pathType(steps []step) types.Type {
	last := steps[len(steps)-1]
	if last.name == "" {
		return last.elem
	}
	return last.field.Field(last.i).Type()
}

// paths lists the template paths to every field, holder and element, as the steps Go would take.
func (sh *shape) paths(prefix []step) [][]step {
	var r [][]step
	for _, i := range []int{sh.leafI, sh.leafI + 1} {
		r = append(r, append(append([]step(nil), prefix...), step{name: sh.st.Field(i).Name(), field: sh.st, i: i, kind: -1}))
	}
	if sh.sub == nil {
		return r
	}
	k := sh.kinds[0]
	next := append(append([]step(nil), prefix...), step{name: sh.name, field: sh.st, i: sh.subI, kind: k,
		emb: k == hEmbed || k == hEmbedPtr, deref: k == hPtr || k == hEmbedPtr || k == hPtrSlice})
	if k != hEmbed && k != hEmbedPtr {
		r = append(r, next) // the holder itself
	}
	switch k {
	case hSlice, hMap, hPtrSlice:
		next = append(next, step{kind: k, elem: sh.sub.typ})
		r = append(r, append([]step(nil), next...)) // an element
	case hSlicePtr, hMapPtr:
		next = append(next, step{kind: k, elem: types.NewPointer(sh.sub.typ)})
		r = append(r, append([]step(nil), next...))
	}
	return append(r, sh.sub.paths(next)...)
}

// astPath is the parsed form of a template path.
func (w *shapeWorld) astPath(s *State, root string, steps []step) *Term {
	selT, idxT := w.c.P.typ("ast/expr", "Select"), w.c.P.typ("ast/expr", "SliceIndex")
	var names []step
	if root != "" {
		names = append(names, step{name: root})
	}
	for _, st := range steps {
		if !st.emb {
			names = append(names, st)
		}
	}
	next := tNil()
	for i := len(names) - 1; i >= 0; i-- {
		w.n++
		var n *Term
		if names[i].name == "" {
			n = mk("alloc", fmt.Sprintf("index%d", w.n), idxT)
			x := symT("indexExpr", w.c.P.typ("ast", "Expression"))
			s.heap[fieldAddr(n, "X")] = x
			s.heap[fieldAddr(n, "Y")] = next
			setNil(s, x, false)
			next = mk("iface", "", types.NewPointer(idxT), n)
		} else {
			n = mk("alloc", fmt.Sprintf("select%d", w.n), selT)
			s.heap[fieldAddr(n, "ID")] = tStr(names[i].name)
			s.heap[fieldAddr(n, "FullName")] = tStr("$" + names[i].name)
			s.heap[fieldAddr(n, "X")] = next
			next = mk("iface", "", types.NewPointer(selT), n)
		}
	}
	return next.Args[0]
}

// define registers a variable of type t and returns the resulting planner states.
func (w *shapeWorld) define(t types.Type, name, tag string, embed bool) (pl *Term, outs []Outcome) {
	pl, first := w.planner()
	for _, o := range first {
		sf := w.structField(name, t, tag, symT("offset(variable)", types.Typ[types.Uintptr]), embed)
		id := name
		outs = append(outs, w.e.Call(o.St, w.add, []*Term{pl, tStr(""), sf, tStr(id)}, nil)...)
	}
	return pl, outs
}

// planner is a new planner without variables.
func (w *shapeWorld) planner() (pl *Term, first []Outcome) {
	c := w.c
	s := newState()
	pl = symPtr("planner", types.NewPointer(c.P.typ("", "Planner")), s)
	for _, o := range w.e.Call(s, c.P.fn("est/op", "NewSelectors"), nil, nil) {
		o.St.heap[fieldAddr(pl, "selectors")] = o.R(0)
		o.St.heap[fieldAddr(pl, "Functions")] = symPtr("functions", types.NewPointer(c.P.typ("est/op", "Functions")), o.St)
		o.St.heap[fieldAddr(pl, "Control")] = symPtr("control", types.NewPointer(c.P.typ("est", "Control")), o.St)
		first = append(first, o)
	}
	return pl, first
}

func pathText(root string, steps []step) string {
	t := root
	for _, s := range steps {
		switch {
		case s.name == "":
			t += "[i]"
		case s.emb:
		case t == "":
			t = s.name
		default:
			t += "." + s.name
		}
	}
	return t
}

// checkPath decides one path of a defined variable.
func (w *shapeWorld) checkPath(pl *Term, base *State, root string, rootPtr bool, steps []step) int {
	c, e := w.c, w.e
	s := base.clone()
	s.events = nil
	txt := "$" + pathText(root, steps)
	sel := w.astPath(s, root, steps)
	st := c.state()
	n := 0
	for _, o := range e.Call(s, w.selExpr, []*Term{pl, sel}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling %s can panic", txt)
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(1)); !k || nn {
			c.Fail("%s does not compile", txt)
			continue
		}
		want := rtype(pathType(steps))
		if g := e.load(o.St, fieldAddr(o.R(0), "Type"), c.P.typeOfField("est/op", "Expression", "Type")); g != want {
			c.Fail("%s has type %s", txt, g)
			continue
		}
		for _, o1 := range e.Call(o.St, w.operand, []*Term{o.R(0), symT("control", types.Typ[types.Uint8]), tNil()}, nil) {
			if nn, k := isNonNilErr(o1.St, o1.R(1)); o1.Panic != nil || !k || nn {
				c.Fail("%s has no operand", txt)
				continue
			}
			o1.St.events = nil
			for _, o2 := range e.Call(o1.St, w.exec, []*Term{o1.R(0), st}, nil) {
				n++
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "evaluating %s can panic", txt)
					continue
				}
				w.checkAddress(o2, st, root, rootPtr, steps, txt)
			}
		}
	}
	return n
}

func (w *shapeWorld) checkAddress(o Outcome, st *Term, root string, rootPtr bool, steps []step, txt string) {
	c, e := w.c, w.e
	isNil := func(t *Term) (bool, bool) {
		if v, k := o.St.eval(tEq(t, tNil())); k {
			return v, true
		}
		return o.St.eval(tEq0(t))
	}
	fresh := func() bool {
		r := o.R(0)
		made := false
		for _, ev := range o.St.events {
			if ev.Kind == "call" && evName(ev) == "reflect.New" && mentions(r, firstOf(ev)) && sameType(rtOf(ev.Args[0]), pathType(steps)) {
				made = true
			}
		}
		return made || r.Op == "alloc" && isFresh(r)
	}
	p := e.load(o.St, fieldAddr(st, "MemPtr"), uptr())
	if v, k := isNil(p); k && v {
		if !fresh() {
			c.Fail("%s yields %s without a state", txt, o.R(0))
		}
		return
	}
	// cellOf is the address at an offset; a path on which it is null is not feasible
	cellOf := func(off *Term) (*Term, bool) {
		x := tAdd(p, off)
		v, k := isNil(x)
		return x, !(k && v)
	}
	cell, ok := cellOf(symT("offset(variable)", types.Typ[types.Uintptr]))
	if !ok {
		return
	}
	deref := func(what string) bool {
		p = e.load(o.St, cell, uptr())
		v, k := isNil(p)
		if k && v {
			if !fresh() {
				c.Fail("%s yields %s although %s is null", txt, o.R(0), what)
			}
			return false
		}
		if !k {
			c.Fail("%s goes through %s without testing it for null", txt, what)
			return false
		}
		return true
	}
	if rootPtr {
		if !deref("the variable") {
			return
		}
	} else {
		p = cell
	}
	for i, s := range steps {
		if s.name == "" {
			var res *Term
			for _, ev := range o.St.events {
				if (ev.Callee == w.slExec || ev.Callee == w.mpExec) && o.St.value(ev.Args[1]) == o.St.value(p) && ev.Args[2] == st {
					if res != nil {
						c.FailAt(c.P.pos(ev.Pos), "%s: the index is applied twice", txt)
					}
					res = firstOf(ev)
					if (ev.Callee == w.mpExec) != (s.kind == hMap || s.kind == hMapPtr) {
						c.FailAt(c.P.pos(ev.Pos), "%s: the wrong kind of index is applied", txt)
					}
				}
			}
			if res == nil {
				c.Fail("%s: no index is applied to the container", txt)
				return
			}
			if _, isPtr := s.elem.Underlying().(*types.Pointer); isPtr && i == len(steps)-1 {
				// the value is a pointer: a cell that holds it
				if r := o.R(0); !isFresh(rootOf(r)) || o.St.value(e.load(o.St, r, uptr())) != o.St.value(res) {
					c.Fail("%s yields %s instead of a cell holding the element %s", txt, r, res)
				}
				return
			}
			if v, k := isNil(res); k && v {
				if !fresh() {
					c.Fail("%s yields %s although the element is null", txt, o.R(0))
				}
				return
			}
			p = res
			if i == len(steps)-1 && o.St.value(o.R(0)) != o.St.value(res) {
				c.Fail("%s yields %s instead of the element %s", txt, o.R(0), res)
			}
			continue
		}
		if cell, ok = cellOf(w.offset(s.field, s.i)); !ok {
			return
		}
		if i == len(steps)-1 {
			if o.St.value(o.R(0)) != o.St.value(cell) {
				c.Fail("%s is read at %s instead of %s (%v)", txt, o.R(0), cell, o.St.factStrings(0))
			}
			return
		}
		if s.deref {
			if !deref(s.name) {
				return
			}
		} else {
			p = cell
		}
	}
}

func runC32(c *Ctx) {
	w := c.newShapeWorld()
	depth := 2
	if c.thorough() {
		depth = 3
	}
	var combos [][]int
	var gen func(pre []int, n int)
	gen = func(pre []int, n int) {
		combos = append(combos, append([]int(nil), pre...))
		if n == 0 {
			return
		}
		for k := 0; k < hCount; k++ {
			gen(append(append([]int(nil), pre...), k), n-1)
		}
	}
	gen(nil, depth)
	for _, k := range combos {
		for root := hValue; root <= hEmbedPtr; root++ {
			k, root := k, root
			name := holderName[root] + " variable"
			for _, x := range k {
				name += " > " + holderName[x]
			}
			c.Check("field-address", name, c.P.fnPos(w.add), func() {
				w.e = c.E.with(w.opts)
				sh := w.build(k, 0)
				t := sh.typ
				rootPtr := root == hPtr || root == hEmbedPtr
				if rootPtr {
					t = types.NewPointer(t)
				}
				embed := root >= hEmbed
				id := "u"
				if embed {
					id = sh.typ.(*types.Named).Obj().Name()
				}
				pl, outs := w.define(t, id, "", embed)
				n := 0
				for _, o := range outs {
					if o.Panic != nil {
						c.FailAt(c.P.pos(o.Pos), "defining the variable can panic")
						continue
					}
					if nn, kn := isNonNilErr(o.St, o.R(0)); !kn || nn {
						c.Fail("the variable can't be defined")
						continue
					}
					rn := "u"
					if embed {
						rn = ""
					}
					for _, p := range sh.paths(nil) {
						n += w.checkPath(pl, o.St, rn, rootPtr, p)
					}
				}
				if n == 0 && c.cur.Status == "ok" {
					undecided("no path was evaluated")
				}
			})
		}
	}
	for k := hValue; k < hCount; k++ {
		for _, root := range []int{hValue, hPtr} {
			k, root := k, root
			c.Check("no-such-path", holderName[root]+" variable > "+holderName[k], c.P.fnPos(w.add), func() { w.checkNoPath(k, root == hPtr) })
		}
	}
	for _, h := range []int{hPtr, hSlice, hSlicePtr, hMap, hMapPtr, hPtrSlice} {
		h := h
		c.Check("recursive-type", holderName[h], c.P.fnPos(w.add), func() { w.checkRecursive(h) })
	}
	for _, h := range []int{hValue, hPtr, hSlice, hMap} {
		h := h
		c.Check("same-name-type", holderName[h], c.P.fnPos(w.add), func() { w.checkSameName(h) })
	}
	c.Check("variable-name", "variable of a value", c.P.fnPos(w.add), func() { w.checkVariable(false) })
	c.Check("variable-name", "variable of a type", c.P.fnPos(w.add), func() { w.checkVariable(true) })
	for _, h := range []int{hValue, hPtr, hEmbed, hEmbedPtr, hValue + hCount, hSlice, hMap} {
		h := h
		name := "a field's field"
		if h < hCount {
			name = holderName[h]
		}
		c.Check("field-name", "tags of "+name, c.P.fnPos(w.add), func() { w.checkTags(h) })
		if h == hEmbed || h == hEmbedPtr {
			c.Check("field-name", "prefixed tags of "+name, c.P.fnPos(w.add), func() { w.checkTags(h, "", "FOO_") })
			c.Check("field-name", "twice prefixed tags of "+name, c.P.fnPos(w.add), func() { w.checkTags(h, "BAR_", "FOO_") })
		}
	}
}

func sameType(a, b types.Type) bool { return a != nil && b != nil && types.Identical(a, b) }

// checkRecursive decides variables of self-referencing types.
func (w *shapeWorld) checkRecursive(k int) {
	c := w.c
	w.e = c.E.with(w.opts)
	nt := w.named("Rec", types.NewStruct(nil, nil))
	var ft types.Type
	switch k {
	case hPtr:
		ft = types.NewPointer(nt)
	case hSlice:
		ft = types.NewSlice(nt)
	case hSlicePtr:
		ft = types.NewSlice(types.NewPointer(nt))
	case hMap:
		ft = types.NewMap(types.Typ[types.String], nt)
	case hMapPtr:
		ft = types.NewMap(types.Typ[types.String], types.NewPointer(nt))
	case hPtrSlice:
		ft = types.NewPointer(types.NewSlice(nt))
	}
	st := types.NewStruct([]*types.Var{
		types.NewField(token.NoPos, w.pkg, "Before", types.Typ[types.Int64], false),
		types.NewField(token.NoPos, w.pkg, "Self", ft, false),
		types.NewField(token.NoPos, w.pkg, "Leaf", types.Typ[types.Int32], false)}, nil)
	nt.SetUnderlying(st)
	for _, ptr := range []bool{false, true} {
		t := types.Type(nt)
		if ptr {
			t = types.NewPointer(nt)
		}
		pl, outs := w.define(t, "u", "", false)
		n := 0
		for _, o := range outs {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "defining the variable can panic")
				continue
			}
			if nn, kn := isNonNilErr(o.St, o.R(0)); !kn || nn {
				c.Fail("the variable can't be defined")
				continue
			}
			for _, i := range []int{0, 1, 2} {
				n += w.checkPath(pl, o.St, "u", ptr, []step{{name: st.Field(i).Name(), field: st, i: i, kind: -1}})
			}
		}
		if n == 0 && c.cur.Status == "ok" {
			undecided("no path was evaluated")
		}
	}
}

// checkSameName decides variables of a type that holds another type of the same name.
func (w *shapeWorld) checkSameName(k int) {
	c := w.c
	w.e = c.E.with(w.opts)
	named := func(path string, fields ...*types.Var) (*types.Named, *types.Struct) {
		w.n++
		pkg := types.NewPackage(fmt.Sprintf("%s%d/shape", path, w.n), "shape") // a path of its own: types are told apart by it
		st := types.NewStruct(fields, nil)
		return types.NewNamed(types.NewTypeName(token.NoPos, pkg, "Item", nil), st, nil), st
	}
	inner, ist := named("inner", types.NewField(token.NoPos, w.pkg, "Pad", types.Typ[types.String], false), types.NewField(token.NoPos, w.pkg, "Leaf", types.Typ[types.Int32], false))
	var ft types.Type = inner
	switch k {
	case hPtr:
		ft = types.NewPointer(inner)
	case hSlice:
		ft = types.NewSlice(inner)
	case hMap:
		ft = types.NewMap(types.Typ[types.String], inner)
	}
	outer, ost := named("outer", types.NewField(token.NoPos, w.pkg, "Before", types.Typ[types.Int64], false), types.NewField(token.NoPos, w.pkg, "Held", ft, false))
	pl, outs := w.define(outer, "u", "", false)
	n := 0
	for _, o := range outs {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "defining the variable can panic")
			continue
		}
		if nn, kn := isNonNilErr(o.St, o.R(0)); !kn || nn {
			c.Fail("the variable can't be defined")
			continue
		}
		held := step{name: "Held", field: ost, i: 1, kind: -1}
		path := []step{held}
		switch k {
		case hPtr:
			path[0].kind, path[0].deref = hPtr, true
		case hSlice, hMap:
			path = append(path, step{kind: k, elem: inner})
		}
		n += w.checkPath(pl, o.St, "u", false, append(path, step{name: "Leaf", field: ist, i: 1, kind: -1}))
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no path was evaluated")
	}
}

// checkNoPath decides paths that lead nowhere: fields that do not exist, and fields or elements of values without any.
func (w *shapeWorld) checkNoPath(k int, ptr bool) {
	c := w.c
	w.e = c.E.with(w.opts)
	sh := w.build([]int{k}, 0)
	t := sh.typ
	if ptr {
		t = types.NewPointer(t)
	}
	pl, outs := w.define(t, "u", "", false)
	n := 0
	for _, o := range outs {
		if nn, kn := isNonNilErr(o.St, o.R(0)); o.Panic != nil || !kn || nn {
			c.Fail("the variable can't be defined")
			continue
		}
		for _, p := range sh.paths(nil) {
			n++
			with := func(st step) []step { return append(append([]step(nil), p...), st) }
			w.unknown(pl, o.St, "u", with(step{name: "Missing"}), false)
			switch u := pathType(p).Underlying().(type) {
			case *types.Slice, *types.Map:
				continue
			case *types.Pointer:
				if _, ok := u.Elem().Underlying().(*types.Slice); ok {
					continue
				}
			}
			w.unknown(pl, o.St, "u", with(step{}), false)
		}
		w.unknown(pl, o.St, "u", []step{{name: "Missing"}}, false)
		w.unknown(pl, o.St, "u", []step{{}}, false)
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no path was evaluated")
	}
}

// checkVariable decides defined variables, their other names and repeated definitions.
func (w *shapeWorld) checkVariable(byType bool) {
	c := w.c
	sh := w.build([]int{hValue}, 0)
	defF := c.P.fn("", "Planner.DefineVariable")
	addField := c.P.fn("est", "Type.AddField")
	o := w.opts
	o.Opaque = opaqueSet(w.compile, w.funcSel, w.slExec, w.mpExec, addField)
	o.Model = func(e *Eng, s *State, ev *Event) (*Term, bool) {
		if ev.Callee == addField {
			id, _ := ev.Args[2].strVal()
			ev.Result = w.structField(id, rtOf(ev.Args[3]), "", symT("offset(variable)", types.Typ[types.Uintptr]), false)
			s.emit(ev)
			return ev.Result, true
		}
		return w.model(e, s, ev)
	}
	w.e = c.E.with(o)
	var v *Term
	if byType {
		v = rtype(sh.typ)
	} else {
		v = mk("iface", "", sh.typ, symT("value", sh.typ))
	}
	pl, starts := w.planner()
	n := 0
	for _, st := range starts {
		s := st.St
		names := sliceOf(w.e, s, "names", tStr("other"), tStr("third"), tStr("fourth"))
		for _, o1 := range w.e.Call(s, defF, []*Term{pl, tStr("u"), v, names}, nil) {
			if o1.Panic != nil {
				c.FailAt(c.P.pos(o1.Pos), "defining the variable can panic")
				continue
			}
			if nn, k := isNonNilErr(o1.St, o1.R(0)); !k || nn {
				c.Fail("the variable can't be defined")
				continue
			}
			added := 0
			for _, ev := range o1.St.events {
				if ev.Callee == addField {
					added++
				}
			}
			if added != 1 {
				c.Fail("defining a variable adds %d fields to the state", added)
			}
			check := func(s *State) {
				for _, root := range []string{"u", "other", "third", "fourth"} {
					for _, p := range sh.paths(nil) {
						n += w.checkPath(pl, s, root, false, p)
					}
				}
			}
			check(o1.St)
			// the same variable again
			s2 := o1.St.clone()
			s2.events = nil
			for _, o2 := range w.e.Call(s2, defF, []*Term{pl, tStr("u"), mk("iface", "", types.Typ[types.Int], tInt(0)), tNil()}, nil) {
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "defining a variable again can panic")
					continue
				}
				for _, ev := range o2.St.events {
					if ev.Callee == addField {
						c.FailAt(c.P.pos(ev.Pos), "defining a variable again adds another field to the state")
					}
				}
				check(o2.St)
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no path was evaluated")
	}
}

// tagCase is a field with a tag, the names a template addresses it by, and names it must not be known by.
type tagCase struct {
	field, tag string
	names, not []string
}

var tagCases = []tagCase{
	{"Plain", "", []string{"Plain"}, []string{"plain"}},
	{"Renamed", `velty:"name=other"`, []string{"other"}, []string{"Renamed"}},
	{"Spaced", `velty:" name = spaced "`, []string{"spaced"}, []string{"Spaced"}},
	{"Twice", `velty:"names=first|second"`, []string{"first", "second"}, []string{"Twice"}},
	{"Bare", `velty:"bare"`, []string{"bare"}, []string{"Bare"}},
	{"BareTwice", `velty:"x|y"`, []string{"x", "y"}, []string{"BareTwice"}},
	{"Hidden", `velty:"-"`, nil, []string{"Hidden"}},
	{"Foreign", `json:"foreign,omitempty"`, []string{"Foreign"}, []string{"foreign"}},
	{"Mixed", `json:"mixed" velty:"name=mine"`, []string{"mine"}, []string{"Mixed", "mixed"}},
	{"Upper", `velty:"NAMES=upper"`, []string{"upper"}, []string{"Upper"}},
	{"Both", `velty:"name=both,prefix=P_"`, []string{"both"}, []string{"Both", "P_both"}},
	{"Late", `velty:"prefix=Q_,name=late"`, []string{"late"}, []string{"Late", "Q_late"}},
	{"Thrice", `velty:"names=one|two|three"`, []string{"one", "two", "three"}, []string{"Thrice"}},
	{"Dropped", `velty:"name=dropped,-"`, nil, []string{"Dropped", "dropped"}},
}

func (w *shapeWorld) tagStruct() (*types.Struct, *types.Named) {
	var fs []*types.Var
	var tags []string
	for _, tc := range tagCases {
		fs = append(fs, types.NewField(token.NoPos, w.pkg, tc.field, types.Typ[types.Int32], false))
		tags = append(tags, tc.tag)
	}
	st := types.NewStruct(fs, tags)
	return st, w.named("Tagged", st)
}

// unknown decides that a path is not resolved to anything.
func (w *shapeWorld) unknown(pl *Term, base *State, root string, steps []step, undefinedOK bool) {
	c := w.c
	s := base.clone()
	s.events = nil
	txt := "$" + pathText(root, steps)
	for _, o := range w.e.Call(s, w.selExpr, []*Term{pl, w.astPath(s, root, steps)}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling %s can panic", txt)
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(1)); k && nn {
			continue
		}
		if undefinedOK {
			if t := w.e.load(o.St, fieldAddr(o.R(0), "Type"), c.P.typeOfField("est/op", "Expression", "Type")); t.Op == "nil" {
				continue
			}
		}
		c.Fail("%s compiles although no field has this name", txt)
	}
}

// checkTags: a struct is known by the names of its tags, prefixed as the (outer and inner) struct it is embedded into says.
func (w *shapeWorld) checkTags(holder int, prefixes ...string) {
	c := w.c
	prefix := strings.Join(prefixes, "")
	w.e = c.E.with(w.opts)
	st, tagged := w.tagStruct()
	rootT, root, rootPtr, embed := types.Type(tagged), "u", false, false
	var pre []step
	switch holder {
	case hPtr:
		rootT, rootPtr = types.NewPointer(tagged), true
	case hEmbed:
		root, embed = "", true
	case hEmbedPtr:
		rootT, root, rootPtr, embed = types.NewPointer(tagged), "", true, true
	case hSlice, hMap, hValue + hCount:
		var ft types.Type = tagged
		switch holder {
		case hSlice:
			ft = types.NewSlice(tagged)
		case hMap:
			ft = types.NewMap(types.Typ[types.String], tagged)
		}
		out := types.NewStruct([]*types.Var{
			types.NewField(token.NoPos, w.pkg, "Pad", types.Typ[types.Int64], false),
			types.NewField(token.NoPos, w.pkg, "Held", ft, false)}, []string{"", `velty:"name=held"`})
		rootT = w.named("Holder", out)
		pre = []step{{name: "held", field: out, i: 1}}
		if holder != hValue+hCount {
			pre = append(pre, step{kind: holder, elem: tagged})
		}
	}
	if prefix != "" { // the embedded variable embeds the struct with a prefix
		var ft types.Type = tagged
		if holder == hEmbedPtr {
			ft = types.NewPointer(tagged)
		}
		out := types.NewStruct([]*types.Var{
			types.NewField(token.NoPos, w.pkg, "Pad", types.Typ[types.Int64], false),
			types.NewField(token.NoPos, w.pkg, tagged.Obj().Name(), ft, true)}, []string{"", `velty:"prefix=` + prefixes[1] + `"`})
		rootT, rootPtr = w.named("Holder", out), false
		pre = []step{{name: tagged.Obj().Name(), field: out, i: 1, emb: true, deref: holder == hEmbedPtr, kind: holder}}
		if prefixes[0] != "" {
			outer := types.NewStruct([]*types.Var{
				types.NewField(token.NoPos, w.pkg, "Pad2", types.Typ[types.String], false),
				types.NewField(token.NoPos, w.pkg, "Holder", rootT, true)}, []string{"", `velty:"prefix=` + prefixes[0] + `"`})
			rootT = w.named("Outer", outer)
			pre = append([]step{{name: "Holder", field: outer, i: 1, emb: true, kind: hEmbed}}, pre...)
		}
	}
	id := "u"
	if embed {
		t := rootT
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		id = t.(*types.Named).Obj().Name()
	}
	pl, outs := w.define(rootT, id, "", embed)
	n := 0
	for _, o := range outs {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "defining the variable can panic")
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(0)); !k || nn {
			c.Fail("the variable can't be defined")
			continue
		}
		for i, tc := range tagCases {
			for _, name := range tc.names {
				n += w.checkPath(pl, o.St, root, rootPtr, append(append([]step(nil), pre...), step{name: prefix + name, field: st, i: i}))
			}
			nots := tc.not
			if prefix != "" {
				nots = append(append([]string(nil), nots...), tc.names...)
			}
			for _, name := range nots {
				if prefix == "" || sliceHas(tc.not, name) {
					w.unknown(pl, o.St, root, append(append([]step(nil), pre...), step{name: prefix + name, field: st, i: i}), embed)
				}
				if prefix != "" {
					w.unknown(pl, o.St, root, append(append([]step(nil), pre...), step{name: name, field: st, i: i}), embed)
				}
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no path was evaluated")
	}
}

func sliceHas(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
