package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C06", Level: "other", MinObs: 40,
		Explanation: "For every kind a rendered selector can have and every way it is reached, the compiled rendering statement is analysed: it evaluates the selector once and appends exactly one piece of text to the state's buffer, the canonical text of that value; with HTML escaping on, text that can hold markup goes through the escaper exactly once. Interface values are decided per dynamic type.",
		Assumptions: []string{"utils.AppendInt and strconv produce the decimal form", "encoding/json and fmt render other kinds"},
		Run:         runC06})
}

// piece is one write into the buffer.
type piece struct {
	ev      *Event
	buf     *Term
	text    *Term // text term without escaping
	esc     int   // number of html.EscapeString applications
	isInt   bool  // decimal form of text
	literal bool
}

// bufWorld knows the primitive writes of the output buffer.
type bufWorld struct {
	c      *Ctx
	raw    *ssa.Function
	intF   *ssa.Function
	opaque []*ssa.Function
}

func newBufWorld(c *Ctx) *bufWorld {
	w := &bufWorld{c: c, raw: c.P.fn("est", "Buffer.AppendStringWithoutEscaping"), intF: c.P.fn("est", "Buffer.AppendInt")}
	w.opaque = []*ssa.Function{w.raw, w.intF}
	return w
}

func (w *bufWorld) pieces(s *State, evs []*Event) (ps []piece, other []*Event) {
	for _, ev := range evs {
		switch ev.Callee {
		case w.raw:
			if ev.Callee == nil {
				other = append(other, ev)
				continue
			}
			p := piece{ev: ev, buf: ev.Args[0], text: s.value(ev.Args[1])}
			for p.text.Op == "call" && strings.HasPrefix(p.text.Aux, "html.EscapeString") {
				p.text = s.value(p.text.Args[0])
				p.esc++
			}
			if t := p.text; t.Op == "call" && (t.Aux == "strconv.Itoa" || t.Aux == "strconv.FormatInt") {
				if b, ok := t.Args[len(t.Args)-1].intVal(); t.Aux == "strconv.Itoa" || ok && b == 10 {
					p.text, p.isInt = s.value(t.Args[0]), true
				}
			}
			ps = append(ps, p)
		case w.intF:
			ps = append(ps, piece{ev: ev, buf: ev.Args[0], text: s.value(ev.Args[1]), isInt: true})
		default:
			other = append(other, ev)
		}
	}
	return
}

func isCall(t *Term, name string) bool {
	return t != nil && t.Op == "call" && (t.Aux == name || strings.HasPrefix(t.Aux, name+"!"))
}

// jsonText: the text of json.Marshal(x).
func jsonText(t *Term) (*Term, bool) {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t != nil && t.Op == "extract" && t.Aux == "0" && isCall(t.Args[0], "encoding/json.Marshal") {
		return t.Args[0].Args[0], true
	}
	return nil, false
}

func (c *Ctx) buffer(s *State, e *Eng, state *Term) *Term {
	return e.load(s, fieldAddr(state, "Buffer"), types.NewPointer(c.P.typ("est", "Buffer")))
}

func runC06(c *Ctx) {
	selF := c.P.fn("est/stmt", "Selector")
	named := c.P.typ("ast/stmt", "Append")
	kinds := []types.Type{basicT("int"), basicT("string"), basicT("bool"), basicT("float64"), types.NewInterfaceType(nil, nil), c.P.typOf("fmt", "Stringer"), nil}
	for _, k := range numKinds {
		if k != "int" && k != "float64" {
			kinds = append(kinds, basicT(k))
		}
	}
	kinds = append(kinds, named, types.NewPointer(named), types.NewPointer(basicT("int")), types.NewPointer(basicT("string")), types.NewSlice(basicT("int")),
		types.NewMap(basicT("string"), basicT("int")))
	forms := []exprForm{{"variable", false, true, false}, {"path", false, true, true}, {"literal", true, true, false}}
	for _, T := range kinds {
		for _, f := range forms {
			T, f := T, f
			name := "undefined"
			if T != nil {
				name = typeName(T)
			}
			if T == nil && f.name != "variable" {
				continue
			}
			c.Check("rendered-value", name+" "+f.name, c.P.fnPos(selF), func() { c.checkRender(selF, T, f) })
		}
	}
}

func (c *Ctx) checkRender(selF *ssa.Function, T types.Type, f exprForm) {
	bw := newBufWorld(c)
	w := newExprWorld(c, bw.opaque...)
	s := newState()
	typ := T
	if typ == nil {
		typ = basicT("int")
	}
	x := w.expr(s, "X", f, typ, false)
	place := symT("placeholder", types.Typ[types.String])
	s.heap[fieldAddr(x.sel, "Placeholder")] = place
	if T == nil {
		s.heap[fieldAddr(x.x, "Type")] = tNil()
		s.heap[fieldAddr(x.sel, "Type")] = tNil()
	}
	state := c.state()
	deref := symT("derefLast", types.Typ[types.Bool])
	n := 0
	for _, o := range w.e.Call(s, selF, []*Term{x.x, deref}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling the rendering can panic")
			continue
		}
		for _, cp := range w.compiled(o.St, o.R(0), x) {
			if cp.err {
				c.Fail("rendering compiles to an error %s", cp.errTerm)
				continue
			}
			base := cp.st.clone()
			compileEvs := base.events
			base.events = nil
			nst := len(base.stores)
			where := c.P.fnPos(cp.compute.Fn)
			buf := c.buffer(base, w.e, state)
			setNil(base, buf, false)
			for _, o2 := range w.e.Apply(base, cp.compute, []*Term{state}) {
				st := o2.St
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "rendering can panic")
					continue
				}
				n++
				for _, sr := range st.stores[nst:] {
					if !isFresh(rootOf(sr.addr)) {
						c.FailAt(c.P.pos(sr.pos), "rendering a value writes %s", sr.addr)
					}
				}
				ps, others := bw.pieces(st, st.events)
				var val *Term
				if T != nil {
					var nv int
					var used map[*Event]bool
					val, _, nv, used = w.value(st, x, "X", compileEvs, st.events, state)
					if nv != 1 {
						c.FailAt(where, "the rendered value is evaluated %d times", nv)
						continue
					}
					if k, known := st.eval(tEq(val, tNil())); known && k {
						continue // paths never yield nil (C26)
					}
					for _, ev := range others {
						if !used[ev] && !isBenign(ev) && !isFormat(ev) {
							c.FailAt(c.P.pos(ev.Pos), "rendering a value also performs %s", shortName(ev.Name))
						}
					}
				}
				if len(ps) != 1 {
					c.FailAt(where, "rendering a %s appends %d pieces of text instead of one", f.name, len(ps))
					continue
				}
				p := ps[0]
				at := c.P.pos(p.ev.Pos)
				if p.buf != buf {
					c.FailAt(at, "the text is appended to %s instead of the state's buffer", p.buf)
					continue
				}
				markup := true // the text can hold markup
				switch {
				case T == nil:
					if p.text != place {
						c.FailAt(at, "an undefined selector renders %s instead of its source text", p.text)
					}
				case types.Identical(T, basicT("int")):
					markup = false
					if !p.isInt || flat(p.text) != flat(st.value(w.e.load(base, val, T))) {
						c.FailAt(at, "an int renders as %s", p.text)
					}
				case types.Identical(T, basicT("string")):
					if p.isInt || p.text != st.value(w.e.load(base, val, T)) {
						c.FailAt(at, "a string renders as %s", p.text)
					}
				case types.Identical(T, basicT("bool")):
					markup = false
					v := w.e.load(base, val, T)
					if d := boolText(st, p.text, v); d != "" {
						c.FailAt(at, "a bool renders as %s", d)
					}
				case types.Identical(T, basicT("float64")):
					markup = false
					if !isFloatText(p.text, st.value(w.e.load(base, val, T))) {
						c.FailAt(at, "a float renders as %s", p.text)
					}
				case types.IsInterface(T):
					markup = c.ifaceText(w.e, st, p, val, T, at)
				default:
					arg, ok := jsonText(p.text)
					if !ok {
						// the decimal form of other integer kinds is their JSON form
						if kindClass(T) == "int" && p.isInt && mentions(p.text, val) {
							markup = false
							break
						}
						c.FailAt(at, "a %s renders as %s instead of its JSON form", typeName(T), p.text)
						continue
					}
					if !mentions(arg, val) || !mentions(arg, rtype(T)) {
						c.FailAt(at, "the rendered value is %s", arg)
					}
					markup = true
				}
				flag := w.e.load(base, fieldAddr(buf, "escapeHTML"), types.Typ[types.Bool])
				on, known := st.eval(flag)
				switch {
				case p.esc > 1:
					c.FailAt(at, "the text is escaped %d times", p.esc)
				case markup && !known:
					c.FailAt(at, "rendering does not follow the HTML escaping option")
				case markup && on && p.esc == 0:
					c.FailAt(at, "the text of a value is not escaped although HTML escaping is on")
				case known && !on && p.esc != 0:
					c.FailAt(at, "the text of a value is escaped although HTML escaping is off")
				}
			}
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no compiled form")
	}
}

func isFormat(ev *Event) bool {
	switch fnPkg0(ev) {
	case "encoding/json", "fmt", "time", "html":
		return !isOutput(ev.Name)
	}
	return false
}

func fnPkg0(ev *Event) string {
	if ev.Callee == nil {
		return ""
	}
	return fnPkg(ev.Callee)
}

func boolText(st *State, got, v *Term) string {
	if isCall(got, "strconv.FormatBool") && st.value(got.Args[0]) == st.value(v) {
		return ""
	}
	if s, ok := got.strVal(); ok {
		if b, k := st.eval(v); k && (s == "true") == b && (s == "true" || s == "false") {
			return ""
		}
	}
	return got.String()
}

func isFloatText(got, v *Term) bool {
	if !isCall(got, "strconv.FormatFloat") || got.Args[0] != v {
		return false
	}
	want := []int64{'f', -1, 64}
	for i, w := range want {
		if n, ok := got.Args[i+1].intVal(); !ok || n != w {
			return false
		}
	}
	return true
}

// readAs tells whether a term reads the interface at a place with the layout of its type.
func readAs(x, place *Term, T types.Type) bool {
	if x.Op == "load" && x.Args[0] == place && x.Typ != nil {
		it, ok := x.Typ.Underlying().(*types.Interface)
		return ok && (it.NumMethods() > 0) == (T.Underlying().(*types.Interface).NumMethods() > 0)
	}
	for _, a := range x.Args {
		if a != nil && !readAs(a, place, T) {
			return false
		}
	}
	return true
}

// ifaceText decides the text of an interface value for its dynamic type on this path; it reports whether it can hold markup.
func (c *Ctx) ifaceText(e *Eng, st *State, p piece, val *Term, T types.Type, at string) bool {
	t := p.text
	// the interface held in the cell
	holds := func(x *Term) bool { return mentions(x, val) && readAs(x, val, T) }
	asserted := func(x *Term) types.Type {
		if x.Op == "assert" && holds(x) {
			return x.Typ
		}
		return nil
	}
	switch {
	case p.isInt:
		if a := asserted(t); a == nil || kindClass(a) != "int" {
			c.FailAt(at, "an interface value renders as %s", t)
		}
		return false
	case asserted(t) != nil && isString(asserted(t)):
		return true
	case isCall(t, "strconv.FormatBool") || isBoolConst(t):
		return false
	case isCall(t, "strconv.FormatFloat"):
		if !isFloatText(t, t.Args[0]) || asserted(t.Args[0]) == nil {
			c.FailAt(at, "a float renders as %s", t)
		}
		return false
	case isCall(t, "(time.Time).Format"):
		if l, ok := t.Args[1].strVal(); !ok || l != "2006-01-02T15:04:05Z07:00" {
			c.FailAt(at, "a time renders with layout %s", t.Args[1])
		}
		if !holds(t.Args[0]) {
			c.FailAt(at, "the rendered time is %s", t.Args[0])
		}
		return false
	case isCall(t, "fmt.Sprintf") || isCall(t, "fmt.Sprint"):
		if isCall(t, "fmt.Sprintf") {
			if f, ok := t.Args[0].strVal(); !ok || f != "%v" {
				c.FailAt(at, "an interface value renders with format %s", t.Args[0])
			}
		}
		args := t.Args[len(t.Args)-1]
		if args.Op != "list" || len(args.Args) != 1 || !holds(args.Args[0]) {
			c.FailAt(at, "an interface value renders as %s", t)
		}
		// a kind with a canonical text must not fall through to the general form
		for _, k := range []string{"string", "int", "float64", "bool"} {
			if is, known := st.eval(mk("typeis", "", basicT(k), args.Args[0])); !known && k == "float64" {
				c.FailAt(at, "a float64 held in an interface does not render in its canonical form")
			} else if known && is && k == "float64" {
				c.FailAt(at, "a float64 held in an interface does not render in its canonical form")
			}
		}
		return true
	}
	c.FailAt(at, "an interface value renders as %s", t)
	return true
}

func isBoolConst(t *Term) bool {
	s, ok := t.strVal()
	return ok && (s == "true" || s == "false")
}
