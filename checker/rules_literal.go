package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C34", Level: "other", MinObs: 16,
		Explanation: "The compilation of a literal is analysed for an arbitrary text of every kind of literal, and that of a range for an arbitrary first bound and a second one at every distance up to a limit on either side of it: the constant the compiled expression points to is followed to its memory, which holds exactly the value the standard library reads from the text (as decimal, at full width), respectively the numbers from the first bound on in steps of one towards the second without it; the expression has the type of that constant; a text that cannot be read is an error.",
		Assumptions: []string{"functions of strconv do what their documentation says", "ranges longer than the bound (12, 40 in the thorough tier) behave like the shorter ones, bounds of a range are not so far apart that their difference overflows"},
		Run:         runC34})
}

func runC34(c *Ctx) {
	f := c.P.fn("", "Planner.compileExpr")
	at := c.P.fnPos(f)
	w := &literalWorld{c: c, f: f, e: c.E.with(Opts{MaxUnroll: 120})}
	w.lit = c.P.typ("ast/expr", "Literal")
	w.rng = c.P.typ("ast/expr", "Range")
	for _, k := range []types.BasicKind{types.Int, types.Float64, types.Bool, types.String} {
		T := types.Typ[k]
		c.Check("literal", typeName(T), at, func() { w.literal(T) })
	}
	for _, k := range []types.BasicKind{types.Int8, types.Uint, types.Complex128} {
		T := types.Typ[k]
		c.Check("literal", "of no kind: "+typeName(T), at, func() {
			for _, o := range w.compileLiteral(T) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "compiling a literal of type %s crashes", typeName(T))
				} else if nn, k := isNonNilErr(o.St, o.R(1)); !k || !nn {
					x := o.R(0)
					if g := w.e.load(o.St, fieldAddr(x, "Type"), nil); !sameR(g, T) {
						c.FailAt(c.P.pos(o.Pos), "a literal of type %s compiles to type %s", typeName(T), g)
					}
				}
			}
		})
	}
	n := int64(12)
	if c.thorough() {
		n = 40
	}
	for d := -n; d <= n; d++ {
		d := d
		name := fmt.Sprintf("%d up", d)
		if d < 0 {
			name = fmt.Sprintf("%d down", -d)
		} else if d == 0 {
			name = "empty"
		}
		c.Check("range", name, at, func() { w.rangeOf(d) })
	}
}

type literalWorld struct {
	c        *Ctx
	f        *ssa.Function
	e        *Eng
	lit, rng types.Type
}

func (w *literalWorld) literalAt(s *State, name string, T types.Type) (*Term, *Term) {
	l := symPtr(name, types.NewPointer(w.lit), s)
	v := symT(name+"Text", types.Typ[types.String])
	s.heap[fieldAddr(l, "Value")] = v
	s.heap[fieldAddr(l, "RType")] = rtype(T)
	return l, v
}

func (w *literalWorld) compile(e *Eng, s *State, x *Term, T types.Type) []Outcome {
	p := symPtr("planner", types.NewPointer(w.c.P.typ("", "Planner")), s)
	return e.Call(s, w.f, []*Term{p, mk("iface", "", types.NewPointer(T), x)}, nil)
}

func (w *literalWorld) compileLiteral(T types.Type) []Outcome {
	s := newState()
	l, _ := w.literalAt(s, "literal", T)
	return w.compile(w.e, s, l, w.lit)
}

// literal: the constant is the value of the text, of the literal's type.
func (w *literalWorld) literal(T *types.Basic) {
	c := w.c
	s := newState()
	l, text := w.literalAt(s, "literal", T)
	kept := 0
	for _, o := range w.compile(w.e, s, l, w.lit) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling a literal crashes")
			continue
		}
		failed := false
		for _, ev := range o.St.events {
			if strings.HasPrefix(evName(ev), "strconv.") {
				if nn, k := isNonNilErr(o.St, resN(ev, 1)); k && nn {
					failed = true
				}
			}
		}
		nn, k := isNonNilErr(o.St, o.R(1))
		if !k {
			c.FailAt(c.P.pos(o.Pos), "whether a literal compiles is unknown")
			continue
		}
		if nn {
			if !failed {
				c.FailAt(c.P.pos(o.Pos), "a literal that can be read is an error")
			}
			continue
		}
		if failed {
			c.FailAt(c.P.pos(o.Pos), "a literal that cannot be read compiles")
			continue
		}
		kept++
		cell := w.cell(o, T)
		if cell == nil {
			continue
		}
		v := o.St.value(w.e.load(o.St, cell, T))
		if !w.isValueOf(o.St, v, text, T) {
			c.FailAt(c.P.pos(o.Pos), "a %s literal has the value %s", typeName(T), v)
		}
	}
	if kept == 0 {
		c.FailAt(c.P.fnPos(w.f), "no %s literal ever compiles", typeName(T))
	}
}

// cell is the memory a compiled constant points to.
func (w *literalWorld) cell(o Outcome, T types.Type) *Term {
	c := w.c
	x := o.R(0)
	if g := w.e.load(o.St, fieldAddr(x, "Type"), nil); !sameR(o.St.value(g), T) {
		c.FailAt(c.P.pos(o.Pos), "a constant of type %s is compiled with the type %s", typeName(T), g)
		return nil
	}
	lp := o.St.value(w.e.load(o.St, fieldAddr(x, "LiteralPtr"), types.NewPointer(uptr())))
	if lp.Op == "nil" {
		c.FailAt(c.P.pos(o.Pos), "a compiled constant has no value")
		return nil
	}
	return o.St.value(w.e.load(o.St, lp, uptr()))
}

// isValueOf: v is what the standard library reads from the text for the type.
func (w *literalWorld) isValueOf(s *State, v, text *Term, T *types.Basic) bool {
	for v.Op == "conv" {
		v = s.value(v.Args[0])
	}
	if T.Kind() == types.String {
		return v == text
	}
	if v.Op != "extract" || v.Aux != "0" {
		return false
	}
	call := s.value(v.Args[0])
	arg := func(i int) int64 {
		n, _ := s.value(call.Args[i]).intVal()
		return n
	}
	if len(call.Args) == 0 || s.value(call.Args[0]) != text {
		return false
	}
	switch {
	case T.Kind() == types.Int && isCall(call, "strconv.Atoi"):
		return true
	case T.Kind() == types.Int && isCall(call, "strconv.ParseInt"):
		return arg(1) == 10 && (arg(2) == 0 || arg(2) == 64)
	case T.Kind() == types.Float64 && isCall(call, "strconv.ParseFloat"):
		return arg(1) != 32
	case T.Kind() == types.Bool && isCall(call, "strconv.ParseBool"):
		return true
	}
	return false
}

// rangeOf: the range from a to a+d.
func (w *literalWorld) rangeOf(d int64) {
	c := w.c
	s := newState()
	Int := types.Typ[types.Int]
	x, xt := w.literalAt(s, "first", Int)
	y, yt := w.literalAt(s, "last", Int)
	r := symPtr("range", types.NewPointer(w.rng), s)
	s.heap[fieldAddr(r, "X")] = x
	s.heap[fieldAddr(r, "Y")] = y
	a := symT("a", Int)
	errT := types.Universe.Lookup("error").Type()
	errs := map[*Term]*Term{xt: symT("firstErr", errT), yt: symT("lastErr", errT)}
	vals := map[*Term]*Term{xt: a, yt: tAdd(a, tInt(d))}
	e := c.E.with(Opts{MaxUnroll: 120, Model: func(e *Eng, s *State, ev *Event) (*Term, bool) {
		n := evName(ev)
		if n != "strconv.Atoi" && n != "strconv.ParseInt" {
			return nil, false
		}
		t := s.value(ev.Args[0])
		if vals[t] == nil {
			return nil, false
		}
		if n == "strconv.ParseInt" {
			b, _ := s.value(ev.Args[1]).intVal()
			z, _ := s.value(ev.Args[2]).intVal()
			if b != 10 || z != 0 && z != 64 {
				return nil, false
			}
		}
		s.emit(ev)
		return mk("tuple", "", nil, vals[t], errs[t]), true
	}})
	kept := 0
	for _, o := range w.compile(e, s, r, w.rng) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling a range crashes")
			continue
		}
		failed := false
		for _, er := range errs {
			if nn, k := isNonNilErr(o.St, er); k && nn {
				failed = true
			}
		}
		nn, k := isNonNilErr(o.St, o.R(1))
		if !k || nn != failed {
			c.FailAt(c.P.pos(o.Pos), "a range is an error: %v, its bounds can be read: %v", nn, !failed)
			continue
		}
		if nn {
			continue
		}
		kept++
		T := types.NewSlice(Int)
		cell := w.cell(o, T)
		if cell == nil {
			continue
		}
		sl := o.St.value(e.load(o.St, cell, T))
		n, step := d, int64(1)
		if d < 0 {
			n, step = -d, -1
		}
		if l, ok := o.St.value(e.lenOf(o.St, sl)).intVal(); !ok || l != n {
			c.FailAt(c.P.pos(o.Pos), "a range of %d numbers has %s", n, e.lenOf(o.St, sl))
			continue
		}
		for i := int64(0); i < n; i++ {
			if v := o.St.value(e.elemAt(o.St, sl, int(i), Int)); v != tAdd(a, tInt(i*step)) {
				c.FailAt(c.P.pos(o.Pos), "number %d of a range from a to a%+d is %s", i, d, v)
				break
			}
		}
	}
	if kept == 0 {
		c.FailAt(c.P.fnPos(w.f), "no range ever compiles")
	}
}
