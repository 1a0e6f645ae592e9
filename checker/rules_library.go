package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C23", Level: "other", MinObs: 75,
		Explanation: "Every function of the standard library of templates is analysed for arbitrary arguments, and for an argument of any type once per dynamic type that the function may tell apart: its results are those of the operation it is named for (a call of the Go standard library with the arguments in their order and the documented base and width, an element, a type test, an entry of the map under the key the map may hold), and on every other path it returns an error. Functions that go through a list are decided for lists of arbitrary elements of every length up to a bound.",
		Assumptions: []string{"the functions of the Go standard library (math, strings, strconv, encoding/json, io, reflect, time) do what their documentation says", "lists longer than the bound (4, 8 in the thorough tier) behave like the shorter ones"},
		Run:         runC23})
}

// libWorld runs functions of the library with a model of a few reflective facts.
type libWorld struct {
	c          *Ctx
	e          *Eng
	keyOf, nrm *ssa.Function
}

func (c *Ctx) newLibWorld() *libWorld {
	w := &libWorld{c: c, keyOf: c.P.fn("keys", "ValueOf"), nrm: c.P.fn("keys", "Normalize")}
	w.e = c.E.with(Opts{Opaque: opaqueSet(w.keyOf, w.nrm), Model: reflectFacts, MaxUnroll: 24})
	return w
}

// reflectFacts folds what is known of reflect.Values of values of known types.
func reflectFacts(e *Eng, s *State, ev *Event) (*Term, bool) {
	if ev.Kind != "call" || !strings.HasPrefix(evName(ev), "(reflect.Value).") {
		return nil, false
	}
	v := ev.Args[0]
	none := v.Op == "zero" || isCall(v, "reflect.ValueOf") && v.Args[0].Op == "nil"
	var T types.Type
	if isCall(v, "reflect.ValueOf") && v.Args[0].Op == "iface" {
		T = v.Args[0].Typ
	}
	switch strings.TrimPrefix(evName(ev), "(reflect.Value).") {
	case "IsValid":
		if none {
			return tBool(false), true
		}
		if T != nil {
			return tBool(true), true
		}
	case "Kind":
		if none {
			return tInt(0), true
		}
		if T != nil {
			return s.value(e.KindT(rtype(T))), true
		}
	case "IsNil":
		if T != nil && isPtrLike(T) {
			return tEq(v.Args[0].Args[0], tNil()), true
		}
	case "Interface":
		if T != nil {
			return v.Args[0], true
		}
	}
	return nil, false
}

func (w *libWorld) method(name string) *ssa.Function { return w.c.P.fn("functions", name) }

// run calls a method on a value of its type (zero, unless recv is given).
func (w *libWorld) run(f *ssa.Function, recv *Term, s *State, args ...*Term) []Outcome {
	if f.Signature.Recv() != nil {
		if recv == nil {
			recv = symPtrOr("recv", f.Params[0].Type(), s)
		}
		args = append([]*Term{recv}, args...)
	}
	return w.e.Call(s, f, args, nil)
}

// params are arbitrary arguments of a function.
func params(f *ssa.Function) []*Term {
	var r []*Term
	for i := 0; i < f.Signature.Params().Len(); i++ {
		r = append(r, symT(fmt.Sprintf("arg%d", i), f.Signature.Params().At(i).Type()))
	}
	return r
}

func anyOf(T types.Type, x *Term) *Term { return mk("iface", "", T, x) }

// expect checks the results of a path: a nil spec is not checked, failing stands for any error.
func (w *libWorld) expect(o Outcome, what string, specs ...*Term) {
	c := w.c
	if o.Panic != nil {
		c.FailAt(c.P.pos(o.Pos), "%s panics", what)
		return
	}
	for i, spec := range specs {
		if spec == nil {
			continue
		}
		got := o.R(i)
		switch {
		case spec == failing:
			if nn, k := isNonNilErr(o.St, got); !k || !nn {
				c.FailAt(c.P.pos(o.Pos), "%s: no error but %v [%s]", what, got, o.St.factStrings(0))
			}
		case got == spec, o.St.value(got) == o.St.value(spec):
		case got != nil && isBoolTerm(got) && isBoolTerm(spec):
			if d := equalUnder(o.St, got, spec, 0); d != "" {
				c.FailAt(c.P.pos(o.Pos), "%s: %s", what, d)
			}
		case spec.Op == "nil" && got != nil && setNil(o.St.clone(), got, true) && !setNil(o.St.clone(), got, false):
		default:
			c.FailAt(c.P.pos(o.Pos), "%s: the result is %v where %v is required [%s]", what, got, spec, o.St.factStrings(0))
		}
	}
}

var failing = sym("an error")

func isBoolTerm(t *Term) bool { return t.Typ != nil && isBoolT(t.Typ) }

func extractOf(t *Term, i int) *Term { return mk("extract", fmt.Sprint(i), nil, t) }

// calls checks that the results are those of one of the calls, tuple results in their order.
func (w *libWorld) isResultOf(got *Term, i, n int, call string, args []*Term) bool {
	if n > 1 {
		if got == nil || got.Op != "extract" || got.Aux != fmt.Sprint(i) {
			return false
		}
		got = got.Args[0]
	}
	return isCall(got, call) && sameTerms(got.Args, args)
}

type libCall struct {
	name string // method
	call string // operation
	tail []*Term
	alt  string // another operation with the same meaning
	altT []*Term
}

func runC23(c *Ctx) {
	w := c.newLibWorld()
	w.straight()
	w.typeTests()
	w.errorFuncs()
	w.slices()
	w.mapFuncs()
	w.conversions()
	w.json()
	w.indexBy()
	w.registered()
}

// straight: functions that apply one operation to their arguments.
func (w *libWorld) straight() {
	c := w.c
	ten, w64 := tInt(10), tInt(64)
	for _, l := range []libCall{
		{name: "Math.Round", call: "math.Round"}, {name: "Math.Ceil", call: "math.Ceil"}, {name: "Math.Abs", call: "math.Abs"},
		{name: "Math.Floor", call: "math.Floor"}, {name: "Math.Sqrt", call: "math.Sqrt"}, {name: "Math.Pow", call: "math.Pow"},
		{name: "Math.Min", call: "math.Min"}, {name: "Math.Max", call: "math.Max"},
		{name: "Strings.ToLower", call: "strings.ToLower"}, {name: "Strings.ToUpper", call: "strings.ToUpper"},
		{name: "Strings.ReplaceAll", call: "strings.ReplaceAll", alt: "strings.Replace", altT: []*Term{tInt(-1)}},
		{name: "Strings.HasSuffix", call: "strings.HasSuffix"}, {name: "Strings.HasPrefix", call: "strings.HasPrefix"},
		{name: "Strings.Index", call: "strings.Index"}, {name: "Strings.LastIndex", call: "strings.LastIndex"},
		{name: "Strings.Fields", call: "strings.Fields"}, {name: "Strings.Split", call: "strings.Split", alt: "strings.SplitN", altT: []*Term{tInt(-1)}},
		{name: "Strings.TrimSpace", call: "strings.TrimSpace"}, {name: "Strings.Trim", call: "strings.Trim"},
		{name: "Strconv.Itoa", call: "strconv.Itoa", alt: "strconv.FormatInt", altT: []*Term{ten}}, {name: "Strconv.Atoi", call: "strconv.Atoi"},
		{name: "Strconv.ParseFloat", call: "strconv.ParseFloat", tail: []*Term{w64}}, {name: "Strconv.ParseBool", call: "strconv.ParseBool"},
		{name: "Strconv.ParseUint", call: "strconv.ParseUint", tail: []*Term{ten, w64}},
	} {
		l := l
		f := w.method(l.name)
		c.Check("operation", l.name, c.P.fnPos(f), func() {
			args := params(f)
			outs := w.run(f, nil, newState(), args...)
			n := f.Signature.Results().Len()
			for _, o := range outs {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "%s can panic", l.name)
					continue
				}
				same := func(call string, args []*Term) bool {
					for i := 0; i < n; i++ {
						r := o.R(i)
						if w.isResultOf(r, i, n, call, args) {
							continue
						}
						// the error may be told apart first
						if i == 1 && o.St.value(r) == tNil() && w.isResultOf(o.R(0), 0, n, call, args) && setNil(o.St.clone(), extractOf(o.R(0).Args[0], 1), true) && !setNil(o.St.clone(), extractOf(o.R(0).Args[0], 1), false) {
							continue
						}
						if i == 0 && n == 2 && w.isResultOf(o.R(1), 1, n, call, args) && !setNil(o.St.clone(), o.R(1), true) {
							continue
						}
						return false
					}
					return true
				}
				if same(l.call, append(args[:len(args):len(args)], l.tail...)) || l.alt != "" && same(l.alt, append(args[:len(args):len(args)], l.altT...)) {
					continue
				}
				c.FailAt(c.P.pos(o.Pos), "%s(%v) returns %v, not %s of it", l.name, args, o.Results, l.call)
			}
			if len(outs) == 0 {
				undecided("no outcome")
			}
		})
	}
	f := w.method("Strings.Length")
	c.Check("operation", "Strings.Length", c.P.fnPos(f), func() {
		x := symT("text", types.Typ[types.String])
		for _, o := range w.run(f, nil, newState(), x) {
			w.expect(o, "length", lenOf(x))
		}
	})
	now := w.method("Time.Now")
	c.Check("operation", "Time.Now", c.P.fnPos(now), func() {
		for _, o := range w.run(now, nil, newState()) {
			r := o.R(0)
			// the clock can be replaced by tests
			if o.Panic != nil || !isCall(r, "time.Now") && !(r != nil && len(r.Args) > 0 && r.contains(func(t *Term) bool { return t.Op == "global" || t.Op == "load" })) {
				c.FailAt(c.P.pos(o.Pos), "the time is %v", r)
			}
		}
	})
	in := w.method("Strings.In")
	for n := 0; n <= w.bound(); n++ {
		n := n
		c.Check("list", fmt.Sprintf("In/%d", n), c.P.fnPos(in), func() {
			s := newState()
			cand := symT("candidate", types.Typ[types.String])
			spec := tBool(false)
			var elems []*Term
			for i := 0; i < n; i++ {
				x := symT(fmt.Sprintf("elem%d", i), types.Typ[types.String])
				elems = append(elems, x)
				spec = tOr(spec, tEq(x, cand))
			}
			for _, o := range w.run(in, nil, s, sliceOf(w.e, s, "set", elems...), cand) {
				w.expect(o, "membership", spec)
			}
		})
	}
}

func (w *libWorld) bound() int {
	if w.c.thorough() {
		return 8
	}
	return 4
}

func lenOf(x *Term) *Term { return mk("len", "", types.Typ[types.Int], x) }

// dynTypes are the types of values that a function taking any value is tried with.
func (w *libWorld) dynTypes() []types.Type {
	var r []types.Type
	for _, k := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint64, types.Float32, types.Float64, types.String, types.Complex128} {
		r = append(r, types.Typ[k])
	}
	b := types.Typ
	r = append(r, types.NewPointer(b[types.Int]), types.NewPointer(b[types.String]), types.NewPointer(b[types.Bool]), types.NewPointer(b[types.Float64]),
		types.NewSlice(b[types.String]), types.NewSlice(b[types.Int]), types.NewSlice(b[types.Bool]), types.NewSlice(b[types.Float64]), types.NewSlice(b[types.Uint8]), types.NewSlice(b[types.Int64]), types.NewSlice(types.NewInterfaceType(nil, nil)),
		types.NewMap(b[types.String], b[types.Int]), types.NewStruct(nil, nil), w.c.P.typOf("time", "Time"), w.c.P.typOf("time", "Duration"))
	return r
}

func (w *libWorld) typeTests() {
	c := w.c
	for _, t := range []struct {
		name string
		k    types.BasicKind
		err  bool
	}{{"Types.IsInt", types.Int, false}, {"Types.IsFloat64", types.Float64, false}, {"Types.IsString", types.String, false}, {"Types.IsBool", types.Bool, false},
		{"Errors.AssertInt", types.Int, true}, {"Errors.AssertFloat", types.Float64, true}, {"Errors.AssertString", types.String, true}, {"Errors.AssertBool", types.Bool, true}} {
		t := t
		f := w.method(t.name)
		c.Check("type-test", t.name, c.P.fnPos(f), func() {
			try := func(v *Term, is bool) {
				for _, o := range w.run(f, nil, newState(), v) {
					what := fmt.Sprintf("%s of %v", t.name, v.Typ)
					if !t.err {
						w.expect(o, what, tBool(is))
					} else if is {
						w.expect(o, what, tBool(true), tNil())
					} else {
						w.expect(o, what, tBool(false), failing)
					}
				}
			}
			try(tNil(), false)
			for _, T := range w.dynTypes() {
				try(anyOf(T, symT("x", T)), types.Identical(T, types.Typ[t.k]))
			}
		})
	}
}

func (w *libWorld) errorFuncs() {
	c := w.c
	msg := symT("message", types.Typ[types.String])
	isMsg := func(o Outcome, e *Term) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "raising an error panics")
			return
		}
		if e != nil && e.Op == "iface" {
			e = e.Args[0]
		}
		if isCall(e, "errors.New") && e.Args[0] == msg {
			return
		}
		if isCall(e, "fmt.Errorf") {
			if v, ok := e.Args[0].strVal(); ok && (v == "%s" || v == "%v") && e.Args[1].Op == "list" && len(e.Args[1].Args) == 1 {
				a := e.Args[1].Args[0]
				if a == msg || a.Op == "iface" && a.Args[0] == msg {
					return
				}
			}
		}
		c.FailAt(c.P.pos(o.Pos), "the error is %v, not the message as it is", e)
	}
	for _, n := range []string{"Errors.Raise", "Errors.RegisterError"} {
		f := w.method(n)
		c.Check("raise", n, c.P.fnPos(f), func() {
			for _, o := range w.run(f, nil, newState(), msg) {
				isMsg(o, o.R(1))
			}
		})
	}
	f := w.method("Errors.AssertWithMessage")
	for _, v := range []bool{true, false} {
		v := v
		c.Check("raise", fmt.Sprintf("AssertWithMessage/%v", v), c.P.fnPos(f), func() {
			for _, o := range w.run(f, nil, newState(), tBool(v), msg) {
				if v {
					w.expect(o, "a condition that holds", tBool(true), tNil())
				} else {
					w.expect(o, "a condition that does not hold", tBool(false), failing)
					isMsg(o, o.R(1))
				}
			}
		})
	}
}

func (w *libWorld) slices() {
	c := w.c
	f := w.method("Slices.Length")
	c.Check("slice", "Length", c.P.fnPos(f), func() {
		for _, T := range w.dynTypes() {
			if _, ok := T.(*types.Slice); !ok {
				continue
			}
			x := symT("slice", T)
			for _, o := range w.run(f, nil, newState(), anyOf(T, x)) {
				r := o.R(0)
				if o.Panic == nil && (r == lenOf(x) || isCall(r, "(reflect.Value).Len") && isCall(r.Args[0], "reflect.ValueOf") && r.Args[0].Args[0] == anyOf(T, x)) {
					continue
				}
				c.FailAt(c.P.pos(o.Pos), "the length of %v is %v", T, r)
			}
		}
	})
	for _, a := range []struct {
		at, rev string
		k       types.BasicKind
	}{{"Slices.StringAt", "Slices.ReverseStrings", types.String}, {"Slices.IntAt", "Slices.ReverseInts", types.Int}, {"Slices.BoolAt", "", types.Bool}, {"Slices.FloatAt", "Slices.ReverseFloats", types.Float64}} {
		a := a
		ST := types.NewSlice(types.Typ[a.k])
		f := w.method(a.at)
		c.Check("slice", a.at, c.P.fnPos(f), func() {
			idx := symT("index", types.Typ[types.Int])
			w.reject(f, a.at, ST, idx)
			for n := 0; n <= w.bound(); n++ {
				for i := 0; i < n; i++ {
					s := newState()
					el := w.elems(n, types.Typ[a.k])
					for _, o := range w.run(f, nil, s, anyOf(ST, sliceOf(w.e, s, "slice", el...)), tInt(int64(i))) {
						w.expect(o, fmt.Sprintf("element %d of %d", i, n), el[i], tNil())
					}
				}
			}
			// any index of any slice: the element or a panic of the runtime
			s := newState()
			x := symT("slice", ST)
			for _, o := range w.run(f, nil, s, anyOf(ST, x), idx) {
				if o.Panic != nil {
					continue
				}
				r := o.R(0)
				if r == nil || r.Op != "load" || r.Args[0] != indexAddr(x, idx) || o.St.value(o.R(1)) != tNil() {
					c.FailAt(c.P.pos(o.Pos), "the element at an index is %v, %v", r, o.R(1))
				}
			}
		})
		if a.rev == "" {
			continue
		}
		rev := w.method(a.rev)
		c.Check("slice", a.rev, c.P.fnPos(rev), func() {
			w.reject(rev, a.rev, ST)
			for n := 0; n <= w.bound(); n++ {
				s := newState()
				el := w.elems(n, types.Typ[a.k])
				in := sliceOf(w.e, s, "slice", el...)
				outs := w.run(rev, nil, s, anyOf(ST, in))
				if len(outs) == 0 {
					undecided("no outcome")
				}
				for _, o := range outs {
					w.expect(o, fmt.Sprintf("reversing %d elements", n), nil, tNil())
					if o.Panic != nil {
						continue
					}
					r := o.R(0)
					if !sameLen(o.St, r, n) {
						c.FailAt(c.P.pos(o.Pos), "the reverse of %d elements is %v", n, r)
						continue
					}
					if r == in && n > 0 {
						c.FailAt(c.P.pos(o.Pos), "the reverse is the slice itself")
					}
					for i := 0; i < n; i++ {
						if got := w.e.elemAt(o.St, r, i, types.Typ[a.k]); got != el[n-1-i] {
							c.FailAt(c.P.pos(o.Pos), "element %d of the reverse of %d is %v", i, n, got)
						}
						if got := w.e.elemAt(o.St, in, i, types.Typ[a.k]); got != el[i] {
							c.FailAt(c.P.pos(o.Pos), "reversing changes the slice it is given")
						}
					}
				}
			}
		})
	}
}

// reject: values of other types are refused with an error.
func (w *libWorld) reject(f *ssa.Function, name string, T types.Type, rest ...*Term) {
	try := func(v *Term) {
		n := f.Signature.Results().Len()
		specs := make([]*Term, n)
		specs[n-1] = failing
		for _, o := range w.run(f, nil, newState(), append([]*Term{v}, rest...)...) {
			w.expect(o, fmt.Sprintf("%s of %v", name, v.Typ), specs...)
		}
	}
	try(tNil())
	for _, D := range w.dynTypes() {
		if !types.Identical(D, T) {
			try(anyOf(D, symT("x", D)))
		}
	}
}

func (w *libWorld) elems(n int, T types.Type) []*Term {
	var r []*Term
	for i := 0; i < n; i++ {
		r = append(r, symT(fmt.Sprintf("elem%d", i), T))
	}
	return r
}

// elemAt is the element of a slice of known content.
func (e *Eng) elemAt(s *State, sl *Term, i int, T types.Type) *Term {
	return e.load(s, indexAddr(sl, tInt(int64(i))), T)
}

func sameLen(s *State, sl *Term, n int) bool {
	if sl == nil {
		return false
	}
	if sl.Op == "nil" {
		return n == 0
	}
	l := s.value(lenTerm(sl))
	v, ok := l.intVal()
	return ok && v == int64(n)
}

// mapFuncs: entries are looked up under the key that the map may hold.
func (w *libWorld) mapFuncs() {
	c := w.c
	anyT := types.NewInterfaceType(nil, nil)
	key := symT("key", anyT)
	mapT := types.NewMap(types.Typ[types.String], types.Typ[types.Int])
	m := symT("map", mapT)
	has, get := w.method("Maps.Has"), w.method("Maps.Get")
	typed := map[string]types.BasicKind{"Maps.GetInt": types.Int, "Maps.GetFloat": types.Float64, "Maps.GetBool": types.Bool, "Maps.GetString": types.String}

	// found tells what the path established about the entry: -1 unknown, 0 absent, 1 present
	type look struct {
		entry *Term
		state int
	}
	lookup := func(o Outcome) look {
		st := o.St
		for _, ev := range st.events {
			if evName(ev) != "(reflect.Value).MapIndex" {
				continue
			}
			if !isCall(ev.Args[0], "reflect.ValueOf") || ev.Args[0].Args[0] != anyOf(mapT, m) {
				c.FailAt(c.P.pos(ev.Pos), "the entry is looked up in %v", ev.Args[0])
			}
			k := ev.Args[1]
			if k.Op != "extract" || k.Aux != "0" || !isCall(k.Args[0], w.keyOf.String()) {
				c.FailAt(c.P.pos(ev.Pos), "the entry is looked up under %v", k)
				continue
			}
			call := k.Args[0]
			if rtOf(call.Args[0]) == nil || !types.Identical(rtOf(call.Args[0]), mapT.Key()) {
				c.FailAt(c.P.pos(ev.Pos), "the key is made for keys of type %v", call.Args[0])
			}
			if call.Args[1] != key && !(isCall(call.Args[1], w.nrm.String()) && call.Args[1].Args[0] == key) {
				c.FailAt(c.P.pos(ev.Pos), "the key is made of %v", call.Args[1])
			}
			if v, k := st.eval(extractB(call, 1)); !k || !v {
				c.FailAt(c.P.pos(ev.Pos), "the entry is looked up with a key that the map can't hold")
			}
			entry := ev.Result
			valid := mk("call", "(reflect.Value).IsValid", types.Typ[types.Bool], entry)
			for _, e2 := range st.events {
				if evName(e2) == "(reflect.Value).IsValid" && e2.Args[0] == entry && e2.Result != nil {
					valid = e2.Result
				}
			}
			if v, k := st.eval(valid); k {
				if v {
					return look{entry, 1}
				}
				return look{entry, 0}
			}
			return look{entry, -1}
		}
		// no lookup: absent, if the map can't hold the key
		for _, ev := range st.events {
			if ev.Callee == w.keyOf {
				if v, k := st.eval(extractB(ev.Result, 1)); k && !v {
					return look{nil, 0}
				}
			}
		}
		return look{nil, -1}
	}
	keyNil := func(st *State) (bool, bool) { return st.eval(tEq(key, tNil())) }

	c.Check("map", "Has", c.P.fnPos(has), func() {
		for _, o := range w.run(has, nil, newState(), tNil(), key) {
			w.expect(o, "a nil map", tBool(false), tNil())
		}
		for _, o := range w.run(has, nil, newState(), anyOf(mapT, m), tNil()) {
			w.expect(o, "a nil key", tBool(false), tNil())
		}
		w.rejectMap(has, key)
		n := 0
		for _, o := range w.run(has, nil, newState(), anyOf(mapT, m), key) {
			if isNil, k := keyNil(o.St); k && isNil {
				continue
			}
			n++
			l := lookup(o)
			switch {
			case l.state >= 0:
				w.expect(o, "an entry", tBool(l.state == 1), tNil())
			case l.entry != nil && isCall(o.R(0), "(reflect.Value).IsValid") && o.R(0).Args[0] == l.entry:
				w.expect(o, "an entry", nil, tNil())
			default:
				c.FailAt(c.P.pos(o.Pos), "the result %v is not whether the map has the entry [%s]", o.R(0), o.St.factStrings(0))
			}
		}
		if n == 0 {
			undecided("no lookup")
		}
	})
	c.Check("map", "Get", c.P.fnPos(get), func() {
		for _, o := range w.run(get, nil, newState(), tNil(), key) {
			w.expect(o, "a nil map", tNil(), tNil())
		}
		for _, o := range w.run(get, nil, newState(), anyOf(mapT, m), tNil()) {
			w.expect(o, "a nil key", tNil(), tNil())
		}
		w.rejectMap(get, key)
		for _, o := range w.run(get, nil, newState(), anyOf(mapT, m), key) {
			if isNil, k := keyNil(o.St); k && isNil {
				continue
			}
			l := lookup(o)
			switch l.state {
			case 0:
				w.expect(o, "an absent entry", tNil(), tNil())
			case 1:
				w.expect(o, "an entry", mk("call", "(reflect.Value).Interface", anyT, l.entry), tNil())
			default:
				c.FailAt(c.P.pos(o.Pos), "the result %v does not depend on whether the map has the entry", o.R(0))
			}
		}
	})
	for name, k := range typed {
		name, T := name, types.Typ[k]
		f := w.method(name)
		c.Check("map", name, c.P.fnPos(f), func() {
			w.rejectMap(f, key)
			n := 0
			for _, o := range w.run(f, nil, newState(), anyOf(mapT, m), key) {
				if isNil, k := keyNil(o.St); k && isNil {
					w.expect(o, "a nil key", nil, failing)
					continue
				}
				l := lookup(o)
				if l.state != 1 {
					w.expect(o, "an absent entry", nil, failing)
					continue
				}
				v := mk("call", "(reflect.Value).Interface", anyT, l.entry)
				for _, ev := range o.St.events {
					if evName(ev) == "(reflect.Value).Interface" && ev.Args[0] == l.entry {
						v = ev.Result
					}
				}
				dt := o.St.typ[v]
				if dt != nil && types.Identical(dt, T) {
					n++
					w.expect(o, "an entry", mk("assert", "", T, v), tNil())
				} else {
					w.expect(o, "an entry of another type", nil, failing)
				}
			}
			if n == 0 {
				c.Fail("no path returns an entry")
			}
		})
	}
	// the method of maps
	hk := w.registeredHandler("HasKey")
	c.Check("map", "HasKey", c.P.fnPos(hk.Fn), func() {
		n := 0
		for _, o := range w.e.Apply(newState(), hk, []*Term{anyOf(mapT, m), key}) {
			n++
			l := lookup(o)
			got := o.R(0)
			switch {
			case l.state >= 0:
				w.expect(o, "an entry", tBool(l.state == 1), tNil())
			case l.entry != nil && isCall(got, "(reflect.Value).IsValid") && got.Args[0] == l.entry:
				w.expect(o, "an entry", nil, tNil())
			default:
				c.FailAt(c.P.pos(o.Pos), "the result %v is not whether the map has the entry [%s]", got, o.St.factStrings(0))
			}
			for _, ev := range o.St.events {
				if ev.Callee == w.keyOf && !(isCall(ev.Args[1], w.nrm.String()) && ev.Args[1].Args[0] == key) {
					c.FailAt(c.P.pos(ev.Pos), "the key %v is not normalized", ev.Args[1])
				}
			}
		}
		if n == 0 {
			undecided("no outcome")
		}
	})
}

// extractB is the boolean result of a call.
func extractB(t *Term, i int) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	return mk("extract", fmt.Sprint(i), types.Typ[types.Bool], t)
}

func (w *libWorld) rejectMap(f *ssa.Function, key *Term) {
	n := f.Signature.Results().Len()
	specs := make([]*Term, n)
	specs[n-1] = failing
	for _, D := range w.dynTypes() {
		if _, ok := D.(*types.Map); ok {
			continue
		}
		for _, o := range w.run(f, nil, newState(), anyOf(D, symT("x", D)), key) {
			if isNil, k := o.St.eval(tEq(key, tNil())); k && isNil {
				continue
			}
			w.expect(o, fmt.Sprintf("%v given as a map", D), specs...)
		}
	}
}

func (w *libWorld) conversions() {
	c := w.c
	f := w.method("Strconv.AsFloat")
	c.Check("operation", "Strconv.AsFloat", c.P.fnPos(f), func() {
		for _, o := range w.run(f, nil, newState(), tNil()) {
			w.expect(o, "nil as a number", nil, tNil())
			if v, ok := constFloat(o.R(0)); !ok || v != 0 {
				c.Fail("nil as a number is %v", o.R(0))
			}
		}
		for _, T := range w.dynTypes() {
			x := symT("x", T)
			for _, o := range w.run(f, nil, newState(), anyOf(T, x)) {
				what := T.String() + " as a number"
				b, _ := T.(*types.Basic)
				switch {
				case b != nil && b.Kind() == types.Float64:
					w.expect(o, what, x, tNil())
				case b != nil && b.Kind() == types.Int:
					w.expect(o, what, nil, tNil())
					if r := o.R(0); r == nil || r.Op != "conv" || r.Typ != types.Typ[types.Float64] || r.Args[0] != x {
						c.FailAt(c.P.pos(o.Pos), "%s is %v", what, r)
					}
				case b != nil && b.Kind() == types.String:
					if o.Panic != nil || !w.isResultOf(o.R(0), 0, 2, "strconv.ParseFloat", []*Term{x, tInt(64)}) && o.St.value(o.R(1)) == tNil() ||
						o.St.value(o.R(1)) != tNil() && !w.isResultOf(o.R(1), 1, 2, "strconv.ParseFloat", []*Term{x, tInt(64)}) {
						c.FailAt(c.P.pos(o.Pos), "%s is %v", what, o.Results)
					}
				case b != nil && b.Info()&types.IsNumeric != 0:
					// other numbers may be converted too
					if nn, k := isNonNilErr(o.St, o.R(1)); k && nn {
						continue
					}
					if r := o.R(0); r == nil || r.Op != "conv" || r.Args[0] != x {
						c.FailAt(c.P.pos(o.Pos), "%s is %v", what, r)
					}
				default:
					if _, ok := T.(*types.Pointer); ok {
						continue
					}
					w.expect(o, what, nil, failing)
				}
			}
		}
	})
}

func constFloat(t *Term) (float64, bool) {
	if t == nil || t.C == nil {
		return 0, false
	}
	v, ok := constant.Float64Val(constant.ToFloat(t.C))
	return v, ok
}

func (w *libWorld) json() {
	c := w.c
	anyT := types.NewInterfaceType(nil, nil)
	str := types.Typ[types.String]
	mar := w.method("JSON.Marshal")
	newJ := c.P.fn("functions", "NewJSON")
	parserT := newJ.Signature.Params().At(0).Type()
	mkRecv := func(parser *Term) (*State, *Term) {
		outs := w.e.Call(newState(), newJ, []*Term{parser}, nil)
		if len(outs) != 1 || outs[0].Panic != nil {
			undecided("the JSON functions are not made in one way")
		}
		st := outs[0].St
		st.events = nil
		return st, outs[0].R(0)
	}
	c.Check("json", "Marshal", c.P.fnPos(mar), func() {
		x := symT("value", anyT)
		s, recv := mkRecv(tNil())
		for _, o := range w.run(mar, recv, s, x) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "marshalling panics")
				continue
			}
			var call *Term
			for _, ev := range o.St.events {
				if evName(ev) == "encoding/json.Marshal" && ev.Args[0] == x {
					call = ev.Result
				}
			}
			if call == nil {
				c.FailAt(c.P.pos(o.Pos), "the value is not marshalled")
				continue
			}
			err := extractOf2(call, 1)
			if e := o.R(1); e != err && !(o.St.value(e) == tNil() && !setNil(o.St.clone(), err, false)) {
				if nn, k := isNonNilErr(o.St, e); !k || !nn || setNil(o.St.clone(), err, true) {
					c.FailAt(c.P.pos(o.Pos), "the error is %v", e)
				}
			}
			if r := o.R(0); setNil(o.St.clone(), err, true) && !(r != nil && r.Op == "conv" && r.Args[0] == extractOf2(call, 0)) {
				c.FailAt(c.P.pos(o.Pos), "the text is %v", r)
			}
		}
	})
	un := w.method("JSON.UnmarshalInto")
	typ := symT("type", str)
	parser := symT("parser", parserT)
	ptrStr := types.NewPointer(str)
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	// bytesOf: whether the data read is that of the value
	type form struct {
		name string
		v    func(s *State) *Term
		is   func(o Outcome, d *Term) bool
	}
	isConvOf := func(d *Term, x *Term) bool { return d != nil && d.Op == "conv" && d.Args[0] == x }
	forms := []form{
		{"string", func(s *State) *Term { return anyOf(str, symT("text", str)) }, func(o Outcome, d *Term) bool { return isConvOf(d, symT("text", str)) }},
		{"*string", func(s *State) *Term {
			p := symPtr("ptr", ptrStr, s)
			s.heap[p] = symT("text", str)
			return anyOf(ptrStr, p)
		}, func(o Outcome, d *Term) bool { return isConvOf(d, symT("text", str)) }},
		{"nil *string", func(s *State) *Term { return anyOf(ptrStr, tNil()) }, func(o Outcome, d *Term) bool {
			return isConvOf(d, tStr("")) || d != nil && (d.Op == "nil" || sameLen(o.St, d, 0))
		}},
		{"[]byte", func(s *State) *Term { return anyOf(bytesT, symT("bytes", bytesT)) }, func(o Outcome, d *Term) bool { return d == symT("bytes", bytesT) }},
	}
	rd := types.NewPointer(c.P.typOf("strings", "Reader"))
	forms = append(forms, form{"reader", func(s *State) *Term { return anyOf(rd, symPtr("reader", rd, s)) }, func(o Outcome, d *Term) bool {
		return d != nil && d.Op == "extract" && d.Aux == "0" && (isCall(d.Args[0], "io.ReadAll") || isCall(d.Args[0], "io/ioutil.ReadAll")) && d.Args[0].Args[0].contains(func(t *Term) bool { return t == symPtr("reader", rd, newState()) })
	}})
	for _, fm := range forms {
		fm := fm
		c.Check("json", "UnmarshalInto/"+fm.name, c.P.fnPos(un), func() {
			s, recv := mkRecv(parser)
			s.assume(tEq(parser, tNil()), false)
			ok := 0
			for _, o := range w.run(un, recv, s, fm.v(s), typ) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "unmarshalling panics")
					continue
				}
				parsed := dynCalls(o.St.events, parser)
				if len(parsed) > 0 && parsed[0].Args[len(parsed[0].Args)-1] != typ {
					c.FailAt(c.P.pos(parsed[0].Pos), "the type parsed is %v", parsed[0].Args)
				}
				var um *Event
				for _, ev := range o.St.events {
					if evName(ev) == "encoding/json.Unmarshal" {
						um = ev
					}
				}
				for _, ev := range o.St.events {
					if n := evName(ev); um != nil && (n == "io.ReadAll" || n == "io/ioutil.ReadAll") {
						if nn, k := isNonNilErr(o.St, evErr2(ev)); !k || nn {
							c.FailAt(c.P.pos(ev.Pos), "the error of reading the data is not looked at")
						}
					}
				}
				if um == nil {
					w.expect(o, "data that is not unmarshalled", tNil(), failing)
					continue
				}
				if !fm.is(o, um.Args[0]) {
					c.FailAt(c.P.pos(um.Pos), "the data unmarshalled is %v", um.Args[0])
				}
				nv := um.Args[1]
				var target *Term
				if isCall(nv, "(reflect.Value).Interface") && isCall(nv.Args[0], "reflect.New") {
					target = nv.Args[0]
				}
				if target == nil || len(parsed) != 1 || target.Args[0] != resN(parsed[0], 0) {
					c.FailAt(c.P.pos(um.Pos), "the data is unmarshalled into %v", nv)
					continue
				}
				if nn, k := isNonNilErr(o.St, resN(parsed[0], 1)); !k || nn {
					c.FailAt(c.P.pos(um.Pos), "the error of parsing the type is not looked at")
				}
				err := um.Result
				failed, known := isNonNilErr(o.St, err)
				if !known {
					c.FailAt(c.P.pos(um.Pos), "the error of unmarshalling is not looked at")
				} else if failed {
					w.expect(o, "data that does not unmarshal", nil, failing)
				} else {
					ok++
					r := o.R(0)
					if !isCall(r, "(reflect.Value).Interface") || !isCall(r.Args[0], "(reflect.Value).Elem") && !isCall(r.Args[0], "reflect.Indirect") || r.Args[0].Args[0] != target {
						c.FailAt(c.P.pos(o.Pos), "the value is %v", r)
					}
					w.expect(o, "data unmarshalled", nil, tNil())
				}
			}
			if ok == 0 {
				c.Fail("no path returns the unmarshalled value")
			}
		})
	}
	c.Check("json", "UnmarshalInto/other", c.P.fnPos(un), func() {
		for _, D := range append(w.dynTypes(), nil) {
			s, recv := mkRecv(parser)
			s.assume(tEq(parser, tNil()), false)
			v := tNil()
			if D != nil {
				if types.Identical(D, str) || types.Identical(D, ptrStr) || types.Identical(D, bytesT) {
					continue
				}
				v = anyOf(D, symT("x", D))
			}
			for _, o := range w.run(un, recv, s, v, typ) {
				w.expect(o, fmt.Sprintf("data of type %v", D), nil, failing)
			}
		}
	})
	c.Check("json", "UnmarshalInto/no parser", c.P.fnPos(un), func() {
		s, recv := mkRecv(tNil())
		for _, o := range w.run(un, recv, s, symT("data", anyT), typ) {
			w.expect(o, "without a parser of types", nil, failing)
		}
	})
	rt := w.method("JSON.MethodResultType")
	exprI := c.P.typ("ast", "Expression")
	litT := types.NewPointer(c.P.typ("ast/expr", "Literal"))
	callT := types.NewPointer(c.P.typ("ast/expr", "Call"))
	result := func(p *Term, method *Term, args ...*Term) []Outcome {
		s, recv := mkRecv(p)
		if p.Op != "nil" {
			s.assume(tEq(p, tNil()), false)
		}
		call := symPtr("call", callT, s)
		s.heap[fieldAddr(symPtr("literal", litT, s), "Value")] = typ
		s.heap[fieldAddr(call, "Args")] = sliceOf(w.e, s, "args", args...)
		return w.run(rt, recv, s, method, call)
	}
	s0 := newState()
	lit := symPtr("literal", litT, s0)
	other := anyOf(types.NewPointer(c.P.typ("ast/expr", "Select")), symPtr("selector", types.NewPointer(c.P.typ("ast/expr", "Select")), s0))
	first := symT("first", exprI)
	into := tStr("UnmarshalInto")
	c.Check("json", "result type", c.P.fnPos(rt), func() {
		for _, o := range result(parser, tStr("Marshal"), first) {
			w.expect(o, "another function", tNil(), tNil())
		}
		for n := 0; n <= 3; n++ {
			if n == 2 {
				continue
			}
			args := []*Term{first, anyOf(litT, lit), first}[:n]
			for _, o := range result(parser, into, args...) {
				w.expect(o, fmt.Sprintf("%d arguments", n), nil, failing)
			}
		}
		for _, o := range result(parser, into, first, other) {
			w.expect(o, "a type that is not a literal", tNil(), tNil())
		}
		for _, o := range result(tNil(), into, first, anyOf(litT, lit)) {
			w.expect(o, "without a parser of types", nil, failing)
		}
		for _, o := range result(parser, into, first, anyOf(litT, lit)) {
			p := dynCalls(o.St.events, parser)
			if o.Panic != nil || len(p) != 1 {
				c.FailAt(c.P.pos(o.Pos), "the type is not parsed")
				continue
			}
			if a := p[0].Args[len(p[0].Args)-1]; a != typ {
				c.FailAt(c.P.pos(p[0].Pos), "the type parsed is %v", a)
			}
			if e := o.R(1); e != resN(p[0], 1) {
				nn, k := isNonNilErr(o.St, e)
				if !k || nn != !setNil(o.St.clone(), resN(p[0], 1), true) {
					c.FailAt(c.P.pos(o.Pos), "the error is %v", e)
				}
			}
			if o.R(0) != resN(p[0], 0) && setNil(o.St.clone(), resN(p[0], 1), true) {
				c.FailAt(c.P.pos(o.Pos), "the type is %v", o.R(0))
			}
		}
	})
}

func extractOf2(call *Term, i int) *Term {
	if call.Op == "tuple" {
		return call.Args[i]
	}
	return extractOf(call, i)
}

func lenTerm(sl *Term) *Term {
	switch sl.Op {
	case "makeslice":
		return sl.Args[0]
	}
	return lenOf(sl)
}

// entry is what the initial registry holds under a name.
func (w *libWorld) entry(name string) (handler, meta *Term, s *State) {
	entryT := types.NewPointer(w.c.P.typ("functions", "Entry"))
	anyT := types.NewInterfaceType(nil, nil)
	s = newState()
	for a, v := range w.c.E.globals {
		if a.Op != "mapelem" {
			continue
		}
		if k, ok := a.Args[1].strVal(); !ok || k != name || v.Typ == nil || !types.Identical(v.Typ, entryT) && !types.Identical(types.NewPointer(v.Typ), entryT) {
			continue
		}
		return w.e.load(s, fieldAddr(v, "Handler"), anyT), w.e.load(s, fieldAddr(v, "Metadata"), anyT), s
	}
	undecided("nothing is known to be registered as %s", name)
	return nil, nil, nil
}

func (w *libWorld) registeredHandler(name string) *Term {
	h, _, _ := w.entry(name)
	if h.Op == "iface" {
		h = h.Args[0]
	}
	if h.Op != "func" && h.Op != "closure" {
		undecided("the handler of %s is %v", name, h)
	}
	return h
}

// registered: the names of the library lead to its functions.
func (w *libWorld) registered() {
	c := w.c
	for ns, typ := range map[string]string{"errors": "Errors", "time": "Time", "types": "Types", "slices": "Slices", "strconv": "Strconv", "math": "Math", "json": "JSON", "strings": "Strings", "maps": "Maps"} {
		ns, T := ns, c.P.typ("functions", typ)
		c.Check("name", ns, "", func() {
			h, m, s := w.entry(ns)
			if h.Op != "iface" || !types.Identical(h.Typ, T) && !types.Identical(h.Typ, types.NewPointer(T)) {
				c.Fail("the functions of %s are those of %v", ns, h)
				return
			}
			nsT := types.NewPointer(c.P.typ("functions", "FunctionNamespaceMetadata"))
			if m.Op != "iface" || !types.Identical(m.Typ, nsT) {
				c.Fail("%s is not a namespace but %v", ns, m)
				return
			}
			for _, o := range w.run(c.P.fn("functions", "FunctionNamespaceMetadata.Type"), m.Args[0], s) {
				if r := rtOf(o.R(0)); o.Panic != nil || r == nil || !types.Identical(r, h.Typ) {
					c.Fail("the functions of %s are looked up in %v", ns, o.R(0))
				}
			}
		})
	}
	for name, kind := range map[string]int64{"HasKey": 21, "IndexBy": 23} {
		name, kind := name, kind
		c.Check("name", name, "", func() {
			h := w.registeredHandler(name)
			_, m, s := w.entry(name)
			kT := types.NewPointer(c.P.typ("functions", "FunctionKindMetadata"))
			if m.Op != "iface" || !types.Identical(m.Typ, kT) {
				c.Fail("%s is not a function of a kind but %v", name, m)
				return
			}
			for _, o := range w.run(c.P.fn("functions", "FunctionKindMetadata.Kinds"), m.Args[0], s) {
				k := types.Typ[types.Uint]
				if o.Panic != nil || !sameLen(o.St, o.R(0), 1) {
					c.Fail("the kinds of %s are %v", name, o.R(0))
				} else if got := o.St.value(w.e.elemAt(o.St, o.R(0), 0, k)); got != tInt(kind) {
					if v, ok := got.intVal(); !ok || v != kind {
						c.Fail("%s is a function of values of kind %v", name, got)
					}
				}
			}
			_ = h
		})
	}
}

// evErr2 is the error among the two results of a call.
func evErr2(ev *Event) *Term { return extractOf2(ev.Result, 1) }

// indexBy: every element is stored under the normalized value of its field.
func (w *libWorld) indexBy() {
	c := w.c
	b := types.Typ
	st := types.NewStruct([]*types.Var{types.NewField(0, nil, "ID", b[types.Int], false), types.NewField(0, nil, "Name", b[types.String], false)}, nil)
	field := symT("field", b[types.String])
	anyT := types.NewInterfaceType(nil, nil)
	h := w.registeredHandler("IndexBy")
	for depth := 0; depth <= 2; depth++ {
		depth := depth
		var T types.Type = st
		for i := 0; i < depth; i++ {
			T = types.NewPointer(T)
		}
		name := strings.Repeat("*", depth) + "struct"
		c.Check("index-by", name, c.P.fnPos(h.Fn), func() {
			ST := types.NewSlice(T)
			x := symT("slice", ST)
			named, tagged, unknown := 0, 0, 0
			for _, o := range w.e.Apply(newState(), h, []*Term{anyOf(ST, x), field}) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "IndexBy panics")
					continue
				}
				if nn, k := isNonNilErr(o.St, o.R(1)); k && nn {
					unknown++
					// only an unknown field is an error
					if f := namedField(o.St.events); f != nil && !setNil(o.St.clone(), f, true) {
						c.FailAt(c.P.pos(o.Pos), "a field of the elements is refused")
					}
					for _, ev := range o.St.events {
						if ev.Kind == "dyn" && ev.Result != nil {
							if v, k := o.St.eval(ev.Result); k && v {
								c.FailAt(c.P.pos(ev.Pos), "a field with the name in its tag is refused")
							}
						}
					}
					continue
				}
				m := o.R(0)
				if !isCall(m, "(reflect.Value).Interface") || !isCall(m.Args[0], "reflect.MakeMap") {
					c.FailAt(c.P.pos(o.Pos), "the result is %v, not a map", m)
					continue
				}
				m = m.Args[0]
				if mt := m.Args[0]; !isCall(mt, "reflect.MapOf") || rtOf(mt.Args[0]) == nil || !types.Identical(rtOf(mt.Args[0]), anyT) || rtOf(mt.Args[1]) == nil || !types.Identical(rtOf(mt.Args[1]), T) {
					c.FailAt(c.P.pos(o.Pos), "the map made is of type %v", mt)
				}
				loops := 0
				for _, ev := range o.St.events {
					if evName(ev) == "(reflect.Value).SetMapIndex" {
						c.FailAt(c.P.pos(ev.Pos), "an entry is set outside of the loop over the elements")
					}
					if ev.Kind != "loop" || !loopHas(ev.Loop, "(reflect.Value).SetMapIndex") {
						continue
					}
					loops++
					for _, it := range ev.Loop.Iters {
						if !it.Back {
							if loopHasEvents(it.Events, "(reflect.Value).SetMapIndex") {
								c.FailAt(c.P.pos(ev.Pos), "the loop over the elements is left early")
							}
							past := false
							for _, f := range it.St.facts {
								past = past || w.pastEnd(it.St, f, ev.Loop.It, x)
							}
							if !past {
								c.FailAt(c.P.pos(ev.Pos), "the loop over the elements is left before the last [%s]", it.St.factStrings(0))
							}
							continue
						}
						w.indexIter(ev, it, m, T, st, depth, field, &named, &tagged)
					}
				}
				if loops != 1 {
					c.FailAt(c.P.pos(o.Pos), "the elements are not all gone through")
				}
			}
			if named == 0 || tagged == 0 || unknown == 0 {
				c.Fail("fields found by name: %d paths, by tag: %d, unknown: %d", named, tagged, unknown)
			}
		})
	}
	c.Check("index-by", "other values", c.P.fnPos(h.Fn), func() {
		for _, D := range w.dynTypes() {
			if _, ok := D.(*types.Slice); ok {
				continue
			}
			for _, o := range w.e.Apply(newState(), h, []*Term{anyOf(D, symT("x", D)), field}) {
				w.expect(o, fmt.Sprintf("indexing a %v", D), nil, failing)
			}
		}
	})
}

func namedField(evs []*Event) *Term {
	for _, ev := range evs {
		if evName(ev) == xunsafePkg+".FieldByName" {
			return ev.Result
		}
	}
	return nil
}

func loopHas(l *LoopInfo, name string) bool {
	for _, it := range l.Iters {
		if loopHasEvents(it.Events, name) {
			return true
		}
	}
	return false
}

func loopHasEvents(evs []*Event, name string) bool { return len(namedCalls(evs, name)) > 0 }

func (w *libWorld) indexIter(loop *Event, it IterTrace, m *Term, T, st types.Type, depth int, field *Term, named, tagged *int) {
	c := w.c
	set := namedCalls(it.Events, "(reflect.Value).SetMapIndex")
	if len(set) != 1 {
		c.FailAt(c.P.pos(loop.Pos), "an element is stored %d times", len(set))
		return
	}
	ev := set[0]
	if ev.Args[0] != m {
		c.FailAt(c.P.pos(ev.Pos), "the element is stored in %v", ev.Args[0])
	}
	el := ev.Args[2]
	if !isCall(el, "reflect.ValueOf") || !isCall(el.Args[0], "(*"+xunsafePkg+".Slice).ValueAt") || el.Args[0].Args[2].Op != "it" {
		c.FailAt(c.P.pos(ev.Pos), "the value stored is %v, not the element", el)
		return
	}
	el = el.Args[0]
	idx := el.Args[2]
	if nx := it.Next[idx]; nx != tAdd(idx, tInt(1)) {
		c.FailAt(c.P.pos(ev.Pos), "the next element is that at %v", nx)
	}
	key := ev.Args[1]
	var norm *Term
	for _, n := range it.Events {
		if n.Callee == w.nrm {
			norm = n.Result
			// the field of the struct the element is or points to
			v := n.Args[0]
			if !isCall(v, "(*"+xunsafePkg+".Field).Value") {
				c.FailAt(c.P.pos(n.Pos), "the key is %v, not the value of the field", v)
				return
			}
			f, p := v.Args[0], v.Args[1]
			switch {
			case isCall(f, xunsafePkg+".FieldByName") && f.Args[1] == field && sameR(f.Args[0], st):
				if !setNil(it.St.clone(), f, true) {
					*named++
				} else {
					c.FailAt(c.P.pos(n.Pos), "a field that may not exist is read")
				}
			case isCall(f, xunsafePkg+".FieldByIndex") && sameR(f.Args[0], st):
				ok := false
				for _, e := range fieldTests(it.St) {
					if len(e.Args) == 3 && e.Args[2] == field && e.Args[1].contains(func(t *Term) bool { return t == f.Args[1] }) && e.Args[1].contains(func(t *Term) bool { return sameR(t, st) }) {
						ok = true
					}
				}
				if !ok {
					c.FailAt(c.P.pos(n.Pos), "the field %v is read that was not found by its tag", f)
				}
				*tagged++
			default:
				c.FailAt(c.P.pos(n.Pos), "the key is that of the field %v", f)
			}
			layers := 0
			want := st
			for {
				if isCall(p, xunsafePkg+".AsPointer") {
					p = p.Args[0]
					continue
				}
				if isCall(p, xunsafePkg+".asInterface") || isCall(p, "(*"+xunsafePkg+".Type).Deref") {
					tt, next := p.Args[0], p.Args[1]
					if isCall(p, xunsafePkg+".asInterface") {
						tt, next = next, tt
					}
					if !tt.contains(func(t *Term) bool { return sameR(t, want) }) {
						c.FailAt(c.P.pos(n.Pos), "the element is dereferenced to %v instead of %v", tt, want)
					}
					want = types.NewPointer(want)
					layers++
					p = next
					continue
				}
				break
			}
			if p != el || layers != depth {
				c.FailAt(c.P.pos(n.Pos), "the field of elements behind %d pointers is read at %v, %d pointers from the element", depth, v.Args[1], layers)
			}
		}
	}
	if norm == nil {
		c.FailAt(c.P.pos(ev.Pos), "the key %v is not normalized", key)
		return
	}
	isNil, known := it.St.eval(tEq(norm, tNil()))
	switch {
	case known && isNil && isCall(key, "reflect.Zero") && sameR(key.Args[0], types.NewInterfaceType(nil, nil)):
	case known && !isNil && isCall(key, "reflect.ValueOf") && key.Args[0] == norm:
	default:
		c.FailAt(c.P.pos(ev.Pos), "the element is stored under %v [nil: %v, known: %v]", key, isNil, known)
	}
}

func sameR(t *Term, T types.Type) bool {
	r := rtOf(t)
	return r != nil && types.Identical(r, T)
}

// fieldTests are the tests of fields that succeeded on the path.
func fieldTests(s *State) []*Term {
	var r []*Term
	for _, ev := range s.events {
		if ev.Kind == "dyn" && ev.Result != nil {
			if v, k := s.eval(ev.Result); k && v {
				r = append(r, ev.Result)
			}
		}
	}
	return r
}

// pastEnd: the fact says that the iteration is not below the length of the slice.
func (w *libWorld) pastEnd(s *State, f, it, slice *Term) bool {
	found := false
	f.contains(func(t *Term) bool {
		if t != it && t.Typ != nil && isInteger(t.Typ) && t.Op != "lin" && t.contains(func(u *Term) bool { return u == slice }) {
			// it < len is refuted, it < len+1 is not
			if v, k := s.eval(tLt0(tSub(it, t))); k && !v {
				found = true
			}
		}
		return false
	})
	return found
}
