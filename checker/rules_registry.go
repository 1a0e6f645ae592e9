package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C28", Level: "other", MinObs: 300,
		Explanation: "The registry of functions is interpreted from its constructor on, for every history of two (thorough: three) registrations and look-ups of functions, standalone functions, namespaces, functions of types and functions of kinds under two names, with two types of the same name: after each, every look-up must answer with the handler a reference registry holds, or with an error, and each registration must fail exactly when the reference refuses it.",
		Assumptions: []string{"reflect describes types and methods as documented", "names other than the two behave like them"},
		Run:         runC28})
}

// regOp is a registration, or a look-up that precedes others.
type regOp struct {
	text string
	run  func(s *State) (*ssa.Function, []*Term) // arguments without the receiver
	ref  func(m *refReg) bool                    // applies it, false if it is refused
}

// refReg is the reference registry.
type refReg struct {
	global, alone, ns map[string]*Term
	byType            map[int]map[string]*Term
	byKind            map[string]map[string]*Term
}

func newRefReg() *refReg {
	return &refReg{map[string]*Term{}, map[string]*Term{}, map[string]*Term{}, map[int]map[string]*Term{0: {}, 1: {}}, map[string]map[string]*Term{"map": {}, "list": {}}}
}

type regWorld struct {
	c                                        *Ctx
	e                                        *Eng
	types                                    []types.Type // two types of the same name
	iface                                    types.Type
	mapT, listT                              types.Type
	regFn, regAlone, regNs, regType, regKind *ssa.Function
	method, nsSel, isNs, empty, discover     *ssa.Function
	detect, kindTyper                        *ssa.Function
	sig                                      *types.Signature
	rtypeT, anyT                             types.Type
	ops                                      []regOp
}

func (w *regWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	if ev.Callee == w.discover {
		return mk("tuple", "", nil, tNil(), tNil(), tBool(false)), true
	}
	if ev.Kind == "invoke" && evName(ev) == "invoke reflect.Type.MethodByName" {
		T := rtOf(ev.Args[0])
		n, ok := ev.Args[1].strVal()
		if T == nil || !ok {
			return nil, false
		}
		found := types.NewMethodSet(T).Lookup(nil, n) != nil
		return mk("tuple", "", nil, mk("call", "rtype.MethodByName", w.c.P.typOf("reflect", "Method"), ev.Args...), tBool(found)), true
	}
	return nil, false
}

func runC28(c *Ctx) {
	c.callPaths()
	fn := func(n string) *ssa.Function { return c.P.fn("est/op", n) }
	w := &regWorld{c: c, regFn: fn("Functions.RegisterFunction"), regAlone: fn("Functions.RegisterStandaloneFunction"), regNs: fn("Functions.RegisterFuncNs"),
		regType: fn("Functions.RegisterTypeFunc"), regKind: fn("Functions.RegisterFunctionKind"), method: fn("Functions.Method"), nsSel: fn("Functions.FuncSelector"),
		isNs: fn("Functions.IsFuncNs"), empty: fn("EmptyFunctions"), discover: fn("Functions.discover"), detect: fn("Functions.TryDetectResultType"), kindTyper: c.P.fn("functions", "indexSliceByFunc.ResultType")}
	w.e = c.E.with(Opts{Opaque: opaqueSet(w.discover, w.kindTyper, c.P.fn("functions", "JSON.MethodResultType")), Model: w.model, MaxUnroll: 8})
	w.anyT = types.NewInterfaceType(nil, nil)
	w.rtypeT = c.P.typeOfField("est/op", "Operand", "Type")
	intT := types.Typ[types.Int]
	w.sig = types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(token.NoPos, nil, "", types.Typ[types.Int16])), types.NewTuple(types.NewParam(token.NoPos, nil, "", intT)), false)
	for _, p := range []string{"one/shop", "other/shop"} {
		pkg := types.NewPackage(p, "shop")
		n := types.NewNamed(types.NewTypeName(token.NoPos, pkg, "Item", nil), types.NewStruct(nil, nil), nil)
		recv := types.NewParam(token.NoPos, pkg, "", n)
		n.AddMethod(types.NewFunc(token.NoPos, pkg, "M", types.NewSignatureType(recv, nil, nil, nil, types.NewTuple(types.NewParam(token.NoPos, pkg, "", intT)), false)))
		w.types = append(w.types, n)
	}
	w.iface = c.P.typOf("fmt", "Stringer")
	w.mapT, w.listT = types.NewMap(types.Typ[types.String], intT), types.NewSlice(intT)
	w.makeOps()
	var chain func(ops []regOp, depth int)
	depth := 2
	if c.thorough() {
		depth = 3
	}
	chain = func(ops []regOp, left int) {
		if len(ops) > 0 {
			var n []string
			for _, o := range ops {
				n = append(n, o.text)
			}
			c.Check("history", strings.Join(n, ", then "), c.P.fnPos(w.method), func() { w.history(ops) })
		}
		if left == 0 {
			return
		}
		for _, o := range w.ops {
			chain(append(append([]regOp(nil), ops...), o), left-1)
		}
	}
	w.signatures()
	c.Check("signature", "function of a kind with a result type", c.P.fnPos(w.method), func() {
		for _, o := range w.empties() {
			w.signature(o.St, o.R(0), "function of a kind with a result type", nil, nil, true)
		}
	})
	c.Check("signature", "function of a kind with a result type beside a function", c.P.fnPos(w.method), func() {
		n := 0
		for _, o := range w.empties() {
			for _, o1 := range w.e.Call(o.St, w.regFn, []*Term{o.R(0), tStr("a"), w.handler("beside")}, nil) {
				if nn, known := isNonNilErr(o1.St, o1.R(0)); o1.Panic == nil && known && !nn {
					n++
					w.signature(o1.St, o.R(0), "function of a kind with a result type", nil, nil, true)
				}
			}
		}
		if n == 0 {
			undecided("no function is registered")
		}
	})
	w.typers()
	c.Check("history", "nothing registered", c.P.fnPos(w.method), func() { w.history(nil) })
	chain(nil, depth)
}

// empties are the registries a history starts with.
func (w *regWorld) empties() []Outcome {
	var out []Outcome
	for _, o := range w.e.Call(newState(), w.empty, nil, nil) {
		if o.Panic != nil {
			w.c.FailAt(w.c.P.pos(o.Pos), "creating the registry panics")
			continue
		}
		out = append(out, o)
	}
	if len(out) == 0 {
		undecided("creating the registry has no outcome")
	}
	return out
}

// signatures checks which functions are accepted, and the type of their call.
func (w *regWorld) signatures() {
	c := w.c
	errT := types.Universe.Lookup("error").Type()
	intT, str := types.Typ[types.Int], types.Typ[types.String]
	for _, sg := range []struct {
		results []types.Type
		ok      bool
	}{{nil, false}, {[]types.Type{intT}, true}, {[]types.Type{str, errT}, true}, {[]types.Type{w.anyT, errT}, true}, {[]types.Type{intT, str}, false},
		{[]types.Type{intT, errT, str}, false}, {[]types.Type{intT, errT, errT}, false}} {
		var vars []*types.Var
		var text []string
		for _, T := range sg.results {
			vars = append(vars, types.NewParam(token.NoPos, nil, "", T))
			text = append(text, T.String())
		}
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(token.NoPos, nil, "", types.Typ[types.Int16])), types.NewTuple(vars...), false)
		h := mk("iface", "", sig, symT("handler", sig))
		for _, route := range []string{"function", "standalone function", "function of a type", "function of a type with a result type", "function of a kind"} {
			route := route
			sg := sg
			if route == "function of a kind" && len(sg.results) > 0 && sg.results[0] == w.anyT {
				sg.ok = false // nothing tells the type of the call
			}
			c.Check("signature", fmt.Sprintf("%s with results (%s)", route, strings.Join(text, ", ")), c.P.fnPos(w.method), func() {
				w.e.steps = 0
				for _, o := range w.empties() {
					w.signature(o.St, o.R(0), route, h, sg.results, sg.ok)
				}
			})
		}
	}
}

// typerFailed tells whether the typer of a function of a kind reported an error.
func (w *regWorld) typerFailed(s *State) bool {
	for _, ev := range s.events {
		if ev.Callee == w.kindTyper && ev.Result != nil && len(ev.Result.Args) == 2 && !isNilTerm(s, ev.Result.Args[1]) {
			return true
		}
	}
	return false
}

func (w *regWorld) signature(s *State, fs *Term, route string, h *Term, results []types.Type, ok bool) {
	c := w.c
	var recv *Term = tNil()
	var f *ssa.Function
	var args []*Term
	special := types.Typ[types.Uint32]
	var want func(s *State, T *Term) bool
	if len(results) > 0 {
		want = func(s *State, T *Term) bool { return sameR(s.value(T), results[0]) }
	}
	switch route {
	case "function":
		f, args = w.regFn, []*Term{tStr("a"), h}
	case "standalone function":
		o := symPtr("fn", types.NewPointer(c.P.typ("est/op", "Function")), s)
		s.heap[fieldAddr(o, "Handler")] = h
		s.heap[fieldAddr(o, "ResultTyper")] = tNil()
		f, args = w.regAlone, []*Term{tStr("a"), o}
	case "function of a type", "function of a type with a result type":
		o := symPtr("fn", types.NewPointer(c.P.typ("est/op", "TypeFunc")), s)
		s.heap[fieldAddr(o, "Name")] = tStr("a")
		s.heap[fieldAddr(o, "Handler")] = h
		s.heap[fieldAddr(o, "ResultType")] = tNil()
		if route != "function of a type" {
			s.heap[fieldAddr(o, "ResultType")] = rtype(special)
			want = func(s *State, T *Term) bool { return sameR(s.value(T), special) }
		}
		recv = rtype(w.types[0])
		f, args = w.regType, []*Term{recv, o}
	case "function of a kind":
		T := c.P.typ("functions", "StaticKindFunc")
		o := symPtr("fn", types.NewPointer(T), s)
		recv = rtype(w.listT)
		s.heap[fieldAddr(o, "kind")] = s.value(w.e.KindT(recv))
		s.heap[fieldAddr(o, "handler")] = h
		f, args = w.regKind, []*Term{tStr("a"), mk("iface", "", types.NewPointer(T), o)}
	case "function of a kind with a result type":
		T := types.NewPointer(c.P.typ("functions", "indexSliceByFunc"))
		recv = rtype(w.listT)
		f, args = w.regKind, []*Term{tStr("a"), mk("iface", "", T, symPtr("fn", T, s))}
		want = func(s *State, T *Term) bool {
			for _, ev := range s.events {
				if ev.Callee == w.kindTyper && ev.Result != nil && len(ev.Result.Args) == 2 {
					if R := ev.Result.Args[0]; ev.Args[1] == recv && (s.value(T) == s.value(R) || isNilTerm(s, R) && T.Op == "rtype") {
						return true
					}
				}
			}
			return false
		}
	}
	n := 0
	for _, o := range w.e.Call(s, f, append([]*Term{fs}, args...), nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "the registration panics")
			continue
		}
		refused, known := isNonNilErr(o.St, o.R(len(o.Results)-1))
		if !known {
			undecided("whether the registration succeeds")
		}
		if refused {
			n++
			if ok {
				c.FailAt(c.P.fnPos(f), "the function is refused")
			}
			continue
		}
		for _, l := range w.e.Call(o.St, w.method, []*Term{fs, recv, tStr("a"), symT("call", types.NewPointer(c.P.typ("ast/expr", "Call")))}, nil) {
			n++
			if l.Panic != nil {
				c.FailAt(c.P.pos(l.Pos), "the look-up panics")
				continue
			}
			isErr, known := isNonNilErr(l.St, l.R(1))
			if !known {
				undecided("whether the function is found")
			}
			if isErr {
				if ok && !w.typerFailed(l.St) {
					c.FailAt(c.P.fnPos(w.method), "the function is not found")
				}
				continue
			}
			if w.typerFailed(l.St) {
				c.FailAt(c.P.fnPos(w.method), "a function is found although its result type failed")
				continue
			}
			if !ok {
				c.FailAt(c.P.fnPos(f), "a function of these results can be called")
				continue
			}
			if T := w.e.load(l.St, fieldAddr(l.R(0), "ResultType"), w.rtypeT); !want(l.St, T) {
				c.FailAt(c.P.fnPos(w.method), "the type of the call is %v", T)
			}
		}
	}
	if n == 0 {
		undecided("the registration has no outcome")
	}
}

// typers checks the type that is asked from the registration of a function without a type of its own.
func (w *regWorld) typers() {
	c := w.c
	call := symT("call", types.NewPointer(c.P.typ("ast/expr", "Call")))
	h := w.handler("h")
	for _, x := range []string{"standalone function with a typer", "standalone function without a typer", "unknown function", "function", "namespace with a typer", "namespace without a typer", "variable"} {
		x := x
		c.Check("result type", x, c.P.fnPos(w.detect), func() {
			w.e.steps = 0
			for _, e := range w.empties() {
				s, fs := e.St, e.R(0)
				reg := func(f *ssa.Function, args ...*Term) {
					for _, o := range w.e.Call(s, f, append([]*Term{fs}, args...), nil) {
						if ok, known := isNonNilErr(o.St, o.R(0)); known && !ok {
							s = o.St
							return
						}
					}
					undecided("the registration fails")
				}
				prev := tNil()
				selector := func(id string) {
					prev = symPtr("receiver", types.NewPointer(c.P.typ("est/op", "Selector")), s)
					s.heap[fieldAddr(prev, "ID")] = tStr(id)
				}
				typer := tNil()
				if strings.HasPrefix(x, "standalone") {
					o := symPtr("fn", types.NewPointer(c.P.typ("est/op", "Function")), s)
					T := c.P.typeOfField("est/op", "Function", "ResultTyper")
					typer = symT("typer", T)
					s.heap[fieldAddr(o, "Handler")] = h
					s.heap[fieldAddr(o, "ResultTyper")] = tNil()
					if strings.HasSuffix(x, "with a typer") {
						s.assume(tNot(tEq(typer, tNil())), true)
						s.heap[fieldAddr(o, "ResultTyper")] = typer
					}
					reg(w.regAlone, tStr("a"), o)
				}
				var ns *Term
				switch x {
				case "function":
					reg(w.regFn, tStr("a"), h)
				case "namespace with a typer":
					T := types.NewPointer(c.P.typ("functions", "JSON"))
					ns = symPtr("ns", T, s)
					reg(w.regNs, tStr("n"), mk("iface", "", T, ns))
					selector("n")
				case "namespace without a typer":
					T := c.P.typ("functions", "Math")
					reg(w.regNs, tStr("n"), mk("iface", "", T, symT("ns", T)))
					selector("n")
				case "variable":
					T := types.NewPointer(c.P.typ("functions", "JSON"))
					reg(w.regNs, tStr("n"), mk("iface", "", T, symPtr("ns", T, s)))
					selector("m")
				}
				n := 0
				for _, o := range w.e.Call(s, w.detect, []*Term{fs, prev, tStr("a"), call}, nil) {
					n++
					if o.Panic != nil {
						c.FailAt(c.P.pos(o.Pos), "asking for the type panics")
						continue
					}
					var asked []*Event
					for i := range o.St.events {
						ev := o.St.events[i]
						if ev.Kind == "dyn" || ev.Kind == "invoke" || ev.Kind == "call" && ev.Callee != nil && ev.Callee.Name() == "MethodResultType" {
							asked = append(asked, ev)
						}
					}
					if !strings.HasSuffix(x, "with a typer") {
						if len(asked) != 0 || !isNilTerm(o.St, o.R(0)) || !isNilTerm(o.St, o.R(1)) {
							c.FailAt(c.P.fnPos(w.detect), "a type is told without a typer: %v, %v", o.R(0), o.R(1))
						}
						continue
					}
					if len(asked) != 1 || asked[0].Result == nil {
						c.FailAt(c.P.fnPos(w.detect), "the typer is called %d times", len(asked))
						continue
					}
					ev := asked[0]
					if ns == nil {
						if last := ev.Args[len(ev.Args)-1]; last != call {
							c.FailAt(c.P.pos(ev.Pos), "the typer is asked for %v", last)
						}
					} else if ev.Args[0] != ns && !mentions(ev.Args[0], ns) || ev.Args[len(ev.Args)-2] != tStr("a") || ev.Args[len(ev.Args)-1] != call {
						c.FailAt(c.P.pos(ev.Pos), "the typer is asked for %v", ev.Args)
					}
					for i := 0; i < 2; i++ {
						if len(ev.Result.Args) != 2 || o.St.value(o.R(i)) != o.St.value(ev.Result.Args[i]) {
							c.FailAt(c.P.fnPos(w.detect), "the answer of the typer is turned into %v", o.R(i))
						}
					}
				}
				if n == 0 {
					undecided("asking has no outcome")
				}
			}
		})
	}
}

func (w *regWorld) handler(name string) *Term {
	return mk("iface", "", w.sig, symT("handler "+name, w.sig))
}

func (w *regWorld) makeOps() {
	c := w.c
	n := 0
	next := func() *Term {
		n++
		return w.handler(fmt.Sprint(n))
	}
	add := func(text string, run func(s *State) (*ssa.Function, []*Term), ref func(m *refReg) bool) {
		w.ops = append(w.ops, regOp{text, run, ref})
	}
	for _, name := range []string{"a", "a", "b"} {
		name, h := name, next()
		add(fmt.Sprintf("function %s %s", name, h.Args[0].Aux), func(s *State) (*ssa.Function, []*Term) { return w.regFn, []*Term{tStr(name), h} },
			func(m *refReg) bool { m.global[name] = h; return true })
	}
	bad := mk("iface", "", types.Typ[types.Int], tInt(1))
	add("function a that is none", func(s *State) (*ssa.Function, []*Term) { return w.regFn, []*Term{tStr("a"), bad} },
		func(m *refReg) bool { return false })
	for _, name := range []string{"a", "a", "b"} {
		name, h := name, next()
		add(fmt.Sprintf("standalone function %s %s", name, h.Args[0].Aux), func(s *State) (*ssa.Function, []*Term) {
			f := symPtr("fn "+h.Args[0].Aux, types.NewPointer(c.P.typ("est/op", "Function")), s)
			s.heap[fieldAddr(f, "Handler")] = h
			s.heap[fieldAddr(f, "ResultTyper")] = tNil()
			return w.regAlone, []*Term{tStr(name), f}
		}, func(m *refReg) bool {
			if m.alone[name] != nil {
				return false
			}
			m.alone[name] = h
			return true
		})
	}
	for _, name := range []string{"a", "a", "b"} {
		name, h := name, next()
		add(fmt.Sprintf("namespace %s %s", name, h.Args[0].Aux), func(s *State) (*ssa.Function, []*Term) { return w.regNs, []*Term{tStr(name), h} },
			func(m *refReg) bool {
				if m.ns[name] != nil {
					return false
				}
				m.ns[name] = h
				return true
			})
	}
	for _, x := range []struct {
		t    int
		name string
		many bool // of any number of arguments
	}{{0, "a", false}, {0, "a", true}, {0, "b", false}, {1, "a", false}} {
		x, h := x, next()
		if x.many {
			p := types.NewTuple(types.NewParam(token.NoPos, nil, "", types.NewSlice(types.Typ[types.Int16])))
			sig := types.NewSignatureType(nil, nil, nil, p, w.sig.Results(), true)
			h = mk("iface", "", sig, symT(h.Args[0].Aux, sig))
		}
		add(fmt.Sprintf("function %s of type %d %s", x.name, x.t, h.Args[0].Aux), func(s *State) (*ssa.Function, []*Term) {
			f := symPtr("type fn "+h.Args[0].Aux, types.NewPointer(c.P.typ("est/op", "TypeFunc")), s)
			s.heap[fieldAddr(f, "Name")] = tStr(x.name)
			s.heap[fieldAddr(f, "Handler")] = h
			s.heap[fieldAddr(f, "ResultType")] = rtype(types.Typ[types.Int])
			return w.regType, []*Term{rtype(w.types[x.t]), f}
		}, func(m *refReg) bool {
			if m.byType[x.t][x.name] != nil {
				return false
			}
			m.byType[x.t][x.name] = h
			return true
		})
	}
	for _, x := range []struct{ kind, name string }{{"map", "a"}, {"map", "a"}, {"map", "b"}, {"list", "a"}} {
		x, h := x, next()
		add(fmt.Sprintf("function %s of every %s %s", x.name, x.kind, h.Args[0].Aux), func(s *State) (*ssa.Function, []*Term) {
			T := c.P.typ("functions", "StaticKindFunc")
			f := symPtr("kind fn "+h.Args[0].Aux, types.NewPointer(T), s)
			k := rtype(w.mapT)
			if x.kind == "list" {
				k = rtype(w.listT)
			}
			s.heap[fieldAddr(f, "kind")] = s.value(w.e.KindT(k))
			s.heap[fieldAddr(f, "handler")] = h
			return w.regKind, []*Term{tStr(x.name), mk("iface", "", types.NewPointer(T), f)}
		}, func(m *refReg) bool { m.byKind[x.kind][x.name] = h; return true })
	}
	for _, x := range []struct {
		T    types.Type
		name string
		text string
	}{{w.types[0], "M", "own method of type 0"}, {w.types[1], "M", "own method of type 1"}, {w.types[0], "a", "function a of type 0"}, {w.types[1], "b", "function b of type 1"}} {
		x := x
		add("look-up of the "+x.text, func(s *State) (*ssa.Function, []*Term) {
			return w.method, []*Term{rtype(x.T), tStr(x.name), tNil()}
		}, nil)
	}
}

// history runs the operations and compares all look-ups.
func (w *regWorld) history(ops []regOp) {
	c := w.c
	w.e.steps = 0 // the budget is that of one history
	type run struct {
		s   *State
		fs  *Term
		ref *refReg
	}
	var runs []run
	for _, o := range w.e.Call(newState(), w.empty, nil, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "creating the registry panics")
			continue
		}
		runs = append(runs, run{o.St, o.R(0), newRefReg()})
	}
	for _, op := range ops {
		var next []run
		for _, r := range runs {
			s := r.s.clone()
			f, args := op.run(s)
			ok := true
			m := r.ref.copy()
			if op.ref != nil {
				ok = op.ref(m)
			}
			for _, o := range w.e.Call(s, f, append([]*Term{r.fs}, args...), nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "%s panics", op.text)
					continue
				}
				if op.ref != nil {
					isErr, known := isNonNilErr(o.St, o.R(len(o.Results)-1))
					if !known {
						undecided("whether %s succeeds", op.text)
					}
					if isErr == ok {
						c.FailAt(c.P.fnPos(f), "%s is %s", op.text, map[bool]string{true: "refused", false: "not refused"}[ok])
					}
				}
				next = append(next, run{o.St, r.fs, m})
			}
		}
		runs = next
	}
	if len(runs) == 0 {
		undecided("the history has no outcome")
	}
	found := map[string]bool{}
	for _, r := range runs {
		for _, name := range []string{"a", "b"} {
			want := r.ref.global[name]
			if want == nil {
				want = r.ref.alone[name]
			}
			w.expect(r.s, r.fs, tNil(), name, want, "the function "+name)
			for i, T := range w.types {
				want := r.ref.global[name]
				if want == nil {
					want = r.ref.byType[i][name]
				}
				w.expect(r.s, r.fs, rtype(T), name, want, fmt.Sprintf("the function %s of type %d", name, i))
			}
			for k, T := range map[string]types.Type{"map": w.mapT, "list": w.listT} {
				want := r.ref.byKind[k][name]
				if want == nil {
					want = r.ref.global[name]
				}
				w.expect(r.s, r.fs, rtype(T), name, want, fmt.Sprintf("the function %s of a %s", name, k))
			}
			w.expectNs(r.s, r.fs, name, r.ref.ns[name])
		}
		for i, T := range w.types {
			w.expectMethod(r.s, r.fs, T, "M", fmt.Sprintf("the own method of type %d", i), found)
		}
		w.expectMethod(r.s, r.fs, w.iface, "String", "the method of an interface", found)
	}
	for _, what := range []string{"the own method of type 0", "the own method of type 1", "the method of an interface"} {
		if !found[what] {
			c.FailAt(c.P.fnPos(w.method), "%s is never found", what)
		}
	}
}

func (m *refReg) copy() *refReg {
	cp := func(x map[string]*Term) map[string]*Term {
		r := map[string]*Term{}
		for k, v := range x {
			r[k] = v
		}
		return r
	}
	n := &refReg{cp(m.global), cp(m.alone), cp(m.ns), map[int]map[string]*Term{}, map[string]map[string]*Term{}}
	for k, v := range m.byType {
		n.byType[k] = cp(v)
	}
	for k, v := range m.byKind {
		n.byKind[k] = cp(v)
	}
	return n
}

// madeFrom tells whether a function calls what is described by the test.
func (w *regWorld) madeFrom(s *State, fn *Term, is func(t *Term) bool) bool {
	caller := s.value(w.e.load(s, fieldAddr(fn, "caller"), w.c.P.typeOfField("est/op", "Func", "caller")))
	var find func(t *Term) bool
	find = func(t *Term) bool {
		if t == nil {
			return false
		}
		if is(t) {
			return true
		}
		for _, a := range t.Args {
			if find(a) {
				return true
			}
		}
		return false
	}
	return find(caller)
}

func (w *regWorld) expect(s *State, fs, T *Term, name string, want *Term, what string) {
	c := w.c
	n := 0
	for _, o := range w.e.Call(s.clone(), w.method, []*Term{fs, T, tStr(name), tNil()}, nil) {
		n++
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "the look-up of %s panics", what)
			continue
		}
		isErr, known := isNonNilErr(o.St, o.R(1))
		if !known {
			undecided("whether %s is found", what)
		}
		switch {
		case isErr && want != nil:
			c.FailAt(c.P.fnPos(w.method), "%s is not found", what)
		case !isErr && want == nil:
			c.FailAt(c.P.fnPos(w.method), "%s is found although none is registered", what)
		case !isErr && !w.madeFrom(o.St, o.R(0), func(t *Term) bool { return t == want }):
			c.FailAt(c.P.fnPos(w.method), "%s is another one than the %s", what, want.Args[0].Aux)
		}
	}
	if n == 0 {
		undecided("the look-up of %s has no outcome", what)
	}
}

func (w *regWorld) expectMethod(s *State, fs *Term, T types.Type, name, what string, found map[string]bool) {
	c := w.c
	for _, o := range w.e.Call(s.clone(), w.method, []*Term{fs, rtype(T), tStr(name), tNil()}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "the look-up of %s panics", what)
			continue
		}
		isErr, known := isNonNilErr(o.St, o.R(1))
		if known && isErr {
			continue // its signature does not fit
		}
		found[what] = true
		if !w.madeFrom(o.St, o.R(0), func(t *Term) bool {
			return isCall(t, "rtype.MethodByName") && sameR(t.Args[0], T) && t.Args[1] == tStr(name)
		}) {
			c.FailAt(c.P.fnPos(w.method), "%s is another function", what)
		}
	}
}

func (w *regWorld) expectNs(s *State, fs *Term, name string, want *Term) {
	c := w.c
	for _, o := range w.e.Call(s.clone(), w.isNs, []*Term{fs, tStr(name)}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "the look-up of a namespace panics")
			continue
		}
		if v, k := o.St.eval(o.R(0)); !k || v != (want != nil) {
			c.FailAt(c.P.fnPos(w.isNs), "whether %s is a namespace is %v", name, o.R(0))
		}
	}
	for _, o := range w.e.Call(s.clone(), w.nsSel, []*Term{fs, tStr(name), tNil()}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "the look-up of a namespace panics")
			continue
		}
		v, k := o.St.eval(o.R(1))
		if !k || v != (want != nil) {
			c.FailAt(c.P.fnPos(w.nsSel), "whether %s is a namespace is %v", name, o.R(1))
			continue
		}
		if !v {
			continue
		}
		lit := o.St.value(w.e.load(o.St, fieldAddr(o.R(0), "Literal"), uptr()))
		T := w.e.load(o.St, fieldAddr(o.R(0), "Type"), w.rtypeT)
		if !mentions(lit, want) && !mentions(lit, want.Args[0]) || !sameR(T, want.Typ) {
			c.FailAt(c.P.fnPos(w.nsSel), "the namespace %s is %v of type %v", name, lit, T)
		}
	}
}
