package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Property{ID: "C20", Level: "other", MinObs: 5,
		Explanation: "The evaluation of a dynamic template is analysed for an arbitrary text, with the parser, the compiler and the cache opaque: on every path the template compiled from exactly that text runs once, on a fresh state holding the value of every variable of the scope and writing to the same output, its errors are recorded after the earlier ones, and a text that does not parse or compile is recorded as an error without running anything.",
		Assumptions: []string{"compiling and parsing are decided by the other properties", "the cache returns what was stored under its key (C17)"},
		Run:         runC20})
}

func runC20(c *Ctx) {
	f := c.P.fn("", "evaluate")
	c.Check("dynamic-template", "type", c.P.fnPos(f), func() {
		for _, T := range c.varKinds() {
			if isString(T) {
				continue
			}
			w := c.newEvalWorld()
			s := w.s.clone()
			s.heap[fieldAddr(w.expr, "Type")] = rtype(T)
			for _, o := range w.e.Call(s, f, []*Term{w.expr, w.cache, w.parent}, nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "a dynamic template of type %s panics", typeName(T))
					continue
				}
				if nn, k := isNonNilErr(o.St, o.R(1)); k && nn || T.Underlying() == types.Typ[types.String] {
					continue
				}
				c.FailAt(c.P.pos(o.Pos), "a dynamic template of type %s compiles", typeName(T))
			}
		}
		w := c.newEvalWorld()
		s := w.s.clone()
		s.heap[fieldAddr(w.expr, "Type")] = tNil()
		for _, o := range w.e.Call(s, f, []*Term{w.expr, w.cache, w.parent}, nil) {
			if nn, k := isNonNilErr(o.St, o.R(1)); o.Panic != nil || !k || !nn {
				c.FailAt(c.P.pos(o.Pos), "an undefined dynamic template compiles")
			}
		}
	})
	c.Check("dynamic-template", "compiled statement", c.P.fnPos(f), func() {
		c.evaluateCall(func(o Outcome, x, planner, cache *Term, args []*Term) {
			if args[0] != x {
				c.FailAt(c.P.pos(o.Pos), "the evaluated expression is %s", args[0])
			}
			if args[2] != planner {
				c.FailAt(c.P.pos(o.Pos), "a dynamic template is evaluated in the scope %s", args[2])
			}
		})
	})
	for _, kind := range []string{"cached", "compiled", "parse error", "compile error"} {
		kind := kind
		c.Check("dynamic-template", kind, c.P.fnPos(f), func() {
			w := c.newEvalWorld()
			n := 0
			for _, r := range w.run() {
				if w.kindOf(r) != kind {
					continue
				}
				n++
				if r.o.Panic != nil {
					c.FailAt(c.P.pos(r.o.Pos), "evaluating a dynamic template can panic")
					continue
				}
				w.check(r, kind)
			}
			if n == 0 && c.cur.Status == "ok" {
				c.Fail("no path handles this case")
			}
		})
	}
}

// kindOf classifies an execution by what the opaque steps returned.
func (w *evalWorld) kindOf(r evalRun) string {
	if hit, k := r.st.eval(symT("cached", types.Typ[types.Bool])); k && hit {
		return "cached"
	}
	for _, ev := range r.st.events {
		if ev.Callee == w.parse {
			if nn, k := isNonNilErr(r.st, resN(ev, 1)); k && nn {
				return "parse error"
			}
		}
	}
	if nn, k := isNonNilErr(r.st, symT("compileErr", types.Universe.Lookup("error").Type())); k && nn {
		return "compile error"
	}
	return "compiled"
}

func (w *evalWorld) check(r evalRun, kind string) {
	c, st := w.c, r.st
	var runs, loops []*Event
	var provided, parsed, made, compiled, failed *Event
	reads := 0
	for _, ev := range st.events {
		at := c.P.pos(ev.Pos)
		switch {
		case ev.Callee == w.exec:
			reads++
			if ev.Args[0] != w.op || ev.Args[1] != w.state {
				c.FailAt(at, "the text is evaluated on %s", ev.Args[1])
			}
		case ev.Callee == w.exprF:
		case ev.Callee == w.putF:
			if kind != "compiled" {
				c.FailAt(at, "a template is stored on the path '%s'", kind)
			}
		case ev.Callee == w.parse:
			parsed = ev
			if x := ev.Args[0]; stripConv(x) != w.text {
				c.FailAt(at, "the parsed text is %s", x)
			}
		case ev.Callee == w.newF:
			made = ev
			if ev.Args[0] != w.parent {
				c.FailAt(at, "the scope is derived from %s", ev.Args[0])
			}
		case ev.Callee == w.computeF:
			compiled = ev
			if parsed == nil || ev.Args[1] != firstOf(parsed) || ev.Args[0] != w.child {
				c.FailAt(at, "the compiled template is %s in scope %s", ev.Args[1], ev.Args[0])
			}
		case ev.Callee == w.prov:
			want := w.child
			if kind == "cached" {
				want = w.entPlanner
			}
			if ev.Args[0] != want {
				c.FailAt(at, "the template runs on a state of another scope than the one it was compiled in: %s", ev.Args[0])
			}
		case ev.Callee == w.addEr:
			if failed != nil {
				c.FailAt(at, "one failure is recorded twice")
			}
			failed = ev
		case ev.Kind == "dyn" && strings.HasPrefix(ev.Args[0].Aux, "provider:"):
			if provided != nil {
				c.FailAt(at, "two states are made")
			}
			provided = ev
		case ev.Kind == "dyn" && (ev.Args[0] == w.compiled || ev.Args[0] == w.entComp):
			runs = append(runs, ev)
		case ev.Loop != nil:
			loops = append(loops, ev)
		case isBenign(ev):
		case ev.Callee == w.setF:
			c.FailAt(at, "a variable is set on its own")
		default:
			c.FailAt(at, "evaluating a dynamic template also performs %s", shortName(ev.Name))
		}
	}
	if reads != 1 {
		c.FailAt(w.at, "the text is evaluated %d times", reads)
		return
	}
	if kind == "parse error" || kind == "compile error" {
		errv := symT("compileErr", types.Universe.Lookup("error").Type())
		if kind == "parse error" {
			errv = resN(parsed, 1)
		}
		if len(runs) > 0 {
			c.FailAt(w.at, "a template that has a %s runs", kind)
		}
		if failed == nil {
			c.FailAt(w.at, "a %s is not recorded", kind)
		} else if failed.Args[0] != w.state || !c.wraps(st, failed.Args[1], errv) {
			c.FailAt(c.P.pos(failed.Pos), "a %s is recorded as %s", kind, failed.Args[1])
		}
		if r.o.R(0) == nil || r.o.R(0).Op == "nil" {
			c.FailAt(w.at, "a failing template yields no value")
		}
		return
	}
	if failed != nil {
		c.FailAt(c.P.pos(failed.Pos), "a failure is recorded although nothing failed")
	}
	want := w.entComp
	if kind == "compiled" {
		want = w.compiled
		if made == nil || compiled == nil {
			c.FailAt(w.at, "the template is not compiled in a scope of its own")
			return
		}
	}
	if len(runs) != 1 || runs[0].Args[0] != want {
		c.FailAt(w.at, "the template runs %d times", len(runs))
		return
	}
	if provided == nil || runs[0].Args[1] != provided.Result {
		c.FailAt(c.P.pos(runs[0].Pos), "the template runs on %s instead of a fresh state of its scope", runs[0].Args[1])
		return
	}
	ns := provided.Result
	if r.o.R(0) != firstOf(runs[0]) {
		c.FailAt(w.at, "the value is %s instead of the template's", r.o.R(0))
	}
	// every variable of the scope is copied before the run
	var acc *Term
	copied := false
	for _, ev := range loops {
		if ev.Pos > runs[0].Pos && false {
			continue
		}
		for _, it := range ev.Loop.Iters {
			if !it.Back {
				continue
			}
			sets := 0
			for _, x := range it.Events {
				if x.Callee == w.setF {
					sets++
					fld := x.Args[0]
					acc = nil
					if fld.Op == "load" && fld.Args[0].Op == "indexaddr" && fld.Args[0].Args[1] == ev.Loop.It {
						acc = fld.Args[0].Args[0]
					} else if fld.Op == "elem" && fld.Args[1] == ev.Loop.It {
						acc = fld.Args[0]
					}
					if acc == nil || !mentions(acc, w.parentT) {
						c.FailAt(c.P.pos(x.Pos), "the copied variable is %s, not the next variable of the scope", fld)
					}
					if mem := w.e.load(it.St, fieldAddr(ns, "MemPtr"), uptr()); it.St.value(x.Args[1]) != it.St.value(mem) {
						c.FailAt(c.P.pos(x.Pos), "the variable is copied to %s", x.Args[1])
					}
					v := x.Args[2]
					if !isCall(v, "(*github.com/viant/xunsafe.Field).Value") || v.Args[0] != fld || !mentions(v.Args[1], w.state) {
						c.FailAt(c.P.pos(x.Pos), "the variable gets %s instead of its value in the scope", v)
					}
				} else if !isBenign(x) && !isCall(x.Result, "(*github.com/viant/xunsafe.Field).Value") {
					c.FailAt(c.P.pos(x.Pos), "copying a variable also performs %s", shortName(x.Name))
				}
			}
			if sets > 1 {
				c.FailAt(c.P.pos(ev.Pos), "a variable is copied %d times", sets)
			}
			if sets == 0 {
				c.FailAt(c.P.pos(ev.Pos), "some variables are not copied [%s]", it.St.factStrings(0))
			}
			copied = copied || sets == 1
		}
		if acc != nil {
			if d := st.value(tSub(ev.Loop.It, w.e.lenOf(st, acc))); !isZero(d) {
				c.FailAt(c.P.pos(ev.Pos), "not all variables are copied")
			}
		}
	}
	if !copied {
		c.FailAt(w.at, "the variables of the scope are not copied")
	}
	// order: variables are copied before the run
	for _, ev := range st.events {
		if ev == runs[0] {
			if copied && !seenLoop(st.events, loops, ev) {
				c.FailAt(c.P.pos(ev.Pos), "the template runs before its variables are copied")
			}
		}
	}
	// the output is shared
	buf := c.buffer(w.s, w.e, w.state)
	if nb := c.buffer(st, w.e, ns); st.value(nb) != st.value(buf) {
		c.FailAt(w.at, "the output goes to %s instead of the output of the template", nb)
	}
	// errors are passed on
	errsT := types.NewSlice(types.Universe.Lookup("error").Type())
	after := w.e.load(st, fieldAddr(w.state, "Errors"), errsT)
	inner := w.e.load(st, fieldAddr(ns, "Errors"), errsT)
	if !(after.Op == "concat" && after.Args[1] == inner && after.Args[0].Op == "load" && after.Args[0].Args[0] == fieldAddr(w.state, "Errors")) {
		ok := false
		// a guarded append: nothing to add
		if l := st.rangeOf(w.e.lenOf(st, inner)); l.hi == 0 && after.Op == "load" {
			ok = true
		}
		if !ok {
			c.FailAt(w.at, "after the run the recorded errors are %s instead of the earlier ones and those of the dynamic template", after)
		}
	}
	for _, sr := range st.stores {
		r := rootOf(sr.addr)
		if sr.addr == fieldAddr(ns, "Errors") && !isNilTerm(st, sr.val) && st.rangeOf(w.e.lenOf(st, sr.val)).hi != 0 {
			c.FailAt(c.P.pos(sr.pos), "the dynamic template starts with recorded errors, which are recorded again: %s", sr.val)
		}
		if owned(sr.addr) || r == ns || sr.addr == fieldAddr(w.state, "Errors") {
			continue
		}
		c.FailAt(c.P.pos(sr.pos), "evaluating a dynamic template writes %s", sr.addr)
	}
}

func seenLoop(evs, loops []*Event, before *Event) bool {
	for _, ev := range evs {
		if ev == before {
			return false
		}
		for _, l := range loops {
			if ev == l {
				return true
			}
		}
	}
	return false
}

// evaluateCall analyses the compilation of a dynamic template statement up to its evaluation.
func (c *Ctx) evaluateCall(check func(o Outcome, x, planner, cache *Term, args []*Term)) {
	f, stmtF, exprF := c.P.fn("", "evaluate"), c.P.fn("", "Planner.compileStmt"), c.P.fn("", "Planner.compileExpr")
	e := c.E.with(Opts{Opaque: opaqueSet(f, exprF)})
	s := newState()
	planner := symPtr("planner", types.NewPointer(c.P.typ("", "Planner")), s)
	cache := symPtr("plannerCache", types.NewPointer(c.P.typ("", "cache")), s)
	s.heap[fieldAddr(planner, "cache")] = cache
	T := types.NewPointer(c.P.typ("ast/stmt", "Evaluate"))
	node := symPtr("node", T, s)
	text := symT("text", c.P.typ("ast", "Expression"))
	s.heap[fieldAddr(node, "X")] = text
	good := 0
	for _, o := range e.Call(s, stmtF, []*Term{planner, mk("iface", "", T, node)}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling a dynamic template can panic")
			continue
		}
		var x, res *Term
		var at *Event
		n := 0
		for _, ev := range o.St.events {
			switch ev.Callee {
			case exprF:
				x = firstOf(ev)
				if ev.Args[1] != text {
					c.FailAt(c.P.pos(ev.Pos), "the compiled expression is %s", ev.Args[1])
				}
				if nn, k := isNonNilErr(o.St, resN(ev, 1)); k && nn {
					x = nil
				}
			case f:
				n++
				at, res = ev, firstOf(ev)
			}
		}
		if x == nil {
			if nn, k := isNonNilErr(o.St, o.R(1)); !k || !nn {
				c.FailAt(c.P.pos(o.Pos), "a dynamic template whose expression does not compile is accepted")
			}
			continue
		}
		if n != 1 || o.R(0) != res {
			c.FailAt(c.P.pos(o.Pos), "a dynamic template compiles to %s", o.R(0))
			continue
		}
		good++
		check(o, x, planner, cache, at.Args)
	}
	if good == 0 && c.cur.Status == "ok" {
		undecided("no dynamic template compiles")
	}
}
