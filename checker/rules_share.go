package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C17", Level: "other", MinObs: 5,
		Explanation: "The template cache is analysed for an arbitrary cache content: a lookup returns exactly the entry stored under its key, storing keeps or forgets every other entry but never mixes them and respects the size, every access to the shared maps happens between lock and unlock on all paths, and the key identifies the whole template text, the scope and its variables.",
		Assumptions: []string{"cache indexes refer to entries of the value list (kept by every store, decided here)"},
		Run:         runC17})
	register(&Property{ID: "C18", Level: "other", MinObs: 4,
		Explanation: "Execution is analysed with an opaque template that may fail or panic: on every path recorded errors are reported (the first one, wrapped), a panic is turned into the returned error only if it carries an error, and recording an error keeps earlier ones and stops the template exactly when asked to.",
		Run:         runC18})
	register(&Property{ID: "C21", Level: "other", MinObs: 4,
		Explanation: "Typestate of pooled states: taking one is a test-and-set under its lock, the pool returns only states it has taken, and a state is cleared before it is pooled.",
		Assumptions: []string{"sync.Pool returns values it was given or made"},
		Run:         runC21})
}

func lockOp(ev *Event) (d int, read bool) {
	if ev.Kind != "call" && ev.Kind != "invoke" {
		return 0, false
	}
	n := ev.Name
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	if i := strings.IndexByte(n, '!'); i >= 0 {
		n = n[:i]
	}
	switch n {
	case "Lock":
		return 1, false
	case "RLock":
		return 1, true
	case "Unlock", "RUnlock":
		return -1, false
	}
	return 0, false
}

// checkLocked decides that every access of guarded memory happens while the lock is held and that it is released at the end.
func (c *Ctx) checkLocked(o Outcome, guarded func(addr *Term) bool) {
	held, ro := 0, false
	var lock *Term
	var walk func(evs []*Event)
	walk = func(evs []*Event) {
		for _, ev := range evs {
			if ev.Loop != nil {
				for _, it := range ev.Loop.Iters {
					h := held
					walk(it.Events)
					if held != h && it.Back {
						c.FailAt(c.P.pos(ev.Pos), "the lock is not balanced in the loop")
					}
					held = h
				}
				continue
			}
			d, r := lockOp(ev)
			if d != 0 && len(ev.Args) > 0 {
				if d > 0 {
					if held > 0 {
						c.FailAt(c.P.pos(ev.Pos), "the lock is taken twice")
					}
					if lock == nil {
						lock = ev.Args[0]
					}
					ro = r
				}
				if lock != ev.Args[0] {
					c.FailAt(c.P.pos(ev.Pos), "another lock is used: %s", ev.Args[0])
				}
				if held += d; held < 0 {
					c.FailAt(c.P.pos(ev.Pos), "the lock is released although it is not held")
				}
				continue
			}
			write := false
			switch ev.Kind {
			case "store", "mapupdate":
				write = true
			case "load", "lookup":
			default:
				continue
			}
			if !guarded(ev.Args[0]) {
				continue
			}
			if held <= 0 {
				c.FailAt(c.P.pos(ev.Pos), "%s is accessed without the lock", ev.Args[0])
			} else if write && ro {
				c.FailAt(c.P.pos(ev.Pos), "%s is written under a read lock", ev.Args[0])
			}
		}
	}
	walk(o.St.events)
	if held != 0 {
		c.FailAt(c.P.pos(o.Pos), "the lock is still held at the end")
	}
}

// ---- C17 ----

type cacheWorld struct {
	c           *Ctx
	e           *Eng
	s           *State
	cache       *Term
	m, vals     *Term
	size        *Term
	key         *Term
	valT        types.Type
	mName, vNam string
}

func (c *Ctx) newCacheWorld() *cacheWorld {
	w := &cacheWorld{c: c, s: newState()}
	w.e = c.E.with(Opts{Access: true})
	cT := c.P.typ("", "cache")
	w.cache = symPtr("cache", types.NewPointer(cT), w.s)
	st := structOf(cT)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v := w.e.load(w.s, fieldAddr(w.cache, f.Name()), f.Type())
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			w.m, w.mName = v, f.Name()
			w.key = symT("key", u.Key())
		case *types.Slice:
			w.vals, w.vNam, w.valT = v, f.Name(), u.Elem()
		case *types.Basic:
			w.size = v
		}
	}
	if w.m == nil || w.vals == nil || w.size == nil {
		undecided("the cache is no longer a size, an index and a list of values")
	}
	return w
}

func (w *cacheWorld) guarded(a *Term) bool {
	switch a.Op {
	case "fieldaddr":
		return a.Args[0] == w.cache && (a.Aux == w.mName || a.Aux == w.vNam)
	}
	return a == w.m || rootOf(a) == rootOf(w.vals) && a.Op == "indexaddr"
}

func runC17(c *Ctx) {
	exprF, putF := c.P.fn("", "cache.expression"), c.P.fn("", "cache.put")
	c.Check("cache", "lookup", c.P.fnPos(exprF), func() {
		w := c.newCacheWorld()
		hit, miss := 0, 0
		for _, o := range w.e.Call(w.s, exprF, []*Term{w.cache, w.key}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "looking up a template can panic")
				continue
			}
			st := o.St
			c.checkLocked(o, w.guarded)
			for _, sr := range st.stores {
				if !owned(sr.addr) {
					c.FailAt(c.P.pos(sr.pos), "a lookup writes %s", sr.addr)
				}
			}
			found := mk("lookupok", "", types.Typ[types.Bool], w.m, w.key)
			idx := mk("lookup", "", types.Typ[types.Int], w.m, w.key)
			in, known := st.eval(found)
			ok, k := st.eval(o.R(1))
			if !known || !k {
				if o.R(1) != found {
					c.FailAt(c.P.pos(o.Pos), "a lookup reports %s", o.R(1))
				}
				continue
			}
			if ok != in {
				c.FailAt(c.P.pos(o.Pos), "a lookup reports %v when the template is cached: %v", ok, in)
			}
			if in {
				hit++
				if want := w.e.load(st, indexAddr(w.vals, idx), w.valT); st.value(o.R(0)) != st.value(want) {
					c.FailAt(c.P.pos(o.Pos), "a lookup returns %s instead of the entry of its key", o.R(0))
				}
			} else {
				miss++
			}
		}
		if hit+miss == 0 && c.cur.Status == "ok" {
			undecided("the lookup does not test its key")
		}
	})
	c.Check("cache", "store", c.P.fnPos(putF), func() {
		w := c.newCacheWorld()
		w.s.assume(tLt0(w.size), false)
		planner := symPtr("planner", types.NewPointer(c.P.typ("", "Planner")), w.s)
		comp := symT("compute", c.P.typ("est", "Compute"))
		vT := w.valT
		if p, ok := vT.Underlying().(*types.Pointer); ok {
			vT = p.Elem()
		}
		mlen := w.e.lenOf(w.s, w.m)
		_ = mlen
		stored := 0
		for _, o := range w.e.Call(w.s, putF, []*Term{w.cache, w.key, planner, comp}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "storing a template can panic")
				continue
			}
			st := o.St
			c.checkLocked(o, w.guarded)
			m := w.e.load(st, fieldAddr(w.cache, w.mName), w.m.Typ)
			vals := w.e.load(st, fieldAddr(w.cache, w.vNam), w.vals.Typ)
			idx, has := st.heap[mk("mapelem", "", nil, m, w.key)]
			if !has {
				if m != w.m || vals != w.vals {
					// forgetting everything is allowed, mixing is not
					if m == w.m || m.Op != "makemap" {
						c.FailAt(c.P.pos(o.Pos), "the stored entries are dropped but their index is kept")
					}
				}
				if sz := st.value(w.size); !isZero(sz) {
					c.FailAt(c.P.pos(o.Pos), "a template is not stored although the cache has size %s", sz)
				}
				continue
			}
			stored++
			// the entry under the index is the given planner and computation
			ent := w.e.load(st, indexAddr(vals, idx), w.valT)
			if vals.Op == "append" {
				base := vals.Args[0]
				bl := st.value(w.e.lenOf(st, base))
				if d := st.value(tSub(idx, bl)); !isZero(d) || len(vals.Args) != 2 {
					c.FailAt(c.P.pos(o.Pos), "the template is stored at %s but its entry is number %s", idx, bl)
					continue
				}
				ent = vals.Args[1]
				switch {
				case base == w.vals:
					if m != w.m && m.Op != "makemap" {
						c.FailAt(c.P.pos(o.Pos), "the index is %s", m)
					}
				default:
					// the list starts anew: so must the index
					if !isZero(bl) {
						c.FailAt(c.P.pos(o.Pos), "the entries are %s", base)
					}
					if m == w.m || m.Op != "makemap" {
						c.FailAt(c.P.pos(o.Pos), "the stored entries are dropped but their index is kept")
					}
				}
			} else if l := st.value(w.e.lenOf(st, vals)); owned(vals) && l.isConst() {
				// a new list: so must be the index
				if n, ok := l.intVal(); !ok || n != 1 || !isZero(st.value(idx)) {
					c.FailAt(c.P.pos(o.Pos), "the template is stored at %s of a new list of %s entries", idx, l)
				}
				if m == w.m || m.Op != "makemap" {
					c.FailAt(c.P.pos(o.Pos), "the stored entries are dropped but their index is kept")
				}
			} else {
				c.FailAt(c.P.pos(o.Pos), "the entries become %s", vals)
				continue
			}
			got := map[*Term]bool{}
			es := structOf(vT)
			for i := 0; es != nil && i < es.NumFields(); i++ {
				if ent.Op == "alloc" {
					got[w.e.load(st, fieldAddr(ent, es.Field(i).Name()), es.Field(i).Type())] = true
				} else {
					got[w.e.field(st, ent, es.Field(i).Name(), es.Field(i).Type())] = true
				}
			}
			if !got[planner] || !got[comp] {
				c.FailAt(c.P.pos(o.Pos), "the stored entry is not the compiled template")
			}
			for _, sr := range st.stores {
				if sr.addr.Op == "indexaddr" && rootOf(sr.addr) == rootOf(w.vals) {
					c.FailAt(c.P.pos(sr.pos), "another entry is overwritten")
				}
			}
			for _, ev := range st.events {
				if ev.Kind == "mapupdate" && ev.Args[0] == m && ev.Args[1] != w.key {
					c.FailAt(c.P.pos(ev.Pos), "the entry of another template is changed")
				}
			}
			// the size is respected
			if m == w.m {
				if !provedLE(st, tAdd(w.e.lenOf(w.s, w.m), tInt(1)), w.size) {
					c.FailAt(c.P.pos(o.Pos), "the cache can grow past its size [%s]", st.factStrings(0))
				}
			} else if !provedLE(st, tInt(1), w.size) {
				c.FailAt(c.P.pos(o.Pos), "the cache can grow past its size [%s]", st.factStrings(0))
			}
		}
		if stored == 0 && c.cur.Status == "ok" {
			c.Fail("templates are never stored")
		}
	})
	newC := c.P.fn("", "newCache")
	c.Check("cache", "new", c.P.fnPos(newC), func() {
		e := c.E.with(Opts{})
		s := newState()
		n := symT("size", types.Typ[types.Int])
		for _, o := range e.Call(s, newC, []*Term{n}, nil) {
			if o.Panic != nil {
				c.Fail("creating a cache can panic")
				continue
			}
			r := o.R(0)
			st := structOf(c.P.typ("", "cache"))
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				v := o.St.value(e.load(o.St, fieldAddr(r, f.Name()), f.Type()))
				switch f.Type().Underlying().(type) {
				case *types.Map:
					if v.Op != "makemap" {
						c.Fail("the index of a new cache is %s", v)
					}
				case *types.Slice:
					if l := o.St.value(e.lenOf(o.St, v)); !isZero(l) {
						c.Fail("a new cache has %s entries", l)
					}
				case *types.Basic:
					if v != n {
						c.Fail("the size of a new cache is %s", v)
					}
				case *types.Interface:
					if v.Op == "nil" {
						c.Fail("a new cache has no lock")
					} else if v.Op == "iface" && !isFresh(rootOf(v.Args[0])) {
						c.Fail("caches share the lock %s", v)
					}
				}
			}
		}
	})
	c.cacheUse()
}

// cacheUse: the evaluation of a dynamic template looks up and stores under a key made of its scope and its whole text.
func (c *Ctx) cacheUse() {
	exprF, putF := c.P.fn("", "cache.expression"), c.P.fn("", "cache.put")
	w := c.newEvalWorld()
	c.Check("cache-key", "lookup and store", c.P.fnPos(w.f), func() {
		looked, put := 0, 0
		for _, r := range w.run() {
			for _, ev := range r.o.St.events {
				switch ev.Callee {
				case exprF, putF:
					if ev.Callee == exprF {
						looked++
					} else {
						put++
					}
					key := ev.Args[1]
					if !w.keyHolds(key, w.parent) {
						c.FailAt(c.P.pos(ev.Pos), "the key of a template does not identify the scope it was compiled in: %s", key)
					}
					if !w.keyHolds(key, w.text) {
						c.FailAt(c.P.pos(ev.Pos), "the key of a template does not hold its whole text: %s", key)
					}
					if !mentions(key, w.parentT) {
						c.FailAt(c.P.pos(ev.Pos), "the key of a template does not depend on the variables of its scope: %s", key)
					}
				}
			}
		}
		if looked == 0 || put == 0 {
			undecided("no lookup or no store of a template")
		}
	})
	c.Check("cache-use", "one key", c.P.fnPos(w.f), func() {
		for _, r := range w.run() {
			var key *Term
			for _, ev := range r.o.St.events {
				if ev.Callee != exprF && ev.Callee != putF {
					continue
				}
				if key != nil && key != ev.Args[1] {
					c.FailAt(c.P.pos(ev.Pos), "a template is looked up as %s but stored as %s", key, ev.Args[1])
				}
				key = ev.Args[1]
				if ev.Args[0] != w.cache {
					c.FailAt(c.P.pos(ev.Pos), "another cache is used: %s", ev.Args[0])
				}
				if ev.Callee == putF {
					if ev.Args[2] != w.child || ev.Args[3] != w.compiled {
						c.FailAt(c.P.pos(ev.Pos), "the stored template is %s of %s", ev.Args[3], ev.Args[2])
					}
				}
			}
		}
	})
}

// ---- dynamic templates (shared by C17 and C20) ----

type evalRun struct {
	o  Outcome
	st *State
}

type evalWorld struct {
	c                                        *Ctx
	e                                        *Eng
	f                                        *ssa.Function
	s                                        *State
	expr, op, parent, cache, text, textP     *Term
	state                                    *Term
	child, compiled, parentT, block          *Term
	entPlanner, entComp                      *Term
	exprF, putF, newF, computeF, prov, addEr *ssa.Function
	parse, exec, operand, setF               *ssa.Function
	at                                       string
}

func (c *Ctx) newEvalWorld() *evalWorld {
	w := &evalWorld{c: c, f: c.P.fn("", "evaluate"), s: newState()}
	w.exprF, w.putF = c.P.fn("", "cache.expression"), c.P.fn("", "cache.put")
	w.newF, w.computeF = c.P.fn("", "Planner.New"), c.P.fn("", "Planner.newCompute")
	w.prov, w.addEr = c.P.fn("", "Planner.stateProvider"), c.P.fn("est", "State.AddError")
	w.parse, w.exec = c.P.fn("parser", "Parse"), c.P.fn("est/op", "Operand.Exec")
	w.operand, w.setF = c.P.fn("est/op", "Expression.Operand"), c.P.fn("est", "SetFieldValue")
	w.e = c.E.with(Opts{Opaque: opaqueSet(w.exprF, w.putF, w.newF, w.computeF, w.prov, w.addEr, w.parse, w.setF, w.exec, w.operand), Model: w.model})
	plT := types.NewPointer(c.P.typ("", "Planner"))
	w.expr = symPtr("expr", types.NewPointer(c.P.typ("est/op", "Expression")), w.s)
	w.s.heap[fieldAddr(w.expr, "Type")] = rtype(types.Typ[types.String])
	w.parent = symPtr("parent", plT, w.s)
	w.cache = symPtr("cache", types.NewPointer(c.P.typ("", "cache")), w.s)
	w.state = c.state()
	w.parentT = w.e.load(w.s, fieldAddr(w.parent, "Type"), types.NewPointer(c.P.typ("est", "Type")))
	setNil(w.s, w.parentT, false)
	w.op = symPtr("operand", types.NewPointer(c.P.typ("est/op", "Operand")), w.s)
	w.text = symT("text", types.Typ[types.String])
	w.textP = symT("textp", uptr())
	setNil(w.s, w.textP, false)
	w.s.heap[w.textP] = w.text
	w.child = symPtr("child", plT, w.s)
	w.compiled = symT("compiled", c.P.typ("est", "Compute"))
	setNil(w.s, w.compiled, false)
	w.entPlanner = symPtr("cachedPlanner", plT, w.s)
	w.entComp = symT("cachedCompute", c.P.typ("est", "Compute"))
	setNil(w.s, w.entComp, false)
	return w
}

func (w *evalWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	errT := types.Universe.Lookup("error").Type()
	done := func(r *Term) (*Term, bool) {
		ev.Result = r
		s.emit(ev)
		return r, true
	}
	switch {
	case ev.Callee == nil:
		if ev.Kind == "dyn" && ev.Args[0].Op == "sym" && strings.HasPrefix(ev.Args[0].Aux, "provider:") {
			n := symPtr("new"+itoa(s.fresh("newstate"))+ev.Args[0].Aux, types.NewPointer(w.c.P.typ("est", "State")), s)
			return done(n)
		}
	case ev.Callee == w.operand:
		return done(mk("tuple", "", nil, w.op, symT("operandErr", errT)))
	case ev.Callee == w.exec:
		return done(w.textP)
	case ev.Callee == w.newF:
		return done(w.child)
	case ev.Callee == w.computeF:
		return done(mk("tuple", "", nil, w.compiled, symT("compileErr", errT)))
	case ev.Callee == w.prov:
		p := symT("provider:"+itoa(ev.Args[0].id), nil)
		setNil(s, p, false)
		return done(p)
	case ev.Callee == w.exprF:
		vT := ev.Callee.Signature.Results().At(0).Type()
		ent := symPtr("entry", vT, s)
		es := structOf(vT.Underlying().(*types.Pointer).Elem())
		for i := 0; i < es.NumFields(); i++ {
			v := w.entComp
			if _, ok := es.Field(i).Type().Underlying().(*types.Pointer); ok {
				v = w.entPlanner
			}
			s.heap[fieldAddr(ent, es.Field(i).Name())] = v
		}
		return done(mk("tuple", "", nil, ent, symT("cached", types.Typ[types.Bool])))
	}
	return nil, false
}

// run compiles the evaluation of a text expression and executes it.
func (w *evalWorld) run() (rs []evalRun) {
	c := w.c
	for _, o := range w.e.Call(w.s.clone(), w.f, []*Term{w.expr, w.cache, w.parent}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling a dynamic template can panic")
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(1)); !k || nn {
			c.FailAt(c.P.pos(o.Pos), "a text expression is refused as dynamic template: %s", o.R(1))
			continue
		}
		for _, o2 := range w.e.Apply(o.St, o.R(0), []*Term{symT("control", c.P.typ("est", "Control"))}) {
			if o2.Panic != nil {
				c.FailAt(c.P.pos(o2.Pos), "compiling a dynamic template can panic")
				continue
			}
			operandErr := symT("operandErr", types.Universe.Lookup("error").Type())
			if isN, k := o2.St.eval(tEq(operandErr, tNil())); k && !isN {
				if nn, k := isNonNilErr(o2.St, o2.R(1)); o2.R(1) != operandErr && !(k && nn) {
					c.FailAt(c.P.pos(o2.Pos), "a failing compile step of the text is not reported")
				}
				continue
			} else if !k {
				c.FailAt(c.P.pos(o2.Pos), "a failing compile step of the text is not noticed")
				continue
			}
			if nn, k := isNonNilErr(o2.St, o2.R(1)); !k || nn {
				c.FailAt(c.P.pos(o2.Pos), "a text expression is refused as dynamic template: %s", o2.R(1))
				continue
			}
			base := o2.St.clone()
			base.events = nil
			if o2.R(0).Fn != nil {
				w.at = c.P.fnPos(o2.R(0).Fn)
			}
			for _, o3 := range w.e.Apply(base, o2.R(0), []*Term{w.state}) {
				rs = append(rs, evalRun{o3, o3.St})
			}
		}
	}
	if len(rs) == 0 && c.cur.Status == "ok" {
		undecided("no execution of a dynamic template")
	}
	return rs
}

// keyHolds: x is a component of the key, so that keys of different x differ.
func (w *evalWorld) keyHolds(key, x *Term) bool {
	if key == x {
		return true
	}
	if key.Op == "struct" || key.Op == "iface" {
		for _, a := range key.Args {
			if a != nil && w.keyHolds(a, x) {
				return true
			}
		}
	}
	return false
}

func owned(a *Term) bool {
	r := rootOf(a)
	return isFresh(r) && !strings.HasPrefix(r.Aux, "in:")
}

// ---- C18 ----

func runC18(c *Ctx) {
	execF := c.P.fn("est", "Execution.Exec")
	errT := types.Universe.Lookup("error").Type()
	errsT := types.NewSlice(errT)
	for _, poe := range []bool{false, true} {
		poe := poe
		name := "errors returned"
		if poe {
			name = "stop at first error"
		}
		c.Check("execution", name, c.P.fnPos(execF), func() {
			s := newState()
			ex := symPtr("execution", types.NewPointer(c.P.typ("est", "Execution")), s)
			var comp *Term
			st := structOf(c.P.typ("est", "Execution"))
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Type().Underlying().(type) {
				case *types.Signature:
					comp = symT("template", st.Field(i).Type())
					setNil(s, comp, false)
					s.heap[fieldAddr(ex, st.Field(i).Name())] = comp
				case *types.Basic:
					s.heap[fieldAddr(ex, st.Field(i).Name())] = tBool(poe)
				}
			}
			e := c.E.with(Opts{MayPanic: func(ev *Event) bool { return ev.Kind == "dyn" && ev.Args[0] == comp }})
			state := c.state()
			normal, panicked := 0, 0
			for _, o := range e.Call(s, execF, []*Term{ex, state}, nil) {
				st := o.St
				runs := dynCalls(st.events, comp)
				if len(runs) != 1 || runs[0].Args[1] != state {
					c.FailAt(c.P.pos(o.Pos), "the template runs %d times", len(runs))
					continue
				}
				for _, sr := range st.stores {
					if !owned(sr.addr) {
						c.FailAt(c.P.pos(sr.pos), "executing a template writes %s", sr.addr)
					}
				}
				if st.cnt["pv"] > 0 || o.Panic != nil {
					panicked++
					c.checkPanicked(o, poe)
					continue
				}
				normal++
				errs := e.load(st, fieldAddr(state, "Errors"), errsT)
				n := e.lenOf(st, errs)
				r := st.value(o.R(0))
				if lo := st.rangeOf(n).lo; lo > 0 {
					first := e.load(st, indexAddr(errs, tInt(0)), errT)
					if nn, k := isNonNilErr(st, r); (!k || !nn) && r != first {
						c.FailAt(c.P.pos(o.Pos), "recorded errors are not reported: the result is %s", r)
						continue
					}
					if !c.wraps(st, r, first) {
						c.FailAt(c.P.pos(o.Pos), "the reported error %s does not carry the first recorded one", r)
					}
				} else if st.rangeOf(n).hi == 0 {
					if r.Op != "nil" {
						c.FailAt(c.P.pos(o.Pos), "a template without errors reports %s", r)
					}
				} else {
					c.FailAt(c.P.pos(o.Pos), "the recorded errors are not consulted")
				}
			}
			if normal == 0 || panicked == 0 {
				undecided("the template's run was not followed")
			}
		})
	}
	addF := c.P.fn("est", "State.AddError")
	c.Check("record", "AddError", c.P.fnPos(addF), func() {
		e := c.E.with(Opts{})
		s := newState()
		state := symPtr("state", types.NewPointer(c.P.typ("est", "State")), s)
		errv := symT("err", errT)
		setNil(s, errv, false)
		before := e.load(s, fieldAddr(state, "Errors"), errsT)
		flag := e.load(s, fieldAddr(state, "PanicOnError"), types.Typ[types.Bool])
		stops := map[bool]bool{}
		for _, o := range e.Call(s, addF, []*Term{state, errv}, nil) {
			st := o.St
			after := e.load(st, fieldAddr(state, "Errors"), errsT)
			if after.Op != "append" || after.Args[0] != before || len(after.Args) != 2 || stripConv(after.Args[1]) != errv {
				c.FailAt(c.P.pos(o.Pos), "recording an error turns the errors into %s", after)
			}
			for _, sr := range st.stores {
				if !owned(sr.addr) && sr.addr != fieldAddr(state, "Errors") {
					c.FailAt(c.P.pos(sr.pos), "recording an error writes %s", sr.addr)
				}
			}
			v, k := st.eval(flag)
			if !k {
				c.FailAt(c.P.pos(o.Pos), "recording an error does not look at the stop option")
				continue
			}
			stops[v] = true
			if v != (o.Panic != nil) {
				c.FailAt(c.P.pos(o.Pos), "stop at the first error is %v, but the template continues: %v", v, o.Panic == nil)
			} else if v && stripConv(o.Panic) != errv {
				c.FailAt(c.P.pos(o.Pos), "the template is stopped with %s", o.Panic)
			}
		}
		if len(stops) != 2 && c.cur.Status == "ok" {
			undecided("both settings of the stop option are not covered")
		}
	})
	valid := c.P.fn("est", "State.IsValid")
	c.Check("record", "IsValid", c.P.fnPos(valid), func() {
		e := c.E.with(Opts{})
		s := newState()
		state := c.state()
		for _, o := range e.Call(s, valid, []*Term{state}, nil) {
			if o.Panic != nil {
				c.Fail("asking for validity can panic")
				continue
			}
			n := e.lenOf(o.St, e.load(o.St, fieldAddr(state, "Errors"), errsT))
			if d := equalUnder(o.St, o.R(0), tEq0(n), 0); d != "" {
				c.Fail("a state is valid when %s", o.R(0))
			}
		}
	})
}

func stripConv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "iface" || t.Op == "assert") {
		t = t.Args[0]
	}
	return t
}

// wraps: errors.Is/As reach inner through r.
func (c *Ctx) wraps(st *State, r, inner *Term) bool {
	r = stripConv(r)
	if r == inner || st.value(r) == st.value(inner) {
		return true
	}
	if isCall(r, "fmt.Errorf") {
		f, ok := r.Args[0].strVal()
		return ok && strings.Contains(f, "%w") && mentions(r, inner)
	}
	if isCall(r, "errors.Join") {
		return mentions(r, inner)
	}
	return false
}

// checkPanicked decides the outcome of a template that panicked.
func (c *Ctx) checkPanicked(o Outcome, poe bool) {
	st := o.St
	isErr, known := false, false
	for f := range st.known {
		g := f
		if g.Op == "typeis" && g.Args[0].Op == "panicval" {
			isErr, known = st.eval(g)
		}
	}
	if o.Panic != nil {
		if stripConv(o.Panic).Op != "panicval" {
			c.FailAt(c.P.pos(o.Pos), "a panic of the template becomes another panic: %s", o.Panic)
		} else if poe && known && isErr {
			c.FailAt(c.P.pos(o.Pos), "an error stopping the template is not returned but panics")
		} else if poe && !known {
			c.FailAt(c.P.pos(o.Pos), "an error stopping the template is not recovered")
		}
		return
	}
	if !known || !isErr {
		c.FailAt(c.P.pos(o.Pos), "a panic that carries no error is swallowed")
		return
	}
	r := o.R(0)
	if stripConv(r).Op != "panicval" && !(r.Op == "call" && r.contains(func(y *Term) bool { return y.Op == "panicval" })) {
		c.FailAt(c.P.pos(o.Pos), "the error that stopped the template is lost: the result is %s", r)
	}
}

// ---- C21 ----

func runC21(c *Ctx) {
	take := c.P.fn("est", "State.Take")
	stT := types.NewPointer(c.P.typ("est", "State"))
	c.Check("state", "take", c.P.fnPos(take), func() {
		e := c.E.with(Opts{Access: true})
		s := newState()
		state := symPtr("state", stT, s)
		flagName := c.boolField("State", "isTaken", "PanicOnError")
		before := e.load(s, fieldAddr(state, flagName), types.Typ[types.Bool])
		seen := map[bool]bool{}
		for _, o := range e.Call(s, take, []*Term{state}, nil) {
			if o.Panic != nil {
				c.Fail("taking a state can panic")
				continue
			}
			c.checkLocked(o, func(a *Term) bool { return a == fieldAddr(state, flagName) })
			taken, k := o.St.eval(before)
			got, k2 := o.St.eval(o.R(0))
			if !k || !k2 {
				c.Fail("taking a state does not depend on whether it is taken: %s", o.R(0))
				continue
			}
			seen[got] = true
			if got == taken {
				c.Fail("a state is handed out: %v, although it is taken: %v", got, taken)
			}
			after, k3 := o.St.eval(e.load(o.St, fieldAddr(state, flagName), types.Typ[types.Bool]))
			if !k3 || !after {
				c.Fail("a state that was handed out can be taken again")
			}
		}
		if len(seen) != 2 && c.cur.Status == "ok" {
			undecided("both results of taking a state are not covered")
		}
	})
	reset := c.P.fn("est", "State.Reset")
	c.Check("state", "reset", c.P.fnPos(reset), func() {
		bufReset := c.P.fn("est", "Buffer.Reset")
		e := c.E.with(Opts{Access: true, Opaque: opaqueSet(bufReset)})
		s := newState()
		state := symPtr("state", stT, s)
		buf := c.buffer(s, e, state)
		setNil(s, buf, false)
		for _, o := range e.Call(s, reset, []*Term{state}, nil) {
			if o.Panic != nil {
				c.Fail("resetting a state can panic")
				continue
			}
			c.checkLocked(o, func(a *Term) bool { return false })
			n := 0
			for _, ev := range o.St.events {
				if ev.Callee == bufReset && ev.Args[0] == buf {
					n++
				}
			}
			if n == 0 {
				if nb := c.buffer(o.St, e, state); nb == buf {
					c.Fail("the output of a reset state is kept")
				}
			}
			errs := e.load(o.St, fieldAddr(state, "Errors"), types.NewSlice(types.Universe.Lookup("error").Type()))
			if l := o.St.value(e.lenOf(o.St, errs)); !isZero(l) {
				c.Fail("the errors of a reset state are kept")
			}
		}
	})
	poolT := types.NewPointer(c.P.typ("", "Pool"))
	stateF := c.P.fn("", "Pool.State")
	c.Check("pool", "State", c.P.fnPos(stateF), func() {
		e := c.E.with(Opts{Opaque: opaqueSet(take)})
		s := newState()
		p := symPtr("pool", poolT, s)
		n := 0
		for _, o := range e.Call(s, stateF, []*Term{p}, nil) {
			if o.Panic != nil {
				continue // a foreign value in the pool
			}
			n++
			r := o.St.value(o.R(0))
			ok := false
			var walk func(st *State, evs []*Event)
			walk = func(st *State, evs []*Event) {
				for _, ev := range evs {
					if ev.Loop != nil {
						for _, it := range ev.Loop.Iters {
							if !it.Back {
								walk(it.St, it.Events)
							}
						}
					}
					if ev.Callee == take && st.value(ev.Args[0]) == r {
						if v, k := st.eval(ev.Result); k && v {
							ok = true
						}
					}
				}
			}
			walk(o.St, o.St.events)
			if !ok {
				c.FailAt(c.P.pos(o.Pos), "the pool hands out a state it has not taken: %s", r)
			}
		}
		if n == 0 && c.cur.Status == "ok" {
			undecided("no outcome")
		}
	})
	putF := c.P.fn("", "Pool.Put")
	c.Check("pool", "Put", c.P.fnPos(putF), func() {
		e := c.E.with(Opts{Opaque: opaqueSet(reset)})
		s := newState()
		p := symPtr("pool", poolT, s)
		state := symPtr("state", stT, s)
		pooled := 0
		for _, o := range e.Call(s, putF, []*Term{p, state}, nil) {
			if o.Panic != nil {
				c.Fail("returning a state can panic")
				continue
			}
			cleared, puts := false, 0
			for _, ev := range o.St.events {
				switch {
				case ev.Callee == reset && ev.Args[0] == state:
					cleared = true
				case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*sync.Pool).Put"):
					puts++
					if stripConv(ev.Args[1]) != state {
						c.FailAt(c.P.pos(ev.Pos), "%s is pooled instead of the state", ev.Args[1])
					}
					if !cleared {
						c.FailAt(c.P.pos(ev.Pos), "a state is pooled before it is cleared")
					}
				}
			}
			if puts > 1 {
				c.Fail("a state is pooled %d times", puts)
			}
			pooled += puts
		}
		_ = pooled
	})
	newP := c.P.fn("", "NewPool")
	c.Check("pool", "NewPool", c.P.fnPos(newP), func() {
		e := c.E.with(Opts{})
		s := newState()
		prov := symT("newState", nil)
		setNil(s, prov, false)
		for _, o := range e.Call(s, newP, []*Term{symT("size", types.Typ[types.Int]), prov}, nil) {
			if o.Panic != nil {
				c.Fail("creating a pool can panic")
				continue
			}
			sp := e.load(o.St, fieldAddr(o.R(0), "statePool"), nil)
			mkNew := e.load(o.St, fieldAddr(sp, "New"), nil)
			st := o.St.clone()
			st.events = nil
			for _, o2 := range e.Apply(st, mkNew, nil) {
				if o2.Panic != nil {
					c.Fail("making a pooled state can panic")
					continue
				}
				ds := dynCalls(o2.St.events, prov)
				if len(ds) != 1 || stripConv(o2.R(0)) != firstOf(ds[0]) {
					c.Fail("the pool makes %s instead of a new state", o2.R(0))
				}
			}
		}
	})
}

// boolField is the only boolean field of est.T besides the given ones.
func (c *Ctx) boolField(T, want string, not ...string) string {
	st := structOf(c.P.typ("est", T))
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		if f.Name() == want {
			return want
		}
		skip := false
		for _, n := range not {
			skip = skip || n == f.Name()
		}
		if !skip {
			r = append(r, f.Name())
		}
	}
	if len(r) != 1 {
		undecided("the flag %s of %s is not found", want, T)
	}
	return r[0]
}
