package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C31", Level: "other", MinObs: 12,
		Explanation: "For planners created with each option, none, all and all in reverse order, and for the derived scope of a dynamic template, compiling and making a state are analysed with symbolic option values: the execution and every state carry exactly the given settings, and each state has its own memory of the type it reports.",
		Assumptions: []string{"parsing and compiling the template are opaque here"},
		Run:         runC31})
	register(&Property{ID: "C14", Level: "other", MinObs: 4,
		Explanation: "The escaping writer is analysed with the option on and off: dynamic text is escaped exactly once when it is on and not at all when it is off; every use of the writer that does not escape is traced back through parameters and captured variables to literal template text.",
		Assumptions: []string{"html.EscapeString escapes"},
		Run:         runC14})
}

func runC31(c *Ctx) {
	newF := c.P.fn("", "New")
	all := []string{"BufferSize", "CacheSize", "EscapeHTML", "PanicOnError", "Functions"}
	rev := []string{"Functions", "PanicOnError", "EscapeHTML", "CacheSize", "BufferSize"}
	sets := [][]string{nil, all, rev}
	for _, n := range all {
		sets = append(sets, []string{n})
	}
	if c.thorough() {
		for i := range all {
			sets = append(sets, append(append([]string{}, all[i:]...), all[:i]...))
			for j := range all {
				if i != j {
					sets = append(sets, []string{all[i], all[j]})
				}
			}
		}
	}
	for _, set := range sets {
		set := set
		for _, child := range []bool{false, true} {
			child := child
			name := strings.Join(set, "+")
			if name == "" {
				name = "no options"
			}
			if child {
				name += ", derived scope"
			}
			c.Check("options", name, c.P.fnPos(newF), func() { c.checkOptions(newF, set, child) })
		}
	}
	c.Check("options", "cache of dynamic templates", c.P.fnPos(newF), func() {
		c.evaluateCall(func(o Outcome, x, planner, cache *Term, args []*Term) {
			if args[1] != cache {
				c.FailAt(c.P.pos(o.Pos), "a dynamic template is kept in %s instead of the cache of the given size", args[1])
			}
		})
	})
	c.Check("derived-scope", "isolation", c.P.fnPos(c.P.fn("", "Planner.New")), c.checkScope)
}

func (c *Ctx) optionWorld() (*Eng, *ssa.Function, *ssa.Function, *ssa.Function) {
	parse, comp, fns := c.P.fn("parser", "Parse"), c.P.fn("", "Planner.newCompute"), c.P.fn("est/op", "NewFunctions")
	return c.E.with(Opts{Opaque: opaqueSet(parse, comp, fns, c.P.fn("est/op", "Selectors.Snapshot"), c.P.fn("est", "Type.Snapshot"))}), parse, comp, fns
}

func (c *Ctx) checkOptions(newF *ssa.Function, set []string, child bool) {
	e, parse, comp, fns := c.optionWorld()
	s := newState()
	val := map[string]*Term{}
	var elems []*Term
	for _, n := range set {
		if n == "Functions" {
			T := types.NewPointer(c.P.typ("est/op", "Functions"))
			val[n] = symPtr("functions", T, s)
			elems = append(elems, mk("iface", "", T, val[n]))
			continue
		}
		T := c.P.typ("", n)
		val[n] = symT("option:"+n, T.Underlying())
		elems = append(elems, mk("iface", "", T, val[n]))
	}
	if val["BufferSize"] != nil {
		s.assume(tLt0(val["BufferSize"]), false)
	}
	def := func(n string, d *Term) *Term {
		if v := val[n]; v != nil {
			return v
		}
		return d
	}
	opts := sliceOf(e, s, "options", elems...)
	n := 0
	for _, o := range e.Call(s, newF, []*Term{opts}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "creating a planner can panic")
			continue
		}
		planner := o.R(0)
		st := o.St
		if child {
			for _, o2 := range e.Call(st, c.P.fn("", "Planner.New"), []*Term{planner}, nil) {
				if o2.Panic != nil {
					c.FailAt(c.P.pos(o2.Pos), "deriving a scope can panic")
					continue
				}
				n++
				c.checkPlanner(e, o2.St, o2.R(0), set, val, def, parse, comp, fns, elems)
			}
			continue
		}
		n++
		c.checkPlanner(e, st, planner, set, val, def, parse, comp, fns, elems)
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no planner")
	}
}

func (c *Ctx) checkPlanner(e *Eng, st *State, planner *Term, set []string, val map[string]*Term, def func(string, *Term) *Term, parse, comp, fns *ssa.Function, elems []*Term) {
	where := c.P.fnPos(c.P.fn("", "New"))
	plT := c.P.typ("", "Planner")
	load := func(st *State, base *Term, T types.Type, name string) *Term {
		ss := structOf(T)
		for i := 0; i < ss.NumFields(); i++ {
			if ss.Field(i).Name() == name {
				return st.value(e.load(st, fieldAddr(base, name), ss.Field(i).Type()))
			}
		}
		undecided("%s has no %s", T, name)
		return nil
	}
	// functions: the given ones or the standard library
	f := load(st, planner, plT, "Functions")
	if want := val["Functions"]; want != nil {
		if f != want {
			c.FailAt(where, "the functions are %s instead of the given ones", f)
		}
	} else {
		if _, ok := callOf(f, fns); !ok {
			c.FailAt(where, "the functions are %s instead of the standard library", f)
		} else {
			got := f.Args[0]
			ok := got.Op == "list" && len(got.Args) == len(elems)
			for i := range elems {
				ok = ok && got.Args[i] == elems[i]
			}
			if !ok && !(len(elems) == 0 && (got.Op == "list" && len(got.Args) == 0 || got.Op == "nil" || isZero(st.value(e.lenOf(st, got))))) {
				c.FailAt(where, "the standard library is created from %s instead of the options", got)
			}
		}
	}
	ca := load(st, planner, plT, "cache")
	cst := structOf(c.P.typ("", "cache"))
	for i := 0; i < cst.NumFields(); i++ {
		if isInteger(cst.Field(i).Type()) {
			if got := load(st, ca, c.P.typ("", "cache"), cst.Field(i).Name()); got != def("CacheSize", tInt(0)) {
				c.FailAt(where, "the cache size is %s instead of %s", got, def("CacheSize", tInt(0)))
			}
		}
	}
	compileF := c.P.fn("", "Planner.Compile")
	template := symT("template", types.NewSlice(basicT("byte")))
	good := 0
	for _, o := range e.Call(st, compileF, []*Term{planner, template}, nil) {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling can panic")
			continue
		}
		var perr, cerr *Term
		parsed, compiled := 0, 0
		var block, compute *Term
		for _, ev := range o.St.events {
			switch ev.Callee {
			case parse:
				parsed++
				block, perr = firstOf(ev), resN(ev, 1)
				if stripConv(ev.Args[0]) != template {
					c.FailAt(c.P.pos(ev.Pos), "the parsed text is %s", ev.Args[0])
				}
			case comp:
				compiled++
				compute, cerr = firstOf(ev), resN(ev, 1)
				if ev.Args[0] != planner || ev.Args[1] != block {
					c.FailAt(c.P.pos(ev.Pos), "the compiled block is %s of %s", ev.Args[1], ev.Args[0])
				}
			}
		}
		at := c.P.pos(o.Pos)
		var failed *Term
		if nn, k := isNonNilErr(o.St, perr); k && nn {
			failed = perr
		} else if nn, k := isNonNilErr(o.St, cerr); cerr != nil && k && nn {
			failed = cerr
		}
		if failed != nil {
			if nn, k := isNonNilErr(o.St, o.R(2)); !k || !nn {
				c.FailAt(at, "a template that does not compile is accepted: the error is %s", o.R(2))
			}
			continue
		}
		if parsed != 1 || compiled != 1 {
			c.FailAt(at, "a template is parsed %d times and compiled %d times", parsed, compiled)
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(2)); !k || nn {
			c.FailAt(at, "a valid template is refused: %s", o.R(2))
			continue
		}
		good++
		exec := o.R(0)
		exT := c.P.typ("est", "Execution")
		if got := load(o.St, exec, exT, "PanicOnError"); got != def("PanicOnError", tBool(false)) {
			c.FailAt(at, "stop at first error is %s for the execution", got)
		}
		xs := structOf(exT)
		for i := 0; i < xs.NumFields(); i++ {
			if _, ok := xs.Field(i).Type().Underlying().(*types.Signature); ok {
				if got := load(o.St, exec, exT, xs.Field(i).Name()); got != compute {
					c.FailAt(at, "the execution runs %s", got)
				}
			}
		}
		c.checkProvider(e, o.St, planner, o.R(1), def)
	}
	if good == 0 && c.cur.Status == "ok" {
		undecided("no template compiles")
	}
}

// checkProvider analyses making two states, a variable being defined in between.
func (c *Ctx) checkProvider(e *Eng, st *State, planner, provider *Term, def func(string, *Term) *Term) {
	stT := c.P.typ("est", "State")
	fT := func(name string) types.Type { return c.fieldT("est", "State", name) }
	var prev []*Term
	where := c.P.fnPos(c.P.fn("", "Planner.Compile"))
	if provider.Fn != nil {
		where = c.P.fnPos(provider.Fn)
	}
	states := []*State{st.clone()}
	for round := 0; round < 2; round++ {
		var next []*State
		for _, s0 := range states {
			// a variable defined after compilation
			ty := s0.value(e.load(s0, fieldAddr(planner, "Type"), types.NewPointer(c.P.typ("est", "Type"))))
			s0.heap[fieldAddr(ty, "Type")] = mk("sym", "scope type "+itoa(round), nil)
			setNil(s0, s0.heap[fieldAddr(ty, "Type")], false)
			for _, o := range e.Apply(s0, provider, nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "making a state can panic")
					continue
				}
				ns := o.R(0)
				if !owned(ns) {
					c.FailAt(where, "states are shared: %s", ns)
				}
				get := func(n string) *Term { return o.St.value(e.load(o.St, fieldAddr(ns, n), fT(n))) }
				if got := get("PanicOnError"); got != def("PanicOnError", tBool(false)) {
					c.FailAt(where, "stop at first error is %s for a state", got)
				}
				stype := get("StateType")
				if stype != ty {
					c.FailAt(where, "the scope of a state is %s instead of the planner's", stype)
				}
				mem, ptr := get("Mem"), get("MemPtr")
				var made *Term
				mem.contains(func(y *Term) bool {
					if isCall(y, "reflect.New") {
						made = y
					}
					return false
				})
				cur := e.load(o.St, fieldAddr(stype, "Type"), c.fieldT("est", "Type", "Type"))
				if made == nil || made.Args[0] != o.St.value(cur) {
					c.FailAt(where, "the memory of a state is %s instead of a value of its scope's current type", mem)
				}
				if made != nil && !mentions(ptr, made) {
					c.FailAt(where, "the memory pointer of a state is %s", ptr)
				}
				buf := get("Buffer")
				if !owned(buf) {
					c.FailAt(where, "states share the buffer %s", buf)
				}
				bT := structOf(c.P.typ("est", "Buffer"))
				for i := 0; i < bT.NumFields(); i++ {
					v := o.St.value(e.load(o.St, fieldAddr(buf, bT.Field(i).Name()), bT.Field(i).Type()))
					switch u := bT.Field(i).Type().Underlying().(type) {
					case *types.Slice:
						if l := o.St.value(e.lenOf(o.St, v)); l != def("BufferSize", tInt(0)) {
							c.FailAt(where, "the buffer of a state has room for %s bytes", l)
						}
					case *types.Basic:
						if u.Kind() == types.Bool && v != def("EscapeHTML", tBool(false)) {
							c.FailAt(where, "escaping is %s for a state", v)
						}
					}
				}
				if l := o.St.value(e.lenOf(o.St, get("Errors"))); !isZero(l) {
					c.FailAt(where, "a new state has errors")
				}
				st := structOf(stT)
				for i := 0; i < st.NumFields(); i++ {
					if n := st.Field(i).Name(); n != "PanicOnError" && types.Identical(st.Field(i).Type(), types.Typ[types.Bool]) {
						if v, k := o.St.eval(get(n)); !k || v {
							c.FailAt(where, "a new state is already taken")
						}
					}
				}
				for _, p := range prev {
					if p == ns || p == made || p == buf {
						c.FailAt(where, "two states share %s", p)
					}
				}
				prev = append(prev, ns, made, buf)
				next = append(next, o.St)
			}
		}
		states = next
	}
}

// checkScope: a derived scope starts with the definitions of its parent but adds its own to copies.
func (c *Ctx) checkScope() {
	newF := c.P.fn("", "Planner.New")
	e := c.E.with(Opts{Opaque: opaqueSet(c.P.fn("est/op", "Selectors.Snapshot"), c.P.fn("est", "Type.Snapshot"))})
	s := newState()
	plT := c.P.typ("", "Planner")
	p := symPtr("planner", types.NewPointer(plT), s)
	// symbolic settings
	shared := map[string]bool{"Functions": true, "cache": true, "Control": true}
	for _, o := range e.Call(s, newF, []*Term{p}, nil) {
		if o.Panic != nil {
			c.Fail("deriving a scope can panic")
			continue
		}
		ch := o.R(0)
		if !owned(ch) {
			c.Fail("the derived scope is %s", ch)
		}
		st := structOf(plT)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			old := o.St.value(e.load(o.St, fieldAddr(p, f.Name()), f.Type()))
			got := o.St.value(e.load(o.St, fieldAddr(ch, f.Name()), f.Type()))
			switch f.Type().Underlying().(type) {
			case *types.Basic:
				if got != old {
					c.Fail("the setting %s of a derived scope is %s", f.Name(), got)
				}
			case *types.Pointer:
				if shared[f.Name()] {
					if got != old && !(f.Name() == "Control" && got.Op == "alloc") {
						c.Fail("a derived scope has its own %s: %s", f.Name(), got)
					}
					continue
				}
				if got == old || got.Op == "nil" {
					c.Fail("a derived scope shares %s with its parent", f.Name())
				}
				if got.Op == "call" && (len(got.Args) == 0 || got.Args[0] != old) {
					c.Fail("the %s of a derived scope is a copy of %s", f.Name(), got)
				}
			}
		}
		for _, sr := range o.St.stores {
			if !owned(sr.addr) {
				c.FailAt(c.P.pos(sr.pos), "deriving a scope writes %s", sr.addr)
			}
		}
	}
}

// ---- C14 ----

func runC14(c *Ctx) {
	raw := c.P.fn("est", "Buffer.AppendStringWithoutEscaping")
	app := c.P.fn("est", "Buffer.AppendString")
	bT := types.NewPointer(c.P.typ("est", "Buffer"))
	flag := ""
	st := structOf(c.P.typ("est", "Buffer"))
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Typ[types.Bool]) {
			if flag != "" {
				undecided("the buffer has several flags")
			}
			flag = st.Field(i).Name()
		}
	}
	for _, on := range []bool{true, false} {
		on := on
		name := "escaping off"
		if on {
			name = "escaping on"
		}
		c.Check("dynamic-text", name, c.P.fnPos(app), func() {
			e := c.E.with(Opts{Opaque: opaqueSet(raw)})
			s := newState()
			b := symPtr("b", bT, s)
			s.heap[fieldAddr(b, flag)] = tBool(on)
			v := symT("text", types.Typ[types.String])
			n := 0
			for _, o := range e.Call(s, app, []*Term{b, v}, nil) {
				if o.Panic != nil {
					c.Fail("appending can panic")
					continue
				}
				n++
				var ws []*Event
				for _, ev := range o.St.events {
					if ev.Callee == raw {
						ws = append(ws, ev)
					} else if !isBenign(ev) && !isCall(ev.Result, "html.EscapeString") {
						c.FailAt(c.P.pos(ev.Pos), "appending text also performs %s", shortName(ev.Name))
					}
				}
				if len(ws) == 0 {
					// only the empty text may be skipped
					if r := o.St.rangeOf(e.lenOf(o.St, v)); r.hi == 0 {
						continue
					}
					if x, ok := o.St.value(v).strVal(); ok && x == "" {
						continue
					}
				}
				if len(ws) != 1 || ws[0].Args[0] != b {
					c.Fail("the text is written %d times", len(ws))
					continue
				}
				got := o.St.value(ws[0].Args[1])
				if on && !(isCall(got, "html.EscapeString") && o.St.value(got.Args[0]) == o.St.value(v)) || !on && got != o.St.value(v) {
					// text known to hold no markup may be written as it is
					c.FailAt(c.P.pos(ws[0].Pos), "with %s the text is written as %s", name, got)
				}
				for _, sr := range o.St.stores {
					if !owned(sr.addr) {
						c.FailAt(c.P.pos(sr.pos), "appending text writes %s", sr.addr)
					}
				}
			}
			if n == 0 {
				undecided("no outcome")
			}
		})
	}
	// every other use of the raw writer gets literal template text
	c.rawUses(raw)
}

func (c *Ctx) rawUses(raw *ssa.Function) {
	lit := c.P.typ("ast/stmt", "Append")
	bufT := c.P.typ("est", "Buffer")
	isBufMethod := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Signature.Recv() == nil {
			return false
		}
		n := namedOf(f.Signature.Recv().Type())
		return n != nil && n.Obj() == bufT.(*types.Named).Obj()
	}
	num := map[string]int{}
	site := func(f *ssa.Function) string {
		n := shortFn(f)
		num[n]++
		if num[n] > 1 {
			n += " #" + itoa(num[n])
		}
		return n
	}
	for _, f := range c.P.Funcs {
		f := f
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// writes to the buffer's fields from elsewhere
				if fa, ok := in.(*ssa.FieldAddr); ok && !isBufMethod(f) {
					if n := namedOf(fa.X.Type().Underlying().(*types.Pointer).Elem()); n != nil && n.Obj() == bufT.(*types.Named).Obj() {
						if _, isLoc := fa.X.(*ssa.Alloc); !isLoc && writesThrough(fa) {
							c.Check("raw-write", site(f), c.P.pos(in.Pos()), func() { c.Fail("the buffer is written around its writers") })
						}
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					// a method value of the raw writer
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(raw) {
							c.Check("raw-write", site(f), c.P.pos(in.Pos()), func() { c.Fail("the raw writer is passed on as a value") })
						}
					}
					continue
				}
				if call.Common().StaticCallee() != raw {
					continue
				}
				at := c.P.pos(in.Pos())
				if isBufMethod(f) {
					c.Check("raw-write", site(f)+" (writer)", at, func() {}) // decided above and by C06, C15
					continue
				}
				c.Check("raw-write", site(f), at, func() {
					if bad := c.literalText(call.Common().Args[1], lit, map[ssa.Value]bool{}); bad != "" {
						c.Fail("text that is not literal template text is written without escaping: %s", bad)
					}
				})
			}
		}
	}
}

func writesThrough(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// literalText traces a value back to the text of a literal template node ("" when it is).
func (c *Ctx) literalText(v ssa.Value, lit types.Type, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	isLit := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return types.Identical(t, lit)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && isLit(fa.X.Type()) {
			return ""
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return c.traceFree(fv, lit, seen)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			return c.traceStores(al, lit, seen)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return c.traceField(fa, lit, seen)
		}
		return "*" + x.X.String()
	case *ssa.Field:
		if isLit(x.X.Type()) {
			return ""
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if r := c.literalText(e, lit, seen); r != "" {
				return r
			}
		}
		return ""
	case *ssa.Slice:
		return c.literalText(x.X, lit, seen)
	case *ssa.Convert:
		return c.literalText(x.X, lit, seen)
	case *ssa.ChangeType:
		return c.literalText(x.X, lit, seen)
	case *ssa.FreeVar:
		return c.traceFree(x, lit, seen)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, g := range c.P.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
						n++
						if r := c.literalText(call.Common().Args[idx], lit, seen); r != "" {
							return r
						}
					} else if !ok {
						for _, op := range in.Operands(nil) {
							if *op == ssa.Value(f) {
								return "a parameter of " + f.Name()
							}
						}
					}
				}
			}
		}
		if n > 0 {
			return ""
		}
		return "parameter " + x.Name() + " of " + shortFn(f)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && inModule(fnPkg(g)) {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if bad := c.literalText(r.Results[0], lit, seen); bad != "" {
						return bad
					}
				}
			}
			return ""
		}
	}
	return v.String()
}

func (c *Ctx) traceStores(al *ssa.Alloc, lit types.Type, seen map[ssa.Value]bool) string {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if bad := c.literalText(s.Val, lit, seen); bad != "" {
				return bad
			}
		}
	}
	return ""
}

// traceField: a field of a module struct holds literal text if every store to that field does.
func (c *Ctx) traceField(fa *ssa.FieldAddr, lit types.Type, seen map[ssa.Value]bool) string {
	T := fa.X.Type().Underlying().(*types.Pointer).Elem()
	n := namedOf(T)
	if n == nil || n.Obj().Exported() {
		return "field of " + T.String()
	}
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if o, ok := s.Addr.(*ssa.FieldAddr); ok && o.Field == fa.Field && types.Identical(o.X.Type(), fa.X.Type()) {
					if bad := c.literalText(s.Val, lit, seen); bad != "" {
						return bad
					}
				}
			}
		}
	}
	return ""
}

func (c *Ctx) traceFree(fv *ssa.FreeVar, lit types.Type, seen map[ssa.Value]bool) string {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			v := mc.Bindings[idx]
			if al, ok := v.(*ssa.Alloc); ok {
				if bad := c.traceStores(al, lit, seen); bad != "" {
					return bad
				}
				continue
			}
			if p, ok := v.(*ssa.FreeVar); ok {
				if bad := c.traceFree(p, lit, seen); bad != "" {
					return bad
				}
				continue
			}
			if bad := c.literalText(v, lit, seen); bad != "" {
				return bad
			}
		}
	}
	return ""
}
