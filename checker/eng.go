package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var constFloat0 = constant.ToFloat(constant.MakeInt64(0))

func itoa(n int) string { return strconv.Itoa(n) }

// Opts tunes the interprocedural policy of one analysis.
type Opts struct {
	// Opaque marks calls that are recorded as events instead of being analysed through.
	Opaque func(f *ssa.Function) bool
	// InlineDep allows analysing through functions of dependencies.
	InlineDep func(f *ssa.Function) bool
	// MayPanic adds a panicking partition to an opaque call ("" static name, dynamic: "dyn").
	MayPanic func(ev *Event) bool
	// Model replaces the effect of a call.
	Model func(e *Eng, s *State, ev *Event) (res *Term, handled bool)
	// Appends makes an event of every append that is known to the last element.
	Appends bool
	// MaxUnroll bounds concretely decided loops.
	MaxUnroll int
	MaxRec    int
	JoinAt    int  // partitions kept apart at a merge point before they are joined
	Havoc     bool // never unroll
	Bounds    bool // report every index and slice expression as an event
	Access    bool // report every load, store and map lookup as an event
}

// Eng is the abstract interpreter: value numbering terms + intervals, trace partitioning at branches,
// states re-joined at control-flow merges, loops summarised by widening.
type Eng struct {
	P        *Prog
	O        Opts
	stack    []*ssa.Function
	steps    int
	maxSteps int
	deadline time.Time              // no analysis after it
	Funcs    map[*ssa.Function]bool // functions analysed through
	Calls    int                    // opaque call sites met
	globals  map[*Term]*Term        // folded initial heap
	mutable  map[string]bool        // globals written outside init
	loops    map[*ssa.Function]*loopInfo
	Loops    int
	Traces   int
	initOK   bool
	inInit   bool
	debug    bool
	live     map[*ssa.BasicBlock]map[ssa.Value]bool
}

// Outcome is one way a function can end.
type Outcome struct {
	St      *State
	Results []*Term
	Panic   *Term
	Pos     token.Pos
}

func (o Outcome) R(i int) *Term {
	if i < len(o.Results) {
		return o.Results[i]
	}
	return nil
}

func newEng(p *Prog, o Opts) *Eng {
	if o.MaxUnroll == 0 {
		o.MaxUnroll = 80
	}
	if o.JoinAt == 0 {
		o.JoinAt = 24
	}
	return &Eng{P: p, O: o, Funcs: map[*ssa.Function]bool{}, loops: map[*ssa.Function]*loopInfo{}, maxSteps: 4000000, debug: os.Getenv("VERIF_DEBUG") != "",
		live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
}

// with returns an engine sharing the folded globals with another policy.
func (e *Eng) with(o Opts) *Eng {
	n := newEng(e.P, o)
	n.globals, n.mutable, n.initOK = e.globals, e.mutable, e.initOK
	n.Funcs = e.Funcs
	n.loops = e.loops
	n.live = e.live
	n.deadline = e.deadline
	return n
}

type trace struct {
	st        *State
	env       map[ssa.Value]*Term
	defers    []deferred
	panicking *Term
	recovered bool
	decided   bool
	pos       token.Pos
}

type deferred struct {
	fn     *Term // nil for invoke/builtin
	callee *ssa.Function
	call   *ssa.Defer
	args   []*Term
}

func (t *trace) clone() *trace {
	n := *t
	n.st = t.st.clone()
	n.env = make(map[ssa.Value]*Term, len(t.env)+4)
	for k, v := range t.env {
		n.env[k] = v
	}
	n.defers = t.defers[:len(t.defers):len(t.defers)]
	return &n
}

type edge struct{ from, to *ssa.BasicBlock }

type frame struct {
	fn   *ssa.Function
	li   *loopInfo
	outs []Outcome
	key  string
	// the deferring function's panic state, visible to recover()
	caller *trace
}

// Call analyses fn applied to args from state s.
func (e *Eng) Call(s *State, fn *ssa.Function, args []*Term, bindings []*Term) []Outcome {
	return e.callFn(s, fn, args, bindings, nil)
}

// Apply applies a function-valued term.
func (e *Eng) Apply(s *State, f *Term, args []*Term) []Outcome {
	switch f.Op {
	case "func":
		return e.callFn(s, f.Fn, args, nil, nil)
	case "closure":
		return e.callFn(s, f.Fn, args, f.Args, nil)
	}
	undecided("function value %s is not resolved", f)
	return nil
}

func (e *Eng) callFn(s *State, fn *ssa.Function, args, bindings []*Term, deferOwner *trace) []Outcome {
	if fn.Blocks == nil {
		undecided("no body for %s", fn)
	}
	if len(e.stack) > 60 {
		undecided("call chain too deep at %s", fn)
	}
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s> %s %v\n", strings.Repeat(" ", len(e.stack)), shortFn(fn), args)
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.Funcs[fn] = true
	fr := &frame{fn: fn, li: e.loopsOf(fn), caller: deferOwner}
	fr.key = shortFn(fn)
	t := &trace{st: s.clone(), env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			t.env[p] = args[i]
		} else {
			undecided("missing argument for %s", fn)
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bindings) {
			t.env[v] = bindings[i]
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	e.region(fr, all, fn.Blocks[0], []*trace{t}, nil)
	if len(fr.outs) > 20000 {
		undecided("too many partitions in %s", fn)
	}
	e.Traces += len(fr.outs)
	return e.joinOutcomes(fr.outs)
}

// joinOutcomes merges outcomes that agree on results and memory.
func (e *Eng) joinOutcomes(outs []Outcome) []Outcome {
	if len(outs) <= 2*e.O.JoinAt {
		return outs
	}
	m := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		var sb strings.Builder
		for _, r := range o.Results {
			if r == nil {
				sb.WriteString("_,")
				continue
			}
			sb.WriteString(itoa(r.id) + ",")
		}
		if o.Panic != nil {
			sb.WriteString("P" + itoa(o.Panic.id))
		}
		o.St.signature(&sb)
		k := sb.String()
		if i, ok := m[k]; ok {
			res[i].St.join(o.St)
			continue
		}
		m[k] = len(res)
		res = append(res, o)
	}
	return res
}

// ---- loops ----

// shortCircuit tells that skipping other is a part of a condition (a || b, a && b) that could have left the blocks.
func shortCircuit(taken, other *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) bool {
	for n := 0; n < 16; n++ {
		if len(other.Succs) != 2 {
			return false
		}
		switch taken {
		case other.Succs[0]:
			other = other.Succs[1]
		case other.Succs[1]:
			other = other.Succs[0]
		default:
			return false
		}
		if !blocks[other] {
			return true
		}
	}
	return false
}

type loopInfo struct {
	header map[*ssa.BasicBlock]*loop
	rpo    map[*ssa.BasicBlock]int
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (e *Eng) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*loop{}, rpo: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		li.rpo[b] = len(post) - 1 - i
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.header[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			} else if li.rpo[s] <= li.rpo[b] {
				undecided("irreducible control flow in %s", fn)
			}
		}
	}
	e.loops[fn] = li
	return li
}

// region propagates traces through an acyclic region; inner loops are handled as units.
func (e *Eng) region(fr *frame, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []*trace, header *ssa.BasicBlock) map[edge][]*trace {
	exits := map[edge][]*trace{}
	pending := map[*ssa.BasicBlock][]*trace{entry: in}
	var order []*ssa.BasicBlock
	for b := range blocks {
		if _, ok := fr.li.rpo[b]; ok {
			order = append(order, b)
		}
	}
	sort.Slice(order, func(i, j int) bool { return fr.li.rpo[order[i]] < fr.li.rpo[order[j]] })
	push := func(ed edge, t *trace) {
		if ed.to == header || !blocks[ed.to] {
			exits[ed] = append(exits[ed], t)
			return
		}
		pending[ed.to] = append(pending[ed.to], t)
	}
	for _, b := range order {
		ts := pending[b]
		if len(ts) == 0 {
			continue
		}
		delete(pending, b)
		ts = e.joinTraces(b, ts)
		if len(ts) > 4096 {
			undecided("too many trace partitions in %s", fr.fn)
		}
		if l := fr.li.header[b]; l != nil && !(b == entry && header == b) {
			for ed, xs := range e.runLoop(fr, l, ts) {
				for _, x := range xs {
					push(ed, x)
				}
			}
			continue
		}
		for _, t := range ts {
			e.block(fr, b, t, blocks, push)
		}
	}
	return exits
}

// liveIn computes (coarsely) the values a block and its successors may still use.
func (e *Eng) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	if l, ok := e.live[b]; ok {
		return l
	}
	l := map[ssa.Value]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock)
	dfs = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, in := range x.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					l[*op] = true
				}
			}
			if phi, ok := in.(*ssa.Phi); ok && x == b {
				l[phi] = true
			}
		}
		for _, s := range x.Succs {
			dfs(s)
		}
	}
	dfs(b)
	if b.Parent().Recover != nil {
		dfs(b.Parent().Recover)
	}
	e.live[b] = l
	return l
}

func (e *Eng) joinTraces(b *ssa.BasicBlock, ts []*trace) []*trace {
	if len(ts) <= e.O.JoinAt {
		return ts
	}
	live := e.liveIn(b)
	var keys []ssa.Value
	for v := range live {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			continue
		}
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	m := map[string]*trace{}
	var out []*trace
	for _, t := range ts {
		var sb strings.Builder
		for _, k := range keys {
			if v := t.env[k]; v != nil {
				sb.WriteString(k.Name() + ":" + itoa(v.id) + ",")
			}
		}
		fmt.Fprintf(&sb, "d%d p%v r%v c%v|", len(t.defers), t.panicking, t.recovered, t.decided)
		t.st.signature(&sb)
		k := sb.String()
		if o, ok := m[k]; ok {
			o.st.join(t.st)
			continue
		}
		m[k] = t
		out = append(out, t)
	}
	return out
}

// enter evaluates the phis of to for a transfer along ed.
func (e *Eng) enter(ed edge, t *trace) {
	idx := -1
	for i, p := range ed.to.Preds {
		if p == ed.from {
			idx = i
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range ed.to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(t, phi.Edges[idx]))
	}
	for i, p := range phis {
		t.env[p] = vals[i]
	}
}

func (e *Eng) val(t *trace, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return tConst(x.Value, x.Type())
	case *ssa.Global:
		return mk("global", x.Pkg.Pkg.Path()+"."+x.Name(), nil)
	case *ssa.Function:
		return mkFull("func", x.String(), nil, x, nil)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil)
	}
	r, ok := t.env[v]
	if !ok {
		undecided("value %s of %s is not available", v.Name(), v.Parent())
	}
	return r
}

type pushFn func(ed edge, t *trace)

func (e *Eng) block(fr *frame, b *ssa.BasicBlock, t *trace, blocks map[*ssa.BasicBlock]bool, push pushFn) {
	e.instrs(fr, b, 0, t, blocks, push)
}

func (e *Eng) instrs(fr *frame, b *ssa.BasicBlock, from int, t *trace, blocks map[*ssa.BasicBlock]bool, push pushFn) {
	for i := from; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps&1023 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
			undecided("analysis time exhausted in %s", fr.fn)
		}
		if e.steps > e.maxSteps {
			undecided("analysis budget exhausted in %s", fr.fn)
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			ed := edge{b, b.Succs[0]}
			e.enter(ed, t)
			push(ed, t)
			return
		case *ssa.If:
			c := e.val(t, x.Cond)
			e.branch(t, c, func(t *trace, v, decided bool) {
				k := 1
				if v {
					k = 0
				}
				ed := edge{b, b.Succs[k]}
				if decided && (!blocks[b.Succs[0]] || !blocks[b.Succs[1]] || shortCircuit(b.Succs[k], b.Succs[1-k], blocks)) {
					t.decided = true
				}
				e.enter(ed, t)
				push(ed, t)
			})
			return
		case *ssa.Return:
			res := make([]*Term, len(x.Results))
			for j, r := range x.Results {
				res[j] = e.val(t, r)
			}
			fr.outs = append(fr.outs, Outcome{St: t.st, Results: res, Pos: x.Pos()})
			return
		case *ssa.Panic:
			t.pos = x.Pos()
			e.panicOut(fr, t, e.val(t, x.X))
			return
		case *ssa.RunDefers:
			e.runDefers(fr, t, func(t *trace) { e.instrs(fr, b, i+1, t, blocks, push) })
			return
		case *ssa.Call:
			outs := e.call(fr, t, x)
			if len(outs) == 1 && outs[0].Panic == nil {
				t.st = outs[0].St
				t.env[x] = tuple(outs[0].Results, x.Type())
				continue
			}
			for k, o := range outs {
				nt := t
				if k < len(outs)-1 {
					nt = t.clone()
				}
				nt.st = o.St
				if o.Panic != nil {
					nt.pos = x.Pos()
					e.panicOut(fr, nt, o.Panic)
					continue
				}
				nt.env[x] = tuple(o.Results, x.Type())
				e.instrs(fr, b, i+1, nt, blocks, push)
			}
			return
		case *ssa.TypeAssert:
			if e.typeAssert(fr, b, i, x, t, blocks, push) {
				return
			}
		case *ssa.BinOp:
			t.env[x] = e.binop(t.st, x.Op, e.val(t, x.X), e.val(t, x.Y), x.X.Type(), x.Type())
		default:
			e.simple(fr, t, in)
		}
	}
}

func tuple(res []*Term, typ types.Type) *Term {
	switch len(res) {
	case 0:
		return tNil()
	case 1:
		return res[0]
	}
	return mk("tuple", "", nil, res...)
}

func (e *Eng) binop(s *State, op token.Token, x, y *Term, typ, rtyp types.Type) *Term {
	if isInteger(typ) {
		x, y = s.value(x), s.value(y)
		// division/modulo by ranges is left symbolic
		if op == token.QUO || op == token.REM {
			a, oka := x.intVal()
			b, okb := y.intVal()
			if oka && okb && b != 0 {
				if op == token.QUO {
					return tInt(a / b)
				}
				return tInt(a % b)
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		// two interface/struct constants
		if x.Op == "iface" && y.Op == "iface" && types.Identical(x.Typ, y.Typ) {
			r := e.binop(s, token.EQL, x.Args[0], y.Args[0], x.Typ, types.Typ[types.Bool])
			if op == token.NEQ {
				return tNot(r)
			}
			return r
		}
	}
	return binop(op, x, y, typ, rtyp)
}

func (e *Eng) panicOut(fr *frame, t *trace, v *Term) {
	t.panicking = v
	e.runDefers(fr, t, func(t *trace) {
		if t.panicking != nil {
			fr.outs = append(fr.outs, Outcome{St: t.st, Panic: t.panicking, Pos: t.pos})
			return
		}
		// recovered: the function returns its named results
		if fr.fn.Recover == nil {
			n := fr.fn.Signature.Results().Len()
			res := make([]*Term, n)
			for i := range res {
				res[i] = zeroOf(fr.fn.Signature.Results().At(i).Type())
			}
			fr.outs = append(fr.outs, Outcome{St: t.st, Results: res, Pos: t.pos})
			return
		}
		all := map[*ssa.BasicBlock]bool{}
		for _, b := range fr.fn.Blocks {
			all[b] = true
		}
		all[fr.fn.Recover] = true
		t.defers = nil
		e.region(fr, all, fr.fn.Recover, []*trace{t}, nil)
	})
}

func (e *Eng) runDefers(fr *frame, t *trace, k func(*trace)) {
	if len(t.defers) == 0 {
		k(t)
		return
	}
	d := t.defers[len(t.defers)-1]
	t.defers = t.defers[:len(t.defers)-1]
	owner := t
	outs := e.invokeCommon(fr, t, d.call, &d.call.Call, d.fn, d.args, owner)
	for i, o := range outs {
		nt := t
		if i < len(outs)-1 {
			nt = t.clone()
		}
		nt.st = o.St
		if o.Panic != nil {
			nt.panicking = o.Panic
		} else if o.St.cnt["recovered!"] > 0 {
			delete(o.St.cnt, "recovered!")
			nt.panicking = nil
		}
		e.runDefers(fr, nt, k)
	}
}

// branch splits a trace on a condition.
func (e *Eng) branch(t *trace, c *Term, k func(t *trace, v, decided bool)) {
	if v, ok := t.st.eval(c); ok {
		k(t, v, true)
		return
	}
	base := c
	for base.Op == "not" {
		base = base.Args[0]
	}
	if base.Op == "beq" {
		e.branch(t, base.Args[0], func(t *trace, a, _ bool) {
			e.branch(t, base.Args[1], func(t *trace, b, _ bool) {
				v, ok := t.st.eval(c)
				if !ok {
					undecided("condition %s", c)
				}
				k(t, v, false)
			})
		})
		return
	}
	n := t.clone()
	if t.st.assume(c, true) {
		k(t, true, false)
	}
	if n.st.assume(c, false) {
		k(n, false, false)
	}
}

// ---- loops ----

func (e *Eng) runLoop(fr *frame, l *loop, in []*trace) map[edge][]*trace {
	res := map[edge][]*trace{}
	for _, t := range in {
		if !e.O.Havoc {
			saved := len(fr.outs)
			if ex, ok := e.unroll(fr, l, t.clone()); ok {
				for ed, xs := range ex {
					res[ed] = append(res[ed], xs...)
				}
				continue
			}
			fr.outs = fr.outs[:saved]
		}
		for ed, xs := range e.summarise(fr, l, t) {
			res[ed] = append(res[ed], xs...)
		}
	}
	return res
}

func (e *Eng) unroll(fr *frame, l *loop, t *trace) (map[edge][]*trace, bool) {
	res := map[edge][]*trace{}
	cur := []*trace{t}
	for n := 0; len(cur) > 0; n++ {
		if n > e.O.MaxUnroll || len(cur) > 256 {
			return nil, false
		}
		for _, c := range cur {
			c.decided = false
		}
		ex := e.region(fr, l.blocks, l.header, cur, l.header)
		cur = nil
		for ed, xs := range ex {
			for _, x := range xs {
				if ed.to == l.header {
					if !x.decided {
						return nil, false
					}
					cur = append(cur, x)
				} else {
					res[ed] = append(res[ed], x)
				}
			}
		}
		cur = e.joinTraces(l.header, cur)
	}
	return res, true
}

func (e *Eng) summarise(fr *frame, l *loop, t *trace) map[edge][]*trace {
	e.Loops++
	key := shortFn(fr.fn) + "@" + itoa(l.header.Index)
	if n := t.st.fresh("loop" + key); n > 0 {
		key += "~" + itoa(n)
	}
	it := mk("it", key, types.Typ[types.Int])
	var phis []*ssa.Phi
	init := map[*ssa.Phi]*Term{}
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
			init[p] = t.env[p]
		}
	}
	lv := func(name string, typ types.Type) *Term { return mk("lv", key+"."+name, typ) }
	phiVal := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		phiVal[p] = lv(phiName(p), p.Type())
	}
	type cell struct {
		addr *Term
		typ  types.Type
	}
	cells := map[*Term]*Term{} // havocked addresses
	var order []cell
	var wild []storeRec
	saved := len(fr.outs)
	var ex map[edge][]*trace
	baseStores := len(t.st.stores)
	baseEvents := len(t.st.events)
	run := func() {
		fr.outs = fr.outs[:saved]
		n := t.clone()
		for _, p := range phis {
			n.env[p] = phiVal[p]
		}
		for _, w := range wild {
			e.store(n.st, w.addr, mk("lv", key+".wild", w.typ), w.typ, w.pos, w.fn)
		}
		for _, c := range order {
			for a := range n.st.heap {
				if a != c.addr && a.Op != "havoc" && mayAlias(c.addr, a, c.typ, nil) {
					delete(n.st.heap, a)
				}
			}
			n.st.heap[c.addr] = cells[c.addr]
		}
		n.st.stores = n.st.stores[:len(n.st.stores):len(n.st.stores)]
		ex = e.region(fr, l.blocks, l.header, []*trace{n}, l.header)
	}
	// a replaced unknown: writes recorded in terms of it are recorded again
	stale := func(lv *Term) {
		var keep []storeRec
		for _, w := range wild {
			if !mentions(w.addr, lv) {
				keep = append(keep, w)
			}
		}
		wild = keep
	}
	for round := 0; ; round++ {
		if round > 8 {
			undecided("loop %s does not stabilise", key)
		}
		run()
		changed := false
		for ed, xs := range ex {
			if ed.to != l.header {
				continue
			}
			for _, x := range xs {
				for _, sr := range x.st.stores[min(baseStores+len(wild), len(x.st.stores)):] {
					if r := rootOf(sr.addr); isFresh(r) && strings.Contains(r.Aux, key+"/") {
						continue
					}
					if _, ok := cells[sr.addr]; ok {
						continue
					}
					varying := sr.addr.contains(func(y *Term) bool {
						return (y.Op == "lv" || y.Op == "it") && strings.HasPrefix(y.Aux, key) ||
							(y.Op == "alloc" || y.Op == "call" || y.Op == "load") && strings.Contains(y.Aux, key)
					}) || (rootOf(sr.addr).Op == "call")
					if varying {
						dup := false
						for _, w := range wild {
							if w.addr == sr.addr {
								dup = true
							}
						}
						if !dup && len(wild) < 64 {
							wild = append(wild, sr)
							changed = true
						}
						continue
					}
					if sr.addr.Op == "clobber" {
						continue
					}
					// unchanged on this path and every other? then no widening is needed
					pre := t.st.heap[sr.addr]
					if pre != nil && pre == sr.val && false {
						continue
					}
					c := lv("m"+itoa(len(order)), sr.typ)
					cells[sr.addr] = c
					order = append(order, cell{sr.addr, sr.typ})
					changed = true
				}
			}
		}
		// inductive header values
		for _, p := range phis {
			cur := phiVal[p]
			if cur.Op != "lv" || cur.Aux != key+"."+phiName(p) {
				continue
			}
			same, step, ok := true, int64(0), true
			first := true
			for ed, xs := range ex {
				if ed.to != l.header {
					continue
				}
				for _, x := range xs {
					nv := x.env[p]
					if nv != cur {
						same = false
					}
					d, isC := int64(0), false
					if p.Type() != nil && isInteger(p.Type()) {
						d, isC = tSub(nv, cur).intVal()
					}
					if !isC {
						ok = false
					} else if first {
						step, first = d, false
					} else if d != step {
						ok = false
					}
				}
			}
			if same {
				phiVal[p] = init[p]
				stale(cur)
				changed = true
			} else if ok && !first {
				phiVal[p] = tAdd(init[p], fromLin(linComb(linear{co: map[*Term]int64{}}, toLin(it), step)))
				stale(cur)
				changed = true
			}
		}
		for _, c := range order {
			cur := cells[c.addr]
			if cur.Op != "lv" || c.typ == nil || !isInteger(c.typ) {
				continue
			}
			step, ok, first := int64(0), true, true
			for ed, xs := range ex {
				if ed.to != l.header {
					continue
				}
				for _, x := range xs {
					nv := x.st.heap[c.addr]
					if nv == nil {
						ok = false
						continue
					}
					d, isC := tSub(nv, cur).intVal()
					if !isC {
						ok = false
					} else if first {
						step, first = d, false
					} else if d != step {
						ok = false
					}
				}
			}
			if ok && !first {
				pre, has := t.st.heap[c.addr]
				if !has {
					pre, has = e.load(t.st, c.addr, c.typ), true
				}
				if has {
					stale(cur)
					cells[c.addr] = tAdd(pre, fromLin(linComb(linear{co: map[*Term]int64{}}, toLin(it), step)))
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	info := &LoopInfo{Key: key, It: it, Head: l.header, Pos: firstPos(l.header), Fn: fr.fn, Init: map[*Term]*Term{}}
	for _, p := range phis {
		if phiVal[p].Op == "lv" {
			info.Init[phiVal[p]] = init[p]
		}
	}
	for _, c := range order {
		if v := cells[c.addr]; v.Op == "lv" {
			pre, ok := t.st.heap[c.addr]
			if !ok && c.typ != nil {
				pre = e.load(t.st, c.addr, c.typ)
			}
			if pre != nil {
				info.Init[v] = pre
			}
		}
	}
	res := map[edge][]*trace{}
	var eds []edge
	for ed := range ex {
		eds = append(eds, ed)
	}
	sort.Slice(eds, func(i, j int) bool {
		if eds[i].from.Index != eds[j].from.Index {
			return eds[i].from.Index < eds[j].from.Index
		}
		return eds[i].to.Index < eds[j].to.Index
	})
	for _, ed := range eds {
		for _, x := range ex[ed] {
			next := map[*Term]*Term{}
			if ed.to == l.header {
				for _, p := range phis {
					next[phiVal[p]] = x.env[p]
				}
				for _, c := range order {
					next[cells[c.addr]] = x.st.heap[c.addr]
				}
			}
			info.Iters = append(info.Iters, IterTrace{Back: ed.to == l.header, St: x.st, Events: append([]*Event(nil), x.st.events[baseEvents:]...), Next: next})
		}
	}
	// returns from inside the loop are traces of the final iteration as well
	for _, o := range fr.outs[saved:] {
		info.Iters = append(info.Iters, IterTrace{St: o.St, Events: append([]*Event(nil), o.St.events[baseEvents:]...)})
	}
	// an upper bound of the iteration number that every back edge passed holds, plus one, when the loop is left
	var bounds []*Term // it - n < 0 on every back edge
	firstBack := true
	for _, tr := range info.Iters {
		if !tr.Back {
			continue
		}
		var here []*Term
		for base, rg := range tr.St.rng {
			l := toLin(base)
			k := l.co[it]
			if k != 1 && k != -1 || base.contains(func(y *Term) bool {
				return y != it && (y.Op == "lv" || y.Op == "it" || y.Op == "load" || y.Op == "call") && strings.Contains(y.Aux, key)
			}) {
				continue
			}
			// k=1: base <= hi, i.e. it - (hi - rest) <= 0; k=-1: base >= lo
			var d *Term
			if k == 1 && rg.hi < posInf {
				d = tSub(base, tInt(rg.hi))
			} else if k == -1 && rg.lo > negInf {
				d = tSub(tInt(rg.lo), base)
			} else {
				continue
			}
			here = append(here, d) // d <= 0
		}
		if firstBack {
			bounds, firstBack = here, false
			continue
		}
		var both []*Term
		for _, d := range bounds {
			for _, o := range here {
				if d == o {
					both = append(both, d)
				}
			}
		}
		bounds = both
	}
	for _, d := range bounds {
		// at the header it-1 satisfies d, or it is zero
		at := tSub(d, tInt(1)) // d(it-1) <= 0
		zero := at.subst(func(y *Term) *Term {
			if y == it {
				return tInt(0)
			}
			return nil
		})
		if t.st.lowerBound(tSub(tInt(0), zero), 2) < 0 {
			continue
		}
		for ed, xs := range ex {
			if ed.to == l.header {
				continue
			}
			for _, x := range xs {
				x.st.assume(tLt0(tSub(tInt(0), at)), false)
			}
		}
		for _, o := range fr.outs[saved:] {
			o.St.assume(tLt0(tSub(tInt(0), at)), false)
		}
	}
	le := &Event{Kind: "loop", Name: key, Loop: info, Pos: info.Pos, In: fr.fn}
	insert := func(s *State) {
		rest := append([]*Event(nil), s.events[baseEvents:]...)
		s.events = append(append(s.events[:baseEvents:baseEvents], le), rest...)
	}
	for _, ed := range eds {
		if ed.to == l.header {
			continue
		}
		for _, x := range ex[ed] {
			insert(x.st)
			x.decided = false
			res[ed] = append(res[ed], x)
		}
	}
	for i := range fr.outs[saved:] {
		insert(fr.outs[saved+i].St)
	}
	return res
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// ---- type assertions ----

func (e *Eng) typeAssert(fr *frame, b *ssa.BasicBlock, i int, x *ssa.TypeAssert, t *trace, blocks map[*ssa.BasicBlock]bool, push pushFn) bool {
	v := e.val(t, x.X)
	want := x.AssertedType
	_, isI := want.Underlying().(*types.Interface)
	get := func(s *State) *Term {
		if isI {
			return v
		}
		if v.Op == "iface" {
			return v.Args[0]
		}
		return mk("assert", "", want, v)
	}
	var cond *Term
	switch {
	case v.Op == "iface":
		cond = tBool(typeMatches(v.Typ, want))
	case v.Op == "nil":
		cond = tBool(false)
	case v.Op == "rtype":
		cond = tBool(isReflectType(want))
	case isI && v.Typ != nil && types.Identical(v.Typ, want):
		cond = tNot(tEq(v, tNil()))
	default:
		cond = mk("typeis", "", want, v)
	}
	zero := tNil()
	if !isI {
		zero = zeroOf(want)
	}
	if !x.CommaOk {
		// a failing assertion panics
		val, known := t.st.eval(cond)
		if known && !val {
			e.panicOut(fr, t, mk("sym", "type assertion", nil))
			return true
		}
		t.st.assume(cond, true)
		t.env[x] = get(t.st)
		return false
	}
	if val, known := t.st.eval(cond); known {
		if val {
			t.env[x] = mk("tuple", "", nil, get(t.st), tBool(true))
		} else {
			t.env[x] = mk("tuple", "", nil, zero, tBool(false))
		}
		return false
	}
	n := t.clone()
	if t.st.assume(cond, true) {
		t.env[x] = mk("tuple", "", nil, get(t.st), tBool(true))
		e.instrs(fr, b, i+1, t, blocks, push)
	}
	if n.st.assume(cond, false) {
		n.env[x] = mk("tuple", "", nil, zero, tBool(false))
		e.instrs(fr, b, i+1, n, blocks, push)
	}
	return true
}

// ---- plain instructions ----

func (e *Eng) allocKey(fr *frame, in ssa.Instruction) string {
	k := e.allocPath() + "#" + itoa(in.Block().Index) + "." + itoa(instrIndex(in))
	if e.inInit {
		k = initMark + k
	}
	return k
}

func (e *Eng) allocPath() string {
	if n := len(e.stack); n > 0 {
		return shortFn(e.stack[n-1])
	}
	return ""
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (e *Eng) simple(fr *frame, t *trace, in ssa.Instruction) {
	s := t.st
	switch x := in.(type) {
	case *ssa.Alloc:
		k := e.allocKey(fr, x)
		if n := s.fresh(k); n > 0 {
			k += "~" + itoa(n)
		}
		t.env[x] = mk("alloc", k, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.UnOp:
		v := e.val(t, x.X)
		switch x.Op {
		case token.MUL:
			t.env[x] = e.load(s, v, x.Type())
			if e.O.Access {
				s.emit(&Event{Kind: "load", Args: []*Term{v, t.env[x]}, Pos: x.Pos(), In: fr.fn})
			}
		case token.NOT:
			t.env[x] = tNot(v)
		case token.SUB:
			if isInteger(x.Type()) {
				t.env[x] = tSub(tInt(0), v)
			} else if v.isConst() {
				t.env[x] = tConst(constant.UnaryOp(token.SUB, v.C, 0), x.Type())
			} else {
				t.env[x] = mk("neg", "", x.Type(), v)
			}
		case token.ARROW:
			k := s.fresh("recv")
			t.env[x] = mk("recv", itoa(k), x.Type(), v)
		default:
			t.env[x] = mk("un", x.Op.String(), x.Type(), v)
		}
	case *ssa.ChangeType:
		t.env[x] = e.val(t, x.X)
	case *ssa.ChangeInterface:
		t.env[x] = e.val(t, x.X)
	case *ssa.Convert:
		t.env[x] = e.convert(s, e.val(t, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		t.env[x] = mk("conv", "", x.Type(), e.val(t, x.X))
	case *ssa.SliceToArrayPointer:
		t.env[x] = e.val(t, x.X)
	case *ssa.MakeInterface:
		t.env[x] = mk("iface", "", x.X.Type(), e.val(t, x.X))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = e.val(t, b)
		}
		t.env[x] = mkFull("closure", fn.String(), nil, fn, nil, args...)
	case *ssa.MakeMap:
		k := e.allocKey(fr, x)
		if n := s.fresh(k); n > 0 {
			k += "~" + itoa(n)
		}
		t.env[x] = mk("makemap", k, x.Type())
	case *ssa.MakeChan:
		t.env[x] = mk("makechan", e.allocKey(fr, x)+itoa(s.fresh("chan")), x.Type())
	case *ssa.MakeSlice:
		k := e.allocKey(fr, x)
		if n := s.fresh(k); n > 0 {
			k += "~" + itoa(n)
		}
		t.env[x] = mk("makeslice", k, x.Type(), s.value(e.val(t, x.Len)), s.value(e.val(t, x.Cap)))
	case *ssa.Slice:
		if e.O.Bounds {
			ev := &Event{Kind: "slice", Args: []*Term{e.val(t, x.X), nil, nil}, Pos: x.Pos(), In: fr.fn}
			if x.Low != nil {
				ev.Args[1] = s.value(e.val(t, x.Low))
			}
			if x.High != nil {
				ev.Args[2] = s.value(e.val(t, x.High))
			}
			s.emit(ev)
		}
		t.env[x] = e.slice(s, x, t)
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		t.env[x] = fieldAddr(e.val(t, x.X), fieldName(st, x.Field))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		t.env[x] = e.field(s, e.val(t, x.X), fieldName(st, x.Field), x.Type())
	case *ssa.IndexAddr:
		idx := s.value(e.val(t, x.Index))
		if e.O.Bounds {
			s.emit(&Event{Kind: "index", Args: []*Term{e.val(t, x.X), idx}, Pos: x.Pos(), In: fr.fn})
		}
		t.env[x] = indexAddr(e.val(t, x.X), idx)
	case *ssa.Index:
		v := e.val(t, x.X)
		idx := s.value(e.val(t, x.Index))
		t.env[x] = e.index(s, v, idx, x.Type())
	case *ssa.Lookup:
		t.env[x] = e.lookup(s, x, t)
		if e.O.Access {
			s.emit(&Event{Kind: "lookup", Args: []*Term{e.val(t, x.X), e.val(t, x.Index)}, Pos: x.Pos(), In: fr.fn})
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(t, x.Map), e.val(t, x.Key), e.val(t, x.Value)
		e.mapUpdate(s, m, k, v)
		s.emit(&Event{Kind: "mapupdate", Args: []*Term{m, k, v}, Pos: x.Pos(), In: fr.fn})
	case *ssa.Store:
		e.store(s, e.val(t, x.Addr), e.val(t, x.Val), x.Val.Type(), x.Pos(), fr.fn)
		if e.O.Access {
			s.emit(&Event{Kind: "store", Args: []*Term{e.val(t, x.Addr), e.val(t, x.Val)}, Pos: x.Pos(), In: fr.fn})
		}
	case *ssa.Range:
		m := e.val(t, x.X)
		t.env[x] = mk("range", itoa(s.fresh("range")), nil, append([]*Term{m}, e.mapKeys(s, m)...)...)
	case *ssa.Next:
		r := e.val(t, x.Iter)
		n := s.fresh("next" + r.Aux)
		tt := x.Type().(*types.Tuple)
		key := r.Aux + "." + itoa(n)
		if keys := r.Args[1:]; len(keys) > 0 {
			if n >= len(keys) {
				t.env[x] = mk("tuple", "", nil, tBool(false), zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type()))
				break
			}
			if v, ok := s.heap[mk("mapelem", "", nil, r.Args[0], keys[n])]; ok {
				t.env[x] = mk("tuple", "", nil, tBool(true), keys[n], v)
				break
			}
		}
		t.env[x] = mk("tuple", "", nil,
			mk("nextok", key, types.Typ[types.Bool], r),
			mk("nextkey", key, tt.At(1).Type(), r),
			mk("nextval", key, tt.At(2).Type(), r))
	case *ssa.Extract:
		v := e.val(t, x.Tuple)
		if v.Op == "tuple" || v.Op == "struct" {
			t.env[x] = v.Args[x.Index]
		} else {
			t.env[x] = mk("extract", itoa(x.Index), x.Type(), v)
		}
	case *ssa.Defer:
		var fn *Term
		var args []*Term
		if x.Call.IsInvoke() {
			fn = e.val(t, x.Call.Value)
		} else {
			fn = e.val(t, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			args = append(args, e.val(t, a))
		}
		t.defers = append(t.defers, deferred{fn: fn, call: x, args: args})
	case *ssa.Go:
		s.emit(&Event{Kind: "go", Pos: x.Pos(), In: fr.fn})
	case *ssa.Send:
		s.emit(&Event{Kind: "send", Pos: x.Pos(), In: fr.fn})
	default:
		undecided("instruction %T (%s) at %s", in, in, e.P.pos(in.Pos()))
	}
}

func (e *Eng) index(s *State, v, idx *Term, typ types.Type) *Term {
	return e.elem(s, v, idx, typ)
}

func (e *Eng) slice(s *State, x *ssa.Slice, t *trace) *Term {
	base := e.val(t, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = s.value(e.val(t, x.Low))
	}
	if x.High != nil {
		hi = s.value(e.val(t, x.High))
	}
	if str, ok := base.strVal(); ok {
		a, b := int64(0), int64(len(str))
		oka, okb := true, true
		if lo != nil {
			a, oka = lo.intVal()
		}
		if hi != nil {
			b, okb = hi.intVal()
		}
		if oka && okb && a >= 0 && a <= b && b <= int64(len(str)) {
			return tStr(str[a:b])
		}
	}
	return e.mkSlice(s, base, lo, hi)
}

func (e *Eng) mkSlice(s *State, base, lo, hi *Term) *Term {
	if lo != nil {
		if n, ok := lo.intVal(); ok && n == 0 {
			lo = nil
		}
	}
	if base.Op == "slice" {
		blo, bhi := base.Args[1], base.Args[2]
		if blo != nil {
			if hi != nil {
				hi = tAdd(hi, blo)
			}
			if lo == nil {
				lo = blo
			} else {
				lo = tAdd(lo, blo)
			}
		}
		if hi == nil {
			hi = bhi
		}
		base = base.Args[0]
	}
	if hi != nil && hi == e.lenOf(s, base) {
		hi = nil
	}
	if lo == nil && hi == nil && base.Op != "alloc" && base.Op != "global" && base.Op != "fieldaddr" && base.Op != "indexaddr" {
		return base
	}
	return mk("slice", "", nil, base, lo, hi)
}

func (e *Eng) convert(s *State, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	fb, okf := fu.(*types.Basic)
	tb, okt := tu.(*types.Basic)
	if isPtrLike(from) && isPtrLike(to) {
		return v
	}
	if okf && okt {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			fr, tr := s.rangeOf(v), typeRange(to)
			if tr.lo <= fr.lo && fr.hi <= tr.hi {
				return v
			}
			if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
				if fb.Kind() == types.Int || fb.Kind() == types.Int64 {
					return v
				}
			}
			if tb.Kind() == types.Uintptr || fb.Kind() == types.Uintptr {
				return v
			}
			if c, ok := v.intVal(); ok && c >= 0 {
				_ = c
			}
			return mk("conv", "", to, v)
		case v.isConst() && v.C.Kind() != constant.Bool && v.C.Kind() != constant.String && tb.Info()&types.IsFloat != 0:
			return tConst(v.C, to)
		case v.isConst() && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := v.intVal(); ok {
				return tStr(string(rune(n)))
			}
		case types.Identical(fu, tu):
			return v
		}
		return mk("conv", "", to, v)
	}
	// string <-> []byte
	if isString(from) && isByteSlice(to) || isByteSlice(from) && isString(to) {
		if v.Op == "conv" && v.Aux == "bytes" && types.Identical(v.Args[0].Typ0(), tu) {
			return v.Args[0]
		}
		if v.Op == "nil" && isString(to) {
			return tStr("")
		}
		if isByteSlice(from) {
			if es, ok := e.elems(s, v, types.Typ[types.Uint8]); ok && len(es) < 64 {
				bs := []byte{}
				for _, x := range es {
					n, ok := s.value(x).intVal()
					if !ok {
						bs = nil
						break
					}
					bs = append(bs, byte(n))
				}
				if bs != nil {
					return tStr(string(bs))
				}
			}
		}
		return mk("conv", "bytes", to, v)
	}
	if types.Identical(fu, tu) {
		return v
	}
	return mk("conv", "", to, v)
}

// Typ0 is the type of a term when it is recorded.
func (t *Term) Typ0() types.Type {
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ.Underlying()
}

// ---- maps ----

func (e *Eng) mapUpdate(s *State, m, k, v *Term) {
	k = s.value(k)
	for a := range s.heap {
		if a.Op == "mapelem" && a.Args[0] == m && a.Args[1] != k && !distinctKeys(a.Args[1], k) {
			delete(s.heap, a)
		}
		if a.Op == "mapelem" && a.Args[0] != m && !(isFresh(a.Args[0]) || isFresh(m)) {
			delete(s.heap, a)
		}
	}
	s.heap[mk("mapelem", "", nil, m, k)] = v
	s.cnt["map"+itoa(m.id)]++
	if !distinctAllowed(k) {
		s.cnt["mapsym"+itoa(m.id)]++
	}
}

// mapKeys are the keys of a map all of whose entries are known, if its iteration needs no summary.
func (e *Eng) mapKeys(s *State, m *Term) []*Term {
	if m.Op != "makemap" || e.isHavocked(s, m) || s.cnt["mapsym"+itoa(m.id)] != 0 || e.globals[mk("mapmark", "", nil, m)] != nil || e.globals[m] != nil {
		return nil
	}
	var keys []*Term
	for a := range s.heap {
		if a.Op == "mapelem" && a.Args[0] == m {
			keys = append(keys, a.Args[1])
		}
	}
	if len(keys) >= e.O.MaxUnroll {
		return nil
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	return keys
}

func distinctAllowed(k *Term) bool {
	return k.isConst() || k.Op == "rtype" || k.Op == "iface" && k.Args[0].isConst()
}

func distinctKeys(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return true
	}
	if a.Op == "iface" && b.Op == "iface" {
		if !types.Identical(a.Typ, b.Typ) {
			return true
		}
		return distinctKeys(a.Args[0], b.Args[0])
	}
	if a.Op == "rtype" && b.Op == "rtype" {
		return true
	}
	return false
}

func (e *Eng) lookup(s *State, x *ssa.Lookup, t *trace) *Term {
	m, k := e.val(t, x.X), s.value(e.val(t, x.Index))
	if isString(x.X.Type()) {
		return e.elem(s, m, k, x.Type())
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	var v, ok *Term
	if hv, found := s.heap[mk("mapelem", "", nil, m, k)]; found {
		v, ok = hv, tBool(true)
	} else if gv, state := e.globalMap(m, k); state != 0 && s.cnt["map"+itoa(m.id)] == 0 {
		if state > 0 {
			v, ok = gv, tBool(true)
		} else {
			v, ok = zeroOf(vt), tBool(false)
		}
	} else if m.Op == "nil" {
		v, ok = zeroOf(vt), tBool(false)
	} else if m.Op == "makemap" && !e.isHavocked(s, m) && s.cnt["mapsym"+itoa(m.id)] == 0 && (distinctAllowed(k) || s.cnt["map"+itoa(m.id)] == 0) && e.globals[mk("mapmark", "", nil, m)] == nil {
		v, ok = zeroOf(vt), tBool(false)
	} else {
		ep := s.cnt["map"+itoa(m.id)]
		aux := ""
		if ep > 0 {
			aux = "!" + itoa(ep)
		}
		v = mk("lookup", aux, vt, m, k)
		ok = mk("lookupok", aux, types.Typ[types.Bool], m, k)
	}
	if x.CommaOk {
		return mk("tuple", "", nil, v, ok)
	}
	return v
}

// globalMap resolves a lookup in a map that is only filled during package initialisation:
// 1 found, -1 known absent, 0 unknown.
func (e *Eng) globalMap(m, k *Term) (*Term, int) {
	if m.Op != "makemap" || e.globals == nil || e.globals[mk("mapmark", "", nil, m)] == nil {
		return nil, 0
	}
	if v, ok := e.globals[mk("mapelem", "", nil, m, k)]; ok {
		return v, 1
	}
	if distinctAllowed(k) {
		return nil, -1
	}
	return nil, 0
}

func (e *Eng) globalVal(addr *Term) (*Term, bool) {
	r := rootOf(addr)
	if e.inInit || e.mutable[r.Aux] {
		return nil, false
	}
	v, ok := e.globals[addr]
	return v, ok
}
