package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C35", Level: "other", MinObs: 24,
		Explanation: "Every production of the parser is analysed over all choices of the token that matches next, with the others opaque and its loops for an arbitrary round. The position of the text at hand (or the length of a text cut out of it) is followed in a two-valued domain, nothing or something consumed since the start of the production (of the round): no chain of calls leads back to a production without consuming, and every round of a loop consumes, or counts towards a limit.",
		Assumptions: []string{"a token that matches is at least one character long, and the matchers of the parsly library end", "text between blanks that is skipped belongs to the following token"},
		Run:         runC35})
}

type endWorld struct {
	c       *Ctx
	w       *grammarWorld
	takes   map[string]bool // productions that consume whenever they succeed
	edges   map[[2]string]string
	loops   map[string]bool // loops that were judged by what they consume
	counted map[*ssa.Function]map[token.Pos]bool
}

func runC35(c *Ctx) {
	w := c.grammar()
	w.havoc = true
	w.sure = map[string]bool{"SpecialSign": true}
	deep := 0
	if c.thorough() {
		deep = 2
	}
	c.matcherRule(w, "progress", "SpecialSign", classes("#$"), 4+deep, 4, func([]byte) int { return someBytes })
	x := &endWorld{c: c, w: w, takes: map[string]bool{}, loops: map[string]bool{}}
	var prods []string
	for f, n := range w.prods {
		if n == "extractArgument" || n == "extractForSegment" {
			continue
		}
		sig := f.Signature
		ok := false
		for i := 0; i < sig.Params().Len(); i++ {
			ok = ok || types.Identical(sig.Params().At(i).Type(), types.NewPointer(w.curT))
		}
		if ok {
			prods = append(prods, n)
			x.takes[n] = errResult(sig)
		}
	}
	sort.Strings(prods)
	var bad map[string][]string
	done := map[string]bool{}
	var failed map[string]interface{}
	// the productions that consume on success: the greatest set that keeps itself up
	for changed := true; changed; {
		changed = false
		x.edges = map[[2]string]string{}
		bad, failed = map[string][]string{}, map[string]interface{}{}
		for _, n := range append([]string{"Parse"}, prods...) {
			n := n
			takes := true
			func() {
				defer func() {
					if r := recover(); r != nil {
						failed[n] = r
					}
				}()
				x.production(n, prods, func(why string) { bad[n] = append(bad[n], why) }, func() { takes = false })
			}()
			if x.takes[n] && !takes {
				x.takes[n] = false
				changed = true
			}
			done[n] = true
		}
	}
	for _, n := range append([]string{"Parse"}, prods...) {
		n := n
		at := c.P.fnPos(c.P.fn("parser", n))
		c.Check("ending", n, at, func() {
			if r := failed[n]; r != nil {
				panic(r)
			}
			seen := map[string]bool{}
			for _, b := range bad[n] {
				if !seen[b] {
					seen[b] = true
					c.FailAt(at, "%s", b)
				}
			}
			if cyc := x.cycle(n); cyc != "" {
				c.FailAt(at, "%s", cyc)
			}
		})
	}
	for _, f := range c.moduleFuncs() {
		p := strings.TrimPrefix(fnPkg(f), modPath)
		if !strings.HasPrefix(p, "/parser") || f.Blocks == nil {
			continue
		}
		for i, l := range ssaLoops(f) {
			l, f := l, f
			at := c.P.pos(l.pos(f))
			name := shortFn(f) + " loop"
			if i > 0 {
				name += " " + itoa(i+1)
			}
			c.Check("rounds", name, at, func() {
				if !x.loops[l.key(f)] && !l.counts() {
					c.FailAt(at, "whether the loop ends is not decided: it counts towards no limit, and no production runs it")
				}
			})
		}
	}
}

// cycle: a chain of calls from n back to n that consumes nothing.
func (x *endWorld) cycle(n string) string {
	type step struct {
		at   string
		path []string
	}
	seen := map[string]bool{}
	todo := []step{{n, []string{n}}}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		var next []string
		for e := range x.edges {
			if e[0] == s.at {
				next = append(next, e[1])
			}
		}
		sort.Strings(next)
		for _, m := range next {
			path := append(append([]string(nil), s.path...), m)
			if m == n {
				return "reading the same text again without end: " + strings.Join(path, " calls ") + " (" + x.edges[[2]string{s.at, m}] + ")"
			}
			if !seen[m] {
				seen[m] = true
				todo = append(todo, step{m, path})
			}
		}
	}
	return ""
}

// track follows how much was consumed since a start: 0 nothing or something, 1 something, -1 not known.
type track struct {
	x    *endWorld
	pos  map[*Term]map[*Term]int // cursor -> position -> consumed
	now  map[*Term]int           // cursor -> consumed at the last step
	text map[*Term]textAt        // offset of a match -> where
	st   *State
}

type textAt struct {
	f int
}

func (x *endWorld) newTrack(st *State) *track {
	return &track{x: x, pos: map[*Term]map[*Term]int{}, now: map[*Term]int{}, text: map[*Term]textAt{}, st: st}
}

func (t *track) clone() *track {
	r := t.x.newTrack(t.st)
	for c, m := range t.pos {
		r.pos[c] = map[*Term]int{}
		for k, v := range m {
			r.pos[c][k] = v
		}
	}
	for c, v := range t.now {
		r.now[c] = v
	}
	for c, v := range t.text {
		r.text[c] = v
	}
	return r
}

// at is what was consumed when the cursor is at the position.
func (t *track) at(cur, pos *Term) int {
	m := t.pos[cur]
	if m == nil {
		m = map[*Term]int{}
		t.pos[cur] = m
		t.now[cur] = 0
		if isFresh(cur) {
			t.now[cur] = t.input(cur)
		}
		m[pos] = t.now[cur]
	}
	if f, ok := m[pos]; ok {
		return f
	}
	if pos.Op == "lv" || pos.Op == "sym" && strings.HasPrefix(pos.Aux, "pos#") { // behind an optional token, a production or a round
		m[pos] = t.now[cur]
		return t.now[cur]
	}
	best := -1
	for p, f := range m { // a known position and some characters
		if n, ok := tSub(pos, p).intVal(); ok && n >= 0 {
			if n > 0 {
				f = 1
			}
			if f > best {
				best = f
			}
		}
	}
	return best
}

// input: how much shorter the text of a new cursor is than the one at the start.
func (t *track) input(cur *Term) int {
	in := t.st.value(t.x.w.e.load(t.st, fieldAddr(cur, "Input"), nil))
	return t.textOf(in)
}

func (t *track) textOf(in *Term) int {
	for in.Op == "conv" {
		in = t.st.value(in.Args[0])
	}
	if isCall(in, "strings.TrimSpace") || isCall(in, "bytes.TrimSpace") || isCall(in, "strings.Trim") {
		return t.textOf(t.st.value(in.Args[0]))
	}
	switch in.Op {
	case "text":
		if a, ok := t.text[in.Args[1]]; ok {
			return a.f
		}
		return -1
	case "slice":
		base := t.st.value(in.Args[0])
		lo, hi := t.st.value(in.Args[1]), t.st.value(in.Args[2])
		cur := t.x.w.cursor
		if base == t.st.value(t.x.w.e.load(t.st, fieldAddr(cur, "Input"), nil)) {
			return t.at(cur, lo)
		}
		f := t.textOf(base)
		if f < 0 {
			return f
		}
		if n, ok := lo.intVal(); ok && n > 0 {
			return 1
		}
		if n, ok := tSub(t.x.w.e.lenOf(t.st, base), hi).intVal(); ok && n > 0 {
			return 1
		}
		return f
	case "sym":
		if in == t.st.value(t.x.w.e.load(t.st, fieldAddr(t.x.w.cursor, "Input"), nil)) {
			return 0
		}
	}
	return -1
}

// production follows every path of a production.
func (x *endWorld) production(name string, opaque []string, bad func(string), idle func()) {
	w := x.w
	f := x.c.P.fn("parser", name)
	w.run(f, opaque, func(s *State) []*Term {
		var args []*Term
		for _, p := range f.Params {
			switch {
			case types.Identical(p.Type(), types.NewPointer(w.curT)):
				args = append(args, w.cursor)
			case p.Type().String() == "[]*"+w.tokT.String():
				args = append(args, w.tokens(s, "String", "Boolean", "Number"))
			case types.Identical(p.Type(), types.NewSlice(types.Typ[types.Uint8])):
				args = append(args, symT("input", p.Type()))
			default:
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.IsInterface(pt.Elem()) {
					cell := w.gcell(s)
					s.heap[cell] = symT("old", w.exprT)
					args = append(args, cell)
				} else {
					args = append(args, symPtrOr("arg:"+p.Name(), p.Type(), s))
				}
			}
		}
		return args
	}, func(p *gpath) {
		if p.o.Panic != nil {
			return
		}
		t := x.newTrack(p.o.St)
		if name != "Parse" {
			t.at(w.cursor, mk("sym", "pos#start", types.Typ[types.Int]))
		}
		t.walk(p, name, p.o.St.events, bad, true)
		if name == "Parse" {
			return
		}
		end := p.o.St.value(w.e.load(p.o.St, fieldAddr(w.cursor, "Pos"), types.Typ[types.Int]))
		switch at := t.at(w.cursor, end); {
		case at < 0:
			bad("the text is left at " + end.String() + ", which may be before the start")
		case at == 0 && p.err() != 1:
			idle()
		}
	})
}

// walk follows the steps of a path.
func (t *track) walk(p *gpath, name string, evs []*Event, bad func(string), edges bool) {
	w := t.x.w
	for _, ev := range evs {
		switch ev.Kind {
		case "match":
			cur, off, before := ev.Args[0], ev.Args[1], t.st.value(ev.Args[2])
			f := t.at(cur, before)
			t.text[off] = textAt{f}
			t.now[cur] = f
			if ev.Name != mInvalid && ev.Name != mEOF {
				t.now[cur] = 1
				t.pos[cur][tAdd(off, mk("sym", "size"+off.Aux, types.Typ[types.Int]))] = 1
			}
		case "prod":
			cur := w.cursorArg(ev)
			if cur == nil {
				continue
			}
			before := w.posAt[ev]
			f := t.at(cur, t.st.value(before))
			if edges && f != 1 {
				e := [2]string{name, ev.Name}
				why := "at " + t.x.c.P.pos(ev.Pos)
				t.x.edges[e] = why
			}
			t.now[cur] = f
			if f < 0 {
				t.now[cur] = 0
			}
			if t.x.takes[ev.Name] {
				err := evErr(ev)
				nn, known := isNonNilErr(t.st, err)
				if known && !nn || !known && p.o.resLen() > 0 && p.o.R(p.o.resLen()-1) == err {
					t.now[cur] = 1
				}
			}
		case "loop":
			for _, it := range ev.Loop.Iters {
				in := t.clone()
				in.st = it.St
				in.walk(p, name, it.Events, bad, edges)
				if !it.Back {
					continue
				}
				l := loopAt(ev.Loop)
				if l != nil && l.counts() {
					continue
				}
				t.x.loops[loopKey(ev.Loop)] = true
				// from the start of the round
				r := t.x.newTrack(it.St)
				r.text = t.clone().text
				r.walk(p, name, it.Events, func(string) {}, false)
				ok := false
				for cur := range r.pos {
					_, outer := t.pos[cur]
					if !outer && cur != w.cursor && isFresh(cur) && name != "Parse" {
						continue
					}
					end := it.St.value(w.e.load(it.St, fieldAddr(cur, "Pos"), types.Typ[types.Int]))
					ok = ok || r.at(cur, end) == 1
				}
				if !ok {
					bad("a round of the loop at " + t.x.c.P.pos(ev.Loop.Pos) + " may consume nothing")
				}
			}
		}
	}
}

// ssaLoop is a natural loop.
type ssaLoop struct {
	head    *ssa.BasicBlock
	latches []*ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
}

func ssaLoops(f *ssa.Function) (r []*ssaLoop) {
	for _, h := range f.Blocks {
		var l *ssaLoop
		for _, b := range h.Preds {
			if h.Dominates(b) {
				if l == nil {
					l = &ssaLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				}
				l.latches = append(l.latches, b)
				todo := []*ssa.BasicBlock{b}
				for len(todo) > 0 {
					x := todo[len(todo)-1]
					todo = todo[:len(todo)-1]
					if !l.body[x] {
						l.body[x] = true
						todo = append(todo, x.Preds...)
					}
				}
			}
		}
		if l != nil {
			r = append(r, l)
		}
	}
	return
}

func (l *ssaLoop) pos(f *ssa.Function) token.Pos {
	var r token.Pos
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (!r.IsValid() || p < r) {
				r = p
			}
		}
	}
	if !r.IsValid() {
		r = f.Pos()
	}
	return r
}

func (l *ssaLoop) key(f *ssa.Function) string { return f.String() + "#" + itoa(l.head.Index) }

func loopAt(i *LoopInfo) *ssaLoop {
	if i.Fn == nil {
		return nil
	}
	for _, l := range ssaLoops(i.Fn) {
		if l.head == i.Head {
			return l
		}
	}
	return nil
}

func loopKey(i *LoopInfo) string { return i.Fn.String() + "#" + itoa(i.Head.Index) }

// counts: every round moves a counter in one direction, and the loop is left where it passes a limit.
func (l *ssaLoop) counts() bool {
	everyRound := func(b *ssa.BasicBlock) bool {
		for _, x := range l.latches {
			if !b.Dominates(x) {
				return false
			}
		}
		return true
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok && everyRound(b) { // range over a text or a map
				return true
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !everyRound(b) || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		stays := l.body[b.Succs[0]]
		for i, v := range []ssa.Value{cond.X, cond.Y} {
			limit := cond.Y
			op := cond.Op
			if i == 1 {
				limit = cond.X
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
			}
			if !stays {
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
			}
			phi, off := l.counter(v)
			_ = off
			if phi == nil || !l.fixed(limit, 0) {
				continue
			}
			lo, hi, ok := l.stepOf(phi)
			if !ok {
				continue
			}
			switch op {
			case token.LSS, token.LEQ:
				if lo > 0 {
					return true
				}
			case token.GTR, token.GEQ:
				if hi < 0 {
					return true
				}
			case token.NEQ:
				if lo == 1 && hi == 1 || lo == -1 && hi == -1 {
					return true
				}
			}
		}
	}
	return false
}

// counter: v is a variable of the loop, or one plus a constant.
func (l *ssaLoop) counter(v ssa.Value) (*ssa.Phi, int64) {
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == l.head {
			return v, 0
		}
	case *ssa.BinOp:
		if k, ok := constOf(v.Y); ok && (v.Op == token.ADD || v.Op == token.SUB) {
			if v.Op == token.SUB {
				k = -k
			}
			p, o := l.counter(v.X)
			return p, o + k
		}
	case *ssa.Convert:
		return l.counter(v.X)
	}
	return nil, 0
}

func constOf(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return c.Int64(), true
		}
	}
	return 0, false
}

// stepOf is the least and the greatest change of the variable in a round.
func (l *ssaLoop) stepOf(phi *ssa.Phi) (lo, hi int64, ok bool) {
	first := true
	for i, p := range phi.Block().Preds {
		if !l.body[p] {
			continue
		}
		a, b, k := l.change(phi.Edges[i], phi, map[ssa.Value]bool{})
		if !k {
			return 0, 0, false
		}
		if first || a < lo {
			lo = a
		}
		if first || b > hi {
			hi = b
		}
		first = false
	}
	return lo, hi, !first
}

func (l *ssaLoop) change(v ssa.Value, phi *ssa.Phi, on map[ssa.Value]bool) (lo, hi int64, ok bool) {
	if v == phi {
		return 0, 0, true
	}
	if on[v] {
		return 0, 0, false
	}
	on[v] = true
	defer delete(on, v)
	switch v := v.(type) {
	case *ssa.BinOp:
		k, isC := constOf(v.Y)
		if !isC {
			return 0, 0, false
		}
		a, b, ok := l.change(v.X, phi, on)
		switch v.Op {
		case token.ADD:
			return a + k, b + k, ok
		case token.SUB:
			return a - k, b - k, ok
		}
	case *ssa.Phi:
		if !l.body[v.Block()] {
			return 0, 0, false
		}
		for i, e := range v.Edges {
			a, b, k := l.change(e, phi, on)
			if !k {
				return 0, 0, false
			}
			if i == 0 || a < lo {
				lo = a
			}
			if i == 0 || b > hi {
				hi = b
			}
		}
		return lo, hi, len(v.Edges) > 0
	}
	return 0, 0, false
}

// fixed: the value is the same in every round.
func (l *ssaLoop) fixed(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return l.fixed(v.X, d+1)
	case *ssa.BinOp:
		return l.fixed(v.X, d+1) && l.fixed(v.Y, d+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return l.fixed(v.Call.Args[0], d+1)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL || !l.fixed(v.X, d+1) {
			return false
		}
		// nothing in the loop writes a value of this type
		for b := range l.body {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && types.Identical(st.Val.Type(), v.Type()) {
					return false
				}
			}
		}
		return true
	case *ssa.FieldAddr:
		return l.fixed(v.X, d+1)
	}
	return false
}
