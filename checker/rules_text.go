package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C12", Level: "other", MinObs: 16,
		Explanation: "One arbitrary iteration of the loop that splits a template is analysed for every kind of marker and every outcome of reading what follows it: the text before the marker is appended as it is, a selector or directive that was read is appended once, one that can't be read is appended as the text it was written with, an escaped block as its inner text, a comment not at all, and reading goes on exactly behind it; errors of the block builder are returned and unterminated blocks are errors. The matchers that find markers and line ends are analysed for every sequence of byte classes up to a bounded length; the appended text is followed through compilation into the output, the source text of an undefined variable as well.",
		Assumptions: []string{"the token matchers of the parsly library match what they are constructed for, the first matching candidate wins"},
		Run:         runC12})
}

func runC12(c *Ctx) {
	c.textSplit()
	c.textMatchers()
	c.textOutput()
}

func (c *Ctx) textSplit() {
	w := c.grammar()
	w.havoc = true
	w.sure = map[string]bool{"SpecialSign": true, "NewLine": true}
	f := c.P.fn("parser", "Parse")
	at := c.P.fnPos(f)
	opaque := w.otherProds()
	bt := c.P.typ("parser", "Builder")
	ms := types.NewMethodSet(types.NewPointer(bt))
	for i := 0; i < ms.Len(); i++ { // the methods that take a statement
		m := ms.At(i).Obj().(*types.Func)
		sig := m.Type().(*types.Signature)
		n := sig.Params().Len()
		if n == 0 || !types.Identical(sig.Params().At(n-1).Type(), c.P.typ("ast", "Statement")) {
			continue
		}
		g := c.P.fnOpt("parser", "Builder."+m.Name())
		if g == nil {
			continue
		}
		w.prods[g] = "Builder." + m.Name()
		opaque = append(opaque, "Builder."+m.Name())
	}
	size := c.P.fn("parser", "Builder.BufferSize")
	groups := map[string]string{}
	var order []string
	note := func(key, bad string) {
		if _, ok := groups[key]; !ok {
			order = append(order, key)
			groups[key] = ""
		}
		if bad != "" && groups[key] == "" {
			groups[key] = bad
		}
	}
	done := false
	c.Check("split", "paths of Parse", at, func() {
		w.run(f, opaque, func(s *State) []*Term {
			return []*Term{symT("input", types.NewSlice(types.Typ[types.Uint8]))}
		}, func(p *gpath) {
			if p.o.Panic != nil {
				note("end of the template", "the parser crashes")
				return
			}
			// the last iteration and what follows the loop
			last := &gpath{w: w, o: p.o, txt: map[*Term]int{}}
			from := 0
			var loop *LoopInfo
			for i, ev := range p.o.St.events {
				if ev.Kind != "loop" {
					continue
				}
				from, loop = i+1, ev.Loop
				for _, it := range ev.Loop.Iters {
					if it.Back {
						q := &gpath{w: w, o: Outcome{St: it.St}, txt: map[*Term]int{}}
						q.collect(it.Events, false)
						key, bad := c.textStep(w, q, ev.Loop, true)
						note(key, bad)
					}
				}
			}
			last.collect(p.o.St.events[from:], false)
			key, bad := c.textStep(w, last, loop, false)
			note(key, bad)
			// a failed builder step or an open block is an error, nothing else is
			failed := false
			var b *Term
			for _, g := range last.evs {
				if strings.HasPrefix(g.name, "Builder.") && g.failed {
					failed = true
				}
			}
			for _, ev := range allEvents(p.o.St.events) {
				if ev.Kind == "prod" && strings.HasPrefix(ev.Name, "Builder.") {
					b = ev.Args[0]
				}
			}
			switch e := p.err(); {
			case failed && e != 1:
				note("errors", "an error of the block builder is dropped")
			case e == -1:
				note("errors", "whether an error is returned is unknown")
			case !failed && b != nil:
				for _, o := range c.E.Call(p.o.St, size, []*Term{b}, nil) {
					open, known := o.St.eval(tEq0(o.R(0)))
					if !known || open == (e == 1) {
						note("errors", "a template whose blocks are not terminated is accepted or another one is not")
					}
				}
				note("errors", "")
			}
		})
		done = true
	})
	if !done {
		return
	}
	for _, k := range []string{"end of the template", "comment", "selector", "selector that can't be read", "directive", "directive that can't be read", "escaped block", "errors"} {
		if _, ok := groups[k]; !ok {
			k := k
			c.Check("split", k, at, func() { c.FailAt(at, "no step of the parser reads a %s", k) })
		}
	}
	for _, k := range order {
		k := k
		c.Check("split", k, at, func() {
			if groups[k] != "" {
				c.FailAt(at, "%s: %s", k, groups[k])
			}
		})
	}
}

func allEvents(evs []*Event) (r []*Event) {
	for _, ev := range evs {
		r = append(r, ev)
		if ev.Kind == "loop" {
			for _, it := range ev.Loop.Iters {
				r = append(r, allEvents(it.Events)...)
			}
		}
	}
	return
}

// textStep judges one iteration of the splitting loop.
func (c *Ctx) textStep(w *grammarWorld, q *gpath, loop *LoopInfo, back bool) (key, bad string) {
	st := q.o.St
	it := types.Typ[types.Int]
	k := &gwalk{p: q, ok: map[*gev]bool{}}
	steps := q.steps()
	fail := func(key, format string, a ...interface{}) (string, string) {
		return key, fmt.Sprintf(format, a...) + " (" + steps + ")"
	}
	if len(q.evs) == 0 {
		if back {
			return fail("end of the template", "nothing is read")
		}
		in := symT("input", types.NewSlice(types.Typ[types.Uint8]))
		if v, known := st.eval(tEq0(w.e.lenOf(st, in))); known && v {
			return "end of the template", ""
		}
		if loop != nil {
			for _, t := range loop.Iters {
				for _, ev := range t.Events {
					if ev.Kind == "match" {
						p := w.e.load(st, fieldAddr(ev.Args[0], "Pos"), it)
						if v, known := st.eval(tLt0(tSub(p, w.e.lenOf(st, in)))); known && !v {
							return "end of the template", ""
						}
						return fail("end of the template", "reading stops before the end")
					}
				}
			}
		}
		return fail("end of the template", "a template that is not empty is not read")
	}
	if k.tok(q.sx(q.evs[0].cursor), "SpecialSign") == "" {
		if !q.evs[0].match {
			return fail("end of the template", "something is read before the next marker is searched")
		}
		if q.evs[0].tok == mEOF || q.evs[0].tok == mInvalid {
			return "end of the template", ""
		}
		return fail("end of the template", "the next marker is not searched")
	}
	m := q.evs[0]
	cur := m.cursor
	off := m.ev.Args[1]
	behind := tAdd(off, mk("sym", "size"+off.Aux, it))
	input := symT("input", types.NewSlice(types.Typ[types.Uint8]))
	if loadField(w, st, cur, "Input") != input {
		return fail("end of the template", "the template is not what is read")
	}
	pos := st.value(w.e.load(st, fieldAddr(cur, "Pos"), it))
	if loop == nil {
		return fail("end of the template", "the template is not read by a loop")
	}
	if at, n := m.ev.Args[2], loop.Init[m.ev.Args[2]]; n == nil || !sameInt(st, n, tInt(0)) {
		return fail("end of the template", "the next marker is searched from %s", at)
	}
	char := func(p *Term, r rune) (bool, bool) {
		return st.eval(tEq0(tSub(w.e.load(st, indexAddr(input, p), types.Universe.Lookup("byte").Type()), tInt(int64(r)))))
	}
	// the next statement given to the builder
	type pushed struct {
		g    *gev
		code *Term
		what string
	}
	push := func() *pushed {
		g := k.skip()
		if g == nil || g.match || !strings.HasPrefix(g.name, "Builder.") {
			return nil
		}
		k.i++
		sig := g.ev.Callee.Signature.Params()
		p := &pushed{g: g, what: q.sx(g.ev.Args[sig.Len()])}
		if sig.Len() > 1 {
			p.code = g.ev.Args[1]
		}
		return p
	}
	plain := func(p *pushed) bool {
		if p.code == nil {
			return true
		}
		n, ok := p.code.intVal()
		if !ok {
			return false
		}
		ti := w.byCode[n]
		return ti == nil || ti.name != "If" && ti.name != "ElseIf" && ti.name != "Else" && ti.name != "End"
	}
	rest := func() string {
		if g := k.skip(); g != nil {
			if g.match {
				return g.tok
			}
			return g.name
		}
		return ""
	}
	text := "text(SpecialSign)"
	// the end of the template
	if more, known := st.eval(tLt0(tSub(behind, w.e.lenOf(st, input)))); !known {
		return fail("end of the template", "whether the template ends is not decided")
	} else if !more {
		p := push()
		if p == nil || p.what != "Append("+text+")" || !plain(p) {
			return fail("end of the template", "the last text is not appended as it is")
		}
		if r := rest(); r != "" {
			return fail("end of the template", "then %s follows", r)
		}
		if back && !sameInt(st, pos, behind) {
			return fail("end of the template", "the text is read again")
		}
		return "end of the template", ""
	}
	// the text before the marker
	empty, known := st.eval(tEq0(tSub(w.e.lenOf(st, mk("text", "", types.Typ[types.String], cur, off)), tInt(1))))
	before := "slice(" + text + ",0,-1)"
	key = "text before a marker"
	if g := k.skip(); g != nil && !g.match && strings.HasPrefix(g.name, "Builder.") && !(known && empty) {
		p := push()
		if p.what != "Append("+before+")" || !plain(p) {
			return fail(key, "%s is appended instead of the text", p.what)
		}
		if p.g.failed {
			if back {
				return fail("errors", "an error of the block builder is dropped")
			}
			return key, ""
		}
	} else if !known || !empty {
		return fail(key, "the text is not appended")
	}
	dollar, k1 := char(tSub(behind, tInt(1)), '$')
	hash, k2 := char(tSub(behind, tInt(1)), '#')
	if k1 && k2 && !dollar && !hash {
		return key, "" // not a marker: the matcher excludes it
	}
	if k1 && !dollar && !k2 {
		hash, k2 = true, true
	}
	if k2 && !hash && !k1 {
		dollar, k1 = true, true
	}
	if !(k1 && dollar) && !(k2 && hash) {
		return fail(key, "which marker was found is not decided")
	}
	failedPush := func(p *pushed) (bool, string) {
		if p.g.failed && back {
			return true, "an error of the block builder is dropped"
		}
		return p.g.failed, ""
	}
	raw := "Append(" + q.sx(mk("slice", "", types.NewSlice(types.Typ[types.Uint8]), input, tSub(behind, tInt(1)), pos)) + ")"
	// read reads what follows the marker: the production, or its source text if it can't be read
	read := func(key, prod string, code func(g *gev) *Term) (string, string) {
		g := k.try(q.sx(cur), prod)
		if g == nil {
			return fail(key, "%s is not read behind the marker", prod)
		}
		if !sameInt(st, w.posAt[g.ev], behind) {
			return fail(key, "%s is read at another place", prod)
		}
		p := push()
		if g.failed {
			key += " that can't be read"
			if p == nil || p.what != raw || !plain(p) {
				return fail(key, "its source text is not appended as it is")
			}
		} else {
			if e := g.res[len(g.res)-1]; true {
				if v, known := st.eval(tEq(e, tNil())); !known || !v {
					return fail(key, "whether it could be read is not decided")
				}
			}
			if p == nil || p.what != q.sx(g.res[0]) {
				return fail(key, "what was read is not appended")
			}
			if want := code(g); want != nil && (p.code == nil || st.value(p.code) != st.value(want)) {
				return fail(key, "it is appended as another kind of statement")
			} else if want == nil && !plain(p) {
				return fail(key, "it is appended as another kind of statement")
			}
		}
		if f, why := failedPush(p); why != "" {
			return fail("errors", "%s", why)
		} else if f {
			return key, ""
		}
		if r := rest(); r != "" {
			return fail(key, "then %s follows", r)
		}
		if !back {
			return fail(key, "reading stops")
		}
		if p := st.value(w.e.load(st, fieldAddr(cur, "Pos"), it)); !strings.HasPrefix(p.String(), "pos#") {
			return fail(key, "reading goes on at %s instead of behind it", p)
		}
		return key, ""
	}
	if k1 && dollar {
		return read("selector", "MatchSelector", func(*gev) *Term { return nil })
	}
	second, known2 := char(behind, '#')
	if !known2 {
		return fail("comment", "whether ## starts a comment is not decided")
	}
	if second {
		if k.tok(q.sx(cur), "NewLine") == "" {
			return fail("comment", "the comment is not read to the end of the line")
		}
		nl := q.evs[k.i-1]
		if !sameInt(st, nl.ev.Args[2], behind) {
			return fail("comment", "the comment is read from another place")
		}
		if r := rest(); r != "" {
			return fail("comment", "then %s follows", r)
		}
		if !back || !sameInt(st, pos, tAdd(nl.ev.Args[1], mk("sym", "size"+nl.ev.Args[1].Aux, it))) {
			return fail("comment", "reading does not go on behind the comment")
		}
		return "comment", ""
	}
	// #[[ ... ]]#
	if k.tok(q.sx(cur), "SquareBrackets") != "" {
		sq := q.evs[k.i-1]
		if !sameInt(st, sq.ev.Args[2], behind) {
			return fail("escaped block", "the block is read from another place")
		}
		if !c.notEscaped(q, sq) && (k.i >= len(q.evs) || !q.evs[k.i].match) {
			return fail("escaped block", "some block with double brackets is not read as an escaped one")
		}
		if k.tok(q.sx(cur), "Hash") != "" {
			hs := q.evs[k.i-1]
			if g := k.skip(); g != nil && !g.match && strings.HasPrefix(g.name, "Builder.") {
				p := push()
				if p.what != "Append(slice(text(SquareBrackets),2,-2))" || !plain(p) {
					return fail("escaped block", "%s is appended instead of the text in the block", p.what)
				}
				if !c.escapeFacts(q, sq) {
					return fail("escaped block", "a block without double brackets is taken for an escaped one")
				}
				if f, why := failedPush(p); why != "" {
					return fail("errors", "%s", why)
				} else if f {
					return "escaped block", ""
				}
				if r := rest(); r != "" {
					return fail("escaped block", "then %s follows", r)
				}
				if !back || !sameInt(st, pos, tAdd(hs.ev.Args[1], mk("sym", "size"+hs.ev.Args[1].Aux, it))) {
					return fail("escaped block", "reading does not go on behind the block")
				}
				return "escaped block", ""
			}
			return fail("escaped block", "an escaped block is not appended")
		}
	}
	return read("directive", "matchStatement", func(g *gev) *Term { return g.res[1] })
}

// escapeFacts: the path establishes that the text of the block starts and ends with double brackets.
// escapeMarks: which ends of the block are known to be double brackets.
func (c *Ctx) escapeMarks(q *gpath) (pre, suf bool) {
	for _, f := range q.o.St.facts {
		p, u := c.escapeMark(q, f)
		pre, suf = pre || p, suf || u
	}
	return
}

// escapeMark: the test of the block's start or end for double brackets that a condition is.
func (c *Ctx) escapeMark(q *gpath, f *Term) (pre, suf bool) {
	if len(f.Args) != 2 {
		return
	}
	if f.Op == "call" && q.sx(f.Args[0]) == "text(SquareBrackets)" {
		s, _ := textOf(f.Args[1])
		return strings.HasPrefix(f.Aux, "strings.HasPrefix") && s == "[[", strings.HasPrefix(f.Aux, "strings.HasSuffix") && s == "]]"
	}
	if f.Op == "eq" {
		for i := range f.Args {
			if s, ok := textOf(f.Args[i]); ok {
				x := f.Args[1-i]
				if x.Op != "slice" || len(x.Args) < 3 || q.sx(x.Args[0]) != "text(SquareBrackets)" {
					continue
				}
				n, fixed := int64(0), false
				if x.Args[2] != nil {
					n, fixed = x.Args[2].intVal()
				}
				switch {
				case fixed && n == 2 && (x.Args[1] == nil || x.Args[1] == tInt(0)):
					return s == "[[", false
				case x.Args[1] == tAdd(c.E.lenOf(q.o.St, x.Args[0]), tInt(-2)) && x.Args[2] == nil:
					return false, s == "]]"
				}
			}
		}
	}
	return
}

// notEscaped: the block is known not to have double brackets, or it is told byte by byte.
func (c *Ctx) notEscaped(q *gpath, sq *gev) bool {
	block := mk("text", "", types.Typ[types.String], sq.ev.Args[0], sq.ev.Args[1])
	text := block.String()
	if long, known := q.o.St.eval(tLt0(tSub(tInt(3), c.E.lenOf(q.o.St, block)))); known && !long {
		return true // too short
	}
	for _, f := range q.o.St.facts {
		if f.Op == "not" && len(f.Args) == 1 {
			if p, u := c.escapeMark(q, f.Args[0]); p || u {
				return true
			}
		}
		if t := f.String(); strings.Contains(t, text) && (strings.Contains(t, "-91") || strings.Contains(t, "-93")) {
			return true
		}
	}
	return false
}

func (c *Ctx) escapeFacts(q *gpath, sq *gev) bool {
	st := q.o.St
	pre, suf := c.escapeMarks(q)
	if pre && suf {
		return true
	}
	// compared byte by byte
	text := mk("text", "", types.Typ[types.String], sq.ev.Args[0], sq.ev.Args[1])
	n := 0
	for _, f := range st.facts {
		if f.Op == "eq0" && strings.Contains(f.String(), text.String()) && (strings.Contains(f.String(), "-91") || strings.Contains(f.String(), "-93")) {
			n++
		}
	}
	return n >= 2
}

func sameInt(st *State, a, b *Term) bool {
	v, known := st.eval(tEq0(tSub(a, b)))
	return known && v
}

// byteClass is a range of bytes a matcher treats alike.
type byteClass struct{ lo, hi int64 }

func classes(cuts string) (r []byteClass) {
	prev := int64(0)
	for b := int64(0); b < 256; b++ {
		if strings.IndexByte(cuts, byte(b)) >= 0 {
			if b > prev {
				r = append(r, byteClass{prev, b - 1})
			}
			r = append(r, byteClass{b, b})
			prev = b + 1
		}
	}
	if prev < 256 {
		r = append(r, byteClass{prev, 255})
	}
	return
}

// someBytes: any number of bytes may match, at least one.
const someBytes = -1

// matcherRule analyses the matcher of a token for every sequence of byte classes of a bounded length.
func (c *Ctx) matcherRule(w *grammarWorld, rule, token string, cl []byteClass, maxN, full int, oracle func(in []byte) int, more ...string) {
	ti := w.byName[token]
	if ti == nil {
		undecided("token %s not found", token)
	}
	m := c.E.globals[fieldAddr(ti.term, "Matcher")]
	for m != nil && (m.Op == "iface" || m.Op == "conv") {
		m = m.Args[0]
	}
	if m == nil || m.Op != "alloc" || m.Typ == nil {
		undecided("the matcher of %s is not known", token)
	}
	f := c.P.SSA.LookupMethod(types.NewPointer(m.Typ), namedOf(m.Typ).Obj().Pkg(), "Match")
	if f == nil {
		undecided("%s has no method Match", m.Typ)
	}
	at := c.P.fnPos(f)
	byteT := types.Universe.Lookup("byte").Type()
	longest := maxN
	for _, x := range more {
		if len(x) > longest {
			longest = len(x)
		}
	}
	e := c.E.with(Opts{MaxUnroll: longest + 4, InlineDep: func(g *ssa.Function) bool { return g == f || fnPkg(g) == fnPkg(f) }})
	other := cl[len(cl)-1]
	// matches reports whether the matcher does what it has to for bytes of the given classes.
	matches := func(idx []int) bool {
		n := len(idx)
		e.steps = 0
		in := make([]byte, n)
		s := newState()
		cur := symPtr("cursor", types.NewPointer(w.curT), s)
		input := symT("input", types.NewSlice(byteT))
		s.heap[fieldAddr(cur, "Pos")] = tInt(2)
		s.heap[fieldAddr(cur, "Input")] = input
		s.heap[fieldAddr(cur, "InputSize")] = tInt(int64(n + 2))
		s.assume(tEq0(tSub(c.E.lenOf(s, input), tInt(int64(n+2)))), true)
		for k, i := range idx {
			in[k] = byte(cl[i].lo)
			b := mk("sym", "byte#"+itoa(k), byteT)
			if cl[i].lo == cl[i].hi {
				b = tInt(cl[i].lo)
			} else {
				s.assume(tLt0(tSub(b, tInt(cl[i].lo))), false)
				s.assume(tLt0(tSub(tInt(cl[i].hi), b)), false)
			}
			s.heap[indexAddr(input, tInt(int64(k+2)))] = b
		}
		want := oracle(in)
		for _, o := range e.Call(s, f, []*Term{m, cur}, nil) {
			if o.Panic != nil {
				c.FailAt(at, "matching bytes like %q crashes", in)
				return false
			}
			got, ok := o.St.value(o.R(0)).intVal()
			if want == someBytes {
				if !ok || got < 1 || int(got) > n {
					c.FailAt(at, "of bytes like %q %s are matched", in, o.R(0))
					return false
				}
				continue
			}
			if !ok || int(got) != want {
				c.FailAt(at, "of bytes like %q %s are matched instead of %d", in, o.R(0), want)
				return false
			}
		}
		return true
	}
	for n := 1; n <= maxN; n++ {
		n := n
		c.Check(rule, fmt.Sprintf("%s, input of %d bytes", token, n), at, func() {
			idx := make([]int, n)
			for {
				use := true
				if n > full { // only one class of bytes without a meaning
					for _, i := range idx {
						if x := cl[i]; x.lo != x.hi && x != other {
							use = false
						}
					}
				}
				if use && !matches(idx) {
					return
				}
				k := 0
				for ; k < n; k++ {
					idx[k]++
					if idx[k] < len(cl) {
						break
					}
					idx[k] = 0
				}
				if k == n {
					return
				}
			}
		})
	}
	if len(more) == 0 {
		return
	}
	c.Check(rule, fmt.Sprintf("%s, longer inputs", token), at, func() {
		done := map[string]bool{}
		for _, x := range more {
			idx := make([]int, len(x))
			for k := range idx {
				for i := range cl {
					if int64(x[k]) >= cl[i].lo && int64(x[k]) <= cl[i].hi {
						idx[k] = i
					}
				}
			}
			if id := fmt.Sprint(idx); len(x) > 0 && !done[id] {
				done[id] = true
				if !matches(idx) {
					return
				}
			}
		}
	})
}

// sequences joins every way to reach a state, every next byte and every way to tell states apart.
func sequences(reach, next, tell []string) (r []string) {
	for _, a := range reach {
		for _, b := range next {
			for _, d := range tell {
				r = append(r, a+b+d)
			}
		}
	}
	return r
}

func (c *Ctx) textMatchers() {
	w := c.grammar()
	deep := 0
	if c.thorough() {
		deep = 3
	}
	upTo := func(in []byte, stop string) int {
		for i, b := range in {
			if strings.IndexByte(stop, b) >= 0 {
				return i + 1
			}
		}
		return len(in)
	}
	long := strings.Repeat("x", 40)
	c.matcherRule(w, "marker", "SpecialSign", classes("#$"), 4+deep, 4, func(in []byte) int { return upTo(in, "#$") }, long+"#x", long)
	c.matcherRule(w, "line end", "NewLine", classes("\n"), 4+deep, 5, func(in []byte) int { return upTo(in, "\n") }, long+"\nx", long)
}

// textOutput: literal text is printed as it is, an undefined variable as it was written.
func (c *Ctx) textOutput() {
	bw := newBufWorld(c)
	compile := c.P.fn("", "Planner.compileStmt")
	appendT := c.P.typ("ast/stmt", "Append")
	c.Check("printed", "literal text", c.P.fnPos(compile), func() {
		e := c.E.with(Opts{Opaque: opaqueSet(bw.opaque...)})
		s := newState()
		planner := symPtr("planner", types.NewPointer(c.P.typ("", "Planner")), s)
		st := symPtr("text", types.NewPointer(appendT), s)
		text := symT("literal", types.Typ[types.String])
		s.heap[fieldAddr(st, "Append")] = text
		n := 0
		for _, o := range e.Call(s, compile, []*Term{planner, mk("iface", "", types.NewPointer(appendT), st)}, nil) {
			if o.Panic != nil || o.R(1).Op != "nil" {
				c.Fail("literal text does not compile")
				return
			}
			control := symT("control", c.P.typ("est", "Control"))
			for _, p := range e.Apply(o.St, o.R(0), []*Term{control}) {
				if p.Panic != nil || p.R(1).Op != "nil" {
					c.Fail("literal text does not compile")
					return
				}
				base := len(p.St.events)
				for _, q := range e.Apply(p.St, p.R(0), []*Term{c.state()}) {
					if q.Panic != nil {
						c.Fail("printing literal text crashes")
						return
					}
					ps, other := bw.pieces(q.St, q.St.events[base:])
					for _, ev := range other {
						if ev.Kind == "call" || ev.Kind == "dyn" || ev.Kind == "invoke" {
							c.Fail("printing literal text calls %s", ev.Name)
						}
					}
					if len(ps) != 1 || ps[0].esc != 0 || ps[0].isInt || ps[0].text != text || ps[0].buf != c.buffer(q.St, e, c.state()) {
						c.Fail("literal text is not printed as it is (%d pieces)", len(ps))
						return
					}
					n++
				}
			}
		}
		if n == 0 {
			c.Fail("literal text is never printed")
		}
	})
	// the variable's source text reaches the rendered placeholder
	pt := types.NewPointer(c.P.typ("", "Planner"))
	sel := types.NewPointer(c.P.typ("ast/expr", "Select"))
	opSel := types.NewPointer(c.P.typ("est/op", "Selector"))
	var resolve []*ssa.Function
	ms := types.NewMethodSet(pt)
	for i := 0; i < ms.Len(); i++ {
		sig := ms.At(i).Type().(*types.Signature)
		if sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), sel) && sig.Results().Len() == 2 && types.Identical(sig.Results().At(0).Type(), opSel) {
			if f := c.P.SSA.MethodValue(ms.At(i)); f != nil {
				resolve = append(resolve, f)
			}
		}
	}
	c.Check("printed", "undefined variable", c.P.fnPos(compile), func() {
		if len(resolve) == 0 {
			undecided("no method resolves a variable")
		}
		nilSel := func(e *Eng, s *State, ev *Event) (*Term, bool) {
			for _, f := range resolve {
				if ev.Callee == f {
					ev.Result = mk("tuple", "", nil, tNil(), tNil())
					s.emit(ev)
					return ev.Result, true
				}
			}
			return nil, false
		}
		e := c.E.with(Opts{Opaque: opaqueSet(append(append([]*ssa.Function(nil), bw.opaque...), resolve...)...), Model: nilSel})
		s := newState()
		planner := symPtr("planner", pt, s)
		v := symPtr("variable", sel, s)
		full := symT("source", types.Typ[types.String])
		s.heap[fieldAddr(v, "FullName")] = full
		n := 0
		for _, o := range e.Call(s, compile, []*Term{planner, mk("iface", "", sel, v)}, nil) {
			if o.Panic != nil || o.R(1).Op != "nil" {
				c.Fail("an undefined variable does not compile")
				return
			}
			for _, p := range e.Apply(o.St, o.R(0), []*Term{symT("control", c.P.typ("est", "Control"))}) {
				if p.Panic != nil || p.R(1).Op != "nil" {
					c.Fail("an undefined variable does not compile")
					return
				}
				base := len(p.St.events)
				for _, q := range e.Apply(p.St, p.R(0), []*Term{c.state()}) {
					ps, _ := bw.pieces(q.St, q.St.events[base:])
					if q.Panic != nil || len(ps) == 0 {
						c.Fail("an undefined variable is not printed")
						return
					}
					for _, x := range ps {
						if x.text != full {
							c.Fail("%s is printed instead of the source text of an undefined variable", x.text)
							return
						}
					}
					n++
				}
			}
		}
		if n == 0 {
			c.Fail("an undefined variable is never printed")
		}
	})
}
