package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C15", Level: "other", MinObs: 9,
		Explanation: "Every append of the output buffer is analysed for an arbitrary buffer (any length, fill and growth step): on every path all index and slice expressions are in bounds, the text is written at the fill position only, the fill position advances by exactly the written length, and a growing buffer keeps its content; reading and resetting are decided on the same state.",
		Assumptions: []string{"the digit writer returns the number of bytes it wrote at the front of its destination, at most 20 (C06 decides it)", "strconv and html produce text"},
		Run:         runC15})
}

// fieldT is the declared type of a field.
func (c *Ctx) fieldT(pkg, typ, field string) types.Type {
	st := structOf(c.P.typ(pkg, typ))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	undecided("%s.%s has no field %s", pkg, typ, field)
	return nil
}

func (c *Ctx) bytesT() types.Type { return c.fieldT("est", "Buffer", "buf") }

// bufState is an arbitrary buffer satisfying the invariant 0 <= index <= len(buf), poolSize >= 0.
type bufState struct {
	b, buf, idx, pool *Term
	len               *Term
}

func (c *Ctx) newBuf(e *Eng, s *State) *bufState {
	b := symPtr("b", types.NewPointer(c.P.typ("est", "Buffer")), s)
	w := &bufState{b: b}
	w.buf = e.load(s, fieldAddr(b, "buf"), c.bytesT())
	w.idx = e.load(s, fieldAddr(b, "index"), types.Typ[types.Int])
	w.pool = e.load(s, fieldAddr(b, "poolSize"), types.Typ[types.Int])
	w.len = e.lenOf(s, w.buf)
	big := tInt(1 << 40)
	s.assume(tLt0(w.idx), false)
	s.assume(tLt0(tSub(w.len, w.idx)), false)
	s.assume(tLt0(w.pool), false)
	s.assume(tLt0(tSub(w.pool, big)), true)
	s.assume(tLt0(tSub(w.len, big)), true)
	return w
}

func nonNeg(st *State, t *Term) bool { return st.lowerBound(t, 3) >= 0 }

// provedLE decides a <= b.
func provedLE(st *State, a, b *Term) bool { return nonNeg(st, tSub(b, a)) }

// checkBounds decides every index and slice expression of a trace.
func (c *Ctx) checkBounds(e *Eng, st *State, evs []*Event) {
	for _, ev := range evs {
		if ev.Loop != nil {
			for _, it := range ev.Loop.Iters {
				c.checkBounds(e, it.St, it.Events)
			}
		}
		switch ev.Kind {
		case "index":
			if ev.Args[0].Op == "alloc" { // array of constant length
				if _, ok := ev.Args[1].intVal(); ok {
					continue
				}
			}
			l := e.lenOf(st, ev.Args[0])
			if !nonNeg(st, ev.Args[1]) || !provedLE(st, tAdd(ev.Args[1], tInt(1)), l) {
				c.FailAt(c.P.pos(ev.Pos), "index %s can be outside of a buffer of length %s [%s]", ev.Args[1], l, st.factStrings(0))
			}
		case "slice":
			l := e.lenOf(st, ev.Args[0])
			if ev.Args[0].Op == "nil" {
				l = tInt(0)
			}
			lo, hi := ev.Args[1], ev.Args[2]
			if lo == nil {
				lo = tInt(0)
			}
			if hi == nil {
				hi = l
			}
			if !nonNeg(st, lo) || !provedLE(st, lo, hi) || !provedLE(st, hi, l) {
				c.FailAt(c.P.pos(ev.Pos), "slice bounds [%s:%s] can be outside of a buffer of length %s [%s]", lo, hi, l, st.factStrings(0))
			}
		}
	}
}

// extends: the slice x starts with the first n bytes of base.
func extends(e *Eng, st *State, x, base, n *Term) bool {
	for i := 0; i < 8 && x != nil; i++ {
		if x == base {
			return true
		}
		switch x.Op {
		case "concat", "append":
			x = x.Args[0]
			if x.Op == "nil" || x.Op == "slice" && x.Args[1] != nil {
				return false
			}
		case "slice":
			if x.Args[1] != nil {
				return false
			}
			if x.Args[2] != nil && !provedLE(st, n, x.Args[2]) {
				return false
			}
			x = x.Args[0]
		case "makeslice":
			// a new array the content was copied to
			for _, ev := range st.events {
				if ev.Kind == "builtin" && ev.Name == "copy" && ev.Args[0] == x && ev.Args[1].Op != "nil" {
					if provedLE(st, n, e.lenOf(st, x)) && provedLE(st, n, e.lenOf(st, ev.Args[1])) && extends(e, st, ev.Args[1], base, n) {
						return true
					}
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (c *Ctx) checkAppend(name string, argT types.Type, want func(st *State, v, got *Term) string) {
	f := c.P.fn("est", "Buffer."+name)
	intF := c.P.fn("utils", "AppendInt")
	e := c.E.with(Opts{Opaque: opaqueSet(intF), Bounds: true})
	s := newState()
	w := c.newBuf(e, s)
	v := symT("v", argT)
	if isString(argT) {
		s.assume(tLt0(tSub(e.lenOf(s, v), tInt(1<<40))), true)
	}
	n := 0
	for _, o := range e.Call(s, f, []*Term{w.b, v}, nil) {
		st := o.St
		n++
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "%s can panic", name)
			continue
		}
		where := c.P.fnPos(f)
		var text, at *Term // the written text and where it goes
		var ln *Term
		writes := 0
		buf := e.load(st, fieldAddr(w.b, "buf"), c.bytesT())
		idx := st.value(e.load(st, fieldAddr(w.b, "index"), types.Typ[types.Int]))
		// the digit writer
		for _, ev := range st.events {
			switch {
			case ev.Callee == intF:
				writes++
				text, ln = ev.Args[1], ev.Result
				dst := ev.Args[0]
				if b, ok := ev.Args[2].intVal(); !ok || b != 10 {
					c.FailAt(c.P.pos(ev.Pos), "the number is written in base %s", ev.Args[2])
				}
				if !provedLE(st, tInt(20), e.lenOf(st, dst)) {
					c.FailAt(c.P.pos(ev.Pos), "a number can need 20 bytes but the room is %s [%s]", e.lenOf(st, dst), st.factStrings(0))
				}
				at = sliceStart(dst, buf)
				st.assume(tLt0(tSub(ev.Result, tInt(1))), false)
				st.assume(tLt0(tSub(tInt(20), ev.Result)), false)
				st.assume(tLt0(tSub(e.lenOf(st, dst), ev.Result)), false)
			case ev.Kind == "builtin" && ev.Name == "copy":
				if rootOf(ev.Args[0]) != rootOf(buf) || extends(e, st, ev.Args[1], w.buf, tInt(0)) {
					continue // content carried to a new array: decided by extends
				}
				writes++
				text, ln = ev.Args[1], e.lenOf(st, ev.Args[1])
				at = sliceStart(ev.Args[0], buf)
				if !provedLE(st, ln, e.lenOf(st, ev.Args[0])) {
					c.FailAt(c.P.pos(ev.Pos), "the text is %s long but the room is %s: its end is lost [%s]", ln, e.lenOf(st, ev.Args[0]), st.factStrings(0))
				}
			}
		}
		loops := map[*Term]bool{}
		for _, sr := range st.stores {
			if it := loopIndex(sr.addr); it != nil {
				// a loop writing one element per iteration
				if loops[it] {
					continue
				}
				loops[it] = true
				src := c.copyLoop(st, sr, it)
				if src == nil {
					c.FailAt(c.P.pos(sr.pos), "the loop does not copy a text byte by byte")
					continue
				}
				writes++
				text, ln = src, e.lenOf(st, src)
				at = tSub(sr.addr.Args[1], it)
				if d := st.value(tSub(it, ln)); !isZero(d) {
					c.FailAt(c.P.pos(sr.pos), "the loop does not copy all %s bytes", ln)
				}
				if !sameArray(sr.addr.Args[0], buf, w.buf) {
					c.FailAt(c.P.pos(sr.pos), "the bytes are written to %s, not to the buffer", sr.addr.Args[0])
				}
				continue
			}
			switch {
			case sr.addr.Op == "clobber":
			case sr.addr == fieldAddr(w.b, "buf"), sr.addr == fieldAddr(w.b, "index"):
			case sr.addr.Op == "indexaddr" && isFresh(rootOf(sr.addr)) && rootOf(sr.addr) != rootOf(buf):
			case sr.addr.Op == "indexaddr":
				writes++
				text, ln = sr.val, tInt(1)
				at = sr.addr.Args[1]
				if !sameArray(sr.addr.Args[0], buf, w.buf) {
					c.FailAt(c.P.pos(sr.pos), "the byte is written to %s, not to the buffer", sr.addr.Args[0])
				}
			case isFresh(rootOf(sr.addr)):
			default:
				c.FailAt(c.P.pos(sr.pos), "%s is written", sr.addr)
			}
		}
		// the text appended in one step: append(buf[:index], text...)
		if buf.Op == "concat" && writes == 0 {
			if hd := buf.Args[0]; hd.Op == "slice" && hd.Args[1] == nil && hd.Args[2] != nil {
				text, at, ln = buf.Args[1], hd.Args[2], e.lenOf(st, buf.Args[1])
				writes++
			}
		}
		if buf.Op == "append" && writes == 0 && len(buf.Args) == 2 {
			if hd := buf.Args[0]; hd.Op == "slice" && hd.Args[1] == nil && hd.Args[2] != nil {
				text, at, ln = buf.Args[1], hd.Args[2], tInt(1)
				writes++
			}
		}
		c.checkBounds(e, st, st.events)
		if writes == 0 {
			// only the empty text may be skipped
			skipped, impossible := false, false
			for t, r := range st.rng {
				if t.Op != "len" || r.hi > 0 {
					continue
				}
				if x := t.Args[0]; want(st, v, x) == "" {
					skipped = true
					if strings.HasPrefix(x.Aux, "strconv.") {
						impossible = true // a formatted value is never empty
					}
				}
			}
			if x, ok := st.value(v).strVal(); ok && x == "" {
				skipped = true
			}
			if impossible {
				continue
			}
			if !skipped {
				c.FailAt(where, "nothing is written [%s]", st.factStrings(0))
				continue
			}
			if idx != w.idx {
				c.FailAt(where, "the fill position moves to %s although nothing is written", idx)
			}
			continue
		}
		if writes > 1 {
			c.FailAt(where, "the buffer is written %d times", writes)
			continue
		}
		if at == nil {
			c.FailAt(where, "the text is not written to the buffer")
			continue
		}
		if d := st.value(tSub(at, w.idx)); !isZero(d) {
			c.FailAt(where, "the text is written at %s instead of the fill position", at)
		}
		if d := st.value(tSub(idx, tAdd(w.idx, ln))); !isZero(d) {
			c.FailAt(where, "the fill position moves from %s to %s after writing %s bytes", w.idx, idx, ln)
		}
		if !extends(e, st, buf, w.buf, w.idx) {
			c.FailAt(where, "the content written earlier is lost: the buffer is %s", buf)
		}
		if !provedLE(st, idx, e.lenOf(st, buf)) {
			c.FailAt(where, "the fill position %s can pass the end %s of the buffer [%s]", idx, e.lenOf(st, buf), st.factStrings(0))
		}
		if d := want(st, v, text); d != "" {
			c.FailAt(where, "the written text is %s", d)
		}
	}
	if n == 0 && c.cur.Status == "ok" {
		undecided("no outcome")
	}
}

// loopIndex is the iteration number an address depends on.
func loopIndex(addr *Term) (it *Term) {
	if addr.Op != "indexaddr" {
		return nil
	}
	addr.Args[1].contains(func(y *Term) bool {
		if y.Op == "it" {
			it = y
		}
		return false
	})
	return
}

// copyLoop is the text whose it-th byte is stored in the it-th iteration.
func (c *Ctx) copyLoop(st *State, sr storeRec, it *Term) (src *Term) {
	for _, ev := range st.events {
		if ev.Loop == nil || ev.Loop.It != it {
			continue
		}
		for _, tr := range ev.Loop.Iters {
			if !tr.Back {
				continue
			}
			ok := false
			for _, x := range tr.St.stores {
				if x.addr != sr.addr || x.val.Op == "lv" {
					continue
				}
				v := x.val
				for v.Op == "conv" {
					v = v.Args[0]
				}
				var from *Term
				switch {
				case (v.Op == "index" || v.Op == "elem") && v.Args[1] == it:
					from = v.Args[0]
				case v.Op == "load" && v.Args[0].Op == "indexaddr" && v.Args[0].Args[1] == it:
					from = v.Args[0].Args[0]
				}
				if from == nil || src != nil && src != from {
					return nil
				}
				src, ok = from, true
			}
			if !ok {
				return nil
			}
		}
	}
	return
}

func isZero(t *Term) bool {
	n, ok := t.intVal()
	return ok && n == 0
}

// sliceStart is the offset of a sub-slice of buf.
func sliceStart(x, buf *Term) *Term {
	if x == buf {
		return tInt(0)
	}
	if x.Op != "slice" || x.Args[0] != buf {
		return nil
	}
	if x.Args[1] == nil {
		return tInt(0)
	}
	return x.Args[1]
}

func sameArray(x, buf, old *Term) bool { return x == buf || x == old && buf == old }

func runC15(c *Ctx) {
	same := func(st *State, v, got *Term) string {
		if got == v {
			return ""
		}
		return got.String()
	}
	str := types.Typ[types.String]
	c.Check("append", "byte", c.P.fnPos(c.P.fn("est", "Buffer.AppendByte")), func() { c.checkAppend("AppendByte", types.Typ[types.Uint8], same) })
	c.Check("append", "raw text", c.P.fnPos(c.P.fn("est", "Buffer.AppendStringWithoutEscaping")), func() { c.checkAppend("AppendStringWithoutEscaping", str, same) })
	c.Check("append", "text", c.P.fnPos(c.P.fn("est", "Buffer.AppendString")), func() {
		c.checkAppend("AppendString", str, func(st *State, v, got *Term) string {
			if got == v || isCall(got, "html.EscapeString") && got.Args[0] == v {
				return ""
			}
			return got.String()
		})
	})
	c.Check("append", "int", c.P.fnPos(c.P.fn("est", "Buffer.AppendInt")), func() {
		c.checkAppend("AppendInt", types.Typ[types.Int], func(st *State, v, got *Term) string {
			if flat(got) == flat(v) || isIntText(got, v) {
				return ""
			}
			return got.String()
		})
	})
	c.Check("append", "bool", c.P.fnPos(c.P.fn("est", "Buffer.AppendBool")), func() {
		c.checkAppend("AppendBool", types.Typ[types.Bool], func(st *State, v, got *Term) string {
			return boolText(st, unescaped(got), v)
		})
	})
	c.Check("append", "float", c.P.fnPos(c.P.fn("est", "Buffer.AppendFloat")), func() {
		c.checkAppend("AppendFloat", types.Typ[types.Float64], func(st *State, v, got *Term) string {
			if isFloatText(unescaped(got), v) {
				return ""
			}
			return got.String()
		})
	})
	for _, name := range []string{"Bytes", "String"} {
		f := c.P.fn("est", "Buffer."+name)
		c.Check("content", name, c.P.fnPos(f), func() {
			e := c.E.with(Opts{Bounds: true})
			s := newState()
			w := c.newBuf(e, s)
			for _, o := range e.Call(s, f, []*Term{w.b}, nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "reading the buffer can panic")
					continue
				}
				c.checkBounds(e, o.St, o.St.events)
				r := o.R(0)
				for r.Op == "conv" || r.Op == "escaped" {
					r = r.Args[0]
				}
				full := w.idx == o.St.value(w.len) && r == w.buf
				if !full && !(r.Op == "slice" && r.Args[0] == w.buf && r.Args[1] == nil && r.Args[2] == w.idx) {
					c.Fail("the content of the buffer is %s instead of its first %s bytes", r, w.idx)
				}
				c.noWrites(o.St, "reading the buffer")
			}
		})
	}
	reset := c.P.fn("est", "Buffer.Reset")
	c.Check("reset", "Reset", c.P.fnPos(reset), func() {
		e := c.E.with(Opts{Bounds: true})
		s := newState()
		w := c.newBuf(e, s)
		for _, o := range e.Call(s, reset, []*Term{w.b}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "resetting the buffer can panic")
				continue
			}
			c.checkBounds(e, o.St, o.St.events)
			if idx := e.load(o.St, fieldAddr(w.b, "index"), types.Typ[types.Int]); !isZero(o.St.value(idx)) {
				c.Fail("after a reset the fill position is %s", idx)
			}
		}
	})
	newB := c.P.fn("est", "NewBuffer")
	c.Check("new", "NewBuffer", c.P.fnPos(newB), func() {
		e := c.E.with(Opts{Bounds: true})
		s := newState()
		n, esc := symT("size", types.Typ[types.Int]), symT("escape", types.Typ[types.Bool])
		s.assume(tLt0(n), false)
		for _, o := range e.Call(s, newB, []*Term{n, esc}, nil) {
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "creating a buffer can panic")
				continue
			}
			b := o.R(0)
			if idx := o.St.value(e.load(o.St, fieldAddr(b, "index"), types.Typ[types.Int])); !isZero(idx) {
				c.Fail("a new buffer is filled up to %s", idx)
			}
			if l := e.lenOf(o.St, e.load(o.St, fieldAddr(b, "buf"), c.bytesT())); !nonNeg(o.St, l) {
				c.Fail("a new buffer has length %s", l)
			}
			if f := e.load(o.St, fieldAddr(b, "escapeHTML"), types.Typ[types.Bool]); equalUnder(o.St, f, esc, 0) != "" {
				c.Fail("a new buffer escapes when %s", f)
			}
			if p := o.St.value(e.load(o.St, fieldAddr(b, "poolSize"), types.Typ[types.Int])); !nonNeg(o.St, p) {
				c.Fail("a new buffer grows by %s", p)
			}
			if !isFresh(rootOf(b)) {
				c.Fail("buffers share %s", b)
			}
		}
	})
}

func isIntText(t, v *Term) bool {
	if t.Op == "call" && (t.Aux == "strconv.Itoa" || t.Aux == "strconv.FormatInt") {
		if b, ok := t.Args[len(t.Args)-1].intVal(); t.Aux == "strconv.Itoa" || ok && b == 10 {
			return flat(t.Args[0]) == flat(v)
		}
	}
	return false
}

func unescaped(t *Term) *Term {
	for isCall(t, "html.EscapeString") {
		t = t.Args[0]
	}
	return t
}

// noWrites: nothing outside of memory allocated on this path is written.
func (c *Ctx) noWrites(st *State, what string) {
	for _, sr := range st.stores {
		if sr.addr.Op == "clobber" && isFresh(rootOf(sr.addr.Args[0])) {
			continue
		}
		if !isFresh(rootOf(sr.addr)) {
			c.FailAt(c.P.pos(sr.pos), "%s writes %s", what, sr.addr)
		}
	}
}

var _ = (*ssa.Function)(nil)
