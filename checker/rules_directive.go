package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C13", Level: "other", MinObs: 60,
		Explanation: "Every production of the directive grammar is analysed over all sequences of matched tokens and the statement that is built is compared with the directive (conditions, operands, segments and result codes in the order they were read, an error exactly where the sequence cannot continue). The block builder is analysed for every bounded sequence of statements: each statement ends up in the innermost open block (its last branch), #end closes the innermost one, unbalanced directives are errors, unterminated ones are reported by the parser.",
		Assumptions: []string{"the token matchers of the parsly library match what they are constructed for, the first matching candidate wins"},
		Run:         runC13})
}

func runC13(c *Ctx) {
	w := c.grammar()
	in := func(tok string) string { return "cur(inner(text(" + tok + ")))" }
	const block = "Block(nil)"

	w.production("assign", "matchAssign", w.onCursor, r0, func(k *gwalk) []string {
		x := k.val(k.prod("c", "matchVariable"), 0)
		k.need("c", "Assign")
		v := k.exprOf(k.prod("c", "matchOperand", "matchEquationExpression"))
		if g := k.try("c", "addEquationIfNeeded"); g != nil {
			if g.failed {
				panic(gstop{"an error of the value"})
			}
			v = k.p.tailOf(g, v)
		}
		return []string{"Statement(" + x + `,"=",` + v + ")"}
	})
	compound := map[string]string{"AddEqual": "+", "SubEqual": "-", "MultiplyEqual": "*", "QuoEqual": "/"}
	seen := map[string]bool{}
	w.production("for step", "matchForPost", w.onCursor, r0, func(k *gwalk) []string {
		x := k.val(k.prod("c", "matchVariable"), 0)
		t := k.any("c")
		if t == nil {
			panic(gstop{"a missing operator"})
		}
		seen[t.tok] = true
		switch t.tok {
		case "Increment", "Decrement":
			op := map[string]string{"Increment": "+", "Decrement": "-"}[t.tok]
			return []string{fmt.Sprintf(`Statement(%s,"=",Binary(%s,%q,Literal("1",int)))`, x, x, op)}
		}
		if t.tok == "Assign" {
			v := k.exprOf(k.prod("c", "matchOperand", "matchEquationExpression"))
			return []string{"Statement(" + x + `,"=",` + v + ")"}
		}
		v := k.exprOf(k.prod("c", "matchOperand", "matchEquationExpression"))
		if op, ok := compound[t.tok]; ok {
			return []string{fmt.Sprintf(`Statement(%s,"=",Binary(%s,%q,Parentheses(%s)))`, x, x, op, v)}
		}
		ti := w.byName[t.tok]
		if ti == nil || !isBinaryOp(ti.text) {
			panic(gbad{t.tok + " is taken for an operator"})
		}
		return []string{fmt.Sprintf(`Statement(%s,%q,%s)`, x, ti.text, v)} // not a step: reported when it is compiled
	})
	c.Check("for step", "all operators are read", "", func() {
		for _, o := range []string{"Increment", "Decrement", "AddEqual", "SubEqual", "MultiplyEqual", "QuoEqual"} {
			if !seen[o] {
				c.Fail("the operator %s is not read", o)
			}
		}
	})
	w.production("for", "matchFor", w.onCursor, r0, func(k *gwalk) []string {
		seg := func(n int) string {
			g := k.try("c", "extractForSegment")
			if g == nil {
				panic(gbad{fmt.Sprintf("segment %d of the directive is not taken next", n)})
			}
			return k.val(g, 0)
		}
		// segments may be taken before they are read, but are read in order
		var segs []string
		next := func(prods ...string) *gev {
			for {
				g := k.skip()
				if g != nil && !g.match && g.name == "extractForSegment" {
					segs = append(segs, seg(len(segs)+1))
					continue
				}
				break
			}
			if len(segs) == 0 {
				panic(gbad{"a part of the directive is read before its segment is taken"})
			}
			cur := segs[0]
			segs = segs[1:]
			return k.prod(cur, prods...)
		}
		a := k.val(next("matchAssign"), 0)
		b := k.exprOf(next("matchEquationExpression", "matchOperand"))
		d := k.val(next("matchForPost"), 0)
		return []string{"ForLoop(" + a + "," + b + "," + block + "," + d + ")"}
	})
	w.production("for", "extractForSegment", w.onCursor, r0, func(k *gwalk) []string {
		// the rest of the text, up to the next ; if there is one, without the separators
		rest := func() string {
			st := k.p.o.St
			in := loadField(w, st, w.cursor, "Input")
			return "cur(" + k.p.sx(mk("slice", "", types.NewSlice(types.Typ[types.Uint8]), in, w.e.load(st, fieldAddr(w.cursor, "Pos"), types.Typ[types.Int]), w.e.lenOf(st, in))) + ")"
		}
		switch k.tok("c", "ExpressionBlock", "ExpressionStart", "ExpressionEnd") {
		case "ExpressionBlock":
			return []string{in("ExpressionBlock")}
		case "ExpressionStart":
			if k.tok("c", "ExpressionEnd") != "" {
				return []string{"cur(slice(text(ExpressionEnd),0,-1))"}
			}
			return []string{rest()}
		case "ExpressionEnd":
			return []string{"cur(text(ExpressionEnd))"}
		}
		return []string{rest()}
	})
	w.production("foreach", "matchForEach", w.onCursor, r0, func(k *gwalk) []string {
		x := k.val(k.prod("c", "matchVariable"), 0)
		idx := "nil"
		if k.tok("c", "ComaTerminator") != "" {
			idx = k.val(k.prod("c", "matchVariable"), 0)
		}
		k.need("c", "In")
		set := k.val(k.prod("c", "matchRangeable"), 0)
		return []string{"ForEach(" + idx + "," + x + "," + set + "," + block + ")"}
	})
	w.production("foreach", "matchRangeable", w.onCursor, r0, func(k *gwalk) []string {
		switch k.need("c", "SelectorStart", "SquareBrackets") {
		case "SelectorStart":
			return []string{k.val(k.last("c", "MatchSelector"), 0)}
		}
		return []string{k.val(k.last(in("SquareBrackets"), "matchRange"), 0)}
	})
	c.rangeLiteral(w)
	w.production("if", "matchIf", w.onCursor, r0, func(k *gwalk) []string {
		return []string{"If(" + k.exprOf(k.prod("c", "matchEquationExpression")) + "," + block + ",nil)"}
	})
	c.directive(w)
	c.builder(w)
}

// rangeLiteral: the bounds of a range are the numbers on the two sides of the dots.
func (c *Ctx) rangeLiteral(w *grammarWorld) {
	f := c.P.fn("parser", "matchRange")
	at := c.P.fnPos(f)
	c.Check("foreach", "bounds of a range", at, func() {
		ok := 0
		w.run(f, w.otherProds(), w.onCursor, func(p *gpath) {
			if p.o.Panic != nil {
				c.FailAt(at, "reading a range crashes")
				return
			}
			if p.err() == 1 {
				return
			}
			if p.err() == -1 {
				c.FailAt(at, "whether a range is an error is unknown")
				return
			}
			ok++
			st := p.o.St
			for i, name := range []string{"X", "Y"} {
				lit := st.value(stripConv(st.value(loadField(w, st, p.o.R(0), name))))
				if t := p.sx(loadField(w, st, lit, "RType")); t != "int" {
					c.FailAt(at, "bound %d of a range is of type %s", i+1, t)
				}
				val := st.value(loadField(w, st, lit, "Value"))
				v := val
				isCall := func(v *Term, names ...string) bool {
					for _, n := range names {
						if v.Op == "call" && (v.Aux == n || strings.HasPrefix(v.Aux, n+"!")) {
							return true
						}
					}
					return false
				}
				for isCall(v, "strconv.Itoa", "strconv.FormatInt") || v.Op == "conv" || v.Op == "extract" || isCall(v, "strconv.Atoi", "strconv.ParseInt", "strings.TrimSpace") {
					if b, isB := v.Typ.(*types.Basic); v.Op == "conv" && isB && b.Info()&types.IsNumeric != 0 && (b.Info()&types.IsInteger == 0 || stdSizes.Sizeof(b) < 8) {
						c.FailAt(at, "bound %d of a range is cut to %s", i+1, b)
					}
					for j, a := range v.Args[1:] { // the base and the width
						if n, ok := a.intVal(); ok && !(n == 10 && j == 0 || (n == 0 || n == 64) && j == 1) && isCall(v, "strconv.ParseInt", "strconv.FormatInt") {
							c.FailAt(at, "bound %d of a range is %s", i+1, v)
						}
					}
					v = st.value(v.Args[0])
				}
				var idx *Term
				if v.Op == "load" && len(v.Args) == 1 && strings.HasPrefix(v.Args[0].Op, "indexaddr") {
					idx = v.Args[0]
				}
				if idx == nil || !isCall(idx.Args[0], "strings.Split") {
					c.FailAt(at, "bound %d of a range is %s", i+1, val)
					return
				}
				sp := idx.Args[0]
				if sep, _ := textOf(sp.Args[1]); sep != "..." || !strings.Contains(sp.Args[0].String(), "input") {
					c.FailAt(at, "a range is the text %s", sp)
				}
				if n, ok := st.value(idx.Args[1]).intVal(); !ok || int(n) != i {
					c.FailAt(at, "bound %d of a range is part %s of its text", i+1, idx.Args[1])
				}
				if l, ok := st.value(w.e.lenOf(st, sp)).intVal(); !ok || l != 2 {
					c.FailAt(at, "a range of %s parts is accepted", w.e.lenOf(st, sp))
				}
			}
		})
		if ok == 0 {
			c.FailAt(at, "no range is ever read")
		}
	})
}

// directive: which statement a directive is read as.
func (c *Ctx) directive(w *grammarWorld) {
	f := c.P.fn("parser", "matchStatement")
	w.production("directive", "matchStatement", w.onCursor, func(p *gpath) string {
		return p.sx(p.o.R(0)) + " code " + p.sx(p.o.R(1))
	}, func(k *gwalk) []string {
		if k.tok("c", "Brackets") != "" {
			g := k.last("cur(inner(text(Brackets)))", "matchStatement")
			return []string{k.val(g, 0) + " code " + k.val(g, 1)}
		}
		t := k.any("c")
		if t == nil {
			panic(gstop{"a missing directive"})
		}
		ti := w.byName[t.tok]
		code := ""
		if ti != nil {
			code = " code " + itoa(int(ti.code))
		}
		arg := func(names ...string) *gev {
			k.need("c", "Parentheses")
			return k.prod("cur(inner(text(Parentheses)))", names...)
		}
		switch t.tok {
		case "If", "ElseIf":
			return []string{k.val(arg("matchIf"), 0) + code}
		case "Else":
			return []string{`If(Binary(Literal("true",bool),"==",Literal("true",bool)),Block(nil),nil)` + code, `If(Literal("true",bool),Block(nil),nil)` + code}
		case "Set":
			return []string{k.val(arg("matchAssign"), 0) + code}
		case "ForEach":
			return []string{k.val(arg("matchForEach"), 0) + code}
		case "For":
			return []string{k.val(arg("matchFor"), 0) + code}
		case "Evaluate":
			return []string{"Evaluate(" + k.exprOf(arg("matchOperand", "matchEquationExpression")) + ")" + code}
		case "End":
			return []string{"nil" + code}
		}
		panic(gbad{t.tok + " is taken for a directive"})
	})
	// an if is read before else if and else, foreach before for: a longer word is not read as a shorter one
	c.Check("directive", "words that start with another one", c.P.fnPos(f), func() {
		w.run(f, w.otherProds(), w.onCursor, func(p *gpath) {
			for _, g := range p.evs {
				if !g.match {
					continue
				}
				for i, a := range g.ev.Args[3:] {
					for _, b := range g.ev.Args[3+i+1:] {
						x, _ := a.strVal()
						y, _ := b.strVal()
						xa, yb := w.byName[x].text, w.byName[y].text
						if xa != "" && xa != yb && strings.HasPrefix(yb, xa) {
							c.FailAt(c.P.pos(g.ev.Pos), "%q is tried before %q, which is never read", xa, yb)
							return
						}
					}
				}
			}
		})
	})
}

// builder: where statements end up.
func (c *Ctx) builder(w *grammarWorld) {
	P := c.P
	push, plain := P.fn("parser", "Builder.PushStatement"), P.fnOpt("parser", "Builder.appendStatement")
	size, block := P.fn("parser", "Builder.BufferSize"), P.fn("parser", "Builder.Block")
	mkb := P.fn("parser", "NewBuilder")
	at := P.fnPos(push)
	code := func(n string) *Term {
		if w.byName[n] == nil {
			undecided("token %s not found", n)
		}
		return tInt(w.byName[n].code)
	}
	stmtI := P.typ("ast", "Statement")
	// kinds of statements
	type kind struct {
		name string
		open bool
	}
	kinds := []kind{{"text", false}, {"set", false}, {"if", true}, {"elseif", false}, {"else", false}, {"foreach", true}, {"for", true}, {"end", false}, {"select", false}}
	typeFor := map[string]string{"text": "Append", "set": "Statement", "if": "If", "elseif": "If", "else": "If", "foreach": "ForEach", "for": "ForLoop"}
	tokFor := map[string]string{"set": "Set", "if": "If", "elseif": "ElseIf", "else": "Else", "foreach": "ForEach", "for": "For", "end": "End"}
	depth := 4
	if c.thorough() {
		depth = 5
	}
	var e *Eng
	e = c.E.with(Opts{MaxUnroll: 400})
	// expected tree
	type node struct {
		id   int
		kind string
		body []*node
		els  *node
	}
	last := func(n *node) *node {
		for n.els != nil {
			n = n.els
		}
		return n
	}
	expect := func(seq []string) (root *node, open int, bad bool) {
		root = &node{id: -1}
		stack := []*node{}
		for i, k := range seq {
			n := &node{id: i, kind: k}
			switch k {
			case "elseif", "else":
				if len(stack) == 0 || stack[len(stack)-1].kind != "if" {
					return root, 0, true
				}
				l := last(stack[len(stack)-1])
				l.els = n
			case "end":
				if len(stack) == 0 {
					return root, 0, true
				}
				stack = stack[:len(stack)-1]
			default:
				if len(stack) == 0 {
					root.body = append(root.body, n)
				} else {
					l := last(stack[len(stack)-1])
					l.body = append(l.body, n)
				}
				if k == "if" || k == "foreach" || k == "for" {
					stack = append(stack, n)
				}
			}
		}
		return root, len(stack), false
	}
	var show func(n *node) string
	show = func(n *node) string {
		var r []string
		for _, x := range n.body {
			r = append(r, show(x))
		}
		s := ""
		if n.id >= 0 {
			s = fmt.Sprintf("%s%d", n.kind, n.id)
		}
		if n.id < 0 || n.kind == "if" || n.kind == "foreach" || n.kind == "for" || n.kind == "elseif" || n.kind == "else" {
			s += "{" + strings.Join(r, " ") + "}"
		}
		if n.els != nil {
			s += show(n.els)
		}
		return s
	}
	nameOf := map[*Term]string{}
	run := func(seq []string) {
		s := newState()
		os := e.Call(s, mkb, nil, nil)
		if len(os) != 1 || os[0].Panic != nil {
			undecided("creating a builder has %d outcomes", len(os))
		}
		b := os[0].R(0)
		s = os[0].St
		failed := false
		objs := map[int]*Term{}
		for i, k := range seq {
			var x *Term = tNil()
			switch {
			case k == "select":
				t := P.typ("ast/expr", "Select")
				p := symPtr(fmt.Sprintf("%s%d", k, i), types.NewPointer(t), s)
				x = mk("iface", "", types.NewPointer(t), p)
				objs[i] = p
			case k != "end":
				t := P.typ("ast/stmt", typeFor[k])
				p := symPtr(fmt.Sprintf("%s%d", k, i), types.NewPointer(t), s)
				s.heap[fieldAddr(p, "Else")] = tNil()
				s.heap[fieldAddr(fieldAddr(p, "Body"), "Stmt")] = tNil()
				x = mk("iface", "", types.NewPointer(t), p)
				objs[i] = p
			}
			if objs[i] != nil {
				nameOf[objs[i]] = fmt.Sprintf("%s%d", k, i)
			}
			var fn *ssa.Function = push
			args := []*Term{b}
			if k == "select" && plain != nil {
				fn = plain
				args = append(args, x)
			} else {
				t := tokFor[k]
				cd := tInt(w.appendCode())
				if t != "" {
					cd = code(t)
				}
				args = append(args, cd, x)
			}
			os := e.Call(s, fn, args, nil)
			if len(os) != 1 {
				undecided("%s: adding a statement has %d outcomes", strings.Join(seq[:i+1], " "), len(os))
			}
			o := os[0]
			if o.Panic != nil {
				c.FailAt(at, "%s: adding the last statement crashes", strings.Join(seq[:i+1], " "))
				return
			}
			if o.resLen() > 0 {
				nn, known := isNonNilErr(o.St, o.R(0))
				if !known {
					undecided("%s: whether an error is returned is unknown", strings.Join(seq[:i+1], " "))
				}
				if nn {
					failed = true
					seq = seq[:i+1]
				}
			}
			s = o.St
			if failed {
				break
			}
		}
		want, open, bad := expect(seq)
		text := strings.Join(seq, " ")
		if bad != failed {
			if bad {
				c.FailAt(at, "the unbalanced directives %s are accepted", text)
			} else {
				c.FailAt(at, "the balanced directives %s are an error", text)
			}
			return
		}
		if bad {
			return
		}
		for _, o := range e.Call(s, size, []*Term{b}, nil) {
			if n, ok := o.St.value(o.R(0)).intVal(); !ok || int(n) != open {
				c.FailAt(at, "after %s %s blocks are open instead of %d", text, o.R(0), open)
				return
			}
		}
		if open != 0 {
			return
		}
		os = e.Call(s, block, []*Term{b}, nil)
		if len(os) != 1 || os[0].Panic != nil {
			undecided("%s: the tree has %d outcomes", text, len(os))
		}
		st := os[0].St
		var list func(p *Term) string
		list = func(addr *Term) string {
			l := st.value(e.load(st, addr, types.NewSlice(stmtI)))
			var r []string
			if l.Op != "nil" {
				es, ok := e.elems(st, l, stmtI)
				if !ok {
					undecided("%s: the statements %s are not known", text, l)
				}
				for _, x := range es {
					r = append(r, c.treeOf(e, st, st.value(x), nameOf, list))
				}
			}
			return "{" + strings.Join(r, " ") + "}"
		}
		got := list(fieldAddr(os[0].R(0), "Stmt"))
		if exp := show(want); got != exp {
			c.FailAt(at, "%s nests as %s instead of %s", text, got, exp)
		}
	}
	var gen func(prefix []string)
	done := map[string]bool{}
	gen = func(prefix []string) {
		if len(prefix) > 0 {
			first := prefix[0]
			if len(prefix) > 1 {
				first += " " + prefix[1]
			}
			if !done[first] && len(prefix) == 2 {
				done[first] = true
				pre := append([]string(nil), prefix...)
				c.Check("nesting", "sequences starting with "+first, at, func() {
					var all func(seq []string)
					bad := false
					all = func(seq []string) {
						if bad {
							return
						}
						_, open, err := expect(seq)
						n := len(c.cur.Detail)
						run(append([]string(nil), seq...))
						if len(c.cur.Detail) > n {
							bad = true
							return
						}
						if err || len(seq) >= depth {
							// close what is open and check the tree
							if !err && open > 0 {
								full := append([]string(nil), seq...)
								for i := 0; i < open; i++ {
									full = append(full, "end", "text")
								}
								run(full)
							}
							return
						}
						for _, k := range kinds {
							all(append(append([]string(nil), seq...), k.name))
						}
					}
					all(pre)
				})
				return
			}
			if len(prefix) >= 2 {
				return
			}
		}
		for _, k := range kinds {
			gen(append(append([]string(nil), prefix...), k.name))
		}
	}
	gen(nil)
	// long ones
	n := 30
	if c.thorough() {
		n = 100
	}
	rep := func(k int, parts ...string) (out []string) {
		for i := 0; i < k; i++ {
			out = append(out, parts...)
		}
		return out
	}
	cat := func(parts ...[]string) (out []string) {
		for _, p := range parts {
			out = append(out, p...)
		}
		return out
	}
	for _, l := range []struct {
		name string
		seq  []string
	}{
		{"branches", cat([]string{"if", "text"}, rep(n, "elseif", "text", "set"), []string{"else", "text", "end", "text"})},
		{"nested #if", cat(rep(n, "text", "if"), []string{"text"}, rep(n, "text", "end", "text"))},
		{"nested last branches", cat(rep(n/2, "if", "text", "else", "text"), []string{"text"}, rep(n/2, "text", "end", "text"))},
		{"nested loops", cat(rep(n/2, "foreach", "text", "for", "select"), []string{"set"}, rep(n, "text", "end", "set"))},
		{"statements", cat(rep(n, "text", "set", "select"), []string{"if"}, rep(n, "text", "set", "select"), []string{"end"}, rep(n, "text"))},
	} {
		l := l
		c.Check("nesting", "many "+l.name, at, func() {
			if _, open, bad := expect(l.seq); open != 0 || bad {
				undecided("the sequence is not balanced")
			}
			run(l.seq)
		})
	}
}

func (c *Ctx) treeOf(e *Eng, st *State, x *Term, nameOf map[*Term]string, list func(*Term) string) string {
	for x.Op == "iface" || x.Op == "conv" {
		x = st.value(x.Args[0])
	}
	n, ok := nameOf[x]
	if !ok {
		return x.String()
	}
	if strings.HasPrefix(n, "text") || strings.HasPrefix(n, "set") || strings.HasPrefix(n, "select") {
		return n
	}
	s := n + list(fieldAddr(fieldAddr(x, "Body"), "Stmt"))
	els := st.value(e.load(st, fieldAddr(x, "Else"), nil))
	if strings.HasPrefix(n, "if") || strings.HasPrefix(n, "else") {
		if els.Op != "nil" {
			s += c.treeOf(e, st, els, nameOf, list)
		}
	}
	return s
}

// appendCode is the code the parser gives to literal text.
func (w *grammarWorld) appendCode() int64 {
	for _, n := range []string{"appendToken"} {
		if k, ok := w.c.P.fn("parser", "Parse").Pkg.Members[n].(*ssa.NamedConst); ok {
			return k.Value.Int64()
		}
	}
	return -1000
}
