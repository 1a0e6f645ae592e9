package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C10", Level: "other", MinObs: 60,
		Explanation: "Every production of the expression grammar is analysed over all sequences of matched tokens (which token is matched next is a partition, the other productions are opaque); on each path the syntax tree that is built is compared with the tree the matched sequence denotes, and errors must be reported exactly where the sequence cannot continue. Spellings, codes and the order of candidates are compared for all tokens.",
		Assumptions: []string{"the token matchers of the parsly library match what they are constructed for, the first matching candidate wins"},
		Run:         runC10})
}

// tokens is a list of candidate tokens.
func (w *grammarWorld) tokens(s *State, names ...string) *Term {
	var ts []*Term
	for _, n := range names {
		if w.byName[n] == nil {
			undecided("token %s not found", n)
		}
		ts = append(ts, w.byName[n].term)
	}
	return sliceOf(w.c.E, s, "candidates", ts...)
}

// gwalk reads a path step by step against a grammar rule.
type gwalk struct {
	p  *gpath
	i  int
	ok map[*gev]bool // productions whose failure is handled
}

type gstop struct{ why string } // the sequence cannot continue: an error is due
type gbad struct{ why string }  // the path does something else

func (k *gwalk) skip() *gev {
	for k.i < len(k.p.evs) && k.p.evs[k.i].match && (k.p.evs[k.i].tok == mInvalid || k.p.evs[k.i].tok == mEOF) {
		k.i++
	}
	if k.i < len(k.p.evs) {
		return k.p.evs[k.i]
	}
	return nil
}

// tok takes the next step if it matched one of the tokens on the cursor.
func (k *gwalk) tok(cursor string, names ...string) string {
	g := k.skip()
	if g == nil || !g.match || k.p.sx(g.cursor) != cursor {
		return ""
	}
	for _, n := range names {
		if g.tok == n {
			k.i++
			return n
		}
	}
	return ""
}

// any takes the next matched token on the cursor.
func (k *gwalk) any(cursor string) *gev {
	g := k.skip()
	if g == nil || !g.match || k.p.sx(g.cursor) != cursor {
		return nil
	}
	k.i++
	return g
}

func (k *gwalk) need(cursor string, names ...string) string {
	n := k.tok(cursor, names...)
	if n == "" {
		panic(gstop{"a missing " + strings.Join(names, " or ")})
	}
	return n
}

// prod takes the next step, which has to be the production on the cursor.
func (k *gwalk) prod(cursor string, names ...string) *gev {
	g := k.try(cursor, names...)
	if g == nil {
		panic(gbad{strings.Join(names, " or ") + " on " + cursor + " does not follow"})
	}
	if g.failed {
		panic(gstop{"an error of " + g.name})
	}
	return g
}

func (k *gwalk) try(cursor string, names ...string) *gev {
	g := k.skip()
	if g == nil || g.match || k.p.sx(g.cursor) != cursor {
		return nil
	}
	for _, n := range names {
		if g.name == n {
			k.i++
			return g
		}
	}
	return nil
}

// val is the i-th result of a production.
func (k *gwalk) val(g *gev, i int) string { return k.p.sx(g.res[i]) }

// operandOf: the expression result of an operand or equation production.
func (k *gwalk) exprOf(g *gev) string {
	if g.name == "matchOperand" {
		return k.val(g, 1)
	}
	return k.val(g, 0)
}

// gcell is the cell of an expression the production updates.
func (w *grammarWorld) gcell(s *State) *Term { return symPtr("cell", types.NewPointer(w.exprT), s) }

// production checks one production: rule returns the values it may build for the matched sequence.
func (w *grammarWorld) production(rule, name string, args func(s *State) []*Term, value func(p *gpath) string, oracle func(k *gwalk) []string) {
	c := w.c
	f := c.P.fn("parser", name)
	w.productionOf(rule, name, f, args, value, oracle)
	_ = f
}

func (w *grammarWorld) productionOf(rule, name string, f *ssa.Function, args func(s *State) []*Term, value func(p *gpath) string, oracle func(k *gwalk) []string) {
	c := w.c
	type res struct {
		seq, bad string
		pos      string
	}
	groups := map[string][]res{}
	var order []string
	at := c.P.fnPos(f)
	run := func() {
		w.run(f, w.otherProds(), args, func(p *gpath) {
			key := "no token"
			for _, g := range p.evs {
				if g.match && g.tok != mInvalid && g.tok != mEOF {
					key = g.tok
					break
				}
			}
			if _, ok := groups[key]; !ok {
				order = append(order, key)
			}
			groups[key] = append(groups[key], res{seq: p.steps(), bad: w.judge(p, value, oracle)})
		})
	}
	done := false
	c.Check(rule, "paths of "+name, at, func() { run(); done = true })
	if !done {
		return
	}
	for _, key := range order {
		key := key
		c.Check(rule, name+" starting with "+key, at, func() {
			for _, r := range groups[key] {
				if r.bad != "" {
					c.FailAt(at, "%s: after %s: %s", name, r.seq, r.bad)
					return
				}
			}
		})
	}
}

func (w *grammarWorld) otherProds() []string {
	var r []string
	for _, n := range grammarProds {
		if n != "matchToken" && n != "normalizeTokensIfNeeded" {
			r = append(r, n)
		}
	}
	return r
}

func (w *grammarWorld) judge(p *gpath, value func(p *gpath) string, oracle func(k *gwalk) []string) (bad string) {
	if p.o.Panic != nil {
		return "crashes"
	}
	k := &gwalk{p: p, ok: map[*gev]bool{}}
	var want []string
	var stop *gstop
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case gstop:
				stop = &x
			case gbad:
				bad = x.why
			default:
				panic(x)
			}
		}()
		want = oracle(k)
		if g := k.skip(); g != nil {
			what := g.tok
			if !g.match {
				what = g.name
			}
			panic(gbad{"then " + what + " on " + p.sx(g.cursor)})
		}
	}()
	if bad != "" {
		return bad
	}
	e := p.err()
	if stop != nil {
		if e == 1 {
			return ""
		}
		return stop.why + " is not reported as an error"
	}
	if e == -1 {
		// the error of the last production is returned as it is
		last := p.evs[len(p.evs)-1]
		if last.match || p.o.R(p.o.resLen()-1) != last.res[len(last.res)-1] {
			return "whether an error is returned is unknown"
		}
	}
	if e == 1 {
		return "an error is returned instead of " + strings.Join(want, " or ")
	}
	got := value(p)
	for _, x := range want {
		if x == got {
			return ""
		}
	}
	return "it denotes " + strings.Join(want, " or ") + " but " + got + " is built"
}

func r0(p *gpath) string { return p.sx(p.o.R(0)) }

func (w *grammarWorld) onCursor(s *State) []*Term { return []*Term{w.cursor} }

var binaryOps = []string{"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=", "&&", "||"}

func isBinaryOp(s string) bool {
	for _, o := range binaryOps {
		if o == s {
			return true
		}
	}
	return false
}

func runC10(c *Ctx) {
	w := c.grammar()
	c.grammarTokens(w)
	in := func(tok string) string { return "cur(inner(text(" + tok + ")))" }

	// operands
	w.production("operand", "matchOperand", func(s *State) []*Term {
		return []*Term{w.cursor, w.tokens(s, "String", "Boolean", "Number")}
	}, func(p *gpath) string { return p.sx(p.o.R(1)) }, func(k *gwalk) []string {
		neg := k.tok("c", "Negation") != ""
		t := k.any("c")
		if t == nil {
			panic(gstop{"a missing operand"})
		}
		var x string
		switch t.tok {
		case "Parentheses":
			x = "Parentheses(" + k.exprOf(k.prod(in("Parentheses"), "matchOperand", "matchEquationExpression")) + ")"
		case "String":
			x = "Literal(inner(text(String)),string)"
		case "Boolean":
			x = "Literal(text(Boolean),bool)"
		case "Number":
			x = "Literal(text(Number),int)"
			if k.p.isFloatNumber(t) {
				x = "Literal(text(Number),float64)"
			}
		case "SelectorStart":
			x = k.val(k.prod("c", "MatchSelector"), 0)
		case "Quote":
			k.need("c", "StringFinish")
			cut := "slice(text(StringFinish),0,-1)"
			g := k.try("cur("+cut+")", "matchOperand")
			x = "Literal(" + cut + ",string)"
			if g != nil {
				whole, known := k.p.wholeSelect(g)
				if known && whole {
					x = k.exprOf(g)
				} else if !known {
					panic(gbad{"whether the text in quotes is one variable is not decided"})
				}
			} else if l, ok := k.p.o.St.value(w.c.E.lenOf(k.p.o.St, mk("text", "", types.Typ[types.String], k.p.evs[k.i-1].ev.Args[0], k.p.evs[k.i-1].ev.Args[1]))).intVal(); ok && l == 1 {
				x = `Literal("",string)`
			}
		default:
			panic(gbad{t.tok + " is taken for an operand"})
		}
		if neg {
			x = `Unary("!",` + x + ")"
		}
		g := k.prod("c", "addEquationIfNeeded")
		return []string{strings.Replace(k.p.tailOf(g, x), "\x00", "", -1)}
	})

	// operators
	seen := map[string]bool{}
	w.production("operator", "addEquationIfNeeded", func(s *State) []*Term {
		cell := w.gcell(s)
		s.heap[cell] = symT("old", w.exprT)
		return []*Term{w.cursor, cell}
	}, func(p *gpath) string { return p.sx(w.e.load(p.o.St, w.gcell(p.o.St), w.exprT)) }, func(k *gwalk) []string {
		acc := "old"
		for {
			t := k.any("c")
			if t == nil {
				return []string{acc}
			}
			sp := ""
			if ti := w.byName[t.tok]; ti != nil {
				sp = ti.text
			}
			if sp == "=" {
				panic(gstop{"an assignment in an expression"})
			}
			if !isBinaryOp(sp) && sp != "!" {
				panic(gbad{t.tok + " is taken for an operator"})
			}
			seen[sp] = true
			var y string
			if k.tok("c", "Parentheses") != "" {
				y = "Parentheses(" + k.exprOf(k.prod(in("Parentheses"), "matchEquationExpression", "matchOperand")) + ")"
				y = k.p.tailOf(k.prod("c", "addEquationIfNeeded"), y)
			} else {
				y = k.exprOf(k.prod("c", "matchOperand"))
			}
			if sp == "!" && k.p.err() == 1 {
				panic(gstop{""})
			}
			acc = fmt.Sprintf("Binary(%s,%q,%s)", acc, sp, y)
		}
	})
	c.Check("operator", "all operators are read", "", func() {
		for _, o := range binaryOps {
			if !seen[o] {
				c.Fail("the operator %s is not read", o)
			}
		}
	})

	// conditions and grouped expressions
	w.production("expression", "matchEquationExpression", w.onCursor, r0, func(k *gwalk) []string {
		if k.tok("c", "Parentheses") != "" {
			x := k.exprOf(k.prod(in("Parentheses"), "matchEquationExpression", "matchOperand"))
			g := k.prod("c", "addEquationIfNeeded")
			var r []string
			for _, y := range []string{k.p.tailOf(g, x), k.p.tailOf(g, "Parentheses("+x+")")} {
				r = append(r, y, "Parentheses("+y+")")
			}
			return r
		}
		return []string{k.exprOf(k.prod("c", "matchOperand"))}
	})

	// variables and paths
	w.production("variable", "matchVariable", w.onCursor, r0, func(k *gwalk) []string {
		k.need("c", "SelectorStart")
		return []string{k.val(k.last("c", "parseIdentity"), 0)}
	})
	w.production("variable", "parseIdentity", w.onCursor, r0, func(k *gwalk) []string {
		switch k.tok("c", "Selector", "SelectorBlock") {
		case "SelectorBlock":
			return []string{k.val(k.last(in("SelectorBlock"), "parseIdentity"), 0)}
		case "Selector":
			return []string{"Select(text(Selector)," + k.val(k.prod("c", "matchCall"), 0) + `,"")`}
		}
		// nothing is left to read
		if k.p.err() == 1 {
			panic(gstop{})
		}
		return []string{`Select(text(EOF),nil,"")`}
	})
	w.production("path", "MatchSelector", w.onCursor, func(p *gpath) string {
		r := p.o.R(0)
		get := func(f string) string { return p.sx(loadField(w, p.o.St, r, f)) }
		return p.sx(r) + " X=" + get("X") + " FullName=" + get("FullName")
	}, func(k *gwalk) []string {
		source := func() string {
			return `concat("$",` + k.p.sx(mk("slice", "", types.NewSlice(types.Typ[types.Uint8]), loadField(w, k.p.o.St, w.cursor, "Input"),
				mk("sym", "pos#start", types.Typ[types.Int]), w.e.load(k.p.o.St, fieldAddr(w.cursor, "Pos"), types.Typ[types.Int]))) + ")"
		}
		k.tok("c", "Negation")
		switch k.tok("c", "SelectorBlock", "Selector") {
		case "SelectorBlock":
			g := k.prod(in("SelectorBlock"), "MatchSelector")
			if done, known := k.p.consumed(g.cursor); !known {
				panic(gbad{"whether the block is read to its end is not decided"})
			} else if !done {
				panic(gstop{"text left over in the block"})
			}
			x := k.p.sx(loadField(w, k.p.o.St, g.res[0], "X"))
			return []string{k.val(g, 0) + " X=" + x + ` FullName=concat("$",text(SelectorBlock))`, k.val(g, 0) + " X=" + x + " FullName=" + source()}
		case "Selector":
			g := k.prod("cur(text(Selector))", "parseIdentity")
			m := k.prod("c", "matchCall")
			return []string{k.val(g, 0) + " X=" + k.val(m, 0) + " FullName=" + source()}
		}
		panic(gstop{"a missing name"})
	})
	w.production("path", "matchCall", w.onCursor, func(p *gpath) string {
		r := p.o.R(0)
		x := p.sx(r)
		for _, g := range p.evs {
			if g.name == "matchFunctionCall" && !g.failed {
				x += " X=" + p.sx(loadField(w, p.o.St, g.res[0], "X"))
			}
		}
		return x
	}, func(k *gwalk) []string {
		switch k.tok("c", "Parentheses", "Dot", "SquareBrackets") {
		case "Dot":
			if k.skip() == nil { // the dot ends a sentence: it is not part of the path
				if pos := k.p.o.St.value(w.e.load(k.p.o.St, fieldAddr(w.cursor, "Pos"), types.Typ[types.Int])); pos.String() != "pos#start" {
					panic(gbad{"a dot that does not continue the path is dropped"})
				}
				if _, may := k.p.nameNext(k.p.evs[k.i-1]); may {
					panic(gbad{"a path step is not read"})
				}
				return []string{"nil"}
			}
			if must, _ := k.p.nameNext(k.p.evs[k.i-1]); !must && k.p.err() != 0 {
				panic(gbad{"a dot that ends a sentence is read as a path step"})
			}
			return []string{k.val(k.last("c", "MatchSelector"), 0)}
		case "Parentheses":
			g := k.prod(in("Parentheses"), "matchFunctionCall")
			m := k.prod("c", "matchCall")
			return []string{k.val(g, 0) + " X=" + k.val(m, 0)}
		case "SquareBrackets":
			g := k.prod(in("SquareBrackets"), "matchOperand", "matchEquationExpression")
			m := k.prod("c", "matchCall")
			return []string{"SliceIndex(" + k.exprOf(g) + "," + k.val(m, 0) + ")"}
		}
		return []string{"nil"}
	})
	w.production("call", "extractArgument", w.onCursor, r0, func(k *gwalk) []string {
		if k.tok("c", "Argument") != "" {
			return []string{"cur(text(Argument))"}
		}
		return []string{"c"}
	})
	c.callArguments(w)
	c.expressionMatchers(w)
}

// expressionMatchers: names, strings and arguments are matched as long as they are.
func (c *Ctx) expressionMatchers(w *grammarWorld) {
	deep := 0
	if c.thorough() {
		deep = 1
	}
	letter := func(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
	var cl []byteClass
	for _, r := range [][2]int64{{0, '0' - 1}, {'0', '9'}, {'9' + 1, 'A' - 1}, {'A', 'Z'}, {'Z' + 1, '_' - 1}, {'_', '_'}, {'`', '`'}, {'a', 'z'}, {'z' + 1, 255}} {
		cl = append(cl, byteClass{r[0], r[1]})
	}
	c.matcherRule(w, "name", "Selector", cl, 3+deep, 9, func(in []byte) int {
		if !letter(in[0]) {
			return 0
		}
		n := 0
		for n < len(in) && (letter(in[n]) || in[n] >= '0' && in[n] <= '9' || in[n] == '_') {
			n++
		}
		return n
	}, strings.Repeat("aB7_", 10)+" a", strings.Repeat("z", 40), strings.Repeat("Ab_", 9)+"-b")
	c.matcherRule(w, "string", "String", classes("\"\\"), 4+deep, 3, func(in []byte) int {
		if in[0] != '"' {
			return 0
		}
		for i := 1; i < len(in); i++ {
			if in[i] == '\\' {
				i++
			} else if in[i] == '"' {
				return i + 1
			}
		}
		return 0
	}, append(sequences([]string{"\"", "\"x", "\"\\", "\"\\\\", "\"\\\""}, []string{"\"", "\\", "x"}, []string{"\"x", "\\\"x\"", "x\"\"", "xx"}), "\""+strings.Repeat("x", 40)+"\"x")...)
	c.matcherRule(w, "argument", "Argument", classes("\"(),"), 4+deep, 2, func(in []byte) int {
		depth, quote := 0, false
		for i, b := range in {
			switch {
			case b == '"':
				quote = !quote
			case quote:
			case b == '(':
				depth++
			case b == ')' && depth > 0:
				depth--
			case b == ',' && depth == 0:
				return i + 1
			}
		}
		return len(in)
	}, append(sequences([]string{"x", "(", "((", "\"", "(\"", "((\"", "(\"x\""}, []string{"\"", "(", ")", ",", "x"}, []string{",xx", "),xx", ")),xx", "\",xx", "\"),xx", "\")),xx"}),
		strings.Repeat("x", 40)+",x", strings.Repeat("(", 12)+","+strings.Repeat(")", 12)+",x")...)
}

// last is a production whose results are returned as they are.
func (k *gwalk) last(cursor string, names ...string) *gev {
	g := k.try(cursor, names...)
	if g == nil {
		panic(gbad{strings.Join(names, " or ") + " on " + cursor + " does not follow"})
	}
	if g.failed {
		panic(gstop{"an error of " + g.name})
	}
	return g
}

// tailOf is the value of an expression after its operators were read by the given call.
func (p *gpath) tailOf(g *gev, x string) string {
	n := 0
	for _, o := range p.evs {
		if !o.match && o.name == g.name {
			n++
			if o == g {
				break
			}
		}
	}
	s := g.name
	if n > 1 {
		s += itoa(n)
	}
	return s + "(" + x + ")"
}

// isFloatNumber: the path establishes that the text of a number has a point or an exponent.
func (p *gpath) isFloatNumber(g *gev) bool {
	absent := map[rune]bool{}
	for _, f := range p.o.St.facts {
		neg := false
		for f.Op == "not" {
			neg = !neg
			f = f.Args[0]
		}
		if f.Op != "call" || !strings.HasPrefix(f.Aux, "strings.Contains") || len(f.Args) < 2 {
			continue
		}
		if p.sx(f.Args[0]) != "text("+g.tok+")" {
			continue
		}
		chars, ok := textOf(f.Args[1])
		if !ok {
			continue
		}
		if neg {
			for _, r := range chars {
				absent[r] = true
			}
		} else if strings.Trim(chars, ".eE") == "" {
			return true
		}
	}
	if absent['.'] && absent['e'] && absent['E'] {
		return false
	}
	panic(gbad{"whether the number has a point or an exponent is not decided"})
}

// consumed: the cursor was read to its end.
func (p *gpath) consumed(cur *Term) (val, known bool) {
	st := p.o.St
	pos := p.w.e.load(st, fieldAddr(cur, "Pos"), types.Typ[types.Int])
	size := p.w.e.load(st, fieldAddr(cur, "InputSize"), types.Typ[types.Int])
	v, k := st.eval(tLt0(tSub(pos, size)))
	return !v, k
}

// wholeSelect: the text in quotes is exactly one variable, read without an error, to the end and with nothing around it.
func (p *gpath) wholeSelect(g *gev) (val, known bool) {
	st := p.o.St
	if g.failed {
		return false, true
	}
	all := true
	if v, k := st.eval(tEq(g.res[2], tNil())); !k {
		all = false
	} else if !v {
		return false, true
	}
	sel := types.NewPointer(p.w.c.P.typ("ast/expr", "Select"))
	if v, k := st.eval(mk("typeis", "", sel, g.res[1])); !k {
		all = false
	} else if !v {
		return false, true
	}
	if v, k := p.consumed(g.cursor); !k {
		all = false
	} else if !v {
		return false, true
	}
	trim := false
	for _, f := range st.facts {
		neg := f.Op == "not"
		if neg {
			f = f.Args[0]
		}
		if f.Op == "eq" && strings.Contains(f.String(), "strings.TrimSpace") {
			if neg {
				return false, true
			}
			trim = true
		}
	}
	return true, all && trim
}

// nameNext: what the path knows about the byte behind a match: whether it starts a name, a block or a quiet variable.
func (p *gpath) nameNext(g *gev) (must, may bool) {
	st := p.o.St
	off := g.ev.Args[1]
	pos := tAdd(off, mk("sym", "size"+off.Aux, types.Typ[types.Int]))
	in := loadField(p.w, st, g.cursor, "Input")
	if v, k := st.eval(tLt0(tSub(pos, p.w.e.load(st, fieldAddr(g.cursor, "InputSize"), types.Typ[types.Int])))); k && !v {
		return false, false
	}
	b := p.w.e.load(st, indexAddr(in, pos), types.Universe.Lookup("byte").Type())
	must = true
	for i := 0; i < 256; i++ {
		if v, k := st.eval(tEq0(tSub(b, tInt(int64(i))))); k && !v {
			continue
		}
		if i == '!' || i == '{' || i >= 'a' && i <= 'z' || i >= 'A' && i <= 'Z' {
			may = true
		} else {
			must = false
		}
	}
	return
}

func (c *Ctx) callArguments(w *grammarWorld) {
	f := c.P.fn("parser", "matchFunctionCall")
	at := c.P.fnPos(f)
	c.Check("call", "arguments of a call", at, func() {
		n := 0
		w.run(f, w.otherProds(), w.onCursor, func(p *gpath) {
			if p.o.Panic != nil {
				c.FailAt(at, "reading the arguments crashes")
				return
			}
			if p.err() != 0 {
				if p.anyFailed() == nil {
					c.FailAt(at, "an error is returned although all arguments were read [%s]", p.o.St.factStrings(0))
				}
				return
			}
			n++
			if !w.exhausted(p) {
				c.FailAt(at, "reading stops before the end of the arguments [%s]", p.o.St.factStrings(0))
			}
			if w.c.structName(p, p.o.R(0)) != "Call" {
				c.FailAt(at, "a call is read as %s", p.sx(p.o.R(0)))
				return
			}
			if x := p.sx(loadField(w, p.o.St, p.o.R(0), "X")); x != "nil" {
				c.FailAt(at, "a call continues with %s", x)
			}
			args := p.o.St.value(loadField(w, p.o.St, p.o.R(0), "Args"))
			var loop *LoopInfo
			for _, ev := range p.o.St.events {
				if ev.Kind == "loop" {
					if loop != nil {
						undecided("more than one loop reads the arguments")
					}
					loop = ev.Loop
				}
			}
			if loop == nil {
				if l, ok := p.o.St.value(w.e.lenOf(p.o.St, args)).intVal(); !ok || l != 0 || len(p.calls("matchOperand")) > 0 {
					undecided("no loop reads the arguments")
				}
				return
			}
			init := loop.Init[args]
			if init == nil {
				c.FailAt(at, "the arguments are %s, not the list that was read", args)
				return
			}
			if l, ok := p.o.St.value(w.e.lenOf(p.o.St, init)).intVal(); !ok || l != 0 {
				c.FailAt(at, "the list of arguments does not start empty")
			}
			for _, it := range loop.Iters {
				if !it.Back {
					for _, ev := range it.Events {
						if ev.Kind == "prod" && ev.Name == "matchOperand" {
							if nn, k := it.St.eval(tEq(ev.Result.Args[2], tNil())); !k || nn {
								c.FailAt(at, "reading stops after an argument")
							}
						}
					}
					continue
				}
				q := &gpath{w: w, o: Outcome{St: it.St}, txt: map[*Term]int{}}
				q.collect(it.Events, true)
				ops := q.calls("matchOperand")
				if len(ops) != 1 {
					c.FailAt(at, "an argument is read by %d operands (%s)", len(ops), q.steps())
					return
				}
				if ops[0].failed {
					c.FailAt(at, "the error of an argument is dropped")
				}
				ex := q.calls("extractArgument")
				if len(ex) != 1 || q.sx(ex[0].cursor) != "c" || it.St.value(ops[0].cursor) != ex[0].res[0] {
					c.FailAt(at, "an argument is not read from the next segment of the arguments (%s)", q.steps())
				}
				next := it.Next[args]
				want := mk("append", "", args.Typ, args, ops[0].res[1])
				if next == nil || !sameAppend(w, it.St, next, args, ops[0].res[1]) {
					c.FailAt(at, "after an argument the list is %s instead of %s", next, want)
				}
			}
		})
		if n == 0 {
			c.FailAt(at, "no call is ever read")
		}
	})
}

// exhausted tells whether only blanks are left of the text on a path.
func (w *grammarWorld) exhausted(p *gpath) bool {
	s := p.o.St
	it := types.Typ[types.Int]
	pos := s.value(w.e.load(s, fieldAddr(w.cursor, "Pos"), it))
	input := s.value(loadField(w, s, w.cursor, "Input"))
	for _, size := range []*Term{s.value(loadField(w, s, w.cursor, "InputSize")), s.value(w.e.lenOf(s, input))} {
		if v, k := s.eval(tLt0(tSub(pos, size))); k && !v {
			return true
		}
	}
	if len(p.evs) > 0 {
		if l := p.evs[len(p.evs)-1]; l.match && l.tok == mEOF {
			return true
		}
	}
	// a trimmed rest that is empty
	rest := func(t *Term) bool {
		for t != nil && t.Op == "conv" {
			t = t.Args[0]
		}
		return t != nil && t.Op == "slice" && t.Args[0] == input && t.Args[1] != nil && s.value(t.Args[1]) == pos && (t.Args[2] == nil || t.Args[2] == s.value(w.e.lenOf(s, input)))
	}
	var find func(t *Term) bool
	find = func(t *Term) bool {
		if t == nil {
			return false
		}
		trim := isCall(t, "strings.TrimSpace") || isCall(t, "bytes.TrimSpace")
		for _, n := range []string{"Trim", "TrimLeft", "TrimRight"} {
			if isCall(t, "strings."+n) || isCall(t, "bytes."+n) {
				set, ok := t.Args[1].strVal()
				trim = ok && strings.Trim(set, " \t\n\v\f\r") == ""
			}
		}
		if trim && rest(t.Args[0]) {
			if v, k := s.eval(tEq0(w.e.lenOf(s, t))); k && v {
				return true
			}
			if v, k := s.eval(tEq(t, tStr(""))); k && v {
				return true
			}
		}
		for _, a := range t.Args {
			if find(a) {
				return true
			}
		}
		return false
	}
	for _, f := range s.facts {
		if find(f) {
			return true
		}
	}
	return false
}

func (c *Ctx) structName(p *gpath, t *Term) string {
	s := p.sx(t)
	if i := strings.Index(s, "("); i > 0 {
		return s[:i]
	}
	return s
}

// sameAppend: next is the list with one element appended.
func sameAppend(w *grammarWorld, st *State, next, list, elem *Term) bool {
	next = st.value(next)
	if next.Op != "append" || next.Args[0] != list {
		return false
	}
	if len(next.Args) == 2 && next.Args[1] == elem {
		return true
	}
	if len(next.Args) == 2 {
		if es, ok := w.e.elems(st, next.Args[1], w.exprT); ok && len(es) == 1 && es[0] == elem {
			return true
		}
	}
	return false
}

// grammarTokens: spelling, codes and order of candidates.
func (c *Ctx) grammarTokens(w *grammarWorld) {
	var names []string
	for n := range w.byName {
		names = append(names, n)
	}
	sort.Strings(names)
	f := c.P.fn("parser", "matchToken")
	tm := c.P.typOf(parslyPkg, "TokenMatch")
	for _, n := range names {
		ti := w.byName[n]
		if ti.text == "" || !(isBinaryOp(ti.text) || ti.text == "=" || ti.text == "!") {
			continue
		}
		c.Check("spelling", "operator "+ti.text+" of token "+n, c.P.fnPos(f), func() {
			w.begin()
			s := newState()
			m := symPtr("match", types.NewPointer(tm), s)
			s.heap[fieldAddr(m, "Token")] = ti.term
			for _, o := range w.e.Call(s, f, []*Term{m}, nil) {
				if o.Panic != nil {
					c.Fail("reading %s crashes", ti.text)
				} else if v, ok := o.St.value(o.R(0)).strVal(); !ok || v != ti.text {
					c.Fail("the operator %s is taken for %s", ti.text, o.R(0))
				}
			}
		})
	}
	for _, o := range append(append([]string(nil), binaryOps...), "=", "!") {
		c.Check("spelling", "token of "+o, "", func() {
			n := 0
			for _, t := range w.byName {
				if t.text == o {
					n++
				}
			}
			if n != 1 {
				c.Fail("%d tokens are spelled %s", n, o)
			}
		})
	}
	for _, x := range [][]string{{"Boolean", "true", "false"}, {"If", "if"}, {"ElseIf", "elseif"}, {"Else", "else"}, {"Set", "set"}, {"ForEach", "foreach"}, {"For", "for"},
		{"In", "in"}, {"Evaluate", "evaluate"}, {"End", "end"}, {"Increment", "++"}, {"Decrement", "--"}, {"AddEqual", "+="}, {"SubEqual", "-="}, {"MultiplyEqual", "*="}, {"QuoEqual", "/="},
		{"Parentheses", "(", ")"}, {"SquareBrackets", "[", "]"}, {"Brackets", "{", "}"}, {"SelectorBlock", "{", "}"}, {"SelectorStart", "$"}, {"Dot", "."}, {"Quote", "\""}, {"Hash", "#"}} {
		x := x
		c.Check("spelling", "token "+x[0], "", func() {
			t := w.byName[x[0]]
			if t == nil {
				undecided("token %s not found", x[0])
			}
			got := t.alts
			if len(got) > len(x)-1 { // the escape character of blocks
				got = got[:len(x)-1]
			}
			if strings.Join(got, "") != strings.Join(x[1:], "") {
				c.Fail("%s is spelled %q instead of %q", x[0], got, x[1:])
			}
		})
	}
	// the first matching candidate wins: no candidate may hide a longer one behind it
	sites := map[string]bool{}
	for f, n := range w.prods {
		n := n
		f := f
		if f.Signature.Params().Len() == 0 {
			continue
		}
		if !types.Identical(f.Signature.Params().At(0).Type(), types.NewPointer(w.curT)) {
			continue
		}
		c.Check("longest", "candidates of "+n, c.P.fnPos(f), func() {
			w.run(f, w.otherProds(), func(s *State) []*Term {
				args := []*Term{w.cursor}
				if f.Signature.Variadic() {
					args = append(args, w.tokens(s, "String", "Boolean", "Number"))
				} else if f.Signature.Params().Len() == 2 {
					s.heap[w.gcell(s)] = symT("old", w.exprT)
					args = append(args, w.gcell(s))
				}
				return args
			}, func(p *gpath) {
				for _, g := range p.evs {
					if !g.match {
						continue
					}
					var list []string
					for _, a := range g.ev.Args[3:] {
						v, _ := a.strVal()
						list = append(list, v)
					}
					key := n + fmt.Sprint(g.ev.Pos)
					if sites[key] {
						continue
					}
					sites[key] = true
					for i := range list {
						for j := i + 1; j < len(list); j++ {
							a, b := w.byName[list[i]].text, w.byName[list[j]].text
							if a != "" && a != b && strings.HasPrefix(b, a) {
								c.FailAt(c.P.pos(g.ev.Pos), "%q is tried before %q, which is never read", a, b)
							}
						}
					}
				}
			})
		})
	}
}

// loadField reads a field of a structure by the type of the structure's pointer.
func loadField(w *grammarWorld, st *State, p *Term, name string) *Term {
	p = st.value(p)
	for p.Op == "iface" || p.Op == "conv" {
		p = st.value(p.Args[0])
	}
	var T types.Type
	for t := p; t != nil; {
		if t.Op == "alloc" {
			T = t.Typ
		} else if t.Typ != nil {
			if q, ok := t.Typ.Underlying().(*types.Pointer); ok {
				T = q.Elem()
			}
		}
		if T != nil || len(t.Args) == 0 {
			break
		}
		t = t.Args[0]
	}
	if T != nil && structOf(T) != nil {
		s := structOf(T)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return w.e.load(st, fieldAddr(p, name), s.Field(i).Type())
			}
		}
	}
	undecided("%s has no field %s", p, name)
	return nil
}
