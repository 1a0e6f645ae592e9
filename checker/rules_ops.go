package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opWorld is the vocabulary of the operator rules: operands are opaque values.
type opWorld struct {
	c       *Ctx
	e       *Eng
	operand *ssa.Function // (*op.Expression).Operand
	exec    *ssa.Function // (*op.Operand).Exec
	ptr     *ssa.Function // (*op.Operand).Pointer
	indir   *ssa.Function // (*op.Operand).IsIndirect
	exprT   types.Type
}

func newOpWorld(c *Ctx) *opWorld {
	p := c.P
	w := &opWorld{c: c, operand: p.fn("est/op", "Expression.Operand"), exec: p.fn("est/op", "Operand.Exec"),
		ptr: p.fn("est/op", "Operand.Pointer"), indir: p.fn("est/op", "Operand.IsIndirect"),
		exprT: types.NewPointer(p.typ("est/op", "Expression"))}
	opq := opaqueSet(w.operand, w.exec, w.ptr, w.indir)
	w.e = c.E.with(Opts{Opaque: func(f *ssa.Function) bool {
		return opq(f) || fnIs(f, modPath+"/est/stmt", "Selector")
	}, Model: w.model})
	return w
}

func fnIs(f *ssa.Function, pkg, name string) bool {
	return f != nil && f.Name() == name && f.Signature.Recv() == nil && fnPkg(f) == pkg
}

// model evaluates operands: Exec yields the operand's value cell; Pointer yields it only for direct operands.
func (w *opWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	if ev.Callee == nil {
		return nil, false
	}
	switch ev.Callee {
	case w.indir:
		return mk("indirect", "", types.Typ[types.Bool], ev.Args[0]), true
	case w.exec:
		s.cnt["exec:"+itoa(ev.Args[0].id)]++
		s.emit(ev)
		return mk("cell", "", types.Typ[types.UnsafePointer], ev.Args[0]), true
	case w.ptr:
		s.cnt["exec:"+itoa(ev.Args[0].id)]++
		s.emit(ev)
		if v, k := s.eval(mk("indirect", "", types.Typ[types.Bool], ev.Args[0])); k && !v {
			return mk("cell", "", types.Typ[types.UnsafePointer], ev.Args[0]), true
		}
		return mk("rawslot", "", types.Typ[types.UnsafePointer], ev.Args[0]), true
	}
	return nil, false
}

func symPtr(name string, t types.Type, s *State) *Term {
	v := mk("alloc", "in:"+name, t.(*types.Pointer).Elem())
	s.heap[mk("havoc", "", nil, v)] = tBool(true)
	return v
}

// applyOp compiles token over operand types and returns (compute closures, error outcomes).
type compiled struct {
	st      *State
	compute *Term
	err     bool
	errTerm *Term
}

func isNonNilErr(s *State, t *Term) (nonNil, known bool) {
	if t == nil {
		return false, false
	}
	if t.Op == "nil" {
		return false, true
	}
	if t.Op == "iface" {
		return true, true
	}
	if t.Op == "call" {
		switch t.Aux {
		case "errors.New", "fmt.Errorf":
			return true, true
		}
		if strings.HasPrefix(t.Aux, "fmt.Errorf") || strings.HasPrefix(t.Aux, "errors.New") {
			return true, true
		}
	}
	v, k := s.eval(tEq(t, tNil()))
	if k {
		return !v, true
	}
	return false, false
}

// newClosures evaluates an est.New term: every outcome is a compute function or an error.
func newClosures(e *Eng, s *State, newT *Term, where string) []compiled {
	control := symT("control", types.Typ[types.Uint8])
	var res []compiled
	for _, o := range e.Apply(s, newT, []*Term{control}) {
		if o.Panic != nil {
			undecided("compilation may panic at %s", e.P.pos(o.Pos))
		}
		nn, k := isNonNilErr(o.St, o.R(1))
		if !k {
			undecided("error result %s is not decided", o.R(1))
		}
		res = append(res, compiled{st: o.St, compute: o.R(0), err: nn, errTerm: o.R(1)})
	}
	return res
}

var goTok = map[string]token.Token{"/": token.QUO, "+": token.ADD, "-": token.SUB, "*": token.MUL, "==": token.EQL, "!=": token.NEQ,
	">": token.GTR, ">=": token.GEQ, "<": token.LSS, "<=": token.LEQ, "&&": token.LAND, "||": token.LOR}

func isCmpTok(t string) bool {
	switch t {
	case "==", "!=", ">", ">=", "<", "<=":
		return true
	}
	return false
}

var allTokens = []string{"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=", "&&", "||"}

var opTable = map[string][]string{
	"int":     {"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<="},
	"float64": {"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<="},
	"string":  {"+", "==", "!="},
	"bool":    {"==", "!=", "&&", "||"},
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func (w *opWorld) expressions(s *State, T types.Type, n int) ([]*Term, *Term) {
	names := []string{"X", "Y", "Z"}
	var es []*Term
	for i := 0; i < n; i++ {
		x := symPtr(names[i], w.exprT, s)
		s.heap[fieldAddr(x, "Type")] = rtype(T)
		es = append(es, x)
	}
	return es, sliceOf(w.e, s, "exprs", es...)
}

// operandOf names the operand built from an expression.
func operandTerms(s *State, w *opWorld, exprs []*Term) (map[*Term]int, bool) {
	res := map[*Term]int{}
	for _, ev := range s.events {
		if ev.Callee == w.operand {
			for i, x := range exprs {
				if ev.Args[0] == x {
					r := ev.Result
					if r.Op == "tuple" {
						r = r.Args[0]
					}
					res[r] = i
				}
			}
		}
	}
	return res, len(res) >= len(exprs)-1
}

// computeOutcome is one partition of the evaluation: the cells are renamed x and y.
func (w *opWorld) cell(i int, s *State, ops map[*Term]int) *Term {
	for t, k := range ops {
		if k == i {
			return mk("cell", "", types.Typ[types.UnsafePointer], t)
		}
	}
	undecided("operand %d is not built from its expression", i)
	return nil
}

func init() {
	register(&Property{ID: "C01", Level: "other", MinObs: 57,
		Explanation: "For every operator and operand kind, the compile entry of binary and unary expressions is analysed with symbolic operands: the compiled function's returned cell must hold exactly the operator applied to the left and right operand, for both the direct and the indirect operand forms; every unsupported combination must compile to an error.",
		Assumptions: []string{"an operand that is not indirect yields the same cell through its direct and its general accessor (decided by C04)"},
		Run:         runC01})
	register(&Property{ID: "C02", Level: "other", MinObs: 84,
		Explanation: "For every nullable operand kind and comparison operator the compiled comparison is compared with the nullable order: a null operand equals only a null operand and sorts before every value; two present values compare as values of the operand kind's own width and signedness.",
		Assumptions: []string{"the operand's conversion has already dereferenced the pointer (decided by C03)"},
		Run:         runC02})
}

func runC01(c *Ctx) {
	w := newOpWorld(c)
	binF := c.P.fn("est/expr", "Binary")
	unF := c.P.fn("est/expr", "Unary")
	for _, kind := range []string{"int", "float64", "string", "bool"} {
		T := types.Universe.Lookup(kind).Type()
		for _, tok := range allTokens {
			kind, tok, T := kind, tok, T
			sup := contains(opTable[kind], tok)
			rule := "operator-semantics"
			if !sup {
				rule = "unsupported-operator"
			}
			c.Check(rule, kind+" "+tok, c.P.fnPos(binF), func() {
				w.checkBinary(binF, T, tok, sup, false)
			})
		}
	}
	c.Check("unsupported-kind", "slice ==", c.P.fnPos(binF), func() {
		w.checkBinary(binF, types.NewSlice(types.Typ[types.Int]), "==", false, false)
	})
	c.Check("unsupported-kind", "map ==", c.P.fnPos(binF), func() {
		w.checkBinary(binF, types.NewMap(types.Typ[types.String], types.Typ[types.Int]), "==", false, false)
	})
	b := types.Typ[types.Bool]
	c.Check("operator-semantics", "unary !", c.P.fnPos(unF), func() {
		w.checkUnary(unF, b, "!", true)
	})
	for _, k := range []types.Type{types.Typ[types.Int], types.Typ[types.Float64], types.Typ[types.String]} {
		k := k
		c.Check("unsupported-kind", "unary ! on "+k.String(), c.P.fnPos(unF), func() {
			w.checkUnary(unF, k, "!", false)
		})
	}
	for _, tk := range []string{"+", "==", "&&"} {
		tk := tk
		c.Check("unsupported-operator", "unary "+tk, c.P.fnPos(unF), func() { w.checkUnary(unF, b, tk, false) })
	}
}

func runC02(c *Ctx) {
	w := newOpWorld(c)
	binF := c.P.fn("est/expr", "Binary")
	num := []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
	for _, kind := range num {
		T := types.Universe.Lookup(kind).Type()
		for _, tok := range []string{"==", "!=", ">", ">=", "<", "<="} {
			tok := tok
			c.Check("nullable-comparison", kind+" "+tok, c.P.fnPos(binF), func() { w.checkBinary(binF, types.NewPointer(T), tok, true, true) })
		}
	}
	for _, kind := range []string{"string", "bool"} {
		T := types.Universe.Lookup(kind).Type()
		for _, tok := range []string{"==", "!="} {
			tok := tok
			c.Check("nullable-comparison", kind+" "+tok, c.P.fnPos(binF), func() { w.checkBinary(binF, types.NewPointer(T), tok, true, true) })
		}
	}
	for _, kind := range []string{"int", "float64", "string", "bool"} {
		T := types.Universe.Lookup(kind).Type()
		for _, tok := range []string{"&&", "||"} {
			tok := tok
			c.Check("nullable-unsupported", kind+" "+tok, c.P.fnPos(binF), func() { w.checkBinary(binF, types.NewPointer(T), tok, false, true) })
		}
	}
}

// binopTerm builds the canonical term of Go's x tok y at type T.
func (w *opWorld) binopTerm(s *State, tok string, x, y *Term, T types.Type) *Term {
	switch tok {
	case "&&":
		return tAnd(x, y)
	case "||":
		return tOr(x, y)
	}
	rt := T
	if isCmpTok(tok) {
		rt = types.Typ[types.Bool]
	}
	return w.e.binop(s, goTok[tok], x, y, T, rt)
}

func (w *opWorld) checkBinary(binF *ssa.Function, T types.Type, tok string, supported, nullable bool) {
	c := w.c
	s := newState()
	exprs, sl := w.expressions(s, T, 3)
	outs := w.e.Call(s, binF, []*Term{tStr(tok), sl}, nil)
	evaluated := 0
	for _, o := range outs {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "compiling %s %s can panic", T, tok)
			continue
		}
		if nn, k := isNonNilErr(o.St, o.R(1)); k && nn {
			if supported {
				c.Fail("operator %s on %s is rejected", tok, T)
			}
			continue
		}
		for _, cp := range newClosures(w.e, o.St, o.R(0), "") {
			if cp.err {
				// an operand failed: that error must be returned; or the combination is unsupported
				if opErr := w.operandError(cp.st); opErr != nil {
					if cp.errTerm != opErr {
						c.Fail("the operand's compile error is replaced by %s", cp.errTerm)
					}
					continue
				}
				if supported {
					c.Fail("operator %s on %s compiles to an error: %s", tok, T, cp.errTerm)
				}
				continue
			}
			if opErr := w.operandError(cp.st); opErr != nil {
				c.Fail("the operand's compile error is dropped")
				continue
			}
			if !supported {
				c.Fail("unsupported operator %s on %s compiles without an error", tok, T)
				continue
			}
			if cp.compute.Op == "nil" {
				c.Fail("operator %s on %s compiles to no function", tok, T)
				continue
			}
			evaluated++
			w.checkCompute(cp, exprs, T, tok, nullable)
		}
	}
	if supported && evaluated == 0 && c.cur.Status == "ok" {
		undecided("no compiled form found")
	}
}

func (w *opWorld) operandError(s *State) *Term {
	for _, ev := range s.events {
		if ev.Callee == w.operand && ev.Result != nil && ev.Result.Op == "tuple" {
			if nn, k := isNonNilErr(s, ev.Result.Args[1]); k && nn {
				return ev.Result.Args[1]
			}
		}
	}
	return nil
}

func (w *opWorld) checkCompute(cp compiled, exprs []*Term, T types.Type, tok string, nullable bool) {
	c := w.c
	ops, ok := operandTerms(cp.st, w, exprs)
	if !ok {
		undecided("operands are not built from the expressions")
	}
	state := symT("state", types.NewPointer(c.P.typ("est", "State")))
	valT := T
	if nullable {
		valT = T.(*types.Pointer).Elem()
	}
	resT := valT
	if isCmpTok(tok) || tok == "&&" || tok == "||" {
		resT = types.Typ[types.Bool]
	}
	xc, yc := w.cell(0, cp.st, ops), w.cell(1, cp.st, ops)
	form := "direct"
	if v, k := cp.st.eval(mk("indirect", "", types.Typ[types.Bool], xc.Args[0])); !k || v {
		form = "indirect"
	}
	base := cp.st.clone()
	base.events = nil
	where := c.P.fnPos(cp.compute.Fn)
	x, y := w.e.load(base, xc, valT), w.e.load(base, yc, valT)
	zc := mk("rawslot", "none", types.Typ[types.UnsafePointer])
	for t, i := range ops {
		if i == 2 {
			zc = mk("rawslot", "", types.Typ[types.UnsafePointer], t)
		}
	}
	for _, o := range w.e.Apply(base, cp.compute, []*Term{state}) {
		if o.Panic != nil {
			if tok == "/" && isInteger(T) {
				if d := equalUnder(o.St, tBool(true), tEq0(y), 0); d == "" {
					continue
				}
			}
			c.FailAt(where, "%s form of %s %s can panic at %s", form, T, tok, c.P.pos(o.Pos))
			continue
		}
		for t, i := range ops {
			if i > 1 {
				continue
			}
			n := o.St.cnt["exec:"+itoa(t.id)]
			if n > 1 || n == 0 && tok != "&&" && tok != "||" {
				c.FailAt(where, "%s form of %s %s evaluates operand %d %d times", form, T, tok, i, n)
			}
		}
		for _, ev := range o.St.events {
			if ev.Callee != nil && (ev.Callee == w.exec || ev.Callee == w.ptr) {
				if ev.Args[1] != state {
					c.FailAt(where, "an operand is evaluated on another state")
				}
				continue
			}
			if ev.Kind == "call" && ev.Callee != nil && purePkgs[fnPkg(ev.Callee)] && !isOutput(ev.Name) {
				continue
			}
			c.FailAt(c.P.pos(ev.Pos), "evaluating %s %s has a side effect: %s", T, tok, shortName(ev.Name))
		}
		for _, sr := range o.St.stores[len(cp.st.stores):] {
			if sr.addr == zc || sr.addr.Op == "cell" && len(zc.Args) > 0 && sr.addr.Args[0] == zc.Args[0] {
				continue
			}
			if !isFresh(rootOf(sr.addr)) || !strings.Contains(rootOf(sr.addr).Aux, "#") {
				if r := rootOf(sr.addr); !isFresh(r) || cp.st.heap[r] != nil {
					c.FailAt(c.P.pos(sr.pos), "evaluating %s %s writes shared memory %s", T, tok, sr.addr)
				}
			}
		}
		res := o.R(0)
		if dbg := os.Getenv("VERIF_DEBUG"); dbg != "" {
			fmt.Println("DBG", T, tok, o.St.factStrings(0), "->", res, w.e.load(o.St, res, resT))
		}
		if res.Op == "nil" {
			c.FailAt(where, "%s form of %s %s returns no value", form, T, tok)
			continue
		}
		got := w.e.load(o.St, res, resT)
		if !nullable {
			spec := w.binopTerm(o.St, tok, x, y, T)
			if d := equalUnder(o.St, got, spec, 0); d != "" {
				c.FailAt(where, "%s form of %s %s (%s): %s", form, T, tok, shortFn(cp.compute.Fn), w.pretty(d, ops))
			}
			continue
		}
		w.checkNullable(o, got, xc, yc, x, y, valT, tok, where, cp, ops)
	}
}

func isOutput(name string) bool {
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || name == "print" || name == "println"
}

func (w *opWorld) pretty(d string, ops map[*Term]int) string {
	names := []string{"x", "y", "z"}
	for t, i := range ops {
		d = strings.ReplaceAll(d, fmt.Sprint(t), names[i])
	}
	return d
}

func (w *opWorld) checkNullable(o Outcome, got, xc, yc, x, y *Term, valT types.Type, tok, where string, cp compiled, ops map[*Term]int) {
	c := w.c
	for _, xn := range []bool{true, false} {
		for _, yn := range []bool{true, false} {
			n := o.St.clone()
			if !n.assume(tEq(xc, tNil()), xn) || !n.assume(tEq(yc, tNil()), yn) {
				continue
			}
			var spec *Term
			switch {
			case xn && yn:
				spec = tBool(tok == "==" || tok == ">=" || tok == "<=")
			case xn:
				spec = tBool(tok == "!=" || tok == "<" || tok == "<=")
			case yn:
				spec = tBool(tok == "!=" || tok == ">" || tok == ">=")
			default:
				spec = w.binopTerm(n, tok, x, y, valT)
			}
			if d := equalUnder(n, wide(got), wide(spec), 0); d != "" {
				c.FailAt(where, "nullable %s %s with left null=%v right null=%v: %s", valT, tok, xn, yn, w.pretty(d, ops))
			}
		}
	}
}

func (w *opWorld) checkUnary(unF *ssa.Function, T types.Type, tok string, supported bool) {
	c := w.c
	s := newState()
	exprs, sl := w.expressions(s, T, 2)
	n := 0
	for _, o := range w.e.Call(s, unF, []*Term{tStr(tok), sl}, nil) {
		if o.Panic != nil {
			c.Fail("compiling %s%s can panic", tok, T)
			continue
		}
		for _, cp := range newClosures(w.e, o.St, o.R(0), "") {
			if cp.err {
				if opErr := w.operandError(cp.st); opErr != nil {
					if cp.errTerm != opErr {
						c.Fail("the operand's compile error is replaced")
					}
					continue
				}
				if supported {
					c.Fail("operator %s on %s is rejected", tok, T)
				}
				continue
			}
			if w.operandError(cp.st) != nil {
				c.Fail("the operand's compile error is dropped")
				continue
			}
			if !supported {
				c.Fail("unsupported unary %s on %s compiles", tok, T)
				continue
			}
			ops, ok := operandTerms(cp.st, w, exprs)
			if !ok {
				undecided("operand is not built from the expression")
			}
			xc := w.cell(0, cp.st, ops)
			state := symT("state", types.NewPointer(c.P.typ("est", "State")))
			base := cp.st.clone()
			base.events = nil
			for _, o2 := range w.e.Apply(base, cp.compute, []*Term{state}) {
				n++
				if o2.Panic != nil {
					c.Fail("%s%s can panic", tok, T)
					continue
				}
				x := w.e.load(o2.St, xc, T)
				got := w.e.load(o2.St, o2.R(0), T)
				if d := equalUnder(o2.St, got, tNot(x), 0); d != "" {
					c.FailAt(c.P.fnPos(cp.compute.Fn), "%s%s: %s", tok, T, w.pretty(d, ops))
				}
			}
		}
	}
	if supported && n == 0 {
		undecided("no compiled form found")
	}
}

// wide names 64-bit integer cells by one type: int and int64 (uint and uint64) share their representation.
func wide(t *Term) *Term {
	return t.subst(func(x *Term) *Term {
		if x.Op == "load" && x.Typ != nil {
			if b, ok := x.Typ.Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Int64:
					return mkFull(x.Op, x.Aux, types.Typ[types.Int], x.Fn, x.C, x.Args...)
				case types.Uint64:
					return mkFull(x.Op, x.Aux, types.Typ[types.Uint], x.Fn, x.C, x.Args...)
				}
			}
		}
		return nil
	})
}
