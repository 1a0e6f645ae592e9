package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C11", Level: "other", MinObs: 100,
		Explanation: "For every sequence of up to four binary operators (thorough: five), in the right-nested form the parser builds, the compilation of the expression is analysed down to the opaque operands: which two operands each operator is compiled with gives the grouping, which is compared with the grouping by precedence from left to right. Parenthesised and negated operands are included.",
		Run:         runC11})
}

func opLevel(op string) int {
	switch op {
	case "*", "/":
		return 5
	case "+", "-":
		return 4
	case "&&":
		return 2
	case "||":
		return 1
	}
	return 3
}

// precClimb groups operands and operators by precedence, from left to right.
func precClimb(operands, ops []string) string {
	pos := 0
	var parse func(min int) string
	parse = func(min int) string {
		x := operands[pos]
		for pos < len(ops) && opLevel(ops[pos]) >= min {
			op := ops[pos]
			pos++
			y := parse(opLevel(op) + 1)
			x = "(" + x + op + y + ")"
		}
		return x
	}
	return parse(0)
}

type precWorld struct {
	*planWorld
	binT   types.Type
	c      *Ctx
	leaves map[*Term]string
	fn     string
}

func runC11(c *Ctx) {
	f := c.P.fn("", "Planner.compileBinary")
	at := c.P.fnPos(f)
	var seqs [][]string
	for _, a := range binaryOps {
		for _, b := range binaryOps {
			seqs = append(seqs, []string{a, b})
		}
	}
	reps := []string{"*", "/", "+", "-", "<", "&&", "||"}
	if !c.thorough() {
		reps = []string{"/", "-", "==", "&&", "||"}
	}
	max := 4
	if c.thorough() {
		max = 5
	}
	base := [][]string{{}}
	for n := 1; n <= max; n++ {
		var next [][]string
		for _, s := range base {
			for _, r := range reps {
				next = append(next, append(append([]string(nil), s...), r))
			}
		}
		if n >= 3 {
			seqs = append(seqs, next...)
		}
		base = next
		if n >= 3 {
			reps = []string{"*", "-", "==", "&&", "||"}
		}
	}
	groups := map[string][][]string{}
	var order []string
	for _, s := range seqs {
		k := strings.Join(s[:2], " ")
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	for _, k := range order {
		k := k
		c.Check("grouping", "expressions starting with "+k, at, func() {
			for _, s := range groups[k] {
				var operands []string
				for i := 0; i <= len(s); i++ {
					operands = append(operands, string(rune('a'+i)))
				}
				want := precClimb(operands, s)
				for _, got := range c.grouping(operands, s, nil) {
					if got != want {
						c.FailAt(at, "%s is computed as %s instead of %s", chain(operands, s), got, want)
						return
					}
				}
			}
		})
	}
	// parentheses and negation stay operands
	for _, kind := range []string{"Parentheses", "Unary"} {
		for i := 0; i < 2; i++ {
			kind, i := kind, i
			c.Check("grouped-operand", fmt.Sprintf("%s as operand %d", kind, i+1), at, func() {
				for _, a := range []string{"*", "-", "==", "&&", "||"} {
					for _, b := range []string{"*", "-", "==", "&&", "||"} {
						ops := []string{a}
						operands := []string{"a", "b"}
						operands[i] = "[x" + b + "y]"
						want := precClimb(operands, ops)
						for _, got := range c.grouping(operands, ops, map[int]string{i: kind + " " + b}) {
							if got != want {
								c.FailAt(at, "%s is computed as %s instead of %s", chain(operands, ops), got, want)
								return
							}
						}
					}
				}
			})
		}
	}
}

func chain(operands, ops []string) string {
	s := operands[0]
	for i, o := range ops {
		s += " " + o + " " + operands[i+1]
	}
	return s
}

// grouping: the ways the chain of operators may be computed.
func (c *Ctx) grouping(operands, ops []string, wrapped map[int]string) []string {
	pw := newPlanWorld(c)
	w := &precWorld{planWorld: pw, c: c, leaves: map[*Term]string{}, binT: c.P.typ("ast/expr", "Binary")}
	s := newState()
	astE := c.P.typ("ast", "Expression")
	leaf := func(name string) *Term {
		t := symPtr("operand "+name, types.NewPointer(c.P.typ("ast/expr", "Select")), s)
		v := mk("iface", "", types.NewPointer(t.Typ), t)
		w.leaves[t] = name
		return v
	}
	binary := func(name string, x *Term, op string, y *Term) *Term {
		t := symPtr("node "+name, types.NewPointer(w.binT), s)
		s.heap[fieldAddr(t, "X")] = x
		s.heap[fieldAddr(t, "Token")] = tStr(op)
		s.heap[fieldAddr(t, "Y")] = y
		return mk("iface", "", types.NewPointer(t.Typ), t)
	}
	_ = astE
	mkOperand := func(i int) *Term {
		if k, ok := wrapped[i]; ok {
			kind, op := strings.Fields(k)[0], strings.Fields(k)[1]
			t := symPtr("group "+operands[i], types.NewPointer(c.P.typ("ast/expr", kind)), s)
			f := "P"
			if kind == "Unary" {
				f = "X"
				s.heap[fieldAddr(t, "Token")] = tStr("!")
			}
			s.heap[fieldAddr(t, f)] = binary("inner "+operands[i], leaf("x"), op, leaf("y"))
			w.leaves[t] = operands[i]
			return mk("iface", "", types.NewPointer(t.Typ), t)
		}
		return leaf(operands[i])
	}
	node := mkOperand(len(ops))
	for i := len(ops) - 1; i >= 0; i-- {
		node = binary(itoa(i), mkOperand(i), ops[i], node)
	}
	w.e = c.E.with(Opts{Opaque: func(f2 *ssa.Function) bool { return f2 == w.compile || f2 == w.acc || f2 == w.binary },
		InlineDep: pw.e.O.InlineDep, MaxRec: 12, Model: w.model2})
	return w.group(s, node)
}

func (w *precWorld) model2(e *Eng, s *State, ev *Event) (*Term, bool) {
	if ev.Callee == w.compile {
		n := s.fresh("compiled")
		x := symPtr("compiled"+itoa(n), w.exprT, s)
		s.heap[fieldAddr(x, "Type")] = rtype(types.Typ[types.Int])
		s.heap[fieldAddr(x, "Unify")] = tNil()
		ev.Result = mk("tuple", "", nil, x, tNil())
		s.emit(ev)
		return ev.Result, true
	}
	if ev.Callee == w.acc {
		return w.planWorld.model(e, s, ev)
	}
	return nil, false
}

// group compiles the node and returns how its operands are grouped.
func (w *precWorld) group(s *State, node *Term) []string {
	for node.Op == "iface" || node.Op == "conv" {
		node = node.Args[0]
	}
	if n, ok := w.leaves[node]; ok {
		return []string{n}
	}
	T := node.Typ
	if node.Op == "alloc" {
		T = types.NewPointer(node.Typ)
	}
	if T == nil || !types.Identical(T, types.NewPointer(w.binT)) {
		return []string{"?" + node.String()}
	}
	var r []string
	f := w.c.P.fn("", "Planner.compileBinary")
	for _, o := range w.e.Call(s.clone(), f, []*Term{w.planner, node}, nil) {
		if o.Panic != nil {
			return []string{"a crash"}
		}
		var args []*Term
		var exprs []*Term
		var bin *Event
		for _, ev := range o.St.events {
			switch ev.Callee {
			case w.compile:
				args = append(args, ev.Args[1])
				exprs = append(exprs, firstOf(ev))
			case w.binary:
				bin = ev
			}
		}
		if bin == nil {
			r = append(r, "an error")
			continue
		}
		ops := bin.Args[1]
		if ops.Op != "list" || len(ops.Args) < 2 {
			undecided("operands of the operator are %s", ops)
		}
		find := func(x *Term) *Term {
			for i := range exprs {
				if exprs[i] == x {
					return args[i]
				}
			}
			undecided("operand %s is not compiled", x)
			return nil
		}
		tok, _ := o.St.value(bin.Args[0]).strVal()
		// nodes made while compiling live in the resulting state
		base := o.St.clone()
		base.events, base.cnt = nil, base.cnt
		for _, a := range w.group(base, find(ops.Args[0])) {
			for _, b := range w.group(base, find(ops.Args[1])) {
				r = append(r, "("+a+tok+b+")")
			}
		}
	}
	if len(r) == 0 {
		r = append(r, "nothing")
	}
	return r
}
