package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C19", Level: "other", MinObs: 60,
		Explanation: "Every function that can report an error is analysed with the functions it calls opaque: on every path on which a call returned a non-nil error, the function itself returns a non-nil error, unless the path is one of the listed fallbacks whose behaviour another property decides.",
		Run:         runC19})
}

func errResult(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), types.Universe.Lookup("error").Type())
}

// evErr is the error a call returned, nil if it returns none.
func evErr(ev *Event) *Term {
	r := ev.Result
	if r != nil && r.Op == "tuple" && len(r.Args) > 0 {
		r = r.Args[len(r.Args)-1]
	}
	if r == nil || r.Typ == nil || !types.Identical(r.Typ, types.Universe.Lookup("error").Type()) {
		return nil
	}
	return r
}

func runC19(c *Ctx) {
	for _, f := range c.moduleFuncs() {
		f := f
		if f.Synthetic != "" || !errResult(f.Signature) || f.Blocks == nil {
			continue
		}
		p := strings.TrimPrefix(fnPkg(f), modPath)
		if strings.HasPrefix(p, "/bench") || c.atRunTime(f) {
			continue
		}
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && errResult(ci.Common().Signature()) {
					calls = true
				}
			}
		}
		if !calls {
			continue
		}
		c.Check("errors", shortFn(f), c.P.fnPos(f), func() { c.checkErrors(f) })
	}
}

// atRunTime: functions that are given a state of a template.
func (c *Ctx) atRunTime(f *ssa.Function) bool {
	st := types.NewPointer(c.P.typ("est", "State"))
	for _, p := range f.Params {
		if types.Identical(p.Type(), st) {
			return true
		}
	}
	return false
}

func (c *Ctx) checkErrors(f *ssa.Function) {
	e := c.E.with(Opts{Opaque: func(g *ssa.Function) bool {
		return (errResult(g.Signature) || c.atRunTime(g)) && c.P.inBaseline(g)
	}, JoinAt: 64})
	appendSel := c.P.fn("est/op", "Selectors.Append")
	reserved := map[*Event]bool{} // no selector has a name that was just reserved
	e.O.Model = func(e *Eng, s *State, ev *Event) (*Term, bool) {
		if ev.Callee == appendSel && len(ev.Args) == 2 {
			reserved[ev] = strings.Contains(s.value(e.load(s, fieldAddr(ev.Args[1], "ID"), types.Typ[types.String])).String(), "transients")
		}
		return nil, false
	}
	s := newState()
	var args, binds []*Term
	for _, p := range f.Params {
		args = append(args, symT("arg:"+p.Name(), p.Type()))
	}
	for _, v := range f.FreeVars {
		binds = append(binds, symPtrOr("free:"+v.Name(), v.Type(), s))
	}
	n := 0
	// a function that is not known is told by an error of the lookup, which is no error of the template yet
	lookup, fnCall := c.P.fn("", "Planner.Func"), c.P.fn("", "Planner.tryMatchFunc")
	sel, stmt, push := c.P.fn("parser", "MatchSelector"), c.P.fn("parser", "matchStatement"), c.P.fn("parser", "Builder.PushStatement")
	block, operand := c.P.fn("parser", "matchExpressionBlock"), c.P.fn("parser", "matchOperand")
	exempt := func(s *State, evs []*Event, ev *Event) bool {
		if ev.Callee == lookup {
			return true
		}
		if reserved[ev] {
			return true
		}
		// text that is no directive and no variable is copied, a right side without parentheses and a text that is no
		// variable between quotes are read otherwise
		then := func(g *ssa.Function) bool {
			after := false
			for _, l := range evs {
				after = after || l == ev
				if after && l.Callee == g {
					return true
				}
			}
			return false
		}
		switch ev.Callee {
		case sel, stmt:
			return then(push)
		case block:
			return then(operand)
		case operand:
			return rootOf(ev.Args[0]).Op != "sym"
		}
		if ev.Callee != fnCall {
			return false
		}
		for _, l := range evs {
			if l.Callee == lookup {
				if unknown, k := isNonNilErr(s, evErr(l)); k && unknown {
					return true
				}
			}
		}
		return false
	}
	for _, o := range e.Call(s, f, args, binds) {
		if o.Panic != nil {
			continue
		}
		n++
		c.errPath(o, exempt)
	}
	if n == 0 {
		undecided("no outcome")
	}
}

func symPtrOr(name string, t types.Type, s *State) *Term {
	if _, ok := t.(*types.Pointer); ok {
		return symPtr(name, t, s)
	}
	return symT(name, t)
}

func (c *Ctx) errPath(o Outcome, exempt func(s *State, evs []*Event, ev *Event) bool) {
	res := o.R(len(o.Results) - 1)
	check := func(s *State, evs []*Event, goesOn bool) {
		for _, ev := range evs {
			err := evErr(ev)
			if err == nil {
				continue
			}
			isErr, known := isNonNilErr(s, err)
			if known && !isErr {
				continue
			}
			if exempt(s, evs, ev) {
				continue
			}
			if goesOn {
				c.FailAt(c.P.pos(ev.Pos), "the error of %s does not end the loop ", evName(ev))
				continue
			}
			if res == err || res != nil && mentions(res, err) {
				continue
			}
			if nn, k := isNonNilErr(s, res); k && nn && known {
				continue
			}
			c.FailAt(c.P.pos(ev.Pos), "the error of %s is dropped, %v is returned", evName(ev), res)
		}
	}
	for _, ev := range o.St.events {
		if ev.Kind != "loop" {
			continue
		}
		for _, it := range ev.Loop.Iters {
			if it.Back {
				check(it.St, it.Events, true)
			}
		}
	}
	check(o.St, o.St.events, false)
}
