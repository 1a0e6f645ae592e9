package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Property is one registered property with its deciding rules.
type Property struct {
	ID          string
	Level       string
	Explanation string
	Assumptions []string
	MinObs      int // obligations confirmed by hand on the reference tree: fewer means an anchor was lost
	Run         func(c *Ctx)
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Status    string `json:"status"` // ok, violation, undecided, known
	Detail    string `json:"detail,omitempty"`
}

// Ctx collects the obligations of one property run.
type Ctx struct {
	P    *Prog
	E    *Eng
	Prop *Property
	Tier string
	Obs  []*Ob
	seen map[string]bool
	// per obligation
	cur      *Ob
	strictU8 bool
}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

// Check runs one obligation; f reports problems through c.Fail, undecided aborts it.
func (c *Ctx) Check(rule, construct, where string, f func()) {
	if only := os.Getenv("VERIF_ONLY"); only != "" && !strings.HasPrefix(rule+"/"+construct+"$", only) {
		return // debugging aid
	}
	o := &Ob{Rule: rule, Construct: construct, Where: where, Status: "ok"}
	key := rule + "/" + construct
	if c.seen[key] {
		panic("duplicate obligation " + key)
	}
	c.seen[key] = true
	c.Obs = append(c.Obs, o)
	prev := c.cur
	c.cur = o
	defer func() {
		c.cur = prev
		if r := recover(); r != nil {
			if u, ok := r.(undecidedErr); ok {
				o.Status = "undecided"
				o.Detail = "could not be decided: " + u.msg
				return
			}
			if os.Getenv("VERIF_PANIC") != "" {
				panic(r)
			}
			o.Status = "undecided"
			o.Detail = fmt.Sprintf("analysis failed: %v", r)
		}
	}()
	f()
}

// Fail records a violation of the current obligation.
func (c *Ctx) Fail(format string, args ...interface{}) {
	if c.cur.Status == "ok" {
		c.cur.Status = "violation"
	}
	if len(c.cur.Detail) < 4000 {
		if c.cur.Detail != "" {
			c.cur.Detail += " | "
		}
		c.cur.Detail += fmt.Sprintf(format, args...)
	}
}

// FailAt records a violation located at a source position.
func (c *Ctx) FailAt(where, format string, args ...interface{}) {
	if c.cur.Status == "ok" {
		c.cur.Where = where
	}
	c.Fail(format, args...)
}

type known struct{ prop, key, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C01 key=<rule/construct> :: text
		body := strings.TrimPrefix(l, "finding: ")
		parts := strings.SplitN(body, " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		k := known{text: parts[1]}
		if i := strings.Index(parts[0], " key="); i >= 0 {
			k.prop = strings.TrimPrefix(parts[0][:i], "property=")
			k.key = parts[0][i+5:]
		}
		out = append(out, k)
	}
	return out
}

func runProperty(p *Prog, base *Eng, pr *Property, tier, verif string, seed int) int {
	start := time.Now()
	fns := map[*ssa.Function]bool{}
	e := base.with(Opts{})
	e.Funcs = fns
	c := &Ctx{P: p, E: e, Prop: pr, Tier: tier, seen: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if u, ok := r.(undecidedErr); ok {
					msg = u.msg
				} else if os.Getenv("VERIF_PANIC") != "" {
					panic(r)
				}
				c.Obs = append(c.Obs, &Ob{Rule: "analysis", Construct: pr.ID, Status: "undecided", Detail: msg})
			}
		}()
		pr.Run(c)
	}()
	if len(c.Obs) < pr.MinObs {
		c.Obs = append(c.Obs, &Ob{Rule: "coverage", Construct: pr.ID, Status: "violation",
			Detail: fmt.Sprintf("only %d obligations were found, %d are expected: an anchor of the rule disappeared", len(c.Obs), pr.MinObs)})
	}
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []*Ob
	counts := map[string]int{}
	rules := map[string]int{}
	for _, o := range c.Obs {
		key := o.Rule + "/" + o.Construct
		rules[o.Rule]++
		if o.Status == "violation" || o.Status == "undecided" {
			for _, k := range kn {
				if k.prop == pr.ID && k.key == key && o.Status == "violation" {
					o.Status = "known"
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", pr.ID, k.text, key, o.Where)
				}
			}
		}
		counts[o.Status]++
		if o.Status == "violation" || o.Status == "undecided" {
			bad = append(bad, o)
		}
	}
	var names []string
	for f := range fns {
		names = append(names, shortFn(f)+" "+p.fnPos(f))
	}
	sort.Strings(names)
	show := names
	if len(show) > 400 {
		show = show[:400]
	}
	samples := c.Obs
	if len(samples) > 60 {
		samples = samples[:60]
	}
	cov := map[string]interface{}{
		"explanation":             pr.Explanation,
		"technique":               "static analysis of the type-checked SSA form of /repo (no execution): " + ruleList(rules),
		"obligations":             len(c.Obs),
		"discharged":              counts["ok"],
		"known_findings":          counts["known"],
		"obligations_per_rule":    rules,
		"functions_analysed":      len(names),
		"functions":               show,
		"opaque_call_sites":       e.Calls,
		"loops_summarised":        e.Loops,
		"module_functions_loaded": len(p.Funcs),
		"module_packages_loaded":  len(p.Pkgs),
		"samples":                 samples,
	}
	ev := map[string]interface{}{
		"property": pr.ID, "tier": tier, "seed": seed, "level": pr.Level, "coverage": cov,
		"assumptions": pr.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, pr.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if len(bad) == 0 {
		fmt.Printf("%s: ok, %d obligations over %d functions (%.1fs)\n", pr.ID, len(c.Obs), len(names), time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(dir, pr.ID+".replay.txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "[%s] rule %s on %s at %s\n    %s\n", o.Status, o.Rule, o.Construct, o.Where, o.Detail)
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, o := range bad {
		if i >= 12 {
			fmt.Printf("  … %d more\n", len(bad)-i)
			break
		}
		d := o.Detail
		if len(d) > 600 {
			d = d[:600] + "…"
		}
		fmt.Printf("  %s: %s/%s at %s: %s\n", o.Status, o.Rule, o.Construct, o.Where, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, rp)
	return 1
}

func ruleList(m map[string]int) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// ---- helpers shared by rules ----

func (t *Term) subst(f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if r := f(t); r != nil {
			memo[t] = r
			return r
		}
		if len(t.Args) == 0 {
			memo[t] = t
			return t
		}
		changed := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		coefs, c := linParts(t)
		l := linear{c: c, co: map[*Term]int64{}}
		for i, a := range args {
			l = linComb(l, toLin(a), coefs[i])
		}
		return fromLin(l)
	case "lt0":
		return tLt0(args[0])
	case "eq0":
		return tEq0(args[0])
	case "eq":
		return tEq(args[0], args[1])
	case "not":
		return tNot(args[0])
	case "beq":
		a, b := args[0], args[1]
		if a.id > b.id {
			a, b = b, a
		}
		return mk("beq", "", t.Typ, a, b)
	case "cmp":
		a, b := args[0], args[1]
		if t.Aux == "==" && a.id > b.id {
			a, b = b, a
		}
		return mk("cmp", t.Aux, t.Typ, a, b)
	case "bin":
		a, b := args[0], args[1]
		if t.Typ != nil && !isString(t.Typ) && (t.Aux == "*" || t.Aux == "+" || t.Aux == "&" || t.Aux == "|" || t.Aux == "^") && a.id > b.id {
			a, b = b, a
		}
		return mk("bin", t.Aux, t.Typ, a, b)
	}
	return mkFull(t.Op, t.Aux, t.Typ, t.Fn, t.C, args...)
}

// equalUnder decides whether a boolean or value term equals spec in every valuation allowed by the facts.
// It returns "" when equal, otherwise a description of a distinguishing valuation.
func equalUnder(s *State, got, spec *Term, depth int) string {
	if got == spec {
		return ""
	}
	gv, spv := s.value(got), s.value(spec)
	if gv == spv {
		return ""
	}
	g, gk := s.eval(got)
	w, wk := s.eval(spec)
	if gk && wk {
		if g == w {
			return ""
		}
		return fmt.Sprintf("the result is %v where %v is required [%s]", g, w, s.factStrings(0))
	}
	atom := firstAtom(s, spec)
	if atom == nil {
		atom = firstAtom(s, got)
	}
	if atom == nil || depth > 8 {
		return fmt.Sprintf("the result is %s where %s is required [%s]", got, spec, s.factStrings(0))
	}
	for _, v := range []bool{true, false} {
		n := s.clone()
		if !n.assume(atom, v) {
			continue
		}
		if d := equalUnder(n, got, spec, depth+1); d != "" {
			return d
		}
	}
	return ""
}

func boolOp(t *Term) bool {
	switch t.Op {
	case "not", "and", "or", "beq":
		return true
	}
	return false
}

func firstAtom(s *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	if boolOp(t) {
		for _, a := range t.Args {
			if x := firstAtom(s, a); x != nil {
				return x
			}
		}
		return nil
	}
	switch t.Op {
	case "lt0", "eq0", "eq", "cmp", "typeis":
	default:
		if t.Typ == nil || !isBoolT(t.Typ) || t.isConst() {
			return nil
		}
	}
	if _, k := s.eval(t); k {
		return nil
	}
	return t
}

func tAnd(a, b *Term) *Term { return mk("and", "", types.Typ[types.Bool], a, b) }
func tOr(a, b *Term) *Term  { return mk("or", "", types.Typ[types.Bool], a, b) }

// fnSet is a set of functions that a rule treats as opaque vocabulary.
func opaqueSet(fs ...*ssa.Function) func(*ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return func(f *ssa.Function) bool { return m[f] }
}

// callOf reports whether t is the (first) result of an opaque call to fn and returns its arguments.
func callOf(t *Term, fn *ssa.Function) ([]*Term, bool) {
	if t == nil || t.Op != "call" {
		return nil, false
	}
	n := t.Aux
	if i := strings.IndexByte(n, '!'); i > 0 {
		n = n[:i]
	}
	if n == fn.String() {
		return t.Args, true
	}
	return nil, false
}

func sliceOf(e *Eng, s *State, name string, elems ...*Term) *Term {
	n := tInt(int64(len(elems)))
	ns := mk("makeslice", "in:"+name, nil, n, n)
	for i, x := range elems {
		s.heap[indexAddr(ns, tInt(int64(i)))] = x
	}
	return ns
}
