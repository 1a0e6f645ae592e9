package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const parslyPkg = "github.com/viant/parsly"

// tokInfo describes one token of the grammar.
type tokInfo struct {
	term  *Term
	code  int64
	name  string // global variable
	match string // constructor of its matcher
	text  string // its spelling, if it has one
	alts  []string
}

const (
	mEOF     = "EOF"
	mInvalid = "nothing"
)

// grammarWorld analyses one production of the parser at a time: the token matches are arbitrary (each choice of the
// next token is a partition), the other productions are opaque.
type grammarWorld struct {
	c      *Ctx
	e      *Eng
	cursor *Term
	curT   types.Type
	tokT   types.Type
	byTerm map[*Term]*tokInfo
	byName map[string]*tokInfo
	byCode map[int64]*tokInfo
	eof    *Term
	inv    *Term
	prods  map[*ssa.Function]string
	opaque map[*ssa.Function]bool
	// one run
	script  []int
	order   []string
	options map[string]int
	maxOcc  int
	havoc   bool
	exprT   types.Type
	sure    map[string]bool                                 // tokens that always match when there is input
	posAt   map[*Event]*Term                                // position of the cursor before a production
	only    func(site string, cands []*tokInfo, i int) bool // restricts choices
}

var grammarProds = []string{"matchOperand", "addEquationIfNeeded", "matchEquationExpression", "matchVariable", "parseIdentity", "MatchSelector", "matchCall",
	"matchFunctionCall", "matchRangeable", "matchRange", "matchAssign", "matchIf", "matchFor", "matchForEach", "matchForPost", "matchStatement", "extractArgument",
	"extractForSegment", "matchToken", "normalizeTokensIfNeeded"}

func (c *Ctx) grammar() *grammarWorld {
	w := &grammarWorld{c: c, byTerm: map[*Term]*tokInfo{}, byName: map[string]*tokInfo{}, byCode: map[int64]*tokInfo{}, prods: map[*ssa.Function]string{}, maxOcc: 2}
	w.curT = c.P.typOf(parslyPkg, "Cursor")
	w.tokT = c.P.typOf(parslyPkg, "Token")
	w.exprT = c.P.typ("ast", "Expression")
	for a, v := range c.E.globals {
		if a.Op != "global" || !strings.HasPrefix(a.Aux, modPath+"/parser.") || v.Op != "alloc" || v.Typ == nil || !types.Identical(v.Typ, w.tokT) {
			continue
		}
		code, ok := c.E.globals[fieldAddr(v, "Code")]
		if !ok {
			continue
		}
		n, ok := code.intVal()
		if !ok {
			continue
		}
		ti := &tokInfo{term: v, code: n, name: strings.TrimPrefix(a.Aux, modPath+"/parser.")}
		if m := c.E.globals[fieldAddr(v, "Matcher")]; m != nil {
			for m.Op == "iface" || m.Op == "conv" {
				m = m.Args[0]
			}
			ti.match = shortName(strings.SplitN(m.Aux, "!", 2)[0])
			if m.Op != "call" {
				ti.match = m.String()
			}
			for _, x := range m.Args {
				if s, ok := textOf(x); ok {
					ti.alts = append(ti.alts, s)
				}
			}
			if len(ti.alts) == 1 && (strings.HasSuffix(ti.match, "NewFragment") || strings.HasSuffix(ti.match, "NewByte") || strings.HasSuffix(ti.match, "NewRunes")) {
				ti.text = ti.alts[0]
			}
		}
		if p := w.byCode[n]; p != nil {
			undecided("tokens %s and %s have the same code", p.name, ti.name)
		}
		w.byTerm[v], w.byName[ti.name], w.byCode[n] = ti, ti, ti
	}
	if len(w.byTerm) < 30 {
		undecided("only %d tokens of the grammar were found", len(w.byTerm))
	}
	for _, n := range grammarProds {
		if f := c.P.fnOpt("parser", n); f != nil {
			w.prods[f] = n
		}
	}
	return w
}

// textOf is the text of a constant string, byte or list of runes.
func textOf(x *Term) (string, bool) {
	for x.Op == "conv" || x.Op == "iface" {
		x = x.Args[0]
	}
	if s, ok := x.strVal(); ok {
		return s, true
	}
	if n, ok := x.intVal(); ok && n > 0 && n < 128 {
		return string(rune(n)), true
	}
	if x.Op == "list" {
		s := ""
		for _, y := range x.Args {
			t, ok := textOf(y)
			if !ok {
				return "", false
			}
			s += t
		}
		return s, s != ""
	}
	return "", false
}

// parslyCode is one of the library's own token codes.
func (w *grammarWorld) parslyCode(name string) int64 {
	o, ok := w.c.P.ByPath[parslyPkg].Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		undecided("%s.%s is not a constant", parslyPkg, name)
	}
	n, _ := constant.Int64Val(o.Val())
	return n
}

// gpath is one way a production can go.
type gpath struct {
	w   *grammarWorld
	o   Outcome
	evs []*gev
	txt map[*Term]int // offset of a match -> number
}

// gev is one step of a path: a token match or a call of another production.
type gev struct {
	ev     *Event
	n      int
	match  bool
	tok    string // name of the matched token, mEOF or mInvalid
	name   string // production
	cursor *Term
	res    []*Term
	failed bool // the production reported an error
	loop   bool
}

func (w *grammarWorld) begin(opaque ...string) {
	w.opaque = map[*ssa.Function]bool{}
	for f, n := range w.prods {
		for _, x := range opaque {
			if x == n {
				w.opaque[f] = true
			}
		}
	}
	w.e = w.c.E.with(Opts{Opaque: func(f *ssa.Function) bool { return w.opaque[f] }, Model: w.model, MaxUnroll: 12, Havoc: w.havoc,
		InlineDep: func(f *ssa.Function) bool {
			return fnPkg(f) == parslyPkg && (f.Name() == "NewCursor" || f.Name() == "HasMore")
		}})
}

func (w *grammarWorld) model(e *Eng, s *State, ev *Event) (*Term, bool) {
	f := ev.Callee
	if f == nil {
		return nil, false
	}
	if fnPkg(f) == parslyPkg && f.Signature.Recv() != nil {
		switch f.Name() {
		case "MatchOne", "MatchAny", "MatchAfterOptional", "FindMatch":
			return w.modelMatch(e, s, ev), true
		case "Text", "Bytes", "UnquotedText":
			off := e.load(s, fieldAddr(ev.Args[0], "Offset"), types.Typ[types.Int])
			tok := e.load(s, fieldAddr(ev.Args[0], "Token"), types.NewPointer(w.tokT))
			t := mk("text", "", types.Typ[types.String], ev.Args[1], off)
			if ti := w.byTerm[tok]; ti != nil {
				min := int64(1)
				switch {
				case strings.HasSuffix(ti.match, "NewBlock"):
					min = 2
				case ti.text != "":
					min = int64(len(ti.text))
				}
				s.assume(tLt0(tSub(mk("len", "", types.Typ[types.Int], t), tInt(min))), false)
			} else if tok == w.eof || tok == w.inv {
				s.assume(tEq0(mk("len", "", types.Typ[types.Int], t)), true)
			}
			if f.Name() == "UnquotedText" {
				return e.mkSlice(s, t, tInt(1), tSub(e.lenOf(s, t), tInt(1))), true
			}
			if f.Name() == "Bytes" {
				return mk("conv", "bytes", types.NewSlice(types.Typ[types.Uint8]), t), true
			}
			return t, true
		case "NewError":
			n := s.fresh("cursorerr")
			t := mk("call", "NewError!"+itoa(n), types.Universe.Lookup("error").Type())
			s.assume(tEq(t, tNil()), false)
			return t, true
		}
	}
	name, ok := w.prods[f]
	if !ok || !w.opaque[f] {
		return nil, false
	}
	n := s.fresh("prod")
	ev.Kind = "prod"
	ev.Name = name
	sig := f.Signature
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, mk("prod", fmt.Sprintf("%s#%d.%d", name, n, i), sig.Results().At(i).Type()))
	}
	// a production may replace an expression it is given the address of
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	args := append([]*Term(nil), ev.Args...)
	for i := 0; i < sig.Params().Len(); i++ {
		if p, ok := sig.Params().At(i).Type().Underlying().(*types.Pointer); ok && types.IsInterface(p.Elem()) {
			old := e.load(s, ev.Args[i+off], p.Elem())
			args = append(args, old)
			e.store(s, ev.Args[i+off], mk("prod", fmt.Sprintf("%s#%d", name, n), p.Elem(), old), p.Elem(), ev.Pos, nil)
		}
	}
	if cur := w.cursorArg(ev); cur != nil {
		if w.posAt == nil {
			w.posAt = map[*Event]*Term{}
		}
		w.posAt[ev] = s.value(e.load(s, fieldAddr(cur, "Pos"), types.Typ[types.Int]))
		e.store(s, fieldAddr(cur, "Pos"), mk("sym", "pos#"+itoa(s.fresh("pos")), types.Typ[types.Int]), types.Typ[types.Int], ev.Pos, ev.In)
	}
	if strings.HasPrefix(name, "Builder.") {
		for i, st := 0, structOf(w.c.P.typ("parser", "Builder")); i < st.NumFields(); i++ {
			e.store(s, fieldAddr(args[0], st.Field(i).Name()), mk("sym", fmt.Sprintf("builder#%d.%d", n, i), st.Field(i).Type()), st.Field(i).Type(), ev.Pos, ev.In)
		}
	}
	ev.Args = args
	switch len(rs) {
	case 0:
	case 1:
		ev.Result = rs[0]
	default:
		ev.Result = mk("tuple", "", nil, rs...)
	}
	s.emit(ev)
	if len(rs) == 0 {
		return nil, true
	}
	return ev.Result, true
}

func (w *grammarWorld) cursorArg(ev *Event) *Term {
	for i, a := range ev.Args {
		var t types.Type
		if ev.Callee.Signature.Recv() != nil {
			i--
		}
		if i >= 0 && i < ev.Callee.Signature.Params().Len() {
			t = ev.Callee.Signature.Params().At(i).Type()
		} else if i < 0 {
			t = ev.Callee.Signature.Recv().Type()
		}
		if t != nil && types.Identical(t, types.NewPointer(w.curT)) {
			return a
		}
	}
	return nil
}

func (w *grammarWorld) modelMatch(e *Eng, s *State, ev *Event) *Term {
	cur := ev.Args[0]
	var cands []*tokInfo
	add := func(t *Term) {
		if t.Op == "list" {
			for _, x := range t.Args {
				ti := w.byTerm[x]
				if ti == nil {
					undecided("unknown candidate token %s", x)
				}
				cands = append(cands, ti)
			}
			return
		}
		if t.Op == "nil" {
			return
		}
		ti := w.byTerm[t]
		if ti == nil {
			es, ok := e.elems(s, t, types.NewPointer(w.tokT))
			if !ok {
				undecided("candidate tokens %s are not known", t)
			}
			for _, x := range es {
				if w.byTerm[x] == nil {
					undecided("unknown candidate token %s", x)
				}
				cands = append(cands, w.byTerm[x])
			}
			return
		}
		cands = append(cands, ti)
	}
	switch ev.Callee.Name() {
	case "MatchAfterOptional":
		add(ev.Args[2])
	default:
		add(ev.Args[1])
	}
	site := fmt.Sprint(ev.Pos)
	occ := 0
	for _, x := range s.events {
		if x.Kind == "match" && x.Pos == ev.Pos {
			occ++
		}
	}
	// candidates that can be told apart from earlier ones
	var opts []int
	for i := range cands {
		dup := false
		for j := 0; j < i; j++ {
			dup = dup || cands[j] == cands[i]
		}
		if !dup && (w.only == nil || w.only(site, cands, i)) {
			opts = append(opts, i)
		}
	}
	if occ >= w.maxOcc {
		opts = nil
	}
	pos, size := e.load(s, fieldAddr(cur, "Pos"), types.Typ[types.Int]), e.load(s, fieldAddr(cur, "InputSize"), types.Typ[types.Int])
	atEnd, known := s.eval(tLt0(tSub(pos, size)))
	atEnd = known && !atEnd
	more := known && !atEnd && (ev.Callee.Name() == "MatchOne" || ev.Callee.Name() == "MatchAny")
	if atEnd {
		opts = nil
	} else if !(more && len(cands) > 0 && w.sure[cands[0].name]) {
		opts = append(opts, len(cands)) // nothing
	}
	if !more {
		opts = append(opts, len(cands)+1) // end of input
	}
	if len(opts) == 0 { // too many matches
		opts = []int{len(cands)}
	}
	pick := opts[w.choose(fmt.Sprintf("%s/%d", site, occ), len(opts))]
	tok := w.inv
	name := mInvalid
	switch {
	case pick < len(cands):
		tok, name = cands[pick].term, cands[pick].name
	case pick == len(cands)+1:
		tok, name = w.eof, mEOF
	}
	m := fieldAddr(cur, "lastMatch")
	off := mk("sym", "off#"+itoa(s.fresh("off")), types.Typ[types.Int])
	set := func(a, v *Term, t types.Type) { e.store(s, a, v, t, ev.Pos, ev.In) }
	set(fieldAddr(m, "Token"), tok, types.NewPointer(w.tokT))
	set(fieldAddr(m, "Offset"), off, types.Typ[types.Int])
	set(fieldAddr(m, "Size"), mk("sym", "size"+off.Aux, types.Typ[types.Int]), types.Typ[types.Int])
	before := e.load(s, fieldAddr(cur, "Pos"), types.Typ[types.Int])
	if pick < len(cands) {
		set(fieldAddr(cur, "Pos"), tAdd(off, mk("sym", "size"+off.Aux, types.Typ[types.Int])), types.Typ[types.Int])
	} else if ev.Callee.Name() == "MatchAfterOptional" {
		set(fieldAddr(cur, "Pos"), mk("sym", "pos#"+itoa(s.fresh("pos")), types.Typ[types.Int]), types.Typ[types.Int])
	}
	var names []*Term
	for _, t := range cands {
		names = append(names, tStr(t.name))
	}
	s.emit(&Event{Kind: "match", Name: name, Callee: ev.Callee, Args: append([]*Term{cur, off, before}, names...), Result: m, Pos: ev.Pos, In: ev.In})
	return m
}

// choose replays or extends the script of choices of this run.
func (w *grammarWorld) choose(key string, n int) int {
	if i, ok := w.options[key]; ok {
		for j, k := range w.order {
			if k == key {
				_ = i
				return w.script[j]
			}
		}
	}
	if w.options == nil {
		w.options = map[string]int{}
	}
	w.options[key] = n
	w.order = append(w.order, key)
	if len(w.script) < len(w.order) {
		w.script = append(w.script, 0)
	}
	return w.script[len(w.order)-1]
}

// run enumerates every choice of matched tokens of a production and passes each path to f.
func (w *grammarWorld) run(fn *ssa.Function, opaque []string, mkArgs func(s *State) []*Term, f func(p *gpath)) {
	w.begin(opaque...)
	w.script = nil
	for n := 0; ; n++ {
		if n > 20000 {
			undecided("too many token sequences")
		}
		w.order, w.options = nil, nil
		s := newState()
		w.setup(s)
		args := mkArgs(s)
		for _, o := range w.e.Call(s, fn, args, nil) {
			f(w.path(o))
		}
		// next choice
		w.script = w.script[:len(w.order)]
		i := len(w.script) - 1
		for ; i >= 0; i-- {
			if w.script[i]+1 < w.options[w.order[i]] {
				w.script[i]++
				w.script = w.script[:i+1]
				break
			}
		}
		if i < 0 {
			return
		}
	}
}

func (w *grammarWorld) setup(s *State) {
	w.cursor = symPtr("cursor", types.NewPointer(w.curT), s)
	w.eof = symPtr("token EOF", types.NewPointer(w.tokT), s)
	w.inv = symPtr("token Invalid", types.NewPointer(w.tokT), s)
	s.heap[fieldAddr(w.eof, "Code")] = tInt(w.parslyCode("EOF"))
	s.heap[fieldAddr(w.inv, "Code")] = tInt(w.parslyCode("Invalid"))
	s.heap[fieldAddr(w.cursor, "Pos")] = mk("sym", "pos#start", types.Typ[types.Int])
	s.heap[fieldAddr(w.cursor, "Input")] = symT("input", types.NewSlice(types.Typ[types.Uint8]))
	s.heap[fieldAddr(w.cursor, "InputSize")] = w.c.E.lenOf(s, symT("input", types.NewSlice(types.Typ[types.Uint8])))
}

func (w *grammarWorld) path(o Outcome) *gpath {
	p := &gpath{w: w, o: o, txt: map[*Term]int{}}
	p.collect(o.St.events, false)
	return p
}

func (p *gpath) collect(evs []*Event, loop bool) {
	for _, ev := range evs {
		switch ev.Kind {
		case "match":
			g := &gev{ev: ev, match: true, tok: ev.Name, cursor: ev.Args[0], loop: loop, n: len(p.evs)}
			p.txt[ev.Args[1]] = len(p.evs)
			p.evs = append(p.evs, g)
		case "prod":
			g := &gev{ev: ev, name: ev.Name, cursor: p.w.cursorArg(ev), loop: loop, n: len(p.evs)}
			if ev.Result != nil {
				g.res = []*Term{ev.Result}
				if ev.Result.Op == "tuple" {
					g.res = ev.Result.Args
				}
				last := g.res[len(g.res)-1]
				if last.Typ != nil && last.Typ.String() == "error" {
					if v, k := p.o.St.eval(tEq(last, tNil())); k && !v {
						g.failed = true
					}
				}
			}
			p.evs = append(p.evs, g)
		case "loop":
			for _, it := range ev.Loop.Iters {
				if !it.Back {
					p.collect(it.Events, true)
				}
			}
		}
	}
}

// err is the error result of the path: 1 an error, 0 none, -1 unknown.
func (p *gpath) err() int {
	n := p.o.resLen()
	if n == 0 {
		return 0
	}
	r := p.o.R(n - 1)
	if r.Typ != nil && r.Typ.String() != "error" && r.Op != "nil" && !isErrTerm(r) {
		return 0
	}
	nn, k := isNonNilErr(p.o.St, r)
	if !k {
		return -1
	}
	if nn {
		return 1
	}
	return 0
}

func isErrTerm(t *Term) bool { return t.Op == "iface" || t.Op == "call" || t.Op == "extract" }

func (o Outcome) resLen() int { return len(o.Results) }

// steps are the matches and calls in order, for messages.
func (p *gpath) steps() string {
	var r []string
	for _, g := range p.evs {
		if g.match {
			r = append(r, g.tok+"@"+p.sx(g.cursor))
		} else {
			x := g.name + "(" + p.sx(g.cursor) + ")"
			if g.failed {
				x += "!"
			}
			r = append(r, x)
		}
	}
	return strings.Join(r, " ")
}

// matched: the tokens matched on the outer cursor, in order.
func (p *gpath) matched() (r []*gev) {
	for _, g := range p.evs {
		if g.match {
			r = append(r, g)
		}
	}
	return
}

func (p *gpath) calls(name string) (r []*gev) {
	for _, g := range p.evs {
		if !g.match && g.name == name {
			r = append(r, g)
		}
	}
	return
}

func (p *gpath) anyFailed() *gev {
	for _, g := range p.evs {
		if g.failed {
			return g
		}
	}
	return nil
}

// sx writes a value as an expression over the matched texts and the results of the productions.
func (p *gpath) sx(t *Term) string { return p.sxd(t, 0) }

func (p *gpath) sxd(t *Term, d int) string {
	if t == nil {
		return "nil"
	}
	st := p.o.St
	t = st.value(t)
	if t == p.w.cursor {
		return "c"
	}
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case "nil":
		return "nil"
	case "iface", "conv", "assert":
		return p.sxd(t.Args[len(t.Args)-1], d)
	case "const":
		if s, ok := t.strVal(); ok {
			return fmt.Sprintf("%q", s)
		}
		return t.String()
	case "rtype":
		if rt := rtOf(t); rt != nil {
			return rt.String()
		}
		return t.String()
	case "text":
		if n, ok := p.txt[t.Args[1]]; ok && n < len(p.evs) && p.evs[n].cursor == t.Args[0] {
			return "text(" + p.evs[n].tok + ")"
		}
		return "text(of another match)"
	case "bin":
		if t.Aux == "+" && len(t.Args) == 2 {
			return "concat(" + p.sxd(t.Args[0], d+1) + "," + p.sxd(t.Args[1], d+1) + ")"
		}
	case "slice":
		lo, hi := t.Args[1], t.Args[2]
		if lo == nil {
			lo = tInt(0)
		}
		full := p.w.e.lenOf(st, t.Args[0])
		x := p.sxd(t.Args[0], d+1)
		if hi == nil {
			hi = full
		}
		a, b := st.value(lo), st.value(tSub(full, hi))
		if a.String() == "1" && b.String() == "1" {
			return "inner(" + x + ")"
		}
		return "slice(" + x + "," + p.posName(a) + ",-" + p.posName(b) + ")"
	case "prod":
		s := t.Aux
		if i := strings.Index(s, "#"); i >= 0 {
			// number the calls of a production
			k, id := 0, s
			if j := strings.LastIndex(s, "."); j > i {
				id = s[:j]
			}
			for _, g := range p.evs {
				if !g.match && g.name == s[:i] {
					k++
					if p.idOf(g) == id {
						break
					}
				}
			}
			s = s[:i]
			if k > 1 {
				s += itoa(k)
			}
			if j := strings.LastIndex(t.Aux, "."); j > i && t.Aux[j:] != ".0" {
				s += t.Aux[j:]
			}
		}
		if len(t.Args) > 0 {
			s += "(" + p.sxd(t.Args[0], d+1) + ")"
		}
		return s
	case "struct", "zero":
		if t.Typ != nil && structOf(t.Typ) != nil {
			return p.structSx(t.Typ, func(n string, ft types.Type) *Term { return p.w.e.field(st, t, n, ft) }, d)
		}
	case "alloc", "sym", "fieldaddr":
		T := t.Typ
		if t.Op != "alloc" && T != nil {
			if pt, ok := T.Underlying().(*types.Pointer); ok {
				T = pt.Elem()
			} else {
				break
			}
		}
		if T == nil {
			break
		}
		if types.Identical(T, p.w.curT) {
			return "cur(" + p.sxd(p.w.e.load(st, fieldAddr(t, "Input"), nil), d+1) + ")"
		}
		if n := namedOf(T); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/ast") && structOf(T) != nil {
			return p.structSx(T, func(f string, ft types.Type) *Term { return p.w.e.load(st, fieldAddr(t, f), ft) }, d)
		}
	case "append", "list", "makeslice":
	}
	if t.Op == "append" {
		s := "append(" + p.sxd(t.Args[0], d+1)
		for _, x := range t.Args[1:] {
			s += "," + p.sxd(x, d+1)
		}
		return s + ")"
	}
	if t.Typ != nil {
		if sl, ok := t.Typ.Underlying().(*types.Slice); ok {
			if es, ok := p.w.e.elems(st, t, sl.Elem()); ok && len(es) < 8 {
				var r []string
				for _, x := range es {
					r = append(r, p.sxd(x, d+1))
				}
				return "[" + strings.Join(r, " ") + "]"
			}
		}
	}
	return t.String()
}

func (p *gpath) posName(t *Term) string {
	return t.String()
}

func (p *gpath) idOf(g *gev) string {
	if len(g.res) == 0 {
		return ""
	}
	a := g.res[0].Aux
	if j := strings.LastIndex(a, "."); j >= 0 {
		a = a[:j]
	}
	return a
}

func (p *gpath) structSx(T types.Type, get func(string, types.Type) *Term, d int) string {
	st := structOf(T)
	name := T.String()
	if n := namedOf(T); n != nil {
		name = n.Obj().Name()
	}
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		r = append(r, p.sxd(get(f.Name(), f.Type()), d+1))
	}
	return name + "(" + strings.Join(r, ",") + ")"
}

var _ = token.NoPos
var _ = sort.Strings
