package main

import (
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"go/token"
	"golang.org/x/tools/go/ssa"
)

// Event is an observable action on a trace: a call that is not inlined, a write to a map, a loop summary ...
type Event struct {
	Kind   string // call, dyn, invoke, mapupdate, loop, store, go, panic
	Name   string
	Callee *ssa.Function
	Args   []*Term
	Result *Term
	Loop   *LoopInfo
	Pos    token.Pos
	In     *ssa.Function
	NFacts int
}

// LoopInfo summarises a loop that was not unrolled.
type LoopInfo struct {
	Key   string
	It    *Term // iteration number of the summarised (arbitrary) iteration
	Iters []IterTrace
	Pos   token.Pos
	Fn    *ssa.Function
	Head  *ssa.BasicBlock
	Init  map[*Term]*Term // values of the loop's variables before it
}

// IterTrace is one partition of the loop body of an arbitrary iteration.
type IterTrace struct {
	Back   bool // reaches the back edge (otherwise leaves the loop)
	St     *State
	Events []*Event
	Next   map[*Term]*Term // values of the loop's variables after the iteration
}

type storeRec struct {
	addr *Term
	val  *Term
	typ  types.Type
	pos  token.Pos
	fn   *ssa.Function
}

type ival struct{ lo, hi int64 }

const (
	negInf = math.MinInt64 / 4
	posInf = math.MaxInt64 / 4
)

// State is the abstract memory and path knowledge of one trace partition.
type State struct {
	heap   map[*Term]*Term
	facts  []*Term // atoms assumed, negations as "not"
	known  map[*Term]bool
	rng    map[*Term]ival
	eqc    map[*Term]*Term // non-integer equality with constants
	typ    map[*Term]types.Type
	events []*Event
	stores []storeRec
	cnt    map[string]int
	havoc  map[*Term]*Term // struct bases whose unwritten fields are unknown (none = zero)
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, known: map[*Term]bool{}, rng: map[*Term]ival{}, eqc: map[*Term]*Term{},
		typ: map[*Term]types.Type{}, cnt: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[*Term]*Term, len(s.heap)+4), known: make(map[*Term]bool, len(s.known)+2), rng: make(map[*Term]ival, len(s.rng)+2),
		eqc: make(map[*Term]*Term, len(s.eqc)), typ: make(map[*Term]types.Type, len(s.typ)), cnt: make(map[string]int, len(s.cnt))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.rng {
		n.rng[k] = v
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	for k, v := range s.typ {
		n.typ[k] = v
	}
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.events = s.events[:len(s.events):len(s.events)]
	n.stores = s.stores[:len(s.stores):len(s.stores)]
	return n
}

func (s *State) emit(e *Event) {
	e.NFacts = len(s.facts)
	s.events = append(s.events, e)
}

func (s *State) fresh(key string) int {
	n := s.cnt[key]
	s.cnt[key] = n + 1
	return n
}

// ---- intervals ----

func typeRange(t types.Type) ival {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return ival{0, 255}
			case types.Uint16:
				return ival{0, 65535}
			case types.Uint32:
				return ival{0, math.MaxUint32}
			case types.Uint, types.Uint64, types.Uintptr:
				return ival{0, posInf}
			case types.Int8:
				return ival{-128, 127}
			case types.Int16:
				return ival{-32768, 32767}
			case types.Int32:
				return ival{math.MinInt32, math.MaxInt32}
			}
		}
	}
	return ival{negInf, posInf}
}

func addSat(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	r := a + b
	if r > posInf {
		return posInf
	}
	if r < negInf {
		return negInf
	}
	return r
}

func mulSat(a, k int64) int64 {
	if a <= negInf || a >= posInf {
		if k == 0 {
			return 0
		}
		if (a > 0) == (k > 0) {
			return posInf
		}
		return negInf
	}
	if a != 0 && (a*k)/a != k {
		if (a > 0) == (k > 0) {
			return posInf
		}
		return negInf
	}
	return a * k
}

func (s *State) rangeOf(t *Term) ival {
	if n, ok := t.intVal(); ok {
		return ival{n, n}
	}
	l := toLin(t)
	c := l.c
	// range of the non-constant part
	l.c = 0
	lo, hi := int64(0), int64(0)
	n := 0
	for b, k := range l.co {
		if k == 0 {
			continue
		}
		n++
		r := s.baseRange(b)
		if k < 0 {
			r = ival{mulSat(r.hi, k), mulSat(r.lo, k)}
		} else {
			r = ival{mulSat(r.lo, k), mulSat(r.hi, k)}
		}
		lo, hi = addSat(lo, r.lo), addSat(hi, r.hi)
	}
	if n > 1 {
		// relational bounds on the normalised combination
		base, neg := normBase(l)
		if r, ok := s.rng[base]; ok {
			if neg {
				r = ival{-r.hi, -r.lo}
			}
			if r.lo > lo {
				lo = r.lo
			}
			if r.hi < hi {
				hi = r.hi
			}
		}
	}
	return ival{addSat(lo, c), addSat(hi, c)}
}

func normBase(l linear) (*Term, bool) {
	neg := leadNeg(l)
	if neg {
		l = linComb(linear{co: map[*Term]int64{}}, l, -1)
	}
	l.c = 0
	return fromLin(l), neg
}

func (s *State) baseRange(b *Term) ival {
	r := ival{negInf, posInf}
	switch b.Op {
	case "len", "cap", "it":
		r.lo = 0
	}
	if b.Typ != nil {
		tr := typeRange(b.Typ)
		if tr.lo > r.lo {
			r.lo = tr.lo
		}
		if tr.hi < r.hi {
			r.hi = tr.hi
		}
	}
	if k, ok := s.rng[b]; ok {
		if k.lo > r.lo {
			r.lo = k.lo
		}
		if k.hi < r.hi {
			r.hi = k.hi
		}
	}
	return r
}

// proveLT0 decides d<0: 1 yes, -1 no, 0 unknown.
func (s *State) proveLT0(d *Term) int {
	r := s.rangeOf(d)
	if r.hi < 0 {
		return 1
	}
	if r.lo >= 0 {
		return -1
	}
	l := toLin(d)
	nv := 0
	for _, k := range l.co {
		if k != 0 {
			nv++
		}
	}
	// one-step relational reasoning: combine with one known bound on a multi-variable combination
	keys := make([]*Term, 0, len(s.rng))
	for base := range s.rng {
		if base.Op == "lin" {
			keys = append(keys, base)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, base := range keys {
		rg := s.rng[base]
		bl := toLin(base)
		for _, sg := range []int64{1, -1} {
			// d = sg*base + rest
			rest := fromLin(linComb(l, bl, -sg))
			if rest == d {
				continue
			}
			rr := s.rangeOf(rest)
			hi, lo := rg.hi, rg.lo
			if sg < 0 {
				hi, lo = mulSat(rg.lo, -1), mulSat(rg.hi, -1)
			}
			if addSat(rr.hi, hi) < 0 {
				return 1
			}
			if addSat(rr.lo, lo) >= 0 {
				return -1
			}
		}
	}
	return 0
}

// lowerBound is a lower bound of t, combining up to depth known bounds on sums of several variables.
func (s *State) lowerBound(t *Term, depth int) int64 {
	best := s.rangeOf(t).lo
	if depth == 0 || best >= 0 {
		return best
	}
	l := toLin(t)
	var keys []*Term
	for base := range s.rng {
		if base.Op != "lin" {
			continue
		}
		for v, k := range toLin(base).co {
			if k != 0 && l.co[v] != 0 {
				keys = append(keys, base)
				break
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, base := range keys {
		rg := s.rng[base]
		bl := toLin(base)
		for _, sg := range []int64{1, -1} {
			lo := rg.lo
			if sg < 0 {
				lo = mulSat(rg.hi, -1)
			}
			if lo <= negInf {
				continue
			}
			rest := fromLin(linComb(l, bl, -sg))
			if rest == t {
				continue
			}
			if b := addSat(s.lowerBound(rest, depth-1), lo); b > best {
				best = b
			}
		}
	}
	return best
}

// eval decides a boolean term under the facts of the state.
func (s *State) eval(c *Term) (val, known bool) {
	if b, ok := c.boolVal(); ok {
		return b, true
	}
	if v, ok := s.known[c]; ok {
		return v, true
	}
	switch c.Op {
	case "not":
		v, k := s.eval(c.Args[0])
		return !v, k
	case "lt0":
		switch s.proveLT0(c.Args[0]) {
		case 1:
			return true, true
		case -1:
			return false, true
		}
	case "eq0":
		r := s.rangeOf(c.Args[0])
		if r.lo == 0 && r.hi == 0 {
			return true, true
		}
		if r.lo > 0 || r.hi < 0 {
			return false, true
		}
		if s.proveLT0(c.Args[0]) == 1 || s.proveLT0(tSub(tInt(0), c.Args[0])) == 1 {
			return false, true
		}
		// d != 0 recorded for another constant shift is handled through s.known
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if isNonNil(a) && b.Op == "nil" || isNonNil(b) && a.Op == "nil" {
			return false, true
		}
		if distinctTerms(a, b) {
			return false, true
		}
		ca, cb := s.eqc[a], s.eqc[b]
		if a.isConst() || a.Op == "nil" {
			ca = a
		}
		if b.isConst() || b.Op == "nil" {
			cb = b
		}
		if ca != nil && cb != nil {
			return ca == cb, true
		}
	case "beq":
		a, k1 := s.eval(c.Args[0])
		b, k2 := s.eval(c.Args[1])
		if k1 && k2 {
			return a == b, true
		}
	case "typeis":
		x := c.Args[0]
		if t, ok := s.typ[x]; ok {
			return typeMatches(t, c.Typ), true
		}
		if v, ok := s.known[tEq(x, tNil())]; ok && v {
			return false, true
		}
	case "and":
		a, k1 := s.eval(c.Args[0])
		b, k2 := s.eval(c.Args[1])
		if k1 && !a || k2 && !b {
			return false, true
		}
		if k1 && k2 {
			return true, true
		}
	case "or":
		a, k1 := s.eval(c.Args[0])
		b, k2 := s.eval(c.Args[1])
		if k1 && a || k2 && b {
			return true, true
		}
		if k1 && k2 {
			return false, true
		}
	}
	return false, false
}

func typeMatches(dyn, want types.Type) bool {
	if i, ok := want.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, i)
	}
	return types.Identical(dyn, want)
}

// isNonNil recognises terms that cannot be nil.
func isNonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "makemap", "makeslice", "func", "closure", "global", "iface", "rtype", "nonnil":
		return true
	case "call":
		n := t.Aux
		return strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "errors.New") || strings.HasPrefix(n, "reflect.TypeOf") || strings.HasPrefix(n, "reflect.New")
	case "fieldaddr", "indexaddr":
		return isNonNil(t.Args[0])
	case "slice":
		return isNonNil(t.Args[0])
	}
	return false
}

// distinctTerms recognises pairs that denote different values for certain.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "rtype" && b.Op == "rtype" {
		return true
	}
	if a.isConst() && b.isConst() {
		return true
	}
	fr := func(t *Term) bool {
		return t.Op == "alloc" || t.Op == "makemap" || t.Op == "makeslice" || t.Op == "global"
	}
	if fr(a) && fr(b) {
		return true
	}
	if a.Op == "alloc" && b.Op == "sym" || b.Op == "alloc" && a.Op == "sym" {
		return true
	}
	return false
}

// assume adds an atom to the facts; it returns false when the state becomes contradictory.
func (s *State) assume(c *Term, val bool) bool {
	for c.Op == "not" {
		c, val = c.Args[0], !val
	}
	if v, k := s.eval(c); k {
		return v == val
	}
	if c.Op == "beq" {
		a, k := s.eval(c.Args[0])
		if k {
			return s.assume(c.Args[1], a == val)
		}
		a, k = s.eval(c.Args[1])
		if k {
			return s.assume(c.Args[0], a == val)
		}
	}
	s.known[c] = val
	if val {
		s.facts = append(s.facts, c)
	} else {
		s.facts = append(s.facts, tNot(c))
	}
	switch c.Op {
	case "lt0":
		d := toLin(c.Args[0])
		k := d.c
		d.c = 0
		base, neg := normBase(d)
		// base*sg + k < 0
		r := ival{negInf, posInf}
		if val {
			r.hi = -k - 1
		} else {
			r.lo = -k
		}
		if neg {
			r = ival{mulSat(r.hi, -1), mulSat(r.lo, -1)}
		}
		return s.narrow(base, r)
	case "eq0":
		d := toLin(c.Args[0])
		k := d.c
		d.c = 0
		base, neg := normBase(d)
		v := -k
		if neg {
			v = k
		}
		if val {
			return s.narrow(base, ival{v, v})
		}
		cur := s.rangeOf(base)
		if cur.lo == v {
			return s.narrow(base, ival{v + 1, posInf})
		}
		if cur.hi == v {
			return s.narrow(base, ival{negInf, v - 1})
		}
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if val {
			if a.isConst() || a.Op == "nil" {
				s.eqc[b] = a
			} else if b.isConst() || b.Op == "nil" {
				s.eqc[a] = b
			}
			// x==nil: len(x)==0
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if p[1].Op == "nil" {
					s.narrow(mk("len", "", types.Typ[types.Int], p[0]), ival{0, 0})
				}
			}
		}
	case "typeis":
		if val {
			if _, isI := c.Typ.Underlying().(*types.Interface); !isI {
				s.typ[c.Args[0]] = c.Typ
			}
			s.known[tEq(c.Args[0], tNil())] = false
		}
	}
	return true
}

func (s *State) narrow(base *Term, r ival) bool {
	cur, ok := s.rng[base]
	if !ok {
		cur = ival{negInf, posInf}
	}
	if r.lo > cur.lo {
		cur.lo = r.lo
	}
	if r.hi < cur.hi {
		cur.hi = r.hi
	}
	// disequalities recorded earlier tighten the ends
	for i := 0; i < 4; i++ {
		if v, ok := s.known[tEq0(tAdd(base, tInt(-cur.lo)))]; ok && !v && cur.lo > negInf {
			cur.lo++
			continue
		}
		if v, ok := s.known[tEq0(tAdd(base, tInt(-cur.hi)))]; ok && !v && cur.hi < posInf {
			cur.hi--
			continue
		}
		break
	}
	s.rng[base] = cur
	full := s.rangeOf(base)
	return full.lo <= full.hi
}

// value simplifies an integer term whose interval is a single point.
func (s *State) value(t *Term) *Term {
	if t == nil || t.isConst() {
		return t
	}
	if c, ok := s.eqc[t]; ok {
		return c
	}
	if t.Op == "lin" || t.Typ != nil && isInteger(t.Typ) {
		if r := s.rangeOf(t); r.lo == r.hi {
			return tInt(r.lo)
		}
	}
	if v, ok := s.known[t]; ok {
		return tBool(v)
	}
	return t
}

func (s *State) factStrings(from int) string {
	var p []string
	for _, f := range s.facts[from:] {
		p = append(p, f.String())
	}
	if len(p) > 12 {
		p = append([]string{"…"}, p[len(p)-12:]...)
	}
	return strings.Join(p, " && ")
}

// signature identifies states that differ in path facts only.
func (s *State) signature(sb *strings.Builder) {
	ids := make([]int, 0, len(s.heap))
	m := map[int]*Term{}
	for a, v := range s.heap {
		ids = append(ids, a.id)
		m[a.id] = v
	}
	sort.Ints(ids)
	for _, id := range ids {
		sb.WriteString(strconv.Itoa(id))
		sb.WriteByte('=')
		sb.WriteString(strconv.Itoa(m[id].id))
		sb.WriteByte(';')
	}
	sb.WriteByte('|')
	for _, e := range s.events {
		sb.WriteString(e.Kind)
		sb.WriteString(e.Name)
		for _, a := range e.Args {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		if e.Loop != nil {
			sb.WriteString(e.Loop.Key)
		}
		sb.WriteByte(';')
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(len(s.stores)))
}

// join intersects the path facts of two states with equal signature.
func (s *State) join(o *State) {
	inO := map[*Term]bool{}
	for _, f := range o.facts {
		inO[f] = true
	}
	var nf []*Term
	for _, f := range s.facts {
		if inO[f] {
			nf = append(nf, f)
		}
	}
	s.facts = nf
	for k, v := range s.known {
		if w, ok := o.known[k]; !ok || w != v {
			delete(s.known, k)
		}
	}
	for k, v := range s.rng {
		w, ok := o.rng[k]
		if !ok {
			delete(s.rng, k)
			continue
		}
		if w.lo < v.lo {
			v.lo = w.lo
		}
		if w.hi > v.hi {
			v.hi = w.hi
		}
		s.rng[k] = v
	}
	for k, v := range s.eqc {
		if o.eqc[k] != v {
			delete(s.eqc, k)
		}
	}
	for k, v := range s.typ {
		if w, ok := o.typ[k]; !ok || !types.Identical(v, w) {
			delete(s.typ, k)
		}
	}
	for k, v := range o.cnt {
		if s.cnt[k] < v {
			s.cnt[k] = v
		}
	}
}
