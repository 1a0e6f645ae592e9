package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register(&Property{ID: "C25", Level: "other", MinObs: 50,
		Explanation: "Key normalization is analysed once per type of key: a key of any integer type, behind a pointer too, becomes the int of the same value, bytes become text, a nil pointer becomes nil, and other values stay as they are. Preparing a key for a map is analysed once per pair of the key's type and the map's key type: the decision whether the map can hold the key is, for every valuation of the conditions it is made of that arithmetic allows, exactly whether the value is representable in the map's key type, and the key looked up with is the conversion of the value.",
		Assumptions: []string{"reflect does what its documentation says", "integer conversions wrap as the Go specification says"},
		Run:         runC25})
}

func runC25(c *Ctx) {
	w := c.newLibWorld()
	w.e = c.E.with(Opts{Model: keyFacts, MaxUnroll: 8})
	w.normalize()
	w.keyValues()
}

func intKinds() []types.BasicKind {
	return []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64}
}

func (w *libWorld) normalize() {
	c := w.c
	intT := types.Typ[types.Int]
	str := types.Typ[types.String]
	run := func(v *Term, s *State, what string, ok func(r *Term, st *State) bool) {
		n := 0
		for _, o := range w.e.Call(s, w.nrm, []*Term{v}, nil) {
			n++
			if o.Panic != nil {
				c.FailAt(c.P.pos(o.Pos), "normalizing %s panics", what)
				continue
			}
			if r := o.R(0); r == nil || !ok(r, o.St) {
				c.FailAt(c.P.pos(o.Pos), "%s becomes %v", what, r)
			}
		}
		if n == 0 {
			undecided("no outcome")
		}
	}
	isNilR := func(r *Term, st *State) bool { return st.value(r) == tNil() }
	sameInt := func(x *Term) func(r *Term, st *State) bool {
		return func(r *Term, st *State) bool {
			if r.Op != "iface" || !types.Identical(r.Typ, intT) {
				return false
			}
			v := r.Args[0]
			for v.Op == "conv" && isInteger(v.Typ) && stdSizes.Sizeof(v.Typ) == 8 {
				v = v.Args[0]
			}
			return v == x
		}
	}
	text := func(x *Term) func(r *Term, st *State) bool {
		return func(r *Term, st *State) bool {
			if r.Op != "iface" || !isString(r.Typ) {
				return false
			}
			v := r.Args[0]
			if s, ok := v.strVal(); ok && s == "" {
				l, k := st.eval(tEq0(lenOf(x)))
				return k && l || st.value(x) == tNil()
			}
			return v.Op == "conv" && v.Args[0] == x
		}
	}
	pos := c.P.fnPos(w.nrm)
	for _, k := range intKinds() {
		T := types.Typ[k]
		c.Check("normalize", T.Name(), pos, func() {
			x := symT("x", T)
			run(anyOf(T, x), newState(), T.Name(), sameInt(x))
			PT := types.NewPointer(T)
			s := newState()
			p := symPtr("ptr", PT, s)
			s.heap[p] = x
			run(anyOf(PT, p), s, "a pointer to "+T.Name(), sameInt(x))
			run(anyOf(PT, tNil()), newState(), "a nil *"+T.Name(), isNilR)
		})
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	c.Check("normalize", "text", pos, func() {
		x := symT("x", str)
		same := func(r *Term, st *State) bool { return r == anyOf(str, x) }
		run(anyOf(str, x), newState(), "text", same)
		PT := types.NewPointer(str)
		s := newState()
		p := symPtr("ptr", PT, s)
		s.heap[p] = x
		run(anyOf(PT, p), s, "a pointer to text", same)
		run(anyOf(PT, tNil()), newState(), "a nil *string", isNilR)
		b := symT("bytes", bytesT)
		run(anyOf(bytesT, b), newState(), "bytes", text(b))
		run(anyOf(bytesT, tNil()), newState(), "nil bytes", func(r *Term, st *State) bool {
			return r.Op == "iface" && isString(r.Typ) && (r.Args[0] == tStr("") || r.Args[0].Op == "conv" && r.Args[0].Args[0] == tNil())
		})
		PB := types.NewPointer(bytesT)
		s = newState()
		p = symPtr("ptr", PB, s)
		s.heap[p] = b
		run(anyOf(PB, p), s, "a pointer to bytes", text(b))
		run(anyOf(PB, tNil()), newState(), "a nil *[]byte", isNilR)
	})
	for _, k := range []types.BasicKind{types.Float32, types.Float64} {
		PT := types.NewPointer(types.Typ[k])
		c.Check("normalize", "*"+types.Typ[k].Name(), pos, func() {
			run(anyOf(PT, tNil()), newState(), "a nil pointer to a float", isNilR)
			s := newState()
			run(anyOf(PT, symPtr("ptr", PT, s)), s, "a pointer to a float", func(r *Term, st *State) bool { return !isNilR(r, st) })
		})
	}
	c.Check("normalize", "nil", pos, func() { run(tNil(), newState(), "nil", isNilR) })
	c.Check("normalize", "other values", pos, func() {
		for _, T := range append(w.dynTypes(), c.P.typOf("reflect", "Kind")) {
			b, _ := T.(*types.Basic)
			if _, ok := T.(*types.Pointer); ok || b != nil && b.Info()&types.IsInteger != 0 || types.Identical(T, bytesT) {
				continue
			}
			v := anyOf(T, symT("x", T))
			run(v, newState(), T.String(), func(r *Term, st *State) bool { return r == v })
		}
	})
}

// keyFacts folds what reflect tells of keys and types that are known.
func keyFacts(e *Eng, s *State, ev *Event) (*Term, bool) {
	name := evName(ev)
	if strings.HasPrefix(name, "invoke reflect.Type.") {
		T := rtOf(ev.Args[0])
		if T == nil {
			return nil, false
		}
		var U types.Type
		if len(ev.Args) > 1 {
			U = rtOf(ev.Args[1])
		}
		switch strings.TrimPrefix(name, "invoke reflect.Type.") {
		case "AssignableTo":
			if U != nil {
				return tBool(types.AssignableTo(T, U)), true
			}
		case "ConvertibleTo":
			if U != nil {
				return tBool(types.ConvertibleTo(T, U)), true
			}
		case "Implements":
			if U != nil {
				if i, ok := U.Underlying().(*types.Interface); ok {
					return tBool(types.Implements(T, i)), true
				}
			}
		case "Comparable":
			return tBool(types.Comparable(T)), true
		}
		return nil, false
	}
	if ev.Kind != "call" || !strings.HasPrefix(name, "(reflect.Value).") {
		return nil, false
	}
	v := ev.Args[0]
	conv := isCall(v, "(reflect.Value).Convert") && rtOf(v.Args[1]) != nil
	back := conv && isCall(v.Args[0], "(reflect.Value).Convert")
	switch strings.TrimPrefix(name, "(reflect.Value).") {
	case "Type":
		if conv {
			return v.Args[1], true
		}
	case "Kind":
		if conv {
			return s.value(e.KindT(v.Args[1])), true
		}
	case "Int", "Uint":
		if conv && !back {
			return symT("converted", rtOf(v.Args[1])), true
		}
		if isCall(v, "reflect.ValueOf") && v.Args[0].Op == "iface" && isInteger(v.Args[0].Typ) {
			return v.Args[0].Args[0], true
		}
	case "Interface":
		if back {
			return anyOf(rtOf(v.Args[1]), symT("roundtrip", rtOf(v.Args[1]))), true
		}
	case "Comparable":
		if isCall(v, "reflect.ValueOf") && v.Args[0].Op == "iface" {
			return tBool(types.Comparable(v.Args[0].Typ)), true
		}
	}
	return reflectFacts(e, s, ev)
}

// combo is a valuation of the conditions on a value, its conversion and the conversion back, that occurs.
type combo struct{ neg, cneg, rt, fits bool }

// combos are the valuations that occur for values of type T converted to K.
func combos(T, K types.Type) []combo {
	rng := func(t types.Type) (lo, hi *big.Int, bits uint, signed bool) {
		bits = uint(stdSizes.Sizeof(t)) * 8
		signed = t.Underlying().(*types.Basic).Info()&types.IsUnsigned == 0
		one := big.NewInt(1)
		if signed {
			hi = new(big.Int).Lsh(one, bits-1)
			lo = new(big.Int).Neg(hi)
		} else {
			hi = new(big.Int).Lsh(one, bits)
			lo = big.NewInt(0)
		}
		hi = new(big.Int).Sub(hi, one)
		return
	}
	wrap := func(x *big.Int, t types.Type) *big.Int {
		_, hi, bits, _ := rng(t)
		m := new(big.Int).Lsh(big.NewInt(1), bits)
		r := new(big.Int).Mod(x, m)
		if r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return r
	}
	lo, hi, _, _ := rng(T)
	klo, khi, _, _ := rng(K)
	seen := map[combo]bool{}
	var r []combo
	add := func(x *big.Int) {
		if x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
			return
		}
		cv := wrap(x, K)
		k := combo{neg: x.Sign() < 0, cneg: cv.Sign() < 0, rt: wrap(cv, T).Cmp(x) == 0, fits: x.Cmp(klo) >= 0 && x.Cmp(khi) <= 0}
		if !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	// the behaviour changes at multiples of powers of two only
	pts := []*big.Int{big.NewInt(0)}
	for _, b := range []uint{7, 8, 15, 16, 31, 32, 63, 64} {
		p := new(big.Int).Lsh(big.NewInt(1), b)
		pts = append(pts, p, new(big.Int).Neg(p))
	}
	for _, a := range pts {
		for _, b := range pts {
			sum := new(big.Int).Add(a, b)
			for d := int64(-1); d <= 1; d++ {
				add(new(big.Int).Add(sum, big.NewInt(d)))
			}
		}
	}
	return r
}

func (w *libWorld) keyValues() {
	c := w.c
	f := w.keyOf
	pos := c.P.fnPos(f)
	b := types.Typ
	anyT := types.Type(types.NewInterfaceType(nil, nil))
	dur := c.P.typOf("time", "Duration")
	stringer := c.P.typOf("fmt", "Stringer")
	var ints []types.Type
	for _, k := range intKinds() {
		ints = append(ints, b[k])
	}
	ints = append(ints, dur, b[types.Uintptr])
	named := types.NewNamed(types.NewTypeName(0, nil, "key", nil), b[types.String], nil)
	flag := types.NewNamed(types.NewTypeName(0, nil, "flag", nil), b[types.Bool], nil)
	others := []types.Type{b[types.String], named, b[types.Bool], flag, b[types.Float64], b[types.Float32], c.P.typOf("time", "Time"), types.NewStruct(nil, nil), types.NewPointer(b[types.String])}
	keysT := append(append([]types.Type{anyT, stringer}, ints...), others...)
	for _, K := range keysT {
		K := K
		c.Check("key", "nil for "+typeName(K), pos, func() {
			_, isI := K.Underlying().(*types.Interface)
			for _, o := range w.e.Call(newState(), f, []*Term{rtype(K), tNil()}, nil) {
				if o.Panic != nil {
					c.FailAt(c.P.pos(o.Pos), "a nil key panics")
					continue
				}
				if v, k := o.St.eval(o.R(1)); !k || v != isI {
					c.FailAt(c.P.pos(o.Pos), "whether a map with keys of type %v holds nil is %v", K, o.R(1))
				}
				if isI && (!isCall(o.R(0), "reflect.Zero") || !sameR(o.R(0).Args[0], K)) {
					c.FailAt(c.P.pos(o.Pos), "the nil key is %v", o.R(0))
				}
			}
		})
		c.Check("key", "for "+typeName(K), pos, func() {
			vals := append(append([]types.Type{types.NewSlice(b[types.String]), types.NewMap(b[types.String], b[types.Int]), types.NewPointer(b[types.Int])}, ints...), others...)
			for _, T := range vals {
				w.keyPair(T, K)
			}
		})
	}
}

func (w *libWorld) keyPair(T, K types.Type) {
	c := w.c
	x := symT("x", T)
	v := anyOf(T, x)
	name := typeName(T) + " for keys of type " + typeName(K)
	assignable := types.AssignableTo(T, K)
	bothInts := isInteger(T) && isInteger(K)
	kb, okK := K.Underlying().(*types.Basic)
	tb, okT := T.Underlying().(*types.Basic)
	sameKind := okK && okT && kb.Kind() == tb.Kind()
	outs := w.e.Call(newState(), w.keyOf, []*Term{rtype(K), v}, nil)
	if len(outs) == 0 {
		undecided("no outcome")
	}
	for _, o := range outs {
		if o.Panic != nil {
			c.FailAt(c.P.pos(o.Pos), "a key of type %s panics", name)
			continue
		}
		ok := o.R(1)
		asIs := isCall(o.R(0), "reflect.ValueOf") && o.R(0).Args[0] == v
		converted := isCall(o.R(0), "(reflect.Value).Convert") && isCall(o.R(0).Args[0], "reflect.ValueOf") && o.R(0).Args[0].Args[0] == v && sameR(o.R(0).Args[1], K)
		value := func(st *State, want bool) {
			got, known := st.eval(ok)
			if !known || got != want {
				c.FailAt(c.P.pos(o.Pos), "whether a map holds a key of type %s is %v where %v is right [%s]", name, ok, want, st.factStrings(0))
			}
			if want && !(asIs && assignable || converted) {
				c.FailAt(c.P.pos(o.Pos), "the key of type %s is looked up as %v", name, o.R(0))
			}
		}
		rt := binop(token.EQL, symT("roundtrip", T), x, T, types.Typ[types.Bool])
		switch {
		case !types.Comparable(T):
			value(o.St, false)
		case assignable:
			value(o.St, true)
		case bothInts:
			for _, k := range combos(T, K) {
				st := o.St.clone()
				if !st.assume(tLt0(x), k.neg) || !st.assume(tLt0(symT("converted", K)), k.cneg) || !st.assume(rt, k.rt) {
					continue // the path is not taken
				}
				value(st, k.fits)
			}
		case sameKind && types.ConvertibleTo(T, K):
			st := o.St.clone()
			if st.assume(rt, true) {
				value(st, true)
			}
		default:
			value(o.St, false)
		}
	}
}
