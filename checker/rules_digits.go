package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C27", Level: "other", MinObs: 39,
		Explanation: "The function that prints an integer is interpreted over the 64-bit integers of each sign and number of decimal digits, an interval at a time: numbers are kept as quotients and remainders of the printed number, bytes as tables over their values. On every path of every case the text written at the start of the destination must be the minus sign of a negative number and then exactly its decimal digits, its length is returned, and no access lies outside the destination of at least 20 bytes.",
		Assumptions: []string{"int and uint have 64 bits", "the caller provides 20 bytes (C15)"},
		Run:         runC27})
}

// A dnum is an integer a*((m/c)%d)+b+l*L, where m is the magnitude of the printed number, d 0 stands for no
// remainder and L is the length of the destination; or, with tab, a function of (m/c)%d.
type dnum struct {
	a, c, d, b *big.Int
	l          int64
	tab        map[int64]*big.Int
}

type dstr struct { // a constant text, a part of it, or the printed text of the number
	s      string
	lo     dnum
	n      int64
	digits bool
}

type darr struct {
	name string
	l    int64 // length: l*L+n
	n    int64
	mem  map[[2]int64]dnum
}

type dslice struct {
	arr      *darr
	off, len dnum
}

type dptr struct {
	arr *darr
	idx dnum
}

type dcell struct{ v interface{} }

type dsplit struct{ at *big.Int } // the case has to be split: below at, and from at on
type dfork struct{}
type dstop struct{ pos token.Pos }

type digits struct {
	c        *Ctx
	neg      bool
	lo, hi   *big.Int // of m
	cons     map[string][2]*big.Int
	decided  []bool
	used     int
	steps    int
	dst      *darr
	copied   bool
	pos      token.Pos
	problems []string
}

var big0, big1 = big.NewInt(0), big.NewInt(1)

func dconst(n *big.Int) dnum { return dnum{a: big0, c: big1, d: big0, b: n} }
func dint(n int64) dnum      { return dconst(big.NewInt(n)) }

func (n dnum) key() string { return n.c.String() + "%" + n.d.String() }

// dom is the interval of (m/c)%d.
func (d *digits) dom(n dnum) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Quo(d.lo, n.c), new(big.Int).Quo(d.hi, n.c)
	if n.d.Sign() > 0 {
		if new(big.Int).Quo(lo, n.d).Cmp(new(big.Int).Quo(hi, n.d)) == 0 {
			lo, hi = new(big.Int).Rem(lo, n.d), new(big.Int).Rem(hi, n.d)
		} else {
			lo, hi = big0, new(big.Int).Sub(n.d, big1)
		}
	}
	if x, ok := d.cons[n.key()]; ok {
		if x[0].Cmp(lo) > 0 {
			lo = x[0]
		}
		if x[1].Cmp(hi) < 0 {
			hi = x[1]
		}
	}
	return
}

// rng is the interval of a number without the length.
func (d *digits) rng(n dnum) (lo, hi *big.Int) {
	if n.tab != nil {
		x, y := d.dom(n)
		for v := x.Int64(); v <= y.Int64(); v++ {
			t := n.tab[v]
			if lo == nil || t.Cmp(lo) < 0 {
				lo = t
			}
			if hi == nil || t.Cmp(hi) > 0 {
				hi = t
			}
		}
		return
	}
	if n.a.Sign() == 0 {
		return n.b, n.b
	}
	x, y := d.dom(n)
	lo, hi = new(big.Int).Mul(x, n.a), new(big.Int).Mul(y, n.a)
	if lo.Cmp(hi) > 0 {
		lo, hi = hi, lo
	}
	return new(big.Int).Add(lo, n.b), new(big.Int).Add(hi, n.b)
}

func (d *digits) isConst(n dnum) bool { return n.tab == nil && n.a.Sign() == 0 && n.l == 0 }

// norm brings a number into its shortest form.
func (d *digits) norm(n dnum) dnum {
	if n.a.Sign() == 0 && n.tab == nil {
		return dnum{a: big0, c: big1, d: big0, b: n.b, l: n.l}
	}
	lo, hi := d.rng(n)
	if lo.Cmp(hi) == 0 {
		return dnum{a: big0, c: big1, d: big0, b: lo, l: n.l}
	}
	if n.d.Sign() > 0 {
		x, y := new(big.Int).Quo(d.lo, n.c), new(big.Int).Quo(d.hi, n.c)
		if y.Cmp(n.d) < 0 && x.Sign() >= 0 { // the remainder changes nothing
			old := n.key()
			n.d = big0
			if v, ok := d.cons[old]; ok {
				d.cons[n.key()] = v
			}
		}
	}
	return n
}

// table turns a number of few values into a function of them.
func (d *digits) table(n dnum) (map[int64]*big.Int, bool) {
	if n.tab != nil {
		return n.tab, true
	}
	if n.l != 0 {
		return nil, false
	}
	lo, hi := d.dom(n)
	if new(big.Int).Sub(hi, lo).Cmp(big.NewInt(2000)) > 0 {
		return nil, false
	}
	t := map[int64]*big.Int{}
	for v := lo.Int64(); v <= hi.Int64(); v++ {
		t[v] = new(big.Int).Add(new(big.Int).Mul(n.a, big.NewInt(v)), n.b)
	}
	return t, true
}

func (d *digits) stop(format string, args ...interface{}) {
	d.problems = append(d.problems, fmt.Sprintf(format, args...))
	panic(dstop{d.pos})
}

// fit wraps a number into an integer type.
func (d *digits) fit(n dnum, T types.Type) dnum {
	b, ok := T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		undecided("arithmetic of %s", T)
	}
	bits, signed := uint(64), b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		bits = 32
	}
	mod := new(big.Int).Lsh(big1, bits)
	min, max := big.NewInt(0), new(big.Int).Sub(mod, big1)
	if signed {
		h := new(big.Int).Lsh(big1, bits-1)
		min, max = new(big.Int).Neg(h), new(big.Int).Sub(h, big1)
	}
	wrap := func(x *big.Int) *big.Int {
		y := new(big.Int).Sub(x, min)
		y.Mod(y, mod)
		return y.Add(y, min)
	}
	if n.tab == nil {
		lo, hi := d.rng(n)
		if n.l != 0 {
			return d.norm(n)
		}
		wl := wrap(lo)
		shift := new(big.Int).Sub(wl, lo)
		if new(big.Int).Add(hi, shift).Cmp(max) <= 0 {
			n.b = new(big.Int).Add(n.b, shift)
			return d.norm(n)
		}
		t, ok := d.table(n)
		if !ok {
			if n.d.Sign() == 0 && n.a.CmpAbs(big1) == 0 && n.c.Cmp(big1) == 0 { // split where it wraps
				at := new(big.Int).Sub(max, new(big.Int).Add(n.b, shift))
				if n.a.Sign() > 0 {
					panic(dsplit{at.Add(at, big1)})
				}
				panic(dsplit{at.Neg(at)})
			}
			undecided("a number between %v and %v wraps around in %s", lo, hi, T)
		}
		n.tab = t
	}
	r := map[int64]*big.Int{}
	for v, x := range n.tab {
		r[v] = wrap(x)
	}
	n.tab = r
	n.a = big1
	return d.norm(n)
}

// apply maps one or two numbers of few values.
func (d *digits) apply(x, y dnum, f func(a, b *big.Int) *big.Int) (dnum, bool) {
	if x.l != 0 || y.l != 0 {
		return dnum{}, false
	}
	cx, cy := d.isConst(x), d.isConst(y)
	if cx && cy {
		r := f(x.b, y.b)
		return dconst(r), true
	}
	k := x
	if cx {
		k = y
	}
	if !cx && !cy && x.key() != y.key() {
		return dnum{}, false
	}
	tx, ok1 := d.table(x)
	ty, ok2 := d.table(y)
	if !cx && !ok1 || !cy && !ok2 {
		return dnum{}, false
	}
	lo, hi := d.dom(k)
	r := map[int64]*big.Int{}
	for v := lo.Int64(); v <= hi.Int64(); v++ {
		a, b := x.b, y.b
		if !cx {
			a = tx[v]
		}
		if !cy {
			b = ty[v]
		}
		if r[v] = f(a, b); r[v] == nil {
			return dnum{}, false
		}
	}
	return d.norm(dnum{a: big1, c: k.c, d: k.d, b: big0, tab: r}), true
}

func (d *digits) add(x, y dnum, sign int64) dnum {
	s := big.NewInt(sign)
	if x.tab == nil && y.tab == nil {
		l := x.l + sign*y.l
		b := new(big.Int).Add(x.b, new(big.Int).Mul(s, y.b))
		ya := new(big.Int).Mul(s, y.a)
		switch {
		case y.a.Sign() == 0:
			return d.norm(dnum{a: x.a, c: x.c, d: x.d, b: b, l: l})
		case x.a.Sign() == 0:
			return d.norm(dnum{a: ya, c: y.c, d: y.d, b: b, l: l})
		case x.key() == y.key():
			return d.norm(dnum{a: new(big.Int).Add(x.a, ya), c: x.c, d: x.d, b: b, l: l})
		}
		// x - k*(x/k) is x%k
		for _, p := range [][2]dnum{{x, dnum{a: ya, c: y.c, d: y.d}}, {dnum{a: ya, c: y.c, d: y.d}, x}} {
			u, q := p[0], p[1]
			k, rem := new(big.Int).QuoRem(q.c, u.c, new(big.Int))
			if rem.Sign() != 0 || k.Cmp(big1) <= 0 || new(big.Int).Add(new(big.Int).Mul(u.a, k), q.a).Sign() != 0 {
				continue
			}
			same := u.d.Sign() == 0 && q.d.Sign() == 0 || u.d.Sign() > 0 && new(big.Int).Mul(q.d, k).Cmp(u.d) == 0
			if u.d.Sign() > 0 && q.d.Sign() == 0 {
				continue
			}
			if same {
				return d.norm(dnum{a: u.a, c: u.c, d: k, b: b, l: l})
			}
		}
	}
	r, ok := d.apply(x, y, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, new(big.Int).Mul(s, b)) })
	if !ok {
		undecided("a sum of unrelated numbers")
	}
	return r
}

func (d *digits) mul(x, y dnum) dnum {
	if d.isConst(x) {
		x, y = y, x
	}
	if d.isConst(y) && x.tab == nil && x.l == 0 {
		return d.norm(dnum{a: new(big.Int).Mul(x.a, y.b), c: x.c, d: x.d, b: new(big.Int).Mul(x.b, y.b)})
	}
	r, ok := d.apply(x, y, func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) })
	if !ok {
		undecided("a product of numbers")
	}
	return r
}

func (d *digits) quo(x, y dnum, rem bool) dnum {
	if d.isConst(y) && y.b.Sign() > 0 && x.l == 0 && !d.isConst(x) && x.tab == nil && x.a.Cmp(big1) == 0 && x.b.Sign() == 0 {
		k := y.b
		var r dnum
		done := false
		if !rem {
			if x.d.Sign() == 0 {
				r, done = dnum{a: big1, c: new(big.Int).Mul(x.c, k), d: big0, b: big0}, true
			} else if q, m := new(big.Int).QuoRem(x.d, k, new(big.Int)); m.Sign() == 0 {
				r, done = dnum{a: big1, c: new(big.Int).Mul(x.c, k), d: q, b: big0}, true
			}
		} else if x.d.Sign() == 0 || new(big.Int).Rem(x.d, k).Sign() == 0 {
			r, done = dnum{a: big1, c: x.c, d: k, b: big0}, true
		}
		if done {
			return d.norm(r)
		}
	}
	r, ok := d.apply(x, y, func(a, b *big.Int) *big.Int {
		if b.Sign() == 0 {
			return nil
		}
		if rem {
			return new(big.Int).Rem(a, b)
		}
		return new(big.Int).Quo(a, b)
	})
	if !ok {
		undecided("a quotient of numbers")
	}
	return r
}

// less decides x < y.
func (d *digits) less(x, y dnum) bool {
	t := d.add(x, y, -1)
	lo, hi := d.rng(t)
	if t.l != 0 { // L is 20 or more
		L := big.NewInt(20 * t.l)
		if t.l > 0 && new(big.Int).Add(lo, L).Sign() >= 0 {
			return false
		}
		if t.l < 0 && new(big.Int).Add(hi, L).Sign() < 0 {
			return true
		}
		undecided("a comparison with the length of the destination")
	}
	if hi.Sign() < 0 {
		return true
	}
	if lo.Sign() >= 0 {
		return false
	}
	return d.restrict(t, func(v *big.Int) bool { return v.Sign() < 0 })
}

// restrict chooses a side of a condition on a number and notes what it says.
func (d *digits) restrict(t dnum, f func(v *big.Int) bool) bool {
	lo, hi := d.dom(t)
	if t.tab == nil && t.d.Sign() == 0 {
		if _, ok := d.cons[t.key()]; !ok {
			// the values from which the condition changes are those of m from some bound on
			x, y := new(big.Int).Set(lo), new(big.Int).Set(hi)
			at := func(v *big.Int) bool {
				return f(new(big.Int).Add(new(big.Int).Mul(v, t.a), t.b))
			}
			first := at(x)
			for new(big.Int).Sub(y, x).Cmp(big1) > 0 {
				mid := new(big.Int).Rsh(new(big.Int).Add(x, y), 1)
				if at(mid) == first {
					x = mid
				} else {
					y = mid
				}
			}
			panic(dsplit{new(big.Int).Mul(y, t.c)})
		}
	}
	tab, ok := d.table(t)
	if !ok {
		undecided("a condition on a number between %v and %v", lo, hi)
	}
	if d.used == len(d.decided) {
		panic(dfork{})
	}
	want := d.decided[d.used]
	d.used++
	var a, b *big.Int
	n := int64(0)
	for v := lo.Int64(); v <= hi.Int64(); v++ {
		if f(tab[v]) == want {
			if a == nil {
				a = big.NewInt(v)
			}
			b = big.NewInt(v)
			n++
		}
	}
	if n == 0 {
		panic(dstop{}) // no such number
	}
	if n == b.Int64()-a.Int64()+1 { // else keep the wider interval
		d.cons[t.key()] = [2]*big.Int{a, b}
	}
	return want
}

func (d *digits) cond(op token.Token, x, y dnum) bool {
	switch op {
	case token.LSS:
		return d.less(x, y)
	case token.GEQ:
		return !d.less(x, y)
	case token.GTR:
		return d.less(y, x)
	case token.LEQ:
		return !d.less(y, x)
	}
	t := d.add(x, y, -1)
	eq := false
	lo, hi := d.rng(t)
	switch {
	case t.l != 0:
		undecided("a comparison with the length of the destination")
	case lo.Sign() == 0 && hi.Sign() == 0:
		eq = true
	case lo.Sign() > 0 || hi.Sign() < 0:
	case lo.Sign() == 0 || hi.Sign() == 0 || t.d.Sign() > 0 || t.tab != nil:
		eq = d.restrict(t, func(v *big.Int) bool { return v.Sign() == 0 })
	default: // zero lies between: split below it first
		d.restrict(t, func(v *big.Int) bool { return v.Sign() < 0 })
		undecided("an equation of numbers")
	}
	return eq == (op == token.EQL)
}

// at is the position of an access within an array.
func (d *digits) at(a *darr, i dnum) [2]int64 {
	if i.tab != nil || i.a.Sign() != 0 || !i.b.IsInt64() {
		undecided("an access at an unknown position")
	}
	l, n := i.l, i.b.Int64()
	// 0 <= l*L+n < a.l*L+a.n
	in := l == 0 && n >= 0 && (a.l == 0 && n < a.n || a.l == 1 && n < 20+a.n) || l == 1 && a.l == 1 && n < a.n && n >= -20
	if !in {
		d.stop("an access lies outside the %s", a.name)
	}
	return [2]int64{l, n}
}

func (d *digits) write(a *darr, i, v dnum) {
	p := d.at(a, i)
	if a == d.dst {
		if d.copied && p[0] == 1 {
			d.stop("the text is overwritten after it was moved to the start")
		}
		if a.l == 1 && p[0] == 0 {
			for q := range a.mem { // may be the same place
				if q[0] == 1 {
					delete(a.mem, q)
				}
			}
			d.copied = true
		}
	}
	a.mem[p] = v
}

func (d *digits) digit(p int) dnum {
	return d.norm(dnum{a: big1, c: pow10(p), d: big.NewInt(10), b: big.NewInt('0')})
}

func pow10(k int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil) }

// text is the text of the number.
func (d *digits) text() []dnum {
	var r []dnum
	if d.neg {
		r = append(r, dint('-'))
	}
	for p := len(d.hi.String()) - 1; p >= 0; p-- {
		r = append(r, d.digit(p))
	}
	return r
}

// isDigit decides whether a byte is the digit p of the number.
func (d *digits) isDigit(v dnum, p int) bool {
	v = d.norm(v)
	if d.isConst(v) {
		x := d.digit(p)
		return d.isConst(x) && x.b.Cmp(v.b) == 0
	}
	tab, ok := d.table(v)
	if !ok {
		return false
	}
	r, m := new(big.Int).QuoRem(pow10(p), v.c, new(big.Int))
	if m.Sign() != 0 {
		return false
	}
	if v.d.Sign() > 0 && new(big.Int).Rem(v.d, new(big.Int).Mul(r, big.NewInt(10))).Sign() != 0 {
		return false
	}
	lo, hi := d.dom(v)
	for x := lo.Int64(); x <= hi.Int64(); x++ {
		want := new(big.Int).Quo(big.NewInt(x), r)
		want.Rem(want, big.NewInt(10)).Add(want, big.NewInt('0'))
		if tab[x].Cmp(want) != 0 {
			return false
		}
	}
	return true
}

// bytes are the bytes of a text or slice.
func (d *digits) bytes(v interface{}) []dnum {
	var r []dnum
	switch x := v.(type) {
	case dstr:
		if x.digits {
			return d.text()
		}
		for j := int64(0); j < x.n; j++ {
			r = append(r, d.char(x.s, d.add(x.lo, dint(j), 1)))
		}
	case dslice:
		if x.len.l != 0 || !d.isConst(x.len) {
			undecided("a part of unknown length")
		}
		for j := int64(0); j < x.len.b.Int64(); j++ {
			p := d.at(x.arr, d.add(x.off, dint(j), 1))
			b, ok := x.arr.mem[p]
			if !ok {
				d.stop("the %s is read where nothing was written", x.arr.name)
			}
			r = append(r, b)
		}
	default:
		undecided("bytes of %T", v)
	}
	return r
}

func (d *digits) char(s string, i dnum) dnum {
	r, ok := d.apply(i, dint(0), func(a, _ *big.Int) *big.Int {
		if a.Sign() < 0 || !a.IsInt64() || a.Int64() >= int64(len(s)) {
			return nil
		}
		return big.NewInt(int64(s[a.Int64()]))
	})
	if !ok {
		d.stop("a character outside of the text is taken")
	}
	return r
}

func (d *digits) length(v interface{}) dnum {
	switch x := v.(type) {
	case dstr:
		if x.digits {
			return dint(int64(len(d.text())))
		}
		return dint(x.n)
	case dslice:
		return x.len
	case *darr:
		r := dint(x.n)
		r.l = x.l
		return r
	}
	undecided("the length of %T", v)
	return dnum{}
}

// call interprets a function on one path.
func (d *digits) call(f *ssa.Function, args []interface{}, depth int) interface{} {
	if depth > 40 || f.Blocks == nil {
		undecided("a call of %s", f)
	}
	d.c.E.Funcs[f] = true
	env := map[ssa.Value]interface{}{}
	for i, p := range f.Params {
		env[p] = args[i]
	}
	var get func(v ssa.Value) interface{}
	get = func(v ssa.Value) interface{} {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil {
				return nil
			}
			switch c.Value.Kind() {
			case constant.Int:
				n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
				return dconst(n)
			case constant.Bool:
				return constant.BoolVal(c.Value)
			case constant.String:
				s := constant.StringVal(c.Value)
				return dstr{s: s, lo: dint(0), n: int64(len(s))}
			}
			undecided("the constant %s", c)
		}
		r, ok := env[v]
		if !ok {
			undecided("the value %s in %s", v, f)
		}
		return r
	}
	num := func(v ssa.Value) dnum {
		n, ok := get(v).(dnum)
		if !ok {
			undecided("the number %s", v)
		}
		return n
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var next *ssa.BasicBlock
		phis := map[ssa.Value]interface{}{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range b.Preds {
				if p == prev {
					phis[phi] = get(phi.Edges[k])
				}
			}
		}
		for k, v := range phis {
			env[k] = v
		}
		for _, in := range b.Instrs {
			if d.steps++; d.steps > 20000 {
				d.stop("printing does not end within 20000 steps")
			}
			if in.Pos().IsValid() {
				d.pos = in.Pos()
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				if p, ok := get(x.X).(bool); ok {
					q := get(x.Y).(bool)
					env[x] = (p == q) == (x.Op == token.EQL)
					break
				}
				p, q := num(x.X), num(x.Y)
				switch x.Op {
				case token.ADD:
					env[x] = d.fit(d.add(p, q, 1), x.Type())
				case token.SUB:
					env[x] = d.fit(d.add(p, q, -1), x.Type())
				case token.MUL:
					env[x] = d.fit(d.mul(p, q), x.Type())
				case token.QUO, token.REM:
					if d.isConst(q) && q.b.Sign() == 0 {
						d.stop("a division by zero")
					}
					env[x] = d.fit(d.quo(p, q, x.Op == token.REM), x.Type())
				case token.SHL, token.SHR:
					if !d.isConst(q) || q.b.Cmp(big.NewInt(63)) > 0 || q.b.Sign() < 0 {
						undecided("a shift")
					}
					k := dconst(new(big.Int).Lsh(big1, uint(q.b.Int64())))
					if x.Op == token.SHL {
						env[x] = d.fit(d.mul(p, k), x.Type())
						break
					}
					lo, _ := d.rng(p)
					if lo.Sign() < 0 {
						undecided("a shift of a negative number")
					}
					env[x] = d.fit(d.quo(p, k, false), x.Type())
				case token.AND, token.OR, token.XOR:
					r, ok := d.apply(p, q, func(a, b *big.Int) *big.Int {
						switch x.Op {
						case token.AND:
							return new(big.Int).And(a, b)
						case token.OR:
							return new(big.Int).Or(a, b)
						}
						return new(big.Int).Xor(a, b)
					})
					if !ok {
						undecided("a bit operation")
					}
					env[x] = d.fit(r, x.Type())
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					env[x] = d.cond(x.Op, p, q)
				default:
					undecided("the operator %s", x.Op)
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.SUB:
					env[x] = d.fit(d.add(dint(0), num(x.X), -1), x.Type())
				case token.NOT:
					env[x] = !get(x.X).(bool)
				case token.MUL:
					switch p := get(x.X).(type) {
					case dptr:
						v, ok := p.arr.mem[d.at(p.arr, p.idx)]
						if !ok {
							d.stop("the %s is read where nothing was written", p.arr.name)
						}
						env[x] = v
					case *dcell:
						env[x] = p.v
					default:
						undecided("a load of %s", x.X)
					}
				default:
					undecided("the operator %s", x.Op)
				}
			case *ssa.Convert:
				switch v := get(x.X).(type) {
				case dnum:
					env[x] = d.fit(v, x.Type())
				case dstr:
					env[x] = v
					if !isString(x.Type()) {
						bs := d.bytes(v)
						a := &darr{name: "copy", n: int64(len(bs)), mem: map[[2]int64]dnum{}}
						for j, y := range bs {
							a.mem[[2]int64{0, int64(j)}] = y
						}
						env[x] = dslice{a, dint(0), dint(a.n)}
					}
				default:
					undecided("a conversion to %s", x.Type())
				}
			case *ssa.ChangeType:
				env[x] = get(x.X)
			case *ssa.Alloc:
				T := x.Type().Underlying().(*types.Pointer).Elem()
				if at, ok := T.Underlying().(*types.Array); ok {
					a := &darr{name: "local array", n: at.Len(), mem: map[[2]int64]dnum{}}
					for j := int64(0); j < a.n && j < 1000; j++ {
						a.mem[[2]int64{0, j}] = dint(0)
					}
					env[x] = a
				} else {
					c := &dcell{}
					if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						c.v = dint(0)
					} else if ok && b.Info()&types.IsBoolean != 0 {
						c.v = false
					}
					env[x] = c
				}
			case *ssa.MakeSlice:
				n := num(x.Len)
				if !d.isConst(n) {
					undecided("a slice of unknown length")
				}
				a := &darr{name: "local slice", n: n.b.Int64(), mem: map[[2]int64]dnum{}}
				for j := int64(0); j < a.n && j < 1000; j++ {
					a.mem[[2]int64{0, j}] = dint(0)
				}
				env[x] = dslice{a, dint(0), n}
			case *ssa.IndexAddr:
				i := num(x.Index)
				switch v := get(x.X).(type) {
				case dslice:
					d.inside(i, v.len)
					env[x] = dptr{v.arr, d.add(v.off, i, 1)}
				case *darr:
					env[x] = dptr{v, i}
				default:
					undecided("an element of %s", x.X)
				}
			case *ssa.Index:
				v, ok := get(x.X).(dstr)
				if !ok || v.digits {
					undecided("an element of %s", x.X)
				}
				env[x] = d.char(v.s, d.add(v.lo, num(x.Index), 1))
			case *ssa.Lookup:
				v, ok := get(x.X).(dstr)
				if !ok || v.digits {
					undecided("an element of %s", x.X)
				}
				env[x] = d.char(v.s, d.add(v.lo, num(x.Index), 1))
			case *ssa.Slice:
				v := get(x.X)
				ln := d.length(v)
				lo, hi := dint(0), ln
				if x.Low != nil {
					lo = num(x.Low)
				}
				if x.High != nil {
					hi = num(x.High)
				}
				n := d.add(hi, lo, -1)
				switch y := v.(type) {
				case dstr:
					if y.digits || !d.isConst(n) {
						undecided("a part of a text")
					}
					at := d.add(y.lo, lo, 1)
					a, b := d.rng(at)
					if a.Sign() < 0 || new(big.Int).Add(b, n.b).Cmp(big.NewInt(int64(len(y.s)))) > 0 || n.b.Sign() < 0 {
						d.stop("a part outside of the text is taken")
					}
					env[x] = dstr{s: y.s, lo: at, n: n.b.Int64()}
				case dslice:
					d.inside(lo, d.add(ln, dint(1), 1))
					env[x] = dslice{y.arr, d.add(y.off, lo, 1), n}
				case *darr:
					d.inside(lo, d.add(ln, dint(1), 1))
					env[x] = dslice{y, lo, n}
				default:
					undecided("a part of %s", x.X)
				}
			case *ssa.Store:
				switch p := get(x.Addr).(type) {
				case dptr:
					d.write(p.arr, p.idx, num(x.Val))
				case *dcell:
					p.v = get(x.Val)
				default:
					undecided("a store")
				}
			case *ssa.Call:
				env[x] = d.invoke(x, get, num, depth)
			case *ssa.Extract:
				env[x] = get(x.Tuple).([]interface{})[x.Index]
			case *ssa.If:
				cnd, ok := get(x.Cond).(bool)
				if !ok {
					undecided("the condition %s", x.Cond)
				}
				if cnd {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(x.Results) == 1 {
					return get(x.Results[0])
				}
				var r []interface{}
				for _, y := range x.Results {
					r = append(r, get(y))
				}
				return r
			case *ssa.Panic:
				d.stop("it panics")
			default:
				if mi, ok := in.(*ssa.MakeInterface); ok {
					env[mi] = nil
					break
				}
				undecided("the instruction %s", in)
			}
		}
		prev, b = b, next
	}
}

// inside checks 0 <= i < n.
func (d *digits) inside(i, n dnum) {
	t := d.add(n, i, -1)
	lo, _ := d.rng(t)
	if t.l > 0 {
		lo = new(big.Int).Add(lo, big.NewInt(20*t.l))
	}
	low, _ := d.rng(i)
	if i.l > 0 {
		low = new(big.Int).Add(low, big.NewInt(20*i.l))
	}
	if t.l < 0 || i.l < 0 || lo.Sign() <= 0 || low.Sign() < 0 {
		d.stop("an access lies outside the destination or a text")
	}
}

func (d *digits) invoke(x *ssa.Call, get func(ssa.Value) interface{}, num func(ssa.Value) dnum, depth int) interface{} {
	var args []interface{}
	for _, a := range x.Call.Args {
		args = append(args, get(a))
	}
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			return d.length(args[0])
		case "copy":
			dst := args[0].(dslice)
			src := d.bytes(args[1])
			if int64(len(src)) > 0 {
				d.inside(dint(int64(len(src)-1)), dst.len)
			}
			for j, v := range src {
				d.write(dst.arr, d.add(dst.off, dint(int64(j)), 1), v)
			}
			return dint(int64(len(src)))
		case "append":
			dst, ok := args[0].(dslice)
			if !ok || !d.isConst(dst.len) || dst.arr.l != 1 && dst.arr != d.dst {
				undecided("append")
			}
			src := d.bytes(args[1])
			n := dst.len
			for _, v := range src {
				d.write(dst.arr, d.add(dst.off, n, 1), v)
				n = d.add(n, dint(1), 1)
			}
			return dslice{dst.arr, dst.off, n}
		}
		undecided("the builtin %s", bi.Name())
	}
	f := x.Call.StaticCallee()
	if f == nil {
		undecided("a dynamic call")
	}
	isV := func(v interface{}) bool {
		n, ok := v.(dnum)
		if !ok {
			return false
		}
		lo, hi := new(big.Int).Set(d.lo), new(big.Int).Set(d.hi)
		if d.neg {
			lo, hi = new(big.Int).Neg(d.hi), new(big.Int).Neg(d.lo)
		}
		a, b := d.rng(n)
		n = d.norm(n)
		return a.Cmp(lo) == 0 && b.Cmp(hi) == 0 && n.tab == nil && (d.isConst(n) || n.c.Cmp(big1) == 0 && n.d.Sign() == 0 && n.b.Sign() == 0)
	}
	is10 := func(v interface{}) bool { n, ok := v.(dnum); return ok && d.isConst(n) && n.b.Int64() == 10 }
	switch f.String() {
	case "strconv.Itoa":
		if isV(args[0]) {
			return dstr{digits: true}
		}
	case "strconv.FormatInt":
		if isV(args[0]) && is10(args[1]) {
			return dstr{digits: true}
		}
	case "strconv.AppendInt":
		dst, ok := args[0].(dslice)
		if ok && isV(args[1]) && is10(args[2]) && d.isConst(dst.len) && (dst.arr == d.dst || dst.arr.n >= 20) {
			n := dst.len
			for _, v := range d.text() {
				d.write(dst.arr, d.add(dst.off, n, 1), v)
				n = d.add(n, dint(1), 1)
			}
			return dslice{dst.arr, dst.off, n}
		}
	}
	if !strings.HasPrefix(fnPkg(f), modPath) {
		undecided("a call of %s", f)
	}
	return d.call(f, args, depth+1)
}

func runC27(c *Ctx) {
	f := c.P.fn("utils", "AppendInt")
	top := new(big.Int).Lsh(big1, 63)
	for _, neg := range []bool{false, true} {
		for k := 1; k <= 19; k++ {
			lo, hi := pow10(k-1), new(big.Int).Sub(pow10(k), big1)
			if k == 1 && !neg {
				lo = big0
			}
			if k == 19 {
				hi = new(big.Int).Sub(top, big1)
			}
			name := fmt.Sprintf("%d digits", k)
			if neg {
				name = "negative, " + name
			}
			neg, lo := neg, lo
			c.Check("digits", name, c.P.fnPos(f), func() { c.digitCase(f, neg, lo, hi, 0) })
		}
	}
	c.Check("digits", "least", c.P.fnPos(f), func() { c.digitCase(f, true, top, top, 0) })
}

// digitCase decides the numbers of one sign with a magnitude in an interval.
func (c *Ctx) digitCase(f *ssa.Function, neg bool, lo, hi *big.Int, depth int) {
	if depth > 60 {
		undecided("too many cases")
	}
	work := [][]bool{nil}
	for n := 0; len(work) > 0; n++ {
		if n > 5000 {
			undecided("too many paths")
		}
		d := &digits{c: c, neg: neg, lo: lo, hi: hi, cons: map[string][2]*big.Int{}, decided: work[0], pos: f.Pos()}
		work = work[1:]
		again, split := d.run(f)
		if split != nil {
			if split.Cmp(lo) <= 0 || split.Cmp(hi) > 0 {
				undecided("a case cannot be split at %v", split)
			}
			c.digitCase(f, neg, lo, new(big.Int).Sub(split, big1), depth+1)
			c.digitCase(f, neg, split, hi, depth+1)
			return
		}
		if again {
			work = append(work, append(append([]bool(nil), d.decided...), true), append(append([]bool(nil), d.decided...), false))
			continue
		}
		for _, p := range d.problems {
			sign := ""
			if neg {
				sign = "-"
			}
			c.FailAt(c.P.pos(d.pos), "for %s%v to %s%v %s", sign, lo, sign, hi, p)
		}
	}
}

func (d *digits) run(f *ssa.Function) (again bool, split *big.Int) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case dsplit:
			split = r.at
		case dfork:
			again = true
		case dstop:
		default:
			panic(r)
		}
	}()
	d.dst = &darr{name: "destination", l: 1, mem: map[[2]int64]dnum{}}
	v := dnum{a: big1, c: big1, d: big0, b: big0}
	if d.neg {
		v.a = big.NewInt(-1)
	}
	res := d.call(f, []interface{}{dslice{d.dst, dint(0), d.length(d.dst)}, d.norm(v), dint(10)}, 0)
	n, ok := res.(dnum)
	if !ok {
		undecided("the result")
	}
	want := d.text()
	if !d.isConst(n) || n.b.Int64() != int64(len(want)) {
		d.stop("the returned length is not %d", len(want))
	}
	for j := range want {
		got, ok := d.dst.mem[[2]int64{0, int64(j)}]
		if !ok {
			d.stop("nothing is written at position %d", j)
		}
		p := len(want) - 1 - j
		if d.neg && j == 0 {
			if !d.isConst(got) || got.b.Int64() != '-' {
				d.stop("the text does not start with a minus sign")
			}
			continue
		}
		if !d.isDigit(got, p) {
			d.stop("position %d of the text is not the digit of the number", j)
		}
	}
	return
}
