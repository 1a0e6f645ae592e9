package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value of the value-numbering domain.  Two SSA values that are
// mapped to the same Term are known to be equal on the analysed trace partition.
type Term struct {
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	Fn   *ssa.Function
	C    constant.Value
	id   int
}

var (
	internTab = map[string]*Term{}
	internSeq int
	typKeys   = map[types.Type]string{}
)

func typKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if k, ok := typKeys[t]; ok {
		return k
	}
	k := types.TypeString(types.Unalias(t), nil)
	typKeys[t] = k
	return k
}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	return mkFull(op, aux, typ, nil, nil, args...)
}

func mkFull(op, aux string, typ types.Type, fn *ssa.Function, c constant.Value, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(aux)
	sb.WriteByte(0)
	switch op {
	case "load", "conv", "iface", "assert", "typeis", "const", "zero", "sym", "alloc", "struct":
		sb.WriteString(typKey(typ))
	}
	if fn != nil {
		fmt.Fprintf(&sb, "\x00%p", fn)
	}
	for _, a := range args {
		sb.WriteByte(1)
		if a == nil {
			sb.WriteString("_")
		} else {
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if t, ok := internTab[k]; ok {
		return t
	}
	internSeq++
	t := &Term{Op: op, Aux: aux, Args: args, Typ: typ, Fn: fn, C: c, id: internSeq}
	internTab[k] = t
	return t
}

func shortTyp(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 9 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, a := range t.Args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "const":
		return t.Aux
	case "nil":
		return "nil"
	case "sym":
		return t.Aux
	case "alloc", "makemap", "makeslice":
		return "&" + shortTyp(t.Typ) + "#" + t.Aux
	case "global":
		return "@" + t.Aux[strings.LastIndex(t.Aux, "/")+1:]
	case "func":
		return shortFn(t.Fn)
	case "closure":
		return "closure " + shortFn(t.Fn)
	case "fieldaddr":
		return "&" + t.Args[0].str(d+1) + "." + t.Aux
	case "field":
		return t.Args[0].str(d+1) + "." + t.Aux
	case "load":
		if t.Args[0].Op == "fieldaddr" {
			return t.Args[0].Args[0].str(d+1) + "." + t.Args[0].Aux
		}
		return "*(" + shortTyp(t.Typ) + ")" + t.Args[0].str(d+1)
	case "bin", "cmp":
		return "(" + t.Args[0].str(d+1) + " " + t.Aux + " " + t.Args[1].str(d+1) + ")"
	case "lin":
		coefs, c := linParts(t)
		var p []string
		for i, a := range t.Args {
			switch coefs[i] {
			case 1:
				p = append(p, a.str(d+1))
			case -1:
				p = append(p, "-"+a.str(d+1))
			default:
				p = append(p, fmt.Sprintf("%d*%s", coefs[i], a.str(d+1)))
			}
		}
		if c != 0 || len(p) == 0 {
			p = append(p, fmt.Sprint(c))
		}
		return "(" + strings.Join(p, "+") + ")"
	case "lt0":
		return t.Args[0].str(d+1) + "<0"
	case "eq0":
		return t.Args[0].str(d+1) + "==0"
	case "eq":
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case "not":
		return "!" + t.Args[0].str(d+1)
	case "conv":
		return shortTyp(t.Typ) + "(" + args() + ")"
	case "iface":
		return t.Args[0].str(d + 1)
	case "assert":
		return t.Args[0].str(d+1) + ".(" + shortTyp(t.Typ) + ")"
	case "typeis":
		return t.Args[0].str(d+1) + " is " + shortTyp(t.Typ)
	case "call":
		return shortName(t.Aux) + "(" + args() + ")"
	case "extract":
		return t.Args[0].str(d+1) + "#" + t.Aux
	case "it":
		return "i@" + t.Aux
	}
	return t.Op + "[" + t.Aux + "](" + args() + ")"
}

func shortName(s string) string {
	if i := strings.IndexByte(s, '!'); i > 0 {
		s = s[:i]
	}
	// trim package path inside
	out := s
	for {
		i := strings.LastIndex(out, "/")
		if i < 0 {
			break
		}
		j := i
		for j > 0 && out[j-1] != '(' && out[j-1] != '*' && out[j-1] != ' ' {
			j--
		}
		out = out[:j] + out[i+1:]
	}
	return out
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return shortName(f.String())
}

// ---- constants ----

func tConst(v constant.Value, typ types.Type) *Term {
	if b, ok := typ.Underlying().(*types.Basic); ok && v != nil {
		// represent numeric constants in the kind of the type
		if b.Info()&types.IsFloat != 0 {
			v = constant.ToFloat(v)
		} else if b.Info()&types.IsInteger != 0 {
			if iv := constant.ToInt(v); iv.Kind() == constant.Int {
				v = iv
			}
		}
	}
	u := types.Type(typ)
	if b, ok := typ.Underlying().(*types.Basic); ok {
		// all integer types share one constant space so that they compare by value
		switch {
		case b.Info()&types.IsInteger != 0:
			u = types.Typ[types.Int]
		case b.Info()&types.IsString != 0:
			u = types.Typ[types.String]
		case b.Info()&types.IsBoolean != 0:
			u = types.Typ[types.Bool]
		}
	}
	return mkFull("const", v.ExactString(), u, nil, v)
}

func tInt(n int64) *Term                { return tConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func tBool(b bool) *Term                { return tConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func tStr(s string) *Term               { return tConst(constant.MakeString(s), types.Typ[types.String]) }
func tNil() *Term                       { return mk("nil", "", nil) }
func sym(n string) *Term                { return mk("sym", n, nil) }
func symT(n string, t types.Type) *Term { return mk("sym", n, t) }

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.C)
}
func (t *Term) boolVal() (bool, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.C), true
}
func (t *Term) strVal() (string, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.C), true
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	}
	return false
}

// ---- linear integer terms: c0 + Σ ci*ti ----

func linParts(t *Term) (coefs []int64, c int64) {
	parts := strings.Split(t.Aux, ",")
	c, _ = strconv.ParseInt(parts[0], 10, 64)
	for _, p := range parts[1:] {
		n, _ := strconv.ParseInt(p, 10, 64)
		coefs = append(coefs, n)
	}
	return
}

type linear struct {
	c  int64
	co map[*Term]int64
}

func toLin(t *Term) linear {
	l := linear{co: map[*Term]int64{}}
	if n, ok := t.intVal(); ok {
		l.c = n
		return l
	}
	if t.Op == "lin" {
		coefs, c := linParts(t)
		l.c = c
		for i, a := range t.Args {
			l.co[a] += coefs[i]
		}
		return l
	}
	l.co[t] = 1
	return l
}

func linComb(a linear, b linear, k int64) linear {
	r := linear{c: a.c + k*b.c, co: map[*Term]int64{}}
	for t, n := range a.co {
		r.co[t] += n
	}
	for t, n := range b.co {
		r.co[t] += k * n
	}
	return r
}

func fromLin(l linear) *Term {
	var ts []*Term
	for t, n := range l.co {
		if n != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return tInt(l.c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.c == 0 && l.co[ts[0]] == 1 {
		return ts[0]
	}
	aux := strconv.FormatInt(l.c, 10)
	for _, t := range ts {
		aux += "," + strconv.FormatInt(l.co[t], 10)
	}
	return mk("lin", aux, types.Typ[types.Int], ts...)
}

func tAdd(a, b *Term) *Term { return fromLin(linComb(toLin(a), toLin(b), 1)) }
func tSub(a, b *Term) *Term { return fromLin(linComb(toLin(a), toLin(b), -1)) }

// splitConst separates the constant part of an integer term.
func splitConst(t *Term) (base *Term, c int64) {
	l := toLin(t)
	c = l.c
	l.c = 0
	return fromLin(l), c
}

func tNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return tBool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

// lt0 normalises d<0 so that the leading coefficient is positive.
func tLt0(d *Term) *Term {
	if n, ok := d.intVal(); ok {
		return tBool(n < 0)
	}
	l := toLin(d)
	if leadNeg(l) {
		// d<0  <=>  !(-d-1 < 0)
		nl := linComb(linear{c: -1, co: map[*Term]int64{}}, l, -1)
		return tNot(mk("lt0", "", types.Typ[types.Bool], fromLin(nl)))
	}
	return mk("lt0", "", types.Typ[types.Bool], d)
}

func tEq0(d *Term) *Term {
	if n, ok := d.intVal(); ok {
		return tBool(n == 0)
	}
	l := toLin(d)
	if leadNeg(l) {
		d = fromLin(linComb(linear{co: map[*Term]int64{}}, l, -1))
	}
	return mk("eq0", "", types.Typ[types.Bool], d)
}

func leadNeg(l linear) bool {
	var lead *Term
	for t, n := range l.co {
		if n != 0 && (lead == nil || t.id < lead.id) {
			lead = t
		}
	}
	return lead != nil && l.co[lead] < 0
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tBool(true)
	}
	if a.isConst() && b.isConst() {
		return tBool(a.Aux == b.Aux)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

// binop builds the normal form of x op y where both operands have type typ.
func binop(op token.Token, x, y *Term, typ types.Type, rtyp types.Type) *Term {
	if x.isConst() && y.isConst() && x.C != nil && y.C != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.C.Kind() == y.C.Kind() || (x.C.Kind() <= constant.Float && y.C.Kind() <= constant.Float && x.C.Kind() >= constant.Int) {
				return tBool(constant.Compare(x.C, op, y.C))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if x.C.Kind() != constant.Bool {
				return tConst(constant.BinaryOp(x.C, op, y.C), rtyp)
			}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y.C); ok {
				return tConst(constant.Shift(x.C, op, uint(n)), rtyp)
			}
		}
	}
	switch {
	case isInteger(typ):
		switch op {
		case token.ADD:
			return tAdd(x, y)
		case token.SUB:
			return tSub(x, y)
		case token.LSS:
			return tLt0(tSub(x, y))
		case token.GTR:
			return tLt0(tSub(y, x))
		case token.LEQ:
			return tNot(tLt0(tSub(y, x)))
		case token.GEQ:
			return tNot(tLt0(tSub(x, y)))
		case token.EQL:
			return tEq0(tSub(x, y))
		case token.NEQ:
			return tNot(tEq0(tSub(x, y)))
		case token.MUL:
			if n, ok := y.intVal(); ok {
				return fromLin(linComb(linear{co: map[*Term]int64{}}, toLin(x), n))
			}
			if n, ok := x.intVal(); ok {
				return fromLin(linComb(linear{co: map[*Term]int64{}}, toLin(y), n))
			}
			if x.id > y.id {
				x, y = y, x
			}
			return mk("bin", "*", rtyp, x, y)
		case token.AND, token.OR, token.XOR:
			if x.id > y.id {
				x, y = y, x
			}
		}
		return mk("bin", op.String(), rtyp, x, y)
	case isFloat(typ):
		switch op {
		case token.ADD, token.MUL:
			if x.id > y.id {
				x, y = y, x
			}
		case token.GTR:
			return mk("cmp", "<", rtyp, y, x)
		case token.GEQ:
			return mk("cmp", "<=", rtyp, y, x)
		case token.LSS:
			return mk("cmp", "<", rtyp, x, y)
		case token.LEQ:
			return mk("cmp", "<=", rtyp, x, y)
		case token.EQL, token.NEQ:
			if x.id > y.id {
				x, y = y, x
			}
			e := mk("cmp", "==", rtyp, x, y)
			if op == token.NEQ {
				return tNot(e)
			}
			return e
		}
		return mk("bin", op.String(), rtyp, x, y)
	}
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if isBoolT(typ) {
			if b, ok := x.boolVal(); ok {
				x, y = y, tBool(b)
			}
			if b, ok := y.boolVal(); ok {
				if b {
					e = x
				} else {
					e = tNot(x)
				}
			} else if x == y {
				e = tBool(true)
			} else {
				if x.id > y.id {
					x, y = y, x
				}
				e = mk("beq", "", rtyp, x, y)
			}
		} else {
			e = tEq(x, y)
		}
		if op == token.NEQ {
			return tNot(e)
		}
		return e
	case token.GTR:
		return mk("cmp", "<", rtyp, y, x)
	case token.LEQ:
		return tNot(mk("cmp", "<", rtyp, y, x))
	case token.GEQ:
		return tNot(mk("cmp", "<", rtyp, x, y))
	case token.LSS:
		return mk("cmp", "<", rtyp, x, y)
	}
	return mk("bin", op.String(), rtyp, x, y)
}

// contains reports whether sub occurs in t.
func (t *Term) contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
