package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case "fieldaddr", "indexaddr", "slice":
			a = a.Args[0]
		default:
			return a
		}
	}
}

// initMark marks objects allocated by package initialisers: shared by everything that runs later.
const initMark = "init\x00"

var initPhase bool

func isFresh(t *Term) bool {
	switch t.Op {
	case "alloc", "makeslice", "makemap":
		return initPhase || !strings.HasPrefix(t.Aux, initMark)
	}
	return false
}

func fieldAddr(base *Term, name string) *Term { return mk("fieldaddr", name, nil, base) }

func indexAddr(base, idx *Term) *Term {
	if base.Op == "slice" {
		lo := base.Args[1]
		if lo != nil {
			idx = tAdd(idx, lo)
		}
		return indexAddr(base.Args[0], idx)
	}
	return mk("indexaddr", "", nil, base, idx)
}

func mayAlias(a, b *Term, ta, tb types.Type) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if isFresh(ra) && isFresh(rb) && ra != rb {
		return false
	}
	if (isFresh(ra) || ra.Op == "global") != (isFresh(rb) || rb.Op == "global") {
		if ra != rb {
			return false
		}
	}
	if ra.Op == "global" && rb.Op == "global" && ra != rb {
		return false
	}
	if ta != nil && tb != nil && !types.Identical(ta.Underlying(), tb.Underlying()) {
		ba, oka := ta.Underlying().(*types.Basic)
		bb, okb := tb.Underlying().(*types.Basic)
		if !(oka && okb && ba.Kind() == bb.Kind()) {
			return false
		}
	}
	if a.Op == "fieldaddr" && b.Op == "fieldaddr" {
		if a.Aux != b.Aux {
			return false
		}
		if a.Args[0] == b.Args[0] {
			return true
		}
		return mayAlias(a.Args[0], b.Args[0], nil, nil)
	}
	if a.Op == "indexaddr" && b.Op == "indexaddr" {
		if a.Args[0] == b.Args[0] {
			if d, ok := tSub(a.Args[1], b.Args[1]).intVal(); ok && d != 0 {
				return false
			}
		}
		return true
	}
	if (a.Op == "fieldaddr" || a.Op == "indexaddr") != (b.Op == "fieldaddr" || b.Op == "indexaddr") {
		// a structure cell and a bare cell: the bare cell is a variable of its own
		return false
	}
	if a.Op == "fieldaddr" || b.Op == "fieldaddr" {
		return false
	}
	if a.Op == "global" || b.Op == "global" || isFresh(a) || isFresh(b) {
		return false
	}
	return true
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsInteger != 0:
			if u.Kind() == types.Uintptr {
				return tInt(0)
			}
			return tInt(0)
		case u.Info()&types.IsFloat != 0:
			return tConst(constFloat0, t)
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Kind() == types.UnsafePointer:
			return tNil()
		}
	case *types.Struct, *types.Array:
		return mk("zero", "", t)
	}
	return tNil()
}

// load reads a value of type typ at addr.
func (e *Eng) load(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.heap[addr]; ok {
		return v
	}
	if st := structOf(typ); st != nil {
		return e.loadStruct(s, addr, typ, st)
	}
	if arr, ok := typ.Underlying().(*types.Array); ok && isFresh(rootOf(addr)) && arr.Len() <= 64 {
		args := make([]*Term, arr.Len())
		for i := range args {
			args[i] = e.load(s, indexAddr(addr, tInt(int64(i))), arr.Elem())
		}
		return mk("struct", "array", typ, args...)
	}
	r := rootOf(addr)
	if r.Op == "append" || r.Op == "concat" {
		if v := e.loadAppend(s, addr, typ); v != nil {
			return v
		}
	}
	if addr.Op == "fieldaddr" || addr.Op == "indexaddr" {
		// part of a composite that was stored as a whole value
		if whole, ok := s.heap[addr.Args[0]]; ok {
			if addr.Op == "fieldaddr" {
				return e.field(s, whole, addr.Aux, typ)
			}
			return e.elem(s, whole, addr.Args[1], typ)
		}
	}
	if isFresh(r) && !e.isHavocked(s, addr) {
		n := e.epoch(s, addr, typ)
		if n == 0 {
			return zeroOf(typ)
		}
		return mk("load", "!"+itoa(n), typ, addr)
	}
	if r.Op == "global" || r.Op == "alloc" {
		if v, ok := e.globalVal(addr); ok && e.epoch(s, addr, typ) == 0 {
			return v
		}
	}
	if addr.Op == "fieldaddr" && addr.Aux == "Type" && (isCall(addr.Args[0], "github.com/viant/xunsafe.NewSlice") || isCall(addr.Args[0], "github.com/viant/xunsafe.NewType")) {
		return addr.Args[0].Args[0] // the accessors of the unsafe library keep their type
	}
	n := e.epoch(s, addr, typ)
	if n == 0 {
		return mk("load", "", typ, addr)
	}
	return mk("load", "!"+itoa(n), typ, addr)
}

func (e *Eng) isHavocked(s *State, addr *Term) bool {
	for a := addr; ; a = a.Args[0] {
		if s.heap[mk("havoc", "", nil, a)] != nil {
			return true
		}
		if a.Op != "fieldaddr" && a.Op != "indexaddr" && a.Op != "slice" {
			return false
		}
	}
}

func (e *Eng) loadStruct(s *State, addr *Term, typ types.Type, st *types.Struct) *Term {
	// any component known?
	known := isFresh(rootOf(addr))
	if !known {
		for a := range s.heap {
			for b := a; b.Op == "fieldaddr" || b.Op == "indexaddr"; b = b.Args[0] {
				if b.Args[0] == addr {
					known = true
				}
			}
		}
	}
	if !known {
		if addr.Op == "fieldaddr" || addr.Op == "indexaddr" {
			if whole, ok := s.heap[addr.Args[0]]; ok {
				if addr.Op == "fieldaddr" {
					return e.field(s, whole, addr.Aux, typ)
				}
				return e.elem(s, whole, addr.Args[1], typ)
			}
		}
		if rootOf(addr).Op == "global" {
			if v, ok := e.globalVal(addr); ok {
				return v
			}
		}
		if n := e.epoch(s, addr, typ); n > 0 {
			return mk("load", "!"+itoa(n), typ, addr)
		}
		return mk("load", "", typ, addr)
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = e.load(s, fieldAddr(addr, fieldName(st, i)), st.Field(i).Type())
	}
	return mkStruct(typ, st, args)
}

// mkStruct makes a struct value; one made of all fields of a value is that value.
func mkStruct(typ types.Type, st *types.Struct, args []*Term) *Term {
	if len(args) > 0 && args[0].Op == "field" {
		v := args[0].Args[0]
		same := v.Typ == nil || types.Identical(v.Typ, typ)
		for i, a := range args {
			same = same && a.Op == "field" && a.Args[0] == v && a.Aux == fieldName(st, i)
		}
		if same {
			return v
		}
	}
	return mk("struct", "", typ, args...)
}

func fieldName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		return "_" + itoa(i)
	}
	return n
}

func (e *Eng) loadAppend(s *State, addr *Term, typ types.Type) *Term {
	if addr.Op == "fieldaddr" {
		base := addr.Args[0]
		if base.Op == "indexaddr" {
			st := e.loadAppend(s, base, nil)
			if st != nil {
				return e.field(s, st, addr.Aux, typ)
			}
		}
		return nil
	}
	if addr.Op != "indexaddr" || addr.Args[0].Op != "append" {
		return nil
	}
	ap := addr.Args[0]
	n := e.lenOf(s, ap.Args[0])
	d := s.value(tSub(addr.Args[1], n))
	if k, ok := d.intVal(); ok && k >= 0 && int(k) < len(ap.Args)-1 {
		return ap.Args[1+k]
	}
	if s.proveLT0(d) == 1 && typ != nil {
		return e.load(s, indexAddr(ap.Args[0], addr.Args[1]), typ)
	}
	return nil
}

// epoch counts the earlier stores that may have changed the cell.
func (e *Eng) epoch(s *State, addr *Term, typ types.Type) int {
	n := 0
	for _, r := range s.stores {
		if r.addr.Op == "clobber" {
			if r.addr.Args[0] == rootOf(addr) {
				n++
			}
			continue
		}
		if r.addr != addr && mayAlias(r.addr, addr, r.typ, typ) {
			n++
		}
	}
	return n
}

func (e *Eng) store(s *State, addr, val *Term, typ types.Type, pos token.Pos, fn *ssa.Function) {
	if st := structOf(typ); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			e.store(s, fieldAddr(addr, fieldName(st, i)), e.field(s, val, fieldName(st, i), f.Type()), f.Type(), pos, fn)
		}
		return
	}
	for a := range s.heap {
		if a != addr && a.Op != "havoc" && mayAlias(addr, a, typ, nil) {
			// keep exact types out of it: heap cells do not carry a type, so be conservative for index cells only
			delete(s.heap, a)
		}
	}
	s.heap[addr] = val
	s.stores = append(s.stores, storeRec{addr, val, typ, pos, fn})
}

// field selects a field of a struct value.
func (e *Eng) field(s *State, v *Term, name string, typ types.Type) *Term {
	switch v.Op {
	case "struct":
		if st := structOf(v.Typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if fieldName(st, i) == name {
					return v.Args[i]
				}
			}
		}
	case "zero":
		return zeroOf(typ)
	case "load":
		if v.Aux == "" {
			return e.load(s, fieldAddr(v.Args[0], name), typ)
		}
	}
	return mk("field", name, typ, v)
}

// elem selects an element of an array value.
func (e *Eng) elem(s *State, v, idx *Term, typ types.Type) *Term {
	switch v.Op {
	case "struct":
		if n, ok := s.value(idx).intVal(); ok && n >= 0 && int(n) < len(v.Args) {
			return v.Args[n]
		}
	case "zero":
		return zeroOf(typ)
	case "load":
		if v.Aux == "" {
			return e.load(s, indexAddr(v.Args[0], idx), typ)
		}
	case "const":
		if str, ok := v.strVal(); ok {
			if n, ok := s.value(idx).intVal(); ok && n >= 0 && int(n) < len(str) {
				return tInt(int64(str[n]))
			}
		}
	}
	return mk("index", "", typ, v, idx)
}

// lenOf normalises the length of a slice, string or map term.
func (e *Eng) lenOf(s *State, x *Term) *Term {
	if x == nil {
		return tInt(0)
	}
	if str, ok := x.strVal(); ok {
		return tInt(int64(len(str)))
	}
	switch x.Op {
	case "nil":
		return tInt(0)
	case "slice":
		lo := x.Args[1]
		if lo == nil {
			lo = tInt(0)
		}
		hi := x.Args[2]
		if hi == nil {
			hi = e.lenOf(s, x.Args[0])
		}
		return tSub(hi, lo)
	case "alloc":
		if x.Typ != nil {
			if a, ok := x.Typ.Underlying().(*types.Array); ok {
				return tInt(a.Len())
			}
		}
	case "makeslice":
		return x.Args[0]
	case "append":
		return tAdd(e.lenOf(s, x.Args[0]), tInt(int64(len(x.Args)-1)))
	case "concat":
		return tAdd(e.lenOf(s, x.Args[0]), e.lenOf(s, x.Args[1]))
	case "bin":
		if x.Aux == "+" { // string concatenation
			return tAdd(e.lenOf(s, x.Args[0]), e.lenOf(s, x.Args[1]))
		}
	case "conv":
		if x.Typ != nil && len(x.Args) == 1 && (isString(x.Typ) || isByteSlice(x.Typ)) && x.Aux == "bytes" {
			return e.lenOf(s, x.Args[0])
		}
	case "global", "load", "sym":
	}
	return s.value(mk("len", "", types.Typ[types.Int], x))
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// elems lists the elements of a slice whose length is known.
func (e *Eng) elems(s *State, x *Term, elem types.Type) ([]*Term, bool) {
	n, ok := s.value(e.lenOf(s, x)).intVal()
	if !ok || n < 0 || n > 256 {
		return nil, false
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = e.load(s, indexAddr(x, tInt(int64(i))), elem)
	}
	return out, true
}
