package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) call(fr *frame, t *trace, x *ssa.Call) []Outcome {
	var fn *Term
	if !x.Call.IsInvoke() {
		fn = e.val(t, x.Call.Value)
	} else {
		fn = e.val(t, x.Call.Value)
	}
	args := make([]*Term, len(x.Call.Args))
	for i, a := range x.Call.Args {
		args[i] = e.val(t, a)
	}
	return e.invokeCommon(fr, t, x, &x.Call, fn, args, nil)
}

func resTypes(sig *types.Signature) *types.Tuple { return sig.Results() }

func (e *Eng) invokeCommon(fr *frame, t *trace, in ssa.Instruction, cc *ssa.CallCommon, fn *Term, args []*Term, deferOwner *trace) []Outcome {
	s := t.st
	one := func(r *Term) []Outcome {
		if r != nil && r.Op == "tuple" {
			return []Outcome{{St: s, Results: r.Args}}
		}
		if r == nil {
			return []Outcome{{St: s}}
		}
		return []Outcome{{St: s, Results: []*Term{r}}}
	}
	if cc.IsInvoke() {
		recv := fn
		if dt, ok := s.typ[recv]; ok && recv.Op != "iface" {
			recv = mk("iface", "", dt, mk("assert", "", dt, recv))
		}
		if recv.Op == "iface" {
			if sel := e.P.SSA.MethodSets.MethodSet(recv.Typ).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				if f := e.P.SSA.MethodValue(sel); f != nil {
					return e.static(fr, t, in, f, append([]*Term{recv.Args[0]}, args...), nil, cc.Signature(), deferOwner)
				}
			}
		}
		name := "invoke " + types.TypeString(cc.Value.Type(), func(p *types.Package) string { return p.Name() }) + "." + cc.Method.Name()
		all := append([]*Term{recv}, args...)
		if r := e.reflectType(s, recv, cc.Method.Name(), args); r != nil {
			return one(r)
		}
		return e.opaque(fr, t, in, "invoke", name, nil, all, cc.Signature())
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return one(e.builtin(fr, t, in, b, cc, args, deferOwner))
	}
	switch fn.Op {
	case "func":
		return e.static(fr, t, in, fn.Fn, args, nil, cc.Signature(), deferOwner)
	case "closure":
		return e.static(fr, t, in, fn.Fn, args, fn.Args, cc.Signature(), deferOwner)
	}
	return e.opaque(fr, t, in, "dyn", "dyn", nil, append([]*Term{fn}, args...), cc.Signature())
}

func (e *Eng) onStack(f *ssa.Function) int {
	n := 0
	for _, x := range e.stack {
		if x == f {
			n++
		}
	}
	return n
}

func (e *Eng) inlineable(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if e.onStack(f) > e.O.MaxRec {
		return false
	}
	if e.O.Opaque != nil && e.O.Opaque(f) {
		return false
	}
	p := fnPkg(f)
	if inModule(p) {
		return true
	}
	if e.O.InlineDep != nil && e.O.InlineDep(f) {
		return true
	}
	if p == "github.com/viant/xunsafe" && len(f.Blocks) == 1 && f.Parent() == nil {
		for _, in := range f.Blocks[0].Instrs {
			switch c := in.(type) {
			case *ssa.Call:
				if cf := c.Call.StaticCallee(); cf == nil || fnPkg(cf) != p {
					return false
				}
			case *ssa.MakeInterface, *ssa.MakeSlice, *ssa.Convert, *ssa.FieldAddr, *ssa.UnOp, *ssa.BinOp, *ssa.Return, *ssa.Store, *ssa.Alloc, *ssa.ChangeType, *ssa.IndexAddr:
			default:
				return false
			}
		}
		switch f.Name() {
		case "AsPointer", "EnsurePointer", "Interface", "Value", "SetValue", "Set":
			return false
		}
		return true
	}
	return false
}

func (e *Eng) static(fr *frame, t *trace, in ssa.Instruction, f *ssa.Function, args, bindings []*Term, sig *types.Signature, deferOwner *trace) []Outcome {
	if r, ok := e.model(fr, t, in, f, args); ok {
		if r == nil {
			return []Outcome{{St: t.st}}
		}
		if r.Op == "tuple" {
			return []Outcome{{St: t.st, Results: r.Args}}
		}
		return []Outcome{{St: t.st, Results: []*Term{r}}}
	}
	if e.inlineable(f) {
		return e.callFn(t.st, f, args, bindings, deferOwner)
	}
	name := f.String()
	if len(bindings) > 0 {
		args = append(append([]*Term(nil), bindings...), args...)
	}
	return e.opaque(fr, t, in, "call", name, f, args, f.Signature)
}

// packArg turns a slice with known elements into a list term, so that equal argument lists are equal terms.
func (e *Eng) packArg(s *State, a *Term, typ types.Type) *Term {
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok || a.Op == "nil" || a.Op == "sym" || a.Op == "load" {
		return a
	}
	r := rootOf(a)
	if !isFresh(r) {
		return a
	}
	es, ok := e.elems(s, a, sl.Elem())
	if !ok || len(es) > 32 {
		return a
	}
	return mk("list", "", nil, es...)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "reflect": true, "html": true, "bytes": true,
	"errors": true, "fmt": true, "unicode/utf8": true, "sort": false, "github.com/viant/xunsafe": true, "github.com/viant/parsly": false,
	"github.com/viant/xreflect": true, "github.com/viant/xunsafe/converter": true, "path": true, "math/bits": true}

func (e *Eng) opaque(fr *frame, t *trace, in ssa.Instruction, kind, name string, f *ssa.Function, args []*Term, sig *types.Signature) []Outcome {
	s := t.st
	e.Calls++
	packed := append([]*Term(nil), args...)
	if sig != nil {
		off := len(args) - sig.Params().Len()
		for i := 0; i < sig.Params().Len(); i++ {
			if j := i + off; j >= 0 && j < len(packed) {
				packed[j] = e.packArg(s, packed[j], sig.Params().At(i).Type())
			}
		}
	}
	for i := range packed {
		packed[i] = s.value(packed[i])
	}
	ev := &Event{Kind: kind, Name: name, Callee: f, Args: packed, Pos: in.Pos(), In: fr.fn}
	if e.O.Model != nil {
		if r, ok := e.O.Model(e, s, ev); ok {
			ev.Result = r
			if r == nil {
				return []Outcome{{St: s}}
			}
			if r.Op == "tuple" {
				return []Outcome{{St: s, Results: r.Args}}
			}
			return []Outcome{{St: s, Results: []*Term{r}}}
		}
	}
	pure := kind == "invoke" && strings.HasPrefix(name, "invoke reflect.Type")
	if f != nil {
		pk := fnPkg(f)
		pure = purePkgs[pk]
		if pk == "reflect" || pk == "fmt" {
			switch f.Name() {
			case "New", "MakeSlice", "MakeMap", "Set", "SetMapIndex", "Println", "Printf", "Print", "Fprintf", "Fprint", "Fprintln", "Call", "Append", "NewAt", "MakeMapWithSize":
				pure = false
			}
		}
	}
	aux := name
	if !pure {
		k := mk("callkey", name, nil, packed...) // the type of a term is that of its first use
		if n := s.fresh("call" + itoa(k.id)); n > 0 {
			aux += "!" + itoa(n)
		}
	}
	var rt types.Type
	var res *Term
	if sig != nil && sig.Results().Len() > 0 {
		if sig.Results().Len() == 1 {
			rt = sig.Results().At(0).Type()
			res = mk("call", aux, rt, packed...)
		} else {
			c := mk("call", aux, nil, packed...)
			var rs []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, mk("extract", itoa(i), sig.Results().At(i).Type(), c))
			}
			res = mk("tuple", "", nil, rs...)
		}
	}
	ev.Result = res
	s.emit(ev)
	if !pure {
		// memory handed to unknown code may be overwritten
		for _, a := range args {
			e.escape(s, a, f)
		}
	}
	var outs []Outcome
	if e.O.MayPanic != nil && e.O.MayPanic(ev) {
		ps := s.clone()
		pv := mk("panicval", name+itoa(ps.fresh("pv")), nil)
		ps.assume(tEq(pv, tNil()), false)
		outs = append(outs, Outcome{St: ps, Panic: pv, Pos: in.Pos()})
	}
	o := Outcome{St: s, Pos: in.Pos()}
	if res != nil {
		if res.Op == "tuple" {
			o.Results = res.Args
		} else {
			o.Results = []*Term{res}
		}
	}
	return append(outs, o)
}

// escape: a fresh local cell whose address reaches opaque code is no longer known.
func (e *Eng) escape(s *State, a *Term, f *ssa.Function) {
	if a.Op != "alloc" || structOf(a.Typ) != nil {
		return
	}
	if f != nil && inModule(fnPkg(f)) {
		// opaque module functions are summarised by rules; their writes are modelled there
	}
	if a.Typ != nil {
		n := s.fresh("esc" + itoa(a.id))
		s.heap[a] = mk("escaped", itoa(n), a.Typ, a)
	}
}

func (e *Eng) builtin(fr *frame, t *trace, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, owner *trace) *Term {
	s := t.st
	switch b.Name() {
	case "len":
		if a, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
			if arr, ok := a.Elem().Underlying().(*types.Array); ok {
				return tInt(arr.Len())
			}
		}
		return e.lenOf(s, args[0])
	case "cap":
		if args[0].Op == "makeslice" {
			return args[0].Args[1]
		}
		if args[0].Op == "nil" {
			return tInt(0)
		}
		return mk("cap", "", types.Typ[types.Int], args[0])
	case "append":
		return e.appendTo(s, fr, in, cc, args)
	case "copy":
		s.emit(&Event{Kind: "builtin", Name: "copy", Args: args, Pos: in.Pos(), In: fr.fn})
		dn, sn := e.lenOf(s, args[0]), e.lenOf(s, args[1])
		le, ge := s.lowerBound(tSub(dn, sn), 2) >= 0, s.lowerBound(tSub(sn, dn), 2) >= 0
		e.copyInto(s, cc, args, in, fr)
		if le {
			return sn
		}
		if ge {
			return dn
		}
		return mk("copied", itoa(s.fresh("copied")), types.Typ[types.Int], args...)
	case "delete":
		s.emit(&Event{Kind: "builtin", Name: "delete", Args: args, Pos: in.Pos(), In: fr.fn})
		delete(s.heap, mk("mapelem", "", nil, args[0], args[1]))
		s.cnt["map"+itoa(args[0].id)]++
		s.cnt["mapsym"+itoa(args[0].id)]++
		return nil
	case "recover":
		if fr.caller != nil && fr.caller.panicking != nil {
			s.cnt["recovered!"] = 1
			v := fr.caller.panicking
			return v
		}
		return tNil()
	case "panic":
		return nil
	case "print", "println":
		s.emit(&Event{Kind: "builtin", Name: b.Name(), Args: args, Pos: in.Pos(), In: fr.fn})
		return nil
	case "min", "max":
		return mk("call", b.Name(), cc.Signature().Results().At(0).Type(), args...)
	case "ssa:wrapnilchk":
		return args[0]
	case "Add": // unsafe.Add
		return tAdd(args[0], args[1])
	case "StringData", "SliceData", "String", "Slice":
		return mk("call", "unsafe."+b.Name(), nil, args...)
	case "clear", "close":
		s.emit(&Event{Kind: "builtin", Name: b.Name(), Args: args, Pos: in.Pos(), In: fr.fn})
		return nil
	}
	undecided("builtin %s", b.Name())
	return nil
}

func (e *Eng) appendTo(s *State, fr *frame, in ssa.Instruction, cc *ssa.CallCommon, args []*Term) *Term {
	st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
	if !ok || len(args) < 2 {
		return args[0]
	}
	if isString(cc.Args[1].Type()) {
		return mk("concat", "", nil, args[0], args[1])
	}
	if args[1].Op == "nil" {
		return args[0]
	}
	es, ok := e.elems(s, args[1], st.Elem())
	if !ok {
		return mk("concat", "", nil, args[0], args[1])
	}
	if len(es) == 0 {
		return args[0]
	}
	base, ok := e.elems(s, args[0], st.Elem())
	if ok && (args[0].Op == "nil" || isFresh(rootOf(args[0])) || len(base) == 0) {
		k := e.allocPath() + "#app" + itoa(in.Block().Index) + "." + itoa(instrIndex(in))
		if n := s.fresh(k); n > 0 {
			k += "~" + itoa(n)
		}
		n := tInt(int64(len(base) + len(es)))
		ns := mk("makeslice", k, cc.Args[0].Type(), n, n)
		for i, x := range append(append([]*Term(nil), base...), es...) {
			e.store(s, indexAddr(ns, tInt(int64(i))), x, st.Elem(), in.Pos(), fr.fn)
		}
		if e.O.Appends {
			s.emit(&Event{Kind: "append", Args: []*Term{args[0], ns}, Result: ns, Pos: in.Pos(), In: fr.fn})
		}
		return ns
	}
	if args[0].Op == "append" {
		return mk("append", "", nil, append(append([]*Term(nil), args[0].Args...), es...)...)
	}
	return mk("append", "", nil, append([]*Term{args[0]}, es...)...)
}

func (e *Eng) copyInto(s *State, cc *ssa.CallCommon, args []*Term, in ssa.Instruction, fr *frame) {
	st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	dn, ok1 := s.value(e.lenOf(s, args[0])).intVal()
	sn, ok2 := s.value(e.lenOf(s, args[1])).intVal()
	if ok1 && ok2 && !isString(cc.Args[1].Type()) {
		n := min(dn, sn)
		if n <= 128 {
			for i := int64(0); i < n; i++ {
				v := e.load(s, indexAddr(args[1], tInt(i)), st.Elem())
				e.store(s, indexAddr(args[0], tInt(i)), v, st.Elem(), in.Pos(), fr.fn)
			}
			return
		}
	}
	// unknown extent: the destination's cells become unknown
	r := rootOf(args[0])
	for a := range s.heap {
		if rootOf(a) == r && a != r {
			delete(s.heap, a)
		}
	}
	s.heap[mk("havoc", "", nil, r)] = tBool(true)
	s.heap[mk("copyof", "", nil, args[0])] = args[1]
	s.stores = append(s.stores, storeRec{addr: mk("clobber", itoa(len(s.stores)), nil, r), val: args[1], pos: in.Pos(), fn: fr.fn})
}

// ---- reflect.Type ----

func rtype(t types.Type) *Term { return mk("rtype", typKey(t), t) }

var kindOf = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14,
	types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

func reflectKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindOf[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// rtOf unwraps a reflect.Type term to the statically known Go type.
func rtOf(x *Term) types.Type {
	if x.Op == "iface" && len(x.Args) == 1 {
		x = x.Args[0]
	}
	if x.Op == "rtype" {
		return x.Typ
	}
	return nil
}

// KindT is the canonical term for the reflect.Kind of a reflect.Type term.
func (e *Eng) KindT(x *Term) *Term {
	if t := rtOf(x); t != nil {
		return tInt(reflectKind(t))
	}
	return mk("call", "reflect.Kind", types.Typ[types.Uint], x)
}

func (e *Eng) reflectType(s *State, recv *Term, method string, args []*Term) *Term {
	switch method {
	case "Kind":
		if recv.Typ != nil || recv.Op == "rtype" {
			if recv.Typ != nil && recv.Op != "rtype" && !isReflectType(recv.Typ) {
				return nil
			}
			return s.value(e.KindT(recv))
		}
		return s.value(e.KindT(recv))
	}
	t := rtOf(recv)
	if t == nil {
		return nil
	}
	switch method {
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rtype(u.Elem())
		case *types.Slice:
			return rtype(u.Elem())
		case *types.Map:
			return rtype(u.Elem())
		case *types.Array:
			return rtype(u.Elem())
		}
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return rtype(u.Key())
		}
	case "Size":
		return tInt(stdSizes.Sizeof(t))
	case "NumMethod":
		if u, ok := t.Underlying().(*types.Interface); ok {
			return tInt(int64(u.NumMethods()))
		}
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return tStr(n.Obj().Name())
		}
		if b, ok := t.(*types.Basic); ok {
			return tStr(b.Name())
		}
		return tStr("")
	case "MethodByName":
		n, ok := args[0].strVal()
		if _, isI := t.Underlying().(*types.Interface); !ok || !isI {
			return nil
		}
		found := types.NewMethodSet(t).Lookup(nil, n) != nil
		return mk("tuple", "", nil, mk("call", "rtype.MethodByName", e.P.typOf("reflect", "Method"), recv, args[0]), tBool(found))
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		u, ok := t.Underlying().(*types.Signature)
		if !ok {
			return nil
		}
		tup := u.Params()
		switch method {
		case "IsVariadic":
			return tBool(u.Variadic())
		case "NumIn":
			return tInt(int64(tup.Len()))
		case "NumOut":
			return tInt(int64(u.Results().Len()))
		case "Out":
			tup = u.Results()
		}
		if len(args) == 1 {
			if i, ok := args[0].intVal(); ok && i >= 0 && i < int64(tup.Len()) {
				return rtype(tup.At(int(i)).Type())
			}
		}
		return nil
	case "String":
		return tStr(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	return nil
}

func isReflectType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type"
}

// model gives the effect of a few library functions.
func (e *Eng) model(fr *frame, t *trace, in ssa.Instruction, f *ssa.Function, args []*Term) (*Term, bool) {
	pk := fnPkg(f)
	s := t.st
	switch pk {
	case "reflect":
		if f.Name() == "Type" && f.Signature.Recv() != nil && len(args) == 1 && isCall(args[0], "reflect.ValueOf") && args[0].Args[0].Op == "iface" {
			return rtype(args[0].Args[0].Typ), true
		}
		if f.Signature.Recv() == nil {
			switch f.Name() {
			case "TypeOf":
				if args[0].Op == "iface" {
					return rtype(args[0].Typ), true
				}
				if args[0].Op == "nil" {
					return tNil(), true
				}
				if dt, ok := s.typ[args[0]]; ok {
					return rtype(dt), true
				}
			case "PtrTo", "PointerTo":
				if ty := rtOf(args[0]); ty != nil {
					return rtype(types.NewPointer(ty)), true
				}
			case "SliceOf":
				if ty := rtOf(args[0]); ty != nil {
					return rtype(types.NewSlice(ty)), true
				}
			}
		}
	case "github.com/viant/xunsafe":
		if f.Signature.Recv() != nil && len(args) == 1 && isCall(args[0], "github.com/viant/xunsafe.NewType") {
			switch f.Name() {
			case "Kind":
				return s.value(e.KindT(args[0].Args[0])), true
			case "Type":
				return args[0].Args[0], true
			}
		}
		if f.Signature.Recv() == nil && f.Name() == "AsPointer" {
			if args[0].Op == "iface" {
				if b, _ := args[0].Typ.Underlying().(*types.Basic); isPtrLike(args[0].Typ) && (b == nil || b.Kind() != types.Uintptr) {
					return args[0].Args[0], true
				}
			}
			if args[0].Op == "nil" {
				return tNil(), true
			}
		}
	case "strings", "strconv":
		if r, ok := foldString(f.Name(), args); ok {
			return r, true
		}
	case "errors":
		if f.Name() == "New" {
			return mk("call", "errors.New", nil, args...), true
		}
	case "sync":
		if r := f.Signature.Recv(); r != nil {
			// embedded lockers are reported with the address of the lock
			return nil, false
		}
	}
	return nil, false
}

func foldString(name string, args []*Term) (*Term, bool) {
	var ss []string
	for _, a := range args {
		v, ok := a.strVal()
		if !ok {
			if n, okn := a.intVal(); okn {
				v = fmt.Sprint(n)
			} else {
				return nil, false
			}
		}
		ss = append(ss, v)
	}
	switch name {
	case "Contains":
		return tBool(strings.Contains(ss[0], ss[1])), true
	case "ContainsAny":
		return tBool(strings.ContainsAny(ss[0], ss[1])), true
	case "HasPrefix":
		return tBool(strings.HasPrefix(ss[0], ss[1])), true
	case "HasSuffix":
		return tBool(strings.HasSuffix(ss[0], ss[1])), true
	case "Index":
		return tInt(int64(strings.Index(ss[0], ss[1]))), true
	case "IndexByte":
		return nil, false
	case "ToLower":
		return tStr(strings.ToLower(ss[0])), true
	case "ToUpper":
		return tStr(strings.ToUpper(ss[0])), true
	case "TrimSpace":
		return tStr(strings.TrimSpace(ss[0])), true
	case "Trim":
		return tStr(strings.Trim(ss[0], ss[1])), true
	case "TrimLeft":
		return tStr(strings.TrimLeft(ss[0], ss[1])), true
	case "TrimRight":
		return tStr(strings.TrimRight(ss[0], ss[1])), true
	case "TrimPrefix":
		return tStr(strings.TrimPrefix(ss[0], ss[1])), true
	case "TrimSuffix":
		return tStr(strings.TrimSuffix(ss[0], ss[1])), true
	case "EqualFold":
		return tBool(strings.EqualFold(ss[0], ss[1])), true
	case "ReplaceAll":
		return tStr(strings.ReplaceAll(ss[0], ss[1], ss[2])), true
	case "Itoa":
		return tStr(ss[0]), true
	}
	return nil, false
}
