package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func f32bits(f float32) uint32 { return math.Float32bits(f) }
func f64bits(f float64) uint64 { return math.Float64bits(f) }

// base of an address: the pointer an offset was added to.
func baseOf(a *Term) *Term {
	if a.op != "lin" {
		return a
	}
	var best *Term
	for i, y := range a.args {
		if a.cs[i] != 1 {
			continue
		}
		if y.op == "uf" && (strings.HasPrefix(y.str, "f.") || y.str == "tfoff") {
			continue
		}
		if y.op == "select" || y.op == "var" && best == nil || y.op == "uf" && best == nil {
			best = y
		}
	}
	return best
}

func (x *Exec) nonNil(st *State, a *Term, pos string) {
	b := baseOf(a)
	if b == nil {
		return
	}
	if b.op == "var" && strings.HasPrefix(b.str, "obj") {
		return
	}
	x.safe(st, "no nil dereference", Ne(b, C64(0)), pos)
}

// heapLoad reads a value of type t at address a of the message memory.
func (x *Exec) heapLoad(h *Term, a *Term, t types.Type, pos string) Val {
	if isBool(t) {
		return x.sel(h, "b", a)
	}
	if isString(t) {
		return x.sel(h, "s", a)
	}
	if isByteSlice(t) {
		return BytesV{nl: x.sel(h, "yn", a), c: x.sel(h, "yc", a), prov: "heap"}
	}
	if s, ok := isFloat(t); ok {
		if s == S32 {
			return x.sel(h, "w", a)
		}
		return x.sel(h, "d", a)
	}
	if s, _, ok := intWidth(t); ok {
		switch s {
		case S32:
			return x.sel(h, "w", a)
		case S64:
			return x.sel(h, "d", a)
		}
		x.fail(pos, "load of %s from message memory", t)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok || isUnsafePtr(t) {
		return x.sel(h, "p", a)
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		s := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.heapLoad(h, Add(a, C64(uint64(x.fieldOffset(u, i)))), u.Field(i).Type(), pos))
		}
		return s
	}
	x.fail(pos, "load of %s from message memory", t)
	return nil
}

func (x *Exec) heapStore(st *State, h *Term, a *Term, v Val, t types.Type, pos string) *Term {
	put := func(part string, val *Term) *Term { return hset(h, part, Store(hpart(h, part), a, val)) }
	if isByteSlice(t) {
		b, ok := v.(BytesV)
		if !ok {
			x.fail(pos, "store of %T", v)
		}
		x.noAlias(st, b, pos)
		h = hset(h, "yn", Store(hpart(h, "yn"), a, b.nl))
		return hset(h, "yc", Store(hpart(h, "yc"), a, x.cont(st, b)))
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		s, ok := v.(StructV)
		if !ok {
			x.fail(pos, "store of %T", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			h = x.heapStore(st, h, Add(a, C64(uint64(x.fieldOffset(u, i)))), s.f[i], u.Field(i).Type(), pos)
		}
		return h
	}
	tv, ok := x.asTerm(st, v)
	if !ok {
		x.fail(pos, "store of %T into message memory", v)
	}
	if av, ok := v.(AddrV); ok {
		x.fail(pos, "store of a local's address (%v) into message memory", av)
	}
	switch {
	case isBool(t):
		return put("b", tv)
	case isString(t):
		return put("s", tv)
	}
	if s, ok := isFloat(t); ok {
		if s == S32 {
			return put("w", tv)
		}
		return put("d", tv)
	}
	if s, _, ok := intWidth(t); ok {
		switch s {
		case S32:
			return put("w", tv)
		case S64:
			return put("d", tv)
		}
	}
	if _, ok := t.Underlying().(*types.Pointer); ok || isUnsafePtr(t) {
		return put("p", tv)
	}
	x.fail(pos, "store of %s into message memory", t)
	return nil
}

// noAlias: bytes about to become reachable from the message must not be the input's.
func (x *Exec) noAlias(st *State, b BytesV, pos string) {
	if strings.HasPrefix(b.prov, "in") {
		// an empty or nil slice of the input refers to its memory as well
		x.oblige(st, "safety", "no input memory is stored in the message", spec.groupOr("ALIAS", "C19"), b.nl, pos)
	} else {
		x.oblige(st, "safety", "no input memory is stored in the message", spec.groupOr("ALIAS", "C19"), tTrue, pos)
	}
}

func (sp *Spec) groupOr(g string, def ...string) []string {
	if ps, ok := sp.groups[g]; ok {
		return ps
	}
	return def
}

// dataWord is the data pointer of an interface value.
func (x *Exec) dataWord(st *State, v Val, pos string) *Term {
	switch a := v.(type) {
	case *Term:
		if a.s == SType {
			return UF("rtype", S64, a)
		}
	case IfaceV:
		if a.nilv {
			return C64(0)
		}
		if a.kind == "user" {
			return UF("iptr", S64, a.sym)
		}
		if a.kind == "zero" { // reflect.Zero(t).Interface()
			return UF("zeroaddr", S64, a.sym)
		}
		if a.kind == "pool" {
			return a.sym
		}
		if t, ok := a.v.(*Term); ok && t.s == S64 {
			if _, ok := a.dyn.Underlying().(*types.Pointer); ok || isUnsafePtr(a.dyn) {
				return t
			}
		}
	}
	x.fail(pos, "data word of %T", v)
	return nil
}

func (x *Exec) ifaceNil(v IfaceV) *Term {
	switch v.kind {
	case "user":
		return Eq(UF("itype", SType, v.sym), nilType)
	case "pool", "lib":
		return Eq(v.sym, C64(0))
	}
	return tFalse
}

func (x *Exec) load(st *State, a Val, t types.Type, pos string, k func(*State, Val)) {
	switch v := a.(type) {
	case AddrV:
		o, ok := st.objs[v.obj]
		if !ok {
			x.fail(pos, "load of unknown object")
		}
		path := pathElems(v.path)
		r, ok := getPath(o, path)
		if !ok {
			if it, rest, ok := iterAt(o, path); ok && len(rest) == 1 {
				x.iterField(st, it, rest[0], t, pos, k)
				return
			}
			// view of an interface value as (type, data)
			if len(path) >= 1 && path[len(path)-1] == 1 && isUnsafePtr(t) {
				if inner, ok2 := getPath(o, path[:len(path)-1]); ok2 {
					k(st, x.dataWord(st, inner, pos))
					return
				}
			}
			x.fail(pos, "load through %v of %T", v, o)
		}
		if b, ok := r.(BytesV); ok && isString(t) {
			x.oblige(st, "safety", "strings do not refer to input memory", spec.groupOr("ALIAS", "C19"), B(!strings.HasPrefix(b.prov, "in") && b.prov != "heap" && b.prov != "out"), pos)
			k(st, x.cont(st, b))
			return
		}
		if tm, ok := r.(*Term); ok && tm.s == SBytes && isByteSlice(t) {
			k(st, BytesV{nl: Eq(Blen(tm), C64(0)), c: tm, prov: "heap"})
			return
		}
		if tm, ok := r.(*Term); ok && isUnsafePtr(t) && (tm.s == SErr || tm.s == SType) {
			x.fail(pos, "type word of an interface")
		}
		if _, ok := r.(IterV); ok {
			k(st, r)
			return
		}
		k(st, r)
		return
	case GlobalV:
		k(st, x.loadGlobal(st, v, t, pos))
		return
	case FieldRef:
		k(st, x.loadRef(st, v, t, pos))
		return
	case LibRef:
		x.safe(st, "no nil dereference", Ne(v.own, C64(0)), pos)
		k(st, x.libLoad(st, v, t))
		return
	case ElemRef:
		x.loadElem(st, v, t, pos, k)
		return
	case *Term:
		if n := internalName(t); n != "" && !isLayoutStruct(t) {
			if id, ok := x.refs[v.str]; ok && v.op == "var" {
				k(st, st.objs[id])
				return
			}
			u := t.Underlying().(*types.Struct)
			s := StructV{t: t}
			for i := 0; i < u.NumFields(); i++ {
				s.f = append(s.f, x.loadRef(st, FieldRef{v, n, u, i}, u.Field(i).Type(), pos))
			}
			k(st, s)
			return
		}
		x.nonNil(st, v, pos)
		k(st, x.heapLoad(st.heap, v, t, pos))
		return
	}
	x.fail(pos, "load through %T", a)
}

// loadRef reads a field of an internal descriptor (immutable once published).
func (x *Exec) loadRef(st *State, r FieldRef, t types.Type, pos string) Val {
	fn := r.st.Field(r.idx).Name()
	x.safeRef(st, r.base, pos)
	switch r.typ {
	case "structField":
		switch {
		case isCodecPtr(t):
			return UF("f.codec", S64, r.base)
		case isNamedBasic(t, types.Uintptr):
			return UF("f.off", S64, r.base)
		case isNamedBasic(t, types.Uint64) && fn != "":
			return UF("f.wt", S64, r.base)
		case isNamedBasic(t, types.Int):
			return Vlen(UF("f.wt", S64, r.base))
		}
	case "codec":
		if role := roleOf(t); role != "" {
			return FnSym{role, r.base}
		}
	case "structInfo":
		owner := infoType(r.base)
		if _, ok := t.Underlying().(*types.Slice); ok {
			return SeqV{x.fieldsObj(st, owner), UF("nf", S64, owner)}
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return MapV{kind: "index", own: owner}
		}
	}
	switch r.typ {
	case "walkerConfig", "walker":
		if x.inRole {
			x.oblige(st, "safety", "codec functions do not depend on state of the walk", spec.groupOr("SHARED", "C13"), tFalse, pos)
		}
	}
	if u, ok := t.Underlying().(*types.Map); ok {
		if kd := x.mapKind(u); kd == "codecs" || kd == "infos" {
			return MapV{kind: kd}
		}
	}
	if s, ok := termSort(t); ok {
		return UF("fld."+r.typ+"."+fn, s, r.base)
	}
	x.fail(pos, "field %s.%s", r.typ, fn)
	return nil
}

func isNamedBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func (x *Exec) safeRef(st *State, b *Term, pos string) {
	if b.op == "uf" && strings.HasPrefix(b.str, "cg.") {
		return
	}
	x.safe(st, "no nil dereference", Ne(b, C64(0)), pos)
}

// fieldsObj is the backing object of a published descriptor's field list.
func (x *Exec) fieldsObj(st *State, owner *Term) int {
	for _, id := range sortedObjs(st.objs) {
		if c, ok := st.objs[id].(SeqC); ok && c.kind == "fields" && c.owner == owner && c.n == nil {
			return id
		}
	}
	id := x.newObj()
	st.objs[id] = SeqC{kind: "fields", owner: owner}
	return id
}

func (x *Exec) loadElem(st *State, e ElemRef, t types.Type, pos string, k func(*State, Val)) {
	switch s := e.s.(type) {
	case BytesV:
		if s.obj > 0 {
			c := st.objs[s.obj].(BufC).c
			k(st, byteAt(c, Add(s.lo, e.i)))
			return
		}
		k(st, byteAt(s.c, e.i))
		return
	case SeqV:
		c, ok := st.objs[s.obj].(SeqC)
		if !ok {
			x.fail(pos, "element of %T", st.objs[s.obj])
		}
		switch c.kind {
		case "flist":
			k(st, x.listElem(st, ListV{l: c.owner}, e.i))
			return
		case "fields":
			k(st, UF("fptr", S64, c.owner, e.i))
			return
		case "items":
			if e.i.isC() && e.i.v < uint64(len(c.items)) {
				k(st, c.items[e.i.v])
				return
			}
			// symbolic index into a short list: fork
			var rec func(st *State, j int)
			rec = func(st *State, j int) {
				if j >= len(c.items) {
					return
				}
				x.branch(st, Eq(e.i, C64(uint64(j))), func(s *State) { k(s, c.items[j]) }, func(s *State) { rec(s, j+1) })
			}
			rec(st, 0)
			return
		case "split":
			k(st, spec.apply("spl", SBytes, []*Term{c.owner, Add(e.i, C64(uint64(c.off)))}))
			return
		case "opaque":
			k(st, x.sym(t, "elem"))
			return
		case "lib":
			k(st, x.libElem(st, c.owner, Add(e.i, C64(uint64(c.off))), t))
			return
		}
		x.fail(pos, "element of %s list", c.kind)
	}
	if _, ok := e.s.(BagV); ok {
		k(st, x.sym(t, "elem"))
		return
	}
	if l, ok := e.s.(ListV); ok {
		k(st, x.listElem(st, l, e.i))
		return
	}
	x.fail(pos, "element of %T", e.s)
}

// byteAt indexes a byte string, looking through concatenations of known shape.
func byteAt(c, i *Term) *Term {
	if c.op == "cat" && i.isC() {
		off := uint64(0)
		for _, a := range c.args {
			n := Blen(a)
			if !n.isC() {
				break
			}
			if i.v < off+n.v {
				switch a.op {
				case "unit":
					return a.args[0]
				case "strc":
					return BV(S8, uint64(a.str[i.v-off]))
				case "le32", "le64":
					v := a.args[0]
					return Trunc(Lshr(v, BV(v.s, 8*(i.v-off))), S8)
				}
				break
			}
			off += n.v
		}
	}
	return Bidx(c, i)
}

func (x *Exec) store(st *State, a Val, v Val, t types.Type, pos string) {
	switch d := a.(type) {
	case AddrV:
		if x.captured[d.obj] {
			x.oblige(st, "safety", "no state shared between calls is written", spec.groupOr("SHARED", "C13"), tFalse, pos)
		}
		if why, ok := st.frozen[d.obj]; ok {
			x.oblige(st, "safety", "descriptors are not written after "+why, spec.groupOr("SHARED", "C13"), tFalse, pos)
		}
		n, ok := setPath(st.objs[d.obj], pathElems(d.path), v)
		if !ok {
			x.fail(pos, "store through %v", d)
		}
		st.objs[d.obj] = n
		return
	case GlobalV:
		x.oblige(st, "safety", "no package variable is written", spec.groupOr("SHARED", "C13"), tFalse, pos)
		return
	case LibRef:
		if !d.mut {
			x.fail(pos, "write to %s", d.key)
		}
		return
	case FieldRef:
		x.oblige(st, "safety", "published descriptors are not written", spec.groupOr("SHARED", "C13"), tFalse, pos)
		return
	case ElemRef:
		switch s := d.s.(type) {
		case BytesV:
			if s.obj > 0 {
				c := st.objs[s.obj].(BufC).c
				i := Add(s.lo, d.i)
				st.objs[s.obj] = BufC{setByte(c, i, v.(*Term))}
				return
			}
			x.wrote(st, s, pos)
			x.fail(pos, "write into a slice that is not local")
		case SeqV:
			c := st.objs[s.obj].(SeqC)
			if c.kind == "items" && d.i.isC() && d.i.v < uint64(len(c.items)) {
				c.items = append([]Val{}, c.items...)
				c.items[d.i.v] = v
				st.objs[s.obj] = c
				return
			}
			x.fail(pos, "write into %s list", c.kind)
		}
	case *Term:
		x.nonNil(st, d, pos)
		x.notShared(st, d, pos)
		if x.noWrite {
			x.oblige(st, "safety", "the message is not written while encoding", spec.groupOr("RDONLY", "C18"), tFalse, pos)
		}
		if it, ok := t.Underlying().(*types.Struct); ok && !isLayoutStruct(t) {
			_ = it
			x.oblige(st, "safety", "published descriptors are not written", spec.groupOr("SHARED", "C13"), tFalse, pos)
			return
		}
		st.heap = x.heapStore(st, st.heap, d, v, t, pos)
		return
	}
	x.fail(pos, "store through %T", a)
}

func setByte(c, i, b *Term) *Term {
	as := atoms(c)
	if i.isC() {
		off := uint64(0)
		for k, a := range as {
			n := Blen(a)
			if !n.isC() {
				break
			}
			if i.v < off+n.v {
				if a.op == "unit" && i.v == off {
					n := append([]*Term{}, as...)
					n[k] = Unit(b)
					return Cat(n...)
				}
				break
			}
			off += n.v
		}
	}
	return Cat(Bsl(c, C64(0), i), Unit(b), Bsl(c, Add(i, C64(1)), Blen(c)))
}

// wrote: bytes of a slice with this provenance are modified in place.
func (x *Exec) wrote(st *State, b BytesV, pos string) {
	if strings.HasPrefix(b.prov, "in") {
		x.oblige(st, "safety", "the input is not written", spec.groupOr("ALIAS", "C19"), tFalse, pos)
	}
	if b.prov == "heap" && x.noWrite {
		x.oblige(st, "safety", "the message is not written while encoding", spec.groupOr("RDONLY", "C18"), tFalse, pos)
	}
}

// ---- globals
func (x *Exec) loadGlobal(st *State, g GlobalV, t types.Type, pos string) Val {
	path := g.g.Pkg.Pkg.Path()
	if isErrorType(t) {
		switch {
		case path == "io" && g.g.Name() == "ErrUnexpectedEOF":
			return errClass(1)
		case g.g.Name() == "ErrWireTypeUnknown":
			return errClass(3)
		}
		if P.muts[g.g] {
			x.fail(pos, "global error %s is reassigned", g.g.Name())
		}
		if iv, ok := P.ginit[g.g][g.path]; ok {
			if c, ok := x.aliasErr(iv); ok {
				return c
			}
		}
		return errClass(4)
	}
	if P.muts[g.g] {
		x.oblige(st, "safety", "no mutable package variable is read", spec.groupOr("SHARED", "C13"), tFalse, pos)
		return x.sym(t, "global."+g.g.Name())
	}
	if iv, ok := P.ginit[g.g][g.path]; ok {
		if sl, ok := stripConv(iv).(*ssa.Slice); ok && st != nil {
			if al, ok := sl.X.(*ssa.Alloc); ok && sl.Low == nil && sl.High == nil {
				if v, ok := x.evalAlloc(al); ok {
					if s, ok := v.(StructV); ok {
						id := x.newObj()
						st.objs[id] = SeqC{kind: "items", items: s.f, elem: sl.Type().Underlying().(*types.Slice).Elem()}
						return SeqV{id, C64(uint64(len(s.f)))}
					}
				}
			}
		}
		if v, ok := x.evalInit(iv); ok {
			return v
		}
	}
	if _, ok := P.ginit[g.g]; !ok {
		if inRepoPkg(path) {
			return x.zero(t)
		}
	}
	// binary.LittleEndian and the like: empty structs
	if u, ok := t.Underlying().(*types.Struct); ok && u.NumFields() == 0 {
		return StructV{t: t}
	}
	x.fail(pos, "global %s", g.g.Name())
	return nil
}

// aliasErr resolves `var e = io.ErrUnexpectedEOF`.
func (x *Exec) aliasErr(v ssa.Value) (Val, bool) {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return x.loadGlobal(nil, GlobalV{g, ""}, u.Type(), ""), true
		}
	}
	return nil, false
}

func inRepoPkg(p string) bool { return strings.HasPrefix(p, modPath) }

func errClass(c uint64) *Term { return Ctor(SErr, "EPlain", BV(S8, c)) }

// evalInit interprets initialisers made of constants and reflect.TypeOf.
func (x *Exec) evalInit(v ssa.Value) (Val, bool) {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c), true
	case *ssa.Function:
		return c, true
	case *ssa.Convert:
		if k, ok := c.X.(*ssa.Const); ok {
			return x.convert(nil, x.constVal(k), c.X.Type(), c.Type(), ""), true
		}
	case *ssa.ChangeType:
		return x.evalInit(c.X)
	case *ssa.UnOp:
		if al, ok := c.X.(*ssa.Alloc); ok && c.Op == token.MUL {
			return x.evalAlloc(al)
		}
	case *ssa.MakeInterface:
		return IfaceV{dyn: c.X.Type(), v: nil}, true
	case *ssa.Call:
		cc := c.Common()
		if cc.IsInvoke() && isReflectType(cc.Value.Type()) && cc.Method.Name() == "Elem" {
			if r, ok := x.evalInit(cc.Value); ok {
				if t, ok := r.(*Term); ok && t.op == "gtc" {
					if u, ok := gtcTypes[t.str]; ok {
						switch e := u.Underlying().(type) {
						case *types.Pointer:
							return gtcOf(e.Elem()), true
						case *types.Slice:
							return gtcOf(e.Elem()), true
						}
					}
				}
			}
			return nil, false
		}
		if f := cc.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "reflect" {
			switch f.Name() {
			case "TypeOf":
				if r, ok := x.evalInit(cc.Args[0]); ok {
					if i, ok := r.(IfaceV); ok && i.dyn != nil {
						return gtcOf(i.dyn), true
					}
				}
			case "TypeFor":
				if ta := f.TypeArgs(); len(ta) == 1 {
					return gtcOf(ta[0]), true
				}
			}
		}
	}
	return nil, false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = c.X
	}
}

// evalAlloc: what initialisation stores into a temporary array or struct.
func (x *Exec) evalAlloc(al *ssa.Alloc) (Val, bool) {
	v := x.zero(al.Type().Underlying().(*types.Pointer).Elem())
	ok := true
	var walk func(a ssa.Value, path []int)
	walk = func(a ssa.Value, path []int) {
		for _, r := range *a.Referrers() {
			switch in := r.(type) {
			case *ssa.IndexAddr:
				c, isC := in.Index.(*ssa.Const)
				if in.X != a || !isC {
					ok = false
					continue
				}
				walk(in, append(path[:len(path):len(path)], int(c.Int64())))
			case *ssa.FieldAddr:
				walk(in, append(path[:len(path):len(path)], in.Field))
			case *ssa.Store:
				if in.Addr != a {
					ok = false
					continue
				}
				e, good := x.evalInit(in.Val)
				if !good {
					ok = false
					continue
				}
				if v, good = setPath(v, path, e); !good {
					ok = false
				}
			case *ssa.Slice, *ssa.UnOp, *ssa.DebugRef:
			default:
				ok = false
			}
		}
	}
	walk(al, nil)
	return v, ok
}

var gtcTypes = map[string]types.Type{}

func gtcOf(t types.Type) *Term {
	n := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	gtcTypes[n] = t
	return GTC(n)
}

// ---- interfaces
func (x *Exec) makeIface(st *State, v Val, from, to types.Type, pos string) Val {
	if isErrorType(to) || isErrorIface(to) {
		if e, ok := v.(*Term); ok && e.s == SErr {
			return e
		}
		if p, ok := from.Underlying().(*types.Pointer); ok {
			switch internalName(p.Elem()) {
			case "UnmarshalFieldError":
				if a, ok := v.(AddrV); ok {
					s := st.objs[a.obj].(StructV)
					u := p.Elem().Underlying().(*types.Struct)
					var num, wt, in *Term
					for i := 0; i < u.NumFields(); i++ {
						switch u.Field(i).Name() {
						case "FieldNumber":
							num = s.f[i].(*Term)
						case "WireType":
							wt = s.f[i].(*Term)
						case "Err":
							in = Ecls(s.f[i].(*Term))
						}
					}
					if num != nil && wt != nil && in != nil {
						return Ctor(SErr, "EFe", num, wt, in)
					}
				}
				x.fail(pos, "field error of unknown shape")
			case "InvalidUnmarshalError":
				return errClass(5)
			}
		}
		return errClass(4)
	}
	if isReflectType(to) {
		if t, ok := v.(*Term); ok && t.s == SType {
			return t
		}
	}
	if hasTypeParam(from) {
		return IfaceV{sym: Fresh("boxed", S64), kind: "user"}
	}
	return IfaceV{dyn: from, v: v}
}

func hasTypeParam(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTypeParam(u.Elem())
	case *types.Slice:
		return hasTypeParam(u.Elem())
	case *types.Array:
		return hasTypeParam(u.Elem())
	case *types.Chan:
		return hasTypeParam(u.Elem())
	case *types.Map:
		return hasTypeParam(u.Key()) || hasTypeParam(u.Elem())
	case *types.Named:
		for i := 0; i < u.TypeArgs().Len(); i++ {
			if hasTypeParam(u.TypeArgs().At(i)) {
				return true
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasTypeParam(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Signature:
		return true
	}
	return false
}

func isErrorIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && i.Method(0).Name() == "Error"
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(*State, Val)) {
	v := x.val(fr, st, in.X)
	pos := posOf(in)
	done := func(s *State, r Val, ok *Term) {
		if in.CommaOk {
			if ok == tFalse {
				r = x.zero(in.AssertedType)
			}
			k(s, TupleV{r, ok})
			return
		}
		x.safe(s, "type assertion holds", ok, pos)
		k(s, r)
	}
	switch i := v.(type) {
	case IfaceV:
		if i.nilv {
			done(st, x.zero(in.AssertedType), tFalse)
			return
		}
		if i.dyn != nil {
			if types.IsInterface(in.AssertedType) {
				done(st, v, B(types.Implements(i.dyn, in.AssertedType.Underlying().(*types.Interface))))
				return
			}
			done(st, i.v, B(types.Identical(i.dyn, in.AssertedType)))
			return
		}
		if i.kind == "lib" {
			n := types.TypeString(in.AssertedType, func(p *types.Package) string { return p.Name() })
			x.usedExt["the assertion of a descriptor's options to "+n] = true
			if in.CommaOk {
				ok := UF("is."+n, SBool, i.sym)
				x.branch(st, ok, func(s *State) { done(s, x.libVal(s, "as."+n, in.AssertedType, i.sym), tTrue) }, func(s *State) { done(s, x.zero(in.AssertedType), tFalse) })
				return
			}
			done(st, x.libVal(st, "as."+n, in.AssertedType, i.sym), tTrue)
			return
		}
		if i.kind == "pool" && isUnsafePtr(in.AssertedType) {
			// the pool holds what was put into it: raw pointers, or nothing
			x.branch(st, Eq(i.sym, C64(0)), func(s *State) { done(s, C64(0), tFalse) }, func(s *State) { done(s, i.sym, tTrue) })
			return
		}
	case *Term:
		if i.s == SErr {
			if p, ok := in.AssertedType.Underlying().(*types.Pointer); ok && internalName(p.Elem()) == "UnmarshalFieldError" && in.CommaOk {
				x.branch(st, IsCtor("EFe", i), func(s *State) {
					id := x.newObj()
					s.objs[id] = x.sym(p.Elem(), "fe")
					k(s, TupleV{AddrV{id, ""}, tTrue})
				}, func(s *State) { k(s, TupleV{C64(0), tFalse}) })
				return
			}
		}
	}
	x.fail(pos, "type assertion on %T to %s", v, in.AssertedType)
}

// iterAt finds the map iterator an access path leads into.
func iterAt(o Val, path []int) (IterV, []int, bool) {
	for {
		switch v := o.(type) {
		case IterV:
			return v, path, true
		case StructV:
			if len(path) == 0 || path[0] >= len(v.f) {
				return IterV{}, nil, false
			}
			o, path = v.f[path[0]], path[1:]
		default:
			return IterV{}, nil, false
		}
	}
}

// iterField reads the iterator the runtime shares with its caller: the first
// two words are the addresses of the current key and value, nil at the end.
func (x *Exec) iterField(st *State, it IterV, f int, t types.Type, pos string, k func(*State, Val)) {
	if f > 1 {
		if s, ok := termSort(t); ok && s == S64 {
			k(st, UF("iterword", S64, it.m, it.pos, C64(uint64(f))))
			return
		}
		x.fail(pos, "map iterator field %d", f)
	}
	if it.dead {
		k(st, C64(0))
		return
	}
	n := spec.apply("mapn", S64, []*Term{it.m, it.h})
	x.branch(st, Slt(it.pos, n), func(s *State) {
		k(s, spec.apply([]string{"mapk", "mapv"}[f], S64, []*Term{it.m, it.h, it.pos}))
	}, func(s *State) { k(s, C64(0)) })
}

var _ = fmt.Sprint
