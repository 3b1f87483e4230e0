package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values. Plain *Term covers booleans, integers, floats (as their
// bits), raw and internal pointers, strings (as byte strings), errors and
// reflect.Type.
type Val interface{}

type BytesV struct { // []byte
	nl     *Term // is nil
	c      *Term // content (obj == 0)
	prov   string
	obj    int // window [lo, hi) of a local buffer
	lo, hi *Term
}
type BufC struct{ c *Term } // local byte buffer
type SeqV struct {          // any other slice: header over a backing object
	obj int
	n   *Term
}
type SeqC struct { // backing object of a SeqV
	kind  string // items | fields | split | blank
	items []Val
	owner *Term // fields: the message type; split: the string
	n     *Term // fields: how many leading descriptors it holds
	elem  types.Type
	off   int
}
type StructV struct {
	f []Val
	t types.Type
}
type TupleV []Val
type AddrV struct {
	obj  int
	path string // ".0.1"
}
type GlobalV struct {
	g    *ssa.Global
	path string
}
type FieldRef struct { // field of an immutable internal object reached by reference
	base *Term
	typ  string
	st   *types.Struct
	idx  int
}
type ElemRef struct {
	s Val
	i *Term
}
type ClosV struct {
	fn    *ssa.Function
	binds []Val
}
type FnSym struct {
	role  string
	codec *Term
}
type IfaceV struct { // dynamic interface value (not error, not reflect.Type)
	nilv bool
	dyn  types.Type
	v    Val
	sym  *Term  // opaque: identity
	kind string // "": known v; "user": argument of the API; "pool"
}
type MapV struct {
	kind string // codecs | infos | index | local | nil
	obj  int
	own  *Term
}
type IdxMap struct {
	owner *Term
	n     *Term
	pend  []pendIdx
}
type MapC struct{ kind string } // local memo tables: any content satisfying the table's invariant
type IterV struct {             // map iterator
	m, h *Term // map reference, heap
	mt   *Term
	pos  *Term
	dead bool
}
type RangeV struct{ m Val }
type RValV struct { // reflect.Value
	kind string // new | zero
	addr *Term
	t    *Term
}
type PoolV struct{ t *Term }
type Opaque struct{ what string }

type Event struct {
	kind        string
	a           []*Term
	hpre, hpost *Term
	data        Val
	err         *Term
	pos         string
}

type State struct {
	pc       []*Term
	objs     map[int]Val
	heap     *Term
	frozen   map[int]string
	events   []Event
	sealed   map[int][2]*Term // local field objects registered as descriptor (type, index)
	promises []promise        // local objects already in a memo table
}

func (s *State) fork() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: s.heap, events: s.events[:len(s.events):len(s.events)], promises: s.promises[:len(s.promises):len(s.promises)]}
	n.objs = make(map[int]Val, len(s.objs))
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.frozen = make(map[int]string, len(s.frozen))
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	n.sealed = make(map[int][2]*Term, len(s.sealed))
	for k, v := range s.sealed {
		n.sealed[k] = v
	}
	return n
}
func (s *State) assume(c ...*Term) {
	for _, x := range c {
		if x == tTrue {
			continue
		}
		if x.op == "and" {
			s.assume(x.args...)
			continue
		}
		dup := false
		for _, y := range s.pc {
			if y == x {
				dup = true
			}
		}
		if !dup {
			s.pc = append(s.pc, x)
		}
	}
}

type unsupported struct {
	msg string
	pos string
}

func isReflectType(t types.Type) bool { return isNamed(t, "reflect", "Type") }

func intWidth(t types.Type) (Sort, bool, bool) { // sort, signed, ok
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return S64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return S64, false, true
	case types.Int32, types.UntypedRune:
		return S32, true, true
	case types.Uint32:
		return S32, false, true
	case types.Int16:
		return S16, true, true
	case types.Uint16:
		return S16, false, true
	case types.Int8:
		return S8, true, true
	case types.Uint8:
		return S8, false, true
	}
	return "", false, false
}
func isFloat(t types.Type) (Sort, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", false
	}
	switch b.Kind() {
	case types.Float32:
		return S32, true
	case types.Float64, types.UntypedFloat:
		return S64, true
	}
	return "", false
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// termSort: the sort of values of t that are plain terms.
func termSort(t types.Type) (Sort, bool) {
	if isReflectType(t) {
		return SType, true
	}
	if isErrorType(t) {
		return SErr, true
	}
	if isBool(t) {
		return SBool, true
	}
	if s, _, ok := intWidth(t); ok {
		return s, true
	}
	if s, ok := isFloat(t); ok {
		return s, true
	}
	if isString(t) {
		return SBytes, true
	}
	if isUnsafePtr(t) {
		return S64, true
	}
	if isTypeParam(t) {
		return S64, true // a value of some type: all that is known is its identity
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return S64, true
	}
	return "", false
}

var nilType = GTC("<nil>")
var eNil = Ctor(SErr, "ENil")

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func (x *Exec) zero(t types.Type) Val {
	if isTypeParam(t) {
		return UF("tzero", S64)
	}
	if s, ok := termSort(t); ok {
		switch s {
		case SBool:
			return tFalse
		case SBytes:
			return eps
		case SErr:
			return eNil
		case SType:
			return nilType
		}
		return BV(s, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return x.structOf(t, u, x.zero)
	case *types.Array:
		if u.Len() > 256 {
			return Opaque{"large array"}
		}
		s := StructV{t: t}
		for i := int64(0); i < u.Len(); i++ {
			s.f = append(s.f, x.zero(u.Elem()))
		}
		return s
	case *types.Slice:
		if isByteSlice(t) {
			return BytesV{nl: tTrue, c: eps}
		}
		if isFieldList(t) {
			return ListV{l: lnil()}
		}
		return SeqV{-1, C64(0)}
	case *types.Map:
		return MapV{kind: "nil"}
	case *types.Interface:
		return IfaceV{nilv: true}
	case *types.Signature:
		return nil
	}
	return Opaque{"zero " + t.String()}
}

func (x *Exec) structOf(t types.Type, u *types.Struct, f func(types.Type) Val) Val {
	s := StructV{t: t}
	for i := 0; i < u.NumFields(); i++ {
		s.f = append(s.f, f(u.Field(i).Type()))
	}
	return s
}

func (x *Exec) sym(t types.Type, hint string) Val {
	if s, ok := termSort(t); ok {
		return Fresh(hint, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		i := 0
		return x.structOf(t, u, func(ft types.Type) Val {
			i++
			return x.sym(ft, hint+"."+u.Field(i-1).Name())
		})
	case *types.Slice:
		if isByteSlice(t) {
			return BytesV{nl: Fresh(hint+".nil", SBool), c: Fresh(hint, SBytes), prov: hint}
		}
		id := x.newObj()
		n := Fresh(hint+".len", S64)
		x.initObjs[id] = SeqC{kind: "opaque", elem: u.Elem(), n: n}
		return SeqV{id, n}
	case *types.Map:
		return MapV{kind: x.mapKind(u)}
	case *types.Interface:
		return IfaceV{sym: Fresh(hint, S64), kind: "user"}
	case *types.Signature:
		if r := roleOf(t); r != "" {
			return FnSym{r, Fresh(hint, S64)}
		}
	}
	return Opaque{hint}
}

// mapKind recognises the walker's memo tables by their type.
func (x *Exec) mapKind(u *types.Map) string {
	if isReflectType(u.Key()) {
		if p, ok := u.Elem().Underlying().(*types.Pointer); ok {
			switch internalName(p.Elem()) {
			case "codec":
				return "codecs"
			case "structInfo":
				return "infos"
			}
		}
	}
	if p, ok := u.Elem().Underlying().(*types.Pointer); ok && internalName(p.Elem()) == "structField" {
		return "index"
	}
	return "other"
}

// ---- object paths
func pathElems(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, s := range strings.Split(p[1:], ".") {
		n := 0
		fmt.Sscanf(s, "%d", &n)
		r = append(r, n)
	}
	return r
}
func setPath(v Val, path []int, nv Val) (Val, bool) {
	if len(path) == 0 {
		return nv, true
	}
	switch s := v.(type) {
	case StructV:
		if path[0] >= len(s.f) {
			return nil, false
		}
		inner, ok := setPath(s.f[path[0]], path[1:], nv)
		if !ok {
			return nil, false
		}
		n := StructV{append([]Val{}, s.f...), s.t}
		n.f[path[0]] = inner
		return n, true
	case IterV:
		// storing nil into the key ends the iteration
		if len(path) == 1 && path[0] == 0 {
			s.dead = true
			return s, true
		}
	}
	return nil, false
}

func eqVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case BytesV:
		y, ok := b.(BytesV)
		return ok && x == y
	case SeqV:
		y, ok := b.(SeqV)
		return ok && x == y
	case SeqC:
		y, ok := b.(SeqC)
		if !ok || x.kind != y.kind || x.owner != y.owner || x.n != y.n || len(x.items) != len(y.items) {
			return false
		}
		for i := range x.items {
			if !eqVal(x.items[i], y.items[i]) {
				return false
			}
		}
		return true
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !eqVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		return false
	case ClosV:
		y, ok := b.(ClosV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !eqVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.nilv == y.nilv && x.sym == y.sym && x.kind == y.kind && eqVal(x.v, y.v)
	case nil:
		return b == nil
	case *ssa.Function:
		return a == b
	case ListV:
		y, ok := b.(ListV)
		if !ok || x.l != y.l || len(x.pend) != len(y.pend) {
			return false
		}
		for i := range x.pend {
			if !eqVal(x.pend[i], y.pend[i]) {
				return false
			}
		}
		return true
	case IdxMap:
		y, ok := b.(IdxMap)
		if !ok || x.n != y.n || len(x.pend) != len(y.pend) {
			return false
		}
		for i := range x.pend {
			if x.pend[i].key != y.pend[i].key || !eqVal(x.pend[i].v, y.pend[i].v) {
				return false
			}
		}
		return true
	case LibRef, BagV, AddrV, GlobalV, FnSym, MapV, MapC, IterV, RValV, PoolV, FieldRef, Opaque, BufC:
		return a == b
	}
	return false
}

// leaves flattens a value into named terms (for loop havoc and invariants).
type leaf struct {
	key string
	t   *Term
	typ string // int | bool | bytes | lo | hi | other
}

func (x *Exec) leaves(key string, v Val, out *[]leaf) {
	switch a := v.(type) {
	case *Term:
		ty := "other"
		switch a.s {
		case S64:
			ty = "int"
		case SBool:
			ty = "bool"
		case SBytes:
			ty = "bytes"
		}
		*out = append(*out, leaf{key, a, ty})
	case BufC:
		*out = append(*out, leaf{key, a.c, "bytes"}, leaf{key + "#len", Blen(a.c), "len"})
	case BytesV:
		if a.obj > 0 {
			*out = append(*out, leaf{key + "#lo", a.lo, "int"}, leaf{key + "#hi", a.hi, "int"})
			return
		}
		if x.isInput(a) {
			_, lo, hi := extent(a.c)
			*out = append(*out, leaf{key + "#lo", lo, "int"}, leaf{key + "#hi", hi, "int"})
		}
		*out = append(*out, leaf{key, a.c, "bytes"})
		*out = append(*out, leaf{key + "#len", Blen(a.c), "len"})
	case BagV:
		*out = append(*out, leaf{key + "#n", a.n, "int"})
	case SeqV:
		*out = append(*out, leaf{key + "#n", a.n, "int"})
	case SeqC:
		if a.n != nil {
			*out = append(*out, leaf{key + "#cn", a.n, "int"})
		}
		for i, it := range a.items {
			x.leaves(fmt.Sprintf("%s[%d]", key, i), it, out)
		}
	case StructV:
		for i, f := range a.f {
			x.leaves(fmt.Sprintf("%s.%d", key, i), f, out)
		}
	case IdxMap:
		*out = append(*out, leaf{key + "#idx", a.n, "imap"})
	case ListV:
		*out = append(*out, leaf{key + "#list", a.l, "list"}, leaf{key + "#n", llen(a.l), "len"})
	case IterV:
		*out = append(*out, leaf{key + "#pos", a.pos, "int"})
	}
}

func (x *Exec) isInput(b BytesV) bool {
	if b.obj > 0 {
		return false
	}
	r, _, _ := extent(b.c)
	return x.inRoots[r] || (strings.HasPrefix(b.prov, "in"))
}

// havoc replaces the varying parts of a value by fresh symbols, keeping shape.
func (x *Exec) havoc(key string, v Val) Val {
	switch a := v.(type) {
	case *Term:
		return Fresh("h."+key, a.s)
	case BufC:
		return BufC{Fresh("h."+key, SBytes)}
	case BytesV:
		if a.obj > 0 {
			a.lo, a.hi = Fresh("h."+key+".lo", S64), Fresh("h."+key+".hi", S64)
			return a
		}
		if x.isInput(a) {
			r, _, _ := extent(a.c)
			lo, hi := Fresh("h."+key+".lo", S64), Fresh("h."+key+".hi", S64)
			return BytesV{nl: Fresh("h."+key+".nil", SBool), c: mk("bsl", SBytes, 0, "", nil, r, lo, hi), prov: a.prov}
		}
		return BytesV{nl: Fresh("h."+key+".nil", SBool), c: Fresh("h."+key, SBytes), prov: a.prov}
	case StructV:
		n := StructV{t: a.t}
		for i, f := range a.f {
			n.f = append(n.f, x.havoc(fmt.Sprintf("%s.%d", key, i), f))
		}
		return n
	case IdxMap:
		return IdxMap{owner: a.owner, n: Fresh("h."+key, S64)}
	case BagV:
		return BagV{Fresh("h."+key+".n", S64)}
	case ListV:
		return ListV{l: Fresh("h."+key, S64)}
	case IterV:
		return IterV{a.m, a.h, a.mt, Fresh("h."+key, S64), a.dead}
	case SeqC:
		if a.kind == "fields" {
			a.n = Fresh("h."+key+".cn", S64)
		}
		return a
	}
	return v
}

func sortedObjs(m map[int]Val) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
