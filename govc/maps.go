package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Maps: entry types built by reflection, the entry pool, decoding of entries.

func (x *Exec) extern3(st *State, fn *ssa.Function, name string, args []Val, pos string, k K) bool {
	switch name {
	case "(reflect.StructField).IsExported":
		s, ok := args[0].(StructV)
		if !ok {
			return false
		}
		u := s.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "PkgPath" {
				if p, ok := x.asTerm(st, s.f[i]); ok {
					k(st, Eq(p, eps))
					return true
				}
			}
		}
		return false
	case "(reflect.StructTag).Lookup", "(reflect.StructTag).Get":
		tag, ok1 := x.asTerm(st, args[0])
		key, ok2 := x.asTerm(st, args[1])
		if !ok1 || !ok2 {
			return false
		}
		v := spec.apply("tlook", SBytes, []*Term{tag, key})
		h := spec.apply("haslook", SBool, []*Term{tag, key})
		st.assume(Or(h, Eq(v, eps)))
		if name == "(reflect.StructTag).Get" {
			k(st, v)
			return true
		}
		k(st, TupleV{v, h})
		return true
	case "reflect.StructOf":
		k(st, x.structOfCall(st, args[0], pos))
		return true
	case "(*sync.Pool).Get":
		x.poolGet(st, args[0], pos, k)
		return true
	case "(*sync.Pool).Put":
		x.poolPut(st, args[0], args[1], pos)
		k(st, nil)
		return true
	}
	return false
}

// structOfCall: reflect.StructOf of two exported fields.
func (x *Exec) structOfCall(st *State, v Val, pos string) *Term {
	its := x.variadic(st, v)
	if len(its) != 2 {
		x.fail(pos, "reflect.StructOf of %d fields", len(its))
	}
	var T, tag [2]*Term
	for i, it := range its {
		s, ok := it.(StructV)
		if !ok {
			x.fail(pos, "reflect.StructOf of %T", it)
		}
		u := s.t.Underlying().(*types.Struct)
		for j, f := range s.f {
			t, isT := f.(*Term)
			switch u.Field(j).Name() {
			case "Name":
				if !isT || t.op != "strc" || t.str == "" || t.str[0] < 'A' || t.str[0] > 'Z' {
					x.fail(pos, "reflect.StructOf: field name")
				}
			case "PkgPath":
				if !isT || t != eps {
					x.fail(pos, "reflect.StructOf: unexported field")
				}
			case "Type":
				if !isT {
					x.fail(pos, "reflect.StructOf: field type")
				}
				x.safe(st, "no nil dereference", Ne(t, nilType), pos)
				T[i] = t
			case "Tag":
				if !isT {
					x.fail(pos, "reflect.StructOf: field tag")
				}
				tag[i] = t
			case "Anonymous":
				if !isT || t != tFalse {
					x.fail(pos, "reflect.StructOf: embedded field")
				}
			}
		}
	}
	r := UF("structof", SType, T[0], T[1], tag[0], tag[1])
	x.structofs = append(x.structofs, r)
	if x.structSt == nil {
		x.structSt = map[*Term]*State{}
	}
	x.structSt[r] = st.fork()
	return r
}

// poolLayout: what the elements of a pool are; every Put obliges it. A pool
// that is filled only by such Puts holds zeroed objects of this layout.
func (x *Exec) poolLayout(st *State, v Val, pos string) (*Term, Val) {
	a, ok := v.(AddrV)
	if !ok || a.path != "" {
		x.fail(pos, "pool %T", v)
	}
	o, ok := st.objs[a.obj].(StructV)
	if !ok {
		x.fail(pos, "pool %T", st.objs[a.obj])
	}
	var nf Val
	u := o.t.Underlying().(*types.Struct)
	for i := range o.f {
		if u.Field(i).Name() == "New" {
			nf = o.f[i]
		}
	}
	if x.poolLay == nil {
		x.poolLay = map[int]*Term{}
	}
	l := x.poolLay[a.obj]
	if l == nil {
		if len(x.structofs) == 0 {
			x.fail(pos, "pool of unknown content")
		}
		l = x.tlay(x.structofs[len(x.structofs)-1])
		x.poolLay[a.obj] = l
	}
	return l, nf
}

func (x *Exec) poolGet(st *State, v Val, pos string, k K) {
	if !x.inRole {
		x.fail(pos, "pool used by a constructor")
	}
	l, nf := x.poolLayout(st, v, pos)
	x.branch(st, Fresh("pooled", SBool), func(s *State) {
		a := UF("pooladdr", S64, l, s.heap)
		s.heap = UF("hzero", SHeap, l, a, s.heap)
		k(s, IfaceV{kind: "pool", sym: a})
	}, func(s *State) {
		switch f := nf.(type) {
		case nil:
			k(s, IfaceV{nilv: true})
		case *ssa.Function:
			x.callStatic(s, f, nil, nil, pos, k)
		case ClosV:
			x.callStatic(s, f.fn, f.binds, nil, pos, k)
		default:
			x.fail(pos, "pool with New = %T", nf)
		}
	})
}

func (x *Exec) poolPut(st *State, v, e Val, pos string) {
	if !x.inRole {
		x.fail(pos, "pool used by a constructor")
	}
	l, _ := x.poolLayout(st, v, pos)
	iv, ok := e.(IfaceV)
	if !ok {
		x.fail(pos, "Put of %T", e)
	}
	var s *Term
	if iv.kind == "pool" {
		s = iv.sym
	} else if t, ok := iv.v.(*Term); ok && t.s == S64 && iv.dyn != nil && isUnsafePtr(iv.dyn) {
		s = t
	} else {
		x.fail(pos, "Put of %T", iv.v)
	}
	props := spec.groupOr("RDEC.KMap", "C10")
	post := func(what string, g *Term, ps []string) { x.oblige(st.fork(), "post", what, ps, g, pos) }
	priv := spec.groupOr("SHARED", "C13")
	if !(s.isUF("newaddr") || s.isUF("pooladdr")) {
		post("only objects allocated for it enter the pool", tFalse, priv)
		return
	}
	post("only objects allocated for it enter the pool", Eq(s.args[0], l), priv)
	post("pooled entries are not part of the message", B(!storesPtr(st.heap, s)), propsUnion(priv, props))
	if st.heap.isUF("hzero") {
		post("pooled entries are cleared", And(Eq(st.heap.args[0], l), Eq(st.heap.args[1], s)), props)
	} else {
		post("pooled entries are cleared", tFalse, props)
	}
	for _, ev := range st.events {
		if ev.kind == "put" && ev.a[0] == s {
			post("an entry enters the pool once", tFalse, propsUnion(priv, props))
		}
	}
	st.events = append(st.events, Event{kind: "put", a: []*Term{s}, hpre: st.heap, pos: pos})
}

// storesPtr: memory h was built by storing the address s somewhere.
func storesPtr(h, s *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "store" && baseOf(t.args[2]) == s {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(h)
}

// mapDecoded: decoding one occurrence of a map field decodes one entry message
// into a cleared entry and assigns it to its key; nothing else changes.
func (x *Exec) mapDecoded(s *State, K *Term, b BytesV, p, h0, n, e *Term, pos string) {
	props := spec.groupOr("RDEC.KMap", "C10")
	post := func(what string, g *Term) { x.oblige(s.fork(), "post", what, props, g, pos) }
	var mk, as, put *Event
	for i := range s.events {
		ev := &s.events[i]
		switch ev.kind {
		case "makemap":
			if mk != nil {
				post("at most one map is made", tFalse)
				return
			}
			mk = ev
		case "mapassign":
			if as != nil {
				post("at most one entry is assigned", tFalse)
				return
			}
			as = ev
		case "put":
			put = ev
		}
	}
	if put != nil && put.hpre != s.heap {
		x.oblige(s.fork(), "post", "a pooled entry is not used any more", propsUnion(props, spec.groupOr("SHARED", "C13")), tFalse, pos)
	}
	m := x.sel(h0, "p", p)
	h1 := h0
	if mk != nil {
		post("an existing map is kept", Eq(m, C64(0)))
		m = mk.a[1]
		h1 = UF("hnewmap", SHeap, mk.a[0], h0)
		h1 = hset(h1, "p", Store(hpart(h1, "p"), p, m))
	} else {
		post("a nil map is replaced before an entry is assigned", Ne(m, C64(0)))
	}
	R, lo, hi := extent(b.c)
	vn := spec.evalCall("vn", b.c)
	x.branch(s, Eq(e, eNil), func(s *State) {
		post := func(what string, g *Term) { x.oblige(s.fork(), "post", what, props, g, pos) }
		x.oblige(s.fork(), "post", "a successful decode consumes all of its data", spec.groupOr("RDECN", "C05"), Eq(n, Blen(b.c)), pos)
		if as == nil {
			post("a decoded entry is assigned to its key", tFalse)
			return
		}
		pre := as.hpre
		if !pre.isUF("MDH") {
			post("the assigned entry is what was decoded", tFalse)
			return
		}
		T, ad := pre.args[0], pre.args[4]
		x.entryType(s, K, T, pos)
		lay := x.tlay(T)
		post("the entry is decoded from the field's data", And(Eq(pre.args[1], R), Eq(pre.args[2], Add(lo, vn)), Eq(pre.args[3], hi)))
		post("the entry is decoded into cleared memory of its own", And(B(freshAddr(ad)), Eq(pre.args[5], UF("hzero", SHeap, lay, ad, h1))))
		off := func(i uint64) *Term { return Add(ad, spec.apply("tfoff", S64, []*Term{T, C64(i)})) }
		post("the entry is assigned to its key in the field's map", And(Eq(as.a[1], m), Eq(as.a[2], off(0))))
		h := s.heap
		if h.isUF("hzero") && h.args[1] == ad {
			h = h.args[2]
		}
		lv := spec.apply("klay", S64, []*Term{K.args[1]})
		post("the decoded value is stored under the key, nothing else changes", Eq(h, UF("hmov", SHeap, lv, as.a[3], off(1), as.hpost)))
	}, func(s *State) {
		post := func(what string, g *Term) { x.oblige(s.fork(), "post", what, props, g, pos) }
		post("a failed decode assigns nothing", B(as == nil))
		// the error is the entry's
		if e.isUF("MDe") {
			x.entryType(s, K, e.args[0], pos)
			x.oblige(s.fork(), "post", "the error is the specified one", spec.groupOr("RDECE", props...), And(Eq(e.args[1], R), Eq(e.args[2], Add(lo, vn)), Eq(e.args[3], hi)), pos)
		} else {
			x.oblige(s.fork(), "post", "the error is the specified one", spec.groupOr("RDECE", props...), tFalse, pos)
		}
	})
}

// entryType: T is a message type of two fields, the key and the value, as
// their kinds and tags say.
func (x *Exec) entryType(s *State, K, T *Term, pos string) {
	props := spec.groupOr("RDEC.KMap", "C10")
	s0 := x.structSt[T]
	if s0 == nil {
		x.oblige(s.fork(), "post", "an entry is of the type built for it", props, tFalse, pos)
		return
	}
	if x.entries == nil {
		x.entries = map[[2]*Term]bool{}
	}
	if x.entries[[2]*Term{K, T}] {
		return
	}
	x.entries[[2]*Term{K, T}] = true
	s = s0
	two := Eq(spec.apply("tnf", S64, []*Term{T}), C64(2))
	x.oblige(s.fork(), "post", "an entry has two fields", props, two, pos)
	for i := uint64(0); i < 2; i++ {
		j := C64(i)
		what := []string{"key", "value"}[i]
		x.oblige(s.fork(), "post", fmt.Sprintf("the %s is described by its own tag", what), props,
			And(spec.evalCall("vis", T, j), Eq(spec.evalCall("TW", T, j), K.args[2+i])), pos)
		what2 := fmt.Sprintf("the %s is decoded as its type and tag demand", what)
		x.keepKOF = true
		x.resolveK(s.fork(), spec.evalCall("FK", T, j), pos, func(s *State, k *Term) {
			x.keepKOF = false
			defer func() { x.keepKOF = true }()
			want := K.args[i]
			if k.isUF("KOF") {
				x.oblige(s, "post", what2, props, Eq(spec.evalCall("norm", k), want), pos)
				return
			}
			x.resolveK(s, want, pos, func(s *State, w *Term) {
				s.assume(Eq(want, w))
				if x.feasible(s) {
					x.oblige(s, "post", what2, props, Eq(spec.evalCall("norm", k), w), pos)
				}
			})
		})
		x.keepKOF = false
	}
}
