package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Field lists and field indices of descriptors under construction.
//
// A list is a ghost term: lnil, or lsnoc(list, element). The element for
// struct field i of type T is fd(T, i). A descriptor object joins a list as a
// pending item; it has to satisfy the description of its struct field when
// control next reaches a loop head, a call that keeps it, or the return (settle).

type ListV struct {
	l    *Term
	pend []Val
}

type pendIdx struct {
	key *Term
	v   Val
}

var (
	lnil = func() *Term { return UF("lnil", S64) }
	inil = func() *Term { return UF("inil", S64) }
)

func llen(l *Term) *Term { return spec.apply("llen", S64, []*Term{l}) }

func isFieldList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := s.Elem().Underlying().(*types.Pointer)
	return ok && internalName(p.Elem()) == "structField"
}

// descField: a field of a local descriptor, by its role.
func descFields(s StructV) (off, wt, tagsize, codec Val) {
	u, ok := s.t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := range s.f {
		t := u.Field(i).Type()
		switch {
		case isCodecPtr(t):
			codec = s.f[i]
		case isNamedBasic(t, types.Uintptr):
			off = s.f[i]
		case isNamedBasic(t, types.Uint64):
			wt = s.f[i]
		case isNamedBasic(t, types.Int):
			tagsize = s.f[i]
		}
	}
	return
}

// descInv: the tag length kept in a descriptor is that of its tag.
func (x *Exec) descInv(st *State, obj int, pos string) {
	s, ok := st.objs[obj].(StructV)
	if !ok || internalName(s.t) != "structField" {
		return
	}
	_, w, n, _ := descFields(s)
	wt, ok1 := w.(*Term)
	nt, ok2 := n.(*Term)
	if !ok1 || !ok2 {
		x.fail(pos, "descriptor of unknown shape")
	}
	x.oblige(st, "post", "the tag length of a descriptor is that of its tag", spec.groupOr("DESC", "C01"), Eq(nt, Vlen(wt)), pos)
}

// settleDesc: the object describes a field of a struct type.
func (x *Exec) settleDesc(st *State, v Val, pos string) *Term {
	switch a := v.(type) {
	case *Term:
		if id, ok := x.refs[a.str]; ok && a.op == "var" {
			return x.settleDesc(st, AddrV{id, ""}, pos)
		}
		return a
	case AddrV:
		if s, ok := st.sealed[a.obj]; ok {
			return s[0]
		}
		props := spec.groupOr("DESC", "C12")
		s, ok := st.objs[a.obj].(StructV)
		if !ok || a.path != "" || internalName(s.t) != "structField" {
			break
		}
		o, w, _, c := descFields(s)
		ot, ok1 := o.(*Term)
		wt, ok2 := w.(*Term)
		if !ok1 || !ok2 {
			break
		}
		if !ot.isUF("tfoff") {
			x.oblige(st, "post", "a described field lies at its offset", props, tFalse, pos)
			e := Fresh("fd", S64)
			st.sealed[a.obj] = [2]*Term{e}
			return e
		}
		T, i := ot.args[0], ot.args[1]
		x.oblige(st.fork(), "post", "a described field lies at its offset", props, tTrue, pos)
		x.oblige(st.fork(), "post", "a described field has the number and wire type of its tag", propsUnion(props, spec.groupOr("DESC.WT", "C12")), Eq(wt, spec.evalCall("TW", T, i)), pos)
		x.descInv(st, a.obj, pos)
		if c == nil {
			x.fail(pos, "descriptor without a codec")
		}
		x.checkCodec(st.fork(), c, spec.evalCall("FK", T, i), pos)
		e := UF("fd", S64, T, i)
		st.sealed[a.obj] = [2]*Term{e}
		st.frozen[a.obj] = "they were described"
		return e
	}
	x.fail(pos, "descriptor %T", v)
	return nil
}

// settle turns pending items into ghost elements.
func (x *Exec) settle(st *State, v Val, pos string) Val {
	switch a := v.(type) {
	case ListV:
		if len(a.pend) == 0 {
			return a
		}
		l := a.l
		for _, p := range a.pend {
			l = UF("lsnoc", S64, l, x.settleDesc(st, p, pos))
		}
		return ListV{l: l}
	case IdxMap:
		if len(a.pend) == 0 {
			return a
		}
		m := a.n
		for _, p := range a.pend {
			e := x.settleDesc(st, p.v, pos)
			m = x.idxSet(st, m, p.key, e, pos)
		}
		return IdxMap{owner: a.owner, n: m}
	case StructV:
		var f []Val
		for i, y := range a.f {
			switch y.(type) {
			case ListV, StructV, IdxMap:
				n := x.settle(st, y, pos)
				if !eqVal(n, y) {
					if f == nil {
						f = append([]Val{}, a.f...)
					}
					f[i] = n
				}
			}
		}
		if f != nil {
			return StructV{f, a.t}
		}
	}
	return v
}

func (x *Exec) settleAll(st *State, vals []Val, pos string) []Val {
	out := vals
	for i, v := range vals {
		if n := x.settle(st, v, pos); !eqVal(n, v) {
			if &out[0] == &vals[0] {
				out = append([]Val{}, vals...)
			}
			out[i] = n
		}
	}
	for _, id := range sortedObjs(st.objs) {
		switch o := st.objs[id].(type) {
		case StructV, IdxMap:
			if n := x.settle(st, o, pos); !eqVal(n, o) {
				st.objs[id] = n
			}
		}
	}
	return out
}

func (x *Exec) elemWt(e *Term) *Term {
	if e.isUF("fd") {
		return spec.evalCall("TW", e.args[0], e.args[1])
	}
	return UF("f.wt", S64, e)
}

func (x *Exec) idxSet(st *State, m, key, e *Term, pos string) *Term {
	x.oblige(st.fork(), "post", "a descriptor is found under its field number", spec.groupOr("DESC", "C12"), Eq(key, Lshr(x.elemWt(e), C64(3))), pos)
	return UF("iset", S64, m, e)
}

func (x *Exec) indexUpdate(st *State, mv MapV, key *Term, v Val, pos string) bool {
	im, ok := st.objs[mv.obj].(IdxMap)
	if !ok {
		return false
	}
	if why, ok := st.frozen[mv.obj]; ok {
		x.oblige(st, "safety", "descriptors are not written after "+why, spec.groupOr("SHARED", "C13"), tFalse, pos)
	}
	im.pend = append(im.pend[:len(im.pend):len(im.pend)], pendIdx{key, v})
	if t, ok := v.(*Term); ok && !(t.op == "var" && x.refs[t.str] != 0) {
		st.objs[mv.obj] = x.settle(st, im, pos)
		return true
	}
	st.objs[mv.obj] = im
	return true
}

// asList views a slice of descriptors as a list value.
func (x *Exec) asList(st *State, v Val) (ListV, bool) {
	switch a := v.(type) {
	case ListV:
		return a, true
	case SeqV:
		if a.obj == -1 {
			return ListV{l: lnil()}, true
		}
		if c, ok := st.objs[a.obj].(SeqC); ok {
			switch {
			case c.kind == "flist" && llen(c.owner) == a.n:
				return ListV{l: c.owner}, true
			case c.kind == "items" && a.n.isC() && int(a.n.v) <= len(c.items):
				return ListV{l: lnil(), pend: c.items[:a.n.v]}, true
			}
		}
	}
	return ListV{}, false
}

func (l ListV) n() *Term { return Add(llen(l.l), C64(uint64(len(l.pend)))) }

func (x *Exec) listAppend(st *State, args []Val, pos string, k K) bool {
	if _, isList := args[0].(ListV); !isList {
		if s, ok := args[0].(SeqV); !ok || s.obj <= 0 {
			return false
		} else if c, ok := st.objs[s.obj].(SeqC); !ok || c.kind != "flist" {
			return false
		}
	}
	d, ok := x.asList(st, args[0])
	s, ok2 := x.asList(st, args[1])
	if !ok || !ok2 {
		return false
	}
	switch {
	case s.l == lnil():
		k(st, ListV{d.l, append(d.pend[:len(d.pend):len(d.pend)], s.pend...)})
	case d.l == lnil() && len(d.pend) == 0:
		k(st, s)
	default:
		return false
	}
	return true
}

func (x *Exec) listCopy(st *State, args []Val, pos string, k K) bool {
	d, ok := args[0].(SeqV)
	if !ok || d.obj <= 0 {
		return false
	}
	c, ok := st.objs[d.obj].(SeqC)
	s, ok2 := x.asList(st, args[1])
	if !ok || !ok2 || c.kind != "blank" {
		return false
	}
	s = x.settle(st, s, pos).(ListV)
	n := llen(s.l)
	if !x.p.entails(st.pc, Eq(d.n, n)) {
		return false
	}
	st.objs[d.obj] = SeqC{kind: "flist", owner: s.l, elem: c.elem}
	k(st, n)
	return true
}

func (x *Exec) listElem(st *State, l ListV, i *Term) Val {
	if i.isC() {
		if _, ok := llenC(l.l); ok && l.l == lnil() && i.v < uint64(len(l.pend)) {
			return l.pend[i.v]
		}
	}
	l = x.settle(st, l, "").(ListV)
	e := UF("lelem", S64, l.l, i)
	st.assume(Ne(e, C64(0)))
	return e
}
func llenC(l *Term) (int, bool) { return 0, l.isUF("lnil") }

// checkInfoObj: a descriptor built here describes exactly the visible fields
// of its message type, in order.
func (x *Exec) checkInfoObj(st *State, a AddrV, T *Term, pos string) {
	props := spec.groupOr("DESC", "C12")
	st = st.fork()
	o, ok := st.objs[a.obj].(StructV)
	if !ok || a.path != "" {
		x.fail(pos, "descriptor %v", a)
	}
	u := o.t.Underlying().(*types.Struct)
	var L *Term
	for i := range o.f {
		if isFieldList(u.Field(i).Type()) {
			l, ok := x.asList(st, o.f[i])
			if !ok {
				x.fail(pos, "field list %T", o.f[i])
			}
			L = x.settle(st, l, pos).(ListV).l
		}
	}
	if L == nil {
		x.fail(pos, "descriptor without a field list")
	}
	x.oblige(st.fork(), "post", "the descriptor lists exactly the tagged exported fields in order", propsUnion(props, spec.groupOr("DESC.ORDER", "C20")),
		Eq(L, spec.apply("DLIST", S64, []*Term{T, spec.apply("tnf", S64, []*Term{T})})), pos)
	for i := range o.f {
		m, ok := o.f[i].(MapV)
		if !ok {
			continue
		}
		what := "every described field is found by its number"
		im, ok := st.objs[m.obj].(IdxMap)
		if m.kind != "newindex" || !ok {
			x.oblige(st.fork(), "post", what, props, tFalse, pos)
			continue
		}
		im = x.settle(st, im, pos).(IdxMap)
		x.oblige(st.fork(), "post", what, props, Or(
			Eq(im.n, spec.apply("ILIST", S64, []*Term{L, llen(L)})),
			Eq(im.n, spec.apply("MI", S64, []*Term{T, spec.apply("tnf", S64, []*Term{T})}))), pos)
		st.frozen[m.obj] = "they were handed out"
	}
	st.frozen[a.obj] = "they were handed out"
}

// idxCands: candidate invariants of loops that fill a field index.
func (x *Exec) idxCands(fr *Frame, st *State, init []leaf, add func(string, func(m map[string]*Term) *Term)) {
	has := false
	for _, l := range init {
		if l.typ == "imap" {
			has = true
		}
	}
	if !has {
		return
	}
	var ls []*Term
	seen := map[*Term]bool{}
	see := func(v Val) {
		if l, ok := x.asList(st, v); ok && len(l.pend) == 0 && !seen[l.l] {
			seen[l.l] = true
			ls = append(ls, l.l)
		}
	}
	var walk func(v Val)
	walk = func(v Val) {
		see(v)
		if s, ok := v.(StructV); ok {
			for _, f := range s.f {
				walk(f)
			}
		}
	}
	for _, id := range sortedObjs(st.objs) {
		if _, ok := st.objs[id].(StructV); ok {
			walk(st.objs[id])
		}
	}
	var regs []ssa.Value
	for r := range fr.regs {
		if isFieldList(r.Type()) {
			regs = append(regs, r)
		}
	}
	for _, r := range regs {
		see(fr.regs[r])
	}
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			if ls[j].id < ls[i].id {
				ls[i], ls[j] = ls[j], ls[i]
			}
		}
	}
	for _, l := range init {
		if l.typ != "imap" {
			continue
		}
		mk := l.key
		for _, q := range init {
			if q.typ != "int" || q.t.s != S64 {
				continue
			}
			qk := q.key
			for _, L := range ls {
				L := L
				for d := uint64(0); d < 2; d++ {
					d := d
					add(fmt.Sprintf("index %s %s+%d", mk, qk, d), func(m map[string]*Term) *Term {
						if m[mk] == nil || m[qk] == nil {
							return nil
						}
						return Eq(m[mk], spec.apply("ILIST", S64, []*Term{L, Add(m[qk], C64(d))}))
					})
				}
			}
		}
	}
}
