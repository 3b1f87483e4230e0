package main

// relDecode: the relational postcondition of a decode that is not a function
// of its arguments.
func (x *Exec) relDecode(K *Term) func(s *State, b BytesV, p, h0, n, e *Term, pos string) {
	switch K.str {
	case "KSlice":
		return func(s *State, b BytesV, p, h0, n, e *Term, pos string) { x.sliceDecoded(s, K, b, p, h0, n, e, pos) }
	case "KMap":
		return func(s *State, b BytesV, p, h0, n, e *Term, pos string) { x.mapDecoded(s, K, b, p, h0, n, e, pos) }
	}
	return nil
}

func hasOp(t *Term, uf string) bool {
	if t.isUF(uf) {
		return true
	}
	for _, a := range t.args {
		if hasOp(a, uf) {
			return true
		}
	}
	return false
}

// sliceDecoded: decoding one occurrence of a repeated field decodes exactly
// one element, into a cleared slot behind the existing ones, all of which are
// kept; how far the slice is grown is free.
func (x *Exec) sliceDecoded(s *State, K *Term, b BytesV, p, h0, n, e *Term, pos string) {
	props := spec.groupOr("RDEC.KSlice", "C09")
	post := func(what string, g *Term) { x.oblige(s.fork(), "post", what, props, g, pos) }
	K0 := K.args[0]
	x.oblige(s.fork(), "post", "the error is the specified one", spec.groupOr("RDECE", props...), Eq(e, spec.apply("KDe", SErr, []*Term{K, b.c})), pos)
	var ev *Event
	for i := range s.events {
		if s.events[i].kind == "decode" {
			if ev != nil {
				post("exactly one element is decoded", tFalse)
				return
			}
			ev = &s.events[i]
		}
	}
	if ev == nil {
		post("exactly one element is decoded", tFalse)
		return
	}
	post("exactly one element is decoded", tTrue)
	post("the element is decoded from the field's data", And(Eq(ev.a[0], K0), Eq(ev.a[1], b.c)))
	addr := ev.a[2]
	a8, a16 := Add(p, C64(8)), Add(p, C64(16))
	cnt, cp, data := x.sel(h0, "d", a8), x.sel(h0, "d", a16), x.sel(h0, "p", p)
	lay := spec.apply("klay", S64, []*Term{K0})
	stride := spec.apply("lstride", S64, []*Term{lay})
	hg := ev.hpre
	zeroed := false
	if hg.isUF("hzero") {
		post("the slot is cleared before the element is decoded into it", And(Eq(hg.args[0], lay), Eq(hg.args[1], addr)))
		hg = hg.args[2]
		zeroed = true
	}
	if hg == h0 {
		if !zeroed {
			post("the slot is cleared before the element is decoded into it", tFalse)
		}
		post("the slot lies within the slice's memory", Slt(cnt, cp))
		post("elements are appended in order", Eq(addr, Add(data, Mul(cnt, stride))))
	} else {
		nd := x.sel(hg, "p", p)
		if !nd.isUF("newarr") {
			post("a grown slice refers to new memory", tFalse)
			return
		}
		ncap := nd.args[1]
		post("a grown slice refers to new memory", And(Eq(nd.args[0], lay), Eq(nd.args[2], h0)))
		post("the slot lies within the slice's memory", Slt(cnt, ncap))
		post("elements are appended in order", Eq(addr, Add(nd, Mul(cnt, stride))))
		want := UF("hnewarr", SHeap, lay, ncap, h0)
		if hasOp(hg, "hcopyn") {
			want = UF("hcopyn", SHeap, lay, nd, data, cnt, want)
		} else {
			post("existing elements are kept when the slice grows", Eq(cnt, C64(0)))
		}
		want = hset(want, "p", Store(hpart(want, "p"), p, nd))
		want = hset(want, "d", Store(hpart(want, "d"), a8, cnt))
		want = hset(want, "d", Store(hpart(want, "d"), a16, ncap))
		post("existing elements are kept when the slice grows", Eq(hg, want))
	}
	x.branch(s, Eq(e, eNil), func(s *State) {
		x.oblige(s.fork(), "post", "a successful decode consumes all of its data", spec.groupOr("RDECN", "C05"), Eq(n, Blen(b.c)), pos)
		h := ev.hpost
		x.oblige(s.fork(), "post", "the slice is one element longer after a successful decode", props, Eq(s.heap, hset(h, "d", Store(hpart(h, "d"), a8, Add(cnt, C64(1))))), pos)
	}, func(s *State) {
		x.oblige(s.fork(), "post", "a failed decode adds no element", props, Eq(x.sel(s.heap, "d", a8), cnt), pos)
	})
}

func (x *Exec) mapRuntime(st *State, name string, args []Val, pos string, k K) bool {
	t := func(i int) *Term {
		if v, ok := x.asTerm(st, args[i]); ok {
			return v
		}
		x.fail(pos, "%s: argument %d is %T", name, i, args[i])
		return nil
	}
	switch name {
	case "rr.mapiterinit":
		T := x.typeOfPtr(args[0], pos)
		a, ok := args[2].(AddrV)
		if !ok {
			x.fail(pos, "iterator %T", args[2])
		}
		x.isMapType(st, T, pos)
		m := t(1)
		it := IterV{m: m, h: st.heap, mt: T, pos: C64(0)}
		n, ok := setPath(st.objs[a.obj], pathElems(a.path), it)
		if !ok {
			x.fail(pos, "iterator at %v", a)
		}
		mn := spec.apply("mapn", S64, []*Term{m, st.heap})
		st.assume(Sle(C64(0), mn), Slt(mn, maxLen), Imp(Eq(m, C64(0)), Eq(mn, C64(0))))
		st.objs[a.obj] = n
		k(st, nil)
		return true
	case "rr.mapiternext":
		a, ok := args[0].(AddrV)
		if !ok {
			x.fail(pos, "iterator %T", args[0])
		}
		it, rest, ok := iterAt(st.objs[a.obj], pathElems(a.path))
		if !ok || len(rest) > 0 {
			x.fail(pos, "iterator at %v", a)
		}
		if it.dead {
			k(st, nil)
			return true
		}
		n := spec.apply("mapn", S64, []*Term{it.m, it.h})
		x.branch(st, Slt(it.pos, n), func(s *State) {
			it.pos = Add(it.pos, C64(1))
			s.objs[a.obj], _ = setPath(s.objs[a.obj], pathElems(a.path), it)
			k(s, nil)
		}, func(s *State) { k(s, nil) })
		return true
	case "rr.makemap":
		T := x.typeOfPtr(args[0], pos)
		x.isMapType(st, T, pos)
		if x.noWrite {
			x.oblige(st, "safety", "the message is not written while encoding", spec.groupOr("RDONLY", "C18"), tFalse, pos)
		}
		m := UF("newmap", S64, T, st.heap)
		st.heap = UF("hnewmap", SHeap, T, st.heap)
		st.events = append(st.events, Event{kind: "makemap", a: []*Term{T, m}, pos: pos})
		k(st, m)
		return true
	case "rr.mapassign":
		T := x.typeOfPtr(args[0], pos)
		m, key := t(1), t(2)
		x.nonNil(st, key, pos)
		x.safe(st, "no assignment to a nil map", Ne(m, C64(0)), pos)
		if x.noWrite {
			x.oblige(st, "safety", "the message is not written while encoding", spec.groupOr("RDONLY", "C18"), tFalse, pos)
		}
		pre := st.heap
		v := UF("mapslot", S64, m, key, pre)
		st.assume(Ne(v, C64(0)))
		st.heap = UF("hmapset", SHeap, T, m, key, pre)
		st.events = append(st.events, Event{kind: "mapassign", a: []*Term{T, m, key, v}, hpre: pre, hpost: st.heap, pos: pos})
		k(st, v)
		return true
	}
	return false
}

func (x *Exec) isMapType(st *State, T *Term, pos string) {
	x.safe(st, "the type is a map's", Eq(tkindOf(T), C64(21)), pos)
}
