package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops. Invariants are found by the Houdini scheme: candidates come from the
// templates of the contract and from simple facts mined from the loop; those
// that do not hold on entry or are not preserved are dropped until the rest is
// inductive. Only inductive candidates are ever assumed.

type loopState struct {
	vals []Val // phis
	st   *State
	regs map[ssa.Value]Val
}

// cand is a candidate invariant over the leaves of a loop state.
type cand struct {
	name string
	f    func(m map[string]*Term) *Term // nil result: not applicable
}

func (x *Exec) loopLeaves(keys []string, vals []Val, st *State, objs []int, heap bool) []leaf {
	var out []leaf
	for i, v := range vals {
		x.leaves(keys[i], v, &out)
	}
	for _, id := range objs {
		x.leaves(fmt.Sprintf("o%d", id), st.objs[id], &out)
	}
	if heap {
		out = append(out, leaf{"heap", st.heap, "heap"})
	}
	return out
}
func leafMap(ls []leaf) map[string]*Term {
	m := map[string]*Term{}
	for _, l := range ls {
		m[l.key] = l.t
	}
	return m
}

func (x *Exec) enterLoop(fr *Frame, st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals []Val) {
	if x.gen && x.smallBound(fr, h) {
		x.unrollLoop(fr, st, h, body, vals, 17)
		return
	}
	if x.unroll > 0 {
		x.unrollLoop(fr, st, h, body, vals, x.unroll)
		return
	}
	if x.peel > 0 {
		x.peelLoop(fr, st, h, body, vals, x.peel)
		return
	}
	x.invLoop(fr, st, h, body, vals)
}

// unrollLoop executes up to n iterations and requires that no more are possible.
func (x *Exec) unrollLoop(fr *Frame, st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals []Val, n int) {
	f := fr.fork()
	lc := &loopCtx{header: h, blocks: body}
	count := 0
	lc.onBack = nil
	var mkBack func(c int) func(fr *Frame, st *State, vals []Val)
	mkBack = func(c int) func(fr *Frame, st *State, vals []Val) {
		return func(fr *Frame, st *State, vals []Val) {
			if c >= n {
				x.safe(st, "loop unrolling is complete", tFalse, posOf(h.Instrs[len(h.Instrs)-1]))
				return
			}
			f2 := fr.fork()
			f2.loops = append(f2.loops[:len(f2.loops)-1:len(f2.loops)-1], &loopCtx{header: h, blocks: body, onBack: mkBack(c + 1)})
			x.setPhis(f2, h, vals)
			x.instrs(f2, st, h, x.nphi(h))
		}
	}
	_ = count
	lc.onBack = mkBack(1)
	f.loops = append(f.loops, lc)
	x.setPhis(f, h, vals)
	x.instrs(f, st, h, x.nphi(h))
}

// peelLoop executes the first n iterations one by one and the rest by invariant.
func (x *Exec) peelLoop(fr *Frame, st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals []Val, n int) {
	f := fr.fork()
	var mkBack func(c int) func(fr *Frame, st *State, vals []Val)
	mkBack = func(c int) func(fr *Frame, st *State, vals []Val) {
		return func(fr *Frame, st *State, vals []Val) {
			f2 := fr.fork()
			f2.loops = f2.loops[: len(f2.loops)-1 : len(f2.loops)-1]
			if c >= n {
				x.invLoop(f2, st, h, body, vals)
				return
			}
			f2.loops = append(f2.loops, &loopCtx{header: h, blocks: body, onBack: mkBack(c + 1)})
			x.setPhis(f2, h, vals)
			x.instrs(f2, st, h, x.nphi(h))
		}
	}
	f.loops = append(f.loops, &loopCtx{header: h, blocks: body, onBack: mkBack(1)})
	x.setPhis(f, h, vals)
	x.instrs(f, st, h, x.nphi(h))
}

func (x *Exec) invLoop(fr *Frame, st0 *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals []Val) {
	var keys []string
	used := map[string]int{}
	for i := range vals {
		c := h.Instrs[i].(*ssa.Phi).Comment
		if c == "" {
			c = "phi"
		}
		used[c]++
		if used[c] > 1 {
			c = fmt.Sprintf("%s%d", c, used[c])
		}
		keys = append(keys, c)
	}
	pos := ""
	for _, in := range h.Instrs {
		if p := posOf(in); p != "" {
			pos = p
			break
		}
	}
	// descriptor lists are carried as lists
	for i, v := range vals {
		if _, isSeq := v.(SeqV); isSeq && isFieldList(h.Instrs[i].(*ssa.Phi).Type()) {
			if l, ok := x.asList(st0, v); ok {
				vals = append([]Val{}, vals...)
				vals[i] = l
			}
		}
	}
	// lists of strings in the generator: only their length is carried
	if x.gen {
		for i, v := range vals {
			ty := h.Instrs[i].(*ssa.Phi).Type()
			if sq, ok := v.(SeqV); ok && !isByteSlice(ty) {
				if c, ok := st0.objs[sq.obj].(SeqC); sq.obj == -1 || ok && c.kind == "items" {
					vals = append([]Val{}, vals...)
					vals[i] = BagV{sq.n}
				}
			}
		}
	}
	// run executes the body once from the given state; back edges are collected.
	run := func(fr *Frame, st *State, vals []Val, onBack func(fr *Frame, st *State, vals []Val), cut bool) {
		f := fr.fork()
		lc := &loopCtx{header: h, blocks: body, onBack: onBack}
		if cut {
			lc.onExit = func() bool { return true }
		}
		f.loops = append(f.loops, lc)
		x.setPhis(f, h, vals)
		x.instrs(f, st, h, x.nphi(h))
	}
	modObjs := map[int]bool{}
	modHeap := false
	objList := func() []int {
		var r []int
		for id := range modObjs {
			r = append(r, id)
		}
		sort.Ints(r)
		return r
	}
	havocVal := make([]bool, len(vals))
	mkHavoc := func() (*State, []Val) {
		s := st0.fork()
		var hv []Val
		for i, v := range vals {
			if havocVal[i] {
				hv = append(hv, x.havoc(keys[i], v))
			} else {
				hv = append(hv, v)
			}
		}
		for _, id := range objList() {
			if x.gen && id == x.outObj { // text is only added
				s.objs[id] = BufC{Cat(x.outText(st0), Fresh("printed", SBytes))}
				continue
			}
			s.objs[id] = x.havoc(fmt.Sprintf("o%d", id), s.objs[id])
		}
		if modHeap {
			s.heap = Fresh("h.heap", SHeap)
		}
		x.rangeFacts(s, hv)
		return s, hv
	}
	nev := len(st0.events)
	// 1. what does the body modify?
	stable := false
	for iter := 0; iter < 8 && !stable; iter++ {
		stable = true
		s, hv := mkHavoc()
		base := s.fork()
		x.dry++
		run(fr, s, hv, func(f2 *Frame, s2 *State, nv []Val) {
			for i := range nv {
				if !havocVal[i] && !eqVal(nv[i], vals[i]) {
					havocVal[i] = true
					stable = false
				}
			}
			for id, o := range base.objs {
				if !modObjs[id] && !eqVal(o, s2.objs[id]) {
					modObjs[id] = true
					stable = false
				}
			}
			if !modHeap && s2.heap != base.heap {
				modHeap = true
				stable = false
			}
		}, true)
		x.dry--
	}
	if !stable {
		x.fail(pos, "loop in %s: modified state not found", fnName(fr.fn))
	}
	objs := objList()
	init := x.loopLeaves(keys, vals, st0, objs, modHeap)
	im := leafMap(init)

	// 2. candidates
	cands := x.candidates(fr, st0, h, body, init)
	var alive []cand
	for _, c := range cands {
		g := c.f(im)
		if g == nil {
			continue
		}
		x.p.steps = 0
		if g == tTrue || x.quick(st0.pc, g) {
			alive = append(alive, c)
		}
	}
	type delta struct {
		d  map[string]int64
		ok map[string]bool
	}
	assumeAll := func(s *State, m map[string]*Term) {
		for _, c := range alive {
			if g := c.f(m); g != nil {
				s.assume(stripAll(g))
			}
		}
	}
	linDone := false
	for round := 0; round < 24; round++ {
		s, hv := mkHavoc()
		ls := x.loopLeaves(keys, hv, s, objs, modHeap)
		m := leafMap(ls)
		assumeAll(s, m)
		drop := map[int]bool{}
		deltas := map[string]int64{}
		bad := map[string]bool{}
		first := true
		x.dry++
		run(fr, s, hv, func(f2 *Frame, s2 *State, nv []Val) {
			m2 := leafMap(x.loopLeaves(keys, nv, s2, objs, modHeap))
			for i, c := range alive {
				if drop[i] {
					continue
				}
				g := c.f(m2)
				if g == nil {
					drop[i] = true
					continue
				}
				if g == tTrue {
					continue
				}
				x.p.steps = 0
				if !x.quick(s2.pc, g) {
					if debugTrace {
						fmt.Printf("      drop %s: %s\n", c.name, clip(g.String(), 200))
					}
					if d := os.Getenv("GOVC_DROP"); d != "" && strings.Contains(c.name, d) {
						x.p.steps = 0
						f := x.p.prove(s2.pc, g)
						if f == nil {
							fmt.Println("      (provable with more effort)")
						} else {
							fmt.Printf("      why: %s %s\n model %s\n", f.goal, f.res, clip(f.model, 800))
							for _, c := range f.pc {
								fmt.Println("        ", clip(c.String(), 300))
							}
						}
					}
					drop[i] = true
				}
			}
			for k, t := range m {
				if t.s != S64 {
					continue
				}
				d := Sub(m2[k], t)
				if !d.isC() || !first && deltas[k] != int64(d.v) {
					bad[k] = true
					continue
				}
				deltas[k] = int64(d.v)
			}
			first = false
		}, true)
		x.dry--
		if !linDone {
			linDone = true
			// linear relations between leaves that advance in lock step
			var ks []string
			for k, d := range deltas {
				if !bad[k] && d != 0 {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			var extra []cand
			for i := 0; i < len(ks); i++ {
				for j := i + 1; j < len(ks); j++ {
					a, b := ks[i], ks[j]
					da, db := uint64(deltas[a]), uint64(deltas[b])
					ia, ib := im[a], im[b]
					extra = append(extra, cand{"lin " + a + "~" + b, func(m map[string]*Term) *Term {
						if m[a] == nil || m[b] == nil {
							return nil
						}
						return Eq(Mul(Sub(m[a], ia), C64(db)), Mul(Sub(m[b], ib), C64(da)))
					}})
					if da == db {
						continue
					}
					// without overflow: the smaller step bounds the other
					if da%db == 0 {
						q := da / db
						extra = append(extra, cand{"lin2", func(m map[string]*Term) *Term { return Eq(Sub(m[a], ia), Mul(Sub(m[b], ib), C64(q))) }})
					} else if db%da == 0 {
						q := db / da
						extra = append(extra, cand{"lin2", func(m map[string]*Term) *Term { return Eq(Sub(m[b], ib), Mul(Sub(m[a], ia), C64(q))) }})
					}
				}
			}
			if len(extra) > 0 {
				var keep []cand
				for i, c := range alive {
					if !drop[i] {
						keep = append(keep, c)
					}
				}
				// a second chance for those that may need the new facts
				for i, c := range alive {
					if drop[i] {
						keep = append(keep, c)
					}
				}
				alive = append(keep, extra...)
				continue
			}
		}
		if len(drop) == 0 {
			break
		}
		var keep []cand
		for i, c := range alive {
			if !drop[i] {
				keep = append(keep, c)
			}
		}
		alive = keep
	}
	if debugTrace {
		for _, c := range alive {
			fmt.Printf("   inv %s: %s\n", fnName(fr.fn), c.name)
		}
	}

	// 3. the real pass
	s, hv := mkHavoc()
	ls := x.loopLeaves(keys, hv, s, objs, modHeap)
	m := leafMap(ls)
	assumeAll(s, m)
	if x.dry == 0 {
		x.oblige(st0.fork(), "loop", "loop invariant is inductive", x.safety, tTrue, pos)
	}
	s.events = append(s.events[:nev:nev], Event{kind: "loop"})
	hobjs := map[int]Val{}
	for _, id := range objs {
		hobjs[id] = s.objs[id]
	}
	type backEdge struct{ m map[string]*Term }
	measured := false
	run(fr, s, hv, func(f2 *Frame, s2 *State, nv []Val) {
		if x.dry > 0 {
			return
		}
		for i := range nv {
			if !x.carries(hv[i], nv[i]) {
				x.fail(pos, "loop in %s: %s carried over from %T to %T", fnName(fr.fn), keys[i], hv[i], nv[i])
			}
		}
		if x.gen && x.outObj != 0 && !hasPrefix(x.outText(s2), x.outText(st0)) {
			x.fail(pos, "loop in %s: text of the generated file is not only added", fnName(fr.fn))
		}
		for _, id := range objs {
			if !x.carries(hobjs[id], s2.objs[id]) {
				x.fail(pos, "loop in %s: an object carried over from %T to %T", fnName(fr.fn), hobjs[id], s2.objs[id])
			}
		}
		m2 := leafMap(x.loopLeaves(keys, nv, s2, objs, modHeap))
		x.rangeLoop = rangesOver(h, body)
		if x.progress(st0, s2, m, m2, ls, alive) {
			measured = true
			x.oblige(s2, "loop", "loop makes progress", x.safety, tTrue, pos)
			return
		}
		x.oblige(s2, "loop", "loop makes progress", x.safety, tFalse, pos)
	}, false)
	_ = measured
}

// carries: the value v is an instance of the value h assumed at the loop head.
func (x *Exec) carries(h, v Val) bool {
	switch a := h.(type) {
	case *Term:
		b, ok := v.(*Term)
		return ok && (a == b || a.s == b.s && a.op == "var")
	case BufC:
		_, ok := v.(BufC)
		return ok
	case BytesV:
		b, ok := v.(BytesV)
		if !ok || a.obj != b.obj {
			return false
		}
		if a.obj > 0 || a == b {
			return true
		}
		if x.isInput(a) {
			if !x.isInput(b) {
				return false
			}
			ra, _, _ := extent(a.c)
			rb, _, _ := extent(b.c)
			return ra == rb
		}
		return a.prov == b.prov && a.c.op == "var"
	case StructV:
		b, ok := v.(StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !x.carries(a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case IdxMap:
		b, ok := v.(IdxMap)
		return ok && a.owner == b.owner && len(a.pend) == 0
	case BagV:
		b, ok := v.(BagV)
		return ok && (a == b || a.n.op == "var")
	case ListV:
		_, ok := v.(ListV)
		return ok && len(a.pend) == 0
	case IterV:
		b, ok := v.(IterV)
		return ok && a.m == b.m && a.h == b.h && a.mt == b.mt && a.dead == b.dead
	case SeqC:
		b, ok := v.(SeqC)
		if ok && a.kind == "fields" {
			b.n = a.n
		}
		return ok && eqVal(a, b)
	case SeqV:
		b, ok := v.(SeqV)
		return ok && a == b
	}
	return eqVal(h, v) || reflect.DeepEqual(h, v)
}

// quick proves a candidate with a small budget.
func (x *Exec) quick(pc []*Term, g *Term) bool {
	old := x.p.limit
	x.p.limit = 600
	oq := x.p.s.quick
	x.p.s.quick = true
	defer func() { x.p.limit, x.p.s.quick = old, oq }()
	return x.p.prove(pc, g) == nil
}

// rangeFacts: lengths are below 2^48 and input windows are well formed only by
// invariant; here only what the machine guarantees.
func (x *Exec) rangeFacts(s *State, vs []Val) {}

// progress: some integer strictly increases below a bound that does not move
// (or decreases above one), as unsigned or signed numbers.
func (x *Exec) progress(st0, s2 *State, m, m2 map[string]*Term, ls []leaf, inv []cand) bool {
	for _, l := range ls {
		if l.t.s != S64 || l.typ == "len" {
			continue
		}
		a, b := m[l.key], m2[l.key]
		if a == b {
			continue
		}
		// increasing, bounded by an invariant upper bound: with lengths below
		// 2^48 it suffices that the new value is larger and stays below 2^62
		x.p.steps = 0
		if x.p.entails(s2.pc, And(Slt(a, b), Slt(b, C64(1<<62)))) {
			if x.bounded(inv, l.key, "<") {
				return true
			}
		}
		if x.p.entails(s2.pc, And(Slt(b, a), Slt(CI(-1<<62), b))) {
			if x.bounded(inv, l.key, ">") {
				return true
			}
		}
	}
	// iterators are finite
	if x.rangeLoop {
		return true
	}
	for _, l := range ls {
		if strings.HasSuffix(l.key, "#pos") {
			if x.p.entails(s2.pc, Slt(m[l.key], m2[l.key])) {
				return true
			}
		}
	}
	return false
}

// rangesOver: the loop ranges over a map that it does not change.
func rangesOver(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	var rg *ssa.Range
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			rg, _ = n.Iter.(*ssa.Range)
		}
	}
	if rg == nil || body[rg.Block()] {
		return false
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				return false
			case *ssa.Call:
				for _, a := range in.Call.Args {
					t := a.Type()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
						if internalName(t) == "walker" {
							return false
						}
					}
					if _, ok := t.Underlying().(*types.Map); ok {
						return false
					}
				}
			}
		}
	}
	return true
}

func (x *Exec) bounded(inv []cand, key, dir string) bool {
	for _, c := range inv {
		if strings.HasPrefix(c.name, "bound "+key+" "+dir) {
			return true
		}
	}
	return false
}

// candidates mines and instantiates candidate invariants.
func (x *Exec) candidates(fr *Frame, st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, init []leaf) []cand {
	var cs []cand
	add := func(n string, f func(m map[string]*Term) *Term) { cs = append(cs, cand{n, f}) }
	// bounds: loop-invariant integers the loop could compare against
	var bounds []*Term
	seen := map[*Term]bool{}
	addB := func(t *Term) {
		if t != nil && t.s == S64 && !seen[t] && len(bounds) < 12 {
			seen[t] = true
			bounds = append(bounds, t)
		}
	}
	addB(C64(0))
	dep := loopDep(h, body)
	for b := range body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !dep[bo.X] && !dep[bo.Y] {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				addB(x.invariantTerm(fr, st, o))
			}
		}
		for _, in := range b.Instrs { // lengths of slices defined outside the loop
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					addB(x.invariantTerm(fr, st, c))
				}
			}
		}
	}
	var regs []ssa.Value
	for r := range fr.regs {
		regs = append(regs, r)
	}
	sort.Slice(regs, func(i, j int) bool { return regs[i].Name() < regs[j].Name() })
	for _, r := range regs {
		v := fr.regs[r]
		if b, ok := v.(BytesV); ok && b.obj == 0 && x.isInput(b) {
			addB(Blen(b.c))
			_, _, hi := extent(b.c)
			addB(hi)
		}
		if s, ok := v.(SeqV); ok && s.n != nil {
			addB(s.n)
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
	consts := []int64{0, 1, 2, 3, 7, 63, 64, 70}
	if len(x.loopTpl) > 0 {
		consts = nil
	}
	for _, l := range init {
		l := l
		k := l.key
		if x.gen && x.outObj != 0 && strings.HasPrefix(k+"#", fmt.Sprintf("o%d#", x.outObj)) {
			continue // only templates say what is printed
		}
		if l.t.s == S64 {
			i0 := l.t
			add("bound "+k+" >= init", func(m map[string]*Term) *Term { return Sle(i0, m[k]) })
			add("bound "+k+" <= init", func(m map[string]*Term) *Term { return Sle(m[k], i0) })
			for _, b := range bounds {
				b := b
				add("bound "+k+" <= "+clip(b.String(), 40), func(m map[string]*Term) *Term { return Sle(m[k], b) })
				add("bound "+k+" < "+clip(b.String(), 40), func(m map[string]*Term) *Term { return Slt(m[k], b) })
				add("bound "+k+" >= "+clip(b.String(), 40), func(m map[string]*Term) *Term { return Sle(b, m[k]) })
			}
			for _, c := range consts {
				c := c
				add(fmt.Sprintf("const %s <= %d", k, c), func(m map[string]*Term) *Term { return Sle(m[k], CI(c)) })
			}
		}
		if l.typ != "bytes" || true {
			i0 := l.t
			add("same "+k, func(m map[string]*Term) *Term {
				if m[k].s != i0.s {
					return nil
				}
				return Eq(m[k], i0)
			})
		}
		if strings.HasSuffix(k, "#lo") {
			hk := strings.TrimSuffix(k, "#lo") + "#hi"
			add("window "+k, func(m map[string]*Term) *Term {
				if m[hk] == nil {
					return nil
				}
				return And(Sle(C64(0), m[k]), Sle(m[k], m[hk]))
			})
		}
	}
	// pairs of lengths and counters
	for _, l := range init {
		if l.typ != "len" && l.typ != "int" {
			continue
		}
		for _, r := range init {
			if r.key == l.key || r.t.s != S64 || l.t.s != S64 {
				continue
			}
			if l.typ == "len" && r.typ == "int" {
				a, b := l.key, r.key
				add("len "+a+"="+b, func(m map[string]*Term) *Term { return Eq(m[a], m[b]) })
			}
		}
	}
	x.idxCands(fr, st, init, add)
	// templates of the contract
	for _, tpl := range x.loopTpl {
		x.instTemplate(tpl, init, st.heap, add)
	}
	return cs
}

// loopDep: values computed by arithmetic from what the loop carries.
func loopDep(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) map[ssa.Value]bool {
	dep := map[ssa.Value]bool{}
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			dep[p] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for b := range body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				switch i := in.(type) {
				case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Slice:
				case *ssa.UnOp:
					// a variable kept in memory may be loop carried as well
				case *ssa.Call:
					if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
						continue
					}
				default:
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					switch u.X.(type) {
					case *ssa.Alloc, *ssa.FieldAddr, *ssa.FreeVar:
						dep[v] = true
						ch = true
					}
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o != nil && dep[*o] {
						dep[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
	return dep
}

// invariantTerm evaluates an operand that is defined outside the loop.
func (x *Exec) invariantTerm(fr *Frame, st *State, o ssa.Value) *Term {
	switch v := o.(type) {
	case *ssa.Const:
		if t, ok := x.constVal(v).(*Term); ok && t.s == S64 {
			return t
		}
		return nil
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if a := x.outerVal(fr, st, v.Call.Args[0], 0); a != nil {
				switch s := a.(type) {
				case BytesV:
					return x.blenOf(st, s)
				case SeqV:
					return s.n
				case ListV:
					return s.n()
				case *Term:
					if s.s == SBytes {
						return Blen(s)
					}
				}
			}
		}
		if t, ok := fr.regs[v]; ok {
			if tt, ok := t.(*Term); ok && tt.s == S64 {
				return tt
			}
		}
		return nil
	}
	if t, ok := x.outerVal(fr, st, o, 0).(*Term); ok && t.s == S64 {
		return t
	}
	return nil
}

// outerVal evaluates a value computed in a loop by reading fields of objects
// that are known before it; what it says is only a candidate.
func (x *Exec) outerVal(fr *Frame, st *State, o ssa.Value, depth int) (r Val) {
	if v, ok := fr.regs[o]; ok {
		return v
	}
	if depth > 4 {
		return nil
	}
	switch v := o.(type) {
	case *ssa.FieldAddr:
		switch a := x.outerVal(fr, st, v.X, depth+1).(type) {
		case AddrV:
			return AddrV{a.obj, fmt.Sprintf("%s.%d", a.path, v.Field)}
		case *Term:
			et := v.X.Type().Underlying().(*types.Pointer).Elem()
			if n := internalName(et); n != "" && !isLayoutStruct(et) {
				if id, ok := x.refs[a.str]; ok && a.op == "var" {
					return AddrV{id, fmt.Sprintf(".%d", v.Field)}
				}
				return FieldRef{a, n, et.Underlying().(*types.Struct), v.Field}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		switch a := x.outerVal(fr, st, v.X, depth+1).(type) {
		case AddrV:
			if ob, ok := st.objs[a.obj]; ok {
				if r, ok := getPath(ob, pathElems(a.path)); ok {
					return r
				}
			}
		case FieldRef:
			if a.typ == "structInfo" {
				if _, ok := v.Type().Underlying().(*types.Slice); ok {
					owner := infoType(a.base)
					return SeqV{x.fieldsObj(st, owner), UF("nf", S64, owner)}
				}
			}
		}
	}
	return nil
}

// instTemplate instantiates (inv body) where ?x:type stand for loop leaves.
func (x *Exec) instTemplate(tpl *Sx, init []leaf, heap *Term, add func(string, func(map[string]*Term) *Term)) {
	vars := map[string]string{}
	var order []string
	var scan func(s *Sx)
	scan = func(s *Sx) {
		if s.list == nil && strings.HasPrefix(s.atom, "?") {
			p := strings.SplitN(s.atom, ":", 2)
			ty := "int"
			if len(p) == 2 {
				ty = p[1]
			}
			if _, ok := vars[s.atom]; !ok {
				vars[s.atom] = ty
				order = append(order, s.atom)
			}
		}
		for _, y := range s.list {
			scan(y)
		}
	}
	scan(tpl)
	var rec func(i int, bind map[string]func(m map[string]*Term) *Term, name string)
	rec = func(i int, bind map[string]func(m map[string]*Term) *Term, name string) {
		if i == len(order) {
			b := map[string]func(m map[string]*Term) *Term{}
			for k, v := range bind {
				b[k] = v
			}
			env := x.env
			nm := "tpl " + tpl.String() + name
			if tpl.head() == "s<=" && len(order) == 1 && tpl.list[1].atom == order[0] && !strings.HasSuffix(name, "+1") {
				nm = "bound" + name + " <= " + tpl.list[2].String()
			}
			if tpl.head() == "s<=" && len(order) == 1 && tpl.list[2].atom == order[0] {
				nm = "bound" + strings.TrimSuffix(name, "+1") + " >= " + tpl.list[1].String()
			}
			add(nm, func(m map[string]*Term) *Term {
				e := make(Env, len(env)+len(b))
				for k, v := range env {
					e[k] = v
				}
				for k, f := range b {
					t := f(m)
					if t == nil {
						return nil
					}
					e[k] = t
				}
				t := spec.eval(tpl, e)
				if x.gen && t.op == "=" && t.args[0].s == SBytes { // without the common start
					a, b := atoms(t.args[0]), atoms(t.args[1])
					for len(a) > 1 && len(b) > 1 && a[0] == b[0] {
						a, b = a[1:], b[1:]
					}
					t = Eq(Cat(a...), Cat(b...))
				}
				return t
			})
			return
		}
		v := order[i]
		for _, l := range init {
			k := l.key
			ty := vars[v]
			if ty == "int" && l.typ == "int" && l.t.s == S64 {
				bind[v] = func(m map[string]*Term) *Term { return m[k] }
				rec(i+1, bind, name+" "+k)
				bind[v] = func(m map[string]*Term) *Term { return Add(m[k], C64(1)) }
				rec(i+1, bind, name+" "+k+"+1")
			} else if ty == "lo" && strings.HasSuffix(k, "#lo") {
				bind[v] = func(m map[string]*Term) *Term { return m[k] }
				rec(i+1, bind, name+" "+k)
			} else if ty == l.typ && ty != "int" {
				bind[v] = func(m map[string]*Term) *Term { return m[k] }
				rec(i+1, bind, name+" "+k)
			} else if ty == "w64" && l.t.s == S64 {
				bind[v] = func(m map[string]*Term) *Term { return m[k] }
				rec(i+1, bind, name+" "+k)
			}
		}
		if vars[v] == "heap" {
			found := false
			for _, l := range init {
				if l.typ == "heap" {
					found = true
				}
			}
			if !found {
				h := heap
				bind[v] = func(m map[string]*Term) *Term { return h }
				rec(i+1, bind, name+" heap0")
			}
		}
		delete(bind, v)
	}
	rec(0, map[string]func(m map[string]*Term) *Term{}, "")
}
