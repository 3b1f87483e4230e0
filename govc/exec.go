package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation: one proof obligation of a function (all its paths together).
type Obligation struct {
	Fn      string   `json:"fn"`
	Name    string   `json:"name"`
	Kind    string   `json:"kind"` // post | safety | pre | loop | cover | lemma
	Props   []string `json:"props"`
	Paths   int      `json:"paths"`
	OK      bool     `json:"ok"`
	Labels  []string `json:"labels,omitempty"`
	Backend string   `json:"backend"`
	Ms      int64    `json:"ms"`
	Detail  string   `json:"detail,omitempty"`
	Pos     string   `json:"pos,omitempty"`
}

type Exec struct {
	p                  *Prover
	name               string
	con                *Contract
	safety             []string
	role               string // size | encode | decode | ""
	initObjs           map[int]Val
	nobj               int
	inRoots            map[*Term]bool
	obs                map[string]*Obligation
	order              []string
	dry                int
	steps              int
	unroll             int // >0: unroll loops this many times instead of finding invariants
	peel               int
	returned           int
	depth              int
	stack              []*ssa.Function
	loopTpl            []*Sx
	env                Env
	h0                 *Term
	noWrite            bool // size/encode: message memory is read-only
	captured           map[int]bool
	objType            map[int]types.Type
	memo               map[string]bool
	deadline           time.Time
	trace              bool
	retHook            func(st *State, rets []Val)
	onCall             func(st *State, fn *ssa.Function, args []Val) // observation hook
	refs               map[string]int                                // ref constant -> local object
	usedExt            map[string]bool
	usedCon            map[string]bool
	inlined            map[string]bool
	midWalk, rangeLoop bool
	covers             int
	allowNoReturn      bool
	prefix             string          // names the nested check obligations belong to
	inRole             bool            // inside a codec function built by a constructor
	sep                map[*Term]bool  // addresses that element decodes do not touch
	rw                 map[*Term]*Term // layouts equated by preconditions
	pre                func(*State, Env)
	keepKOF            bool
	structofs          []*Term // struct types built by reflection
	structSt           map[*Term]*State
	entries            map[[2]*Term]bool
	poolLay            map[int]*Term // what the elements of a pool are
	gen                bool          // code of the generator
	outObj             int           // ghost: text of the generated file
	outG               *Term         // the file
}

func newExec(name string, s *Solver) *Exec {
	x := &Exec{p: &Prover{s: s, limit: 4000, used: map[string]int{}}, name: name, initObjs: map[int]Val{}, inRoots: map[*Term]bool{}, obs: map[string]*Obligation{}, captured: map[int]bool{}, objType: map[int]types.Type{}, refs: map[string]int{}, usedExt: map[string]bool{}, usedCon: map[string]bool{}, inlined: map[string]bool{}, h0: Var("H0", SHeap)}
	x.env = Env{}
	x.deadline = time.Now().Add(300 * time.Second)
	return x
}

func (x *Exec) newObj() int { x.nobj++; return x.nobj }

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferred
	loops  []*loopCtx
	binds  []Val
	k      func(st *State, rets []Val)
}
type deferred struct {
	call *ssa.CallCommon
	args []Val
	fnv  Val
}
type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	onBack func(fr *Frame, st *State, vals []Val)
	onExit func() bool // true: cut the path
	count  int
}

func (f *Frame) fork() *Frame {
	n := &Frame{fn: f.fn, k: f.k, binds: f.binds}
	n.regs = make(map[ssa.Value]Val, len(f.regs)+8)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return n
}

func posOf(in interface{ Pos() token.Pos }) string {
	p := in.Pos()
	if p == token.NoPos {
		return ""
	}
	ps := P.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) fail(pos, f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...), pos})
}

// oblige records and proves an obligation, then assumes it.
func (x *Exec) oblige(st *State, kind, name string, props []string, goal *Term, pos string) bool {
	if x.dry > 0 {
		st.assume(stripAll(goal))
		return true
	}
	if goal == tTrue && kind == "safety" {
		// discharged by simplification; still counted once
	}
	name = x.prefix + name
	key := kind + "|" + name
	if kind == "safety" || kind == "pre" {
		key += "|" + pos
	}
	o := x.obs[key]
	if o == nil {
		o = &Obligation{Fn: x.name, Name: name, Kind: kind, Props: props, OK: true, Pos: pos}
		x.obs[key] = o
		x.order = append(x.order, key)
	}
	o.Paths++
	t0 := time.Now()
	x.p.steps = 0
	x.p.used = map[string]int{}
	if time.Now().After(x.deadline) {
		x.fail(pos, "task time limit")
	}
	f := x.p.prove(st.pc, goal)
	o.Ms += time.Since(t0).Milliseconds()
	for b := range x.p.used {
		if !strings.Contains(o.Backend, b) {
			if o.Backend != "" {
				o.Backend += "+"
			}
			o.Backend += b
		}
	}
	if f != nil {
		if o.OK {
			o.OK = false
			o.Labels = f.labels
			var hyp []string
			for _, c := range f.pc {
				hyp = append(hyp, "    "+clip(c.String(), 400))
			}
			o.Detail = fmt.Sprintf("goal: %s\n  solver: %s\n  model: %s\n  path:\n%s", clip(f.goal.String(), 1500), f.res, clip(f.model, 1500), strings.Join(hyp, "\n"))
			o.Pos = pos
			for _, l := range f.labels {
				if ps, ok := spec.labels[l]; ok {
					o.Props = append(append([]string{}, o.Props...), ps...)
				}
			}
		}
	}
	st.assume(stripAll(goal))
	return f == nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func stripAll(t *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op == "lab" {
			return rec(t.args[0])
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
		}
		r := rebuild(t, args)
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func (x *Exec) safe(st *State, name string, goal *Term, pos string) {
	x.oblige(st, "safety", name, x.safety, goal, pos)
}

func (x *Exec) feasible(st *State) bool {
	return x.p.sat(st.pc) != Unsat
}

// ---- evaluation of operands
func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return x.globalAddr(c)
	case *ssa.Function:
		return c
	case *ssa.Builtin:
		return c
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.binds[i]
			}
		}
	}
	if r, ok := fr.regs[v]; ok {
		return r
	}
	x.fail(posOf(v), "no value for %s", v.Name())
	return nil
}
func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	a := x.val(fr, st, v)
	if t, ok := x.asTerm(st, a); ok {
		return t
	}
	x.fail(posOf(v), "value of %s (%s) is not a term: %T", v.Name(), v.Type(), a)
	return nil
}

// asTerm views a value as a plain term where that makes sense.
func (x *Exec) asTerm(st *State, a Val) (*Term, bool) {
	switch v := a.(type) {
	case *Term:
		return v, true
	case AddrV:
		if v.path == "" {
			return x.refOf(v.obj), true
		}
		return x.addrTerm(v), true
	case nil:
		return C64(0), true
	}
	return nil, false
}

// refOf is the reference constant of a local object.
func (x *Exec) refOf(obj int) *Term {
	n := fmt.Sprintf("obj%d", obj)
	x.refs[n] = obj
	return Var(n, S64)
}
func (x *Exec) addrTerm(a AddrV) *Term {
	return Var(fmt.Sprintf("obj%d%s", a.obj, a.path), S64)
}

func floatConst(c constant.Value, s Sort) *Term {
	f, _ := constant.Float64Val(c)
	if s == S32 {
		g, _ := constant.Float32Val(c)
		return BV(S32, uint64(f32bits(g)))
	}
	return C64(f64bits(f))
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if isBool(t) {
		return B(constant.BoolVal(c.Value))
	}
	if isString(t) {
		return StrC(constant.StringVal(c.Value))
	}
	if s, _, ok := intWidth(t); ok {
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return BV(s, uint64(v))
		}
		if v, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return BV(s, v)
		}
	}
	if s, ok := isFloat(t); ok {
		return floatConst(c.Value, s)
	}
	x.fail("", "constant %s", c)
	return nil
}

func isCodecPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && internalName(p.Elem()) == "codec"
}

func (x *Exec) globalAddr(g *ssa.Global) Val {
	if isCodecPtr(g.Type()) {
		return codecGlobal(g)
	}
	return GlobalV{g, ""}
}
func codecGlobal(g *ssa.Global) *Term { return UF("cg."+g.Name(), S64) }

func (x *Exec) cont(st *State, b BytesV) *Term {
	if b.obj > 0 {
		c := st.objs[b.obj].(BufC).c
		return Bsl(c, b.lo, b.hi)
	}
	return b.c
}
func (x *Exec) blenOf(st *State, b BytesV) *Term {
	if b.obj > 0 {
		return Sub(b.hi, b.lo)
	}
	return Blen(b.c)
}

// ---- running a function
func (x *Exec) callFn(fn *ssa.Function, binds []Val, args []Val, st *State, k func(st *State, rets []Val)) {
	if len(fn.Blocks) == 0 {
		x.fail(fn.Name(), "no body: %s", fnName(fn))
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 1 || len(x.stack) > 14 {
		x.fail(fn.Name(), "recursion without a contract: %s", fnName(fn))
	}
	x.stack = append(x.stack, fn)
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, binds: binds}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	saved := append([]*ssa.Function{}, x.stack...)
	fr.k = func(st *State, rets []Val) {
		cur := x.stack
		x.stack = saved[:len(saved)-1]
		k(st, rets)
		x.stack = cur
	}
	x.block(fr, st, fn.Blocks[0], nil)
	x.stack = x.stack[:len(x.stack)-1]
}

func (x *Exec) block(fr *Frame, st *State, b, pred *ssa.BasicBlock) {
	x.steps++
	if x.steps > 60000 || time.Now().After(x.deadline) {
		x.fail("", "execution limit in %s", fnName(fr.fn))
	}
	// leaving loops
	for len(fr.loops) > 0 && !fr.loops[len(fr.loops)-1].blocks[b] {
		l := fr.loops[len(fr.loops)-1]
		if l.onExit != nil && l.onExit() {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	vals := x.phiVals(fr, st, b, pred)
	if pred != nil {
		if ls := loopsOf(fr.fn); ls[b] != nil {
			if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == b {
				vals = x.settleAll(st, vals, posOf(b.Instrs[0]))
				fr.loops[len(fr.loops)-1].onBack(fr, st, vals)
				return
			}
			vals = x.settleAll(st, vals, posOf(b.Instrs[0]))
			x.enterLoop(fr, st, b, ls[b], vals)
			return
		}
	}
	x.setPhis(fr, b, vals)
	x.instrs(fr, st, b, x.nphi(b))
}

func (x *Exec) nphi(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	return n
}
func (x *Exec) phiVals(fr *Frame, st *State, b, pred *ssa.BasicBlock) []Val {
	var vals []Val
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == pred {
				vals = append(vals, x.val(fr, st, ph.Edges[i]))
				break
			}
		}
	}
	return vals
}
func (x *Exec) setPhis(fr *Frame, b *ssa.BasicBlock, vals []Val) {
	for i, v := range vals {
		fr.regs[b.Instrs[i].(*ssa.Phi)] = v
	}
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// loopsOf finds natural loops: header -> body blocks.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if m[s] == nil {
					m[s] = map[*ssa.BasicBlock]bool{s: true}
				}
				var add func(x *ssa.BasicBlock)
				add = func(y *ssa.BasicBlock) {
					if m[s][y] {
						return
					}
					m[s][y] = true
					for _, p := range y.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	loopCache[fn] = m
	return m
}

func (x *Exec) branch(st *State, c *Term, then, els func(st *State)) {
	c = stripAll(c)
	if c == tTrue {
		then(st)
		return
	}
	if c == tFalse {
		els(st)
		return
	}
	switch known(st.pc, c) {
	case 1:
		then(st)
		return
	case -1:
		els(st)
		return
	}
	s1 := st.fork()
	s1.assume(c)
	ok1 := x.feasible(s1)
	if !ok1 {
		st.assume(Not(c))
		els(st)
		return
	}
	s2 := st.fork()
	s2.assume(Not(c))
	if !x.feasible(s2) {
		then(s1)
		return
	}
	then(s1)
	els(s2)
}

func (x *Exec) instrs(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c := x.term(fr, st, in.Cond)
			x.branch(st, c, func(s *State) { x.block(fr.fork(), s, b.Succs[0], b) },
				func(s *State) { x.block(fr.fork(), s, b.Succs[1], b) })
			return
		case *ssa.Jump:
			x.block(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			for _, l := range fr.loops { // returning leaves every loop
				if l.onExit != nil && l.onExit() {
					return
				}
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			x.doPanic(fr, st, x.val(fr, st, in.X), posOf(in))
			return
		case *ssa.Call:
			idx := i
			x.call(fr, st, in.Common(), posOf(in), func(s *State, v Val) {
				f2 := fr.fork()
				f2.regs[in] = v
				x.instrs(f2, s, b, idx+1)
			})
			return
		case *ssa.Defer:
			d := deferred{call: in.Common()}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(fr, st, a))
			}
			if !in.Call.IsInvoke() {
				d.fnv = x.val(fr, st, in.Call.Value)
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			idx := i
			ds := fr.defers
			fr.defers = nil
			var run func(s *State, j int)
			run = func(s *State, j int) {
				if j < 0 {
					x.instrs(fr.fork(), s, b, idx+1)
					return
				}
				x.callVal(s, ds[j].fnv, ds[j].args, ds[j].call, posOf(in), func(s *State, v Val) { run(s, j-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.TypeAssert:
			idx := i
			x.typeAssert(fr, st, in, func(s *State, v Val) {
				f2 := fr.fork()
				f2.regs[in] = v
				x.instrs(f2, s, b, idx+1)
			})
			return
		case *ssa.Lookup:
			idx := i
			x.lookup(fr, st, in, func(s *State, v Val) {
				f2 := fr.fork()
				f2.regs[in] = v
				x.instrs(f2, s, b, idx+1)
			})
			return
		case *ssa.UnOp:
			if in.Op == token.MUL {
				idx := i
				done := false
				x.load(st, x.val(fr, st, in.X), in.Type(), posOf(in), func(s *State, v Val) {
					if s == st && !done {
						done = true
						fr.regs[in] = v
						return
					}
					f2 := fr.fork()
					f2.regs[in] = v
					x.instrs(f2, s, b, idx+1)
				})
				if !done {
					return
				}
				continue
			}
			fr.regs[in] = x.unop(fr, st, in)
		default:
			x.instr(fr, st, in)
		}
	}
}

func (x *Exec) doPanic(fr *Frame, st *State, v Val, pos string) {
	if x.con != nil && x.con.flags["maypanic"] {
		if x.con.panics != nil {
			x.safe(st, "panics only when documented", spec.eval(x.con.panics, x.env), pos)
		}
		return
	}
	x.safe(st, "no panic", tFalse, pos)
}

func (x *Exec) instr(fr *Frame, st *State, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		id := x.newObj()
		et := in.Type().Underlying().(*types.Pointer).Elem()
		st.objs[id] = x.zero(et)
		x.objType[id] = et
		fr.regs[in] = AddrV{id, ""}
	case *ssa.BinOp:
		fr.regs[in] = x.binop(fr, st, in)
	case *ssa.ChangeType:
		fr.regs[in] = x.val(fr, st, in.X)
	case *ssa.ChangeInterface:
		fr.regs[in] = x.val(fr, st, in.X)
	case *ssa.Convert:
		fr.regs[in] = x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type(), posOf(in))
	case *ssa.MultiConvert:
		fr.regs[in] = x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type(), posOf(in))
	case *ssa.Extract:
		t, ok := x.val(fr, st, in.Tuple).(TupleV)
		if !ok {
			x.fail(posOf(in), "extract of %T", x.val(fr, st, in.Tuple))
		}
		fr.regs[in] = t[in.Index]
	case *ssa.FieldAddr:
		fr.regs[in] = x.fieldAddr(st, x.val(fr, st, in.X), in.X.Type(), in.Field, posOf(in))
	case *ssa.Field:
		s, ok := x.val(fr, st, in.X).(StructV)
		if !ok {
			x.fail(posOf(in), "field of %T", x.val(fr, st, in.X))
		}
		fr.regs[in] = s.f[in.Field]
	case *ssa.IndexAddr:
		fr.regs[in] = x.indexAddr(fr, st, in)
	case *ssa.Index:
		a := x.val(fr, st, in.X)
		i := x.idx(fr, st, in.Index)
		switch s := a.(type) {
		case *Term: // string
			x.safe(st, "index in range", Ult(i, Blen(s)), posOf(in))
			fr.regs[in] = Bidx(s, i)
		case StructV:
			x.safe(st, "index in range", Ult(i, C64(uint64(len(s.f)))), posOf(in))
			if !i.isC() {
				x.fail(posOf(in), "symbolic array index")
			}
			fr.regs[in] = s.f[i.v]
		default:
			x.fail(posOf(in), "index of %T", a)
		}
	case *ssa.Slice:
		fr.regs[in] = x.slice(fr, st, in)
	case *ssa.MakeSlice:
		fr.regs[in] = x.makeSlice(fr, st, in)
	case *ssa.MakeClosure:
		c := ClosV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(fr, st, b))
		}
		fr.regs[in] = c
	case *ssa.MakeInterface:
		fr.regs[in] = x.makeIface(st, x.val(fr, st, in.X), in.X.Type(), in.Type(), posOf(in))
	case *ssa.MakeMap:
		u := in.Type().Underlying().(*types.Map)
		fr.regs[in] = x.makeMap(st, u)
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(fr, st, in.Map), x.val(fr, st, in.Key), x.val(fr, st, in.Value), in.Map.Type(), posOf(in))
	case *ssa.Store:
		x.store(st, x.val(fr, st, in.Addr), x.val(fr, st, in.Val), in.Val.Type(), posOf(in))
	case *ssa.Range:
		fr.regs[in] = RangeV{x.val(fr, st, in.X)}
	case *ssa.Next:
		fr.regs[in] = x.next(fr, st, in)
	default:
		x.fail(posOf(instr), "instruction %T", instr)
	}
}

func (x *Exec) idx(fr *Frame, st *State, v ssa.Value) *Term {
	t := x.term(fr, st, v)
	if t.s == S64 {
		return t
	}
	_, sg, _ := intWidth(v.Type())
	if sg {
		return Sext(t, S64)
	}
	return Zext(t, S64)
}

func (x *Exec) fieldAddr(st *State, a Val, pt types.Type, f int, pos string) Val {
	et := pt.Underlying().(*types.Pointer).Elem()
	u := et.Underlying().(*types.Struct)
	switch v := a.(type) {
	case AddrV:
		return AddrV{v.obj, fmt.Sprintf("%s.%d", v.path, f)}
	case GlobalV:
		return GlobalV{v.g, fmt.Sprintf("%s.%d", v.path, f)}
	case *Term:
		n := internalName(et)
		if n != "" && n != "Option" && n != "iface" && !isLayoutStruct(et) {
			if id, ok := x.refs[v.str]; ok && v.op == "var" {
				return AddrV{id, fmt.Sprintf(".%d", f)}
			}
			return FieldRef{v, n, u, f}
		}
		if libName(et) != "" {
			return x.libField(v, et, f)
		}
		off := x.fieldOffset(u, f)
		return Add(v, C64(uint64(off)))
	case LibRef:
		return LibRef{v.own, v.key + "." + u.Field(f).Name(), v.mut}
	case FieldRef:
		// nested struct by value in an internal object
		x.fail(pos, "nested field of %s", v.typ)
	}
	x.fail(pos, "field address of %T", a)
	return nil
}

// layout structs describe raw memory: only machine words.
func isLayoutStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	switch n.Obj().Name() {
	case "structField", "codec", "structInfo", "walkerConfig", "walker", "mapField", "structTag", "UnmarshalFieldError", "InvalidUnmarshalError":
		return false
	}
	return true
}

func (x *Exec) fieldOffset(u *types.Struct, f int) int64 {
	var fs []*types.Var
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, u.Field(i))
	}
	return P.sizes.Offsetsof(fs)[f]
}

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) Val {
	a := x.val(fr, st, in.X)
	i := x.idx(fr, st, in.Index)
	pos := posOf(in)
	switch s := a.(type) {
	case BytesV:
		x.safe(st, "index in range", Ult(i, x.blenOf(st, s)), pos)
		return ElemRef{s, i}
	case SeqV:
		x.safe(st, "index in range", Ult(i, s.n), pos)
		return ElemRef{s, i}
	case ListV:
		x.safe(st, "index in range", Ult(i, s.n()), pos)
		return ElemRef{s, i}
	case AddrV: // pointer to array
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if ok {
			x.safe(st, "index in range", Ult(i, C64(uint64(at.Len()))), pos)
			if bf, ok := st.objs[s.obj].(BufC); ok && s.path == "" {
				_ = bf
				return ElemRef{BytesV{nl: tFalse, obj: s.obj, lo: C64(0), hi: C64(uint64(at.Len())), prov: "fresh"}, i}
			}
			if i.isC() {
				return AddrV{s.obj, fmt.Sprintf("%s.%d", s.path, i.v)}
			}
		}
		x.fail(pos, "symbolic array index")
	}
	x.fail(pos, "index address of %T", a)
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	a := x.val(fr, st, in.X)
	pos := posOf(in)
	lo := C64(0)
	if in.Low != nil {
		lo = x.idx(fr, st, in.Low)
	}
	var hi *Term
	if in.High != nil {
		hi = x.idx(fr, st, in.High)
	}
	if in.Max != nil {
		x.idx(fr, st, in.Max)
	}
	chk := func(n *Term) {
		x.safe(st, "slice bounds", And(Ule(lo, hi), Ule(hi, n)), pos)
	}
	switch s := a.(type) {
	case BytesV:
		n := x.blenOf(st, s)
		if hi == nil {
			hi = n
		}
		chk(n)
		if s.obj > 0 {
			return BytesV{nl: s.nl, obj: s.obj, lo: Add(s.lo, lo), hi: Add(s.lo, hi), prov: s.prov}
		}
		nl := s.nl
		var c *Term
		if hi.isC() && hi.v == 0 && lo.isC() {
			c = eps
		} else {
			c = Bsl(s.c, lo, hi)
		}
		return BytesV{nl: nl, c: c, prov: s.prov}
	case *Term:
		if isString(in.X.Type()) {
			if hi == nil {
				hi = Blen(s)
			}
			chk(Blen(s))
			return Bsl(s, lo, hi)
		}
	case SeqV:
		if hi == nil {
			hi = s.n
		}
		chk(s.n)
		if lo.isC() && lo.v == 0 {
			return SeqV{s.obj, hi}
		}
		if lo.isC() && s.obj > 0 {
			c := st.objs[s.obj].(SeqC)
			if c.kind == "split" {
				id := x.newObj()
				c.off += int(lo.v)
				st.objs[id] = c
				return SeqV{id, Sub(hi, lo)}
			}
			if c.kind == "items" && int(lo.v) <= len(c.items) {
				id := x.newObj()
				st.objs[id] = SeqC{kind: "items", items: c.items[lo.v:], elem: c.elem}
				return SeqV{id, Sub(hi, lo)}
			}
		}
	case ListV:
		n := s.n()
		if hi == nil {
			hi = n
		}
		chk(n)
		if lo.isC() && lo.v == 0 && hi == n {
			return s
		}
	case AddrV: // array
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if ok {
			n := C64(uint64(at.Len()))
			if hi == nil {
				hi = n
			}
			chk(n)
			o := st.objs[s.obj]
			if bf, ok := o.(BufC); ok && s.path == "" {
				_ = bf
				return BytesV{nl: tFalse, obj: s.obj, lo: lo, hi: hi, prov: "fresh"}
			}
			arr, ok := getPath(o, pathElems(s.path))
			if sv, ok2 := arr.(StructV); ok && ok2 && lo.isC() && hi.isC() {
				if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					// the array becomes a byte buffer
					var u []*Term
					for _, f := range sv.f {
						u = append(u, Unit(f.(*Term)))
					}
					if s.path == "" {
						st.objs[s.obj] = BufC{Cat(u...)}
						return BytesV{nl: tFalse, obj: s.obj, lo: lo, hi: hi, prov: "fresh"}
					}
				}
				id := x.newObj()
				st.objs[id] = SeqC{kind: "items", items: append([]Val{}, sv.f[lo.v:hi.v]...), elem: at.Elem()}
				return SeqV{id, Sub(hi, lo)}
			}
			if sv, ok2 := arr.(StructV); ok && ok2 && s.path == "" {
				if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					var u []*Term
					for _, f := range sv.f {
						u = append(u, Unit(f.(*Term)))
					}
					st.objs[s.obj] = BufC{Cat(u...)}
					return BytesV{nl: tFalse, obj: s.obj, lo: lo, hi: hi, prov: "fresh"}
				}
			}
		}
	}
	x.fail(pos, "slice of %T", a)
	return nil
}

func getPath(v Val, path []int) (Val, bool) {
	for _, p := range path {
		s, ok := v.(StructV)
		if !ok || p >= len(s.f) {
			return nil, false
		}
		v = s.f[p]
	}
	return v, true
}

func (x *Exec) makeSlice(fr *Frame, st *State, in *ssa.MakeSlice) Val {
	n := x.idx(fr, st, in.Len)
	c := x.idx(fr, st, in.Cap)
	pos := posOf(in)
	x.safe(st, "make: size in range", And(Ule(n, c), Ult(c, C64(1<<48))), pos)
	if isByteSlice(in.Type()) {
		if n.isC() && n.v == 0 {
			return BytesV{nl: tFalse, c: eps, prov: "fresh"}
		}
		id := x.newObj()
		st.objs[id] = BufC{zeros(n)}
		return BytesV{nl: tFalse, obj: id, lo: C64(0), hi: n, prov: "fresh"}
	}
	if isFieldList(in.Type()) && n.isC() && n.v == 0 {
		return ListV{l: lnil()}
	}
	id := x.newObj()
	el := in.Type().Underlying().(*types.Slice).Elem()
	if n.isC() && n.v <= 16 {
		var items []Val
		for i := uint64(0); i < n.v; i++ {
			items = append(items, x.zero(el))
		}
		st.objs[id] = SeqC{kind: "items", items: items, elem: el}
	} else {
		st.objs[id] = SeqC{kind: "blank", elem: el}
	}
	return SeqV{id, n}
}

func zeros(n *Term) *Term {
	if n.isC() && n.v <= 64 {
		var u []*Term
		for i := uint64(0); i < n.v; i++ {
			u = append(u, Unit(BV(S8, 0)))
		}
		return Cat(u...)
	}
	return UF("zeros", SBytes, n)
}

// ---- arithmetic
func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Val {
	t := x.term(fr, st, in.X)
	switch in.Op {
	case token.NOT:
		return Not(t)
	case token.SUB:
		if s, ok := isFloat(in.X.Type()); ok {
			return BvXor(t, BV(s, 1<<uint(width(s)-1)))
		}
		return Neg(t)
	case token.XOR:
		return BvNot(t)
	}
	x.fail(posOf(in), "unary %s", in.Op)
	return nil
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	pos := posOf(in)
	t := in.X.Type()
	if in.Op == token.EQL || in.Op == token.NEQ {
		e := x.equal(st, a, b, in.X.Type(), in.Y.Type(), pos)
		if in.Op == token.NEQ {
			return Not(e)
		}
		return e
	}
	ta, ok1 := x.asTerm(st, a)
	tb, ok2 := x.asTerm(st, b)
	if !ok1 || !ok2 {
		x.fail(pos, "operands %T %s %T", a, in.Op, b)
	}
	if isString(t) {
		switch in.Op {
		case token.ADD:
			return Cat(ta, tb)
		}
		x.fail(pos, "string operator %s", in.Op)
	}
	if s, ok := isFloat(t); ok {
		n := fmt.Sprintf("fp.%s.%d", in.Op, width(s))
		switch in.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return UF(n, SBool, ta, tb)
		}
		return UF(n, s, ta, tb)
	}
	s, signed, ok := intWidth(t)
	if !ok {
		if isBool(t) {
			switch in.Op {
			case token.AND, token.LAND:
				return And(ta, tb)
			case token.OR, token.LOR:
				return Or(ta, tb)
			}
		}
		x.fail(pos, "operator %s on %s", in.Op, t)
	}
	w := width(s)
	switch in.Op {
	case token.ADD:
		return Add(ta, tb)
	case token.SUB:
		return Sub(ta, tb)
	case token.MUL:
		return Mul(ta, tb)
	case token.AND:
		return BvAnd(ta, tb)
	case token.OR:
		return BvOr(ta, tb)
	case token.XOR:
		return BvXor(ta, tb)
	case token.AND_NOT:
		return BvAnd(ta, BvNot(tb))
	case token.QUO, token.REM:
		x.safe(st, "division by zero", Ne(tb, BV(s, 0)), pos)
		op := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][in.Op]
		if tb.isC() && tb.v != 0 && tb.v&(tb.v-1) == 0 && !signed {
			sh := uint64(0)
			for 1<<sh != tb.v {
				sh++
			}
			if in.Op == token.QUO {
				return Lshr(ta, BV(s, sh))
			}
			return BvAnd(ta, BV(s, tb.v-1))
		}
		return bin(op, ta, tb)
	case token.SHL, token.SHR:
		_, sg2, _ := intWidth(in.Y.Type())
		if sg2 {
			x.safe(st, "shift amount", Sle(BV(tb.s, 0), tb), pos)
		}
		wb := width(tb.s)
		var amt *Term
		if wb > w {
			amt = Ite(Ult(tb, BV(tb.s, uint64(w))), Trunc(tb, s), BV(s, uint64(w)))
		} else {
			amt = Zext(tb, s)
		}
		if in.Op == token.SHL {
			return Shl(ta, amt)
		}
		if signed {
			return Ashr(ta, amt)
		}
		return Lshr(ta, amt)
	case token.LSS:
		if signed {
			return Slt(ta, tb)
		}
		return Ult(ta, tb)
	case token.LEQ:
		if signed {
			return Sle(ta, tb)
		}
		return Ule(ta, tb)
	case token.GTR:
		if signed {
			return Slt(tb, ta)
		}
		return Ult(tb, ta)
	case token.GEQ:
		if signed {
			return Sle(tb, ta)
		}
		return Ule(tb, ta)
	}
	x.fail(pos, "operator %s", in.Op)
	return nil
}

func isNilV(v Val) bool {
	switch a := v.(type) {
	case nil:
		return true
	case IfaceV:
		return a.nilv
	case SeqV:
		return a.obj == -1
	case LibRef:
		return false
	case MapV:
		return a.kind == "nil"
	}
	return false
}

func (x *Exec) equal(st *State, a, b Val, t, t2 types.Type, pos string) *Term {
	if s, ok := isFloat(t); ok {
		ta, tb := a.(*Term), b.(*Term)
		m := BV(s, mask(width(s))>>1)
		if ta.isC() {
			ta, tb = tb, ta
		}
		if tb.isC() && BvAnd(tb, m).v == 0 { // comparison with zero: both signs
			return Eq(BvAnd(ta, m), BV(s, 0))
		}
		return UF(fmt.Sprintf("fp.eq.%d", width(s)), SBool, ta, tb)
	}
	if isNilV(a) && isNilV(b) {
		return tTrue
	}
	if isNilV(a) {
		a, b = b, a
	}
	switch v := a.(type) {
	case BytesV:
		// only against nil
		if w, ok := b.(BytesV); ok && w.nl == tTrue {
			return v.nl
		}
		if v.nl == tTrue {
			return b.(BytesV).nl
		}
	case SeqV:
		if isNilV(b) {
			return B(v.obj == -1)
		}
	case MapV:
		if isNilV(b) {
			return B(v.kind == "nil")
		}
	case IfaceV:
		if isNilV(b) {
			if v.nilv {
				return tTrue
			}
			if v.sym != nil {
				return x.ifaceNil(v)
			}
			return tFalse
		}
	case ClosV, *ssa.Function:
		if b == nil {
			return tFalse
		}
	case FnSym:
		if b == nil {
			return tFalse
		}
	}
	ta, ok1 := x.asTerm(st, a)
	tb, ok2 := x.asTerm(st, b)
	if av, ok := a.(AddrV); ok {
		if bt, ok := b.(*Term); ok && bt.isC() && bt.v == 0 {
			return tFalse
		}
		if bv, ok := b.(AddrV); ok {
			return B(av == bv)
		}
	}
	if bv, ok := b.(AddrV); ok {
		if at, ok := a.(*Term); ok && at.isC() && at.v == 0 {
			return tFalse
		}
		_ = bv
	}
	if _, ok := a.(GlobalV); ok {
		if bt, ok := b.(*Term); ok && bt.isC() && bt.v == 0 {
			return tFalse
		}
	}
	if ok1 && ok2 && ta.s == tb.s {
		if ta.s == SType {
			x.gtcFacts(st, ta, tb)
			x.gtcFacts(st, tb, ta)
		}
		return Eq(ta, tb)
	}
	if sa, ok := a.(StructV); ok {
		if sb, ok := b.(StructV); ok && len(sa.f) == len(sb.f) {
			u, ok := sa.t.Underlying().(*types.Struct)
			var cs []*Term
			for i := range sa.f {
				ft := t
				if ok {
					ft = u.Field(i).Type()
				}
				cs = append(cs, x.equal(st, sa.f[i], sb.f[i], ft, ft, pos))
			}
			return And(cs...)
		}
	}
	x.fail(pos, "comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos string) Val {
	if t, ok := v.(*Term); ok {
		fs, fsg, fok := intWidth(from)
		ts, _, tok := intWidth(to)
		if fok && tok {
			if width(ts) < width(fs) {
				return Trunc(t, ts)
			}
			if fsg {
				return Sext(t, ts)
			}
			return Zext(t, ts)
		}
		ff, fIsF := isFloat(from)
		tf, tIsF := isFloat(to)
		if fIsF && tIsF {
			if ff == tf {
				return t
			}
			if ff == S32 {
				return UF("f32to64", S64, t)
			}
			return UF("f64to32", S32, t)
		}
		if fIsF && tok || fok && tIsF {
			s, _ := termSort(to)
			return UF(fmt.Sprintf("fpconv.%s.%s", from, to), s, t)
		}
		if isString(from) && isString(to) {
			return t
		}
		if isString(from) && isByteSlice(to) {
			return BytesV{nl: tFalse, c: t, prov: "fresh"}
		}
		if isString(to) && fok {
			return UF("runestr", SBytes, t)
		}
		return t // pointers, uintptr
	}
	if b, ok := v.(BytesV); ok && isString(to) {
		return x.cont(st, b)
	}
	return v // pointer-shaped values keep their structure
}

func (x *Exec) checkPos() {}

var debugTrace = os.Getenv("GOVC_TRACE") != ""

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
