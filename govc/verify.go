package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type TaskResult struct {
	Task     string        `json:"task"`
	Fn       string        `json:"fn"`
	Obs      []*Obligation `json:"obs"`
	Err      string        `json:"err,omitempty"` // unsupported construct or tool limit
	ErrPos   string        `json:"errpos,omitempty"`
	Missing  bool          `json:"missing,omitempty"`
	Props    []string      `json:"props"`
	Ext      []string      `json:"ext,omitempty"`
	Con      []string      `json:"con,omitempty"`
	Inl      []string      `json:"inl,omitempty"`
	Returns  int           `json:"returns"`
	Mode     string        `json:"mode,omitempty"`
	Ms       int64         `json:"ms"`
	Kind     string        `json:"kind,omitempty"`
	Queries  int64         `json:"queries"`
	SolverMs int64         `json:"solverms"`
}

// guarded runs one attempt; unsupported constructs come back as an error text.
func guarded(x *Exec, f func()) (err string, pos string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err, pos = e.msg, e.pos
				if err == "" {
					err = "unsupported"
				}
			case toolErr:
				err = "tool: " + e.msg
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				err = fmt.Sprintf("tool: internal: %v", r)
			}
		}
	}()
	f()
	return "", ""
}

func (x *Exec) result(r *TaskResult) {
	r.Obs = nil
	for _, k := range x.order {
		r.Obs = append(r.Obs, x.obs[k])
	}
	r.Ext, r.Con, r.Inl = sortedKeys(x.usedExt), sortedKeys(x.usedCon), sortedKeys(x.inlined)
	r.Returns = x.returned
}

func obsOK(r *TaskResult) bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obs {
		if !o.OK {
			return false
		}
	}
	return true
}

// attempt runs a verification body under the available loop strategies and
// keeps the first that discharges everything, else the first result.
func attempt(name string, solver *Solver, hasLoop bool, body func(x *Exec)) *TaskResult {
	var first *TaskResult
	modes := []string{""}
	if con := spec.fns[name]; hasLoop && (con == nil || !con.flags["invonly"]) {
		modes = append(modes, "peel3", "unroll12")
	}
	for _, m := range modes {
		freshN = 0
		x := newExec(name, solver)
		switch m {
		case "peel3":
			x.peel = 3
		case "unroll12":
			x.unroll = 12
		}
		r := &TaskResult{Fn: name, Mode: m}
		if con := spec.fns[name]; con != nil && con.isGen() {
			x.gen = true
		} else {
			x.obs["frame"] = &Obligation{Fn: name, Name: "no package variable and no published descriptor is written or read while mutable", Kind: "frame", Props: spec.groupOr("SHARED", "C13"), OK: true, Paths: 1}
			x.order = append(x.order, "frame")
		}
		e, p := guarded(x, func() { body(x) })
		x.result(r)
		r.Err, r.ErrPos = e, p
		if e == "" && x.returned == 0 && !x.allowNoReturn {
			r.Err = "vacuous: no path returns"
		}
		if obsOK(r) {
			return r
		}
		if first == nil || first.Err != "" && r.Err == "" {
			first = r
		}
	}
	return first
}

func hasLoops(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || !inRepo(fn) {
		return false
	}
	seen[fn] = true
	if len(fn.Blocks) > 0 && len(loopsOf(fn)) > 0 {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && hasLoops(m.Fn.(*ssa.Function), seen) {
				return true
			}
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && spec.fns[fnName(f)] == nil && hasLoops(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// inSlice is an arbitrary window of an arbitrary input.
func (x *Exec) inSlice(st *State, hint string) BytesV {
	R := Fresh(hint, SBytes)
	lo, hi := Fresh(hint+".lo", S64), Fresh(hint+".hi", S64)
	x.inRoots[R] = true
	st.assume(Sle(C64(0), lo), Sle(lo, hi), Slt(hi, maxLen))
	nl := Fresh(hint+".nil", SBool)
	st.assume(Imp(nl, Eq(lo, hi)))
	return BytesV{nl: nl, c: mk("bsl", SBytes, 0, "", nil, R, lo, hi), prov: "in:" + hint}
}

func (x *Exec) outSlice(st *State, hint string) BytesV {
	nl := Fresh(hint+".nil", SBool)
	c := Fresh(hint, SBytes)
	st.assume(Imp(nl, Eq(Blen(c), C64(0))))
	return BytesV{nl: nl, c: c, prov: "out:" + hint}
}

// allProps is every property a contract speaks about.
func (c *Contract) allProps() []string {
	r := propsUnion(c.props, c.safety)
	for _, cl := range c.clauses {
		r = propsUnion(r, cl.props)
	}
	if c.codec != nil || c.info != nil {
		for _, g := range []string{"RSIZE", "RENC", "RDEC"} {
			r = propsUnion(r, spec.groupOr(g))
			r = propsUnion(r, spec.groupOr(g+"SAFE"))
		}
		for n, ps := range spec.groups {
			if strings.HasPrefix(n, "RSIZE.") || strings.HasPrefix(n, "RENC.") || strings.HasPrefix(n, "RDEC.") {
				r = propsUnion(r, ps)
			}
		}
		r = propsUnion(r, spec.groupOr("KIND", "C12"))
		r = propsUnion(r, spec.groupOr("RDECN", "C05"))
	}
	if c.isGen() {
		return r
	}
	return propsUnion(r, frameProps())
}

// isGen: a function of the generator.
func (c *Contract) isGen() bool {
	n := strings.TrimPrefix(c.name, "(")
	return strings.HasPrefix(strings.TrimPrefix(n, "*"), "gen.")
}

// frameProps: the properties every function's frame conditions speak about.
func frameProps() []string {
	return propsUnion(propsUnion(spec.groupOr("SHARED", "C13"), spec.groupOr("ALIAS", "C19")), spec.groupOr("RDONLY", "C18"))
}

// verifyFn checks a function against its contract.
func verifyFn(con *Contract, solver *Solver) *TaskResult {
	fn := P.fns[con.name]
	if fn == nil || len(fn.Blocks) == 0 {
		return &TaskResult{Fn: con.name, Missing: true, Props: con.allProps()}
	}
	hidden = map[string]bool{}
	for _, h := range con.hide {
		hidden[h] = true
	}
	defer func() { hidden = map[string]bool{} }()
	ckRW = map[*Term]*Term{}
	r := attempt(con.name, solver, hasLoops(fn, map[*ssa.Function]bool{}), func(x *Exec) {
		ckRW = map[*Term]*Term{}
		x.con = con
		x.safety = con.safety
		if len(x.safety) == 0 {
			x.safety = con.props
		}
		for _, l := range con.loops {
			x.loopTpl = append(x.loopTpl, l.list[1:]...)
		}
		st := &State{heap: x.h0, objs: map[int]Val{}, frozen: map[int]string{}, sealed: map[int][2]*Term{}}
		var args []Val
		for _, p := range fn.Params {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && internalName(pt.Elem()) == "walker" {
				x.midWalk = true
			}
		}
		for i, p := range fn.Params {
			n := p.Name()
			if i < len(con.params) {
				n = con.params[i]
			}
			var v Val
			switch {
			case isByteSlice(p.Type()) && con.flags["input"]:
				v = x.inSlice(st, n)
			case isByteSlice(p.Type()):
				v = x.outSlice(st, n)
			default:
				v = x.sym(p.Type(), n)
			}
			args = append(args, v)
		}
		for id, o := range x.initObjs {
			st.objs[id] = o
		}
		if con.isGen() {
			x.genSetup(st, fn, args)
		}
		e := x.contractEnv(st, con, fn, args)
		x.env = e
		for _, cl := range con.clauses {
			if cl.kind == "requires" {
				g := stripAll(spec.eval(cl.body, e))
				st.assume(g)
				ckFacts(g)
				if g.op == "=" && cl.name == "layout" {
					if x.rw == nil {
						x.rw = map[*Term]*Term{}
					}
					a, b := g.args[0], g.args[1]
					if a.isUF("tlay") {
						x.rw[a] = b
					} else if b.isUF("tlay") {
						x.rw[b] = a
					}
				}
			}
		}
		x.cover(st, "precondition is satisfiable", con.allProps())
		h0 := st.heap
		x.callFn(fn, nil, args, st, func(s *State, rets []Val) {
			x.returned++
			x.checkContract(s, con, fn, e, h0, rets)
		})
	})
	r.Props = con.allProps()
	return r
}

func (x *Exec) cover(st *State, name string, props []string) {
	ok := x.p.sat(st.pc) != Unsat
	g := tTrue
	if !ok {
		g = tFalse
	}
	key := "cover|" + name
	x.obs[key] = &Obligation{Fn: x.name, Name: name, Kind: "cover", Props: props, OK: g == tTrue, Paths: 1}
	x.order = append(x.order, key)
}

func (x *Exec) checkContract(st *State, con *Contract, fn *ssa.Function, e0 Env, h0 *Term, rets []Val) {
	e := make(Env, len(e0)+8)
	for k, v := range e0 {
		e[k] = v
	}
	pos := posOf(fn)
	for i, r := range rets {
		x.bindArg(e, st, fmt.Sprintf("r%d", i), r)
	}
	e["H1"] = st.heap
	if x.gen {
		e["OUT1"] = x.outText(st)
		want := e["OUT"]
		got := e["OUT1"]
		if con.out != nil && con.out.atom == "_" {
			if hasPrefix(got, want) {
				got = want
			} else {
				got = Bsl(got, C64(0), Blen(want))
			}
		} else if con.out != nil {
			want = spec.eval(con.out, e)
		}
		goal := Eq(got, want)
		if len(con.outs) > 1 {
			goal = tFalse
			for _, o := range con.outs {
				goal = Or(goal, Eq(got, spec.eval(o, e)))
			}
		}
		x.oblige(st.fork(), "post", "text of the generated file", con.props, goal, pos)
	}
	for i, d := range con.rets {
		if d.atom == "_" || i >= len(rets) {
			continue
		}
		want := spec.eval(d, e)
		t := e[fmt.Sprintf("r%d", i)]
		if t == nil {
			x.fail(pos, "result %d is %T", i, rets[i])
		}
		x.oblige(st.fork(), "post", fmt.Sprintf("result %d", i), con.props, Eq(t, want), pos)
	}
	if con.flags["appends"] {
		x.outProv(st, rets, pos)
	}
	if con.flags["private"] {
		for i, r := range rets {
			if b, ok := r.(BytesV); ok {
				x.oblige(st.fork(), "post", fmt.Sprintf("the bytes of result %d are private", i), spec.groupOr("RDONLY", "C18"), Or(Eq(Blen(x.cont(st, b)), C64(0)), B(b.prov == "fresh")), pos)
			}
		}
	}
	if con.okheap != nil {
		s := st.fork()
		s.assume(stripAll(Eq(rets[len(rets)-1].(*Term), eNil)))
		x.oblige(s, "post", "message memory after success", con.props, Eq(s.heap, spec.eval(con.okheap, e)), pos)
	} else if con.heap == nil {
		if !con.flags["anyheap"] && !x.gen {
			x.oblige(st.fork(), "post", "message memory is unchanged", spec.groupOr("RDONLY", "C18"), Eq(st.heap, h0), pos)
		}
	} else if con.heap.atom != "_" {
		x.oblige(st.fork(), "post", "message memory", con.props, Eq(st.heap, spec.eval(con.heap, e)), pos)
	}
	if con.codec != nil || con.info != nil {
		x.checkProduced(st.fork(), con, e, rets[0], pos)
	}
	for _, cl := range con.clauses {
		if cl.kind == "ensures" {
			x.oblige(st.fork(), "post", cl.name, cl.props, spec.eval(cl.body, e), pos)
		}
	}
}

// outProv: bytes handed out are the caller's buffer or fresh memory.
func (x *Exec) outProv(st *State, rets []Val, pos string) {
	for _, r := range rets {
		if b, ok := r.(BytesV); ok {
			x.oblige(st, "post", "the returned bytes are private", spec.groupOr("RDONLY", "C18"), B(b.prov == "fresh" || b.prov == "" || strings.HasPrefix(b.prov, "out")), pos)
		}
	}
}

var roleProps = map[string]string{"size": "RSIZE", "encode": "RENC", "decode": "RDEC"}

// verifyRole checks a codec function of the given role against kind K.
// pre may add assumptions (for closures: facts about captured variables).
func verifyRole(name string, fn *ssa.Function, role string, K *Term, solver *Solver, pre func(x *Exec, st *State) []Val) *TaskResult {
	r := attempt(name, solver, hasLoops(fn, map[*ssa.Function]bool{}), func(x *Exec) {
		x.role = role
		props := spec.groupOr(roleProps[role])
		x.safety = spec.groupOr(roleProps[role]+"SAFE", props...)
		st := &State{heap: x.h0, objs: map[int]Val{}, frozen: map[int]string{}, sealed: map[int][2]*Term{}}
		var binds []Val
		if pre != nil {
			binds = pre(x, st)
		}
		x.runRole(st, fn, role, K, binds, props)
	})
	r.Props = propsUnion(spec.groupOr(roleProps[role]), frameProps())
	r.Kind = K.String()
	return r
}

func (x *Exec) runRole(st *State, fn *ssa.Function, role string, K *Term, binds []Val, props []string) {
	pos := posOf(fn)
	p := Var("p", S64)
	f := Var("f", S64)
	wt := UF("f.wt", S64, f)
	st.assume(Ne(p, C64(0)), Ne(f, C64(0)), Ult(p, C64(1<<56)))
	h0 := st.heap
	for id, o := range x.initObjs {
		if _, ok := st.objs[id]; !ok {
			st.objs[id] = o
		}
	}
	x.env["H"], x.env["p"], x.env["f"], x.env["wt"] = h0, p, wt, wt
	x.env["K"] = K
	if x.pre != nil {
		if role == "decode" {
			// bound below
		} else {
			x.pre(st, x.env)
		}
	}
	switch role {
	case "size":
		x.noWrite = true
		want := Blen(spec.apply("KENC", SBytes, []*Term{K, p, wt, h0}))
		x.cover(st, "precondition is satisfiable", props)
		x.callFn(fn, binds, []Val{p, f}, st, func(s *State, rets []Val) {
			x.returned++
			x.oblige(s.fork(), "post", "size is the length of the encoding", props, Eq(rets[0].(*Term), want), pos)
			x.oblige(s.fork(), "post", "message memory is unchanged", spec.groupOr("RDONLY", "C18"), Eq(s.heap, h0), pos)
		})
	case "encode":
		x.noWrite = true
		b := x.outSlice(st, "b")
		x.env["b"] = b.c
		want := Cat(b.c, spec.apply("KENC", SBytes, []*Term{K, p, wt, h0}))
		x.cover(st, "precondition is satisfiable", props)
		x.callFn(fn, binds, []Val{b, p, f}, st, func(s *State, rets []Val) {
			x.returned++
			x.oblige(s.fork(), "post", "appends exactly the specified encoding", props, Eq(x.cont(s, rets[0].(BytesV)), want), pos)
			x.oblige(s.fork(), "post", "message memory is unchanged", spec.groupOr("RDONLY", "C18"), Eq(s.heap, h0), pos)
			x.outProv(s.fork(), rets, pos)
		})
	case "decode":
		b := x.inSlice(st, "b")
		x.env["b"] = b.c
		st.assume(stripAll(spec.evalCall("FRAMED", K, b.c)))
		if x.pre != nil {
			x.pre(st, x.env)
		}
		rel := x.relDecode(K)
		x.cover(st, "precondition is satisfiable", props)
		err := spec.apply("KDe", SErr, []*Term{K, b.c})
		x.callFn(fn, binds, []Val{b, p}, st, func(s *State, rets []Val) {
			x.returned++
			n, e := rets[0].(*Term), rets[1].(*Term)
			x.oblige(s.fork(), "post", "consumption stays within the data", spec.groupOr("RDECN", "C05"), And(Sle(C64(0), n), Sle(n, Blen(b.c))), pos)
			if rel != nil {
				rel(s, b, p, h0, n, e, pos)
				return
			}
			x.oblige(s.fork(), "post", "the error is the specified one", spec.groupOr("RDECE", props...), Eq(e, err), pos)
			s2 := s.fork()
			s2.assume(stripAll(Eq(e, eNil)))
			if x.feasible(s2) {
				x.oblige(s2.fork(), "post", "a successful decode consumes all of its data", spec.groupOr("RDECN", "C05"), Eq(n, Blen(b.c)), pos)
				if x.retHook != nil {
					x.retHook(s2, rets)
				} else {
					x.oblige(s2.fork(), "post", "stores exactly the specified value", props, Eq(s2.heap, spec.apply("KDH", SHeap, []*Term{K, b.c, p, h0})), pos)
				}
			} else if x.retHook != nil {
				x.retHook(s, rets)
			}
		})
	}
}

// ---- codec variables
type codecVar struct {
	g   *ssa.Global
	fns map[string]*ssa.Function // role -> function
}

func codecVars() []codecVar {
	var out []codecVar
	for _, m := range P.proto.Members {
		g, ok := m.(*ssa.Global)
		if !ok || !isCodecPtr(g.Type()) {
			continue
		}
		cv := codecVar{g, map[string]*ssa.Function{}}
		st := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for path, v := range P.ginit[g] {
			f, ok := v.(*ssa.Function)
			if !ok {
				continue
			}
			i := pathElems(path)
			if len(i) == 1 {
				if r := roleOf(st.Field(i[0]).Type()); r != "" {
					cv.fns[r] = f
				}
			}
		}
		out = append(out, cv)
	}
	sortCV(out)
	return out
}
func sortCV(cs []codecVar) {
	for i := range cs {
		for j := i + 1; j < len(cs); j++ {
			if cs[j].g.Name() < cs[i].g.Name() {
				cs[i], cs[j] = cs[j], cs[i]
			}
		}
	}
}

var scalarSids = []uint64{0, 1, 2, 3, 5, 6, 7, 8, 11, 12}

func kSc(sid, fam uint64) *Term { return Ctor(SKind, "KSc", BV(S8, sid), BV(S8, fam)) }

// hintKind guesses the kind from the variable's name; only an ordering of the
// kinds to try.
func hintKind(n string) *Term {
	l := strings.ToLower(n)
	fam := uint64(0)
	if strings.Contains(l, "option") {
		fam = 2
	} else if strings.Contains(l, "required") {
		fam = 1
	}
	for _, h := range []struct {
		s   string
		sid uint64
	}{{"bool", 0}, {"zigzag32", 5}, {"zigzag64", 6}, {"fixed32", 7}, {"fixed64", 8}, {"float32", 7}, {"float64", 8}, {"uint32", 3}, {"uint64", 2}, {"int32", 1}, {"int64", 2}, {"string", 11}, {"bytes", 12}} {
		if strings.Contains(l, h.s) {
			return kSc(h.sid, fam)
		}
	}
	return nil
}

var codecKinds = map[string]*Term{}

// codecKind is the kind a codec variable is checked against: the one its name
// suggests, or (after a renaming) the first one all of its functions satisfy.
func codecKind(cv codecVar, s *Solver) *Term {
	if k := hintKind(cv.g.Name()); k != nil {
		return k
	}
	var best *Term
	for _, sid := range scalarSids {
		for fam := uint64(0); fam < 3; fam++ {
			k := kSc(sid, fam)
			ok := true
			for _, role := range []string{"size", "encode", "decode"} {
				if f := cv.fns[role]; f == nil || !obsOK(verifyRole(fnName(f), f, role, k, s, nil)) {
					ok = false
					break
				}
			}
			if ok {
				return k
			}
			if best == nil {
				best = k
			}
		}
	}
	return best
}
