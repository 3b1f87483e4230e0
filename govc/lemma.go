package main

import "fmt"

// Lemmas: statements about the specification functions, proved like any other
// obligation. Clauses are read in order:
//
//	(props C04 ..) (vars (x Sort) ..) (let x e) (hyp e) (goal name e)
//	(measure e)             decreasing in uses of the lemma by itself
//	(use lemma e ..)        an instance of a lemma (hypotheses imply goals)
//	(unfold e)              an on-demand definition, once
//	(inst axiom (v e) ..)   an instance of an axiom
//	(as R lo B C)           the bytes B found at lo are the bytes C (B = C is an obligation)
//	(have name e)           an intermediate step
//	(pred k i)              i is k+1 from now on
//	(hide axiom ..)         axioms not needed
//	(rw a b)                a is b (an obligation) and is written so from now on
//	(rwdef a)               a is what its definition says and is written so from now on
//	(for v a b clause ..)   clauses for v = a .. b
//	(split (cond clause ..) ..)  a complete case distinction
//	(splitp ..)             as splitn, each case a task of its own
//	(splitn v (n ..) cond clause ..)  one case per n; cond (= x ..) rebinds x
type lemma struct {
	name    string
	props   []string
	vars    []string
	sorts   []Sort
	clauses []*Sx
	idx     int
	parts   int
}

func parseLemma(sp *Spec, x *Sx) *lemma {
	l := &lemma{name: x.list[1].atom, idx: len(sp.lemmas)}
	for _, c := range x.list[2:] {
		switch c.head() {
		case "props":
			l.props = sp.props(c.list[1:])
		case "vars":
			for _, v := range c.list[1:] {
				l.vars = append(l.vars, v.list[0].atom)
				l.sorts = append(l.sorts, Sort(v.list[1].atom))
			}
		default:
			l.clauses = append(l.clauses, c)
		}
	}
	var scan func(y *Sx)
	scan = func(y *Sx) {
		if y.head() == "splitp" {
			l.parts = len(y.list[2].list)
		}
		for _, z := range y.list {
			scan(z)
		}
	}
	scan(x)
	if l.parts == 0 {
		l.parts = 1
	}
	return l
}

func (sp *Spec) lemma(n string) *lemma {
	for _, l := range sp.lemmas {
		if l.name == n {
			return l
		}
	}
	return nil
}

// statement evaluates hypotheses, goals and measure for the given arguments.
func (l *lemma) statement(args []*Term) (hyps, goals []*Term, meas *Term) {
	e := Env{}
	for i, v := range l.vars {
		e[v] = args[i]
	}
	for _, c := range l.clauses {
		switch c.head() {
		case "let":
			e = e.with(c.list[1].atom, spec.eval(c.list[2], e))
		case "hyp":
			hyps = append(hyps, stripAll(spec.eval(c.list[1], e)))
		case "goal":
			goals = append(goals, stripAll(spec.eval(c.list[2], e)))
		case "measure":
			meas = spec.eval(c.list[1], e)
		}
	}
	return
}

func verifyLemma(l *lemma, part int, solver *Solver) *TaskResult {
	hidden = map[string]bool{}
	defer func() { hidden = map[string]bool{} }()
	ckRW = map[*Term]*Term{}
	freshN = 0
	x := newExec(l.name, solver)
	x.prefix = "lemma " + l.name + ": "
	if l.parts > 1 {
		x.prefix = fmt.Sprintf("lemma %s (part %d): ", l.name, part+1)
	}
	r := &TaskResult{Fn: l.name, Props: l.props}
	st := &State{heap: x.h0, objs: map[int]Val{}, frozen: map[int]string{}, sealed: map[int][2]*Term{}}
	feasible := false
	e, p := guarded(x, func() {
		env := Env{}
		var self []*Term
		for i, v := range l.vars {
			t := Fresh(v, l.sorts[i])
			self = append(self, t)
			env[v] = t
		}
		x.lemmaRun(l, l.clauses, env, st, self, nil, part, &feasible)
	})
	x.returned = 1
	if e == "" && !feasible {
		e = "vacuous: the hypotheses of the lemma are contradictory"
	}
	x.result(r)
	r.Err, r.ErrPos = e, p
	return r
}

func constOf(x *Exec, t *Term) int {
	if !t.isC() {
		x.fail("", "lemma: bound is not a constant")
	}
	return int(t.v)
}

func (x *Exec) lemmaRun(l *lemma, cs []*Sx, env Env, st *State, self []*Term, rws []map[*Term]*Term, part int, feasible *bool) {
	ev := func(y *Sx, e Env) *Term {
		t := stripAll(spec.eval(y, e))
		for _, m := range rws {
			t = Subst(t, m)
		}
		return t
	}
	var goals []*Sx
	var genvs []Env
	for i, c := range cs {
		switch c.head() {
		case "let":
			env = env.with(c.list[1].atom, ev(c.list[2], env))
		case "hyp":
			st.assume(ev(c.list[1], env))
		case "goal":
			goals = append(goals, c)
			genvs = append(genvs, env)
		case "measure":
		case "hide":
			for _, h := range c.list[1:] {
				hidden[h.atom] = true
			}
		case "unfold":
			t := ev(c.list[1], env)
			if u, ok := spec.unfold(t); ok {
				st.assume(Eq(t, stripAll(u)))
			} else {
				x.fail("", "lemma: cannot unfold %s", t)
			}
		case "inst":
			found := false
			for _, axs := range spec.axioms {
				for _, ax := range axs {
					if ax.name == c.list[1].atom {
						e := Env{}
						for _, b := range c.list[2:] {
							e[b.list[0].atom] = ev(b.list[1], env)
						}
						st.assume(ev(ax.body, e))
						found = true
					}
				}
			}
			if !found {
				x.fail("", "lemma: no axiom %s", c.list[1].atom)
			}
		case "as":
			R, lo := ev(c.list[1], env), ev(c.list[2], env)
			b, b2 := ev(c.list[3], env), ev(c.list[4], env)
			x.oblige(st, "lemma", "the bytes are what they are read as", l.props, Eq(b, b2), "")
			st.assume(Imp(AtBytes(R, lo, b), AtBytes(R, lo, b2)))
		case "have":
			t := ev(c.list[2], env)
			g := t
			if x.p.smt(st.pc, t, nil) == nil {
				g = tTrue
			}
			x.oblige(st, "lemma", c.list[1].atom, l.props, g, "")
			st.assume(t)
		case "pred": // every number is the successor of one
			i := env[c.list[2].atom]
			k := Fresh(c.list[1].atom, S64)
			m := map[*Term]*Term{i: Add(k, C64(1))}
			var pc []*Term
			for _, f := range st.pc {
				pc = append(pc, Subst(f, m))
			}
			st.pc = pc
			n := Env{c.list[1].atom: k}
			for v, t := range env {
				n[v] = Subst(t, m)
			}
			env = n
			var ns []*Term
			for _, t := range self {
				ns = append(ns, Subst(t, m))
			}
			self = ns
			for j := range genvs {
				e := Env{}
				for v, t := range genvs[j] {
					e[v] = Subst(t, m)
				}
				genvs[j] = e
			}
		case "rw", "rwdef":
			a := ev(c.list[1], env)
			var b *Term
			if c.head() == "rw" {
				b = ev(c.list[2], env)
				x.oblige(st, "lemma", "the terms rewritten are equal", l.props, Eq(a, b), "")
			} else {
				u, ok := spec.unfold(a)
				if !ok {
					x.fail("", "lemma: cannot unfold %s", a)
				}
				b = stripAll(u)
				for _, m := range rws {
					b = Subst(b, m)
				}
			}
			m := map[*Term]*Term{a: b}
			var pc []*Term
			for _, f := range st.pc {
				pc = append(pc, Subst(f, m))
			}
			st.pc = append(pc, Eq(a, b))
			ckFacts(Eq(a, b))
			rws = append(append([]map[*Term]*Term{}, rws...), m)
			n := Env{}
			for k, t := range env {
				n[k] = Subst(t, m)
			}
			env = n
		case "use":
			m := spec.lemma(c.list[1].atom)
			if m == nil || m.idx > l.idx {
				x.fail("", "lemma: %s is not proved before", c.list[1].atom)
			}
			var args []*Term
			for _, a := range c.list[2:] {
				args = append(args, ev(a, env))
			}
			if len(args) != len(m.vars) {
				x.fail("", "lemma: wrong number of arguments for %s", m.name)
			}
			hyps, goals, meas := m.statement(args)
			if m == l {
				_, _, m0 := l.statement(self)
				if meas == nil {
					x.fail("", "lemma: no measure")
				}
				hyps = append(hyps, Sle(C64(0), meas), Slt(meas, m0))
			}
			f := Imp(And(hyps...), And(goals...))
			for _, m := range rws {
				f = Subst(f, m)
			}
			st.assume(f)
		case "for":
			a, b := constOf(x, spec.eval(c.list[2], env)), constOf(x, spec.eval(c.list[3], env))
			var n []*Sx
			for v := a; v <= b; v++ {
				for _, y := range c.list[4:] {
					n = append(n, substSx(y, c.list[1].atom, fmt.Sprint(v)))
				}
			}
			x.lemmaRun(l, append(n, append(goals, cs[i+1:]...)...), env, st, self, rws, part, feasible)
			return
		case "split", "splitn", "splitp":
			var alts [][]*Sx
			if c.head() == "split" {
				for _, y := range c.list[1:] {
					alts = append(alts, y.list)
				}
			} else {
				for _, n := range c.list[2].list {
					var a []*Sx
					for _, y := range c.list[3:] {
						a = append(a, substSx(y, c.list[1].atom, n.atom))
					}
					alts = append(alts, a)
				}
			}
			var conds []*Term
			for _, a := range alts {
				conds = append(conds, ev(a[0], env))
			}
			x.oblige(st, "lemma", "case distinction is complete", l.props, Or(conds...), "")
			for k, a := range alts {
				if c.head() == "splitp" && k != part {
					continue
				}
				s := st.fork()
				s.assume(conds[k])
				e := env
				if y := a[0]; y.head() == "=" && y.list[1].list == nil {
					if t, ok := env[y.list[1].atom]; ok && t.op == "var" {
						v := ev(y.list[2], env)
						e = env.with(y.list[1].atom, v)
						var pc []*Term
						for _, f := range s.pc {
							pc = append(pc, Subst(f, map[*Term]*Term{t: v}))
						}
						s.pc = append(pc, Eq(t, v))
					}
				}
				n := append([]*Sx{}, a[1:]...)
				n = append(append(n, goals...), cs[i+1:]...)
				saved := map[*Term]*Term{}
				for a, b := range ckRW {
					saved[a] = b
				}
				x.lemmaRun(l, n, e, s, self, rws, part, feasible)
				ckRW = saved
			}
			return
		default:
			x.fail("", "lemma: unknown clause %s", c.head())
		}
	}
	if x.p.sat(st.pc) == Unsat {
		return
	}
	*feasible = true
	for i, g := range goals {
		t := ev(g.list[2], genvs[i])
		if x.p.smt(st.pc, t, nil) == nil {
			t = tTrue
		}
		x.oblige(st, "lemma", g.list[1].atom, l.props, t, "")
	}
}

func substSx(x *Sx, v, n string) *Sx {
	if x.list == nil {
		if x.atom == v && !x.str {
			y := *x
			y.atom = n
			return &y
		}
		return x
	}
	y := *x
	y.list = make([]*Sx, len(x.list))
	for i := range x.list {
		y.list[i] = substSx(x.list[i], v, n)
	}
	return &y
}

// AtBytes: the byte string b is found in R from position lo on.
func AtBytes(R, lo, b *Term) *Term {
	switch b.op {
	case "lab":
		return AtBytes(R, lo, b.args[0])
	case "ite":
		return And(Imp(b.args[0], AtBytes(R, lo, b.args[1])), Imp(Not(b.args[0]), AtBytes(R, lo, b.args[2])))
	case "eps":
		return tTrue
	case "cat":
		r := tTrue
		for _, a := range b.args {
			r = And(r, AtBytes(R, lo, a))
			lo = Add(lo, Blen(a))
		}
		return r
	case "encv":
		return spec.apply("ISV", SBool, []*Term{R, lo, b.args[0]})
	case "unit":
		return Eq(mk("bidx", S8, 0, "", nil, R, lo), b.args[0])
	case "le32", "le64":
		r := tTrue
		for i := 0; i < width(b.args[0].s)/8; i++ {
			r = And(r, Eq(mk("bidx", S8, 0, "", nil, R, Add(lo, C64(uint64(i)))), Trunc(Lshr(b.args[0], BV(b.args[0].s, uint64(8*i))), S8)))
		}
		return r
	}
	return Eq(mk("bsl", SBytes, 0, "", nil, R, lo, Add(lo, Blen(b))), b)
}

// octetsOf: the octets of the minimal varint of v at lo, for each length.
func octetsOf(R, lo, v *Term) *Term {
	r := tTrue
	for n := 1; n <= 10; n++ {
		c := tTrue
		for i := 0; i < n; i++ {
			c = And(c, Eq(mk("bidx", S8, 0, "", nil, R, Add(lo, C64(uint64(i)))), Vbyte(v, i, n)))
		}
		r = And(r, Imp(Eq(Vlen(v), C64(uint64(n))), c))
	}
	return r
}
