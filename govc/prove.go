package main

import (
	"fmt"
	"strings"
)

// Prover: case splitting over the if-then-elses of a specification, byte
// string alignment, on-demand unfolding; everything else goes to the solver.

type Prover struct {
	s     *Solver
	steps int
	limit int
	qns   int
	used  map[string]int // back ends that discharged sub-goals
}

type Failure struct {
	labels []string
	goal   *Term
	pc     []*Term
	res    Res
	model  string
}

func isSplitSort(s Sort) bool {
	switch s {
	case SBytes, SErr, SKind, SHeap, SType:
		return true
	}
	return false
}

// findIte looks for an if-then-else to split on: one of a non-machine sort,
// or one whose branch is labelled.
func findIte(t *Term) *Term {
	seen := map[int]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t.id] {
			return nil
		}
		seen[t.id] = true
		if t.op == "ite" && (isSplitSort(t.s) || t.args[1].op == "lab" || t.args[2].op == "lab") {
			if r := rec(t.args[0]); r != nil {
				return r
			}
			return t
		}
		for _, a := range t.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

// stripLabs removes labels that are exposed (not below an undecided ite).
func stripLabs(t *Term) (*Term, []string) {
	var labs []string
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t.id]; ok {
			return r
		}
		if t.op == "lab" {
			labs = append(labs, t.str)
			r := rec(t.args[0])
			memo[t.id] = r
			return r
		}
		if t.op == "ite" || len(t.args) == 0 {
			return t
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
		}
		r := rebuild(t, args)
		memo[t.id] = r
		return r
	}
	return rec(t), labs
}

func (p *Prover) sat(pc []*Term) Res {
	p.qns++
	// unknown counts as satisfiable: a short limit costs only work
	oq := p.s.quick
	p.s.quick = true
	r, _, _ := p.s.check(pc, nil, false)
	p.s.quick = oq
	return r
}

// entails: does pc imply c? (Unknown counts as no.)
func (p *Prover) entails(pc []*Term, c *Term) bool {
	if c == tTrue {
		return true
	}
	if c == tFalse {
		return p.sat(pc) == Unsat
	}
	for _, x := range pc {
		if x == c {
			return true
		}
	}
	n := Not(c)
	for _, x := range pc {
		if x == n {
			return p.sat(pc) == Unsat
		}
	}
	return p.sat(append(append([]*Term{}, pc...), n)) == Unsat
}

func (p *Prover) prove(pc []*Term, goal *Term) *Failure { return p.rec(pc, goal, nil, 0) }

func cat2(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }
func cons(pc []*Term, c ...*Term) []*Term   { return append(append([]*Term{}, pc...), c...) }

func (p *Prover) rec(pc []*Term, goal *Term, labels []string, depth int) *Failure {
	p.steps++
	if p.steps > p.limit || depth > 80 {
		return &Failure{labels, goal, pc, Unknown, "proof search limit"}
	}
	g, ls := stripLabs(goal)
	if len(ls) > 0 {
		labels = cat2(labels, ls...)
	}
	if g.op == "=" {
		flip := Eq(g.args[1], g.args[0])
		for _, c := range pc {
			if c == g || c == flip {
				return nil
			}
		}
	}
	switch g.op {
	case "true":
		return nil
	case "false":
		if p.sat(pc) == Unsat {
			return nil
		}
		return p.smt(pc, g, labels)
	case "and":
		for _, a := range g.args {
			if f := p.rec(pc, a, labels, depth+1); f != nil {
				return f
			}
		}
		return nil
	case "or":
		// assume the negation of the boolean-only disjuncts
		var hard *Term
		var hyp []*Term
		for _, a := range g.args {
			if hard == nil && containsSplit(a) {
				hard = a
			} else {
				hyp = append(hyp, Not(a))
			}
		}
		if hard == nil {
			return p.smt(pc, g, labels)
		}
		npc := cons(pc, hyp...)
		if p.sat(npc) == Unsat {
			return nil
		}
		return p.rec(npc, hard, labels, depth+1)
	}
	if it := findIte(g); it != nil {
		c := it.args[0]
		if cc, _ := stripLabs(c); cc != c {
			return p.rec(pc, Subst(g, map[*Term]*Term{c: cc}), labels, depth+1)
		}
		yes := func(pc []*Term) *Failure {
			return p.rec(pc, pick(g, c, true), labels, depth+1)
		}
		no := func(pc []*Term) *Failure {
			return p.rec(pc, pick(g, c, false), labels, depth+1)
		}
		switch known(pc, c) {
		case 1:
			return yes(pc)
		case -1:
			return no(pc)
		}
		if p.entails(pc, c) {
			return yes(pc)
		}
		if p.entails(pc, Not(c)) {
			return no(pc)
		}
		if f := yes(cons(pc, c)); f != nil {
			return f
		}
		return no(cons(pc, Not(c)))
	}
	if g.op == "=" {
		a, b := g.args[0], g.args[1]
		switch a.s {
		case SBytes:
			return p.eqBytes(pc, a, b, labels, depth)
		case SErr, SHeap, SKind:
			return p.eqStruct(pc, a, b, labels, depth)
		case S64:
			// ghost lists: unfold
			f := p.smt(pc, g, labels)
			if f == nil || a.op != "uf" && b.op != "uf" {
				return f
			}
			for _, side := range [][2]*Term{{a, b}, {b, a}} {
				if side[0].op != "uf" {
					continue
				}
				if u, ok := spec.unfold(side[0]); ok && u != side[0] {
					f2 := p.rec(pc, Eq(u, side[1]), labels, depth+12)
					if f2 == nil {
						return nil
					}
					f = f2
				}
			}
			return f
		}
	}
	return p.smt(pc, g, labels)
}

// pick replaces every if-then-else on condition c by one branch.
func pick(g, c *Term, val bool) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		if t.op == "ite" && t.args[0] == c {
			var r *Term
			if val {
				r = rec(t.args[1])
			} else {
				r = rec(t.args[2])
			}
			memo[t.id] = r
			return r
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
		}
		r := rebuild(t, args)
		memo[t.id] = r
		return r
	}
	return rec(g)
}

func containsSplit(t *Term) bool {
	if findIte(t) != nil {
		return true
	}
	found := false
	subterms([]*Term{t}, func(x *Term) {
		if x.op == "=" && (x.args[0].s == SBytes || x.args[0].s == SHeap || x.args[0].s == SErr || x.args[0].s == SKind) {
			found = true
		}
	})
	return found
}

// chain finds pc equalities X = Y for a fold term X and returns Y.
func chain(pc []*Term, x *Term) *Term {
	for i := len(pc) - 1; i >= 0; i-- {
		c := pc[i]
		if c.op == "=" {
			if c.args[0] == x && c.args[1].isUF(x.str) {
				return c.args[1]
			}
			if c.args[1] == x && c.args[0].isUF(x.str) {
				return c.args[0]
			}
		}
	}
	return nil
}

func (p *Prover) eqArgs(pc []*Term, a, b *Term, labels []string, depth int) *Failure {
	for i := range a.args {
		if a.args[i] == b.args[i] {
			continue
		}
		if f := p.rec(pc, Eq(a.args[i], b.args[i]), labels, depth+1); f != nil {
			return f
		}
	}
	return nil
}

func (p *Prover) eqStruct(pc []*Term, a, b *Term, labels []string, depth int) *Failure {
	var first *Failure
	if a.op == b.op && a.str == b.str && len(a.args) == len(b.args) && (a.op == "uf" || a.op == "H" || a.op == "ctor") {
		f := p.eqArgs(pc, a, b, labels, depth)
		if f == nil {
			return nil
		}
		first = f
	}
	// an equality assumed for one side (loop invariants of fold form)
	for _, side := range [][2]*Term{{a, b}, {b, a}} {
		x, y := side[0], side[1]
		if x.op == "uf" && y != x {
			if z := chain(pc, x); z != nil && z != y && !(y.isUF(x.str) && chain(pc, y) == x) {
				// avoid ping-pong: only follow when y is not itself linked to x
				if f := p.rec(dropEq(pc, x, z), Eq(z, y), labels, depth+1); f == nil {
					return nil
				} else if first == nil {
					first = f
				} else {
					first = f
				}
				return first
			}
		}
	}
	// unfold the simpler side first: it is the earlier state
	sides := [][2]*Term{{a, b}, {b, a}}
	if termSize(b) < termSize(a) {
		sides[0], sides[1] = sides[1], sides[0]
	}
	var uf *Failure
	for _, side := range sides {
		x, y := side[0], side[1]
		if u, ok := spec.unfold(x); ok {
			f := p.rec(pc, Eq(u, y), labels, depth+12)
			if f == nil {
				return nil
			}
			if uf == nil {
				uf = f
			}
		}
	}
	if uf != nil {
		return uf
	}
	if first != nil && (a.s == SHeap || a.op == "uf") {
		// last resort: let the solver try the equality as a whole
		if f := p.smt(pc, Eq(a, b), labels); f == nil {
			return nil
		}
		return first
	}
	if a.s == SHeap && a.op != b.op {
		// compare componentwise
		for _, q := range heapParts {
			if f := p.rec(pc, Eq(hpart(a, q.n), hpart(b, q.n)), labels, depth+1); f != nil {
				return f
			}
		}
		return nil
	}
	return p.smt(pc, Eq(a, b), labels)
}

func dropEq(pc []*Term, x, z *Term) []*Term {
	var r []*Term
	for _, c := range pc {
		if c.op == "=" && ((c.args[0] == x && c.args[1] == z) || (c.args[1] == x && c.args[0] == z)) {
			continue
		}
		r = append(r, c)
	}
	return r
}

// eqBytes aligns two concatenations atom by atom.
func (p *Prover) eqBytes(pc []*Term, a, b *Term, labels []string, depth int) *Failure {
	xs, ys := append([]*Term{}, atoms(a)...), append([]*Term{}, atoms(b)...)
	fail := func(res Res, why string) *Failure {
		return &Failure{labels, Eq(Cat(xs...), Cat(ys...)), pc, res, why}
	}
	for len(xs) > 0 && len(ys) > 0 && xs[0] == ys[0] {
		xs, ys = xs[1:], ys[1:]
	}
	for len(xs) > 0 && len(ys) > 0 && xs[len(xs)-1] == ys[len(ys)-1] {
		xs, ys = xs[:len(xs)-1], ys[:len(ys)-1]
	}
	if len(xs) == 0 && len(ys) == 0 {
		return nil
	}
	if len(xs) == 0 || len(ys) == 0 {
		rest := append(xs, ys...)
		// everything left over must be empty
		if len(rest) == 1 || len(xs) == 0 || len(ys) == 0 {
			if p.entails(pc, Eq(Blen(Cat(rest...)), C64(0))) {
				return nil
			}
			// a fold over an empty range
			for _, r := range rest {
				if _, ok := spec.unfold(r); ok {
					if f := p.unfoldByte(pc, Cat(xs...), Cat(ys...), r, labels, depth); f == nil {
						return nil
					}
				}
			}
			return p.confirm(pc, labels, Eq(Cat(xs...), Cat(ys...)), "bytes left over")
		}
	}
	if len(xs) == 1 && len(ys) == 1 {
		x, y := xs[0], ys[0]
		if x.op == "strc" && y.op == "strc" {
			return p.confirm(pc, labels, Eq(x, y), "different literals")
		}
	}
	x, y := xs[0], ys[0]
	// same shape heads
	if x.op == y.op && x.op != "uf" && x.op != "var" && x.op != "select" {
		switch x.op {
		case "unit", "encv", "le32", "le64", "itoa":
			e := Eq(x.args[0], y.args[0])
			if f := p.rec(pc, e, labels, depth+1); f != nil {
				return f
			}
			return p.eqBytes(pc, Cat(xs[1:]...), Cat(ys[1:]...), labels, depth+1)
		case "bsl":
			ok := true
			for i := range x.args {
				if x.args[i] != y.args[i] && !(x.args[i].s != SBytes && p.entails(pc, Eq(x.args[i], y.args[i]))) {
					ok = false
				}
			}
			if ok {
				return p.eqBytes(pc, Cat(xs[1:]...), Cat(ys[1:]...), labels, depth+1)
			}
			if x.args[0] == y.args[0] && len(xs) == 1 && len(ys) == 1 {
				// slices of the same root: compare extents to report
				return p.rec(pc, And(Eq(x.args[1], y.args[1]), Eq(x.args[2], y.args[2])), labels, depth+1)
			}
		}
	}
	// expand a packed atom against raw octets
	expand := func(t *Term, n int) []*Term {
		switch t.op {
		case "encv":
			var r []*Term
			for i := 0; i < n; i++ {
				r = append(r, Unit(Vbyte(t.args[0], i, n)))
			}
			return r
		case "le32", "le64":
			var r []*Term
			for i := 0; i < width(t.args[0].s)/8; i++ {
				r = append(r, Unit(Trunc(Lshr(t.args[0], BV(t.args[0].s, uint64(8*i))), S8)))
			}
			return r
		case "strc":
			var r []*Term
			for i := 0; i < len(t.str); i++ {
				r = append(r, Unit(BV(S8, uint64(t.str[i]))))
			}
			return r
		}
		return nil
	}
	for swap := 0; swap < 2; swap++ {
		if swap == 1 {
			xs, ys = ys, xs
			x, y = y, x
		}
		if x.op == "unit" || x.op == "encv" || x.op == "le32" || x.op == "le64" {
			switch y.op {
			case "le32", "le64", "strc":
				return p.eqBytes(pc, Cat(xs...), Cat(append(expand(y, 0), ys[1:]...)...), labels, depth+1)
			case "encv":
				vl := Vlen(y.args[0])
				for n := 1; n <= 10; n++ {
					npc := cons(pc, Eq(vl, C64(uint64(n))))
					if p.sat(npc) == Unsat {
						continue
					}
					if f := p.eqBytes(npc, Cat(xs...), Cat(append(expand(y, n), ys[1:]...)...), labels, depth+1); f != nil {
						return f
					}
				}
				return nil
			}
		}
	}
	// definitions of variables on the path (loop invariants)
	for _, l := range [][]*Term{xs, ys} {
		for i, t := range l {
			if t.op != "var" {
				continue
			}
			if d := definition(pc, t); d != nil {
				n := append(append(append([]*Term{}, l[:i]...), atoms(d)...), l[i+1:]...)
				if i < len(xs) && &l[0] == &xs[0] {
					return p.eqBytes(dropEq(pc, t, d), Cat(n...), Cat(ys...), labels, depth+1)
				}
				return p.eqBytes(dropEq(pc, t, d), Cat(xs...), Cat(n...), labels, depth+1)
			}
		}
	}
	// solver knows the heads equal?
	if p.headsEqual(pc, x, y) {
		return p.eqBytes(pc, Cat(xs[1:]...), Cat(ys[1:]...), labels, depth+1)
	}
	// fold terms: unfold the one that can be unfolded (prefer the last atom)
	for _, l := range [][]*Term{ys, xs} {
		for i := len(l) - 1; i >= 0; i-- {
			if _, ok := spec.unfold(l[i]); ok {
				return p.unfoldByte(pc, Cat(xs...), Cat(ys...), l[i], labels, depth)
			}
		}
	}
	_ = fail
	return p.confirm(pc, labels, Eq(Cat(xs...), Cat(ys...)), "byte strings do not align")
}

// definition finds pc: v = expression without v.
func definition(pc []*Term, v *Term) *Term {
	for i := len(pc) - 1; i >= 0; i-- {
		c := pc[i]
		if c.op != "=" || c.args[0].s != SBytes {
			continue
		}
		a, b := c.args[0], c.args[1]
		if b == v {
			a, b = b, a
		}
		if a == v && !occurs(v, b) && (b.op == "cat" || b.op == "uf" || b.op == "eps") {
			return b
		}
	}
	return nil
}

func (p *Prover) headsEqual(pc []*Term, x, y *Term) bool {
	if x.s != SBytes || x.op == "unit" && y.op != "unit" {
		return false
	}
	if x.op == "uf" && y.op == "uf" && x.str == y.str && len(x.args) == len(y.args) {
		for i := range x.args {
			if x.args[i] == y.args[i] {
				continue
			}
			if x.args[i].s == SHeap || x.args[i].s == SKind || findIte(x.args[i]) != nil || findIte(y.args[i]) != nil {
				if p.rec(pc, Eq(x.args[i], y.args[i]), nil, 70) != nil {
					return false
				}
				continue
			}
			if !p.entails(pc, Eq(x.args[i], y.args[i])) {
				return false
			}
		}
		return true
	}
	return p.entails(pc, Eq(x, y))
}

func (p *Prover) unfoldByte(pc []*Term, a, b, t *Term, labels []string, depth int) *Failure {
	u, ok := spec.unfold(t)
	if !ok {
		return &Failure{labels, Eq(a, b), pc, Unknown, "cannot unfold"}
	}
	m := map[*Term]*Term{t: u}
	return p.rec(pc, Eq(Subst(a, m), Subst(b, m)), labels, depth+4)
}

// confirm reports a byte-string mismatch unless the path itself is infeasible.
func (p *Prover) confirm(pc []*Term, labels []string, goal *Term, why string) *Failure {
	if p.sat(pc) == Unsat {
		return nil
	}
	f := p.smt(pc, goal, labels)
	if f != nil && f.model == "" {
		f.model = why
	}
	return f
}

func (p *Prover) smt(pc []*Term, goal *Term, labels []string) *Failure {
	p.qns++
	if g2, pc2 := p.locate(pc, goal); g2 != goal {
		if f := p.smt(pc2, g2, labels); f == nil {
			return nil
		}
	}
	var want []*Term
	subterms(append(cons(pc), goal), func(t *Term) {
		if (t.op == "var" || t.op == "bidx") && width(t.s) > 0 && len(want) < 24 {
			want = append(want, t)
		}
	})
	r, m, be := p.s.check(cons(pc, Not(goal)), want, true)
	if r == Unsat {
		if p.used != nil {
			p.used[be]++
		}
		return nil
	}
	var ms []string
	for t, v := range m {
		ms = append(ms, fmt.Sprintf("%s=%s", t, v))
	}
	return &Failure{labels, goal, pc, r, strings.Join(ms, " ")}
}

// locate replaces a "first position" function by the index it is known to
// equal: the candidates are the indexes read from the same byte string.
func (p *Prover) locate(pc []*Term, goal *Term) (*Term, []*Term) {
	var ts []*Term
	idx := map[*Term][]*Term{}
	subterms(append(cons(pc), goal), func(t *Term) {
		if t.isUF("tpos") {
			ts = append(ts, t)
		}
		if t.op == "bidx" {
			idx[t.args[0]] = append(idx[t.args[0]], t.args[1])
		}
	})
	for _, t := range ts {
		if !occurs(t, goal) {
			continue
		}
		n := 0
		for _, j := range idx[t.args[0]] {
			if occurs(t, j) || n > 6 {
				continue
			}
			n++
			oq := p.s.quick
			p.s.quick = true
			r, _, _ := p.s.check(cons(pc, Not(Eq(t, j))), nil, false)
			p.s.quick = oq
			if r == Unsat {
				m := map[*Term]*Term{t: j}
				var npc []*Term
				for _, c := range pc {
					npc = append(npc, Subst(c, m))
				}
				npc = append(npc, spec.factsAbout(t, j)...)
				return Subst(goal, m), npc
			}
		}
	}
	return goal, pc
}

// factsAbout: axiom instances mention the replaced term; keep them in the new form.
func (sp *Spec) factsAbout(t, j *Term) []*Term { return nil }

func termSize(t *Term) int {
	n := 0
	subterms([]*Term{t}, func(*Term) { n++ })
	return n
}

// known decides a condition from what pc says literally: 1 true, -1 false.
func known(pc []*Term, c *Term) int {
	switch c.op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -known(pc, c.args[0])
	case "and", "or":
		all, one := 1, -1
		if c.op == "or" {
			all, one = -1, 1
		}
		r := all
		for _, a := range c.args {
			switch known(pc, a) {
			case one:
				return one
			case 0:
				r = 0
			}
		}
		return r
	}
	n := Not(c)
	var v, k *Term
	if c.op == "=" {
		if c.args[1].isC() {
			v, k = c.args[0], c.args[1]
		} else if c.args[0].isC() {
			v, k = c.args[1], c.args[0]
		}
	}
	for _, x := range pc {
		if x == c {
			return 1
		}
		if x == n {
			return -1
		}
		if v != nil && x.op == "=" {
			if x.args[0] == v && x.args[1].isC() || x.args[1] == v && x.args[0].isC() {
				return -1 // another constant
			}
		}
	}
	_ = k
	return 0
}
