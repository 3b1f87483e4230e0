package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const prelude = `(set-logic ALL)
(declare-sort Bytes 0)
(declare-sort GType 0)
(declare-datatypes ((Err 0)) (((ENil) (EPlain (e.cls (_ BitVec 8))) (EFe (e.num (_ BitVec 64)) (e.wt (_ BitVec 64)) (e.in (_ BitVec 8))))))
(declare-datatypes ((Kind 0)) (((KBad) (KSc (k.sid (_ BitVec 8)) (k.fam (_ BitVec 8))) (KPtr (k.pe Kind)) (KMsg (k.mt GType)) (KSlice (k.se Kind)) (KMap (k.mk Kind) (k.mv Kind) (k.wk (_ BitVec 64)) (k.wv (_ BitVec 64)) (k.w0 (_ BitVec 64))))))
(declare-datatypes ((Heap 0)) (((mkH (h.b (Array (_ BitVec 64) Bool)) (h.w (Array (_ BitVec 64) (_ BitVec 32))) (h.d (Array (_ BitVec 64) (_ BitVec 64))) (h.p (Array (_ BitVec 64) (_ BitVec 64))) (h.s (Array (_ BitVec 64) Bytes)) (h.yn (Array (_ BitVec 64) Bool)) (h.yc (Array (_ BitVec 64) Bytes))))))
(declare-fun b.eps () Bytes)
(declare-fun b.cat (Bytes Bytes) Bytes)
(declare-fun b.unit ((_ BitVec 8)) Bytes)
(declare-fun b.encv ((_ BitVec 64)) Bytes)
(declare-fun b.le32 ((_ BitVec 32)) Bytes)
(declare-fun b.le64 ((_ BitVec 64)) Bytes)
(declare-fun b.sl (Bytes (_ BitVec 64) (_ BitVec 64)) Bytes)
(declare-fun b.idx (Bytes (_ BitVec 64)) (_ BitVec 8))
(declare-fun b.len (Bytes) (_ BitVec 64))
(declare-fun b.itoa ((_ BitVec 64)) Bytes)
(define-fun vlen ((v (_ BitVec 64))) (_ BitVec 64)
 (ite (bvult v #x0000000000000080) #x0000000000000001
 (ite (bvult v #x0000000000004000) #x0000000000000002
 (ite (bvult v #x0000000000200000) #x0000000000000003
 (ite (bvult v #x0000000010000000) #x0000000000000004
 (ite (bvult v #x0000000800000000) #x0000000000000005
 (ite (bvult v #x0000040000000000) #x0000000000000006
 (ite (bvult v #x0002000000000000) #x0000000000000007
 (ite (bvult v #x0100000000000000) #x0000000000000008
 (ite (bvult v #x8000000000000000) #x0000000000000009 #x000000000000000a))))))))))
(define-fun e.class ((e Err)) (_ BitVec 8) (ite ((_ is EPlain) e) (e.cls e) (ite ((_ is EFe) e) (e.in e) #x00)))
`

func smtSort(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case S8, S16, S32, S64:
		return "(_ BitVec " + string(s) + ")"
	case SArrB:
		return "(Array (_ BitVec 64) Bool)"
	case SArr32:
		return "(Array (_ BitVec 64) (_ BitVec 32))"
	case SArr64:
		return "(Array (_ BitVec 64) (_ BitVec 64))"
	case SArrY:
		return "(Array (_ BitVec 64) Bytes)"
	}
	return string(s)
}

type Stats struct {
	queries, unsat, sat, unknown int64
	ns                           int64
	byBackend                    sync.Map
}

var stats Stats

// Solver is one z3 process; every query is sent stand-alone after a reset, so
// that the solver preprocesses it as a whole.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	def     map[int]string
	decl    map[string]bool
	script  bytes.Buffer // the current query
	strs    []string
	gts     []string
	timeout int // ms
	pre     string
	quick   bool    // small time limit, no fallback
	lia     bool    // integer abstraction instead of bit vectors for 64-bit terms
	alt     *Solver // the integer abstraction's process
	last    string  // text of the last query
	dead    bool
}

func newSolver(timeoutMS int) *Solver {
	s := &Solver{def: map[int]string{}, decl: map[string]bool{}, timeout: timeoutMS}
	s.start()
	return s
}
func (s *Solver) start() {
	s.cmd = exec.Command(z3bin(), append([]string{"-in", "-smt2"}, z3opts...)...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(toolErr{"cannot start z3: " + err.Error()})
	}
	s.in, s.out = in, bufio.NewReader(out)
	s.pre = prelude
	if s.lia {
		s.pre = liaPrelude()
	}
	s.fresh()
}

// fresh starts a new stand-alone query.
func (s *Solver) fresh() {
	s.def, s.decl = map[int]string{}, map[string]bool{}
	s.strs, s.gts = nil, nil
	s.script.Reset()
	s.script.WriteString("(set-option :produce-models true)\n" + s.pre)
}
func (s *Solver) close() {
	if s.alt != nil {
		s.alt.close()
		s.alt = nil
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

type toolErr struct{ msg string }

func (e toolErr) Error() string { return e.msg }

var z3opts = strings.Fields(envOr("GOVC_Z3OPTS", "smt.relevancy=0"))

func envOr(k, d string) string {
	if v, ok := os.LookupEnv(k); ok {
		return v
	}
	return d
}

func z3bin() string {
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

func (s *Solver) raw(x string) { io.WriteString(s.in, x) }
func (s *Solver) defs(x string) {
	s.script.WriteString(x)
}

func hexBV(v uint64, w int) string { return fmt.Sprintf("#x%0*x", w/4, v) }

// name returns an SMT expression for t, defining what is needed.
func (s *Solver) name(t *Term) string {
	if n, ok := s.def[t.id]; ok {
		return n
	}
	if s.lia && liaOp[t.op] {
		return s.liaName(t)
	}
	smtSort := smtSort
	if s.lia {
		smtSort = liaSort
	}
	var e string
	a := func(i int) string { return s.name(t.args[i]) }
	all := func() string {
		var xs []string
		for i := range t.args {
			xs = append(xs, a(i))
		}
		return strings.Join(xs, " ")
	}
	decl := func(n string, args []*Term, res Sort) string {
		q := "|" + n + "|"
		if !s.decl[n] {
			s.decl[n] = true
			var as []string
			for _, x := range args {
				as = append(as, smtSort(x.s))
			}
			s.defs(fmt.Sprintf("(declare-fun %s (%s) %s)\n", q, strings.Join(as, " "), smtSort(res)))
		}
		return q
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "bv":
		return hexBV(t.v, width(t.s))
	case "var":
		e := decl("v."+t.str, nil, t.s)
		s.def[t.id] = e
		return e
	case "uf":
		f := decl(t.str, t.args, t.s)
		if len(t.args) == 0 {
			e = f
		} else {
			e = "(" + f + " " + all() + ")"
		}
	case "strc":
		e := decl("str."+fmt.Sprintf("%x", t.str), nil, SBytes)
		s.def[t.id] = e
		s.defs(fmt.Sprintf("(assert (= (b.len %s) %s))\n", e, hexBV(uint64(len(t.str)), 64)))
		for _, o := range s.strs {
			s.defs(fmt.Sprintf("(assert (distinct %s %s))\n", e, o))
		}
		s.strs = append(s.strs, e)
		return e
	case "gtc":
		e := decl("gt."+t.str, nil, SType)
		s.def[t.id] = e
		for _, o := range s.gts {
			s.defs(fmt.Sprintf("(assert (distinct %s %s))\n", e, o))
		}
		s.gts = append(s.gts, e)
		return e
	case "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvult", "bvule", "bvslt", "bvsle", "select", "store":
		e = "(" + t.op + " " + all() + ")"
	case "lab":
		return a(0)
	case "lin":
		var xs []string
		for i := range t.args {
			x := a(i)
			if t.cs[i] == ^uint64(0) {
				x = "(bvneg " + x + ")"
			} else if t.cs[i] != 1 {
				x = "(bvmul " + hexBV(t.cs[i], 64) + " " + x + ")"
			}
			xs = append(xs, x)
		}
		if t.v != 0 {
			xs = append(xs, hexBV(t.v, 64))
		}
		if len(xs) == 1 {
			e = xs[0]
		} else {
			e = "(bvadd " + strings.Join(xs, " ") + ")"
		}
	case "zext":
		e = fmt.Sprintf("((_ zero_extend %d) %s)", width(t.s)-width(t.args[0].s), a(0))
	case "sext":
		e = fmt.Sprintf("((_ sign_extend %d) %s)", width(t.s)-width(t.args[0].s), a(0))
	case "trunc":
		e = fmt.Sprintf("((_ extract %d 0) %s)", width(t.s)-1, a(0))
	case "eps":
		return "b.eps"
	case "cat":
		e = a(len(t.args) - 1)
		for i := len(t.args) - 2; i >= 0; i-- {
			e = "(b.cat " + a(i) + " " + e + ")"
		}
	case "unit", "encv", "le32", "le64", "itoa":
		e = "(b." + t.op + " " + all() + ")"
	case "bsl":
		e = "(b.sl " + all() + ")"
	case "bidx":
		e = "(b.idx " + all() + ")"
	case "blen":
		e = "(b.len " + all() + ")"
	case "vlen":
		e = "(vlen " + all() + ")"
	case "ecls":
		e = "(e.class " + all() + ")"
	case "hsel":
		e = "(h." + t.str + " " + a(0) + ")"
	case "H":
		e = "(mkH " + all() + ")"
	case "ctor":
		if len(t.args) == 0 {
			return t.str
		}
		e = "(" + t.str + " " + all() + ")"
	case "is":
		e = "((_ is " + t.str + ") " + a(0) + ")"
	case "sel":
		e = "(" + t.str + " " + a(0) + ")"
	default:
		panic(toolErr{"smt: unknown op " + t.op})
	}
	n := fmt.Sprintf("t%d", t.id)
	s.defs(fmt.Sprintf("(define-fun %s () %s %s)\n", n, smtSort(t.s), e))
	s.def[t.id] = n
	return n
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "unknown"
	}
	return strings.TrimSpace(l)
}

// check decides satisfiability of the conjunction. If want != nil and the
// answer is sat, the values of the wanted terms are returned.
// taskDeadline is when the current task has to come to an end.
var taskDeadline time.Time

func (s *Solver) check(as []*Term, want []*Term, fallback bool) (Res, map[*Term]string, string) {
	t0 := time.Now()
	if !taskDeadline.IsZero() && t0.After(taskDeadline) {
		panic(unsupported{"verifier gave no answer within its limits", ""})
	}
	orig := as
	var subst []map[*Term]*Term
	as, want, subst = solveEqs(as, want)
	for _, a := range as {
		if a == tFalse {
			atomic.AddInt64(&stats.queries, 1)
			atomic.AddInt64(&stats.unsat, 1)
			return Unsat, nil, "simplifier"
		}
	}
	facts := factsFor(as)
	all := append(append([]*Term{}, as...), facts...)
	r, m, be := s.ask(all, want, 250, t0)
	if r == Unsat {
		return r, m, be
	}
	lr := Unknown
	if r == Unknown {
		if lr = s.askLia(all, t0); lr == Unsat {
			return lr, nil, "z3/lia"
		}
	}
	if len(subst) > 0 {
		// substituting the equations can hide a term that an axiom's pattern
		// matches, as (+1 i) once i is known to be n-1: take the instances for
		// the assumptions as they were, too
		have := map[int]bool{}
		for _, f := range facts {
			have[f.id] = true
		}
		more := false
		for _, f := range factsFor(orig) {
			for _, m := range subst {
				f = Subst(f, m)
			}
			if f != tTrue && !have[f.id] {
				have[f.id] = true
				all = append(all, f)
				more = true
			}
		}
		if more {
			if r, m, be = s.ask(all, want, 250, t0); r == Unsat {
				return r, m, be
			}
			if r == Unknown {
				if lr = s.askLia(all, t0); lr == Unsat {
					return lr, nil, "z3/lia"
				}
			}
		}
	}
	if r == Sat {
		return r, m, be
	}
	if s.quick && lr == Sat {
		return Unknown, nil, ""
	}
	if !s.quick && len(all) > 0 {
		// a cheap first attempt without the assumptions that involve
		// multiplication or shifts by variable amounts (dropping assumptions
		// is sound for unsat)
		var lite []*Term
		goal := as[len(as)-1]
		for _, a := range all {
			if a == goal || !heavy(a) {
				lite = append(lite, a)
			}
		}
		if len(lite) < len(all) {
			if r, m, be := s.ask(lite, nil, 2000, t0); r == Unsat {
				return r, m, be
			}
		}
	}
	tmo := s.timeout
	if s.quick {
		tmo = 1500
	}
	r, m, be = s.ask(all, want, tmo, t0)
	if r == Unknown && fallback && !s.quick {
		r, be = s.fallback(s.last)
	}
	return r, m, be
}

var heavyMemo = map[int]bool{}

// heavy: contains a multiplication by a constant that is no power of two or a
// shift by a variable amount.
func heavy(t *Term) bool {
	if r, ok := heavyMemo[t.id]; ok {
		return r
	}
	r := false
	switch t.op {
	case "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		r = true
	case "bvshl", "bvlshr", "bvashr":
		r = !t.args[1].isC()
	case "lin":
		for _, c := range t.cs {
			if c != 1 && c != ^uint64(0) {
				r = true
			}
		}
	}
	if !r {
		for _, a := range t.args {
			if heavy(a) {
				r = true
				break
			}
		}
	}
	heavyMemo[t.id] = r
	return r
}

func (s *Solver) ask(all []*Term, want []*Term, tmo int, t0 time.Time) (Res, map[*Term]string, string) {
	s.fresh()
	var names []string
	for _, f := range all {
		names = append(names, s.name(f))
	}
	for _, w := range want {
		s.name(w)
	}
	for _, n := range names {
		s.script.WriteString("(assert " + n + ")\n")
	}
	s.script.WriteString("(check-sat)\n")
	s.last = s.script.String()
	s.raw(fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", tmo) + s.last)
	r := s.readLine()
	for strings.HasPrefix(r, "(error") {
		fmt.Fprintln(os.Stderr, "z3:", r)
		if os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(filepath.Join(os.Getenv("GOVC_DUMP"), "err.smt2"), []byte(s.last), 0o644)
		}
		panic(toolErr{"solver error: " + r})
	}
	var m map[*Term]string
	res := Unknown
	backend := "z3"
	switch r {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
		if len(want) > 0 {
			m = map[*Term]string{}
			for _, w := range want {
				s.raw("(get-value (" + s.name(w) + "))\n")
				l := s.readLine()
				for strings.Count(l, "(") > strings.Count(l, ")") && !s.dead {
					l += " " + s.readLine()
				}
				l = strings.TrimSuffix(strings.TrimPrefix(l, "(("), "))")
				if i := strings.IndexByte(l, ' '); i >= 0 {
					m[w] = l[i+1:]
				}
			}
		}
	default:
		if s.dead {
			panic(toolErr{"solver died"})
		}
	}
	d := time.Since(t0)
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.ns, int64(d))
	switch res {
	case Unsat:
		atomic.AddInt64(&stats.unsat, 1)
	case Sat:
		atomic.AddInt64(&stats.sat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	if debugSlow && d > 2*time.Second {
		fmt.Fprintf(os.Stderr, "slow query %v: %v\n", d, res)
		if dir := os.Getenv("GOVC_DUMP"); dir != "" {
			os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", dir, stats.queries), []byte(s.last), 0o644)
		}
	}
	return res, m, backend
}

var debugSlow = os.Getenv("GOVC_SLOW") != ""

func (s *Solver) fallback(q string) (Res, string) {
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return Unknown, ""
	}
	defer os.Remove(f.Name())
	f.WriteString(q)
	f.Close()
	sec := s.timeout/1000*2 + 2
	type ans struct {
		r Res
		b string
	}
	cs := [][]string{
		{"cvc5", "--lang=smt2", "--incremental", fmt.Sprintf("--tlimit=%d", sec*1000), f.Name()},
		{"z3", fmt.Sprintf("-T:%d", sec), f.Name()},
		{"z3-new", fmt.Sprintf("-T:%d", sec), f.Name()},
		{"z3-new", fmt.Sprintf("-T:%d", sec), "sat.smt=true", f.Name()},
	}
	ch := make(chan ans, len(cs))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, c := range cs {
		go func(c []string) {
			out, _ := exec.CommandContext(ctx, c[0], c[1:]...).Output()
			l := strings.TrimSpace(string(out))
			if i := strings.IndexByte(l, '\n'); i >= 0 {
				l = l[:i]
			}
			switch l {
			case "unsat":
				ch <- ans{Unsat, c[0]}
			case "sat":
				ch <- ans{Sat, c[0]}
			default:
				ch <- ans{Unknown, ""}
			}
		}(c)
	}
	for range cs {
		if a := <-ch; a.r != Unknown {
			return a.r, a.b
		}
	}
	return Unknown, ""
}

// solveEqs eliminates variables fixed by an assumed equation.
func solveEqs(as []*Term, want []*Term) ([]*Term, []*Term, []map[*Term]*Term) {
	var subst []map[*Term]*Term
	var flat []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.op == "and" {
			for _, b := range a.args {
				add(b)
			}
			return
		}
		flat = append(flat, a)
	}
	for _, a := range as {
		add(a)
	}
	for round := 0; round < 40; round++ {
		m := map[*Term]*Term{}
		at := -1
		for i, a := range flat {
			if v, t := solved(a); v != nil {
				m[v] = t
				at = i
				break
			}
		}
		if at < 0 {
			break
		}
		subst = append(subst, m)
		var n []*Term
		for i, a := range flat {
			if i == at {
				continue
			}
			b := Subst(a, m)
			if b == tTrue {
				continue
			}
			if b == tFalse {
				return []*Term{tFalse}, want, nil
			}
			n = append(n, b)
		}
		flat = nil
		for _, a := range n {
			add(a)
		}
		if want != nil {
			w := make([]*Term, 0, len(want))
			for _, t := range want {
				if r := Subst(t, m); !r.isC() {
					w = append(w, r)
				}
			}
			want = w
		}
	}
	return flat, want, subst
}

func occurs(v, t *Term) bool {
	found := false
	subterms([]*Term{t}, func(x *Term) {
		if x == v {
			found = true
		}
	})
	return found
}

// solved: does the assumption define a variable?
func solved(a *Term) (*Term, *Term) {
	if a.op == "var" && a.s == SBool {
		return a, tTrue
	}
	if a.op == "not" && a.args[0].op == "var" {
		return a.args[0], tFalse
	}
	if a.op != "=" {
		return nil, nil
	}
	l, r := a.args[0], a.args[1]
	if l.s == SBytes || l.s == SHeap || l.s == SKind || l.s == SType {
		return nil, nil
	}
	for i := 0; i < 2; i++ {
		if l.op == "var" && !occurs(l, r) {
			return l, r
		}
		l, r = r, l
	}
	if l.s != S64 {
		return nil, nil
	}
	// linear: isolate a variable with coefficient +-1
	d := Sub(l, r)
	if d.op != "lin" {
		return nil, nil
	}
	for i, v := range d.args {
		if v.op != "var" || d.cs[i] != 1 && d.cs[i] != ^uint64(0) {
			continue
		}
		rest := Sub(d, scaleAdd(C64(0), v, d.cs[i]))
		if occurs(v, rest) {
			continue
		}
		if d.cs[i] == 1 {
			return v, Neg(rest)
		}
		return v, rest
	}
	return nil, nil
}
