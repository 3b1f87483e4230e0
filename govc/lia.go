package main

// A second translation of queries, into linear integer arithmetic: 64-bit
// terms become integers in the signed range, sums carry an explicit wrap
// count, and every other 64-bit operation is left uninterpreted (with range
// facts). Each bit-vector model gives a model of the translation, so "unsat"
// carries over; other answers are ignored.

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"time"
)

var bv64 = regexp.MustCompile(`\(_ BitVec 64\)`)

func liaPrelude() string {
	p := bv64.ReplaceAllString(prelude, "Int")
	a := strings.Index(p, "(define-fun vlen")
	b := strings.Index(p, "(define-fun e.class")
	return p[:a] + "(declare-fun vlen (Int) Int)\n" + p[b:]
}

func liaSort(s Sort) string {
	if s == S64 {
		return "Int"
	}
	return bv64.ReplaceAllString(smtSort(s), "Int")
}

func liaConst(v uint64) string {
	i := int64(v)
	if i < 0 {
		return fmt.Sprintf("(- %s)", new(big.Int).Neg(big.NewInt(i)).String())
	}
	return fmt.Sprint(i)
}

const minI, maxI = "(- 9223372036854775808)", "9223372036854775807"

func (s *Solver) liaName(t *Term) string {
	a := func(i int) string { return s.name(t.args[i]) }
	all := func() string {
		var xs []string
		for i := range t.args {
			xs = append(xs, a(i))
		}
		return strings.Join(xs, " ")
	}
	decl := func(n string, args []*Term, res Sort) string {
		q := "|" + n + "|"
		if !s.decl[n] {
			s.decl[n] = true
			var as []string
			for _, x := range args {
				as = append(as, liaSort(x.s))
			}
			s.defs(fmt.Sprintf("(declare-fun %s (%s) %s)\n", q, strings.Join(as, " "), liaSort(res)))
		}
		return q
	}
	lo, hi := "", ""
	if t.s == S64 {
		lo, hi = minI, maxI
	}
	e := ""
	opaque := func() { // an operation without meaning here
		ss := ""
		for _, x := range t.args {
			ss += "." + string(x.s)
		}
		e = "(" + decl("op."+t.op+ss+"."+string(t.s), t.args, t.s) + " " + all() + ")"
	}
	rng := func(h uint64) { lo, hi = "0", fmt.Sprint(h) }
	switch t.op {
	case "bv":
		if t.s == S64 {
			return liaConst(t.v)
		}
		return hexBV(t.v, width(t.s))
	case "var":
		e = decl("v."+t.str, nil, t.s)
	case "uf":
		e = decl(t.str, t.args, t.s)
		if len(t.args) > 0 {
			e = "(" + e + " " + all() + ")"
		}
	case "strc":
		e := decl("str."+fmt.Sprintf("%x", t.str), nil, SBytes)
		s.def[t.id] = e
		s.defs(fmt.Sprintf("(assert (= (b.len %s) %d))\n", e, len(t.str)))
		for _, o := range s.strs {
			s.defs(fmt.Sprintf("(assert (distinct %s %s))\n", e, o))
		}
		s.strs = append(s.strs, e)
		return e
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		if t.s != S64 {
			e = "(" + t.op + " " + all() + ")"
			break
		}
		opaque()
		switch {
		case t.op == "bvand":
			for _, y := range t.args {
				if y.isC() && int64(y.v) >= 0 {
					rng(y.v)
				}
			}
		case t.op == "bvlshr" && t.args[1].isC() && t.args[1].v > 0 && t.args[1].v < 64:
			rng(^uint64(0) >> t.args[1].v)
		}
	case "bvult", "bvule", "bvslt", "bvsle":
		if t.args[0].s != S64 {
			e = "(" + t.op + " " + all() + ")"
			break
		}
		op := "<"
		if t.op == "bvule" || t.op == "bvsle" {
			op = "<="
		}
		x, y := a(0), a(1)
		if t.op == "bvslt" || t.op == "bvsle" {
			e = fmt.Sprintf("(%s %s %s)", op, x, y)
		} else {
			e = fmt.Sprintf("(ite (< %s 0) (and (< %s 0) (%s %s %s)) (or (< %s 0) (%s %s %s)))", x, y, op, x, y, y, op, x, y)
		}
	case "lin":
		var xs []string
		k := uint64(1)
		for i := range t.args {
			x := a(i)
			c := int64(t.cs[i])
			if c != 1 {
				x = fmt.Sprintf("(* %s %s)", liaConst(t.cs[i]), x)
			}
			if c < 0 {
				c = -c
			}
			k += uint64(c)
			xs = append(xs, x)
		}
		if t.v != 0 {
			xs = append(xs, liaConst(t.v))
		}
		sum := xs[0]
		if len(xs) > 1 {
			sum = "(+ " + strings.Join(xs, " ") + ")"
		}
		n := fmt.Sprintf("t%d", t.id)
		w := fmt.Sprintf("w%d", t.id)
		s.defs(fmt.Sprintf("(declare-fun %s () Int)\n(define-fun %s () Int (- %s (* 18446744073709551616 %s)))\n(assert (and (<= %s %s) (<= %s %s)))\n",
			w, n, sum, w, minI, n, n, maxI))
		_ = k
		s.def[t.id] = n
		return n
	case "zext":
		opaque()
		if t.s == S64 {
			rng(mask(width(t.args[0].s)))
		} else {
			e = fmt.Sprintf("((_ zero_extend %d) %s)", width(t.s)-width(t.args[0].s), a(0))
		}
	case "sext":
		if t.s == S64 {
			opaque()
			h := mask(width(t.args[0].s)) >> 1
			lo, hi = fmt.Sprintf("(- %d)", h+1), fmt.Sprint(h)
		} else {
			e = fmt.Sprintf("((_ sign_extend %d) %s)", width(t.s)-width(t.args[0].s), a(0))
		}
	case "trunc":
		if t.args[0].s == S64 {
			opaque()
		} else {
			e = fmt.Sprintf("((_ extract %d 0) %s)", width(t.s)-1, a(0))
		}
	case "vlen":
		e = "(vlen " + all() + ")"
		lo, hi = "1", "10"
	case "blen":
		e = "(b.len " + all() + ")"
		lo, hi = "0", "281474976710655"
	}
	n := fmt.Sprintf("t%d", t.id)
	if t.op == "var" || t.op == "uf" && len(t.args) == 0 {
		n = e
	} else {
		s.defs(fmt.Sprintf("(define-fun %s () %s %s)\n", n, liaSort(t.s), e))
	}
	s.def[t.id] = n
	if lo != "" {
		s.defs(fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))\n", lo, n, n, hi))
	}
	return n
}

func (s *Solver) askLia(all []*Term, t0 time.Time) Res {
	if s.lia {
		return Unknown
	}
	if s.alt == nil || s.alt.dead {
		s.alt = &Solver{def: map[int]string{}, decl: map[string]bool{}, timeout: s.timeout, lia: true}
		s.alt.start()
	}
	tmo := 2500
	if s.quick {
		tmo = 600
	}
	r, _, _ := s.alt.ask(all, nil, tmo, time.Now())
	return r
}

var liaOp = map[string]bool{"bv": true, "var": true, "uf": true, "strc": true, "bvadd": true, "bvsub": true, "bvmul": true, "bvand": true, "bvor": true, "bvxor": true, "bvshl": true, "bvlshr": true, "bvashr": true, "bvudiv": true, "bvurem": true, "bvsdiv": true, "bvsrem": true, "bvult": true, "bvule": true, "bvslt": true, "bvsle": true, "lin": true, "zext": true, "sext": true, "trunc": true, "vlen": true, "blen": true}
