package main

// Hash-consed logical terms with light simplification. Machine integers are
// bit vectors of their Go width throughout (nothing is treated as unbounded).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Sort string

const (
	SBool  Sort = "Bool"
	S8     Sort = "8"
	S16    Sort = "16"
	S32    Sort = "32"
	S64    Sort = "64"
	SBytes Sort = "Bytes"
	SErr   Sort = "Err"
	SType  Sort = "GType"
	SKind  Sort = "Kind"
	SHeap  Sort = "Heap"
	SArrB  Sort = "ArrB"  // 64 -> Bool
	SArr32 Sort = "Arr32" // 64 -> 32
	SArr64 Sort = "Arr64"
	SArrY  Sort = "ArrY" // 64 -> Bytes
)

func width(s Sort) int {
	switch s {
	case S8:
		return 8
	case S16:
		return 16
	case S32:
		return 32
	case S64:
		return 64
	}
	return 0
}

type Term struct {
	op   string
	s    Sort
	args []*Term
	v    uint64   // const value / extract params
	str  string   // literal text, UF name
	cs   []uint64 // coefficients of lin
	id   int
}

type TermTab struct {
	m map[string]*Term
	n int
}

var tt = &TermTab{m: map[string]*Term{}}

func mk(op string, s Sort, v uint64, str string, cs []uint64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(s))
	fmt.Fprintf(&b, "|%d|%s|", v, str)
	for _, c := range cs {
		fmt.Fprintf(&b, "%d;", c)
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{op: op, s: s, v: v, str: str, cs: cs, args: append([]*Term(nil), args...), id: tt.n}
	tt.m[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func BV(s Sort, v uint64) *Term { return mk("bv", s, v&mask(width(s)), "", nil) }
func C64(v uint64) *Term        { return BV(S64, v) }
func CI(v int64) *Term          { return BV(S64, uint64(v)) }

var tTrue = mk("true", SBool, 0, "", nil)
var tFalse = mk("false", SBool, 0, "", nil)

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// Var is a free constant; UF an application of an uninterpreted function.
func Var(name string, s Sort) *Term { return mk("var", s, 0, name, nil) }

var freshN = 0

func Fresh(hint string, s Sort) *Term {
	freshN++
	return Var(fmt.Sprintf("%s!%d", hint, freshN), s)
}
func UF(name string, s Sort, args ...*Term) *Term { return mk("uf", s, 0, name, nil, args...) }

func (t *Term) isC() bool          { return t.op == "bv" }
func (t *Term) isUF(n string) bool { return t.op == "uf" && t.str == n }

// ---- booleans
func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", SBool, 0, "", nil, a)
}
func nary(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, SBool, 0, "", nil, out...)
}
func And(xs ...*Term) *Term { return nary("and", tTrue, tFalse, xs) }
func Or(xs ...*Term) *Term  { return nary("or", tFalse, tTrue, xs) }
func Imp(a, b *Term) *Term  { return Or(Not(a), b) }
func Iff(a, b *Term) *Term  { return Eq(a, b) }
func Ne(a, b *Term) *Term   { return Not(Eq(a, b)) }
func isCtor(t *Term) bool   { return t.op == "ctor" }
func distinctConsts(a, b *Term) bool {
	if a.op == "bv" && a.v == 0 && b.op == "var" && strings.HasPrefix(b.str, "obj") && !strings.Contains(b.str, "!") {
		return true // a local object is not nil
	}
	if b.op == "bv" && b.v == 0 && a.op == "var" && strings.HasPrefix(a.str, "obj") && !strings.Contains(a.str, "!") {
		return true
	}
	if a.op == "bv" && b.op == "bv" {
		return a.v != b.v
	}
	if isCtor(a) && isCtor(b) && a.str != b.str {
		return true
	}
	if a.op == "strc" && b.op == "strc" {
		return a.str != b.str
	}
	if a.op == "gtc" && b.op == "gtc" {
		return a.str != b.str
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a.s != b.s {
		panic(fmt.Sprintf("Eq sort mismatch: %v:%s vs %v:%s", a, a.s, b, b.s))
	}
	if a == b {
		return tTrue
	}
	if distinctConsts(a, b) {
		return tFalse
	}
	if a.s == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) && a.str == b.str {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.s == SBytes {
		if a == eps {
			return Eq(Blen(b), C64(0))
		}
		if b == eps {
			return Eq(Blen(a), C64(0))
		}
	}
	if a.s == S64 && a.op != "ite" && b.op != "ite" { // compare linear forms
		d := Sub(a, b)
		if d.isC() {
			return B(d.v == 0)
		}
	}
	if b.op == "ite" && a.op != "ite" {
		a, b = b, a
	}
	if a.op == "ite" && (b.isC() || b.op == "strc" || isCtor(b) || b.op == "gtc") {
		l, r := Eq(a.args[1], b), Eq(a.args[2], b)
		if (l == tTrue || l == tFalse) || (r == tTrue || r == tFalse) {
			return Ite(a.args[0], l, r)
		}
	}
	if b.isC() && a.op == "zext" {
		if b.v > mask(width(a.args[0].s)) {
			return tFalse
		}
		return Eq(a.args[0], BV(a.args[0].s, b.v))
	}
	if a.isC() && b.op == "zext" {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, 0, "", nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if a.s != b.s {
		panic(fmt.Sprintf("Ite sort mismatch %v / %v", a, b))
	}
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.s == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	return mk("ite", a.s, 0, "", nil, c, a, b)
}

// Case is an if-then-else whose first branch carries a label; the prover
// reports the labels of the specification case a failed obligation lies in.
func Case(label string, c, a, b *Term) *Term {
	if c == tTrue || c == tFalse || a == b {
		// keep the label on the chosen branch
		if c == tFalse {
			return b
		}
		return Lab(label, a)
	}
	return mk("ite", a.s, 0, "", nil, c, Lab(label, a), b)
}
func Lab(label string, a *Term) *Term {
	if label == "" {
		return a
	}
	return mk("lab", a.s, 0, label, nil, a)
}

// ---- 64-bit linear normal form
func linOf(t *Term) (map[int]*Term, map[int]uint64, uint64) {
	m := map[int]*Term{}
	c := map[int]uint64{}
	var k uint64
	switch {
	case t.isC():
		k = t.v
	case t.op == "lin":
		k = t.v
		for i, a := range t.args {
			m[a.id] = a
			c[a.id] = t.cs[i]
		}
	default:
		m[t.id] = t
		c[t.id] = 1
	}
	return m, c, k
}
func mkLin(m map[int]*Term, c map[int]uint64, k uint64) *Term {
	var ids []int
	for id := range m {
		if c[id] != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return C64(k)
	}
	sort.Ints(ids)
	if len(ids) == 1 && k == 0 && c[ids[0]] == 1 {
		return m[ids[0]]
	}
	var as []*Term
	var cs []uint64
	for _, id := range ids {
		as = append(as, m[id])
		cs = append(cs, c[id])
	}
	return mk("lin", S64, k, "", cs, as...)
}
func scaleAdd(a *Term, b *Term, f uint64) *Term {
	m, c, k := linOf(a)
	m2, c2, k2 := linOf(b)
	for id, t := range m2 {
		m[id] = t
		c[id] += f * c2[id]
	}
	return mkLin(m, c, k+f*k2)
}

func Add(a, b *Term) *Term {
	if a.s == S64 {
		return scaleAdd(a, b, 1)
	}
	return bin("bvadd", a, b)
}
func Sub(a, b *Term) *Term {
	if a.s == S64 {
		return scaleAdd(a, b, ^uint64(0))
	}
	return bin("bvsub", a, b)
}
func Mul(a, b *Term) *Term {
	if a.s == S64 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			return scaleAdd(C64(0), a, b.v)
		}
	}
	return bin("bvmul", a, b)
}
func Neg(a *Term) *Term { return Sub(BV(a.s, 0), a) }

func sx(v uint64, w int) int64 { return int64(v<<(64-uint(w))) >> (64 - uint(w)) }

func fold(op string, w int, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case "bvadd":
		return (x + y) & m, true
	case "bvsub":
		return (x - y) & m, true
	case "bvmul":
		return (x * y) & m, true
	case "bvand":
		return x & y, true
	case "bvor":
		return x | y, true
	case "bvxor":
		return x ^ y, true
	case "bvshl":
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case "bvlshr":
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case "bvashr":
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	case "bvudiv":
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case "bvurem":
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case "bvsdiv":
		if y == 0 {
			return 0, false
		}
		return uint64(sx(x, w)/sx(y, w)) & m, true
	case "bvsrem":
		if y == 0 {
			return 0, false
		}
		return uint64(sx(x, w)%sx(y, w)) & m, true
	}
	return 0, false
}

func bin(op string, a, b *Term) *Term {
	if a.s != b.s {
		panic(fmt.Sprintf("bin %s sorts %s %s", op, a.s, b.s))
	}
	w := width(a.s)
	if a.isC() && b.isC() {
		if r, ok := fold(op, w, a.v, b.v); ok {
			return BV(a.s, r)
		}
	}
	switch op {
	case "bvurem": // a type's size is a multiple of its alignment
		if a.isUF("lstride") && b.isUF("lalign") && a.args[0] == b.args[0] {
			return BV(a.s, 0)
		}
	case "bvand":
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.v == 0 {
			return b
		}
		if b.isC() && b.v == mask(w) {
			return a
		}
		if a == b {
			return a
		}
		if b.isC() && a.op == "zext" && b.v&mask(width(a.args[0].s)) == mask(width(a.args[0].s)) {
			return a
		}
	case "bvor":
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.v == 0 {
			return a
		}
		if a == b {
			return a
		}
	case "bvxor":
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.v == 0 {
			return a
		}
	case "bvshl", "bvlshr", "bvashr":
		if b.isC() && b.v == 0 {
			return a
		}
		if op != "bvashr" && b.isC() && b.v >= uint64(w) {
			return BV(a.s, 0)
		}
	case "bvudiv", "bvsdiv":
		if b.isC() && b.v == 1 {
			return a
		}
	}
	if (op == "bvand" || op == "bvor" || op == "bvxor" || op == "bvadd" || op == "bvmul") && a.id > b.id {
		a, b = b, a
	}
	return mk(op, a.s, 0, "", nil, a, b)
}

func BvAnd(a, b *Term) *Term { return bin("bvand", a, b) }
func BvOr(a, b *Term) *Term  { return bin("bvor", a, b) }
func BvXor(a, b *Term) *Term { return bin("bvxor", a, b) }
func Shl(a, b *Term) *Term   { return bin("bvshl", a, b) }
func Lshr(a, b *Term) *Term  { return bin("bvlshr", a, b) }
func Ashr(a, b *Term) *Term  { return bin("bvashr", a, b) }
func BvNot(a *Term) *Term    { return BvXor(a, BV(a.s, mask(width(a.s)))) }

func cmp(op string, a, b *Term) *Term {
	if a.s != b.s {
		panic(fmt.Sprintf("cmp %s sorts %s %s", op, a.s, b.s))
	}
	w := width(a.s)
	if a.isC() && b.isC() {
		switch op {
		case "bvult":
			return B(a.v < b.v)
		case "bvule":
			return B(a.v <= b.v)
		case "bvslt":
			return B(sx(a.v, w) < sx(b.v, w))
		case "bvsle":
			return B(sx(a.v, w) <= sx(b.v, w))
		}
	}
	if a == b {
		return B(op == "bvule" || op == "bvsle")
	}
	if op == "bvult" && b.isC() && b.v == 0 {
		return tFalse
	}
	if op == "bvule" && a.isC() && a.v == 0 {
		return tTrue
	}
	return mk(op, SBool, 0, "", nil, a, b)
}
func Ult(a, b *Term) *Term { return cmp("bvult", a, b) }
func Ule(a, b *Term) *Term { return cmp("bvule", a, b) }
func Slt(a, b *Term) *Term { return cmp("bvslt", a, b) }
func Sle(a, b *Term) *Term { return cmp("bvsle", a, b) }

func sortOfWidth(w int) Sort {
	switch w {
	case 8:
		return S8
	case 16:
		return S16
	case 32:
		return S32
	case 64:
		return S64
	}
	panic(fmt.Sprintf("width %d", w))
}
func Zext(a *Term, s Sort) *Term {
	if a.s == s {
		return a
	}
	if a.isC() {
		return BV(s, a.v)
	}
	if a.op == "zext" {
		a = a.args[0]
	}
	return mk("zext", s, 0, "", nil, a)
}
func Sext(a *Term, s Sort) *Term {
	if a.s == s {
		return a
	}
	if a.isC() {
		return BV(s, uint64(sx(a.v, width(a.s))))
	}
	return mk("sext", s, 0, "", nil, a)
}
func Trunc(a *Term, s Sort) *Term {
	if a.s == s {
		return a
	}
	if a.isC() {
		return BV(s, a.v)
	}
	if a.op == "zext" || a.op == "sext" {
		in := a.args[0]
		if in.s == s {
			return in
		}
		if width(in.s) > width(s) {
			return Trunc(in, s)
		}
		if a.op == "zext" {
			return Zext(in, s)
		}
		return Sext(in, s)
	}
	return mk("trunc", s, 0, "", nil, a)
}

// ---- Bytes: strings of octets
var eps = mk("eps", SBytes, 0, "", nil)

func Cat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		switch x.op {
		case "eps":
		case "cat":
			out = append(out, x.args...)
		default:
			out = append(out, x)
		}
	}
	// merge adjacent literals
	var o2 []*Term
	for _, x := range out {
		if n := len(o2); n > 0 && x.op == "strc" && o2[n-1].op == "strc" {
			o2[n-1] = StrC(o2[n-1].str + x.str)
			continue
		}
		o2 = append(o2, x)
	}
	if len(o2) == 0 {
		return eps
	}
	if len(o2) == 1 {
		return o2[0]
	}
	return mk("cat", SBytes, 0, "", nil, o2...)
}
func atoms(x *Term) []*Term {
	switch x.op {
	case "eps":
		return nil
	case "cat":
		return x.args
	}
	return []*Term{x}
}
func Unit(b *Term) *Term { return mk("unit", SBytes, 0, "", nil, b) }
func StrC(s string) *Term {
	if s == "" {
		return eps
	}
	return mk("strc", SBytes, 0, s, nil)
}
func Encv(v *Term) *Term { return mk("encv", SBytes, 0, "", nil, v) }
func LE(v *Term) *Term {
	if v.s == S32 {
		return mk("le32", SBytes, 0, "", nil, v)
	}
	return mk("le64", SBytes, 0, "", nil, v)
}
func Blen(x *Term) *Term {
	switch x.op {
	case "eps":
		return C64(0)
	case "unit":
		return C64(1)
	case "strc":
		return C64(uint64(len(x.str)))
	case "encv":
		return Vlen(x.args[0])
	case "le32":
		return C64(4)
	case "le64":
		return C64(8)
	case "bsl":
		return Sub(x.args[2], x.args[1])
	case "cat":
		s := C64(0)
		for _, a := range x.args {
			s = Add(s, Blen(a))
		}
		return s
	case "ite":
		return Ite(x.args[0], Blen(x.args[1]), Blen(x.args[2]))
	case "lab":
		return Blen(x.args[0])
	}
	return mk("blen", S64, 0, "", nil, x)
}

// Root/extent view of a byte string used as decoder input.
func extent(x *Term) (root, lo, hi *Term) {
	if x.op == "bsl" {
		return x.args[0], x.args[1], x.args[2]
	}
	return x, C64(0), Blen(x)
}
func Bsl(x, lo, hi *Term) *Term {
	r, l, _ := extent(x)
	nl, nh := Add(l, lo), Add(l, hi)
	if nl == nh {
		return eps
	}
	if nl.isC() && nl.v == 0 && nh == Blen(r) {
		return r
	}
	if r.op == "cat" && nl.isC() && nh.isC() && nl.v < nh.v {
		// whole pieces of known length
		var out []*Term
		pos := uint64(0)
		for _, a := range r.args {
			if pos >= nh.v {
				break
			}
			n := Blen(a)
			if !n.isC() || pos < nl.v && pos+n.v > nl.v {
				out = nil
				break
			}
			if pos >= nl.v {
				out = append(out, a)
			}
			pos += n.v
		}
		if pos == nh.v && out != nil {
			return Cat(out...)
		}
	}
	return mk("bsl", SBytes, 0, "", nil, r, nl, nh)
}
func Bidx(x, i *Term) *Term {
	if x.op == "strc" && i.isC() && i.v < uint64(len(x.str)) {
		return BV(S8, uint64(x.str[i.v]))
	}
	if x.op == "unit" {
		return x.args[0]
	}
	r, l, _ := extent(x)
	return mk("bidx", S8, 0, "", nil, r, Add(l, i))
}

func vlenC(v uint64) uint64 {
	n := uint64(bits.Len64(v|1)+6) / 7
	return n
}

// Vlen is the length of the minimal varint of v.
func Vlen(v *Term) *Term {
	if v.isC() {
		return C64(vlenC(v.v))
	}
	return mk("vlen", S64, 0, "", nil, v)
}

// Vbyte is octet i (a constant) of an n-octet minimal varint.
func Vbyte(v *Term, i, n int) *Term {
	x := Trunc(Lshr(v, C64(uint64(7*i))), S8)
	x = BvAnd(x, BV(S8, 0x7f))
	if i < n-1 {
		x = BvOr(x, BV(S8, 0x80))
	}
	return x
}

// ---- arrays and the user heap
func Select(a, i *Term) *Term {
	for a.op == "store" {
		d := Sub(a.args[1], i)
		if d.isC() {
			if d.v == 0 {
				return a.args[2]
			}
			a = a.args[0]
			continue
		}
		break
	}
	var s Sort
	switch a.s {
	case SArrB:
		s = SBool
	case SArr32:
		s = S32
	case SArr64:
		s = S64
	case SArrY:
		s = SBytes
	}
	return mk("select", s, 0, "", nil, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.s, 0, "", nil, a, i, v)
}

var heapParts = []struct {
	n string
	s Sort
}{{"b", SArrB}, {"w", SArr32}, {"d", SArr64}, {"p", SArr64}, {"s", SArrY}, {"yn", SArrB}, {"yc", SArrY}}

func hpart(h *Term, n string) *Term {
	for i, p := range heapParts {
		if p.n == n {
			if h.op == "H" {
				return h.args[i]
			}
			return mk("hsel", p.s, 0, n, nil, h)
		}
	}
	panic("hpart " + n)
}
func hset(h *Term, n string, a *Term) *Term {
	args := make([]*Term, len(heapParts))
	for i, p := range heapParts {
		args[i] = hpart(h, p.n)
		if p.n == n {
			args[i] = a
		}
	}
	// normalise mkH(sel h ...) back to h
	if args[0].op == "hsel" {
		base := args[0].args[0]
		ok := true
		for i, p := range heapParts {
			if !(args[i].op == "hsel" && args[i].str == p.n && args[i].args[0] == base) {
				ok = false
			}
		}
		if ok {
			return base
		}
	}
	return mk("H", SHeap, 0, "", nil, args...)
}

// Ctor builds Err and Kind constructor terms.
func Ctor(s Sort, name string, args ...*Term) *Term { return mk("ctor", s, 0, name, nil, args...) }

// ---- rewriting
func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.args[i] {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "lab":
		return Lab(t.str, args[0])
	case "lin":
		r := C64(t.v)
		for i, a := range args {
			r = scaleAdd(r, a, t.cs[i])
		}
		return r
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		return bin(t.op, args[0], args[1])
	case "bvult", "bvule", "bvslt", "bvsle":
		return cmp(t.op, args[0], args[1])
	case "zext":
		return Zext(args[0], t.s)
	case "sext":
		return Sext(args[0], t.s)
	case "trunc":
		return Trunc(args[0], t.s)
	case "cat":
		return Cat(args...)
	case "blen":
		return Blen(args[0])
	case "bsl":
		return Bsl(args[0], args[1], args[2])
	case "bidx":
		return Bidx(args[0], args[1])
	case "vlen":
		return Vlen(args[0])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "hsel":
		return hpart(args[0], t.str)
	case "uf":
		return reUF(t.str, t.s, args)
	}
	return mk(t.op, t.s, t.v, t.str, t.cs, args...)
}

// reUF re-applies unfolding rules of specification functions after their
// arguments changed (set up by spec.go).
var reUF = func(name string, s Sort, args []*Term) *Term { return UF(name, s, args...) }

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = f(a)
		}
		r := rebuild(t, args)
		memo[t] = r
		return r
	}
	return f(t)
}

func subterms(ts []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// String renders a term for reports.
func (t *Term) String() string {
	return render(t, 0)
}
func render(t *Term, d int) string {
	if d > 14 {
		return "..."
	}
	switch t.op {
	case "bv":
		if t.s == S64 {
			return fmt.Sprintf("%d", int64(t.v))
		}
		return fmt.Sprintf("%d", t.v)
	case "var":
		return t.str
	case "strc":
		return fmt.Sprintf("%q", t.str)
	case "gtc":
		return t.str
	case "lab":
		return render(t.args[0], d)
	case "lin":
		var s []string
		for i, a := range t.args {
			x := render(a, d+1)
			if t.cs[i] != 1 {
				x = fmt.Sprintf("%d*%s", int64(t.cs[i]), x)
			}
			s = append(s, x)
		}
		if t.v != 0 {
			s = append(s, fmt.Sprintf("%d", int64(t.v)))
		}
		return "(" + strings.Join(s, " + ") + ")"
	}
	n := t.op
	if t.op == "uf" || t.op == "ctor" {
		n = t.str
	}
	if t.op == "hsel" {
		n = "heap." + t.str
	}
	if len(t.args) == 0 {
		return n
	}
	var s []string
	for _, a := range t.args {
		s = append(s, render(a, d+1))
	}
	return "(" + n + " " + strings.Join(s, " ") + ")"
}

// resetTerms forgets every term made since the mark, so that each task is
// independent of those before it.
var termMark = 0

func markTerms() { termMark = tt.n }
func resetTerms() {
	if termMark == 0 {
		markTerms()
		return
	}
	for k, t := range tt.m {
		if t.id > termMark {
			delete(tt.m, k)
		}
	}
	tt.n = termMark
	freshN = 0
	heavyMemo = map[int]bool{}
}
