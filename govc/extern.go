package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the repository. Each is part of the trusted
// base and reported in the evidence of every property that uses it.

func (x *Exec) extern(st *State, fn *ssa.Function, name string, args []Val, pos string, k K) {
	t := func(i int) *Term {
		if v, ok := x.asTerm(st, args[i]); ok {
			return v
		}
		x.fail(pos, "%s: argument %d is %T", name, i, args[i])
		return nil
	}
	le := func(w int, big bool) {
		b, ok := args[1].(BytesV)
		if !ok {
			x.fail(pos, "%s of %T", name, args[1])
		}
		n := w / 8
		x.safe(st, "index in range", Ule(C64(uint64(n)), x.blenOf(st, b)), pos)
		s := sortOfWidth(w)
		c := x.cont(st, b)
		r := BV(s, 0)
		for i := 0; i < n; i++ {
			sh := 8 * i
			if big {
				sh = 8 * (n - 1 - i)
			}
			r = BvOr(r, Shl(Zext(byteAt(c, C64(uint64(i))), s), BV(s, uint64(sh))))
		}
		k(st, r)
	}
	app := func(big bool) {
		b := args[1].(BytesV)
		v := t(2)
		var c *Term
		n := width(v.s) / 8
		if !big {
			c = LE(v)
			if width(v.s) == 16 {
				c = Cat(Unit(Trunc(v, S8)), Unit(Trunc(Lshr(v, BV(S16, 8)), S8)))
			}
		} else {
			var u []*Term
			for i := n - 1; i >= 0; i-- {
				u = append(u, Unit(Trunc(Lshr(v, BV(v.s, uint64(8*i))), S8)))
			}
			c = Cat(u...)
		}
		x.wrote(st, b, pos)
		prov := b.prov
		if b.nl == tTrue || prov == "" {
			prov = "fresh"
		}
		k(st, BytesV{nl: tFalse, c: Cat(x.cont(st, b), c), prov: prov})
	}
	put := func(big bool) {
		b := args[1].(BytesV)
		v := t(2)
		n := width(v.s) / 8
		x.safe(st, "index in range", Ule(C64(uint64(n)), x.blenOf(st, b)), pos)
		if b.obj == 0 {
			x.fail(pos, "%s into a slice that is not local", name)
		}
		for i := 0; i < n; i++ {
			sh := 8 * i
			if big {
				sh = 8 * (n - 1 - i)
			}
			c := st.objs[b.obj].(BufC).c
			st.objs[b.obj] = BufC{setByte(c, Add(b.lo, C64(uint64(i))), Trunc(Lshr(v, BV(v.s, uint64(sh))), S8))}
		}
		k(st, nil)
	}
	base := name
	if i := strings.IndexByte(base, '['); i >= 0 {
		base = base[:i]
	}
	switch base {
	case "slices.Clip", "slices.Grow":
		if base == "slices.Grow" {
			x.safe(st, "argument of slices.Grow not negative", Sle(C64(0), t(1)), pos)
		}
		switch a := args[0].(type) {
		case ListV:
			k(st, a)
			return
		case BytesV:
			if base == "slices.Clip" || a.nl == tFalse {
				k(st, a)
				return
			}
		}
	case "slices.Clone", "bytes.Clone":
		switch a := args[0].(type) {
		case ListV:
			k(st, a)
			return
		case BytesV:
			k(st, BytesV{nl: a.nl, c: x.cont(st, a), prov: "fresh"})
			return
		}
	}
	switch name {
	case "math/bits.Len64":
		k(st, bitsLen(t(0)))
		return
	case "math/bits.Len", "math/bits.Len32":
		k(st, bitsLen(Zext(t(0), S64)))
		return
	case "math/bits.LeadingZeros64":
		k(st, Sub(C64(64), bitsLen(t(0))))
		return
	case "math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits":
		k(st, t(0))
		return
	case "math.Signbit":
		a := t(0)
		if a.isUF("f32to64") {
			k(st, Eq(Lshr(a.args[0], BV(S32, 31)), BV(S32, 1)))
			return
		}
		k(st, Eq(Lshr(a, C64(63)), C64(1)))
		return
	case "(encoding/binary.littleEndian).Uint16":
		le(16, false)
		return
	case "(encoding/binary.littleEndian).Uint32":
		le(32, false)
		return
	case "(encoding/binary.littleEndian).Uint64":
		le(64, false)
		return
	case "(encoding/binary.bigEndian).Uint32":
		le(32, true)
		return
	case "(encoding/binary.bigEndian).Uint64":
		le(64, true)
		return
	case "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint64":
		app(false)
		return
	case "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint64":
		app(true)
		return
	case "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		put(false)
		return
	case "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		put(true)
		return
	case "encoding/binary.AppendUvarint":
		b := args[0].(BytesV)
		x.wrote(st, b, pos)
		prov := b.prov
		if b.nl == tTrue || prov == "" {
			prov = "fresh"
		}
		k(st, BytesV{nl: tFalse, c: Cat(x.cont(st, b), Encv(t(1))), prov: prov})
		return
	case "errors.New":
		k(st, errClass(4))
		return
	case "fmt.Errorf":
		k(st, x.errorf(st, args, pos))
		return
	case "fmt.Sprintf", "fmt.Sprint":
		k(st, x.sprintf(st, args, pos))
		return
	case "strings.Split", "strings.SplitN":
		if s, ok := args[0].(*Term); ok {
			if sep, ok := args[1].(*Term); ok && sep == StrC(",") {
				x.splitComma(st, name, s, args, pos, k)
				return
			}
		}
	case "strconv.Atoi":
		s := t(0)
		n, ok := x.atoi(s)
		e := Ite(ok, eNil, errClass(4))
		k(st, TupleV{n, e})
		return
	case "strconv.Itoa":
		k(st, mkItoa(t(0)))
		return
	case "strconv.FormatInt", "strconv.FormatUint":
		if b := t(1); b.isC() && b.v == 10 {
			v := t(0)
			if name == "strconv.FormatInt" || x.p.entails(st.pc, Sle(C64(0), v)) {
				k(st, mkItoa(v))
			} else {
				k(st, Fresh("utoa", SBytes))
			}
			return
		}
	case "reflect.TypeOf":
		switch a := args[0].(type) {
		case IfaceV:
			if a.nilv {
				k(st, nilType)
				return
			}
			if a.kind == "user" {
				k(st, UF("itype", SType, a.sym))
				return
			}
			if a.dyn != nil {
				k(st, gtcOf(a.dyn))
				return
			}
		}
	case "strings.HasPrefix":
		if a, b := t(0), t(1); b.op == "strc" {
			if a.op == "strc" {
				k(st, B(strings.HasPrefix(a.str, b.str)))
				return
			}
		}
	case "strings.Contains":
		if a, b := t(0), t(1); a.op == "strc" && b.op == "strc" {
			k(st, B(strings.Contains(a.str, b.str)))
			return
		}
	case "errors.Is", "errors.As":
		k(st, Fresh("erris", SBool))
		return
	case "(encoding/binary.littleEndian).String":
	}
	if x.extern2(st, fn, name, args, pos, k) {
		return
	}
	if x.builder(st, fn, name, args, pos, k) {
		return
	}
	if x.gen && x.libExtern(st, fn, name, args, pos, k) {
		return
	}
	x.fail(pos, "call of external function %s", name)
}

func mkItoa(n *Term) *Term { return mk("itoa", SBytes, 0, "", nil, n) }

func bitsLen(v *Term) *Term {
	if v.isC() {
		n := uint64(0)
		for w := v.v; w != 0; w >>= 1 {
			n++
		}
		return C64(n)
	}
	r := C64(0)
	for i := 0; i < 64; i++ {
		r = Ite(Ult(v, C64(1<<uint(i))), C64(uint64(i)), nil2(r, i))
	}
	// built from the top: smallest i with v < 2^i
	r = C64(64)
	for i := 63; i >= 0; i-- {
		r = Ite(Ult(v, C64(1<<uint(i))), C64(uint64(i)), r)
	}
	return r
}
func nil2(t *Term, i int) *Term { return t }

// variadic elements of a call like fmt.Errorf.
func (x *Exec) variadic(st *State, v Val) []Val {
	s, ok := v.(SeqV)
	if !ok || s.obj <= 0 {
		return nil
	}
	c, ok := st.objs[s.obj].(SeqC)
	if !ok {
		return nil
	}
	return c.items
}

func (x *Exec) errorf(st *State, args []Val, pos string) *Term {
	f, ok := args[0].(*Term)
	if !ok || f.op != "strc" || !strings.Contains(f.str, "%w") {
		return errClass(4)
	}
	// wraps the operand of %w
	n := 0
	for i := 0; i+1 < len(f.str); i++ {
		if f.str[i] == '%' {
			if f.str[i+1] == 'w' {
				vs := x.variadic(st, args[1])
				if n < len(vs) {
					switch e := vs[n].(type) {
					case *Term:
						if e.s == SErr {
							return Ctor(SErr, "EPlain", Ecls(e))
						}
					case IfaceV:
						if t, ok := e.v.(*Term); ok && t.s == SErr {
							return Ctor(SErr, "EPlain", Ecls(t))
						}
					}
				}
				break
			}
			if f.str[i+1] == '%' {
				i++
				continue
			}
			n++
		}
	}
	return errClass(4)
}

// sprintf renders %s and %d of strings and integers symbolically.
func (x *Exec) sprintf(st *State, args []Val, pos string) *Term {
	f, ok := args[0].(*Term)
	if !ok || f.op != "strc" || len(args) < 2 {
		return Fresh("sprintf", SBytes)
	}
	vs := x.variadic(st, args[1])
	var out []*Term
	n := 0
	s := f.str
	for i := 0; i < len(s); i++ {
		if s[i] != '%' || i+1 >= len(s) {
			out = append(out, StrC(s[i:i+1]))
			continue
		}
		i++
		switch s[i] {
		case '%':
			out = append(out, StrC("%"))
		case 's', 'd', 'v':
			if n >= len(vs) {
				return Fresh("sprintf", SBytes)
			}
			var t *Term
			if iv, ok := vs[n].(IfaceV); ok {
				if tv, ok := iv.v.(*Term); ok {
					if tv.s == SBytes && hasNoString(iv.dyn) {
						t = tv
					} else if _, sg, ok := intWidth(iv.dyn); ok && hasNoString(iv.dyn) && s[i] != 's' {
						if tv.s == S64 && (sg || x.p.entails(st.pc, Sle(C64(0), tv))) {
							t = mkItoa(tv)
						} else if tv.s == S64 {
							t = Fresh("utoa", SBytes)
						} else if sg {
							t = mkItoa(Sext(tv, S64))
						} else {
							t = mkItoa(Zext(tv, S64))
						}
					}
				}
			}
			n++
			if t == nil {
				t = Fresh("fmt", SBytes)
			}
			out = append(out, t)
		default:
			n++
			out = append(out, Fresh("fmt", SBytes))
		}
	}
	return Cat(out...)
}

func hasNoString(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i).Name(); m == "String" || m == "Error" || m == "Format" {
			return false
		}
	}
	return true
}

// atoi: value and success as functions of the text.
func (x *Exec) atoi(s *Term) (*Term, *Term) {
	if s.op == "itoa" {
		return s.args[0], tTrue
	}
	if s.op == "strc" {
		v := uint64(0)
		ok := len(s.str) > 0 && len(s.str) < 18
		for i := 0; i < len(s.str) && ok; i++ {
			if s.str[i] < '0' || s.str[i] > '9' {
				ok = false
			}
			v = v*10 + uint64(s.str[i]-'0')
		}
		if ok {
			return C64(v), tTrue
		}
	}
	return UF("atoi", S64, s), UF("isnum", SBool, s)
}

func (x *Exec) splitComma(st *State, name string, s *Term, args []Val, pos string, k K) {
	if name == "strings.SplitN" {
		n, ok := args[2].(*Term)
		if !ok || !(n.isC() && int64(n.v) < 0) {
			if !(n.isC() && n.v >= 4) {
				x.fail(pos, "strings.SplitN")
			}
		}
	}
	if items, ok := splitTerm(s); ok {
		var vs []Val
		for _, it := range items {
			vs = append(vs, it)
		}
		id := x.newObj()
		st.objs[id] = SeqC{kind: "items", items: vs, elem: types.Typ[types.String]}
		k(st, SeqV{id, C64(uint64(len(vs)))})
		return
	}
	n := spec.apply("nspl", S64, []*Term{s})
	st.assume(Sle(C64(1), n), Slt(n, maxLen))
	id := x.newObj()
	st.objs[id] = SeqC{kind: "split", owner: s, elem: types.Typ[types.String]}
	k(st, SeqV{id, n})
}

// splitTerm splits a concatenation of literals and numbers at commas.
func splitTerm(s *Term) ([]*Term, bool) {
	var out []*Term
	cur := []*Term{}
	for _, a := range atoms(s) {
		switch a.op {
		case "itoa", "ite", "uf":
			if a.op != "itoa" && !without(a, ",") {
				return nil, false
			}
			cur = append(cur, a)
		case "strc":
			parts := strings.Split(a.str, ",")
			for i, p := range parts {
				if i > 0 {
					out = append(out, Cat(cur...))
					cur = nil
				}
				cur = append(cur, StrC(p))
			}
		default:
			return nil, false
		}
	}
	return append(out, Cat(cur...)), true
}

var _ = fmt.Sprint
