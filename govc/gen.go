package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Code of the generator. Descriptors of the protogen library (and the
// generator's own records of them) are immutable values reached by identity;
// the fields of the generator's records that it writes itself are unknown at
// every read. What is printed into the generated file is ghost state: the text
// passed to P, without comments.

const genPkg = modPath + "/internal/generator"
const protogenPkg = "google.golang.org/protobuf/compiler/protogen"

type LibRef struct { // field of a library struct
	own *Term
	key string
	mut bool
}
type BagV struct{ n *Term } // a list of n elements nothing is known about

func isGenPkg(p string) bool {
	return p == genPkg || strings.HasPrefix(p, "google.golang.org/protobuf/") || strings.HasPrefix(p, "go/")
}

// libName names struct types modelled by identity.
func libName(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isGenPkg(n.Obj().Pkg().Path()) {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

var genMut map[string]bool

// mutable: fields of the generator's records that are written after creation.
func genMutable(key string) bool {
	if genMut == nil {
		genMut = map[string]bool{}
		for _, fn := range P.fns {
			if fn.Pkg != P.gen {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || creating(fa.X) {
						continue
					}
					et := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if n := libName(et); n != "" {
						genMut[n+"."+et.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
	return genMut[key]
}

// creating: the record is one this function (or the function around it) made.
func creating(v ssa.Value) bool {
	switch b := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		switch c := b.X.(type) {
		case *ssa.FreeVar:
			return true
		case *ssa.Alloc: // a local variable that closures share
			for _, r := range *c.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == c && !creating(s.Val) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (x *Exec) libField(own *Term, t types.Type, f int) LibRef {
	n := libName(t)
	key := n + "." + t.Underlying().(*types.Struct).Field(f).Name()
	return LibRef{own, key, genMutable(key)}
}

func (x *Exec) libLoad(st *State, r LibRef, t types.Type) Val {
	if r.mut {
		return x.sym(t, "mut."+r.key)
	}
	return x.libVal(st, r.key, t, r.own)
}

// libVal: a value of type t determined by args.
func (x *Exec) libVal(st *State, key string, t types.Type, args ...*Term) Val {
	if s, ok := termSort(t); ok {
		v := spec.apply(key, s, append([]*Term{}, args...))
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.libVal(st, key+"."+u.Field(i).Name(), u.Field(i).Type(), args...))
		}
		return s
	case *types.Slice:
		if isByteSlice(t) {
			return x.sym(t, key)
		}
		own := UF(key, S64, args...)
		n := UF("lib.len", S64, own)
		st.assume(Sle(C64(0), n), Slt(n, C64(1<<31)))
		for _, id := range sortedObjs(st.objs) {
			if c, ok := st.objs[id].(SeqC); ok && c.kind == "lib" && c.owner == own {
				return SeqV{id, n}
			}
		}
		id := x.newObj()
		st.objs[id] = SeqC{kind: "lib", owner: own, elem: u.Elem()}
		return SeqV{id, n}
	case *types.Interface:
		return IfaceV{sym: UF(key, S64, args...), kind: "lib"}
	case *types.Map:
		return MapV{kind: "lib", own: UF(key, S64, args...)}
	}
	return Opaque{key}
}

// libElem: element i of a library list.
func (x *Exec) libElem(st *State, own, i *Term, t types.Type) Val {
	v := x.libVal(st, "lib.at", t, own, i)
	if p, ok := v.(*Term); ok && p.s == S64 {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			st.assume(Ne(p, C64(0)))
		}
	}
	return v
}

func (x *Exec) libInvoke(st *State, v IfaceV, c *ssa.CallCommon, args []Val, pos string, k K) {
	m := c.Method.Name()
	x.safe(st, "no nil dereference", Ne(v.sym, C64(0)), pos)
	x.usedExt[types.TypeString(c.Value.Type(), nil)+"."+m] = true
	ts := []*Term{v.sym}
	for _, a := range args {
		t, ok := x.asTerm(st, a)
		if !ok {
			x.fail(pos, "argument %T of %s", a, m)
		}
		ts = append(ts, t)
	}
	rs := c.Signature().Results()
	var out []Val
	for i := 0; i < rs.Len(); i++ {
		key := "pr." + m
		if i > 0 {
			key += "." + rs.At(i).Name()
		}
		r := x.libVal(st, key, rs.At(i).Type(), ts...)
		if iv, ok := r.(IfaceV); ok && iv.sym != nil {
			st.assume(Ne(iv.sym, C64(0)))
		}
		out = append(out, r)
	}
	k(st, tuple(out))
}

// isLibAddr: a may point into a library struct.
func (x *Exec) libExtern(st *State, fn *ssa.Function, base string, args []Val, pos string, k K) bool {
	t := func(i int) *Term {
		if i < len(args) {
			if v, ok := args[i].(*Term); ok {
				return v
			}
		}
		return nil
	}
	short := strings.ReplaceAll(strings.ReplaceAll(base, protogenPkg, "protogen"), "google.golang.org/protobuf/types/", "")
	switch short {
	case "(*protogen.GeneratedFile).P":
		if x.outObj == 0 || t(0) == nil || t(0) != x.outG {
			x.fail(pos, "P on a file that is not the one being generated")
		}
		x.printLine(st, x.variadic(st, args[1]), pos, func(s *State, c *Term) {
			o := s.objs[x.outObj].(BufC).c
			s.objs[x.outObj] = BufC{Cat(o, c, StrC("\n"))}
			k(s, nil)
		})
		return true
	case "(*protogen.GeneratedFile).Annotate", "(*protogen.GeneratedFile).Import", "(*protogen.GeneratedFile).Skip", "(*protogen.GeneratedFile).Unskip":
		k(st, nil)
		return true
	case "(*protogen.GeneratedFile).QualifiedGoIdent":
		if id, ok := args[1].(StructV); ok && t(0) != nil {
			k(st, x.qualified(t(0), id))
			return true
		}
	case "(protogen.GoImportPath).Ident":
		rt := fn.Signature.Results().At(0).Type()
		u := rt.Underlying().(*types.Struct)
		s := StructV{t: rt}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "GoName" {
				s.f = append(s.f, args[1])
			} else {
				s.f = append(s.f, args[0])
			}
		}
		k(st, s)
		return true
	case "(protogen.Comments).String":
		k(st, UF("ctext", SBytes, t(0)))
		return true
	case "strings.Join":
		if sep := t(1); sep != nil {
			switch l := args[0].(type) {
			case SeqV:
				if l.obj == -1 {
					k(st, eps)
					return true
				}
				if c, ok := st.objs[l.obj].(SeqC); ok && c.kind == "items" && l.n.isC() {
					var ts []*Term
					for i := uint64(0); i < l.n.v; i++ {
						if i > 0 {
							ts = append(ts, sep)
						}
						e, ok := c.items[i].(*Term)
						if !ok {
							x.fail(pos, "strings.Join of %T", c.items[i])
						}
						ts = append(ts, e)
					}
					k(st, Cat(ts...))
					return true
				}
			case BagV:
				k(st, Fresh("joined", SBytes))
				return true
			}
		}
	case "strconv.Quote":
		k(st, spec.apply("quote", SBytes, []*Term{t(0)}))
		return true
	case "strings.Replace", "strings.ReplaceAll":
		if o, n := t(1), t(2); o != nil && n != nil && o == StrC("`") && n == StrC(`\x60`) && (short == "strings.ReplaceAll" || t(3) != nil && t(3).isC() && int64(t(3).v) < 0) {
			k(st, spec.apply("bqfix", SBytes, []*Term{t(0)}))
			return true
		}
	case "strings.TrimSuffix":
		if s, u := t(0), t(1); s != nil && u != nil {
			k(st, UF("trimsuffix", SBytes, s, u))
			return true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if s, u := t(0), t(1); s != nil && u != nil {
			k(st, spec.apply("s."+strings.TrimPrefix(short, "strings."), SBool, []*Term{s, u}))
			return true
		}
	case "unicode/utf8.DecodeRuneInString":
		k(st, TupleV{UF("rune0", S32, t(0)), UF("rune0n", S64, t(0))})
		return true
	case "unicode.IsUpper":
		k(st, UF("isupper", SBool, t(0)))
		return true
	}
	if strings.HasPrefix(short, "(*descriptorpb.") && len(args) == 1 && t(0) != nil {
		if i := strings.Index(short, ")."); i > 0 && strings.HasPrefix(short[i+2:], "Get") {
			k(st, x.libVal(st, "pb"+short[i+1:], fn.Signature.Results().At(0).Type(), t(0)))
			return true
		}
	}
	return false
}

// qualified: how the generated file refers to an identifier. The qualifier of
// a package, once chosen, stays.
func (x *Exec) qualified(g *Term, id StructV) *Term {
	u := id.t.Underlying().(*types.Struct)
	var path, name *Term
	for i := range id.f {
		if u.Field(i).Name() == "GoName" {
			name = id.f[i].(*Term)
		} else {
			path = id.f[i].(*Term)
		}
	}
	return spec.apply("qid", SBytes, []*Term{g, path, name})
}

// printLine renders the arguments of P; comments are left out.
func (x *Exec) printLine(st *State, vs []Val, pos string, k func(*State, *Term)) {
	var rec func(st *State, i int, acc []*Term)
	rec = func(st *State, i int, acc []*Term) {
		if i == len(vs) {
			k(st, Cat(acc...))
			return
		}
		next := func(s *State, t *Term) { rec(s, i+1, append(acc[:len(acc):len(acc)], t)) }
		iv, ok := vs[i].(IfaceV)
		if !ok || iv.dyn == nil {
			x.fail(pos, "P of %T", vs[i])
		}
		if isNamed(iv.dyn, protogenPkg, "Comments") {
			next(st, eps)
			return
		}
		if isNamed(iv.dyn, protogenPkg, "GoIdent") {
			next(st, x.qualified(x.outG, iv.v.(StructV)))
			return
		}
		if sel := types.NewMethodSet(iv.dyn).Lookup(nil, "String"); sel != nil {
			fn := P.prog.MethodValue(sel)
			if fn != nil && fn.Pkg == P.gen {
				// a type of the generator: its String; comments are left out
				comment := false
				if cv, ok := iv.v.(*Term); ok && cv.s == SBytes && strings.HasSuffix(strings.ToLower(types.TypeString(iv.dyn, nil)), "comment") {
					comment = true
				}
				x.callStatic(st, fn, nil, []Val{iv.v}, pos, func(s *State, r Val) {
					rt, ok := r.(*Term)
					if !ok {
						x.fail(pos, "String() is %T", r)
					}
					if comment {
						x.safe(s, "a trailing comment stays on its line", spec.apply("comment", SBool, []*Term{rt}), pos)
						rt = eps
					}
					next(s, rt)
				})
				return
			}
			next(st, Fresh("text", SBytes))
			return
		}
		tv, ok := iv.v.(*Term)
		if !ok {
			x.fail(pos, "P of %s", iv.dyn)
		}
		switch {
		case tv.s == SBytes:
			next(st, tv)
		case tv.s == S64:
			next(st, mkItoa(tv))
		case tv.s == S32:
			next(st, mkItoa(Sext(tv, S64)))
		default:
			x.fail(pos, "P of %s", iv.dyn)
		}
	}
	rec(st, 0, nil)
}

// genSetup: the file being generated by the function under verification.
func (x *Exec) genSetup(st *State, fn *ssa.Function, args []Val) {
	x.gen = true
	for i, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isNamed(pt.Elem(), protogenPkg, "GeneratedFile") {
			x.outG = args[i].(*Term)
		}
	}
	x.outObj = x.newObj()
	st.objs[x.outObj] = BufC{Var("OUT", SBytes)}
}

func (x *Exec) outText(st *State) *Term { return st.objs[x.outObj].(BufC).c }

// smallBound: the loop at h compares with a small constant, known before it.
func (x *Exec) smallBound(fr *Frame, h *ssa.BasicBlock) bool {
	if len(h.Instrs) == 0 {
		return false
	}
	i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.Y, b.X} {
		if c, ok := o.(*ssa.Const); ok {
			return c.Value != nil && c.Int64() >= 0 && c.Int64() <= 16
		}
		if t, ok := fr.regs[o].(*Term); ok && t.isC() && t.v <= 16 {
			if bi, ok := o.(ssa.Instruction); ok && bi.Block() == h {
				continue
			}
			return true
		}
	}
	return false
}

// hasPrefix: text t starts with u, by their structure.
func hasPrefix(t, u *Term) bool {
	a, b := atoms(t), atoms(u)
	if u == eps {
		return true
	}
	for i := range b {
		if i >= len(a) {
			return false
		}
		if a[i] != b[i] {
			return i == len(b)-1 && a[i].op == "strc" && b[i].op == "strc" && strings.HasPrefix(a[i].str, b[i].str)
		}
	}
	return true
}

// builder: strings.Builder, whose text is what has been written to it.
func (x *Exec) builder(st *State, fn *ssa.Function, name string, args []Val, pos string, k K) bool {
	t := func(i int) *Term {
		if i < len(args) {
			if v, ok := args[i].(*Term); ok {
				return v
			}
		}
		return nil
	}
	if m := strings.TrimPrefix(name, "(*strings.Builder)."); m != name {
		a, ok := args[0].(AddrV)
		if !ok {
			return false
		}
		bt := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(1).Type()
		a.path += ".1"
		var add *Term
		switch m {
		case "String", "Len", "Grow":
		case "Reset":
			x.store(st, a, x.zero(bt), bt, pos)
			k(st, nil)
			return true
		case "WriteString":
			add = t(1)
		case "WriteByte":
			if t(1) != nil {
				add = Unit(t(1))
				if t(1).isC() {
					add = StrC(string([]byte{byte(t(1).v)}))
				}
			}
		case "WriteRune":
			if t(1) != nil && t(1).isC() {
				add = StrC(string(rune(t(1).v)))
			}
		default:
			return false
		}
		x.load(st, a, bt, pos, func(s *State, v Val) {
			b, ok := v.(BytesV)
			if !ok {
				x.fail(pos, "strings.Builder with %T", v)
			}
			c := x.cont(s, b)
			switch m {
			case "String":
				k(s, c)
				return
			case "Len":
				k(s, Blen(c))
				return
			case "Grow":
				x.safe(s, "Grow by a count that is not negative", Sle(C64(0), t(1)), pos)
				k(s, nil)
				return
			}
			if add == nil {
				x.fail(pos, "%s of an unknown text", name)
			}
			x.store(s, a, BytesV{nl: tFalse, c: Cat(c, add), prov: "fresh"}, bt, pos)
			switch m {
			case "WriteByte":
				k(s, eNil)
			default:
				k(s, TupleV{Blen(add), eNil})
			}
		})
		return true
	}
	return false
}
