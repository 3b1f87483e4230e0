package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type K = func(*State, Val)

func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, pos string, k K) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		x.invoke(st, x.val(fr, st, c.Value), c, args, pos, k)
		return
	}
	x.callVal(st, x.val(fr, st, c.Value), args, c, pos, k)
}

func tuple(rs []Val) Val {
	if len(rs) == 1 {
		return rs[0]
	}
	return TupleV(rs)
}

func (x *Exec) callVal(st *State, f Val, args []Val, c *ssa.CallCommon, pos string, k K) {
	switch fn := f.(type) {
	case *ssa.Builtin:
		x.builtin(st, fn.Name(), args, c, pos, k)
		return
	case *ssa.Function:
		x.callStatic(st, fn, nil, args, pos, k)
		return
	case ClosV:
		x.callStatic(st, fn.fn, fn.binds, args, pos, k)
		return
	case FnSym:
		x.callRole(st, fn, args, pos, k)
		return
	}
	x.fail(pos, "call of %T", f)
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, binds []Val, args []Val, pos string, k K) {
	name := fnName(fn)
	if x.onCall != nil {
		x.onCall(st, fn, args)
	}
	if !inRepo(fn) {
		x.usedExt[name] = true
		x.extern(st, fn, name, args, pos, k)
		return
	}
	if len(fn.Blocks) == 0 { // declared with linkname
		x.usedExt[name] = true
		x.runtimeFn(st, name, args, pos, k)
		return
	}
	if con, ok := spec.fns[name]; ok && len(binds) == 0 {
		x.usedCon[name] = true
		x.applyContract(st, con, fn, args, pos, k)
		return
	}
	x.inlined[name] = true
	x.callFn(fn, binds, args, st, func(s *State, rets []Val) { k(s, tuple(rets)) })
}

func (x *Exec) bindArg(e Env, st *State, name string, v Val) {
	switch a := v.(type) {
	case *Term:
		e[name] = a
	case BytesV:
		e[name] = x.cont(st, a)
		e[name+".nil"] = a.nl
	case SeqV:
		e[name+".n"] = a.n
	case IfaceV:
		if a.sym != nil {
			e[name] = a.sym
		}
	case StructV:
		if u, ok := a.t.Underlying().(*types.Struct); ok {
			for i, f := range a.f {
				x.bindArg(e, st, name+"."+u.Field(i).Name(), f)
			}
			if n, ok := types.Unalias(a.t).(*types.Named); ok && internalName(n) == "Option" {
				if g, ok := n.Origin().Underlying().(*types.Struct); ok && g.NumFields() == len(a.f) {
					for i, f := range a.f {
						if isTypeParam(g.Field(i).Type()) {
							x.bindArg(e, st, name+".VALUE", f)
						} else if isBool(g.Field(i).Type()) {
							x.bindArg(e, st, name+".SOME", f)
						}
					}
				}
			}
		}
	case AddrV:
		if o, ok := st.objs[a.obj]; ok && a.path == "" {
			x.bindArg(e, st, name, o)
		}
		if _, ok := e[name]; !ok {
			e[name] = x.refOf(a.obj)
		}
	case MapV:
		if a.own != nil {
			e[name] = a.own
		}
	}
}

// bindRef gives a contract access to the fields of an internal object.
func (x *Exec) bindRef(e Env, st *State, name string, v *Term, t types.Type, depth int) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok || depth > 2 {
		return
	}
	n := internalName(p.Elem())
	u, ok := p.Elem().Underlying().(*types.Struct)
	if n == "" || !ok || isLayoutStruct(p.Elem()) || n == "codec" || n == "structInfo" {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if _, ok := termSort(ft); !ok {
			continue
		}
		dry := x.dry
		x.dry++ // no obligation: only a name for the contract
		s := st.fork()
		f := x.loadRef(s, FieldRef{v, n, u, i}, ft, "")
		x.dry = dry
		if ft, ok := f.(*Term); ok {
			e[name+"."+u.Field(i).Name()] = ft
			if ft.s == S64 {
				x.bindRef(e, st, name+"."+u.Field(i).Name(), ft, u.Field(i).Type(), depth+1)
			}
		}
	}
}

// freeze: a callee keeps the object; it must not change any more.
func (x *Exec) freeze(st *State, v Val) {
	switch a := v.(type) {
	case AddrV:
		if _, ok := st.frozen[a.obj]; ok {
			return
		}
		x.descInv(st, a.obj, "")
		st.frozen[a.obj] = "they were handed to a codec"
		x.freeze(st, st.objs[a.obj])
	case StructV:
		for _, f := range a.f {
			x.freeze(st, f)
		}
	case *Term:
		if id, ok := x.refs[a.str]; ok && a.op == "var" {
			x.freeze(st, AddrV{id, ""})
		}
	}
}

func isInfoPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && internalName(p.Elem()) == "structInfo"
}

func (x *Exec) contractEnv(st *State, con *Contract, fn *ssa.Function, args []Val) Env {
	e := Env{"H": st.heap}
	for i := range fn.Params {
		n := fn.Params[i].Name()
		if i < len(con.params) {
			n = con.params[i]
		}
		x.bindArg(e, st, n, args[i])
		if t, ok := args[i].(*Term); ok && t.s == S64 {
			x.bindRef(e, st, n, t, fn.Params[i].Type(), 0)
		}
	}
	if x.gen {
		e["OUT"] = x.outText(st)
	}
	for _, l := range con.lets {
		e[l.list[0].atom] = spec.eval(l.list[1], e)
	}
	return e
}

// applyContract uses a callee's contract in place of its body.
func (x *Exec) applyContract(st *State, con *Contract, fn *ssa.Function, args []Val, pos string, k K) {
	e := x.contractEnv(st, con, fn, args)
	if con.flags["maypanic"] && (x.con == nil || !x.con.flags["maypanic"] && !x.con.flags["mayreject"]) {
		x.safe(st, "no panic", tFalse, pos)
	}
	for _, cl := range con.clauses {
		if cl.kind == "requires" {
			g := spec.eval(cl.body, e)
			x.oblige(st, "pre", con.name+": "+cl.name, propsUnion(x.safety, con.safety), g, pos)
		}
	}
	for _, n := range con.retains {
		for i := range fn.Params {
			if i < len(con.params) && con.params[i] == n {
				x.freeze(st, args[i])
			}
		}
	}
	rs := fn.Signature.Results()
	var rets []Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		var def *Term
		if i < len(con.rets) && con.rets[i].atom != "_" {
			def = stripAll(spec.eval(con.rets[i], e))
		}
		var v Val
		if con.codec != nil && isCodecPtr(t) {
			kd := stripAll(spec.eval(con.codec, e))
			st.assume(Ne(kd, Ctor(SKind, "KBad")))
			v = mkCodecRef(kd)
		} else if con.info != nil && isInfoPtr(t) {
			v = mkInfoRef(stripAll(spec.eval(con.info, e)))
		} else if isByteSlice(t) {
			c := def
			if c == nil {
				c = Fresh("r."+fn.Name(), SBytes)
			}
			b := BytesV{nl: Fresh("r.nil", SBool), c: c, prov: "fresh"}
			if con.flags["appends"] || con.flags["aliases"] {
				for _, a := range args {
					if ab, ok := a.(BytesV); ok {
						b.prov = ab.prov
						break
					}
				}
			}
			v = b
		} else if def != nil {
			v = def
		} else {
			v = x.sym(t, "r."+fn.Name())
		}
		rets = append(rets, v)
		x.bindArg(e, st, fmt.Sprintf("r%d", i), v)
	}
	if con.flags["appends"] {
		for _, a := range args {
			if ab, ok := a.(BytesV); ok {
				x.wrote(st, ab, pos)
				break
			}
		}
	}
	if con.heap != nil {
		if con.heap.atom == "_" {
			st.heap = Fresh("heap", SHeap)
		} else {
			st.heap = stripAll(spec.eval(con.heap, e))
		}
	}
	if x.gen {
		if con.out != nil {
			for i, p := range fn.Params {
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isNamed(pt.Elem(), protogenPkg, "GeneratedFile") && args[i] != Val(x.outG) {
					x.fail(pos, "%s for a file that is not the one being generated", con.name)
				}
			}
			if con.out.atom == "_" {
				st.objs[x.outObj] = BufC{Cat(x.outText(st), Fresh("printed", SBytes))}
			} else if len(con.outs) == 1 {
				st.objs[x.outObj] = BufC{stripAll(spec.eval(con.out, e))}
			}
		}
	}
	finish := func(st *State) {
		e["H1"] = st.heap
		if x.gen {
			e["OUT1"] = x.outText(st)
		}
		for _, cl := range con.clauses {
			if cl.kind == "ensures" {
				st.assume(stripAll(spec.eval(cl.body, e)))
			}
		}
		k(st, tuple(rets))
	}
	if x.gen && len(con.outs) > 1 {
		var rec func(st *State, os []*Sx)
		rec = func(st *State, os []*Sx) {
			if len(os) > 1 {
				x.branch(st, Fresh("out", SBool), func(s *State) { rec(s, os[:1]) }, func(s *State) { rec(s, os[1:]) })
				return
			}
			st.objs[x.outObj] = BufC{stripAll(spec.eval(os[0], e))}
			finish(st)
		}
		rec(st, con.outs)
		return
	}
	if con.okheap != nil {
		err := rets[len(rets)-1].(*Term)
		x.branch(st, Eq(err, eNil), func(s *State) {
			s.heap = stripAll(spec.eval(con.okheap, e))
			finish(s)
		}, func(s *State) {
			s.heap = Fresh("heap", SHeap)
			finish(s)
		})
		return
	}
	finish(st)
}

func propsUnion(a, b []string) []string {
	r := append([]string{}, a...)
	for _, y := range b {
		found := false
		for _, z := range r {
			if z == y {
				found = true
			}
		}
		if !found {
			r = append(r, y)
		}
	}
	return r
}

// ---- builtins
func (x *Exec) builtin(st *State, name string, args []Val, c *ssa.CallCommon, pos string, k K) {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *Term:
			k(st, Blen(a))
			return
		case BytesV:
			n := x.blenOf(st, a)
			if name == "cap" {
				cp := Fresh("cap", S64)
				st.assume(Ule(n, cp), Ult(cp, maxLen))
				n = cp
			}
			k(st, n)
			return
		case SeqV:
			if name == "len" {
				k(st, a.n)
				return
			}
		case BagV:
			k(st, a.n)
			return
		case ListV:
			if name == "len" {
				k(st, a.n())
				return
			}
		case MapV:
			if a.kind == "nil" {
				k(st, C64(0))
				return
			}
			n := Fresh("maplen", S64)
			st.assume(Ult(n, maxLen))
			k(st, n)
			return
		}
	case "append":
		x.appendOp(st, args, c, pos, k)
		return
	case "copy":
		x.copyOp(st, args, pos, k)
		return
	case "min", "max":
		r := args[0].(*Term)
		_, sg, ok := intWidth(c.Args[0].Type())
		if ok {
			for _, b := range args[1:] {
				t := b.(*Term)
				var lt *Term
				if sg {
					lt = Slt(t, r)
				} else {
					lt = Ult(t, r)
				}
				if name == "max" {
					if sg {
						lt = Slt(r, t)
					} else {
						lt = Ult(r, t)
					}
				}
				r = Ite(lt, t, r)
			}
			k(st, r)
			return
		}
	case "ssa:wrapnilchk":
		k(st, args[0])
		return
	case "Add": // unsafe.Add
		k(st, Add(args[0].(*Term), args[1].(*Term)))
		return
	case "String": // unsafe.String
		if e, ok := args[0].(ElemRef); ok {
			if b, ok := e.s.(BytesV); ok {
				x.oblige(st, "safety", "strings do not refer to input memory", spec.groupOr("ALIAS", "C19"), B(!strings.HasPrefix(b.prov, "in") && b.prov != "heap"), pos)
				n := args[1].(*Term)
				k(st, Bsl(x.cont(st, b), e.i, Add(e.i, n)))
				return
			}
		}
		if e, ok := args[0].(DataPtr); ok {
			b := e.b
			x.oblige(st, "safety", "strings do not refer to input memory", spec.groupOr("ALIAS", "C19"), B(!strings.HasPrefix(b.prov, "in") && b.prov != "heap"), pos)
			k(st, Bsl(x.cont(st, b), C64(0), args[1].(*Term)))
			return
		}
	case "SliceData":
		if b, ok := args[0].(BytesV); ok {
			k(st, DataPtr{b})
			return
		}
	case "StringData":
		if t, ok := args[0].(*Term); ok {
			k(st, DataPtr{BytesV{nl: Eq(Blen(t), C64(0)), c: t, prov: "heap"}})
			return
		}
	case "Slice":
		if e, ok := args[0].(DataPtr); ok {
			b := e.b
			b.c = Bsl(x.cont(st, b), C64(0), x.wide(args[1].(*Term), c.Args[1].Type()))
			b.obj = 0
			k(st, b)
			return
		}
	case "clear":
		if a, ok := args[0].(MapV); ok && a.kind == "nil" {
			k(st, nil)
			return
		}
	case "delete":
		if x.walkDelete(st, args, pos) {
			k(st, nil)
			return
		}
	}
	x.fail(pos, "builtin %s", name)
}

type DataPtr struct{ b BytesV }

func (x *Exec) wide(t *Term, ty types.Type) *Term {
	if t.s == S64 {
		return t
	}
	if _, sg, _ := intWidth(ty); sg {
		return Sext(t, S64)
	}
	return Zext(t, S64)
}

// asBytes views an append/copy source as bytes.
func (x *Exec) asBytes(st *State, v Val) (*Term, string, bool) {
	switch a := v.(type) {
	case BytesV:
		return x.cont(st, a), a.prov, true
	case *Term:
		if a.s == SBytes {
			return a, "", true
		}
	case SeqV:
		if c, ok := st.objs[a.obj].(SeqC); ok && c.kind == "items" && a.n.isC() {
			var u []*Term
			for _, it := range c.items {
				t, ok := it.(*Term)
				if !ok || t.s != S8 {
					return nil, "", false
				}
				u = append(u, Unit(t))
			}
			return Cat(u...), "fresh", true
		}
	}
	return nil, "", false
}

func (x *Exec) appendOp(st *State, args []Val, c *ssa.CallCommon, pos string, k K) {
	if dst, ok := args[0].(BytesV); ok {
		src, _, ok := x.asBytes(st, args[1])
		if !ok {
			x.fail(pos, "append of %T", args[1])
		}
		if src != eps {
			x.wrote(st, dst, pos)
		}
		prov := dst.prov
		if dst.nl == tTrue || prov == "" {
			prov = "fresh"
		}
		nl := And(dst.nl, Eq(Blen(src), C64(0)))
		if src == eps {
			nl = dst.nl
		}
		k(st, BytesV{nl: nl, c: Cat(x.cont(st, dst), src), prov: prov})
		return
	}
	if x.listAppend(st, args, pos, k) {
		return
	}
	if dst, ok := args[0].(BagV); ok {
		n, ok := x.countOf(args[1])
		if ok {
			k(st, BagV{Add(dst.n, n)})
			return
		}
	}
	if src, ok := args[1].(BagV); ok {
		if n, ok := x.countOf(args[0]); ok {
			k(st, BagV{Add(n, src.n)})
			return
		}
	}
	if dst, ok := args[0].(SeqV); ok {
		src, ok2 := args[1].(SeqV)
		if ok2 {
			var items []Val
			good := true
			if dst.obj > 0 {
				dc, ok := st.objs[dst.obj].(SeqC)
				good = ok && (dc.kind == "items" || dc.kind == "blank") && dst.n.isC() && int(dst.n.v) <= len(dc.items)
				if good {
					items = append(items, dc.items[:dst.n.v]...)
				}
			}
			if src.obj > 0 && good {
				sc, ok := st.objs[src.obj].(SeqC)
				good = ok && sc.kind == "items" && src.n.isC()
				if good {
					items = append(items, sc.items[:src.n.v]...)
				}
			}
			if good {
				id := x.newObj()
				st.objs[id] = SeqC{kind: "items", items: items}
				k(st, SeqV{id, C64(uint64(len(items)))})
				return
			}
		}
	}
	x.fail(pos, "append to %T", args[0])
}

func (x *Exec) countOf(v Val) (*Term, bool) {
	switch a := v.(type) {
	case SeqV:
		return a.n, true
	case BagV:
		return a.n, true
	}
	return nil, false
}

func (x *Exec) copyOp(st *State, args []Val, pos string, k K) {
	dst, ok := args[0].(BytesV)
	src, _, ok2 := x.asBytes(st, args[1])
	if ok && ok2 {
		dl, sl := x.blenOf(st, dst), Blen(src)
		if dst.obj == 0 {
			x.wrote(st, dst, pos)
			x.fail(pos, "copy into a slice that is not local")
		}
		buf := st.objs[dst.obj].(BufC).c
		do := func(s *State, n *Term) {
			s.objs[dst.obj] = BufC{Cat(Bsl(buf, C64(0), dst.lo), Bsl(src, C64(0), n), Bsl(buf, Add(dst.lo, n), Blen(buf)))}
			k(s, n)
		}
		if dl == sl || x.p.entails(st.pc, Ule(sl, dl)) {
			do(st, sl)
			return
		}
		x.branch(st, Ule(sl, dl), func(s *State) { do(s, sl) }, func(s *State) { do(s, dl) })
		return
	}
	if x.listCopy(st, args, pos, k) {
		return
	}
	x.fail(pos, "copy of %T to %T", args[1], args[0])
}

// ---- calls of codec functions through a codec descriptor
func (x *Exec) callRole(st *State, f FnSym, args []Val, pos string, k K) {
	c := f.codec
	kd := CK(c)
	x.safeRef(st, c, pos)
	switch f.role {
	case "size":
		p := args[0].(*Term)
		x.nonNil(st, p, pos)
		wt := x.fieldWt(st, args[1], pos)
		k(st, stripAll(Blen(spec.apply("KENC", SBytes, []*Term{kd, p, wt, st.heap}))))
	case "encode":
		b := args[0].(BytesV)
		p := args[1].(*Term)
		x.nonNil(st, p, pos)
		wt := x.fieldWt(st, args[2], pos)
		x.wrote(st, b, pos)
		prov := b.prov
		if prov == "" {
			prov = "fresh"
		}
		k(st, BytesV{nl: Fresh("enc.nil", SBool), c: Cat(x.cont(st, b), stripAll(spec.apply("KENC", SBytes, []*Term{kd, p, wt, st.heap}))), prov: prov})
	case "decode":
		b := args[0].(BytesV)
		p, ok := args[1].(*Term)
		if !ok {
			x.fail(pos, "decode into %T", args[1])
		}
		x.nonNil(st, p, pos)
		x.notShared(st, p, pos)
		ct := x.cont(st, b)
		x.oblige(st, "pre", "field data is framed by its wire type", spec.groupOr("FRAME", "C05", "C06", "C11"), spec.evalCall("FRAMED", kd, ct), pos)
		err := stripAll(spec.apply("KDe", SErr, []*Term{kd, ct}))
		n := Fresh("dn", S64)
		st.assume(Sle(C64(0), n), Sle(n, Blen(ct)), Imp(Eq(err, eNil), Eq(n, Blen(ct))))
		pre := st.heap
		x.branch(st, Eq(err, eNil), func(st *State) {
			st.heap = stripAll(spec.apply("KDH", SHeap, []*Term{kd, ct, p, pre}))
			st.events = append(st.events, Event{kind: "decode", a: []*Term{kd, ct, p}, hpre: pre, hpost: st.heap, err: err, pos: pos})
			k(st, TupleV{n, err})
		}, func(st *State) {
			// nothing is promised about what a failed decode leaves behind
			st.heap = UF("KDF", SHeap, kd, ct, p, pre, Fresh("fail", S64))
			st.events = append(st.events, Event{kind: "decode", a: []*Term{kd, ct, p}, hpre: pre, hpost: st.heap, err: err, pos: pos})
			k(st, TupleV{n, err})
		})
	}
}

func (x *Exec) fieldWt(st *State, f Val, pos string) *Term {
	switch a := f.(type) {
	case *Term:
		return UF("f.wt", S64, a)
	case AddrV:
		if s, ok := st.objs[a.obj].(StructV); ok {
			if w, ok := x.objField(s, types.Uint64); ok {
				return w
			}
		}
	}
	x.fail(pos, "field descriptor %T", f)
	return nil
}

// objField finds the field of a local descriptor by its basic type.
func (x *Exec) objField(s StructV, k types.BasicKind) (*Term, bool) {
	u, ok := s.t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := range s.f {
		if isNamedBasic(u.Field(i).Type(), k) {
			t, ok := s.f[i].(*Term)
			return t, ok
		}
	}
	return nil, false
}

func (sp *Spec) evalCall(name string, args ...*Term) *Term {
	e := Env{}
	l := []*Sx{{atom: name}}
	for i, a := range args {
		n := fmt.Sprintf("$%d", i)
		e[n] = a
		l = append(l, &Sx{atom: n})
	}
	return sp.eval(&Sx{list: l, file: "call", line: 0}, e)
}
