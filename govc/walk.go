package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Codec constructors: closures as codec functions, memo tables, caches.

// cgKind: the kind (sid, fam) of each package-level codec.
var cgKind = map[string][2]uint64{}

// CK is the kind a codec reference implements.
func CK(t *Term) *Term {
	switch {
	case t.isUF("mkc"):
		return t.args[0]
	case t.op == "uf" && strings.HasPrefix(t.str, "cg."):
		if k, ok := cgKind[t.str[3:]]; ok {
			return kSc(k[0], k[1])
		}
	case t.op == "ite":
		return Ite(t.args[0], CK(t.args[1]), CK(t.args[2]))
	case t.op == "lab":
		return CK(t.args[0])
	}
	if k, ok := ckRW[t]; ok {
		return k
	}
	return UF("ck", SKind, t)
}

// ckRW: kinds of codecs given by the precondition of the function at hand.
var ckRW = map[*Term]*Term{}

func ckFacts(g *Term) {
	if g.op == "and" {
		for _, a := range g.args {
			ckFacts(a)
		}
		return
	}
	if g.op == "=" && len(g.args) == 2 {
		for i, a := range g.args {
			if a.isUF("ck") && g.args[1-i].s == SKind {
				ckRW[a.args[0]] = g.args[1-i]
			}
		}
	}
}
func tkindOf(t *Term) *Term  { return spec.apply("tkind", S64, []*Term{t}) }
func infoType(t *Term) *Term { return spec.apply("infotype", SType, []*Term{t}) }

func mkCodecRef(k *Term) *Term { return UF("mkc", S64, k, Fresh("n", S64)) }
func mkInfoRef(t *Term) *Term  { return UF("mki", S64, t, Fresh("n", S64)) }

type promise struct {
	obj  int
	kind string // codec | info
	key  *Term
	pos  string
}

func (x *Exec) specCall(name string, s Sort, args ...*Term) *Term {
	return spec.evalCall(name, args...)
}

// resolveK unfolds a kind to constructor form, branching where necessary.
func (x *Exec) resolveK(st *State, K *Term, pos string, k func(*State, *Term)) {
	K = stripAll(K)
	for i := 0; i < 40; i++ {
		if isCtor(K) || x.keepKOF && K.isUF("KOF") {
			k(st, K)
			return
		}
		if K.op == "ite" {
			c := K.args[0]
			if x.p.entails(st.pc, c) {
				K = K.args[1]
				continue
			}
			if x.p.entails(st.pc, Not(c)) {
				K = K.args[2]
				continue
			}
			s1, s2 := st.fork(), st.fork()
			s1.assume(c)
			s2.assume(Not(c))
			x.resolveK(s1, K.args[1], pos, k)
			x.resolveK(s2, K.args[2], pos, k)
			return
		}
		if u, ok := spec.unfold(K); ok {
			K = stripAll(u)
			continue
		}
		break
	}
	k(st, K)
}

// checkCodec: v is a codec of kind K.
func (x *Exec) checkCodec(st *State, v Val, K *Term, pos string) {
	props := spec.groupOr("KIND", "C12")
	const what = "the codec is of the kind its type and tag demand"
	switch c := v.(type) {
	case *Term:
		if id, ok := x.refs[c.str]; ok && c.op == "var" {
			x.checkCodec(st, AddrV{id, ""}, K, pos)
			return
		}
		x.oblige(st.fork(), "post", what, props, And(Ne(c, C64(0)), Eq(CK(c), K)), pos)
		return
	case AddrV:
		o, ok := st.objs[c.obj].(StructV)
		if !ok || c.path != "" {
			break
		}
		u := o.t.Underlying().(*types.Struct)
		x.resolveK(st.fork(), K, pos, func(st *State, K *Term) {
			if !x.feasible(st) {
				return
			}
			if !isCtor(K) || K.str == "KBad" {
				x.oblige(st, "post", what, props, tFalse, pos)
				return
			}
			x.oblige(st, "post", what, props, tTrue, pos)
			st.frozen[c.obj] = "they were handed out"
			for i := range o.f {
				r := roleOf(u.Field(i).Type())
				if r == "" {
					continue
				}
				switch f := o.f[i].(type) {
				case ClosV:
					x.nestedRole(st, f.fn, f.binds, r, K)
				case *ssa.Function:
					x.nestedRole(st, f, nil, r, K)
				case FnSym:
					x.oblige(st.fork(), "post", what, props, Eq(CK(f.codec), K), pos)
				default:
					x.oblige(st.fork(), "post", "the codec has a "+r+" function", spec.groupOr("SAFE", "C05"), tFalse, pos)
				}
			}
		})
		return
	}
	x.fail(pos, "codec value %T", v)
}

// nestedRole verifies a codec function built by a constructor: it may be
// called at any later time, with any message.
func (x *Exec) nestedRole(st0 *State, fn *ssa.Function, binds []Val, role string, K *Term) {
	st := st0.fork()
	st.events = nil
	st.promises = nil
	hm := Var("HM", SHeap)
	st.heap = hm
	o := *x
	defer func() {
		x.con, x.safety, x.role, x.returned, x.stack, x.loopTpl, x.env = o.con, o.safety, o.role, o.returned, o.stack, o.loopTpl, o.env
		x.h0, x.noWrite, x.captured, x.retHook, x.prefix, x.inRole, x.sep, x.pre = o.h0, o.noWrite, o.captured, o.retHook, o.prefix, o.inRole, o.sep, o.pre
	}()
	x.con, x.role, x.stack, x.noWrite, x.retHook, x.pre = nil, role, nil, false, nil, nil
	x.h0 = hm
	x.captured = map[int]bool{}
	for id := range st.objs {
		x.captured[id] = true
	}
	x.inRole = true
	x.sep = nil
	x.returned = 0
	x.env = Env{}
	x.prefix = role + " of a " + K.str + " codec: "
	props := spec.groupOr(roleProps[role]+"."+K.str, spec.groupOr(roleProps[role])...)
	x.safety = spec.groupOr(roleProps[role]+"SAFE."+K.str, spec.groupOr(roleProps[role]+"SAFE", props...)...)
	x.loopTpl = nil
	x.kindSetup(K, role)
	x.runRole(st, fn, role, K, binds, props)
	if x.returned == 0 {
		x.oblige(st, "cover", "some path returns", props, tFalse, posOf(fn))
	}
}

// kindSetup brings the loop templates and assumptions the specification
// gives for a kind into the current role check.
func (x *Exec) kindSetup(K *Term, role string) {
	x.env["K"] = K
	for i, a := range K.args {
		x.env[fmt.Sprintf("K%d", i)] = a
	}
	kd := spec.kinds[K.str]
	if kd == nil {
		return
	}
	for _, y := range kd.list[2:] {
		switch y.head() {
		case "loop":
			if y.list[1].atom == role {
				x.loopTpl = append(x.loopTpl, y.list[2:]...)
			}
		case "assume":
			b := y.list[1]
			old := x.pre
			x.pre = func(st *State, e Env) {
				if old != nil {
					old(st, e)
				}
				st.assume(stripAll(spec.eval(b, e)))
			}
		case "separate": // addresses a decode of an element does not touch
			if role == "decode" {
				b := y.list[1:]
				old := x.pre
				x.pre = func(st *State, e Env) {
					if old != nil {
						old(st, e)
					}
					x.sep = map[*Term]bool{}
					for _, a := range b {
						x.sep[spec.eval(a, e)] = true
					}
				}
			}
		}
	}
}

// ---- layouts and allocation
func (x *Exec) tlay(T *Term) *Term {
	t := UF("tlay", S64, T)
	if r, ok := x.rw[t]; ok {
		return r
	}
	return t
}
func (x *Exec) typeOfPtr(v Val, pos string) *Term {
	if t, ok := v.(*Term); ok && t.isUF("rtype") {
		return t.args[0]
	}
	x.fail(pos, "run-time type %v", v)
	return nil
}

// baseIs: the pointer an address is an offset of.
func freshAddr(a *Term) bool {
	b := baseOf(a)
	return b != nil && (b.isUF("newaddr") || b.isUF("newarr") || b.isUF("newmap") || b.isUF("pooladdr"))
}
func (x *Exec) oldAddr(a *Term) bool {
	b := baseOf(a)
	if b == nil {
		return false
	}
	if b.op == "var" {
		return b.str == "p"
	}
	if b.op == "select" {
		arr := b.args[0]
		return arr.op == "hsel" && arr.args[0] == x.h0 && x.oldAddr(b.args[1])
	}
	return false
}

// inner: the memory before the last operation, if that operation cannot have
// touched address a.
func (x *Exec) inner(h, a *Term) (*Term, bool) {
	if h.op != "uf" {
		return nil, false
	}
	var tgt, in *Term
	switch h.str {
	case "hzero":
		tgt, in = h.args[1], h.args[2]
	case "hnewarr", "hnewmap":
		return h.args[len(h.args)-1], x.oldAddr(a) || x.sep[a]
	case "hcopyn":
		tgt, in = h.args[1], h.args[4]
	case "hmov":
		tgt, in = h.args[1], h.args[3]
	case "KDH", "KDF":
		tgt, in = h.args[2], h.args[3]
	case "MDH":
		tgt, in = h.args[4], h.args[5]
	case "hmapset":
		return h.args[3], x.sep[a]
	default:
		return nil, false
	}
	if freshAddr(tgt) && x.oldAddr(a) || x.sep[a] && !x.sep[tgt] {
		return in, true
	}
	return nil, false
}

// sel reads one cell of memory h.
func (x *Exec) sel(h *Term, part string, a *Term) *Term {
	arr := hpart(h, part)
	for {
		t := Select(arr, a)
		if t.op != "select" {
			return t
		}
		arr = t.args[0]
		if arr.op == "hsel" {
			if in, ok := x.inner(arr.args[0], a); ok {
				arr = hpart(in, part)
				continue
			}
		} else if arr.op == "store" && freshAddr(arr.args[1]) && x.oldAddr(a) {
			arr = arr.args[0]
			continue
		}
		return t
	}
}

// sharedAddr: memory that codec functions share.
func sharedAddr(a *Term) bool {
	b := baseOf(a)
	return b != nil && (b.isUF("zeroobj") || b.isUF("zeroaddr"))
}

func (x *Exec) alloc(st *State, T *Term, pos string) *Term {
	if !x.inRole {
		// a constructor's own object: stays zero, codec functions may only read it
		return UF("zeroobj", S64, T, Fresh("n", S64))
	}
	l := x.tlay(T)
	a := UF("newaddr", S64, l, st.heap)
	st.heap = UF("hzero", SHeap, l, a, st.heap)
	return a
}

func (x *Exec) isZeroSrc(a *Term) bool { return a.isUF("zeroobj") || a.isUF("zeroaddr") }

// ---- contracts on the Go runtime
func (x *Exec) runtimeFn(st *State, name string, args []Val, pos string, k K) {
	t := func(i int) *Term {
		if v, ok := x.asTerm(st, args[i]); ok {
			return v
		}
		x.fail(pos, "%s: argument %d is %T", name, i, args[i])
		return nil
	}
	switch name {
	case "rr.typedmemmove":
		T := x.typeOfPtr(args[0], pos)
		dst, src := t(1), t(2)
		x.nonNil(st, dst, pos)
		x.nonNil(st, src, pos)
		x.notShared(st, dst, pos)
		if x.noWrite {
			x.oblige(st, "safety", "the message is not written while encoding", spec.groupOr("RDONLY", "C18"), tFalse, pos)
		}
		if x.isZeroSrc(src) {
			x.oblige(st, "safety", "zero value of the assigned type", spec.groupOr("SAFE", "C05"), Eq(x.tlay(src.args[0]), x.tlay(T)), pos)
			st.heap = UF("hzero", SHeap, x.tlay(T), dst, st.heap)
		} else {
			st.heap = UF("hmov", SHeap, x.tlay(T), dst, src, st.heap)
		}
		k(st, nil)
		return
	case "rr.newarray":
		T := x.typeOfPtr(args[0], pos)
		n := t(1)
		x.safe(st, "allocation size in range", Ult(n, C64(1<<50)), pos)
		l := x.tlay(T)
		a := UF("newarr", S64, l, n, st.heap)
		st.heap = UF("hnewarr", SHeap, l, n, st.heap)
		k(st, a)
		return
	case "rr.typedslicecopy":
		T := x.typeOfPtr(args[0], pos)
		d, ok1 := args[1].(StructV)
		s, ok2 := args[2].(StructV)
		if ok1 && ok2 && len(d.f) == 3 && len(s.f) == 3 {
			dp, dn, sp, sn := d.f[0].(*Term), d.f[1].(*Term), s.f[0].(*Term), s.f[1].(*Term)
			if x.noWrite {
				x.oblige(st, "safety", "the message is not written while encoding", spec.groupOr("RDONLY", "C18"), tFalse, pos)
			}
			do := func(s *State, n *Term) {
				s.heap = UF("hcopyn", SHeap, x.tlay(T), dp, sp, n, s.heap)
				k(s, n)
			}
			if dn == sn {
				do(st, dn)
				return
			}
			x.branch(st, Sle(sn, dn), func(s *State) { do(s, sn) }, func(s *State) { do(s, dn) })
			return
		}
	}
	if x.mapRuntime(st, name, args, pos, k) {
		return
	}
	x.fail(pos, "runtime function %s", name)
}

func (x *Exec) notShared(st *State, a *Term, pos string) {
	if sharedAddr(a) {
		x.oblige(st, "safety", "no state shared between calls is written", spec.groupOr("SHARED", "C13"), tFalse, pos)
	}
}

// ---- reflect.Type
func (x *Exec) panics(st *State, pos string) { x.doPanic(nil, st, nil, pos) }

// needKind continues if t is of one of the kinds; the other case panics.
func (x *Exec) needKind(st *State, T *Term, pos string, ks []uint64, k func(*State)) {
	var cs []*Term
	for _, v := range ks {
		cs = append(cs, Eq(tkindOf(T), C64(v)))
	}
	x.branch(st, Or(cs...), k, func(s *State) { x.panics(s, pos) })
}

func (x *Exec) invoke(st *State, recv Val, c *ssa.CallCommon, args []Val, pos string, k K) {
	m := c.Method.Name()
	if T, ok := recv.(*Term); ok && T.s == SType && isReflectType(c.Value.Type()) {
		x.safe(st, "no nil dereference", Ne(T, nilType), pos)
		x.usedExt["reflect.Type."+m] = true
		switch m {
		case "Kind":
			k(st, tkindOf(T))
			return
		case "Elem":
			x.needKind(st, T, pos, []uint64{17, 18, 21, 22, 23}, func(s *State) { k(s, UF("telem", SType, T)) })
			return
		case "Key":
			x.needKind(st, T, pos, []uint64{21}, func(s *State) { k(s, UF("tkey", SType, T)) })
			return
		case "Name", "String", "PkgPath":
			k(st, UF("t"+m, SBytes, T))
			return
		case "Size":
			k(st, spec.apply("lstride", S64, []*Term{x.tlay(T)}))
			return
		case "Align":
			l := x.tlay(T)
			a := UF("lalign", S64, l)
			st.assume(Ne(a, C64(0)), Ult(a, C64(64)))
			k(st, a)
			return
		case "NumField":
			x.needKind(st, T, pos, []uint64{25}, func(s *State) {
				n := spec.apply("tnf", S64, []*Term{T})
				s.assume(Ult(n, C64(1<<31)))
				k(s, n)
			})
			return
		case "Field":
			i, ok := args[0].(*Term)
			if ok {
				x.needKind(st, T, pos, []uint64{25}, func(s *State) {
					x.safe(s, "index in range", Ult(i, spec.apply("tnf", S64, []*Term{T})), pos)
					k(s, x.structFieldOf(T, i, c.Signature().Results().At(0).Type()))
				})
				return
			}
		}
	}
	if e, ok := recv.(*Term); ok && e.s == SErr && m == "Error" {
		k(st, Fresh("errtext", SBytes))
		return
	}
	if v, ok := recv.(IfaceV); ok && v.kind == "lib" {
		x.libInvoke(st, v, c, args, pos, k)
		return
	}
	x.fail(pos, "method call %s on %T", m, recv)
}

// structFieldOf is reflect's description of the i-th field of struct type T.
func (x *Exec) structFieldOf(T, i *Term, t types.Type) Val {
	u := t.Underlying().(*types.Struct)
	return x.structOfIdx(t, u, func(j int) Val {
		f := u.Field(j)
		switch f.Name() {
		case "Name":
			return UF("tfname", SBytes, T, i)
		case "PkgPath":
			return spec.apply("tfpkg", SBytes, []*Term{T, i})
		case "Type":
			return spec.apply("tftype", SType, []*Term{T, i})
		case "Tag":
			return spec.apply("tftag", SBytes, []*Term{T, i})
		case "Offset":
			return spec.apply("tfoff", S64, []*Term{T, i})
		case "Anonymous":
			return UF("tfanon", SBool, T, i)
		}
		return Opaque{"reflect.StructField." + f.Name()}
	})
}
func (x *Exec) structOfIdx(t types.Type, u *types.Struct, f func(int) Val) Val {
	s := StructV{t: t}
	for i := 0; i < u.NumFields(); i++ {
		s.f = append(s.f, f(i))
	}
	return s
}

// ---- caches and reflect functions
func (x *Exec) extern2(st *State, fn *ssa.Function, name string, args []Val, pos string, k K) bool {
	base := name
	if i := strings.Index(base, "["); i >= 0 {
		base = base[:i] + base[strings.LastIndex(base, "]")+1:]
	}
	switch base {
	case "reflect.New":
		if T, ok := args[0].(*Term); ok {
			k(st, RValV{kind: "new", addr: x.alloc(st, T, pos), t: T})
			return true
		}
	case "reflect.Zero":
		if T, ok := args[0].(*Term); ok {
			k(st, RValV{kind: "zero", t: T})
			return true
		}
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr":
		if r, ok := args[0].(RValV); ok && r.kind == "new" {
			k(st, r.addr)
			return true
		}
	case "(reflect.Value).Interface":
		if r, ok := args[0].(RValV); ok && r.kind == "zero" {
			k(st, IfaceV{kind: "zero", sym: r.t})
			return true
		}
	case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).Store":
		x.cacheOp(st, base[strings.LastIndex(base, ".")+1:], args, pos, k)
		return true
	case "(*github.com/RomiChan/syncx.Map).Load", "(*github.com/RomiChan/syncx.Map).LoadOrStore", "(*github.com/RomiChan/syncx.Map).Store":
		x.infoCacheOp(st, base[strings.LastIndex(base, ".")+1:], args, fn, pos, k)
		return true
	}
	return x.extern3(st, fn, base, args, pos, k)
}

// cacheOp: codec caches. The entry under the run-time type of T (a pointer to
// a struct) is the codec of that type; the entry under an element codec is the
// codec of slices of it.
func (x *Exec) cacheOp(st *State, op string, args []Val, pos string, k K) {
	key, ok := args[1].(IfaceV)
	if !ok {
		x.fail(pos, "cache key %T", args[1])
	}
	kt, ok := x.asTerm(st, key.v)
	if !ok || key.dyn == nil {
		x.fail(pos, "cache key %T", key.v)
	}
	var K *Term
	var facts []*Term
	var dyn types.Type
	switch {
	case isCodecPtr(key.dyn):
		K = Ctor(SKind, "KSlice", CK(kt))
		dyn = key.dyn
	case isUnsafePtr(key.dyn) && kt.isUF("rtype"):
		T := kt.args[0]
		e := UF("telem", SType, T)
		K = Ctor(SKind, "KMsg", e)
		facts = []*Term{Eq(tkindOf(T), C64(22)), Eq(tkindOf(e), C64(25))}
		dyn = codecPtrType()
	default:
		x.fail(pos, "cache key of type %s", key.dyn)
	}
	value := func() Val { return IfaceV{dyn: dyn, v: mkCodecRef(K)} }
	if op == "Load" {
		hit := Fresh("hit", SBool)
		x.branch(st, hit, func(s *State) {
			s.assume(facts...)
			k(s, TupleV{value(), tTrue})
		}, func(s *State) { k(s, TupleV{IfaceV{nilv: true}, tFalse}) })
		return
	}
	v, ok := args[2].(IfaceV)
	if !ok || v.dyn == nil {
		x.fail(pos, "cache value %T", args[2])
	}
	if !types.Identical(v.dyn, dyn) {
		x.oblige(st, "safety", "published values are codecs", spec.groupOr("SHARED", "C13"), tFalse, pos)
		return
	}
	x.checkCodec(st, v.v, K, pos)
	if len(facts) > 0 {
		x.oblige(st.fork(), "post", "published codecs are keyed by their message type", spec.groupOr("SHARED", "C13"), And(facts...), pos)
	}
	if a, ok := v.v.(AddrV); ok {
		st.frozen[a.obj] = "they were published"
	}
	if len(facts) > 0 {
		x.published(st, pos)
	} // else keyed by the element codec itself: found only by who has that codec
	if op == "Store" {
		k(st, nil)
		return
	}
	k(st, TupleV{value(), Fresh("loaded", SBool)})
}

func codecPtrType() types.Type {
	o := P.proto.Pkg.Scope().Lookup("codec")
	return types.NewPointer(o.Type())
}

func (x *Exec) infoCacheOp(st *State, op string, args []Val, fn *ssa.Function, pos string, k K) {
	kt, ok := args[1].(*Term)
	if !ok || !kt.isUF("rtype") {
		x.fail(pos, "cache key %v", args[1])
	}
	T := kt.args[0]
	if op == "Load" {
		hit := Fresh("hit", SBool)
		x.branch(st, hit, func(s *State) {
			s.assume(Eq(tkindOf(T), C64(25)))
			k(s, TupleV{mkInfoRef(T), tTrue})
		}, func(s *State) { k(s, TupleV{C64(0), tFalse}) })
		return
	}
	x.checkInfo(st, args[2], T, pos)
	x.oblige(st.fork(), "post", "published descriptors are keyed by their message type", spec.groupOr("SHARED", "C13"), Eq(tkindOf(T), C64(25)), pos)
	x.published(st, pos)
	if op == "Store" {
		k(st, nil)
		return
	}
	k(st, TupleV{mkInfoRef(T), Fresh("loaded", SBool)})
}

// published: what becomes visible to other goroutines must be complete.
// Entries keyed by a message type refer to descriptors that other types'
// walks may still be building, so they may be published only by the function
// that owns the whole walk, after it.
func (x *Exec) published(st *State, pos string) {
	x.oblige(st.fork(), "safety", "type information is published only when its walk is over", spec.groupOr("SHARED", "C13"), B(!x.midWalk && !x.inRole && len(st.promises) == 0), pos)
}

// next advances a range over a memo table of the walker: some entry of it, or
// the end.
func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) Val {
	pos := posOf(in)
	r, ok := x.val(fr, st, in.Iter).(RangeV)
	if !ok {
		x.fail(pos, "range over %s", in.Iter.Type())
	}
	m, ok := r.m.(MapV)
	if !ok || m.kind != "codecs" && m.kind != "infos" {
		x.fail(pos, "range over %s", in.Iter.Type())
	}
	T := Fresh("key", SType)
	more := Fresh("more", SBool)
	st.assume(Imp(more, Ne(T, nilType)))
	var v *Term
	if m.kind == "codecs" {
		e := UF("telem", SType, T)
		st.assume(Imp(more, And(Eq(tkindOf(T), C64(22)), Eq(tkindOf(e), C64(25)))))
		v = mkCodecRef(Ctor(SKind, "KMsg", e))
	} else {
		st.assume(Imp(more, Eq(tkindOf(T), C64(25))))
		v = mkInfoRef(T)
	}
	return TupleV{more, T, v}
}

// checkInfo: v describes message type T.
func (x *Exec) checkInfo(st *State, v Val, T *Term, pos string) {
	props := spec.groupOr("KIND", "C12")
	switch a := v.(type) {
	case *Term:
		if id, ok := x.refs[a.str]; ok && a.op == "var" {
			x.checkInfo(st, AddrV{id, ""}, T, pos)
			return
		}
		x.oblige(st.fork(), "post", "the descriptor is the one of its message type", props, And(Ne(a, C64(0)), Eq(infoType(a), T)), pos)
		return
	case AddrV:
		x.checkInfoObj(st, a, T, pos)
		return
	}
	x.fail(pos, "descriptor value %T", v)
}

// ---- maps
func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup, k K) {
	m := x.val(fr, st, in.X)
	key := x.val(fr, st, in.Index)
	pos := posOf(in)
	mv, ok := m.(MapV)
	if !ok {
		if s, ok := m.(*Term); ok && s.s == SBytes {
			i := x.idx(fr, st, in.Index)
			x.safe(st, "index in range", Ult(i, Blen(s)), pos)
			k(st, Bidx(s, i))
			return
		}
		x.fail(pos, "lookup in %T", m)
	}
	kt, _ := key.(*Term)
	ret := func(s *State, v Val, ok *Term) {
		if in.CommaOk {
			k(s, TupleV{v, ok})
			return
		}
		k(s, v)
	}
	switch mv.kind {
	case "index":
		if kt != nil && kt.s == S64 && mv.own != nil {
			f := UF("fidx", S64, mv.own, kt)
			ret(st, f, Ne(f, C64(0)))
			return
		}
	case "codecs":
		if kt != nil && kt.s == SType {
			x.branch(st, Fresh("hit", SBool), func(s *State) {
				e := UF("telem", SType, kt)
				s.assume(Eq(tkindOf(kt), C64(22)), Eq(tkindOf(e), C64(25)))
				ret(s, mkCodecRef(Ctor(SKind, "KMsg", e)), tTrue)
			}, func(s *State) { ret(s, C64(0), tFalse) })
			return
		}
	case "infos":
		if kt != nil && kt.s == SType {
			x.branch(st, Fresh("hit", SBool), func(s *State) {
				s.assume(Eq(tkindOf(kt), C64(25)))
				ret(s, mkInfoRef(kt), tTrue)
			}, func(s *State) { ret(s, C64(0), tFalse) })
			return
		}
	}
	if x.gen && kt != nil {
		if mv.kind == "lib" {
			v := x.libVal(st, "lib.map", in.X.Type().Underlying().(*types.Map).Elem(), mv.own, kt)
			ret(st, v, UF("lib.has", SBool, mv.own, kt))
			return
		}
		ret(st, x.sym(in.X.Type().Underlying().(*types.Map).Elem(), "entry"), Fresh("has", SBool))
		return
	}
	x.fail(pos, "lookup in a map of kind %s", mv.kind)
}

func (x *Exec) makeMap(st *State, u *types.Map) Val {
	switch kd := x.mapKind(u); kd {
	case "codecs", "infos":
		return MapV{kind: kd}
	case "index":
		id := x.newObj()
		st.objs[id] = IdxMap{n: inil()}
		return MapV{kind: "newindex", obj: id}
	}
	if x.gen {
		return MapV{kind: "other"}
	}
	x.fail("", "make map")
	return nil
}

func (x *Exec) mapUpdate(st *State, m, key, v Val, t types.Type, pos string) {
	mv, ok := m.(MapV)
	kt, _ := key.(*Term)
	if x.inRole {
		x.oblige(st, "safety", "no state shared between calls is written", spec.groupOr("SHARED", "C13"), tFalse, pos)
		return
	}
	if ok && kt != nil {
		switch mv.kind {
		case "codecs":
			if a, ok := v.(AddrV); ok {
				st.promises = append(st.promises[:len(st.promises):len(st.promises)], promise{a.obj, "codec", kt, pos})
				return
			}
			x.checkCodec(st, v, Ctor(SKind, "KMsg", UF("telem", SType, kt)), pos)
			return
		case "infos":
			if a, ok := v.(AddrV); ok {
				st.promises = append(st.promises[:len(st.promises):len(st.promises)], promise{a.obj, "info", kt, pos})
				return
			}
			x.checkInfo(st, v, kt, pos)
			return
		case "newindex":
			if x.indexUpdate(st, mv, kt, v, pos) {
				return
			}
		}
	}
	if ok && x.gen && mv.kind != "lib" {
		return
	}
	x.fail(pos, "map update")
}

func (x *Exec) walkDelete(st *State, args []Val, pos string) bool {
	if m, ok := args[0].(MapV); ok && (m.kind == "codecs" || m.kind == "infos") {
		return true // fewer entries
	}
	return false
}

// checkProduced: postcondition of a codec or descriptor constructor.
func (x *Exec) checkProduced(st *State, con *Contract, e Env, v Val, pos string) {
	done := -1
	if con.codec != nil {
		K := stripAll(spec.eval(con.codec, e))
		for _, p := range st.promises {
			if a, ok := v.(AddrV); ok && a.obj == p.obj && p.kind == "codec" {
				done = p.obj
				x.oblige(st.fork(), "post", "memoised codecs are those of their type", spec.groupOr("KIND", "C12"), x.promiseGoal(p, K), p.pos)
			}
		}
		x.checkCodec(st, v, K, pos)
	}
	if con.info != nil {
		T := stripAll(spec.eval(con.info, e))
		for _, p := range st.promises {
			if a, ok := v.(AddrV); ok && a.obj == p.obj && p.kind == "info" {
				done = p.obj
				x.oblige(st.fork(), "post", "memoised descriptors are those of their type", spec.groupOr("KIND", "C12"), And(Eq(p.key, T), Eq(tkindOf(T), C64(25))), p.pos)
			}
		}
		x.checkInfo(st, v, T, pos)
	}
	x.discharge(st, done, pos)
}
func (x *Exec) promiseGoal(p promise, K *Term) *Term {
	e := UF("telem", SType, p.key)
	return And(Eq(tkindOf(p.key), C64(22)), Eq(tkindOf(e), C64(25)), Eq(Ctor(SKind, "KMsg", e), K))
}

// discharge: every memoised object keeps its promise when the constructor returns.
func (x *Exec) discharge(st *State, done int, pos string) {
	for _, p := range st.promises {
		if p.obj == done {
			continue
		}
		if p.kind == "codec" {
			K := Ctor(SKind, "KMsg", UF("telem", SType, p.key))
			x.oblige(st.fork(), "post", "memoised codecs are those of their type", spec.groupOr("KIND", "C12"), x.promiseGoal(p, K), p.pos)
			x.checkCodec(st, AddrV{p.obj, ""}, K, p.pos)
		} else {
			x.oblige(st.fork(), "post", "memoised descriptors are those of their type", spec.groupOr("KIND", "C12"), Eq(tkindOf(p.key), C64(25)), p.pos)
			x.checkInfo(st, AddrV{p.obj, ""}, p.key, p.pos)
		}
	}
}

// gtcFacts: what is known about a type that is compared with a known one.
func (x *Exec) gtcFacts(st *State, a, b *Term) {
	if b.op != "gtc" {
		return
	}
	if t, ok := gtcTypes[b.str]; ok {
		if k := reflectKind(t); k > 0 {
			st.assume(Imp(Eq(a, b), Eq(tkindOf(a), C64(k))))
		}
	}
}

func reflectKind(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint8:
			return 8
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}
