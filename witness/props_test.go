//go:build go1.22

package proto_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
)

// each visits random messages of the static and of random types.
func each(t *testing.T, n int, shapes string, f func(g *gen, typ reflect.Type)) {
	g := rng(t.Name(), -1)
	pool := g.types(60*min2(scale, 4), shapes)
	for i := 0; i < n*scale; i++ {
		g := rng(t.Name(), i)
		typ := static[i%len(static)]
		if i%3 > 0 {
			typ = pool[g.Intn(len(pool))]
		}
		f(g, typ)
	}
	// messages of very many fields
	for i, w := range []int{40, 70, 140, 300, 1100} {
		g := rng(t.Name()+" wide", i)
		typ := g.structType(w, shapes+"ssssssss", static)
		for k := 0; k < 2*scale; k++ {
			f(rng(t.Name()+" wide", k), typ)
		}
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func mustMarshal(t *testing.T, p reflect.Value) []byte {
	o := marshal(p)
	if o.panicked != "" || o.err != nil {
		report(t, "Marshal of a supported message failed", p.Type(), "value", p, "panic", o.panicked, "error", fmt.Sprint(o.err))
	}
	return o.b
}

// decode runs the code and the reference on copies of pre.
// It returns the two messages and the two outcomes.
func decode(t *testing.T, b []byte, pre reflect.Value) (got, want reflect.Value, err error, werr *rerr) {
	got, want = clone(pre), clone(pre)
	o := unmarshal(b, got)
	if o.panicked != "" {
		report(t, "Unmarshal panics", pre.Type(), "input", b, "message before", pre, "panic", o.panicked)
	}
	return got, want, o.err, refDecode(b, want.Elem())
}

// values checks that well-formed input b is decoded as the reference does.
func values(t *testing.T, b []byte, pre reflect.Value) {
	got, want, err, werr := decode(t, b, pre)
	if werr != nil {
		return
	}
	if err != nil {
		report(t, "well-formed input rejected", pre.Type(), "input", b, "message before", pre, "error", err)
	}
	if d := same(got.Elem(), want.Elem()); d != "" {
		report(t, "decoded message differs from the expected one (found vs expected): "+d, pre.Type(), "input", b, "message before", pre, "found", got, "expected", want)
	}
}

func encoding(t *testing.T, p reflect.Value) {
	b := mustMarshal(t, p)
	if err := match(p.Elem(), b); err != nil {
		report(t, "unexpected encoding: "+err.Error(), p.Type(), "value", p, "found", b, "expected", refMsg(p.Elem()))
	}
}

// ---------------------------------------------------------------- C01

func TestC01(t *testing.T) {
	check := func(p reflect.Value) {
		b := mustMarshal(t, p)
		o := size(p)
		if o.panicked != "" {
			report(t, "Size panics", p.Type(), "value", p, "panic", o.panicked)
		}
		if o.n != len(b) {
			report(t, fmt.Sprintf("Size reports %d, Marshal produces %d bytes", o.n, len(b)), p.Type(), "value", p, "encoding", b)
		}
		if p.IsNil() {
			return
		}
		if e := refDecode(b, reflect.New(p.Type().Elem()).Elem()); e != nil {
			report(t, "the lengths in the encoding do not fit what follows them: "+e.String(), p.Type(), "value", p, "encoding", b)
		}
		if err := match(p.Elem(), b); err != nil && strings.Contains(err.Error(), "length prefix") {
			report(t, "wrong length prefix: "+err.Error(), p.Type(), "value", p, "encoding", b)
		}
	}
	for _, typ := range static {
		check(reflect.Zero(reflect.PtrTo(typ)))
		check(reflect.New(typ))
	}
	each(t, 6000, allShapes, func(g *gen, typ reflect.Type) { check(g.msg(typ)) })
	scalarSweep(t, check)
	for _, p := range big() {
		check(p)
	}
}

// scalarSweep calls f with single-field messages over all boundary values.
func scalarSweep(t *testing.T, f func(p reflect.Value)) {
	nums := []int{1, 15, 16, 2047, 2048, 262143, 262144, 1<<25 - 1, 1 << 25, 1<<29 - 1}
	k := 0
	for _, s := range scalars[:10] {
		for _, tag := range s.tags {
			var vals []reflect.Value
			add := func(set func(v reflect.Value)) {
				v := reflect.New(s.t).Elem()
				set(v)
				vals = append(vals, v)
			}
			switch s.t.Kind() {
			case reflect.Bool:
				add(func(v reflect.Value) {})
				add(func(v reflect.Value) { v.SetBool(true) })
			case reflect.Int32:
				for _, x := range ints {
					add(func(v reflect.Value) { v.SetInt(int64(int32(x))) })
				}
			case reflect.Int64:
				for _, x := range ints {
					add(func(v reflect.Value) { v.SetInt(int64(x)) })
				}
			case reflect.Uint32:
				for _, x := range ints {
					add(func(v reflect.Value) { v.SetUint(uint64(uint32(x))) })
				}
			case reflect.Uint64:
				for _, x := range ints {
					add(func(v reflect.Value) { v.SetUint(x) })
				}
			case reflect.Float32:
				for _, x := range f32s {
					add(func(v reflect.Value) { *(*uint32)(v.Addr().UnsafePointer()) = x })
				}
			case reflect.Float64:
				for _, x := range f64s {
					add(func(v reflect.Value) { *(*uint64)(v.Addr().UnsafePointer()) = x })
				}
			case reflect.String:
				for _, n := range []int{0, 1, 127, 128, 16383, 16384} {
					add(func(v reflect.Value) { v.SetString(strings.Repeat("x", n)) })
				}
			case reflect.Slice:
				add(func(v reflect.Value) {})
				for _, n := range []int{0, 1, 127, 128, 16383, 16384} {
					add(func(v reflect.Value) { v.SetBytes(bytes.Repeat([]byte{'y'}, n)) })
				}
			}
			for _, shape := range "sopqrm" {
				typ := s.t
				extra := ""
				rep := "opt"
				switch shape {
				case 'o':
					if optionOf[s.t] == nil {
						continue
					}
					typ = optionOf[s.t]
				case 'p':
					typ = reflect.PtrTo(s.t)
				case 'r':
					typ, rep = reflect.SliceOf(s.t), "rep"
				case 'q':
					typ, rep = reflect.SliceOf(reflect.PtrTo(s.t)), "rep"
				case 'm':
					typ = reflect.MapOf(typeOf[bool](), s.t)
					extra = fmt.Sprintf(` protobuf_key:"varint,1,opt" protobuf_val:"%s,2,opt"`, tag)
				}
				k++
				num := nums[k%len(nums)]
				ftag := tag
				if shape == 'm' {
					ftag = "bytes"
				}
				st := reflect.StructOf([]reflect.StructField{{Name: "X", Type: typ, Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,%s"%s`, ftag, num, rep, extra))}})
				d := schemaOf(st).fields[0]
				for _, v := range vals {
					m := reflect.New(st)
					fv := m.Elem().Field(d.idx)
					ptr := reflect.New(s.t)
					ptr.Elem().Set(v)
					switch shape {
					case 's':
						fv.Set(v)
					case 'o':
						fv.Set(options[typ].some(v))
					case 'p':
						fv.Set(ptr)
					case 'r':
						fv.Set(reflect.Append(fv, v, v))
					case 'q':
						fv.Set(reflect.Append(fv, ptr, ptr))
					case 'm':
						fv.Set(reflect.MakeMap(typ))
						fv.SetMapIndex(reflect.ValueOf(true), v)
					}
					f(m)
				}
			}
		}
	}
}

func big() (r []reflect.Value) {
	v := reflect.ValueOf
	str := strings.Repeat("s", 1<<21+3)
	r = append(r, v(&Leaf{S: str, A: 1}), v(&Ptrs{Msg: &Leaf{S: str[:1<<14]}}))
	// nested messages and entries around the lengths where the prefix grows
	for _, n := range []int{1 << 7, 1 << 14, 1 << 16, 1 << 21} {
		for d := -10; d <= 3; d++ {
			if n == 1<<21 && (d < -7 || d > 0) {
				continue
			}
			s := str[:n+d]
			r = append(r, v(&Rec{Peer: &RecB{Name: s}}), v(&Reps{Msg: []*Leaf{{S: s}, {A: 1}}}), v(&Maps{FM: map[int32]*Leaf{1: {S: s}}, SS: map[string]string{"": s}}))
		}
	}
	// long lists
	long := &Reps{}
	for i := 0; i < 170000; i++ {
		long.Bool = append(long.Bool, i%3 == 0)
		if i < 10000 {
			long.F64 = append(long.F64, uint64(i))
			long.Str = append(long.Str, str[:i&1])
			long.Empty = append(long.Empty, &Empty{})
		}
	}
	r = append(r, v(long))
	rep := &Reps{}
	for i := 0; i < 3000; i++ {
		rep.I64 = append(rep.I64, int64(i)<<20)
		rep.Str = append(rep.Str, str[:i%40])
		rep.Msg = append(rep.Msg, &Leaf{A: int32(i)})
	}
	r = append(r, v(rep))
	m := &Maps{IM: map[uint64]*Plain{}, SS: map[string]string{}}
	for i := 0; i < 400; i++ {
		m.IM[uint64(i)<<8] = &Plain{I32: int32(i)}
		m.SS[fmt.Sprint(i)] = str[:i%7]
	}
	m.SS[str[:20000]] = str[:20000]
	r = append(r, v(m))
	deep := &Rec{V: 7}
	for i := 0; i < 300; i++ {
		switch i % 3 {
		case 0:
			deep = &Rec{Next: deep}
		case 1:
			deep = &Rec{V: 1, Kids: []*Rec{{}, deep}}
		case 2:
			deep = &Rec{Peer: &RecB{Back: deep}}
		}
	}
	return append(r, v(deep))
}

// ---------------------------------------------------------------- C02

func TestC02(t *testing.T) {
	scalarSweep(t, func(p reflect.Value) { encoding(t, p) })
	each(t, 3000, "ssooprrqmN", func(g *gen, typ reflect.Type) { encoding(t, g.msg(typ)) })
	g := rng("one field", 0)
	for i := 0; i < 3000*scale; i++ {
		typ := static[i%len(static)]
		s := schemaOf(typ)
		if len(s.fields) == 0 {
			continue
		}
		p := reflect.New(typ)
		d := s.fields[g.Intn(len(s.fields))]
		p.Elem().Field(d.idx).Set(g.value(d, 2))
		encoding(t, p)
	}
}

// ---------------------------------------------------------------- C03

func TestC03(t *testing.T) {
	// every scalar field of the static types, and the same behind a key of a map
	g := rng("c03", 0)
	flat := []reflect.Type{typeOf[Plain](), typeOf[Opts](), typeOf[Ptrs](), typeOf[Reps](), typeOf[Named](), typeOf[Tags](), typeOf[Maps](), typeOf[Sparse]()}
	overflow := [][]byte{
		{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02},
		{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02},
		{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x7f},
		{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00},
		{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	}
	for _, typ := range flat {
		for _, d := range schemaOf(typ).fields {
			var ps [][]byte
			tag := uv(nil, d.num<<3|uint64(d.wt))
			if d.wt == 0 {
				for _, x := range ints {
					for pad := 0; pad < 10; pad++ {
						m := uv(nil, x)
						for i := 0; i < pad && len(m) < 10; i++ {
							m[len(m)-1] |= 0x80
							m = append(m, 0)
						}
						ps = append(ps, m)
					}
				}
				for _, o := range overflow {
					got, _, err, werr := decode(t, append(append([]byte{}, tag...), o...), reflect.New(typ))
					if werr == nil || werr.class != 'O' {
						panic("overflow expected")
					}
					if err == nil {
						report(t, "a varint that does not fit 64 bits is accepted", typ, "input", append(append([]byte{}, tag...), o...), "found", got)
					}
				}
			}
			for i := 0; i < 40*scale; i++ {
				ps = append(ps, g.occurrence(nil, d, 2)[0:])
			}
			for i, p := range ps {
				b := p
				if d.wt == 0 && i < len(ps)-40*scale {
					b = append(append([]byte{}, tag...), p...)
				}
				values(t, b, reflect.New(typ))
			}
		}
	}
	each(t, 3000, allShapes, func(g *gen, typ reflect.Type) {
		if s := schemaOf(typ); len(s.fields) > 0 {
			values(t, g.occurrence(nil, s.fields[g.Intn(len(s.fields))], 2), reflect.New(typ))
		}
	})
}

// ---------------------------------------------------------------- C04

func TestC04(t *testing.T) {
	check := func(p reflect.Value) {
		b := mustMarshal(t, p)
		q := reflect.New(p.Type().Elem())
		o := unmarshal(b, q)
		if o.panicked != "" || o.err != nil {
			report(t, "the encoding of a message is not decoded", p.Type(), "value", p, "encoding", b, "panic", o.panicked, "error", fmt.Sprint(o.err))
		}
		if d := sameRT(q.Elem(), p.Elem()); d != "" {
			report(t, "the message decoded differs from the one encoded (decoded vs encoded): "+d, p.Type(), "value", p, "encoding", b, "decoded", q)
		}
	}
	veryDeep(t)
	each(t, 6000, allShapes, func(g *gen, typ reflect.Type) { check(g.msg(typ)) })
	scalarSweep(t, check)
	for _, p := range big() {
		check(p)
	}
}

// veryDeep encodes and decodes a message nested 11000 levels deep.
func veryDeep(t *testing.T) {
	const n = 11000
	deep := &Rec{V: 7}
	for i := 1; i < n; i++ {
		if i%100 == 50 {
			deep = &Rec{Kids: []*Rec{deep}}
		} else {
			deep = &Rec{Next: deep}
		}
	}
	b := mustMarshal(t, reflect.ValueOf(deep))
	r := new(Rec)
	if o := unmarshal(b, reflect.ValueOf(r)); o.panicked != "" || o.err != nil {
		report(t, fmt.Sprintf("a message nested %d deep does not survive", n), typeOf[Rec](), "encoding", b, "panic", o.panicked, "error", fmt.Sprint(o.err))
	}
	k := 1
	for ; r.Next != nil || len(r.Kids) == 1; k++ {
		if r.Next != nil {
			r = r.Next
		} else {
			r = r.Kids[0]
		}
	}
	if k != n || r.V != 7 {
		report(t, fmt.Sprintf("a message nested %d deep comes back %d deep, with value %d", n, k, r.V), typeOf[Rec](), "encoding", b)
	}
}

// ---------------------------------------------------------------- C05

type arena struct{ mem []byte }

func newArena() *arena {
	const n = 1 << 16
	m, err := syscall.Mmap(-1, 0, n+2*4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil
	}
	syscall.Mprotect(m[:4096], syscall.PROT_NONE)
	syscall.Mprotect(m[4096+n:], syscall.PROT_NONE)
	return &arena{m[4096 : 4096+n : 4096+n]}
}

// atEnd copies b so that the byte after it is not readable.
func (a *arena) atEnd(b []byte) []byte {
	d := a.mem[len(a.mem)-len(b):]
	copy(d, b)
	return d[:len(b):len(b)]
}
func (a *arena) atStart(b []byte) []byte {
	copy(a.mem, b)
	return a.mem[:len(b):len(b)]
}

func poisoned(b []byte, fill byte) []byte {
	c := make([]byte, len(b), len(b)+64)
	copy(c, b)
	for i := range c[len(b):cap(c)] {
		c[len(b):cap(c)][i] = fill
	}
	return c
}

func TestC05(t *testing.T) {
	debug.SetPanicOnFault(true)
	a := newArena()
	try := func(b []byte, typ reflect.Type) {
		pre := reflect.New(typ)
		want := refDecode(b, reflect.New(typ).Elem())
		run := func(b []byte, how string) (reflect.Value, error) {
			p := clone(pre)
			o := unmarshal(b, p)
			if o.panicked != "" {
				report(t, "Unmarshal panics ("+how+")", typ, "input", b, "panic", o.panicked)
			}
			return p, o.err
		}
		p1, e1 := run(poisoned(b, 0), "input followed by zeros")
		p2, e2 := run(poisoned(b, 0xff), "input followed by 0xff")
		p3, e3 := run(poisoned(b, 0x08), "input followed by 0x08")
		es := func(e error) string { return fmt.Sprint(e) }
		if es(e1) != es(e2) || es(e1) != es(e3) {
			report(t, "the outcome depends on memory behind the input", typ, "input", b, "followed by 0x00", es(e1), "followed by 0xff", es(e2), "followed by 0x08", es(e3))
		}
		if e1 == nil {
			if d := same(p1.Elem(), p2.Elem()); d != "" {
				report(t, "the message decoded depends on memory behind the input: "+d, typ, "input", b)
			}
			if d := same(p1.Elem(), p3.Elem()); d != "" {
				report(t, "the message decoded depends on memory behind the input: "+d, typ, "input", b)
			}
			if want != nil && (want.class == 'E' || want.class == 'W') {
				report(t, "success is reported although the input was not consumed completely", typ, "input", b, "expected", want.String())
			}
		}
		if a != nil && len(b) < len(a.mem) {
			run(a.atEnd(b), "input at the end of readable memory")
			run(a.atStart(b), "input at the start of readable memory")
		}
	}
	each(t, 12000, allShapes, func(g *gen, typ reflect.Type) {
		b := g.wire(schemaOf(typ), 3)
		if g.Intn(6) > 0 {
			b = g.mutate(b)
		}
		if g.Intn(20) == 0 {
			b = make([]byte, g.Intn(30))
			g.Read(b)
		}
		try(b, typ)
	})
	// declared lengths around the limits of the machine's integers
	for _, typ := range static {
		fs := schemaOf(typ).fields
		nums := []uint64{77777, 1}
		for _, d := range fs {
			nums = append(nums, d.num)
		}
		for _, num := range nums {
			for _, l := range append([]uint64{3, 4, 5, 11, 12, 13, 14, 15, 16, 17}, ints...) {
				for _, tail := range []int{0, 1, 3, 4} {
					for _, head := range []int{0, 3} {
						var b []byte
						for i := 0; i < head; i++ {
							b = append(b, 0xf8, 0xff, 0xff, 0x07, 1) // unknown varint field
						}
						b = uv(uv(b, num<<3|2), l)
						b = append(b, make([]byte, tail)...)
						try(b, typ)
						try(uv(uv(append([]byte{}, uv(uv(nil, num<<3|2), uint64(len(b)))...), num<<3|2), l), typ)
					}
				}
			}
			for wt := 0; wt < 8; wt++ {
				for n := 0; n < 12; n++ {
					try(append(uv(nil, num<<3|uint64(wt)), bytes.Repeat([]byte{0x80}, n)...), typ)
					try(append(uv(nil, num<<3|uint64(wt)), bytes.Repeat([]byte{0xff}, n)...), typ)
					try(append(uv(nil, num<<3|uint64(wt)), make([]byte, n)...), typ)
				}
			}
		}
	}
	// long inputs
	long := bytes.Repeat([]byte{0x10, 1}, 1<<20)
	p := reflect.New(typeOf[Reps]())
	if o := unmarshal(long, p); o.panicked != "" || o.err != nil {
		report(t, "long input of repeated elements", typeOf[Reps](), "panic", o.panicked, "error", fmt.Sprint(o.err))
	}
	long = bytes.Repeat([]byte{0xf8, 0xff, 0x01, 1, 0xfd, 0xff, 0x01, 0, 0, 0, 0}, 1<<18)
	if o := unmarshal(long, p); o.panicked != "" || o.err != nil {
		report(t, "long input of unknown fields", typeOf[Reps](), "panic", o.panicked, "error", fmt.Sprint(o.err))
	}
	deep := []byte{}
	for i := 0; i < 20000; i++ {
		l := uv(nil, uint64(len(deep)))
		deep = append(append(deep, l...), 0x0a) // built reversed
		for i, j := len(deep)-1-len(l), len(deep)-2; i < j; i, j = i+1, j-1 {
			deep[i], deep[j] = deep[j], deep[i]
		}
	}
	for i, j := 0, len(deep)-1; i < j; i, j = i+1, j-1 {
		deep[i], deep[j] = deep[j], deep[i]
	}
	if o := unmarshal(deep, reflect.New(typeOf[Rec]())); o.panicked != "" || o.err != nil {
		report(t, "20000 nested messages", typeOf[Rec](), "panic", o.panicked, "error", fmt.Sprint(o.err))
	}
}

type RecD struct {
	Next *RecD `protobuf:"bytes,1,opt"`
}

// TestC05Deep is the known finding: nesting is bounded by the stack only.
func TestC05Deep(t *testing.T) {
	if os.Getenv("VERIF_CHILD") != "deep" {
		out, err := child("TestC05Deep", "VERIF_CHILD=deep")
		switch {
		case strings.Contains(out, "DEEP-RETURNED"):
			fmt.Println("DEEP-OK")
		case err != nil && strings.Contains(out, "stack overflow"):
			fmt.Println("DEEP-OVERFLOW")
		case err != nil:
			report(t, "deeply nested input kills the process in an unexpected way", nil, "output", clips2(out, 4000))
		}
		return
	}
	debug.SetMaxStack(64 << 20)
	const n = 400000
	// lengths of the nested messages, innermost first
	lens := make([]int, n)
	cur := 0
	for i := range lens {
		lens[i] = cur
		cur += 1 + len(uv(nil, uint64(cur)))
	}
	b := make([]byte, 0, cur)
	for i := n - 1; i >= 0; i-- {
		b = uv(append(b, 0x0a), uint64(lens[i]))
	}
	fmt.Println("DEEP-START")
	proto.Unmarshal(b, &RecD{})
	fmt.Println("DEEP-RETURNED")
}

func child(test string, env ...string) (string, error) {
	c := exec.Command(os.Args[0], "-test.run=^"+test+"$", "-test.timeout=300s")
	c.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	return out.String(), err
}

// ---------------------------------------------------------------- C06

func TestC06(t *testing.T) {
	try := func(b []byte, typ reflect.Type) {
		_, _, err, werr := decode(t, b, reflect.New(typ))
		if werr == nil {
			return
		}
		if r := agree(err, werr); r != "" {
			report(t, r, typ, "input", b, "expected", werr.String())
		}
	}
	each(t, 4000, allShapes, func(g *gen, typ reflect.Type) {
		b := g.wire(schemaOf(typ), 3)
		for i := 0; i < 4; i++ {
			try(g.mutate(b), typ)
		}
		if len(b) < 200 {
			for i := range b {
				try(b[:i], typ)
			}
		}
		// a wrong wire type on some field
		s := schemaOf(typ)
		num := uint64(1 + g.Intn(3000))
		if len(s.fields) > 0 && g.Intn(3) > 0 {
			num = s.fields[g.Intn(len(s.fields))].num
		}
		for wt := 0; wt < 8; wt++ {
			c := append(append([]byte{}, b...), uv(nil, num<<3|uint64(wt))...)
			switch g.Intn(4) {
			case 0:
				c = g.varint(c, g.u64())
			case 1:
				c = append(c, 1, 2, 3, 4, 5, 6, 7, 8)[:len(c)+g.Intn(9)]
			case 2:
				c = append(append(c, 3), "abcd"[:g.Intn(5)]...)
			}
			try(c, typ)
		}
	})
}

// ---------------------------------------------------------------- C07

// sprinkle inserts unknown fields between the fields of b.
func (g *gen) sprinkle(b []byte, find func(uint64) *desc) []byte {
	var out []byte
	known := func(n uint64) bool { return find(n) != nil }
	for {
		for g.Intn(2) == 0 {
			out = g.unknown(out, known)
		}
		if len(b) == 0 {
			return out
		}
		tg, n, e := rvarint(b)
		if e != nil {
			return append(out, b...)
		}
		d := find(tg >> 3)
		_, data, rest, e := take(b[n:], int(tg&7))
		if e != nil || d != nil && d.wt != int(tg&7) {
			return append(out, b...)
		}
		for d != nil && (d.k == kRep || d.k == kPtr) {
			d = d.elem
		}
		switch {
		case d != nil && d.k == kMsg:
			s := schemaOf(d.t.Elem())
			data = g.sprinkle(data, func(n uint64) *desc { return s.byNum[n] })
			out = append(g.varint(append(out, b[:n]...), uint64(len(data))), data...)
		case d != nil && d.k == kMap:
			m := d
			data = g.sprinkle(data, func(n uint64) *desc {
				switch n {
				case m.key.num:
					return m.key
				case m.val.num:
					return m.val
				}
				return nil
			})
			out = append(g.varint(append(out, b[:n]...), uint64(len(data))), data...)
		default:
			out = append(out, b[:len(b)-len(rest)]...)
		}
		b = rest
	}
}

func TestC07(t *testing.T) {
	each(t, 8000, allShapes, func(g *gen, typ reflect.Type) {
		s := schemaOf(typ)
		b := g.wire(s, 3)
		if g.Intn(5) == 0 {
			b = g.mutate(b)
		}
		c := g.sprinkle(b, func(n uint64) *desc { return s.byNum[n] })
		pre := reflect.New(typ)
		if g.Intn(3) == 0 {
			pre = g.msg(typ)
		}
		p, q := clone(pre), clone(pre)
		o1, o2 := unmarshal(b, p), unmarshal(c, q)
		if o1.panicked != "" || o2.panicked != "" {
			report(t, "Unmarshal panics", typ, "input", b, "input with unknown fields", c, "panic", o1.panicked+o2.panicked)
		}
		if (o1.err == nil) != (o2.err == nil) {
			report(t, "unknown fields change the success of Unmarshal", typ, "input", b, "input with unknown fields", c, "without", fmt.Sprint(o1.err), "with", fmt.Sprint(o2.err))
		}
		if o1.err == nil {
			if d := same(q.Elem(), p.Elem()); d != "" {
				report(t, "unknown fields change the message (with vs without): "+d, typ, "input", b, "input with unknown fields", c)
			}
		}
	})
}

// ---------------------------------------------------------------- C08

func TestC08(t *testing.T) {
	scalarSweep(t, func(p reflect.Value) { encoding(t, p) })
	types := []reflect.Type{typeOf[Plain](), typeOf[Opts](), typeOf[Ptrs](), typeOf[Named](), typeOf[Sparse](), typeOf[Tags]()}
	g := rng("c08", 0)
	types = append(types, g.types(30, "soopp")...)
	for i := 0; i < 4000*scale; i++ {
		typ := types[i%len(types)]
		p := reflect.New(typ)
		for _, d := range schemaOf(typ).fields {
			v := p.Elem().Field(d.idx)
			switch g.Intn(4) {
			case 0:
				v.Set(g.value(d, 1))
			case 1: // present zero
				switch d.k {
				case kOption:
					v.Set(options[d.t].some(reflect.Zero(d.elem.t)))
				case kPtr, kMsg:
					v.Set(reflect.New(d.t.Elem()))
				case kScalar:
					if d.t.Kind() == reflect.Slice {
						v.Set(reflect.MakeSlice(d.t, 0, g.Intn(3)))
					} else if k := d.t.Kind(); k == reflect.Float32 || k == reflect.Float64 {
						v.SetFloat(math.Copysign(0, -1))
					}
				}
			}
		}
		encoding(t, p)
		q := reflect.New(typ)
		if g.Intn(2) == 0 {
			g.fill(q.Elem(), 1)
		}
		values(t, mustMarshal(t, p), q)
		values(t, g.wire(schemaOf(typ), 2), q)
	}
}

// ---------------------------------------------------------------- C09

func TestC09(t *testing.T) {
	g0 := rng("c09", 0)
	types := append([]reflect.Type{typeOf[Reps](), typeOf[Named](), typeOf[Tags](), typeOf[Rec](), typeOf[RecB](), typeOf[Sparse]()}, g0.types(30, "rrrqR")...)
	for i := 0; i < 5000*scale; i++ {
		g := rng("c09", i)
		typ := types[i%len(types)]
		var reps []*desc
		for _, d := range schemaOf(typ).fields {
			if d.k == kRep {
				reps = append(reps, d)
			}
		}
		if len(reps) == 0 {
			continue
		}
		encoding(t, g.msg(typ))
		d := reps[g.Intn(len(reps))]
		pre := reflect.New(typ)
		// elements present, and leftovers in the spare capacity
		if g.Intn(4) > 0 {
			c := g.Intn(24)
			n := 0
			if c > 0 {
				n = g.Intn(c + 1)
			}
			s := reflect.MakeSlice(d.t, c, c)
			for i := 0; i < c; i++ {
				s.Index(i).Set(g.value(d.elem, 1))
			}
			pre.Elem().Field(d.idx).Set(s.Slice(0, n))
		}
		b := []byte{}
		for k := 1 + g.Intn(14); k > 0; k-- {
			if g.Intn(6) == 0 {
				b = g.occurrence(b, reps[g.Intn(len(reps))], 2)
			}
			b = g.occurrence(b, d, 2)
		}
		values(t, b, pre)
		bad := g.mutate(b)
		got, want, err, werr := decode(t, bad, pre)
		if err != nil && werr != nil {
			for _, d := range reps {
				if r := d.same(got.Elem().Field(d.idx), want.Elem().Field(d.idx), fmt.Sprint(d.num), false, false); r != "" {
					report(t, "repeated field after an error (found vs expected): "+r, typ, "input", bad, "message before", pre, "error", err)
				}
			}
		}
		// the slice the elements were in before keeps them
		p := clone(pre)
		old := p.Elem().Field(d.idx)
		view := reflect.MakeSlice(old.Type(), 0, 0)
		view = old.Slice(0, old.Len())
		keep := clone(view)
		if o := unmarshal(b, p); o.panicked == "" && o.err == nil {
			for i := 0; i < keep.Len(); i++ {
				if r := d.elem.same(view.Index(i), keep.Index(i), fmt.Sprintf("[%d]", i), false, true); r != "" {
					report(t, "an element already present changed: "+r, typ, "input", b, "message before", pre)
				}
			}
		}
	}
	for _, p := range big() {
		encoding(t, p)
	}
	values(t, bytes.Repeat([]byte{0x10, 5}, 5000), reflect.New(typeOf[Reps]()))
	for _, p := range big() {
		values(t, refMsg(p.Elem()), reflect.New(p.Type().Elem()))
	}
}

// ---------------------------------------------------------------- C10

func TestC10(t *testing.T) {
	g0 := rng("c10", 0)
	types := append([]reflect.Type{typeOf[Maps](), typeOf[Named](), typeOf[Tags](), typeOf[Rec](), typeOf[Maps](), typeOf[Sparse]()}, g0.types(40, "mmNs")...)
	for i := 0; i < 5000*scale; i++ {
		g := rng("c10", i)
		typ := types[i%len(types)]
		var maps []*desc
		for _, d := range schemaOf(typ).fields {
			if d.k == kMap {
				maps = append(maps, d)
			}
		}
		if len(maps) == 0 {
			continue
		}
		encoding(t, g.msg(typ))
		d := maps[g.Intn(len(maps))]
		one := reflect.New(typ)
		m := reflect.MakeMap(d.t)
		one.Elem().Field(d.idx).Set(m)
		encoding(t, one)
		m.SetMapIndex(reflect.Zero(d.key.t), reflect.Zero(d.val.t))
		encoding(t, one)
		// runs of entries with failures in between: pooled state must not leak
		for k := 0; k < 4; k++ {
			var b []byte
			for j := 1 + g.Intn(5); j > 0; j-- {
				b = g.occurrence(b, d, 2)
			}
			if g.Intn(2) == 0 {
				bad := g.mutate(b)
				got, want, err, werr := decode(t, bad, reflect.New(typ))
				if err != nil && werr != nil {
					if r := d.same(got.Elem().Field(d.idx), want.Elem().Field(d.idx), fmt.Sprint(d.num), false, false); r != "" {
						report(t, "map after an error (found vs expected): "+r, typ, "input", bad, "error", err)
					}
				}
			}
			pre := reflect.New(typ)
			if g.Intn(2) == 0 {
				g.fill(pre.Elem(), 2)
			}
			values(t, b, pre)
		}
	}
	for _, p := range big() {
		encoding(t, p)
	}
	// very many entries
	many := &Maps{LL: map[int64]int64{}, BB: map[bool]bool{true: true}}
	for i := int64(0); i < 70000; i++ {
		many.LL[i*7] = -i
	}
	p := reflect.ValueOf(many)
	b := mustMarshal(t, p)
	got, n := reflect.New(typeOf[Maps]()), 0
	if e := refDecode(b, got.Elem()); e != nil || same(got.Elem(), p.Elem()) != "" {
		report(t, "a map of 70000 entries is not encoded as such", p.Type())
	}
	for rest := b; len(rest) > 0; n++ {
		_, k, _ := rvarint(rest)
		_, _, rest, _ = take(rest[k:], 2)
	}
	if n != 70001 {
		report(t, fmt.Sprintf("70001 map elements are encoded in %d entries", n), p.Type())
	}
	values(t, b, reflect.New(typeOf[Maps]()))
}

// ---------------------------------------------------------------- C11

func TestC11(t *testing.T) {
	g0 := rng("c11", 0)
	types := append([]reflect.Type{typeOf[Rec](), typeOf[RecB](), typeOf[Ptrs](), typeOf[Reps](), typeOf[Sparse](), typeOf[Maps]()}, g0.types(40, "nnRNs")...)
	for i := 0; i < 6000*scale; i++ {
		g := rng("c11", i)
		typ := types[i%len(types)]
		p := g.msg(typ)
		encoding(t, p)
		pre := reflect.New(typ)
		if g.Intn(2) == 0 {
			g.fill(pre.Elem(), 3)
		}
		b := g.wire(schemaOf(typ), 4)
		values(t, b, pre)
		got, _, err, werr := decode(t, g.mutate(b), pre)
		if werr == nil && err != nil || werr != nil && werr.class == 'E' && err == nil {
			report(t, "nested message read beyond its delimiter", typ, "input", b, "found", got, "error", fmt.Sprint(err), "expected", werr.String())
		}
		// an existing nested message is merged into, in place
		for _, d := range schemaOf(typ).fields {
			if d.k != kMsg {
				continue
			}
			m := clone(pre)
			before := m.Elem().Field(d.idx)
			if before.IsNil() {
				continue
			}
			addr := before.Pointer()
			if o := unmarshal(g.occurrence(nil, d, 2), m); o.err == nil && m.Elem().Field(d.idx).Pointer() != addr {
				report(t, fmt.Sprintf("field %d: the existing nested message is replaced, not merged into", d.num), typ, "message before", pre)
			}
		}
	}
	// same number in parent and child, truncated children
	for cut := 0; cut < 12; cut++ {
		inner := []byte{0x08, 0x96, 0x01, 0x12, 0x03, 'a', 'b', 'c', 0x1a, 0x01, 'z', 0x08, 0x07}
		inner = inner[:len(inner)-cut]
		b := append(uv(uv(nil, 16<<3|2), uint64(len(inner))), inner...)
		b = append(b, 0x72, 3, 'x', 'y', 'z', 0x08, 1)
		_, _, err, werr := decode(t, b, reflect.New(typeOf[Ptrs]()))
		if r := agree(err, werr); r != "" {
			report(t, r, typeOf[Ptrs](), "input", b)
		}
	}
	for _, p := range big() {
		encoding(t, p)
		values(t, refMsg(p.Elem()), reflect.New(p.Type().Elem()))
	}
	veryDeep(t)
}

// ---------------------------------------------------------------- C12

func TestC12(t *testing.T) {
	if o := os.Getenv("VERIF_CHILD"); o != "" {
		n, _ := strconv.Atoi(o)
		g := rng("c12", n)
		types := append(append([]reflect.Type{}, static...), rng("c12", -1).types(60, "ssoprqmnRN")...)
		// the types with the same Go field types and other tags
		for i := 0; i < 60; i++ {
			st, _ := g.scalarT()
			var fs []reflect.StructField
			for k := 0; k < 6; k++ {
				tag := st.tags[g.Intn(len(st.tags))]
				typ, extra := st.t, ""
				num := 1 + g.Intn(1<<uint(1+4*k))
				switch g.Intn(5) {
				case 0:
					typ = reflect.SliceOf(st.t)
				case 1:
					typ = reflect.PtrTo(st.t)
				case 2:
					typ = reflect.MapOf(typeOf[int32](), st.t)
					extra = fmt.Sprintf(` protobuf_key:"%s,1,opt" protobuf_val:"%s,2,opt"`, []string{"varint", "zigzag32", "fixed32"}[g.Intn(3)], tag)
					tag = "bytes"
				case 3:
					typ = reflect.SliceOf(reflect.PtrTo(st.t))
				}
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", k), Type: typ, Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s"%s`, g.options(fmt.Sprintf("%s,%d,opt", tag, num*8+k+1)), extra))})
			}
			types = append(types, reflect.StructOf(fs))
		}
		g.Shuffle(len(types), func(i, j int) { types[i], types[j] = types[j], types[i] })
		for i := 0; i < 1500; i++ {
			typ := types[i%len(types)]
			switch g.Intn(3) {
			case 0:
				encoding(t, g.msg(typ))
			case 1:
				p := g.msg(typ)
				if o := size(p); o.panicked != "" || o.n != len(refMsg(p.Elem())) {
					report(t, fmt.Sprintf("Size is %d, expected %d", o.n, len(refMsg(p.Elem()))), typ, "value", p, "panic", o.panicked, "order", n)
				}
			default:
				values(t, g.wire(schemaOf(typ), 3), reflect.New(typ))
			}
		}
		// ignored fields
		s := &Sparse{hidden: 7, NoTag: "n", Other: "o", pad: 3, hidden2: &Leaf{A: 1}}
		b := mustMarshal(t, reflect.ValueOf(s))
		if len(b) != 0 {
			report(t, "fields without a tag or unexported fields are encoded", typeOf[Sparse](), "encoding", b)
		}
		if err := proto.Unmarshal([]byte{0x08, 9, 0x1a, 0, 0x78 | 5, 1, 0, 0, 0}, s); err != nil || s.hidden != 7 || s.NoTag != "n" || s.Other != "o" || s.pad != 3 || s.hidden2.A != 1 || s.O != 1 {
			report(t, "fields without a tag or unexported fields are decoded into", typeOf[Sparse](), "found", fmt.Sprintf("%+v", s), "error", fmt.Sprint(err))
		}
		return
	}
	children(t, "TestC12", 6*scale)
}

func children(t *testing.T, test string, n int) {
	var wg sync.WaitGroup
	outs := make([]string, n)
	errs := make([]error, n)
	sem := make(chan bool, runtime.NumCPU())
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			outs[i], errs[i] = child(test, fmt.Sprintf("VERIF_CHILD=%d", i+1))
			<-sem
		}()
	}
	wg.Wait()
	for i := range outs {
		if j := strings.Index(outs[i], "FAILING-INPUT"); j >= 0 {
			fmt.Printf("\n%s\n", outs[i][j:])
			t.FailNow()
		}
		if errs[i] != nil {
			report(t, "process died", nil, "run", i+1, "output", clips2(outs[i], 12000))
		}
		if k := strings.LastIndex(outs[i], "CASES "); k >= 0 {
			var c int64
			var d int
			fmt.Sscanf(outs[i][k:], "CASES %d\nDISTINCT %d", &c, &d)
			cases += c
			distinct += d
		}
		if k := strings.Index(outs[i], "SAMPLE "); k >= 0 && len(samples) < 6 {
			samples = append(samples, strings.TrimPrefix(strings.SplitN(outs[i][k:], "\n", 2)[0], "SAMPLE "))
		}
	}
}

// ---------------------------------------------------------------- C13

type (
	Node[T any] struct {
		V    int32                `protobuf:"zigzag32,1,opt"`
		Next *Node[T]             `protobuf:"bytes,2,opt"`
		Peer *Pair[T]             `protobuf:"bytes,3,opt"`
		L    []*Node[T]           `protobuf:"bytes,4,rep"`
		M    map[int32]*Pair[T]   `protobuf:"bytes,5,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
		S    proto.Option[string] `protobuf:"bytes,6,opt"`
		R    []string             `protobuf:"bytes,7,rep"`
		Z    []int32              `protobuf:"zigzag32,8,rep"`
	}
	Pair[T any] struct {
		Back *Node[T]            `protobuf:"bytes,1,opt"`
		Two  *Pair[T]            `protobuf:"bytes,2,opt"`
		P    *int64              `protobuf:"fixed64,3,opt"`
		Ns   map[string]*Node[T] `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		F    float64             `protobuf:"fixed64,5,opt"`
		Vs   []int32             `protobuf:"varint,6,rep"`
	}
	// Bad reaches good types before its own unsupported field.
	Bad[T any] struct {
		N *Node[T] `protobuf:"bytes,1,opt"`
		B *Bad[T]  `protobuf:"bytes,2,opt"`
		C chan int `protobuf:"varint,3,opt"`
	}
	BadIn[T any] struct {
		P *Pair[T] `protobuf:"bytes,1,opt"`
		B *Bad[T]  `protobuf:"bytes,2,opt"`
		Q *Good[T] `protobuf:"bytes,3,opt"`
	}
	Good[T any] struct {
		A int32      `protobuf:"varint,1,opt"`
		Q *Good[T]   `protobuf:"bytes,2,opt"`
		R []*Good[T] `protobuf:"bytes,3,rep"`
	}
)

type (
	m0 struct{}
	m1 struct{}
	m2 struct{}
	m3 struct{}
	m4 struct{}
	m5 struct{}
	m6 struct{}
	m7 struct{}
)

type family struct {
	good []reflect.Type
	bad  []reflect.Type
}

func fam[T any]() family {
	return family{
		[]reflect.Type{typeOf[Node[T]](), typeOf[Pair[T]](), typeOf[Good[T]]()},
		[]reflect.Type{typeOf[Bad[T]](), typeOf[BadIn[T]]()},
	}
}

func fams() []family {
	return []family{fam[m0](), fam[m1](), fam[m2](), fam[m3](), fam[m4](), fam[m5](), fam[m6](), fam[m7](),
		fam[[1]m0](), fam[[2]m0](), fam[[3]m0](), fam[[4]m0](), fam[[5]m0](), fam[[6]m0](), fam[[7]m0](), fam[[8]m0](),
		fam[[1]m1](), fam[[2]m1](), fam[[3]m1](), fam[[4]m1](), fam[[5]m1](), fam[[6]m1](), fam[[7]m1](), fam[[8]m1]()}
}

func TestC13(t *testing.T) {
	if o := os.Getenv("VERIF_CHILD"); o != "" {
		n, _ := strconv.Atoi(o)
		for fi, f := range fams() {
			g := rng("c13", n*100+fi)
			const workers = 16
			start := make(chan bool)
			var wg sync.WaitGroup
			fails := make(chan func(), workers*8)
			extra := g.structType(5, "srmnRN", f.good)
			all := append([]reflect.Type{extra}, f.good...)
			for w := 0; w < workers; w++ {
				w := w
				g := rng("c13w", n*10000+fi*100+w)
				typ := all[(w+n)%len(all)]
				p := g.msg(typ)
				in := g.wire(schemaOf(typ), 4)
				want := reflect.New(typ)
				werr := refDecode(in, want.Elem())
				ref := len(refMsg(p.Elem()))
				bad := w%5 == 4
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							s := fmt.Sprint(r, "\n", string(debug.Stack()))
							fails <- func() { report(t, "a concurrent call panics", typ, "panic", s) }
						}
					}()
					<-start
					if bad {
						func() {
							defer func() { recover() }()
							b := f.bad[w%2]
							proto.Marshal(reflect.New(b).Interface())
						}()
					}
					for rep := 0; rep < 2; rep++ {
						switch (w + rep) % 3 {
						case 0:
							b, err := proto.Marshal(p.Interface())
							note("Marshal", typ, b)
							if err == nil {
								err = match(p.Elem(), b)
							}
							if err != nil {
								fails <- func() {
									report(t, "concurrent Marshal: "+err.Error(), typ, "value", p, "found", b)
								}
							}
						case 1:
							q := reflect.New(typ)
							err := proto.Unmarshal(in, q.Interface())
							note("Unmarshal", typ, in)
							if werr == nil {
								if d := same(q.Elem(), want.Elem()); err != nil || d != "" {
									fails <- func() {
										report(t, "concurrent Unmarshal: "+d, typ, "input", in, "error", fmt.Sprint(err))
									}
								}
							}
						case 2:
							if s := proto.Size(p.Interface()); s != ref {
								fails <- func() {
									report(t, fmt.Sprintf("concurrent Size is %d, expected %d", s, ref), typ, "value", p)
								}
							}
						}
						atomicAdd()
					}
				}()
			}
			close(start)
			wg.Wait()
			select {
			case f := <-fails:
				f()
			default:
			}
			// after a failure on an unsupported type the types it reached still work
			for _, typ := range append(all, f.good...) {
				p := g.msg(typ)
				encoding(t, p)
				values(t, g.wire(schemaOf(typ), 3), reflect.New(typ))
			}
		}
		// sequential: failure first
		type K struct{}
		f := fam[K]()
		for _, b := range f.bad {
			func() {
				defer func() { recover() }()
				proto.Marshal(reflect.New(b).Interface())
			}()
		}
		for k := 0; k < 2; k++ {
			for _, b := range f.bad {
				ok := func() (ok bool) {
					defer func() { recover() }()
					proto.Size(reflect.New(b).Interface())
					return true
				}()
				if ok {
					report(t, "a type with an unsupported field is accepted after it was rejected", b)
				}
			}
		}
		g := rng("c13s", n)
		for i := 0; i < 60; i++ {
			typ := f.good[i%len(f.good)]
			encoding(t, g.msg(typ))
			values(t, g.wire(schemaOf(typ), 3), reflect.New(typ))
		}
		return
	}
	children(t, "TestC13", 5*scale)
}

func atomicAdd() { atomic.AddInt64(&cases, 1) }

// ---------------------------------------------------------------- C14

type iface interface{ M() }
type byVal struct {
	A int32 `protobuf:"varint,1,opt"`
}

func (byVal) M() {}

func TestC14(t *testing.T) {
	n := 3
	np := &n
	var nilIface iface
	var nilLeaf *Leaf
	var nilpp **Leaf
	pp := &nilLeaf
	var e error
	s := []byte{1}
	leaf := Leaf{A: 1}
	sp := &s
	bad := []any{nil, 0, 1, int32(5), uint64(7), "", "abc", 1.5, float32(2), true, complex(1, 2), uintptr(9), leaf, Empty{}, byVal{1}, nilIface, e, s, []byte(nil), []int{1}, [3]int{1, 2, 3}, [0]int{}, [1]*Leaf{&leaf}, [1]int{3},
		map[string]int{"a": 1}, map[string]int(nil), make(chan int), (chan int)(nil), func() {}, (func())(nil), np, (*int)(nil), pp, nilpp, sp, (*[]byte)(nil), new(string), new(any), new(error), new(map[string]int), new([2]Leaf), new(func()), new(chan int),
		unsafe.Pointer(np), unsafe.Pointer(nil), reflect.ValueOf(leaf), struct{}{}, struct{ P *Leaf }{&leaf}, NBytes{1}, Enum(3), new(Enum), errors.New("x") == nil, proto.Some(int32(1)), io.EOF == nil, new(*int), new(**Leaf), [1]map[string]int{{"a": 1}}, struct{ M map[string]int }{nil}, struct{ F func() }{func() {}}}
	inputs := [][]byte{{0x08, 1}, {0x0a, 2, 8, 1}, {0}, {0xff}, {0x80, 0x80}, bytes.Repeat([]byte{8, 1}, 40)}
	for i, v := range bad {
		before := fmt.Sprintf("%#v", v)
		note("argument", reflect.TypeOf(&v), []byte(fmt.Sprintf("%T", v)+before))
		o := guard(func() string { return "Marshal" }, func(o *outcome) { o.b, o.err = proto.Marshal(v) })
		if o.panicked != "" || o.err == nil {
			report(t, fmt.Sprintf("Marshal(%T) does not report an error", v), nil, "argument", before, "index", i, "panic", o.panicked)
		}
		for _, b := range inputs {
			o = guard(func() string { return "Unmarshal" }, func(o *outcome) { o.err = proto.Unmarshal(b, v) })
			if o.panicked != "" || o.err == nil {
				report(t, fmt.Sprintf("Unmarshal(%T) does not report an error", v), nil, "argument", before, "input", b, "panic", o.panicked)
			}
			if o.err.Error() == "" {
				report(t, "empty error text", nil, "argument", before)
			}
		}
		if after := fmt.Sprintf("%#v", v); after != before {
			report(t, "the invalid argument was modified", nil, "before", before, "after", after)
		}
	}
	if n != 3 || len(s) != 1 || s[0] != 1 || nilLeaf != nil {
		report(t, "the target of an invalid argument was modified", nil)
	}
	g := rng("c14", 0)
	for _, typ := range append(append([]reflect.Type{}, static...), g.types(20, allShapes)...) {
		z := reflect.Zero(reflect.PtrTo(typ))
		for _, b := range append(inputs, g.wire(schemaOf(typ), 2)) {
			if len(b) == 0 {
				continue
			}
			o := unmarshal(b, z)
			if o.panicked != "" || o.err == nil {
				report(t, "Unmarshal into a nil pointer does not report an error", typ, "input", b, "panic", o.panicked)
			}
			if o := guard(func() string { return "Unmarshal" }, func(o *outcome) { o.err = proto.Unmarshal(b, reflect.New(typ).Elem().Interface()) }); o.panicked != "" || o.err == nil {
				report(t, "Unmarshal into a struct value does not report an error", typ, "input", b, "panic", o.panicked)
			}
			pz := reflect.New(z.Type())
			if o := unmarshal(b, pz); o.panicked != "" || o.err == nil || !pz.Elem().IsNil() {
				report(t, "Unmarshal into a pointer to a pointer does not report an error", typ, "input", b, "panic", o.panicked)
			}
		}
		if o := marshal(z); o.panicked != "" || o.err != nil || len(o.b) != 0 {
			report(t, "Marshal of a nil pointer is not the empty encoding", typ, "found", o.b, "error", fmt.Sprint(o.err), "panic", o.panicked)
		}
		if o := size(z); o.panicked != "" || o.n != 0 {
			report(t, "Size of a nil pointer is not zero", typ, "panic", o.panicked)
		}
		if o := marshal(reflect.New(z.Type())); o.panicked != "" || o.err == nil {
			report(t, "Marshal of a pointer to a pointer does not report an error", typ, "panic", o.panicked)
		}
		if o := guard(func() string { return "Marshal" }, func(o *outcome) { o.b, o.err = proto.Marshal(reflect.New(typ).Elem().Interface()) }); o.panicked != "" || o.err == nil {
			report(t, "Marshal of a struct value does not report an error", typ, "panic", o.panicked)
		}
	}
}

// ---------------------------------------------------------------- C15

func TestC15(t *testing.T) {
	each(t, 8000, allShapes, func(g *gen, typ reflect.Type) {
		s := schemaOf(typ)
		a, b := g.wire(s, 3), g.wire(s, 3)
		pre := reflect.New(typ)
		if g.Intn(3) == 0 {
			g.fill(pre.Elem(), 2)
		}
		p, q := clone(pre), clone(pre)
		o := unmarshal(append(append([]byte{}, a...), b...), p)
		o1 := unmarshal(a, q)
		o2 := unmarshal(b, q)
		if o.panicked+o1.panicked+o2.panicked != "" {
			report(t, "Unmarshal panics", typ, "a", a, "b", b, "panic", o.panicked+o1.panicked+o2.panicked)
		}
		if (o.err == nil) != (o1.err == nil && o2.err == nil) {
			report(t, "the concatenation and the parts differ in success", typ, "a", a, "b", b, "concatenation", fmt.Sprint(o.err), "a alone", fmt.Sprint(o1.err), "then b", fmt.Sprint(o2.err))
		}
		if o.err == nil {
			if d := same(p.Elem(), q.Elem()); d != "" {
				report(t, "decoding the concatenation differs from decoding the parts in turn: "+d, typ, "a", a, "b", b, "message before", pre, "concatenation", p, "in turn", q)
			}
		}
		values(t, append(append([]byte{}, a...), b...), pre)
	})
}

// ---------------------------------------------------------------- C16

func optionChecks[T any](t *testing.T, vals []T, eq func(a, b T) bool) {
	var zero T
	fail := func(what string, v T) { report(t, what, typeOf[T](), "value", fmt.Sprintf("%#v", v)) }
	for _, v := range vals {
		o := proto.Some(v)
		for _, d := range vals {
			if !eq(o.UnwrapOr(d), v) {
				fail("Some(v).UnwrapOr(d) is not v", v)
			}
			if !eq(proto.None[T]().UnwrapOr(d), d) {
				fail("None.UnwrapOr(d) is not d", d)
			}
			if !eq((proto.Option[T]{}).UnwrapOr(d), d) {
				fail("Option{}.UnwrapOr(d) is not d", d)
			}
		}
		if !o.IsSome() || o.IsNone() || !eq(o.Unwrap(), v) || !eq(o.Unwrap(), v) {
			fail("Some(v) is not present with v", v)
		}
		c := o
		o = proto.None[T]()
		if !c.IsSome() || !eq(c.Unwrap(), v) {
			fail("a copy of an option changed", v)
		}
		atomicAdd()
		note("Option", typeOf[T](), []byte(fmt.Sprintf("%#v", v)))
	}
	for _, n := range []proto.Option[T]{{}, proto.None[T]()} {
		if n.IsSome() || !n.IsNone() || !eq(n.Unwrap(), zero) {
			fail("None is present", zero)
		}
	}
}

func TestC16(t *testing.T) {
	g := rng("c16", 0)
	N := 300 * scale
	optionChecks(t, []bool{false, true}, func(a, b bool) bool { return a == b })
	mk := func() (r []uint64) {
		r = append(r, ints...)
		for i := 0; i < N/4; i++ {
			r = append(r, g.Uint64())
		}
		return
	}
	var i32 []int32
	var i64 []int64
	var u32 []uint32
	var u64 []uint64
	var fs []float32
	var ds []float64
	var ss []string
	for _, x := range mk() {
		i32, i64, u32, u64 = append(i32, int32(x)), append(i64, int64(x)), append(u32, uint32(x)), append(u64, x)
		ds = append(ds, math.Float64frombits(x))
		f := new(float32)
		*(*uint32)(unsafe.Pointer(f)) = uint32(x)
		fs = append(fs, *f)
		ss = append(ss, string(g.blob()))
	}
	ds = append(ds, math.Inf(1), math.NaN(), math.Copysign(0, -1))
	optionChecks(t, i32, func(a, b int32) bool { return a == b })
	optionChecks(t, i64, func(a, b int64) bool { return a == b })
	optionChecks(t, u32, func(a, b uint32) bool { return a == b })
	optionChecks(t, u64, func(a, b uint64) bool { return a == b })
	feq := func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
	deq := func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
	optionChecks(t, fs, feq)
	optionChecks(t, ds, deq)
	optionChecks(t, ss, func(a, b string) bool { return a == b })
	l := &Leaf{}
	optionChecks(t, []*Leaf{nil, l, {}}, func(a, b *Leaf) bool { return a == b })
	optionChecks(t, []any{nil, 1, "x", l}, func(a, b any) bool { return a == b })
	optionChecks(t, []struct{ A, B int }{{}, {1, 2}}, func(a, b struct{ A, B int }) bool { return a == b })
	optionChecks(t, []Enum{0, 1, -1}, func(a, b Enum) bool { return a == b })
	optionChecks(t, []int8{0, 1, -1}, func(a, b int8) bool { return a == b })
	optionChecks(t, [][]byte{nil, {}, {1}}, func(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) })
	optionChecks(t, []map[string]int{nil, {"a": 1}}, func(a, b map[string]int) bool { return reflect.DeepEqual(a, b) })
	optionChecks(t, []proto.Option[int]{{}, proto.Some(0), proto.Some(1)}, func(a, b proto.Option[int]) bool { return a == b })
	for _, x := range i32 {
		if proto.Int32(x) != proto.Some(x) {
			report(t, "Int32", nil, "value", x)
		}
	}
	for _, x := range i64 {
		if proto.Int64(x) != proto.Some(x) {
			report(t, "Int64", nil, "value", x)
		}
	}
	for _, x := range u32 {
		if proto.Uint32(x) != proto.Some(x) {
			report(t, "Uint32", nil, "value", x)
		}
	}
	for _, x := range u64 {
		if proto.Uint64(x) != proto.Some(x) {
			report(t, "Uint64", nil, "value", x)
		}
	}
	for _, x := range ss {
		if proto.String(x) != proto.Some(x) {
			report(t, "String", nil, "value", x)
		}
	}
	for _, x := range fs {
		if o := proto.Float32(x); !o.IsSome() || !feq(o.Unwrap(), x) {
			report(t, "Float32", nil, "value", x)
		}
	}
	for _, x := range ds {
		if o := proto.Float64(x); !o.IsSome() || !deq(o.Unwrap(), x) {
			report(t, "Float64", nil, "value", x)
		}
	}
	if proto.Bool(true) != proto.Some(true) || proto.Bool(false) != proto.Some(false) || proto.Bool(false) == proto.None[bool]() {
		report(t, "Bool", nil)
	}
}

// ---------------------------------------------------------------- C18

// fingerprint covers everything reachable, addresses and spare capacity too.
func fingerprint(v reflect.Value) string {
	var b strings.Builder
	seen := map[uintptr]bool{}
	var w func(v reflect.Value)
	raw := func(v reflect.Value) {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		fmt.Fprintf(&b, "%x,", unsafe.Slice((*byte)(p.UnsafePointer()), v.Type().Size()))
	}
	w = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			fmt.Fprintf(&b, "p%x", v.Pointer())
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				w(v.Elem())
			}
		case reflect.Struct:
			if o := options[v.Type()]; o != nil {
				x, ok := o.get(v)
				fmt.Fprint(&b, ok)
				w(x)
				break
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					w(v.Field(i))
				}
			}
		case reflect.Slice:
			fmt.Fprintf(&b, "s%x:%d:%d[", v.Pointer(), v.Len(), v.Cap())
			if !v.IsNil() {
				f := v.Slice(0, v.Cap())
				for i := 0; i < f.Len(); i++ {
					w(f.Index(i))
				}
			}
			b.WriteString("]")
		case reflect.Map:
			fmt.Fprintf(&b, "m%x:%d{", v.Pointer(), v.Len())
			for _, k := range sortedKeys(v) {
				w(k)
				b.WriteString("=")
				w(v.MapIndex(k))
			}
			b.WriteString("}")
		case reflect.String:
			fmt.Fprintf(&b, "%q@%x", v.String(), unsafe.StringData(v.String()))
		case reflect.Chan, reflect.Func:
		default:
			raw(v)
		}
	}
	w(v)
	return b.String()
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xa5
	}
}

func TestC18(t *testing.T) {
	check := func(p reflect.Value) {
		before := fingerprint(p)
		o := size(p)
		out := mustMarshal(t, p)
		if fingerprint(p) != before {
			report(t, "Size or Marshal modified the message", p.Type(), "value", p)
		}
		_ = o
		keep := append([]byte{}, out...)
		out2 := mustMarshal(t, p)
		keep2 := append([]byte{}, out2...)
		if overlap(out, out2) {
			report(t, "two results of Marshal share memory (within their capacity)", p.Type(), "value", p)
		}
		scribble(out[:cap(out)])
		if fingerprint(p) != before {
			report(t, "writing to the slice Marshal returned changes the message", p.Type(), "value", p)
		}
		if !bytes.Equal(out2, keep2) {
			report(t, "writing to one result of Marshal changes another one", p.Type(), "value", p)
		}
		out3 := mustMarshal(t, p)
		if len(out3) != len(keep) || match(p.Elem(), out3) != nil && match(p.Elem(), keep) == nil {
			report(t, "writing to a result of Marshal changes later results", p.Type(), "value", p, "before", keep, "after", out3)
		}
		ext := append(out3, 1, 2, 3)
		_ = ext
		if fingerprint(p) != before || !bytes.Equal(out2, keep2) {
			report(t, "appending to a result of Marshal changes the message or another result", p.Type(), "value", p)
		}
		corrupt(p.Elem())
		if !bytes.Equal(out2, keep2) {
			report(t, "writing to the message changes a result of Marshal", p.Type(), "value", p)
		}
	}
	each(t, 2500, allShapes+"rrsm", func(g *gen, typ reflect.Type) { check(g.msg(typ)) })
	scalarSweep(t, check)
	for _, n := range []int{0, 1, 5, 600, 5000, 1 << 20} {
		check(reflect.ValueOf(&Leaf{B: bytes.Repeat([]byte{3}, n)}))
		check(reflect.ValueOf(&Reps{Bytes: [][]byte{bytes.Repeat([]byte{3}, n)}}))
		b := bytes.Repeat([]byte{3}, n)
		check(reflect.ValueOf(&Ptrs{Bytes: &b}))
		check(reflect.ValueOf(&Maps{ZB: map[int32][]byte{1: b}}))
	}
}

func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	pa, pb := uintptr(unsafe.Pointer(&a[:1][0])), uintptr(unsafe.Pointer(&b[:1][0]))
	return pa < pb+uintptr(cap(b)) && pb < pa+uintptr(cap(a))
}

// corrupt overwrites all byte slices reachable from v.
func corrupt(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			corrupt(v.Elem())
		}
	case reflect.Struct:
		if options[v.Type()] != nil {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				corrupt(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Cap() > 0 {
				scribble(v.Bytes())
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			corrupt(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			corrupt(v.MapIndex(k))
		}
	}
}

// ---------------------------------------------------------------- C19

func TestC19(t *testing.T) {
	turn := 0
	check := func(b []byte, pre reflect.Value) {
		turn++
		in := make([]byte, len(b), len(b)+32)
		if turn%2 == 0 { // nothing behind the input
			in = in[:len(b):len(b)]
		}
		copy(in, b)
		for i := range in[len(in):cap(in)] {
			in[len(in):cap(in)][i] = 0x5a
		}
		p := clone(pre)
		o := unmarshal(in, p)
		if o.panicked != "" {
			report(t, "Unmarshal panics", pre.Type(), "input", b, "panic", o.panicked)
		}
		if !bytes.Equal(in, b) {
			report(t, "Unmarshal wrote to its input", pre.Type(), "input", b, "after", in)
		}
		for _, c := range in[len(in):cap(in)] {
			if c != 0x5a {
				report(t, "Unmarshal wrote behind its input", pre.Type(), "input", b)
			}
		}
		f := fingerprint(p)
		scribble(in)
		if fingerprint(p) != f {
			report(t, "overwriting the input after Unmarshal changes the message", pre.Type(), "input", b, "message now", p, "error", fmt.Sprint(o.err))
		}
		// the other way round: writes to the message do not reach the input
		keep := append([]byte{}, in...)
		corrupt(p.Elem())
		if !bytes.Equal(in, keep) {
			report(t, "writing to the decoded message changes the input", pre.Type(), "input", b)
		}
	}
	each(t, 6000, allShapes+"rrsm", func(g *gen, typ reflect.Type) {
		b := g.wire(schemaOf(typ), 3)
		if g.Intn(4) == 0 {
			b = g.mutate(b)
		}
		pre := reflect.New(typ)
		if g.Intn(3) == 0 {
			g.fill(pre.Elem(), 2)
		}
		check(b, pre)
	})
	for _, p := range big() {
		check(refMsg(p.Elem()), reflect.New(p.Type().Elem()))
	}
	for _, n := range []int{0, 1, 2, 16, 31, 32, 33, 64, 100, 1000, 5000, 1 << 20} {
		s := strings.Repeat("k", n)
		bs := []byte(s)
		for _, m := range []any{&Plain{Str: s, Bytes: bs}, &Opts{Str: proto.Some(s)}, &Ptrs{Str: &s, Bytes: &bs}, &Reps{Str: []string{s, s}, Bytes: [][]byte{bs, bs}}, &Maps{SS: map[string]string{s: s}, ZB: map[int32][]byte{1: bs}, SM: map[string]*Maps{s: {}}}} {
			v := reflect.ValueOf(m)
			check(refMsg(v.Elem()), reflect.New(v.Type().Elem()))
			check(refMsg(v.Elem()), v)
		}
	}
}

// ---------------------------------------------------------------- C20

func TestC20(t *testing.T) {
	check := func(p reflect.Value) {
		encoding(t, p)
		b := mustMarshal(t, p)
		q := clone(p) // same value, other addresses
		c := mustMarshal(t, q)
		if len(b) != len(c) {
			report(t, "equal messages have encodings of different length", p.Type(), "value", p, "one", b, "other", c)
		}
		if err := match(p.Elem(), c); err != nil {
			report(t, "equal messages are encoded differently: "+err.Error(), p.Type(), "value", p, "one", b, "other", c)
		}
		if !hasMap(p.Elem()) && !bytes.Equal(b, c) {
			report(t, "the encoding is not deterministic", p.Type(), "value", p, "one", b, "other", c)
		}
	}
	each(t, 7000, allShapes, func(g *gen, typ reflect.Type) { check(g.msg(typ)) })
	for _, typ := range static {
		z := reflect.Zero(reflect.PtrTo(typ))
		if b := mustMarshal(t, z); len(b) != 0 {
			report(t, "a nil message encodes to something", typ, "found", b)
		}
		check(reflect.New(typ))
	}
	for _, p := range big() {
		check(p)
	}
	scalarSweep(t, check)
}

func hasMap(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && hasMap(v.Elem())
	case reflect.Struct:
		if options[v.Type()] != nil {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && hasMap(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if hasMap(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if hasMap(v.MapIndex(k)) {
				return true
			}
		}
	}
	return false
}
