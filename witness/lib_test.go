//go:build go1.22

// Reference model of the wire format used by the witness search. It only uses
// the public API of the package under test and shares no code with it.
package proto_test

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/RomiChan/protobuf/proto"
)

// ---------------------------------------------------------------- schema

type kind int

const (
	kScalar kind = iota
	kOption
	kPtr // pointer to scalar
	kMsg // pointer to struct
	kRep
	kMap
)

type desc struct {
	k        kind
	t        reflect.Type
	idx      int
	num      uint64
	wt       int
	zz       bool
	elem     *desc // Option, Ptr, Rep
	key, val *desc // Map
}

type schema struct {
	t      reflect.Type
	fields []*desc
	byNum  map[uint64]*desc
}

var schemas sync.Map // reflect.Type -> *schema

func schemaOf(t reflect.Type) *schema {
	if s, ok := schemas.Load(t); ok {
		return s.(*schema)
	}
	s := &schema{t: t, byNum: map[uint64]*desc{}}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, ok := f.Tag.Lookup("protobuf")
		if f.PkgPath != "" || !ok {
			continue
		}
		d := descOf(f.Type, tag, f.Tag.Get("protobuf_key"), f.Tag.Get("protobuf_val"))
		d.idx = i
		s.fields = append(s.fields, d)
		s.byNum[d.num] = d
	}
	a, _ := schemas.LoadOrStore(t, s)
	return a.(*schema)
}

type optionOps struct {
	elem reflect.Type
	some func(v reflect.Value) reflect.Value
	get  func(o reflect.Value) (reflect.Value, bool)
}

func mkOption[T any]() (reflect.Type, *optionOps) {
	var z T
	return reflect.TypeOf(proto.Option[T]{}), &optionOps{
		reflect.TypeOf(&z).Elem(),
		func(v reflect.Value) reflect.Value { return reflect.ValueOf(proto.Some(v.Interface().(T))) },
		func(o reflect.Value) (reflect.Value, bool) {
			op := o.Interface().(proto.Option[T])
			x := op.Unwrap()
			return reflect.ValueOf(&x).Elem(), op.IsSome()
		},
	}
}

var options = func() map[reflect.Type]*optionOps {
	m := map[reflect.Type]*optionOps{}
	add := func(t reflect.Type, o *optionOps) { m[t] = o }
	add(mkOption[bool]())
	add(mkOption[int32]())
	add(mkOption[int64]())
	add(mkOption[uint32]())
	add(mkOption[uint64]())
	add(mkOption[float32]())
	add(mkOption[float64]())
	add(mkOption[string]())
	return m
}()

func descOf(t reflect.Type, tag, ktag, vtag string) *desc {
	p := strings.Split(tag, ",")
	d := &desc{t: t}
	switch p[0] {
	case "varint":
		d.wt = 0
	case "zigzag32", "zigzag64":
		d.wt, d.zz = 0, true
	case "fixed32":
		d.wt = 5
	case "fixed64":
		d.wt = 1
	case "bytes":
		d.wt = 2
	default:
		panic("bad tag " + tag)
	}
	n, err := strconv.Atoi(p[1])
	if err != nil {
		panic(err)
	}
	d.num = uint64(n)
	sub := func(t reflect.Type) *desc {
		e := &desc{t: t, num: d.num, wt: d.wt, zz: d.zz}
		e.shape(tag)
		return e
	}
	if o := options[t]; o != nil {
		d.k = kOption
		d.elem = sub(o.elem)
		return d
	}
	switch t.Kind() {
	case reflect.Slice:
		if t.Elem().Kind() != reflect.Uint8 {
			d.k = kRep
			d.elem = sub(t.Elem())
			return d
		}
	case reflect.Map:
		d.k = kMap
		d.key = descOf(t.Key(), ktag, "", "")
		d.val = descOf(t.Elem(), vtag, "", "")
		return d
	}
	d.shape(tag)
	return d
}

func (d *desc) shape(tag string) {
	d.k = kScalar
	if d.t.Kind() == reflect.Ptr {
		if d.t.Elem().Kind() == reflect.Struct {
			d.k = kMsg
			return
		}
		d.k = kPtr
		d.elem = &desc{t: d.t.Elem(), num: d.num, wt: d.wt, zz: d.zz}
		d.elem.shape(tag)
	}
}

// ---------------------------------------------------------------- encoding

func uv(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func (d *desc) tag() []byte { return uv(nil, d.num<<3|uint64(d.wt)) }

// payload of a scalar, including the length prefix
func (d *desc) payload(v reflect.Value) []byte {
	var x uint64
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			x = 1
		}
	case reflect.Int32, reflect.Int64:
		x = uint64(v.Int())
		if d.zz {
			if v.Int() < 0 {
				x = ^x*2 + 1
			} else {
				x = x * 2
			}
		}
	case reflect.Uint32, reflect.Uint64:
		x = v.Uint()
	case reflect.Float32:
		x = uint64(math.Float32bits(float32At(v)))
	case reflect.Float64:
		x = math.Float64bits(v.Float())
	case reflect.String:
		return append(uv(nil, uint64(v.Len())), v.String()...)
	case reflect.Slice:
		return append(uv(nil, uint64(v.Len())), v.Bytes()...)
	default:
		panic("payload of " + v.Type().String())
	}
	switch d.wt {
	case 0:
		return uv(nil, x)
	case 5:
		return binary.LittleEndian.AppendUint32(nil, uint32(x))
	case 1:
		return binary.LittleEndian.AppendUint64(nil, x)
	}
	panic("wire type")
}

// float32At reads a float32 without quieting signalling NaNs.
func float32At(v reflect.Value) float32 {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return *(*float32)(p.UnsafePointer())
}

func isZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32:
		return math.Float32bits(float32At(v)) == 0
	case reflect.Float64:
		return math.Float64bits(v.Float()) == 0
	case reflect.Slice:
		return v.IsNil()
	}
	return v.IsZero()
}

// ref encodes v; order lists map keys in the order they are to be written.
func refMsg(v reflect.Value) []byte {
	var b []byte
	for _, d := range schemaOf(v.Type()).fields {
		b = append(b, d.field(v.Field(d.idx))...)
	}
	return b
}

func delimited(tag, body []byte) []byte {
	return append(uv(append([]byte{}, tag...), uint64(len(body))), body...)
}

func (d *desc) field(v reflect.Value) []byte {
	switch d.k {
	case kScalar:
		if isZero(v) {
			return nil
		}
		return d.always(v)
	case kRep:
		var b []byte
		for i := 0; i < v.Len(); i++ {
			b = append(b, d.elem.always(v.Index(i))...)
		}
		return b
	case kMap:
		var b []byte
		for _, k := range sortedKeys(v) {
			b = append(b, d.entry(k, v.MapIndex(k))...)
		}
		return b
	}
	return d.always(v)
}

func (d *desc) entry(k, v reflect.Value) []byte {
	return delimited(d.tag(), append(d.key.always(k), d.val.always(v)...))
}

// always encodes v even if zero (nil pointers and absent options excepted).
func (d *desc) always(v reflect.Value) []byte {
	switch d.k {
	case kScalar:
		return append(d.tag(), d.payload(v)...)
	case kOption:
		x, ok := options[d.t].get(v)
		if !ok {
			return nil
		}
		return d.elem.always(x)
	case kPtr:
		if v.IsNil() {
			return nil
		}
		return d.elem.always(v.Elem())
	case kMsg:
		if v.IsNil() {
			return nil
		}
		return delimited(d.tag(), refMsg(v.Elem()))
	}
	panic("always")
}

func sortedKeys(m reflect.Value) []reflect.Value {
	ks := m.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	return ks
}

// match checks that b is the encoding of v up to the order of map entries.
func match(v reflect.Value, b []byte) error {
	for _, d := range schemaOf(v.Type()).fields {
		var err error
		if b, err = d.matchField(v.Field(d.idx), b); err != nil {
			return fmt.Errorf("field %d: %w", d.num, err)
		}
	}
	if len(b) != 0 {
		return fmt.Errorf("%d bytes too many: %x", len(b), clipb(b))
	}
	return nil
}

func (d *desc) matchField(v reflect.Value, b []byte) ([]byte, error) {
	switch d.k {
	case kMsg:
		if v.IsNil() {
			return b, nil
		}
		body, rest, err := d.open(b)
		if err != nil {
			return b, err
		}
		return rest, match(v.Elem(), body)
	case kRep:
		var err error
		for i := 0; i < v.Len() && err == nil; i++ {
			e := v.Index(i)
			if d.elem.k == kMsg {
				b, err = d.elem.matchField(e, b)
			} else {
				b, err = prefix(b, d.elem.always(e))
			}
			if err != nil {
				err = fmt.Errorf("element %d: %w", i, err)
			}
		}
		return b, err
	case kMap:
		left := sortedKeys(v)
		for len(left) > 0 {
			body, rest, err := d.open(b)
			if err != nil {
				return b, fmt.Errorf("map entry (%d missing): %w", len(left), err)
			}
			hit := -1
			for i, k := range left {
				r, err := prefix(body, d.key.always(k))
				if err != nil {
					continue
				}
				x := v.MapIndex(k)
				if d.val.k == kMsg {
					r, err = d.val.matchField(x, r)
				} else {
					r, err = prefix(r, d.val.always(x))
				}
				if err == nil && len(r) == 0 {
					hit = i
					break
				}
			}
			if hit < 0 {
				return b, fmt.Errorf("map entry %x is none of the %d expected", clipb(body), len(left))
			}
			left = append(left[:hit:hit], left[hit+1:]...)
			b = rest
		}
		return b, nil
	}
	return prefix(b, d.field(v))
}

func prefix(b, want []byte) ([]byte, error) {
	if len(b) < len(want) || string(b[:len(want)]) != string(want) {
		return b, fmt.Errorf("expected %x, found %x", clipb(want), clipb(b))
	}
	return b[len(want):], nil
}

func (d *desc) open(b []byte) (body, rest []byte, err error) {
	if b, err = prefix(b, d.tag()); err != nil {
		return nil, b, err
	}
	l, n := binary.Uvarint(b)
	if n <= 0 || n != len(uv(nil, l)) {
		return nil, b, fmt.Errorf("length prefix is not a minimal varint: %x", clipb(b))
	}
	b = b[n:]
	if l > uint64(len(b)) {
		return nil, b, fmt.Errorf("length prefix %d exceeds the %d bytes that follow", l, len(b))
	}
	return b[:l], b[l:], nil
}

func clipb(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// ---------------------------------------------------------------- decoding

type at struct {
	num uint64
	wt  int
}

// rerr: class E truncated, O varint overflow, W unknown wire type, M mismatch
type rerr struct {
	class byte
	path  []at
}

func (e *rerr) in(num uint64, wt int) *rerr {
	return &rerr{e.class, append([]at{{num, wt}}, e.path...)}
}

func (e *rerr) String() string { return fmt.Sprintf("%c%v", e.class, e.path) }

func rvarint(b []byte) (x uint64, n int, e *rerr) {
	for i, c := range b {
		if c < 0x80 {
			if i > 9 || i == 9 && c > 1 {
				return 0, 0, &rerr{class: 'O'}
			}
			for j := i; j >= 0; j-- {
				x = x<<7 | uint64(b[j]&0x7f)
			}
			return x, i + 1, nil
		}
	}
	return 0, 0, &rerr{class: 'E'}
}

// take splits the payload of wire type wt off b.
func take(b []byte, wt int) (x uint64, data, rest []byte, e *rerr) {
	n := 0
	switch wt {
	case 0:
		if x, n, e = rvarint(b); e != nil {
			return 0, nil, nil, e
		}
	case 1:
		n = 8
	case 5:
		n = 4
	case 2:
		l, m, e := rvarint(b)
		if e != nil {
			return 0, nil, nil, e
		}
		if l > uint64(len(b)-m) {
			return 0, nil, nil, &rerr{class: 'E'}
		}
		return 0, b[m : m+int(l)], b[m+int(l):], nil
	default:
		return 0, nil, nil, &rerr{class: 'W'}
	}
	if n > len(b) {
		return 0, nil, nil, &rerr{class: 'E'}
	}
	if wt == 1 {
		x = binary.LittleEndian.Uint64(b)
	} else if wt == 5 {
		x = uint64(binary.LittleEndian.Uint32(b))
	}
	return x, nil, b[n:], nil
}

// refDecode merges b into the struct v.
func refDecode(b []byte, v reflect.Value) *rerr {
	s := schemaOf(v.Type())
	for len(b) > 0 {
		tg, n, e := rvarint(b)
		if e != nil {
			return e
		}
		b = b[n:]
		num, wt := tg>>3, int(tg&7)
		d := s.byNum[num]
		if d != nil && wt != d.wt {
			return (&rerr{class: 'M'}).in(num, wt)
		}
		x, data, rest, e := take(b, wt)
		if e != nil {
			return e.in(num, wt)
		}
		b = rest
		if d == nil {
			continue
		}
		if e := d.set(v.Field(d.idx), x, data); e != nil {
			return e.in(num, wt)
		}
	}
	return nil
}

func (d *desc) set(v reflect.Value, x uint64, data []byte) *rerr {
	switch d.k {
	case kScalar:
		v.Set(d.scalar(x, data))
	case kOption:
		v.Set(options[d.t].some(d.elem.scalar(x, data)))
	case kPtr:
		if v.IsNil() {
			v.Set(reflect.New(d.t.Elem()))
		}
		return d.elem.set(v.Elem(), x, data)
	case kMsg:
		if v.IsNil() {
			v.Set(reflect.New(d.t.Elem()))
		}
		return refDecode(data, v.Elem())
	case kRep:
		e := reflect.New(d.t.Elem()).Elem()
		if err := d.elem.set(e, x, data); err != nil {
			return err
		}
		s := reflect.MakeSlice(v.Type(), v.Len()+1, v.Len()+1)
		reflect.Copy(s, v)
		s.Index(v.Len()).Set(e)
		v.Set(s)
	case kMap:
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		k, e := reflect.New(d.key.t).Elem(), reflect.New(d.val.t).Elem()
		for b := data; len(b) > 0; {
			tg, n, er := rvarint(b)
			if er != nil {
				return er
			}
			b = b[n:]
			num, wt := tg>>3, int(tg&7)
			var f *desc
			var fv reflect.Value
			switch num {
			case d.key.num:
				f, fv = d.key, k
			case d.val.num:
				f, fv = d.val, e
			}
			if f != nil && wt != f.wt {
				return (&rerr{class: 'M'}).in(num, wt)
			}
			x, data, rest, er := take(b, wt)
			if er != nil {
				return er.in(num, wt)
			}
			b = rest
			if f != nil {
				if er := f.set(fv, x, data); er != nil {
					return er.in(num, wt)
				}
			}
		}
		v.SetMapIndex(k, e)
	}
	return nil
}

func (d *desc) scalar(x uint64, data []byte) reflect.Value {
	v := reflect.New(d.t).Elem()
	if d.zz {
		if d.t.Kind() == reflect.Int32 { // sint32 values have 32 bits
			x = uint64(uint32(x))
		}
		if x&1 == 1 {
			x = ^(x >> 1)
		} else {
			x >>= 1
		}
	}
	switch d.t.Kind() {
	case reflect.Bool:
		v.SetBool(x != 0)
	case reflect.Int32:
		v.SetInt(int64(int32(uint32(x))))
	case reflect.Int64:
		v.SetInt(int64(x))
	case reflect.Uint32:
		v.SetUint(uint64(uint32(x)))
	case reflect.Uint64:
		v.SetUint(x)
	case reflect.Float32:
		*(*uint32)(v.Addr().UnsafePointer()) = uint32(x)
	case reflect.Float64:
		*(*uint64)(v.Addr().UnsafePointer()) = x
	case reflect.String:
		v.SetString(string(data))
	case reflect.Slice:
		s := reflect.MakeSlice(d.t, len(data), len(data))
		reflect.Copy(s, reflect.ValueOf(data))
		v.Set(s)
	default:
		panic("scalar " + d.t.String())
	}
	return v
}

// ---------------------------------------------------------------- values

// same compares bit for bit; nil and empty repeated fields and maps agree,
// and inside collections nil and empty bytes.
func same(a, b reflect.Value) string { return sameAt(a, b, "", false, false) }

// sameRT additionally ignores nil pointers inside repeated fields.
func sameRT(a, b reflect.Value) string { return sameAt(a, b, "", true, false) }

func sameAt(a, b reflect.Value, path string, rt, in bool) string {
	s := schemaOf(a.Type())
	for _, d := range s.fields {
		if r := d.same(a.Field(d.idx), b.Field(d.idx), fmt.Sprintf("%s.%d", path, d.num), rt, in); r != "" {
			return r
		}
	}
	return ""
}

func (d *desc) same(a, b reflect.Value, path string, rt, in bool) string {
	diff := func(why string) string {
		return fmt.Sprintf("%s: %s: %s vs %s", path, why, clips(dump(a)), clips(dump(b)))
	}
	switch d.k {
	case kOption:
		x, ok := options[d.t].get(a)
		y, ok2 := options[d.t].get(b)
		if ok != ok2 {
			return diff("presence")
		}
		return d.elem.same(x, y, path, rt, in)
	case kPtr, kMsg:
		if a.IsNil() != b.IsNil() {
			return diff("presence")
		}
		if a.IsNil() {
			return ""
		}
		if d.k == kMsg {
			return sameAt(a.Elem(), b.Elem(), path, rt, false)
		}
		return d.elem.same(a.Elem(), b.Elem(), path, rt, in || rt)
	case kRep:
		ai, bi := elems(a, rt), elems(b, rt)
		if len(ai) != len(bi) {
			return diff("number of elements")
		}
		for i := range ai {
			if r := d.elem.same(ai[i], bi[i], fmt.Sprintf("%s[%d]", path, i), rt, true); r != "" {
				return r
			}
		}
		return ""
	case kMap:
		if a.Len() != b.Len() {
			return diff("number of entries")
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return diff("key " + dump(k) + " missing")
			}
			if r := d.val.same(a.MapIndex(k), y, fmt.Sprintf("%s[%s]", path, clips(dump(k))), rt, true); r != "" {
				return r
			}
		}
		return ""
	}
	switch d.t.Kind() {
	case reflect.Float32:
		if math.Float32bits(float32At(a)) != math.Float32bits(float32At(b)) {
			return diff("value")
		}
	case reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return diff("value")
		}
	case reflect.Slice:
		if !in && a.IsNil() != b.IsNil() {
			return diff("presence")
		}
		if string(a.Bytes()) != string(b.Bytes()) {
			return diff("value")
		}
	case reflect.String:
		if a.String() != b.String() {
			return diff("value")
		}
	default:
		if a.Interface() != b.Interface() {
			return diff("value")
		}
	}
	return ""
}

func elems(v reflect.Value, rt bool) []reflect.Value {
	var r []reflect.Value
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		if rt && e.Kind() == reflect.Ptr && e.IsNil() {
			continue
		}
		r = append(r, e)
	}
	return r
}

func clips(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func dump(v reflect.Value) string {
	if o := options[v.Type()]; o != nil {
		x, ok := o.get(v)
		if !ok {
			return "None"
		}
		return "Some(" + dump(x) + ")"
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dump(v.Elem())
	case reflect.Struct:
		var s []string
		for _, d := range schemaOf(v.Type()).fields {
			f := v.Field(d.idx)
			if d.k == kScalar && isZero(f) || d.k == kRep && f.IsNil() || d.k == kMsg && f.IsNil() {
				continue
			}
			s = append(s, v.Type().Field(d.idx).Name+":"+dump(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.IsNil() {
				return "nil"
			}
			return fmt.Sprintf("x%x", v.Bytes())
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, dump(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		var s []string
		for _, k := range sortedKeys(v) {
			s = append(s, dump(k)+":"+dump(v.MapIndex(k)))
		}
		return "map[" + strings.Join(s, " ") + "]"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Float32:
		return fmt.Sprintf("f32(%#x)", math.Float32bits(float32At(v)))
	case reflect.Float64:
		return fmt.Sprintf("f64(%#x)", math.Float64bits(v.Float()))
	}
	return fmt.Sprint(v)
}

// clone is a deep copy, built field by field.
func clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(clone(v.Elem()))
			c.Set(p)
		}
	case reflect.Struct:
		if o := options[v.Type()]; o != nil {
			if x, ok := o.get(v); ok {
				c.Set(o.some(clone(x)))
			}
			break
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				c.Field(i).Set(clone(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			full := v.Slice(0, v.Cap())
			s := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
			for i := 0; i < v.Cap(); i++ {
				s.Index(i).Set(clone(full.Index(i)))
			}
			c.Set(s.Slice(0, v.Len()))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				m.SetMapIndex(k, clone(v.MapIndex(k)))
			}
			c.Set(m)
		}
	case reflect.String:
		c.SetString(string(append([]byte{}, v.String()...)))
	}
	return c
}

type gen struct {
	*rand.Rand
	// nonil: no nil pointers inside repeated fields
	nonil bool
}

var ints = []uint64{0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0xff, 0x1fff, 0x2000, 0x3fff, 0x4000, 1<<20 - 1, 1 << 20, 1<<21 - 1, 1 << 21, 1<<27 - 1, 1 << 27, 1<<28 - 1, 1 << 28,
	1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34, 1<<35 - 1, 1 << 35, 1<<41 - 1, 1<<42 - 1, 1 << 42, 1<<48 - 1, 1<<49 - 1, 1 << 49, 1<<55 - 1, 1<<56 - 1, 1 << 56,
	1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<64 - 0x40, 1<<64 - 0x41, 1<<64 - 1<<31, 1<<64 - 1<<31 - 1}

var f32s = []uint32{0, 1 << 31, 1, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc00123, 0x7fffffff, 0xffffffff, 0x00800000, 0x007fffff}
var f64s = []uint64{0, 1 << 63, 1, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff8000000000123, 1<<64 - 1, 1<<63 - 1}

func (g *gen) u64() uint64 {
	switch g.Intn(3) {
	case 0:
		return ints[g.Intn(len(ints))]
	case 1:
		return g.Uint64() >> uint(g.Intn(64))
	}
	return uint64(int64(g.Uint64()) >> uint(g.Intn(64)))
}

func (g *gen) blob() []byte {
	n := []int{0, 0, 1, 2, 3, 7, 20, 126, 127, 128, 129, 300}[g.Intn(12)]
	if g.Intn(60) == 0 {
		n = 16383 + g.Intn(3)
	}
	b := make([]byte, n)
	g.Read(b)
	return b
}

func (g *gen) scalar(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Int32:
		v.SetInt(int64(int32(g.u64())))
	case reflect.Int64:
		v.SetInt(int64(g.u64()))
	case reflect.Uint32:
		v.SetUint(uint64(uint32(g.u64())))
	case reflect.Uint64:
		v.SetUint(g.u64())
	case reflect.Float32:
		x := f32s[g.Intn(len(f32s))]
		if g.Intn(3) == 0 {
			x = g.Uint32()
		}
		*(*uint32)(v.Addr().UnsafePointer()) = x
	case reflect.Float64:
		x := f64s[g.Intn(len(f64s))]
		if g.Intn(3) == 0 {
			x = g.Uint64()
		}
		*(*uint64)(v.Addr().UnsafePointer()) = x
	case reflect.String:
		v.SetString(string(g.blob()))
	case reflect.Slice:
		if g.Intn(5) > 0 {
			b := g.blob()
			s := reflect.MakeSlice(t, len(b), len(b)+g.Intn(3))
			reflect.Copy(s, reflect.ValueOf(b))
			v.Set(s)
		}
	}
	return v
}

func (g *gen) value(d *desc, depth int) reflect.Value {
	v := reflect.New(d.t).Elem()
	switch d.k {
	case kScalar:
		if g.Intn(5) == 0 {
			return v
		}
		return g.scalar(d.t)
	case kOption:
		if g.Intn(3) == 0 {
			return v
		}
		return options[d.t].some(g.value(d.elem, depth))
	case kPtr:
		if g.Intn(3) == 0 {
			return v
		}
		v.Set(reflect.New(d.t.Elem()))
		v.Elem().Set(g.value(d.elem, depth))
	case kMsg:
		if depth <= 0 || g.Intn(4) == 0 {
			return v
		}
		v.Set(reflect.New(d.t.Elem()))
		g.fill(v.Elem(), depth-1)
	case kRep:
		n := g.Intn(4)
		if g.Intn(10) == 0 {
			n = 9 + g.Intn(14)
		}
		if g.Intn(4) == 0 {
			return v
		}
		v.Set(reflect.MakeSlice(d.t, n, n+g.Intn(3)))
		for i := 0; i < n; i++ {
			e := g.value(d.elem, depth)
			if g.nonil && e.Kind() == reflect.Ptr && e.IsNil() {
				e.Set(reflect.New(e.Type().Elem()))
			}
			v.Index(i).Set(e)
		}
	case kMap:
		if g.Intn(4) == 0 {
			return v
		}
		n := g.Intn(4)
		if g.Intn(10) == 0 {
			n = 9 + g.Intn(9)
		}
		v.Set(reflect.MakeMap(d.t))
		for i := 0; i < n; i++ {
			k := g.value(d.key, 0)
			if k.Kind() == reflect.Float32 || k.Kind() == reflect.Float64 {
				k.SetFloat(float64(g.Intn(9)))
			}
			v.SetMapIndex(k, g.value(d.val, depth))
		}
	}
	return v
}

func (g *gen) fill(v reflect.Value, depth int) {
	fs := schemaOf(v.Type()).fields
	mode := g.Intn(4) // sparse or dense
	for _, d := range fs {
		if mode == 0 && g.Intn(len(fs)+1) > 1 {
			continue
		}
		v.Field(d.idx).Set(g.value(d, depth))
	}
}

func (g *gen) msg(t reflect.Type) reflect.Value {
	v := reflect.New(t)
	g.fill(v.Elem(), 1+g.Intn(3))
	return v
}

// ---------------------------------------------------------------- wire input

// varint writes x, sometimes longer than needed.
func (g *gen) varint(b []byte, x uint64) []byte {
	m := uv(nil, x)
	if g.Intn(4) == 0 && len(m) < 10 {
		for n := g.Intn(10 - len(m)); n >= 0 && len(m) < 10; n-- {
			m[len(m)-1] |= 0x80
			m = append(m, 0)
		}
	}
	return append(b, m...)
}

// occurrence writes one well-formed occurrence of field d.
func (g *gen) occurrence(b []byte, d *desc, depth int) []byte {
	b = g.varint(b, d.num<<3|uint64(d.wt))
	base := d
	for base.k == kOption || base.k == kPtr || base.k == kRep {
		base = base.elem
	}
	switch base.k {
	case kMsg:
		body := g.wire(schemaOf(base.t.Elem()), depth-1)
		b = g.varint(b, uint64(len(body)))
		return append(b, body...)
	case kMap:
		var body []byte
		for i, n := 0, g.Intn(4); i < n; i++ {
			switch g.Intn(5) {
			case 0, 1:
				body = g.occurrence(body, base.key, depth)
			case 2, 3:
				body = g.occurrence(body, base.val, depth)
			default:
				body = g.unknown(body, func(n uint64) bool { return n == base.key.num || n == base.val.num })
			}
		}
		b = g.varint(b, uint64(len(body)))
		return append(b, body...)
	}
	switch d.wt {
	case 0:
		return g.varint(b, g.u64())
	case 1, 5:
		n := 8
		if d.wt == 5 {
			n = 4
		}
		x := make([]byte, n)
		switch g.Intn(3) {
		case 0:
			g.Read(x)
		case 1:
			x[n-1] = 0x80
		}
		return append(b, x...)
	}
	p := g.blob()
	if len(p) > 200 && g.Intn(4) > 0 {
		p = p[:g.Intn(4)]
	}
	b = g.varint(b, uint64(len(p)))
	return append(b, p...)
}

func (g *gen) wire(s *schema, depth int) []byte {
	var b []byte
	if len(s.fields) == 0 || depth < 0 {
		return b
	}
	for n := g.Intn(6); n > 0; n-- {
		if g.Intn(6) == 0 {
			b = g.unknown(b, func(n uint64) bool { return s.byNum[n] != nil })
			continue
		}
		b = g.occurrence(b, s.fields[g.Intn(len(s.fields))], depth)
	}
	return b
}

func (g *gen) unknown(b []byte, known func(uint64) bool) []byte {
	num := uint64(0)
	for num == 0 || known(num) {
		num = []uint64{uint64(1 + g.Intn(40)), uint64(1 + g.Intn(4000)), 1 << 20, 1<<29 - 1, uint64(1 + g.Intn(1<<29-1)),
			// close to a number in use, some bits apart
			uint64(1+g.Intn(20)) | 1<<uint(5+g.Intn(24)), uint64(1+g.Intn(20)) | 1<<uint(5+g.Intn(56))}[g.Intn(7)]
	}
	wt := []int{0, 1, 2, 5}[g.Intn(4)]
	b = g.varint(b, num<<3|uint64(wt))
	switch wt {
	case 0:
		return g.varint(b, g.u64())
	case 1, 5:
		x := make([]byte, 8)
		g.Read(x)
		if wt == 5 {
			x = x[:4]
		}
		return append(b, x...)
	}
	p := g.blob()
	b = g.varint(b, uint64(len(p)))
	return append(b, p...)
}

// mutate damages b.
func (g *gen) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, byte(g.Intn(256)))
			continue
		}
		i := g.Intn(len(b))
		switch g.Intn(9) {
		case 0:
			b = b[:i]
		case 1:
			b[i] ^= 1 << uint(g.Intn(8))
		case 2:
			b[i] = byte(g.Intn(256))
		case 3:
			b = append(b[:i:i], append([]byte{byte(g.Intn(256))}, b[i:]...)...)
		case 4:
			b = append(b[:i:i], b[i+1:]...)
		case 5:
			b[i] |= 0x80
		case 6:
			b = append(b[:i:i], append(uv(nil, g.u64()), b[i:]...)...)
		case 7:
			ff := []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}
			if g.Intn(2) == 0 {
				ff = []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}
			}
			b = append(b[:i:i], append(ff, b[i:]...)...)
		case 8:
			b[i] = b[i]&^7 | byte(g.Intn(8))
		}
	}
	return b
}

// ---------------------------------------------------------------- running

var seed = func() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}()

var scale = func() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 30
	}
	return 3
}()

var cases int64

// distinct non-trivial cases (non-empty encodings) and a few of them
var seenMu sync.Mutex
var seen = map[uint64]bool{}
var samples []string
var distinct int // of child processes

func note(op string, t reflect.Type, b []byte) {
	if len(b) == 0 {
		return
	}
	h := fnv.New64a()
	io.WriteString(h, op)
	fmt.Fprintf(h, "%p", t)
	h.Write(b)
	k := h.Sum64()
	seenMu.Lock()
	defer seenMu.Unlock()
	if !seen[k] {
		seen[k] = true
		if n := len(seen); n&(n-1) == 0 && n >= 64 && n <= 4096 && len(b) < 200 {
			samples = append(samples, fmt.Sprintf("%s %s %x", op, clips2(t.String(), 60), b))
		}
	}
}

// report stops the test with a failing input.
func report(t *testing.T, what string, typ reflect.Type, kv ...any) {
	t.Helper()
	m := map[string]any{"test": t.Name(), "what": what, "seed": seed}
	if typ != nil {
		m["type"] = clips2(typ.String(), 4000)
	}
	for i := 0; i+1 < len(kv); i += 2 {
		switch x := kv[i+1].(type) {
		case []byte:
			m[fmt.Sprint(kv[i])] = clips2(hex.EncodeToString(x), 20000)
		case reflect.Value:
			m[fmt.Sprint(kv[i])] = clips2(dump(x), 20000)
		case error:
			m[fmt.Sprint(kv[i])] = x.Error()
		default:
			m[fmt.Sprint(kv[i])] = clips2(fmt.Sprint(x), 20000)
		}
	}
	j, _ := json.Marshal(m)
	fmt.Printf("\nFAILING-INPUT %s\n", j)
	t.FailNow()
}

func clips2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type outcome struct {
	panicked string
	err      error
	n        int
	b        []byte
}

// current operation, watched for hangs
var opStart int64
var opWhat atomic.Value

func watch() {
	go func() {
		for {
			time.Sleep(time.Second)
			if s := atomic.LoadInt64(&opStart); s != 0 && time.Now().UnixNano()-s > int64(60*time.Second) {
				w, _ := opWhat.Load().(string)
				j, _ := json.Marshal(map[string]any{"what": "the call did not return within 60 s", "call": w, "seed": seed})
				fmt.Printf("\nFAILING-INPUT %s\n", j)
				os.Exit(1)
			}
		}
	}()
}

func guard(what func() string, f func(o *outcome)) (o outcome) {
	atomic.AddInt64(&cases, 1)
	opWhat.Store(what())
	atomic.StoreInt64(&opStart, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&opStart, 0)
		if r := recover(); r != nil {
			o.panicked = fmt.Sprintf("%v\n%s", r, clips2(string(debug.Stack()), 3000))
		}
	}()
	f(&o)
	return
}

func marshal(p reflect.Value) outcome {
	return guard(func() string { return "Marshal" }, func(o *outcome) {
		o.b, o.err = proto.Marshal(p.Interface())
		note("Marshal", p.Type(), o.b)
	})
}
func size(p reflect.Value) outcome {
	return guard(func() string { return "Size" }, func(o *outcome) { o.n = proto.Size(p.Interface()) })
}
func unmarshal(b []byte, p reflect.Value) outcome {
	note("Unmarshal", p.Type(), b)
	return guard(func() string { return fmt.Sprintf("Unmarshal(%x)", clipb(b)) }, func(o *outcome) { o.err = proto.Unmarshal(b, p.Interface()) })
}

// agree checks err against the reference error.
func agree(err error, want *rerr) string {
	if want == nil {
		if err != nil {
			return "well-formed input rejected: " + err.Error()
		}
		return ""
	}
	if err == nil {
		return "malformed input accepted, expected error " + want.String()
	}
	switch want.class {
	case 'E':
		if !errors.Is(err, io.ErrUnexpectedEOF) {
			return "truncated input, but the error does not unwrap to io.ErrUnexpectedEOF: " + err.Error()
		}
	case 'W':
		if !errors.Is(err, proto.ErrWireTypeUnknown) {
			return "unknown wire type, but the error does not unwrap to ErrWireTypeUnknown: " + err.Error()
		}
	}
	for _, p := range want.path {
		fe, ok := err.(*proto.UnmarshalFieldError)
		if !ok {
			return fmt.Sprintf("error decoding field %d is a %T, not an *UnmarshalFieldError: %v", p.num, err, err)
		}
		if p.num < 1<<62 && fe.FieldNumber != int(p.num) || fe.WireType != p.wt {
			return fmt.Sprintf("error is for field %d wire type %d, expected field %d wire type %d", fe.FieldNumber, fe.WireType, p.num, p.wt)
		}
		err = fe.Err
	}
	return ""
}

func rng(name string, i int) *gen {
	h := int64(0)
	for _, c := range name {
		h = h*131 + int64(c)
	}
	return &gen{Rand: rand.New(rand.NewSource(seed*1000003 + h*7919 + int64(i)))}
}

func TestMain(m *testing.M) {
	watch()
	c := m.Run()
	fmt.Printf("CASES %d\nDISTINCT %d\n", atomic.LoadInt64(&cases), len(seen)+distinct)
	for _, x := range samples {
		fmt.Printf("SAMPLE %s\n", x)
	}
	os.Exit(c)
}
