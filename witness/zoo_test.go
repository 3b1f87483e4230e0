//go:build go1.22

package proto_test

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/RomiChan/protobuf/proto"
)

type (
	Enum   int32
	NBool  bool
	NI64   int64
	NU32   uint32
	NU64   uint64
	NF32   float32
	NF64   float64
	NStr   string
	NBytes []byte
	NByte  byte
	NInts  []int32
	NStrs  []NStr
	NMap   map[NStr]Enum
	NMsgs  []*Leaf
)

type Leaf struct {
	A int32  `protobuf:"varint,1,opt"`
	S string `protobuf:"bytes,2,opt"`
	B []byte `protobuf:"bytes,3,opt"`
}

type Empty struct{}

type Plain struct {
	Bool     bool    `protobuf:"varint,1,opt"`
	I32      int32   `protobuf:"varint,2,opt"`
	S32      int32   `protobuf:"zigzag32,3,opt"`
	SF32     int32   `protobuf:"fixed32,4,opt"`
	I64      int64   `protobuf:"varint,5,opt"`
	S64      int64   `protobuf:"zigzag64,6,opt"`
	SF64     int64   `protobuf:"fixed64,7,opt"`
	U32      uint32  `protobuf:"varint,8,opt"`
	F32      uint32  `protobuf:"fixed32,9,opt"`
	U64      uint64  `protobuf:"varint,10,opt"`
	F64      uint64  `protobuf:"fixed64,11,opt"`
	Float    float32 `protobuf:"fixed32,12,opt"`
	Double   float64 `protobuf:"fixed64,13,opt"`
	Str      string  `protobuf:"bytes,14,opt"`
	Bytes    []byte  `protobuf:"bytes,15,opt"`
	LastBool bool    `protobuf:"varint,16,req"`
}

type Opts struct {
	Bool   proto.Option[bool]    `protobuf:"varint,1,opt"`
	I32    proto.Option[int32]   `protobuf:"varint,2,opt"`
	S32    proto.Option[int32]   `protobuf:"zigzag32,3,opt"`
	SF32   proto.Option[int32]   `protobuf:"fixed32,4,opt"`
	I64    proto.Option[int64]   `protobuf:"varint,5,opt"`
	S64    proto.Option[int64]   `protobuf:"zigzag64,6,opt"`
	SF64   proto.Option[int64]   `protobuf:"fixed64,7,opt"`
	U32    proto.Option[uint32]  `protobuf:"varint,8,opt"`
	F32    proto.Option[uint32]  `protobuf:"fixed32,9,opt"`
	U64    proto.Option[uint64]  `protobuf:"varint,10,opt"`
	F64    proto.Option[uint64]  `protobuf:"fixed64,11,opt"`
	Float  proto.Option[float32] `protobuf:"fixed32,12,opt"`
	Double proto.Option[float64] `protobuf:"fixed64,13,opt"`
	Str    proto.Option[string]  `protobuf:"bytes,14,opt"`
}

type Ptrs struct {
	Bool   *bool    `protobuf:"varint,1,opt"`
	I32    *int32   `protobuf:"varint,2,opt"`
	S32    *int32   `protobuf:"zigzag32,3,opt"`
	SF32   *int32   `protobuf:"fixed32,4,opt"`
	I64    *int64   `protobuf:"varint,5,opt"`
	S64    *int64   `protobuf:"zigzag64,6,opt"`
	SF64   *int64   `protobuf:"fixed64,7,opt"`
	U32    *uint32  `protobuf:"varint,8,opt"`
	F32    *uint32  `protobuf:"fixed32,9,opt"`
	U64    *uint64  `protobuf:"varint,10,opt"`
	F64    *uint64  `protobuf:"fixed64,11,opt"`
	Float  *float32 `protobuf:"fixed32,12,opt"`
	Double *float64 `protobuf:"fixed64,13,opt"`
	Str    *string  `protobuf:"bytes,14,opt"`
	Bytes  *[]byte  `protobuf:"bytes,15,opt"`
	Msg    *Leaf    `protobuf:"bytes,16,opt"`
	Empty  *Empty   `protobuf:"bytes,17,opt"`
}

type Reps struct {
	Bool   []bool    `protobuf:"varint,1,rep"`
	I32    []int32   `protobuf:"varint,2,rep"`
	S32    []int32   `protobuf:"zigzag32,3,rep"`
	SF32   []int32   `protobuf:"fixed32,4,rep"`
	I64    []int64   `protobuf:"varint,5,rep"`
	S64    []int64   `protobuf:"zigzag64,6,rep"`
	SF64   []int64   `protobuf:"fixed64,7,rep"`
	U32    []uint32  `protobuf:"varint,8,rep"`
	F32    []uint32  `protobuf:"fixed32,9,rep"`
	U64    []uint64  `protobuf:"varint,10,rep"`
	F64    []uint64  `protobuf:"fixed64,11,rep"`
	Float  []float32 `protobuf:"fixed32,12,rep"`
	Double []float64 `protobuf:"fixed64,13,rep"`
	Str    []string  `protobuf:"bytes,14,rep"`
	Bytes  [][]byte  `protobuf:"bytes,15,rep"`
	Msg    []*Leaf   `protobuf:"bytes,16,rep"`
	PI32   []*int32  `protobuf:"varint,17,rep"`
	Empty  []*Empty  `protobuf:"bytes,18,rep"`
	Maps   []*Maps   `protobuf:"bytes,2047,rep"`
}

type Maps struct {
	SI   map[string]int32   `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	SZ   map[string]int32   `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"zigzag32,2,opt"`
	SFx  map[string]int32   `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	IS   map[int32]string   `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	ZB   map[int32][]byte   `protobuf:"bytes,5,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	FM   map[int32]*Leaf    `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	LL   map[int64]int64    `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	ZL   map[int64]int64    `protobuf:"bytes,8,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag64,2,opt"`
	FL   map[int64]int64    `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	UU   map[uint32]uint32  `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	FF   map[uint32]uint32  `protobuf:"bytes,11,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	VV   map[uint64]uint64  `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	GG   map[uint64]uint64  `protobuf:"bytes,13,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	BB   map[bool]bool      `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	SD   map[string]float64 `protobuf:"bytes,15,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	SF   map[string]float32 `protobuf:"bytes,16,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	SS   map[string]string  `protobuf:"bytes,17,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	SM   map[string]*Maps   `protobuf:"bytes,18,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	IM   map[uint64]*Plain  `protobuf:"bytes,5000,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	SO   map[string]*Opts   `protobuf:"bytes,536870911,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	SE   map[string]*Empty  `protobuf:"bytes,20,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	SRep map[string]*Reps   `protobuf:"bytes,21,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rec struct {
	Next *Rec                `protobuf:"bytes,1,opt"`
	V    int32               `protobuf:"varint,2,opt"`
	Kids []*Rec              `protobuf:"bytes,3,rep"`
	M    map[string]*Rec     `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	Peer *RecB               `protobuf:"bytes,5,opt"`
	P    *int64              `protobuf:"zigzag64,6,opt"`
	O    proto.Option[int64] `protobuf:"fixed64,7,opt"`
}

type RecB struct {
	Back *Rec    `protobuf:"bytes,1,opt"`
	Name string  `protobuf:"bytes,2,opt"`
	Self []*RecB `protobuf:"bytes,16,rep"`
}

type Named struct {
	E  Enum          `protobuf:"varint,1,opt"`
	B  NBool         `protobuf:"varint,2,opt"`
	L  NI64          `protobuf:"zigzag64,3,opt"`
	U  NU32          `protobuf:"fixed32,4,opt"`
	V  NU64          `protobuf:"fixed64,5,opt"`
	F  NF32          `protobuf:"fixed32,6,opt"`
	D  NF64          `protobuf:"fixed64,7,opt"`
	S  NStr          `protobuf:"bytes,8,opt"`
	Y  NBytes        `protobuf:"bytes,9,opt"`
	PE *Enum         `protobuf:"varint,10,opt"`
	PS *NStr         `protobuf:"bytes,11,opt"`
	RE []Enum        `protobuf:"varint,12,rep"`
	RZ []Enum        `protobuf:"zigzag32,13,rep"`
	RS NStrs         `protobuf:"bytes,14,rep"`
	RI NInts         `protobuf:"fixed32,15,rep"`
	RY []NBytes      `protobuf:"bytes,16,rep"`
	M  NMap          `protobuf:"bytes,17,rep" protobuf_key:"bytes,1,opt" protobuf_val:"zigzag32,2,opt"`
	M2 map[Enum]NStr `protobuf:"bytes,18,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	MS NMsgs         `protobuf:"bytes,19,rep"`
}

// Same Go types, different tags.
type Tags struct {
	R1 []int32             `protobuf:"varint,1,rep"`
	R2 []int32             `protobuf:"zigzag32,2,rep"`
	R3 []int32             `protobuf:"fixed32,3,rep"`
	P1 *int32              `protobuf:"fixed32,4,opt"`
	P2 *int32              `protobuf:"varint,5,opt"`
	P3 *int32              `protobuf:"zigzag32,6,opt"`
	M1 map[int64]int64     `protobuf:"bytes,7,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	M2 map[int64]int64     `protobuf:"bytes,8,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	M3 map[int64]int64     `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	Q1 []*int64            `protobuf:"zigzag64,10,rep"`
	Q2 []*int64            `protobuf:"varint,11,rep"`
	O1 proto.Option[int64] `protobuf:"zigzag64,12,opt"`
	O2 proto.Option[int64] `protobuf:"varint,13,opt"`
	O3 proto.Option[int64] `protobuf:"fixed64,14,opt"`
	U1 []uint64            `protobuf:"varint,15,rep"`
	U2 []uint64            `protobuf:"fixed64,16,rep"`
	X1 *uint64             `protobuf:"fixed64,17,opt"`
	X2 *uint64             `protobuf:"varint,18,opt"`
	Y1 map[string]*uint32  `protobuf:"bytes,19,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	Y2 map[string]*uint32  `protobuf:"bytes,20,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	B1 *[]byte             `protobuf:"bytes,21,opt"`
	B2 []byte              `protobuf:"bytes,22,opt"`
	B3 [][]byte            `protobuf:"bytes,23,rep"`
}

// Fields the runtime has to ignore, and numbers of every tag size, out of order.
type Sparse struct {
	hidden  int64  `protobuf:"varint,1,opt"`
	Z       uint32 `protobuf:"varint,536870911,opt"`
	NoTag   string
	Other   string `json:"x"`
	Y       int64  `protobuf:"zigzag64,33554432,opt"`
	pad     byte
	X       []string              `protobuf:"bytes,33554431,rep"`
	W       bool                  `protobuf:"varint,2097152,opt"`
	hidden2 *Leaf                 `protobuf:"bytes,3,opt"`
	V       proto.Option[float32] `protobuf:"fixed32,2097151,opt"`
	U       *Leaf                 `protobuf:"bytes,262144,opt"`
	NoTag2  chan int
	T       float64         `protobuf:"fixed64,262143,opt"`
	S       map[bool]string `protobuf:"bytes,16384,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	R       *bool           `protobuf:"varint,2048,opt"`
	Q       []byte          `protobuf:"bytes,128,opt"`
	P       int32           `protobuf:"varint,16,opt"`
	_       [0]func()
	O       int32 `protobuf:"fixed32,15,opt"`
}

func typeOf[T any]() reflect.Type { var z *T; return reflect.TypeOf(z).Elem() }

var static = []reflect.Type{typeOf[Leaf](), typeOf[Empty](), typeOf[Plain](), typeOf[Opts](), typeOf[Ptrs](), typeOf[Reps](), typeOf[Maps](), typeOf[Rec](), typeOf[RecB](), typeOf[Named](), typeOf[Tags](), typeOf[Sparse]()}

type scalarT struct {
	t    reflect.Type
	tags []string
	key  bool
}

var scalars = []scalarT{
	{typeOf[bool](), []string{"varint"}, true},
	{typeOf[int32](), []string{"varint", "zigzag32", "fixed32"}, true},
	{typeOf[int64](), []string{"varint", "zigzag64", "fixed64"}, true},
	{typeOf[uint32](), []string{"varint", "fixed32"}, true},
	{typeOf[uint64](), []string{"varint", "fixed64"}, true},
	{typeOf[float32](), []string{"fixed32"}, false},
	{typeOf[float64](), []string{"fixed64"}, false},
	{typeOf[string](), []string{"bytes"}, true},
	{typeOf[[]byte](), []string{"bytes"}, false},
	{typeOf[Enum](), []string{"varint", "zigzag32", "fixed32"}, true},
	{typeOf[NBool](), []string{"varint"}, true},
	{typeOf[NI64](), []string{"varint", "zigzag64", "fixed64"}, true},
	{typeOf[NU32](), []string{"varint", "fixed32"}, true},
	{typeOf[NU64](), []string{"varint", "fixed64"}, true},
	{typeOf[NF32](), []string{"fixed32"}, false},
	{typeOf[NF64](), []string{"fixed64"}, false},
	{typeOf[NStr](), []string{"bytes"}, true},
	{typeOf[NBytes](), []string{"bytes"}, false},
}

var optionOf = func() map[reflect.Type]reflect.Type {
	m := map[reflect.Type]reflect.Type{}
	for t, o := range options {
		m[o.elem] = t
	}
	return m
}()

func (g *gen) scalarT() (scalarT, string) {
	n := len(scalars)
	if g.Intn(3) > 0 {
		n = 9
	}
	s := scalars[g.Intn(n)]
	return s, s.tags[g.Intn(len(s.tags))]
}

var numbers = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 100, 2047, 2048, 262143, 262144, 1 << 25, 1<<25 - 1, 1<<29 - 1}

// shapes restricts the shapes of random fields: s scalar, o option, p pointer,
// r repeated, m map, n nested, R repeated nested, N map to nested, q repeated pointer.
func (g *gen) fieldType(shapes string, nested []reflect.Type) (reflect.Type, string, string) {
	msg := func() reflect.Type { return reflect.PtrTo(nested[g.Intn(len(nested))]) }
	s, tag := g.scalarT()
	switch shapes[g.Intn(len(shapes))] {
	case 'o':
		for optionOf[s.t] == nil {
			s, tag = g.scalarT()
		}
		return optionOf[s.t], tag + ",%d,opt", ""
	case 'p':
		return reflect.PtrTo(s.t), tag + ",%d,opt", ""
	case 'r':
		return reflect.SliceOf(s.t), tag + ",%d,rep", ""
	case 'q':
		return reflect.SliceOf(reflect.PtrTo(s.t)), tag + ",%d,rep", ""
	case 'n':
		return msg(), "bytes,%d,opt", ""
	case 'R':
		return reflect.SliceOf(msg()), "bytes,%d,rep", ""
	case 'm', 'N':
		k, ktag := g.scalarT()
		for !k.key {
			k, ktag = g.scalarT()
		}
		v := s.t
		if g.Intn(4) == 0 {
			v, tag = msg(), "bytes"
		}
		return reflect.MapOf(k.t, v), "bytes,%d,rep", fmt.Sprintf(` protobuf_key:"%s,1,opt" protobuf_val:"%s,2,opt"`, ktag, tag)
	}
	return s.t, tag + ",%d,opt", ""
}

func (g *gen) structType(nfields int, shapes string, nested []reflect.Type) reflect.Type {
	var fs []reflect.StructField
	used := map[int]bool{}
	for i := 0; i < nfields; i++ {
		if g.Intn(8) == 0 {
			f := reflect.StructField{Name: fmt.Sprintf("U%d", i), Type: []reflect.Type{typeOf[byte](), typeOf[int64](), typeOf[string]()}[g.Intn(3)]}
			if g.Intn(2) == 0 {
				f.Name, f.PkgPath, f.Tag = strings.ToLower(f.Name), "x/y", `protobuf:"varint,1,opt"`
			}
			fs = append(fs, f)
			continue
		}
		n := 0
		for n == 0 || used[n] {
			n = numbers[g.Intn(len(numbers))]
			if g.Intn(3) == 0 {
				n = 1 + g.Intn(1<<uint(1+g.Intn(28)))
			}
		}
		used[n] = true
		t, tag, extra := g.fieldType(shapes, nested)
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s"%s`, g.options(fmt.Sprintf(tag, n)), extra))})
	}
	return reflect.StructOf(fs)
}

// the tag as other generators write it, with more options behind the first three
func (g *gen) options(tag string) string {
	if g.Intn(4) == 0 && strings.HasSuffix(tag, ",opt") {
		tag = strings.TrimSuffix(tag, "opt") + "req"
	}
	return tag + []string{"", "", "", "", ",name=some_name", ",name=x,proto3", ",json=someName,proto3,enum=pkg.E", ",proto3,oneof"}[g.Intn(8)]
}

const allShapes = "ssooppprrrqmmmnnRRN"

// a pool of random types, the later ones nesting the earlier ones
func (g *gen) types(n int, shapes string) []reflect.Type {
	pool := append([]reflect.Type{}, static...)
	for i := 0; i < n; i++ {
		pool = append(pool, g.structType(1+g.Intn(8), shapes, pool))
	}
	return pool[len(static):]
}
