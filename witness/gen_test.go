//go:build go1.22

package generator_test

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/encoding/protowire"
	gproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/RomiChan/protobuf/internal/generator"
	"github.com/RomiChan/protobuf/proto"
)

var cases int
var seen = map[string]bool{}

func report(t *testing.T, what string, kv ...any) {
	t.Helper()
	m := map[string]any{"test": t.Name(), "what": what, "seed": os.Getenv("VERIF_SEED")}
	for i := 0; i+1 < len(kv); i += 2 {
		s := fmt.Sprint(kv[i+1])
		if b, ok := kv[i+1].([]byte); ok {
			s = hex.EncodeToString(b)
		}
		if len(s) > 8000 {
			s = s[:8000] + "..."
		}
		m[fmt.Sprint(kv[i])] = s
	}
	j, _ := json.Marshal(m)
	fmt.Printf("\nFAILING-INPUT %s\n", j)
	t.FailNow()
}

var kinds = []descriptorpb.FieldDescriptorProto_Type{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18}

func isKey(k descriptorpb.FieldDescriptorProto_Type) bool {
	switch k {
	case 1, 2, 11, 12, 14:
		return false
	}
	return true
}

type namer struct {
	*rand.Rand
	num map[int32]bool
	// package prefixes of the messages and enums that may be referred to
	msgs, enums []string
}

func (n *namer) number() int32 {
	for {
		x := int32(1 + n.Intn(1<<uint(1+n.Intn(29))))
		if n.Intn(3) == 0 {
			x = []int32{1, 15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 1 << 25, 1<<29 - 1}[n.Intn(11)]
		}
		if x >= 19000 && x < 20000 || n.num[x] || x > 1<<29-1 {
			continue
		}
		n.num[x] = true
		return x
	}
}

func (n *namer) typ(f *descriptorpb.FieldDescriptorProto, k descriptorpb.FieldDescriptorProto_Type) {
	f.Type = &k
	switch k {
	case 11:
		f.TypeName = gproto.String(n.msgs[n.Intn(len(n.msgs))])
	case 14:
		f.TypeName = gproto.String(n.enums[n.Intn(len(n.enums))])
	}
}

func camel(s string) string {
	p := strings.Split(s, "_")
	for i := range p {
		p[i] = strings.ToUpper(p[i][:1]) + p[i][1:]
	}
	return strings.Join(p, "")
}

func enum(name string) *descriptorpb.EnumDescriptorProto {
	v := func(s string, n int32) *descriptorpb.EnumValueDescriptorProto {
		return &descriptorpb.EnumValueDescriptorProto{Name: gproto.String(name + s), Number: gproto.Int32(n)}
	}
	return &descriptorpb.EnumDescriptorProto{Name: gproto.String(name), Value: []*descriptorpb.EnumValueDescriptorProto{v("_ZERO", 0), v("_ONE", 1), v("_NEG", -1), v("_BIG", math.MaxInt32)}}
}

func leaf(name string) *descriptorpb.DescriptorProto {
	i32, str := descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_STRING
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
	return &descriptorpb.DescriptorProto{Name: &name, Field: []*descriptorpb.FieldDescriptorProto{
		{Name: gproto.String("a"), Number: gproto.Int32(1), Type: &i32, Label: &opt},
		{Name: gproto.String("b"), Number: gproto.Int32(2), Type: &str, Label: &opt},
	}}
}

// message declares one field of each shape of the given kinds.
func message(r *rand.Rand, name, pkg, syntax string, msgs, enums []string, ks, keys []descriptorpb.FieldDescriptorProto_Type) *descriptorpb.DescriptorProto {
	n := &namer{r, map[int32]bool{}, msgs, enums}
	m := &descriptorpb.DescriptorProto{Name: &name}
	lbl := func(l descriptorpb.FieldDescriptorProto_Label) *descriptorpb.FieldDescriptorProto_Label { return &l }
	shapes := []string{"opt", "req", "rep"}
	if syntax == "proto3" {
		shapes = []string{"implicit", "opt", "rep"}
	}
	for _, k := range ks {
		for _, s := range shapes {
			fname := fmt.Sprintf("%s_%d", s, k)
			switch r.Intn(8) {
			case 0:
				fname = "_" + fname
			case 1:
				fname = strings.ToUpper(fname[:1]) + fname[1:]
			case 2:
				fname = fmt.Sprintf("%sX_y_%d_z", s, k)
			}
			f := &descriptorpb.FieldDescriptorProto{Name: gproto.String(fname), Number: gproto.Int32(n.number()), Label: lbl(1)}
			n.typ(f, k)
			switch s {
			case "req":
				f.Label = lbl(2)
			case "rep":
				f.Label = lbl(3)
				if k != 9 && k != 11 && k != 12 && r.Intn(2) == 0 {
					f.Options = &descriptorpb.FieldOptions{Packed: gproto.Bool(r.Intn(2) == 0)}
				}
			case "opt":
				if syntax == "proto3" {
					f.Proto3Optional = gproto.Bool(true)
					f.OneofIndex = gproto.Int32(int32(len(m.OneofDecl)))
					m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: gproto.String("_" + f.GetName())})
				}
			}
			if r.Intn(8) == 0 {
				if f.Options == nil {
					f.Options = &descriptorpb.FieldOptions{}
				}
				f.Options.Deprecated = gproto.Bool(true)
			}
			m.Field = append(m.Field, f)
		}
		for _, key := range keys {
			fn := fmt.Sprintf("map_%d_%d", key, k)
			en := camel(fn) + "Entry"
			kf := &descriptorpb.FieldDescriptorProto{Name: gproto.String("key"), Number: gproto.Int32(1), Label: lbl(1)}
			vf := &descriptorpb.FieldDescriptorProto{Name: gproto.String("value"), Number: gproto.Int32(2), Label: lbl(1)}
			n.typ(kf, key)
			n.typ(vf, k)
			m.NestedType = append(m.NestedType, &descriptorpb.DescriptorProto{Name: &en, Field: []*descriptorpb.FieldDescriptorProto{kf, vf}, Options: &descriptorpb.MessageOptions{MapEntry: gproto.Bool(true)}})
			m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: &fn, Number: gproto.Int32(n.number()), Label: lbl(3), Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: gproto.String("." + pkg + "." + name + "." + en)})
		}
	}
	var alts []*descriptorpb.FieldDescriptorProto
	switch r.Intn(5) {
	case 0: // a oneof, which is outside the property, beside the other fields
		for _, f := range m.Field {
			if f.OneofIndex != nil { // synthetic oneofs come last
				*f.OneofIndex++
			}
		}
		m.OneofDecl = append([]*descriptorpb.OneofDescriptorProto{{Name: gproto.String("choice")}}, m.OneofDecl...)
		for i := 0; i < 3; i++ {
			f := &descriptorpb.FieldDescriptorProto{Name: gproto.String(fmt.Sprintf("alt_%d", i)), Number: gproto.Int32(n.number()), Label: lbl(1), OneofIndex: gproto.Int32(0)}
			n.typ(f, kinds[r.Intn(len(kinds))])
			alts = append(alts, f)
		}
	case 1: // field tracking
		b := protowire.AppendTag(nil, 37383685, protowire.VarintType)
		m.Options = &descriptorpb.MessageOptions{}
		m.Options.ProtoReflect().SetUnknown(protowire.AppendVarint(b, 1))
	case 2:
		m.Options = &descriptorpb.MessageOptions{Deprecated: gproto.Bool(true)}
	}
	r.Shuffle(len(m.Field), func(i, j int) { m.Field[i], m.Field[j] = m.Field[j], m.Field[i] })
	if at := r.Intn(len(m.Field) + 1); len(alts) > 0 {
		m.Field = append(m.Field[:at:at], append(alts, m.Field[at:]...)...)
	}
	return m
}

func TestC17(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			report(t, "panic", "panic", fmt.Sprint(r), "stack", string(debug.Stack()))
		}
	}()
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	rounds := 8
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 30
	}
	for round := 0; round < rounds; round++ {
		for _, syntax := range []string{"proto2", "proto3"} {
			oneRound(t, rand.New(rand.NewSource(seed*1000+int64(round))), syntax)
		}
	}
	fmt.Printf("CASES %d\nDISTINCT %d\n", cases, len(seen))
}

func oneRound(t *testing.T, r *rand.Rand, syntax string) {
	opts := func(p string) *descriptorpb.FileOptions {
		return &descriptorpb.FileOptions{GoPackage: gproto.String(p)}
	}
	other := &descriptorpb.FileDescriptorProto{Name: gproto.String("other.proto"), Package: gproto.String("other"), Syntax: gproto.String("proto3"), Options: opts("example.com/other"),
		MessageType: []*descriptorpb.DescriptorProto{leaf("Far")}, EnumType: []*descriptorpb.EnumDescriptorProto{enum("FarEnum")}}
	main := &descriptorpb.FileDescriptorProto{Name: gproto.String("main.proto"), Package: gproto.String("pkg"), Options: opts("example.com/main"), Dependency: []string{"other.proto"},
		EnumType: []*descriptorpb.EnumDescriptorProto{enum("Near")}}
	if syntax == "proto3" || r.Intn(2) == 0 {
		main.Syntax = gproto.String(syntax)
	}
	outer := leaf("Outer")
	inner, deep, deeper := leaf("Inner"), leaf("Deep"), leaf("Deeper")
	deep.NestedType = append(deep.NestedType, deeper)
	inner.NestedType = append(inner.NestedType, deep)
	outer.NestedType = append(outer.NestedType, inner)
	outer.EnumType = append(outer.EnumType, enum("InnerEnum"))
	main.MessageType = append(main.MessageType, outer)
	msgs := []string{".other.Far", ".pkg.Outer", ".pkg.Outer.Inner", ".pkg.Outer.Inner.Deep", ".pkg.Outer.Inner.Deep.Deeper"}
	enums := []string{".pkg.Near", ".pkg.Outer.InnerEnum"}
	if syntax == "proto3" {
		enums = append(enums, ".other.FarEnum")
	}
	var keys []descriptorpb.FieldDescriptorProto_Type
	for _, k := range kinds {
		if isKey(k) {
			keys = append(keys, k)
		}
	}
	main.MessageType = append(main.MessageType, message(r, "All", "pkg", syntax, msgs, enums, kinds, nil))
	main.MessageType = append(main.MessageType, message(r, "Mapped", "pkg", syntax, msgs, enums, kinds, keys))
	for i := 0; i < 6; i++ {
		main.MessageType = append(main.MessageType, message(r, fmt.Sprintf("Some%d", i), "pkg", syntax, msgs, enums, []descriptorpb.FieldDescriptorProto_Type{kinds[1+r.Intn(len(kinds)-1)], kinds[0]}, nil))
	}
	texts := []string{" plain\n", " `quoted` \"text\"\n", " */ x int32\n", " two\n lines\n", "\n\n", " no end", " }\n", ""}
	main.SourceCodeInfo = &descriptorpb.SourceCodeInfo{}
	comment := func(path ...int32) {
		l := &descriptorpb.SourceCodeInfo_Location{Path: path, Span: []int32{1, 1, 1}}
		if r.Intn(2) == 0 {
			l.LeadingComments = gproto.String(texts[r.Intn(len(texts))])
		}
		if r.Intn(2) == 0 {
			l.TrailingComments = gproto.String(texts[r.Intn(len(texts))])
		}
		main.SourceCodeInfo.Location = append(main.SourceCodeInfo.Location, l)
	}
	for i, m := range main.MessageType {
		comment(4, int32(i))
		for j := range m.Field {
			comment(4, int32(i), 2, int32(j))
		}
		for j := range m.OneofDecl {
			comment(4, int32(i), 8, int32(j))
		}
	}
	for i, e := range main.EnumType {
		comment(5, int32(i))
		for j := range e.Value {
			comment(5, int32(i), 2, int32(j))
		}
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"other.proto", "main.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{other, main}}
	plugin, err := protogen.Options{}.New(req)
	if err != nil {
		panic(err)
	}
	pkgs := map[string]*pkg{}
	for _, f := range plugin.Files {
		out := generator.GenerateFile(plugin, f)
		src, err := out.Content()
		if err != nil {
			report(t, "the generated code does not parse: "+err.Error(), "syntax", syntax)
		}
		file, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
		if err != nil {
			report(t, "the generated code does not parse: "+err.Error(), "syntax", syntax)
		}
		p := &pkg{types: map[string]ast.Expr{}, imports: map[string]string{}, built: map[string]reflect.Type{}, pkgs: pkgs}
		for _, i := range file.Imports {
			path, _ := strconv.Unquote(i.Path.Value)
			name := path[strings.LastIndex(path, "/")+1:]
			if i.Name != nil {
				name = i.Name.Name
			}
			p.imports[name] = path
		}
		for _, d := range file.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok {
						p.types[ts.Name.Name] = ts.Type
					}
				}
			}
		}
		pkgs[string(f.GoImportPath)] = p
	}
	// whether or not a repeated field is packed, what counts here is one element per occurrence
	for _, m := range main.MessageType {
		for _, f := range m.Field {
			if k := f.GetType(); f.GetLabel() == 3 && k != 9 && k != 11 && k != 12 {
				if f.Options == nil {
					f.Options = &descriptorpb.FieldOptions{}
				}
				f.Options.Packed = gproto.Bool(false)
			}
		}
	}
	files, err := protodesc.NewFiles(&descriptorpb.FileDescriptorSet{File: []*descriptorpb.FileDescriptorProto{other, main}})
	if err != nil {
		panic(err)
	}
	for _, f := range plugin.Files {
		var all []*protogen.Message
		var walk func(ms []*protogen.Message)
		walk = func(ms []*protogen.Message) {
			for _, m := range ms {
				if !m.Desc.IsMapEntry() {
					all = append(all, m)
					walk(m.Messages)
				}
			}
		}
		walk(f.Messages)
		for _, m := range all {
			d, err := files.FindDescriptorByName(m.Desc.FullName())
			if err != nil {
				panic(err)
			}
			typ, err := pkgs[string(f.GoImportPath)].named(m.GoIdent.GoName)
			if err != nil {
				report(t, fmt.Sprintf("message %s: %v", m.Desc.FullName(), err), "syntax", syntax)
			}
			checkMessage(t, r, d.(protoreflect.MessageDescriptor), typ)
		}
	}
}

type pkg struct {
	types   map[string]ast.Expr
	imports map[string]string
	built   map[string]reflect.Type
	pkgs    map[string]*pkg
}

var builtin = map[string]reflect.Type{"bool": reflect.TypeOf(false), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""), "byte": reflect.TypeOf(byte(0)), "int": reflect.TypeOf(0), "uint": reflect.TypeOf(uint(0))}

var optionOf = map[reflect.Type]reflect.Type{
	builtin["bool"]: reflect.TypeOf(proto.Option[bool]{}), builtin["int32"]: reflect.TypeOf(proto.Option[int32]{}), builtin["int64"]: reflect.TypeOf(proto.Option[int64]{}),
	builtin["uint32"]: reflect.TypeOf(proto.Option[uint32]{}), builtin["uint64"]: reflect.TypeOf(proto.Option[uint64]{}), builtin["float32"]: reflect.TypeOf(proto.Option[float32]{}),
	builtin["float64"]: reflect.TypeOf(proto.Option[float64]{}), builtin["string"]: reflect.TypeOf(proto.Option[string]{}), reflect.TypeOf([]byte(nil)): reflect.TypeOf(proto.Option[[]byte]{}),
}

func (p *pkg) named(name string) (reflect.Type, error) {
	if t := p.built[name]; t != nil {
		return t, nil
	}
	e := p.types[name]
	if e == nil {
		if t := builtin[name]; t != nil {
			return t, nil
		}
		return nil, fmt.Errorf("type %s is not declared", name)
	}
	t, err := p.typ(e)
	if err == nil {
		p.built[name] = t
	}
	return t, err
}

// typ builds the reflect.Type of a type expression of the generated code.
func (p *pkg) typ(e ast.Expr) (reflect.Type, error) {
	switch e := e.(type) {
	case *ast.Ident:
		return p.named(e.Name)
	case *ast.SelectorExpr:
		q := p.pkgs[p.imports[e.X.(*ast.Ident).Name]]
		if q == nil {
			return nil, fmt.Errorf("unknown package %v", e.X)
		}
		return q.named(e.Sel.Name)
	case *ast.StarExpr:
		t, err := p.typ(e.X)
		if err != nil {
			return nil, err
		}
		return reflect.PtrTo(t), nil
	case *ast.ArrayType:
		t, err := p.typ(e.Elt)
		if err != nil {
			return nil, err
		}
		if e.Len != nil {
			return reflect.ArrayOf(0, t), nil
		}
		return reflect.SliceOf(t), nil
	case *ast.MapType:
		k, err := p.typ(e.Key)
		if err != nil {
			return nil, err
		}
		v, err := p.typ(e.Value)
		if err != nil {
			return nil, err
		}
		return reflect.MapOf(k, v), nil
	case *ast.InterfaceType:
		return reflect.TypeOf((*any)(nil)).Elem(), nil
	case *ast.FuncType:
		return reflect.TypeOf(func() {}), nil
	case *ast.IndexExpr:
		s, ok := e.X.(*ast.SelectorExpr)
		if !ok || s.Sel.Name != "Option" || p.imports[s.X.(*ast.Ident).Name] != "github.com/RomiChan/protobuf/proto" {
			return nil, fmt.Errorf("unexpected generic type")
		}
		t, err := p.typ(e.Index)
		if err != nil {
			return nil, err
		}
		if o := optionOf[t]; o != nil {
			return o, nil
		}
		return nil, fmt.Errorf("no Option of %v", t)
	case *ast.StructType:
		var fs []reflect.StructField
		for i, f := range e.Fields.List {
			t, err := p.typ(f.Type)
			if err != nil {
				return nil, err
			}
			tag := ""
			if f.Tag != nil {
				tag, _ = strconv.Unquote(f.Tag.Value)
			}
			if len(f.Names) == 0 {
				continue
			}
			for _, n := range f.Names {
				sf := reflect.StructField{Name: n.Name, Type: t, Tag: reflect.StructTag(tag)}
				if !ast.IsExported(n.Name) {
					sf.Name, sf.PkgPath = fmt.Sprintf("x%d", i), "x/y"
				}
				fs = append(fs, sf)
			}
		}
		return reflect.StructOf(fs), nil
	}
	return nil, fmt.Errorf("unexpected type expression %T", e)
}

func checkMessage(t *testing.T, r *rand.Rand, d protoreflect.MessageDescriptor, typ reflect.Type) {
	ctx := []any{"message", d.FullName(), "generated type", typ.String()}
	var decoded reflect.Value
	run := func(what string, in []byte) []byte {
		defer func() {
			if x := recover(); x != nil {
				report(t, "the runtime panics on a generated type", append(ctx, "operation", what, "panic", fmt.Sprint(x), "input", in)...)
			}
		}()
		m := reflect.New(typ).Interface()
		if err := proto.Unmarshal(in, m); err != nil {
			report(t, "the runtime rejects the declared encoding: "+err.Error(), append(ctx, "case", what, "input", in)...)
		}
		decoded = reflect.ValueOf(m).Elem()
		b, err := proto.Marshal(m)
		if err != nil {
			report(t, "the runtime does not encode a generated type: "+err.Error(), append(ctx, "case", what)...)
		}
		if n := proto.Size(m); n != len(b) {
			report(t, fmt.Sprintf("Size of a generated type is %d, its encoding has %d bytes", n, len(b)), append(ctx, "case", what)...)
		}
		cases++
		if len(in) > 0 {
			seen[typ.String()+string(in)] = true
			if n := len(seen); n&(n-1) == 0 && n >= 64 && n <= 2048 && len(in) < 200 {
				fmt.Printf("SAMPLE %s %s %x\n", d.FullName(), what, in)
			}
		}
		return b
	}
	same := func(what string, m *dynamicpb.Message) {
		in, err := gproto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(m)
		if err != nil {
			panic(err)
		}
		out := run(what, in)
		q := dynamicpb.NewMessage(d)
		if err := (gproto.UnmarshalOptions{AllowPartial: true}).Unmarshal(out, q); err != nil {
			report(t, "the runtime does not write the declared encoding: "+err.Error(), append(ctx, "case", what, "input", in, "output", out)...)
		}
		if !gproto.Equal(m, q) || len(q.GetUnknown()) > 0 {
			report(t, "a message changes on its way through the generated type", append(ctx, "case", what, "input", in, "output", out, "before", m.String(), "after", q.String())...)
		}
		if what := message2(decoded, m); what != "" {
			report(t, "the generated type does not hold the values the message has: "+what, append(ctx, "case", what, "input", in, "message", m.String(), "found", fmt.Sprintf("%+v", decoded))...)
		}
		if len(in) != len(out) || !hasMaps(m) && !sameFields(in, out) {
			report(t, "the runtime does not write exactly the declared encoding", append(ctx, "case", what, "expected", in, "found", out)...)
		}
	}
	fs := plain(d)
	same("empty", dynamicpb.NewMessage(d))
	for _, f := range fs {
		for k := 0; k < 5; k++ {
			m := dynamicpb.NewMessage(d)
			set(r, m, f, k)
			same(fmt.Sprintf("field %s (%s)", f.Name(), f.Kind()), m)
		}
		// presence: an explicit zero on the wire
		if f.IsList() || f.IsMap() || f.Kind() == protoreflect.MessageKind || f.Kind() == protoreflect.BytesKind {
			continue
		}
		zero := zeroField(f)
		out := run(fmt.Sprintf("zero of field %s", f.Name()), zero)
		if f.HasPresence() && !bytes.Equal(out, zero) {
			report(t, fmt.Sprintf("field %s has presence, but a zero that is present is lost", f.Name()), append(ctx, "input", zero, "output", out)...)
		}
		if !f.HasPresence() && len(out) != 0 {
			report(t, fmt.Sprintf("field %s has no presence, but its zero is written", f.Name()), append(ctx, "input", zero, "output", out)...)
		}
	}
	for k := 0; k < 20; k++ {
		m := dynamicpb.NewMessage(d)
		for _, f := range fs {
			if r.Intn(2) == 0 {
				set(r, m, f, r.Intn(5))
			}
		}
		same("random", m)
	}
}

// message2 compares a value of the generated type with the message it should be.
func message2(v reflect.Value, m protoreflect.Message) string {
	for _, f := range plain(m.Descriptor()) {
		i, found := byNumber(v.Type())[strconv.Itoa(int(f.Number()))]
		if !found {
			return fmt.Sprintf("%s: no field of this number", f.Name())
		}
		if s := value2(v.Field(i), f, m); s != "" {
			return fmt.Sprintf("%s (%s): %s", f.Name(), f.Kind(), s)
		}
	}
	return ""
}

var byNum = map[reflect.Type]map[string]int{}

func byNumber(t reflect.Type) map[string]int {
	m := byNum[t]
	if m == nil {
		m = map[string]int{}
		for i := 0; i < t.NumField(); i++ {
			if tag := strings.Split(t.Field(i).Tag.Get("protobuf"), ","); len(tag) > 1 {
				m[tag[1]] = i
			}
		}
		byNum[t] = m
	}
	return m
}

func value2(v reflect.Value, f protoreflect.FieldDescriptor, m protoreflect.Message) string {
	switch {
	case f.IsList():
		l := m.Get(f).List()
		if v.Kind() != reflect.Slice || v.Len() != l.Len() {
			return fmt.Sprintf("%v is not a list of %d", v, l.Len())
		}
		for i := 0; i < l.Len(); i++ {
			if s := single2(v.Index(i), f, l.Get(i)); s != "" {
				return s
			}
		}
	case f.IsMap():
		mp := m.Get(f).Map()
		if v.Kind() != reflect.Map || v.Len() != mp.Len() {
			return fmt.Sprintf("%v is not a map of %d", v, mp.Len())
		}
		for _, k := range v.MapKeys() {
			var pk protoreflect.Value
			switch f.MapKey().Kind() {
			case protoreflect.BoolKind, protoreflect.StringKind:
				pk = protoreflect.ValueOf(k.Interface())
			case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
				pk = protoreflect.ValueOfUint32(uint32(k.Convert(builtin["uint64"]).Uint()))
			case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
				pk = protoreflect.ValueOfUint64(k.Convert(builtin["uint64"]).Uint())
			case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
				pk = protoreflect.ValueOfInt32(int32(k.Convert(builtin["int64"]).Int()))
			default:
				pk = protoreflect.ValueOfInt64(k.Convert(builtin["int64"]).Int())
			}
			if s := single2(k, f.MapKey(), pk); s != "" {
				return "key: " + s
			}
			if !mp.Has(pk.MapKey()) {
				return fmt.Sprintf("there is no key %v", k)
			}
			if s := single2(v.MapIndex(k), f.MapValue(), mp.Get(pk.MapKey())); s != "" {
				return fmt.Sprintf("key %v: %s", k, s)
			}
		}
	case v.Kind() == reflect.Struct: // Option
		if v.MethodByName("IsSome").Call(nil)[0].Bool() != m.Has(f) {
			return fmt.Sprintf("presence is not %v", m.Has(f))
		}
		return single2(v.MethodByName("Unwrap").Call(nil)[0], f, m.Get(f), m.Has(f))
	case v.Kind() == reflect.Ptr && v.IsNil() != !m.Has(f):
		return fmt.Sprintf("presence is not %v", m.Has(f))
	default:
		return single2(v, f, m.Get(f), m.Has(f))
	}
	return ""
}

func single2(v reflect.Value, f protoreflect.FieldDescriptor, x protoreflect.Value, has ...bool) string {
	if len(has) > 0 && !has[0] && (v.Kind() == reflect.Ptr || f.HasDefault()) {
		return ""
	}
	ok := false
	switch f.Kind() {
	case protoreflect.MessageKind:
		if v.Kind() == reflect.Ptr && !v.IsNil() {
			return message2(v.Elem(), x.Message())
		}
	case protoreflect.BoolKind:
		ok = v.Kind() == reflect.Bool && v.Bool() == x.Bool()
	case protoreflect.EnumKind:
		ok = v.Kind() == reflect.Int32 && v.Int() == int64(x.Enum())
	case protoreflect.StringKind:
		ok = v.Kind() == reflect.String && v.String() == x.String()
	case protoreflect.BytesKind:
		ok = v.Kind() == reflect.Slice && bytes.Equal(v.Bytes(), x.Bytes())
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		ok = v.CanFloat() && v.Float() == x.Float()
	default:
		switch f.Kind() {
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind, protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			ok = v.CanUint() && v.Uint() == x.Uint()
		default:
			ok = v.CanInt() && v.Int() == x.Int()
		}
	}
	if !ok {
		return fmt.Sprintf("found %v, expected %v", v, x)
	}
	return ""
}

// plain lists the fields outside oneofs.
func plain(d protoreflect.MessageDescriptor) (fs []protoreflect.FieldDescriptor) {
	for i := 0; i < d.Fields().Len(); i++ {
		if f := d.Fields().Get(i); f.ContainingOneof() == nil || f.ContainingOneof().IsSynthetic() {
			fs = append(fs, f)
		}
	}
	return
}

func zeroField(f protoreflect.FieldDescriptor) []byte {
	wt, pay := uint64(0), []byte{0}
	switch f.Kind() {
	case protoreflect.Fixed32Kind, protoreflect.Sfixed32Kind, protoreflect.FloatKind:
		wt, pay = 5, make([]byte, 4)
	case protoreflect.Fixed64Kind, protoreflect.Sfixed64Kind, protoreflect.DoubleKind:
		wt, pay = 1, make([]byte, 8)
	case protoreflect.StringKind:
		wt = 2
	}
	x := uint64(f.Number())<<3 | wt
	var b []byte
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(append(b, byte(x)), pay...)
}

func hasMaps(m protoreflect.Message) (yes bool) {
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		yes = yes || f.IsMap()
		return true
	})
	return
}

// sameFields compares two encodings up to the order of fields.
func sameFields(a, b []byte) bool {
	x, y := split(a), split(b)
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		if y[k] != v {
			return false
		}
	}
	return true
}

func split(b []byte) map[uint64]string {
	m := map[uint64]string{}
	for len(b) > 0 {
		s := b
		tag, n := uvarint(b)
		b = b[n:]
		switch tag & 7 {
		case 0:
			_, n = uvarint(b)
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			l, k := uvarint(b)
			n = k + int(l)
		}
		b = b[n:]
		m[tag] += string(s[:len(s)-len(b)])
	}
	return m
}

func uvarint(b []byte) (x uint64, n int) {
	for i, c := range b {
		x |= uint64(c&0x7f) << uint(7*i)
		if c < 0x80 {
			return x, i + 1
		}
	}
	return 0, len(b)
}

func set(r *rand.Rand, m protoreflect.Message, f protoreflect.FieldDescriptor, k int) {
	switch {
	case f.IsList():
		l := m.Mutable(f).List()
		for i := 0; i <= k; i++ {
			if f.Kind() == protoreflect.MessageKind {
				fill(r, l.AppendMutable().Message())
			} else {
				l.Append(scalar(r, f, (k+i)%5))
			}
		}
	case f.IsMap():
		mp := m.Mutable(f).Map()
		for i := 0; i <= k; i++ {
			key := scalar(r, f.MapKey(), (k+i)%5).MapKey()
			if f.MapValue().Kind() == protoreflect.MessageKind {
				v := mp.NewValue()
				fill(r, v.Message())
				mp.Set(key, v)
			} else {
				mp.Set(key, scalar(r, f.MapValue(), (k+2*i)%5))
			}
		}
	case f.Kind() == protoreflect.MessageKind:
		v := m.Mutable(f).Message()
		if k > 0 {
			fill(r, v)
		}
	default:
		v := scalar(r, f, k)
		if f.HasPresence() || k > 0 {
			m.Set(f, v)
		}
	}
}

func fill(r *rand.Rand, m protoreflect.Message) {
	fs := plain(m.Descriptor())
	for _, f := range fs {
		if r.Intn(2) == 0 {
			set(r, m, f, r.Intn(5))
		}
	}
}

func scalar(r *rand.Rand, f protoreflect.FieldDescriptor, k int) protoreflect.Value {
	x := []int64{0, 1, -1, math.MinInt64, int64(r.Uint64())}[k]
	y := []int32{0, 1, -1, math.MinInt32, int32(r.Uint32())}[k]
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(k%2 == 1)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber([]int32{0, 1, -1, math.MaxInt32, 1}[k]))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(y)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(y))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(x)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(x))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32([]float32{0, 1, -2.5, float32(math.Inf(1)), r.Float32()}[k])
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64([]float64{0, 1, -2.5, math.Inf(-1), r.Float64()}[k])
	case protoreflect.StringKind:
		return protoreflect.ValueOfString([]string{"", "x", "héllo", strings.Repeat("long", 50), fmt.Sprint(r.Int())}[k])
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([][]byte{{}, {0}, {255, 1}, bytes.Repeat([]byte{7}, 200), {byte(r.Intn(256))}}[k])
	}
	panic("kind")
}
