HEAD = '''
package proto_test

import (
	"testing"

	"github.com/RomiChan/protobuf/proto"
)
'''


def H(*imports):
    return "package proto_test\n\nimport (\n\t\"testing\"\n" + "".join(f'\t"{i}"\n' for i in imports) + '\n\t"github.com/RomiChan/protobuf/proto"\n)\n'


W = "proto/walker.go"
ST = "proto/struct.go"
SL = "proto/slice.go"
MP = "proto/map.go"
PR = "proto/proto.go"
NC = "proto/normal_codec.go"
OC = "proto/option_codec.go"
RC = "proto/required_codec.go"

GM = "internal/generator/main.go"
GI = "internal/generator/init.go"
RM = "internal/runtime_reflect/map.go"

# demonstrations of the generator: generate a file from a descriptor and look at its structs
GEN = r'''
package generator

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"testing"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

type demoField struct {
	name, typ string
	tag       reflect.StructTag
}

// generate returns the struct fields emitted per struct.
func generate(t *testing.T, fd *descriptorpb.FileDescriptorProto) map[string][]demoField {
	fd.Name = proto.String("demo.proto")
	fd.Package = proto.String("demo")
	fd.Options = &descriptorpb.FileOptions{GoPackage: proto.String("example.com/demo;demo")}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"demo.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{fd}}
	gen, err := protogen.Options{}.New(req)
	if err != nil {
		t.Fatal(err)
	}
	src, err := GenerateFile(gen, gen.Files[len(gen.Files)-1]).Content()
	if err != nil {
		t.Fatal(err)
	}
	f, err := parser.ParseFile(token.NewFileSet(), "demo.pb.go", src, 0)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string][]demoField{}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, sp := range gd.Specs {
			ts, ok := sp.(*ast.TypeSpec)
			if !ok {
				continue
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				continue
			}
			out[ts.Name.Name] = nil
			for _, fl := range st.Fields.List {
				if fl.Tag == nil {
					continue
				}
				tag, _ := strconv.Unquote(fl.Tag.Value)
				for _, n := range fl.Names {
					out[ts.Name.Name] = append(out[ts.Name.Name], demoField{n.Name, types.ExprString(fl.Type), reflect.StructTag(tag)})
				}
			}
		}
	}
	return out
}

func field(name string, num int32, typ descriptorpb.FieldDescriptorProto_Type) *descriptorpb.FieldDescriptorProto {
	return &descriptorpb.FieldDescriptorProto{Name: &name, Number: &num, Type: &typ, Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
}

func msg(name string, fields ...*descriptorpb.FieldDescriptorProto) *descriptorpb.DescriptorProto {
	return &descriptorpb.DescriptorProto{Name: &name, Field: fields}
}

// mapField adds a map field and its entry to a message.
func mapField(m *descriptorpb.DescriptorProto, name, entry string, num int32, key, val descriptorpb.FieldDescriptorProto_Type) {
	e := msg(entry, field("key", 1, key), field("value", 2, val))
	e.Options = &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}
	m.NestedType = append(m.NestedType, e)
	f := field(name, num, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE)
	f.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	f.TypeName = proto.String(".demo." + m.GetName() + "." + entry)
	m.Field = append(m.Field, f)
}

func pick(t *testing.T, fs []demoField, name string) demoField {
	for _, f := range fs {
		if f.name == name {
			return f
		}
	}
	t.Fatalf("no field %s in %v", name, fs)
	return demoField{}
}

const (
	tSint64  = descriptorpb.FieldDescriptorProto_TYPE_SINT64
	tInt32   = descriptorpb.FieldDescriptorProto_TYPE_INT32
	tString  = descriptorpb.FieldDescriptorProto_TYPE_STRING
	tSfixed  = descriptorpb.FieldDescriptorProto_TYPE_SFIXED32
	tMessage = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
)
'''

SEEDS = [
    dict(
        id="C01-tagsize-number", property="C01",
        needs="a field number from 16 to 127 (or another number whose key needs one byte more than the number)",
        breaks="the key size of a field is computed from its number instead of number<<3|type, so Size and nested length prefixes are too small",
        edits=[(W, "		field.tagsize = sizeOfVarint(field.wiretag)\n", "		field.tagsize = sizeOfVarint(uint64(t.fieldNumber))\n")],
        demo=H() + '''
type demoInner struct {
	S string `protobuf:"bytes,100,opt"`
}
type demoOuter struct {
	I *demoInner `protobuf:"bytes,1,opt"`
}

func TestDemo(t *testing.T) {
	m := &demoOuter{I: &demoInner{S: "abc"}}
	b, err := proto.Marshal(m)
	if err != nil || proto.Size(m) != len(b) {
		t.Fatalf("Size %d, %d bytes, %v", proto.Size(m), len(b), err)
	}
	if int(b[1]) != len(b)-2 {
		t.Fatalf("length prefix %d for %d bytes", b[1], len(b)-2)
	}
}
'''),
    dict(
        id="C02-varint-boundary", property="C02",
        needs="the value 1<<63 exactly (math.MinInt64 in an int64 field)",
        breaks="the nine-byte case also takes 1<<63, whose last group needs a tenth byte: the varint is left unterminated",
        edits=[("proto/encode.go", "	case v < 1<<63:\n", "	case v <= 1<<63:\n")],
        demo=H("math") + '''
type demoMsg struct {
	V int64 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	b, _ := proto.Marshal(&demoMsg{V: math.MinInt64})
	var m demoMsg
	if err := proto.Unmarshal(b, &m); err != nil || m.V != math.MinInt64 {
		t.Fatalf("%x: %v %v", b, m.V, err)
	}
}
'''),
    dict(
        id="C03-repeated-negative", property="C03",
        needs="a negative element of a repeated int32 field (or a negative int32 map value, or Option, or pointer)",
        breaks="negative int32 values are written as five-byte varints where the value is always emitted, instead of being sign-extended to ten bytes",
        edits=[(RC, "func sizeOfInt32Required(p unsafe.Pointer, f *structField) int {\n	v := *(*int32)(p)\n	return sizeOfVarint(uint64(v)) + f.tagsize\n", "func sizeOfInt32Required(p unsafe.Pointer, f *structField) int {\n	v := *(*uint32)(p)\n	return sizeOfVarint(uint64(v)) + f.tagsize\n"),
               (RC, "func encodeInt32Required(b []byte, p unsafe.Pointer, f *structField) []byte {\n	v := *(*int32)(p)\n", "func encodeInt32Required(b []byte, p unsafe.Pointer, f *structField) []byte {\n	v := *(*uint32)(p)\n")],
        demo=H("encoding/hex") + '''
type demoMsg struct {
	V []int32 `protobuf:"varint,1,rep"`
}

func TestDemo(t *testing.T) {
	b, _ := proto.Marshal(&demoMsg{V: []int32{-2}})
	if got := hex.EncodeToString(b); got != "08feffffffffffffffff01" {
		t.Fatal(got)
	}
}
'''),
    dict(
        id="C04-negative-zero", property="C04",
        needs="a plain double field holding negative zero",
        breaks="negative zero is treated as the default and dropped, both in Size and Marshal",
        edits=[(NC, "	if *(*float64)(p) != 0 || math.Signbit(*(*float64)(p)) {\n", "	if *(*float64)(p) != 0 {\n"),
               (NC, "	if v := *(*float64)(p); v != 0 || math.Signbit(v) {\n", "	if v := *(*float64)(p); v != 0 {\n")],
        demo=H("math") + '''
type demoMsg struct {
	V float64 `protobuf:"fixed64,1,opt"`
}

func TestDemo(t *testing.T) {
	b, _ := proto.Marshal(&demoMsg{V: math.Copysign(0, -1)})
	if len(b) != 9 {
		t.Fatalf("%x", b)
	}
}
'''),
    dict(
        id="C04-sticky-required", property="C04",
        needs="a plain field declared after a repeated or map field, holding its zero value",
        breaks="the walker configuration is shared by all fields of a struct, so `required` set for a repeated field sticks to later plain fields",
        edits=[(W, "	fields := make([]*structField, 0, numField)\n", "	fields := make([]*structField, 0, numField)\n	conf := &walkerConfig{}\n"),
               (W, "			conf := &walkerConfig{\n				zigzag: t.zigzag,\n				fixed:  t.fixed(),\n				// required: t.required,\n			}\n",
                "			conf.zigzag = t.zigzag\n			conf.fixed = t.fixed()\n")],
        demo=H() + '''
type demoMsg struct {
	A []int32 `protobuf:"varint,1,rep"`
	B int32   `protobuf:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	b, _ := proto.Marshal(&demoMsg{})
	if len(b) != 0 {
		t.Fatalf("%x", b)
	}
}
'''),
    dict(
        id="C05-uint32-saturate", property="C05",
        needs="a uint32 field whose varint exceeds 32 bits",
        breaks="the value is clamped to MaxUint32 instead of keeping the low 32 bits",
        edits=[(NC, "	*(*uint32)(p) = uint32(v)\n", "	if *(*uint32)(p) = uint32(v); v > math.MaxUint32 {\n		*(*uint32)(p) = math.MaxUint32\n	}\n")],
        demo=H() + '''
type demoMsg struct {
	V uint32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	if err := proto.Unmarshal([]byte{8, 0x85, 0x80, 0x80, 0x80, 0x10}, &m); err != nil || m.V != 5 {
		t.Fatal(m.V, err)
	}
}
'''),
    dict(
        id="C06-cap-bound", property="C06",
        needs="a truncated 64-bit field in a slice whose backing array goes on behind its length",
        breaks="the extent of a 64-bit value is checked against the capacity of the buffer instead of its length, so bytes behind the input are decoded",
        edits=[(ST, "			if (offset + 8) > len(b) {\n", "			if (offset + 8) > cap(b) {\n")],
        demo=H() + '''
type demoMsg struct {
	D []uint64 `protobuf:"fixed64,1,rep"`
}

func TestDemo(t *testing.T) {
	full := []byte{9, 1, 2, 3, 4, 5, 6, 7, 8}
	var m demoMsg
	if err := proto.Unmarshal(full[:4], &m); err == nil {
		t.Fatalf("accepted: %x", m.D)
	}
}
'''),
    dict(
        id="C07-unknown-overlong", property="C07",
        needs="an unknown varint field with more than ten bytes",
        breaks="unknown varints are skipped by looking for the last byte only, so an over-long one is accepted",
        edits=[(ST, "				_, skip, err = decodeVarint(b[offset:])\n",
                "				for offset+skip < len(b) && b[offset+skip] >= 0x80 {\n					skip++\n				}\n				skip++\n")],
        demo=H() + '''
type demoMsg struct {
	V uint32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	if err := proto.Unmarshal([]byte{16, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1}, &m); err == nil {
		t.Fatal("over-long varint accepted")
	}
}
'''),
    dict(
        id="C22-unknown-backwards", property="C22",
        needs="an unknown length-delimited field whose length, as a signed number, is negative",
        breaks="the length of an unknown field is added without a range check; as a negative number it moves the offset backwards and decoding loops forever",
        edits=[(ST, "					if size > uint64(len(b)-skip) {\n						err = io.ErrUnexpectedEOF\n					} else {\n						skip += int(size)\n					}\n", "					skip += int(size)\n")],
        demo=H("time") + '''
type demoMsg struct {
	V uint32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- "panic"
			}
		}()
		var m demoMsg
		// key of field 2, length -11 (the record itself is 11 bytes long)
		err := proto.Unmarshal([]byte{18, 0xf5, 255, 255, 255, 255, 255, 255, 255, 255, 1}, &m)
		if err == nil {
			done <- "accepted"
			return
		}
		done <- ""
	}()
	select {
	case s := <-done:
		if s != "" {
			t.Fatal(s)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("still decoding")
	}
}
'''),
    dict(
        id="C09-mismatch-skipped", property="C09",
        needs="a declared field number arriving with another wire type",
        breaks="records whose wire type differs from the declared one are skipped like unknown fields instead of being rejected",
        edits=[(ST, "		if f == nil {\n", "		if f == nil || wireType == varlen && f.wireType() == varint {\n")],
        demo=H() + '''
type demoMsg struct {
	V []uint32 `protobuf:"varint,1,rep"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	if err := proto.Unmarshal([]byte{10, 2, 1, 2}, &m); err == nil {
		t.Fatal("dropped silently")
	}
}
'''),
    dict(
        id="C10-bytes-alias", property="C10",
        needs="the input buffer being reused after decoding into a message whose bytes field was nil",
        breaks="a bytes field that was nil takes the payload slice itself instead of a copy",
        edits=[(NC, "	if *pb == nil {\n		*pb = make([]byte, 0, len(v))\n	}\n	*pb = append((*pb)[:0], v...)\n",
                "	if *pb == nil && err == nil {\n		*pb = v[:len(v):len(v)]\n		return n, nil\n	}\n	*pb = append((*pb)[:0], v...)\n")],
        demo=H() + '''
type demoMsg struct {
	V []byte `protobuf:"bytes,1,opt"`
}

func TestDemo(t *testing.T) {
	b := []byte{10, 3, 'a', 'b', 'c'}
	var m demoMsg
	if err := proto.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	copy(b, "xxxxx")
	if string(m.V) != "abc" {
		t.Fatalf("%q", m.V)
	}
}
'''),
    dict(
        id="C11-pooled-output", property="C11",
        needs="two Marshal calls, the first result still in use during the second",
        breaks="the output buffer goes back to a pool although it is returned to the caller",
        edits=[(PR, "	b := make([]byte, 0, info.size(p))\n	b = info.encode(b, p)\n	return b, nil\n",
                "	n := info.size(p)\n	b, _ := bufPool.Get().([]byte)\n	if cap(b) < n {\n		b = make([]byte, 0, n)\n	}\n	b = info.encode(b[:0], p)\n	bufPool.Put(b)\n	return b[:len(b):len(b)], nil\n"),
               (PR, "func Unmarshal(b []byte, v interface{}) error {\n", "var bufPool sync.Pool\n\nfunc Unmarshal(b []byte, v interface{}) error {\n")],
        demo=H() + '''
type demoMsg struct {
	V string `protobuf:"bytes,1,opt"`
}

func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		a, _ := proto.Marshal(&demoMsg{V: "first"})
		s := string(a)
		proto.Marshal(&demoMsg{V: "other"})
		if string(a) != s {
			t.Fatalf("%q became %q", s, a)
		}
	}
}
'''),
    dict(
        id="C12-size-hint", property="C12",
        needs="a repeated field that already has exactly one element and capacity for one",
        breaks="growth by half of the capacity does not grow a slice of capacity one, and the next element is written behind the array",
        edits=[(SL, "	cap := 2 * s.Cap()\n", "	cap := s.Cap() + s.Cap()/2\n")],
        demo=H() + '''
type demoMsg struct {
	V []uint32 `protobuf:"varint,1,rep"`
}

func TestDemo(t *testing.T) {
	m := demoMsg{V: make([]uint32, 1, 1)}
	if err := proto.Unmarshal([]byte{8, 7}, &m); err != nil {
		t.Fatal(err)
	}
	if cap(m.V) < 2 || m.V[1] != 7 {
		t.Fatal(len(m.V), cap(m.V))
	}
}
'''),
    dict(
        id="C13-entry-kept-on-error", property="C13",
        needs="a map entry that fails to decode after its value was read, then an entry without a value",
        breaks="the pooled entry struct is cleared only after success, so a failed entry leaks its value into a later one",
        edits=[(MP, "			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n		}\n		Assign(stype, s, structZero)\n",
                "			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n			Assign(stype, s, structZero)\n		}\n")],
        demo=H() + '''
type demoMsg struct {
	M map[int32]int32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		var bad, good demoMsg
		if proto.Unmarshal([]byte{10, 3, 16, 99, 8}, &bad) == nil {
			t.Fatal("truncated entry accepted")
		}
		if err := proto.Unmarshal([]byte{10, 2, 8, 1}, &good); err != nil || good.M[1] != 0 {
			t.Fatal(good.M, err)
		}
	}
}
'''),
    dict(
        id="C14-slice-zigzag", property="C14",
        needs="a repeated sint32 field in a program that also uses a repeated int32 field, in either order",
        breaks="the walker keeps the codec it chose for a Go type, whatever the tag of the field it was chosen for",
        edits=[(W, "	case reflect.Int64:\n		if conf.zigzag {\n			return &zigzag64Codec\n		}\n", "	case reflect.Int64:\n		if conf.zigzag {\n			w.codecs[t] = &zigzag64Codec\n			return w.codecs[t]\n		}\n")],
        demo=H("encoding/hex") + '''
type demoMsg struct {
	A int64 `protobuf:"zigzag64,1,opt"`
	B int64 `protobuf:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	b, _ := proto.Marshal(&demoMsg{A: 1, B: 1})
	if got := hex.EncodeToString(b); got != "08021001" {
		t.Fatal(got)
	}
}
'''),
    dict(
        id="C15-early-publish", property="C15",
        needs="a type whose preparation fails (or is still going on elsewhere) and that is used again",
        breaks="a message codec is put into the shared cache before it is filled in, and stays there when the preparation of the type fails",
        edits=[(W, "	c := new(codec)\n	w.codecs[t] = c\n	elem := t.Elem()\n", "	c := new(codec)\n	w.codecs[t] = c\n	codecCache.Store(pointer(t), c)\n	elem := t.Elem()\n"),
               (W, "	if c, ok := codecCache.Load(pointer(t)); ok {\n		return c.(*codec)\n	}\n	if c, ok := w.codecs[t]; ok {\n		return c\n	}\n",
                "	if c, ok := w.codecs[t]; ok {\n		return c\n	}\n	if c, ok := codecCache.Load(pointer(t)); ok {\n		return c.(*codec)\n	}\n")],
        demo=H("fmt", "strings") + '''
type demoBad struct {
	C chan int `protobuf:"varint,1,opt"`
}
type demoMsg struct {
	B *demoBad `protobuf:"bytes,1,opt"`
}

func try() (msg string) {
	defer func() { msg = fmt.Sprint(recover()) }()
	proto.Marshal(&demoMsg{})
	return ""
}

func TestDemo(t *testing.T) {
	for i := 0; i < 2; i++ {
		if m := try(); !strings.Contains(m, "unsupported type") {
			t.Fatalf("call %d: %s", i+1, m)
		}
	}
}
'''),
    dict(
        id="C27-torn-memo", property="C27",
        needs="two goroutines that alternate between two message types, one reading the memo between the other's two stores",
        breaks="the last type's structInfo is remembered in two separate atomics, so a reader may pair one type with the other's info",
        edits=[(PR, "	c, ok := structInfoCache.Load(pointer(t))\n	if ok {\n		return c\n	}\n",
                "	key := pointer(t)\n	if atomic.LoadPointer(&lastType) == key {\n		return (*structInfo)(atomic.LoadPointer(&lastInfo))\n	}\n	c, ok := structInfoCache.Load(key)\n	if ok {\n		atomic.StorePointer(&lastInfo, unsafe.Pointer(c))\n		atomic.StorePointer(&lastType, key)\n		return c\n	}\n"),
               (PR, '	"sync"\n', '	"sync"\n	"sync/atomic"\n'),
               (PR, "func cachedStructInfoOf(", "// the type used last, most calls are for the same one again\nvar lastType, lastInfo unsafe.Pointer\n\nfunc cachedStructInfoOf(")],
        demo=H("bytes", "sync", "time") + '''
type demoA struct {
	V int32 `protobuf:"varint,1,opt"`
}
type demoB struct {
	V int32 `protobuf:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	end := time.Now().Add(10 * time.Second)
	var wg sync.WaitGroup
	var once sync.Once
	bad := make(chan []byte, 1)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; len(bad) == 0 && (i%1000 != 0 || time.Now().Before(end)); i++ {
				a, _ := proto.Marshal(&demoA{V: 1})
				if !bytes.Equal(a, []byte{8, 1}) {
					once.Do(func() { bad <- a })
				}
				b, _ := proto.Marshal(&demoB{V: 1})
				if !bytes.Equal(b, []byte{16, 1}) {
					once.Do(func() { bad <- b })
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) != 0 {
		t.Fatalf("%x", <-bad)
	}
}
'''),
    dict(
        id="C27-size-memo", property="C27",
        needs="two goroutines marshalling different messages with the same nested message field, the memo changing between the check of its owner and the use of its size",
        breaks="the size pass leaves each nested message's size in the shared field description for the encoding pass",
        edits=[(W, "			n := info.size(p)\n			n += sizeOfVarint(uint64(n)) + f.tagsize\n", "			n := info.size(p)\n			f.lastSize, f.lastOf = n, p\n			n += sizeOfVarint(uint64(n)) + f.tagsize\n"),
               (W, "			n := info.size(p)\n			b = appendVarint(b, uint64(n))\n", "			n := f.lastSize\n			if f.lastOf != p {\n				n = info.size(p)\n			}\n			b = appendVarint(b, uint64(n))\n"),
               (ST, "	tagsize int\n", "	tagsize int\n\n	lastOf   unsafe.Pointer // the message sized last\n	lastSize int\n")],
        demo=H("sync", "time") + '''
type demoInner struct {
	S string `protobuf:"bytes,1,opt"`
}
type demoMsg struct {
	I *demoInner `protobuf:"bytes,1,opt"`
}

func TestDemo(t *testing.T) {
	end := time.Now().Add(20 * time.Second)
	var wg sync.WaitGroup
	var once sync.Once
	bad := make(chan []byte, 1)
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := &demoMsg{I: &demoInner{S: string(make([]byte, g+1))}}
			for i := 0; len(bad) == 0 && (i%1000 != 0 || time.Now().Before(end)); i++ {
				b, _ := proto.Marshal(m)
				if len(b) != g+5 || int(b[1]) != g+3 {
					once.Do(func() { bad <- b })
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) != 0 {
		t.Fatalf("%x", <-bad)
	}
}
'''),
    dict(
        id="C27-lock-kept", property="C27",
        needs="a call with an unsupported message type whose panic is recovered, then a first use of any other type",
        breaks="the mutex that serialises first uses of types stays locked when the preparation panics",
        edits=[(PR, "	c, ok := structInfoCache.Load(pointer(t))\n	if ok {\n		return c\n	}\n", "	key := pointer(t)\n	c, ok := structInfoCache.Load(key)\n	if ok {\n		return c\n	}\n	prepareMu.Lock()\n	if c, ok = structInfoCache.Load(key); ok {\n		prepareMu.Unlock()\n		return c\n	}\n"),
               (PR, "	info := w.structInfo(t)\n	w.publish()\n", "	info := w.structInfo(t)\n	w.publish()\n	prepareMu.Unlock()\n"),
               (PR, "func cachedStructInfoOf(", "var prepareMu sync.Mutex // one first use at a time\n\nfunc cachedStructInfoOf(")],
        demo=H("time") + '''
type demoBad struct {
	C chan int `protobuf:"varint,1,opt"`
}
type demoMsg struct {
	V int32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	func() {
		defer func() { recover() }()
		proto.Marshal(&demoBad{})
	}()
	done := make(chan bool)
	go func() {
		proto.Marshal(&demoMsg{V: 1})
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("Marshal does not return")
	}
}
'''),
    dict(
        id="C27-entry-scratch", property="C27",
        needs="two goroutines marshalling messages with the same map field",
        breaks="the encoder of a map type builds every entry in one buffer it keeps between calls",
        edits=[(MP, "	mapTag := appendVarint(nil, f.wiretag)\n", "	mapTag := appendVarint(nil, f.wiretag)\n	scratch := make([]byte, 0, 256) // for small entries\n"),
               (MP, "			b = keyCodec.encode(b, key, f.keyField)\n			b = valCodec.encode(b, val, f.valField)\n",
                "			if elemSize <= cap(scratch) && valCodec == &stringRequiredCodec {\n				e := keyCodec.encode(scratch[:0], key, f.keyField)\n				b = append(b, valCodec.encode(e, val, f.valField)...)\n				continue\n			}\n			b = keyCodec.encode(b, key, f.keyField)\n			b = valCodec.encode(b, val, f.valField)\n"),
               (MP, "		m := MapIter{}\n		defer m.Done()\n\n		for m.Init(pointer(t), p); m.HasNext(); m.Next() {\n			key := m.Key()", "		m := MapIter{}\n		defer m.Done()\n\n		for m.Init(pointer(t), p); m.HasNext(); m.Next() { // one record per entry\n			key := m.Key()")],
        demo=H("sync", "strings", "time") + '''
type demoMsg struct {
	M map[int32]string `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

func TestDemo(t *testing.T) {
	end := time.Now().Add(20 * time.Second)
	var wg sync.WaitGroup
	var once sync.Once
	bad := make(chan string, 1)
	for g := 0; g < 16; g++ {
		s := strings.Repeat(string(rune('a'+g)), 100)
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := &demoMsg{M: map[int32]string{1: s}}
			for i := 0; len(bad) == 0 && (i%1000 != 0 || time.Now().Before(end)); i++ {
				b, _ := proto.Marshal(m)
				if !strings.HasSuffix(string(b), s) {
					once.Do(func() { bad <- string(b) })
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) != 0 {
		t.Fatalf("%q", <-bad)
	}
}
'''),
    dict(
        id="C16-group-tag", property="C16",
        needs="a struct tag naming the group wire type",
        breaks="a field tagged as a group is taken as length-delimited instead of being refused",
        edits=[(ST, '			case "bytes":\n', '			case "bytes", "group":\n')],
        demo=H() + '''
type demoInner struct {
	V int32 `protobuf:"varint,1,opt"`
}
type demoMsg struct {
	G *demoInner `protobuf:"group,1,opt,name=G"`
}

func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	proto.Marshal(&demoMsg{G: &demoInner{V: 1}})
}
'''),
    dict(
        id="C17-nil-message", property="C17",
        needs="a typed nil message pointer passed to Marshal or Size",
        breaks="the nil test of the size function is gone, so sizing a nil message reads through a nil pointer",
        edits=[(ST, "	if p == nil {\n		return 0\n	}\n	n := 0\n", "	n := 0\n")],
        demo=H() + '''
type demoMsg struct {
	V uint32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	b, err := proto.Marshal((*demoMsg)(nil))
	if err != nil || len(b) != 0 {
		t.Fatal(b, err)
	}
}
'''),
    dict(
        id="C18-outer-lost", property="C18",
        needs="an error inside an embedded message",
        breaks="an error that already names a field is passed on as it is, so the enclosing field is not named",
        edits=[(ST, "		n, err = f.codec.decode(data, f.pointer(p))\n		offset += n\n		if err != nil {\n			return offset, fieldError(fieldNumber, wireType, err)\n		}\n",
                "		n, err = f.codec.decode(data, f.pointer(p))\n		offset += n\n		if err != nil {\n			if _, ok := err.(*UnmarshalFieldError); !ok {\n				err = fieldError(fieldNumber, wireType, err)\n			}\n			return offset, err\n		}\n")],
        demo=H("errors") + '''
type demoInner struct {
	V uint32 `protobuf:"varint,5,opt"`
}
type demoMsg struct {
	I *demoInner `protobuf:"bytes,3,opt"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	err := proto.Unmarshal([]byte{26, 2, 40, 128}, &m)
	var fe *proto.UnmarshalFieldError
	if !errors.As(err, &fe) || fe.FieldNumber != 3 {
		t.Fatal(err)
	}
	if !errors.As(fe.Err, &fe) || fe.FieldNumber != 5 {
		t.Fatal(err)
	}
}
'''),
    dict(
        id="C19-typed-zero", property="C19",
        needs="an Option built from the zero value with a typed constructor",
        breaks="proto.Int64(0) gives an unset Option",
        edits=[("proto/option.go", "func Int64(v int64) Option[int64] { return Some(v) }\n", "func Int64(v int64) Option[int64] { return Option[int64]{some: v != 0, value: v} }\n")],
        demo=H() + '''
func TestDemo(t *testing.T) {
	if proto.Int64(0).IsNone() {
		t.Fatal("unset")
	}
}
'''),
    dict(
        id="C20-wide-store", property="C20",
        needs="a sint32 field followed in memory by something the same input does not set afterwards",
        breaks="a sint32 value is stored as 64 bits, overwriting the four bytes behind the field",
        edits=[(NC, "	*(*int32)(p) = int32(decodeZigZag64(u))\n", "	*(*int64)(p) = decodeZigZag64(u)\n")],
        demo=H() + '''
type demoMsg struct {
	A int32 `protobuf:"zigzag32,1,opt"`
	n int32
	C int32 `protobuf:"varint,3,opt"`
}

func TestDemo(t *testing.T) {
	m := demoMsg{n: 42}
	if err := proto.Unmarshal([]byte{8, 1}, &m); err != nil || m.A != -1 || m.n != 42 {
		t.Fatal(m, err)
	}
}
'''),
    dict(
        id="C08-fixed-unknown-end", property="C08",
        needs="an unknown 64-bit record that is the last record of the input",
        breaks="an unknown record that reaches exactly to the end of the input is reported as truncated",
        edits=[(ST, "			if (offset + skip) <= len(b) {\n", "			if (offset+skip) < len(b) || wireType != fixed64 && (offset+skip) == len(b) {\n")],
        demo=H() + '''
type demoMsg struct {
	V uint32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	if err := proto.Unmarshal([]byte{8, 1, 17, 1, 2, 3, 4, 5, 6, 7, 8}, &m); err != nil || m.V != 1 {
		t.Fatal(m, err)
	}
}
'''),
    dict(
        id="C21-optional-presence", property="C21", pkg="internal/generator",
        needs="a proto3 optional scalar field (a member of a synthetic oneof)",
        breaks="members of any oneof, synthetic ones included, lose the Option wrapper, so a proto3 optional field cannot tell zero from absent",
        edits=[(GM, "	pointer = field.Desc.HasPresence()\n", "	pointer = field.Desc.HasPresence() && field.Oneof == nil\n")],
        demo=GEN + """
func TestDemo(t *testing.T) {
	m := msg("M", field("a", 1, tInt32), field("b", 2, tInt32))
	m.Field[1].Proto3Optional = proto.Bool(true)
	m.Field[1].OneofIndex = proto.Int32(0)
	m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("_b")}}
	fs := generate(t, &descriptorpb.FileDescriptorProto{Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}})["M"]
	if f := pick(t, fs, "A"); f.typ != "int32" {
		t.Fatal(f)
	}
	if f := pick(t, fs, "B"); f.typ != "proto.Option[int32]" {
		t.Fatal(f)
	}
}
"""),
    dict(
        id="C21-map-value-option", property="C21", pkg="internal/generator",
        needs="a map field with scalar values in a proto2 file (entries of proto2 maps have presence)",
        breaks="map values with presence are emitted as proto.Option values, a map type the runtime refuses",
        edits=[(GM, "		valType, _, _ := fieldGoType(g, f, field.Message.Fields[1])\n",
                """		valType, option, _ := fieldGoType(g, f, field.Message.Fields[1])
		if option {
			valType = g.QualifiedGoIdent(protoPackage.Ident("Option[" + valType + "]"))
		}
""")],
        demo=GEN + """
func TestDemo(t *testing.T) {
	for _, syntax := range []string{"proto3", "proto2"} {
		m := msg("M")
		mapField(m, "a", "AEntry", 3, tString, tSint64)
		fs := generate(t, &descriptorpb.FileDescriptorProto{Syntax: &syntax, MessageType: []*descriptorpb.DescriptorProto{m}})["M"]
		if f := pick(t, fs, "A"); f.typ != "map[string]int64" {
			t.Fatal(syntax, f)
		}
	}
}
"""),
    dict(
        id="C21-list-sfixed", property="C21", pkg="internal/generator",
        needs="a repeated sfixed32 field",
        breaks="repeated sfixed32 fields get the wire type of their Go type instead of fixed32: they are written as varints",
        edits=[(GM, "	case protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind, protoreflect.FloatKind:\n		tag = append(tag, \"fixed32\")\n",
                """	case protoreflect.Sfixed32Kind:
		if fd.IsList() {
			tag = append(tag, "varint")
			break
		}
		tag = append(tag, "fixed32")
	case protoreflect.Fixed32Kind, protoreflect.FloatKind:
		tag = append(tag, "fixed32")
""")],
        demo=GEN + """
func TestDemo(t *testing.T) {
	m := msg("M", field("a", 1, tSfixed), field("b", 2, tSfixed))
	m.Field[1].Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	fs := generate(t, &descriptorpb.FileDescriptorProto{Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}})["M"]
	for _, n := range []string{"A", "B"} {
		if f := pick(t, fs, n); f.tag.Get("protobuf")[:7] != "fixed32" {
			t.Fatal(f)
		}
	}
}
"""),
    dict(
        id="C24-map-entry-siblings", property="C24", pkg="internal/generator",
        needs="a message nested after (or inside a message next to) a map field's entry type",
        breaks="the walk over nested messages stops at the first map entry, so nested types of the messages after it are not emitted",
        edits=[(GI, "		for _, m := range messages {\n			f(m)\n",
                "		for i := 0; i < len(messages) && !messages[i].Desc.IsMapEntry(); i++ {\n			m := messages[i]\n			f(m)\n")],
        demo=GEN.replace('"strconv"\n', '"strconv"\n\t"strings"\n') + """
func TestDemo(t *testing.T) {
	m := msg("M")
	mapField(m, "a", "AEntry", 3, tString, tSint64)
	inner := msg("Inner", field("x", 1, tInt32))
	inner.NestedType = append(inner.NestedType, msg("Leaf", field("y", 1, tInt32)))
	m.NestedType = append(m.NestedType, inner)
	out := generate(t, &descriptorpb.FileDescriptorProto{Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}})
	for _, n := range []string{"M", "M_Inner", "M_Inner_Leaf"} {
		if _, ok := out[n]; !ok {
			t.Fatalf("%s is not emitted: %v", n, out)
		}
	}
}
"""),
    dict(
        id="C24-oneof-position", property="C24", pkg="internal/generator",
        needs="a message with two oneofs whose members are interleaved with other fields",
        breaks="only the first oneof of a message is emitted as a struct field",
        edits=[(GM, "		if oneof.Fields[0] != field {\n", "		if oneof != m.Oneofs[0] || oneof.Fields[0] != field {\n"),
               (GM, "		// Getter for parent oneof.\n		if oneof := field.Oneof; oneof != nil && oneof.Fields[0] == field &&", "		// Getter for parent oneof.\n		if oneof := field.Oneof; oneof != nil && oneof == m.Oneofs[0] && oneof.Fields[0] == field &&")],
        demo=GEN + """
func TestDemo(t *testing.T) {
	m := msg("M", field("a", 1, tInt32), field("b", 2, tString), field("c", 3, tInt32), field("d", 4, tSint64))
	for i, o := range []int32{0, 0, 1, 1} {
		m.Field[i].OneofIndex = proto.Int32(o)
	}
	m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("first")}, {Name: proto.String("second")}}
	fs := generate(t, &descriptorpb.FileDescriptorProto{Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}})["M"]
	pick(t, fs, "First")
	pick(t, fs, "Second")
}
"""),
    dict(
        id="C24-map-tag-memo", property="C24", pkg="internal/generator",
        needs="two map fields in one file whose keys have the same kind and whose values differ",
        breaks="the entry tags of a map field are remembered by the key's kind, so a second map with the same key kind gets the first one's value tag",
        edits=[(GM, "		val := field.Message.Fields[1]\n		tags = append(tags, structTags{\n			{\"protobuf_key\", fieldProtobufTagValue(key)},\n			{\"protobuf_val\", fieldProtobufTagValue(val)},\n		}...)\n",
                """		val := field.Message.Fields[1]
		entry, ok := f.entryTags[key.Desc.Kind()]
		if !ok {
			entry = structTags{
				{"protobuf_key", fieldProtobufTagValue(key)},
				{"protobuf_val", fieldProtobufTagValue(val)},
			}
			f.entryTags[key.Desc.Kind()] = entry
		}
		tags = append(tags, entry...)
"""),
               (GI, "	comparable bool\n}\n", "	comparable bool\n\n	entryTags map[protoreflect.Kind]structTags\n}\n"),
               (GI, "	f := &fileInfo{File: file}\n", "	f := &fileInfo{File: file, entryTags: make(map[protoreflect.Kind]structTags)}\n"),
               (GI, "	\"google.golang.org/protobuf/encoding/protowire\"\n", "	\"google.golang.org/protobuf/encoding/protowire\"\n	\"google.golang.org/protobuf/reflect/protoreflect\"\n")],
        demo=GEN.replace('"strconv"\n', '"strconv"\n\t"strings"\n') + """
func TestDemo(t *testing.T) {
	m := msg("M")
	mapField(m, "a", "AEntry", 3, tString, tInt32)
	mapField(m, "b", "BEntry", 4, tString, tSint64)
	fs := generate(t, &descriptorpb.FileDescriptorProto{Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}})["M"]
	if f := pick(t, fs, "A"); f.tag.Get("protobuf_val") != "varint,2,opt" {
		t.Fatal(f)
	}
	if f := pick(t, fs, "B"); f.tag.Get("protobuf_val") != "zigzag64,2,opt" {
		t.Fatal(f)
	}
}
"""),
    dict(
        id="C23-iterator-word", property="C23",
        needs="a garbage collection while a map field is being iterated",
        breaks="the word that holds the runtime's iterator is declared as an integer, so the collector can free the iterator during the iteration",
        edits=[(RM, "	h           unsafe.Pointer\n", "	h           uintptr\n"),
               (RM, "	if it.h != nil {\n", "	if it.h != 0 {\n")],
        script="""#!/bin/bash
# The demonstration runs with freed memory overwritten, so that a use after free shows.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=/root PATH=/usr/local/go/bin:$PATH
printf '{"Replace":{"%s/proto/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -c -o "$T/demo.test" ./proto || exit 1
cd "$T" && GODEBUG=clobberfree=1 ./demo.test -test.run '^TestDemo$' -test.timeout 200s
""",
        files={"demo_test.go.txt": H("runtime", "runtime/debug") + """
type demoMsg struct {
	M map[int32]*demoMsg `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	S string             `protobuf:"bytes,2,opt"`
}

func TestDemo(t *testing.T) {
	debug.SetGCPercent(1)
	m := &demoMsg{M: map[int32]*demoMsg{}}
	for i := int32(0); i < 3000; i++ {
		m.M[i] = &demoMsg{S: "abc"}
	}
	want := proto.Size(m)
	stop := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			var keep [][]byte
			for {
				select {
				case <-stop:
					return
				default:
				}
				keep = append(keep[:len(keep)%64], make([]byte, 96))
				runtime.GC()
			}
		}()
	}
	for i := 0; i < 1500; i++ {
		b, err := proto.Marshal(m)
		if err != nil || len(b) != want {
			t.Fatalf("%d bytes, want %d, %v", len(b), want, err)
		}
	}
	close(stop)
}
"""}),
    dict(
        id="C23-untyped-grow", property="C23",
        needs="a repeated field of messages that grows, and a garbage collection while only the grown array refers to its elements",
        breaks="arrays of 8-byte elements are allocated and copied as integers, so the collector does not see the message pointers in them",
        edits=[(SL, "	p := pointer(t)\n	d := MakeSlice(p, s.Len(), cap)\n",
                "	if t.Size() == 8 { // no need to clear or scan word-sized elements\n		t = wordType\n	}\n	p := pointer(t)\n	d := MakeSlice(p, s.Len(), cap)\n"),
               (SL, "	elemSize := alignedSize(elemType)\n	elemZero", "	elemSize := align(uintptr(elemType.Align()), elemType.Size())\n	elemZero"),
               (SL, "var sliceMap sync.Map // map[*codec]*codec for slice\n", "var sliceMap sync.Map // map[*codec]*codec for slice\n\nvar wordType = reflect.TypeOf(uint64(0))\n")],
        demo=H("runtime", "fmt") + """
type demoInner struct {
	S string `protobuf:"bytes,1,opt"`
}
type demoMsg struct {
	L []*demoInner `protobuf:"bytes,1,rep"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	for i := 0; i < 500; i++ {
		m.L = append(m.L, &demoInner{fmt.Sprintf("string number %d", i)})
	}
	b, err := proto.Marshal(&m)
	if err != nil {
		t.Fatal(err)
	}
	for round := 0; round < 50; round++ {
		var got demoMsg
		if err := proto.Unmarshal(b, &got); err != nil {
			t.Fatal(err)
		}
		runtime.GC()
		var junk [][]byte
		for i := 0; i < 2000; i++ {
			x := make([]byte, 16)
			y := make([]byte, 24)
			for j := range x {
				x[j] = 0x11
			}
			junk = append(junk, x, y)
			_ = &demoInner{"junk"}
		}
		runtime.GC()
		var strs []*demoInner
		for i := 0; i < 5000; i++ {
			strs = append(strs, &demoInner{"other"})
		}
		for i, e := range got.L {
			if e.S != fmt.Sprintf("string number %d", i) {
				t.Fatalf("element %d is %q", i, e.S)
			}
		}
		runtime.KeepAlive(junk)
		runtime.KeepAlive(strs)
	}
}
"""),
]

# demonstrations that build and run the generated code
GENRUN = r'''
package generator

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// sources generates every file; packages are example.com/<name>.
func sources(t *testing.T, fds ...*descriptorpb.FileDescriptorProto) map[string]string {
	req := &pluginpb.CodeGeneratorRequest{ProtoFile: fds}
	for _, fd := range fds {
		name := strings.TrimSuffix(fd.GetName(), ".proto")
		if fd.Package == nil {
			fd.Package = proto.String(name)
		}
		if fd.Options == nil {
			fd.Options = &descriptorpb.FileOptions{}
		}
		fd.Options.GoPackage = proto.String("example.com/" + name + ";" + name)
		req.FileToGenerate = append(req.FileToGenerate, fd.GetName())
	}
	gen, err := protogen.Options{}.New(req)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string]string{}
	for _, f := range gen.Files {
		src, err := GenerateFile(gen, f).Content()
		if err != nil {
			t.Fatal(err)
		}
		out[strings.TrimSuffix(f.Desc.Path(), ".proto")] = string(src)
	}
	return out
}

// build compiles the generated packages with a main program and runs it.
func build(t *testing.T, srcs map[string]string, main string) (string, error) {
	root, _ := filepath.Abs("../..")
	dir := t.TempDir()
	write := func(name, text string) {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	for n, s := range srcs {
		write(n+"/"+n+".pb.go", s)
	}
	mod, _ := os.ReadFile(root + "/go.mod")
	sum, _ := os.ReadFile(root + "/go.sum")
	write("go.mod", strings.Replace(string(mod), "module github.com/RomiChan/protobuf", "module example.com", 1)+"\nrequire github.com/RomiChan/protobuf v0.0.0\nreplace github.com/RomiChan/protobuf => "+root+"\n")
	write("go.sum", string(sum))
	write("main.go", main)
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func mustRun(t *testing.T, srcs map[string]string, main string) {
	out, err := build(t, srcs, main)
	if err != nil || strings.TrimSpace(out) != "ok" {
		t.Fatalf("%v\n%s", err, out)
	}
}

func field(name string, num int32, typ descriptorpb.FieldDescriptorProto_Type, typeName string) *descriptorpb.FieldDescriptorProto {
	f := &descriptorpb.FieldDescriptorProto{Name: &name, Number: &num, Type: &typ, Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
	if typeName != "" {
		f.TypeName = &typeName
	}
	return f
}

func member(f *descriptorpb.FieldDescriptorProto, oneof int32) *descriptorpb.FieldDescriptorProto {
	f.OneofIndex = &oneof
	return f
}

func msg(name string, fields ...*descriptorpb.FieldDescriptorProto) *descriptorpb.DescriptorProto {
	return &descriptorpb.DescriptorProto{Name: &name, Field: fields}
}

// enum has values in the order given: name, number, ...
func enum(name string, kv ...interface{}) *descriptorpb.EnumDescriptorProto {
	e := &descriptorpb.EnumDescriptorProto{Name: &name}
	for i := 0; i < len(kv); i += 2 {
		e.Value = append(e.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(kv[i].(string)), Number: proto.Int32(int32(kv[i+1].(int)))})
	}
	return e
}

const (
	tInt32   = descriptorpb.FieldDescriptorProto_TYPE_INT32
	tString  = descriptorpb.FieldDescriptorProto_TYPE_STRING
	tBytes   = descriptorpb.FieldDescriptorProto_TYPE_BYTES
	tMessage = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
	tEnum    = descriptorpb.FieldDescriptorProto_TYPE_ENUM
)
'''

SEEDS += [
    dict(
        id="C28-default-memo", property="C28", pkg="internal/generator",
        needs="two oneof members in one file whose enums have the same Go name, one of them imported, with different first values",
        breaks="the default of an enum is remembered by the enum's Go name without its package, so the getter of the second member returns the first enum's first value",
        edits=[(GM, """	case protoreflect.EnumKind:
		val := field.Enum.Values[0]
		if val.GoIdent.GoImportPath == f.GoImportPath {
			return g.QualifiedGoIdent(val.GoIdent)
		} else {
			// If the enum value is declared in a different Go package,
			// reference it by number since the name may not be correct.
			// See https://github.com/golang/protobuf/issues/513.
			return g.QualifiedGoIdent(field.Enum.GoIdent) + "(" + strconv.FormatInt(int64(val.Desc.Number()), 10) + ")"
		}
""", """	case protoreflect.EnumKind:
		def, ok := f.enumDefaults[field.Enum.GoIdent.GoName]
		if !ok {
			val := field.Enum.Values[0]
			if val.GoIdent.GoImportPath == f.GoImportPath {
				def = g.QualifiedGoIdent(val.GoIdent)
			} else {
				// If the enum value is declared in a different Go package,
				// reference it by number since the name may not be correct.
				// See https://github.com/golang/protobuf/issues/513.
				def = g.QualifiedGoIdent(field.Enum.GoIdent) + "(" + strconv.FormatInt(int64(val.Desc.Number()), 10) + ")"
			}
			f.enumDefaults[field.Enum.GoIdent.GoName] = def
		}
		return def
"""),
               (GI, "	comparable bool\n}\n", "	comparable bool\n\n	enumDefaults map[string]string\n}\n"),
               (GI, "	f := &fileInfo{File: file}\n", "	f := &fileInfo{File: file, enumDefaults: make(map[string]string)}\n")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	other := &descriptorpb.FileDescriptorProto{Name: proto.String("other.proto"), EnumType: []*descriptorpb.EnumDescriptorProto{enum("Kind", "X", 7, "Y", 8)}}
	m := msg("M", member(field("a", 1, tEnum, ".demo.Kind"), 0), member(field("b", 2, tEnum, ".other.Kind"), 0))
	m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("pick")}}
	demo := &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Dependency: []string{"other.proto"}, EnumType: []*descriptorpb.EnumDescriptorProto{enum("Kind", "P", 3, "Q", 4)}, MessageType: []*descriptorpb.DescriptorProto{m}}
	mustRun(t, sources(t, other, demo), `package main

import "example.com/demo"

func main() {
	m := &demo.M{}
	if m.GetA() != 3 || m.GetB() != 7 {
		println("defaults", m.GetA(), m.GetB())
		return
	}
	println("ok")
}
`)
}
"""),
    dict(
        id="C28-single-nil", property="C28", pkg="internal/generator",
        needs="a oneof with a single member whose getter is called on a nil message",
        breaks="the getter of the only member of a oneof reads the oneof's field directly and crashes on a nil message",
        edits=[(GM, """			g.P("if x, ok := x.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok {")
""", """			get := "Get" + field.Oneof.GoName + "()"
			if len(field.Oneof.Fields) == 1 {
				get = field.Oneof.GoName // nothing else to look for
			}
			g.P("if x, ok := x.", get, ".(*", field.GoIdent, "); ok {")
""")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	m := msg("M", member(field("a", 1, tInt32, ""), 0), member(field("b", 2, tString, ""), 1), member(field("c", 3, tBytes, ""), 1))
	m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("one")}, {Name: proto.String("two")}}
	demo := &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}}
	mustRun(t, sources(t, demo), `package main

import "example.com/demo"

func main() {
	var m *demo.M
	if m.GetA() != 0 || m.GetB() != "" || m.GetC() != nil {
		println("values of a nil message")
		return
	}
	m = &demo.M{One: &demo.M_A{A: 3}, Two: &demo.M_C{C: []byte{1}}}
	if m.GetA() != 3 || m.GetB() != "" || len(m.GetC()) != 1 {
		println("values of a message")
		return
	}
	println("ok")
}
`)
}
"""),
    dict(
        id="C29-nested-alias", property="C29", pkg="internal/generator",
        needs="an enum with two names for one number that are not next to each other, or a number that repeats an earlier one's position",
        breaks="a value is emitted relative to the one before it when the numbers are consecutive, but the base is that of the last change, so an alias in the run shifts what follows",
        edits=[(GM, """	for _, value := range e.Values {
		g.Annotate(value.GoIdent.GoName, value.Location)
""", """	base, start := int64(0), 0
	for i, value := range e.Values {
		if n := int64(value.Desc.Number()); i == 0 || n < base {
			base, start = n, i
		}
		g.Annotate(value.GoIdent.GoName, value.Location)
"""), (GM, """			value.GoIdent, " ", e.GoIdent, " = ", value.Desc.Number(),
""", """			value.GoIdent, " ", e.GoIdent, " = ", enumNumber(value, base, i-start),
"""), (GM, "func genMessage(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo) {\n	if", """// enumNumber is the number of the value that comes i places after the one
// numbered base.
func enumNumber(value *protogen.EnumValue, base int64, i int) int64 {
	n := int64(value.Desc.Number())
	if d := n - base; d > 0 && d < int64(i) {
		return base + int64(i) // in the same run
	}
	return n
}

func genMessage(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo) {
	if""")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	e := enum("Kind", "A", 0, "B", 1, "C", 1, "D", 2, "E", -4)
	e.Options = &descriptorpb.EnumOptions{AllowAlias: proto.Bool(true)}
	demo := &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Syntax: proto.String("proto3"), EnumType: []*descriptorpb.EnumDescriptorProto{e}}
	mustRun(t, sources(t, demo), `package main

import "example.com/demo"

func main() {
	if demo.Kind_A != 0 || demo.Kind_B != 1 || demo.Kind_C != 1 || demo.Kind_D != 2 || demo.Kind_E != -4 {
		println(demo.Kind_A, demo.Kind_B, demo.Kind_C, demo.Kind_D, demo.Kind_E)
		return
	}
	println("ok")
}
`)
}
"""),
    dict(
        id="C30-marker-once", property="C30", pkg="internal/generator",
        needs="a message without slices or maps that comes after one that has them",
        breaks="the note that a message would be comparable is not renewed per message, so after the first message with a slice the marker field is never emitted again",
        edits=[(GM, "	f.comparable = true\n	for", "	for"),
               (GI, "	f := &fileInfo{File: file}\n", "	f := &fileInfo{File: file, comparable: true}\n")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	demo := &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{
		msg("A", field("x", 1, tInt32, "")), msg("B", field("x", 1, tBytes, "")), msg("C", field("x", 1, tString, ""), field("n", 2, tMessage, ".demo.A"))}}
	srcs := sources(t, demo)
	for _, n := range []string{"A", "B", "C"} {
		out, err := build(t, srcs, "package main\\n\\nimport \\"example.com/demo\\"\\n\\nfunc main() { println((demo."+n+"{}) == (demo."+n+"{})) }\\n")
		if err == nil {
			t.Fatalf("messages of type %s can be compared: %s", n, out)
		}
		if !strings.Contains(out, "invalid operation") {
			t.Fatal(out)
		}
	}
	mustRun(t, srcs, "package main\\n\\nimport \\"example.com/demo\\"\\n\\nfunc main() { _ = demo.A{}; println(\\"ok\\") }\\n")
}
"""),
    dict(
        id="C31-package-once", property="C31",
        needs="a request for two files of the same Go package",
        breaks="the plugin remembers the Go packages it has generated and skips the second file of a package",
        edits=[("cmd/protoc-gen-golite/main.go", """		for _, f := range gen.Files {
			if f.Generate {
				gengo.GenerateFile(gen, f)
			}
		}
""", """		done := make(map[protogen.GoImportPath]bool)
		for _, f := range gen.Files {
			if f.Generate && !done[f.GoImportPath] {
				gengo.GenerateFile(gen, f)
				done[f.GoImportPath] = true
			}
		}
""")],
        script="""#!/bin/bash
# Runs the plugin on a request and looks at the files it answers with.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=/root PATH=/usr/local/go/bin:$PATH
printf '{"Replace":{"%s/cmd/protoc-gen-golite/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
go build -o "$T/plugin" ./cmd/protoc-gen-golite || exit 1
DEMO_PLUGIN="$T/plugin" go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' ./cmd/protoc-gen-golite
""",
        files={"demo_test.go.txt": """package main

import (
	"bytes"
	"os"
	"os/exec"
	"sort"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func TestDemo(t *testing.T) {
	file := func(name, pkg string) *descriptorpb.FileDescriptorProto {
		return &descriptorpb.FileDescriptorProto{Name: proto.String(name + ".proto"), Package: proto.String(name), Syntax: proto.String("proto3"),
			Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/" + pkg + ";" + pkg)}, MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("M" + name)}}}
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"a.proto", "b.proto", "d.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{file("a", "x"), file("b", "x"), file("c", "y"), file("d", "y")}}
	in, err := proto.Marshal(req)
	if err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command(os.Getenv("DEMO_PLUGIN"))
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		t.Fatal(err)
	}
	var res pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(out, &res); err != nil {
		t.Fatal(err)
	}
	var names []string
	for _, f := range res.File {
		names = append(names, f.GetName())
	}
	sort.Strings(names)
	if got := strings.Join(names, " "); got != "example.com/x/a.pb.go example.com/x/b.pb.go example.com/y/d.pb.go" {
		t.Fatal(got, res.GetError())
	}
}
"""}),
    dict(
        id="C32-deprecation-paragraph", property="C32", pkg="internal/generator",
        needs="a deprecated schema element whose leading comment has several lines",
        breaks="the deprecation notice is joined to the last paragraph of a comment of several lines, where no tool recognises it",
        edits=[(GM, "	if protoreflectix != \"\" {\n", "	if protoreflectix != \"\" && strings.Count(string(protoreflectix), \"\\n\") == 1 {\n")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	for _, c := range []string{"", " one line\\n", " one line\\n and another\\n"} {
		m := msg("M", field("x", 1, tInt32, ""))
		m.Field[0].Options = &descriptorpb.FieldOptions{Deprecated: proto.Bool(true)}
		demo := &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m},
			SourceCodeInfo: &descriptorpb.SourceCodeInfo{Location: []*descriptorpb.SourceCodeInfo_Location{{Path: []int32{4, 0, 2, 0}, Span: []int32{1, 0, 1}, LeadingComments: &c}}}}
		lines := strings.Split(sources(t, demo)["demo"], "\\n")
		ok := false
		for i, l := range lines {
			if strings.HasPrefix(strings.TrimSpace(l), "// Deprecated:") {
				before := strings.TrimSpace(lines[i-1])
				ok = before == "//" || !strings.HasPrefix(before, "//")
			}
		}
		if !ok {
			t.Fatalf("no paragraph of its own:\\n%s", strings.Join(lines, "\\n"))
		}
	}
}
"""),
    dict(
        id="C33-negative-constant", property="C33", pkg="internal/generator",
        needs="a public import of a file with an enum value whose number is negative",
        breaks="constants that are not plain literals are not forwarded by a public import, which drops negative enum values",
        edits=[(GM, "		if _, ok := expr.(*ast.SelectorExpr); ok {\n			return\n		}\n", "		switch expr.(type) {\n		case *ast.SelectorExpr, *ast.UnaryExpr, *ast.BinaryExpr:\n			return\n		}\n")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	other := &descriptorpb.FileDescriptorProto{Name: proto.String("other.proto"), EnumType: []*descriptorpb.EnumDescriptorProto{enum("Kind", "X", 0, "Y", -8)}, MessageType: []*descriptorpb.DescriptorProto{msg("O")}}
	demo := &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Dependency: []string{"other.proto"}, PublicDependency: []int32{0}, MessageType: []*descriptorpb.DescriptorProto{msg("M")}}
	mustRun(t, sources(t, other, demo), `package main

import "example.com/demo"

func main() {
	_ = demo.O{}
	if demo.Kind_X != 0 || demo.Kind_Y != -8 {
		println("numbers", demo.Kind_X, demo.Kind_Y)
		return
	}
	println("ok")
}
`)
}
"""),
    dict(
        id="C34-type-memo", property="C34", pkg="internal/generator",
        needs="two files of one run that use the same message type, from two Go packages",
        breaks="the Go name of a message type is remembered across the files of a run, so what is emitted for a file depends on which files were generated before it",
        edits=[(GM, "		goType = \"*\" + g.QualifiedGoIdent(field.Message.GoIdent)\n", "		goType = messageGoType(g, field.Message.GoIdent)\n"),
               (GM, "func genMessageMethods(", "// goTypes remembers the Go type used for each message.\nvar goTypes = make(map[protogen.GoIdent]string)\n\nfunc messageGoType(g *protogen.GeneratedFile, id protogen.GoIdent) string {\n	t, ok := goTypes[id]\n	if !ok {\n		t = \"*\" + g.QualifiedGoIdent(id)\n		goTypes[id] = t\n	}\n	return t\n}\n\nfunc genMessageMethods(")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	files := func() (base, user *descriptorpb.FileDescriptorProto) {
		base = &descriptorpb.FileDescriptorProto{Name: proto.String("base.proto"), MessageType: []*descriptorpb.DescriptorProto{msg("T", field("next", 1, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, ".base.T"))}}
		user = &descriptorpb.FileDescriptorProto{Name: proto.String("user.proto"), Dependency: []string{"base.proto"}, MessageType: []*descriptorpb.DescriptorProto{msg("M", field("t", 1, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, ".base.T"))}}
		return
	}
	base, user := files()
	srcs := sources(t, base, user)
	if strings.Contains(srcs["base"], "base.T") || !strings.Contains(srcs["user"], "*base.T") {
		t.Fatal(srcs["base"], srcs["user"])
	}
	mustRun(t, srcs, `package main

import (
	"example.com/base"
	"example.com/user"
)

func main() {
	_ = user.M{T: &base.T{}}
	println("ok")
}
`)
}
"""),
    dict(
        id="C34-oneof-order", property="C34", pkg="internal/generator",
        needs="a oneof with several members, generated more than once",
        breaks="the members listed in a oneof's comment are collected in a map, so their order changes from run to run",
        edits=[(GM, "		for _, field := range oneof.Fields {\n			ss = append(ss, \"\\t*\"+field.GoIdent.GoName+\"\\n\")\n		}\n", "		members := make(map[string]bool, len(oneof.Fields))\n		for _, field := range oneof.Fields {\n			members[field.GoIdent.GoName] = true\n		}\n		for name := range members {\n			ss = append(ss, \"\\t*\"+name+\"\\n\")\n		}\n")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 50; i++ {
		m := msg("M", member(field("a", 1, tInt32, ""), 0), member(field("b", 2, tInt32, ""), 0), member(field("c", 3, tInt32, ""), 0), member(field("d", 4, tInt32, ""), 0))
		m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("x")}}
		src := sources(t, &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}})["demo"]
		if i == 0 {
			first = src
		} else if src != first {
			t.Fatalf("two runs differ:\\n%s\\n%s", first, src)
		}
	}
}
"""),
    dict(
        id="C10-long-string-alias", property="C10",
        needs="a decoded string of at least 4096 bytes whose input buffer is written to afterwards",
        breaks="long strings are taken from the input buffer instead of being copied",
        edits=[(NC, "	*(*string)(p) = string(v)\n", "	if len(v) < 4096 {\n		*(*string)(p) = string(v)\n	} else {\n		*(*string)(p) = *(*string)(unsafe.Pointer(&v))\n	}\n")],
        demo=H("bytes") + """
type demoMsg struct {
	V string `protobuf:"bytes,1,opt"`
}

func TestDemo(t *testing.T) {
	b := append([]byte{10, 0x80, 0x20}, bytes.Repeat([]byte("a"), 4096)...)
	var m demoMsg
	if err := proto.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	b[100] = 'x'
	if m.V != string(bytes.Repeat([]byte("a"), 4096)) {
		t.Fatal("the string changed with the input")
	}
}
"""),
    dict(
        id="C09-mismatch-clears", property="C09",
        needs="a record of a declared field with another wire type, and a field that is not zero",
        breaks="the field is cleared before the wire type mismatch is reported",
        edits=[(ST, "		if wireType != f.wireType() {\n", "		if want := f.wireType(); wireType != want {\n			*(*byte)(f.pointer(p)) = 0\n")],
        demo=H() + """
type demoMsg struct {
	V int32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	m := demoMsg{V: 5}
	if err := proto.Unmarshal([]byte{13, 1, 2, 3, 4}, &m); err == nil || m.V != 5 {
		t.Fatal(err, m.V)
	}
}
"""),
    dict(
        id="C14-pointer-codec-memo", property="C14",
        needs="a pointer field to a scalar, then a field of the same Go type with another encoding in a message prepared together with it",
        breaks="the codec of a pointer field is remembered by its Go type although it also depends on the field's tag",
        edits=[(W, "	p.decode = pointerDecodeFuncOf(t, c)\n	return p", "	p.decode = pointerDecodeFuncOf(t, c)\n	w.codecs[t] = p\n	return w.codecs[t]")],
        demo=H("bytes") + """
type demoMsg struct {
	A *int32 `protobuf:"varint,1,opt"`
	B *int32 `protobuf:"zigzag32,2,opt"`
}

func TestDemo(t *testing.T) {
	a, b := int32(1), int32(1)
	out, err := proto.Marshal(&demoMsg{A: &a, B: &b})
	if err != nil || !bytes.Equal(out, []byte{8, 1, 16, 2}) {
		t.Fatal(err, out)
	}
}
"""),
    dict(
        id="C22-cap-shift", property="C22",
        needs="a repeated field of an element type of a certain size",
        breaks="the first growth of a slice allocates room for a number of elements that depends exponentially on the element's size",
        edits=[(SL, "	if cap == 0 {\n		cap = 10", "	if cap == 0 {\n		cap = 10 << (t.Size() & 31)")],
        demo=H() + """
type demoMsg struct {
	V [][]byte `protobuf:"bytes,1,rep"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	if err := proto.Unmarshal([]byte{10, 1, 'x'}, &m); err != nil {
		t.Fatal(err)
	}
	if cap(m.V) > 1000 {
		t.Fatalf("a message of three bytes allocates room for %d elements", cap(m.V))
	}
}
"""),
    dict(
        id="C20-embedded-unexported", property="C20",
        needs="an embedded field of an unexported type that carries a protobuf tag",
        breaks="unexported embedded fields are taken for fields of the message",
        edits=[(W, "if f.PkgPath != \"\" {", "if f.PkgPath != \"\" && !f.Anonymous {")],
        demo=H() + """
type demoName string

type demoMsg struct {
	demoName `protobuf:"bytes,1,opt"`
	V        bool `protobuf:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	out, err := proto.Marshal(&demoMsg{demoName: "private", V: true})
	if err != nil || len(out) != 2 {
		t.Fatal(err, out)
	}
}
"""),
    dict(
        id="C16-named-kinds", property="C16",
        needs="a repeated field of Go type []uintptr",
        breaks="repeated fields of uintptr, which have no schema type, are encoded as 64-bit varints instead of being refused",
        edits=[(W, "	case reflect.Uint64:\n		if conf.fixed {\n			return &fixed64RequiredCodec", "	case reflect.Uint64, reflect.Uintptr:\n		if conf.fixed {\n			return &fixed64RequiredCodec")],
        demo=H() + """
type demoMsg struct {
	V []uintptr `protobuf:"varint,1,rep"`
}

func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	proto.Marshal(&demoMsg{V: []uintptr{1}})
}
"""),
    dict(
        id="C07-unterminated-varint", property="C07",
        needs="an input that ends inside a varint of nine or more bytes",
        breaks="a varint cut off after its ninth byte is accepted with the bits read so far",
        edits=[("proto/decode.go", "	return x, len(b), io.ErrUnexpectedEOF", "	if s < 63 {\n		return x, len(b), io.ErrUnexpectedEOF\n	}\n	return x, len(b), nil")],
        demo=H() + """
type demoMsg struct {
	V uint64 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	var m demoMsg
	if err := proto.Unmarshal([]byte{8, 0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80}, &m); err == nil {
		t.Fatal("accepted", m.V)
	}
}
"""),
    dict(
        id="C11-spare-capacity", property="C11",
        needs="a bytes field that is a prefix of a larger array with more than eight bytes after it",
        breaks="Marshal terminates bytes values in place and so writes behind the field, into memory of the caller",
        edits=[(RC, "	b = appendVarint(b, uint64(len(v)))\n	b = append(b, v...)\n	return b\n}\n\nvar stringRequiredCodec", "	b = appendVarint(b, uint64(len(v)))\n	if cap(v)-len(v) > 8 {\n		b = append(b, append(v, 0)[:len(v)]...)\n	} else {\n		b = append(b, v...)\n	}\n	return b\n}\n\nvar stringRequiredCodec")],
        demo=H() + """
type demoMsg struct {
	V [][]byte `protobuf:"bytes,1,rep"`
}

func TestDemo(t *testing.T) {
	line := []byte("key=value and more")
	if _, err := proto.Marshal(&demoMsg{V: [][]byte{line[:3]}}); err != nil {
		t.Fatal(err)
	}
	if string(line) != "key=value and more" {
		t.Fatalf("%q", line)
	}
}
"""),
    dict(
        id="C05-shared-pointer", property="C05",
        needs="two decoded messages with the same pointer field, of which the second one is decoded after the first",
        breaks="all messages share one variable behind a pointer field, so decoding a message changes those decoded earlier",
        edits=[(W, "		if *v == nil {\n			*v = unsafe.Pointer(reflect.New(t).Pointer())\n		}\n		return c.decode(b, *v)", "		if *v == nil {\n			*v = zero\n		}\n		return c.decode(b, *v)"),
               (W, "	t = t.Elem()\n	return func(b []byte, p unsafe.Pointer) (int, error) {", "	t = t.Elem()\n	zero := unsafe.Pointer(reflect.New(t).Pointer())\n	return func(b []byte, p unsafe.Pointer) (int, error) {")],
        demo=H() + """
type demoMsg struct {
	V *uint32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	var a, b demoMsg
	if err := proto.Unmarshal([]byte{8, 1}, &a); err != nil {
		t.Fatal(err)
	}
	if err := proto.Unmarshal([]byte{8, 2}, &b); err != nil {
		t.Fatal(err)
	}
	if *a.V != 1 || *b.V != 2 {
		t.Fatal(*a.V, *b.V)
	}
}
"""),
    dict(
        id="C14-namesake", property="C14",
        needs="two message types with the same package and type name, such as types declared inside functions",
        breaks="the codecs of message types are shared under the type's printed name, so namesakes get each other's fields",
        edits=[(W, "	if c, ok := codecCache.Load(pointer(t)); ok {\n", "	if c, ok := codecCache.Load(t.String()); ok {\n"),
               (W, "codecCache.LoadOrStore(pointer(t), c)", "codecCache.LoadOrStore(t.String(), c)")],
        demo=H() + """
func first() ([]byte, error) {
	type inner struct {
		A string `protobuf:"bytes,1,opt"`
	}
	type outer struct {
		I *inner `protobuf:"bytes,1,opt"`
	}
	return proto.Marshal(&outer{I: &inner{A: "x"}})
}

func second() ([]byte, error) {
	type inner struct {
		N uint64 `protobuf:"varint,2,opt"`
	}
	type outer struct {
		I *inner `protobuf:"bytes,1,opt"`
	}
	return proto.Marshal(&outer{I: &inner{}})
}

func TestDemo(t *testing.T) {
	a, err := first()
	if err != nil || string(a) != "\\n\\x03\\n\\x01x" {
		t.Fatalf("%q %v", a, err)
	}
	b, err := second()
	if err != nil || string(b) != "\\n\\x00" {
		t.Fatalf("%q %v", b, err)
	}
}
"""),
    dict(
        id="C24-map-same-kind", property="C24", pkg="internal/generator",
        needs="a map field whose key and value have the same kind",
        breaks="the value of such a map gets the tag of its key, so it is declared under the key's name and number",
        edits=[(GM, """			{"protobuf_key", fieldProtobufTagValue(key)},
			{"protobuf_val", fieldProtobufTagValue(val)},
""", """			{"protobuf_key", fieldProtobufTagValue(key)},
			{"protobuf_val", mapValueTag(key, val)},
"""),
               (GM, "func genMessageMethods(", """// mapValueTag returns the tag of a map's value.
func mapValueTag(key, val *protogen.Field) string {
	if key.Desc.Kind() == val.Desc.Kind() {
		return fieldProtobufTagValue(key)
	}
	return fieldProtobufTagValue(val)
}

func genMessageMethods(""")],
        demo=GEN.replace('"strconv"\n', '"strconv"\n\t"strings"\n') + """
func TestDemo(t *testing.T) {
	m := msg("M")
	mapField(m, "a", "AEntry", 1, tInt32, tSint64)
	mapField(m, "b", "BEntry", 2, tString, tString)
	got := generate(t, &descriptorpb.FileDescriptorProto{Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}})["M"]
	for _, n := range []string{"A", "B"} {
		f := pick(t, got, n)
		if k, v := f.tag.Get("protobuf_key"), f.tag.Get("protobuf_val"); !strings.Contains(k, ",1,") || !strings.Contains(v, ",2,") {
			t.Fatal(n, k, v)
		}
	}
}
"""),
    dict(
        id="C31-messages-only", property="C31",
        needs="a requested file that declares enums and no message",
        breaks="the plugin only writes files that declare messages or services, so the enums of a file of enums are generated nowhere",
        edits=[("cmd/protoc-gen-golite/main.go", "			if f.Generate {\n", "			if f.Generate && len(f.Messages)+len(f.Services) > 0 {\n")],
        script="""#!/bin/bash
# Runs the plugin on a request and looks at the files it answers with.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=/root PATH=/usr/local/go/bin:$PATH
printf '{"Replace":{"%s/cmd/protoc-gen-golite/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
go build -o "$T/plugin" ./cmd/protoc-gen-golite || exit 1
DEMO_PLUGIN="$T/plugin" go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' ./cmd/protoc-gen-golite
""",
        files={"demo_test.go.txt": """package main

import (
	"bytes"
	"os"
	"os/exec"
	"sort"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func TestDemo(t *testing.T) {
	file := func(name, pkg string) *descriptorpb.FileDescriptorProto {
		fd := &descriptorpb.FileDescriptorProto{Name: proto.String(name + ".proto"), Package: proto.String(name), Syntax: proto.String("proto3"),
			Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/" + pkg + ";" + pkg)}}
		if name == "b" {
			fd.EnumType = []*descriptorpb.EnumDescriptorProto{{Name: proto.String("Kind"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("X"), Number: proto.Int32(0)}}}}
		} else {
			fd.MessageType = []*descriptorpb.DescriptorProto{{Name: proto.String("M" + name)}}
		}
		return fd
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"a.proto", "b.proto", "d.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{file("a", "x"), file("b", "x"), file("c", "y"), file("d", "y")}}
	in, err := proto.Marshal(req)
	if err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command(os.Getenv("DEMO_PLUGIN"))
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		t.Fatal(err)
	}
	var res pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(out, &res); err != nil {
		t.Fatal(err)
	}
	var names []string
	for _, f := range res.File {
		names = append(names, f.GetName())
	}
	sort.Strings(names)
	if got := strings.Join(names, " "); got != "example.com/x/a.pb.go example.com/x/b.pb.go example.com/y/d.pb.go" {
		t.Fatal(got, res.GetError())
	}
}
"""}),
    dict(
        id="C30-foreign-message", property="C30", pkg="internal/generator",
        needs="a message with a field of a message type of another Go package, and nothing else that cannot be compared",
        breaks="message fields from another Go package are taken not to be comparable, so the marker field is left out",
        edits=[(GM, "		goType = \"*\" + g.QualifiedGoIdent(field.Message.GoIdent)\n", "		goType = \"*\" + g.QualifiedGoIdent(field.Message.GoIdent)\n		comparable = field.Message.GoIdent.GoImportPath == f.GoImportPath\n"),
               (GM, "		pointer = false // pointer captured as part of the type\n", "		pointer = false\n")],
        demo=GENRUN + """
func TestDemo(t *testing.T) {
	base := &descriptorpb.FileDescriptorProto{Name: proto.String("base.proto"), Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{msg("A", field("x", 1, tInt32, ""))}}
	demo := &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Syntax: proto.String("proto3"), Dependency: []string{"base.proto"}, MessageType: []*descriptorpb.DescriptorProto{msg("B", field("x", 1, tMessage, ".base.A"))}}
	srcs := sources(t, base, demo)
	for _, n := range []string{"base.A", "demo.B"} {
		out, err := build(t, srcs, `package main

import (
	"example.com/base"
	"example.com/demo"
)

var _ demo.B
var _ base.A

func main() { println((`+n+`{}) == (`+n+`{})) }
`)
		if err == nil {
			t.Fatalf("messages of type %s can be compared: %s", n, out)
		}
		if !strings.Contains(out, "invalid operation") {
			t.Fatal(out)
		}
	}
}
"""),
]
