@r('dv_index_loop')
def _():
    sub('proto/decode.go',('for i, c := range b {','for i := 0; i < len(b); i++ {\n\t\tc := b[i]'))
@r('dv_early_overflow')
def _():
    sub('proto/decode.go',('''	for i, c := range b {
		if c < 0x80 {
			if i > 9 || i == 9 && c > 1 {
				return 0, i, errVarintOverflow
			}
			return''','''	for i, c := range b {
		if i == 10 {
			return 0, i, errVarintOverflow
		}
		if c < 0x80 {
			if i == 9 && c > 1 {
				return 0, i, errVarintOverflow
			}
			return'''))
@r('dv_uvarint')
def _():
    func('proto/decode.go','decodeVarint','''
func decodeVarint(b []byte) (uint64, int, error) {
	if len(b) != 0 && b[0] < 0x80 {
		return uint64(b[0]), 1, nil
	}
	x, n := binary.Uvarint(b)
	switch {
	case n > 0:
		return x, n, nil
	case n == 0:
		return 0, len(b), io.ErrUnexpectedEOF
	default:
		return 0, -n, errVarintOverflow
	}
}''')
@r('dv_nofast_shift')
def _():
    func('proto/decode.go','decodeVarint','''
func decodeVarint(b []byte) (x uint64, n int, err error) {
	for shift := uint(0); shift < 64; shift += 7 {
		if n >= len(b) {
			return 0, n, io.ErrUnexpectedEOF
		}
		c := b[n]
		n++
		if shift == 63 && c > 1 {
			if c < 0x80 || len(b) > n {
				return 0, n, errVarintOverflow
			}
			return 0, n, io.ErrUnexpectedEOF
		}
		x |= uint64(c&0x7f) << shift
		if c&0x80 == 0 {
			return x, n, nil
		}
	}
	return 0, n, errVarintOverflow
}''')
@r('dv_reslice')
def _():
    func('proto/decode.go','decodeVarint','''
func decodeVarint(b []byte) (uint64, int, error) {
	var x uint64
	n := 0
	for rest := b; len(rest) > 0; rest = rest[1:] {
		c := rest[0]
		n++
		if c < 0x80 {
			if n > 10 || n == 10 && c > 1 {
				return 0, n, errVarintOverflow
			}
			return x | uint64(c)<<uint(7*(n-1)), n, nil
		}
		x |= uint64(c&0x7f) << uint(7*(n-1))
	}
	return x, n, io.ErrUnexpectedEOF
}''')
@r('av_loop')
def _():
    func('proto/encode.go','appendVarint','''
func appendVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}''')
@r('av_std')
def _():
    func('proto/encode.go','appendVarint','''
func appendVarint(b []byte, v uint64) []byte {
	var tmp [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(tmp[:], v)
	return append(b, tmp[:n]...)
}''')
    imports('proto/encode.go','encoding/binary')
@r('av_fast_then_loop')
def _():
    func('proto/encode.go','appendVarint','''
func appendVarint(b []byte, v uint64) []byte {
	if v < 1<<7 {
		return append(b, byte(v))
	}
	if v < 1<<14 {
		return append(b, byte(v&0x7f|0x80), byte(v>>7))
	}
	for v > 0x7f {
		b = append(b, byte(v&0x7f)|0x80)
		v = v >> 7
	}
	b = append(b, byte(v))
	return b
}''')
@r('sv_loop')
def _():
    func('proto/size.go','sizeOfVarint','''
func sizeOfVarint(v uint64) int {
	n := 1
	for v >= 0x80 {
		v >>= 7
		n++
	}
	return n
}''')
    unimport('proto/size.go','math/bits')
@r('sv_bits')
def _():
    func('proto/size.go','sizeOfVarint','''
func sizeOfVarint(v uint64) int {
	return (bits.Len64(v|1) + 6) / 7
}''')
@r('sv_switch')
def _():
    func('proto/size.go','sizeOfVarint','''
func sizeOfVarint(v uint64) int {
	switch {
	case v < 1<<7:
		return 1
	case v < 1<<14:
		return 2
	case v < 1<<21:
		return 3
	case v < 1<<28:
		return 4
	case v < 1<<35:
		return 5
	case v < 1<<42:
		return 6
	case v < 1<<49:
		return 7
	case v < 1<<56:
		return 8
	case v < 1<<63:
		return 9
	}
	return 10
}''')
    unimport('proto/size.go','math/bits')
@r('le_binary')
def _():
    func('proto/encode.go','encodeLE32','''
func encodeLE32(b []byte, v uint32) []byte {
	return binary.LittleEndian.AppendUint32(b, v)
}''')
    func('proto/encode.go','encodeLE64','''
func encodeLE64(b []byte, v uint64) []byte {
	var buf [8]byte
	binary.LittleEndian.PutUint64(buf[:], v)
	return append(b, buf[:]...)
}''')
    imports('proto/encode.go','encoding/binary')
    p='/tmp/m/go.mod'
@r('le_halves')
def _():
    func('proto/encode.go','encodeLE64','''
func encodeLE64(b []byte, v uint64) []byte {
	b = encodeLE32(b, uint32(v))
	return encodeLE32(b, uint32(v>>32))
}''')
    func('proto/decode.go','decodeLE64','''
func decodeLE64(b []byte) (uint64, int, error) {
	if len(b) < 8 {
		return 0, 0, io.ErrUnexpectedEOF
	}
	lo := binary.LittleEndian.Uint32(b[:4])
	hi := binary.LittleEndian.Uint32(b[4:8])
	return uint64(hi)<<32 | uint64(lo), 8, nil
}''')
@r('le_manual_decode')
def _():
    func('proto/decode.go','decodeLE32','''
func decodeLE32(b []byte) (v uint32, n int, err error) {
	if len(b) < 4 {
		return 0, 0, io.ErrUnexpectedEOF
	}
	for i := 3; i >= 0; i-- {
		v = v<<8 | uint32(b[i])
	}
	return v, 4, nil
}''')
@r('zz_branch')
def _():
    func('proto/encode.go','encodeZigZag64','''
func encodeZigZag64(v int64) uint64 {
	if v < 0 {
		return ^(uint64(v) << 1)
	}
	return uint64(v) << 1
}''')
    func('proto/decode.go','decodeZigZag64','''
func decodeZigZag64(v uint64) int64 {
	x := int64(v >> 1)
	if v&1 != 0 {
		x = ^x
	}
	return x
}''')
@r('zz_arith')
def _():
    func('proto/decode.go','decodeZigZag64','''
func decodeZigZag64(v uint64) int64 {
	return int64((v >> 1) ^ uint64(-int64(v&1)))
}''')
@r('dec_skip_helper')
def _():
    sub('proto/struct.go',('''			skip := 0
			size := uint64(0)
			switch wireType {
			case varint:
				_, skip, err = decodeVarint(b[offset:])
			case varlen:
				size, skip, err = decodeVarint(b[offset:])
				if err == nil {
					if size > uint64(len(b)-skip) {
						err = io.ErrUnexpectedEOF
					} else {
						skip += int(size)
					}
				}
			case fixed32:
				skip = 4
			case fixed64:
				skip = 8
			default:
				err = ErrWireTypeUnknown
			}
			if''','''			skip, err := skipField(b[offset:], wireType)
			if'''))
    s=open('/tmp/m/proto/struct.go').read()
    s+='''
// skipField reports the extent of an unknown field's value.
func skipField(b []byte, wireType wireType) (int, error) {
	switch wireType {
	case varint:
		_, n, err := decodeVarint(b)
		return n, err
	case varlen:
		size, n, err := decodeVarint(b)
		if err != nil {
			return n, err
		}
		if size > uint64(len(b)-n) {
			return n, io.ErrUnexpectedEOF
		}
		return n + int(size), nil
	case fixed32:
		return 4, nil
	case fixed64:
		return 8, nil
	}
	return 0, ErrWireTypeUnknown
}
'''
    open('/tmp/m/proto/struct.go','w').write(s)
@r('dec_data_helper')
def _():
    p='/tmp/m/proto/struct.go';s=open(p).read()
    a=s.index('		// `data` will only contain'); e=s.index('		n, err = f.codec.decode(data')
    s=s[:a]+'''		data, end, err := fieldData(b, offset, wireType)
		if err != nil {
			return end, fieldError(fieldNumber, wireType, err)
		}

'''+s[e:]
    s+='''
// fieldData returns the section of the input buffer where the data of the
// field at offset is available.
func fieldData(b []byte, offset int, wireType wireType) ([]byte, int, error) {
	switch wireType {
	case varint:
		_, n, err := decodeVarint(b[offset:])
		if err != nil {
			return nil, offset, err
		}
		return b[offset : offset+n], offset + n, nil
	case varlen:
		l, n, err := decodeVarint(b[offset:])
		if err != nil {
			return nil, offset + n, err
		}
		offset2 := offset + n
		if l > uint64(len(b)-offset2) {
			return nil, len(b), io.ErrUnexpectedEOF
		}
		end := offset2 + int(l)
		return b[offset:end], end, nil
	case fixed32:
		if len(b)-offset < 4 {
			return nil, len(b), io.ErrUnexpectedEOF
		}
		return b[offset : offset+4], offset + 4, nil
	case fixed64:
		if len(b)-offset < 8 {
			return nil, len(b), io.ErrUnexpectedEOF
		}
		return b[offset : offset+8], offset + 8, nil
	}
	return nil, offset, ErrWireTypeUnknown
}
'''
    open(p,'w').write(s)
@r('dec_reslice')
def _():
    func('proto/struct.go','decode','''
func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
	total := len(b)
	for len(b) > 0 {
		number, wire, n, err := decodeTag(b)
		if err != nil {
			return total - len(b) + n, err
		}
		b = b[n:]

		var size int
		switch wire {
		case varint:
			_, size, err = decodeVarint(b)
		case varlen:
			var l uint64
			l, size, err = decodeVarint(b)
			if err == nil && l > uint64(len(b)-size) {
				err = io.ErrUnexpectedEOF
			}
			if err == nil {
				size += int(l)
			}
		case fixed32:
			size = 4
		case fixed64:
			size = 8
		}

		f := info.fieldIndex[number]
		if f == nil {
			if wire != varint && wire != varlen && wire != fixed32 && wire != fixed64 {
				return total - len(b), fieldError(number, wire, ErrWireTypeUnknown)
			}
			if err == nil && size > len(b) {
				err = io.ErrUnexpectedEOF
			}
			if err != nil {
				return total - len(b), fieldError(number, wire, err)
			}
			b = b[size:]
			continue
		}

		if wire != f.wireType() {
			return total - len(b), fieldError(number, wire, fmt.Errorf("expected wire type %d", f.wireType()))
		}
		if err == nil && size > len(b) {
			err = io.ErrUnexpectedEOF
		}
		if err != nil {
			return total - len(b), fieldError(number, wire, err)
		}

		if _, err = f.codec.decode(b[:size], f.pointer(p)); err != nil {
			return total - len(b), fieldError(number, wire, err)
		}
		b = b[size:]
	}
	return total, nil
}''')
@r('dec_if_chain')
def _():
    p='/tmp/m/proto/struct.go';s=open(p).read()
    a=s.index('		// `data` will only contain'); e=s.index('		n, err = f.codec.decode(data')
    s=s[:a]+'''		end := offset
		if wireType == varint {
			_, n, err := decodeVarint(b[offset:])
			if err != nil {
				return offset, fieldError(fieldNumber, wireType, err)
			}
			end += n
		} else if wireType == varlen {
			l, n, err := decodeVarint(b[offset:])
			if err != nil {
				return offset + n, fieldError(fieldNumber, wireType, err)
			}
			end += n
			if l > uint64(len(b)-end) {
				return len(b), fieldError(fieldNumber, wireType, io.ErrUnexpectedEOF)
			}
			end += int(l)
		} else if wireType == fixed32 || wireType == fixed64 {
			if wireType == fixed32 {
				end += 4
			} else {
				end += 8
			}
			if end > len(b) {
				return len(b), fieldError(fieldNumber, wireType, io.ErrUnexpectedEOF)
			}
		} else {
			return offset, fieldError(fieldNumber, wireType, ErrWireTypeUnknown)
		}
		data := b[offset:end:end]

'''+s[e:]
    open(p,'w').write(s)
@r('dec_ok_lookup')
def _():
    sub('proto/struct.go',('''		f := info.fieldIndex[fieldNumber]
		if f == nil {''','''		f, known := info.fieldIndex[fieldNumber]
		if !known {'''))
@r('dec_defer_wrap')
def _():
    sub('proto/struct.go',('''		n, err = f.codec.decode(data, f.pointer(p))
		offset += n
		if err != nil {
			return offset, fieldError(fieldNumber, wireType, err)
		}
	}
''','''		target := f.pointer(p)
		decode := f.codec.decode
		consumed, err := decode(data, target)
		if err != nil {
			err = fieldError(fieldNumber, wireType, err)
			return offset + consumed, err
		}
		offset = offset + consumed
	}
'''))
@r('dec_advance_by_data')
def _():
    sub('proto/struct.go',('''		n, err = f.codec.decode(data, f.pointer(p))
		offset += n
		if err != nil {
			return offset, fieldError(fieldNumber, wireType, err)
		}
''','''		_, err = f.codec.decode(data, f.pointer(p))
		offset += len(data)
		if err != nil {
			return offset, fieldError(fieldNumber, wireType, err)
		}
'''))
@r('ptr_unsafe_add')
def _():
    sub('proto/struct.go',('return unsafe.Pointer(uintptr(p) + f.offset)','return unsafe.Add(p, f.offset)'))
    sub('internal/runtime_reflect/slice.go',('return unsafe.Pointer(uintptr(s.data) + (uintptr(i) * elemSize))','return unsafe.Add(s.data, uintptr(i)*elemSize)'))
@r('struct_index_loops')
def _():
    sub('proto/struct.go',('''	n := 0
	for _, f := range info.fields {
		n += f.codec.size(f.pointer(p), f)
	}
	return n''','''	var total int
	for i := 0; i < len(info.fields); i++ {
		f := info.fields[i]
		total += f.codec.size(f.pointer(p), f)
	}
	return total'''),('''	if p == nil {
		return b
	}
	for _, f := range info.fields {
		b = f.codec.encode(b, f.pointer(p), f)
	}
	return b''','''	if p != nil {
		for i := range info.fields {
			field := info.fields[i]
			b = field.codec.encode(b, field.pointer(p), field)
		}
	}
	return b'''))
@r('slice_hoist')
def _():
    sub('proto/slice.go',('''		n := 0
		if v := (*Slice)(p); v != nil {
			for i := 0; i < v.Len(); i++ {
				elem := v.Index(i, elemSize)
				n += c.size(elem, sf)
			}
		}
		return n''','''		v := (*Slice)(p)
		if v == nil {
			return 0
		}
		n, l := 0, v.Len()
		for i := 0; i != l; i++ {
			n += c.size(v.Index(i, elemSize), sf)
		}
		return n'''),('''			for i := 0; i < s.Len(); i++ {
				elem := s.Index(i, elemSize)
				b = c.encode(b, elem, sf)
			}''','''			count := s.Len()
			for i := 0; i < count; i++ {
				b = c.encode(b, s.Index(i, elemSize), sf)
			}'''))
@r('slice_ptr_step')
def _():
    sub('proto/slice.go',('''			for i := 0; i < s.Len(); i++ {
				elem := s.Index(i, elemSize)
				b = c.encode(b, elem, sf)
			}''','''			off := uintptr(0)
			base := s.Index(0, elemSize)
			for i := s.Len(); i > 0; i-- {
				b = c.encode(b, unsafe.Pointer(uintptr(base)+off), sf)
				off += elemSize
			}'''))
@r('slice_each')
def _():
    sub('proto/slice.go',('''		n := 0
		if v := (*Slice)(p); v != nil {
			for i := 0; i < v.Len(); i++ {
				elem := v.Index(i, elemSize)
				n += c.size(elem, sf)
			}
		}
		return n''','''		n := 0
		forEach((*Slice)(p), elemSize, func(elem unsafe.Pointer) {
			n += c.size(elem, sf)
		})
		return n'''),('''		if s := (*Slice)(p); s != nil {
			for i := 0; i < s.Len(); i++ {
				elem := s.Index(i, elemSize)
				b = c.encode(b, elem, sf)
			}
		}
		return b''','''		forEach((*Slice)(p), elemSize, func(elem unsafe.Pointer) {
			b = c.encode(b, elem, sf)
		})
		return b'''),('''func alignedSize(''','''func forEach(s *Slice, elemSize uintptr, f func(unsafe.Pointer)) {
	if s == nil {
		return
	}
	for i, n := 0, s.Len(); i < n; i++ {
		f(s.Index(i, elemSize))
	}
}

func alignedSize('''))
@r('slice_grow_min')
def _():
    func('proto/slice.go','growSlice','''
func growSlice(t reflect.Type, s *Slice) Slice {
	newCap := s.Cap() * 2
	if newCap < 10 {
		newCap = 10
	}
	typ := pointer(t)
	grown := MakeSlice(typ, s.Len(), newCap)
	CopySlice(typ, grown, *s)
	return grown
}''')
@r('slice_decode_reorder')
def _():
    sub('proto/slice.go',('''		i := s.Len()

		if i == s.Cap() {
			*s = growSlice(elemType, s)
		}

		// spare capacity may hold an old element; do not merge into it
		elem := s.Index(i, elemSize)
		Assign(pointer(elemType), elem, elemZero)

		n, err := c.decode(b, elem)
		if err == nil {
			s.SetLen(i + 1)
		}
		return n, err''','''		if s.Len() >= s.Cap() {
			*s = growSlice(elemType, s)
		}
		n := s.Len()
		elem := s.Index(n, elemSize)
		Assign(elemPtrType, elem, elemZero)
		used, err := c.decode(b, elem)
		if err != nil {
			return used, err
		}
		s.SetLen(n + 1)
		return used, nil'''),('''	elemZero := unsafe''','''	elemPtrType := pointer(elemType)
	elemZero := unsafe'''))
@r('slice_fresh_elem')
def _():
    sub('proto/slice.go',('''		i := s.Len()

		if i == s.Cap() {
			*s = growSlice(elemType, s)
		}

		// spare capacity may hold an old element; do not merge into it
		elem := s.Index(i, elemSize)
		Assign(pointer(elemType), elem, elemZero)

		n, err := c.decode(b, elem)
		if err == nil {
			s.SetLen(i + 1)
		}
		return n, err''','''		// decode into fresh memory, then append it
		elem := unsafe.Pointer(reflect.New(elemType).Pointer())
		n, err := c.decode(b, elem)
		if err != nil {
			return n, err
		}
		i := s.Len()
		if i == s.Cap() {
			*s = growSlice(elemType, s)
		}
		Assign(pointer(elemType), s.Index(i, elemSize), elem)
		s.SetLen(i + 1)
		return n, nil'''),('''	elemZero := unsafe.Pointer(reflect.New(elemType).Pointer())
''',''))
@r('map_entry_size')
def _():
    sub('proto/map.go',('''			keySize := keyCodec.size(m.Key(), f.keyField)
			valSize := valCodec.size(m.Value(), f.valField)
			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
''','''			n += mapTagSize + sizeOfVarlen(f.entrySize(&m))
'''),('''			keySize := keyCodec.size(key, f.keyField)
			valSize := valCodec.size(val, f.valField)
			elemSize := keySize + valSize
''','''			elemSize := f.entrySize(&m)
'''),('''	keyCodec := f.keyField.codec
	valCodec := f.valField.codec

	return func(p''','''
	return func(p'''),('''func (w *walker) mapCodec''','''func (f *mapField) entrySize(m *MapIter) int {
	return f.keyField.codec.size(m.Key(), f.keyField) + f.valField.codec.size(m.Value(), f.valField)
}

func (w *walker) mapCodec'''))
@r('map_nodefer')
def _():
    sub('proto/map.go',('''		m := MapIter{}
		defer m.Done()

		for m.Init(pointer(t), p); m.HasNext(); m.Next() {
			keySize''','''		m := MapIter{}
		for m.Init(pointer(t), p); m.HasNext(); m.Next() {
			keySize'''),('''		m := MapIter{}
		defer m.Done()

		for m.Init(pointer(t), p); m.HasNext(); m.Next() {
			key :=''','''		var m MapIter
		m.Init(mtype, p)
		for m.HasNext() {
			key :='''),('''			b = valCodec.encode(b, val, f.valField)
		}
''','''			b = valCodec.encode(b, val, f.valField)
			m.Next()
		}
		m.Done()
'''),('''	mapTag := appendVarint(nil, f.wiretag)
''','''	mapTag := appendVarint(nil, f.wiretag)
	mtype := pointer(t)
'''))
@r('map_tag_direct')
def _():
    sub('proto/map.go',('			b = append(b, mapTag...)\n','			b = appendVarint(b, f.wiretag)\n'),('	mapTag := appendVarint(nil, f.wiretag)\n',''))
@r('map_pool_new')
def _():
    sub('proto/map.go',('''	structPool := new(sync.Pool)
''','''	structPool := &sync.Pool{New: func() interface{} { return reflect.New(structType).Interface() }}
'''),('''		s := pointer(structPool.Get())
		if s == nil {
			s = unsafe.Pointer(reflect.New(structType).Pointer())
		}
''','''		entry := structPool.Get()
		s := pointer(entry)
'''),('''		structPool.Put(s)
''','''		structPool.Put(entry)
'''))
@r('map_nopool')
def _():
    sub('proto/map.go',('''	structPool := new(sync.Pool)
	structZero := pointer(reflect.Zero(structType).Interface())
''',''),('''		s := pointer(structPool.Get())
		if s == nil {
			s = unsafe.Pointer(reflect.New(structType).Pointer())
		}
''','''		s := unsafe.Pointer(reflect.New(structType).Pointer())
'''),('''		Assign(stype, s, structZero)
		structPool.Put(s)
''',''),('''	stype := pointer(structType)
''',''),('	"sync"\n',''))
@r('map_defer_put')
def _():
    sub('proto/map.go',('''		Assign(stype, s, structZero)
		structPool.Put(s)
		return n + nl, err
''','''		return n + nl, err
'''),('''		_, nl, err := decodeVarint(b)
''','''		defer func() {
			Assign(stype, s, structZero)
			structPool.Put(s)
		}()

		_, nl, err := decodeVarint(b)
'''))
@r('map_clear_first')
def _():
    sub('proto/map.go',('''		Assign(stype, s, structZero)
		structPool.Put(s)
''','''		structPool.Put(s)
'''),('''		_, nl, err := decodeVarint(b)
''','''		Assign(stype, s, structZero)

		_, nl, err := decodeVarint(b)
'''))
@r('map_lazy_make')
def _():
    sub('proto/map.go',('''		if err == nil {
			v := MapAssign(mtype, *m, s)
			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))
		}
''','''		if err == nil {
			if *m == nil {
				*m = MakeMap(mtype, 0)
			}
			Assign(vtype, MapAssign(mtype, *m, s), unsafe.Pointer(uintptr(s)+valueOffset))
		}
'''),('''		if *m == nil {
			*m = MakeMap(mtype, 10)
		}
''',''))
# ---- second battery: walker, tags, entry points, options, generator ----
W='proto/walker.go'
@r('w_option_helper')
def _():
    s=open(f'{M}/{W}').read()
    a=s.index('		switch t.wireType {\n		case fixed32:'); b=s.index('		if field.codec == nil {\n			conf :=')
    s=s[:a]+'		field.codec = optionCodec(f.Type, t)\n'+s[b:]
    s=s.replace('''// publish makes''','''func optionCodec(ft reflect.Type, t structTag) *codec {
	switch ft {
	case optionBoolType:
		return &boolOptionCodec
	case optionFloat32Type:
		if t.wireType == fixed32 {
			return &float32OptionCodec
		}
	case optionFloat64Type:
		if t.wireType == fixed64 {
			return &float64OptionCodec
		}
	case optionInt32Type:
		switch {
		case t.wireType == fixed32:
			return &fixed32OptionCodec
		case t.zigzag:
			return &zigzag32OptionCodec
		}
		return &int32OptionCodec
	case optionUInt32Type:
		if t.wireType == fixed32 {
			return &fixed32OptionCodec
		}
		return &uint32OptionCodec
	case optionInt64Type:
		switch {
		case t.wireType == fixed64:
			return &fixed64OptionCodec
		case t.zigzag:
			return &zigzag64OptionCodec
		}
		return &int64OptionCodec
	case optionUInt64Type:
		if t.wireType == fixed64 {
			return &fixed64OptionCodec
		}
		return &uint64OptionCodec
	case optionStringType:
		return &stringOptionCodec
	}
	return nil
}

// publish makes''',1)
    open(f'{M}/{W}','w').write(s)
@r('w_option_map')
def _():
    s=open(f'{M}/{W}').read()
    a=s.index('		if field.codec == nil {\n			switch f.Type {'); b=s.index('		if field.codec == nil {\n			conf :=')
    s=s[:a]+'''		if field.codec == nil {
			if t.zigzag && zigzagOptions[f.Type] != nil {
				field.codec = zigzagOptions[f.Type]
			} else {
				field.codec = plainOptions[f.Type]
			}
		}
'''+s[b:]
    s=s.replace('''type walker struct''','''var plainOptions = map[reflect.Type]*codec{
	optionBoolType:   &boolOptionCodec,
	optionInt32Type:  &int32OptionCodec,
	optionInt64Type:  &int64OptionCodec,
	optionUInt32Type: &uint32OptionCodec,
	optionUInt64Type: &uint64OptionCodec,
	optionStringType: &stringOptionCodec,
}

var zigzagOptions = map[reflect.Type]*codec{
	optionInt32Type: &zigzag32OptionCodec,
	optionInt64Type: &zigzag64OptionCodec,
}

type walker struct''',1)
    open(f'{M}/{W}','w').write(s)
@r('w_codec_table')
def _():
    s=open(f'{M}/{W}').read()
    a=s.index('	switch t.Kind() {\n	case reflect.Bool:\n		return &boolCodec'); b=s.index('	case reflect.String:\n		if conf.required {')
    s=s[:a]+'''	var table *[32]*codec
	switch {
	case conf.zigzag:
		table = &zigzagCodecs
	case conf.fixed:
		table = &fixedCodecs
	default:
		table = &plainCodecs
	}
	if c := table[t.Kind()]; c != nil {
		return c
	}
	if c := plainCodecs[t.Kind()]; c != nil {
		return c
	}
	switch t.Kind() {
'''+s[b:]
    s=s.replace('''type walkerConfig struct''','''var plainCodecs = [32]*codec{
	reflect.Bool:    &boolCodec,
	reflect.Int32:   &int32Codec,
	reflect.Int64:   &int64Codec,
	reflect.Uint32:  &uint32Codec,
	reflect.Uint64:  &uint64Codec,
	reflect.Float32: &float32Codec,
	reflect.Float64: &float64Codec,
}

var fixedCodecs = [32]*codec{
	reflect.Int32:  &fixed32Codec,
	reflect.Int64:  &fixed64Codec,
	reflect.Uint32: &fixed32Codec,
	reflect.Uint64: &fixed64Codec,
}

var zigzagCodecs = [32]*codec{
	reflect.Int32: &zigzag32Codec,
	reflect.Int64: &zigzag64Codec,
}

type walkerConfig struct''',1)
    open(f'{M}/{W}','w').write(s)
@r('w_conf_value')
def _():
    p=f'{M}/{W}';s=open(p).read()
    s=s.replace('conf *walkerConfig','conf walkerConfig').replace('conf := &walkerConfig{','conf := walkerConfig{')
    open(p,'w').write(s)
@r('w_field_method')
def _():
    s=open(f'{M}/{W}').read()
    a=s.index('		t, err := parseStructTag(tag)\n'); b=s.index('		field.tagsize = sizeOfVarint(field.wiretag)\n')
    body=s[a:b]
    s=s[:a]+'		w.fillField(&field, f, tag)\n'+s[b:]
    s=s.replace('// publish makes','func (w *walker) fillField(field *structField, f reflect.StructField, tag string) {\n'+body+'}\n\n// publish makes',1)
    open(f'{M}/{W}','w').write(s)
@r('w_map_entry_helper')
def _():
    s=open(f'{M}/{W}').read()
    a=s.index('				t, err := parseStructTag(m.keyTag)\n'); b=s.index('				field.codec = w.mapCodec(f.Type, m)\n')
    s=s[:a]+'''				m.keyField = w.entryField(m.keyTag, key)
				m.valField = w.entryField(m.valTag, val)
'''+s[b:]
    s=s.replace('conf.required = true // map key and val should be encoded always\n','')
    s=s.replace('// publish makes','''func (w *walker) entryField(tag string, typ reflect.Type) *structField {
	t, err := parseStructTag(tag)
	if err != nil {
		panic(err)
	}
	wiretag := uint64(t.wireType) | uint64(t.fieldNumber)<<3
	return &structField{
		wiretag: wiretag,
		tagsize: sizeOfVarint(wiretag),
		codec:   w.codec(typ, &walkerConfig{required: true, zigzag: t.zigzag, fixed: t.fixed()}),
	}
}

// publish makes''',1)
    open(f'{M}/{W}','w').write(s)
@r('w_struct_funcs')
def _():
    s=open(f'{M}/{W}').read()
    a=s.index('	c.size = func(p unsafe.Pointer'); b=s.index('func (w *walker) structInfo(')
    s=s[:a]+'''	c.size = structSizeFuncOf(info)
	c.encode = structEncodeFuncOf(info)
	c.decode = structDecodeFuncOf(info, elem)
	return c
}

func structSizeFuncOf(info *structInfo) sizeFunc {
	return func(p unsafe.Pointer, f *structField) int {
		if p = deref(p); p == nil {
			return 0
		}
		return sizeOfVarlen(info.size(p)) + f.tagsize
	}
}

func structEncodeFuncOf(info *structInfo) encodeFunc {
	return func(b []byte, p unsafe.Pointer, f *structField) []byte {
		if p = deref(p); p == nil {
			return b
		}
		b = appendVarint(appendVarint(b, f.wiretag), uint64(info.size(p)))
		return info.encode(b, p)
	}
}

func structDecodeFuncOf(info *structInfo, elem reflect.Type) decodeFunc {
	return func(b []byte, p unsafe.Pointer) (int, error) {
		v := (*unsafe.Pointer)(p)
		if *v == nil {
			*v = reflect.New(elem).UnsafePointer()
		}
		data, n, err := decodeVarlen(b)
		if err != nil {
			return n, err
		}
		l, err := info.decode(data, *v)
		return n - len(data) + l, err
	}
}

'''+s[b:]
    open(f'{M}/{W}','w').write(s)
@r('w_two_pass')
def _():
    sub(W,('''	numField := t.NumField()
	fields := make([]*structField, 0, numField)
	for i := 0; i < numField; i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue // unexported
		}

		tag, ok := f.Tag.Lookup("protobuf")
		if !ok {
			continue // no tag
		}
''','''	var tagged []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		if _, ok := f.Tag.Lookup("protobuf"); ok {
			tagged = append(tagged, f)
		}
	}
	fields := make([]*structField, 0, len(tagged))
	for _, f := range tagged {
		tag := f.Tag.Get("protobuf")
'''),('''	// copy to save capacity
	fields2 := make([]*structField, len(fields))
	copy(fields2, fields)
	info.fields = fields2
''','''	info.fields = fields
'''))
@r('w_values')
def _():
    p=f'{M}/{W}';s=open(p).read()
    s=s.replace('fields := make([]*structField, 0, numField)','fields := make([]structField, 0, numField)').replace('fields = append(fields, &field)','fields = append(fields, field)')
    s=s.replace('''	fields2 := make([]*structField, len(fields))
	copy(fields2, fields)
	info.fields = fields2
''','''	info.fields = make([]*structField, len(fields))
	for i := range fields {
		info.fields[i] = &fields[i]
	}
''')
    open(p,'w').write(s)
@r('w_publish_infos_first')
def _():
    sub(W,('''	for t, c := range w.codecs {
		codecCache.LoadOrStore(pointer(t), c)
	}
	for t, info := range w.infos {
		structInfoCache.LoadOrStore(pointer(t), info)
	}
''','''	for t, info := range w.infos {
		structInfoCache.LoadOrStore(pointer(t), info)
	}
	for t, c := range w.codecs {
		codecCache.LoadOrStore(pointer(t), c)
	}
'''))
@r('w_publish_store')
def _():
    sub(W,('codecCache.LoadOrStore(pointer(t), c)','codecCache.Store(pointer(t), c)'),('structInfoCache.LoadOrStore(pointer(t), info)','structInfoCache.Store(pointer(t), info)'))
@r('w_index_inline')
def _():
    p=f'{M}/{W}';s=open(p).read()
    s=s.replace('''
	info.fieldIndex = make(map[fieldNumber]*structField, len(info.fields))
	for _, f := range info.fields {
		info.fieldIndex[f.fieldNumber()] = f
	}
''','')
    s=s.replace('''	numField := t.NumField()
''','''	numField := t.NumField()
	info.fieldIndex = map[fieldNumber]*structField{}
''').replace('fields = append(fields, &field)','fields = append(fields, &field)\n\t\tinfo.fieldIndex[field.fieldNumber()] = &field')
    open(p,'w').write(s)
@r('w_ptr_codec_lit')
def _():
    sub(W,('''	p := new(codec)
	c := w.required(t.Elem(), conf) // a non-nil pointer is present, whatever it points to
	p.size = pointerSizeFuncOf(t, c)
	p.encode = pointerEncodeFuncOf(t, c)
	p.decode = pointerDecodeFuncOf(t, c)
	return p
''','''	c := w.required(t.Elem(), conf)
	return &codec{
		size:   pointerSizeFuncOf(t, c),
		encode: pointerEncodeFuncOf(t, c),
		decode: pointerDecodeFuncOf(t, c),
	}
'''))
@r('w_deref_inline')
def _():
    p=f'{M}/{W}';s=open(p).read()
    s=s.replace('p = deref(p)','p = *(*unsafe.Pointer)(p)')
    s=s.replace('''func deref(p unsafe.Pointer) unsafe.Pointer {
	return *(*unsafe.Pointer)(p)
}
''','')
    open(p,'w').write(s)
@r('w_merge_required')
def _():
    p=f'{M}/{W}';s=open(p).read()
    a=s.index('	switch t.Kind() {\n	case reflect.Bool:\n		return &boolRequiredCodec'); b=s.index('func pointerSizeFuncOf')
    s=s[:a]+'''	pick := func(plain, fixed, zigzag *codec) *codec {
		if conf.zigzag && zigzag != nil {
			return zigzag
		}
		if conf.fixed && fixed != nil {
			return fixed
		}
		return plain
	}
	switch k := t.Kind(); {
	case k == reflect.Bool:
		return &boolRequiredCodec
	case k == reflect.Int32:
		return pick(&int32RequiredCodec, &fixed32RequiredCodec, &zigzag32RequiredCodec)
	case k == reflect.Int64:
		return pick(&int64RequiredCodec, &fixed64RequiredCodec, &zigzag64RequiredCodec)
	case k == reflect.Uint32:
		return pick(&uint32RequiredCodec, &fixed32RequiredCodec, nil)
	case k == reflect.Uint64:
		return pick(&uint64RequiredCodec, &fixed64RequiredCodec, nil)
	case k == reflect.Float32:
		return &float32RequiredCodec
	case k == reflect.Float64:
		return &float64RequiredCodec
	case k == reflect.String:
		return &stringRequiredCodec
	case k == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		return &bytesRequiredCodec
	case k == reflect.Struct:
		panic("nested message must be pointer:" + t.String())
	case k == reflect.Ptr:
		return w.pointer(t, conf)
	}
	panic("unsupported type: " + t.String())
}

'''+s[b:]
    open(p,'w').write(s)
S='proto/struct.go'
@r('tag_cut')
def _():
    func(S,'parseStructTag','''
func parseStructTag(tag string) (t structTag, err error) {
	kind, rest, _ := strings.Cut(tag, ",")
	switch kind {
	case "varint":
		t.wireType = varint
	case "zigzag32", "zigzag64":
		t.wireType, t.zigzag = varint, true
	case "bytes":
		t.wireType = varlen
	case "fixed32":
		t.wireType = fixed32
	case "fixed64":
		t.wireType = fixed64
	default:
		return t, fmt.Errorf("unsupported wire type in struct tag %q: %s", tag, kind)
	}
	number, rest, more := strings.Cut(rest, ",")
	if number == "" {
		return t, fmt.Errorf("missing field number in struct tag %q", tag)
	}
	n, err := strconv.Atoi(number)
	if err != nil {
		return t, fmt.Errorf("unsupported field number in struct tag %q: %w", tag, err)
	}
	if n < 1 || n > maxFieldNumber {
		return t, fmt.Errorf("field number out of range in struct tag %q: %d", tag, n)
	}
	t.fieldNumber = fieldNumber(n)
	if more {
		option, _, _ := strings.Cut(rest, ",")
		switch option {
		case "opt", "req":
		case "rep":
			t.repeated = true
		default:
			return t, fmt.Errorf("unsupported field option in struct tag %q: %s", tag, option)
		}
	}
	return t, nil
}''')
    p=f'{M}/{S}';s=open(p).read()
    s=s.replace('''func splitFields(s string) []string {
	return strings.Split(s, ",")
}
''','')
    open(p,'w').write(s)
@r('tag_split_index')
def _():
    func(S,'parseStructTag','''
func parseStructTag(tag string) (structTag, error) {
	t := structTag{}
	parts := splitFields(tag)
	switch parts[0] {
	case "varint":
		t.wireType = varint
	case "bytes":
		t.wireType = varlen
	case "fixed32":
		t.wireType = fixed32
	case "fixed64":
		t.wireType = fixed64
	case "zigzag32", "zigzag64":
		t.wireType = varint
		t.zigzag = true
	default:
		return t, fmt.Errorf("unsupported wire type in struct tag %q: %s", tag, parts[0])
	}
	if len(parts) < 2 {
		return t, fmt.Errorf("missing field number in struct tag %q", tag)
	}
	n, err := strconv.ParseUint(parts[1], 10, 32)
	if err != nil {
		return t, fmt.Errorf("unsupported field number in struct tag %q: %w", tag, err)
	}
	if n == 0 || n > maxFieldNumber {
		return t, fmt.Errorf("field number out of range in struct tag %q: %d", tag, n)
	}
	t.fieldNumber = fieldNumber(n)
	if len(parts) > 2 {
		switch parts[2] {
		case "rep":
			t.repeated = true
		case "opt", "req":
		default:
			return t, fmt.Errorf("unsupported field option in struct tag %q: %s", tag, parts[2])
		}
	}
	return t, nil
}''')
@r('tag_wire_helper')
def _():
    s=open(f'{M}/{S}').read()
    a=s.index('			switch f {\n			case "varint":'); b=s.index('		case 1:\n')
    s=s[:a]+'''			w, ok := wireTypes[f]
			if !ok {
				return t, fmt.Errorf("unsupported wire type in struct tag %q: %s", tag, f)
			}
			t.wireType = w
			t.zigzag = strings.HasPrefix(f, "zigzag")

'''+s[b:]
    s=s.replace('func parseStructTag','''var wireTypes = map[string]wireType{
	"varint":   varint,
	"zigzag32": varint,
	"zigzag64": varint,
	"bytes":    varlen,
	"fixed32":  fixed32,
	"fixed64":  fixed64,
}

func parseStructTag''',1)
    open(f'{M}/{S}','w').write(s)
@r('field_store_number')
def _():
    sub(S,('	tagsize int\n}','	tagsize int\n	number  fieldNumber\n}'),('return fieldNumber(f.wiretag >> 3)','return f.number'))
    sub(W,('		field.wiretag = uint64(t.fieldNumber)<<3 | uint64(t.wireType)\n','		field.number = t.fieldNumber\n		field.wiretag = uint64(t.fieldNumber)<<3 | uint64(t.wireType)\n'))
@r('field_key_bytes')
def _():
    sub(S,('	tagsize int\n}','	tagsize int\n	key     []byte // the encoded wiretag\n}'))
    sub(W,('		field.tagsize = sizeOfVarint(field.wiretag)\n','		field.key = appendVarint(nil, field.wiretag)\n		field.tagsize = len(field.key)\n'))
    sub(W,('''			b = appendVarint(b, f.wiretag)
			n := info.size(p)''','''			b = appendVarint(b, f.wiretag)
			n := info.size(p)'''))
    sub('proto/normal_codec.go',('''	if v != "" {
		b = appendVarint(b, f.wiretag)
''','''	if v != "" {
		b = append(b, f.key...)
'''))
P='proto/proto.go'
@r('p_cache_invert')
def _():
    func(P,'cachedStructInfoOf','''
func cachedStructInfoOf(t reflect.Type) *structInfo {
	c, ok := structInfoCache.Load(pointer(t))
	if !ok {
		w := newWalker()
		c = w.structInfo(t)
		w.publish()
	}
	return c
}

func newWalker() *walker {
	return &walker{
		codecs: map[reflect.Type]*codec{},
		infos:  map[reflect.Type]*structInfo{},
	}
}''')
@r('p_shared_prepare')
def _():
    sub(P,('''	t, p := inspect(v)
	if !isStructPointer(t) {
		panic(fmt.Errorf("proto.Size(%T): not a pointer to a struct", v))
	}
	t = t.Elem()
	info := cachedStructInfoOf(t)
	return info.size(p)
''','''	info, p, err := prepare("Size", v)
	if err != nil {
		panic(err)
	}
	return info.size(p)
'''),('''	t, p := inspect(v)
	if !isStructPointer(t) {
		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer to a struct", v)
	}
	t = t.Elem()
	info := cachedStructInfoOf(t)
	b := make([]byte, 0, info.size(p))
	b = info.encode(b, p)
	return b, nil
''','''	info, p, err := prepare("Marshal", v)
	if err != nil {
		return nil, err
	}
	return info.encode(make([]byte, 0, info.size(p)), p), nil
'''),('''// isStructPointer reports''','''func prepare(name string, v interface{}) (*structInfo, unsafe.Pointer, error) {
	t, p := inspect(v)
	if !isStructPointer(t) {
		return nil, nil, fmt.Errorf("proto.%s(%T): not a pointer to a struct", name, v)
	}
	return cachedStructInfoOf(t.Elem()), p, nil
}

// isStructPointer reports'''))
@r('p_valueof')
def _():
    func(P,'inspect','''
func inspect(v interface{}) (reflect.Type, unsafe.Pointer) {
	e := (*iface)(unsafe.Pointer(&v))
	return reflect.TypeOf(v), e.ptr
}''')
@r('p_guard_first')
def _():
    func(P,'Unmarshal','''
func Unmarshal(b []byte, v interface{}) error {
	if len(b) > 0 {
		t, p := inspect(v)
		if p == nil || !isStructPointer(t) {
			return &InvalidUnmarshalError{Type: t}
		}
		n, err := cachedStructInfoOf(t.Elem()).decode(b, p)
		if err != nil {
			return err
		}
		if n != len(b) {
			return fmt.Errorf("proto.Unmarshal(%T): read=%d < buffer=%d", v, n, len(b))
		}
	}
	return nil
}''')
@r('p_no_trailing_check')
def _():
    func(P,'Unmarshal','''
func Unmarshal(b []byte, v interface{}) error {
	if len(b) == 0 {
		return nil
	}
	t, p := inspect(v)
	if !isStructPointer(t) || p == nil {
		return &InvalidUnmarshalError{Type: t}
	}
	_, err := cachedStructInfoOf(t.Elem()).decode(b, p)
	return err
}''')
@r('p_kind_switch')
def _():
    func(P,'isStructPointer','''
func isStructPointer(t reflect.Type) bool {
	if t == nil {
		return false
	}
	if t.Kind() != reflect.Ptr {
		return false
	}
	t = t.Elem()
	return t.Kind() == reflect.Struct
}''')
@r('p_syncmap')
def _():
    p=f'{M}/{P}';s=open(p).read()
    s=s.replace('var structInfoCache syncx.Map[unsafe.Pointer, *structInfo] // map[unsafe.Pointer]*structInfo','var structInfoCache sync.Map // map[unsafe.Pointer]*structInfo')
    s=s.replace('''	if ok {
		return c
	}
''','''	if ok {
		return c.(*structInfo)
	}
''').replace('\n	"github.com/RomiChan/syncx"\n','')
    open(p,'w').write(s)
    sub(W,('''structInfoCache.Load(pointer(t)); ok {
		return info
''','''structInfoCache.Load(pointer(t)); ok {
		return info.(*structInfo)
'''))
@r('p_mutex_cache')
def _():
    p=f'{M}/{P}';s=open(p).read()
    s=s.replace('var structInfoCache syncx.Map[unsafe.Pointer, *structInfo] // map[unsafe.Pointer]*structInfo','''type infoCache struct {
	mu sync.RWMutex
	m  map[unsafe.Pointer]*structInfo
}

func (c *infoCache) Load(k unsafe.Pointer) (*structInfo, bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	i, ok := c.m[k]
	return i, ok
}

func (c *infoCache) LoadOrStore(k unsafe.Pointer, i *structInfo) (*structInfo, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if old, ok := c.m[k]; ok {
		return old, true
	}
	if c.m == nil {
		c.m = make(map[unsafe.Pointer]*structInfo)
	}
	c.m[k] = i
	return i, false
}

var structInfoCache infoCache''').replace('\n	"github.com/RomiChan/syncx"\n','')
    open(p,'w').write(s)
@r('p_typed_cache')
def _():
    p=f'{M}/{P}';s=open(p).read()
    s=s.replace('var codecCache sync.Map                                    // map[reflect.Type]codec','var codecCache syncx.Map[unsafe.Pointer, *codec]').replace('	"sync"\n','')
    open(p,'w').write(s)
    sub(W,('return c.(*codec)','return c'))
O='proto/option.go'
@r('o_methods')
def _():
    p=f'{M}/{O}';s=open(p).read()
    s=s.replace('return !o.some','return !o.IsSome()').replace('''	if o.IsSome() {
		return o.value
	}
	var zero T
	return zero
''','''	var zero T
	return o.UnwrapOr(zero)
''').replace('''	return Option[T]{
		some:  true,
		value: val,
	}
''','''	o := Option[T]{value: val}
	o.some = true
	return o
''').replace('return Option[T]{some: false}','var o Option[T]\n	return o')
    open(p,'w').write(s)
@r('o_unwrap_named')
def _():
    p=f'{M}/{O}';s=open(p).read()
    s=s.replace('''func (o Option[T]) Unwrap() T {
	if o.IsSome() {
		return o.value
	}
	var zero T
	return zero
}''','''func (o Option[T]) Unwrap() (v T) {
	if o.some {
		v = o.value
	}
	return
}''').replace('''	if o.IsSome() {
		return o.value
	}
	return defaultValue
''','''	if !o.some {
		return defaultValue
	}
	return o.value
''')
    open(p,'w').write(s)
@r('o_zero_value_none')
def _():
    p=f'{M}/{O}';s=open(p).read()
    s=s.replace('return &o.value','return &o.value')
    s=s.replace('''	return unsafe.Pointer(&o.value)''','''	return unsafe.Add(unsafe.Pointer(o), unsafe.Offsetof(o.value))''')
    open(p,'w').write(s)
E_='proto/error.go'
@r('e_inline')
def _():
    func(E_,'fieldError','''
func fieldError(f fieldNumber, t wireType, err error) error {
	e := new(UnmarshalFieldError)
	e.Err = err
	e.FieldNumber, e.WireType = int(f), int(t)
	return e
}''')
@r('e_text')
def _():
    sub(E_,('''return fmt.Sprintf("field number %d with wire type %d: %v", e.FieldNumber, e.WireType, e.Err)''','''return "field number " + strconv.Itoa(e.FieldNumber) + " with wire type " + strconv.Itoa(e.WireType) + ": " + e.Err.Error()'''))
    imports(E_,'strconv'); unimport(E_,'fmt')
N='proto/normal_codec.go'
@r('n_bytes_make')
def _():
    func(N,'decodeBytes','''
func decodeBytes(b []byte, p unsafe.Pointer) (int, error) {
	v, n, err := decodeVarlen(b)
	pb := (*[]byte)(p)
	if cap(*pb) >= len(v) && *pb != nil {
		*pb = (*pb)[:len(v)]
	} else {
		*pb = make([]byte, len(v))
	}
	copy(*pb, v)
	return n, err
}''')
@r('n_bytes_fresh')
def _():
    func(N,'decodeBytes','''
func decodeBytes(b []byte, p unsafe.Pointer) (int, error) {
	v, n, err := decodeVarlen(b)
	if err != nil {
		return n, err
	}
	*(*[]byte)(p) = append([]byte{}, v...)
	return n, nil
}''')
@r('n_string_simple')
def _():
    func(N,'decodeString','''
func decodeString(b []byte, p unsafe.Pointer) (int, error) {
	v, n, err := decodeVarlen(b)
	*(*string)(p) = string(v)
	return n, err
}''')
@r('n_bool_size')
def _():
    func(N,'sizeOfBool','''
func sizeOfBool(p unsafe.Pointer, f *structField) int {
	if !*(*bool)(p) {
		return 0
	}
	return f.tagsize + 1
}''')
@r('n_float_bits')
def _():
    func(N,'sizeOfFloat32','''
func sizeOfFloat32(p unsafe.Pointer, f *structField) int {
	if math.Float32bits(*(*float32)(p)) != 0 {
		return 4 + f.tagsize
	}
	return 0
}''')
    func(N,'sizeOfFloat64','''
func sizeOfFloat64(p unsafe.Pointer, f *structField) int {
	if *(*uint64)(p) == 0 {
		return 0
	}
	return f.tagsize + 8
}''')
@r('n_size_via_varlen')
def _():
    func(N,'sizeOfString','''
func sizeOfString(p unsafe.Pointer, f *structField) int {
	n := len(*(*string)(p))
	if n == 0 {
		return 0
	}
	return f.tagsize + sizeOfVarint(uint64(n)) + n
}''')
    func(N,'encodeString','''
func encodeString(b []byte, p unsafe.Pointer, f *structField) []byte {
	if v := *(*string)(p); len(v) > 0 {
		return append(appendVarint(appendVarint(b, f.wiretag), uint64(len(v))), v...)
	}
	return b
}''')
@r('n_zigzag_use')
def _():
    func(N,'decodeZigzag64','''
func decodeZigzag64(b []byte, p unsafe.Pointer) (int, error) {
	v, n, err := decodeVarintZigZag(b)
	*(*int64)(p) = v
	return n, err
}''')
    func(N,'decodeZigzag32','''
func decodeZigzag32(b []byte, p unsafe.Pointer) (int, error) {
	v, n, err := decodeVarintZigZag(b)
	*(*int32)(p) = int32(v)
	return n, err
}''')
    func(N,'encodeZigzag64','''
func encodeZigzag64(b []byte, p unsafe.Pointer, f *structField) []byte {
	v := *(*int64)(p)
	if v == 0 {
		return b
	}
	return appendVarintZigZag(appendVarint(b, f.wiretag), v)
}''')
@r('n_fixed_native')
def _():
    func(N,'encodeFixed64','''
func encodeFixed64(b []byte, p unsafe.Pointer, f *structField) []byte {
	v := *(*uint64)(p)
	if v == 0 {
		return b
	}
	b = appendVarint(b, f.wiretag)
	var buf [8]byte
	binary.LittleEndian.PutUint64(buf[:], v)
	return append(b, buf[:]...)
}''')
    imports(N,'encoding/binary')
@r('n_generic_varint')
def _():
    s=open(f'{M}/{N}').read()
    s+='''
func decodeInto[T int32 | int64 | uint32 | uint64](b []byte, p unsafe.Pointer) (int, error) {
	v, n, err := decodeVarint(b)
	*(*T)(p) = T(v)
	return n, err
}
'''
    open(f'{M}/{N}','w').write(s)
    for k in ['Int32','Int64','Uint32','Uint64']:
        func(N,'decode'+k,f'''
func decode{k}(b []byte, p unsafe.Pointer) (int, error) {{
	return decodeInto[{k.lower()}](b, p)
}}''')
@r('x_noop_statements')
def _():
    for path in ['proto/map.go','proto/slice.go',W,S,P,N,'proto/decode.go','proto/encode.go']:
        p=f'{M}/{path}';s=open(p).read()
        s=re.sub(r'^(func [^\n]*\{\n)',r'\1	_ = 0\n',s,flags=re.M)
        open(p,'w').write(s+'\n// the end\n')
@r('x_iter_range_int')
def _():
    sub('proto/slice.go',('for i := 0; i < v.Len(); i++ {','for i, l := 0, v.Len(); i < l; i++ {'),('for i := 0; i < s.Len(); i++ {','for i, l := 0, s.Len(); i < l; i++ {'))
@r('x_slice_unsafe')
def _():
    sub('internal/runtime_reflect/slice.go',('return unsafe.Pointer(uintptr(s.data) + (uintptr(i) * elemSize))','return unsafe.Add(s.data, uintptr(i)*elemSize)'))
@r('x_slice_new_lit')
def _():
    sub('internal/runtime_reflect/slice.go',('''	return Slice{
		data: newarray(elemType, cap),
		len:  len,
		cap:  cap,
	}''','''	var s Slice
	s.data = newarray(elemType, cap)
	s.len, s.cap = len, cap
	return s'''))
@r('x_map_direct')
def _():
    sub('internal/runtime_reflect/map.go',('''	if it.h != nil {
		it.key = nil
		mapiternext(&it.hiter)
	}
''','''	if it.h == nil {
		return
	}
	it.key = nil
	it.Next()
'''))
G='internal/generator/main.go'
@r('g_gotype_table')
def _():
    s=open(f'{M}/{G}').read()
    a=s.index('	switch field.Desc.Kind() {\n	case protoreflect.BoolKind:\n		goType = "bool"'); b=s.index('	switch {\n	case field.Desc.IsList():\n		return "[]"')
    s=s[:a]+'''	switch kind := field.Desc.Kind(); kind {
	case protoreflect.EnumKind:
		goType = g.QualifiedGoIdent(field.Enum.GoIdent)
	case protoreflect.MessageKind, protoreflect.GroupKind:
		goType, pointer = "*"+g.QualifiedGoIdent(field.Message.GoIdent), false
	case protoreflect.BytesKind:
		goType, pointer, comparable = "[]byte", false, false
	default:
		goType = scalarGoTypes[kind]
	}
'''+s[b:]
    s=s.replace('func fieldProtobufTagValue','''var scalarGoTypes = map[protoreflect.Kind]string{
	protoreflect.BoolKind:     "bool",
	protoreflect.Int32Kind:    "int32",
	protoreflect.Sint32Kind:   "int32",
	protoreflect.Sfixed32Kind: "int32",
	protoreflect.Uint32Kind:   "uint32",
	protoreflect.Fixed32Kind:  "uint32",
	protoreflect.Int64Kind:    "int64",
	protoreflect.Sint64Kind:   "int64",
	protoreflect.Sfixed64Kind: "int64",
	protoreflect.Uint64Kind:   "uint64",
	protoreflect.Fixed64Kind:  "uint64",
	protoreflect.FloatKind:    "float32",
	protoreflect.DoubleKind:   "float64",
	protoreflect.StringKind:   "string",
}

func fieldProtobufTagValue''',1)
    open(f'{M}/{G}','w').write(s)
@r('g_tag_sprintf')
def _():
    s=open(f'{M}/{G}').read()
    a=s.index('	fd := field.Desc\n	var tag []string'); b=s.index('func fieldDefaultValue')
    s=s[:a]+'''	return fmt.Sprintf("%s,%d,%s", tagKind(field.Desc.Kind()), field.Desc.Number(), tagCard(field.Desc.Cardinality()))
}

func tagCard(c protoreflect.Cardinality) string {
	switch c {
	case protoreflect.Required:
		return "req"
	case protoreflect.Repeated:
		return "rep"
	}
	return "opt"
}

func tagKind(k protoreflect.Kind) string {
	switch k {
	case protoreflect.Sint32Kind:
		return "zigzag32"
	case protoreflect.Sint64Kind:
		return "zigzag64"
	case protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind, protoreflect.FloatKind:
		return "fixed32"
	case protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.DoubleKind:
		return "fixed64"
	case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind:
		return "bytes"
	case protoreflect.GroupKind:
		return "group"
	default:
		return "varint"
	}
}

'''+s[b:]
    open(f'{M}/{G}','w').write(s)
@r('g_builder')
def _():
    func(G,'String','''
func (tags structTags) String() string {
	if len(tags) == 0 {
		return ""
	}
	var sb strings.Builder
	sb.WriteByte('`')
	for i, tag := range tags {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(tag[0])
		sb.WriteByte(':')
		sb.WriteString(strings.ReplaceAll(strconv.Quote(tag[1]), "`", `\\x60`))
	}
	sb.WriteByte('`')
	return sb.String()
}''')
@r('g_split_field')
def _():
    s=open(f'{M}/{G}').read()
    a=s.index('		// It would be a bit simpler to iterate'); b=s.index('	goType, option, comp := fieldGoType(g, f, field)\n	f.comparable')
    body=s[a:b].rstrip()
    assert body.endswith('}')
    body=body[:-1].rstrip()
    s=s[:a]+'		genOneofField(g, m, field, oneof, sf)\n		return\n	}\n'+s[b:]
    s=s.replace('func genMessageMethods','func genOneofField(g *protogen.GeneratedFile, m *messageInfo, field *protogen.Field, oneof *protogen.Oneof, sf *structFields) {\n'+body+'\n}\n\nfunc genMessageMethods',1)
    open(f'{M}/{G}','w').write(s)
@r('g_loop_index')
def _():
    p=f'{M}/{G}';s=open(p).read()
    s=s.replace('''	for _, message := range f.allMessages {
		genMessage(g, f, message)
	}
''','''	for i := 0; i < len(f.allMessages); i++ {
		if m := f.allMessages[i]; !m.Desc.IsMapEntry() {
			genMessage(g, f, m)
		}
	}
''')
    s=s.replace('''	if m.Desc.IsMapEntry() {
		return
	}

	// Message''','''	// Message''')
    open(p,'w').write(s)
@r('g_sprint_field')
def _():
    p=f'{M}/{G}';s=open(p).read()
    s=s.replace('''	g.P(leadingComments,
		name, " ", goType, tags,
		trailingComment(field.Comments.Trailing))
	sf.append(field.GoName)
''','''	line := name + " " + goType + tags.String()
	g.P(leadingComments, line, trailingComment(field.Comments.Trailing))
	sf.append(name)
''')
    open(p,'w').write(s)
@r('g_getter_helper')
def _():
    p=f'{M}/{G}';s=open(p).read()
    a=s.index('			g.Annotate(m.GoIdent.GoName+".Get"+oneof.GoName, oneof.Location)\n'); b=s.index('		// Getter for message field.\n')
    body=s[a:b].rstrip(); body=body[:-1].rstrip()
    s=s[:a]+'			genOneofGetter(g, m, oneof)\n		}\n\n'+s[b:]
    s=s.replace('// fieldGoType returns','func genOneofGetter(g *protogen.GeneratedFile, m *messageInfo, oneof *protogen.Oneof) {\n'+body+'\n}\n\n// fieldGoType returns',1)
    open(p,'w').write(s)
@r('g_join_loop')
def _():
    p=f'{M}/{G}';s=open(p).read()
    s=s.replace('''		ss := []string{fmt.Sprintf(" Types that are assignable to %s:\\n", oneof.GoName)}
		for _, field := range oneof.Fields {
			ss = append(ss, "\\t*"+field.GoIdent.GoName+"\\n")
		}
		leadingComments += protogen.Comments(strings.Join(ss, ""))
''','''		text := " Types that are assignable to " + oneof.GoName + ":\\n"
		for i := range oneof.Fields {
			text += "\\t*" + oneof.Fields[i].GoIdent.GoName + "\\n"
		}
		leadingComments += protogen.Comments(text)
''')
    open(p,'w').write(s)
@r('g_walk_recursive')
def _():
    I='internal/generator/init.go'
    p=f'{M}/{I}';s=open(p).read()
    s=s.replace('''	var walkMessages func([]*protogen.Message, func(*protogen.Message))
	walkMessages = func(messages []*protogen.Message, f func(*protogen.Message)) {
		for _, m := range messages {
			f(m)
			walkMessages(m.Messages, f)
		}
	}
''','').replace('walkMessages(f.Messages, func','walkMessages(f.Messages, func')
    s=s.replace('type enumInfo struct','''func walkMessages(messages []*protogen.Message, f func(*protogen.Message)) {
	for i := range messages {
		f(messages[i])
		walkMessages(messages[i].Messages, f)
	}
}

type enumInfo struct''',1)
    open(p,'w').write(s)
@r('g_reverse_maps')
def _():
    I='internal/generator/init.go'
    p=f'{M}/{I}';s=open(p).read()
    a=s.index('	if len(f.allEnums) > 0 {'); b=s.index('	return f\n}\n\ntype enumInfo')
    s=s[:a]+'''	f.allEnumsByPtr = make(map[*enumInfo]int, len(f.allEnums))
	for i, e := range f.allEnums {
		f.allEnumsByPtr[e] = i
	}
	f.allMessagesByPtr = make(map[*messageInfo]int, len(f.allMessages))
	f.allMessageFieldsByPtr = make(map[*messageInfo]*structFields, len(f.allMessages))
	for i, m := range f.allMessages {
		f.allMessagesByPtr[m], f.allMessageFieldsByPtr[m] = i, &structFields{}
	}

'''+s[b:]
    open(p,'w').write(s)
@r('g_noop')
def _():
    for path in [G,'internal/generator/init.go','cmd/protoc-gen-golite/main.go']:
        p=f'{M}/{path}';s=open(p).read()
        s=re.sub(r'^(func [^\n]*\{\n)',r'\1	_ = 0\n',s,flags=re.M)
        open(p,'w').write(s+'\n// the end\n')
@r('g_plugin_func')
def _():
    p=f'{M}/cmd/protoc-gen-golite/main.go';s=open(p).read()
    a=s.index('	}.Run(func(gen'); 
    s=s[:a]+'''	}.Run(generate)
}

func generate(gen *protogen.Plugin) error {
	gen.SupportedFeatures = uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL)
	for _, f := range gen.Files {
		if !f.Generate {
			continue
		}
		gengo.GenerateFile(gen, f)
	}
	return nil
}
'''
    open(p,'w').write(s)
