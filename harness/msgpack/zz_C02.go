package msgpack

import (
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzUint: the shortest format of an unsigned integer.
func zzUint(buf []byte, x uint64) {
	switch {
	case x < 128:
		zzBody(buf, byte(x))
	case x < 256:
		zzBody(buf, 0xcc, byte(x))
	case x < 65536:
		zzBody(buf, 0xcd, byte(x>>8), byte(x))
	case x < 1<<32:
		zzBody(buf, 0xce, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	default:
		zzBody(buf, 0xcf, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
}

// zzInt: the format of a signed integer.
func zzInt(buf []byte, x int64) {
	switch {
	case x >= -32 && x < 128:
		zzBody(buf, byte(x))
	case x >= -128 && x < 128:
		zzBody(buf, 0xd0, byte(x))
	case x >= -32768 && x < 32768:
		zzBody(buf, 0xd1, byte(x>>8), byte(x))
	case x >= -1<<31 && x < 1<<31:
		zzBody(buf, 0xd2, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	default:
		zzBody(buf, 0xd3, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
}

func zzScenario_C02_int8() {
	x := zz.Any[int8]("x")
	buf := zzEnc(func(w Writer) { w.WriteInt8(x) })
	zzInt(buf, int64(x))
	d := NewDecoder(buf)
	y, err := d.ReadInt8()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_int8() {
	x := zzPtr[int8](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableInt8(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableInt8()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_int8() {
	var x any = zz.Any[int8]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadInt8()
	zz.Assert(err == nil && y == x.(int8), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_int16() {
	x := zz.Any[int16]("x")
	buf := zzEnc(func(w Writer) { w.WriteInt16(x) })
	zzInt(buf, int64(x))
	d := NewDecoder(buf)
	y, err := d.ReadInt16()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_int16() {
	x := zzPtr[int16](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableInt16(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableInt16()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_int16() {
	var x any = zz.Any[int16]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadInt16()
	zz.Assert(err == nil && y == x.(int16), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_int32() {
	x := zz.Any[int32]("x")
	buf := zzEnc(func(w Writer) { w.WriteInt32(x) })
	zzInt(buf, int64(x))
	d := NewDecoder(buf)
	y, err := d.ReadInt32()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_int32() {
	x := zzPtr[int32](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableInt32(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableInt32()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_int32() {
	var x any = zz.Any[int32]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadInt32()
	zz.Assert(err == nil && y == x.(int32), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_int64() {
	x := zz.Any[int64]("x")
	buf := zzEnc(func(w Writer) { w.WriteInt64(x) })
	zzInt(buf, int64(x))
	d := NewDecoder(buf)
	y, err := d.ReadInt64()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_int64() {
	x := zzPtr[int64](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableInt64(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableInt64()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_int64() {
	var x any = zz.Any[int64]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadInt64()
	zz.Assert(err == nil && y == x.(int64), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_uint8() {
	x := zz.Any[uint8]("x")
	buf := zzEnc(func(w Writer) { w.WriteUint8(x) })
	zzUint(buf, uint64(x))
	d := NewDecoder(buf)
	y, err := d.ReadUint8()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_uint8() {
	x := zzPtr[uint8](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableUint8(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableUint8()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_uint8() {
	var x any = zz.Any[uint8]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadUint8()
	zz.Assert(err == nil && y == x.(uint8), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_uint16() {
	x := zz.Any[uint16]("x")
	buf := zzEnc(func(w Writer) { w.WriteUint16(x) })
	zzUint(buf, uint64(x))
	d := NewDecoder(buf)
	y, err := d.ReadUint16()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_uint16() {
	x := zzPtr[uint16](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableUint16(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableUint16()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_uint16() {
	var x any = zz.Any[uint16]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadUint16()
	zz.Assert(err == nil && y == x.(uint16), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_uint32() {
	x := zz.Any[uint32]("x")
	buf := zzEnc(func(w Writer) { w.WriteUint32(x) })
	zzUint(buf, uint64(x))
	d := NewDecoder(buf)
	y, err := d.ReadUint32()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_uint32() {
	x := zzPtr[uint32](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableUint32(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableUint32()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_uint32() {
	var x any = zz.Any[uint32]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadUint32()
	zz.Assert(err == nil && y == x.(uint32), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_uint64() {
	x := zz.Any[uint64]("x")
	buf := zzEnc(func(w Writer) { w.WriteUint64(x) })
	zzUint(buf, uint64(x))
	d := NewDecoder(buf)
	y, err := d.ReadUint64()
	zz.Assert(err == nil && y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_uint64() {
	x := zzPtr[uint64](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableUint64(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableUint64()
	zz.Assert(err == nil && (x == nil) == (y == nil) && (x == nil || *x == *y), "decoding does not give back the optional value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_uint64() {
	var x any = zz.Any[uint64]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	y, err := d.ReadUint64()
	zz.Assert(err == nil && y == x.(uint64), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_float32() {
	x := zz.Any[float32]("x")
	buf := zzEnc(func(w Writer) { w.WriteFloat32(x) })
	zz.Assert(buf[0] == 0xca, "the encoding is not the format's")
	d := NewDecoder(buf)
	y, err := d.ReadFloat32()
	zz.Assert(err == nil, "decoding fails")
	zz.Assert(y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_float32() {
	x := zzPtr[float32](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableFloat32(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableFloat32()
	zz.Assert(err == nil && (x == nil) == (y == nil), "decoding does not keep an optional value nil or not nil")
	if x != nil {
		zz.Assert(*x == *y, "decoding does not give back the optional value")
	}
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_float32() {
	x := zz.Any[float32]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil, "decoding fails")
	y, ok := v.(float32)
	zz.Assert(ok, "decoding gives another type")
	zz.Assert(y == x, "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_float64() {
	x := zz.Any[float64]("x")
	buf := zzEnc(func(w Writer) { w.WriteFloat64(x) })
	zz.Assert(buf[0] == 0xcb, "the encoding is not the format's")
	d := NewDecoder(buf)
	y, err := d.ReadFloat64()
	zz.Assert(err == nil, "decoding fails")
	zz.Assert(y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_float64() {
	x := zzPtr[float64](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableFloat64(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableFloat64()
	zz.Assert(err == nil && (x == nil) == (y == nil), "decoding does not keep an optional value nil or not nil")
	if x != nil {
		zz.Assert(*x == *y, "decoding does not give back the optional value")
	}
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_float64() {
	x := zz.Any[float64]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil, "decoding fails")
	y, ok := v.(float64)
	zz.Assert(ok, "decoding gives another type")
	zz.Assert(y == x, "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_bool() {
	x := zz.Any[bool]("x")
	buf := zzEnc(func(w Writer) { w.WriteBool(x) })
	if x {
		zzBody(buf, 0xc3)
	} else {
		zzBody(buf, 0xc2)
	}
	d := NewDecoder(buf)
	y, err := d.ReadBool()
	zz.Assert(err == nil, "decoding fails")
	zz.Assert(y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_bool() {
	x := zzPtr[bool](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableBool(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableBool()
	zz.Assert(err == nil && (x == nil) == (y == nil), "decoding does not keep an optional value nil or not nil")
	if x != nil {
		zz.Assert(*x == *y, "decoding does not give back the optional value")
	}
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_bool() {
	x := zz.Any[bool]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil, "decoding fails")
	y, ok := v.(bool)
	zz.Assert(ok, "decoding gives another type")
	zz.Assert(y == x, "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_string() {
	x := zz.Any[string]("x")
	buf := zzEnc(func(w Writer) { w.WriteString(x) })
	n := uint32(len(x))
	switch {
	case n < 32:
		zzHead(buf, n, 0xa0|byte(n))
	case n < 256:
		zzHead(buf, n, 0xd9, byte(n))
	case n < 65536:
		zzHead(buf, n, 0xda, byte(n>>8), byte(n))
	default:
		zzHead(buf, n, 0xdb, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	d := NewDecoder(buf)
	y, err := d.ReadString()
	zz.Assert(err == nil, "decoding fails")
	zz.Assert(y == x, "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_string() {
	x := zzPtr[string](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableString(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableString()
	zz.Assert(err == nil && (x == nil) == (y == nil), "decoding does not keep an optional value nil or not nil")
	if x != nil {
		zz.Assert(*x == *y, "decoding does not give back the optional value")
	}
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_string() {
	x := zz.Any[string]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil, "decoding fails")
	y, ok := v.(string)
	zz.Assert(ok, "decoding gives another type")
	zz.Assert(y == x, "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_time() {
	x := zz.Any[time.Time]("x")
	buf := zzEnc(func(w Writer) { w.WriteTime(x) })
	d := NewDecoder(buf)
	y, err := d.ReadTime()
	zz.Assert(err == nil, "decoding fails")
	zz.Assert(y.Equal(x), "decoding does not give back the value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_time() {
	x := zzPtr[time.Time](zz.Choice(2) == 0)
	buf := zzEnc(func(w Writer) { w.WriteNillableTime(x) })
	if x == nil {
		zzBody(buf, 0xc0)
	}
	d := NewDecoder(buf)
	y, err := d.ReadNillableTime()
	zz.Assert(err == nil && (x == nil) == (y == nil), "decoding does not keep an optional value nil or not nil")
	if x != nil {
		zz.Assert(y.Equal(*x), "decoding does not give back the optional value")
	}
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_time() {
	x := zz.Any[time.Time]("x")
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil, "decoding fails")
	y, ok := v.(time.Time)
	zz.Assert(ok, "decoding gives another type")
	zz.Assert(y.Equal(x), "decoding does not give back the dynamic value")
	zzEnd(&d)
	zz.Reach("end")
}

// zzHead: the header, then n bytes, then the marker.
func zzHead(buf []byte, n uint32, want ...byte) {
	zz.Assert(len(buf) == len(want)+int(n)+1, "the encoding has another length than the format")
	for i := range want {
		zz.Assert(buf[i] == want[i], "the encoding is not the format's")
	}
}

func zzScenario_C02_bytes() {
	x := zz.Bytes("x")
	zz.Assume(uint64(len(x)) < 1<<32)
	buf := zzEnc(func(w Writer) { w.WriteByteArray(x) })
	n := uint32(len(x))
	switch {
	case n < 256:
		zzHead(buf, n, 0xc4, byte(n))
	case n < 65536:
		zzHead(buf, n, 0xc5, byte(n>>8), byte(n))
	default:
		zzHead(buf, n, 0xc6, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	d := NewDecoder(buf)
	y, err := d.ReadByteArray()
	zz.Assert(err == nil, "decoding fails")
	zz.Assert(string(y) == string(x), "decoding does not give back the bytes")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nillable_bytes() {
	x := zz.Bytes("x")
	zz.Assume(uint64(len(x)) < 1<<32)
	if zz.Choice(2) == 0 {
		x = nil
	}
	buf := zzEnc(func(w Writer) { w.WriteNillableByteArray(x) })
	d := NewDecoder(buf)
	y, err := d.ReadNillableByteArray()
	zz.Assert(err == nil && (x == nil) == (y == nil), "decoding does not keep optional bytes nil or not nil")
	zz.Assert(string(y) == string(x), "decoding does not give back the bytes")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_sizes() {
	n := zz.Any[uint32]("n")
	var buf []byte
	array := zz.Choice(2) == 0
	if array {
		buf = zzEnc(func(w Writer) { w.WriteArraySize(n) })
	} else {
		buf = zzEnc(func(w Writer) { w.WriteMapSize(n) })
	}
	var fix, b16, b32 byte = 0x80, 0xde, 0xdf
	if array {
		fix, b16, b32 = 0x90, 0xdc, 0xdd
	}
	switch {
	case n < 16:
		zzBody(buf, fix|byte(n))
	case n < 65536:
		zzBody(buf, b16, byte(n>>8), byte(n))
	default:
		zzBody(buf, b32, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	d := NewDecoder(buf)
	var m uint32
	var err error
	if array {
		m, err = d.ReadArraySize()
	} else {
		m, err = d.ReadMapSize()
	}
	zz.Assert(err == nil && m == n, "decoding does not give back the size")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_nil() {
	buf := zzEnc(func(w Writer) { w.WriteNil() })
	zzBody(buf, 0xc0)
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil && v == nil, "nil is not decoded as nil")
	zzEnd(&d)
	zz.Reach("end")
}

// Every kind of value is skipped exactly.
func zzScenario_C02_skip() {
	a, b, c := zz.Any[int32]("a"), zz.Str("b"), zz.Any[uint64]("c")
	var buf []byte
	switch zz.Choice(9) {
	case 0:
		buf = zzEnc(func(w Writer) { w.WriteInt32(a) })
	case 1:
		buf = zzEnc(func(w Writer) { w.WriteUint64(c) })
	case 2:
		buf = zzEnc(func(w Writer) { w.WriteString(b) })
	case 3:
		x := zz.Bytes("x")
		zz.Assume(uint64(len(x)) < 1<<32)
		buf = zzEnc(func(w Writer) { w.WriteByteArray(x) })
	case 4:
		x := zz.Any[time.Time]("t")
		buf = zzEnc(func(w Writer) { w.WriteTime(x) })
	case 5:
		x := zz.Any[float64]("t")
		buf = zzEnc(func(w Writer) { w.WriteArraySize(3); w.WriteFloat64(x); w.WriteNil(); w.WriteFloat32(float32(x)) })
	case 6:
		x := zz.Bool()
		buf = zzEnc(func(w Writer) {
			w.WriteArraySize(2)
			w.WriteMapSize(1)
			w.WriteBool(x)
			w.WriteInt32(a)
			w.WriteArraySize(0)
		})
	case 7:
		buf = zzEnc(func(w Writer) {
			w.WriteMapSize(1)
			w.WriteInt32(a)
			w.WriteArraySize(1)
			w.WriteArraySize(1)
			w.WriteBool(false)
		})
	case 8:
		buf = zzEnc(func(w Writer) { w.WriteMapSize(0) })
	}
	d := NewDecoder(buf)
	err := d.Skip()
	zz.Assert(err == nil, "skipping fails")
	zzEnd(&d)
	zz.Reach("end")
}

// Dynamic containers.
func zzScenario_C02_any_slice() {
	a, b := zz.Any[int16]("a"), zz.Bool()
	var x any
	switch zz.Choice(3) {
	case 0:
		x = []interface{}{}
	case 1:
		x = []interface{}{b, nil, []interface{}{b}}
	case 2:
		x = []int16{a}
	}
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil, "decoding fails")
	y, ok := v.([]any)
	zz.Assert(ok, "decoding a slice gives another type")
	switch x := x.(type) {
	case []interface{}:
		zz.Assert(len(x) == len(y), "decoding changes the number of elements")
		if len(x) > 0 {
			z, ok := y[2].([]any)
			zz.Assert(ok && len(z) == 1 && z[0] == any(b) && y[0] == any(b) && y[1] == nil, "decoding changes the elements")
		}
	case []int16:
		zz.Assert(len(y) == 1, "decoding changes the number of elements")
	}
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_any_map() {
	b := zz.Bool()
	x := map[string]interface{}{"one": b, "two": nil}
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	v, err := d.ReadAny()
	zz.Assert(err == nil, "decoding fails")
	y, ok := v.(map[any]any)
	zz.Assert(ok && len(y) == 2 && y["one"] == any(b), "decoding a map changes it")
	two, ok := y["two"]
	zz.Assert(ok && two == nil, "decoding a map loses a nil")
	zzEnd(&d)
	zz.Reach("end")
}
