package msgpack

import (
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzElems: a slice is encoded as its length and its elements in order.
func zzElems[T any](most int, same func(d *Decoder, x T) bool) {
	x := zzOf[T](zz.Choice(most + 1))
	buf := zzEnc(func(w Writer) { w.WriteAny(x) })
	d := NewDecoder(buf)
	n, err := d.ReadArraySize()
	zz.Assert(err == nil && int(n) == len(x), "decoding a slice changes the number of elements")
	for i := range x {
		zz.Assert(same(&d, x[i]), "decoding a slice changes an element")
	}
	zzEnd(&d)
	zz.Reach("end")
}

// zzEntry: a map is encoded as its size, each key and its value.
func zzEntry[K comparable](same func(d *Decoder, k K) bool) {
	m := map[K]interface{}{}
	k, v := zz.Any[K]("k"), zz.Bool()
	n := zz.Choice(2)
	if n > 0 {
		m[k] = v
	}
	buf := zzEnc(func(w Writer) { w.WriteAny(m) })
	d := NewDecoder(buf)
	size, err := d.ReadMapSize()
	zz.Assert(err == nil && int(size) == n, "decoding a map changes the number of entries")
	if n > 0 {
		zz.Assert(same(&d, k), "decoding a map changes a key")
		y, err := d.ReadBool()
		zz.Assert(err == nil && y == v, "decoding a map changes a value")
	}
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_slice_string() {
	zzElems(2, func(d *Decoder, x string) bool {
		y, err := d.ReadString()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_time() {
	zzElems(1, func(d *Decoder, x time.Time) bool {
		y, err := d.ReadTime()
		return err == nil && y.Equal(x)
	})
}

func zzScenario_C02_slice_bool() {
	zzElems(2, func(d *Decoder, x bool) bool {
		y, err := d.ReadBool()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_int() {
	zzElems(2, func(d *Decoder, x int) bool {
		y, err := d.ReadInt64()
		return err == nil && int(y) == x
	})
}

func zzScenario_C02_slice_int8() {
	zzElems(2, func(d *Decoder, x int8) bool {
		y, err := d.ReadInt8()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_int16() {
	zzElems(2, func(d *Decoder, x int16) bool {
		y, err := d.ReadInt16()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_int32() {
	zzElems(2, func(d *Decoder, x int32) bool {
		y, err := d.ReadInt32()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_int64() {
	zzElems(2, func(d *Decoder, x int64) bool {
		y, err := d.ReadInt64()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_uint() {
	zzElems(2, func(d *Decoder, x uint) bool {
		y, err := d.ReadUint64()
		return err == nil && uint(y) == x
	})
}

func zzScenario_C02_slice_uint16() {
	zzElems(2, func(d *Decoder, x uint16) bool {
		y, err := d.ReadUint16()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_uint32() {
	zzElems(2, func(d *Decoder, x uint32) bool {
		y, err := d.ReadUint32()
		return err == nil && y == x
	})
}

func zzScenario_C02_slice_uint64() {
	zzElems(2, func(d *Decoder, x uint64) bool {
		y, err := d.ReadUint64()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_string() {
	zzEntry(func(d *Decoder, x string) bool {
		y, err := d.ReadString()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_int() {
	zzEntry(func(d *Decoder, x int) bool {
		y, err := d.ReadInt64()
		return err == nil && int(y) == x
	})
}

func zzScenario_C02_map_int8() {
	zzEntry(func(d *Decoder, x int8) bool {
		y, err := d.ReadInt8()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_int16() {
	zzEntry(func(d *Decoder, x int16) bool {
		y, err := d.ReadInt16()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_int32() {
	zzEntry(func(d *Decoder, x int32) bool {
		y, err := d.ReadInt32()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_int64() {
	zzEntry(func(d *Decoder, x int64) bool {
		y, err := d.ReadInt64()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_uint() {
	zzEntry(func(d *Decoder, x uint) bool {
		y, err := d.ReadUint64()
		return err == nil && uint(y) == x
	})
}

func zzScenario_C02_map_uint8() {
	zzEntry(func(d *Decoder, x uint8) bool {
		y, err := d.ReadUint8()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_uint16() {
	zzEntry(func(d *Decoder, x uint16) bool {
		y, err := d.ReadUint16()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_uint32() {
	zzEntry(func(d *Decoder, x uint32) bool {
		y, err := d.ReadUint32()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_uint64() {
	zzEntry(func(d *Decoder, x uint64) bool {
		y, err := d.ReadUint64()
		return err == nil && y == x
	})
}

func zzScenario_C02_map_string_string() {
	k, v := zz.Str("k"), zz.Str("v")
	buf := zzEnc(func(w Writer) { w.WriteAny(map[string]string{k: v}) })
	d := NewDecoder(buf)
	size, err := d.ReadMapSize()
	zz.Assert(err == nil && size == 1, "decoding a map changes the number of entries")
	x, err := d.ReadString()
	zz.Assert(err == nil && x == k, "decoding a map changes a key")
	y, err := d.ReadString()
	zz.Assert(err == nil && y == v, "decoding a map changes a value")
	zzEnd(&d)
	zz.Reach("end")
}

func zzScenario_C02_map_any() {
	k, v := zz.Any[int8]("k"), zz.Bool()
	buf := zzEnc(func(w Writer) { w.WriteAny(map[interface{}]interface{}{k: v}) })
	d := NewDecoder(buf)
	size, err := d.ReadMapSize()
	zz.Assert(err == nil && size == 1, "decoding a map changes the number of entries")
	x, err := d.ReadInt8()
	zz.Assert(err == nil && x == k, "decoding a map changes a key")
	y, err := d.ReadBool()
	zz.Assert(err == nil && y == v, "decoding a map changes a value")
	zzEnd(&d)
	zz.Reach("end")
}

type zzCodec struct{ a, b bool }

func (c *zzCodec) Encode(w Writer) error {
	w.WriteBool(c.a)
	w.WriteBool(c.b)
	return nil
}

func (c *zzCodec) Decode(r Reader) error { return nil }

// A codec is encoded as what it writes.
func zzScenario_C02_any_codec() {
	c := zzCodec{zz.Bool(), zz.Bool()}
	buf := zzEnc(func(w Writer) { w.WriteAny(&c) })
	d := NewDecoder(buf)
	a, err := d.ReadBool()
	zz.Assert(err == nil && a == c.a, "encoding a codec changes what it writes")
	b, err := d.ReadBool()
	zz.Assert(err == nil && b == c.b, "encoding a codec changes what it writes")
	zzEnd(&d)
	zz.Reach("end")
}

// nil in the place of a container is an empty one.
func zzScenario_C02_nil_sizes() {
	buf := zzEnc(func(w Writer) { w.WriteNil() })
	d := NewDecoder(buf)
	var n uint32
	var err error
	if zz.Choice(2) == 0 {
		n, err = d.ReadArraySize()
	} else {
		n, err = d.ReadMapSize()
	}
	zz.Assert(err == nil && n == 0, "nil is not decoded as an empty container")
	zzEnd(&d)
	zz.Reach("end")
}

// zzWhole: b is exactly one value.
func zzWhole(b []byte, err error, same func(d *Decoder) bool) {
	zz.Assert(err == nil, "encoding fails")
	d := NewDecoder(b)
	zz.Assert(same(&d), "decoding does not give back the value")
	_, err = d.IsNextNil()
	zz.Assert(err != nil, "the encoding of a value is longer than the value")
	zz.Reach("end")
}

func zzScenario_C02_I8_to_bytes() {
	x := zz.Any[int8]("x")
	b, err := I8ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadInt8()
		return err == nil && y == x
	})
}

func zzScenario_C02_I16_to_bytes() {
	x := zz.Any[int16]("x")
	b, err := I16ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadInt16()
		return err == nil && y == x
	})
}

func zzScenario_C02_I32_to_bytes() {
	x := zz.Any[int32]("x")
	b, err := I32ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadInt32()
		return err == nil && y == x
	})
}

func zzScenario_C02_I64_to_bytes() {
	x := zz.Any[int64]("x")
	b, err := I64ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadInt64()
		return err == nil && y == x
	})
}

func zzScenario_C02_U8_to_bytes() {
	x := zz.Any[uint8]("x")
	b, err := U8ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadUint8()
		return err == nil && y == x
	})
}

func zzScenario_C02_U16_to_bytes() {
	x := zz.Any[uint16]("x")
	b, err := U16ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadUint16()
		return err == nil && y == x
	})
}

func zzScenario_C02_U32_to_bytes() {
	x := zz.Any[uint32]("x")
	b, err := U32ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadUint32()
		return err == nil && y == x
	})
}

func zzScenario_C02_U64_to_bytes() {
	x := zz.Any[uint64]("x")
	b, err := U64ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadUint64()
		return err == nil && y == x
	})
}

func zzScenario_C02_F32_to_bytes() {
	x := zz.Any[float32]("x")
	b, err := F32ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadFloat32()
		return err == nil && y == x
	})
}

func zzScenario_C02_F64_to_bytes() {
	x := zz.Any[float64]("x")
	b, err := F64ToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadFloat64()
		return err == nil && y == x
	})
}

func zzScenario_C02_Bool_to_bytes() {
	x := zz.Any[bool]("x")
	b, err := BoolToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadBool()
		return err == nil && y == x
	})
}

func zzScenario_C02_String_to_bytes() {
	x := zz.Any[string]("x")
	b, err := StringToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadString()
		return err == nil && y == x
	})
}

func zzScenario_C02_Bytes_to_bytes() {
	x := zz.Bytes("x")
	b, err := BytesToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadByteArray()
		return err == nil && zz.Same(y, x)
	})
}

func zzScenario_C02_Any_to_bytes() {
	x := zz.Any[int32]("x")
	b, err := AnyToBytes(x)
	zzWhole(b, err, func(d *Decoder) bool {
		y, err := d.ReadInt32()
		return err == nil && y == x
	})
}

func zzScenario_C02_codec_to_bytes() {
	c := zzCodec{zz.Bool(), zz.Bool()}
	b, err := ToBytes(&c)
	zzWhole(b, err, func(d *Decoder) bool {
		x, err := d.ReadBool()
		y, err2 := d.ReadBool()
		return err == nil && err2 == nil && x == c.a && y == c.b
	})
}

type zzFailing struct{ err error }

func (c *zzFailing) Encode(w Writer) error { return c.err }
func (c *zzFailing) Decode(r Reader) error { return nil }

// A codec that fails, or a value that cannot be encoded, gives an error.
func zzScenario_C02_failing_to_bytes() {
	var err error
	if zz.Choice(2) == 0 {
		_, err = ToBytes(&zzFailing{zz.NonNil[error]("err")})
	} else {
		_, err = AnyToBytes(struct{ a int }{1})
	}
	zz.Assert(err != nil, "an encoding that failed is given as a value")
	zz.Reach("end")
}
