package msgpack

import (
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzSize encodes with f: the size computed for it must be the size it takes.
func zzSize(f func(Writer)) []byte {
	s := NewSizer()
	f(&s)
	zz.Assert(s.Err() == nil, "the sizer fails on a value it should support")
	n := s.Len()
	buf := make([]byte, n)
	e := NewEncoder(buf)
	f(&e)
	zz.Assert(e.Err() == nil, "the value does not fit the size computed for it")
	small := make([]byte, n-1)
	e2 := NewEncoder(small)
	f(&e2)
	zz.Assert(e2.Err() != nil, "the size computed for the value is more than it takes")
	return buf
}

func zzScenario_C01_scalars() {
	switch zz.Choice(15) {
	case 0:
		zzSize(func(w Writer) { w.WriteNil() })
	case 1:
		x := zz.Bool()
		zzSize(func(w Writer) { w.WriteBool(x) })
	case 2:
		x := zz.Any[int8]("x")
		zzSize(func(w Writer) { w.WriteInt8(x) })
	case 3:
		x := zz.Any[int16]("x")
		zzSize(func(w Writer) { w.WriteInt16(x) })
	case 4:
		x := zz.Any[int32]("x")
		zzSize(func(w Writer) { w.WriteInt32(x) })
	case 5:
		x := zz.Any[int64]("x")
		zzSize(func(w Writer) { w.WriteInt64(x) })
	case 6:
		x := zz.Any[uint8]("x")
		zzSize(func(w Writer) { w.WriteUint8(x) })
	case 7:
		x := zz.Any[uint16]("x")
		zzSize(func(w Writer) { w.WriteUint16(x) })
	case 8:
		x := zz.Any[uint32]("x")
		zzSize(func(w Writer) { w.WriteUint32(x) })
	case 9:
		x := zz.Any[uint64]("x")
		zzSize(func(w Writer) { w.WriteUint64(x) })
	case 10:
		x := zz.Any[float32]("x")
		zzSize(func(w Writer) { w.WriteFloat32(x) })
	case 11:
		x := zz.Any[float64]("x")
		zzSize(func(w Writer) { w.WriteFloat64(x) })
	case 12:
		x := zz.Any[time.Time]("x")
		zzSize(func(w Writer) { w.WriteTime(x) })
	case 13:
		x := zz.Str("x")
		zzSize(func(w Writer) { w.WriteString(x) })
	case 14:
		x := zz.Any[[]byte]("x")
		zzSize(func(w Writer) { w.WriteByteArray(x) })
	}
	zz.Reach("end")
}

func zzScenario_C01_headers() {
	x := zz.Any[uint32]("x")
	if zz.Bool() {
		zzSize(func(w Writer) { w.WriteArraySize(x) })
	} else {
		zzSize(func(w Writer) { w.WriteMapSize(x) })
	}
	zz.Reach("end")
}

func zzScenario_C01_nillable() {
	isNil := zz.Bool()
	switch zz.Choice(14) {
	case 0:
		zzSize(func(w Writer) { w.WriteNillableBool(zzPtr[bool](isNil)) })
	case 1:
		zzSize(func(w Writer) { w.WriteNillableByteArray(nil) })
	case 2:
		x := zzPtr[int8](isNil)
		zzSize(func(w Writer) { w.WriteNillableInt8(x) })
	case 3:
		x := zzPtr[int16](isNil)
		zzSize(func(w Writer) { w.WriteNillableInt16(x) })
	case 4:
		x := zzPtr[int32](isNil)
		zzSize(func(w Writer) { w.WriteNillableInt32(x) })
	case 5:
		x := zzPtr[int64](isNil)
		zzSize(func(w Writer) { w.WriteNillableInt64(x) })
	case 6:
		x := zzPtr[uint8](isNil)
		zzSize(func(w Writer) { w.WriteNillableUint8(x) })
	case 7:
		x := zzPtr[uint16](isNil)
		zzSize(func(w Writer) { w.WriteNillableUint16(x) })
	case 8:
		x := zzPtr[uint32](isNil)
		zzSize(func(w Writer) { w.WriteNillableUint32(x) })
	case 9:
		x := zzPtr[uint64](isNil)
		zzSize(func(w Writer) { w.WriteNillableUint64(x) })
	case 10:
		x := zzPtr[float32](isNil)
		zzSize(func(w Writer) { w.WriteNillableFloat32(x) })
	case 11:
		x := zzPtr[float64](isNil)
		zzSize(func(w Writer) { w.WriteNillableFloat64(x) })
	case 12:
		x := zzPtr[time.Time](isNil)
		zzSize(func(w Writer) { w.WriteNillableTime(x) })
	case 13:
		x := zzPtr[string](isNil)
		zzSize(func(w Writer) { w.WriteNillableString(x) })
	}
	zz.Reach("end")
}

func zzMapOf[K comparable](n int) map[K]interface{} {
	m := map[K]interface{}{}
	if n > 0 {
		m[zz.Any[K]("k")] = zz.Bool()
	}
	return m
}

// zzAny is each kind of value WriteAny takes.
func zzAny(k int) any {
	switch k {
	case 0:
		return nil
	case 1:
		return zz.Any[int]("x")
	case 2:
		return zz.Any[int8]("x")
	case 3:
		return zz.Any[int16]("x")
	case 4:
		return zz.Any[int32]("x")
	case 5:
		return zz.Any[int64]("x")
	case 6:
		return zz.Any[uint]("x")
	case 7:
		return zz.Any[uint8]("x")
	case 8:
		return zz.Any[uint16]("x")
	case 9:
		return zz.Any[uint32]("x")
	case 10:
		return zz.Any[uint64]("x")
	case 11:
		return zz.Bool()
	case 12:
		return zz.Any[float32]("x")
	case 13:
		return zz.Any[float64]("x")
	case 14:
		return zz.Str("x")
	case 15:
		return zz.Any[time.Time]("x")
	}
	return zz.Bytes("x")
}

const zzKinds = 17

func zzScenario_C01_any() {
	x := zzAny(zz.Choice(zzKinds))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_string() {
	var x any = zzOf[string](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_time() {
	var x any = zzOf[time.Time](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_bool() {
	var x any = zzOf[bool](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_int() {
	var x any = zzOf[int](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_int8() {
	var x any = zzOf[int8](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_int16() {
	var x any = zzOf[int16](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_int32() {
	var x any = zzOf[int32](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_int64() {
	var x any = zzOf[int64](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_uint() {
	var x any = zzOf[uint](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_uint16() {
	var x any = zzOf[uint16](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_uint32() {
	var x any = zzOf[uint32](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_uint64() {
	var x any = zzOf[uint64](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_slice_any() {
	var x any
	switch zz.Choice(4) {
	case 0:
		x = []interface{}{}
	case 1:
		x = []interface{}{nil}
	case 2:
		x = []interface{}{zz.Any[int16]("x"), zz.Any[float64]("f")}
	case 3:
		x = []interface{}{[]interface{}{zz.Any[uint16]("x")}}
	}
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_string_string() {
	m := map[string]string{}
	if zz.Choice(2) > 0 {
		m[zz.Str("k")] = zz.Str("v")
	}
	zzSize(func(w Writer) { w.WriteAny(m) })
	zz.Reach("end")
}

func zzScenario_C01_map_any_any() {
	m := map[interface{}]interface{}{}
	if zz.Choice(2) > 0 {
		m[zz.Any[int8]("k")] = zz.Any[uint8]("v")
	}
	zzSize(func(w Writer) { w.WriteAny(m) })
	zz.Reach("end")
}

func zzScenario_C01_map_string() {
	var x any = zzMapOf[string](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_int() {
	var x any = zzMapOf[int](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_int8() {
	var x any = zzMapOf[int8](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_int16() {
	var x any = zzMapOf[int16](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_int32() {
	var x any = zzMapOf[int32](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_int64() {
	var x any = zzMapOf[int64](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_uint() {
	var x any = zzMapOf[uint](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_uint8() {
	var x any = zzMapOf[uint8](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_uint16() {
	var x any = zzMapOf[uint16](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_uint32() {
	var x any = zzMapOf[uint32](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

func zzScenario_C01_map_uint64() {
	var x any = zzMapOf[uint64](zz.Choice(2))
	zzSize(func(w Writer) { w.WriteAny(x) })
	zz.Reach("end")
}

// A value of a type that cannot be encoded is an error.
func zzScenario_C01_unsupported() {
	x := struct{ a, b int }{1, 2}
	e := NewEncoder(make([]byte, 64))
	e.WriteAny(x)
	zz.Assert(e.Err() != nil, "the encoder drops a value it cannot encode without an error")
	zz.Reach("end")
}
