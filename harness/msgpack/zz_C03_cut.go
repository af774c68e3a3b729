package msgpack

import (
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

var _ time.Time

// zzCut: reading any proper prefix of an encoding fails.
func zzCut(write func(Writer), read func(d *Decoder) error) {
	buf := zzEnc(write)
	n := zz.Int(0, len(buf)-2)
	d := NewDecoder(buf[:n:n])
	err := read(&d)
	zz.Assert(err != nil, "a value that is cut short is read without an error")
	zz.Reach("end")
}

func zzScenario_C03_cut_Bool() {
	x := zz.Any[bool]("x")
	zzCut(func(w Writer) { w.WriteBool(x) }, func(d *Decoder) error { _, err := d.ReadBool(); return err })
}

func zzScenario_C03_cut_NillableBool() {
	x := zz.Any[bool]("x")
	zzCut(func(w Writer) { w.WriteNillableBool(&x) }, func(d *Decoder) error { _, err := d.ReadNillableBool(); return err })
}

func zzScenario_C03_cut_skip_Bool() {
	x := zz.Any[bool]("x")
	zzCut(func(w Writer) { w.WriteBool(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Bool() {
	x := zz.Any[bool]("x")
	zzCut(func(w Writer) { w.WriteBool(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Int8() {
	x := zz.Any[int8]("x")
	zzCut(func(w Writer) { w.WriteInt8(x) }, func(d *Decoder) error { _, err := d.ReadInt8(); return err })
}

func zzScenario_C03_cut_NillableInt8() {
	x := zz.Any[int8]("x")
	zzCut(func(w Writer) { w.WriteNillableInt8(&x) }, func(d *Decoder) error { _, err := d.ReadNillableInt8(); return err })
}

func zzScenario_C03_cut_skip_Int8() {
	x := zz.Any[int8]("x")
	zzCut(func(w Writer) { w.WriteInt8(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Int8() {
	x := zz.Any[int8]("x")
	zzCut(func(w Writer) { w.WriteInt8(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Int16() {
	x := zz.Any[int16]("x")
	zzCut(func(w Writer) { w.WriteInt16(x) }, func(d *Decoder) error { _, err := d.ReadInt16(); return err })
}

func zzScenario_C03_cut_NillableInt16() {
	x := zz.Any[int16]("x")
	zzCut(func(w Writer) { w.WriteNillableInt16(&x) }, func(d *Decoder) error { _, err := d.ReadNillableInt16(); return err })
}

func zzScenario_C03_cut_skip_Int16() {
	x := zz.Any[int16]("x")
	zzCut(func(w Writer) { w.WriteInt16(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Int16() {
	x := zz.Any[int16]("x")
	zzCut(func(w Writer) { w.WriteInt16(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Int32() {
	x := zz.Any[int32]("x")
	zzCut(func(w Writer) { w.WriteInt32(x) }, func(d *Decoder) error { _, err := d.ReadInt32(); return err })
}

func zzScenario_C03_cut_NillableInt32() {
	x := zz.Any[int32]("x")
	zzCut(func(w Writer) { w.WriteNillableInt32(&x) }, func(d *Decoder) error { _, err := d.ReadNillableInt32(); return err })
}

func zzScenario_C03_cut_skip_Int32() {
	x := zz.Any[int32]("x")
	zzCut(func(w Writer) { w.WriteInt32(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Int32() {
	x := zz.Any[int32]("x")
	zzCut(func(w Writer) { w.WriteInt32(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Int64() {
	x := zz.Any[int64]("x")
	zzCut(func(w Writer) { w.WriteInt64(x) }, func(d *Decoder) error { _, err := d.ReadInt64(); return err })
}

func zzScenario_C03_cut_NillableInt64() {
	x := zz.Any[int64]("x")
	zzCut(func(w Writer) { w.WriteNillableInt64(&x) }, func(d *Decoder) error { _, err := d.ReadNillableInt64(); return err })
}

func zzScenario_C03_cut_skip_Int64() {
	x := zz.Any[int64]("x")
	zzCut(func(w Writer) { w.WriteInt64(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Int64() {
	x := zz.Any[int64]("x")
	zzCut(func(w Writer) { w.WriteInt64(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Uint8() {
	x := zz.Any[uint8]("x")
	zzCut(func(w Writer) { w.WriteUint8(x) }, func(d *Decoder) error { _, err := d.ReadUint8(); return err })
}

func zzScenario_C03_cut_NillableUint8() {
	x := zz.Any[uint8]("x")
	zzCut(func(w Writer) { w.WriteNillableUint8(&x) }, func(d *Decoder) error { _, err := d.ReadNillableUint8(); return err })
}

func zzScenario_C03_cut_skip_Uint8() {
	x := zz.Any[uint8]("x")
	zzCut(func(w Writer) { w.WriteUint8(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Uint8() {
	x := zz.Any[uint8]("x")
	zzCut(func(w Writer) { w.WriteUint8(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Uint16() {
	x := zz.Any[uint16]("x")
	zzCut(func(w Writer) { w.WriteUint16(x) }, func(d *Decoder) error { _, err := d.ReadUint16(); return err })
}

func zzScenario_C03_cut_NillableUint16() {
	x := zz.Any[uint16]("x")
	zzCut(func(w Writer) { w.WriteNillableUint16(&x) }, func(d *Decoder) error { _, err := d.ReadNillableUint16(); return err })
}

func zzScenario_C03_cut_skip_Uint16() {
	x := zz.Any[uint16]("x")
	zzCut(func(w Writer) { w.WriteUint16(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Uint16() {
	x := zz.Any[uint16]("x")
	zzCut(func(w Writer) { w.WriteUint16(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Uint32() {
	x := zz.Any[uint32]("x")
	zzCut(func(w Writer) { w.WriteUint32(x) }, func(d *Decoder) error { _, err := d.ReadUint32(); return err })
}

func zzScenario_C03_cut_NillableUint32() {
	x := zz.Any[uint32]("x")
	zzCut(func(w Writer) { w.WriteNillableUint32(&x) }, func(d *Decoder) error { _, err := d.ReadNillableUint32(); return err })
}

func zzScenario_C03_cut_skip_Uint32() {
	x := zz.Any[uint32]("x")
	zzCut(func(w Writer) { w.WriteUint32(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Uint32() {
	x := zz.Any[uint32]("x")
	zzCut(func(w Writer) { w.WriteUint32(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Uint64() {
	x := zz.Any[uint64]("x")
	zzCut(func(w Writer) { w.WriteUint64(x) }, func(d *Decoder) error { _, err := d.ReadUint64(); return err })
}

func zzScenario_C03_cut_NillableUint64() {
	x := zz.Any[uint64]("x")
	zzCut(func(w Writer) { w.WriteNillableUint64(&x) }, func(d *Decoder) error { _, err := d.ReadNillableUint64(); return err })
}

func zzScenario_C03_cut_skip_Uint64() {
	x := zz.Any[uint64]("x")
	zzCut(func(w Writer) { w.WriteUint64(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Uint64() {
	x := zz.Any[uint64]("x")
	zzCut(func(w Writer) { w.WriteUint64(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Float32() {
	x := zz.Any[float32]("x")
	zzCut(func(w Writer) { w.WriteFloat32(x) }, func(d *Decoder) error { _, err := d.ReadFloat32(); return err })
}

func zzScenario_C03_cut_NillableFloat32() {
	x := zz.Any[float32]("x")
	zzCut(func(w Writer) { w.WriteNillableFloat32(&x) }, func(d *Decoder) error { _, err := d.ReadNillableFloat32(); return err })
}

func zzScenario_C03_cut_skip_Float32() {
	x := zz.Any[float32]("x")
	zzCut(func(w Writer) { w.WriteFloat32(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Float32() {
	x := zz.Any[float32]("x")
	zzCut(func(w Writer) { w.WriteFloat32(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Float64() {
	x := zz.Any[float64]("x")
	zzCut(func(w Writer) { w.WriteFloat64(x) }, func(d *Decoder) error { _, err := d.ReadFloat64(); return err })
}

func zzScenario_C03_cut_NillableFloat64() {
	x := zz.Any[float64]("x")
	zzCut(func(w Writer) { w.WriteNillableFloat64(&x) }, func(d *Decoder) error { _, err := d.ReadNillableFloat64(); return err })
}

func zzScenario_C03_cut_skip_Float64() {
	x := zz.Any[float64]("x")
	zzCut(func(w Writer) { w.WriteFloat64(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Float64() {
	x := zz.Any[float64]("x")
	zzCut(func(w Writer) { w.WriteFloat64(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Time() {
	x := zz.Any[time.Time]("x")
	zzCut(func(w Writer) { w.WriteTime(x) }, func(d *Decoder) error { _, err := d.ReadTime(); return err })
}

func zzScenario_C03_cut_NillableTime() {
	x := zz.Any[time.Time]("x")
	zzCut(func(w Writer) { w.WriteNillableTime(&x) }, func(d *Decoder) error { _, err := d.ReadNillableTime(); return err })
}

func zzScenario_C03_cut_skip_Time() {
	x := zz.Any[time.Time]("x")
	zzCut(func(w Writer) { w.WriteTime(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_Time() {
	x := zz.Any[time.Time]("x")
	zzCut(func(w Writer) { w.WriteTime(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_String() {
	x := zz.Str("x")
	zzCut(func(w Writer) { w.WriteString(x) }, func(d *Decoder) error { _, err := d.ReadString(); return err })
}

func zzScenario_C03_cut_NillableString() {
	x := zz.Str("x")
	zzCut(func(w Writer) { w.WriteNillableString(&x) }, func(d *Decoder) error { _, err := d.ReadNillableString(); return err })
}

func zzScenario_C03_cut_skip_String() {
	x := zz.Str("x")
	zzCut(func(w Writer) { w.WriteString(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_String() {
	x := zz.Str("x")
	zzCut(func(w Writer) { w.WriteString(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_ByteArray() {
	x := zz.Bytes("x")
	zzCut(func(w Writer) { w.WriteByteArray(x) }, func(d *Decoder) error { _, err := d.ReadByteArray(); return err })
}

func zzScenario_C03_cut_NillableByteArray() {
	x := zz.Bytes("x")
	zzCut(func(w Writer) { w.WriteNillableByteArray(x) }, func(d *Decoder) error { _, err := d.ReadNillableByteArray(); return err })
}

func zzScenario_C03_cut_skip_ByteArray() {
	x := zz.Bytes("x")
	zzCut(func(w Writer) { w.WriteByteArray(x) }, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_any_ByteArray() {
	x := zz.Bytes("x")
	zzCut(func(w Writer) { w.WriteByteArray(x) }, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_Array() {
	n := zz.Any[uint32]("n")
	zzCut(func(w Writer) { w.WriteArraySize(n) }, func(d *Decoder) error { _, err := d.ReadArraySize(); return err })
}

func zzScenario_C03_cut_Map() {
	n := zz.Any[uint32]("n")
	zzCut(func(w Writer) { w.WriteMapSize(n) }, func(d *Decoder) error { _, err := d.ReadMapSize(); return err })
}

func zzScenario_C03_cut_list() {
	a := zz.Any[uint16]("a")
	zzCut(func(w Writer) {
		w.WriteArraySize(2)
		w.WriteUint16(a)
		w.WriteString("ab")
	}, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_dict() {
	a := zz.Any[uint16]("a")
	zzCut(func(w Writer) {
		w.WriteMapSize(1)
		w.WriteString("k")
		w.WriteUint16(a)
	}, func(d *Decoder) error { return d.Skip() })
}

func zzScenario_C03_cut_anylist() {
	a := zz.Any[uint16]("a")
	zzCut(func(w Writer) {
		w.WriteArraySize(2)
		w.WriteUint16(a)
		w.WriteString("ab")
	}, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}

func zzScenario_C03_cut_anydict() {
	a := zz.Any[uint16]("a")
	zzCut(func(w Writer) {
		w.WriteMapSize(1)
		w.WriteString("k")
		w.WriteUint16(a)
	}, func(d *Decoder) error { _, err := d.ReadAny(); return err })
}
