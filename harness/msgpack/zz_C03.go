package msgpack

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzContract_C03_Decoder_ReadAny stands for the nested values of ReadAny: they
// move the decoder forward within the input or fail, which every scenario
// below decides for the outermost value.
func zzContract_C03_Decoder_ReadAny(d *Decoder) (any, error) {
	if !zzJoinAdvance(d) {
		return nil, ErrRange
	}
	switch zz.Choice(6) {
	case 0:
		return nil, nil
	case 1:
		return zz.Any[int64]("v"), nil
	case 2:
		return zz.Str("v"), nil
	case 3:
		return zz.Bytes("v"), nil
	case 4:
		return []any{}, nil
	}
	return map[any]any{}, nil
}

// zzJoinAdvance moves the decoder forward within the input or fails.
func zzJoinAdvance(d *Decoder) bool {
	_, err := d.ReadByteArray()
	return err == nil
}

// zzMalformedAt: reading once from anywhere in any input.
func zzMalformedAt(read func(d *Decoder)) {
	buf := zz.Bytes("buf")
	zz.Assume(uint64(len(buf)) < 1<<31)
	zz.AllocBound(len(buf))
	d := NewDecoder(buf)
	if zz.Choice(2) == 1 && !zzJoinAdvance(&d) {
		return
	}
	read(&d)
	d.ReadUint8()
	zz.Reach("end")
}

// zzMalformed: reading twice from any input neither panics nor allocates more
// than the input has bytes, and leaves the decoder usable.
func zzMalformed(read func(d *Decoder)) {
	buf := zz.Bytes("buf")
	zz.Assume(uint64(len(buf)) < 1<<31)
	zz.AllocBound(len(buf))
	d := NewDecoder(buf)
	read(&d)
	read(&d)
	d.ReadUint8()
	zz.Reach("end")
}

func zzScenario_C03_ReadBool() {
	zzMalformed(func(d *Decoder) { d.ReadBool() })
}

func zzScenario_C03_ReadNillableBool() {
	zzMalformed(func(d *Decoder) { d.ReadNillableBool() })
}

func zzScenario_C03_ReadInt8() {
	zzMalformed(func(d *Decoder) { d.ReadInt8() })
}

func zzScenario_C03_ReadNillableInt8() {
	zzMalformed(func(d *Decoder) { d.ReadNillableInt8() })
}

func zzScenario_C03_ReadInt16() {
	zzMalformed(func(d *Decoder) { d.ReadInt16() })
}

func zzScenario_C03_ReadNillableInt16() {
	zzMalformed(func(d *Decoder) { d.ReadNillableInt16() })
}

func zzScenario_C03_ReadInt32() {
	zzMalformed(func(d *Decoder) { d.ReadInt32() })
}

func zzScenario_C03_ReadNillableInt32() {
	zzMalformed(func(d *Decoder) { d.ReadNillableInt32() })
}

func zzScenario_C03_ReadInt64() {
	zzMalformed(func(d *Decoder) { d.ReadInt64() })
}

func zzScenario_C03_ReadNillableInt64() {
	zzMalformed(func(d *Decoder) { d.ReadNillableInt64() })
}

func zzScenario_C03_ReadUint8() {
	zzMalformed(func(d *Decoder) { d.ReadUint8() })
}

func zzScenario_C03_ReadNillableUint8() {
	zzMalformed(func(d *Decoder) { d.ReadNillableUint8() })
}

func zzScenario_C03_ReadUint16() {
	zzMalformed(func(d *Decoder) { d.ReadUint16() })
}

func zzScenario_C03_ReadNillableUint16() {
	zzMalformed(func(d *Decoder) { d.ReadNillableUint16() })
}

func zzScenario_C03_ReadUint32() {
	zzMalformed(func(d *Decoder) { d.ReadUint32() })
}

func zzScenario_C03_ReadNillableUint32() {
	zzMalformed(func(d *Decoder) { d.ReadNillableUint32() })
}

func zzScenario_C03_ReadUint64() {
	zzMalformed(func(d *Decoder) { d.ReadUint64() })
}

func zzScenario_C03_ReadNillableUint64() {
	zzMalformed(func(d *Decoder) { d.ReadNillableUint64() })
}

func zzScenario_C03_ReadFloat32() {
	zzMalformed(func(d *Decoder) { d.ReadFloat32() })
}

func zzScenario_C03_ReadNillableFloat32() {
	zzMalformed(func(d *Decoder) { d.ReadNillableFloat32() })
}

func zzScenario_C03_ReadFloat64() {
	zzMalformed(func(d *Decoder) { d.ReadFloat64() })
}

func zzScenario_C03_ReadNillableFloat64() {
	zzMalformed(func(d *Decoder) { d.ReadNillableFloat64() })
}

func zzScenario_C03_ReadTime() {
	zzMalformed(func(d *Decoder) { d.ReadTime() })
}

func zzScenario_C03_ReadNillableTime() {
	zzMalformed(func(d *Decoder) { d.ReadNillableTime() })
}

func zzScenario_C03_ReadString() {
	zzMalformed(func(d *Decoder) { d.ReadString() })
}

func zzScenario_C03_ReadNillableString() {
	zzMalformed(func(d *Decoder) { d.ReadNillableString() })
}

func zzScenario_C03_ReadByteArray() {
	zzMalformed(func(d *Decoder) { d.ReadByteArray() })
}

func zzScenario_C03_ReadNillableByteArray() {
	zzMalformed(func(d *Decoder) { d.ReadNillableByteArray() })
}

func zzScenario_C03_ReadArraySize() {
	zzMalformed(func(d *Decoder) { d.ReadArraySize() })
}

func zzScenario_C03_ReadMapSize() {
	zzMalformed(func(d *Decoder) { d.ReadMapSize() })
}

func zzScenario_C03_Skip() {
	zzMalformedAt(func(d *Decoder) { d.Skip() })
}

func zzScenario_C03_ReadAny() {
	zzMalformedAt(func(d *Decoder) { d.ReadAny() })
}

func zzScenario_C03_IsNextNil() {
	zzMalformed(func(d *Decoder) { d.IsNextNil() })
}
