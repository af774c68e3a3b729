package msgpack

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzScenario_C04_int8_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteInt64(x) }))
	y, err := d.ReadInt8()
	if x >= -1<<7 && x < 1<<7 {
		zz.Assert(err == nil && y == int8(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_int8_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableInt64(&x) }))
	y, err := d.ReadNillableInt8()
	if x >= -1<<7 && x < 1<<7 {
		zz.Assert(err == nil && y != nil && *y == int8(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_int8_of_bytes() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadInt8()
	e := NewDecoder(buf)
	z, werr := e.ReadInt64()
	if err == nil {
		zz.Assert(werr == nil && int64(y) == z, "the same bytes read in two widths differ")
	} else if werr == nil {
		zz.Assert(int64(int8(z)) != z, "an integer in range is refused")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint8_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteInt64(x) }))
	y, err := d.ReadUint8()
	if x >= 0 && x < 1<<8 {
		zz.Assert(err == nil && y == uint8(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_uint8_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableInt64(&x) }))
	y, err := d.ReadNillableUint8()
	if x >= 0 && x < 1<<8 {
		zz.Assert(err == nil && y != nil && *y == uint8(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint8_of_uint64() {
	x := zz.Any[uint64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteUint64(x) }))
	y, err := d.ReadUint8()
	if x < 1<<8 {
		zz.Assert(err == nil && y == uint8(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_uint8_of_uint64() {
	x := zz.Any[uint64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableUint64(&x) }))
	y, err := d.ReadNillableUint8()
	if x < 1<<8 {
		zz.Assert(err == nil && y != nil && *y == uint8(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint8_of_bytes() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadUint8()
	e := NewDecoder(buf)
	z, werr := e.ReadUint64()
	if err == nil {
		zz.Assert(werr == nil && uint64(y) == z, "the same bytes read in two widths differ")
	} else if werr == nil {
		zz.Assert(uint64(uint8(z)) != z, "an integer in range is refused")
	}
	zz.Reach("end")
}

func zzScenario_C04_int16_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteInt64(x) }))
	y, err := d.ReadInt16()
	if x >= -1<<15 && x < 1<<15 {
		zz.Assert(err == nil && y == int16(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_int16_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableInt64(&x) }))
	y, err := d.ReadNillableInt16()
	if x >= -1<<15 && x < 1<<15 {
		zz.Assert(err == nil && y != nil && *y == int16(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_int16_of_bytes() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadInt16()
	e := NewDecoder(buf)
	z, werr := e.ReadInt64()
	if err == nil {
		zz.Assert(werr == nil && int64(y) == z, "the same bytes read in two widths differ")
	} else if werr == nil {
		zz.Assert(int64(int16(z)) != z, "an integer in range is refused")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint16_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteInt64(x) }))
	y, err := d.ReadUint16()
	if x >= 0 && x < 1<<16 {
		zz.Assert(err == nil && y == uint16(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_uint16_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableInt64(&x) }))
	y, err := d.ReadNillableUint16()
	if x >= 0 && x < 1<<16 {
		zz.Assert(err == nil && y != nil && *y == uint16(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint16_of_uint64() {
	x := zz.Any[uint64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteUint64(x) }))
	y, err := d.ReadUint16()
	if x < 1<<16 {
		zz.Assert(err == nil && y == uint16(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_uint16_of_uint64() {
	x := zz.Any[uint64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableUint64(&x) }))
	y, err := d.ReadNillableUint16()
	if x < 1<<16 {
		zz.Assert(err == nil && y != nil && *y == uint16(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint16_of_bytes() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadUint16()
	e := NewDecoder(buf)
	z, werr := e.ReadUint64()
	if err == nil {
		zz.Assert(werr == nil && uint64(y) == z, "the same bytes read in two widths differ")
	} else if werr == nil {
		zz.Assert(uint64(uint16(z)) != z, "an integer in range is refused")
	}
	zz.Reach("end")
}

func zzScenario_C04_int32_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteInt64(x) }))
	y, err := d.ReadInt32()
	if x >= -1<<31 && x < 1<<31 {
		zz.Assert(err == nil && y == int32(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_int32_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableInt64(&x) }))
	y, err := d.ReadNillableInt32()
	if x >= -1<<31 && x < 1<<31 {
		zz.Assert(err == nil && y != nil && *y == int32(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_int32_of_bytes() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadInt32()
	e := NewDecoder(buf)
	z, werr := e.ReadInt64()
	if err == nil {
		zz.Assert(werr == nil && int64(y) == z, "the same bytes read in two widths differ")
	} else if werr == nil {
		zz.Assert(int64(int32(z)) != z, "an integer in range is refused")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint32_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteInt64(x) }))
	y, err := d.ReadUint32()
	if x >= 0 && x < 1<<32 {
		zz.Assert(err == nil && y == uint32(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_uint32_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableInt64(&x) }))
	y, err := d.ReadNillableUint32()
	if x >= 0 && x < 1<<32 {
		zz.Assert(err == nil && y != nil && *y == uint32(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint32_of_uint64() {
	x := zz.Any[uint64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteUint64(x) }))
	y, err := d.ReadUint32()
	if x < 1<<32 {
		zz.Assert(err == nil && y == uint32(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_uint32_of_uint64() {
	x := zz.Any[uint64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableUint64(&x) }))
	y, err := d.ReadNillableUint32()
	if x < 1<<32 {
		zz.Assert(err == nil && y != nil && *y == uint32(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint32_of_bytes() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadUint32()
	e := NewDecoder(buf)
	z, werr := e.ReadUint64()
	if err == nil {
		zz.Assert(werr == nil && uint64(y) == z, "the same bytes read in two widths differ")
	} else if werr == nil {
		zz.Assert(uint64(uint32(z)) != z, "an integer in range is refused")
	}
	zz.Reach("end")
}

func zzScenario_C04_uint64_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteInt64(x) }))
	y, err := d.ReadUint64()
	if x >= 0 {
		zz.Assert(err == nil && y == uint64(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

func zzScenario_C04_nillable_uint64_of_int64() {
	x := zz.Any[int64]("x")
	d := NewDecoder(zzEnc(func(w Writer) { w.WriteNillableInt64(&x) }))
	y, err := d.ReadNillableUint64()
	if x >= 0 {
		zz.Assert(err == nil && y != nil && *y == uint64(x), "an integer in range is not read as itself")
	} else {
		zz.Assert(err != nil, "an integer out of range is read without an error")
	}
	zz.Reach("end")
}

// zzSigned is the value of a signed format, the lead byte being known.
func zzScenario_C04_formats_int() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadInt64()
	switch c := buf[0]; {
	case c < 0x80:
		zz.Assert(err == nil && y == int64(c), "a positive fixed integer is misread")
	case c >= 0xe0:
		zz.Assert(err == nil && y == int64(c)-256, "a negative fixed integer is misread")
	case c == 0xd0:
		zz.Assert(err == nil && y == int64(int8(buf[1])), "an int 8 is misread")
	case c == 0xd1:
		zz.Assert(err == nil && y == int64(int16(uint16(buf[1])<<8|uint16(buf[2]))), "an int 16 is misread")
	case c == 0xd2:
		zz.Assert(err == nil && y == int64(int32(uint32(buf[1])<<24|uint32(buf[2])<<16|uint32(buf[3])<<8|uint32(buf[4]))), "an int 32 is misread")
	case c == 0xd3:
		zz.Assert(err == nil && y == int64(uint64(buf[1])<<56|uint64(buf[2])<<48|uint64(buf[3])<<40|uint64(buf[4])<<32|uint64(buf[5])<<24|uint64(buf[6])<<16|uint64(buf[7])<<8|uint64(buf[8])), "an int 64 is misread")
	case c < 0xcc || c > 0xcf:
		zz.Assert(err != nil, "what is not an integer is read as one")
	}
	zz.Reach("end")
}

func zzScenario_C04_formats_uint() {
	buf := zz.BytesN("buf", 9)
	d := NewDecoder(buf)
	y, err := d.ReadUint64()
	switch c := buf[0]; {
	case c < 0x80:
		zz.Assert(err == nil && y == uint64(c), "a positive fixed integer is misread")
	case c >= 0xe0:
		zz.Assert(err != nil, "a negative integer is read as an unsigned one")
	case c == 0xcc:
		zz.Assert(err == nil && y == uint64(buf[1]), "a uint 8 is misread")
	case c == 0xcd:
		zz.Assert(err == nil && y == uint64(uint16(buf[1])<<8|uint16(buf[2])), "a uint 16 is misread")
	case c == 0xce:
		zz.Assert(err == nil && y == uint64(uint32(buf[1])<<24|uint32(buf[2])<<16|uint32(buf[3])<<8|uint32(buf[4])), "a uint 32 is misread")
	case c == 0xcf:
		zz.Assert(err == nil && y == uint64(buf[1])<<56|uint64(buf[2])<<48|uint64(buf[3])<<40|uint64(buf[4])<<32|uint64(buf[5])<<24|uint64(buf[6])<<16|uint64(buf[7])<<8|uint64(buf[8]), "a uint 64 is misread")
	case c < 0xd0 || c > 0xd3:
		zz.Assert(err != nil, "what is not an integer is read as one")
	}
	zz.Reach("end")
}

func zzScenario_C04_formats_uint_signed() {
	buf := zz.BytesN("buf", 9)
	zz.Assume(buf[0] == byte(0xd0+zz.Choice(4)))
	neg := buf[1] >= 0x80
	d := NewDecoder(buf)
	y, err := d.ReadUint64()
	e := NewDecoder(buf)
	z, serr := e.ReadInt64()
	zz.Assert(serr == nil, "an integer is refused")
	if neg {
		zz.Assert(err != nil, "a negative integer is read as an unsigned one")
	} else {
		zz.Assert(err == nil && y == uint64(z), "a positive integer is refused or misread")
	}
	zz.Reach("end")
}
