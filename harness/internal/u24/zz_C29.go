package u24

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

type zzSink struct{ b []byte }

func (s *zzSink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

func zzScenario_C29_roundtrip() {
	n := zz.Any[uint32]("n")
	v, err := NewUint24(n)
	if n <= 1<<24-1 {
		zz.Assert(err == nil, "a length in range is refused")
		zz.Assert(v.AsInt() == int(n), "a length is changed")
		b := v.Bytes()
		zz.Assert(len(b) == 3 && b[0] == byte(n>>16) && b[1] == byte(n>>8) && b[2] == byte(n), "a length is not big endian")
		zz.Assert(ReadUint24ToInt(b) == int(n), "a length is read differently than written")
		zz.Assert(NewUint24Bytes(b) == v, "a length is read differently than written")
	} else {
		zz.Assert(err != nil && IsExceedMaximumUint24Error(err), "a length out of range is accepted")
	}
	zz.Reach("end")
}

func zzScenario_C29_write() {
	n := zz.Any[uint32]("n")
	var s zzSink
	err := WriteUint24(&s, n)
	if n <= 1<<24-1 {
		zz.Assert(err == nil && len(s.b) == 3 && ReadUint24ToInt(s.b) == int(n), "a length is written differently than read")
	} else {
		zz.Assert(err != nil && len(s.b) == 0, "a length out of range is written")
	}
	zz.Reach("end")
}

func zzScenario_C29_any() {
	b := zz.BytesN("b", 3)
	n := ReadUint24ToInt(b)
	zz.Assert(n >= 0 && n < 1<<24, "a length is out of range")
	zz.Assert(n == NewUint24Bytes(b).AsInt(), "two ways to read a length differ")
	v := MustNewUint24(uint32(n))
	zz.Assert(zz.Same(v.Bytes(), b), "a length is written differently than read")
	zz.Reach("end")
}
