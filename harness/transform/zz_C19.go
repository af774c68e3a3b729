package transform

import (
	"time"

	_ "github.com/nanobus/iota/go/internal/zzstd" // models of time
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
)

// zzBack encodes a value and decodes it.
func zzBack[T any](enc func(T) (payload.Payload, error), dec func(payload.Payload) (T, error), v T) T {
	p, err := enc(v)
	zz.Assert(err == nil && p != nil, "a value is not encoded")
	got, err := dec(p)
	zz.Assert(err == nil, "an encoded value is not decoded")
	return got
}

func zzValue[T comparable](t Transform[T]) {
	v := zz.Any[T]("value")
	zz.Assert(zzBack(t.Encode, t.Decode, v) == v, "a value is decoded as another one")
	zz.Reach("end")
}

func zzScenario_C19_Int()    { zzValue(Int) }
func zzScenario_C19_Int64()  { zzValue(Int64) }
func zzScenario_C19_Int32()  { zzValue(Int32) }
func zzScenario_C19_Int16()  { zzValue(Int16) }
func zzScenario_C19_Int8()   { zzValue(Int8) }
func zzScenario_C19_Uint()   { zzValue(Uint) }
func zzScenario_C19_Uint64() { zzValue(Uint64) }
func zzScenario_C19_Uint32() { zzValue(Uint32) }
func zzScenario_C19_Uint16() { zzValue(Uint16) }
func zzScenario_C19_Uint8()  { zzValue(Uint8) }
func zzScenario_C19_Bool()   { zzValue(Bool) }
func zzScenario_C19_Void()   { zzValue(Void) }

func zzScenario_C19_Float64() {
	v := zz.Any[float64]("value")
	zz.Assert(zz.Same(zzBack(Float64.Encode, Float64.Decode, v), v), "a value is decoded as another one")
	zz.Reach("end")
}

func zzScenario_C19_Float32() {
	v := zz.Any[float32]("value")
	zz.Assert(zz.Same(zzBack(Float32.Encode, Float32.Decode, v), v), "a value is decoded as another one")
	zz.Reach("end")
}

func zzText() string {
	s := zz.Str("value")
	zz.Assume(len(s) < 1<<30)
	return s
}

func zzScenario_C19_String() {
	v := zzText()
	zz.Assert(zz.Same(zzBack(String.Encode, String.Decode, v), v), "a value is decoded as another one")
	zz.Reach("end")
}

func zzScenario_C19_Bytes() {
	v := zz.Bytes("value")
	zz.Assume(len(v) < 1<<30)
	got := zzBack(Bytes.Encode, Bytes.Decode, v)
	zz.Assert(len(got) == len(v) && (len(v) == 0 || zz.Same(got, v)), "a value is decoded as another one")
	zz.Reach("end")
}

func zzScenario_C19_Time() {
	v := zz.Any[time.Time]("value")
	zz.Assert(zzBack(Time.Encode, Time.Decode, v).Equal(v), "a value is decoded as another one")
	zz.Reach("end")
}

type (
	zzI32 int32
	zzI64 int64
	zzU64 uint64
	zzStr string
)

func zzScenario_C19_named() {
	switch zz.Choice(4) {
	case 0:
		v := zz.Any[zzI32]("value")
		zz.Assert(zzBack(Int32Encode[zzI32], Int32Decode[zzI32], v) == v, "a value is decoded as another one")
	case 1:
		v := zz.Any[zzI64]("value")
		zz.Assert(zzBack(Int64Encode[zzI64], Int64Decode[zzI64], v) == v, "a value is decoded as another one")
	case 2:
		v := zz.Any[zzU64]("value")
		zz.Assert(zzBack(Uint64Encode[zzU64], Uint64Decode[zzU64], v) == v, "a value is decoded as another one")
	case 3:
		v := zzStr(zzText())
		zz.Assert(zz.Same(zzBack(StringEncode[zzStr], StringDecode[zzStr], v), v), "a value is decoded as another one")
	}
	zz.Reach("end")
}

// zzItem is a value with a codec, which may fail.
type zzItem struct {
	n uint16
	s string
	b bool
}

var (
	zzCalls  int // calls of the codec so far
	zzFailAt int // the one that fails
	zzFails  error
)

func (i *zzItem) Encode(w msgpack.Writer) error {
	zzCalls++
	if zzCalls == zzFailAt {
		return zzFails
	}
	w.WriteUint16(i.n)
	w.WriteString(i.s)
	w.WriteBool(i.b)
	return nil
}

func (i *zzItem) Decode(r msgpack.Reader) (err error) {
	zzCalls++
	if zzCalls == zzFailAt {
		return zzFails
	}
	if i.n, err = r.ReadUint16(); err != nil {
		return err
	}
	if i.s, err = r.ReadString(); err != nil {
		return err
	}
	i.b, err = r.ReadBool()
	return err
}

func zzAnyItem() zzItem {
	v := zzItem{zz.Any[uint16]("n"), zzText(), zz.Choice(2) == 1}
	zz.Assume(len(v.s) < 30)
	return v
}

func zzScenario_C19_codec() {
	v := zzAnyItem()
	zz.Assert(zz.Same(zzBack(MsgPackEncode[zzItem], MsgPackDecode[zzItem], v), v), "a value is decoded as another one")
	p, err := CodecEncode(&v)
	zz.Assert(err == nil, "a value is not encoded")
	var got zzItem
	zz.Assert(CodecDecode(p, &got) == nil && zz.Same(got, v), "a value is decoded as another one")
	zz.Reach("end")
}

func zzScenario_C19_slice() {
	n := zz.Choice(3)
	var v []zzItem
	for k := 0; k < n; k++ {
		v = append(v, zzAnyItem())
	}
	got := zzBack(SliceEncode[zzItem], SliceDecode[zzItem], v)
	zz.Assert(len(got) == n, "as many items are not decoded as were encoded")
	for k := range v {
		zz.Assert(zz.Same(got[k], v[k]), "an item is decoded as another one")
	}
	zz.Reach("end")
}

// A codec that fails is reported.
func zzScenario_C19_fails() {
	zzFails = zz.NonNil[error]("failure")
	a, b := zzAnyItem(), zzAnyItem()
	var err error
	switch zz.Choice(6) {
	case 0:
		zzFailAt = 1 + zz.Choice(2)
		_, err = MsgPackEncode(a)
	case 1:
		zzFailAt = 1 + zz.Choice(2)
		_, err = CodecEncode(&a)
	case 2:
		zzFailAt = 1 + zz.Choice(4)
		_, err = SliceEncode([]zzItem{a, b})
	case 3:
		p, e := MsgPackEncode(a)
		zz.Assert(e == nil, "a value is not encoded")
		zzFailAt = zzCalls + 1
		_, err = MsgPackDecode[zzItem](p)
	case 4:
		p, e := MsgPackEncode(a)
		zz.Assert(e == nil, "a value is not encoded")
		zzFailAt = zzCalls + 1
		err = CodecDecode(p, &b)
	case 5:
		p, e := SliceEncode([]zzItem{a, b})
		zz.Assert(e == nil, "a value is not encoded")
		zzFailAt = zzCalls + 1 + zz.Choice(2)
		_, err = SliceDecode[zzItem](p)
	}
	zz.Assert(err == zzFails, "the failure of a codec is not reported")
	zz.Reach("end")
}

// zzShort is a value whose codec writes more on the second pass.
type zzShort struct{ passes int }

func (s *zzShort) Encode(w msgpack.Writer) error {
	s.passes++
	if s.passes > 1 {
		w.WriteUint64(1 << 40)
	}
	return nil
}

func (s *zzShort) Decode(r msgpack.Reader) error { return nil }

func zzScenario_C19_short() {
	var err error
	switch zz.Choice(2) {
	case 0:
		_, err = CodecEncode(&zzShort{})
	case 1:
		_, err = MsgPackEncode(zzShort{})
	}
	zz.Assert(err != nil, "a value that does not fit is reported as encoded")
	zz.Reach("end")
}

// Bytes that are no value of the type are refused, as are those cut short.
func zzRefuse[T any](t Transform[T], first byte) {
	d := zz.Bytes("data")
	zz.Assume(len(d) > 0 && d[0] == first)
	_, err := t.Decode(payload.New(d))
	zz.Assert(err != nil, "bytes of another type are decoded")
	_, err = t.Decode(payload.New(nil))
	zz.Assert(err != nil, "no bytes are decoded")
}

func zzScenario_C19_refused() {
	const text, yes, number = 0xa1, 0xc3, 0x01
	switch zz.Choice(15) {
	case 0:
		zzRefuse(String, yes)
	case 1:
		zzRefuse(Int, yes)
	case 2:
		zzRefuse(Int64, text)
	case 3:
		zzRefuse(Int32, yes)
	case 4:
		zzRefuse(Int16, text)
	case 5:
		zzRefuse(Int8, yes)
	case 6:
		zzRefuse(Uint, text)
	case 7:
		zzRefuse(Uint64, yes)
	case 8:
		zzRefuse(Uint32, text)
	case 9:
		zzRefuse(Uint16, yes)
	case 10:
		zzRefuse(Uint8, text)
	case 11:
		zzRefuse(Float64, yes)
	case 12:
		zzRefuse(Float32, text)
	case 13:
		zzRefuse(Bool, number)
	case 14:
		zzRefuse(Time, yes)
	}
	zz.Reach("end")
}

// Any bytes give a value or an error, and no more memory than they take up.
func zzScenario_C19_any() {
	p := payload.New(zz.Bytes("data"))
	switch zz.Choice(7) {
	case 0:
		_, _ = String.Decode(p)
	case 1:
		_, _ = Bytes.Decode(p)
	case 2:
		_, _ = Time.Decode(p)
	case 3:
		_, _ = MsgPackDecode[zzItem](p)
	case 4:
		_, _ = Int.Decode(p)
	case 5:
		_, _ = StringDecode[zzStr](p)
	case 6:
		_, _ = Float64.Decode(p)
	}
	zz.Reach("end")
}

// zzNumber is a small value.
type zzNumber struct{ n bool }

func (i *zzNumber) Encode(w msgpack.Writer) error { return nil }

func (i *zzNumber) Decode(r msgpack.Reader) (err error) {
	i.n, err = r.ReadBool()
	return err
}

func zzScenario_C19_any_slice() {
	d := zz.Bytes("data")
	zz.AllocBound(len(d) + 100)
	v, err := SliceDecode[zzNumber](payload.New(d))
	zz.Assert(err == nil || v == nil, "items are given with an error")
	zz.Reach("end")
}

// An instance is found under the handle that was sent.
func zzScenario_C19_instance() {
	live := invoke.NewLiveInstances[*zzItem]()
	a, b := &zzItem{n: 1}, &zzItem{n: 2}
	enc := InterfaceEncode(live)
	pa, err := enc(a)
	zz.Assert(err == nil, "an instance is not encoded")
	pb, err := enc(b)
	zz.Assert(err == nil, "an instance is not encoded")
	ha, err := Uint64.Decode(pa)
	zz.Assert(err == nil, "a handle is not decoded")
	hb, err := Uint64.Decode(pb)
	zz.Assert(err == nil, "a handle is not decoded")
	x, ok := live.Get(ha)
	zz.Assert(ok && x == a, "an instance is not found under its handle")
	x, ok = live.Get(hb)
	zz.Assert(ok && x == b, "an instance is not found under its handle")
	zz.Reach("end")
}
