package convert

import (
	"errors"
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

type (
	zzText  string
	zzFlag  bool
	zzSmall int16
	zzBytes []byte
)

var zzErr = errors.New("failed")

// zzErrOf is no error or one.
func zzErrOf() error {
	if zz.Choice(2) == 1 {
		return zzErr
	}
	return nil
}

func zzScenario_C27_format() {
	calls := 0
	text := zz.Str("text")
	f := Format(func(x *int) string { calls++; return text })
	zz.Assert(f(nil) == nil && calls == 0, "an absent value is formatted")
	x := zz.Any[int]("x")
	s := f(&x)
	zz.Assert(s != nil && calls == 1 && *s == text, "a value is not formatted")
	zz.Reach("end")
}

func zzScenario_C27_parse() {
	v, perr, derr := zz.Any[int64]("v"), zzErrOf(), zzErrOf()
	calls := 0
	f := Parse(func(s string) (int64, error) { calls++; return v, perr })
	got, err := f(zz.Str("s"), derr)
	if derr != nil {
		zz.Assert(err == derr && calls == 0, "a value that failed to decode is parsed")
	} else {
		zz.Assert(err == perr && (perr != nil || got == v), "parsing loses the value or its error")
	}
	zz.Reach("end")
}

func zzScenario_C27_nillable_parse() {
	v, perr, derr := zz.Any[int64]("v"), zzErrOf(), zzErrOf()
	s := zz.Str("s")
	in := &s
	if zz.Choice(2) == 1 {
		in = nil
	}
	calls := 0
	f := NillableParse(func(s string) (int64, error) { calls++; return v, perr })
	got, err := f(in, derr)
	switch {
	case derr != nil:
		zz.Assert(err == derr && got == nil && calls == 0, "a value that failed to decode is parsed")
	case in == nil:
		zz.Assert(err == nil && got == nil && calls == 0, "an absent value is parsed")
	case perr != nil:
		zz.Assert(err == perr, "a parse error is lost")
	default:
		zz.Assert(err == nil && got != nil && *got == v, "parsing loses the value")
	}
	zz.Reach("end")
}

func zzScenario_C27_time() {
	derr := zzErrOf()
	_, err := StringToTime(zz.Str("s"), derr)
	zz.Assert(derr == nil || err == derr, "a decode error is lost")
	p, err := StringToTimePtr(nil, derr)
	zz.Assert(p == nil && err == derr, "an absent time is parsed or a decode error is lost")
	s := zz.Str("s")
	p, err = StringToTimePtr(&s, derr)
	zz.Assert(derr == nil || err == derr, "a decode error is lost")
	zz.Assert(err != nil || p != nil, "a time is lost")
	zz.Assert(TimeToStringPtr(nil) == nil, "an absent time is formatted")
	t := zz.Any[time.Time]("t")
	zz.Assert(TimeToStringPtr(&t) != nil, "a time is lost")
	zz.Reach("end")
}

func zzScenario_C27_string() {
	derr := zzErrOf()
	s := zz.Str("s")
	x, err := String[zzText](s, derr)
	zz.Assert(err == derr && string(x) == s, "a string or its error is lost")
	p, err := NillableString[zzText](nil, derr)
	zz.Assert(p == nil && err == derr, "an absent string becomes present or its error is lost")
	p, err = NillableString[zzText](&s, derr)
	zz.Assert(err == derr && (err != nil || p != nil && string(*p) == s), "a string or its error is lost")
	zz.Reach("end")
}

func zzScenario_C27_bool() {
	derr := zzErrOf()
	s := zz.Bool()
	x, err := Bool[zzFlag](s, derr)
	zz.Assert(err == derr && bool(x) == s, "a boolean or its error is lost")
	p, err := NillableBool[zzFlag](nil, derr)
	zz.Assert(p == nil && err == derr, "an absent boolean becomes present or its error is lost")
	p, err = NillableBool[zzFlag](&s, derr)
	zz.Assert(err == derr && (err != nil || p != nil && bool(*p) == s), "a boolean or its error is lost")
	zz.Reach("end")
}

func zzScenario_C27_numeric() {
	derr := zzErrOf()
	s := zz.Any[int16]("s")
	x, err := Numeric[zzSmall](s, derr)
	zz.Assert(err == derr && int16(x) == s, "a number or its error is lost")
	y, err := Numeric[int64](s, derr)
	zz.Assert(err == derr && y == int64(s), "a number or its error is lost")
	p, err := NillableNumeric[zzSmall, int16](nil, derr)
	zz.Assert(p == nil && err == derr, "an absent number becomes present or its error is lost")
	p, err = NillableNumeric[zzSmall](&s, derr)
	zz.Assert(err == derr && (err != nil || p != nil && int16(*p) == s), "a number or its error is lost")
	zz.Reach("end")
}

func zzScenario_C27_bytes() {
	derr := zzErrOf()
	b := zz.Bytes("b")
	x, err := ByteArray[zzBytes](b, derr)
	zz.Assert(err == derr && zz.Same([]byte(x), b), "bytes or their error are lost")
	z, err := ByteArray[zzBytes]([]byte(nil), derr)
	zz.Assert(err == derr && z == nil, "absent bytes become present")
	zz.Reach("end")
}
