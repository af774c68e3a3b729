package uuid

import (
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// The variant is told by the top bits of the ninth byte (RFC 4122, 4.1.1).
func zzScenario_C33_variant() {
	u := zzID()
	v := u.Variant()
	switch b := u[8]; {
	case b < 0x80:
		zz.Assert(v == Reserved, "an identifier of the reserved variant is taken for another")
	case b < 0xc0:
		zz.Assert(v == RFC4122, "an identifier of the RFC 4122 variant is taken for another")
	case b < 0xe0:
		zz.Assert(v == Microsoft, "an identifier of the Microsoft variant is taken for another")
	default:
		zz.Assert(v == Future, "an identifier of the future variant is taken for another")
	}
	zz.Reach("end")
}

// The version is the top half of the seventh byte (4.1.3).
func zzScenario_C33_version() {
	u := zzID()
	v := u.Version()
	zz.Assert(int(v) == int(u[6]>>4), "the version is not the top half of the seventh byte")
	zz.Reach("end")
}

// The time is spread over the first eight bytes, without the version (4.1.4).
func zzScenario_C33_time() {
	u := zzID()
	t := u.Time()
	var low, mid, high int64
	for i := 0; i < 4; i++ {
		low = low*256 + int64(u[i])
	}
	mid = int64(u[4])*256 + int64(u[5])
	high = int64(u[6]&15)*256 + int64(u[7])
	zz.Assert(int64(t) == high*(1<<48)+mid*(1<<32)+low, "the time of an identifier is not the one of its bytes")
	zz.Reach("end")
}

// The clock sequence is the ninth and tenth byte without the variant (4.1.5).
func zzScenario_C33_sequence() {
	u := zzID()
	zz.Assert(u.ClockSequence() == int(u[8]&63)*256+int(u[9]), "the clock sequence of an identifier is not the one of its bytes")
	zz.Reach("end")
}

// A time is that many tenths of microseconds after 15 October 1582.
func zzScenario_C33_unix() {
	n := zz.Any[int64]("t")
	if zz.Choice(2) == 0 {
		zz.Assume(n >= 12219292800*10000000 && n < 1<<60)
	} else {
		zz.Assume(n >= 0 && n < 12219292800*10000000)
	}
	sec, nsec := Time(n).UnixTime()
	zz.Assert(nsec > -1000000000 && nsec < 1000000000, "there are too many nanoseconds")
	// 141427 days
	zz.Assert(sec*10000000+nsec/100 == n-12219292800*10000000, "the Unix time is another time")
	zz.Reach("end")
}

// The clock sequence is what it was set to.
func zzScenario_C33_set() {
	timeNow = func() time.Time { return zz.Any[time.Time]("now") }
	old := zz.Choice(3) - 1
	if old >= 0 {
		SetClockSequence([]int{77, 0x2aaa, 0}[old])
		GetTime()
	}
	n := []int{0, 1, 78, 0x1f0f, 0x3fff, 0x4001, 0x7fffffff}[zz.Choice(7)]
	SetClockSequence(n)
	if zz.Choice(2) == 0 {
		zz.Assert(ClockSequence() == n&16383, "the clock sequence is not the one that was set")
	}
	_, s, err := GetTime() // even if the clock stands still
	zz.Assert(err == nil && int(s&16383) == n&16383 && s>>14 == 2, "a reading does not have the clock sequence that was set")
	zz.Assert(ClockSequence() == n&16383, "the clock sequence is not the one that was set")
	zz.Reach("end")
}

// The clock sequence is what it was set to, whatever it was before.
func zzScenario_C33_set_any() {
	n := zz.Any[int]("seq")
	zz.Assume(n >= 0)
	clockSeq = zz.Any[uint16]("old")
	SetClockSequence(n)
	zz.Assert(ClockSequence() == n&16383, "the clock sequence is not the one that was set")
	zz.Reach("end")
}

type zzConstant [2]byte

func (r zzConstant) Read(p []byte) (int, error) {
	return copy(p, r[:]), nil
}

// No reading of the time comes twice, whatever the clock does.
func zzScenario_C33_readings() {
	timeNow = func() time.Time { return zz.Any[time.Time]("now") }
	seqs := []int{0, 1, 0x1fff, 0x3fff}
	seq := seqs[zz.Choice(4)]
	if zz.Choice(2) == 0 {
		SetClockSequence(seq)
	} else {
		SetRand(zzConstant{byte(seq >> 8), byte(seq)})
	}
	if zz.Choice(2) == 0 {
		zz.Assert(ClockSequence() == seq, "the clock sequence is not the one that was set or chosen")
	}
	t1, s1, err1 := GetTime()
	zz.Assert(int(s1) == 0x8000|seq, "a reading does not have the clock sequence that was set or chosen")
	if zz.Choice(2) == 0 {
		SetClockSequence(seq) // to what it is
	}
	t2, s2, err2 := GetTime()
	t3, s3, err3 := GetTime()
	zz.Assert(err1 == nil && err2 == nil && err3 == nil, "the time cannot be read")
	zz.Assert(t1 != t2 || s1 != s2, "a reading of the time is repeated by the next one")
	zz.Assert(t2 != t3 || s2 != s3, "a reading of the time is repeated by the next one")
	zz.Assert(t1 != t3 || s1 != s3, "a reading of the time is repeated by the one after the next")
	zz.Reach("end")
}

// A reading is the clock's time.
func zzScenario_C33_clock() {
	now := zz.Any[time.Time]("now")
	timeNow = func() time.Time { return now }
	SetRand(zzReader{})
	t, _, err := GetTime()
	zz.Assert(err == nil, "the time cannot be read")
	zz.Assert(int64(t) == now.UnixNano()/100+12219292800*10000000, "a reading is not the time of the clock")
	zz.Reach("end")
}
