package msgpack

import (
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzEnc encodes with f into a buffer with room for one byte more, and ends it
// with a marker.
func zzEnc(f func(Writer)) []byte {
	s := NewSizer()
	f(&s)
	buf := make([]byte, s.Len()+1)
	e := NewEncoder(buf)
	f(&e)
	e.WriteBool(true)
	zz.Assert(e.Err() == nil, "encoding fails")
	return buf
}

// zzEnd: all that is left is the marker.
func zzEnd(d *Decoder) {
	v, err := d.ReadBool()
	zz.Assert(err == nil && v, "decoding does not end where the value ends")
	_, err = d.IsNextNil()
	zz.Assert(err != nil, "decoding does not reach the end of the input")
}

// zzBody: what is encoded is exactly want, followed by the marker.
func zzBody(buf []byte, want ...byte) {
	zz.Assert(len(buf) == len(want)+1, "the encoding has another length than the format")
	for i := range want {
		zz.Assert(buf[i] == want[i], "the encoding is not the format's")
	}
}

func zzPtr[T any](isNil bool) *T {
	if isNil {
		return nil
	}
	x := zz.Any[T]("x")
	return &x
}

func zzOf[T any](n int) []T {
	r := make([]T, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, zz.Any[T]("e"))
	}
	return r
}

var _ = time.Now
