package zzstd

import (
	"bytes"
	"errors"
	"io"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

var (
	errOverflow = errors.New("overflows a 32-bit integer")
	anyVarint   bool
)

// AnyVarint makes every number read an unknown one.
func AnyVarint() { anyVarint = true }

// Leb128_DecodeUint32 models reading a number of up to five bytes.
func Leb128_DecodeUint32(r *bytes.Reader) (uint32, uint64, error) {
	if anyVarint {
		n := zz.Int(1, 5)
		m := int64(n)
		if zz.Choice(2) == 0 {
			m = zz.Any[int64]("consumed")
			zz.Assume(m >= 0 && m <= 5 && m <= int64(r.Len()))
			r.Seek(m, io.SeekCurrent)
			return 0, 0, errOverflow
		}
		zz.Assume(m <= int64(r.Len()))
		r.Seek(m, io.SeekCurrent)
		return zz.Any[uint32]("number"), uint64(n), nil
	}
	var v uint32
	for i := 0; i < 5; i++ {
		b, err := r.ReadByte()
		if err != nil {
			return 0, 0, err
		}
		if b < 0x80 {
			if i == 4 && b > 15 {
				return 0, 0, errOverflow
			}
			return v | uint32(b)<<(7*uint(i)), uint64(i) + 1, nil
		}
		v |= uint32(b&0x7f) << (7 * uint(i))
	}
	return 0, 0, errOverflow
}
