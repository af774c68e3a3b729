package zzstd

import (
	"bytes"
	"errors"
	"io"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

var errCopy = errors.New("copy failed")

// Io_CopyN models skipping bytes of a reader.
func Io_CopyN(dst io.Writer, src io.Reader, n int64) (int64, error) {
	r, ok := src.(*bytes.Reader)
	if !ok || dst != io.Discard {
		m := zz.Any[int64]("copied")
		zz.Assume(m >= 0 && m <= n)
		if zz.Choice(2) == 0 {
			return m, errCopy
		}
		return n, nil
	}
	if n <= 0 {
		return 0, nil
	}
	if n > int64(r.Len()) {
		m := int64(r.Len())
		r.Seek(m, io.SeekCurrent)
		return m, io.EOF
	}
	r.Seek(n, io.SeekCurrent)
	return n, nil
}
