package uuid

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzID() (u UUID) {
	b := zz.BytesN("u", 16)
	copy(u[:], b)
	return
}

type zzReader struct{}

func (r zzReader) Read(p []byte) (int, error) {
	b := zz.BytesN("random", len(p))
	return copy(p, b), nil
}
