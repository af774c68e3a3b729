package frames

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzID is any stream identifier.
func zzID() uint32 { return uint32(zz.Int(0, 1<<31-1)) }

// zzMeta is metadata a frame has room for.
func zzMeta(name string) []byte {
	switch zz.Choice(3) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := zz.Bytes(name)
	zz.Assume(len(b) > 0 && len(b) < 1<<24)
	return b
}

func zzData(name string) []byte {
	b := zz.Bytes(name)
	zz.Assume(len(b) < 1<<30)
	return b
}

// zzSend encodes a frame over whatever a buffer held and splits off the header.
func zzSend(f Frame) (*FrameHeader, []byte) {
	n := f.Size()
	buf := zz.Bytes("dirty")
	zz.Assume(len(buf) == int(n))
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	zz.Assert(h.StreamID() == f.GetStreamID(), "the stream of a frame is not kept")
	zz.Assert(h.Type() == f.Type(), "the type of a frame is not kept")
	return &h, buf[FrameHeaderLen:]
}
