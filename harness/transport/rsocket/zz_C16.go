package rsocket

import (
	"io"

	"github.com/nanobus/iota/go/internal/zzstd"
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// Frames written to a connection are sent whole, each behind its length, in the order they are
// written, under one lock for each frame.
func zzWrite(n int) {
	w := &zzNet{}
	out := NewTCPConn(w)
	first := true
	epoch := 0
	zz.Unlocks()
	zzstd.Wrote = func() {
		zz.Assert(zz.Held(), "bytes are written without a lock")
		if first {
			first = false
			epoch = zz.Unlocks()
		}
		zz.Assert(zz.Unlocks() == epoch, "the bytes of a frame are written under several locks")
	}
	var want []byte
	for k := 0; k < n; k++ {
		f := &zzRaw{zz.Bytes("frame")}
		first = true
		size := len(f.data)
		fits := size < 1<<24
		if fits {
			want = append(want, byte(size>>16), byte(size>>8), byte(size))
			want = append(want, f.data...)
		}
		err := out.Write(f)
		zz.Assert(fits == (err == nil), "a frame that fits is not written or one that does not is")
		zz.Assert(!zz.Held(), "a lock is kept")
		first = true
		if k == n-1 || zz.Choice(2) == 1 {
			err = out.Flush()
			zz.Assert(err == nil, "a frame that fits is not sent")
			zz.Assert(len(w.wire) == len(want), "not every byte is sent when a connection is flushed")
			zz.Assert(len(want) == 0 || zz.Same(w.wire, want), "other bytes are sent than the length and the frame")
		}
		zz.Assert(!zz.Held(), "a lock is kept")
	}
	zz.Reach("end")
}

func zzScenario_C16_write() { zzWrite(2) }

// func zzThorough_C16_write_more() { zzWrite(3) }

// A connection that fails reports it and keeps no lock.
func zzScenario_C16_fails() {
	w := &zzNet{fails: zz.NonNil[error]("failure")}
	out := NewTCPConn(w)
	f := &zzRaw{zz.Bytes("frame")}
	zz.Assume(len(f.data) < 1<<24)
	err := out.Write(f)
	if err == nil {
		err = out.Flush()
	}
	zz.Assert(err != nil, "a frame that could not be sent is reported as sent")
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// A transport sends a frame on its connection and flushes it when told.
func zzScenario_C16_send() {
	w := &zzNet{}
	t := NewTransport(NewTCPConn(w), zzNothing{})
	f := &zzRaw{zz.Bytes("frame")}
	zz.Assume(len(f.data) > 0 && len(f.data) < 1<<24)
	err := t.Send(f, true)
	zz.Assert(err == nil, "a frame that fits is not sent")
	zz.Assert(len(w.wire) == 3+len(f.data), "not every byte is sent")
	zz.Assert(t.Send(f, false) == nil, "a frame that fits is not written")
	zz.Assert(t.Flush() == nil, "a frame that fits is not sent")
	zz.Assert(len(w.wire) == 6+2*len(f.data), "not every byte is sent")
	zz.Assert(t.Close() == nil && t.Close() == nil && w.closed == 1, "a transport is not closed once")
	zz.Assert(!zz.Held(), "a lock is kept")
	_ = io.EOF
	zz.Reach("end")
}
