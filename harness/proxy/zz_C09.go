package proxy

import (
	"context"

	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/payload"
)

type zzStream struct{ id uint32 }

func (s *zzStream) Context() context.Context { return nil }
func (s *zzStream) StreamID() uint32         { return s.id }
func (s *zzStream) OnNext(p payload.Payload) {}
func (s *zzStream) OnComplete()              {}
func (s *zzStream) OnError(err error)        {}

// Streams are registered, looked up and removed in any order: a lookup finds
// exactly the streams registered and not removed.
func zzTable(steps int) {
	var l Lookup
	ids := [3]uint32{zz.Any[uint32]("a"), zz.Any[uint32]("b"), zz.Any[uint32]("c")}
	zz.Assume(ids[0] != ids[1] && ids[0] != ids[2] && ids[1] != ids[2])
	var in [3]Stream
	n := zz.Choice(4)
	for k := 0; k < n; k++ {
		in[k] = &zzStream{ids[k]}
		l.Add(in[k])
	}
	for i := 0; i < steps; i++ {
		k := zz.Choice(3)
		switch zz.Choice(2) {
		case 0:
			zz.Assume(in[k] == nil)
			in[k] = &zzStream{ids[k]}
			l.Add(in[k])
		case 1:
			l.Remove(ids[k])
			in[k] = nil
		}
		zz.Assert(!zz.Held(), "the stream table is left locked")
	}
	for k := 0; k < 3; k++ {
		s, ok := l.Get(ids[k])
		zz.Assert(ok == (in[k] != nil), "a stream is lost or stays registered after its removal")
		zz.Assert(!ok || s == in[k], "a stream identifier leads to another stream")
	}
	o := zz.Any[uint32]("other")
	zz.Assume(o != ids[0] && o != ids[1] && o != ids[2])
	_, ok := l.Get(o)
	zz.Assert(!ok, "an unknown stream identifier leads to a stream")
	zz.Assert(!zz.Held(), "the stream table is left locked")
	zz.Reach("end")
}

func zzScenario_C09_table()      { zzTable(3) }
func zzThorough_C09_long_table() { zzTable(4) }
