package proxy

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

type zzKey struct{}

// The stream put into a context is found in it and in those derived from it,
// the innermost one first.
func zzScenario_C30_find() {
	value := new(int)
	ctx := context.WithValue(context.Background(), zzKey{}, value)
	_, ok := FromContext(ctx)
	zz.Assert(!ok, "a stream is found where none is")
	a := &streamFlux{ctx: ctx, request: frames.RequestPayload{StreamID: zz.Any[uint32]("a")}}
	b := &streamMono{ctx: ctx, request: frames.RequestPayload{StreamID: zz.Any[uint32]("b")}}
	in := WithContext(ctx, a)
	s, ok := FromContext(in)
	zz.Assert(ok && s == Stream(a), "a stream is not found in its context")
	zz.Assert(in.Value(zzKey{}) == any(value), "a context loses what it holds")
	s, ok = FromContext(context.WithValue(in, zzKey{}, nil))
	zz.Assert(ok && s == Stream(a), "a stream is not found in its context")
	s, ok = FromContext(WithContext(in, b))
	zz.Assert(ok && s == Stream(b), "another stream is found than the one put last")
	zz.Assert(a.Context() == ctx && b.Context() == ctx, "the context of a stream is another one")
	zz.Assert(a.StreamID() == a.request.StreamID && b.StreamID() == b.request.StreamID, "the identifier of a stream is another one")
	zz.Reach("end")
}
