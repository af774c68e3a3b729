package handler

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzpeer"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
)

type zzKey struct{}

func zzWith(value *int) *zzpeer.Peer {
	p := zzNew()
	p.Caller.(*Handler).ctx = context.WithValue(context.Background(), zzKey{}, value)
	return p
}

func zzScenario_C30_own() {
	value := new(int)
	zzpeer.Own(zzWith(value), func(ctx context.Context) bool { return ctx.Value(zzKey{}) == any(value) })
}

// The handler of a stream or a channel runs in the context of its connection.
func zzScenario_C30_stream() {
	value := new(int)
	p := zzWith(value)
	calls := 0
	serve := func(ctx context.Context) flux.Flux[payload.Payload] {
		calls++
		zz.Assert(ctx.Value(zzKey{}) == any(value), "a handler does not run in the context of its connection")
		return flux.NewProcessor[payload.Payload]()
	}
	f := frames.RequestPayload{StreamID: zz.Any[uint32]("stream"), InitialN: 1, Metadata: make([]byte, 8)}
	if zz.Choice(2) == 0 {
		f.FrameType = frames.FrameTypeRequestStream
		p.Stream(func(ctx context.Context, _ payload.Payload) flux.Flux[payload.Payload] { return serve(ctx) })
	} else {
		f.FrameType = frames.FrameTypeRequestChannel
		p.Channel(func(ctx context.Context, _ payload.Payload, _ flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return serve(ctx)
		})
	}
	p.Deliver(&f)
	zz.RunAny()
	zz.Assert(calls == 1, "a request does not reach its handler once")
	zz.Reach("end")
}
