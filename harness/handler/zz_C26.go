package handler

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzpeer"
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzScenario_C26_unsent() {
	h := New(context.Background(), Mode(zz.Choice(2)))
	fails := zz.NonNil[error]("failure")
	h.SetFrameSender(func(f frames.Frame) error { return fails })
	zzpeer.Unsent(&zzpeer.Peer{
		Caller: h,
		Deliver: func(f frames.Frame) {
			err := h.HandleFrame(f)
			zz.Assert(err == nil, "a frame ends the connection")
		},
		Sent: func() []frames.Frame { return nil },
	}, zz.BytesN("data", 50))
}
