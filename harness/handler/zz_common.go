package handler

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzpeer"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
)

func zzNew() *zzpeer.Peer {
	var sent []frames.Frame
	m := Mode(zz.Choice(2))
	h := New(context.Background(), m)
	h.SetFrameSender(func(f frames.Frame) error {
		sent = append(sent, f)
		return nil
	})
	p := &zzpeer.Peer{
		Caller: h,
		Deliver: func(f frames.Frame) {
			err := h.HandleFrame(f)
			zz.Assert(err == nil, "a frame ends the connection")
		},
		Sent: func() []frames.Frame { return sent },
		RR: func(h invoke.RequestResponseHandler) uint32 {
			invoke.ExportRequestResponse("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.RequestResponse) - 1)
		},
		FNF: func(h invoke.FireAndForgetHandler) uint32 {
			invoke.ExportFireAndForget("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.FireAndForget) - 1)
		},
		Stream: func(h invoke.RequestStreamHandler) uint32 {
			invoke.ExportRequestStream("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.RequestStream) - 1)
		},
		Channel: func(h invoke.RequestChannelHandler) uint32 {
			invoke.ExportRequestChannel("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.RequestChannel) - 1)
		},
	}
	if m == ClientMode {
		p.Odd = 1
	}
	return p
}
