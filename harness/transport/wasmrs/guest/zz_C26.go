package guest

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzpeer"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/payload"
)

func zzScenario_C26_unsent() {
	data := zz.Bytes("data")
	zz.Assume(len(data) > zzSize && len(data) < 1<<30)
	zzpeer.Unsent(zzNew(), data)
}

// A request is given to the host whole, or not at all if it does not fit.
func zzScenario_C26_send() {
	p := zzNew()
	data := zz.Bytes("data")
	zz.Assume(len(data) < 1<<30)
	md := zz.BytesN("metadata", 8)
	p.Caller.FireAndForget(context.Background(), payload.New(data, md))
	if 6+3+8+len(data)+3 > zzSize {
		zz.Assert(len(p.Sent()) == 0, "a frame that does not fit is sent")
		zz.Reach("refused")
		return
	}
	s := p.Sent()
	zz.Assert(len(s) == 1, "a frame that fits is not sent")
	r, ok := s[0].(*frames.RequestPayload)
	zz.Assert(ok && len(r.Data) == len(data) && (len(data) == 0 || zz.Same(r.Data, data)) && zz.Same(r.Metadata, md), "a frame is sent changed")
	zz.Reach("end")
}

func zzScenario_C26_arrive() {
	zzpeer.Arrive(zzNew(), func(d []byte) {
		zz.Assume(len(d) <= zzSize)
		guestBuffer = zz.BytesN("guest buffer", zzSize)
		n := copy(guestBuffer, d)
		GuestSend(uint32(n))
		copy(guestBuffer, zz.BytesN("guest buffer", n))
	})
}
