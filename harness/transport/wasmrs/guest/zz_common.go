package guest

import (
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzpeer"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
)

const zzSize = 16 * 1024

var zzSent []frames.Frame

func zzHostSend(n uint32) {
	zzSent = append(zzSent, zzpeer.Wire(hostBuffer[:n])...)
	hostBuffer = zz.BytesN("host buffer", zzSize) // what it holds does not matter any more
}

func zzInstead_C08_hostSend(n uint32) { zzHostSend(n) }
func zzInstead_C30_hostSend(n uint32) { zzHostSend(n) }
func zzInstead_C10_hostSend(n uint32) { zzHostSend(n) }
func zzInstead_C11_hostSend(n uint32) { zzHostSend(n) }
func zzInstead_C15_hostSend(n uint32) { zzHostSend(n) }
func zzInstead_C26_hostSend(n uint32) { zzHostSend(n) }

func zzNew() *zzpeer.Peer {
	zzSent = nil
	Init(zzSize, zzSize, 1<<20)
	return &zzpeer.Peer{
		Caller: HostInvoker,
		Odd:    1,
		Deliver: func(f frames.Frame) {
			guestBuffer = zz.BytesN("guest buffer", zzSize)
			GuestSend(zzpeer.Put(guestBuffer, f))
		},
		Sent: func() []frames.Frame { return zzSent },
		RR: func(h invoke.RequestResponseHandler) uint32 {
			invoke.ExportRequestResponse("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.RequestResponse) - 1)
		},
		FNF: func(h invoke.FireAndForgetHandler) uint32 {
			invoke.ExportFireAndForget("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.FireAndForget) - 1)
		},
		Stream: func(h invoke.RequestStreamHandler) uint32 {
			invoke.ExportRequestStream("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.RequestStream) - 1)
		},
		Channel: func(h invoke.RequestChannelHandler) uint32 {
			invoke.ExportRequestChannel("ns", "op", h)
			return uint32(len(invoke.GetOperations().Exported.RequestChannel) - 1)
		},
	}
}
