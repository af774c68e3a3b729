package host

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzpeer"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
	"github.com/tetratelabs/wazero/api"
)

// zzModule is a module that records the frames it is given.
type zzModule struct {
	api.Module
	mem  *zzMemory
	sent []frames.Frame
}

// zzMemory has one area for each direction.
type zzMemory struct {
	api.Memory
	send, recv []byte
}

const (
	zzSend = 16
	zzRecv = 32 * 1024
	zzSize = 16 * 1024
)

func (m *zzMemory) Read(offset, n uint32) ([]byte, bool) {
	zz.Assert(offset == zzSend || offset == zzRecv, "another part of the memory is used")
	zz.Assert(n <= zzSize, "more memory is used than the guest gives")
	if offset == zzSend {
		return m.send[:n:n], true
	}
	return m.recv[:n:n], true
}

type zzFunction struct {
	api.Function
	call func(ctx context.Context, params []uint64)
}

func (f *zzFunction) Call(ctx context.Context, params ...uint64) ([]uint64, error) {
	f.call(ctx, params)
	return nil, nil
}

func (m *zzModule) Memory() api.Memory { return m.mem }

func (m *zzModule) ExportedFunction(name string) api.Function {
	switch name {
	case "__wasmrs_init":
		return &zzFunction{call: func(ctx context.Context, _ []uint64) { initBuffers(ctx, []uint64{zzSend, zzRecv}) }}
	case "__wasmrs_send":
		return &zzFunction{call: func(ctx context.Context, p []uint64) {
			m.sent = append(m.sent, zzpeer.Wire(m.mem.send[:p[0]])...)
			m.mem.send = zz.BytesN("send buffer", zzSize) // what it holds does not matter any more
		}}
	}
	return &zzFunction{call: func(context.Context, []uint64) {}}
}

func zzNew() *zzpeer.Peer {
	p, _, _ := zzPeer()
	return p
}

func zzPeer() (*zzpeer.Peer, *zzModule, *Instance) {
	m := &zzModule{mem: &zzMemory{send: zz.BytesN("send buffer", zzSize)}}
	i, err := NewInstance(context.Background(), m)
	zz.Assert(err == nil, "an instance is refused")
	zz.DropSpawned()
	ctx := context.WithValue(context.Background(), instanceKey{}, i)
	var ops [4]uint32
	return &zzpeer.Peer{
		Caller: i,
		Deliver: func(f frames.Frame) {
			m.mem.recv = zz.BytesN("receive buffer", zzSize)
			send(ctx, []uint64{uint64(zzpeer.Put(m.mem.recv, f))})
			zz.Assert(zz.Blocks(i.recvLoop), "a frame ends the connection")
		},
		Sent: func() []frames.Frame {
			zz.Assert(zz.Blocks(i.sendLoop), "sending a frame ends the connection")
			return m.sent
		},
		RR: func(h invoke.RequestResponseHandler) uint32 {
			i.SetRequestResponseHandler(ops[0], h)
			ops[0]++
			return ops[0] - 1
		},
		FNF: func(h invoke.FireAndForgetHandler) uint32 {
			i.SetFireAndForgetHandler(ops[1], h)
			ops[1]++
			return ops[1] - 1
		},
		Stream: func(h invoke.RequestStreamHandler) uint32 {
			i.SetRequestStreamHandler(ops[2], h)
			ops[2]++
			return ops[2] - 1
		},
		Channel: func(h invoke.RequestChannelHandler) uint32 {
			i.SetRequestChannelHandler(ops[3], h)
			ops[3]++
			return ops[3] - 1
		},
	}, m, i
}
