package host

import (
	"context"

	"github.com/nanobus/iota/go/internal/zzpeer"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/tetratelabs/wazero/api"
)

// zzPipe is a module that records the bytes it is given.
type zzPipe struct {
	zzModule
	during func() // what it does when it is given some
	wire   []byte
}

func (m *zzPipe) ExportedFunction(name string) api.Function {
	if name != "__wasmrs_send" {
		return m.zzModule.ExportedFunction(name)
	}
	return &zzFunction{call: func(ctx context.Context, p []uint64) {
		zz.Assert(p[0] <= zzSize, "more bytes are announced than the buffer has")
		m.wire = append(m.wire, m.mem.send[:p[0]]...)
		m.mem.send = zz.BytesN("send buffer", zzSize) // it may lie elsewhere now
		if m.during != nil {
			m.during()
		}
	}}
}

// Frames sent while the module takes others are given to it as well, though
// its memory moved.
func zzScenario_C26_during() {
	m := &zzPipe{zzModule: zzModule{mem: &zzMemory{send: zz.BytesN("send buffer", zzSize)}}}
	i, err := NewInstance(context.Background(), m)
	zz.Assert(err == nil, "an instance is refused")
	zz.DropSpawned()
	var want []byte
	send := func() {
		f := &zzpeer.Raw{Data: zz.Bytes("frame")}
		zz.Assume(len(f.Data)+3 <= zzSize)
		want = zzpeer.Prefixed(want, f.Data)
		zz.Assert(i.SendFrame(f) == nil, "a frame that fits is refused")
	}
	calls := 0
	m.during = func() {
		calls++
		if calls == 1 {
			send()
			if zz.Choice(2) == 0 {
				send()
			}
		}
	}
	send()
	zz.Assert(zz.Blocks(i.sendLoop), "sending a frame ends the connection")
	zz.Assert(len(m.wire) == len(want), "not every byte is given to the module")
	zz.Assert(zz.Same(m.wire, want), "other bytes are given to the module than the length and the frame")
	zz.Reach("end")
}

// Frames are given to the module whole and in order, those that do not fit are refused.
func zzSendFrames(n int) {
	m := &zzPipe{zzModule: zzModule{mem: &zzMemory{send: zz.BytesN("send buffer", zzSize)}}}
	i, err := NewInstance(context.Background(), m)
	zz.Assert(err == nil, "an instance is refused")
	zz.DropSpawned()
	var want []byte
	for k := 0; k < n; k++ {
		f := &zzpeer.Raw{Data: zz.Bytes("frame")}
		zz.Assume(uint64(len(f.Data)) < 1<<31)
		fits := len(f.Data)+3 <= zzSize
		if fits {
			want = zzpeer.Prefixed(want, f.Data)
		}
		err := i.SendFrame(f)
		zz.Assert(fits == (err == nil), "a frame that fits is refused or one that does not is accepted")
		if k == n-1 || zz.Choice(2) == 0 {
			zz.Assert(zz.Blocks(i.sendLoop), "sending a frame ends the connection")
		}
	}
	zz.Assert(len(m.wire) == len(want), "not every byte is given to the module")
	zz.Assert(len(want) == 0 || zz.Same(m.wire, want), "other bytes are given to the module than the length and the frame")
	zz.Reach("end")
}

func zzScenario_C26_send()      { zzSendFrames(2) }
func zzThorough_C26_send_more() { zzSendFrames(3) }
func zzScenario_C26_unsent() {
	data := zz.Bytes("data")
	zz.Assume(len(data) > zzSize && len(data) < 1<<30)
	zzpeer.Unsent(zzNew(), data)
}

func zzScenario_C26_arrive() {
	p, m, i := zzPeer()
	zzpeer.Arrive(p, func(d []byte) {
		zz.Assume(len(d) <= zzSize)
		m.mem.recv = zz.BytesN("receive buffer", zzSize)
		n := copy(m.mem.recv, d)
		i.hostSend(context.Background(), uint32(n))
		copy(m.mem.recv, zz.BytesN("receive buffer", n)) // the guest reuses it
		zz.Assert(zz.Blocks(i.recvLoop), "a frame ends the connection")
	})
}

// An instance that is closed sends nothing, and lets nobody wait.
func zzScenario_C26_closed() {
	m := &zzPipe{zzModule: zzModule{mem: &zzMemory{send: zz.BytesN("send buffer", zzSize)}}}
	i, err := NewInstance(context.Background(), m)
	zz.Assert(err == nil, "an instance is refused")
	if zz.Choice(2) == 0 {
		zz.DropSpawned()
	}
	zz.Assert(i.Close() == nil, "an instance is not closed")
	if zz.Choice(2) == 0 {
		zz.Assert(i.Close() == nil, "an instance cannot be closed twice")
	}
	f := &zzpeer.Raw{Data: zz.Bytes("frame")}
	zz.Assume(len(f.Data) < 1000)
	zz.Assert(!zz.Blocks(func() { err = i.SendFrame(f) }), "sending to a closed instance waits forever")
	zz.Assert(err != nil, "a frame for a closed instance is reported as sent")
	zz.Assert(!zz.Blocks(i.sendLoop) && !zz.Blocks(i.recvLoop), "a closed instance goes on")
	zz.Assert(len(m.wire) == 0, "a closed instance sends frames")
	zz.Reach("end")
}
