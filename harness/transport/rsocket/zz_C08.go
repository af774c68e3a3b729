package rsocket

import (
	"context"
	"crypto/tls"
	"io"
	"net"

	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
)

var zzDialled *zzNet

// zzInstead_C08_NewConnWithAddr stands for the network.
func zzInstead_C08_NewConnWithAddr(context.Context, string, string, *tls.Config) (net.Conn, error) {
	return zzDialled, nil
}

// zzID is the stream identifier of the frame sent on a connection.
func zzID(c *zzNet) uint32 {
	zz.Assert(len(c.wire) > 7, "a request is not sent")
	return uint32(c.wire[3])<<24 | uint32(c.wire[4])<<16 | uint32(c.wire[5])<<8 | uint32(c.wire[6])
}

// The server gives even stream identifiers, on every connection.
func zzScenario_C08_server() {
	a, b := &zzNet{}, &zzNet{}
	conns := []*zzNet{a, b}
	s := zzServer(&zzListener{conns: conns, end: io.EOF})
	var callers []invoke.Caller
	s.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*Transport)) {
		callers = append(callers, caller)
	})
	zz.Assert(s.Listen(zzContext(), make(chan bool, 2)) == nil, "the end of a server is reported as a failure")
	zz.RunSpawned()
	zz.Assert(len(callers) == 2, "not every connection is announced")
	a.wire, b.wire = nil, nil
	for i := range callers {
		callers[i].FireAndForget(context.Background(), payload.New([]byte{1, 2, 3}))
	}
	for _, c := range []*zzNet{a, b} {
		id := zzID(c)
		zz.Assert(id != 0 && id&1 == 0, "a server uses a stream identifier of its client")
	}
	zz.Reach("end")
}

// The client gives odd stream identifiers.
func zzScenario_C08_client() {
	zzDialled = &zzNet{}
	t, err := NewClient(context.Background())
	zz.Assert(err == nil, "a client is not connected")
	t.handler.(invoke.Caller).FireAndForget(context.Background(), payload.New([]byte{1, 2, 3}))
	zz.Assert(zzID(zzDialled)&1 == 1, "a client uses a stream identifier of its server")
	zz.Reach("end")
}
