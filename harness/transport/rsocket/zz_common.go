package rsocket

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	_ "github.com/nanobus/iota/go/internal/zzstd" // models of bufio
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzNet is a network connection: what is written to it is read from it, cut into pieces.
type zzNet struct {
	wire   []byte
	cuts   int
	fails  error
	closed int
	onRead func()
}

func (c *zzNet) Write(p []byte) (int, error) {
	if c.fails != nil {
		return 0, c.fails
	}
	c.wire = append(c.wire, p...)
	return len(p), nil
}

// Chunk gives the bytes of one read.
func (c *zzNet) Chunk() (p []byte, err error) {
	if c.onRead != nil {
		c.onRead()
	}
	if len(c.wire) == 0 {
		return nil, io.EOF
	}
	p = c.wire
	c.wire = nil
	if c.cuts > 0 {
		c.cuts--
		n := zz.Int(1, 1<<30)
		zz.Assume(n < len(p))
		p, c.wire = p[:n], p[n:]
	}
	return p, nil
}

func (c *zzNet) Read(p []byte) (int, error) {
	d, err := c.Chunk()
	zz.Assume(len(d) <= len(p))
	return copy(p, d), err
}

func (c *zzNet) Close() error                       { c.closed++; return nil }
func (c *zzNet) LocalAddr() net.Addr                { return nil }
func (c *zzNet) RemoteAddr() net.Addr               { return nil }
func (c *zzNet) SetDeadline(t time.Time) error      { return nil }
func (c *zzNet) SetReadDeadline(t time.Time) error  { return nil }
func (c *zzNet) SetWriteDeadline(t time.Time) error { return nil }

func zzBytes(name string) []byte {
	b := zz.Bytes(name)
	zz.Assume(len(b) < 1<<23)
	return b
}

func zzFrame() frames.Frame {
	id := zz.Any[uint32]("stream")
	zz.Assume(id < 1<<31)
	switch zz.Choice(8) {
	case 0:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: id, Data: zzBytes("data"), Metadata: zzBytes("metadata"), Follows: zz.Bool(), Complete: zz.Bool()}
	case 1:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: id, Data: zzBytes("data"), Metadata: zzBytes("metadata"), Follows: zz.Bool(), Complete: zz.Bool()}
	case 2:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: id, Data: zzBytes("data"), Metadata: zzBytes("metadata"), InitialN: zzN(), Follows: zz.Bool(), Complete: zz.Bool()}
	case 3:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: id, Data: zzBytes("data"), Metadata: zzBytes("metadata"), InitialN: zzN(), Follows: zz.Bool(), Complete: zz.Bool()}
	case 4:
		return &frames.Payload{StreamID: id, Data: zzBytes("data"), Metadata: zzBytes("metadata"), Next: zz.Bool(), Complete: zz.Bool(), Follows: zz.Bool()}
	case 5:
		return &frames.Error{StreamID: id, Code: frames.ErrCode(zz.Any[uint32]("code")), Data: string(zzBytes("text"))}
	case 6:
		return &frames.RequestN{StreamID: id, N: zzN()}
	}
	return &frames.Cancel{StreamID: id}
}

func zzN() uint32 {
	n := zz.Any[uint32]("n")
	zz.Assume(n < 1<<31)
	return n
}

// zzEqual compares the parts of two frames; parts that are empty need not be present.
func zzEqual(a, b frames.Frame) bool {
	bytes := func(x, y []byte) bool { return len(x) == len(y) && (len(x) == 0 || zz.Same(x, y)) }
	switch x := a.(type) {
	case *frames.RequestPayload:
		y, ok := b.(*frames.RequestPayload)
		return ok && x.FrameType == y.FrameType && x.StreamID == y.StreamID && x.InitialN == y.InitialN && x.Follows == y.Follows && x.Complete == y.Complete && bytes(x.Data, y.Data) && bytes(x.Metadata, y.Metadata)
	case *frames.Payload:
		y, ok := b.(*frames.Payload)
		return ok && x.StreamID == y.StreamID && x.Follows == y.Follows && x.Complete == y.Complete && x.Next == y.Next && bytes(x.Data, y.Data) && bytes(x.Metadata, y.Metadata)
	}
	return zz.Same(a, b)
}

// zzRaw is a frame of which only the bytes matter.
type zzRaw struct{ data []byte }

func (f *zzRaw) GetStreamID() uint32                      { return 0 }
func (f *zzRaw) Type() frames.FrameType                   { return frames.FrameTypePayload }
func (f *zzRaw) Decode(*frames.FrameHeader, []byte) error { return nil }
func (f *zzRaw) Encode(buf []byte)                        { copy(buf, f.data) }
func (f *zzRaw) Size() uint32                             { return uint32(len(f.data)) }

type zzNothing struct{}

func (zzNothing) SetFrameSender(FrameHandler)    {}
func (zzNothing) HandleFrame(frames.Frame) error { return nil }

// zzCtx is a context that is cancelled or not.
type zzCtx struct {
	done chan struct{}
	err  error
}

func (c *zzCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *zzCtx) Done() <-chan struct{}       { return c.done }
func (c *zzCtx) Err() error                  { return c.err }
func (c *zzCtx) Value(any) any               { return nil }

var errCancelled = errors.New("cancelled")

func (c *zzCtx) cancel() {
	close(c.done)
	c.err = errCancelled
}

func zzContext() *zzCtx { return &zzCtx{done: make(chan struct{})} }

// zzListener gives connections, then an error.
type zzListener struct {
	conns  []*zzNet
	end    error
	before func()
	fails  error
	closed int
}

func (l *zzListener) Accept() (net.Conn, error) {
	if l.before != nil {
		l.before()
	}
	if l.closed > 0 {
		return nil, zzClosed{}
	}
	if len(l.conns) == 0 {
		return nil, l.end
	}
	c := l.conns[0]
	l.conns = l.conns[1:]
	return c, nil
}
func (l *zzListener) Close() error   { l.closed++; return l.fails }
func (l *zzListener) Addr() net.Addr { return nil }

// zzClosed is the error of a closed listener.
type zzClosed struct{}

func (zzClosed) Error() string { return "accept: use of closed network connection" }

func zzServer(l *zzListener) *tcpServerTransport {
	return NewTCPServerTransport(func(context.Context) (net.Listener, error) { return l, nil }, nil).(*tcpServerTransport)
}
