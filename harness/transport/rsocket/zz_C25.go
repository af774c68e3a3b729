package rsocket

import (
	"context"
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
)

// zzConn gives frames, then an error.
type zzConn struct {
	in      []frames.Frame
	end     error
	after   func() // before each read
	out     []frames.Frame
	flushed int
	fails   error
	broken  error
	closed  int
}

func (c *zzConn) Close() error                { c.closed++; return nil }
func (c *zzConn) SetDeadline(time.Time) error { return nil }
func (c *zzConn) Read() (frames.Frame, error) {
	zz.Assert(c.closed == 0, "a connection is read after it is closed")
	if c.after != nil {
		c.after()
	}
	if len(c.in) == 0 {
		return nil, c.end
	}
	f := c.in[0]
	c.in = c.in[1:]
	return f, nil
}
func (c *zzConn) Write(f frames.Frame) error {
	if c.fails != nil {
		return c.fails
	}
	c.out = append(c.out, f)
	return nil
}
func (c *zzConn) Flush() error {
	if c.broken == nil {
		c.flushed = len(c.out)
	}
	return c.broken
}

// zzHandler keeps the frames it is given.
type zzHandler struct {
	got []frames.Frame
	err error
}

func (h *zzHandler) SetFrameSender(FrameHandler) {}
func (h *zzHandler) HandleFrame(f frames.Frame) error {
	h.got = append(h.got, f)
	return h.err
}

// Every frame that arrives is handed on, in order, before the end is
// reported; the connection is closed once.
func zzScenario_C25_start() {
	c := &zzConn{}
	var sent []frames.Frame
	for n := zz.Choice(4); n > 0; n-- {
		sent = append(sent, &frames.Cancel{StreamID: zz.Any[uint32]("id")})
	}
	c.in = sent
	fails := zz.NonNil[error]("failure")
	ends := zz.Choice(2) == 0
	if ends {
		c.end = io.EOF
	} else {
		c.end = fails
		zz.Assume(fails != io.EOF)
	}
	h := &zzHandler{}
	if zz.Choice(2) == 0 {
		h.err = zz.NonNil[error]("refused")
	}
	t := NewTransport(c, h)
	err := t.Start(zzContext())
	zz.Assert((err == nil) == ends, "the end of a connection is reported as a failure or a failure as the end")
	zz.Assert(len(h.got) == len(sent), "not every frame that arrived is handed on")
	for i := range sent {
		zz.Assert(h.got[i] == sent[i], "frames are handed on in another order")
	}
	zz.Assert(c.closed == 1, "the connection is not closed once")
	t.Close()
	zz.Assert(c.closed == 1, "the connection is closed again")
	zz.Reach("end")
}

// A transport whose context is cancelled stops and closes the connection.
func zzScenario_C25_cancelled() {
	ctx := zzContext()
	c := &zzConn{end: io.EOF}
	k := zz.Choice(3)
	reads := 0
	for i := 0; i < 4; i++ {
		c.in = append(c.in, &frames.Cancel{StreamID: uint32(i)})
	}
	if k == 0 {
		ctx.cancel()
	}
	c.after = func() {
		reads++
		if reads == k {
			ctx.cancel()
		}
	}
	h := &zzHandler{}
	err := NewTransport(c, h).Start(ctx)
	zz.Assert(err == errCancelled, "a cancelled transport does not say so")
	zz.Assert(reads == k, "a cancelled transport goes on reading")
	zz.Assert(len(h.got) == k, "frames that arrived before the cancellation are lost")
	zz.Assert(c.closed == 1, "the connection of a cancelled transport is not closed once")
	zz.Reach("end")
}

// The first frame is given, or the connection is closed.
func zzScenario_C25_first() {
	ctx := zzContext()
	f := &frames.Cancel{StreamID: zz.Any[uint32]("id")}
	c := &zzConn{in: []frames.Frame{f}}
	k := zz.Choice(3)
	switch k {
	case 1:
		c.in = nil
		c.end = zz.NonNil[error]("failure")
	case 2:
		ctx.cancel()
	}
	t := NewTransport(c, &zzHandler{})
	got, err := t.ReadFirst(ctx)
	if k == 0 {
		zz.Assert(err == nil && got == frames.Frame(f) && c.closed == 0, "the first frame is not given")
	} else {
		zz.Assert(err != nil && c.closed == 1, "a connection without a first frame is not closed")
	}
	zz.Reach("end")
}

// What cannot be sent is reported.
func zzScenario_C25_send() {
	f := &frames.Cancel{StreamID: zz.Any[uint32]("id")}
	flush := zz.Choice(2) == 0
	var t *Transport
	zz.Assert(t.Send(f, flush) != nil, "a frame is sent without a transport")
	zz.Assert(t.Flush() != nil, "frames are flushed without a transport")
	t = &Transport{}
	zz.Assert(t.Send(f, flush) != nil, "a frame is sent without a connection")
	zz.Assert(t.Flush() != nil, "frames are flushed without a connection")
	c := &zzConn{}
	switch zz.Choice(3) {
	case 1:
		c.fails = zz.NonNil[error]("write failure")
	case 2:
		c.broken = zz.NonNil[error]("flush failure")
	}
	t = NewTransport(c, &zzHandler{})
	err := t.Send(f, flush)
	if c.fails != nil || flush && c.broken != nil {
		zz.Assert(err != nil, "a failure to send is not reported")
	} else {
		zz.Assert(err == nil && len(c.out) == 1 && c.out[0] == frames.Frame(f), "a frame is not sent once")
		zz.Assert(!flush || c.flushed == 1, "a frame is not flushed")
	}
	zz.Assert((t.Flush() == nil) == (c.broken == nil), "a failure to flush is not reported")
	zz.Assert(t.Connection() == Conn(c), "the connection of a transport is another one")
	zz.Reach("end")
}

// Each connection has a transport and a caller of its own, all are closed with
// the server.
func zzScenario_C25_listen() {
	a, b := &zzNet{}, &zzNet{}
	conns := []*zzNet{a, b}
	l := &zzListener{conns: conns}
	ends := zz.Choice(2) == 0
	if ends {
		l.end = io.EOF
	} else {
		l.end = errCancelled
	}
	s := zzServer(l)
	var callers []invoke.Caller
	s.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*Transport)) {
		callers = append(callers, caller)
	})
	l.before = func() {
		zz.Assert(!zz.Held(), "the server waits for connections with a lock held")
		zz.Assert(l.closed == 0, "the server waits for connections on a closed listener")
	}
	notify := make(chan bool, 2)
	err := s.Listen(zzContext(), notify)
	zz.Assert((err == nil) == ends, "the end of a server is reported as a failure or a failure as the end")
	zz.Assert(zzAnnounced(notify), "a server that listens is not announced")
	zz.Assert(l.closed == 1, "the listener is not closed")
	zz.Assert(a.closed == 1 && b.closed == 1, "a connection is not closed once with the server")
	zz.Assert(len(callers) == 0 || len(callers) == 2, "not every connection is announced")
	zz.RunSpawned()
	zz.Assert(len(callers) == 2, "not every connection is announced")
	for i := range callers {
		callers[i].FireAndForget(context.Background(), payload.New([]byte{1, 2, 3}))
	}
	zz.Assert(len(a.wire) > 0 && len(b.wire) > 0, "the caller of a connection does not send on it")
	zz.Assert(a.closed == 1 && b.closed == 1, "a connection is not closed once with the server")
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Assert(s.Close() == nil && l.closed == 1, "a closed server is closed again")
	zz.Reach("end")
}

// zzAnnounced is what is announced about a server, once.
func zzAnnounced(notify chan bool) bool {
	zz.Assert(len(notify) == 1, "it is not announced once whether a server listens")
	listens := false
	zz.Blocks(func() { listens = <-notify })
	return listens
}

// A server that cannot listen, or is closed before it does, says so.
func zzScenario_C25_not_listening() {
	l := &zzListener{end: io.EOF}
	fails := zz.Choice(2) == 0
	s := NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		if fails {
			return nil, zz.NonNil[error]("failure")
		}
		return l, nil
	}, nil)
	if !fails {
		s.Close()
	}
	notify := make(chan bool, 2)
	err := s.Listen(zzContext(), notify)
	zz.Assert(!zzAnnounced(notify), "a server that does not listen is announced")
	if fails {
		zz.Assert(err != nil, "a failure to listen is not reported")
	} else {
		zz.Assert(l.closed == 1, "a listener made after the server was closed is left open")
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// A server closed while it waits stops without a failure; connections made
// later are closed.
func zzScenario_C25_closed() {
	c := &zzNet{}
	late := &zzNet{}
	l := &zzListener{conns: []*zzNet{c, late}, end: io.EOF}
	s := zzServer(l)
	n := 0
	k := zz.Choice(3)
	l.before = func() {
		if n == k {
			s.Close()
			if k == 1 {
				l.closed = 0 // the connection came just before
			}
		}
		n++
	}
	err := s.Listen(zzContext(), make(chan bool, 2))
	zz.Assert(err == nil, "a server that was closed reports a failure")
	zz.Assert((k > 0) == (c.closed == 1) && (k > 0) == (late.closed == 1), "a connection is left open by a closed server")
	zz.RunAny()
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// A server whose context is cancelled is closed.
func zzScenario_C25_context() {
	ctx := zzContext()
	c := &zzNet{}
	l := &zzListener{conns: []*zzNet{c}, end: io.EOF}
	s := zzServer(l)
	n := 0
	l.before = func() {
		if n == 1 {
			ctx.cancel()
			zz.RunAny()
			zz.Assert(l.closed == 1, "a server whose context is cancelled goes on listening")
		}
		n++
	}
	err := s.Listen(ctx, make(chan bool, 2))
	zz.Assert(err == nil, "a server that was closed reports a failure")
	zz.Assert(c.closed == 1, "a connection is left open by a closed server")
	zz.Reach("end")
}

// A connection that ends is forgotten, the others stay.
func zzScenario_C25_forget() {
	a, b := &zzNet{}, &zzNet{}
	l := &zzListener{conns: []*zzNet{a, b}, end: io.EOF}
	s := zzServer(l)
	n := 0
	l.before = func() {
		n++
		switch n {
		case 2:
			zz.Assert(len(s.m) == 1, "a connection is not kept")
			zz.RunAny()
			zz.Assert(a.closed == 1 && len(s.m) == 0, "a connection that ended is kept")
		case 3:
			zz.Assert(b.closed == 0 && len(s.m) == 1, "a connection is forgotten while it is open")
		}
	}
	err := s.Listen(zzContext(), make(chan bool, 2))
	zz.Assert(err == nil, "a server that ended reports a failure")
	zz.Assert(a.closed == 1 && b.closed == 1, "a connection is not closed once")
	zz.Reach("end")
}

// A transport stops when a frame is refused, and only then.
func zzScenario_C25_refused() {
	c := &zzConn{end: io.EOF}
	for i := 0; i < 3; i++ {
		c.in = append(c.in, &frames.Cancel{StreamID: uint32(i)})
	}
	h := &zzHandler{}
	refuses := zz.Choice(2) == 0
	if refuses {
		h.err = zz.NonNil[error]("refused")
	}
	reads := 0
	c.after = func() {
		reads++
		if reads == 2 {
			zz.RunAny() // the first frame is handed on meanwhile
			zz.Assert(len(h.got) == 1, "a frame that arrived is not handed on while the next one is awaited")
		}
	}
	zz.Blocks(func() { NewTransport(c, h).Start(zzContext()) })
	zz.Assert(refuses == (reads < 4), "a transport goes on after a frame was refused, or stops after one that was not")
	zz.Reach("end")
}

// A server that is closed closes connections in use, and reports what fails.
func zzScenario_C25_in_use() {
	c := &zzNet{}
	l := &zzListener{conns: []*zzNet{c}, end: io.EOF}
	if zz.Choice(2) == 0 {
		l.fails = errCancelled
	}
	s := zzServer(l)
	reads := 0
	c.onRead = func() {
		reads++
		if reads == 1 {
			err := s.Close()
			zz.Assert((err == nil) == (l.fails == nil), "a listener that cannot be closed is not reported")
			zz.Assert(c.closed == 1, "a connection in use is left open by a closed server")
		}
	}
	n := 0
	l.before = func() {
		if n == 1 {
			zz.RunAny()
			zz.Assert(reads > 0, "a connection is not read")
		}
		n++
	}
	s.Listen(zzContext(), make(chan bool, 2))
	zz.Assert(c.closed == 1, "a connection is not closed once")
	zz.Reach("end")
}
