// Package zzpeer holds scenarios every side of a connection has to pass:
// the RSocket handler, the WebAssembly guest and the WebAssembly host.
package zzpeer

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// Peer is one side of a connection.
type Peer struct {
	Caller  invoke.Caller
	Odd     uint32                                       // 1 if it gives odd stream identifiers
	Deliver func(f frames.Frame)                         // a frame arrives
	Sent    func() []frames.Frame                        // the frames sent so far
	RR      func(h invoke.RequestResponseHandler) uint32 // serves an operation, gives its index
	FNF     func(h invoke.FireAndForgetHandler) uint32
	Stream  func(h invoke.RequestStreamHandler) uint32
	Channel func(h invoke.RequestChannelHandler) uint32
}

const (
	next = iota
	complete
	failed
)

type event struct {
	kind int
	data []byte
	md   []byte
	text string
}

type log struct {
	events  []event
	finally []rx.SignalType
}

func (l *log) next(p payload.Payload) {
	l.events = append(l.events, event{kind: next, data: p.Data(), md: p.Metadata()})
}
func (l *log) complete()           { l.events = append(l.events, event{kind: complete}) }
func (l *log) error(err error)     { l.events = append(l.events, event{kind: failed, text: err.Error()}) }
func (l *log) end(s rx.SignalType) { l.finally = append(l.finally, s) }

func bytes(name string) []byte {
	b := zz.Bytes(name)
	zz.Assume(len(b) > 0 && len(b) < 100)
	return b
}

func sub(l *log) flux.Subscribe[payload.Payload] {
	return flux.Subscribe[payload.Payload]{OnNext: l.next, OnComplete: l.complete, OnError: l.error, Finally: l.end}
}

func msub(l *log) mono.Subscribe[payload.Payload] {
	return mono.Subscribe[payload.Payload]{OnSuccess: l.next, OnError: l.error, Finally: l.end}
}

// request checks the one frame a request is sent with.
func request(p *Peer, sent int, t frames.FrameType, data, md []byte) (id uint32) {
	s := p.Sent()
	zz.Assert(len(s) == sent+1, "a request is not sent in one frame")
	r, ok := s[sent].(*frames.RequestPayload)
	zz.Assert(ok && r.FrameType == t, "a request is sent as a frame of another type")
	zz.Assert(r.StreamID&1 == p.Odd && r.StreamID != 0, "a request uses a stream identifier of the other side")
	zz.Assert(zz.Same(r.Data, data) && zz.Same(r.Metadata, md), "a request is sent with other data")
	return r.StreamID
}

// Streams opens two streams and delivers frames: each reaches the stream it
// is for, in order, until that ends.
func Streams(p *Peer, steps int) {
	ctx := context.Background()
	var logs [2]log
	var want [2][]event
	var open [2]bool
	var ids [2]uint32
	for k := 0; k < 2; k++ {
		data, md := bytes("data"), bytes("metadata")
		n := len(p.Sent())
		p.Caller.RequestStream(ctx, payload.New(data, md)).Subscribe(sub(&logs[k]))
		zz.RunAny()
		ids[k] = request(p, n, frames.FrameTypeRequestStream, data, md)
		open[k] = true
	}
	zz.Assert(ids[0] != ids[1], "two streams get the same identifier")
	for i := 0; i < steps; i++ {
		k := zz.Choice(3)
		id := zz.Any[uint32]("stream")
		if k < 2 {
			id = ids[k]
		} else {
			zz.Assume(id != ids[0] && id != ids[1] && id < 1<<31)
		}
		switch zz.Choice(2) {
		case 0:
			f := frames.Payload{StreamID: id, Data: bytes("d"), Metadata: bytes("m"), Next: zz.Choice(2) == 1, Complete: zz.Choice(2) == 1}
			if k < 2 && open[k] {
				if f.Next {
					want[k] = append(want[k], event{kind: next, data: f.Data, md: f.Metadata})
				}
				if f.Complete {
					want[k] = append(want[k], event{kind: complete})
					open[k] = false
				}
			}
			p.Deliver(&f)
		case 1:
			f := frames.Error{StreamID: id, Code: frames.ErrCode(zz.Any[uint32]("code")), Data: string(bytes("text"))}
			if k < 2 && open[k] {
				want[k] = append(want[k], event{kind: failed, text: f.Data})
				open[k] = false
			}
			p.Deliver(&f)
		}
		zz.RunAny()
	}
	zz.Assert(len(p.Sent()) == 2, "a frame is answered that needs no answer")
	for k := 0; k < 2; k++ {
		zz.Assert(zz.Same(logs[k].events, want[k]), "a stream does not get exactly the frames sent to it until it ended")
		if open[k] {
			zz.Assert(len(logs[k].finally) == 0, "a stream ends while it is open")
		} else {
			zz.Assert(len(logs[k].finally) == 1, "the end of a stream is not signalled once")
		}
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Monos requests a response twice and delivers frames: each request gets the
// first answer sent to it and nothing after that.
func Monos(p *Peer, steps int) {
	ctx := context.Background()
	var logs [2]log
	var want [2][]event
	var ids [2]uint32
	for k := 0; k < 2; k++ {
		data, md := bytes("data"), bytes("metadata")
		n := len(p.Sent())
		p.Caller.RequestResponse(ctx, payload.New(data, md)).Subscribe(msub(&logs[k]))
		zz.RunAny()
		ids[k] = request(p, n, frames.FrameTypeRequestResponse, data, md)
	}
	zz.Assert(ids[0] != ids[1], "two requests get the same identifier")
	for i := 0; i < steps; i++ {
		k := zz.Choice(3)
		id := zz.Any[uint32]("stream")
		if k < 2 {
			id = ids[k]
		} else {
			zz.Assume(id != ids[0] && id != ids[1] && id < 1<<31)
		}
		switch zz.Choice(2) {
		case 0:
			f := frames.Payload{StreamID: id, Data: bytes("d"), Metadata: bytes("m"), Next: zz.Choice(2) == 1, Complete: zz.Choice(2) == 1}
			if k < 2 && len(want[k]) == 0 {
				if f.Next {
					want[k] = append(want[k], event{kind: next, data: f.Data, md: f.Metadata})
				} else if f.Complete {
					want[k] = append(want[k], event{kind: next})
				}
			}
			p.Deliver(&f)
		case 1:
			f := frames.Error{StreamID: id, Code: frames.ErrCode(zz.Any[uint32]("code")), Data: string(bytes("text"))}
			if k < 2 && len(want[k]) == 0 {
				want[k] = append(want[k], event{kind: failed, text: f.Data})
			}
			p.Deliver(&f)
		}
		zz.RunAny()
	}
	zz.Assert(len(p.Sent()) == 2, "a frame is answered that needs no answer")
	for k := 0; k < 2; k++ {
		zz.Assert(len(logs[k].events) == len(want[k]) && len(logs[k].finally) == len(want[k]), "a request is not answered once for the answer sent to it")
		for j, e := range want[k] {
			g := logs[k].events[j]
			zz.Assert(g.kind == e.kind && zz.Same(g.text, e.text) && len(g.data) == len(e.data) && len(g.md) == len(e.md), "a request gets another answer than the one sent to it")
			zz.Assert(len(e.data) == 0 || zz.Same(g, e), "a request gets another answer than the one sent to it")
		}
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Send sends requests without a response.
func Send(p *Peer) {
	data, md := bytes("data"), bytes("metadata")
	p.Caller.FireAndForget(context.Background(), payload.New(data, md))
	zz.RunAny()
	request(p, 0, frames.FrameTypeRequestFNF, data, md)
	zz.Reach("end")
}

// incoming is an unknown request for an operation.
func incoming(t frames.FrameType, op uint32) *frames.RequestPayload {
	f := frames.RequestPayload{FrameType: t, StreamID: zz.Any[uint32]("stream"), InitialN: zz.Any[uint32]("n"), Data: bytes("data"), Metadata: zz.BytesN("metadata", 8+zz.Int(0, 50))}
	zz.Assume(f.StreamID > 0 && f.StreamID < 1<<31)
	zz.Assume(f.InitialN > 0 && f.InitialN < 1<<30)
	f.Metadata[0], f.Metadata[1], f.Metadata[2], f.Metadata[3] = byte(op>>24), byte(op>>16), byte(op>>8), byte(op)
	f.Metadata[4], f.Metadata[5], f.Metadata[6], f.Metadata[7] = 0, 0, 0, 0
	return &f
}

func errorFrame(f frames.Frame, id uint32, text string) {
	e, ok := f.(*frames.Error)
	zz.Assert(ok && e.StreamID == id && zz.Same(e.Data, text), "an error is not sent to the requester")
}

func payloadFrame(f frames.Frame, id uint32, pl payload.Payload, last bool) {
	e, ok := f.(*frames.Payload)
	zz.Assert(ok && e.StreamID == id, "a response is not sent to the requester")
	zz.Assert(zz.Same(e.Data, pl.Data()) && zz.Same(e.Metadata, pl.Metadata()), "a response is sent with other data")
	zz.Assert(e.Next && e.Complete == last && !e.Follows, "a response is sent with other flags")
}

func completeFrame(f frames.Frame, id uint32) {
	e, ok := f.(*frames.Payload)
	zz.Assert(ok && e.StreamID == id && e.Complete && !e.Next && !e.Follows, "the end of a stream is not sent to the requester")
}

// Serve answers a request for a response.
func Serve(p *Peer) {
	var resp payload.Payload = payload.New(bytes("response"), bytes("response metadata"))
	fail := zz.NonNil[error]("failure")
	zz.Assume(len(fail.Error()) > 0 && len(fail.Error()) < 100)
	how := zz.Choice(4)
	late := mono.NewProcessor[payload.Payload]()
	calls := 0
	var got payload.Payload
	decoy := func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
		zz.Fail("a request reaches the handler of another operation")
		return nil
	}
	p.RR(decoy)
	op := p.RR(func(_ context.Context, in payload.Payload) mono.Mono[payload.Payload] {
		calls++
		got = in
		switch how {
		case 0:
			return mono.Just[payload.Payload](resp)
		case 1:
			return mono.Error[payload.Payload](fail)
		}
		return late
	})
	p.RR(decoy)
	f := incoming(frames.FrameTypeRequestResponse, op)
	data := f.Data
	p.Deliver(f)
	zz.RunAny()
	zz.Assert(calls == 1 && zz.Same(got.Data(), data), "a request does not reach its handler once with its data")
	switch how {
	case 2:
		zz.Assert(len(p.Sent()) == 0, "a request is answered before its handler does")
		late.Success(resp)
	case 3:
		late.Error(fail)
	}
	s := p.Sent()
	zz.Assert(len(s) == 1, "a request is not answered once")
	if how == 0 || how == 2 {
		payloadFrame(s[0], f.StreamID, resp, true)
	} else {
		errorFrame(s[0], f.StreamID, fail.Error())
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// ServeNoResponse hands a request without a response to its handler.
func ServeNoResponse(p *Peer) {
	calls := 0
	var got payload.Payload
	decoy := func(context.Context, payload.Payload) { zz.Fail("a request reaches the handler of another operation") }
	p.FNF(decoy)
	op := p.FNF(func(_ context.Context, in payload.Payload) {
		calls++
		got = in
	})
	p.FNF(decoy)
	f := incoming(frames.FrameTypeRequestFNF, op)
	data := f.Data
	p.Deliver(f)
	zz.RunAny()
	zz.Assert(calls == 1 && zz.Same(got.Data(), data), "a request does not reach its handler once with its data")
	zz.Assert(len(p.Sent()) == 0, "a request without a response is answered")
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Refuse answers requests that no handler serves, or that are malformed.
func Refuse(p *Peer) {
	served := 0
	ops := [4]uint32{
		p.RR(func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			served++
			return mono.Just[payload.Payload](payload.New(nil))
		}),
		p.FNF(func(context.Context, payload.Payload) { served++ }),
		p.Stream(func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
			served++
			return flux.Error[payload.Payload](nil)
		}),
		p.Channel(func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			served++
			return flux.Error[payload.Payload](nil)
		}),
	}
	types := [4]frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
	k := zz.Choice(4)
	f := incoming(types[k], 0)
	text := "not_found"
	if zz.Choice(2) == 0 {
		f.Metadata = zz.BytesN("metadata", zz.Int(0, 7))
		text = ""
	} else {
		op := zz.Any[uint32]("operation")
		zz.Assume(op > ops[k])
		f.Metadata[0], f.Metadata[1], f.Metadata[2], f.Metadata[3] = byte(op>>24), byte(op>>16), byte(op>>8), byte(op)
	}
	p.Deliver(f)
	zz.RunAny()
	s := p.Sent()
	zz.Assert(served == 0, "a malformed request is served")
	zz.Assert(len(s) == 1, "a request that cannot be served is not answered once")
	e, ok := s[0].(*frames.Error)
	zz.Assert(ok && e.StreamID == f.StreamID, "a request that cannot be served is not answered with an error on its stream")
	zz.Assert(text == "" || e.Data == text, "an unknown operation is not reported as not found")
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// source is a producer that emits what the scenario makes it emit.
type source struct {
	sink      flux.Sink[payload.Payload]
	requested int
	cancelled int
}

func (s *source) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.sink = sink
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) { s.requested += n },
			Cancel:  func() { s.cancelled++ },
		})
	})
}

// ServeStream serves a stream or a channel: the demand of the requester reaches the producer,
// what it produces reaches the requester in order, and cancelling stops it.
func ServeStream(p *Peer, steps int, early bool) {
	var src source
	var got payload.Payload
	calls := 0
	channel := zz.Choice(2) == 1
	var f *frames.RequestPayload
	if channel {
		decoy := func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			zz.Fail("a request reaches the handler of another operation")
			return nil
		}
		p.Channel(decoy)
		f = incoming(frames.FrameTypeRequestChannel, p.Channel(func(_ context.Context, in payload.Payload, _ flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			calls++
			got = in
			return src.flux()
		}))
		p.Channel(decoy)
	} else {
		decoy := func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
			zz.Fail("a request reaches the handler of another operation")
			return nil
		}
		p.Stream(decoy)
		f = incoming(frames.FrameTypeRequestStream, p.Stream(func(_ context.Context, in payload.Payload) flux.Flux[payload.Payload] {
			calls++
			got = in
			return src.flux()
		}))
		p.Stream(decoy)
	}
	data := f.Data
	id := f.StreamID
	demand := int(f.InitialN)
	p.Deliver(f)
	cancelled := false
	if early {
		if zz.Choice(2) == 0 {
			n := zz.Int(1, 1<<30)
			demand += n
			p.Deliver(&frames.RequestN{StreamID: id, N: uint32(n)})
		} else {
			cancelled = true
			p.Deliver(&frames.Cancel{StreamID: id})
		}
	}
	zz.RunAny()
	zz.Assert(calls == 1 && zz.Same(got.Data(), data), "a request does not reach its handler once with its data")
	open := !cancelled
	var want []payload.Payload
	ended, failedWith := false, ""
	for i := 0; i < steps; i++ {
		switch zz.Choice(5) {
		case 0:
			n := zz.Int(1, 1<<30)
			if open {
				demand += n
			}
			p.Deliver(&frames.RequestN{StreamID: id, N: uint32(n)})
		case 1:
			p.Deliver(&frames.Cancel{StreamID: id})
			cancelled = cancelled || open
			open = false
		case 2:
			var pl payload.Payload = payload.New(bytes("item"), bytes("item metadata"))
			if open {
				want = append(want, pl)
			}
			src.sink.Next(pl)
		case 3:
			ended = ended || open
			open = false
			src.sink.Complete()
		case 4:
			fail := zz.NonNil[error]("failure")
			zz.Assume(len(fail.Error()) > 0 && len(fail.Error()) < 100)
			if open {
				failedWith = fail.Error()
			}
			open = false
			src.sink.Error(fail)
		}
		zz.RunAny()
	}
	if !cancelled {
		zz.Assert(src.requested == demand, "the demand of the requester does not reach the producer")
		zz.Assert(src.cancelled == 0, "a stream is cancelled by nobody")
	} else {
		zz.Assert(src.requested <= demand, "a producer is asked for more than the requester wants")
		zz.Assert(src.cancelled == 1, "cancelling a stream does not stop its producer")
	}
	s := p.Sent()
	n := len(want)
	if ended || failedWith != "" {
		n++
	}
	zz.Assert(len(s) == n, "not every item is sent once")
	for k := 0; k < len(want); k++ {
		payloadFrame(s[k], id, want[k], false)
	}
	if ended {
		completeFrame(s[n-1], id)
	} else if failedWith != "" {
		errorFrame(s[n-1], id, failedWith)
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Ask opens a stream or a channel on demand: the demand of the subscriber reaches the
// responder, in the request and after it, the demand of the responder reaches the
// input of a channel, and cancelling ends the stream on both sides.
func Ask(p *Peer, steps int) {
	ctx := context.Background()
	var l log
	var src source
	var sub rx.Subscription
	var id uint32
	data, md := bytes("data"), bytes("metadata")
	s := flux.Subscribe[payload.Payload]{OnNext: l.next, OnComplete: l.complete, OnError: l.error, Finally: l.end, OnRequest: func(s rx.Subscription) { sub = s }}
	channel := zz.Choice(2) == 1
	t := frames.FrameTypeRequestStream
	if channel {
		t = frames.FrameTypeRequestChannel
		p.Caller.RequestChannel(ctx, payload.New(data, md), src.flux()).Subscribe(s)
	} else {
		p.Caller.RequestStream(ctx, payload.New(data, md)).Subscribe(s)
	}
	zz.RunAny()
	zz.Assert(len(p.Sent()) == 0, "a stream is requested before its subscriber asks for items")
	demand, inDemand, sentDemand := 0, 0, 0
	open, cancelled := true, false
	var items []payload.Payload
	ended, must := 0, 0
	for i := 0; i < steps; i++ {
		op := zz.Choice(6)
		if i == 0 {
			op = 0
		}
		if !channel {
			zz.Assume(op < 3)
		}
		switch op {
		case 0:
			n := zz.Int(1, 1<<30)
			if open {
				demand += n
			}
			sub.Request(n)
			if i == 0 {
				zz.RunAny()
				id = request(p, 0, t, data, md)
			}
		case 1:
			sub.Cancel()
			cancelled = cancelled || open
			open = false
		case 2:
			p.Deliver(&frames.Payload{StreamID: id, Complete: true})
			open = false
		case 3:
			n := zz.Int(1, 1<<30)
			if open && ended == 0 {
				inDemand += n
			}
			p.Deliver(&frames.RequestN{StreamID: id, N: uint32(n)})
		case 4:
			var pl payload.Payload = payload.New(bytes("item"), bytes("item metadata"))
			if ended == 0 {
				items = append(items, pl)
				if open {
					must = len(items)
				}
			}
			src.sink.Next(pl)
		case 5:
			ended = 1
			if open {
				must = -1
			}
			src.sink.Complete()
		}
		zz.RunAny()
	}
	cancels := 0
	n, ends := 0, 0
	for k, f := range p.Sent() {
		switch f := f.(type) {
		case *frames.RequestPayload:
			zz.Assert(k == 0, "a stream is requested twice")
			sentDemand += int(f.InitialN)
		case *frames.RequestN:
			zz.Assert(f.StreamID == id, "demand is sent for another stream")
			sentDemand += int(f.N)
		case *frames.Cancel:
			zz.Assert(f.StreamID == id, "another stream is cancelled")
			cancels++
		case *frames.Payload:
			if f.Next {
				zz.Assert(n < len(items) && ends == 0, "an item is sent that nobody produced")
				payloadFrame(f, id, items[n], false)
				n++
			} else {
				completeFrame(f, id)
				ends++
			}
		default:
			zz.Fail("another frame is sent")
		}
	}
	zz.Assert(sentDemand == demand, "the demand of a subscriber does not reach the responder")
	if cancelled {
		zz.Assert(cancels == 1 && len(l.events) == 0, "cancelling does not end the stream once")
	} else {
		zz.Assert(cancels == 0, "a stream is cancelled by nobody")
	}
	if channel {
		zz.Assert(src.requested == inDemand, "the demand of the responder does not reach the input of a channel")
		zz.Assert(n >= must && ends <= ended && (must >= 0 || n == len(items) && ends == 1), "not every item of the input of a channel is sent")
	}
	if open {
		zz.Assert(len(l.finally) == 0 && len(l.events) == 0, "a stream ends by itself")
	} else {
		zz.Assert(len(l.finally) == 1, "the end of a stream is not signalled once")
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Inbound serves a channel: what the requester sends reaches the handler in order, and the
// demand of the handler reaches the requester.
func Inbound(p *Peer, steps int) {
	var l log
	var sub rx.Subscription
	var src source
	f := incoming(frames.FrameTypeRequestChannel, p.Channel(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		in.Subscribe(flux.Subscribe[payload.Payload]{OnNext: l.next, OnComplete: l.complete, OnError: l.error, Finally: l.end, OnRequest: func(s rx.Subscription) { sub = s }})
		return src.flux()
	}))
	id := f.StreamID
	p.Deliver(f)
	zz.RunAny()
	zz.Assert(len(p.Sent()) == 0, "a channel sends by itself")
	demand := 0
	open, cancelled := true, false
	var want []event
	for i := 0; i < steps; i++ {
		switch zz.Choice(5) {
		case 0:
			n := zz.Int(1, 1<<30)
			if open {
				demand += n
			}
			sub.Request(n)
		case 1:
			sub.Cancel()
			cancelled = cancelled || open
			open = false
		case 2:
			f := frames.Payload{StreamID: id, Data: bytes("d"), Metadata: bytes("m"), Next: true}
			if open {
				want = append(want, event{kind: next, data: f.Data, md: f.Metadata})
			}
			p.Deliver(&f)
		case 3:
			if open {
				want = append(want, event{kind: complete})
			}
			open = false
			p.Deliver(&frames.Payload{StreamID: id, Complete: true})
		case 4:
			f := frames.Error{StreamID: id, Data: string(bytes("text"))}
			if open {
				want = append(want, event{kind: failed, text: f.Data})
			}
			open = false
			p.Deliver(&f)
		}
		zz.RunAny()
	}
	zz.Assert(zz.Same(l.events, want), "a channel does not get exactly what the requester sends until it ends")
	sent, cancels := 0, 0
	for _, f := range p.Sent() {
		switch f := f.(type) {
		case *frames.RequestN:
			zz.Assert(f.StreamID == id, "demand is sent for another stream")
			sent += int(f.N)
		case *frames.Cancel:
			zz.Assert(f.StreamID == id, "another stream is cancelled")
			cancels++
		default:
			zz.Fail("another frame is sent")
		}
	}
	zz.Assert(sent == demand, "the demand of a channel does not reach the requester")
	if cancelled {
		zz.Assert(cancels == 1, "cancelling the input of a channel does not reach the requester")
	} else {
		zz.Assert(cancels == 0, "the input of a channel is cancelled by nobody")
	}
	if open {
		zz.Assert(len(l.finally) == 0, "the input of a channel ends by itself")
	} else {
		zz.Assert(len(l.finally) == 1, "the end of the input of a channel is not signalled once")
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Chaos delivers unknown frames to a stream of every kind: nothing panics and no lock is kept.
func Chaos(p *Peer, k, first, steps int) {
	ctx := context.Background()
	var src, out source
	var l log
	var ids [5]uint32
	p.Caller.RequestStream(ctx, payload.New(bytes("data"), bytes("metadata"))).Subscribe(sub(&l))
	p.Caller.RequestChannel(ctx, payload.New(bytes("data"), bytes("metadata")), src.flux()).Subscribe(sub(&l))
	p.Caller.RequestResponse(ctx, payload.New(bytes("data"), bytes("metadata"))).Subscribe(msub(&l))
	zz.RunSpawned()
	for k, f := range p.Sent() {
		ids[k] = f.(*frames.RequestPayload).StreamID
	}
	f := incoming(frames.FrameTypeRequestStream, p.Stream(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return out.flux() }))
	g := incoming(frames.FrameTypeRequestChannel, p.Channel(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		in.Subscribe(sub(&l))
		return in
	}))
	zz.Assume(f.StreamID&1 != p.Odd && g.StreamID&1 != p.Odd && f.StreamID != g.StreamID)
	ids[3], ids[4] = f.StreamID, g.StreamID
	p.Deliver(f)
	p.Deliver(g)
	zz.RunSpawned()
	id := ids[k]
	for i := 0; i < steps; i++ {
		kind := first
		if i > 0 || first < 0 {
			kind = zz.Choice(5)
		}
		switch kind {
		case 0:
			p.Deliver(&frames.Payload{StreamID: id, Data: bytes("d"), Metadata: bytes("m"), Next: zz.Bool(), Complete: zz.Bool(), Follows: zz.Bool()})
		case 1:
			p.Deliver(&frames.Error{StreamID: id, Data: string(bytes("text"))})
		case 2:
			p.Deliver(&frames.RequestN{StreamID: id, N: zz.Any[uint32]("n") >> 1})
		case 3:
			p.Deliver(&frames.Cancel{StreamID: id})
		case 4:
			types := [4]frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
			f := incoming(types[zz.Choice(4)], 0)
			f.Metadata = zz.BytesN("metadata", zz.Int(0, 20))
			p.Deliver(f)
		}
		zz.RunSpawned()
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Put writes a frame behind its length and gives the number of bytes written.
func Put(b []byte, f frames.Frame) uint32 {
	n := f.Size()
	b[0], b[1], b[2] = byte(n>>16), byte(n>>8), byte(n)
	f.Encode(b[3:])
	return 3 + n
}

// Wire reads the frames written one behind another, each behind its length.
func Wire(b []byte) (list []frames.Frame) {
	for len(b) > 0 {
		zz.Assert(len(b) >= 3, "a buffer ends within a length")
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		b = b[3:]
		zz.Assert(n >= frames.FrameHeaderLen && n <= len(b), "a length is not that of its frame")
		c := make([]byte, n)
		copy(c, b)
		b = b[n:]
		h := frames.ParseFrameHeader(c)
		var f frames.Frame
		switch h.Type() {
		case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
			f = &frames.RequestPayload{FrameType: h.Type()}
		case frames.FrameTypeRequestN:
			f = &frames.RequestN{}
		case frames.FrameTypeCancel:
			f = &frames.Cancel{}
		case frames.FrameTypePayload:
			f = &frames.Payload{}
		case frames.FrameTypeError:
			f = &frames.Error{}
		default:
			zz.Fail("a frame of an unknown type is sent")
		}
		err := f.Decode(&h, c[frames.FrameHeaderLen:])
		zz.Assert(err == nil, "a malformed frame is sent")
		list = append(list, f)
	}
	return list
}

// Ids makes two requests of any kinds: their identifiers keep to the side
// and differ.
func Ids(p *Peer) {
	ctx := context.Background()
	var l log
	for k := 0; k < 2; k++ {
		var src source
		pl := payload.New(bytes("data"), bytes("metadata"))
		switch zz.Choice(4) {
		case 0:
			p.Caller.RequestResponse(ctx, pl).Subscribe(msub(&l))
		case 1:
			p.Caller.FireAndForget(ctx, pl)
		case 2:
			p.Caller.RequestStream(ctx, pl).Subscribe(sub(&l))
		case 3:
			p.Caller.RequestChannel(ctx, pl, src.flux()).Subscribe(sub(&l))
		}
		zz.RunAny()
	}
	s := p.Sent()
	zz.Assert(len(s) == 2, "a request is not sent in one frame")
	a, b := s[0].GetStreamID(), s[1].GetStreamID()
	zz.Assert(a != 0 && b != 0 && a < 1<<31 && b < 1<<31, "a stream identifier is zero or too large")
	zz.Assert(a&1 == p.Odd && b&1 == p.Odd, "a request uses a stream identifier of the other side")
	zz.Assert(a != b, "two requests get the same identifier")
	zz.Reach("end")
}

type key struct{}

// Context serves a request made on behalf of one that is open: its handler
// runs in the context of that.
func Context(p *Peer, kind int) {
	var l log
	var src source
	value := new(int)
	ctx := context.WithValue(context.Background(), key{}, value)
	pl := payload.New(bytes("data"), bytes("metadata"))
	switch zz.Choice(3) {
	case 0:
		p.Caller.RequestResponse(ctx, pl).Subscribe(msub(&l))
	case 1:
		p.Caller.RequestStream(ctx, pl).Subscribe(sub(&l))
	case 2:
		p.Caller.RequestChannel(ctx, pl, src.flux()).Subscribe(sub(&l))
	}
	zz.RunAny()
	id := p.Sent()[0].GetStreamID()
	var in []context.Context
	ids := []uint32{}
	serve := func(kind int, parent uint32) {
		var f *frames.RequestPayload
		switch kind {
		case 0:
			f = incoming(frames.FrameTypeRequestResponse, p.RR(func(ctx context.Context, _ payload.Payload) mono.Mono[payload.Payload] {
				in = append(in, ctx)
				return mono.NewProcessor[payload.Payload]()
			}))
		case 1:
			f = incoming(frames.FrameTypeRequestFNF, p.FNF(func(ctx context.Context, _ payload.Payload) { in = append(in, ctx) }))
		case 2:
			f = incoming(frames.FrameTypeRequestStream, p.Stream(func(ctx context.Context, _ payload.Payload) flux.Flux[payload.Payload] {
				in = append(in, ctx)
				return src.flux()
			}))
		case 3:
			f = incoming(frames.FrameTypeRequestChannel, p.Channel(func(ctx context.Context, _ payload.Payload, _ flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				in = append(in, ctx)
				return src.flux()
			}))
		}
		zz.Assume(f.StreamID&1 != p.Odd)
		for _, o := range ids {
			zz.Assume(f.StreamID != o)
		}
		ids = append(ids, f.StreamID)
		f.Metadata[4], f.Metadata[5], f.Metadata[6], f.Metadata[7] = byte(parent>>24), byte(parent>>16), byte(parent>>8), byte(parent)
		p.Deliver(f)
		zz.RunAny()
		zz.Assert(len(in) == len(ids), "a request does not reach its handler once")
	}
	switch zz.Choice(3) {
	case 0:
		serve(kind, id)
		zz.Assert(in[0].Value(key{}) == any(value), "a request does not run in the context of the one it is made for")
		if kind > 1 { // and one made for that
			serve(zz.Choice(4), ids[0])
			zz.Assert(in[1].Value(key{}) == any(value), "a request does not run in the context of the one it is made for")
		}
	case 1: // made for itself
		serve(kind, 0)
		zz.Assert(in[0].Value(key{}) == nil, "a request runs in the context of another one")
	case 2: // made for one that is unknown
		other := zz.Any[uint32]("parent")
		zz.Assume(other != id && other < 1<<31)
		zz.Assume(other&1 == p.Odd)
		serve(kind, other)
		zz.Assert(in[0].Value(key{}) == nil, "a request runs in the context of another one")
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Own serves a request: its handler finds the stream of the request in its
// context, and what the context of the connection holds.
func Own(p *Peer, with func(context.Context) bool) {
	var in context.Context
	calls := 0
	var f *frames.RequestPayload
	if zz.Choice(2) == 0 {
		f = incoming(frames.FrameTypeRequestResponse, p.RR(func(ctx context.Context, _ payload.Payload) mono.Mono[payload.Payload] {
			calls++
			in = ctx
			return mono.NewProcessor[payload.Payload]()
		}))
	} else {
		f = incoming(frames.FrameTypeRequestFNF, p.FNF(func(ctx context.Context, _ payload.Payload) {
			calls++
			in = ctx
		}))
	}
	p.Deliver(f)
	zz.RunAny()
	zz.Assert(calls == 1, "a request does not reach its handler once")
	s, ok := proxy.FromContext(in)
	zz.Assert(ok && s.StreamID() == f.StreamID, "a handler does not find the stream of its request")
	zz.Assert(with(in), "a handler does not run in the context of its connection")
	zz.Assert(with(s.Context()), "the stream of a request is not in the context of its connection")
	zz.Reach("end")
}
