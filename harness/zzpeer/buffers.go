package zzpeer

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/payload"
)

// Raw is a frame of which only the bytes matter.
type Raw struct{ Data []byte }

func (f *Raw) GetStreamID() uint32                      { return 0 }
func (f *Raw) Type() frames.FrameType                   { return frames.FrameTypePayload }
func (f *Raw) Decode(*frames.FrameHeader, []byte) error { return nil }
func (f *Raw) Encode(buf []byte)                        { copy(buf, f.Data) }
func (f *Raw) Size() uint32                             { return uint32(len(f.Data)) }

// Prefixed appends bytes behind their length.
func Prefixed(to, d []byte) []byte {
	n := len(d)
	to = append(to, byte(n>>16), byte(n>>8), byte(n))
	return append(to, d...)
}

// Unsent makes a request that cannot be sent: it fails, once.
func Unsent(p *Peer, data []byte) {
	ctx := context.Background()
	l := log{}
	pl := payload.New(data, bytes("metadata"))
	switch zz.Choice(3) {
	case 0:
		p.Caller.RequestResponse(ctx, pl).Subscribe(msub(&l))
	case 1:
		p.Caller.RequestStream(ctx, pl).Subscribe(sub(&l))
	case 2:
		in := &source{}
		p.Caller.RequestChannel(ctx, pl, in.flux()).Subscribe(sub(&l))
	}
	zz.RunAny()
	zz.Assert(len(p.Sent()) == 0, "a request that cannot be sent is sent in part")
	zz.Assert(len(l.events) == 1 && l.events[0].kind == failed, "a request that cannot be sent does not fail")
	zz.Assert(len(l.finally) == 1, "the end of a request is not signalled once")
	f := frames.Payload{StreamID: zz.Any[uint32]("stream"), Data: bytes("d"), Metadata: bytes("m"), Next: true, Complete: true}
	zz.Assume(f.StreamID < 1<<31)
	p.Deliver(&f)
	zz.RunAny()
	zz.Assert(len(l.events) == 1 && len(l.finally) == 1, "a request goes on after it failed")
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Arrive opens a stream and lets frames for it arrive together, with other
// bytes before and after them: it gets each.
func Arrive(p *Peer, arrive func([]byte)) {
	ctx := context.Background()
	l := log{}
	n := len(p.Sent())
	data, md := bytes("data"), bytes("metadata")
	p.Caller.RequestStream(ctx, payload.New(data, md)).Subscribe(sub(&l))
	zz.RunAny()
	id := request(p, n, frames.FrameTypeRequestStream, data, md)
	var items [2][]byte
	var wire []byte
	if zz.Choice(2) == 0 { // a frame too short for its header
		short := zz.BytesN("short", zz.Choice(6))
		wire = Prefixed(wire, short)
	}
	for k := range items {
		items[k] = zz.Bytes("item")
		zz.Assume(len(items[k]) > 0 && len(items[k]) < 8000)
		h := []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), 0x28, 0x20} // PAYLOAD, NEXT
		wire = Prefixed(wire, append(h, items[k]...))
	}
	if zz.Choice(2) == 0 { // a frame that is cut
		cut := zz.Bytes("cut")
		zz.Assume(len(cut) < 50)
		if zz.Choice(2) == 0 {
			zz.Assume(len(cut) < 3)
		} else {
			zz.Assume(len(cut) >= 3)
			zz.Assume(int(cut[0])<<16|int(cut[1])<<8|int(cut[2]) > len(cut)-3)
		}
		wire = append(wire, cut...)
	}
	arrive(wire)
	zz.RunAny()
	zz.Assert(len(l.events) == 2 && len(l.finally) == 0, "a frame that arrived whole is not taken, or one that did not is")
	for k := range items {
		zz.Assert(l.events[k].kind == next && zz.Same(l.events[k].data, items[k]), "a frame arrives changed")
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}
