package frames

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzRequest(t FrameType) {
	f := RequestPayload{FrameType: t, StreamID: zzID(), Metadata: zzMeta("md"), Data: zzData("data"),
		Follows: zz.Bool(), Complete: zz.Bool(), InitialN: zz.Any[uint32]("n")}
	h, b := zzSend(&f)
	var g RequestPayload
	err := g.Decode(h, b)
	zz.Assert(err == nil, "an encoded frame is refused")
	zz.Assert(g.Type() == t && g.GetStreamID() == f.StreamID, "type or stream is lost")
	zz.Assert(zz.Same(g.Data, f.Data), "data is changed")
	zz.Assert(string(g.Metadata) == string(f.Metadata), "metadata is changed")
	zz.Assert(g.Follows == f.Follows, "the follows flag is changed")
	if t == FrameTypeRequestStream || t == FrameTypeRequestChannel {
		zz.Assert(g.InitialN == f.InitialN, "the initial demand is changed")
	} else {
		zz.Assert(g.InitialN == 1, "a single request demands more than one item")
	}
	if t == FrameTypeRequestChannel {
		zz.Assert(g.Complete == f.Complete, "the complete flag is changed")
	} else {
		zz.Assert(g.Complete, "a request without an inbound stream is not complete")
	}
	zz.Reach("end")
}

func zzScenario_C05_RequestResponse() { zzRequest(FrameTypeRequestResponse) }
func zzScenario_C05_RequestFNF()      { zzRequest(FrameTypeRequestFNF) }
func zzScenario_C05_RequestStream()   { zzRequest(FrameTypeRequestStream) }
func zzScenario_C05_RequestChannel()  { zzRequest(FrameTypeRequestChannel) }

func zzScenario_C05_Payload() {
	f := Payload{StreamID: zzID(), Metadata: zzMeta("md"), Data: zzData("data"),
		Follows: zz.Bool(), Complete: zz.Bool(), Next: zz.Bool()}
	h, b := zzSend(&f)
	var g Payload
	err := g.Decode(h, b)
	zz.Assert(err == nil, "an encoded frame is refused")
	zz.Assert(g.Type() == FrameTypePayload && g.GetStreamID() == f.StreamID, "type or stream is lost")
	zz.Assert(zz.Same(g.Data, f.Data), "data is changed")
	zz.Assert(string(g.Metadata) == string(f.Metadata), "metadata is changed")
	zz.Assert(g.Follows == f.Follows, "the follows flag is changed")
	zz.Assert(g.Complete == f.Complete, "the complete flag is changed")
	zz.Assert(g.Next == f.Next, "the next flag is changed")
	zz.Reach("end")
}

func zzScenario_C05_RequestN() {
	f := RequestN{StreamID: zzID(), N: zz.Any[uint32]("n")}
	h, b := zzSend(&f)
	var g RequestN
	err := g.Decode(h, b)
	zz.Assert(err == nil && g == f, "a demand frame is changed")
	zz.Assert(g.Type() == FrameTypeRequestN && g.GetStreamID() == f.StreamID, "type or stream is lost")
	zz.Reach("end")
}

func zzScenario_C05_Cancel() {
	f := Cancel{StreamID: zzID()}
	h, b := zzSend(&f)
	var g Cancel
	err := g.Decode(h, b)
	zz.Assert(err == nil && g == f, "a cancel frame is changed")
	zz.Assert(g.Type() == FrameTypeCancel && g.GetStreamID() == f.StreamID, "type or stream is lost")
	zz.Reach("end")
}

func zzScenario_C05_Error() {
	f := Error{StreamID: zzID(), Code: ErrCode(zz.Any[uint32]("code")), Data: zz.Str("msg")}
	zz.Assume(len(f.Data) < 1<<30)
	h, b := zzSend(&f)
	var g Error
	err := g.Decode(h, b)
	zz.Assert(err == nil && g == f, "an error frame is changed")
	zz.Assert(g.Type() == FrameTypeError && g.GetStreamID() == f.StreamID, "type or stream is lost")
	zz.Reach("end")
}

// The wire layout other implementations expect.

func zzScenario_C05_layout_header() {
	id := zzID()
	f := Payload{StreamID: id, Metadata: zzMeta("md"), Data: []byte{7}, Follows: zz.Bool(), Complete: zz.Bool(), Next: zz.Bool()}
	buf := make([]byte, f.Size())
	f.Encode(buf)
	zz.Assert(buf[0] == byte(id>>24) && buf[1] == byte(id>>16) && buf[2] == byte(id>>8) && buf[3] == byte(id), "the stream is not big endian in the first four bytes")
	zz.Assert(buf[4]>>2 == 0x0A, "the type is not the upper six bits of the fifth byte")
	zz.Assert(buf[4]&2 == 0, "the ignore flag is set")
	zz.Assert((buf[4]&1 != 0) == (len(f.Metadata) > 0), "the metadata flag is wrong")
	zz.Assert((buf[5]&0x80 != 0) == f.Follows, "the follows flag is wrong")
	zz.Assert((buf[5]&0x40 != 0) == f.Complete, "the complete flag is wrong")
	zz.Assert((buf[5]&0x20 != 0) == f.Next, "the next flag is wrong")
	zz.Assert(buf[5]&0x1f == 0, "reserved flags are set")
	if n := len(f.Metadata); n > 0 {
		zz.Assert(buf[6] == byte(n>>16) && buf[7] == byte(n>>8) && buf[8] == byte(n), "the metadata length is not 24 bits, big endian")
	}
	zz.Assert(buf[len(buf)-1] == 7, "data does not end the frame")
	zz.Reach("end")
}

func zzScenario_C05_layout_types() {
	t := []FrameType{FrameTypeRequestResponse, FrameTypeRequestFNF, FrameTypeRequestStream, FrameTypeRequestChannel}
	for i, x := range t {
		n := zz.Any[uint32]("n")
		f := RequestPayload{FrameType: x, StreamID: zzID(), InitialN: n, Data: []byte{1}}
		buf := make([]byte, f.Size())
		f.Encode(buf)
		zz.Assert(int(buf[4]>>2) == 4+i, "a request has the type of another")
		if i >= 2 {
			zz.Assert(buf[6] == byte(n>>24) && buf[7] == byte(n>>16) && buf[8] == byte(n>>8) && buf[9] == byte(n), "the initial demand does not follow the header")
		}
	}
	n := zz.Any[uint32]("n")
	fs := []Frame{&RequestN{StreamID: zzID(), N: n}, &Cancel{StreamID: zzID()}, &Error{StreamID: zzID(), Code: ErrCode(n), Data: "x"}}
	ts := []byte{8, 9, 11}
	for i, f := range fs {
		buf := make([]byte, f.Size())
		f.Encode(buf)
		zz.Assert(buf[4] == ts[i]<<2 && buf[5] == 0, "a frame has the type of another or flags")
		if i != 1 {
			zz.Assert(buf[6] == byte(n>>24) && buf[7] == byte(n>>16) && buf[8] == byte(n>>8) && buf[9] == byte(n), "the number does not follow the header")
		}
	}
	zz.Reach("end")
}

func zzScenario_C05_header() {
	id, t, fl := zz.Any[uint32]("id"), FrameType(zz.Int(0, 63)), FrameFlag(zz.Int(0, 1023))
	h := NewFrameHeader(id, t, fl)
	zz.Assert(h.StreamID() == id&0x7fffffff, "the stream of a header is not kept")
	zz.Assert(h.Type() == t && h.Flag() == fl, "the type or flags of a header are not kept")
	b := make([]byte, FrameHeaderLen)
	ResetFrameHeader(b, id, t, fl)
	g := ParseFrameHeader(b)
	zz.Assert(g == h, "two ways to write a header differ")
	zz.Assert(zz.Same(h.Bytes(), b), "two ways to write a header differ")
	zz.Reach("end")
}
