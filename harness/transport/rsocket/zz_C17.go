package rsocket

import (
	"io"

	"github.com/nanobus/iota/go/internal/frames"
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzPrefixed are bytes behind their length.
func zzPrefixed(d []byte) []byte {
	n := len(d)
	return append([]byte{byte(n >> 16), byte(n >> 8), byte(n)}, d...)
}

// The bytes sent are split into the frames they were sent in, however they are cut into pieces,
// and frames stay as they are when others are read.
func zzSplit(n, cuts int) {
	w := &zzNet{cuts: cuts}
	var sent, got [][]byte
	for k := 0; k < n; k++ {
		d := zz.Bytes("frame")
		zz.Assume(len(d) >= 6 && len(d) < 1<<24)
		sent = append(sent, d)
		w.wire = append(w.wire, zzPrefixed(d)...)
	}
	in := NewLengthBasedFrameDecoder(w)
	for k := 0; k < n; k++ {
		raw, err := in.Read()
		zz.Assert(err == nil, "a frame that was sent is not read")
		got = append(got, raw)
	}
	for k := range sent {
		zz.Assert(zz.Same(got[k], sent[k]), "a frame is read as other bytes than were sent")
	}
	_, err := in.Read()
	zz.Assert(err == io.EOF, "more is read than was sent")
	zz.Reach("end")
}

func zzScenario_C17_two() { zzSplit(2, 0) }

// Any bytes are split into a frame and what follows, more bytes are waited for, or they are refused.
func zzScenario_C17_any() {
	d := zz.Bytes("data")
	eof := zz.Bool()
	if zz.Choice(2) == 0 {
		zz.Assume(len(d) < 3)
		n, token, err := doSplit(d, eof)
		zz.Assert(n == 0 && token == nil && err == nil, "a length that is not there yet is used")
		return
	}
	zz.Assume(len(d) >= 3)
	l := int(d[0])<<16 | int(d[1])<<8 | int(d[2])
	switch zz.Choice(3) {
	case 0:
		zz.Assume(l == 0)
		_, _, err := doSplit(d, eof)
		zz.Assert(err != nil, "an empty frame is accepted")
	case 1:
		zz.Assume(l > 0 && len(d) < 3+l)
		n, token, err := doSplit(d, eof)
		zz.Assert(n == 0 && token == nil && err == nil, "a frame that is not there yet is used")
	default:
		zz.Assume(l > 0 && len(d) >= 3+l)
		n, token, err := doSplit(d, eof)
		zz.Assert(n == 3+l && err == nil && zz.Same(token, d[:3+l]), "a frame is split off wrongly")
	}
	zz.Reach("end")
}

// What is read is what the bytes of the frame mean for frames of their type.
func zzScenario_C17_frame() {
	d := zz.Bytes("frame")
	zz.Assume(len(d) >= 6 && len(d) < 1<<24)
	h := frames.ParseFrameHeader(d)
	var want frames.Frame
	switch zz.Choice(9) {
	case 0:
		zz.Assume(h.Type() == frames.FrameTypeRequestResponse)
		want = &frames.RequestPayload{}
	case 1:
		zz.Assume(h.Type() == frames.FrameTypeRequestFNF)
		want = &frames.RequestPayload{}
	case 2:
		zz.Assume(h.Type() == frames.FrameTypeRequestStream)
		want = &frames.RequestPayload{}
	case 3:
		zz.Assume(h.Type() == frames.FrameTypeRequestChannel)
		want = &frames.RequestPayload{}
	case 4:
		zz.Assume(h.Type() == frames.FrameTypePayload)
		want = &frames.Payload{}
	case 5:
		zz.Assume(h.Type() == frames.FrameTypeError)
		want = &frames.Error{}
	case 6:
		zz.Assume(h.Type() == frames.FrameTypeRequestN)
		want = &frames.RequestN{}
	case 7:
		zz.Assume(h.Type() == frames.FrameTypeCancel)
		want = &frames.Cancel{}
	default:
		t := h.Type()
		zz.Assume(t < frames.FrameTypeRequestResponse || t > frames.FrameTypeError)
		_, err := NewTCPConn(&zzNet{wire: zzPrefixed(d)}).Read()
		zz.Assert(err != nil && err != io.EOF, "a frame of an unknown type is accepted")
		return
	}
	if zz.Choice(2) == 0 {
		zz.Assume(h.Flag().Check(frames.FlagMetadata))
	} else {
		zz.Assume(!h.Flag().Check(frames.FlagMetadata))
	}
	bad := want.Decode(&h, d[6:])
	got, err := NewTCPConn(&zzNet{wire: zzPrefixed(d)}).Read()
	zz.Assert((err == nil) == (bad == nil), "a frame is refused that has a meaning or read though it has none")
	if err == nil && bad == nil {
		zz.Assert(zzEqual(got, want), "a frame is read as another one than its bytes mean")
	}
	zz.Reach("end")
}

// Any bytes give frames, errors or the end, never a panic.
func zzScenario_C17_malformed() {
	d := zz.Bytes("frame")
	zz.Assume(len(d) < 1<<24)
	in := NewTCPConn(&zzNet{wire: zzPrefixed(d)})
	f, err := in.Read()
	zz.Assert(err != nil || f != nil, "neither a frame nor an error is read")
	zz.Assert(len(d) >= 6 || err != nil && err != io.EOF, "bytes too short for a frame are accepted")
	zz.Reach("end")
}
