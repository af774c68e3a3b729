package frames

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzAnyFrame() (*FrameHeader, []byte) {
	b := zz.Bytes("frame")
	zz.Assume(len(b) >= FrameHeaderLen && uint64(len(b)) < 1<<31)
	zz.AllocBound(len(b))
	h := ParseFrameHeader(b)
	zz.Assert(h.StreamID() < 1<<31, "a stream identifier has more than 31 bits")
	h.Type()
	h.Flag()
	h.Resumable()
	return &h, b[FrameHeaderLen:]
}

func zzScenario_C06_RequestPayload() {
	h, b := zzAnyFrame()
	var f RequestPayload
	if err := f.Decode(h, b); err == nil {
		n := 0
		if t := h.Type(); t == FrameTypeRequestStream || t == FrameTypeRequestChannel {
			n = 4
		}
		if h.Flag()&FlagMetadata != 0 {
			n += 3
		}
		zz.Assert(n+len(f.Metadata)+len(f.Data) == len(b), "a frame that is too short is accepted")
	}
	zz.Reach("end")
}

func zzScenario_C06_Payload() {
	h, b := zzAnyFrame()
	var f Payload
	if err := f.Decode(h, b); err == nil {
		n := 0
		if h.Flag()&FlagMetadata != 0 {
			n += 3
		}
		zz.Assert(n+len(f.Metadata)+len(f.Data) == len(b), "a frame that is too short is accepted")
	}
	zz.Reach("end")
}

func zzScenario_C06_RequestN() {
	h, b := zzAnyFrame()
	var f RequestN
	err := f.Decode(h, b)
	zz.Assert(err != nil || len(b) >= 4, "a frame that is too short is accepted")
	zz.Reach("end")
}

func zzScenario_C06_Cancel() {
	h, b := zzAnyFrame()
	var f Cancel
	f.Decode(h, b)
	zz.Reach("end")
}

func zzScenario_C06_Error() {
	h, b := zzAnyFrame()
	var f Error
	err := f.Decode(h, b)
	zz.Assert(err != nil || len(b) >= 4, "a frame that is too short is accepted")
	zz.Reach("end")
}

// Any proper prefix of a frame with metadata that cuts into it is refused.
func zzScenario_C06_cut() {
	f := Payload{StreamID: zzID(), Metadata: zzMeta("md"), Data: []byte{}}
	zz.Assume(len(f.Metadata) > 0)
	buf := make([]byte, f.Size())
	f.Encode(buf)
	n := zz.Int(FrameHeaderLen, len(buf)-1)
	h := ParseFrameHeader(buf)
	var g Payload
	zz.Assert(g.Decode(&h, buf[FrameHeaderLen:n]) != nil, "a frame that is cut short is accepted")
	zz.Reach("end")
}
