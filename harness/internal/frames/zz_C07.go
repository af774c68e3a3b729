package frames

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzWhole: the fragments are within the limit and put together are the frame.
func zzWhole(f Fragmentable, max uint32, md, data []byte, id uint32, next, complete bool) {
	frags := f.Fragment(max)
	if f.Size() <= max {
		zz.Assert(len(frags) == 0, "a frame within the limit is fragmented")
		zz.Reach("whole")
		return
	}
	var m, d []byte
	for i, x := range frags {
		last := i == len(frags)-1
		zz.Assert(x.Size() <= max, "a fragment is larger than the limit")
		zz.Assert(x.GetStreamID() == id, "a fragment is on another stream")
		switch g := x.(type) {
		case *RequestPayload:
			zz.Assert(i == 0 && !last, "a request is not the first of several fragments")
			zz.Assert(g.FrameType == f.Type(), "the first fragment is another request")
			zz.Assert(g.Follows && !g.Complete, "the first fragment does not announce more")
			m, d = append(m, g.Metadata...), append(d, g.Data...)
		case *Payload:
			zz.Assert(g.Follows == !last, "the follows flag does not tell whether more fragments come")
			zz.Assert(g.Next == (next && last), "the next flag is not on the last fragment")
			zz.Assert(g.Complete == (complete && last), "the complete flag is not on the last fragment")
			m, d = append(m, g.Metadata...), append(d, g.Data...)
		default:
			zz.Fail("a fragment is neither a request nor a payload")
		}
	}
	zz.Assert(string(m) == string(md), "metadata is lost or changed by fragmentation")
	zz.Assert(string(d) == string(data), "data is lost or changed by fragmentation")
	zz.Reach("end")
}

func zzParts() (md, data []byte, max uint32) {
	md, data = zzMeta("md"), zzData("data")
	max = uint32(zz.Int(64, 1<<24))
	return
}

// Frames of up to about three fragments.

func zzScenario_C07_Payload_data() {
	_, data, max := zzParts()
	zz.Assume(uint32(len(data)) <= 2*max)
	f := &Payload{StreamID: zzID(), Data: data, Next: zz.Bool(), Complete: zz.Bool()}
	zzWhole(f, max, nil, data, f.StreamID, f.Next, f.Complete)
}

func zzScenario_C07_Payload_metadata() {
	md, data, max := zzParts()
	zz.Assume(uint32(len(md)) <= max && uint32(len(data)) <= max)
	f := &Payload{StreamID: zzID(), Metadata: md, Data: data, Next: zz.Bool(), Complete: zz.Bool()}
	zzWhole(f, max, md, data, f.StreamID, f.Next, f.Complete)
}

func zzRequestFragments(t FrameType) {
	md, data, max := zzParts()
	zz.Assume(uint32(len(md)) <= max && uint32(len(data)) <= max)
	f := &RequestPayload{FrameType: t, StreamID: zzID(), Metadata: md, Data: data, Complete: zz.Bool(), InitialN: zz.Any[uint32]("n")}
	zzWhole(f, max, md, data, f.StreamID, true, f.Complete)
}

func zzScenario_C07_RequestResponse() { zzRequestFragments(FrameTypeRequestResponse) }
func zzScenario_C07_RequestChannel()  { zzRequestFragments(FrameTypeRequestChannel) }
