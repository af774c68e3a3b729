package invoke

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzScenario_C28_roundtrip() {
	f := PortIO{Port: zz.Str("port"), Data: zz.Bytes("data"), Complete: zz.Bool(), Next: zz.Bool()}
	zz.Assume(len(f.Port) < 1<<16 && uint64(len(f.Data)) < 1<<31)
	b := f.Encode()
	zz.Assert(len(b) == 3+len(f.Port)+len(f.Data), "a port message has another length than the format")
	var g PortIO
	err := g.Decode(b)
	zz.Assert(err == nil, "a port message that was written is refused")
	zz.Assert(g.Port == f.Port, "the port is changed")
	zz.Assert(zz.Same(g.Data, f.Data), "the data is changed")
	zz.Assert(g.Next == f.Next && g.Complete == f.Complete, "a flag is changed")
	zz.Assert((b[0]&1 != 0) == f.Next && (b[0]&2 != 0) == f.Complete && b[0] < 4, "a flag is misplaced")
	zz.Assert(int(b[1])<<8+int(b[2]) == len(f.Port), "the port length is not 16 bits, big endian")
	zz.Reach("end")
}

func zzScenario_C28_any() {
	b := zz.Bytes("b")
	zz.Assume(uint64(len(b)) < 1<<31)
	zz.AllocBound(len(b))
	var g PortIO
	if err := g.Decode(b); err == nil {
		zz.Assert(3+len(g.Port)+len(g.Data) == len(b), "a port message that is too short is accepted")
	}
	zz.Reach("end")
}

func zzScenario_C28_cut() {
	f := PortIO{Port: zz.Str("port")}
	zz.Assume(len(f.Port) < 1<<16)
	b := f.Encode()
	var g PortIO
	err := g.Decode(b[:zz.Int(0, len(b)-1)])
	zz.Assert(err != nil, "a port message that is cut short is accepted")
	zz.Reach("end")
}
